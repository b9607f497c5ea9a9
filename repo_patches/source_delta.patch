From 0094b23b49892fb5d3d2fdf2a55bef1ab4227f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 01/35] fix: pairwise() over an empty series raised
 RuntimeError (PEP 479)

Files without traces could not be read and empty catalogs could not be built.
---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From ae51be0ea27a4ef365c0bc6b22e5e29bde827a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 02/35] fix: catalog_traces() reported progress values greater
 than one

---
 segpy/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..d00d597 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +410,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 4)
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From 05b7f162ed7c49c6c1b857d92e4e99a2ddccd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 03/35] fix: pickling a header lost the values of inherited
 fields

---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From 21eac69d88edfc442e9f1c68af60cca7d8a65394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 04/35] fix: format_extended_textual_header() dropped blank
 lines

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index d00d597..eba6b64 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -723,7 +723,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From 4f0b4d8aae073d448c61c982b56ac6a60b1e2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 05/35] fix: positive and negative IBMFloat zeros compared
 unequal

---
 segpy/ibm_float.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..2dc8cd0 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -324,6 +324,9 @@ class IBMFloat(Real):
         if lhs._data == rhs._data:
             return True
 
+        if lhs.is_zero() and rhs.is_zero():
+            return True
+
         lhs_sign = lhs.signbit
         rhs_sign = rhs.signbit
 
-- 
2.43.0


From 660fae3acd830a3acd8a1b352165b6152609fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 06/35] fix: reversed(ReversedSequenceView) did not return an
 iterator

---
 segpy/reversed_sequence_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reversed_sequence_view.py b/segpy/reversed_sequence_view.py
index 1ee4769..58e9cec 100644
--- a/segpy/reversed_sequence_view.py
+++ b/segpy/reversed_sequence_view.py
@@ -23,7 +23,7 @@ class ReversedSequenceView(Sequence):
         return self._sequence.count(item)
 
     def __reversed__(self):
-        return self._sequence
+        return iter(self._sequence)
 
     def index(self, item):
         # TODO: Add support for start and stop
-- 
2.43.0


From 45d2de7627c657c99add3ec6d291083f2e72d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 07/35] fix: make_sorted_distinct_sequence(sense=None) lost the
 items of an iterator

---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From 3ce4dc481b9816572654134b9b6bb2bd20d9f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 08/35] fix: headers whose fields are not declared in offset
 order were unpacked into the wrong fields

---
 segpy/packer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..a77485d 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -131,9 +131,12 @@ def make_header_packer(header_format_class, endian='>'):
         endian)
     structure = Struct(cformat)
 
+    # Positional construction is only possible if the fields are declared in the order in which they are laid out
     one_to_one = all(len(fields) == 1 for fields in field_name_allocations)
+    in_order = (tuple(fields[0] for fields in field_name_allocations)
+                == header_format_class.ordered_field_names())
 
-    if one_to_one:
+    if one_to_one and in_order:
         return BijectiveHeaderPacker(header_format_class, structure, field_name_allocations)
     return SurjectiveHeaderPacker(header_format_class, structure, field_name_allocations)
 
-- 
2.43.0


From c8886ce87af2f686bf3c88fc4b3d5fb53fa8b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 09/35] fix: files could not be read with TraceHeaderRev0

Trace header formats without the fields for the line (or CDP) index no
longer prevent the reader being created; there is just no such index.
---
 segpy/toolkit.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index eba6b64..cddf66e 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -365,14 +365,17 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    # Some trace header formats, such as TraceHeaderRev0, lack the fields needed for one of the indexes
+    has_cdp = hasattr(trace_header_format, 'ensemble_num')
+    has_line = (hasattr(trace_header_format, 'inline_number')
+                and hasattr(trace_header_format, 'crossline_number'))
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
                            parent_field_names=(
-                               'file_sequence_num',
-                               'ensemble_num',
-                               'num_samples',
-                               'inline_number',
-                               'crossline_number',
+                               ('num_samples',)
+                               + (('ensemble_num',) if has_cdp else ())
+                               + (('inline_number', 'crossline_number') if has_line else ())
                            )):
         pass
 
@@ -400,10 +403,12 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
-        cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
+        if has_line:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
+        if has_cdp:
+            cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
 
@@ -415,10 +420,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     trace_length_catalog = trace_length_catalog_builder.create()
     progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
-    cdp_catalog = cdp_catalog_builder.create()
+    cdp_catalog = cdp_catalog_builder.create() if has_cdp else None
     progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_line else None
 
     progress_callback(1)
 
-- 
2.43.0


From 854ab88e0c400df5173d6c7658ec7a8397ec9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 10/35] fix: create_reader() raised TypeError for files opened
 from a descriptor

---
 segpy/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..086b1d8 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -265,8 +265,9 @@ def filename_from_handle(fh):
         be determined.
     """
     try:
-        return fh.name
-    except AttributeError:
+        return os.fsdecode(fh.name)
+    except (AttributeError, TypeError):
+        # TypeError for files opened by descriptor, whose name is an integer
         return UNKNOWN_FILENAME
 
 
-- 
2.43.0


From 0c41a728cdf42c73ecd403daf4940f3fcda84e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 11/35] fix: a cached reader could read from a different file

The cache was keyed by content alone, but a cached reader reopens the file
it was created from, which may since have been changed or replaced.
---
 segpy/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..ac0afd4 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,8 +142,10 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
+        # The file name is part of the key because an unpickled reader reopens the file by that name
         seg_y_path = filename_from_handle(fh)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             seg_y_path, os.path.realpath(seg_y_path))
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
             reader = _load_reader_from_cache(cache_file_path, seg_y_path)
-- 
2.43.0


From 1c2d658ac4e8a93350de30c19896518e8e52ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 12/35] fix: non-negative integer header fields could not be
 extracted as arrays

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..3b8d20c 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -6,7 +6,10 @@ NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
                 'int16':   numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint32': numpy.dtype('i4'),
+                'nnint16': numpy.dtype('i2'),
+                'nnint8':  numpy.dtype('i1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From ba171bd89c424e1c2b0312ef37f2d752b68482c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 13/35] fix: empty and single-item selections from a strided
 range were rejected

For example, extracting inline 100 alone from inlines 100, 102, 104...
---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..e34189d 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,11 +4,11 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
-    if subset_range.start not in superset_range:
+    if len(subset_range) == 0:
+        return True
+    if subset_range[0] not in superset_range or subset_range[-1] not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
-        return False
-    if subset_range[-1] > superset_range[-1]:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
     assert set(subset_range).issubset(set(superset_range))
     return True
-- 
2.43.0


From 73b7fa268465a1a8c101f04affade0ab046c66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 14/35] fix: arrays could not be extracted from surveys with
 traces of different lengths

Samples beyond the end of a trace are now treated like missing traces.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..4a084c5 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -248,11 +248,12 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            trace_sample_start = min(sample_numbers[0], trace_sample_stop)
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -264,7 +265,8 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[xline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -337,11 +339,12 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            trace_sample_start = min(sample_numbers[0], trace_sample_stop)
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -353,7 +356,8 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            selected_samples = trace_samples[source_slice]
+            array[inline_index, :len(selected_samples)] = selected_samples
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
@@ -419,8 +423,9 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
-                trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                if sample_number < reader_3d.num_trace_samples(trace_index):
+                    trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
+                    array[inline_index, xline_index] = trace_samples[0]
     return array
 
 
-- 
2.43.0


From 3dd3197cebbad3cf603f496f50d44dbe909cbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:41 +0000
Subject: [PATCH 15/35] fix: extract_trace() did not accept a trace index

Nor did it accept the documented default for sample_numbers.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 4a084c5..ae743f1 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -139,7 +139,7 @@ def extract_trace_header_field_3d(reader_3d, fields, inline_numbers=None, xline_
     return trace_header_arrays
 
 
-def extract_trace(reader, trace_index, sample_numbers):
+def extract_trace(reader, trace_index, sample_numbers=None):
     """Extract a single trace as a one-dimensional array.
 
     Args:
@@ -165,10 +165,12 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if not (0 <= trace_index < reader.num_traces()):
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
+    if len(sample_numbers) == 0:
+        return np.empty(0, make_dtype(reader.data_sample_format))
 
     trace_sample_start = sample_numbers[0]
     trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-- 
2.43.0


From 46ab39a4e7138bb8b54cc9ad073b3b44943b5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:31 +0000
Subject: [PATCH 16/35] fix: a cache directory which could not be created
 prevented reading

---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index ac0afd4..7526362 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -198,8 +198,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
-- 
2.43.0


From 7640ee6db27171187f8623c98b208fc9d9fa3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:44 +0000
Subject: [PATCH 17/35] fix: a cache entry which could not be opened prevented
 reading

---
 segpy/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 7526362..7ff8e7d 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -228,10 +228,16 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         TypeError: If the pickle could be read, but did not contain a SegYReader.
     """
 
-    if not (cache_file_path.exists() and cache_file_path.is_file()):
+    try:
+        if not (cache_file_path.exists() and cache_file_path.is_file()):
+            return None
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.warn("Could not read cache entry {} for {} because {}"
+                 .format(cache_file_path, seg_y_path, os_error))
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From 9b1147fd356ae86d7f12524b72f1bc2aa2e71a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:10 +0000
Subject: [PATCH 18/35] fix: header constructors accepted keyword arguments
 which are not fields

Names of methods and other attributes, such as 'copy' or LENGTH_IN_BYTES,
passed the check and were assigned to the instance.
---
 segpy/header.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index dc9bdb2..d4ffc90 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -31,13 +31,10 @@ class BaseHeader:
             setattr(self, keyword, arg)
 
         for keyword, arg in kwargs.items():
-            try:
-                getattr(self, keyword)
-            except AttributeError as e:
+            if not isinstance(getattr(type(self), keyword, None), NamedField):
                 raise TypeError("{!r} is not a recognised field name for {!r}"
-                                .format(keyword, self.__class__.__name__)) from e
-            else:
-                setattr(self, keyword, arg)
+                                .format(keyword, self.__class__.__name__))
+            setattr(self, keyword, arg)
 
     _ordered_field_names = tuple()
 
-- 
2.43.0


From 5a3383ecc5a0048eed38c2c445abfe45a0885983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:12 +0000
Subject: [PATCH 19/35] fix: sub-formats took overridden attributes from the
 wrong class

An attribute such as LENGTH_IN_BYTES which the parent format redefines was
taken from the base class of the parent format.
---
 segpy/header.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index d4ffc90..e01b830 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -180,9 +180,9 @@ class SubFormatMeta(FormatMeta):
                                named_field.documentation)
             namespace[field_name] = field_copy
 
-        # Copy other non-field class attributes
+        # Copy other non-field class attributes, the most derived definition of each
         non_field_attributes = list(collect_attributes(parent_format, BaseHeader, is_public_non_field_attr))
-        namespace.update((name, value) for _, name, value in non_field_attributes)
+        namespace.update((name, value) for _, name, value in reversed(non_field_attributes))
 
         # Add a reference back to the original format
         namespace['_parent_format'] = parent_format
-- 
2.43.0


From 83cc915a13c298169022196b1836dd5cfd0b4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:28 +0000
Subject: [PATCH 20/35] fix: fields of formats with several bases, or
 redefining fields, were listed wrongly

ordered_field_names() left out the fields of all base classes but the first, and
named fields redefined by a derived class twice.
---
 segpy/header.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index e01b830..1be3a3f 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -3,7 +3,7 @@ from weakref import WeakKeyDictionary
 from itertools import chain
 
 from segpy import __version__
-from segpy.util import underscores_to_camelcase, super_class, collect_attributes
+from segpy.util import underscores_to_camelcase, collect_attributes
 
 
 class BaseHeader:
@@ -48,9 +48,8 @@ class BaseHeader:
             An tuple containing the field names in order.
         """
 
-        if cls is BaseHeader:
-            return cls._ordered_field_names
-        return super_class(cls).ordered_field_names() + cls._ordered_field_names
+        return tuple(OrderedDict.fromkeys(chain.from_iterable(
+            vars(base).get('_ordered_field_names', ()) for base in reversed(cls.__mro__))))
 
     def copy(self, **updates):
         fields = {name: getattr(self, name) for name in self.ordered_field_names()}
-- 
2.43.0


From 1160151726c4fea9ec58269c15c6cdcf5de96297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:49 +0000
Subject: [PATCH 21/35] fix: header formats with fields before their start
 offset were packed wrongly

Such a format was accepted, and all its fields packed and unpacked at the wrong
positions. It is refused now, as one with fields beyond its length is.
---
 segpy/packer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segpy/packer.py b/segpy/packer.py
index a77485d..08df9c9 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -52,6 +52,7 @@ def compile_struct(header_format_class, start_offset=0, length_in_bytes=None, en
         ValueError: If header_format_class contains fields which overlap but are not exactly coincident.
         ValueError: If header_format_class contains coincident fields of different types.
         ValueError: If header_format_class described a format longer than length_in_bytes.
+        ValueError: If header_format_class contains fields before start_offset.
 
     """
     if start_offset < 0:
@@ -74,6 +75,11 @@ def compile_struct(header_format_class, start_offset=0, length_in_bytes=None, en
                 raise ValueError("Fields {!r} at offset {} and {!r} at offset {} of {} are distinct but overlap."
                                   .format(a.name, a.offset, b.name, b.offset, header_format_class.__name__))
 
+    first_field = sorted_fields[0]
+    if first_field.offset < start_offset:
+        raise ValueError("Field {!r} at offset {} of {} is before the start offset {}."
+                         .format(first_field.name, first_field.offset, header_format_class.__name__, start_offset))
+
     last_field = sorted_fields[-1]
     defined_length = (last_field.offset - start_offset) + size_of(last_field.value_type)
     specified_length = defined_length if (length_in_bytes is None) else length_in_bytes
-- 
2.43.0


From 364dfc663c74f63cb266a7e32806a9a2dec86b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:09 +0000
Subject: [PATCH 22/35] fix: different subnormal IBM floats compared equal

The comparison shifted digits out of the mantissa with the smaller exponent.
---
 segpy/ibm_float.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 2dc8cd0..d7f8528 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -347,15 +347,16 @@ class IBMFloat(Real):
         lhs_mantissa = nlhs.int_mantissa
         rhs_mantissa = nrhs.int_mantissa
 
+        # Scale the mantissa with the larger exponent up, so that no digits are lost
         if lhs_exp16 < rhs_exp16:
             delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
+            rhs_mantissa <<= 4 * delta_exp16
+            rhs_exp16 -= delta_exp16
 
         if lhs_exp16 > rhs_exp16:
             delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
+            lhs_mantissa <<= 4 * delta_exp16
+            lhs_exp16 -= delta_exp16
 
         assert lhs_exp16 == rhs_exp16
         return lhs_mantissa == rhs_mantissa
-- 
2.43.0


From c1a6f612c3f7cd3bea39886ad9517b4652b1fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:09 +0000
Subject: [PATCH 23/35] fix: ordering of IBM floats against integers and
 fractions was not exact

The other number was rounded to a float first, and could be out of its range.
---
 segpy/ibm_float.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index d7f8528..39d0032 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -514,24 +514,24 @@ class IBMFloat(Real):
         return float(lhs) - float(self)
 
     def __lt__(self, rhs):
-        # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) < float(rhs)
+        # The conversion to Python's 64-bit float is exact, and Python compares floats with
+        # all kinds of numbers exactly, so delegate
+        return float(self) < rhs
 
     def __le__(self, rhs):
-        # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) <= float(rhs)
+        # The conversion to Python's 64-bit float is exact, and Python compares floats with
+        # all kinds of numbers exactly, so delegate
+        return float(self) <= rhs
 
     def __gt__(self, rhs):
-        # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) > float(rhs)
+        # The conversion to Python's 64-bit float is exact, and Python compares floats with
+        # all kinds of numbers exactly, so delegate
+        return float(self) > rhs
 
     def __ge__(self, rhs):
-        # Python's 64-bit float has much more precision than this
-        # 32-bit IBM float and is much faster, so delegate
-        return float(self) >= float(rhs)
+        # The conversion to Python's 64-bit float is exact, and Python compares floats with
+        # all kinds of numbers exactly, so delegate
+        return float(self) >= rhs
 
     def __ceil__(self):
         t = trunc(self)
-- 
2.43.0


From 3752f6bd4c8377bdb24d897d00160b0462d26fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:09 +0000
Subject: [PATCH 24/35] fix: dividing a float by an IBM float lost precision

All other operations on a float and an IBM float give a float, too.
---
 segpy/ibm_float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 39d0032..b109d16 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -448,7 +448,7 @@ class IBMFloat(Real):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
         q = float(lhs) / float(self)
-        return IBMFloat.from_float_without_underflow(q) if isinstance(lhs, float) else q
+        return IBMFloat.from_float_without_underflow(q) if isinstance(lhs, IBMFloat) else q
 
     def __pow__(self, exponent):
         # Python's 64-bit float has much more precision than this
-- 
2.43.0


From 0477e17cf050641a05a650b04cc759832221f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:09 +0000
Subject: [PATCH 25/35] fix: floor division of IBM floats was off by one when
 the quotient rounds to an integer

---
 segpy/ibm_float.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index b109d16..22087ba 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -433,10 +433,10 @@ class IBMFloat(Real):
             return self
 
     def __floordiv__(self, rhs):
-        return floor(float(self) / float(rhs))
+        return floor(float(self) // float(rhs))
 
     def __rfloordiv__(self, lhs):
-        return floor(float(lhs) / float(self))
+        return floor(float(lhs) // float(self))
 
     def __truediv__(self, rhs):
         # Python's 64-bit float has much more precision than this
-- 
2.43.0


From 4e317741085e772b08753e2f0b9508957e27397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:05 +0000
Subject: [PATCH 26/35] fix: empty intervals do not overlap intervals which
 surround them

---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 086b1d8..e6795af 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -152,7 +152,7 @@ def intervals_partially_overlap(interval_a, interval_b):
         first_interval = interval_b
         second_interval = interval_a
 
-    return second_interval.start < first_interval.stop
+    return second_interval.start < min(first_interval.stop, second_interval.stop)
 
 
 def roundrobin(*iterables):
-- 
2.43.0


From aabc89fe2a45369610ae11cdc500fca9557a3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:05 +0000
Subject: [PATCH 27/35] fix: is_sorted() ignored the key for ranges and
 SortedFrozenSets

---
 segpy/util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index e6795af..32fa958 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -325,20 +325,21 @@ def four_bytes(byte_str):
 
 
 def is_sorted(iterable, key=None, reverse=False, distinct=False):
-    if key is None:
+    natural_order = key is None
+    if natural_order:
         key = identity
     if reverse:
         if distinct:
-            if isinstance(iterable, range) and iterable.step < 0:
+            if natural_order and isinstance(iterable, range) and iterable.step < 0:
                 return True
             op = operator.gt
         else:
             op = operator.ge
     else:
         if distinct:
-            if isinstance(iterable, range) and iterable.step > 0:
+            if natural_order and isinstance(iterable, range) and iterable.step > 0:
                 return True
-            if isinstance(iterable, SortedFrozenSet):
+            if natural_order and isinstance(iterable, SortedFrozenSet):
                 return True
             op = operator.lt
         else:
-- 
2.43.0


From f6c3294bb010de2462f62ff9f3eb79435d191919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:21 +0000
Subject: [PATCH 28/35] fix: last() of a mapping looked up a key instead of
 returning the last one

---
 segpy/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/util.py b/segpy/util.py
index 32fa958..d89a0a6 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -6,6 +6,7 @@ import sys
 import math
 import fractions
 
+from collections.abc import Mapping
 from contextlib import contextmanager
 from enum import Enum
 from itertools import (islice, cycle, tee, chain, repeat, groupby)
@@ -490,6 +491,8 @@ def first(iterable):
 
 def last(iterable):
     try:
+        if isinstance(iterable, Mapping):
+            raise TypeError("Mappings are indexed by key")
         # Don't rely on support for negative indexing
         return iterable[len(iterable) - 1]
     except (TypeError, IndexError):
-- 
2.43.0


From 6f1931d6701ab574288fc4dcb69483bdf2a708e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:21 +0000
Subject: [PATCH 29/35] fix: sorted distinct sequences could not be made of
 values other than integers

---
 segpy/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/util.py b/segpy/util.py
index d89a0a6..600401c 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -10,6 +10,7 @@ from collections.abc import Mapping
 from contextlib import contextmanager
 from enum import Enum
 from itertools import (islice, cycle, tee, chain, repeat, groupby)
+from numbers import Integral
 
 from segpy.reversed_sequence_view import ReversedSequenceView
 from segpy.sorted_frozen_set import SortedFrozenSet
@@ -439,6 +440,8 @@ def compress_sorted_sequence_to_range(sorted_sequence):
         An ordered sequence which may be a range or may be
         the unaltered argument.
     """
+    if not all(isinstance(item, Integral) for item in sorted_sequence):
+        return sorted_sequence
     if len(sorted_sequence) == 1:
         return single_item_range(sorted_sequence[0])
     stride = measure_stride(sorted_sequence)
-- 
2.43.0


From 234c486d332c8926dc3ca0168fc8406f6c37cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 30/35] fix: catalog_traces() of an empty file divided by zero

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index cddf66e..bed3002 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -391,7 +391,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / max(length, 1))
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
-- 
2.43.0


From 322c7805ea040062f2043b46ea4479dd5c174cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 31/35] fix: write_segy() progress decreased for traces not in
 order of index

---
 segpy/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/writer.py b/segpy/writer.py
index 5a1ddb9..9dbf65c 100644
--- a/segpy/writer.py
+++ b/segpy/writer.py
@@ -53,9 +53,9 @@ def write_segy(fh,
 
     num_traces = dataset.num_traces()
 
-    for trace_index in dataset.trace_indexes():
+    for num_written, trace_index in enumerate(dataset.trace_indexes()):
         write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
         write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
-        progress_callback(trace_index / num_traces)
+        progress_callback(num_written / num_traces)
 
     progress_callback(1)
-- 
2.43.0


From c90d17ea27322ed641ef43bb73ccf87b16eca3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 32/35] fix: lines could not be extracted for an empty series
 of sample numbers

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index ae743f1..2749cb0 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -245,6 +245,8 @@ def extract_inline_3d(reader_3d, inline_number, xline_numbers=None, sample_numbe
 
 
 def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numbers, sample_numbers, array):
+    if len(sample_numbers) == 0:
+        return
     for xline_index, xline_number in enumerate(xline_numbers):
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
@@ -336,6 +338,8 @@ def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_number
 
 
 def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbers, sample_numbers, array):
+    if len(sample_numbers) == 0:
+        return
     for inline_index, inline_number in enumerate(inline_numbers):
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
-- 
2.43.0


From f65121eb493a3c8184fd8affaf4447fe5a914d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 33/35] fix: IBM floats could not be extracted singly into
 masked arrays

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 2749cb0..f73b219 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -257,7 +257,8 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                    array[xline_index, sample_index] = array.dtype.type(
+                        trace_samples[sample_number - trace_sample_start])
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -350,7 +351,8 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                    array[inline_index, sample_index] = array.dtype.type(
+                        trace_samples[sample_number - trace_sample_start])
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -431,7 +433,7 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
                 if sample_number < reader_3d.num_trace_samples(trace_index):
                     trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                    array[inline_index, xline_index] = trace_samples[0]
+                    array[inline_index, xline_index] = array.dtype.type(trace_samples[0])
     return array
 
 
-- 
2.43.0


From 5feeeb80945de09f37e22902982092858c4ba226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 34/35] fix: RegularCatalog and RegularConstantCatalog accepted
 strides which are not positive, or raised ZeroDivisionError

---
 segpy/catalog.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segpy/catalog.py b/segpy/catalog.py
index 0e84d25..6d0d053 100644
--- a/segpy/catalog.py
+++ b/segpy/catalog.py
@@ -523,6 +523,9 @@ class RegularConstantCatalog(Mapping):
             raise ValueError("key_min {} is greater than key_max {}, but key_min must be equal or less-than key_max."
                              .format(key_min, key_max))
 
+        if key_stride <= 0:
+            raise ValueError("key_stride {} is not positive".format(key_stride))
+
         key_range = key_max - key_min
         if key_range % key_stride != 0:
             raise ValueError("RegularIndex key range {!r} is not "
@@ -625,6 +628,9 @@ class RegularCatalog(Mapping):
             raise ValueError("key_min {} is greater than key_max {}, but key_min must be equal or less-than key_max."
                              .format(key_min, key_max))
 
+        if key_stride <= 0:
+            raise ValueError("key_stride {} is not positive".format(key_stride))
+
         key_range = key_max - key_min
         if key_range % key_stride != 0:
             raise ValueError("{} key range {!r} is not "
-- 
2.43.0


From 47e7f02123a3d88725a972bf8e250fa38405af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 35/35] fix: a binary header of a format shorter than 400 bytes
 was not padded, so that a file without traces was cut short

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index bed3002..330f4f8 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -698,7 +698,7 @@ def write_binary_reel_header(fh, binary_reel_header, endian='>'):
     """
     header_packer = make_header_packer(type(binary_reel_header), endian)
     buffer = header_packer.pack(binary_reel_header)
-    fh.write(buffer)
+    fh.write(buffer.ljust(BINARY_HEADER_NUM_BYTES, b'\0'))
 
 
 def format_extended_textual_header(text, encoding, include_text_stop=False):
-- 
2.43.0

