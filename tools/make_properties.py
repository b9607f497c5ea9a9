#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))

p('C01', 'Writing a dataset and reading it back returns the same dataset',
  "Any dataset that write_segy accepts, when written to a file and opened again with create_reader using the same encoding, byte order and trace header format, is read back with the same textual, binary and extended textual headers, the same number of traces, and for every trace the same header field values, number of samples and sample values. This holds for every sample format (IBM floats up to the precision of that format), both byte orders, both text encodings, traces of differing lengths including zero, and custom header formats.",
  ['inputs', 'configurations'],
  'all datasets x sample format x byte order x text encoding x trace header format x in-memory or disk file',
  'The round-trip tests in test_reader.py sample only equal-length small datasets in big-endian with default options (and several cannot run with the installed hypothesis); endianness, ragged traces, EBCDIC and extended headers are never combined.',
  ['segpy/writer.py', 'segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py'],
  [('write_segy', 'segpy/writer.py'), ('create_reader', 'segpy/reader.py'), ('catalog_traces', 'segpy/toolkit.py')],
  ['write_segy', 'create_reader', 'SegYReader.trace_header', 'SegYReader.trace_samples'])

p('C02', 'Written files have exactly the SEG-Y byte layout',
  "write_segy produces exactly the bytes the SEG-Y revision 1 layout prescribes: 3200 bytes of encoded text cards, the 400-byte binary header, any extended textual headers of 3200 bytes each, then for each trace in index order a 240-byte header followed immediately by its encoded samples and nothing else. Every header field is at its standard byte position in the requested byte order, unassigned bytes are zero, and IBM samples are always big-endian.",
  ['inputs', 'configurations'],
  'all datasets x byte order x encoding x sample format',
  'Tests compare what segpy writes only with what segpy reads, so a symmetric layout error (a field at the wrong position in both directions) is invisible; no test has an independent encoder.',
  ['segpy/writer.py', 'segpy/toolkit.py', 'segpy/packer.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py'],
  [('write_segy', 'segpy/writer.py'), ('compile_struct', 'segpy/packer.py'), ('write_* functions', 'segpy/toolkit.py')],
  ['bytes written by write_segy'])

p('C03', 'Reading a SEG-Y file reports exactly what its bytes say',
  "For any well-formed SEG-Y byte stream, including one not produced by this library (arbitrary bytes in unassigned positions, un-normalised IBM floats, traces whose length differs from the reel header, a trailing fragment shorter than a trace header), the reader reports the text, the field values, the trace count, the per-trace sample counts and the sample values that the bytes at the standard positions denote. The maximum trace length, sample format and its description, bytes per sample, revision, encoding and byte order it reports agree with the file, too.",
  ['inputs', 'configurations'],
  'all well-formed byte streams x byte order x encoding x sample format',
  'Tests only ever read files the library itself wrote, which never contain unassigned bytes, un-normalised floats or trailing fragments.',
  ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py', 'segpy/ibm_float.py'],
  [('catalog_traces', 'segpy/toolkit.py'), ('HeaderPacker.unpack', 'segpy/packer.py'), ('read_binary_values', 'segpy/toolkit.py')],
  ['create_reader', 'all SegYReader accessors'])

p('C04', 'Copying or transcoding a file preserves its content',
  "Writing a dataset opened by create_reader reproduces the source file byte for byte when the same encoding and byte order are used and the source has no content in positions the header formats do not define. Writing it with another byte order or text encoding, any number of times, changes only the representation: transcoding back restores the original bytes, and repeated copying is idempotent.",
  ['inputs', 'histories', 'configurations'],
  'all files x all sequences of copies between byte orders and encodings',
  'No test chains reads and writes or changes byte order; drift over several generations or loss in one of the conversions is only visible over histories.',
  ['segpy/writer.py', 'segpy/reader.py', 'segpy/toolkit.py'],
  [('write_segy from a SegYReader', 'segpy/writer.py')],
  ['file bytes after each generation'])

p('C05', 'Random access is independent of history, position and other readers',
  "Any sequence of calls on a reader - whole or partial trace reads, header reads with the default or an overriding header packer, and queries - returns for each call the value determined only by its arguments, regardless of the calls before it, of where the underlying file is positioned, and of other readers sharing the file object. A partial read [start, stop) equals that slice of the whole trace, and out-of-range traces or sample ranges raise ValueError without disturbing later reads.",
  ['histories', 'inputs'],
  'all call sequences over all files, with interleaved seeks and several readers on one file',
  'Existing tests make one call per reader and test only out-of-range errors; nothing exercises sequences or shared handles.',
  ['segpy/reader.py', 'segpy/toolkit.py'],
  [('trace_samples / trace_header seek before reading', 'segpy/reader.py'), ('read_binary_values', 'segpy/toolkit.py')],
  ['SegYReader.trace_samples', 'SegYReader.trace_header'],
  [('file position', 'shared mutable state of the file object', 'segpy/reader.py')])

p('C06', 'Survey dimensionality is inferred from the headers, or forced on request',
  "Unless forced, a file whose (inline, crossline) pairs are all distinct is opened as a 3D survey; otherwise one whose CDP (ensemble) numbers are all distinct is opened as a 2D survey; otherwise the reader has no spatial index and reports dimensionality 1 for a single trace and 0 for more. A dimensionality of 1, 2 or 3 requested explicitly is respected whenever the index it needs can be built.",
  ['inputs', 'configurations'],
  'all assignments of CDP, inline and crossline numbers to traces x requested dimensionality',
  'Two tests sample already-regular numbering schemes; mixed duplicates and permutations are not reached.',
  ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/catalog.py'],
  [('dimensionality heuristic in _make_reader', 'segpy/reader.py'), ('contains_duplicates', 'segpy/util.py')],
  ['SegYReader.dimensionality', 'type of the reader'])

p('C07', 'The CDP index of a 2D survey maps exactly the CDPs present to their traces',
  "For a 2D reader the CDP numbers are exactly the distinct ensemble numbers in the trace headers, sorted ascending, and their count is right. trace_index() of each of them is the index of the trace carrying that number, has_trace_index() is true for exactly those numbers, and an absent CDP raises KeyError, whatever order, spacing, sign or gaps the numbers have.",
  ['inputs'], 'all sets of CDP numbers in all orders',
  'Tests draw a handful of small regular ranges; which compressed representation is used depends on stride and order in ways they do not enumerate.',
  ['segpy/reader.py', 'segpy/catalog.py', 'segpy/util.py'],
  [('cdp catalog', 'segpy/catalog.py'), ('SegYReader2D', 'segpy/reader.py')],
  ['cdp_numbers', 'num_cdps', 'has_trace_index', 'trace_index'])

p('C08', 'The inline/crossline index of a 3D survey maps each position to its trace',
  "For a 3D reader the inline numbers and the crossline numbers are exactly those in the trace headers, each sorted ascending and counted correctly, and the (inline, crossline) pairs are exactly those of the traces. trace_index() of a pair is the index of the trace that carries it, has_trace_index() is true for exactly those pairs, and an absent pair raises KeyError - for complete and incomplete, regular and irregular grids stored in any trace order.",
  ['inputs'], 'all sets of (inline, crossline) positions in all orders',
  'The 3D tests draw complete inline-major grids (and most cannot run with the installed hypothesis); crossline-major, reversed, strided, shuffled and incomplete grids select other code.',
  ['segpy/reader.py', 'segpy/catalog.py', 'segpy/util.py'],
  [('line catalog', 'segpy/catalog.py'), ('SegYReader3D', 'segpy/reader.py')],
  ['inline_numbers', 'xline_numbers', 'inline_xline_numbers', 'has_trace_index', 'trace_index'])

p('C09', 'Catalogs behave as the immutable dictionary they were built from',
  "For any integer-keyed mapping with distinct keys, CatalogBuilder.create() returns a mapping with the same keys, values, length, membership, lookups and KeyErrors as the equivalent dict, iterating in ascending key order, whichever compressed representation is chosen; with duplicate keys it returns None. The catalog classes constructed directly behave likewise and reject inconsistent parameters with ValueError.",
  ['inputs', 'histories'],
  'all key sets x value patterns x insertion orders (constructor items and add() calls)',
  'Tests check each representation on inputs drawn for it, mostly via the shared items of two sets, and never at the boundaries between representations or on probes just outside or between keys.',
  ['segpy/catalog.py', 'segpy/util.py'],
  [('CatalogBuilder._create_catalog_1 representation choice', 'segpy/catalog.py')],
  ['Mapping protocol of the catalog'])

p('C10', 'Two-dimensional catalogs behave as the dictionary they were built from',
  "For any mapping from distinct (i, j) integer pairs, CatalogBuilder.create() returns a mapping that agrees with the equivalent dict on keys, values, length, membership and KeyErrors for any probe pair. Its i and j collections and key extremes are those of the keys, value_first() and value_last() are the values at the extreme keys when those exist, and where key(value) is offered it inverts lookup and raises ValueError for other values.",
  ['inputs'], 'all sets of integer pairs x value patterns x insertion orders',
  'Tests of the two regular 2D classes cannot run with the installed hypothesis, and builder tests use complete grids in inline-major order only.',
  ['segpy/catalog.py', 'segpy/util.py'],
  [('_create_catalog_2', 'segpy/catalog.py'), ('LastIndexVariesQuickestCatalog2D / FirstIndexVariesQuickestCatalog2D / DictionaryCatalog2D', 'segpy/catalog.py')],
  ['Mapping protocol', 'i_range, j_range, i_min.., key()'])

p('C11', 'The reader cache is transparent',
  "With caching enabled, create_reader returns a reader that reports the same data, dimensionality and index as one created without a cache, over any history of opening files with any encoding, byte order, header format and cache directory while files are rewritten, copied, renamed or deleted and the working directory changes. Cache files that are missing, truncated, overwritten with data that cannot be loaded, or unwritable never change what is read or prevent reading, and a cache entry holding something other than a reader raises TypeError.",
  ['histories', 'fault_sequences', 'configurations'],
  'all histories of create/modify/copy/rename/delete/open operations interleaved with cache corruption',
  'Cache tests use one file, one cache entry and default options; stale entries need a second file or a later modification.',
  ['segpy/reader.py', 'segpy/util.py'],
  [('hash_for_file cache key', 'segpy/util.py'), ('_load_reader_from_cache / _save_reader_to_cache', 'segpy/reader.py'), ('reader pickling', 'segpy/reader.py')],
  ['reader returned by create_reader on a cache hit'],
  [('cache directory', 'pickled readers by digest', 'segpy/reader.py')])

p('C12', 'Pickling preserves readers, headers and header packers',
  "A reader of a disk file, at any point of its use, a header of any format with any field values, and a header packer each come back from pickling (any protocol, any number of times) equivalent to the original: readers report the same data and index, headers have the same type and field values, packers pack and unpack identically. Readers of closed or unnamed files refuse pickling with TypeError, and unpickling a reader whose file is gone, or anything which another version of the library made, raises TypeError.",
  ['inputs', 'histories'],
  'all readers, headers and packers x pickle protocols x prior use',
  'No test pickles headers with inherited fields or readers after use.',
  ['segpy/reader.py', 'segpy/header.py', 'segpy/packer.py'],
  [('__getstate__/__setstate__', 'segpy/reader.py'), ('BaseHeader.__getstate__', 'segpy/header.py'), ('HeaderPacker.__getstate__', 'segpy/packer.py')],
  ['pickle.loads(pickle.dumps(x))'])

p('C13', 'Header objects hold exactly the values assigned, within field limits',
  "A header's field reads back the value last assigned to it on that instance, or the documented default if none was; instances and fields never affect each other. Assigning a value that the field's type cannot hold (out of range, not a member of its enumeration, text that is no integer) raises ValueError and leaves the old value, unknown field names given to the constructor or copy() raise TypeError, deleting a field raises AttributeError, and copying yields an independent header equal to the original except for the requested updates, with are_equal() true exactly for headers of the same type with equal fields. Positional arguments are taken in the order of declaration, what the class tells of a field is what was declared, and the text of a header shows its type and all values.",
  ['inputs', 'histories'],
  'all header formats x fields x sequences of assignments, copies, comparisons and failed assignments',
  'test_header.py checks a few hand-picked values; per-field limits, enumerations and interleavings over instances are not covered.',
  ['segpy/header.py', 'segpy/field_types.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py'],
  [('HeaderFieldDescriptor', 'segpy/header.py'), ('IntFieldMeta.class_new', 'segpy/field_types.py')],
  ['header attributes'],
  [('per-instance field data', 'values by header instance', 'segpy/header.py')])

p('C14', 'Any header format packs each field at its declared position',
  "For any header format whose fields do not partially overlap, packing yields a buffer of the declared length with each field's value at its declared offset in the chosen byte order and zeros elsewhere, and unpacking a buffer yields the header with the values at those offsets - regardless of the declaration order of the fields, inheritance, gaps, padding, start offset, or several fields sharing one position. Fields sharing a position must agree to be packed (ValueError otherwise), a buffer of the wrong length raises ValueError, and a header of another class raises TypeError.",
  ['inputs', 'programs', 'configurations'],
  'all header format classes (field sets, offsets, types, start offset, length) x field values x buffers x byte order',
  'Packer tests use a handful of fixed format classes, all declared in offset order.',
  ['segpy/packer.py', 'segpy/header.py'],
  [('compile_struct', 'segpy/packer.py'), ('BijectiveHeaderPacker / SurjectiveHeaderPacker', 'segpy/packer.py')],
  ['HeaderPacker.pack', 'HeaderPacker.unpack'])

p('C15', 'Invalid header formats are rejected and sub-formats select fields faithfully',
  "Building a packer for a format with partially overlapping fields or fields outside its declared extent (before its start offset or beyond its length), or with a negative start offset, raises ValueError, for coincident fields of different types or for no fields at all it raises TypeError, and no other format is rejected. A sub-format declared over any subset of a format's fields has exactly those fields with the parent's types, offsets, defaults and documentation, and reading through it gives the same values as reading through the parent format. Field types accept exactly the values between their limits or of their enumeration, and a type whose enumeration exceeds its width is refused with ValueError.",
  ['programs', 'inputs'],
  'all header format definitions, valid and invalid; all subsets of fields of any format',
  'Tests contain one example per error.',
  ['segpy/packer.py', 'segpy/header.py', 'segpy/util.py'],
  [('overlap checks in compile_struct', 'segpy/packer.py'), ('SubFormatMeta', 'segpy/header.py')],
  ['make_header_packer', 'SubFormatMeta classes'])

p('C16', 'Integer and IEEE samples are encoded and decoded exactly',
  "For each integer and IEEE sample type and both byte orders, writing values stores exactly their two's-complement or IEEE single-precision encoding and reading returns exactly the stored values, at any file position and for any count including zero. Values the type cannot hold are refused without anything being written, a read beyond the end of the file raises EOFError, and the declared sizes, limits, sample format codes and descriptions of the types agree with what is stored.",
  ['inputs', 'configurations'],
  'all value sequences x sample types x byte order x file positions',
  'Tests read and write a few fixed values of one type.',
  ['segpy/toolkit.py', 'segpy/datatypes.py'],
  [('pack_values / unpack_values', 'segpy/toolkit.py'), ('type tables', 'segpy/datatypes.py')],
  ['write_binary_values', 'read_binary_values', 'bytes_per_sample'])

p('C17', 'IBM float conversion is exact one way and correctly truncated the other',
  "Decoding any four bytes as an IBM float gives exactly the real number they denote (un-normalised and subnormal patterns included). Encoding a finite number in the representable range gives the IBM value obtained by truncating it towards zero to the format's precision, so it is exact whenever the number is representable, monotonic and odd; NaN and infinities raise ValueError, numbers beyond the range OverflowError, and non-zero numbers too small to represent FloatingPointError. An installed packer extension named cpp does the conversions, with the same results, unless the Python implementation is forced.",
  ['inputs'], 'all 2^32 bit patterns and all finite doubles',
  'Tests use about 30 fixed values and a round trip through a tolerance; off-by-one-ulp, exponent-boundary and subnormal errors hide inside the tolerance.',
  ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py'],
  [('ibm2ieee / ieee2ibm', 'segpy/ibm_float.py'), ('Packer', 'segpy/ibm_float_packer.py')],
  ['ibm2ieee', 'ieee2ibm', 'pack_ibm_floats', 'unpack_ibm_floats'])

p('C18', 'IBMFloat is a consistent number type',
  "An IBMFloat behaves as the exact rational number its bytes denote: conversion to float, integer ratio, fraction/exponent decomposition, truncation, floor, ceiling, sign, negation, absolute value and truth agree with that number, and equality and ordering against IBM floats, floats, integers and fractions agree with the numerical comparison. Arithmetic gives the result of the same operation on the equivalent floats (truncated to IBM precision when both operands are IBM floats), and normalisation changes only the representation, raising FloatingPointError only when no normal form exists.",
  ['inputs'], 'all pairs of IBM bit patterns and numbers of other types x all operators',
  'Tests draw only normalised values made from floats and compare within tolerances; un-normalised, negative-zero and integral operands are mostly absent.',
  ['segpy/ibm_float.py'],
  [('IBMFloat operators', 'segpy/ibm_float.py')],
  ['IBMFloat methods and operators'])

p('C19', 'Textual headers survive encoding, padding and truncation rules',
  "Writing any lines as the textual header emits exactly 3200 bytes: the first forty lines, each encoded, truncated or space-padded to 80 bytes, missing lines blank; reading returns exactly forty 80-character lines that equal what was written, in both supported encodings. Unsupported encodings and unencodable text raise the documented errors before anything is written, and a header that is too short to read raises EOFError.",
  ['inputs', 'configurations'],
  'all lists of lines of any length and number x encoding',
  'Round-trip tests draw exactly forty lines of encodable text.',
  ['segpy/toolkit.py', 'segpy/encoding.py'],
  [('write_textual_reel_header', 'segpy/toolkit.py'), ('read_textual_reel_header', 'segpy/toolkit.py')],
  ['write_textual_reel_header', 'read_textual_reel_header'])

p('C20', 'The standard textual header template formats and parses consistently',
  "format_standard_textual_header gives forty 80-character lines in which every supplied value occupies exactly its own placeholder (truncated or space-padded), every other character is that of the standard template, omitted placeholders are blank and the end marker suits the revision; unknown names raise TypeError. Parsing such a header returns every named field with the supplied value, stripped and cut to the placeholder's width, in template order, and parsing anything of the wrong shape raises ValueError.",
  ['inputs'], 'all subsets of template fields x values of any length x revisions',
  'Two tests format and parse a single fixed set of fields.',
  ['segpy/toolkit.py', 'segpy/textual_reel_header.py', 'segpy/util.py'],
  [('format_standard_textual_header / parse_standard_textual_header', 'segpy/toolkit.py'), ('TEMPLATE_FIELD_NAMES', 'segpy/textual_reel_header.py')],
  ['format_standard_textual_header', 'parse_standard_textual_header'])

p('C21', 'Extended textual headers preserve text and page structure',
  "Formatting any text as extended headers yields pages of forty 80-character CR-LF-terminated lines from which the original lines can be recovered: each line is kept, blank ones included, split only every 78 characters, padded with spaces, in order, with an end-text page appended exactly when requested. Writing pages and reading them back - by count, or up to and including the end-text page when the count is -1 - returns the same pages and leaves the file at the first trace, while misshapen pages, premature end-text pages, negative counts and truncated files raise the documented errors.",
  ['inputs', 'configurations'],
  'all texts, all page lists, declared counts from -1 up, both encodings, truncation at any byte',
  'Tests check the page shape of arbitrary text but never its content, and read back only fixed pages.',
  ['segpy/toolkit.py'],
  [('format_extended_textual_header', 'segpy/toolkit.py'), ('write_extended_textual_headers / read_extended_textual_headers', 'segpy/toolkit.py')],
  ['format_extended_textual_header', 'read_extended_textual_headers'])

p('C22', 'The text encoding of a file is recognised',
  "For any textual header consisting mostly of common characters (letters, digits, space, colon, hyphen, underscore) the encoding guessed is the one it was written in, so a file opened without naming an encoding yields the original text; an all-zero header counts as ASCII and an empty one as undecided. The guess is the encoding whose common characters alone reach the threshold and None when both or neither do, depends only on the header bytes, and leaves the file position unchanged.",
  ['inputs', 'configurations'],
  'all header byte strings x thresholds x initial file positions',
  'Tests use three fixed files and a few synthetic byte strings.',
  ['segpy/encoding.py', 'segpy/toolkit.py'],
  [('guess_encoding', 'segpy/encoding.py'), ('guess_textual_header_encoding', 'segpy/toolkit.py')],
  ['guess_encoding', 'create_reader(...).encoding'])

p('C23', 'Malformed or truncated input is rejected cleanly, never misread',
  "Opening any truncated or corrupted byte stream either succeeds with data that the bytes really denote or fails with one of the documented exceptions (ValueError, EOFError, TypeError, UnicodeError), never an internal error or an endless loop. Truncating a valid file at any byte never changes what is read for data before the cut: complete traces read the same, samples beyond the end raise EOFError, and reading or failing never modifies the file; unusable arguments (closed, text-mode, unseekable or too-short files, bad byte order, dimensionality or progress) are refused up front.",
  ['inputs', 'fault_sequences'],
  'all byte mutations of valid files, every truncation point, all unusable arguments',
  'Tests cover one example of each bad argument and no corrupted file.',
  ['segpy/reader.py', 'segpy/toolkit.py', 'segpy/packer.py'],
  [('argument checks in create_reader', 'segpy/reader.py'), ('EOFError checks', 'segpy/toolkit.py')],
  ['create_reader', 'SegYReader.trace_samples'])

p('C24', 'The writer refuses what it cannot represent and propagates write failures',
  "write_segy raises the documented error for an unsupported encoding, a progress argument that is not callable, unencodable text, misshapen extended headers, trace headers of the wrong class and sample values outside the sample type, instead of writing a file with altered values. A failure of the output file at any write propagates to the caller, and what had been written before any failure is exactly a prefix of the correct file; the dataset is never modified.",
  ['inputs', 'fault_sequences', 'crash_points'],
  'all unrepresentable datasets; an I/O error injected at every write call',
  'No test writes an invalid dataset or injects an I/O error.',
  ['segpy/writer.py', 'segpy/toolkit.py', 'segpy/packer.py'],
  [('encoding check in write_segy', 'segpy/writer.py'), ('HeaderPacker.pack type check', 'segpy/packer.py'), ('pack_values', 'segpy/toolkit.py')],
  ['exceptions from write_segy', 'bytes written'])

p('C25', 'Progress callbacks are well behaved',
  "Every progress callback passed to create_reader, write_segy or catalog_traces receives only numbers between zero and one, never decreasing, and is called with one last, even for empty files, truncated files and cached readers. An exception raised by the callback propagates to the caller, a progress argument that is not callable raises TypeError, and passing a callback does not change the result.",
  ['inputs', 'fault_sequences'],
  'all files and datasets x callbacks, including ones that raise at any call',
  'Tests only check that non-callables are refused.',
  ['segpy/reader.py', 'segpy/writer.py', 'segpy/toolkit.py'],
  [('progress_callback calls', 'segpy/toolkit.py, segpy/writer.py, segpy/reader.py')],
  ['arguments received by the callback'])

p('C26', 'Sorted sets and sequence views obey their mathematical laws',
  "SortedFrozenSet agrees with the sorted list of the distinct items for length, iteration, indexing, slicing, membership, index, count and equality, and with Python's sets for all set operations and relations, giving sorted results. ReversedSequenceView agrees with the reversed list, and making a sorted distinct sequence or reversing a range yields exactly the distinct items in the requested sense, with the same indexing, membership and iteration whether or not the result is stored as a range.",
  ['inputs'], 'all item collections (iterators, lists, sets, ranges) x operations x senses',
  'The sequence-view tests and many of the sorted-sequence tests cannot run with the installed hypothesis; the rest use fixed sets.',
  ['segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py', 'segpy/util.py'],
  [('SortedFrozenSet', 'segpy/sorted_frozen_set.py'), ('make_sorted_distinct_sequence', 'segpy/util.py'), ('ReversedSequenceView', 'segpy/reversed_sequence_view.py')],
  ['Sequence and Set protocols'])

p('C27', 'Iteration and interval utilities meet their specifications',
  "Batching, padding, pairing and round-robin interleaving preserve every item in order with the documented batch sizes and padding; stride, duplicate, sortedness, min/max, first/last and equality tests on series give the mathematically right answer for every series, empty and single-item ones included; interval complement, contiguity and overlap agree with the sets of points covered. File length and content hashing depend only on the content (and hash arguments), distinguish different content, and leave the file position usable. The helpers for rounding, comparing, naming, classes and file positions do what they document.",
  ['inputs'], 'all series, intervals, batch sizes and file contents',
  'Tests sample a few shapes; empty and boundary cases were in fact broken.',
  ['segpy/util.py'],
  [('utility functions', 'segpy/util.py')],
  ['return values'])

p('C28', 'A delegating dataset equals its source except where overridden',
  "A DelegatingDataset with nothing overridden reports the same headers, dimensionality, encoding, byte order, sample format, traces and (partial) samples as its source and writes the identical file, at any depth of nesting. Overriding the samples or headers of a dataset changes exactly those in the written file and leaves everything else and the source untouched.",
  ['inputs', 'programs'],
  'all source datasets x stacks of transformations',
  'Tests use a mock source and check that each call is forwarded once; none writes a transformed dataset.',
  ['segpy/dataset.py', 'segpy/writer.py'],
  [('DelegatingDataset', 'segpy/dataset.py')],
  ['Dataset interface', 'written bytes'])

p('C29', 'The command line reports what is in the file',
  "'segpy metadata FILE' prints one JSON object with the true number of traces, dimensionality, sample format and longest trace of the file, and 'segpy report FILE' prints its name, revision, trace count, format description, dimensionality, the CDP or inline/crossline counts that apply and all the text cards; running either again, now from cache, prints the same. The file itself is never changed.",
  ['inputs', 'histories'], 'all SEG-Y files x commands x cold and warm cache',
  'There are no tests of the command line.',
  ['segpy/cli.py', 'segpy/reader.py'],
  [('handle_metadata / report', 'segpy/cli.py')],
  ['standard output of the commands'])

p('C30', 'Extracted sample arrays contain exactly the selected samples',
  "Extracting a trace, an inline, a crossline or a time slice as a NumPy array gives an array of the selected shape in which each element is the sample at that trace position and sample number, for whole lines, sequences and slices of line or sample numbers, complete and incomplete grids and traces of any lengths. Positions without data are masked, or hold the null value if one is given, the element type is that of the sample format, and selections of lines, traces or sample numbers outside the survey raise ValueError (a time slice past the end of every trace may come back entirely masked). The functions that check selections and choose element types do so for any collection of numbers and refuse others.",
  ['inputs', 'configurations'],
  'all 3D files x extraction functions x selections by None, sequence or slice x null values',
  'The only test file of the extension is a placeholder that fails.',
  ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py', 'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py'],
  [('extract_* functions', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'), ('ensure_superset', 'segpy-ext/segpy_numpy/segpy_numpy/util.py')],
  ['arrays returned'])

p('C31', 'Extracted header arrays contain exactly the selected header fields',
  "Extracting trace header fields, along any series of trace indexes or over a 3D grid of selected inlines and crosslines, gives one array per requested field, in the requested order, whose elements are exactly that field of the corresponding trace, for every field of the format and fields named by string or by field object. Grid positions without a trace are masked or hold the given null value, unknown fields raise AttributeError, and selections outside the survey raise ValueError.",
  ['inputs', 'configurations'],
  'all files x subsets of header fields x trace selections x null values',
  'The only test file of the extension is a placeholder that fails.',
  ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py', 'segpy/header.py'],
  [('extract_trace_headers / extract_trace_header_field_3d', 'segpy-ext/segpy_numpy/segpy_numpy/extract.py')],
  ['arrays returned'])

p('C32', 'SEG-Y revision numbers are recognised and others refused',
  "The revision of a file is revision 0 or revision 1 according to its binary header, the common erroneous encodings 1 and 100 canonicalise to revision 1, canonicalisation is idempotent, and every other value is refused with a revision error that names it; the decimal form of a revision is high byte point low byte.",
  ['inputs'], 'all 16-bit revision values, and other integers',
  'Tests check five values.',
  ['segpy/revisions.py', 'segpy/toolkit.py', 'segpy/reader.py'],
  [('canonicalize_revision', 'segpy/revisions.py'), ('extract_revision', 'segpy/toolkit.py')],
  ['canonicalize_revision', 'SegYReader.revision'])

p('C33', 'The low-level functions agree with the reader and the writer',
  "Taking a file apart by hand gives what the reader gives: for every file, reading the textual header, binary header (of the standard or a custom format), extended headers, trace catalogs, trace headers and samples with the individual toolkit functions, in file order or each part on its own at the current or an explicit position, yields exactly the content of the file, and each leaves the file positioned immediately after what it read (guessing the encoding and catalogs aside: guessing restores the position). Writing the parts in order with the individual write functions produces byte for byte the file write_segy produces. Sample types, codes, sizes, limits and descriptions, and quantities derived from the binary header, agree with the definition of each format and with what the encoders accept.",
  ['inputs', 'configurations', 'histories'],
  'all files x orders and positions of low-level reads x kinds of file; all datasets; all sample types',
  'Tests call a few of these functions on hand-made buffers, never composed, at other positions or in little-endian.',
  ['segpy/toolkit.py', 'segpy/datatypes.py', 'segpy/packer.py', 'segpy/encoding.py'],
  [('read_* / write_* / catalog_traces', 'segpy/toolkit.py'), ('LIMITS, PY_TYPES and the other tables', 'segpy/datatypes.py')],
  ['functions of segpy.toolkit and segpy.datatypes'])

p('C34', 'Separate readers, writers and headers do not interfere with each other',
  "What happens to one file or object has no effect on another: when several readers, writers, copies, headers and conversions, each with file handles and objects of its own (header packers may be shared), are interleaved at any read, seek, write, dataset access or progress report in any order, nested within each other's callbacks, or run in several threads, each reads, writes and reports exactly what it does alone. Readers which open the same files with the same cache directory at the same time in several threads all report the content of their files.",
  ['schedules', 'histories', 'inputs'],
  'all groups of actors x all interleavings at I/O and callback granularity; free threads',
  'Every test does one thing at a time, so state shared between objects, files or threads cannot show.',
  ['segpy/reader.py', 'segpy/writer.py', 'segpy/toolkit.py', 'segpy/header.py', 'segpy/packer.py', 'segpy/ibm_float.py'],
  [('create_reader, SegYReader', 'segpy/reader.py'), ('write_segy', 'segpy/writer.py'), ('HeaderFieldDescriptor', 'segpy/header.py'), ('HeaderPacker', 'segpy/packer.py')],
  ['create_reader', 'write_segy', 'Header', 'make_header_packer'])

p('C35', 'The example programs transform files as they document',
  "For every big-endian file with recognisable text: loadsave produces an identical file; scale_samples multiplies every sample, truncating and clipping for integer formats, and changes nothing else; scale_source_coords multiplies the source coordinates of every trace header and changes nothing else; convert_sample_type changes an IBM file to any sample format, truncating and clipping for integers, updates the format code and changes nothing else; timeslice writes the array of the samples at one index by inline and crossline; trace_positions, report and custom_header print the positions, numbers and text in the file. Programs applied to each other's output, or twice, compose. The input is never changed, and the exit status tells success, misuse, missing input and failure apart.",
  ['inputs', 'configurations', 'histories'],
  'all big-endian files x programs x arguments x sequences of programs',
  'No test runs the example programs, which are the documented way of transforming files with delegating datasets.',
  ['examples', 'segpy/dataset.py', 'segpy/reader.py', 'segpy/writer.py', 'segpy/datatypes.py'],
  [('main of each program', 'examples'), ('DelegatingDataset', 'segpy/dataset.py'), ('LIMITS, PY_TYPES', 'segpy/datatypes.py')],
  ['programs in examples/', 'DelegatingDataset'])

p('C36', 'Memory and file descriptors stay bounded however large or long the work',
  "A catalog of regular keys (one or two axes) with constant or regular values, given in any order, and the pickled reader of a regular survey take constant space, independent of the number of items. Opening a file, reading all its traces in any order or parts, and writing a dataset take memory independent of the volume of samples. Headers, catalogs and readers are released when they are no longer used, whatever has been done with them, refused operations included. Opening, failing to open, caching, pickling, copying, using and dropping readers in any order neither closes a file of the caller nor leaves a file descriptor open.",
  ['inputs', 'histories'],
  'all regular key and value series x sizes; all sample formats x numbers of traces; all histories of uses of headers, catalogs and readers',
  'Tests use data so small that neither growth nor leaks show, and never look at memory or descriptors.',
  ['segpy/catalog.py', 'segpy/reader.py', 'segpy/writer.py', 'segpy/toolkit.py', 'segpy/header.py'],
  [('CatalogBuilder.create', 'segpy/catalog.py'), ('HeaderFieldDescriptor (weak keys)', 'segpy/header.py'), ('catalog_traces', 'segpy/toolkit.py'), ('SegYReader.__setstate__', 'segpy/reader.py')],
  ['pickle size', 'tracemalloc', 'weak references', '/proc/self/fd'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
