"""C33: the low-level functions agree with the reader and the writer."""
import gzip
import io
import os
import struct
import tempfile

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, raises, scratch_dir, rmtree

PROPERTY = 'C33'
RULE = ("Generated files of all kinds, taken apart with the toolkit's functions: in file order, or each part at a "
        "generated position of a file with foreign bytes before and after it, in a generated order, from memory, "
        "buffered, unbuffered, compressed and temporary files; and generated datasets, written part by part. Oracles: the "
        "reference codec, the reader and the writer. The tables of sample types are enumerated. Non-trivial: at least "
        "one trace.")
ASSUMPTIONS = ["Samples written by hand are given as sequences.",
               "Values of the non-negative types beyond their upper limit are not considered."]

FORMATS = ('rev1', 'rev1', 'rev1', 'rev0', 'ext', 'compact', 'shuffled', 'twin', 'nested', 'lines', 'inline',
           'xline')
BINARY = ('std', 'std', 'ext', 'wide', 'compact')
KINDS = ['memory', 'memory', 'disk', 'raw', 'gzip', 'spooled', 'random']


@st.composite
def cases(draw):
    case = draw(gen.datasets(max_traces=6, thfs=FORMATS, brhfs=BINARY))
    parts = ['text', 'brh', 'guess', 'ext', 'catalog'] + ['header', 'samples'] * 3
    return dict(ds=case, kind=draw(st.sampled_from(KINDS)),
                order=draw(st.lists(st.tuples(st.sampled_from(parts), st.integers(0, 5), st.booleans(),
                                              st.integers(0, 5000)), max_size=10)),
                lead=draw(st.binary(max_size=9)), tail=draw(st.integers(0, 300)))


def opened(data, kind, directory):
    if kind == 'memory':
        return io.BytesIO(data)
    if kind == 'spooled':
        fh = tempfile.SpooledTemporaryFile(max_size=5000, dir=directory)
        fh.write(data)
        fh.seek(0)
        return fh
    path = os.path.join(directory, 'f.sgy')
    if kind == 'gzip':
        with gzip.open(path, 'wb', compresslevel=1) as f:
            f.write(data)
        return gzip.open(path, 'rb')
    with open(path, 'wb') as f:
        f.write(data)
    if kind == 'raw':
        return open(path, 'rb', buffering=0)
    return open(path, 'r+b' if kind == 'random' else 'rb')


def reading(case, cov):
    from segpy import toolkit as tk
    from segpy.packer import make_header_packer
    from segpy.reader import create_reader
    ds = case['ds']
    model = gen.Model(ds)
    fmt, endian, enc, table = model.fmt, model.endian, model.enc, model.table
    n = len(model.headers)
    size = ref.SAMPLE_SIZES[fmt]
    cov.nontrivial(n > 0)
    cov.label(case['kind'])
    data = model.encoded()
    brh_class, brh_table, brh = model.brh_class, model.brh_table, model.brh
    cov.label('binary header ' + ds['brhf'])
    directory = scratch_dir()
    try:
        with opened(data, case['kind'], directory) as fh:
            # in file order
            guess = tk.guess_textual_header_encoding(fh)
            check_eq(fh.tell(), 0, 'position after guessing')
            check(guess in (enc, None), 'guess', guess) if readable(data[:3200], enc) else None
            check_eq(list(tk.read_textual_reel_header(fh, enc)), list(model.text), 'text')
            check_eq(fh.tell(), 3200, 'position after the text')
            header = (tk.read_binary_reel_header(fh, brh_class, endian) if ds['brhf'] != 'std' else
                      tk.read_binary_reel_header(fh, endian=endian))
            check_eq(fh.tell(), 3600, 'position after the binary header')
            check(type(header) is brh_class, 'type of binary header')
            check_eq(gen.header_dict(header, brh_table), brh, 'binary header')
            check_derived(header, brh, fmt)
            pages = tk.read_extended_textual_headers(fh, header, enc)
            start = 3600 + 3200 * len(model.ext)
            check_eq([list(p) for p in pages], [list(p) for p in model.ext], 'extended headers')
            check_eq(fh.tell(), start, 'position after the extended headers')
            check_eq([tk.has_end_text_stanza(p) for p in pages], ['((SEG: EndText))' in p[0] for p in model.ext],
                     'end stanza')
            catalogs = tk.catalog_traces(fh, size, model.format_class, endian)
            check_catalogs(catalogs, model, start, size, table)
            # the traces alone, wherever they begin
            shift = case['tail'] % 7 * 100
            with opened(bytes(shift) + data[start:], 'memory', None) as alone:
                alone.seek(shift)
                check_catalogs(tk.catalog_traces(alone, size, model.format_class, endian), model, shift, size, table)
            packer = make_header_packer(model.format_class, endian)
            fh.seek(start)
            for i in range(n):
                at = fh.tell()
                check_eq(at, catalogs[0][i], 'position of trace %d' % i)
                h = tk.read_trace_header(fh, packer)
                check(type(h) is model.format_class, 'type of trace header')
                check_eq(gen.header_dict(h, table), model.headers[i], 'header %d' % i)
                check_eq(fh.tell(), at + 240, 'position after header %d' % i)
                k = len(model.samples[i])
                values = tk.read_binary_values(fh, None, fmt, k, endian)
                check_eq(ref.comparable(values, fmt), model.stored(i), 'samples %d' % i)
                check_eq(fh.tell(), at + 240 + size * k, 'position after samples %d' % i)
            check_eq(fh.tell(), len(data), 'position at the end')
            raises(EOFError, lambda: tk.read_trace_header(fh, packer), 'a header at the end')
            raises(EOFError, lambda: tk.read_binary_values(fh, None, fmt, 1, endian), 'samples at the end')
            # the reader agrees
            fh.seek(0)
            reader = create_reader(fh, encoding=enc, endian=endian, trace_header_format=model.format_class,
                                   binary_reel_header_format=brh_class, cache_directory=None)
            for i in range(n):
                check_eq(ref.comparable(reader.trace_samples(i), fmt), model.stored(i), 'samples by the reader')

        # each part on its own, within other bytes
        offsets = [start + sum(240 + size * len(s) for s in model.samples[:i]) for i in range(n)]
        whole = case['lead'] + data + bytes(k * 7 % 256 for k in range(case['tail']))
        lead = len(case['lead'])
        with opened(whole, case['kind'], directory) as fh:
            for what, i, explicit, junk in case['order']:
                junk = min(junk, len(whole))        # a compressed file has no positions beyond its end
                fh.seek(junk)
                if what == 'text':
                    fh.seek(lead)
                    check_eq(list(tk.read_textual_reel_header(fh, enc)), list(model.text), 'text')
                    check_eq(fh.tell(), lead + 3200, 'position after the text')
                elif what == 'brh':
                    fh.seek(lead + 3200)
                    h = tk.read_binary_reel_header(fh, brh_class, endian)
                    check_eq(gen.header_dict(h, brh_table), brh, 'binary header')
                    check_eq(fh.tell(), lead + 3600, 'position after the binary header')
                elif what == 'guess':
                    tk.guess_textual_header_encoding(fh)
                    check_eq(fh.tell(), junk, 'position after guessing')
                elif what == 'ext' and not lead:
                    # it finds its own position
                    pages = tk.read_extended_textual_headers(fh, h_of(brh, brh_class), enc)
                    check_eq([list(p) for p in pages], [list(p) for p in model.ext], 'extended headers')
                    check_eq(fh.tell(), start, 'position after the extended headers')
                elif what == 'catalog' and case['tail'] < 240:
                    fh.seek(lead + start)
                    check_catalogs(tk.catalog_traces(fh, size, model.format_class, endian), model, lead + start, size,
                                   table)
                elif what in ('header', 'samples') and n:
                    i %= n
                    at = lead + offsets[i] + (240 if what == 'samples' else 0)
                    if not explicit:
                        fh.seek(at)
                    pos = at if explicit else None
                    if what == 'header':
                        h = tk.read_trace_header(fh, packer, pos)
                        check_eq(gen.header_dict(h, table), model.headers[i], 'header %d' % i)
                        check_eq(fh.tell(), at + 240, 'position after header %d' % i)
                    else:
                        k = len(model.samples[i])
                        values = tk.read_binary_values(fh, pos, fmt, k, endian)
                        check_eq(ref.comparable(values, fmt), model.stored(i), 'samples %d' % i)
                        check_eq(fh.tell(), at + k * size, 'position after samples %d' % i)
    finally:
        rmtree(directory)


def h_of(values, cls):
    return cls(**values)


def readable(raw, enc):
    """Is the text mostly in characters common in its encoding, so that it can not look like the other?"""
    common = set(ref.encode_text('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- ', enc))
    return 2 * sum(b in common for b in raw) >= len(raw)


def check_derived(header, brh, fmt):
    from segpy import toolkit as tk
    from segpy.datatypes import (DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE, data_sample_format_description,
                                 data_sample_format_size_in_bytes)
    size = ref.SAMPLE_SIZES[fmt]
    check_eq(tk.bytes_per_sample(header), size, 'bytes per sample')
    check_eq(int(tk.num_extended_textual_headers(header)), brh['num_extended_textual_headers'], 'number of extended headers')
    check_eq(int(tk.samples_per_trace(header)), brh['num_samples'], 'samples per trace')
    check_eq(int(tk.trace_length_bytes(header, size)), brh['num_samples'] * size + 240, 'trace length')
    check_eq(int(tk.extract_revision(header)), brh['format_revision_num'], 'revision')
    code = header.data_sample_format
    check_eq(data_sample_format_size_in_bytes(code), size, 'size of a format')
    check_eq(data_sample_format_description(code), ref.DESCRIPTIONS[fmt], 'description of a format')
    check_eq(DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[code], fmt, 'type of a format')


def check_catalogs(catalogs, model, start, size, table):
    offsets, lengths, cdps, lines = catalogs
    n = len(model.headers)
    at, want = start, {}
    for i, s in enumerate(model.samples):
        want[i] = at
        at += 240 + size * len(s)
    check_eq(dict(offsets), want, 'offsets')
    check_eq(dict(lengths), {i: len(s) for i, s in enumerate(model.samples)}, 'lengths')
    names = {row[0] for row in table}
    numbers = [h['ensemble_num'] for h in model.headers] if 'ensemble_num' in names else None
    pairs = ([(h['inline_number'], h['crossline_number']) for h in model.headers]
             if {'inline_number', 'crossline_number'} <= names else None)
    for got, keys, what in ((cdps, numbers, 'CDP'), (lines, pairs, 'line')):
        if keys is None or len(set(keys)) < n:
            check(got is None, what, 'catalog', got)
        else:
            check(got is not None, what, 'catalog is None')
            check_eq({k: got[k] for k in got}, {k: i for i, k in enumerate(keys)}, what + ' catalog')


# ------------------------------------------------------------------------------------------------------------- writing

@st.composite
def writing_cases(draw):
    return dict(ds=draw(gen.datasets(max_traces=6, thfs=FORMATS, brhfs=BINARY)), kind=draw(st.sampled_from(['memory', 'disk', 'raw'])),
                junk=draw(st.booleans()), container=draw(st.sampled_from(['list', 'tuple'])),
                lines=draw(st.sampled_from(['tuple', 'list', 'iterator'])),
                again=draw(st.integers(0, 5)))


def writing(case, cov):
    from segpy import toolkit as tk
    from segpy.packer import make_header_packer
    from segpy.writer import write_segy
    model = gen.Model(case['ds'])
    fmt, endian, enc = model.fmt, model.endian, model.enc
    n = len(model.headers)
    cov.nontrivial(n > 0)
    want = model.encoded()
    brh_class, brh = model.brh_class, model.brh
    cov.label('binary header ' + case['ds']['brhf'])
    directory = scratch_dir()
    dataset = model.dataset()
    try:
        if case['kind'] == 'memory':
            fh = io.BytesIO()
        else:
            fh = open(os.path.join(directory, 'w.sgy'), 'w+b', buffering=0 if case['kind'] == 'raw' else -1)
        with fh:
            if case['junk']:        # what is there already is replaced where something is written
                fh.write(b'\xa5' * len(want))
                fh.seek(0)
            lines = {'tuple': tuple, 'list': list, 'iterator': iter}[case['lines']](model.text)
            tk.write_textual_reel_header(fh, lines, enc)
            check_eq(fh.tell(), 3200, 'position after the text')
            header = brh_class(**brh)
            tk.write_binary_reel_header(fh, header, endian)
            check_eq(fh.tell(), 3600, 'position after the binary header')
            fh.seek(case['again'] * 700)
            tk.write_extended_textual_headers(fh, [tuple(p) for p in model.ext], enc)
            start = 3600 + 3200 * len(model.ext)
            check_eq(fh.tell(), start, 'position after the extended headers')
            packer = make_header_packer(model.format_class, endian)
            at = start
            for i in range(n):
                tk.write_trace_header(fh, dataset.trace_header(i), packer)
                check_eq(fh.tell(), at + 240, 'position after header %d' % i)
                values = {'list': list, 'tuple': tuple}[case['container']](model.samples[i])
                tk.write_trace_samples(fh, values, fmt, endian)
                at += 240 + ref.SAMPLE_SIZES[fmt] * len(values)
                check_eq(fh.tell(), at, 'position after samples %d' % i)
            if n:
                # a part is written again in place
                i = case['again'] % n
                at = start + sum(240 + ref.SAMPLE_SIZES[fmt] * len(s) for s in model.samples[:i])
                fh.seek(at)
                tk.write_trace_header(fh, dataset.trace_header(i), packer)
                tk.write_binary_values(fh, list(model.samples[i]), fmt, endian)
            fh.seek(0)
            got = b''
            while True:
                piece = fh.read(1 << 20)
                if not piece:
                    break
                got += piece
        check(got == want, 'the file written by hand differs at byte',
              next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))))
        out = io.BytesIO()
        write_segy(out, dataset, encoding=enc, trace_header_format=model.format_class, endian=endian)
        check(out.getvalue() == want, 'the file written by write_segy differs')
    finally:
        rmtree(directory)


# -------------------------------------------------------------------------------------------------------------- tables

CTYPES = {'int32': 'i', 'nnint32': 'I', 'int16': 'h', 'nnint16': 'H', 'int8': 'b', 'nnint8': 'B', 'float32': 'f',
          'ibm': 'ibm'}
SIZES = {'int32': 4, 'nnint32': 4, 'int16': 2, 'nnint16': 2, 'int8': 1, 'nnint8': 1, 'float32': 4, 'ibm': 4}


def type_cases(tier, shard, nshards):
    for name in sorted(CTYPES):
        for endian in '><':
            yield name, endian


def types(case, cov):
    """The tables of sample types say what the encoders accept."""
    from segpy import datatypes as dt
    from segpy.toolkit import read_binary_values, write_binary_values
    name, endian = case
    cov.nontrivial()
    size = SIZES[name]
    check_eq(dt.SEG_Y_TYPE_TO_CTYPE[name], CTYPES[name], 'C type')
    check_eq(dt.size_in_bytes(CTYPES[name]), size, 'size')
    check_eq(dt.CTYPE_TO_SIZE[CTYPES[name]], size, 'size')
    check_eq(dt.SegYType(name), name, 'name')
    lo, hi = dt.LIMITS[name]
    check_eq((dt.LIMITS[name].min, dt.LIMITS[name].max), (lo, hi), 'limits')
    kind = dt.PY_TYPES[name]
    check(kind is (float if name in ('float32', 'ibm') else int), 'Python type', kind)
    if name in ref.INT_LIMITS:
        check_eq((lo, hi), ref.INT_LIMITS[name], 'limits')
    else:
        check(float(lo) == -float(hi), 'limits', lo, hi)
        if name == 'ibm':
            check_eq(abs(int(hi)), int(ref.IBM_MAX), 'limit')
        else:
            check(3.4028e38 <= hi <= 3.4028234663852886e38, 'limit', hi)
    values = [kind(lo), kind(hi), kind(0), kind(1)] + ([kind(-1)] if lo < 0 else [])
    fh = io.BytesIO()
    write_binary_values(fh, values, name, endian)
    check_eq(len(fh.getvalue()), size * len(values), 'bytes written')
    fh.seek(0)
    got = read_binary_values(fh, 0, name, len(values), endian)
    want = [struct.unpack('f', struct.pack('f', v))[0] for v in values] if name == 'float32' else values
    check_eq([float(v) for v in got] if kind is float else list(got), want, 'limits after writing and reading')
    beyond = [] if name.startswith('nn') else [hi * 2 if name == 'ibm' else hi * 1.01 if name == 'float32' else hi + 1]
    beyond += [lo * 2 if name == 'ibm' else lo * 1.01 if name == 'float32' else lo - 1]
    for v in beyond:
        raises((ValueError, ArithmeticError, TypeError, struct.error),
               lambda: write_binary_values(io.BytesIO(), [v], name, endian), 'writing %r as %s' % (v, name))
    code = ref.FORMAT_CODES.get(name)
    if code is not None:
        check_eq(dt.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[code], name, 'type of code')
        check_eq(dt.SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT[name], code, 'code of type')
        check_eq(dt.SEG_Y_TYPE_DESCRIPTION[name], ref.DESCRIPTIONS[name], 'description')
        check_eq(dt.data_sample_format_description(code), ref.DESCRIPTIONS[name], 'description')
        check_eq(dt.data_sample_format_size_in_bytes(code), size, 'size')
    else:
        check(name not in dt.SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT, 'code of', name)
    check_eq(len(dt.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE), 5, 'number of formats')
    check_eq({e: dt.ENDIAN[e] for e in dt.ENDIAN}, {'<': 'little', '>': 'big'}, 'byte orders')
    raises(ValueError, lambda: dt.size_in_bytes('q'), 'size of an unknown type')


@st.composite
def derived_cases(draw):
    small = st.one_of(st.integers(-2, 20), st.integers(-2**15, 2**15 - 1))
    return dict(dsf=draw(st.one_of(st.sampled_from([1, 2, 3, 5, 8, 4]), small)), revision=draw(st.one_of(st.sampled_from([0, 1, 100, 256]), small)),
                num_samples=draw(st.integers(0, 65535)), pages=draw(st.integers(-1, 2**15 - 1)), bps=draw(st.integers(0, 9)),
                values=draw(st.lists(st.integers(-2**31, 2**31 - 1), min_size=1, max_size=5)), lead=draw(st.integers(0, 9)))


class AnyHeader:
    """Something with the attributes of a binary header, of any values."""

    def __init__(self, **values):
        self.__dict__.update(values)


def derived(case, cov):
    """Quantities derived from a binary header object with any values, and functions with their default arguments."""
    from segpy import toolkit as tk
    from segpy.revisions import SegYRevisionError
    fmt = {code: name for name, code in ref.FORMAT_CODES.items()}.get(case['dsf'])
    cov.nontrivial(fmt is not None)
    header = AnyHeader(data_sample_format=case['dsf'], format_revision_num=case['revision'],
                       num_samples=case['num_samples'], num_extended_textual_headers=case['pages'])
    if fmt is None:
        raises(ValueError, lambda: tk.bytes_per_sample(header), 'size of samples of format', case['dsf'])
    else:
        check_eq(tk.bytes_per_sample(header), ref.SAMPLE_SIZES[fmt], 'bytes per sample')
    revision = {0: 0, 1: 256, 100: 256, 256: 256}.get(case['revision'])
    if revision is None:
        raises(SegYRevisionError, lambda: tk.extract_revision(header), 'revision', case['revision'])
    else:
        check_eq(int(tk.extract_revision(header)), revision, 'revision')
    check_eq(tk.samples_per_trace(header), case['num_samples'], 'samples per trace')
    check_eq(tk.num_extended_textual_headers(header), case['pages'], 'number of extended headers')
    check_eq(tk.trace_length_bytes(header, case['bps']), 240 + case['bps'] * case['num_samples'], 'trace length')
    # by default: one big-endian 32-bit integer, where the file is
    values = case['values']
    data = b''.join(v.to_bytes(4, 'big', signed=True) for v in values)
    fh = io.BytesIO(b'\x11' * case['lead'] + data)
    fh.seek(case['lead'])
    check_eq(list(tk.read_binary_values(fh)), values[:1], 'a value read by default')
    check_eq(fh.tell(), case['lead'] + 4, 'position afterwards')
    check_eq(list(tk.read_binary_values(fh, case['lead'], num_items=len(values))), values, 'values read by default')
    check_eq(list(tk.unpack_values(data, 'i')), values, 'values unpacked by default')
    check_eq(bytes(tk.pack_values(values, 'i')), data, 'values packed by default')
    for write in (tk.write_binary_values, tk.write_trace_samples):
        out = io.BytesIO()
        write(out, values, 'int32')
        check_eq(out.getvalue(), data, 'values written by default')


PROPS = [
    Prop('derived', derived, derived_cases, quick=250, shards=1),
    Prop('reading', reading, cases, quick=300, shards=5),
    Prop('writing', writing, writing_cases, quick=300, shards=3),
    Prop('types', types, cases=type_cases),
]
