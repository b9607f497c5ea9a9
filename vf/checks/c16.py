"""C16: integer and IEEE samples are encoded and decoded exactly."""
import array
import io
import os
import struct

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, scratch_dir, rmtree

PROPERTY = 'C16'
RULE = ("A case is a sample type, a byte order, values (limits, byte-revealing patterns, NaNs, zeros of both signs; up "
        "to 4097 of them), a container, surrounding bytes and a position; written and read through the binary value "
        "functions and compared with int.to_bytes and struct. Or raw bytes read as a type; values beyond its limits; "
        "reads past the end. Non-trivial: at least one value, and a non-zero position or a byte order or type other "
        "than the default.")
ASSUMPTIONS = ["Float NaNs are only required to be read as NaNs.",
               "The unsigned field types are used within their declared limits."]

TYPES = ['int32', 'int16', 'int8', 'float32', 'nnint32', 'nnint16', 'nnint8']
SIZES = {'int32': 4, 'int16': 2, 'int8': 1, 'float32': 4, 'nnint32': 4, 'nnint16': 2, 'nnint8': 1}
_CACHE = {}


def values_of(kind):
    if kind not in _CACHE:
        if kind == 'float32':
            one = st.one_of(gen.float32s(), st.floats(-3.4e38, 3.4e38))       # rounded to single precision
        else:
            lo, hi = ref.INT_LIMITS[kind]
            near = [v for v in (lo, lo + 1, -256, -129, -2, -1, 0, 1, 2, 127, 128, 255, 256, 258, 32767, 65535,
                                0x010203, 0x01020304, hi - 1, hi) if lo <= v <= hi]
            one = st.one_of(st.sampled_from(near), st.integers(lo, hi))
        _CACHE[kind] = gen.weighted((5, st.lists(one, max_size=8)),
                                    (1, st.tuples(one, st.integers(9, 300), one).map(lambda t: [t[0]] * t[1] + [t[2]])),
                                    (1, st.tuples(one, st.sampled_from([1023, 4096]), one).map(
                                        lambda t: [t[2]] * t[1] + [t[0]])))
    return _CACHE[kind]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(TYPES))
    return dict(kind=kind, endian=draw(st.sampled_from('><')), values=draw(values_of(kind)),
                before=draw(st.binary(max_size=9)), after=draw(st.binary(max_size=9)),
                container=draw(st.sampled_from(['list', 'list', 'tuple', 'array', 'range'])),
                handle=draw(st.sampled_from(['memory', 'memory', 'disk', 'raw'])),
                pos=draw(st.sampled_from(['given', 'given', 'current', 'elsewhere'])),
                split=draw(st.integers(0, 8)), short=draw(st.integers(1, 5)))


def encode(values, kind, endian):
    if kind == 'float32':
        return b''.join(struct.pack(endian + 'f', v) for v in values)
    return b''.join(v.to_bytes(SIZES[kind], ref.order(endian), signed=True) for v in values)


def comparable(values, kind):
    if kind == 'float32':
        return [ref.float_bits(struct.unpack('<f', struct.pack('<f', v))[0]) for v in values]
    return [int(v) for v in values]


CODES = {'int32': 'i', 'int16': 'h', 'int8': 'b', 'float32': 'f', 'nnint32': 'I', 'nnint16': 'H', 'nnint8': 'B'}


def contained(values, case):
    if case['container'] == 'tuple':
        return tuple(values)
    if case['container'] == 'array':
        return array.array(CODES[case['kind']], values)
    return list(values)


def coding(case, cov):
    from segpy.datatypes import SegYType
    from segpy.toolkit import (read_binary_values, write_binary_values, write_trace_samples, pack_values,
                               unpack_values)
    kind, endian, values = case['kind'], case['endian'], case['values']
    if case['container'] == 'range' and kind != 'float32':
        start = values[0] if values else 0
        stop = min(start + len(values), ref.INT_LIMITS[kind][1] + 1)
        values = list(range(start, stop))
    n, size = len(values), SIZES[kind]
    cov.label(kind)
    cov.nontrivial(n and (case['before'] or endian == '<' or kind != 'int32'))
    seg_y_type = SegYType(kind) if case['split'] % 2 else kind
    body = encode(values, kind, endian)
    written = range(values[0], values[-1] + 1) if case['container'] == 'range' and kind != 'float32' and values \
        else contained(values, case)
    directory = None
    try:
        if case['handle'] == 'memory':
            fh = io.BytesIO()
        else:
            directory = scratch_dir()
            fh = open(os.path.join(directory, 'x'), 'w+b', buffering=0 if case['handle'] == 'raw' else -1)
        with fh:
            fh.write(case['before'])
            write = write_trace_samples if case['split'] % 3 == 0 else write_binary_values
            if endian == '>' and case['split'] % 4 < 2:
                write(fh, written, seg_y_type)
            else:
                write(fh, written, seg_y_type, endian)
            check_eq(fh.tell(), len(case['before']) + len(body), 'position after writing')
            fh.write(case['after'])
            fh.seek(0)
            whole = fh.read()
            check_eq(whole, case['before'] + body + case['after'], 'bytes written')
            check_eq(bytes(pack_values(contained(values, case), CODES[kind], endian)), body, 'packed values')
            check_eq(comparable(unpack_values(body, CODES[kind], endian), kind), comparable(values, kind),
                     'unpacked values')

            pos = len(case['before'])
            kwargs = dict(seg_y_type=seg_y_type, num_items=n, endian=endian)
            if case['pos'] == 'current':
                fh.seek(pos)
            elif case['pos'] == 'elsewhere':
                fh.seek(pos + 3)
                kwargs['pos'] = pos
            else:
                kwargs['pos'] = pos
            got = read_binary_values(fh, **kwargs)
            check_eq(len(got), n, 'number of values')
            check_eq(comparable(got, kind), comparable(values, kind), 'values read')
            # in two parts, one after the other
            k = min(case['split'], n)
            first = read_binary_values(fh, pos, seg_y_type, k, endian)
            second = read_binary_values(fh, None, seg_y_type, n - k, endian)
            check_eq(comparable(list(first) + list(second), kind), comparable(values, kind), 'values read in two parts')
            # beyond the end
            m = (len(whole) - pos) // size + case['short']
            raises(EOFError, lambda: read_binary_values(fh, pos, seg_y_type, m, endian), 'reading beyond the end')
            raises(EOFError, lambda: read_binary_values(fh, len(whole) + 5, seg_y_type, 1, endian), 'reading after it')
            got = read_binary_values(fh, pos, seg_y_type, n, endian)
            check_eq(comparable(got, kind), comparable(values, kind), 'values read again')
    finally:
        if directory:
            rmtree(directory)


@st.composite
def raw_cases(draw):
    kind = draw(st.sampled_from(TYPES))
    return dict(kind=kind, endian=draw(st.sampled_from('><')), data=draw(st.binary(max_size=40)))


def raw(case, cov):
    """Any bytes denote values of the type, and writing these gives the bytes again."""
    from segpy.toolkit import read_binary_values, write_binary_values
    kind, endian, size = case['kind'], case['endian'], SIZES[case['kind']]
    n = len(case['data']) // size
    data = case['data'][:n * size]
    cov.nontrivial(n)
    if kind == 'float32':
        want = [ref.float_bits(struct.unpack(endian + 'f', data[i:i + 4])[0]) for i in range(0, n * 4, 4)]
    else:
        want = [int.from_bytes(data[i:i + size], ref.order(endian), signed=not kind.startswith('nn'))
                for i in range(0, n * size, size)]
        lo, hi = ref.INT_LIMITS[kind]
        if any(not lo <= v <= hi for v in want):
            cov.label('outside the limits of the type')
            return
    got = read_binary_values(io.BytesIO(data), 0, kind, n, endian)
    check_eq(comparable(got, kind) if kind == 'float32' else [int(v) for v in got], want, 'values')
    if kind != 'float32' or 'nan' not in want:
        fh = io.BytesIO()
        write_binary_values(fh, got, kind, endian)
        check_eq(fh.getvalue(), data, 'bytes written again')


@st.composite
def refusals(draw):
    kind = draw(st.sampled_from(['int32', 'int16', 'int8', 'float32', 'nnint32', 'nnint16', 'nnint8']))
    good = draw(values_of(kind))
    if kind == 'float32':
        bad = draw(st.sampled_from([3.5e38, -3.5e38, 1e39, 1e308, 'x', None, [1.0], 2**128, b'']))
    else:
        lo, hi = ref.INT_LIMITS[kind]
        top = hi if not kind.startswith('nn') else 2 * hi + 1      # the unsigned types have an extra bit
        bad = draw(st.one_of(st.sampled_from([lo - 1, top + 1, lo - 2**16, top + 2**16, 2**63, -2**70, 0.5, '1',
                                              None, float('nan'), [1]]), st.integers(top + 1, top + 2**33)))
    return dict(kind=kind, good=good, bad=bad, at=draw(st.integers(0, len(good))), endian=draw(st.sampled_from('><')),
                times=draw(st.sampled_from([1, 1, 1, 1, 2, 17, 100, 1000])))


def refusal(case, cov):
    from segpy.toolkit import pack_values, write_binary_values
    # the one in the middle of up to some thousand others
    values = list(case['good'])
    more = values * min(case['times'] - 1, 5000 // max(1, len(values)))
    values.insert(case['at'], case['bad'])
    values = more[:len(more) // 2] + values + more[len(more) // 2:]
    fh = io.BytesIO()
    fh.write(b'before')
    raises((struct.error, OverflowError, TypeError, ValueError),
           lambda: write_binary_values(fh, values, case['kind'], case['endian']), 'writing %r' % (case['bad'],))
    check_eq(fh.getvalue(), b'before', 'bytes written before the refusal')
    raises((struct.error, OverflowError, TypeError, ValueError),
           lambda: pack_values(values, CODES[case['kind']], case['endian']), 'packing %r' % (case['bad'],))
    cov.nontrivial(True)
    cov.label(case['kind'])


def table_cases(tier, shard, nshards):
    for kind in ('ibm', 'int32', 'int16', 'float32', 'int8', 'nnint32', 'nnint16', 'nnint8', 'unknown'):
        yield kind


def tables(kind, cov):
    """The tables describing the types."""
    from segpy import datatypes as dt
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.field_types import Int16, Int32, NNInt16, NNInt32
    from segpy.toolkit import bytes_per_sample, read_binary_values, write_binary_values
    cov.nontrivial(True)
    if kind == 'unknown':
        for code in (-1, 0, 4, 6, 7, 9, 100, 256):
            check(code not in list(dt.DataSampleFormat), 'sample format code', code)
            raises(ValueError, lambda: BinaryReelHeader(data_sample_format=code), 'sample format code %d' % code)
        raises(ValueError, lambda: dt.size_in_bytes('no such type'), 'size of an unknown type')
        check_eq(sorted(int(f) for f in dt.DataSampleFormat), [1, 2, 3, 5, 8], 'sample format codes')
        return
    t = dt.SegYType(kind)
    size = 4 if kind == 'ibm' else SIZES[kind]
    check_eq(dt.size_in_bytes(dt.SEG_Y_TYPE_TO_CTYPE[t]), size, 'size')
    if kind in ref.FORMAT_CODES:
        code = dt.SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT[t]
        check_eq(int(code), ref.FORMAT_CODES[kind], 'code')
        check_eq(dt.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[code], t, 'type of the code')
        check_eq(dt.data_sample_format_size_in_bytes(code), size, 'size of the code')
        check_eq(dt.data_sample_format_description(code), ref.DESCRIPTIONS[kind], 'description')
        check_eq(dt.SEG_Y_TYPE_DESCRIPTION[t], ref.DESCRIPTIONS[kind], 'description')
        check_eq(bytes_per_sample(BinaryReelHeader(data_sample_format=code)), size, 'bytes per sample')
        check_eq(bytes_per_sample(BinaryReelHeader(data_sample_format=int(code))), size, 'bytes per sample')
    lo, hi = dt.LIMITS[t]
    check(dt.LIMITS[t].min == lo and dt.LIMITS[t].max == hi, 'limits')
    if kind in ref.INT_LIMITS:
        check_eq((lo, hi), ref.INT_LIMITS[kind], 'limits')
        check(dt.PY_TYPES[t] is int, 'Python type')
    else:
        check(dt.PY_TYPES[t] is float, 'Python type')
    if kind == 'ibm':
        check_eq((lo, hi), (-float(ref.IBM_MAX), float(ref.IBM_MAX)), 'limits')
    for endian in '><':
        fh = io.BytesIO()
        write_binary_values(fh, [lo, hi], t, endian)
        check_eq(len(fh.getvalue()), 2 * size, 'bytes of two values')
        if kind != 'float32':
            check_eq([float(v) for v in read_binary_values(fh, 0, t, 2, endian)], [float(lo), float(hi)], 'limits read')
    fields = {'int32': Int32, 'int16': Int16, 'nnint32': NNInt32, 'nnint16': NNInt16}
    if kind in fields:
        f = fields[kind]
        check_eq((f.MINIMUM, f.MAXIMUM, f.SIZE), (lo, hi, size), 'field type')
        check_eq(int(f(lo)), lo, 'field value')
        check_eq(int(f(hi)), hi, 'field value')
        raises(ValueError, lambda: f(lo - 1), 'field value below the minimum')
        raises(ValueError, lambda: f(hi + 1), 'field value above the maximum')


COUNTS = sorted({n for k in range(3, 18) for n in (2**k - 1, 2**k, 2**k + 1)} | {n * 10**k for k in (2, 3, 4) for n in (1, 2, 5)}
                | {32767 * 2, 65535 * 2, 100003})


def size_cases(tier, shard, nshards):
    k = 0
    for kind in TYPES + ['ibm']:
        for endian in '><':
            for n in COUNTS + ([2**20 - 1, 2**20, 2**20 + 1, 3 * 10**6] if tier == 'thorough' and kind != 'ibm' else []):
                k += 1
                if k % nshards == shard and not (kind == 'ibm' and n > 40000 and tier == 'quick' and k % 3):
                    yield kind, endian, n


def sizes(case, cov):
    """Numbers of values near powers of two and of ten."""
    from segpy.toolkit import read_binary_values, write_binary_values, pack_values, unpack_values, pack_ibm_floats, \
        unpack_ibm_floats
    kind, endian, n = case
    cov.nontrivial()
    cov.label(kind)
    if kind == 'ibm':
        # words in normal form, so that they are the encoding of their values
        block = b''.join(bytes([(k * 37 & 0x80) | 60 + k % 9, 0x10 + k % 0xef, k * 7 & 255, k * 5 & 255]) for k in range(521))
    else:
        ring = [v if kind != 'float32' else v / 8 for v in range(100, 100 + 521)]
        if SIZES[kind] == 1:
            ring = [v % 128 for v in ring]
        elif kind != 'float32':
            ring = [v * 59 % 32749 for v in ring]
        block = encode(ring, kind, endian)
    size = len(block) // 521
    data = (block * (n // 521 + 1))[:n * size]
    if kind == 'ibm':
        one = [float(ref.ibm_value(block[i:i + 4])) for i in range(0, len(block), 4)]
    else:
        one = ring
    want = (one * (n // 521 + 1))[:n]
    fh = io.BytesIO(b'abc' + data + b'xyz')
    got = read_binary_values(fh, 3, kind, n, endian)
    check_eq(len(got), n, 'number of values')
    check([float(v) for v in got] == want if kind in ('float32', 'ibm') else [int(v) for v in got] == want,
          'values read differ from those written, number of values', n)
    check_eq(fh.tell(), 3 + len(data), 'position after reading')
    for values in (got, want):
        out = io.BytesIO()
        write_binary_values(out, values, kind, endian)
        check(out.getvalue() == data, 'bytes written differ, number of values', n)
    if kind == 'ibm':
        check(bytes(pack_ibm_floats(want)) == data, 'packed values differ')
        check([float(v) for v in unpack_ibm_floats(data, n)] == want, 'unpacked values differ')
    else:
        check(bytes(pack_values(want, CODES[kind], endian)) == data, 'packed values differ')
        check(list(unpack_values(data, CODES[kind], endian)) == want, 'unpacked values differ')
    raises(EOFError, lambda: read_binary_values(io.BytesIO(data[:-1]), 0, kind, n, endian), 'one byte less')


PROPS = [
    Prop('sizes', sizes, cases=size_cases, shards=4),
    Prop('coding', coding, cases, quick=2000, shards=6),
    Prop('raw', raw, raw_cases, quick=4000),
    Prop('refusal', refusal, refusals, quick=2500),
    Prop('tables', tables, cases=table_cases),
]
