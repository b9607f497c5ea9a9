"""Generators of SEG-Y datasets as plain data, and the model (reference meaning) of each."""
import functools
import hashlib
import io
import os
import struct

from hypothesis import strategies as st

from vf import refsegy as ref
from vf.fieldtables import BINARY_FIELDS

FMTS = ('ibm', 'int32', 'int16', 'float32', 'int8')
ENDIANS = ('>', '<')
ENCODINGS = ('ascii', 'cp037')
STRUCTURAL = frozenset({'num_samples', 'ensemble_num', 'inline_number', 'crossline_number', 'cdp_num'})

BRH_STRUCTURAL = frozenset({'data_sample_format', 'num_extended_textual_headers'})


def weighted(*pairs):
    """weighted((3, a), (1, b)): choose between strategies with the given integer weights."""
    return st.one_of(*[s for w, s in pairs for _ in range(w)])


_CACHED = {}


def cached(fn):
    """Build a strategy once per argument combination (building is far more expensive than drawing)."""
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        key = (fn.__name__, tuple(id(a) if isinstance(a, list) else a for a in args),
               tuple(sorted(kwargs.items())))
        if key not in _CACHED:
            _CACHED[key] = (fn(*args, **kwargs), args)      # args are kept alive, so that ids stay unique
        return _CACHED[key][0]
    return wrapper


# ------------------------------------------------------------------------------------------------------ header values

_FIELD_VALUES = {}


def field_values(row):
    key = row[:5]
    if key not in _FIELD_VALUES:
        _FIELD_VALUES[key] = _field_values(row)
    return _FIELD_VALUES[key]


def _field_values(row):
    """Strategy for legal values of a field."""
    name, pos, size, lo, hi, enum, default = row
    if enum is not None:
        return st.sampled_from(enum)
    near = [v for v in (lo, lo + 1, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 258, 32767, 65535, 65536,
                        0x01020304, hi - 1, hi) if lo <= v <= hi]
    return st.one_of(st.sampled_from(near), st.integers(lo, hi))


def _fill_value(seed, row):
    name, pos, size, lo, hi, enum, default = row
    h = int.from_bytes(hashlib.blake2b(('%d/%s' % (seed, name)).encode(), digest_size=8).digest(), 'big')
    if enum is not None:
        return enum[h % len(enum)]
    kind, h = h % 8, h // 8
    if kind == 0:
        return (lo, hi, max(lo, -1), 0, 1)[h % 5]
    if kind == 1:
        return max(lo, min(hi, h % 600 - 300))
    return lo + h % (hi - lo + 1)


_FILL_CACHE = {}


def fill_values(seed, table):
    """Deterministic values for all fields of the table, derived from a drawn integer.

    Seed 0 gives the defaults. (Drawing each of ninety fields separately would make cases far too large.)
    """
    if seed == 0:
        return {row[0]: row[6] for row in table}
    key = (seed, id(table))
    if key not in _FILL_CACHE:
        if len(_FILL_CACHE) > 5000:
            _FILL_CACHE.clear()
        _FILL_CACHE[key] = {row[0]: _fill_value(seed, row) for row in table}
    return dict(_FILL_CACHE[key])


@cached
def overrides(table, max_size=4, exclude=frozenset()):
    rows = [r for r in table if r[0] not in exclude]

    @st.composite
    def strat(draw):
        out = {}
        for _ in range(draw(st.integers(0, max_size))):
            row = draw(st.sampled_from(rows))
            out[row[0]] = draw(field_values(row))
        return out
    return strat()


FILL = st.one_of(st.just(0), st.integers(1, 10**6))


# ------------------------------------------------------------------------------------------------------------ samples

_INT_POOL = {'int32': [0, 1, -1, 2**31 - 1, -2**31, 0x01020304, -0x01020304, 255, 256, 65535, 65536],
             'int16': [0, 1, -1, 32767, -32768, 0x0102, 255, 256, -255],
             'int8': [0, 1, -1, 127, -128]}


@cached
def ibm_words():
    """Four-byte IBM patterns, un-normalised and extreme ones included."""
    exps = st.one_of(st.integers(0, 127), st.integers(60, 72), st.sampled_from([0, 1, 2, 6, 64, 65, 70, 71, 126, 127]))
    mants = st.one_of(st.integers(0, 2**24 - 1),
                      st.integers(2**20, 2**24 - 1),
                      st.sampled_from([0, 1, 0xf, 0x10, 0xff, 0x100, 0xfffff, 0x100000, 0x100001, 0x7fffff,
                                       0x800000, 0xffffff, 0xf00000]),
                      st.integers(0, 23).map(lambda b: 1 << b))
    return st.tuples(st.booleans(), exps, mants).map(
        lambda t: (t[0] << 31 | t[1] << 24 | t[2]).to_bytes(4, 'big'))


@cached
def ibm_floats():
    """Finite doubles that can be represented (by truncation) as IBM floats."""
    exact = ibm_words().map(lambda b: float(ref.ibm_value(b)))
    edge = st.tuples(st.sampled_from([-1.0, 1.0]), st.floats(0.5, 1, exclude_max=True), st.integers(-278, 252)).map(
        lambda t: t[0] * min(t[1] * 2.0 ** t[2], float(ref.IBM_MAX)))
    return st.one_of(exact, edge, st.floats(-1e6, 1e6).filter(lambda f: f == 0 or abs(f) > 1e-78),
                     st.integers(-2**24, 2**24).map(float))


@cached
def float32s():
    return st.one_of(
        st.floats(width=32, allow_nan=False),
        st.sampled_from([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), 3.4028234663852886e38, 1e-45,
                         1.1754943508222875e-38, 0.1]),
        st.just(float('nan')))


@cached
def sample_values(fmt):
    if fmt == 'ibm':
        return ibm_floats()
    if fmt == 'float32':
        return float32s()
    lo, hi = ref.INT_LIMITS[fmt]
    return st.one_of(st.sampled_from(_INT_POOL[fmt]), st.integers(lo, hi))


@functools.lru_cache(maxsize=64)
def _ring(fmt, seed):
    """A prime number of varied sample values."""
    out = []
    for i in range(521):
        h = hashlib.blake2b(b'%d/%d' % (seed, i), digest_size=4).digest()
        if fmt == 'ibm':
            out.append(float(ref.ibm_value(bytes([h[0] & 0x80 | 60 + h[0] % 12]) + h[1:])))
        elif fmt == 'float32':
            v = struct.unpack('>f', h)[0]
            out.append(v if v == v else float(i))
        else:
            size = ref.SAMPLE_SIZES[fmt]
            out.append(int.from_bytes(h[:size], 'big', signed=True))
    return out


def raw_sample_bytes(n, seed, fmt):
    """n samples of arbitrary bits, big-endian."""
    size = ref.SAMPLE_SIZES[fmt]
    out = b''
    k = 0
    while len(out) < n * size:
        out += hashlib.blake2b(b'%d|%d' % (seed, k), digest_size=64).digest()
        k += 1
    return out[:n * size]


def expand_samples(spec, fmt):
    """spec: a list of values, ('pattern', n, seed) or ('runs', head, value, n, tail, seed): a mute zone, varied samples
    and a dead zone."""
    if isinstance(spec, tuple) and spec[0] == 'runs':
        _, head, value, n, tail, seed = spec
        return [value] * head + expand_samples(('pattern', n, seed), fmt) + [value] * tail
    if isinstance(spec, tuple):
        _, n, seed = spec
        ring = _ring(fmt, seed % 16)
        return (ring[seed % 521:] + ring * (n // 521 + 1))[:n]
    return list(spec)


@cached
def sample_specs(fmt, long=True, max_short=6):
    short = st.lists(sample_values(fmt), max_size=max_short)
    if fmt == 'ibm':
        whole = st.one_of(st.integers(-3, 3), st.integers(-2**31, 2**31 - 1),
                          st.tuples(st.integers(-2**6, 2**6), st.sampled_from([8, 16, 24, 25]),
                                    st.integers(-16, 16)).map(lambda t: (t[0] << t[1]) + t[2]))
        short = weighted((7, short), (1, st.lists(whole, min_size=1, max_size=max(8, max_short))))
    pat = st.tuples(st.just('pattern'), st.integers(1, 60), st.integers(0, 10**4))
    run_length = st.one_of(st.integers(0, 9), st.sampled_from([16, 17, 32, 64, 65, 100, 128]))
    value = st.one_of(st.just(0.0 if fmt in ('ibm', 'float32') else 0), sample_values(fmt))
    runs = st.tuples(st.just('runs'), run_length, value, st.integers(0, 6), run_length, st.integers(0, 10**4))
    if not long:
        return weighted((6, short), (4, pat), (1, runs))
    big = st.tuples(st.just('pattern'), st.sampled_from([127, 128, 255, 256, 257, 511, 800, 1000,
                                                                  1001, 1023, 1024, 2048, 4096, 4097]),
                    st.integers(0, 10**4))
    return weighted((12, short), (10, pat), (2, big), (3, runs))


# --------------------------------------------------------------------------------------------------------------- text

_COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '
_CONTROL = '\t\n\r\x00\x0b\x0c\x1a\x1b\x1c\x1d\x1e\x1f\x7f'
_SPECIAL = '\x80\x85\x9f\xa0\xad\xff\xa2\xac\xa6\xb7\xc4\xd6\xdf\xe9[]^{}|\\~!'


@cached
def text_chars(encoding):
    if encoding == 'ascii':
        return weighted((8, st.sampled_from(_COMMON)), (7, st.characters(max_codepoint=127)),
                        (1, st.sampled_from(_CONTROL)))
    return weighted((8, st.sampled_from(_COMMON)), (7, st.characters(max_codepoint=255)),
                    (1, st.sampled_from(_CONTROL)), (1, st.sampled_from(_SPECIAL)))


@cached
def text_lines(encoding, max_lines=40, max_len=80):
    line = weighted((3, st.text(text_chars(encoding), max_size=12)),
                    (1, st.text(text_chars(encoding), min_size=max(0, max_len - 3), max_size=max_len)),
                    (1, st.integers(0, 99).map(lambda i: ('C%2d LINE ' % i) + 'x' * (i % 60))))
    return st.lists(line, max_size=6) if max_lines > 6 else st.lists(line, max_size=max_lines)


def cards(lines):
    """Forty 80-character lines."""
    lines = [line[:80].ljust(80) for line in lines[:40]]
    return lines + [' ' * 80] * (40 - len(lines))


END = '((SEG: EndText))'


@cached
@st.composite
def ext_pages(draw, encoding, max_pages=3):
    """(declared count, pages as short lists of lines)."""
    n = draw(weighted((3, st.just(0)), (2, st.integers(1, max_pages))))
    pages = [draw(text_lines(encoding)) for _ in range(n)]
    pages = [[line.replace('SEG', 'GES') for line in page] for page in pages]
    if n == 0:
        return 0, []
    kind = draw(st.sampled_from(['count', 'count-end', 'until']))
    if kind != 'count':
        before = draw(st.one_of(st.sampled_from([0, 0, 1, 62]).map(lambda n: ' ' * n),
                                st.sampled_from(['x', 'C 1 ', ')) ', '(((', 'See above: '])))
        after = draw(st.sampled_from(['', '', ' ', ' C1', ')', ' ((OGP:P1/11))']))
        pages[-1] = [(before + END + after)[:max(78, len(before) + len(END))]] + pages[-1][1:]
    return (-1 if kind == 'until' else n), pages


def page_lines(page):
    """A page with CR LF terminated lines, as produced by format_extended_textual_header."""
    lines = [line[:78].ljust(78) + '\r\n' for line in page[:40]]
    return lines + [' ' * 78 + '\r\n'] * (40 - len(lines))


# ----------------------------------------------------------------------------------------------------------- geometry

@cached
def coordinates():
    return st.one_of(st.integers(-3, 12), st.integers(-10**6, 10**6),
                     st.sampled_from([-2**31, -2**31 + 1, -1, 0, 1, 2**31 - 2, 2**31 - 1]))


@cached
@st.composite
def number_series(draw, n):
    """n distinct or repeated integers within 32 bits: regular, permuted, gappy, constant or arbitrary."""
    kind = draw(st.sampled_from(['range', 'range', 'reversed', 'permuted', 'gap', 'dup', 'constant', 'random', 'swap',
                                 'moved', 'moved']))
    start = draw(st.one_of(st.integers(-50, 2000), st.sampled_from([0, 1, -2**31, 2**31 - 1 - 7 * n, -n // 2])))
    step = draw(st.sampled_from([1, 1, 1, 2, 3, 5, 7]))
    base = [start + i * step for i in range(n)]
    if kind == 'reversed':
        base.reverse()
    elif kind == 'permuted':
        base = draw(st.permutations(base)) if n else base
    elif kind == 'swap' and n > 1:
        i = draw(st.integers(0, n - 2))
        base[i], base[i + 1] = base[i + 1], base[i]
    elif kind == 'gap' and n > 1:
        k = draw(st.integers(1, n - 1))
        gap = draw(st.integers(1, 9))
        base = base[:k] + [v + gap for v in base[k:]]
        base = [v if v < 2**31 else v - 2**31 for v in base]
    elif kind == 'dup' and n > 1:
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        base[i] = base[j]
    elif kind == 'moved' and n > 2:
        # irregular inside, yet regular at both ends
        for _ in range(draw(st.integers(1, 2))):
            k = draw(st.integers(1, n - 2))
            base[k] = min(max(base[k] + draw(st.sampled_from([1, -1, step, -step, 2, -2])), -2**31), 2**31 - 1)
        if draw(st.booleans()):
            base.reverse()
    elif kind == 'constant':
        base = [start] * n
    elif kind == 'random':
        base = draw(st.lists(coordinates(), min_size=n, max_size=n))
    return [int(v) for v in base]


@cached
@st.composite
def axis(draw, n):
    """n distinct ascending integers, mostly regular."""
    start = draw(st.one_of(st.integers(-20, 3000), st.sampled_from([0, 1, -2**31, 2**31 - 400])))
    step = draw(st.sampled_from([1, 1, 2, 3, 10]))
    vals = [start + i * step for i in range(n)]
    if n > 2 and step > 1 and draw(st.integers(0, 5)) == 0:
        vals[draw(st.integers(1, n - 2))] += draw(st.sampled_from([-1, 1]))
    elif n > 2 and draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(1, n - 1))
        extra = draw(st.integers(1, 5))
        vals = vals[:k] + [v + extra for v in vals[k:]]
    return vals


@cached
@st.composite
def grids(draw, max_side=5, min_n=1):
    """A list of distinct (inline, crossline) pairs in some storage order."""
    ni, nj = draw(st.integers(1, max_side)), draw(st.integers(1, max_side))
    if ni * nj < min_n:
        ni, nj = max(ni, 2), max(nj, (min_n + 1) // 2)
    ii, jj = draw(axis(ni)), draw(axis(nj))
    order = draw(st.sampled_from(['inline-major', 'crossline-major', 'inline-major', 'crossline-major',
                                  'serpentine', 'shuffled', 'swapped']))
    rev_i, rev_j = draw(st.booleans()), draw(st.booleans())
    if draw(st.integers(0, 2)):
        rev_i = rev_j = False
    si, sj = (ii[::-1] if rev_i else ii), (jj[::-1] if rev_j else jj)
    if order == 'crossline-major':
        pairs = [(i, j) for j in sj for i in si]
    elif order == 'serpentine':
        pairs = [(i, j) for k, i in enumerate(si) for j in (sj if k % 2 == 0 else sj[::-1])]
    else:
        pairs = [(i, j) for i in si for j in sj]
    if order == 'shuffled':
        pairs = draw(st.permutations(pairs))
    if order == 'swapped' and len(pairs) > 1:
        a, b = draw(st.integers(0, len(pairs) - 1)), draw(st.integers(0, len(pairs) - 1))
        pairs = list(pairs)
        pairs[a], pairs[b] = pairs[b], pairs[a]
    if draw(st.integers(0, 3)) == 0 and len(pairs) > 2:
        drop = draw(st.sets(st.integers(0, len(pairs) - 1), max_size=max(1, len(pairs) // 3)))
        pairs = [p for k, p in enumerate(pairs) if k not in drop] or pairs[:1]
    return [tuple(map(int, p)) for p in pairs]


@cached
@st.composite
def geometry(draw, max_traces=8):
    """[(cdp, inline, crossline)] per trace."""
    kind = draw(st.sampled_from(['grid', 'series', 'line', 'zero']))
    if kind == 'grid':
        side = max(1, int(max_traces ** 0.5))
        pairs = draw(grids(side))[:max_traces]
        cdps = draw(number_series(len(pairs)))
        return [(c, i, j) for c, (i, j) in zip(cdps, pairs)]
    n = draw(st.integers(0, max_traces))
    if kind == 'zero':
        return [(0, 0, 0)] * n
    cdps = draw(number_series(n))
    if kind == 'line':
        return [(c, 0, 0) for c in cdps]
    return list(zip(cdps, draw(number_series(n)), draw(number_series(n))))


# trace header formats for files of any kind; those of the second have traces of up to 32767 samples
THFS = ('rev1', 'rev1', 'rev1', 'rev1', 'rev0', 'ext', 'compact', 'shuffled', 'lines', 'inline', 'xline', 'wide')
THFS_2BYTE = THFS[:-1]


# ----------------------------------------------------------------------------------------------------------- datasets

@st.composite
def datasets(draw, max_traces=6, thfs=('rev1',), fmts=FMTS, endians=ENDIANS, encodings=ENCODINGS, long=True,
             max_pages=2, geom=None, header_overrides=2, max_short=6, brhfs=('std',)):
    """A dataset as plain data."""
    from vf.formats import FORMATS, BINARY_FORMATS
    fmt = draw(st.sampled_from(fmts))
    enc = draw(st.sampled_from(encodings))
    thf = draw(st.sampled_from(thfs))
    table = FORMATS[thf][1]
    brhf = draw(st.sampled_from(brhfs)) if len(brhfs) > 1 else brhfs[0]
    declared, pages = draw(ext_pages(enc, max_pages))
    traces = []
    for cdp, il, xl in draw(geom if geom is not None else geometry(max_traces)):
        traces.append(dict(at=(cdp, il, xl), fill=draw(FILL),
                           h=draw(overrides(table, header_overrides, STRUCTURAL)) if header_overrides else {},
                           s=draw(sample_specs(fmt, long, max_short))))
    if traces and draw(st.integers(0, 3)) == 0:     # equal lengths
        for t in traces:
            t['s'] = traces[0]['s']
    if traces and thf == 'wide' and long and draw(st.integers(0, 3)) == 0:
        traces[-1]['s'] = ('pattern', draw(st.sampled_from([32767, 32768, 40000, 65535])), 1)
    return dict(fmt=fmt, endian=draw(st.sampled_from(endians)), enc=enc, thf=thf,
                text=draw(text_lines(enc)), declared=declared, ext=pages,
                brhf=brhf, brh_fill=draw(FILL),
                brh=draw(overrides(BINARY_FORMATS[brhf][1], 3, BRH_STRUCTURAL)),
                traces=traces)


class Model:
    """The reference meaning of a dataset case."""

    def __init__(self, case):
        from vf.formats import FORMATS, BINARY_FORMATS, ALIASES
        self.case = case
        self.fmt, self.endian, self.enc, self.thf = case['fmt'], case['endian'], case['enc'], case['thf']
        self.format_class, self.table = FORMATS[self.thf]
        self.text = cards(case['text'])
        self.ext = [page_lines(p) for p in case['ext']]
        self.brh_class, self.brh_table = BINARY_FORMATS[case.get('brhf', 'std')]
        brh = fill_values(case['brh_fill'], self.brh_table)
        brh.update(case['brh'])
        brh['data_sample_format'] = ref.FORMAT_CODES[self.fmt]
        brh['num_extended_textual_headers'] = case['declared']
        self.brh = brh
        names = {row[0] for row in self.table}
        self.headers, self.samples = [], []
        for t in case['traces']:
            h = fill_values(t['fill'], self.table)
            h.update(t['h'])
            samples = expand_samples(t['s'], self.fmt)
            cdp, il, xl = t['at']
            for name, v in (('ensemble_num', cdp), ('inline_number', il), ('crossline_number', xl),
                            ('num_samples', len(samples))):
                if name in names:
                    h[name] = v
            for a, b in ALIASES.get(self.thf, ()):
                h[b] = h[a]
            self.headers.append(h)
            self.samples.append(samples)

    def encoded(self, endian=None, enc=None, thf_table=None):
        return ref.encode_file(self.text, self.brh, self.ext, list(zip(self.headers, self.samples)), self.fmt,
                               endian or self.endian, enc or self.enc, thf_table or self.table, self.brh_table)

    def stored(self, i):
        """The sample values of trace i as they are after being stored, in comparable form."""
        return ref.comparable(stored_values(self.samples[i], self.fmt), self.fmt)

    def dataset(self, with_encoding=True):
        return make_dataset(self, with_encoding)


def stored_values(values, fmt):
    return ref.decode_samples(ref.encode_samples(values, fmt, '>'), fmt, '>')


def make_dataset(model, with_encoding=True):
    from segpy.dataset import Dataset

    class ModelDataset(Dataset):
        """An in-memory dataset."""

        def __init__(self):
            self._brh = model.brh_class(**model.brh)
            self._headers = [model.format_class(**h) for h in model.headers]
            if with_encoding:
                self.encoding = model.enc

        @property
        def textual_reel_header(self):
            return list(model.text)

        @property
        def binary_reel_header(self):
            return self._brh

        @property
        def extended_textual_header(self):
            return [list(p) for p in model.ext]

        def num_traces(self):
            return len(self._headers)

        def trace_header(self, trace_index):
            return self._headers[trace_index]

        def trace_samples(self, trace_index, start=None, stop=None):
            return list(model.samples[trace_index][start:stop])

    return ModelDataset()


def header_dict(header, table):
    return {row[0]: int(getattr(header, row[0])) for row in table}


# ------------------------------------------------------------------------------------------------------- file handles

def open_bytes(data, kind, directory=None, name='a.sgy'):
    """A readable handle over data. kind: 'memory', 'disk', 'raw' (unbuffered)."""
    if kind == 'memory':
        return io.BytesIO(data)
    path = os.path.join(directory, name)
    with open(path, 'wb') as f:
        f.write(data)
    return open(path, 'rb', buffering=0) if kind == 'raw' else open(path, 'rb')


def check_reader_content(reader, text, brh, ext, headers, stored, fmt, endian, enc, table, format_class,
                         brh_class=None, brh_table=BINARY_FIELDS):
    """Compare everything a reader reports with the expected content."""
    from vf.core import check, check_eq
    check_eq(list(reader.textual_reel_header), list(text), 'textual reel header')
    check_eq(header_dict(reader.binary_reel_header, brh_table), brh, 'binary reel header')
    if brh_class is not None:
        check(type(reader.binary_reel_header) is brh_class, 'type of the binary reel header')
    check_eq([list(p) for p in reader.extended_textual_header], [list(p) for p in ext], 'extended textual headers')
    n = len(headers)
    check_eq(reader.num_traces(), n, 'number of traces')
    check_eq(list(reader.trace_indexes()), list(range(n)), 'trace indexes')
    check_eq(reader.encoding, enc, 'encoding')
    check_eq(reader.endian, endian, 'endian')
    check(reader.data_sample_format == fmt, 'data sample format', reader.data_sample_format)
    check_eq(reader.data_sample_format_description, ref.DESCRIPTIONS[fmt], 'description')
    check_eq(reader.bytes_per_sample, ref.SAMPLE_SIZES[fmt], 'bytes per sample')
    check_eq(int(reader.revision), brh['format_revision_num'], 'revision')
    check_eq(reader.max_num_trace_samples(), max([len(s) for s in stored], default=0), 'max number of samples')
    check(reader.trace_header_format_class is format_class, 'trace header format class')
    for i in range(n):
        h = reader.trace_header(i)
        check(type(h) is format_class, 'type of trace header')
        check_eq(header_dict(h, table), headers[i], 'trace header %d' % i)
        check_eq(reader.num_trace_samples(i), len(stored[i]), 'number of samples of trace %d' % i)
        got = reader.trace_samples(i)
        check_eq(len(got), len(stored[i]), 'samples read of trace %d' % i)
        check_eq(ref.comparable(got, fmt), stored[i], 'samples of trace %d' % i)


# ------------------------------------------------------------------------------------------------------- plain surveys

@functools.lru_cache(maxsize=None)
def _blank_header(thf, endian):
    from vf.formats import FORMATS
    return ref.encode_trace_header({}, FORMATS[thf][1], endian)


def survey_bytes(at, endian='>', fmt='int8', lengths=None, enc='ascii', text=None, thf='rev1', extra=None):
    """A file with the given (cdp, inline, crossline) per trace, built directly at the standard positions.

    Sample k of trace i is (i * 31 + k * 7) % 101 - 50. extra: {trace: {byte position: (size, value)}}.
    """
    positions = {'rev1': (21, 189, 193), 'ext': (21, 189, 193), 'shuffled': (21, 189, 193), 'compact': (21, 9, 13),
                 'rev0': (21, None, None), 'lines': (None, 21, 193), 'inline': (None, 189, None),
                 'xline': (21, None, 193)}[thf]
    order = ref.order(endian)
    head = bytearray(ref.encode_cards(text or ['C 1 SURVEY'], enc) +
                     ref.encode_binary_header({'data_sample_format': ref.FORMAT_CODES[fmt],
                                               'num_extended_textual_headers': 0}, endian))
    parts = [bytes(head)]
    for i, numbers in enumerate(at):
        n = lengths[i] if lengths else 0
        h = bytearray(_blank_header(thf, endian))
        for pos, v in zip(positions, numbers):
            if pos is not None:
                h[pos - 1:pos + 3] = v.to_bytes(4, order, signed=True)
        h[114:116] = n.to_bytes(2, order)
        for pos, (size, v) in (extra or {}).get(i, {}).items():
            h[pos - 1:pos - 1 + size] = v.to_bytes(size, order, signed=True)
        parts.append(bytes(h))
        if n:
            parts.append(ref.encode_samples(survey_samples(i, n), fmt, endian))
    return b''.join(parts)


def survey_samples(i, n):
    return [(i * 31 + k * 7) % 101 - 50 for k in range(n)]


def survey_reader(at, endian='>', fmt='int8', lengths=None, thf='rev1', dimensionality=None, fh=None, **kwargs):
    from segpy.reader import create_reader
    from vf.formats import FORMATS
    if fh is None:
        fh = io.BytesIO(survey_bytes(at, endian, fmt, lengths, thf=thf))
    return create_reader(fh, encoding='ascii', endian=endian, trace_header_format=FORMATS[thf][0],
                         cache_directory=None, dimensionality=dimensionality, **kwargs)


def header_report(header):
    names = header.ordered_field_names()
    return (type(header).__name__, [(n, int(getattr(header, n)), type(getattr(header, n)).__name__) for n in names])


def report(reader, samples=True):
    """Everything a reader reports, as plain comparable data."""
    fmt = reader.data_sample_format
    n = reader.num_traces()
    out = dict(kind=type(reader).__name__, dimensionality=reader.dimensionality, num_traces=n, fmt=fmt,
               description=reader.data_sample_format_description, bps=reader.bytes_per_sample,
               revision=int(reader.revision), encoding=reader.encoding, endian=reader.endian,
               max_samples=reader.max_num_trace_samples(), text=list(reader.textual_reel_header),
               brh=header_report(reader.binary_reel_header),
               ext=[list(p) for p in reader.extended_textual_header], indexes=list(reader.trace_indexes()),
               lengths=[reader.num_trace_samples(i) for i in range(n)],
               thf=reader.trace_header_format_class, filename=reader.filename)
    if hasattr(reader, 'cdp_numbers'):
        numbers = list(reader.cdp_numbers())
        out['cdp'] = (numbers, reader.num_cdps(), [reader.trace_index(c) for c in numbers],
                      [reader.has_trace_index(c) for c in (numbers + [-77, 123456])])
    if hasattr(reader, 'inline_numbers'):
        ii, jj = list(reader.inline_numbers()), list(reader.xline_numbers())
        pairs = sorted(reader.inline_xline_numbers())
        out['lines'] = (ii, jj, reader.num_inlines(), reader.num_xlines(), pairs,
                        [reader.trace_index(p) for p in pairs],
                        [reader.has_trace_index((i, j)) for i in ii[:20] for j in jj[:20]])
    if samples:
        out['headers'] = [header_report(reader.trace_header(i)) for i in range(n)]
        out['samples'] = [ref.comparable(reader.trace_samples(i), fmt) for i in range(n)]
    return out


def outcome(fn):
    """('ok', report) or ('raised', exception type name)."""
    try:
        return 'ok', fn()
    except Exception as e:
        return 'raised', type(e).__name__


# -------------------------------------------------------------------------------------------- surveys of realistic size

class VirtualSurvey(io.RawIOBase):
    """A file of any size which is computed as it is read.

    Trace i has lengths[i % len(lengths)] samples, at(i) = (cdp, inline, crossline), line sequence number i, and samples
    cut out of an endless repetition of 521 values, starting at value i * 31 % 521.
    """

    def __init__(self, n, lengths, at, fmt='int8', endian='>', thf='rev1'):
        super().__init__()
        self.n, self.lengths, self.at_function, self.fmt, self.endian, self.thf = n, lengths, at, fmt, endian, thf
        self.size = ref.SAMPLE_SIZES[fmt]
        self.head = survey_bytes([], endian, fmt)
        blank = _blank_header(thf, endian)
        order = ref.order(endian)
        self.templates, self.starts, offset = [], [], 0
        for length in lengths:
            h = bytearray(blank)
            h[114:116] = length.to_bytes(2, order)
            self.templates.append(bytes(h))
            self.starts.append(offset)
            offset += 240 + length * self.size
        self.period = offset
        self.values = _ring(fmt, 3)
        self.encoded = ref.encode_samples(self.values, fmt, endian)
        self.encoded = self.encoded * (max(lengths, default=0) // 521 + 3)
        self.total = self.offset(n)
        self.pos = 0

    def offset(self, i):
        q, r = divmod(i, len(self.lengths))
        return len(self.head) + q * self.period + self.starts[r]

    def trace_at(self, pos):
        import bisect
        q, r = divmod(pos - len(self.head), self.period)
        return q * len(self.lengths) + bisect.bisect_right(self.starts, r) - 1

    def header(self, i):
        order = ref.order(self.endian)
        h = bytearray(self.templates[i % len(self.lengths)])
        h[0:4] = i.to_bytes(4, order)
        for pos, v in zip((20, 188, 192), self.at_function(i)):
            h[pos:pos + 4] = v.to_bytes(4, order, signed=True)
        return bytes(h)

    def trace_bytes(self, i):
        k = i * 31 % 521 * self.size
        return self.header(i) + self.encoded[k:k + self.lengths[i % len(self.lengths)] * self.size]

    def samples(self, i, start=None, stop=None):
        n = self.lengths[i % len(self.lengths)]
        return [self.values[(i * 31 + k) % 521] for k in range(*slice(start, stop).indices(n))]

    def fields(self, i):
        """Expected values of some fields."""
        cdp, il, xl = self.at_function(i)
        return dict(line_sequence_num=i, ensemble_num=cdp, inline_number=il, crossline_number=xl,
                    num_samples=self.lengths[i % len(self.lengths)])

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        pos += (0, self.pos, self.total)[whence]
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.total
        n = max(0, min(n, self.total - self.pos))
        parts = []
        pos, end = self.pos, self.pos + n
        while pos < end:
            if pos < len(self.head):
                part = self.head[pos:end]
            else:
                i = self.trace_at(pos)
                k = pos - self.offset(i)
                part = (self.header(i)[k:k + end - pos] if k + end - pos <= 240
                        else self.trace_bytes(i)[k:k + end - pos])
            parts.append(part)
            pos += len(part)
        self.pos = end
        return b''.join(parts)

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[:len(data)] = data
        return len(data)


def virtual_reader(survey, **kwargs):
    from segpy.reader import create_reader
    from vf.formats import FORMATS
    return create_reader(survey, encoding='ascii', endian=survey.endian, trace_header_format=FORMATS[survey.thf][0],
                         cache_directory=None, **kwargs)


def virtual_probes(survey, more=()):
    """Traces worth looking at: near both ends, near powers of two of the index and of the file position."""
    out = set(more) | set(range(3)) | set(range(survey.n - 3, survey.n))
    for k in range(8, 40):
        for centre in (1 << k, 10 ** (k % 8), survey.trace_at((1 << k) + len(survey.head))):
            out |= set(range(centre - 2, centre + 3))
        if 1 << k < survey.total and 1 << k > len(survey.head):
            centre = survey.trace_at(1 << k)
            out |= set(range(centre - 2, centre + 3))
    return sorted(i for i in out if 0 <= i < survey.n)


LARGE_SURVEYS = (
    # name, traces, lengths, format, byte order, header format, number of crosslines
    ('beyond 4 GB', 16500, [65535, 65535, 65534, 60000], 'int32', '>', 'wide', 100),
    ('beyond 2 GB', 36000, [32767, 32767, 1, 32766], 'int16', '<', 'rev1', 180),
    ('many traces', 131100, [0, 1, 4, 2, 0], 'int8', '>', 'rev1', 300),
    ('many equal traces', 70000, [3], 'float32', '<', 'rev1', 100),
)


def large_survey(name, at=None):
    row = next(r for r in LARGE_SURVEYS if r[0] == name)
    _, n, lengths, fmt, endian, thf, columns = row
    at = at or (lambda i: (i * 2 + 5, 1000 + i // columns, 2000 + i % columns))
    return VirtualSurvey(n, lengths, at, fmt, endian, thf)


def large_grid(ni, nj, lengths, fmt='int16', endian='>', order='inline', gaps=7, thf='rev1'):
    """(survey, {(inline, crossline): trace index}): a large 3D survey, some of whose positions are missing."""
    pairs = [(100 + 2 * i, 5000 + j) for i in range(ni) for j in range(nj) if not gaps or (i * nj + j) % gaps != gaps // 2]
    if order == 'xline':
        pairs.sort(key=lambda p: p[::-1])
    elif order == 'mixed':
        pairs = pairs[1::2] + pairs[::2]
    return (VirtualSurvey(len(pairs), lengths, lambda i: (i % 1000,) + pairs[i], fmt, endian, thf),
            {p: k for k, p in enumerate(pairs)})
