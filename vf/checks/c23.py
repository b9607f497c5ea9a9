"""C23: malformed and truncated input."""
import io
import os

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, scratch_dir, rmtree
from vf.checks import c03
from vf.fieldtables import BINARY_FIELDS

PROPERTY = 'C23'
RULE = ("Valid streams (all formats, noise, extended headers) damaged by up to five mutations - bytes replaced, bits "
        "flipped, regions zeroed, inserted, deleted, duplicated, header fields of consequence overwritten with notable "
        "values, cut off anywhere - and arbitrary bytes. Oracle: a reference parser which says what the bytes denote or "
        "that they denote nothing. Every truncation point of small files is enumerated (in steps within the first 3600 "
        "bytes when quick). Non-trivial: the stream differs from a valid one and is at least 3600 bytes long.")
ASSUMPTIONS = ["Header fields holding a value outside the documented enumeration or range may be refused or reported."]

DOCUMENTED = (ValueError, EOFError, TypeError)      # UnicodeError is a ValueError
STANZA = '((SEG: EndText))'

# fields whose damage has consequences: (position, size)
KEY_FIELDS = [(3225, 2), (3505, 2), (3501, 2), (3221, 2)]
TRACE_KEYS = [(115, 2), (21, 4), (189, 4), (193, 4), (35, 2), (125, 2)]
KEY_VALUES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 256, 255, -1, -2, 257, 32767, -32768, 128, 512, 2048]


@st.composite
def mutations(draw):
    kind = draw(st.sampled_from(['byte', 'byte', 'bit', 'zero', 'insert', 'delete', 'dup', 'key', 'key', 'tkey', 'tkey',
                                 'tkey', 'cut', 'cut', 'append', 'text']))
    return (kind, draw(st.integers(0, 10**6)), draw(st.one_of(st.integers(0, 300), st.sampled_from([1, 2, 4, 80, 240]))),
            draw(st.sampled_from(KEY_VALUES)))


MUTATIONS = st.lists(mutations(), max_size=5)
FORMATS = ('rev1', 'rev1', 'rev1', 'rev0', 'ext', 'compact', 'shuffled')
BASES = gen.datasets(max_traces=4, thfs=FORMATS, long=False, header_overrides=1)


@st.composite
def cases(draw):
    base = draw(BASES)
    base['bin_noise'] = draw(gen.FILL)
    base['trace_noise'] = draw(gen.FILL)
    base['tail'] = draw(st.sampled_from([0, 0, 100, 239]))
    return dict(base=base, mutations=draw(MUTATIONS), enc=draw(st.sampled_from([None, 'same', 'same', 'same', 'other'])),
                endian=draw(st.sampled_from(['same', 'same', 'same', 'same', 'same', 'swapped'])),
                thf=draw(st.sampled_from([None, None, None, 'rev1', 'rev0', 'compact'])),
                dim=draw(st.sampled_from([None, None, None, 1, 2, 3])), kind=draw(st.sampled_from(['memory', 'disk'])))


def mutate(data, muts, endian, starts):
    order = ref.order(endian)
    data = bytearray(data)
    for kind, a, n, v in muts:
        size = len(data)
        if not size:
            break
        at = a % size
        if a % 3 == 0 and size > 3600:
            at = 3600 + a % (size - 3600)       # mostly in the traces
        if kind == 'byte':
            data[at] = n % 256
        elif kind == 'bit':
            data[at] ^= 1 << n % 8
        elif kind == 'zero':
            data[at:at + n] = bytes(len(data[at:at + n]))
        elif kind == 'insert':
            data[at:at] = gen.raw_sample_bytes(n, a, 'int8')
        elif kind == 'delete':
            del data[at:at + n]
        elif kind == 'dup':
            data[at:at] = data[at:at + n]
        elif kind == 'key':
            pos, width = KEY_FIELDS[a % len(KEY_FIELDS)]
            if size >= pos - 1 + width:
                data[pos - 1:pos - 1 + width] = v.to_bytes(width, order, signed=True)
        elif kind == 'tkey':
            pos, width = TRACE_KEYS[a % len(TRACE_KEYS)]
            if starts:
                at = starts[a % len(starts)] + pos - 1
                if at + width <= size:
                    data[at:at + width] = v.to_bytes(width, order, signed=True)
        elif kind == 'cut':
            del data[at:]
        elif kind == 'append':
            data += gen.raw_sample_bytes(n, a, 'int8')
        elif kind == 'text':
            data[a % min(3200, size)] = 128 + n % 128
    return bytes(data)


class Refused(Exception):
    """The bytes denote no SEG-Y data at all."""


def legal(values, table):
    return all(row[3] <= values[row[0]] <= row[4] and (row[5] is None or values[row[0]] in row[5]) for row in table)


def parse(data, enc, endian, table):
    """What the bytes denote. 'doubtful' means that a header field has an undocumented value."""
    if len(data) < 3600:
        raise Refused('too short')
    if enc is None:
        enc = c03.guess(data[:3200]) or 'ascii'
    out = dict(enc=enc, doubtful=False)

    def page(at):
        bs = data[at:at + 3200]
        if len(bs) < 3200:
            raise Refused('truncated text')
        if enc == 'ascii' and max(bs) > 127:
            raise Refused('text')
        return ref.decode_cards(bs, enc)
    out['text'] = page(0)
    brh = ref.decode_header(data[3200:3600], BINARY_FIELDS, 3201, endian)
    out['brh'] = brh
    out['doubtful'] = not legal(brh, BINARY_FIELDS)
    if brh['data_sample_format'] not in ref.CODE_FORMATS:
        raise Refused('sample format')
    fmt = out['fmt'] = ref.CODE_FORMATS[brh['data_sample_format']]
    bps = ref.SAMPLE_SIZES[fmt]
    declared = brh['num_extended_textual_headers']
    at = 3600
    out['ext'] = []
    while declared < 0 or len(out['ext']) < declared:
        p = page(at)
        at += 3200
        out['ext'].append(p)
        if STANZA in p[0]:
            if 0 <= declared != len(out['ext']):
                raise Refused('premature end')
            if declared < 0:
                break
    traces = out['traces'] = []
    while len(data) - at >= 240:
        h = ref.decode_header(data[at:at + 240], table, 1, endian)
        n = h['num_samples']
        if n < 0:
            raise Refused('number of samples')
        body = data[at + 240:at + 240 + n * bps]
        whole = len(body) // bps
        traces.append((h, n, ref.decode_samples(body[:whole * bps], fmt, '>' if fmt == 'ibm' else endian), whole))
        at += 240 + n * bps
    return out


def compare(reader, want, table, format_class, endian, cov):
    """Everything the reader reports is what the bytes denote."""
    check_eq(list(reader.textual_reel_header), want['text'], 'text')
    check_eq(gen.header_dict(reader.binary_reel_header, BINARY_FIELDS), want['brh'], 'binary header')
    check_eq([list(p) for p in reader.extended_textual_header], want['ext'], 'extended headers')
    check_eq(reader.encoding, want['enc'], 'encoding')
    check_eq(reader.endian, endian, 'byte order')
    check_eq(reader.data_sample_format, want['fmt'], 'format')
    check_eq(reader.num_traces(), len(want['traces']), 'number of traces')
    check_eq(reader.max_num_trace_samples(), max([t[1] for t in want['traces']], default=0), 'longest trace')
    for i, (h, n, samples, whole) in enumerate(want['traces']):
        if i > 60 and i < len(want['traces']) - 5:
            continue
        compare_trace(reader, i, h, n, samples, whole, want['fmt'], table, cov)
    for i in (-1, len(want['traces'])):
        raises(ValueError, lambda: reader.trace_samples(i), 'trace %d' % i)


def compare_trace(reader, i, h, n, samples, whole, fmt, table, cov):
    check_eq(reader.num_trace_samples(i), n, 'samples of trace %d' % i)
    try:
        got = reader.trace_header(i)
    except DOCUMENTED as e:
        check(not legal(h, table), 'header of trace %d refused: %r' % (i, e))
        cov.label('trace header refused')
    else:
        check_eq(gen.header_dict(got, table), h, 'header of trace %d' % i)
    samples = ref.comparable(samples, fmt)
    if whole == n:
        check_eq(ref.comparable(reader.trace_samples(i), fmt), samples, 'trace %d' % i)
    else:
        cov.label('truncated samples')
        raises(EOFError, lambda: reader.trace_samples(i), 'truncated trace %d' % i)
        check_eq(ref.comparable(reader.trace_samples(i, 0, whole), fmt), samples, 'part of trace %d' % i)
        if whole:
            check_eq(ref.comparable(reader.trace_samples(i, whole - 1, whole), fmt), samples[-1:], 'last sample')
        raises(EOFError, lambda: reader.trace_samples(i, 0, whole + 1), 'one too many')
        raises(EOFError, lambda: reader.trace_samples(i, n - 1, n), 'sample beyond the end')


def opening(data, enc, endian, thf, dim, kind, cov):
    from segpy.reader import create_reader
    from vf.formats import FORMATS as F
    format_class, table = F[thf]
    try:
        want = parse(data, enc, endian, table)
    except Refused as e:
        want = None
        cov.label('refused: %s' % e)
    directory = scratch_dir() if kind == 'disk' else None
    try:
        if directory:
            path = os.path.join(directory, 'a.sgy')
            with open(path, 'wb') as f:
                f.write(data)
            fh = open(path, 'r+b')
        else:
            fh = io.BytesIO(data)
        with fh:
            try:
                reader = create_reader(fh, encoding=enc, endian=endian, trace_header_format=format_class,
                                       dimensionality=dim, cache_directory=None)
            except DOCUMENTED as e:
                check(want is None or want['doubtful'], 'refused: %r' % e)
                if want:
                    cov.label('refused: header value')
            else:
                check(want is not None, 'accepted bytes which are no SEG-Y data')
                cov.label('accepted')
                compare(reader, want, table, format_class, endian, cov)
                if dim:
                    check(reader.dimensionality == dim or dim == 1 and reader.dimensionality == 0, 'dimensionality',
                          reader.dimensionality)
            if directory:
                fh.flush()
                with open(path, 'rb') as f:
                    check(f.read() == data, 'the file was modified')
                check_eq(os.listdir(directory), ['a.sgy'], 'files')
            else:
                check(fh.getvalue() == data, 'the file was modified')
    finally:
        if directory:
            rmtree(directory)


def damaged(case, cov):
    base = case['base']
    valid, model, _ = c03.build(base)
    starts = []
    at = 3600 + 3200 * len(model.ext)
    for h in model.headers:
        starts.append(at)
        at += 240 + h['num_samples'] * ref.SAMPLE_SIZES[model.fmt]
    data = mutate(valid, case['mutations'], model.endian, starts)
    cov.nontrivial(data != valid and len(data) >= 3600)
    enc = {None: None, 'same': model.enc, 'other': 'cp037' if model.enc == 'ascii' else 'ascii'}[case['enc']]
    endian = model.endian if case['endian'] == 'same' else '<' if model.endian == '>' else '>'
    opening(data, enc, endian, case['thf'] or model.thf, case['dim'], case['kind'], cov)


@st.composite
def random_cases(draw):
    n = draw(st.sampled_from([0, 1, 239, 240, 3199, 3200, 3599, 3600, 3601, 3839, 3840, 3841, 4000, 6800, 10000, 12000]))
    seed = draw(st.integers(0, 10**6))
    how = draw(st.sampled_from(['noise', 'zeros', 'ones', 'constant', 'sparse', 'text']))
    return dict(n=n, seed=seed, how=how, fmt=draw(st.sampled_from([None, 1, 2, 3, 5, 8])),
                ext=draw(st.sampled_from([None, 0, 0, 0, 1, -1, 2])),
                enc=draw(st.sampled_from([None, 'ascii', 'cp037'])), endian=draw(st.sampled_from('<>')),
                thf=draw(st.sampled_from(FORMATS)))


def arbitrary(case, cov):
    n, seed = case['n'], case['seed']
    if case['how'] == 'noise':
        data = gen.raw_sample_bytes(n, seed, 'int8')
    elif case['how'] == 'sparse':
        data = bytearray(n)
        for k in range(min(n, 9)):
            data[(seed * (k + 7)) % n] = (seed >> k) % 256
    elif case['how'] == 'text':
        data = (STANZA + ' SEISMIC DATA  ').encode()[seed % 30:] * (n // 10 + 1)
        data = data[:n]
    else:
        data = bytes([{'zeros': 0, 'ones': 255, 'constant': seed % 256}[case['how']]]) * n
    data = bytearray(data)
    if n >= 3600 and case['fmt'] is not None:
        # a valid binary header
        data[3200:3600] = ref.encode_binary_header(dict(
            data_sample_format=case['fmt'], num_extended_textual_headers=case['ext'] or 0), case['endian'])
    if n >= 3600:
        cov.nontrivial(True)
    cov.label(case['how'])
    opening(bytes(data), case['enc'], case['endian'], case['thf'], None, 'memory', cov)


SMALL = [dict(fmt=fmt, endian=endian, enc=enc, thf=thf, text=['C 1 SMALL FILE TEXT'] * 40, declared=declared,
              ext=[['EXTENDED'], [gen.END]] if declared else [], brh_fill=3, brh={},
              traces=[dict(at=(i + 1, 1 + i // 2, 1 + i % 2), fill=i * 3 + 1, h={}, s=('pattern', n, i))
                      for i, n in enumerate(lengths)])
         for fmt, endian, enc, thf, declared, lengths in [
             ('ibm', '>', 'cp037', 'rev1', 0, (5, 0, 9)), ('int16', '<', 'ascii', 'rev1', 2, (11, 3)),
             ('float32', '<', 'ascii', 'rev0', -1, (4, 7)), ('int8', '>', 'cp037', 'ext', 0, (13, 20))]]


def truncations(tier, shard, nshards):
    for k, base in enumerate(SMALL):
        model = gen.Model(base)
        size = len(model.encoded())
        first = list(range(0, 3600, 211 if tier == 'quick' else 1)) + [3199, 3200, 3599]
        rest = range(3600, size + 1)
        if base['ext']:
            # mostly text
            end = 3600 + 6400
            rest = list(range(3600, end, 101 if tier == 'quick' else 1)) + [6799, 6800, 6801, end - 1] + \
                list(range(end, size + 1))
        for n, cut in enumerate(first + list(rest)):
            if n % nshards == shard:
                yield k, cut


def truncated(case, cov):
    k, cut = case
    base = SMALL[k]
    model = gen.Model(base)
    data = model.encoded()[:cut]
    cov.nontrivial(cut >= 3600)
    opening(data, model.enc, model.endian, model.thf, None, 'memory', cov)


class Unseekable(io.RawIOBase):
    def __init__(self, data):
        self._io = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, b):
        return self._io.readinto(b)


@st.composite
def argument_cases(draw):
    kind = draw(st.sampled_from(['closed', 'text', 'unseekable', 'short', 'endian', 'dimensionality', 'progress']))
    value = None
    if kind == 'short':
        value = draw(st.one_of(st.integers(0, 3599), st.sampled_from([0, 1, 3200, 3599])))
    elif kind == 'endian':
        value = draw(st.sampled_from(['', '=', '!', '@', '<>', '><', 'big', 'little', None, 0, '> ', b'>']))
    elif kind == 'dimensionality':
        value = draw(st.sampled_from([0, 4, -1, 5, 10, '3', '2', 2.5, 'x', (3,)]))
    elif kind == 'progress':
        value = draw(st.sampled_from([0, 1, True, False, 'x', '', (), b'abc', 0.5]))
    return dict(kind=kind, value=value, base=draw(st.integers(0, 3)), disk=draw(st.booleans()))


def arguments(case, cov):
    from segpy.reader import create_reader
    from segpy.toolkit import catalog_traces
    kind, value = case['kind'], case['value']
    base = SMALL[case['base']]
    model = gen.Model(base)
    data = model.encoded()
    cov.nontrivial(True)
    cov.label(kind)
    kwargs = dict(encoding=model.enc, endian=model.endian, trace_header_format=model.format_class,
                  cache_directory=None)
    calls = []
    if kind == 'short':
        data = data[:value]
    directory = scratch_dir()
    try:
        path = os.path.join(directory, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(data)
        fh = open(path, 'rb') if case['disk'] else io.BytesIO(data)
        want = ValueError
        if kind == 'closed':
            fh.close()
        elif kind == 'text':
            fh.close()
            fh = open(path, encoding='latin1') if case['disk'] else io.TextIOWrapper(io.BytesIO(data), 'latin1')
            want = TypeError
        elif kind == 'unseekable':
            fh.close()
            fh = Unseekable(data) if case['disk'] else io.BufferedReader(Unseekable(data))
            want = TypeError
        elif kind == 'endian':
            kwargs['endian'] = value
        elif kind == 'dimensionality':
            kwargs['dimensionality'] = value
        elif kind == 'progress':
            kwargs['progress'] = value
            want = TypeError
        raises(want, lambda: create_reader(fh, **kwargs), kind, value)
        check_eq(calls, [], 'calls')
        if kind == 'progress':
            raises(TypeError, lambda: catalog_traces(fh, 4, progress=value), 'progress', value)
        fh.close()
        with open(path, 'rb') as f:
            check(f.read() == data, 'the file was modified')
        check_eq(os.listdir(directory), ['a.sgy'], 'files')
    finally:
        rmtree(directory)


PROPS = [
    Prop('damaged', damaged, cases, quick=900, shards=6),
    Prop('arbitrary', arbitrary, random_cases, quick=600, shards=2),
    Prop('truncated', truncated, cases=truncations, shards=3),
    Prop('arguments', arguments, argument_cases, quick=300),
]
