"""C03: reading any well-formed byte stream reports what its bytes denote."""

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, scratch_dir, rmtree
from vf.fieldtables import BINARY_FIELDS

PROPERTY = 'C03'
RULE = ("A case is a byte stream built by the independent encoder: arbitrary bytes in all unassigned positions, raw "
        "sample bit patterns (un-normalised IBM floats, NaNs), ragged traces, a trailing fragment, read with one of "
        "five trace header formats. Non-trivial: at least one trace with samples, and noise, a fragment, extended "
        "headers or a non-default format. Also virtual files of realistic and very large size, computed on demand.")
ASSUMPTIONS = ["Enumerated header fields hold documented values (others are refused, see C23).",
               "Text is decodable in the file's encoding."]


@st.composite
def cases(draw):
    case = draw(gen.datasets(max_traces=6, thfs=gen.THFS,
                             brhfs=('std', 'std', 'std', 'ext', 'wide', 'compact', 'short'),
                             long=False))
    for t in case['traces']:
        if draw(st.booleans()):
            t['raw'] = (draw(gen.weighted((5, st.integers(0, 40)), (1, st.sampled_from([255, 256, 1000, 4096])))),
                        draw(st.integers(0, 10**6)))
    case['bin_noise'] = draw(gen.FILL)
    case['trace_noise'] = draw(gen.FILL)
    case['tail'] = draw(st.sampled_from([0, 0, 0, 1, 2, 100, 238, 239]))
    case['rkind'] = draw(st.sampled_from(['memory', 'memory', 'disk', 'raw']))
    case['encarg'] = draw(st.booleans())
    case['explicit_text'] = draw(st.booleans())
    return case


def noise(n, seed, k=0):
    if not seed:
        return bytes(n)
    return gen.raw_sample_bytes(n, seed * 1000 + k, 'int8')


def guess(bs, threshold=0.5):
    """The documented heuristic, computed independently."""
    if not bs:
        return None
    if not any(bs):
        return 'ascii'
    common = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '
    asc = sum(bs.count(c.encode('latin1')) for c in common)
    ebc = sum(bs.count(ref.encode_text(c, 'cp037')) for c in common)
    is_asc, is_ebc = asc / len(bs) >= threshold, ebc / len(bs) >= threshold
    if is_asc and not is_ebc:
        return 'ascii'
    if is_ebc and not is_asc:
        return 'cp037'
    return None


def build(case):
    """(bytes, model, decoded samples)"""
    model = gen.Model(case)
    parts = [ref.encode_cards(model.text, case['enc']),
             ref.encode_binary_header(model.brh, case['endian'], noise(400, case['bin_noise']), model.brh_table)]
    for page in model.ext:
        parts.append(b''.join(ref.encode_text(line, case['enc']) for line in page))
    decoded = []
    for i, t in enumerate(case['traces']):
        raw = t.get('raw')
        if raw:
            n = raw[0]
            body = gen.raw_sample_bytes(n, raw[1], case['fmt'])
            model.headers[i]['num_samples'] = n
        else:
            body = ref.encode_samples(model.samples[i], case['fmt'], case['endian'])
            n = len(model.samples[i])
        order = '>' if case['fmt'] == 'ibm' else case['endian']
        decoded.append(ref.comparable(ref.decode_samples(body, case['fmt'], order), case['fmt']))
        parts.append(ref.encode_trace_header(model.headers[i], model.table, case['endian'],
                                             noise(240, case['trace_noise'], i)))
        parts.append(body)
    parts.append(noise(case['tail'], 77) if case['tail'] else b'')
    return b''.join(parts), model, decoded


def reading(case, cov):
    from segpy.reader import create_reader
    data, model, decoded = build(case)
    enc = case['enc']
    encarg = enc
    if case['encarg'] and guess(data[:3200]) == enc:
        encarg = None
        cov.label('encoding guessed')
    for key in ('fmt', 'endian', 'enc', 'thf'):
        cov.label('%s %s' % (key, case[key]))
    if case['tail']:
        cov.label('fragment')
    cov.nontrivial(any(decoded) and (case['bin_noise'] or case['trace_noise'] or case['tail'] or case['ext']
                                     or case['thf'] != 'rev1'))
    directory = scratch_dir() if case['rkind'] != 'memory' else None
    try:
        with gen.open_bytes(data, case['rkind'], directory) as fh:
            kwargs = {}
            if encarg is not None:
                kwargs['encoding'] = encarg
            if case['endian'] != '>' or case['bin_noise'] % 2:
                kwargs['endian'] = case['endian']
            if case['thf'] != 'rev1' or case['bin_noise'] % 2:
                kwargs['trace_header_format'] = model.format_class
            if case.get('brhf', 'std') != 'std':
                kwargs['binary_reel_header_format'] = model.brh_class
                cov.label('binary header ' + case['brhf'])
            reader = create_reader(fh, cache_directory=None, **kwargs)
            gen.check_reader_content(reader, model.text, model.brh, model.ext, model.headers, decoded,
                                     case['fmt'], case['endian'], enc, model.table, model.format_class,
                                     model.brh_class, model.brh_table)
            if case['rkind'] == 'memory':
                check_eq(reader.filename, '<unknown>', 'file name')
            else:
                check_eq(reader.filename, fh.name, 'file name')
    finally:
        if directory:
            rmtree(directory)


def field_cases(tier, shard, nshards):
    """Every field of both headers x notable values x byte order."""
    from vf.checks import c02
    for case in c02.field_cases(tier, shard, nshards):
        yield case


def one_field(case, cov):
    """A field read at its own position with all other bytes noisy where unassigned and zero elsewhere."""
    import io
    from segpy.reader import create_reader
    brh = {case['name']: case['value']} if case['kind'] == 'binary' else {}
    h = {case['name']: case['value']} if case['kind'] == 'trace' else {}
    n = h.get('num_samples', 3)
    if n > 5000:
        n = h['num_samples'] = 4999
    ds = dict(fmt='int8', endian=case['endian'], enc='ascii', thf='rev1', text=['X'], declared=0, ext=[], brh_fill=0,
              brh=brh, traces=[dict(at=(0, 0, 0), fill=0, h=h, s=('pattern', n, 1))],
              bin_noise=5, trace_noise=6, tail=0)
    cov.nontrivial(True)
    model = gen.Model(ds)
    headers = dict(model.headers[0])
    headers.update(h)
    data, model, decoded = build(ds)
    # structural fields are set through the raw header
    model.headers[0].update(h)
    pre = data[:3600]
    header = ref.encode_trace_header(model.headers[0], model.table, case['endian'], noise(240, 6, 0))
    data = pre + header + data[3840:]
    fh = io.BytesIO(data)
    reader = create_reader(fh, encoding='ascii', endian=case['endian'], cache_directory=None)
    check_eq(gen.header_dict(reader.binary_reel_header, BINARY_FIELDS), model.brh, 'binary reel header')
    check_eq(gen.header_dict(reader.trace_header(0), model.table), model.headers[0], 'trace header')
    check_eq(reader.num_traces(), 1, 'number of traces')
    check_eq(ref.comparable(reader.trace_samples(0), 'int8'), decoded[0], 'samples')


@st.composite
def toolkit_cases(draw):
    return dict(fill=draw(gen.FILL), h=draw(gen.overrides(BINARY_FIELDS, 3, frozenset())),
                endian=draw(st.sampled_from('<>')))


def toolkit_queries(case, cov):
    """The functions which interpret the binary header."""
    import io
    from segpy import toolkit
    brh = gen.fill_values(case['fill'], BINARY_FIELDS)
    brh.update(case['h'])
    cov.nontrivial(case['fill'] or case['h'])
    header = toolkit.read_binary_reel_header(io.BytesIO(ref.encode_binary_header(brh, case['endian'])),
                                             endian=case['endian'])
    check_eq(gen.header_dict(header, BINARY_FIELDS), brh, 'binary reel header')
    bps = ref.SAMPLE_SIZES[ref.CODE_FORMATS[brh['data_sample_format']]]
    check_eq(toolkit.bytes_per_sample(header), bps, 'bytes per sample')
    check_eq(toolkit.samples_per_trace(header), brh['num_samples'], 'samples per trace')
    check_eq(toolkit.trace_length_bytes(header, bps), 240 + bps * brh['num_samples'], 'trace length')
    check_eq(toolkit.num_extended_textual_headers(header), brh['num_extended_textual_headers'], 'extended headers')
    check_eq(int(toolkit.extract_revision(header)), brh['format_revision_num'], 'revision')


def large_cases(tier, shard, nshards):
    for k, row in enumerate(gen.LARGE_SURVEYS):
        if k % nshards == shard:
            yield row[0]


def large(case, cov):
    """Surveys of realistic size (gigabytes, a hundred thousand traces), computed as they are read."""
    survey = gen.large_survey(case)
    cov.nontrivial()
    cov.label(case)
    reader = gen.virtual_reader(survey)
    check_eq(reader.num_traces(), survey.n, 'number of traces')
    check_eq(reader.max_num_trace_samples(), max(survey.lengths), 'longest trace')
    indexes = reader.trace_indexes()
    check_eq(len(list(indexes)), survey.n, 'trace indexes')
    fmt = survey.fmt
    for i in gen.virtual_probes(survey):
        cov.label('traces looked at')
        want = survey.fields(i)
        h = reader.trace_header(i)
        check_eq({name: int(getattr(h, name)) for name in want}, want, 'header of trace', i)
        n = want['num_samples']
        check_eq(reader.num_trace_samples(i), n, 'number of samples of trace', i)
        if n <= 40 or i % 5 == 0:
            check_eq(ref.comparable(reader.trace_samples(i), fmt), ref.comparable(survey.samples(i), fmt), 'trace', i)
        for a, b in ((n - 3, n), (n // 2, n // 2 + 5), (0, 2)):
            if 0 <= a <= b <= n:
                check_eq(ref.comparable(reader.trace_samples(i, a, b), fmt),
                         ref.comparable(survey.samples(i, a, b), fmt), 'trace', i, 'from', a, 'to', b)


PROPS = [
    Prop('large', large, cases=large_cases, shards=4),
    Prop('reading', reading, cases, quick=450, shards=7),
    Prop('each_field', one_field, cases=field_cases),
    Prop('toolkit_queries', toolkit_queries, toolkit_cases, quick=300),
]
