"""C01: write -> read round trip."""
import array
import io
import os

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, scratch_dir, rmtree

PROPERTY = 'C01'
RULE = ("A case is a dataset (text, binary header, extended headers, traces with header values and samples) plus a "
        "sample format, byte order, encoding, trace header format, file kinds and sample container type. Non-trivial: "
        "at least one trace with at least one sample and at least one header field differing from its default.")
ASSUMPTIONS = ["IBM samples are compared after truncation to IBM precision by an independent encoder.",
               "Float32 samples are compared by bit pattern, all NaNs being identified.",
               "The number of samples in each trace header equals the number of samples supplied."]


@st.composite
def cases(draw):
    case = draw(gen.datasets(max_traces=6, thfs=gen.THFS,
                             brhfs=('std', 'std', 'std', 'ext', 'wide', 'compact', 'short')))
    case['wkind'] = draw(st.sampled_from(['memory', 'memory', 'disk', 'raw']))
    case['rkind'] = draw(st.sampled_from(['memory', 'memory', 'disk', 'raw']))
    case['container'] = draw(st.sampled_from(['list', 'list', 'tuple', 'native', 'exact', 'exact']))
    case['encarg'] = draw(st.sampled_from(['explicit', 'explicit', 'dataset']))
    case['again'] = draw(st.integers(0, 3)) == 0
    case['own'] = draw(st.sampled_from([None, None, '>', '<']))
    return case


def contain(values, fmt, container):
    if container == 'tuple':
        return tuple(values)
    if container == 'native':
        if fmt == 'ibm' and values and all(type(v) is int for v in values):
            return array.array('i' if max(map(abs, values)) < 2**31 else 'q', values)
        if fmt == 'ibm':
            from segpy.ibm_float import IBMFloat
            return [IBMFloat.from_float(v) for v in values]
        return array.array({'int32': 'i', 'int16': 'h', 'int8': 'b', 'float32': 'd'}[fmt], values)
    if container == 'exact':
        # the very representation the file uses
        if fmt == 'ibm':
            if values and all(type(v) is int for v in values):
                return array.array('i', values) if max(map(abs, values)) < 2**31 else list(values)
            return array.array('d', values)
        return array.array({'int32': 'i', 'int16': 'h', 'int8': 'b', 'float32': 'f'}[fmt], values)
    return list(values)


def frozen(container):
    """What the caller's container holds, in a form which can be compared."""
    if isinstance(container, array.array):
        return container.typecode, container.tobytes()
    return type(container).__name__, [(type(v).__name__, bytes(v) if hasattr(v, '__bytes__') else repr(v))
                                      for v in container]


def write(model, case, directory):
    from segpy.writer import write_segy
    dataset = model.dataset(with_encoding=case['encarg'] == 'dataset')
    if case['own'] is not None:
        dataset.endian = case['own']        # as of a reader of another file
    held = [contain(values, case['fmt'], case['container']) for values in model.samples]
    before = [frozen(values) for values in held]
    headers = [gen.header_dict(dataset.trace_header(i), model.table) for i in range(len(held))]
    # the dataset hands out its own containers, which are not the writer's to change
    dataset.trace_samples = (lambda i, start=None, stop=None:
                             held[i] if start is None and stop is None else held[i][start:stop])
    kwargs = dict(trace_header_format=model.format_class, endian=case['endian'])
    if case['encarg'] == 'explicit':
        kwargs['encoding'] = case['enc']
    if case['wkind'] == 'memory':
        fh = io.BytesIO()
        write_segy(fh, dataset, **kwargs)
        data = fh.getvalue()
    else:
        path = os.path.join(directory, 'w.sgy')
        with open(path, 'wb', buffering=0 if case['wkind'] == 'raw' else -1) as fh:
            write_segy(fh, dataset, **kwargs)
        with open(path, 'rb') as fh:
            data = fh.read()
    check_eq([frozen(values) for values in held], before, "the dataset's own samples after writing")
    check_eq([gen.header_dict(dataset.trace_header(i), model.table) for i in range(len(held))], headers,
             "the dataset's own trace headers after writing")
    if case.get('again'):
        fh = io.BytesIO()
        write_segy(fh, dataset, **kwargs)
        check(fh.getvalue() == data, 'writing the same dataset again gives other bytes')
    return data


def labels(case, cov):
    cov.label('fmt ' + case['fmt'])
    cov.label('endian ' + case['endian'])
    cov.label('enc ' + case['enc'])
    cov.label('thf ' + case['thf'])
    cov.label('binary header ' + case.get('brhf', 'std'))
    lengths = {len(gen.expand_samples(t['s'], case['fmt'])) for t in case['traces']}
    if not case['traces']:
        cov.label('no traces')
    if len(lengths) > 1:
        cov.label('ragged')
    if 0 in lengths:
        cov.label('empty trace')
    if case['ext']:
        cov.label('extended headers')
    cov.nontrivial(lengths - {0} and (case['brh_fill'] or case['brh']
                                      or any(t['fill'] or t['h'] for t in case['traces'])))


def roundtrip(case, cov):
    from segpy.reader import create_reader
    labels(case, cov)
    model = gen.Model(case)
    directory = scratch_dir() if {'disk', 'raw'} & {case['wkind'], case['rkind']} else None
    try:
        data = write(model, case, directory)
        with gen.open_bytes(data, case['rkind'], directory, 'r.sgy') as fh:
            kwargs = {}
            if case.get('brhf', 'std') != 'std':
                kwargs['binary_reel_header_format'] = model.brh_class
            reader = create_reader(fh, encoding=case['enc'], trace_header_format=model.format_class,
                                   endian=case['endian'], cache_directory=None, **kwargs)
            gen.check_reader_content(reader, model.text, model.brh, model.ext, model.headers,
                                     [model.stored(i) for i in range(len(model.headers))],
                                     case['fmt'], case['endian'], case['enc'], model.table, model.format_class,
                                     model.brh_class, model.brh_table)
    finally:
        if directory:
            rmtree(directory)


def many_cases():
    """Datasets with many small traces, so that the number of traces is well beyond any chunk or digit boundary."""
    @st.composite
    def strat(draw):
        n = draw(st.sampled_from([33, 64, 100, 129, 257, 300]))
        fmt = draw(st.sampled_from(gen.FMTS))
        kind = draw(st.sampled_from(['grid', 'line', 'zero']))
        traces = []
        seed = draw(st.integers(1, 1000))
        ragged = draw(st.booleans())
        for k in range(n):
            at = (k, k // 16, k % 16) if kind == 'grid' else (k * 3, 0, 0) if kind == 'line' else (0, 0, 0)
            traces.append(dict(at=at, fill=seed + k % 5, h={},
                               s=('pattern', (seed + k * 7) % 5 if ragged else 3, seed + k)))
        return dict(fmt=fmt, endian=draw(st.sampled_from('<>')), enc=draw(st.sampled_from(gen.ENCODINGS)), thf='rev1',
                    text=['MANY'], declared=0, ext=[], brh_fill=seed, brh={}, traces=traces, wkind='memory',
                    rkind='memory', container='list', own=None, encarg='explicit')
    return strat()


def long_cases():
    """Traces of up to the greatest length a header can declare."""
    @st.composite
    def strat(draw):
        fmt = draw(st.sampled_from(['int8', 'int16', 'int32', 'float32', 'int16', 'ibm']))
        lengths = draw(st.lists(st.sampled_from([0, 1, 8191, 8192, 16384, 32766, 32767]), min_size=1, max_size=3))
        traces = [dict(at=(k, 1, k), fill=k, h={}, s=('pattern', n, draw(st.integers(0, 5000))))
                  for k, n in enumerate(lengths)]
        return dict(fmt=fmt, endian=draw(st.sampled_from('<>')), enc='ascii', thf='rev1', text=['LONG'], declared=0,
                    ext=[], brh_fill=0, brh={}, traces=traces, wkind='memory', rkind='memory', container='list', own=None,
                    encarg='explicit')
    return strat()


PROPS = [
    Prop('roundtrip', roundtrip, cases, quick=450, shards=7),
    Prop('many_traces', roundtrip, many_cases, quick=40, shards=1),
    Prop('long_traces', roundtrip, long_cases, quick=12, shards=1),
]
