"""C28: delegating datasets."""
import io

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq
from vf.fieldtables import BINARY_FIELDS

PROPERTY = 'C28'
RULE = ("Source datasets (in memory, or readers of 1D, 2D and 3D files) under a stack of up to five delegating datasets "
        "whose classes override none or some of: samples, trace headers, textual header, binary header, sample format, extended headers, "
        "encoding, byte order, dimensionality, the order in which traces are visited, and the choice of traces. Everything reported and the file "
        "written is compared with what the overrides, applied to the model, mean. Non-trivial: at least one trace and "
        "at least two layers or one override.")
ASSUMPTIONS = ["Overridden trace headers keep the number of samples true.",
               "The byte order of the written file is passed explicitly."]

OVERRIDES = ['samples', 'header', 'format', 'text', 'brh', 'ext', 'encoding', 'endian', 'dimensionality', 'select', 'order', 'order', 'nothing',
             'nothing', 'plain', 'plain']


@st.composite
def cases(draw):
    case = draw(gen.datasets(max_traces=6, thfs=('rev1', 'rev1', 'ext', 'compact', 'rev0', 'shuffled')))
    layers = []
    n = len(case['traces'])
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(OVERRIDES))
        layer = dict(kind=kind)
        if kind == 'samples':
            layer['how'] = draw(st.sampled_from(['reverse', 'negate', 'one trace', 'zero']))
            layer['trace'] = draw(st.integers(0, 5))
        elif kind == 'header':
            layer['trace'] = draw(st.one_of(st.none(), st.integers(0, 5)))
            layer['cdp'] = draw(st.integers(-2**31, 2**31 - 1))
        elif kind in ('text', 'ext'):
            layer['line'] = draw(st.text(st.sampled_from('ABC 123'), min_size=1, max_size=20))
        elif kind == 'format':
            layer['fmt'] = draw(st.sampled_from(gen.FMTS))
        elif kind == 'brh':
            layer['interval'] = draw(st.integers(-2**15, 2**15 - 1))
        elif kind == 'encoding':
            layer['enc'] = draw(st.sampled_from(['ascii', 'cp037']))
        elif kind == 'endian':
            layer['endian'] = draw(st.sampled_from('><'))
        elif kind == 'dimensionality':
            layer['dim'] = draw(st.integers(0, 3))
        elif kind == 'select':
            layer['order'] = draw(st.permutations(range(n)))[:draw(st.integers(0, n))] if n else []
            n = len(layer['order'])
        elif kind == 'order':
            layer['order'] = draw(st.one_of(st.permutations(range(n)),
                                            st.lists(st.integers(0, n - 1), max_size=6) if n else st.just([])))
            layer['iterator'] = draw(st.booleans())
        layers.append(layer)
    return dict(case=case, layers=layers, source=draw(st.sampled_from(['memory', 'reader', 'reader'])),
                wendian=draw(st.sampled_from('><')), pieces=draw(st.lists(st.tuples(BOUND, BOUND), max_size=2)),
                odd=draw(st.lists(st.tuples(ODD, ODD), max_size=2)),
                indexes=draw(st.lists(st.integers(-2, 7), min_size=1, max_size=2)))


ODD = st.one_of(st.none(), st.integers(-3, 8), st.sampled_from([-1, 10**6, 2**40, -10**6]))
BOUND = st.one_of(st.none(), st.integers(0, 9), st.integers(0, 4100))


def ascii_only(text):
    return ''.join(c if ord(c) < 128 else '?' for c in text)


def run(case, cov):
    from segpy.dataset import DelegatingDataset
    from segpy.reader import create_reader
    from segpy.writer import write_segy
    c = case['case']
    # text must stay encodable whatever the layers choose
    c = dict(c, text=[ascii_only(t) for t in c['text']], ext=[[ascii_only(t) for t in p] for p in c['ext']])
    model = gen.Model(c)
    table, format_class, fmt = model.table, model.format_class, model.fmt
    cov.label('source ' + case['source'])
    data = model.encoded()
    source_fh = io.BytesIO(data)
    if case['source'] == 'reader':
        source = create_reader(source_fh, encoding=c['enc'], endian=c['endian'], trace_header_format=format_class,
                               cache_directory=None)
        dims = source.dimensionality
    else:
        source = model.dataset()
        source.endian = c['endian']
        type(source).dimensionality = property(lambda self: 2)
        dims = 2
    if case['source'] == 'reader':
        values = [gen.stored_values(s, fmt) for s in model.samples]
    else:
        values = [list(s) for s in model.samples]
    want = dict(text=list(model.text), brh=dict(model.brh), ext=[list(p) for p in model.ext],
                headers=[dict(h) for h in model.headers], samples=[list(v) for v in values],
                enc=c['enc'], endian=c['endian'], dim=dims, fmt=fmt, order=list(range(len(model.headers))), num=len(model.headers))
    before = snapshot(source, table, fmt)

    dataset = source
    for depth, layer in enumerate(case['layers']):
        cov.label(layer['kind'])
        cls, want = override(DelegatingDataset, layer, want, format_class, table)
        parent, dataset = dataset, cls(dataset)
        check(dataset.source is parent, 'source')
    cov.label('depth %d' % len(case['layers']))
    cov.nontrivial(model.headers and (len(case['layers']) > 1 or case['layers'][0]['kind'] not in ('nothing', 'plain')))

    # everything reported
    source_fmt, fmt = fmt, want['fmt']
    n = len(want['headers'])
    check_eq(list(dataset.textual_reel_header), want['text'], 'text')
    check_eq(gen.header_dict(dataset.binary_reel_header, BINARY_FIELDS), want['brh'], 'binary header')
    check_eq([list(p) for p in dataset.extended_textual_header], want['ext'], 'extended headers')
    check_eq(dataset.num_traces(), want['num'], 'number of traces')
    check_eq(list(dataset.trace_indexes()), want['order'], 'trace indexes')
    check_eq(dataset.encoding, want['enc'], 'encoding')
    check_eq(dataset.endian, want['endian'], 'endian')
    check_eq(dataset.dimensionality, want['dim'], 'dimensionality')
    check_eq(dataset.data_sample_format, fmt, 'format')
    check_eq(dataset.data_sample_format_description, ref.DESCRIPTIONS[fmt], 'description')
    for layer_dataset in layers_of(dataset, source):
        code = int(layer_dataset.binary_reel_header.data_sample_format)
        check_eq(layer_dataset.data_sample_format, ref.CODE_FORMATS[code], 'format of a layer')
    for i in range(n):
        check_eq(gen.header_dict(dataset.trace_header(i), table), want['headers'][i], 'header %d' % i)
        for start, stop in [(None, None)] + case['pieces']:
            stop = None if start is not None and stop is not None and stop < start else stop
            length = len(want['samples'][i])
            if max(start or 0, stop or 0) > length:
                continue
            got = dataset.trace_samples(i, start, stop) if i % 2 else dataset.trace_samples(i, start=start, stop=stop)
            check_eq(ref.comparable(got, fmt), ref.comparable(want['samples'][i][start:stop], fmt),
                     'samples %s:%s of %d' % (start, stop, i))
        if i == 0:
            check_eq(ref.comparable(dataset.trace_samples(i), fmt), ref.comparable(want['samples'][i], fmt), 'samples')

    # what the source refuses is refused, in the same way
    for plain in (DelegatingDataset(source), DelegatingDataset(DelegatingDataset(source))):
        for i in case['indexes']:
            for start, stop in [(None, None), (0, 1)] + case['pieces'] + case['odd']:
                got, wanted = [gen.outcome(lambda: ref.comparable(d.trace_samples(i, start, stop), source_fmt))
                               for d in (plain, source)]
                check_eq(got, wanted, 'samples %s:%s of %s' % (start, stop, i))
                cov.label('as the source: ' + wanted[0])
            got, wanted = [gen.outcome(lambda: gen.header_report(d.trace_header(i))) for d in (plain, source)]
            check_eq(got, wanted, 'header of %s' % i)

    # the file written
    fh = io.BytesIO()
    write_segy(fh, dataset, trace_header_format=format_class, endian=case['wendian'])
    written = ref.encode_file(want['text'], want['brh'], want['ext'], [(want['headers'][i], want['samples'][i]) for i in want['order']], fmt,
                              case['wendian'], want['enc'], table)
    check(fh.getvalue() == written, 'the file written differs at byte',
          next((k for k, (a, b) in enumerate(zip(fh.getvalue(), written)) if a != b), min(len(written), len(fh.getvalue()))))
    # the source is untouched
    check_eq(snapshot(source, table, source_fmt), before, 'source afterwards')
    check(source_fh.getvalue() == data, 'file of the source')


def layers_of(dataset, source):
    while dataset is not source:
        yield dataset
        dataset = dataset.source
    yield source


def snapshot(source, table, fmt):
    return (list(source.textual_reel_header), gen.header_dict(source.binary_reel_header, BINARY_FIELDS),
            [list(p) for p in source.extended_textual_header],
            [gen.header_dict(source.trace_header(i), table) for i in range(source.num_traces())],
            [ref.comparable(source.trace_samples(i), fmt) for i in range(source.num_traces())],
            source.encoding, source.endian, source.dimensionality)


def override(base, layer, want, format_class, table):
    """A subclass of DelegatingDataset with the layer's override, and what datasets made of it report."""
    want = dict(want)
    kind = layer['kind']
    if kind == 'nothing':
        return base, want

    class Transformed(base):
        pass

    if kind == 'samples':
        def trace_samples(self, trace_index, start=None, stop=None):
            values = list(self.source.trace_samples(trace_index))
            return transform(values, layer['how'], trace_index == layer['trace'])[start:stop]
        Transformed.trace_samples = trace_samples
        want['samples'] = [transform(v, layer['how'], i == layer['trace']) for i, v in enumerate(want['samples'])]
    elif kind == 'format':
        # other samples in another format
        from segpy.binary_reel_header import BinaryReelHeader
        code = ref.FORMAT_CODES[layer['fmt']]

        def brh(self):
            return BinaryReelHeader(**dict(gen.header_dict(self.source.binary_reel_header, BINARY_FIELDS),
                                           data_sample_format=code))
        Transformed.binary_reel_header = property(brh)
        Transformed.trace_samples = (lambda self, trace_index, start=None, stop=None:
                                     ramp(len(self.source.trace_samples(trace_index)))[start:stop])
        want.update(brh=dict(want['brh'], data_sample_format=code), fmt=layer['fmt'],
                    samples=[ramp(len(v)) for v in want['samples']])
    elif kind == 'header':
        def trace_header(self, trace_index):
            header = self.source.trace_header(trace_index)
            if layer['trace'] is not None and trace_index != layer['trace']:
                return header
            return format_class(**renumbered(gen.header_dict(header, table), layer['cdp']))
        Transformed.trace_header = trace_header
        want['headers'] = [renumbered(h, layer['cdp']) if layer['trace'] in (None, i) else h
                           for i, h in enumerate(want['headers'])]
    elif kind == 'text':
        lines = [layer['line'].ljust(80)] + want['text'][1:]
        Transformed.textual_reel_header = property(lambda self: [layer['line'].ljust(80)] +
                                                   list(self.source.textual_reel_header)[1:])
        want['text'] = lines
    elif kind == 'ext':
        if want['ext']:
            first = layer['line'].ljust(78) + '\r\n'

            def pages(self):
                out = [list(p) for p in self.source.extended_textual_header]
                out[0][-1] = first
                return out
            Transformed.extended_textual_header = property(pages)
            want['ext'] = [want['ext'][0][:-1] + [first]] + want['ext'][1:]
    elif kind == 'brh':
        from segpy.binary_reel_header import BinaryReelHeader

        def brh(self):
            values = gen.header_dict(self.source.binary_reel_header, BINARY_FIELDS)
            values['sample_interval'] = layer['interval'] % 2**15
            return BinaryReelHeader(**values)
        Transformed.binary_reel_header = property(brh)
        want['brh'] = dict(want['brh'], sample_interval=layer['interval'] % 2**15)
    elif kind == 'encoding':
        Transformed.encoding = property(lambda self: layer['enc'])
        want['enc'] = layer['enc']
    elif kind == 'endian':
        Transformed.endian = property(lambda self: layer['endian'])
        want['endian'] = layer['endian']
    elif kind == 'dimensionality':
        Transformed.dimensionality = property(lambda self: layer['dim'])
        want['dim'] = layer['dim']
    elif kind == 'select':
        order = layer['order']
        Transformed.num_traces = lambda self: len(order)
        Transformed.trace_indexes = lambda self: range(len(order))
        Transformed.trace_header = lambda self, trace_index: self.source.trace_header(order[trace_index])
        Transformed.trace_samples = (lambda self, trace_index, start=None, stop=None:
                                     self.source.trace_samples(order[trace_index], start, stop))
        want['order'] = list(range(len(order)))
        want['num'] = len(order)
        want['headers'] = [want['headers'][k] for k in order]
        want['samples'] = [want['samples'][k] for k in order]
    elif kind == 'order':
        # the same traces, visited in another order, or some of them more than once
        Transformed.num_traces = lambda self: len(layer['order'])
        want['num'] = len(layer['order'])
        Transformed.trace_indexes = lambda self: (iter if layer['iterator'] else list)(layer['order'])
        want['order'] = list(layer['order'])
    return Transformed, want


def renumbered(values, cdp):
    values = dict(values, ensemble_num=cdp)
    if 'cdp_num' in values:
        values['cdp_num'] = cdp
    return values


def ramp(n):
    return [(k * 7 + n) % 100 for k in range(n)]


def transform(values, how, mine):
    if how == 'reverse':
        return values[::-1]
    if how == 'zero':
        return [0] * len(values)
    if how == 'one trace':
        return [1] * len(values) if mine else values
    return [v if k % 2 else values[0] for k, v in enumerate(values)]


PROPS = [Prop('delegating', run, cases, quick=350, shards=6)]
