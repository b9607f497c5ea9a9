"""C02: write_segy produces the standard byte layout."""
import io
import os

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Violation, check, scratch_dir, rmtree
from vf.checks import c01

PROPERTY = 'C02'
RULE = ("A case is a dataset with sample format, byte order, encoding and trace header format; the bytes written are "
        "compared with those of an independent encoder working from a frozen table of byte positions. Non-trivial: at "
        "least one trace with at least one sample and some header field differing from its default.")
ASSUMPTIONS = ["The positions, sizes and ranges of the standard fields are those in vf/fieldtables.py, reviewed by hand "
               "against the SEG-Y revision 1 layout."]


@st.composite
def cases(draw):
    case = draw(gen.datasets(max_traces=5, thfs=gen.THFS,
                             brhfs=('std', 'std', 'std', 'ext', 'wide', 'compact', 'short')))
    case['wkind'] = draw(st.sampled_from(['memory', 'memory', 'disk', 'raw']))
    case['container'] = draw(st.sampled_from(['list', 'tuple', 'native']))
    case['encarg'] = draw(st.sampled_from(['explicit', 'dataset', 'both']))
    case['defaults'] = draw(st.booleans())
    return case


def where(pos, model):
    if pos < 3200:
        return 'textual header byte %d' % pos
    if pos < 3600:
        return 'binary header byte %d' % (pos + 1)
    pos -= 3600
    for i, page in enumerate(model.ext):
        if pos < 3200:
            return 'extended header %d byte %d' % (i, pos)
        pos -= 3200
    from vf import refsegy as ref
    for i, s in enumerate(model.samples):
        if pos < 240:
            return 'trace %d header byte %d' % (i, pos + 1)
        pos -= 240
        n = len(s) * ref.SAMPLE_SIZES[model.fmt]
        if pos < n:
            return 'trace %d sample %d' % (i, pos // ref.SAMPLE_SIZES[model.fmt])
        pos -= n
    return 'beyond the end'


def compare(data, want, model):
    if data != want:
        n = next((k for k in range(min(len(data), len(want))) if data[k] != want[k]), min(len(data), len(want)))
        raise Violation('written bytes differ at %d (%s): %r..., expected %r...; lengths %d and %d' % (
            n, where(n, model), data[n:n + 8], want[n:n + 8], len(data), len(want)))


def write(model, case, directory):
    from segpy.writer import write_segy
    dataset = model.dataset(with_encoding=case['encarg'] != 'explicit')
    plain = dataset.trace_samples
    dataset.trace_samples = lambda i, start=None, stop=None: c01.contain(plain(i, start, stop), case['fmt'],
                                                                        case['container'])
    kwargs = {}
    if case['encarg'] == 'both':
        # the explicit argument has precedence over the dataset's own encoding
        dataset.encoding = 'ascii' if case['enc'] == 'cp037' else 'cp037'
    if case['encarg'] != 'dataset' and not (case['defaults'] and case['encarg'] == 'explicit'
                                            and case['enc'] == 'ascii'):
        kwargs['encoding'] = case['enc']
    if not (case['defaults'] and case['endian'] == '>'):
        kwargs['endian'] = case['endian']
    if not (case['defaults'] and case['thf'] == 'rev1'):
        kwargs['trace_header_format'] = model.format_class
    if case['wkind'] == 'memory':
        fh = io.BytesIO()
        write_segy(fh, dataset, **kwargs)
        return fh.getvalue()
    path = os.path.join(directory, 'w.sgy')
    with open(path, 'wb', buffering=0 if case['wkind'] == 'raw' else -1) as fh:
        write_segy(fh, dataset, **kwargs)
    with open(path, 'rb') as fh:
        return fh.read()


def layout(case, cov):
    c01.labels(case, cov)
    model = gen.Model(case)
    directory = scratch_dir() if case['wkind'] != 'memory' else None
    try:
        data = write(model, case, directory)
    finally:
        if directory:
            rmtree(directory)
    compare(data, model.encoded(), model)


def field_cases(tier, shard, nshards):
    """Every field of every header x its notable values x byte order: enumerated."""
    from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV1
    for kind, table in (('binary', BINARY_FIELDS), ('trace', TRACE_FIELDS_REV1)):
        for row in table:
            name, pos, size, lo, hi, enum, default = row
            if kind == 'binary' and name in gen.BRH_STRUCTURAL:
                continue
            values = enum or sorted({v for v in (lo, hi, -1, 0, 1, 0x0102, 0x01020304, default, 255, 256)
                                     if lo <= v <= hi})
            for v in values:
                for endian in '<>':
                    yield dict(kind=kind, name=name, value=v, endian=endian)


def one_field(case, cov):
    """A single field at a single value, all others at their defaults."""
    at, h, brh = (0, 0, 0), {}, {}
    n = 1
    if case['kind'] == 'binary':
        brh = {case['name']: case['value']}
    else:
        h = {case['name']: case['value']}
    ds = dict(fmt='int8', endian=case['endian'], enc='ascii', thf='rev1', text=['X'], declared=0, ext=[], brh_fill=0,
              brh=brh, traces=[dict(at=at, fill=0, h=h, s=[1])])
    model = gen.Model(ds)
    if h:
        model.headers[0][case['name']] = case['value']      # structural fields, too
    cov.nontrivial(True)
    from segpy.writer import write_segy
    fh = io.BytesIO()
    write_segy(fh, model.dataset(), endian=case['endian'])
    compare(fh.getvalue(), model.encoded(), model)


PROPS = [
    Prop('layout', layout, cases, quick=450, shards=7),
    Prop('many_traces', lambda case, cov: layout(dict(case, defaults=False), cov), c01.many_cases, quick=40, shards=1),
    Prop('long_traces', lambda case, cov: layout(dict(case, defaults=False), cov), c01.long_cases, quick=12, shards=1),
    Prop('each_field', one_field, cases=field_cases),
]
