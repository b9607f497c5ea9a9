"""C31: header fields extracted as NumPy arrays."""
import io

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises
from vf.checks import c30

PROPERTY = 'C31'
RULE = ("Surveys with values in all header fields (four trace header formats), any non-empty series of distinct fields by "
        "name or field object in any order, and series of trace indexes (any order, repetitions, ranges, iterators) or "
        "selections of lines as in C30. Oracle: the model's headers. Non-trivial: at least two traces and two fields. "
        "Also virtual surveys of realistic size.")
ASSUMPTIONS = ["Slices have positive steps.", "Null values are representable in all the element types."]

FORMATS = ('rev1', 'rev1', 'rev1', 'ext', 'compact', 'shuffled')


class Named:
    """Any object with the name of a field."""

    def __init__(self, name):
        self.name = name


@st.composite
def field_picks(draw):
    kind = draw(st.sampled_from(['some', 'some', 'some', 'one', 'all', 'reversed', 'index', 'unknown']))
    return dict(kind=kind, picks=draw(st.lists(st.integers(0, 200), min_size=1, max_size=6)),
                styles=draw(st.integers(0, 3)), given=draw(st.sampled_from(['list', 'tuple', 'iterator'])))


def choose(f, model):
    """(fields argument maker, names, whether all of them exist)"""
    names = [row[0] for row in model.table]
    if f['kind'] == 'all':
        chosen = list(names)
    elif f['kind'] == 'reversed':
        chosen = names[::-1]
    elif f['kind'] == 'index':
        chosen = [n for n in ('crossline_number', 'inline_number', 'num_samples', 'ensemble_num') if n in names]
    else:
        chosen = list(dict.fromkeys(names[k % len(names)] for k in f['picks']))
        if f['kind'] == 'one':
            chosen = chosen[:1]
    known = f['kind'] != 'unknown'
    if not known:
        bad = ['no_such_field', 'LENGTH_IN_BYTES', 'num_sample', 'inline'][f['picks'][0] % 4]
        chosen.insert(f['picks'][-1] % (len(chosen) + 1), bad)

    def argument():
        out = []
        for k, name in enumerate(chosen):
            style = (k + f['styles']) % 4
            if style == 0 and hasattr(model.format_class, name) and known:
                out.append(getattr(model.format_class, name))
            elif style == 1:
                out.append(Named(name))
            else:
                out.append(name)
        return iter(out) if f['given'] == 'iterator' else tuple(out) if f['given'] == 'tuple' else out
    return argument, chosen, known


SIZES = {1: 'i1', 2: 'i2', 4: 'i4'}


def check_arrays(got, names, model, shape, values, null, what):
    """values: {position: header dict}"""
    import numpy as np
    check(isinstance(got, tuple), what, ': not a tuple', type(got))
    check_eq(len(got), len(names), what + ': number of arrays')
    check_eq(list(got._fields), names, what + ': field names')
    sizes = {row[0]: row[2] for row in model.table}
    for name, array in zip(names, got):
        check(array is getattr(got, name), what, ': attribute', name)
        check(isinstance(array, np.ndarray), what, ': not an array')
        check_eq(tuple(array.shape), shape, '%s: shape of %s' % (what, name))
        check_eq(array.dtype, np.dtype(SIZES[sizes[name]]), '%s: element type of %s' % (what, name))
        mask = np.ma.getmaskarray(array)
        if null == 'trace':
            check(not mask.any(), what, ': masked elements')
        elif null is None:
            check(isinstance(array, np.ma.MaskedArray), what, ': not a masked array')
        else:
            check(not isinstance(array, np.ma.MaskedArray), what, ': masked array in spite of a null value')
        data = np.asarray(array)
        for pos in np.ndindex(*shape):
            if pos in values:
                check(not mask[pos], what, ':', name, 'masked at', pos)
                check_eq(int(data[pos]), values[pos][name], '%s: %s at %s' % (what, name, pos))
            elif null is None:
                check(bool(mask[pos]), what, ':', name, 'not masked at', pos, 'where there is no trace')
            else:
                check_eq(int(data[pos]), null, '%s: null of %s at %s' % (what, name, pos))


def make_reader(model, dim=None):
    from segpy.reader import create_reader
    c = model.case
    return create_reader(io.BytesIO(model.encoded()), encoding=c['enc'], endian=c['endian'],
                         trace_header_format=model.format_class, cache_directory=None, dimensionality=dim)


@gen.cached
@st.composite
def line_picks(draw):
    return dict(fields=draw(field_picks()), indexes=draw(st.lists(st.integers(0, 1000), max_size=8)),
                how=draw(st.sampled_from(['none', 'none', 'list', 'tuple', 'iterator', 'range', 'reversed', 'set', 'outside',
                                          'lookup'])))


@st.composite
def series_cases(draw):
    if draw(st.booleans()):
        case = draw(c30.grid_datasets(FORMATS, True))
    else:
        case = draw(gen.datasets(max_traces=6, max_pages=1, thfs=FORMATS + ('rev0',), long=False, max_short=3))
    return dict(case=case, dim=draw(st.sampled_from([None, None, 1])), picks=draw(st.lists(line_picks(), min_size=1, max_size=3)))


def series(case, cov):
    import segpy_numpy.extract as sn
    model = gen.Model(case['case'])
    reader = make_reader(model, case['dim'])
    n = len(model.headers)
    for p in case['picks']:
        argument, names, known = choose(p['fields'], model)
        cov.nontrivial(n > 1 and len(names) > 1)
        how = p['how']
        cov.label('by ' + how)
        kwargs = {}
        picked = [k % n for k in p['indexes']] if n else []
        if how in ('none', 'lookup'):
            picked = list(range(n))
            if how == 'lookup':
                kwargs['trace_indexes'] = reader.trace_indexes()
        elif how == 'outside':
            kwargs['trace_indexes'] = picked + [[n, -1, n + 5, -n - 1][len(picked) % 4]]
            picked = None
        elif how == 'range':
            picked = range(len(picked) % (n + 1), n, 1 + len(picked) % 3)
            kwargs['trace_indexes'] = picked
        elif how == 'reversed':
            picked = list(range(n))[::-1]
            kwargs['trace_indexes'] = reversed(range(n))
        elif how == 'iterator':
            kwargs['trace_indexes'] = iter(list(picked))
        elif how == 'set':
            s = set(picked)
            picked = list(s)
            kwargs['trace_indexes'] = s
        else:
            kwargs['trace_indexes'] = {'list': list, 'tuple': tuple}[how](picked)

        def call():
            return sn.extract_trace_headers(reader, argument(), **kwargs)
        if not known:
            raises(AttributeError, call, 'unknown field among', names)
            continue
        if picked is None:
            raises(ValueError, call, 'trace indexes', kwargs['trace_indexes'], 'of', n)
            continue
        check_arrays(call(), names, model, (len(picked),), {(a,): model.headers[k] for a, k in enumerate(picked)}, 'trace',
                     'headers of %r' % (list(picked),))


@gen.cached
@st.composite
def grid_picks(draw):
    return dict(fields=draw(field_picks()), a=draw(c30.selectors()), b=draw(c30.selectors()),
                null=draw(st.sampled_from([None, None, 0, -1, 1, 32767, -32768])), keywords=draw(st.booleans()))


@st.composite
def grid_cases(draw):
    return dict(case=draw(c30.grid_datasets(FORMATS, True)), picks=draw(st.lists(grid_picks(), min_size=1, max_size=3)))


def grids(case, cov):
    import segpy_numpy.extract as sn
    model = gen.Model(case['case'])
    reader = make_reader(model)
    headers = {(h['inline_number'], h['crossline_number']): h for h in model.headers}
    ii, jj = sorted({i for i, j in headers}), sorted({j for i, j in headers})
    cov.label('complete' if len(ii) * len(jj) == len(headers) else 'incomplete')
    for p in case['picks']:
        argument, names, known = choose(p['fields'], model)
        cov.nontrivial(len(headers) > 1 and len(names) > 1)
        arg_i, lines_i = c30.select(p['a'], ii, cov)
        arg_j, lines_j = c30.select(p['b'], jj, cov)
        null = p['null']

        def call():
            kwargs = {} if null is None else dict(null=null)
            if p['keywords']:
                return sn.extract_trace_header_field_3d(reader, argument(), inline_numbers=arg_i, xline_numbers=arg_j,
                                                        **kwargs)
            return sn.extract_trace_header_field_3d(reader, argument(), arg_i, arg_j, **kwargs)
        if not known and lines_i is not None and lines_j is not None:
            raises(AttributeError, call, 'unknown field among', names)
            continue
        if lines_i is None or lines_j is None:
            raises(ValueError if known else (ValueError, AttributeError), call, 'lines', arg_i, arg_j)
            continue
        values = {(a, b): headers[i, j] for a, i in enumerate(lines_i) for b, j in enumerate(lines_j) if (i, j) in headers}
        check_arrays(call(), names, model, (len(lines_i), len(lines_j)), values, null, 'headers of %s, %s' % (lines_i, lines_j))


def bad_cases(tier, shard, nshards):
    for k in range(6):
        yield k


def bad_fields(case, cov):
    """Things which do not name fields at all."""
    import segpy_numpy.extract as sn
    reader = gen.survey_reader([(0, i, j) for i in (1, 2) for j in (1, 2)], lengths=[1] * 4)
    cov.nontrivial()
    bad = [3, None, 2.5, ('inline_number',), object(), b'inline_number'][case]
    for fn in (sn.extract_trace_headers, sn.extract_trace_header_field_3d):
        raises((TypeError, AttributeError), lambda: fn(reader, ['cdp_x', bad]), 'field', bad)
        got = fn(reader, ['cdp_x'])
        check_eq(got.cdp_x.size, 4, 'afterwards')


LARGE = {
    'long lines': (2, 35000, '>', 'inline', 11),
    'many inlines': (1100, 20, '<', 'xline', 0),
    'square': (150, 160, '>', 'mixed', 7),
}


def large_cases(tier, shard, nshards):
    k = 0
    for name in LARGE:
        for what in ('series', 'grid'):
            k += 1
            if k % nshards == shard:
                yield name, what


def large(case, cov):
    """Header fields of tens of thousands of traces."""
    import numpy as np
    import segpy_numpy.extract as sn
    name, what = case
    cov.nontrivial()
    cov.label(name)
    ni, nj, endian, order, gaps = LARGE[name]
    survey, index = gen.large_grid(ni, nj, [0, 1, 2], 'int8', endian, order, gaps)
    reader = gen.virtual_reader(survey, dimensionality=3)
    fields = ['line_sequence_num', 'crossline_number', 'num_samples', 'inline_number']
    types = dict(zip(fields, ('i4', 'i4', 'i2', 'i4')))
    rows = [survey.fields(k) for k in range(survey.n)]
    columns = {f: np.array([r[f] for r in rows], dtype=types[f]) for f in fields}
    if what == 'series':
        for kwargs, picked in (({}, slice(None)), (dict(trace_indexes=range(1, survey.n, 3)), slice(1, None, 3)),
                               (dict(trace_indexes=iter([survey.n - 1, 0, 0])), [survey.n - 1, 0, 0])):
            got = sn.extract_trace_headers(reader, fields, **kwargs)
            check_eq(got._fields, tuple(fields), 'fields')
            for f in fields:
                array = getattr(got, f)
                check_eq(array.dtype, np.dtype(types[f]), 'type of', f)
                check(np.array_equal(array, columns[f][picked]), 'values are wrong', f, kwargs)
        return
    ii, jj = sorted({i for i, j in index}), sorted({j for i, j in index})
    for kwargs, a, b in (({}, ii, jj), (dict(inline_numbers=slice(-3, None), null=-1), ii[-3:], jj),
                         (dict(xline_numbers=[jj[-1], jj[0]]), ii, [jj[0], jj[-1]])):
        got = sn.extract_trace_header_field_3d(reader, fields, **kwargs)
        where = np.array([[index.get((i, j), -1) for j in b] for i in a])
        for f in fields:
            array = getattr(got, f)
            check_eq(array.shape, (len(a), len(b)), 'shape of', f)
            check_eq(array.dtype, np.dtype(types[f]), 'type of', f)
            if 'null' in kwargs:
                check(np.array_equal(array, np.where(where < 0, -1, columns[f][where])), 'values are wrong', f)
            else:
                check(np.array_equal(np.ma.getmaskarray(array), where < 0), 'the mask is wrong', f)
                check(np.array_equal(array.filled(0), np.where(where < 0, 0, columns[f][where])), 'values are wrong', f)


PROPS = [
    Prop('large', large, cases=large_cases, shards=6),
    Prop('series', series, series_cases, quick=250, shards=4),
    Prop('grids', grids, grid_cases, quick=300, shards=4),
    Prop('not_fields', bad_fields, cases=bad_cases),
]
