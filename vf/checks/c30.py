"""C30: samples extracted as NumPy arrays."""
import io

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises

PROPERTY = 'C30'
RULE = ("3D surveys (complete, incomplete, irregular, in any storage order, traces of any lengths, all sample formats and "
        "byte orders) with selections of lines and samples given as nothing, list, tuple, set, range (also descending), "
        "iterator or slice, with or without a null value; traces also of other surveys. Several extractions in random "
        "order from each reader. Oracle: dictionaries of the model's samples. Non-trivial: at least two lines of each "
        "kind and a trace with two samples. Also virtual surveys of realistic size, and the selection checking functions with "
        "collections of any kind.")
ASSUMPTIONS = ["Slices have positive steps.",
               "IBM numbers are rounded to the four-byte IEEE format; of zeros only the value counts.",
               "A time slice past the end of every trace may be entirely masked or refused.",
               "Null values are representable in the element type."]

DTYPES = {'ibm': 'f4', 'float32': 'f4', 'int32': 'i4', 'int16': 'i2', 'int8': 'i1'}

_BOUND = gen.weighted((2, st.none()), (5, st.integers(-7, 7)), (1, st.integers(-4000, 4000)))


@gen.cached
@st.composite
def selectors(draw):
    """How a selection is made; applied to the list of all numbers by select()."""
    kind = draw(st.sampled_from(['none', 'none', 'list', 'tuple', 'set', 'range', 'descending', 'slice', 'slice', 'iterator',
                                 'one', 'empty', 'all', 'outside', 'frozenset', 'numpy', 'ends']))
    if kind == 'slice':
        return kind, draw(_BOUND), draw(_BOUND), draw(st.sampled_from([None, None, 1, 2, 3]))
    if kind in ('list', 'tuple', 'set', 'iterator', 'frozenset', 'numpy', 'ends'):
        return kind, draw(st.lists(st.integers(0, 10**4), max_size=5)), 0, 0
    if kind in ('range', 'descending'):
        return kind, draw(st.integers(0, 30)), draw(st.integers(0, 12)), draw(st.integers(1, 4))
    if kind == 'outside':
        return kind, draw(st.integers(0, 5)), draw(st.sampled_from([-1, 1, 10**6, 0])), \
            draw(st.sampled_from(['list', 'range', 'set']))
    return kind, draw(st.integers(0, 10**4)), 0, 0


def select(selector, numbers, cov):
    """(argument, selected numbers or None if the selection is not within the survey)"""
    kind, a, b, c = selector
    n = len(numbers)
    cov.label('by ' + kind)
    if kind == 'none':
        return None, list(numbers)
    if kind == 'slice':
        return slice(a, b, c), list(numbers)[slice(a, b, c)]
    if kind == 'all':
        return list(numbers), list(numbers)
    if kind == 'empty' or n == 0:
        return [[], (), range(0), set()][a % 4 if kind == 'empty' else 0], []
    if kind == 'one':
        v = numbers[a % n]
        return [[v], (v,), range(v, v + 1), {v}, range(v, v - 1, -1)][a // 7 % 5], [v]
    if kind == 'outside':
        v = numbers[-1] + 1 + b if b >= 0 else numbers[0] - 1
        if b == 0:
            gaps = [x + 1 for x in numbers[:-1] if x + 1 not in numbers]
            v = gaps[a % len(gaps)] if gaps else numbers[0] - 1
        keep = [numbers[k % n] for k in range(a)]
        if c == 'range' and not keep:
            return range(v, v + 1), None
        return ({'list': list, 'range': tuple, 'set': set}[c](keep + [v])), None
    if kind in ('range', 'descending'):
        # along the numbers if these are regular, otherwise whatever it hits
        step = (numbers[1] - numbers[0] if n > 1 else 1) * c
        first = a % n
        count = min(b, (n - 1 - first) // c + 1)
        r = range(numbers[first], numbers[first] + count * step, step)
        wanted = list(r)
        arg = r if kind == 'range' else range(wanted[-1], wanted[0] - 1, -step) if wanted else range(0, 0, -1)
        return arg, wanted if set(wanted) <= set(numbers) else None
    picked = [numbers[k % n] for k in a]
    if kind == 'ends':
        picked = [numbers[-1], numbers[0]]
    if kind == 'iterator':
        return (v for v in picked), sorted(set(picked))
    if kind == 'numpy':
        import numpy as np
        return np.array(picked, dtype='i8'), sorted(set(picked))
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'ends': list}[kind](picked), \
        sorted(set(picked))


NULLS = st.sampled_from([None, None, None, 0, -1, 1, 127, 'nan', 0.5, -100])


@gen.cached
@st.composite
def extractions(draw):
    return dict(what=draw(st.sampled_from(['inline', 'xline', 'timeslice', 'trace', 'inline', 'xline', 'timeslice'])),
                line=draw(st.one_of(st.integers(0, 30), st.just(-1), st.just(-2))) if draw(st.integers(0, 3)) == 0
                else draw(st.integers(0, 30)),
                a=draw(selectors()), b=draw(selectors()), null=draw(NULLS), probe=draw(st.integers(-2, 12)))


@gen.cached
@st.composite
def grid_datasets(draw, thfs=('rev1', 'rev1', 'compact', 'shuffled'), filled=False):
    """Datasets of 3D surveys: mostly of several lines, often incomplete, traces of the same or different lengths."""
    fmt = draw(st.sampled_from(gen.FMTS))
    thf = draw(st.sampled_from(thfs))
    ni, nj = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (4, 2), (1, 3), (3, 1), (1, 1), (4, 4)]))
    ii, jj = draw(gen.axis(ni)), draw(gen.axis(nj))
    pairs = [(i, j) for i in ii for j in jj]
    if draw(st.booleans()) and len(pairs) > 2:
        drop = draw(st.sets(st.integers(0, len(pairs) - 1), min_size=1, max_size=max(1, len(pairs) // 2)))
        pairs = [p for k, p in enumerate(pairs) if k not in drop]
    order = draw(st.sampled_from(['inline', 'xline', 'reversed', 'mixed']))
    if order == 'xline':
        pairs.sort(key=lambda p: p[::-1])
    elif order == 'reversed':
        pairs.reverse()
    elif order == 'mixed':
        pairs = pairs[1::2] + pairs[::2]
    length = draw(st.sampled_from([0, 1, 2, 3, 3, 5, 8, 20, 64]))
    ragged = draw(st.booleans())
    traces = []
    for k, (i, j) in enumerate(pairs):
        n = draw(st.integers(0, length)) if ragged else length
        traces.append(dict(at=(0, i, j), fill=draw(gen.FILL) if filled else 0, h={}, s=('pattern', n, 17 * k)))
    special = draw(st.integers(0, len(traces) - 1))
    if draw(st.booleans()):
        traces[special]['s'] = draw(st.lists(gen.sample_values(fmt), min_size=0 if ragged else length,
                                             max_size=8 if ragged else length)) if length < 9 else traces[special]['s']
    return dict(fmt=fmt, endian=draw(st.sampled_from(gen.ENDIANS)), enc='ascii', thf=thf, text=[], declared=0, ext=[],
                brh_fill=0, brh={}, traces=traces)


@st.composite
def cases(draw):
    return dict(case=draw(grid_datasets()), extractions=draw(st.lists(extractions(), min_size=2, max_size=5)))


def expected_value(v, fmt):
    import numpy as np
    if fmt in ('ibm', 'float32'):
        with np.errstate(all='ignore'):
            return np.float32(float(v))
    return np.dtype(DTYPES[fmt]).type(int(v))


def compare(got, shape, values, fmt, null, what):
    """values: {position: sample} for the positions with data."""
    import numpy as np
    check(isinstance(got, np.ndarray), what, ': not an array', got)
    check_eq(tuple(got.shape), shape, what + ': shape')
    check_eq(got.dtype, np.dtype(DTYPES[fmt]), what + ': element type')
    if null == 'trace':
        mask = np.zeros(shape, bool)
        check(not np.ma.getmaskarray(got).any(), what, ': masked elements')
    elif null is None:
        check(isinstance(got, np.ma.MaskedArray), what, ': not a masked array')
        mask = np.ma.getmaskarray(got)
    else:
        check(not isinstance(got, np.ma.MaskedArray), what, ': masked array in spite of a null value')
        mask = None
    data = np.asarray(got)
    for pos in np.ndindex(*shape):
        if pos in values:
            check(mask is None or not mask[pos], what, ': masked in spite of a sample at', pos)
            same(data[pos], expected_value(values[pos], fmt), fmt, what, pos)
        elif mask is not None:
            check(bool(mask[pos]), what, ': not masked but', data[pos], 'at', pos, 'which has no sample')
        else:
            same(data[pos], np.dtype(DTYPES[fmt]).type(null), fmt, what + ' (null)', pos)


def same(a, b, fmt, what, pos):
    if a != a and b != b:
        return
    if a == b and (fmt != 'float32' or str(a) == str(b)):
        return
    raise Violation('%s: %r at %s, expected %r' % (what, a, pos, b))


def run(case, cov):
    from segpy.reader import SegYReader3D, create_reader
    c = case['case']
    model = gen.Model(c)
    fmt = model.fmt
    reader = create_reader(io.BytesIO(model.encoded()), encoding=c['enc'], endian=c['endian'],
                           trace_header_format=model.format_class, cache_directory=None)
    check(isinstance(reader, SegYReader3D), 'reader is', reader)
    samples = {(h['inline_number'], h['crossline_number']): gen.stored_values(s, fmt)
               for h, s in zip(model.headers, model.samples)}
    ii, jj = sorted({i for i, j in samples}), sorted({j for i, j in samples})
    longest = max(len(s) for s in samples.values())
    cov.nontrivial(len(ii) > 1 and len(jj) > 1 and longest > 1)
    cov.label('complete' if len(ii) * len(jj) == len(samples) else 'incomplete')
    cov.label('ragged' if len({len(s) for s in samples.values()}) > 1 else 'equal lengths')
    for e in case['extractions']:
        cov.label(e['what'])
        extract(reader, model, samples, ii, jj, longest, fmt, e, cov)
    # whole lines, last
    import segpy_numpy.extract as sn
    for k in (0, -1):
        i = ii[k]
        compare(sn.extract_inline_3d(reader, i), (len(jj), longest),
                {(b, s): v for b, j in enumerate(jj) for s, v in enumerate(samples.get((i, j), ()))}, fmt, None, 'inline')


def extract(reader, model, samples, ii, jj, longest, fmt, e, cov):
    import segpy_numpy.extract as sn
    kwargs = {}
    null = e['null']
    if null is not None:
        if fmt in ('ibm', 'float32'):
            null = float(null)
        elif null == 'nan':
            null = -128
        else:
            null = int(null)
        kwargs['null'] = null
    what = e['what']
    if what == 'trace':
        n = len(model.samples)
        index = e['probe']
        if not 0 <= index < n:
            if e['line'] % 2:
                raises(ValueError, lambda: sn.extract_trace(reader, index), 'trace', index, 'of', n)
                return
            index %= n
        values = gen.stored_values(model.samples[index], fmt)
        arg, picked = select(e['a'], range(len(values)), cov)
        if picked is None:
            raises(ValueError, lambda: sn.extract_trace(reader, index, arg), 'samples', arg, 'of', len(values))
            return
        got = sn.extract_trace(reader, index, arg) if e['line'] % 2 else sn.extract_trace(reader, trace_index=index,
                                                                                       sample_numbers=arg)
        compare(got, (len(picked),), {(k,): values[s] for k, s in enumerate(picked)}, fmt, 'trace',
                'samples %r of trace %d' % (e['a'], index))
        return
    if what == 'timeslice':
        number = e['probe'] if e['line'] % 4 == 0 or not longest else e['probe'] % longest
        arg_i, lines_i = select(e['a'], ii, cov)
        arg_j, lines_j = select(e['b'], jj, cov)

        def call():
            return sn.extract_timeslice_3d(reader, number, arg_i, arg_j, **kwargs)
        if lines_i is None or lines_j is None:
            raises(ValueError, call, 'lines', arg_i, arg_j)
            return
        values = {(a, b): samples[i, j][number] for a, i in enumerate(lines_i) for b, j in enumerate(lines_j)
                  if 0 <= number < len(samples.get((i, j), ()))}
        if not 0 <= number < longest:
            try:
                got = call()
            except ValueError:
                return
        else:
            got = call()
        cov.label('timeslice of %s' % ('nothing' if not values else 'samples'))
        compare(got, (len(lines_i), len(lines_j)), values, fmt, null, 'time slice %d' % number)
        return
    mine, other = (ii, jj) if what == 'inline' else (jj, ii)
    line = mine[e['line'] % len(mine)]
    outside = False
    if e['line'] < 0:
        line = mine[-1] + 1 if e['line'] == -1 else mine[0] - 1
        outside = True
    arg_l, lines = select(e['a'], other, cov)
    arg_s, numbers = select(e['b'], range(longest), cov)
    fn = sn.extract_inline_3d if what == 'inline' else sn.extract_xline_3d
    if outside or lines is None or numbers is None:
        raises(ValueError, lambda: fn(reader, line, arg_l, arg_s, **kwargs), what, line, 'lines', arg_l, 'samples', arg_s)
        return
    if e['probe'] % 2:
        got = fn(reader, line, arg_l, arg_s, **kwargs)
    else:
        names = {'inline': 'xline_numbers', 'xline': 'inline_numbers'}
        got = fn(reader, line, **{names[what]: arg_l}, sample_numbers=arg_s, **kwargs)
    values = {}
    for a, l in enumerate(lines):
        trace = samples.get((line, l) if what == 'inline' else (l, line), ())
        for b, s in enumerate(numbers):
            if s < len(trace):
                values[a, b] = trace[s]
    compare(got, (len(lines), len(numbers)), values, fmt, null,
            '%s %d, lines %r, samples %r' % (what, line, e['a'], e['b']))


@st.composite
def plain_cases(draw):
    case = draw(gen.datasets(max_traces=6, max_pages=1, thfs=('rev1', 'rev0', 'compact', 'shuffled'),
                             header_overrides=0, max_short=8))
    return dict(case=case, dim=draw(st.sampled_from([None, 1])),
                picks=draw(st.lists(st.tuples(st.integers(-2, 7), selectors()), min_size=1, max_size=4)))


def traces(case, cov):
    import segpy_numpy.extract as sn
    from segpy.reader import create_reader
    c = case['case']
    model = gen.Model(c)
    reader = create_reader(io.BytesIO(model.encoded()), encoding=c['enc'], endian=c['endian'],
                           trace_header_format=model.format_class, cache_directory=None, dimensionality=case['dim'])
    n = len(model.samples)
    cov.nontrivial(n > 1 and max(map(len, model.samples)) > 1)
    for index, selector in case['picks']:
        if not 0 <= index < n:
            raises(ValueError, lambda: sn.extract_trace(reader, index), 'trace', index, 'of', n)
            continue
        values = gen.stored_values(model.samples[index], model.fmt)
        arg, picked = select(selector, range(len(values)), cov)
        if picked is None:
            raises(ValueError, lambda: sn.extract_trace(reader, index, arg), 'samples', arg, 'of', len(values))
            continue
        compare(sn.extract_trace(reader, index, arg), (len(picked),), {(k,): values[s] for k, s in enumerate(picked)},
                model.fmt, 'trace', 'samples %r of trace %d' % (selector, index))


LARGE = {
    # inlines, crosslines, lengths, format, byte order, storage order, every how manieth position is missing
    'long lines': (2, 34000, [2, 3, 2], 'int16', '>', 'inline', 11),
    'many inlines': (1100, 20, [3], 'float32', '<', 'xline', 0),
    'square': (150, 160, [1, 0, 2], 'int8', '>', 'mixed', 7),
    'long traces': (6, 12, [65535, 60000, 65535], 'int16', '<', 'inline', 13),
    'long IBM traces': (3, 3, [32767], 'ibm', '>', 'inline', 0),
}


def large_cases(tier, shard, nshards):
    k = 0
    for name in LARGE:
        for what in ('inline', 'xline', 'timeslice', 'trace'):
            k += 1
            if k % nshards == shard:
                yield name, what


def large(case, cov):
    """Extractions from surveys of tens of thousands of traces, or of the longest traces."""
    import numpy as np
    import segpy_numpy.extract as sn
    name, what = case
    cov.nontrivial()
    cov.label(name)
    ni, nj, lengths, fmt, endian, order, gaps = LARGE[name]
    survey, index = gen.large_grid(ni, nj, lengths, fmt, endian, order, gaps,
                                   'wide' if max(lengths) > 32767 else 'rev1')
    reader = gen.virtual_reader(survey, dimensionality=3)
    ii, jj = sorted({i for i, j in index}), sorted({j for i, j in index})
    longest = max(lengths)
    ring = np.array(survey.values, dtype=DTYPES[fmt])
    dtype = np.dtype(DTYPES[fmt])

    def expected(keys, numbers):
        """(values, present) of samples `numbers` of the traces at `keys`."""
        numbers = np.asarray(numbers)
        values = np.zeros((len(keys), len(numbers)), dtype=dtype)
        there = np.zeros((len(keys), len(numbers)), dtype=bool)
        for row, key in enumerate(keys):
            k = index.get(key)
            if k is not None:
                there[row] = numbers < lengths[k % len(lengths)]
                values[row] = np.where(there[row], ring[(k * 31 + numbers) % 521], 0)
        return values, there

    def compare(array, values, there, text):
        check_eq(array.shape, values.shape, 'shape of', text)
        check_eq(array.dtype, dtype, 'type of', text)
        check(isinstance(array, np.ma.MaskedArray), 'not a masked array', text)
        check(np.array_equal(~np.ma.getmaskarray(array), there), 'the mask is wrong', text)
        check(np.array_equal(np.where(there, array.filled(0), 0), values), 'values are wrong', text)

    if what in ('inline', 'xline'):
        lines, others = (ii, jj) if what == 'inline' else (jj, ii)
        extract = sn.extract_inline_3d if what == 'inline' else sn.extract_xline_3d
        for line in {lines[0], lines[-1], lines[len(lines) // 2]}:
            keys = [(line, o) if what == 'inline' else (o, line) for o in others]
            values, there = expected(keys, range(longest))
            compare(extract(reader, line), values, there, '%s %d' % (what, line))
            picked = others[::max(1, len(others) // 3)] + others[-1:]
            keys = [(line, o) if what == 'inline' else (o, line) for o in sorted(set(picked))]
            numbers = sorted({0, longest // 2, longest - 1})
            values, there = expected(keys, numbers)
            compare(extract(reader, line, picked, numbers), values, there, 'parts of %s %d' % (what, line))
            got = extract(reader, line, slice(-5, None), slice(-9, None), null=7)
            keys = [(line, o) if what == 'inline' else (o, line) for o in others[-5:]]
            values, there = expected(keys, range(longest)[-9:])
            check(not isinstance(got, np.ma.MaskedArray), 'masked in spite of a null value')
            check(np.array_equal(got, np.where(there, values, 7)), 'last samples of the last traces with a null value')
    elif what == 'timeslice':
        for number in sorted({0, longest - 1, min(1, longest - 1)}):
            values, there = expected([(i, j) for i in ii for j in jj], [number])
            shape = len(ii), len(jj)
            compare(sn.extract_timeslice_3d(reader, number), values.reshape(shape), there.reshape(shape),
                    'time slice %d' % number)
    else:
        for k in gen.virtual_probes(survey)[::5] + [survey.n - 1]:
            n = lengths[k % len(lengths)]
            if not n:
                continue
            got = sn.extract_trace(reader, k)
            check_eq(got.dtype, dtype, 'type of trace', k)
            check(np.array_equal(got, ring[(k * 31 + np.arange(n)) % 521]), 'trace is wrong', k)
            numbers = sorted({0, n - 1, n // 2})
            check(np.array_equal(sn.extract_trace(reader, k, numbers), ring[(k * 31 + np.array(numbers)) % 521]),
                  'samples of a trace are wrong', k, numbers)


@st.composite
def collections(draw):
    """Numbers as ranges (any step) or other collections."""
    if draw(st.integers(0, 2)):
        step = draw(st.sampled_from([1, 1, 2, 3, 4, 6, -1, -2, -3]))
        return 'range', draw(st.integers(-6, 6)), draw(st.integers(0, 7)), step
    return draw(st.sampled_from(['list', 'tuple', 'set', 'frozenset'])), draw(st.lists(st.integers(-6, 12), max_size=6)), 0, 0


def collection(c):
    kind, a, b, step = c
    if kind == 'range':
        return range(a, a + b * step, step)
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[kind](a)


@st.composite
def subset_cases(draw):
    whole = draw(collections())
    part = draw(collections())
    if draw(st.booleans()) and collection(whole):
        numbers = sorted(collection(whole))
        part = draw(st.sampled_from(['list', 'tuple', 'set', 'frozenset'])), \
            draw(st.lists(st.sampled_from(numbers), max_size=6)), 0, 0
    elif draw(st.booleans()) and whole[0] == 'range' and whole[2]:
        # a range along the other
        k = draw(st.integers(0, whole[2] - 1))
        c = draw(st.integers(1, 3))
        part = 'range', whole[1] + k * whole[3], draw(st.integers(0, (whole[2] - 1 - k) // c + 2)), c * whole[3]
    return whole, part, draw(st.tuples(_BOUND, _BOUND, st.sampled_from([None, 1, 2, 3])))


def subsets(case, cov):
    """The functions by which selections are checked, with numbers in any kind of collection."""
    from segpy_numpy.util import ensure_superset, is_range_superset_of_range, is_superset
    whole, part = collection(case[0]), collection(case[1])
    inside = set(part) <= set(whole)
    cov.nontrivial(len(whole) > 1 and len(part) > 1)
    cov.label('%s of %s: %s' % (case[1][0], case[0][0], inside))
    check_eq(bool(is_superset(whole, part)), inside, 'is_superset(%r, %r)' % (whole, part))
    if isinstance(whole, range) and isinstance(part, range):
        check_eq(bool(is_range_superset_of_range(whole, part)), inside, 'of ranges %r, %r' % (whole, part))
    if inside:
        got = ensure_superset(whole, part)
        check_eq(list(got), sorted(set(part)), 'ensure_superset(%r, %r)' % (whole, part))
        check_eq(len(got), len(set(part)), 'length of ensure_superset(%r, %r)' % (whole, part))
    else:
        raises(ValueError, lambda: ensure_superset(whole, part), 'ensure_superset(%r, %r)' % (whole, part))
    check_eq(sorted(ensure_superset(whole, None)), sorted(whole), 'ensure_superset(%r, None)' % (whole,))
    if isinstance(whole, (range, list, tuple)):
        check_eq(list(ensure_superset(whole, slice(*case[2]))), list(whole)[slice(*case[2])],
                 'ensure_superset, slice %r' % (case[2],))


def dtype_cases(tier, shard, nshards):
    yield from sorted(DTYPES)
    for name in ('', 'IBM', 'float', 'int64', 'float64', 'f4', 'int', 'uint8', None, 1, 'ibm '):
        yield name


def dtypes(name, cov):
    import numpy as np
    from segpy_numpy.dtypes import make_dtype
    cov.nontrivial(name in DTYPES)
    if name in DTYPES:
        check_eq(make_dtype(name), np.dtype(DTYPES[name]), 'element type of %r' % name)
    else:
        raises(ValueError, lambda: make_dtype(name), 'element type of', name)


PROPS = [
    Prop('subsets', subsets, subset_cases, quick=1000, shards=1),
    Prop('dtypes', dtypes, cases=dtype_cases),
    Prop('large', large, cases=large_cases, shards=7),
    Prop('extract', run, cases, quick=350, shards=6),
    Prop('traces', traces, plain_cases, quick=300, shards=2),
]
