"""C10: two-dimensional catalogs behave as the dictionaries they were built from."""
import itertools

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises
from vf.checks.c09 import values

PROPERTY = 'C10'
RULE = ("A case is a list of ((i, j), value) items: full or incomplete grids over regular or irregular axes, with values "
        "running along either axis, ascending or descending with any stride, constant, nearly regular or arbitrary; fed "
        "to the builder in one of three ways, or to a catalog class directly with lists, ranges or sorted sets as axes. "
        "Oracle: a dict. Non-trivial: at least two i and two j, or inconsistent parameters.")
ASSUMPTIONS = ["Keys are pairs of integers and values are integers, as documented."]


def protocol(catalog, want, extra=(), i_all=None, j_all=None):
    keys = sorted(want)
    listed = list(catalog)
    check_eq(sorted(map(tuple, listed)), keys, 'keys')
    check_eq(list(catalog.keys()), listed, 'keys()')
    check_eq(list(catalog.values()), [want[k] for k in listed], 'values()')
    check_eq(dict(catalog.items()), want, 'items()')
    check_eq(len(catalog), len(want), 'length')
    check(catalog == want, 'catalog == dict')
    for k in keys:
        check(k in catalog, 'present key', k)
        check_eq(catalog[k], want[k], 'value of', k)
        check_eq(catalog.get(k), want[k], 'get of', k)
    ii = sorted({i for i, j in keys}) if i_all is None else i_all
    jj = sorted({j for i, j in keys}) if j_all is None else j_all
    probes = set(extra) | {(0, 0), (2**40, 1), (1, -2**40)}
    if ii and jj:
        probes |= set(itertools.product(ii[:10] + [ii[0] - 1, ii[-1] + 1], jj[:10] + [jj[0] - 1, jj[-1] + 1]))
        for i, j in keys[:10] + keys[-2:]:
            probes |= {(j, i), (i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1), (i + 1, j - 1), (-i, j), (i, -j)}
        for a, b in zip(ii[:10], ii[1:10]):
            probes.add(((a + b) // 2, jj[0]))
        for a, b in zip(jj[:10], jj[1:10]):
            probes.add((ii[-1], (a + b) // 2))
    sentinel = object()
    for p in probes:
        if p not in want:
            check(p not in catalog, 'absent key', p)
            raises(KeyError, lambda: catalog[p], 'value of absent key', p)
            check(catalog.get(p, sentinel) is sentinel, 'get of absent key', p)
    check_eq(list(catalog.i_range), ii, 'i_range')
    check_eq(list(catalog.j_range), jj, 'j_range')
    if ii and jj:
        check_eq((catalog.i_min, catalog.i_max, catalog.j_min, catalog.j_max), (ii[0], ii[-1], jj[0], jj[-1]),
                 'extremes')
        check_eq(catalog.key_min(), (ii[0], jj[0]), 'key_min')
        check_eq(catalog.key_max(), (ii[-1], jj[-1]), 'key_max')
        if (ii[0], jj[0]) in want:
            check_eq(catalog.value_first(), want[ii[0], jj[0]], 'value_first')
        else:
            raises(KeyError, catalog.value_first, 'value_first')
        if (ii[-1], jj[-1]) in want:
            check_eq(catalog.value_last(), want[ii[-1], jj[-1]], 'value_last')
        else:
            raises(KeyError, catalog.value_last, 'value_last')
    if hasattr(catalog, 'key'):
        vals = sorted(want.values())
        if len(set(vals)) == len(vals):
            for k, v in want.items():
                check_eq(tuple(catalog.key(v)), k, 'key of value', v)
        wrong = {-1, 0, 1, 2**50, len(vals)}
        for a in vals[:20] + vals[-2:]:
            wrong |= {a + 1, a - 1, -a}
        for w in wrong - set(vals):
            raises(ValueError, lambda: catalog.key(w), 'key of absent value', w)
    try:
        catalog[keys[0] if keys else (0, 0)] = 1
    except (TypeError, AttributeError):
        pass
    else:
        check(False, 'catalog accepts assignment')
    isinstance(repr(catalog), str)


@st.composite
def builder_cases(draw):
    kind = draw(st.sampled_from(['grid', 'grid', 'file', 'points']))
    if kind == 'file':
        # as for a file: values are positions in the storage order
        pairs = draw(gen.grids(6))
        items = [(p, k) for k, p in enumerate(pairs)]
    elif kind == 'points':
        pairs = draw(st.lists(st.tuples(gen.coordinates(), gen.coordinates()), max_size=8, unique=True))
        items = list(zip(pairs, draw(values(len(pairs)))))
    else:
        ni, nj = draw(st.integers(1, 6)), draw(st.integers(1, 6))
        ii, jj = draw(gen.axis(ni)), draw(gen.axis(nj))
        pairs = [(i, j) for i in ii for j in jj] if draw(st.booleans()) else [(i, j) for j in jj for i in ii]
        items = list(zip(pairs, draw(values(len(pairs)))))
        flaw = draw(st.sampled_from(['none', 'none', 'swap', 'drop', 'move', 'duplicate']))
        n = len(items)
        if flaw == 'swap' and n > 1:
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            items[a], items[b] = (items[a][0], items[b][1]), (items[b][0], items[a][1])
        elif flaw == 'drop' and n > 1:
            del items[draw(st.sampled_from([0, n - 1, n // 2]))]
        elif flaw == 'move':
            k = draw(st.integers(0, n - 1))
            (i, j), v = items[k]
            moved = (i + draw(st.integers(-1, 1)), j + draw(st.integers(-2, 2)))
            items[k] = (moved, v)
        elif flaw == 'duplicate':
            items.append((items[draw(st.integers(0, n - 1))][0], draw(st.integers(-3, 3))))
        if draw(st.booleans()):
            items = list(draw(st.permutations(items)))
    return dict(items=items, how=draw(st.sampled_from(['add', 'dict', 'list'])),
                probes=draw(st.lists(st.tuples(gen.coordinates(), gen.coordinates()), max_size=3)),
                again=draw(st.booleans()))


def building(case, cov):
    from segpy.catalog import CatalogBuilder
    items = case['items']
    want = dict(items)
    how = case['how']
    if how == 'dict' and len(want) == len(items):
        builder = CatalogBuilder(want)
    elif how == 'list':
        builder = CatalogBuilder(list(items))
    else:
        builder = CatalogBuilder()
        for k, v in items:
            builder.add(k, v)
    catalog = builder.create()
    if len(want) != len(items):
        cov.label('duplicates')
        check(catalog is None, 'catalog of duplicate keys is not None but', catalog)
        return
    check(catalog is not None, 'catalog of distinct keys is None')
    cov.label(type(catalog).__name__)
    cov.nontrivial(len({i for i, j in want}) > 1 and len({j for i, j in want}) > 1)
    protocol(catalog, dict(items), case['probes'])
    if case['again']:
        protocol(builder.create(), dict(items), case['probes'])


def small_cases(tier, shard, nshards):
    """All assignments of 0..n-1 to the cells of small grids, and all assignments with repeated values to 2x2."""
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]
    k = 0
    for ni, nj in shapes:
        cells = list(itertools.product(range(ni), range(nj)))
        for perm in itertools.permutations(range(len(cells))):
            for scale in (1, -3) if tier == 'thorough' or len(cells) < 6 else (1,):
                k += 1
                if k % nshards == shard:
                    yield dict(items=[((3 * i, j - 1), scale * v) for (i, j), v in zip(cells, perm)], how='list',
                               probes=[], again=False)
    cells = list(itertools.product(range(2), range(2)))
    for vals in itertools.product(range(4), repeat=4):
        k += 1
        if k % nshards == shard:
            yield dict(items=list(zip(cells, vals)), how='list', probes=[], again=False)
    for mask in range(16):
        for order in ((0, 1), (1, 0)):
            chosen = sorted([c for n, c in enumerate(cells) if mask >> n & 1], key=lambda c: (c[order[0]], c[order[1]]))
            k += 1
            if k % nshards == shard:
                yield dict(items=[(c, v) for v, c in enumerate(chosen)], how='list', probes=[], again=False)


@st.composite
def direct_cases(draw):
    kind = draw(st.sampled_from(['last', 'first', 'dictionary']))
    ni, nj = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    ii, jj = draw(gen.axis(ni)), draw(gen.axis(nj))
    n = ni * nj
    start, step = draw(st.integers(-100, 100)), draw(st.sampled_from([1, 2, -1, 240, -7]))
    vals = [start + k * step for k in range(n)]
    if draw(st.integers(0, 3)) == 0:
        vals = draw(st.lists(st.integers(-10**9, 10**9), min_size=n, max_size=n, unique=True))
    flaw = draw(st.sampled_from(['none', 'none', 'none', 'length', 'i-order', 'j-order', 'i-duplicate', 'j-duplicate',
                                 'outside']))
    cells = list(itertools.product(range(ni), range(nj)))
    present = cells if draw(st.booleans()) else [c for k, c in enumerate(cells) if (k * 7 + start) % 3]
    return dict(kind=kind, ii=ii, jj=jj, vals=vals, flaw=flaw, present=present,
                axes=draw(st.sampled_from(['list', 'range', 'set', 'tuple'])), mapping=draw(st.booleans()),
                axis_out=draw(st.sampled_from(['i', 'j'])))


def axis_object(values, kind):
    from segpy.sorted_frozen_set import SortedFrozenSet
    steps = {b - a for a, b in zip(values, values[1:])}
    if kind == 'range' and len(steps) <= 1 and values == sorted(set(values)):
        step = steps.pop() if steps else 1
        return range(values[0], values[-1] + 1, step)
    if kind == 'set' and values == sorted(set(values)):
        return SortedFrozenSet(values)
    return tuple(values) if kind == 'tuple' else list(values)


def direct(case, cov):
    from segpy import catalog as c
    kind, flaw = case['kind'], case['flaw']
    ii, jj, vals = list(case['ii']), list(case['jj']), list(case['vals'])
    cov.label('%s %s' % (kind, flaw))
    bad = False
    if flaw == 'length' and kind != 'dictionary':
        vals = vals[:-1] if case['mapping'] else vals + [10**10]
        bad = True
    elif flaw in ('i-order', 'j-order', 'i-duplicate', 'j-duplicate'):
        axis = ii if flaw[0] == 'i' else jj
        if len(axis) > 1:
            if flaw.endswith('order'):
                axis[0], axis[-1] = axis[-1], axis[0]
            else:
                axis[-1] = axis[-2]
            bad = True
    items = [((case['ii'][a], case['jj'][b]), k * 5 - 3) for k, (a, b) in enumerate(case['present'])]
    if kind == 'dictionary' and flaw == 'outside':
        outside = ((ii[-1] + 1, jj[0]) if case['axis_out'] == 'i' else (ii[0], jj[0] - 1))
        items.insert(len(items) // 2, (outside, 3))
        bad = True
    i_axis, j_axis = axis_object(ii, case['axes']), axis_object(jj, case['axes'])
    if kind == 'dictionary':
        def make():
            return c.DictionaryCatalog2D(i_axis, j_axis, dict(items) if case['mapping'] else iter(items))
        want = dict(items)
    elif kind == 'last':
        def make():
            return c.LastIndexVariesQuickestCatalog2D(i_axis, j_axis, axis_object(vals, case['axes']))
        want = dict(zip([(i, j) for i in ii for j in jj], vals))
    else:
        def make():
            return c.FirstIndexVariesQuickestCatalog2D(i_axis, j_axis, axis_object(vals, case['axes']))
        want = dict(zip([(i, j) for j in jj for i in ii], vals))
    if bad:
        cov.nontrivial()
        raises(ValueError, make, kind, 'with flaw', flaw)
        return
    cov.nontrivial(len(ii) > 1 and len(jj) > 1)
    protocol(make(), want, (), ii, jj)


def misuse(case, cov):
    from segpy import catalog as c
    cov.nontrivial()
    raises(TypeError, lambda: c.DictionaryCatalog2D([1], [2], case), 'DictionaryCatalog2D from', case)


PROPS = [
    Prop('building', building, builder_cases, quick=1300, shards=6),
    Prop('all_small', building, cases=small_cases, shards=2),
    Prop('direct', direct, direct_cases, quick=500, shards=3),
    Prop('misuse', misuse, cases=lambda tier, shard, n: [5, 2.5, None]),
]
