"""C09: one-dimensional catalogs behave as the dictionaries they were built from."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C09'
RULE = ("A case is a list of (integer key, integer value) pairs in arbitrary order, made so as to reach every compressed "
        "representation (regular or irregular keys x constant, linear, arbitrary values) and near misses of these, fed "
        "to the builder in one of five ways; or parameters for a catalog class. Oracle: a dict. Non-trivial: at least "
        "three items, or parameters that are inconsistent.")
ASSUMPTIONS = ["Keys and values are integers, as documented."]


def protocol(catalog, want, probes, ordered=True):
    """The whole Mapping protocol against the dict `want`."""
    keys = sorted(want)
    listed = list(catalog)
    check_eq(sorted(listed), keys, 'keys')
    if ordered:
        check_eq(listed, keys, 'iteration order')
    check_eq(list(iter(catalog)), listed, 'second iteration')
    check_eq(list(catalog.keys()), listed, 'keys()')
    check_eq(list(catalog.values()), [want[k] for k in listed], 'values()')
    check_eq(list(catalog.items()), [(k, want[k]) for k in listed], 'items()')
    check_eq(len(catalog), len(want), 'length')
    check_eq(bool(len(catalog)), bool(want), 'truth')
    check(catalog == want, 'catalog == dict')
    check(not (catalog != want), 'catalog != dict')
    if want:
        other = dict(want)
        other[keys[-1]] += 1
        check(not (catalog == other), 'catalog == different dict')
    for k in keys:
        check(k in catalog, 'present key', k)
        check_eq(catalog[k], want[k], 'value of', k)
        check_eq(catalog.get(k), want[k], 'get of', k)
    sentinel = object()
    for p in probes:
        if p in want:
            continue
        check(p not in catalog, 'absent key', p)
        raises(KeyError, lambda: catalog[p], 'value of absent key', p)
        check(catalog.get(p, sentinel) is sentinel, 'get of absent key', p)
    try:
        catalog[keys[0] if keys else 0] = 1
    except (TypeError, AttributeError):
        pass
    else:
        check(False, 'catalog accepts assignment')
    isinstance(repr(catalog), str)


def around(keys, extra=()):
    keys = sorted(keys)
    probes = set(extra) | {0, 1, -1, 2**40, -2**40}
    if keys:
        probes |= {keys[0] - 1, keys[-1] + 1, keys[0] - 1000, keys[-1] + 1000, -keys[0], -keys[-1], 2 * keys[-1]}
        span = keys[-1] - keys[0]
        probes |= {keys[0] - span, keys[-1] + span}
        if len(keys) > 1:
            step = keys[1] - keys[0]
            probes |= {keys[-1] + step, keys[0] - step}
    for a, b in zip(keys[:40], keys[1:40]):
        probes |= {a + 1, b - 1, (a + b) // 2, b + 1}
    return probes


@st.composite
def value_series(draw, n):
    """Integers: constant, linear (up or down), nearly linear, arbitrary."""
    kind = draw(st.sampled_from(['constant', 'linear', 'linear', 'near-constant', 'near-linear', 'bend', 'random']))
    start = draw(st.one_of(st.integers(-10, 100), st.integers(-2**45, 2**45)))
    step = draw(st.one_of(st.integers(-5, 5), st.sampled_from([3600, 240, 8240, -240, 2**33])))
    if kind == 'constant':
        return [start] * n
    if kind == 'random':
        return draw(st.lists(st.integers(-2**45, 2**45), min_size=n, max_size=n))
    out = [start + i * (0 if kind == 'near-constant' else step) for i in range(n)]
    if kind in ('near-linear', 'near-constant') and n:
        k = draw(st.sampled_from([0, n - 1, n // 2, draw(st.integers(0, n - 1))]))
        out[k] += draw(st.sampled_from([1, -1, step, 17]))
    if kind == 'bend' and n > 2:
        k = draw(st.integers(1, n - 1))
        d = draw(st.sampled_from([1, -1, 5]))
        out = [v + max(0, i - k) * d for i, v in enumerate(out)]
    return out


VALUES = {}


def values(n):
    if n not in VALUES:
        VALUES[n] = value_series(n)
    return VALUES[n]


@st.composite
def builder_cases(draw):
    n = draw(gen.weighted((5, st.integers(0, 6)), (3, st.integers(3, 20)), (1, st.integers(30, 120))))
    keys = draw(st.one_of(gen.number_series(n), gen.axis(n)))
    vals = draw(values(len(keys)))
    order = draw(st.sampled_from(['given', 'given', 'sorted', 'reversed', 'shuffled']))
    # the values follow the order of the keys unless they are given in file order
    if order != 'given':
        keys = sorted(keys)
    scale = draw(gen.weighted((4, st.just(1)), (2, st.integers(2, 1000)), (1, st.integers(2, 2**20))))
    pairs = [(k * scale, v) for k, v in zip(keys, vals)]
    if order == 'reversed':
        pairs.reverse()
    elif order == 'shuffled':
        pairs = draw(st.permutations(pairs))
    return dict(pairs=list(pairs), how=draw(st.sampled_from(['add', 'dict', 'list', 'iterator', 'mixed'])),
                probes=draw(st.lists(st.integers(-2**34, 2**34), max_size=3)),
                again=draw(st.sampled_from(['no', 'no', 'create', 'add'])))


def building(case, cov):
    from segpy.catalog import CatalogBuilder
    pairs = case['pairs']
    want = dict(pairs)
    duplicate = len(want) != len(pairs)
    how = case['how']
    if how == 'dict' and duplicate:
        how = 'list'
    if how == 'add':
        builder = CatalogBuilder()
        for k, v in pairs:
            builder.add(k, v)
    elif how == 'dict':
        source = dict(pairs)
        builder = CatalogBuilder(source)
        source[12345] = 6
    elif how == 'list':
        source = list(pairs)
        builder = CatalogBuilder(source)
        source.append((12345, 6))
    elif how == 'iterator':
        builder = CatalogBuilder(iter(pairs))
    else:
        half = len(pairs) // 2
        builder = CatalogBuilder(pairs[:half])
        for k, v in pairs[half:]:
            builder.add(k, v)
    catalog = builder.create()
    cov.nontrivial(len(pairs) > 2)
    cov.label('via ' + how)
    if duplicate:
        cov.label('duplicates')
        check(catalog is None, 'catalog of duplicate keys is not None but', catalog)
        return
    check(catalog is not None, 'catalog of distinct keys is None')
    cov.label(type(catalog).__name__)
    probes = around(want, case['probes'])
    protocol(catalog, want, probes)
    if case['again'] == 'create':
        protocol(builder.create(), want, probes)
        protocol(catalog, want, probes)
    elif case['again'] == 'add':
        key = max(want) + 1 if want else 4
        builder.add(key, 99)
        bigger = dict(want)
        bigger[key] = 99
        protocol(builder.create(), bigger, around(bigger))
        protocol(catalog, want, probes)
        builder.add(key, 99)
        check(builder.create() is None, 'catalog of duplicate keys is not None')


def small_cases(tier, shard, nshards):
    """All mappings from subsets of five keys to two or three values."""
    import itertools
    size = 6 if tier == 'thorough' else 5
    k = 0
    for n in range(0, size + 1):
        for keys in itertools.combinations(range(size), n):
            for vals in itertools.product((0, 1, 2) if n < 5 else (0, 1), repeat=n):
                k += 1
                if k % nshards == shard:
                    yield dict(pairs=[(key * 2 - 3, v) for key, v in zip(keys, vals)], how='list', probes=[],
                               again='no')


def linear_cases(tier, shard, nshards):
    """All linear relations with small strides."""
    for ks in range(1, 400 if tier == 'thorough' else 131):
        if ks % nshards == shard:
            for vs in sorted({1, 2, 3, 5, 7, 10, ks - 1, ks, ks + 1, 3600} - {0}):
                for sign in (1, -1):
                    yield (ks, sign * vs, ks % 7 - 3, 12 if tier == 'thorough' else 8)


def linear(case, cov):
    from segpy.catalog import CatalogBuilder
    ks, vs, start, n = case
    cov.nontrivial()
    want = {start + k * ks: 17 + k * vs for k in range(n)}
    catalog = CatalogBuilder(want).create()
    cov.label(type(catalog).__name__)
    check_eq(dict(catalog), want, 'linear catalog')
    check_eq([k for k in range(start - 2, start + 3 * ks + 2) if k in catalog],
             [k for k in sorted(want) if k < start + 3 * ks + 2], 'keys present')
    for key in want:
        check_eq(catalog[key], want[key], 'value of %d' % key)


# ------------------------------------------------------------------------------------------------ direct construction

_SMALL = st.integers(-12, 12)


@st.composite
def direct_cases(draw):
    kind = draw(st.sampled_from(['regular-constant', 'regular', 'linear', 'linear', 'constant', 'dictionary']))
    n = draw(st.integers(1, 8))
    key_min = draw(st.one_of(_SMALL, st.integers(-10**6, 10**6)))
    key_stride = draw(st.integers(1, 5))
    key_max = key_min + (n - 1) * key_stride
    vals = draw(values(n))
    value_start = draw(st.integers(-50, 50))
    value_stride = draw(st.sampled_from([1, -1, 2, -3, 7, 240]))
    value_stop = value_start + (n - 1) * value_stride
    flaw = draw(st.sampled_from(['none', 'none', 'max', 'stride', 'values', 'order', 'value-stop', 'value-stride']))
    if flaw == 'max':
        key_max += draw(st.integers(-3, 3))
    elif flaw == 'stride':
        key_stride = draw(st.integers(-3, 6))
    elif flaw == 'values':
        vals = vals[1:] if draw(st.booleans()) else vals + [draw(_SMALL)]
    elif flaw == 'order':
        key_max = key_min - draw(st.integers(0, 3)) * key_stride
    elif flaw == 'value-stop':
        value_stop += draw(st.integers(-4, 4))
    elif flaw == 'value-stride':
        value_stride = draw(st.integers(-4, 4))
    return dict(kind=kind, key_min=key_min, key_max=key_max, key_stride=key_stride, vals=vals,
                value_start=value_start, value_stop=value_stop, value_stride=value_stride,
                keys=draw(st.lists(_SMALL, max_size=8)), iterator=draw(st.booleans()))


def direct(case, cov):
    from segpy import catalog as c
    kind = case['kind']
    a, b, s = case['key_min'], case['key_max'], case['key_stride']
    cov.label(kind)
    if kind == 'constant':
        keys = case['keys']
        catalog = c.ConstantCatalog(iter(keys) if case['iterator'] else keys, 42)
        cov.nontrivial(len(keys) > 2)
        protocol(catalog, {k: 42 for k in keys}, around(keys))
        return
    if kind == 'dictionary':
        pairs = list(zip(dict.fromkeys(case['keys']), case['vals']))
        source = iter(pairs) if case['iterator'] else pairs
        catalog = c.DictionaryCatalog(source)
        cov.nontrivial(len(pairs) > 2)
        protocol(catalog, dict(pairs), around(dict(pairs)), ordered=False)
        return
    regular = s > 0 and a <= b and (b - a) % s == 0
    keys = list(range(a, b + 1, s)) if regular else []
    if kind == 'regular-constant':
        ok = regular

        def make():
            return c.RegularConstantCatalog(a, b, s, 7)
        want = {k: 7 for k in keys}
    elif kind == 'regular':
        ok = regular and len(keys) == len(case['vals'])

        def make():
            return c.RegularCatalog(a, b, s, iter(case['vals']) if case['iterator'] else case['vals'])
        want = dict(zip(keys, case['vals']))
    else:
        v0, v1, vs = case['value_start'], case['value_stop'], case['value_stride']
        ok = regular and a < b and vs != 0 and (v1 - v0) % vs == 0 and (v1 - v0) // vs + 1 == len(keys)

        def make():
            return c.LinearRegularCatalog(a, b, s, v0, v1, vs)
        want = {k: v0 + i * vs for i, k in enumerate(keys)} if ok else {}
    if not ok:
        cov.label(kind + ' inconsistent')
        cov.nontrivial()
        raises(ValueError, make, kind, 'from', case)
        return
    cov.nontrivial(len(keys) > 2)
    catalog = make()
    if kind == 'regular' and not case['iterator'] and case['vals']:
        case = dict(case)
    protocol(catalog, want, around(keys))


LARGE = [257, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 10000, 10001, 16385, 20000, 32769, 65537]


def large_cases(tier, shard, nshards):
    """Long mappings, regular but for one place."""
    k = 0
    for n in LARGE + ([100001, 131073] if tier == 'thorough' else []):
        for keys in ('regular', 'step 3', 'down', 'gap', 'early gap', 'shift', 'duplicate', 'duplicate far'):
            for vals in ('constant', 'linear', 'late', 'early', 'middle', 'last', 'bend'):
                if n > 5000 and keys in ('early gap', 'down') and vals in ('early', 'linear'):
                    continue
                k += 1
                if k % nshards == shard:
                    yield n, keys, vals, (k * 7919) % n


def large(case, cov):
    from segpy.catalog import CatalogBuilder
    n, kind, vkind, at = case
    cov.nontrivial()
    at = {0: n - 2, 1: n // 2, 2: at}[at % 3]
    keys = list(range(5, 5 + 3 * n, 3)) if kind == 'step 3' else list(range(-3, n - 3))
    if kind == 'gap':
        keys = keys[:at] + [x + 1 for x in keys[at:]] if at else keys
    elif kind == 'early gap':
        keys = [keys[0] - 1] + keys[1:]
    elif kind == 'shift':
        keys = [2 * x for x in keys]
        keys[at] += 1
    elif kind == 'duplicate':
        keys[max(1, at)] = keys[max(1, at) - 1]
    elif kind == 'duplicate far':
        keys[-1] = keys[0]
    vals = [7] * n if vkind in ('constant', 'middle') else [100 + 240 * i for i in range(n)]
    if vkind == 'late':
        vals[n - 2] += 1
    elif vkind == 'early':
        vals[1] += 1
    elif vkind == 'middle':
        vals[at] += 3
    elif vkind == 'last':
        vals[-1] += 1
    elif vkind == 'bend':
        vals = [v + max(0, i - at) for i, v in enumerate(vals)]
    pairs = list(zip(keys, vals))
    if kind == 'down':
        pairs.reverse()
    want = dict(pairs)
    builder = CatalogBuilder(pairs)
    catalog = builder.create()
    if len(want) < n:
        cov.label('duplicates')
        check(catalog is None, 'catalog of duplicate keys is not None')
        return
    cov.label(type(catalog).__name__)
    check(catalog is not None, 'catalog of distinct keys is None')
    check_eq(len(catalog), n, 'length')
    got = list(catalog)
    check(got == sorted(want), 'keys of %d differ' % n)
    got = [catalog[key] for key in got]
    for i, key in enumerate(sorted(want)):
        if got[i] != want[key]:
            check(False, 'value of key %d of %d is %r, expected %r' % (key, n, got[i], want[key]))
    probes = {min(want) - 1, max(want) + 1}
    for key in sorted(want)[::97] + sorted(want)[-3:] + [keys[at], keys[at - 1]]:
        probes |= {key + 1, key - 1}
    for p in probes:
        check_eq(p in catalog, p in want, '%d in' % p)


def misuse_cases(tier, shard, nshards):
    for pairs in ([(1, 2), (3,)], [(1, 2, 3)], [()], [(1, 2), (3, 4, 5), (6, 7)]):
        yield ('ValueError', pairs)
    for thing in (5, 2.5, object):
        yield ('TypeError', thing)


def misuse(case, cov):
    from segpy.catalog import CatalogBuilder
    cov.nontrivial()
    name, arg = case
    raises({'ValueError': ValueError, 'TypeError': TypeError}[name], lambda: CatalogBuilder(arg),
           'CatalogBuilder of', arg)


PROPS = [
    Prop('building', building, builder_cases, quick=1300, shards=6),
    Prop('all_small', building, cases=small_cases, shards=2),
    Prop('large', large, cases=large_cases, shards=4),
    Prop('linear', linear, cases=linear_cases, shards=2),
    Prop('direct', direct, direct_cases, quick=700, shards=3),
    Prop('misuse', misuse, cases=misuse_cases),
]
