"""C26: sorted sets, sequence views and sorted distinct sequences."""
import operator

from hypothesis import strategies as st

from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C26'
RULE = ("Collections of integers (dense, strided, duplicated, arbitrary), text, floats and tuples, empty and single-item "
        "ones included, given as list, tuple, set, frozenset, iterator, dict, range or sorted set; all operations on one "
        "or two of them. Oracle: sorted lists and Python's sets. Ranges with all small starts, stops and steps are "
        "enumerated. Non-trivial: at least two distinct items.")
ASSUMPTIONS = ["The items of one collection, and those looked up in it, are mutually comparable (no NaNs).",
               "Slices of ReversedSequenceView are not supported by the code and not considered."]


def nearly_regular(start, n, step, at, change):
    items = list(range(start, start + n * step, step))
    if change is None:
        del items[at % n]
    else:
        items[at % n] += change
    return items


INTS = st.one_of(
    st.lists(st.integers(-6, 12), max_size=9),
    st.lists(st.integers(-6, 12), max_size=9),
    st.lists(st.integers(), max_size=6),
    st.tuples(st.integers(-20, 20), st.integers(0, 8), st.sampled_from([1, 1, 2, 3, 7])).map(
        lambda t: list(range(t[0], t[0] + t[1] * t[2], t[2]))),
    st.tuples(st.integers(-20, 20), st.integers(0, 8), st.sampled_from([1, 1, 2, 3, 7])).map(
        lambda t: list(range(t[0], t[0] + t[1] * t[2], t[2]))[::-1]),
    st.tuples(st.integers(-5, 5), st.integers(2, 7), st.integers(0, 6)).map(
        lambda t: [v for k, v in enumerate(range(t[0], t[0] + t[1])) if k != t[2]]),
    # long and nearly regular
    st.tuples(st.integers(-20, 20), st.sampled_from([16, 32, 33, 64, 65, 70, 100, 129]), st.sampled_from([1, 2, 3]),
              st.integers(0, 128), st.sampled_from([0, 1, -1, 2, None])).map(lambda t: nearly_regular(*t)))
OTHERS = {'text': st.lists(st.text(st.sampled_from('abcA'), max_size=3), max_size=7),
          'float': st.lists(st.one_of(st.sampled_from([0.5, 1.5, 2.5, 1.0, 2.0, 3.0, -0.0, 0.0, 1e300]),
                                      st.floats(allow_nan=False)), max_size=7),
          'mixed': st.lists(st.one_of(st.integers(-3, 4), st.sampled_from([-0.5, 0.5, 1.0, 1.5, 2.5, -1.25, 1e300, 2.0**70]),
                                      st.booleans()), max_size=9),
          'tuple': st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=7)}
GIVEN = ['list', 'list', 'tuple', 'set', 'frozenset', 'iterator', 'dict', 'sorted set', 'keys']


def of_type(kind):
    return INTS if kind == 'int' else OTHERS[kind]


KIND = st.sampled_from(['int', 'int', 'int', 'text', 'float', 'mixed', 'mixed', 'tuple'])


def give(items, how):
    from segpy.sorted_frozen_set import SortedFrozenSet
    if how == 'iterator':
        return (x for x in items)
    if how == 'keys':
        return dict.fromkeys(items).keys()
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict.fromkeys,
            'sorted set': SortedFrozenSet}[how](items)


@st.composite
def set_cases(draw):
    kind = draw(KIND)
    a = draw(of_type(kind))
    b = draw(of_type(kind))
    related = draw(st.sampled_from([None, None, 'same', 'subset', 'superset', 'overlap']))
    if related == 'same':
        b = a[::-1]
    elif related == 'subset':
        b = a[::2]
    elif related == 'superset':
        b = a + b
    elif related == 'overlap':
        b = a[1:] + b[:1]
    return dict(a=a, b=b, how=draw(st.sampled_from(GIVEN)), how_b=draw(st.sampled_from(GIVEN)),
                probes=draw(st.lists(st.sampled_from(a + b), max_size=3) if a + b else st.just([])) + draw(of_type(kind))[:4],
                slices=draw(st.lists(st.tuples(BOUND, BOUND, st.sampled_from([None, 1, 2, 3, -1, -2])), max_size=3)))


BOUND = st.one_of(st.none(), st.integers(-9, 9))
BINARY = [('&', operator.and_), ('|', operator.or_), ('-', operator.sub), ('^', operator.xor)]
RELATIONS = [('<=', operator.le), ('<', operator.lt), ('>=', operator.ge), ('>', operator.gt)]


def sets(case, cov):
    from segpy.sorted_frozen_set import SortedFrozenSet
    a, b = case['a'], case['b']
    cov.nontrivial(len(set(a)) > 1)
    cov.label(case['how'])
    sa, sb = set(a), set(b)
    la, lb = sorted(sa), sorted(sb)
    s = SortedFrozenSet(give(a, case['how']))
    t = SortedFrozenSet(give(b, case['how_b']))
    for u, items in ((s, la), (t, lb)):
        check_list(u, items, case['probes'])
        check_eq(set(u), set(items), 'items')
    for start, stop, step in case['slices']:
        piece = s[start:stop:step]
        check(isinstance(piece, SortedFrozenSet), 'type of slice', piece)
        check_eq(list(piece), sorted(la[start:stop:step]), 'slice [%s:%s:%s]' % (start, stop, step))
    # equality
    check_eq(s == t, sa == sb, '==')
    check_eq(s != t, sa != sb, '!=')
    check(s == SortedFrozenSet(a[::-1]), 'equality with a reordered copy')
    check((s == 1) is False and (s == None) is False and s != 'x', 'equality with something else')    # noqa: E711
    # operators
    for name, op in BINARY:
        want = op(sa, sb)
        for got in (op(s, t), op(s, sb), op(sa, t), op(s, frozenset(sb)), op(s, dict.fromkeys(b).keys())):
            check(set(got) == want, 'result of', name, list(got), want)
            if type(got) not in (set, frozenset):
                check_eq(list(got), sorted(want), name)
                check_list(got, sorted(want), case['probes'])
        check(isinstance(op(s, t), SortedFrozenSet), 'type of', name)
    for name, op in RELATIONS:
        check_eq(op(s, t), op(sa, sb), name)
        check_eq(op(s, sb), op(sa, sb), name)
        check_eq(op(sa, t), op(sa, sb), name)
    check_eq(s.isdisjoint(t), sa.isdisjoint(sb), 'isdisjoint')
    check_eq(s.isdisjoint(sb), sa.isdisjoint(sb), 'isdisjoint')
    for name in ('issubset', 'issuperset'):
        check_eq(getattr(s, name)(give(b, case['how_b'])), getattr(sa, name)(b), name)
    for name in ('intersection', 'union', 'difference', 'symmetric_difference'):
        got = getattr(s, name)(give(b, case['how_b']))
        want = getattr(sa, name)(b)
        check(isinstance(got, SortedFrozenSet), 'type of', name)
        check_eq(list(got), sorted(want), name)
    # concatenation and repetition of sets
    check_eq(list(s + t), sorted(sa | sb), '+')
    for n in (-1, 0, 1, 3):
        check_eq(list(s * n), la if n > 0 else [], '* %d' % n)
        check_eq(list(n * s), la if n > 0 else [], '%d *' % n)
    check_eq(list(s), la, 'afterwards')
    check_eq(list(t), lb, 'afterwards')
    check_eq(list(SortedFrozenSet(s)), la, 'copy')
    check_eq(list(SortedFrozenSet()), [], 'empty')
    # it is independent of what it was made of
    if case['how'] in ('list', 'set', 'dict', 'keys'):
        for source in (give(a, case['how']), give(la, case['how'])):
            if case['how'] == 'keys':
                base = dict.fromkeys(la)
                source = base.keys()
            else:
                base = source
            u = SortedFrozenSet(source)
            if isinstance(base, list):
                base.append(99)
                base[:1] = ['other']
            else:
                base.clear()
            check_eq(list(u), la, 'after what it was made of has changed')


def check_list(s, items, probes, duplicates=False):
    """The Sequence protocol against a list."""
    n = len(items)
    check_eq(len(s), n, 'length')
    check_eq(list(s), items, 'iteration')
    check_eq(list(reversed(s)), items[::-1], 'reversed')
    check_eq([s[k] for k in range(n)], items, 'indexing')
    check_eq([s[k] for k in range(-n, 0)], items, 'negative indexing')
    for k in (n, n + 1, -n - 1, -n - 2):
        raises(IndexError, lambda: s[k], 'index %d' % k)
    check_eq(bool(s), bool(items), 'truth')
    for p in list(items) + list(probes):
        check_eq(p in s, p in items, '%r in' % (p,))
        check_eq(s.count(p), items.count(p), 'count of %r' % (p,))
        if p in items:
            check_eq(s.index(p), items.index(p), 'index of %r' % (p,))
        else:
            raises(ValueError, lambda: s.index(p), 'index of %r' % (p,))


@st.composite
def view_cases(draw):
    kind = draw(st.sampled_from(['int', 'int', 'text', 'float']))
    items = draw(of_type(kind))
    how = draw(st.sampled_from(['list', 'tuple', 'range', 'sorted set', 'view']))
    probes = draw(of_type(kind))[:4]
    if how == 'range':
        items = list(range(draw(st.integers(-5, 5)), draw(st.integers(-9, 9)), draw(st.sampled_from([1, 2, -1, -3]))))
        probes = list(range(-10, 11))
    return dict(items=items, how=how, probes=probes)


def views(case, cov):
    from segpy.reversed_sequence_view import ReversedSequenceView
    from segpy.sorted_frozen_set import SortedFrozenSet
    items, how = list(case['items']), case['how']
    cov.label(how)
    cov.nontrivial(len(set(items)) > 1)
    if len(set(items)) < len(items):
        cov.label('repeated items')
    base = items
    if how == 'tuple':
        base = tuple(items)
    elif how == 'range':
        base = range(0)
        if items:
            step = items[1] - items[0] if len(items) > 1 else 1
            base = range(items[0], items[-1] + (1 if step > 0 else -1), step)
        check_eq(list(base), items, 'range')
    elif how == 'sorted set':
        items = sorted(set(items))
        base = SortedFrozenSet(items)
    elif how == 'view':
        base = ReversedSequenceView(items)
        items = items[::-1]
    view = ReversedSequenceView(base)
    check_list(view, items[::-1], case['probes'])
    check_list(ReversedSequenceView(view), items, case['probes'])
    # it is a view
    if how == 'list':
        base.append(base[0] if base else 7)
        check_list(view, base[::-1], case['probes'])
    check_eq(list(base), items if how != 'list' else base, 'underlying sequence')


@st.composite
def sequence_cases(draw):
    kind = draw(KIND)
    how = draw(st.sampled_from(GIVEN + ['range', 'range']))
    if how == 'range':
        kind = 'int'
        items = range(draw(st.integers(-9, 9)), draw(st.integers(-9, 9)), draw(st.sampled_from([1, 2, 3, 5, -1, -2, -3])))
    else:
        items = draw(of_type(kind))
        order = draw(st.sampled_from(['given', 'ascending', 'descending', 'repeated']))
        if order == 'ascending':
            items = sorted(items)
        elif order == 'descending':
            items = sorted(items, reverse=True)
        elif order == 'repeated':
            items = [x for x in items for _ in range(2)]
    return dict(items=items, how=how, sense=draw(st.sampled_from(['ascending', 'descending', None, 'default'])),
                probes=draw(of_type(kind))[:4])


def sequences(case, cov):
    from segpy.util import SortSense, make_sorted_distinct_sequence
    items, how, sense = case['items'], case['how'], case['sense']
    cov.nontrivial(len(set(items)) > 1)
    cov.label('%s, %s' % (how, sense))
    arg = items if how == 'range' else give(items, how)
    shown = list(arg) if how not in ('iterator',) else list(items)
    if sense == 'default':
        got = make_sorted_distinct_sequence(arg)
    else:
        got = make_sorted_distinct_sequence(arg, None if sense is None else SortSense[sense])
    want = sorted(set(items))
    # the sense of the original is kept where it is strictly descending
    if sense == 'descending' or sense is None and len(shown) > 1 and all(a > b for a, b in zip(shown, shown[1:])):
        want.reverse()
    check_list(got, want, case['probes'])
    check_eq(list(got), want, 'again')
    if isinstance(arg, (list, set, dict)):
        arg.clear()
        check_eq(list(got), want, 'after what it was made of has changed')
    raises(TypeError, lambda: make_sorted_distinct_sequence(range(3), 'ascending'), 'bad sense')
    raises(TypeError, lambda: make_sorted_distinct_sequence([1, 2], 1), 'bad sense')


def all_ranges(tier, shard, nshards):
    n = 7 if tier == 'quick' else 16
    for start in range(-n, n + 1):
        if (start + n) % nshards == shard:
            for stop in range(-n, n + 1):
                for step in [s for s in range(-6, 7) if s]:
                    yield start, stop, step
    if shard == 0:
        for big in (2**31 - 1, -2**31, 2**63, -2**64):
            for step in (1, -1, 7, -7, 2**31, -2**40):
                for count in (0, 1, 2, 5):
                    yield big, big + count * step, step


def ranges(case, cov):
    from segpy.util import SortSense, compress_sorted_sequence_to_range, make_sorted_distinct_sequence, reversed_range
    r = range(*case)
    items = list(r)
    cov.nontrivial(len(items) > 1)
    back = reversed_range(r)
    check(isinstance(back, range), 'type', back)
    check_eq(list(back), items[::-1], 'reversed range')
    check_eq(list(reversed_range(back)), items, 'reversed twice')
    for sense in SortSense:
        want = sorted(items, reverse=sense is SortSense.descending)
        check_eq(list(make_sorted_distinct_sequence(r, sense)), want, 'sorted range')
        check_eq(list(make_sorted_distinct_sequence(items, sense)), want, 'sorted list')
    check_eq(list(make_sorted_distinct_sequence(r, None)), items, 'range as it is')
    check_eq(list(make_sorted_distinct_sequence(items, None)), items, 'list as it is')
    if items:
        packed = compress_sorted_sequence_to_range(items)
        check(isinstance(packed, range), 'compressed type', packed)
        check_eq(list(packed), items, 'compressed')
        if len(items) > 2:
            for k in range(1, len(items) - 1):
                rest = items[:k] + items[k + 1:]
                check_eq(list(compress_sorted_sequence_to_range(rest)), rest, 'compressed with a gap')
                check_eq(list(make_sorted_distinct_sequence(rest)), sorted(rest), 'sorted with a gap')
    else:
        check_eq(list(compress_sorted_sequence_to_range(items)), [], 'compressed')


LARGE = [100, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 4096, 5003, 10000]


def large_cases(tier, shard, nshards):
    k = 0
    for n in LARGE + ([20000, 65536, 65537, 100003] if tier == 'thorough' else []):
        for shape in ('ascending', 'descending', 'gap', 'repeat', 'pairs', 'mixed', 'scattered'):
            for how in ('range', 'list', 'tuple', 'set', 'iterator', 'keys', 'sorted set'):
                if how != 'range' or shape in ('ascending', 'descending'):
                    k += 1
                    if k % nshards == shard:
                        yield n, shape, how


def large(case, cov):
    """Collections of hundreds or thousands of items."""
    from segpy.reversed_sequence_view import ReversedSequenceView
    from segpy.sorted_frozen_set import SortedFrozenSet
    from segpy.util import SortSense, make_sorted_distinct_sequence
    n, shape, how = case
    cov.nontrivial()
    cov.label(how)
    step = 1 + n % 3
    items = range(-7, -7 + n * step, step)
    if shape == 'descending':
        items = items[::-1]
    if how != 'range':
        items = list(items)
        if shape == 'gap':
            del items[n * 2 // 3]
        elif shape == 'repeat':
            items.insert(n // 3, items[n // 3])
        elif shape == 'pairs':
            items = [x for x in items for _ in range(2)]
        elif shape == 'mixed':
            items[n // 2] += 0.5
        elif shape == 'scattered':
            items = [items[k * 7919 % n] for k in range(n)]

    def given():
        return items if how == 'range' else give(items, how)
    want = sorted(set(items))
    probes = [want[0] - 1, want[0] + 0.25, want[-1] + 1, want[n // 2] + 0.5, want[n // 3], want[-1], want[0], want[-2]]
    places = sorted({0, 1, n // 4, n // 2, len(want) - 2, len(want) - 1})

    def same(s, expected, what):
        check(list(s) == expected, what, 'items differ')
        check_eq(len(s), len(expected), what, 'length')
        check(list(reversed(s)) == expected[::-1], what, 'reversed items differ')
        for p in probes:
            check_eq(p in s, p in set(expected), what, '%r in' % p)
            check_eq(s.count(p), expected.count(p), what, 'count of %r' % p)
        for k in places:
            check_eq(s[k], expected[k], what, 'item', k)
            check_eq(s[k - len(expected)], expected[k], what, 'item', k - len(expected))
            check_eq(s.index(expected[k]), k, what, 'index')

    s = SortedFrozenSet(given())
    same(s, want, 'sorted set')
    check(s == SortedFrozenSet(want) and s == SortedFrozenSet(want[::-1]), 'equality')
    check(not s != SortedFrozenSet(want), 'equality')
    check(s != SortedFrozenSet(want[:-1]) and s != SortedFrozenSet(want[1:]), 'inequality')
    part = want[n // 3:]
    for name, op in BINARY:
        check(list(op(s, SortedFrozenSet(part))) == sorted(op(set(want), set(part))), name)
        check(list(op(SortedFrozenSet(part[::-1]), s)) == sorted(op(set(part), set(want))), name)
    for a, b in ((s, SortedFrozenSet(part)), (SortedFrozenSet(part), s), (s, SortedFrozenSet(want[::-1]))):
        for name, op in RELATIONS:
            check_eq(op(a, b), op(set(a), set(b)), name)
    check(list(s[n // 3:]) == part, 'slice')
    same(ReversedSequenceView(s), want[::-1], 'view')
    if how in ('range', 'list', 'tuple'):
        view = ReversedSequenceView(given())
        check(list(view) == list(items)[::-1] and view[0] == items[-1] and view[-1] == items[0], 'view')
    for sense in (SortSense.ascending, SortSense.descending, None):
        expected = list(want)
        shown = list(given())
        if sense is SortSense.descending or sense is None and all(a > b for a, b in zip(shown, shown[1:])):
            expected.reverse()
        same(make_sorted_distinct_sequence(given(), sense), expected, 'sequence')


PROPS = [
    Prop('large', large, cases=large_cases, shards=2),
    Prop('sets', sets, set_cases, quick=1500, shards=3),
    Prop('views', views, view_cases, quick=1500),
    Prop('sequences', sequences, sequence_cases, quick=1500, shards=2),
    Prop('ranges', ranges, cases=all_ranges, shards=2),
]
