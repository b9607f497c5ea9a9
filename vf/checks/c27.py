"""C27: iteration, interval and file utilities."""
import fractions
import io
import itertools
import os

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises, scratch_dir, rmtree

PROPERTY = 'C27'
RULE = ("Series of integers, fractions, text, tuples and None, of length 0 to 12, given as list, tuple, iterator, "
        "generator, dict, text, range or sorted set; batch sizes up to beyond the length; ranges and slices with all "
        "small bounds; file contents around the block size of the hash. Oracles are written from the definitions "
        "(index arithmetic, sets of points). Also small helper functions (text, rounding, attributes). Non-trivial: at least two items or a non-empty interval or content.")
ASSUMPTIONS = ["Series given to contains_duplicates() are sorted.",
               "The stride of a series of fewer than two items is unspecified.",
               "Intervals have a step of one and do not run backwards.",
               "Hash arguments whose concatenated representations coincide are not told apart."]


class OneShot:
    """An iterable that is not an iterator and counts its passes."""

    def __init__(self, items):
        self.items = items
        self.passes = 0

    def __iter__(self):
        self.passes += 1
        return iter(self.items)


VALUES = {'int': st.integers(-3, 6), 'text': st.text(st.sampled_from('ab'), max_size=2),
          'mixed': st.sampled_from([None, 0, False, '', 1, 'a', (), (1, 2)]),
          'fraction': st.fractions(-2, 2, max_denominator=3), 'tuple': st.tuples(st.integers(0, 2), st.integers(0, 2))}
GIVEN = ['list', 'list', 'tuple', 'iterator', 'generator', 'oneshot', 'dict', 'deque']


@gen.cached
def series(kind):
    return st.lists(VALUES[kind], max_size=12)


def give(items, how):
    if how == 'iterator':
        return iter(items)
    if how == 'generator':
        return (x for x in items)
    if how == 'oneshot':
        return OneShot(items)
    if how == 'dict':
        return dict.fromkeys(items, 'value')
    if how == 'deque':
        import collections
        return collections.deque(items)
    return {'list': list, 'tuple': tuple}[how](items)


def distinct(items):
    return list(dict.fromkeys(items))


@st.composite
def series_cases(draw):
    kind = draw(st.sampled_from(['int', 'int', 'text', 'mixed', 'fraction', 'tuple']))
    how = draw(st.sampled_from(GIVEN))
    items = draw(series(kind))
    if how == 'dict':
        items = distinct(items)
    return dict(kind=kind, how=how, items=items, size=draw(st.integers(1, 14)), pad=draw(st.sampled_from([None, 0, 'p', False])),
                length=draw(st.integers(0, 16)), bad=draw(st.sampled_from([0, -1, -5])),
                others=draw(st.lists(st.tuples(series('mixed'), st.sampled_from(['list', 'iterator', 'generator'])),
                                     max_size=3)))


def iteration(case, cov):
    from segpy.util import batched, first, last, pad, pairwise, roundrobin
    items, how, size = case['items'], case['how'], case['size']
    n = len(items)
    cov.nontrivial(n > 1)
    cov.label(how)

    def given():
        return give(items, how)

    # batches
    whole = [items[k:k + size] for k in range(0, n, size)]
    got = list(batched(given(), size))
    check_eq(got, whole, 'batched %d' % size)
    check(all(isinstance(b, list) for b in got), 'batches are lists')
    check(len({id(b) for b in got}) == len(got), 'batches are different lists')
    padded = [b + [case['pad']] * (size - len(b)) for b in whole]
    check_eq(list(batched(given(), size, case['pad'])), padded, 'batched with padding')
    check_eq(list(batched(given(), size, padding=case['pad'])), padded, 'batched with padding')
    raises(ValueError, lambda: batched(given(), case['bad']), 'batch size')
    # batches already handed out are not changed later
    kept = []
    for b in batched(given(), size):
        kept.append((b, list(b)))
    check(all(a == b for a, b in kept), 'batches were changed later')
    # padding
    check_eq(list(itertools.islice(pad(given(), case['pad']), n + 3)), items + [case['pad']] * 3, 'pad for ever')
    m = case['length']
    check_eq(list(pad(given(), case['pad'], m)), (items + [case['pad']] * m)[:m], 'pad to %d' % m)
    check_eq(list(pad(given(), size=m)), (items + [None] * m)[:m], 'pad with None')
    # pairs
    check_eq(list(pairwise(given())), [(items[k], items[k + 1]) for k in range(n - 1)], 'pairwise')
    # interleaving
    everything = [items] + [o for o, _ in case['others']]
    want = [o[k] for k in range(max(map(len, everything))) for o in everything if k < len(o)]
    check_eq(list(roundrobin(given(), *[give(o, h) for o, h in case['others']])), want, 'roundrobin')
    check_eq(list(roundrobin()), [], 'roundrobin of nothing')
    check_eq(list(roundrobin(given())), items, 'roundrobin of one')
    # ends
    if n:
        check(same(first(given()), items[0]), 'first', first(given()), items[0])
        check(same(last(given()), items[-1]), 'last', last(given()), items[-1])
    else:
        raises(ValueError, lambda: first(given()), 'first')
        raises(ValueError, lambda: last(given()), 'last')
    if how in ('iterator', 'generator') and n:
        it = given()
        first(it)
        check_eq(list(it), items[1:], 'first() takes one item')


def same(a, b):
    return a == b and type(a) is type(b)


@st.composite
def test_cases(draw):
    kind = draw(st.sampled_from(['int', 'int', 'text', 'fraction', 'tuple', 'range', 'set', 'float']))
    if kind == 'range':
        items = range(draw(st.integers(-5, 5)), draw(st.integers(-8, 8)), draw(st.sampled_from([1, 2, 3, -1, -2])))
        how = 'range'
    elif kind == 'set':
        items = draw(series(draw(st.sampled_from(['int', 'text', 'tuple', 'fraction']))))
        how = 'set'
    else:
        shape = draw(st.sampled_from(['any', 'sorted', 'reversed', 'constant', 'regular', 'almost']))
        items = draw(st.lists(st.floats(allow_nan=False), max_size=6) if kind == 'float' else series(kind))
        if shape == 'sorted':
            items = sorted(items)
        elif shape == 'reversed':
            items = sorted(items, reverse=True)
        elif shape == 'constant':
            items = [items[0]] * len(items) if items else []
        elif shape in ('regular', 'almost') and kind in ('int', 'fraction'):
            start, step = draw(VALUES[kind]), draw(VALUES[kind])
            items = [start + k * step for k in range(draw(st.integers(0, 8)))]
        if shape == 'almost' and items:
            k = draw(st.sampled_from([0, -1, len(items) // 2]))
            items = list(items)
            if kind in ('int', 'fraction') and draw(st.booleans()):
                # by very little, or among very large numbers
                if kind == 'fraction':
                    items[k] += fractions.Fraction(draw(st.sampled_from([1, -1])), 10**draw(st.integers(3, 40)))
                else:
                    items = [v * 10**30 for v in items]
                    items[k] += draw(st.sampled_from([1, -1, 10**3]))
            else:
                items[k] = draw(VALUES.get(kind, st.floats(allow_nan=False)))
        how = draw(st.sampled_from(GIVEN))
        if how == 'dict':
            items = distinct(items)
    return dict(kind=kind, items=items, how=how, key=draw(st.sampled_from([None, None, 'neg', 'const', 'len', 'half'])))


KEYS = {None: None, 'const': lambda x: 0, 'neg': lambda x: -x, 'half': lambda x: x // 2, 'len': lambda x: len(repr(x))}


def tests(case, cov):
    from segpy.sorted_frozen_set import SortedFrozenSet
    from segpy.util import all_equal, contains_duplicates, is_sorted, measure_stride, minmax
    items, how = case['items'], case['how']
    if how == 'set':
        base = SortedFrozenSet(items)
        items = sorted(set(items))
    elif how == 'range':
        base, items = items, list(items)
    else:
        base = None
    n = len(items)
    cov.nontrivial(n > 1)
    cov.label(how)

    def given():
        return give(items, how) if base is None else base

    key = case['key']
    if key in ('neg', 'half') and any(not isinstance(x, (int, float, fractions.Fraction)) for x in items):
        key = 'len'
    for name in (None, key):
        fn = KEYS[name]
        k = [fn(x) if fn else x for x in items]
        pairs = list(zip(k, k[1:]))
        for reverse in (False, True):
            for dist in (False, True):
                if reverse:
                    want = all(a > b if dist else a >= b for a, b in pairs)
                else:
                    want = all(a < b if dist else a <= b for a, b in pairs)
                got = is_sorted(given(), key=fn, reverse=reverse, distinct=dist)
                check_eq(bool(got), want, 'is_sorted(%r key=%s reverse=%s distinct=%s)' % (items, name, reverse, dist))
                if want:
                    cov.label('sorted')
    check_eq(bool(is_sorted(given())), items == sorted(items), 'is_sorted')
    for order in (sorted(items), sorted(items, reverse=True)):
        check_eq(bool(contains_duplicates(give(order, how) if base is None else order)), len(set(order)) < n, 'duplicates')
    check_eq(bool(all_equal(given())), len(set(items)) <= 1, 'all_equal')
    if n:
        lo, hi = minmax(given())
        check(lo == min(items) and hi == max(items), 'minmax', (lo, hi), items)
    else:
        raises(ValueError, lambda: minmax(given()), 'minmax')
    if n > 1 and all(isinstance(x, (int, fractions.Fraction)) for x in items):
        steps = {b - a for a, b in zip(items, items[1:])}
        want = steps.pop() if len(steps) == 1 else None
        got = measure_stride(given())
        check((got is None) == (want is None) and (got is None or got == want), 'stride', got, want)
        cov.label('stride' if want is not None else 'no stride')


LONG = [100, 101, 255, 256, 257, 1000, 1001, 1024, 1025, 4097, 10001, 65537]


def long_cases(tier, shard, nshards):
    k = 0
    for n in LONG:
        for kind in ('ascending', 'descending', 'constant', 'step', 'plateau'):
            for at in (0, 1, n // 2, n - 3, n - 2, n - 1):
                k += 1
                if k % nshards == shard:
                    yield n, kind, at


def long_series(case, cov):
    """Long series, uniform but for one place."""
    from segpy.util import (all_equal, batched, contains_duplicates, first, is_sorted, last, measure_stride, minmax, pad,
                            pairwise)
    n, kind, at = case
    cov.nontrivial()
    cov.label(kind)
    base = {'ascending': list(range(n)), 'descending': list(range(n, 0, -1)), 'constant': [5] * n,
            'step': list(range(-50, 7 * n - 50, 7)), 'plateau': [k // 2 for k in range(n)]}[kind]
    for change in (0, 1, -1, 2, -100000):
        items = list(base)
        items[at] += change
        for give in (list, iter):
            pairs = list(zip(items, items[1:]))
            for reverse in (False, True):
                for dist in (False, True):
                    order = [(b, a) for a, b in pairs] if reverse else pairs
                    want = all(a < b if dist else a <= b for a, b in order)
                    check_eq(bool(is_sorted(give(items), reverse=reverse, distinct=dist)), want,
                             'is_sorted(%d %s, %+d at %d, reverse=%s distinct=%s)' % (n, kind, change, at, reverse, dist))
            check_eq(bool(all_equal(give(items))), len(set(items)) == 1, 'all_equal')
            check_eq(bool(contains_duplicates(give(sorted(items)))), len(set(items)) < n, 'contains_duplicates')
            check_eq(minmax(give(items)), (min(items), max(items)), 'minmax')
            steps = {b - a for a, b in pairs}
            check_eq(measure_stride(give(items)), steps.pop() if len(steps) == 1 else None, 'measure_stride')
        check(list(pairwise(items)) == pairs, 'pairwise')
        check_eq((first(iter(items)), last(iter(items))), (items[0], items[-1]), 'ends')
    size = at + 1
    whole = [base[k:k + size] for k in range(0, n, size)]
    check(list(batched(iter(base), size)) == whole, 'batched')
    check(list(pad(iter(base), None, n + 300)) == base + [None] * 300, 'pad')


def interval_pairs(tier, shard, nshards):
    n = 6 if tier == 'quick' else 11
    for a in range(-1, n):
        if (a + 1) % nshards == shard:
            for b in range(a, n):
                for c in range(-1, n):
                    for d in range(c, n):
                        yield a, b, c, d


def overlap(case, cov):
    from segpy.util import intervals_are_contiguous, intervals_partially_overlap
    a, b, c, d = case
    cov.nontrivial(b > a and d > c)
    if (a, b) == (c, d):
        want = False
    else:
        want = max(a, c) < min(b, d)
    for make in (range, slice):
        x, y = make(a, b), make(c, d)
        check_eq(bool(intervals_partially_overlap(x, y)), want and x != y, 'overlap of %s and %s' % (x, y))
        check_eq(bool(intervals_partially_overlap(y, x)), want and x != y, 'overlap of %s and %s' % (y, x))
        check_eq(bool(intervals_are_contiguous([x, y])), b == c, 'contiguity of %s and %s' % (x, y))


@st.composite
def wide_pairs(draw):
    """Two intervals of any size, sharing bounds or not."""
    bounds = st.one_of(st.integers(-300, 300), st.integers(-2**40, 2**40), st.sampled_from([0, 64, 65, 240, 400, 3200]))
    pool = draw(st.lists(bounds, min_size=2, max_size=4))
    a, b = sorted(draw(st.tuples(st.sampled_from(pool), st.sampled_from(pool))))
    c, d = sorted(draw(st.tuples(st.sampled_from(pool), st.sampled_from(pool))))
    return a, b, c, d


@st.composite
def interval_cases(draw):
    n = draw(st.integers(0, 6))
    big = draw(st.sampled_from([1, 1, 1, 10**6, 2**40]))
    pos = draw(st.integers(-5, 5)) * big
    intervals = []
    for _ in range(n):
        pos += draw(st.sampled_from([0, 0, 1, 2, 5])) * big
        stop = pos + draw(st.sampled_from([0, 1, 1, 2, 7])) * big
        intervals.append((pos, stop))
        pos = stop
    contiguous = draw(st.booleans())
    if contiguous and intervals:
        moved, at = [], intervals[0][0]
        for a, b in intervals:
            moved.append((at, at + b - a))
            at += b - a
        intervals = moved
        if len(moved) > 1 and draw(st.booleans()):
            k = draw(st.integers(0, n - 1))
            a, b = moved[k]
            delta = draw(st.sampled_from([-1, 1]))
            moved[k] = draw(st.sampled_from([(a + delta, max(b, a + delta)), (a, max(a, b + delta)), (a + delta, b + delta)]))
    return dict(intervals=intervals, type=draw(st.sampled_from(['range', 'slice'])),
                before=draw(st.sampled_from([None, 0, 1, 4])), after=draw(st.sampled_from([None, 0, 1, 4])),
                how=draw(st.sampled_from(['list', 'iterator', 'tuple'])), series=not contiguous)


def intervals(case, cov):
    from segpy.util import complementary_intervals, intervals_are_contiguous
    make = {'range': range, 'slice': slice}[case['type']]
    pairs = case['intervals']
    made = [make(a, b) for a, b in pairs]
    cov.nontrivial(len(pairs) > 1)
    want = all(p[1] == q[0] for p, q in zip(pairs, pairs[1:]))
    cov.label('contiguous' if want else 'not contiguous')
    check_eq(bool(intervals_are_contiguous(give(made, case['how']))), want, 'contiguity of %s' % made)
    if not pairs:
        raises(ValueError, lambda: complementary_intervals([]), 'no intervals')
        return
    if not case['series']:      # these may overlap
        return
    kwargs = {}
    start, stop = pairs[0][0], pairs[-1][1]
    if case['before'] is not None:
        start -= case['before']
        kwargs['start'] = start
    if case['after'] is not None:
        stop += case['after']
        kwargs['stop'] = stop
    given = tuple(made) if case['how'] == 'tuple' else made
    got = list(complementary_intervals(given, **kwargs))
    check_eq(len(got), len(pairs) + 1, 'number of complementary intervals')
    check(all(type(g) is make for g in got), 'type of intervals', got)
    # together they cover everything from start to stop, alternating, each point once
    whole = [got[0]]
    for given_one, g in zip(made, got[1:]):
        whole += [given_one, g]
    at = start
    for w in whole:
        check(w.start == at and w.stop >= w.start and getattr(w, 'step', None) in (None, 1), 'intervals', whole)
        at = w.stop
    check_eq(at, stop, 'end of %s' % whole)


SIZES = [0, 1, 2, 255, 256, 257, 4096, 65535, 65536, 65537, 131071, 131072, 131073, 200000]
ARGS = [None, 0, 1, 'a', 'b', '>', '<', 'ascii', ('a', 1), 2.5, True]


@st.composite
def file_cases(draw):
    n = draw(gen.weighted((3, st.sampled_from(SIZES)), (2, st.integers(0, 300))))
    return dict(n=n, fill=draw(st.integers(0, 255)), edit=draw(st.sampled_from(['none', 'byte', 'append', 'drop', 'swap'])),
                at=draw(st.one_of(st.sampled_from([0, -1, 65535, 65536]), st.integers(0, 10**6))),
                by=draw(st.integers(1, 255)), pos=draw(st.one_of(st.sampled_from([0, 1]), st.integers(0, 300000))),
                args=draw(st.lists(st.integers(0, len(ARGS) - 1), max_size=3)),
                args2=draw(st.one_of(st.none(), st.lists(st.integers(0, len(ARGS) - 1), max_size=3))),
                kind=draw(st.sampled_from(['memory', 'memory', 'disk', 'raw'])))


def files(case, cov):
    from segpy.util import file_length, hash_for_file
    n = case['n']
    data = (bytes((case['fill'] + k) % 256 for k in range(251)) * (n // 251 + 1))[:n]
    other = bytearray(data)
    edit = case['edit']
    if edit == 'byte' and n:
        other[case['at'] % n] = (other[case['at'] % n] + case['by']) % 256
    elif edit == 'append':
        other += bytes([case['by'] % 3]) * (1 + case['at'] % 3)
    elif edit == 'drop' and n:
        del other[case['at'] % n]
    elif edit == 'swap' and n > 1:
        k = case['at'] % (n - 1)
        other[k], other[k + 1] = other[k + 1], other[k]
    other = bytes(other)
    cov.nontrivial(n > 0)
    cov.label('edit ' + edit)
    args = [ARGS[k] for k in case['args']]
    args2 = args if case['args2'] is None else [ARGS[k] for k in case['args2']]
    base = scratch_dir()
    try:
        def hashed(d, a, pos, name):
            with gen.open_bytes(d, case['kind'], base, name) as fh:
                fh.seek(pos)
                check_eq(file_length(fh), len(d), 'file_length')
                check_eq(fh.tell(), pos, 'position after file_length')
                h = hash_for_file(fh, *a)
                check_eq(file_length(fh), len(d), 'file_length')
                check(isinstance(h, str) and h and set(h) <= set('0123456789abcdef'), 'hash', h)
                fh.seek(0)
                check(read_all(fh) == d, 'content afterwards')
                return h
        one = hashed(data, args, case['pos'], 'one')
        check_eq(hashed(data, args, 0, 'two'), one, 'hash of the same content')
        if other != data:
            check(hashed(other, args, case['pos'], 'two') != one, 'same hash for different content', n, edit)
        if ''.join(map(repr, args)) != ''.join(map(repr, args2)):
            check(hashed(data, args2, case['pos'], 'two') != one, 'same hash for arguments', args, args2)
    finally:
        rmtree(base)


def read_all(fh):
    out = b''
    while True:
        piece = fh.read(1 << 20)
        if not piece:
            return out
        out += piece


NAMES = ['', '_', '__', '___', '____', '_____', '__a__', '__init__', 'name', '__name', 'name__', '_a_', '__a_', '_a__', '__x__y__',
         '__1__']


@st.composite
def helper_cases(draw):
    number = st.one_of(st.integers(-20, 20), st.integers(-2**70, 2**70))
    real = st.one_of(number, st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1.0, 1 + 2.0**-52]))
    words = st.lists(st.text(st.sampled_from('abcXYZ01'), min_size=0, max_size=5), min_size=1, max_size=4)
    return dict(integer=draw(number), multiple=draw(st.one_of(st.integers(-3, 12), st.integers(1, 2**40))),
                x=draw(real), y=draw(real), nudge=draw(st.sampled_from([None, -2, -1, 0, 1, 2])),
                words=draw(words), text=draw(st.text(st.sampled_from('ab. Cd.E'), max_size=12)),
                name=draw(st.one_of(st.sampled_from(NAMES), st.text(st.sampled_from('_a'), max_size=7))),
                depth=draw(st.integers(0, 4)), stop=draw(st.integers(0, 4)), data=draw(st.binary(max_size=20)),
                at=draw(st.integers(0, 25)), to=draw(st.integers(0, 25)), read=draw(st.integers(0, 9)))


def helpers(case, cov):
    """Small helpers for numbers, names, classes and file positions."""
    from segpy import util
    cov.nontrivial()
    n, multiple = case['integer'], case['multiple']
    if multiple <= 0:
        raises(ValueError, lambda: util.round_up(n, multiple), 'round_up', n, multiple)
    else:
        check_eq(util.round_up(n, multiple), -(-n // multiple) * multiple, 'round_up', n, multiple)
    check_eq(list(util.single_item_range(n)), [n], 'single_item_range', n)
    x, y = case['x'], case['y']
    sign = (x > y) - (x < y)
    got = util.cmp(x, y)
    check((got > 0) - (got < 0) == sign, 'cmp', x, y, got)
    check_eq(util.sgn(x), (x > 0) - (x < 0), 'sgn', x)
    check(util.identity(x) is x, 'identity')

    if case['nudge'] is not None:       # about one unit of the relative tolerance apart
        scale = max(1.0, abs(float(x))) if abs(x) < 1e300 else 1.0
        y = float(x) + case['nudge'] * 0.75 * scale * 2.0**-20
        if abs(x) < 1e300:
            near = util.almost_equal(float(x), y, 2.0**-20)
            check(bool(near) == (abs(case['nudge']) < 2), 'almost_equal', float(x), y, near)
            check(bool(util.almost_equal(y, float(x), epsilon=2.0**-20)) == (abs(case['nudge']) < 2), 'almost_equal swapped')
            check(util.almost_equal(x, x), 'almost_equal of the same')

    words = case['words']
    check_eq(util.underscores_to_camelcase('_'.join(words)), ''.join(w[:1].upper() + w[1:].lower() for w in words),
             'camel case of', words)
    text = case['text']
    end = text.find('.')
    check_eq(util.first_sentence(text), text if end < 0 else text[:end + 1], 'first sentence of', repr(text))
    check_eq(util.lower_first(text), ''.join(c.lower() if k == 0 else c for k, c in enumerate(text)), 'lower_first', repr(text))
    name = case['name']
    check_eq(bool(util.is_magic_name(name)), name[:2] == '__' == name[-2:] and len(name) > 4, 'is_magic_name', name)

    # a chain of classes, each with an attribute of its own and one redefined
    chain = [object]
    for k in range(case['depth'] + 1):
        chain.append(type('C%d' % k, (chain[-1],), {'own_%d' % k: k, 'shared_x': k}))
    for below, above in zip(chain[1:], chain):
        check(util.super_class(below) is above, 'super_class')
    check(util.super_class(object) is object, 'super_class of object')
    stop = min(case['stop'], case['depth'])
    found = list(util.collect_attributes(chain[-1], chain[1 + stop], lambda k, v: k.startswith(('own_', 'shared_'))))
    want = [(chain[1 + k], 'own_%d' % k, k) for k in range(stop, case['depth'] + 1)]
    want += [(chain[1 + k], 'shared_x', k) for k in range(stop, case['depth'] + 1)]
    check_eq(sorted(found, key=repr), sorted(want, key=repr), 'attributes collected')
    order = [c for c, _, _ in found]
    check(order == sorted(order, key=lambda c: -len(c.__mro__)), 'attributes of derived classes come first')

    fh = io.BytesIO(case['data'])
    fh.seek(case['at'])
    with util.restored_position_seek(fh, case['to']):
        check_eq(fh.tell(), case['to'], 'position inside')
        check_eq(fh.read(case['read']), case['data'][case['to']:case['to'] + case['read']], 'bytes read inside')
    check_eq(fh.tell(), case['at'], 'position restored')
    check_eq(util.filename_from_handle(fh), '<unknown>', 'name of a nameless file')
    for given in ('a.sgy', 'd/a b.sgy', b'bytes.sgy', 7, None):
        fh.name = given = given
        want = '<unknown>' if given in (7, None) else os.fsdecode(given)
        check_eq(util.filename_from_handle(fh), want, 'name of a file named', given)


PROPS = [
    Prop('helpers', helpers, helper_cases, quick=700),
    Prop('iteration', iteration, series_cases, quick=2000, shards=2),
    Prop('tests', tests, test_cases, quick=2500, shards=2),
    Prop('long', long_series, cases=long_cases, shards=3),
    Prop('overlap', overlap, cases=interval_pairs, shards=2),
    Prop('wide_overlap', overlap, wide_pairs, quick=600),
    Prop('intervals', intervals, interval_cases, quick=1500),
    Prop('files', files, file_cases, quick=700, shards=2),
]
