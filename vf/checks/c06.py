"""C06: dimensionality is inferred from the headers or forced."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq

PROPERTY = 'C06'
RULE = ("A case is the (CDP, inline, crossline) triples of a file's traces - grids, series with and without duplicates, "
        "constant values, permutations - with a byte order, trace header format and requested dimensionality. The "
        "expected kind follows from Python sets. Non-trivial: at least two traces.")
ASSUMPTIONS = ["Nothing is claimed of files without traces, nor of a forced dimensionality whose index cannot be built."]


@st.composite
def cases(draw):
    n = draw(gen.weighted((6, st.integers(1, 9)), (1, st.integers(10, 150))))
    kind = draw(st.sampled_from(['grid', 'series', 'series', 'near']))
    if kind == 'grid':
        pairs = draw(gen.grids(3 if n < 10 else 12))
        at = [(c, i, j) for c, (i, j) in zip(draw(gen.number_series(len(pairs))), pairs)]
    else:
        one = st.one_of(gen.number_series(n), st.just([0] * n), st.just([5] * n))
        at = list(zip(draw(one), draw(one), draw(one)))
    if kind in ('grid', 'near') and len(at) > 1:
        # exactly one duplicate of a position, perhaps far away from the original
        a, b = draw(st.integers(0, len(at) - 1)), draw(st.integers(0, len(at) - 1))
        what = draw(st.sampled_from(['none', 'pair', 'cdp', 'inline', 'both']))
        if what in ('pair', 'both'):
            at[b] = (at[b][0], at[a][1], at[a][2])
        if what in ('cdp', 'both'):
            at[b] = (at[a][0],) + at[b][1:]
        if what == 'inline':
            at[b] = (at[b][0], at[a][1], at[b][2])
    return dict(at=at, endian=draw(st.sampled_from('<>')), fmt=draw(st.sampled_from(gen.FMTS)),
                thf=draw(st.sampled_from(['rev1', 'rev1', 'rev1', 'compact', 'shuffled', 'ext', 'rev0', 'lines', 'inline',
                                          'xline'])),
                lengths=[draw(st.integers(0, 3)) for _ in at] if len(at) < 12 else [2] * len(at),
                dimensionality=draw(st.sampled_from([None, None, None, 1, 2, 3])))


def expected(case):
    at = case['at']
    unique_pairs = len({(i, j) for c, i, j in at}) == len(at) and case['thf'] not in ('rev0', 'inline', 'xline')
    unique_cdps = len({c for c, i, j in at}) == len(at) and case['thf'] not in ('lines', 'inline')
    forced = case['dimensionality']
    if forced is None:
        return 3 if unique_pairs else 2 if unique_cdps else 1
    if forced == 3:
        return 3 if unique_pairs else None
    if forced == 2:
        return 2 if unique_cdps else None
    return 1


def dimensionality(case, cov):
    from segpy.reader import SegYReader, SegYReader2D, SegYReader3D
    at = case['at']
    want = expected(case)
    reader = gen.survey_reader(at, case['endian'], case['fmt'], case['lengths'], case['thf'], case['dimensionality'])
    cov.label('expected %s' % want + (' forced' if case['dimensionality'] else ''))
    cov.nontrivial(len(at) > 1)
    check(isinstance(reader, SegYReader), 'a reader')
    check_eq(reader.num_traces(), len(at), 'number of traces')
    if want is None:
        return
    check_eq(isinstance(reader, SegYReader3D), want == 3, 'is a 3D reader')
    check_eq(isinstance(reader, SegYReader2D), want == 2, 'is a 2D reader')
    check_eq(reader.dimensionality, want if want > 1 else 1 if len(at) == 1 else 0, 'dimensionality')
    # the index of the kind chosen is there and right, the others are not
    check_eq(hasattr(reader, 'cdp_numbers'), want == 2, 'has CDP numbers')
    check_eq(hasattr(reader, 'inline_numbers'), want == 3, 'has inline numbers')
    if want == 2:
        check_eq(sorted(reader.cdp_numbers()), sorted(c for c, i, j in at), 'CDP numbers')
        for k, (c, i, j) in enumerate(at):
            check_eq(reader.trace_index(c), k, 'trace index of', c)
    if want == 3:
        check_eq(sorted(reader.inline_xline_numbers()), sorted((i, j) for c, i, j in at), 'pairs')
        for k, (c, i, j) in enumerate(at):
            check_eq(reader.trace_index((i, j)), k, 'trace index of', (i, j))


def small_cases(tier, shard, nshards):
    """All files of up to four traces over two values per number."""
    import itertools
    k = 0
    for n in range(1, 5 if tier == 'thorough' else 4):
        for at in itertools.product(itertools.product((1, 2), (0, 1), (1, 2)), repeat=n):
            for dim in (None, 1, 2, 3):
                k += 1
                if k % nshards == shard:
                    yield dict(at=list(at), endian='>', fmt='int8', lengths=[1] * n, thf='rev1', dimensionality=dim)


PROPS = [
    Prop('dimensionality', dimensionality, cases, quick=500, shards=6),
    Prop('all_small', dimensionality, cases=small_cases, shards=2),
]
