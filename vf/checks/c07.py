"""C07: the CDP index of 2D surveys."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C07'
RULE = ("A case is a list of distinct CDP numbers in file order (regular, strided, reversed, permuted, gappy, nearly "
        "regular, arbitrary, extreme), with probes among and around them. Oracle: a dict. Non-trivial: at least three "
        "traces. Also virtual lines of tens of thousands of traces.")


@st.composite
def series(draw, n):
    s = draw(gen.number_series(n))
    if len(set(s)) != len(s):
        s = list(dict.fromkeys(s))
    return s


@st.composite
def cases(draw):
    n = draw(gen.weighted((6, st.integers(1, 12)), (2, st.integers(12, 60)), (1, st.integers(100, 400))))
    cdps = draw(series(n))
    # not a 3D survey: repeated positions, unless forced
    forced = draw(st.booleans())
    thf = draw(st.sampled_from(['rev1', 'rev1', 'rev0', 'compact', 'shuffled']))
    if len(cdps) == 1 and thf != 'rev0':
        forced = True
    return dict(cdps=cdps, forced=forced, endian=draw(st.sampled_from('<>')), thf=thf,
                constant=draw(st.sampled_from([0, 7])),
                probes=draw(st.lists(st.one_of(st.integers(-60, 2100), st.integers(-2**31, 2**31 - 1),
                                               st.integers(-2**40, 2**40)), max_size=6)))


def index_2d(case, cov):
    cdps = case['cdps']
    cov.nontrivial(len(cdps) > 2)
    ascending = sorted(cdps)
    cov.label('ascending' if ascending == cdps else 'descending' if ascending[::-1] == cdps else 'other order')
    steps = {b - a for a, b in zip(ascending, ascending[1:])}
    cov.label('regular' if len(steps) < 2 else 'irregular')
    if case['forced']:
        at = [(c, 1, k) for k, c in enumerate(cdps)]
    else:
        at = [(c, case['constant'], case['constant']) for c in cdps]
    lengths = [k % 3 for k in range(len(cdps))]
    reader = gen.survey_reader(at, case['endian'], 'int8', lengths, case['thf'], 2 if case['forced'] else None)
    check_eq(reader.dimensionality, 2, 'dimensionality')
    check_index(reader, cdps, case['probes'])


def check_index(reader, cdps, extra_probes):
    want = {c: k for k, c in enumerate(cdps)}
    ascending = sorted(cdps)
    numbers = reader.cdp_numbers()
    check_eq(list(numbers), ascending, 'CDP numbers')
    check_eq(len(numbers), len(ascending), 'length of CDP numbers')
    check_eq(reader.num_cdps(), len(ascending), 'number of CDPs')
    check_eq([numbers[k] for k in range(len(ascending))], ascending, 'CDP numbers by index')
    check_eq(numbers[-1], ascending[-1], 'last CDP number')
    for c, k in want.items():
        check(reader.has_trace_index(c), 'has_trace_index of present CDP', c)
        check_eq(reader.trace_index(c), k, 'trace index of CDP', c)
        check(c in numbers, 'present CDP in CDP numbers', c)
    for k in range(min(len(cdps), 20)):
        i = reader.trace_index(cdps[-1 - k])
        check_eq(int(reader.trace_header(i).ensemble_num), cdps[-1 - k], 'CDP in the header of the trace found')
    probes = {ascending[0] - 1, ascending[-1] + 1, ascending[0] - 1000, ascending[-1] + 1000, 0, -ascending[0]}
    for a, b in zip(ascending[:60], ascending[1:60]):
        probes |= {a + 1, b - 1, (a + b) // 2}
    probes |= set(extra_probes)
    probes |= set(range(len(cdps))[:5])
    for p in sorted(probes - set(want)):
        check(not reader.has_trace_index(p), 'has_trace_index of absent CDP', p)
        raises(KeyError, lambda: reader.trace_index(p), 'trace index of absent CDP', p)
        check(p not in numbers, 'absent CDP in CDP numbers', p)
    check_eq(list(reader.cdp_numbers()), ascending, 'CDP numbers again')


LARGE_ORDERS = {
    'ascending': lambda n: lambda i: 100 + i,
    'strided': lambda n: lambda i: -4000 + 5 * i,
    'descending': lambda n: lambda i: 10**6 - 3 * i,
    'one gap': lambda n: lambda i: 7 + i + (i > n // 3),
    'nearly regular': lambda n: lambda i: 2 * i + (i == n - 2),
    'shuffled': lambda n: lambda i: i * 7919 % 1000003,
    'extremes': lambda n: lambda i: -2**31 + i if i % 2 else 2**31 - 1 - i,
}


def large_cases(tier, shard, nshards):
    for k, order in enumerate(LARGE_ORDERS):
        if k % nshards == shard:
            yield order, 20000 if k % 2 else 66000


def large(case, cov):
    """Lines of tens of thousands of traces."""
    order, n = case
    cdp = LARGE_ORDERS[order](n)
    cov.nontrivial()
    cov.label(order)
    survey = gen.VirtualSurvey(n, [1, 0], lambda i: (cdp(i), 0, 0), 'int8', '<' if n % 3 else '>')
    reader = gen.virtual_reader(survey)
    check_eq(reader.dimensionality, 2, 'dimensionality')
    want = {cdp(i): i for i in range(n)}
    ascending = sorted(want)
    numbers = reader.cdp_numbers()
    check_eq(list(numbers), ascending, 'CDP numbers')
    check_eq(reader.num_cdps(), n, 'number of CDPs')
    probes = gen.virtual_probes(survey)
    for i in probes + list(range(0, n, 997)):
        c = cdp(i)
        check_eq(reader.trace_index(c), i, 'trace index of CDP', c)
        check_eq(int(reader.trace_header(i).ensemble_num), c, 'CDP of trace', i)
        for p in (c, c - 1, c + 1, -c):
            check_eq(reader.has_trace_index(p), p in want, 'has_trace_index', p)
    for p in (ascending[0] - 1, ascending[-1] + 1, 2**40, n, -n):
        if p not in want:
            raises(KeyError, lambda: reader.trace_index(p), 'trace index of absent CDP', p)


PROPS = [
    Prop('large', large, cases=large_cases, shards=4),
    Prop('index', index_2d, cases, quick=500, shards=8),
]
