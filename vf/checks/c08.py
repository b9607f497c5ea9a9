"""C08: the inline/crossline index of 3D surveys."""
import itertools

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C08'
RULE = ("A case is a list of distinct (inline, crossline) pairs in file order: complete and incomplete, regular and "
        "irregular grids, stored inline- or crossline-major, reversed, serpentine, shuffled or nearly regular, plus "
        "arbitrary point sets; probes are absent combinations of present lines and neighbours. Oracle: a dict. "
        "Non-trivial: at least two inlines and two crosslines. Also virtual surveys of tens of thousands of traces.")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['grid', 'grid', 'grid', 'large', 'points', 'line']))
    if kind == 'grid':
        pairs = draw(gen.grids(5))
    elif kind == 'large':
        pairs = draw(gen.grids(14))
    elif kind == 'line':
        n = draw(st.integers(1, 12))
        other = draw(st.integers(-5, 5))
        series = list(dict.fromkeys(draw(gen.number_series(n))))
        pairs = [(v, other) if draw(st.booleans()) else (v, other) for v in series]
        if draw(st.booleans()):
            pairs = [(j, i) for i, j in pairs]
    else:
        pairs = draw(st.lists(st.tuples(gen.coordinates(), gen.coordinates()), min_size=1, max_size=12, unique=True))
    return dict(pairs=list(pairs), endian=draw(st.sampled_from('<>')),
                thf=draw(st.sampled_from(['rev1', 'rev1', 'compact', 'shuffled'])),
                dimensionality=draw(st.sampled_from([None, None, 3])), cdp=draw(st.sampled_from(['same', 'unique'])),
                probes=draw(st.lists(st.tuples(gen.coordinates(), gen.coordinates()), max_size=4)))


def index_3d(case, cov):
    pairs = case['pairs']
    ii, jj = sorted({i for i, j in pairs}), sorted({j for i, j in pairs})
    cov.nontrivial(len(ii) > 1 and len(jj) > 1)
    cov.label('complete' if len(ii) * len(jj) == len(pairs) else 'incomplete')
    at = [(k if case['cdp'] == 'unique' else 3, i, j) for k, (i, j) in enumerate(pairs)]
    reader = gen.survey_reader(at, case['endian'], 'int8', [k % 3 for k in range(len(at))], case['thf'],
                               case['dimensionality'])
    check_eq(reader.dimensionality, 3, 'dimensionality')
    check_index(reader, pairs, case['probes'])


def check_index(reader, pairs, extra_probes):
    want = {p: k for k, p in enumerate(pairs)}
    ii, jj = sorted({i for i, j in pairs}), sorted({j for i, j in pairs})
    for name, numbers, count, expected in (('inline', reader.inline_numbers(), reader.num_inlines(), ii),
                                           ('crossline', reader.xline_numbers(), reader.num_xlines(), jj)):
        check_eq(list(numbers), expected, name, 'numbers')
        check_eq(count, len(expected), 'number of', name, 'numbers')
        check_eq(len(numbers), len(expected), 'length of', name, 'numbers')
        check_eq([numbers[k] for k in range(len(expected))], expected, name, 'numbers by index')
        for v in expected[:30]:
            check(v in numbers, name, 'number present', v)
            for p in (v - 1, v + 1):
                check_eq(p in numbers, p in set(expected), name, 'number', p, 'present')
    listed = list(reader.inline_xline_numbers())
    check_eq(len(listed), len(pairs), 'number of pairs')
    check_eq(sorted(map(tuple, listed)), sorted(pairs), 'pairs')
    for p, k in want.items():
        check(reader.has_trace_index(p), 'has_trace_index of present pair', p)
        check_eq(reader.trace_index(p), k, 'trace index of pair', p)
    for i, j in pairs[-15:]:
        h = reader.trace_header(reader.trace_index((i, j)))
        check_eq((int(h.inline_number), int(h.crossline_number)), (i, j), 'position in the header of the trace found')
    probes = set(itertools.product(ii[:12] + [ii[0] - 1, ii[-1] + 1], jj[:12] + [jj[0] - 1, jj[-1] + 1]))
    for i, j in pairs[:12]:
        probes |= {(i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1), (j, i), (i + 1, j - 1), (i - 1, j + 1), (-i, -j)}
    probes |= set(extra_probes) | {(0, 0), (2**33, 2**33)}
    for a, b in zip(ii[:12], ii[1:12]):
        probes.add(((a + b) // 2, jj[0]))
    for a, b in zip(jj[:12], jj[1:12]):
        probes.add((ii[0], (a + b) // 2))
    for p in sorted(probes - set(want)):
        check(not reader.has_trace_index(p), 'has_trace_index of absent pair', p)
        raises(KeyError, lambda: reader.trace_index(p), 'trace index of absent pair', p)


def subset_cases(tier, shard, nshards):
    """Every non-empty subset of a 3x3 (thorough: 4x3) grid, in file orders both ways."""
    rows, cols = (4, 3) if tier == 'thorough' else (3, 3)
    grid = [(i, j) for i in range(rows) for j in range(cols)]
    k = 0
    for mask in range(1, 1 << len(grid)):
        for order in (0, 1, 2):
            k += 1
            if k % nshards != shard:
                continue
            pairs = [(10 + 2 * i, 5 + j) for n, (i, j) in enumerate(grid) if mask >> n & 1]
            if order == 1:
                pairs.sort(key=lambda p: p[::-1])
            if order == 2:
                pairs.reverse()
            yield dict(pairs=pairs, endian='>', thf='rev1', dimensionality=None, cdp='same', probes=[])


LARGE_GRIDS = {
    # name: position of trace i of a survey with c crosslines, and the number of traces
    'complete': (lambda i, c: (1000 + i // c, 2000 + 2 * (i % c)), 70000, 260),
    'crossline-major': (lambda i, c: (5 + i % c, 1 + i // c), 40000, 200),
    'descending': (lambda i, c: (9000 - i // c, 500 - 3 * (i % c)), 30000, 150),
    'incomplete': (lambda i, c: (i // c, i % c + (i // c) % 7), 30003, 170),
    'serpentine': (lambda i, c: (i // c, i % c if (i // c) % 2 == 0 else c - 1 - i % c), 20000, 100),
    'last one elsewhere': (lambda i, c: (i // c, i % c) if i != 19999 else (200, 3), 20000, 100),
    'two inlines': (lambda i, c: (i // c, i % c), 66000, 33000),
    'diagonal': (lambda i, c: (i, i), 3000, 1),
}


def large_cases(tier, shard, nshards):
    for k, name in enumerate(LARGE_GRIDS):
        if k % nshards == shard:
            yield name


def large(case, cov):
    """Surveys of tens of thousands of traces."""
    position, n, c = LARGE_GRIDS[case]
    cov.nontrivial()
    cov.label(case)
    survey = gen.VirtualSurvey(n, [0, 1, 0], lambda i: (3,) + position(i, c), 'int8', '>' if n % 3 else '<')
    reader = gen.virtual_reader(survey)
    check_eq(reader.dimensionality, 3, 'dimensionality')
    want = {position(i, c): i for i in range(n)}
    ii, jj = sorted({i for i, j in want}), sorted({j for i, j in want})
    check_eq(list(reader.inline_numbers()), ii, 'inline numbers')
    check_eq(list(reader.xline_numbers()), jj, 'crossline numbers')
    check_eq((reader.num_inlines(), reader.num_xlines()), (len(ii), len(jj)), 'numbers of lines')
    count = 0
    for pair in reader.inline_xline_numbers():
        count += 1
        if count % 501 == 1:
            check(tuple(pair) in want, 'pair listed which is absent', pair)
    check_eq(count, n, 'number of pairs')
    probes = gen.virtual_probes(survey)
    for k in probes + list(range(0, n, 997)):
        i, j = position(k, c)
        check_eq(reader.trace_index((i, j)), k, 'trace index of', (i, j))
        h = reader.trace_header(k)
        check_eq((int(h.inline_number), int(h.crossline_number)), (i, j), 'position of trace', k)
        for p in ((i, j), (i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1), (j, i), (i + 1, j - 1)):
            check_eq(reader.has_trace_index(p), p in want, 'has_trace_index', p)
            if p not in want:
                raises(KeyError, lambda: reader.trace_index(p), 'trace index of absent pair', p)


PROPS = [
    Prop('large', large, cases=large_cases, shards=4),
    Prop('index', index_3d, cases, quick=400, shards=7),
    Prop('all_subsets', index_3d, cases=subset_cases, shards=2),
]
