"""C20: the standard textual header template."""
from hypothesis import strategies as st

from vf import texttemplate as tt
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C20'
RULE = ("Any subset of the 92 template fields with values of any length and type (text over any characters, braces and "
        "field names included, integers, floats, None, enumerations) for both revisions. Oracle: a frozen copy of the "
        "template whose placeholders are located by scanning for braces. Each field is also enumerated alone with "
        "values around its width. Non-trivial: at least one value supplied.")

NAMES = [p[0] for p in tt.PLACEHOLDERS]
ENDS = {0: 'END EBCDIC', 256: 'END TEXTUAL HEADER'}
TEXT = st.one_of(
    st.text(st.sampled_from('ABCxyz019 -.:{}'), max_size=20),
    st.text(max_size=8),
    st.integers(0, 90).map(lambda n: ('abcdefghijklmnopqrstuvwxyz' * 4)[:n]),
    st.integers(0, 70).map(lambda n: ' ' * n + 'X'),
    st.sampled_from(['{client}', '{ company }', '{', '}', '{}', '%s', 'END EBCDIC', '\n', 'a\r\nb', '\t', '\u00e9\u20ac']))
VALUES = st.one_of(TEXT, TEXT, st.integers(-10**6, 10**9), st.floats(allow_nan=False), st.none(), st.booleans())


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['few', 'few', 'many', 'all']))
    if kind == 'few':
        names = draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True))
    elif kind == 'many':
        start, step = draw(st.integers(0, 91)), draw(st.sampled_from([1, 3, 5, 7, 11]))
        names = sorted({NAMES[(start + k * step) % 92] for k in range(draw(st.integers(6, 80)))},
                       key=NAMES.index, reverse=draw(st.booleans()))
    else:
        names = NAMES
    some = draw(st.lists(VALUES, min_size=1, max_size=5))
    values = {n: some[k % len(some)] for k, n in enumerate(names)}
    return dict(values=values, revision=draw(st.sampled_from([0, 256])), enum=draw(st.booleans()),
                kind=draw(st.sampled_from(['list', 'tuple'])))


def expected(values, revision):
    lines = list(tt.LINES)
    values = dict(values)
    values.setdefault('end_marker', ENDS[revision])
    for name, row, start, end in tt.PLACEHOLDERS:
        width = end - start
        text = str(values.get(name, ''))[:width]
        lines[row] = lines[row][:start] + text + ' ' * (width - len(text)) + lines[row][end:]
    return lines


def formatting(case, cov):
    from segpy.revisions import SegYRevision
    from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
    values = case['values']
    cov.nontrivial(values)
    cov.label('revision %d' % case['revision'])
    cov.label('no values' if not values else 'all fields' if len(values) == 92 else 'some fields')
    revision = SegYRevision(case['revision']) if case['enum'] else case['revision']
    before = dict(values)
    lines = format_standard_textual_header(revision, **values)
    check_eq(values, before, 'arguments')
    want = expected(values, case['revision'])
    check_eq(len(lines), 40, 'lines')
    check_eq([len(line) for line in lines], [80] * 40, 'lengths')
    check_eq(list(lines), want, 'header')
    check_parse(lines, values, case['revision'], case['kind'])
    # formatting what was parsed gives the same header again, but for leading space
    parsed = parse_standard_textual_header(lines)
    check_eq(list(format_standard_textual_header(revision, **parsed)), expected(parsed, case['revision']), 'again')


def check_parse(lines, values, revision, kind='list'):
    from segpy.toolkit import parse_standard_textual_header
    parsed = parse_standard_textual_header(tuple(lines) if kind == 'tuple' else list(lines))
    check_eq(list(parsed), NAMES, 'field names')
    want = {}
    for name, row, start, end in tt.PLACEHOLDERS:
        text = str(values[name]) if name in values else ENDS[revision] if name == 'end_marker' else ''
        want[name] = text[:end - start].strip()
    check_eq(dict(parsed), want, 'parsed')


def field_cases(tier, shard, nshards):
    for k, (name, row, start, end) in enumerate(tt.PLACEHOLDERS):
        width = end - start
        for n in sorted({1, width - 1, width, width + 1, 200}):
            yield name, ''.join(chr(33 + (i * 7 + k) % 90) for i in range(n)), 256 if k % 2 else 0
        yield name, '  ' + 'v' * (width - 2), 256
        yield name, k - 40, 0


def one_field(case, cov):
    from segpy.toolkit import format_standard_textual_header
    name, value, revision = case
    cov.nontrivial(True)
    lines = format_standard_textual_header(revision=revision, **{name: value})
    check_eq(list(lines), expected({name: value}, revision), 'header with', name)
    check_parse(lines, {name: value}, revision)


@st.composite
def arbitrary_headers(draw):
    """Cards which were not made from the template."""
    some = draw(st.lists(st.one_of(st.text(st.characters(max_codepoint=255), max_size=80),
                                   st.text(st.sampled_from('C0 12AB:'), min_size=60, max_size=80)), max_size=5))
    return [(some[k % len(some)] if some else '').ljust(80) for k in range(40)]


def parsing(lines, cov):
    from segpy.toolkit import parse_standard_textual_header
    cov.nontrivial(any(line.strip() for line in lines))
    parsed = parse_standard_textual_header(lines)
    check_eq(list(parsed.items()), [(name, lines[row][start:end].strip()) for name, row, start, end in tt.PLACEHOLDERS],
             'parsed')


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(['name', 'number', 'length', 'two lengths']))
    if kind == 'name':
        known = draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True))
        bad = draw(st.one_of(st.sampled_from(['client2', 'Client', 'crew', 'd', '', 'endmarker', 'reelnum', 'client ',
                                              'amplitude_recovery', 'unassigned0', 'unassigned18', 'processing3',
                                              'other', 'type', 'fields', 'encoding']),
                             st.text(st.sampled_from('abc_xyz12'), min_size=1, max_size=10)))
        if bad in NAMES:
            bad += '_'
        return dict(kind=kind, known=known, bad=bad, revision=draw(st.sampled_from([0, 256])))
    if kind == 'number':
        return dict(kind=kind, n=draw(st.sampled_from([0, 1, 39, 41, 80, 20])))
    if kind == 'length':
        return dict(kind=kind, line=draw(st.integers(0, 39)), n=draw(st.sampled_from([0, 1, 79, 81, 82, 160, 40])))
    # the total length is right
    a, b = draw(st.lists(st.integers(0, 39), min_size=2, max_size=2, unique=True))
    return dict(kind=kind, a=a, b=b, n=draw(st.sampled_from([1, 2, 40, 80])))


def refused(case, cov):
    from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
    cov.nontrivial(True)
    cov.label(case['kind'])
    if case['kind'] == 'name':
        kwargs = {n: 'x' for n in case['known']}
        kwargs[case['bad']] = 'y'
        raises(TypeError, lambda: format_standard_textual_header(case['revision'], **kwargs), case['bad'])
        return
    if case['kind'] == 'number':
        lines = [' ' * 80] * case['n']
    elif case['kind'] == 'length':
        lines = [' ' * 80] * 40
        lines[case['line']] = 'x' * case['n']
    else:
        lines = [' ' * 80] * 40
        lines[case['a']] = ' ' * (80 - case['n'])
        lines[case['b']] = ' ' * (80 + case['n'])
    raises(ValueError, lambda: parse_standard_textual_header(lines), 'misshapen header')


PROPS = [
    Prop('formatting', formatting, cases, quick=600, shards=4),
    Prop('each_field', one_field, cases=field_cases),
    Prop('parsing', parsing, arbitrary_headers, quick=400),
    Prop('refused', refused, bad_cases, quick=400),
]
