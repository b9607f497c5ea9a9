"""C13: header objects hold exactly the values assigned, within field limits."""
import copy
import gc
import re

from hypothesis import strategies as st

from vf import gen, headers as hd
from vf.core import Prop, Violation, check, check_eq, raises
from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV0, TRACE_FIELDS_REV1

PROPERTY = 'C13'
RULE = ("A case is a header format (a standard one or a generated class) and a history of up to twenty-five operations "
        "on several instances: construction with positional and keyword values, legal and illegal assignments, "
        "copying, unknown names, deletion, comparison, disposal. A dict per instance is the model; all instances are "
        "compared in full after each history, those touched after each step. Non-trivial: two or more live instances "
        "and at least two successful and one refused assignment.")
ASSUMPTIONS = ["Values are integers, text, None or containers.",
               "Numbers given in text are converted to the integers they denote."]


def kind_rows(rows):
    """(name, minimum, maximum, members, default) per field."""
    return [(name, lo, hi, enum, default) for name, pos, size, lo, hi, enum, default in rows]


def spec_rows(spec):
    out = []
    for name, kind, offset, default in hd.fields_of(spec):
        _, size, lo, hi, members, _ = hd.TYPES[kind]
        out.append((name, lo, hi, members, default))
    return out


STANDARD = {'rev1': TRACE_FIELDS_REV1, 'rev0': TRACE_FIELDS_REV0, 'binary': BINARY_FIELDS}


def standard_class(name):
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
    return dict(rev1=TraceHeaderRev1, rev0=TraceHeaderRev0, binary=BinaryReelHeader)[name]


_KINDS = ['new', 'new', 'set', 'set', 'set', 'set', 'set', 'bad', 'bad', 'bad', 'copy', 'copy', 'copy-bad', 'clone',
          'unknown', 'delete', 'equal', 'drop', 'get']
_BAD = st.one_of(st.sampled_from(['low', 'high', 'huge', 'tiny', 'text', 'none', 'list', 'member', 'empty']))


@st.composite
def operations(draw):
    return (draw(st.sampled_from(_KINDS)), draw(st.integers(0, 5)), draw(st.integers(0, 5)),
            draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6)), draw(_BAD),
            draw(st.sampled_from(['int', 'int', 'int', 'str', 'bool', 'field'])))


OPERATIONS = operations()


@st.composite
def cases(draw):
    which = draw(st.sampled_from(['rev1', 'binary', 'rev0', 'generated', 'generated', 'generated']))
    return dict(format=draw(hd.LAYOUTS) if which == 'generated' else which,
                ops=draw(st.lists(OPERATIONS, min_size=draw(st.sampled_from([1, 8, 15])), max_size=25)))


def legal(row, seed):
    name, lo, hi, members, default = row
    if members is not None:
        return members[seed % len(members)]
    near = [lo, hi, 0 if lo <= 0 <= hi else lo, default, min(hi, lo + 1), hi - 1, 1 if lo <= 1 <= hi else lo]
    if seed % 3:
        return near[seed // 3 % len(near)]
    return lo + seed * 7919 % (hi - lo + 1)


def illegal(row, kind, seed):
    name, lo, hi, members, default = row
    if kind == 'member' and members is not None:
        return next(v for v in (1, 2, -1, 4, 6, 9, 12, 77, -77) if v not in members)
    return dict(low=lo - 1 - (seed % 2) * seed, high=hi + 1 + (seed % 2) * seed, huge=2**70, tiny=-2**70,
                text='12 and a half', none=None, list=[1], member=hi + 2, empty='')[kind]


def presented(value, style):
    if style == 'str':
        return str(value)
    if style == 'bool' and value in (0, 1):
        return bool(value)
    return value


class Instance:
    def __init__(self, obj, values):
        self.obj = obj
        self.values = values


def compare(inst, cls, rows, what):
    check(type(inst.obj) is cls, what, 'type', type(inst.obj))
    for row in rows:
        got = getattr(inst.obj, row[0])
        if not (isinstance(got, int) and int(got) == inst.values[row[0]]):
            raise Violation('%s: field %s is %r, expected %r' % (what, row[0], got, inst.values[row[0]]))


def history(case, cov):
    from segpy.header import are_equal
    if isinstance(case['format'], str):
        cls, rows = standard_class(case['format']), kind_rows(STANDARD[case['format']])
        cov.label('standard')
    else:
        cls, rows = hd.build(case['format']), spec_rows(case['format'])
        cov.label(case['format']['shape'])
    names = cls.ordered_field_names()
    check_eq(sorted(names), sorted(r[0] for r in rows), 'field names')
    by_name = {r[0]: r for r in rows}
    declaration_order(case['format'], names, rows)
    details(case['format'], cls)
    declared = [by_name[n] for n in names]
    live = []
    done = refused = most = 0
    for op, a, b, x, y, bad, style in case['ops']:
        inst = live[a % len(live)] if live else None
        other = live[b % len(live)] if live else None
        row = rows[x % len(rows)]
        name = row[0]
        if op == 'new' or inst is None:
            count = [0, 1, 3, len(declared)][y % 4]
            positional = {r[0]: legal(r, y + 13 * k) for k, r in enumerate(declared[:count])}
            keywords = {r[0]: legal(r, x + 17 * k) for k, r in enumerate(rows[x % len(rows):][:x % 3])}
            values = {r[0]: r[4] for r in rows}
            values.update(positional)
            values.update(keywords)
            obj = cls(*[presented(v, style) for v in positional.values()], **keywords)
            live.append(Instance(obj, values))
            done += bool(positional or keywords)
        elif op == 'set':
            value = legal(row, y)
            if style == 'field':
                value = getattr(cls, name).value_type(value)
            setattr(inst.obj, name, presented(value, style))
            inst.values[name] = int(value)
            done += 1
        elif op == 'bad':
            value = illegal(row, bad, y)
            raises((ValueError, TypeError) if value is None or isinstance(value, list) else ValueError,
                   lambda: setattr(inst.obj, name, value), 'assigning %r to %s' % (value, name))
            refused += 1
            if y % 4 == 0:
                raises((ValueError, TypeError), lambda: cls(**{name: value}), 'constructing with %s=%r' % (name, value))
        elif op == 'copy':
            updates = {r[0]: legal(r, y + 5 * k) for k, r in enumerate(rows[x % len(rows):][:y % 3])}
            obj = inst.obj.copy(**updates)
            check(obj is not inst.obj, 'copy() returned the header itself')
            values = dict(inst.values)
            values.update(updates)
            check_eq(are_equal(obj, inst.obj), values == inst.values, 'are_equal() of a copy with %r' % (updates,))
            live.append(Instance(obj, values))
        elif op == 'copy-bad':
            value = illegal(row, bad, y)
            raises((ValueError, TypeError), lambda: inst.obj.copy(**{name: value}), 'copy() with %s=%r' % (name, value))
        elif op == 'clone':
            obj = copy.copy(inst.obj) if x % 2 else copy.deepcopy(inst.obj)
            check(obj is not inst.obj and are_equal(obj, inst.obj), 'copy differs')
            live.append(Instance(obj, dict(inst.values)))
        elif op == 'unknown':
            for unknown in ('no_such_field', name + '_', 'copy', 'LENGTH_IN_BYTES')[:2 + 2 * (y % 2)]:
                if unknown in by_name:
                    continue
                raises(TypeError, lambda: cls(**{unknown: 1}), 'constructing with %s' % unknown)
                raises(TypeError, lambda: inst.obj.copy(**{unknown: 1}), 'copy() with %s' % unknown)
            raises(AttributeError, lambda: inst.obj.no_such_field, 'reading an unknown field')
            raises(AttributeError, lambda: cls.no_such_field, 'reading an unknown field of the class')
        elif op == 'delete':
            raises(AttributeError, lambda: delattr(inst.obj, name), 'deleting ' + name)
        elif op == 'equal':
            check_eq(are_equal(inst.obj, other.obj), inst.values == other.values, 'are_equal()')
            check_eq(are_equal(other.obj, inst.obj), inst.values == other.values, 'are_equal()')
            check(are_equal(inst.obj, inst.obj), 'a header differs from itself')
            twin = type('Twin', (cls,), {})(**inst.values)
            check(not are_equal(inst.obj, twin), 'headers of different types are equal')
            compare(Instance(twin, inst.values), type(twin), rows, 'subclass')
            # equality is that of the values, however they are shown
            own = type('Own', (cls,), {'__repr__': lambda self: 'mine'} if x % 2 else {'__str__': lambda self: 'mine'})
            one, same = own(**inst.values), own(**other.values)
            check_eq(are_equal(one, same), inst.values == other.values, 'are_equal() of headers with their own text')
            value = legal(row, y)
            setattr(one, name, value)
            check_eq(are_equal(one, same), dict(inst.values, **{name: int(value)}) == other.values,
                     'are_equal() of headers with their own text')
        elif op == 'drop':
            live.remove(inst)
            inst.obj = None
            if x % 4 == 0:
                gc.collect(0)
            inst = None
        elif op == 'get':
            defaults(cls, row)
            shown(inst, cls, names)
        most = max(most, len(live))
        if inst is not None:
            compare(inst, cls, rows, 'after ' + op)
    for k, inst in enumerate(live):
        compare(inst, cls, rows, 'instance %d at the end' % k)
    compare(Instance(cls(), {r[0]: r[4] for r in rows}), cls, rows, 'new header')
    for row in rows:
        defaults(cls, row)
    cov.nontrivial(most >= 2 and done >= 2 and refused >= 1)


def declaration_order(spec, names, rows):
    """Positional arguments follow the declaration, those of base classes coming first."""
    if isinstance(spec, str):
        check_eq(list(names), [r[0] for r in rows], 'order of the fields')
        return
    for level in [sum(spec['levels'], [])] if spec['shape'] == 'chain' else spec['levels']:
        own = [f[0] for f in level if spec['shape'] != 'redefined' or f[0] != spec['levels'][0][0][0]]
        if own:
            check_eq([n for n in names if n in own], own, 'order of the fields')


def details(spec, cls):
    """What the class tells of its fields is what was declared."""
    if isinstance(spec, str):
        rows = STANDARD[spec]
        for name, pos, size, lo, hi, enum, default in rows:
            f = getattr(cls, name)
            check_eq((f.name, f.offset, f.value_type.SIZE), (name, pos, size), 'field')
            check(isinstance(f.documentation, str), 'documentation of ' + name)
        return
    for name, kind, offset, default in hd.fields_of(spec):
        f = getattr(cls, name)
        check(f.value_type is hd.TYPES[kind][0], 'type of', name, f.value_type)
        check_eq((f.name, f.offset, f.documentation), (name, offset, 'About %s.' % name), 'field')
        check_eq((f.value_type.SIZE, f.value_type.MINIMUM, f.value_type.MAXIMUM) if hd.TYPES[kind][4] is None else
                 f.value_type.SIZE, hd.TYPES[kind][1:4] if hd.TYPES[kind][4] is None else hd.TYPES[kind][1], 'limits')


def shown(inst, cls, names):
    """The text of a header tells its type and all values."""
    text = repr(inst.obj)
    check(cls.__name__ in text, 'repr() lacks the type', text)
    for name in names:
        check(re.search(r'\b%s=%d(?!\d)' % (re.escape(name), inst.values[name]), text),
              'repr() lacks %s=%d' % (name, inst.values[name]), text)


def defaults(cls, row):
    """What is known about a field on the class."""
    f = getattr(cls, row[0])
    check_eq(f.name, row[0], 'name')
    check_eq(int(f.default), row[4], 'default of', row[0])
    check_eq(int(f.value_type(row[4])), row[4], 'value type of', row[0])


def limit_cases(tier, shard, nshards):
    for which, rows in STANDARD.items():
        for row in rows:
            yield which, row[0]


def limits(case, cov):
    """Every field of the standard headers at and beyond its limits, or for each member and near non-members."""
    which, name = case
    cls = standard_class(which)
    (row,) = [r for r in kind_rows(STANDARD[which]) if r[0] == name]
    _, lo, hi, members, default = row
    cov.nontrivial(True)
    h, bystander = cls(), cls()
    check_eq(int(getattr(h, name)), default, 'default of', name)
    if members is None:
        good, bad = [lo, lo + 1, hi - 1, hi, 0, default], [lo - 1, hi + 1, lo - 2**16, hi + 2**16, 2**31, 2**32, -2**31 - 1]
    else:
        good, bad = list(members), [v for v in range(-20, 40) if v not in members] + [2**15 - 1, 2**16, -2**15]
    bad = [v for v in bad if not (members is None and lo <= v <= hi) and not (members is not None and v in members)]
    for v in good:
        setattr(h, name, v)
        check(int(getattr(h, name)) == v, name, v)
        for w in bad:
            raises(ValueError, lambda: setattr(h, name, w), 'assigning %r to %s' % (w, name))
            check_eq(int(getattr(h, name)), v, '%s after %r was refused' % (name, w))
    check_eq(int(getattr(bystander, name)), default, 'the same field of another header')
    for other in STANDARD[which]:
        if other[0] != name:
            check_eq(int(getattr(h, other[0])), other[6], 'the field', other[0])


PROPS = [
    Prop('history', history, cases, quick=1000, shards=7),
    Prop('limits', limits, cases=limit_cases),
]
