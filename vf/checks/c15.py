"""C15: invalid header formats are rejected, and sub-formats select fields faithfully."""
from hypothesis import strategies as st

from vf import gen, headers as hd
from vf.core import Prop, Violation, check, check_eq, raises
from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV0, TRACE_FIELDS_REV1

PROPERTY = 'C15'
RULE = ("A case is a header class with up to six fields at arbitrary offsets of a small range (overlapping, coincident, "
        "beyond the length, before the start, or fine; biased towards one defect at a time), judged by the sets of "
        "bytes the fields cover; or a valid generated or standard format with a chosen subset of its fields, read "
        "through the sub-format and through the parent. Non-trivial: a rejected format or one with adjacent or "
        "coincident fields; a proper sub-format with at least one field; a field type of two members or with limits.")


@st.composite
def formats(draw):
    start = draw(st.sampled_from([None, 0, 1, 1, 3]))
    base = start or 0
    if draw(st.integers(0, 2)):
        # a valid format with one field moved, retyped or added
        spec = draw(hd.LAYOUTS)
        fields = hd.fields_of(spec)
        start, base = spec['start'], spec['start'] or 0
        length = spec['length']
        k = draw(st.integers(0, len(fields) - 1))
        name, kind, offset, default = fields[k]
        change = draw(st.sampled_from(['none', 'move', 'type', 'add', 'length', 'start', 'shrink']))
        if change == 'move':
            fields[k] = (name, kind, max(0, offset + draw(st.sampled_from([-4, -3, -2, -1, 1, 2, 3, 4]))), default)
        elif change == 'type':
            fields[k] = (name, draw(st.sampled_from(hd.TYPE_NAMES)), offset, 0)
        elif change == 'add':
            fields.insert(draw(st.integers(0, len(fields))),
                          ('another_one', draw(st.sampled_from(hd.TYPE_NAMES)),
                           max(0, offset + draw(st.integers(-4, 4))), 0))
        elif change in ('length', 'shrink'):
            end = max(f[2] + hd.SIZES[f[1]] for f in fields) - base
            length = draw(st.sampled_from([end - 1, end - 1, end, end + 1, 1, 0, -3, end // 2]))
        elif change == 'start':
            start = base + draw(st.sampled_from([-1, 1, 2, 4, -1 - base, -4 - base]))
    else:
        fields = []
        for name in hd.FIELD_NAMES[:draw(st.integers(0, 5))]:
            fields.append((name, draw(st.sampled_from(hd.TYPE_NAMES)), base + draw(st.integers(0, 12)), 0))
        length = draw(st.sampled_from([None, None, 16, 20, 10, 4]))
    return dict(start=start, length=length, **draw(hd.arrangements([tuple(f) for f in fields])))


def verdict(spec):
    """The exceptions which are due; an empty set if the format is valid."""
    start, length = spec['start'] or 0, spec['length']
    fields = hd.fields_of(spec)
    if not fields:
        return {TypeError} if start >= 0 and (length is None or length >= 1) else {TypeError, ValueError}
    due = set()
    if start < 0:
        due.add(ValueError)
    if length is not None and length < 1:
        due.add(ValueError)
    spans = [(frozenset(range(f[2], f[2] + hd.SIZES[f[1]])), f[1]) for f in fields]
    for i, (a, s) in enumerate(spans):
        for b, t in spans[:i]:
            if a & b and a != b:
                due.add(ValueError)
            elif a == b and s != t:
                due.add(TypeError)
    covered = frozenset().union(*[a for a, _ in spans])
    if min(covered) < start:
        due.add(ValueError)
    if length is not None and max(covered) >= start + length:
        due.add(ValueError)
    return due


def validity(case, cov):
    from segpy.packer import make_header_packer, compile_struct
    due = verdict(case)
    cls = hd.build(case)
    for endian in '><':
        for make in (lambda: make_header_packer(cls, endian),
                     lambda: compile_struct(cls, case['start'] or 0, case['length'], endian)):
            if due:
                raises(tuple(due), make, 'an invalid format')
            else:
                try:
                    make()
                except Exception as e:
                    raise Violation('a valid format was refused: %r' % e) from e
    cov.label('+'.join(sorted(e.__name__ for e in due)) or 'valid')
    fields = hd.fields_of(case)
    cov.nontrivial(due or len({f[2] for f in fields}) < len(fields) or
                   {f[2] + hd.SIZES[f[1]] for f in fields} & {f[2] for f in fields})


# --------------------------------------------------------------------------------------------------------- sub-formats

STANDARD = {'rev1': (TRACE_FIELDS_REV1, 1), 'rev0': (TRACE_FIELDS_REV0, 1), 'binary': (BINARY_FIELDS, 3201)}
_TYPE_OF = {(4, False): 'Int32', (4, True): 'NNInt32', (2, False): 'Int16', (2, True): 'NNInt16'}


@st.composite
def sub_cases(draw):
    which = draw(st.sampled_from(['generated', 'generated', 'generated', 'rev1', 'rev0', 'binary']))
    if which == 'generated':
        spec = draw(hd.LAYOUTS)
        names = [f[0] for f in hd.fields_of(spec)]
        values = draw(hd.assignments(spec))
    else:
        spec = which
        names = [r[0] for r in STANDARD[which][0]]
        values = draw(gen.FILL)
    chosen = draw(st.permutations(names)) if len(names) < 10 else draw(
        st.lists(st.sampled_from(names), min_size=1, max_size=8, unique=True))
    chosen = chosen[:draw(st.integers(0, len(chosen)))] if len(names) < 10 else chosen
    return dict(format=spec, values=values, chosen=list(chosen), deeper=draw(st.integers(0, 3)),
                endian=draw(st.sampled_from('><')), own=draw(st.booleans()),
                as_iterator=draw(st.booleans()), noise=draw(gen.FILL))


def sub_formats(case, cov):
    from segpy.header import Header, SubFormatMeta
    from segpy.packer import make_header_packer
    from vf import refsegy as ref
    from vf.checks.c13 import standard_class
    from vf.checks.c14 import noise
    spec, endian = case['format'], case['endian']
    if isinstance(spec, str):
        cls = standard_class(spec)
        table, start = STANDARD[spec]
        values = gen.fill_values(case['values'], table)
        length = 400 if spec == 'binary' else 240
        buffer = ref.encode_header(values, table, start, length, endian, noise(length, case['noise']))
        declared_length = length
        position = {r[0]: (r[1] - start, r[2]) for r in table}
        default = {r[0]: r[6] for r in table}
    else:
        cls = hd.build(spec)
        values = case['values']
        buffer = hd.place(spec, values, endian, noise(hd.length_of(spec), case['noise']))
        declared_length = spec['length']
        position = {f[0]: (f[2] - (spec['start'] or 0), hd.SIZES[f[1]]) for f in hd.fields_of(spec)}
        default = {f[0]: f[3] for f in hd.fields_of(spec)}
    parent = cls
    names = case['chosen']
    subs = []
    body = {'__doc__': 'A sub-format.', 'label': 'mine'} if case['own'] else {}
    for depth in range(1 + (case['deeper'] == 0)):
        requested = iter(names) if case['as_iterator'] else names
        sub = SubFormatMeta('Sub%d' % depth, (), dict(body), parent_format=parent, parent_field_names=requested)
        subs.append((sub, list(names)))
        parent, names = sub, names[::2]
    raises(AttributeError, lambda: SubFormatMeta('Bad', (), {}, parent_format=cls,
                                                 parent_field_names=['no_such_field']), 'an unknown field')
    # a sub-format offers no more than its own fields to further ones
    for sub, own in subs:
        for name in [n for n in position if n not in own][:4]:
            raises(AttributeError, lambda: SubFormatMeta('Bad', (), {}, parent_format=sub, parent_field_names=[name]),
                   'the field %s of the original alone' % name)
            raises(AttributeError, lambda: getattr(sub, name), 'the field %s of the original alone' % name)
    whole = make_header_packer(cls, endian).unpack(buffer)
    for sub, names in subs:
        check_eq(sorted(sub.ordered_field_names()), sorted(names), 'fields of the sub-format')
        check_eq(list(sub.ordered_field_names()), names, 'order of the fields')
        for name in names:
            f, g = getattr(sub, name), getattr(cls, name)
            check_eq(f.name, name, 'name')
            check(f.value_type is g.value_type, 'type of', name)
            check_eq(f.offset, g.offset, 'offset of ' + name)
            check_eq(f.default, g.default, 'default of ' + name)
            check_eq(int(f.default), default[name], 'default of ' + name)
            check_eq(f.documentation, g.documentation, 'documentation of ' + name)
        check_eq(getattr(sub, 'LENGTH_IN_BYTES', None), getattr(cls, 'LENGTH_IN_BYTES', None), 'length')
        check_eq(getattr(sub, 'START_OFFSET_IN_BYTES', 0), getattr(cls, 'START_OFFSET_IN_BYTES', 0), 'start')
        if case['own']:
            check_eq(sub.label, 'mine', 'attribute')
        if not names:
            raises(TypeError, lambda: make_header_packer(sub, endian), 'no fields')
            continue
        packer = make_header_packer(sub, endian)
        part = buffer if declared_length is not None else buffer[:max(sum(position[n]) for n in names)]
        got = packer.unpack(part)
        check(type(got) is sub, 'type')
        blank = bytearray(len(part))
        for name in names:
            check_eq(getattr(got, name), getattr(whole, name), 'field', name)
            check_eq(int(getattr(got, name)), values[name], 'field', name)
            at, size = position[name]
            blank[at:at + size] = buffer[at:at + size]
        check_eq(bytes(packer.pack(got)), bytes(blank), 'packed')
        # instances of the two formats are independent
        got2 = sub()
        for name in names:
            check_eq(int(getattr(got2, name)), default[name], 'default of', name)
        setattr(got2, names[0], values[names[0]])
        check_eq(int(getattr(cls(), names[0])), default[names[0]], 'field of the parent format')
    cov.label('standard' if isinstance(spec, str) else spec['shape'])
    cov.nontrivial(0 < len(case['chosen']) < len(position))


# --------------------------------------------------------------------------------------------------------- field types

WIDTHS = {'int8': (-2**7, 2**7 - 1, 1), 'nnint8': (0, 2**7 - 1, 1), 'int16': (-2**15, 2**15 - 1, 2),
          'nnint16': (0, 2**15 - 1, 2), 'int32': (-2**31, 2**31 - 1, 4), 'nnint32': (0, 2**31 - 1, 4)}


@st.composite
def type_cases(draw):
    kind = draw(st.sampled_from(sorted(WIDTHS)))
    lo, hi, size = WIDTHS[kind]
    near = st.sampled_from([lo - 1, lo, lo + 1, -2, -1, 0, 1, 2, 3, hi - 1, hi, hi + 1, 2 * hi, lo - 300, hi + 2**31])
    inside = st.one_of(st.sampled_from([lo, lo + 1, 0, 1, 2, 7, hi - 1, hi]), st.integers(lo, hi))
    members = draw(st.lists(inside, min_size=1, max_size=5, unique=True))
    if draw(st.booleans()):
        members = list(dict.fromkeys(members + [draw(near)]))
        members = draw(st.permutations(members))
    limits = sorted([draw(inside), draw(inside)])
    return dict(kind=kind, members=members, limits=draw(st.sampled_from([(None, None), tuple(limits), (limits[0], None),
                                                                      (None, limits[1])])),
                values=draw(st.lists(st.one_of(near, inside), max_size=6)), own_size=draw(st.booleans()),
                default_type=kind == 'int16' and draw(st.booleans()))


def field_types(case, cov):
    """Types made by the two metaclasses have the members and limits asked for; impossible members are refused."""
    import enum
    from segpy.field_types import IntEnumFieldMeta, IntFieldMeta
    kind = case['kind']
    lo, hi, size = WIDTHS[kind]
    members = case['members']
    Members = enum.IntEnum('Members', [('M%d' % k, v) for k, v in enumerate(members)])
    given = {} if case['default_type'] else {'seg_y_type': kind}

    def make():
        return IntEnumFieldMeta('Chosen', (), {}, enum=Members, **given)
    if any(not lo <= v <= hi for v in members):
        cov.label('impossible')
        raises(ValueError, make, 'an enumeration beyond the type')
    else:
        cov.label('possible')
        chosen = make()
        check_eq((chosen.SEG_Y_TYPE, chosen.SIZE), (kind, size), 'type and size')
        check(chosen.ENUM is Members, 'enumeration')
        for v in members:
            check(chosen(v) is Members(v), 'member', v)
        for v in case['values']:
            if v not in members:
                raises(ValueError, lambda: chosen(v), 'no member')
    low, high = case['limits']
    more = dict(given)
    if low is not None:
        more['min_value'] = low
    if high is not None:
        more['max_value'] = high
    if case['own_size']:
        more['size'] = size
    more.setdefault('seg_y_type', kind)
    ranged = IntFieldMeta('Ranged', (int,) if case['own_size'] else (), {}, **more)
    low, high = lo if low is None else low, hi if high is None else high
    check_eq((ranged.SEG_Y_TYPE, ranged.SIZE, ranged.MINIMUM, ranged.MAXIMUM), (kind, size, low, high), 'type')
    for v in case['values'] + [low, high, low - 1, high + 1]:
        if low <= v <= high:
            check(ranged(v) == v and isinstance(ranged(v), ranged) and isinstance(ranged(v), int), 'value', v)
            check_eq(ranged(str(v)), v, 'value from text')
        else:
            raises(ValueError, lambda: ranged(v), 'a value out of range')
    cov.nontrivial(len(members) > 1 or case['limits'] != (None, None))


PROPS = [
    Prop('validity', validity, formats, quick=1600, shards=4),
    Prop('sub_formats', sub_formats, sub_cases, quick=1200, shards=4),
    Prop('field_types', field_types, type_cases, quick=500),
]
