"""Generated header formats: plain specifications, the classes built from them, and where their fields belong.

A specification is
    dict(start=None or int, length=None or int, levels=[[(name, type, offset, default), ...], ...], shape=...)
where each level is a class derived from the one before it ('chain'), or the first ones are independent bases of the
last ('mixin').
"""
import enum
import sys

from hypothesis import strategies as st

from segpy.field_types import Int16, Int32, NNInt16, NNInt32, IntFieldMeta, IntEnumFieldMeta
from segpy.header import BaseHeader, Header, FormatMeta, field


class Int8(int, metaclass=IntFieldMeta, seg_y_type='int8'):
    """8-bit signed integer."""


class NNInt8(int, metaclass=IntFieldMeta, seg_y_type='nnint8'):
    """Non-negative 8-bit integer."""


class Percentage(int, metaclass=IntFieldMeta, seg_y_type='int16', min_value=-5, max_value=100):
    """A limited range."""


class UInt8(int, metaclass=IntFieldMeta, seg_y_type='nnint8', max_value=255):
    """All values of eight bits."""


class UInt16(int, metaclass=IntFieldMeta, seg_y_type='nnint16', min_value=0, max_value=65535):
    """All values of sixteen bits."""


class UInt32(int, metaclass=IntFieldMeta, seg_y_type='nnint32', max_value=2**32 - 1):
    """All values of 32 bits."""


class Small(enum.IntEnum):
    MINUS = -2
    ZERO = 0
    SEVEN = 7
    BIG = 32767


class SmallField(metaclass=IntEnumFieldMeta, enum=Small):
    """An enumeration in 16 bits."""


class Large(enum.IntEnum):
    ZERO = 0
    ONE = 1
    HUGE = 0x01020304
    NEGATIVE = -2147483648


class LargeField(metaclass=IntEnumFieldMeta, enum=Large, seg_y_type='int32'):
    """An enumeration in 32 bits."""


# name -> type, size, minimum, maximum, members, signed
TYPES = {
    'Int8': (Int8, 1, -128, 127, None, True),
    'NNInt8': (NNInt8, 1, 0, 127, None, False),
    'Int16': (Int16, 2, -2**15, 2**15 - 1, None, True),
    'NNInt16': (NNInt16, 2, 0, 2**15 - 1, None, False),
    'Int32': (Int32, 4, -2**31, 2**31 - 1, None, True),
    'NNInt32': (NNInt32, 4, 0, 2**31 - 1, None, False),
    'UInt8': (UInt8, 1, 0, 255, None, False),
    'UInt16': (UInt16, 2, 0, 65535, None, False),
    'UInt32': (UInt32, 4, 0, 2**32 - 1, None, False),
    'Percentage': (Percentage, 2, -5, 100, None, True),
    'Small': (SmallField, 2, -2, 32767, (-2, 0, 7, 32767), True),
    'Large': (LargeField, 4, -2**31, 0x01020304, (0, 1, 0x01020304, -2**31), True),
}
SIZES = {name: t[1] for name, t in TYPES.items()}
TYPE_NAMES = ['Int32', 'Int16', 'NNInt16', 'NNInt32', 'Int8', 'Int16', 'Int32', 'NNInt8', 'Percentage', 'Small',
              'Large', 'UInt8', 'UInt16', 'UInt32']


def _legal(name):
    _, size, lo, hi, members, _ = TYPES[name]
    if members:
        return st.sampled_from(members)
    near = [v for v in (lo, lo + 1, -256, -2, -1, 0, 1, 127, 128, 255, 256, 258, 0x0102, 32767, 32768, 0x01020304, 2**31 - 1, 2**31, hi - 1, hi)
            if lo <= v <= hi]
    return st.one_of(st.sampled_from(near), st.integers(lo, hi))


def _illegal(name):
    _, size, lo, hi, members, _ = TYPES[name]
    out = [lo - 1, hi + 1, lo - 2**31, hi + 2**31, 2**40, -2**63]
    if members:
        out += [v for v in (1, 2, -1, 3, 6, 8) if v not in members]
    return st.sampled_from(out)


LEGAL = {name: _legal(name) for name in TYPES}
ILLEGAL = {name: _illegal(name) for name in TYPES}
FIELD_NAMES = ['trace_number', 'x', 'a_b', 'name', 'offset', 'default', 'value', 'type', 'length', 'field_1', 'X2',
               'inline_number', 'elevation', 'a', 'b', 'cdp', 'y_', 'sample_count', 'gain', 'code', 'self_', 'zz',
               'index', 'num_samples', 'start', 'stop', 'key', 'data', 'item', 'the_last_one']
GAPS = [63, 64, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 4096, 9999, 10000, 65536]
STARTS = [None, 0, 1, 1, 1, 3201, 17, 100001]


@st.composite
def layouts(draw, max_fields=8):
    """A valid format: no partial overlaps, all fields within the length."""
    start = draw(st.sampled_from(STARTS))
    n = draw(st.integers(1, max_fields))
    if draw(st.integers(0, 15)) == 0:
        n = draw(st.integers(max_fields, len(FIELD_NAMES)))
    far = draw(st.integers(0, n)) if draw(st.integers(0, 7)) == 0 else None     # a large gap before (or after) this one
    gap = draw(st.sampled_from(GAPS)) if far is not None else 0
    names = draw(st.permutations(FIELD_NAMES))[:n] if draw(st.booleans()) else FIELD_NAMES[:n]
    pos = 0
    fields = []
    sharing = draw(st.integers(0, 2)) == 0
    dense = draw(st.booleans())
    for k, name in enumerate(names):
        if k == far:
            pos += gap
        if fields and sharing and draw(st.integers(0, 2)) == 0:
            other = draw(st.sampled_from(fields))
            fields.append((name, other[1], other[2], draw(LEGAL[other[1]])))
            continue
        if not dense:
            pos += draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 10]))
        kind = draw(st.sampled_from(TYPE_NAMES))
        fields.append((name, kind, (start or 0) + pos, draw(LEGAL[kind])))
        pos += SIZES[kind]
    order = draw(st.sampled_from(['declared', 'declared', 'shuffled', 'reversed']))
    if order == 'shuffled':
        fields = draw(st.permutations(fields))
    elif order == 'reversed':
        fields = fields[::-1]
    length = draw(st.sampled_from([None, 0, 0, 0, 1, 2, 7]))
    if length is not None and far == n:
        length += gap
    return dict(start=start, length=None if length is None else pos + length, **draw(arrangements(list(fields))))


@st.composite
def arrangements(draw, fields):
    """Distribute the fields over base classes."""
    shape = draw(st.sampled_from(['flat', 'flat', 'chain', 'chain', 'mixin', 'redefined', 'metaclass']))
    if shape in ('flat', 'metaclass') or not fields:
        return dict(levels=[fields], shape=shape)
    if shape == 'redefined':
        # a base class has another idea of some fields
        name, kind, offset, default = fields[draw(st.integers(0, len(fields) - 1))]
        wrong = (name, draw(st.sampled_from(TYPE_NAMES)), offset + draw(st.integers(0, 4)))
        wrong += (max(0, TYPES[wrong[1]][2]),)
        return dict(levels=[[wrong], fields], shape=shape)
    cuts = sorted(draw(st.lists(st.integers(0, len(fields)), min_size=1, max_size=2)))
    levels, last = [], 0
    for c in cuts + [len(fields)]:
        levels.append(fields[last:c])
        last = c
    return dict(levels=levels, shape=shape)


LAYOUTS = layouts()


def fields_of(spec):
    """All fields, by name; a later definition replaces an earlier one."""
    out = {}
    for level in spec['levels']:
        for f in level:
            out[f[0]] = f
    return list(out.values())


_serial = [0]


def _make(name, bases, fields, extra):
    namespace = dict(extra)
    for fname, kind, offset, default in fields:
        namespace[fname] = field(TYPES[kind][0], offset=offset, default=default, documentation='About %s.' % fname)
    namespace['__module__'] = __name__
    cls = FormatMeta(name, bases, namespace)
    setattr(sys.modules[__name__], name, cls)
    return cls


def build(spec):
    """The class described by the specification."""
    _serial[0] = (_serial[0] + 1) % 500         # names are used again, so that the classes do not accumulate
    stem = 'Generated%d' % _serial[0]
    extra = {}
    if spec['start'] is not None:
        extra['START_OFFSET_IN_BYTES'] = spec['start']
    if spec['length'] is not None:
        extra['LENGTH_IN_BYTES'] = spec['length']
    levels = spec['levels']
    root = () if spec['shape'] == 'metaclass' else (Header,)
    if spec['shape'] == 'mixin' and len(levels) > 1:
        bases = tuple(_make('%sBase%d' % (stem, k), root, level, {}) for k, level in enumerate(levels[:-1]))
        return _make(stem, bases, levels[-1], extra)
    cls = None
    for k, level in enumerate(levels):
        last = k == len(levels) - 1
        # a base class may define other constants
        attributes = extra if last else {'LENGTH_IN_BYTES': 300, 'START_OFFSET_IN_BYTES': 0}
        if last and spec['length'] is None and len(levels) > 1:
            attributes = dict(attributes, LENGTH_IN_BYTES=None)
        if last and spec['start'] is None and len(levels) > 1:
            attributes = dict(attributes, START_OFFSET_IN_BYTES=0)
        cls = _make(stem if last else '%sBase%d' % (stem, k), root if cls is None else (cls,), level, attributes)
    return cls


def length_of(spec):
    """The number of bytes of a packed header."""
    if spec['length'] is not None:
        return spec['length']
    return max(f[2] + SIZES[f[1]] for f in fields_of(spec)) - (spec['start'] or 0)


def place(spec, values, endian, background=None):
    """The bytes of a header with these values."""
    buf = bytearray(background if background is not None else bytes(length_of(spec)))
    for name, kind, offset, default in fields_of(spec):
        at = offset - (spec['start'] or 0)
        buf[at:at + SIZES[kind]] = values[name].to_bytes(SIZES[kind], 'big' if endian == '>' else 'little',
                                                    signed=TYPES[kind][5])
    return bytes(buf)


@st.composite
def assignments(draw, spec):
    """Values of all fields; those sharing a position agree."""
    at = {}
    out = {}
    for name, kind, offset, default in fields_of(spec):
        if offset not in at:
            at[offset] = default if draw(st.integers(0, 4)) == 0 else draw(LEGAL[kind])
        out[name] = at[offset]
    return out
