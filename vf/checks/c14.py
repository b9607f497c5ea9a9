"""C14: any header format packs each field at its declared position."""
import struct

from hypothesis import strategies as st

from vf import gen, headers as hd, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises
from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV0, TRACE_FIELDS_REV1

PROPERTY = 'C14'
RULE = ("A case is a generated header class (up to eight fields of eleven types in any declaration order, with gaps, "
        "padding, start offset, single or multiple inheritance, redefinition, fields sharing a position), field values "
        "within limits, noise in the unassigned bytes, a byte order, and a wrong buffer length. Non-trivial: at least "
        "two fields, and a gap, shared position, inheritance or declaration out of order.")
ASSUMPTIONS = ["Fields hold values within the limits of their types."]


@st.composite
def cases(draw):
    spec = draw(hd.LAYOUTS)
    return dict(spec=spec, values=draw(hd.assignments(spec)), endian=draw(st.sampled_from('><')),
                noise=draw(gen.FILL), wrong=draw(st.sampled_from([-1, 1, -2, 5, -1000])),
                clash=draw(st.integers(0, 100)), raw=draw(st.binary(min_size=4, max_size=4)))


def packing(case, cov):
    from segpy.packer import make_header_packer, compile_struct, HeaderPacker
    spec, values, endian = case['spec'], case['values'], case['endian']
    fields = hd.fields_of(spec)
    cls = hd.build(spec)
    length = hd.length_of(spec)
    used = sum({f[2]: hd.SIZES[f[1]] for f in fields}.values())
    shared = len({f[2] for f in fields}) < len(fields)
    in_order = [f[2] for f in fields] == sorted(f[2] for f in fields)
    for flag, label in ((used < length, 'gaps'), (shared, 'shared'), (not in_order, 'out of order'), (True, spec['shape'])):
        if flag:
            cov.label(label)
    cov.nontrivial(len(fields) > 1 and (used < length or shared or not in_order or spec['shape'] != 'flat'))

    packer = make_header_packer(cls) if endian == '>' and case['noise'] % 2 else make_header_packer(cls, endian)
    check(isinstance(packer, HeaderPacker), 'not a packer')
    check(packer.header_format_class is cls, 'header format class')
    header = cls(**values)
    want = hd.place(spec, values, endian)
    for _ in range(2):
        check_eq(bytes(packer.pack(header)), want, 'packed')
    # a subclass without further fields is packed alike
    check_eq(bytes(packer.pack(type('Derived', (cls,), {})(**values))), want, 'packed subclass')

    noisy = hd.place(spec, values, endian, noise(length, case['noise']))
    for buffer in (want, noisy, bytearray(noisy), memoryview(noisy)):
        got = packer.unpack(buffer)
        check(type(got) is cls, 'type unpacked', type(got))
        for name, kind, offset, default in fields:
            check_eq(int(getattr(got, name)), values[name], 'unpacked field', name)
        check_eq(bytes(packer.pack(got)), want, 'packed again')

    # the description which the packer is made from
    cformat, allocations = compile_struct(cls, spec['start'] or 0, spec['length'], endian)
    check_eq(struct.calcsize(cformat), length, 'length of the structure')
    seen = {}
    for names, value in zip(allocations, struct.unpack(cformat, noisy)):
        for name in names:
            seen[name] = value
    check_eq(seen, values, 'structure and allocations')
    # by default: big-endian, starting at zero, and as long as the fields
    if endian == '>' and not spec['start']:
        default, _ = compile_struct(cls)
        end = max(offset + hd.SIZES[kind] for name, kind, offset, _ in fields)
        check_eq(struct.calcsize(default), end, 'length by default')
        check_eq(struct.unpack(default, noisy[:end]), struct.unpack(cformat, noisy), 'structure by default')
    if endian == '>':
        check_eq(bytes(make_header_packer(cls).pack(cls(**values))), want, 'packed by default')

    # refusals
    wrong = length + case['wrong']
    for n in {max(wrong, 0), 0, length + 1, length - 1} - {length}:
        raises(ValueError, lambda: packer.unpack(bytes(n)), 'buffer of %d instead of %d bytes' % (n, length))
    Other = hd.build(dict(spec))
    for stranger in (Other(), None, 42, values):
        raises(TypeError, lambda: packer.pack(stranger), 'packing a %s' % type(stranger))

    # fields sharing a position must agree
    at = {}
    for f in fields:
        at.setdefault(f[2], []).append(f)
    groups = [g for g in at.values() if len(g) > 1]
    if groups:
        group = groups[case['clash'] % len(groups)]
        name, kind = group[case['clash'] // 7 % len(group)][:2]
        _, size, lo, hi, members, _ = hd.TYPES[kind]
        pool = members or (lo, hi, max(lo, 0), max(lo, 0) + 1)
        clashing = next(v for v in pool if v != values[name])
        bad = cls(**values)
        setattr(bad, name, clashing)
        raises(ValueError, lambda: packer.pack(bad), 'fields sharing a position differ')
        setattr(bad, name, values[name])
        check_eq(bytes(packer.pack(bad)), want, 'packed after agreeing again')
        cov.label('clash refused')

    # whatever a buffer holds, a field is read as its bytes or refused
    name, kind, offset, default = fields[case['clash'] % len(fields)]
    _, size, lo, hi, members, signed = hd.TYPES[kind]
    start = offset - (spec['start'] or 0)
    raw = want[:start] + case['raw'][:size] + want[start + size:]
    value = int.from_bytes(case['raw'][:size], ref.order(endian), signed=signed)
    if lo <= value <= hi and (members is None or value in members):
        got = packer.unpack(raw)
        check_eq(int(getattr(got, name)), value, 'raw field', name)
        check_eq(bytes(packer.pack(got)), raw, 'raw field packed again')
        cov.label('raw legal')
    else:
        raises(ValueError, lambda: packer.unpack(raw), 'raw value %d of %s' % (value, kind))
        cov.label('raw refused')


def noise(n, seed):
    return gen.raw_sample_bytes(n, seed, 'int8') if seed else bytes(n)


def standard_cases(tier, shard, nshards):
    for which in ('rev1', 'rev0', 'binary'):
        for endian in '><':
            for seed in range(60 if tier == 'quick' else 1500):
                yield which, endian, seed


def standard(case, cov):
    """The standard formats with all fields set, in both byte orders."""
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.packer import make_header_packer
    from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
    which, endian, seed = case
    cov.nontrivial(seed > 0)
    cls, table, start, length = dict(rev1=(TraceHeaderRev1, TRACE_FIELDS_REV1, 1, 240),
                                     rev0=(TraceHeaderRev0, TRACE_FIELDS_REV0, 1, 240),
                                     binary=(BinaryReelHeader, BINARY_FIELDS, 3201, 400))[which]
    values = gen.fill_values(seed, table)
    packer = make_header_packer(cls, endian)
    want = ref.encode_header(values, table, start, length, endian)
    check_eq(bytes(packer.pack(cls(**values))), want, 'packed')
    noisy = ref.encode_header(values, table, start, length, endian, noise(length, seed))
    check_eq(gen.header_dict(packer.unpack(noisy), table), values, 'unpacked')


PROPS = [
    Prop('packing', packing, cases, quick=1200, shards=7),
    Prop('standard_formats', standard, cases=standard_cases),
]
