"""C32: SEG-Y revisions."""
import io
from decimal import Decimal

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C32'
RULE = ("All integers from -300 to 70000, and generated ones of any size, canonicalised; all sixteen-bit values in decimal "
        "form; files and binary headers of both revisions in both byte orders. Oracle: the four recognised values. "
        "Non-trivial: a value other than 0 and 256 (or a file of revision 1).")
ASSUMPTIONS = ["The files' revision field itself only admits the two standard values (see C13)."]

KNOWN = {0: 0, 1: 256, 100: 256, 256: 256}


def numbers(tier, shard, nshards):
    for n in range(-300 + shard, 70000, nshards):
        yield n


def canonical(n, cov):
    from segpy.revisions import SegYRevision, SegYRevisionError, canonicalize_revision
    cov.nontrivial(n not in (0, 256))
    if n in KNOWN:
        got = canonicalize_revision(n)
        check(isinstance(got, SegYRevision), 'type', got)
        check_eq(int(got), KNOWN[n], 'revision')
        check_eq(canonicalize_revision(got), got, 'again')
        check(got is (SegYRevision.REVISION_1 if KNOWN[n] else SegYRevision.REVISION_0), 'member', got)
        cov.label('known')
    else:
        e = raises(SegYRevisionError, lambda: canonicalize_revision(n), n)
        check(str(n) in str(e), 'the error does not name', n, str(e))
        cov.label('refused')


def decimals(tier, shard, nshards):
    for n in range(shard, 65536, nshards):
        yield n


def decimal(n, cov):
    from segpy.revisions import integer_to_decimal_revision
    hi, lo = divmod(n, 256)
    cov.nontrivial(n not in (0, 256) and lo < 10)
    got = integer_to_decimal_revision(n)
    if lo < 10:
        check_eq(got, Decimal('%d.%d' % (hi, lo)), 'decimal form')
    # a low byte which is no decimal digit has no specified decimal form
    check(isinstance(got, Decimal), 'type')


def field_cases(tier, shard, nshards):
    some = list(range(-260, 1030)) + [k * 256 + b for k in range(4, 128) for b in (0, 1, 100)] + [-2**15, 2**15 - 1]
    for k, v in enumerate(some if tier == 'quick' else range(-2**15, 2**15)):
        if k % nshards == shard:
            yield v


def custom_header():
    from segpy.field_types import Int16
    from segpy.header import Header, field
    from segpy.binary_reel_header import BinaryReelHeader

    class AnyRevision(Header):
        """A binary header which takes any revision number."""
        START_OFFSET_IN_BYTES = 3201
        LENGTH_IN_BYTES = 400
        num_samples = field(Int16, 3221, 0, 'samples')
        data_sample_format = field(BinaryReelHeader.data_sample_format.value_type, 3225, 5, 'format')
        format_revision_num = field(Int16, 3501, 0, 'revision')
        num_extended_textual_headers = field(Int16, 3505, 0, 'pages')
    return AnyRevision


_custom = []


def fields(n, cov):
    """Any number in the revision field, where the format of the binary header admits it."""
    from segpy.reader import create_reader
    from segpy.revisions import SegYRevision, SegYRevisionError
    from segpy.toolkit import extract_revision
    if not _custom:
        _custom.append(custom_header())
    cls = _custom[0]
    cov.nontrivial(n not in (0, 256))
    header = cls(format_revision_num=n)

    class Plain:
        format_revision_num = n
    endian = '<>'[n % 2]
    binary = bytearray(400)
    binary[24:26] = (5).to_bytes(2, ref.order(endian))
    binary[300:302] = n.to_bytes(2, ref.order(endian), signed=True)
    data = ref.encode_cards(['X'], 'ascii') + bytes(binary)

    def read():
        return create_reader(io.BytesIO(data), encoding='ascii', endian=endian, cache_directory=None,
                             binary_reel_header_format=cls).revision
    for get in (lambda: extract_revision(header), lambda: extract_revision(Plain()), read):
        if n in KNOWN:
            got = get()
            check(got is (SegYRevision.REVISION_1 if KNOWN[n] else SegYRevision.REVISION_0), 'revision', got, 'of', n)
            cov.label('known')
        else:
            raises(SegYRevisionError, get, 'revision %d' % n)
            cov.label('refused')


@st.composite
def any_number(draw):
    return draw(st.one_of(st.integers(), st.integers(-2**31, 2**31),
                          st.sampled_from([k * 65536 + b for k in (-1, 1, 2) for b in (0, 1, 100, 256)])))


@st.composite
def file_cases(draw):
    return dict(revision=draw(st.sampled_from([0, 256])), endian=draw(st.sampled_from('<>')),
                fill=draw(gen.FILL), traces=draw(st.integers(0, 2)), fmt=draw(st.sampled_from(gen.FMTS)))


def files(case, cov):
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.reader import create_reader
    from segpy.revisions import SegYRevision
    from segpy.toolkit import extract_revision
    from vf.fieldtables import BINARY_FIELDS
    revision = case['revision']
    cov.nontrivial(revision)
    cov.label('revision %d' % revision)
    brh = gen.fill_values(case['fill'], BINARY_FIELDS)
    brh.update(format_revision_num=revision, num_extended_textual_headers=0,
               data_sample_format=ref.FORMAT_CODES[case['fmt']])
    head = ref.encode_cards(['X'], 'ascii') + ref.encode_binary_header(brh, case['endian'])
    check_eq(int.from_bytes(head[3500:3502], ref.order(case['endian'])), revision, 'raw revision')
    data = head + ref.encode_trace_header({}, gen.Model(dict(
        fmt='int8', endian='>', enc='ascii', thf='rev1', text=[], declared=0, ext=[], brh_fill=0, brh={},
        traces=[])).table, case['endian']) * case['traces']
    reader = create_reader(io.BytesIO(data), encoding='ascii', endian=case['endian'], cache_directory=None)
    want = SegYRevision.REVISION_1 if revision else SegYRevision.REVISION_0
    check_eq(reader.revision, want, 'revision of the reader')
    check(isinstance(reader.revision, SegYRevision), 'type', reader.revision)
    check_eq(extract_revision(reader.binary_reel_header), want, 'extracted revision')
    header = BinaryReelHeader(format_revision_num=revision)
    check_eq(extract_revision(header), want, 'revision of a header')
    check_eq(extract_revision(BinaryReelHeader()), SegYRevision.REVISION_1, 'default revision')


PROPS = [
    Prop('numbers', canonical, cases=numbers, shards=3),
    Prop('any_number', canonical, any_number, quick=400),
    Prop('decimals', decimal, cases=decimals, shards=2),
    Prop('fields', fields, cases=field_cases, shards=2),
    Prop('files', files, file_cases, quick=300),
]
