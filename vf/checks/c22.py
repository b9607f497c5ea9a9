"""C22: the encoding of a file's text is recognised."""
import io

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq
from vf.checks.c03 import guess

PROPERTY = 'C22'
RULE = ("Texts with a chosen proportion of common characters (around one half to one character, and arbitrary), encoded "
        "in either encoding; byte strings mixing characters common in one, both or neither encoding in chosen counts, "
        "in any order and of any length, with thresholds equal to or next to the resulting frequencies. Oracle: the "
        "documented rule evaluated by counting. Non-trivial: at least one byte other than zero.")

COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '
# common characters of one encoding whose codes are common characters of the other
AMBIGUOUS = set('mz:_')
RARE = {'ascii': '!"#$%&()*+,./;<=>?@[]^{|}~\'\\\x01\x7f', 'cp037': '!"#$%&()*+,./;<=>?@\x01\xe9\xff\xa3'}


def mixed(parts, seed):
    """Interleave bytes deterministically."""
    items = [b for bs in parts for b in bs]
    n = len(items)
    if n < 3:
        return bytes(items)
    step = [k for k in (1, 7, 11, 31, 101, 499, 997) if n % k or k == 1]
    k = step[seed % len(step)]
    if n % k == 0 and k > 1:
        k = 1
    out = [items[(i * k) % n] for i in range(n)]
    return bytes(out) if sorted(out) == sorted(items) else bytes(items)


@st.composite
def text_cases(draw):
    enc = draw(st.sampled_from(gen.ENCODINGS))
    common = ''.join(draw(st.lists(st.sampled_from([c for c in COMMON if c not in AMBIGUOUS]), min_size=1, max_size=12)))
    rare = draw(st.text(st.sampled_from(RARE[enc]), min_size=1, max_size=6))
    ambiguous = draw(st.text(st.sampled_from('mz:_'), min_size=1, max_size=4))
    n_common = draw(st.sampled_from([1600, 1601, 1700, 2000, 2500, 3100, 3200]))
    n_ambiguous = draw(st.sampled_from([0, 0, 1, 50, 600]))
    n_ambiguous = min(n_ambiguous, 3200 - n_common)
    n_rare = 3200 - n_common - n_ambiguous
    chars = [(s * 3200)[:k] for s, k in ((common, n_common), (rare, n_rare), (ambiguous, n_ambiguous))]
    return dict(enc=enc, chars=chars, seed=draw(st.integers(0, 6)), endian=draw(st.sampled_from('<>')),
                extra=draw(st.sampled_from([0, 0, 1, 2])), explicit=draw(st.booleans()))


def recognised(case, cov):
    from segpy.encoding import guess_encoding
    from segpy.reader import create_reader
    from segpy.toolkit import guess_textual_header_encoding
    enc = case['enc']
    # arrange the characters (not the bytes)
    arranged = mixed([[ord(c) for c in s] for s in case['chars']], case['seed'])
    text = arranged.decode('latin1')
    cov.nontrivial(True)
    cov.label(enc)
    check(len(text) == 3200, 'length')
    lines = [text[k:k + 80] for k in range(0, 3200, 80)]
    head = ref.encode_cards(lines, enc)
    if guess(head) != enc:
        # rare characters of one encoding may be common ones of the other
        cov.label('not recognisable')
        return
    check_eq(guess_encoding(head), enc, 'guess')
    page = gen.page_lines(['EXTENDED', 'text'])
    data = (head + ref.encode_binary_header(dict(data_sample_format=8, num_extended_textual_headers=case['extra']),
                                            case['endian'])
            + b''.join(ref.encode_text(line, enc) for line in page) * case['extra'])
    fh = io.BytesIO(data)
    check_eq(guess_textual_header_encoding(fh), enc, 'guess for the file')
    if case['explicit']:
        reader = create_reader(fh, encoding=None, endian=case['endian'], cache_directory=None)
    else:
        reader = create_reader(fh, endian=case['endian'], cache_directory=None)
    check_eq(list(reader.textual_reel_header), lines, 'text')
    check_eq(reader.encoding, enc, 'encoding')
    check_eq([list(p) for p in reader.extended_textual_header], [page] * case['extra'], 'extended headers')


def pools():
    """Bytes by being common in (ascii, ebcdic)."""
    asc = {ord(c) for c in COMMON}
    ebc = {ref.encode_text(c, 'cp037')[0] for c in COMMON}
    out = {}
    for b in range(256):
        out.setdefault((b in asc, b in ebc), []).append(b)
    return out


POOLS = pools()


@st.composite
def byte_cases(draw):
    total = draw(st.sampled_from([1, 2, 3, 4, 10, 80, 100, 1000, 3199, 3200, 3200]))
    remaining = total
    counts = {}
    kinds = draw(st.permutations([(True, False), (False, True), (True, True), (False, False), 'null']))
    for k in kinds[:-1]:
        near = sorted({0, 1, remaining, remaining // 2, (total + 1) // 2, total // 2, total // 2 - 1, total // 2 + 1,
                       total // 4})
        n = draw(st.one_of(st.sampled_from([v for v in near if 0 <= v <= remaining]), st.integers(0, remaining)))
        counts[k] = n
        remaining -= n
    counts[kinds[-1]] = remaining
    parts = []
    for k, n in counts.items():
        if n:
            some = [0] if k == 'null' else draw(st.lists(st.sampled_from(POOLS[k]), min_size=1, max_size=5))
            parts.append((some * n)[:n])
    how = draw(st.sampled_from(['default', 'half', 'number', 'ascii', 'ebcdic', 'next']))
    return dict(parts=parts, seed=draw(st.integers(0, 6)), how=how,
                number=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.25, 0.75, 0.1, 1.5]), st.floats(0, 1))),
                pos=draw(st.sampled_from([0, 1, 500, 3200, 5000])),
                tail=draw(st.sampled_from([b'', b'A' * 4000, b'\xc1' * 4000])), kind=draw(st.booleans()))


def guessing(case, cov):
    from segpy.encoding import guess_encoding
    from segpy.toolkit import guess_textual_header_encoding
    data = mixed(case['parts'], case['seed'])
    cov.nontrivial(any(data))
    asc = sum(data.count(ord(c)) for c in COMMON) / len(data)
    ebc = sum(data.count(ref.encode_text(c, 'cp037')) for c in COMMON) / len(data)
    how = case['how']
    threshold = {'default': None, 'half': 0.5, 'number': case['number'], 'ascii': asc, 'ebcdic': ebc,
                 'next': asc + 1e-9}[how]
    if threshold is None:
        got, want = guess_encoding(data), guess(data)
    else:
        given = bytearray(data) if case['kind'] else data
        got, want = guess_encoding(given, threshold), guess(data, threshold)
        if case['kind']:
            check_eq(guess_encoding(data, threshold=threshold), want, 'guess')
    cov.label(str(want))
    check_eq(got, want, 'guess', asc, ebc, threshold)
    # through a file: the first 3200 bytes only, whatever the position
    data = data + case['tail']
    fh = io.BytesIO(data)
    fh.seek(case['pos'])
    check_eq(guess_textual_header_encoding(fh), guess(data[:3200]), 'guess for the file')
    check_eq(fh.tell(), case['pos'], 'position')


def fixed_cases(tier, shard, nshards):
    yield b''
    for n in (1, 2, 80, 3200):
        yield bytes(n)
        yield bytes(n - 1) + b'A'
        yield bytes(n - 1) + b'\xc1'
        yield bytes(n // 2) + b'A' * (n - n // 2)
    for b in range(256):
        yield bytes([b]) * 3200
        yield bytes([b]) * 1600 + b'\xc1' * 1600
        yield bytes([b]) * 1600 + b'A' * 1600
        yield bytes([b]) * 1601 + bytes(1599)


def fixed(data, cov):
    from segpy.encoding import guess_encoding
    from segpy.toolkit import guess_textual_header_encoding
    cov.nontrivial(any(data))
    check_eq(guess_encoding(data), guess(data), 'guess')
    fh = io.BytesIO(data)
    check_eq(guess_textual_header_encoding(fh), guess(data), 'guess for the file')
    check_eq(fh.tell(), 0, 'position')


@st.composite
def sequence_cases(draw):
    """Texts which start or end in the same way and are in different encodings."""
    filler = draw(st.sampled_from([0, 0, 0x40, 0x6d, 0x20, 1, 0xff]))
    same = draw(st.sampled_from([1, 40, 80, 160, 800, 1000, 1599, 1600]))
    rest = [b'A' * (3200 - same), b'\xc1' * (3200 - same), bytes(3200 - same), b'\x01' * (3200 - same)]
    at = draw(st.booleans())
    return [(bytes([filler]) * same + r if at else r + bytes([filler]) * same)
            for r in draw(st.lists(st.sampled_from(rest), min_size=2, max_size=5))]


def sequence(case, cov):
    for data in case:
        fixed(data, cov)
    cov.nontrivial(len(set(case)) > 1)


PROPS = [
    Prop('sequence', sequence, sequence_cases, quick=200),
    Prop('recognised', recognised, text_cases, quick=350, shards=3),
    Prop('guessing', guessing, byte_cases, quick=700, shards=3),
    Prop('fixed', fixed, cases=fixed_cases),
]
