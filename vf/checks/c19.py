"""C19: textual headers."""
import io

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C19'
RULE = ("Lines of any number (0 to 90) and length (0 to 200) over the whole repertoire of either encoding, given as "
        "list, tuple or generator and written at any file position. Oracle: an independent code page table and "
        "padding rule. Non-trivial: at least one line which is not blank and not exactly 80 characters long.")
ASSUMPTIONS = ["Whether unencodable characters beyond column 80 or line 40 are refused is not specified."]


@st.composite
def line_lists(draw, enc):
    chars = gen.text_chars(enc)
    line = gen.weighted(
        (3, st.text(chars, max_size=12)),
        (2, st.tuples(st.text(chars, min_size=1, max_size=5), st.sampled_from([78, 79, 80, 81, 82, 159, 160, 200])).map(
            lambda t: (t[0] * 200)[:t[1]])),
        (1, st.integers(0, 90).map(lambda n: ' ' * n)),
        (1, st.integers(1, 60).map(lambda i: 'C%2d ' % i + chr(64 + i % 26) * (i * 3))))
    some = draw(st.lists(line, max_size=6))
    n = draw(st.sampled_from([None, None, 1, 39, 40, 41, 80, 90]))
    if n is not None and some:
        some = [some[(k * 7 + k // 9) % len(some)] for k in range(n)]
    return some


LINES = {enc: line_lists(enc) for enc in gen.ENCODINGS}


@st.composite
def cases(draw):
    enc = draw(st.sampled_from(gen.ENCODINGS))
    return dict(enc=enc, lines=draw(LINES[enc]), kind=draw(st.sampled_from(['list', 'tuple', 'iterator'])),
                pos=draw(st.sampled_from([0, 0, 1, 80, 3600])), after=draw(st.sampled_from([b'', b'x', b'\x40' * 100])))


def given(lines, kind):
    return list(lines) if kind == 'list' else tuple(lines) if kind == 'tuple' else (line for line in lines)


def roundtrip(case, cov):
    from segpy.toolkit import write_textual_reel_header, read_textual_reel_header
    lines, enc, pos = case['lines'], case['enc'], case['pos']
    cov.nontrivial(any(line.strip() and len(line) != 80 for line in lines))
    cov.label('%d lines' % len(lines) if len(lines) in (0, 39, 40, 41) else 'more lines' if len(lines) > 41
              else 'fewer lines')
    old = bytes(range(256)) * 40
    fh = io.BytesIO(old)
    fh.seek(pos)
    write_textual_reel_header(fh, given(lines, case['kind']), enc)
    want = ref.encode_cards(lines, enc)
    check_eq(len(want), 3200, 'length')
    check_eq(fh.tell(), pos + 3200, 'position after writing')
    data = fh.getvalue()
    check_eq(data[pos:pos + 3200], want, 'bytes written')
    check_eq(data[:pos] + data[pos + 3200:], old[:pos] + old[pos + 3200:], 'bytes around')

    fh = io.BytesIO(data[:pos + 3200] + case['after'])
    fh.seek(pos)
    got = read_textual_reel_header(fh, enc)
    check_eq(fh.tell(), pos + 3200, 'position after reading')
    check_eq(len(got), 40, 'lines')
    check_eq(list(got), gen.cards(lines), 'lines read')
    check(all(type(line) is str for line in got), 'types')
    # what was read is written as the same bytes, and transcoded to the other encoding where possible
    again = io.BytesIO()
    write_textual_reel_header(again, got, enc)
    check_eq(again.getvalue(), want, 'rewritten')
    other = 'ascii' if enc == 'cp037' else 'cp037'
    out = io.BytesIO()
    if all(ord(c) < 128 for line in got for c in line):
        write_textual_reel_header(out, got, other)
        out.seek(0)
        check_eq(list(read_textual_reel_header(out, other)), list(got), 'transcoded')
        cov.label('transcoded')
    else:
        raises(UnicodeError, lambda: write_textual_reel_header(out, got, other), 'unencodable text')
        check_eq(out.getvalue(), b'', 'written before failing')
        cov.label('not transcodable')


@st.composite
def raw_headers(draw):
    """Bytes made by hand rather than by encoding lines."""
    enc = draw(st.sampled_from(gen.ENCODINGS))
    top = 127 if enc == 'ascii' else 255
    some = draw(st.lists(st.integers(0, top), min_size=1, max_size=97))
    return dict(enc=enc, data=(some * 3200)[:3200])


def decoding(case, cov):
    from segpy.toolkit import write_textual_reel_header, read_textual_reel_header
    data = bytes(case['data'])
    cov.nontrivial(len(set(data)) > 3)
    got = read_textual_reel_header(io.BytesIO(data), case['enc'])
    check_eq(list(got), ref.decode_cards(data, case['enc']), 'lines')
    out = io.BytesIO()
    write_textual_reel_header(out, got, case['enc'])
    check_eq(out.getvalue(), data, 'rewritten')


def all_bytes(tier, shard, nshards):
    for enc in gen.ENCODINGS:
        for b in range(128 if enc == 'ascii' else 256):
            yield dict(enc=enc, data=([b, 65, 0x40, 0x20, b, b] + list(range(80)) * 41)[:3200])
    for enc in gen.ENCODINGS:
        for n in range(0, 3200, 160 if tier == 'quick' else 7):
            yield dict(enc=enc, data=[65] * n + [97] * (3200 - n))


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(['encoding', 'encoding', 'text', 'text', 'short', 'bytes']))
    enc = draw(st.sampled_from(gen.ENCODINGS))
    case = dict(kind=kind, enc=enc, lines=draw(LINES[enc])[:40] or ['X'])
    if kind == 'encoding':
        case['bad'] = draw(st.sampled_from(['utf8', 'utf-8', 'latin1', 'ASCII', 'cp1252', 'cp500', 'cp1140', 'EBCDIC',
                                            'us-ascii', '', 'no-such', 'IBM037', 'cp0370', 'utf-16', None, 37]))
    elif kind == 'text':
        case['char'] = draw(st.sampled_from('\x80\xe9\xff\u0100\u2013\u20ac\U0001f600\ud800') if enc == 'ascii' else
                            st.sampled_from('\u0100\u2013\u20ac\U0001f600\u0131\ud800'))
        case['line'] = draw(st.integers(0, len(case['lines']) - 1))
        case['col'] = draw(st.sampled_from([0, 1, 40, 79]))
    elif kind == 'short':
        case['size'] = draw(st.one_of(st.sampled_from([0, 1, 79, 80, 3199, 3120]), st.integers(0, 3199)))
    else:
        case['at'] = draw(st.sampled_from([0, 1, 80, 1600, 3199]))
        case['byte'] = draw(st.sampled_from([128, 200, 255]))
    return case


def refused(case, cov):
    from segpy.encoding import UnsupportedEncodingError
    from segpy.toolkit import write_textual_reel_header, read_textual_reel_header
    cov.nontrivial(True)
    cov.label(case['kind'])
    lines = case['lines']
    if case['kind'] == 'encoding':
        fh = io.BytesIO()
        e = raises(UnsupportedEncodingError, lambda: write_textual_reel_header(fh, lines, case['bad']), case['bad'])
        check_eq(e.encoding, case['bad'], 'encoding named by the error')
        check_eq(fh.getvalue(), b'', 'written before failing')
    elif case['kind'] == 'text':
        line = lines[case['line']].ljust(80)[:80]
        lines = list(lines)
        lines[case['line']] = line[:case['col']] + case['char'] + line[case['col'] + 1:]
        fh = io.BytesIO()
        raises(UnicodeError, lambda: write_textual_reel_header(fh, lines, case['enc']), case['char'])
        check_eq(fh.getvalue(), b'', 'written before failing')
    elif case['kind'] == 'short':
        data = ref.encode_cards(lines, case['enc'])[:case['size']]
        raises(EOFError, lambda: read_textual_reel_header(io.BytesIO(data), case['enc']), '%d bytes' % len(data))
        fh = io.BytesIO(bytes(500) + data)
        fh.seek(500)
        raises(EOFError, lambda: read_textual_reel_header(fh, case['enc']), '%d bytes' % len(data))
    else:
        data = bytearray(3200)
        data[case['at']] = case['byte']
        raises(UnicodeError, lambda: read_textual_reel_header(io.BytesIO(data), 'ascii'), 'byte %d' % case['byte'])


PROPS = [
    Prop('roundtrip', roundtrip, cases, quick=1200, shards=3),
    Prop('decoding', decoding, raw_headers, quick=500),
    Prop('bytes', decoding, cases=all_bytes),
    Prop('refused', refused, bad_cases, quick=800),
]
