"""C21: extended textual headers."""
import io

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, raises

PROPERTY = 'C21'
RULE = ("Texts of 0 to 200 lines (blank, longer than 78 and 156 characters, at exact multiples) with any newline "
        "convention; page lists of 0 to 6 arbitrary pages (and files of up to 32767 pages) in both "
        "encodings with every declared count that fits, and with one defect; truncation anywhere. Oracle: an independent splitting and padding rule and code page. "
        "Non-trivial: at least one non-blank line.")
ASSUMPTIONS = ["Lines do not contain characters which Python takes for line breaks other than CR and LF."]

BREAKS = set('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
STANZA = '((SEG: EndText))'


@st.composite
def text_cases(draw):
    enc = draw(st.sampled_from(gen.ENCODINGS))
    char = gen.text_chars(enc).filter(lambda c: c not in BREAKS)
    line = gen.weighted(
        (3, st.text(char, max_size=10)),
        (3, st.tuples(st.text(char, min_size=1, max_size=4), st.sampled_from([77, 78, 79, 80, 155, 156, 157, 234, 400])).map(
            lambda t: (t[0] * 400)[:t[1]])),
        (2, st.sampled_from(['', ' ', ' ' * 78, ' ' * 79, STANZA, 'x' + ' ' * 78, '  indented'])),
        (1, st.integers(1, 50).map(lambda n: ' ' * n + 'C')))
    some = draw(st.lists(line, max_size=7))
    n = draw(st.sampled_from([None, None, None, 38, 39, 40, 41, 79, 80, 81, 120, 200]))
    if n is not None and some:
        some = [some[(k * 3 + k // 8) % len(some)] for k in range(n)]
    if not some and draw(st.booleans()):
        some = ['']
    return dict(enc=enc, lines=some, newline=draw(st.sampled_from(['\n', '\n', '\r\n', '\r'])),
                final=draw(st.booleans()), stop=draw(st.sampled_from([True, False, None])))


def split_line(line):
    return [line[k:k + 78].ljust(78) for k in range(0, max(len(line), 1), 78)]


def formatting(case, cov):
    from segpy.toolkit import format_extended_textual_header, write_extended_textual_headers
    lines = case['lines']
    text = case['newline'].join(lines) + (case['newline'] if case['final'] and lines else '')
    if not case['final'] and lines and lines[-1] == '':
        lines = lines[:-1]      # the text ends with the newline of the line before
    cov.nontrivial(any(line.strip() for line in lines))
    if any(len(line) > 78 for line in lines):
        cov.label('split lines')
    if case['stop'] is None:
        pages = format_extended_textual_header(text, case['enc'])
    else:
        pages = format_extended_textual_header(text, case['enc'], include_text_stop=case['stop'])
    pages = [list(p) for p in pages]
    rows = [row for line in lines for row in split_line(line)]
    cov.label('%d pages' % len(pages) if len(pages) < 3 else 'more pages')
    want = []
    for k in range(0, len(rows), 40):
        page = rows[k:k + 40]
        want.append([row + '\r\n' for row in page + [' ' * 78] * (40 - len(page))])
    if case['stop']:
        want.append([STANZA.ljust(78) + '\r\n'] + [' ' * 78 + '\r\n'] * 39)
        cov.label('end page')
    check_eq(pages, want, 'pages')
    check(all(len(line) == 80 for page in pages for line in page), 'line lengths')
    fh = io.BytesIO()
    write_extended_textual_headers(fh, pages, case['enc'])
    check_eq(fh.getvalue()[3600:], b''.join(ref.encode_text(line, case['enc']) for p in want for line in p), 'written')


@st.composite
def one_page(draw, enc):
    char = gen.text_chars(enc)
    some = draw(st.lists(st.text(char, max_size=80), max_size=4))
    seed = draw(st.integers(1, 97))
    page = []
    for k in range(40):
        line = some[(k * seed + k // 3) % len(some)] if some else ''
        page.append(line.ljust(80)[:80].replace('SEG', 'GES'))
    return page


@gen.cached
def page_lists(enc):
    return st.lists(one_page(enc), max_size=5)


@st.composite
def page_cases(draw):
    enc = draw(st.sampled_from(gen.ENCODINGS))
    pages = draw(page_lists(enc))
    mode = draw(st.sampled_from(['count', 'count', 'count with end', 'until', 'until']))
    where = draw(st.sampled_from([0, 0, 1, 30, 64]))
    decoy = draw(st.sampled_from([None, None, 1, 20, 39]))
    if decoy is not None and pages:
        # only the first line of a page is where the stanza counts
        pages[0][decoy] = STANZA.ljust(80)
    if mode != 'count':
        end = draw(one_page(enc)) if draw(st.booleans()) else [' ' * 80] * 40
        end[0] = (' ' * where + STANZA).ljust(80)
        pages = pages + [end]
    return dict(enc=enc, pages=pages, mode=mode, endian=draw(st.sampled_from('<>')),
                after=draw(st.sampled_from([b'', b'\0' * 240, b'x' * 5000])),
                pos=draw(st.sampled_from([0, 3600, 17])), kind=draw(st.sampled_from(['lists', 'tuples', 'iterators'])),
                cut=draw(st.integers(0, 10**6)))


def given(pages, kind):
    if kind == 'lists':
        return [list(p) for p in pages]
    if kind == 'tuples':
        return tuple(tuple(p) for p in pages)
    return (iter(p) for p in pages)


def roundtrip(case, cov):
    from segpy import toolkit
    from segpy.binary_reel_header import BinaryReelHeader
    pages, enc = case['pages'], case['enc']
    n = len(pages)
    cov.nontrivial(any(line.strip() for p in pages for line in p))
    cov.label(case['mode'])
    cov.label('%d pages' % n if n < 3 else 'more pages')
    head = bytes(range(240)) * 15
    fh = io.BytesIO(head)
    fh.seek(case['pos'])
    toolkit.write_extended_textual_headers(fh, given(pages, case['kind']), enc)
    end = 3600 + 3200 * n
    check_eq(fh.tell(), end, 'position after writing')
    want = head + b''.join(ref.encode_text(line, enc) for p in pages for line in p)
    check_eq(fh.getvalue(), want, 'bytes written')

    declared = -1 if case['mode'] == 'until' else n
    brh = BinaryReelHeader(num_extended_textual_headers=declared)
    check_eq(toolkit.num_extended_textual_headers(brh), declared, 'declared')
    fh = io.BytesIO(want + case['after'])
    fh.seek(case['pos'])
    got = toolkit.read_extended_textual_headers(fh, brh, enc)
    check_eq([list(p) for p in got], pages, 'pages read')
    check_eq(fh.tell(), end, 'position after reading')
    for k, page in enumerate(got):
        check_eq(toolkit.has_end_text_stanza(page), case['mode'] != 'count' and k == n - 1, 'end page')
    # from the current position
    fh.seek(3600)
    if declared < 0:
        got = toolkit.read_extended_headers_until_end(fh, enc)
    else:
        got = toolkit.read_extended_headers_counted(fh, n, enc)
    check_eq([list(p) for p in got], pages, 'pages read directly')
    check_eq(fh.tell(), end, 'position')

    if n:
        # truncated anywhere
        cut = 3600 + case['cut'] % (3200 * n)
        for at in (cut, end - 1):
            raises(EOFError, lambda: toolkit.read_extended_textual_headers(io.BytesIO(want[:at]), brh, enc),
                   'truncated at %d' % at)
    # fewer than are there
    if case['mode'] != 'until' and n > 1:
        brh = BinaryReelHeader(num_extended_textual_headers=n - 1)
        got = toolkit.read_extended_textual_headers(fh, brh, enc)
        check_eq([list(p) for p in got], pages[:-1], 'fewer pages')
        check_eq(fh.tell(), end - 3200, 'position after fewer pages')


@st.composite
def bad_cases(draw):
    enc = draw(st.sampled_from(gen.ENCODINGS))
    pages = draw(page_lists(enc)) or [[' ' * 80] * 40]
    kind = draw(st.sampled_from(['line length', 'page length', 'unencodable', 'encoding', 'premature', 'negative',
                                 'format encoding']))
    case = dict(kind=kind, enc=enc, pages=pages, page=draw(st.integers(0, len(pages) - 1)),
                line=draw(st.sampled_from([0, 1, 20, 39])))
    if kind == 'line length':
        case['n'] = draw(st.sampled_from([0, 1, 78, 79, 81, 82, 160]))
    elif kind == 'page length':
        case['n'] = draw(st.sampled_from([0, 1, 39, 41, 80]))
    elif kind == 'unencodable':
        case['char'] = draw(st.sampled_from('\u20ac\u0100\U0001f600\ud800' if enc == 'cp037' else '\x80\xe9\u20ac'))
        case['col'] = draw(st.sampled_from([0, 40, 79]))
    elif kind in ('encoding', 'format encoding'):
        case['bad'] = draw(st.sampled_from(['utf8', 'latin1', 'ASCII', 'cp500', '', None]))
    elif kind == 'premature':
        case['extra'] = draw(st.integers(1, 3))
    elif kind == 'negative':
        case['n'] = draw(st.sampled_from([-1, -2, -100]))
    return case


def refused(case, cov):
    from segpy import toolkit
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.encoding import UnsupportedEncodingError
    kind, enc = case['kind'], case['enc']
    pages = [list(p) for p in case['pages']]
    cov.nontrivial(True)
    cov.label(kind)
    page = pages[case['page']]
    fh = io.BytesIO(bytes(3600))
    if kind == 'line length':
        page[case['line']] = 'y' * case['n']
        raises(ValueError, lambda: toolkit.write_extended_textual_headers(fh, pages, enc), 'line of %d' % case['n'])
    elif kind == 'page length':
        page[:] = (page * 2)[:case['n']]
        raises(ValueError, lambda: toolkit.write_extended_textual_headers(fh, pages, enc), 'page of %d' % case['n'])
    elif kind == 'unencodable':
        line = page[case['line']]
        page[case['line']] = line[:case['col']] + case['char'] + line[case['col'] + 1:]
        raises(UnicodeError, lambda: toolkit.write_extended_textual_headers(fh, pages, enc), case['char'])
    elif kind == 'encoding':
        raises(UnsupportedEncodingError, lambda: toolkit.write_extended_textual_headers(fh, pages, case['bad']),
               case['bad'])
        check_eq(len(fh.getvalue()), 3600, 'written before failing')
    elif kind == 'format encoding':
        raises(UnsupportedEncodingError, lambda: toolkit.format_extended_textual_header('text', case['bad']),
               case['bad'])
    elif kind == 'premature':
        page[0] = STANZA.ljust(80)
        pages = pages[:case['page'] + 1] + [page] * 0 + [[' ' * 80] * 40] * case['extra']
        data = bytes(3600) + b''.join(ref.encode_text(line, enc) for p in pages for line in p)
        brh = BinaryReelHeader(num_extended_textual_headers=len(pages))
        raises(ValueError, lambda: toolkit.read_extended_textual_headers(io.BytesIO(data), brh, enc), 'premature end')
    else:
        data = io.BytesIO(bytes(20000))
        raises(ValueError, lambda: toolkit.read_extended_headers_counted(data, case['n'], enc), 'count %d' % case['n'])
    if kind in ('line length', 'page length', 'unencodable'):
        # what may have been written are complete correct pages
        good = b''.join(ref.encode_text(line, enc) for p in case['pages'][:case['page']] for line in p)
        check((bytes(3600) + good).startswith(fh.getvalue()), 'written before failing')


COUNTS = [17, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 4097]


def many_cases(tier, shard, nshards):
    """Files with a great many pages."""
    k = 0
    for n in COUNTS + ([9999, 32766, 32767] if tier == 'thorough' else [10001]):
        for mode in ('count', 'until'):
            k += 1
            if k % nshards == shard:
                yield dict(n=n, mode=mode, enc=gen.ENCODINGS[k % 2 ^ n % 2], endian='<>'[k // 3 % 2])


def many(case, cov):
    from segpy import toolkit
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.reader import create_reader
    n, enc, endian = case['n'], case['enc'], case['endian']
    cov.nontrivial()
    cov.label('%d pages' % n)
    pages = [[('page %d of %d, line %d' % (k + 1, n, j)).ljust(80) for j in range(40)] if k % 50 < 3 or k > n - 3
             else [('page %d' % (k + 1)).ljust(80)] + [' ' * 80] * 39 for k in range(n)]
    if case['mode'] == 'until':
        pages[-1][0] = STANZA.ljust(80)
        # only the first line counts
        pages[n // 2][1] = STANZA.ljust(80)
    declared = n if case['mode'] == 'count' else -1
    head = ref.encode_cards(['C 1 TEXT'], enc) + ref.encode_binary_header(
        {'data_sample_format': 3, 'num_extended_textual_headers': declared}, endian)
    ext = b''.join(ref.encode_text(''.join(p), enc) for p in pages)
    table = [('num_samples', 115, 2, 0, 2**15 - 1, None, 0)]
    traces = b''.join(ref.encode_trace_header({'num_samples': k}, table, endian) +
                      ref.encode_samples([7 + k] * k, 'int16', endian) for k in range(3))
    fh = io.BytesIO(head)
    toolkit.write_extended_textual_headers(fh, pages, enc)
    check_eq(fh.tell(), 3600 + 3200 * n, 'position after writing %d pages' % n)
    check(fh.getvalue() == head + ext, 'bytes of %d pages written' % n)
    fh = io.BytesIO(head + ext + traces)
    brh = BinaryReelHeader(num_extended_textual_headers=declared)
    got = toolkit.read_extended_textual_headers(fh, brh, enc)
    check_eq(len(got), n, 'number of pages read')
    check_eq(fh.tell(), 3600 + 3200 * n, 'position after reading %d pages' % n)
    for k, page in enumerate(got):
        if list(page) != pages[k]:
            check_eq(list(page), pages[k], 'page %d of %d' % (k, n))
    raises(EOFError, lambda: toolkit.read_extended_textual_headers(io.BytesIO((head + ext)[:-1]), brh, enc),
           '%d pages, the last one truncated' % n)
    fh.seek(0)
    reader = create_reader(fh, encoding=enc, endian=endian, cache_directory=None)
    check([list(p) for p in reader.extended_textual_header] == pages, 'pages of the reader')
    check_eq([list(reader.trace_samples(k)) for k in reader.trace_indexes()], [[], [8], [9, 9]], 'samples after %d pages' % n)


PROPS = [
    Prop('many', many, cases=many_cases, shards=4),
    Prop('formatting', formatting, text_cases, quick=700, shards=3),
    Prop('roundtrip', roundtrip, page_cases, quick=300, shards=3),
    Prop('refused', refused, bad_cases, quick=600),
]
