"""C29: the command line."""
import contextlib
import io
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.fieldtables import BINARY_FIELDS
from vf.core import Prop, check, check_eq, scratch_dir, rmtree

PROPERTY = 'C29'
RULE = ("Big-endian files with readable text cards (ASCII or EBCDIC), all sample formats, 3D, 2D, single traces, other "
        "and empty surveys, extended headers; histories of up to eight commands (metadata, report) with varying "
        "spellings of the file name, working directories and log levels, interleaved with replacing the file, deleting, "
        "damaging or blocking the cache. Run within the process, and for some cases as a separate process. The output is parsed and "
        "compared with the reference model. Non-trivial: at least two traces and two commands.")
ASSUMPTIONS = ["Files are big-endian with standard trace headers (the commands have no options for others).",
               "Text is of printable characters and its cards begin with C and a number."]

BRH_FIXED = frozenset({'data_sample_format', 'num_extended_textual_headers', 'format_revision_num', 'num_samples'})
PRINTABLE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:;.,-+()/=*% '


@st.composite
def surveys(draw):
    fmt = draw(st.sampled_from(gen.FMTS))
    enc = draw(st.sampled_from(gen.ENCODINGS))
    at = draw(gen.weighted((6, gen.geometry(8)), (1, gen.number_series(30).map(lambda s: [(c, 1, 1) for c in s])),
                           (1, st.integers(1, 6).map(lambda m: [(0, k // m, k % m) for k in range(4 * m)]))))
    lengths = draw(st.lists(st.integers(0, 9), min_size=len(at), max_size=len(at)))
    if at and draw(st.integers(0, 3)) == 0:
        lengths[draw(st.integers(0, len(at) - 1))] = draw(st.sampled_from([255, 256, 1500, 32767]))
    lines = draw(st.lists(st.text(st.sampled_from(PRINTABLE), max_size=76), max_size=40))
    pages = draw(gen.weighted((3, st.just(0)), (2, st.integers(1, 2))))
    pages = [draw(st.lists(st.text(st.sampled_from(PRINTABLE), max_size=70), max_size=5)) for _ in range(pages)]
    return dict(fmt=fmt, enc=enc, at=at, lengths=lengths, lines=lines, pages=pages,
                until=bool(pages) and draw(st.booleans()),
                brh=dict(draw(gen.overrides(BINARY_FIELDS, 3, BRH_FIXED)), num_samples=draw(st.sampled_from([0, 1, 3, 9, 100, 32767]))), rev=draw(st.sampled_from([0, 256, 256])))


_COMMAND = st.fixed_dictionaries(dict(op=st.sampled_from(['metadata', 'metadata', 'report', 'report']),
                                      style=st.sampled_from(['abs', 'rel', 'dots', 'link']), cwd=st.integers(0, 2),
                                      level=st.sampled_from([None, None, None, 'DEBUG', 'ERROR', 'INFO'])))
_OTHER = st.fixed_dictionaries(dict(op=st.sampled_from(['replace', 'delete-cache', 'damage', 'block', 'nothing'])))


@st.composite
def cases(draw):
    return dict(surveys=[draw(surveys()), draw(surveys())],
                first=draw(_COMMAND), ops=draw(st.lists(gen.weighted((3, _COMMAND), (1, _OTHER)), min_size=1, max_size=7)),
                name=draw(st.sampled_from(['a.sgy', 'b.segy', 'no_extension', 'with space.sgy', 'dir.x/a.sgy'])))


def text_of(s):
    return ['C%2d %s' % (k + 1, (s['lines'][k] if k < len(s['lines']) else '').rstrip()) for k in range(40)]


def encode(s):
    pages = [gen.page_lines(p) for p in s['pages']]
    if s['until']:
        pages[-1] = [gen.END.ljust(78) + '\r\n'] + pages[-1][1:]
    brh = {'data_sample_format': ref.FORMAT_CODES[s['fmt']], 'format_revision_num': s['rev'],
           'num_extended_textual_headers': -1 if s['until'] else len(pages)}
    from vf.formats import FORMATS
    traces = []
    for (cdp, il, xl), n in zip(s['at'], s['lengths']):
        h = {'ensemble_num': cdp, 'inline_number': il, 'crossline_number': xl, 'num_samples': n}
        traces.append((h, [k % 90 for k in range(n)]))
    full = {row[0]: row[6] for row in BINARY_FIELDS}
    full.update(s.get('brh', {}))
    full.update(brh)
    table = FORMATS['rev1'][1]
    plain = {row[0]: row[6] for row in table}
    return ref.encode_file(gen.cards(text_of(s)), full, pages, [(dict(plain, **h), v) for h, v in traces], s['fmt'], '>',
                           s['enc'], table), pages


def expectation(s):
    at = s['at']
    pairs, cdps = {(i, j) for c, i, j in at}, {c for c, i, j in at}
    kind = 3 if len(pairs) == len(at) else 2 if len(cdps) == len(at) else 1
    out = dict(n=len(at), kind=kind, fmt=s['fmt'], longest=max(s['lengths'], default=0))
    out['dim'] = kind if kind > 1 else 1 if len(at) == 1 else 0
    out['cdps'], out['inlines'], out['xlines'] = len(cdps), len({i for i, j in pairs}), len({j for i, j in pairs})
    return out


def in_process(argv):
    import segpy
    from segpy import cli
    out, err = io.StringIO(), io.StringIO()
    handlers, level = list(segpy.log.handlers), segpy.log.level
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.main(argv)
            except SystemExit as e:
                check(e.code in (None, 0), 'exit code', e.code, 'of', argv, out.getvalue()[-300:])
    finally:
        segpy.log.handlers[:] = handlers
        segpy.log.setLevel(level)
    return out.getvalue()


def separately(argv):
    path = [p for p in sys.path if p]
    p = subprocess.run([sys.executable, '-c', 'import sys; from segpy.cli import main; sys.exit(main())'] + argv,
                       env=dict(os.environ, PYTHONPATH=os.pathsep.join(path), PYTHONDONTWRITEBYTECODE='1',
                                PYTHONIOENCODING='utf-8'),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    check_eq(p.returncode, 0, 'exit code of %s (%s)' % (argv, p.stderr.decode(errors='replace')[-300:]))
    return p.stdout.decode()


def history(case, cov, invoke=in_process):
    base = os.path.realpath(scratch_dir())
    old = os.getcwd()
    try:
        tree = os.path.join(base, 'tree')
        os.mkdir(tree)
        for d in ('dir.x', 'sub'):
            os.mkdir(os.path.join(tree, d))
        os.symlink('tree', os.path.join(base, 'link'))
        path = os.path.join(tree, case['name'])
        current = 0
        printed = {}
        data, pages = encode(case['surveys'][0])
        with open(path, 'wb') as f:
            f.write(data)
        commands = 0
        for op in [case['first']] + case['ops']:
            what = op['op']
            cov.label(what)
            cache = os.path.join(os.path.dirname(path), '.segpy')
            entries = [os.path.join(cache, f) for f in os.listdir(cache)] if os.path.isdir(cache) else []
            if what == 'replace':
                current = 1 - current
                data, pages = encode(case['surveys'][current])
                with open(path, 'wb') as f:
                    f.write(data)
            elif what == 'delete-cache':
                for f in entries:
                    os.unlink(f)
            elif what == 'damage':
                for f in entries:
                    os.truncate(f, os.path.getsize(f) // 2)
            elif what == 'block':
                for f in entries:
                    os.unlink(f)
                if os.path.isdir(cache):
                    os.rmdir(cache)
                if not os.path.exists(cache):
                    with open(cache, 'w'):
                        pass
            elif what in ('metadata', 'report'):
                commands += 1
                os.chdir([base, tree, os.path.join(tree, 'sub')][op['cwd']])
                name = path
                if op['style'] == 'rel':
                    name = os.path.relpath(path)
                elif op['style'] == 'dots':
                    name = os.path.join('..', os.path.basename(os.getcwd()), os.path.relpath(path))
                elif op['style'] == 'link':
                    name = os.path.join(base, 'link', case['name'])
                argv = ([] if op['level'] is None else ['--log-level=' + op['level']]) + [what, name]
                out = invoke(argv)
                survey = case['surveys'][current]
                (check_metadata if what == 'metadata' else check_report)(out, survey, name, pages)
                if entries:
                    cov.label('with cache')
                key = (what, name, current)
                check_eq(out, printed.setdefault(key, out), 'printed again by %s' % argv)
                with open(path, 'rb') as f:
                    check(f.read() == data, 'the file was changed')
        want = expectation(case['surveys'][0])
        cov.label('kind %d' % want['kind'])
        cov.nontrivial(want['n'] > 1 and commands > 1)
    finally:
        os.chdir(old)
        rmtree(base)


def check_metadata(out, survey, name, pages):
    want = expectation(survey)
    lines = [line for line in out.splitlines() if line.strip()]
    check_eq(len(lines), 1, 'lines printed: %r' % out[:300])
    got = json.loads(lines[0])
    check(isinstance(got, dict), 'a JSON object', out)
    for key, value in (('num_traces', want['n']), ('dimensionality', want['dim']), ('data_sample_format', want['fmt']),
                       ('max_num_trace_samples', want['longest'])):
        check_eq(got.get(key), value, key)


def check_report(out, survey, name, pages):
    want = expectation(survey)
    head, mark, rest = out.partition('=== BEGIN TEXTUAL REEL HEADER ===\n')
    check(mark, 'no textual header in', out[:300])
    text, mark, rest = rest.partition('=== END TEXTUAL REEL HEADER ===\n')
    check(mark, 'no end of textual header')
    shown = {}
    for line in head.splitlines():
        if line.strip():
            key, _, value = line.partition(':')
            shown[key.strip()] = value.strip()
    expected = {'Filename': name, 'SEG Y revision': str(survey['rev']), 'Number of traces': str(want['n']),
                'Data format': ref.DESCRIPTIONS[want['fmt']], 'Dimensionality': str(want['dim'])}
    if want['kind'] == 2:
        expected['Number of CDPs'] = str(want['cdps'])
    elif want['kind'] == 3:
        expected['Number of inlines'] = str(want['inlines'])
        expected['Number of crosslines'] = str(want['xlines'])
    check_eq(shown, expected, 'report')
    cards = text.split('\n')
    check_eq(len(cards), 41, 'lines of the textual header')
    for k, (card, line) in enumerate(zip(cards, text_of(survey))):
        check_eq(card.rstrip(), line[3:].rstrip(), 'card %d' % (k + 1))
    extended, mark, _ = rest.partition('=== END EXTENDED TEXTUAL_HEADER ===')
    check(mark, 'no end of extended textual header')
    at = 0
    for page in pages:
        for line in page:
            wanted = line.rstrip()
            if wanted:
                at = extended.find(wanted, at)
                check(at >= 0, 'missing from the extended textual header:', wanted)
                at += len(wanted)


def separate_cases(tier, shard, nshards):
    """A few fixed files as separate processes."""
    base = dict(fmt='ibm', enc='cp037', lines=['HELLO', 'WORLD'], pages=[['X', 'Y']], until=False, rev=256)
    surveys = [dict(base, at=[(k, k // 3, k % 3) for k in range(6)], lengths=[4, 2, 0, 9, 1, 1]),
               dict(base, at=[(5 + 2 * k, 0, 0) for k in range(5)], lengths=[3] * 5, fmt='int16', enc='ascii', pages=[]),
               dict(base, at=[(1, 1, 1)] * 3, lengths=[3] * 3, fmt='float32'),
               dict(base, at=[(1, 1, 1)], lengths=[300], fmt='int8', until=True)]
    for k in range(len(surveys)):
        if k % nshards == shard:
            ops = [dict(op=op, style=style, cwd=k % 3, level=level) for op, style, level in (
                ('report', 'rel', None), ('report', 'rel', 'ERROR'), ('metadata', 'abs', 'DEBUG'))]
            yield dict(surveys=[surveys[k], surveys[(k + 1) % 4]], name='a.sgy',
                       first=dict(op='metadata', style='rel', cwd=k % 3, level=None), ops=ops + [dict(op='replace')] + ops)


def separate(case, cov):
    history(case, cov, separately)


PROPS = [
    Prop('history', history, cases, quick=250, shards=7),
    Prop('separate_process', separate, cases=separate_cases, shards=2),
]
