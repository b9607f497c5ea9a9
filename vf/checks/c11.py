"""C11: the reader cache is transparent."""
import io
import functools
import os
import pickle
import resource
import shutil

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, scratch_dir, rmtree

PROPERTY = 'C11'
RULE = ("A case is a history of up to sixteen operations on files in a small directory tree with links: writing one of "
        "several contents (some differing in a single byte), copying, renaming, deleting, changing directory, damaging, "
        "deleting or making unwritable what is in cache directories, and opening with varying names, handles, "
        "encodings, byte orders, formats, forced dimensionality and cache directories. Each reader must report what one "
        "made at the same moment without a cache reports. Also entries whose loading fails in various ways, and large "
        "files differing anywhere. Non-trivial: at least one open for which a usable cache "
        "entry was present.")
ASSUMPTIONS = ["A file is not changed while a reader created before the change is in use.",
               "Trace header formats are told apart by their repr, so formats sharing one are excluded.",
               "Cache files altered so that they still load as a reader are out of scope."]

NAMES = ['a.sgy', 'b.sgy', 'd1/a.sgy', 'd1/b.sgy', 'd2/a.sgy']
DIRS = ['.', 'd1', 'd2', 'd1link']


@st.composite
def contents(draw):
    kind = draw(st.sampled_from(['grid', 'cdp', 'dup', 'empty', 'ragged']))
    n = draw(st.integers(1, 6))
    fmt = draw(st.sampled_from(['int8', 'int16', 'ibm', 'float32']))
    big = draw(st.integers(0, 5)) == 0 and kind != 'empty'
    return dict(kind=kind, n=n, fmt=fmt, big=big, endian=draw(st.sampled_from('>>>>><')),
                enc=draw(st.sampled_from(['ascii', 'ascii', 'cp037'])))


def materialise(c):
    """The content and a variant differing in its last byte."""
    n = c['n'] if c['kind'] != 'empty' else 0
    if c['kind'] in ('grid', 'ragged'):
        at = [(k, k // 2, k % 2) for k in range(n)]
    elif c['kind'] == 'cdp':
        at = [(10 + 2 * k, 1, 1) for k in range(n)]
    else:
        at = [(7, 1, 1)] * n
    lengths = [(3 + k if c['kind'] == 'ragged' else 3) for k in range(n)]
    if c['big'] and n:
        lengths[0] = 30000
        if ref.SAMPLE_SIZES[c['fmt']] == 1 and n > 1:
            lengths[1] = 32767
            lengths = lengths[:2] + [32767] + lengths[3:] if n > 2 else lengths
    data = gen.survey_bytes(at, c['endian'], c['fmt'], lengths, c['enc'])
    if n:
        # the last sample, or a header field of the last trace, is different
        variant = bytearray(data)
        variant[-1 if c['endian'] == '>' or c['fmt'] == 'ibm' else -ref.SAMPLE_SIZES[c['fmt']]] ^= 1
    else:
        variant = bytearray(data)
        variant[3204] ^= 1
    text = bytearray(data)
    text[3] = text[4]
    return [data, bytes(variant), bytes(text)]


_OPEN = st.fixed_dictionaries(dict(
    op=st.just('open'), name=st.integers(0, len(NAMES) - 1),
    style=st.sampled_from(['rel', 'rel', 'abs', 'link', 'dots']),
    handle=st.sampled_from(['disk', 'disk', 'disk', 'disk', 'raw', 'update', 'fd', 'memory']),
    enc=st.sampled_from([None, None, 'ascii', 'cp037']), endian=st.sampled_from('>>>><'),
    thf=st.sampled_from(['rev1', 'rev1', 'rev1', 'ext', 'compact', 'rev0', 'twin', 'nested', 'lines']),
    dim=st.sampled_from([None, None, None, None, None, 1, 2, 3]),
    cache=st.sampled_from(['default', 'default', 'default', 'c', 'd1/c', 'abs', 'blocked', 'none']),
    trouble=st.sampled_from(['no'] * 8 + ['full', 'unprivileged'])))
_AGAIN = st.fixed_dictionaries(dict(op=st.just('again'), change=st.sampled_from(
    ['nothing', 'nothing', 'endian', 'thf', 'enc', 'dim', 'cache', 'style', 'handle', 'name']), pick=st.integers(0, 7)))
_OTHER = st.fixed_dictionaries(dict(
    op=st.sampled_from(['write', 'write', 'write', 'copy', 'copy', 'rename', 'delete', 'chdir', 'chdir', 'truncate',
                        'garbage', 'empty', 'poison', 'poison', 'delete-cache', 'directory', 'swap']),
    a=st.integers(0, 40), b=st.integers(0, 40), n=st.integers(0, 4000)))
_OPS = gen.weighted((4, _OPEN), (4, _AGAIN), (4, _OTHER))


@st.composite
def cases(draw):
    return dict(contents=draw(st.lists(contents(), min_size=1, max_size=3)),
                first=draw(_OPEN), ops=draw(st.lists(_OPS, min_size=draw(st.integers(1, 8)), max_size=16)))


# What a stale or damaged cache file may hold: each raises another exception when it is loaded
UNLOADABLE = [
    b'cno_such_module\nthing\n.',                   # ModuleNotFoundError
    b'cos\nno_such_thing\n.',                       # AttributeError
    b'(lp0\nI1\n',                                  # EOFError
    b'I1',                                          # UnpicklingError
    b'\x80\x63.', b'\x80\x04I\n.', b'Ix\n.',        # ValueError
    b'(lp0\nI1\nsb.', b'\x80\x04s.', b't.',         # IndexError, UnpicklingError
    b'\x80\x04\x8c\x02\xff\xfe.',                   # UnicodeDecodeError
    b'\x80\x04h\x07.', b'g7\n.',                    # KeyError or UnpicklingError
    b'\x80\x04\x8e' + b'\xff' * 8 + b'.',           # OverflowError or MemoryError
    b'cbuiltins\ndivmod\n(I1\nI0\ntR.',             # ZeroDivisionError
    b'cbuiltins\nlen\n(I1\ntR.',                    # TypeError
    b'cos\nstat\n(V/no/such/file\ntR.',            # FileNotFoundError
    b'csegpy.reader\nSegYReader\n)\x81}b.',         # an object without its attributes
    b'\x80\x04}(K\x01]K\x02u]s.',                   # unhashable key
    b'', b'\n', b'\0', b'.',
]


class World:
    def __init__(self, base, case):
        self.base = base
        self.pool = [v for c in case['contents'] for v in materialise(c)]
        for d in ('d1', 'd2', 'abs'):
            os.mkdir(os.path.join(base, d))
        os.symlink('d1', os.path.join(base, 'd1link'))
        with open(os.path.join(base, 'blocked'), 'w') as f:
            f.write('a file where a directory is expected')
        with open(os.path.join(base, 'd1', 'blocked'), 'w') as f:
            f.write('another')
        with open(os.path.join(base, 'd2', 'blocked'), 'w') as f:
            f.write('another')
        self.dims = {}
        self.poisoned = False

    def path(self, k):
        return os.path.join(self.base, NAMES[k % len(NAMES)])

    def named(self, k, style):
        """The path in one of several spellings; needs the working directory to be in the tree."""
        path = self.path(k)
        if style == 'abs':
            return path
        if style == 'link' and '/d1/' in path:
            path = path.replace('/d1/', '/d1link/')
            return os.path.relpath(path)
        if style == 'dots':
            return os.path.join('..', os.path.basename(os.path.realpath('.')), os.path.relpath(path))
        return os.path.relpath(path)

    def cache_files(self):
        out = []
        for root, dirs, files in os.walk(self.base):
            if os.path.basename(root) in ('.segpy', 'c', 'abs'):
                out += [os.path.join(root, f) for f in files]
        return sorted(out)


def open_handle(op, path):
    kind = op['handle']
    if kind == 'raw':
        return open(path, 'rb', buffering=0)
    if kind == 'update':
        return open(path, 'r+b')
    if kind == 'fd':
        return os.fdopen(os.open(path, os.O_RDONLY), 'rb')
    if kind == 'memory':
        with open(path, 'rb') as f:
            return io.BytesIO(f.read())
    return open(path, 'rb')


class Trouble:
    """A full disk, or a process without rights to the cache, while a reader is created."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        if self.kind == 'full':
            self.limits = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (100, self.limits[1]))
        elif self.kind == 'unprivileged':
            try:
                os.seteuid(65534)
            except OSError:
                self.kind = 'no'

    def __exit__(self, *args):
        if self.kind == 'full':
            resource.setrlimit(resource.RLIMIT_FSIZE, self.limits)
        elif self.kind == 'unprivileged':
            os.seteuid(0)


@functools.lru_cache(maxsize=None)
def local_format():
    """A format which can not be pickled."""
    from segpy.field_types import Int32
    from segpy.header import field
    from segpy.trace_header import TraceHeaderRev1

    class LocalTraceHeader(TraceHeaderRev1):
        local_field = field(Int32, offset=237, default=0, documentation="Something.")
    return LocalTraceHeader


@functools.lru_cache(maxsize=None)
def local_binary_format():
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.field_types import Int32
    from segpy.header import field

    class LocalBinaryHeader(BinaryReelHeader):
        local_field = field(Int32, offset=3507, default=0, documentation="Something.")
    return LocalBinaryHeader


def create(fh, op, cache, dim):
    from segpy.reader import create_reader
    from vf.formats import FORMATS, BINARY_FORMATS
    kwargs = {} if cache == 'default' else dict(cache_directory=cache)
    if op.get('brhf', 'std') != 'std':
        kwargs['binary_reel_header_format'] = local_binary_format() if op['brhf'] == 'local' \
            else BINARY_FORMATS[op['brhf']][0]
    return create_reader(fh, encoding=op['enc'], endian=op['endian'],
                         trace_header_format=local_format() if op['thf'] == 'local' else FORMATS[op['thf']][0],
                         dimensionality=dim, **kwargs)


def plain_outcome(op, path, dim):
    with open_handle(op, path) as fh:
        return gen.outcome(lambda: gen.report(create(fh, op, None, dim)))


def history(case, cov):
    base = os.path.realpath(scratch_dir())
    os.chmod(base, 0o755)
    old = os.getcwd()
    try:
        os.chdir(base)
        run(World(base, case), case, cov)
    finally:
        if os.geteuid() != 0:
            os.seteuid(0)
        os.chdir(old)
        rmtree(base)


def do_open(world, op, cov, expect_poison=False):
    path = world.named(op['name'], op['style'])
    if not os.path.exists(path):
        return
    cache = op['cache']
    if cache == 'abs':
        cache = os.path.join(world.base, 'abs')
    elif cache == 'none':
        cache = None
    # what a reader made without a cache reports, now
    want = plain_outcome(op, path, op['dim'])
    with open(path, 'rb') as f:
        content = f.read()
    before = world.cache_files()
    with open_handle(op, path) as fh:
        with Trouble(op['trouble']):
            got = gen.outcome(lambda: create(fh, op, cache, op['dim']))
        if got[0] == 'ok':
            reader = got[1]
            got = gen.outcome(lambda: gen.report(reader))
    with open(path, 'rb') as f:
        check(f.read() == content, 'the file was changed by reading it')
    if got == ('raised', 'TypeError') and world.poisoned and want != got:
        cov.label('refused a foreign entry')
        return
    if expect_poison and op['trouble'] == 'no':
        raise Violation('a cache entry holding something else than a reader was accepted: %r' % (got[1],))
    if before:
        cov.label('with entries present')
    key = (content, op['enc'], op['thf'], op['endian'], path, os.path.realpath(path), cache)
    if before and key in world.dims:
        cov.label('with matching entry')
        cov.nontrivial()
    dims = world.dims.setdefault(key, set())
    if got != want and dims - {op['dim']}:
        for d in sorted(dims - {op['dim']}, key=str):
            if got == plain_outcome(op, path, d):
                cov.finding('dimensionality-not-in-key',
                            'with a cache entry made for dimensionality %r, dimensionality %r gives a %s' % (
                                d, op['dim'], got[1] if got[0] == 'raised' else got[1]['kind']))
                return
    dims.add(op['dim'])
    if got != want:
        if got[0] == want[0] == 'ok':
            bad = [k for k in want[1] if got[1].get(k) != want[1][k]] + [k for k in got[1] if k not in want[1]]
            raise Violation('with a cache, %s differ: %s, expected %s' % (
                bad, repr({k: got[1].get(k) for k in bad})[:600], repr({k: want[1].get(k) for k in bad})[:600]))
        raise Violation('with a cache: %s, without: %s' % (repr(got)[:300], repr(want)[:300]))
    cov.label('opened ' + want[0])


def run(world, case, cov):
    for k in range(len(NAMES)):
        if k % 2 == 0 or k == 1:
            with open(world.path(k), 'wb') as f:
                f.write(world.pool[k % len(world.pool)])
    last = None
    exact = False       # nothing happened since the last open but poisoning
    for op in [case['first']] + case['ops']:
        what = op['op']
        cov.label(what)
        if what == 'open':
            do_open(world, op, cov)
            last, exact = op, True
            continue
        if what == 'again':
            op = change(last, op['change'], op['pick'])
            expect = False
            if exact == 'poisoned' and op == last and op['handle'] in ('disk', 'raw', 'update'):
                expect = True
            do_open(world, op, cov, expect)
            last, exact = op, exact if op == last else True
            continue
        a, b = world.path(op['a']), world.path(op['b'])
        caches = world.cache_files()
        if what == 'write':
            exact = False
            with open(a, 'wb') as f:
                f.write(world.pool[op['b'] % len(world.pool)])
        elif what == 'copy':
            exact = False
            if os.path.exists(a) and a != b:
                shutil.copyfile(a, b)
        elif what == 'rename':
            exact = False
            if os.path.exists(a):
                os.replace(a, b)
        elif what == 'delete':
            exact = False
            if os.path.exists(a):
                os.unlink(a)
        elif what == 'chdir':
            exact = False
            os.chdir(os.path.join(world.base, DIRS[op['a'] % len(DIRS)]))
        elif what == 'truncate':
            exact = False
            for f in caches:
                if os.path.isfile(f):
                    size = os.path.getsize(f)
                    os.truncate(f, min(size, op['n'] if op['a'] % 2 else max(0, size - 1 - op['n'] % 50)))
        elif what == 'garbage':
            exact = False
            for f in caches:
                if os.path.isfile(f):
                    with open(f, 'wb') as h:
                        h.write(b'\xff' + bytes(range(op['a'] % 7, 200)) + b'.')
        elif what == 'empty':
            exact = False
            for f in caches:
                if os.path.isfile(f):
                    os.truncate(f, 0)
        elif what == 'delete-cache':
            exact = False
            for f in caches:
                os.unlink(f)
            world.poisoned = False
        elif what == 'directory':
            exact = False
            for f in caches:
                os.unlink(f)
                os.mkdir(f)
        elif what == 'swap':
            # stale entries made by another version of the library, or which cannot be loaded
            exact = False
            for f in caches:
                with open(f, 'wb') as h:
                    h.write(UNLOADABLE[op['a'] % len(UNLOADABLE)])
        elif what == 'poison':
            usable = caches and exact is True and last is not None and last['cache'] not in ('none', 'blocked') \
                and last['trouble'] == 'no' and os.path.exists(world.named(last['name'], last['style']))
            for f in caches:
                with open(f, 'wb') as h:
                    pickle.dump(['not a reader', 42, {}, (1, 2), [b'x']][op['a'] % 5], h)
            if caches:
                world.poisoned = True
            if usable and succeeded(world, last):
                exact = 'poisoned'
            else:
                exact = False


def succeeded(world, op):
    return plain_outcome(op, world.named(op['name'], op['style']), op['dim'])[0] == 'ok'


def change(op, what, pick):
    op = dict(op)
    if what == 'endian':
        op['endian'] = '<' if op['endian'] == '>' else '>'
    elif what == 'thf':
        op['thf'] = ['rev1', 'ext', 'compact', 'rev0', 'twin', 'nested', 'compact', 'twin'][pick % 8]
    elif what == 'enc':
        op['enc'] = [None, 'ascii', 'cp037'][pick % 3]
    elif what == 'dim':
        op['dim'] = [None, 1, 2, 3][pick % 4]
    elif what == 'cache':
        op['cache'] = ['default', 'c', 'd1/c', 'abs', 'blocked', 'none'][pick % 6]
    elif what == 'style':
        op['style'] = ['rel', 'abs', 'link', 'dots'][pick % 4]
    elif what == 'handle':
        op['handle'] = ['disk', 'raw', 'update', 'fd'][pick % 4]
    elif what == 'name':
        op['name'] = pick
    if what != 'nothing':
        op['trouble'] = 'no'
    return op


def forced_cases(tier, shard, nshards):
    for first in (None, 1, 2, 3):
        for second in (None, 1, 2, 3):
            yield (first, second)


def forced(case, cov):
    """Every pair of dimensionality requests for one file which supports all of them."""
    cov.nontrivial(case[0] != case[1])
    base = os.path.realpath(scratch_dir())
    try:
        path = os.path.join(base, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(gen.survey_bytes([(k, k // 2, k % 2) for k in range(4)], lengths=[2] * 4))
        op = dict(name=0, handle='disk', enc=None, endian='>', thf='rev1')
        for k, dim in enumerate(case):
            want = plain_outcome(op, path, dim)
            with open(path, 'rb') as fh:
                got = gen.outcome(lambda: gen.report(create(fh, op, 'default', dim)))
            if got != want:
                if k == 1 and got == plain_outcome(op, path, case[0]):
                    cov.finding('dimensionality-not-in-key', 'dimensionality %r after %r gives a %s' % (
                        dim, case[0], got[1]['kind']))
                else:
                    check_eq(got, want, 'reader for dimensionality', dim)
    finally:
        rmtree(base)


@st.composite
def rewritten_cases(draw):
    """A file, and another of the same length which differs in one place anywhere in it."""
    kind = draw(st.sampled_from(['many', 'long', 'long', 'few']))
    places = ['cdp', 'inline', 'xline', 'split', 'interval', 'text', 'format']
    if kind == 'many':
        n = draw(st.sampled_from([60, 280, 290, 600, 1100]))
        lengths = [draw(st.integers(0, 4))] * n
    elif kind == 'long':
        n = draw(st.integers(2, 24))
        lengths = [draw(st.one_of(st.integers(1000, 32767), st.just(32000))) for _ in range(n)]
        places += ['cdp', 'split', 'split', 'split', 'inline', 'xline']
    else:
        n = draw(st.integers(1, 5))
        lengths = [draw(st.integers(0, 4))] * n
    return dict(kind=kind, lengths=lengths, fmt=draw(st.sampled_from(['int8', 'int16', 'ibm'])),
                trace=draw(st.integers(0, n - 1)),
                what=draw(st.sampled_from(places)),
                bit=draw(st.integers(0, 14)), keep_times=draw(st.booleans()), way=draw(st.sampled_from(
                    ['rewrite', 'patch', 'replace'])), there_and_back=draw(st.booleans()))


def light_report(reader):
    n = reader.num_traces()
    out = dict(kind=type(reader).__name__, n=n, lengths=[reader.num_trace_samples(i) for i in range(n)],
               text=list(reader.textual_reel_header), interval=int(reader.binary_reel_header.sample_interval),
               fmt=reader.data_sample_format, max=reader.max_num_trace_samples())
    if hasattr(reader, 'cdp_numbers'):
        numbers = sorted(reader.cdp_numbers())
        out['cdp'] = [(c, reader.trace_index(c)) for c in numbers]
    if hasattr(reader, 'inline_numbers'):
        out['lines'] = (list(reader.inline_numbers()), list(reader.xline_numbers()))
        out['pairs'] = [(p, reader.trace_index(p)) for p in sorted(reader.inline_xline_numbers())]
    for i in sorted({0, n // 2, n - 1}):
        header = reader.trace_header(i)
        out['trace', i] = (int(header.num_samples), int(header.ensemble_num), int(header.inline_number),
                           ref.comparable(reader.trace_samples(i, 0, min(3, out['lengths'][i])), out['fmt']))
    return out


def rewritten(case, cov):
    lengths = case['lengths']
    n = len(lengths)
    size = {'int8': 1, 'int16': 2, 'ibm': 4}[case['fmt']]
    sizes = [240 + size * k for k in lengths]
    data = gen.survey_bytes([(k + 1, k // 7, k % 7) for k in range(n)], '>', case['fmt'], lengths)
    other = bytearray(data)
    at = 3600 + sum(sizes[:case['trace']])
    what = case['what']
    if what in ('cdp', 'inline', 'xline'):
        pos = at + {'cdp': 20, 'inline': 188, 'xline': 192}[what]
        pos += 3 - case['bit'] // 8
        other[pos] ^= 1 << case['bit'] % 8
    elif what == 'split':
        # this trace and the next one share the same bytes in another way
        t = min(case['trace'], n - 2)
        if n > 1 and lengths[t]:
            at = 3600 + sum(sizes[:t])
            new = lengths[t] - 1 - case['bit'] % lengths[t]
            head = data[at:at + 114] + new.to_bytes(2, 'big') + data[at + 116:at + 240]
            k = at + sizes[t]
            grown = lengths[t + 1] + lengths[t] - new
            if grown < 32768:
                head2 = data[k:k + 114] + grown.to_bytes(2, 'big') + data[k + 116:k + 240]
                body = data[at + 240:k] + data[k + 240:k + sizes[t + 1]]
                other[at:k + sizes[t + 1]] = head + body[:new * size] + head2 + body[new * size:]
    elif what == 'interval':
        other[3216] ^= 1 << case['bit'] % 7
    elif what == 'text':
        other[80 * (case['bit'] + 1) + 4 + case['bit']] ^= 1
    elif case['fmt'] == 'ibm':
        other[3225] = 2         # the same bytes as 32-bit integers
    assert len(other) == len(data)
    other = bytes(other)
    cov.nontrivial(other != data)
    cov.label(what)
    cov.label(case['way'])
    cov.label('%d blocks of 64 KiB' % (len(data) // 65536 + 1))
    base = os.path.realpath(scratch_dir())
    try:
        path = os.path.join(base, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(data)
        times = os.stat(path)
        contents = [data, other] + ([data] if case['there_and_back'] else [])
        op = dict(enc=None, endian='>', thf='rev1')
        for k, content in enumerate(contents):
            if k:
                if case['way'] == 'rewrite':
                    with open(path, 'wb') as f:
                        f.write(content)
                elif case['way'] == 'patch':
                    old = contents[k - 1]
                    lo = next((i for i in range(0, len(content), 4096) if old[i:i + 4096] != content[i:i + 4096]), 0)
                    with open(path, 'r+b') as f:
                        f.seek(lo)
                        f.write(content[lo:])
                else:
                    with open(path + '.new', 'wb') as f:
                        f.write(content)
                    os.replace(path + '.new', path)
                if case['keep_times']:
                    os.utime(path, ns=(times.st_atime_ns, times.st_mtime_ns))
            want = gen.outcome(lambda: light_report(create(io.BytesIO(content), op, None, None)))
            for _ in range(2):
                with open(path, 'rb') as fh:
                    got = gen.outcome(lambda: light_report(create(fh, op, os.path.join(base, 'cache'), None)))
                if got != want:
                    if got[0] == want[0] == 'ok':
                        bad = [key for key in want[1] if got[1].get(key) != want[1][key]]
                        raise Violation('opened with a cache, content %d has other %s: %s, expected %s' % (
                            k, bad, repr([got[1].get(key) for key in bad])[:300],
                            repr([want[1][key] for key in bad])[:300]))
                    raise Violation('opened with a cache, content %d: %s, without: %s' % (
                        k, repr(got)[:200], repr(want)[:200]))
    finally:
        rmtree(base)


def format_pairs(tier, shard, nshards):
    from vf.formats import FORMATS, BINARY_FORMATS
    k = 0
    for first in sorted(FORMATS) + ['local']:
        for second in sorted(FORMATS) + ['local']:
            for endian in ('>>', '><', '<<'):
                k += 1
                if k % nshards == shard:
                    yield (first, 'std'), (second, 'std'), endian
    for first in sorted(BINARY_FORMATS) + ['local']:
        for second in sorted(BINARY_FORMATS) + ['local']:
            for thf in 'rev1', 'wide':
                k += 1
                if k % nshards == shard:
                    yield ('rev1', first), (thf, second), '>>'


def formats(case, cov):
    """Every pair of header formats, one after the other, with one cache."""
    first, second, endian = case
    cov.nontrivial(first != second)
    base = os.path.realpath(scratch_dir())
    try:
        path = os.path.join(base, 'a.sgy')
        data = bytearray(gen.survey_bytes([(k + 1, 5 + k // 2, 9 + k % 2) for k in range(4)], lengths=[2] * 4))
        for k in range(4):      # something else in every field
            at = 3600 + k * 244
            for pos in list(range(0, 32, 4)) + list(range(180, 240, 4)):
                if data[at + pos:at + pos + 4] == bytes(4):
                    data[at + pos:at + pos + 4] = (1 + k % 2 + pos).to_bytes(4, 'big')
        with open(path, 'wb') as f:
            f.write(data)
        data[3204:3208] = bytes((0, 0, 2, 1))
        data[3506:3510] = bytes((9, 8, 7, 6))
        for (thf, brhf), e in zip((first, second, first), endian + endian[0]):
            op = dict(handle='disk', enc=None, endian=e, thf=thf, brhf=brhf)
            want = plain_outcome(op, path, None)
            with open(path, 'rb') as fh:
                got = gen.outcome(lambda: gen.report(create(fh, op, os.path.join(base, 'c'), None)))
            check_eq(got, want, 'reader for format', thf)
    finally:
        rmtree(base)


def unloadable_cases(tier, shard, nshards):
    for k in range(len(UNLOADABLE)):
        if k % nshards == shard:
            for content in ('3d', '2d', '1d'):
                yield k, content


def unloadable(case, cov):
    """A cache entry which cannot be loaded is no worse than none."""
    cov.nontrivial()
    base = os.path.realpath(scratch_dir())
    at = {'3d': [(0, k // 2, k % 2) for k in range(4)], '2d': [(k, 1, 1) for k in range(4)], '1d': [(1, 1, 1)] * 4}[case[1]]
    try:
        path = os.path.join(base, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(gen.survey_bytes(at, lengths=[2, 0, 1, 2]))
        op = dict(handle='disk', enc=None, endian='>', thf='rev1')
        want = plain_outcome(op, path, None)
        for k in range(4):
            with open(path, 'rb') as fh:
                got = gen.outcome(lambda: gen.report(create(fh, op, 'default', None)))
            check_eq(got, want, 'opening number', k, 'with a cache entry of', UNLOADABLE[case[0]])
            if k % 2 == 0:
                directory = os.path.join(base, '.segpy')
                for name in os.listdir(directory) if os.path.isdir(directory) else ():
                    with open(os.path.join(directory, name), 'wb') as f:
                        f.write(UNLOADABLE[case[0]])
    finally:
        rmtree(base)


def large_cases(tier, shard, nshards):
    k = 0
    for megabytes in (1, 2, 3, 5, 9, 17, 33, 70) if tier == 'quick' else (1, 2, 3, 5, 9, 17, 33, 65, 70, 129, 140, 300):
        for part in ('last', 'middle', 'random', 'tail'):
            k += 1
            if k % nshards == shard:
                yield megabytes, part


def large(case, cov):
    """Files of many megabytes, of which a single header changes."""
    megabytes, part = case
    cov.nontrivial()
    cov.label('%d MB' % megabytes)
    length = 16000 if megabytes > 4 else 3000
    n = (megabytes << 20) // (240 + length) + 2
    survey = gen.VirtualSurvey(n, [length], lambda i: (i, i // 7, i % 7), 'int8', '>')
    base = os.path.realpath(scratch_dir())
    try:
        path = os.path.join(base, 'a.sgy')
        data = survey.read()
        i = {'last': n - 1, 'middle': n // 2, 'random': (n * 7 + megabytes) % n, 'tail': n - 1 - n // 9}[part]
        op = dict(enc=None, endian='>', thf='rev1')
        for k in range(3):
            if k:
                with open(path, 'r+b') as f:
                    f.seek(survey.offset(i) + 20)
                    f.write(b'\x03' if k == 1 else b'\x05')
            else:
                with open(path, 'wb') as f:
                    f.write(data)
            with open(path, 'rb') as fh:
                reader = create(fh, op, os.path.join(base, 'cache'), 2)
                c = i | (0, 3, 5)[k] << 24
                check_eq(int(reader.trace_header(i).ensemble_num), c, 'CDP in the file')
                check_eq(reader.num_traces(), n, 'number of traces')
                check(reader.has_trace_index(c), 'the CDP of content', k, 'is not found')
                check_eq(reader.trace_index(c), i, 'index of the CDP in content', k)
    finally:
        rmtree(base)


PROPS = [
    Prop('unloadable', unloadable, cases=unloadable_cases, shards=2),
    Prop('large', large, cases=large_cases, shards=4),
    Prop('formats', formats, cases=format_pairs, shards=2),
    Prop('history', history, cases, quick=130, shards=8),
    Prop('rewritten', rewritten, rewritten_cases, quick=60, shards=6),
    Prop('forced_dimensionality', forced, cases=forced_cases),
]
