"""C34: separate readers, writers and headers do not interfere with each other."""
import io
import os
import sys
import threading

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.checks.c03 import guess
from vf.core import Prop, Violation, check, check_eq, scratch_dir, rmtree

PROPERTY = 'C34'
RULE = ("Two to five actors, each with files and objects of its own: reading a generated file, writing a dataset, copying "
        "a file, taking part in a history of headers being made, changed, packed and unpacked, converting IBM floats. "
        "They are interleaved by a generated schedule which may switch at every read, seek and write of a file handle, "
        "every access to a dataset and every report of progress, or nested in each other's callbacks, or run in free "
        "threads, or one after the other on files that are alike in all but one respect. Each must see what it sees alone, according to the reference model. Non-trivial: at least two actors "
        "took turns at least five times.")
ASSUMPTIONS = ["Actors have file handles of their own; sharing one handle between threads is not considered.",
               "Free threads run under the interpreter's lock; such a failure may need several attempts to occur again."]

THFS = ('rev1', 'rev1', 'rev0', 'ext', 'compact', 'shuffled', 'wide')
BRHFS = ('std', 'std', 'ext', 'wide')
KINDS = ['read', 'read', 'write', 'copy', 'headers', 'ibm', 'random']


class Handle:
    """A file in memory, whose operations are places to switch at."""

    def __init__(self, data, pause):
        self._fh = io.BytesIO(data)
        self._pause = pause

    def read(self, *args):
        self._pause()
        out = self._fh.read(*args)
        self._pause()
        return out

    def readinto(self, buffer):
        self._pause()
        out = self._fh.readinto(buffer)
        self._pause()
        return out

    def write(self, data):
        self._pause()
        out = self._fh.write(data)
        self._pause()
        return out

    def seek(self, *args):
        self._pause()
        return self._fh.seek(*args)

    def tell(self):
        return self._fh.tell()

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return True

    @property
    def closed(self):
        return False

    def flush(self):
        self._fh.flush()

    def getvalue(self):
        return self._fh.getvalue()


@st.composite
def actors(draw, small=False):
    kind = draw(st.sampled_from(KINDS))
    out = dict(kind=kind)
    if kind in ('read', 'write', 'copy', 'random'):
        out['ds'] = draw(gen.datasets(max_traces=4, thfs=THFS, brhfs=BRHFS, long=False, max_pages=1))
        out['to'] = draw(st.sampled_from('<>'))
    if kind == 'random':
        out['steps'] = draw(st.lists(st.tuples(st.sampled_from(['header', 'samples', 'part', 'max', 'lines']),
                                               st.integers(0, 7), st.integers(0, 7)), min_size=3, max_size=15))
    if kind == 'headers':
        out['thf'] = draw(st.sampled_from(THFS))
        out['seeds'] = draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=6))
        out['endian'] = draw(st.sampled_from('<>'))
    if kind == 'ibm':
        out['words'] = draw(st.lists(gen.ibm_words(), min_size=1, max_size=8))
    return out


@st.composite
def cases(draw):
    group = draw(st.lists(actors(), min_size=2, max_size=5))
    if draw(st.integers(0, 2)) == 0:
        # two actors with the same file
        twins = [a for a in group if 'ds' in a]
        if twins:
            other = dict(draw(st.sampled_from(twins)))
            group = group[:4] + [dict(other, kind=draw(st.sampled_from(['read', 'copy', 'write'])))]
    return dict(actors=group,
                schedule=draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from([1, 1, 1, 2, 3, 7, 40])),
                                       min_size=1, max_size=30)))


def open_reader(model, data, pause, progress=True, guessed=False):
    from segpy.reader import create_reader
    kwargs = dict(progress=lambda p: pause()) if progress else {}
    return create_reader(Handle(data, pause), encoding=None if guessed and guess(data[:3200]) == model.enc else model.enc, endian=model.endian,
                         trace_header_format=model.format_class, binary_reel_header_format=model.brh_class,
                         cache_directory=None, **kwargs)


def paused_dataset(model, pause):
    plain = model.dataset()

    class Paused(type(plain)):
        def trace_samples(self, trace_index, start=None, stop=None):
            pause()
            return super().trace_samples(trace_index, start, stop)

        def trace_header(self, trace_index):
            pause()
            return super().trace_header(trace_index)
    return Paused()


def act(actor, pause, shared):
    """All an actor does, and the comparison with what it should see."""
    from segpy.writer import write_segy
    kind = actor['kind']
    if kind in ('read', 'write', 'copy', 'random'):
        model = gen.Model(actor['ds'])
        data = model.encoded()
        n = len(model.headers)
    if kind == 'read':
        reader = open_reader(model, data, pause, guessed=actor.get('guess'))
        gen.check_reader_content(reader, model.text, model.brh, model.ext, model.headers,
                                 [model.stored(i) for i in range(n)], model.fmt, model.endian, model.enc, model.table,
                                 model.format_class, model.brh_class, model.brh_table)
    elif kind == 'random':
        reader = open_reader(model, data, pause, False)
        held = []
        for what, i, k in actor['steps']:
            pause()
            if n == 0:
                break
            i %= n
            if what == 'header':
                h = reader.trace_header(i)
                held.append((h, model.headers[i]))
                check_eq(gen.header_dict(h, model.table), model.headers[i], 'header %d' % i)
            elif what == 'samples':
                check_eq(ref.comparable(reader.trace_samples(i), model.fmt), model.stored(i), 'samples %d' % i)
            elif what == 'part' and len(model.samples[i]) > k:
                check_eq(ref.comparable(reader.trace_samples(i, k), model.fmt), model.stored(i)[k:], 'part of %d' % i)
            elif what == 'max':
                check_eq(reader.max_num_trace_samples(), max(map(len, model.samples)), 'greatest length')
            elif what == 'lines':
                check_eq(reader.num_trace_samples(i), len(model.samples[i]), 'length of trace %d' % i)
        for h, want in held:
            check_eq(gen.header_dict(h, model.table), want, 'a header read before')
    elif kind == 'write':
        fh = Handle(b'', pause)
        write_segy(fh, paused_dataset(model, pause), encoding=model.enc, endian=model.endian,
                   trace_header_format=model.format_class, progress=lambda p: pause())
        check(fh.getvalue() == data, 'the file written differs at byte', first_difference(fh.getvalue(), data))
    elif kind == 'copy':
        reader = open_reader(model, data, pause)
        fh = Handle(b'', pause)
        write_segy(fh, reader, endian=actor['to'], trace_header_format=model.format_class)
        want = model.encoded(endian=actor['to'])
        check(fh.getvalue() == want, 'the copy differs at byte', first_difference(fh.getvalue(), want))
    elif kind == 'headers':
        headers_act(actor, pause, shared)
    else:
        ibm_act(actor, pause)


def first_difference(a, b):
    return next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


def headers_act(actor, pause, shared):
    from segpy.header import are_equal
    from vf.formats import FORMATS, ALIASES
    cls, table = FORMATS[actor['thf']]
    packer = shared[actor['thf'], actor['endian']]
    live = []
    for seed in actor['seeds']:
        values = gen.fill_values(seed, table)
        for a, b in ALIASES.get(actor['thf'], ()):
            values[b] = values[a]
        pause()
        h = cls(**values)
        live.append((h, values))
        for row in table[seed % 7::11]:
            pause()
            check_eq(int(getattr(h, row[0])), values[row[0]], 'field', row[0])
        pause()
        packed = packer.pack(h)
        pause()
        check_eq(bytes(packed), ref.encode_header(values, table, 1, 240, actor['endian']), 'packed')
        again = packer.unpack(packed)
        pause()
        check(type(again) is cls and are_equal(again, h), 'unpacked again')
        row = table[seed % len(table)]
        other = h.copy()
        pause()
        setattr(other, row[0], row[6])
        live.append((other, dict(values, **{row[0]: row[6]})))
        pause()
        for obj, want in live:
            check_eq(gen.header_dict(obj, table), want, 'a header made before')


def ibm_act(actor, pause):
    from segpy.ibm_float import IBMFloat
    made = []
    for word in actor['words']:
        pause()
        v = IBMFloat.from_bytes(word)
        made.append((v, word))
        pause()
        check_eq(bytes(v), word, 'bytes')
        pause()
        check(float(v) == float(ref.ibm_value(word)), 'value', float(v))
    total = None
    for v, word in made:
        pause()
        check_eq(bytes(v), word, 'bytes later')
        total = ref.ibm_value(word) if total is None else total + ref.ibm_value(word)
        pause()
        check_eq(bytes(IBMFloat.from_bytes(bytes(v))), word, 'bytes again')


def shared_packers():
    """Packers used by several actors."""
    from segpy.packer import make_header_packer
    from vf.formats import FORMATS
    return {(thf, endian): make_header_packer(FORMATS[thf][0], endian) for thf in set(THFS) for endian in '<>'}


# ---------------------------------------------------------------------------------------------------------- schedules

class Scheduler:
    """Runs actors one at a time, each in a thread of its own, switching as scheduled."""

    def __init__(self, schedule):
        self.schedule = schedule
        self.at = 0
        self.left = 0
        self.switches = 0
        self.back = threading.Semaphore(0)

    def run(self, bodies):
        n = len(bodies)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.failures = [None] * n
        self.finished = [False] * n

        def thread(k):
            self.go[k].acquire()
            try:
                bodies[k](lambda: self.pause(k))
            except BaseException as e:
                self.failures[k] = e
            self.finished[k] = True
            self.back.release()

        threads = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        last = None
        while not all(self.finished):
            who, burst = self.schedule[self.at % len(self.schedule)]
            self.at += 1
            alive = [k for k in range(n) if not self.finished[k]]
            k = alive[who % len(alive)]
            self.switches += k != last
            last = k
            self.left = burst
            self.go[k].release()
            self.back.acquire()
        for t in threads:
            t.join()
        for k, e in enumerate(self.failures):
            if e is not None:
                raise Violation('actor %d: %s: %s' % (k, type(e).__name__, e)) from e

    def pause(self, k):
        self.left -= 1
        if self.left <= 0:
            self.back.release()
            self.go[k].acquire()


def interleaved(case, cov):
    shared = shared_packers()
    for actor in case['actors']:
        cov.label(actor['kind'])
    scheduler = Scheduler(case['schedule'])
    scheduler.run([lambda pause, actor=actor: act(actor, pause, shared) for actor in case['actors']])
    cov.nontrivial(scheduler.switches >= 5)
    cov.label('switches', scheduler.switches)


# ------------------------------------------------------------------------------------------------------------- nesting

@st.composite
def nested_cases(draw):
    return dict(actors=draw(st.lists(actors(), min_size=2, max_size=4)), when=draw(st.lists(st.integers(0, 25), min_size=1,
                                                                                            max_size=4)))


def nested(case, cov):
    """Each actor runs entirely within a callback of the one before it."""
    shared = shared_packers()
    depth = []

    def run(level):
        if level == len(case['actors']):
            return
        count = [0]
        when = case['when'][level % len(case['when'])]

        def pause():
            count[0] += 1
            if count[0] == when + 1:
                depth.append(level)
                run(level + 1)
        act(case['actors'][level], pause, shared)
    run(0)
    cov.nontrivial(depth)
    cov.label('depth', len(depth))


# ------------------------------------------------------------------------------------------------------------- threads

def free(case, cov):
    """Free-running threads."""
    shared = shared_packers()
    group = case['actors'] * 2
    failures = []
    barrier = threading.Barrier(len(group))

    def thread(actor):
        try:
            barrier.wait()
            act(actor, lambda: None, shared)
        except BaseException as e:
            failures.append((actor['kind'], e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=thread, args=(actor,), daemon=True) for actor in group]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    cov.nontrivial(True)
    for kind, e in failures:
        raise Violation('%s in a thread: %s: %s' % (kind, type(e).__name__, e)) from e


@st.composite
def cache_cases(draw):
    ds = draw(gen.datasets(max_traces=5, long=False, max_pages=1))
    return dict(ds=ds, readers=draw(st.integers(2, 5)), rounds=draw(st.integers(1, 4)), other=draw(st.booleans()))


def shared_cache(case, cov):
    """Threads which open the same file with the same cache directory at the same time."""
    from segpy.reader import create_reader
    model = gen.Model(case['ds'])
    n = len(model.headers)
    stored = [model.stored(i) for i in range(n)]
    directory = os.path.realpath(scratch_dir())
    failures = []
    barrier = threading.Barrier(case['readers'])

    def thread(k):
        try:
            for r in range(case['rounds']):
                barrier.wait()
                path = os.path.join(directory, 'b.sgy' if case['other'] and k % 2 else 'a.sgy')
                with open(path, 'rb') as fh:
                    reader = create_reader(fh, encoding=model.enc, endian=model.endian, cache_directory='cache',
                                           trace_header_format=model.format_class)
                    gen.check_reader_content(reader, model.text, model.brh, model.ext, model.headers, stored, model.fmt,
                                             model.endian, model.enc, model.table, model.format_class)
        except BaseException as e:
            failures.append(e)
            barrier.abort()
    old = sys.getswitchinterval()
    try:
        for name in 'a.sgy', 'b.sgy':
            with open(os.path.join(directory, name), 'wb') as f:
                f.write(model.encoded())
        sys.setswitchinterval(1e-6)
        threads = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(case['readers'])]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
        rmtree(directory)
    cov.nontrivial(n > 0)
    for e in failures:
        if not isinstance(e, threading.BrokenBarrierError):
            raise Violation('opening with a shared cache: %s: %s' % (type(e).__name__, e)) from e


# --------------------------------------------------------------------------------------------------------------- twins

ASPECTS = ['endian', 'enc', 'thf', 'fmt', 'brh', 'header', 'samples', 'text', 'last line', 'geometry', 'lengths', 'ext',
           'drop', 'own text', 'brhf']
FILLER = {'nul': '\0' * 80, 'space': ' ' * 80, 'both': 'm:_z' * 20, 'rare': '\x01' * 80}


@st.composite
def twin_cases(draw):
    base = draw(gen.datasets(max_traces=5, thfs=THFS, brhfs=BRHFS, long=False, max_pages=1))
    base['text'] = [ascii_only(t) for t in base['text']]
    base['ext'] = [[ascii_only(t) for t in p] for p in base['ext']]
    k = draw(st.sampled_from(['none', 'none', 'nul', 'both', 'rare']))
    if k != 'none':
        # a start that does not tell the encoding (in half of the cases, not even the bytes differ), then a lot of text
        base['text'] = [FILLER[k]] * draw(st.sampled_from([1, 2, 19])) + ['C LINE OF TEXT THAT IS COMMON'.ljust(80, 'X')] * 40
    changes = draw(st.lists(st.tuples(st.sampled_from(ASPECTS), st.integers(0, 50)), min_size=1, max_size=3))
    n = len(changes) + 1
    return dict(base=base, changes=changes,
                order=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(['read', 'read', 'write', 'copy'])),
                                    min_size=3, max_size=8)),
                guess=draw(st.booleans()))


def ascii_only(text):
    return ''.join(c if ord(c) < 128 else '?' for c in text)


def changed(ds, aspect, k):
    """The dataset with another value in one respect."""
    ds = dict(ds, traces=[dict(t) for t in ds['traces']], text=list(ds['text']), ext=[list(p) for p in ds['ext']],
              brh=dict(ds['brh']))
    traces = ds['traces']
    t = traces[k % len(traces)] if traces else None
    if aspect == 'endian':
        ds['endian'] = '<' if ds['endian'] == '>' else '>'
    elif aspect == 'enc':
        ds['enc'] = 'cp037' if ds['enc'] == 'ascii' else 'ascii'
    elif aspect == 'thf':
        ds['thf'] = THFS[k % len(THFS)]
        for t in traces:
            t['h'] = {}
    elif aspect == 'brhf':
        ds['brhf'] = BRHFS[k % len(BRHFS)]
        ds['brh'] = {}
    elif aspect == 'fmt':
        sizes = {'ibm': 'float32', 'float32': 'int32', 'int32': 'ibm', 'int16': 'int8', 'int8': 'int16'}
        for t in traces:
            t['s'] = ('pattern', max(1, len(gen.expand_samples(t['s'], ds['fmt']))), k)
        ds['fmt'] = sizes[ds['fmt']]
    elif aspect == 'brh':
        ds['brh'] = dict(ds['brh'], sample_interval=k)
    elif aspect == 'text':
        ds['text'][:1] = ['%-80d' % k]
    elif aspect == 'own text':
        ds['text'] = [('%d ' % k) + line[:60] for line in ds['text']]
    elif aspect == 'last line':
        ds['text'] = (ds['text'] + [''] * 40)[:39] + ['LAST %d' % k]
    elif aspect == 'ext' and ds['ext']:
        ds['ext'][-1] = (ds['ext'][-1] + [''] * 40)[:39] + ['LAST %d' % k]
    elif aspect == 'drop':
        ds['traces'] = traces[:-1]
    elif t is not None and aspect == 'header':
        t['fill'] += 1 + k
    elif t is not None and aspect == 'samples':
        t['s'] = ('pattern', len(gen.expand_samples(t['s'], ds['fmt'])), k)
    elif aspect == 'geometry':
        places = [u['at'] for u in traces][::-1]
        for u, at in zip(traces, places):
            u['at'] = at
    elif aspect == 'lengths':
        specs = [u['s'] for u in traces][::-1]
        for u, spec in zip(traces, specs):
            u['s'] = spec
    return ds


def twins(case, cov):
    """Files that are alike in all but one respect, one after the other."""
    members = [case['base']]
    for aspect, k in case['changes']:
        members.append(changed(members[k % len(members)], aspect, k))
        cov.label(aspect)
    for which, kind in case['order']:
        act(dict(kind=kind, ds=members[which], to=members[which]['endian'], guess=case['guess']), lambda: None, {})
    cov.nontrivial(len({which for which, kind in case['order']}) > 1)


# --------------------------------------------------------------------------------------------------------------- tight

def tasks():
    """Simple functions: name, and a function of a small number which gives (a function of no arguments, its result)."""
    from segpy.encoding import guess_encoding
    from segpy.ibm_float import IBMFloat
    from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
    from segpy.header import SubFormatMeta, are_equal
    from segpy.packer import make_header_packer
    from segpy.toolkit import read_binary_values, write_binary_values
    from vf.formats import FORMATS, ALIASES
    out = {}
    for thf in sorted(FORMATS):
        cls, table = FORMATS[thf]
        names = [row[0] for row in table]

        def values_of(k, table=table, thf=thf):
            values = gen.fill_values(1000003 * k + 17, table)
            for a, b in ALIASES.get(thf, ()):
                values[b] = values[a]
            return values

        for endian in '><':
            packer = make_header_packer(cls, endian)

            def unpack(k, cls=cls, table=table, packer=packer, names=names, values_of=values_of, endian=endian):
                values = values_of(k)
                buf = ref.encode_header(values, table, 1, 240, endian)
                some = names[:3] + names[-3:]
                return (lambda: [int(getattr(h, n)) for h in [packer.unpack(buf)] for n in some]), [values[n] for n in some]

            def pack(k, cls=cls, table=table, packer=packer, values_of=values_of, endian=endian):
                values = values_of(k)
                h = cls(**values)
                return (lambda: bytes(packer.pack(h))), ref.encode_header(values, table, 1, 240, endian)
            out['unpack %s %s' % (thf, endian)] = unpack
            out['pack %s %s' % (thf, endian)] = pack

        def construct(k, cls=cls, values_of=values_of, names=names):
            values = values_of(k)
            some = names[:3] + names[-3:]

            def make():
                h = cls(**values)
                g = h.copy()
                return [int(getattr(h, n)) for n in some], are_equal(g, h)
            return make, ([values[n] for n in some], True)

        def sub(k, cls=cls, table=table, names=names, values_of=values_of):
            chosen = (names[k % len(names):] + names)[:3]
            chosen = list(dict.fromkeys(chosen))
            values = values_of(k)
            buf = ref.encode_header(values, table, 1, 240, '>')

            def make():
                fmt = SubFormatMeta('Sub', (), {}, parent_format=cls, parent_field_names=chosen)
                h = make_header_packer(fmt, '>').unpack(buf)
                return [int(getattr(h, n)) for n in chosen], list(fmt.ordered_field_names())
            return make, ([values[n] for n in chosen], chosen)
        out['construct %s' % thf] = construct
        out['sub-format %s' % thf] = sub
    for kind in ('ibm', 'int32', 'int16', 'int8', 'float32'):
        for endian in '><':
            def values(k, kind=kind, endian=endian):
                n = 3 + 5 * k
                want = [float(k * 7 + i) if kind in ('ibm', 'float32') else k * 7 + i for i in range(n)]
                data = ref.encode_samples(want, kind, endian)
                fh, to = io.BytesIO(b'ab' + data), io.BytesIO()

                def work():
                    got = read_binary_values(fh, 2, kind, n, endian)
                    to.seek(0)
                    write_binary_values(to, got, kind, endian)
                    return [float(v) for v in got], to.getvalue()
                return work, ([float(v) for v in want], data)
            out['samples %s %s' % (kind, endian)] = values

    def ibm(k):
        words = b''.join(bytes([65 + k, 16 + i, k, i]) for i in range(4 + k))
        want = [float(ref.ibm_value(words[i:i + 4])) for i in range(0, len(words), 4)]
        return (lambda: (list(map(float, unpack_ibm_floats(words, 4 + k))), bytes(pack_ibm_floats(want)),
                         float(IBMFloat.from_float(want[0])))), (want, words, want[0])
    out['ibm'] = ibm

    def text(k):
        raw = ref.encode_cards(['LINE %d OF TEXT' % i for i in range(40)], ('ascii', 'cp037')[k % 2])
        return (lambda: guess_encoding(raw)), ('ascii', 'cp037')[k % 2]
    out['guess'] = text

    def small(k):
        model = gen.Model(dict(fmt='int16', endian='<>'[k % 2], enc=('ascii', 'cp037')[k // 2 % 2], thf='rev1',
                               brhf='std', text=['FILE %d' % k], declared=0, ext=[], brh_fill=k, brh={},
                               traces=[dict(fill=k, h={}, at=(k, k, 3), s=('pattern', k, k))]))
        data = model.encoded()
        from segpy.reader import create_reader

        def read():
            reader = create_reader(io.BytesIO(data), encoding=model.enc, endian=model.endian, cache_directory=None)
            return [int(v) for v in reader.trace_samples(0)], reader.textual_reel_header[0]
        return read, ([int(v) for v in model.samples[0]], model.text[0])
    out['reader'] = small
    return out


_TASKS = {}


def tight_cases(tier, shard, nshards):
    if 'all' not in _TASKS:
        _TASKS['all'] = tasks()
    names = sorted(_TASKS['all'])
    for k, name in enumerate(names):
        if k % nshards == shard:
            yield name, 4
            if tier == 'thorough':
                yield name, 2
                yield name, 8


def tight(case, cov):
    """Threads which do the same simple thing again and again, each with values of its own."""
    import time
    name, n = case
    if 'all' not in _TASKS:
        _TASKS['all'] = tasks()
    bodies = [_TASKS['all'][name](k) for k in range(n)]
    wrong = []
    rounds = [0] * n
    barrier = threading.Barrier(n)

    def thread(k):
        fn, want = bodies[k]
        try:
            got = fn()
            barrier.wait()
            end = time.monotonic() + 0.4
            while got == want and not wrong and time.monotonic() < end:
                for _ in range(20):
                    got = fn()
                    if got != want:
                        break
                    rounds[k] += 1
            if got != want:
                wrong.append('%r instead of %r' % (got, want))
        except BaseException as e:
            wrong.append(repr(e))
            barrier.abort()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    cov.nontrivial(True)
    cov.label(name.split()[0])
    cov.label('rounds', sum(rounds))
    if wrong:
        raise Violation('%s in one of %d threads: %s' % (name, n, wrong[0]))


PROPS = [
    Prop('tight', tight, cases=tight_cases, shards=4),
    Prop('twins', twins, twin_cases, quick=120, shards=3),
    Prop('interleaved', interleaved, cases, quick=100, shards=6),
    Prop('nested', nested, nested_cases, quick=100, shards=2),
    Prop('free_threads', free, cases, quick=40, shards=2),
    Prop('shared_cache', shared_cache, cache_cases, quick=40, shards=2),
]
