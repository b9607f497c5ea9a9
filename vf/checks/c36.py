"""C36: memory and file descriptors stay bounded."""
import copy
import gc
import io
import os
import pickle
import random
import tracemalloc
import weakref

from hypothesis import strategies as st

from vf import gen, headers as hd, refsegy as ref
from vf.core import Prop, check, scratch_dir, rmtree

PROPERTY = 'C36'
RULE = ("Indexes: regular keys (one or two axes of any start, step, size and order) with constant or regular values, "
        "given in any order, for a small and a large number of keys; the size of the catalog, and of a pickled reader "
        "of such a file, must not depend on it. Streaming: tracemalloc's peak while reading or writing every trace of a "
        "file of many traces, compared with the size of all samples. Released: weak references to headers, "
        "catalogs and readers after a history of uses. Descriptors: those of the process before and after a history of "
        "opening, failing, caching, pickling and dropping. Non-trivial: always but for histories of one step.")
ASSUMPTIONS = ["CPython: objects are released at the latest by gc.collect()."]
SLACK = 600


# ------------------------------------------------------------------------------------------------------------- indexes

@st.composite
def index_cases(draw):
    kind = draw(st.sampled_from(['constant', 'linear', 'linear', 'rows', 'columns']))
    return dict(kind=kind, start=draw(st.one_of(st.integers(-50, 50), st.integers(-2**31, 2**31 - 10**5))),
                step=draw(st.sampled_from([1, 1, 2, 3, 10, 1000])), start2=draw(st.integers(-10**6, 10**6)),
                step2=draw(st.sampled_from([1, 1, 2, 4, 25])), sides=draw(st.tuples(st.integers(2, 9), st.integers(2, 9))),
                first=draw(st.integers(-10**6, 10**6)), stride=draw(st.sampled_from([1, 1, -1, 2, 240, -3, 7])),
                factor=draw(st.integers(3, 12)), shuffle=draw(st.integers(0, 10**6)))


def items_of(case, factor):
    start, step, a = case['start'], case['step'], case['first']
    if case['kind'] in ('constant', 'linear'):
        n = case['sides'][0] * factor * 10
        stride = case['stride'] if case['kind'] == 'linear' else 0
        items = [(start + k * step, a + k * stride) for k in range(n)]
    else:
        ni, nj = case['sides'][0] * factor, case['sides'][1] * factor
        start2, step2 = case['start2'], case['step2']
        items = []
        for p in range(ni if case['kind'] == 'rows' else nj):
            for q in range(nj if case['kind'] == 'rows' else ni):
                i, j = (p, q) if case['kind'] == 'rows' else (q, p)
                items.append(((start + i * step, start2 + j * step2), a + case['stride'] * len(items)))
    if case['shuffle']:
        random.Random(case['shuffle']).shuffle(items)
    return items


def indexes(case, cov):
    from segpy.catalog import CatalogBuilder
    sizes = []
    for factor in (1, case['factor']):
        items = items_of(case, factor)
        builder = CatalogBuilder(items if case['first'] % 2 else None)
        if not case['first'] % 2:
            for k, v in items:
                builder.add(k, v)
        catalog = builder.create()
        check(len(catalog) == len(items), 'length of the catalog')
        sizes.append(len(pickle.dumps(catalog)))
    check(sizes[1] <= sizes[0] + SLACK, 'a catalog of %d items takes %d bytes, the same with %d items %d bytes' % (
        len(items), sizes[1], len(items_of(case, 1)), sizes[0]))
    cov.label(case['kind'])
    cov.nontrivial()


@st.composite
def survey_cases(draw):
    return dict(kind=draw(st.sampled_from(['1d', '2d', 'rows', 'columns'])), start=draw(st.integers(-100, 10**6)),
                step=draw(st.sampled_from([1, 1, 2, 5])), start2=draw(st.integers(-100, 10**6)),
                step2=draw(st.sampled_from([1, 1, 3])), side=draw(st.integers(2, 4)), factor=draw(st.integers(3, 5)),
                samples=draw(st.integers(0, 3)), endian=draw(st.sampled_from('><')))


def surveys(case, cov):
    """The pickled reader of a regular survey does not grow with it."""
    directory = scratch_dir()
    try:
        sizes = []
        for factor in (1, case['factor']):
            side = case['side'] * factor
            if case['kind'] == '1d':
                at = [(0, 0, 0)] * side**2
            elif case['kind'] == '2d':
                at = [(case['start'] + k * case['step'], 0, 0) for k in range(side**2)]
            else:
                at = [(0, case['start'] + p * case['step'], case['start2'] + q * case['step2'])
                      for p in range(side) for q in range(side)]
                if case['kind'] == 'columns':
                    at.sort(key=lambda p: p[2])
            path = os.path.join(directory, 'a.sgy')
            with open(path, 'wb') as f:
                f.write(gen.survey_bytes(at, endian=case['endian'], lengths=[case['samples']] * len(at)))
            with open(path, 'rb') as f:
                reader = gen.survey_reader(at, endian=case['endian'], fh=f)
                sizes.append(len(pickle.dumps(reader)))
                check(reader.num_traces() == len(at), 'traces')
        check(sizes[1] <= sizes[0] + SLACK, 'the reader of %d traces takes %d bytes, that of %d traces %d' % (
            len(at), sizes[1], case['side']**2, sizes[0]))
        cov.label(case['kind'])
        cov.nontrivial()
    finally:
        rmtree(directory)


# ----------------------------------------------------------------------------------------------------------- streaming

@st.composite
def streaming_cases(draw):
    return dict(fmt=draw(st.sampled_from(gen.FMTS)), endian=draw(st.sampled_from('><')),
                what=draw(st.sampled_from(['read', 'write', 'copy', 'open'])), n=draw(st.integers(30, 50)),
                samples=draw(st.integers(300, 500)), order=draw(st.integers(0, 1)), thf=draw(st.sampled_from(['rev1', 'rev0'])),
                dim=draw(st.sampled_from([1, 2, 3])), parts=draw(st.booleans()))


class Null:
    """A file which counts."""

    def __init__(self):
        self.size = 0

    def write(self, b):
        self.size += len(b)
        return len(b)

    def tell(self):
        return self.size

    def seek(self, *args):
        return self.size

    def flush(self):
        pass

    def seekable(self):
        return True

    def writable(self):
        return True


def made(reader, n, length, fmt):
    """A dataset whose samples are made when asked for."""
    from segpy.dataset import Dataset

    class Made(Dataset):
        textual_reel_header = reader.textual_reel_header
        binary_reel_header = reader.binary_reel_header
        extended_textual_header = []

        def num_traces(self):
            return n

        def trace_header(self, trace_index):
            return reader.trace_header(trace_index)

        def trace_samples(self, trace_index, start=None, stop=None):
            if fmt in ('ibm', 'float32'):
                return [trace_index + k / 4 for k in range(length)]
            return [(trace_index * 1000 + k) % 100 if fmt == 'int8' else 300 + (trace_index + k) % 20000
                    for k in range(length)]

    return Made()


def streaming(case, cov):
    from segpy.writer import write_segy
    length, fmt = case['samples'] * (10 if case['what'] == 'open' else 1), case['fmt']

    def peak(n):
        at = [{1: (0, 0, 0), 2: (k, 0, 0), 3: (0, k // 7, k % 7)}[case['dim']] for k in range(n)]
        data = gen.survey_bytes(at, endian=case['endian'], fmt=fmt, lengths=[length] * n, thf=case['thf'])
        fh = io.BytesIO(data)
        gc.collect()
        if case['what'] == 'open':
            tracemalloc.start()
            try:
                gen.survey_reader(at, endian=case['endian'], fmt=fmt, lengths=[length] * n, thf=case['thf'], fh=fh)
                return tracemalloc.get_traced_memory()[1]
            finally:
                tracemalloc.stop()
        reader = gen.survey_reader(at, endian=case['endian'], fmt=fmt, lengths=[length] * n, thf=case['thf'], fh=fh)
        source = made(reader, n, length, fmt) if case['what'] == 'write' else reader
        sink = Null()
        gc.collect()
        tracemalloc.start()
        try:
            if case['what'] == 'read':
                for i in range(n) if case['order'] else range(n - 1, -1, -1):
                    reader.trace_header(i)
                    if case['parts']:
                        for k in range(0, length, 100):
                            reader.trace_samples(i, k, min(k + 100, length))
                    else:
                        reader.trace_samples(i)
            else:
                write_segy(sink, source, endian=case['endian'], trace_header_format=reader.trace_header_format_class)
            return tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()

    n = case['n']
    peak(2)
    one, three = peak(n), peak(3 * n)
    size = 2 * n * length * ref.SAMPLE_SIZES[fmt]
    check(three - one < 0.4 * size, 'memory grows by %d bytes while %d bytes of samples are added to %s' % (
        three - one, size, case['what']))
    cov.label(case['what'])
    cov.nontrivial()


# ------------------------------------------------------------------------------------------------------------ released

@st.composite
def released_cases(draw):
    spec = draw(hd.LAYOUTS)
    return dict(format=spec, values=draw(hd.assignments(spec)), endian=draw(st.sampled_from('><')),
                uses=draw(st.lists(st.sampled_from(['set', 'copy', 'compare', 'pickle', 'pack', 'unpack', 'refused', 'repr',
                                                    'read', 'lines', 'samples', 'pickle reader', 'write', 'catalog']),
                                   min_size=1, max_size=8)),
                side=draw(st.integers(1, 3)), cached=draw(st.booleans()))


def released(case, cov):
    from segpy.catalog import CatalogBuilder
    from segpy.header import are_equal
    from segpy.packer import make_header_packer
    from segpy.writer import write_segy
    directory = scratch_dir()
    try:
        cls = hd.build(case['format'])
        side = case['side']
        at = [(0, i, j) for i in range(side) for j in range(side)]
        path = os.path.join(directory, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(gen.survey_bytes(at, endian=case['endian'], lengths=[3] * len(at)))
        watched = []

        def watch(what, obj):
            try:
                watched.append((what, weakref.ref(obj)))
            except TypeError:
                pass
            return obj

        def history(fh):
            header = watch('header', cls(**case['values']))
            packer = make_header_packer(cls, case['endian'])
            data = packer.pack(header)
            reader = watch('reader', gen.survey_reader(at, endian=case['endian'], lengths=[3] * len(at), fh=fh))
            watch('binary header', reader.binary_reel_header)
            for use in case['uses']:
                if use == 'set':
                    for name, value in case['values'].items():
                        setattr(header, name, value)
                elif use == 'copy':
                    watch('copy', header.copy())
                    watch('copy', copy.copy(header))
                    watch('deep copy', copy.deepcopy(header))
                elif use == 'compare':
                    are_equal(header, watch('other', cls()))
                elif use == 'pickle':
                    watch('unpickled header', pickle.loads(pickle.dumps(header)))
                    pickle.loads(pickle.dumps(packer))
                elif use == 'pack':
                    packer.pack(watch('packed header', header.copy()))
                elif use == 'unpack':
                    watch('unpacked header', packer.unpack(data))
                elif use == 'refused':
                    for what in (lambda: header.copy(no_such_field=1), lambda: packer.unpack(data + b'1'),
                                 lambda: setattr(header, next(iter(case['values'])), 'text'),
                                 lambda: packer.pack(reader), lambda: reader.trace_samples(10**6)):
                        try:
                            what()
                        except Exception:
                            pass
                elif use == 'repr':
                    repr(header), repr(packer), repr(reader)
                elif use == 'read':
                    for i in reader.trace_indexes():
                        watch('trace header', reader.trace_header(i))
                elif use == 'samples':
                    for i in reader.trace_indexes():
                        reader.trace_samples(i)
                elif use == 'lines' and side > 1:
                    list(reader.inline_numbers()), list(reader.xline_numbers())
                    reader.trace_index((1, 1))
                elif use == 'pickle reader':
                    watch('unpickled reader', pickle.loads(pickle.dumps(reader)))
                elif use == 'write':
                    write_segy(Null(), reader, endian='<')
                elif use == 'catalog':
                    builder = watch('builder', CatalogBuilder())
                    for k in range(side * 3):
                        builder.add(k * k, k)
                    watch('catalog', builder.create())

        with open(path, 'rb') as fh:
            history(fh)
        gc.collect()
        left = sorted({what for what, ref_ in watched if ref_() is not None})
        check(not left, 'still in memory after their last use:', left)
        cov.nontrivial(len(case['uses']) > 1)
        for use in set(case['uses']):
            cov.label(use)
    finally:
        rmtree(directory)


# --------------------------------------------------------------------------------------------------------- descriptors

@st.composite
def descriptor_cases(draw):
    step = st.tuples(st.sampled_from(['open', 'open', 'fail', 'fail', 'pickle', 'load', 'copy', 'drop', 'use', 'write',
                                      'unloadable', 'cached', 'cached', 'refuse']), st.integers(0, 7))
    return dict(steps=draw(st.lists(step, min_size=1, max_size=10)), side=draw(st.integers(1, 3)),
                endian=draw(st.sampled_from('><')))


def open_descriptors():
    return sorted(os.readlink('/proc/self/fd/%s' % fd) for fd in os.listdir('/proc/self/fd')
                  if os.path.exists('/proc/self/fd/%s' % fd))


def descriptors(case, cov):
    """Once the caller has closed its files and dropped its readers, everything is closed."""
    from segpy.reader import create_reader
    from segpy.writer import write_segy
    directory = scratch_dir()
    try:
        side = case['side']
        at = [(0, i, j) for i in range(side) for j in range(side)]
        data = gen.survey_bytes(at, endian=case['endian'], lengths=[3] * len(at))
        path = os.path.join(directory, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(data)
        bad = os.path.join(directory, 'bad.sgy')
        cache = os.path.join(directory, 'cache')
        gc.collect()
        before = open_descriptors()

        def history():
            readers, pickles, files = [], [], []
            for what, k in case['steps']:
                reader = readers[k % len(readers)] if readers else None
                if what in ('open', 'cached'):
                    fh = open(path, 'rb')
                    files.append(fh)
                    readers.append(create_reader(fh, endian=case['endian'],
                                                 cache_directory=cache if what == 'cached' else None))
                elif what == 'fail':
                    with open(bad, 'wb') as f:
                        f.write(data[:[0, 100, 3200, 3300, 3599, 3600, 3604, 3700][k]])
                    held = len(open_descriptors())
                    with open(bad, 'rb') as f:
                        try:
                            create_reader(f, endian=case['endian'], cache_directory=cache if k % 2 else None)
                        except Exception:
                            pass
                    gc.collect()
                    check(len(open_descriptors()) == held, 'descriptors after a failure', open_descriptors())
                elif what == 'pickle' and reader is not None:
                    try:
                        pickles.append(pickle.dumps(reader))
                    except TypeError:
                        pass
                elif what == 'load' and pickles:
                    readers.append(pickle.loads(pickles[k % len(pickles)]))
                elif what == 'refuse' and pickles:
                    os.rename(path, path + '.away')
                    try:
                        pickle.loads(pickles[k % len(pickles)])
                    except TypeError:
                        pass
                    finally:
                        os.rename(path + '.away', path)
                elif what == 'copy' and reader is not None:
                    try:
                        readers.append(copy.copy(reader) if k % 2 else copy.deepcopy(reader))
                    except TypeError:
                        pass
                elif what == 'drop' and readers:
                    del readers[k % len(readers)]
                elif what == 'use' and reader is not None:
                    reader.trace_samples(k % len(at))
                    reader.trace_header(k % len(at))
                elif what == 'write' and reader is not None:
                    with open(os.path.join(directory, 'out.sgy'), 'wb') as f:
                        write_segy(f, reader)
                elif what == 'unloadable' and os.path.isdir(cache):
                    for name in os.listdir(cache):
                        with open(os.path.join(cache, name), 'r+b') as f:
                            f.truncate(k * 9)
                reader = None
            for fh in files:
                check(not fh.closed, 'the file of the caller was closed')
                fh.close()

        history()
        gc.collect()
        after = open_descriptors()
        check(after == before, 'descriptors left open:', [d for d in after if d not in before] or after)
        cov.nontrivial(len(case['steps']) > 1)
        for what in {what for what, k in case['steps']}:
            cov.label(what)
    finally:
        rmtree(directory)


PROPS = [
    Prop('indexes', indexes, index_cases, quick=100),
    Prop('surveys', surveys, survey_cases, quick=30),
    Prop('streaming', streaming, streaming_cases, quick=12, shards=2),
    Prop('released', released, released_cases, quick=150, shards=2),
    Prop('descriptors', descriptors, descriptor_cases, quick=150, shards=2),
]
