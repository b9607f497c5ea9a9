"""C25: progress callbacks."""
import functools
import io
import numbers
import os

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, scratch_dir, rmtree

PROPERTY = 'C25'
RULE = ("Files (whole, truncated at any byte, with trailing bytes, without traces, empty) read with and without a cache, "
        "cold and warm, and datasets written in any order of traces, with callbacks that record, return odd values or "
        "raise one of many exceptions at any call; after the exception the operation is repeated without. "
        "Non-trivial: at least two traces.")
ASSUMPTIONS = ["Datasets yield each of their trace indexes once."]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXCEPTIONS = [Boom, BaseBoom, StopIteration, EOFError, ValueError, TypeError, KeyError, IndexError, AttributeError,
              OSError, KeyboardInterrupt, ZeroDivisionError, GeneratorExit, RuntimeError, AssertionError,
              NotImplementedError, FileNotFoundError, UnicodeError, LookupError, MemoryError]
NOT_CALLABLE = [0, 1, False, '', 'print', (), [], {}, 1.5, b'', object(), NotImplemented, range(3)]
RETURNS = [None, True, False, 0, 1, 'stop', ValueError, [], StopIteration()]


class Recorder:
    """A callback of one of several kinds."""

    def __init__(self, kind, returns=None, fail_at=None, exception=None):
        self.calls = []
        self.returns, self.fail_at, self.exception = returns, fail_at, exception
        self.raised = 0
        recorder = self

        class Falsy:
            def __call__(self, p):
                return recorder.note(p)

            def __bool__(self):
                return False

            def __len__(self):
                return 0

        self.callback = {'function': lambda p: self.note(p), 'method': self.note,
                         'partial': functools.partial(Recorder.note, self),
                         'falsy': Falsy(), 'default': lambda p, q=None: self.note(p)}[kind]

    def note(self, p):
        check(not self.raised, 'called again after an exception, with', p)
        self.calls.append(p)
        if self.fail_at is not None and len(self.calls) - 1 == self.fail_at:
            self.raised += 1
            raise self.exception
        return self.returns

    def verify(self, completed):
        calls = self.calls
        for p in calls:
            check(isinstance(p, numbers.Real), 'argument', p)
            check(0 <= p <= 1, 'argument', p)
        for a, b in zip(calls, calls[1:]):
            check(a <= b, 'progress decreased from', a, 'to', b)
        if completed:
            check(calls and calls[-1] == 1, 'not called with one last:', calls[-3:])


KINDS = ['function', 'method', 'partial', 'falsy', 'default']
TROUBLE = st.one_of(st.none(), st.tuples(st.integers(0, 40), st.integers(0, len(EXCEPTIONS) - 1)))


MANY = st.one_of(st.integers(9, 60), st.sampled_from([64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 300]))


@st.composite
def read_cases(draw):
    case = draw(gen.datasets(max_traces=7, thfs=gen.THFS_2BYTE))
    many = draw(st.integers(0, 7)) == 0 and case['traces']
    return dict(case=case, many=draw(MANY) if many else 0,
                cut=draw(gen.weighted((3, st.none()), (2, st.integers(0, 900)), (1, st.integers(0, 20000)))),
                extra=draw(gen.weighted((4, st.just(0)), (1, st.integers(1, 500)))),
                handle=draw(st.sampled_from(['memory', 'disk', 'disk', 'raw'])),
                cache=draw(st.sampled_from([None, 'default', 'default', 'abs'])),
                dim=draw(st.sampled_from([None, None, None, 1, 2, 3])),
                kinds=draw(st.lists(st.sampled_from(KINDS), min_size=3, max_size=3)),
                returns=draw(st.integers(0, len(RETURNS) - 1)), trouble=draw(TROUBLE), warm_trouble=draw(TROUBLE))


def file_data(c):
    case = dict(c['case'])
    if c['many']:
        case['traces'] = (case['traces'] * c['many'])[:c['many']]
    data = gen.Model(case).encoded()
    if c['cut'] is not None:
        # mostly near the end
        data = data[:max(0, len(data) - c['cut'])]
    return data + b'\x00\x01' * (c['extra'] // 2) + b'\x01' * (c['extra'] % 2), case


def same_outcome(got, want, what):
    if got != want:
        if got[0] == want[0] == 'ok' and isinstance(got[1], dict):
            bad = [k for k in want[1] if got[1].get(k) != want[1][k]]
            raise Violation('%s: %s differ' % (what, bad))
        raise Violation('%s: %s, expected %s' % (what, repr(got)[:300], repr(want)[:300]))


def attempt(fn, recorder, what):
    """Run fn(); account for the callback's exception. Returns the outcome or None if the callback raised."""
    try:
        got = 'ok', fn()
    except BaseException as e:
        if recorder.raised:
            check(e is recorder.exception, what, ': another exception arrived:', e, 'instead of', recorder.exception)
            recorder.verify(False)
            return None
        if not isinstance(e, Exception):
            raise
        got = 'raised', type(e).__name__
    check(not recorder.raised, what, ': the exception of the callback was lost')
    recorder.verify(got[0] == 'ok')
    return got


def trouble(spec, kind, calls):
    k, e = spec
    return Recorder(kind, None, min(k, calls - 1) if k < 30 else calls - 1, EXCEPTIONS[e]('from the callback'))


def reading(c, cov):
    from segpy.reader import create_reader
    data, case = file_data(c)
    model_class = gen.Model(dict(case, traces=[])).format_class
    cov.nontrivial(len(case['traces']) > 1)
    base = os.path.realpath(scratch_dir())
    try:
        cache = {None: None, 'default': '.segpy', 'abs': os.path.join(base, 'cachedir')}[c['cache']]
        cov.label('cache %s' % c['cache'])

        def create(progress, cache):
            with gen.open_bytes(data, c['handle'], base) as fh:
                reader = create_reader(fh, encoding=case['enc'], endian=case['endian'],
                                       trace_header_format=model_class, progress=progress, cache_directory=cache,
                                       dimensionality=c['dim'])
                return gen.report(reader, samples=c['cut'] is None)
        try:
            want = 'ok', create(None, None)
        except Exception as e:
            want = 'raised', type(e).__name__
        cov.label('read ' + want[0])
        for what, cache_dir, spec, kind in (('no cache', None, None, c['kinds'][0]),
                                            ('cold', cache, c['trouble'], c['kinds'][1]),
                                            ('warm', cache, c['warm_trouble'], c['kinds'][2])):
            recorder = Recorder(kind, RETURNS[c['returns']])
            if what != 'cold':      # the cold call must have its trouble first
                same_outcome(attempt(lambda: create(recorder.callback, cache_dir), recorder, what), want, what)
                calls = len(recorder.calls)
            elif spec is None:
                same_outcome(attempt(lambda: create(recorder.callback, cache_dir), recorder, what), want, what)
                continue
            if spec is not None and calls:
                bad = trouble(spec, kind, calls)
                cov.label('%s %s' % (what, type(bad.exception).__name__))
                got = attempt(lambda: create(bad.callback, cache_dir), bad, what)
                check(bad.raised == 1, what, ': only', len(bad.calls), 'calls instead of', calls)
                check(got is None, 'no exception')
                # repeated, all is well
                recorder = Recorder(kind)
                same_outcome(attempt(lambda: create(recorder.callback, cache_dir), recorder, what + ' again'), want,
                             what + ' again')
                same_outcome(outcome(lambda: create(None, cache_dir)), want, what + ' without')
        if want[0] == 'ok':
            for bad in NOT_CALLABLE[c['returns'] % 3::3]:
                raises(TypeError, lambda: create(bad, cache), 'progress', bad)
        cov.label('%d calls' % min(calls, 10) if calls < 10 else 'more calls')
    finally:
        rmtree(base)


def outcome(fn):
    try:
        return 'ok', fn()
    except Exception as e:
        return 'raised', type(e).__name__


@st.composite
def write_cases(draw):
    case = draw(gen.datasets(max_traces=7, thfs=('rev1', 'rev1', 'ext', 'compact')))
    n = len(case['traces'])
    return dict(case=case, order=draw(st.permutations(range(n))) if n and draw(st.booleans()) else list(range(n)),
                many=draw(MANY) if n and draw(st.integers(0, 5)) == 0 else 0,
                fail=draw(st.sampled_from([None, None, None, 'short', 'encoding'])), fail_at=draw(st.integers(0, 6)),
                kind=draw(st.sampled_from(KINDS)), returns=draw(st.integers(0, len(RETURNS) - 1)),
                trouble=draw(TROUBLE), generator=draw(st.booleans()))


class Interrupted(Exception):
    pass


def writing(c, cov):
    from segpy.writer import write_segy
    case = dict(c['case'])
    order = list(c['order'])
    if c['many']:
        case['traces'] = (case['traces'] * c['many'])[:c['many']]
        order = list(range(len(case['traces'])))[::-1 if c['kind'] == 'method' else 1]
    model = gen.Model(case)
    cov.nontrivial(len(order) > 1)
    cov.label('in order' if order == sorted(order) else 'another order')

    def write(progress):
        dataset = model.dataset()
        dataset.trace_indexes = lambda: iter(order) if c['generator'] else list(order)
        if c['fail'] == 'short':
            plain = dataset.trace_samples

            def failing(i, start=None, stop=None):
                if i == c['fail_at']:
                    raise Interrupted()
                return plain(i, start, stop)
            dataset.trace_samples = failing
        fh = io.BytesIO()
        write_segy(fh, dataset, encoding='latin-1' if c['fail'] == 'encoding' else case['enc'],
                   trace_header_format=model.format_class, endian=case['endian'], progress=progress)
        return fh.getvalue()

    want = outcome(lambda: write(None))
    cov.label('write ' + want[0])
    if c['fail'] is None:
        check_eq(want[0], 'ok', 'writing')
    if c['fail'] is None and order == sorted(order):
        check(want[1] == model.encoded(), 'written bytes')
    recorder = Recorder(c['kind'], RETURNS[c['returns']])
    got = attempt(lambda: write(recorder.callback), recorder, 'writing')
    check_eq(got[0], want[0], 'with progress')
    check(got[1] == want[1], 'what is written differs when a callback is given')
    if recorder.calls and c['trouble'] is not None:
        bad = trouble(c['trouble'], c['kind'], len(recorder.calls))
        cov.label(type(bad.exception).__name__)
        got = attempt(lambda: write(bad.callback), bad, 'writing')
        check(bad.raised == 1 and got is None, 'no exception after', len(bad.calls))
        check(bad.calls == recorder.calls[:len(bad.calls)], 'other calls', bad.calls, recorder.calls)
    if c['fail'] is None:
        for bad in NOT_CALLABLE[c['returns'] % 3::3]:
            raises(TypeError, lambda: write(bad), 'progress', bad)


@st.composite
def catalog_cases(draw):
    return dict(at=draw(gen.geometry(8)), many=draw(gen.weighted((4, st.just(0)), (1, MANY))),
                over=draw(gen.weighted((3, st.just(0)), (1, st.integers(1, 50)))),
                lengths=draw(st.lists(st.integers(0, 40), min_size=8, max_size=8)),
                fmt=draw(st.sampled_from(gen.FMTS)), endian=draw(st.sampled_from('><')),
                thf=draw(st.sampled_from(['rev1', 'rev1', 'compact', 'rev0', 'ext', 'shuffled', 'lines', 'inline',
                                          'xline'])),
                start=draw(gen.weighted((3, st.just('traces')), (1, st.just('bare')), (1, st.just('end')),
                                        (1, st.just('beyond')))),
                cut=draw(gen.weighted((2, st.none()), (2, st.integers(0, 800)))),
                empty=draw(st.integers(0, 9)) == 0,
                kind=draw(st.sampled_from(KINDS)), returns=draw(st.integers(0, len(RETURNS) - 1)), trouble=draw(TROUBLE))


def cataloguing(c, cov):
    from segpy.toolkit import catalog_traces
    from vf.formats import FORMATS
    at, lengths = c['at'], c['lengths'][:len(c['at'])]
    if c['many'] and at:
        at, lengths = (at * c['many'])[:c['many']], (lengths * c['many'])[:c['many']]
    # the last trace may declare more samples than there are
    extra = {len(at) - 1: {115: (2, lengths[-1] + c['over'])}} if at and c['over'] else None
    data = gen.survey_bytes(at, c['endian'], c['fmt'], lengths, thf=c['thf'], extra=extra)
    cov.label('many' if len(at) > 8 else 'few')
    start = 3600
    if c['cut'] is not None:
        data = data[:max(0, len(data) - c['cut'])]
    if c['start'] == 'bare':
        data, start = data[3600:], 0
    elif c['start'] == 'end':
        start = len(data)
    elif c['start'] == 'beyond':
        start = len(data) + 1 + c['returns']
    if c['empty']:
        data, start = b'', 0
    cov.label('start ' + c['start'])
    cov.nontrivial(len(at) > 1)

    def catalog(progress):
        fh = io.BytesIO(data)
        fh.seek(start)
        found = catalog_traces(fh, ref.SAMPLE_SIZES[c['fmt']], FORMATS[c['thf']][0], c['endian'], progress)
        return [None if f is None else list(f.items()) for f in found]

    want = outcome(lambda: catalog(None))
    check_eq(want[0], 'ok', 'catalog_traces: %s' % (want,))
    recorder = Recorder(c['kind'], RETURNS[c['returns']])
    check_eq(attempt(lambda: catalog(recorder.callback), recorder, 'catalog'), want, 'with progress')
    if c['trouble'] is not None:
        bad = trouble(c['trouble'], c['kind'], len(recorder.calls))
        cov.label(type(bad.exception).__name__)
        got = attempt(lambda: catalog(bad.callback), bad, 'catalog')
        check(bad.raised == 1 and got is None, 'no exception after', len(bad.calls))
    for bad in NOT_CALLABLE[c['returns'] % 3::3]:
        raises(TypeError, lambda: catalog(bad), 'progress', bad)


PROPS = [
    Prop('reading', reading, read_cases, quick=180, shards=4),
    Prop('writing', writing, write_cases, quick=250, shards=3),
    Prop('cataloguing', cataloguing, catalog_cases, quick=500, shards=2),
]
