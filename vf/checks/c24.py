"""C24: the writer refuses what it cannot represent, and propagates failures."""
import array
import io
import math
import os
import struct

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, scratch_dir, rmtree
from vf.fieldtables import BINARY_FIELDS

PROPERTY = 'C24'
LEVEL = 'fault_enumeration'
RULE = ("Datasets of all kinds with exactly one defect of a chosen kind at a chosen place; and sound datasets written to "
        "a file in which every single write call in turn fails (before, or after storing part of the data) with one "
        "of several exceptions, or which has room for a chosen number of bytes only, or whose source fails at a "
        "chosen call. Oracle: the documented error, the very exception injected, and the reference encoding of which "
        "the file must hold a prefix not reaching beyond the defect. Non-trivial: at least one trace.")
ASSUMPTIONS = ["The file object stores all the bytes it is given, or raises."]

FORMATS = ('rev1', 'rev1', 'rev1', 'rev0', 'ext', 'compact', 'shuffled')
BASES = gen.datasets(max_traces=4, thfs=FORMATS, long=False, header_overrides=1, max_pages=2)
KINDS = ['encoding', 'progress', 'text', 'ext text', 'ext line', 'ext page', 'header class', 'header class', 'sample',
         'sample', 'sample', 'sample', 'shared']
BAD_SAMPLES = {
    'ibm': [math.nan, math.inf, -math.inf, 1e76, -1e76, 8e75, 1e-90, -1e-85, 5e-324, 1e300, 10**80],
    'float32': [3.5e38, -3.5e38, 1e300, '1', None, 2**130, -1e39],
    'int32': [2**31, -2**31 - 1, 2**32, 2**64, 0.5, '1', None, math.nan],
    'int16': [32768, -32769, 65535, 65536, 2**31, -40000, 0.5, 'x', None],
    'int8': [128, -129, 255, 256, -256, 1000, 0.5, 'x', None],
}


UNUSUAL = ('\x80\x85\xa0\xad\xa3\xa9\xb0\xb1\xb5\xbd\xd7\xe9\xff\u0100\u0192\u03a9\u2002\u2009\u200b\u2010\u2013\u2014'
           '\u2018\u2019\u201c\u201d\u2022\u2026\u20ac\u2122\u2192\u2212\u2264\ufb01\ufeff\ufffd\U0001f600\ud800')


@st.composite
def defects(draw):
    case = draw(BASES)
    if not case['traces']:
        case['traces'] = [dict(at=(1, 2, 3), fill=5, h={}, s=('pattern', 9, 3))]
    kind = draw(st.sampled_from(KINDS))
    out = dict(base=case, kind=kind, trace=draw(st.integers(0, len(case['traces']) - 1)), at=draw(st.integers(0, 10**4)),
               explicit=draw(st.booleans()), line=draw(st.sampled_from([0, 1, 20, 39])))
    if kind == 'encoding':
        out['bad'] = draw(st.sampled_from(['utf8', 'utf-8', 'latin1', 'ASCII', 'cp500', 'ebcdic', 'us-ascii', 'cp1140']))
    elif kind == 'progress':
        out['bad'] = draw(st.sampled_from([0, 1, True, 'x', '', (), [], 0.5]))
    elif kind in ('text', 'ext text'):
        lowest = 256 if case['enc'] == 'cp037' else 128
        # what text processors put into text, and any other character that the encoding lacks
        out['char'] = draw(st.one_of(
            st.sampled_from([c for c in UNUSUAL if ord(c) >= lowest]),
            st.characters(min_codepoint=lowest, exclude_categories=())))
    elif kind == 'ext line':
        out['n'] = draw(st.sampled_from([0, 1, 78, 79, 81, 82, 160]))
        out['end'] = draw(st.sampled_from(['', '\r\n', '\r\n', '\n', ' ', '\0', '\r\n\r\n']))
        out['keep'] = draw(st.booleans())
    elif kind == 'ext page':
        out['n'] = draw(st.sampled_from([0, 1, 39, 41, 80]))
    elif kind == 'header class':
        out['bad'] = draw(st.sampled_from(['rev0', 'rev1', 'ext', 'compact', 'shuffled', 'binary', 'dict', 'none']))
    elif kind == 'sample':
        out['bad'] = draw(st.sampled_from(BAD_SAMPLES[case['fmt']]))
    elif kind == 'shared':
        case['thf'] = 'shuffled'
        for t in case['traces']:
            t['h'] = {}
    if kind.startswith('ext') and not case['ext']:
        case['declared'], case['ext'] = 1, [['EXTENDED']]
    if kind.startswith('ext'):
        out['page'] = draw(st.integers(0, len(case['ext']) - 1))
    return out


def snapshot(dataset, model):
    return (list(dataset.textual_reel_header), gen.header_report(dataset.binary_reel_header),
            [list(p) for p in dataset.extended_textual_header], dataset.num_traces(),
            [gen.header_report(dataset.trace_header(i)) if hasattr(dataset.trace_header(i), 'ordered_field_names')
             else repr(dataset.trace_header(i)) for i in range(dataset.num_traces())],
            [repr(list(s)) for s in model.samples])


def defective(case, cov):
    from segpy.binary_reel_header import BinaryReelHeader
    from segpy.encoding import UnsupportedEncodingError
    from segpy.writer import write_segy
    from vf.formats import FORMATS as F
    base, kind = case['base'], case['kind']
    model = gen.Model(base)
    good = model.encoded()
    size = ref.SAMPLE_SIZES[model.fmt]
    starts = []         # of trace headers
    at = 3600 + 3200 * len(model.ext)
    for s in model.samples:
        starts.append(at)
        at += 240 + size * len(s)
    i = case['trace']
    cov.nontrivial(True)
    cov.label(kind)
    encoding = model.enc if case['explicit'] else None
    progress = None
    limit = 0
    if kind == 'encoding':
        encoding = case['bad']
        want = UnsupportedEncodingError
    elif kind == 'progress':
        progress = case['bad']
        want = TypeError
    elif kind == 'text':
        line = model.text[case['line']]
        col = case['at'] % 80
        model.text[case['line']] = line[:col] + case['char'] + line[col + 1:]
        want = UnicodeError
    elif kind == 'ext text':
        page = model.ext[case['page']]
        line = page[case['line']]
        col = case['at'] % 78
        page[case['line']] = line[:col] + case['char'] + line[col + 1:]
        limit = 3600 + 3200 * case['page']
        want = UnicodeError
    elif kind == 'ext line':
        n, end = case['n'], case['end']
        line = model.ext[case['page']][case['line']].rstrip('\r\n') if case['keep'] else 'x' * n
        line = (line + ' ' * n)[:max(0, n - len(end))] + end
        model.ext[case['page']][case['line']] = line[len(line) - n:]
        limit = 3600 + 3200 * case['page']
        want = ValueError
    elif kind == 'ext page':
        model.ext[case['page']] = (model.ext[case['page']] * 2)[:case['n']]
        limit = 3600 + 3200 * case['page']
        want = ValueError
    elif kind == 'sample':
        samples = list(model.samples[i])
        samples.insert(case['at'] % (len(samples) + 1), case['bad'])
        model.samples[i] = samples
        limit = starts[i] + 240
        want = (ValueError, ArithmeticError, TypeError, struct.error)
    elif kind == 'header class':
        limit = starts[i]
        want = TypeError
    elif kind == 'shared':
        limit = starts[i]
        want = ValueError
    dataset = model.dataset()
    if kind == 'header class':
        if case['bad'] in F:
            cls = F[case['bad']][0]
            if issubclass(cls, model.format_class):
                cov.label('compatible class')
                return
            bad = cls()
        else:
            bad = {'binary': BinaryReelHeader(), 'dict': dict(model.headers[i]), 'none': None}[case['bad']]
        dataset._headers[i] = bad
    elif kind == 'shared':
        dataset._headers[i].cdp_num = (dataset._headers[i].ensemble_num + 1) % 1000
    before = snapshot(dataset, model)
    fh = io.BytesIO()
    e = raises(want, lambda: write_segy(fh, dataset, encoding=encoding, trace_header_format=model.format_class,
                                        endian=model.endian, progress=progress), kind)
    if kind == 'encoding':
        check_eq(e.encoding, case['bad'], 'encoding named by the error')
        check(repr(case['bad']) in str(e) or case['bad'] in str(e), 'the message is', repr(str(e)))
    check_prefix(fh.getvalue(), good, limit)
    check_eq(snapshot(dataset, model), before, 'dataset')


def unencodable_cases(tier, shard, nshards):
    wide = sorted({ord(c) for c in UNUSUAL} | set(range(128, 0x300)) | set(range(0x2000, 0x2070)) |
                  set(range(0xff00, 0xffe0, 1 if tier != 'quick' else 7)))
    if tier != 'quick':
        wide = sorted(set(wide) | set(range(128, 0x3000)) | set(range(0xd800, 0xe000, 64)) | set(range(0xf000, 0x10400)))
    k = 0
    for code in wide:
        for enc in gen.ENCODINGS:
            if code >= (256 if enc == 'cp037' else 128):
                k += 1
                if k % nshards == shard:
                    yield dict(code=code, enc=enc)


def unencodable(case, cov):
    """Every character an encoding lacks is refused, in the text and in extended headers."""
    from segpy.writer import write_segy
    cov.nontrivial(True)
    c, enc = chr(case['code']), case['enc']
    base = dict(fmt='int8', endian='>', enc=enc, thf='rev1', text=['C 1'], declared=1, ext=[['PAGE']], brh_fill=0, brh={},
                traces=[])
    for where, limit in (('text', 0), ('ext', 3600)):
        model = gen.Model(base)
        good = model.encoded()
        lines = model.text if where == 'text' else model.ext[0]
        k = case['code'] % 40
        lines[k] = lines[k][:k] + c + lines[k][k + 1:]
        fh = io.BytesIO()
        raises(UnicodeError, lambda: write_segy(fh, model.dataset(), encoding=enc), '%r in the %s' % (c, where))
        check_prefix(fh.getvalue(), good, limit)


def check_prefix(written, good, limit):
    check(len(written) <= limit, '%d bytes were written, but byte %d is not representable' % (len(written), limit))
    if written != good[:len(written)]:
        k = next(k for k in range(len(written)) if written[k] != good[k])
        raise Violation('what was written differs from the correct file at byte %d of %d' % (k, len(written)))


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


FAILURES = [lambda: OSError(28, 'No space left on device'), lambda: ValueError('injected'), lambda: Injected('injected'),
            lambda: InjectedBase('injected'), lambda: MemoryError(), lambda: EOFError('injected'),
            lambda: TypeError('injected'), lambda: BlockingIOError(11, 'injected', 0), lambda: KeyError('injected')]


class Faulty(io.BytesIO):
    """A file of which one write call fails."""

    def __init__(self, fail_at, part, exception):
        super().__init__()
        self.calls = 0
        self.fail_at = fail_at
        self.part = part
        self.exception = exception

    def write(self, data):
        k = self.calls
        self.calls += 1
        if k == self.fail_at:
            data = bytes(data)
            super().write(data[:int(len(data) * self.part)])
            raise self.exception
        check(k < self.fail_at, 'written after a failed write')
        return super().write(data)


class Limited(io.BytesIO):
    """A file with room for a number of bytes."""

    def __init__(self, room, exception):
        super().__init__()
        self.room = room
        self.exception = exception

    def write(self, data):
        data = bytes(data)
        if self.tell() + len(data) > self.room:
            super().write(data[:max(0, self.room - self.tell())])
            raise self.exception
        return super().write(data)


def expect_exception(fn, exception):
    try:
        fn()
    except BaseException as e:
        if e is not exception:
            raise Violation('raised %r instead of the injected %r' % (e, exception)) from e
    else:
        raise Violation('returned normally in spite of %r' % exception)


@st.composite
def fault_cases(draw):
    base = draw(BASES)
    if base['traces'] and draw(st.integers(0, 59)) == 0:
        many = draw(st.sampled_from([16, 17, 33, 64, 65]))
        base = dict(base, traces=(base['traces'] * many)[:many])
    return dict(base=base, failure=draw(st.integers(0, len(FAILURES) - 1)),
                part=draw(st.sampled_from([0, 0, 0.5, 0.99, 1])), room=draw(st.integers(0, 10**6)),
                source=draw(st.sampled_from([None, 'samples', 'header', 'text', 'brh', 'ext', 'count'])),
                call=draw(st.integers(0, 5)), explicit=draw(st.booleans()))


def faults(case, cov):
    """Every write in turn fails."""
    from segpy.writer import write_segy
    model = gen.Model(case['base'])
    good = model.encoded()
    cov.nontrivial(model.headers)
    dataset = model.dataset()
    before = snapshot(dataset, model)
    kwargs = dict(trace_header_format=model.format_class, endian=model.endian)
    if case['explicit']:
        kwargs['encoding'] = model.enc
    k = 0
    while True:
        exception = FAILURES[(case['failure'] + k) % len(FAILURES)]()
        fh = Faulty(k, case['part'], exception)
        if k > 5000:
            raise Violation('more than 5000 writes')
        try:
            write_segy(fh, dataset, **kwargs)
        except BaseException as e:
            if e is not exception:
                raise Violation('write %d raised %r instead of the injected %r' % (k, e, exception)) from e
        else:
            check(fh.calls <= k, 'the failure of write %d was swallowed' % k)
            check_prefix(fh.getvalue(), good, len(good))
            check_eq(len(fh.getvalue()), len(good), 'size of the file')
            break
        check_prefix(fh.getvalue(), good, len(good))
        cov.label('failing writes')
        k += 1
    # a full disk
    for room in {case['room'] % len(good), len(good) - 1, 3200, 3599}:
        if room < len(good):
            exception = FAILURES[case['failure']]()
            fh = Limited(room, exception)
            expect_exception(lambda: write_segy(fh, dataset, **kwargs), exception)
            check_prefix(fh.getvalue(), good, room)
            cov.label('full disk')
    if case['source'] and (model.headers or case['source'] not in ('samples', 'header')):
        exception = FAILURES[case['failure']]()
        failing_source(dataset, case['source'], case['call'], exception)
        fh = io.BytesIO()
        expect_exception(lambda: write_segy(fh, dataset, **kwargs), exception)
        check_prefix(fh.getvalue(), good, len(good))
        cov.label('failing source')
        dataset.__class__ = dataset.__class__.__bases__[0]
    check_eq(snapshot(dataset, model), before, 'dataset')


def failing_source(dataset, what, call, exception):
    """Make the dataset fail at some trace (or at once)."""
    base = type(dataset)
    n = dataset.num_traces()
    at = call % n if n else 0

    class Failing(base):
        if what == 'samples':
            def trace_samples(self, trace_index, start=None, stop=None):
                if trace_index == at:
                    raise exception
                return base.trace_samples(self, trace_index, start, stop)
        elif what == 'header':
            def trace_header(self, trace_index):
                if trace_index == at:
                    raise exception
                return base.trace_header(self, trace_index)
        elif what == 'text':
            @property
            def textual_reel_header(self):
                raise exception
        elif what == 'brh':
            @property
            def binary_reel_header(self):
                raise exception
        elif what == 'ext':
            @property
            def extended_textual_header(self):
                raise exception
        elif what == 'count':
            def num_traces(self):
                raise exception
    dataset.__class__ = Failing


def real_cases(tier, shard, nshards):
    for fmt in gen.FMTS:
        for buffering in (0, -1):
            yield fmt, buffering


def real(case, cov):
    """A device which is always full, and a file opened for reading."""
    from segpy.writer import write_segy
    fmt, buffering = case
    model = gen.Model(dict(fmt=fmt, endian='>', enc='ascii', thf='rev1', text=['X'], declared=0, ext=[], brh_fill=0,
                           brh={}, traces=[dict(at=(1, 2, 3), fill=0, h={}, s=('pattern', 4000, 3))] * 3))
    dataset = model.dataset()
    cov.nontrivial(True)
    if os.path.exists('/dev/full'):
        def attempt():
            with open('/dev/full', 'wb', buffering=buffering) as fh:
                write_segy(fh, dataset)
        raises(OSError, attempt, 'writing to a full device')
        cov.label('full device')
    directory = scratch_dir()
    try:
        path = os.path.join(directory, 'a.sgy')
        with open(path, 'wb') as f:
            f.write(b'old content')
        with open(path, 'rb', buffering=buffering) as fh:
            raises(OSError, lambda: write_segy(fh, dataset), 'writing to a file opened for reading')
        with open(path, 'rb') as f:
            check_eq(f.read(), b'old content', 'file opened for reading')
        fh = open(path, 'wb')
        fh.close()
        raises(ValueError, lambda: write_segy(fh, dataset), 'writing to a closed file')
        with open(path, 'wb', buffering=buffering) as fh:
            write_segy(fh, dataset)
        with open(path, 'rb') as f:
            check(f.read() == model.encoded(), 'file written')
    finally:
        rmtree(directory)


PROPS = [
    Prop('unencodable', unencodable, cases=unencodable_cases, shards=2),
    Prop('defective', defective, defects, quick=500, shards=4),
    Prop('faults', faults, fault_cases, quick=180, shards=4),
    Prop('real', real, cases=real_cases),
]
