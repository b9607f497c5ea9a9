"""C12: pickling preserves readers, headers and header packers."""
import copy
import io
import os
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from vf import core, gen, headers as hd, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, scratch_dir, rmtree
from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV0, TRACE_FIELDS_REV1

PROPERTY = 'C12'
RULE = ("Readers: a generated file, a way of opening it, a history of uses and one to three generations of pickling or "
        "copying with any protocol; everything the result reports is compared with the original, a fresh reader and "
        "again after the original is closed; some are loaded in another process. Headers and packers: standard and "
        "generated formats, any values, one to three generations. Refusals: closed, unnamed and vanished files. "
        "Non-trivial: a reader with at least two traces; a header with a non-default value; a packer of two fields.")
ASSUMPTIONS = ["Header classes are importable by name.", "The file is unchanged between pickling and unpickling."]

PROTOCOLS = st.one_of(st.integers(0, pickle.HIGHEST_PROTOCOL), st.sampled_from(['copy', 'deepcopy']))
USES = ['nothing', 'samples', 'header', 'max', 'lines', 'seek', 'part', 'report']


def again(obj, how):
    if how == 'copy':
        return copy.copy(obj)
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, protocol=how))


@st.composite
def reader_cases(draw):
    case = draw(gen.datasets(max_traces=9, thfs=gen.THFS, long=False,
                             brhfs=('std', 'std', 'ext', 'wide', 'compact', 'short'), max_pages=1, header_overrides=1))
    if case['traces'] and draw(st.integers(0, 19)) == 0:
        many = draw(st.sampled_from([17, 33, 64, 100, 129, 257]))
        case['traces'] = (case['traces'] * many)[:many]
    return dict(ds=case, mode=draw(st.sampled_from(['rb', 'rb', 'r+b', 'raw'])),
                dim=draw(st.sampled_from([None, None, None, 1, 2, 3])),
                uses=draw(st.lists(st.tuples(st.sampled_from(USES), st.integers(0, 9)), max_size=4)),
                how=draw(st.lists(PROTOCOLS, min_size=1, max_size=3)),
                when=draw(st.sampled_from(['live', 'closed', 'closed'])), cached=draw(st.integers(0, 5)) == 0,
                spelling=draw(st.sampled_from(['plain', 'plain', 'relative', 'through link', 'bytes'])),
                name=draw(st.sampled_from(['a.sgy', 'with space.segy', 'noext', 'é.sgy'])))


def use(reader, uses):
    n = reader.num_traces()
    for what, k in uses:
        if what == 'samples' and n:
            reader.trace_samples(k % n)
        elif what == 'part' and n:
            k %= n
            if reader.num_trace_samples(k) > 1:
                reader.trace_samples(k, 1)
        elif what == 'header' and n:
            reader.trace_header(k % n)
        elif what == 'max':
            reader.max_num_trace_samples()
        elif what == 'lines':
            for name in ('inline_numbers', 'xline_numbers', 'cdp_numbers'):
                if hasattr(reader, name):
                    getattr(reader, name)()
        elif what == 'report':
            gen.report(reader)


def open_reader(case, path):
    from segpy.reader import create_reader
    from vf.formats import FORMATS, BINARY_FORMATS
    ds = case['ds']
    fh = open(path, 'rb', buffering=0) if case['mode'] == 'raw' else open(path, case['mode'])
    try:
        return create_reader(fh, encoding=ds['enc'], endian=ds['endian'],
                             trace_header_format=FORMATS[ds['thf']][0], dimensionality=case['dim'],
                             binary_reel_header_format=BINARY_FORMATS[ds['brhf']][0],
                             cache_directory='cache' if case['cached'] else None), fh
    except Exception:
        fh.close()
        raise


def difference(got, want):
    bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
    return '%s: %r, expected %r' % (bad, {k: got.get(k) for k in bad}, {k: want.get(k) for k in bad})


def check_same(got, want, what):
    if got != want:
        raise Violation('%s: %s' % (what, difference(got, want)[:1500]))


def spelled(spelling, directory, name):
    """One of several ways to name the file."""
    path = os.path.join(directory, name)
    if spelling == 'relative':
        return os.path.relpath(path)
    if spelling == 'through link':
        # the parent of what the link leads to is not the directory the link is in
        os.makedirs(os.path.join(directory, 'elsewhere', 'deep'))
        os.symlink(os.path.join('elsewhere', 'deep'), os.path.join(directory, 'link'))
        real = os.path.join(directory, 'elsewhere', name)
        os.rename(path, real)
        with open(real, 'rb') as f:
            content = f.read()
        with open(path, 'wb') as f:     # where one ends up by leaving out 'link/..'
            f.write(bytes([content[0] ^ 3]) + content[1:])
        return os.path.join(directory, 'link', '..', name)
    return os.fsencode(path) if spelling == 'bytes' else path


def readers(case, cov):
    model = gen.Model(case['ds'])
    directory = scratch_dir()
    try:
        path = os.path.join(directory, case['name'])
        with open(path, 'wb') as f:
            f.write(model.encoded())
        named = spelled(case['spelling'], directory, case['name'])
        cov.label(case['spelling'])
        try:
            reader, fh = open_reader(case, named)
        except (AttributeError, ValueError, TypeError):
            # the format lacks the fields of the dimensionality asked for, or similar: not the matter of this check
            cov.label('not opened')
            return
        cov.label(type(reader).__name__)
        cov.nontrivial(len(model.headers) > 1)
        with fh:
            pristine, fh2 = open_reader(dict(case, cached=False), named)
            with fh2:
                want = gen.report(pristine)
            use(reader, case['uses'])
            if case['uses'] and case['uses'][-1][0] == 'seek':
                fh.seek(case['uses'][-1][1] * 700)
            clone = reader
            for how in case['how']:
                clone = again(clone, how)
                check(clone is not reader, 'the same object')
                cov.label('by %s' % how)
            check_same(gen.report(reader), want, 'the original')
            if case['when'] == 'live':
                check_same(gen.report(clone), want, 'the result')
                check_same(gen.report(reader), want, 'the original afterwards')
        check_same(gen.report(clone), want, 'the result after the original file is closed')
        late = again(clone, 2)
        check_same(gen.report(late), want, 'the result after another generation')
        path = os.path.realpath(named)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        with open(path, 'rb') as f:
            check(f.read() == model.encoded(), 'the file was changed')

        # refusals
        raises(TypeError, lambda: pickle.dumps(reader), 'pickling the reader of a closed file')
        data = pickle.dumps(late)
        foreign(data, cov)
        os.rename(path, path + '.moved')
        raises(TypeError, lambda: pickle.loads(data), 'unpickling without the file')
        os.rename(path + '.moved', path)
        check_same(gen.report(pickle.loads(data)), want, 'the result after the file is back')
    finally:
        rmtree(directory)


def foreign(data, cov):
    """A pickle is refused if another version of the library made it."""
    import segpy
    mine = segpy.__version__.encode()
    if data.count(mine) == 1:
        cov.label('of another version')
        other = mine[:-1] + (b'7' if mine[-1:] != b'7' else b'8')
        raises(TypeError, lambda: pickle.loads(data.replace(mine, other)), 'unpickling what another version made')


UNNAMED = ['memory', 'fd', 'temporary']


@st.composite
def unnamed_cases(draw):
    return dict(ds=draw(gen.datasets(max_traces=3, long=False)), kind=draw(st.sampled_from(UNNAMED)),
                how=draw(PROTOCOLS), closed=draw(st.booleans()))


def unnamed(case, cov):
    """Readers of files without a name, open or closed, refuse."""
    import tempfile
    from segpy.reader import create_reader
    model = gen.Model(case['ds'])
    directory = scratch_dir()
    try:
        data = model.encoded()
        if case['kind'] == 'memory':
            fh = io.BytesIO(data)
        elif case['kind'] == 'temporary':
            fh = tempfile.TemporaryFile(dir=directory)
            fh.write(data)
            fh.seek(0)
        else:
            path = os.path.join(directory, 'a.sgy')
            with open(path, 'wb') as f:
                f.write(data)
            fh = os.fdopen(os.open(path, os.O_RDONLY), 'rb')
        with fh:
            reader = create_reader(fh, encoding=model.enc, endian=model.endian, trace_header_format=model.format_class,
                                   cache_directory=None)
            if case['closed']:
                fh.close()
            raises(TypeError, lambda: again(reader, case['how']), 'pickling the reader of an unnamed file')
            if not case['closed']:
                cov.nontrivial(model.headers)
                for i in range(len(model.headers)):
                    check_eq(ref.comparable(reader.trace_samples(i), model.fmt), model.stored(i), 'samples')
        cov.label(case['kind'])
    finally:
        rmtree(directory)


# ------------------------------------------------------------------------------------------------ headers and packers

@st.composite
def header_cases(draw):
    which = draw(st.sampled_from(['rev1', 'rev0', 'binary', 'generated', 'generated', 'generated']))
    if which == 'generated':
        spec = draw(hd.LAYOUTS)
        values = draw(hd.assignments(spec))
    else:
        spec, values = which, draw(gen.FILL)
    return dict(format=spec, values=values, how=draw(st.lists(PROTOCOLS, min_size=1, max_size=3)),
                endian=draw(st.sampled_from('><')), together=draw(st.booleans()), changed=draw(st.integers(0, 40)))


STANDARD = {'rev1': TRACE_FIELDS_REV1, 'rev0': TRACE_FIELDS_REV0, 'binary': BINARY_FIELDS}


def materialise(case):
    from vf.checks.c13 import standard_class
    if isinstance(case['format'], str):
        table = STANDARD[case['format']]
        return (standard_class(case['format']), gen.fill_values(case['values'], table), [r[0] for r in table],
                {r[0]: r[6] for r in table})
    fields = hd.fields_of(case['format'])
    return hd.build(case['format']), case['values'], [f[0] for f in fields], {f[0]: f[3] for f in fields}


def headers(case, cov):
    from segpy.header import are_equal
    cls, values, names, default = materialise(case)
    header, blank = cls(**values), cls()
    clone, clone_blank = header, blank
    for how in case['how']:
        if case['together']:
            clone, again_blank, same = again((clone, clone_blank, clone), 'deepcopy' if how == 'copy' else how)
            check(clone is same, 'identity within one pickle')
            clone_blank = again_blank
        else:
            clone, clone_blank = again(clone, how), again(clone_blank, how)
    check(clone is not header, 'the same object')
    for h, want, what in ((header, values, 'original'), (clone, values, 'result'), (blank, default, 'blank original'),
                          (clone_blank, default, 'blank result')):
        check(type(h) is cls, 'type of the', what)
        for name in names:
            v = getattr(h, name)
            check_eq(int(v), want[name], '%s of the %s' % (name, what))
            check(type(v) is type(getattr(header, name)), 'type of', name)
    check(are_equal(header, clone), 'are_equal() of the result')
    foreign(pickle.dumps(header), cov)
    if 'copy' not in case['how']:
        header.remark = 'about this header'
        for how in case['how']:
            marked = again(header, how)
            check_eq(getattr(marked, 'remark', None), 'about this header', 'an attribute of the header')
            check(are_equal(header, marked), 'are_equal() of the result')
    # they are independent
    name = names[case['changed'] % len(names)]
    other = default[name] if default[name] != values[name] else values[name]
    setattr(clone, name, other)
    check_eq(int(getattr(header, name)), values[name], 'the original after assigning to the result')
    cov.nontrivial(values != default)
    cov.label('standard' if isinstance(case['format'], str) else case['format']['shape'])


def packers(case, cov):
    from segpy.packer import make_header_packer
    cls, values, names, default = materialise(case)
    packer = make_header_packer(cls, case['endian'])
    clone = packer
    for how in case['how']:
        clone = again(clone, how)
        check(type(clone) is type(packer) and clone.header_format_class is cls, 'kind of packer')
    header = cls(**values)
    data = bytes(packer.pack(header))
    check_eq(bytes(clone.pack(header)), data, 'packed')
    got = clone.unpack(data)
    check(type(got) is cls, 'type unpacked')
    for name in names:
        check_eq(int(getattr(got, name)), values[name], name)
    foreign(pickle.dumps(clone), cov)
    raises(ValueError, lambda: clone.unpack(data + b'\0'), 'a buffer of the wrong length')
    raises(TypeError, lambda: clone.pack(None), 'packing None')
    cov.nontrivial(len(names) > 1)
    cov.label(type(packer).__name__)


# ----------------------------------------------------------------------------------------------------- another process

CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
from vf import core
core.REPO = sys.argv[2]
core.setup_paths()
from vf import gen
objects = pickle.load(sys.stdin.buffer)
out = [gen.report(o) if hasattr(o, 'num_traces') else gen.header_report(o) if hasattr(o, 'ordered_field_names')
       else gen.header_report(o.unpack(bytes(240))) for o in objects]
sys.stdout.buffer.write(pickle.dumps(out))
"""


@st.composite
def process_cases(draw):
    return dict(files=draw(st.lists(reader_cases(), min_size=2, max_size=4)), protocol=draw(st.integers(0, 5)))


def other_process(case, cov):
    """Readers, headers and packers are loaded by a process which has done nothing before."""
    from segpy.packer import make_header_packer
    from vf.formats import CompactTraceHeader
    directory = scratch_dir()
    try:
        objects, want, handles = [], [], []
        for k, c in enumerate(case['files']):
            path = os.path.join(directory, '%d%s' % (k, c['name']))
            model = gen.Model(c['ds'])
            with open(path, 'wb') as f:
                f.write(model.encoded())
            try:
                reader, fh = open_reader(dict(c, cached=False), path)
            except (AttributeError, ValueError, TypeError):
                continue
            handles.append(fh)
            use(reader, c['uses'])
            objects.append(reader)
            want.append(gen.report(reader))
            for i in range(reader.num_traces())[:2]:
                objects.append(reader.trace_header(i))
                want.append(gen.header_report(objects[-1]))
        objects.append(make_header_packer(CompactTraceHeader, '<'))
        want.append(gen.header_report(CompactTraceHeader()))
        data = pickle.dumps(objects, protocol=case['protocol'])
        for fh in handles:
            fh.close()
        result = subprocess.run([sys.executable, '-B', '-c', CHILD, core.VERIF, core.REPO], input=data,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=directory)
        if result.returncode:
            raise Violation('loading in another process failed: ' + result.stderr.decode()[-1500:])
        got = pickle.loads(result.stdout)
        check_eq(len(got), len(want), 'number of objects')
        for g, w in zip(got, want):
            if isinstance(w, dict):
                check_same(g, w, 'reader in another process')
            else:
                check_eq(g, w, 'header in another process')
        cov.nontrivial(len(handles) > 1)
    finally:
        rmtree(directory)


PROPS = [
    Prop('readers', readers, reader_cases, quick=140, shards=5),
    Prop('unnamed', unnamed, unnamed_cases, quick=100),
    Prop('headers', headers, header_cases, quick=700),
    Prop('packers', packers, header_cases, quick=600),
    Prop('other_process', other_process, process_cases, quick=8, thorough=60, shards=2),
]
