"""C35: the example programs transform files as they document."""
import contextlib
import importlib.util
import io
import os
from fractions import Fraction
from math import isinf

from hypothesis import strategies as st

from vf import core, gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, scratch_dir, rmtree
from vf.checks.c03 import guess

PROPERTY = 'C35'
RULE = ("Generated big-endian files with readable text, in both encodings and all sample formats, are given to the "
        "programs in examples/: copying, scaling samples, scaling coordinates, converting sample formats, time slices, "
        "trace positions and reports; also without arguments, with missing and truncated files, twice in a row (with the "
        "cache the first made) and one program on the output of another. Oracle: the reference codec. Non-trivial: at "
        "least one trace with samples.")
ASSUMPTIONS = ["Samples are finite and results are within the range of IEEE single precision.",
               "The programs are run in this process with a working directory and files in a scratch directory."]

FACTORS = [1, 2, -1, 0, 0.5, 0.25, -3, 16, 100, 1.5, -0.125]
PROGRAMS = ['loadsave', 'scale_samples', 'scale_source_coords', 'convert_sample_type', 'timeslice', 'trace_positions',
            'report', 'custom_header', 'timed_reader']


def samples(fmt):
    if fmt == 'float32':
        return st.one_of(st.integers(-1000, 1000).map(float), st.floats(-2.0**100, 2.0**100, width=32).map(
            lambda v: v if abs(v) > 1e-30 else 0.0))
    if fmt == 'ibm':
        return st.one_of(st.integers(-2**24, 2**24).map(float), st.floats(-2.0**100, 2.0**100, width=32).map(
            lambda v: v if abs(v) > 1e-30 else 0.0), st.sampled_from([127.75, -128.5, 32767.5, -32768.5, 2.0**31, -2.0**31,
                                                                     2.5**31, 1e10]))
    return gen.sample_values(fmt)


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(gen.FMTS))
    enc = draw(st.sampled_from(gen.ENCODINGS))
    declared, pages = draw(gen.ext_pages(enc, 1))
    at = draw(gen.geometry(9))
    if draw(st.booleans()):
        at = [(k, i, j) for k, (i, j) in enumerate(draw(gen.grids(3)))]
    traces = [dict(at=p, fill=draw(gen.FILL), h=dict(source_x=draw(st.integers(-10**6, 10**6)),
                                                     source_y=draw(st.integers(-10**6, 10**6)),
                                                     cdp_x=draw(st.integers(-2**31, 2**31 - 1))),
                   s=draw(st.lists(samples(fmt), max_size=5))) for p in at]
    if traces and draw(st.booleans()):
        for t in traces:
            t['s'] = traces[0]['s']
    text = ['C%2d SURVEY %s' % (k + 1, draw(st.sampled_from(['AREA 51', 'line', ':-', '']))) for k in
            range(draw(st.integers(0, 40)))]
    ds = dict(fmt=fmt, endian='>', enc=enc, thf='rev1', text=text, declared=declared, ext=pages,
              brh_fill=draw(gen.FILL), brh={}, traces=traces)
    return dict(ds=ds, runs=draw(st.lists(st.tuples(st.sampled_from(PROGRAMS), st.sampled_from(FACTORS),
                                                    st.sampled_from(gen.FMTS), st.integers(0, 6)),
                                          min_size=1, max_size=4)),
                trouble=draw(st.sampled_from(['no', 'no', 'no', 'usage', 'missing', 'directory', 'truncated'])))


_LOADED = {}


def load(name):
    if name not in _LOADED:
        path = os.path.join(core.REPO, 'examples', name + '.py')
        spec = importlib.util.spec_from_file_location('segpy_example_' + name, path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        _LOADED[name] = module
    return _LOADED[name]


def call(name, *args):
    """(exit status, standard output, standard error)"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            status = load(name).main([str(a) for a in args])
        except SystemExit as e:
            status = 'exit %r' % (e.code,)
    return status, out.getvalue(), err.getvalue()


def truncated_towards_zero(q):
    return int(q)


def clipped(value, fmt):
    lo, hi = ref.INT_LIMITS[fmt]
    return max(lo, min(hi, value))


def scaled(values, fmt, factor):
    if fmt in ref.INT_LIMITS:
        return [clipped(int(v * float(factor)), fmt) for v in values]
    return [float(v) * float(factor) for v in values]


def converted(values, target):
    if target in ref.INT_LIMITS:
        return [clipped(int(v), target) for v in values]
    return [float(v) for v in values]


class Content:
    """What a file should hold."""

    def __init__(self, model):
        self.text, self.brh, self.ext = model.text, dict(model.brh), model.ext
        self.headers = [dict(h) for h in model.headers]
        self.fmt, self.enc, self.table = model.fmt, model.enc, model.table
        self.values = [gen.stored_values(s, model.fmt) for s in model.samples]

    def encoded(self):
        return ref.encode_file(self.text, self.brh, self.ext,
                               [(h, [float(x) if self.fmt in ('ibm', 'float32') else x for x in v])
                                for h, v in zip(self.headers, self.values)], self.fmt, '>', self.enc, self.table)

    def settle(self, values):
        """The values after having been stored."""
        self.values = [gen.stored_values([float(x) if self.fmt in ('ibm', 'float32') else x for x in v], self.fmt)
                       for v in values]


def programs(case, cov):
    import numpy as np
    model = gen.Model(case['ds'])
    content = Content(model)
    check_eq(guess(content.encoded()[:3200]), model.enc, 'the text of the case')
    directory = os.path.realpath(scratch_dir())
    cov.nontrivial(any(content.values))
    old = os.getcwd()
    os.chdir(directory)
    try:
        path = os.path.join(directory, 'in.sgy')
        with open(path, 'wb') as f:
            f.write(content.encoded())
        for k, (name, factor, target, index) in enumerate(case['runs']):
            cov.label(name)
            out = os.path.join(directory, 'out%d.sgy' % k)
            if case['trouble'] != 'no' and k == len(case['runs']) - 1:
                trouble(case['trouble'], name, factor, target, path, out, cov)
                break
            before = content.encoded()
            if name == 'loadsave':
                status, _, err = call(name, path, out)
            elif name == 'scale_samples':
                status, _, err = call(name, factor, path, out)
                values = [scaled(v, content.fmt, factor) for v in content.values]
                if content.fmt not in ref.INT_LIMITS and any(isinf(x) or abs(x) > 3e38 for v in values for x in v):
                    break
                content.settle(values)
            elif name == 'scale_source_coords':
                status, _, err = call(name, factor, path, out)
                new = [(int(h['source_x'] * float(factor)), int(h['source_y'] * float(factor))) for h in content.headers]
                if any(not -2**31 <= v < 2**31 for pair in new for v in pair):
                    check_eq(status, os.EX_SOFTWARE, 'status, coordinates being out of range')
                    break
                for h, (x, y) in zip(content.headers, new):
                    h['source_x'], h['source_y'] = x, y
            elif name == 'convert_sample_type':
                status, _, err = call(name, target, path, out)
                if content.fmt != 'ibm':
                    check_eq(status, os.EX_SOFTWARE, 'status, the input not being IBM float')
                    break
                values = [converted(v, target) for v in content.values]
                content.fmt = target
                content.brh['data_sample_format'] = ref.FORMAT_CODES[target]
                content.settle(values)
            else:
                inspect(name, path, directory, content, index, cov, np)
                continue
            check_eq(status, os.EX_OK, 'status of %s: %s' % (name, err[-300:]))
            with open(out, 'rb') as f:
                got = f.read()
            want = content.encoded()
            check(got == want, 'output of', name, 'differs at byte',
                  next((p for p, (a, b) in enumerate(zip(got, want)) if a != b), (len(got), len(want))))
            with open(path, 'rb') as f:
                check(f.read() == before, 'the input of', name, 'was changed')
            path = out
    finally:
        os.chdir(old)
        rmtree(directory)


def dimensionality(headers):
    pairs = {(h['inline_number'], h['crossline_number']) for h in headers}
    if len(pairs) == len(headers):
        return 3
    return 2 if len({h['ensemble_num'] for h in headers}) == len(headers) else 0


def inspect(name, path, directory, content, index, cov, np):
    n = len(content.headers)
    ii = sorted({h['inline_number'] for h in content.headers})
    jj = sorted({h['crossline_number'] for h in content.headers})
    if name == 'timeslice':
        out = os.path.join(directory, 'slice.npy')
        if os.path.exists(out):
            os.unlink(out)
        status, _, err = call(name, path, out, index, '--null', 0)
        if n == 0:
            return
        if dimensionality(content.headers) != 3 or index >= max(map(len, content.values)):
            check_eq(status, os.EX_SOFTWARE, 'status of timeslice')
            return
        check_eq(status, os.EX_OK, 'status of timeslice: %s' % err[-300:])
        got = np.load(out)
        want = np.zeros((len(ii), len(jj)), dtype=object)
        for h, v in zip(content.headers, content.values):
            if index < len(v):
                want[ii.index(h['inline_number']), jj.index(h['crossline_number'])] = v[index]
        check_eq(got.shape, want.shape, 'shape of the slice')
        for a in range(len(ii)):
            for b in range(len(jj)):
                g, w = got[a, b], want[a, b]
                same = float(g) == float(np.float32(float(w))) if content.fmt in ('ibm', 'float32') else int(g) == int(w)
                check(same or abs(Fraction(float(g)) - Fraction(w)) <= abs(Fraction(w)) / 2**23, 'slice at', (a, b), g, w)
        cov.label('sliced')
    elif name == 'trace_positions':
        status, text, err = call(name, path)
        check_eq(status, os.EX_OK, 'status of %s: %s' % (name, err[-300:]))
        got = [line for line in text.splitlines() if line]
        check_eq(got, ['%d (%d, %d)' % (k, h['cdp_x'], h['cdp_y']) for k, h in enumerate(content.headers)], 'positions')
    elif name in ('report', 'custom_header'):
        status, text, err = call(name, path)
        check_eq(status, os.EX_OK, 'status of %s: %s' % (name, err[-300:]))
        lines = {}
        for line in text.split('=== BEGIN')[0].splitlines():
            key, _, value = line.partition(':')
            lines[key.strip()] = value.strip()
        check_eq(lines.get('Filename'), path, 'file name')
        check_eq(lines.get('Number of traces'), str(n), 'number of traces')
        check_eq(lines.get('Data format'), ref.DESCRIPTIONS[content.fmt], 'data format')
        if n:
            d = dimensionality(content.headers)
            check_eq(lines.get('Dimensionality'), str(d), 'dimensionality')
            check_eq(lines.get('Number of CDPs'), str(n) if d == 2 else None, 'number of CDPs')
            check_eq(lines.get('Number of inlines'), str(len(ii)) if d == 3 else None, 'number of inlines')
            check_eq(lines.get('Number of crosslines'), str(len(jj)) if d == 3 else None, 'number of crosslines')
        for line in content.text:
            check(line[3:].rstrip() in text, 'text', line)
    else:
        status, text, err = call(name, path)
        check_eq(status, os.EX_OK, 'status of %s: %s' % (name, err[-300:]))


def trouble(kind, name, factor, target, path, out, cov):
    first = {'scale_samples': [factor], 'scale_source_coords': [factor], 'convert_sample_type': [target]}.get(name, [])
    last = [out] if name in ('loadsave', 'scale_samples', 'scale_source_coords', 'convert_sample_type') else []
    if name == 'timeslice':
        last = [out, 0]
    with open(path, 'rb') as f:
        data = f.read()
    cov.label('trouble ' + kind)
    if kind == 'usage':
        if name in ('timeslice', 'trace_positions'):
            check_eq(call(name)[0], 'exit 2', 'status without arguments')
        else:
            check_eq(call(name)[0], os.EX_USAGE, 'status without arguments')
    elif kind == 'missing':
        status = call(name, *first, path + '.missing', *last)[0]
        check_eq(status, os.EX_NOINPUT, 'status without input')
    elif kind == 'directory':
        status = call(name, *first, os.path.dirname(path), *last)[0]
        check_eq(status, os.EX_NOINPUT, 'status for a directory')
    else:
        with open(path + '.cut', 'wb') as f:
            f.write(data[:3000])
        status = call(name, *first, path + '.cut', *last)[0]
        check_eq(status, os.EX_SOFTWARE, 'status for a truncated file')
    with open(path, 'rb') as f:
        check(f.read() == data, 'the input was changed')


PROPS = [
    Prop('programs', programs, cases, quick=130, shards=8),
]
