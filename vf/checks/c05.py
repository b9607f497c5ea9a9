"""C05: random access is independent of history, file position and other readers."""
import array

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, check, check_eq, raises, scratch_dir, rmtree

PROPERTY = 'C05'
RULE = ("A case is one or two files and a history of up to fourteen operations on several readers which share the file "
        "objects: whole and partial sample reads, headers with the default packer and with sub-format packers, "
        "queries, illegal arguments, foreign seeks and reads, mutation of returned samples and headers, new readers. "
        "Every result is compared with the model. Non-trivial: at least two successful reads, with a seek, a failing "
        "call, a mutation or a read through another reader between them. Also reads all over virtual large files.")
ASSUMPTIONS = ["Sample indexes and trace indexes are integers."]

SUB_FIELDS = ['num_samples', 'ensemble_num', 'inline_number', 'crossline_number']


@st.composite
def file_cases(draw):
    case = draw(gen.datasets(max_traces=5, thfs=gen.THFS_2BYTE,
                             encodings=('ascii',), long=False, max_pages=1, header_overrides=1))
    if not case['traces']:
        case['traces'] = [dict(at=(1, 2, 3), fill=5, h={}, s=('pattern', 9, 3))]
    return case


_INDEX = st.one_of(st.integers(0, 5), st.integers(0, 5), st.integers(-2, 9))
_BOUND = st.one_of(st.none(), st.integers(0, 60), st.integers(-2, 12), st.integers(0, 4096), st.sampled_from([-1, 10**6, 2**40]))
_KINDS = ['samples', 'samples', 'samples', 'samples', 'header', 'header', 'sub', 'query', 'seek', 'seek', 'read',
          'mutate-samples', 'mutate-header', 'reader']


@st.composite
def operations(draw):
    return (draw(st.sampled_from(_KINDS)), draw(st.integers(0, 3)), draw(_INDEX), draw(_BOUND), draw(_BOUND),
            draw(st.integers(0, 10**6)))


OPERATIONS = operations()
FILE_CASES = file_cases()


@st.composite
def cases(draw):
    files = [draw(FILE_CASES) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    return dict(files=files, kinds=[draw(st.sampled_from(['memory', 'disk', 'raw'])) for _ in files],
                ops=draw(st.lists(OPERATIONS, min_size=draw(st.integers(1, 10)), max_size=16)))


def sub_packer(model, seed):
    from segpy.header import SubFormatMeta
    from segpy.packer import make_header_packer
    rows = model.table
    k = 1 + seed % 3
    names = []
    for n in range(k):
        name = rows[(seed // 7 + n * 11) % len(rows)][0]
        if name not in names:
            names.append(name)

    class Sub(metaclass=SubFormatMeta, parent_format=model.format_class, parent_field_names=names):
        pass
    return make_header_packer(Sub, model.endian), names


def legal(model, index):
    return 0 <= index < len(model.headers)


def history(case, cov):
    from segpy.reader import create_reader
    models = [gen.Model(f) for f in case['files']]
    directory = scratch_dir() if set(case['kinds']) - {'memory'} else None
    handles = []
    readers = []
    successes = disturbed = 0
    useful = False
    last_reader = None
    try:
        for k, (model, kind) in enumerate(zip(models, case['kinds'])):
            fh = gen.open_bytes(model.encoded(), kind, directory, 'f%d.sgy' % k)
            handles.append(fh)

        def new_reader(k):
            model = models[k]
            readers.append((create_reader(handles[k], encoding=model.enc, endian=model.endian,
                                          trace_header_format=model.format_class, cache_directory=None), model, k))

        for k in range(len(models)):
            handles[k].seek(0)
            new_reader(k)
        for what, r, index, start, stop, seed in case['ops']:
            which = r % len(readers)
            reader, model, k = readers[which]
            cov.label(what)
            if seed % 8:
                # mostly legal arguments
                index %= len(model.headers)
                n = len(model.samples[index])
                if start is not None:
                    start %= n + 1
                if stop is not None:
                    lo = start or 0
                    stop = lo + stop % (n - lo + 1)
            if what == 'reader':
                # "positioned such that the beginning of the reel header will be the next byte to be read"
                handles[k].seek(0)
                new_reader(k)
                continue
            if what == 'seek':
                handles[k].seek(seed % 9000)
                disturbed = True
                continue
            if what == 'read':
                handles[k].read(seed % 5000)
                disturbed = True
                continue
            if what == 'query':
                check_eq(reader.num_traces(), len(model.headers), 'number of traces')
                check_eq(reader.max_num_trace_samples(), max(len(s) for s in model.samples), 'max samples')
                check_eq(list(reader.trace_indexes()), list(range(len(model.headers))), 'trace indexes')
                check_eq(list(reader.textual_reel_header), model.text, 'text')
                if legal(model, index):
                    check_eq(reader.num_trace_samples(index), len(model.samples[index]), 'num samples')
                continue
            if what in ('samples', 'mutate-samples'):
                if not legal(model, index):
                    raises(ValueError, lambda: reader.trace_samples(index, start, stop), 'trace_samples', index)
                    disturbed = True
                    continue
                n = len(model.samples[index])
                lo = 0 if start is None else start
                hi = n if stop is None else stop
                if not 0 <= lo <= hi <= n:
                    raises(ValueError, lambda: reader.trace_samples(index, start, stop),
                           'trace_samples', index, start, stop, 'of', n)
                    disturbed = True
                    cov.label('illegal range')
                    continue
                if start is None and stop is None and seed % 2:
                    got = reader.trace_samples(index)
                elif seed % 3 == 0:
                    got = reader.trace_samples(trace_index=index, start=start, stop=stop)
                else:
                    got = reader.trace_samples(index, start, stop)
                check_eq(len(got), hi - lo, 'number of samples')
                check_eq(ref.comparable(got, model.fmt), model.stored(index)[lo:hi],
                         'samples', index, start, stop)
                if 0 < hi - lo < n:
                    cov.label('proper part')
                if what == 'mutate-samples' and isinstance(got, (list, array.array)) and len(got):
                    got[0] = got[-1]
                    del got[-1]
                    disturbed = True
            elif what in ('header', 'mutate-header'):
                if not legal(model, index):
                    raises(ValueError, lambda: reader.trace_header(index), 'trace_header', index)
                    disturbed = True
                    continue
                header = reader.trace_header(index)
                check(type(header) is model.format_class, 'type of header')
                check_eq(gen.header_dict(header, model.table), model.headers[index], 'trace header', index)
                if what == 'mutate-header':
                    header.num_samples = 3
                    header.ensemble_num = 12345 if hasattr(header, 'ensemble_num') else 0
                    disturbed = True
            elif what == 'sub':
                packer, names = sub_packer(model, seed)
                if not legal(model, index):
                    raises(ValueError, lambda: reader.trace_header(index, packer), 'trace_header', index)
                    disturbed = True
                    continue
                sub = (reader.trace_header(index, header_packer_override=packer) if seed % 2
                       else reader.trace_header(index, packer))
                for name in names:
                    check_eq(int(getattr(sub, name)), model.headers[index][name], 'sub-format field', name)
                # the override is for this call only
                check(reader.trace_header_format_class is model.format_class, 'trace header format class')
            successes += 1
            if successes > 1 and (disturbed or last_reader not in (None, which)):
                useful = True
            last_reader = which
            disturbed = False
        # finally, everything reads as at first
        for reader, model, k in readers:
            for i in range(len(model.headers)):
                check_eq(ref.comparable(reader.trace_samples(i), model.fmt), model.stored(i), 'samples at the end', i)
                check_eq(gen.header_dict(reader.trace_header(i), model.table), model.headers[i], 'header at the end', i)
        cov.nontrivial(useful)
    finally:
        for fh in handles:
            fh.close()
        if directory:
            rmtree(directory)


@st.composite
def partial_cases(draw):
    fmt = draw(st.sampled_from(gen.FMTS))
    n = draw(st.integers(0, 9))
    return dict(fmt=fmt, endian=draw(st.sampled_from('<>')), n=n, seed=draw(st.integers(0, 5000)),
                extra=draw(st.integers(0, 5)), mode=draw(st.sampled_from(['forward', 'backward', 'alternate'])))


def all_parts(case, cov):
    """Every [start, stop) of short traces, legal and not, in several orders."""
    import io
    from segpy.reader import create_reader
    n = case['n']
    ds = dict(fmt=case['fmt'], endian=case['endian'], enc='ascii', thf='rev1', text=['X'], declared=0, ext=[],
              brh_fill=0, brh={}, traces=[dict(at=(k, 0, 0), fill=0, h={}, s=('pattern', m, case['seed'] + k))
                                          for k, m in enumerate([case['extra'], n, 3])])
    model = gen.Model(ds)
    reader = create_reader(io.BytesIO(model.encoded()), encoding='ascii', endian=case['endian'], cache_directory=None)
    whole = model.stored(1)
    pairs = [(a, b) for a in [None] + list(range(-2, n + 3)) for b in [None] + list(range(-2, n + 3))]
    if case['mode'] == 'backward':
        pairs.reverse()
    if case['mode'] == 'alternate':
        pairs = pairs[::2] + pairs[1::2][::-1]
    for a, b in pairs:
        lo, hi = 0 if a is None else a, n if b is None else b
        if 0 <= lo <= hi <= n:
            check_eq(ref.comparable(reader.trace_samples(1, a, b), case['fmt']), whole[lo:hi], 'part', a, b, 'of', n)
        else:
            raises(ValueError, lambda: reader.trace_samples(1, a, b), 'part', a, b, 'of', n)
    check_eq(ref.comparable(reader.trace_samples(1), case['fmt']), whole, 'whole')
    cov.nontrivial(n > 0)


_SURVEYS = {}
LARGE_NAMES = [row[0] for row in gen.LARGE_SURVEYS]


def prepare_large():
    for name in LARGE_NAMES:
        survey = gen.large_survey(name)
        _SURVEYS[name] = survey, [gen.virtual_reader(survey), None], gen.virtual_probes(survey)
        survey.seek(0)
        _SURVEYS[name][1][1] = gen.virtual_reader(survey)


@st.composite
def large_cases(draw):
    index = st.one_of(st.integers(0, 500), st.integers(0, 2**20))
    bound = st.one_of(st.none(), st.integers(0, 65535), st.sampled_from([0, 1, 4095, 4096, 32766, 32767, 65534]))
    return dict(name=draw(st.sampled_from(LARGE_NAMES)),
                ops=draw(st.lists(st.tuples(st.sampled_from(['samples', 'samples', 'header', 'seek', 'length']),
                                            st.integers(0, 1), st.booleans(), index, bound, bound),
                                  min_size=2, max_size=12)))


def large(case, cov):
    """Random access to surveys of gigabytes, or of a hundred thousand traces."""
    survey, readers, probes = _SURVEYS[case['name']]
    cov.label(case['name'])
    cov.nontrivial(len({op[3] for op in case['ops']}) > 1)
    for what, r, near, index, start, stop in case['ops']:
        reader = readers[r]
        i = probes[index % len(probes)] if near else index % survey.n
        n = survey.lengths[i % len(survey.lengths)]
        if what == 'seek':
            survey.seek(index * 9001 % survey.total)
        elif what == 'length':
            check_eq(reader.num_trace_samples(i), n, 'number of samples of trace', i)
        elif what == 'header':
            want = survey.fields(i)
            h = reader.trace_header(i)
            check_eq({name: int(getattr(h, name)) for name in want}, want, 'header of trace', i)
        else:
            if start is not None:
                start %= n + 1
            if stop is not None:
                stop = (start or 0) + stop % (n - (start or 0) + 1)
            elif n > 5000 and index % 4:
                stop = min(n, (start or 0) + 50)
            check_eq(ref.comparable(reader.trace_samples(i, start, stop), survey.fmt),
                     ref.comparable(survey.samples(i, start, stop), survey.fmt), 'samples of', i, start, stop)


PROPS = [
    Prop('large', large, large_cases, quick=60, shards=2, setup=prepare_large),
    Prop('history', history, cases, quick=450, shards=7),
    Prop('all_parts', all_parts, partial_cases, quick=150),
]
