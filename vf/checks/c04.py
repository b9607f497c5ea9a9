"""C04: copying and transcoding preserve the content."""
import io
import os
import pickle

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, scratch_dir, rmtree
from vf.checks.c02 import where

PROPERTY = 'C04'
RULE = ("A case is a source file made by the independent encoder (raw sample bit patterns included, un-normalised IBM "
        "words among them) and a history of up to six copies, each with its own byte order, text encoding, file kind "
        "and wrapper (plain reader, delegating dataset, pickled reader). After each copy the bytes must equal the "
        "reference encoding of the original content in that representation. Non-trivial: at least one trace with "
        "samples and at least one copy.")
ASSUMPTIONS = ["Text to be transcoded is restricted to characters both encodings have.",
               "Signalling NaNs are excluded (Python floats cannot carry them reliably).",
               "IBM samples whose value cannot be normalised (FloatingPointError on copying) need not be excluded: "
               "copying must preserve their bit patterns."]


@st.composite
def cases(draw):
    # characters which only EBCDIC has survive as long as the text stays in EBCDIC
    repertoire = draw(st.sampled_from(['ascii', 'ascii', 'cp037']))
    case = draw(gen.datasets(max_traces=5, thfs=gen.THFS,
                             brhfs=('std', 'std', 'std', 'ext', 'wide', 'compact', 'short'),
                             encodings=(repertoire,), long=False))
    case['enc'] = 'cp037' if repertoire == 'cp037' else draw(st.sampled_from(gen.ENCODINGS))
    for t in case['traces']:
        if draw(st.booleans()):
            t['raw'] = (draw(gen.weighted((5, st.integers(0, 40)), (1, st.sampled_from([255, 256, 1000])))),
                        draw(st.integers(0, 10**6)))
        elif case['fmt'] == 'ibm' and draw(st.booleans()):
            t['words'] = draw(st.lists(gen.ibm_words(), max_size=5))
    case['copies'] = draw(st.lists(st.tuples(
        st.sampled_from(['same', '>', '<']),
        st.sampled_from(['inherit', 'cp037'] if repertoire == 'cp037' else ['inherit', 'ascii', 'cp037']),
        st.sampled_from(['plain', 'plain', 'delegate', 'pickled', 'partial']),
        st.sampled_from(['memory', 'memory', 'disk'])), min_size=1, max_size=6))
    if case['traces'] and draw(st.integers(0, 29)) == 0:
        many = draw(st.sampled_from([17, 33, 64, 65, 100, 101, 128, 129, 257]))
        case['traces'] = ([t for t in case['traces'] if t.get('raw', (0,))[0] < 100] * many)[:many]
        case['copies'] = case['copies'][:2]
    return case


def quiet(body):
    """Set the quiet bit of NaN patterns (big-endian words)."""
    out = bytearray(body)
    for i in range(0, len(out), 4):
        if out[i] & 0x7f == 0x7f and out[i + 1] & 0x80 and (out[i + 1] & 0x7f or out[i + 2] or out[i + 3]):
            out[i + 1] |= 0x40
    return bytes(out)


def swapped(body, size):
    return b''.join(body[i:i + size][::-1] for i in range(0, len(body), size))


def wrap(reader, how):
    from segpy.dataset import DelegatingDataset
    if how == 'pickled':
        return pickle.loads(pickle.dumps(reader))
    if how == 'delegate':
        class Delegate(DelegatingDataset):
            pass
        return Delegate(Delegate(reader))
    return reader


def copying(case, cov):
    from segpy.reader import create_reader
    from segpy.writer import write_segy
    model = gen.Model(case)
    fmt = case['fmt']
    size = ref.SAMPLE_SIZES[fmt]
    bodies = []
    for i, t in enumerate(case['traces']):
        if t.get('raw'):
            body = gen.raw_sample_bytes(t['raw'][0], t['raw'][1], fmt)
        elif t.get('words'):
            body = b''.join(t['words'])
        else:
            body = ref.encode_samples(model.samples[i], fmt, '>')
        if fmt == 'float32':
            body = quiet(body)
        model.headers[i]['num_samples'] = len(body) // size
        model.samples[i] = range(len(body) // size)
        bodies.append(body)

    def encoded(endian, enc):
        parts = [ref.encode_cards(model.text, enc), ref.encode_binary_header(model.brh, endian, table=model.brh_table)]
        for page in model.ext:
            parts.extend(ref.encode_text(line, enc) for line in page)
        for h, body in zip(model.headers, bodies):
            parts.append(ref.encode_trace_header(h, model.table, endian))
            parts.append(body if endian == '>' or fmt == 'ibm' else swapped(body, size))
        return b''.join(parts)

    endian, enc = case['endian'], case['enc']
    data = encoded(endian, enc)
    cov.nontrivial(any(bodies))
    cov.label('fmt ' + fmt)
    cov.label('thf ' + case['thf'])
    cov.label('copies', len(case['copies']))
    directory = scratch_dir()
    try:
        for k, (new_endian, new_enc, how, kind) in enumerate(case['copies']):
            cov.label('via ' + how)
            if how == 'pickled':
                kind = 'disk'
            with gen.open_bytes(data, kind, directory, 'g%d.sgy' % k) as fh:
                reader = create_reader(fh, encoding=enc, endian=endian, trace_header_format=model.format_class,
                                       binary_reel_header_format=model.brh_class, cache_directory=None)
                kwargs = dict(trace_header_format=model.format_class)
                next_endian = endian if new_endian == 'same' else new_endian
                next_enc = enc if new_enc == 'inherit' else new_enc
                if new_enc != 'inherit':
                    kwargs['encoding'] = new_enc
                if how == 'partial':
                    # an earlier, unrelated use of the reader
                    for i in range(reader.num_traces()):
                        reader.trace_samples(i, 0, min(1, reader.num_trace_samples(i)))
                dataset = wrap(reader, how)
                out = io.BytesIO() if kind == 'memory' else open(os.path.join(directory, 'o%d.sgy' % k), 'w+b')
                with out:
                    write_segy(out, dataset, endian=next_endian, **kwargs)
                    out.seek(0)
                    new = out.read()
                if how == 'pickled':
                    dataset._fh.close()
            endian, enc = next_endian, next_enc
            want = encoded(endian, enc)
            if new != want:
                n = next((p for p in range(min(len(new), len(want))) if new[p] != want[p]), min(len(new), len(want)))
                raise Violation('copy %d differs at byte %d (%s): %r, expected %r; lengths %d and %d' % (
                    k, n, where(n, model), new[n:n + 8], want[n:n + 8], len(new), len(want)))
            data = new
    finally:
        rmtree(directory)


PROPS = [
    Prop('copying', copying, cases, quick=350, shards=8),
]
