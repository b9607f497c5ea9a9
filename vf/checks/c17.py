"""C17: IBM float conversion is exact one way and correctly truncated the other."""
import importlib.util
import math
import os
import pickle
import struct
import subprocess
import sys
from fractions import Fraction

from hypothesis import strategies as st

from vf import core, gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises, rmtree, scratch_dir

PROPERTY = 'C17'
RULE = ("Decoding: every sign and characteristic with about 250 structured fractions each (enumerated), and random "
        "patterns; encoding: doubles by exponent and bit pattern, neighbours of representable numbers and of powers of "
        "sixteen, integers and fractions; all against exact rational arithmetic. Non-trivial: a non-zero number.")
ASSUMPTIONS = ["Integers are those which a double can represent."]

MAX = float(ref.IBM_MAX)
TINY = float(ref.IBM_TINY)


def mantissas(seed):
    out = {0, 1, 2, 0xf, 0x10, 0x11, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x0fffff, 0x100000, 0x100001,
           0x1fffff, 0x200000, 0x3fffff, 0x400000, 0x7fffff, 0x800000, 0x800001, 0xfffffe, 0xffffff, 0xf00000}
    out.update(1 << b for b in range(24))
    out.update(0xffffff ^ (1 << b) for b in range(24))
    out.update((1 << b) - 1 for b in range(25))
    x = seed * 2654435761 + 12345
    for _ in range(150):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        out.add(x >> 40)
    return sorted(m & 0xffffff for m in out)


def enumerated(tier, shard, nshards):
    for sign in (0, 1):
        for e in range(128):
            for seed in range(1 if tier == 'quick' else 40):
                yield sign, e, seed


def patterns(case, cov):
    """All structured patterns with one sign and characteristic."""
    from segpy.ibm_float import ibm2ieee, ieee2ibm, IBMFloat
    from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats, Packer
    sign, e, seed = case
    cov.nontrivial(True)
    words = [bytes([sign << 7 | e, m >> 16, m >> 8 & 255, m & 255]) for m in mantissas(seed * 256 + sign * 128 + e)]
    cov.label('patterns', len(words))
    for unpack in (unpack_ibm_floats, Packer().unpack):
        got = unpack(b''.join(words), len(words))
        check_eq(len(got), len(words), 'number of values')
        for w, v in zip(words, got):
            check_eq(Fraction(float(v)), ref.ibm_value(w), 'unpacked %s' % w.hex())
    values = []
    for w in words:
        q = ref.ibm_value(w)
        f = ibm2ieee(w)
        check(isinstance(f, float), 'type of', f)
        check_eq(Fraction(f), q, 'decoded %s' % w.hex())
        check_eq(ibm2ieee(w + b'xyz'), f, 'decoded with further bytes')
        check_eq(Fraction(float(IBMFloat(w))), q, 'value of IBMFloat %s' % w.hex())
        check_eq(bytes(IBMFloat(w)), w, 'bytes of the IBMFloat')
        # any number representable is encoded exactly, in the one standard form
        back = ieee2ibm(f)
        check_eq(ref.ibm_value(bytes(back)), q, 'encoded %r' % f)
        check_eq(bytes(back), ref.ibm_encode(f), 'form of %r' % f)
        values.append(f)
    want = b''.join(ref.ibm_encode(f) for f in values)
    for pack in (pack_ibm_floats, Packer().pack):
        check_eq(bytes(pack(values)), want, 'packed')
        check_eq(bytes(pack(iter(values))), want, 'packed from an iterator')


def encoded(f):
    """What ieee2ibm is to do: bytes or an exception type."""
    if isinstance(f, float) and (math.isnan(f) or math.isinf(f)):
        return ValueError
    q = Fraction(f)
    if abs(q) > ref.IBM_MAX:
        return OverflowError
    b = ref.ibm_encode(f)
    return FloatingPointError if b is None else b


def bits(draw_pos, f):
    n = struct.unpack('>q', struct.pack('>d', f))[0]
    return struct.unpack('>d', struct.pack('>q', n + draw_pos))[0]


@st.composite
def numbers(draw):
    kind = draw(st.sampled_from(['any', 'scaled', 'scaled', 'near', 'near', 'power', 'edge', 'int', 'special', 'tiny']))
    if kind == 'any':
        return draw(st.floats())
    if kind == 'scaled':
        m = draw(st.floats(0.5, 1, exclude_max=True))
        return math.ldexp(draw(st.sampled_from([-m, m])), draw(st.integers(-290, 258)))
    if kind == 'near':
        f = float(ref.ibm_value(draw(gen.ibm_words())))
        return bits(draw(st.integers(-3, 3)), f) if f else f
    if kind == 'power':
        f = math.ldexp(draw(st.sampled_from([1.0, -1.0])), draw(st.integers(-285, 255)))
        return bits(draw(st.integers(-2, 2)), f)
    if kind == 'edge':
        f = draw(st.sampled_from([MAX, -MAX, TINY, -TINY, 16 * TINY, 5.397605346934028e-79, 16.0**63]))
        return bits(draw(st.integers(-3, 3)), f)
    if kind == 'int':
        return draw(st.one_of(st.integers(-2**26, 2**26), st.integers(-10**80, 10**80),
                              st.integers(0, 300).map(lambda k: 2**k + 1)).map(lambda n: int(float(n))))
    if kind == 'tiny':
        return math.ldexp(draw(st.sampled_from([1.0, -1.0, 1.75, 1.0000001, 15.99])), draw(st.integers(-1074, -270)))
    return draw(st.sampled_from([0.0, -0.0, float('nan'), float('inf'), float('-inf'), 5e-324, 1.7e308, 1e76, 0.1]))


@st.composite
def pairs(draw):
    return draw(numbers()), draw(numbers())


def encoding(case, cov):
    from segpy.ibm_float import ibm2ieee, ieee2ibm, IBMFloat
    from segpy.ibm_float_packer import pack_ibm_floats, Packer
    results = []
    for f in case:
        want = encoded(f)
        if isinstance(want, bytes):
            got = ieee2ibm(f)
            check_eq(bytes(got), want, 'encoded %r' % (f,))
            value = ref.ibm_value(bytes(got))
            check(abs(value) <= abs(Fraction(f)), 'the magnitude of %r grew' % (f,))
            check_eq(bytes(IBMFloat.from_float(f)), want, 'IBMFloat of %r' % (f,))
            check_eq(bytes(IBMFloat.from_real(f)), want, 'IBMFloat of %r' % (f,))
            check_eq(bytes(IBMFloat.from_float_without_underflow(f)), want, 'IBMFloat of %r' % (f,))
            for pack in (pack_ibm_floats, Packer().pack):
                check_eq(bytes(pack([f, IBMFloat(want), f])), want * 3, 'packed %r' % (f,))
            # odd
            if f != 0:
                check_eq(ref.ibm_value(bytes(ieee2ibm(-f))), -value, 'encoded -(%r)' % (f,))
            # idempotent
            check_eq(bytes(ieee2ibm(ibm2ieee(got))), want, 'encoded again')
            results.append((Fraction(f), value))
            cov.nontrivial(f != 0)
            cov.label('exact' if value == Fraction(f) else 'truncated')
            if value and abs(value) < Fraction(16)**-65:
                cov.label('subnormal')
        else:
            raises(want, lambda: ieee2ibm(f), 'encoding %r' % (f,))
            raises(want, lambda: IBMFloat.from_float(f), 'IBMFloat of %r' % (f,))
            for pack in (pack_ibm_floats, Packer().pack):
                raises(want, lambda: pack([1.0, f, 2.0]), 'packing %r' % (f,))
            if want is FloatingPointError:
                check(IBMFloat.from_float_without_underflow(f).is_zero(), 'underflow of', f)
                results.append((Fraction(f), Fraction(0)))
            else:
                raises(want, lambda: IBMFloat.from_float_without_underflow(f), 'IBMFloat of %r' % (f,))
            cov.label(want.__name__)
    if len(results) == 2:
        (x, a), (y, b) = results
        check(not (x <= y and a > b) and not (x >= y and a < b), 'not monotonic: ', case)


@st.composite
def words(draw):
    return draw(st.lists(st.one_of(gen.ibm_words(), st.binary(min_size=4, max_size=4)), max_size=12))


def blocks(case, cov):
    """Blocks of patterns through the packer."""
    from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
    data = b''.join(case)
    cov.nontrivial(len(case))
    got = unpack_ibm_floats(data, len(case))
    check_eq([Fraction(*v.as_integer_ratio()) for v in got], [ref.ibm_value(w) for w in case], 'unpacked')
    again = bytes(pack_ibm_floats([float(v) for v in got]))
    check_eq(again, b''.join(ref.ibm_encode(float(ref.ibm_value(w))) for w in case), 'packed as floats')
    if len(case) > 1:
        got = unpack_ibm_floats(data, len(case) - 1)
        check_eq(len(got), len(case) - 1, 'number of values')


# ------------------------------------------------------------------------------------------------- packer extensions

EXTENSION = """
import struct
from fractions import Fraction
from vf import refsegy as ref
calls = []


class Packer:
    def pack(self, values):
        calls.append('pack')
        return b''.join(ref.ibm_encode(float(v)) for v in values)

    def unpack(self, data, num_items):
        calls.append('unpack')
        return [float(ref.ibm_value(data[k:k + 4])) for k in range(0, num_items * 4, 4)]
"""
CHILD = """
import pickle, sys
directory, verif, repo, site = sys.argv[1:]
sys.path[:0] = [directory, repo]
sys.path += [verif, site]
import vfext
import segpy.ibm_float_packer as m
out = []
for what, arg in pickle.load(sys.stdin.buffer):
    del vfext.calls[:]
    if what == 'force':
        m.force_python_ibm_floats = arg
    elif what == 'pack':
        out.append((bytes(m.pack_ibm_floats(arg)), list(vfext.calls)))
    else:
        got = m.unpack_ibm_floats(arg, len(arg) // 4)
        out.append(([float(v) for v in got], list(vfext.calls)))
assert m.__file__.startswith(repo)
sys.stdout.buffer.write(pickle.dumps(out))
"""


@st.composite
def extension_cases(draw):
    step = st.one_of(st.tuples(st.just('force'), st.booleans()),
                     st.tuples(st.just('pack'), st.lists(gen.ibm_floats(), max_size=4)),
                     st.tuples(st.just('unpack'), st.lists(gen.ibm_words(), max_size=4).map(b''.join)))
    return dict(name=draw(st.sampled_from(['cpp', 'cpp', 'cpp', 'rust', None])),
                steps=draw(st.lists(step, min_size=8, max_size=20)))


def extension(case, cov):
    """An installed implementation named 'cpp' is used, unless the Python one is forced; the results are the same."""
    directory = scratch_dir()
    try:
        with open(os.path.join(directory, 'vfext.py'), 'w') as f:
            f.write(EXTENSION)
        if case['name']:
            info = os.path.join(directory, 'vfext-1.0.dist-info')
            os.mkdir(info)
            with open(os.path.join(info, 'METADATA'), 'w') as f:
                f.write('Metadata-Version: 2.1\nName: vfext\nVersion: 1.0\n')
            with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
                f.write('[segpy.ibm_float_packer]\n%s = vfext:Packer\n' % case['name'])
        site = os.path.dirname(os.path.dirname(importlib.util.find_spec('stevedore').origin))
        result = subprocess.run([sys.executable, '-B', '-c', CHILD, directory, core.VERIF, core.REPO, site],
                                input=pickle.dumps(case['steps']), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                env=dict(os.environ, XDG_CACHE_HOME=directory, HOME=directory), cwd=directory)
        if result.returncode:
            raise Violation('failed: ' + result.stderr.decode()[-1500:])
        got = iter(pickle.loads(result.stdout))
        forced = False
        for what, arg in case['steps']:
            if what == 'force':
                forced = arg
                continue
            value, calls = next(got)
            if what == 'pack':
                check_eq(value, b''.join(ref.ibm_encode(v) for v in arg), 'packed')
            else:
                check_eq([Fraction(v) for v in value],
                         [ref.ibm_value(arg[k:k + 4]) for k in range(0, len(arg), 4)], 'unpacked')
            check_eq(calls, [what] if case['name'] == 'cpp' and not forced else [], 'calls of the extension')
        cov.label(str(case['name']))
        cov.nontrivial(case['name'] == 'cpp')
    finally:
        rmtree(directory)


PROPS = [
    Prop('patterns', patterns, cases=enumerated),
    Prop('encoding', encoding, pairs, quick=3000, shards=5),
    Prop('blocks', blocks, words, quick=1500, shards=1),
    Prop('extension', extension, extension_cases, quick=6, thorough=100),
]
