"""C18: IBMFloat is a consistent number type."""
import math
import operator
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, refsegy as ref
from vf.core import Prop, Violation, check, check_eq, raises

PROPERTY = 'C18'
RULE = ("Unary: a four-byte pattern (un-normalised, subnormal, zeros of both signs, all characteristics; every sign and "
        "characteristic enumerated); all conversions and queries against the exact rational. Binary: two patterns, or "
        "a pattern and a float, integer or fraction equal or close to it or arbitrary, for all comparisons and "
        "operators in both orders. Non-trivial: a non-zero pattern with a fractional part or a subnormal (unary); two "
        "non-zero operands (binary).")
ASSUMPTIONS = ["Operands other than IBM floats, floats, integers and fractions are not considered.",
               "math.ceil and math.floor of integral values are known to be wrong (see known-findings.txt)."]


def word_strategy():
    integral = st.tuples(st.integers(-2**24 + 1, 2**24 - 1), st.integers(0, 3)).map(
        lambda t: shifted(ref.ibm_encode(float(t[0])), t[1]))
    halves = st.integers(-2**20, 2**20).map(lambda k: ref.ibm_encode(k + 0.5))
    low = st.tuples(st.booleans(), st.integers(0, 8), st.sampled_from([1, 2, 3, 15, 16, 17, 31, 32, 255, 256, 257, 511,
                                                                        4096, 0xfffff, 0x100000, 0xffffff])).map(
        lambda t: (t[0] << 31 | t[1] << 24 | t[2]).to_bytes(4, 'big'))
    return st.one_of(gen.ibm_words(), gen.ibm_words(), st.binary(min_size=4, max_size=4), integral, halves, low)


def shifted(b, k):
    """Another representation of the same value, where there is one."""
    for _ in range(k):
        e, m = b[0] & 0x7f, int.from_bytes(b[1:], 'big')
        if m & 15 or e == 127 or not m:
            break
        b = bytes([b[0] & 0x80 | e + 1]) + (m >> 4).to_bytes(3, 'big')
    return b


WORDS = word_strategy()


def value(x):
    """The exact value of a number of any type."""
    from segpy.ibm_float import IBMFloat
    if isinstance(x, IBMFloat):
        return ref.ibm_value(bytes(x))
    return Fraction(x)


def unary(w, cov):
    from segpy.ibm_float import IBMFloat
    q = ref.ibm_value(w)
    x = IBMFloat(w)
    m, e16 = int.from_bytes(w[1:], 'big'), (w[0] & 0x7f) - 64
    sign = bool(w[0] & 0x80)
    cov.nontrivial(q and (q.denominator != 1 or m < 2**20))
    check_eq(bytes(x), w, 'bytes')
    check_eq(bytes(IBMFloat.from_bytes(bytearray(w))), w, 'bytes')
    check_eq(Fraction(float(x)), q, 'float')
    check_eq(complex(x), complex(float(q)), 'complex')
    n, d = x.as_integer_ratio()
    check_eq((n, d), (q.numerator, q.denominator), 'integer ratio')
    f, e = x.frexp()
    check(-1 < f < 1, 'fraction', f)
    check_eq(Fraction(f) * Fraction(2)**e, q, 'fraction and exponent')
    if -256 <= e < 256:
        check_eq(value(IBMFloat.ldexp(f, e)), q, 'ldexp of frexp')
    check_eq(x.signbit, sign, 'sign')
    check_eq(x.exp16, e16, 'exponent')
    check_eq(x.int_mantissa, m, 'mantissa')
    check_eq(bool(x), q != 0, 'truth')
    check_eq(x.is_zero(), q == 0, 'zero')
    subnormal = w != bytes(4) if m == 0 else m < 2**20
    check_eq(x.is_subnormal(), subnormal, 'subnormal')
    check_eq(value(x.zero_subnormal()), 0 if subnormal else q, 'zero_subnormal()')
    check_eq(math.trunc(x), math.trunc(q), 'trunc')
    check_eq(int(x), math.trunc(q), 'int')
    check_eq(str(x), str(float(q)), 'str')
    check(repr(float(q)) in repr(x), 'repr', repr(x))

    for name, fn, wrong in (('ceil', math.ceil, not sign), ('floor', math.floor, sign)):
        got, want = fn(x), fn(q)
        if got != want:
            # known where the value is integral; anything else is a new defect
            if q.denominator == 1 and wrong and got == want + (1 if name == 'ceil' else -1):
                cov.finding(name + '-integral', '%s of the integral value %r is %r' % (name, float(q), got))
            else:
                raise Violation('%s of %s (%r) is %r' % (name, w.hex(), float(q), got))

    check_eq(value(+x), q, 'plus')
    check_eq(value(-x), -q, 'minus')
    check_eq(value(abs(x)), abs(q), 'abs')
    check(type(-x) is IBMFloat and type(+x) is IBMFloat and type(abs(x)) is IBMFloat, 'types')
    for y in (-x, abs(x), +x):
        check(y.is_zero() == x.is_zero() and (x.is_zero() or y.exp16 == e16), 'representation', y)
    check(not abs(x).signbit, 'sign of the absolute value')
    check(x.real == x and x.imag == 0 and x.conjugate() == x, 'real and imaginary parts', x)
    check_eq(bytes(x), w, 'bytes afterwards')

    # normal form
    k = mm = 0
    if m:
        mm = m
        while mm < 2**20:
            mm <<= 4
            k += 1
    if m and e16 - k < -64:
        raises(FloatingPointError, x.normalize, 'normalize()')
        check_eq(bytes(x.try_normalize()), w, 'try_normalize()')
        cov.label('no normal form')
    else:
        y = x.normalize()
        want = bytes(4) if not m else bytes([w[0] & 0x80 | e16 - k + 64]) + mm.to_bytes(3, 'big')
        check_eq(bytes(y), want, 'normal form')
        check_eq(value(y), q, 'value of the normal form')
        check(not y.is_subnormal(), 'the normal form is subnormal')
        check_eq(bytes(x.try_normalize()), want, 'try_normalize()')
        check(y == x and x == y, 'differs from its normal form')

    for nd in (None, 0, 2, -1):
        rounded = round(float(q), nd)
        want = limited(Fraction(rounded))
        if isinstance(want, type):
            raises(want, lambda: round(x, nd), 'round')
        else:
            check_eq(value(round(x) if nd is None else round(x, nd)), want, 'round(x, %r)' % nd)


def limited(q):
    """The IBM float to which a real result is truncated: a value or an exception type."""
    if abs(q) > ref.IBM_MAX:
        return OverflowError
    b = ref.ibm_encode(q)
    return Fraction(0) if b is None else ref.ibm_value(b)


def all_words(tier, shard, nshards):
    for sign in (0, 1):
        for e in range(shard, 128, nshards):
            for m in (0, 1, 2, 0xf, 0x10, 0xff, 0x1000, 0xfffff, 0x100000, 0x123456, 0x800000, 0xffffff):
                yield bytes([sign << 7 | e, m >> 16, m >> 8 & 255, m & 255])
        for i in range(0, 70):
            yield ref.ibm_encode(float(-i if sign else i))


COMPARISONS = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
               ('>=', operator.ge)]


@st.composite
def pairs(draw):
    a = draw(WORDS)
    kind = draw(st.sampled_from(['ibm', 'ibm', 'same', 'near', 'float', 'closefloat', 'int', 'fraction', 'special']))
    q = ref.ibm_value(a)
    if kind == 'ibm':
        b = ('ibm', draw(WORDS))
    elif kind == 'same':
        w = shifted(a, draw(st.integers(0, 3)))
        flip = draw(st.sampled_from([0, 0, 0, 0x80]))
        b = ('ibm', bytes([w[0] ^ flip]) + w[1:])
    elif kind == 'near':
        # differing in one place of the fraction or the characteristic
        n = int.from_bytes(shifted(a, draw(st.integers(0, 2))), 'big')
        n += draw(st.sampled_from([1, -1, 16, -16, 256, 1 << 24, -(1 << 24), 15, 2]))
        b = ('ibm', (n % 2**32).to_bytes(4, 'big'))
    elif kind == 'float':
        b = ('float', draw(st.one_of(gen.ibm_floats(), st.floats(-1e30, 1e30))))
    elif kind == 'closefloat':
        b = ('float', draw(st.sampled_from([math.nextafter(float(q), math.inf), math.nextafter(float(q), -math.inf),
                                            float(q), -float(q), float(q) * 1.0000001])))
    elif kind == 'int':
        b = ('int', draw(st.one_of(st.sampled_from([math.floor(q), math.ceil(q), math.floor(q) + 1, 0, 1, -1]),
                                   st.integers(-2**30, 2**30), st.sampled_from([10**76, -10**76, 10**400, -10**400]))))
    elif kind == 'fraction':
        b = ('fraction', draw(st.one_of(st.sampled_from([q, -q, q + Fraction(1, 3), q * Fraction(10**40 + 1, 10**40),
                                                         q + Fraction(1, 10**90), Fraction(1, 3)]),
                                        st.fractions(-10, 10), st.just(Fraction(10**400, 3)))))
    else:
        b = ('float', draw(st.sampled_from([math.inf, -math.inf, math.nan, 0.0, -0.0, 1e300, 1e-300])))
    return a, b


def other(b):
    from segpy.ibm_float import IBMFloat
    return IBMFloat(b[1]) if b[0] == 'ibm' else b[1]


def comparing(case, cov):
    from segpy.ibm_float import IBMFloat
    x, y = IBMFloat(case[0]), other(case[1])
    q = ref.ibm_value(case[0])
    exact = y if isinstance(y, float) and not math.isfinite(y) else value(y)
    reference = float(q) if isinstance(exact, float) else q
    cov.label(case[1][0])
    cov.nontrivial(q and exact)
    if reference == exact:
        cov.label('equal')
    for name, op in COMPARISONS:
        check_eq(op(x, y), op(reference, exact), '%r %s %r' % (x, name, y))
        check_eq(op(y, x), op(exact, reference), '%r %s %r' % (y, name, x))
    check((x == 'text') is False and (x == None) is False, 'equality with something else')    # noqa: E711
    if isinstance(y, IBMFloat):
        check_eq(sorted([x, y])[0] is y and x is not y, exact < q, 'sorting')
        check_eq(value(max(x, y)), max(q, exact), 'max')


def power(a, b):
    return pow(a, b)


OPERATORS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv),
             ('//', operator.floordiv), ('%', operator.mod), ('**', power)]


def result_of(fn):
    try:
        return 'ok', fn()
    except (ArithmeticError, ValueError) as e:
        return 'raised', (type(e),)


def arithmetic(case, cov):
    from segpy.ibm_float import IBMFloat
    x, y = IBMFloat(case[0]), other(case[1])
    cov.label(case[1][0])
    cov.nontrivial(bool(x) and bool(y))
    both = isinstance(y, IBMFloat)
    for name, op in OPERATORS:
        for lhs, rhs, swapped in ((x, y, False), (y, x, True)):
            what = '%r %s %r' % (lhs, name, rhs)
            # the same operation on the equivalent floats
            want = result_of(lambda: op(float(lhs), float(rhs)))
            if name == '//' and want[0] == 'ok' and not math.isfinite(want[1]):
                want = ('raised', (ValueError, OverflowError))      # no integer
            # operands which are fractions or integers beyond the range of floats
            got = result_of(lambda: op(lhs, rhs))
            if want[0] == 'raised':
                check(got[0] == 'raised' and issubclass(got[1][0], want[1]), what, 'gives', got[1], 'instead of', want[1])
                continue
            f = want[1]
            if isinstance(f, complex) and f.imag == 0:
                f = f.real      # powers of negative numbers which vanish
            if both and name != '//' and not isinstance(f, complex):
                if not math.isfinite(f):
                    check(got[0] == 'raised', what, 'gives', got)
                    continue
                q = limited(Fraction(f))
                if isinstance(q, type):
                    check(got == ('raised', (q,)), what, 'gives', got, 'instead of', q)
                    continue
                check(got[0] == 'ok', what, 'raised', got)
                check(isinstance(got[1], IBMFloat), what, 'gives a', type(got[1]))
                check_eq(value(got[1]), q, what)
                cov.label('IBM result')
            else:
                check(got[0] == 'ok', what, 'raised', got)
                if isinstance(f, float) and math.isnan(f):
                    check(isinstance(got[1], float) and math.isnan(got[1]), what, 'gives', got[1])
                else:
                    check_eq(got[1], f, what)
                cov.label('float result')
    for lhs, rhs in ((x, y), (y, x)):
        # both results of a division at once
        want = [result_of(lambda: lhs // rhs), result_of(lambda: lhs % rhs)]
        got = result_of(lambda: divmod(lhs, rhs))
        what = 'divmod(%r, %r)' % (lhs, rhs)
        if all(w[0] == 'ok' for w in want):
            check(got[0] == 'ok' and len(got[1]) == 2, what, 'gives', got)
            for g, (_, w) in zip(got[1], want):
                check(g == w or g != g and w != w, what, 'gives', got, 'instead of', want)
        else:
            check(got[0] == 'raised', what, 'gives', got, 'instead of', want)
    check_eq(bytes(x), case[0], 'operand')


@st.composite
def ldexps(draw):
    return draw(st.one_of(st.floats(-1, 1), st.floats(-1.5, 1.5), st.sampled_from([1.0, -1.0, 0.0, 0.5, 1.0000001]))), \
        draw(st.one_of(st.integers(-256, 255), st.integers(-300, 300), st.sampled_from([-257, -256, 255, 256])))


def ldexp(case, cov):
    from segpy.ibm_float import IBMFloat
    f, e = case
    cov.nontrivial(f != 0)
    if not -1 <= f <= 1 or not -256 <= e < 256:
        raises(ValueError, lambda: IBMFloat.ldexp(f, e), 'ldexp(%r, %r)' % case)
        cov.label('out of range')
        return
    q = Fraction(f) * Fraction(2)**e
    if abs(q) > ref.IBM_MAX:
        raises(OverflowError, lambda: IBMFloat.ldexp(f, e), 'ldexp(%r, %r)' % case)
        cov.label('overflow')
    elif q and ref.ibm_encode(q) is None:
        if math.ldexp(f, e) == 0:
            cov.label('vanishing')
            return
        raises(FloatingPointError, lambda: IBMFloat.ldexp(f, e), 'ldexp(%r, %r)' % case)
        cov.label('underflow')
    elif Fraction(math.ldexp(f, e)) == q:
        check_eq(value(IBMFloat.ldexp(f, e)), ref.ibm_value(ref.ibm_encode(q)), 'ldexp(%r, %r)' % case)


def size_cases(tier, shard, nshards):
    for n in (0, 1, 2, 3, 5, 8):
        yield n


def sizes(n, cov):
    from segpy.ibm_float import IBMFloat
    cov.nontrivial(True)
    raises(ValueError, lambda: IBMFloat(bytes(n) if n != 1 else b'\x41'), 'IBMFloat of %d bytes' % n)
    raises(ValueError, lambda: IBMFloat.from_bytes(bytes(range(1, n + 1))), 'IBMFloat of %d bytes' % n)


PROPS = [
    Prop('enumerated', unary, cases=all_words, shards=2),
    Prop('unary', unary, lambda: WORDS, quick=4000, shards=2),
    Prop('comparing', comparing, pairs, quick=4000, shards=2),
    Prop('arithmetic', arithmetic, pairs, quick=2000, shards=3),
    Prop('ldexp', ldexp, ldexps, quick=2500),
    Prop('sizes', sizes, cases=size_cases),
]
