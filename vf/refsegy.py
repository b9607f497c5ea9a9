"""An independent SEG-Y reference codec, written from the standard and sharing nothing with the code under test."""
import functools
import struct
from fractions import Fraction

from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV1, TRACE_FIELDS_REV0

FORMAT_CODES = {'ibm': 1, 'int32': 2, 'int16': 3, 'float32': 5, 'int8': 8}
CODE_FORMATS = {v: k for k, v in FORMAT_CODES.items()}
SAMPLE_SIZES = {'ibm': 4, 'int32': 4, 'int16': 2, 'float32': 4, 'int8': 1}
INT_LIMITS = {'int32': (-2**31, 2**31 - 1), 'int16': (-2**15, 2**15 - 1), 'int8': (-128, 127),
              'nnint32': (0, 2**31 - 1), 'nnint16': (0, 2**15 - 1), 'nnint8': (0, 127)}
DESCRIPTIONS = {'ibm': 'IBM 32 bit float', 'int32': '32 bit signed integer', 'int16': '16 bit signed integer',
                'float32': 'IEEE float32', 'int8': '8 bit signed integer (byte)'}


def order(endian):
    return 'big' if endian == '>' else 'little'


# ------------------------------------------------------------------------------------------------------- IBM floats

@functools.lru_cache(maxsize=50000)
def ibm_value(bs):
    """The exact rational number denoted by four bytes of IBM single precision."""
    word = int.from_bytes(bs, 'big')
    sign = -1 if word >> 31 else 1
    exponent = (word >> 24) & 0x7f
    mantissa = word & 0xffffff
    return sign * Fraction(mantissa) * Fraction(16) ** (exponent - 64 - 6)


IBM_MAX = Fraction(16**6 - 1) * Fraction(16) ** (63 - 6)
IBM_TINY = Fraction(1) * Fraction(16) ** (-64 - 6)


@functools.lru_cache(maxsize=50000)
def ibm_encode(f):
    """The four bytes of the IBM number obtained by truncating the finite float f towards zero.

    Returns None if f is non-zero but smaller than any IBM number, or larger than all of them.
    """
    q = Fraction(f)
    if q == 0:
        return b'\0\0\0\0'
    sign = 0x80 if q < 0 else 0
    q = abs(q)
    if q > IBM_MAX or q < IBM_TINY:
        return None
    # Find the characteristic e in 0..127 such that q < 16**(e - 64), as small as possible
    n, d = q.numerator, q.denominator
    bits = n.bit_length() - d.bit_length()     # 2**(bits-1) < q < 2**(bits+1)
    e = max(bits // 4 - 2 + 64, 0)
    while q >= Fraction(16) ** (e - 64):
        e += 1
    mantissa = int(q / Fraction(16) ** (e - 64 - 6))
    assert 0 < mantissa < 2**24 and 0 <= e <= 127
    return bytes([sign | e, mantissa >> 16, (mantissa >> 8) & 255, mantissa & 255])


# ----------------------------------------------------------------------------------------------------------- samples

def encode_samples(values, fmt, endian):
    if fmt == 'ibm':
        return b''.join(ibm_encode(v) for v in values)
    if fmt == 'float32':
        return b''.join(struct.pack(endian + 'f', v) for v in values)
    size = SAMPLE_SIZES[fmt]
    return b''.join(int(v).to_bytes(size, order(endian), signed=True) for v in values)


def decode_samples(data, fmt, endian):
    """A list of ints, of floats, or for IBM floats of Fractions."""
    size = SAMPLE_SIZES[fmt]
    assert len(data) % size == 0
    chunks = [data[i:i + size] for i in range(0, len(data), size)]
    if fmt == 'ibm':
        return [ibm_value(c) for c in chunks]
    if fmt == 'float32':
        return [struct.unpack(endian + 'f', c)[0] for c in chunks]
    return [int.from_bytes(c, order(endian), signed=True) for c in chunks]


def float_bits(x):
    """Comparable form of a float: distinguishes zeros, identifies NaNs."""
    x = float(x)
    if x != x:
        return 'nan'
    return struct.pack('>d', x)


def comparable(values, fmt):
    if fmt == 'ibm':
        return [Fraction(*v.as_integer_ratio()) if not isinstance(v, Fraction) else v for v in values]
    if fmt == 'float32':
        return [float_bits(v) for v in values]
    return [int(v) for v in values]


# ----------------------------------------------------------------------------------------------------------- headers

def encode_header(values, table, start, length, endian, background=None):
    """values: dict of all field values by name; fields of table are placed at their positions."""
    buf = bytearray(background if background is not None else bytes(length))
    assert len(buf) == length
    for name, pos, size, lo, hi, enum, default in table:
        buf[pos - start:pos - start + size] = int(values[name]).to_bytes(size, order(endian),
                                                                        signed=not unsigned(size, hi))
    return bytes(buf)


def unsigned(size, hi):
    """Does a field with this maximum use all of its bits for the magnitude?"""
    return hi >= 1 << (8 * size - 1)


def decode_header(buf, table, start, endian):
    return {name: int.from_bytes(buf[pos - start:pos - start + size], order(endian), signed=not unsigned(size, hi))
            for name, pos, size, lo, hi, enum, default in table}


def complete(values, table):
    """Fill in defaults."""
    full = {row[0]: row[6] for row in table}
    full.update(values)
    return full


def encode_binary_header(values, endian, background=None, table=BINARY_FIELDS):
    return encode_header(complete(values, table), table, 3201, 400, endian, background)


def encode_trace_header(values, table, endian, background=None):
    return encode_header(complete(values, table), table, 1, 240, endian, background)


# -------------------------------------------------------------------------------------------------------------- text

# EBCDIC code page 037, printable ASCII subset and controls written out independently of Python's codec.
_CP037 = (
    '000102039c09867f978d8e0b0c0d0e0f101112139d8508871819928f1c1d1e1f'
    '80818283840a171b88898a8b8c050607909116939495960498999a9b14159e1a'
    '20a0e2e4e0e1e3e5e7f1a22e3c282b7c26e9eaebe8edeeefecdf21242a293bac'
    '2d2fc2c4c0c1c3c5c7d1a62c255f3e3ff8c9cacbc8cdcecfcc603a2340273d22'
    'd8616263646566676869abbbf0fdfeb1b06a6b6c6d6e6f707172aabae6b8c6a4'
    'b57e737475767778797aa1bfd0ddde' 'ae5ea3a5b7a9a7b6bcbdbe5b5dafa8b4d7'
    '7b414243444546474849adf4f6f2f3f57d4a4b4c4d4e4f505152b9fbfcf9faff'
    '5cf7535455565758595ab2d4d6d2d3d530313233343536373839b3dbdcd9da9f')
CP037_TO_UNICODE = bytes.fromhex(_CP037)
assert len(CP037_TO_UNICODE) == 256 and len(set(CP037_TO_UNICODE)) == 256
_UNICODE_TO_CP037 = {chr(u): i for i, u in enumerate(CP037_TO_UNICODE)}


def encode_text(s, encoding):
    if encoding == 'cp037':
        return bytes(_UNICODE_TO_CP037[c] for c in s)
    bs = bytes(ord(c) for c in s)
    assert all(b < 128 for b in bs)
    return bs


def decode_text(bs, encoding):
    if encoding == 'cp037':
        return ''.join(chr(CP037_TO_UNICODE[b]) for b in bs)
    assert all(b < 128 for b in bs)
    return ''.join(map(chr, bs))


def encode_cards(lines, encoding):
    lines = list(lines)[:40] + [''] * max(0, 40 - len(lines))
    return b''.join(encode_text(line[:80].ljust(80), encoding) for line in lines)


def decode_cards(bs, encoding):
    return [decode_text(bs[i:i + 80], encoding) for i in range(0, 3200, 80)]


# -------------------------------------------------------------------------------------------------------------- file

def encode_file(text, brh, ext, traces, fmt, endian, encoding, table, brh_table=BINARY_FIELDS):
    """traces: list of (header value dict, sample sequence)."""
    parts = [encode_cards(text, encoding), encode_binary_header(brh, endian, table=brh_table)]
    for page in ext:
        assert len(page) == 40
        parts.append(b''.join(encode_text(line, encoding) for line in page))
    for header, samples in traces:
        parts.append(encode_trace_header(header, table, endian))
        parts.append(encode_samples(samples, fmt, endian))
    return b''.join(parts)
