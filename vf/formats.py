"""Trace header formats used by the checks (importable, so that readers using them can be pickled)."""
from segpy.header import Header, field
from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int32, Int16, NNInt16, NNInt32, IntFieldMeta
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from vf import formats_twin
from vf.fieldtables import BINARY_FIELDS, TRACE_FIELDS_REV0, TRACE_FIELDS_REV1


class ExtendedTraceHeader(TraceHeaderRev1):
    """The standard format plus fields in the unassigned bytes."""
    extra_long = field(Int32, offset=233, default=7, documentation="An extra field.")
    extra_short = field(Int16, offset=239, default=-3, documentation="Another extra field.")


class CompactTraceHeader(Header):
    """Only a few fields, at standard and non-standard positions."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    inline_number = field(Int32, offset=9, default=0, documentation="Inline.")
    crossline_number = field(Int32, offset=13, default=0, documentation="Crossline.")
    ensemble_num = field(Int32, offset=21, default=0, documentation="CDP.")
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    tail = field(Int16, offset=239, default=0, documentation="Last two bytes.")


class ShuffledTraceHeader(Header):
    """Fields declared out of order, two of them sharing a position."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    crossline_number = field(Int32, offset=193, default=0, documentation="Crossline.")
    inline_number = field(Int32, offset=189, default=0, documentation="Inline.")
    line_sequence_num = field(Int32, offset=1, default=0, documentation="First.")
    ensemble_num = field(Int32, offset=21, default=0, documentation="CDP.")
    cdp_num = field(Int32, offset=21, default=0, documentation="The same CDP under another name.")


class LinesTraceHeader(Header):
    """Positions, but no CDP numbers."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    inline_number = field(Int32, offset=21, default=0, documentation="Inline, where CDP numbers usually are.")
    crossline_number = field(Int32, offset=193, default=0, documentation="Crossline.")
    tail = field(Int16, offset=239, default=0, documentation="Last two bytes.")


class InlineTraceHeader(Header):
    """Inline, but neither crossline nor CDP numbers."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    inline_number = field(Int32, offset=189, default=0, documentation="Inline.")
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    tail = field(Int16, offset=239, default=0, documentation="Last two bytes.")


class CrosslineTraceHeader(Header):
    """Crossline and CDP numbers, but no inline numbers."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    ensemble_num = field(Int32, offset=21, default=0, documentation="CDP.")
    crossline_number = field(Int32, offset=193, default=0, documentation="Crossline.")
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    tail = field(Int16, offset=239, default=0, documentation="Last two bytes.")


class UInt16(int, metaclass=IntFieldMeta, seg_y_type='nnint16', min_value=0, max_value=65535):
    """A 16-bit unsigned integer."""


class UInt32(int, metaclass=IntFieldMeta, seg_y_type='nnint32', min_value=0, max_value=2**32 - 1):
    """A 32-bit unsigned integer."""


class WideTraceHeader(TraceHeaderRev1):
    """Traces of up to 65535 samples."""
    num_samples = field(UInt16, offset=115, default=0, documentation="Number of samples.")
    unassigned_tail = field(UInt32, offset=237, default=2**31, documentation="The last bytes.")


class ExtendedBinaryHeader(BinaryReelHeader):
    """The standard format plus fields in the unassigned bytes."""
    unassigned_long = field(Int32, offset=3507, default=0, documentation="A long.")
    unassigned_short = field(Int16, offset=3599, default=-1, documentation="A short.")


class WideBinaryHeader(BinaryReelHeader):
    """Some of the non-negative fields are unsigned."""
    num_samples = field(UInt16, offset=3221, default=0, documentation="Number of samples.")
    line_num = field(UInt32, offset=3205, default=1, documentation="Line number.")


class CompactBinaryHeader(Header):
    """Only what a reader needs."""
    LENGTH_IN_BYTES = 400
    START_OFFSET_IN_BYTES = 3201
    format_revision_num = field(BinaryReelHeader.format_revision_num.value_type, offset=3501, default=256,
                                documentation="Revision.")
    num_extended_textual_headers = field(Int16, offset=3505, default=0, documentation="Extended headers.")
    data_sample_format = field(BinaryReelHeader.data_sample_format.value_type, offset=3225, default=5,
                               documentation="Format.")
    num_samples = field(NNInt16, offset=3221, default=0, documentation="Number of samples.")
    project = field(NNInt32, offset=3300, default=9, documentation="Project.")


class ShortBinaryHeader(Header):
    """As short as its fields permit, rather than 400 bytes."""
    LENGTH_IN_BYTES = 306
    START_OFFSET_IN_BYTES = 3201
    data_sample_format = field(BinaryReelHeader.data_sample_format.value_type, offset=3225, default=5,
                               documentation="Format.")
    num_samples = field(NNInt16, offset=3221, default=0, documentation="Number of samples.")
    format_revision_num = field(BinaryReelHeader.format_revision_num.value_type, offset=3501, default=256,
                                documentation="Revision.")
    num_extended_textual_headers = field(Int16, offset=3505, default=0, documentation="Extended headers.")


_I32 = (-2**31, 2**31 - 1)
_I16 = (-2**15, 2**15 - 1)

FORMATS = {
    'rev1': (TraceHeaderRev1, TRACE_FIELDS_REV1),
    'rev0': (TraceHeaderRev0, TRACE_FIELDS_REV0),
    'ext': (ExtendedTraceHeader, TRACE_FIELDS_REV1 + [('extra_long', 233, 4) + _I32 + (None, 7),
                                                      ('extra_short', 239, 2) + _I16 + (None, -3)]),
    'compact': (CompactTraceHeader, [('inline_number', 9, 4) + _I32 + (None, 0),
                                     ('crossline_number', 13, 4) + _I32 + (None, 0),
                                     ('ensemble_num', 21, 4) + _I32 + (None, 0),
                                     ('num_samples', 115, 2, 0, 2**15 - 1, None, 0),
                                     ('tail', 239, 2) + _I16 + (None, 0)]),
    'shuffled': (ShuffledTraceHeader, [('num_samples', 115, 2, 0, 2**15 - 1, None, 0),
                                       ('crossline_number', 193, 4) + _I32 + (None, 0),
                                       ('inline_number', 189, 4) + _I32 + (None, 0),
                                       ('line_sequence_num', 1, 4) + _I32 + (None, 0),
                                       ('ensemble_num', 21, 4) + _I32 + (None, 0),
                                       ('cdp_num', 21, 4) + _I32 + (None, 0)]),
}


def _twin(il, xl, cdp, tail):
    return [('inline_number', il, 4) + _I32 + (None, 0), ('crossline_number', xl, 4) + _I32 + (None, 0),
            ('ensemble_num', cdp, 4) + _I32 + (None, 0), ('num_samples', 115, 2, 0, 2**15 - 1, None, 0),
            ('tail', tail, 2) + _I16 + (None, 0)]


def replaced(table, *rows):
    """The table with other rows for the fields of those names."""
    names = {row[0] for row in rows}
    return [row for row in table if row[0] not in names] + list(rows)


FORMATS['wide'] = (WideTraceHeader, replaced(TRACE_FIELDS_REV1, ('num_samples', 115, 2, 0, 65535, None, 0),
                                             ('unassigned_tail', 237, 4, 0, 2**32 - 1, None, 2**31)))
# formats of the same name in different places
FORMATS['twin'] = (formats_twin.CompactTraceHeader, _twin(13, 9, 25, 235))
FORMATS['nested'] = (formats_twin.Formats.CompactTraceHeader, _twin(193, 189, 17, 237))
_TAIL = [('tail', 239, 2) + _I16 + (None, 0)]
FORMATS['lines'] = (LinesTraceHeader, [('num_samples', 115, 2, 0, 2**15 - 1, None, 0),
                                       ('inline_number', 21, 4) + _I32 + (None, 0),
                                       ('crossline_number', 193, 4) + _I32 + (None, 0)] + _TAIL)
FORMATS['inline'] = (InlineTraceHeader, [('inline_number', 189, 4) + _I32 + (None, 0),
                                         ('num_samples', 115, 2, 0, 2**15 - 1, None, 0)] + _TAIL)
FORMATS['xline'] = (CrosslineTraceHeader, [('ensemble_num', 21, 4) + _I32 + (None, 0),
                                           ('crossline_number', 193, 4) + _I32 + (None, 0),
                                           ('num_samples', 115, 2, 0, 2**15 - 1, None, 0)] + _TAIL)
ALIASES = {'shuffled': [('ensemble_num', 'cdp_num')]}

BINARY_FORMATS = {
    'std': (BinaryReelHeader, BINARY_FIELDS),
    'ext': (ExtendedBinaryHeader, BINARY_FIELDS + [('unassigned_long', 3507, 4) + _I32 + (None, 0),
                                                   ('unassigned_short', 3599, 2) + _I16 + (None, -1)]),
    'wide': (WideBinaryHeader, replaced(BINARY_FIELDS, ('num_samples', 3221, 2, 0, 65535, None, 0),
                                        ('line_num', 3205, 4, 0, 2**32 - 1, None, 1))),
    'compact': (CompactBinaryHeader, [row for row in BINARY_FIELDS
                                      if row[0] in ('format_revision_num', 'num_extended_textual_headers',
                                                    'data_sample_format', 'num_samples')]
                + [('project', 3300, 4, 0, 2**31 - 1, None, 9)]),
}
BINARY_FORMATS['short'] = (ShortBinaryHeader, [row for row in BINARY_FORMATS['compact'][1] if row[0] != 'project'])
