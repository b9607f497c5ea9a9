"""Trace header formats named like others elsewhere, and different from them."""
from segpy.header import Header, field
from segpy.field_types import Int32, Int16, NNInt16


class CompactTraceHeader(Header):
    """Inline and crossline are the other way about compared with the format of this name in vf.formats."""
    LENGTH_IN_BYTES = 240
    START_OFFSET_IN_BYTES = 1
    inline_number = field(Int32, offset=13, default=0, documentation="Inline.")
    crossline_number = field(Int32, offset=9, default=0, documentation="Crossline.")
    ensemble_num = field(Int32, offset=25, default=0, documentation="CDP.")
    num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
    tail = field(Int16, offset=235, default=0, documentation="Two bytes.")


class Formats:
    class CompactTraceHeader(Header):
        LENGTH_IN_BYTES = 240
        START_OFFSET_IN_BYTES = 1
        inline_number = field(Int32, offset=193, default=0, documentation="Inline.")
        crossline_number = field(Int32, offset=189, default=0, documentation="Crossline.")
        ensemble_num = field(Int32, offset=17, default=0, documentation="CDP.")
        num_samples = field(NNInt16, offset=115, default=0, documentation="Samples.")
        tail = field(Int16, offset=237, default=0, documentation="Two bytes.")
