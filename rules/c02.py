"""C02: reported size, bytes written and the short-buffer error agree."""
from rules.base import *
from rules import codec, elem

EXPLANATION = """For every variant of every encodable type the encoder and the size function are summarised by gated value-flow
analysis of their MIR on an arbitrary value and an arbitrary buffer: the success condition must be exactly `buffer length >= size`,
the reported number exactly `size`, the buffer prefix of that length completely overwritten, the value left unchanged, where `size`
is the sum of the fixed words and padded variable parts of the specified layout; serialized_size must be the same term and a multiple
of 8.  Whole transactions are decided over opaque elements (an element is `size(x)` bytes `enc(x)`), loops summarised as partial sums."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes and no collection holds 2^56 bytes', 'a transaction carries no stale cached metadata',
               'documented behaviour of fuel_types::bytes']


def check(chk, tier):
    chk.rule('success condition of the encoder = buffer length >= layout size; reported size = layout size = serialized_size; value unchanged')
    for n in elem.ELEMS:
        ty = codec.elem_type(n)
        for vi, vn in elem.variants(ty):
            elem.encode_variant(chk, n, vi, {'size', 'cover', 'panic'})
    for n in codec.TXKINDS:
        elem.encode_tx(chk, n, {'size', 'cover', 'panic'})
    for n in codec.TXKINDS:
        elem.encode_tx(chk, n, {'size', 'panic'}, wrapped=True)
