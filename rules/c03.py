"""C03: the encoding is the published wire layout."""
from rules.base import *
from rules import codec, elem

EXPLANATION = """The content of the buffer after encoding an arbitrary value of each variant of each encodable type (summarised by gated
value-flow analysis of the encoder's MIR, as a sequence of chunks at symbolic offsets) must be identical, chunk by chunk, to the
specified layout table: kind word, fields in order with their width, lengths and counts, padded variable data, then storage slots,
inputs, outputs and witnesses in index order."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes and no collection holds 2^56 bytes', 'a transaction carries no stale cached metadata',
               'documented behaviour of fuel_types::bytes and of InstructionResult <-> Word in fuel-asm']


def check(chk, tier):
    chk.rule('buffer content after encoding = layout table of the variant (order, width, endianness, padding)')
    for n in elem.ELEMS:
        ty = codec.elem_type(n)
        for vi, vn in elem.variants(ty):
            elem.encode_variant(chk, n, vi, {'layout'})
    for n in codec.TXKINDS:
        elem.encode_tx(chk, n, {'layout'})
    for n in codec.TXKINDS:
        elem.encode_tx(chk, n, {'layout'}, wrapped=True)
