"""C01: decoding the encoding of a value gives the value back."""
from rules.base import *
from rules import codec, elem, refspec
import codecmodels

EXPLANATION = """The decoder of every type is summarised by value-flow analysis of its MIR on the byte string that the published layout
prescribes for an arbitrary value of each variant, followed by arbitrary bytes, decoding into an arbitrary previous value: it must
succeed, consume exactly the layout size and leave a value equal, field by field, to the encoded one.  That the encoders produce that
layout is the same table decided for them (recomputed here).  Whole transactions: over opaque elements, cursors advancing through the
repeated element encodings are solved inductively."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'documented behaviour of fuel_types::bytes', 'a transaction carries no stale cached metadata']


def check(chk, tier):
    chk.rule('decode(layout(v) ++ rest) = v, consuming |layout(v)|; encode(v) = layout(v)')
    for n in elem.ELEMS:
        ty = codec.elem_type(n)
        for vi, vn in elem.variants(ty):
            elem.roundtrip_variant(chk, n, vi)
            elem.encode_variant(chk, n, vi, {'layout'})
    for n in codec.TXKINDS:
        for w in (False, True):
            elem.roundtrip_tx(chk, n, w)
        elem.encode_tx(chk, n, {'layout'})
    for n, names, r in (('receipt', ['b'], lambda: None), ('transaction', ['b'], lambda: codecmodels.element_rules(db()))):
        refspec.agree(chk, 'entry::real::' + n, 'entry::want::' + n, names, 'decoding a fresh %s' % n, 'does not decode as decoding into an existing value does', rules=r)
