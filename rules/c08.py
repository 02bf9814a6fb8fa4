"""C08: decoders are total on arbitrary bytes."""
from rules.base import *
from rules import codec, elem, refspec
import codecmodels

EXPLANATION = """Every decoder is summarised by value-flow analysis of its MIR (inlining the whole crate) on an arbitrary byte string and an
arbitrary previous value.  Each construct that can panic or read out of bounds - arithmetic overflow checks, slice and index bounds,
unwraps, explicit panics, the unsafe helpers of fuel_types::bytes, capacity computations - is an obligation that must follow from the
branch conditions leading to it; the number of consumed bytes must be at most the buffer length; no allocation may be sized by an
unchecked number read from the buffer.  Transaction decoders are decided over opaque element decoders constrained only by what the
element obligations establish (an element decoder consumes between 1 byte and what it was given)."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'documented behaviour of the unsafe helpers of fuel_types::bytes (bounds they need are obligations here)',
               '64-bit usize']


def check(chk, tier):
    chk.rule('every potential panic / out-of-bounds read / unchecked allocation in a decoder is excluded by its path condition; consumed <= given')
    for n in elem.ELEMS:
        elem.decode_any(chk, n)
    rules = {'contract_rules': codecmodels.element_rules(db()), 'prune': True}
    for n in codec.TXKINDS + ['Transaction']:
        elem.decode_any(chk, n, rules)
    for n, r in (('receipt', lambda: None), ('transaction', lambda: codecmodels.element_rules(db()))):
        refspec.agree(chk, 'entry::real::' + n, 'entry::want::' + n, ['b'], 'decoding a fresh %s' % n, 'does not decode as decoding into an existing value does', rules=r)
