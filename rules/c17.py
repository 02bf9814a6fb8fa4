"""C17: free balances conserve every asset."""
from rules.base import *
from rules import codec, c15, c16
from rules.refspec import agree
import codecmodels

EXPLANATION = """The metadata recorded by `into_checked_basic` is summarised on an arbitrary transaction, height and parameters: the loops over inputs and outputs become
folds over a map keyed by asset with an explicit step, and every arithmetic failure a condition over all positions.  The summary must equal that of a
reference definition (per input: add the amount under its asset; deduct the total fee from the base asset; per coin output: subtract from its asset, which
must exist; any leave of the 64-bit range fails), the validity check itself being the same opaque verdict in both."""
ASSUMPTIONS = ['gas_price_factor is not zero', 'BTreeMap is a finite map', 'the fee is the one C16 establishes']


def check(chk, tier):
    chk.rule('into_checked_basic metadata = reference fold over inputs, fee, outputs; None exactly where the reference fails')

    def pre(I, st, args):
        c16.nonzero(I, st, I.freeze(st, args[2]))
    for k in ('script', 'create'):
        agree(chk, 'spec::balances::%s::real' % k, 'spec::balances::%s::want' % k, ['tx', 'height', 'params'], k + ' balances',
              'the recorded balances (or when the check fails) differ from inputs minus fee minus coin outputs per asset',
              rules=lambda: c15.Rec().rules() + codecmodels.tx_rules(db()), pre=pre)
