"""C28: questions about a transaction's inputs are answered exactly."""
from rules.base import *
from rules import refspec

EXPLANATION = """Each question a transaction answers about its inputs (assets of its inputs, distinct assets, distinct contracts, whether every predicate belongs to
its owner) is summarised by value-flow analysis on an arbitrary transaction (loops over the inputs in closed form) and must equal the summary of its definition in
probe/src/full/queries.rs.  The definition of predicate ownership itself is C23."""
ASSUMPTIONS = ['itertools collects, sorts and removes duplicates as documented']

CASES = [('predicate_owners', 'every predicate belongs to its owner'), ('asset_ids', 'assets of the inputs'), ('asset_count', 'number of assets of inputs'),
         ('unique_asset_ids', 'distinct assets of the inputs'), ('contracts', 'distinct contracts of the inputs')]


def check(chk, tier):
    chk.rule('the answer is that of the definition, for every transaction')
    for k in ('script', 'create'):
        for n, label in CASES:
            refspec.agree(chk, 'queries::%s::real::%s' % (k, n), 'queries::%s::want::%s' % (k, n), ['tx'], '%s: %s' % (k, label), 'not what the inputs say')
    return chk
