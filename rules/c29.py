"""C29: a full check accepts exactly what passes both of its parts."""
from rules.base import *
from rules import refspec
from engine import codecmodels

EXPLANATION = """The verdict of the full check of a transaction of every kind, of the enumeration, and of a single input is summarised by value-flow analysis on
arbitrary arguments and must be, as a condition on them, the conjunction of the verdicts of the check without signatures and of the signature check, analysed
the same way.  What those parts require is C09 to C14."""
ASSUMPTIONS = ['signature recovery, SHA-256 and binary Merkle roots are those of fuel-crypto and fuel-merkle (functions of the bytes given)',
               'no in-memory object exceeds 2^48 bytes']


def check(chk, tier):
    chk.rule('accepted iff both parts accept')
    for k in ('script', 'create', 'mint', 'enum'):
        refspec.agree(chk, 'spec::valid::full::real_' + k, 'spec::valid::full::want_' + k, ['tx', 'h', 'p'], 'full check of ' + k,
                      'the full check is not the conjunction of its parts', rules=lambda: codecmodels.tx_rules(db()))
    refspec.agree(chk, 'spec::valid::full::real_input', 'spec::valid::full::want_input', ['i', 'index', 'id', 'outputs', 'witnesses', 'p'], 'full check of an input',
                  'the full check is not the conjunction of its parts', rules=lambda: codecmodels.tx_rules(db()))
    return chk
