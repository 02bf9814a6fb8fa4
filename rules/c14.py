"""C14: the ownership of every input is verified."""
from rules.base import *
from rules.validity import *
from engine import codecmodels

EXPLANATION = """The verdict of the signature check of an arbitrary input (any position, witnesses and id) is summarised by value-flow analysis, with signature
recovery, SHA-256 and the Merkle root as uninterpreted functions of the bytes they are given, and must be success exactly when the reference
definition of ownership holds: bytes handed to the primitives, comparison and variant by variant.  The verdict of a transaction must be success
exactly when that holds at every index of its inputs, over its own id."""
ASSUMPTIONS = ['signature recovery, SHA-256 and binary Merkle roots are those of fuel-crypto and fuel-merkle (functions of the bytes given)',
               'the transaction id is that of C06', 'no in-memory object exceeds 2^48 bytes']


def check(chk, tier):
    chk.rule('checking signatures succeeds iff every input is owned')

    def go(kind, names, want):
        v = Verdict(chk, 'sig::real_' + kind, names, rules=lambda: codecmodels.tx_rules(db()))
        v.total()
        if want:
            v.exactly('sig::want_' + kind)
        else:
            chk.require(v.I, kind + ': always succeeds', v.ok(), v.where, 'a mint transaction has nothing to sign', guard=v.guard)
        v.done()
    chk.run('input', lambda: go('input', ['i', 'index', 'id', 'witnesses'], True))
    for k in ('script', 'create'):
        chk.run(k, lambda k=k: go(k, ['tx'], True))
    chk.run('mint', lambda: go('mint', ['tx'], False))
    refspec.agree(chk, 'spec::valid::sig::real_enum', 'spec::valid::sig::want_enum', ['tx'], 'enumeration',
                  'the verdict for the enumeration is not that of its transaction', rules=lambda: codecmodels.tx_rules(db()))
    return chk
