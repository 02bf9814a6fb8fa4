"""C27: validation never panics and does not depend on the std feature."""
from rules.base import *
from rules.validity import *
from engine import codecmodels, dump

EXPLANATION = """Every entry point of the validity checks (with and without signatures, per transaction kind and for the enumeration, for inputs and outputs) is
summarised by value-flow analysis on arbitrary arguments: every arithmetic, bounds and explicit panic on the way must be infeasible.  The same entry points
are then analysed in the build without the standard library, where acceptance must entail every rule of the reference definitions, and an error that
some rule is violated: since the build with the standard library is held to the same definitions (C09 to C13), both accept the same transactions."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'hash, signature and Merkle primitives of fuel-crypto and fuel-merkle do not panic',
               'the orders of ids used for sorting are total and agree with their equality']

FULL = [('script', None), ('create', None), ('mint', None), ('enum', None), ('input', 'i index outputs witnesses p'), ('output', 'o index inputs')]
SIGS = [('input', 'i index id witnesses'), ('script', 'tx'), ('create', 'tx'), ('mint', 'tx'), ('enum', 'tx')]


def total(chk, kind, names, rules=lambda: None):
    def go():
        v = Verdict(chk, kind, names, rules=rules)
        v.total()
        v.done()
    chk.run(kind, go)


def nostd(chk):
    chk.rule('without the standard library the verdict is that of the reference definitions')
    for kind in ('script', 'create'):
        def go(kind=kind):
            v = Verdict(chk, kind)
            v.total()
            v.group(None, [(l, kind + '::' + p) for l, p in COMMON_RULES] + [('inputs are valid', kind + '::all_inputs'), ('outputs are valid', kind + '::all_outputs')] + OWN[kind],
                    ALL[kind])
            v.done()
        chk.run(kind, go)

    def mint():
        v = Verdict(chk, 'mint')
        v.total()
        v.exactly('mint')
        v.done()
    chk.run('mint', mint)
    refspec.agree(chk, 'spec::valid::real_enum', 'spec::valid::want_enum', NAMES, 'enumeration', 'the verdict for the enumeration is not that of its transaction')


def check(chk, tier):
    with_features(chk, 'nostd', nostd)      # first: in a process that holds no other terms yet
    chk.rule('no entry point of the validity checks can panic')
    for kind, names in FULL:
        total(chk, kind, names.split() if names else NAMES)
    for kind, names in SIGS:
        total(chk, 'sig::real_' + kind, names.split(), lambda: codecmodels.tx_rules(db()))
    return chk
