"""C10: every input and output is individually valid."""
from rules.base import *
from rules.validity import *

EXPLANATION = METHOD
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the reference definitions in probe/src/full/spec.rs state the rules']


def check(chk, tier):
    for kind in ('script', 'create'):
        def go(kind=kind):
            v = Verdict(chk, kind)
            v.group('C10', [('every input is valid', kind + '::all_inputs'), ('every output is valid', kind + '::all_outputs')], ALL[kind])
            v.done()
        chk.run(kind, go)
    for kind, want, names in (('input', 'want_input', ['i', 'index', 'outputs', 'witnesses', 'p']), ('output', 'want_output', ['o', 'index', 'inputs'])):
        def one(kind=kind, want=want, names=names):
            v = Verdict(chk, kind, names)
            v.total()
            v.exactly(want)
            v.done()
        chk.run(kind, one)
    return chk
