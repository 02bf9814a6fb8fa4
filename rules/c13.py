"""C13: mint transactions obey the mint rules."""
from rules.base import *
from rules.validity import *

EXPLANATION = METHOD
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the reference definitions in probe/src/full/spec.rs state the rules']


def check(chk, tier):
    def go():
        v = Verdict(chk, 'mint')
        v.total()
        v.exactly('mint')
        v.done()
    chk.run('mint', go)
    return chk
