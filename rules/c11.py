"""C11: create transactions obey the deployment rules."""
from rules.base import *
from rules.validity import *

EXPLANATION = METHOD
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the reference definitions in probe/src/full/spec.rs state the rules']


def check(chk, tier):
    def go():
        v = Verdict(chk, 'create')
        v.total()
        v.group('C11', OWN['create'], ALL['create'])
        v.done()
    chk.run('create', go)
    return chk
