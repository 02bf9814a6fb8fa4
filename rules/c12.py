"""C12: script transactions obey the script rules."""
from rules.base import *
from rules.validity import *

EXPLANATION = METHOD
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the reference definitions in probe/src/full/spec.rs state the rules']


def check(chk, tier):
    def go():
        v = Verdict(chk, 'script')
        v.total()
        v.group('C12', OWN['script'], ALL['script'])
        v.done()
    chk.run('script', go)
    return chk
