"""C09: every transaction is held to the common limits."""
from rules.base import *
from rules.validity import *

EXPLANATION = METHOD
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the reference definitions in probe/src/full/spec.rs state the rules']


def check(chk, tier):
    for kind in ('script', 'create'):
        def go(kind=kind):
            v = Verdict(chk, kind)
            v.total()
            v.group('C09', [(l, kind + '::' + p) for l, p in COMMON_RULES], ALL[kind])
            v.done()
        chk.run(kind, go)
    refspec.agree(chk, 'spec::valid::real_enum', 'spec::valid::want_enum', NAMES, 'enumeration', 'the verdict for the enumeration is not that of its transaction')
    return chk
