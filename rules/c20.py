"""C20: signing puts the key's signature over the transaction id into exactly the witnesses named by the inputs the key owns."""
from rules.base import *
from rules import refspec
from engine import codecmodels

EXPLANATION = """The transaction after signing the inputs is summarised by value-flow analysis for an arbitrary script and create transaction and an
arbitrary key, with the signature and the public key as uninterpreted functions of what they are given, and must equal in every field the transaction
in which exactly the witnesses named by a signed coin or message of the key's owner have been replaced by the key's signature over the transaction id."""
ASSUMPTIONS = ['signing and public-key derivation are those of fuel-crypto (functions of the key and the bytes given)',
               'the transaction id is that of C06', 'no in-memory object exceeds 2^48 bytes']


def check(chk, tier):
    chk.rule('exactly the witnesses named by the owned inputs are replaced')
    for k in ('script', 'create'):
        refspec.agree(chk, 'sign::%s::real' % k, 'sign::%s::want' % k, ['tx', 'key'], k, 'signing does not change exactly the witnesses named by owned inputs',
                      rules=lambda: codecmodels.tx_rules(db()), effects=('tx',))
    return chk
