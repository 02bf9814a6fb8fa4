"""C23: message and predicate identities are derived from all their parts."""
from rules.base import *
from rules import refspec

EXPLANATION = """Message ids, nonces, digests, predicate and key owners, and the receipt of a message output are summarised by value-flow analysis for arbitrary
arguments down to the bytes handed to SHA-256 and the leaves handed to the Merkle tree, and must equal the summaries of the definitions in
probe/src/full/ident.rs."""
ASSUMPTIONS = ['SHA-256 of fuel-crypto and the binary Merkle tree of fuel-merkle are functions of exactly the bytes they are given',
               'an output index is below 256 (its one-byte form enters the nonce)']

CASES = [('input_id', 'sender recipient nonce amount data', 'message id (input)'), ('output_id', 'sender recipient nonce amount data', 'message id (output)'),
         ('nonce', 'id k', 'message nonce'), ('data_digest', 'data', 'message digest'), ('predicate_owner', 'code', 'predicate owner'),
         ('owner_valid', 'owner code', 'predicate owner check'), ('owner', 'pk', 'owner of a key'),
         ('receipt', 'id k sender recipient amount data', 'receipt of a message output')]


def check(chk, tier):
    chk.rule('the bytes hashed are those of the definition')
    for n, args, label in CASES:
        refspec.agree(chk, 'ident::message::real::' + n, 'ident::message::want::' + n, args.split(), label, 'not derived as defined')
    return chk
