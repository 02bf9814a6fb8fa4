"""C22: contract ids and roots commit to code, salt and state."""
from rules.base import *
from rules import refspec

EXPLANATION = """The contract id, code root, state root and the contract taken out of a transaction are summarised by value-flow analysis for arbitrary
arguments (loops over chunks and slots in closed form) down to the bytes handed to SHA-256, in order, and the sequence of leaves handed to the Merkle
trees, and must equal the summaries of the definitions in probe/src/full/ident.rs."""
ASSUMPTIONS = ['SHA-256 of fuel-crypto and the Merkle trees of fuel-merkle are functions of exactly the bytes and leaves they are given']

CASES = [('id', 'c salt root state', 'contract id'), ('code_root', 'code', 'code root'), ('root', 'c', 'root of a contract'),
         ('state_root', 'slots', 'state root'), ('empty_state', '', 'default state root'), ('of_create', 'tx', 'contract of a create transaction'),
         ('of_transaction', 'tx', 'contract of a transaction'), ('of_vec', 'v', 'contract from a vector'), ('of_slice', 'v', 'contract from a slice')]


def check(chk, tier):
    chk.rule('the bytes hashed and the leaves committed to are those of the definition')
    for n, args, label in CASES:
        refspec.agree(chk, 'ident::contract::real::' + n, 'ident::contract::want::' + n, args.split(), label, 'not what the definition commits to')
    return chk
