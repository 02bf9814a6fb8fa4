"""Verdicts of the validity checks against their reference definitions (probe/src/full/spec.rs, module `valid`).

The summary of an entry point gives its verdict as a gated value: which error it returns under which condition, or success.  For a group of
rules with reference condition C, and S the conjunction of all reference conditions that apply to the entry point, two entailments are required:
success entails C, and an error that this group answers for entails not S."""
from rules.base import *
from rules import codec, c04, refspec
from rules.point import *

COMMON = {'TransactionGasLimit', 'TransactionMaturity', 'TransactionInputsMax', 'TransactionOutputsMax', 'TransactionWitnessesMax',
          'TransactionOutputChangeAssetIdDuplicated', 'DuplicateInputUtxoId', 'DuplicateInputContractId', 'DuplicateMessageInputId',
          'TransactionOutputChangeAssetIdNotFound', 'TransactionOutputCoinAssetIdNotFound'}


def owner(variant):
    """the property answering for an error"""
    if variant in COMMON:
        return 'C09'
    if variant.startswith('TransactionCreate'):
        return 'C11'
    if variant.startswith('TransactionScript'):
        return 'C12'
    if variant.startswith('Input') or variant == 'OutputContractInputIndex':
        return 'C10'
    return 'C09'


NAMES = ['tx', 'h', 'p']
METHOD = """The verdict of the unsigned validity check is summarised by value-flow analysis (loops in closed form: existence of an index, first such index)
for an arbitrary transaction, height and parameters, and compared with the reference definition of each rule analysed the same way: acceptance must
entail every rule, and an error this property answers for must entail that some rule of the entry point is violated."""
COMMON_RULES = [('numbers and sizes are within limits', 'sizes'), ('no input asset has two change outputs', 'one_change_each'),
                ('no UTXO is spent twice', 'utxos_differ'), ('no contract is an input twice', 'contracts_differ'),
                ('no message is spent twice', 'messages_differ'), ('change and coin outputs are of input assets', 'assets_present')]
OWN = {'script': [('script and data are within their lengths', 'script_lengths'), ('no output creates a contract', 'script_outputs')],
       'create': [('the bytecode witness exists and has the declared length', 'create_bytecode'), ('storage slots are few enough and ordered', 'create_slots'),
                  ('no input is a contract', 'create_inputs'), ('outputs are allowed ones and create at most one contract', 'create_outputs')]}
ALL = {k: [k + '::' + p for l, p in COMMON_RULES] + [k + '::all_inputs', k + '::all_outputs'] + [p for l, p in OWN[k]] for k in OWN}


class Verdict:
    """real verdict and reference conditions of one transaction kind, on the same arbitrary arguments"""

    def __init__(self, chk, kind, names=NAMES, rules=lambda: None):
        self.chk = chk
        self.names = names
        self.rules = rules
        self.I, inst, r, st, args, g = refspec.summary(chk, 'spec::valid::' + (kind if '::' in kind else 'real_' + kind), names, rules())
        self.where = c04.where(chk, self.I, inst)
        self.kind = kind
        self.guard = g
        self.cond = st.cond
        self.r = r
        self.rt = ret_ty(inst)
        self.errs = self.rt.field_tys(1)[0]
        self.specs = {}

    def spec(self, path):
        if path not in self.specs:
            I, inst, r, st, args, g = refspec.summary(self.chk, 'spec::valid::' + path, self.names, self.rules())
            self.chk.require(I, path + ': the reference is total', st.cond, path, 'the reference definition may panic (specification error)', guard=g)
            self.chk.done(I)
            self.specs[path] = as_cond(r)
        return self.specs[path]

    def ok(self):
        return bind(self.r, lambda l: UNDEF if l is UNDEF else BOOL(l.args[1] == 0))

    def err(self, pick):
        """condition: the verdict is an error whose variant satisfies pick"""
        names = [v['name'] for v in self.errs.d['variants']]

        def f(l):
            if l is UNDEF:
                return UNDEF
            if l.args[1] == 0:
                return FALSE
            return bind(l.args[2][0], lambda e: UNDEF if e is UNDEF else BOOL(pick(names[e.args[1]])))
        return bind(self.r, f)

    def total(self):
        self.chk.require(self.I, self.kind + ': returns', self.cond, self.where, 'may panic or not return', guard=self.guard)
        self.chk.panics(self.I, self.kind)

    def group(self, pid, own, all_):
        """own: [(label, reference)] conditions of this property; all_: every reference condition of the entry point"""
        g = AND(self.guard, self.cond)
        for label, path in own:
            self.chk.require(self.I, '%s: accepted only if %s' % (self.kind, label), IMPL(self.ok(), self.spec(path)), self.where,
                             'accepts a transaction although not (%s)' % label, guard=g)
        s = AND(*[self.spec(p) for p in all_])
        for v in self.errs.d['variants']:
            n = v['name']
            if pid and owner(n) != pid:
                continue
            e = self.err(lambda x: x == n)
            self.chk.require(self.I, '%s: %s only for a violated rule' % (self.kind, n), NOT(AND(e, s)), self.where,
                             'rejects (%s) a transaction that obeys every rule' % n, guard=g)

    def exactly(self, path):
        """success exactly when the reference holds"""
        g = AND(self.guard, self.cond)
        self.chk.require(self.I, self.kind + ': accepted only if valid', IMPL(self.ok(), self.spec(path)), self.where, 'accepts what the rules forbid', guard=g)
        for v in self.errs.d['variants']:
            e = self.err(lambda x: x == v['name'])
            if e is not FALSE:
                self.chk.require(self.I, '%s: %s only for a violated rule' % (self.kind, v['name']), NOT(AND(e, self.spec(path))), self.where,
                                 'rejects (%s) what obeys every rule' % v['name'], guard=g)

    def done(self):
        self.chk.done(self.I)
