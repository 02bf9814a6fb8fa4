"""C24: text forms of ids and pointers."""
from rules.base import *
from rules import codec, c04
from engine import textmodels

EXPLANATION = """Parsing what each formatting form gives is summarised by value-flow analysis for an arbitrary value (the text is an array of digit terms; the template of
the formatting macro is read from the constant the compiler emits) and must give back that value.  Parsing an arbitrary string must discharge every panic,
slice-range and character-boundary obligation."""
ASSUMPTIONS = ['formatting and parsing of primitive integers in base 16 are those of core', 'the byte newtypes of fuel-types are formatted as two digits a byte, after 0x in the '
               'alternate form, and parsed back from that']

FORMS = {'utxo_id': ('lower', 'upper', 'lower_prefixed', 'upper_prefixed', 'with_prefix'), 'tx_pointer': ('lower', 'upper', 'lower_prefixed', 'upper_prefixed')}


def check(chk, tier):
    chk.rule('text of a value parses back to it; no string panics')
    for k, forms in FORMS.items():
        for f in forms:
            def go(k=k, f=f):
                inst = codec.probe('text::%s::%s' % (k, f))
                I = chk.interp(contract_rules=textmodels.rules(), prune=True)
                r, st, args = I.analyse(inst, names=['x'])
                w = '%s %s' % (k, f)
                I2 = chk.interp()
                want, st2, _ = I2.analyse(codec.probe('text::%s::same' % k), names=['x'])
                chk.equal(I, w + ': parses back', I.freeze(st, r), I2.freeze(st2, want), where(I, k), guard=st.cond,
                          msg='the text of a value does not parse back to the value')
                chk.require(I, w + ': returns', st.cond, where(I, k), 'formatting or parsing may panic')
                chk.panics(I, w)
                chk.done(I)
            chk.run('%s: %s' % (k, f), go)

        def any_string(k=k):
            inst = codec.probe('text::%s::parse' % k)
            I = chk.interp(contract_rules=textmodels.rules(), prune=True)
            r, st, args = I.analyse(inst, names=['s'])
            chk.require(I, k + ' of any string: returns', st.cond, where(I, k), 'parsing may panic')
            chk.panics(I, k + ' of any string')
            chk.done(I)
        chk.run(k + ': any string', any_string)
    return chk


def where(I, k):
    for i in I.visited:
        n = I.db.insts[i]
        if n.item == 'from_str' and n.krate == 'fuel_tx':
            return '%s:%s %s' % (n.d['file'], n.d['line'], n.name)
    return k
