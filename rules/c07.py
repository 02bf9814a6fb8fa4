"""C07: preparing for execution."""
from rules.base import *
from rules import codec, c04, prep

EXPLANATION = """prepare_init_script / prepare_init_predicate of transactions, and of single inputs and outputs, are summarised by value-flow analysis
of their MIR on arbitrary values; every field of the final state is compared with the specified zeroing (loops over inputs and outputs in
closed form, so for every number of elements).  That the id is unchanged is decided by comparing the signing forms before and after."""
ASSUMPTIONS = ['the id is the hash of the signing form (C06)']


def elem(chk, ename, f, table):
    def go():
        inst = find(db(), ename, f)
        ty = codec.elem_type(ename)
        I = chk.interp()
        r, st, args = I.analyse(inst, names=['self'])
        x = mkT('sym', 'self', ty.name, ty=ty.name)
        chk.equal(I, '%s::%s' % (ename, f), I.freeze(st, I.deref_read(st, args[0])), prep.zeroed(I, x, ty, table), chk.where(inst))
        chk.panics(I, '%s::%s' % (ename, f))
        chk.done(I)
    chk.run('%s::%s' % (ename, f), go)


def tx(chk, kind, f, itab, otab):
    def go():
        ty = codec.elem_type(kind)
        inst = codec.probe('exec::%s::%s' % (kind.lower(), f))
        I, sym, v, r, st, args = codec.analyse_tx(chk, inst, ty, ['self'], stale=True)
        w = c04.where(chk, I, inst)
        end = I.freeze(st, I.deref_read(st, args[0]))
        want = dict(fields_of(sym, ty))
        if itab:
            want['inputs'] = prep.zeroed_seq(I, want['inputs'], codec.elem_type('Input'), itab)
        if otab:
            want['outputs'] = prep.zeroed_seq(I, want['outputs'], codec.elem_type('Output'), otab)
        names = [q[0] for q in ty.d['variants'][0]['fields']]
        for j, n in enumerate(names):
            if n == 'metadata':
                continue
            chk.equal(I, '%s %s: %s' % (kind, f, n), I.field(end, 0, j, ty.name), want[n], w,
                      msg='preparing leaves a different value in this field than specified')
        chk.equal(I, '%s %s returns the transaction' % (kind, f), I.freeze(st, r), I.freeze(st, args[0]), w)
        chk.panics(I, '%s %s' % (kind, f))
        chk.done(I)
        # the id: same signing form before and after (on the tables)
        before = prep.sign_form(I, ty, sym)
        aft = prep.sign_form(I, ty, end)
        for n in names:
            if n != 'metadata':
                chk.equal(I, '%s %s keeps the id: %s' % (kind, f, n), aft[n], before[n], w, msg='preparing changes the transaction id')
    chk.run('%s %s' % (kind, f), go)


def check(chk, tier):
    chk.rule('final state = specified zeroing; signing form unchanged')
    elem(chk, 'Input', 'prepare_init_predicate', prep.SIGN_INPUT)
    elem(chk, 'Output', 'prepare_init_predicate', prep.SIGN_OUTPUT)
    elem(chk, 'Output', 'prepare_init_script', prep.SCRIPT_OUTPUT)
    for kind in ('Script', 'Create'):
        tx(chk, kind, 'prepare_init_script', None, prep.SCRIPT_OUTPUT)
        tx(chk, kind, 'prepare_init_predicate', prep.SIGN_INPUT, prep.SIGN_OUTPUT)
