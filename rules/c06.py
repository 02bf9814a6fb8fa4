"""C06: the transaction id."""
from rules.base import *
from rules import codec, c04, prep

EXPLANATION = """`id` of an arbitrary uncached transaction is summarised by value-flow analysis of its MIR; the digest must be SHA-256 of the canonical
encoding (C02/C03) of a transaction whose every field is compared with the specified signing form: witnesses removed, exactly the listed
input/output fields and the receipts root zero, everything else untouched.  The enum must answer with the id of its variant."""
ASSUMPTIONS = ['SHA-256 as implemented by fuel-crypto (Hasher::hash digests exactly the bytes it is given)', 'to_bytes is the canonical encoding (C02, C03)']


def check(chk, tier):
    chk.rule('id = SHA-256(encoding(signing form))')
    for kind in codec.TXKINDS:
        ident(chk, kind)
    enum_id(chk)


def ident(chk, kind):
    ty = codec.elem_type(kind)

    def go():
        inst = codec.probe('cached::%s::id_plain' % kind.lower())
        I, sym, v, r, st, args = codec.analyse_tx(chk, inst, ty, ['self'])
        got = I.freeze(st, r)
        w = c04.where(chk, I, inst)
        want = prep.id_of(I, ty, sym, ret_ty(inst))
        e = hashed(got)
        if e is None:
            return chk.require(I, kind + ' id is the SHA-256 of an encoding', eqv(I, got, want), w, 'the id is not SHA-256 of one canonical encoding',
                               detail='computed: ' + show(got)[:900])
        names = [f[0] for f in ty.d['variants'][0]['fields']]
        form = prep.sign_form(I, ty, sym)
        for j, n in enumerate(names):
            if n != 'metadata':
                chk.equal(I, '%s id: %s' % (kind, n), I.field(e, 0, j, ty.name), form[n], w,
                          msg='the encoding hashed into the id does not hold the specified value of this field')
        chk.equal(I, kind + ' id always answers', st.cond, TRUE, w)
        chk.panics(I, kind + ' id')
        chk.done(I)
    chk.run(kind + ' id', go)


def hashed(v):
    """the transaction value whose encoding is hashed, if v is Bytes32{sha256(enc(x))}"""
    while isinstance(v, T) and v.op == 'adt' and len(v.args[2]) == 1:
        v = v.args[2][0]
    if isinstance(v, T) and v.op == 'sha256' and isinstance(v.args[0], T) and v.args[0].op == 'enc':
        return v.args[0].args[0]
    return None


def enum_id(chk):
    def go():
        ety = codec.elem_type('Transaction')
        inst = codec.probe('cached::enumeration::id')
        for vi, v in enumerate(ety.d['variants']):
            kind = v['name']
            ty = codec.elem_type(kind)
            I, sym, val, r, st, args = codec.analyse_tx(chk, inst, ty, ['self'], wrap=lambda I, x, vi=vi: models.mk_adt(ety.name, vi, (x,)))
            chk.equal(I, 'Transaction::%s id' % kind, I.freeze(st, r), prep.id_of(I, ty, sym, ret_ty(inst)), c04.where(chk, I, inst))
            chk.done(I)
    chk.run('Transaction id', go)
