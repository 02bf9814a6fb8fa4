"""Element codecs (UtxoId, TxPointer, StorageSlot, Witness, Input, Output, Receipt): encoder against layout."""
from rules.base import *
from rules import codec
import codecmodels

ELEMS = ['UtxoId', 'TxPointer', 'StorageSlot', 'Witness', 'Output', 'Input', 'Receipt']


def variants(ty):
    return [(i, v['name'] if ty.d['adt'] == 'enum' else None) for i, v in enumerate(ty.d['variants'])]


def ok_cond(r):
    return map_leaves(lambda l: BOOL(l.op == 'adt' and l.args[1] == 0) if l.op == 'adt' else UNDEF, r)


def ok_val(r):
    return map_leaves(lambda l: l.args[2][0] if l.op == 'adt' and l.args[1] == 0 else UNDEF, r)


def layout_of(I, ty, sym, vi):
    return codec.layouts(I, ty, sym)[vi][1]


def tail_of(I, content, n, total):
    return models.sub_content(I, content, n, sub(total, n))


EXCESS = {'Receipt::ScriptResult': 48, 'Receipt::MessageOut': 48}


def known_excess(I, chk, label, okc, n, blen, w, size=None):
    """two receipt kinds reserve 48 bytes (id, pc, is) they do not write: a recorded finding.  When exactly that is what the code
    does it is reported under its own key and the rest is decided against the reserved size; anything else is decided as usual"""
    k = EXCESS.get(label)
    if k is None:
        return n
    m = add(n, INT(k))
    same = (size is m) if size is not None else eqv(I, okc, le(m, blen)) is TRUE or not facts.feasible(NOT(eqv(I, okc, le(m, blen))), [])
    if not same:
        return n
    key = '%s reserves %d bytes more than its layout' % (label, k)
    chk.obligations += 1
    if not any(f['key'] == key for f in chk.findings):
        chk.finding(key, 'size exceeds the bytes of its fields', w, 'size is layout size + %d' % k)
    return m


def encode_variant(chk, name, vi, want):
    """want: set of 'size','layout','panic' obligations to check"""
    d = db()
    ty = codec.elem_type(name)
    inst = codec.encoder(name)
    vn = dict(variants(ty))[vi]
    label = name + ('::' + vn if vn else '')

    def go():
        I, sym, val, r, st, args = codec.analyse_variant(chk, inst, ty, vi, ['self', 'buf'])
        L = layout_of(I, ty, sym, vi)
        n = L.size()
        w = chk.where(inst)
        buf0 = mkT('sym', 'buf', I.db.ty(inst.body['locals'][2]).to.name, ty=I.db.ty(inst.body['locals'][2]).to.name)
        blen = models.content_len(I, buf0)
        okc = AND(st.cond, ok_cond(r))
        fits = le(n, blen)
        after = st.roots[args[1].args[0]]
        if 'size' in want:
            n = known_excess(I, chk, label, okc, n, blen, w)
            fits = le(n, blen)
            chk.equal(I, label + ' encodes exactly when the buffer holds its size', okc, fits, w, msg='success condition of the encoder')
            chk.equal(I, label + ' reports its size as written', ok_val(r), n, w, guard=AND(okc, fits))
            chk.equal(I, label + ' is not modified by encoding', st.roots[args[0].args[0]], val, w)
            chk.equal(I, label + ' writes nothing past its size', tail_of(I, after, n, blen), tail_of(I, buf0, n, blen), w, guard=AND(okc, fits))
        if 'layout' in want:
            exp = models.write_v(I, buf0, INT(0), L.size(), L.content(I))
            chk.equal(I, label + ' is written in the published layout', after, exp, w, guard=AND(okc, fits))
        if 'panic' in want:
            chk.panics(I, label + ' encode')
        chk.done(I)
    chk.run(label + ' encode', go)
    if 'size' in want:
        sz = codec.sizer(name)

        def go2():
            I, sym, val, r, st, args = codec.analyse_variant(chk, sz, ty, vi, ['self'])
            L = layout_of(I, ty, sym, vi)
            n = known_excess(I, chk, label, None, L.size(), None, chk.where(sz), r)
            chk.equal(I, label + ' serialized_size', r, n, chk.where(sz))
            chk.equal(I, label + ' size is a multiple of 8', emod(n, INT(8)), INT(0), chk.where(sz))
            chk.panics(I, label + ' serialized_size')
            chk.done(I)
        chk.run(label + ' serialized_size', go2)


def encode_tx(chk, name, want, wrapped=False, stale=False):
    """encoder of a whole transaction (directly, or through the Transaction enum)"""
    d = db()
    ty = codec.elem_type(name)
    outer = 'Transaction' if wrapped else name
    label = ('Transaction::' if wrapped else '') + name + (' after precompute' if stale else '')
    tty = codec.elem_type('Transaction')
    wrap = (lambda I, v: models.mk_adt(tty.name, tty.variant_index(name), (v,))) if wrapped else None
    inst = codec.probe('cached::%s::encode' % name.lower()) if stale else codec.encoder(outer)

    def go():
        I, sym, val, r, st, args = codec.analyse_tx(chk, inst, ty, ['self', 'buf'], wrap)
        L = codec.tx_layout(I, ty, sym)
        n = L.size()
        w = chk.where(inst)
        bt = I.db.ty(inst.body['locals'][2]).to.name
        buf0 = mkT('sym', 'buf', bt, ty=bt)
        fits = le(n, models.content_len(I, buf0))
        okc = AND(st.cond, ok_cond(r))
        if 'size' in want:
            chk.equal(I, label + ' encodes exactly when the buffer holds its size', okc, fits, w, msg='success condition of the encoder')
            chk.equal(I, label + ' reports its size as written', ok_val(r), n, w, guard=AND(okc, fits))
            if not stale:
                chk.equal(I, label + ' is not modified by encoding', st.roots[args[0].args[0]], val, w)
            chk.equal(I, label + ' writes nothing past its size', tail_of(I, st.roots[args[1].args[0]], n, models.content_len(I, buf0)),
                      tail_of(I, buf0, n, models.content_len(I, buf0)), w, guard=AND(okc, fits))
        if 'layout' in want:
            exp = models.write_v(I, buf0, INT(0), n, L.content(I))
            chk.equal(I, label + ' is written in the published layout', st.roots[args[1].args[0]], exp, w, guard=AND(okc, fits))
        if 'panic' in want:
            chk.panics(I, label + ' encode')
        chk.done(I)
    if not stale or name == 'Mint':
        chk.run(label + ' encode', go)
    if 'size' in want:
        sz = codec.probe('cached::%s::size' % name.lower()) if stale else codec.sizer(outer)

        def go2():
            I, sym, val, r, st, args = codec.analyse_tx(chk, sz, ty, ['self'], wrap, stale=stale)
            n = codec.tx_layout(I, ty, sym).size()
            chk.equal(I, label + ' serialized_size', r, n, chk.where(sz))
            chk.panics(I, label + ' serialized_size')
            chk.done(I)
        chk.run(label + ' serialized_size', go2)


def buf_with(I, st, arg, content):
    """make the byte-slice argument point at this content"""
    root = arg.args[0]
    st.roots[root] = content
    return mkT('slice', root, (), INT(0), models.content_len(I, content))


def decode_any(chk, name, opts=None):
    """decoder on an arbitrary byte string into an arbitrary value"""
    inst = codec.decoder(name)
    label = name + ' decode'

    def go():
        bt = db().ty(inst.body['locals'][2]).to.name
        buf0 = mkT('sym', 'buf', bt, ty=bt)
        I = chk.interp(**(opts or {}))
        I.opts['alloc_bound'] = models.content_len(I, buf0)
        r, st, args = I.analyse(inst, names=['self', 'buf'])
        okc = AND(st.cond, ok_cond(r))
        chk.require(I, label + ' consumes no more than it was given', le(ok_val(r), models.content_len(I, buf0)), chk.where(inst),
                    'may report more bytes than the buffer holds', guard=okc)
        if name in ('Output', 'Witness', 'StorageSlot'):
            n = I.run_inst(codec.sizer(name), [args[0]], st)
            chk.equal(I, label + ' consumes the size of the decoded value', ok_val(r), n, chk.where(inst), guard=okc)
        chk.equal(I, label + ' leaves the buffer alone', st.roots[args[1].args[0]], buf0, chk.where(inst))
        chk.panics(I, label)
        chk.done(I)
    chk.run(label, go)


def canonical(I, ty, vi, val):
    """values of the variant that the format can express"""
    vn = ty.d['variants'][vi]['name']
    c = TRUE
    if vn in ('CoinPredicate', 'MessagePredicate'):
        p = val.args[2][ty.field_index(vi, 'predicate')]
        c = AND(c, le(INT(1), models.content_len(I, p)))
    if vn == 'ScriptResult':
        res = val.args[2][ty.field_index(vi, 'result')]
        rty = I.db.by_name[res.ty]
        g = models.mk_fld(res, rty.variant_index('GenericFailure'), 0, 'u64')
        isg = eq_int(I.discr(res, rty), INT(rty.variant_index('GenericFailure')))
        c = AND(c, IMPL(isg, le(INT(3), g)))
    return c


def roundtrip_variant(chk, name, vi):
    d = db()
    ty = codec.elem_type(name)
    inst = codec.decoder(name)
    vn = dict(variants(ty))[vi]
    label = name + ('::' + vn if vn else '')

    def go():
        I = chk.interp()
        sym = mkT('sym', 'value', ty.name, ty=ty.name)
        val = codec.variant_val(I, ty, sym, vi)
        L = layout_of(I, ty, sym, vi)
        n = L.size()
        tail = mkT('sym', 'following', '[u8]', ty='[u8]')
        if label in EXCESS:
            pad = mkT('sym', 'reserved', '[u8; 48]', ty='[u8; 48]') if '[u8; 48]' in I.db.by_name else mkT('arr', *[INT(0)] * 48)
            content = models.cat_v(I, L.content(I), pad, tail)
            n = add(n, INT(EXCESS[label]))
        else:
            content = models.cat_v(I, L.content(I), tail)
        canon = canonical(I, ty, vi, val) if vn else TRUE

        def pre(st, args):
            args[1] = buf_with(I, st, args[1], content)
            st.cond = canon
        r, st, args = I.analyse(inst, names=['self', 'buf'], pre=pre)
        w = chk.where(inst)
        chk.equal(I, label + ': its encoding decodes', AND(st.cond, ok_cond(r)), canon, w, msg='decoding an encoded value fails')
        chk.equal(I, label + ': decoding consumes the bytes produced', ok_val(r), n, w, guard=AND(st.cond, ok_cond(r)))
        got = st.roots[args[0].args[0]]
        want = val
        if vn == 'Panic':
            # the contract id of a panic receipt is not part of the wire format nor of receipt equality
            j = ty.field_index(vi, 'contract_id')
            fs = list(val.args[2])
            fs[j] = none(ty.field_tys(vi)[j])
            want = models.mk_adt(ty.name, vi, tuple(fs))
        chk.equal(I, label + ': decoding gives back the value', I.freeze(st, got), want, w, guard=AND(st.cond, ok_cond(r)))
        chk.done(I)
    chk.run(label + ' round trip', go)


def roundtrip_tx(chk, name, wrapped=False, cache_only=False):
    """decoder of a whole transaction on the encoding of an arbitrary one, elements opaque"""
    d = db()
    ty = codec.elem_type(name)
    outer = 'Transaction' if wrapped else name
    label = ('Transaction::' if wrapped else '') + name
    tty = codec.elem_type('Transaction')
    inst = codec.decoder(outer)

    def go():
        misplaced = []
        keep = chk.obligations, chk.discharged, len(chk.findings), len(chk.undecided)
        I = chk.interp(contract_rules=codecmodels.element_rules(d), prune=True, roundtrip=misplaced)
        sym = mkT('sym', 'value', ty.name, ty=ty.name)
        val = codec.fresh_tx(ty, sym)
        want = models.mk_adt(tty.name, tty.variant_index(name), (val,)) if wrapped else val
        L = codec.tx_layout(I, ty, sym)
        n = L.size()
        tail = mkT('sym', 'following', '[u8]', ty='[u8]')
        content = models.cat_v(I, L.content(I), tail)
        f = fields_of(sym, ty)
        canon = TRUE
        if name == 'Create':
            # the byte length written by the encoder; C11 requires it to be the length of the witness in words
            pass

        def pre(st, args):
            args[1] = buf_with(I, st, args[1], content)
            st.cond = canon
        r, st, args = I.analyse(inst, names=['self', 'buf'], pre=pre)
        w = chk.where(inst)
        un = ('adv',)
        g = AND(st.cond, ok_cond(r))
        chk.equal(I, label + ': its encoding decodes', g, canon, w, msg='decoding an encoded value fails', unknown=un)
        chk.equal(I, label + ': decoding consumes the bytes produced', ok_val(r), n, w, guard=g, unknown=un)
        got = st.roots[args[0].args[0]]
        if cache_only:
            j = ty.field_index(0, 'metadata')
            x = I.field(got, tty.variant_index(name), 0, tty.name) if wrapped else got
            chk.obligations, chk.discharged, chk.findings, chk.undecided = keep[0], keep[1], chk.findings[:keep[2]], chk.undecided[:keep[3]]
            chk.equal(I, label + ': decoding leaves nothing cached', I.field(x, 0, j, ty.name), none(ty.field_tys(0)[j]), w, guard=g, unknown=un)
            chk.done(I)
            return
        chk.equal(I, label + ': decoding gives back the value', I.freeze(st, got), want, w, guard=g, unknown=un)
        for c, ety, off, f, line in misplaced:
            if not (mentions_unknown(off, un) or mentions_unknown(c, un)) and facts.feasible_part(c, I.extra_facts) is not FALSE:
                chk.finding(label + ': element decoded where it was not encoded', 'decodes %s at offset %s, where none was encoded' % (
                    ety.split('::')[-1], show(off)[:200]), '%s line %s' % (f, line))
        chk.done(I)
    chk.run(label + ' round trip', go)
