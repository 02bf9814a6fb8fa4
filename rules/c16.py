"""C16: fees follow the fee formula with no silent overflow."""
from rules.base import *
from rules import codec, c04
from rules.point import *

EXPLANATION = """The fee functions are summarised by value-flow analysis over unbounded integers with every overflow condition kept explicit; for a non-zero
gas price factor the summary must be identical, for every parameter and argument value, to the formula with `None` exactly where an intermediate or
final value leaves 64 bits.  The metered size is compared with the layout position of the witnesses, before and after precomputing."""
ASSUMPTIONS = ['gas_price_factor is not zero', 'no in-memory object exceeds 2^48 bytes', 'a transaction carries no stale cached metadata']
M64 = 1 << 64


def small(v):
    return lt(v, INT(M64))


def ceil(a, b):
    return ediv(add(a, sub(b, INT(1))), b)


def param(I, p, name):
    return fld(I, I.db.by_name[p.ty], p, name)


def fee(I, p, metered, limit, price, optty):
    """the specified fee as Option<TransactionFee>"""
    fty = optty.field_tys(1)[0]
    f = param(I, p, 'gas_price_factor')

    def one(metered):
        g = mul(param(I, p, 'gas_per_byte'), metered)
        mx = add(g, limit)
        tot, byt = mul(mx, price), mul(g, price)
        vals = {'bytes': ceil(byt, f), 'total': ceil(tot, f), 'min_gas': g, 'max_gas': mx}
        ok = AND(small(g), small(mx), small(tot), small(byt), small(vals['total']), small(vals['bytes']))
        v = models.mk_adt(fty.name, 0, tuple(vals[x[0]] for x in fty.d['variants'][0]['fields']))
        return ite(ok, some(optty, v), none(optty))
    return map_leaves(one, metered)


def nonzero(I, st, p):
    st.cond = AND(st.cond, lt(INT(0), param(I, p, 'gas_price_factor')))


def values(chk):
    g = {}

    def pre(n):
        def f(I, st, args):
            p = I.freeze(st, args[0])
            nonzero(I, st, p)
            g['c'] = st.cond
        return f

    def run(path, names, want):
        def go():
            inst = codec.probe(path)
            I = chk.interp(prune=True)
            v = {}

            def p(st, args):
                v.update(zip(names, [I.freeze(st, a) for a in args]))
                nonzero(I, st, v['p'])
                g['c'] = st.cond
            r, st, args = I.analyse(inst, names=names, pre=p)
            w = c04.where(chk, I, inst)
            chk.equal(I, path.split('::')[-1], I.freeze(st, r), want(I, v, ret_ty(inst)), w, guard=st.cond, msg='the fee differs from the formula')
            chk.require(I, path.split('::')[-1] + ' returns', st.cond, w, 'may not return', guard=g['c'])
            chk.panics(I, path)
            chk.done(I)
        chk.run(path, go)
    run('checked::fee::from_values', ['p', 'metered', 'limit', 'price'], lambda I, v, rt: fee(I, v['p'], v['metered'], v['limit'], v['price'], rt))

    def refund(I, v, rt):
        q = ediv(mul(v['gas'], v['price']), param(I, v['p'], 'gas_price_factor'))
        return ite(small(q), some(rt, q), none(rt))
    run('checked::fee::refund', ['p', 'gas', 'price'], refund)


def from_tx(chk, kind):
    ty = codec.elem_type(kind)
    m = kind.lower()

    def go():
        inst = codec.probe('checked::fee::' + m)
        g = {}

        def pre(I, st, args, sym):
            g['p'] = I.freeze(st, args[1])
            nonzero(I, st, g['p'])
            g['c'] = st.cond
        I, sym, v, r, st, args = codec.analyse_tx(chk, inst, ty, ['tx', 'p'], pre=pre)
        w = c04.where(chk, I, inst)
        L = codec.tx_layout(I, ty, sym)
        f = fields_of(sym, ty)
        want = fee(I, g['p'], L.offset('witnesses'), f['gas_limit'], f['gas_price'], ret_ty(inst))
        chk.equal(I, kind + ' fee', I.freeze(st, r), want, w, guard=st.cond, msg='the fee of a transaction differs from the formula over its metered size')
        chk.require(I, kind + ' fee returns', st.cond, w, 'may not return', guard=g['c'])
        chk.panics(I, kind + ' fee')
        chk.done(I)
    chk.run(kind + ' fee', go)

    def one(name, want, stale=False):
        def go():
            inst = codec.probe('checked::fee::%s_%s' % (m, name))
            I, sym, v, r, st, args = codec.analyse_tx(chk, inst, ty, ['tx'], stale=stale)
            w = c04.where(chk, I, inst)
            chk.equal(I, '%s %s' % (kind, name), I.freeze(st, r), want(I, sym), w)
            chk.equal(I, '%s %s returns' % (kind, name), st.cond, TRUE, w)
            chk.panics(I, kind + ' ' + name)
            chk.done(I)
        chk.run(kind + ' ' + name, go)
    one('price', lambda I, s: fields_of(s, ty)['gas_price'])
    one('limit', lambda I, s: fields_of(s, ty)['gas_limit'])
    one('metered', lambda I, s: codec.tx_layout(I, ty, s).offset('witnesses'))
    one('metered_cached', lambda I, s: codec.tx_layout(I, ty, s).offset('witnesses'), stale=True)


def small_parts(chk):
    F = lambda I, v, n: fld(I, I.db.by_name[v['f'].ty], v['f'], n)
    for fn, n in (('min', 'bytes'), ('total', 'total'), ('min_gas', 'min_gas'), ('max_gas', 'max_gas'), ('into_word', 'total')):
        point(chk, 'checked::fee::' + fn, ['f'], lambda I, v, rt, n=n: F(I, v, n))
    point(chk, 'checked::fee::into_inner', ['f'], lambda I, v, rt: mkT('tup', F(I, v, 'bytes'), F(I, v, 'total')))
    point(chk, 'checked::fee::deduct', ['f', 'balance'],
          lambda I, v, rt: ite(le(F(I, v, 'total'), v['balance']), some(rt, sub(v['balance'], F(I, v, 'total'))), none(rt)))
    point(chk, 'checked::fee::new', ['bytes', 'total', 'min_gas', 'max_gas'],
          lambda I, v, rt: models.mk_adt(rt.name, 0, tuple(v[x[0]] for x in rt.d['variants'][0]['fields'])))


def check(chk, tier):
    chk.rule('checked_from_values = (gas_per_byte*metered, +limit, ceil(.*price/factor)) or None exactly on overflow; refund = floor(gas*price/factor)')
    chk.rule('checked_from_tx = that formula over (offset of witnesses, gas_limit, gas_price)')
    values(chk)
    for k in ('Script', 'Create'):
        from_tx(chk, k)
    small_parts(chk)
