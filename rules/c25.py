"""C25: cached metadata is invisible to serialization, equality and hashing."""
from rules.base import *
from rules import codec, c04, elem
from rules.point import *
from rules.c19 import FIELDS

EXPLANATION = """Equality, hashing and serialization of every transaction kind are summarised on arbitrary (possibly cached) transactions.  Equality must be
the conjunction of equality of every field but the cache; the values fed to the hasher must be exactly those fields; the (name, value) pairs handed to
an arbitrary serializer must be exactly those fields; a transaction deserialized from an arbitrary sequence or map of values must carry no metadata and,
from a sequence, the i-th value in the i-th serialized field.  The binary encoding after precomputing must be the published layout, and decoding
must leave nothing cached."""
ASSUMPTIONS = ['Hash, PartialEq and Serialize of the standard collections and of the element types are determined by their contents']


def names_of(ty):
    return [f[0] for f in ty.d['variants'][0]['fields']]


def check(chk, tier):
    chk.rule('eq(a, b) = all fields but metadata equal')
    chk.rule('hashed values = all fields but metadata')
    chk.rule('binary encoding and size after precompute are those of the layout; decoding leaves metadata None')
    chk.rule('serialized (name, value) pairs = all fields but metadata; deserialized metadata is None')
    for kind in codec.TXKINDS:
        ty = codec.elem_type(kind)
        m = kind.lower()
        fs = FIELDS[kind]
        chk.require(None, 'fields of ' + kind, set(names_of(ty)) == set(fs) | {'metadata'}, ty.name, 'fields are %s' % names_of(ty))

        def same(I, v, rt, ty=ty, fs=fs):
            return AND(*[eqv(I, fld(I, ty, v['a'], n), fld(I, ty, v['b'], n)) for n in fs])
        point(chk, 'compare::%s::eq' % m, ['a', 'b'], same, label=kind + ' equality', msg='equality does not consider exactly the serialized fields')
        point(chk, 'compare::%s::ne' % m, ['a', 'b'], lambda I, v, rt, s=same: NOT(s(I, v, rt)), label=kind + ' inequality',
              msg='inequality does not consider exactly the serialized fields')
        hashing(chk, kind, ty, fs)
        serialize(chk, kind, ty, fs)
        from_seq(chk, kind, ty)
        from_map(chk, kind, ty)
        elem.encode_tx(chk, kind, ('size', 'layout'), stale=True)
        elem.roundtrip_tx(chk, kind, cache_only=True)
    enumeration(chk)


def where(inst):
    return '%s:%s %s' % (inst.d['file'], inst.d['line'], inst.name)


def by_name(rx):
    import re
    c = re.compile(rx)
    return lambda inst: c.search(inst.name) is not None


def hashing(chk, kind, ty, fs):
    def go():
        inst = codec.probe('compare::%s::hash' % kind.lower())
        ev = []

        def rec(I, i, args, st, dty):
            ev.append((st.cond, I.freeze(st, args[0]), i))
            return mkT('tup')
        tx_ids = set(codec.elem_type(k) for k in codec.TXKINDS)

        def pred(i):
            return i.item == 'hash' and (i.d.get('trait') or '').endswith('hash::Hash') and i.d['self'] is not None and i.self_ty not in tx_ids \
                or i.item in ('write_u64', 'write_u8', 'write', 'write_usize') and (i.d.get('trait') or '').endswith('Hasher')
        I = chk.interp(contract_rules=[(pred, rec)], prune=True)
        r, st, args = I.analyse(inst, names=['a', 'h'])
        a = I.freeze(st, args[0])
        w = c04.where(chk, I, inst)
        want = {n: fld(I, ty, a, n) for n in fs}
        seen = [x for _, x, _ in ev]
        for n in fs:
            chk.require(I, '%s hash considers %s' % (kind, n), BOOL(any(c is TRUE and x is want[n] for c, x, _ in ev)), w, 'field is not hashed',
                        detail='hashed: ' + '; '.join(show(x)[:100] for x in seen))
        for c, x, i in ev:
            chk.require(I, '%s hash of %s is a field' % (kind, show(x)[:80]), BOOL(any(x is y for y in want.values())), w,
                        'something other than the serialized fields is hashed', detail=show(x)[:400])
        chk.panics(I, kind + ' hash')
        chk.done(I)
    chk.run(kind + ' hash', go)


def events(chk, path, **kw):
    inst = codec.probe(path)
    ev, asked, taken = [], [], []

    def put(I, i, args, st, dty):
        ev.append((st.cond, I.freeze(st, args[0]), I.freeze(st, args[1]), args[0]))
        return models.res_ok(dty, mkT('tup'))

    def ask(I, i, args, st, dty):
        asked.append(I.freeze(st, args[0]))
        return mkT('tup')

    def take(I, i, args, st, dty):
        n = len(taken)
        t = dty.field_tys(0)[0]          # Option<T>
        v = mkT('sym', 'element%d' % n, t.field_tys(1)[0].name, ty=t.field_tys(1)[0].name)
        taken.append(v)
        return models.res_ok(dty, models.mk_adt(t.name, 1, (typedv(t.field_tys(1)[0], v),)))
    rules = [(by_name(r'::record::put(::<|$)'), put), (by_name(r'::record::ask$'), ask)]
    if kw.get('seq'):
        rules.append((lambda i: i.item == 'next_element', take))
    else:
        def pull(I, i, args, st, dty):
            return mkT('sym', 'havoc:%s:%s' % (i.item, dty.name), dty.name, ty=dty.name)
        rules.append((lambda i: i.item in ('next_key', 'next_value'), pull))
    I = chk.interp(contract_rules=rules, prune=True, unbounded=True)
    r, st, args = I.analyse(inst, names=kw.get('names'), pre=kw.get('pre') and (lambda st, args: kw['pre'](I, st, args)))
    return I, inst, r, st, args, ev, asked, taken


def typedv(ty, v):
    return terms.as_cond(v) if ty.k == 'bool' else v


def strval(v):
    return v.args[0] if isinstance(v, T) and v.op == 'str' else None


def serialize(chk, kind, ty, fs):
    def go():
        I, inst, r, st, args, ev, asked, taken = events(chk, 'compare::serial::%s::serialize' % kind.lower(), names=['t'])
        t = I.freeze(st, args[0])
        w = c04.where(chk, I, inst)
        want = {n: fld(I, ty, t, n) for n in fs}
        for n in fs:
            chk.require(I, '%s serializes %s' % (kind, n), BOOL(any(c is TRUE and x is want[n] for c, k, x, _ in ev)), w,
                        'field is not (always) serialized', detail='serialized: ' + '; '.join('%s=%s' % (show(k)[:40], show(x)[:80]) for _, k, x, _ in ev))
        for c, k, x, _ in ev:
            chk.require(I, '%s serializes only fields: %s' % (kind, show(k)[:60]), BOOL(any(x is y for y in want.values())), w,
                        'something other than the serialized fields is handed to the serializer', detail=show(x)[:400])
        chk.require(I, kind + ' serializes each field under its own name', BOOL(len(set(k for _, k, _, _ in ev)) == len(ev)), w, 'a name is used twice')
        chk.panics(I, kind + ' serialize')
        chk.done(I)
    chk.run(kind + ' serialize', go)


def ok_leaves(I, r):
    """leaves of r that are Ok(transaction)"""
    out = []

    def f(l):
        if l is not UNDEF and l.op == 'adt' and l.args[1] == 0:
            out.append(l.args[2][0])
        return l
    map_leaves(f, r)
    return out


def meta_none(chk, I, kind, what, ty, r, w):
    n = 0
    for x in ok_leaves(I, r):
        m = fld(I, ty, x, 'metadata')

        def f(l):
            if l is UNDEF or (l.op == 'adt' and l.args[1] == 0):
                return TRUE
            if l.op == 'adt':
                return FALSE
            return mkT('sym', 'havocmeta', 'bool') if mentions_unknown(l) else FALSE
        chk.require(I, '%s %s: no metadata' % (kind, what), terms.as_cond(map_leaves(f, m)) if not isinstance(m, T) else
                    (f(m) if f(m).op != 'sym' else terms.as_cond(f(m))), w, 'a deserialized transaction carries cached metadata', detail=show(m)[:400])
        n += 1
    chk.require(I, '%s %s yields a transaction' % (kind, what), BOOL(n > 0), w, 'never succeeds')


def from_seq(chk, kind, ty):
    def go():
        I, inst, r, st, args, ev, asked, taken = events(chk, 'compare::serial::%s::from_seq' % kind.lower(), seq=True, names=[])
        w = c04.where(chk, I, inst)
        r = I.freeze(st, r)
        meta_none(chk, I, kind, 'from a sequence', ty, r, w)
        I2, _, _, st2, a2, ev, _, _ = events(chk, 'compare::serial::%s::serialize' % kind.lower(), names=['t'])
        t = I2.freeze(st2, a2[0])
        order = []
        for _, k, x, _ in ev:
            for n in names_of(ty):
                if x is fld(I, ty, t, n):
                    order.append(n)
        for i, n in enumerate(order):
            for x in ok_leaves(I, r):
                chk.equal(I, '%s from a sequence: %s is value %d' % (kind, n, i), fld(I, ty, x, n), taken[i] if i < len(taken) else UNDEF, w,
                          msg='field is not read from the position it is serialized at')
        if asked:
            chk.equal(I, kind + ' is deserialized from the names it serializes', asked[0], mkT('arr', *[k for _, k, _, _ in ev]), w,
                      msg='serialized names and names asked for differ')
        chk.panics(I, kind + ' from a sequence')
        chk.done(I)
    chk.run(kind + ' from a sequence', go)


def from_map(chk, kind, ty):
    def go():
        I, inst, r, st, args, ev, asked, taken = events(chk, 'compare::serial::%s::from_map' % kind.lower(), names=[])
        meta_none(chk, I, kind, 'from a map', ty, I.freeze(st, r), c04.where(chk, I, inst))
        chk.done(I)
    chk.run(kind + ' from a map', go)


def enumeration(chk):
    """the transaction enum compares and serializes by kind and content"""
    ety = codec.elem_type('Transaction')
    vs = ety.d['variants']

    def same(I, v, rt):
        def f(i, vn, fl):
            ty = codec.elem_type(vn)
            b = models.mk_fld(v['b'], i, 0, ty.name)
            s = AND(*[eqv(I, fld(I, ty, fl['0'], n), fld(I, ty, b, n)) for n in FIELDS[vn]])
            return mk(var_enum(v['b'], len(vs)), [s if j == i else FALSE for j in range(len(vs))])
        return per_variant(v['a'], ety, f)
    point(chk, 'compare::enumeration::eq', ['a', 'b'], same, label='Transaction equality')

    def go():
        I, inst, r, st, args, ev, asked, taken = events(chk, 'compare::serial::enumeration::serialize', names=['t'])
        t = I.freeze(st, args[0])
        w = c04.where(chk, I, inst)
        for i, v in enumerate(vs):
            ty = codec.elem_type(v['name'])
            c = mk(var_enum(t, len(vs)), [BOOL(j == i) for j in range(len(vs))])
            x = models.mk_fld(t, i, 0, ty.name)
            chk.require(I, 'Transaction::%s serializes its transaction' % v['name'], BOOL(sum(1 for cc, k, y, _ in ev if cc is c and y is x) == 1 and len(ev) == len(vs)),
                        w, 'the transaction is not what is serialized', detail='; '.join('%s: %s=%s' % (show(c)[:80], show(k)[:40], show(y)[:80]) for c, k, y, _ in ev))
        chk.require(I, 'Transaction serializes each kind under its own name', BOOL(len(set(k for _, k, _, _ in ev)) == len(vs)), w, 'a name is used twice')
        chk.done(I)
    chk.run('Transaction serialize', go)
