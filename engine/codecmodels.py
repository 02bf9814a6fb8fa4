"""Meaning of the byte helpers of the fuel-types dependency (a crate the analysed repository does not contain), and the
contracts that let a composite encoder or decoder be analysed over opaque elements."""
import terms
from terms import *
import facts
from models import *
from models import model, model_rx
import models
from interp import Unsupported
from stdmodels import as_slice, write_slice, UNIT


def padded(n):
    return mul(INT(8), ediv(add(n, INT(7)), INT(8)))


def eof(I, st):
    for d in I.db.insts:
        if d.key == 'fuel_types::bytes::use_std::eof':
            return I.run_inst(d, [], st)
    raise Unsupported('eof')


def slice_parts(s):
    return map_leaves(lambda x: x.args[2], s), map_leaves(lambda x: x.args[3], s)


def skip(s, n):
    """sub-slice after n bytes"""
    return apply_n(lambda l, k: mkT('slice', l.args[0], l.args[1], add(l.args[2], k), sub(l.args[3], k)), s, n)


def fork(I, st, c, then, els):
    """evaluate then/els under c / not c on copies of the state; merge"""
    from interp import merge
    a, b = st.copy(), st.copy()
    a.cond, b.cond = AND(st.cond, c), AND(st.cond, NOT(c))
    if b.cond is not FALSE and I.infeasible(b.cond):
        # not reachable: the branch condition follows from the path condition
        st.cond = AND(st.cond, c) if False else st.cond
        r = then(st)
        return r
    if a.cond is not FALSE:
        a.roots[('ret', 0)] = then(a)
    if b.cond is not FALSE:
        b.roots[('ret', 0)] = els(b)
    m = merge([a, b])
    if m is None:
        st.cond = FALSE
        return UNDEF
    v = m.roots.pop(('ret', 0))
    st.roots, st.cond = m.roots, m.cond
    return v


def wslice(I, st, d, off, n, c):
    """write content c of length n at offset off of slice d"""
    if n is INT(0):
        return
    dd = apply_n(lambda l, k: mkT('slice', l.args[0], l.args[1], add(l.args[2], k), l.args[3]), d, off)
    write_slice(I, st, dd, n, c)


def _store(I, st, a, dty, prefix):
    d, s = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    n = slice_parts(s)[1]
    p = padded(n)
    dl = slice_parts(d)[1]
    total = add(p, INT(8)) if prefix else p
    c = I.deref_read(st, s)

    def ok(st2):
        o = INT(0)
        if prefix:
            wslice(I, st2, d, o, INT(8), be_bytes(n, 8))
            o = INT(8)
        wslice(I, st2, d, o, n, c)
        z = sub(p, n)
        wslice(I, st2, d, add(o, n), z, mk_zeros(z))
        return res_ok(dty, mkT('tup', total, skip(d, total)))
    return fork(I, st, le(total, dl), ok, lambda s2: res_err(dty, eof(I, s2)))


def mk_zeros(n):
    return map_leaves(lambda l: mk_comp(l, TRUE, INT(0)), n)


@model('fuel_types::bytes::use_std::store_raw_bytes')
def store_raw(I, inst, a, st, dty, atys):
    return _store(I, st, a, dty, False)


@model('fuel_types::bytes::use_std::store_bytes')
def store_b(I, inst, a, st, dty, atys):
    return _store(I, st, a, dty, True)


def _restore(I, st, s, n, dty, pre):
    """n bytes and their padding from slice s; pre bytes already counted"""
    p = padded(n)
    I.oblige(st, le(p, INT(U64MAX)), 'overflow', 'padded length of variable data')
    dl = slice_parts(s)[1]

    def ok(st2):
        c = apply_n(lambda l, k: sub_content(I, I.read_loc(st2, (l.args[0], l.args[1])), l.args[2], k), s, n)
        return res_ok(dty, mkT('tup', add(p, INT(pre)), c, skip(s, p)))
    return fork(I, st, le(p, dl), ok, lambda s2: res_err(dty, eof(I, s2)))


@model('fuel_types::bytes::use_std::restore_raw_bytes')
def restore_raw(I, inst, a, st, dty, atys):
    return _restore(I, st, as_slice(I, st, a[0]), a[1], dty, 0)


@model('fuel_types::bytes::use_std::restore_bytes')
def restore_b(I, inst, a, st, dty, atys):
    s = as_slice(I, st, a[0])
    dl = slice_parts(s)[1]

    def ok(st2):
        c = apply_n(lambda l: sub_content(I, I.read_loc(st2, (l.args[0], l.args[1])), l.args[2], INT(8)), s)
        n = from_be(c, 8)
        return _restore(I, st2, skip(s, INT(8)), n, dty, 8)
    return fork(I, st, le(INT(8), dl), ok, lambda s2: res_err(dty, eof(I, s2)))


@model('fuel_types::bytes::padded_len_usize')
def padded_len_usize(I, inst, a, st, dty, atys):
    p = padded(a[0])
    I.oblige(st, le(p, INT(U64MAX)), 'overflow', 'padded length')
    return p


@model('fuel_types::bytes::padded_len')
def padded_len(I, inst, a, st, dty, atys):
    return padded(slice_parts(as_slice(I, st, a[0]))[1])


# ---------------------------------------------------------------- contracts of opaque elements
# A composite codec is analysed with its elements opaque: an element x is encoded as enc(x), size(x) bytes, exactly when they
# fit, and left unchanged.  That the element codecs do that is what the element-level obligations of C02/C03 establish.
ELEMENTS = ('Input', 'Output', 'Witness', 'StorageSlot')


def elem_size(I, x):
    def f(l):
        if l.op == 'undef':
            return UNDEF
        t = tyname_of(I, l)
        if t == 'fuel_tx::transaction::types::storage::StorageSlot':
            return INT(64)
        return size_of(I, l)
    return map_leaves(f, x)


def tyname_of(I, l):
    return l.args[0] if l.op == 'adt' else l.ty


def enc_of(I, x):
    def f(l):
        if l.op == 'undef':
            return UNDEF
        return mkT('enc', l)
    return map_leaves(f, x)


def c_elem_read(I, inst, a, st, dty):
    x = I.deref_read(st, a[0])
    s = as_slice(I, st, a[1])
    n = elem_size(I, x)
    dl = slice_parts(s)[1]

    def ok(st2):
        wslice(I, st2, s, INT(0), n, enc_of(I, x))
        return res_ok(dty, n)
    return fork(I, st, le(n, dl), ok, lambda s2: res_err(dty, eof(I, s2)))


def c_elem_size(I, inst, a, st, dty):
    return elem_size(I, I.deref_read(st, a[0]))


def c_elem_write(I, inst, a, st, dty):
    """decoding an element from the rest of the buffer: the element encoded there if it is one, else an opaque outcome"""
    s = as_slice(I, st, a[1])
    ety = inst.self_ty.name

    def parts(l):
        base = I.read_loc(st, (l.args[0], l.args[1]))
        return base
    ls = leaves(restrict(s, st.cond))
    if len(ls) != 1:
        raise Unsupported('decode from a gated slice')
    l = ls[0][1]
    base = I.read_loc(st, (l.args[0], l.args[1]))
    I.cur_cond = st.cond
    if isinstance(base, T):
        x = elem_at(I, base, l.args[2], ety)
        if x is None:
            # the offset may be an element boundary written differently
            for eo, el, ec in content_entries(I, base):
                if ec.op in ('enc', 'rep') and isinstance(eo, T) and eo is not l.args[2] and I.infeasible(AND(st.cond, NOT(eq_int(eo, l.args[2])))):
                    x = elem_at(I, base, eo, ety)
                    if x is not None:
                        break
        if x is not None:
            n = elem_size(I, x)

            def ok(st2):
                I.write_loc(st2, ref_loc(a[0]), x)
                return res_ok(dty, n)
            return fork(I, st, le(n, l.args[3]), ok, lambda s2: res_err(dty, eof(I, s2)))
        if I.opts.get('roundtrip') is not None and content_entries(I, base):
            I.opts['roundtrip'].append((st.cond, ety, l.args[2], I.stack[-1].inst.name if I.stack else '?', getattr(I, 'cur_line', 0)))
    rest = sub_content(I, base, l.args[2], l.args[3])
    okc = as_cond(lift('decok', (ety, rest), 'bool'))
    # an output, witness or slot decodes from exactly the size of the decoded value (element obligation of C08); an input may not
    n = lift('decn', (ety, rest), 'usize') if ety.endswith('::Input') else elem_size(I, lift('dec', (ety, rest), ety))

    def ok(st2):
        # an element decoder consumes no more than it was given (element obligation of C08)
        st2.cond = AND(st2.cond, le(n, l.args[3]), le(INT(1), n))
        I.write_loc(st2, ref_loc(a[0]), lift('dec', (ety, rest), ety))
        return res_ok(dty, n)
    old = I.deref_read(st, a[0])

    def bad(st2):
        I.write_loc(st2, ref_loc(a[0]), mkT('sym', 'havoc-partial', ty=ety))
        return res_err(dty, lift('decerr', (ety, rest), dty.field_tys(1)[0].name))
    return fork(I, st, okc, ok, bad)


def ref_loc(r):
    if isinstance(r, T) and r.op == 'ref':
        return (r.args[0], r.args[1])
    raise Unsupported('decode into a gated reference')


def elem_at(I, base, off, ety):
    """the element whose encoding starts at offset off of content base"""
    ents = content_entries(I, base)
    for eo, el, ec in ents:
        if ec.op == 'enc' and eo is off:
            return ec.args[0] if tyname_of(I, ec.args[0]) == ety else None
        if ec.op == 'rep':
            d = terms._add(off, terms._scale(eo, -1))
            with opened(ec) as (j, bs):
                ch, ln = bs
                if not (isinstance(ch, T) and ch.op == 'enc' and tyname_of(I, ch.args[0]) == ety):
                    continue
                kk = None
                if d is INT(0):
                    kk = INT(0)
                elif d.op == 'sum':
                    with opened(d) as (j2, b2):
                        if subst(b2[0], {j2: j}) is ln:
                            kk = d.args[0]
                elif ln.op == 'int' and ln.args[0] > 0:
                    c, p = lin_parts(d)
                    if c % ln.args[0] == 0 and all(v % ln.args[0] == 0 for v in p.values()):
                        kk = mk_lin(c // ln.args[0], {q: v // ln.args[0] for q, v in p.items()})
                if kk is None:
                    continue
                if provable(AND(le(INT(0), kk), lt(kk, ec.args[0]))) or in_scope_lt(I, kk, ec.args[0]):
                    return subst(ch.args[0], {j: kk})
    return None


def in_scope_lt(I, kk, n):
    return getattr(I, 'cur_cond', None) is not None and I.infeasible(AND(I.cur_cond, NOT(AND(le(INT(0), kk), lt(kk, n)))))


def content_entries(I, base):
    if base.op == 'log':
        return list(base.args[1])
    if base.op == 'cat':
        out, o = [], INT(0)
        for l, c in base.args:
            out.append((o, l, c))
            o = terms._add(o, l)
        return out
    if base.op in ('rep', 'enc'):
        return [(INT(0), content_len(I, base), base)]
    return []


def element_rules(db):
    """contract rules for the element codecs"""
    ids = {}
    for d in db.insts:
        if d.krate == 'fuel_tx' and d.d['self'] is not None and not d.d['closure'] and d.d.get('trait'):
            t = d.self_ty
            if t.k == 'adt' and t.d['item'] in ELEMENTS:
                if d.item == 'read':
                    ids[d.id] = c_elem_read
                elif d.item == 'write':
                    ids[d.id] = c_elem_write
                elif d.item == 'serialized_size':
                    ids[d.id] = c_elem_size
    return [((lambda inst, i=i: inst.id == i), h) for i, h in ids.items()]


def c_to_bytes(I, inst, a, st, dty):
    """`to_bytes` of a transaction or element is its encoding (established by C02/C03); cached metadata is not part of it"""
    x = I.freeze(st, I.deref_read(st, a[0]))
    ty = inst.self_ty

    def f(l):
        if l is UNDEF:
            return UNDEF
        if l.op != 'adt':
            return mkT('enc', l) if ty.d['item'] in ELEMENTS else None
        fs = l.args[2]
        out = []
        for j, t in enumerate(ty.field_tys(l.args[1])):
            v = fs[j]
            if t.k == 'adt' and t.d['item'] == 'Option' and l.args[0] == ty.name and ty.d['item'] in ('Script', 'Create', 'Mint'):
                # the metadata field: must be empty here
                ls = leaves(restrict(v, st.cond))
                if not all(y.op == 'adt' and y.args[1] == 0 for _, y in ls):
                    return None
            out.append(v)
        return mkT('enc', mkT('adt', l.args[0], l.args[1], tuple(out)))
    bad = []

    def g(l):
        r = f(l)
        if r is None:
            bad.append(l)
            return UNDEF
        return r
    r = map_leaves(g, x)
    return NotImplemented if bad else r


def tx_rules(db):
    """element contracts and `to_bytes` as the encoding"""
    r = element_rules(db)
    ids = {}
    for d in db.insts:
        if d.item == 'to_bytes' and d.d['self'] is not None and (d.d.get('trait') or '').endswith('SerializableVec'):
            t = d.self_ty
            if t.k == 'adt' and t.d['item'] in set(ELEMENTS) | {'Script', 'Create', 'Mint'}:
                ids[d.id] = c_to_bytes
    return r + [((lambda inst, i=i: inst.id == i), h) for i, h in ids.items()]
