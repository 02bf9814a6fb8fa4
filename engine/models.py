"""Meaning of the std / core / alloc / dependency operations the analysed code calls, on abstract values."""
import re
import terms
from terms import *
import facts

EXACT = {}
RX = []
U64MAX = (1 << 64) - 1


def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def model_rx(*rxs):
    def deco(f):
        for rx in rxs:
            RX.append((re.compile(rx), f))
        return f
    return deco


_cache = {}


BY_NAME = {}


def model_name(name):
    """model of one implementation of a generic trait method"""
    def deco(f):
        BY_NAME[name] = f
        return f
    return deco


def find(inst):
    if inst.name in BY_NAME:
        return BY_NAME[inst.name]
    r = _cache.get(inst.key, 0)
    if r == 0:
        r = EXACT.get(inst.key)
        if r is None:
            for rx, f in RX:
                if rx.search(inst.key):
                    r = f
                    break
        _cache[inst.key] = r
    return r


# ---------------------------------------------------------------- type helpers
def tyof(I, t):
    return I.db.by_name.get(t.ty) if t.ty else None


def elem_tyname(I, tyname):
    t = I.db.by_name.get(tyname) if tyname else None
    if t is None:
        return 'u8' if tyname in ('bytes',) else None
    if t.k in ('slice', 'array'):
        return t.elem.name
    if t.k == 'str':
        return 'u8'
    if t.k == 'adt' and t.d['item'] in ('Vec', 'VecDeque'):
        a = t.targs()
        return a[0].name if a else None
    if t.k == 'adt' and t.d['item'] == 'String':
        return 'u8'
    if t.k == 'adt' and t.d['item'] == 'GenericArray':
        return 'u8'
    return None


def typed(v, tyname):
    """boolean-typed opaque terms become conditions"""
    if tyname == 'bool' and isinstance(v, T) and v not in (TRUE, FALSE):
        return as_cond(v)
    return v


def opt(I, ty, some):
    """Option of type ty: Some(some) / None when some is None"""
    if some is None:
        return mkT('adt', ty.name, 0, ())
    return mkT('adt', ty.name, 1, (some,))


def gated_opt(I, ty, cond, val):
    return ite(cond, opt(I, ty, val), opt(I, ty, None))


def res_ok(ty, v):
    return mkT('adt', ty.name, 0, (v,))


def res_err(ty, v):
    return mkT('adt', ty.name, 1, (v,))


UNIT = mkT('tup')


# ---------------------------------------------------------------- constructors
def mk_fld(t, variant, idx, fty):
    r = mkT('fld', t, variant, idx, ty=fty)
    return typed(r, fty)


DBREF = [None]


def mk_adt(tyn, variant, fields):
    # eta for structs
    if fields:
        f0 = fields[0]
        if isinstance(f0, N) and f0.var.kind == 'b':
            f0 = f0.var.key
        if isinstance(f0, T) and f0.op == 'fld' and f0.args[1] == 0 and f0.args[2] == 0 and variant == 0:
            t = f0.args[0]
            if t.ty == tyn and all(is_fld(f, t, 0, j) for j, f in enumerate(fields)):
                ty = DBREF[0].by_name.get(tyn) if DBREF[0] else None
                if ty is not None and (ty.k == 'tuple' or ty.d.get('adt') == 'struct'):
                    return t
    return mkT('adt', tyn, variant, tuple(fields))


def mk_arr(elems, tyname):
    # [t[0],..,t[n-1]] = t
    if elems and isinstance(elems[0], T) and elems[0].op == 'idx' and elems[0].args[1] is INT(0):
        t = elems[0].args[0]
        if all(isinstance(e, T) and e.op == 'idx' and e.args[0] is t and e.args[1] is INT(i) for i, e in enumerate(elems)) and tyname and t.ty == tyname:
            return t
    return mkT('arr', *elems)


@binder('comp')
def _mk_comp(n, k, bodies, ty):
    g, v = bodies
    rng = in_range(n, k)
    g = restrict(g, rng)
    if g is FALSE or g is UNDEF or n is INT(0):
        return mkT('arr')
    v = restrict(v, AND(rng, g))
    if g is TRUE and isinstance(v, T) and v.op == 'idx' and k not in free_syms(v.args[0]) and isinstance(v.args[1], T):
        off = terms._add(v.args[1], terms._scale(k, -1))
        if k not in free_syms(off):
            return sub_content(None, v.args[0], off, n)
    if n.op == 'int' and n.args[0] <= 64 and isinstance(g, T):
        return mk_arr([subst(v, {k: INT(i)}) for i in range(n.args[0])], None)
    return close_raw('comp', n, k, (g, v), ty)


def mk_comp(n, guard, val, k=None, ty=None):
    if k is None:
        k = idxsym('?c')
    return mkbind('comp', n, k, (guard, val), ty)


@binder('seq')
def _mk_seq(n, k, bodies, ty):
    return close_raw('seq', n, k, bodies, ty)


def mk_seq(n, k, val):
    if isinstance(n, N):
        return map_leaves(lambda l: close_raw('seq', l, k, (val,)), n)
    return close_raw('seq', n, k, (val,))


# ---------------------------------------------------------------- contents (Vec, slice, array, str)
def content_len(I, v):
    def f(t):
        op = t.op
        if op == 'arr':
            return INT(len(t.args))
        if op == 'comp':
            if t.args[2] is TRUE:
                return t.args[0]
            with opened(t) as (k, bs):
                return mkbind('sum', t.args[0], k, (map_leaves(lambda l: INT(1 if l is TRUE else 0), bs[0]),))
        if op == 'log':
            return content_len(I, t.args[0])
        if op == 'cat':
            r = INT(0)
            for l, c in t.args:
                r = add(r, l)
            return r
        if op == 'blank':
            return t.args[0]
        if op == 'str':
            return INT(len(t.args[0].encode()))
        if op == 'bstr':
            return INT(len(t.args[0]))
        if op == 'be' or op == 'le':
            return INT(t.args[1])
        if op == 'sub':
            return t.args[2]
        if op == 'lenbytes':
            return t.args[0]
        if op == 'enc':
            return size_of(I, t.args[0])
        if op == 'rep':
            with opened(t) as (k, bs):
                return mkbind('sum', t.args[0], k, (bs[1],))
        if op == 'undef':
            return UNDEF
        ty = tyof(I, t) if I is not None else (DBREF[0].by_name.get(t.ty) if t.ty and DBREF[0] else None)
        if ty is not None and ty.k == 'array':
            return INT(ty.d['len'])
        if op in HASHLEN:
            return INT(HASHLEN[op])
        if op == 'push':
            return add(content_len(I, t.args[0]), INT(1))
        if op == 'sorted':
            return content_len(I, t.args[0])
        return mkT('len', t, ty='usize')
    return map_leaves(f, v)


HASHLEN = {'sha256': 32}


def size_of(I, x):
    """opaque serialized size of an element"""
    return mkT('size', x, ty='usize')


def provable(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return not facts.feasible(NOT(c))


def content_idx(I, t, i):
    """element i of content t (leaf t, leaf i)"""
    op = t.op
    if op == 'undef':
        return UNDEF
    if op == 'arr':
        if i.op == 'int':
            j = i.args[0]
            return t.args[j] if 0 <= j < len(t.args) else UNDEF
        if t.args and all(a is t.args[0] for a in t.args):
            return t.args[0]
        if not t.args:
            return UNDEF
        if len(t.args) <= 16:
            r = t.args[-1]
            for j in range(len(t.args) - 2, -1, -1):
                r = ite(eq_int(i, INT(j)), t.args[j], r)
            return r
        return mkT('idx', t, i)
    if op == 'comp' and t.args[2] is TRUE:
        return bodies_at(t, i)[1]
    if op == 'sorted':
        return sorted_elem(I, t.args[0], i)
    if op == 'bstr' and i.op == 'int':
        return INT(t.args[0][i.args[0]])
    if op == 'log':
        base, ents = t.args
        r = None
        conds = []
        for off, ln, c in reversed(ents):
            inside = AND(le(off, i), lt(i, add(off, ln)))
            if inside is FALSE:
                continue
            conds.append((inside, off, c))
            if inside is TRUE:
                break
        if conds and conds[-1][0] is TRUE:
            r = idx_v(I, conds[-1][2], sub(i, conds[-1][1]))
            conds.pop()
        else:
            r = idx_v(I, base, i)
        for cnd, off, c in reversed(conds):
            r = ite(cnd, idx_v(I, c, sub(i, off)), r)
        return r
    if op == 'cat':
        off = INT(0)
        for ln, c in t.args:
            inside = AND(le(off, i), lt(i, add(off, ln)))
            if inside is TRUE:
                return idx_v(I, c, sub(i, off))
            off = add(off, ln)
        return mkT('idx', t, i, ty='u8')
    if op == 'sub':
        return idx_v(I, t.args[0], add(t.args[1], i))
    if op == 'push':
        n = content_len(I, t.args[0])
        return ite(eq_int(i, n), t.args[1], idx_v(I, t.args[0], i))
    if op == 'blank':
        return UNDEF
    tn = t.ty
    e = elem_tyname(I, tn) if I is not None else (elem_tyname_db(tn))
    if op in ('str', 'be', 'le', 'enc', 'sha256'):
        e = 'u8'
    r = mkT('idx', t, i, ty=e)
    return typed(r, e)


class _DBI:
    @property
    def db(self):
        return DBREF[0]


_dbi = _DBI()


def elem_tyname_db(tn):
    return elem_tyname(_dbi, tn)


def idx_v(I, v, i):
    return apply_n(lambda a, b: content_idx(I, a, b), v, i)


def sorted_elem(I, t, k):
    """element k of content t in ascending order"""
    v = content_idx(I, t, k) if t.op != 'comp' else bodies_at(t, k)[1]
    tys = set(x.args[0] if x.op == 'adt' else x.ty for x in leafset(v) if x.op != 'undef')
    return mkT('idx', mkT('sorted', t), k, ty=tys.pop() if len(tys) == 1 else None)


def content_upd(I, t, i, v):
    old = content_idx(I, t, i)
    if old is v:
        return t
    if t.op == 'arr' and i.op == 'int' and 0 <= i.args[0] < len(t.args):
        a = list(t.args)
        a[i.args[0]] = v
        return mk_arr(a, t.ty)
    if t.op == 'comp' and False:
        return t
    return content_write(I, t, i, INT(1), mkT('arr', v))


def write_v(I, v, off, ln, c):
    return apply_n(lambda a, o, l, x: content_write(I, a, o, l, x), v, off, ln, c)


def content_write(I, t, off, ln, c):
    """content t with [off, off+ln) replaced by content c (all leaves)"""
    if ln is INT(0) or t is UNDEF or c is UNDEF:
        return t
    n = content_len(I, t)
    if off is INT(0) and ln is n:
        return c
    if t.op == 'arr' and off.op == 'int' and ln.op == 'int' and c.op == 'arr':
        a = list(t.args)
        a[off.args[0]:off.args[0] + ln.args[0]] = c.args
        return mk_arr(a, t.ty)
    if t.op == 'log':
        base, ents = t.args
    elif t.op == 'cat':
        base, ents = mkT('blank', n), []
        o = INT(0)
        for l, x in t.args:
            ents.append((o, l, x))
            o = add(o, l)
    else:
        base, ents = t, ()
    if c.op == 'cat':
        # write the parts one by one
        r = t
        o = off
        for l, x in c.args:
            r = write_v(I, r, o, l, x)
            o = add(o, l)
        return r
    if c.op in ('sub', 'idx') or True:
        # writing back what is there changes nothing
        cur = sub_content(I, base, off, ln) if not ents else None
        if cur is c:
            return t
    ents = list(ents)
    out = []
    placed = False
    end = terms._add(off, ln)
    for e in ents:
        eo, el, ec = e
        eend = terms._add(eo, el)
        if placed:
            if not provable(le(end, eo)):
                if provable(AND(le(off, eo), le(eend, end))):
                    continue
                from interp import Unsupported
                raise Unsupported(('overlapping write', show(off), show(ln), show(eo), show(el)))
            out.append(e)
            continue
        if eo is off and el is ln:
            out.append((off, ln, c))
            placed = True
            continue
        if provable(le(eend, off)):
            out.append(e)
            continue
        if provable(le(end, eo)):
            out.append((off, ln, c))
            out.append(e)
            placed = True
            continue
        if provable(AND(le(eo, off), le(end, eend))):
            ncn = content_write(I, ec, sub(off, eo), ln, c)
            out.append((eo, el, ncn))
            placed = True
            continue
        if provable(AND(le(off, eo), le(eend, end))):
            continue
        from interp import Unsupported
        raise Unsupported(('overlapping write', show(off), show(ln), show(eo), show(el)))
    if not placed:
        out.append((off, ln, c))
    out = coalesce(out)
    return mk_log(I, base, out)


def coalesce(ents):
    """merge adjacent comps / constants written element by element"""
    out = []
    for off, ln, c in ents:
        if out:
            po, pl, pc = out[-1]
            if terms._add(po, pl) is off:
                if pc.op == 'arr' and c.op == 'arr':
                    out[-1] = (po, terms._add(pl, ln), mkT('arr', *(pc.args + c.args)))
                    continue
        out.append((off, ln, c))
    return out


def mk_log(I, base, ents):
    n = content_len(I, base)
    # complete cover -> cat
    pos = INT(0)
    ok = True
    for off, ln, c in ents:
        if off is not pos:
            ok = False
            break
        pos = terms._add(off, ln)
    if ok and pos is n:
        return mk_cat(I, [(ln, c) for off, ln, c in ents])
    return mkT('log', base, tuple(ents), ty=base.ty)


def mk_cat(I, parts):
    out = []
    for ln, c in parts:
        if ln is INT(0):
            continue
        if c.op == 'cat':
            out.extend(c.args)
        else:
            out.append((ln, c))
    flat = []
    for ln, c in out:
        if flat:
            pl, pc = flat[-1]
            if pc.op == 'arr' and c.op == 'arr':
                flat[-1] = (terms._add(pl, ln), mkT('arr', *(pc.args + c.args)))
                continue
            # adjacent slices of the same content
            if pc.op == 'sub' and c.op == 'sub' and pc.args[0] is c.args[0] and terms._add(pc.args[1], pc.args[2]) is c.args[1]:
                nl = terms._add(pl, ln)
                m = sub_content(I, pc.args[0], pc.args[1], nl)
                if isinstance(m, T):
                    flat[-1] = (nl, m)
                    continue
        flat.append((ln, c))
    if not flat:
        return mkT('arr')
    if len(flat) == 1:
        return flat[0][1]
    return mkT('cat', *flat)


def cat_v(I, *vs):
    """concatenation of gated contents"""
    return apply_n(lambda *cs: _cat_leaf(I, cs), *vs)


def _cat_leaf(I, cs):
    lens = [content_len(I, c) for c in cs]
    return apply_n(lambda *ls: mk_cat(I, list(zip(ls, cs))), *lens)


def sub_content(I, v, off, ln):
    return apply_n(lambda t, o, l: _sub_leaf(I, t, o, l), v, off, ln)


def _sub_leaf(I, t, off, ln):
    if ln is INT(0):
        return mkT('arr')
    n = content_len(I, t)
    if off is INT(0) and ln is n:
        return t
    op = t.op
    if op == 'undef':
        return UNDEF
    if op == 'arr' and off.op == 'int' and ln.op == 'int':
        return mk_arr(list(t.args[off.args[0]:off.args[0] + ln.args[0]]), None)
    if op == 'bstr' and off.op == 'int' and ln.op == 'int':
        return mkT('bstr', t.args[0][off.args[0]:off.args[0] + ln.args[0]])
    if op == 'sub':
        return _sub_leaf(I, t.args[0], terms._add(t.args[1], off), ln)
    if op == 'comp' and t.args[2] is TRUE:
        k = idxsym('?s')
        return mkbind('comp', ln, k, (TRUE, bodies_at(t, terms._add(k, off))[1]), t.ty)
    if op in ('log', 'cat'):
        if op == 'log':
            base, ents = t.args
        else:
            base, ents = None, []
            o = INT(0)
            for l, x in t.args:
                ents.append((o, l, x))
                o = terms._add(o, l)
        end = terms._add(off, ln)
        parts = []
        pos = off
        for eo, el, ec in ents:
            eend = terms._add(eo, el)
            if pos is end:
                break
            if eo is pos:
                if eend is end or provable(le(eend, end)):
                    parts.append((el, ec))
                    pos = eend
                    continue
                if provable(le(end, eend)):
                    parts.append((terms._add(end, terms._scale(pos, -1)), _sub_leaf(I, ec, INT(0), terms._add(end, terms._scale(pos, -1)))))
                    pos = end
                    break
                # entries that may be empty or overlap in an unknown way
                pos = None
                break
            if provable(le(eend, pos)):
                continue
            if provable(le(end, eo)):
                break
            if provable(AND(le(eo, pos), lt(pos, eend))):
                if provable(le(end, eend)):
                    l = terms._add(end, terms._scale(pos, -1))
                    parts.append((l, _sub_leaf(I, ec, terms._add(pos, terms._scale(eo, -1)), l)))
                    pos = end
                    break
                l = terms._add(eend, terms._scale(pos, -1))
                if provable(le(eend, end)):
                    parts.append((l, _sub_leaf(I, ec, terms._add(pos, terms._scale(eo, -1)), l)))
                    pos = eend
                    continue
            pos = None
            break
        if pos is not None and pos is end and all(isinstance(p[1], T) for p in parts):
            return mk_cat(I, parts)
        if pos is off and base is not None and not parts:
            # untouched part of the base
            if all(provable(OR(le(terms._add(eo, el), off), le(end, eo))) for eo, el, ec in ents):
                return _sub_leaf(I, base, off, ln)
    if op == 'rep':
        r = rep_lookup(I, t, off, ln)
        if r is not None:
            return r
    return mkT('sub', t, off, ln, ty='[%s]' % (elem_tyname(I, t.ty) or 'u8') if I is not None else None)


def sub_rebuild(t, f):
    v, o, l = t.args
    nv, no, nl = f(v), f(o), f(l)
    if nv is v and no is o and nl is l:
        return t
    return sub_content(_dbi_I(), nv, no, nl)


def _dbi_I():
    return _dbi


REBUILD['sub'] = sub_rebuild


def _rb_idx(t, f):
    v, i = t.args
    nv, ni = f(v), f(i)
    if nv is v and ni is i:
        return t
    return idx_v(_dbi, nv, ni)


REBUILD['idx'] = _rb_idx


def _rb_len(t, f):
    nv = f(t.args[0])
    return t if nv is t.args[0] else content_len(_dbi, nv)


REBUILD['len'] = _rb_len


def _rb_fld(t, f):
    b = f(t.args[0])
    if b is t.args[0]:
        return t

    def g(l):
        if l.op == 'adt':
            return l.args[2][t.args[2]] if l.args[1] == t.args[1] else UNDEF
        if l.op in ('tup',):
            return l.args[t.args[2]]
        if l is UNDEF:
            return UNDEF
        if l.ty is None and t.args[0].ty is not None:
            l.ty = t.args[0].ty
        return mk_fld(l, t.args[1], t.args[2], t.ty)
    return map_leaves(g, b)


REBUILD['fld'] = _rb_fld


def _rb_adt(t, f):
    new = tuple(f(x) for x in t.args[2])
    if all(a is b for a, b in zip(new, t.args[2])):
        return t
    return mk_adt(t.args[0], t.args[1], new)


REBUILD['adt'] = _rb_adt


def _rb_log(t, f):
    base, ents = t.args
    r = f(base)
    ch = r is not base
    out = []
    for o, l, c in ents:
        n = (f(o), f(l), f(c))
        out.append(n)
        ch = ch or any(a is not b for a, b in zip(n, (o, l, c)))
    if not ch:
        return t
    for o, l, c in out:
        r = write_v(_dbi, r, o, l, c)
    return r


REBUILD['log'] = _rb_log


def _rb_cat(t, f):
    out = []
    ch = False
    for l, c in t.args:
        n = (f(l), f(c))
        ch = ch or n[0] is not l or n[1] is not c
        out.append(n)
    if not ch:
        return t
    return cat_v(_dbi, *[c for l, c in out])


REBUILD['cat'] = _rb_cat


def _rb_arr(t, f):
    new = [f(x) for x in t.args]
    if all(a is b for a, b in zip(new, t.args)):
        return t
    return mk_arr(new, t.ty)


REBUILD['arr'] = _rb_arr


# numbers <-> bytes
def be_bytes(x, n):
    def f(t):
        if t.op == 'int':
            return mkT('arr', *[INT(b) for b in (t.args[0] & ((1 << (8 * n)) - 1)).to_bytes(n, 'big')])
        if t.op == 'num' and t.args[1] == n:
            return t.args[0]
        return mkT('be', t, n)
    return map_leaves(f, x)


def _rb_be(t, f):
    x = f(t.args[0])
    return t if x is t.args[0] else be_bytes(x, t.args[1])


REBUILD['be'] = _rb_be


def from_be(c, n):
    def f(t):
        if t.op == 'be' and t.args[1] == n:
            return t.args[0]
        if t.op == 'arr' and all(isinstance(a, T) and a.op == 'int' for a in t.args):
            r = 0
            for a in t.args:
                r = r * 256 + a.args[0]
            return INT(r)
        return mkT('num', t, n, ty='u%d' % (8 * n))
    return map_leaves(f, c)


def _rb_num(t, f):
    x = f(t.args[0])
    return t if x is t.args[0] else from_be(x, t.args[1])


REBUILD['num'] = _rb_num


def trunc(t, bits):
    lo, hi = bounds(t)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << bits):
        return t
    if t.op == 'trunc' and t.args[1] >= bits:
        return trunc(t.args[0], bits)
    return mkT('trunc', t, bits, ty='u%d' % bits if bits in (8, 16, 32, 64, 128) else None) if bits in (8, 16, 32, 64, 128) else _tb(t, bits)


def _tb(t, bits):
    r = mkT('trunc', t, bits)
    if r.meta is None:
        r.meta = ('bounds', 0, (1 << bits) - 1)
    return r


def _rb_trunc(t, f):
    x = f(t.args[0])
    return t if x is t.args[0] else map_leaves(lambda l: trunc(l, t.args[1]), x)


REBUILD['trunc'] = _rb_trunc


def rep_lookup(I, t, off, ln):
    return None


# ---------------------------------------------------------------- equality
def eq_val(I, a, b):
    return apply_n(lambda x, y: _eq_leaf(I, x, y), a, b)


def _eq_leaf(I, x, y):
    if x is y:
        return TRUE
    if x.op in ('true', 'false') and y.op in ('true', 'false'):
        return FALSE
    if x.op == 'int' and y.op == 'int':
        return BOOL(x.args[0] == y.args[0])
    if x.op == 'adt' and y.op == 'adt':
        if x.args[1] != y.args[1]:
            return FALSE
        return AND(*[eq_val(I, p, q) for p, q in zip(x.args[2], y.args[2])])
    if x.op == 'tup' and y.op == 'tup':
        return AND(*[eq_val(I, p, q) for p, q in zip(x.args, y.args)])
    for u, w in ((x, y), (y, x)):
        if u.op == 'adt' and w.ty and w.op not in ('adt',):
            ty = DBREF[0].by_name.get(u.args[0])
            if ty is not None and ty.k == 'adt' and ty.d['adt'] == 'struct':
                w.ty = w.ty or u.args[0]
                fts = ty.field_tys(0)
                return AND(*[eq_val(I, p, mk_fld(w, 0, j, fts[j].name)) for j, p in enumerate(u.args[2])])
    if {x.op, y.op} <= {'arr', 'str', 'bstr'} and {x.op, y.op} & {'str', 'bstr'}:
        # a literal text beside a text of known layout
        if content_len(I, x) is not content_len(I, y):
            return FALSE
        lit_ = [t if t.op == 'arr' else mkT('arr', *[INT(b) for b in (t.args[0].encode() if t.op == 'str' else t.args[0])]) for t in (x, y)]
        return _eq_leaf(I, *lit_)
    if 'hexc' in (x.op, y.op) and 'int' in (x.op, y.op):
        import textmodels
        return textmodels.same_char(*((x, y) if x.op == 'hexc' else (y, x)))
    if x.op == 'arr' and y.op == 'arr':
        if len(x.args) != len(y.args):
            return FALSE
        if all(p.op == 'int' for p in x.args + y.args if isinstance(p, T)) and all(isinstance(p, T) for p in x.args + y.args):
            return FALSE
        return AND(*[eq_val(I, p, q) for p, q in zip(x.args, y.args)])
    tx = x.ty or y.ty
    ty = DBREF[0].by_name.get(tx) if tx else None
    if x.ty and x.ty == y.ty and ty is not None and ty.k == 'adt' and ty.d['adt'] == 'struct' and ty.d['krate'] in ('fuel_tx', 'fuel_types') \
            and x.op in ('sym', 'fld', 'idx') and y.op in ('sym', 'fld', 'idx'):
        fts = ty.field_tys(0)
        return AND(*[eq_val(I, mk_fld(x, 0, j, t.name), mk_fld(y, 0, j, t.name)) for j, t in enumerate(fts)])
    if ty is not None and ty.k in ('int', 'char'):
        return eq_int(x, y)
    a, b = sorted((x, y), key=lambda t: t.id)
    if a.op == 'be' and b.op == 'be' and a.args[1] == b.args[1]:
        return eq_int(a.args[0], b.args[0])
    return as_cond(mkT('eq', a, b, ty='bool'))


def _rb_eq(t, f):
    a, b = f(t.args[0]), f(t.args[1])
    if a is t.args[0] and b is t.args[1]:
        return t
    return eq_val(_dbi, a, b)


REBUILD['eq'] = _rb_eq


# ---------------------------------------------------------------- maps
def map_get(I, t, key):
    """value stored under key (present or default context)"""
    if isinstance(t, N):
        return map_leaves(lambda l: map_get(I, l, key), t)
    if t.op == 'mput':
        e = eq_val(I, t.args[1], key)
        return ite(e, t.args[2], map_get(I, t.args[0], key))
    if t.op == 'madd':       # default-inserted entry
        return map_get(I, t.args[0], key)
    if t.op == 'mapnew':
        return INT(0)
    return mkT('mget', t, key, ty='u64')


def map_put(I, t, key, v):
    if t.op == 'mput' and t.args[1] is key:
        return map_put(I, t.args[0], key, v)
    return mkT('mput', t, key, v)


# ---------------------------------------------------------------- misc hooks used by interp
EMPTY_CONTAINERS = {'Vec': lambda: mkT('arr'), 'String': lambda: mkT('arr'), 'BTreeMap': lambda: mkT('mapnew'), 'HashMap': lambda: mkT('mapnew')}


def inv_variant(I, t, ty):
    return None


def arg_is_mut(I, inst, i):
    return True


def transmute(I, st, a, sty, dty):
    if sty is not None and dty is not None:
        if sty.k == 'ptr' or sty.k == 'ref':
            return a
        if sty.k == 'adt' and dty.k == 'ptr':
            return map_leaves(lambda t: t.args[2][0] if t.op == 'adt' else mk_fld(t, 0, 0, None), a)
    return map_leaves(lambda t: mkT('transmute', t, dty.name, ty=dty.name), a)
