"""Loop summarisation: a natural loop (or an iterator consumer) is replaced by closed forms of what it carries.

Carried components are found by a widening pass over the body, then each is classified: induction variable,
partial sum, disjunction / conjunction flag, appended sequence, element-wise update, contiguous buffer writes,
map accumulation, constant scatter.  Early exits become Ex(N, cond) with values at the first witness index.
A component that fits no class becomes a `havoc` value (unknown), never a guess."""
import terms
from terms import *
import facts
from interp import State, merge, refs_of, Unsupported
import models

_muc = [0]
_hv = [0]
STATS = {'loops': 0, 'havoc': 0}
MUDEBUG = []


def fresh_mu(cur):
    _muc[0] += 1
    isb = all(l in (TRUE, FALSE) for l in leafset(cur)) and cur is not UNDEF
    ty = 'bool' if isb else None
    if isinstance(cur, T) and not isb:
        ty = cur.ty
    elif not isb:
        tys = set(l.ty for l in leafset(cur))
        if len(tys) == 1:
            ty = tys.pop()
        ops = set((l.op, l.args[0] if l.op == 'adt' else None) for l in leafset(cur))
        if len(ops) == 1 and list(ops)[0][0] == 'adt':
            ty = list(ops)[0][1]
    t = mkT('sym', 'mu%d' % _muc[0], ty=ty)
    if isinstance(cur, T) and cur.op == 'adt':
        t.ty = cur.args[0]
    return t, (as_cond(t) if isb else t)


def havoc(ty=None):
    _hv[0] += 1
    STATS['havoc'] += 1
    return mkT('sym', 'havoc%d' % _hv[0], ty=ty)


def generalize(cur, new, mus):
    """pattern covering cur and new; new mu symbols are recorded in mus: mu -> (init component, pattern value)"""
    if cur is new or new is UNDEF:
        return cur
    if isinstance(cur, T) and cur in mus:
        return cur
    if isinstance(cur, N) and cur.var.kind == 'b' and cur.var.key in mus and cur.ch[0] is FALSE and cur.ch[1] is TRUE:
        return cur
    if isinstance(new, N) or isinstance(cur, N) or (cur.op == 'adt') != (new.op == 'adt'):
        # opaque, rebuilt or gated struct values: field by field
        ls = [l for l in leafset(cur) | leafset(new) if l is not UNDEF]
        names = {l.args[0] for l in ls if l.op == 'adt'}
        if len(names) == 1 and not any(l in mus for l in ls if l.op != 'adt'):
            tyn = next(iter(names))
            if all(struct_parts(l, tyn) is not None for l in ls):
                n = len(struct_parts(ls[0], tyn))
                pt = lambda v, i: map_leaves(lambda l: l if l is UNDEF else struct_parts(l, tyn)[i], v)
                return mkT('adt', tyn, 0, tuple(generalize(pt(cur, i), pt(new, i), mus) for i in range(n)))
    if isinstance(cur, T) and isinstance(new, T) and cur.op == new.op and cur.op in ('adt', 'tup', 'iter', 'slice', 'clos') and same_ctor(cur, new):
        op = cur.op
        g = generalize
        if op == 'adt':
            return mkT('adt', cur.args[0], cur.args[1], tuple(g(a, b, mus) for a, b in zip(cur.args[2], new.args[2])))
        if op == 'tup':
            return mkT('tup', *[g(a, b, mus) for a, b in zip(cur.args, new.args)])
        if op == 'clos':
            return mkT('clos', cur.args[0], tuple(g(a, b, mus) for a, b in zip(cur.args[1], new.args[1])))
        if op == 'slice':
            return mkT('slice', cur.args[0], cur.args[1], g(cur.args[2], new.args[2], mus), g(cur.args[3], new.args[3], mus))
        if op == 'iter':
            return mkT('iter', cur.args[0], cur.args[1], g(cur.args[2], new.args[2], mus))
    if isinstance(cur, N) and all(l is UNDEF or l.op == 'iter' for l in leafset(cur)):
        # iterators chosen by a condition fixed before the loop: branch by branch
        g = _by_branch(cur, new, mus)
        if g is not None:
            return g
    m, val = fresh_mu(cur)
    mus[m] = cur
    return val


CARE = [TRUE]


def _by_branch(cur, new, mus):
    bad = []

    def go(c, n, g):
        if isinstance(c, N):
            return combine(c.var, [go(c.ch[i], cof(n, c.var, i), AND(g, lit(c.var, i))) for i in range(len(c.ch))])
        if c is UNDEF or n is UNDEF or g is FALSE:
            return c
        n = restrict(n, g)
        if isinstance(n, T) and same_ctor(c, n):
            return generalize(c, n, mus)
        bad.append(c)
        return c
    keep = dict(mus)
    r = go(cur, new, CARE[0])
    if bad:
        mus.clear()
        mus.update(keep)
        return None
    return r


def struct_parts(t, tyn):
    """the fields of a struct value of type tyn, opaque or not"""
    ty = models.DBREF[0].by_name.get(tyn)
    if t.op == 'undef' or ty is None or ty.k != 'adt' or ty.d['adt'] != 'struct':
        return None
    if t.op == 'adt':
        return t.args[2] if t.args[0] == tyn else None
    if t.ty != tyn:
        return None
    return [models.mk_fld(t, 0, j, x.name) for j, x in enumerate(ty.field_tys(0))]


def component(pat, new, mu, mus):
    """the part of new at the position where pat has mu"""
    res = []

    def go(p, n):
        if isinstance(p, T) and p is mu:
            res.append(n)
            return
        if isinstance(p, N):
            if p.var.kind == 'b' and p.var.key is mu:
                res.append(n)
            elif all(l is UNDEF or l.op == 'iter' for l in leafset(p)):
                for i in range(len(p.ch)):
                    go(p.ch[i], cof(n, p.var, i))
            return
        if isinstance(p, T) and p.op in ('adt', 'tup', 'iter', 'slice', 'clos') and mu in free_syms(p):
            op = p.op

            def sub_(n, getter, cnt):
                for i in range(cnt):
                    go(getter(p)[i], map_leaves(lambda l: getter(l)[i] if l is not UNDEF and l.op == op else UNDEF, n))
            if op == 'adt':
                for i in range(len(p.args[2])):
                    def part(l, i=i):
                        if l is UNDEF:
                            return UNDEF
                        if l.op == 'adt':
                            return l.args[2][i] if l.args[1] == p.args[1] else UNDEF
                        q = struct_parts(l, p.args[0])
                        return q[i] if q is not None else UNDEF
                    go(p.args[2][i], map_leaves(part, n))
            elif op == 'tup':
                sub_(n, lambda t: t.args, len(p.args))
            elif op == 'clos':
                sub_(n, lambda t: t.args[1], len(p.args[1]))
            elif op == 'slice':
                sub_(n, lambda t: t.args[2:], 2)
            elif op == 'iter':
                sub_(n, lambda t: t.args[2:], 1)
    go(pat, new)
    return res[0] if res else None


# ---------------------------------------------------------------- liveness
def liveness(body, cfg):
    bl = body['blocks']
    use = {}
    deff = {}
    for b in cfg.rpo:
        u, d = set(), set()

        def pl(p, write=False):
            if write and not p[1]:
                d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op(o):
            if o[0] in ('c', 'm'):
                pl(o[1])

        def walk(x):
            # any nested operand / place in an rvalue
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    pl(x)
                    return
                for y in x:
                    walk(y)
        for s in bl[b]['s']:
            if s[0] == '=':
                r = s[2]
                k = r[0]
                if k in ('use', 'un', 'repeat', 'cast'):
                    for o in r[1:]:
                        if isinstance(o, list) and o and o[0] in ('c', 'm'):
                            pl(o[1])
                elif k in ('bin', 'cbin'):
                    op(r[2]), op(r[3])
                elif k in ('ref', 'addr', 'reborrow', 'len', 'discr'):
                    pl(r[1])
                elif k == 'agg':
                    for o in r[4]:
                        op(o)
                else:
                    walk(r)
                pl(s[1], True)
            elif s[0] == 'sd':
                pl(s[1])
            elif s[0] == 'assume':
                op(s[1])
        t = bl[b]['t']
        if t[0] == 'switch' or t[0] == 'assert':
            op(t[1])
        elif t[0] == 'call':
            if t[1][0] == 'v':
                op(t[1][1])
            for a in t[2]:
                op(a)
            pl(t[3], True)
        elif t[0] == 'return':
            if 0 not in d:
                u.add(0)
        use[b], deff[b] = u, d
    live = {b: set() for b in cfg.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            o = set()
            for s in cfg.succ[b]:
                o |= live.get(s, set())
            n = use[b] | (o - deff[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live


def live_roots(I, fr, block, st):
    """drop this frame's locals that are dead at block and unreferenced"""
    cfg = fr.cfg
    if not hasattr(cfg, 'live'):
        cfg.live = liveness(fr.body, cfg)
    lv = cfg.live[block]
    keep = set()
    work = []
    for k, v in st.roots.items():
        if k[0] == fr.uid:
            if k[1] in lv:
                keep.add(k)
                work.append(v)
        else:
            keep.add(k)
            work.append(v)
    seen = set()
    while work:
        v = work.pop()
        if v is UNDEF or v is None:
            continue
        for r in refs_of(v):
            if r in seen:
                continue
            seen.add(r)
            if r in st.roots and r not in keep:
                keep.add(r)
                work.append(st.roots[r])
    return State({k: v for k, v in st.roots.items() if k in keep}, st.cond)


# ---------------------------------------------------------------- solving
def solve_int(I, mu, init, new, k):
    d = sub(new, mu)
    if mu in free_syms(d):
        return None
    if k not in free_syms(d):
        return add(init, mul(k, d)), d
    return add(init, mkbind('sum', k, kk, (subst(d, {k: kk}),))) if False else add(init, psum(k, d)), d


def psum(k, d):
    """sum of d(j) for j < k"""
    j = idxsym('?j%d' % id(k)) if False else idxsym('?j')
    return mkbind('sum', k, j, (subst(d, {k: j}),))


def pex(k, g):
    j = idxsym('?j')
    return mkbind('ex', k, j, (subst(g, {k: j}),))


def isint(v):
    return all(l.op in terms._ARITH or l.ty in TYBITS or (l.op == 'sym' and l.ty is None) for l in leafset(v))


def solve_one(I, mu, init, new, k, N_hint, st):
    """closed form of mu at iteration k, or None. new may mention mu and k only."""
    isb = mu.ty == 'bool'
    if mu not in free_syms(new):
        # recomputed each time
        if k not in free_syms(new):
            if new is init:
                return init
            return ite(ge0(add(k, INT(-1))), new, init)
        return ite(ge0(add(k, INT(-1))), subst(new, {k: add(k, INT(-1))}), init)
    if isb:
        v = var_bool(mu)
        r1, r0 = restrict(new, lit(v, 1)), restrict(new, lit(v, 0))
        if mu in free_syms(r1) or mu in free_syms(r0):
            return None
        if r1 is TRUE:
            return OR(init, pex(k, r0))
        if r0 is FALSE:
            return AND(init, NOT(pex(k, NOT(r1))))
        return None
    ls = leafset(new)
    if isint(new) and all(l.op in terms._ARITH or l is mu for l in ls):
        d = sub(new, mu)
        if mu not in free_syms(d):
            if k not in free_syms(d):
                return add(init, mul(k, d))
            return add(init, psum(k, d))
        return None
    # containers
    heads = set(head_of(l, mu) for l in ls)
    heads.discard('same')
    if heads == {'push'}:
        return solve_push(I, mu, init, new, k)
    if heads == {'log'}:
        return solve_log(I, mu, init, new, k)
    if heads == {'mput'}:
        return solve_map(I, mu, init, new, k)
    if heads == {'app'}:
        return solve_fold(I, mu, init, new, k)
    if heads == {'cat'}:
        return solve_cat(I, mu, init, new, k)
    # keeps the old value unless a condition holds: last write wins
    g = map_leaves(lambda l: FALSE if l is mu else TRUE, new)
    v = restrict(new, g)
    if mu not in free_syms(g) and mu not in free_syms(v):
        if k not in free_syms(v):
            return ite(pex(k, g), v, init)
        i = idxsym('?r')
        last = sub(add(k, INT(-1)), mkbind('firstk', k, i, (subst(g, {k: sub(add(k, INT(-1)), i)}),)))
        return ite(pex(k, g), subst(v, {k: last}), init)
    return None


def head_of(l, mu):
    if l is mu:
        return 'same'
    if l.op == 'push':
        return 'push'
    if l.op == 'log' and l.args[0] is mu:
        return 'log'
    if l.op == 'cat' and l.args and l.args[0][1] is mu:
        return 'cat'
    if l.op == 'mput':
        return 'mput'
    if l.op == 'app':
        return 'app'
    return l.op


def solve_push(I, mu, init, new, k):
    g = map_leaves(lambda l: FALSE if l is mu else TRUE, new)

    def pv(l):
        if l is mu:
            return UNDEF
        if l.op == 'push' and l.args[0] is mu:
            return l.args[1]
        return havoc_marker
    val = map_leaves(pv, new)
    if havoc_marker in leafset(val) or mu in free_syms(val):
        return None
    g = seen_before(I, mu, init, g, val, k)
    if g is None:
        return None
    j = idxsym('?j')
    c = mkbind('comp', k, j, (subst(g, {k: j}), subst(val, {k: j})))
    return models.cat_v(I, init, c)


def seen_before(I, mu, init, g, val, k):
    """the condition to append, where it asks whether what is appended is there already: that an equal element was appended at an earlier index"""
    for var in list(cond_vars(g).values()):
        if var.kind != 'b' or not isinstance(var.key, T) or var.key.op != 'ex' or mu not in free_syms(var.key):
            continue
        if init is not mkT('arr') or restrict(g, lit(var, 1)) is not FALSE:
            return None
        x = var.key
        ln = models.content_len(I, mu)
        with opened(x) as (i, bs):
            at = models.idx_v(I, mu, i)
            if x.args[0] is not ln or len(bs) != 1 or bs[0] is not models.eq_val(I, at, val):
                return None
        p = restrict(g, lit(var, 0))
        if mu in free_syms(p):
            return None
        S = close_raw('dupseq', INT(0), k, (p, restrict(val, p)))
        g = AND(p, NOT(as_cond(mkT('dup', S, k, 'unique', ty='bool'))))
    return g


havoc_marker = mkT('havocmark')


def solve_cat(I, mu, init, new, k):
    """byte contents appended each iteration: rep(k, chunk, size)"""
    if not isinstance(new, T):
        return None
    parts = new.args[1:]
    ch = models.mk_cat(I, list(parts))
    if mu in free_syms(ch):
        return None
    ln = models.content_len(I, ch)
    if isinstance(ln, T):
        return models.cat_v(I, init, mkrep(k, ch, ln, k))
    return None


def mkrep(n, ch, ln, k):
    j = idxsym('?j')
    return mkbind('rep', n, j, (subst(ch, {k: j}), subst(ln, {k: j})))


@binder('rep')
def _mk_rep(n, k, bodies, ty):
    ch, ln = bodies
    if n is INT(0):
        return mkT('arr')
    if n.op == 'int' and n.args[0] <= 8:
        parts = [(subst(ln, {k: INT(i)}), subst(ch, {k: INT(i)})) for i in range(n.args[0])]
        if all(isinstance(x, T) for p in parts for x in p):
            return models.mk_cat(models._dbi, parts)
    return close_raw('rep', n, k, bodies, ty)


def solve_log(I, mu, init, new, k):
    # all leaves: mu or log(mu, entries)
    if not isinstance(init, T):
        return None
    leaves_ = [l for l in leafset(new) if l is not mu]
    offs, ends = set(), set()
    # element-wise write at off0 + k
    j = idxsym('?j')
    cand = None
    for l in leaves_:
        ents = l.args[1]
        if len(ents) != 1:
            cand = None
            break
        off, ln, c = ents[0]
        if ln is not INT(1) or c.op != 'arr':
            cand = None
            break
        o0 = terms._add(off, terms._scale(k, -1))
        if k in free_syms(o0) or mu in free_syms(o0):
            cand = None
            break
        if cand is None:
            cand = o0
        elif cand is not o0:
            cand = None
            break
    if cand is not None:
        o0 = cand
        here = terms._add(o0, k)

        def val(l):
            if l is mu:
                return models.content_idx(I, init, here) if isinstance(init, T) else models.idx_v(I, init, here)
            return l.args[1][0][2].args[0]
        v = map_leaves(val, new)
        # an element not yet visited still has its initial value
        v = rewrite_idx(I, v, mu, here, init)
        if mu in free_syms(v):
            return None
        c = mkbind('comp', k, j, (TRUE, subst(v, {k: j})))
        return models.write_v(I, init, o0, k, c)
    # data-dependent single-element writes of a fixed value
    r = solve_scatter(I, mu, init, new, k, leaves_)
    if r is not None:
        return r
    # contiguous chunks
    if all(l is not mu for l in leafset(new)):
        segs = {}
        for l in leaves_:
            ents = l.args[1]
            for a, b in zip(ents, ents[1:]):
                if terms._add(a[0], a[1]) is not b[0]:
                    return None
            segs[l] = (ents[0][0], models.mk_cat(I, [(b, c) for a, b, c in ents]))
        off = map_leaves(lambda l: segs[l][0], new)
        ch = map_leaves(lambda l: segs[l][1], new)
        ln = map_leaves(lambda l: models.content_len(I, segs[l][1]) if False else lsum(l), new)
        if mu in free_syms(ch) or mu in free_syms(off) or mu in free_syms(ln):
            return None
        o0 = subst(off, {k: INT(0)})
        if add(o0, psum(k, ln)) is not off:
            return None
        return models.write_v(I, init, o0, psum(k, ln), mkrep(k, ch, ln, k))
    return None


def lsum(l):
    r = INT(0)
    for a, b, c in l.args[1]:
        r = add(r, b)
    return r


def rewrite_idx(I, v, mu, here, init):
    """idx(mu, here) -> idx(init, here)"""
    if mu not in free_syms(v):
        return v
    tgt = models.idx_v(I, mu, here)
    memo = {}

    def go(v):
        if mu not in free_syms(v):
            return v
        if isinstance(v, T) and v is tgt:
            return models.idx_v(I, init, here)
        r = memo.get(v.id)
        if r is None:
            if isinstance(v, N):
                nk = go(v.var.key)
                ch = [go(c) for c in v.ch]
                r = combine(v.var, ch) if nk is v.var.key else regate(v.var, nk, ch)
            elif v.op in BINDERS:
                r = v
            else:
                r = rebuild(v, go)
            memo[v.id] = r
        return r
    return go(v)


def solve_scatter(I, mu, init, new, k, leaves_):
    info = None
    for l in leaves_:
        ents = l.args[1]
        if len(ents) != 1:
            return None
        off, ln, c = ents[0]
        if ln is not INT(1) or c.op != 'arr':
            return None
        v = c.args[0]
        if k in free_syms(v) or mu in free_syms(v):
            return None
        if mu in free_syms(off):
            return None
        if info is None:
            info = v
        elif info is not v:
            return None
    j = idxsym('?j')
    e = idxsym('?e')
    n = models.content_len(I, init)
    # the length of mu is that of init
    new = replace_len(I, new, mu, init)
    hit = map_leaves(lambda l: FALSE if l is mu else eq_int(e, l.args[1][0][0]), new)
    if mu in free_syms(hit):
        return None
    ex = mkbind('ex', k, j, (subst(hit, {k: j}),))
    val = ite(ex, info, models.idx_v(I, init, e))
    return mkbind('comp', n, e, (TRUE, val))


def replace_len(I, v, mu, init):
    tgt = models.content_len(I, mu)
    ln = models.content_len(I, init)
    memo = {}

    def go(v):
        if mu not in free_syms(v):
            return v
        if v is tgt:
            return ln
        if v is mu:
            return v
        r = memo.get(v.id)
        if r is None:
            if isinstance(v, N):
                nk = go(v.var.key)
                ch = [go(c) for c in v.ch]
                r = combine(v.var, ch) if nk is v.var.key else regate(v.var, nk, ch)
            elif v.op in BINDERS:
                r = v
            elif v.op == 'log' and v.args[0] is mu:
                ents = tuple((go(a), go(b), go(c)) for a, b, c in v.args[1])
                r = mkT('log', mu, ents, ty=v.ty)
            else:
                r = rebuild(v, go)
            memo[v.id] = r
        return r
    return go(v)


def solve_map(I, mu, init, new, k):
    """map[key] op= value"""
    g = map_leaves(lambda l: FALSE if l is mu else TRUE, new)
    ok = [True]

    def key(l):
        if l is mu:
            return UNDEF
        if l.args[0] is not mu:
            ok[0] = False
            return UNDEF
        return l.args[1]

    def val(l):
        if l is mu:
            return UNDEF
        return l.args[2]
    ky, vl = map_leaves(key, new), map_leaves(val, new)
    if not ok[0] or mu in free_syms(ky) or mu in free_syms(g):
        return None
    # new value = f(old value of that key): abstract the old value
    old = mkT('sym', '?old', ty='u64')
    memo = {}

    def go(v):
        if mu not in free_syms(v):
            return v
        if isinstance(v, T) and v.op == 'mget' and v.args[0] is mu:
            return old
        r = memo.get(v.id)
        if r is None:
            if isinstance(v, N):
                nk = go(v.var.key)
                ch = [go(c) for c in v.ch]
                r = combine(v.var, ch) if nk is v.var.key else regate(v.var, nk, ch)
            else:
                r = rebuild(v, go)
            memo[v.id] = r
        return r
    f = go(vl)
    if mu in free_syms(f):
        return None
    j = idxsym('?j')
    return mkbind('mfold', k, j, (init, subst(g, {k: j}), subst(ky, {k: j}), subst(f, {k: j})))


@binder('mfold')
def _mk_mfold(n, k, bodies, ty):
    if n is INT(0):
        return bodies[0]
    if n.op == 'int' and n.args[0] <= 3:
        m = bodies[0]
        for i in range(n.args[0]):
            g, ky, f = [subst(b, {k: INT(i)}) for b in bodies[1:]]
            old = terms.apply_n(lambda l, q: models.map_get(None, l, q), m, ky)
            v = subst(f, {mkT('sym', '?old', ty='u64'): old})
            m = ite(g, terms.apply_n(lambda l, q, w: models.map_put(None, l, q, w), m, ky, v), m)
        return m
    if isinstance(bodies[0], N) and k not in free_syms(bodies[0]):
        return map_leaves(lambda l: mkbind('mfold', n, k, (l,) + tuple(bodies[1:])), bodies[0])
    return close_raw('mfold', n, k, bodies, ty)


def folded(pending, news, inits, sol, k):
    """components of no class, as the iteration of their step: a function of what they start from and of what the steps read"""
    step = {mu: subst(news[mu], sol) if sol else news[mu] for mu in pending}
    if any(_hidden(v) for v in step.values()) or any(_hidden(inits[mu]) for mu in pending):
        return
    d = 1 + max(_accs(step[mu]) for mu in pending)
    todo = []
    for mu in pending:
        grp = [mu]
        for m in grp:
            fs = free_syms(step[m])
            grp += [x for x in pending if x in fs and x not in grp]
        acc = {m: mkT('sym', '?acc%d_%d' % (d, i), ty=m.ty) for i, m in enumerate(grp)}
        if len(grp) > 8:
            return
        j = idxsym('?j')
        f = lambda v: subst(subst(v, {m: (as_cond(a) if m.ty == 'bool' else a) for m, a in acc.items()}), {k: j})
        todo.append((mu, mkbind('ufold', k, j, [acc[m] for m in grp] +
                                 [subst(inits[m], sol) if free_syms(inits[m]) & set(sol) else inits[m] for m in grp] + [f(step[m]) for m in grp], mu.ty)))
    for mu, t in todo:
        sol[mu] = t
    del pending[:]


def _hidden(v):
    return any(x.op == 'sym' and str(x.args[0]).startswith(('havoc', 'iterator-after')) for x in free_syms(v))


def _accs(v):
    return max([int(str(x.args[0])[4:].split('_')[0]) for x in free_syms(v) if x.op == 'sym' and str(x.args[0]).startswith('?acc') and '_' in str(x.args[0])] or [0])


@binder('ufold')
def _mk_ufold(n, k, bodies, ty):
    g = len(bodies) // 3
    if n is INT(0):
        return bodies[g]
    if n.op == 'int' and n.args[0] <= 8:
        at = list(bodies[g:2 * g])
        for i in range(n.args[0]):
            mp = {a: as_cond(v) if a.ty == 'bool' else v for a, v in zip(bodies[:g], at)}
            at = [subst(subst(b, {k: INT(i)}), mp) for b in bodies[2 * g:]]
        return at[0]
    return close_raw('ufold', n, k, bodies, ty)


def solve_fold(I, mu, init, new, k):
    """opaque accumulation acc := f(acc, x_k) (hashers, merkle trees)"""
    if isinstance(new, T) and isinstance(init, T) and init.op == 'hasher':
        parts, x = [], new
        while isinstance(x, T) and x.op == 'app' and x.args[0] == 'hash-update':
            parts.append(x.args[2])
            x = x.args[1]
        if x is mu and not any(mu in free_syms(p) for p in parts):
            ch = models.mk_cat(I, [(models.content_len(I, p), p) for p in reversed(parts)])
            ln = models.content_len(I, ch)
            if isinstance(ln, T):
                return map_leaves(lambda t: mkT('hasher', t), models.cat_v(I, init.args[0], mkrep(k, ch, ln, k)))
    acc = mkT('sym', '?acc')
    body = subst(new, {mu: acc})
    j = idxsym('?j')
    return mkbind('fold', k, j, (init, subst(body, {k: j})))


@binder('fold')
def _mk_fold(n, k, bodies, ty):
    if n is INT(0):
        return bodies[0]
    return close_raw('fold', n, k, bodies, ty)


# ---------------------------------------------------------------- the summariser
def summarise(I, st0, body, N_given=None, k=None, label='loop'):
    I.loop_depth = getattr(I, 'loop_depth', 0) + 1
    try:
        return _summarise(I, st0, body, N_given, k, label)
    finally:
        I.loop_depth -= 1


def _summarise(I, st0, body, N_given=None, k=None, label='loop'):
    """body(state) -> (conts, exits) where exits = [(tag, state)].
    Returns [(tag, state)]; tag None is the natural end (only when N_given is not None)."""
    STATS['loops'] += 1
    if k is None:
        _muc[0] += 1
        k = idxsym('k%d' % _muc[0])
    pre = st0.cond
    # what an earlier fallible step left behind counts as it is on the way here
    st0 = State({r: (restrict(v, pre) if isinstance(v, N) else v) for r, v in st0.roots.items()}, pre)
    rng = ge0(k) if N_given is None else AND(ge0(k), lt(k, N_given))
    if N_given is INT(0):
        return [(None, st0)]
    pat = {}
    mus = {}
    I.mute += 1
    try:
        for it in range(14):
            s = st0.copy()
            s.roots.update(pat)
            s.cond = AND(pre, rng)
            entry = dict(s.roots)
            conts, exits = body(s)
            m = merge(conts)
            if m is None:
                break
            changed = False
            for r, cur in entry.items():
                new = m.roots.get(r, UNDEF)
                if new is cur or new is UNDEF:
                    continue
                CARE[0] = m.cond
                p = generalize(cur, restrict(new, m.cond), mus)
                if p is not cur:
                    pat[r] = p
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop does not stabilise')
    finally:
        I.mute -= 1
    if m is None:
        # the body never continues: at most one execution
        s = st0.copy()
        s.cond = pre if N_given is None else AND(pre, ge0(add(N_given, INT(-1))))
        conts, exits = body(bind_k(s, k, INT(0)))
        out = [(tg, sub_state(x, {k: INT(0)})) for tg, x in exits]
        if N_given is not None:
            z = st0.copy()
            z.cond = AND(pre, NOT(ge0(add(N_given, INT(-1)))))
            out.append((None, z))
        return out
    # solve
    news = {}
    for mu in mus:
        for r, p in pat.items():
            if mu in free_syms(p):
                c = component(p, restrict(m.roots[r], m.cond), mu, mus)
                if c is not None:
                    news[mu] = c
                    break
    live_mus = set()
    for p in pat.values():
        live_mus |= free_syms(p) & set(mus)
    sol = {}
    pending = [mu for mu in mus if mu in live_mus]
    inits = {mu: mus[mu] for mu in pending}
    # an init may itself be stated in terms of an outer, dropped mu: resolve
    # cursors that move by amounts independent of the data they point at, then the body again with them in closed form
    if any(has_op(news[mu], 'dec') for mu in pending):
        for mu in list(pending):
            d = news[mu]
            if mu.ty != 'bool' and isint(d) and all(l.op in terms._ARITH or l is mu for l in leafset(d)) and \
                    not (free_syms(sub(d, mu)) & set(mus)) and not has_op(d, 'dec'):
                r = solve_one(I, mu, inits[mu], d, k, N_given, st0)
                if r is not None:
                    sol[mu] = r
                    pending.remove(mu)
        if sol and pending:
            s = st0.copy()
            for r, p in pat.items():
                s.roots[r] = subst(p, sol)
            s.cond = AND(pre, rng)
            I.mute += 1
            try:
                m2 = merge(body(s)[0])
            finally:
                I.mute -= 1
            if m2 is not None:
                for mu in pending:
                    for r, p in pat.items():
                        if mu in free_syms(p):
                            c = component(p, restrict(m2.roots[r], m2.cond), mu, mus)
                            if c is not None:
                                news[mu] = c
                                break
    progress = True
    while pending and progress:
        progress = False
        for mu in list(pending):
            new = subst(news[mu], sol) if sol else news[mu]
            init = subst(inits[mu], sol) if free_syms(inits[mu]) & set(sol) else inits[mu]
            others = (free_syms(new) & set(pending)) - {mu}
            if others:
                continue
            r = solve_one(I, mu, init, new, k, N_given, st0)
            if r is not None:
                sol[mu] = r
                pending.remove(mu)
                progress = True
    if pending:
        r = hypothesise(I, st0, body, pat, mus, news, sol, pending, k, rng)
        pending = [mu for mu in pending if mu not in sol]
    if pending and getattr(I, 'loop_depth', 0) == 1:
        cursors(I, mus, news, sol, pending, k, st0)
    if pending:
        folded(pending, news, inits, sol, k)
        for mu in pending:
            MUDEBUG.append((label, show(mus[mu])[:300], show(subst(news[mu], sol))[:2000]))
            h = havoc(mu.ty)
            I.notes.append('unresolved loop component in ' + label)
            sol[mu] = h
    # second pass with closed forms
    s = st0.copy()
    for r, p in pat.items():
        s.roots[r] = subst(p, sol)
    base_cond = AND(pre, rng)
    s.cond = base_cond
    entry2 = dict(s.roots)
    # unsigned components stay in range at every iteration
    nf = len(I.extra_facts)
    for r, p in pat.items():
        add_range_facts(I, p, sol, base_cond)
    for mu, v in sol.items():
        sum_facts(I, v, k, N_given, base_cond)
    no = len(I.obls)
    conts, exits = body(s)
    cc = OR(*[c.cond for c in conts]) if conts else FALSE
    care = base_cond
    cont_c = restrict(cc, care)
    out = []
    if N_given is not None:
        n = N_given
    else:
        n = find_bound(I, cc, exits, k, care)
        if n is None:
            r = by_case(I, st0, body, cont_c, k, label)
            if r is not None:
                del I.extra_facts[nf:]
                return r
        if n is None and I.opts.get('unbounded'):
            # leave at some arbitrary iteration
            ks = havoc('usize')
            for tg, x in exits:
                ne = sub_state(x, {k: ks}, base=st0)
                ne.cond = AND(ge0(ks), ne.cond)
                if ne.cond is not FALSE:
                    out.append((tg, ne))
            del I.extra_facts[nf:]
            return out
        if n is None:
            raise Unsupported(('no loop bound', label, show(cont_c)[:400]))
    inr = AND(ge0(k), lt(k, n))
    atend = NOT(lt(k, n))
    if N_given is None:
        for mu, v in sol.items():
            sum_facts(I, v, k, n, AND(base_cond, inr))
    # early exits
    early = []
    E = FALSE
    for tg, x in exits:
        c = AND(x.cond, inr)
        if c is not FALSE and I.opts.get('prune') and I.infeasible(c):
            continue
        if c is not FALSE:
            ec = restrict(c, AND(pre, inr))
            early.append((tg, x, ec))
            E = OR(E, ec)
    if E is not FALSE and len(I.obls) > no:
        # iteration k is reached only when no earlier one left the loop
        i = idxsym('?e')
        ran = NOT(mkbind('ex', k, i, (subst(E, {k: i}),)))
        keep = []
        for o in I.obls[no:]:
            if k in free_syms(o.bad):
                o.bad = AND(o.bad, ran)
                if o.bad is FALSE or facts.feasible_part(o.bad, I.extra_facts) is FALSE:
                    continue
            keep.append(o)
        I.obls[no:] = keep
    if early and E is not FALSE:
        E, nodup = terms.undup(E, k)
        if nodup is not TRUE:
            early = [(tg, State({r: (restrict(v, nodup) if k in free_syms(v) else v) for r, v in x.roots.items()}, x.cond), restrict(ec, nodup))
                     for tg, x, ec in early]
        anyx = mkbind('ex', n, k, (E,))
        fk = mkbind('firstk', n, k, (E,))
        efk = subst(E, {k: fk})
        rest = TRUE
        for i, (tg, x, ec) in enumerate(early):
            ne = sub_state(x, {k: fk}, base=st0)
            # at the first witness E holds, so only what distinguishes this exit from the others remains
            c = AND(rest, restrict(subst(ec, {k: fk}), efk)) if i < len(early) - 1 else rest
            rest = AND(rest, NOT(c))
            ne.cond = AND(pre, anyx, c)
            if ne.cond is not FALSE:
                out.append((tg, ne))
        noex = AND(pre, NOT(anyx))
        inst_facts(I, nf, k, fk, AND(pre, anyx))
    else:
        noex = pre
    inst_facts(I, nf, k, n, noex)
    # natural end
    if N_given is not None:
        z = st0.copy()
        for r, p in pat.items():
            z.roots[r] = subst(entry2[r], {k: n})
        z.cond = noex
        if z.cond is not FALSE:
            out.append((None, z))
    else:
        for tg, x in exits:
            c = AND(x.cond, atend)
            if c is FALSE:
                continue
            nc = subst(restrict(c, AND(pre, ge0(k), atend)), {k: n})
            x2 = State({r: (restrict(v, atend) if k in free_syms(v) else v) for r, v in x.roots.items()}, c)
            ne = sub_state(x2, {k: n}, base=st0)
            ne.cond = AND(noex, nc)
            if ne.cond is not FALSE:
                out.append((tg, ne))
    del I.extra_facts[nf + 200:]
    return out


def has_op(v, op, memo=None):
    out = set()
    facts.collect(v, op, out)
    return bool(out)


def bind_k(s, k, v):
    s.roots = {r: subst(x, {k: v}) if k in free_syms(x) else x for r, x in s.roots.items()}
    s.cond = subst(s.cond, {k: v})
    return s


def sub_state(x, mp, base=None):
    ks = set(mp)
    roots = {}
    memo = {}
    for r, v in x.roots.items():
        if base is not None and base.roots.get(r) is v:
            roots[r] = v
        elif free_syms(v) & ks:
            roots[r] = subst(v, mp, memo)
        else:
            roots[r] = v
    return State(roots, subst(x.cond, mp) if free_syms(x.cond) & ks else x.cond)


def inst_facts(I, nf, k, at, guard):
    """facts about iteration k also hold of the state at exit"""
    for g, V in list(I.extra_facts[nf:]):
        if k in free_syms(V):
            v2 = subst(V, {k: at})
            g2 = subst(g, {k: at})
            if isinstance(v2, T):
                I.extra_facts.append((guard, v2))


def add_range_facts(I, p, sol, guard):
    """slice lengths / offsets and unsigned integers are never negative"""
    def go(p):
        if isinstance(p, T):
            if p.op == 'slice':
                for x in p.args[2:]:
                    v = subst(x, sol)
                    for l in leafset(v):
                        if l.op == 'lin' or l.op == 'sum':
                            if isinstance(v, T):
                                I.extra_facts.append((guard, l))
            elif p.op in ('adt',):
                for x in p.args[2]:
                    go(x)
            elif p.op in ('tup',):
                for x in p.args:
                    go(x)
    go(p)


def sum_facts(I, v, k, n, guard):
    """sum(k) + f(k) <= sum(N)"""
    if n is None or not isinstance(n, T):
        return
    out = set()
    facts.collect(v, 'sum', out)
    for t in out:
        if t.args[0] is k:
            with opened(t) as (j, bs):
                lo, hi = vbounds(bs[0])
                if lo is None or lo < 0:
                    continue
                full = mkbind('sum', n, j, (bs[0],))
                d = sub(full, add(t, subst(bs[0], {j: k})))
            for l in [d] if isinstance(d, T) else []:
                I.extra_facts.append((guard, l))


def by_case(I, st0, body, cc, k, label):
    """the number of iterations depends on the case: summarise the loop in every case separately"""
    depth = getattr(I, 'case_depth', 0)
    if depth >= 2:
        return None
    for var in cond_vars(cc).values():
        fs = free_syms(var.key)
        if k in fs or any(x.op == 'sym' and str(x.args[0]).startswith(('havoc', 'mu')) for x in fs):
            continue
        out = []
        I.case_depth = depth + 1
        try:
            for i in range(var.n):
                g = AND(st0.cond, lit(var, i))
                if g is FALSE or I.infeasible(g):
                    continue
                s = st0.copy()
                s.cond = g
                s.roots = {r: (restrict(v, g) if v is not UNDEF else v) for r, v in st0.roots.items()}
                out += _summarise(I, s, body, None, None, label)
        finally:
            I.case_depth = depth
        return out
    return None


def find_bound(I, cc, exits, k, care):
    cands = []
    cvars = list(cond_vars(cc).values())
    for tg, x in exits:
        cvars += list(cond_vars(x.cond).values())
    seen = set()
    for var in cvars:
        if var.kind != 't' or id(var) in seen:
            continue
        seen.add(id(var))
        c, p = lin_parts(var.key)
        if k not in p or abs(p[k]) != 1:
            continue
        # var: key >= kk ;  coefficient +1: k >= kk - rest ; -1: k <= rest - kk
        rest = terms._add(var.key, mk_lin(0, {k: -p[k]}))
        if k in free_syms(rest):
            continue
        if p[k] == 1:
            b = terms._add(INT(var.k), terms._scale(rest, -1))
        else:
            b = terms._add(terms._add(rest, INT(-var.k)), INT(1))
        if AND(cc, NOT(lt(k, b))) is FALSE:
            cands.append(b)
    if not cands:
        return None
    cands = list(dict.fromkeys(cands))
    if len(cands) > 1:
        b = cands[0]
        for c in cands[1:]:
            b = imin(b, c)
        if isinstance(b, T):
            return b
        return cands[0]
    return cands[0]


def hypothesise(I, st0, body, pat, mus, news, sol, pending, k, rng):
    """a cursor moving through repeated chunks: offset = start + sum of the chunk sizes before k, checked inductively"""
    guesses = {}
    for r, p in pat.items():
        if not (isinstance(p, T) and p.op == 'slice'):
            continue
        root, path, off, ln = p.args
        if off not in mus or off not in pending:
            continue
        base = I.read_loc(st0, (root, path)) if root in st0.roots or root in I.const_roots else None
        if base is None:
            continue
        o0 = mus[off]
        c0, l0 = o0, (mus[ln] if ln in mus else None)
        if not isinstance(base, T) or base.op not in ('log', 'cat') or not isinstance(o0, T):
            continue
        ents = base.args[1] if base.op == 'log' else None
        if ents is None:
            ents, o = [], INT(0)
            for l, c in base.args:
                ents.append((o, l, c))
                o = terms._add(o, l)
        for eo, el, ec in ents:
            if eo is o0 and ec.op == 'rep':
                with opened(ec) as (j, bs):
                    step = subst(bs[1], {j: k})
                guesses[off] = add(o0, psum(k, step))
                if l0 is not None:
                    guesses[ln] = sub(l0, psum(k, step))
                guesses[('step', off)] = step
    if not guesses:
        return False
    trial = dict(sol)
    for mu, v in guesses.items():
        if isinstance(mu, T):
            trial[mu] = v
    s = st0.copy()
    for r, p in pat.items():
        s.roots[r] = subst(p, trial)
    s.cond = AND(st0.cond, rng)
    # a list that every iteration appends to once has grown by k
    for mu in pending:
        new = news[mu]
        if mu not in trial and isinstance(new, T) and new.op == 'push' and new.args[0] is mu and isinstance(mus[mu], T):
            l0 = models.content_len(I, mus[mu])
            if isinstance(l0, T):
                s.cond = AND(s.cond, terms.eq_int(models.content_len(I, mu), add(l0, k)))
    I.mute += 1
    try:
        conts, exits = body(s)
    finally:
        I.mute -= 1
    m = merge(conts)
    if m is None:
        return False
    news2 = {}
    for mu in mus:
        for r, p in pat.items():
            if mu in free_syms(p):
                c = component(p, restrict(m.roots[r], m.cond), mu, mus)
                if c is not None:
                    news2[mu] = c
                    break
    for mu in [x for x in guesses if isinstance(x, T)]:
        step = None
        for a, b in guesses.items():
            if isinstance(a, tuple):
                step = b
        want = add(guesses[mu], step) if ('step', mu) in guesses else sub(guesses[mu], step)
        got = subst(news2[mu], trial)
        if got is not want:
            MUDEBUG.append(('hyp', show(got)[:800], show(want)[:800]))
            return False
    for mu in [x for x in guesses if isinstance(x, T)]:
        sol[mu] = guesses[mu]
    pend = [x for x in pending if x not in sol]
    progress = True
    while pend and progress:
        progress = False
        for mu in list(pend):
            new = subst(news2[mu], sol)
            if (free_syms(new) & set(pend)) - {mu}:
                continue
            r = solve_one(I, mu, mus[mu], new, k, None, st0)
            if r is not None:
                sol[mu] = r
                pend.remove(mu)
                progress = True
    return True


def cursors(I, mus, news, sol, pending, k, st0):
    """integers that advance together by a data-dependent amount: each is its start plus or minus one common advance adv(k),
    of which only adv(0) = 0 and adv >= 0 are known"""
    deltas = {}
    for mu in pending:
        new = subst(news[mu], sol) if sol else news[mu]
        if not isint(new) or mu.ty == 'bool':
            continue
        d = sub(new, mu)
        if not isinstance(mus[mu], T) and not isint(mus[mu]):
            continue
        deltas[mu] = d
    done = set()
    for mu in list(deltas):
        if mu in done:
            continue
        d = deltas[mu]
        lo, hi = vbounds(d)
        sgn = 1
        if lo is None or lo < 0:
            d = scale(d, -1)
            lo, hi = vbounds(d)
            sgn = -1
            if lo is None or lo < 0:
                continue
        if free_syms(d) & (set(pending) - set(deltas)):
            continue
        neg = scale(d, -1)
        adv = mkT('adv', family(d, neg, deltas, done, mus, sol, k), k)
        for m2, d2 in deltas.items():
            if m2 in done:
                continue
            if d2 is d:
                sol[m2] = add(subst(mus[m2], sol), adv)
                done.add(m2)
            elif d2 is neg:
                sol[m2] = sub(subst(mus[m2], sol), adv)
                done.add(m2)
    for mu in done:
        pending.remove(mu)
    progress = bool(done)
    while pending and progress:
        progress = False
        for mu in list(pending):
            new = subst(news[mu], sol)
            if (free_syms(new) & set(pending)) - {mu}:
                continue
            r = solve_one(I, mu, subst(mus[mu], sol), new, k, None, st0)
            if r is not None:
                sol[mu] = r
                pending.remove(mu)
                progress = True


_families = {}


def family(d, neg, deltas, done, mus, sol, k):
    """name of the advance whose step is d: the same whenever the step, as a function of the advance so far and the index, is the same"""
    at, idx = mkT('sym', 'adv?', ty='usize'), mkT('sym', 'advk?', ty='usize')
    mp = {k: idx}
    for m2, d2 in deltas.items():
        if m2 not in done and (d2 is d or d2 is neg):
            init = subst(mus[m2], sol)
            mp[m2] = add(init, at) if d2 is d else sub(init, at)
    step = subst(d, mp)
    key = step.id
    if free_syms(step) & (set(mus) | {k}):
        _muc[0] += 1
        return mkT('sym', 'adv%d' % _muc[0])
    if key not in _families:
        _muc[0] += 1
        _families[key] = (mkT('sym', 'adv%d' % _muc[0]), step)
    return _families[key][0]


def _rb_adv(t, f):
    x = f(t.args[1])
    if x is t.args[1]:
        return t
    return map_leaves(lambda l: INT(0) if l is INT(0) else mkT('adv', t.args[0], l), x)


terms.REBUILD['adv'] = _rb_adv


# ---------------------------------------------------------------- MIR loops
def mir_loop(I, fr, header, st):
    allowed = fr.cfg.loops[header]
    st = live_roots(I, fr, header, st)

    def body(s):
        saved = I.entry
        I.entry = dict(s.roots), s.cond
        try:
            rets, conts, exits = I.exec_region(fr, header, s, allowed, header)
        finally:
            I.entry = saved
        return conts, exits + [('ret', r) for r in rets]
    res = summarise(I, st, body, label=fr.inst.name + ':%d' % fr.body['blocks'][header]['l'])
    out = []
    for tg, s in res:
        if tg not in ('ret', None):
            s = live_roots(I, fr, tg, s)
        out.append((tg, s))
    return out
