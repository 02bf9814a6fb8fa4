"""Hash-consed terms and canonical decision diagrams over them (the abstract values).

A value V is a leaf term `T` or a decision-diagram node `N` whose variables test
  * an opaque boolean term            (kind 'b', 2 children: false, true)
  * the variant of an opaque enum     (kind 'e', one child per variant)
  * a linear form against a threshold (kind 't', 2 children: L < k, L >= k)
Diagrams are ordered and reduced, hence canonical: two computations of the same gated value give the
same object, however the source spells the control flow.
"""
import sys
from math import gcd
sys.setrecursionlimit(100000)


class T:
    __slots__ = ('op', 'args', 'id', 'ty', '_refs', '_bv', 'meta', '_fv')

    def __repr__(self):
        return show(self)


class Var:
    __slots__ = ('kind', 'key', 'order', 'n', 'k')

    def __repr__(self):
        return showvar(self)


class N:
    __slots__ = ('var', 'ch', 'id', '_refs', '_bv', '_fv')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]
_vars = {}
_fam = [0]


def nid():
    _cnt[0] += 1
    return _cnt[0]


def mkT(op, *args, ty=None):
    key = (op,) + tuple(a.id if isinstance(a, (T, N)) else (('#',) + a if isinstance(a, tuple) and not _has(a) else
                                                           ('@',) + tuple(_kid(x) for x in a) if isinstance(a, tuple) else ('$', a, type(a).__name__)) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = nid()
        t.ty = ty
        t._refs = None
        t._bv = None
        t._fv = None
        t.meta = None
        _tab[key] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


def _has(a):
    return any(isinstance(x, (T, N)) or (isinstance(x, tuple) and _has(x)) for x in a)


def _kid(x):
    if isinstance(x, (T, N)):
        return x.id
    if isinstance(x, tuple):
        return ('@',) + tuple(_kid(y) for y in x)
    return ('$', x, type(x).__name__)


TRUE = mkT('true')
FALSE = mkT('false')
UNDEF = mkT('undef')      # value on infeasible control flow only


def INT(n):
    return mkT('int', n)


def BOOL(b):
    return TRUE if b else FALSE


def var_bool(t):
    v = _vars.get(('b', t.id))
    if v is None:
        v = Var()
        v.kind, v.key, v.n, v.k = 'b', t, 2, 0
        _fam[0] += 1
        v.order = (_fam[0], 0)
        _vars[('b', t.id)] = v
    return v


def var_enum(t, n):
    v = _vars.get(('e', t.id))
    if v is None:
        v = Var()
        v.kind, v.key, v.n, v.k = 'e', t, n, 0
        _fam[0] += 1
        v.order = (_fam[0], 0)
        _vars[('e', t.id)] = v
    return v


_thrfam = {}


def var_thr(L, k):
    v = _vars.get(('t', L.id, k))
    if v is None:
        f = _thrfam.get(L.id)
        if f is None:
            _fam[0] += 1
            f = _thrfam[L.id] = _fam[0]
        v = Var()
        v.kind, v.key, v.n, v.k = 't', L, 2, k
        v.order = (f, k)
        _vars[('t', L.id, k)] = v
    return v


_ntab = {}
_PUSH = ('adt', 'tup', 'arr', 'clos', 'slice', 'iter', 'vecv')


def mk(var, ch):
    ch = tuple(ch)
    if var.kind == 't':
        lo = ch[0]
        while isinstance(lo, N) and lo.var.kind == 't' and lo.var.key is var.key:
            lo = lo.ch[0]
        ch = (lo, ch[1])
    first = None
    same = True
    for c in ch:
        if c is UNDEF:
            continue
        if first is None:
            first = c
        elif c is not first:
            same = False
            break
    if first is None:
        return UNDEF
    if same:
        return first
    if var.kind == 'e':
        r = _enum_eta(var, ch)
        if r is not None:
            return r
    elif var.kind == 't':
        r = _ceil_form(var, ch)
        if r is not None:
            return r
    # push gates into equal constructors
    if isinstance(first, T) and first.op in _PUSH:
        ok = True
        for c in ch:
            if c is UNDEF:
                continue
            if not isinstance(c, T) or c.op != first.op or not same_ctor(first, c):
                ok = False
                break
        if ok:
            return push_ctor(var, ch, first)
    key = (id(var),) + tuple(c.id for c in ch)
    n = _ntab.get(key)
    if n is None:
        n = N()
        n.var = var
        n.ch = ch
        n.id = nid()
        n._refs = None
        n._bv = None
        n._fv = None
        _ntab[key] = n
    return n


def is_fld(f, t, i, j):
    """f denotes field j of variant i of the opaque term t"""
    if isinstance(f, N):
        if f.var.kind != 'b' or f.ch[0] is not FALSE or f.ch[1] is not TRUE:
            return False
        f = f.var.key
    return f.op == 'fld' and f.args[0] is t and f.args[1] == i and f.args[2] == j


def _enum_eta(var, ch):
    t = var.key
    for i, c in enumerate(ch):
        if c is UNDEF or c is t:
            continue
        if not isinstance(c, T) or c.op != 'adt' or c.args[1] != i or c.args[0] != t.ty:
            return None
        for j, f in enumerate(c.args[2]):
            if not is_fld(f, t, i, j):
                return None
    return t


def _ceil_form(var, ch):
    """{x mod n >= 1 ? r + n*(x div n) + n : r + x}  =  r + n*((x+n-1) div n)"""
    if var.k != 1 or var.key.op != 'lin' or not isinstance(ch[0], T) or not isinstance(ch[1], T):
        return None
    if ch[0].op not in _ARITH or ch[1].op not in _ARITH:
        return None
    M = var.key
    for d, c in M.args[1]:
        if d.op == 'div' and c < 0 and d.args[1].op == 'int' and d.args[1].args[0] == -c:
            n = -c
            x = d.args[0]
            if _add(_add(M, mk_lin(0, {d: n})), _scale(x, -1)).op != 'int':
                continue
            if _add(_add(M, mk_lin(0, {d: n})), _scale(x, -1)) is not INT(0):
                continue
            hi, lo = ch[1], ch[0]
            r1 = _add(hi, mk_lin(-n, {d: -n}))
            for cand in (_add(lo, _scale(x, -1)), _add(lo, mk_lin(0, {d: -n}))):
                if cand is r1:
                    up = ediv(_add(x, INT(n - 1)), INT(n))
                    if isinstance(up, T):
                        return _add(r1, _scale(up, n))
    return None


_ARITH = {'int', 'lin', 'len', 'div', 'mod', 'mono', 'sum', 'sym', 'fld', 'idx', 'num', 'trunc', 'size', 'app', 'min', 'deref', 'firstk', 'mget'}


def same_ctor(a, b):
    op = a.op
    if op == 'adt':
        return a.args[0] == b.args[0] and a.args[1] == b.args[1]
    if op in ('tup', 'arr', 'vecv'):
        return len(a.args) == len(b.args)
    if op == 'clos':
        return a.args[0] == b.args[0]
    if op == 'slice':
        return a.args[0] == b.args[0] and a.args[1] == b.args[1]
    if op == 'iter':
        return a.args[0] is b.args[0] and a.args[1] == b.args[1]
    return False


def push_ctor(var, ch, first):
    op = first.op

    def g(i):
        return combine(var, [UNDEF if c is UNDEF else c.args[i] for c in ch])

    def gs(i):
        return tuple(combine(var, [UNDEF if c is UNDEF else c.args[i][j] for c in ch]) for j in range(len(first.args[i])))
    if op == 'adt':
        return mkT('adt', first.args[0], first.args[1], gs(2))
    if op in ('tup', 'arr', 'vecv'):
        return mkT(op, *[g(i) for i in range(len(first.args))])
    if op == 'clos':
        return mkT('clos', first.args[0], gs(1))
    if op == 'slice':
        return mkT('slice', first.args[0], first.args[1], g(2), g(3))
    if op == 'iter':
        return mkT('iter', first.args[0], first.args[1], g(2))
    raise AssertionError


def top(*vs):
    best = None
    for v in vs:
        if isinstance(v, N) and (best is None or v.var.order < best.order):
            best = v.var
    return best


def cof(v, var, i):
    if not isinstance(v, N):
        return v
    if v.var is var:
        return v.ch[i]
    if var.kind == 't' and v.var.kind == 't' and v.var.key is var.key:
        # v.var.k > var.k (var is the minimum)
        if i == 0:
            while isinstance(v, N) and v.var.kind == 't' and v.var.key is var.key:
                v = v.ch[0]
        return v
    return v


_item = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is UNDEF:
        return UNDEF
    key = (c.id, a.id, b.id)
    r = _item.get(key)
    if r is None:
        # same-constructor leaves: gate the fields
        var = top(c, a, b)
        if var is None:
            raise AssertionError(('ite on non-boolean leaf', c))
        r = mk(var, [ite(cof(c, var, i), cof(a, var, i), cof(b, var, i)) for i in range(var.n)])
        _item[key] = r
    return r


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def NOT(c):
    return ite(c, FALSE, TRUE)


def IMPL(a, b):
    return ite(a, b, TRUE)


_resm = {}


def restrict(f, c):
    """f simplified using care set c (Coudert-Madre)."""
    if c is TRUE or not isinstance(f, N):
        if isinstance(f, T) and f.op in _AGG and c is not TRUE and c is not FALSE:
            return _restrict_agg(f, c)
        return f if c is not FALSE else UNDEF
    if c is FALSE:
        return UNDEF
    key = (f.id, c.id)
    r = _resm.get(key)
    if r is not None:
        return r
    var = top(f, c)
    fc = [cof(f, var, i) for i in range(var.n)]
    cc = [cof(c, var, i) for i in range(var.n)]
    if not isinstance(f, N) or (f.var is not var and not (f.var.kind == 't' and var.kind == 't' and f.var.key is var.key)):
        cx = OR(*cc)
        r = restrict(f, cx)
    else:
        live = [i for i in range(var.n) if cc[i] is not FALSE]
        if len(live) == 1:
            r = restrict(fc[live[0]], cc[live[0]])
        else:
            r = mk(var, [restrict(fc[i], cc[i]) if cc[i] is not FALSE else UNDEF for i in range(var.n)])
    _resm[key] = r
    return r


_AGG = {'adt': (2,), 'tup': None, 'clos': (1,), 'slice': (2, 3), 'iter': (2,), 'arr': None, 'vecv': None}


def _restrict_agg(f, c):
    if not _gated(f):
        return f
    pos = _AGG[f.op]
    if pos is None:
        return mkT(f.op, *[restrict(x, c) for x in f.args], ty=f.ty)
    a = list(f.args)
    for i in pos:
        a[i] = tuple(restrict(x, c) for x in a[i]) if isinstance(a[i], tuple) else restrict(a[i], c)
    return mkT(f.op, *a, ty=f.ty)


_gm = {}


def _gated(f):
    if isinstance(f, N):
        return True
    if isinstance(f, T) and f.op in _AGG:
        r = _gm.get(f.id)
        if r is None:
            pos = _AGG[f.op]
            if pos is None:
                r = any(_gated(x) for x in f.args)
            else:
                r = any(any(_gated(y) for y in f.args[i]) if isinstance(f.args[i], tuple) else _gated(f.args[i]) for i in pos)
            _gm[f.id] = r
        return r
    return False


def map_leaves(fn, v, memo=None):
    if isinstance(v, T):
        return UNDEF if v is UNDEF else fn(v)
    if memo is None:
        memo = {}
    r = memo.get(v.id)
    if r is None:
        ch = [map_leaves(fn, c, memo) for c in v.ch]
        r = combine(v.var, ch)
        memo[v.id] = r
    return r


def combine(var, ch):
    """node over var whose children may themselves test earlier variables"""
    ok = all(not isinstance(c, N) or c.var.order > var.order for c in ch)
    if ok and not (var.kind == 't' and isinstance(ch[1], N) and ch[1].var.kind == 't' and ch[1].var.key is var.key and ch[1].var.k <= var.k):
        return mk(var, ch)
    if var.n == 2:
        return ite(lit(var, 1), ch[1], ch[0])
    r = ch[-1]
    for i in range(var.n - 2, -1, -1):
        r = ite(lit(var, i), ch[i], r)
    return r


def lit(var, i):
    return mk(var, [TRUE if j == i else FALSE for j in range(var.n)])


def apply_n(fn, *vs):
    """leafwise n-ary application"""
    memo = {}

    def go(vs):
        var = top(*vs)
        if var is None:
            for v in vs:
                if v is UNDEF:
                    return UNDEF
            return fn(*vs)
        key = tuple(v.id for v in vs)
        r = memo.get(key)
        if r is None:
            r = combine(var, [go(tuple(cof(v, var, i) for v in vs)) for i in range(var.n)])
            memo[key] = r
        return r
    return go(tuple(vs))


def leaves(v, cond=TRUE):
    """[(condition, leaf)] of a gated value, restricted to cond, leaves merged"""
    acc = {}

    def go(v, c):
        if c is FALSE:
            return
        if isinstance(v, T):
            if v in acc:
                acc[v] = OR(acc[v], c)
            else:
                acc[v] = c
            return
        for i in range(v.var.n):
            go(v.ch[i], AND(c, lit(v.var, i)))
    go(v, cond)
    return [(c, l) for l, c in acc.items()]


# ---------------------------------------------------------------- arithmetic
BIG = 1 << 300


def lin_parts(t):
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict((a, c) for a, c in t.args[1])
    return 0, {t: 1}


def mk_lin(c, parts):
    parts = {a: k for a, k in parts.items() if k != 0}
    if not parts:
        return INT(c)
    if c == 0 and len(parts) == 1:
        (a, k), = parts.items()
        if k == 1:
            return a
    return mkT('lin', c, tuple(sorted(parts.items(), key=lambda x: x[0].id)))


def _add(a, b):
    c1, p1 = lin_parts(a)
    c2, p2 = lin_parts(b)
    for t, k in p2.items():
        p1[t] = p1.get(t, 0) + k
    return mk_lin(c1 + c2, p1)


def _scale(a, n):
    c, p = lin_parts(a)
    return mk_lin(c * n, {t: k * n for t, k in p.items()})


def _nonarith(a):
    return a.op in ('true', 'false', 'adt', 'tup', 'ref', 'slice', 'clos', 'arr')


def add(a, b):
    return apply_n(_add, a, b)


def scale(a, n):
    return map_leaves(lambda t: _scale(t, n), a)


def sub(a, b):
    return apply_n(lambda x, y: _add(x, _scale(y, -1)), a, b)


def _mul(a, b):
    if a.op == 'int':
        return _scale(b, a.args[0])
    if b.op == 'int':
        return _scale(a, b.args[0])
    c1, p1 = lin_parts(a)
    c2, p2 = lin_parts(b)
    # distribute products of linear forms over canonical monomials
    acc = INT(c1 * c2)
    for t, k in p1.items():
        acc = _add(acc, mk_lin(0, {t: k * c2}))
    for t, k in p2.items():
        acc = _add(acc, mk_lin(0, {t: k * c1}))
    for t, k in p1.items():
        for u, m in p2.items():
            acc = _add(acc, mk_lin(0, {mono(t, u): k * m}))
    return acc


def mono(t, u):
    fs = []
    for x in (t, u):
        fs.extend(x.args if x.op == 'mono' else [x])
    fs.sort(key=lambda x: x.id)
    return mkT('mono', *fs)


def mul(a, b):
    return apply_n(_mul, a, b)


def ediv(a, b):
    """floor division (b > 0 on the path)"""
    def f(x, y):
        if x.op == 'int' and y.op == 'int' and y.args[0] != 0:
            return INT(x.args[0] // y.args[0])
        if y.op == 'int' and y.args[0] == 1:
            return x
        if y.op == 'int' and y.args[0] > 0:
            # split off multiples: (k*q + r) // k
            n = y.args[0]
            c, p = lin_parts(x)
            q = {t: k // n for t, k in p.items()}
            r = {t: k % n for t, k in p.items()}
            rest = mk_lin(c % n, r)
            base = mk_lin(c // n, q)
            if rest.op == 'int':
                return base
            lo, hi = bounds(rest)
            if lo is not None and hi is not None and lo // n == hi // n:
                return _add(base, INT(lo // n))
            return _add(base, mkT('div', rest, y))
        return mkT('div', x, y)
    return apply_n(f, a, b)


def emod(a, b):
    def f(x, y):
        if x.op == 'int' and y.op == 'int' and y.args[0] != 0:
            return INT(x.args[0] % y.args[0])
        if y.op == 'int' and y.args[0] > 0:
            # x - y*floor(x/y)
            return _add(x, _scale(ediv(x, y), -y.args[0])) if isinstance(ediv(x, y), T) else mkT('mod', x, y)
        return mkT('mod', x, y)
    return apply_n(f, a, b)


MAXLEN = (1 << 48) - 1      # memory model: no in-memory object exceeds 256 TiB (the address space of every supported host)
TYBITS = {}     # filled by mirdb: type id -> bits for unsigned ints


MAXTOTAL = 1 << 56             # memory model: the elements of one in-memory collection have less than 2^56 bytes of data in total


def _sizelike(l):
    """an amount of data held in memory by one element"""
    if l.op == 'int':
        return 0 <= l.args[0] <= 1024
    if l.op in ('size', 'len'):
        return True
    if l.op == 'lin':
        return 0 <= l.args[0] <= 1024 and all(0 < k <= 16 and _sizelike(a) for a, k in l.args[1])
    if l.op == 'div':
        return l.args[1].op == 'int' and l.args[1].args[0] >= 1 and _sizelike(l.args[0])
    return False


def bounds(t):
    op = t.op
    if op == 'int':
        return t.args[0], t.args[0]
    if op == 'lin':
        lo = hi = t.args[0]
        for a, k in t.args[1]:
            l, h = bounds(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        # x - n*floor(x/n) is a remainder
        return lo, hi
    if op == 'len':
        return 0, MAXLEN
    if op == 'div':
        l, h = bounds(t.args[0])
        n = t.args[1]
        if n.op == 'int' and n.args[0] > 0:
            return (None if l is None else l // n.args[0]), (None if h is None else h // n.args[0])
        if l is not None and l >= 0:
            return 0, h
        return None, None
    if op == 'mod':
        n = t.args[1]
        if n.op == 'int':
            return 0, n.args[0] - 1
        return 0, None
    if op == 'mono':
        ls = [bounds(x) for x in t.args]
        if all(l is not None and l >= 0 for l, h in ls):
            lo = 1
            hi = 1
            for l, h in ls:
                lo *= l
                hi = None if hi is None or h is None else hi * h
            return lo, hi
        return None, None
    if op == 'sum':
        b = vbounds(t.args[2])
        if b[0] is not None and b[0] >= 0:
            n = bounds(t.args[0]) if isinstance(t.args[0], T) else (0, None)
            if all(_sizelike(l) for l in leafset(t.args[2])):
                return 0, MAXTOTAL
            return 0, (n[1] * b[1] if n[1] is not None and b[1] is not None and n[1] >= 0 else None)
        return None, None
    if op == 'firstk':
        n = bounds(t.args[0]) if isinstance(t.args[0], T) else (0, None)
        return 0, (None if n[1] is None else max(n[1] - 1, 0))
    if op == 'bv':
        return 0, MAXLEN
    if op == 'min':
        bs = [bounds(x) for x in t.args]
        lo = None if any(b[0] is None for b in bs) else min(b[0] for b in bs)
        his = [b[1] for b in bs if b[1] is not None]
        return lo, (min(his) if his else None)
    if op == 'max':
        bs = [bounds(x) for x in t.args]
        los = [b[0] for b in bs if b[0] is not None]
        hi = None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
        return (max(los) if los else None), hi
    if op in ('byte',):
        return 0, 255
    if op == 'adv':
        return 0, None
    if op == 'size':
        return 0, MAXLEN
    if t.meta is not None and isinstance(t.meta, tuple) and t.meta[0] == 'bounds':
        return t.meta[1], t.meta[2]
    b = TYBITS.get(t.ty)
    if b:
        return 0, (1 << b) - 1
    return None, None


SUMMAX = None


def vbounds(v):
    if isinstance(v, T):
        return bounds(v)
    lo, hi = 0, 0
    first = True
    for _, l in leaves(v):
        a, b = bounds(l)
        if first:
            lo, hi, first = a, b, False
        else:
            lo = None if lo is None or a is None else min(lo, a)
            hi = None if hi is None or b is None else max(hi, b)
    return lo, hi


def ge0(v):
    """condition v >= 0"""
    return map_leaves(_ge0, v)


_HOOK_GE = []


def _ge0(t):
    c, p = lin_parts(t)
    if not p:
        return BOOL(c >= 0)
    items = sorted(p.items(), key=lambda x: x[0].id)
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    neg = items[0][1] < 0
    # sum k t >= -c
    if not neg:
        M = mk_lin(0, {t: k // g for t, k in items})
        k = -((c) // g)  # ceil(-c/g)
        return _thr(M, k)
    M = mk_lin(0, {t: -k // g for t, k in items})
    # -g*M >= -c  <=>  M <= floor(c/g)  <=> not (M >= floor(c/g)+1)
    k = c // g + 1
    return NOT(_thr(M, k))


def _thr(M, k):
    lo, hi = bounds(M)
    if lo is not None and lo >= k:
        return TRUE
    if hi is not None and hi < k:
        return FALSE
    if M.op == 'div' and M.args[1].op == 'int' and M.args[1].args[0] > 0:
        # floor(x/n) >= k  <=>  x >= k*n
        return _ge0(_add(M.args[0], INT(-k * M.args[1].args[0])))
    if M.op == 'lin':
        r = _rem_bounds(M, k)
        if r is not None:
            return r
    for h in _HOOK_GE:
        r = h(M, k)
        if r is not None:
            return r
    return mk(var_thr(M, k), (FALSE, TRUE))


def _rem_bounds(M, k):
    # recognise +-(x - n*div(x,n)) (+ nothing else)
    ps = dict(M.args[1])
    for t, c in M.args[1]:
        if t.op == 'div' and t.args[1].op == 'int':
            n = t.args[1].args[0]
            for s in (1, -1):
                if c == -s * n:
                    want = _scale(t.args[0], s)
                    rest = _add(M, mk_lin(0, {t: -c}))
                    d = _add(rest, _scale(want, -1))
                    lo, hi = (0, n - 1) if s == 1 else (-(n - 1), 0)
                    dl, dh = bounds(d)
                    if dl is not None and lo + dl >= k:
                        return TRUE
                    if dh is not None and hi + dh < k:
                        return FALSE
    return None


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), INT(-1)))


def eq_int(a, b):
    d = sub(a, b)
    r = AND(ge0(d), ge0(scale(d, -1)))
    # a value of a narrow type equals only what that type can hold
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op in ('fld', 'sym') and isinstance(y, T) and y.op != 'int':
            lo, hi = vbounds(x)
            if hi is not None and hi < 1 << 16:
                h = vbounds(y)[1]
                if h is None or h > hi:
                    r = AND(r, ge0(sub(INT(hi), y)))
    return r


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- show
def showvar(v):
    if v.kind == 'b':
        return show(v.key)
    if v.kind == 'e':
        return 'variant(%s)' % show(v.key)
    return '%s>=%d' % (show(v.key), v.k)


NAMES = {}


def show(v, d=0):
    if d > 14:
        return '..'
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, d + 1) for x in v) + ')'
    if isinstance(v, N):
        if v.var.n == 2:
            return '{%s ? %s : %s}' % (showvar(v.var), show(v.ch[1], d + 1), show(v.ch[0], d + 1))
        return '{%s | %s}' % (showvar(v.var), ' | '.join('%d:%s' % (i, show(c, d + 1)) for i, c in enumerate(v.ch)))
    if not isinstance(v, T):
        return str(v)
    op, a = v.op, v.args
    if op == 'int':
        return str(a[0])
    if op == 'sym':
        return str(a[0])
    if op in ('true', 'false', 'undef'):
        return op
    if op == 'lin':
        return '(' + '+'.join(([str(a[0])] if a[0] else []) + [('%d*' % k if k != 1 else '') + show(t, d + 1) for t, k in a[1]]) + ')'
    if op == 'fld':
        f = NAMES.get('field')
        nm = f(a[0], a[1], a[2], v) if f else '%s_%s' % (a[1], a[2])
        return '%s.%s' % (show(a[0], d + 1), nm)
    if op == 'adt':
        f = NAMES.get('adt')
        return '%s{%s}' % (f(a[0], a[1]) if f else a[0], ','.join(show(x, d + 1) for x in a[2]))
    if op == 'idx':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    return '%s(%s)' % (op, ','.join(show(x, d + 1) for x in a))


# ---------------------------------------------------------------- substitution / binders
def rebuild(t, f):
    """rebuild leaf term t applying f (V->V) to its term children"""
    op, a = t.op, t.args
    if op in ('int', 'sym', 'true', 'false', 'undef', 'bv'):
        return t
    if op == 'lin':
        r = INT(a[0])
        for x, k in a[1]:
            r = add(r, scale(f(x), k))
        return r
    if op == 'mono':
        r = INT(1)
        for x in a:
            r = mul(r, f(x))
        return r
    if op == 'div':
        return ediv(f(a[0]), f(a[1]))
    if op == 'mod':
        return emod(f(a[0]), f(a[1]))
    h = REBUILD.get(op)
    if h:
        return h(t, f)

    def g(x):
        if isinstance(x, (T, N)):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    new = tuple(g(x) for x in a)
    if all(p is q or p == q and not isinstance(p, (T, N)) for p, q in zip(new, a)):
        return t
    if op in _PUSH or op in ('ref',):
        return mkT(op, *new, ty=t.ty)
    return lift(op, new, t.ty)


REBUILD = {}


def lift(op, args, ty=None):
    """mkT with gated direct args distributed"""
    pos = [i for i, x in enumerate(args) if isinstance(x, N)]
    if not pos:
        for x in args:
            if x is UNDEF:
                return UNDEF
        return finish(op, args, ty)

    def fn(*ls):
        na = list(args)
        for p, l in zip(pos, ls):
            na[p] = l
        return finish(op, tuple(na), ty)
    return apply_n(fn, *[args[i] for i in pos])


SMART = {}


def finish(op, args, ty=None):
    s = SMART.get(op)
    if s:
        return s(args, ty)
    return mkT(op, *args, ty=ty)


def free_syms(v):
    """frozenset of 'sym' terms in v"""
    if v._fv is not None:
        return v._fv
    if isinstance(v, N):
        s = set(free_syms(v.var.key))
        for c in v.ch:
            s |= free_syms(c)
    elif v.op == 'sym' or v.op == 'bv':
        s = {v}
    else:
        s = set()

        def g(x):
            if isinstance(x, (T, N)):
                s.update(free_syms(x))
            elif isinstance(x, tuple):
                for y in x:
                    g(y)
        for x in v.args:
            g(x)
        if v.op in BINDERS:
            s.discard(mkT('bv', v.args[1]))
    v._fv = frozenset(s)
    return v._fv


def max_bv(v):
    """largest binder level occurring in v"""
    if v._bv is not None:
        return v._bv
    m = 0
    if isinstance(v, N):
        m = max_bv(v.var.key)
        for c in v.ch:
            m = max(m, max_bv(c))
    elif v.op == 'bv':
        m = v.args[0]
    else:
        def g(x):
            r = 0
            if isinstance(x, (T, N)):
                return max_bv(x)
            if isinstance(x, tuple):
                for y in x:
                    r = max(r, g(y))
            return r
        for x in v.args:
            m = max(m, g(x))
        if v.op in BINDERS:
            m = max(m, v.args[1])
    v._bv = m
    return m


# binder terms: op(N, level, body...) with bv(level) ranging over 0..N in the bodies
BINDERS = set()
MKB = {}
_depth = [0]


def binder(op):
    BINDERS.add(op)

    def deco(f):
        MKB[op] = f
        return f
    return deco


def idxsym(name):
    t = mkT('sym', name, ty='usize')
    t.meta = ('bounds', 0, MAXLEN)
    return t


def mkbind(op, n, k, bodies, ty=None):
    """binder term from bodies over the index symbol k"""
    if n is UNDEF:
        return UNDEF
    if isinstance(n, N):
        return map_leaves(lambda l: mkbind(op, l, k, bodies, ty), n)
    if op in ('comp', 'sum', 'ex') and isinstance(n, T) and n.op == 'sum':
        r = unfilter(op, n, k, bodies, ty)
        if r is not None:
            return r
    f = MKB.get(op)
    if f is not None:
        r = f(n, k, bodies, ty)
        if r is not None:
            return r
    return close_raw(op, n, k, bodies, ty)


def unfilter(op, n, k, bodies, ty):
    """over the positions of a filtered sequence, where only the elements matter: over the positions of the underlying sequence that pass the filter"""
    def elems(x, i):
        return [e for e in subterms(x, 'idx') if e.args[1] is i and isinstance(e.args[0], T) and e.args[0].op == 'comp' and e.args[0].args[2] is not TRUE]
    es = elems(tuple(bodies), k)
    if not es or any(e.args[0] is not es[0].args[0] for e in es):
        cs = set(e.args[0] for d in subterms(tuple(bodies), 'dup') if d.args[1] is k for e in subterms(d.args[0], 'idx') if isinstance(e.args[0], T) and e.args[0].op == 'comp')
        if es or len(cs) != 1:
            return None
        C = cs.pop()
    else:
        C = es[0].args[0]
    if C.args[2] is TRUE or k in free_syms(C) or count_len(C) is not n:
        return None
    j = idxsym('?u')
    g, v = bodies_at(C, j)
    mp = {}
    for inner in [x for o in ('ex', 'sum') for x in subterms(tuple(bodies), o) if x.args[0] is k]:
        # over the earlier positions of the same filtered sequence
        with opened(inner) as (i, (b,)):
            if op == 'comp' or any(x.args[0] is k or x.args[0] is i for o in BINDERS for x in subterms(b, o)):
                return None
            ei = elems(b, i)
            if any(e.args[0] is not C for e in ei):
                return None
            gi, vi = bodies_at(C, i)
            b = replace(b, {**{e: vi for e in ei}, **{e: v for e in elems(b, k)}})
            b = restrict(b, gi)
            b = AND(gi, b) if inner.op == 'ex' else ite(gi, b, INT(0))
            if k in free_syms(b):
                return None
            w = mkbind(inner.op, j, i, (b,), inner.ty)
        mp[inner] = w
    mp.update((e, v) for e in es)
    for d in subterms(tuple(bodies), 'dup'):
        if d.args[1] is not k:
            continue
        with opened(d.args[0]) as (i, (g0, v0)):
            gi, vi = bodies_at(C, i)
            m2 = {e: vi for e in elems((g0, v0), i)}
            g1 = AND(gi, replace(g0, m2) if m2 else g0)
            v1 = restrict(replace(v0, m2) if m2 else v0, g1)
            if d.args[0].args[0] is not INT(0) or any(e.args[0] is not C for e in m2):
                return None
            S = close_raw('dupseq', INT(0), i, (g1, v1))
        mp[d] = mkT('dup', S, j, *d.args[2:], ty='bool')
    nb = [restrict(replace(restrict(b, in_range(n, k)), mp), g) for b in bodies]
    if any(k in free_syms(b) for b in nb):
        return None
    if op == 'comp':
        nb[0] = AND(g, nb[0])
    elif op == 'ex':
        nb[0] = AND(g, nb[0])
    else:
        nb[0] = ite(g, nb[0], INT(0))
    return mkbind(op, C.args[0], j, tuple(nb), ty)


def count_len(C):
    with opened(C) as (k, bs):
        return mkbind('sum', C.args[0], k, (map_leaves(lambda l: INT(1 if l is TRUE else 0), bs[0]),))


def close_raw(op, n, k, bodies, ty=None):
    lvl = 1 + max(max_bv(b) for b in bodies)
    b = mkT('bv', lvl, ty='usize')
    return mkT(op, n, lvl, *[subst(x, {k: b}) for x in bodies], ty=ty)


def bodies_at(t, val):
    """bodies of binder term t with its index replaced by val"""
    b = mkT('bv', t.args[1], ty='usize')
    return [subst(x, {b: val}) for x in t.args[2:]]


class opened:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        _depth[0] += 1
        self.k = idxsym('?%d' % _depth[0])
        return self.k, bodies_at(self.t, self.k)

    def __exit__(self, *a):
        _depth[0] -= 1


def subst(v, mp, memo=None):
    """replace sym/bv leaf terms per mp (dict T->V)"""
    return _subst(v, mp, memo, frozenset(mp))


def replace(v, mp):
    """replace whole leaf terms per mp (dict T->V)"""
    return _subst(v, mp, None, frozenset().union(*[free_syms(x) for x in mp]) if all(free_syms(x) for x in mp) else None)


def _subst(v, mp, memo, keys):
    if not mp:
        return v
    if memo is None:
        memo = {}

    def go(v):
        if keys is not None and not (free_syms(v) & keys):
            return v
        if v in mp:
            return mp[v]
        r = memo.get(v.id)
        if r is not None:
            return r
        if isinstance(v, N):
            var = v.var
            nk = go(var.key)
            if nk is var.key:
                r = combine(var, [go(c) for c in v.ch])
            else:
                ch = [go(c) for c in v.ch]
                r = regate(var, nk, ch)
        elif v.op in BINDERS:
            n2 = go(v.args[0])
            with opened(v) as (k, bs):
                nb = [go(x) for x in bs]
                if n2 is v.args[0] and all(a is b for a, b in zip(nb, bs)):
                    r = v
                else:
                    r = mkbind(v.op, n2, k, nb, v.ty)
        else:
            r = rebuild(v, go)
        memo[v.id] = r
        return r
    return go(v)


def regate(var, nk, ch):
    if var.kind == 't':
        return ite(ge0(add(nk, INT(-var.k))), ch[1], ch[0])
    if var.kind == 'b':
        return ite(as_cond(nk), ch[1], ch[0])

    def sel(leaf):
        if leaf.op == 'adt':
            return ch[leaf.args[1]]
        return combine(var_enum(leaf, var.n), ch)
    return bind(nk, sel)


def as_cond(v):
    def f(t):
        if t is TRUE or t is FALSE:
            return t
        return lit(var_bool(t), 1)
    return bind(v, f)


def bind(v, fn):
    """leafwise with results that may be gated"""
    return map_leaves(fn, v)


def cond_vars(v, out=None, seen=None):
    if out is None:
        out, seen = {}, set()
    if isinstance(v, N) and v not in seen:
        seen.add(v)
        out[id(v.var)] = v.var
        for c in v.ch:
            cond_vars(c, out, seen)
    return out


def split_free(v, k):
    """a variable of diagram v whose key does not mention k, or None"""
    best = None
    for var in cond_vars(v).values():
        if k not in free_syms(var.key):
            if best is None or var.order < best.order:
                best = var
    return best


def in_range(n, k):
    return AND(ge0(k), lt(k, n))


LIN = [None]      # facts.lin_consistent


def nested_range(g, n, k):
    """thresholds inside existentials over ranges below k that already follow from 0 <= j < k < n"""
    if LIN[0] is None or not isinstance(g, N) or not isinstance(n, T):
        return g
    memo = {}

    def inner(v, base, m):
        """thresholds of v decided by the facts in base"""
        if not isinstance(v, N):
            return v
        r = m.get(v.id)
        if r is None:
            dead = None
            if v.var.kind == 't':
                for i in (0, 1):
                    if not LIN[0](base + [(v.var.key, v.var.k, i == 1)]):
                        dead = i
            if dead is not None:
                r = inner(v.ch[1 - dead], base, m)
            else:
                r = combine(v.var, [inner(c, base, m) for c in v.ch])
            m[v.id] = r
        return r

    def go(v):
        if not isinstance(v, N):
            return v
        r = memo.get(v.id)
        if r is not None:
            return r
        ch = [go(c) for c in v.ch]
        e = v.var.key
        if v.var.kind == 'b' and e.op == 'ex' and e.args[0] is k and any(w.kind == 't' for w in cond_vars(e.args[2]).values()):
            with opened(e) as (j, bs):
                base = [(j, 0, True), (add(k, scale(j, -1)), 1, True), (add(n, scale(k, -1)), 1, True)]
                b2 = inner(bs[0], base, {})
                if b2 is not bs[0]:
                    r = ite(mkbind('ex', k, j, (b2,)), ch[1], ch[0])
        if r is None:
            r = combine(v.var, ch)
        memo[v.id] = r
        return r
    return go(g)


EX_HOOKS = []


@binder('ex')
def _mk_ex(n, k, bodies, ty):
    (g,) = bodies
    g = nested_range(restrict(g, in_range(n, k)), n, k)
    if g is UNDEF or g is FALSE:
        return FALSE
    g = ungate(undup(g, k)[0], k)
    for h in EX_HOOKS:
        r = h(n, k, g)
        if r is not None:
            return r
    if n.op == 'int' and n.args[0] <= 8:
        return OR(*[subst(g, {k: INT(i)}) for i in range(n.args[0])])
    if k not in free_syms(g):
        return AND(ge0(add(n, INT(-1))), g)
    if after_first(g, k):
        return AND(ge0(add(n, INT(-2))), mkbind('ex', add(n, INT(-1)), k, (subst(g, {k: add(k, INT(1))}),)))
    r = after_match(n, k, g)
    if r is not None:
        return mkbind('ex', r[0], k, (r[1],))
    var = split_free(g, k)
    if var is not None:
        return combine(var, [mkbind('ex', n, k, (restrict(g, lit(var, i)),)) for i in range(var.n)])
    return lit(var_bool(close_raw('ex', n, k, (g,), 'bool')), 1)


def after_match(n, k, g):
    """a search that goes on from just after the first match f of an earlier one, up to the end L of it: (L, k, 'g at k, and an earlier match before k').
    The position f, and with it the search, only means something where there is a first match"""
    if n.op != 'lin':
        return None
    for t, c in n.args[1]:
        if t.op == 'firstk' and c == -1 and add(n, t) is sub(t.args[0], INT(1)):
            g2 = subst(g, {k: sub(sub(k, t), INT(1))})
            if has_term(g2, t):
                continue
            with opened(t) as (i, bs):
                return t.args[0], AND(g2, mkbind('ex', k, i, (bs[0],)))
    return None


def ungate(e, k):
    """e' with the same existence over an initial range: an upper limit >= 2 on the number of earlier matches may be dropped when the first or the
    second match satisfies e anyway (an index beyond the limit has that match before it, where the limit is not reached)"""
    for var in list(cond_vars(e).values()):
        if var.kind != 't' or not isinstance(var.key, T) or var.key.op != 'sum' or var.key.args[0] is not k or not isinstance(var.k, int) or var.k < 2:
            continue
        if not all(l.op == 'int' and l.args[0] in (0, 1) for l in leafset(var.key.args[2])):
            continue
        e1 = restrict(e, lit(var, 0))
        if k not in free_syms(e1):
            continue
        with opened(var.key) as (i, bs):
            c = OR(*[d for d, l in leaves(bs[0], TRUE) if l is INT(1)])
            m = AND(subst(c, {i: k}), mkbind('ex', k, i, (map_leaves(lambda l: BOOL(l is INT(1)), bs[0]),)))
        if m is not FALSE and AND(m, NOT(e1)) is FALSE:
            e = e1
    return e


def undup(e, k):
    """(e', literal): existence (and first occurrence) of an index with e is that of e', which drops the requirement that no equal element passes
    earlier, when e depends on the index only through the element; literal is what was dropped"""
    dropped = TRUE
    for var in list(cond_vars(e).values()):
        if var.kind != 'b' or not isinstance(var.key, T) or var.key.op != 'dup' or var.key.args[1] is not k:
            continue
        if restrict(e, lit(var, 1)) is not FALSE:
            continue
        r = restrict(e, lit(var, 0))
        S = var.key.args[0]
        with opened(S) as (j, bs):
            g, v = [subst(x, {j: k}) for x in bs]
        if AND(r, NOT(g)) is not FALSE or not by_element(r, g, v, k):
            continue
        e = r
        dropped = AND(dropped, lit(var, 0))
    return e, dropped


def by_element(r, g, v, k):
    """r (which implies g) depends on k only through the value v(k)"""
    form = None
    consts = []
    for c, t in leaves(v, g):
        if t is UNDEF:
            return False
        ri = restrict(r, AND(g, c))
        if k not in free_syms(t):
            if k in free_syms(ri):
                return False
            consts.append((t, ri))
            continue
        e = mkT('sym', '?elem', ty=t.ty)
        ri = replace(ri, {t: e})
        if k in free_syms(ri) or form is not None and form[0] is not ri:
            return False
        form = (ri, e)
    if form is None:
        return True
    return all(subst(form[0], {form[1]: t}) is ri for t, ri in consts)


def after_first(g, k):
    """condition g says that position k is not the first"""
    for var in cond_vars(g).values():
        if var.kind == 't' and var.key is k and var.k >= 1:
            return restrict(g, NOT(ge0(add(k, INT(-1))))) is FALSE
    return False


@binder('firstk')
def _mk_firstk(n, k, bodies, ty):
    (g,) = bodies
    g = undup(g, k)[0]
    g = restrict(g, in_range(n, k))
    if g is UNDEF:
        return UNDEF
    if k not in free_syms(g):
        return INT(0)
    if n.op == 'int' and n.args[0] <= 8:
        r = INT(0)
        for i in range(n.args[0] - 1, -1, -1):
            r = ite(subst(g, {k: INT(i)}), INT(i), r)
        return r
    r = after_match(n, k, g)
    if r is not None:
        f = [t for t, c in n.args[1] if t.op == 'firstk' and c == -1][0]
        return sub(sub(mkbind('firstk', r[0], k, (r[1],)), f), INT(1))
    var = split_free(g, k)
    if var is not None:
        return combine(var, [mkbind('firstk', n, k, (restrict(g, lit(var, i)),)) for i in range(var.n)])
    t = close_raw('firstk', n, k, (g,), 'usize')
    return t


@binder('sum')
def _mk_sum(n, k, bodies, ty):
    (f,) = bodies
    f = restrict(f, in_range(n, k))
    if f is UNDEF or n is INT(0):
        return INT(0)
    if n.op == 'int' and n.args[0] <= 8:
        r = INT(0)
        for i in range(n.args[0]):
            r = add(r, subst(f, {k: INT(i)}))
        return r
    if k not in free_syms(f):
        return mul(n, f)
    var = split_free(f, k)
    if var is not None:
        return combine(var, [mkbind('sum', n, k, (restrict(f, lit(var, i)),)) for i in range(var.n)])
    # one atom per monomial
    atoms = set()
    for l in leafset(f):
        c, p = lin_parts(l)
        if c:
            atoms.add(None)
        atoms.update(p)
    total = INT(0)
    for a in sorted(atoms, key=lambda x: -1 if x is None else x.id):
        def coef(l):
            c, p = lin_parts(l)
            return INT(c if a is None else p.get(a, 0))
        d = map_leaves(coef, f)
        g = 0
        for l in leafset(d):
            g = gcd(g, abs(l.args[0]))
        if g == 0:
            continue
        d = map_leaves(lambda l: INT(l.args[0] // g), d)
        if isinstance(d, T):
            g, d = g * d.args[0], INT(1)
        if a is None:
            body = d
            m = INT(1)
        else:
            body = map_leaves(lambda l: _scale(a, l.args[0]), d)
            m = None
        if k not in free_syms(body):
            s = mul(n, body)
        elif a is not None and k not in free_syms(a):
            s = mul(a, mkbind('sum', n, k, (d,)))
        else:
            s = close_raw('sum', n, k, (body,), 'usize')
        total = add(total, scale(s, g))
    return total


def has_term(v, t):
    return t in subterms(v, t.op)


def subterms(v, op):
    """the distinct terms with operator op inside v"""
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, (T, N)) and x not in seen:
            seen.add(x)
            if isinstance(x, N):
                go(x.var.key)
                for c in x.ch:
                    go(c)
            else:
                if x.op == op:
                    out.append(x)
                go(x.args)
    go(v)
    return out


def leafset(v):
    out = set()
    seen = set()

    def go(v):
        if isinstance(v, T):
            if v is not UNDEF:
                out.add(v)
            return
        if v in seen:
            return
        seen.add(v)
        for c in v.ch:
            go(c)
    go(v)
    return out


def _hook_count(M, j):
    """count >= 1 is existence"""
    if M.op == 'sum' and j == 1 and all(l.op == 'int' and l.args[0] in (0, 1) for l in leafset(M.args[2])):
        with opened(M) as (k, bs):
            return mkbind('ex', M.args[0], k, (map_leaves(lambda l: BOOL(l.args[0] == 1), bs[0]),))
    if M.op == 'sum' and j >= 2 and all(l.op == 'int' and l.args[0] in (0, 1) for l in leafset(M.args[2])):
        # two matches: a match with an earlier match
        with opened(M) as (k, bs):
            with opened(M) as (i, cs):
                one = lambda b: map_leaves(lambda l: BOOL(l.args[0] == 1), b)
                two = mkbind('ex', M.args[0], k, (AND(one(bs[0]), mkbind('ex', k, i, (one(cs[0]),))),))
                return two if j == 2 else AND(two, mk(var_thr(M, j), (FALSE, TRUE)))
    return None


_HOOK_GE.append(_hook_count)
