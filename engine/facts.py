"""Entailment in the abstract domain: a condition diagram is feasible iff one of its cubes is consistent
with (a) the linear facts of its threshold literals, term bounds and division remainders, and (b) the
quantifier facts of its Ex / firstk literals (a monadic theory over one index domain)."""
import terms
from math import gcd
from terms import *

CUBE_LIMIT = 60000
STATS = {'cubes': 0, 'calls': 0, 'cut': 0}


class TooMany(Exception):
    pass


# ------------------------------------------------------------ linear facts
def lin_key(V):
    c, p = lin_parts(V)
    return c, p


def fm_infeasible(cons):
    """cons: list of (const, {atom: coef}) each meaning const + sum >= 0. True when unsatisfiable."""
    cur = []
    seen = set()

    def addc(lst, c, p):
        if not p:
            if c < 0:
                return False
            return True
        g = 0
        for k in p.values():
            g = gcd(g, abs(k))
        if g > 1:
            p = {a: k // g for a, k in p.items()}
            c = c // g          # floor: integer tightening
        key = (c, tuple(sorted((a.id, k) for a, k in p.items())))
        if key in seen:
            return True
        seen.add(key)
        lst.append((c, p))
        return True
    for c, p in cons:
        if not addc(cur, c, {a: k for a, k in p.items() if k}):
            return True
    while True:
        occ = {}
        for c, p in cur:
            for a, k in p.items():
                o = occ.setdefault(a, [0, 0])
                o[0 if k > 0 else 1] += 1
        if not occ:
            return False
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x.id))
        pos = [(c, p) for c, p in cur if p.get(a, 0) > 0]
        neg = [(c, p) for c, p in cur if p.get(a, 0) < 0]
        rest = [(c, p) for c, p in cur if a not in p]
        if len(pos) * len(neg) > 4000:
            return False
        seen = set((c, tuple(sorted((x.id, k) for x, k in p.items()))) for c, p in rest)
        cur = rest
        for c1, p1 in pos:
            for c2, p2 in neg:
                k1, k2 = p1[a], -p2[a]
                c = c1 * k2 + c2 * k1
                p = {}
                for x, k in p1.items():
                    p[x] = p.get(x, 0) + k * k2
                for x, k in p2.items():
                    p[x] = p.get(x, 0) + k * k1
                p = {x: k for x, k in p.items() if k}
                if not addc(cur, c, p):
                    return True
        if len(cur) > 3000:
            return False


def atom_facts(atoms):
    """bounds and definitional facts of the atoms; may add atoms"""
    out = []
    done = set()
    work = list(atoms)
    while work:
        a = work.pop()
        if a in done:
            continue
        done.add(a)
        lo, hi = bounds(a)
        if lo is not None:
            out.append((-lo, {a: 1}))
        if hi is not None:
            out.append((hi, {a: -1}))
        if a.op == 'div' and a.args[1].op == 'int' and isinstance(a.args[0], T):
            n = a.args[1].args[0]
            c, p = lin_parts(a.args[0])
            q = dict(p)
            q[a] = q.get(a, 0) - n
            out.append((c, q))                                    # x - n*d >= 0
            out.append((n - 1 - c, {x: -k for x, k in q.items()}))  # n-1 - x + n*d >= 0
            work.extend(p)
        if a.op == 'mod' and isinstance(a.args[0], T) and isinstance(a.args[1], T) and a.args[1].op != 'int':
            # r < m when m > 0
            c, p = lin_parts(a.args[1])
            q = dict(p)
            q[a] = q.get(a, 0) - 1
            out.append((c - 1, q))
            work.extend(p)
        if a.op == 'trunc' and isinstance(a.args[0], T):
            lo, hi = bounds(a.args[0])
            if lo is not None and lo >= 0:
                c, p = lin_parts(a.args[0])
                q = dict(p)
                q[a] = q.get(a, 0) - 1
                out.append((c, q))
                work.extend(p)
        if a.op == 'firstk':
            N = a.args[0]
            if isinstance(N, T):
                c, p = lin_parts(N)
                q = dict(p)
                q[a] = q.get(a, 0) - 1
                out.append((c - 1, q))
                work.extend(p)
        if a.op == 'min':
            for x in a.args:
                c, p = lin_parts(x)
                q = dict(p)
                q[a] = q.get(a, 0) - 1
                out.append((c, q))
                work.extend(p)
        if a.op == 'sum':
            pass
    ds = list(done)
    # 0/1 sums are bounded by their length
    for a in ds:
        if a.op == 'sum' and isinstance(a.args[0], T):
            lo, hi = terms.vbounds(a.args[2])
            if hi is not None and lo is not None:
                c, p = lin_parts(a.args[0])
                q = {x: k * hi for x, k in p.items()}
                q[a] = q.get(a, 0) - 1
                out.append((c * hi, q))
                if lo >= 0:
                    out.append((0, {a: 1}))
    return out


def lin_consistent(lits, extra=()):
    """lits: list of (L, k, positive) threshold literals. False when provably inconsistent."""
    cons = []
    for L, k, pos in lits:
        c, p = lin_parts(L)
        if pos:
            cons.append((c - k, dict(p)))
        else:
            cons.append((k - 1 - c, {a: -x for a, x in p.items()}))
    for V in extra:
        c, p = lin_parts(V)
        cons.append((c, dict(p)))
    atoms = set()
    for c, p in cons:
        atoms.update(p)
    cons += atom_facts(atoms)
    return not fm_infeasible(cons)


terms.LIN[0] = lin_consistent


# ------------------------------------------------------------ cubes
def cubes(f):
    """iterate literal lists of the cubes of condition f"""
    def go(v, acc):
        if v is FALSE or v is UNDEF:
            return
        if v is TRUE:
            yield list(acc)
            return
        if not isinstance(v, N):
            raise AssertionError(('cond leaf', v))
        for i in range(v.var.n):
            acc.append((v.var, i))
            yield from go(v.ch[i], acc)
            acc.pop()
    yield from go(f, [])


def consistent(cube, extra=(), depth=0):
    STATS['cubes'] += 1
    lits = [(v.key, v.k, i == 1) for v, i in cube if v.kind == 't']
    # an existing index: the range is not empty
    lits += [(v.key.args[0], 1, True) for v, i in cube if i == 1 and v.kind == 'b' and v.key.op == 'ex' and isinstance(v.key.args[0], T)]
    if lits and not lin_consistent(lits, extra):
        return False
    if not ex_consistent(cube, lits, extra, depth):
        return False
    if not enum_consistent(cube):
        return False
    return True


def enum_consistent(cube):
    for h in CUBE_HOOKS:
        if not h(cube):
            return False
    return True


CUBE_HOOKS = []


def ex_consistent(cube, lits, extra, depth=0):
    groups = {}
    for v, i in cube:
        if v.kind == 'b' and v.key.op == 'ex':
            groups.setdefault(v.key.args[0], ([], []))[1 - i].append(v.key)
    if not groups:
        return True
    for Nn, (pos, neg) in groups.items():
        if not pos and not neg:
            continue
        # rename all bodies to a common binder
        b = idxsym('?w%d' % depth)
        h = FALSE
        for t in neg:
            h = OR(h, bodies_at(t, b)[0])
        if Nn.op == 'firstk':
            # nothing before the first witness is one
            h = OR(h, bodies_at(Nn, b)[0])
        for t in pos:
            g = bodies_at(t, b)[0]
            body = AND(g, NOT(h))
            body = AND(body, ge0(b), lt(b, Nn))
            if body is FALSE:
                return False
            if not feasible(body, depth=depth + 1):
                return False
        # instances at terms of this domain appearing in the cube: firstk(N, .)
        fks = set()
        for v, i in cube:
            collect(v.key, 'firstk', fks)
        fks = [f for f in fks if f.args[0] is Nn]
        if fks:
            cc = TRUE
            for v, i in cube:
                cc = AND(cc, lit(v, i))
            for f in fks:
                inst = subst(h, {b: f})
                cc = AND(cc, NOT(inst))
                # the first witness of a positive Ex satisfies its own body
                for t in pos:
                    if t.args[1:] == f.args[1:]:
                        cc = AND(cc, bodies_at(t, f)[0])
            if cc is FALSE:
                return False
            base = frozenset((v, i) for v, i in cube)
            ok = False
            n = 0
            for c2 in cubes(cc):
                n += 1
                l2 = [(v.key, v.k, i == 1) for v, i in c2 if v.kind == 't']
                if (not l2 or lin_consistent(l2, extra)) and (depth or nested_consistent(c2, fks, l2, extra, depth + 1)):
                    ok = True
                    break
                if n > 200:
                    ok = True
                    break
            if not ok:
                return False
    return True


def nested_consistent(cube, fks, lits, extra, depth):
    """the literals of a cube that quantify below one of the given indices"""
    return ex_consistent([(v, i) for v, i in cube if v.kind == 'b' and v.key.op == 'ex' and v.key.args[0] in fks], lits, extra, depth)


def collect(v, op, out, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, tuple):
        for x in v:
            collect(x, op, out, seen)
        return
    if not isinstance(v, (T, N)) or v in seen:
        return
    seen.add(v)
    if isinstance(v, N):
        collect(v.var.key, op, out, seen)
        for c in v.ch:
            collect(c, op, out, seen)
        return
    if v.op == op:
        out.add(v)
    for x in v.args:
        collect(x, op, out, seen)


_fmemo = {}


def feasible(cond, extra=(), depth=0):
    """False when every cube of cond is inconsistent"""
    if cond is FALSE or cond is UNDEF:
        return False
    if cond is TRUE:
        return True
    key = (cond.id, tuple(e.id for e in extra))
    r = _fmemo.get(key)
    if r is None:
        r = witness(cond, extra, depth) is not None
        _fmemo[key] = r
    return r


def witness(cond, extra=(), depth=0):
    """a consistent cube of cond, or None"""
    STATS['calls'] += 1
    n = [0]

    def go(v, acc, thr):
        if v is FALSE or v is UNDEF:
            return None
        if v is TRUE:
            n[0] += 1
            if n[0] > CUBE_LIMIT:
                raise TooMany()
            return list(acc) if consistent(acc, extra, depth) else None
        for i in range(v.var.n - 1, -1, -1):
            acc.append((v.var, i))
            ok = True
            if v.var.kind == 't' and thr and v.ch[i] is not FALSE:
                lits = [(w.key, w.k, j == 1) for w, j in acc if w.kind == 't']
                ok = lin_consistent(lits, extra)
            if ok:
                r = go(v.ch[i], acc, thr or v.var.kind == 't')
                if r is not None:
                    acc.pop()
                    return r
            acc.pop()
        return None
    return go(cond, [], False)


def implied(cond, goal, extra=()):
    """cond => goal in the abstract domain"""
    return not feasible(AND(cond, NOT(goal)), extra)


def relevant(bad):
    atoms = set()
    seen = set()

    def go(v):
        if not isinstance(v, N) or v in seen:
            return
        seen.add(v)
        if v.var.kind == 't':
            atoms.update(lin_parts(v.var.key)[1])
        for c in v.ch:
            go(c)
    go(bad)
    return atoms


def feasible_part(bad, guarded_facts):
    """bad, or FALSE when it is refuted.  guarded_facts: [(guard, V)] meaning guard => V >= 0"""
    atoms = relevant(bad)
    used = set()
    changed = True
    while changed:
        changed = False
        for i, (g, V) in enumerate(guarded_facts):
            if i in used:
                continue
            if isinstance(V, T) and (set(lin_parts(V)[1]) & atoms):
                used.add(i)
                atoms |= set(lin_parts(V)[1])
                changed = True
    f = bad
    for i in used:
        g, V = guarded_facts[i]
        f = AND(f, IMPL(g, ge0(V)))
        if f is FALSE:
            return FALSE
    try:
        w = witness(f)
    except TooMany:
        STATS['cut'] += 1
        return bad
    return FALSE if w is None else bad
