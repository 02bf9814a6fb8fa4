"""Value-flow (gated-SSA) abstract interpreter over monomorphic MIR.

Each basic block outside loops is evaluated once, in reverse post-order, on the merge of its incoming
abstract states; values that differ are merged with decision-diagram gates.  Natural loops are summarised
(induction variables, partial sums, element-wise updates, first-exit) by `loops.py`.  Nothing is executed,
no paths are enumerated and no constraint solver is used.
"""
import terms
from terms import *
import facts


class Unsupported(Exception):
    pass


CALL_SHIMS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')


class State:
    __slots__ = ('roots', 'cond')

    def __init__(self, roots=None, cond=TRUE):
        self.roots = roots if roots is not None else {}
        self.cond = cond

    def copy(self):
        return State(dict(self.roots), self.cond)


def merge(states):
    states = [s for s in states if s.cond is not FALSE]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    cond = OR(*[s.cond for s in states])
    keys = set()
    for s in states:
        keys.update(s.roots)
    out = {}
    sels = []
    # selector i: cond_i restricted to the union of i..n
    for i in range(len(states) - 1):
        u = OR(*[s.cond for s in states[i:]])
        sels.append(restrict(states[i].cond, u))
    for k in keys:
        vals = [s.roots.get(k, UNDEF) for s in states]
        f = vals[0]
        if all(v is f for v in vals):
            out[k] = f
            continue
        live = [v for v in vals if v is not UNDEF]
        if all(v is live[0] for v in live):
            out[k] = live[0]
            continue
        v = vals[-1]
        for i in range(len(states) - 2, -1, -1):
            if v is UNDEF:
                v = vals[i]
            elif vals[i] is UNDEF:
                pass
            else:
                v = ite(sels[i], vals[i], v)
        out[k] = v
    return State(out, cond)


class CFG:
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [self._succ(b['t']) for b in bl]
        # RPO
        seen = [False] * n
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self._dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(self.pred[x])

    def _isect(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def _dom(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [x[1] for x in t[3]] + [t[4]]
            return list(dict.fromkeys(r))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []


class Obligation:
    __slots__ = ('kind', 'fn', 'line', 'ok', 'bad', 'desc', 'stack')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Frame:
    __slots__ = ('inst', 'body', 'uid', 'cfg', 'parent')


def own_impl(inst):
    """an implementation of a trait method for a type of the crate"""
    return inst.d.get('trait') is not None and inst.d['self'] is not None and inst.self_ty.k == 'adt' and inst.self_ty.d.get('krate') == 'fuel_tx'


class Interp:
    def __init__(self, db):
        self.db = db
        self.uid = 0
        self.obls = []          # undischarged obligations
        self.n_obls = 0
        self.unknown = {}       # unmodelled callee -> count
        self.visited = {}       # inst id -> blocks visited
        self.contracts = {}     # inst id -> handler
        self.mute = 0
        self.stack = []
        self.const_roots = {}
        self.extra_facts = []   # [(guard, V)]: guard => V >= 0 (loop invariants)
        self.effects = []
        self.notes = []
        self.opts = {}
        self.uniq_flag = False
        self.skips = []
        self.in_loop = False
        self.entry = ({}, TRUE)   # memory and condition at the head of the innermost loop being executed
        terms.NAMES['field'] = self._fname
        terms.NAMES['adt'] = self._aname
        import models
        import stdmodels, codecmodels
        models.DBREF[0] = db
        self.models = models

    # ---------------------------------------------------------------- names
    def _fname(self, base, variant, idx, v):
        t = self.db.by_name.get(base.ty) if isinstance(base, T) and base.ty else None
        if t is not None and t.k == 'adt' and variant < len(t.d['variants']):
            va = t.d['variants'][variant]
            if idx >= len(va['fields']):
                return '%s.%d' % (va['name'], idx)
            return (va['name'] + '.' if t.d['adt'] == 'enum' else '') + va['fields'][idx][0]
        return '%s_%s' % (variant, idx)

    def _aname(self, tyn, variant):
        t = self.db.by_name.get(tyn)
        if t is not None and t.k == 'adt':
            return t.d['item'] + ('::' + t.d['variants'][variant]['name'] if t.d['adt'] == 'enum' else '')
        return str(tyn)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, ok, kind, desc):
        """record `ok` as required at this point; afterwards assume it"""
        if st.cond is FALSE or ok is TRUE:
            if not self.mute:
                self.n_obls += 1
            return
        bad = AND(st.cond, NOT(ok))
        if not self.mute:
            self.n_obls += 1
        if bad is not FALSE and not self.mute:
            bad2 = facts.feasible_part(bad, self.extra_facts)
            if bad2 is not FALSE:
                f = self.stack[-1] if self.stack else None
                self.obls.append(Obligation(kind=kind, fn=f.inst.name if f else '?', line=getattr(self, 'cur_line', 0), ok=ok, bad=bad2,
                                            desc=desc, stack=[x.inst.name for x in self.stack]))
        st.cond = AND(st.cond, ok)

    def infeasible(self, c):
        try:
            return facts.feasible_part(c, self.extra_facts) is FALSE
        except facts.TooMany:
            return False

    # ---------------------------------------------------------------- locations
    def get_root(self, st, root):
        v = st.roots.get(root)
        if v is not None:
            return v
        if root[0] == 'c':
            return self.const_roots[root]
        return UNDEF

    def project(self, v, el):
        k = el[0]
        if k == 'f':
            return self.field(v, el[1], el[2], el[3])
        if k == 'i':
            return self.index(v, el[1])
        if k == 'k':
            return map_leaves(lambda t: self.models.map_get(self, t, el[1]), v)
        if k == 'sum':      # payload of Some in place etc. (never written)
            return v
        raise Unsupported(('project', el))

    def field(self, v, variant, idx, base_ty):
        def f(t):
            if t.op == 'adt':
                if t.args[1] != variant:
                    return UNDEF
                return t.args[2][idx]
            if t.op in ('tup', 'clos'):
                a = t.args if t.op == 'tup' else t.args[1]
                return a[idx]
            if t.op in ('true', 'false', 'int'):
                return mkT('fld', t, variant, idx)
            if t.op == 'ref' and base_ty is not None and base_ty.startswith(('alloc::boxed::Box', 'std::boxed::Box')):
                return t
            fty = None
            bt = self.db.by_name.get(base_ty)
            if bt is not None:
                try:
                    fty = bt.field_tys(variant)[idx].name
                except Exception:
                    fty = None
            if t.ty is None:
                t.ty = base_ty
            return self.models.mk_fld(t, variant, idx, fty)
        return map_leaves(f, v)

    def index(self, v, i):
        return apply_n(lambda t, j: self.models.content_idx(self, t, j), v, i)

    def read_loc(self, st, loc):
        v = self.get_root(st, loc[0])
        for el in loc[1]:
            v = self.project(v, el)
        return v

    def write_loc(self, st, loc, new, guard=TRUE):
        root, path = loc
        old = self.get_root(st, root)
        if path and guard is not TRUE and old is not UNDEF:
            v = self.update(old, path, new, AND(st.cond, guard))
        else:
            v = self.update(old, path, new) if path else new
        if guard is not TRUE:
            v = ite(restrict(guard, st.cond), v, old) if old is not UNDEF else v
        st.roots[root] = v

    def update(self, v, path, new, under=TRUE):
        if not path:
            return new
        if under is not TRUE and isinstance(v, N):
            v = restrict(v, under)      # the write happens only there
        el = path[0]
        k = el[0]
        if k == 'f':
            variant, idx, base_ty = el[1], el[2], el[3]

            def f(t):
                if t.op == 'adt':
                    if t.args[1] != variant:
                        return UNDEF
                    fs = list(t.args[2])
                    fs[idx] = self.update(fs[idx], path[1:], new, under)
                    return self.models.mk_adt(t.args[0], t.args[1], tuple(fs))
                if t.op == 'tup':
                    fs = list(t.args)
                    fs[idx] = self.update(fs[idx], path[1:], new, under)
                    return mkT('tup', *fs)
                if t.op == 'uninit':
                    # filling memory just allocated: the wrappers around the value (MaybeUninit, ManuallyDrop) do not count
                    if all(e[0] == 'f' for e in path):
                        return new
                    raise Unsupported('partial initialisation')
                if t.op == 'clos':
                    fs = list(t.args[1])
                    fs[idx] = self.update(fs[idx], path[1:], new, under)
                    return mkT('clos', t.args[0], tuple(fs))
                bt = self.db.by_name.get(base_ty)
                if bt is None or bt.k not in ('adt', 'tuple'):
                    raise Unsupported(('field write into', base_ty))
                n = len(bt.field_tys(variant))
                fs = [self.field(t, variant, j, base_ty) for j in range(n)]
                fs[idx] = self.update(fs[idx], path[1:], new, under)
                if bt.k == 'tuple':
                    return mkT('tup', *fs)
                return self.models.mk_adt(base_ty, variant, tuple(fs))
            if v is UNDEF:
                bt = self.db.by_name.get(base_ty)
                n = len(bt.field_tys(variant))
                fs = [UNDEF] * n
                fs[idx] = self.update(UNDEF, path[1:], new, under)
                if bt.k == 'tuple':
                    return mkT('tup', *fs)
                return mkT('adt', base_ty, variant, tuple(fs))
            # if new is gated this may yield gated results inside fields: fine
            return map_leaves(f, v)
        if k == 'i':
            def g(t, i):
                cur = self.models.content_idx(self, t, i)
                return self.models.content_upd(self, t, i, self.update(cur, path[1:], new, under))
            return apply_n(g, v, el[1])
        if k == 'k':
            def h(t):
                cur = self.models.map_get(self, t, el[1])
                return self.models.map_put(self, t, el[1], self.update(cur, path[1:], new, under))
            return map_leaves(h, v)
        raise Unsupported(('update', el))

    def deref_locs(self, st, v):
        """[(cond, location)] that the reference value v denotes"""
        out = []
        for c, l in leaves(restrict(v, st.cond)):
            if l.op == 'ref':
                out.append((c, (l.args[0], l.args[1])))
            elif l.op == 'undef':
                continue
            else:
                out.append((c, self.opaque_loc(st, l)))
        return out

    def opaque_loc(self, st, t):
        """location standing for the pointee of an opaque reference term"""
        root = ('o', t)
        if root not in st.roots and root not in self.const_roots:
            pty = self.db.by_name.get(t.ty) if t.ty else None
            to = pty.to.name if pty is not None and pty.k in ('ref', 'ptr') else None
            self.const_roots[('c', ('o', t.id))] = self.pointees(st, t) or mkT('deref', t, ty=to)
            return (('c', ('o', t.id)), ())
        return (root, ())

    def deref_read(self, st, v):
        """value behind reference v"""
        def f(l):
            if l.op == 'ref':
                return self.read_loc(st, (l.args[0], l.args[1]))
            if l.op == 'slice':
                return self.slice_content(st, l)
            if l.op == 'undef':
                return UNDEF
            loc = self.opaque_loc(st, l)
            return self.read_loc(st, loc)
        return map_leaves(f, restrict(v, st.cond))

    def slice_content(self, st, l):
        root, path, off, ln = l.args
        base = self.read_loc(st, (root, path))
        return self.models.sub_content(self, base, off, ln)

    def freeze(self, st, v, depth=0):
        """value with references replaced by what they point to"""
        if depth > 20:
            raise Unsupported('freeze depth')

        def f(l):
            if l.op in ('ref', 'slice'):
                return self.freeze(st, self.deref_read(st, l), depth + 1)
            if l.op == 'adt':
                return self.models.mk_adt(l.args[0], l.args[1], tuple(self.freeze(st, x, depth + 1) for x in l.args[2]))
            if l.op == 'tup':
                return mkT('tup', *[self.freeze(st, x, depth + 1) for x in l.args])
            if l.op == 'clos':
                return mkT('clos', l.args[0], tuple(self.freeze(st, x, depth + 1) for x in l.args[1]))
            if l.op == 'arr':
                return mkT('arr', *[self.freeze(st, x, depth + 1) for x in l.args], ty=l.ty)
            if l.op in ('comp', 'seq', 'push', 'cat', 'log', 'iter') and refs_of(l):
                return self.freeze_content(st, l)
            if l.op == 'idx' and isinstance(l.args[0], T) and l.args[0].op == 'comp' and refs_of(l.args[0]):
                return map_leaves(lambda c: self.models.idx_v(self, c, l.args[1]), self.freeze_content(st, l.args[0]))
            return l
        return map_leaves(f, restrict(v, st.cond))

    def freeze_content(self, st, c, depth=0):
        """content whose elements are references -> content of what they point to"""
        def f(l):
            if l.op in ('comp', 'seq'):
                with opened(l) as (k, bs):
                    s2 = st.copy()
                    s2.cond = AND(st.cond, ge0(k), lt(k, l.args[0]))
                    nb = []
                    for b in bs:
                        nb.append(self.freeze(s2, b, depth + 1))
                    return mkbind(l.op, l.args[0], k, tuple(nb), l.ty)
            if l.op in ('arr', 'tup', 'adt', 'ref', 'slice', 'clos'):
                return self.freeze(st, l, depth + 1)
            if l.op == 'push':
                return apply_n(lambda a, b: mkT('push', a, b), f(l.args[0]), self.freeze(st, l.args[1], depth + 1))
            if l.op == 'cat':
                return self.models.cat_v(self, *[f(x) if isinstance(x, T) else map_leaves(f, x) for n, x in l.args])
            if l.op == 'iter':
                return mkT('iter', f(l.args[0]), l.args[1], l.args[2])
            if l.op == 'sub' and refs_of(l.args[0]):
                return map_leaves(lambda b: self.models.sub_content(self, b, l.args[1], l.args[2]), f(l.args[0]) if isinstance(l.args[0], T) else map_leaves(f, l.args[0]))
            return l
        return map_leaves(f, restrict(c, st.cond))

    def pointees(self, st, t):
        """what an element of a collection of references points to: the element of the collection of what those point to"""
        if t.op != 'idx' or not isinstance(t.args[0], T) or t.args[0].op != 'comp' or not refs_of(t.args[0]):
            return None
        C = t.args[0]
        if not all(l.op in ('ref', 'slice') for l in leafset(C.args[3]) if l is not UNDEF):
            return None
        with opened(C) as (k, bs):
            s2 = st.copy()
            s2.cond = AND(st.cond, ge0(k), lt(k, C.args[0]), bs[0])
            c2 = mkbind('comp', C.args[0], k, (bs[0], self.deref_read(s2, bs[1])), C.ty)
        return self.models.idx_v(self, c2, t.args[1])

    # ---------------------------------------------------------------- places
    def place_locs(self, fr, st, pl):
        """[(cond, ('loc', root, path) | ('slice', T))] for a MIR place; and its static type"""
        local, proj = pl
        ty = self.db.ty(fr.body['locals'][local])
        cur = [(TRUE, ((fr.uid, local), ()))]
        sl = None
        variant = 0
        i = 0
        while i < len(proj):
            p = proj[i]
            k = p[0]
            if k == '*':
                nxt = []
                pt = ty.to if ty.k in ('ref', 'ptr') else None
                if pt is None:
                    if ty.k == 'adt' and ty.d['item'] == 'Box':
                        pt = ty.targs()[0]
                    else:
                        raise Unsupported(('deref of', ty.name))
                for c, loc in cur:
                    v = restrict(self.read_loc(st, loc), AND(st.cond, c))
                    for c2, l in leaves(v):
                        if l is UNDEF:
                            continue
                        cc = AND(c, c2)
                        if AND(cc, st.cond) is FALSE:
                            continue
                        if l.op == 'ref':
                            nxt.append((cc, (l.args[0], l.args[1])))
                        elif l.op == 'slice':
                            nxt.append((cc, ('S', l)))
                        else:
                            nxt.append((cc, self.opaque_loc(st, l)))
                cur = nxt
                ty = pt
                variant = 0
            elif k == 'f':
                fty = self.db.ty(p[2])
                el = ('f', variant, p[1], ty.name)
                if ty.k == 'closure':
                    el = ('f', 0, p[1], ty.name)
                cur = [(c, self._ext(loc, el)) for c, loc in cur]
                ty = fty
                variant = 0
            elif k == 'v':
                variant = p[1]
                i += 1
                continue
            elif k == 'i':
                iv = self.read_loc(st, ((fr.uid, p[1]), ()))
                cur = self._idx(st, cur, iv)
                ty = ty.elem
            elif k == 'ci':
                if p[3] is False or p[3] == 'false':
                    iv = INT(p[1])
                    cur = self._idx(st, cur, iv)
                else:
                    nxt = []
                    for c, loc in cur:
                        ln = self.loc_len(st, loc)
                        nxt += self._idx(st, [(c, loc)], sub(ln, INT(p[1])))
                    cur = nxt
                ty = ty.elem
            elif k == 'sub':
                nxt = []
                for c, loc in cur:
                    ln = self.loc_len(st, loc)
                    a = INT(p[1])
                    b = sub(ln, INT(p[2])) if p[3] else INT(p[2])
                    if loc[0] == 'S':
                        s = loc[1]
                        nxt.append((c, ('S', mkT('slice', s.args[0], s.args[1], add(s.args[2], a), sub(b, a)))))
                    else:
                        nxt.append((c, ('S', mkT('slice', loc[0], loc[1], a, sub(b, a)))))
                cur = nxt
            elif k == 'cast':
                pass
            else:
                raise Unsupported(('proj', p))
            i += 1
        return cur, ty

    def _ext(self, loc, el):
        if loc[0] == 'S':
            raise Unsupported('field of slice')
        return (loc[0], loc[1] + (el,))

    def _idx(self, st, cur, iv):
        nxt = []
        for c, loc in cur:
            for c2, i in leaves(iv):
                if i is UNDEF:
                    continue
                cc = AND(c, c2)
                if AND(cc, st.cond) is FALSE:
                    continue
                if loc[0] == 'S':
                    s = loc[1]
                    for c3, o in leaves(add(s.args[2], i)):
                        nxt.append((AND(cc, c3), (s.args[0], s.args[1] + (('i', o),))))
                else:
                    nxt.append((cc, (loc[0], loc[1] + (('i', i),))))
        return nxt

    def loc_len(self, st, loc):
        if loc[0] == 'S':
            return loc[1].args[3]
        v = self.read_loc(st, loc)
        return self.models.content_len(self, v)

    def read_place(self, fr, st, pl):
        cur, ty = self.place_locs(fr, st, pl)
        res = None
        if not cur:
            return UNDEF, ty
        for c, loc in reversed(cur):
            v = self.slice_content(st, loc[1]) if loc[0] == 'S' else self.read_loc(st, loc)
            res = v if res is None else ite(restrict(c, st.cond) if st.cond is not FALSE else c, v, res)
        res = restrict(res, st.cond)
        return res, ty

    def write_place(self, fr, st, pl, v):
        if not pl[1]:
            st.roots[(fr.uid, pl[0])] = v
            return
        cur, ty = self.place_locs(fr, st, pl)
        for c, loc in cur:
            if loc[0] == 'S':
                raise Unsupported('write to slice place')
            self.write_loc(st, loc, v, TRUE if len(cur) == 1 else c)

    # ---------------------------------------------------------------- constants
    def const(self, c):
        k = c[0]
        if k == 'int':
            return INT(c[1])
        if k == 'bool':
            return BOOL(c[1])
        if k == 'char':
            return INT(c[1])
        if k == 'str':
            t = mkT('str', c[1], ty='str')
            return self.const_ref(t, True)
        if k == 'tuple':
            return mkT('tup', *[self.const(x) for x in c[1]])
        if k == 'array':
            ty = self.db.ty(c[1])
            return self.models.mk_arr([self.const(x) for x in c[2]], ty.name)
        if k == 'adt':
            ty = self.db.ty(c[1])
            if ty.d['krate'] in ('alloc', 'std', 'core') and ty.d['item'] in self.models.EMPTY_CONTAINERS:
                return self.models.EMPTY_CONTAINERS[ty.d['item']]()
            return self.models.mk_adt(ty.name, c[2], tuple(self.const(x) for x in c[3]))
        if k == 'ref':
            return self.const_ref(self.const(c[2]), False)
        if k == 'sliceref':
            return self.const_ref(self.models.mk_arr([self.const(x) for x in c[2]], None), True)
        if k == 'zst':
            ty = self.db.ty(c[1])
            if ty.k == 'closure':
                return mkT('clos', ty.name, ())
            return mkT('fnitem', ty.name)
        if k == 'fn':
            return mkT('fnptr', c[1])
        if k == 'static':
            root = ('c', ('static', c[1]))
            self.const_roots[root] = mkT('sym', 'static:' + c[1])
            return mkT('ref', root, ())
        if k == 'opaque' and isinstance(c[1], int):
            return mkT('opaqueconst', self.db.ty(c[1]).name, ty=self.db.ty(c[1]).name)
        return mkT('opaqueconst', str(c[1:]))

    def const_ref(self, t, slice_):
        root = ('c', t.id)
        self.const_roots[root] = t
        if slice_:
            return mkT('slice', root, (), INT(0), self.models.content_len(self, t))
        return mkT('ref', root, ())

    def temp_ref(self, st, v, tag='t'):
        """reference to a fresh temporary holding v"""
        self.uid += 1
        root = (tag, self.uid)
        st.roots[root] = v
        return mkT('ref', root, ())

    # ---------------------------------------------------------------- operands / rvalues
    def operand(self, fr, st, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.read_place(fr, st, o[1])[0]
        if k == 'k':
            return self.const(o[1])
        if k == 'rc':
            return FALSE
        raise Unsupported(o)

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            local, proj = o[1]
            ty = self.db.ty(fr.body['locals'][local])
            for p in proj:
                if p[0] == '*':
                    ty = ty.to if ty.k in ('ref', 'ptr') else ty.targs()[0]
                elif p[0] == 'f':
                    ty = self.db.ty(p[2])
                elif p[0] in ('i', 'ci'):
                    ty = ty.elem
            return ty
        if o[0] == 'k':
            c = o[1]
            if c[0] == 'int':
                return self.db.ty(c[2])
            if c[0] == 'bool':
                return self.db.by_name['bool']
            if c[0] in ('adt', 'array', 'ref', 'zst', 'sliceref', 'opaque'):
                return self.db.ty(c[1])
        return None

    def binop(self, op, a, b, ty):
        bits = ty.d['bits'] if ty is not None and ty.k == 'int' else None
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'Div':
            return ediv(a, b)
        if op == 'Rem':
            return emod(a, b)
        isint = ty is None or ty.k in ('int', 'char')
        if op in ('Eq', 'Ne'):
            r = eq_int(a, b) if isint else self.models.eq_val(self, a, b)
            return r if op == 'Eq' else NOT(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if ty is not None and ty.k == 'bool':
                r = {'Lt': AND(NOT(a), b), 'Le': IMPL(a, b), 'Gt': AND(a, NOT(b)), 'Ge': IMPL(b, a)}[op]
                return r
            return {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[op]()
        if op == 'Cmp':
            # Ordering: Less=-1 Equal=0 Greater=1 as variants 0,1,2
            o = self.db.by_name['core::cmp::Ordering'].name
            L, E, G = [mkT('adt', o, i, ()) for i in range(3)]
            return ite(lt(a, b), L, ite(eq_int(a, b), E, G))
        if op in ('BitAnd', 'BitOr', 'BitXor') and ty is not None and ty.k == 'bool':
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            return ite(a, NOT(b), b)

        def f(x, y):
            if x.op == 'int' and y.op == 'int':
                p, q = x.args[0], y.args[0]
                r = {'BitAnd': lambda: p & q, 'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q, 'Shl': lambda: p << q, 'Shr': lambda: p >> q,
                     'ShlUnchecked': lambda: p << q, 'ShrUnchecked': lambda: p >> q}[op]()
                if bits:
                    r &= (1 << bits) - 1
                return INT(r)
            if op in ('Shl', 'ShlUnchecked') and y.op == 'int' and bits:
                s = terms._scale(x, 1 << y.args[0])
                lo, hi = bounds(s)
                if hi is not None and hi < (1 << bits):
                    return s
                return self.models.trunc(s, bits)
            if op in ('Shr', 'ShrUnchecked') and y.op == 'int':
                r = ediv(x, INT(1 << y.args[0]))
                return r if isinstance(r, T) else mkT('shr', x, y)
            if op == 'BitAnd':
                for u, w in ((x, y), (y, x)):
                    if w.op == 'int':
                        m = w.args[0]
                        if m == 0:
                            return INT(0)
                        if (m & (m + 1)) == 0:
                            return self.models.trunc(u, m.bit_length())
                        if m > 0 and (m & (m - 1)) == 0:
                            return ite(terms.as_cond(mkT('bit', u, INT(m.bit_length() - 1), ty='bool')), INT(m), INT(0))
            if op == 'BitOr':
                if x.op == 'int' and x.args[0] == 0:
                    return y
                if y.op == 'int' and y.args[0] == 0:
                    return x
                if x is y:
                    return x
            aa = sorted((x, y), key=lambda t: t.id) if op.startswith('Bit') else (x, y)
            t = mkT(op, *aa, ty=ty.name if ty else None)
            return t
        return apply_n(f, a, b)

    def checked(self, op, a, b, ty):
        """(value, overflow condition)"""
        bits = ty.d['bits']
        if op in ('Shl', 'Shr'):
            r = self.binop(op, a, b, ty)
            return r, NOT(lt(b, INT(bits)))
        r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
        if ty.d['signed']:
            hi, lo = (1 << (bits - 1)) - 1, -(1 << (bits - 1))
        else:
            hi, lo = (1 << bits) - 1, 0
        if ty.d['signed']:
            return r, OR(NOT(le(r, INT(hi))), NOT(le(INT(lo), r)))
        # operands of an unsigned type are not negative and not above hi
        return r, NOT(le(INT(0), r)) if op == 'Sub' else NOT(le(r, INT(hi)))

    def rvalue(self, fr, st, r, dest_ty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k in ('ref', 'addr', 'reborrow'):
            return self.make_ref(fr, st, r[1])
        if k == 'bin':
            op = r[1]
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            ty = self.op_ty(fr, r[2])
            if op in ('Div', 'Rem') and ty is not None and ty.k == 'int':
                pass
            v = self.binop(op, a, b, ty)
            if op in ('Add', 'Sub', 'Mul') and ty is not None and ty.k == 'int':
                # unchecked arithmetic in a release-style body: wraps
                pass
            return v
        if k == 'cbin':
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            ty = self.op_ty(fr, r[2])
            v, ov = self.checked(r[1], a, b, ty)
            return mkT('tup', v, ov)
        if k == 'un':
            a = self.operand(fr, st, r[2])
            ty = self.op_ty(fr, r[2])
            if r[1] == 'Not':
                if ty is not None and ty.k == 'bool':
                    return NOT(a)
                return map_leaves(lambda t: INT(~t.args[0] & ((1 << ty.d['bits']) - 1)) if t.op == 'int' else sub(INT((1 << ty.d['bits']) - 1), t), a)
            if r[1] == 'Neg':
                return scale(a, -1)
            if r[1] == 'PtrMetadata':
                return self.ref_len(st, a)
        if k == 'len':
            cur, ty = self.place_locs(fr, st, r[1])
            res = None
            for c, loc in reversed(cur):
                v = self.loc_len(st, loc)
                res = v if res is None else ite(c, v, res)
            return res
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] is not None and r[2] <= 64 and not isinstance(v, N):
                return self.models.mk_arr([v] * r[2], dest_ty.name)
            return self.models.mk_comp(INT(r[2]), TRUE, v)
        if k == 'cast':
            return self.cast(fr, st, r, dest_ty)
        if k == 'discr':
            v, ty = self.read_place(fr, st, r[1])
            return self.discr(v, ty)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[4]]
            if r[1] == 'adt':
                return self.models.mk_adt(self.db.ty(r[2]).name, r[3], tuple(ops))
            if r[1] == 'tuple':
                return mkT('tup', *ops)
            if r[1] == 'array':
                return self.models.mk_arr(ops, dest_ty.name)
            if r[1] == 'closure':
                return mkT('clos', self.db.ty(r[2]).name, tuple(ops))
            if r[1] == 'rawptr':
                return mkT('rawptr', *ops)
            raise Unsupported(r[1])
        raise Unsupported(('rvalue', k))

    def ref_len(self, st, a):
        def f(t):
            if t.op == 'slice':
                return t.args[3]
            if t.op == 'ref':
                return self.models.content_len(self, self.read_loc(st, (t.args[0], t.args[1])))
            return self.models.content_len(self, mkT('deref', t))
        return map_leaves(f, a)

    def make_ref(self, fr, st, pl):
        cur, ty = self.place_locs(fr, st, pl)
        res = UNDEF
        for c, loc in reversed(cur):
            if loc[0] == 'S':
                v = loc[1]
            else:
                if ty.k in ('slice', 'str'):
                    v = mkT('slice', loc[0], loc[1], INT(0), self.loc_len(st, loc))
                else:
                    v = mkT('ref', loc[0], loc[1])
            res = v if res is UNDEF else ite(c, v, res)
        return res

    def discr(self, v, ty):
        if ty.k != 'adt':
            raise Unsupported(('discr of', ty.name))
        vs = ty.d['variants']

        def f(t):
            if t.op == 'adt':
                return INT(int(vs[t.args[1]]['discr']))
            if ty.d['adt'] != 'enum':
                return INT(0)
            if len(vs) == 0:
                return UNDEF
            if t.ty is None:
                t.ty = ty.name
            iv = self.models.inv_variant(self, t, ty)
            if iv is not None:
                return iv
            return mk(var_enum(t, len(vs)), [INT(int(x['discr'])) for x in vs])
        return map_leaves(f, v)

    def is_variant(self, v, ty, idx):
        d = self.discr(v, ty)
        return eq_int(d, INT(int(ty.d['variants'][idx]['discr'])))

    def cast(self, fr, st, r, dest_ty):
        kind = r[1]
        a = self.operand(fr, st, r[2])
        sty = self.op_ty(fr, r[2])
        if kind == 'IntToInt':
            return self.int_cast(a, sty, dest_ty, st)
        if kind == 'PC:Unsize':
            # &[T;N] -> &[T]
            if dest_ty.k in ('ref', 'ptr') and dest_ty.to.k == 'slice':
                def f(t):
                    if t.op == 'ref':
                        v = self.read_loc(st, (t.args[0], t.args[1]))
                        n = sty.to.d.get('len') if sty.to.k == 'array' else None
                        ln = INT(n) if n is not None else self.models.content_len(self, v)
                        return mkT('slice', t.args[0], t.args[1], INT(0), ln)
                    if t.op == 'slice':
                        return t
                    loc = self.opaque_loc(st, t)
                    return mkT('slice', loc[0], loc[1], INT(0), INT(sty.to.d['len']))
                return map_leaves(f, a)
            return a
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'FnPtrToPtr') or kind.startswith('PC:'):
            if kind == 'Transmute':
                return self.models.transmute(self, st, a, sty, dest_ty)
            if kind == 'PtrToPtr':
                return self.ptr_cast(st, a, sty, dest_ty)
            return a
        if kind == 'BoxDerefTransmute':
            return map_leaves(lambda t: t.args[0] if t.op == 'fld' and isinstance(t.args[0], T) and t.args[0].op == 'ref' else t, a)
        raise Unsupported(('cast', kind))

    def ptr_cast(self, st, a, sty, dty):
        if sty is None or sty.k not in ('ref', 'ptr') or dty.k not in ('ref', 'ptr') or sty.to is dty.to:
            return a
        to = dty.to

        def f(st, l):
            if to.k == 'adt' and to.d['adt'] == 'struct' and l.op in ('slice', 'ref'):
                # newtype over the pointee, or over a byte array
                flds = [t for t in to.field_tys(0) if not (t.k == 'tuple' and not t.d['elems'])]
                if len(flds) != 1:
                    raise Unsupported(('pointer cast to', to.name))
                inner = flds[0]
                c = self.view_as(st, l, inner)
                return self.temp_ref(st, map_leaves(lambda x: self.models.mk_adt(to.name, 0, (x,)), c))
            if to.k == 'array' and l.op == 'slice':
                n = INT(to.d['len'])
                self.oblige(st, le(n, l.args[3]), 'unsafe-read', 'pointer cast reads %d bytes' % to.d['len'])
                return mkT('slice', l.args[0], l.args[1], l.args[2], n)
            return l
        a = restrict(a, st.cond)
        if isinstance(a, T):
            return f(st, a) if a is not UNDEF else UNDEF
        # leaf by leaf, each under its own condition
        parts = []
        for c, l in leaves(a):
            s = st.copy()
            s.cond = AND(st.cond, c)
            if l is not UNDEF and s.cond is not FALSE:
                parts.append((s, f(s, l)))
        import stdmodels
        return stdmodels.rejoin(st, parts)

    def view_as(self, st, l, ty):
        if l.op == 'ref':
            return self.read_loc(st, (l.args[0], l.args[1]))
        if ty.k == 'array':
            n = INT(ty.d['len'])
            self.oblige(st, le(n, l.args[3]), 'unsafe-read', 'pointer cast reads %d bytes' % ty.d['len'])
            return self.slice_content(st, mkT('slice', l.args[0], l.args[1], l.args[2], n))
        if ty.k == 'adt':
            return map_leaves(lambda x: self.models.mk_adt(ty.name, 0, (x,)), self.view_as(st, l, ty.field_tys(0)[0]))
        raise Unsupported(('view as', ty.name))

    def int_cast(self, a, sty, dty, st=None):
        if sty is not None and sty.k == 'bool':
            return ite(a, INT(1), INT(0))
        if sty is not None and sty.k == 'adt':
            a = self.discr(a, sty)
        bits = dty.d.get('bits', 32)
        signed = dty.d.get('signed', False)

        sb, ss = (sty.d.get('bits', 32), sty.d.get('signed', False)) if sty is not None and sty.k in ('int', 'char') else (None, None)
        widening = sb is not None and (not ss and not signed and sb <= bits or not ss and signed and sb < bits or ss and signed and sb <= bits)

        def f(t):
            if widening and t.op not in ('adt', 'tup'):
                return t          # a value of the source type is a value of the target type
            lo, hi = bounds(t)
            if not signed and lo is not None and lo >= 0 and hi is not None and hi < (1 << bits):
                return t
            if signed and lo is not None and hi is not None and lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1)):
                return t
            if t.op == 'int':
                v = t.args[0] & ((1 << bits) - 1)
                if signed and v >> (bits - 1):
                    v -= 1 << bits
                return INT(v)
            if signed:
                return mkT('sext', t, bits)
            if st is not None and t.op in ('lin', 'div', 'mul', 'mono', 'sum', 'mod', 'cdiv'):
                # value-preserving when the path condition bounds the value
                c = lt(t, INT(1 << bits)) if ss is False else AND(ge0(t), lt(t, INT(1 << bits)))
                g = AND(st.cond, guard.get(t, TRUE))
                if restrict(c, g) is TRUE or self.infeasible(AND(g, NOT(c))):
                    return t
            elif st is not None and ss is False and restrict(lt(t, INT(1 << bits)), AND(st.cond, guard.get(t, TRUE))) is TRUE:
                return t
            return self.models.trunc(t, bits)
        guard = {l: c for c, l in leaves(a)} if not isinstance(a, T) else {}
        return map_leaves(f, a)

    # ---------------------------------------------------------------- execution
    def run_inst(self, inst, args, st):
        """evaluate the body of inst; returns value; st is updated in place"""
        body = inst.body
        if len(self.stack) > 60:
            raise Unsupported('depth')
        if any(f.inst is inst for f in self.stack):
            raise Unsupported('recursion ' + inst.name)
        if inst._cfg is None:
            inst._cfg = CFG(body)
        fr = Frame()
        self.uid += 1
        fr.inst, fr.body, fr.uid, fr.cfg = inst, body, ('L', self.uid), inst._cfg
        self.visited.setdefault(inst.id, set())
        argc = body['argc']
        if body['spread'] is not None and len(args) != argc:
            pass
        if len(args) != argc:
            raise Unsupported(('argc', inst.name, argc, len(args)))
        pre_keys = set(st.roots)
        for i, a in enumerate(args):
            st.roots[(fr.uid, i + 1)] = a
        self.stack.append(fr)
        saved_line = getattr(self, 'cur_line', 0)
        rets, conts, exits = self.exec_region(fr, 0, st.copy(), None, None)
        self.stack.pop()
        self.cur_line = saved_line
        out = merge(rets)
        if out is None:
            st.cond = FALSE
            return UNDEF
        ret = restrict(out.roots.get((fr.uid, 0), mkT('tup')), out.cond)
        # garbage-collect the frame's locals that nothing refers to
        live = set()
        work = [ret]
        for k, v in out.roots.items():
            if k[0] != fr.uid:
                work.append(v)
        seen = set()
        while work:
            v = work.pop()
            if isinstance(v, (T, N)):
                for r in refs_of(v):
                    if r not in seen:
                        seen.add(r)
                        if r in out.roots:
                            work.append(out.roots[r])
        st.roots = {k: v for k, v in out.roots.items() if k[0] != fr.uid or k in seen}
        st.cond = out.cond
        return ret

    def exec_region(self, fr, entry, st, allowed, header):
        cfg = fr.cfg
        pending = {entry: [st]}
        rets, conts, exits = [], [], []

        def route(target, s):
            if s.cond is FALSE:
                return
            if target == 'ret':
                rets.append(s)
            elif target == header:
                conts.append(s)
            elif target == 'skip':
                conts.append(s)
            elif allowed is not None and target not in allowed:
                exits.append((target, s))
            else:
                pending.setdefault(target, []).append(s)
        order = cfg.rpo if allowed is None else [b for b in cfg.rpo if b in allowed]
        for b in order:
            if b not in pending:
                continue
            ss = pending.pop(b)
            s = merge(ss)
            if s is None:
                continue
            if b in cfg.loops and not (b == header):
                import loops
                for target, s2 in loops.mir_loop(self, fr, b, s):
                    route(target, s2)
            else:
                self.visited[fr.inst.id].add(b)
                for target, s2 in self.exec_block(fr, b, s, header):
                    route(target, s2)
        return rets, conts, exits

    def exec_block(self, fr, b, st, header):
        blk = fr.body['blocks'][b]
        for s in blk['s']:
            self.cur_line = s[-1]
            k = s[0]
            if k == '=':
                pl, r = s[1], s[2]
                dt = self.op_ty(fr, ['c', pl]) if r[0] in ('repeat', 'cast', 'agg') else None
                v = self.rvalue(fr, st, r, dt)
                self.write_place(fr, st, pl, v)
            elif k == 'sd':
                cur, ty = self.place_locs(fr, st, s[1])
                for c, loc in cur:
                    n = len(ty.field_tys(s[2]))
                    old = self.read_loc(st, loc)
                    fs = tuple(self.field(old, s[2], j, ty.name) for j in range(n))
                    self.write_loc(st, loc, self.models.mk_adt(ty.name, s[2], fs), TRUE if len(cur) == 1 else c)
            elif k == 'assume':
                st.cond = AND(st.cond, as_cond(self.operand(fr, st, s[1])))
            elif k == 'cno':
                raise Unsupported('copy_nonoverlapping')
        self.cur_line = blk['l']
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'abort'):
            if k == 'unreachable':
                st.cond = FALSE
            return []
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            v = restrict(self.operand(fr, st, t[1]), st.cond)
            ty = self.db.ty(t[2]) if t[2] is not None else None
            out = []
            rest = st.cond
            targets = {}
            for val, tgt in t[3]:
                if ty is not None and ty.k == 'bool':
                    c = as_cond(v)
                    c = c if val else NOT(c)
                else:
                    if ty is not None and ty.k == 'int' and ty.d['signed'] and val >> (ty.d['bits'] - 1):
                        val -= 1 << ty.d['bits']
                    # discriminants may be read with a wider raw value
                    c = eq_int(v, INT(val))
                cc = AND(rest, c)
                rest = AND(rest, NOT(c))
                if cc is not FALSE:
                    targets[tgt] = OR(targets.get(tgt, FALSE), cc)
            if rest is not FALSE:
                targets[t[4]] = OR(targets.get(t[4], FALSE), rest)
            items = list(targets.items())
            if len(items) == 2 and self.opts.get('prune'):
                # a two-way branch on a size comparison whose outcome follows from what is already known
                v0 = as_cond(v) if isinstance(v, N) else v
                if isinstance(v0, N) and v0.var.kind == 't' and v0.ch[0].__class__ is T and v0.ch[1].__class__ is T:
                    for i, (tgt, c) in enumerate(items):
                        if self.infeasible(c):
                            items = [(items[1 - i][0], st.cond)]
                            break
            for tgt, c in items:
                s2 = st.copy() if len(items) > 1 else st
                s2.cond = c
                out.append((tgt, s2))
            return out
        if k == 'assert':
            if t[3].startswith('other:'):
                # compiler-inserted null / alignment checks of a raw pointer; pointers here come from references
                return [(t[5], st)]
            cond = as_cond(self.operand(fr, st, t[1]))
            ok = cond if t[2] else NOT(cond)
            self.oblige(st, ok, t[3].split(':')[0], t[3])
            return [(t[5], st)] if st.cond is not FALSE else []
        if k == 'call':
            return self.exec_call(fr, st, t, header)
        raise Unsupported(('terminator', k))

    def exec_call(self, fr, st, t, header):
        f, args, dest, target = t[1], t[2], t[3], t[4]
        dty = self.db.ty(t[5]) if t[5] is not None else None
        vals = [self.operand(fr, st, a) for a in args]
        atys = [self.db.ty(x) if x is not None else None for x in t[6]]
        skip = []
        if f[0] == 'i':
            inst = self.db.insts[f[1]]
            self.skips = skip
            self.in_loop = header is not None
            if inst.d['closure'] and len(vals) == 2:
                # Fn*::call* resolved to the closure body: the arguments come as one tuple
                n = len(atys[1].field_tys(0))
                targs = [self.field(vals[1], 0, j, atys[1].name) for j in range(n)]
                r = self.call_value(vals[0], targs, st, dty)
            else:
                r = self.call(inst, vals, st, dty, atys)
        elif f[0] == 'v':
            fv = self.operand(fr, st, f[1])
            r = self.call_value(fv, vals, st, dty)
        else:
            raise Unsupported(('unresolved call', f[1]))
        out = []
        for s2 in skip:
            if s2.cond is not FALSE:
                out.append(('skip', s2))
        if st.cond is FALSE or target is None:
            return out
        self.write_place(fr, st, dest, r)
        out.append((target, st))
        return out

    def call(self, inst, args, st, dty=None, atys=None):
        if st.cond is FALSE:
            return UNDEF
        h = self.contracts.get(inst.id)
        if h is None:
            for pred, hh in self.opts.get('contract_rules', ()):
                if pred(inst):
                    h = hh
                    break
        if h is not None:
            r = h(self, inst, args, st, dty)
            if r is not NotImplemented:
                return r
        m = self.models.find(inst)
        if m is not None and not (inst.body is not None and own_impl(inst)):
            r = m(self, inst, args, st, dty, atys)
            if r is not NotImplemented:
                return r
        if inst.body is not None:
            return self.run_inst(inst, args, st)
        if inst.key in CALL_SHIMS and len(args) == 2 and \
                all(l.op in ('fnitem', 'fnptr', 'pyfn', 'clos', 'ref') for _, l in leaves(restrict(args[0], st.cond))):
            tl = leaves(restrict(args[1], st.cond))
            if len(tl) == 1 and tl[0][1].op == 'tup':
                return self.call_value(args[0], list(tl[0][1].args), st, dty)
            if atys is not None:
                n = len(atys[1].field_tys(0))
                return self.call_value(args[0], [self.field(args[1], 0, j, atys[1].name) for j in range(n)], st, dty)
        return self.unknown_call(inst, args, st, dty)

    def constructor(self, inst, args, dty):
        """a tuple constructor used as a function"""
        if inst.body is None and dty is not None and dty.k == 'adt':
            path = dty.name.split('<')[0]
            for vi, v in enumerate(dty.d['variants']):
                if inst.key in (path + '::' + v['name'], path if dty.d['adt'] == 'struct' else None) and inst.item == v['name'] and len(v['fields']) == len(args):
                    from models import mk_adt
                    return mk_adt(dty.name, vi, tuple(args))
        return None

    def unknown_call(self, inst, args, st, dty):
        r = self.constructor(inst, args, dty)
        if r is not None:
            return r
        key = inst.key
        self.unknown[key] = self.unknown.get(key, 0) + 1
        fz = [self.freeze(st, a) for a in args]
        # havoc what is reachable through &mut
        if inst.body is None:
            for i, a in enumerate(args):
                aty = None
                for l in (x for _, x in leaves(a)):
                    if l.op in ('ref', 'slice') and l.args[0][0] != 'c' and self.maybe_mut(inst, i):
                        loc = (l.args[0], l.args[1])
                        old = self.read_loc(st, loc)
                        self.write_loc(st, loc, lift('mut', (inst.key, i) + tuple(fz)))
        if dty is not None and dty.k == 'never':
            self.oblige(st, FALSE, 'panic', inst.key)
            return UNDEF
        if dty is not None and dty.k == 'tuple' and not dty.d['elems']:
            return mkT('tup')
        r = lift('app', (inst.key,) + tuple(fz), dty.name if dty is not None else None)
        if dty is not None and dty.k == 'bool':
            return as_cond(r)
        return r

    def maybe_mut(self, inst, i):
        return self.models.arg_is_mut(self, inst, i)

    def call_value(self, f, args, st, dty):
        """call a closure / fn item / fn pointer value with untupled args"""
        outs = []
        ls = leaves(restrict(f, st.cond))
        if len(ls) == 1:
            return self._call_leaf(ls[0][1], args, st, dty)
        states = []
        for c, l in ls:
            s2 = st.copy()
            s2.cond = AND(st.cond, c)
            if s2.cond is FALSE:
                continue
            v = self._call_leaf(l, args, s2, dty)
            s2.roots[('ret', 0)] = v
            states.append(s2)
        m = merge(states)
        if m is None:
            st.cond = FALSE
            return UNDEF
        v = m.roots.pop(('ret', 0))
        st.roots, st.cond = m.roots, m.cond
        return v

    def _call_leaf(self, l, args, st, dty):
        if l.op == 'ref':
            v = self.read_loc(st, (l.args[0], l.args[1]))
            ls = leaves(v)
            if len(ls) == 1 and ls[0][1].op == 'clos':
                return self._call_clos(ls[0][1], l, args, st)
            return self.call_value(v, args, st, dty)
        if l.op == 'clos':
            return self._call_clos(l, None, args, st)
        if l.op == 'fnitem':
            ty = self.db.by_name[l.args[0]]
            if ty.d['inst'] is None:
                raise Unsupported('fnitem')
            inst = self.db.insts[ty.d['inst']]
            return self.call(inst, args, st, dty or self.ret_ty(inst), None)
        if l.op == 'fnptr':
            inst = self.db.insts[l.args[0]]
            return self.call(inst, args, st, dty, None)
        if l.op == 'pyfn':
            return l.meta(self, args, st)
        raise Unsupported(('call value', show(l)))

    def ret_ty(self, inst):
        if inst.body is not None:
            return self.db.ty(inst.body['locals'][0])
        return None

    def _call_clos(self, c, ref, args, st):
        ty = self.db.by_name[c.args[0]]
        inst = self.db.insts[ty.d['inst']]
        body = inst.body
        if body is None:
            raise Unsupported('closure body ' + inst.name)
        selfty = self.db.ty(body['locals'][1])
        tmp = None
        if selfty.k == 'ref':
            if ref is None:
                ref = self.temp_ref(st, c, 'clos')
            a0 = ref
        else:
            a0 = c
        return self.run_inst(inst, [a0] + list(args), st)

    # ---------------------------------------------------------------- entry helper
    def sym_arg(self, st, name, ty):
        """fresh symbolic value of a type, references pointing at fresh roots"""
        if ty.k in ('ref', 'ptr'):
            root = ('P', name)
            to = ty.to
            if to.k in ('slice', 'str'):
                v = mkT('sym', name, to.name, ty=to.name)
                st.roots[root] = v
                return mkT('slice', root, (), INT(0), self.models.content_len(self, v))
            st.roots[root] = self.sym_arg(st, name, to)
            return mkT('ref', root, ())
        if ty.k == 'tuple':
            return mkT('tup', *[self.sym_arg(st, '%s.%d' % (name, i), t) for i, t in enumerate(ty.field_tys(0))])
        t = mkT('sym', name, ty.name, ty=ty.name)
        if ty.k == 'bool':
            return as_cond(t)
        return t

    def analyse(self, inst, names=None, pre=None, cond=TRUE):
        """summary of inst on symbolic arguments: (return value, final state, args)"""
        st = State({}, cond)
        body = inst.body
        if body is None:
            raise KeyError('no body for ' + inst.name)
        args = []
        nm = dict((l, n) for l, n in body['names'])
        for i in range(1, body['argc'] + 1):
            ty = self.db.ty(body['locals'][i])
            n = names[i - 1] if names else nm.get(i, 'a%d' % i)
            args.append(self.sym_arg(st, n, ty))
        if pre:
            pre(st, args)
        r = self.run_inst(inst, args, st)
        return r, st, args


def refs_of(v):
    r = v._refs
    if r is not None:
        return r
    s = set()

    def g(x):
        if isinstance(x, (T, N)):
            s.update(refs_of(x))
        elif isinstance(x, tuple):
            for y in x:
                g(y)
    if isinstance(v, N):
        for c in v.ch:
            s |= refs_of(c)
    else:
        if v.op in ('ref', 'slice'):
            s.add(v.args[0])
        for x in v.args:
            g(x)
    v._refs = frozenset(s)
    return v._refs
