"""Common machinery of the property rules: anchors, expectations, findings, evidence."""
import itertools
import os
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(40000)
import dump          # noqa: E402
import mirdb         # noqa: E402
import interp        # noqa: E402
import terms         # noqa: E402
import facts         # noqa: E402
import models        # noqa: E402
import loops         # noqa: E402
from terms import *  # noqa: E402,F401,F403

_dbs = {}
PURE_UNKNOWN = {'recover', 'sign', 'public_key', 'binary-merkle-root', 'sparse-merkle-root'}      # unmodelled callees that may appear in compared values (uninterpreted functions)


CONFIG = ['full']       # features /repo is analysed with


def db(config=None):
    config = config or CONFIG[0]
    if config not in _dbs:
        _dbs[config] = mirdb.DB(dump.dump(config))
    return _dbs[config]


class Missing(Exception):
    """an anchor the rule is stated about no longer exists"""


class Check:
    began = time.time()

    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.fns = set()
        self.blocks = 0
        self.samples = []
        self.rules = []
        self.notes = []
        self.t0 = time.time()

    # ------------------------------------------------------------ engine access
    def interp(self, config=None, **opts):
        d = db(config)
        models.DBREF[0] = d
        I = interp.Interp(d)
        I.opts.update(opts)
        return I

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def done(self, I):
        for i, bl in I.visited.items():
            x = I.db.insts[i]
            if x.krate in ('fuel_tx', 'fuel_types', 'fuel_crypto'):
                self.fns.add(x.name)
            self.blocks += len(bl)

    def where(self, inst):
        return '%s:%s %s' % (inst.d['file'], inst.d['line'], inst.name)

    # ------------------------------------------------------------ obligations
    def finding(self, key, msg, where='', detail=''):
        self.findings.append({'key': key, 'message': msg, 'where': where, 'detail': detail[:4000]})

    def undecide(self, key, why):
        self.undecided.append({'key': key, 'why': str(why)[:600]})

    def require(self, I, key, ok, where='', msg='', guard=TRUE, detail=None, unknown=()):
        """ok must hold under guard"""
        self.obligations += 1
        if not isinstance(ok, (T, N)):
            ok = BOOL(ok)
        bad = AND(guard, NOT(ok))
        if bad is FALSE:
            return self._ok(key)
        if mentions_unknown(bad, unknown):
            # try to refute in spite of it, or to find a case where it does not matter
            if facts.feasible_part(bad, I.extra_facts if I else []) is FALSE:
                return self._ok(key)
            x = expand_dup(bad)
            if x is not bad and facts.feasible_part(x, I.extra_facts if I else []) is FALSE:
                return self._ok(key)
            known = whatever(bad, unknown, {})
            if known is not FALSE:
                known = facts.feasible_part(known, I.extra_facts if I else [])
            if known is FALSE or mentions_unknown(known, unknown):
                known = few_rounds(I, bad, unknown)
            if known is FALSE:
                self.undecide(key, 'depends on an unanalysed value: ' + show(bad)[:400])
                return False
            bad = known
        cut = facts.STATS['cut']
        b2 = facts.feasible_part(bad, I.extra_facts if I else [])
        if b2 is FALSE:
            return self._ok(key)
        if facts.STATS['cut'] != cut:
            self.undecide(key, 'case split too large')
            return False
        b2 = congruent(I, guard, b2)
        if b2 is not FALSE and facts.feasible_part(b2, I.extra_facts if I else []) is FALSE:
            b2 = FALSE
        if b2 is FALSE:
            return self._ok(key)
        if not self.confirmed(I, b2):
            self.undecide(key, 'not shown to hold, but no counterexample with up to three elements in each sequence: ' + show(b2)[:300])
            return False
        cube = None
        try:
            cube = facts.witness(b2)
        except facts.TooMany:
            pass
        self.finding(key, msg, where, (detail or '') + ' | failing case: ' + show_cube(cube) if cube else show(b2)[:1500])
        return False

    def confirmed(self, I, bad):
        """unless condition bad is impossible whenever the sequences it quantifies over have at most three elements (then known one by one)"""
        ns = sorted({x.args[0] for op in terms.BINDERS for x in terms.subterms(bad, op) if isinstance(x.args[0], T) and x.args[0].op == 'len'
                     and not max_bv(x.args[0])}, key=lambda t: t.id)
        if not ns or len(ns) > 4 or large_bound(bad, set(ns)):
            return True
        for tot in range(0, 5):
            for cs in itertools.product(range(0, 4), repeat=len(ns)):
                if sum(cs) != tot:
                    continue
                if time.time() - self.began > 400:
                    return True
                mp = {n: INT(c) for n, c in zip(ns, cs)}
                b = replace(bad, mp)
                if b is FALSE:
                    continue
                cut = facts.STATS['cut']
                b = facts.feasible_part(b, [(replace(g, mp), replace(v, mp)) for g, v in I.extra_facts] if I else [])
                if b is not FALSE or facts.STATS['cut'] != cut:
                    return True
        return False

    def _ok(self, key):
        self.discharged += 1
        if len(self.samples) < 12:
            self.samples.append(key)
        return True

    def equal(self, I, key, got, want, where='', guard=TRUE, msg=None, unknown=()):
        ok = eqv(I, got, want)
        return self.require(I, key, ok, where, msg or 'value differs from what the property requires', guard,
                            'computed: %s ; required: %s' % (show(got)[:900], show(want)[:900]), unknown)

    def panics(self, I, key):
        """every panic / out-of-bounds / overflow obligation met while interpreting must have been discharged"""
        for o in I.obls:
            self.obligations += 1
            k = '%s/%s:%s:%s' % (key, o.fn, o.kind, o.desc[:80])
            if mentions_unknown(o.bad):
                self.undecide(k, 'depends on an unanalysed value')
            else:
                self.finding(k, 'may panic: ' + o.desc, '%s line %s' % (o.fn, o.line), show(o.bad)[:1500])
        n = I.n_obls - len(I.obls)
        self.obligations += n
        self.discharged += n

    BUDGET = 840           # seconds for the whole check

    def run(self, key, f):
        """run one analysis; a construct the analyser does not support leaves it undecided (reported, never guessed)"""
        left = self.BUDGET - (time.time() - self.t0)
        nf, no, nd = len(self.findings), self.obligations, self.discharged

        def alarm(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, min(300.0, left)))
        why = None
        try:
            return f()
        except interp.Unsupported as e:
            why = 'unsupported construct: %s' % (e,)
        except facts.TooMany:
            why = 'case split too large'
        except RecursionError:
            why = 'nesting too deep'
        except Timeout:
            why = 'analysis time limit'
        except Missing as e:
            why = 'anchor missing: %s' % e
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            why = 'analyser error: %s: %s' % (type(e).__name__, str(e)[:200])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        del self.findings[nf:]
        self.obligations, self.discharged = no + 1, nd
        self.undecide(key, why)
        return None


class Timeout(Exception):
    pass


def with_features(chk, config, f):
    """f(chk) with /repo analysed under another set of features, in a process of its own (terms and summaries do not mix)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sub = Check(chk.pid)
            sub.t0 = chk.t0
            CONFIG[0] = config
            try:
                f(sub)
            except Missing as e:
                sub.obligations += 1
                sub.undecide(config, 'anchor missing: %s' % e)
            d = dict(sub.__dict__)
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(d, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        chk.obligations += 1
        chk.undecide(config, 'the analysis with features %s ended with status %d' % (config, status))
        return
    d = pickle.loads(data)
    for x in d['findings']:
        chk.findings.append(dict(x, key='[%s] %s' % (config, x['key'])))
    for x in d['undecided']:
        chk.undecided.append(dict(x, key='[%s] %s' % (config, x['key'])))
    chk.obligations += d['obligations']
    chk.discharged += d['discharged']
    chk.fns |= d['fns']
    chk.blocks += d['blocks']
    chk.samples += ['[%s] %s' % (config, x) for x in d['samples'][:6]]
    for x in d['rules']:
        chk.rule(x)


def find(d, self_item, item, trait=None):
    try:
        r = d.method(self_item, item, trait)
    except KeyError:
        raise Missing('%s::%s%s' % (self_item, item, ' of ' + trait if trait else ''))
    return r


def fn(d, suffix):
    try:
        return d.fn(suffix)
    except KeyError:
        raise Missing(suffix)


def eqv(I, a, b):
    if a is b:
        return TRUE
    return apply_n(_eql(I), a, b)


def _eql(I):
    def f(x, y):
        if x is y:
            return TRUE
        if x is UNDEF or y is UNDEF:
            return UNDEF
        return leaf_eq(I, x, y)
    return f


_fresh = [0]


def leaf_eq(I, x, y):
    """sufficient and, for the values rules compare, necessary condition of equality (binders compared pointwise)"""
    if x.op == y.op and x.op in ('enc', 'sha256') and len(x.args) == len(y.args):
        return AND(*[eqv(I, p, q) for p, q in zip(x.args, y.args)])
    if x.op == 'adt' and y.op == 'adt' or x.op == 'tup' and y.op == 'tup':
        if x.op == 'adt' and x.args[1] != y.args[1]:
            return FALSE
        p, q = (x.args[2], y.args[2]) if x.op == 'adt' else (x.args, y.args)
        return AND(*[eqv(I, u, w) for u, w in zip(p, q)])
    tx = I.db.by_name.get(x.ty) if x.ty and x.ty == y.ty else None
    if tx is not None and tx.k == 'adt' and tx.d['adt'] == 'struct' and tx.d['krate'] in ('fuel_tx', 'fuel_types') and x.op in ('sym', 'fld', 'idx') \
            and y.op in ('sym', 'fld', 'idx'):
        return AND(*[eqv(I, I.field(x, 0, j, tx.name), I.field(y, 0, j, tx.name)) for j in range(len(tx.field_tys(0)))])
    for u, w in ((x, y), (y, x)):
        if u.op == 'adt' and w.op != 'adt':
            ty = I.db.by_name.get(u.args[0])
            if ty is not None and ty.k == 'adt':
                vi = u.args[1]
                fts = ty.field_tys(vi)
                same = AND(*[eqv(I, p, models.mk_fld(w, vi, j, fts[j].name)) for j, p in enumerate(u.args[2])])
                n = len(ty.d['variants'])
                if ty.d['adt'] == 'struct' or n == 1:
                    return same
                return mk(var_enum(w, n), [same if i == vi else FALSE for i in range(n)])
    if (x.op == 'comp' or y.op == 'comp') and all(models.content_len(I, t) is not UNDEF for t in (x, y)):
        _fresh[0] += 1
        k = idxsym('?e%d' % _fresh[0])
        if x.op == 'comp' and y.op == 'comp' and not (x.args[2] is TRUE and y.args[2] is TRUE):
            (g1, v1), (g2, v2) = bodies_at(x, k), bodies_at(y, k)
            inr = AND(le(INT(0), k), lt(k, x.args[0]))
            return AND(eqv(I, x.args[0], y.args[0]), OR(NOT(inr), AND(OR(AND(g1, g2), AND(NOT(g1), NOT(g2))), OR(NOT(g1), eqv(I, v1, v2)))))
        if not any(t.op == 'comp' and t.args[2] is not TRUE for t in (x, y)):
            n, m = models.content_len(I, x), models.content_len(I, y)
            inr = apply_n(lambda p: AND(le(INT(0), k), lt(k, p)), n)
            return AND(eqv(I, n, m), OR(NOT(inr), eqv(I, models.content_idx(I, x, k), models.content_idx(I, y, k))))
    return models._eq_leaf(I, x, y)


_unk = {}


def congruent(I, guard, bad):
    """bad with applications of one uninterpreted function to provably equal arguments identified"""
    apps = {}
    seen = set()

    def go(v):
        if isinstance(v, tuple):
            for x in v:
                go(x)
        elif isinstance(v, (T, N)) and v not in seen:
            seen.add(v)
            if isinstance(v, N):
                go(v.var.key)
                for c in v.ch:
                    go(c)
            else:
                for x in v.args:
                    go(x)
                if v.op == 'sha256' or v.op == 'app':
                    apps.setdefault((v.op, v.args[0] if v.op == 'app' else None, len(v.args)), []).append(v)
    go(bad)
    mp = {}
    for k, vs in apps.items():
        reps = []
        for v in vs[:40]:
            for w in reps:
                if mp.get(w, w) is w and all(same(I, guard, p, q) for p, q in zip(v.args, w.args)):
                    mp[v] = w
                    break
            else:
                reps.append(v)
    if mp:
        bad = terms.replace(bad, mp)
    return congruent_ex(I, guard, bad)


def congruent_ex(I, guard, bad):
    """bad with existence tests over one range identified whose bodies are equivalent in every case of bad"""
    exs = sorted((v.key for v in terms.cond_vars(bad).values() if v.kind == 'b' and isinstance(v.key, T) and v.key.op == 'ex'), key=lambda t: t.id)
    if len(exs) < 2:
        return bad
    ctx = AND(guard, forget(bad, {}))
    mp = {}
    reps = []
    for v in exs[:12]:
        for w in reps:
            if w.args[0] is v.args[0]:
                _fresh[0] += 1
                k = idxsym('?e%d' % _fresh[0])
                if same(I, AND(ctx, le(INT(0), k), lt(k, v.args[0])), terms.bodies_at(v, k)[0], terms.bodies_at(w, k)[0]):
                    mp[v] = w
                    break
        else:
            reps.append(v)
    return terms.replace(bad, mp) if mp else bad


def forget(v, memo):
    """a consequence of v that mentions no existence test"""
    if not isinstance(v, N):
        return v
    if v not in memo:
        ch = [forget(c, memo) for c in v.ch]
        memo[v] = OR(*ch) if v.var.kind == 'b' and isinstance(v.var.key, T) and v.var.key.op == 'ex' else mk(v.var, ch)
    return memo[v]


def same(I, guard, p, q):
    if not isinstance(p, (T, N)):
        return p == q
    d = NOT(eqv(I, p, q))
    return d is FALSE or facts.feasible_part(AND(guard, d), I.extra_facts if I else []) is FALSE


def whatever(v, ops, memo):
    """the part of condition v that holds whatever the values of what was not analysed"""
    if not isinstance(v, N):
        return v
    if v not in memo:
        ch = [whatever(c, ops, memo) for c in v.ch]
        memo[v] = AND(*ch) if mentions_unknown(v.var.key, ops) else mk(v.var, ch)
    return memo[v]


def few_rounds(I, bad, ops):
    """a violation when the iterated steps in condition bad run once, or twice (then known in full); or at one of the first positions of a sequence"""
    for d in terms.subterms(bad, 'dup'):
        k = d.args[1]
        if isinstance(k, T) and k.op == 'sym' and k.args[0].startswith('?e'):
            for c in (1, 2):
                b = settled(I, bad, ops, {k: INT(c)})
                if b is not FALSE:
                    return AND(eq_int(k, INT(c)), b)
    ns = {x.args[0] for op in terms.BINDERS for x in terms.subterms(bad, op) if isinstance(x.args[0], T) and x.args[0].op in ('len', 'sym', 'fld', 'field')}
    first = {t.args[0] for t in terms.subterms(bad, 'ufold')}
    if not first and not terms.subterms(bad, 'dup'):
        return FALSE
    ns = sorted(ns, key=lambda t: (t not in first, t.id))[:4]
    for n in ns:
        others = [m for m in ns if m is not n]
        for c in (1, 2):
            for rest in ([], others) if others else ([],):
                mp = {n: INT(c)}
                mp.update((m, INT(0)) for m in rest)
                b = settled(I, bad, ops, mp)
                if b is not FALSE:
                    return AND(eq_int(n, INT(c)), *[eq_int(m, INT(0)) for m in rest], b)
    return FALSE


def expand_dup(bad):
    """an equal element before an arbitrary position, stated as existence"""
    mp = {}
    for d in terms.subterms(bad, 'dup'):
        k = d.args[1]
        if d.args[2] in ('unique', 'all') and isinstance(k, T) and k.op == 'sym' and k.args[0].startswith('?e'):
            j = terms.idxsym('?i')
            (g, v), (_, w) = terms.bodies_at(d.args[0], j), terms.bodies_at(d.args[0], k)
            mp[d] = terms.mkbind('ex', k, j, (AND(g, models.eq_val(None, v, w)),))
    return replace(bad, mp) if mp else bad


def settled(I, bad, ops, mp):
    """condition bad with the given terms replaced by numbers, if that leaves nothing unknown"""
    b = replace(bad, mp)
    if b is FALSE or mentions_unknown(b, ops):
        return FALSE
    return facts.feasible_part(b, [(replace(g, mp), replace(v, mp)) for g, v in I.extra_facts] if I else [])


def large_bound(bad, ns):
    """a length among ns, or a position, is compared with a number above three or reduced"""
    for v in all_vars(bad):
        if v.kind == 't':
            c, parts = terms.lin_parts(v.key)
            if any(a in ns or a.op == 'bv' for a in parts) and (abs(v.k - c) > 3 or abs(c) > 3) and len(parts) <= 2:
                return True
    return any(max_bv(t) or any(x in ns for x in terms.subterms(t, 'len')) for op in ('trunc', 'mod', 'div') for t in terms.subterms(bad, op))


def all_vars(v):
    """the variables of the conditions in v, nested ones included"""
    seen, out, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, (T, N)) and x not in seen:
            seen.add(x)
            if isinstance(x, N):
                out.add(x.var)
                todo.append(x.var.key)
                todo.extend(x.ch)
            else:
                todo.extend(x.args)
    return out


def mentions_unknown(v, ops=()):
    r = _unk.get((v, ops))
    if r is None:
        r = _mu(v, set(), ops)
        _unk[(v, ops)] = r
    return r


def _mu(v, seen, ops):
    if isinstance(v, tuple):
        return any(_mu(x, seen, ops) for x in v)
    if not isinstance(v, (T, N)) or v in seen:
        return False
    seen.add(v)
    if isinstance(v, N):
        return _mu(v.var.key, seen, ops) or any(_mu(c, seen, ops) for c in v.ch)
    if v.op == 'sym':
        a = v.args[0]
        return a.startswith('havoc') or a.startswith('mu') and a[2:].isdigit() or a == 'iterator-after-find'
    if v.op in ('mut', 'opaqueconst', 'transmute', 'dup', 'sorted', 'ufold') or v.op in ops:
        return True
    if v.op == 'app' and v.args[0] not in PURE_UNKNOWN:
        return True
    if v.op == 'eq' and interp.refs_of(v):
        return True     # a comparison of addresses, or of what was not read
    return any(_mu(x, seen, ops) for x in v.args)


def show_cube(cube):
    if cube is None:
        return '?'
    out = []
    for var, i in cube:
        out.append(show_lit(var, i))
    return ' & '.join(out)[:1500]


def show_lit(var, i):
    if var.kind == 'b':
        return ('' if i else 'not ') + show(var.key)
    if var.kind == 't':
        return '%s %s %d' % (show(var.key), '>=' if i else '<', var.k)
    return 'variant(%s)=%d' % (show(var.key), i)


# ------------------------------------------------------------ symbolic values by type
def per_variant(sym, ty, f):
    """value depending on the variant of the opaque enum value sym: f(index, name, fields) where fields maps names to terms"""
    outs = []
    vs = ty.d['variants']
    for i, v in enumerate(vs):
        flds = {}
        for j, (fname, fty) in enumerate([f[:2] for f in v['fields']]):
            flds[fname] = models.mk_fld(sym, i, j, ty.db.ty(fty).name)
        outs.append(f(i, v['name'], flds))
    if len(vs) == 1:
        return outs[0]
    return mk(var_enum(sym, len(vs)), outs)


def fields_of(sym, ty, variant=0):
    return {fname: models.mk_fld(sym, variant, j, ty.db.ty(fty).name) for j, (fname, fty) in enumerate([f[:2] for f in ty.d['variants'][variant]['fields']])}


def some(ty, v):
    """Option of static type ty"""
    return map_leaves(lambda l: mkT('adt', ty.name, 1, (l,)), v) if False else mkT('adt', ty.name, 1, (v,))


def none(ty):
    return mkT('adt', ty.name, 0, ())


def boolv(b):
    return TRUE if b else FALSE


def ret_ty(inst):
    return inst.db.ty(inst.body['locals'][0])


def struct_val(ty, variant, vals):
    """construct variant (by name, None for structs) from name->value; every field must be given"""
    vs = ty.d['variants']
    i = 0 if variant is None else ty.variant_index(variant)
    names = [f[0] for f in vs[i]['fields']]
    miss = set(names) ^ set(vals)
    if miss:
        raise Missing('fields of %s::%s: %s' % (ty.name, variant, sorted(miss)))
    return models.mk_adt(ty.name, i, tuple(vals[n] for n in names))
