"""Models of std / core / alloc / itertools / digest / merkle / secp / fmt operations."""
import terms
from terms import *
import facts
from models import *
from models import model, model_rx
import models
from interp import State, merge, Unsupported
import loops

UNS = Unsupported


# ---------------------------------------------------------------- helpers
def as_slice(I, st, v):
    """reference value -> gated slice leaf value"""
    def f(l):
        if l.op == 'slice':
            return l
        if l.op == 'undef':
            return UNDEF
        if l.op == 'ref':
            loc = (l.args[0], l.args[1])
            c = I.read_loc(st, loc)

            def g(cl):
                if cl.op in ('ref', 'slice'):
                    return as_slice(I, st, cl)
                if cl.op == 'adt':          # newtype around a container
                    return as_slice(I, st, mkT('ref', loc[0], loc[1] + (('f', cl.args[1], 0, cl.args[0]),)))
                return UNDEF
            if any(x.op in ('ref', 'slice') for x in leafset(c)):
                return map_leaves(g, c)
            return map_leaves(lambda n: mkT('slice', loc[0], loc[1], INT(0), n), content_len(I, c))
        if l.op in ('arr', 'bstr', 'str', 'comp', 'log', 'cat', 'sub', 'be'):
            r = I.temp_ref(st, l)
            return map_leaves(lambda n: mkT('slice', r.args[0], (), INT(0), n), content_len(I, l))
        loc = I.opaque_loc(st, l)
        c = I.read_loc(st, loc)
        return map_leaves(lambda n: mkT('slice', loc[0], loc[1], INT(0), n), content_len(I, c))
    return map_leaves(f, restrict(v, st.cond))


def slen(I, st, v):
    return map_leaves(lambda s: s.args[3], as_slice(I, st, v))


def elem_ref(s, i):
    """reference(s) to element i of slice leaf s"""
    return map_leaves(lambda o: mkT('ref', s.args[0], s.args[1] + (('i', o),)), add(s.args[2], i))


def split(st, c):
    a = st.copy()
    a.cond = AND(st.cond, c)
    b = st.copy()
    b.cond = AND(st.cond, NOT(c))
    return a, b


def rejoin(st, parts):
    """merge [(state, value)] into st, return value"""
    ss = []
    for s, v in parts:
        if s.cond is FALSE:
            continue
        s.roots[('rj', 0)] = v
        ss.append(s)
    m = merge(ss)
    if m is None:
        st.cond = FALSE
        return UNDEF
    v = m.roots.pop(('rj', 0))
    st.roots, st.cond = m.roots, m.cond
    return v


def branch(I, st, c, f, g):
    """value of f(state) when c else g(state), each on its own state"""
    c = restrict(c, st.cond)
    if c is TRUE:
        return f(st)
    if c is FALSE:
        return g(st)
    a, b = split(st, c)
    parts = []
    if a.cond is not FALSE:
        parts.append((a, f(a)))
    if b.cond is not FALSE:
        parts.append((b, g(b)))
    return rejoin(st, parts)


def opt_some(v):
    """(is_some condition, payload) of an Option value given as gated adts or opaque"""
    def c(l):
        if l.op == 'adt':
            return BOOL(l.args[1] == 1)
        if l is UNDEF:
            return UNDEF
        return mk(var_enum(l, 2), (FALSE, TRUE))
    def p(l):
        if l.op == 'adt':
            return l.args[2][0] if l.args[1] == 1 else UNDEF
        if l is UNDEF:
            return UNDEF
        ty = DBREF[0].by_name.get(l.ty)
        return mk_fld(l, 1, 0, ty.field_tys(1)[0].name if ty else None)
    return map_leaves(c, v), map_leaves(p, v)


def cond_of(v):
    return as_cond(v)


# ---------------------------------------------------------------- iterators
def mk_iter(src, stages=(), pos=INT(0)):
    return apply_n(lambda s, p: mkT('iter', s, stages, p), src, pos)


def slice_iter(I, st, v):
    def f(s):
        k = idxsym('?i')
        return map_leaves(lambda seq: mkT('iter', seq, (), INT(0)), mk_seq(s.args[3], k, elem_ref(s, k)))
    return map_leaves(f, as_slice(I, st, v))


def content_iter(I, st, v):
    def f(t):
        if t.op == 'uniq':
            r = content_iter(I, st, t.args[0])
            return map_leaves(lambda it: mkT('iter', it.args[0], it.args[1] + (('uniq',),), it.args[2]), r)
        if t.op == 'comp' and t.args[2] is not TRUE:
            with opened(t) as (k, bs):
                s = mk_seq(t.args[0], k, mkT('tup', *bs))
            return map_leaves(lambda q: mkT('iter', q, (('guarded',),), INT(0)), s)
        if t.op == 'cat' and any(c.op == 'comp' for l, c in t.args):
            raise UNS('iteration over concatenation')
        k = idxsym('?i')
        return map_leaves(lambda q: mkT('iter', q, (), INT(0)), mk_seq(content_len(I, t), k, content_idx(I, t, k)))
    return map_leaves(f, v)


def to_iter(I, st, v, ty=None):
    def f(l):
        if l.op == 'iter':
            return l
        if l.op == 'adt':
            ty_ = I.db.by_name.get(l.args[0])
            it = ty_.d['item'] if ty_ is not None and ty_.k == 'adt' else ''
            if it == 'Range':
                a, b = l.args[2]
                k = idxsym('?i')
                n = ite(le(a, b), sub(b, a), INT(0))
                return apply_n(lambda nn, aa: mkT('iter', close_raw('seq', nn, k, (add(aa, k),)), (), INT(0)), n, a)
            if it == 'RangeInclusive':
                a, b = l.args[2][0], l.args[2][1]
                k = idxsym('?i')
                n = ite(le(a, b), add(sub(b, a), INT(1)), INT(0))
                return apply_n(lambda nn, aa: mkT('iter', close_raw('seq', nn, k, (add(aa, k),)), (), INT(0)), n, a)
            if it == 'Option':
                c, p = opt_some(l)
                k = idxsym('?i')
                return mkT('iter', close_raw('seq', INT(l.args[1]), k, (p if l.args[1] else INT(0),)), (), INT(0))
            raise UNS(('iterate', it))
        if l.op in ('slice', 'ref'):
            if l.op == 'ref':
                c = I.read_loc(st, (l.args[0], l.args[1]))
                its = [x for x in leafset(c) if x.op == 'iter']
                if its:
                    return mkT('byref', l.args[0], l.args[1])
                sets = [x for x in leafset(c) if x.op in ('setof',)]
            return slice_iter(I, st, l)
        if l is UNDEF:
            return UNDEF
        ty_ = tyof(I, l)
        if ty_ is not None and ty_.k == 'adt' and ty_.d['item'] == 'Option':
            c, p = opt_some(l)
            k = idxsym('?i')
            return ite(c, mkT('iter', close_raw('seq', INT(1), k, (p,)), (), INT(0)), mkT('iter', close_raw('seq', INT(0), k, (INT(0),)), (), INT(0)))
        return content_iter(I, st, l)
    return map_leaves(f, restrict(v, st.cond))


def seq_len(src):
    return src.args[0]


def seq_elem(src, i):
    return bodies_at(src, i)[0]


def has_skip(stages):
    return any(s[0] in ('filter', 'filter_map', 'guarded', 'uniq', 'flatten') for s in stages)


def apply_stages(I, st, x, stages, idx, n=0):
    """[(kind, state, value)] kind 'pass' | 'skip' | 'stop'"""
    cur = [('pass', st, x)]
    done = []
    for si, sg in enumerate(stages):
        nxt = []
        for kind, s, v in cur:
            k = sg[0]
            if k == 'map':
                nxt.append(('pass', s, I.call_value(sg[1], [v], s, None)))
            elif k == 'enumerate':
                if has_skip(stages[:si]):
                    raise UNS('enumerate after filter')
                nxt.append(('pass', s, mkT('tup', add(idx, sg[1]), v)))
            elif k in ('cloned', 'copied'):
                nxt.append(('pass', s, I.freeze(s, v)))
            elif k == 'inspect':
                r = I.temp_ref(s, v)
                I.call_value(sg[1], [r], s, None)
                nxt.append(('pass', s, v))
            elif k == 'filter':
                r = I.temp_ref(s, v)
                c = cond_of(I.call_value(sg[1], [r], s, None))
                a, b = split(s, restrict(c, s.cond))
                if a.cond is not FALSE:
                    nxt.append(('pass', a, restrict(v, a.cond)))
                if b.cond is not FALSE:
                    done.append(('skip', b, None))
            elif k in ('filter_map', 'flatten', 'guarded', 'map_while', 'take_while'):
                if k == 'guarded':
                    c, p = v.args[0], v.args[1]
                elif k == 'take_while':
                    r = I.temp_ref(s, v)
                    c, p = cond_of(I.call_value(sg[1], [r], s, None)), v
                else:
                    o = v if k == 'flatten' else I.call_value(sg[1], [v], s, None)
                    c, p = opt_some(o)
                c = restrict(c, s.cond)
                a, b = split(s, c)
                if a.cond is not FALSE:
                    nxt.append(('pass', a, restrict(p, a.cond)))
                if b.cond is not FALSE:
                    done.append(('stop' if k in ('map_while', 'take_while') else 'skip', b, None))
            elif k == 'uniq':
                # passes unless an equal element passed before: an opaque condition on the index, dropped where only existence matters (terms.undup)
                w = I.freeze(s, v)
                if idx is INT(0):
                    nxt.append(('pass', s, v))
                    continue
                if not isinstance(idx, T) or idx.op != 'sym':
                    raise UNS('position of a deduplicated element')
                S = close_raw('dupseq', INT(0), idx, (restrict(s.cond, st.cond), restrict(w, s.cond)))
                d = as_cond(mkT('dup', S, idx, sg[1] if len(sg) > 1 else 'all', ty='bool'))
                a, b = s.copy(), s.copy()
                a.cond, b.cond = AND(s.cond, NOT(d)), AND(s.cond, d)
                nxt.append(('pass', a, v))
                done.append(('skip', b, None))
            elif k == 'zip':
                other = sg[1]
                y = seq_elem(other.args[0], add(other.args[2], idx))
                r = apply_stages(I, s, y, other.args[1], idx)
                for kk, s2, y2 in r:
                    if kk != 'pass':
                        raise UNS('zip with filter')
                    nxt.append(('pass', s2, mkT('tup', v, y2)))
            else:
                raise UNS(('stage', k))
        cur = nxt
    return cur + done


def iter_loop(I, st, it, consumer, label='iter'):
    """drive iterator leaf `it` to its end or to an exit of the consumer.
    consumer(state, elem) -> [(tag or None, state)]; None continues. Returns [(tag, state, count)]"""
    src, stages, pos = it.args
    if isinstance(pos, N):
        res = []
        for c, p in leaves(pos, st.cond):
            s = st.copy()
            s.cond = AND(st.cond, c)
            if s.cond is not FALSE and p is not UNDEF:
                res += iter_loop(I, s, mkT('iter', src, stages, p, ty=it.ty), consumer, label)
        return res
    n = ite(le(pos, seq_len(src)), sub(seq_len(src), pos), INT(0))
    if len(leafset(n)) > 1:
        n = sub(seq_len(src), pos) if provable(le(pos, seq_len(src))) else n
    res = []

    def run(nn, s0):
        loops._muc[0] += 1
        k = idxsym('k%d' % loops._muc[0])

        def body(s):
            x = seq_elem(src, add(pos, k))
            conts, exits = [], []
            for kind, s2, v in apply_stages(I, s, x, stages, add(pos, k)):
                if s2.cond is FALSE:
                    continue
                I.cur_pos = add(pos, k)
                if kind == 'skip':
                    conts.append(s2)
                elif kind == 'stop':
                    exits.append(('stop', s2))
                else:
                    for tag, s3 in consumer(s2, v):
                        if s3.cond is FALSE:
                            continue
                        if tag is None:
                            conts.append(s3)
                        else:
                            exits.append((tag, s3))
            return conts, exits
        out = loops.summarise(I, s0, body, N_given=nn, k=k, label=label)
        return [((None if tg == 'stop' else tg), s) for tg, s in out]
    ls = leaves(n, st.cond)
    if len(ls) == 1:
        return run(ls[0][1], st)
    for c, l in ls:
        s = st.copy()
        s.cond = AND(st.cond, c)
        if s.cond is not FALSE:
            res += run(l, s)
    return res


def drive(I, st, itv, consumer, label='iter'):
    """iter_loop over a gated iterator value; accumulates [(tag,state)]"""
    out = []
    ls = leaves(restrict(itv, st.cond), TRUE)
    for c, l in ls:
        s = st if len(ls) == 1 else st.copy()
        if len(ls) > 1:
            s.cond = AND(st.cond, c)
            if s.cond is FALSE:
                continue
        if l.op == 'byref':
            cur = I.read_loc(s, (l.args[0], l.args[1]))
            out += drive(I, s, cur, consumer, label)
            continue
        if l.op == 'chain':
            first = drive(I, s, l.args[0], consumer, label)
            for tg, s2 in first:
                if tg is None:
                    out += drive(I, s2, l.args[1], consumer, label)
                else:
                    out.append((tg, s2))
            continue
        if l.op != 'iter':
            raise UNS(('not an iterator', show(l)[:200]))
        out += iter_loop(I, s, l, consumer, label)
    return out


ACC = [0]


def new_root():
    ACC[0] += 1
    return ('acc', ACC[0])


def finish(I, st, res, root):
    """merge the outcome states; the value lives in root"""
    states = [s for tg, s in res if s.cond is not FALSE]
    m = merge(states)
    if m is None:
        st.cond = FALSE
        return UNDEF
    v = m.roots.pop(root, UNDEF)
    st.roots, st.cond = m.roots, m.cond
    return restrict(v, st.cond)


def self_iter(I, st, v):
    """iterator given by value or behind &mut; returns gated iter value and a write-back function"""
    def f(l):
        if l.op == 'ref':
            return I.read_loc(st, (l.args[0], l.args[1]))
        if l.op == 'byref':
            return I.read_loc(st, (l.args[0], l.args[1]))
        return l
    return to_iter(I, st, map_leaves(f, restrict(v, st.cond)))


@model('core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::IntoIterator::into_iter')
def into_iter(I, inst, a, st, dty, atys):
    t = atys[0]
    while t.k in ('ref', 'ptr'):
        t = t.to
    if t.k == 'adt' and t.d['item'] in ('HashSet', 'BTreeSet'):
        raise UNS('iteration over a set')
    return to_iter(I, st, a[0])


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'alloc::vec::Vec::iter')
def sl_iter(I, inst, a, st, dty, atys):
    v = a[0]
    # a container of unique elements iterates as unique
    def f(l):
        if l.op == 'slice':
            c = I.read_loc(st, (l.args[0], l.args[1]))
            if isinstance(c, T) and c.op == 'uniq':
                r = content_iter(I, st, c)
                return map_leaves(lambda it: mkT('iter', it.args[0], it.args[1] + (('mkref',),), it.args[2]), r)
        return slice_iter(I, st, l)
    return map_leaves(f, as_slice(I, st, v))


@model('alloc::vec::Vec::drain')
def v_drain(I, inst, a, st, dty, atys):
    c = I.deref_read(st, a[0])
    lo, hi = range_bounds(I, st, a[1], content_len(I, c))
    if lo is INT(0) and hi is content_len(I, c):
        for cnd, loc in I.deref_locs(st, a[0]):
            I.write_loc(st, loc, mkT('arr'), cnd)
        return content_iter(I, st, c)
    raise UNS('drain')


def stage(name):
    def f(I, inst, a, st, dty, atys):
        it = to_iter(I, st, a[0])

        def g(l):
            if l.op == 'byref':
                raise UNS('adaptor on by_ref')
            if l.op == 'chain':
                if name == 'uniq':
                    raise UNS('deduplicated chain')
                return mkT('chain', g(l.args[0]), g(l.args[1]))
            sg = (name,) + tuple(a[1:])
            if name == 'enumerate':
                sg = ('enumerate', terms._scale(l.args[2], -1))
            return mkT('iter', l.args[0], l.args[1] + (sg,), l.args[2])
        return map_leaves(g, it)
    return f


IT = 'core::iter::traits::iterator::Iterator::'
for nm in ('map', 'filter', 'filter_map', 'enumerate', 'cloned', 'copied', 'inspect', 'flatten', 'map_while', 'take_while'):
    EXACT[IT + nm] = stage(nm)


@model(IT + 'by_ref')
def it_by_ref(I, inst, a, st, dty, atys):
    return a[0]


@model(IT + 'fuse', IT + 'peekable')
def it_id(I, inst, a, st, dty, atys):
    return to_iter(I, st, a[0])


@model(IT + 'chain')
def it_chain(I, inst, a, st, dty, atys):
    return apply_n(lambda x, y: mkT('chain', x, y), to_iter(I, st, a[0]), to_iter(I, st, a[1]))


@model(IT + 'flat_map')
def it_flat_map(I, inst, a, st, dty, atys):
    # only Option-producing closures
    return stage('filter_map')(I, inst, a, st, dty, atys)


@model(IT + 'take')
def it_take(I, inst, a, st, dty, atys):
    def f(l, n):
        if has_skip(l.args[1]):
            raise UNS('take after filter')
        src, stages, pos = l.args
        full = seq_len(src)
        cut = add(pos, n)
        nn = ite(le(cut, full), cut, full)
        with opened(src) as (k, bs):
            return map_leaves(lambda m: mkT('iter', close_raw('seq', m, k, bs), stages, pos), nn)
    return apply_n(f, to_iter(I, st, a[0]), a[1])


@model(IT + 'skip')
def it_skip(I, inst, a, st, dty, atys):
    def f(l, n):
        if has_skip(l.args[1]):
            raise UNS('skip after filter')
        src, stages, pos = l.args
        full = seq_len(src)
        p2 = ite(le(add(pos, n), full), add(pos, n), full)
        return map_leaves(lambda p: mkT('iter', src, stages, p), p2)
    return apply_n(f, to_iter(I, st, a[0]), a[1])


@model(IT + 'rev')
def it_rev(I, inst, a, st, dty, atys):
    def f(l):
        src, stages, pos = l.args
        if has_skip(stages) and any(s[0] == 'enumerate' for s in stages):
            raise UNS('rev of filtered enumerate')
        n = seq_len(src)
        if pos is not INT(0):
            raise UNS('rev of advanced iterator')
        if any(s[0] == 'enumerate' for s in stages):
            # materialise the index
            k = idxsym('?i')
            x = seq_elem(src, k)
            i = [j for j, s in enumerate(stages) if s[0] == 'enumerate'][0]
            if i != 0:
                raise UNS('rev of enumerate')
            k2 = idxsym('?i')
            r = sub(sub(n, INT(1)), k2)
            return mkT('iter', close_raw('seq', n, k2, (mkT('tup', r, seq_elem(src, r)),)), stages[1:], INT(0))
        k2 = idxsym('?i')
        r = sub(sub(n, INT(1)), k2)
        return mkT('iter', close_raw('seq', n, k2, (seq_elem(src, r),)), stages, INT(0))
    return map_leaves(f, to_iter(I, st, a[0]))


@model(IT + 'step_by')
def it_step(I, inst, a, st, dty, atys):
    def f(l, n):
        src, stages, pos = l.args
        if stages or n.op != 'int':
            raise UNS('step_by')
        k = idxsym('?i')
        full = sub(seq_len(src), pos)
        return map_leaves(lambda m: mkT('iter', close_raw('seq', m, k, (seq_elem(src, add(pos, mul(k, n))),)), (), INT(0)),
                          ediv(add(full, sub(n, INT(1))), n))
    return apply_n(f, to_iter(I, st, a[0]), a[1])


@model(IT + 'zip', 'core::iter::adapters::zip::zip')
def it_zip(I, inst, a, st, dty, atys):
    def f(x, y):
        if has_skip(x.args[1]) or has_skip(y.args[1]):
            raise UNS('zip with filter')
        src, stages, pos = x.args
        nx = sub(seq_len(src), pos)
        ny = sub(seq_len(y.args[0]), y.args[2])
        n = add(imin(nx, ny), pos)
        with opened(src) as (k, bs):
            off = sub(y.args[2], pos)
            return map_leaves(lambda q: map_leaves(lambda m: mkT('iter', close_raw('seq', m, k, bs), stages + (
                ('zip', mkT('iter', y.args[0], y.args[1], q)),), pos), n), off)
    return apply_n(f, to_iter(I, st, a[0]), to_iter(I, st, a[1]))


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_mut',
       'core::slice::<impl [T]>::chunks_exact_mut')
def sl_chunks(I, inst, a, st, dty, atys):
    exact = 'exact' in inst.key

    def f(s, n):
        if n.op != 'int' or n.args[0] == 0:
            raise UNS('chunk size')
        k = idxsym('?i')
        root, path, off, ln = s.args
        cnt = ediv(ln, n) if exact else ediv(add(ln, sub(n, INT(1))), n)
        o = add(off, mul(k, n))
        if exact:
            w = n
        else:
            rem = sub(ln, mul(k, n))
            w = ite(le(n, rem), n, rem)
        el = apply_n(lambda oo, ww: mkT('slice', root, path, oo, ww), o, w)
        return map_leaves(lambda c: mkT('iter', close_raw('seq', c, k, (el,)), (), INT(0)), cnt)
    return apply_n(f, as_slice(I, st, a[0]), a[1])


@model('core::slice::<impl [T]>::windows')
def sl_windows(I, inst, a, st, dty, atys):
    def f(s, n):
        if n.op != 'int' or n.args[0] == 0:
            raise UNS('window size')
        k = idxsym('?i')
        root, path, off, ln = s.args
        cnt = ite(le(n, ln), add(sub(ln, n), INT(1)), INT(0))
        el = map_leaves(lambda oo: mkT('slice', root, path, oo, n), add(off, k))
        return map_leaves(lambda c: mkT('iter', close_raw('seq', c, k, (el,)), (), INT(0)), cnt)
    return apply_n(f, as_slice(I, st, a[0]), a[1])


@model('core::iter::sources::empty::empty')
def it_empty(I, inst, a, st, dty, atys):
    k = idxsym('?i')
    return mkT('iter', close_raw('seq', INT(0), k, (INT(0),)), (), INT(0))


@model('core::iter::sources::once::once')
def it_once(I, inst, a, st, dty, atys):
    k = idxsym('?i')
    return mkT('iter', close_raw('seq', INT(1), k, (a[0],)), (), INT(0))


@model('core::iter::sources::repeat::repeat')
def it_repeat(I, inst, a, st, dty, atys):
    k = idxsym('?i')
    return mkT('iter', close_raw('seq', INT(MAXLEN), k, (a[0],)), (), INT(0))


# --- next
@model(IT + 'next')
def it_next(I, inst, a, st, dty, atys):
    skips = I.skips
    in_loop = I.in_loop
    locs = I.deref_locs(st, a[0])
    if len(locs) != 1:
        raise UNS('next on gated iterator reference')
    loc = locs[0][1]
    cur = restrict(I.read_loc(st, loc), st.cond)
    if isinstance(cur, T) and cur.op == 'byref':
        loc = (cur.args[0], cur.args[1])
        cur = restrict(I.read_loc(st, loc), st.cond)
    ls = leaves(cur)
    if len(ls) > 1:
        parts = []
        for c, l in ls:
            s = st.copy()
            s.cond = AND(st.cond, c)
            if s.cond is FALSE:
                continue
            I.write_loc(s, loc, l)
            parts.append((s, next_leaf(I, s, loc, l, dty, skips, in_loop)))
        return rejoin(st, parts)
    return next_leaf(I, st, loc, ls[0][1], dty, skips, in_loop)


def next_leaf(I, st, loc, it, dty, skips, in_loop):
    if it.op == 'adt':
        ty = I.db.by_name.get(it.args[0])
        if ty is not None and ty.d.get('item') in ('Range', 'RangeInclusive'):
            it = to_iter(I, st, it)
    if it.op != 'iter':
        raise UNS(('next of', show(it)[:120]))
    src, stages, pos = it.args
    n = seq_len(src)
    if not has_skip(stages) and not any(s[0] in ('take_while', 'map_while') for s in stages):
        def more(s):
            I.write_loc(s, loc, mk_iter(src, stages, add(pos, INT(1))))
            r = apply_stages(I, s, seq_elem(src, pos), stages, pos)
            assert len(r) == 1
            return opt(I, dty, r[0][2])
        return branch(I, st, lt(pos, n), more, lambda s: opt(I, dty, None))
    if in_loop and undisturbed(I, st, loc, pos):
        def more(s):
            I.write_loc(s, loc, mk_iter(src, stages, add(pos, INT(1))))
            vals = []
            for kind, s2, v in apply_stages(I, s, seq_elem(src, pos), stages, pos):
                if s2.cond is FALSE:
                    continue
                if kind == 'pass':
                    vals.append((s2, opt(I, dty, v)))
                elif kind == 'stop':
                    vals.append((s2, opt(I, dty, None)))
                else:
                    skips.append(s2)
            return rejoin(s, vals)
        return branch(I, st, lt(pos, n), more, lambda s: opt(I, dty, None))
    # find the first passing element
    root = new_root()
    st.roots[root] = opt(I, dty, None)

    def consumer(s, v):
        s.roots[root] = opt(I, dty, v)
        I.write_loc(s, loc, mk_iter(src, stages, add(I.cur_pos, INT(1))))
        return [('hit', s)]
    res = iter_loop(I, st, it, consumer, 'next')
    for tg, s in res:
        if tg is None:
            I.write_loc(s, loc, mk_iter(src, stages, n) if not stops(stages) else mkT('sym', 'iterator-after-stop'))
    return finish(I, st, res, root)


def stops(stages):
    return any(s[0] in ('take_while', 'map_while') for s in stages)


def undisturbed(I, st, loc, pos):
    """an element that the iterator passes over leads straight back to the head of the loop being executed: the iterator outlives the iteration and
    nothing has changed since its start"""
    roots, cond = I.entry
    if loc[0] not in roots:
        return False
    for r, v in st.roots.items():
        if r in roots and roots[r] is not v:
            return False
    if isinstance(pos, T) and st.cond is not cond:
        fresh = free_syms(pos) & free_syms(st.cond)
        return fresh <= free_syms(cond)
    return True


# --- vec![..]: a box filled in place, then turned into a vector
@model_rx(r'^alloc::boxed::Box::new_uninit$')
def box_uninit(I, inst, a, st, dty, atys):
    return I.temp_ref(st, mkT('uninit'))


@model_rx(r'^alloc::boxed::box_assume_init_into_vec_unsafe$')
def box_into_vec(I, inst, a, st, dty, atys):
    return I.deref_read(st, a[0])


# --- consumers
@model(IT + 'any')
def it_any(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = FALSE

    def consumer(s, v):
        c = restrict(cond_of(I.call_value(a[1], [v], s, None)), s.cond)
        x, y = split(s, c)
        x.roots[root] = TRUE
        return [('hit', x), (None, y)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'any')
    return finish(I, st, res, root)


@model(IT + 'all')
def it_all(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = TRUE

    def consumer(s, v):
        c = restrict(cond_of(I.call_value(a[1], [v], s, None)), s.cond)
        x, y = split(s, c)
        y.roots[root] = FALSE
        return [('hit', y), (None, x)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'all')
    return finish(I, st, res, root)


@model(IT + 'find')
def it_find(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = opt(I, dty, None)

    def consumer(s, v):
        r = I.temp_ref(s, v)
        c = restrict(cond_of(I.call_value(a[1], [r], s, None)), s.cond)
        x, y = split(s, c)
        x.roots[root] = opt(I, dty, v)
        return [('hit', x), (None, y)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'find')
    return finish(I, st, res, root)


@model(IT + 'find_map')
def it_find_map(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = opt(I, dty, None)

    def consumer(s, v):
        o = I.call_value(a[1], [v], s, dty)
        c, p = opt_some(o)
        x, y = split(s, restrict(c, s.cond))
        x.roots[root] = opt(I, dty, p)
        return [('hit', x), (None, y)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'find_map')
    return finish(I, st, res, root)


@model(IT + 'position')
def it_position(I, inst, a, st, dty, atys):
    root = new_root()
    cnt = new_root()
    st.roots[root] = opt(I, dty, None)
    st.roots[cnt] = INT(0)

    def consumer(s, v):
        c = restrict(cond_of(I.call_value(a[1], [v], s, None)), s.cond)
        x, y = split(s, c)
        x.roots[root] = opt(I, dty, x.roots[cnt])
        y.roots[cnt] = add(y.roots[cnt], INT(1))
        return [('hit', x), (None, y)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'position')
    r = finish(I, st, res, root)
    st.roots.pop(cnt, None)
    return r


@model(IT + 'count')
def it_count(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = INT(0)

    def consumer(s, v):
        s.roots[root] = add(s.roots[root], INT(1))
        return [(None, s)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'count')
    return finish(I, st, res, root)


@model(IT + 'sum')
def it_sum(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = INT(0)
    bits = dty.d.get('bits', 64) if dty is not None and dty.k == 'int' else None
    if dty is not None and dty.k != 'int':
        raise UNS('sum into ' + dty.name)

    def consumer(s, v):
        v = I.freeze(s, v)
        r = add(s.roots[root], v)
        I.oblige(s, le(r, INT((1 << bits) - 1)), 'Overflow', 'sum overflow')
        s.roots[root] = r
        return [(None, s)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'sum')
    return finish(I, st, res, root)


@model(IT + 'fold')
def it_fold(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = a[1]

    def consumer(s, v):
        acc = s.roots[root]
        s.roots[root] = I.call_value(a[2], [acc, v], s, None)
        return [(None, s)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'fold')
    return finish(I, st, res, root)


@model(IT + 'for_each')
def it_for_each(I, inst, a, st, dty, atys):
    root = new_root()
    st.roots[root] = UNIT
    f = hold_closure(I, st, a[1])

    def consumer(s, v):
        I.call_value(f, [v], s, None)
        return [(None, s)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'for_each')
    return finish(I, st, res, root)


def hold_closure(I, st, f):
    """closures that own mutable state must live in a root so their updates persist across calls"""
    if isinstance(f, T) and f.op == 'clos':
        return I.temp_ref(st, f, 'clos')
    return f


def result_parts(I, v, dty):
    """(is_ok cond) for Result / Option / ControlFlow typed dty"""
    it = dty.d['item']
    okv = {'Result': 0, 'Option': 1, 'ControlFlow': 0}[it]

    def c(l):
        if l is UNDEF:
            return UNDEF
        if l.op == 'adt':
            return BOOL(l.args[1] == okv)
        return mk(var_enum(l, 2), tuple(BOOL(i == okv) for i in range(2)))
    return map_leaves(c, v), okv


@model(IT + 'try_for_each')
def it_try_for_each(I, inst, a, st, dty, atys):
    root = new_root()
    okidx = {'Result': 0, 'Option': 1, 'ControlFlow': 0}[dty.d['item']]
    st.roots[root] = mkT('adt', dty.name, okidx, (UNIT,))
    f = hold_closure(I, st, a[1])

    def consumer(s, v):
        r = I.call_value(f, [v], s, dty)
        c, _ = result_parts(I, r, dty)
        x, y = split(s, restrict(c, s.cond))
        y.roots[root] = restrict(r, y.cond)
        return [('err', y), (None, x)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'try_for_each')
    return finish(I, st, res, root)


@model(IT + 'try_fold')
def it_try_fold(I, inst, a, st, dty, atys):
    root = new_root()
    acc = new_root()
    okidx = {'Result': 0, 'Option': 1, 'ControlFlow': 0}[dty.d['item']]
    st.roots[acc] = a[1]
    st.roots[root] = UNDEF
    f = hold_closure(I, st, a[2])

    def consumer(s, v):
        r = I.call_value(f, [s.roots[acc], v], s, dty)
        c, _ = result_parts(I, r, dty)
        x, y = split(s, restrict(c, s.cond))
        y.roots[root] = restrict(r, y.cond)
        x.roots[acc] = I.field(restrict(r, x.cond), okidx, 0, dty.name)
        return [('err', y), (None, x)]
    res = drive(I, st, self_iter(I, st, a[0]), consumer, 'try_fold')
    for tg, s in res:
        if tg is None:
            s.roots[root] = mkT('adt', dty.name, okidx, (s.roots[acc],))
    r = finish(I, st, res, root)
    st.roots.pop(acc, None)
    return r


@model(IT + 'last', IT + 'max', IT + 'min', IT + 'max_by_key', IT + 'nth', IT + 'min_by_key')
def it_opaque(I, inst, a, st, dty, atys):
    its = self_iter(I, st, a[0])
    if inst.item == 'nth':
        def f(l, n):
            if has_skip(l.args[1]):
                raise UNS('nth')
            src, stages, pos = l.args
            i = add(pos, n)

            def more(s):
                r = apply_stages(I, s, seq_elem(src, i), stages, i)
                return opt(I, dty, r[0][2])
            return branch(I, st, lt(i, seq_len(src)), more, lambda s: opt(I, dty, None))
        return f(its, a[1]) if isinstance(its, T) and isinstance(a[1], T) else NotImplemented
    raise UNS(inst.key)


def collect_content(I, st, itv):
    root = new_root()
    st.roots[root] = mkT('arr')
    flag = I.uniq_flag
    I.uniq_flag = False

    # direct form: no effects expected, build the comprehension through push
    def consumer(s, v):
        c = s.roots[root]
        s.roots[root] = map_leaves(lambda t: mkT('push', t, v), c) if not isinstance(c, T) or True else c
        return [(None, s)]
    res = drive(I, st, itv, consumer, 'collect')
    r = finish(I, st, res, root)
    if I.uniq_flag:
        r = map_leaves(lambda t: mkT('uniq', t), r)
    I.uniq_flag = flag
    return r


@model(IT + 'collect', 'itertools::Itertools::collect_vec', 'core::iter::traits::collect::FromIterator::from_iter')
def it_collect(I, inst, a, st, dty, atys):
    t = dty.d.get('item') if dty is not None and dty.k == 'adt' else None
    itv = self_iter(I, st, a[0])
    if t in ('Vec', 'VecDeque', 'String') or inst.item == 'collect_vec':
        return collect_content(I, st, itv)
    if t == 'Box':
        return collect_content(I, st, itv)
    if t in ('BTreeMap', 'HashMap'):
        root = new_root()
        st.roots[root] = mkT('mapnew')

        def consumer(s, v):
            kk = I.freeze(s, I.field(v, 0, 0, None))
            vv = I.freeze(s, I.field(v, 0, 1, None))
            s.roots[root] = map_leaves(lambda m: mkT('mput', m, kk, vv), s.roots[root])
            return [(None, s)]
        res = drive(I, st, itv, consumer, 'collect-map')
        return finish(I, st, res, root)
    if t in ('HashSet', 'BTreeSet'):
        root = new_root()
        st.roots[root] = mkT('arr')

        def consumer(s, v):
            s.roots[root] = set_insert(I, s.roots[root], I.freeze(s, v))
            return [(None, s)]
        res = drive(I, st, itv, consumer, 'collect-set')
        return finish(I, st, res, root)
    if t == 'Result' or t == 'Option':
        okidx = 0 if t == 'Result' else 1
        inner = dty.targs()[0]
        if inner.k == 'adt' and inner.d['item'] == 'Vec':
            root = new_root()
            acc = new_root()
            st.roots[acc] = mkT('arr')
            st.roots[root] = UNDEF

            def consumer(s, v):
                def c(l):
                    if l.op == 'adt':
                        return BOOL(l.args[1] == okidx)
                    return mk(var_enum(l, 2), tuple(BOOL(i == okidx) for i in range(2)))
                cc = restrict(map_leaves(c, v), s.cond)
                x, y = split(s, cc)
                ety = 'x'
                if t == 'Result':
                    y.roots[root] = mkT('adt', dty.name, 1, (map_leaves(lambda l: l.args[2][0] if l.op == 'adt' and l.args[1] == 1 else
                                                                       (UNDEF if l.op == 'adt' else mk_fld(l, 1, 0, None)), restrict(v, y.cond)),))
                else:
                    y.roots[root] = mkT('adt', dty.name, 0, ())
                pv = map_leaves(lambda l: l.args[2][0] if l.op == 'adt' and l.args[1] == okidx else (UNDEF if l.op == 'adt' else mk_fld(l, okidx, 0, None)), restrict(v, x.cond))
                x.roots[acc] = map_leaves(lambda q: mkT('push', q, pv), x.roots[acc])
                return [('err', y), (None, x)]
            res = drive(I, st, itv, consumer, 'collect-result')
            for tg, s in res:
                if tg is None:
                    s.roots[root] = mkT('adt', dty.name, okidx, (s.roots[acc],))
            r = finish(I, st, res, root)
            st.roots.pop(acc, None)
            return r
    raise UNS(('collect into', dty.name if dty else None))


@model('core::iter::traits::collect::Extend::extend')
def it_extend(I, inst, a, st, dty, atys):
    c = collect_content(I, st, to_iter(I, st, a[1]))
    c = I.freeze(st, c) if inst.self_ty is not None and elem_tyname(I, inst.self_ty.name) == 'u8' else c
    for cnd, loc in I.deref_locs(st, a[0]):
        I.write_loc(st, loc, cat_v(I, I.read_loc(st, loc), c), cnd)
    return UNIT


# --- itertools
@model('itertools::Itertools::unique', 'itertools::Itertools::dedup')
def it_unique(I, inst, a, st, dty, atys):
    return stage('uniq')(I, inst, [a[0], inst.item], st, dty, atys)


@model('itertools::Itertools::sorted', 'itertools::Itertools::sorted_unstable')
def it_sorted(I, inst, a, st, dty, atys):
    flag = I.uniq_flag
    I.uniq_flag = False
    c = I.freeze_content(st, collect_content(I, st, self_iter(I, st, a[0])))
    I.uniq_flag = flag
    by_ref = '::IntoIter<&' in (dty.name if dty is not None else '')
    return map_leaves(lambda t: sorted_iter(I, st, t, by_ref), c)


def sorted_iter(I, st, t, by_ref):
    k = idxsym('?i')
    el = sorted_elem(I, t, k)
    if by_ref:          # the elements are references: give the ordered contents a place of their own
        el = mkT('ref', I.temp_ref(st, mkT('sorted', t)).args[0], (('i', k),))
    return map_leaves(lambda n: mkT('iter', close_raw('seq', n, k, (el,)), (), INT(0)), content_len(I, t))


def sorted_neighbours(n, k, g):
    """neighbours of a sorted content are equal somewhere exactly when two of its elements are equal"""
    for s in terms.subterms(g, 'sorted'):
        t = s.args[0]
        I = models._dbi
        d, m, e, v = dup_parts(I, t)
        some = mkbind('ex', m, d, (e,))
        ln = content_len(I, t)
        if eq_val(I, sorted_elem(I, t, k), sorted_elem(I, t, add(k, INT(1)))) is g and sub(ln, INT(1)) is n:
            return some
        r = two_sorted(I, t, n, k, g, ln, some)
        if r is not None:
            return r
    return None


def two_sorted(I, t, n, k, g, ln, some):
    """some index < n with g, told apart by whether t has exactly two elements: these are in order x, y and equal exactly when there is a duplicate"""
    if ln.op == 'int':
        return None
    n2 = terms.replace(n, {ln: INT(2)})
    if n2.op != 'int' or not 0 <= n2.args[0] <= 2:
        if not provable(le(n2, INT(0))):
            return None
        n2 = INT(0)
    a, b = sorted_elem(I, t, INT(0)), sorted_elem(I, t, INT(1))
    r = FALSE
    for i in range(n2.args[0]):
        x = subst(g, {k: INT(i)})
        if x is eq_val(I, a, b):
            x = some
        elif x is NOT(eq_val(I, a, b)):
            x = NOT(some)
        elif terms.subterms(x, 'sorted'):
            return None
        r = OR(r, x)
    var = var_bool(close_raw('ex', n, k, (g,), 'bool'))
    return ite(eq_int(ln, INT(2)), r, lit(var, 1))


def sorted_some(n, k, g):
    """some element of the sorted content has a property exactly when some element of the content has"""
    for s in terms.subterms(g, 'sorted'):
        t = s.args[0]
        I = models._dbi
        if content_len(I, t) is not n:
            continue
        j = idxsym('?d3')
        if t.op == 'comp':
            e, v = bodies_at(t, j)
            m = t.args[0]
        else:
            e, v, m = TRUE, content_idx(I, t, j), n
        r = terms.replace(g, {sorted_elem(I, t, k): v})
        if k in free_syms(r):
            continue
        return mkbind('ex', m, j, (AND(e, r),))
    return None


terms.EX_HOOKS += [sorted_neighbours, sorted_some]


@model('alloc::vec::into_iter::IntoIter::as_slice')
def vi_as_slice(I, inst, a, st, dty, atys):
    return as_slice(I, st, collect_content(I, st, self_iter(I, st, a[0])))


@model('alloc::slice::<impl [T]>::sort', 'alloc::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort_unstable')
def sl_sort(I, inst, a, st, dty, atys):
    for s in leafset(restrict(as_slice(I, st, a[0]), st.cond)):
        root, path, off, ln = s.args
        c = restrict(I.read_loc(st, (root, path)), st.cond)
        if off is not INT(0) or not provable(IMPL(st.cond, eq_val(I, content_len(I, c), ln))):
            raise UNS('sort of a part')
        c = I.freeze_content(st, c)

        def f(t):
            k = idxsym('?s')
            return map_leaves(lambda n: models.mk_comp(n, TRUE, sorted_elem(I, t, k), k), content_len(I, t))
        I.write_loc(st, (root, path), map_leaves(f, c))
    return UNIT


@model('itertools::Itertools::duplicates')
def it_duplicates(I, inst, a, st, dty, atys):
    """iterator over the repeated elements: the k-th element passes when an equal one occurs before it (exact for the first one it yields)"""
    c = collect_content(I, st, self_iter(I, st, a[0]))
    c = I.freeze_content(st, c)

    def f(t):
        k, n, g, v = dup_parts(I, t)
        s = mk_seq(n, k, mkT('tup', g, v))
        return map_leaves(lambda q: mkT('iter', q, (('guarded',), ('uniq',)), INT(0)), s)
    return map_leaves(f, c)


def dup_parts(I, t):
    """(k, N, guard, value): element k of content t, and that an equal one occurs before it"""
    if t.op == 'comp':
        with opened(t) as (k0, bs):
            k = idxsym('?d1')
            g, v = [subst(x, {k0: k}) for x in bs]
        with opened(t) as (j, cs):
            inner = mkbind('ex', k, j, (AND(cs[0], eq_val(I, cs[1], v)),))
        return k, t.args[0], AND(g, inner), v
    k = idxsym('?d1')
    j = idxsym('?d2')
    v = content_idx(I, t, k)
    return k, content_len(I, t), mkbind('ex', k, j, (eq_val(I, content_idx(I, t, j), v),)), v


# ---------------------------------------------------------------- sets
# the elements of a set, in order of insertion (iterating over a set is not modelled)
def set_insert(I, s, x):
    return map_leaves(lambda m: ite(content_contains(I, m, x), m, mkT('push', m, x)), s)


def content_contains(I, c, x):
    def f(t):
        if t.op == 'arr':
            return OR(*[eq_val(I, e, x) for e in t.args])
        if t.op == 'comp':
            with opened(t) as (k, bs):
                return mkbind('ex', t.args[0], k, (AND(bs[0], eq_val(I, bs[1], x)),))
        if t.op == 'uniq' or t.op == 'sorted':
            return content_contains(I, t.args[0], x)
        k = idxsym('?n')
        return mkbind('ex', content_len(I, t), k, (eq_val(I, content_idx(I, t, k), x),))
    return map_leaves(f, c)


@model_rx(r'(HashSet|BTreeSet)::new$|(HashSet|BTreeSet)::with_capacity$')
def set_new(I, inst, a, st, dty, atys):
    return mkT('arr')


@model_rx(r'(HashSet|BTreeSet)::insert$')
def set_ins(I, inst, a, st, dty, atys):
    x = I.freeze(st, a[1])
    locs = I.deref_locs(st, a[0])
    cur = I.deref_read(st, a[0])
    had = content_contains(I, cur, x)
    for c, loc in locs:
        I.write_loc(st, loc, set_insert(I, I.read_loc(st, loc), x), c)
    return NOT(had)


@model_rx(r'(HashSet|BTreeSet)::contains$')
def set_has(I, inst, a, st, dty, atys):
    return content_contains(I, I.deref_read(st, a[0]), I.freeze(st, a[1]))


@model_rx(r'(HashSet|BTreeSet)::(len|is_empty)$')
def set_len(I, inst, a, st, dty, atys):
    n = content_len(I, I.deref_read(st, a[0]))
    return n if inst.item == 'len' else lt(n, INT(1))


# ---------------------------------------------------------------- slices / vectors
def mut_content(I, st, ref, f):
    for c, loc in I.deref_locs(st, ref):
        I.write_loc(st, loc, f(I.read_loc(st, loc)), c if len(I.deref_locs(st, ref)) > 1 else TRUE)


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity')
def v_new(I, inst, a, st, dty, atys):
    if a:
        alloc(I, st, a[0], dty, 'with_capacity')
    return mkT('arr')


def alloc(I, st, n, dty, what):
    """memory for n elements is requested: the byte count must fit in isize, and stay within the bound the analysis states"""
    sz = elem_size(I, dty)
    if sz is None or sz > 0:
        I.oblige(st, le(mul(n, INT(sz or 1)), INT((1 << 63) - 1)), 'capacity', what + ' capacity')
    b = I.opts.get('alloc_bound')
    if b is not None:
        I.oblige(st, le(n, b), 'allocation', what + ' of more elements than the input has bytes')


@model('alloc::vec::from_elem')
def v_from_elem(I, inst, a, st, dty, atys):
    n = a[1]
    alloc(I, st, n, dty, 'vec![x; n]')
    return mk_comp(n, TRUE, a[0])


def elem_size(I, dty):
    if dty is None:
        return 1
    e = elem_tyname(I, dty.name)
    t = I.db.by_name.get(e)
    if t is None:
        return 1
    if t.k == 'int':
        return t.d['bits'] // 8
    if t.k == 'adt':
        return 8
    return 1


@model('alloc::vec::Vec::push', 'alloc::string::String::push')
def v_push(I, inst, a, st, dty, atys):
    mut_content(I, st, a[0], lambda c: map_leaves(lambda t: push(t, a[1]), c))
    return UNIT


def push(t, x):
    if t.op == 'arr':
        return mkT('arr', *(t.args + (x,)))
    if t.op == 'cat' and t.args[-1][1].op == 'arr':
        l, c = t.args[-1]
        return mkT('cat', *(t.args[:-1] + ((terms._add(l, INT(1)), mkT('arr', *(c.args + (x,)))),)))
    return mkT('push', t, x)


def _rb_push(t, f):
    a, b = f(t.args[0]), f(t.args[1])
    if a is t.args[0] and b is t.args[1]:
        return t
    return map_leaves(lambda l: push(l, b), a)


REBUILD['push'] = _rb_push


@model('alloc::vec::Vec::pop')
def v_pop(I, inst, a, st, dty, atys):
    c = I.deref_read(st, a[0])
    n = content_len(I, c)
    some = ge0(add(n, INT(-1)))
    last = idx_v(I, c, sub(n, INT(1)))
    new = ite(some, sub_content(I, c, INT(0), sub(n, INT(1))), c)
    mut_content(I, st, a[0], lambda _: new)
    return gated_opt(I, dty, some, last)


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def v_clear(I, inst, a, st, dty, atys):
    mut_content(I, st, a[0], lambda c: mkT('arr'))
    return UNIT


@model('alloc::vec::Vec::truncate')
def v_trunc(I, inst, a, st, dty, atys):
    def f(c):
        n = content_len(I, c)
        return ite(le(n, a[1]), c, sub_content(I, c, INT(0), a[1]))
    mut_content(I, st, a[0], f)
    return UNIT


@model('alloc::vec::Vec::resize')
def v_resize(I, inst, a, st, dty, atys):
    def f(c):
        n = content_len(I, c)
        return ite(le(a[1], n), sub_content(I, c, INT(0), a[1]), cat_v(I, c, mk_comp(sub(a[1], n), TRUE, a[2])))
    mut_content(I, st, a[0], f)
    return UNIT


@model('alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append', 'alloc::string::String::push_str')
def v_extend(I, inst, a, st, dty, atys):
    x = I.deref_read(st, as_slice(I, st, a[1]))
    mut_content(I, st, a[0], lambda c: cat_v(I, c, x))
    if inst.item == 'append':
        mut_content(I, st, a[1], lambda c: mkT('arr'))
    return UNIT


@model('alloc::slice::<impl [T]>::concat')
def sl_concat(I, inst, a, st, dty, atys):
    def f(c):
        if c.op != 'arr':
            raise UNS('concat of a computed sequence')
        parts = [I.deref_read(st, as_slice(I, st, e)) if any(l.op == 'ref' for l in leafset(e)) else e for e in c.args]
        return cat_v(I, mkT('arr'), *parts) if parts else mkT('arr')
    return map_leaves(f, I.deref_read(st, as_slice(I, st, a[0])))


@model('alloc::vec::Vec::insert')
def v_insert(I, inst, a, st, dty, atys):
    c = I.deref_read(st, a[0])
    n = content_len(I, c)
    I.oblige(st, le(a[1], n), 'panic', 'Vec::insert index')
    new = cat_v(I, sub_content(I, c, INT(0), a[1]), mkT('arr', a[2]), sub_content(I, c, a[1], sub(n, a[1])))
    mut_content(I, st, a[0], lambda _: new)
    return UNIT


@model('alloc::vec::Vec::remove')
def v_remove(I, inst, a, st, dty, atys):
    c = I.deref_read(st, a[0])
    n = content_len(I, c)
    I.oblige(st, lt(a[1], n), 'panic', 'Vec::remove index')
    new = cat_v(I, sub_content(I, c, INT(0), a[1]), sub_content(I, c, add(a[1], INT(1)), sub(sub(n, a[1]), INT(1))))
    r = idx_v(I, c, a[1])
    mut_content(I, st, a[0], lambda _: new)
    return r


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve_exact')
def v_noop(I, inst, a, st, dty, atys):
    return UNIT


@model('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def v_len(I, inst, a, st, dty, atys):
    return slen(I, st, a[0])


@model('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def v_is_empty(I, inst, a, st, dty, atys):
    return NOT(ge0(add(slen(I, st, a[0]), INT(-1))))


@model('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes',
       'core::str::<impl str>::as_bytes', 'alloc::vec::Vec::into_boxed_slice', 'core::array::<impl [T; N]>::as_slice')
def v_as_slice(I, inst, a, st, dty, atys):
    return as_slice(I, st, a[0])


def is_container(t):
    return t is not None and (t.k in ('slice', 'array', 'str') or (t.k == 'adt' and t.d['item'] in ('Vec', 'String', 'GenericArray', 'VecDeque')))


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::ops::Deref::deref')
def m_deref(I, inst, a, st, dty, atys):
    s = inst.self_ty
    if is_container(s):
        return as_slice(I, st, a[0])
    if s is not None and s.k in ('ref',):
        return I.deref_read(st, a[0])
    if s is not None and s.k == 'adt' and s.d['item'] in ('Box', 'Cow', 'Arc', 'Rc'):
        return I.deref_read(st, a[0]) if s.d['item'] == 'Box' else NotImplemented
    return NotImplemented


@model('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut')
def m_as_ref(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    s = inst.self_ty
    if is_container(s) and dty is not None and dty.k == 'ref' and dty.to.k in ('slice', 'str'):
        return as_slice(I, st, a[0])
    if is_container(s):
        return a[0]
    if s is not None and s.k in ('ref',):
        # forwards to the referent's implementation: only containers occur without a body
        return NotImplemented
    return NotImplemented


def range_bounds(I, st, r, n):
    """(lo, hi) of a range value over length n"""
    def f(l, which):
        if l.op != 'adt':
            ty = tyof(I, l)
            if l.op == 'sym' or ty is None:
                raise UNS(('range', show(l)))
            return UNDEF
        it = I.db.by_name[l.args[0]].d['item']
        a = l.args[2]
        if it == 'Range':
            return a[which]
        if it == 'RangeFrom':
            return a[0] if which == 0 else n
        if it == 'RangeTo':
            return INT(0) if which == 0 else a[0]
        if it == 'RangeFull':
            return INT(0) if which == 0 else n
        if it == 'RangeInclusive':
            return a[0] if which == 0 else add(a[1], INT(1))
        if it == 'RangeToInclusive':
            return INT(0) if which == 0 else add(a[0], INT(1))
        raise UNS(('range', it))
    return map_leaves(lambda l: f(l, 0), r), map_leaves(lambda l: f(l, 1), r)


def is_range(I, v):
    for l in leafset(v):
        if l.op == 'adt':
            t = I.db.by_name.get(l.args[0])
            if t is not None and t.k == 'adt' and t.d['item'].startswith('Range'):
                return True
    return False


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def m_index(I, inst, a, st, dty, atys):
    s = inst.self_ty
    if s is not None and s.k == 'adt' and s.d['item'] in ('BTreeMap', 'HashMap'):
        raise UNS('map index')
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    if is_range(I, a[1]):
        lo, hi = range_bounds(I, st, a[1], n)
        I.oblige(st, AND(le(lo, hi), le(hi, n)), 'slice', 'slice index range')
        if s is not None and (s.k == 'str' or (s.k == 'adt' and s.d['item'] == 'String')):
            I.oblige(st, char_boundary(I, st, sl, lo, hi, n), 'char-boundary', 'str slice on a char boundary')
        return apply_n(lambda x, o, l: mkT('slice', x.args[0], x.args[1], o, l), sl, add(map_leaves(lambda x: x.args[2], sl), lo), sub(hi, lo))
    I.oblige(st, lt(a[1], n), 'index', 'index')
    return apply_n(lambda x, o: mkT('ref', x.args[0], x.args[1] + (('i', o),)), sl, add(map_leaves(lambda x: x.args[2], sl), a[1]))


def ascii_text(t):
    return t.op == 'str' and t.args[0].isascii() or t.op == 'arr' and all(isinstance(x, T) and (x.op == 'hexc' or x.op == 'int' and x.args[0] < 128) for x in t.args)


def is_ascii(t):
    return TRUE if ascii_text(t) else as_cond(mkT('isascii', t, ty='bool'))


def char_boundary(I, st, sl, lo, hi, n):
    c = I.deref_read(st, sl)
    conds = []
    for v in (lo, hi):
        ok = OR(eq_int(v, INT(0)), eq_int(v, n), apply_n(lambda t, o: BOOL(True) if ascii_text(t) else OR(is_ascii(t), as_cond(mkT('charb', t, o, ty='bool'))), c, v))
        conds.append(ok)
    return AND(*conds)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def sl_get(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    if is_range(I, a[1]):
        lo, hi = range_bounds(I, st, a[1], n)
        ok = AND(le(lo, hi), le(hi, n))
        if '<impl str>' in inst.key:
            ok = AND(ok, char_boundary(I, st, sl, lo, hi, n))
        v = apply_n(lambda x, o, l: mkT('slice', x.args[0], x.args[1], o, l), sl, add(map_leaves(lambda x: x.args[2], sl), lo), sub(hi, lo))
        return gated_opt(I, dty, ok, v)
    v = apply_n(lambda x, o: mkT('ref', x.args[0], x.args[1] + (('i', o),)), sl, add(map_leaves(lambda x: x.args[2], sl), a[1]))
    return gated_opt(I, dty, lt(a[1], n), v)


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def sl_getu(I, inst, a, st, dty, atys):
    return m_index(I, inst, a, st, dty, atys)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_first(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    i = INT(0) if 'first' in inst.item else sub(n, INT(1))
    v = apply_n(lambda x, o: mkT('ref', x.args[0], x.args[1] + (('i', o),)), sl, add(map_leaves(lambda x: x.args[2], sl), i))
    return gated_opt(I, dty, ge0(add(n, INT(-1))), v)


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def sl_split_at(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    I.oblige(st, le(a[1], n), 'panic', 'split_at')
    l = apply_n(lambda x, m: mkT('slice', x.args[0], x.args[1], x.args[2], m), sl, a[1])
    r = apply_n(lambda x, o, m: mkT('slice', x.args[0], x.args[1], o, m), sl, add(map_leaves(lambda x: x.args[2], sl), a[1]), sub(n, a[1]))
    return mkT('tup', l, r)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def sl_copy(I, inst, a, st, dty, atys):
    d, s = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    dn, sn = map_leaves(lambda x: x.args[3], d), map_leaves(lambda x: x.args[3], s)
    I.oblige(st, eq_int(dn, sn), 'panic', 'copy_from_slice lengths')
    c = I.deref_read(st, s)
    if all(l.op == 'int' for l in leafset(dn)) and not all(l.op == 'int' for l in leafset(sn)):
        sn = dn
        c = sub_content(I, c, INT(0), dn)
    write_slice(I, st, d, sn, c)
    return UNIT


def write_slice(I, st, d, n, c):
    ls = leaves(restrict(d, st.cond))
    for cnd, x in ls:
        loc = (x.args[0], x.args[1])
        old = I.read_loc(st, loc)
        new = write_v(I, old, x.args[2], restrict(n, AND(st.cond, cnd)), restrict(c, AND(st.cond, cnd)))
        I.write_loc(st, loc, new, cnd if len(ls) > 1 else TRUE)


@model('core::slice::<impl [T]>::fill')
def sl_fill(I, inst, a, st, dty, atys):
    d = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], d)
    write_slice(I, st, d, n, mk_comp(n, TRUE, a[1]))
    return UNIT


@model('core::slice::<impl [T]>::swap')
def sl_swap(I, inst, a, st, dty, atys):
    raise UNS('swap')


@model('core::slice::<impl [T]>::contains')
def sl_contains(I, inst, a, st, dty, atys):
    c = I.freeze_content(st, I.deref_read(st, as_slice(I, st, a[0])))
    return content_contains(I, c, I.freeze(st, a[1]))


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def sl_starts(I, inst, a, st, dty, atys):
    c = I.deref_read(st, as_slice(I, st, a[0]))
    p = I.deref_read(st, as_slice(I, st, a[1]))
    n, m = content_len(I, c), content_len(I, p)
    off = INT(0) if inst.item == 'starts_with' else sub(n, m)
    return AND(le(m, n), eq_val(I, sub_content(I, c, off, m), p))


@model('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec', 'alloc::borrow::ToOwned::to_owned')
def sl_to_vec(I, inst, a, st, dty, atys):
    if inst.item == 'to_owned' and not (inst.self_ty is not None and inst.self_ty.k in ('slice', 'str')):
        return I.freeze(st, a[0])
    return I.deref_read(st, as_slice(I, st, a[0]))


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def sl_as_ptr(I, inst, a, st, dty, atys):
    return as_slice(I, st, a[0])


@model('core::slice::<impl [T]>::iter_sum')
def sl_x(I, inst, a, st, dty, atys):
    raise UNS('x')


@model_rx(r'slice::<impl \[T\]>::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key)$')
def sl_sort(I, inst, a, st, dty, atys):
    d = as_slice(I, st, a[0])
    if 'by' in inst.item:
        fz = I.freeze(st, a[1])
        c = I.deref_read(st, d)
        n = content_len(I, c)
        write_slice(I, st, d, n, map_leaves(lambda t: mkT('sortby', t, fz), c))
        return UNIT
    c = I.deref_read(st, d)
    write_slice(I, st, d, content_len(I, c), map_leaves(lambda t: mkT('sorted', t, ty=t.ty), c))
    return UNIT


# ---------------------------------------------------------------- clone / default / eq / cmp / convert
@model('core::clone::Clone::clone')
def m_clone(I, inst, a, st, dty, atys):
    if inst.body is not None and inst.kind != 'shim':
        return NotImplemented
    v = I.deref_read(st, a[0])
    return v


@model('core::clone::Clone::clone_from')
def m_clone_from(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    v = I.deref_read(st, a[1])
    mut_content(I, st, a[0], lambda _: v)
    return UNIT


def default_of(I, ty):
    if ty.k == 'int' or ty.k == 'char':
        return INT(0)
    if ty.k == 'bool':
        return FALSE
    if ty.k == 'array':
        d = default_of(I, ty.elem)
        return mk_comp(INT(ty.d['len']), TRUE, d) if ty.d['len'] > 64 else mk_arr([d] * ty.d['len'], ty.name)
    if ty.k == 'tuple':
        return mkT('tup', *[default_of(I, t) for t in ty.field_tys(0)])
    if ty.k == 'adt':
        it = ty.d['item']
        if it in EMPTY_CONTAINERS:
            return EMPTY_CONTAINERS[it]()
        if it in ('HashSet', 'BTreeSet'):
            return mkT('arr')
        if it == 'Option':
            return mkT('adt', ty.name, 0, ())
    raise UNS(('default', ty.name))


@model('core::default::Default::default')
def m_default(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    ty = inst.self_ty or dty
    if ty is not None and ty.k == 'adt' and ty.d['item'] in ('CoreWrapper', 'Sha256'):
        return mkT('hasher', mkT('arr'))
    return default_of(I, ty)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    r = eq_val(I, I.freeze_content(st, I.freeze(st, a[0])), I.freeze_content(st, I.freeze(st, a[1])))
    return NOT(r) if inst.item == 'ne' else r


ORD = ['lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'max', 'min']


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def m_ord(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    x, y = I.freeze(st, a[0]), I.freeze(st, a[1])
    s = inst.self_ty
    while s is not None and s.k == 'ref':
        s = s.to
    if s is not None and s.k in ('int', 'char'):
        return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[inst.item]()
    if s is not None and s.k == 'bool':
        return {'lt': lambda: AND(NOT(x), y), 'le': lambda: IMPL(x, y), 'gt': lambda: AND(x, NOT(y)), 'ge': lambda: IMPL(y, x)}[inst.item]()
    # provided method of PartialOrd on a type whose partial_cmp has a body
    return ord_via_cmp(I, inst, x, y, st)


def lex_lt(x, y):
    return apply_n(_lexlt, x, y)


def _lexlt(p, q):
    """a total order: stated one way round"""
    if p is q:
        return FALSE
    differ = NOT(eq_val(models._dbi, p, q))
    return AND(differ, NOT(as_cond(mkT('lexlt', q, p, ty='bool'))) if p.id > q.id else as_cond(mkT('lexlt', p, q, ty='bool')))


def _rb_lexlt(t, f):
    a, b = f(t.args[0]), f(t.args[1])
    return as_cond(t) if a is t.args[0] and b is t.args[1] else lex_lt(a, b)


REBUILD['lexlt'] = _rb_lexlt


def find_inst(I, key, self_name):
    for o in I.db.insts:
        if o.key == key and o.d['self'] is not None and o.self_ty.name == self_name and o.body is not None:
            return o
    return None


def ord_via_cmp(I, inst, x, y, st):
    s = inst.self_ty
    pc = find_inst(I, 'core::cmp::PartialOrd::partial_cmp', s.name) if s is not None else None
    oc = find_inst(I, 'core::cmp::Ord::cmp', s.name) if s is not None else None
    o = I.db.by_name['core::cmp::Ordering']
    if pc is not None or oc is not None:
        st2 = st
        ra, rb = I.temp_ref(st2, x), I.temp_ref(st2, y)
        if pc is not None:
            v = I.call(pc, [ra, rb], st2, None, None)
            _, v = opt_some(v)
        else:
            v = I.call(oc, [ra, rb], st2, None, None)
    else:
        v = cmp_val(I, x, y)
    def isv(i):
        return map_leaves(lambda l: BOOL(l.args[1] == i) if l.op == 'adt' else mk(var_enum(l, 3), tuple(BOOL(j == i) for j in range(3))), v)
    L, G = isv(0), isv(2)
    return {'lt': L, 'le': NOT(G), 'gt': G, 'ge': NOT(L)}[inst.item]


def cmp_val(I, x, y):
    o = I.db.by_name['core::cmp::Ordering'].name
    L, E, G = [mkT('adt', o, i, ()) for i in range(3)]

    def f(p, q):
        if p is q:
            return E
        tn = p.ty or q.ty
        t = I.db.by_name.get(tn) if tn else None
        if (t is not None and t.k in ('int', 'char')) or p.op == 'int' or q.op == 'int':
            return ite(lt(p, q), L, ite(eq_int(p, q), E, G))
        # lexicographic order of two byte contents: one of three, antisymmetric
        if p.id < q.id:
            return ite(lex_lt(p, q), L, ite(eq_val(I, p, q), E, G))
        return ite(lex_lt(q, p), G, ite(eq_val(I, p, q), E, L))
    return apply_n(f, x, y)


@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def m_cmp(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    v = cmp_val(I, I.freeze(st, a[0]), I.freeze(st, a[1]))
    if inst.item == 'partial_cmp':
        return opt(I, dty, v)
    return v


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def m_minmax(I, inst, a, st, dty, atys):
    if dty is not None and dty.k == 'int':
        return imax(a[0], a[1]) if inst.item == 'max' else imin(a[0], a[1])
    raise UNS('min/max on ' + str(dty))


IR = 'fuel_asm::panic_reason::InstructionResult'


@model('core::convert::From::from', 'core::convert::Into::into')
def m_from(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    if inst.item == 'into':
        return NotImplemented
    s = dty
    src = atys[0] if atys else None
    if s is None:
        s = I.db.ty(inst.d['targs'][0]) if inst.d['targs'] else None
    # fuel-asm: InstructionResult <-> Word are inverse conversions
    tn = [I.db.ty(x).name for x in inst.d['targs']]
    if tn == ['u64', IR]:
        return map_leaves(lambda l: l.args[0] if l.op == 'irval' else mkT('irword', l, ty='u64'), a[0])
    if tn == [IR, 'u64']:
        return map_leaves(lambda l: l.args[0] if l.op == 'irword' else mkT('irval', l, ty=IR), a[0])
    if s is not None and s.k == 'int':
        if src is not None and src.k in ('int', 'bool', 'char'):
            return I.int_cast(a[0], src, s)
    if is_container(s):
        # Vec::from(&[T]), Vec::from([T;N]), String::from(&str)
        if src is not None and src.k in ('ref',):
            return I.deref_read(st, as_slice(I, st, a[0]))
        return a[0]
    if src is not None and s is not None and src.name == s.name:
        return a[0]
    return NotImplemented


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_try_from(I, inst, a, st, dty, atys):
    if inst.body is not None:
        return NotImplemented
    ok = dty.field_tys(0)[0]
    src = atys[0] if atys else None
    errv = mkT('adt', dty.name, 1, (mkT('app', 'conv-error', ty=dty.field_tys(1)[0].name),))
    if ok.k == 'int' and src is not None and src.k == 'int':
        bits, sg = ok.d['bits'], ok.d['signed']
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        c = AND(le(INT(lo), a[0]), le(a[0], INT(hi)))
        return ite(c, res_ok(dty, a[0]), errv)
    if ok.k == 'array' and src is not None and src.k in ('ref',):
        sl = as_slice(I, st, a[0])
        n = map_leaves(lambda x: x.args[3], sl)
        c = eq_int(n, INT(ok.d['len']))
        v = map_leaves(lambda x: I.slice_content(st, mkT('slice', x.args[0], x.args[1], x.args[2], INT(ok.d['len']))), sl)
        return ite(c, res_ok(dty, v), errv)
    if ok.k == 'ref' and ok.to.k == 'array':
        sl = as_slice(I, st, a[0])
        n = map_leaves(lambda x: x.args[3], sl)
        return ite(eq_int(n, INT(ok.to.d['len'])), res_ok(dty, sl), errv)
    if ok.k == 'array':
        c = eq_int(content_len(I, a[0]), INT(ok.d['len']))
        return ite(c, res_ok(dty, a[0]), res_err(dty, a[0]))
    return NotImplemented


# ---------------------------------------------------------------- integers
@model_rx(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::(checked|wrapping|saturating|overflowing)_(add|sub|mul|div|rem)$')
def int_checked(I, inst, a, st, dty, atys):
    m = re.search(r'<impl (\w+)>::(\w+?)_(\w+)$', inst.key)
    ty = I.db.by_name[m.group(1)]
    kind, op = m.group(2), m.group(3)
    x, y = a[0], a[1]
    if op in ('div', 'rem'):
        v = ediv(x, y) if op == 'div' else emod(x, y)
        if kind == 'checked':
            return gated_opt(I, dty, NOT(eq_int(y, INT(0))), v)
        I.oblige(st, NOT(eq_int(y, INT(0))), 'DivisionByZero', inst.key)
        return v
    v, ov = I.checked({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op], x, y, ty)
    bits = ty.d['bits']
    hi = (1 << bits) - 1
    if kind == 'checked':
        return gated_opt(I, dty, NOT(ov), v)
    if kind == 'saturating':
        if ty.d['signed']:
            raise UNS('signed saturating')
        return ite(ov, INT(0) if op == 'sub' else INT(hi), v)
    w = ite(ov, map_leaves(lambda t: mkT('wrap', t, bits, ty=ty.name) if t.op != 'int' else INT(t.args[0] & hi), v), v)
    if kind == 'wrapping':
        return w
    return mkT('tup', w, ov)


@model_rx(r'^core::num::<impl u(8|16|32|64|128|size)>::(div_ceil|next_multiple_of|div_euclid|rem_euclid|abs_diff|is_power_of_two|pow)$')
def int_misc(I, inst, a, st, dty, atys):
    if inst.item in ('div_ceil', 'div_euclid', 'rem_euclid', 'next_multiple_of'):
        I.oblige(st, NOT(eq_int(a[1], INT(0))), 'DivisionByZero', inst.key)
    if inst.item == 'div_ceil':
        return ceil_div(a[0], a[1])
    if inst.item == 'div_euclid':
        return ediv(a[0], a[1])
    if inst.item == 'rem_euclid':
        return emod(a[0], a[1])
    if inst.item == 'next_multiple_of':
        return mul(ceil_div(a[0], a[1]), a[1])
    if inst.item == 'abs_diff':
        return ite(le(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1]))
    if inst.item == 'pow' and isinstance(a[1], T) and a[1].op == 'int':
        r = INT(1)
        for _ in range(a[1].args[0]):
            r = mul(r, a[0])
        ty = dty
        I.oblige(st, le(r, INT((1 << ty.d['bits']) - 1)), 'Overflow', 'pow')
        return r
    return NotImplemented


def ceil_div(x, y):
    return ediv(add(x, sub(y, INT(1))), y)


@model('num_integer::div_ceil', 'num_integer::div_floor', 'num_integer::Integer::div_floor', 'num_integer::Integer::div_ceil')
def ni_div(I, inst, a, st, dty, atys):
    x, y = I.freeze(st, a[0]), I.freeze(st, a[1])
    I.oblige(st, NOT(eq_int(y, INT(0))), 'DivisionByZero', inst.key)
    return ceil_div(x, y) if inst.item == 'div_ceil' else ediv(x, y)


@model_rx(r'^core::num::<impl u(8|16|32|64|128|size)>::to_(be|le|ne)_bytes$')
def int_to_bytes(I, inst, a, st, dty, atys):
    n = I.db.by_name[re.search(r'<impl (\w+)>', inst.key).group(1)].d['bits'] // 8
    if inst.item == 'to_be_bytes':
        return be_bytes(a[0], n)
    return map_leaves(lambda t: mkT('le', t, n), a[0])


@model_rx(r'^core::num::<impl u(8|16|32|64|128|size)>::from_(be|le|ne)_bytes$')
def int_from_bytes(I, inst, a, st, dty, atys):
    n = I.db.by_name[re.search(r'<impl (\w+)>', inst.key).group(1)].d['bits'] // 8
    if inst.item == 'from_be_bytes':
        return from_be(a[0], n)
    return map_leaves(lambda t: mkT('numle', t, n, ty='u%d' % (8 * n)), a[0])


@model_rx(r'^core::num::<impl (u|i)(8|16|32|64|128|size)>::from_str_radix$')
def int_from_str(I, inst, a, st, dty, atys):
    c = I.deref_read(st, as_slice(I, st, a[0]))
    r = a[1]
    ty = dty.field_tys(0)[0].name

    def f(t, rr):
        ok = as_cond(mkT('parses', t, rr, ty, ty='bool'))
        v = mkT('parsed', t, rr, ty, ty=ty)
        return ite(ok, res_ok(dty, v), res_err(dty, mkT('app', 'ParseIntError', t, ty=dty.field_tys(1)[0].name)))
    return apply_n(f, c, r)


@model('core::ops::arith::AddAssign::add_assign', 'core::ops::arith::SubAssign::sub_assign', 'core::ops::arith::MulAssign::mul_assign')
def op_assign(I, inst, a, st, dty, atys):
    ty = inst.self_ty
    if ty is None or ty.k != 'int':
        return NotImplemented
    x = I.deref_read(st, a[0])
    y = I.freeze(st, a[1])
    op = {'add_assign': 'Add', 'sub_assign': 'Sub', 'mul_assign': 'Mul'}[inst.item]
    v, ov = I.checked(op, x, y, ty)
    I.oblige(st, NOT(ov), 'Overflow', inst.key)
    locs = I.deref_locs(st, a[0])
    for c, loc in locs:
        I.write_loc(st, loc, v, c if len(locs) > 1 else TRUE)
    return UNIT


@model('core::ops::arith::Add::add', 'core::ops::arith::Sub::sub', 'core::ops::arith::Mul::mul')
def op_bin(I, inst, a, st, dty, atys):
    ty = dty
    if ty is None or ty.k != 'int' or inst.body is not None:
        return NotImplemented
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[inst.item]
    v, ov = I.checked(op, I.freeze(st, a[0]), I.freeze(st, a[1]), ty)
    I.oblige(st, NOT(ov), 'Overflow', inst.key)
    return v


@model('core::hint::must_use', 'core::hint::black_box')
def m_ident(I, inst, a, st, dty, atys):
    return a[0]


# ---------------------------------------------------------------- mem
@model('core::mem::take')
def m_take(I, inst, a, st, dty, atys):
    old = I.deref_read(st, a[0])
    ty = atys[0].to if atys and atys[0] is not None and atys[0].k == 'ref' else dty
    d = call_default(I, ty, st)
    locs = I.deref_locs(st, a[0])
    for c, loc in locs:
        I.write_loc(st, loc, d, c if len(locs) > 1 else TRUE)
    return old


def call_default(I, ty, st):
    o = find_inst(I, 'core::default::Default::default', ty.name)
    if o is not None:
        return I.call(o, [], st, ty, [])
    return default_of(I, ty)


@model('core::mem::replace')
def m_replace(I, inst, a, st, dty, atys):
    old = I.deref_read(st, a[0])
    locs = I.deref_locs(st, a[0])
    for c, loc in locs:
        I.write_loc(st, loc, a[1], c if len(locs) > 1 else TRUE)
    return old


@model('core::mem::swap')
def m_swap(I, inst, a, st, dty, atys):
    x, y = I.deref_read(st, a[0]), I.deref_read(st, a[1])
    lx, ly = I.deref_locs(st, a[0]), I.deref_locs(st, a[1])
    for c, loc in lx:
        I.write_loc(st, loc, y, c if len(lx) > 1 else TRUE)
    for c, loc in ly:
        I.write_loc(st, loc, x, c if len(ly) > 1 else TRUE)
    return UNIT


@model('core::mem::drop', 'core::mem::forget')
def m_drop(I, inst, a, st, dty, atys):
    return UNIT


@model('core::mem::size_of', 'core::mem::align_of')
def m_size_of(I, inst, a, st, dty, atys):
    t = inst.targs[0] if inst.targs else None
    if t is not None and t.k == 'int':
        return INT(t.d['bits'] // 8)
    return NotImplemented


# ---------------------------------------------------------------- maps
@model_rx(r'(BTreeMap|HashMap)::(new|with_capacity)$')
def map_new(I, inst, a, st, dty, atys):
    return mkT('mapnew')


@model_rx(r'(BTreeMap|HashMap)::entry$')
def map_entry(I, inst, a, st, dty, atys):
    return mkT('mentry', a[0], I.freeze(st, a[1]))


@model_rx(r'::Entry::(or_default|or_insert|or_insert_with)$')
def map_or_default(I, inst, a, st, dty, atys):
    e = a[0]
    if not isinstance(e, T) or e.op != 'mentry':
        raise UNS('entry')
    ref, key = e.args
    if inst.item == 'or_insert' and a[1] is not INT(0):
        raise UNS('or_insert')

    def f(l):
        return mkT('ref', l.args[0], l.args[1] + (('k', key),))
    # the key becomes present
    for c, loc in I.deref_locs(st, ref):
        I.write_loc(st, loc, map_leaves(lambda m: map_touch(m, key), I.read_loc(st, loc)), c if len(I.deref_locs(st, ref)) > 1 else TRUE)
    return map_leaves(f, ref)


def map_touch(m, key):
    """entry(key).or_default(): adds key with value zero if absent"""
    if m.op == 'mput' and m.args[1] is key:
        return m
    return mkT('mput', m, key, map_get(None, m, key))


@model_rx(r'(BTreeMap|HashMap)::(get_mut|get)$')
def map_get_mut(I, inst, a, st, dty, atys):
    key = I.freeze(st, a[1])
    m = I.deref_read(st, a[0])
    has = map_leaves(lambda l: map_has(I, l, key), m)
    v = map_leaves(lambda l: mkT('ref', l.args[0], l.args[1] + (('k', key),)), a[0])
    return gated_opt(I, dty, has, v)


def map_has(I, m, key):
    if isinstance(m, N):
        return map_leaves(lambda l: map_has(I, l, key), m)
    if m.op == 'mapnew':
        return FALSE
    if m.op == 'mput':
        return OR(eq_val(I, m.args[1], key), map_has(I, m.args[0], key))
    if m.op == 'mfold':
        with opened(m) as (k, bs):
            base, g, ky, f = bs
            hit = mkbind('ex', m.args[0], k, (AND(g, eq_val(I, ky, key)),))
        return OR(map_has(I, base, key), hit)
    return as_cond(mkT('mhas', m, key, ty='bool'))


@model_rx(r'(BTreeMap|HashMap)::insert$')
def map_insert(I, inst, a, st, dty, atys):
    key, v = I.freeze(st, a[1]), a[2]
    m = I.deref_read(st, a[0])
    has = map_leaves(lambda l: map_has(I, l, key), m)
    old = map_leaves(lambda l: map_get(I, l, key), m)
    mut_content(I, st, a[0], lambda c: map_leaves(lambda t: map_put(I, t, key, v), c))
    return gated_opt(I, dty, has, old)


@model_rx(r'(BTreeMap|HashMap)::contains_key$')
def map_contains(I, inst, a, st, dty, atys):
    key = I.freeze(st, a[1])
    return map_leaves(lambda l: map_has(I, l, key), I.deref_read(st, a[0]))


# ---------------------------------------------------------------- hashing / crypto
def hasher_content(I, st, v):
    return v


@model('digest::digest::Digest::new')
def dg_new(I, inst, a, st, dty, atys):
    return mkT('hasher', mkT('arr'))


@model('digest::digest::Digest::update', 'digest::Update::update')
def dg_update(I, inst, a, st, dty, atys):
    x = I.deref_read(st, as_slice(I, st, asref(I, inst, a[1], st, atys, 1)))
    mut_content(I, st, a[0], lambda h: apply_n(lambda hh, c: hash_add(I, hh, c), h, x))
    return UNIT


def hash_add(I, h, c):
    if h.op != 'hasher':
        return mkT('app', 'hash-update', h, c)
    if content_len(I, c) is INT(0):
        return h
    return map_leaves(lambda t: mkT('hasher', t), _cat2(I, h.args[0], c))


def _cat2(I, a, b):
    return models.cat_v(I, a, b)


def asref(I, inst, v, st, atys, i):
    """apply AsRef<[u8]> to a value of static type atys[i]"""
    ty = atys[i] if atys else None
    return bytes_ref(I, v, st, ty)


def as_bytes_impl(I, o, ty):
    """o is <ty as AsRef<[u8]>>::as_ref"""
    if o.key != 'core::convert::AsRef::as_ref' or o.body is None or o.d['self'] is None or o.self_ty.name != ty.name:
        return False
    r = I.db.ty(o.body['locals'][0])
    return r.k == 'ref' and r.to.k == 'slice'


def byte_newtype(ty):
    """a fuel_types newtype over a byte array (its AsRef is the array)"""
    if ty.k != 'adt' or ty.d['krate'] != 'fuel_types' or ty.d['adt'] != 'struct':
        return False
    ts = ty.field_tys(0)
    return len(ts) == 1 and ts[0].k == 'array' and ts[0].elem.name == 'u8'


def bytes_ref(I, v, st, ty):
    if ty is None:
        return v
    if ty.k == 'ref':
        if is_container(ty.to):
            return v
        if ty.to.k == 'ref':
            return bytes_ref(I, I.deref_read(st, v), st, ty.to)
        for o in I.db.insts:
            if as_bytes_impl(I, o, ty.to):
                return I.call(o, [v], st, None, None)
        if byte_newtype(ty.to):
            return I.temp_ref(st, peel(I, I.deref_read(st, v)))
        raise UNS(('as_ref of', ty.name))
    if byte_newtype(ty):
        return I.temp_ref(st, peel(I, v))
    r = I.temp_ref(st, v)
    if is_container(ty):
        return r
    for o in I.db.insts:
        if as_bytes_impl(I, o, ty):
            return I.call(o, [r], st, None, None)
    raise UNS(('as_ref of', ty.name))


@model('digest::Update::chain', 'digest::digest::Digest::chain_update')
def dg_chain(I, inst, a, st, dty, atys):
    x = I.deref_read(st, as_slice(I, st, asref(I, inst, a[1], st, atys, 1)))
    return apply_n(lambda hh, c: hash_add(I, hh, c), a[0], x)


@model('digest::digest::Digest::finalize')
def dg_fin(I, inst, a, st, dty, atys):
    return map_leaves(lambda h: mkT('sha256', h.args[0], ty='[u8; 32]') if h.op == 'hasher' else mkT('app', 'hash-final', h, ty='[u8; 32]'), a[0])


@model('digest::digest::Digest::digest')
def dg_digest(I, inst, a, st, dty, atys):
    x = I.deref_read(st, as_slice(I, st, asref(I, inst, a[0], st, atys, 0)))
    return map_leaves(lambda c: mkT('sha256', c, ty='[u8; 32]'), x)


def _rb_sha(t, f):
    x = f(t.args[0])
    return t if x is t.args[0] else map_leaves(lambda c: mkT('sha256', c, ty='[u8; 32]'), x)


REBUILD['sha256'] = _rb_sha


# Merkle trees: a tree is the sequence of what was put in, its root an uninterpreted function of that sequence
@model_rx(r'^fuel_merkle::(binary|sparse)::in_memory::MerkleTree::new$', r'^<fuel_merkle::(binary|sparse)::in_memory::MerkleTree as core::default::Default>::default$')
def mt_new(I, inst, a, st, dty, atys):
    return mkT('arr')


@model_rx(r'^fuel_merkle::(binary|sparse)::in_memory::MerkleTree::(push|update)$')
def mt_push(I, inst, a, st, dty, atys):
    xs = [restrict(I.deref_read(st, as_slice(I, st, x)), st.cond) for x in a[1:]]
    mut_content(I, st, a[0], lambda c: map_leaves(lambda t: push(t, xs[0] if len(xs) == 1 else mkT('tup', *xs)), c))
    return UNIT


@model_rx(r'^fuel_merkle::(binary|sparse)::in_memory::MerkleTree::root$')
def mt_root(I, inst, a, st, dty, atys):
    kind = inst.key.split('::')[1]
    return map_leaves(lambda t: mkT('app', kind + '-merkle-root', t, ty='[u8; 32]'), restrict(I.deref_read(st, a[0]), st.cond))


# signatures: recovery, signing and key derivation of the dependency are uninterpreted functions of the bytes involved
@model_rx(r'^fuel_crypto::signature::use_std::<impl fuel_crypto::signature::Signature>::(recover|sign)$',
          r'^fuel_crypto::secret::use_std::<impl fuel_crypto::secret::SecretKey>::public_key$')
def crypto_fn(I, inst, a, st, dty, atys):
    xs = [restrict(peel(I, I.freeze(st, x)), st.cond) for x in a]
    return apply_n(lambda *ys: mkT('app', inst.item, *ys, ty=dty.name), *xs)


@models.model_name('fuel_crypto::public::use_std::<impl core::convert::From<&fuel_crypto::secret::SecretKey> for fuel_crypto::public::PublicKey>::from')
def crypto_pk(I, inst, a, st, dty, atys):
    k = restrict(peel(I, I.deref_read(st, a[0])), st.cond)
    return map_leaves(lambda y: mkT('app', 'public_key', y, ty=dty.name), k)


def peel(I, v):
    """the contents of nested newtypes"""
    def f(l):
        if isinstance(l, T) and l.op == 'adt' and len(l.args[2]) == 1:
            return peel(I, l.args[2][0])
        ty = tyof(I, l)
        if ty is None or ty.k != 'adt' or ty.d['adt'] != 'struct':
            return l
        fts = [(j, t) for j, t in enumerate(ty.field_tys(0)) if not (t.k == 'tuple' and not t.d['elems'])]
        if len(fts) != 1:
            return l
        return peel(I, I.field(l, 0, fts[0][0], ty.name))
    return map_leaves(f, v)


# ---------------------------------------------------------------- strings
@model('core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim', 'core::str::<impl str>::trim_start')
def str_trim(I, inst, a, st, dty, atys):
    c = I.deref_read(st, as_slice(I, st, a[0]))
    p = I.freeze(st, a[1]) if len(a) > 1 else UNIT

    def f(t, q):
        n = mkT('app', inst.item + '-len', t, q, ty='usize')
        n.meta = ('bounds', 0, MAXLEN)
        return n
    v = apply_n(lambda t, q: mkT('app', inst.item, t, q, ty='str'), c, p)
    r = I.temp_ref(st, v)
    return map_leaves(lambda n: mkT('slice', r.args[0], (), INT(0), n), content_len(I, v))


@model('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def str_strip(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    c = I.deref_read(st, sl)
    p = I.deref_read(st, as_slice(I, st, a[1]))
    n, m = content_len(I, c), content_len(I, p)
    pre = inst.item == 'strip_prefix'
    off = INT(0) if pre else sub(n, m)
    ok = AND(le(m, n), eq_val(I, sub_content(I, c, off, m), p))
    base = map_leaves(lambda x: x.args[2], sl)
    v = apply_n(lambda x, o, l: mkT('slice', x.args[0], x.args[1], o, l), sl, add(base, m) if pre else base, sub(n, m))
    return gated_opt(I, dty, ok, v)


@model('core::str::<impl str>::is_char_boundary')
def str_isb(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    return AND(le(a[1], n), char_boundary(I, st, sl, a[1], n, n))


@model('core::str::<impl str>::is_ascii', 'core::slice::ascii::<impl [u8]>::is_ascii')
def str_isascii(I, inst, a, st, dty, atys):
    c = I.deref_read(st, as_slice(I, st, a[0]))
    return map_leaves(is_ascii, c)


@model('core::str::<impl str>::split_at')
def str_split_at(I, inst, a, st, dty, atys):
    sl = as_slice(I, st, a[0])
    n = map_leaves(lambda x: x.args[3], sl)
    I.oblige(st, AND(le(a[1], n), char_boundary(I, st, sl, a[1], n, n)), 'char-boundary', 'split_at on a char boundary')
    return sl_split_at(I, inst, a, st, dty, atys)


# ---------------------------------------------------------------- errors / panics / fmt
@model_rx(r'io::error::.*Error.*::new$|io::error::Error::new$|io::error::Error::other$')
def io_err(I, inst, a, st, dty, atys):
    fz = [I.freeze(st, x) for x in a]
    return lift('app', ('io-error',) + tuple(fz[:1]), dty.name if dty is not None else None)


@model_rx(r'^core::panicking::|^core::option::(unwrap_failed|expect_failed)$|^core::result::unwrap_failed$|^core::slice::index::slice_.*_fail|^std::rt::begin_panic|^core::panicking')
def panics(I, inst, a, st, dty, atys):
    I.oblige(st, FALSE, 'panic', inst.key)
    return UNDEF


@model('core::result::Result::expect', 'core::result::Result::unwrap', 'core::option::Option::expect', 'core::option::Option::unwrap')
def m_unwrap(I, inst, a, st, dty, atys):
    isr = 'Result' in inst.key
    okv = 0 if isr else 1

    def c(l):
        if l is UNDEF:
            return UNDEF
        if l.op == 'adt':
            return BOOL(l.args[1] == okv)
        return mk(var_enum(l, 2), tuple(BOOL(i == okv) for i in range(2)))
    ok = restrict(map_leaves(c, a[0]), st.cond)
    I.oblige(st, ok, 'unwrap', inst.key)
    return I.field(restrict(a[0], st.cond), okv, 0, atys[0].name if atys and atys[0] is not None else None)


# ---------------------------------------------------------------- known numbers of rounds
def _smart_mget(args, ty):
    return map_get(None, *args)


def _smart_mhas(args, ty):
    return map_has(None, *args)


def _smart_app(args, ty):
    if args[0] == 'hash-update' and isinstance(args[1], T) and args[1].op == 'hasher':
        return apply_n(lambda hh, c: hash_add(models._dbi, hh, c), args[1], args[2])
    if args[0] == 'hash-final' and isinstance(args[1], T) and args[1].op == 'hasher':
        return mkT('sha256', args[1].args[0], ty='[u8; 32]')
    return mkT('app', *args, ty=ty)


terms.SMART['app'] = _smart_app
terms.SMART['mget'] = _smart_mget
terms.SMART['mhas'] = _smart_mhas


def _rb_dup(t, f):
    """whether an equal element passed before position k, when k is a known small number"""
    S, k = t.args[0], f(t.args[1])
    S2 = f(S)
    if not isinstance(k, T) or k.op != 'int' or k.args[0] > 2 or t.args[2] not in ('unique', 'dedup', 'all'):
        if k is t.args[1] and S2 is S:
            return t
        return mkT('dup', S2, k, *t.args[2:], ty='bool')
    at = [terms.bodies_at(S2, INT(i)) for i in range(k.args[0] + 1)]
    v = at[-1][1]
    r = FALSE
    for g, w in at[:-1]:
        e = eq_val(None, w, v)
        r = ite(g, e, r) if t.args[2] == 'dedup' else OR(r, AND(g, e))
    return r


terms.REBUILD['dup'] = _rb_dup
