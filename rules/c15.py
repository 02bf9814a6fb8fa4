"""C15: a checked transaction has really passed its checks."""
from rules.base import *
from rules import codec, c04
from rules.point import *
import codecmodels

EXPLANATION = """Two arguments.  (1) Every function of the crate's public surface (the exported metadata of a build without the `internals` feature) whose
signature mentions a checked-transaction type is enumerated: one that produces such a value must be a known producer; one that lends it mutably is a
violation; the fields must be private.  (2) Each known producer is summarised by value-flow analysis with the two checking functions recorded: the
successful result must carry the very transaction (and height and parameters) the check was given, require that check's success, carry exactly the mask
of the checks that succeeded, and deriving a checked value from another one must keep its transaction, metadata and mask."""
ASSUMPTIONS = ['safe Rust: no transmute or raw construction outside the crate', 'the `internals` and `builder` features are off']
CHK = 'fuel_tx::checked_transaction::Checked'
NEW_OK = {'into_checked', 'into_checked_basic'}
VIEW = 'Checked<', 'CheckedTransaction'
KINDS = ['script', 'create', 'mint', 'enumeration']


def mentions(t):
    return any(v in t for v in VIEW)


def muts(t):
    import re
    return re.search(r'&mut [^,)]*Checked(<|Transaction)', t) is not None or re.search(r"\*mut [^,)]*Checked(<|Transaction)", t) is not None


def surface(chk):
    d = db('noint')
    n = 0
    for e in d.api:
        if e['k'] == 'impl' and mentions(e['self']):
            tr = e['trait'].split('<')[0]
            chk.require(None, 'no way in: impl %s for %s' % (e['trait'] or '-', e['self']),
                        tr.split('::')[-1] not in ('AsMut', 'BorrowMut', 'DerefMut', 'Default', 'Deserialize', 'DeserializeOwned', 'IndexMut', 'FromStr', 'Write', 'Read'),
                        e['self'], 'the checked type implements %s, which yields or exposes unchecked values' % e['trait'])
        if e['k'] != 'fn' or e['vis'] != 'pub' or not e['reach']:
            continue
        ins, out = e['in'], e['out']
        own = e['parent'][0]
        for t in ins:
            if muts(t):
                chk.require(None, 'no mutable access: ' + e['path'], False, e['path'], 'a public function takes a checked transaction by mutable reference')
            elif mentions(t):
                chk.require(None, 'no mutable access: ' + e['path'], not any('&mut' in x for x in [out]) or e['item'] == 'fmt', e['path'],
                            'a public function hands out a mutable reference out of a checked transaction')
                n += 1
        if muts(out):
            chk.require(None, 'no mutable checked value: ' + e['path'], False, e['path'], 'a public function returns a mutable reference to a checked transaction')
        elif mentions(out):
            n += 1
            key = 'known producer: ' + e['path']
            takes = any(mentions(t) for t in ins)
            if e['item'] in NEW_OK and ('IntoChecked' in e['parent'][1] or e['parent'][0].endswith('::IntoChecked')):
                chk.require(None, key, True)
            elif takes:
                known = e['item'] in ('check_signatures', 'clone', 'transaction', 'metadata', 'checks') or e['item'] == 'from' and e['parent'][1].startswith('core::convert::From<')
                if known:
                    chk.require(None, key, True)
                else:
                    chk.obligations += 1
                    chk.undecide(key, 'a public function derives a checked value from another one and is not among those analysed')
            else:
                chk.require(None, key, False, e['path'], 'a public function produces a checked transaction from values that were not checked', detail=str(e)[:600])
    chk.require(None, 'the public surface was found', n >= 15, '', 'only %d functions mention the checked types' % n)
    for t in d.types:
        if t.k == 'adt' and t.name.startswith(CHK + '<'):
            for v in t.d['variants']:
                for f in v['fields']:
                    chk.require(None, 'private field %s of %s' % (f[0], t.name), f[2] != 'pub', t.name, 'a field of the checked transaction is public')


def isv(v, i):
    """v is variant i"""
    def f(l):
        if l is UNDEF:
            return UNDEF
        if l.op == 'adt':
            return BOOL(l.args[1] == i)
        n = len(models.DBREF[0].by_name[l.ty].d['variants'])
        return lit(terms.var_enum(l, n), i)
    return map_leaves(f, v)


class Rec:
    """records of the two checking functions"""

    def __init__(self):
        self.basic, self.sigs = [], []

    def rules(self):
        def b(I, i, args, st, dty):
            v = mkT('sym', 'basic%d' % len(self.basic), dty.name, ty=dty.name)
            self.basic.append((st.cond, [I.freeze(st, a) for a in args], v, dty))
            return v

        def s(I, i, args, st, dty):
            v = mkT('sym', 'sigs%d' % len(self.sigs), dty.name, ty=dty.name)
            self.sigs.append((st.cond, [I.freeze(st, a) for a in args], v, dty))
            return v
        def trait(i):
            return (i.d.get('trait') or '').endswith('::Checkable')
        return [(lambda i: i.item == 'check_without_signatures' and trait(i), b), (lambda i: i.item == 'check_signatures' and trait(i), s)]


def passed(I, rec, tx, extra=()):
    """condition under which a recorded check was made on tx (all fields but the cache) and succeeded"""
    c = FALSE
    for cond, args, v, dty in rec:
        okc = AND(cond, isv(v, 0))
        same = same_tx(I, args[0], tx)
        for a, b in zip(args[1:], extra):
            same = AND(same, eqv(I, a, b))
        c = OR(c, AND(okc, same))
    return c


def same_tx(I, a, b):
    """equal but for the cached metadata"""
    if a is b:
        return TRUE
    if not (isinstance(a, T) and isinstance(b, T)):
        return apply_n(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else same_tx(I, x, y), a, b)

    def ty(x):
        return I.db.by_name.get(x.args[0] if x.op == 'adt' else x.ty)
    ta, tb = ty(a), ty(b)
    if ta is None or tb is None or ta.k != 'adt' or tb.k != 'adt':
        raise Unsupported('type of the checked transaction: %s / %s' % (show(a)[:80], show(b)[:80]))
    ety = codec.elem_type('Transaction')
    if ta is ety or tb is ety:
        out = FALSE
        for i, k in enumerate(codec.TXKINDS):
            sty = ety.field_tys(i)[0]
            x, y = [(isv(v, i), I.field(v, i, 0, sty.name)) if t is ety else (BOOL(t is sty), v) for v, t in ((a, ta), (b, tb))]
            g = AND(x[0], y[0])
            if g is not FALSE:
                out = OR(out, AND(g, same_tx(I, x[1], y[1])))
        return out
    if ta is not tb:
        return FALSE
    names = [f[0] for f in ta.d['variants'][0]['fields']]
    return AND(*[eqv(I, fld(I, ta, a, n), fld(I, ta, b, n)) for n in names if n != 'metadata'])


from interp import Unsupported  # noqa: E402


def ok_cases(r):
    """(condition, tuple) of the Ok leaves of a result"""
    out = []
    for c, l in leaves(r):
        if l is not UNDEF and l.op == 'adt' and l.args[1] == 0:
            out.append((c, l.args[2][0]))
        elif l is not UNDEF and l.op != 'adt':
            raise Unsupported('result of unknown shape: ' + show(l)[:200])
    return out


def produce(chk, kind, fn, full):
    label = '%s %s' % (kind, fn)

    def go():
        inst = codec.probe('checked::%s::%s' % (kind, fn))
        rec = Rec()
        I = chk.interp(contract_rules=rec.rules() + codecmodels.tx_rules(db()), prune=True, unbounded=True)
        init = {}

        def pre(st, args):
            init['tx'], init['h'], init['p'] = [I.freeze(st, a) for a in args]
        r, st, args = I.analyse(inst, names=['tx', 'height', 'params'], pre=pre)
        w = c04.where(chk, I, inst)
        n = 0
        for c, t in ok_cases(I.freeze(st, r)):
            n += 1
            tx, bits = t.args
            g = AND(st.cond, c)
            chk.require(I, label + ': a checked value carries the transaction given', same_tx(I, tx, init['tx']), w, guard=g,
                        msg='the checked value carries another transaction than the one given')
            chk.require(I, label + ': a checked value passed the basic checks', passed(I, rec.basic, tx, (init['h'], init['p'])), w, guard=g,
                        msg='a checked value is produced although the validity check did not succeed on this transaction, height and parameters')
            if full:
                chk.require(I, label + ': a checked value passed the signature check', passed(I, rec.sigs, tx), w, guard=g,
                            msg='a fully checked value is produced although the signature check did not succeed on this transaction')
            chk.require(I, label + ': mask is that of the checks made', eqv(I, bits, INT(3 if full else 1)), w, guard=g,
                        msg='the recorded mask differs from the checks made', detail=show(bits)[:300])
        chk.require(I, label + ' can succeed', n > 0, w, 'never succeeds')
        chk.done(I)
    chk.run(label, go)


def keeps(chk, kind):
    def go():
        inst0 = codec.probe('checked::%s::parts' % kind)
        I0 = chk.interp(prune=True)
        r0, st0, a0 = I0.analyse(inst0, names=['c'])
        tx0, bits0, meta0 = I0.freeze(st0, r0).args

        def summary(fn):
            inst = codec.probe('checked::%s::%s' % (kind, fn))
            rec = Rec()
            I = chk.interp(contract_rules=rec.rules(), prune=True)
            r, st, args = I.analyse(inst, names=['c'])
            return I, c04.where(chk, I, inst), rec, I.freeze(st, r), st, args
        for fn in ('transaction', 'as_ref', 'borrow'):
            I, w, rec, r, st, args = summary(fn)
            chk.equal(I, '%s %s is the checked transaction' % (kind, fn), r, tx0, w, msg='what is shown is not the transaction inside')
            chk.equal(I, '%s %s returns' % (kind, fn), st.cond, TRUE, w)
        I, w, rec, r, st, args = summary('metadata')
        chk.equal(I, kind + ' metadata is the checked metadata', r, meta0, w)
        I, w, rec, r, st, args = summary('checks')
        chk.equal(I, kind + ' checks is the mask', r, bits0, w)
        I, w, rec, r, st, args = summary('split')
        chk.equal(I, kind + ' taken apart', r, mkT('tup', tx0, meta0), w)
        I, w, rec, r, st, args = summary('clone_parts')
        chk.equal(I, kind + ' clone', r, mkT('tup', tx0, bits0, meta0), w, msg='a clone differs from the original')
        # checking signatures later
        I, w, rec, r, st, args = summary('later_parts')
        n = 0
        for c, t in ok_cases(r):
            n += 1
            tx, bits, meta = t.args
            g = AND(st.cond, c)
            chk.equal(I, kind + ' later signature check keeps the transaction', tx, tx0, w, guard=g)
            chk.equal(I, kind + ' later signature check keeps the metadata', meta, meta0, w, guard=g)
            # either the mask was left alone (it already had the bit) or the check succeeded
            unchanged = eqv(I, bits, bits0)
            grew = eqv(I, bits, I.binop('BitOr', bits0, INT(2), I.db.by_name['u32']))
            ran = passed(I, rec.sigs, tx0)
            has = eqv(I, I.binop('BitAnd', bits0, INT(2), I.db.by_name['u32']), INT(2))
            chk.require(I, kind + ' later signature check: mask grows by the signature bit only', OR(unchanged, grew), w, guard=g, detail=show(bits)[:300],
                        msg='the mask after checking signatures is not the old one with the signature bit')
            chk.require(I, kind + ' later signature check: success requires the check', OR(has, ran), w, guard=g,
                        msg='signatures are recorded as checked without a successful check')
            chk.require(I, kind + ' later signature check: the bit is set', OR(has, grew), w, guard=g, msg='a successful check is not recorded')
        chk.require(I, kind + ' later signature check can succeed', n > 0, w)
        chk.done(I)
    chk.run(kind + ' derived values', go)


def convert(chk):
    names = ['Script', 'Create', 'Mint']

    def parts(kind):
        I = chk.interp(prune=True)
        inst = codec.probe('checked::%s::parts' % kind)
        r, st, a = I.analyse(inst, names=['c'])
        return I.freeze(st, r)

    def go():
        ety = codec.elem_type('Transaction')
        for i, k in enumerate(names):
            tx0, bits0, meta0 = parts(k.lower()).args
            inst = codec.probe('checked::convert::%s_parts' % k.lower())
            I = chk.interp(prune=True)
            r, st, a = I.analyse(inst, names=['c'])
            w = c04.where(chk, I, inst)
            tup = I.freeze(st, r)
            chk.equal(I, k + ' wrapped: same transaction', tup.args[0], models.mk_adt(ety.name, i, (tx0,)), w, msg='converting changes the transaction')
            chk.equal(I, k + ' wrapped: same mask', tup.args[1], bits0, w, msg='converting changes the mask')
            m = tup.args[2]
            chk.require(I, k + ' wrapped: same metadata', BOOL(m.op == 'adt' and m.args[1] == i and m.args[2][0] is meta0), w, 'converting changes the metadata',
                        detail=show(m)[:300])
            chk.equal(I, k + ' wrapped: returns', st.cond, TRUE, w)
            chk.panics(I, k + ' wrapped')
            chk.done(I)
        # CheckedTransaction -> Checked<Transaction>, clone, and there and back again
        inst = codec.probe('checked::convert::enum_parts')
        I = chk.interp(prune=True)
        r, st, a = I.analyse(inst, names=['c'])
        base = I.freeze(st, r)
        w = c04.where(chk, I, inst)
        chk.equal(I, 'enumeration: converting returns', st.cond, TRUE, w)
        c = I.freeze(st, a[0])
        for i, k in enumerate(names):
            v = models.mk_fld(c, i, 0, [t.name for t in I.db.types if t.name == CHK + '<' + codec.elem_type(k).name + '>'][0])
            I3 = chk.interp(prune=True)
            r3, st3, a3 = I3.analyse(codec.probe('checked::%s::parts' % k.lower()), names=['c'])
            q = subst(I3.freeze(st3, r3), {I3.freeze(st3, a3[0]): v})
            chk.equal(I, 'enumeration %s: transaction kept' % k, base.args[0], models.mk_adt(ety.name, i, (q.args[0],)), w, guard=isv(c, i))
            chk.equal(I, 'enumeration %s: mask kept' % k, base.args[1], q.args[1], w, guard=isv(c, i))
        inst = codec.probe('checked::convert::clone_parts')
        I = chk.interp(prune=True)
        r, st, a = I.analyse(inst, names=['c'])
        chk.equal(I, 'enumeration: clone', I.freeze(st, r), base, c04.where(chk, I, inst))
        chk.done(I)
    chk.run('conversions', go)

    def back():
        inst = codec.probe('checked::convert::there_and_back')
        I = chk.interp(prune=True)
        r, st, a = I.analyse(inst, names=['c'])
        b = parts('enumeration')
        w = c04.where(chk, I, inst)
        chk.equal(I, 'there and back again', I.freeze(st, r), b, w, guard=st.cond, msg='converting back yields something else')
        chk.done(I)
    chk.run('there and back', back)


def check(chk, tier):
    chk.rule('public functions yielding Checked / CheckedTransaction are exactly the analysed ones; none lends it mutably; fields private')
    chk.rule('into_checked*(tx): Ok => the check succeeded on the same transaction, height and parameters; mask = checks made')
    chk.rule('check_signatures / clone / From: transaction, metadata and mask preserved; the signature bit only after success')
    chk.run('public surface', lambda: surface(chk))
    for k in KINDS:
        produce(chk, k, 'basic_parts', False)
        produce(chk, k, 'all_parts', True)
        keeps(chk, k)
    convert(chk)
