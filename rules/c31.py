"""C31: the structured (serde) form of every value carries every field, and is read back into the same places."""
from rules.base import *
from rules import codec, c04, c25
from rules.point import *

EXPLANATION = """The derived or written serde implementations of every public data type are summarised against a serializer and a deserializer without a format.
Per variant of an arbitrary value the (name, value) pairs handed to the serializer must be its fields, each exactly once, unconditionally, in declaration
order and under distinct names, after the number and the name of the variant; read from a sequence, the i-th value must become the field serialized at i,
and the numbers and names announced for a variant must select that variant again; read from a map, the value found under a name must become the field serialized under it."""
ASSUMPTIONS = ['a serde format hands the deserializer the values it was handed by the serializer: by position, or by the names announced',
               'serde implementations of standard-library and fuel-types values are faithful']
ENUMS = {'input': 'Input', 'output': 'Output', 'receipt': 'Receipt', 'result': 'ScriptExecutionResult', 'transaction': 'Transaction', 'error': 'CheckError'}
STRUCTS = {'witness': 'Witness', 'slot': 'StorageSlot', 'utxo': 'UtxoId', 'pointer': 'TxPointer', 'params': 'ConsensusParameters',
           'fee': 'TransactionFee', 'contract': 'Contract'}


def vfields(ty, vi):
    return [f[0] for f in ty.d['variants'][vi]['fields']]


def hidden(ty):
    return [j for j, f in enumerate(vfields(ty, 0)) if f == 'metadata'] if ty.d['item'] in codec.TXKINDS else []


def shown(ty, vi):
    return [j for j in range(len(vfields(ty, vi))) if j not in hidden(ty)]


def home(m):
    return 'serial' if m in ('script', 'create', 'mint') else 'parts'


def recorder(tags, puts, dropped=()):
    def tag(I, i, args, st, dty):
        tags.append((st.cond, I.freeze(st, args[0]), I.freeze(st, args[1])))
        return mkT('tup')

    def put(I, i, args, st, dty):
        puts.append((st.cond, I.freeze(st, args[0]), I.freeze(st, args[1])))
        return models.res_ok(dty, mkT('tup'))
    return [(c25.by_name(r'::record::put(::<|$)'), put), (c25.by_name(r'::record::tag$'), tag)]


def serialized(chk, m, ty, vi):
    """what is handed over for variant vi: (number, name), [(name, field)]"""
    tags, puts = [], []
    inst = codec.probe('compare::%s::%s::serialize' % (home(m), m))
    I, sym, val, r, st, args = codec.analyse_variant(chk, inst, ty, vi, ['t'], 't', contract_rules=recorder(tags, puts), prune=True, unbounded=True)
    w = c04.where(chk, I, inst)
    n = ty.d['item'] + ('::' + ty.d['variants'][vi]['name'] if len(ty.d['variants']) > 1 else '')
    seen = '; '.join('%s=%s%s' % (show(k)[:40], show(x)[:60], '' if c is TRUE else ' if ' + show(c)[:40]) for c, k, x in puts)
    fts = ty.field_tys(vi)
    names = vfields(ty, vi)
    ok = len(puts) == len(shown(ty, vi))
    for i, j in enumerate(shown(ty, vi)):
        f = names[j]
        x = models.mk_fld(sym, vi, j, fts[j].name)
        hit = ok and puts[i][0] is TRUE and puts[i][2] is x
        chk.require(I, '%s hands over %s at %d' % (n, f, i), BOOL(hit), w, 'the field is not (always) what is serialized at this place', detail=seen)
    chk.require(I, n + ' hands over nothing else', BOOL(ok), w, 'number of values serialized differs from the number of fields', detail=seen)
    keys = [c25.strval(k) for _, k, _ in puts]
    chk.require(I, n + ' uses distinct names', BOOL(None not in keys and (len(set(keys)) == len(keys))), w, 'a name is used twice', detail=seen)
    if ty.d['adt'] == 'enum':
        t = [(I_(k), c25.strval(s)) for c, k, s in tags if c is TRUE]
        chk.require(I, n + ' announces its kind once', BOOL(len(tags) == 1 and len(t) == 1 and t[0][0] is not None and t[0][1] is not None), w,
                    'the variant is not announced (once)', detail=str([(show(c), show(k), show(s)) for c, k, s in tags])[:300])
    else:
        t = [None]
    r = I.freeze(st, r)
    chk.require(I, n + ' always succeeds', terms.as_cond(map_leaves(lambda l: BOOL(l is UNDEF or l.op == 'adt' and l.args[1] == 0), r)), w, 'serializing fails',
                detail=show(r)[:300])
    chk.panics(I, n + ' serialize')
    chk.done(I)
    return t[0] if t else None, keys


def c25_leaves(g):
    out = []

    def f(l):
        if l is not UNDEF:
            out.append(l)
        return l
    map_leaves(f, g)
    return out


def shape(ty, vi):
    """the fields have names"""
    return len(shown(ty, vi)) > 0 and not vfields(ty, vi)[0].isdigit()


def I_(k):
    return k.args[0] if isinstance(k, T) and k.op == 'int' else None


def value_under(name, ty):
    return mkT('sym', 'value under ' + name, ty.name, ty=ty.name)


def text(st, root, s):
    st.roots[root] = mkT('str', s, ty='str')
    return mkT('slice', root, (), INT(0), INT(len(s)))


def reader(asked, taken):
    def ask(I, i, args, st, dty):
        asked.append(I.freeze(st, args[0]))
        return mkT('tup')

    def value(ty):
        v = mkT('sym', 'element%d' % len(taken), ty.name, ty=ty.name)
        taken.append(v)
        return c25.typedv(ty, v)

    def take(I, i, args, st, dty):
        t = dty.field_tys(0)[0]
        return models.res_ok(dty, models.mk_adt(t.name, 1, (value(t.field_tys(1)[0]),)))

    def named(I, i, args, st, dty):
        src = I.freeze_content(st, I.freeze(st, args[0]))          # Named{names, at}: the name was read, the counter moved on
        at = src.args[2][1]
        ty = dty.field_tys(0)[0]
        if at.op != 'int':
            return NotImplemented
        k = src.args[2][0]
        return models.res_ok(dty, c25.typedv(ty, value_under(k.args[at.args[0] - 1].args[0], ty)))

    def pull(I, i, args, st, dty):
        return models.res_ok(dty, value(dty.field_tys(0)[0]))
    return [(c25.by_name(r'::record::ask$'), ask), (lambda i: i.item == 'next_element', take), (lambda i: i.item == 'newtype_variant', pull),
            (lambda i: i.item == 'next_value', named)]


def read_back(chk, m, ty, vi, tag, keys, how, order=None, fill=None, label=''):
    """reading what was announced and handed over gives the variant, with each value in its own field"""
    asked, taken = [], []
    inst = codec.probe('compare::%s::%s::%s' % (home(m), m, how))
    I = chk.interp(contract_rules=reader(asked, taken), prune=True, unbounded=True)

    def pre(st, args):
        if how == 'from_number':
            args[0] = INT(tag[0])
        elif how == 'from_name':
            args[0] = text(st, args[0].args[0], tag[1])
        elif how == 'from_named':
            root = args[0].args[0]
            st.roots[root] = mkT('arr', *[text(st, ('P', 'name%d' % i), k) for i, k in enumerate(order)])
            args[0] = mkT('slice', root, (), INT(0), INT(len(order)))
            if tag is not None:
                args[1] = text(st, args[1].args[0], tag[1])
    nargs = {'from_seq': [], 'from_named': ['names', 'k'][:1 + (tag is not None)]}.get(how, ['k'])
    r, st, args = I.analyse(inst, names=nargs, pre=pre)
    w = c04.where(chk, I, inst)
    n = ty.d['item'] + ('::' + ty.d['variants'][vi]['name'] if len(ty.d['variants']) > 1 else '') + ' ' + how.replace('_', ' ')
    r = I.freeze(st, r)
    good = c25.ok_leaves(I, r)
    n += label
    chk.require(I, n + ' yields a value', terms.as_cond(map_leaves(lambda l: BOOL(l is not UNDEF and l.op == 'adt' and l.args[1] == 0), r)), w,
                'what was serialized is refused', detail=show(r)[:300])
    fts = ty.field_tys(vi)
    for x in [l for g in good for l in c25_leaves(g)]:
        chk.require(I, n + ' yields the variant', BOOL(x.op == 'adt' and x.args[1] == vi), w, 'another variant is read back', detail=show(x)[:300])
        if x.op == 'adt' and x.args[1] == vi:
            for j, f in enumerate(vfields(ty, vi)):
                if j in hidden(ty):
                    continue
                i = shown(ty, vi).index(j)
                if how != 'from_named':
                    want, src = taken[i] if i < len(taken) else None, 'value %d' % i
                elif keys[i] in order:
                    want, src = value_under(keys[i], fts[j]), 'the value under ' + keys[i]
                else:
                    want, src = fill[j], 'its default'
                chk.equal(I, '%s: %s is %s' % (n, f, src), x.args[2][j], UNDEF if want is None else c25.typedv(fts[j], want), w,
                          msg='the field is not read from the place it is serialized at')
    if keys and all(k is not None for k in keys) and len(asked) > (tag is not None):
        chk.equal(I, n + ' asks for the names serialized', asked[-1], mkT('arr', *[mkT('str', k) for k in keys]), w, msg='serialized names and names asked for differ')
    chk.panics(I, n)
    chk.done(I)


def ok_if(seen, b):
    """another way through serde_json is not judged"""
    return BOOL(b) if seen else as_cond(mkT('sym', 'havoc:serde_json', 'bool', ty='bool'))


def json(chk):
    """the JSON form is serde_json's of the value itself, and reading it is serde_json's reading of the text itself"""
    def to():
        seen = []

        def rec(I, i, args, st, dty):
            x = I.freeze_content(st, I.freeze(st, args[0]))
            seen.append((st.cond, i.name, x))
            return models.res_ok(dty, mkT('sym', 'text', dty.field_tys(0)[0].name, ty=dty.field_tys(0)[0].name))
        I = chk.interp(contract_rules=[(c25.by_name(r'^serde_json::(ser::)?to_string'), rec)])
        inst = codec.probe('compare::json::to')
        r, st, args = I.analyse(inst, names=['t'])
        w = c04.where(chk, I, inst)
        t = I.freeze_content(st, I.freeze(st, args[0]))
        chk.require(I, 'to_json serializes the transaction itself, once', ok_if(seen, len(seen) == 1 and seen[0][0] is TRUE and seen[0][2] is t), w, 'something else is serialized',
                    detail='; '.join(show(x)[:200] for _, _, x in seen))
        r = I.freeze(st, r)
        chk.require(I, 'to_json is the text produced', ok_if(seen, isinstance(r, T) and r.op == 'sym' and r.args[0] == 'text'), w, 'the text is altered', detail=show(r)[:300])
        chk.panics(I, 'to_json')
        chk.done(I)
    chk.run('to_json', to)

    def from_():
        seen, got = [], []

        def rec(I, i, args, st, dty):
            seen.append((st.cond, i.name, I.freeze_content(st, I.freeze(st, args[0]))))
            v = mkT('sym', 'read', dty.name, ty=dty.name)
            got.append(models.mk_fld(v, 0, 0, dty.field_tys(0)[0].name))
            return v
        I = chk.interp(contract_rules=[(c25.by_name(r'^serde_json::(de::)?from_str'), rec)])
        inst = codec.probe('compare::json::from')
        r, st, args = I.analyse(inst, names=['s'])
        w = c04.where(chk, I, inst)
        s = I.freeze_content(st, I.freeze(st, args[0]))
        chk.require(I, 'from_json reads the text itself, once', ok_if(seen, len(seen) == 1 and seen[0][0] is TRUE and seen[0][2] is s), w, 'something else is read',
                    detail='; '.join(show(x)[:200] for _, _, x in seen) + ' / ' + show(s)[:100])
        r = I.freeze(st, r)
        good = [l for l in c25_leaves(r) if l.op == 'adt' and l.args[1] == 1]
        chk.require(I, 'from_json gives what was read, or nothing', ok_if(seen, len(good) == 1 and any(good[0].args[2][0] is x for x in got)), w,
                    'the value read is altered', detail=show(r)[:300])
        chk.panics(I, 'from_json')
        chk.done(I)
    chk.run('from_json', from_)


def check(chk, tier):
    chk.rule('serialized values = the fields, each once, unconditionally, in order, under distinct names; the variant announced before')
    chk.rule('the i-th value of a sequence becomes the field serialized at i; numbers and names announced select the variant that announced them')
    for m, n in {**ENUMS, **STRUCTS, 'script': 'Script', 'create': 'Create', 'mint': 'Mint'}.items():
        ty = codec.elem_type(n)
        seen = {}
        for vi in range(len(ty.d['variants'])):
            def go(vi=vi):
                tag, keys = serialized(chk, m, ty, vi)
                if tag is not None:
                    for k, what in ((tag[0], 'number'), (tag[1], 'name')):
                        chk.require(None, '%s: %s of variant %d is its own' % (n, what, vi), (what, k) not in seen, ty.name, 'two variants announce the same ' + what)
                        seen[what, k] = vi
                    hows = ['from_number', 'from_name']
                else:
                    hows = ['from_seq']
                for h in hows:
                    read_back(chk, m, ty, vi, tag, keys, h)
                if keys and None not in keys and shape(ty, vi):
                    for order in {'': keys, ' reversed': keys[::-1]}.items():
                        read_back(chk, m, ty, vi, tag, keys, 'from_named', order=order[1], label=order[0])
                if m == 'params' and None not in keys:
                    from rules import refspec
                    I, inst, r, st, args, c = refspec.summary(chk, 'values::params::constant', [])
                    for k in keys:
                        read_back(chk, m, ty, vi, tag, keys, 'from_named', order=[x for x in keys if x != k], fill=r.args[2], label=' without ' + k)
            chk.run('%s %d' % (m, vi), go)
    json(chk)
    return chk
