"""C30: equality, hashing, ordering and cloning of values are determined by their fields."""
from rules.base import *
from rules import codec, c04
from rules.point import *

EXPLANATION = """The implementations of equality, inequality, hashing, cloning and ordering of every value type are summarised on arbitrary values.  Equality must
be the conjunction of equality of kind and of every field of that kind, inequality its negation; the hasher must be fed the kind and every field and nothing
equality ignores; a clone must be the value; the order of ids, pointers and slots must be the lexicographic one of the fields that identify them."""
ASSUMPTIONS = ['equality, hashing, ordering and cloning of standard-library and fuel-types values are those of their contents',
               'a panic receipt is equal whatever contract id it carries (the id is not on the wire)']
TYPES = {'input': 'Input', 'output': 'Output', 'receipt': 'Receipt', 'result': 'ScriptExecutionResult', 'witness': 'Witness', 'slot': 'StorageSlot',
         'utxo': 'UtxoId', 'pointer': 'TxPointer', 'params': 'ConsensusParameters', 'fee': 'TransactionFee', 'contract': 'Contract'}
IGNORED = {('Receipt', 'Panic', 'contract_id')}


def kept(ty, vi):
    """indices of the fields that matter"""
    v = ty.d['variants'][vi]
    return [j for j, f in enumerate(v['fields']) if (ty.d['item'], v['name'], f[0]) not in IGNORED]


def own(t):
    return t is not None and t.k == 'adt' and t.d['krate'] == 'fuel_tx' and t.d['adt'] == 'enum'


def equal(ty):
    vs = ty.d['variants']

    def same(I, v, rt):
        a, b = v['a'], v['b']

        def at(i):
            fts = ty.field_tys(i)
            fs = [(models.mk_fld(a, i, j, fts[j].name), models.mk_fld(b, i, j, fts[j].name), fts[j]) for j in kept(ty, i)]
            s = AND(*[equal(t)(I, {'a': p, 'b': q}, None) if own(t) else eqv(I, p, q) for p, q, t in fs])
            return s if len(vs) == 1 else mk(var_enum(b, len(vs)), [s if j == i else FALSE for j in range(len(vs))])
        return at(0) if len(vs) == 1 else mk(var_enum(a, len(vs)), [at(i) for i in range(len(vs))])
    return same


def hashed(chk, m, ty):
    """per variant: everything fed to the hasher is the number of the variant or a field that equality considers, and each of those is fed"""
    def go(vi):
        inst = codec.probe('compare::same::%s::hash' % m)
        ev = []

        def rec(I, i, args, st, dty):
            ev.append((st.cond, I.freeze_content(st, I.freeze(st, args[0 if i.item == 'hash' else 1]))))
            return mkT('tup')

        def pred(i):
            return i.item == 'hash' and (i.d.get('trait') or '').endswith('hash::Hash') and i.d['self'] is not None and i.self_ty is not ty or \
                i.item.startswith('write') and (i.d.get('trait') or '').endswith('Hasher')
        I, sym, val, r, st, args = codec.analyse_variant(chk, inst, ty, vi, ['a', 'h'], 'a', contract_rules=[(pred, rec)], prune=True)
        w = c04.where(chk, I, inst)
        fts = ty.field_tys(vi)
        want = [models.mk_fld(sym, vi, j, fts[j].name) for j in kept(ty, vi)]
        vn = ty.d['variants'][vi]['name']
        seen = '; '.join(show(x)[:80] for _, x in ev)
        fields = [f[0] for f in ty.d['variants'][vi]['fields']]
        for j, x in zip(kept(ty, vi), want):
            chk.require(I, '%s hash considers %s.%s' % (ty.d['item'], vn, fields[j]), BOOL(any(c is TRUE and same_value(y, x) for c, y in ev)), w, 'field is not hashed',
                        detail='hashed: ' + seen)
        for c, y in ev:
            ok = any(same_value(y, x) for x in want) or (kind(y) and len(ty.d['variants']) > 1)
            chk.require(I, '%s::%s hashes only what equality considers: %s' % (ty.d['item'], vn, show(y)[:60]), BOOL(ok), w, 'equal values may hash differently', detail=seen)
        chk.panics(I, ty.d['item'] + ' hash')
        chk.done(I)
    for vi in range(len(ty.d['variants'])):
        chk.run('%s hash %d' % (m, vi), lambda vi=vi: go(vi))


def kind(y):
    """a number that only tells the variant"""
    if isinstance(y, T) and y.op == 'adt' and y.args[0].split('<')[0].endswith('Discriminant'):
        return True
    return isinstance(y, T) and y.op == 'int'


def same_value(y, x):
    """y is the value x, or the contents of the newtype x"""
    for _ in range(3):
        if y is x:
            return True
        ty = models.DBREF[0].by_name.get(x.ty) if isinstance(x, T) and x.ty else None
        if ty is None or ty.k != 'adt' or ty.d['adt'] != 'struct' or len(ty.field_tys(0)) != 1:
            return False
        x = models.mk_fld(x, 0, 0, ty.field_tys(0)[0].name)
    return False


def check(chk, tier):
    chk.rule('eq = same kind and every field equal; ne = not eq')
    chk.rule('hash feeds the kind and every field, and nothing equality ignores')
    chk.rule('clone = the value')
    for m, n in TYPES.items():
        ty = codec.elem_type(n)
        same = equal(ty)
        point(chk, 'compare::same::%s::eq' % m, ['a', 'b'], same, label=n + ' equality', msg='equality does not consider exactly the fields')
        point(chk, 'compare::same::%s::ne' % m, ['a', 'b'], lambda I, v, rt: NOT(same(I, v, rt)), label=n + ' inequality', msg='inequality is not the negation of equality')
        hashed(chk, m, ty)
    for m in list(TYPES) + ['script', 'create', 'mint', 'transaction']:
        point(chk, 'compare::same::cloned::' + m, ['x'], lambda I, v, rt: v['x'], label='clone of a ' + m, msg='the clone is not the value')
    chk.rule('orders are lexicographic in the identifying fields')
    from rules import refspec
    for m in ('utxo', 'pointer', 'slot'):
        refspec.agree(chk, 'compare::order::%s::cmp' % m, 'compare::order::want::' + m, ['a', 'b'], 'order of ' + TYPES[m], 'not the lexicographic order')
    return chk
