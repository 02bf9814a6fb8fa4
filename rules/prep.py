"""The specified zeroing of fields fixed at execution."""
from rules.base import *

SIGN_INPUT = {'CoinSigned': ['tx_pointer'], 'CoinPredicate': ['tx_pointer'], 'Contract': ['utxo_id', 'balance_root', 'state_root', 'tx_pointer'],
              'MessageSigned': [], 'MessagePredicate': []}
SIGN_OUTPUT = {'Coin': [], 'Contract': ['balance_root', 'state_root'], 'Message': ['recipient', 'amount'], 'Change': ['amount'],
               'Variable': ['to', 'amount', 'asset_id'], 'ContractCreated': []}
SCRIPT_OUTPUT = {'Coin': [], 'Contract': [], 'Message': ['recipient', 'amount'], 'Change': ['amount'], 'Variable': ['to', 'amount', 'asset_id'],
                 'ContractCreated': []}


def zero(ty):
    """the all-zero value of a fixed-size type"""
    if ty.k == 'int':
        return INT(0)
    if ty.k == 'bool':
        return FALSE
    if ty.k == 'array':
        return mkT('arr', *[zero(ty.elem) for _ in range(ty.d['len'])])
    if ty.k == 'adt' and ty.d['adt'] == 'struct':
        return models.mk_adt(ty.name, 0, tuple(zero(t) for t in ty.field_tys(0)))
    raise Missing('zero of ' + ty.name)


def zeroed(I, x, ty, table):
    """the element value x with the fields of the table zeroed"""
    if set(table) != set(v['name'] for v in ty.d['variants']):
        raise Missing('variants of ' + ty.name)

    def f(i, vn, fl):
        fts = ty.field_tys(i)
        names = [q[0] for q in ty.d['variants'][i]['fields']]
        if not set(table[vn]) <= set(names):
            raise Missing('fields of ' + vn)
        return models.mk_adt(ty.name, i, tuple(zero(t) if n in table[vn] else fl[n] for n, t in zip(names, fts)))
    def g(l):
        if l is UNDEF:
            return UNDEF
        if l.op == 'adt':
            i = l.args[1]
            v = ty.d['variants'][i]
            return f(i, v['name'], dict(zip([q[0] for q in v['fields']], l.args[2])))
        return per_variant(l, ty, f)
    return map_leaves(g, x)


def zeroed_seq(I, seq, ty, table):
    _n[0] += 1
    k = idxsym('?z%d' % _n[0])
    return mkbind('comp', models.content_len(I, seq), k, (TRUE, zeroed(I, models.content_idx(I, seq, k), ty, table)))


_n = [0]


def sign_form(I, ty, sym):
    """field name -> value of the transaction whose encoding is hashed into its id"""
    from rules import codec
    fl = {f[0]: I.field(sym, 0, j, ty.name) for j, f in enumerate(ty.d['variants'][0]['fields'])}
    kind = ty.d['item']
    if kind in ('Script', 'Create'):
        fl['inputs'] = zeroed_seq(I, fl['inputs'], codec.elem_type('Input'), SIGN_INPUT)
        fl['outputs'] = zeroed_seq(I, fl['outputs'], codec.elem_type('Output'), SIGN_OUTPUT)
        fl['witnesses'] = mkT('arr')
    if kind == 'Script':
        j = [f[0] for f in ty.d['variants'][0]['fields']].index('receipts_root')
        fl['receipts_root'] = zero(ty.field_tys(0)[j])
    return fl


def tx_val(ty, fl):
    names = [f[0] for f in ty.d['variants'][0]['fields']]
    j = names.index('metadata')
    fl = dict(fl)
    fl['metadata'] = none(ty.field_tys(0)[j])
    return models.mk_adt(ty.name, 0, tuple(fl[n] for n in names))


def id_of(I, ty, sym, rt):
    c = mkT('sha256', mkT('enc', tx_val(ty, sign_form(I, ty, sym))), ty='[u8; 32]')
    return models.mk_adt(rt.name, 0, (c,))
