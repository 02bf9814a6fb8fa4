"""C04: published offsets are positions in the encoding."""
from rules.base import *
from rules import codec
import codecmodels

EXPLANATION = """Every offset accessor (of a transaction without cached metadata, per index where it takes one; of the input and output
representations; of an input's predicate) is summarised by value-flow analysis of its MIR on an arbitrary value, sums over the elements
in closed form, and must be identical to the position of the named item in the layout table that C01/C03 establish for the encoder;
`None` exactly when the element does not exist."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'a transaction carries no stale cached metadata (C05 covers fresh metadata)']

FIXED = {'Script': 'gas_price gas_limit maturity receipts_root script script_data inputs outputs witnesses',
         'Create': 'gas_price gas_limit maturity bytecode_length bytecode_witness_index salt storage_slots inputs outputs witnesses',
         'Mint': 'tx_pointer outputs'}
STATIC = {'Script': 'gas_price gas_limit maturity receipts_root script',
          'Create': 'gas_price gas_limit maturity bytecode_length bytecode_witness_index salt storage_slots', 'Mint': 'tx_pointer'}
AT = {'Script': 'inputs outputs witnesses', 'Create': 'storage_slots inputs outputs witnesses', 'Mint': 'outputs'}
INPUT_REPR = {
    'utxo_id_offset': {'Coin': 'utxo_id', 'Contract': 'utxo_id'}, 'owner_offset': {'Coin': 'owner'}, 'asset_id_offset': {'Coin': 'asset_id'},
    'data_offset': {'Message': 'data'}, 'coin_predicate_offset': {'Coin': 'predicate'}, 'contract_balance_root_offset': {'Contract': 'balance_root'},
    'contract_state_root_offset': {'Contract': 'state_root'}, 'contract_id_offset': {'Contract': 'contract_id'},
    'message_id_offset': {'Message': 'message_id'}, 'message_sender_offset': {'Message': 'sender'}, 'message_recipient_offset': {'Message': 'recipient'},
    'tx_pointer_offset': {'Coin': 'tx_pointer', 'Contract': 'tx_pointer'},
}
INPUT_VARIANT = {'Coin': 'CoinPredicate', 'Contract': 'Contract', 'Message': 'MessagePredicate'}
OUTPUT_REPR = {
    'to_offset': {'Coin': 'to', 'Change': 'to', 'Variable': 'to'}, 'asset_id_offset': {'Coin': 'asset_id', 'Change': 'asset_id', 'Variable': 'asset_id'},
    'contract_balance_root_offset': {'Contract': 'balance_root'}, 'contract_state_root_offset': {'Contract': 'state_root'},
    'contract_created_state_root_offset': {'ContractCreated': 'state_root'}, 'contract_id_offset': {'ContractCreated': 'contract_id'},
    'recipient_offset': {'Message': 'recipient'},
}


def expected(what, I, ty, sym, idx=None):
    """the position of item `what` (of element idx of it) in the transaction's layout"""
    L = codec.tx_layout(I, ty, sym)
    o = L.offset(what)
    if idx is None:
        return o
    seq = fields_of(sym, ty)[what]
    n = models.content_len(I, seq)
    k = idxsym('?o')
    return n, add(o, loops.psum(idx, codecmodels.elem_size(I, models.content_idx(I, seq, k))) if False else
                  mkbind('sum', idx, k, (codecmodels.elem_size(I, models.content_idx(I, seq, k)),)))


def opt_some(ty, v):
    return map_leaves(lambda l: UNDEF if l is UNDEF else mkT('adt', ty.name, 1, (l,)), v)


def query(chk, inst, ty, names):
    """summary of a query on an arbitrary uncached transaction"""
    return codec.analyse_tx(chk, inst, ty, names)


def want_fixed(I, ty, sym, what, rt, args):
    return expected(what, I, ty, sym)


def want_at(I, ty, sym, what, rt, args):
    n, o = expected(what, I, ty, sym, args[1])
    return ite(lt(args[1], n), opt_some(rt, o), none(rt))


def want_predicate(I, ty, sym, what, rt, args):
    n, base = expected('inputs', I, ty, sym, args[1])
    x = models.content_idx(I, fields_of(sym, ty)['inputs'], args[1])
    ity = codec.elem_type('Input')

    def f(i, vn, fl):
        if not vn.endswith('Predicate'):
            return none(rt)
        L = dict(codec.layouts(I, ity, x))[vn]
        return opt_some(rt, apply_n(lambda a, b: mkT('tup', a, b), add(base, L.offset('predicate')),
                                    codecmodels.padded(models.content_len(I, fl['predicate']))))
    return ite(lt(args[1], n), per_variant(x, ity, f), none(rt))


def offsets(kind):
    """(entry point, argument names, expected-value builder, item, function name)"""
    m = kind.lower()
    for w in FIXED[kind].split():
        yield m + '::' + w + '_offset', ['self'], want_fixed, w
    for w in AT[kind].split():
        yield m + '_at::' + w + '_offset_at', ['self', 'idx'], want_at, w
    if kind != 'Mint':
        yield 'predicate::' + m, ['self', 'idx'], want_predicate, 'inputs'


def one(chk, kind, path, names, want, what):
    ty = codec.elem_type(kind)

    def go():
        inst = codec.probe('offsets::' + path)
        I, sym, v, r, st, args = query(chk, inst, ty, names)
        label = kind + ' ' + path.split('::')[-1 if not path.startswith('predicate') else 0] + ' offset'
        chk.equal(I, label, I.freeze(st, r), want(I, ty, sym, what, ret_ty(inst), args), where(chk, I, inst))
        chk.equal(I, label + ' always answers', st.cond, TRUE, where(chk, I, inst))
        chk.panics(I, label)
        chk.done(I)
    chk.run('offset ' + path, go)


def where(chk, I, inst):
    """the repository functions the entry point reaches"""
    fs = [I.db.insts[i] for i in I.visited if I.db.insts[i].krate == 'fuel_tx']
    return chk.where(fs[0]) if fs else inst.name


def check(chk, tier):
    chk.rule('offset accessor = position of the named item in the encoded layout')
    for kind in codec.TXKINDS:
        for path, names, want, what in offsets(kind):
            one(chk, kind, path, names, want, what)
        ty = codec.elem_type(kind)
        for w in STATIC[kind].split():
            def go(w=w, kind=kind, ty=ty):
                inst = codec.probe('offsets::%s_static::%s' % (kind.lower(), w + ('_static' if w == 'tx_pointer' else '_offset_static')))
                I = chk.interp()
                r, st, args = I.analyse(inst)
                sym = mkT('sym', 'self', ty.name, ty=ty.name)
                chk.equal(I, '%s %s static offset' % (kind, w), r, codec.tx_layout(I, ty, sym).offset(w), where(chk, I, inst))
                chk.panics(I, '%s %s static offset' % (kind, w))
                chk.done(I)
            chk.run('%s %s static offset' % (kind, w), go)
    for rn, en, table, pick in (('InputRepr', 'Input', INPUT_REPR, INPUT_VARIANT), ('OutputRepr', 'Output', OUTPUT_REPR, None)):
        for f, m in table.items():
            repr_offset(chk, rn, en, f, m, pick)
    for f, w in (('predicate_offset', 'predicate'), ('predicate_data_offset', 'predicate_data')):
        input_offset(chk, f, w)
    for f, v, w in (('coin_predicate_offset', 'CoinPredicate', 'predicate'), ('message_data_offset', 'MessagePredicate', 'data')):
        def go(f=f, v=v, w=w):
            inst = find(db(), 'Input', f)
            I = chk.interp()
            r, st, args = I.analyse(inst)
            ty = codec.elem_type('Input')
            L = dict(codec.layouts(I, ty, mkT('sym', 'self', ty.name, ty=ty.name)))[v]
            chk.equal(I, 'Input::' + f, r, L.offset(w), chk.where(inst))
            chk.done(I)
        chk.run('Input::' + f, go)


def repr_offset(chk, rn, en, f, m, pick):
    def go():
        inst = find(db(), rn, f)
        rty, ety = codec.elem_type(rn), codec.elem_type(en)
        I = chk.interp()
        r, st, args = I.analyse(inst)
        rt = ret_ty(inst)
        s = I.deref_read(st, args[0]) if args[0].op == 'ref' else args[0]
        lay = dict(codec.layouts(I, ety, mkT('sym', 'element', ety.name, ty=ety.name)))
        want = per_variant(s, rty, lambda i, vn, fl: opt_some(rt, lay[pick[vn] if pick else vn].offset(m[vn])) if vn in m else none(rt))
        chk.equal(I, '%s::%s' % (rn, f), r, want, chk.where(inst))
        chk.panics(I, '%s::%s' % (rn, f))
        chk.done(I)
    chk.run('%s::%s' % (rn, f), go)


def input_offset(chk, f, w):
    def go():
        inst = find(db(), 'Input', f)
        ty = codec.elem_type('Input')
        I = chk.interp()
        r, st, args = I.analyse(inst)
        rt = ret_ty(inst)
        s = I.deref_read(st, args[0])
        lay = dict(codec.layouts(I, ty, s))
        want = per_variant(s, ty, lambda i, vn, fl: opt_some(rt, lay[vn].offset(w)) if w in fl else none(rt))
        chk.equal(I, 'Input::' + f, I.freeze(st, r), want, chk.where(inst))
        chk.panics(I, 'Input::' + f)
        chk.done(I)
    chk.run('Input::' + f, go)
