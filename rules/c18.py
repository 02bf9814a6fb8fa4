"""C18: accessors, predicates, constructors and numeric kinds of inputs, outputs and receipts."""
from rules.base import *

EXPLANATION = """Every accessor, predicate, constructor and numeric-kind conversion of Input, Output and Receipt is summarised by
gated value-flow analysis of its MIR on an arbitrary value of the type; the summary (a decision diagram over the variant, with
field-of-variant terms at its leaves) must be identical to the table required by the names of the variants and fields."""

INPUT_SPECIAL = {
    # accessor: (field, {variant: override})
    'input_owner': 'owner', 'input_data': 'data', 'input_predicate': 'predicate', 'input_predicate_data': 'predicate_data',
}
INPUT_SAME = ['utxo_id', 'contract_id', 'amount', 'witness_index', 'maturity', 'message_id', 'tx_pointer', 'balance_root', 'state_root', 'sender',
              'recipient', 'nonce']
OUTPUT_SAME = ['asset_id', 'to', 'amount', 'input_index', 'balance_root', 'state_root', 'contract_id', 'recipient']
RECEIPT_SAME = ['id', 'pc', 'is', 'amount', 'asset_id', 'gas', 'param1', 'param2', 'val', 'ptr', 'len', 'digest', 'data', 'reason', 'ra', 'rb', 'rc', 'rd',
                'result', 'gas_used', 'message_id', 'sender', 'recipient', 'nonce']
INPUT_IS = {'is_coin': ['CoinSigned', 'CoinPredicate'], 'is_coin_signed': ['CoinSigned'], 'is_coin_predicate': ['CoinPredicate'],
            'is_message': ['MessageSigned', 'MessagePredicate'], 'is_message_signed': ['MessageSigned'], 'is_message_predicate': ['MessagePredicate'],
            'is_contract': ['Contract']}
OUTPUT_IS = {'is_coin': ['Coin'], 'is_message': ['Message'], 'is_variable': ['Variable'], 'is_contract': ['Contract'],
             'is_contract_created': ['ContractCreated']}
INPUT_CTOR = {
    'coin_signed': ('CoinSigned', 'utxo_id owner amount asset_id tx_pointer witness_index maturity'),
    'coin_predicate': ('CoinPredicate', 'utxo_id owner amount asset_id tx_pointer maturity predicate predicate_data'),
    'contract': ('Contract', 'utxo_id balance_root state_root tx_pointer contract_id'),
    'message_signed': ('MessageSigned', 'message_id sender recipient amount nonce witness_index data'),
    'message_predicate': ('MessagePredicate', 'message_id sender recipient amount nonce data predicate predicate_data'),
}
OUTPUT_CTOR = {
    'coin': ('Coin', 'to amount asset_id'), 'contract': ('Contract', 'input_index balance_root state_root'), 'message': ('Message', 'recipient amount'),
    'change': ('Change', 'to amount asset_id'), 'variable': ('Variable', 'to amount asset_id'),
    'contract_created': ('ContractCreated', 'contract_id state_root'),
}
RECEIPT_CTOR = {
    'call': ('Call', 'id to amount asset_id gas param1 param2 pc is'), 'ret': ('Return', 'id val pc is'),
    'return_data_with_len': ('ReturnData', 'id ptr len digest data pc is'), 'revert': ('Revert', 'id ra pc is'),
    'log': ('Log', 'id ra rb rc rd pc is'), 'log_data_with_len': ('LogData', 'id ra rb ptr len digest data pc is'),
    'transfer': ('Transfer', 'id to amount asset_id pc is'), 'transfer_out': ('TransferOut', 'id to amount asset_id pc is'),
    'script_result': ('ScriptResult', 'result gas_used'),
    'message_out_with_len': ('MessageOut', 'message_id sender recipient amount nonce len digest data'),
    # with a derived length
    'return_data': ('ReturnData', 'id ptr digest data pc is'), 'log_data': ('LogData', 'id ra rb ptr digest data pc is'),
    'message_out': ('MessageOut', 'message_id sender recipient amount nonce digest data'),
    'panic': ('Panic', 'id reason pc is'),
}
INPUT_NUM = {'CoinSigned': 0, 'CoinPredicate': 0, 'Contract': 1, 'MessageSigned': 2, 'MessagePredicate': 2}
REPR = {'InputRepr': ['Coin', 'Contract', 'Message'], 'OutputRepr': ['Coin', 'Contract', 'Message', 'Change', 'Variable', 'ContractCreated'],
        'ReceiptRepr': ['Call', 'Return', 'ReturnData', 'Panic', 'Revert', 'Log', 'LogData', 'Transfer', 'TransferOut', 'ScriptResult', 'MessageOut'],
        'TransactionRepr': ['Script', 'Create', 'Mint']}


def padded(n):
    return mul(INT(8), ediv(add(n, INT(7)), INT(8)))


def accessor(chk, tname, name, want):
    """want(variant_index, variant_name, fields) -> value or None; the accessor must return Some(value) / None"""
    d = db()
    inst = find(d, tname, name)

    def go():
        I = chk.interp()
        r, st, args = I.analyse(inst)
        rt = ret_ty(inst)
        got = I.freeze(st, r)
        self_ = I.deref_read(st, args[0]) if args[0].op == 'ref' else args[0]
        ty = d.adt(tname, 'fuel_tx')

        def w(i, vn, fl):
            x = want(i, vn, fl)
            if rt.k == 'bool':
                return boolv(x)
            return none(rt) if x is None else some(rt, x)
        exp = per_variant(self_, ty, w)
        chk.equal(I, '%s::%s' % (tname, name), got, exp, chk.where(inst))
        chk.panics(I, '%s::%s' % (tname, name))
        chk.equal(I, '%s::%s terminates normally' % (tname, name), st.cond, TRUE, chk.where(inst))
        chk.done(I)
    chk.run('%s::%s' % (tname, name), go)


def ctor(chk, tname, name, variant, params, extra=None):
    d = db()
    inst = find(d, tname, name)
    params = params.split()

    def go():
        I = chk.interp()
        r, st, args = I.analyse(inst, names=params)
        got = I.freeze(st, r)
        ty = d.adt(tname, 'fuel_tx')
        vals = dict(zip(params, [I.freeze(st, a) for a in args]))
        if extra:
            extra(I, ty, vals)
        exp = struct_val(ty, variant, vals)
        chk.equal(I, '%s::%s stores each argument in its field' % (tname, name), got, exp, chk.where(inst))
        chk.panics(I, '%s::%s' % (tname, name))
        chk.done(I)
    chk.run('%s::%s' % (tname, name), go)


def check(chk, tier):
    d = db()
    chk.rule('accessor summary = per-variant table of the same-named field')
    zero32 = mkT('arr', *[INT(0)] * 32)
    asset = d.adt('AssetId')
    base_asset = mkT('adt', asset.name, 0, (zero32,))
    for n in INPUT_SAME:
        accessor(chk, 'Input', n, lambda i, v, f, n=n: f.get(n))
    for n, fld in INPUT_SPECIAL.items():
        accessor(chk, 'Input', n, lambda i, v, f, fld=fld: f.get(fld))
    accessor(chk, 'Input', 'asset_id', lambda i, v, f: base_asset if v.startswith('Message') else f.get('asset_id'))
    accessor(chk, 'Input', 'predicate', lambda i, v, f: mkT('tup', f['predicate'], f['predicate_data']) if 'predicate' in f else None)
    I0 = chk.interp()
    for n in ('predicate', 'predicate_data'):
        accessor(chk, 'Input', n + '_len', lambda i, v, f, n=n: models.content_len(I0, f[n]) if n in f else (None if v == 'Contract' else INT(0)))
    for n, vs in INPUT_IS.items():
        accessor(chk, 'Input', n, lambda i, v, f, vs=vs: v in vs)
    for n in OUTPUT_SAME:
        accessor(chk, 'Output', n, lambda i, v, f, n=n: f.get(n))
    for n, vs in OUTPUT_IS.items():
        accessor(chk, 'Output', n, lambda i, v, f, vs=vs: v in vs)
    for n in RECEIPT_SAME:
        accessor(chk, 'Receipt', n, lambda i, v, f, n=n: f.get(n))
    accessor(chk, 'Receipt', 'to', lambda i, v, f: f.get('to') if v in ('Call', 'Transfer') else None)
    accessor(chk, 'Receipt', 'to_address', lambda i, v, f: f.get('to') if v == 'TransferOut' else None)
    accessor_flat(chk)
    accessor(chk, 'Receipt', 'is_empty', lambda i, v, f: eq_int(f['len'], INT(0)) if 'len' in f else None)
    chk.rule('constructor summary = variant with each argument in the field of its position')
    for n, (v, p) in INPUT_CTOR.items():
        ctor(chk, 'Input', n, v, p)
    for n, (v, p) in OUTPUT_CTOR.items():
        ctor(chk, 'Output', n, v, p)
    for n, (v, p) in RECEIPT_CTOR.items():
        def extra(I, ty, vals, v=v):
            if 'data' in vals and 'len' not in vals:
                vals['len'] = padded(models.content_len(I, vals['data']))
            if v == 'Panic':
                i = ty.variant_index('Panic')
                vals['contract_id'] = none(ty.field_tys(i)[ty.field_index(i, 'contract_id')])
        ctor(chk, 'Receipt', n, v, p, extra)
    with_panic(chk)
    kinds(chk)


def accessor_flat(chk):
    """Receipt::contract_id: the payload of the panic receipt's optional contract id"""
    d = db()
    inst = find(d, 'Receipt', 'contract_id')

    def go():
        I = chk.interp()
        r, st, args = I.analyse(inst)
        got = I.freeze(st, r)
        rt = ret_ty(inst)
        ty = d.adt('Receipt', 'fuel_tx')
        self_ = I.deref_read(st, args[0])

        def w(i, vn, f):
            if vn != 'Panic':
                return none(rt)
            o = f['contract_id']
            oty = d.by_name[o.ty]
            return mk(var_enum(o, 2), [none(rt), some(rt, models.mk_fld(o, 1, 0, oty.field_tys(1)[0].name))])
        chk.equal(I, 'Receipt::contract_id', got, per_variant(self_, ty, w), chk.where(inst))
        chk.panics(I, 'Receipt::contract_id')
        chk.done(I)
    chk.run('Receipt::contract_id', go)


def with_panic(chk):
    d = db()
    inst = find(d, 'Receipt', 'with_panic_contract_id')

    def go():
        I = chk.interp()
        r, st, args = I.analyse(inst, names=['self', 'cid'])
        ty = d.adt('Receipt', 'fuel_tx')
        s = args[0]

        def w(i, vn, f):
            if vn == 'Panic':
                f = dict(f, contract_id=args[1])
                return struct_val(ty, vn, f)
            return s
        chk.equal(I, 'Receipt::with_panic_contract_id', I.freeze(st, r), per_variant(s, ty, w), chk.where(inst))
        chk.done(I)
    chk.run('Receipt::with_panic_contract_id', go)


def kinds(chk):
    """numeric identifiers: value -> repr is injective on reprs, matches the variant, and number -> repr is its inverse"""
    d = db()
    chk.rule('kind numbers: TryFrom<Word> accepts exactly the numbers of the kinds and returns the kind with that number; the kind of a value is that of its variant')
    for rn, names in REPR.items():
        ty = d.adt(rn, 'fuel_tx')
        vs = {v['name']: int(v['discr']) for v in ty.d['variants']}
        chk.require(None, '%s discriminants are the wire numbers' % rn, vs == {n: i for i, n in enumerate(names)}, rn, 'kind numbers are %s' % vs)
        inst = None
        for o in d.insts:
            if o.item == 'try_from' and o.d['self'] is not None and o.self_ty is ty and o.body is not None:
                inst = o
        if inst is None:
            raise Missing('%s: TryFrom<Word>' % rn)

        def go(inst=inst, ty=ty, vs=vs, rn=rn):
            I = chk.interp()
            r, st, args = I.analyse(inst)
            x = args[0]
            is_ok = map_leaves(lambda l: BOOL(l.op == 'adt' and l.args[1] == 0), r)
            want = OR(*[eq_int(x, INT(k)) for k in vs.values()])
            chk.equal(I, '%s::try_from accepts exactly its numbers' % rn, is_ok, want, chk.where(inst))
            val = map_leaves(lambda l: l.args[2][0] if l.op == 'adt' and l.args[1] == 0 else UNDEF, r)
            num = I.discr(val, ty)
            exp = UNDEF
            for k in vs.values():
                exp = ite(eq_int(x, INT(k)), INT(k), exp)
            chk.equal(I, '%s::try_from returns the kind with that number' % rn, num, exp, chk.where(inst), guard=want)
            chk.panics(I, rn + '::try_from')
            chk.done(I)
        chk.run(rn + '::try_from', go)
    # kind of a value
    def kind_of(src, rn, inst, mapping):
        ty, rt = d.adt(src, 'fuel_tx'), d.adt(rn, 'fuel_tx')

        def go():
            I = chk.interp()
            r, st, args = I.analyse(inst)
            s = I.deref_read(st, args[0]) if args[0].op == 'ref' else args[0]
            exp = per_variant(s, ty, lambda i, v, f: mkT('adt', rt.name, rt.variant_index(mapping.get(v, v)), ()))
            chk.equal(I, '%s of %s via %s' % (rn, src, inst.name), I.freeze(st, r), exp, chk.where(inst))
            chk.done(I)
        chk.run('%s of %s' % (rn, src), go)
    im = {'CoinSigned': 'Coin', 'CoinPredicate': 'Coin', 'MessageSigned': 'Message', 'MessagePredicate': 'Message'}
    kind_of('Input', 'InputRepr', find(d, 'Input', 'repr'), im)
    kind_of('Output', 'OutputRepr', find(d, 'Output', 'repr'), {})
    n = 0
    for o in d.insts:
        if o.item == 'from' and o.body is not None and o.krate == 'fuel_tx' and o.d['self'] is not None and o.self_ty.k == 'adt' and o.self_ty.d['item'] in REPR:
            a = d.ty(o.body['locals'][1])
            if a.k == 'ref' and a.to.k == 'adt' and a.to.d['item'] in ('Input', 'Output', 'Receipt', 'Transaction'):
                kind_of(a.to.d['item'], o.self_ty.d['item'], o, im if a.to.d['item'] == 'Input' else {})
                n += 1
    if n < 4:
        raise Missing('From<&value> for the kind enums')
    # script result codes
    ser = d.adt('ScriptExecutionResult', 'fuel_tx')
    codes = {'Success': 0, 'Revert': 1, 'Panic': 2}
    for o in d.insts:
        if o.item != 'from' or o.body is None or o.krate != 'fuel_tx' or o.body['argc'] != 1:
            continue
        a, r0 = d.ty(o.body['locals'][1]), d.ty(o.body['locals'][0])
        if a is ser and r0.name == 'u64':
            def go(o=o):
                I = chk.interp()
                r, st, args = I.analyse(o)
                exp = per_variant(args[0], ser, lambda i, v, f: INT(codes[v]) if v in codes else f['0'])
                chk.equal(I, 'result code of ScriptExecutionResult', r, exp, chk.where(o))
                chk.done(I)
            chk.run('result code', go)
        if r0 is ser and a.name == 'u64':
            def go(o=o):
                I = chk.interp()
                r, st, args = I.analyse(o)
                x = args[0]
                exp = mkT('adt', ser.name, ser.variant_index('GenericFailure'), (x,))
                for v, c in codes.items():
                    exp = ite(eq_int(x, INT(c)), mkT('adt', ser.name, ser.variant_index(v), ()), exp)
                chk.equal(I, 'ScriptExecutionResult of a result code', r, exp, chk.where(o))
                chk.done(I)
            chk.run('result of code', go)
