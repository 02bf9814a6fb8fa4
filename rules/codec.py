"""The wire layout (C03) as data, and the machinery shared by C01-C05 and C08."""
from rules.base import *
import codecmodels
from codecmodels import padded

# ---------------------------------------------------------------- layout tables
# item syntax:  'w:<field>' 8-byte big-endian number; 'a:<field>' verbatim array; 'k:<n>' constant word; 'wl:<field>' length of a
# variable field; 'v:<field>' variable data zero padded; 's:<field>' nested fixed struct; 'c:<field>' script result code;
# 'lv:<field>' length word then padded data
UTXO = ['a:tx_id', 'w:output_index']
TXPTR = ['w:block_height', 'w:tx_index']
STRUCTS = {
    'UtxoId': UTXO, 'TxPointer': TXPTR, 'StorageSlot': ['a:key', 'a:value'], 'Witness': ['lv:data'],
}
INPUT = {
    'CoinSigned': ['k:0', 's:utxo_id', 'a:owner', 'w:amount', 'a:asset_id', 's:tx_pointer', 'w:witness_index', 'w:maturity', 'k:0', 'k:0'],
    'CoinPredicate': ['k:0', 's:utxo_id', 'a:owner', 'w:amount', 'a:asset_id', 's:tx_pointer', 'k:0', 'w:maturity', 'wl:predicate', 'wl:predicate_data',
                      'v:predicate', 'v:predicate_data'],
    'Contract': ['k:1', 's:utxo_id', 'a:balance_root', 'a:state_root', 's:tx_pointer', 'a:contract_id'],
    'MessageSigned': ['k:2', 'a:message_id', 'a:sender', 'a:recipient', 'w:amount', 'w:nonce', 'w:witness_index', 'wl:data', 'k:0', 'k:0', 'v:data'],
    'MessagePredicate': ['k:2', 'a:message_id', 'a:sender', 'a:recipient', 'w:amount', 'w:nonce', 'k:0', 'wl:data', 'wl:predicate', 'wl:predicate_data',
                         'v:data', 'v:predicate', 'v:predicate_data'],
}
OUTPUT = {
    'Coin': ['k:0', 'a:to', 'w:amount', 'a:asset_id'],
    'Contract': ['k:1', 'w:input_index', 'a:balance_root', 'a:state_root'],
    'Message': ['k:2', 'a:recipient', 'w:amount'],
    'Change': ['k:3', 'a:to', 'w:amount', 'a:asset_id'],
    'Variable': ['k:4', 'a:to', 'w:amount', 'a:asset_id'],
    'ContractCreated': ['k:5', 'a:contract_id', 'a:state_root'],
}
RECEIPT = {
    'Call': ['k:0', 'a:id', 'a:to', 'w:amount', 'a:asset_id', 'w:gas', 'w:param1', 'w:param2', 'w:pc', 'w:is'],
    'Return': ['k:1', 'a:id', 'w:val', 'w:pc', 'w:is'],
    'ReturnData': ['k:2', 'a:id', 'w:ptr', 'w:len', 'a:digest', 'lv:data', 'w:pc', 'w:is'],
    'Panic': ['k:3', 'a:id', 'r:reason', 'w:pc', 'w:is'],
    'Revert': ['k:4', 'a:id', 'w:ra', 'w:pc', 'w:is'],
    'Log': ['k:5', 'a:id', 'w:ra', 'w:rb', 'w:rc', 'w:rd', 'w:pc', 'w:is'],
    'LogData': ['k:6', 'a:id', 'w:ra', 'w:rb', 'w:ptr', 'w:len', 'a:digest', 'lv:data', 'w:pc', 'w:is'],
    'Transfer': ['k:7', 'a:id', 'a:to', 'w:amount', 'a:asset_id', 'w:pc', 'w:is'],
    'TransferOut': ['k:8', 'a:id', 'a:to', 'w:amount', 'a:asset_id', 'w:pc', 'w:is'],
    'ScriptResult': ['k:9', 'c:result', 'w:gas_used'],
    'MessageOut': ['k:10', 'a:message_id', 'a:sender', 'a:recipient', 'w:amount', 'a:nonce', 'w:len', 'a:digest', 'lv:data'],
}
SCRIPT = ['k:0', 'w:gas_price', 'w:gas_limit', 'w:maturity', 'wl:script', 'wl:script_data', 'wl:inputs', 'wl:outputs', 'wl:witnesses', 'a:receipts_root',
          'v:script', 'v:script_data', 'e:inputs', 'e:outputs', 'e:witnesses']
CREATE = ['k:1', 'w:gas_price', 'w:gas_limit', 'w:maturity', 'w:bytecode_length', 'w:bytecode_witness_index', 'wl:storage_slots', 'wl:inputs',
          'wl:outputs', 'wl:witnesses', 'a:salt', 'e:storage_slots', 'e:inputs', 'e:outputs', 'e:witnesses']
MINT = ['k:2', 's:tx_pointer', 'wl:outputs', 'e:outputs']
STRUCTS.update(Script=SCRIPT, Create=CREATE, Mint=MINT)
ENUMS = {'Input': INPUT, 'Output': OUTPUT, 'Receipt': RECEIPT}
SIZES = {'UtxoId': 40, 'TxPointer': 16, 'StorageSlot': 64}


class Layout:
    """chunks of one value: list of (label, length term, content term)"""

    def __init__(self):
        self.ch = []

    def put(self, label, ln, c):
        self.ch.append((label, ln, c))

    def size(self):
        r = INT(0)
        for _, ln, _ in self.ch:
            r = add(r, ln)
        return r

    def content(self, I):
        return models.cat_v(I, *[c for _, ln, c in self.ch if ln is not INT(0)])

    def offset(self, label):
        o = INT(0)
        for l, ln, _ in self.ch:
            if l == label:
                return o
            o = add(o, ln)
        raise KeyError(label)


def inner(I, v):
    """byte content of a 32-byte newtype value"""
    d = I.db
    ty = d.by_name[v.ty]
    while ty.k == 'adt':
        f = ty.field_tys(0)[0]
        v = models.mk_fld(v, 0, 0, f.name)
        ty = f
    return v


def result_code(I, v):
    ty = I.db.by_name[v.ty]
    codes = {'Success': 0, 'Revert': 1, 'Panic': 2}
    return per_variant(v, ty, lambda i, n, f: INT(codes[n]) if n in codes else f['0'])


def reason_word(I, v):
    """Word::from(InstructionResult), a function of the fuel-asm dependency"""
    return mkT('irword', v, ty='u64')


def emit(I, out, items, f, pre=''):
    for it in items:
        k, name = it.split(':')
        if k == 'k':
            out.put(None, INT(8), models.be_bytes(INT(int(name)), 8))
            continue
        if name not in f:
            raise Missing('field %s%s' % (pre, name))
        v = f[name]
        if k == 'w':
            out.put(pre + name, INT(8), models.be_bytes(v, 8))
        elif k == 'a':
            c = inner(I, v)
            out.put(pre + name, models.content_len(I, c), c)
        elif k == 'c':
            out.put(pre + name, INT(8), models.be_bytes(result_code(I, v), 8))
        elif k == 'r':
            out.put(pre + name, INT(8), models.be_bytes(reason_word(I, v), 8))
        elif k == 's':
            ty = I.db.by_name[v.ty]
            item = ty.d['item']
            n0 = len(out.ch)
            emit(I, out, STRUCTS[item], fields_of(v, ty), pre + name + '.')
            l0 = out.ch[n0]
            out.ch.insert(n0, (pre + name, INT(0), mkT('arr')))
        elif k == 'wl':
            out.put('len:' + pre + name, INT(8), models.be_bytes(models.content_len(I, v), 8))
        elif k == 'e':
            n = models.content_len(I, v)
            kx = terms.idxsym('?e')
            x = models.content_idx(I, v, kx)
            sz = codecmodels.elem_size(I, x)
            out.put(pre + name, loops.psum(n, subst(sz, {kx: kx})) if False else mkbind('sum', n, kx, (sz,)),
                    mkbind('rep', n, kx, (codecmodels.enc_of(I, x), sz)))
        elif k in ('v', 'lv'):
            n = models.content_len(I, v)
            if k == 'lv':
                out.put('len:' + pre + name, INT(8), models.be_bytes(n, 8))
            out.put(pre + name, n, v)
            z = sub(padded(n), n)
            out.put(None, z, codecmodels.mk_zeros(z))


def layouts(I, ty, self_):
    """variant index -> (variant name, Layout) of the opaque value self_ of ty"""
    item = ty.d['item']
    res = []
    if item in STRUCTS:
        L = Layout()
        emit(I, L, STRUCTS[item], fields_of(self_, ty))
        return [(None, L)]
    tab = ENUMS[item]
    if set(tab) != set(v['name'] for v in ty.d['variants']):
        raise Missing('variants of ' + item)
    for i, v in enumerate(ty.d['variants']):
        L = Layout()
        emit(I, L, tab[v['name']], fields_of(self_, ty, i))
        res.append((v['name'], L))
    return res


def pick(ty, self_, vals):
    if len(vals) == 1:
        return vals[0]
    return mk(var_enum(self_, len(vals)), vals)


def elem_type(name):
    return db().adt(name, 'fuel_tx')


def encoder(name):
    return find(db(), name, 'read', 'Read')


def decoder(name):
    return find(db(), name, 'write', 'Write')


def sizer(name):
    return find(db(), name, 'serialized_size', 'SizedBytes')


def analyse_variant(chk, inst, ty, vi, names, selfname='self', deref=True, **opts):
    """run inst with its first argument a reference to (or) a value of variant vi"""
    I = chk.interp(**opts)
    sym = mkT('sym', selfname, ty.name, ty=ty.name)
    val = variant_val(I, ty, sym, vi)

    def pre(st, args):
        if deref:
            st.roots[args[0].args[0]] = val
        else:
            args[0] = val
    r, st, args = I.analyse(inst, names=names, pre=pre)
    return I, sym, val, r, st, args


def variant_val(I, ty, sym, vi):
    if ty.d['adt'] == 'struct':
        return sym
    fs = tuple(models.mk_fld(sym, vi, j, t.name) for j, t in enumerate(ty.field_tys(vi)))
    return models.mk_adt(ty.name, vi, fs)


TXKINDS = ['Script', 'Create', 'Mint']


def fresh_tx(ty, sym):
    """an arbitrary transaction of struct type ty with nothing cached"""
    fs = [models.mk_fld(sym, 0, j, x.name) for j, x in enumerate(ty.field_tys(0))]
    try:
        j = ty.field_index(0, 'metadata')
    except (KeyError, ValueError, StopIteration):
        raise Missing(ty.name + ' metadata')
    fs[j] = none(ty.field_tys(0)[j])
    return models.mk_adt(ty.name, 0, tuple(fs))


def analyse_tx(chk, inst, ty, names, wrap=None, pre=None, stale=False, **opts):
    """inst on (a reference to) an arbitrary uncached transaction of struct type ty, elements opaque"""
    opts.setdefault('contract_rules', codecmodels.tx_rules(db()))
    opts.setdefault('prune', True)
    I = chk.interp(**opts)
    sym = mkT('sym', 'self', ty.name, ty=ty.name)
    val = models.mk_adt(ty.name, 0, tuple(models.mk_fld(sym, 0, j, x.name) for j, x in enumerate(ty.field_tys(0)))) if stale else fresh_tx(ty, sym)
    v = wrap(I, val) if wrap else val

    def p(st, args):
        if isinstance(args[0], T) and args[0].op == 'ref':
            st.roots[args[0].args[0]] = v
        else:
            args[0] = v
        if pre:
            pre(I, st, args, sym)
    r, st, args = I.analyse(inst, names=names, pre=p)
    return I, sym, v, r, st, args


def tx_layout(I, ty, sym):
    L = Layout()
    emit(I, L, STRUCTS[ty.d['item']], fields_of(sym, ty))
    return L


def probe(path):
    """the analysis entry point probe/src/full/<path>"""
    for i in db().insts:
        if i.krate == 'fuel_tx_probe' and i.name == 'full::' + path:
            return i
    raise Missing('entry point ' + path)
