"""C19: transaction accessors, constructors and conversions."""
from rules.base import *
from rules import codec
from rules.point import *

EXPLANATION = """Every field accessor (shared; mutable, by assigning an arbitrary value through the returned reference), constructor, kind query and
conversion of transactions and their parts is summarised on arbitrary arguments; result and final value of every argument must be exactly what the
names say: the field of that name, each argument in its field, the same kind with the same contents."""

FIELDS = {'Script': ['gas_price', 'gas_limit', 'maturity', 'receipts_root', 'script', 'script_data', 'inputs', 'outputs', 'witnesses'],
          'Create': ['gas_price', 'gas_limit', 'maturity', 'bytecode_length', 'bytecode_witness_index', 'salt', 'storage_slots', 'inputs', 'outputs',
                     'witnesses'],
          'Mint': ['tx_pointer', 'outputs']}
CTOR = {'script': 'gas_price gas_limit maturity script script_data inputs outputs witnesses',
        'create': 'gas_price gas_limit maturity bytecode_witness_index salt storage_slots inputs outputs witnesses',
        'mint': 'tx_pointer outputs'}


def check(chk, tier):
    chk.rule('accessor = field of its name; assignment through the mutable accessor changes that field only')
    for kind, fs in FIELDS.items():
        ty = codec.elem_type(kind)
        names = [f[0] for f in ty.d['variants'][0]['fields'] if f[0] != 'metadata']
        chk.require(None, 'every field of %s has a rule' % kind, set(names) == set(fs), ty.name, 'fields are %s' % names)
        for n in fs:
            p = 'accessors::%s::' % kind.lower()
            point(chk, p + n, ['tx'], lambda I, v, rt, n=n, ty=ty: fld(I, ty, v['tx'], n), label='%s::%s' % (kind, n))
            point(chk, p + n + '_mut', ['tx'], lambda I, v, rt, n=n, ty=ty: fld(I, ty, v['tx'], n), label='%s::%s_mut' % (kind, n))
            point(chk, p + 'set::' + n, ['tx', 'value'], None,
                  lambda I, v, n=n, ty=ty: {'tx': with_field(I, ty, v['tx'], n, v['value'])}, label='%s::%s_mut assignment' % (kind, n))
    chk.rule('constructor = each argument in the field of its name; derived fields as documented; nothing cached')
    for f, ps in CTOR.items():
        ctor(chk, f, ps.split())
    chk.rule('wrapping and unwrapping keeps kind and contents')
    kinds(chk)
    checked(chk)
    small(chk)


def ctor(chk, f, ps):
    ty = codec.elem_type(f.capitalize())

    def want(I, v, rt):
        vals = dict(v)
        fts = dict(zip([q[0] for q in ty.d['variants'][0]['fields']], ty.field_tys(0)))
        vals['metadata'] = none(fts['metadata'])
        if f == 'script':
            from rules import prep
            vals['receipts_root'] = prep.zero(fts['receipts_root'])
        if f == 'create':
            ws = v['witnesses']
            n = models.content_len(I, ws)
            i = v['bytecode_witness_index']
            w = models.content_idx(I, ws, i)
            wty = codec.elem_type('Witness')
            d = fld(I, wty, w, 'data')
            vals['bytecode_length'] = ite(lt(i, n), ediv(models.content_len(I, d), INT(4)), INT(0))
        return struct_val(ty, None, vals)
    point(chk, 'values::transaction::' + f, ps, want, label='Transaction::' + f)


def opt(rt, ok, x):
    return ite(ok, some(rt, x), none(rt))


def is_kind(v, i):
    return mk(var_enum(v, 3), [BOOL(j == i) for j in range(3)])


def kinds(chk):
    ety = codec.elem_type('Transaction')
    for i, v in enumerate(ety.d['variants']):
        k = v['name']
        lo = k.lower()
        ty = codec.elem_type(k)
        point(chk, 'values::transaction::is_' + lo, ['t'], lambda I, v, rt, i=i: is_kind(v['t'], i), label='Transaction::is_' + lo)
        for s in ('as_%s' % lo, 'as_%s_mut' % lo):
            point(chk, 'values::transaction::' + s, ['t'],
                  lambda I, v, rt, i=i, ty=ty: opt(rt, is_kind(v['t'], i), models.mk_fld(v['t'], i, 0, ty.name)), label='Transaction::' + s)
        point(chk, 'checked::convert::tx_' + lo, ['c'], lambda I, v, rt, i=i: models.mk_adt(ety.name, i, (v['c'],)), label='Transaction::from(%s)' % k)


def checked(chk):
    d = db()
    ety, mty, cty = codec.elem_type('Transaction'), codec.elem_type('CheckedMetadata'), codec.elem_type('CheckedTransaction')
    for i, v in enumerate(ety.d['variants']):
        k = v['name']
        lo = k.lower()
        for t in (mty, cty):
            chk.require(None, '%s has the transaction kinds' % t.name, t.d['variants'][i]['name'] == k, t.name, 'kinds differ from those of Transaction')
        point(chk, 'checked::convert::meta_' + lo, ['c'], lambda I, v, rt, i=i: models.mk_adt(mty.name, i, (v['c'],)), label='CheckedMetadata::from(%s)' % k)
        point(chk, 'checked::convert::' + lo, ['c'], lambda I, v, rt, i=i: models.mk_adt(cty.name, i, (v['c'],)), label='CheckedTransaction::from(%s)' % k)

        # Checked<Transaction> -> CheckedTransaction, under the invariant that metadata and transaction are of one kind
        def pre(I, st, args, i=i):
            t = d.by_name[args[0].ty]
            names = [f[0] for f in t.d['variants'][0]['fields']]
            fts = t.field_tys(0)
            x = args[0]
            out = []
            for j, n in enumerate(names):
                f = models.mk_fld(x, 0, j, fts[j].name)
                if n in ('transaction', 'metadata'):
                    g = fts[j].field_tys(i)[0]
                    f = models.mk_adt(fts[j].name, i, (models.mk_fld(f, i, 0, g.name),))
                out.append(f)
            args[0] = models.mk_adt(t.name, 0, tuple(out))

        def want(I, v, rt, i=i):
            c = v['c']
            t = rt.field_tys(i)[0]
            cs = d.by_name[c.args[0]]
            vals = {}
            for n in [f[0] for f in cs.d['variants'][0]['fields']]:
                x = fld(I, cs, c, n)
                vals[n] = x.args[2][0] if n in ('transaction', 'metadata') else x
            return models.mk_adt(rt.name, i, (struct_val(t, None, vals),))
        point(chk, 'checked::convert::from_enum', ['c'], want, pre=pre, label='CheckedTransaction::from(Checked<Transaction>) %s' % k)

    def back(I, v, rt):
        c = v['c']

        def f(i, vn, fl):
            x = fl['0']
            xt = d.by_name[x.ty]
            vals = dict(fields_of(x, xt))
            vals['transaction'] = models.mk_adt(ety.name, i, (vals['transaction'],))
            vals['metadata'] = models.mk_adt(mty.name, i, (vals['metadata'],))
            return struct_val(rt, None, vals)
        return per_variant(c, cty, f)
    point(chk, 'checked::convert::to_enum', ['c'], back, label='Checked<Transaction>::from(CheckedTransaction)')
    for k in ('script', 'create', 'mint', 'enumeration'):
        def f(n):
            return lambda I, v, rt: fld(I, d.by_name[v['c'].ty], v['c'], n)
        for m in ('transaction', 'as_ref', 'borrow'):
            point(chk, 'checked::%s::%s' % (k, m), ['c'], f('transaction'), label='Checked<%s>::%s' % (k, m))
        point(chk, 'checked::%s::metadata' % k, ['c'], f('metadata'), label='Checked<%s>::metadata' % k)
        point(chk, 'checked::%s::split' % k, ['c'], lambda I, v, rt: mkT('tup', f('transaction')(I, v, rt), f('metadata')(I, v, rt)),
              label='Checked<%s> into parts' % k)


def small(chk):
    chk.rule('parts: constructor stores, accessor reads, conversion keeps')
    W, S, U, X, C = [codec.elem_type(n) for n in ('Witness', 'StorageSlot', 'UtxoId', 'TxPointer', 'Contract')]
    one = lambda ty, x: models.mk_adt(ty.name, 0, (x,))
    v = 'values::'
    for n in ('as_vec', 'as_ref', 'as_vec_mut', 'into_inner', 'as_mut'):
        point(chk, v + 'witness::' + n, ['w'], lambda I, v, rt: fld(I, W, v['w'], 'data'), label='Witness::' + n)
    point(chk, v + 'witness::set', ['w', 'data'], None, lambda I, v: {'w': one(W, v['data'])}, label='Witness::as_vec_mut assignment')
    for n in ('from_vec', 'from_slice'):
        point(chk, v + 'witness::' + n, ['data'], lambda I, v, rt: one(W, v['data']), label='Witness::' + n)
        point(chk, v + 'contract::' + n, ['data'], lambda I, v, rt: one(C, v['data']), label='Contract::' + n)
    point(chk, v + 'contract::from_mut_slice', ['data'], lambda I, v, rt: one(C, v['data']), label='Contract::from(&mut [u8])')
    filled = lambda I, v, ty, n: {n: one(ty, models.mk_comp(models.content_len(I, I.field(v[n], 0, 0, ty.name)), TRUE, v['x']))}
    point(chk, v + 'witness::fill', ['w', 'x'], None, lambda I, v: filled(I, v, W, 'w'), label='Witness::as_mut assignment')
    point(chk, v + 'contract::fill', ['c', 'x'], None, lambda I, v: filled(I, v, C, 'c'), label='Contract::as_mut assignment')
    point(chk, v + 'witness::extend', ['w', 'data'], None, lambda I, v: {'w': one(W, models.cat_v(I, fld(I, W, v['w'], 'data'), v['data']))}, label='Witness::extend')
    point(chk, v + 'witness::clone', ['w'], lambda I, v, rt: v['w'], label='Witness::clone')
    point(chk, v + 'contract::default', [], lambda I, v, rt: one(C, mkT('arr')), label='Contract::default')
    point(chk, v + 'witness::default', [], lambda I, v, rt: one(W, mkT('arr')), label='Witness::default')
    for n in ('into_vec', 'as_ref', 'as_mut'):
        point(chk, v + 'contract::' + n, ['c'], lambda I, v, rt: I.field(v['c'], 0, 0, C.name), label='Contract::' + n)
    for ty, m, fs in ((S, 'storage', ('key', 'value')), (U, 'utxo_id', ('tx_id', 'output_index')), (X, 'tx_pointer', ('block_height', 'tx_index'))):
        point(chk, v + m + '::new', list(fs), lambda I, v, rt, ty=ty, fs=fs: struct_val(ty, None, {f: v[f] for f in fs}), label=ty.name + '::new')
        for f in fs:
            point(chk, v + m + '::' + f, ['u'], lambda I, v, rt, ty=ty, f=f: fld(I, ty, v['u'], f), label='%s::%s' % (ty.name, f))
    point(chk, v + 'utxo_id::replace_tx_id', ['u', 'tx_id'], None, lambda I, v: {'u': with_field(I, U, v['u'], 'tx_id', v['tx_id'])},
          label='UtxoId::replace_tx_id')
    d = db()

    def cat(I, v, rt):
        k, x = codec.inner(I, fld(I, S, v['u'], 'key')), codec.inner(I, fld(I, S, v['u'], 'value'))
        return one(rt, models.cat_v(I, k, x))
    point(chk, v + 'storage::to_bytes64', ['u'], cat, label='Bytes64::from(&StorageSlot)')

    def split(I, v, rt):
        b = codec.inner(I, v['b'])
        fts = S.field_tys(0)
        return struct_val(S, None, {n: models.mk_adt(fts[j].name, 0, (models.sub_content(I, b, INT(o), INT(32)),)) for j, (n, o) in
                                    enumerate([('key', 0), ('value', 32)])})
    point(chk, v + 'storage::from_bytes64', ['b'], split, label='StorageSlot::from(&Bytes64)')

    def from_create(I, x, rt, cty, err, ok):
        ty = codec.elem_type('Create')
        ws, i = fld(I, ty, x, 'witnesses'), fld(I, ty, x, 'bytecode_witness_index')
        data = fld(I, W, models.content_idx(I, ws, i), 'data')
        return ite(lt(i, models.content_len(I, ws)), models.mk_adt(rt.name, 0, (one(C, data),)),
                   models.mk_adt(rt.name, 1, (models.mk_adt(err.name, err.variant_index('TransactionCreateBytecodeWitnessIndex'), ()),)))
    E = codec.elem_type('CheckError')
    point(chk, v + 'contract::from_create', ['c'], lambda I, v, rt: from_create(I, v['c'], rt, C, E, None), label='Contract::try_from(&Create)')

    def from_tx(I, v, rt):
        def f(i, vn, fl):
            if vn == 'Create':
                return from_create(I, fl['0'], rt, C, E, None)
            return models.mk_adt(rt.name, 1, (models.mk_adt(E.name, E.variant_index('TransactionScriptOutputContractCreated'), (INT(0),)),))
        return per_variant(v['c'], codec.elem_type('Transaction'), f)
    point(chk, v + 'contract::from_transaction', ['c'], from_tx, label='Contract::try_from(&Transaction)')
