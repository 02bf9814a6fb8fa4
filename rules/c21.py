"""C21: the builder produces a signed, prepared, precomputed transaction."""
from rules.base import *
from rules import refspec
from engine import codecmodels

EXPLANATION = """Every setter, the appending of unsigned inputs, the preparation flags, and each way to finalize are summarised by value-flow analysis on an arbitrary
builder and arbitrary arguments.  What the builder holds is observed through its public interface (the keys it remembers and the transaction it finalizes to
without signatures or preparation), and must equal, in every field, the definitions of probe/src/full/builder.rs; finalizing must equal finalizing without
signatures followed by signing with every remembered key and precomputing."""
ASSUMPTIONS = ['the transaction held by a builder carries no cached metadata before it is finalized (no constructor or setter computes any)',
               'public-key derivation and signing are those of fuel-crypto (functions of the key and the bytes given)', 'signing is that of C20',
               'no in-memory object exceeds 2^48 bytes']

CASES = [('gas_price', 'b x'), ('gas_limit', 'b x'), ('maturity', 'b x'), ('add_input', 'b x'), ('add_output', 'b x'), ('add_witness', 'b x'),
         ('unsigned_coin', 'b key utxo amount asset pointer maturity'), ('unsigned_message', 'b key sender nonce amount data'),
         ('script_prepared', 'b'), ('predicate_prepared', 'b'), ('both_prepared', 'b'), 
         ('finalize_plain', 'b'), ('finalize_script', 'b'), ('finalize_predicate', 'b'), ('finalize_both', 'b'),
         ('finalize_enum_plain', 'b'), ('finalize_enum_script', 'b'), ('finalize_enum_predicate', 'b'), ('finalize_enum_both', 'b'),
         ('unsigned_enum_plain', 'b'), ('unsigned_enum_script', 'b'), ('unsigned_enum_predicate', 'b'), ('unsigned_enum_both', 'b'), ('inputs', 'b'), ('outputs', 'b'), ('witnesses', 'b')]
NEW = [('script', 'code data'), ('script_prepares', 'code data o'), ('create_prepares_nothing', 'code salt slots i o'), ('create', 'code salt slots'), ('mint', 'height index'), ('mint_output', 'b o'), ('mint_enum', 'b'), ('mint_plain', 'b'),
       ('mint_plain_enum', 'b')]


def opaque(what):
    """the outcome of a check as an uninterpreted function of its arguments"""
    def h(I, inst, a, st, dty):
        x = [I.freeze(st, v) for v in a]

        def f(*xs):
            ok = as_cond(mkT('app', what + ' accepts', *xs, ty='bool'))
            t = dty.field_tys(0)[0].name
            return ite(ok, models.res_ok(dty, mkT('app', what, *xs, ty=t)), models.res_err(dty, mkT('app', what + ' error', *xs, ty=dty.field_tys(1)[0].name)))
        return terms.apply_n(f, *x)
    return h


def checking():
    return codecmodels.tx_rules(db()) + [((lambda i: i.item == 'into_checked_basic'), opaque('basic check')),
                                         ((lambda i: i.item == 'check_signatures'), opaque('signature check'))]


def fresh(I, st, args):
    """the builder's transaction has no cached metadata"""
    for a in args:
        v = I.deref_read(st, a) if isinstance(a, T) and a.op == 'ref' else a
        if not isinstance(v, T) or v.op != 'sym':
            continue
        ty = I.db.by_name.get(v.ty)
        if ty is None or ty.k != 'adt' or not ty.name.startswith('fuel_tx::builder::TransactionBuilder'):
            continue
        for j, ft in enumerate(ty.field_tys(0)):
            if ft.k == 'adt' and ft.d['krate'] == 'fuel_tx' and ft.d['adt'] == 'struct':
                f = [x[0] for x in ft.d['variants'][0]['fields']]
                if 'metadata' in f:
                    m = I.field(I.field(v, 0, j, ty.name), 0, f.index('metadata'), ft.name)
                    st.cond = AND(st.cond, mk(var_enum(m, 2), [TRUE, FALSE]))


def check(chk, tier):
    chk.rule('each builder operation has exactly its named effect')
    rules = lambda: codecmodels.tx_rules(db())
    for k in ('script', 'create'):
        for n, args in CASES:
            refspec.agree(chk, 'builder::%s::real::%s' % (k, n), 'builder::%s::want::%s' % (k, n), args.split(), '%s builder: %s' % (k, n),
                          'the builder does not do exactly what the operation names', rules=rules, pre=fresh, sizes=False)
    for n, args in NEW:
        refspec.agree(chk, 'builder::new::real::' + n, 'builder::new::want::' + n, args.split(), 'new builder: ' + n,
                      'the builder does not hold exactly what it was given', rules=rules, pre=fresh, sizes=False)
    chk.rule('finalizing into a checked transaction checks what finalizing yields')
    for k in ('script', 'create', 'mint'):
        for n in ('checked', 'basic'):
            refspec.agree(chk, 'builder::new::real::%s_%s' % (n, k), 'builder::new::want::%s_%s' % (n, k), ['b', 'h', 'p'], '%s builder: %s' % (k, n),
                          'not the %s check of the finalized transaction' % n, rules=checking, pre=fresh, sizes=False, partial=True)
    return chk
