"""C26: consensus parameters."""
from rules.base import *
from rules import codec
from rules.point import *

EXPLANATION = """Each setter of ConsensusParameters is summarised on an arbitrary parameter set and value; the result must be the same set with exactly the
field named by the setter replaced.  The default set and the published default constants are evaluated from the compiler's own constants and
compared with the specification's numbers; the transaction memory offset is compared with its formula."""
ASSUMPTIONS = ['max_inputs small enough for the memory offset to fit a machine word (the offset is a wrapping product otherwise)']

PUBLISHED = {'contract_max_size': 16 << 20, 'max_inputs': 255, 'max_outputs': 255, 'max_witnesses': 255, 'max_gas_per_tx': 100_000_000,
             'max_script_length': 1 << 20, 'max_script_data_length': 1 << 20, 'max_storage_slots': 255, 'max_predicate_length': 1 << 20,
             'max_predicate_data_length': 1 << 20, 'gas_price_factor': 1_000_000_000, 'gas_per_byte': 4, 'max_message_data_length': 1 << 20}


def check(chk, tier):
    ty = codec.elem_type('ConsensusParameters')
    names = [f[0] for f in ty.d['variants'][0]['fields']]
    chk.rule('with_x(p, v) = p with x replaced by v')
    chk.require(None, 'every parameter has a rule', set(names) == set(PUBLISHED), ty.name, 'parameters are %s' % names)
    for n in PUBLISHED:
        point(chk, 'values::params::with_' + n, ['p', 'value'], lambda I, v, rt, n=n: with_field(I, ty, v['p'], n, v['value']), label='with_' + n)
        point(chk, 'values::params::get::' + n, ['p'], lambda I, v, rt, n=n: fld(I, ty, v['p'], n), label='read ' + n)
        point(chk, 'values::params::published::' + n, [], lambda I, v, rt, n=n: INT(PUBLISHED[n]), label='default_parameters: ' + n)
    want = models.mk_adt(ty.name, 0, tuple(INT(PUBLISHED[n]) for n in names))
    for p in ('default', 'constant'):
        point(chk, 'values::params::' + p, [], lambda I, v, rt: want, label=p + ' set')

    def small(I, st, args):
        p = I.deref_read(st, args[0])
        I.extra_facts.append((TRUE, sub(INT(1 << 56), fld(I, ty, p, 'max_inputs'))))
    point(chk, 'values::params::tx_offset', ['p'], lambda I, v, rt: add(INT(40), mul(INT(40), fld(I, ty, v['p'], 'max_inputs'))), pre=small,
          label='tx_offset')
