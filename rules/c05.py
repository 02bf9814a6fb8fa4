"""C05: precomputed metadata never changes an answer."""
from rules.base import *
from rules import codec, c04, elem
import codecmodels

EXPLANATION = """Each query that may be answered from cached metadata is summarised after a call of `precompute`, on an arbitrary transaction
whose metadata was arbitrary (also stale) before: the summary must be identical to the closed form that the same query has on an
uncached transaction (the encoder's layout, C04), `id` must be the summary of `id` on the uncached transaction, the transaction must
report itself computed, and precomputing must leave every serialized field untouched."""
ASSUMPTIONS = ['no in-memory object exceeds 2^48 bytes', 'the transaction is not mutated between precompute and the query']


def one(chk, kind, path, names, want, what):
    ty = codec.elem_type(kind)

    def go():
        inst = codec.probe('cached::' + path.replace('_at::', '::'))
        I, sym, v, r, st, args = codec.analyse_tx(chk, inst, ty, names, stale=True)
        label = '%s %s after precompute' % (kind, path.split('::')[-1] if not path.startswith('predicate') else 'inputs_predicate_offset_at')
        chk.equal(I, label, I.freeze(st, r), want(I, ty, sym, what, ret_ty(inst), args), c04.where(chk, I, inst))
        chk.equal(I, label + ' always answers', st.cond, TRUE, c04.where(chk, I, inst))
        chk.panics(I, label)
        chk.done(I)
    chk.run('cached ' + path, go)


def ident(chk, kind):
    ty = codec.elem_type(kind)
    m = kind.lower()

    def go():
        a = codec.probe('cached::%s::id' % m)
        b = codec.probe('cached::%s::id_plain' % m)
        I1, sym, v, r1, s1, _ = codec.analyse_tx(chk, a, ty, ['self'], stale=True)
        I2, sym, v, r2, s2, _ = codec.analyse_tx(chk, b, ty, ['self'])
        chk.equal(I1, kind + ' id after precompute', I1.freeze(s1, r1), I2.freeze(s2, r2), c04.where(chk, I1, a))
        chk.done(I1)
        chk.done(I2)
    chk.run(kind + ' id', go)

    def comp():
        a = codec.probe('cached::%s::computed' % m)
        I, sym, v, r, st, args = codec.analyse_tx(chk, a, ty, ['self'], stale=True)
        chk.equal(I, kind + ' is computed after precompute', r, TRUE, c04.where(chk, I, a))
        end = I.deref_read(st, args[0])
        for j, n in enumerate(field_names(ty)):
            if n == 'metadata':
                continue
            chk.equal(I, '%s precompute keeps %s' % (kind, n), I.freeze(st, I.field(end, 0, j, ty.name)), I.field(v, 0, j, ty.name), c04.where(chk, I, a))
        chk.done(I)
    chk.run(kind + ' computed', comp)

    def fresh():
        a = codec.probe('cached::%s::is_computed' % m)
        I, sym, v, r, st, args = codec.analyse_tx(chk, a, ty, ['self'])
        chk.equal(I, kind + ' without metadata is not computed', r, FALSE, c04.where(chk, I, a))
        chk.done(I)
    chk.run(kind + ' fresh', fresh)


def field_names(ty):
    return [f[0] for f in ty.d["variants"][0]["fields"]]


def check(chk, tier):
    chk.rule('query after precompute = query on the uncached transaction; precompute changes nothing else')
    for kind in codec.TXKINDS:
        for path, names, want, what in c04.offsets(kind):
            one(chk, kind, path, names, want, what)
        ident(chk, kind)
        elem.encode_tx(chk, kind, ('size', 'layout'), stale=True)
        elem.roundtrip_tx(chk, kind, cache_only=True)
