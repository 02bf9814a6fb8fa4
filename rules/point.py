"""Summaries of analysis entry points (probe/src/full) compared with required results and effects."""
from rules.base import *
from rules import codec, c04


def point(chk, path, names, want=None, after=None, pre=None, label=None, msg=None, total=True, config=None, **opts):
    """analyse entry point `path` on arbitrary arguments named `names`.
    want(I, vals, rt): required result (references dereferenced); after(I, vals): {argument: required final value} of what the arguments
    refer to; arguments not mentioned must be left as they were."""
    label = label or path

    def go():
        inst = codec.probe(path)
        opts.setdefault('prune', True)
        I = chk.interp(**opts)
        vals = {}

        def p(st, args):
            if pre:
                pre(I, st, args)
            for n, a in zip(names, args):
                vals[n] = I.freeze(st, a)
        r, st, args = I.analyse(inst, names=names, pre=p)
        w = c04.where(chk, I, inst)
        rt = ret_ty(inst)
        if want is not None:
            chk.equal(I, label + ': result', I.freeze(st, r), want(I, vals, rt), w, guard=st.cond if not total else TRUE, msg=msg)
        fin = after(I, vals) if after else {}
        for n, a in zip(names, args):
            if isinstance(a, T) and a.op in ('ref', 'slice'):
                chk.equal(I, '%s: %s afterwards' % (label, n), I.freeze(st, a), fin.get(n, vals[n]), w, guard=st.cond if not total else TRUE,
                          msg=msg or 'the final value of %s differs from what the property requires' % n)
        if total:
            chk.equal(I, label + ': returns normally', st.cond, TRUE, w)
        chk.panics(I, label)
        chk.done(I)
        return I, st, args, r
    return chk.run(label, go)


def with_field(I, ty, v, name, x):
    """struct value v of type ty with one field replaced"""
    names = [f[0] for f in ty.d['variants'][0]['fields']]
    if name not in names:
        raise Missing('field %s of %s' % (name, ty.name))
    return models.mk_adt(ty.name, 0, tuple(x if n == name else I.field(v, 0, j, ty.name) for j, n in enumerate(names)))


def fld(I, ty, v, name):
    names = [f[0] for f in ty.d['variants'][0]['fields']]
    if name not in names:
        raise Missing('field %s of %s' % (name, ty.name))
    return I.field(v, 0, names.index(name), ty.name)
