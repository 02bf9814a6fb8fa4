"""Agreement of an entry point with a reference definition of its required behaviour (probe/src/full/spec.rs): both are summarised by the same analysis
on the same arbitrary arguments and the summaries must be equal."""
from rules.base import *
from rules import codec, c04


def summary(chk, path, names, rules=None, pre=None, **opts):
    inst = codec.probe(path)
    opts.setdefault('prune', True)
    opts.setdefault('unbounded', True)
    I = chk.interp(contract_rules=list(rules or []), **opts)
    g = {}

    def p(st, args):
        if pre:
            pre(I, st, args)
        g['c'] = st.cond
    r, st, args = I.analyse(inst, names=names, pre=p)
    return I, inst, I.freeze(st, r), st, args, g['c']


def agree(chk, real, want, names, label, msg, rules=lambda: None, pre=None, cases=None, effects=(), sizes=True, partial=False, **opts):
    """real and want must have equal results (and final values of the reference arguments named in effects); real must not panic; with sizes=False what
    happens when a size sum passes the integer range is left to the properties about sizes (C02, C05, C15); with partial=True both may panic, but
    only on the same arguments"""
    def go():
        I2, inst2, b, st2, a2, g2 = summary(chk, want, names, rules(), pre, **opts)
        I, inst, a, st, a1, g1 = summary(chk, real, names, rules(), pre, **opts)
        w = c04.where(chk, I, inst)
        if partial:
            I.n_obls -= len(I.obls)
            I.obls[:] = []
            chk.equal(I, label + ': returns exactly when it should', st.cond, st2.cond, w, guard=g1, msg=msg)
            g1 = AND(g1, st.cond)
        elif sizes:
            chk.require(I2, label + ': the reference is total', st2.cond, want, 'the reference definition may panic (specification error)', guard=g2)
        else:
            g1 = AND(g1, st.cond, st2.cond)
            I.n_obls -= sum(o.kind.lower() == 'overflow' for o in I.obls)
            I.obls[:] = [o for o in I.obls if o.kind.lower() != 'overflow']
        chk.equal(I, label, a, b, w, guard=AND(g1, st.cond), msg=msg)
        for n, x, y in zip(names, a1, a2):
            if n in effects:
                chk.equal(I, '%s: %s afterwards' % (label, n), I.freeze(st, x), I2.freeze(st2, y), w, guard=AND(g1, st.cond), msg=msg)
        if sizes and not partial:
            chk.require(I, label + ': returns', st.cond, w, 'may panic or not return', guard=g1)
        chk.panics(I, label)
        chk.done(I)
        chk.done(I2)
    return chk.run(label, go)
