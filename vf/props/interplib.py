"""Obligations for piecewise-linear inversion of a table (contract of jnp.interp)."""
from ..lib import *


def inst(lm, i):
    """Body of a lambda at index term i."""
    assert lm.op == "lam" and len(lm.args) == 2
    return tm.subst(lm.args[1], {lm.args[0]: i})


def size_of(lm):
    return int(lm.val[0])


def table_facts(t):
    """For two applications of the same constant table: order of the entries follows the order of the indices
    (checked on the actual constant array)."""
    import numpy as np
    out = []
    apps = [s for s in tm.subterms(t) if s.op == "uf" and s.val[1].startswith("table:")]
    for a in apps:
        for b in apps:
            if a is not b and a.val == b.val and len(a.args) == 1 and np.all(np.diff(jx.TABLES[a.val[1]]) > 0):
                out.append(implies(lt(a.args[0], b.args[0]), lt(a, b)))
    tn = [s for s in tm.subterms(t) if s.op == "uf" and s.val[1] == "tncdf"]
    for a in tn:
        rng = lt(a.args[1], a.args[2])
        out.append(implies(rng, and_(le(ZERO, a), le(a, ONE))))
        for b in tn:
            if a is not b and a.args[1:] == b.args[1:]:
                x, y = a.args[0], b.args[0]
                out.append(implies(and_(rng, le(x, y)), le(a, b)))
                if x.op == y.op == "div" and x.args[1] is y.args[1]:
                    out.append(implies(and_(rng, lt(ZERO, x.args[1]), le(x.args[0], y.args[0])), le(a, b)))
    return out


def find_interps(t):
    return [s for s in tm.subterms(t) if s.op == "uf" and s.val[1] == "interp"]


def obligations(R, what, fn, it_, hyps, lo=None, hi=None, cdf=None):
    """Preconditions of the interp contract for one application, and the facts the contract then gives.

    cdf: spec of the tabulated distribution, value -> term.  Returns (range facts, monotone(it2))."""
    x, xp, fp = it_.args
    n, n2 = size_of(xp), size_of(fp)
    R.fact(f"{what}: tables have equal length >= 2", fn, n == n2 >= 2, "shape")
    i, j = I("i"), I("j")
    rng = [le(num(0, "I"), i), lt(i, j), lt(j, num(n, "I"))]
    xi, xj, fi, fj = inst(xp, i), inst(xp, j), inst(fp, i), inst(fp, j)
    facts = table_facts(tm.add(xi, xj, fi, fj) if False else tm._mk("tup", (xi, xj, fi, fj), (), "A"))
    R.prove(f"{what}: tabulated positions are nondecreasing", fn, hyps + rng + facts, le(fi, fj))
    R.prove(f"{what}: tabulated distribution is nondecreasing", fn, hyps + rng + facts + [le(fi, fj)], le(xi, xj))
    R.prove(f"{what}: tabulated distribution lies in [0,1]", fn, hyps + rng + facts, and_(le(ZERO, xi), le(xi, ONE)))
    if cdf is not None:
        R.prove(f"{what}: the table is the declared distribution at the tabulated position", fn, hyps + rng[:1], eq(xi, cdf(fi)))
    f0, f1 = inst(fp, num(0, "I")), inst(fp, num(n - 1, "I"))
    f0, f1 = [const_table(t) for t in (f0, f1)]
    return [le(f0, it_), le(it_, f1)]


def const_table(t):
    """Entries of constant tables at constant indices are their values."""
    m = {}
    for s in tm.subterms(t):
        if s.op == "uf" and s.val[1].startswith("table:") and all(a.op == "num" for a in s.args):
            m[s] = tm.from_float(float(jx.TABLES[s.val[1]][tuple(int(a.val) for a in s.args)]))
    return tm.subst(t, m) if m else t
