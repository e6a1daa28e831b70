"""Shared pieces of the property modules."""
from fractions import Fraction
import numpy as np
import jax
from . import jx, terms as tm
from .terms import (T, num, add, sub, mul, div, neg, ite, lt, le, eq, not_, and_, or_, sig, exp, log, log10, pow10,
                    ZERO, ONE, TRUE, FALSE, var, implies, iff, diff, uf, elem)
from .jx import SymArr, Unsupported

K_ATOL = 1e-9


def nt(example, shape=(), dtype=None):
    """Abstract version of a named tuple: every leaf a float array of the given shape."""
    return jax.tree.map(lambda x: jx.spec(shape, dtype), example)


def leaf(o):
    if isinstance(o, SymArr):
        return o.at()
    return o


def fields(sym, *idx):
    """Named tuple of SymArr -> dict of terms."""
    return {k: getattr(sym, k).at(*idx) for k in sym._fields}


def I(name):
    return var(name, "I")


def idx_hyps(i, d):
    return [le(num(0, "I"), i), lt(i, jx.dim_term(d))]


def crosscheck(R, tr, fn, argsets, outs, rtol=1e-7, atol=1e-9, name=""):
    """Extracted terms against the real function at concrete points (guards the extraction).

    argsets: list of (dict var name->float, python args); outs: tr.out leaves (scalars)
    """
    flat = jax.tree.leaves(tr.out, is_leaf=lambda x: isinstance(x, SymArr))
    for env, args in argsets:
        real = jax.tree.leaves(fn(*args))
        for k, (o, r) in enumerate(zip(flat, real)):
            if o.ndim:
                continue
            v = tm.evaluate(o.at(), env)
            if not np.allclose(float(v), float(r), rtol=rtol, atol=atol, equal_nan=True):
                raise Unsupported(f"extraction cross-check failed for {name} output {k}: {v} vs {r}")
            R.crosschecks += 1


def rng_floats(rng, lo, hi, n):
    return rng.uniform(lo, hi, n)


def close(a, b, rtol=1e-9, atol=1e-9):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=rtol, atol=atol, equal_nan=True)


def worst(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    d = np.abs(a - b)
    d = np.where(np.isnan(d), np.inf, d)
    k = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
    return f"index {tuple(int(i) for i in k)}: got {a[k]!r}, expected {b[k]!r}"


def np_sig(x):
    x = np.asarray(x, float)
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def np_sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) * np_sig(k * (np.asarray(x, float) - x0))


def recanon(t):
    """Rename bound summation indices canonically again, bottom-up (inner binders have smaller depth, so no capture)."""
    m = {}
    for x in tm.subterms(t):
        if x.op == "sum":
            y = tm.summ(x.args[0], x.val, tm.subst(x.args[1], m))
        else:
            continue
        if y is not x:
            m[x] = y
    return tm.subst(t, m)


def free_bound(x):
    """Bound-index variables ($...) free in x."""
    out = {}
    inner = set()
    for y in tm.subterms(x):
        if y.op in ("sum", "lam"):
            inner |= set(y.args[:-1])
    for y in tm.subterms(x):
        if y.op == "var" and str(y.val).startswith("$") and y not in inner:
            out[y] = None
    return sorted(out, key=lambda v: str(v.val))


def generalise(a, b):
    """Replace the maximal shared subterms of a and b by function symbols of their free bound indices: what holds for
    every value of those subterms holds for the actual ones."""
    A, B = set(tm.subterms(a)), set(tm.subterms(b))
    front = {}
    for t, other in ((a, B), (b, A)):
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in other:
                if x.args and x.sort == "R" and x.op != "uf":
                    front[x] = None
                continue
            stack.extend(x.args)
    m = {}
    for k, x in enumerate(front):
        fb = free_bound(x)
        m[x] = elem(f"gen{k}", fb) if fb else var(f"gen{k}")
    return recanon(tm.subst(a, m)), recanon(tm.subst(b, m))


def same(R, name, q, a, b, hyps=()):
    """Obligation a = b: identical, or equal for all values of their shared subterms, or by the general prover."""
    from . import prove as pv
    a, b = recanon(a), recanon(b)
    if a is b:
        return R.fact(name, q, True, "identical terms")
    g, h = generalise(a, b)
    if g is h or pv.prove([], eq(g, h)).ok:
        return R.prove(name, q, [], eq(g, h))
    return R.prove(name, q, list(hyps), eq(a, b))


def _monomials(t, lim=400):
    """t as a list of (coefficient, factors, divisors), products distributed over sums."""
    if t.op == "num":
        return [(t.val, [], [])]
    if t.op == "add":
        out = [m for a in t.args for m in _monomials(a, lim)]
    elif t.op == "mul":
        out = [(Fraction(1), [], [])]
        for a in t.args:
            ms = _monomials(a, lim)
            out = [(c * c2, f + f2, d + d2) for c, f, d in out for c2, f2, d2 in ms]
            if len(out) > lim:
                raise jx.Unsupported("expansion too large")
    elif t.op == "div":
        den = _monomials(t.args[1], lim)
        if len(den) == 1 and den[0][0] != 0:
            c0, f0, d0 = den[0]
            out = [(c / c0, f + d0, d + f0) for c, f, d in _monomials(t.args[0], lim)]
        else:
            out = [(c, f, d + [t.args[1]]) for c, f, d in _monomials(t.args[0], lim)]
    elif t.op == "ite" and t.sort == "R" and t.args[2] is ZERO and t.args[1] is not ONE:
        ind = ite(t.args[0], ONE, ZERO)
        out = [(c, f + [ind], d) for c, f, d in _monomials(t.args[1], lim)]
    elif t.op == "ite" and t.sort == "R" and t.args[1] is ZERO:
        ind = ite(t.args[0], ONE, ZERO)
        out = [(c, f, d) for c, f, d in _monomials(t.args[2], lim)] + [(-c, f + [ind], d) for c, f, d in _monomials(t.args[2], lim)]
    else:
        out = [(Fraction(1), [t], [])]
    if len(out) > lim:
        raise jx.Unsupported("expansion too large")
    return out


def _indicator(f):
    return f.op == "ite" and f.args[1] is ONE and f.args[2] is ZERO


def linear(t):
    """Sums by linearity: every SUM body expanded into monomials, factors free of the index pulled out, 0/1 indicators
    idempotent.  Equal to t wherever the divisors are not zero."""
    m = {}
    for x in tm.subterms(t):
        if x.op != "sum":
            continue
        b = x.args[0]
        body = tm.subst(x.args[1], m)
        acc = []
        for c, fs, ds in _monomials(body):
            inn, out, dinn, dout = [], [], [], []
            for f in fs:
                (inn if b in tm.subterms(f) else out).append(f)
            for d in ds:
                (dinn if b in tm.subterms(d) else dout).append(d)
            seen, keep = set(), []
            for f in inn:
                if _indicator(f):
                    if f in seen:
                        continue
                    seen.add(f)
                keep.append(f)
            inside = mul(*keep) if keep else ONE
            if dinn:
                inside = tm.div(inside, mul(*dinn))
            s = tm.summ(b, x.val, inside)
            s = mul(tm.num(c), s, *out)
            acc.append(tm.div(s, mul(*dout)) if dout else s)
        y = add(*acc) if acc else ZERO
        if y is not x:
            m[x] = y
    return recanon(tm.subst(t, m))


def nnf(c, pos=True):
    """Condition with negations only on equalities and uninterpreted conditions (reals: not a < b is b <= a)."""
    if c.op == "not":
        return nnf(c.args[0], not pos)
    if c.op in ("and", "or"):
        return (and_ if (c.op == "and") == pos else or_)(*[nnf(a, pos) for a in c.args])
    if c.op in ("lt", "le") and not pos:
        return (le if c.op == "lt" else lt)(c.args[1], c.args[0])
    return c if pos else not_(c)


def real_indicators(t):
    """Integer 0/1 indicators read as real ones; an indicator of the complement as the indicator of the negated condition."""
    flip = {x: ite(nnf(x.args[0], False), x.args[2], x.args[1]) for x in tm.subterms(t)
            if x.op == "ite" and x.args[1].op == "num" and x.args[2].op == "num" and x.args[1].val == 0 and x.args[2].val == 1}
    t = tm.subst(t, flip)
    m = {x: ite(x.args[0], num(x.args[1].val), num(x.args[2].val)) for x in tm.subterms(t)
         if x.op == "ite" and x.sort == "I" and x.args[1].op == "num" and x.args[2].op == "num"}
    return tm.subst(t, m)
