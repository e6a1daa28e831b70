"""C20: numerical building blocks obey their defining laws."""
import itertools
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from .. import nx
from diffmah import utils

FUNCTIONS = ["utils:_sigmoid", "utils:_inverse_sigmoid", "utils:_sig_slope", "utils:get_dt_array", "utils:trimmed_mean",
             "utils:trimmed_mean_and_variance", "utils:get_1d_arrays"]
TRUSTED = ["numpy zeros/indexing/broadcast semantics as implemented in vf/nx.py"]
X = [var(n) for n in ("x", "x0", "k", "ylo", "yhi")]
ZI_, O1 = num(0, "I"), num(1, "I")


def half(a):
    return mul(num(Fraction(1, 2)), a)


def sigmoid_laws(R):
    x, x0, k, lo, hi = X
    q = "utils:_sigmoid"
    tr = jx.trace(utils._sigmoid, (jx.spec(),) * 5, ["x", "x0", "k", "ylo", "yhi"])
    y = tr.out.at()
    R.prove("sigmoid: equals the midpoint of its asymptotes at its centre", q, [eq(x, x0)], eq(y, half(add(lo, hi))))
    R.prove("sigmoid: strictly between its asymptotes (rising)", q, [lt(lo, hi)], and_(lt(lo, y), lt(y, hi)))
    R.prove("sigmoid: strictly between its asymptotes (falling)", q, [lt(hi, lo)], and_(lt(hi, y), lt(y, lo)))
    R.prove("sigmoid: constant when the asymptotes coincide", q, [eq(lo, hi)], eq(y, lo))
    x2 = var("x2")
    y2 = tm.subst(y, {x: x2})
    for nm, h, g in (("rising", [lt(lo, hi), lt(ZERO, k)], lt(y, y2)), ("falling step", [lt(hi, lo), lt(ZERO, k)], lt(y2, y)),
                     ("negative rate", [lt(lo, hi), lt(k, ZERO)], lt(y2, y)), ("falling, negative rate", [lt(hi, lo), lt(k, ZERO)], lt(y, y2))):
        R.prove(f"sigmoid: strictly monotone with the sign of its step ({nm})", q, h + [lt(x, x2)], g)
    R.prove("sigmoid: is the logistic of the declared steepness", q, [], eq(y, add(lo, mul(sub(hi, lo), sig(mul(k, sub(x, x0)))))))
    q = "utils:_inverse_sigmoid"
    inv = jx.trace(lambda x, x0, k, lo, hi: utils._inverse_sigmoid(utils._sigmoid(x, x0, k, lo, hi), x0, k, lo, hi), (jx.spec(),) * 5,
                   ["x", "x0", "k", "ylo", "yhi"]).out.at()
    R.prove("inverse sigmoid of sigmoid is the identity", q, [not_(eq(lo, hi)), not_(eq(k, ZERO))], eq(inv, x))
    fwd = jx.trace(lambda y, x0, k, lo, hi: utils._sigmoid(utils._inverse_sigmoid(y, x0, k, lo, hi), x0, k, lo, hi), (jx.spec(),) * 5,
                   ["y", "x0", "k", "ylo", "yhi"]).out.at()
    yy = var("y")
    for nm, h in (("rising", [lt(lo, yy), lt(yy, hi)]), ("falling", [lt(hi, yy), lt(yy, lo)])):
        R.reachable("value between the asymptotes, " + nm, h)
        R.prove(f"sigmoid of inverse sigmoid is the identity ({nm})", q, h + [not_(eq(k, ZERO))], eq(fwd, yy))
    q = "utils:_sig_slope"
    a = [var(n) for n in ("x", "xtp", "ytp", "x0", "slope_k", "lo", "hi")]
    t = jx.trace(utils._sig_slope, (jx.spec(),) * 7, [str(v) for v in a]).out.at()
    R.prove("sigmoid-slope line passes through its pivot", q, [eq(a[0], a[1])], eq(t, a[2]))
    R.prove("sigmoid-slope line has the sigmoid slope", q, [],
            eq(t, add(a[2], mul(add(a[5], mul(sub(a[6], a[5]), sig(mul(a[4], sub(a[0], a[3]))))), sub(a[0], a[1])))))
    n, = jx.dims("n", ["n>=1"])
    i = I("i")
    v = jx.trace(utils._sigmoid, (jx.spec((n,)),) + (jx.spec(),) * 4, ["x", "x0", "k", "ylo", "yhi"]).out
    R.prove("sigmoid of an array is elementwise", "utils:_sigmoid", idx_hyps(i, n), eq(v.at(i), tm.subst(y, {x: elem("x", [i])})))
    v = jx.trace(utils._inverse_sigmoid, (jx.spec((n,)),) + (jx.spec(),) * 4, ["y", "x0", "k", "ylo", "yhi"]).out
    w = jx.trace(utils._inverse_sigmoid, (jx.spec(),) * 5, ["y", "x0", "k", "ylo", "yhi"]).out
    R.prove("inverse sigmoid of an array is elementwise", "utils:_inverse_sigmoid", idx_hyps(i, n), eq(v.at(i), tm.subst(w.at(), {yy: elem("y", [i])})))


def dt_spec(n):
    T = lambda i: elem("t", [i])
    n1 = sub(n, O1)
    mid = lambda i: half(add(T(i), T(add(i, O1))))
    first = sub(T(ZI_), half(sub(T(O1), T(ZI_))))
    lo = lambda i: ite(eq(i, ZI_), first, mid(sub(i, O1)))
    d = lambda i: sub(mid(i), lo(i))
    last = sub(add(T(n1), half(d(sub(n, num(2))))), lo(n1))
    return T, lo, d, (lambda i: ite(lt(i, n1), d(i), last)), n1


def dt_array(R):
    q = "utils:get_dt_array"

    def posts(r, n, hyps, loops, lab):
        T, lo, d, want, n1 = dt_spec(n)
        dim = n if not is_int_(n) else int(n.val)
        f = nx.sym_function(utils.get_dt_array, loops=loops)
        ps = nx.explore(lambda: f(nx.A((dim,), lambda i: elem("t", list(i)))), hyps=hyps)
        i = I("i")
        hi_ = lambda i: ite(lt(i, n1), half(add(T(i), T(add(i, O1)))), add(T(n1), half(d(sub(n, num(2))))))

        def ex(k, p):
            if p.kind != "return":
                r.fact(f"{lab}no error on arrays of at least two times (path {k})", q, False, "path exploration", repr(p.value))
                return
            got = nx.as_array(p.value)
            nx.discharge(r, f"{lab}step i spans from the midpoint below to the midpoint above (path {k})", q, p.pc, p.value, nx.A((dim,), lambda ix: want(ix[0])))
            rng = p.pc + [le(ZI_, i), lt(i, n)]
            g = got.at(i)
            j = add(i, O1)
            r.prove(f"{lab}steps tile the axis: upper edge = lower edge of the next (path {k})", q, rng + [lt(j, n)],
                    eq(add(lo(i), g), lo(j)))
            inc = [lt(T(i), T(j)), lt(T(sub(i, O1)), T(i)), lt(T(ZI_), T(O1)), lt(T(sub(n, num(2))), T(n1)),
                   implies(lt(num(2, "I"), n), lt(T(sub(n, num(3))), T(sub(n, num(2)))))]
            r.prove(f"{lab}all steps positive on increasing times (path {k})", q, rng + inc, lt(ZERO, g))
        nx.prove_paths(r, q, ps, ex)

    def full(r):
        n = var("#n", "I")
        _, lo, d, _, _ = dt_spec(n)
        st = lambda k: dict(dt=nx.A((n,), lambda i: ite(lt(i[0], k), d(i[0]), ZERO)), tlo=nx.S(lo(k)))
        h = [le(num(2), n)]
        r.reachable("two or more times", h)
        posts(r, n, h, {0: nx.LoopContract(st)}, "")

    def bounded(r):
        for m in range(2, 8):
            posts(r, num(m, "I"), [], {}, f"n={m}: ")
    nx.by_contract_or_bounded(R, q, full, bounded, "arrays of 2 to 7 symbolic times")


def is_int_(t):
    return t.op == "num"


def trimmed(R):
    n, = jx.dims("n", ["n>=1"])
    p = var("p")
    xs = lambda i: elem("x", [i])
    b = tm.fresh("b", "I")
    arr = tm.lam([b], [n], xs(b))
    lo, hi = (uf("quantile", [f, arr]) for f in (p, sub(ONE, p)))
    s = tm.fresh("s", "I")
    keep = lambda i: ite(and_(le(lo, xs(i)), le(xs(i), hi)), ONE, ZERO)
    S_ = lambda f: tm.summ(s, n, f(s))
    cnt = S_(keep)
    sx = S_(lambda i: mul(keep(i), xs(i)))
    for fn in ("trimmed_mean", "trimmed_mean_and_variance"):
        q = "utils:" + fn
        with R.guard(fn):
            f = getattr(utils, fn)
            tr = jx.trace(f, (jx.spec((n,)), jx.spec()), ["x", "p"])
            out = tr.out if isinstance(tr.out, (tuple, list)) else (tr.out,)
            whole = all(free_array_uses(o.at(), "x") for o in out)
            R.fact(f"{fn}: the sample enters only through whole-array sums and percentiles (so reordering changes nothing)", q, whole, "program inspection")
            trim_posts(R, q, fn, out, lo, hi, n, p)


def free_array_uses(t, name):
    """Every occurrence of name[...] is at the index bound by an enclosing sum or lambda over the whole array, and that
    index occurs nowhere except as an index of name."""
    def walk(x, bound):
        if x.op in ("sum", "lam"):
            if x.op == "lam" and len(x.args) != 2:
                return False
            if str(x.val if x.op == "sum" else x.val[0]) != "n":
                return False
            return walk(x.args[-1], x.args[0])
        if x.op == "uf" and x.val[1] == name if isinstance(x.val, tuple) else False:
            return len(x.args) == 1 and x.args[0] is bound
        if x.op == "elem" or (x.op == "uf" and name in str(x.val)):
            return len(x.args) == 1 and x.args[0] is bound
        if x is bound:
            return False
        return all(walk(a, bound) for a in x.args)
    return walk(t, None)


def trim_posts(R, q, fn, out, lo, hi, n, p):
    xs = lambda i: elem("x", [i])
    s = tm.fresh("s", "I")
    inside = lambda i: and_(le(lo, xs(i)), le(xs(i), hi))
    keep = lambda i: ite(inside(i), ONE, ZERO)
    S_ = lambda f: recanon(tm.summ(s, n, f(s)))
    N, cnt = S_(keep), var("N")

    def linear_thresholds(t):
        # no value of the sample lies strictly between the linear quantile and the next value of the sample on either side
        m = {}
        for c in tm.subterms(t):
            if c.op == "le":
                a, b = c.args
                if is_q(a, "quantile_higher", b):
                    m[c] = le(uf("quantile", a.args), b)
                elif is_q(b, "quantile_lower", a):
                    m[c] = le(a, uf("quantile", b.args))
        return tm.subst(t, m) if m else t

    def norm(t):
        t = linear_thresholds(t)
        # weights are keep/N with N >= 1: positive exactly for the values kept
        t = tm.subst(recanon(real_indicators(t)), {N: cnt})
        for _ in range(3):
            m = {}
            for x in tm.subterms(t):
                if x.op in ("lt", "le") and not any(y.op == "sum" for y in tm.subterms(x)):
                    for k in (x.args[0], x.args[1]):
                        for y in tm.subterms(k):
                            if _ind(y) and pv_ok([le(ONE, cnt)], eq(ite(x, ONE, ZERO), y)):
                                m[x] = y.args[0]
            t = tm.subst(recanon(tm.subst(t, m)), {N: cnt})
        return tm.subst(linear(t), {N: cnt})
    mean_spec = tm.div(S_(lambda i: mul(xs(i), keep(i))), cnt)
    same(R, f"{fn}: mean of the values within the p-th and (1-p)-th percentiles inclusive", q, norm(out[0].at()), norm(mean_spec), [le(ONE, cnt)])
    if fn.endswith("variance"):
        ss = S_(lambda i: mul(keep(i), sub(xs(i), mean_spec), sub(xs(i), mean_spec)))
        same(R, f"{fn}: unbiased variance (divisor one less than the number of values kept)", q, norm(out[1].at()),
             norm(div(ss, sub(cnt, ONE))), [lt(ONE, cnt)])


def is_q(t, name, x):
    """t is the quantile `name` of the array that x is an element of"""
    return t.op == "uf" and t.val == ("uf", name) and x.op == "uf" and x.val[0] == "elem" and t.args[1].op == "lam" and \
        t.args[1].args[-1].op == "uf" and t.args[1].args[-1].val == x.val


def _ind(y):
    return y.op == "ite" and y.args[1] is ONE and y.args[2] is ZERO


def pv_ok(h, g):
    from .. import prove as pv
    return pv.prove(h, g).ok


def arrays_1d(R):
    q = "utils:get_1d_arrays"
    n, m = var("#n", "I"), var("#m", "I")
    s = [nx.S(var("s0")), nx.S(var("s1"))]
    v = lambda nm, d: nx.A((d,), lambda i: elem(nm, list(i)))
    cases = {"scalar, vector": lambda: (s[0], v("a", n)), "vector, scalar, vector": lambda: (v("a", n), s[0], v("b", n)),
             "scalars": lambda: (s[0], s[1]), "vector": lambda: (v("a", n),), "scalar": lambda: (s[0],),
             "one-element vector, vector": lambda: (v("a", 1), v("b", n)), "vector, vector": lambda: (v("a", n), v("b", n)),
             "vector, scalar, scalar": lambda: (v("a", n), s[0], s[1])}
    for nm, mk in cases.items():
        for jaxa in (False, True):
            with R.guard(f"get_1d_arrays({nm})"):
                f = nx.sym_function(utils.get_1d_arrays)
                ps = nx.explore(lambda: f(*mk(), jax_arrays=jaxa), hyps=[le(O1, n)])
                lab = f"{nm}{', jax' if jaxa else ''}"
                for k, p in enumerate(ps):
                    if p.kind != "return":
                        R.fact(f"{lab}: accepted (path {k})", q, False, "path exploration", repr(p.value))
                        continue
                    size = n if any("n" in str(a.shape) for a in mk() if isinstance(a, nx.A)) else 1
                    R.fact(f"{lab}: one result per argument (path {k})", q, len(p.value) == len(mk()), "path exploration")
                    want = [nx.A((size,), lambda i, a=a: a.t if isinstance(a, nx.S) else a.fn((ZI_,) if a.shape[0] == 1 and size != 1 else i)) for a in mk()]
                    nx.discharge(R, f"{lab}: every result has the common length and the input values (path {k})", q, p.pc, list(p.value), want)
    with R.guard("get_1d_arrays(mismatched)"):
        f = nx.sym_function(utils.get_1d_arrays)
        ps = nx.explore(lambda: f(v("a", n), v("b", m)), hyps=[lt(O1, n), lt(n, m)])
        for k, p in enumerate(ps):
            R.fact(f"vectors of different lengths are rejected (path {k})", q, p.kind == "raise", "path exploration", p.kind)


def obligations(R):
    with R.guard("sigmoid"):
        sigmoid_laws(R)
    with R.guard("get_dt_array"):
        dt_array(R)
    trimmed(R)
    arrays_1d(R)


# ------------------------------------------------------------------ concrete clauses
def check_sigmoid(x0, k, lo, hi, xs):
    x = np.sort(np.asarray(xs, float))
    y = np.asarray(utils._sigmoid(jnp.asarray(x), x0, k, lo, hi))
    want = np_sigmoid(x, x0, k, lo, hi)
    msgs = []
    if not close(y, want, 1e-9, 1e-12):
        msgs.append("sigmoid " + worst(y, want))
    z = np.asarray(utils._inverse_sigmoid(jnp.asarray(y), x0, k, lo, hi))
    d = np.abs(k * (x - x0)) < 15
    slope = np_sigmoid(x, x0, k, 0.0, 1.0) * np_sigmoid(x, x0, -k, 0.0, 1.0)     # rounding of y moves x by this over the slope
    tol = 1e-6 / abs(k) + 1e-6 * np.abs(x) + (0 if lo == hi else 1e-14 * max(abs(lo), abs(hi)) / np.maximum(abs(hi - lo) * slope, 1e-300) / abs(k))
    if lo != hi and np.any(~(np.abs(z - x)[d] <= tol[d])):
        msgs.append("inverse_sigmoid(sigmoid(x)) " + worst(z[d], x[d]))
    if lo != hi:
        yy = lo + (hi - lo) * np.linspace(0.01, 0.99, 9)
        b = np.asarray(utils._sigmoid(utils._inverse_sigmoid(jnp.asarray(yy), x0, k, lo, hi), x0, k, lo, hi))
        if not close(b, yy, 1e-9, 1e-9):
            msgs.append("sigmoid(inverse_sigmoid(y)) " + worst(b, yy))
    xtp, ytp = x[0] + 0.3, 1.7
    s = np.asarray(utils._sig_slope(jnp.asarray(x), xtp, ytp, x0, k, lo, hi))
    w = ytp + want * (x - xtp)
    if not close(s, w, 1e-9, 1e-9):
        msgs.append("sig_slope " + worst(s, w))
    return msgs


def gen_sigmoid(rng, N):
    for j in range(N):
        x0, k = rng.normal() * 3, rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 1)
        lo, hi = rng.normal(size=2) * 4
        if j % 9 == 0:
            hi = lo
        yield dict(x0=float(x0), k=float(k), lo=float(lo), hi=float(hi), xs=[float(v) for v in x0 + rng.normal(size=12) * 3 / abs(k)] + [float(x0), float(x0 + rng.uniform(9, 14) / k), float(x0 - rng.uniform(9, 14) / k)])


def check_dt(t):
    t = np.asarray(t, float)
    dt = np.asarray(utils.get_dt_array(t))
    n = t.size
    edges = np.concatenate(([t[0] - (t[1] - t[0]) / 2], (t[1:] + t[:-1]) / 2))
    want = np.append(np.diff(edges), 0.0)
    want[-1] = t[-1] + want[-2] / 2 - edges[-1]
    msgs = []
    if dt.shape != t.shape or not close(dt, want, 1e-9, 1e-12):
        msgs.append("dt " + (worst(dt, want) if dt.shape == t.shape else str(dt.shape)))
    if np.all(np.diff(t) > 0) and not np.all(dt > 0):
        msgs.append(f"non-positive step at {np.flatnonzero(dt <= 0)}")
    return msgs


def gen_dt(rng, N):
    for k in range(N):
        n = 2 + k % 6 if k < 12 else int(rng.integers(2, 200))
        t = np.cumsum(10 ** rng.uniform(-2, 1, n)) + rng.normal()
        yield dict(t=[float(x) for x in (np.round(t, 1) + np.arange(n) if k % 4 == 0 else t)])


def check_trim(x, p, perm):
    x = np.asarray(x, float)
    lo, hi = np.percentile(x, 100 * p), np.percentile(x, 100 * (1 - p))
    kept = x[(x >= lo) & (x <= hi)]
    m = float(utils.trimmed_mean(jnp.asarray(x), p))
    m2, v2 = map(float, utils.trimmed_mean_and_variance(jnp.asarray(x), p))
    sc = np.abs(kept).max() + 1e-300
    msgs = []
    if not (close(m, kept.mean(), 1e-9, 1e-10 * sc) and close(m2, kept.mean(), 1e-9, 1e-10 * sc)):
        msgs.append(f"trimmed mean {m}, {m2}, values kept average {kept.mean()}")
    if kept.size > 1 and not close(v2, kept.var(ddof=1), 1e-8, 1e-12 * sc ** 2):
        msgs.append(f"trimmed variance {v2}, of the values kept {kept.var(ddof=1)}")
    y = jnp.asarray(x[np.asarray(perm)])
    r = [float(utils.trimmed_mean(y, p)), *map(float, utils.trimmed_mean_and_variance(y, p))]
    if not close(r, [m, m2, v2], 1e-8, 1e-11 * sc):
        msgs.append(f"reordering the sample changes the result: {r} {[m, m2, v2]}")
    return msgs


def gen_trim(rng, N):
    # equal values, where the interpolated percentile is rounded past them
    yield dict(x=[7.0] * 25, p=0.013343679323483414, perm=list(range(25)))
    for k in range(N):
        n = int(rng.integers(3, 60))
        x = rng.normal(size=n) * 10 ** rng.uniform(-2, 2) + rng.normal() * 3
        if k % 5 == 0:
            x = np.round(x, 0)
        if k % 7 == 1:
            x[rng.integers(n)] = 1e4
        if k % 8 == 3:      # (nearly) all values equal
            x = np.full(n, float(np.round(rng.normal() * 5, 1)))
            x[:int(rng.integers(0, 3))] += 1.0
        p = 0.0 if k % 4 == 0 else float(rng.uniform(0.01, 0.4))
        while p and any(abs(f * (n - 1) - round(f * (n - 1))) < 1e-3 for f in (p, 1 - p)):
            p = float(rng.uniform(0.01, 0.4))
        yield dict(x=[float(v) for v in x], p=p, perm=[int(i) for i in rng.permutation(n)])


def check_1d(args):
    a = [np.asarray(x) if isinstance(x, list) else x for x in args]
    want_n = max(np.size(x) for x in a)
    msgs = []
    for kw in ({}, {"jax_arrays": True}):
        if any(np.size(x) not in (1, want_n) for x in a):
            try:
                utils.get_1d_arrays(*a, **kw)
                msgs.append("different lengths accepted")
            except AssertionError:
                pass
            continue
        out = utils.get_1d_arrays(*a, **kw)
        if len(out) != len(a):
            msgs.append(f"{len(out)} results for {len(a)} arguments")
        for k, (o, x) in enumerate(zip(out, a)):
            if np.shape(o) != (want_n,) or not np.array_equal(np.asarray(o), np.zeros(want_n) + x):
                msgs.append(f"argument {k}: {np.asarray(o)[:4]} for input {np.atleast_1d(x)[:4]}, length {np.shape(o)}")
    return msgs


def gen_1d(rng, N):
    for k in range(N):
        n = int(rng.integers(1, 9))
        out = []
        for _ in range(int(rng.integers(1, 5))):
            c = rng.integers(0, 5 if k % 3 else 6)
            out.append(float(rng.normal()) if c == 0 else int(rng.integers(-9, 9)) if c == 1 else [float(v) for v in rng.normal(size=n)] if c < 4
                       else [int(v) for v in rng.integers(-5, 99, n)] if c == 4 else [float(v) for v in rng.normal(size=n + 2)])
        yield dict(args=out)


CASES = {"sigmoid": Case(check_sigmoid, gen_sigmoid, 60, 600), "dt": Case(check_dt, gen_dt, 60, 600), "trim": Case(check_trim, gen_trim, 30, 200),
         "arrays": Case(check_1d, gen_1d, 60, 600)}
