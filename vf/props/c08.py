"""C08: scatter covariance is symmetric positive definite at every mass."""
import itertools
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from . import poplib as pl, c05
from .poplib import L, P0

FUNCTIONS = ["covariance_kernels:_get_diffmahpop_cov", "covariance_kernels:_get_cov_params",
             "covariance_kernels:_get_diffmahpop_cov_vmap", "utils:covariance_from_correlation",
             "utils:get_cholesky_from_params"]
NM = ("logm0", "logtc", "early", "late")
Q = "covariance_kernels:_get_diffmahpop_cov"


def scatter(p, lgm, nm):
    """sigmoid in mass, steepness 2, between the two declared asymptotes"""
    lo, hi = p[f"std_u_{nm}_ylo"], p[f"std_u_{nm}_yhi"]
    return add(lo, mul(sub(hi, lo), sig(mul(num(2), sub(lgm, p[f"cov_lgm_x0_{nm}"])))))


def rho(i, j):
    i, j = max(i, j), min(i, j)
    return f"rho_{NM[i]}_{NM[j]}"


def obligations(R):
    C = L.cov
    B = c05.load("covariance_kernels")[4]
    b = lambda k: [tm.from_float(x) for x in B[k]]
    h = []
    p = {k: var("p." + k) for k in C.DEFAULT_COV_PARAMS._fields}
    for k in p:
        h += [le(b(k)[0], p[k]), le(p[k], b(k)[1])]
    hyp = lambda *names: [x for x in h if any(str(v)[2:] in names for v in tm.free_vars(x))]
    with R.guard("covariance"):
        R.reachable("in-bounds covariance parameters", h)
        tr = jx.trace(C._get_diffmahpop_cov, (nt(C.DEFAULT_COV_PARAMS), jx.spec()), ["p", "lgm"])
        R.fact("4x4 matrix", Q, tuple(tr.out.shape) == (4, 4), "shape", str(tr.out.shape))
        lgm = var("lgm")
        M = [[tr.out.at(i, j) for j in range(4)] for i in range(4)]
        s = [scatter(p, lgm, n) for n in NM]
        for i in range(4):
            nm = NM[i]
            hh = hyp(f"std_u_{nm}_ylo", f"std_u_{nm}_yhi", f"cov_lgm_x0_{nm}")
            R.prove(f"variance of {nm} is the square of its predicted scatter", Q, [], eq(M[i][i], mul(s[i], s[i])))
            hs = hh + [lt(p[k], b(k)[1]) for k in (f"std_u_{nm}_ylo", f"std_u_{nm}_yhi")] + [lt(b(k)[0], p[k]) for k in (f"std_u_{nm}_ylo", f"std_u_{nm}_yhi")]
            R.prove(f"scatter of {nm} strictly inside its declared range", Q, hs,
                    and_(lt(b(f"std_u_{nm}_ylo")[0], s[i]), lt(s[i], b(f"std_u_{nm}_ylo")[1])))
            R.prove(f"scatter of {nm} is positive", Q, hh, lt(ZERO, s[i]))
        for i, j in itertools.permutations(range(4), 2):
            if i > j:
                R.prove(f"symmetric ({NM[i]},{NM[j]})", Q, [], eq(M[i][j], M[j][i]))
            R.prove(f"cov({NM[i]},{NM[j]}) = {rho(i, j)} * scatter * scatter", Q, [], eq(M[i][j], mul(p[rho(i, j)], s[i], s[j])))
        # positive definite: x.C.x is a sum of six pair forms, each positive unless both its entries vanish
        y = [var(f"y{i}") for i in range(4)]
        S = [var(f"s{i}") for i in range(4)]
        x = [div(y[i], S[i]) for i in range(4)]          # y_i = s_i x_i
        quad = add(*[mul(x[i], (mul(S[i], S[i]) if i == j else mul(p[rho(i, j)], S[i], S[j])), x[j]) for i in range(4) for j in range(4)])
        pair = {(i, j): add(mul(div(ONE, num(3)), add(mul(y[i], y[i]), mul(y[j], y[j]))), mul(num(2), p[rho(i, j)], y[i], y[j]))
                for i, j in itertools.combinations(range(4), 2)}
        nz = [not_(eq(S[i], ZERO)) for i in range(4)]
        R.prove("x.C.x equals the sum of the six pair forms", Q, nz, eq(quad, add(*pair.values())))
        for (i, j), t in pair.items():
            R.prove(f"pair form ({NM[i]},{NM[j]}) is nonnegative", Q, hyp(rho(i, j)), le(ZERO, t))
            R.prove(f"pair form ({NM[i]},{NM[j]}) is positive unless both entries vanish", Q,
                    hyp(rho(i, j)) + [not_(and_(eq(y[i], ZERO), eq(y[j], ZERO)))], lt(ZERO, t))
    with R.guard("predicted scatter"):
        tr = jx.trace(C._get_cov_params, (nt(C.DEFAULT_COV_PARAMS), jx.spec()), ["p", "lgm"])
        q = "covariance_kernels:_get_cov_params"
        for i, nm in enumerate(NM):
            R.prove(f"predicted scatter of {nm}", q, [], eq(tr.out[0].at(i), scatter(p, lgm, nm)))
        for k, (i, j) in enumerate(((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2))):
            R.prove(f"correlation {k} is {rho(i, j)}", q, [], eq(tr.out[1].at(k), p[rho(i, j)]))
    with R.guard("vmap"):
        if hasattr(C, "_get_diffmahpop_cov_vmap"):
            n, = jx.dims("n", ["n>=1"])
            tv = jx.trace(C._get_diffmahpop_cov_vmap, (nt(C.DEFAULT_COV_PARAMS), jx.spec((n,))), ["p", "m"])
            t1 = jx.trace(C._get_diffmahpop_cov, (nt(C.DEFAULT_COV_PARAMS), jx.spec()), ["p", "lgm"], sym={"lgm": tm.elem("m", [I("h")])})
            for i in range(4):
                for j in range(4):
                    R.prove(f"row h of the vectorised covariance is the covariance at mass h ({i},{j})", "covariance_kernels:_get_diffmahpop_cov_vmap", [],
                            eq(tv.out.at(I("h"), i, j), t1.out.at(i, j)))

def spd(p, lgm):
    s = [np_sigmoid(lgm, p[f"cov_lgm_x0_{n}"], 2.0, p[f"std_u_{n}_ylo"], p[f"std_u_{n}_yhi"]) for n in NM]
    return np.array([[s[i] * s[j] * (1 if i == j else p[rho(i, j)]) for j in range(4)] for i in range(4)])


def check_cov(p, lgm):
    C = L.cov
    x = C.DEFAULT_COV_PARAMS._replace(**{k: float(v) for k, v in p.items()})
    want = spd({k: float(v) for k, v in x._asdict().items()}, np.float64(lgm))
    msgs = []
    runs = [("", np.asarray(C._get_diffmahpop_cov(x, lgm)))]
    full = P0._replace(**x._asdict())
    runs.append(("full set: ", np.asarray(C._get_diffmahpop_cov(full, lgm))))
    if hasattr(C, "_get_diffmahpop_cov_vmap"):
        runs.append(("vmap: ", np.asarray(C._get_diffmahpop_cov_vmap(x, jnp.array([lgm, 12.0])))[0]))
    for nm, m in runs:
        if not close(m, want, 1e-9, 1e-12):
            msgs.append(nm + "covariance " + worst(m, want))
        if not np.allclose(m, m.T, rtol=1e-12, atol=0):
            msgs.append(nm + "not symmetric")
        d = np.sqrt(np.diag(m))
        if np.linalg.eigvalsh(m / np.outer(d, d)).min() <= 0:
            msgs.append(nm + "not positive definite")
    return msgs


def gen_cov(rng, N):
    B = c05.load("covariance_kernels")[4]
    for k in range(N):
        p = {}
        for n, (lo, hi) in B.items():
            f = rng.uniform(0.001, 0.999)
            if k % 3 == 0:
                f = rng.choice([1e-6, 1 - 1e-6])
            v = lo + f * (hi - lo)
            if n.startswith("rho") and k % 4 == 1 and rng.random() < 0.5:
                v = 0.0
            elif n.startswith("rho") and k % 4 == 2 and rng.random() < 0.5:
                v = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2))
            p[n] = float(v)
        yield dict(p=p, lgm=float(rng.uniform(9, 16)))


CASES = {"cov": Case(check_cov, gen_cov, 60, 600)}
