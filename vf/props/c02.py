"""C02: the accretion rate is the exact time derivative of the returned mass /1e9, and zero after t_peak."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from ..prove import assume_cond
from . import mahlib as ml
from diffmah import diffmah_kernels as dk

FUNCTIONS = ["diffmah_kernels:mah_singlehalo", "diffmah_kernels:mah_halopop", "diffmah_kernels:_dmhdt_kern",
             "diffmah_kernels:_dmhdt_kern_scalar", "diffmah_kernels:_diffmah_kern_scalar", "diffmah_kernels:_dmhdt_noq_kern_scalar", "diffmah_kernels:_dmhdt_noq_kern", "diffmah_kernels:_diffmah_kern",
             "diffmah_kernels:_dmhdt_kern_u_params", "diffmah_kernels:_diffmah_kern_u_params", "diffmah_kernels:_log_mah_kern_u_params"]
ASSUMPTIONS = ["the derivative rules used for the oracle (product, quotient, exp, log, logistic) are the Mathlib rules "
               "restated in lean/Lemmas.lean; applying them to a term is done by vf.terms.diff"]


def rate_obligations(R, fn, name, rate, logmass, t, tpeak, hyps):
    before = {lt(t, tpeak): True, lt(tpeak, t): False}
    lm = assume_cond(logmass, before)
    R.prove(f"{name}: rate = d(10**log_mah)/dt/1e9 before t_peak", fn, hyps + [lt(t, tpeak)],
            eq(rate, div(diff(pow10(lm), t), num(10 ** 9))))
    R.prove(f"{name}: rate = 0 after t_peak", fn, hyps + [lt(tpeak, t)], eq(rate, ZERO))


def obligations(R):
    n, m = jx.dims("n,m", ["n>=1", "m>=1"])
    h, i = I("h"), I("i")
    P0 = dk.DEFAULT_MAH_PARAMS
    with R.guard("mah_singlehalo"):
        tr = jx.trace(dk.mah_singlehalo, (nt(P0), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"])
        t, tp = tr.inp["t"].at(i), tr.inp["p.t_peak"].at()
        hy = [lt(ZERO, t), lt(ZERO, tp)] + idx_hyps(i, m)
        R.reachable("before", hy + [lt(t, tp)])
        R.reachable("after", hy + [lt(tp, t)])
        rate_obligations(R, "diffmah_kernels:mah_singlehalo", "single halo", tr.out[0].at(i), tr.out[1].at(i), t, tp, hy)
        R.fact("shape", "diffmah_kernels:mah_singlehalo", len(tr.out[0].shape) == 1 and jx.dims_eq(tr.out[0].shape[0], m), "shape")
    with R.guard("mah_halopop"):
        tr = jx.trace(dk.mah_halopop, (nt(P0, (n,)), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"])
        t, tp = tr.inp["t"].at(i), tr.inp["p.t_peak"].at(h)
        hy = [lt(ZERO, t), lt(ZERO, tp)] + idx_hyps(i, m) + idx_hyps(h, n)
        rate_obligations(R, "diffmah_kernels:mah_halopop", "population", tr.out[0].at(h, i), tr.out[1].at(h, i), t, tp, hy)
        R.fact("shape", "diffmah_kernels:mah_halopop", len(tr.out[0].shape) == 2 and jx.dims_eq(tr.out[0].shape[0], n)
               and jx.dims_eq(tr.out[0].shape[1], m), "shape")
    U0 = dk.DEFAULT_MAH_U_PARAMS
    with R.guard("u_params"):
        if hasattr(dk, "_diffmah_kern_u_params"):
            tr = jx.trace(dk._diffmah_kern_u_params, (nt(U0), jx.spec((m,)), jx.spec()), ["u", "t", "lgt0"])
            trb = jx.trace(dk.get_bounded_mah_params, (nt(U0),), ["u"])
            t, tp = tr.inp["t"].at(i), trb.out.t_peak.at()
            hy = [lt(ZERO, t), lt(ZERO, tp)] + idx_hyps(i, m)
            rate_obligations(R, "diffmah_kernels:_diffmah_kern_u_params", "unconstrained", tr.out[0].at(i), tr.out[1].at(i), t, tp, hy)
    with R.guard("u_params separate"):
        if hasattr(dk, "_dmhdt_kern_u_params"):
            tr = jx.trace(dk._dmhdt_kern_u_params, (nt(U0), jx.spec((m,)), jx.spec()), ["u", "t", "lgt0"])
            tr2 = jx.trace(dk._log_mah_kern_u_params, (nt(U0), jx.spec((m,)), jx.spec()), ["u", "t", "lgt0"])
            trb = jx.trace(dk.get_bounded_mah_params, (nt(U0),), ["u"])
            t, tp = tr.inp["t"].at(i), trb.out.t_peak.at()
            hy = [lt(ZERO, t), lt(ZERO, tp)] + idx_hyps(i, m)
            rate_obligations(R, "diffmah_kernels:_dmhdt_kern_u_params", "unconstrained rate", tr.out.at(i), tr2.out.at(i), t, tp, hy)
    with R.guard("scalar kernel"):
        if hasattr(dk, "_diffmah_kern_scalar"):
            tr = jx.trace(dk._diffmah_kern_scalar, (nt(P0), jx.spec(), jx.spec()), ["p", "t", "lgt0"])
            t, tp = tr.inp["t"].at(), tr.inp["p.t_peak"].at()
            rate_obligations(R, "diffmah_kernels:_diffmah_kern_scalar", "scalar", tr.out[0].at(), tr.out[1].at(), t, tp,
                             [lt(ZERO, t), lt(ZERO, tp)])


def check_rate(params, t, lgt0):
    """The analytic derivative of the mass history, at t != t_peak, plus finite differences of the returned mass."""
    P = np.array(params, float)
    t = np.array(t, float)
    msgs = []
    n = P.shape[1]
    JP = dk.DiffmahParams(*[jnp.array(x) for x in P])
    got = np.asarray(dk.mah_halopop(JP, jnp.array(t), lgt0)[0])
    one = np.array([np.asarray(dk.mah_singlehalo(dk.DiffmahParams(*P[:, k]), jnp.array(t), lgt0)[0]) for k in range(n)])
    h = 1e-5 * t
    ths = [jnp.array(t + c * h) for c in (-2, -1, 1, 2)]
    L = [np.asarray(dk.mah_halopop(JP, th, lgt0)[1]) for th in ths]
    M = [10 ** (l - P[0][:, None]) for l in L]
    fd = (M[0] - 8 * M[1] + 8 * M[2] - M[3]) / (12 * h) * 10 ** P[0][:, None] / 1e9
    for nm, g in (("mah_halopop", got), ("mah_singlehalo", one)):
        if g.shape != (n, t.size):
            msgs.append(f"{nm} rate shape {g.shape}")
            continue
        for k in range(n):
            after = t > P[4, k]
            if np.any(g[k][after] != 0.0):
                msgs.append(f"{nm}: nonzero rate after t_peak, halo {k}")
            safe = t + 3 * h < P[4, k]
            scale = np.abs(fd[k]) + 10 ** L[1][k] / t / 1e9
            bad = safe & ~(np.abs(g[k] - fd[k]) <= 1e-6 * scale)
            if bad.any():
                j = int(np.argmax(bad))
                msgs.append(f"{nm}: halo {k} time {t[j]}: rate {g[k][j]} but finite difference of the returned mass {fd[k][j]}")
    return msgs


def gen(rng, N):
    shapes = [(2, 6), (1, 1), (4, 3)]
    for k in range(N):
        n, m = shapes[k % len(shapes)]
        P = ml.gen_params(rng, n)
        lgt0 = float(rng.uniform(0.9, 1.35))
        if k % 4 == 3:      # young observer's today, late peak: the fitted index may be negative there
            P = np.array([rng.uniform(8, 16, n), rng.uniform(0, 0.99, n), rng.uniform(6, 9.9, n), rng.uniform(0.11, 1, n), rng.uniform(15, 19.9, n)])
            lgt0 = float(rng.uniform(0.3, 0.9))
        yield dict(params=P, t=ml.gen_times(rng, m, P), lgt0=lgt0)


def check_rate_u(u, t, lgt0):
    if not hasattr(dk, "_diffmah_kern_u_params"):
        return []
    U = dk.DiffmahUParams(*[float(x) for x in u])
    t = np.array(t, float)
    p = ml.np_bounded(u)
    msgs = []
    rate, lm = dk._diffmah_kern_u_params(U, jnp.array(t), lgt0)
    rate2 = dk._dmhdt_kern_u_params(U, jnp.array(t), lgt0)
    exp_ = ml.np_rate(p, t, lgt0)
    for nm, g in (("_diffmah_kern_u_params", rate), ("_dmhdt_kern_u_params", rate2)):
        g = np.asarray(g)
        ok = np.abs(g - exp_) <= 1e-7 * (np.abs(exp_) + 10 ** np.asarray(lm) / t / 1e9)
        ok |= np.abs(t - p[4]) < 1e-9
        if not ok.all():
            msgs.append(f"{nm}: {worst(g, exp_)}")
    return msgs


def gen_u(rng, N):
    for k in range(N):
        u = rng.normal(0, [30, 10, 40, 40, 30][k % 5], 5)
        yield dict(u=u, t=np.sort(rng.uniform(0.1, 19, 5)), lgt0=float(rng.uniform(0.9, 1.3)))


CASES = {"rate": Case(check_rate, gen, 40, 600), "rate_unconstrained": Case(check_rate_u, gen_u, 40, 600)}
