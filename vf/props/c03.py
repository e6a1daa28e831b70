"""C03: every unconstrained parameter vector describes a physical growth history."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from . import mahlib as ml
from diffmah import diffmah_kernels as dk

FUNCTIONS = ["diffmah_kernels:get_bounded_mah_params", "diffmah_kernels:mah_singlehalo", "diffmah_kernels:mah_halopop",
             "diffmah_kernels:_log_mah_kern_u_params", "diffmah_kernels:_diffmah_kern_u_params",
             "diffmah_kernels:_get_early_late", "diffmah_kernels:_power_law_index_vs_logt"]


def post_bounded(p):
    """Postcondition of get_bounded_mah_params used as precondition of the growth law."""
    return [lt(ZERO, p["late_index"]), lt(p["late_index"], p["early_index"]), lt(ZERO, p["t_peak"])]


def obligations(R):
    m, = jx.dims("m", ["m>=2"])
    i, j = I("i"), I("j")
    with R.guard("get_bounded_mah_params postcondition"):
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"])
        b = fields(tb.out)
        for k, g in enumerate(post_bounded(b)):
            R.prove(["late index > 0", "early index > late index", "t_peak > 0"][k], "diffmah_kernels:get_bounded_mah_params", [], g)
    for fn, nm in ((dk.mah_singlehalo, "mah_singlehalo"), (dk.mah_halopop, "mah_halopop")):
        with R.guard(nm):
            sh = () if nm == "mah_singlehalo" else jx.dims("n", ["n>=1"])
            hi_ = (I("h"),) if sh else ()
            tr = jx.trace(fn, (nt(dk.DEFAULT_MAH_PARAMS, sh), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"])
            p = {k: tr.inp["p." + k].at(*hi_) for k in ml.NAMES}
            t1, t2, lgt0 = tr.inp["t"].at(i), tr.inp["t"].at(j), tr.inp["lgt0"].at()
            t0 = pow10(lgt0)
            rate, lm = tr.out[0].at(*hi_, i), tr.out[1].at(*hi_, i)
            lm2 = tr.out[1].at(*hi_, j)
            pre = post_bounded(p) + [lt(ZERO, t1), le(t1, t0)]
            R.reachable(nm, pre)
            q = f"diffmah_kernels:{nm}"
            R.prove("mass never decreases: t1<=t2<=t0 => log_mah(t1)<=log_mah(t2)", q, pre + [le(t1, t2), le(t2, t0)], le(lm, lm2))
            R.prove("rate >= 0 for t<=t0", q, pre, le(ZERO, rate))
            R.prove("log_mah <= logm0 for t<=t0", q, pre, le(lm, p["logm0"]))
            R.prove("log_mah(t0) = logm0 when t_peak>=t0", q, post_bounded(p) + [eq(t1, t0), le(t0, p["t_peak"])],
                    eq(tm.subst(lm, {t1: t0}), p["logm0"]))
    with R.guard("composition"):
        # the fitter's parametrisation is the composition of the two contracts above
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"])
        b = fields(tb.out)
        sym = {"p." + k: v for k, v in b.items()}
        t2 = jx.trace(dk.mah_singlehalo, (nt(dk.DEFAULT_MAH_PARAMS), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"], sym=sym)
        if hasattr(dk, "_log_mah_kern_u_params"):
            t1 = jx.trace(dk._log_mah_kern_u_params, (nt(dk.DEFAULT_MAH_U_PARAMS), jx.spec((m,)), jx.spec()), ["u", "t", "lgt0"])
            R.prove("log_mah of unconstrained = mah_singlehalo o bounded", "diffmah_kernels:_log_mah_kern_u_params", [],
                    eq(t1.out.at(i), t2.out[1].at(i)))
        if hasattr(dk, "_diffmah_kern_u_params"):
            t1 = jx.trace(dk._diffmah_kern_u_params, (nt(dk.DEFAULT_MAH_U_PARAMS), jx.spec((m,)), jx.spec()), ["u", "t", "lgt0"])
            R.prove("log_mah (pair) = mah_singlehalo o bounded", "diffmah_kernels:_diffmah_kern_u_params", [],
                    eq(t1.out[1].at(i), t2.out[1].at(i)))
            R.prove("rate (pair) = mah_singlehalo o bounded", "diffmah_kernels:_diffmah_kern_u_params", [],
                    eq(t1.out[0].at(i), t2.out[0].at(i)))


def check_physical(u, frac, lgt0):
    """u: unconstrained vector; times = frac * t0, frac in (0,1]."""
    msgs = []
    u = [float(x) for x in u]
    t0 = 10 ** lgt0
    t = np.sort(np.array(frac, float)) * t0
    t = np.minimum(t, t0)
    p = dk.get_bounded_mah_params(dk.DiffmahUParams(*u))
    pp = dk.DiffmahParams(*[jnp.atleast_1d(x) for x in p])
    runs = [("mah_singlehalo", dk.mah_singlehalo(p, jnp.array(t), lgt0)),
            ("mah_halopop", [x[0] for x in dk.mah_halopop(pp, jnp.array(t), lgt0)])]
    if hasattr(dk, "_diffmah_kern_u_params"):
        runs.append(("unconstrained", dk._diffmah_kern_u_params(dk.DiffmahUParams(*u), jnp.array(t), lgt0)))
    if hasattr(dk, "_log_mah_kern_u_params") and hasattr(dk, "_dmhdt_kern_u_params"):
        runs.append(("unconstrained mass and rate", [f(dk.DiffmahUParams(*u), jnp.array(t), lgt0) for f in (dk._dmhdt_kern_u_params, dk._log_mah_kern_u_params)]))
    for nm, (rate, lm) in runs:
        rate, lm = np.asarray(rate), np.asarray(lm)
        if not (np.all(np.isfinite(lm)) and np.all(np.isfinite(rate))):
            msgs.append(f"{nm}: non-finite output")
            continue
        tol = 1e-10 * (1 + np.abs(lm).max())
        d = np.diff(lm)
        if np.any(d < -tol):
            k = int(np.argmin(d))
            msgs.append(f"{nm}: log-mass decreases from {lm[k]} at t={t[k]} to {lm[k + 1]} at t={t[k + 1]}")
        if np.any(rate < 0):
            msgs.append(f"{nm}: negative accretion rate {rate.min()} at t={t[int(np.argmin(rate))]}")
        if np.any(lm > float(p.logm0) + tol):
            msgs.append(f"{nm}: log-mass {lm.max()} exceeds logm0 {float(p.logm0)}")
        end = np.isclose(t, t0, rtol=1e-14, atol=0)
        if float(p.t_peak) >= t0 and end.any() and not np.all(np.abs(lm[end] - float(p.logm0)) < 1e-9):
            msgs.append(f"{nm}: log-mass at t0 is {lm[end]} but logm0 is {float(p.logm0)}")
    return msgs


def gen(rng, N):
    for k in range(N):
        u = rng.normal(0, [5, 30, 60, 120][k % 4], 5)
        if k % 5 == 0:
            u[4] = 40
        if k % 7 == 0:
            u[2], u[3] = -80, 60
        fr = rng.uniform(0.002, 1, 12)
        fr[0], fr[1] = 1.0, 1e-3
        yield dict(u=u, frac=fr, lgt0=float(rng.uniform(0.0, 1.29)))


CASES = {"physical": Case(check_physical, gen, 120, 2000)}
