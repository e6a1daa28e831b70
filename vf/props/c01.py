"""C01: the mass history is the rolling power law, frozen at t_peak; all entry points agree."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from . import mahlib as ml
from diffmah import diffmah_kernels as dk

FUNCTIONS = ["diffmah_kernels:mah_singlehalo", "diffmah_kernels:mah_halopop", "diffmah_kernels:logmh_at_t_obs",
             "diffmah_kernels:_log_mah_kern", "diffmah_kernels:_log_mah_noq_kern", "diffmah_kernels:_rolling_plaw_vs_t",
             "diffmah_kernels:_rolling_plaw_vs_logt", "diffmah_kernels:_power_law_index_vs_logt", "diffmah_kernels:_sigmoid",
             "diffmah_kernels:_diffmah_kern", "diffmah_kernels:_diffmah_kern_scalar", "diffmah_kernels:_mah_kern", "diffmah_kernels:_mah_noq_kern"]


def obligations(R):
    n, m = jx.dims("n,m", ["n>=1", "m>=1"])
    h, i = I("h"), I("i")
    with R.guard("mah_singlehalo"):
        tr = jx.trace(dk.mah_singlehalo, (nt(dk.DEFAULT_MAH_PARAMS), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"])
        p = {k: tr.inp["p." + k].at() for k in ml.NAMES}
        t, lgt0 = tr.inp["t"].at(i), tr.inp["lgt0"].at()
        hy = [lt(ZERO, t), lt(ZERO, p["t_peak"])] + idx_hyps(i, m)
        R.reachable("mah_singlehalo", hy + [lt(t, p["t_peak"])])
        R.reachable("mah_singlehalo frozen", hy + [lt(p["t_peak"], t)])
        spec = ml.logmah(p, t, lgt0)
        R.prove("log_mah[i] is the closed form, frozen at t_peak", "diffmah_kernels:mah_singlehalo", hy, eq(tr.out[1].at(i), spec))
        R.prove("log_mah[i] = value at t_peak for t>=t_peak", "diffmah_kernels:mah_singlehalo", hy + [le(p["t_peak"], t)],
                eq(tr.out[1].at(i), ml.free(p, p["t_peak"], lgt0)))
        R.fact("output length is the number of times", "diffmah_kernels:mah_singlehalo",
               len(tr.out[1].shape) == 1 and jx.dims_eq(tr.out[1].shape[0], m), "shape")
    with R.guard("mah_halopop"):
        tr = jx.trace(dk.mah_halopop, (nt(dk.DEFAULT_MAH_PARAMS, (n,)), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"])
        p = {k: tr.inp["p." + k].at(h) for k in ml.NAMES}
        t, lgt0 = tr.inp["t"].at(i), tr.inp["lgt0"].at()
        hy = [lt(ZERO, t), lt(ZERO, p["t_peak"])] + idx_hyps(i, m) + idx_hyps(h, n)
        R.reachable("mah_halopop", hy)
        R.prove("log_mah[h,i] is the closed form of halo h at time i", "diffmah_kernels:mah_halopop", hy,
                eq(tr.out[1].at(h, i), ml.logmah(p, t, lgt0)))
        R.fact("output shape is (halos, times)", "diffmah_kernels:mah_halopop",
               len(tr.out[1].shape) == 2 and jx.dims_eq(tr.out[1].shape[0], n) and jx.dims_eq(tr.out[1].shape[1], m), "shape")
    with R.guard("logmh_at_t_obs arrays"):
        tr = jx.trace(dk.logmh_at_t_obs, (nt(dk.DEFAULT_MAH_PARAMS, (n,)), jx.spec((n,)), jx.spec()), ["p", "t", "lgt0"])
        p = {k: tr.inp["p." + k].at(h) for k in ml.NAMES}
        t, lgt0 = tr.inp["t"].at(h), tr.inp["lgt0"].at()
        hy = [lt(ZERO, t), lt(ZERO, p["t_peak"])] + idx_hyps(h, n)
        R.prove("log mass of halo h at its own time", "diffmah_kernels:logmh_at_t_obs", hy, eq(tr.out.at(h), ml.logmah(p, t, lgt0)))
    with R.guard("logmh_at_t_obs scalar"):
        for nm, psh, tsh in (("scalar", (), ()), ("common time", (n,), ())):
            tr = jx.trace(dk.logmh_at_t_obs, (nt(dk.DEFAULT_MAH_PARAMS, psh), jx.spec(tsh), jx.spec()), ["p", "t", "lgt0"])
            ii = (h,) if psh else ()
            p = {k: tr.inp["p." + k].at(*ii) for k in ml.NAMES}
            t, lgt0 = tr.inp["t"].at(), tr.inp["lgt0"].at()
            hy = [lt(ZERO, t), lt(ZERO, p["t_peak"])]
            R.prove(f"log mass, {nm}", "diffmah_kernels:logmh_at_t_obs", hy, eq(tr.out.at(*ii), ml.logmah(p, t, lgt0)))
            if not psh:
                rng = np.random.default_rng(R.seed)
                sets = []
                for _ in range(8):
                    q = ml.gen_params(rng, 1)[:, 0]
                    tt, l0 = rng.uniform(0.1, 15), rng.uniform(0.9, 1.3)
                    env = {"p." + k: v for k, v in zip(ml.NAMES, q)} | {"t": tt, "lgt0": l0}
                    sets.append((env, (dk.DiffmahParams(*q), tt, l0)))
                crosscheck(R, tr, dk.logmh_at_t_obs, sets, None, name="logmh_at_t_obs")
    for nm, spec in (("_mah_kern", ml.logmah), ("_mah_noq_kern", lambda p, t, l: ml.free(p, t, l))):
        with R.guard(nm):
            if hasattr(dk, nm):
                tr = jx.trace(getattr(dk, nm), (nt(dk.DEFAULT_MAH_PARAMS), jx.spec(), jx.spec()), ["p", "t", "lgt0"])
                p = {k: tr.inp["p." + k].at() for k in ml.NAMES}
                t, lgt0 = tr.inp["t"].at(), tr.inp["lgt0"].at()
                R.prove(f"{nm}: the mass is ten to the closed form", f"diffmah_kernels:{nm}", [lt(ZERO, t), lt(ZERO, p["t_peak"])],
                        eq(tr.out.at(), pow10(spec(p, t, lgt0))))
    with R.guard("scalar kernel"):
        if hasattr(dk, "_diffmah_kern_scalar"):
            tr = jx.trace(dk._diffmah_kern_scalar, (nt(dk.DEFAULT_MAH_PARAMS), jx.spec(), jx.spec()), ["p", "t", "lgt0"])
            p = {k: tr.inp["p." + k].at() for k in ml.NAMES}
            t, lgt0 = tr.inp["t"].at(), tr.inp["lgt0"].at()
            R.prove("scalar kernel: log mass is the closed form", "diffmah_kernels:_diffmah_kern_scalar", [lt(ZERO, t), lt(ZERO, p["t_peak"])],
                    eq(tr.out[1].at(), ml.logmah(p, t, lgt0)))


def check_closed_form(params, t, lgt0):
    P = np.array(params, float)
    t = np.array(t, float)
    msgs = []
    exp_ = np.array([ml.np_logmah(P[:, k], t, lgt0) for k in range(P.shape[1])])
    pop = np.asarray(dk.mah_halopop(dk.DiffmahParams(*[jnp.array(x) for x in P]), jnp.array(t), lgt0)[1])
    if pop.shape != exp_.shape or not close(pop, exp_):
        msgs.append(f"mah_halopop log_mah: {pop.shape} {worst(pop, exp_) if pop.shape == exp_.shape else ''}")
    for k in {0, P.shape[1] - 1}:
        one = np.asarray(dk.mah_singlehalo(dk.DiffmahParams(*P[:, k]), jnp.array(t), lgt0)[1])
        if one.shape != t.shape or not close(one, exp_[k]):
            msgs.append(f"mah_singlehalo log_mah halo {k}: {worst(one, exp_[k]) if one.shape == t.shape else one.shape}")
        after = t >= P[4, k]
        if after.any():
            atp = float(dk.logmh_at_t_obs(dk.DiffmahParams(*P[:, k]), P[4, k], lgt0))
            if one.shape == t.shape and not np.all(np.abs(one[after] - atp) < 1e-11 * (1 + abs(atp))):
                msgs.append(f"mass after t_peak not frozen at its t_peak value for halo {k}")
        sc = float(dk.logmh_at_t_obs(dk.DiffmahParams(*P[:, k]), t[0], lgt0))
        if not close(sc, exp_[k, 0]):
            msgs.append(f"logmh_at_t_obs scalar halo {k}: {sc} vs {exp_[k, 0]}")
    tt = np.resize(t, P.shape[1])
    arr = np.asarray(dk.logmh_at_t_obs(dk.DiffmahParams(*[jnp.array(x) for x in P]), jnp.array(tt), lgt0))
    e2 = np.array([float(ml.np_logmah(P[:, k], tt[k], lgt0)) for k in range(P.shape[1])])
    if arr.shape != e2.shape or not close(arr, e2):
        msgs.append(f"logmh_at_t_obs array: {worst(arr, e2) if arr.shape == e2.shape else arr.shape}")
    return msgs


def gen(rng, N):
    shapes = [(1, 1), (3, 5), (7, 4), (5, 1)]
    for k in range(N):
        n, m = shapes[k % len(shapes)]
        P = ml.gen_params(rng, n)
        yield dict(params=P, t=ml.gen_times(rng, m, P), lgt0=float(rng.uniform(0.9, 1.35)))


CASES = {"closed_form": Case(check_closed_form, gen, 60, 800)}
