"""C07: predicted mean halo parameters and fractions stay in their declared ranges."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from ..prove import definedness
from . import poplib as pl, mahlib as ml, c05
from .poplib import L, P0
from diffmah import diffmah_kernels as dk

MARGIN = tm.from_float(2e-3)
EARLY = ["early_index_alpha", "early_index_beta", "early_index_pop"]
LATE = ["late_index_alpha", "late_index_beta"]
LOGTC = ["logtc_early", "logtc_late"]
LOGM0 = [f"{d}.logm0_pop_{b}" for d in ("bimod_logm0_kernels", "bimod_logm0_sats") for b in ("early", "late")]
BIMOD = ["bimod_logm0_kernels.logm0_pop_bimod", "bimod_logm0_sats.logm0_pop_bimod_sats"]
FUNCTIONS = ["frac_early_cens:_frac_early_cens_kern"] + [m + ":_pred_early_index_kern" for m in EARLY] + \
    [m + ":_pred_late_index_kern" for m in LATE] + [m + ":_pred_logtc_kern" for m in LOGTC] + \
    [m + ":_pred_logm0_kern" for m in LOGM0] + [f"{m}:_pred_logm0_kern_{b}" for m in BIMOD for b in ("early", "late")] + \
    ["mc_bimod_cens:_mean_diffmah_params", "mc_bimod_sats:_mean_diffmah_params", "ftpt0_cens:_ftpt0_kernel"]


def decl(m, params):
    """in-bounds hypotheses for the parameters of one component, from its own declared bounds"""
    b = c05.load(m)[4]
    out = []
    for k in params:
        lo, hi = [tm.from_float(x) for x in b[k]]
        out += [le(lo, var("p." + k)), le(var("p." + k), hi)]
    return out


def mah_bound(k):
    lo, hi = dk.MAH_PBDICT[k]
    return tm.from_float(float(lo)), tm.from_float(float(hi))


def sigm(x, x0, k, ylo, yhi):
    return add(ylo, mul(sub(yhi, ylo), sig(mul(num(k), sub(x, x0)))))


def cspec(P, suf, tobs, tpk, c):
    """(line value, floor, slope) of a logm0 coefficient, from its parameters; c = 'c0' or 'c1'"""
    from fractions import Fraction as Fr
    g = lambda n: P[f"lgm0pop_{c}_{n}_{suf}"]
    slope = sigm(tobs, g("t_obs_x0"), Fr(1, 4), g("ylo"), ZERO)
    xtp = num(15) if c == "c0" else num(10)
    line = add(g("ytp"), mul(slope, sub(tobs, xtp)))
    if c == "c0":
        fl = add(g("clip_c0"), mul(g("clip_c1"), tpk))
    else:
        fl = sigm(tpk, g("clip_x0"), 1, g("clip_ylo"), g("clip_yhi"))
    return line, fl


def obligations(R):
    a3 = (jx.spec(), jx.spec(), jx.spec())
    with R.guard("fraction"):
        tr = jx.trace(L.fec._frac_early_cens_kern, (nt(L.fec.DEFAULT_FEC_PARAMS), jx.spec(), jx.spec()), ["p", "lgm", "tobs"])
        h = decl("frac_early_cens", L.fec.FEC_Params._fields)
        R.reachable("fraction", h)
        f = tr.out.at()
        q = "frac_early_cens:_frac_early_cens_kern"
        R.prove("0 <= early-type fraction", q, h, le(ZERO, f))
        R.prove("early-type fraction <= 1", q, h, le(f, ONE))
        own = [var("p." + k) for k in L.fec.FEC_Params._fields if "_x0" not in k and ("_ylo" in k or "_yhi" in k)]
        mn = mx = own[0]
        for a in own[1:]:
            mn, mx = tm.tmin(mn, a), tm.tmax(mx, a)
        R.prove("early-type fraction within the range of its own asymptotes", q, h, and_(le(mn, f), le(f, mx)))
    with R.guard("peaked fraction"):
        M = pl.mod("ftpt0_cens")
        tr = jx.trace(M._ftpt0_kernel, (nt(M.DEFAULT_FTPT0_PARAMS), jx.spec(), jx.spec()), ["p", "lgm", "tobs"])
        R.prove("0 <= fraction with t_peak=t0 <= 1", "ftpt0_cens:_ftpt0_kernel", [], and_(le(ZERO, tr.out.at()), le(tr.out.at(), ONE)))
    for mods, nm, key in ((EARLY, "_pred_early_index_kern", "early_index"), (LATE, "_pred_late_index_kern", "late_index"), (LOGTC, "_pred_logtc_kern", "logtc")):
        for m in mods:
            with R.guard(m):
                M = pl.mod(m)
                ex = c05.load(m)[2]
                args = (nt(ex),) + (a3 if key != "late_index" else a3[:1])
                tr = jx.trace(getattr(M, nm), args, ["p", "lgm", "tobs", "tpk"][:len(args)])
                h = decl(m, ex._fields)
                R.reachable(m, h)
                v = tr.out.at()
                q = f"{m}:{nm}"
                lo, hi = mah_bound(key)
                R.prove(f"mean {key} above the lower bound of the halo parameter", q, h, lt(lo, v))
                R.prove(f"mean {key} below the upper bound of the halo parameter", q, h, lt(v, hi))
                if key != "logtc":
                    R.prove(f"mean {key} > 0", q, h, lt(ZERO, v))
                if key != "logtc":
                    # the range spanned by its own asymptote parameters, up to the bounds of the halo parameter
                    own = [var("p." + k) for k in ex._fields if "_x0" not in k and ("_ylo" in k or "_yhi" in k)]
                    lo_, hi_ = [tm.add(b, tm.from_float(s * 2e-3)) for b, s in ((lo, 1), (hi, -1))]
                    mn, mx = hi_, lo_
                    for a in own:
                        mn, mx = tm.tmin(mn, a), tm.tmax(mx, a)
                    R.prove(f"mean {key} at least the smallest of its own asymptotes", q, h, le(mn, v))
                    R.prove(f"mean {key} at most the largest of its own asymptotes", q, h, le(v, mx))
                else:
                    # affine in mass with its own slope parameter, wherever it is not held at a bound
                    x, c1 = var("lgm"), [var("p." + k) for k in ex._fields if "logtc_lgm_c1_" in k]
                    at = lambda y: tm.subst(v, {x: y})
                    x2 = var("lgm2")
                    inside = [lt(add(lo, MARGIN), w) for w in (v, at(x2))] + [lt(w, sub(hi, MARGIN)) for w in (v, at(x2))]
                    R.prove("mean logtc affine in mass with its own slope away from its bounds", q, h + inside, eq(sub(v, at(x2)), mul(c1[0], sub(x, x2))))
                for pc, g in definedness(v):
                    R.prove(f"mean {key} defined", q, h + [pc], g)
    todo = [(m, "_pred_logm0_kern", m.rsplit("_", 1)[1] + ("_sats" if "sats" in m else "")) for m in LOGM0]
    todo += [(m, f"_pred_logm0_kern_{b}", b + ("_sats" if "sats" in m else "")) for m in BIMOD for b in ("early", "late")]
    for m, nm, suf in todo:
        with R.guard(m + ":" + nm):
            M = pl.mod(m)
            ex = c05.load(m)[2]
            tr = jx.trace(getattr(M, nm), (nt(ex),) + a3, ["p", "lgm", "tobs", "tpk"])
            q = f"{m}:{nm}"
            v = tr.out.at()
            x = var("lgm")
            h = decl(m, [k for k in ex._fields if k.endswith(suf)])
            R.reachable(m + suf, h)
            at = lambda y: tm.subst(v, {x: y})
            P = {k: var("p." + k) for k in ex._fields}
            tobs, tpk = var("tobs"), var("tpk")
            c0 = sub(at(num(12)), num(12))                     # zero-point: value at the pivot mass minus the mass
            c1 = sub(sub(at(num(13)), at(num(12))), ONE)       # slope of the offset
            R.prove("mean logm0 = mass + zero-point + slope*(mass-12)", q, [], eq(v, add(x, c0, mul(c1, sub(x, num(12))))))
            l0, f0 = cspec(P, suf, tobs, tpk, "c0")
            l1, f1 = cspec(P, suf, tobs, tpk, "c1")
            R.prove("zero-point is its linear trend, never below its floor", q, h, eq(c0, tm.tmax(l0, f0)))
            R.prove("slope is its linear trend, never below its floor", q, h, eq(c1, tm.tmax(l1, f1)))
            g = lambda c, n: P[f"lgm0pop_{c}_{n}_{suf}"]
            # extremes allowed by the parameters for the zero-point and the slope
            for c, cc, l, f, xtp in (("c0", c0, l0, f0, 15), ("c1", c1, l1, f1, 10)):
                d = sub(num(xtp), tobs)
                R.prove(f"{c} trend at most ytp - ylo*(pivot-t) before the pivot time", q, h + [le(ZERO, d)], and_(le(g(c, "ytp"), l), le(l, sub(g(c, "ytp"), mul(g(c, "ylo"), d)))))
            R.prove("slope floor between the declared extremes", q, h, and_(le(tm.tmin(g("c1", "clip_ylo"), g("c1", "clip_yhi")), f1), le(f1, tm.tmax(g("c1", "clip_ylo"), g("c1", "clip_yhi")))))
    for kind in ("cen", "sat"):
        with R.guard("mean parameters " + kind):
            K = pl.Kind(kind)
            fn = K.m._mean_diffmah_params_t_peak
            tr = jx.trace(fn, (nt(P0), jx.spec(), jx.spec(), jx.spec(), jx.keyspec()), ["p", "lgm", "tobs", "tpk", "key"])
            h = pl.bounds_hyps({k: var("p." + k) for k in P0._fields}, strict=False)
            for br, o in (("early", tr.out[0]), ("late", tr.out[1])):
                e, l, c = o.early_index.at(), o.late_index.at(), o.logtc.at()
                fv = set(str(v) for t in (e, l, c) for v in tm.free_vars(t))
                hh = [x for x in h if any(str(v) in fv for v in tm.free_vars(x))]
                q = f"{K.q}:{fn.__name__}"
                R.prove(f"{br}-type: mean late index inside its bounds", q, hh, and_(lt(mah_bound("late_index")[0], l), lt(l, mah_bound("late_index")[1])))
                R.prove(f"{br}-type: mean early index inside its bounds", q, hh, and_(lt(mah_bound("early_index")[0], e), lt(e, mah_bound("early_index")[1])))
                R.prove(f"{br}-type: mean logtc inside its bounds", q, hh, and_(lt(mah_bound("logtc")[0], c), lt(c, mah_bound("logtc")[1])))
                R.prove(f"{br}-type: mean early index above mean late index", q, hh, lt(l, e))
            fr = tr.out[2].at()
            hh = [x for x in h if any(v in tm.free_vars(fr) for v in tm.free_vars(x))]
            R.prove("fraction in [0,1]", f"{K.q}:{fn.__name__}", hh, and_(le(ZERO, fr), le(fr, ONE)))


def check_ranges(kind, base, lgm, tobs, tpk):
    K = pl.Kind(kind)
    p = pl.np_params(base)
    e, l, f = K.m._mean_diffmah_params_t_peak(p, lgm, tobs, tpk, pl.key(0))
    msgs = []
    for br, o in (("early", e), ("late", l)):
        for k in ("logtc", "early_index", "late_index"):
            lo, hi = [float(x) for x in dk.MAH_PBDICT[k]]
            v = float(getattr(o, k))
            if not lo < v < hi:
                msgs.append(f"{kind} {br}: mean {k}={v} outside ({lo},{hi})")
        if not float(o.early_index) > float(o.late_index) > 0:
            msgs.append(f"{kind} {br}: early {float(o.early_index)} late {float(o.late_index)}")
        gr = "alpha" if br == "early" else "beta"
        g = {k: float(v) for k, v in p._asdict().items()}
        for k in ("early_index", "late_index"):
            lo, hi = [float(x) for x in dk.MAH_PBDICT[k]]
            own = [g[n] for n in g if n.startswith(k + "_y") and n.endswith(gr) and "_x0" not in n]
            v = float(getattr(o, k))
            if own and not min(own + [hi - 2e-3]) - 1e-5 <= v <= max(own + [lo + 2e-3]) + 1e-5:
                msgs.append(f"{kind} {br}: mean {k}={v} outside the range of its own asymptotes {min(own)}..{max(own)}")
        suf = br + ("_sats" if kind == "sat" else "")
        g = {k: float(v) for k, v in p._asdict().items()}
        c = {}
        for cc, xtp in (("c0", 15.0), ("c1", 10.0)):
            s = np_sigmoid(tobs, g[f"lgm0pop_{cc}_t_obs_x0_{suf}"], 0.25, g[f"lgm0pop_{cc}_ylo_{suf}"], 0.0)
            line = g[f"lgm0pop_{cc}_ytp_{suf}"] + s * (tobs - xtp)
            fl = g[f"lgm0pop_c0_clip_c0_{suf}"] + g[f"lgm0pop_c0_clip_c1_{suf}"] * tpk if cc == "c0" else \
                np_sigmoid(tpk, g[f"lgm0pop_c1_clip_x0_{suf}"], 1.0, g[f"lgm0pop_c1_clip_ylo_{suf}"], g[f"lgm0pop_c1_clip_yhi_{suf}"])
            c[cc] = max(line, fl)
        want = lgm + c["c0"] + c["c1"] * (lgm - 12)
        if not close(o.logm0, want, 1e-6, 1e-6):
            msgs.append(f"{kind} {br}: mean logm0={float(o.logm0)}, expected {want}")
    own = [float(v) for k, v in p._asdict().items() if k.startswith("fec_lgm_y")]
    if not min(own) - 1e-5 <= float(f) <= max(own) + 1e-5:
        msgs.append(f"{kind}: early-type fraction {float(f)} outside the range of its own asymptotes")
    if not 0 <= float(f) <= 1:
        msgs.append(f"{kind}: early-type fraction {float(f)}")
    return msgs


def gen_ranges(rng, N):
    for k in range(N):
        far = k % 3 == 0
        if k % 6 == 3:      # arguments far outside the calibrated range
            yield dict(kind=["cen", "sat"][k // 6 % 2], base=pl.gen_pop_params(rng), lgm=float(rng.choice([-1, 1]) * 10 ** rng.uniform(1, 2.5)),
                       tobs=float(10 ** rng.uniform(-3, 3)), tpk=float(10 ** rng.uniform(-3, 3)))
            continue
        yield dict(kind=["cen", "sat"][k % 2], base=pl.gen_pop_params(rng), lgm=float(rng.uniform(5, 20) if far else rng.uniform(11, 15)),
                   tobs=float(rng.uniform(0.1, 25) if far else rng.uniform(1, 13.8)), tpk=float(rng.uniform(0.05, 25) if far else rng.uniform(0.5, 13.8)))


CASES = {"ranges": Case(check_ranges, gen_ranges, 60, 800)}
