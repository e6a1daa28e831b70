"""C14: the fitter uses exactly the admissible snapshots as its target."""
import warnings
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from .. import nx
from diffmah.fitting_helpers import diffmah_fitter_helpers as H
from diffmah import diffmah_kernels as dk

M = "diffmah_fitter_helpers:"
FUNCTIONS = [M + k for k in ("get_loss_data", "_get_target_data", "_get_clipped_log_mah", "_compute_non_trivial_npts_in_log_mah_target",
                             "compute_indx_t_peak_singlehalo", "log_mah_loss_uparams", "_mse", "loss_and_grads_kern")]
TRUSTED = ["numpy indexing by a boolean mask keeps exactly the positions where it holds, in order (terms count/sel)",
           "numpy.maximum.accumulate: running maximum (term cummax)", "single-precision storage of the initial guess is treated as exact"]
ZI, O1 = num(0, "I"), num(1, "I")
EPS = num(Fraction(1, 10 ** 7))


def spec(n, lg):
    """(clipped log-mass, admissible mask, target times, target log-masses) of n snapshots, written from the property."""
    m, t = (lambda i: elem("m", [i])), (lambda i: elem("t", [i]))
    if lg is None:
        Lm = lambda i: log10(ite(le(m(i), ZERO), EPS, m(i)))
        above = lambda i: TRUE
    else:
        Lm = lambda i: ite(le(m(i), pow10(lg)), lg, log10(m(i)))
        above = lambda i: lt(lg, Lm(i))
    fin = Lm(sub(n, O1))
    keep = nx.A((n,), lambda i: and_(above(i[0]), lt(sub(fin, var("dcut")), Lm(i[0])), le(var("tfm"), t(i[0]))))
    kept = lambda f: nx.getitem(nx.A((n,), lambda i: f(i[0])), keep)
    tt = kept(t)
    row = kept(Lm)
    lm = nx.NP.maximum.accumulate(row)
    return Lm, keep, tt, lm


def u_tpeak(t):
    """The unconstrained value of a peak time (a function of the peak time alone: C04)."""
    p = nt(dk.DEFAULT_MAH_PARAMS)
    tr = jx.trace(dk.get_unbounded_mah_params, (p,), ["p"])
    x = tr.out.u_t_peak.at()
    v = [y for y in tm.free_vars(x)]
    if len(v) != 1:
        raise Unsupported("u_t_peak depends on more than t_peak")
    return tm.subst(x, {v[0]: t})


def loss_data(R):
    q = M + "get_loss_data"
    n = var("#n", "I")
    arr = lambda nm: nx.A((n,), lambda i: elem(nm, list(i)))
    f = nx.sym_function(H.get_loss_data)
    i = I("i")
    nmin = var("nmin", "I")
    for lab, lg in (("minimum mass", var("lgm")), ("no minimum mass", None)):
        for lab2, tp in (("peak time from the data", None), ("peak time fixed", nx.S(var("tpk")))):
            with nx_guard(R, f"get_loss_data, {lab}, {lab2}"):
                hyps = [le(O1, n), le(ZERO, var("dcut")), le(O1, nmin)]
                pos = [lt(ZERO, elem("t", [sub(n, O1)]))]
                R.reachable("one or more snapshots", hyps)
                ps = nx.explore(lambda: f(arr("t"), arr("m"), lgm_min=-float("inf") if lg is None else nx.S(lg), dlogm_cut=nx.S(var("dcut")),
                                          t_fit_min=nx.S(var("tfm")), npts_min=nx.S(nmin), tpeak_fixed=tp), hyps=hyps)
                Lm, keep, tt, lm = spec(n, lg)
                for k, p in enumerate(ps):
                    nm = lambda s: f"{lab}, {lab2}: {s} (path {k})"
                    if p.kind != "return":
                        R.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                        continue
                    u0, data, skip = p.value
                    # positive times: t = 10**log10(t)
                    tk = nx.as_array(data.t_target).at(i)
                    want_t = tt.at(i)
                    nx.discharge(R, nm("number of target times"), q, list(p.pc), eq(nx.R_(nx.dT(data.t_target.shape[0])), nx.R_(nx.dT(tt.shape[0]))), None)
                    h = list(p.pc)
                    a, b = nx.extensional(h, tk, want_t)
                    R.prove(nm("target times are those of the admissible snapshots in time order"), q, h + [lt(ZERO, b)], eq(a, b))
                    nx.discharge(R, nm("target log-masses are the running maximum over the admissible snapshots"), q, list(p.pc), data.log_mah_target, lm)
                    m = nx.dT(lm.shape[0])
                    last = lm.at(sub(m, O1))
                    npts = nx.L(nx.NP.sum(nx.A(lm.shape, lambda ix: lt(lm.fn(ix), last))))
                    want_skip = or_(lt(m, O1), lt(npts, nmin))
                    got_skip = nx.L(skip) if nx.is_sym(skip) else (TRUE if skip else FALSE)
                    h = list(p.pc)
                    g = nx.extensional(h, nx.tm._mk("tup", (got_skip, and_(*h)), (), "A"), want_skip)
                    gs, hh = g[0].args
                    R.prove(nm("skipped exactly when too few target points lie below the last one"), q, [hh], iff(gs, g[1]))
                    if not nx.is_sym(skip) and not skip:
                        t_last = elem("t", [sub(n, O1)])
                        nx.discharge(R, nm("logt0 is the log of the last time"), q, list(p.pc) + pos, data.logt0, nx.S(log10(t_last)))
                        if tp is None:
                            b = tm.fresh("b", "I")
                            first = uf("argmax", [tm.lam([b], [nx.dname(n)], eq(Lm(sub(n, O1)), Lm(b)))], "I")
                            tpk = elem("t", [first])
                        else:
                            tpk = tp.t
                        nx.discharge(R, nm("peak time is the first time the final mass is reached, unless fixed"), q, list(p.pc), data.u_t_peak, nx.S(u_tpeak(tpk)))


def nx_guard(R, what):
    return R.guard(what)


def first_time(R):
    q = M + "compute_indx_t_peak_singlehalo"
    n, = jx.dims("n", ["n>=1"])
    tr = jx.trace(H.compute_indx_t_peak_singlehalo, (jx.spec((n,)),), ["x"])
    b = tm.fresh("b", "I")
    x = lambda i: elem("x", [i])
    nn = jx.dim_term(n)
    want = uf("argmax", [tm.lam([b], [n], eq(x(sub(nn, O1)), x(b)))], "I")
    h = []
    a, w = nx.extensional(h, tr.out.at(), want)
    R.prove("index of the first entry equal to the last one", q, h, eq(a, w))
    if hasattr(H, "compute_indx_t_peak_halopop"):
        g, = jx.dims("g", ["g>=1"])
        tv = jx.trace(H.compute_indx_t_peak_halopop, (jx.spec((7, 5)),), ["x"])
        t1 = jx.trace(H.compute_indx_t_peak_singlehalo, (jx.spec((5,)),), ["x"])
        hh = I("h")
        row = tm.subst(t1.out.at(), {})
        m = {y: elem("x", [hh] + list(y.args)) for y in tm.subterms(row) if y.op == "uf" and y.val == ("elem", "x")}
        R.prove("halo h of a population has the index of its own row", M + "compute_indx_t_peak_halopop", [], eq(tv.out.at(hh), tm.subst(row, m)))


def loss(R):
    q = M + "log_mah_loss_uparams"
    n, = jx.dims("n", ["n>=1"])
    U = H.VariedDiffmahUParams(*[jx.spec() for _ in H.VariedDiffmahUParams._fields])
    data = H.DiffmahFitLossData(jx.spec((n,)), jx.spec((n,)), jx.spec(), jx.spec())
    tr = jx.trace(H.log_mah_loss_uparams, (U, data), ["u", "d"])
    full = dk.DEFAULT_MAH_U_PARAMS._make([jx.spec()] * 5)
    names = [f"u.{k}" for k in full._fields[:-1]] + ["d.u_t_peak"]
    pr = jx.trace(dk._log_mah_kern_u_params, (full, jx.spec((n,)), jx.spec()), ["w", "t", "logt0"])
    s = tm.fresh("s", "I")
    pred = pr.out.at(s)
    ren = {}
    for y in tm.subterms(pred):
        if y.op == "var" and str(y.val).startswith("w."):
            k = str(y.val)[2:]
            ren[y] = var("d.u_t_peak") if k == "u_t_peak" else var("u." + k)
        elif y.op == "var" and str(y.val) == "logt0":
            ren[y] = var("d.logt0")
        elif y.op == "uf" and y.val == ("elem", "t"):
            ren[y] = elem("d.t_target", list(y.args))
    pred = tm.subst(pred, ren)
    d = sub(pred, elem("d.log_mah_target", [s]))
    want = div(tm.summ(s, n, mul(d, d)), jx.dim_term(n))
    h = [le(O1, var("#n", "I"))]
    a, w = nx.extensional(h, tr.out.at(), recanon(want))
    same(R, "the loss is the mean-square difference between model log-mass and target", q, a, w, h)
    from . import c13
    a = c13.flat_program(H.loss_and_grads_kern, (U, H.DiffmahFitLossData(jx.spec((6,)), jx.spec((6,)), jx.spec(), jx.spec())))
    import jax as _j
    b = c13.flat_program(_j.value_and_grad(H.log_mah_loss_uparams), (U, H.DiffmahFitLossData(jx.spec((6,)), jx.spec((6,)), jx.spec(), jx.spec())))
    R.fact("the minimiser receives value and gradient of this loss", M + "loss_and_grads_kern", a == b, "program identity")


def obligations(R):
    loss_data(R)
    with R.guard("first time"):
        first_time(R)
    with R.guard("loss"):
        loss(R)


# ------------------------------------------------------------------ concrete clauses
def oracle(t, mah, lgm_min, dcut, tfm, npts_min, tpeak):
    with np.errstate(all="ignore"):
        thr = 10.0 ** lgm_min
        lm = np.where(mah <= thr, np.log10(1e-7) if not np.isfinite(lgm_min) else lgm_min, np.log10(np.where(mah > 0, mah, 1.0)))
    keep = [k for k in range(t.size) if (not np.isfinite(lgm_min) or lm[k] > lgm_min) and lm[k] > lm[-1] - dcut and t[k] >= tfm]
    run, best = [], -np.inf
    for k in keep:
        best = max(best, lm[k])
        run.append(best)
    below = sum(v < run[-1] for v in run) if run else 0
    tp = tpeak if tpeak is not None else t[int(np.flatnonzero(lm == lm[-1])[0])]
    return t[keep], np.array(run), below < npts_min, tp, np.log10(t[-1])


def check_data(t, lgm, lgm_min, dcut, tfm, npts_min, tpeak):
    t = np.asarray(t, float)
    lgm_min = -float("inf") if lgm_min is None else lgm_min
    mah = np.where(np.asarray(lgm) > -50, 10.0 ** np.asarray(lgm, float), 0.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {} if npts_min is None else dict(npts_min=npts_min)
        u0, d, skip = H.get_loss_data(t, mah, lgm_min=lgm_min, dlogm_cut=dcut, t_fit_min=tfm, tpeak_fixed=tpeak, **kw)
    tt, lm, wskip, tp, logt0 = oracle(t, mah, lgm_min, dcut, tfm, 3 if npts_min is None else npts_min, tpeak)
    msgs = []
    got_t, got_m = np.asarray(d.t_target), np.asarray(d.log_mah_target)
    if got_t.shape != tt.shape or not close(got_t, tt, 1e-9, 1e-9):
        msgs.append(f"target times {got_t[:8]} (n={got_t.size}), admissible snapshots {tt[:8]} (n={tt.size})")
    elif not close(got_m, lm, 1e-9, 1e-9):
        msgs.append("target log-masses: " + worst(got_m, lm))
    if bool(skip) != bool(wskip):
        msgs.append(f"skip={bool(skip)}, expected {bool(wskip)}")
    if not wskip and not skip:
        if not close(float(d.logt0), logt0, 1e-9, 1e-9):
            msgs.append(f"logt0 {float(d.logt0)} expected {logt0}")
        got = float(dk.get_bounded_mah_params(dk.DEFAULT_MAH_U_PARAMS._replace(u_t_peak=d.u_t_peak)).t_peak)
        if 0.06 < tp < 19.9 and not close(got, tp, 1e-4, 1e-4):
            msgs.append(f"peak time {got}, expected {tp}")
        rng = np.random.default_rng(int(t.size))
        u = np.asarray(u0) + rng.normal(size=4) * 0.3
        uu = H.VariedDiffmahUParams(*map(float, u))
        pred = np.asarray(dk._log_mah_kern_u_params(dk.DEFAULT_MAH_U_PARAMS._make([*map(float, u), float(d.u_t_peak)]), jnp.asarray(tt), logt0))
        want = np.mean((pred - lm) ** 2)
        l1 = float(H.log_mah_loss_uparams(uu, d))
        l2, g = H.loss_and_grads_kern(uu, d)
        if not (close(l1, want, 1e-4, 1e-7) and close(float(l2), want, 1e-4, 1e-7)):
            msgs.append(f"loss {l1}, {float(l2)}; mean-square difference {want}")
    return msgs


def gen_data(rng, N):
    for k in range(N):
        n = int(rng.integers(1, 25)) if k % 4 else int(rng.integers(1, 6))
        t = np.sort(rng.uniform(0.1, 13.8, n)) + np.arange(n) * 1e-3
        g = np.cumsum(np.abs(rng.normal(size=n)) * rng.choice([0.05, 0.3])) + rng.normal(size=n) * rng.choice([0.0, 0.02, 0.3])
        lgm = 12 + g - g[-1]
        if k % 3 == 0:
            j = rng.integers(0, n)
            lgm[j:] = np.maximum.accumulate(lgm[j:])
            lgm[j:] = lgm[-1]
        if k % 5 == 0 and n > 2:
            lgm[: n // 3] = -99.0
        if k % 7 == 3:
            lgm[-1] -= 0.4
        if k % 11 == 5:
            lgm[-1] = -99.0
        if k % 13 == 6:
            lgm = np.full(n, 11.0)
        lgm_min = None if k % 2 else float(rng.choice([10.0, 11.0, 11.5, 12.5]))
        if lgm_min is not None and k % 8 == 2:
            lgm[rng.integers(0, n)] = lgm_min
        tfm = float(t[rng.integers(0, n)]) if k % 3 == 1 else float(rng.uniform(0, 4))
        yield dict(t=[float(x) for x in t], lgm=[float(x) for x in lgm], lgm_min=lgm_min, dcut=float(rng.choice([2.5, 1.0, 0.3, 0.0])), tfm=tfm,
                   npts_min=None if k % 2 else int(rng.integers(1, 6)), tpeak=float(rng.uniform(1, 13)) if k % 4 == 3 else None)


CASES = {"data": Case(check_data, gen_data, 80, 800)}
