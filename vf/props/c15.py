"""C15: every fit returns a consistent, admissible outcome."""
import types
import warnings
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from .. import nx
from . import mahlib as ml
from .c04 import declared
from .c14 import u_tpeak
from diffmah.fitting_helpers import diffmah_fitter_helpers as H
from diffmah.fitting_helpers import bfgs_wrapper as BW
from diffmah import diffmah_kernels as dk

M, MB = "diffmah_fitter_helpers:", "bfgs_wrapper:"
FUNCTIONS = [M + "diffmah_fitter", MB + "bfgs_adam_fallback", MB + "scipy_lbfgs_wrapper", M + "get_loss_data", M + "_check_for_logmah_vs_mah_mistake",
             "diffmah_kernels:get_bounded_mah_params"]
ASSUMPTIONS = ["scipy.optimize.minimize returns an object with x (same length as the start), fun (the objective it was given, evaluated at x) and success; each may take any value",
               "jax_adam_wrapper by its contract (C16): parameters it evaluated with their loss, or the starting parameters with 999.99 when the very first step is not finite",
               "the loss is a function of the parameters and the loss data (C14 says which)", "numpy masks, running maximum (as in C14)",
               "single-precision storage of the initial guess is treated as exact"]
ZI, O1 = num(0, "I"), num(1, "I")
Q = M + "diffmah_fitter"
NP_ = 4


def loss_args(p, data):
    return [nx.as_array(p).lam(), nx.as_array(data.t_target).lam(), nx.as_array(data.log_mah_target).lam(), nx.R_(nx.L(data.u_t_peak)), nx.R_(nx.L(data.logt0))]


def LG(p, data):
    """value and gradient of the loss: opaque functions of parameters and data"""
    if not isinstance(data, tuple) or len(data) != 4:
        raise Unsupported("loss data")
    a = loss_args(p, H.DiffmahFitLossData(*data))
    return nx.S(uf("loss", a)), nx.A((NP_,), lambda i: uf("grad", a + list(i)))


def run_once(f, g, args, kw, gkw):
    log = dict(min=[], adam=[], warn=[])

    def minimize(fun, x0, args=(), method=None, jac=None, **k):
        x0 = nx.as_array(x0).copy()
        args = args if isinstance(args, tuple) else (args,)
        x = nx.A((NP_,), lambda i, l=x0.lam(): uf("min_x", [l] + list(i)))
        v = fun(x, *args)
        gr = None
        if jac is True:
            v, gr = v
        elif callable(jac):
            gr = jac(x, *args)
        ok = nx.S(uf("min_success", [x0.lam()], "B"))
        r = types.SimpleNamespace(x=x, fun=v, success=ok, grad=gr, x0=x0, status=nx.S(uf("min_status", [x0.lam()], "I")), message="", nit=1, nfev=1)
        log["min"].append(r)
        return r

    def adam(fn, p, data, n_step, n_warmup=0, step_size=0.01, warmup_n_step=50, warmup_step_size=None, tol=0.0):
        p = nx.as_array(p).copy()
        if nx.decide(var("no finite step", "B")):
            log["adam"].append((p, None))
            return p, 999.99, nx.A((0,), lambda i: ZERO), nx.A((0, NP_), lambda i: ZERO), 0
        b = nx.A((NP_,), lambda i, l=p.lam(): uf("adam_p", [l] + list(i)))
        v = fn(b, data)[0]
        K = uf("adam_k", [p.lam()], "I")
        nx.assume(le(O1, K))
        fl = nx.S(uf("adam_flag", [p.lam()], "I"))
        log["adam"].append((b, v))
        return b, v, nx.A((K,), lambda i: uf("adam_losses", list(i))), nx.A((K, NP_), lambda i: uf("adam_hist", list(i))), fl
    env = dict(minimize=minimize, jax_adam_wrapper=adam, loss_and_grads_kern=LG, warn=lambda *a, **k: log["warn"].append(a))
    fit = nx.sym_function(f, env=env)(*args, **kw)
    ref = nx.sym_function(g, env=dict(warn=lambda *a, **k: None))(*args, **gkw)
    return fit, ref, log


def fitter(R):
    n = var("#n", "I")
    arr = lambda nm, d=n: nx.A((d,), lambda i: elem(nm, list(i)))
    sym = lambda s: nx.S(var(s))
    for lab, lg in (("minimum mass", sym("lgm")), ("no minimum mass", None)):
        for lab2, tp in (("peak time measured", None), ("peak time fixed", sym("tpk"))):
            for lab3, force in (("", False), (", skip forced", True)):
                with R.guard(f"diffmah_fitter, {lab}, {lab2}{lab3}"):
                    kw = dict(lgm_min=-float("inf") if lg is None else lg, dlogm_cut=sym("dcut"), t_fit_min=sym("tfm"), tpeak_fixed=tp)
                    hyps = [le(O1, n), le(ZERO, var("dcut")), lt(ZERO, elem("t", [sub(n, O1)]))]
                    nx.EXTENDED[0] = False
                    ps = nx.explore(lambda: extended(run_once, H.diffmah_fitter, H.get_loss_data, (arr("t"), arr("m")),
                                                     dict(kw, force_skip_fit=force, nstep=nx.S(var("#nstep", "I")), n_warmup=nx.S(var("#nwarm", "I"))), kw), hyps=hyps)
                    R.reachable(f"{lab}, {lab2}{lab3}", hyps)
                    nx.prove_paths(R, Q, ps, lambda k, p: post(R, k, p, f"{lab}, {lab2}{lab3}: ", force, tp, n))


def extended(f, *a):
    """run with non-finite values possible"""
    nx.EXTENDED[0] = True
    try:
        return f(*a)
    finally:
        nx.EXTENDED[0] = False


def post(R, k, p, lab, force, tp, n):
    nm = lambda s: f"{lab}{s} (path {k})"
    if p.kind != "return":
        R.fact(nm("no error"), Q, False, "path exploration", repr(p.value))
        return
    fit, (u0, data, gskip), log = p.value
    h = list(p.pc)
    b = lambda x: nx.L(x) if nx.is_sym(x) else (TRUE if x else FALSE)
    names = ("p_best", "loss_best", "skip_fit", "fit_terminates", "code_used", "loss_data")
    if tuple(getattr(fit, "_fields", ())) != names:
        R.fact(nm("six named results"), Q, False, "path exploration", str(type(fit)))
        return
    R.fact(nm("parameters are named, in order"), Q, tuple(getattr(fit.p_best, "_fields", ())) == tuple(ml.NAMES), "path exploration")
    code = nx.R_(nx.L(fit.code_used))
    if code.op != "num":
        raise Unsupported("algorithm code not determined on a path")
    code = int(code.val)
    skip = or_(b(gskip), TRUE if force else FALSE)
    boo = lambda x: x if x.sort == "B" else not_(eq(x, ZERO))
    R.prove(nm("skip flag is: too little data, or forced"), Q, h, iff(boo(b(fit.skip_fit)), skip))
    R.prove(nm("code -1 exactly when skipped"), Q, h, skip if code == -1 else not_(skip))
    nx.discharge(R, nm("loss data are those of get_loss_data"), Q, h, fit.loss_data, data)
    if code == -1:
        R.prove(nm("not terminated"), Q, h, not_(boo(b(fit.fit_terminates))))
        for f, v in zip(fit.p_best._fields, fit.p_best):
            R.prove(nm(f"{f} is -99"), Q, h, eq(nx.R_(nx.L(v)), num(-99)))
        R.prove(nm("loss is -99"), Q, h, eq(nx.R_(nx.L(fit.loss_best)), num(-99)))
        R.fact(nm("no minimiser was run"), Q, not log["min"] and not log["adam"], "path exploration") if not force else None
        return
    R.fact(nm("code is -1, 0 or 1"), Q, code in (0, 1), "path exploration", str(code))
    if not log["min"]:
        R.fact(nm("the quasi-Newton minimiser was tried"), Q, False, "path exploration")
        return
    mn = log["min"][0]
    nx.discharge(R, nm("the quasi-Newton minimiser starts from the initial guess"), Q, h, mn.x0, nx.as_array(u0))
    want = LG(mn.x, data)
    nx.discharge(R, nm("the quasi-Newton minimiser minimises the loss of this halo's data"), Q, h, mn.fun, want[0])
    if mn.grad is not None:
        nx.discharge(R, nm("with its gradient"), Q, h, nx.as_array(mn.grad), want[1])
    fun = nx.R_(nx.L(mn.fun))
    good = and_(b(mn.success), extended(nx.finite_term, fun), lt(ZERO, fun))
    term = boo(b(fit.fit_terminates))
    if code == 0:
        R.prove(nm("code 0: the quasi-Newton minimiser succeeded with a finite positive loss"), Q, h, good)
        u, loss = mn.x, want[0]
        R.prove(nm("reported as terminated"), Q, h, term)
    else:
        R.prove(nm("code 1: the quasi-Newton minimiser did not succeed with a finite positive loss"), Q, h, not_(good))
        if not log["adam"]:
            R.fact(nm("the gradient-descent minimiser was run"), Q, False, "path exploration")
            return
        u, loss = log["adam"][-1]
        if loss is not None:
            nx.discharge(R, nm("the gradient-descent minimiser minimises the loss of this halo's data"), Q, h, loss, LG(u, data)[0])
    nx.discharge(R, nm("the loss is the loss of exactly the returned parameters" if loss is not None else "the sentinel loss is reported when nothing finite was found"),
                 Q, h, fit.loss_best, loss if loss is not None else nx.S(tm.from_float(999.99)))
    u = [u.at(num(i, "I")) for i in range(NP_)] + [nx.R_(nx.L(data.u_t_peak))]
    tr = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"])
    m = {tr.inp["u." + f].at(): v for f, v in zip(tr.inp_fields if hasattr(tr, "inp_fields") else dk.DEFAULT_MAH_U_PARAMS._fields, u)}
    B = declared()
    got = {}
    for f in ml.NAMES:
        got[f] = nx.R_(nx.L(getattr(fit.p_best, f)))
        nx.discharge(R, nm(f"{f} is that of the best unconstrained parameters and the peak time"), Q, h, nx.S(got[f]), nx.S(tm.subst(getattr(tr.out, f).at(), m)))
        R.prove(nm(f"{f} strictly inside its bounds"), Q, [], and_(lt(B[f][0], got[f]), lt(got[f], B[f][1])))
    R.prove(nm("early index above late index"), Q, [], lt(got["late_index"], got["early_index"]))
    if tp is not None:
        t = tp.t
        R.prove(nm("peak time is the fixed one"), Q, h + [lt(B["t_peak"][0], t), lt(t, B["t_peak"][1])], eq(got["t_peak"], t))
    else:
        s = tm.fresh("tp")
        back = tm.subst(tm.subst(tr.out.t_peak.at(), {tr.inp["u.u_t_peak"].at(): u_tpeak(s)}), {})
        R.prove(nm("peak time survives the transform"), Q, [lt(B["t_peak"][0], s), lt(s, B["t_peak"][1])], eq(back, s))


def shapes(R):
    n, m = var("#n", "I"), var("#m", "I")
    arr = lambda nm, *d: nx.A(d, lambda i: elem(nm, list(i)))
    for lab, t, mm in (("different lengths", arr("t", n), arr("m", m)), ("one dimension against two", arr("t", n), arr("m", n, m)),
                       ("two dimensions against one", arr("t", m, n), arr("m", n))):
        hyps = [le(O1, n), le(O1, m), not_(eq(n, m))]
        ps = nx.explore(lambda: extended(run_once, H.diffmah_fitter, H.get_loss_data, (t, mm), {}, {}), hyps=hyps)
        R.fact(f"{lab}: rejected on every path", Q, bool(ps) and all(p.kind != "return" for p in ps), "path exploration", str([str(p)[:60] for p in ps][:3]))


def obligations(R):
    fitter(R)
    with R.guard("shapes"):
        shapes(R)


# ------------------------------------------------------------------ concrete clauses
def mah_of(kind, n, seed, t0=13.8):
    rng = np.random.default_rng(seed)
    t = np.linspace(0.3, t0, n) if n > 1 else np.array([t0])
    if kind == "diffmah":
        p = dk.DEFAULT_MAH_PARAMS._make([rng.uniform(10.5, 15), rng.uniform(-0.3, 0.7), rng.uniform(2, 4), rng.uniform(0.1, 1), rng.uniform(3, 14)])
        lg = np.asarray(dk._log_mah_kern(p, jnp.asarray(t), np.log10(t0)), float) + rng.normal(size=n) * 0.02
    elif kind == "flat":
        lg = np.full(n, 12.0)
    elif kind == "gaps":
        lg = np.where(rng.uniform(size=n) < 0.4, -np.inf, 12 + 2 * np.log10(t / t0))
        lg[-1] = 12.0
    else:
        lg = np.cumsum(rng.normal(size=n) * 0.2) + 12
    return t, 10.0 ** lg


def judge(res, t, mah, tpk, force, outcome=None, adam=None):
    msgs = []
    d = res.loss_data
    if res._fields != ("p_best", "loss_best", "skip_fit", "fit_terminates", "code_used", "loss_data") or tuple(res.p_best._fields) != tuple(ml.NAMES):
        return ["fields of the result"]
    pv = np.array([float(x) for x in res.p_best])
    if bool(res.skip_fit) != (int(res.code_used) == -1) or (force and not res.skip_fit):
        msgs.append(f"skip {res.skip_fit} (forced: {force}), code {res.code_used}")
    if res.skip_fit:
        if not (np.all(pv == -99) and float(res.loss_best) == -99 and not res.fit_terminates):
            msgs.append(f"skipped fit returned {pv}, loss {res.loss_best}, terminated {res.fit_terminates}")
        return msgs
    for k, v in zip(ml.NAMES, pv):
        lo, hi = map(float, dk.MAH_PBDICT[k])
        if not (lo - 1e-5 * abs(lo) <= v <= hi + 1e-5 * abs(hi)):
            msgs.append(f"{k}={v} outside ({lo},{hi})")
    if not pv[2] >= pv[3]:
        msgs.append(f"early {pv[2]} late {pv[3]}")
    tp = tpk if tpk is not None else t[int(np.flatnonzero(mah == mah[-1])[0])]
    if 0.06 < tp < 19.9 and not close(pv[4], tp, 1e-4, 1e-4):
        msgs.append(f"t_peak {pv[4]}, expected {tp}")
    pred = np.asarray(dk._log_mah_kern(res.p_best, jnp.asarray(d.t_target), np.log10(t[-1])), float)
    want = float(np.mean((pred - np.asarray(d.log_mah_target, float)) ** 2))
    if float(res.loss_best) != 999.99 and not close(float(res.loss_best), want, 2e-3, 3e-6):
        msgs.append(f"loss {float(res.loss_best)}, loss of the returned parameters {want}")
    if outcome is not None:
        x, fun, ok = outcome
        good = bool(ok) and np.isfinite(fun) and fun > 0
        if int(res.code_used) != (0 if good else 1):
            msgs.append(f"code {res.code_used} when the first minimiser gave success={ok}, loss={fun}")
        if good and not bool(res.fit_terminates):
            msgs.append("successful quasi-Newton fit not reported as terminated")
        if not good and adam and bool(res.fit_terminates) != bool(adam[-1]):
            msgs.append(f"terminated {res.fit_terminates}, gradient descent flag {adam[-1]}")
    return msgs


def check_fit(kind, n, seed, lgm_min, tpk, force, how, bad, dcut, tfm):
    """how: real minimiser, or one whose outcome is chosen (loss value / success)"""
    t, mah = mah_of(kind, n, seed)
    seen = {}
    real_min, real_adam, real_kern, point = BW.minimize, BW.jax_adam_wrapper, H.loss_and_grads_kern, []

    def fake(fun, x0, *a, **k):
        args = k.get("args", ())
        x = np.array([float(v) for v in x0])
        if how != "start":
            x = x + np.random.default_rng(seed).normal(size=x.size) * 0.2
        point.append(x.copy())
        v = float(fun(x, *args))
        ok = how not in ("fail", "fail_nan")
        seen["out"] = (x, v, ok)
        return types.SimpleNamespace(x=x, fun=v, success=ok)

    def kern(p, data):
        """the real loss, except for the value chosen at the point the first minimiser reports"""
        v, g = real_kern(p, data)
        if point and np.array_equal(np.array([float(z) for z in p]), point[0]):
            v = {"nan": float("nan"), "fail_nan": float("nan"), "inf": float("inf"), "zero": 0.0, "negative": -float(v) - 1e-3}.get(how, v)
        return v, g

    def wrapped(fn, p, *a, **k):
        if bad is None:
            seen["adam"] = real_adam(fn, p, *a, **k)
            return seen["adam"]
        calls = [0]

        def f2(pp, data):
            calls[0] += 1
            l, g = fn(pp, data)
            return (float("nan"), g) if calls[0] == bad else (l, g)
        seen["adam"] = real_adam(f2, p, *a, **k)
        return seen["adam"]
    kw = dict(dlogm_cut=dcut, t_fit_min=tfm, nstep=6, tpeak_fixed=tpk, force_skip_fit=force)
    if lgm_min is not None:
        kw["lgm_min"] = lgm_min
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            if how != "real":
                BW.minimize, H.loss_and_grads_kern = fake, kern
            BW.jax_adam_wrapper = wrapped
            res = H.diffmah_fitter(t, mah, **kw)
        finally:
            BW.minimize, BW.jax_adam_wrapper, H.loss_and_grads_kern = real_min, real_adam, real_kern
    msgs = judge(res, t, mah if lgm_min is None else np.maximum(mah, 10.0 ** lgm_min), tpk, force, seen.get("out"), seen.get("adam"))
    skip = H.get_loss_data(t, mah, dlogm_cut=dcut, t_fit_min=tfm, tpeak_fixed=tpk, **({} if lgm_min is None else dict(lgm_min=lgm_min)))[2]
    if bool(res.skip_fit) != bool(skip or force):
        msgs.append(f"skipped {res.skip_fit}: get_loss_data says {skip}, forced {force}")
    return msgs


def check_shape(a, b):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            H.diffmah_fitter(np.linspace(1, 13.8, int(np.prod(a))).reshape(a), 10 ** np.linspace(11, 12, int(np.prod(b))).reshape(b))
    except Exception:
        return []
    return [f"t_sim of shape {a} and mah_sim of shape {b} accepted"]


HOW = ("real", "fail", "nan", "inf", "zero", "negative", "ok", "fail_nan", "start")


def gen_fit(rng, N):
    for k in range(N):
        yield dict(kind=["diffmah", "diffmah", "walk", "gaps", "diffmah", "flat", "diffmah"][k % 7], n=int(rng.choice([1, 3, 4, 5, 8, 20])) if k % 3 == 0 else 20, seed=int(rng.integers(1 << 30)),
                   lgm_min=None if k % 3 else float(rng.choice([10.0, 11.0])), tpk=None if k % 4 else float(rng.uniform(0.2, 19.5)), force=bool(k % 10 == 9),
                   how=HOW[k % len(HOW)], bad=None if k % 2 else int(rng.integers(1, 60)), dcut=float(rng.choice([2.5, 0.5])), tfm=float(rng.choice([0.0, 1.0, 13.0], p=[.4, .5, .1])))


def gen_shape(rng, N):
    pool = [((5,), (6,)), ((6,), (5,)), ((5,), (1, 5)), ((1, 5), (5,)), ((5,), (5, 1)), ((4,), (2, 4)), ((2, 3), (6,)), ((1,), (5,)), ((5,), (1,)), ((2, 3), (3, 2))]
    for k in range(min(N, len(pool))):
        yield dict(a=list(pool[k][0]), b=list(pool[k][1]))


CASES = {"fit": Case(check_fit, gen_fit, 60, 400), "shape": Case(check_shape, gen_shape, 10, 10)}
