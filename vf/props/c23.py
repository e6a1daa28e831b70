"""C23: component calibration losses measure the error of the component's own prediction; component fitters return what the minimiser found."""
from fractions import Fraction as Fr
import importlib
import inspect
import numpy as np
import jax
import jax.numpy as jnp
from ..lib import *
from ..check import Case, Undecided
from .. import nx
from . import poplib as pl, c05
from .c09 import sigm, inb
from .c13 import grad_same, check_grad

INDEX = [("early_index_alpha", "_pred_early_index_kern"), ("early_index_beta", "_pred_early_index_kern"), ("early_index_pop", "_pred_early_index_kern"),
         ("logtc_early", "_pred_logtc_kern"), ("logtc_late", "_pred_logtc_kern")]
LOGM0 = [(f"{d}.logm0_{c}_{g}", c) for d in ("bimod_logm0_kernels", "bimod_logm0_sats") for c in ("c0", "c1") for g in ("early", "late")]
TU, TO, TF = "t_peak_kernels.utp_pdf_kernels", "t_peak_kernels.tp_pdf_cens", "t_peak_kernels.tp_pdf_cens_flex"
FUNCTIONS = [f"{m}:{f}" for m, k in INDEX for f in ("_loss_kern", "loss_and_grads_kern", k)]
FUNCTIONS += [f"{m}:{f}" for m, c in LOGM0 for f in ("_loss_kern_scalar", "global_loss_kern", "global_loss_and_grads_kern", f"fit_global_{c}_model", f"_pred_{c}_kern")]
FUNCTIONS += [TU + ":" + f for f in ("_loss_kern", "loss_and_grads_kern", "t_peak_fitter", "_tp_pdf_kern", "_tp_cdf_kern")]
FUNCTIONS += [TO + ":" + f for f in ("_loss_kern", "loss_and_grads_kern", "t_peak_cens_fitter", "_t_peak_cen_pdf_singlehalo_kern", "_t_peak_cen_cdf_singlehalo_kern",
                                     "_t_peak_cens_pdf_kern", "_t_peak_cens_cdf_kern", "_get_singlepdf_params")]
FUNCTIONS += [TF + ":" + f for f in ("_loss", "loss_and_grad", "loss_multimass", "loss_and_grad_multimass", "_loss_kern_single_mass", "_frac_peaked_kern")]
TRUSTED = ["jax.value_and_grad(f): returns f and its exact derivative (the program it differentiates is the traced one)",
           "jax.scipy.stats.truncnorm.pdf and .cdf: density and distribution function of the truncated normal with the arguments given"]
ASSUMPTIONS = ["bfgs_adam_fallback by its contract (C15): returns parameters, loss, termination flag and algorithm code"]
i = I("i")


def mean_over(n, body, v=i):
    """mean over the n data points of body (a term in index v)"""
    return div(tm.summ(v, n, body), jx.dim_term(n))


def sq(a, b):
    return tm.ipow(sub(a, b), 2)


def bounded_of(M, row, pre="u"):
    """terms of the component's bounded parameters as functions of the unconstrained ones"""
    tb = jx.trace(getattr(M, row[1]), (nt(getattr(M, row[4])),), [pre])
    return fields(tb.out)


def obligations(R):
    for mod, kern in INDEX:
        with R.guard(mod):
            M, row = pl.mod(mod), c05.BY_MODULE[mod]
            n, = jx.dims("n", ["n>=1"])
            U, P = getattr(M, row[4]), getattr(M, row[3])
            data = (jx.spec((n,)),) * 4
            names = ["u", "d"]
            tr = jx.trace(lambda u, d: M._loss_kern(u, d), (nt(U), data), names)
            e = lambda k: elem(f"d.{k}", [i])
            pred = jx.trace(getattr(M, kern), (nt(P),) + (jx.spec(),) * 3, ["p", "lgm", "tobs", "tpk"],
                            sym=dict({"p." + k: v for k, v in bounded_of(M, row).items()}, lgm=e(0), tobs=e(1), tpk=e(2))).out.at()
            R.prove(f"{mod}: the loss is the mean square difference between target and prediction at the bounded parameters, point by point", mod + ":_loss_kern", [],
                    eq(tr.out.at(), mean_over(n, sq(pred, e(3)))))
            grad_same(R, mod + ":loss_and_grads_kern", lambda u, d: M.loss_and_grads_kern(u, d), lambda u, d: M._loss_kern(u, d), (nt(U), data), names)
    for mod, c in LOGM0:
        with R.guard(mod):
            logm0(R, mod, c)
    with R.guard("peak-time losses"):
        peaks(R)
    with R.guard("peak-time distributions"):
        dists(R)
    with R.guard("component fitters"):
        fitters(R)


def logm0(R, mod, c):
    M, row = pl.mod(mod), c05.BY_MODULE[mod]
    P = getattr(M, row[3])
    kern = getattr(M, f"_pred_{c}_kern")
    q = mod + ":global_loss_kern"

    def point(a, b):
        return jx.trace(kern, (nt(P), jx.spec(), jx.spec()), ["p", "tobs", "tpk"], sym=dict(tobs=a, tpk=b)).out.at()

    def term(k, dim, scalar_t=False):
        e = lambda j: elem(f"d.{k}.{j}", [i])
        return mean_over(dim, sq(e(2), point(var(f"d.{k}.0") if scalar_t else e(0), e(1))))

    def sets(r):
        for k in (1, 2, 3, 4, 6):
            ds = jx.dims(",".join("abcdef"[:k]), [x + ">=1" for x in "abcdef"[:k]])
            tr = jx.trace(lambda p, d: M.global_loss_kern(p, d), (nt(P), [(jx.spec((x,)),) * 3 for x in ds]), ["p", "d"])
            r.prove(f"{mod}: the loss of {k} data set{'s' if k > 1 else ''} of any sizes is the sum of their mean square errors", q, [],
                    eq(tr.out.at(), add(*[term(j, x) for j, x in enumerate(ds)])))
        n, = jx.dims("n", ["n>=1"])
        tr = jx.trace(lambda p, d: M.global_loss_kern(p, d), (nt(P), [(jx.spec(), jx.spec((n,)), jx.spec((n,)))]), ["p", "d"])
        r.prove(f"{mod}: one observation time for a whole data set", q, [], eq(tr.out.at(), term(0, n, True)))

    def full(r):
        sets(r)
        # any number of data sets: the loop adds one data set's loss each time
        K = var("#K", "I")
        L1 = lambda k: uf("L", [nx.R_(k)])
        S = lambda k: uf("sumL", [nx.R_(k)])          # sumL(0) = 0, sumL(k+1) = sumL(k) + L(k)
        st = lambda k: dict(loss=nx.S(ZERO if k.op == "num" and k.val == 0 else ite(eq(nx.R_(k), ZERO), ZERO, S(k))))
        nxt = lambda k: dict(loss=nx.S(add(ite(eq(nx.R_(k), ZERO), ZERO, S(k)), L1(k))))
        items = nx.SymIter(K, lambda k: Item(k))
        par = P._make([nx.S(var("p." + k)) for k in P._fields])

        def one(p, d):
            if len(p) != len(par) or any(a is not b for a, b in zip(p, par)) or not isinstance(d, Item):
                raise Unsupported("data set loss called with something else")
            return nx.S(L1(d.k))
        f = nx.sym_function(M.global_loss_kern, env=dict(_loss_kern_scalar=one), loops={0: nx.LoopContract(st, nxt=nxt)})
        ps = nx.explore(lambda: f(par, items), hyps=[le(num(0, "I"), K)])

        def ex(k, p):
            if p.kind != "return":
                r.fact(f"{mod}: no error for any number of data sets (path {k})", q, False, "path exploration", repr(p.value))
                return
            r.prove(f"{mod}: any number of data sets: the sum of their losses (path {k})", q, p.pc, eq(nx.R_(nx.L(p.value)), ite(eq(nx.R_(K), ZERO), ZERO, S(K))))
        nx.prove_paths(r, q, ps, ex)
        n, = jx.dims("n", ["n>=1"])
        tr = jx.trace(lambda p, d: M._loss_kern_scalar(p, d), (nt(P), (jx.spec((n,)),) * 3), ["p", "d"])
        e = lambda j: elem(f"d.{j}", [i])
        r.prove(f"{mod}: loss of one data set is its mean square error", mod + ":_loss_kern_scalar", [],
                eq(tr.out.at(), mean_over(n, sq(e(2), point(e(0), e(1))))))
    nx.by_contract_or_bounded(R, q, full, sets, "1, 2, 3, 4 and 6 data sets of any sizes")
    ds = jx.dims("a,b", ["a>=1", "b>=1"])
    data = [(jx.spec((x,)),) * 3 for x in ds]
    grad_same(R, mod + ":global_loss_and_grads_kern", lambda p, d: M.global_loss_and_grads_kern(p, d), lambda p, d: M.global_loss_kern(p, d), (nt(P), data), ["p", "d"])


class Item:
    def __init__(self, k):
        self.k = k


def tn(kind, x, loc, scale):
    """Truncated normal on [0.1, 1] in standard form: with z = (x - loc)/scale, cdf F(z) and density f(z)/scale, F' = f."""
    f = uf(kind, [div(sub(x, loc), scale), div(sub(num(Fr(1, 10)), loc), scale), div(sub(ONE, loc), scale)])
    return div(f, scale) if kind == "tnpdf" else f


def peaks(R):
    n, b = jx.dims("n,b", ["n>=1", "b>=1"])
    K, O, F = pl.mod(TU), pl.mod(TO), pl.mod(TF)
    row = c05.BY_MODULE[TU]
    U = getattr(K, row[4])
    p = bounded_of(K, row)
    e = lambda k: elem(f"d.{k}", [i])
    tr = jx.trace(lambda u, d: K._loss_kern(u, d), (nt(U), (jx.spec((n,)),) * 2), ["u", "d"])
    R.prove("peak-time density loss is the mean square difference between target and density at the bounded location and scale", TU + ":_loss_kern", [],
            eq(tr.out.at(), mean_over(n, sq(tn("tnpdf", e(0), p["utp_loc"], p["utp_scale"]), e(1)))))
    grad_same(R, TU + ":loss_and_grads_kern", lambda u, d: K.loss_and_grads_kern(u, d), lambda u, d: K._loss_kern(u, d), (nt(U), (jx.spec((n,)),) * 2), ["u", "d"])
    t0 = var("d.2")
    tr = jx.trace(lambda u, d: O._loss_kern(u, d), (nt(U), (jx.spec((n,)), jx.spec((n,)), jx.spec())), ["u", "d"])
    R.prove("central peak-time density loss is the mean square difference between target and density per unit of time", TO + ":_loss_kern", [not_(eq(t0, ZERO))],
            eq(tr.out.at(), mean_over(n, sq(div(tn("tnpdf", div(e(0), t0), p["utp_loc"], p["utp_scale"]), t0), e(1)))))
    grad_same(R, TO + ":loss_and_grads_kern", lambda u, d: O.loss_and_grads_kern(u, d), lambda u, d: O._loss_kern(u, d),
              (nt(U), (jx.spec((n,)), jx.spec((n,)), jx.spec())), ["u", "d"])
    one = lambda x, x0: sig(mul(num(5), sub(x, x0)))
    tr = jx.trace(lambda u, d: F._loss(u, d), ((jx.spec(),), (jx.spec((n,)),) * 2), ["x", "d"])
    R.prove("single-mass central peak-time loss is the mean square difference between target and cumulative distribution", TF + ":_loss", [],
            eq(tr.out.at(), mean_over(n, sq(one(e(0), var("x.0")), e(1)))))
    grad_same(R, TF + ":loss_and_grad", lambda u, d: F.loss_and_grad(u, d), lambda u, d: F._loss(u, d), ((jx.spec(),), (jx.spec((n,)),) * 2), ["x", "d"])
    P = F.DEFAULT_TPCENS_PARAMS
    data = (jx.spec((b, n)), jx.spec((b, n)), jx.spec((b,)), jx.spec((b,)))
    tr = jx.trace(lambda u, d: F.loss_multimass(u, d), (nt(P), data), ["p", "d"])
    j = I("j")
    pred = jx.trace(F._frac_peaked_vs_lgm, (nt(P), jx.spec(), jx.spec(), jx.spec()), ["p", "x", "lgm", "tobs"],
                    sym=dict(x=elem("d.0", [j, i]), lgm=elem("d.2", [j]), tobs=elem("d.3", [j]))).out.at()
    body = tm.tabs(sub(pred, elem("d.1", [j, i])))
    want = div(tm.summ(j, b, tm.summ(i, n, body)), mul(jx.dim_term(b), jx.dim_term(n)))
    R.prove("multi-mass central peak-time loss is the mean absolute difference over all masses and points, each mass with its own time", TF + ":loss_multimass", [],
            eq(tr.out.at(), want))
    grad_same(R, TF + ":loss_and_grad_multimass", lambda u, d: F.loss_and_grad_multimass(u, d), lambda u, d: F.loss_multimass(u, d), (nt(P), data), ["p", "d"])


def dists(R):
    """Density and distribution used in calibration are those peak times are drawn from."""
    K, O = pl.mod(TU), pl.mod(TO)
    x, loc, sc = var("x"), var("k.utp_loc"), var("k.utp_scale")
    for nm, kind in (("_tp_pdf_kern", "tnpdf"), ("_tp_cdf_kern", "tncdf")):
        tr = jx.trace(getattr(K, nm), (jx.spec(), nt(K.DEFAULT_UTP_PARAMS)), ["x", "k"])
        R.prove(f"{nm}: truncated normal on [0.1, 1] with the given location and scale", f"{TU}:{nm}", [], eq(tr.out.at(), tn(kind, x, loc, sc)))
    lgm, tobs, tpk, t0 = [var(k) for k in ("lgm", "tobs", "tpk", "t0")]
    pr = lambda k: var("p." + k)
    s0 = sigm(lgm, num(Fr(25, 2)), 2, pr("tpck_scale_mh_lo"), pr("tpck_scale_mh_hi"))
    scale = add(s0, sigm(tobs, div(t0, num(2)), 1, pr("tpck_scale_boost_early"), ZERO))
    tr = jx.trace(O._get_singlepdf_params, (nt(O.DEFAULT_TPCENS_PARAMS), jx.spec(), jx.spec(), jx.spec()), ["p", "lgm", "tobs", "t0"])
    R.prove("central location and scale used in drawing", TO + ":_get_singlepdf_params", [], and_(eq(leaf(tr.out[0]), num(Fr(95, 100))), eq(leaf(tr.out[1]), scale)))
    a = (nt(O.DEFAULT_TPCENS_PARAMS),) + (jx.spec(),) * 4
    nm = ["p", "lgm", "tobs", "tpk", "t0"]
    u = div(tpk, t0)
    pdf = jx.trace(O._t_peak_cen_pdf_singlehalo_kern, a, nm).out.at()
    cdf = jx.trace(O._t_peak_cen_cdf_singlehalo_kern, a, nm).out.at()
    h = [lt(ZERO, t0)]
    R.prove("central density per unit of time has the location and scale peak times are drawn with", TO + ":_t_peak_cen_pdf_singlehalo_kern", h,
            eq(pdf, div(tn("tnpdf", u, num(Fr(95, 100)), scale), t0)))
    R.prove("central distribution function is the one peak times are drawn from", TO + ":_t_peak_cen_cdf_singlehalo_kern", h,
            eq(cdf, tn("tncdf", u, num(Fr(95, 100)), scale)))
    # distribution' = density: F' = f (library contract) and the inner derivative
    F = [w for w in tm.subterms(cdf) if w.op == "uf" and w.val[1] == "tncdf"]
    R.fact("the distribution function is one application of the library's", TO + ":_t_peak_cen_cdf_singlehalo_kern", len(F) == 1 and cdf is F[0], "term structure", str(cdf)[:200])
    if F and cdf is F[0]:
        R.prove("central density is the time derivative of the distribution function", TO + ":_t_peak_cen_cdf_singlehalo_kern", h,
                eq(pdf, mul(uf("tnpdf", list(F[0].args)), diff(F[0].args[0], tpk))))


class patched:
    """Attributes replaced while the with block runs."""

    def __init__(self, *jobs):
        self.jobs = [(m, k, v) for m, k, v in jobs if hasattr(m, k)]

    def __enter__(self):
        self.old = [getattr(m, k) for m, k, _ in self.jobs]
        for m, k, v in self.jobs:
            setattr(m, k, v)

    def __exit__(self, *a):
        for (m, k, _), v in zip(self.jobs, self.old):
            setattr(m, k, v)


class Tok:
    """An opaque value: nothing can be done with it but pass it on."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<" + self.n + ">"


def run_fit(M, fn, args, kw=None, nb=2):
    """The fitter on opaque arguments with the minimiser and the bounded map by contract -> (outcome, calls, results)."""
    from diffmah.fitting_helpers import bfgs_wrapper as BW
    K = pl.mod(TU)
    res = [tuple(Tok(f"p{k}") for k in range(nb)), Tok("loss"), Tok("terminates"), Tok("code")]
    calls, bnd = [], []

    def bfgs(f, p, d, nstep=200, n_warmup=1):
        calls.append((f, p, d, nstep, n_warmup))
        return list(res)

    def bounded(u):
        t = Tok("bounded")
        bnd.append((u, t))
        return t
    with patched((M, "bfgs_adam_fallback", bfgs), (BW, "bfgs_adam_fallback", bfgs), (K, "get_bounded_utp_params", bounded)):
        out = fn(*args, **(kw or {}))
    return out, calls, res, bnd


def fitters(R):
    for mod, c in LOGM0:
        q = f"{mod}:fit_global_{c}_model"
        with R.guard(q):
            M, row = pl.mod(mod), c05.BY_MODULE[mod]
            fn = inspect.unwrap(getattr(M, f"fit_global_{c}_model"))
            for lab, kw in (("default start", {}), ("given start", dict(p_init=Tok("start")))):
                d = Tok("data")
                out, calls, res, _ = run_fit(M, fn, (d,), kw)
                R.fact(f"{mod}: minimises its own loss on the given data from the {lab}, with the wrapper's defaults", q,
                       len(calls) == 1 and calls[0][2] is d and calls[0][3:] == (200, 1)
                       and (calls[0][1] is kw["p_init"] if kw else calls[0][1] == getattr(M, row[3])), "execution on opaque values", str(calls)[:200])
                R.fact(f"{mod}: returns parameters, loss, flag and code as found ({lab})", q, list(out) == res, "execution on opaque values", str(out)[:200])
                P = getattr(M, row[3])
                ds = jx.dims("a,b", ["a>=1", "b>=1"])
                data = [(jx.spec((x,)),) * 3 for x in ds]
                f = calls[0][0]
                grad_same(R, q, lambda p, d_: f(p, d_), lambda p, d_: M.global_loss_kern(p, d_), (nt(P), data), ["p", "d"])
    K, O = pl.mod(TU), pl.mod(TO)
    n, = jx.dims("n", ["n>=1"])
    xt, yt, t0, st = Tok("x"), Tok("y"), Tok("t0"), Tok("start")
    ns, nw = nx.S(var("nstep", "I")), nx.S(var("n_warmup", "I"))
    jobs = [(TU + ":t_peak_fitter", K, K.t_peak_fitter, (xt, yt), {}, (xt, yt), K.DEFAULT_UTP_U_PARAMS, (200, 1), (jx.spec((n,)),) * 2),
            (TO + ":t_peak_cens_fitter", O, O.t_peak_cens_fitter, (xt, yt, t0), {}, (xt, yt, t0), K.DEFAULT_UTP_U_PARAMS, (200, 1), (jx.spec((n,)), jx.spec((n,)), jx.spec())),
            (TO + ":t_peak_cens_fitter", O, O.t_peak_cens_fitter, (xt, yt, t0), dict(u_p_init=st, nstep=ns, n_warmup=nw), (xt, yt, t0), st, (ns, nw),
             (jx.spec((n,)), jx.spec((n,)), jx.spec()))]
    for q, M, fn, args, kw, data, start, steps, spec in jobs:
        lab = "given settings" if kw else "defaults"

        def ex(k, p):
            if p.kind != "return":
                R.fact(f"no error ({lab}, path {k})", q, False, "path exploration", repr(p.value))
                return
            out, calls, res, bnd = p.value
            ok = len(calls) == 1 and len(calls[0][2]) == len(data) and all(a is b for a, b in zip(calls[0][2], data)) and (calls[0][1] is start or calls[0][1] == start)
            R.fact(f"minimises the density loss of the given target from the start ({lab}, path {k})", q, ok, "execution on opaque values", str(calls)[:200])
            for nm, a, b in zip(("number of steps", "number of warm-ups"), calls[0][3:] if ok else (), steps):
                R.prove(f"{nm} handed on ({lab}, path {k})", q, p.pc, eq(nx.R_(nx.L(a)), nx.R_(nx.L(b))))
            R.fact(f"returns the bounded values of the parameters found, their loss, flag and code ({lab}, path {k})", q,
                   len(out) == 4 and len(bnd) == 1 and out[0] is bnd[0][1] and isinstance(bnd[0][0], K.UTP_UParams) and tuple(bnd[0][0]) == res[0]
                   and list(out[1:]) == res[1:], "execution on opaque values", str(out)[:200])
            f = calls[0][0]
            grad_same(R, q, lambda u, d_: f(u, d_), lambda u, d_: M._loss_kern(u, d_), (nt(K.DEFAULT_UTP_U_PARAMS), spec), ["u", "d"])
        with R.guard(q):
            hyps = [le(num(0, "I"), nx.L(v)) for v in steps if isinstance(v, nx.S)]
            nx.prove_paths(R, q, nx.explore(lambda: run_fit(M, inspect.unwrap(fn), args, kw), hyps=hyps), ex)


# ---------------------------------------------------------------- concrete
def np_bounded(mod, u):
    decl = c05.load(mod)[4]
    P = c05.load(mod)[2]
    out = {}
    for k in P._fields:
        lo, hi = decl[k]
        out[k] = lo + (hi - lo) / (1 + np.exp(-0.1 * (getattr(u, "u_" + k) - 0.5 * (lo + hi))))
    return P._replace(**out)


def close_(a, b, tol=1e-8):
    return np.isclose(float(a), float(b), rtol=tol, atol=1e-12)


def u_near(mod, du):
    U = c05.load(mod)[3]
    return U._replace(**{k: float(v) + float(d) for (k, v), d in zip(U._asdict().items(), du)})


def check_index(mod, du, d, seed):
    M = pl.mod(mod)
    u = u_near(mod, du)
    d = [np.array(x) for x in d]
    p = np_bounded(mod, u)
    kern = getattr(M, dict(INDEX)[mod])
    pred = np.array([float(kern(p, *(float(x[k]) for x in d[:3]))) for k in range(len(d[0]))])
    want = np.mean((pred - d[3]) ** 2)
    data = tuple(jnp.array(x) for x in d)
    val, g = M.loss_and_grads_kern(u, data)
    f = lambda y: float(M._loss_kern(y, data))
    msgs = [] if close_(f(u), want) else [f"{mod}: loss {f(u)} but the mean square error is {want}"]
    return msgs + check_grad(mod, f, u, val, g, seed)


def check_logm0(mod, f, sets, seed):
    M, row = pl.mod(mod), c05.BY_MODULE[mod]
    decl, P = c05.load(mod)[4], c05.load(mod)[2]
    p = P._replace(**{k: decl[k][0] + x * (decl[k][1] - decl[k][0]) for k, x in zip(P._fields, f)})
    c = dict(LOGM0)[mod]
    kern = getattr(M, f"_pred_{c}_kern")
    want = 0.0
    data = []
    for to, tp, y in sets:
        to, tp, y = [np.array(x, dtype=float) for x in (to, tp, y)]
        pred = np.array([float(kern(p, float(np.broadcast_to(to, y.shape)[k]), float(tp[k]))) for k in range(len(y))])
        want += np.mean((pred - y) ** 2)
        data.append((jnp.array(to), jnp.array(tp), jnp.array(y)))
    fn = lambda x: float(M.global_loss_kern(x, data))
    val, g = M.global_loss_and_grads_kern(p, data)
    msgs = [] if close_(fn(p), want) else [f"{mod}: loss {fn(p)} but the summed mean square errors are {want}"]
    return msgs + check_grad(mod, fn, p, val, g, seed)


def check_peaks(du, x, y, t0, lgm, tobs, f, seed):
    from scipy.stats import truncnorm
    K, O, F = pl.mod(TU), pl.mod(TO), pl.mod(TF)
    u = u_near(TU, du)
    p = np_bounded(TU, u)
    x, y = np.array(x), np.array(y)
    msgs = []
    tnd = lambda f_, v, l, s: f_(v, (0.1 - l) / s, (1 - l) / s, l, s)
    for nm, M, d, pred in ((TU, K, (x, y), tnd(truncnorm.pdf, x, p.utp_loc, p.utp_scale)),
                           (TO, O, (x * t0, y, t0), tnd(truncnorm.pdf, x, p.utp_loc, p.utp_scale) / t0)):
        d = tuple(jnp.array(v) for v in d)
        fn = lambda w, M=M, d=d: float(M._loss_kern(w, d))
        want = np.mean((pred - y) ** 2)
        val, g = M.loss_and_grads_kern(u, d)
        if not close_(fn(u), want, 1e-6):
            msgs.append(f"{nm}: loss {fn(u)} but the mean square error of the density is {want}")
        msgs += check_grad(nm, fn, u, val, g, seed)
    decl, P = c05.load(TO)[4], c05.load(TO)[2]
    q = P._replace(**{k: decl[k][0] + v * (decl[k][1] - decl[k][0]) for k, v in zip(P._fields, f)})
    loc, scale = O._get_singlepdf_params(q, lgm, tobs, t0)
    for nm, fk, ref, sc in (("density", O._t_peak_cen_pdf_singlehalo_kern, truncnorm.pdf, t0), ("distribution function", O._t_peak_cen_cdf_singlehalo_kern, truncnorm.cdf, 1.0)):
        for v in x:
            got, want = float(fk(q, lgm, tobs, float(v) * t0, t0)), tnd(ref, v, float(loc), float(scale)) / sc
            if not np.isclose(got, want, rtol=1e-5, atol=1e-8):
                msgs.append(f"central {nm} at {v}*t0 is {got}; the peak times drawn have {want}")
                break
    x0 = float(p.utp_loc) + 0.4
    fl = lambda w: float(F._loss((w,), (jnp.array(x), jnp.array(y))))
    want = np.mean((1 / (1 + np.exp(-5 * (x - x0))) - y) ** 2)
    if not close_(fl(x0), want):
        msgs.append(f"single-mass central loss {fl(x0)} but the mean square error is {want}")
    return msgs


def check_multi(f, x, y, lgm, tobs, seed):
    F = pl.mod(TF)
    decl, P = c05.load(TF)[4], c05.load(TF)[2]
    p = P._replace(**{k: decl[k][0] + v * (decl[k][1] - decl[k][0]) for k, v in zip(P._fields, f)})
    x, y, lgm, tobs = [np.array(v) for v in (x, y, lgm, tobs)]
    pred = np.array([[float(F._frac_peaked_vs_lgm(p, float(x[a, b]), float(lgm[a]), float(tobs[a]))) for b in range(x.shape[1])] for a in range(x.shape[0])])
    want = np.abs(pred - y).mean()
    d = tuple(jnp.array(v) for v in (x, y, lgm, tobs))
    fn = lambda w: float(F.loss_multimass(w, d))
    val, g = F.loss_and_grad_multimass(p, d)
    msgs = [] if close_(fn(p), want) else [f"multi-mass loss {fn(p)} but the mean absolute error is {want}"]
    return msgs + check_grad("multi-mass", fn, p, val, g, seed)


def check_fit(mod, seed):
    """The component fitters with the minimiser recorded: which loss of which data it is given from where, and what becomes of its result; then for real."""
    rng = np.random.default_rng(seed)
    msgs = []

    def record(M, nm, run, loss, start, data, steps, res, final):
        calls = []

        def bfgs(f, p, d, nstep=200, n_warmup=1):
            calls.append((f, p, d, nstep, n_warmup))
            return list(res)
        with patched((M, "bfgs_adam_fallback", bfgs)):
            got = run()
        if len(calls) != 1:
            raise Undecided("the minimiser is reached some other way")
        f, p, d, k, w = calls[0]
        if not np.allclose(np.array(p, dtype=float), np.array(start, dtype=float)):
            msgs.append(f"{nm}: starts from {p}, not {start}")
        if (k, w) != steps:
            msgs.append(f"{nm}: minimiser settings {(k, w)}, not {steps}")
        for q in (start, type(start)(*[float(v) * 1.03 + 0.01 for v in start])):
            a, b = float(f(q, d)[0]), float(loss(q, data))
            if not close_(a, b):
                msgs.append(f"{nm}: minimises a function worth {a} at {tuple(q)}; the loss of the given data is {b}")
                break
        if len(got) != 4 or not np.allclose(np.array(got[0], dtype=float), final, rtol=1e-6, atol=1e-9) or list(got[1:]) != list(res[1:]):
            msgs.append(f"{nm}: returns {got} where the minimiser found {res}")
    if mod in dict(LOGM0):
        M, c, P = pl.mod(mod), dict(LOGM0)[mod], c05.load(mod)[2]
        data = []
        for n in (3, 5):
            to, tp = rng.uniform(3, 13, n), rng.uniform(1, 12, n)
            data.append((jnp.array(to), jnp.array(tp), jnp.array(rng.normal(0, 1, n))))
        start = P._make([float(v) for v in P])._replace(**{P._fields[0]: float(P[0]) * 1.1 + 0.01})
        fit = getattr(M, f"fit_global_{c}_model")
        res = (np.array([float(v) * 0.9 for v in P]), 0.125, 1, 0)
        for kw, p0 in (({}, P), (dict(p_init=start), start)):
            record(M, mod, lambda: fit(data, **kw), M.global_loss_kern, p0, data, (200, 1), res, res[0])
        try:
            got = fit(data)
        except Exception as e:
            return msgs + [f"{mod}: fitting the component raises {type(e).__name__}: {str(e)[:100]}"]
        pf = P._make([float(v) for v in got[0]])
        if np.isfinite(float(got[1])) and not close_(got[1], M.global_loss_kern(pf, data), 1e-4):
            msgs.append(f"{mod}: fit reports loss {got[1]}; the loss at the parameters returned is {M.global_loss_kern(pf, data)}")
        return msgs
    K, O = pl.mod(TU), pl.mod(TO)
    x = np.linspace(0.15, 0.95, 30)
    loc, sc = rng.uniform(0.3, 0.9), rng.uniform(0.1, 0.5)
    t0 = float(rng.uniform(10, 14))
    y = np.array(K._tp_pdf_kern(jnp.array(x), K.UTP_Params(loc, sc)))
    D = K.DEFAULT_UTP_U_PARAMS
    st = D._replace(u_utp_loc=float(D.u_utp_loc) + 2.0)
    d1, d2 = (jnp.array(x), jnp.array(y)), (jnp.array(x * t0), jnp.array(y / t0), t0)
    jobs = [(K, lambda: K.t_peak_fitter(*d1), d1, D, (200, 1)), (O, lambda: O.t_peak_cens_fitter(*d2), d2, D, (200, 1)),
            (O, lambda: O.t_peak_cens_fitter(*d2, u_p_init=st, nstep=7, n_warmup=0), d2, st, (7, 0)),
            (O, lambda: O.t_peak_cens_fitter(*d2, nstep=350, n_warmup=3), d2, D, (350, 3))]
    ur = np.array([float(v) for v in D]) + rng.normal(0, 1, 2)
    res = (ur, 0.25, 1, 0)
    for M, run, d, s, steps in jobs:
        record(M, M.__name__, run, M._loss_kern, s, d, steps, res, np_bounded(TU, K.UTP_UParams(*ur)))
        got = run() if steps[0] < 300 else None
        if got is not None and (len(got) != 4 or not all(np.isfinite([float(v) for v in got[0]]))):
            msgs.append(f"peak-time fit gives {got}")
    return msgs


def gen_index(rng, N):
    for k in range(N):
        mod = INDEX[k % len(INDEX)][0]
        n = int(rng.integers(1, 6))
        d = [rng.uniform(11, 15, n), rng.uniform(1, 13.8, n), rng.uniform(0.5, 13.8, n), rng.uniform(0.2, 5, n)]
        yield dict(mod=mod, du=rng.normal(0, 5, len(c05.load(mod)[3])).tolist(), d=[x.tolist() for x in d], seed=int(rng.integers(2**31)))


def gen_logm0(rng, N):
    for k in range(N):
        mod = LOGM0[k % len(LOGM0)][0]
        sets = []
        for _ in range((1, 2, 5, 3, 7, 4)[(k // len(LOGM0)) % 6] if k % 2 else int(rng.integers(2, 7))):
            n = int(rng.integers(1, 6))
            to = rng.uniform(1, 13.8, n).tolist() if rng.random() < 0.6 else float(rng.uniform(1, 13.8))
            sets.append([to, rng.uniform(0.5, 13.8, n).tolist(), rng.normal(0, 1, n).tolist()])
        yield dict(mod=mod, f=rng.uniform(0.05, 0.95, len(c05.load(mod)[2])).tolist(), sets=sets, seed=int(rng.integers(2**31)))


def gen_peaks(rng, N):
    for _ in range(N):
        n = int(rng.integers(1, 7))
        yield dict(du=rng.normal(0, 6, 2).tolist(), x=np.sort(rng.uniform(0.12, 0.98, n)).tolist(), y=rng.uniform(0, 2, n).tolist(), t0=float(rng.uniform(8, 15)),
                   lgm=float(rng.uniform(11, 15)), tobs=float(rng.uniform(1, 13.8)), f=rng.uniform(0.05, 0.95, 3).tolist(), seed=int(rng.integers(2**31)))


def gen_multi(rng, N):
    for _ in range(N):
        b, n = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        yield dict(f=rng.uniform(0.05, 0.95, 6).tolist(), x=rng.uniform(0, 1, (b, n)).tolist(), y=rng.uniform(0, 1, (b, n)).tolist(),
                   lgm=rng.uniform(11, 15, b).tolist(), tobs=rng.uniform(1, 13.8, b).tolist(), seed=int(rng.integers(2**31)))


def gen_fit(rng, N):
    mods = [TU] + [m for m, _ in LOGM0]
    for k in range(N):
        yield dict(mod=mods[k % len(mods)], seed=int(rng.integers(2**31)))


CASES = {"index": Case(check_index, gen_index, 10, 100), "logm0": Case(check_logm0, gen_logm0, 32, 240), "peaks": Case(check_peaks, gen_peaks, 6, 60),
         "multi": Case(check_multi, gen_multi, 4, 40), "fit": Case(check_fit, gen_fit, 9, 36)}
