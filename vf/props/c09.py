"""C09: sampled peak times stay in physical support and follow their distribution."""
from fractions import Fraction as Fr
import numpy as np
import jax.numpy as jnp
from jax import random as jran
from ..lib import *
from ..check import Case
from . import poplib as pl, interplib as il, c05

TC, TS, TU, TO = "t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats", "t_peak_kernels.utp_pdf_kernels", "t_peak_kernels.tp_pdf_cens"
FUNCTIONS = [TC + ":mc_tpeak_singlecen", TC + ":mc_utp_singlecen", TC + ":mc_t_peak_cenpop", TC + ":_frac_peaked_vs_lgm",
             TC + ":_get_utp_x0_from_lgm", TS + ":mc_tpeak_singlesat", TS + ":mc_tpeak_sats", TS + ":mc_utp_pdf",
             TU + ":mc_tp_pdf_singlesat", TU + ":mc_tp_pdf_satpop", TU + ":_tp_cdf_kern", TO + ":mc_tpeak_singlecen", TO + ":mc_tpeak_cens"]


def sigm(x, x0, k, lo, hi):
    return add(lo, mul(sub(hi, lo), sig(mul(num(k), sub(x, x0)))))


def cen_x0(p, lgm, tobs):
    a = sigm(lgm, p("cen_tp_lgm_x0_x0"), 1, p("cen_tp_x0_ylo_early"), p("cen_tp_x0_yhi_early"))
    b = sigm(lgm, p("cen_tp_lgm_x0_x0"), 1, p("cen_tp_x0_ylo_late"), p("cen_tp_x0_yhi_late"))
    return sigm(tobs, p("cen_tp_t_obs_x0_x0"), 2, a, b)


def sat_loc_scale(p, lgm, tobs):
    l = sigm(tobs, p("utp_loc_lgm_ylo_t0"), Fr(2, 5), p("utp_loc_lgm_ylo_early"), p("utp_loc_lgm_ylo_late"))
    loc = sigm(lgm, p("utp_loc_lgm_x0"), Fr(3, 2), l, num(Fr(95, 100)))
    s = sigm(tobs, p("utp_scale_lgm_ylo_t0"), 1, p("utp_scale_lgm_ylo_early"), p("utp_scale_lgm_ylo_late"))
    return loc, sigm(lgm, num(12), 1, s, num(Fr(16, 100)))


def tncdf(x, loc, scale):
    return uf("tncdf", [div(sub(x, loc), scale), div(sub(num(Fr(1, 10)), loc), scale), div(sub(ONE, loc), scale)])


def inb(m):
    out = []
    for k, (lo, hi) in c05.load(m)[4].items():
        out += [le(tm.from_float(lo), var("p." + k)), le(var("p." + k), tm.from_float(hi))]
    return out


def support(R, what, fn, term, hyps, unit, lo, hi, cdf=None, key=None):
    """range, monotonicity in the draw, inversion of the declared distribution"""
    its = il.find_interps(term)
    if len(its) != 1:
        raise Unsupported(f"{what}: {len(its)} table inversions")
    it_ = its[0]
    u = it_.args[0]
    if key is not None:
        R.prove(f"{what}: the inverted variable is one uniform draw on [0,1)", fn, [], eq(u, key))
    facts = il.obligations(R, what, fn, it_, hyps, cdf=cdf)
    v = var("val")
    # outside the inverted table only: replace the inversion by its contract
    t1 = tm.subst(term, {it_: v})
    f1 = [tm.subst(f, {it_: v}) for f in facts]
    R.prove(f"{what}: at least {lo} of its unit", fn, hyps + f1 + [lt(ZERO, unit)], le(mul(num(lo), unit), t1))
    R.prove(f"{what}: at most {hi} of its unit", fn, hyps + f1 + [lt(ZERO, unit)], le(t1, mul(num(hi), unit)))
    w = var("val2")
    R.prove(f"{what}: nondecreasing in the inverted draw", fn, hyps + [lt(ZERO, unit), le(v, w)], le(t1, tm.subst(t1, {v: w})))


def obligations(R):
    p = lambda k: var("p." + k)
    lgm, tobs, t0 = var("lgm"), var("tobs"), var("t0")
    U = lambda k, *i: uf("U", [k, *i])
    M, S, O = pl.mod(TC), pl.mod(TS), pl.mod(TO)
    h = inb(TC)
    n, = jx.dims("n", ["n>=1"])
    e = lambda a, i="h": tm.elem(a, [I(i)])
    with R.guard("centrals"):
        R.reachable("centrals", h)
        q = TC + ":mc_tpeak_singlecen"
        tr = jx.trace(M.mc_tpeak_singlecen, (nt(M.DEFAULT_TPCENS_PARAMS), jx.spec(), jx.spec(), jx.keyspec(), jx.spec()), ["p", "lgm", "tobs", "key", "t0"])
        x0 = cen_x0(p, lgm, tobs)
        support(R, "central t_peak", q, tr.out.at(), h, t0, Fr(1, 20), 1,
                cdf=lambda x: sig(mul(num(5), sub(x, x0))), key=U(var("key", "K")))
        it_ = il.find_interps(tr.out.at())[0]
        R.prove("central positions start at 0 and end at 1", q, [],
                and_(eq(il.const_table(il.inst(it_.args[2], num(0, "I"))), ZERO), eq(il.const_table(il.inst(it_.args[2], num(il.size_of(it_.args[2]) - 1, "I"))), ONE)))
        R.prove("peak-time scale between 0.5 and 1.8", TC + ":_get_utp_x0_from_lgm", h, and_(le(num(Fr(1, 2)), x0), le(x0, num(Fr(9, 5)))))
    with R.guard("central population"):
        tp = jx.trace(M.mc_t_peak_cenpop, (nt(M.DEFAULT_TPCENS_PARAMS), jx.spec((n,)), jx.spec((n,)), jx.keyspec(), jx.spec()), ["p", "L", "T", "key", "t0"])
        kh = [s for s in tm.subterms(tp.out.at(I("h"))) if s.op == "uf" and s.val[1].startswith("split")]
        if len(set(kh)) != 1:
            raise Unsupported("keys of the population")
        t1 = jx.trace(M.mc_tpeak_singlecen, (nt(M.DEFAULT_TPCENS_PARAMS), jx.spec(), jx.spec(), jx.keyspec(), jx.spec()), ["p", "lgm", "tobs", "key", "t0"],
                      sym={"lgm": e("L"), "tobs": e("T"), "key": kh[0]})
        R.prove("halo h of the population is the single draw with its own mass, time and key", TC + ":mc_t_peak_cenpop", [], eq(tp.out.at(I("h")), t1.out.at()))
    hs = inb(TS)
    kern = kernel(R)
    with R.guard("satellites"):
        R.reachable("satellites", hs)
        q = TS + ":mc_tpeak_singlesat"
        tr = jx.trace(S.mc_tpeak_singlesat, (nt(S.DEFAULT_TP_SATS_PARAMS), jx.keyspec(), jx.spec(), jx.spec()), ["p", "key", "lgm", "tobs"])
        loc, scale = sat_loc_scale(p, lgm, tobs)
        R.prove("satellite scale positive", TS + ":_get_utp_scale", hs, lt(ZERO, scale))
        R.prove("satellite location within the kernel contract's range", TS + ":_get_utp_loc", hs, and_(lt(num(Fr(1002, 10000)), loc), lt(loc, num(Fr(9998, 10000)))))
        R.prove("satellite t_peak is t_obs times the kernel draw at the predicted location and scale", q, [],
                eq(tr.out.at(), mul(tobs, kern(loc, scale, var("key", "K")))))
    with R.guard("satellite population"):
        for nm in ("mc_tpeak_sats", "mc_utp_pdf"):
            tp = jx.trace(getattr(S, nm), (nt(S.DEFAULT_TP_SATS_PARAMS), jx.keyspec(), jx.spec((n,)), jx.spec((n,))), ["p", "key", "L", "T"])
            kh = [s for s in tm.subterms(tp.out.at(I("h"))) if s.op == "uf" and s.val[1].startswith("split")]
            if len(set(kh)) != 1:
                raise Unsupported("keys of the population")
            t1 = jx.trace(S.mc_tpeak_singlesat, (nt(S.DEFAULT_TP_SATS_PARAMS), jx.keyspec(), jx.spec(), jx.spec()), ["p", "key", "lgm", "tobs"],
                          sym={"lgm": e("L"), "tobs": e("T"), "key": kh[0]})
            want = t1.out.at() if nm == "mc_tpeak_sats" else div(t1.out.at(), e("T"))
            R.prove(f"{nm}: satellite h is the single draw with its own mass, time and key", f"{TS}:{nm}",
                    [lt(ZERO, e("T"))], eq(tp.out.at(I("h")), want))
    with R.guard("centrals, truncated-normal variant"):
        q = TO + ":mc_tpeak_singlecen"
        tr = jx.trace(O.mc_tpeak_singlecen, (nt(O.DEFAULT_TPCENS_PARAMS), jx.keyspec(), jx.spec(), jx.spec(), jx.spec()), ["p", "key", "lgm", "tobs", "t0"])
        ho = inb(TO)
        s0 = sigm(lgm, num(Fr(25, 2)), 2, p("tpck_scale_mh_lo"), p("tpck_scale_mh_hi"))
        sc = add(s0, sigm(tobs, div(t0, num(2)), 1, p("tpck_scale_boost_early"), ZERO))
        R.prove("scale positive", q, ho, lt(ZERO, sc))
        R.prove("central t_peak (truncated normal) is t_0 times the kernel draw at the predicted scale", q, [],
                eq(tr.out.at(), mul(t0, kern(num(Fr(95, 100)), sc, var("key", "K")))))


def kernel(R):
    """Contract of mc_tp_pdf_singlesat(key, (loc, scale)): discharged on its own body, used by every caller."""
    K = pl.mod(TU)
    q = TU + ":mc_tp_pdf_singlesat"
    tr = jx.trace(K.mc_tp_pdf_singlesat, (jx.keyspec(), nt(K.DEFAULT_UTP_PARAMS)), ["key", "k"])
    t = tr.out.at()
    lv, sv = var("k.utp_loc"), var("k.utp_scale")
    h = [lt(num(Fr(1002, 10000)), lv), lt(lv, num(Fr(9998, 10000))), lt(ZERO, sv)]
    with R.guard("truncated-normal kernel"):
        R.reachable("kernel", h)
        support(R, "truncated-normal draw", q, t, h, ONE, Fr(1, 10), 1, cdf=lambda x: tncdf(x, lv, sv), key=uf("U", [var("key", "K")]))
        a = [s for s in tm.subterms(t) if s.op == "uf" and s.val[1] == "tncdf"][0]
        R.prove("declared distribution is 0 at a tenth and 1 at the end of the unit", TU + ":_get_a_b_loc_scale", h,
                and_(eq(add(lv, mul(a.args[1], sv)), num(Fr(1, 10))), eq(add(lv, mul(a.args[2], sv)), ONE)))
    return lambda loc, scale, key: tm.subst(t, {lv: loc, sv: scale, var("key", "K"): key})


# ---------------------------------------------------------------- concrete
def check_cen(p, lgm, tobs, seed, t0):
    M = pl.mod(TC)
    x = M.DEFAULT_TPCENS_PARAMS._replace(**{k: float(v) for k, v in p.items()})
    msgs = []
    key = pl.key(seed)
    v = float(M.mc_tpeak_singlecen(x, lgm, tobs, key, t0))
    d = {k: float(w) for k, w in x._asdict().items()}
    if not 0.05 * t0 - 1e-9 <= v <= t0 + 1e-9:
        msgs.append(f"central t_peak={v} outside [{0.05 * t0},{t0}]")
    u = float(jran.uniform(key, ()))
    a = np_sigmoid(lgm, d["cen_tp_lgm_x0_x0"], 1, d["cen_tp_x0_ylo_early"], d["cen_tp_x0_yhi_early"])
    b = np_sigmoid(lgm, d["cen_tp_lgm_x0_x0"], 1, d["cen_tp_x0_ylo_late"], d["cen_tp_x0_yhi_late"])
    x0 = np_sigmoid(tobs, d["cen_tp_t_obs_x0_x0"], 2, a, b)
    F = lambda y: np_sigmoid(y, x0, 5, 0, 1)
    # inversion: F(t_peak/t0) = u inside the table, clipped outside
    w = v / t0
    if F(0.05) < u < F(1.0):
        if abs(F(w) - u) > 2e-4:
            msgs.append(f"central t_peak/t0={w}: distribution value {F(w)} but the draw was {u}")
    elif u <= F(0.05) and abs(w - 0.05) > 5e-3:
        msgs.append(f"low draw {u} gives {w}")
    elif u >= F(1.0) and abs(w - 1) > 1e-6:
        msgs.append(f"high draw {u} gives {w}, expected 1")
    pop = np.asarray(M.mc_t_peak_cenpop(x, jnp.full(40, lgm), jnp.full(40, tobs), key, t0))
    if pop.min() < 0.05 * t0 - 1e-9 or pop.max() > t0 + 1e-9:
        msgs.append(f"population t_peak in [{pop.min()},{pop.max()}]")
    keys = jran.split(key, 40)
    uu = np.array([float(jran.uniform(k, ())) for k in keys])
    o = np.argsort(uu)
    if np.any(np.diff(pop[o]) < -1e-12):
        msgs.append("central t_peak decreases where the uniform draw increases")
    return msgs


def check_sat(p, lgm, tobs, seed):
    S = pl.mod(TS)
    from scipy.stats import truncnorm as tn
    x = S.DEFAULT_TP_SATS_PARAMS._replace(**{k: float(v) for k, v in p.items()})
    d = {k: float(w) for k, w in x._asdict().items()}
    key = pl.key(seed)
    v = float(S.mc_tpeak_singlesat(x, key, lgm, tobs))
    msgs = []
    if not 0.1 * tobs - 1e-9 <= v <= tobs + 1e-9:
        msgs.append(f"satellite t_peak={v} outside [{0.1 * tobs},{tobs}]")
    l = np_sigmoid(tobs, d["utp_loc_lgm_ylo_t0"], 0.4, d["utp_loc_lgm_ylo_early"], d["utp_loc_lgm_ylo_late"])
    loc = np_sigmoid(lgm, d["utp_loc_lgm_x0"], 1.5, l, 0.95)
    s = np_sigmoid(tobs, d["utp_scale_lgm_ylo_t0"], 1.0, d["utp_scale_lgm_ylo_early"], d["utp_scale_lgm_ylo_late"])
    sc = np_sigmoid(lgm, 12.0, 1.0, s, 0.16)
    F = lambda y: tn.cdf(y, (0.1 - loc) / sc, (1 - loc) / sc, loc, sc)
    u = float(jran.uniform(key, ()))
    w = v / tobs
    if 0.001 < u < 0.999 and abs(F(w) - u) > 0.02:
        msgs.append(f"satellite t_peak/t_obs={w}: distribution value {F(w)} but the draw was {u}")
    pop = np.asarray(S.mc_tpeak_sats(x, key, jnp.full(40, lgm), jnp.full(40, tobs)))
    if pop.min() < 0.1 * tobs - 1e-9 or pop.max() > tobs + 1e-9:
        msgs.append(f"satellite population t_peak in [{pop.min()},{pop.max()}]")
    uu = np.array([float(jran.uniform(k, ())) for k in jran.split(key, 40)])
    o = np.argsort(uu)
    if np.any(np.diff(pop[o]) < -1e-9):
        msgs.append("satellite t_peak decreases where the uniform draw increases")
    return msgs


def _gen(m, rng):
    out = {}
    for k, (lo, hi) in c05.load(m)[4].items():
        out[k] = float(lo + rng.choice([rng.uniform(0.001, 0.999), 1e-6, 1 - 1e-6]) * (hi - lo))
    return out


def gen_cen(rng, N):
    for k in range(N):
        yield dict(p=_gen(TC, rng), lgm=float(rng.uniform(9, 16)), tobs=float(rng.uniform(0.5, 14) if k % 4 != 3 else 10 ** rng.uniform(-2, 1.4)), seed=int(rng.integers(0, 2**31)), t0=float(rng.uniform(10, 14)))


def gen_sat(rng, N):
    for k in range(N):
        yield dict(p=_gen(TS, rng), lgm=float(rng.uniform(9, 16)), tobs=float(rng.uniform(0.5, 14) if k % 4 != 3 else 10 ** rng.uniform(-2, 1.4)), seed=int(rng.integers(0, 2**31)))


CASES = {"cen": Case(check_cen, gen_cen, 30, 400), "sat": Case(check_sat, gen_sat, 30, 400)}
