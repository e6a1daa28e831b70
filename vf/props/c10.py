"""C10: Monte Carlo populations are self-consistent halo by halo."""
from fractions import Fraction as Fr
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from . import poplib as pl, mahlib as ml
from .poplib import L, P0
from diffmah import diffmah_kernels as dk
from diffmah.diffmahpop_kernels import param_utils as pu

FUNCTIONS = [f"mc_bimod_{k}:{f}" for k, s in (("cens", "cen"), ("sats", "sat")) for f in
             (f"mc_diffmah_params_single{s}", f"mc_{s}pop", f"mc_diffmah_{s}pop", f"_mc_diffmah_single{s}", "_mean_diffmah_params",
              "_mean_diffmah_params_t_peak")] + ["diffmah_kernels:mah_singlehalo", "diffmah_kernels:get_bounded_mah_params",
                                                 "diffmah_kernels:get_unbounded_mah_params", "diffmahpop_kernels.param_utils:mc_select_diffmah_params"]
ASSUMPTIONS = ["supplied peak times lie inside the declared t_peak bounds (0.05, 20) Gyr",
               "the predicted mean log-mass of both types lies inside its physical bounds (0,17) (elsewhere the unconstrained mean is undefined)",
               "jax.random.multivariate_normal is used through its traced body: mean + chol(cov) @ normal"]
H, J = I("h"), I("j")


def uniform_atoms(t):
    """Comparisons of one uniform draw with something."""
    isu = lambda x: x.op == "uf" and x.val[1] == "U"
    return sorted(set(s for s in tm.subterms(t) if s.op in ("lt", "le") and (isu(s.args[0]) or isu(s.args[1]))), key=str)


def halo_keys(t):
    ks = set(s for s in tm.subterms(t) if s.op == "uf" and s.val[1].startswith("split") and s.args[-1] is H)
    if len(ks) != 1:
        raise Unsupported(f"{len(ks)} per-halo keys")
    return ks.pop()


def own(R, what, fn, t, arrays):
    """halo h reads only element h of the input arrays"""
    other = {s: var("alt." + str(s), s.sort) for s in tm.subterms(t) if s.op == "elem" and s.val[1] in arrays and s.args[0] is not H}
    R.prove(f"{what}: depends only on its own inputs and the key", fn, [], eqb(t, tm.subst(t, other)))


def eqb(a, b):
    return iff(a, b) if a.sort == "B" else eq(a, b)


def single_spec(K, tp, kh=None, idx=True):
    """The single-halo realisation with halo h's own inputs and key."""
    sym = None
    if idx:
        sym = {"lgm": elem("lgm", [H]), "tobs": elem("tobs", [H]), "key": kh}
        if tp:
            sym["tpk"] = elem("tpk", [H])
    return K.tr_single(tp, sym=sym)


def frac_spec(sym):
    return jx.trace(L.fec._frac_early_cens_kern, (nt(L.fec.DEFAULT_FEC_PARAMS), jx.spec(), jx.spec()), ["p", "lgm", "tobs"], sym=sym).out.at()


def single(R, K, tp):
    """Contract of the single realisation."""
    q = K.single_q
    w = f"single {K.k} t_peak={'given' if tp else 'drawn'}"
    tr = K.tr_single(tp)
    mfn = K.m._mean_diffmah_params_t_peak if tp else K.m._mean_diffmah_params
    hyp = []
    if tp:
        tpk = var("tpk")
        hyp = [lt(num(ml.BOUNDS["t_peak"][0]), tpk), lt(tpk, num(ml.BOUNDS["t_peak"][1]))]
        R.reachable(w, hyp)
    lead = []
    for br, o in (("early", tr.out[0]), ("late", tr.out[1])):
        p = fields(o)
        for k in ml.NAMES:
            lo, hi = [num(x) for x in ml.BOUNDS[k]]
            R.prove(f"{w}: {br} {k} strictly inside its physical bounds", q, [], and_(lt(lo, p[k]), lt(p[k], hi)))
        R.prove(f"{w}: {br} realisation has early index above late index", q, [], lt(p["late_index"], p["early_index"]))
        if tp:
            R.prove(f"{w}: {br} peak time is the supplied one", q, hyp, eq(p["t_peak"], tpk))
        # Gaussian scatter about the predicted mean, in unconstrained space
        ns = set(s.args[0] for k in ml.NAMES for s in tm.subterms(p[k]) if s.op == "uf" and s.val[1] == "N")
        if len(ns) != 1:
            raise Unsupported("keys of the normal draw")
        kk = ns.pop()
        lead.append(kk)
        mk = [s for s in tm.subterms(p["t_peak"]) if s.op == "uf" and s.val[1] == "U"]
        a = (nt(P0), jx.spec(), jx.spec()) + ((jx.spec(), jx.keyspec()) if tp else (jx.keyspec(), jx.spec()))
        tmean = jx.trace(mfn, a, ["p", "lgm", "tobs"] + (["tpk", "key"] if tp else ["key", "lgt0"]))
        m = fields(tmean.out[0 if br == "early" else 1])
        if not tp:
            km = [s for s in tm.subterms(m["t_peak"]) if s.op == "uf" and s.val[1] == "U"]
            if len(set(mk)) != 1 or len(set(km)) != 1:
                raise Unsupported("peak-time draw")
            m = {k: tm.subst(v, {km[0]: mk[0]}) for k, v in m.items()}
        tu = jx.trace(dk.get_unbounded_mah_params, (nt(dk.DEFAULT_MAH_PARAMS),), ["m"], sym={"m." + k: v for k, v in m.items()})
        mu = [getattr(tu.out, "u_" + k).at() for k in ml.NAMES]
        cov = jx.trace(L.cov._get_diffmahpop_cov, (nt(L.cov.DEFAULT_COV_PARAMS), jx.spec()), ["p", "lgm"]).out
        cmat = tm._mk("tup", [mul(num(Fr(1, 2)), add(cov.at(i, j), cov.at(j, i))) for i in range(4) for j in range(4)], ("4", "4"), "A")
        z = [uf("N", [kk, num(j, "I")]) for j in range(4)]
        uu = [add(mu[i], *[mul(uf("chol", [cmat, num(i, "I"), num(j, "I")]), z[j]) for j in range(i + 1)]) for i in range(4)] + [mu[4]]
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"], sym={"u.u_" + k: v for k, v in zip(ml.NAMES, uu)})
        for k in ml.NAMES:
            R.prove(f"{w}: {br} {k} is the predicted mean plus Gaussian scatter of the predicted covariance", q, [], eq(p[k], getattr(tb.out, k).at()))
    if not tp:
        R.prove(f"{w}: both realisations share one peak-time draw", q, [], eq(*[next(s for s in tm.subterms(o.t_peak.at()) if s.op == "uf" and s.val[1] == "U") for o in tr.out[:2]]))
    R.prove(f"{w}: the fraction is the predicted early-type fraction", q, [], eq(tr.out[2].at(), frac_spec(None)))


def select(R, what, fn, got, early, late, atom):
    c = {atom: TRUE}, {atom: FALSE}
    R.prove(f"{what}: early-type halos take the early realisation", fn, [], eq(tm.subst(got, c[0]), early))
    R.prove(f"{what}: late-type halos take the late realisation", fn, [], eq(tm.subst(got, c[1]), late))


def atom_of(ts):
    at = set(a for t in ts for a in uniform_atoms(t))
    if len(at) != 1:
        raise Unsupported(f"{len(at)} selection conditions")
    return at.pop()


def spec_cond(atom, frac):
    u = next(s for s in atom.args if s.op == "uf" and s.val[1] == "U")
    return lt(u, frac), u


def population(R, K):
    q = K.pop_q
    tr, n, m = K.tr_pop()
    w = q.split(":")[1]
    p = fields(tr.out.mah_params, H)
    atom = atom_of([p[k] for k in ("logm0", "logtc", "early_index", "late_index")])
    kh = halo_keys(tm._mk("tup", tuple(p.values()), (), "A"))
    s = single_spec(K, False, kh)
    frac = frac_spec({"lgm": elem("lgm", [H]), "tobs": elem("tobs", [H])})
    sc, u = spec_cond(atom, frac)
    # the condition that selects the early realisation: the atom or its negation
    R.prove(f"{w}: halo h is early-type exactly when its uniform draw is below its early-type fraction", q, [], iff(atom, sc))
    R.prove(f"{w}: each halo has its own uniform draw", q, [], eq(u.args[-1], H))
    e, l = fields(s.out[0]), fields(s.out[1])
    for k in ml.NAMES:
        select(R, f"{w} {k}", q, p[k], e[k], l[k], atom)
        own(R, f"{w} {k}", q, p[k], ("lgm", "tobs"))
    for c in (TRUE, FALSE):
        sym = {"p." + k: tm.subst(p[k], {atom: c}) for k in ml.NAMES}
        th = jx.trace(dk.mah_singlehalo, (nt(dk.DEFAULT_MAH_PARAMS), jx.spec((m,)), jx.spec()), ["p", "t", "lgt0"], sym=sym)
        lab = "early" if c is TRUE else "late"
        R.prove(f"{w}: accretion rate is that of the returned parameters ({lab}-type)", q, [], eq(tm.subst(tr.out.dmhdt.at(H, J), {atom: c}), th.out[0].at(J)))
        R.prove(f"{w}: mass history is that of the returned parameters ({lab}-type)", q, [], eq(tm.subst(tr.out.log_mah.at(H, J), {atom: c}), th.out[1].at(J)))
    own(R, f"{w} mass history", q, tr.out.log_mah.at(H, J), ("lgm", "tobs"))
    own(R, f"{w} accretion rate", q, tr.out.dmhdt.at(H, J), ("lgm", "tobs"))


def mcpop(R, K, tp):
    q = K.mcpop_q
    tr, n = K.tr_mcpop(tp)
    w = q.split(":")[1] + (" (t_peak given)" if tp else "")
    p, e, l = [fields(getattr(tr.out, x), H) for x in ("mah_params", "mah_params_early", "mah_params_late")]
    f, mc = [o.at(H) for o in tr.out[3:5]]
    atom = atom_of([mc])
    kh = halo_keys(tm._mk("tup", tuple(e.values()), (), "A"))
    s = single_spec(K, tp, kh)
    frac = frac_spec({"lgm": elem("lgm", [H]), "tobs": elem("tobs", [H])})
    u = next(x for x in atom.args if x.op == "uf" and x.val[1] == "U")
    R.prove(f"{w}: returned fraction is the predicted early-type fraction of halo h", q, [], eq(f, frac))
    R.prove(f"{w}: early-type flag holds exactly when the uniform draw is below the fraction", q, [], iff(mc, lt(u, frac)))
    R.prove(f"{w}: each halo has its own uniform draw", q, [], eq(u.args[-1], H))
    for k in ml.NAMES:
        R.prove(f"{w}: early {k} is halo h's single early realisation", q, [], eq(e[k], getattr(s.out[0], k).at()))
        R.prove(f"{w}: late {k} is halo h's single late realisation", q, [], eq(l[k], getattr(s.out[1], k).at()))
        R.prove(f"{w}: {k} is selected by the flag", q, [], eq(p[k], ite(mc, e[k], l[k])))
        own(R, f"{w} {k}", q, p[k], ("lgm", "tobs", "tpk"))
    own(R, f"{w} flag", q, mc, ("lgm", "tobs", "tpk"))


def obligations(R):
    for kind in ("cen", "sat"):
        with R.guard(kind):
            K = pl.Kind(kind)
        for tp in (False, True):
            with R.guard(f"{kind} single t_peak={tp}"):
                single(R, K, tp)
            with R.guard(f"{kind} mcpop t_peak={tp}"):
                mcpop(R, K, tp)
        with R.guard(f"{kind} population"):
            population(R, K)
    with R.guard("selection"):
        n, = jx.dims("n", ["n>=1"])
        h = I("h")
        D = dk.DEFAULT_MAH_PARAMS
        for nm, dt in (("boolean flags", bool), ("0/1 flags", int)):
            tr = jx.trace(pu.mc_select_diffmah_params, (nt(D, (n,)), nt(D, (n,)), jx.spec((n,), dt)), ["one", "zero", "flag"])
            fl = tr.inp["flag"].at(h)
            on = fl if fl.sort == "B" else not_(eq(fl, num(0, fl.sort)))
            R.fact(f"selection of one of two realisations returns the halo parameters by name ({nm})", "diffmahpop_kernels.param_utils:mc_select_diffmah_params",
                   tuple(tr.out._fields) == tuple(D._fields), "names", str(tr.out._fields))
            for k in D._fields:
                R.prove(f"selected {k} of halo h is that of its own flagged realisation ({nm})", "diffmahpop_kernels.param_utils:mc_select_diffmah_params", idx_hyps(h, n),
                        eq(getattr(tr.out, k).at(h), ite(on, tr.inp["one." + k].at(h), tr.inp["zero." + k].at(h))))


# ---------------------------------------------------------------- concrete
def _phys(p, what, msgs):
    v = np.array([np.asarray(x) for x in p])
    for k, nme in enumerate(ml.NAMES):
        lo, hi = [float(x) for x in ml.BOUNDS[nme]]
        if not np.all((v[k] >= lo) & (v[k] <= hi)):
            msgs.append(f"{what} {nme} outside ({lo},{hi}): {v[k]}")
    if not np.all(v[2] >= v[3]):
        msgs.append(f"{what}: early index below late index")
    return v


def check_pop(kind, p, lgm, tobs, t, seed):
    K = pl.Kind(kind)
    x = pl.np_params(p)
    lgm, tobs, t = np.array(lgm), np.array(tobs), np.array(t)
    k = pl.key(seed)
    o = K.pop(x, jnp.array(t), jnp.array(lgm), jnp.array(tobs), k, pl.LGT0)
    msgs = []
    v = _phys(o.mah_params, K.pop_q, msgs)
    for h in range(len(lgm)):
        if not close(o.log_mah[h], ml.np_logmah(v[:, h], t, pl.LGT0), 1e-6, 1e-8):
            msgs.append(f"halo {h}: mass history is not that of its returned parameters; {worst(o.log_mah[h], ml.np_logmah(v[:, h], t, pl.LGT0))}")
        r = ml.np_rate(v[:, h], t, pl.LGT0)
        ok = np.abs(t - v[4, h]) > 1e-9
        if not close(np.asarray(o.dmhdt[h])[ok], r[ok], 1e-5, 1e-12):
            msgs.append(f"halo {h}: accretion rate is not that of its returned parameters; {worst(np.asarray(o.dmhdt[h])[ok], r[ok])}")
    if len(lgm) > 1:
        g = lgm.copy(); g[-1] += 0.7
        s = tobs.copy(); s[-1] *= 0.9
        o2 = K.pop(x, jnp.array(t), jnp.array(g), jnp.array(s), k, pl.LGT0)
        v2 = np.array([np.asarray(a) for a in o2.mah_params])
        if not close(v2[:, :-1], v[:, :-1], 1e-12, 1e-12) or not close(o2.log_mah[:-1], o.log_mah[:-1], 1e-12, 1e-12):
            msgs.append("changing the last halo's inputs changed another halo")
    return msgs[:6]


def check_mcpop(kind, p, lgm, tobs, tpk, seed):
    K = pl.Kind(kind)
    x = pl.np_params(p)
    lgm, tobs = jnp.array(lgm), jnp.array(tobs)
    a = (x, lgm, tobs, pl.key(seed), pl.LGT0) + ((jnp.array(tpk),) if tpk is not None else ())
    o = K.mcpop(*a)
    msgs = []
    e, l, g = [_phys(y, w, msgs) for y, w in ((o.mah_params_early, "early"), (o.mah_params_late, "late"), (o.mah_params, "selected"))]
    mc = np.asarray(o.mc_early if hasattr(o, "mc_early") else o[4])
    frac = np.asarray(o[3])
    for h in range(len(mc)):
        want = e[:, h] if mc[h] else l[:, h]
        if not np.array_equal(g[:, h], want):
            msgs.append(f"halo {h} (early={bool(mc[h])}): parameters {g[:, h]} are not its realisation {want}")
        if tpk is not None and not close([e[4, h], l[4, h], g[4, h]], [tpk[h]] * 3, 1e-6, 1e-6):
            msgs.append(f"halo {h}: peak times {e[4, h]},{l[4, h]},{g[4, h]} but {tpk[h]} was supplied")
        f = float(L.fec._frac_early_cens_kern(x, lgm[h], tobs[h]))
        if not close(frac[h], f):
            msgs.append(f"halo {h}: fraction {frac[h]} expected {f}")
    return msgs[:6]


def check_frac(kind, p, lgm, tobs, n, seed):
    K = pl.Kind(kind)
    x = pl.np_params(p)
    o = K.mcpop(x, jnp.full(n, lgm), jnp.full(n, tobs), pl.key(seed), pl.LGT0)
    f = float(L.fec._frac_early_cens_kern(x, lgm, tobs))
    got = float(np.mean(np.asarray(o[4])))
    tol = 6 * np.sqrt(max(f * (1 - f), 1e-3) / n)
    if abs(got - f) > tol:
        return [f"{got} of {n} halos are early-type, the predicted fraction is {f}"]
    return []


FEC = ["fec_lgm_ylo_early", "fec_lgm_ylo_late", "fec_lgm_yhi_early", "fec_lgm_yhi_late"]


def check_mixed(kind, p, lo, tobs, lgm, n, seed):
    """Two groups of halos whose early-type fractions differ: each halo follows its own fraction and its own inputs."""
    K = pl.Kind(kind)
    x = pl.np_params(p)
    x = x._replace(**dict(zip(FEC, [lo, lo, 1 - lo, 1 - lo])), fec_lgm_x0=float(np.mean(lgm)))
    h = n // 2
    g, s = np.repeat(lgm, [h, n - h]), np.repeat(tobs, [h, n - h])
    k = pl.key(seed)
    msgs = []
    o = K.mcpop(x, jnp.array(g), jnp.array(s), k, pl.LGT0)
    mc = np.asarray(o[4])
    for lab, sl, a, b in (("lighter", slice(0, h), lgm[0], tobs[0]), ("heavier", slice(h, n), lgm[1], tobs[1])):
        f = float(L.fec._frac_early_cens_kern(x, a, b))
        if abs(mc[sl].mean() - f) > 6 * np.sqrt(f * (1 - f) / h):
            msgs.append(f"{mc[sl].mean()} of the {h} {lab} halos are early-type, their predicted fraction is {f}")
    g2, s2 = g.copy(), s.copy()
    g2[h:], s2[h:] = lgm[0], tobs[0]
    o2 = K.mcpop(x, jnp.array(g2), jnp.array(s2), k, pl.LGT0)
    t = jnp.array([0.5 * min(tobs), 13.0])
    q, q2 = [K.pop(x, t, jnp.array(a), jnp.array(b), k, pl.LGT0) for a, b in ((g, s), (g2, s2))]
    for nm, a, b in (("mass history", q.log_mah, q2.log_mah), ("history parameter logm0", q.mah_params.logm0, q2.mah_params.logm0),
                     ("type", mc, o2[4]), ("drawn logm0", o.mah_params.logm0, o2.mah_params.logm0)):
        a, b = np.asarray(a, float)[:h], np.asarray(b, float)[:h]
        bad = np.flatnonzero(~np.isclose(a, b, rtol=1e-9, atol=1e-9).reshape(h, -1).all(1))
        if len(bad):
            msgs.append(f"changing the other half of the population changed the {nm} of {len(bad)} halos, first {bad[0]}")
    return msgs


def gen_mixed(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng, 12), lo=[0.26, 0.74][k // 2 % 2],
                   tobs=rng.uniform(4, 13.5, 2), lgm=[float(rng.uniform(11, 12)), float(rng.uniform(13.5, 14.5))], n=2000, seed=int(rng.integers(0, 2**31)))


def mean_ok(kind, p, lgm, tobs, tpk=None):
    """Precondition: the predicted mean log-mass of both types lies inside its physical bounds for every peak time."""
    K = pl.Kind(kind)
    x = pl.np_params(p)
    lgm, tobs = np.atleast_1d(lgm), np.atleast_1d(tobs)
    grid = np.linspace(0.01, 1, 12) * 13.9
    for g, s in zip(lgm, tobs):
        for t in (grid if tpk is None else np.atleast_1d(tpk)):
            for o in K.m._mean_diffmah_params_t_peak(x, float(g), float(s), float(t), pl.key(0))[:2]:
                if not 0.05 < float(o.logm0) < 16.95:
                    return False
    return True


def filtered(gen, rng, N):
    k = tries = 0
    for a in gen(rng, 20 * N):
        if k >= N:
            return
        if mean_ok(a["kind"], a["p"], a["lgm"], a["tobs"], a.get("tpk")):
            k += 1
            yield a


def gen_pop(rng, N):
    for k in range(N):
        n = [1, 2, 5][k % 3]
        d = pl.draws(rng, n)
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng), t=np.sort(rng.uniform(0.3, 13.8, 7)), seed=int(rng.integers(0, 2**31)), **d)


def gen_mcpop(rng, N):
    for k in range(N):
        n = [1, 4, 9][k % 3]
        d = pl.draws(rng, n)
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng), tpk=None if k % 4 < 2 else rng.uniform(0.5, 13.5 if k % 4 == 2 else 19.5, n).tolist(),
                   seed=int(rng.integers(0, 2**31)), **d)


def gen_frac(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng, 20), lgm=float(rng.uniform(11, 15)), tobs=float(rng.uniform(1, 13.5)), n=3000,
                   seed=int(rng.integers(0, 2**31)))


def check_select(a, b, flag, ints):
    a, b, flag = np.array(a), np.array(b), np.array(flag, dtype=int if ints else bool)
    D = dk.DEFAULT_MAH_PARAMS
    got = pu.mc_select_diffmah_params(D._make(jnp.array(a)), D._make(jnp.array(b)), jnp.array(flag))
    want = np.where(flag == 1, a, b)
    return [] if np.array_equal(np.array(got), want) else [f"selection {np.array(got).tolist()} instead of {want.tolist()}"]


def gen_select(rng, N):
    for k in range(N):
        n = int(rng.integers(1, 6))
        yield dict(a=rng.uniform(0, 10, (5, n)).tolist(), b=rng.uniform(0, 10, (5, n)).tolist(), flag=rng.integers(0, 2, n).tolist(), ints=bool(k % 2))


CASES = {"select": Case(check_select, gen_select, 6, 30), "pop": Case(check_pop, lambda rng, N: filtered(gen_pop, rng, N), 12, 120), "mcpop": Case(check_mcpop, lambda rng, N: filtered(gen_mcpop, rng, N), 12, 120), "mixed": Case(check_mixed, lambda rng, N: filtered(gen_mixed, rng, N), 4, 40), "fraction": Case(check_frac, lambda rng, N: filtered(gen_frac, rng, N), 4, 20)}
