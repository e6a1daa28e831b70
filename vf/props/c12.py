"""C12: predicted moments are the mixture mean and standard deviation."""
from fractions import Fraction as Fr
import numpy as np
import jax
import jax.numpy as jnp
from jax import random as jran
from ..lib import *
from ..check import Case
from . import poplib as pl, mahlib as ml, c10, c11
from .poplib import L, P0
from diffmah import diffmah_kernels as dk

FUNCTIONS = [f"{m}:{f}" for m, s in (("mc_bimod_cens", "cen"), ("mc_bimod_sats", "sat")) for f in
             ("predict_mah_moments_singlebin", "_mc_diffmah_halo_sample", f"_mc_diffmah_single{s}")] + ["diffmah_kernels:mah_singlehalo"]
J = I("j")


def realisation_key(ts):
    """Key of one realisation as a function of its bound index: the common split node over the sampled index."""
    out = set()
    for d in c11.draws(tm._mk("tup", tuple(ts), (), "A")):
        for s in tm.subterms(d.key):
            if s.op == "uf" and s.val[1].startswith("split") and s.args[-1] in d.ranges:
                v = s.args[-1]
                out.add((tm.subst(s, {v: I("r")}), str(d.ranges[v])))
    if len(out) != 1:
        raise Unsupported(f"{len(out)} realisation keys")
    return out.pop()


def histories(K, kh, j=J):
    """Mass histories of the early and late realisation with key kh (term in r) and the predicted fraction."""
    s = K.tr_single(False, sym={"key": kh})
    m, = jx.dims("m", ["m>=1"])
    out = []
    for o in s.out[:2]:
        th = jx.trace(dk.mah_singlehalo, (nt(dk.DEFAULT_MAH_PARAMS), jx.spec((m,)), jx.spec()), ["m", "t", "lgt0"],
                      sym={"m." + k: v for k, v in fields(o).items()})
        out.append(th.out[1].at(j))
    return out


def abstract(t, Le, Ll, fn=None):
    """Replace the code's own early/late history of a realisation by a function symbol, after showing it equals the
    history of that realisation (semantic match, so the spelling of the code does not matter)."""
    from .. import prove as pv
    cand = []
    for x in tm.subterms(t):
        vs = [v for v in tm.subterms(x) if v.op == "var" and v.sort == "I" and str(v.val).startswith("$s")]
        if x.sort == "R" and len(vs) == 1 and tm.depth(x) <= 1 and elem("t", [J]) in set(tm.subterms(x)):
            cand.append((x, vs[0]))
    keys = lambda y: set(k.args[0] for k in tm.subterms(y) if k.op == "uf" and k.val[1] == "N")
    m, done = {}, set()
    for exact in (True, False):
        for x, v in cand:
            for nm, spec_ in (("E", Le), ("Lt", Ll)):
                s = tm.subst(spec_, {I("r"): v})
                if x in m or (nm, v) in done and not exact or keys(x) != keys(s):
                    continue
                if x is s or not exact and x.op == "ite" and pv.prove([], eq(x, s)).ok:
                    m[x] = elem(nm, [v])
                    done.add((nm, v))
    # substitute outermost first: subst is top-down on the mapping
    n = len(m)
    t = tm.subst(t, m)
    # a history inside a larger sum (history minus mean) has been flattened into it
    while True:
        m = {}
        for x in tm.subterms(t):
            if x.op != "add":
                continue
            vs = [v for v in tm.subterms(x) if v.op == "var" and v.sort == "I" and str(v.val).startswith("$s")]
            for v in vs:
                for nm, spec_ in (("E", Le), ("Lt", Ll)):
                    s = tm.subst(spec_, {I("r"): v})
                    if x not in m and s.op == "add" and s is not x and set(s.args) <= set(x.args):
                        rest = list(x.args)
                        for a in s.args:
                            rest.remove(a)
                        m[x] = add(elem(nm, [v]), *rest)
        if not m:
            return recanon(t), n
        n += len(m)
        t = tm.subst(t, m)


def spec(Le, Ll, f, n, r=I("r")):
    w = num(Fr(1, n))
    S = lambda body: tm.summ(r, n, body)
    mean = S(mul(w, add(mul(f, Le), mul(sub(ONE, f), Ll))))
    var_ = S(mul(w, add(mul(f, tm.ipow(sub(Le, mean), 2)), mul(sub(ONE, f), tm.ipow(sub(Ll, mean), 2)))))
    return mean, var_


def obligations(R):
    for kind in ("cen", "sat"):
        with R.guard(kind):
            K = pl.Kind(kind)
            q = K.moments_q
            tr, m = K.tr_moments()
            mean, std = tr.out[0].at(J), tr.out[1].at(J)
            kh, n = realisation_key([mean])
            n = int(n)
            R.fact(f"{kind}: 200 realisations", q, n == 200, "key terms", str(n))
            Le, Ll = histories(K, kh)
            f = c10.frac_spec(None)
            sm, sv = spec(Le, Ll, f, n)
            mean, k1 = abstract(mean, Le, Ll)
            std, k2 = abstract(std, Le, Ll)
            R.fact(f"{kind}: histories entering the moments are those of the realisations", q, True, "semantic match", f"{k1} and {k2} occurrences")
            if k1 and k2:
                Le, Ll = elem("E", [I("r")]), elem("Lt", [I("r")])
                sm, sv = spec(Le, Ll, f, n)
            R.prove(f"{kind}: mean is the average over realisations of f*early+(1-f)*late", q, [], eq(mean, sm))
            R.prove(f"{kind}: scatter is the square root of the weighted mean square deviation from that mean", q, [], eq(std, tm.sqrt(sv)))
            p = {k: var("p." + k) for k in P0._fields}
            h = pl.bounds_hyps(p, strict=False)
            R.prove(f"{kind}: weights are non-negative", q, h, and_(le(ZERO, f), le(f, ONE)))
            e = elem("E", [I("r")])
            l = elem("Lt", [I("r")])
            _, v = spec(e, l, var("f"), n)
            bodies = [x for x in tm.subterms(v) if x.op == "sum" and tm.depth(x) == 2]
            mu = [x for x in tm.subterms(v) if x.op == "sum" and tm.depth(x) == 1]
            for b in bodies:
                body = tm.subst(b.args[-1], {x: var(f"mu{k}") for k, x in enumerate(mu)})
                R.prove(f"{kind}: every term of the scatter's sum is non-negative, hence so is the sum (sum_nonneg')", q,
                        [le(ZERO, var("f")), le(var("f"), ONE)], le(ZERO, body))
            one, _ = spec(ONE, ONE, f, n)
            R.prove(f"{kind}: weights sum to one", q, [], eq(one, ONE))


# ---------------------------------------------------------------- concrete
def sample(K, x, t, lgm, tobs, key):
    keys = jran.split(key, 200)
    e, l, f = jax.vmap(K.single, in_axes=(None, None, None, 0, None))(x, lgm, tobs, keys, pl.LGT0)
    H = [np.array([ml.np_logmah(np.array([np.asarray(v)[h] for v in o]), t, pl.LGT0) for h in range(200)]) for o in (e, l)]
    return H[0], H[1], float(np.asarray(f)[0])


def same_keys(K, x, t, lgm, tobs, key):
    from .. import keyrec as kr
    try:
        a = kr.record(lambda q, k: K.moments(q, jnp.array(t), lgm, tobs, k, pl.LGT0), x, key)
        b = kr.record(lambda q, k: jax.vmap(K.single, in_axes=(None, None, None, 0, None))(q, lgm, tobs, jran.split(k, 200), pl.LGT0)[:2], x, key)
    except Unsupported:
        return False
    return {d[:2] for d in a.draws} == {d[:2] for d in b.draws}


def check_moments(kind, p, lgm, tobs, t, seed):
    K = pl.Kind(kind)
    x = pl.np_params(p)
    t = np.array(t)
    mean, std, _ = [np.asarray(v) for v in K.moments(x, jnp.array(t), lgm, tobs, pl.key(seed), pl.LGT0)]
    msgs = []
    if not (np.all(np.isfinite(mean)) and np.all(std >= 0)):
        return [f"mean {mean}, scatter {std}"]
    E, Lt, f = sample(K, x, t, lgm, tobs, pl.key(seed))
    f = float(L.fec._frac_early_cens_kern(x, lgm, tobs))
    mu = f * E.mean(0) + (1 - f) * Lt.mean(0)
    va = f * ((E - mu) ** 2).mean(0) + (1 - f) * ((Lt - mu) ** 2).mean(0)
    # where the program consumes exactly the keys of these realisations the comparison is exact, otherwise within sampling error
    if same_keys(K, x, t, lgm, tobs, pl.key(seed)):
        t1 = t2 = 1e-6 * (1 + np.abs(mu))
        t2 = np.maximum(t2, 1e-5 * np.sqrt(va))
    else:
        t1 = np.sqrt(va / 200) * 8 + 1e-6
        t2 = 8 * np.sqrt(va / 400) * np.sqrt(3) + 1e-6
    if not np.all(np.abs(mean - mu) <= t1):
        msgs.append(f"mean {mean} but the mixture mean is {mu} (f={f})")
    if not np.all(np.abs(std - np.sqrt(va)) <= t2):
        msgs.append(f"scatter {std} but the mixture scatter is {np.sqrt(va)} (f={f})")
    return msgs


def gen(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng, 40), lgm=float(rng.uniform(11.5, 14.5)), tobs=float(rng.uniform(3, 13.5)),
                   t=np.sort(rng.uniform(0.5, 13, 5)), seed=int(rng.integers(0, 2**31)))


CASES = {"moments": Case(check_moments, c11._f(gen), 6, 60)}
