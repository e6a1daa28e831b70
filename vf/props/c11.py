"""C11: no random key is used for two different draws."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax import random as jran
from ..lib import *
from ..check import Case, Undecided
from . import poplib as pl, mahlib as ml, c10
from .poplib import L, P0
from diffmah import diffmah_kernels as dk

TK = "t_peak_kernels."
FUNCTIONS = [f"mc_bimod_{k}:{f}" for k, s in (("cens", "cen"), ("sats", "sat")) for f in
             (f"mc_diffmah_params_single{s}", f"mc_{s}pop", f"mc_diffmah_{s}pop", "predict_mah_moments_singlebin", "_mc_diffmah_halo_sample",
              "_mean_diffmah_params", "_mean_diffmah_params_t_peak")] + [
    "bimod_cens_fithelp:loss_mah_moments_multibin", "bimod_sats_fithelp:loss_mah_moments_multibin",
    "bimod_censat_fithelp:loss_mah_moments_multibin_censat", TK + "tp_pdf_cens_flex:mc_t_peak_cenpop", TK + "tp_pdf_sats:mc_tpeak_sats",
    TK + "tp_pdf_sats:mc_utp_pdf", TK + "tp_pdf_cens:mc_tpeak_cens", TK + "utp_pdf_kernels:mc_tp_pdf_satpop"]
ASSUMPTIONS = ["keys derived by splitting along different paths (different parents or different positions) are different; "
               "two splits of one key into different numbers of children are NOT assumed to give different keys"]


class Draw:
    """One consuming application: kind U/N, key term, element index terms, ranges of the index variables."""

    def __init__(self, kind, key, idx, ranges):
        self.kind, self.key, self.idx, self.ranges = kind, key, idx, ranges

    def pattern(self):
        m = {v: var(f"#{k}", "I") for k, v in enumerate(self.ranges)}
        return self.kind, str(tm.subst(self.key, m))


def lift_dim(d):
    if isinstance(d, tm.T):
        return d
    return num(int(str(d)), "I") if str(d).isdigit() else var("#" + str(d), "I")


def draws(t, env=None, seen=None, out=None):
    """All consuming applications in t with the ranges of the index variables bound around them."""
    if out is None:
        out, seen = [], set()
    env = env or {}
    stack = [t]
    while stack:
        x = stack.pop()
        k = (x.uid, tuple(sorted((v.uid, str(d)) for v, d in env.items())))
        if k in seen:
            continue
        seen.add(k)
        if x.op in ("sum", "prod", "max", "min", "lam", "all", "any", "argmax", "argmin") or (x.val and x.op != "num" and x.args and x.args[0].op == "var" and str(x.args[0].val).startswith("$")):
            dims = x.val if isinstance(x.val, tuple) else (x.val,)
            e2 = dict(env)
            nb = len(x.args) - 1
            for v, d in zip(x.args[:nb], dims):
                e2[v] = jx.dim_term(d) if jx.is_sym_dim(d) else lift_dim(d)
            draws(x.args[-1], e2, seen, out)
            continue
        if x.op == "uf" and x.val[1] in ("U", "N"):
            kv = [v for v in tm.subterms(x) if v.op == "var" and v.sort == "I" and v in env]
            out.append(Draw(x.val[1], x.args[0], x.args[1:], {v: env[v] for v in kv}))
        stack.extend(x.args)
    return out


def unify(a, b):
    """Ways in which the key terms a and b can be the same key: list of conjunctions of index equations; []: never."""
    if a is b:
        return [[]]
    if a.op == "ite" and a.sort == "K":
        return [[a.args[0]] + w for w in unify(a.args[1], b)] + [[not_(a.args[0])] + w for w in unify(a.args[2], b)]
    if b.op == "ite" and b.sort == "K":
        return unify(b, a)
    if a.sort != "K" or b.sort != "K":
        return [[eq(a, b)]] if a.sort == b.sort else []
    if a.op == "var" or b.op == "var":
        return []
    if a.op != "uf" or b.op != "uf":
        raise Unsupported("key expression " + a.op)
    sa, sb = a.val[1].startswith("split"), b.val[1].startswith("split")
    if sa and sb and a.val[1] != b.val[1]:
        return unify(a.args[0], b.args[0])       # splits of one key into different numbers: not assumed different
    if a.val[1] != b.val[1] or len(a.args) != len(b.args):
        return []
    out = [[]]
    for x, y in zip(a.args, b.args):
        out = [o + w for o in out for w in unify(x, y)]
    return out


def primed(d):
    m = {v: var(str(v.val) + "'", "I") for v in d.ranges}
    return Draw(d.kind, tm.subst(d.key, m), [tm.subst(i, m) for i in d.idx], {m[v]: r for v, r in d.ranges.items()}), m


def rng_hyps(d):
    return [h for v, n in d.ranges.items() for h in (le(num(0, "I"), v), lt(v, n))]


def discipline(R, what, fn, term, counts, free=None):
    """counts: number of different keys per role {'N': scatter, 'P': peak time, 'S': selection}."""
    term = term if not isinstance(term, (list, tuple)) else tm._mk("tup", tuple(term), (), "A")
    ds = draws(term, free)
    peak = set()
    for s in tm.subterms(term):
        if s.op == "uf" and s.val[1] == "interp":
            peak |= {x.args[0] for x in tm.subterms(s.args[0]) if x.op == "uf" and x.val[1] == "U"}
    roles = {}
    for d in ds:
        role = "N" if d.kind == "N" else ("P" if d.key in peak else "S")
        roles.setdefault((role, d.pattern()), d)
    got = {r: sum(1 for k in roles if k[0] == r) for r in "NPS"}
    R.fact(f"{what}: number of separately keyed draws (scatter {counts['N']}, peak time {counts['P']}, type selection {counts['S']})", fn,
           all(got[r] == counts.get(r, 0) for r in "NPS"), "key terms", str(got))
    items = list(roles.items())
    for (ka, da), (kb, db) in itertools.combinations_with_replacement(items, 2):
        p, m = primed(db)
        u = unify(da.key, p.key)
        lab = f"{what}: key of {ka[0]}:{ka[1][1][:60]} vs {kb[0]}:{kb[1][1][:60]}"
        h = rng_hyps(da) + rng_hyps(p)
        if da is db:
            if not u or not da.ranges:
                continue
            same = [eq(v, m[v]) for v in da.ranges]
            if ka[0] == "S":
                u = [w + [eq(i, j) for i, j in zip(da.idx, p.idx)] for w in u]
            for k, w in enumerate(u):
                R.prove(f"{lab}: different halos, realisations and bins have different keys" + f" ({k})" * (len(u) > 1), fn, h + w, and_(*same))
        elif not u:
            R.fact(f"{lab}: never the same key", fn, True, "key terms")
        else:
            for k, w in enumerate(u):
                R.prove(f"{lab}: never the same key" + f" ({k})" * (len(u) > 1), fn, h + w, tm.FALSE)
    # consumed keys are never split, and no key is split twice in different ways
    parents = {}
    for d in ds:
        for s in tm.subterms(d.key):
            if s.op == "uf" and s.sort == "K":
                parents.setdefault(s.args[0], set()).add(s.val[1])
    R.fact(f"{what}: no key is split in two different ways", fn, all(len(v) == 1 for v in parents.values()), "key terms",
           str({str(k): sorted(v) for k, v in parents.items() if len(v) > 1})[:300])
    env = {}
    for d in ds:
        env.update(d.ranges)
    for (ka, da) in items:
        for par in parents:
            vs = [v for v in tm.subterms(par) if v.op == "var" and v.sort == "I" and v in env]
            p, m = primed(Draw("", par, [], {v: env[v] for v in vs}))
            u = unify(da.key, p.key)
            for k, w in enumerate(u):
                R.prove(f"{what}: consumed key {ka[1][1][:80]} is not split" + f" ({k})" * (len(u) > 1), fn, rng_hyps(da) + rng_hyps(p) + w, tm.FALSE)
    return roles


def keysof(ts, kind):
    return set(s.args[0] for t in ts for s in tm.subterms(t) if s.op == "uf" and s.val[1] == kind)


def obligations(R):
    H, J = c10.H, c10.J
    for kind in ("cen", "sat"):
        with R.guard(kind):
            K = pl.Kind(kind)
        for tp in (False, True):
            w = " (t_peak given)" if tp else ""
            with R.guard(f"{kind} single{w}"):
                tr = K.tr_single(tp)
                e, l = [list(fields(o).values()) for o in tr.out[:2]]
                discipline(R, K.single_q.split(":")[1] + w, K.single_q, e + l, dict(N=2, P=0 if tp else 1, S=0))
                ke, kl = keysof(e, "N"), keysof(l, "N")
                R.fact(f"{kind}{w}: early and late realisations have separate scatter keys", K.single_q, len(ke) == len(kl) == 1 and not ke & kl, "key terms")
                tr2 = K.tr_single(tp)
                R.fact(f"{kind}{w}: result is a function of inputs and key (same program on every trace)", K.single_q,
                       all(a is b for a, b in zip(e + l, [x for o in tr2.out[:2] for x in fields(o).values()])), "key terms")
            with R.guard(f"{kind} mcpop{w}"):
                tr, n = K.tr_mcpop(tp)
                ts = [o.at(H) for o in jax.tree.leaves(tr.out, is_leaf=lambda x: isinstance(x, SymArr))]
                discipline(R, K.mcpop_q.split(":")[1] + w, K.mcpop_q, ts, dict(N=2, P=0 if tp else 1, S=1), {H: jx.dim_term(n)})
        with R.guard(f"{kind} population"):
            tr, n, m = K.tr_pop()
            ts = list(fields(tr.out.mah_params, H).values()) + [tr.out.log_mah.at(H, J), tr.out.dmhdt.at(H, J)]
            discipline(R, K.pop_q.split(":")[1], K.pop_q, ts, dict(N=2, P=1, S=1), {H: jx.dim_term(n)})
        with R.guard(f"{kind} moments"):
            tr, m = K.tr_moments()
            discipline(R, kind + " moments", K.moments_q, [tr.out[0].at(J), tr.out[1].at(J)], dict(N=2, P=1, S=0))
        with R.guard(f"{kind} loss"):
            tr, b, m = K.tr_loss()
            discipline(R, kind + " loss", f"{K.fq}:loss_mah_moments_multibin", tr.out.at(), dict(N=2, P=1, S=0))
    with R.guard("censat loss"):
        b, c, m = jx.dims("b,c,m", ["b>=1", "c>=1", "m>=1"])
        A = lambda b: [jx.spec((b, m)), jx.spec((b,)), jx.spec((b,))]
        T_ = lambda b: [jx.spec((b, m))] * 3
        tr = jx.trace(L.fcs.loss_mah_moments_multibin_censat, (nt(P0), *A(b), *A(c), jx.keyspec(), jx.spec(), *T_(b), *T_(c)),
                      ["p", "tc", "lgmc", "tobsc", "ts", "lgms", "tobss", "key", "lgt0", "mc", "sc", "fc", "ms", "ss", "fs"])
        discipline(R, "censat loss", "bimod_censat_fithelp:loss_mah_moments_multibin_censat", tr.out.at(), dict(N=4, P=2, S=0))
    n, = jx.dims("n", ["n>=1"])
    C, S, O, U = [pl.mod(TK + x) for x in ("tp_pdf_cens_flex", "tp_pdf_sats", "tp_pdf_cens", "utp_pdf_kernels")]
    for nm, fn, a in ((TK + "tp_pdf_cens_flex:mc_t_peak_cenpop", C.mc_t_peak_cenpop, (nt(C.DEFAULT_TPCENS_PARAMS), jx.spec((n,)), jx.spec((n,)), jx.keyspec(), jx.spec())),
                      (TK + "tp_pdf_sats:mc_tpeak_sats", S.mc_tpeak_sats, (nt(S.DEFAULT_TP_SATS_PARAMS), jx.keyspec(), jx.spec((n,)), jx.spec((n,)))),
                      (TK + "tp_pdf_sats:mc_utp_pdf", S.mc_utp_pdf, (nt(S.DEFAULT_TP_SATS_PARAMS), jx.keyspec(), jx.spec((n,)), jx.spec((n,)))),
                      (TK + "tp_pdf_cens:mc_tpeak_cens", O.mc_tpeak_cens, (nt(O.DEFAULT_TPCENS_PARAMS), jx.keyspec(), jx.spec((n,)), jx.spec((n,)), jx.spec()))):
        with R.guard(nm):
            tr = jx.trace(fn, a)
            discipline(R, nm.split(":")[1], nm, tr.out.at(H), dict(N=0, P=1, S=0), {H: jx.dim_term(n)})


# ---------------------------------------------------------------- concrete
def corr(a, b):
    return abs(float(np.corrcoef(a, b)[0, 1]))


def check_single(kind, p, lgm, tobs, tpk, seed, n):
    """Early scatter, late scatter and peak time are uncorrelated over keys."""
    K = pl.Kind(kind)
    x = pl.np_params(p)
    keys = jran.split(pl.key(seed), n)
    a = (None, None, None, 0, None) + ((None,) if tpk is not None else ())
    e, l, f = jax.vmap(K.single, in_axes=a)(x, lgm, tobs, keys, pl.LGT0, *([tpk] if tpk is not None else []))
    g = [np.array([np.asarray(v) for v in dk.get_unbounded_mah_params(o)]) for o in (e, l)]
    names = [f"early {k}" for k in ml.NAMES[:4]] + [f"late {k}" for k in ml.NAMES[:4]]
    V = [g[0][k] for k in range(4)] + [g[1][k] for k in range(4)]
    lim = 6 / np.sqrt(n)
    msgs = []
    if not np.all(np.isfinite(V)):
        return ["non-finite realisations"]
    if tpk is None:
        # the mean depends on the peak time: remove it by binning on the peak time
        tpv = np.asarray(e.t_peak)
        order = np.argsort(tpv)
    for i in range(4):
        for j in range(4, 8):
            if tpk is not None and corr(V[i], V[j]) > lim:
                msgs.append(f"{names[i]} and {names[j]} have correlation {corr(V[i], V[j]):.3f} over {n} keys")
    if tpk is None:
        # residual about the predicted mean at the drawn peak time
        mm = jax.vmap(lambda t: K.m._mean_diffmah_params_t_peak(x, lgm, tobs, t, pl.key(0))[:2])(e.t_peak)
        r = [np.array([np.asarray(v) for v in dk.get_unbounded_mah_params(o)]) for o in mm]
        Z = [g[0][k] - r[0][k] for k in range(4)] + [g[1][k] - r[1][k] for k in range(4)]
        tr = np.argsort(np.argsort(tpv)) / n
        for i in range(8):
            if corr(Z[i], tr) > lim:
                msgs.append(f"scatter of {names[i]} and the peak time have correlation {corr(Z[i], tr):.3f} over {n} keys")
        for i in range(4):
            for j in range(4, 8):
                if corr(Z[i], Z[j]) > lim:
                    msgs.append(f"scatter of {names[i]} and {names[j]} have correlation {corr(Z[i], Z[j]):.3f} over {n} keys")
    return msgs[:4]


def check_pop(kind, p, lgm, tobs, n, seed):
    """Halos of one population with equal inputs are different draws; type selection is independent of scatter and peak time."""
    K = pl.Kind(kind)
    x = pl.np_params(p)
    o = K.mcpop(x, jnp.full(n, lgm), jnp.full(n, tobs), pl.key(seed), pl.LGT0)
    msgs = []
    mc = np.asarray(o.mc_early).astype(float)
    for lab, pp in (("early", o.mah_params_early), ("late", o.mah_params_late)):
        v = np.array([np.asarray(q) for q in pp])
        if len(np.unique(np.round(v[0], 9))) < 0.99 * n:
            msgs.append(f"{lab} realisations repeat: {len(np.unique(np.round(v[0], 9)))} different among {n} halos")
        for k in range(5):
            r = np.argsort(np.argsort(v[k])) / n
            if 20 < mc.sum() < n - 20 and np.ptp(v[k]) > 0 and corr(r, mc) > 6 / np.sqrt(n):
                msgs.append(f"{lab} {ml.NAMES[k]} and the type flag have correlation {corr(r, mc):.3f}")
        z = v[0][:-1], v[0][1:]
        if corr(*z) > 6 / np.sqrt(n):
            msgs.append(f"{lab} logm0 of neighbouring halos have correlation {corr(*z):.3f}")
    return msgs[:4]


def check_bins(p, lgm, tobs, seed):
    """Bins with equal inputs use different keys; centrals' and satellites' losses of the combined loss use different keys."""
    x = pl.np_params(p)
    t = np.linspace(0.5, tobs, 6)
    msgs = []
    for kind in ("cen", "sat"):
        K = pl.Kind(kind)
        one = [np.asarray(v) for v in K.moments(x, jnp.array(t), lgm, tobs, pl.key(seed), pl.LGT0)]
        f = K.fit.loss_mah_moments_multibin
        big = lambda b: (jnp.array(np.tile(t, (b, 1))), jnp.full(b, lgm), jnp.full(b, tobs), pl.key(seed), pl.LGT0)
        tg = lambda b: [jnp.array(np.tile(v, (b, 1))) for v in one]
        l2 = float(f(x, *big(2), *tg(2)))
        k = getattr(K.fit, "_loss_mah_moments_multibin_kern", None)
        if k is not None:
            b = np.asarray(k(x, *big(3), *tg(3)))
            if len(np.unique(b)) < 3:
                msgs.append(f"{kind}: bins with equal inputs give equal losses {b}: they share random draws")
    return msgs


def check_keys(p, lgm, tobs, seed, n, b, c, tpk):
    """The keys consumed by the real programs, by value: one per halo, realisation, branch and bin, never shared."""
    from .. import keyrec as kr
    x, key = pl.np_params(p), pl.key(seed)
    msgs = []

    def expect(what, fn, N, U):
        try:
            r = kr.record(fn, x, key)
        except Unsupported as e:
            raise Undecided(str(e))
        msgs.extend(f"{what}: {m}" for m in kr.faults(r))
        got = kr.distinct(r, "N"), kr.distinct(r, "U")
        if (N, U) != (None, None) and got != (N, U):
            msgs.append(f"{what}: {got[0]} different keys for scatter and {got[1]} for peak times and selection, expected {N} and {U}")
        return got
    t = jnp.linspace(0.5, tobs, 4)
    z = lambda k: jnp.ones((k, 4))
    full = lambda k: (jnp.tile(t, (k, 1)), jnp.full(k, lgm), jnp.full(k, tobs))
    tot = np.zeros(2, int)
    for kind, nb in (("cen", b), ("sat", c)):
        K = pl.Kind(kind)
        expect(f"{kind} single", lambda q, k: K.single(q, lgm, tobs, k, pl.LGT0), 2, 1)
        expect(f"{kind} single, peak time given", lambda q, k: K.single(q, lgm, tobs, k, pl.LGT0, tpk), 2, 0)
        expect(f"{kind} population of {n}", lambda q, k: K.mcpop(q, jnp.full(n, lgm), jnp.full(n, tobs), k, pl.LGT0), 2 * n, n + 1)
        expect(f"{kind} histories of {n}", lambda q, k: K.pop(q, t, jnp.full(n, lgm), jnp.full(n, tobs), k, pl.LGT0), 2 * n, n + 1)
        expect(f"{kind} population of {n}, peak times given",
               lambda q, k: K.mcpop(q, jnp.full(n, lgm), jnp.full(n, tobs), k, pl.LGT0, jnp.full(n, tpk)), 2 * n, 1)
        s = jax.tree.leaves(K.m._mc_diffmah_halo_sample(x, t, lgm, tobs, key, pl.LGT0))
        m = max(v.shape[0] for v in s if v.ndim)
        expect(f"{kind} sample of {m}", lambda q, k: K.m._mc_diffmah_halo_sample(q, t, lgm, tobs, k, pl.LGT0), 2 * m, m)
        expect(f"{kind} moments", lambda q, k: K.moments(q, t, lgm, tobs, k, pl.LGT0), 2 * m, m)
        tot += expect(f"{kind} loss of {nb} bins", lambda q, k: K.fit.loss_mah_moments_multibin(q, *full(nb), k, pl.LGT0, z(nb), z(nb), z(nb)), 2 * m * nb, m * nb)
    expect(f"loss of {b} central and {c} satellite bins", lambda q, k: L.fcs.loss_mah_moments_multibin_censat(
        q, *full(b), *full(c), k, pl.LGT0, z(b), z(b), z(b), z(c), z(c), z(c)), int(tot[0]), int(tot[1]))
    return msgs[:6]


def gen_keys(rng, N):
    sizes = [(1, 1, 1), (2, 2, 1), (3, 1, 2), (7, 3, 3)]
    for k in range(N):
        n, b, c = sizes[k % 4] if k < 4 else map(int, rng.integers(1, 9, 3))
        yield dict(p=pl.gen_pop_params(rng, 15), lgm=float(rng.uniform(11.5, 14)), tobs=float(rng.uniform(6, 13.5)),
                   seed=int(rng.integers(0, 2**31)), n=n, b=b, c=c, tpk=float(rng.uniform(3, 5)))


def gen_single(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng, 15), lgm=float(rng.uniform(11.5, 14)), tobs=float(rng.uniform(6, 13.5)),
                   tpk=None if k % 4 < 2 else float(rng.uniform(3, 12)), seed=int(rng.integers(0, 2**31)), n=1500)


def gen_pop(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], p=pl.gen_pop_params(rng, 15), lgm=float(rng.uniform(11.5, 14)), tobs=float(rng.uniform(6, 13.5)),
                   seed=int(rng.integers(0, 2**31)), n=1500)


def gen_bins(rng, N):
    for k in range(N):
        yield dict(p=pl.gen_pop_params(rng, 15), lgm=float(rng.uniform(11.5, 14)), tobs=float(rng.uniform(6, 13.5)), seed=int(rng.integers(0, 2**31)))


def _f(g):
    def gen(rng, N):
        k = 0
        for a in g(rng, 20 * N):
            if k < N and all(c10.mean_ok(kk, a["p"], a["lgm"], a["tobs"], a.get("tpk")) for kk in ([a["kind"]] if "kind" in a else ["cen", "sat"])):
                k += 1
                yield a
    return gen


CASES = {"keys": Case(check_keys, gen_keys, 4, 60), "single": Case(check_single, _f(gen_single), 6, 60), "population": Case(check_pop, _f(gen_pop), 4, 60), "bins": Case(check_bins, _f(gen_bins), 2, 20)}
