"""C05: population parameter transforms are bijections onto the declared bounds."""
import importlib
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from ..prove import definedness

POP = "diffmah.diffmahpop_kernels."
# (module, bounded map, unbounded map, default params, default u params, declared bounds)
_C0 = ("get_bounded_c0_params", "get_unbounded_c0_params", "DEFAULT_LGM0POP_C0_PARAMS", "DEFAULT_LGM0POP_C0_U_PARAMS", "LGM0POP_C0_BOUNDS")
_C1 = ("get_bounded_c1_params", "get_unbounded_c1_params", "DEFAULT_LGM0POP_C1_PARAMS", "DEFAULT_LGM0POP_C1_U_PARAMS", "LGM0POP_C1_BOUNDS")
_M0 = ("get_bounded_m0pop_params", "get_unbounded_m0pop_params", "DEFAULT_LOGM0POP_PARAMS", "DEFAULT_LOGM0POP_U_PARAMS", "LGM0POP_BOUNDS")
_EI = ("get_bounded_early_index_params", "get_unbounded_early_index_params", "DEFAULT_EARLY_INDEX_PARAMS", "DEFAULT_EARLY_INDEX_U_PARAMS", "EARLY_INDEX_PBOUNDS")
_LI = ("get_bounded_late_index_params", "get_unbounded_late_index_params", "DEFAULT_LATE_INDEX_PARAMS", "DEFAULT_LATE_INDEX_U_PARAMS", "LATE_INDEX_PBOUNDS")
_TC = ("get_bounded_logtc_params", "get_unbounded_logtc_params", "DEFAULT_LOGTC_PARAMS", "DEFAULT_LOGTC_U_PARAMS", "LOGTC_PBOUNDS")
_TP = ("get_bounded_tp_cens_params", "get_unbounded_tp_cens_params", "DEFAULT_TPCENS_PARAMS", "DEFAULT_TPCENS_U_PARAMS", "TPCENS_PBOUNDS")
TABLE = [(d + "." + m,) + names for d in ("bimod_logm0_kernels", "bimod_logm0_sats") for m, names in
         (("logm0_c0_early", _C0), ("logm0_c0_late", _C0), ("logm0_c1_early", _C1), ("logm0_c1_late", _C1),
          ("logm0_pop_early", _M0), ("logm0_pop_late", _M0))]
TABLE += [("bimod_logm0_kernels.logm0_pop_bimod",) + _M0, ("bimod_logm0_sats.logm0_pop_bimod_sats",) + _M0]
TABLE += [(m,) + _EI for m in ("early_index_alpha", "early_index_beta", "early_index_pop", "early_index_bimod")]
TABLE += [(m,) + _LI for m in ("late_index_alpha", "late_index_beta", "late_index_bimod")]
TABLE += [(m,) + _TC for m in ("logtc_early", "logtc_late", "logtc_bimod")]
TABLE += [("t_peak_kernels.tp_pdf_cens",) + _TP, ("t_peak_kernels.tp_pdf_cens_flex",) + _TP]
TABLE += [("t_peak_kernels.tp_pdf_sats", "get_bounded_tp_sat_params", "get_unbounded_tp_sat_params", "DEFAULT_TP_SATS_PARAMS",
           "DEFAULT_TP_SATS_U_PARAMS", "TP_SATS_BOUNDS"),
          ("t_peak_kernels.utp_pdf_kernels", "get_bounded_utp_params", "get_unbounded_utp_params", "DEFAULT_UTP_PARAMS",
           "DEFAULT_UTP_U_PARAMS", "UTP_PBOUNDS"),
          ("frac_early_cens", "get_bounded_fec_params", "get_unbounded_fec_params", "DEFAULT_FEC_PARAMS", "DEFAULT_FEC_U_PARAMS", "FEC_PBOUNDS"),
          ("ftpt0_cens", "get_bounded_ftpt0_params", "get_unbounded_ftpt0_params", "DEFAULT_FTPT0_PARAMS", "DEFAULT_FTPT0_U_PARAMS", "FTPT0_PBOUNDS"),
          ("covariance_kernels", "get_bounded_cov_params", "get_unbounded_cov_params", "DEFAULT_COV_PARAMS", "DEFAULT_COV_U_PARAMS", "COV_PBOUNDS"),
          ("bimod_censat_params", "get_diffmahpop_params_from_u_params", "get_diffmahpop_u_params_from_params",
           "DEFAULT_DIFFMAHPOP_PARAMS", "DEFAULT_DIFFMAHPOP_U_PARAMS", None)]
PARTS = ["t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats", "bimod_logm0_kernels.logm0_pop_bimod",
         "bimod_logm0_sats.logm0_pop_bimod_sats", "logtc_bimod", "early_index_bimod", "late_index_bimod",
         "frac_early_cens", "covariance_kernels"]
BY_MODULE = {r[0]: r for r in TABLE}
FUNCTIONS = [r[0] + ":" + r[k] for r in TABLE for k in (1, 2)]


def load(mod):
    """-> (bounded, unbounded, default params, default u params, {name: (lo, hi)} declared)"""
    row = BY_MODULE[mod]
    M = importlib.import_module(POP + mod)
    if row[5] is not None:
        d = getattr(M, row[5])
        decl = {k: (float(v[0]), float(v[1])) for k, v in zip(d._fields, d)}
    else:
        decl = {}
        for p in PARTS:
            decl.update(load(p)[4])
    return getattr(M, row[1]), getattr(M, row[2]), getattr(M, row[3]), getattr(M, row[4]), decl


def obligations(R):
    for row in TABLE:
        mod = row[0]
        qb, qu = mod + ":" + row[1], mod + ":" + row[2]
        with R.guard(mod):
            bnd, unb, P, U, decl = load(mod)
            R.fact(f"{mod}: unconstrained names are u_<name>, same order", qb, tuple(U._fields) == tuple("u_" + k for k in P._fields), "names")
            R.fact(f"{mod}: every name has declared bounds lo<hi", qb,
                   all(k in decl and decl[k][0] < decl[k][1] for k in P._fields), "names")
        with R.guard(mod + " bounded"):
            tb = jx.trace(bnd, (nt(U),), ["u"])
            b = fields(tb.out)
            R.fact(f"{mod}: bounded map returns the declared names", qb, tuple(tb.out._fields) == tuple(P._fields), "names", str(tb.out._fields))
            u = {k: v.at() for k, v in tb.inp.items()}
            fresh = {k: var("other_" + k) for k in u}
            for k in P._fields:
                own = u["u.u_" + k]
                lo, hi = [tm.from_float(x) for x in decl[k]]
                R.prove(f"{k} strictly inside its bounds", qb, [], and_(lt(lo, b[k]), lt(b[k], hi)),
                        witness=lambda m, mod=mod, k=k: ("roundtrip", dict(mod=mod, u={k: m.get("u.u_" + k, 0.0)}, step=1.0)))
                for pc, g in definedness(b[k]):
                    R.prove(f"{k} defined", qb, [pc], g)
                R.prove(f"{k} does not depend on any u_ other than u_{k}", qb, [],
                        eq(b[k], tm.subst(b[k], {v: fresh[n] for n, v in u.items() if n != "u.u_" + k})))
                v2 = var("own2")
                R.prove(f"{k} strictly increasing in u_{k}", qb, [lt(own, v2)], lt(b[k], tm.subst(b[k], {own: v2})))
        with R.guard(mod + " unbounded o bounded"):
            tu = jx.trace(unb, (nt(P),), ["p"], sym={"p." + k: v for k, v in b.items()})
            for k in P._fields:
                R.prove(f"unbounded(bounded(u)).u_{k} = u_{k}", qu, [], eq(getattr(tu.out, "u_" + k).at(), u["u.u_" + k]))
        with R.guard(mod + " bounded o unbounded"):
            tu = jx.trace(unb, (nt(P),), ["p"])
            p = {k: tu.inp["p." + k].at() for k in P._fields}
            w = {"u.u_" + k: getattr(tu.out, "u_" + k).at() for k in P._fields}
            tb = jx.trace(bnd, (nt(U),), ["u"], sym=w)
            adm = {k: [lt(tm.from_float(decl[k][0]), p[k]), lt(p[k], tm.from_float(decl[k][1]))] for k in P._fields}
            R.reachable(mod, sum(adm.values(), []))
            for k in P._fields:
                for pc, g in definedness(w["u.u_" + k]):
                    R.prove(f"u_{k}: division and log defined for in-bounds {k}", qu, adm[k] + [pc], g)
                R.prove(f"bounded(unbounded(p)).{k} = {k}", qb, adm[k], eq(getattr(tb.out, k).at(), p[k]))


def check_roundtrip(mod, u, step):
    """u: name -> unconstrained value (missing names: default)."""
    bnd, unb, P, U, decl = load(mod)
    full = {k[2:]: float(v) for k, v in U._asdict().items()}
    full.update({k: float(v) for k, v in u.items() if k in full})
    mk = lambda d: U._make([float(d[k]) for k in P._fields])
    x = mk(full)
    b = bnd(x)._asdict()
    msgs = []
    if tuple(b) != tuple(P._fields):
        return [f"bounded map of {mod} returns {tuple(b)}"]
    for k in P._fields:
        lo, hi = decl[k]
        v = float(b[k])
        if not lo < v < hi:
            msgs.append(f"{mod}: {k}={v} outside its declared bounds ({lo},{hi}) at u_{k}={full[k]}")
        e = np_sigmoid(full[k], 0.5 * (lo + hi), 0.1, lo, hi)
    back = unb(P._make([b[k] for k in P._fields]))._asdict()
    for k in P._fields:
        tol = 1e-6 * (1 + abs(full[k])) + 1e-14 * np.exp(0.1 * abs(full[k] - 0.5 * sum(decl[k]))) * 1e2
        if not abs(float(back["u_" + k]) - full[k]) < tol:
            msgs.append(f"{mod}: u_{k}={full[k]} comes back as {float(back['u_' + k])}")
    b2 = bnd(U._make([back["u_" + k] for k in P._fields]))._asdict()
    for k in P._fields:
        if not close(b2[k], b[k], 1e-8, 1e-9):
            msgs.append(f"{mod}: {k}={float(b[k])} comes back as {float(b2[k])}")
    for k in P._fields[: 4 if len(P._fields) > 20 else None] + (tuple(u)[:3] if u else ()):
        if k not in full:
            continue
        d2 = dict(full)
        d2[k] += step
        b3 = bnd(mk(d2))._asdict()
        if not float(b3[k]) > float(b[k]):
            msgs.append(f"{mod}: {k} does not increase with u_{k}")
        for j in P._fields:
            if j != k and float(b3[j]) != float(b[j]):
                msgs.append(f"{mod}: {j} changes with u_{k}")
    return msgs[:6]


def gen_roundtrip(rng, N):
    for k in range(N):
        mod = TABLE[k % len(TABLE)][0]
        _, _, P, _, decl = load(mod)
        names = list(P._fields) if k % 2 else list(rng.permutation(P._fields)[:6])
        s = [3.0, 30.0, 80.0][k % 3]
        yield dict(mod=mod, u={n: float(0.5 * sum(decl[n]) + np.clip(rng.normal(0, s), -150, 150)) for n in names}, step=float(rng.uniform(0.5, 4)))


def check_inverse(mod, p):
    """p: in-bounds values by name: bounded(unbounded(p)) = p, name by name."""
    bnd, unb, P, U, decl = load(mod)
    x = P._make([float(p[k]) for k in P._fields])
    u = unb(x)
    if tuple(u._fields) != tuple(U._fields):
        return [f"unbounded map of {mod} returns {u._fields}"]
    b = bnd(u)._asdict()
    return [f"{mod}: {k}={float(p[k])} comes back as {float(b[k])}" for k in P._fields if not close(b[k], p[k], 1e-9, 1e-9)][:6]


def gen_inverse(rng, N):
    for k in range(N):
        mod = TABLE[k % len(TABLE)][0]
        _, _, P, _, decl = load(mod)
        f = lambda: [rng.uniform(0.01, 0.99), rng.uniform(0.0001, 0.001), 1 - rng.uniform(0.0001, 0.001)][rng.integers(0, 3) if k % 3 == 0 else 0]
        yield dict(mod=mod, p={n: float(decl[n][0] + f() * (decl[n][1] - decl[n][0])) for n in P._fields})


CASES = {"roundtrip": Case(check_roundtrip, gen_roundtrip, len(TABLE) * 2, len(TABLE) * 30),
         "inverse": Case(check_inverse, gen_inverse, len(TABLE) * 2, len(TABLE) * 30)}
