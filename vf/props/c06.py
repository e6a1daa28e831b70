"""C06: population parameters reach exactly the model component that declares them."""
from collections import namedtuple
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from . import poplib as pl
from .poplib import L, P0, U0

FUNCTIONS = ["bimod_censat_params:" + f for f in (
    "get_component_model_params", "get_component_model_u_params", "_get_all_diffmahpop_params_from_varied",
    "get_varied_params_by_exclusion", "get_diffmahpop_params_from_u_params", "get_diffmahpop_u_params_from_params")] + [
    f"{m}:{f}" for m in ("mc_bimod_cens", "mc_bimod_sats") for f in
    ("_mean_diffmah_params_early", "_mean_diffmah_params_late", "_mean_diffmah_params_early_t_peak",
     "_mean_diffmah_params_late_t_peak", "predict_mah_moments_singlebin")] + [
    "early_index_bimod:_pred_early_index_early", "early_index_bimod:_pred_early_index_late",
    "late_index_bimod:_pred_late_index_early", "late_index_bimod:_pred_late_index_late",
    "logm0_pop_bimod:_pred_logm0_kern_early", "logm0_pop_bimod:_pred_logm0_kern_late"]
ASSUMPTIONS = ["subset replacement is proved for every single name, every complement of a single name, every component "
               "group and the full set (named tuples are static structure for the tracer); other subsets: bounded cases"]


def subsets():
    names = list(P0._fields)
    yield from ([k] for k in names)
    yield from ([j for j in names if j != k] for k in names[::5])
    yield from (list(f) for f in pl.part_fields())
    yield names
    yield list(reversed(names))


def obligations(R):
    bp = L.bp
    q = "bimod_censat_params:get_component_model_params"
    pf = pl.part_fields()
    with R.guard("names"):
        flat = sum((list(f) for f in pf), [])
        R.fact("component names are pairwise distinct and are exactly the names of the full set", q,
               len(flat) == len(set(flat)) and set(flat) == set(P0._fields) and len(P0._fields) == len(set(P0._fields)), "names")
        R.fact("unconstrained full set names are u_<name>", q, set(U0._fields) == {"u_" + k for k in P0._fields}, "names")
    for fn, ex, pre, nm, types in ((bp.get_component_model_params, P0, "p", "get_component_model_params", pl.TYPES),
                                   (bp.get_component_model_u_params, U0, "u", "get_component_model_u_params", pl.UTYPES)):
        with R.guard(nm):
            tr = jx.trace(fn, (nt(ex),), [pre])
            qq = "bimod_censat_params:" + nm
            R.fact("one tuple per component, in the published order", qq, len(tr.out) == len(pl.PARTS), "names")
            for c, m, t in zip(tr.out, pl.PARTS, types):
                want = getattr(pl.mod(m), t)._fields
                R.fact(f"{m}: component has exactly its declared names", qq, tuple(c._fields) == tuple(want), "names")
                for k in want:
                    R.prove(f"{m}: {k} receives the value called {k}", qq, [], eq(getattr(c, k).at(), var(f"{pre}.{k}")))
    with R.guard("_get_all_diffmahpop_params_from_varied"):
        f = bp._get_all_diffmahpop_params_from_varied
        for s in subsets():
            V = namedtuple("V", s)
            tr = jx.trace(f, (V(*[jx.spec()] * len(s)), nt(P0)), ["v", "d"])
            ok = all(getattr(tr.out, k).at() is (var("v." + k) if k in s else var("d." + k)) for k in P0._fields)
            R.fact(f"replacing {len(s)} names ({s[0]}..) changes exactly those", "bimod_censat_params:_get_all_diffmahpop_params_from_varied",
                   ok and tuple(tr.out._fields) == tuple(P0._fields), "syntactic identity of extracted terms")
        tr = jx.trace(lambda v: f(v), (namedtuple("V", ["rho_late_early"])(jx.spec()),), ["v"])
        R.fact("unnamed parameters take the published defaults when no base set is given", "bimod_censat_params:_get_all_diffmahpop_params_from_varied",
               all(getattr(tr.out, k).at() is (var("v." + k) if k == "rho_late_early" else tm.from_float(float(getattr(P0, k)))) for k in P0._fields))
    early_only, late_only = pl.group("early_only"), pl.group("late_only")
    for kind in ("cen", "sat"):
        with R.guard(kind):
            K = pl.Kind(kind)
        other = "satellite-only" if kind == "cen" else "central-only"

        def independent(nm, fn, o, names, what):
            for path, l in pl.leaves_with_names(o):
                t = pl.at_generic(l)
                R.prove(f"{nm} {path}: does not respond to {what} parameters", fn, [], eq(t, pl.changed_by(t, names)) if t.sort != "B" else iff(t, pl.changed_by(t, names)))
        for tp in (False, True):
            with R.guard(f"{kind} single realisation t_peak={tp}"):
                tr = K.tr_single(tp)
                independent(f"single t_peak={tp}", K.single_q, tr.out, K.foreign, other)
                independent(f"early branch t_peak={tp}", K.single_q, tr.out[0], late_only, "late-branch-only")
                independent(f"late branch t_peak={tp}", K.single_q, tr.out[1], early_only, "early-branch-only")
                independent(f"early-type fraction t_peak={tp}", K.single_q, tr.out[2], [k for k in P0._fields if not k.startswith("fec_")], "other components'")
            with R.guard(f"{kind} population t_peak={tp}"):
                tr, n = K.tr_mcpop(tp)
                independent(f"mc_diffmah_{kind}pop t_peak={tp}", K.mcpop_q, tr.out, K.foreign, other)
                independent(f"mc_diffmah_{kind}pop early t_peak={tp}", K.mcpop_q, tr.out.mah_params_early, late_only, "late-branch-only")
                independent(f"mc_diffmah_{kind}pop late t_peak={tp}", K.mcpop_q, tr.out.mah_params_late, early_only, "early-branch-only")
        with R.guard(f"mc_{kind}pop"):
            tr, n, m = K.tr_pop()
            independent(f"mc_{kind}pop", K.pop_q, tr.out, K.foreign, other)
        with R.guard(f"{kind} moments"):
            tr, m = K.tr_moments()
            independent("moments", K.moments_q, tr.out, K.foreign, other)
        with R.guard(f"{kind} loss"):
            tr, b, m = K.tr_loss()
            independent("loss", f"{K.fq}:loss_mah_moments_multibin", tr.out, K.foreign, other)
        with R.guard(f"{kind} mean parameters"):
            mean_route(R, K)


def mean_route(R, K):
    """Every mean parameter is its own component's prediction applied to that component's own named values."""
    lg = pl.mod("bimod_logm0_kernels.logm0_pop_bimod" if K.k == "cen" else "bimod_logm0_sats.logm0_pop_bimod_sats")
    for tp in (False, True):
        fn = K.m._mean_diffmah_params_t_peak if tp else K.m._mean_diffmah_params
        a = (nt(P0), jx.spec(), jx.spec()) + ((jx.spec(), jx.keyspec()) if tp else (jx.keyspec(), jx.spec()))
        tr = jx.trace(fn, a, ["p", "lgm", "tobs"] + (["tpk", "key"] if tp else ["key", "lgt0"]))
        q = f"{K.q}:" + fn.__name__
        for br, out in (("early", tr.out[0]), ("late", tr.out[1])):
            tpk = out.t_peak.at()
            sym = {"tpk": tpk}
            for k, kern, part, targ in (
                    ("logm0", getattr(lg, f"_pred_logm0_kern_{br}"), lg.DEFAULT_LOGM0POP_PARAMS, True),
                    ("logtc", pl.mod("logtc_" + br)._pred_logtc_kern, pl.mod("logtc_bimod").DEFAULT_LOGTC_PARAMS, True),
                    ("early_index", getattr(pl.mod("early_index_bimod"), f"_pred_early_index_{br}"), pl.mod("early_index_bimod").DEFAULT_EARLY_INDEX_PARAMS, True),
                    ("late_index", getattr(pl.mod("late_index_bimod"), f"_pred_late_index_{br}"), pl.mod("late_index_bimod").DEFAULT_LATE_INDEX_PARAMS, False)):
                ar = (nt(part), jx.spec()) + ((jx.spec(), jx.spec()) if targ else ())
                t2 = jx.trace(kern, ar, ["p", "lgm"] + (["tobs", "tpk"] if targ else []), sym=sym if targ else None)
                R.prove(f"{br} mean {k} (t_peak given: {tp}) is its component's prediction with the component's own values", q, [],
                        eq(getattr(out, k).at(), t2.out.at()))
            if tp:
                R.prove(f"{br} mean t_peak is the supplied one", q, [], eq(tpk, var("tpk")))
        fr = jx.trace(L.fec._frac_early_cens_kern, (nt(L.fec.DEFAULT_FEC_PARAMS), jx.spec(), jx.spec()), ["p", "lgm", "tobs"])
        R.prove(f"early-type fraction (t_peak given: {tp}) is the fraction component's prediction", q, [], eq(tr.out[2].at(), fr.out.at()))


# ---------------------------------------------------------------- concrete
def check_routing(values):
    msgs = []
    for ex, fn, types, pre in ((P0, L.bp.get_component_model_params, pl.TYPES, ""), (U0, L.bp.get_component_model_u_params, pl.UTYPES, "u_")):
        x = ex._make([float(values[k[len(pre):]]) for k in ex._fields])
        out = fn(x)
        if len(out) != len(pl.PARTS):
            return ["wrong number of components"]
        for c, m, t in zip(out, pl.PARTS, types):
            want = getattr(pl.mod(m), t)._fields
            if tuple(c._fields) != tuple(want):
                msgs.append(f"{m}: names {c._fields}")
                continue
            for k in want:
                if float(getattr(c, k)) != float(getattr(x, k)):
                    msgs.append(f"{m}: {k} received {float(getattr(c, k))}, the full set holds {float(getattr(x, k))}")
    return msgs[:5]


def gen_routing(rng, N):
    for k in range(N):
        yield dict(values={n: float(v) for n, v in zip(P0._fields, rng.permutation(len(P0)) + 0.5)})


def check_subset(names, excluded, values):
    msgs = []
    V = namedtuple("V", names)
    base = P0._make([float(values[k]) for k in P0._fields])
    new = V(*[float(i) + 1000.0 for i in range(len(names))])
    out = L.bp._get_all_diffmahpop_params_from_varied(new, base)
    for k in P0._fields:
        want = getattr(new, k) if k in names else getattr(base, k)
        if float(getattr(out, k)) != float(want):
            msgs.append(f"replacing {len(names)} names: {k} is {float(getattr(out, k))}, expected {float(want)}")
    got = L.bp.get_varied_params_by_exclusion(base, list(excluded))
    keep = [k for k in P0._fields if k not in excluded]
    if list(got._fields) != keep:
        msgs.append(f"exclusion keeps {len(got._fields)} names, expected {len(keep)}: {set(got._fields) ^ set(keep)}")
    else:
        for k in keep:
            if float(getattr(got, k)) != float(getattr(base, k)):
                msgs.append(f"exclusion changes the value of {k}")
    return msgs[:5]


def gen_subset(rng, N):
    names = list(P0._fields)
    for k in range(N):
        n = [1, 2, len(names), 10, 30][k % 5]
        ne = [0, 1, 3, 20, len(names) - 1][k % 5]
        ex = [str(x) for x in rng.permutation(names)[:ne]]
        if k % 5 == 2:   # names that are substrings or prefixes of others
            ex = [a for a in names for b in names if a != b and a in b][:4] or ex
        yield dict(names=[str(x) for x in rng.permutation(names)[:n]], excluded=ex,
                   values={n_: float(v) for n_, v in zip(names, rng.uniform(1, 9, len(names)))})


def check_response(kind, base, delta, lgm, tobs, seed):
    """Moving every parameter of the other galaxy type (other branch) changes nothing."""
    K = pl.Kind(kind)
    B = pl.bounds()
    p = pl.np_params(base)

    def moved(names):
        return p._replace(**{k: B[k][0] + ((float(getattr(p, k)) - B[k][0]) / (B[k][1] - B[k][0]) + delta) % 1 * (B[k][1] - B[k][0]) for k in names})
    msgs = []
    f = lambda q: [np.asarray(x) for part in K.single(q, lgm, tobs, pl.key(seed), pl.LGT0) for x in (part if isinstance(part, tuple) else (part,))]
    a = f(p)
    for what, names, sl in (("other galaxy type's", K.foreign, slice(0, 11)), ("late-branch", pl.group("late_only"), slice(0, 5)),
                            ("early-branch", pl.group("early_only"), slice(5, 10))):
        b = f(moved(names))
        for k, (x, y) in enumerate(zip(a[sl], b[sl])):
            if not np.array_equal(x, y):
                msgs.append(f"{kind}: output {k + (sl.start or 0)} responds to {what} parameters")
    # the same with the peak time supplied, and for the predicted means
    tpk = 0.2 + delta * 12
    flat = lambda o: [np.asarray(x) for part in o for x in (part if isinstance(part, tuple) else (part,))]
    for lab, f in (("single halo with given peak time", lambda q: flat(K.single(q, lgm, tobs, pl.key(seed), pl.LGT0, tpk))),
                   ("mean with given peak time", lambda q: flat(K.m._mean_diffmah_params_t_peak(q, lgm, tobs, tpk, pl.key(seed)))),
                   ("mean", lambda q: flat(K.m._mean_diffmah_params(q, lgm, tobs, pl.key(seed), pl.LGT0)))):
        a = f(p)
        for what, names, sl in (("other galaxy type's", K.foreign, slice(0, 11)), ("late-branch", pl.group("late_only"), slice(0, 5)),
                                ("early-branch", pl.group("early_only"), slice(5, 10))):
            b = f(moved(names))
            for k, (x, y) in enumerate(zip(a[sl], b[sl])):
                if not np.array_equal(x, y):
                    msgs.append(f"{kind} {lab}: output {k + (sl.start or 0)} responds to {what} parameters")
    t = jnp.linspace(1, 13, 4)
    a = K.pop(p, t, jnp.full(3, lgm), jnp.full(3, tobs), pl.key(seed), pl.LGT0)
    b = K.pop(moved(K.foreign), t, jnp.full(3, lgm), jnp.full(3, tobs), pl.key(seed), pl.LGT0)
    if not np.array_equal(np.asarray(a.log_mah), np.asarray(b.log_mah)):
        msgs.append(f"{kind} population responds to the other galaxy type's parameters")
    # the values used are the named ones: prediction from components
    return msgs


def gen_response(rng, N):
    for k in range(N):
        yield dict(kind=["cen", "sat"][k % 2], base=pl.gen_pop_params(rng), delta=float(rng.uniform(0.2, 0.8)),
                   lgm=float(rng.uniform(11, 15)), tobs=float(rng.uniform(2, 13)), seed=int(rng.integers(0, 10**6)))


CASES = {"routing": Case(check_routing, gen_routing, 3, 30), "subset": Case(check_subset, gen_subset, 15, 100,
         covers="get_varied_params_by_exclusion and arbitrary subsets of names (python-level name lists)"),
         "response": Case(check_response, gen_response, 4, 40)}
