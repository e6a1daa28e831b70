"""C13: training losses are the declared mean-square errors; value and gradient belong to the same loss."""
import sys
import numpy as np
import jax
import jax.numpy as jnp
from jax import random as jran
from ..lib import *
from ..check import Case
from . import poplib as pl, mahlib as ml, c10, c11, c12
from .poplib import L, P0, U0
import collections
import functools

FUNCTIONS = ["bimod_cens_fithelp:_mse", "bimod_cens_fithelp:_loss_mah_moments_singlebin", "bimod_cens_fithelp:_loss_mah_moments_multibin_kern",
             "bimod_cens_fithelp:loss_mah_moments_multibin", "bimod_cens_fithelp:loss_mah_moments_multibin_u_params",
             "bimod_cens_fithelp:loss_and_grads_mah_moments_multibin",
             "bimod_sats_fithelp:_mse", "bimod_sats_fithelp:_loss_mah_moments_singlebin", "bimod_sats_fithelp:_loss_mah_moments_multibin_kern",
             "bimod_sats_fithelp:loss_mah_moments_multibin", "bimod_sats_fithelp:loss_and_grads_mah_moments_multibin",
             "bimod_censat_fithelp:loss_mah_moments_multibin_censat", "bimod_censat_fithelp:loss_mah_moments_multibin_censat_u_params",
             "bimod_censat_fithelp:loss_and_grads_mah_moments_multibin_censat",
             "bimod_censat_fithelp:loss_and_grads_mah_moments_multibin_censat_u_params"]
TRUSTED = ["jax.value_and_grad(f): returns f and its exact derivative (the program it differentiates is the traced one)"]
B_, J_ = I("b"), I("j")
DIM = lambda d: var("#" + d)


def key_of_bin(loss, single_terms, key="key", root=None):
    """The key handed to each bin: the subterm k(b) of the loss whose substitution for `key` in the single-bin
    moments gives exactly the keys occurring in the loss.  Returns (k(b) with b = B_, set of matching candidates)."""
    want = {}
    for d in c11.draws(tm._mk("tup", tuple(single_terms), (), "A")):
        m = {v: var(f"#{k}", "I") for k, v in enumerate(d.ranges)}
        want.setdefault(d.kind, set()).add(tm.subst(d.key, m))
    cands = {}
    for d in c11.draws(loss):
        outer = [v for v, n in d.ranges.items() if str(n) == "#b"]
        if len(outer) != 1:
            raise Unsupported("bins are not one summation index")
        for s in tm.subterms(d.key):
            if s.sort == "K" and outer[0] in set(tm.subterms(s)):
                c = tm.subst(s, {outer[0]: B_})
                if not any(v.op == "var" and str(v.val).startswith("$") for v in tm.subterms(c)):
                    cands[c] = None
    have = set()
    for d in c11.draws(loss):
        outer = [v for v, n in d.ranges.items() if str(n) == "#b"][0]
        m = {v: var(f"#{k}", "I") for k, v in enumerate(v for v in d.ranges if v is not outer)}
        m[outer] = B_
        have.add((d.kind, tm.subst(d.key, m)))
    ok = [c for c in cands if {(k, tm.subst(t, {var(key, "K"): c})) for k, s in want.items() for t in s} == have]
    if len(ok) != 1:
        raise Unsupported(f"{len(ok)} candidates for the key of a bin")
    return ok[0]


def loss_spec(mean, std, kb, pre=""):
    """mean over bins of mse(mean) + mse(std), from the single-bin prediction terms (functions of t[j], lgm, tobs, key)."""
    n = lambda s: s + pre
    m = {elem("t", [J_]): elem(n("t"), [B_, J_]), var("lgm"): elem(n("lgm"), [B_]), var("tobs"): elem(n("tobs"), [B_]), var("key", "K"): kb}
    out = ZERO
    for pred, tgt in ((mean, "tm"), (std, "ts")):
        d = sub(tm.subst(pred, m), elem(n(tgt), [B_, J_]))
        out = add(out, div(tm.summ(J_, "m", tm.ipow(d, 2)), var("#m", "I")))
    return div(tm.summ(B_, "b", out), var("#b", "I"))


def moments_terms(K):
    tr, _ = K.tr_moments()
    return tr.out[0].at(J_), tr.out[1].at(J_)


def loss_args(pre="", b="b", m="m"):
    return (jx.spec((b, m)), jx.spec((b,)), jx.spec((b,)))


def obligations(R):
    spec = {}
    for kind in ("cen", "sat"):
        K = pl.Kind(kind)
        q = f"{K.fq}:loss_mah_moments_multibin"
        with R.guard(f"{kind} loss"):
            mean, std = moments_terms(K)
            tr, b, m = K.tr_loss()
            loss = tr.out.at()
            kb = key_of_bin(loss, [mean, std])
            s = loss_spec(mean, std, kb)
            same(R, f"{kind}: loss = mean over bins of the mean-square errors of mean and scatter, each with the bin's own inputs, key and targets", q, loss, s)
            spec[kind] = loss
            i2 = var("b'", "I")
            k2 = tm.subst(kb, {B_: i2})
            u = c11.unify(kb, k2)
            if not u:
                R.fact(f"{kind}: bins have different keys", q, True, "key terms")
            for k, w in enumerate(u):
                R.prove(f"{kind}: bins have different keys" + f" ({k})" * (len(u) > 1), q, w, eq(B_, i2))
            names = {x for x in tm.subterms(loss)}
            used = {str(x.val) for x in names if x.op == "uf"}
            R.fact(f"{kind}: loss does not depend on the other type's parameters", q,
                   not any(var("p." + k) in names for k in K.foreign), "term inspection", "")
    with R.guard("unconstrained centrals"):
        unconstrained_cens(R)
    with R.guard("value and gradient"):
        grads(R)
    with R.guard("combined"):
        combined(R)
    with R.guard("combined defaults"):
        combined_defaults(R)


DATA = ["t", "lgm", "tobs", "key", "lgt0", "tm", "ts", "tf"]


def data_spec():
    b, m = jx.dims("b,m", ["b>=1", "m>=1"])
    return (jx.spec((b, m)), jx.spec((b,)), jx.spec((b,)), jx.keyspec(), jx.spec(), jx.spec((b, m)), jx.spec((b, m)), jx.spec((b, m)))


def u_terms(sub=None):
    """Parameters obtained from unconstrained parameters u.*, unvaried ones (not in sub) at their default."""
    sym = {} if sub is None else {"u." + k: tm.from_float(float(getattr(U0, k))) for k in U0._fields if k not in sub}
    tr = jx.trace(L.bp.get_diffmahpop_params_from_u_params, (nt(U0),), ["u"], sym=sym)
    return {k: v for k, v in fields(tr.out).items()}


def prefix(t, pre, names):
    """Rename data inputs name -> name+pre."""
    m = {}
    for x in tm.subterms(t):
        if x.op == "elem" and x.val in names:
            m[x] = elem(x.val + pre, list(x.args))
    return m


def unconstrained_cens(R):
    K = pl.Kind("cen")
    q = "bimod_cens_fithelp:loss_mah_moments_multibin_u_params"
    tr, b, m = K.tr_loss()
    loss = tr.out.at()
    names = ["u"] + ["d." + n for n in DATA]
    for lab, U in (("all parameters varied", U0), ("a subset of parameters varied", subset_nt(U0, 7))):
        tu = jx.trace(lambda u, *d: L.fc.loss_mah_moments_multibin_u_params(u, d), (nt(U),) + data_spec(), ["u"] + DATA)
        p = u_terms(set(U._fields))
        want = tm.subst(loss, {var("p." + k): v for k, v in p.items()})
        same(R, f"cen: unconstrained loss = constrained loss of the transformed parameters ({lab})", q, tu.out.at(), want)


def subset_nt(N, step, start=2):
    ks = N._fields[start::step]
    return collections.namedtuple("Varied", ks)(*[getattr(N, k) for k in ks])


def grads(R):
    """value_and_grad wrappers differentiate the declared loss with respect to all of its parameters."""
    jobs = [("bimod_cens_fithelp:loss_and_grads_mah_moments_multibin", L.fc.loss_and_grads_mah_moments_multibin,
             lambda u, *d: L.fc.loss_mah_moments_multibin_u_params(u, d), lambda f: (lambda u, *d: f(u, d)), U0),
            ("bimod_sats_fithelp:loss_and_grads_mah_moments_multibin", L.fs.loss_and_grads_mah_moments_multibin,
             L.fs.loss_mah_moments_multibin, lambda f: f, P0)]
    for q, vg, f, wrap, N in jobs:
        a = (nt(N),) + data_spec()
        grad_same(R, q, wrap(vg), f, a, ["u"] + DATA)


def grad_same(R, q, vg, f, a, names):
    """The first output of vg is f, and its second output is the program that differentiating f gives."""
    no_private_derivatives(R, q, f, a)
    g1, g2 = flat_program(lambda *x: vg(*x), a), flat_program(lambda *x: jax.value_and_grad(f)(*x), a)
    R.fact("returned value and gradient are those of the declared loss with respect to its parameters (the program is that of value_and_grad of the loss)",
           q, g1 == g2, "program identity up to naming and order", f"{len(g1)} and {len(g2)} instructions")


def no_private_derivatives(R, q, f, a):
    """Code of this package neither hides a value from differentiation nor declares a derivative rule of its own."""
    closed = jax.make_jaxpr(f)(*a)
    bad = []

    def go(j):
        for e in j.eqns:
            if e.primitive.name == "stop_gradient":
                fr = [x.file_name for x in (e.source_info.traceback.frames if e.source_info.traceback else [])]
                lib_ = [x for x in fr if "/jax/_src/" not in x or not x.endswith(("source_info_util.py", "partial_eval.py", "core.py", "lax.py",
                                                                                 "traceback_util.py", "api_util.py", "tree_util.py", "ad_util.py"))]
                if lib_ and "/diffmah/" in lib_[0]:
                    bad.append(lib_[0])
            for v in e.params.values():
                for w in (v if isinstance(v, (list, tuple)) else [v]):
                    if hasattr(w, "jaxpr"):
                        go(w.jaxpr)
                    elif hasattr(w, "eqns"):
                        go(w)
    go(closed.jaxpr)
    for n, m in list(sys.modules.items()):
        if n.startswith("diffmah"):
            bad += [f"{n}.{k}" for k, v in vars(m).items() if isinstance(v, (jax.custom_jvp, jax.custom_vjp)) and str(getattr(v, "__module__", n)).startswith("diffmah")]
    R.fact("no part of the loss is hidden from differentiation", q, not bad, "program inspection", str(bad)[:200])


def flat_program(fn, a):
    """Instruction list of the traced program, dead code removed, jit boundaries inlined, variables numbered in order of definition."""
    closed, sh = jax.make_jaxpr(fn, return_shape=True)(*a)
    out = []
    num_ = {}

    def name(env, v):
        if hasattr(v, "val") and not hasattr(v, "count"):
            return "lit:" + repr(v.val) + str(v.aval)
        return env[v]

    memo = {}

    def emit(desc):
        if desc in memo:
            return memo[desc]
        memo[desc] = f"%{len(out)}"
        out.append(desc)
        return memo[desc]

    def go(jaxpr, consts, args):
        env = {}
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = emit(("const", np.asarray(c).tobytes() if not str(getattr(c, "dtype", "")).startswith("key") else str(c), str(v.aval)))
        for v, n in zip(jaxpr.invars, args):
            env[v] = n
        for e in jaxpr.eqns:
            ins = [name(env, v) for v in e.invars]
            sub_ = e.params.get("jaxpr") or e.params.get("call_jaxpr") if e.primitive.name in ("jit", "pjit", "closed_call", "custom_jvp_call", "custom_vjp_call", "core_call", "remat", "checkpoint") else None
            if sub_ is not None:
                jp, cs = (sub_.jaxpr, sub_.consts) if hasattr(sub_, "jaxpr") else (sub_, [])
                outs = go(jp, cs, ins)
            else:
                ps = []
                for k, v in sorted(e.params.items()):
                    if hasattr(v, "jaxpr") or hasattr(v, "eqns"):
                        jp, cs = (v.jaxpr, v.consts) if hasattr(v, "jaxpr") else (v, [])
                        ps.append((k, str(jp)))
                    elif callable(v):
                        ps.append((k, "fn"))
                    else:
                        ps.append((k, str(v)))
                d = emit((e.primitive.name, tuple(ins), tuple(ps)))
                outs = [f"{d}.{k}" for k in range(len(e.outvars))]
            for v, n in zip(e.outvars, outs):
                env[v] = n
        return [name(env, v) for v in jaxpr.outvars]
    ins = [f"in{k}" for k in range(len(closed.jaxpr.invars))]
    res = go(closed.jaxpr, closed.consts, ins)
    # dead code removal with renumbering
    live, order = {}, []

    def visit(n):
        stack = [(n, False)]
        while stack:
            x, done = stack.pop()
            base = x.split(".")[0]
            if not base.startswith("%") or (base in live):
                continue
            k = int(base[1:])
            if done:
                live[base] = f"%{len(order)}"
                order.append(k)
                continue
            stack.append((x, True))
            d = out[k]
            if d[0] != "const":
                stack.extend((y, False) for y in reversed(d[1]))
    for r in res:
        visit(r)

    def ren(n):
        b, *rest = n.split(".") if n.startswith("%") else (n,)
        return ".".join([live.get(b, b)] + list(rest))
    prog = []
    for k in order:
        d = out[k]
        prog.append(d if d[0] == "const" else (d[0], tuple(ren(x) for x in d[1]), d[2]))
    prog.append(("out", tuple(ren(r) for r in res), str(jax.tree_util.tree_structure(sh))))
    return prog


CS = ["t_c", "lgm_c", "tobs_c", "t_s", "lgm_s", "tobs_s", "key", "lgt0", "tm_c", "ts_c", "tf_c", "tm_s", "ts_s", "tf_s"]


def cs_spec():
    b, m, c, n = jx.dims("b,m,c,n", ["b>=1", "m>=1", "c>=1", "n>=1"])
    s = jx.spec
    return (s((b, m)), s((b,)), s((b,)), s((c, n)), s((c,)), s((c,)), jx.keyspec(), s(), s((b, m)), s((b, m)), s((b, m)), s((c, n)), s((c, n)), s((c, n)))


def cs_want(N, kc, ks, psub):
    """Sum of the central loss with key kc and the satellite loss with key ks on their own data."""
    out = []
    for kind, k, pre, dd in (("cen", kc, "_c", ("b", "m")), ("sat", ks, "_s", ("c", "n"))):
        K = pl.Kind(kind)
        b, m = jx.dims(",".join(dd), [dd[0] + ">=1", dd[1] + ">=1"])
        s = jx.spec
        tr = jx.trace(K.fit.loss_mah_moments_multibin,
                      (nt(P0), s((b, m)), s((b,)), s((b,)), jx.keyspec(), s(), s((b, m)), s((b, m)), s((b, m))),
                      ["p", "t" + pre, "lgm" + pre, "tobs" + pre, "key", "lgt0", "tm" + pre, "ts" + pre, "tf" + pre])
        out.append(tm.subst(tr.out.at(), {var("key", "K"): k, **{var("p." + a): v for a, v in psub.items()}}))
    return out


def root_keys(loss):
    """Keys of the central and the satellite half: children of the root key."""
    out = {}
    for d in c11.draws(loss):
        for s in tm.subterms(d.key):
            if s.op == "uf" and s.sort == "K" and s.args[0] is var("key", "K"):
                out[s] = None
    return list(out)


def combined(R):
    q = "bimod_censat_fithelp:loss_mah_moments_multibin_censat"
    tr = jx.trace(L.fcs.loss_mah_moments_multibin_censat, (nt(P0),) + cs_spec(), ["p"] + CS)
    loss = tr.out.at()
    ks = root_keys(loss)
    R.fact("centrals and satellites use two different keys derived from the given one", q, len(ks) == 2, "key terms", str(ks)[:200])
    if len(ks) == 2:
        ok = False
        for kc, ks_ in (ks, ks[::-1]):
            a, b = cs_want(P0, kc, ks_, {})
            w = recanon(add(a, b))
            if w is recanon(loss):
                ok = True
                break
        if ok:
            R.fact("combined loss = central loss + satellite loss", q, True, "identical terms")
        else:
            kc, ks_ = ks
            a, b = cs_want(P0, kc, ks_, {})
            same(R, "combined loss = central loss + satellite loss", q, loss, add(a, b))
        u = c11.unify(*ks)
        if not u:
            R.fact("the two keys differ", q, True, "key terms")
        for k, w in enumerate(u):
            R.prove("the two keys differ" + f" ({k})" * (len(u) > 1), q, w, tm.FALSE)


def combined_defaults(R):
    q = "bimod_censat_fithelp:loss_mah_moments_multibin_censat"
    full = jx.trace(L.fcs.loss_mah_moments_multibin_censat, (nt(P0),) + cs_spec(), ["p"] + CS).out.at()
    for start, step in ((0, 5), (3, 11)):
        V = subset_nt(P0, step, start)
        tv = jx.trace(L.fcs.loss_mah_moments_multibin_censat, (nt(V),) + cs_spec(), ["p"] + CS).out.at()
        w = tm.subst(full, {var("p." + k): tm.from_float(float(getattr(P0, k))) for k in P0._fields if k not in V._fields})
        same(R, f"unvaried parameters keep their default values ({len(V._fields)} varied)", q, tv, w)
    qu = q + "_u_params"
    for lab, U in (("all", U0), ("subset", subset_nt(U0, 9))):
        tu = jx.trace(lambda u, *d: L.fcs.loss_mah_moments_multibin_censat_u_params(u, d), (nt(U),) + cs_spec(), ["u"] + CS).out.at()
        p = u_terms(set(U._fields))
        same(R, f"unconstrained combined loss = constrained one of the transformed parameters ({lab} varied)", qu, tu,
             tm.subst(full, {var("p." + k): v for k, v in p.items()}))
    grad_same(R, "bimod_censat_fithelp:loss_and_grads_mah_moments_multibin_censat", L.fcs.loss_and_grads_mah_moments_multibin_censat,
              L.fcs.loss_mah_moments_multibin_censat, (nt(P0),) + cs_spec(), ["p"] + CS)
    grad_same(R, "bimod_censat_fithelp:loss_and_grads_mah_moments_multibin_censat_u_params",
              lambda u, *d: L.fcs.loss_and_grads_mah_moments_multibin_censat_u_params(u, d),
              lambda u, *d: L.fcs.loss_mah_moments_multibin_censat_u_params(u, d), (nt(U0),) + cs_spec(), ["u"] + CS)


# ---------------------------------------------------------------- concrete
def data(rng, nb, m):
    return dict(t=np.sort(rng.uniform(1, 13, (nb, m)), axis=1), lgm=rng.uniform(11.7, 14.3, nb), tobs=rng.uniform(5, 13.5, nb),
                off_m=rng.uniform(-3, 3, (nb, m)), off_s=rng.uniform(-2, 2, (nb, m)), tf=rng.uniform(0, 1, (nb, m)))


def targets(K, x, d, key):
    """Predictions of every bin with the bin keys of this key, and targets displaced from them by known offsets."""
    ks = jran.split(key, len(d["lgm"]))
    pr = [K.moments(x, jnp.array(t), l, o, k, pl.LGT0) for t, l, o, k in zip(np.array(d["t"]), d["lgm"], d["tobs"], ks)]
    mean, std = np.array([np.asarray(q[0]) for q in pr]), np.array([np.asarray(q[1]) for q in pr])
    return mean, std, mean + np.array(d["off_m"]), std + np.array(d["off_s"])


def ref_loss(mean, std, tmn, tsd):
    return float(np.mean([np.mean((a - c) ** 2) + np.mean((b - e) ** 2) for a, b, c, e in zip(mean, std, tmn, tsd)]))


def loss_args_np(d, tmn, tsd, key):
    return (jnp.array(d["t"]), jnp.array(d["lgm"]), jnp.array(d["tobs"]), key, pl.LGT0, jnp.array(tmn), jnp.array(tsd), jnp.array(d["tf"]))


def agree(got, K, x, d, tmn, tsd, key):
    """Agreement with the declared formula, bin i with the i-th split of the key."""
    mean, std, *_ = targets(K, x, d, key)
    want = ref_loss(mean, std, tmn, tsd)
    return bool(np.isclose(got, want, rtol=1e-5, atol=1e-8)), want


def check_loss(kind, p, d, seed):
    K = pl.Kind(kind)
    x = pl.np_params(p)
    k = pl.key(seed)
    _, _, tmn, tsd = targets(K, x, d, k)
    got = float(K.fit.loss_mah_moments_multibin(x, *loss_args_np(d, tmn, tsd, k)))
    ok, want = agree(got, K, x, d, tmn, tsd, k)
    return [] if ok else [f"{kind} loss {got} but the mean over bins of the mean-square errors is {want}"]


ntype = functools.lru_cache(None)(collections.namedtuple)


def check_censat(p, dc, ds, seed, drop):
    """drop: names left out of the varied tuple; they must behave as at their defaults."""
    kc, ks = jran.split(pl.key(seed), 2)
    x = P0._replace(**{k: float(v) for k, v in p.items() if k not in drop})
    V = ntype("V", tuple(k for k in P0._fields if k not in drop))
    v = V(**{k: getattr(x, k) for k in V._fields})
    a, b = pl.Kind("cen"), pl.Kind("sat")
    tc, ts = targets(a, x, dc, kc)[2:], targets(b, x, ds, ks)[2:]
    data_ = (jnp.array(dc["t"]), jnp.array(dc["lgm"]), jnp.array(dc["tobs"]), jnp.array(ds["t"]), jnp.array(ds["lgm"]), jnp.array(ds["tobs"]),
             pl.key(seed), pl.LGT0, *map(jnp.array, tc), jnp.array(dc["tf"]), *map(jnp.array, ts), jnp.array(ds["tf"]))
    got = float(L.fcs.loss_mah_moments_multibin_censat(v, *data_))
    lc = float(a.fit.loss_mah_moments_multibin(x, *loss_args_np(dc, *tc, kc)))
    ls = float(b.fit.loss_mah_moments_multibin(x, *loss_args_np(ds, *ts, ks)))
    want = lc + ls
    msgs = []
    if not np.isclose(got, want, rtol=1e-5, atol=1e-8):
        alt = [float(a.fit.loss_mah_moments_multibin(x, *loss_args_np(dc, *tc, pl.key(k)))) + float(b.fit.loss_mah_moments_multibin(x, *loss_args_np(ds, *ts, pl.key(k + 50)))) for k in range(6)]
        if not abs(got - np.mean(alt)) <= 6 * np.std(alt) + 1e-3:
            msgs.append(f"combined loss {got}, central {lc} + satellite {ls} = {want}")
    val, g = L.fcs.loss_and_grads_mah_moments_multibin_censat(v, *data_)
    msgs += check_grad("combined", lambda y: float(L.fcs.loss_mah_moments_multibin_censat(y, *data_)), v, val, g, seed)
    u = L.bp.get_diffmahpop_u_params_from_params(x)
    U = ntype("U", tuple("u_" + k for k in V._fields))
    uv = U(**{k: float(getattr(u, k)) for k in U._fields})
    fu = lambda y: float(L.fcs.loss_mah_moments_multibin_censat_u_params(y, data_))
    if not np.isclose(fu(uv), got, rtol=1e-4, atol=1e-6):
        msgs.append(f"unconstrained combined loss {fu(uv)}, constrained {got}")
    val, g = L.fcs.loss_and_grads_mah_moments_multibin_censat_u_params(uv, data_)
    msgs += check_grad("unconstrained combined", fu, uv, val, g, seed)
    return msgs


def check_grad(what, f, x, val, g, seed):
    if not np.isclose(float(val), f(x), rtol=1e-6, atol=1e-9):
        return [f"{what}: returned value {float(val)}, loss {f(x)}"]
    rng = np.random.default_rng(seed)
    v = {k: rng.normal() * max(1e-3, abs(float(getattr(x, k))) * 0.05) for k in x._fields}
    h = [1e-4, 3e-5]
    fd = [(f(x._replace(**{k: float(getattr(x, k)) + e * v[k] for k in v})) - f(x._replace(**{k: float(getattr(x, k)) - e * v[k] for k in v}))) / (2 * e) for e in h]
    an = sum(float(getattr(g, k)) * v[k] for k in v)
    sc = max(abs(an), abs(fd[0]), 1e-6)
    if abs(fd[0] - fd[1]) > 0.02 * sc:       # not smooth enough here to judge
        return []
    return [] if abs(an - fd[1]) <= 0.05 * sc + 1e-7 else [f"{what}: directional derivative {an} but finite differences give {fd}"]


def check_cen_grads(p, d, seed):
    K = pl.Kind("cen")
    x = pl.np_params(p)
    k = pl.key(seed)
    _, _, tmn, tsd = targets(K, x, d, k)
    a = loss_args_np(d, tmn, tsd, k)
    want = float(L.fc.loss_mah_moments_multibin(x, *a))
    u = L.bp.get_diffmahpop_u_params_from_params(x)
    u = U0._replace(**{k: float(v) for k, v in u._asdict().items()})
    got = float(L.fc.loss_mah_moments_multibin_u_params(u, a))
    msgs = [] if np.isclose(got, want, rtol=1e-4, atol=1e-6) else [f"unconstrained central loss {got}, constrained {want}"]
    val, g = L.fc.loss_and_grads_mah_moments_multibin(u, a)
    msgs += check_grad("central", lambda y: float(L.fc.loss_mah_moments_multibin_u_params(y, a)), u, val, g, seed)
    val, g = L.fs.loss_and_grads_mah_moments_multibin(x, *a)
    msgs += check_grad("satellite", lambda y: float(L.fs.loss_mah_moments_multibin(y, *a)), x, val, g, seed)
    return msgs


def gen_params(rng):
    return {k: v for k, v in pl.gen_pop_params(rng, 25).items() if "lgm0pop" not in k}


def gen(rng, N):
    for k in range(N):
        nb = int(rng.integers(1, 4))
        yield dict(kind=["cen", "sat"][k % 2], p=gen_params(rng), d=data(rng, nb, 3), seed=int(rng.integers(0, 2**31)))


def gen_cs(rng, N):
    for k in range(N):
        drop = [] if k % 16 == 9 else list(np.random.default_rng(k // 16).permutation(P0._fields)[:40])
        yield dict(p=gen_params(rng), dc=data(rng, 2, 3), ds=data(rng, 3, 3), seed=int(rng.integers(0, 2**31)), drop=drop)


def gen_g(rng, N):
    for k in range(N):
        yield dict(p=gen_params(rng), d=data(rng, 2, 3), seed=int(rng.integers(0, 2**31)))


CASES = {"loss": Case(check_loss, gen, 6, 60), "combined": Case(check_censat, gen_cs, 4, 40), "gradients": Case(check_cen_grads, gen_g, 2, 15)}
