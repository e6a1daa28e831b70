"""C16: the gradient-descent wrapper returns the best parameters it evaluated."""
import numpy as np
from ..lib import *
from ..check import Case
from .. import nx
from diffmah.fitting_helpers import fit_utils as FU

FUNCTIONS = ["fit_utils:_jax_adam_wrapper", "fit_utils:jax_adam_wrapper"]
ASSUMPTIONS = ["the loss function is a pure function of the parameters (it may return any value, finite or not, at any step)",
               "jax.example_libraries.optimizers.adam: opt_init, opt_update, get_params are functions of their arguments (trajectory left abstract)",
               "numpy.nanargmin / numpy.argmin return an index of the smallest entry of a non-empty all-finite sequence",
               "single-precision storage of the parameter history is treated as exact"]
ZI, O1 = num(0, "I"), num(1, "I")
q1, q2 = FUNCTIONS
d = var("#d", "I")


class Opt(nx.Obj):
    """Abstract optimiser state."""


def params_of(o):
    return nx.A((d,), lambda i: uf("get_params", [o, i[0]]))


class FakeOpt:
    @staticmethod
    def adam(step_size, *a, **k):
        if a or k:
            raise Unsupported("adam options")
        s = nx.R_(nx.L(step_size))

        def opt_init(p):
            return Opt(uf("opt_init", [s, nx.as_array(p).lam()], "Opt"))

        def opt_update(i, g, o):
            return Opt(uf("opt_update", [nx.R_(nx.L(i)), nx.as_array(g).lam(), o.t, s], "Opt"))

        def get_params(o):
            return params_of(o.t)
        return opt_init, opt_update, get_params


def loss_fn(p, data):
    if data is not DATA:
        raise Unsupported("loss data replaced")
    a = nx.as_array(p).lam()
    return nx.S(uf("loss", [a])), nx.A((d,), lambda i: uf("grad", [a, i[0]]))


class _Data:
    pass


DATA = _Data()


class Traj:
    """The sequence of evaluated parameters and losses, by its recursive definition."""

    def __init__(self, init, step):
        self.init, self.step = init, nx.R_(nx.L(step))

    def o(self, k):
        if k.op == "num":
            r = uf("opt_init", [self.step, self.init.lam()], "Opt")
            for j in range(int(k.val)):
                r = self.next(num(j, "I"), r)
            return r
        return uf("traj", [nx.R_(k), self.step, self.init.lam()], "Opt")

    def next(self, k, o):
        g = uf("grad", [params_of(o).lam(), var("gi")])
        a = params_of(o).lam()
        return uf("opt_update", [nx.R_(k), nx.A((d,), lambda i: uf("grad", [a, i[0]])).lam(), o, self.step], "Opt")

    def p(self, k):
        return params_of(self.o(k))

    def loss(self, k):
        return uf("loss", [self.p(k).lam()])

    def ok(self, k):
        """nothing non-finite at step k"""
        p = self.p(k)
        a = p.lam()
        fin = lambda arr: nx.L(nx.NP.all(nx.NP.isfinite(arr)))
        return and_(fin(p), nx.finite_term(self.loss(k)), fin(nx.A((d,), lambda i: uf("grad", [a, i[0]]))))


def instances(ts, tr, tol, k):
    """what holds for every step before k (it was checked when the step was taken), at the given steps"""
    return [implies(and_(le(ZI, t), lt(t, k)), and_(tr.ok(t), not_(lt(tr.loss(t), tol)))) for t in ts]


def argmin_facts(t, tr):
    """contract of nanargmin for the argmin terms in t: in range, and no larger than entry i of the same sequence"""
    out = []
    for x in tm.subterms(t):
        if x.op == "uf" and x.val[1] in ("nanargmin", "argmin"):
            out.append(x)
    return out


def entry(lm, i):
    if lm.op == "lam":
        return tm.subst(lm.args[1], {lm.args[0]: i})
    r = lm.args[-1]
    for j in range(len(lm.args) - 2, -1, -1):
        r = ite(eq(i, num(j, "I")), lm.args[j], r)
    return r


def len_of(lm):
    if lm.op == "lam":
        s = str(lm.val[0])
        return nx.SIZES[s] if s in nx.SIZES else num(int(s), "I")
    return num(len(lm.args), "I")


def inner(R):
    def run(r, n, loops, lab):
        nx.EXTENDED[0] = True
        try:
            f = nx.sym_function(FU._jax_adam_wrapper, env={"jax_opt": FakeOpt}, loops=loops)
            init = nx.A((d,), lambda i: elem("p0", list(i)))
            step, tol = nx.S(var("step")), nx.S(var("tol"))
            tr = Traj(init, step)
            dim = int(n.val) if n.op == "num" else n
            hyps = [le(O1, n), le(O1, d)]
            r.reachable(lab + "one or more steps", hyps)
            ps = nx.explore(lambda: f(loss_fn, nx.A((d,), init.fn), DATA, dim if isinstance(dim, int) else nx.S(dim), step_size=step, tol=tol), hyps=hyps)
            nx.prove_paths(r, q1, ps, lambda k, p: post(r, k, p, tr, n, tol.t, lab))
            r.fact(lab + "every path of the function was followed", q1, any(p.kind == "return" for p in ps), "path exploration", f"{len(ps)} paths")
        finally:
            nx.EXTENDED[0] = False

    def full(r):
        n = var("#n", "I")
        init = nx.A((d,), lambda i: elem("p0", list(i)))
        tr = Traj(init, nx.S(var("step")))
        tol = var("tol")

        def st(k):
            return dict(loss_collector=nx.SymList(k if k.op != "num" else int(k.val), lambda i: tr.loss(i[0])), opt_state=Opt(tr.o(k)),
                        params_arr=nx.A((n, d), lambda ij: ite(lt(ij[0], k), tr.p(ij[0]).fn((ij[1],)), ZERO)))

        def nxt(k):
            s = st(nx.add_i(k, O1))
            s["opt_state"] = Opt(tr.next(k, tr.o(k)))
            return s
        prove = lambda k, env: [("nothing non-finite and not below tolerance at a step that is passed", and_(tr.ok(k), not_(lt(tr.loss(k), tol))))]
        run(r, n, {0: nx.LoopContract(st, nxt=nxt, prove=prove)}, "")

    def bounded(r):
        for m in (1, 2, 3):
            run(r, num(m, "I"), None, f"{m} steps: ")
    nx.by_contract_or_bounded(R, q1, full, bounded, "1 to 3 steps")


def post(r, kpath, p, tr, n, tol, lab):
    nm = lambda s: f"{lab}{s} (path {kpath})"
    if p.kind != "return":
        r.fact(nm("no error"), q1, False, "path exploration", repr(p.value))
        return
    if not (isinstance(p.value, tuple) and len(p.value) == 5):
        r.fact(nm("five results"), q1, False, "path exploration", str(type(p.value)))
        return
    bp, bl, la, pa, flag = p.value
    bp, la, pa = nx.as_array(bp), nx.as_array(la), nx.as_array(pa)
    bl, flag = nx.L(bl), nx.L(flag)
    h = list(p.pc)
    K = nx.dT(la.shape[0])
    i, j = I("i"), I("j")
    k = var("k", "I")
    args = argmin_facts(tm._mk("tup", [bl, bp.at(j), *h], (), "A"), tr)
    wit = args + [sub(K, O1), ZI]
    inst = [i, sub(K, O1)] + args if n.op != "num" else [num(a, "I") for a in range(int(n.val))]
    # every step before the current one was passed
    upto = k if k in tm.free_vars(tm._mk("tup", [K, *h], (), "A")) else K if n.op != "num" else None
    if upto is not None and n.op != "num":
        h += instances(inst, tr, tol, upto)
        h += [implies(and_(le(ZI, t), lt(t, upto)), nx.finite_term(tr.loss(t))) for t in inst]
    for x in args:
        L, m = x.args[0], len_of(x.args[0])
        h += [le(ZI, x), lt(x, m)]
        for t in inst:
            fin = nx.finite_term(entry(L, x)) if x.val[1] == "argmin" else TRUE    # argmin points at a NaN when there is one
            h.append(implies(and_(le(ZI, t), lt(t, m), fin), le(entry(L, x), entry(L, t))))
    r.prove(nm("parameter history has one row per recorded loss"), q1, h, and_(eq(nx.R_(nx.dT(pa.shape[0])), nx.R_(K)), eq(nx.R_(nx.dT(pa.shape[1])), nx.R_(d))))
    rng = [le(ZI, i), lt(i, K), le(ZI, j), lt(j, d)]

    def go(name, hy, g, x=None, y=None):
        hh = list(hy)
        if x is not None:
            x, y = nx.extensional(hh, x, y)
            g = eq(x, y)
        r.prove(nm(name), q1, hh, g)
    if n.op != "num":
        go("loss history: row i is the loss evaluated at step i", h + rng, None, la.at(i), tr.loss(i))
        go("parameter history: row i is the parameters evaluated at step i", h + rng, None, pa.at(i, j), tr.p(i).at(j))
        best = or_(*[and_(le(ZI, w), lt(w, K), eq(bl, tr.loss(w)), eq(bp.at(j), tr.p(w).at(j))) for w in wit])
        hh = list(h) + rng[2:]
        tup, best = nx.extensional(hh, tm._mk("tup", [bl, bp.at(j), *hh], (), "A"), best)
        r.prove(nm("the returned loss and parameters belong to one evaluated step"), q1, hh, or_(eq(K, ZI), best))
        for what, g in (("the returned loss is the smallest recorded", le(bl, tr.loss(i))), ("no non-finite step enters the histories", tr.ok(i))):
            if upto is k and not nx.feasible(h + [eq(nx.R_(K), nx.R_(k))]):
                r.prove(nm(what + " (earlier steps)"), q1, h + rng[:2] + [lt(i, k)], g)
                r.prove(nm(what + " (last step)"), q1, h, tm.subst(g, {i: k}))
                r.prove(nm(what + " (those are all the steps)"), q1, h + rng[:2], or_(lt(i, k), eq(i, k)))
            else:
                r.prove(nm(what), q1, h + rng[:2], g)
        r.prove(nm("stops early only below tolerance or at a non-finite value"), q1, h,
                or_(eq(nx.R_(K), nx.R_(n)), and_(lt(ZI, K), lt(tr.loss(sub(K, O1)), tol)), not_(tr.ok(K))))
        r.prove(nm("flag is 0 exactly when a non-finite value stopped it"), q1, h,
                ite(eq(flag, ZERO), and_(lt(K, n), not_(tr.ok(K))), and_(eq(flag, ONE), or_(eq(nx.R_(K), nx.R_(n)), lt(tr.loss(sub(K, O1)), tol)))))
        r.prove(nm("number of recorded steps"), q1, h, and_(le(ZI, K), le(K, n)))
    else:
        m = int(n.val)
        if nx.R_(K).op != "num":
            raise Unsupported("history size not determined")
        c = int(K.val)
        gs = [eq(la.at(a), tr.loss(num(a, "I"))) for a in range(c)] + [eq(pa.at(num(a, "I"), j), tr.p(num(a, "I")).at(j)) for a in range(c)]
        r.prove(nm("histories are the evaluated steps"), q1, h, and_(*gs) if gs else TRUE)
        r.prove(nm("best of the recorded steps"), q1, h, or_(TRUE if c == 0 else FALSE, *[and_(eq(bl, tr.loss(num(w, "I"))), eq(bp.at(j), tr.p(num(w, "I")).at(j)),
                                                             *[le(bl, tr.loss(num(b, "I"))) for b in range(c)]) for w in range(c)]))
        okc = tr.ok(num(c, "I")) if c < m else TRUE
        tolc = lt(tr.loss(num(c - 1, "I")), tol) if c else FALSE
        r.prove(nm("recorded steps are finite"), q1, h, and_(*[tr.ok(num(a, "I")) for a in range(c)]) if c else TRUE)
        r.prove(nm("flag and early stop"), q1, h, ite(eq(flag, ZERO), not_(okc), and_(eq(flag, ONE), or_(TRUE if c == m else FALSE, tolc))))


def outer(R):
    names = ("params", "loss", "losses", "history", "flag")

    def run_of(p0, n, step, tol):
        a = [nx.as_array(p0).lam()] + [nx.R_(nx.L(v)) for v in (n, step, tol)]
        K = uf("run_len", a, "I")
        return (nx.A((d,), lambda i: uf("run_params", a + list(i))), nx.S(uf("run_loss", a)), nx.A((K,), lambda i: uf("run_losses", a + list(i))),
                nx.A((K, d), lambda i: uf("run_history", a + list(i))), nx.S(uf("run_flag", a)))

    def contract(fn, p, data, n, step_size=0.01, tol=0.0):
        if fn is not loss_fn or data is not DATA:
            raise Unsupported("arguments")
        return run_of(p, n, step_size, tol)

    def run(r, m, loops, lab, wstep):
        nx.EXTENDED[0] = True
        try:
            f = nx.sym_function(FU.jax_adam_wrapper, env={"_jax_adam_wrapper": contract}, loops=loops)
            init = nx.A((d,), lambda i: elem("p0", list(i)))
            step, tol, ws = nx.S(var("step")), nx.S(var("tol")), nx.S(var("wstep"))
            n, wn = nx.S(var("#n", "I")), nx.S(var("#wn", "I"))
            kw = dict(n_warmup=m if isinstance(m, int) else nx.S(m), step_size=step, warmup_n_step=wn, tol=tol)
            if wstep:
                kw["warmup_step_size"] = ws
            ps = nx.explore(lambda: f(loss_fn, nx.A((d,), init.fn), DATA, n, **kw), hyps=[le(O1, d)] + ([] if isinstance(m, int) else [le(ZI, m)]))
            wsz = ws if wstep else nx.S(mul(num(5), step.t))

            def warm(k):
                """(parameters, loss) handed on after k warm-up runs"""
                if isinstance(k, int):
                    p, l = init, None
                    for _ in range(k):
                        res = run_of(p, wn, wsz, tol)
                        p, l = res[0], res[1].t
                    return p, l
                return W(k), uf("warm_loss", [nx.R_(k)])

            def ex(kp, p):
                nm = lambda s: f"{lab}{s} (path {kp})"
                if p.kind != "return":
                    r.fact(nm("no error"), q2, False, "path exploration", repr(p.value))
                    return
                h = list(p.pc)
                none = m == 0 if isinstance(m, int) else pv_has(h, m)
                wp, wl = (init, None) if none else warm(m)
                fin = nx.L(nx.NP.all(nx.NP.isfinite(wp)))
                cases = []
                for finite in (True, False):
                    p0 = wp if finite else init
                    g = fin if finite else not_(fin)
                    go_on = TRUE if wl is None else lt(tol.t, wl)
                    cases.append((and_(g, go_on), run_of(p0, n, step, tol)))
                if wl is not None:
                    last = run_of(warm(m - 1)[0], wn, wsz, tol) if isinstance(m, int) else run_of(warm(sub(m, O1))[0], wn, wsz, tol)
                    cases.append((not_(lt(tol.t, wl)), last))
                done = False
                for cond, want in cases:
                    if not nx.feasible(h + [cond]):
                        continue
                    done = True
                    if not (isinstance(p.value, tuple) and len(p.value) == 5):
                        r.fact(nm("five results"), q2, False, "path exploration")
                        continue
                    for a, b, lab2 in zip(p.value, want, names):
                        nx.discharge(r, nm(f"result {lab2} is that of the main run from the warmed-up parameters (or of the warm-up that reached the tolerance)"),
                                     q2, h + [cond], a, b)
                r.fact(nm("a case applies"), q2, done, "path exploration")
            nx.prove_paths(r, q2, ps, ex)
        finally:
            nx.EXTENDED[0] = False

    def pv_has(h, m):
        return not nx.feasible(h + [lt(ZI, m)])

    def W(k):
        """parameters handed on after k warm-up runs: W(0) = the initial ones, W(k+1) = best parameters of a run from W(k)"""
        init = nx.A((d,), lambda i: elem("p0", list(i)))
        return nx.A((d,), lambda i: ite(eq(nx.R_(k), ZERO), init.fn(i), uf("warm_params", [nx.R_(k)] + list(i))))

    def mk_loop(wstep):
        tol, wn = nx.S(var("tol")), nx.S(var("#wn", "I"))
        wsz = nx.S(var("wstep")) if wstep else nx.S(mul(num(5), var("step")))

        def st(k):
            zero = k.op == "num" and k.val == 0
            return dict(p_init=W(k), loss_init=nx.S(tm._mk("special", (), "inf", "R") if zero else uf("warm_loss", [nx.R_(k)])))

        def nxt(k):
            res = run_of(W(k), wn, wsz, tol)
            return dict(p_init=res[0], loss_init=res[1], fit_results=res)
        lc = nx.LoopContract(st, nxt=nxt)
        lc.after = lambda n: dict(st(n), fit_results=run_of(W(sub(n, O1)), wn, wsz, tol))
        return lc

    def bounded_only(r):
        for m in (0, 1, 2, 3):
            for w in (False, True):
                run(r, m, None, f"{m} warm-up runs{', given warm-up step' if w else ''}: ", w)
    def full(r):
        for w in (False, True):
            run(r, var("#nw", "I"), {0: mk_loop(w)}, f"any number of warm-up runs{', given warm-up step' if w else ''}: ", w)
    with R.guard("jax_adam_wrapper"):
        nx.by_contract_or_bounded(R, q2, full, bounded_only, "0 to 3 warm-up runs")


def obligations(R):
    with R.guard("_jax_adam_wrapper"):
        inner(R)
    outer(R)


# ------------------------------------------------------------------ concrete clauses
class Rec:
    """A quadratic loss with recorded evaluations and non-finite values injected at chosen calls."""

    def __init__(self, c, w, bump, bad, kind, quant=0.0):
        self.quant = quant
        self.c, self.w, self.bump, self.bad, self.kind, self.calls = np.asarray(c), np.asarray(w), bump, bad, kind, []

    def __call__(self, p, data):
        assert data == "data"
        p = np.asarray(p, float)
        k = len(self.calls)
        loss = float(np.sum(self.w * (p - self.c) ** 2) + self.bump * np.cos(7 * k))
        if self.quant:      # losses on a coarse grid: exact ties between steps and with the tolerance
            loss = np.ceil(loss / self.quant) * self.quant
        g = (2 * self.w * (p - self.c)).astype("f4")
        if k == self.bad:
            v = np.inf if "inf" in self.kind else np.nan
            if self.kind.startswith("loss"):
                loss = v
            else:
                g = g.copy()
                g[0] = v
        self.calls.append((p.copy(), loss, g))
        return loss, g


def check_run(rec, res, calls, n, tol, nfail=""):
    bp, bl, la, pa, flag = res
    msgs = []
    ok = [np.all(np.isfinite(p)) and np.isfinite(l) and np.all(np.isfinite(g)) for p, l, g in calls]
    stop = next((k for k in range(len(calls)) if not ok[k]), None)
    below = next((k for k in range(len(calls)) if ok[k] and calls[k][1] < tol), None)
    K = stop if stop is not None else below + 1 if below is not None else n
    if len(calls) != (K + 1 if stop is not None else K):
        msgs.append(f"{nfail}{len(calls)} evaluations, expected to stop after {K} good steps")
        return msgs
    la, pa = np.asarray(la, float), np.asarray(pa, float)
    want_l = np.array([c[1] for c in calls[:K]])
    if la.shape != (K,) or not close(la, want_l, 1e-6, 1e-9):
        msgs.append(f"{nfail}loss history has {la.shape} entries {la[:4]}, {K} good steps {want_l[:4]}")
    want_p = np.array([c[0] for c in calls[:K]], float)
    if pa.shape[0] != K or (K and not close(pa, want_p, 1e-5, 1e-6)):
        msgs.append(f"{nfail}parameter history of shape {pa.shape}, {K} good steps")
    if int(flag) != (0 if stop is not None else 1):
        msgs.append(f"{nfail}flag {flag}")
    if K:
        m = want_l.min()
        if not close(float(bl), m, 1e-6, 1e-9):
            msgs.append(f"{nfail}returned loss {bl}, smallest finite loss seen {m}")
        at = [k for k in range(K) if close(want_l[k], m, 1e-6, 1e-9)]
        if not any(close(np.asarray(bp, float), want_p[k], 1e-5, 1e-6) for k in at):
            msgs.append(f"{nfail}returned parameters {np.asarray(bp)} are not those of the best step {want_p[at[0]]}")
    return msgs


def check_adam(c, w, p0, bump, bad, kind, n, step, tol, quant=0.0):
    rec = Rec(c, w, bump, bad, kind, quant)
    res = FU._jax_adam_wrapper(rec, np.asarray(p0), "data", n, step_size=step, tol=tol)
    return check_run(rec, res, rec.calls, n, tol)


def check_warm(c, w, p0, bump, bad, kind, n, wn, nw, step, tol):
    rec = Rec(c, w, bump, bad, kind)
    res = FU.jax_adam_wrapper(rec, np.asarray(p0), "data", n, n_warmup=nw, step_size=step, warmup_n_step=wn, tol=tol)
    # cut the evaluations into runs by the contract of a run
    msgs, pos, start, last = [], 0, np.asarray(p0, float), float("inf")
    for r in range(nw + 1):
        size = wn if r < nw else n
        if r == nw and not last > tol:
            break
        seg = []
        while pos < len(rec.calls) and len(seg) < size:
            p, l, g = rec.calls[pos]
            seg.append(rec.calls[pos])
            pos += 1
            if not (np.all(np.isfinite(p)) and np.isfinite(l) and np.all(np.isfinite(g))) or l < tol:
                break
        if not seg:
            return msgs + [f"run {r} was never started"]
        if not close(seg[0][0], start, 1e-5, 1e-6):
            return msgs + [f"run {r} starts at {seg[0][0]}, the best parameters so far are {start}"]
        good = [(l, p) for p, l, g in seg if np.all(np.isfinite(p)) and np.isfinite(l) and np.all(np.isfinite(g))]
        final = seg
        if good:
            last, start = min(good, key=lambda z: z[0])
        else:
            last, start = 999.99, (seg[0][0] if r < nw and np.all(np.isfinite(seg[0][0])) else np.asarray(p0, float))
    if pos != len(rec.calls):
        msgs.append(f"{len(rec.calls)} evaluations, {pos} accounted for by {nw} warm-up runs and the main run")
    return msgs + check_run(rec, res, final, size if last > tol or r == nw else wn, tol, "final run: ")


def gen_common(rng, N):
    for k in range(N):
        dd = int(rng.integers(1, 5))
        yield k, dict(c=[float(x) for x in rng.normal(size=dd)], w=[float(x) for x in rng.uniform(0.2, 3, dd)], p0=[float(x) for x in rng.normal(size=dd)],
                      bump=float(rng.choice([0.0, 0.3])), kind=str(rng.choice(["loss_nan", "loss_inf", "grad_nan", "grad_inf"])), step=float(rng.choice([0.01, 0.1])))


def gen_adam(rng, N):
    for k, a in gen_common(rng, N):
        n = int(rng.integers(1, 9)) if k % 3 else int(rng.integers(1, 3))
        yield dict(a, bad=-1 if k % 2 else int(rng.integers(0, n)), n=n, tol=float(rng.choice([0.0, 0.5, 3.0])) if k % 4 == 1 else 0.0 if a["bump"] == 0 else -9.0)
        if k % 5 == 2:
            dd = len(a["c"])
            yield dict(a, c=[0.0] * dd, w=[1.0] * dd, p0=[1.0] + [0.0] * (dd - 1), bump=0.0, bad=-1, n=12, step=0.1, tol=0.5, quant=0.5)


def gen_warm(rng, N):
    for k, a in gen_common(rng, N):
        n, wn, nw = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(0, 4))
        yield dict(a, bad=-1 if k % 2 else int(rng.integers(0, n + wn * nw)), n=n, wn=wn, nw=nw,
                   tol=float(rng.choice([0.0, 0.5, 3.0])) if k % 4 == 1 else 0.0 if a["bump"] == 0 else -9.0)


CASES = {"adam": Case(check_adam, gen_adam, 60, 500), "warm": Case(check_warm, gen_warm, 60, 500)}
