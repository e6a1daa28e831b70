"""C22: population target data are the statistics of the rescaled sample histories."""
import os
import tempfile
import types
import warnings
import numpy as np
from ..lib import *
from ..check import Case
from .. import nx, hx
from . import mahlib as ml
from diffmah.fitting_helpers import measure_mahs as MM
from diffmah.diffmahpop_kernels import load_diffmahpop_fitdata as LF
from diffmah import diffmah_kernels as dk

M1, M2 = "measure_mahs:", "load_diffmahpop_fitdata:"
FUNCTIONS = [M1 + "measure_target_data", M1 + "get_clean_sample_mask"] + [M2 + k for k in (
    "rescale_target_log_mahs", "_add_n_sample_column", "_attach_samples", "_load_diffmahpop_mu_var_targets", "load_diffmahpop_targets", "_load_flat_hdf5")]
ASSUMPTIONS = ["numpy.interp returns the tabulated value at a tabulated point", "scipy.stats.mstats.trimmed_mean / trimmed_std are functions of the values and the limits",
               "astropy tables: named columns, a boolean mask keeps the selected rows (as a copy)", "numpy.load returns the array stored in the file of that name",
               "numpy.random.choice(population, size, replace=False) returns entries of the population, at positions that are an arbitrary function of the population's size", "h5py as in C18", "numpy indexing by a boolean mask (terms count/sel)",
               "mah_halopop is a function of its arguments, row h of its result belonging to halo h (C01, C02)"]
ZI, O1 = num(0, "I"), num(1, "I")


# ------------------------------------------------------------------ statistics
def at_knot(t, hyps, k):
    """replace interpolations evaluated at tabulated point k by the tabulated value"""
    for x in tm.subterms(t):
        if x.op == "uf" and x.val[1] == "interp":
            p, xp, fp = x.args
            h = list(hyps)
            a, b = nx.extensional(h, inst(xp, k), p)
            if not pv_eq(h, a, b):
                raise Unsupported("interpolation not over the tabulated times")
            t = tm.subst(t, {x: inst(fp, k)})
    return t


def inst(lm, i):
    return tm.subst(lm.args[1], {lm.args[0]: i})


def pv_eq(h, a, b):
    from ..prove import prove
    return a is b or prove(h, eq(a, b)).ok


def statistics(R):
    q = M1 + "measure_target_data"
    n, nt_, no = var("#n", "I"), var("#t", "I"), var("#o", "I")
    lm = lambda i: elem("lm", i)
    mah = nx.A((n, nt_), lambda i: pow10(lm(list(i))))
    dm = nx.A((n, nt_), lambda i: elem("dm", list(i)))
    lgt = nx.A((nt_,), lambda i: elem("lgt", list(i)))
    kn = lambda j: uf("knot", [j], "I")
    target = nx.A((no,), lambda j: elem("lgt", [kn(j[0])]))
    lmp = var("lmp")
    hyps = [le(O1, n), le(O1, nt_), le(ZI, no)]
    R.reachable("one or more halos and times", hyps)
    f = nx.sym_function(MM.measure_target_data)
    ps = nx.explore(lambda: f(mah, dm, lgt, target, nx.S(lmp)), hyps=hyps)
    j = I("j")
    k = kn(j)
    last = sub(nt_, O1)

    def stat(g, var_=False):
        s = tm.fresh("s", "I")
        mu = div(tm.summ(s, "n", g(s)), nx.R_(n))
        if not var_:
            return recanon(mu)
        s2 = tm.fresh("s", "I")
        d = sub(g(s2), mu)
        return recanon(div(tm.summ(s2, "n", mul(d, d)), nx.R_(n)))
    nx.dname(n)
    # the rescaled history of halo h: its own history times (sample mass / its final mass)
    sm = lambda h: mul(pow10(lmp), pow10(sub(lm([h, k]), lm([h, last]))))
    sl = lambda h: add(lmp, sub(lm([h, k]), lm([h, last])))
    sd = lambda h: div(mul(pow10(lmp), elem("dm", [h, k])), pow10(lm([h, last])))
    want = [("mean mass", stat(sm), [stat(sm)]), ("mean log-mass", stat(sl), [stat(sl)]), ("variance of log-mass", stat(sl, True), []),
            ("mean accretion rate", stat(sd), [stat(sd)]), ("variance of accretion rate", stat(sd, True), [stat(sd, True)])]

    def ex(kp, p):
        if p.kind != "return":
            R.fact(f"no error (path {kp})", q, False, "path exploration", repr(p.value))
            return
        R.fact(f"five results (path {kp})", q, isinstance(p.value, tuple) and len(p.value) == 5, "path exploration")
        for (nm, w, pos), v in zip(want, p.value):
            v = nx.as_array(v)
            h = list(p.pc) + [le(ZI, j), lt(j, no), le(ZI, k), lt(k, nt_)]
            R.prove(f"{nm}: one value per output time (path {kp})", q, list(p.pc), eq(nx.R_(nx.dT(v.shape[0])), nx.R_(no)))
            t = at_knot(v.at(j), h, k)
            # replace the statistics inside by the reference ones entry by entry
            sums = lambda z: [x for x in tm.subterms(z) if x.op == "sum"]
            h2 = list(h)
            a, b = nx.extensional(h2, tm._mk("tup", (t, *pos), (), "A"), w)
            t2, pos2 = a.args[0], a.args[1:]
            nonneg = []
            if nm.startswith("variance"):
                d = I("s")
                g = sub(sl(d) if "log" in nm else sd(d), stat(sl if "log" in nm else sd))
                R.prove(f"{nm}: every term of the sum is non-negative, hence so is the variance (sum_nonneg') (path {kp})", q, h, le(ZERO, mul(g, g)))
                nonneg = [le(ZERO, b)]
            R.prove(f"{nm} at a tabulated time is that of the rescaled sample (path {kp})", q, h2 + nonneg + [lt(ZERO, x) for x in pos2], eq(t2, b))
    nx.prove_paths(R, q, ps, ex)


def cleaning(R):
    q = M1 + "get_clean_sample_mask"
    lmp, lim, zc = var("lmp"), var("lim"), var("zcut")

    def scipy_stub():
        tri = lambda nm: (lambda x, limits=None, **k: nx.S(uf(nm, [nx.as_array(x).lam()] + [nx.R_(nx.L(v)) for v in limits])) if not k else (_ for _ in ()).throw(Unsupported("options")))
        m = types.SimpleNamespace(trimmed_mean=tri("trimmed_mean"), trimmed_std=tri("trimmed_std"))
        return types.SimpleNamespace(__stub__=True, stats=types.SimpleNamespace(mstats=m))
    resc = lambda n, m: (lambda h, it: add(sub(elem("x", [h, it]), elem("x", [h, sub(m, O1)])), lmp))

    def cond(n, m, it):
        f = resc(n, m)
        row = nx.A((n,), lambda h: f(h[0], it))
        mu, sd = uf("trimmed_mean", [row.lam(), lim, lim]), uf("trimmed_std", [row.lam(), lim, lim])
        return lambda h: lt(tm.tabs(div(sub(f(h, it), mu), sd)), zc)

    def run(r, n, m, itm, loops, lab):
        f = nx.sym_function(MM.get_clean_sample_mask, env=dict(scipy=scipy_stub()), loops=loops)
        hyps = [le(O1, n), le(O1, m), le(ZI, itm)]
        s = lambda t: int(t.val) if t.op == "num" else t
        ps = nx.explore(lambda: f(nx.A((s(n), s(m)), lambda i: elem("x", list(i))), nx.S(lmp), int(itm.val) if itm.op == "num" else nx.S(itm),
                                  lim=nx.S(lim), z_cut=nx.S(zc)), hyps=hyps)
        h = I("h")

        def ex(k, p):
            if p.kind != "return":
                r.fact(f"{lab}no error (path {k})", q, False, "path exploration", repr(p.value))
                return
            v = nx.as_array(p.value)
            r.prove(f"{lab}one entry per halo (path {k})", q, list(p.pc), eq(nx.R_(nx.dT(v.shape[0])), nx.R_(n)))
            if loops is None:
                its = range(int(itm.val), int(m.val) - 1)
                want = and_(*[cond(n, m, num(it, "I"))(h) for it in its])
                sds = [lt(ZERO, x) for it in its for x in tm.subterms(cond(n, m, num(it, "I"))(h)) if x.op == "uf" and x.val[1] == "trimmed_std"]
            else:
                want = ite_b(lt(ZERO, sub(sub(m, O1), itm)), clean(h, sub(sub(m, O1), itm)))
                sds = []
            got = v.at(h)
            hh = list(p.pc)
            w, g = nx.extensional(hh, tm._mk("tup", (want, *sds), (), "A"), got)
            r.prove(f"{lab}a halo is kept exactly when it stays inside at every checked time (path {k})", q, hh + list(w.args[1:]) + [le(ZI, h), lt(h, n)], iff(g, w.args[0]))
        nx.prove_paths(r, q, ps, ex)
    clean = lambda h, k: uf("clean", [h, nx.R_(k)], "B")
    ite_b = lambda c, x: or_(not_(c), x)

    def full(r):
        n, m, itm = var("#n", "I"), var("#m", "I"), var("#it", "I")
        # clean(h, 0) = true, clean(h, k+1) = clean(h, k) and halo h inside at time it_min + k: the conjunction over the first k checked times

        def st(k):
            return dict(clean_mask=nx.A((n,), lambda h: TRUE if k.op == "num" and k.val == 0 else or_(eq(nx.R_(k), ZERO), clean(h[0], k))))

        def nxt(k):
            c = cond(n, m, nx.add_i(k, itm))
            return dict(clean_mask=nx.A((n,), lambda h: and_(or_(eq(nx.R_(k), ZERO), clean(h[0], k)), c(h[0]))))
        run(r, n, m, itm, {0: nx.LoopContract(st, nxt=nxt)}, "")

    def full_complement(r):
        # the same with the set of halos left out so far
        n, m, itm = var("#n", "I"), var("#m", "I"), var("#it", "I")

        def st(k):
            return dict(left_out=nx.A((n,), lambda h: tm.FALSE if k.op == "num" and k.val == 0 else not_(or_(eq(nx.R_(k), ZERO), clean(h[0], k)))))

        def nxt(k):
            c = cond(n, m, nx.add_i(k, itm))
            return dict(left_out=nx.A((n,), lambda h: not_(and_(or_(eq(nx.R_(k), ZERO), clean(h[0], k)), c(h[0])))))
        run(r, n, m, itm, {0: nx.LoopContract(st, nxt=nxt)}, "")

    def bounded(r):
        for m, itm in ((2, 0), (3, 0), (4, 1), (3, 2), (4, 3)):
            run(r, var("#n", "I"), num(m, "I"), num(itm, "I"), None, f"{m} times from index {itm}: ")
    nx.by_contract_or_bounded(R, q, [full, full_complement], bounded, "2 to 4 tabulated times, any number of halos")


# ------------------------------------------------------------------ tables
class Files:
    """numpy.load: the array in the file of that name (five columns, one row per sample)."""

    def term(self, fn):
        ps = nx.pieces(os.path.normpath(str(fn)))
        return "".join("{}" if p in nx.TOKENS else p for p in ps), [nx.TOKENS[p] for p in ps if p in nx.TOKENS]

    def rows(self, fn):
        tpl, ts = self.term(fn)
        return uf("nrow:" + tpl, ts, "I")

    def cell(self, fn, r, c):
        tpl, ts = self.term(fn)
        return uf("cell:" + tpl, ts + [nx.R_(r), nx.R_(c)])

    def load(self, fn, *a, **k):
        nx.assume(le(ZI, self.rows(fn)))
        return nx.A((self.rows(fn), 5), lambda ij: self.cell(fn, ij[0], ij[1]))


FS = Files()


def choice(a, size=None, replace=True, p=None):
    if replace or p is not None:
        raise Unsupported("sampling with replacement")
    a = nx.as_array(a)
    if a.ndim == 0:
        n = nx.R_(a.at())
        a = nx.A((nx.D(nx.S(a.at())),), lambda i: i[0])
    size = nx.D(size)
    return nx.A((size,), lambda i, d=nx.dT(a.shape[0]): a.fn((uf("choice", [d, i[0]], "I"),)))


def pick(row_n, s):
    """entry drawn for sample s from a file of row_n rows"""
    return uf("choice", [row_n, s], "I")


def fname(drn, kind, lg, t):
    return nx.SStr(f"{drn}/lgm_{lg:.2f}_t_{t:.2f}_mah_params.{kind}.npy")


class hooks:
    def __enter__(self):
        nx.HOOKS.update(load=FS.load, random=types.SimpleNamespace(choice=choice))

    def __exit__(self, *a):
        nx.HOOKS.clear()


def base_table(kind, n, nt_, extra=()):
    c = dict(lgm_obs=nx.A((n,), lambda i: elem(kind + ".lgm", list(i))), t_obs=nx.A((n,), lambda i: elem(kind + ".t", list(i))),
             t_table=nx.A((n, nt_), lambda i: elem(kind + ".tt", list(i))))
    for k in extra:
        c[k] = nx.A((n,), lambda i, k=k: uf(kind + "." + k, list(i), "I"))
    return hx.Tab(c, n)


def rescale(R):
    q = M2 + "rescale_target_log_mahs"
    n, m = var("#n", "I"), var("#m", "I")
    f = nx.sym_function(LF.rescale_target_log_mahs)
    for lab, lg, at in (("one mass", nx.S(var("lg")), lambda i: var("lg")), ("a mass per halo", nx.A((n,), lambda i: elem("lg", list(i))), lambda i: elem("lg", [i]))):
        hyps = [le(O1, n), le(O1, m)]
        ps = nx.explore(lambda: f(nx.A((n, m), lambda i: elem("x", list(i))), lg), hyps=hyps)
        i, j, k = I("i"), I("j"), I("k")

        def ex(kp, p):
            if p.kind != "return":
                R.fact(f"{lab}: no error (path {kp})", q, False, "path exploration", repr(p.value))
                return
            v = nx.as_array(p.value)
            rng = [le(ZI, i), lt(i, n), le(ZI, j), lt(j, m), le(ZI, k), lt(k, m)]
            R.fact(f"{lab}: one row per halo, one column per time (path {kp})", q, len(v.shape) == 2 and nx.same_dim(v.shape[0], nx.D(n)) and nx.same_dim(v.shape[1], nx.D(m)), "shape")
            R.prove(f"{lab}: the final log-mass is the given one (path {kp})", q, list(p.pc) + rng, eq(v.at(i, sub(m, O1)), at(i)))
            R.prove(f"{lab}: the shape of each history is unchanged (path {kp})", q, list(p.pc) + rng, eq(sub(v.at(i, j), v.at(i, k)), sub(elem("x", [i, j]), elem("x", [i, k]))))
        nx.prove_paths(R, q, ps, ex)


def counting(R):
    q = M2 + "_add_n_sample_column"
    drn = nx.name_token("drn")
    nt_ = var("#t", "I")

    def counts(kind, t):
        return nx.A((t.n,), lambda i: FS.rows(fname(drn, "cens" if kind == "c" else "sats", nx.S(elem(kind + ".lgm", list(i))), nx.S(elem(kind + ".t", list(i))))))

    def run(r, nc, ns, loops, lab):
        with hooks():
            c, s = base_table("c", nc, nt_), base_table("s", ns, nt_)
            f = nx.sym_function(LF._add_n_sample_column, loops=loops)
            ps = nx.explore(lambda: f(drn, c.copy(), s.copy()), hyps=[le(ZI, nx.dT(c.n)), le(ZI, nx.dT(s.n)), le(O1, nt_)])

            def ex(k, p):
                nm = lambda z: f"{lab}{z} (path {k})"
                if p.kind != "return":
                    r.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                    return
                for kind, t0, t in zip("cs", (c, s), p.value):
                    want = dict(t0.cols, n_samples=counts(kind, t0))
                    nx.discharge(r, nm(f"{'centrals' if kind == 'c' else 'satellites'}: n_samples is the number of samples in the file of that mass and time, other columns unchanged"),
                                 q, list(p.pc), t.cols, want)
            nx.prove_paths(r, q, ps, ex)

    def full(r):
        nc, ns = var("#c", "I"), var("#s", "I")

        def lc(kind, name, n):
            t = base_table(kind, n, nt_)
            full_ = counts(kind, t)
            return nx.LoopContract(lambda k: {name: hx.Tab(dict(t.cols, n_samples=nx.A((n,), lambda i: ite(lt(i[0], k), full_.fn(i), ZI))), n)})
        run(r, nc, ns, {0: lc("c", "cendata", nc), 1: lc("s", "satdata", ns)}, "")

    def bounded(r):
        for a, b in ((0, 1), (2, 1), (1, 2)):
            run(r, a, b, None, f"{a} centrals, {b} satellites: ")
    nx.by_contract_or_bounded(R, q, full, bounded, "up to two rows per table")


SAMP = [k + "_samples" for k in ml.NAMES]


def attaching(R):
    q = M2 + "_attach_samples"
    drn = nx.name_token("drn")
    nt_ = var("#t", "I")
    cut = {k: var(k) for k in ("tc", "ts", "mc", "ms")}
    lt0 = tm.log10(tm.from_float(13.79))

    def halopop(params, t, lgt0):
        t = nx.as_array(t)
        ps = [nx.as_array(x) for x in params]
        if not all(nx.same_dim(x.shape[0], ps[0].shape[0]) for x in ps):
            raise ValueError("shapes")
        g = lambda nm: nx.A((ps[0].shape[0], t.shape[0]), lambda i: uf(nm, [x.fn((i[0],)) for x in ps] + [t.fn((i[1],)), nx.R_(nx.L(lgt0))]))
        return g("dmhdt"), g("logmah")

    def mask(kind, t):
        c = t.cols
        tmin, mmax = (cut["tc"], cut["mc"]) if kind == "c" else (cut["ts"], cut["ms"])
        return nx.A((t.n,), lambda i: and_(lt(tmin, c["t_obs"].fn(i)), lt(c["lgm_obs"].fn(i), mmax), le(nmin_[0], c["n_samples"].fn(i))))

    def sample(kept, kind, i, s, col):
        """value of parameter col of sample s attached to row i: from one row of that row's own file"""
        fn = fname(drn, "cens" if kind == "c" else "sats", nx.S(kept.cols["lgm_obs"].fn((i,))), nx.S(kept.cols["t_obs"].fn((i,))))
        return FS.cell(fn, pick(FS.rows(fn), s), num(col, "I"))

    def want_cols(kept, kind, upto1=None, upto2=None):
        n = kept.n
        ns = nmin_[0]
        out = dict(kept.cols)
        for c, k in enumerate(SAMP):
            out[k] = nx.A((n, nx.D(nx.S(ns))), lambda ij, c=c: sample(kept, kind, ij[0], ij[1], c) if upto1 is None else ite(lt(ij[0], upto1), sample(kept, kind, ij[0], ij[1], c), num(-1)))
        if upto1 is not None:
            return out

        def lgmah(i, s, t):
            return uf("logmah", [sample(kept, kind, i, s, c) for c in range(5)] + [kept.cols["t_table"].fn((i, t)), lt0])
        first = lambda ix, v: v if upto2 is None else ite(lt(ix[0], upto2), v, ZERO)
        sh = (n, nx.D(nx.S(ns)), nx.D(nt_))
        out["log_mah_samples"] = nx.A(sh, lambda ix: first(ix, lgmah(*ix)))
        out["log_mah_rescaled_samples"] = nx.A(sh, lambda ix: first(ix, add(sub(lgmah(*ix), lgmah(ix[0], ix[1], sub(nt_, O1))), kept.cols["lgm_obs"].fn((ix[0],)))))
        return out

    nmin_ = [var("#nmin", "I")]

    def files_ok(kind, t):
        """the n_samples column counts the samples of each row's file"""
        def at(i):
            fn = fname(drn, "cens" if kind == "c" else "sats", nx.S(t.cols["lgm_obs"].fn((i,))), nx.S(t.cols["t_obs"].fn((i,))))
            return eq(nx.R_(t.cols["n_samples"].fn((i,))), nx.R_(FS.rows(fn)))
        return at

    def tables(kind, n):
        return base_table(kind, n, nt_, ("n_samples",))

    def facts(kind, t, kept, k):
        m = mask(kind, t)
        pos = nx.sel(m, k)
        out = nx.mask_facts(m, k)
        # column n_samples of the table is the number of rows of the file (contract of _add_n_sample_column)
        return out + [files_ok(kind, t)(pos)]

    def run(r, nc, ns, loops, lab):
        with hooks():
            c, s = tables("c", nc), tables("s", ns)
            f = nx.sym_function(LF._attach_samples, env=dict(mah_halopop=halopop), loops=loops)
            hyps = [le(ZI, nx.dT(c.n)), le(ZI, nx.dT(s.n)), le(O1, nt_), le(O1, nmin_[0])]
            if loops is None:
                hyps += [files_ok(kd, t)(num(i, "I")) for kd, t in (("c", c), ("s", s)) for i in range(t.n)]
            nm_arg = nx.S(nmin_[0])
            r.reachable(lab + "any tables", hyps)
            ps = nx.explore(lambda: f(drn, c.copy(), s.copy(), nx.S(cut["tc"]), nx.S(cut["ts"]), nx.S(cut["mc"]), nx.S(cut["ms"]), nm_arg), hyps=hyps)

            def ex(k, p):
                nm = lambda z: f"{lab}{z} (path {k})"
                if p.kind != "return":
                    r.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                    return
                for kind, t0, t in zip("cs", (c, s), p.value):
                    w = "centrals" if kind == "c" else "satellites"
                    old = nx.Ctx.cur
                    nx.Ctx.cur = types.SimpleNamespace(pc=list(p.pc), decide=lambda cc, pc=p.pc: decided(pc, cc), assume=lambda *a: None)
                    try:
                        kept = t0[mask(kind, t0)]
                    finally:
                        nx.Ctx.cur = old
                    base = {k2: v for k2, v in t.cols.items() if k2 in kept.cols}
                    nx.discharge(r, nm(f"{w}: exactly the rows passing the mass, time and size cuts, in order"), q, list(p.pc), base, kept.cols)
                    want = want_cols(kept, kind)
                    r.fact(nm(f"{w}: columns"), q, sorted(t.cols) == sorted(want), "path exploration", str(sorted(t.cols)))
                    for k2 in want:
                        if k2 in t.cols and k2 not in kept.cols:
                            what = ("attached parameters are samples of that row's own file" if k2 in SAMP else
                                    "attached histories are those of the attached parameters" if k2 == "log_mah_samples" else
                                    "rescaled histories end at the row's mass and keep their shape")
                            nx.discharge(r, nm(f"{w}: {what}: {k2}"), q, list(p.pc), t.cols[k2], want[k2])
            nx.prove_paths(r, q, ps, ex)

    def decided(pc, c):
        for p in pc:
            if p is c:
                return True
            if p is not_(c):
                return False
        if not nx.feasible(list(pc) + [c]):
            return False
        if not nx.feasible(list(pc) + [not_(c)]):
            return True
        raise Unsupported("selection not determined on a path")

    def full(r):
        nc, ns = var("#c", "I"), var("#s", "I")

        def lcs(kind, name, n):
            t = tables(kind, n)
            kept = t[mask(kind, t)]
            fa = lambda k: facts(kind, t, kept, k)
            a = nx.LoopContract(lambda k: {name: hx.Tab(want_cols(kept, kind, upto1=k), kept.n)}, facts=fa)
            b = nx.LoopContract(lambda k: {name: hx.Tab(want_cols(kept, kind, upto2=k), kept.n)}, facts=fa)
            return a, b
        a, b = lcs("c", "cendata", nc)
        c, d = lcs("s", "satdata", ns)
        run(r, nc, ns, {0: a, 1: c, 2: b, 3: d}, "")

    def bounded(r):
        for a, b in ((1, 0), (0, 1), (2, 1), (1, 2)):
            run(r, a, b, None, f"{a} centrals, {b} satellites: ")
    nx.by_contract_or_bounded(R, q, full, bounded, "up to two rows per table")


def loading(R):
    q = M2 + "_load_diffmahpop_mu_var_targets"
    drn = nx.name_token("drn")
    n, m, k = var("#n", "I"), var("#m", "I"), var("#k", "I")

    def arr(f, nm, *d):
        return nx.A(d, lambda i: elem(f + nm, list(i)))
    tree = lambda f, d: {"mean_log_mah": arr(f, "mlm", d, m), "lgm_obs": arr(f, "lg", d), "t_obs": arr(f, "t", d), "t_table": arr(f, "tt", d, m)}
    files = {str(drn + "/mean_var_cens.h5"): tree("c.", n), str(drn + "/mean_var_sats.h5"): tree("s.", k)}

    def run():
        h5 = hx.H5({a: dict(b) for a, b in files.items()})
        f = nx.sym_function(LF._load_diffmahpop_mu_var_targets, env=dict(h5py=h5, Table=lambda d: hx.Tab({a: nx.A(b.shape, b.fn) for a, b in d.items()})))
        return f(drn)
    ps = nx.explore(run, hyps=[le(O1, n), le(O1, m), le(O1, k)])

    def ex(kp, p):
        if p.kind != "return":
            R.fact(f"no error (path {kp})", q, False, "path exploration", repr(p.value))
            return
        for (fn, cols), t, f in zip(files.items(), p.value, ("c.", "s.")):
            d = next(iter(cols.values())).shape[0]
            want = dict(cols, mean_log_mah_rescaled=nx.A((d, m), lambda ij, f=f: add(sub(elem(f + "mlm", list(ij)), elem(f + "mlm", [ij[0], sub(m, O1)])), elem(f + "lg", [ij[0]]))))
            nx.discharge(R, f"{'centrals' if f == 'c.' else 'satellites'}: the stored columns, and the mean history rescaled to the row's mass (path {kp})", q, list(p.pc), t.cols, want)
    nx.prove_paths(R, q, ps, ex)


def composing(R):
    q = M2 + "load_diffmahpop_targets"
    drn = nx.name_token("drn")
    args = dict(t_obs_min_cen=var("tc"), t_obs_min_sat=var("ts"), lgm_obs_max_cen=var("mc"), lgm_obs_max_sat=var("ms"), n_sample_min=var("#nmin", "I"))
    mk = lambda nm, *a: nx.Obj(uf(nm, list(a), "Tab"))
    st = nx.TOKENS[str(drn)]

    def load(drn):
        return mk("cen0", nx.str_term(drn)), mk("sat0", nx.str_term(drn))

    def count(drn, c, s):
        return mk("cen1", nx.str_term(drn), c.t), mk("sat1", nx.str_term(drn), s.t)

    def attach(drn, c, s, tc, ts, mc, ms, n_sample_min):
        a = [nx.R_(nx.L(v)) for v in (tc, ts, mc, ms, n_sample_min)]
        return mk("cen2", nx.str_term(drn), c.t, *a), mk("sat2", nx.str_term(drn), s.t, *a)
    import inspect
    names = list(inspect.signature(LF._attach_samples).parameters)
    if names[:3] != ["drn", "cendata", "satdata"]:
        raise Unsupported("signature of _attach_samples")

    def attach_kw(*a, **k):
        b = inspect.signature(LF._attach_samples).bind(*a, **k).arguments
        return attach(b["drn"], b["cendata"], b["satdata"], b["t_obs_min_cen"], b["t_obs_min_sat"], b["lgm_obs_max_cen"], b["lgm_obs_max_sat"], b["n_sample_min"])
    f = nx.sym_function(LF.load_diffmahpop_targets, env=dict(_load_diffmahpop_mu_var_targets=load, _add_n_sample_column=count, _attach_samples=attach_kw))
    ps = nx.explore(lambda: f(drn, **{k: nx.S(v) for k, v in args.items()}))
    c0, s0 = load(drn)
    c1, s1 = count(drn, c0, s0)
    want = attach(drn, c1, s1, *args.values())

    def ex(k, p):
        if p.kind != "return":
            R.fact(f"no error (path {k})", q, False, "path exploration", repr(p.value))
            return
        nx.discharge(R, f"targets of the given directory, counted, then cut and attached with the given cuts (path {k})", q, list(p.pc), p.value, want)
    nx.prove_paths(R, q, ps, ex)


def obligations(R):
    for what, f in (("statistics", statistics), ("cleaning", cleaning), ("rescale", rescale), ("counting", counting), ("attaching", attaching), ("loading", loading), ("composing", composing)):
        with R.guard(what):
            f(R)


# ------------------------------------------------------------------ concrete
def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def check_stats(n, m, logmp, seed, order="C"):
    rng = np.random.default_rng(seed)
    lm = np.sort(rng.uniform(8, 15, (n, m)), axis=1)
    dm = 10 ** rng.uniform(6, 12, (n, m))
    lgt = np.sort(rng.uniform(0, 1.14, m)) + 1e-3 * np.arange(m)
    ks = rng.permutation(m)[:max(1, m // 2)]
    ks.sort()
    mah = np.asarray(10 ** lm, order=order)
    keep = mah.copy(), dm.copy()
    out = MM.measure_target_data(mah, dm, lgt, lgt[ks], logmp)
    sm = 10 ** logmp * mah / mah[:, -1:]
    sd = 10 ** logmp * dm / mah[:, -1:]
    want = [sm.mean(0), np.log10(sm).mean(0), np.log10(sm).var(0), sd.mean(0), sd.var(0)]
    msgs = []
    for nm, a, b in zip(("mean mass", "mean log-mass", "variance of log-mass", "mean rate", "variance of rate"), out, want):
        b = b[ks]
        if nm == "mean log-mass" and (b <= 0).any():
            continue
        ok = b > 0 if nm == "variance of rate" else np.ones(b.shape, bool)
        if np.shape(a) != b.shape or not close(np.asarray(a)[ok], b[ok]):
            msgs.append(f"{nm} at tabulated times {ks}: {a[:4]} but sample gives {b[:4]}")
    if not (np.array_equal(mah, keep[0]) and np.array_equal(dm, keep[1])):
        msgs.append("input arrays modified")
    return msgs


def check_clean(n, m, it_min, lim, z_cut, logmp, seed):
    from scipy.stats.mstats import trimmed_mean, trimmed_std
    rng = np.random.default_rng(seed)
    lm = np.sort(rng.normal(12, 0.4, (n, m)), axis=1)
    lm[rng.integers(n, size=max(1, n // 12)), rng.integers(m, size=max(1, n // 12))] -= rng.uniform(1, 6)
    keep = lm.copy()
    mask = MM.get_clean_sample_mask(lm, logmp, it_min, lim=lim, z_cut=z_cut)
    x = keep - keep[:, -1:] + logmp
    ok = np.ones(n, bool)
    unsure = np.zeros(n, bool)
    for it in range(it_min, m - 1):
        z = np.abs((x[:, it] - float(trimmed_mean(x[:, it], limits=(lim, lim)))) / float(trimmed_std(x[:, it], limits=(lim, lim))))
        ok &= z < z_cut
        unsure |= np.abs(z - z_cut) < 1e-6
    msgs = []
    if np.shape(mask) != (n,) or np.asarray(mask).dtype != bool:
        return [f"mask {np.shape(mask)} {np.asarray(mask).dtype}"]
    bad = (np.asarray(mask) != ok) & ~unsure
    if bad.any():
        msgs.append(f"halos {np.flatnonzero(bad)[:5]}: kept {np.asarray(mask)[bad][:5]} expected {ok[bad][:5]} (it_min {it_min}, lim {lim}, z_cut {z_cut})")
    if not np.array_equal(lm, keep):
        msgs.append("input histories modified")
    return msgs


def check_rescale(n, m, per_halo, seed):
    rng = np.random.default_rng(seed)
    x = rng.uniform(5, 16, (n, m))
    lg = rng.uniform(10, 15, n) if per_halo else float(rng.uniform(10, 15))
    keep = x.copy()
    out = np.asarray(LF.rescale_target_log_mahs(x, lg))
    want = keep - keep[:, -1:] + (lg[:, None] if per_halo else lg)
    if out.shape != (n, m) or not close(out, want, 1e-10):
        return [f"rescaled {out[:2]} expected {want[:2]}"]
    return [] if np.array_equal(x, keep) else ["input modified"]


def check_load(nc, ns, n_min, m, tc, ts, mc, ms, seed):
    import h5py
    rng = np.random.default_rng(seed)
    msgs = []
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tabs, files = {}, {}
        for kind, n in (("cens", nc), ("sats", ns)):
            pairs = [(a, b) for a in (11.0, 11.5, 12.25, 13.0, 13.75, 14.5, 15.0) for b in (1.5, 2.5, 4.0, 7.25, 13.0)]
            pick_ = [pairs[i] for i in rng.permutation(len(pairs))[:n]]
            tab = dict(lgm_obs=np.array([p[0] for p in pick_]), t_obs=np.array([p[1] for p in pick_]),
                       t_table=np.array([np.linspace(0.5, p[1], m) for p in pick_]), mean_log_mah=np.sort(rng.uniform(8, 14, (n, m)), axis=1),
                       std_mah=rng.uniform(0.1, 1, (n, m)))
            with h5py.File(os.path.join(d, f"mean_var_{kind}.h5"), "w") as h:
                for k, v in tab.items():
                    h[k] = v
            tabs[kind] = tab
            for i, (a, b) in enumerate(pick_):
                r = int(rng.choice([n_min - 1, n_min, n_min + 1, n_min + 7]))
                arr = np.stack([rng.uniform(10, 15, r), rng.uniform(0.1, 0.9, r), rng.uniform(1.5, 3, r), rng.uniform(0.1, 1, r), rng.uniform(2, 14, r)], 1)
                files[kind, i] = arr
                np.save(os.path.join(d, f"lgm_{a:.2f}_t_{b:.2f}_mah_params.{kind}.npy"), arr)
        np.random.seed(seed)
        out = LF.load_diffmahpop_targets(d, t_obs_min_cen=tc, t_obs_min_sat=ts, lgm_obs_max_cen=mc, lgm_obs_max_sat=ms, n_sample_min=n_min)
    for (kind, t0), got, tmin, mmax in zip(tabs.items(), out, (tc, ts), (mc, ms)):
        n = len(t0["lgm_obs"])
        rows = [i for i in range(n) if t0["t_obs"][i] > tmin and t0["lgm_obs"][i] < mmax and len(files[kind, i]) >= n_min]
        if len(got) != len(rows):
            msgs.append(f"{kind}: {len(got)} rows kept, expected rows {rows}")
            continue
        for k, v in t0.items():
            if not np.array_equal(np.asarray(got[k]), v[rows]):
                msgs.append(f"{kind}: column {k} of the kept rows {np.asarray(got[k])[:2]} expected {v[rows][:2]}")
        if list(got["n_samples"]) != [len(files[kind, i]) for i in rows]:
            msgs.append(f"{kind}: n_samples {list(got['n_samples'])} expected {[len(files[kind, i]) for i in rows]}")
        w = t0["mean_log_mah"] - t0["mean_log_mah"][:, -1:] + t0["lgm_obs"][:, None]
        if not close(np.asarray(got["mean_log_mah_rescaled"]), w[rows]):
            msgs.append(f"{kind}: mean_log_mah_rescaled")
        for j, i in enumerate(rows):
            ps = np.stack([np.asarray(got[c])[j] for c in SAMP], 1)
            if ps.shape != (n_min, 5):
                msgs.append(f"{kind} row {j}: samples of shape {ps.shape}")
                continue
            own = files[kind, i]
            ix = [np.flatnonzero((np.abs(own - p) < 1e-9).all(1)) for p in ps]
            if any(len(x) != 1 for x in ix) or len({int(x[0]) for x in ix if len(x)}) != n_min:
                msgs.append(f"{kind} row {j}: attached parameters are not distinct samples of the row's own file (row {i} of the target file)")
                continue
            lm = np.asarray(got["log_mah_samples"])[j]
            rs = np.asarray(got["log_mah_rescaled_samples"])[j]
            if lm.shape != (n_min, m) or rs.shape != (n_min, m):
                msgs.append(f"{kind} row {j}: histories of shape {lm.shape} {rs.shape}")
                continue
            for s in range(min(n_min, 3)):
                w = np.asarray(dk.mah_singlehalo(dk.DEFAULT_MAH_PARAMS._make(ps[s]), t0["t_table"][i], np.log10(13.79))[1])
                if not close(lm[s], w, 2e-5):
                    msgs.append(f"{kind} row {j} sample {s}: history {lm[s][:3]} but its parameters give {w[:3]}")
            if not close(rs, lm - lm[:, -1:] + t0["lgm_obs"][i], 2e-5):
                msgs.append(f"{kind} row {j}: rescaled histories {rs[0][:3]} expected {(lm - lm[:, -1:] + t0['lgm_obs'][i])[0][:3]}")
    return msgs


def gen_stats(rng, N):
    for k in range(N):
        yield dict(n=int(rng.choice([1, 2, 7, 30])), m=int(rng.choice([2, 3, 8, 20])), logmp=float(rng.uniform(10, 15)), seed=k, order="CF"[k % 2])


def gen_clean(rng, N):
    for k in range(N):
        m = int(rng.integers(2, 8))
        yield dict(n=int(rng.choice([20, 60, 200])), m=m, it_min=int(rng.integers(0, m)), lim=float(rng.choice([0.01, 0.05, 0.1])), z_cut=float(rng.choice([1.0, 2.0, 3.0])),
                   logmp=float(rng.uniform(11, 15)), seed=k)


def gen_rescale(rng, N):
    for k in range(N):
        yield dict(n=int(rng.choice([1, 2, 9])), m=int(rng.choice([1, 2, 9])), per_halo=bool(k % 2), seed=k)


def gen_load(rng, N):
    for k in range(N):
        yield dict(nc=int(rng.integers(1, 7)), ns=int(rng.integers(1, 7)), n_min=int(rng.choice([1, 2, 4])), m=int(rng.choice([2, 5])),
                   tc=float(rng.choice([0.0, 2.5, 4.0])), ts=float(rng.choice([0.0, 2.5, 4.0])), mc=float(rng.choice([14.5, 15.5, 13.0])), ms=float(rng.choice([13.5, 15.5, 13.0])), seed=k)


CASES = {"stats": Case(check_stats, gen_stats, 60, 600), "clean": Case(check_clean, gen_clean, 40, 400), "rescale": Case(check_rescale, gen_rescale, 20, 100),
         "load": Case(check_load, gen_load, 12, 150)}
