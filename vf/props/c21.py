"""C21: loaded simulation histories are cumulative maxima of the stored masses."""
import contextlib
import os
import tempfile
import types
import warnings
from collections import namedtuple
from fractions import Fraction
import numpy as np
from ..lib import *
from ..check import Case
from .. import nx, hx
from ..jx import Unsupported
from diffmah.data_loaders import load_hacc_mahs as LH, load_bpl_um_data as LB, load_tng_mahs as LT, load_diffmah_pub_data as LP, load_galacticus_eps_mahs as LG
from dsps.cosmology import flat_wcdm

FUNCTIONS = ["load_hacc_mahs:" + k for k in ("load_mahs", "_load_forest", "get_cosmic_time_hacc", "load_mahs_per_rank", "_scatter_nd")] + [
    "load_bpl_um_data:load_bpl_mah_data", "load_tng_mahs:load_tng_data"] + ["load_diffmah_pub_data:" + k for k in ("load_tng_data", "load_bolshoi_data", "load_mdpl2_data")] + [
    "load_galacticus_eps_mahs:extract_galacticus_mah_tables", "load_galacticus_eps_mahs:get_nhalos_tot"]
ASSUMPTIONS = ["numpy.maximum.accumulate: entry k is one of entries 0..k and none of them exceeds it (term cummax)", "numpy.load / numpy.loadtxt return what the file of that name stores",
               "numpy.array_split(x, k): piece j is rows [j q + min(j, r), (j+1) q + min(j+1, r)) with len(x) = k q + r, 0 <= r < k",
               "haccytrees, umachine_pyio and dsps: the readers return the stored columns of the requested files/chunk; age_at_z is a function of redshift and cosmology, element by element",
               "MPI: a message sent to a rank is the one that rank receives from the sender; bcast hands every rank the root's value", "h5py as in C18",
               "at least two snapshots (numpy.loadtxt of a single number is not an array)", "stored masses are zero or at least 1 (Msun or Msun/h), stored log-masses are non-negative"]
ZI, O1 = num(0, "I"), num(1, "I")
TOL = num(Fraction(1, 10 ** 12))


# ------------------------------------------------------------------ running maximum
def cummaxes(*ts):
    seen = {}
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "uf" and x.val[1] in ("cummax", "argcum"):
                seen[x.uid] = x
    return [x for x in seen.values() if x.val[1] == "cummax"]


def row(lam, i):
    return tm.subst(lam.args[1], {lam.args[0]: i})


def arg_of(c):
    return uf("argcum", list(c.args), "I")


def cum_facts(cs, probes):
    """the contract of a running maximum, for the occurring terms"""
    out = []
    for c in cs:
        lam, k = c.args
        a = arg_of(c)
        out += [le(ZI, a), le(a, k), eq(c, row(lam, a))]
        for j in list(probes) + [arg_of(d) for d in cs if d is not c and d.args[0] is lam]:
            out.append(or_(lt(j, ZI), lt(k, j), le(row(lam, j), c)))
    return out


def running_max(R, q, lab, hyps, O, n, m, stored, conv, dom, tol=False):
    """O (array n x m) is the running maximum of conv(stored(h, s)); dom(x): what is assumed of a stored value"""
    h, s, t, t2 = I("h"), I("s"), I("t"), I("t2")
    O = nx.as_array(O)
    R.prove(f"{lab}: one row per stored halo, one column per snapshot", q, hyps, and_(eq(nx.R_(nx.dT(O.shape[0])), nx.R_(n)), eq(nx.R_(nx.dT(O.shape[1])), nx.R_(m)))
            if O.ndim == 2 else FALSE)
    if O.ndim != 2:
        return
    rng = list(hyps) + [le(ZI, h), lt(h, n), le(ZI, s), le(s, t), lt(t, m)]
    o, o2 = O.at(h, t), O.at(h, t2)
    cs = cummaxes(o, o2)
    args = [arg_of(c) for c in cs]
    fx = cum_facts(cs, [s, t, t2])
    idx = [s, t, t2] + args
    fx += [dom(stored(h, i)) for i in idx]
    lo, hi = (lambda x: mul(sub(ONE, TOL), x)), (lambda x: mul(add(ONE, TOL), x))
    c = lambda i: conv(stored(h, i))
    R.prove(f"{lab}: never below the stored mass of the same or an earlier snapshot", q, rng + fx, le(lo(c(s)) if tol else c(s), o))
    cands = [i for k, i in ((k, arg_of(k)) for k in cummaxes(o))] or [t]
    R.prove(f"{lab}: equal to the stored mass of the same or an earlier snapshot", q, rng + fx,
            or_(*[and_(le(ZI, i), le(i, t), and_(le(lo(c(i)), o), le(o, hi(c(i)))) if tol else eq(o, c(i))) for i in cands]))
    R.prove(f"{lab}: never decreases", q, rng + [le(t, t2), lt(t2, m)] + fx, le(o, o2))


def same(R, name, q, pc, got, want):
    nx.discharge(R, name, q, list(pc), got, want)


def paths(R, q, f, hyps, ok_raise=None):
    ps = nx.explore(f, hyps=hyps)
    out = []

    def ex(k, p):
        if p.kind == "return":
            out.append((k, p))
        elif not (ok_raise and isinstance(p.value, ok_raise)):
            R.fact(f"no error (path {k})", q, False, "path exploration", repr(p.value))
    nx.prove_paths(R, q, ps, ex)
    R.fact("a result is returned", q, bool(out), "path exploration")
    return out


n, m = var("#n", "I"), var("#m", "I")
SIZES = [le(O1, n), le(num(2, "I"), m)]


# ------------------------------------------------------------------ files
class Rec(nx.A):
    """what numpy.load / loadtxt gives: an array, or a table of named columns"""

    def __init__(self, key, toks):
        self.key, self.toks = key, toks
        nx.A.__init__(self, (m,), lambda i: uf("file:" + key, toks + list(i)))

    def __getitem__(self, k):
        if isinstance(k, str):
            sh = (n, m) if k in ("mpeakh", "mpeak_history_main_prog") else (n,)
            return nx.A(sh, lambda i: uf(f"file:{self.key}:{k}", self.toks + list(i)))
        return nx.getitem(nx.A(self.shape, self.fn), k)


def load(fn, *a, **k):
    if a or k:
        raise Unsupported("options of the reader")
    ps = nx.pieces(os.path.normpath(str(fn)))
    return Rec("".join("{}" if p in nx.TOKENS else p for p in ps), [nx.TOKENS[p] for p in ps if p in nx.TOKENS])


@contextlib.contextmanager
def hooks(**h):
    nx.HOOKS.update(h)
    try:
        yield
    finally:
        nx.HOOKS.clear()


pos0 = lambda x: or_(eq(x, ZERO), le(ONE, x))
log_or_0 = lambda x: ite(eq(x, ZERO), ZERO, log10(x))


def pub(R):
    drn, gt = nx.name_token("drn"), nx.name_token("gal_type")
    F = lambda name, col=None: load(drn + "/" + name) if col is None else load(drn + "/" + name)[col]
    with hooks(load=load, loadtxt=load):
        for fn, q, args, base, idcol, mcol, times, conv, dom, lgmin in (
                (LP.load_tng_data, "load_diffmah_pub_data:load_tng_data", (), "tng_diffmah.npy", None, "mpeakh", "tng_cosmic_time.npy", lambda x: x, lambda x: TRUE, 10.0),
                (LP.load_bolshoi_data, "load_diffmah_pub_data:load_bolshoi_data", (gt,), "bpl_diffmah_" + gt + ".npy", "halo_id", "mpeak_history_main_prog", "bpl_cosmic_time.npy", log_or_0, pos0, 10.0),
                (LP.load_mdpl2_data, "load_diffmah_pub_data:load_mdpl2_data", (gt,), "mdpl2_diffmah_" + gt + ".npy", "halo_id", "mpeak_history_main_prog", "mdpl2_cosmic_time.txt", log_or_0, pos0, 11.25)):
            with R.guard(q):
                f = nx.sym_function(fn)
                for k, p in paths(R, q, lambda: f(*args, data_drn=drn), SIZES):
                    ids, mah, t, lg = p.value
                    same(R, f"halo ids in file order (path {k})", q, p.pc, ids, F(base, idcol) if idcol else nx.A((n,), lambda i: i[0]))
                    same(R, f"the ages of the stored snapshots, in order (path {k})", q, p.pc, t, nx.A((m,), load(drn + "/" + times).fn))
                    R.fact(f"minimum mass of the fit (path {k})", q, lg == lgmin, "path exploration")
                    st = F(base, mcol)
                    running_max(R, q, f"log-masses (path {k})", list(p.pc), mah, n, m, lambda h, s: st.at(h, s), conv, dom)
        q = "load_tng_mahs:load_tng_data"
        with R.guard(q):
            f = nx.sym_function(LT.load_tng_data)
            for k, p in paths(R, q, lambda: f(drn), SIZES, AssertionError):
                t, mah = p.value
                same(R, f"the ages of the stored snapshots, in order (path {k})", q, p.pc, t, nx.A((m,), load(drn + "/tng_cosmic_time.npy").fn))
                st = F("tng_diffmah.npy", "mpeakh")
                H = num(Fraction(6774, 10000))
                running_max(R, q, f"masses (path {k})", list(p.pc), mah, n, m, lambda h, s: st.at(h, s), lambda x: ite(eq(x, ZERO), ZERO, div(pow10(x), H)), lambda x: le(ZERO, x), tol=True)


AGE = list(__import__("inspect").signature(flat_wcdm.age_at_z).parameters)


def age_at_z(*a, **k):
    """element by element in the redshift"""
    b = dict(zip(AGE, a), **k)
    z = nx.as_array(b["redshift"])
    c = [nx.R_(nx.L(b[x])) for x in AGE[1:]]
    return nx.A(z.shape, lambda i: uf("age", [z.fn(i)] + c))


COSMO = types.SimpleNamespace(age_at_z=age_at_z, CosmoParams=flat_wcdm.CosmoParams)


def bpl(R):
    q = "load_bpl_um_data:load_bpl_mah_data"
    drn = nx.name_token("drn")
    MP = "mpeak_history_main_prog"

    def mock(subvolumes, rootdir, galprops=None, **k):
        if k:
            raise Unsupported("reader options")
        sv = [nx.R_(nx.L(v)) for v in subvolumes] + [nx.str_term(rootdir)]
        return {c: nx.A((n, m) if c == MP else (n,), lambda i, c=c: uf("um:" + c, sv + list(i))) for c in galprops}
    with hooks(loadtxt=load):
        f = nx.sym_function(LB.load_bpl_mah_data, env=dict(load_mock_from_binaries=mock, HAS_UM_PYIO=True, HAS_DSPS=True, flat_wcdm=COSMO))
        sv = [nx.S(var("#v0", "I")), nx.S(var("#v1", "I"))]
        for k, p in paths(R, q, lambda: f(drn, sv), SIZES):
            ids, mah, t, lg, lgt0 = p.value
            st = mock(sv, drn, ("halo_id", MP))
            same(R, f"halo ids in file order (path {k})", q, p.pc, ids, st["halo_id"])
            a = load(drn + "/scale_list_bpl.dat")
            c = [tm.from_float(x) for x in (0.307, -1.0, 0.0, 0.678)]
            want_t = nx.A((m,), lambda i: uf("age", [sub(div(ONE, a.fn(i)), ONE)] + c))
            h = [lt(ZERO, a.fn((I("ix_0"),))), lt(ZERO, a.fn((sub(m, O1),)))]
            same(R, f"the ages of the stored snapshots, in order (path {k})", q, list(p.pc) + h, t, want_t)
            R.prove(f"z=0 age is the last snapshot's (path {k})", q, list(p.pc) + h, eq(nx.R_(nx.L(lgt0)), log10(want_t.at(sub(m, O1)))))
            R.fact(f"minimum mass of the fit (path {k})", q, lg == 10.0, "path exploration")
            running_max(R, q, f"masses in Msun, at least 1 (path {k})", list(p.pc), mah, n, m, lambda i, s: st[MP].at(i, s), lambda x: ite(lt(x, ONE), ONE, x), lambda x: TRUE)


# ------------------------------------------------------------------ HACC
def hacc_env(sim_fields):
    names = ("Omega_m", "w0", "wa", "h")
    nst = m

    class Sim:
        def __init__(self, nm):
            st = nx.str_term(nm)
            self.t = st
            self.cosmo = types.SimpleNamespace(**{k: nx.S(uf("cosmo:" + k, [st])) for k in names})
            self.cosmotools_steps = nx.A((nst,), lambda i: uf("step", [st] + list(i), "I"))
            self.step2z = lambda s: (lambda a: nx.A(a.shape, lambda i: uf("z", [st, a.fn(i)])))(nx.as_array(s))

    class Sims:
        def __getitem__(self, k):
            if not nx.decide(uf("known_simulation", [nx.str_term(k)], "B")):
                raise KeyError(k)
            return Sim(k)

    def reader(fn, calculate_secondary_host_row=False, nchunks=1, chunknum=0, simulation=None, **k):
        if k or not isinstance(simulation, Sim):
            raise Unsupported("reader options")
        a = [nx.str_term(fn), simulation.t, nx.R_(nx.L(nchunks)), nx.R_(nx.L(chunknum))]
        return {c: nx.A((n, m), lambda i, c=c: uf("core:" + c, a + list(i))) for c in ("infall_tree_node_mass", "other_mass")}
    return dict(HACCSim=types.SimpleNamespace(simulations=Sims(), parse_config=Sim), coretrees=types.SimpleNamespace(corematrix_reader=reader), HAS_HACCYTREES=True, HAS_DSPS=True,
                flat_wcdm=COSMO), Sim, reader


def hacc(R):
    fn, sim = nx.name_token("fn_data"), nx.name_token("sim_name")
    ck, nk = nx.S(var("#ck", "I")), nx.S(var("#nk", "I"))
    env, Sim, reader = hacc_env(None)
    s = Sim(sim)
    ages = nx.A((m,), lambda i: uf("age", [uf("z", [s.t, uf("step", [s.t] + list(i), "I")])] + [s.cosmo.__dict__[k].t for k in ("Omega_m", "w0", "wa", "h")]))
    zs = nx.A((m,), lambda i: uf("z", [s.t, uf("step", [s.t] + list(i), "I")]))
    hyps = SIZES + [lt(ZERO, s.cosmo.h.t)]
    memo = {}
    q = "load_hacc_mahs:load_mahs"
    with R.guard(q):
        f = nx.sym_function(LH.load_mahs, env=env)
        for col in (None, "other_mass"):
            kw = {} if col is None else dict(mass_colname=col)
            for k, p in paths(R, q, lambda: f(fn, sim, ck, nk, **kw), hyps):
                t, mah = p.value
                st = reader(fn, nchunks=nk, chunknum=ck, simulation=s)[col or "infall_tree_node_mass"]
                same(R, f"the ages of the simulation's snapshots, in order ({col}, path {k})", q, p.pc, t, ages)
                running_max(R, q, f"masses in Msun ({col}, path {k})", list(p.pc), mah, n, m, lambda i, j: st.at(i, j), lambda x: div(x, s.cosmo.h.t), lambda x: TRUE)
    q = "load_hacc_mahs:get_cosmic_time_hacc"
    with R.guard(q):
        f = nx.sym_function(LH.get_cosmic_time_hacc, env=env)
        for k, p in paths(R, q, lambda: f(sim), hyps, KeyError):
            same(R, f"redshifts and ages of the simulation's snapshots, in order (path {k})", q, p.pc, tuple(p.value), (zs, ages))


# ------------------------------------------------------------------ ranks
Q, RR = var("#q", "I"), var("#r", "I")
SZ = var("#size", "I")
SPLIT = [le(O1, SZ), le(ZI, Q), le(ZI, RR), lt(RR, SZ), le(ZI, n), le(O1, m)]
full_mah = nx.A((n, m), lambda i: elem("mah", list(i)))


def start(j, q_):
    """first row of piece j: j q + min(j, r)   (q_(j) stands for j q)"""
    return add(q_(j), ite(lt(j, RR), j, RR))


def times_q(j):
    return mul(j, Q)


def piece(a, j):
    """rows of piece j of array a"""
    off = start(j, times_q)
    ln = add(Q, ite(lt(j, RR), O1, ZI))
    return nx.A((nx.D(nx.S(ln)),) + tuple(a.shape[1:]), lambda i: a.fn((add(off, i[0]),) + tuple(i[1:])))


class Pieces:
    """numpy.array_split(x, size): size pieces"""

    def __init__(self, a):
        self.a = a

    def __getitem__(self, j):
        t = nx.R_(nx.L(j)) if not isinstance(j, int) else num(j, "I")
        if not nx.decide(and_(le(ZI, t), lt(t, SZ))):
            raise IndexError("no such piece")
        return piece(self.a, t)

    def __symlen__(self): return SZ
    def sym_iter(self): return nx.SymIter(SZ, lambda k: piece(self.a, k))
    def __len__(self): raise Unsupported("number of pieces")
    def __iter__(self): raise Unsupported("iteration over the pieces")


def array_split(x, k, axis=0):
    x = nx.as_array(x)
    if nx.R_(nx.L(k)) is not SZ or axis != 0 or not nx.same_dim(x.shape[0], n):
        raise Unsupported("array_split other than of the halos over the ranks")
    return Pieces(x)


class Maybe:
    """a variable that is still the initial empty array when cond fails, the given array when it holds"""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value

    def vf_snap(self): return self

    def vf_match(self, a, name):
        if isinstance(a, Maybe):
            return [(name, [], iff(self.cond, a.cond))] + [(nm, hy + [self.cond], g) for nm, hy, g in nx.val_goals(a.value, self.value, name)]
        a = nx.as_array(a)
        if a.ndim == self.value.ndim:
            return [(name + ": set", [], self.cond)] + nx.val_goals(a, self.value, name)
        return [(name + ": still empty", [], not_(self.cond))]


class Comm:
    """a communicator; on the root every message is checked to be the receiver's own piece, and counted"""

    def __init__(self, rank, a):
        self.rank, self.size, self.a = rank, nx.S(SZ), a
        self.sent = nx.A((SZ,), lambda j: ZI)

    def send(self, v, dest=None, **k):
        if k:
            raise Unsupported("send options")
        d = nx.R_(nx.L(dest)) if not isinstance(dest, int) else num(dest, "I")
        if not nx.decide(and_(le(ZI, d), lt(d, SZ))):
            raise ValueError("no such rank")
        nx.Ctx.cur.obl.append(("the message sent to a rank is that rank's rows", list(nx.Ctx.cur.pc), nx.snap(nx.as_array(v)), piece(self.a, d)))
        old = self.sent.fn
        self.sent = nx.A((SZ,), lambda j: ite(eq(j[0], d), add(old(j), O1), old(j)))

    def recv(self, source=None, **k):
        if k or source != 0:
            raise RuntimeError("deadlock: nothing was sent by that rank")
        if self.rank is None or (isinstance(self.rank, int) and self.rank == 0):
            raise RuntimeError("deadlock: the root receives from itself")
        return piece(full_mah, self.rank.t)

    def scatter(self, x, root=0):
        if root != 0:
            raise RuntimeError("wrong root")
        if isinstance(self.rank, int):
            if not isinstance(x, Pieces):
                raise Unsupported("scatter")
            self.sent = nx.A((SZ,), lambda j: ite(eq(j[0], ZI), ZI, O1))
            return x[0]
        return piece(full_mah, self.rank.t)

    def bcast(self, x, root=0):
        if root != 0:
            raise RuntimeError("wrong root")
        if isinstance(self.rank, int):
            return x
        return nx.A((m,), lambda i: elem("t", list(i)))

    def vf_fields(self): return dict(sent=self.sent)

    def vf_snap(self):
        c = Comm(self.rank, self.a)
        c.sent = self.sent
        return c


def comm_after(rank, k):
    c = Comm(rank, full_mah)
    c.sent = nx.A((SZ,), lambda j: ite(and_(lt(j[0], k), not_(eq(j[0], ZI))), O1, ZI))
    return c


def ranks(R):
    q = "load_hacc_mahs:_scatter_nd"
    full_t = nx.A((m,), lambda i: elem("t", list(i)))

    def explore(r, fn, call, mk, qq, lab):
        for who in ("root", "another rank"):
            rank = 0 if who == "root" else nx.S(var("#rank", "I"))
            hy = SPLIT + ([] if who == "root" else [le(O1, rank.t), lt(rank.t, SZ)])
            loops = {0: nx.LoopContract(lambda k: {"comm": comm_after(rank, k), "ans": Maybe(lt(ZI, k), piece(full_mah, ZI))})}
            holder = []

            def run():
                c = Comm(rank, full_mah)
                f = mk(loops)
                v = call(f, c)
                return v, c
            with hooks(array_split=array_split):
                ps = nx.explore(run, hyps=hy)

            def ex(k, p):
                nm = f"{lab}{who}: "
                if p.kind != "return":
                    r.fact(f"{nm}no error (path {k})", qq, False, "path exploration", repr(p.value))
                    return
                v, c = p.value
                t = None
                if lab:
                    t, v = v
                me = ZI if isinstance(rank, int) else rank.t
                if isinstance(v, Maybe):
                    r.prove(f"{nm}a piece is kept (path {k})", qq, list(p.pc), v.cond)
                    v = v.value
                nx.discharge(r, f"{nm}keeps exactly its own rows of the full load (path {k})", qq, list(p.pc), v, piece(full_mah, me))
                if t is not None:
                    nx.discharge(r, f"{nm}has the ages of the full load (path {k})", qq, list(p.pc), t, full_t)
                if who == "root" and getattr(c, "sent", None) is not None:
                    loop_comm = final_comm(p, c)
                    nx.discharge(r, f"{nm}every other rank is sent exactly one message (path {k})", qq, list(p.pc), loop_comm.sent,
                                 nx.A((SZ,), lambda j: ite(eq(j[0], ZI), ZI, O1)))
            nx.prove_paths(r, qq, ps, ex)

    def final_comm(p, c):
        return LAST[-1] if LAST else c
    LAST = []

    # _scatter_nd returns `ans`; its communicator argument is rebound by the loop contract, so the state after the loop is read from it
    def mk_scatter(loops):
        LAST.clear()
        old = loops[0].state

        def state(k):
            d = old(k)
            LAST.append(d["comm"])
            return d
        return nx.sym_function(LH._scatter_nd, loops={0: nx.LoopContract(state)})
    with R.guard(q):
        explore(R, q, lambda f, c: f(full_mah if isinstance(c.rank, int) else None, axis=0, comm=c, root=0), mk_scatter, q, "")
        j = I("j")
        R.prove("the rows of consecutive ranks are adjacent", q, SPLIT + [le(ZI, j), lt(j, SZ)], eq(add(start(j, times_q), nx.dT(piece(full_mah, j).shape[0])), start(add(j, O1), times_q)))
        R.prove("the rows of all ranks start at the first halo", q, SPLIT, eq(start(ZI, times_q), ZI))
        R.prove("the rows of all ranks end at the last halo", q, SPLIT + [eq(nx.R_(n), add(mul(SZ, Q), RR))], eq(start(SZ, times_q), nx.R_(n)))
    q2 = "load_hacc_mahs:load_mahs_per_rank"

    def load_mahs(fn_data, sim_name, chunknum, nchunks, mass_colname="infall_tree_node_mass"):
        a = [nx.str_term(fn_data), nx.str_term(sim_name), nx.R_(nx.L(chunknum)), nx.R_(nx.L(nchunks))]
        ok = and_(*[eq(x, y) for x, y in zip(a, ARGS)]) if all(x.sort == y.sort for x, y in zip(a, ARGS)) else FALSE
        if not (mass_colname == "other_mass" and all(x is y for x, y in zip(a, ARGS))):
            raise RuntimeError("a different load than the one requested")
        return full_t, full_mah
    FN, SIM = nx.name_token("fn_data"), nx.name_token("sim_name")
    ck, nk = nx.S(var("#ck", "I")), nx.S(var("#nk", "I"))
    ARGS = [nx.str_term(FN), nx.str_term(SIM), nx.R_(ck.t), nx.R_(nk.t)]

    def scatter(array, axis=0, comm=None, root=0):
        """contract of _scatter_nd"""
        if axis != 0 or root != 0 or comm is None:
            raise RuntimeError("scattered along another axis or from another root")
        if isinstance(comm.rank, int):
            if not isinstance(array, nx.A) or array.fn is not full_mah.fn:
                raise Unsupported("scattering something else than the load")
            return piece(array, ZI)
        return piece(full_mah, comm.rank.t)

    def mk_load(loops):
        return nx.sym_function(LH.load_mahs_per_rank, env=dict(load_mahs=load_mahs, _scatter_nd=scatter, MPI=types.SimpleNamespace(COMM_WORLD=None)))
    with R.guard(q2):
        for who in ("root", "another rank"):
            rank = 0 if who == "root" else nx.S(var("#rank", "I"))
            hy = SPLIT + ([] if who == "root" else [le(O1, rank.t), lt(rank.t, SZ)])
            for default in (False, True):
                def run():
                    c = Comm(rank, full_mah)
                    f = nx.sym_function(LH.load_mahs_per_rank, env=dict(load_mahs=load_mahs, _scatter_nd=scatter, MPI=types.SimpleNamespace(COMM_WORLD=c)))
                    return f(FN, SIM, ck, nk, mass_colname="other_mass", **({} if default else dict(comm=c)))
                for k, p in paths(R, q2, run, hy):
                    t, v = p.value
                    me = ZI if isinstance(rank, int) else rank.t
                    lab = f"{who}, {'default' if default else 'given'} communicator: "
                    nx.discharge(R, f"{lab}exactly its own rows of the full load (path {k})", q2, list(p.pc), v, piece(full_mah, me))
                    nx.discharge(R, f"{lab}the ages of the full load (path {k})", q2, list(p.pc), t, full_t)


# ------------------------------------------------------------------ Galacticus
GCOLS = ("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated")


def galacticus(R):
    fn = nx.name_token("fn")
    cols = {c: nx.A((n,), lambda i, c=c: elem("g." + c, list(i))) for c in GCOLS}
    tree = {"Outputs/Output1/nodeData/" + c: a for c, a in cols.items()}
    tree.update({"Outputs/Output2/nodeData/" + c: nx.A((n,), lambda i, c=c: elem("g2." + c, list(i))) for c in GCOLS})
    h5 = lambda: hx.H5({str(fn): dict(tree)})
    i0, i1 = nx.S(var("#i0", "I")), nx.S(var("#i1", "I"))
    q = "load_galacticus_eps_mahs:extract_galacticus_mah_tables"
    hyps = [le(O1, n)]
    with R.guard(q):
        for lab, kw, sl in (("all halos", {}, slice(None)), ("from a row on", dict(istart=i0), slice(i0, None)), ("up to a row", dict(iend=i1), slice(None, i1)), ("a range of rows", dict(istart=i0, iend=i1), slice(i0, i1))):
            f = nx.sym_function(LG.extract_galacticus_mah_tables, env=dict(h5py=h5()))

            def run():
                return f(fn, **kw), tuple(nx.getitem(cols[c], sl) for c in GCOLS)
            for k, p in paths(R, q, run, hyps):
                got, want = p.value
                for c, a, b in zip(GCOLS, got, want):
                    nx.discharge(R, f"{lab}: the stored rows of {c} (path {k})", q, list(p.pc), a, b)
                R.fact(f"{lab}: four tables (path {k})", q, len(got) == 4, "path exploration")
    q = "load_galacticus_eps_mahs:get_nhalos_tot"
    with R.guard(q):
        f = nx.sym_function(LG.get_nhalos_tot, env=dict(h5py=h5()))
        for k, p in paths(R, q, lambda: f(fn), hyps):
            R.prove(f"number of stored halos (path {k})", q, list(p.pc), eq(nx.R_(nx.L(p.value)), nx.R_(n)))


def obligations(R):
    for what, f in (("pub", pub), ("bpl", bpl), ("hacc", hacc), ("ranks", ranks), ("galacticus", galacticus)):
        with R.guard(what):
            f(R)


# ------------------------------------------------------------------ concrete
@contextlib.contextmanager
def patched(mod, **kw):
    miss = object()
    old = {k: getattr(mod, k, miss) for k in kw}
    for k, v in kw.items():
        setattr(mod, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            delattr(mod, k) if v is miss else setattr(mod, k, v)


def histories(rng, a, b):
    """stored masses with zeros before formation and losses, 0 or at least 1"""
    x = 10 ** np.maximum(np.cumsum(rng.normal(0.2, 0.6, (a, b)), axis=1) + rng.uniform(-1, 11, (a, 1)), 0)
    for i in range(a):
        x[i, :int(rng.integers(0, b + (i % 3 == 0)))] = 0.0
        if rng.uniform() < 0.3:
            x[i, int(rng.integers(b))] = 0.0
    return x


def runmax(x):
    out = np.array(x, float)
    for i in range(out.shape[0]):
        for j in range(1, out.shape[1]):
            if out[i, j] < out[i, j - 1]:
                out[i, j] = out[i, j - 1]
    return out


def differ(nm, a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return [f"{nm}: shape {a.shape} expected {b.shape}"]
    bad = ~np.isclose(a, b, rtol=tol, atol=0)
    return [f"{nm}: {a[bad][:3]} expected {b[bad][:3]} at {np.argwhere(bad)[:3].tolist()}"] if bad.any() else []


def check_pub(nh, nt, kind, seed):
    rng = np.random.default_rng(seed)
    t = np.sort(rng.uniform(0.3, 13.8, nt))
    x = histories(rng, nh, nt)
    ids = rng.permutation(10 ** 6)[:nh]
    msgs = []
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind in ("tng", "tng_mass"):
            x[0, -1] = 10 ** 12.5
            lg = np.where(x == 0, 0, np.log10(np.maximum(x, 1)))
            tab = np.zeros(nh, dtype=[("mpeak", "f8"), ("mpeakh", "f8", (nt,))])
            tab["mpeak"], tab["mpeakh"] = rng.uniform(10, 15, nh), lg
            np.save(os.path.join(d, "tng_diffmah.npy"), tab)
            np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
            if kind == "tng":
                i, mah, tt, lgm = LP.load_tng_data(d)
                msgs += differ("halo ids", i, np.arange(nh)) + differ("log-masses", mah, runmax(lg)) + differ("minimum mass", lgm, 10.0)
            else:
                tt, mah = LT.load_tng_data(d)
                r = runmax(lg)
                msgs += differ("masses", mah, np.where(r == 0, 0, 10 ** r) / 0.6774)
        else:
            tab = np.zeros(nh, dtype=[("halo_id", "i8"), ("mpeak_history_main_prog", "f8", (nt,))])
            tab["halo_id"], tab["mpeak_history_main_prog"] = ids, x
            other = tab[::-1].copy()
            other["mpeak_history_main_prog"] *= 2
            for g, tb in (("cens", tab), ("sats", other)):
                np.save(os.path.join(d, f"{kind}_diffmah_{g}.npy"), tb)
            np.save(os.path.join(d, "bpl_cosmic_time.npy"), t)
            np.savetxt(os.path.join(d, "mdpl2_cosmic_time.txt"), t)
            f, lgmin = (LP.load_bolshoi_data, 10.0) if kind == "bpl" else (LP.load_mdpl2_data, 11.25)
            for g, tb in (("cens", tab), ("sats", other)):
                i, mah, tt, lgm = f(g, d)
                r = runmax(tb["mpeak_history_main_prog"])
                msgs += differ("halo ids", i, tb["halo_id"]) + differ("log-masses", mah, np.where(r == 0, 0, np.log10(np.maximum(r, 1)))) + differ("minimum mass", lgm, lgmin)
    return msgs + differ("ages", tt, t)


def check_um(nh, nt, seed):
    rng = np.random.default_rng(seed)
    x = histories(rng, nh, nt)
    ids = rng.permutation(10 ** 6)[:nh]
    a = np.sort(rng.uniform(0.1, 1, nt))
    a[-1] = 1.0
    seen = []

    def mock(subvolumes, rootdir, galprops=None):
        seen.append((list(subvolumes), rootdir, list(galprops)))
        return {k: v.copy() for k, v in dict(halo_id=ids, mpeak_history_main_prog=x).items() if k in galprops}
    with tempfile.TemporaryDirectory() as d, patched(LB, load_mock_from_binaries=mock, HAS_UM_PYIO=True):
        np.savetxt(os.path.join(d, "scale_list_bpl.dat"), a)
        i, mah, t, lgm, lgt0 = LB.load_bpl_mah_data(d, [3, 1])
        msgs = [] if seen == [([3, 1], d, ["halo_id", "mpeak_history_main_prog"])] else [f"reader called with {seen}"]
    want_t = np.array([float(flat_wcdm.age_at_z(np.array([1 / v - 1]), 0.307, -1.0, 0.0, 0.678)[0]) for v in a])
    return msgs + differ("halo ids", i, ids) + differ("masses", mah, np.maximum(runmax(x), 1)) + differ("ages", t, want_t, 1e-4) + differ("lgt0", lgt0, np.log10(want_t[-1]), 1e-4) + differ(
        "minimum mass", lgm, 10.0)


class FakeComm:
    def __init__(self, rank, size, box, root=0):
        self.rank, self.size, self.box = rank, size, box

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def send(self, v, dest):
        if not 0 <= dest < self.size or dest == self.rank:
            raise RuntimeError(f"message to rank {dest}")
        self.box.setdefault((self.rank, dest), []).append(np.copy(v))

    def recv(self, source):
        return self.box[source, self.rank].pop(0)

    def scatter(self, x, root=0):
        if self.rank == root:
            assert len(x) == self.size
            self.box["scatter"] = list(x)
        return self.box["scatter"][self.rank]

    def bcast(self, x, root=0):
        if self.rank == root:
            self.box["bcast"] = x
        return self.box["bcast"]


def check_hacc(nh, nt, size, other, chunk, nchunks, seed):
    rng = np.random.default_rng(seed)
    x, y = histories(rng, nh, nt), histories(rng, nh, nt)
    zs = np.sort(rng.uniform(0, 10, nt))[::-1].copy()
    cos = types.SimpleNamespace(Omega_m=float(rng.uniform(0.2, 0.4)), w0=float(rng.uniform(-1.2, -0.8)), wa=float(rng.uniform(-0.2, 0.2)), h=float(rng.uniform(0.6, 0.8)))
    steps = rng.permutation(500)[:nt]
    steps.sort()
    sim = types.SimpleNamespace(cosmo=cos, cosmotools_steps=list(steps), step2z=lambda s: zs[np.searchsorted(steps, s)])
    calls = []

    def reader(fn, calculate_secondary_host_row=False, nchunks=None, chunknum=None, simulation=None, **k):
        calls.append((fn, nchunks, chunknum, simulation is sim))
        return dict(infall_tree_node_mass=x.copy(), other_mass=y.copy(), tree_node_index=np.arange(nh))
    H = types.SimpleNamespace(simulations={"A": sim} if seed % 2 else {}, parse_config=lambda nm: sim)
    col, mass = ("other_mass", y) if other else ("infall_tree_node_mass", x)
    kw = dict(mass_colname="other_mass") if other else {}
    with patched(LH, HACCSim=H, coretrees=types.SimpleNamespace(corematrix_reader=reader), HAS_HACCYTREES=True, HAS_DSPS=True):
        t, mah = LH.load_mahs("fn", "A", chunk, nchunks, **kw)
        box = {}
        parts = [LH.load_mahs_per_rank("fn", "A", chunk, nchunks, comm=FakeComm(r, size, box), **kw) for r in range(size)]
        zt = LH.get_cosmic_time_hacc("A") if seed % 2 else None
    msgs = [] if all(c == ("fn", nchunks, chunk, True) for c in calls) and len(calls) == 2 else [f"reader called with {calls}"]
    want_t = np.array([float(flat_wcdm.age_at_z(np.array([z]), cos.Omega_m, cos.w0, cos.wa, cos.h)[0]) for z in zs])
    msgs += differ("masses", mah, runmax(mass) / cos.h) + differ("ages", t, want_t, 1e-4)
    if zt is not None:
        msgs += differ("redshifts", zt[0], zs) + differ("ages of the simulation", zt[1], want_t, 1e-4)
    got = [np.asarray(p[1]) for p in parts]
    if [len(g) for g in got] != [nh // size + (r < nh % size) for r in range(size)]:
        msgs.append(f"rows per rank {[len(g) for g in got]}")
    msgs += differ("rows of all ranks", np.concatenate([g.reshape(len(g), -1) for g in got if len(g)]) if nh else np.zeros((0, nt)), mah)
    for r, p in enumerate(parts):
        msgs += differ(f"ages on rank {r}", p[0], want_t, 1e-4)
    if any(v for k, v in box.items() if isinstance(k, tuple)):
        msgs.append("undelivered messages")
    return msgs


def check_galacticus(nh, istart, iend, seed):
    import h5py
    rng = np.random.default_rng(seed)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x.hdf5")
        vl = h5py.vlen_dtype(np.dtype("f8"))
        data = {}
        with h5py.File(fn, "w") as h:
            g = h.create_group("Outputs/Output1/nodeData")
            for c in GCOLS[:2]:
                ds = g.create_dataset(c, (nh,), dtype=vl)
                data[c] = [rng.uniform(0, 1e12, int(rng.integers(1, 5))) for _ in range(nh)]
                for i in range(nh):
                    ds[i] = data[c][i]
            for c in GCOLS[2:]:
                data[c] = rng.uniform(0, 13, nh)
                g[c] = data[c]
        kw = {k: v for k, v in dict(istart=istart, iend=iend).items() if v is not None}
        out = LG.extract_galacticus_mah_tables(fn, **kw)
        tot = LG.get_nhalos_tot(fn)
    sl = slice(istart, iend)
    msgs = [] if tot == nh else [f"number of halos {tot}, stored {nh}"]
    for c, o in zip(GCOLS, out):
        want = data[c][sl]
        if len(o) != len(want) or any(not np.array_equal(a, b) for a, b in zip(o, want)):
            msgs.append(f"{c}: {len(o)} rows, expected rows {istart}:{iend} ({len(want)})")
    return msgs


def gen_pub(rng, N):
    for k in range(N):
        yield dict(nh=int(rng.choice([1, 2, 5, 20])), nt=int(rng.choice([2, 3, 6, 12])), kind=["tng", "tng_mass", "bpl", "mdpl2"][k % 4], seed=k)


def gen_um(rng, N):
    for k in range(N):
        yield dict(nh=int(rng.choice([1, 2, 5, 20])), nt=int(rng.choice([2, 3, 6, 12])), seed=k)


def gen_hacc(rng, N):
    for k in range(N):
        yield dict(nh=int(rng.choice([1, 2, 5, 8, 13])), nt=int(rng.choice([2, 6])), size=int(rng.choice([1, 2, 3, 4, 7])), other=bool(k % 3 == 0), chunk=int(rng.integers(0, 9)), nchunks=int(rng.integers(9, 20)), seed=k)


def gen_gal(rng, N):
    for k in range(N):
        nh = int(rng.choice([1, 2, 6]))
        r = lambda: int(rng.integers(-nh, nh + 2))
        yield dict(nh=nh, istart=None if k % 4 == 0 else r(), iend=None if k % 3 == 0 else r(), seed=k)


CASES = {"pub": Case(check_pub, gen_pub, 40, 400), "um": Case(check_um, gen_um, 10, 60), "hacc": Case(check_hacc, gen_hacc, 20, 200), "galacticus": Case(check_galacticus, gen_gal, 30, 200)}
