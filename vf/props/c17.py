"""C17: fit results survive the text row and the collated file."""
import os
import re
import tempfile
from collections import namedtuple
import numpy as np
from ..lib import *
from ..check import Case
from .. import nx, hx
from . import mahlib as ml
from diffmah.fitting_helpers import diffmah_fitter_helpers as H

M = "diffmah_fitter_helpers:"
FUNCTIONS = [M + "get_outline", M + "_parse_outline", M + "write_collated_data", M + "_compute_non_trivial_npts_in_log_mah_target", M + "HEADER", M + "HEADER_HALO_ID",
             M + "FIT_COLNAMES"]
ASSUMPTIONS = ["Python number formatting: float(format(x, '.Ke')) is x rounded to K+1 significant digits; int(str(k)) = k; formatted numbers contain no white space",
               "numpy str arrays: astype(float) / astype(int) parses each entry to double precision / 64-bit integer", "h5py: a file returns under each name the array stored under it"]
ZI, O1 = num(0, "I"), num(1, "I")
INTS = ("n_points_per_fit", "fit_algo")
COLS = tuple(ml.NAMES) + ("loss",) + INTS


def header(R):
    h, hh = H.HEADER, H.HEADER_HALO_ID
    cols = h[1:].strip().split()
    R.fact("the header line names the five parameters, the loss, the number of points and the algorithm", M + "HEADER",
           h.startswith("#") and h.endswith("\n") and h.count("\n") == 1 and sorted(cols) == sorted(COLS), "evaluation", h)
    R.fact("the header with halo ids is the same line with halo_id first", M + "HEADER_HALO_ID",
           hh.startswith("#") and hh.endswith("\n") and hh.count("\n") == 1 and hh[1:].strip().split() == ["halo_id"] + cols, "evaluation", hh)
    R.fact("parsed rows are named like the header", M + "FIT_COLNAMES", list(H.DiffmahFitData._fields) == cols, "evaluation")
    return cols


def fit_of(m, code):
    lm = nx.A((m,), lambda i: elem("lm", list(i)))
    p = H.dk.DEFAULT_MAH_PARAMS._make([nx.S(var("p." + k)) for k in H.dk.DEFAULT_MAH_PARAMS._fields])
    d = H.DiffmahFitLossData(nx.A((m,), lambda i: elem("tt", list(i))), lm, nx.S(var("utp")), nx.S(var("logt0")))
    return H.DiffmahFitResult(p, nx.S(var("loss")), nx.S(var("skip", "B")), nx.S(var("term", "B")), nx.S(code), d), lm


def digits(tok):
    """significant digits a formatted token keeps (None: all)"""
    how = tok.val[1]
    if how in ("str", "repr", "fmt:", "fmt:r", "fmt:s"):
        return None
    m = re.fullmatch(r"fmt:\.(\d+)e", how)
    if m:
        return int(m.group(1)) + 1
    m = re.fullmatch(r"fmt:\.(\d+)g", how)
    if m:
        return max(1, int(m.group(1)))
    return 0


def outline(R, cols):
    q = M + "get_outline"
    m = var("#m", "I")
    code = var("code", "I")
    for lab, hid in (("", None), ("with halo id: ", nx.S(var("hid", "I")))):
        with R.guard("get_outline " + lab):
            fit, lm = fit_of(m, code)
            go = nx.sym_function(H.get_outline)
            pa = nx.sym_function(H._parse_outline)

            def run():
                out = go(fit) if hid is None else go(fit, halo_id=hid)
                return out, (pa(out) if hid is None else None)
            ps = nx.explore(run, hyps=[le(ZI, m)])

            def ex(k, p):
                nm = lambda s: f"{lab}{s} (path {k})"
                if p.kind != "return":
                    R.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                    return
                out, parsed = p.value
                h = list(p.pc)
                R.fact(nm("one line"), q, out.endswith("\n") and out.count("\n") == 1, "path exploration", out)
                toks = out.split()
                want = ([] if hid is None else ["halo_id"]) + list(cols)
                R.fact(nm("one entry per header column"), q, len(toks) == len(want), "path exploration", f"{len(toks)} entries, {len(want)} columns")
                last = lm.at(sub(m, O1))
                npts = ite(lt(ZI, m), nx.R_(nx.L(nx.NP.sum(nx.A((m,), lambda i: lt(lm.fn(i), last))))), ZERO)
                vals = dict({k2: var("p." + k2) for k2 in ml.NAMES}, loss=var("loss"), n_points_per_fit=npts, fit_algo=code, halo_id=var("hid", "I"))
                for c, t in zip(want, toks):
                    st = nx.str_term(t)
                    if st.op != "uf" or not st.args:
                        g = None
                        if c in INTS and re.fullmatch(r"-?\d+", t):
                            g = eq(num(int(t)), vals[c])
                        R.prove(nm(f"column {c}"), q, h, g if g is not None else FALSE)
                        continue
                    hh = list(h)
                    a, b = nx.extensional(hh, nx.R_(st.args[0]), vals[c])
                    R.prove(nm(f"column {c} holds that value"), q, hh, eq(a, b))
                    dg = digits(st)
                    if c in INTS or c == "halo_id":
                        R.fact(nm(f"column {c} is written exactly"), q, dg is None and st.args[0].sort == "I" or c in INTS and st.val[1] == "str", "format", st.val[1])
                    else:
                        R.fact(nm(f"column {c} is written to 6 significant digits or more"), q, dg is None or dg >= 6, "format", st.val[1])
                if parsed is None:
                    return
                R.fact(nm("parsed row is named like the header"), M + "_parse_outline", tuple(getattr(parsed, "_fields", ())) == tuple(cols), "path exploration")
                for c, t in zip(cols, toks):
                    st = nx.str_term(t)
                    v = nx.L(getattr(parsed, c))
                    if c in INTS:
                        R.prove(nm(f"{c} read back exactly"), M + "_parse_outline", h, eq(nx.R_(v), nx.R_(nx.parse(st, "int64") if st.op == "uf" and st.args else num(int(t)))))
                    else:
                        R.prove(nm(f"{c} read back from its own entry"), M + "_parse_outline", h, eq(nx.R_(v), uf("parse_float", [st])))
            nx.prove_paths(R, q, ps, ex)
        # what reading back the integer count gives: int(str(k)) = k, whatever k
    with R.guard("precision"):
        # |parse(fmt(x)) - x| <= 10^-(K) |x| / 2 for K+1 >= 6 significant digits
        x, y = var("x"), var("y")
        tol = num(Fraction(1, 2 * 10 ** 5))
        R.prove("rounding to more digits is within the precision of 6 digits", M + "get_outline", [le(tm.tabs(sub(y, x)), mul(num(Fraction(1, 2 * 10 ** 6)), tm.tabs(x)))],
                le(tm.tabs(sub(y, x)), mul(tol, tm.tabs(x))))


def collate(R, cols):
    q = M + "write_collated_data"
    n = var("#n", "I")
    for w, names in ((8, list(cols)), (9, ["halo_id"] + list(cols))):
        with R.guard(f"write_collated_data, {w} columns"):
            def run(w=w):
                h5 = hx.H5({})
                f = nx.sym_function(H.write_collated_data, env=dict(h5py=h5))
                f("out", nx.A((n, w), lambda ij: uf("cell", list(ij), "Str"), "Str"))
                return h5.files
            R.reachable(f"{w} columns", [le(ZI, n)])
            ps = nx.explore(run, hyps=[le(ZI, n)])

            def ex(k, p, w=w, names=names):
                nm = lambda s: f"{w} columns: {s} (path {k})"
                if p.kind != "return":
                    R.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                    return
                R.fact(nm("one file, with exactly the named columns"), q, list(p.value) == ["out"] and sorted(p.value["out"]) == sorted(names), "path exploration",
                       str({k2: sorted(v) for k2, v in p.value.items()})[:200])
                for j, c in enumerate(names):
                    if c not in p.value.get("out", {}):
                        continue
                    how = "int64" if c in INTS + ("halo_id",) else "float64"
                    want = nx.A((n,), lambda i, j=j, how=how: nx.parse(uf("cell", [i[0], num(j, "I")], "Str"), how))
                    nx.discharge(R, nm(f"{c} holds its own column, every row, read in double precision / as a 64-bit integer"), q, list(p.pc), p.value["out"][c], want)
            nx.prove_paths(R, q, ps, ex)


def obligations(R):
    cols = None
    with R.guard("header"):
        cols = header(R)
    if cols is None or sorted(cols) != sorted(COLS):
        return
    outline(R, cols)
    collate(R, cols)


# ------------------------------------------------------------------ concrete clauses
def make_fit(p, loss, code, lm):
    d = H.DiffmahFitLossData(np.linspace(1, 13, len(lm)), np.asarray(lm, float), 1.0, 1.14)
    return H.DiffmahFitResult(H.dk.DEFAULT_MAH_PARAMS._make(map(np.float32, p)), loss, code == -1, code != -1, code, d)


def expected(p, loss, code, lm):
    lm = np.asarray(lm, float)
    n = int(np.sum(lm < lm[-1])) if lm.size else 0
    return dict(zip(ml.NAMES, [float(np.float32(x)) for x in p]), loss=float(loss), n_points_per_fit=n, fit_algo=int(code))


def check_row(p, loss, code, lm, hid):
    fit = make_fit(p, loss, code, lm)
    row = H.get_outline(fit) if hid is None else H.get_outline(fit, halo_id=hid)
    want = expected(p, loss, code, lm)
    cols = H.HEADER[1:].strip().split()
    msgs = []
    toks = row.split()
    if not row.endswith("\n") or row.count("\n") != 1:
        msgs.append(f"row {row!r} is not one line")
    if hid is not None:
        if toks[:1] != [str(hid)]:
            msgs.append(f"row starts with {toks[:1]}, halo id {hid}")
        toks = toks[1:]
    if len(toks) != len(cols):
        return msgs + [f"{len(toks)} entries for the {len(cols)} header columns"]
    got = dict(zip(cols, toks))
    if hid is None:
        pr = H._parse_outline(row)
        parsed = pr._asdict()
    else:
        parsed = {k: (int if k in INTS else float)(v) for k, v in got.items()}
    for k, w in want.items():
        v = parsed.get(k)
        if v is None or (k in INTS and (v != w or int(got[k]) != w)) or (k not in INTS and not abs(v - w) <= 5.0001e-6 * abs(w)):
            msgs.append(f"{k}: wrote {w!r}, row says {got.get(k)!r}, read back {v!r}")
    return msgs


def check_file(rows, ids, seed):
    lines = []
    for (p, loss, code, lm), hid in zip(rows, ids):
        f = make_fit(p, loss, code, lm)
        lines.append((H.get_outline(f) if hid is None else H.get_outline(f, halo_id=hid)).split())
    # full-precision text as well: no digit may be lost
    rng = np.random.default_rng(seed)
    width = len(lines[0])
    for r in lines[::2]:
        for j in range(width - 8, width - 2):
            r[j] = repr(float(rng.normal() * 10.0 ** rng.integers(-8, 9)))
    data = np.array(lines, dtype="str").reshape(len(lines), width)
    msgs = []
    import h5py
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "c.h5")
        H.write_collated_data(fn, data)
        with h5py.File(fn, "r") as f:
            stored = {k: f[k][...] for k in f.keys()}
    names = (["halo_id"] if ids[0] is not None else []) + H.HEADER[1:].strip().split()
    if sorted(stored) != sorted(names):
        return [f"columns {sorted(stored)} expected {sorted(names)}"]
    for j, k in enumerate(names):
        want = [(int if k in INTS + ("halo_id",) else float)(v) for v in data[:, j]]
        if list(stored[k].tolist()) != want:
            bad = [i for i, (a, b) in enumerate(zip(stored[k].tolist(), want)) if a != b][:3]
            msgs.append(f"{k}: stored {[stored[k].tolist()[i] for i in bad]} instead of {[want[i] for i in bad]} ({len(stored[k])} rows of {len(want)})")
    return msgs


def one(rng, k):
    if k % 5 == 4:
        return [-99.0] * 5, -99.0, -1, []
    n = int(rng.integers(1, 12))
    lm = np.maximum.accumulate(rng.uniform(9, 13, n)) if k % 2 else np.round(np.maximum.accumulate(rng.uniform(9, 13, n)), 0)
    p = [rng.uniform(9, 15), rng.uniform(-1, 1), rng.uniform(1, 6), rng.uniform(0.05, 1), rng.uniform(0.5, 19)]
    return [float(x) for x in p], float(10.0 ** rng.uniform(-9, 1)), int(rng.integers(0, 2)), [float(x) for x in lm]


def gen_row(rng, N):
    for k in range(N):
        p, l, c, lm = one(rng, k)
        yield dict(p=p, loss=l, code=c, lm=lm, hid=None if k % 2 else int(rng.choice([0, 7, -1, 2 ** 53 + 1, 9007199254740993, 4611686018427387905, int(rng.integers(1, 1 << 62))])))


def gen_file(rng, N):
    for k in range(N):
        n = int(rng.choice([1, 2, 3, 9, 8, 20]))
        yield dict(rows=[one(rng, int(rng.integers(0, 10))) for _ in range(n)], ids=[None if k % 2 else int(rng.integers(1, 1 << 62)) for _ in range(n)], seed=k)


CASES = {"row": Case(check_row, gen_row, 120, 1500), "file": Case(check_file, gen_file, 30, 300)}
