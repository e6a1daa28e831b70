"""C18: the HDF5 helpers return exactly what was stored."""
import os
import tempfile
from collections import namedtuple
import numpy as np
from ..lib import *
from ..check import Case
from .. import nx, hx
from diffmah.data_loaders import io_utils as IO

M = "io_utils:"
FUNCTIONS = [M + k for k in ("load_flat_hdf5", "write_namedtuple_to_hdf5", "load_namedtuple_from_hdf5")]
ASSUMPTIONS = ["h5py: a file is a tree of named arrays, reading dataset[a:b] gives the rows numpy slicing gives, dataset[()] the whole array, attributes are returned as stored",
               "field names of the named tuples are ASCII"]
ZI, O1 = num(0, "I"), num(1, "I")


def loader(R):
    q = M + "load_flat_hdf5"
    n, w = var("#n", "I"), var("#w", "I")
    T = nx.name_token
    a_, b_ = nx.S(var("istart", "I")), nx.S(var("iend", "I"))
    cols = [T("col0"), T("col1"), T("col2")]
    groups = [None, T("g0"), T("g0") + "/" + T("g1"), T("g0") + "/" + T("g1") + "/" + T("g2")]
    arrs = {}
    for j, c in enumerate(cols):
        # one column is two-dimensional
        arrs[c] = nx.A((n,), lambda i, j=j: elem(f"x{j}", list(i))) if j < 2 else nx.A((n, w), lambda i: elem("x2", list(i)))

    def rows(a, lo, hi):
        return nx.getitem(a, slice(lo, hi))
    for d, g in enumerate(groups):
        pre = "" if g is None else g + "/"
        tree = {str(pre + c): a for c, a in arrs.items()}
        if g is not None:
            tree[str(cols[0])] = nx.A((n,), lambda i: elem("decoy", list(i)))
            tree[str(T("other") + "/" + cols[1])] = nx.A((n,), lambda i: elem("decoy", list(i)))
            for k in range(1, d):
                tree[str("/".join(str(g).split("/")[:k])) + "/" + str(cols[1])] = nx.A((n,), lambda i: elem("decoy", list(i)))
        wheres = f"group {d} levels deep" if d else "top level"
        for lab, keys in (("all columns", None), ("no column", []), ("one column", [cols[1]]), ("columns in another order", [cols[2], cols[0]]), ("three columns", list(cols))):
            for lab2, kw in (("all rows", {}), ("from a row on", dict(istart=a_)), ("up to a row", dict(iend=b_)), ("range of rows", dict(istart=a_, iend=b_))):
                with R.guard(f"load_flat_hdf5, {wheres}, {lab}, {lab2}"):
                    def run():
                        files = {"f": dict(tree)}
                        h5 = hx.H5(files)
                        f = nx.sym_function(IO.load_flat_hdf5, env=dict(h5py=h5, HAS_H5PY=True))
                        k2 = dict(kw)
                        if keys is not None:
                            k2["keys"] = list(keys)
                        if g is not None:
                            k2["dataset"] = g
                        out = f("f", **k2)
                        want = {str(c): rows(arrs[c], kw.get("istart", 0), kw.get("iend")) for c in (keys if keys is not None else cols)}
                        return out, want, sorted(files["f"])
                    hyps = [le(ZI, n), le(O1, w)]
                    ps = nx.explore(run, hyps=hyps)

                    def ex(k, p):
                        nm = lambda s: f"{wheres}, {lab}, {lab2}: {s} (path {k})"
                        if p.kind != "return":
                            R.fact(nm("no error"), q, False, "path exploration", repr(p.value))
                            return
                        out, want, after = p.value
                        R.fact(nm("exactly the requested columns, under their own names"), q, sorted(map(str, out)) == sorted(want), "path exploration",
                               f"{sorted(map(str, out))} expected {sorted(want)}")
                        R.fact(nm("the file is left as it was"), q, after == sorted(tree), "path exploration")
                        got = {str(c): v for c, v in out.items()}
                        for c in want:
                            if c in got:
                                nx.discharge(R, nm("each column holds exactly the requested rows in order"), q, list(p.pc), got[c], want[c])
                    nx.prove_paths(R, q, ps, ex)


def tuples(R):
    q1, q2 = M + "write_namedtuple_to_hdf5", M + "load_namedtuple_from_hdf5"
    n, w = var("#n", "I"), var("#w", "I")
    pool = [nx.S(var("s0")), nx.A((n,), lambda i: elem("v1", list(i))), nx.A((n, w), lambda i: elem("v2", list(i))), nx.S(var("k3", "I")), nx.S(var("b4", "B")),
            nx.A((w,), lambda i: elem("v5", list(i)))]
    for names in (("a",), ("z", "a"), ("b", "a", "c"), ("t_peak", "logm0", "Early", "a1", "A1"), ("f10", "f9", "f1", "f2", "zz", "aa"),
                  ("x" * 300, "x" * 17, "y" * 65, "x" * 33, "x" * 129)):
        with R.guard(f"named tuple {names}"[:80]):
            NT = namedtuple("Anything", names)
            val = NT(*pool[:len(names)])

            def run():
                h5 = hx.H5({})
                wr = nx.sym_function(IO.write_namedtuple_to_hdf5, env=dict(h5py=h5, HAS_H5PY=True))
                rd = nx.sym_function(IO.load_namedtuple_from_hdf5, env=dict(h5py=h5, HAS_H5PY=True))
                wr(val, "out")
                return rd("out"), list(h5.files)
            ps = nx.explore(run, hyps=[le(ZI, n), le(ZI, w)])

            def ex(k, p):
                nm = lambda s: f"{len(names)} fields {str(names)[:60]}: {s} (path {k})"
                if p.kind != "return":
                    R.fact(nm("no error"), q2, False, "path exploration", repr(p.value))
                    return
                out, files = p.value
                R.fact(nm("same fields in the same order"), q2, tuple(getattr(out, "_fields", ())) == names, "path exploration", str(getattr(out, "_fields", None)))
                R.fact(nm("one file"), q1, files == ["out"], "path exploration")
                for f in names:
                    if hasattr(out, f):
                        nx.discharge(R, nm(f"{f[:20]} has the value written"), q2, list(p.pc), getattr(out, f), getattr(val, f))
            nx.prove_paths(R, q2, ps, ex)


def obligations(R):
    loader(R)
    tuples(R)
    R.notes.append("load_flat_hdf5: column and group names, sizes, contents and row bounds arbitrary; up to three columns and groups up to three levels deep (the loop over columns is unrolled)")


# ------------------------------------------------------------------ concrete clauses
def check_load(tree, n, keys, dataset, istart, iend, seed):
    import h5py
    rng = np.random.default_rng(seed)
    kinds = [lambda: rng.normal(size=n), lambda: rng.integers(0, 1 << 60, n), lambda: rng.normal(size=(n, 3)).astype("f4"), lambda: rng.integers(0, 2, n).astype(bool)]
    data = {p: kinds[k % 4]() for k, p in enumerate(tree)}
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x.h5")
        with h5py.File(fn, "w") as f:
            for p, v in data.items():
                f[p] = v
        kw = {}
        if istart is not None:
            kw["istart"] = istart
        if iend is not None:
            kw["iend"] = iend
        if keys is not None:
            kw["keys"] = list(keys)
        if dataset is not None:
            kw["dataset"] = dataset
        out = IO.load_flat_hdf5(fn, **kw)
    pre = "" if dataset is None else dataset + "/"
    want = keys if keys is not None else sorted(p[len(pre):] for p in tree if p.startswith(pre))
    msgs = []
    if sorted(out) != sorted(want):
        return [f"columns {sorted(out)}, requested {sorted(want)}"]
    for k in want:
        ref = data[pre + k][(0 if istart is None else istart):iend]
        if out[k].shape != ref.shape or out[k].dtype != ref.dtype or not np.array_equal(out[k], ref):
            msgs.append(f"{k}: {out[k].shape} {out[k].dtype} {out[k][:3]} expected rows {istart}:{iend} = {ref.shape} {ref.dtype} {ref[:3]}")
    return msgs


def check_tuple(names, shapes, seed):
    rng = np.random.default_rng(seed)
    NT = namedtuple("P", names)
    vals = []
    for k, s in enumerate(shapes):
        v = rng.normal(size=s) if k % 3 else (rng.integers(0, 1 << 60, s) if k % 2 else rng.normal(size=s).astype("f4"))
        vals.append(float(v) if s == [] and k % 2 else v)
    p = NT(*vals)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x.h5")
        IO.write_namedtuple_to_hdf5(p, fn)
        out = IO.load_namedtuple_from_hdf5(fn)
    if tuple(out._fields) != tuple(names):
        return [f"fields {out._fields} expected {tuple(names)}"]
    return [f"{f}: {getattr(out, f)!r} written {getattr(p, f)!r}"[:300] for f in names
            if np.shape(getattr(out, f)) != np.shape(getattr(p, f)) or not np.array_equal(np.asarray(getattr(out, f)), np.asarray(getattr(p, f)))]


NAMES = ["mah", "halo_id", "z", "a", "Ab", "t_peak", "x1", "x10", "x2", "mahmah", "g", "gg"]


def gen_load(rng, N):
    for k in range(N):
        n = int(rng.choice([0, 1, 2, 5, 9]))
        g = [None, "g", "gg/h", "a/b/c", "mah"][k % 5]
        cols = [str(c) for c in rng.permutation(NAMES)[:int(rng.integers(1, 6))] if str(c) not in (g or "")]
        cols = cols or ["q"]
        pre = "" if g is None else g + "/"
        tree = [pre + c for c in cols] + ([] if g is None else [c + "_top" for c in cols])
        keys = None if k % 3 == 0 else [str(c) for c in rng.permutation(cols)[:int(rng.integers(1, len(cols) + 1))]]
        if k % 11 == 4 or k == 5:
            keys = []
        r = lambda: int(rng.integers(-n - 2, n + 3))
        yield dict(tree=tree, n=n, keys=keys, dataset=g, istart=None if k % 4 == 0 else r(), iend=None if k % 4 == 1 else r(), seed=k)


def gen_tuple(rng, N):
    for k in range(N):
        names = [str(c) for c in rng.permutation(NAMES)[:int(rng.integers(1, 9))]]
        if k % 5 == 4:      # long names and many fields
            names = [c + "_" * int(rng.integers(0, 300)) + str(j) for j, c in enumerate(names * 12)]
        yield dict(names=names, shapes=[[[], [3], [2, 3], [0], [1]][int(rng.integers(5))] for _ in names], seed=k)


CASES = {"load": Case(check_load, gen_load, 100, 1000), "tuple": Case(check_tuple, gen_tuple, 40, 400)}
