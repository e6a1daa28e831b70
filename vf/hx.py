"""Stand-ins for files: the assumed contract of h5py (a file is a tree of named arrays; a dataset indexed by a slice or () gives those rows)."""
import numpy as _np
from . import nx
from .jx import Unsupported


class DS(nx.A):
    """A stored array."""

    def __getitem__(self, key):
        if key is Ellipsis or (isinstance(key, tuple) and (key == () or key == (Ellipsis,))):
            return nx.A(self.shape, self.fn) if self.ndim else nx.wrap(self.at())
        return nx.getitem(nx.A(self.shape, self.fn), key)

    def __setitem__(self, key, v):
        if key is Ellipsis or key == () or (isinstance(key, slice) and key == slice(None)):
            a = nx.as_array(v)
            if len(a.shape) != len(self.shape):
                raise Unsupported("broadcast into a dataset")
            self.fn = a.fn
            return
        raise Unsupported("partial write to a dataset")


class H5:
    """h5py over an in-memory set of files {file name: {path: array}}."""
    __stub__ = True

    def __init__(self, files):
        self.files = files
        self.attrs = {}
        self.open = []
        h5 = self

        class Node:
            def __init__(self, fn, prefix, mode):
                self.fn, self.prefix, self.mode = fn, prefix, mode

            def _p(self, k):
                if not isinstance(k, str):
                    raise Unsupported("hdf5 key")
                return "/".join(p for p in (self.prefix + "/" + k).split("/") if p)

            @property
            def attrs(self):
                return h5.attrs.setdefault((self.fn, self.prefix), {})

            def __getitem__(self, k):
                p = self._p(k)
                t = h5.files[self.fn]
                if p in t:
                    v = t[p]
                    return v if not isinstance(v, nx.A) else DS(v.shape, v.fn)
                if any(q.startswith(p + "/") for q in t):
                    return Node(self.fn, p, self.mode)
                raise KeyError(k)

            def __setitem__(self, k, v):
                if self.mode in ("r",):
                    raise OSError("file opened for reading")
                p = self._p(k)
                if p in h5.files[self.fn]:
                    raise OSError("name already exists")
                if isinstance(v, _np.ndarray) and v.dtype.kind in "SUO":
                    h5.files[self.fn][p] = v
                else:
                    a = nx.as_array(v)
                    h5.files[self.fn][p] = nx.A(a.shape, a.fn)

            def create_dataset(self, k, shape=None, dtype=None, data=None, **kw):
                if data is None:
                    raise Unsupported("create_dataset without data")
                a = nx.as_array(data)
                self[k] = a.astype(dtype) if dtype is not None else a
                return self[k]

            def keys(self):
                out = []
                pre = self.prefix + "/" if self.prefix else ""
                for q in h5.files[self.fn]:
                    if q.startswith(pre):
                        c = q[len(pre):].split("/")[0]
                        c = nx.SStr(c)
                        if c not in out:
                            out.append(c)
                return sorted(out)

            def __iter__(self): return iter(self.keys())
            def __len__(self): return len(self.keys())
            def __contains__(self, k): return k in self.keys() or self._p(k) in h5.files[self.fn]
            def items(self): return [(k, self[k]) for k in self.keys()]
            def values(self): return [self[k] for k in self.keys()]
            def __enter__(self): return self

            def __exit__(self, *a):
                self.close()
                return False

            def close(self): pass

        class File(Node):
            def __init__(self, fn, mode="r", **kw):
                if mode in ("w", "w-", "x"):
                    h5.files[fn] = {}
                    h5.attrs = {k: v for k, v in h5.attrs.items() if k[0] != fn}
                elif fn not in h5.files:
                    if mode == "a":
                        h5.files[fn] = {}
                    else:
                        raise FileNotFoundError(fn)
                Node.__init__(self, fn, "", mode)
        self.File, self.Group, self.Dataset = File, Node, DS


class Tab:
    """astropy.table.Table: named columns with one row per sample; indexing by a mask keeps the selected rows (a copy)."""

    def __init__(self, cols, n=None):
        self.cols = dict(cols)
        self.n = nx.D(n) if n is not None else (next(iter(self.cols.values())).shape[0] if self.cols else 0)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return self.cols[k]
        if isinstance(k, nx.A) and nx.is_bool(k):
            if isinstance(self.n, int):
                keep = [i for i in range(self.n) if nx.decide(k.at(nx.num(i, "I")))]
                pick = lambda a: nx.A((len(keep),) + tuple(a.shape[1:]), lambda ix: _pick(a, keep, ix))
                return Tab({c: pick(a) for c, a in self.cols.items()}, len(keep))
            n = nx.count_of(k)
            return Tab({c: nx.getitem(a, k) for c, a in self.cols.items()}, n)
        raise Unsupported("table index")

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("table assignment")
        a = nx.as_array(v)
        f = a.fn
        if a.ndim == 0:
            t = a.at()
            self.cols[k] = nx.A((self.n,), lambda ix: t)
            return
        if not nx.same_dim(a.shape[0], self.n):
            raise ValueError("Inconsistent data column lengths")
        self.cols[k] = nx.A((self.n,) + tuple(a.shape[1:]), f)

    def __symlen__(self): return self.n
    def __len__(self): return self.n if isinstance(self.n, int) else (_ for _ in ()).throw(Unsupported("len"))
    def keys(self): return list(self.cols)
    def copy(self): return Tab({k: nx.A(a.shape, a.fn) for k, a in self.cols.items()}, self.n)

    @property
    def colnames(self): return list(self.cols)

    def vf_fields(self): return dict(self.cols)
    def vf_snap(self): return self.copy()


def _pick(a, keep, ix):
    i = ix[0]
    if i.op == "num":
        return a.fn((nx.num(keep[int(i.val)], "I"),) + tuple(ix[1:]))
    r = a.fn((nx.num(keep[-1], "I"),) + tuple(ix[1:])) if keep else nx.ZERO
    for j in range(len(keep) - 2, -1, -1):
        r = nx.ite(nx.eq(i, nx.num(j, "I")), a.fn((nx.num(keep[j], "I"),) + tuple(ix[1:])), r)
    return r
