"""C19: matrix utilities are exact inverses with the documented layout."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from .. import nx
from ..nx import Unsupported
from diffmah import utils

FUNCTIONS = ["utils:get_cholesky_from_params", "utils:covariance_from_correlation", "utils:correlation_from_covariance"]
LEVEL = ("conversions: proved for matrices of every size n; triangular factor: proved for all parameter values every n by "
         "induction over the entries in row order (and, if the code leaves what this argument covers, up to a stated size)")
NMAX = {"quick": 12, "thorough": 24}


def layout(n):
    """Position in the parameter vector of entry (i,j); None above the diagonal."""
    k, out = n, {}
    for i in range(n):
        out[i, i] = i
        for j in range(i):
            out[i, j] = k
            k += 1
    return out


def obligations(R):
    i, j = I("i"), I("j")
    n, = jx.dims("n", ["n>=1"])
    rng = idx_hyps(i, n) + idx_hyps(j, n)
    Cij, Cji, Rij, Rji = (elem(a, [x, y]) for a in "CR" for x, y in ((i, j), (j, i)))
    Cd = lambda k: elem("C", [k, k])
    s = lambda k: elem("s", [k])
    q = "utils:covariance_from_correlation"
    cov = corr = None
    with R.guard("covariance from correlation"):
        cov = jx.trace(utils.covariance_from_correlation, (jx.spec((n, n)), jx.spec((n,))), ["R", "s"])
        R.reachable("matrix indices", rng)
        R.fact("covariance has the shape of the correlation", q, tuple(map(str, cov.out.shape)) == ("n", "n"), "shape", str(cov.out.shape))
        R.prove("covariance from correlation is D*corr*D", q, rng, eq(cov.out.at(i, j), mul(s(i), Rij, s(j))))
        R.prove("symmetric correlation gives symmetric covariance", q, rng + [eq(Rij, Rji)], eq(cov.out.at(i, j), cov.out.at(j, i)))
        R.prove("the diagonal of the covariance is the squared standard deviations when the correlation has unit diagonal", q,
                rng + [eq(elem("R", [i, i]), ONE)], eq(cov.out.at(i, i), mul(s(i), s(i))))
    q = "utils:correlation_from_covariance"
    pos = [lt(ZERO, Cd(i)), lt(ZERO, Cd(j))]
    with R.guard("correlation from covariance"):
        corr = jx.trace(utils.correlation_from_covariance, (jx.spec((n, n)),), ["C"])
        R.reachable("positive diagonal", rng + pos)
        R.fact("correlation has the shape of the covariance", q, tuple(map(str, corr.out.shape)) == ("n", "n"), "shape", str(corr.out.shape))
        R.prove("correlation is the covariance over the product of standard deviations", q, rng + pos,
                eq(mul(corr.out.at(i, j), tm.sqrt(Cd(i)), tm.sqrt(Cd(j))), Cij))
        R.prove("correlation has unit diagonal", q, rng + pos, eq(corr.out.at(i, i), ONE))
        R.prove("symmetric covariance gives symmetric correlation", q, rng + pos + [eq(Cij, Cji)], eq(corr.out.at(i, j), corr.out.at(j, i)))
        both = jx.trace(lambda c, s: utils.correlation_from_covariance(utils.covariance_from_correlation(c, s)),
                        (jx.spec((n, n)), jx.spec((n,))), ["R", "s"])
        R.prove("correlation of the covariance of (corr, sd) is corr", q,
                rng + [lt(ZERO, s(i)), lt(ZERO, s(j)), eq(elem("R", [i, i]), ONE), eq(elem("R", [j, j]), ONE)], eq(both.out.at(i, j), Rij))
        back = jx.trace(lambda c: utils.covariance_from_correlation(utils.correlation_from_covariance(c), jnp.sqrt(jnp.diag(c))),
                        (jx.spec((n, n)),), ["C"])
        R.prove("covariance of the correlation of cov and its standard deviations is cov", q, rng + pos, eq(back.out.at(i, j), Cij))
    q = "utils:get_cholesky_from_params"
    with R.guard("triangular factor"):
        nx.by_contract_or_bounded(R, q, any_size, sizes, "matrices up to the stated size")


def sizes(r):
    q = "utils:get_cholesky_from_params"
    for m in range(1, NMAX[r.tier if r.tier in NMAX else "thorough"] + 1):
        tr = jx.trace(utils.get_cholesky_from_params, (jx.spec((m * (m + 1) // 2,)),), ["p"])
        lay = layout(m)
        bad = [] if tuple(tr.out.shape) == (m, m) else [f"shape {tr.out.shape}"]
        for a in range(m):
            for b in range(m):
                if bad:
                    break
                want = elem("p", [num(lay[a, b], "I")]) if (a, b) in lay else ZERO
                got = tr.out.at(a, b)
                if got is not want:
                    bad.append(f"entry ({a},{b}) is {str(got)[:60]}, documented {want}")
        r.fact(f"triangular factor of size {m} has the documented layout for every parameter vector", q, not bad, "program terms identical", "; ".join(bad))


# ------------------------------------------------------------------ triangular factor of any size n
N = var("#n", "I")


class Sq:
    """n x n matrix with symbolic n, entry (i,j) a term; flat: the same entries as a vector in row order (a flattening or cumulative
    sum over rows, turned back into a matrix only by reshape((n, n)))."""
    __array_ufunc__ = None

    def __init__(self, fn, flat=False):
        self.fn, self.flat = fn, flat

    def _op(self, f, o, rev=False):
        g = self.fn
        if isinstance(o, Sq):
            if o.flat != self.flat:
                raise Unsupported("matrix and vector combined")
            h = o.fn
        else:
            t = nx.R_(nx.L(o))
            h = lambda i, j: t
        return Sq((lambda i, j: f(h(i, j), g(i, j))) if rev else (lambda i, j: f(g(i, j), h(i, j))), self.flat)

    def __add__(self, o): return self._op(add, o)
    def __radd__(self, o): return self._op(add, o, True)
    def __sub__(self, o): return self._op(sub, o)
    def __rsub__(self, o): return self._op(sub, o, True)
    def __mul__(self, o): return self._op(mul, o)
    def __rmul__(self, o): return self._op(mul, o, True)
    def __neg__(self): return Sq(lambda i, j: neg(self.fn(i, j)), self.flat)
    def astype(self, dt): return self          # entries are shown to be integers where they are used as positions

    def flatten(self): return Sq(self.fn, True)
    ravel = flatten

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
        if len(sh) == 1 and sh[0] == -1:
            return self.flatten()
        if len(sh) != 2 or not all(is_n(x) for x in sh):
            raise Unsupported("reshape")
        return Sq(self.fn)


class Vec:
    """Vector of length n."""

    def __init__(self, fn):
        self.fn = fn

    def astype(self, dt):
        return self


class Prm:
    """The parameter vector: n(n+1)/2 entries; taking entries at positions is recorded with its range obligation."""
    ndim = 1

    def __init__(self):
        self.reads = []
        self.size = nx.S(div(mul(N, add(N, ONE)), num(2)))
        self.shape = (self.size,)

    def __getitem__(self, k):
        if not isinstance(k, Sq):
            raise Unsupported("index of the parameter vector")
        self.reads.append(k.fn)
        return Sq(lambda i, j: uf("P", [k.fn(i, j)]), k.flat)


class Root:
    """(sqrt(8 size + 1) - 1)/2 and the like: a real number that has to be shown to be n before it is used as n."""

    def __init__(self, t, log):
        self.t, self.log = t, log

    def _op(self, f, o):
        return Root(f(self.t, nx.R_(nx.L(o))), self.log)

    def __add__(self, o): return self._op(add, o)
    def __sub__(self, o): return self._op(sub, o)
    def __mul__(self, o): return self._op(mul, o)
    __radd__ = __add__
    __rmul__ = __mul__
    def __rsub__(self, o): return Root(sub(nx.R_(nx.L(o)), self.t), self.log)
    def __truediv__(self, o): return self._op(div, o)

    def astype(self, dt):
        if nx.kind(dt) != "int":
            raise Unsupported("dtype")
        self.log.append(self.t)
        return nx.S(N)


def is_n(x):
    return isinstance(x, nx.S) and x.t is N


def need_n(*xs):
    if not all(is_n(x) for x in xs):
        raise Unsupported("size other than n")


class LibN:
    """numpy / jax.numpy functions on matrices of symbolic size."""
    int32 = int64 = int_ = int

    def __init__(self, roots, sums):
        self.roots, self.sums = roots, sums

    def sqrt(self, x): return Root(tm.sqrt(nx.R_(nx.L(x))), self.roots)
    def arange(self, n, dtype=None): need_n(n); return Vec(lambda i: i)

    def diag(self, v):
        if not isinstance(v, Vec):
            raise Unsupported("diag")
        return Sq(lambda i, j: ite(eq(i, j), v.fn(i), ZERO))

    def ones(self, sh, dtype=None): need_n(*sh); return Sq(lambda i, j: ONE)
    def zeros(self, sh, dtype=None): need_n(*sh); return Sq(lambda i, j: ZERO)
    def eye(self, n, dtype=None): need_n(n); return Sq(lambda i, j: ite(eq(i, j), ONE, ZERO))
    identity = eye

    def tril(self, m, k=0):
        self._mat(m, k)
        return Sq(lambda i, j: ite(le(j, add(i, num(k))), m.fn(i, j), ZERO))

    def triu(self, m, k=0):
        self._mat(m, k)
        return Sq(lambda i, j: ite(le(add(i, num(k)), j), m.fn(i, j), ZERO))

    def _mat(self, m, k):
        if not isinstance(m, Sq) or m.flat or not isinstance(k, int):
            raise Unsupported("triangle")

    def abs(self, m): return Sq(lambda i, j: tm.tabs(m.fn(i, j)), m.flat)
    def where(self, c, a, b): raise Unsupported("where")

    def cumsum(self, m):
        """Running sum over the entries in row order, by ghost function: CS(i,j); see any_size for the induction."""
        k = len(self.sums)
        self.sums.append(m.fn)
        return Sq(lambda i, j: uf(f"CS{k}", [i, j]), True)


def any_size(r):
    q = "utils:get_cholesky_from_params"
    roots, sums = [], []
    lib = LibN(roots, sums)
    f = nx.sym_function(utils.get_cholesky_from_params, env=dict(np=lib, jnp=lib))
    prm = Prm()
    out = f(prm)
    if not isinstance(out, Sq) or out.flat:
        raise Unsupported("result")
    i, j = var("i", "I"), var("j", "I")
    n1 = [le(ONE, N)]
    rng = n1 + [le(ZERO, i), lt(i, N), le(ZERO, j), lt(j, N)]
    r.reachable("any size", rng)
    for t in roots:
        r.prove("the side of the matrix is recovered from the number of parameters", q, n1, eq(t, N))
    # running number of entries below the diagonal, in row order
    claim = lambda a, b: add(div(mul(a, sub(a, ONE)), num(2)), ite(lt(b, a), add(b, ONE), a))
    m = {}
    for k, v in enumerate(sums):
        last = sub(N, ONE)
        r.prove("running count: first entry", q, n1, eq(v(ZERO, ZERO), claim(ZERO, ZERO)))
        r.prove("running count: next entry of a row", q, rng + [lt(add(j, ONE), N)], eq(add(claim(i, j), v(i, add(j, ONE))), claim(i, add(j, ONE))))
        r.prove("running count: first entry of the next row", q, rng + [lt(add(i, ONE), N)], eq(add(claim(i, last), v(add(i, ONE), ZERO)), claim(add(i, ONE), ZERO)))
        m[uf(f"CS{k}", [i, j])] = claim(i, j)
    at = lambda t: tm.subst(t, m)
    size = prm.size.t
    for g in prm.reads:
        k = at(g(i, j))
        for nm, c in (("below", [lt(j, i)]), ("on", [eq(i, j)]), ("above", [lt(i, j)])):
            r.prove(f"positions read are inside the parameter vector ({nm} the diagonal)", q, rng + c, and_(le(ZERO, k), lt(k, size)))
            if nm == "below":
                r.prove("position of an entry below the diagonal: n + i(i-1)/2 + j", q, rng + c, eq(k, add(N, div(mul(i, sub(i, ONE)), num(2)), j)))
            if nm == "on":
                r.prove("position of a diagonal entry", q, rng + c, eq(k, i))
    o = at(out.fn(i, j))
    ps = [w for w in tm.subterms(o) if w.op == "uf" and w.val[1] == "P"]
    if len(prm.reads) != 1 or len(ps) != 1:
        raise Unsupported("more than one read of the parameters")
    for nm, c, want in (("below", [lt(j, i)], ps[0]), ("on", [eq(i, j)], ps[0]), ("above", [lt(i, j)], ZERO)):
        r.prove(f"entry {nm} the diagonal, any size", q, rng + c, eq(o, want))


def check_chol(n, seed):
    p = np.random.default_rng(seed).normal(size=n * (n + 1) // 2) * 3
    m = np.asarray(utils.get_cholesky_from_params(jnp.asarray(p)))
    want = np.zeros((n, n))
    for (a, b), k in layout(n).items():
        want[a, b] = p[k]
    if m.shape != (n, n):
        return [f"shape {m.shape} for {p.size} parameters"]
    return [] if close(m, want, 1e-12, 0) else [f"n={n}: factor " + worst(m, want)]


def check_conv(n, seed, zeros, scale):
    rng = np.random.default_rng(seed)
    a = rng.normal(size=(n, n + 2))
    c = a @ a.T
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    c = (c + c.T) / 2
    for _ in range(zeros):
        x, y = rng.integers(0, n, 2)
        if x != y:
            c[x, y] = c[y, x] = 0.0
    np.fill_diagonal(c, 1.0)
    s = 10 ** rng.uniform(-scale, scale, n)
    want = c * np.outer(s, s)
    cov = np.asarray(utils.covariance_from_correlation(jnp.asarray(c), jnp.asarray(s)))
    msgs = []
    if not close(cov, want, 1e-10, 0):
        msgs.append("covariance_from_correlation " + worst(cov, want))
    r = np.asarray(utils.correlation_from_covariance(jnp.asarray(want)))
    if not close(r, c, 1e-10, 1e-12):
        msgs.append("correlation_from_covariance " + worst(r, c))
    if not close(np.diag(r), np.ones(n), 1e-12, 0):
        msgs.append("correlation diagonal is not one")
    if not (np.array_equal(r, r.T) and np.allclose(cov, cov.T, rtol=1e-12, atol=0)):
        msgs.append("symmetric input gave asymmetric output")
    rr = np.asarray(utils.covariance_from_correlation(jnp.asarray(r), jnp.asarray(s)))
    if not close(rr, want, 1e-9, 0):
        msgs.append("round trip cov -> corr -> cov " + worst(rr, want))
    return msgs


def gen_chol(rng, N):
    for k in range(N):
        yield dict(n=1 + k, seed=int(rng.integers(1 << 30)))


def gen_conv(rng, N):
    for k in range(N):
        yield dict(n=1 + k % 7, seed=int(rng.integers(1 << 30)), zeros=k % 3, scale=float(rng.uniform(0, 3)))


CASES = {"chol": Case(check_chol, gen_chol, 40, 72), "conv": Case(check_conv, gen_conv, 40, 300)}
