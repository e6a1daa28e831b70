"""Front end A: mechanical extraction of the real JAX functions.

jax.make_jaxpr runs the *real* Python functions imported from /repo on abstract values and
yields the exact program JAX compiles.  This module interprets that program into terms.
What the extraction drops: floating-point rounding (exact reals instead), dtypes widths,
sharding / layout annotations, and error reporting (asserts on static shapes run for real
during tracing).  Array sizes stay symbolic where the functions allow it.
"""
from fractions import Fraction
import functools
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax import export
from . import terms as tm
from .terms import T, num, add, mul, sub, div, neg, ite, lt, le, eq, not_, and_, or_, uf, lift


class Unsupported(Exception):
    pass


def is_sym_dim(d):
    return not isinstance(d, (int, np.integer))


def dim_term(d):
    if not is_sym_dim(d):
        return num(int(d), "I")
    s = str(d)
    env = {}
    import re
    for v in set(re.findall(r"[A-Za-z_]\w*", s)):
        if v in ("max", "min", "floordiv", "mod"):
            raise Unsupported(f"dimension expression {s}")
        env[v] = tm.var("#" + v, "I")
    r = eval(s.replace("^", "**"), {}, env)
    return num(r, "I") if isinstance(r, int) else r


def dims_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


class SymArr:
    """shape + total element function."""

    def __init__(self, shape, fn, dtype=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        self.memo = {}

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        assert len(idx) == len(self.shape), (idx, self.shape)
        key = tuple(norm_idx(i) for i in idx)
        k2 = tuple(i if isinstance(i, int) else ("t", i.uid) for i in key)
        r = self.memo.get(k2)
        if r is None:
            r = self.memo[k2] = self.fn(key)
        return r

    def all_concrete(self):
        return all(not is_sym_dim(d) for d in self.shape)

    def elements(self):
        for idx in itertools.product(*[range(int(d)) for d in self.shape]):
            yield idx, self.at(*idx)

    def lam(self):
        """The whole array as one term."""
        bvs = [tm.fresh("b", "I") for _ in self.shape]
        if self.all_concrete() and np.prod([int(d) for d in self.shape], dtype=int) <= 32:
            return tm._mk("tup", [e for _, e in self.elements()],
                          tuple(str(d) for d in self.shape), "A")
        return tm.lam(bvs, self.shape, self.at(*bvs))


def norm_idx(i):
    if isinstance(i, (int, np.integer)):
        return int(i)
    if isinstance(i, T) and i.op == "num" and i.val.denominator == 1:
        return int(i.val)
    return i


def it(i):
    if isinstance(i, (int, np.integer)):
        return num(int(i), "I")
    return i if isinstance(i, T) else dim_term(i)


def scalar(t, dtype=None):
    return SymArr((), lambda idx: t, dtype)


def sort_of(dtype):
    if dtype is None:
        return "R"
    s = str(dtype)
    if s.startswith("key"):
        return "K"
    if s == "bool":
        return "B"
    if s.startswith("int") or s.startswith("uint"):
        return "I"
    return "R"


def const_arr(x):
    if isinstance(x, jax.Array) and jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
        if x.shape == ():
            return scalar(tm.var("key:" + str(np.asarray(jax.random.key_data(x)).tolist()), "K"), x.dtype)
        raise Unsupported("constant key array")
    a = np.asarray(x)

    def f(idx):
        if all(isinstance(i, int) for i in idx):
            v = a[idx]
            if a.dtype == bool:
                return tm.TRUE if v else tm.FALSE
            if np.issubdtype(a.dtype, np.integer):
                return num(int(v), "I")
            return tm.from_float(v)
        return table_term(a, idx)
    return SymArr(a.shape, f, a.dtype)


TABLES = {}
TRACED = set()


def table_term(a, idx):
    import hashlib
    h = hashlib.sha1(a.tobytes() + str(a.shape).encode()).hexdigest()[:10]
    TABLES["table:" + h] = a
    return uf("table:" + h, [it(i) for i in idx], sort_of(a.dtype))


NARROW = {"int8", "int16", "uint8", "uint16", "int4", "uint4", "float16", "bfloat16"}


class Interp:
    """Interpreter of a (closed) jaxpr into SymArr values.

    handlers: {jit name: f(interp, eqn, args) -> list of SymArr or NotImplemented}; a handler is a
    contract: callers are checked against it, not against the callee's body.
    """

    def __init__(self, handlers=None, max_unroll=64):
        self.handlers = dict(LIB_HANDLERS)
        if handlers:
            self.handlers.update(handlers)
        self.calls = []           # (name, args, outs): callee-contract uses and observation points
        self.observe = set()
        self.max_unroll = max_unroll
        self.prims = {}

    def run_closed(self, closed, args):
        return self.run(closed.jaxpr, closed.consts, args)

    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v).__name__ == "Literal":
                return self.literal(v)
            return env[v]

        def write(v, val):
            env[v] = val

        for v, c in zip(jaxpr.constvars, consts):
            write(v, const_arr(c) if not isinstance(c, SymArr) else c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            write(v, a)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            assert len(outs) == len(eqn.outvars), eqn.primitive.name
            for v, o in zip(eqn.outvars, outs):
                if o is not None and o.shape is not None:
                    o = SymArr(v.aval.shape, o.fn, v.aval.dtype) if o.dtype is None else o
                write(v, o)
        return [read(v) for v in jaxpr.outvars]

    def literal(self, v):
        x = v.val
        dt = v.aval.dtype
        if getattr(v.aval, "weak_type", False) or not isinstance(x, (np.ndarray, np.generic)):
            a = np.asarray(x)
            if a.shape == () and np.issubdtype(dt, np.floating):
                return scalar(tm.from_float(np.dtype(dt).type(a[()])), dt)
        return const_arr(np.asarray(x, dtype=dt) if np.asarray(x).dtype != dt else x)

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.prims[name] = self.prims.get(name, 0) + 1
        if name in ("jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call",
                    "custom_vjp_call_jaxpr", "remat", "checkpoint", "custom_lin"):
            return self.call(eqn, ins)
        f = PRIMS.get(name)
        if f is None:
            raise Unsupported(f"primitive {name}")
        for v in eqn.outvars:
            if str(getattr(v.aval, "dtype", "")) in NARROW:
                raise Unsupported(f"{name} computes in {v.aval.dtype}: idealised arithmetic does not cover it")
        r = f(self, eqn, *ins)
        return r if isinstance(r, (list, tuple)) else [r]

    def call(self, eqn, ins):
        p = eqn.params
        name = p.get("name", eqn.primitive.name)
        j = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
        if eqn.primitive.name == "custom_jvp_call":
            name = p.get("name", "custom_jvp")
        TRACED.add(name)
        h = self.handlers.get(name)
        if h is not None:
            r = h(self, eqn, ins)
            if r is not NotImplemented:
                if name in self.observe:
                    self.calls.append((name, ins, r))
                return r
        if hasattr(j, "consts"):
            r = self.run(j.jaxpr, j.consts, ins)
        else:
            r = self.run(j, [], ins)
        if name in self.observe:
            self.calls.append((name, ins, r))
        return r


# ---------------------------------------------------------------- primitives
PRIMS = {}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


def oshape(eqn, k=0):
    return eqn.outvars[k].aval.shape


def odtype(eqn, k=0):
    return eqn.outvars[k].aval.dtype


def bget(a, idx, oshape_):
    """Element with scalar / rank-polymorphic broadcasting of jax binary primitives."""
    if a.ndim == 0:
        return a.at()
    if a.ndim == len(idx):
        return a.at(*[0 if (not is_sym_dim(d) and int(d) == 1 and not dims_eq(d, o)) else i
                      for i, d, o in zip(idx, a.shape, oshape_)])
    raise Unsupported("rank mismatch")


def elementwise(fn):
    def f(interp, eqn, *ins):
        sh = oshape(eqn)
        return SymArr(sh, lambda idx: fn(*[bget(a, idx, sh) for a in ins]), odtype(eqn))
    return f


def _isbool(*ts):
    return all(t.sort == "B" for t in ts)


def b2r(t):
    return ite(t, tm.ONE, tm.ZERO) if t.sort == "B" else t


def _addn(a, b):
    if a.sort == "B":
        return or_(a, b)
    return add(a, b)


PRIMS["add"] = PRIMS["add_any"] = elementwise(_addn)
PRIMS["sub"] = elementwise(sub)
PRIMS["mul"] = elementwise(lambda a, b: and_(a, b) if a.sort == "B" else mul(a, b))


def _div(interp, eqn, a, b):
    sh = oshape(eqn)
    if sort_of(odtype(eqn)) == "I":
        def g(idx):
            x, y = bget(a, idx, sh), bget(b, idx, sh)
            if x.op == "num" and y.op == "num":
                q = abs(x.val) // abs(y.val)
                return num(q if (x.val >= 0) == (y.val >= 0) else -q, "I")
            raise Unsupported("symbolic integer division")
        return SymArr(sh, g, odtype(eqn))
    return SymArr(sh, lambda idx: div(bget(a, idx, sh), bget(b, idx, sh)), odtype(eqn))


PRIMS["div"] = _div
PRIMS["neg"] = elementwise(neg)
PRIMS["max"] = elementwise(lambda a, b: or_(a, b) if a.sort == "B" else (a if b.op == "special" and b.val == "-inf" else b if a.op == "special" and a.val == "-inf" else tm.tmax(a, b)))
PRIMS["min"] = elementwise(lambda a, b: and_(a, b) if a.sort == "B" else (a if b.op == "special" and b.val == "inf" else b if a.op == "special" and a.val == "inf" else tm.tmin(a, b)))
PRIMS["exp"] = elementwise(tm.exp)
PRIMS["exp2"] = elementwise(lambda a: tm.exp(mul(tm.log(num(2)), a)))
PRIMS["log"] = elementwise(tm.log)
PRIMS["log1p"] = elementwise(lambda a: tm.log(add(tm.ONE, a)))
PRIMS["expm1"] = elementwise(lambda a: sub(tm.exp(a), tm.ONE))
PRIMS["logistic"] = elementwise(tm.sig)
PRIMS["tanh"] = elementwise(lambda a: sub(mul(num(2), tm.sig(mul(num(2), a))), tm.ONE))
PRIMS["sqrt"] = elementwise(tm.sqrt)
PRIMS["rsqrt"] = elementwise(lambda a: div(tm.ONE, tm.sqrt(a)))
PRIMS["square"] = elementwise(lambda a: mul(a, a))
PRIMS["abs"] = elementwise(tm.tabs)
PRIMS["sign"] = elementwise(lambda a: ite(lt(tm.ZERO, a), tm.ONE, ite(lt(a, tm.ZERO), tm.MINUS1, tm.ZERO)))
PRIMS["floor"] = elementwise(lambda a: num(a.val.__floor__()) if a.op == "num" else tm.fn1("floor", a))
PRIMS["erf"] = elementwise(lambda a: tm.fn1("erf", a))
PRIMS["erfc"] = elementwise(lambda a: sub(tm.ONE, tm.fn1("erf", a)))
PRIMS["erf_inv"] = elementwise(lambda a: tm.fn1("erf_inv", a))
PRIMS["copy"] = PRIMS["copy_p"] = PRIMS["stop_gradient"] = PRIMS["optimization_barrier"] = \
    PRIMS["reduce_precision"] = elementwise(lambda a: a)
PRIMS["eq"] = elementwise(eq)
PRIMS["ne"] = elementwise(lambda a, b: not_(eq(a, b)))
PRIMS["lt"] = elementwise(lt)
PRIMS["le"] = elementwise(le)
PRIMS["gt"] = elementwise(lambda a, b: lt(b, a))
PRIMS["ge"] = elementwise(lambda a, b: le(b, a))
PRIMS["is_finite"] = elementwise(lambda a: tm.FALSE if a.op == "special" else tm.TRUE)


def _boolonly(f):
    def g(*a):
        if not _isbool(*a):
            raise Unsupported("bitwise operation")
        return f(*a)
    return g


PRIMS["and"] = elementwise(_boolonly(and_))
PRIMS["or"] = elementwise(_boolonly(or_))
PRIMS["not"] = elementwise(_boolonly(not_))
PRIMS["xor"] = elementwise(_boolonly(lambda a, b: not_(eq(a, b))))


@prim("pow")
def _pow(interp, eqn, a, b):
    sh = oshape(eqn)

    def g(idx):
        x, y = bget(a, idx, sh), bget(b, idx, sh)
        if y.op == "num" and y.val.denominator == 1 and abs(y.val) <= 8:
            return tm.ipow(x, int(y.val))
        if y is tm.HALF:
            return tm.sqrt(x)
        if x.op == "num" and x.val > 0:
            return tm.exp(mul(tm.log(x), y))
        return tm.exp(mul(tm.log(x), y))
    return SymArr(sh, g, odtype(eqn))


@prim("integer_pow")
def _ipow(interp, eqn, a):
    y = eqn.params["y"]
    return SymArr(oshape(eqn), lambda idx: tm.ipow(a.at(*idx), y), odtype(eqn))


@prim("select_n")
def _select(interp, eqn, c, *cases):
    sh = oshape(eqn)

    def g(idx):
        cc = bget(c, idx, sh)
        if cc.sort == "B":
            return ite(cc, bget(cases[1], idx, sh), bget(cases[0], idx, sh))
        if cc.op == "num":
            return bget(cases[int(cc.val)], idx, sh)
        r = bget(cases[-1], idx, sh)
        for k in range(len(cases) - 2, -1, -1):
            r = ite(eq(cc, num(k, "I")), bget(cases[k], idx, sh), r)
        return r
    return SymArr(sh, g, odtype(eqn))


@prim("clamp")
def _clamp(interp, eqn, lo, x, hi):
    sh = oshape(eqn)
    return SymArr(sh, lambda idx: tm.tmin(tm.tmax(bget(x, idx, sh), bget(lo, idx, sh)), bget(hi, idx, sh)), odtype(eqn))


@prim("convert_element_type")
def _cvt(interp, eqn, a):
    so = sort_of(odtype(eqn))

    def g(idx):
        x = a.at(*idx)
        if x.sort == so:
            return x
        if x.sort == "B":
            return ite(x, num(1, so), num(0, so))
        if so == "B":
            return not_(eq(x, num(0)))
        if so == "R":
            return num(x.val) if x.op == "num" else (x if x.sort == "I" else x)
        if so == "I":
            if x.op == "num":
                return num(int(x.val), "I")
            if x.sort == "I":
                return x
            if x.op == "ite":
                return ite(x.args[0], conv_int(x.args[1]), conv_int(x.args[2]))
            return tm.fn1("trunc", x)
        raise Unsupported(f"convert {x.sort}->{so}")
    return SymArr(oshape(eqn), g, odtype(eqn))


def conv_int(x):
    if x.op == "num":
        return num(int(x.val), "I")
    if x.op == "ite":
        return ite(x.args[0], conv_int(x.args[1]), conv_int(x.args[2]))
    return tm.fn1("trunc", x)


@prim("broadcast_in_dim")
def _bid(interp, eqn, a, *dyn):
    sh = oshape(eqn)
    bd = [int(d) for d in eqn.params["broadcast_dimensions"]]

    def g(idx):
        return a.at(*[0 if (not is_sym_dim(a.shape[k]) and int(a.shape[k]) == 1) else idx[d]
                      for k, d in enumerate(bd)])
    return SymArr(sh, g, odtype(eqn))


@prim("reshape")
def _reshape(interp, eqn, a, *dyn):
    sh = oshape(eqn)
    # drop/insert unit dimensions
    src = [(k, d) for k, d in enumerate(a.shape) if is_sym_dim(d) or int(d) != 1]
    dst = [(k, d) for k, d in enumerate(sh) if is_sym_dim(d) or int(d) != 1]
    if len(src) == len(dst) and all(dims_eq(x[1], y[1]) for x, y in zip(src, dst)):
        def g(idx):
            ii = [0] * a.ndim
            for (ks, _), (kd, _) in zip(src, dst):
                ii[ks] = idx[kd]
            return a.at(*ii)
        return SymArr(sh, g, odtype(eqn))
    if a.all_concrete() and all(not is_sym_dim(d) for d in sh):
        ash = tuple(int(d) for d in a.shape)
        osh = tuple(int(d) for d in sh)

        def g(idx):
            if not all(isinstance(i, int) for i in idx):
                raise Unsupported("symbolic index through reshape")
            return a.at(*[int(x) for x in np.unravel_index(int(np.ravel_multi_index(idx, osh)), ash)])
        return SymArr(sh, g, odtype(eqn))
    raise Unsupported(f"reshape {a.shape} -> {sh}")


@prim("squeeze")
def _squeeze(interp, eqn, a):
    dims = set(d % a.ndim for d in eqn.params["dimensions"])

    def g(idx):
        itx = iter(idx)
        return a.at(*[0 if k in dims else next(itx) for k in range(a.ndim)])
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("expand_dims")
def _expand(interp, eqn, a):
    dims = set(eqn.params["dimensions"])
    return SymArr(oshape(eqn), lambda idx: a.at(*[i for k, i in enumerate(idx) if k not in dims]), odtype(eqn))


@prim("transpose")
def _transpose(interp, eqn, a):
    perm = eqn.params["permutation"]

    def g(idx):
        ii = [None] * len(idx)
        for o, s in enumerate(perm):
            ii[s] = idx[o]
        return a.at(*ii)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("rev")
def _rev(interp, eqn, a):
    dims = eqn.params["dimensions"]

    def g(idx):
        ii = list(idx)
        for d in dims:
            n = dim_term(a.shape[d])
            ii[d] = norm_idx(sub(sub(n, num(1, "I")), it(idx[d])))
        return a.at(*ii)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("concatenate")
def _concat(interp, eqn, *ins):
    ax = eqn.params["dimension"]

    def g(idx):
        i = idx[ax]
        off = 0
        if isinstance(i, int):
            acc = 0
            for a in ins:
                d = a.shape[ax]
                if is_sym_dim(d):
                    break
                if i < acc + int(d):
                    jj = list(idx)
                    jj[ax] = i - acc
                    return a.at(*jj)
                acc += int(d)
            off = None
        # symbolic index or symbolic extents
        res = None
        starts = []
        acc = num(0, "I")
        for a in ins:
            starts.append(acc)
            acc = add(acc, dim_term(a.shape[ax]))
        for a, s in reversed(list(zip(ins, starts))):
            jj = list(idx)
            jj[ax] = norm_idx(sub(it(i), s))
            d = a.shape[ax]
            if not is_sym_dim(d) and int(d) == 1:
                jj[ax] = 0
            v = a.at(*jj)
            if res is None:
                res = v
            else:
                res = ite(lt(it(i), add(s, dim_term(d))), v, res)
        return res
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("slice")
def _slice(interp, eqn, a):
    st = eqn.params["start_indices"]
    strd = eqn.params["strides"] or [1] * a.ndim

    def g(idx):
        out = []
        for i, s, r in zip(idx, st, strd):
            if not is_sym_dim(s) and int(s) == 0 and r == 1:
                out.append(i)
            elif isinstance(i, int) and not is_sym_dim(s) and not is_sym_dim(r):
                out.append(int(s) + i * int(r))
            else:
                out.append(norm_idx(add(dim_term(s), mul(it(i), num(int(r), "I")))))
        return a.at(*out)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("stack")
def _stack(interp, eqn, *ins):
    ax = eqn.params.get("axis", eqn.params.get("dimension", 0))

    def g(idx):
        k = idx[ax]
        rest = idx[:ax] + idx[ax + 1:]
        kc = norm_idx(k)
        if isinstance(kc, int):
            return ins[kc].at(*rest)
        out = ins[-1].at(*rest)
        for q in range(len(ins) - 2, -1, -1):
            out = ite(eq(it(k), num(q, "I")), ins[q].at(*rest), out)
        return out
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("unstack")
def _unstack(interp, eqn, a):
    ax = eqn.params["axis"]
    outs = []
    for k in range(len(eqn.outvars)):
        def g(idx, k=k):
            ii = list(idx)
            ii.insert(ax, k)
            return a.at(*ii)
        outs.append(SymArr(oshape(eqn, k), g, odtype(eqn, k)))
    return outs


@prim("split")
def _split(interp, eqn, a):
    ax = eqn.params["axis"]
    outs = []
    off = 0
    for k, s in enumerate(eqn.params["sizes"]):
        def g(idx, off=off):
            ii = list(idx)
            ii[ax] = norm_idx(add(it(ii[ax]), it(off)))
            return a.at(*ii)
        outs.append(SymArr(oshape(eqn, k), g, odtype(eqn, k)))
        off += s
    return outs


@prim("dynamic_slice")
def _dslice(interp, eqn, a, *starts):
    sizes = eqn.params["slice_sizes"]

    def g(idx):
        out = []
        for i, s, d, z in zip(idx, starts, a.shape, sizes):
            sv = s.at()
            # lax clamps start into [0, d-z]
            sv2 = sv
            if sv.op == "num" and not is_sym_dim(d):
                sv2 = num(max(0, min(int(sv.val), int(d) - int(z))), "I")
            out.append(norm_idx(add(it(i), sv2)))
        return a.at(*out)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("dim_as_value")
def _dav(interp, eqn):
    return scalar(dim_term(eqn.params["dim"]), odtype(eqn))


@prim("iota")
def _iota(interp, eqn, *dyn):
    d = eqn.params["dimension"]
    so = sort_of(odtype(eqn))
    return SymArr(oshape(eqn), lambda idx: num(idx[d], so) if isinstance(idx[d], int) else idx[d], odtype(eqn))


@prim("pad")
def _pad(interp, eqn, a, pv):
    cfg = eqn.params["padding_config"]
    if all(not is_sym_dim(l) and l == 0 and not is_sym_dim(h) and h == 0 and i == 0 for l, h, i in cfg):
        return SymArr(oshape(eqn), lambda idx: a.at(*idx), odtype(eqn))

    def g(idx):
        ii, cond = [], tm.TRUE
        for i, (l, h, inner), d in zip(idx, cfg, a.shape):
            if inner != 0:
                raise Unsupported("interior padding")
            j = norm_idx(sub(it(i), it(l)))
            c = and_(le(num(0, "I"), it(j)), lt(it(j), dim_term(d)))
            cond = and_(cond, c)
            ii.append(j)
        if cond is tm.FALSE:
            return pv.at()
        return ite(cond, a.at(*ii), pv.at())
    return SymArr(oshape(eqn), g, odtype(eqn))


def _reduce(kind):
    def f(interp, eqn, a):
        axes = sorted(int(x) for x in eqn.params["axes"])
        sh = oshape(eqn)

        def g(idx):
            itx = iter(idx)
            pos = [None if k in axes else next(itx) for k in range(a.ndim)]

            def rec(k, pos):
                if k == len(axes):
                    return a.at(*pos)
                ax = axes[k]
                d = a.shape[ax]
                if not is_sym_dim(d) and int(d) <= interp.max_unroll:
                    vals = []
                    for i in range(int(d)):
                        p2 = list(pos)
                        p2[ax] = i
                        vals.append(rec(k + 1, p2))
                    if kind == "sum":
                        return add(*vals) if vals else tm.ZERO
                    if kind == "prod":
                        return mul(*vals) if vals else tm.ONE
                    if kind == "and":
                        return and_(*vals)
                    if kind == "or":
                        return or_(*vals)
                    r = vals[0]
                    for v in vals[1:]:
                        r = (tm.tmax if kind == "max" else tm.tmin)(r, v)
                    return r
                if kind == "sum":
                    b = tm.fresh("s", "I")
                    p2 = list(pos)
                    p2[ax] = b
                    return tm.summ(b, d, rec(k + 1, p2))
                b = tm.fresh("r", "I")
                p2 = list(pos)
                p2[ax] = b
                return uf("reduce_" + kind, [tm.lam([b], [d], rec(k + 1, p2))],
                          "B" if kind in ("and", "or") else "R")
            return rec(0, pos)
        return SymArr(sh, g, odtype(eqn))
    return f


PRIMS["reduce_sum"] = _reduce("sum")
PRIMS["reduce_prod"] = _reduce("prod")
PRIMS["reduce_max"] = _reduce("max")
PRIMS["reduce_min"] = _reduce("min")
PRIMS["reduce_and"] = _reduce("and")
PRIMS["reduce_or"] = _reduce("or")


@prim("platform_index")
def _platform(interp, eqn):
    ps = eqn.params["platforms"]
    k = next((i for i, p in enumerate(ps) if p is not None and "cpu" in p), None)
    if k is None:
        k = list(ps).index(None)
    return scalar(num(k, "I"), odtype(eqn))


@prim("cond")
def _cond(interp, eqn, ix, *args):
    bs = eqn.params["branches"]
    c = ix.at()
    if tm.is_num(c):
        b = bs[min(max(int(c.val), 0), len(bs) - 1)]
        return interp.run(b.jaxpr, b.consts, args)
    rs = [interp.run(b.jaxpr, b.consts, args) for b in bs]
    outs = []
    for k in range(len(eqn.outvars)):
        def g(idx, k=k):
            r = rs[-1][k].at(*idx)
            for m in range(len(bs) - 2, -1, -1):
                t = c if c.sort == "B" and m == 1 else (not_(c) if c.sort == "B" else le(c, num(m, "I")))
                r = ite(t, rs[m][k].at(*idx), r)
            return r
        outs.append(SymArr(oshape(eqn, k), g, odtype(eqn, k)))
    return outs


@prim("cumsum")
def _cumsum(interp, eqn, a):
    ax = eqn.params["axis"]
    rev = eqn.params["reverse"]

    def g(idx):
        i = idx[ax]
        d = a.shape[ax]
        if isinstance(i, int) and not is_sym_dim(d):
            rng = range(i, int(d)) if rev else range(0, i + 1)
            vals = []
            for k in rng:
                jj = list(idx)
                jj[ax] = k
                vals.append(a.at(*jj))
            return add(*vals)
        raise Unsupported("symbolic cumsum")
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("argmax", "argmin")
def _argmax(interp, eqn, a):
    (ax,) = eqn.params["axes"]
    nm = eqn.primitive.name

    def g(idx):
        d = a.shape[ax]
        b = tm.fresh("a", "I")
        jj = list(idx)
        jj.insert(ax, b)
        body = a.at(*jj)
        return tm.arg_index(nm, b, d, body)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("dot_general")
def _dot(interp, eqn, a, b):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    lc, rc, lb, rb = [[int(x) for x in y] for y in (lc, rc, lb, rb)]
    lfree = [k for k in range(a.ndim) if k not in lc and k not in lb]
    rfree = [k for k in range(b.ndim) if k not in rc and k not in rb]

    def g(idx):
        nb = len(lb)
        la, ra = [None] * a.ndim, [None] * b.ndim
        for k in range(nb):
            la[lb[k]] = idx[k]
            ra[rb[k]] = idx[k]
        for k, d in enumerate(lfree):
            la[d] = idx[nb + k]
        for k, d in enumerate(rfree):
            ra[d] = idx[nb + len(lfree) + k]

        def rec(k):
            if k == len(lc):
                return mul(b2r(a.at(*la)), b2r(b.at(*ra)))
            d = a.shape[lc[k]]
            if not is_sym_dim(d) and int(d) <= interp.max_unroll:
                vals = []
                for i in range(int(d)):
                    la[lc[k]] = i
                    ra[rc[k]] = i
                    vals.append(rec(k + 1))
                return add(*vals)
            bv = tm.fresh("s", "I")
            la[lc[k]] = bv
            ra[rc[k]] = bv
            return tm.summ(bv, d, rec(k + 1))
        return rec(0)
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("scatter", "scatter-add", "scatter_add", "scatter-mul", "scatter_mul")
def _scatter(interp, eqn, a, ind, upd):
    dn = eqn.params["dimension_numbers"]
    clip = "CLIP" in str(eqn.params["mode"]).upper()
    kind_ = eqn.primitive.name.replace("_", "-")
    uwd, iwd = list(dn.update_window_dims), set(dn.inserted_window_dims)
    sdo = list(dn.scatter_dims_to_operand_dims)
    obd = list(getattr(dn, "operand_batching_dims", ()))
    sbd = list(getattr(dn, "scatter_indices_batching_dims", ()))
    win = [d for d in range(a.ndim) if d not in iwd and d not in obd]
    usd = [k for k in range(upd.ndim) if k not in uwd]          # in order: the index dimensions
    free = [k for k in range(ind.ndim - 1) if k not in sbd]
    if any(is_sym_dim(ind.shape[k]) for k in free):
        raise Unsupported("scatter at a symbolic number of places")
    places = list(itertools.product(*[range(int(ind.shape[k])) for k in free]))
    if len(places) > 256:
        raise Unsupported(f"scatter at {len(places)} places")

    def g(idx):
        v = a.at(*idx)
        for pl in places:
            pos = [None] * (ind.ndim - 1)
            for k, x in zip(free, pl):
                pos[k] = x
            for k, d in zip(sbd, obd):
                pos[k] = idx[d]
            start = {d: ind.at(*pos, k) for k, d in enumerate(sdo)}
            uidx = [None] * upd.ndim
            for k, d in zip(usd, range(ind.ndim - 1)):
                uidx[k] = pos[d]
            cond = tm.TRUE
            for d in range(a.ndim):
                if d in obd:
                    continue
                st = start.get(d, num(0, "I"))
                if d in iwd:
                    w = num(1, "I")
                else:
                    w = dim_term(upd.shape[uwd[win.index(d)]])
                fits = and_(le(num(0, "I"), st), le(add(st, w), dim_term(a.shape[d])))
                if st is num(0, "I") and w is dim_term(a.shape[d]):
                    fits = tm.TRUE
                if clip and fits is not tm.TRUE:
                    raise Unsupported("scatter with clipped indices")
                cond = and_(cond, fits)
                if d in iwd:
                    cond = and_(cond, eq(it(idx[d]), st))
                else:
                    off = norm_idx(sub(it(idx[d]), st))
                    if w is not dim_term(a.shape[d]) or st is not num(0, "I"):
                        cond = and_(cond, le(num(0, "I"), it(off)), lt(it(off), w))
                    uidx[uwd[win.index(d)]] = off
            if cond is tm.FALSE:
                continue
            u = upd.at(*uidx)
            if kind_ == "scatter-add":
                u = add(v, u)
            elif kind_ == "scatter-mul":
                u = mul(v, u)
            v = ite(cond, u, v)
        return v
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("gather")
def _gather(interp, eqn, a, ind):
    dn = eqn.params["dimension_numbers"]
    sizes = eqn.params["slice_sizes"]
    mode = str(eqn.params["mode"])
    sh = oshape(eqn)
    offset_dims = list(dn.offset_dims)
    collapsed = set(dn.collapsed_slice_dims)
    obd = list(getattr(dn, "operand_batching_dims", ()))
    sbd = list(getattr(dn, "start_indices_batching_dims", ()))
    sim = list(dn.start_index_map)
    batch_out = [k for k in range(len(sh)) if k not in offset_dims]
    off_operand = [k for k in range(a.ndim) if k not in collapsed and k not in obd]

    def g(idx):
        bidx = [idx[k] for k in batch_out]
        oidx = [idx[k] for k in offset_dims]
        full = [0] * a.ndim
        for k, d in enumerate(off_operand):
            full[d] = oidx[k]
        inb = tm.TRUE
        for k, d in enumerate(sim):
            s = ind.at(*bidx, k)
            full[d] = norm_idx(add(it(full[d]), s))
            hi = sub(dim_term(a.shape[d]), it(sizes[d]))
            c = and_(le(num(0, "I"), s), le(s, hi))
            if "CLIP" in mode.upper():
                if c is not tm.TRUE:
                    s2 = tm.tmin(tm.tmax(s, num(0, "I")), hi)
                    full[d] = norm_idx(s2)
            inb = and_(inb, c)
        for k, d in enumerate(obd):
            full[d] = bidx[sbd[k]]
        v = a.at(*full) if inb is not tm.FALSE else None
        if "FILL" in mode.upper() and inb is not tm.TRUE:
            fill = uf("oob_fill", [], v.sort if v is not None else "R")
            return fill if v is None else ite(inb, v, fill)
        return v
    return SymArr(sh, g, odtype(eqn))


@prim("random_split")
def _rsplit(interp, eqn, k):
    shp = eqn.params["shape"]
    nb = k.ndim

    def g(idx):
        return uf("split:" + "x".join(str(s) for s in shp), [k.at(*idx[:nb]), *[it(i) for i in idx[nb:]]], "K")
    return SymArr(oshape(eqn), g, odtype(eqn))


@prim("random_fold_in")
def _rfold(interp, eqn, k, d):
    sh = oshape(eqn)
    return SymArr(sh, lambda idx: uf("fold_in", [bget(k, idx, sh), bget(d, idx, sh)], "K"), odtype(eqn))


@prim("random_bits")
def _rbits(interp, eqn, k):
    nb = k.ndim
    return SymArr(oshape(eqn), lambda idx: uf(f"bits{eqn.params['bit_width']}", [k.at(*idx[:nb]), *[it(i) for i in idx[nb:]]], "I"), odtype(eqn))


@prim("random_wrap")
def _rwrap(interp, eqn, a):
    sh = oshape(eqn)
    return SymArr(sh, lambda idx: uf("wrap", [a.at(*idx, 0), a.at(*idx, 1)], "K"), odtype(eqn))


@prim("random_unwrap")
def _runwrap(interp, eqn, a):
    return SymArr(oshape(eqn), lambda idx: uf("unwrap", [a.at(*idx[:-1]), it(idx[-1])], "I"), odtype(eqn))


@prim("random_seed")
def _rseed(interp, eqn, a):
    return SymArr(oshape(eqn), lambda idx: uf("seed", [a.at(*idx)], "K"), odtype(eqn))


@prim("cholesky")
def _chol(interp, eqn, a):
    def g(idx):
        b = idx[:-2]
        r, c = tm.fresh("b", "I"), tm.fresh("b", "I")
        d = a.shape[-1]
        if not is_sym_dim(d) and int(d) <= 8:
            mat = tm._mk("tup", [a.at(*b, i, j) for i in range(int(d)) for j in range(int(d))], (str(d), str(d)), "A")
        else:
            mat = tm.lam([r, c], [d, d], a.at(*b, r, c))
        return uf("chol", [mat, it(idx[-2]), it(idx[-1])])
    return SymArr(oshape(eqn), g, odtype(eqn))


# ---------------------------------------------------------------- library contracts
LIB_HANDLERS = {}
LIB_CONTRACTS_USED = set()


def lib(name):
    def deco(f):
        LIB_HANDLERS[name] = f
        return f
    return deco


def _is_key(a):
    return a.dtype is not None and str(a.dtype).startswith("key")


@lib("_uniform")
def _h_uniform(interp, eqn, args):
    if not args or not _is_key(args[0]):
        return NotImplemented
    k, lo, hi = args
    LIB_CONTRACTS_USED.add("jax.random.uniform(key,lo,hi): each element = lo+(hi-lo)*U(key,index), 0<=U<1")
    nb = k.ndim
    sh = oshape(eqn)

    def g(idx):
        u = uf("U", [k.at(*idx[:nb]), *[it(i) for i in idx[nb:]]])
        l = bget(lo, idx, sh) if lo.ndim in (0, len(idx)) else lo.at()
        h = bget(hi, idx, sh) if hi.ndim in (0, len(idx)) else hi.at()
        return add(l, mul(sub(h, l), u))
    return [SymArr(sh, g, odtype(eqn))]


def _h_normal(interp, eqn, args):
    if not args or not _is_key(args[0]):
        return NotImplemented
    k = args[0]
    LIB_CONTRACTS_USED.add("jax.random.normal(key): each element = N(key,index), a finite real")
    nb = k.ndim
    return [SymArr(oshape(eqn), lambda idx: uf("N", [k.at(*idx[:nb]), *[it(i) for i in idx[nb:]]]), odtype(eqn))]


LIB_HANDLERS["_normal"] = _h_normal
LIB_HANDLERS["_normal_real"] = _h_normal


@lib("interp")
def _h_interp(interp, eqn, args):
    if len(args) < 3:
        return NotImplemented
    x, xp, fp = args[:3]
    if len(args) > 3:
        return NotImplemented
    sh = oshape(eqn)
    LIB_CONTRACTS_USED.add("jnp.interp(x,xp,fp): for nondecreasing xp, piecewise-linear interpolation of fp over xp, constant outside, monotone when fp is")

    def g(idx):
        def arr(a):
            b = tm.fresh("b", "I")
            nb = a.ndim - 1
            if nb == 0:
                return tm.lam([b], [a.shape[-1]], a.at(b))
            return tm.lam([b], [a.shape[-1]], a.at(*idx[:nb], b))
        return uf("interp", [bget(x, idx, sh), arr(xp), arr(fp)])
    return [SymArr(sh, g, odtype(eqn))]


LIB_HANDLERS["_interp"] = _h_interp


def _install_quantile():
    """jnp.percentile and jnp.quantile are library functions with an assumed contract: give them a name for each method in the traced program."""
    if getattr(jnp.percentile, "_vf", False):
        return

    def named(real, what):
        kerns = {}

        def kern_of(method):
            def kern(a, q):
                return real(a, q, method=method)
            kern.__name__ = kern.__qualname__ = f"{what}_{method}"
            LIB_HANDLERS[kern.__name__] = functools.partial(_h_quantile, what, method)
            return jax.jit(kern)

        @functools.wraps(real)
        def f(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
            if axis is not None or out is not None or keepdims or any(v is not None for v in kw.values()):
                return real(a, q, axis=axis, out=out, overwrite_input=overwrite_input, method=method, keepdims=keepdims, **kw)
            if method not in kerns:
                kerns[method] = kern_of(method)
            return kerns[method](jnp.asarray(a), q)
        f._vf = True
        return f
    jnp.percentile = named(jnp.percentile, "percentile")
    jnp.quantile = named(jnp.quantile, "quantile")


def _h_quantile(what, method, interp, eqn, args):
    """jnp.quantile/percentile over a whole 1-d array at one fraction, or several fractions, in [0,1]."""
    if len(args) != 2 or args[0].ndim != 1 or oshape(eqn) != args[1].shape or method not in ("linear", "higher", "lower"):
        return NotImplemented
    x, q = args
    LIB_CONTRACTS_USED.add("jnp.percentile(x, 100*q), jnp.quantile(x, q): the q-quantile of the whole array, a function of the multiset of values and of q, between the "
                           "least and the largest value" + ("" if method == "linear" else f"; with method='{method}' the next value of the array that is not "
                                                            f"{'below' if method == 'higher' else 'above'} it"))
    b = tm.fresh("b", "I")
    arr = tm.lam([b], [x.shape[0]], x.at(b))
    nm = "quantile" if method == "linear" else "quantile_" + method

    def at(idx):
        f = bget(q, idx, q.shape)
        return uf(nm, [div(f, num(100)) if what == "percentile" else f, arr])
    return [SymArr(q.shape, at, odtype(eqn))]


_install_quantile()


def _install_truncnorm():
    """truncnorm.cdf and truncnorm.pdf are library functions with an assumed contract: give them a name in the traced program."""
    from jax.scipy.stats import truncnorm
    if getattr(truncnorm.cdf, "_vf", False):
        return

    def named(real, name):
        def kern(x, a, b, loc, scale):
            return real(x, a, b, loc, scale)
        kern.__name__ = kern.__qualname__ = name
        jitted = jax.jit(kern)

        def f(x, a, b, loc=0, scale=1):
            return jitted(*jnp.broadcast_arrays(*[jnp.asarray(v, float) for v in (x, a, b, loc, scale)]))
        f._vf = True
        return f
    truncnorm.cdf = named(truncnorm.cdf, "truncnorm_cdf")
    truncnorm.pdf = named(truncnorm.pdf, "truncnorm_pdf")


_install_truncnorm()


@lib("truncnorm_pdf")
def _h_tnpdf(interp, eqn, args):
    LIB_CONTRACTS_USED.add("jax.scipy.stats.truncnorm.pdf(x,a,b,loc,scale): the density whose cumulative distribution is truncnorm.cdf with the same arguments")
    return _standardised("tnpdf", eqn, args, True)


def _standardised(name, eqn, args, density):
    """Location and scale only enter through z = (x - loc)/scale (and 1/scale for the density)."""
    sh = oshape(eqn)

    def at(idx):
        v = [a.at(*idx[len(idx) - a.ndim:]) if a.ndim else a.at() for a in args]
        x, lo, hi = v[:3]
        loc, scale = (v[3:] + [num(0), num(1)][len(v) - 3:])
        f = uf(name, [div(sub(x, loc), scale), lo, hi])
        return div(f, scale) if density else f
    return [SymArr(sh, at, odtype(eqn))]


@lib("truncnorm_cdf")
def _h_tncdf(interp, eqn, args):
    LIB_CONTRACTS_USED.add("jax.scipy.stats.truncnorm.cdf(x,a,b,loc,scale), scale>0, a<b: nondecreasing in x, in [0,1], 0 at loc+a*scale, 1 at loc+b*scale")
    return _standardised("tncdf", eqn, args, False)


def opaque(name, key_args=None):
    """Contract stating only that the outputs are functions of the inputs (frame condition)."""
    def h(interp, eqn, args):
        outs = []
        for k in range(len(eqn.outvars)):
            def g(idx, k=k):
                return uf(f"{name}#{k}", [a.lam() if a.ndim else a.at() for a in args] + [it(i) for i in idx],
                          sort_of(odtype(eqn, k)))
            outs.append(SymArr(oshape(eqn, k), g, odtype(eqn, k)))
        return outs
    return h


# ---------------------------------------------------------------- tracing
F = np.float32


def set_float(x64):
    global F
    F = np.float64 if x64 else np.float32


def spec(shape=(), dtype=None):
    return jax.ShapeDtypeStruct(tuple(shape), F if dtype is None else dtype)


def keyspec(shape=()):
    return jax.ShapeDtypeStruct(tuple(shape), jax.random.key(0).dtype)


def dims(names, constraints=()):
    return export.symbolic_shape(names, constraints=list(constraints))


SIZE_BRANCHES = {}       # comparisons of a symbolic size made by the code under contract: site -> text


def _watch_size_comparisons():
    """JAX decides `n == c` for a symbolic size n as False. Where the code under contract itself branches on such a
    comparison, the trace covers only the sizes that take the branch; the site is recorded, and the driver reports the
    remaining sizes as undecided (they are then examined by the bounded clauses)."""
    from jax._src.export import shape_poly as sp
    import os as _os
    import sys as _sys
    repo = _os.path.realpath(_os.environ.get("VF_REPO", "/repo")) + "/"
    orig = sp._DimExpr.__eq__
    if getattr(orig, "_vf", False):
        return

    def eq(self, other):
        r = orig(self, other)
        if r is False and self is not other:
            f = _sys._getframe(1)
            fn = f.f_code.co_filename
            if fn.startswith(repo) or _os.path.realpath(fn).startswith(repo):
                d = None
                try:
                    d = self - other
                except Exception:
                    pass
                if d is not None and is_sym_dim(d):
                    SIZE_BRANCHES[f"{fn[len(repo):]}:{f.f_lineno}"] = f"{self} == {other}"
        return r
    eq._vf = True
    sp._DimExpr.__eq__ = eq


_watch_size_comparisons()


class Traced:
    pass


def path_name(path):
    out = ""
    for p in path:
        n = getattr(p, "name", None)
        if n is None:
            n = getattr(p, "key", None)
        if n is None:
            n = getattr(p, "idx", None)
        out += ("." if out else "") + str(n)
    return out


def trace(fn, args, names=None, handlers=None, observe=(), interp=None, sym=None, static=()):
    """Trace the real function and interpret its program.

    args: pytrees of ShapeDtypeStruct, or SymArr leaves supplied through `sym`.
    names: base names of the positional arguments; leaf k of argument a is named a.field.
    Returns Traced with .out (output pytree of SymArr), .inp (dict leaf name -> SymArr).
    """
    names = names or [f"a{i}" for i in range(len(args))]
    closed, out_shape = jax.make_jaxpr(fn, return_shape=True, static_argnums=static)(*args)
    leaves = []
    inp = {}
    for nm, a in zip(names, args):
        fl = jax.tree_util.tree_flatten_with_path(a)[0]
        for path, leaf in fl:
            pn = path_name(path)
            full = nm + ("." + pn if pn else "")
            so = sort_of(leaf.dtype)
            if sym and full in sym:
                arr = sym[full]
                if not isinstance(arr, SymArr):
                    arr = scalar(lift(arr), leaf.dtype)
            elif leaf.shape == ():
                arr = scalar(tm.var(full, so), leaf.dtype)
            else:
                arr = SymArr(leaf.shape, lambda idx, full=full, so=so: tm.elem(full, [it(i) for i in idx], so), leaf.dtype)
            inp[full] = arr
            leaves.append(arr)
    ip = interp or Interp(handlers)
    ip.observe |= set(observe)
    outs = ip.run_closed(closed, leaves)
    treedef = jax.tree_util.tree_structure(out_shape)
    r = Traced()
    r.out = jax.tree_util.tree_unflatten(treedef, outs)
    r.inp = inp
    r.interp = ip
    r.closed = closed
    r.n_eqns = count_eqns(closed.jaxpr)
    return r


def count_eqns(j):
    n = 0
    for e in j.eqns:
        n += 1
        for v in e.params.values():
            for w in (v if isinstance(v, (list, tuple)) else [v]):
                if hasattr(w, "jaxpr"):
                    n += count_eqns(w.jaxpr)
                elif hasattr(w, "eqns"):
                    n += count_eqns(w)
    return n
