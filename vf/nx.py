"""Front end B: contract verification of the plain numpy/Python functions.

The real function's source is taken from /repo on every run, its decorators and docstring dropped, every `for` over a
symbolic range replaced by the three-part proof rule of its loop contract (entry, preservation, continuation), and the
resulting code object is executed by CPython with the numeric names of its module (np, jnp, float, range, ...) bound to
symbolic counterparts.  A branch on a symbolic condition forks the execution; every feasible path is explored, so an
obligation about the returned value holds on all inputs.  Calls to other functions go to their contracts.
"""
import ast
import builtins
import inspect
import itertools
import textwrap
import types
from fractions import Fraction
import numpy as _np
from . import terms as tm
from .terms import T, num, add, sub, mul, div, neg, ite, lt, le, eq, not_, and_, or_, var, uf, elem, TRUE, FALSE, ZERO, ONE
from . import jx
from .jx import Unsupported

ZI = num(0, "I")
CONTRACTS_USED = set()
EXECUTED = set()


# ------------------------------------------------------------------ path exploration
class Ctx:
    cur = None

    def __init__(self, prefix, hyps, max_dec=60):
        self.prefix, self.pc, self.taken, self.alts = list(prefix), list(hyps), [], []
        self.nh = len(hyps)
        self.facts = []
        self.max_dec = max_dec
        self.extended = False
        self.obl = []

    def assume(self, *fs):
        self.pc += [f for f in fs if f is not TRUE]

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        for p in self.pc:
            if p is c:
                return True
            if p is not_(c):
                return False
        if c.op == "and":
            pcs = {p.uid for p in self.pc}
            if all(a.uid in pcs for a in c.args):
                return True
            if any(not_(a).uid in pcs for a in c.args):
                return False
        k = len(self.taken)
        if k >= self.max_dec:
            raise Unsupported("too many branches on one path")
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            if not feasible(self.pc + [c]):
                self.pc.append(not_(c))
                self.taken.append(None)
                return False
            if not feasible(self.pc + [not_(c)]):
                self.pc.append(c)
                self.taken.append(None)
                return True
            b = True
            self.alts.append(self.taken + [False])
        if b is None:
            b = feasible(self.pc + [c])
            self.taken.append(None)
        else:
            self.taken.append(b)
        self.pc.append(c if b else not_(c))
        return b


FEAS = {}


def feasible(hyps):
    from . import prove as pv
    k = tuple(h.uid for h in hyps)
    r = FEAS.get(k)
    if r is None:
        try:
            st, *_ = pv.z3_check(hyps, FALSE, timeout=1500)
        except NotImplementedError:
            st = "unknown"
        r = FEAS[k] = st != "unsat"
    return r


class PathResult:
    def __init__(self, kind, value, ctx):
        self.kind, self.value, self.ctx = kind, value, ctx
        self.pc = list(ctx.pc)

    def __repr__(self):
        return f"<{self.kind} {type(self.value).__name__} pc={len(self.pc)}>"


class LoopDone(Exception):
    """Raised when the body of a cut loop has been checked on this path."""


def explore(run, hyps=(), limit=400):
    """All feasible paths of run() (called afresh on each)."""
    todo, out = [[]], []
    while todo:
        if len(out) > limit:
            raise Unsupported("too many paths")
        pref = todo.pop()
        c = Ctx(pref, hyps)
        old, Ctx.cur = Ctx.cur, c
        tm.DECIDE.append(lambda t, c=c: c.decide(t if t.sort == "B" else not_(eq(t, num(0)))))
        try:
            try:
                out.append(PathResult("return", run(), c))
            except LoopDone as e:
                out.append(PathResult("loop", e, c))
            except (Unsupported, NotImplementedError, RecursionError):
                raise
            except (TypeError, AttributeError, NameError) as e:
                raise Unsupported(f"execution left the supported subset: {type(e).__name__}: {e}") from e
            except Exception as e:
                out.append(PathResult("raise", e, c))
        finally:
            Ctx.cur = old
            tm.DECIDE.pop()
        todo += c.alts
    return out


def decide(c):
    return Ctx.cur.decide(c)


def assume(*fs):
    if Ctx.cur is not None:
        Ctx.cur.assume(*fs)


# ------------------------------------------------------------------ values
def L(x, sort=None):
    """Term of a scalar value."""
    if isinstance(x, S):
        return x.t
    if isinstance(x, T):
        return x
    if isinstance(x, A):
        if x.ndim == 0:
            return x.at()
        if all(isinstance(d, int) for d in x.shape) and _np.prod(x.shape) == 1:
            return x.at(*[0] * x.ndim)
        raise Unsupported("array used as a scalar")
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, _np.integer)):
        return num(int(x), "I")
    if isinstance(x, (float, _np.floating)):
        return tm.from_float(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return L(x[()])
    if isinstance(x, jx.SymArr):
        if x.ndim == 0:
            return x.at()
    if hasattr(x, "shape") and hasattr(x, "dtype") and x.shape == ():
        return L(_np.asarray(x)[()])
    raise Unsupported(f"no term for {type(x).__name__}")


def is_sym(x):
    if isinstance(x, (S, A, T, Tok)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    if isinstance(x, dict):
        return any(is_sym(y) for y in x.values())
    return False


def b2(t):
    return ite(t, ONE, ZERO) if t.sort == "B" else t


def _cmp(op, a, b):
    if a.sort == "B" or b.sort == "B":
        if op == "eq" and a.sort == b.sort:
            return eq(a, b)
        a, b = b2(a), b2(b)
    if a.op == "ite" and b.op == "num" or b.op == "ite" and a.op == "num":
        pass
    return {"lt": lt, "le": le, "eq": lambda x, y: eq(num(x.val) if x.op == "num" else x, num(y.val) if y.op == "num" else y)}[op](a, b)


def _pow(a, b):
    if a.op == "num" and a.val == 10:
        if b.op == "special":
            return ZERO if b.val == "-inf" else b
        if b.op == "num" and b.val.denominator == 1:
            return num(Fraction(10) ** int(b.val))
        return tm.pow10(b)
    if b.op == "num" and b.val.denominator == 1:
        n = int(b.val)
        return tm.ipow(a, n) if n >= 0 else div(ONE, tm.ipow(a, -n))
    if b.op == "num" and b.val == Fraction(1, 2):
        return tm.sqrt(a)
    raise Unsupported("general power")


def R_(t):
    return num(t.val) if t.op == "num" and t.sort == "I" else t


OPS = {
    "add": lambda a, b: add(R_(b2(a)), R_(b2(b))), "sub": lambda a, b: sub(R_(b2(a)), R_(b2(b))),
    "mul": lambda a, b: mul(R_(b2(a)), R_(b2(b))), "truediv": lambda a, b: div(R_(b2(a)), R_(b2(b))),
    "lt": lambda a, b: _cmp("lt", a, b), "le": lambda a, b: _cmp("le", a, b), "eq": lambda a, b: _cmp("eq", a, b),
    "gt": lambda a, b: _cmp("lt", b, a), "ge": lambda a, b: _cmp("le", b, a), "ne": lambda a, b: not_(_cmp("eq", a, b)),
    "pow": lambda a, b: _pow(R_(a), R_(b)),
    "and": lambda a, b: _bool2(and_, a, b), "or": lambda a, b: _bool2(or_, a, b), "xor": lambda a, b: not_(eq(a, b)),
    "floordiv": lambda a, b: _floordiv(a, b), "mod": lambda a, b: sub(a, mul(b, _floordiv(a, b))),
    "maximum": lambda a, b: ite(le(R_(a), R_(b)), R_(b), R_(a)), "minimum": lambda a, b: ite(le(R_(a), R_(b)), R_(a), R_(b)),
}


def _floordiv(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.val // b.val, "I")
    return tm.fn1("floor", div(R_(a), R_(b)))


def _bool2(f, a, b):
    if a.sort != "B" or b.sort != "B":
        raise Unsupported("bitwise operation on numbers")
    return f(a, b)


def binop(name, a, b):
    if isinstance(a, Tok) or isinstance(b, Tok):
        return NotImplemented
    try:
        if isinstance(a, (A, _np.ndarray, list)) or isinstance(b, (A, _np.ndarray, list)) or isinstance(a, jx.SymArr) or isinstance(b, jx.SymArr) \
                or (hasattr(a, "shape") and a.shape != () and not isinstance(a, S)) or (hasattr(b, "shape") and b.shape != () and not isinstance(b, S)):
            r = lift_picked(OPS[name], a, b)
            if r is not None:
                return r
            x, y = as_array(a), as_array(b)
            sh = bshape(x.shape, y.shape)
            f, g = x.fn, y.fn
            nx_, ny = x.shape, y.shape
            return A(sh, lambda idx: OPS[name](bidx(f, nx_, idx), bidx(g, ny, idx)))
        return wrap(OPS[name](L(a), L(b)))
    except TypeError:
        return NotImplemented


def wrap(t):
    if t is TRUE:
        return _np.True_
    if t is FALSE:
        return _np.False_
    return S(t)


class Ops:
    vf_reflect = True
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("truediv", self, o)
    def __rtruediv__(self, o): return binop("truediv", o, self)
    def __floordiv__(self, o): return binop("floordiv", self, o)
    def __rfloordiv__(self, o): return binop("floordiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __pow__(self, o): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __lt__(self, o): return binop("lt", self, o)
    def __le__(self, o): return binop("le", self, o)
    def __gt__(self, o): return binop("gt", self, o)
    def __ge__(self, o): return binop("ge", self, o)
    def __eq__(self, o): return binop("eq", self, o)
    def __ne__(self, o): return binop("ne", self, o)
    def __and__(self, o): return binop("and", self, o)
    def __rand__(self, o): return binop("and", o, self)
    def __or__(self, o): return binop("or", self, o)
    def __ror__(self, o): return binop("or", o, self)
    def __xor__(self, o): return binop("xor", self, o)
    def __neg__(self): return binop("mul", -1, self)
    def __pos__(self): return self
    def __abs__(self): return unary(tm.tabs, self)
    __hash__ = None


class S(Ops):
    """Symbolic scalar."""
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        t = self.t
        if t.sort != "B":
            t = not_(eq(t, num(0)))
        return decide(t)

    def __invert__(self):
        if self.t.sort != "B":
            raise Unsupported("~ of a number")
        return wrap(not_(self.t))

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def __index__(self):
        if self.t.op == "num":
            return int(self.t.val)
        if Ctx.cur is None:
            raise Unsupported("symbolic value used as a Python index")
        t = R_(self.t)
        if any(x.op == "uf" and x.val[1] == "strlen" for x in tm.subterms(t)):
            raise Unsupported("length of a symbolic string used as a Python index")
        for v in range(0, 9):
            if decide(eq(t, num(v))):
                return v
        raise Unsupported("symbolic value used as a Python index")

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the executed function")

    def __format__(self, spec):
        return token("fmt:" + spec, self.t)

    def __str__(self):
        return token("str", self.t)

    def __repr__(self):
        return f"S({self.t})"

    def item(self):
        return self

    def sum(self, *a, **k):
        return wrap(b2(self.t))

    def __iter__(self):
        raise TypeError("iteration over a 0-d value")

    def reshape(self, *sh):
        return as_array(self).reshape(*sh)

    def copy(self):
        return self


def unary(f, x):
    if isinstance(x, Picked):
        return lift_picked(f, x)
    if isinstance(x, (list, tuple, _np.ndarray)) or isinstance(x, A):
        x = as_array(x)
        g = x.fn
        return A(x.shape, lambda idx: f(g(idx)))
    return wrap(f(R_(L(x))))


def parse(t, dt):
    """The number a string stands for, in the given type; int(str(k)) = k."""
    try:
        nm = _np.dtype({p_float: "f8", p_int: "i8"}.get(dt, dt) if callable(dt) else dt).name
    except TypeError:
        nm = str(dt)
    if nm == "int64" and t.op == "uf" and t.val[1] == "str" and t.args[0].sort == "I":
        return t.args[0]
    short = {"float64": "parse_float", "int64": "parse_int"}.get(nm, "parse_" + nm)
    return uf(short, [t], "I" if "int" in nm else "R")


def cast(x, dt):
    k = kind(dt)

    def f(t):
        if k == "bool":
            return t if t.sort == "B" else not_(eq(t, num(0)))
        if k == "int":
            if t.sort == "B":
                return ite(t, num(1, "I"), num(0, "I"))
            return parse(t, dt) if t.sort == "Str" else (t if t.sort == "I" or (t.op == "num" and t.val.denominator == 1) else uf("trunc", [t], "I"))
        if k == "str":
            return t if t.sort == "Str" else uf("str", [t], "Str")
        if t.sort == "Str":
            return parse(t, dt)
        return b2(t)
    return unary(f, x) if isinstance(x, A) else wrap(f(L(x)))


def kind(dt):
    s = str(getattr(dt, "__name__", dt)).lower()
    if "bool" in s:
        return "bool"
    if "int" in s or s[:1] in ("i", "u") or s[1:2] in ("i", "u"):
        return "int"
    if "float" in s or s[:1] == "f" or s[1:2] == "f":
        return "float"
    if "str" in s or s[:1].upper() in ("U", "S"):
        return "str"
    raise Unsupported(f"dtype {dt}")


# ---- strings: a token is a printable placeholder standing for the formatted value
TOKENS = {}


class Tok(str):
    """String whose content is determined by a term of sort Str (contains no white space)."""
    __slots__ = ()


def token(how, t):
    st = uf(how, [t], "Str")
    s = f"\u27e6{st.uid}\u27e7"
    TOKENS[s] = st
    return s


def name_token(nm):
    """An arbitrary non-empty name without slash or white space."""
    st = var(nm, "Str")
    s = f"\u27e6{st.uid}\u27e7"
    TOKENS[s] = st
    return SStr(s)


def pieces(s):
    import re
    return [p for p in re.split("(\u27e6[^\u27e7]*\u27e7)", str(s)) if p]


def str_len(s):
    n = num(0, "I")
    for p in pieces(s):
        n = add_i(n, uf("strlen", [TOKENS[p]], "I") if p in TOKENS else num(len(p), "I"))
    return n


class SStr(str):
    """Text made of arbitrary names and literal text."""
    __slots__ = ()

    def join(self, xs): return SStr(str.join(self, list(xs)))
    def format(self, *a, **k): return SStr(str.format(self, *a, **k))
    def __add__(self, o): return SStr(str.__add__(self, o))
    def __radd__(self, o): return SStr(str.__add__(o, self))

    def __getitem__(self, k):
        from . import prove as pv
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("character of a symbolic string")
        ps = pieces(self)

        def cut(b):
            t = L(b)
            n = num(0, "I")
            for j in range(len(ps) + 1):
                if pv.prove([], eq(R_(t), R_(n))).ok:
                    return j, 0
                if j < len(ps):
                    if ps[j] not in TOKENS:
                        for q in range(1, len(ps[j])):
                            if pv.prove([], eq(R_(t), R_(add_i(n, num(q, "I"))))).ok:
                                return j, q
                    n = add_i(n, str_len(ps[j]))
            raise Unsupported("slice of a symbolic string inside a name")
        a = (0, 0) if k.start is None else cut(k.start)
        b = (len(ps), 0) if k.stop is None else cut(k.stop)
        out = ""
        for j, p in enumerate(ps):
            lo = a[1] if j == a[0] else 0
            hi = b[1] if j == b[0] else len(p)
            if a[0] <= j and (j < b[0] or (j == b[0] and b[1])):
                out += str.__getitem__(p, slice(lo, hi))
        return SStr(out)


def str_term(s):
    """Term of a string: the token it consists of, or a literal."""
    s2 = s.decode() if isinstance(s, bytes) else s
    if s2 in TOKENS:
        return TOKENS[s2]
    if "\u27e6" in s2:
        raise Unsupported("string mixing placeholders: " + s2[:60])
    return uf("lit:" + s2, [], "Str")


# ---- arrays
def D(d):
    """Dimension as int or term."""
    if isinstance(d, S):
        d = d.t
    if isinstance(d, T):
        return int(d.val) if d.op == "num" else d
    if isinstance(d, (int, _np.integer)):
        return int(d)
    if d is None:
        return None
    if isinstance(d, A):
        return D(L(d))
    if hasattr(d, "__index__"):
        return int(d)
    if jx.is_sym_dim(d):
        return D(jx.dim_term(d))
    raise Unsupported(f"dimension {d!r}")


def dT(d):
    return num(d, "I") if isinstance(d, int) else d


def same_dim(a, b):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    e = eq(R_(dT(a)), R_(dT(b)))
    from . import nf
    if nf.NF().key(sub(R_(dT(a)), R_(dT(b)))) == nf.NF().key(ZERO):
        return True
    return decide(e)


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x)
        else:
            raise ValueError("operands could not be broadcast together")
    return tuple(out)


def bidx(f, sh, idx):
    idx = idx[len(idx) - len(sh):]
    return f(tuple(num(0, "I") if isinstance(d, int) and d == 1 else i for d, i in zip(sh, idx)))


def I_(i):
    if isinstance(i, (int, _np.integer)):
        return num(int(i), "I")
    return i if isinstance(i, T) else L(i)


class A(Ops):
    """Symbolic array: dimensions (int or term) and a total element function; assignment replaces the function."""

    def __init__(self, shape, fn, sort=None):
        self.shape = tuple(D(d) for d in shape)
        self.fn = fn
        self.viewed = False
        self.origin = None

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def T(self):
        f = self.fn
        return A(self.shape[::-1], lambda idx: f(tuple(reversed(idx))))

    @property
    def size(self):
        r = num(1, "I")
        if all(isinstance(d, int) for d in self.shape):
            return int(_np.prod(self.shape, dtype=int))
        r = None
        for d in self.shape:
            r = dT(d) if r is None else mul(r, dT(d))
        return S(r)

    @property
    def dtype(self):
        t = self.fn(tuple(self.generic())) if self.ndim else self.fn(())
        if t.sort == "Str":
            raise Unsupported("dtype of a text array")
        return _np.dtype(bool if t.sort == "B" else int if t.sort == "I" else float)

    def at(self, *idx):
        if len(idx) != self.ndim:
            raise Unsupported("wrong number of indices")
        return self.fn(tuple(I_(i) for i in idx))

    def generic(self, names="ijkl"):
        return [var("ix_" + names[k], "I") for k in range(self.ndim)]

    def lam(self):
        if self.ndim == 0:
            return self.at()
        if all(isinstance(d, int) for d in self.shape) and _np.prod(self.shape) <= 64:
            return tm._mk("tup", [self.at(*i) for i in itertools.product(*[range(d) for d in self.shape])], tuple(str(d) for d in self.shape), "A")
        b = [tm.fresh("b", "I") for _ in self.shape]
        return tm.lam(b, [dname(d) for d in self.shape], self.at(*b))

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported("len() of a symbolic array outside the executed function")

    def __iter__(self):
        if not isinstance(self.shape[0], int):
            raise Unsupported("iteration over a symbolic array")
        for k in range(self.shape[0]):
            yield self[k]

    def __bool__(self):
        return decide(L(self))

    def __invert__(self):
        f = self.fn
        return A(self.shape, lambda idx: not_(f(idx)))

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    def _inplace(self, r):
        if self.viewed:
            raise Unsupported("in-place change of an array that has been sliced")
        if isinstance(self, Picked):
            raise Unsupported("in-place change of a selection")
        self.fn = r.fn
        return self

    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def copy(self):
        return A(self.shape, self.fn)

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    def reshape(self, *sh, **k):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        return reshape(self, sh)

    def sum(self, axis=None, **k): return NP.sum(self, axis=axis)
    def mean(self, axis=None, **k): return NP.mean(self, axis=axis)
    def std(self, axis=None, ddof=0, **k): return NP.std(self, axis=axis, ddof=ddof)
    def var(self, axis=None, ddof=0, **k): return NP.var(self, axis=axis, ddof=ddof)
    def max(self, axis=None, **k): return NP.max(self, axis=axis)
    def min(self, axis=None, **k): return NP.min(self, axis=axis)
    def all(self, axis=None, **k): return NP.all(self)
    def any(self, axis=None, **k): return NP.any(self)
    def argmax(self, axis=None): return NP.argmax(self, axis)
    def item(self): return wrap(L(self))

    def tolist(self):
        return [x.tolist() if isinstance(x, A) else x for x in self]

    def __repr__(self):
        return f"A{self.shape}"


SIZES = tm.SIZES


def dname(d):
    if not isinstance(d, T):
        return str(d)
    s = str(d.val)[1:] if d.op == "var" and str(d.val).startswith("#") else str(int(d.val)) if d.op == "num" else f"@{d.uid}"
    SIZES[s] = d
    return s


def as_array(x):
    if isinstance(x, A):
        return x
    if isinstance(x, SymList):
        return A((x.n,), x.fn)
    if isinstance(x, jx.SymArr):
        return A([D(d) for d in x.shape], lambda idx: x.at(*idx))
    if isinstance(x, (list, tuple)):
        items = [as_array(y) for y in x]
        if not items:
            return A((0,), lambda idx: ZERO)
        sh = items[0].shape
        for y in items:
            if len(y.shape) != len(sh) or not all(same_dim(p, q) for p, q in zip(y.shape, sh)):
                raise ValueError("ragged array")

        def f(idx):
            k = idx[0]
            if k.op == "num":
                return items[int(k.val)].fn(idx[1:])
            r = items[-1].fn(idx[1:])
            for j in range(len(items) - 2, -1, -1):
                r = ite(eq(num(k.val) if k.op == "num" else k, num(j, "I")), items[j].fn(idx[1:]), r)
            return r
        return A((len(items),) + tuple(sh), f)
    if hasattr(x, "shape") and hasattr(x, "dtype") and not isinstance(x, S):
        if x.shape == ():
            t = L(x)
            return A((), lambda idx: t)
        a = _np.asarray(x)
        c = jx.const_arr(a)
        return A(a.shape, lambda idx: c.at(*idx))
    if isinstance(x, str):
        t = str_term(x)
        return A((), lambda idx: t)
    t = L(x)
    return A((), lambda idx: t)


def reshape(a, sh):
    sh = [D(s) for s in sh]
    ones = lambda s: [d for d in s if not (isinstance(d, int) and d == 1)]
    core = ones(a.shape)
    neg_ = [k for k, s in enumerate(sh) if isinstance(s, int) and s == -1]
    want = [s for s in sh if not (isinstance(s, int) and s in (1, -1))]
    if neg_:
        rest = list(core)
        for w in want:
            for r in rest:
                if r is w or (isinstance(r, int) and r == w):
                    rest.remove(r)
                    break
            else:
                raise Unsupported("reshape")
        if len(rest) > 1:
            raise Unsupported("reshape merging dimensions")
        sh[neg_[0]] = rest[0] if rest else 1
    if len(ones(sh)) != len(core) or not all(same_dim(p, q) for p, q in zip(ones(sh), core)):
        raise Unsupported("reshape")
    f, old = a.fn, a.shape
    pos = [k for k, d in enumerate(sh) if not (isinstance(d, int) and d == 1)]

    def g(idx):
        it_ = iter([idx[k] for k in pos])
        return f(tuple(num(0, "I") if isinstance(d, int) and d == 1 else next(it_) for d in old))
    a.viewed = True
    return A(sh, g)


# selection of the entries where a mask holds
def count_of(mask):
    """Number of true entries (sort I)."""
    lam_ = mask.lam()
    t = uf("count", [lam_], "I")
    assume(le(ZI, t), le(t, dT(mask.shape[0])))
    return t


def sel(mask, k):
    """Position of the k-th true entry."""
    t = uf("sel", [mask.lam(), k], "I")
    n = dT(mask.shape[0])
    inr = and_(le(ZI, k), lt(k, uf("count", [mask.lam()], "I")))
    return t


def mask_facts(mask, k):
    """Definition of the selection: the k-th selected position is in range and satisfies the mask."""
    t = sel(mask, k)
    inr = and_(le(ZI, k), lt(k, uf("count", [mask.lam()], "I")))
    return [tm.implies(inr, and_(le(ZI, t), lt(t, dT(mask.shape[0])), mask.at(t)))]


def pos_index(i, d):
    """Index in [0,d): negative literals count from the end; out-of-range literal/unknown forks to IndexError."""
    i = D(i) if not isinstance(i, (int, T)) else i
    n = dT(d)
    if isinstance(i, T) and i.op == "num":
        i = int(i.val)
    if isinstance(i, int):
        if isinstance(d, int):
            if not -d <= i < d:
                raise IndexError(f"index {i} is out of bounds for axis 0 with size {d}")
            return num(i % d if d else 0, "I")
        need = num(-i if i < 0 else i + 1, "I")
        if not decide(le(need, n)):
            raise IndexError(f"index {i} is out of bounds")
        return num(i, "I") if i >= 0 else add(n, num(i))
    ok = and_(le(ZI, i), lt(i, n))
    if not decide(ok):
        if decide(and_(lt(i, ZI), le(neg(n), i))):
            return add(n, i)
        raise IndexError("index out of bounds")
    return i


def slice_bounds(s, d):
    if s.step is not None and D(s.step) not in (1,):
        if D(s.step) == -1 and s.start is None and s.stop is None:
            return "rev", None
        raise Unsupported("slice step")
    n = dT(d)

    def bound(b, default):
        if b is None:
            return default
        b = D(b)
        if isinstance(b, int):
            if isinstance(d, int):
                return num(max(0, min(d, b + d if b < 0 else b)), "I")
            if b == 0:
                return ZI
            if b > 0:
                return num(b, "I") if decide(le(num(b, "I"), n)) else n
            return add(n, num(b)) if decide(le(num(-b, "I"), n)) else ZI
        if decide(and_(le(ZI, b), le(b, n))):
            return b
        if decide(lt(n, b)):
            return n
        m = add(n, b)
        return m if decide(le(ZI, m)) else ZI
    lo = bound(s.start, ZI)
    hi = bound(s.stop, n)
    if lo.op == "num" and hi.op == "num":
        return lo, num(max(0, hi.val - lo.val), "I")
    if lo is ZI:
        return lo, hi
    if decide(le(lo, hi)):
        return lo, _const_dim(sub(hi, R_(lo)))
    return lo, ZI


def _const_dim(t):
    """A size that is the same integer for every input is that integer (n - (n - 1) is 1)."""
    from . import nf
    if t.op == "num":
        return t
    for k in range(5):
        F = nf.NF()
        if F.key(t) == F.key(num(k)):
            return num(k, "I")
    return t


def getitem(a, key):
    key = key if isinstance(key, tuple) else (key,)
    if any(k is Ellipsis for k in key):
        e = [k is Ellipsis for k in key].index(True)
        key = key[:e] + (slice(None),) * (a.ndim - (len([k for k in key if k is not None]) - 1)) + key[e + 1:]
    out_shape, maps = [], []      # maps: function(out idx list, position)->index term
    dim = 0
    plan = []
    for k in key:
        if k is None:
            plan.append(("new",))
            out_shape.append(1)
            continue
        if dim >= a.ndim:
            raise IndexError("too many indices for array")
        d = a.shape[dim]
        dim += 1
        if isinstance(k, slice):
            lo, n = slice_bounds(k, d)
            if lo == "rev":
                plan.append(("rev", d))
                out_shape.append(d)
            else:
                plan.append(("slice", lo))
                out_shape.append(n)
            a.viewed = True
        elif isinstance(k, (A, _np.ndarray, list)) and as_array(k).ndim >= 1:
            k = as_array(k)
            if is_bool(k):
                if k.ndim != 1:
                    return pick(a, k, key)
                if not same_dim(k.shape[0], d):
                    raise IndexError("boolean index did not match")
                if len(key) == 1 and a.ndim == 1:
                    return pick(a, k, key)
                c = count_of(k)
                plan.append(("mask", k))
                out_shape.append(c)
            else:
                if k.ndim != 1:
                    raise Unsupported("fancy index")
                plan.append(("fancy", k))
                out_shape.append(k.shape[0])
        else:
            plan.append(("int", pos_index(k, d)))
    for d in a.shape[dim:]:
        plan.append(("slice", ZI))
        out_shape.append(d)
        a.viewed = True
    f = a.fn

    def g(idx):
        src, p = [], 0
        for e in plan:
            if e[0] == "int":
                src.append(e[1])
                continue
            i = idx[p]
            p += 1
            if e[0] == "new":
                continue
            if e[0] == "slice":
                src.append(i if e[1] is ZI else add_i(i, e[1]))
            elif e[0] == "rev":
                src.append(sub(sub(dT(e[1]), ONE), i))
            elif e[0] == "mask":
                src.append(sel(e[1], i))
            else:
                src.append(e[1].fn((i,)))
        return f(tuple(src))
    if not out_shape:
        return wrap_elem(g(()))
    r = A(out_shape, g)
    r.origin = (a, plan)
    return r


class Picked(A):
    """x[mask] for a mask of x's own shape: the entries where the mask holds, in order.  Elementwise operations keep the
    array the entries come from, so that y[mask] = f(x[mask]) is y = where(mask, f(x), y)."""

    mask = full = None


def _snap(m):
    return A(m.shape, m.fn)


def pick(a, mask, key):
    if len(key) != 1 or mask.ndim != a.ndim:
        raise Unsupported("boolean index of several dimensions that is not the whole key")
    for x, y in zip(mask.shape, a.shape):
        if not same_dim(x, y):
            raise IndexError("boolean index did not match")
    m, full = _snap(mask), _snap(a)
    return picked(m, full.fn)


def picked(m, fn):
    def g(idx):
        if m.ndim != 1:
            raise Unsupported("entry of a selection from several dimensions")
        return fn((sel(m, idx[0]),))
    r = Picked((count_of(m),), g)
    r.mask, r.full = m, fn
    if m.ndim == 1:
        r.origin = (A(m.shape, fn), [("mask", m)])
    return r


def same_mask(m, k):
    return m is k or m.fn is k.fn or (len(m.shape) == len(k.shape) and m.at(*m.generic()) is k.at(*k.generic()))


def lift_picked(f, *xs):
    """Elementwise function of selections by one mask and scalars; None when that is not what xs are."""
    ps = [x for x in xs if isinstance(x, Picked)]
    if not ps or not all(same_mask(p.mask, ps[0].mask) for p in ps):
        return None
    if any(not isinstance(x, Picked) and as_array(x).ndim > 0 for x in xs):
        return None
    fs = [x.full if isinstance(x, Picked) else (lambda v: lambda idx: v)(L(x)) for x in xs]
    return picked(ps[0].mask, lambda idx: f(*[g(idx) for g in fs]))


def add_i(i, j):
    if i.op == "num" and j.op == "num":
        return num(i.val + j.val, "I")
    return add(R_(i), R_(j))


def wrap_elem(t):
    if t.sort == "Str":
        for s, x in TOKENS.items():
            if x is t:
                return s
        s = f"\u27e6{t.uid}\u27e7"
        TOKENS[s] = t
        return s
    return wrap(t)


def is_bool(a):
    try:
        return a.fn(tuple(a.generic())).sort == "B"
    except Exception:
        return False


def setitem(a, key, v):
    if a.viewed:
        raise Unsupported("assignment to an array that has been sliced")
    key = key if isinstance(key, tuple) else (key,)
    if len(key) == 1 and isinstance(key[0], A) and key[0].ndim == a.ndim and (key[0].ndim > 1 or isinstance(v, Picked)) and is_bool(key[0]):
        m, old = _snap(key[0]), a.fn
        for x, y in zip(m.shape, a.shape):
            if not same_dim(x, y):
                raise IndexError("boolean index did not match")
        if isinstance(v, Picked) and same_mask(v.mask, m):
            new = v.full
        elif as_array(v).ndim == 0:
            new = (lambda t: lambda idx: t)(as_array(v).fn(()))
        else:
            raise Unsupported("assignment of an array through a mask")
        a.fn = lambda idx: ite(m.fn(idx), new(idx), old(idx))
        return
    if any(isinstance(k, A) and k.ndim > 1 for k in key):
        raise Unsupported("index of several dimensions")
    if len(key) == 1 and isinstance(key[0], (list, _np.ndarray, A)):
        k = as_array(key[0])
        if k.ndim == 1 and isinstance(k.shape[0], int) and not is_bool(k):
            # numpy assigns the listed positions in order
            w = as_array(v)
            if w.ndim and not same_dim(w.shape[0], k.shape[0]):
                raise Unsupported("fancy assignment with a repeated value")
            for j in range(k.shape[0]):
                a[S(k.at(j))] = w[j] if w.ndim else v
            return
    conds, dims, off = [], [], 0
    free = []
    for dim, d in enumerate(a.shape):
        k = key[dim] if dim < len(key) else slice(None)
        if k is Ellipsis and dim == len(key) - 1:
            k = slice(None)
        if isinstance(k, slice):
            lo, n = slice_bounds(k, d)
            free.append((dim, lo, n))
        elif isinstance(k, A) and k.ndim == 1:
            if not is_bool(k):
                raise Unsupported("fancy assignment")
            conds.append((dim, "mask", k))
            free.append((dim, None, None))
        else:
            conds.append((dim, "int", pos_index(k, d)))
    vv = as_array(v)
    old = a.fn
    full = tuple(n for _, _, n in free)
    if any(n is None for n in full):
        if vv.ndim > 0:
            raise Unsupported("assignment of an array through a mask")
    else:
        sh = bshape(tuple(full), vv.shape) if vv.ndim else tuple(full)
        if len(sh) > len(full):
            raise ValueError("could not broadcast input array")

    def g(idx):
        c = []
        for dim, kd, k in conds:
            c.append(eq(R_(idx[dim]), R_(k)) if kd == "int" else k.fn((idx[dim],)))
        sub_idx = []
        for dim, lo, n in free:
            i = idx[dim]
            if lo is None:
                continue
            if lo is not ZI or not same_size(n, a.shape[dim]):
                c.append(and_(le(R_(lo), R_(i)), lt(i, add_i(lo, n if isinstance(n, T) else num(n, "I")))))
                sub_idx.append(sub(i, R_(lo)) if lo is not ZI else i)
            else:
                sub_idx.append(i)
        cc = and_(*c) if c else TRUE
        new = bidx(vv.fn, vv.shape, tuple(sub_idx)) if vv.ndim else vv.fn(())
        return ite(cc, new, old(idx))
    a.fn = g


def same_size(n, d):
    n = int(n.val) if isinstance(n, T) and n.op == "num" else n
    return n is d or n == d if isinstance(n, int) and isinstance(d, int) else n is d


class SymList:
    """Python list of symbolic length built by append."""

    def __init__(self, n, fn):
        self.n, self.fn = D(n), fn

    def append(self, x):
        t, n, f = L(x), dT(self.n), self.fn
        self.fn = lambda idx: ite(eq(R_(idx[0]), R_(n)), t, f(idx))
        self.n = D(add_i(n, num(1, "I")))

    def __getitem__(self, k):
        return getitem(A((self.n,), self.fn), k)

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")

    def __len__(self):
        raise Unsupported("len of symbolic list")

    def __bool__(self):
        return decide(lt(ZI, dT(self.n)))


# ------------------------------------------------------------------ numpy
def _ax(x, axis):
    return axis if axis is None or axis >= 0 else axis + x.ndim


def reduce_axis(x, axis, f):
    """f: 1-d array -> term; axis None flattens only 1-d arrays."""
    x = as_array(x)
    if axis is None:
        if x.ndim == 0:
            return f(A((1,), lambda idx: x.fn(())))
        if x.ndim > 1:
            b = x
            return f(b)
        return f(x)
    axis = _ax(x, axis)
    sh = x.shape[:axis] + x.shape[axis + 1:]
    g = x.fn
    if not sh:
        return f(x)
    return A(sh, lambda idx: L(f(A((x.shape[axis],), lambda j: g(idx[:axis] + j + idx[axis:])))))


def sum_term(x):
    if x.ndim != 1:
        out = ZERO
        bs = [tm.fresh("b", "I") for _ in x.shape]
        t = b2(x.at(*bs))
        for b, d in zip(reversed(bs), reversed(x.shape)):
            t = tm.summ(b, dname(d), t)
        return t
    d = x.shape[0]
    if isinstance(d, int):
        return add(*[R_(b2(x.at(i))) for i in range(d)]) if d else ZERO
    b = tm.fresh("b", "I")
    t = x.at(b)
    return tm.summ(b, dname(d), b2(t))


def _sum1(x):
    if is_bool(x) and x.ndim == 1 and not isinstance(x.shape[0], int):
        return wrap(count_of(x))
    return wrap(sum_term(x))


def _cum(x, axis, name):
    x = as_array(x)
    axis = _ax(x, axis) if axis is not None else (0 if x.ndim == 1 else None)
    if axis is None:
        raise Unsupported(name + " without axis")
    g = x.fn

    def f(idx):
        row = A((x.shape[axis],), lambda j: g(idx[:axis] + j + idx[axis + 1:]))
        return uf(name, [row.lam(), idx[axis]])
    return A(x.shape, f)


class _Ufunc:
    def __init__(self, name):
        self.name = name

    def __call__(self, a, b):
        return binop(self.name, a, b) if is_sym(a) or is_sym(b) else getattr(_np, self.name)(a, b)

    def accumulate(self, x, axis=0, **k):
        CONTRACTS_USED.add(f"numpy.{self.name}.accumulate(x, axis): entry k of a row is the {self.name} of its entries 0..k")
        return _cum(x, axis, "cummax" if self.name == "maximum" else "cummin")


def finite_term(t):
    if t.op == "special":
        return FALSE
    if t.op == "num":
        return TRUE
    if Ctx.cur is not None and Ctx.cur.extended or EXTENDED[0]:
        return uf("finite", [t], "B")
    return TRUE


EXTENDED = [False]


def needs_real(name):
    raise Unsupported("numpy." + name)


HOOKS = {}      # numpy attributes replaced by the contracts of the current obligation


class _NP:
    """Symbolic numpy; anything not listed is used as it is on concrete data and refused on symbolic data."""
    float64 = float32 = float_ = _np.float64
    int64 = int32 = _np.int64
    bool_ = _np.bool_
    ndarray = A
    inf = float("inf")
    nan = float("nan")
    pi = _np.pi
    newaxis = None
    maximum = _Ufunc("maximum")
    minimum = _Ufunc("minimum")

    def __getattr__(self, k):
        if k in HOOKS:
            return HOOKS[k]
        if k in ("random", "load", "save", "savez", "loadtxt", "genfromtxt", "savetxt", "fromfile"):
            raise Unsupported("numpy." + k)
        real = getattr(_np, k)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **kw):
            if is_sym(a) or is_sym(tuple(kw.values())):
                raise Unsupported("numpy." + k)
            return real(*a, **kw)
        return f

    # creation
    def zeros(self, sh, dtype=None): return self.full(sh, 0.0 if dtype is None or kind(dtype) == "float" else (0 if kind(dtype) == "int" else False))
    def ones(self, sh, dtype=None): return self.full(sh, 1.0 if dtype is None or kind(dtype) == "float" else (1 if kind(dtype) == "int" else True))
    def empty(self, sh, dtype=None):
        n = tm.fresh("uninit")
        return A(self._sh(sh), lambda idx: uf(str(n.val), list(idx)))

    def _sh(self, sh):
        return tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)

    def full(self, sh, v, dtype=None):
        t = R_(L(v))
        return A(self._sh(sh), lambda idx: t)

    def zeros_like(self, x, dtype=None): return self.zeros(as_array(x).shape)
    def ones_like(self, x, dtype=None): return self.ones(as_array(x).shape)
    def full_like(self, x, v, dtype=None): return self.full(as_array(x).shape, v)

    def arange(self, *a, dtype=None):
        if len(a) == 1:
            return A((a[0],), lambda idx: idx[0])
        lo, hi = (L(a[0]), L(a[1]))
        return A((D(sub(R_(hi), R_(lo))),), lambda idx: add_i(idx[0], lo))

    def array(self, x, dtype=None, copy=True, **k):
        if isinstance(x, (list, tuple)) and x and all(isinstance(y, (str, bytes)) and "\u27e6" not in str(y) for y in x):
            return _np.array(x, dtype=dtype)
        r = as_array(x)
        r = A(r.shape, r.fn)
        return r if dtype is None else r.astype(dtype)

    def asarray(self, x, dtype=None):
        r = as_array(x)
        return r if dtype is None else r.astype(dtype)

    def copy(self, x): return self.array(x)
    def ascontiguousarray(self, x): return as_array(x)

    def atleast_1d(self, x):
        x = as_array(x)
        return A((1,), lambda idx: x.fn(())) if x.ndim == 0 else x

    def atleast_2d(self, x):
        x = self.atleast_1d(x)
        f = x.fn
        return A((1,) + x.shape, lambda idx: f(idx[1:])) if x.ndim == 1 else x

    # elementwise
    def log10(self, x): return unary(lambda t: t if t.op == "special" else tm.log10(t), x)
    def log(self, x): return unary(tm.log, x)
    def exp(self, x): return unary(tm.exp, x)
    def sqrt(self, x): return unary(tm.sqrt, x)
    def abs(self, x): return unary(tm.tabs, x)
    absolute = fabs = abs
    def square(self, x): return binop("mul", x, x)
    def power(self, a, b): return binop("pow", a, b)
    def add(self, a, b): return binop("add", a, b)
    def subtract(self, a, b): return binop("sub", a, b)
    def multiply(self, a, b): return binop("mul", a, b)
    def divide(self, a, b): return binop("truediv", a, b)
    def logical_and(self, a, b): return binop("and", a, b)
    def logical_or(self, a, b): return binop("or", a, b)
    def logical_not(self, a): return unary(not_, a)
    def greater(self, a, b): return binop("gt", a, b)
    def less(self, a, b): return binop("lt", a, b)
    def isfinite(self, x): return unary(finite_term, x)
    def isnan(self, x): return unary(lambda t: TRUE if t.op == "special" and t.val == "nan" else (uf("isnan", [t], "B") if EXTENDED[0] and t.op != "num" else FALSE), x)

    def isinf(self, x): return unary(lambda t: (TRUE if "inf" in str(t.val) else FALSE) if t.op == "special" else (uf("isinf", [t], "B") if EXTENDED[0] and t.op != "num" else FALSE), x)

    def where(self, c, a=None, b=None):
        if a is None:
            raise Unsupported("np.where with one argument")
        if not (is_sym(c) or is_sym(a) or is_sym(b)):
            return _np.where(c, a, b)
        c, a, b = as_array(c), as_array(a), as_array(b)
        sh = bshape(bshape(c.shape, a.shape), b.shape)
        r = A(sh, lambda idx: ite(bidx(c.fn, c.shape, idx), R_(bidx(a.fn, a.shape, idx)), R_(bidx(b.fn, b.shape, idx))))
        return r if sh else wrap(r.at())

    def clip(self, x, a_min=None, a_max=None, **k):
        a_min, a_max = k.get("min", a_min), k.get("max", a_max)
        if a_min is not None and not (isinstance(a_min, float) and a_min == -float("inf")):
            x = binop("maximum", x, a_min)
        if a_max is not None and not (isinstance(a_max, float) and a_max == float("inf")):
            x = binop("minimum", x, a_max)
        return x

    # reductions
    def sum(self, x, axis=None, **k): return wrapA(reduce_axis(x, axis, _sum1))
    def count_nonzero(self, x): return wrapA(reduce_axis(x, None, _sum1))

    def mean(self, x, axis=None, **k):
        def f(r):
            n = ONE
            for d in r.shape:
                n = mul(n, R_(dT(d)))
            return div(L(sum_term(r)), n)
        return wrapA(reduce_axis(x, axis, f))

    def var(self, x, axis=None, ddof=0, **k):
        def f(r):
            n = R_(dT(r.shape[0]))
            mu = div(sum_term(r), n)
            return div(sum_term(A(r.shape, lambda idx: tm.ipow(sub(r.fn(idx), mu), 2))), sub(n, num(ddof)))
        return wrapA(reduce_axis(x, axis, f))

    def std(self, x, axis=None, ddof=0, **k):
        v = self.var(x, axis=axis, ddof=ddof)
        return unary(tm.sqrt, v)

    def all(self, x, axis=None): return wrapA(reduce_axis(x, axis, lambda r: _all(r)))
    def any(self, x, axis=None): return wrapA(reduce_axis(x, axis, lambda r: not_(_all(A(r.shape, lambda i: not_(r.fn(i)))))))

    def max(self, x, axis=None, **k): return wrapA(reduce_axis(x, axis, lambda r: uf("amax", [r.lam()])))
    amax = max
    def min(self, x, axis=None, **k): return wrapA(reduce_axis(x, axis, lambda r: uf("amin", [r.lam()])))
    amin = min

    def argmax(self, x, axis=None): return self._arg("argmax", x, axis)
    def argmin(self, x, axis=None): return self._arg("argmin", x, axis)

    def nanargmin(self, x, axis=None):
        CONTRACTS_USED.add("numpy.nanargmin(x): index of the smallest non-NaN entry (the first one among equals); ValueError when empty or all NaN")
        return self._arg("nanargmin", x, axis)

    def _arg(self, name, x, axis):
        x = as_array(x)
        if x.ndim != 1:
            raise Unsupported(name)
        if not decide(lt(ZI, dT(x.shape[0]))):
            raise ValueError(f"attempt to get {name} of an empty sequence")
        if name in ("argmax", "argmin") and not isinstance(x.shape[0], int):
            b = tm.fresh("b", "I")
            t = tm.arg_index(name, b, dname(x.shape[0]), x.at(b))
        else:
            t = uf(name, [x.lam()], "I")
        assume(le(ZI, t), lt(t, dT(x.shape[0])))
        return S(t)

    def interp(self, x, xp, fp, **k):
        if k:
            raise Unsupported("interp options")
        CONTRACTS_USED.add("numpy.interp(x, xp, fp): piecewise-linear interpolation of fp over xp")
        xp, fp = as_array(xp), as_array(fp)
        return unary(lambda t: uf("interp", [t, xp.lam(), fp.lam()]), x)


    def diff(self, x):
        x = as_array(x)
        f = x.fn
        return A((D(sub(R_(dT(x.shape[0])), ONE)),), lambda idx: sub(f((add_i(idx[0], num(1, "I")),)), f(idx)))

    def concatenate(self, xs, axis=0):
        xs = [as_array(x) for x in xs]
        if any(x.ndim != 1 for x in xs):
            raise Unsupported("concatenate")
        tot, offs = num(0, "I"), []
        for x in xs:
            offs.append(tot)
            tot = add_i(tot, dT(x.shape[0]))

        def f(idx):
            r = xs[-1].fn((sub(idx[0], R_(offs[-1])),))
            for x, o, nxt in list(zip(xs, offs, offs[1:]))[::-1]:
                r = ite(lt(idx[0], nxt), x.fn((sub(idx[0], R_(o)),)), r)
            return r
        return A((tot,), f)

    class errstate:
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False


def wrapA(r):
    return r if isinstance(r, (A, S)) or isinstance(r, _np.bool_) else wrap(L(r))


def _all(r):
    if r.ndim == 1 and isinstance(r.shape[0], int):
        return and_(*[r.at(i) for i in range(r.shape[0])]) if r.shape[0] else TRUE
    if r.ndim != 1:
        raise Unsupported("all() of a matrix")
    b = r.fn((var("_b", "I"),))
    if b.op in ("true", "false"):
        return b
    return uf("forall", [r.lam()], "B")


NP = _NP()


# ------------------------------------------------------------------ Python builtins
def p_float(x=0.0):
    if isinstance(x, str):
        if "\u27e6" in x:
            return wrap(parse(str_term(x), "float64"))
        return float(x)
    if isinstance(x, bytes):
        return p_float(x.decode())
    if isinstance(x, (S, A)):
        return wrap(b2(L(x)))
    return float(x)


def p_int(x=0, *a):
    if isinstance(x, str) and "\u27e6" in x:
        return wrap(parse(str_term(x), "int64"))
    if isinstance(x, (S, A)):
        t = L(x)
        if t.sort == "B":
            return wrap(ite(t, num(1, "I"), num(0, "I")))
        return wrap(t if t.sort == "I" else uf("trunc", [t], "I"))
    return int(x, *a)


def p_bool(x=False):
    if isinstance(x, (S, A)):
        t = L(x)
        return wrap(t if t.sort == "B" else not_(eq(t, num(0))))
    return bool(x)


def p_str(x="", *a):
    if isinstance(x, (S, A)):
        t = L(x)
        return token("str", t)
    return str(x, *a)


def p_len(x):
    if isinstance(x, A):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        d = x.shape[0]
        return d if isinstance(d, int) else S(d)
    if isinstance(x, SymList):
        return x.n if isinstance(x.n, int) else S(x.n)
    if hasattr(x, "__symlen__"):
        n = D(x.__symlen__())
        return n if isinstance(n, int) else S(n)
    if isinstance(x, str) and "\u27e6" in x:
        return S(str_len(x))
    return len(x)


def p_abs(x): return unary(tm.tabs, x) if isinstance(x, (S, A)) else abs(x)


def p_max(*a, **k):
    if is_sym(a):
        xs = a if len(a) > 1 else list(a[0])
        r = xs[0]
        for x in xs[1:]:
            r = binop("maximum", r, x)
        return r
    return max(*a, **k)


def p_min(*a, **k):
    if is_sym(a):
        xs = a if len(a) > 1 else list(a[0])
        r = xs[0]
        for x in xs[1:]:
            r = binop("minimum", r, x)
        return r
    return min(*a, **k)


class p_range:
    def __init__(self, *a):
        a = [D(x) for x in a]
        self.lo, self.hi, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        self.concrete = all(isinstance(x, int) for x in (self.lo, self.hi, self.step))

    def __iter__(self):
        if not self.concrete:
            raise Unsupported("loop over a symbolic range without a loop contract")
        return iter(range(self.lo, self.hi, self.step))

    def __len__(self):
        return len(range(self.lo, self.hi, self.step))


def p_isinstance(x, t):
    if isinstance(x, S):
        ts = t if isinstance(t, tuple) else (t,)
        return any(q in (float, int, bool) or q in (_np.floating, _np.integer, _np.number) for q in ts)
    if isinstance(t, tuple):
        t = tuple(A if q is _np.ndarray else q for q in t)
    elif t is _np.ndarray:
        t = A
    return isinstance(x, t)


class SymSet:
    """A set with symbolic members: only membership and inclusion."""

    def __init__(self, xs):
        self.xs = list(xs)

    def has(self, x):
        return or_(*[_eqt(x, y) for y in self.xs])

    def __contains__(self, x):
        return decide(self.has(x))

    def __le__(self, o):
        return S(and_(*[(o if isinstance(o, SymSet) else SymSet(o)).has(x) for x in self.xs]))
    issubset = __le__

    def __ge__(self, o):
        return (o if isinstance(o, SymSet) else SymSet(o)) <= self

    def __iter__(self):
        out = []
        for x in self.xs:
            if not any(decide(_eqt(x, y)) for y in out):
                out.append(x)
        return iter(out)

    def __len__(self):
        return len(list(iter(self)))

    def __eq__(self, o):
        return S(and_(L(self <= o), L(self >= o)))

    def union(self, *os):
        return SymSet(self.xs + [x for o in os for x in (o.xs if isinstance(o, SymSet) else o)])

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__
    __hash__ = None


def _eqt(x, y):
    if isinstance(x, (S, int, float)) and isinstance(y, (S, int, float)):
        return eq(R_(L(x)), R_(L(y)))
    return TRUE if x == y else FALSE


def p_set(x=()):
    if isinstance(x, (SymSet, set, frozenset)):
        return x
    xs = list(x)
    return SymSet(xs) if any(isinstance(v, S) for v in xs) else set(xs)


class SymIter:
    """An iterable of a symbolic number of items: item(k) is the k-th one."""

    def __init__(self, n, item, lo=0):
        self.lo, self.hi, self.item = lo, n, item

    def __iter__(self):
        raise Unsupported("loop over a symbolic number of items without a loop contract")


def sym_iter(x):
    """The SymIter of an iterable whose number of items is symbolic, None for an ordinary one."""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, p_range) and not x.concrete:
        if x.step != 1:
            raise Unsupported("range step")
        return SymIter(sub(R_(dT(x.hi)), R_(dT(x.lo))), lambda k: S(add_i(k, dT(x.lo))))
    if isinstance(x, A) and x.ndim and not isinstance(x.shape[0], int):
        def item(k):
            f = x.fn
            return wrapA(A(x.shape[1:], lambda idx: f((k,) + tuple(idx)))) if x.ndim > 1 else wrap_elem(f((k,)))
        x.viewed = x.viewed or x.ndim > 1
        return SymIter(x.shape[0], item)
    if hasattr(x, "sym_iter"):
        return x.sym_iter()
    return None


def p_enumerate(x, start=0):
    s = sym_iter(x)
    return enumerate(x, start) if s is None else SymIter(s.hi, lambda k: (wrap(add_i(k, I_(start))), s.item(k)))


def p_zip(*xs):
    ss = [sym_iter(x) for x in xs]
    if not any(s is not None for s in ss):
        return zip(*xs)
    if any(s is None for s in ss):
        raise Unsupported("zip of a symbolic and an ordinary iterable")
    for s in ss[1:]:
        if not same_dim(s.hi, ss[0].hi):
            raise Unsupported("zip of iterables of different lengths")
    return SymIter(ss[0].hi, lambda k: tuple(s.item(k) for s in ss))


BUILTINS = dict(float=p_float, int=p_int, bool=p_bool, str=p_str, len=p_len, abs=p_abs, max=p_max, min=p_min, range=p_range,
                isinstance=p_isinstance, set=p_set, enumerate=p_enumerate, zip=p_zip)


# ------------------------------------------------------------------ loops
class LoopContract:
    """state(k): dict variable -> value at the start of iteration k (0 <= k < n); next(k): the same for k+1 written from
    the definitions; facts(k): hypotheses available at iteration k; after(n): value of the variables after the loop."""

    def __init__(self, state, facts=None, nxt=None, prove=None):
        self.state, self.facts, self.nxt, self.prove = state, facts or (lambda k: []), nxt, prove


class LoopRun:
    """One syntactic loop of the function under execution."""

    def __init__(self, contract, rng, where):
        self.c, self.rng, self.where = contract, rng, where

    def begin(self, env):
        self.n = R_(dT(self.rng.hi))
        k0 = self.c.state(ZI)
        self.rename(k0, env)
        for v, x in k0.items():
            Ctx.cur.obl.append((f"{self.where}: {v} on entry", list(Ctx.cur.pc), snap(env[self.ren[v]]), x))
        c = Ctx.cur
        c.nloops = getattr(c, "nloops", 0) + 1
        self.k = var("k" if c.nloops == 1 else f"k_{c.nloops}", "I")
        # prove preservation on one path, continue after the loop on the other
        self.mode = "body" if decide(var(f"in_loop_body_{c.nloops}", "B")) else "after"

    def rename(self, k0, env):
        """The contract names the variables of the loop; a variable of that name is missing when the loop was restated,
        and then the variable of the present source that starts with the contract's value takes its place."""
        self.ren = {v: v for v in k0 if v in env}
        miss = [v for v in k0 if v not in env]
        cand = [v for v in sorted((self.assigned | self.mutated) & set(env)) if v not in k0 and v not in self.targets]
        for v in miss:
            fit = [c for c in cand if same_start(snap(env[c]), k0[v])] or (cand if len(miss) == 1 and len(cand) == 1 else [])
            if not fit:
                raise Unsupported(f"loop variable {v} not found in {self.where}")
            self.ren[v] = fit[0]
            cand.remove(fit[0])

    def names(self, st):
        return {self.ren.get(v, v): x for v, x in st.items()}

    def enter(self, env):
        """Values of the loop variables at the start of an arbitrary iteration."""
        assume(le(ZI, self.k), lt(self.k, self.n), *self.c.facts(self.k))
        return self.names(self.c.state(self.k))

    def index(self):
        return self.rng.item(self.k)

    def step(self, env):
        nx = (self.c.nxt or (lambda k: self.c.state(add_i(k, num(1, "I")))))(self.k)
        for v, x in nx.items():
            Ctx.cur.obl.append((f"{self.where}: {v} preserved", list(Ctx.cur.pc), snap(env[self.ren.get(v, v)]), x))
        if self.c.prove:
            for nm, g in self.c.prove(self.k, env):
                Ctx.cur.obl.append((f"{self.where}: {nm}", list(Ctx.cur.pc), g, None))
        raise LoopDone(self)

    def leave(self):
        """State after the last iteration."""
        if decide(lt(ZERO, self.n)):
            assume(*[f for f in self.c.after_facts(self.n)] if hasattr(self.c, "after_facts") else [])
            return self.names((getattr(self.c, "after", None) or self.c.state)(self.n))
        return self.names(self.c.state(ZI))


def same_start(a, b):
    """The value a of a variable before the loop is the contract's starting value b (decides which variable a contract
    means; the obligation that they are equal is generated all the same)."""
    if isinstance(a, A) != isinstance(b, A):
        return False
    from . import nf
    try:
        if isinstance(a, A):
            if len(a.shape) != len(b.shape):
                return False
            a, b = a.at(*a.generic()), b.at(*b.generic())
        else:
            a, b = L(a), L(b)
        if a.sort != b.sort and "B" in (a.sort, b.sort):
            return False
        F = nf.NF()
        return a is b or F.key(a) == F.key(b)
    except Exception:
        return False


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "update", "discard", "setdefault", "popitem",
            "fill", "put", "resize", "itemset", "partition", "send", "bcast", "scatter", "create_dataset", "create_group"}


def loop_names(body):
    """Variables given a value in the body, and variables whose value the body changes in place."""
    assigned, mutated = set(), set()

    def base(e):
        while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                mutated.add(base(n))
            if isinstance(n, ast.AugAssign):
                mutated.add(base(n.target))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                mutated.add(base(n.func.value))
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "out":
                        mutated.add(base(k.value))
    return assigned, mutated - {None}


def leaves_loop(body, kinds):
    """A break or continue of this very loop (not of one nested in it)."""
    for st in body:
        if isinstance(st, kinds):
            return True
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            if leaves_loop(st.orelse, kinds):
                return True
            continue
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if leaves_loop(getattr(st, f, []) or [], kinds):
                return True
        for h in getattr(st, "handlers", []) + getattr(st, "cases", []):
            if leaves_loop(h.body, kinds):
                return True
    return False


class Poison:
    """A loop-local variable read after the loop."""

    def __init__(self, n):
        self.__dict__["n"] = n

    def _bad(self, *a, **k):
        raise Unsupported(f"variable {self.n} is changed by a loop whose contract does not describe it")
    __add__ = __radd__ = __getitem__ = __setitem__ = __call__ = __bool__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __and__ = __rand__ = __or__ = __ror__ = _bad
    __neg__ = __abs__ = __invert__ = __mod__ = __floordiv__ = __index__ = __int__ = __float__ = __len__ = __contains__ = __array__ = _bad
    __getattr__ = _bad
    __hash__ = object.__hash__


class ForRewrite(ast.NodeTransformer):
    """for X in IT: BODY  ->  loop-contract form when IT is symbolic, the plain loop otherwise."""

    def __init__(self):
        self.count = 0

    def visit_FunctionDef(self, node):
        if getattr(self, "_top", None) is None:
            self._top = node
            node.decorator_list = []
            self.generic_visit(node)
            return node
        return node          # nested functions are executed as they are

    def visit_For(self, node):
        k = self.count
        self.count += 1
        self.generic_visit(node)
        if node.orelse:
            return node
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        assigned, mutated = loop_names(node.body)
        mutated &= {n.id for n in ast.walk(self._top) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in self._top.args.args + self._top.args.kwonlyargs}
        jumps = leaves_loop(node.body, (ast.Break, ast.Continue))
        it_ = f"__it{k}"
        body_mut = "\n".join([])
        src = f"""
{it_} = __vf_iter({k}, __IT__)
if __vf_is_loop({it_}):
    {it_}.assigned = {assigned!r}
    {it_}.mutated = {mutated!r}
    {it_}.targets = {targets!r}
    {it_}.begin(dict(locals()))
    if {it_}.mode == "body":
        __st{k} = {it_}.enter(dict(locals()))
        __SET__
        __TGT__ = {it_}.index()
        __BODY__
    else:
        __st{k} = {it_}.leave()
        __SET2__
else:
    __LOOP__
"""
        tree = ast.parse(src)
        sets = []
        allv = sorted({n.id for n in ast.walk(self._top) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in self._top.args.args})
        setter = [ast.parse(f"if {v!r} in __st{k}:\n    {v} = __st{k}[{v!r}]").body[0] for v in allv]
        # a variable the body changes and the contract does not describe has no known value at the start of an iteration or after the loop
        poison = lambda names: [ast.parse(f"if {v!r} not in __st{k}:\n    {v} = __vf_poison({v!r})").body[0] for v in sorted(names)]
        setter1, setter2 = setter + poison(assigned | mutated), setter + poison(assigned | mutated | targets)
        step = ast.parse(f"{it_}.step(dict(locals()))").body
        # the body runs once: continue ends it, break leaves the loop with the variables as they are
        body = [ast.For(ast.Name(f"__once{k}", ast.Store()), ast.Constant((0,)), node.body, step, lineno=node.lineno)] if jumps else node.body + step

        class Fill(ast.NodeTransformer):
            def visit_Name(s, n):
                return node.iter if n.id == "__IT__" else n

            def visit_Expr(s, n):
                if isinstance(n.value, ast.Name):
                    return {"__SET__": setter1, "__SET2__": setter2, "__BODY__": body,
                            "__LOOP__": [ast.For(node.target, ast.Name(it_, ast.Load()), copy_body(node.body), [], lineno=node.lineno)]}.get(n.value.id, n)
                s.generic_visit(n)
                return n

            def visit_Assign(s, n):
                if isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__TGT__":
                    n.targets = [node.target]
                    return n
                s.generic_visit(n)
                return n
        tree = Fill().visit(tree)
        return tree.body


def vf_dims(x):
    """x.shape / x.size as executed code sees it: symbolic dimensions compare and test like numbers."""
    if isinstance(x, tuple):
        return tuple(S(d) if isinstance(d, T) else d for d in x)
    return S(x) if isinstance(x, T) else x


class StrRewrite(ast.NodeTransformer):
    """f-strings, 'x'.join and 'x'.format give the same text, kept as text whose pieces are known."""

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("__vf_str", ast.Load()), [node], [])

    def visit_FormattedValue(self, node):
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ("shape", "size") and isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__vf_dims", ast.Load()), [ast.Attribute(node.value, node.attr, ast.Load())], [])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("join", "format") and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            f.value = ast.Call(ast.Name("__vf_str", ast.Load()), [f.value], [])
        return node


def copy_body(b):
    import copy
    return copy.deepcopy(b)


def rewrite(fn):
    fn = inspect.unwrap(fn)
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    fd = next(n for n in tree.body if isinstance(n, ast.FunctionDef))
    r = ForRewrite()
    fd = StrRewrite().visit(r.visit(fd))
    mod = ast.Module([fd], [])
    ast.fix_missing_locations(mod)
    return ast.parse(ast.unparse(mod)), fd.name, r.count


PKG = "diffmah"


def in_pkg(v):
    return str(getattr(v, "__module__", "") or "").split(".")[0] == PKG


def bind(v, over, memo, default):
    """What a global name of an executed function stands for: functions of the package are executed symbolically too
    (their real source), jitted ones through their traced program, modules of the package likewise member by member."""
    import types
    if inspect.isfunction(v) and in_pkg(v):
        return lazy(v, over, memo)
    if not inspect.isfunction(v) and callable(v) and hasattr(v, "lower") and hasattr(v, "__wrapped__") and in_pkg(v):
        return jit_call(v)
    if isinstance(v, types.ModuleType) and v.__name__.split(".")[0] == PKG:
        return ModProxy(v, over, memo)
    return default


class ModProxy:
    def __init__(self, mod, over, memo):
        self.__dict__.update(_m=mod, _o=over, _memo=memo)

    def __getattr__(self, k):
        if k in self._o:
            return self._o[k]
        v = getattr(self._m, k)
        return bind(v, self._o, self._memo, v)


def lazy(v, over, memo):
    def call(*a, **kw):
        f = memo.get(v)
        if f is None:
            f = memo[v] = sym_function(v, env=over, loops=over.get("__loops__", {}).get(v.__name__), memo=memo)
        return f(*a, **kw)
    call.__name__ = v.__name__
    return call


def sym_function(fn, env=None, loops=None, contracts=None, memo=None):
    """The real function re-bound to symbolic numerics.  env: names to replace in its globals; loops: {k: LoopContract}
    in source order; contracts: names of called functions -> callables standing for their contracts."""
    fn = inspect.unwrap(fn)
    EXECUTED.add(f"{fn.__module__}:{fn.__qualname__}")
    mod, name, nl = rewrite(fn)
    g = dict(fn.__globals__)
    for k, v in list(g.items()):
        if v is _np:
            g[k] = NP
        elif getattr(v, "__name__", None) == "jax.numpy":
            g[k] = NP
    b = dict(vars(builtins))
    b.update(BUILTINS)
    stubs = {k: v for k, v in (env or {}).items() if hasattr(v, "__stub__")}
    real_import = b["__import__"]

    def imp(name, g_=None, l_=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] in stubs:
            m = stubs[name.split(".")[0]]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        return real_import(name, g_, l_, fromlist, level)
    b["__import__"] = imp
    g["__builtins__"] = b
    over = dict(env or {})
    over.update(contracts or {})
    loops = loops or {}
    shared = memo if memo is not None else {}
    for k, v in list(g.items()):
        if k not in over:
            g[k] = bind(v, over, shared, g[k])
    g.update(over)

    def vf_iter(k, it_):
        it = sym_iter(it_)
        if it is not None:
            c = loops.get(k, loops.get("*"))
            if c is None:
                raise Unsupported(f"loop {k} of {name} has no contract")
            return LoopRun(c, it, f"{name} loop {k}")
        return it_
    g["__vf_iter"] = vf_iter
    g["__vf_is_loop"] = lambda x: isinstance(x, LoopRun)
    g["__vf_poison"] = Poison
    g["__vf_str"] = SStr
    g["__vf_dims"] = vf_dims
    loc = {}
    exec(compile(mod, f"<extracted {fn.__module__}:{fn.__qualname__}>", "exec"), g)
    f = g[name]
    if fn.__closure__:
        raise Unsupported("closure")
    return f


# ------------------------------------------------------------------ calls into jitted code
def jit_call(fn, names=None):
    """Stand-in for a jitted function: its real program, interpreted by front end A on the given symbolic values."""
    import jax
    from jax import export

    def call(*args):
        EXECUTED.add(f"{getattr(fn, '__module__', '')}:{getattr(fn, '__name__', fn)}")
        dmap, dback, specs, sym = {}, {}, [], {}

        # collect dimensions first so that they share one scope
        leaves, tree = jax.tree.flatten(args, is_leaf=lambda x: isinstance(x, (S, A, jx.SymArr)))
        arrs = [as_array(x) for x in leaves]
        ds = []
        for a in arrs:
            for d in a.shape:
                if not isinstance(d, int) and d not in ds:
                    ds.append(d)
        if ds:
            nms = [f"q{k}" for k in range(len(ds))]
            sy = export.symbolic_shape(",".join(nms), constraints=[n + ">=1" for n in nms])
            dmap = dict(zip(ds, sy))
            dback = {var("#" + n, "I"): d for n, d in zip(nms, ds)}
        sp = []
        for k, a in enumerate(arrs):
            srt = a.fn(tuple(a.generic())).sort if a.ndim else a.at().sort
            dt = {"B": bool, "I": int}.get(srt)
            sp.append(jx.spec(tuple(d if isinstance(d, int) else dmap[d] for d in a.shape), dt))
        specs = jax.tree.unflatten(tree, sp)
        return _trace_with(fn, specs, arrs, dback)
    return call


def resize(t, names):
    """Rename the symbolic sizes of sums and arrays."""
    m = {}
    for x in tm.subterms(t):
        if x.op in ("sum", "lam"):
            v = names.get(x.val, x.val) if x.op == "sum" else tuple(names.get(z, z) for z in x.val)
            y = tm._mk(x.op, [tm.subst(a, m) for a in x.args], v, x.sort)
            if y is not x:
                m[x] = y
    return tm.subst(t, m)


def _trace_with(fn, specs, arrs, dback):
    import jax
    closed, out_shape = jax.make_jaxpr(fn, return_shape=True)(*specs)
    ins = []
    for a, av in zip(arrs, jax.tree.leaves(specs)):
        f = a.fn
        ins.append(jx.SymArr(av.shape, lambda idx, f=f: f(tuple(jx.it(i) for i in idx)), av.dtype))
    outs = jx.Interp(None).run_closed(closed, ins)
    res = []
    names = {}
    for k, d in dback.items():
        names[str(k.val)[1:]] = dname(d)

    def tosize(t):
        return resize(tm.subst(t, dback), names)
    for o in outs:
        sh = [D(tm.subst(jx.dim_term(d), dback)) if jx.is_sym_dim(d) else int(d) for d in o.shape]
        if sh:
            res.append(A(sh, lambda idx, o=o: tosize(o.at(*idx))))
        else:
            t = tosize(o.at())
            for x in tm.subterms(t):
                if x.op == "uf" and x.val[1] in ("argmax", "argmin") and str(x.args[0].val[0]) in SIZES:
                    jx.LIB_CONTRACTS_USED.add("jnp.argmax(x): the first index of the largest entry, within the array")
                    assume(le(ZI, x), lt(x, SIZES[str(x.args[0].val[0])]))
            res.append(wrap(t))
    return jax.tree.unflatten(jax.tree.structure(out_shape), res)


# ------------------------------------------------------------------ obligations about values
class Obj:
    """Opaque Python object of an uninterpreted sort."""

    def __init__(self, t):
        self.t = t


def val_goals(a, b, name="value"):
    """[(name, hyps, goal)] making value a equal to value b for all indices."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (hasattr(b, "shape")):
        if len(a) != len(b):
            return [(f"{name}: length {len(a)} = {len(b)}", [], FALSE)]
        out = []
        for k, (x, y) in enumerate(zip(a, b)):
            lab = a._fields[k] if hasattr(a, "_fields") else k
            out += val_goals(x, y, f"{name}.{lab}")
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return [(f"{name}: keys {sorted(a)} = {sorted(b)}", [], FALSE)]
        return [g for k in sorted(b) for g in val_goals(a[k], b[k], f"{name}.{k}")]
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return [(name, [], TRUE if a == b else FALSE)]
        return [(name, [], TRUE if a is b else FALSE)]
    if hasattr(b, "vf_match"):
        return b.vf_match(a, name)
    if hasattr(b, "vf_fields") or hasattr(a, "vf_fields"):
        if not (hasattr(a, "vf_fields") and hasattr(b, "vf_fields")):
            return [(name, [], FALSE)]
        return val_goals(a.vf_fields(), b.vf_fields(), name)
    if isinstance(b, Obj) or isinstance(a, Obj):
        same = isinstance(a, Obj) and isinstance(b, Obj) and a.t.sort == b.t.sort
        return [(name, [], FALSE if not same else TRUE if a.t is b.t else eq(a.t, b.t))]
    x, y = (as_array(v) for v in (a, b))
    if x.ndim != y.ndim:
        return [(f"{name}: {x.ndim} dimensions = {y.ndim}", [], FALSE)]
    out = []
    for k, (d, e) in enumerate(zip(x.shape, y.shape)):
        if not (d is e or (isinstance(d, int) and isinstance(e, int) and d == e)):
            out.append((f"{name}: size of axis {k}", [], eq(R_(dT(d)), R_(dT(e)))))
    ix = [var(f"ix_{k}", "I") for k in range(x.ndim)]
    hy = [h for i, d in zip(ix, y.shape) for h in (le(ZI, i), lt(i, dT(d)))]
    p, q = x.at(*ix), y.at(*ix)
    if p.sort == "B" or q.sort == "B":
        p, q = [v if v.sort == "B" else not_(eq(v, ZERO)) for v in (p, q)]
    out.append((name, hy, eq(R_(p), R_(q)) if p is not q else TRUE))
    return out


def snap(v):
    if hasattr(v, "vf_snap"):
        return v.vf_snap()
    return A(v.shape, v.fn) if isinstance(v, A) else (A((v.n,), v.fn) if isinstance(v, SymList) else v)


def _sizes_ok(x, y, hist):
    if x.val == y.val:
        return True
    a, b = ((v.val,) if v.op == "sum" else v.val for v in (x, y))
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p == q:
            continue
        p, q = SIZES.get(str(p)), SIZES.get(str(q))
        if p is None or q is None:
            return False
        for m in hist:
            p, q = tm.subst(p, m), tm.subst(q, m)
        if p is not q:
            return False
    return True


def _binder_ok(x, y, hist):
    return x.op == y.op and len(x.args) == len(y.args) and x.sort == y.sort and _sizes_ok(x, y, hist)


def _under(t):
    """binder term -> set of function names it is an argument of"""
    out = {}
    for x in tm.subterms(t):
        for k, a in enumerate(x.args):
            if a.op in ("lam", "sum"):
                out.setdefault(a, set()).add((x.op, str(x.val), k))
    return out


def extensional(hyps, a, b, budget=40, hist=None):
    """Arrays and sums in a and b that are equal entry by entry are made identical (congruence)."""
    from . import prove as pv
    hist = [] if hist is None else hist
    for _ in range(6):
        ua, ub = _under(tm._mk("tup", (a,), (), "A")), _under(tm._mk("tup", (b,), (), "A"))
        xs = sorted((x for x in ua if x not in ub), key=tm.size)
        done = False
        for x in xs:
            for y in sorted((y for y in ub if y not in ua), key=tm.size):
                if not _binder_ok(x, y, hist) or (x.op == "lam" and not (ua[x] & ub[y])) or budget <= 0:
                    continue
                budget -= 1
                if x.op == "lam":
                    bx, by = x.args[:-1], y.args[:-1]
                else:
                    bx, by = x.args[:1], y.args[:1]
                iv = [tm.fresh("e", "I") for _ in bx]
                p, r = tm.subst(x.args[-1], dict(zip(bx, iv))), tm.subst(y.args[-1], dict(zip(by, iv)))
                if p.sort != r.sort:
                    continue
                rng = []
                for v, sz in zip(iv, x.val if x.op == "lam" else (x.val,)):
                    rng.append(le(ZI, v))
                    n = SIZES.get(str(sz))
                    if n is not None:
                        rng.append(lt(v, n))
                    elif str(sz).isdigit():
                        rng.append(lt(v, num(int(sz), "I")))
                try:
                    p, r = extensional(list(hyps) + rng, p, r, budget, list(hist))
                    ok = p is r or pv.prove(list(hyps) + rng, eq(p, r)).ok
                except NotImplementedError:
                    ok = False
                if ok:
                    m = {x: y}
                    hist.append(m)
                    a, b = tm.subst(a, m), tm.subst(b, m)
                    hyps[:] = [tm.subst(h, m) for h in hyps]
                    done = True
                    break
            if done:
                break
        if not done:
            break
    return a, b


def discharge(R, name, q, hyps, a, b):
    """Obligations making value a equal to value b (b None: a is the goal itself)."""
    gs = [(name, [], a)] if b is None else val_goals(a, b, name)
    ok = True
    for nm, hy, g in gs:
        h = list(hyps) + hy
        if g.op == "eq":
            x, y = extensional(h, *g.args)
            g = eq(x, y)
        ok &= R.prove(nm, q, h, g)
    return ok


class SubRun:
    """Collects obligations; merged into the real run only when they decide something."""

    def __init__(self, R):
        from .check import Run
        self.R = Run(R.pid, R.tier, R.seed)
        self.R.t0 = R.t0


def by_contract_or_bounded(R, q, full, bounded, bound):
    """full(R): obligations by loop contracts.  The invariants name the loop variables of the present source; when a
    restated loop makes them fail, bounded(R) runs the same postconditions with the loops unrolled at the stated sizes:
    accepted there -> undecided (no verdict), refused there -> those obligations are reported."""
    from .check import Run

    def sub():
        r = Run(R.pid, R.tier, R.seed)
        return r
    first = None
    for attempt in full if isinstance(full, (list, tuple)) else [full]:      # alternative loop contracts, the first that is discharged
        r = sub()
        err = None
        try:
            attempt(r)
        except Exception as e:
            import os
            import traceback
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            err = f"{type(e).__name__}: {e}"
        bad = [o for o in r.obl if o["status"] != "proved"]
        first = first or (r, err, bad)
        if err is None and not bad:
            break
    else:
        r, err, bad = first

    def merge(x):
        R.obl += x.obl
        R.reach += x.reach
        R.notes += x.notes
        R.undecided += x.undecided
    if err is None and not bad:
        merge(r)
        return
    why = err or "loop contract not discharged: " + "; ".join(o["name"] for o in bad[:4])
    r2 = sub()
    try:
        bounded(r2)
    except Exception as e:
        import os
        import traceback
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
        R.undecided.append((q, why + f"; bounded stand-in: {type(e).__name__}: {e}"))
        R.obl += [o for o in r.obl if o["status"] == "proved"] if err else []
        return
    bad2 = [o for o in r2.obl if o["status"] != "proved"]
    if bad2:
        merge(r2)
        if not err:
            R.obl += bad
        return
    R.undecided.append((q, why + f"; the postconditions hold with the loops unrolled ({bound})"))
    R.notes.append(f"bounded stand-in for {q} ({bound}): {len(r2.obl)} obligations accepted")


def prove_paths(R, q, paths, expect):
    """Loop obligations of every path, then expect(k, path) for the returning and raising ones."""
    seen = set()
    names = {o[0] for p in paths for o in p.ctx.obl}
    for nm in names:
        if nm.endswith(" on entry") and nm[:-len(" on entry")] + " preserved" not in names:
            raise Unsupported(f"{nm[:-len(' on entry')]}: the loop body was not reached")
    if not any(p.kind != "loop" for p in paths):
        raise Unsupported("no path reaches the end of the function")
    for p in paths:
        for nm, hy, a, b in p.ctx.obl:
            key = (nm, tuple(h.uid for h in hy))
            if key in seen:
                continue
            seen.add(key)
            discharge(R, nm, q, hy, a, b)
    k = 0
    for p in paths:
        if p.kind != "loop":
            expect(k, p)
            k += 1
    return k
