"""Hash-consed first-order terms over the reals (plus Bool, Int indices and PRNG keys).

Terms are what the front ends extract from the real code and what contracts are
written in.  Floating point is interpreted as exact real arithmetic: that is an
assumption of every "proved" obligation and is reported as such in the evidence.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "args", "val", "sort", "uid", "__weakref__")

    def __repr__(self):
        return show(self)

    # -- operator sugar (contracts are written with these) --
    def __add__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, n):
        assert isinstance(n, int)
        return ipow(self, n)
    def __lt__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else lt(self, lift(o))
    def __le__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else le(self, lift(o))
    def __gt__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else lt(lift(o), self)
    def __ge__(self, o): return NotImplemented if hasattr(o, "vf_reflect") else le(lift(o), self)
    def __bool__(self):
        # a raw term whose truth executed code asks for: decided on the current path, never silently true
        if DECIDE and self.sort in "BI":
            return DECIDE[-1](self)
        return True
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)


def _mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.uid for a in args), val, sort)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.uid = _COUNT[0]
        _COUNT[0] += 1
        _TABLE[key] = t
    return t


DECIDE = []
LN10F = math.log(10.0)


def num(q, sort="R"):
    if isinstance(q, bool):
        return TRUE if q else FALSE
    return _mk("num", (), Fraction(q), sort)


def from_float(x):
    """Literal of the program text -> exact rational / symbolic constant.

    The shortest decimal that round-trips is taken as the value the program text
    denotes (0.1 is 1/10), which is the real-arithmetic reading of the source."""
    import numpy as np

    if isinstance(x, (np.floating,)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            return _mk("special", (), str(f), "R")
        for c, t in ((LN10F, LN10), (1 / LN10F, div(ONE, LN10))):
            if abs(f - c) <= abs(c) * (2e-7 if x.dtype.itemsize == 4 else 4e-16):
                return t
        return num(Fraction(str(np.format_float_positional(x, unique=True, trim="0")))
                   if 1e-30 < abs(f) < 1e30 else Fraction(f))
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        return _mk("special", (), str(f), "R")
    for c, t in ((LN10F, LN10), (1 / LN10F, div(ONE, LN10))):
        if abs(f - c) <= abs(c) * 4e-16:
            return t
    return num(Fraction(repr(f)) if "e" not in repr(f) and "inf" not in repr(f)
               else Fraction(repr(f)))


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return num(x)
    import numpy as np
    if isinstance(x, np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, np.integer):
        return num(int(x))
    if isinstance(x, (float, np.floating)):
        return from_float(x)
    raise TypeError(f"cannot lift {type(x)}")


def var(name, sort="R"):
    return _mk("var", (), name, sort)


def elem(name, idx, sort="R"):
    """Element of an input array: a total function of its indices."""
    return _mk("uf", tuple(lift(i) for i in idx), ("elem", name), sort)


def uf(name, args, sort="R"):
    return _mk("uf", tuple(lift(a) for a in args), ("uf", name), sort)


def is_num(t):
    return t.op == "num"


def add(*ts):
    if any(t.op == "mul" and any(a is MINUS1 for a in t.args) for t in ts):
        # x + (-1)*x cancels (also where x is itself a sum, which is not distributed)
        ts = list(ts)
        for t in list(ts):
            if t.op != "num" and t in ts:
                n = neg(t)
                if n in ts:
                    ts.remove(t)
                    ts.remove(n)
    c = Fraction(0)
    out = []
    for t in ts:
        if t.op == "num":
            c += t.val
        elif t.op == "add":
            for a in t.args:
                if a.op == "num":
                    c += a.val
                else:
                    out.append(a)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("add", out)


def mul(*ts):
    c = Fraction(1)
    out = []
    for t in ts:
        if t.op == "num":
            c *= t.val
        elif t.op == "mul":
            for a in t.args:
                if a.op == "num":
                    c *= a.val
                else:
                    out.append(a)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1:
        out.append(num(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return _mk("mul", out)


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == "num" and b.val != 0:
        return mul(num(1 / b.val), a)
    if a.op == "num" and a.val == 0 and False:
        return ZERO
    # 1/(1+exp(u)) is the logistic function of -u
    if b.op == "add" and len(b.args) == 2:
        one = [x for x in b.args if x is ONE]
        ex = [x for x in b.args if x.op == "exp"]
        if one and ex:
            return mul(a, sig(neg(ex[0].args[0])))
    return _mk("div", (a, b))


def ipow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, ipow(a, -n))
    return mul(*([a] * n))


def exp(a):
    if a.op == "num" and a.val == 0:
        return ONE
    if a.op == "log":
        return a.args[0]          # side condition argument > 0 is a definedness obligation
    return _mk("exp", (a,))


def log(a):
    if a.op == "num" and a.val == 1:
        return ZERO
    if a.op == "num" and a.val == 10:
        return LN10
    if a.op == "exp":
        return a.args[0]
    return _mk("log", (a,))


def pow10(a):
    return exp(mul(LN10, a))


def log10(a):
    return div(log(a), LN10)


def sig(a):
    if a.op == "num" and a.val == 0:
        return HALF
    return _mk("sig", (a,))


def sqrt(a):
    if a.op == "num" and a.val in (0, 1):
        return a
    return _mk("sqrt", (a,))


def fn1(name, a):
    return _mk("fn", (a,), name)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq" and ((a is c.args[0] and b is c.args[1]) or (a is c.args[1] and b is c.args[0])):
        return b
    return _mk("ite", (c, a, b), None, a.sort)


def lt(a, b):
    if a.op == "num" and b.op == "num":
        return TRUE if a.val < b.val else FALSE
    if a is b:
        return FALSE
    if a.op == "special" or b.op == "special":
        s = _special_cmp(a, b)
        if s is not None:
            return TRUE if s < 0 else FALSE
    return _mk("lt", (a, b), None, "B")


def le(a, b):
    if a.op == "num" and b.op == "num":
        return TRUE if a.val <= b.val else FALSE
    if a is b:
        return TRUE
    if a.op == "special" or b.op == "special":
        s = _special_cmp(a, b)
        if s is not None:
            return TRUE if s <= 0 else FALSE
    return _mk("le", (a, b), None, "B")


def _special_cmp(a, b):
    """-1/0/1 for comparisons with an infinity (finite operands otherwise)."""
    va = a.val if a.op == "special" else "0"
    vb = b.val if b.op == "special" else "0"
    if "nan" in (va, vb):
        return None
    o = {"-inf": -1, "0": 0, "inf": 1}
    return (o[va] > o[vb]) - (o[va] < o[vb])


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == "num" and b.op == "num":
        return TRUE if a.val == b.val else FALSE
    if a.op == "special" or b.op == "special":
        return FALSE if a.op != b.op or a.val != b.val else TRUE
    if a.uid > b.uid:
        a, b = b, a
    return _mk("eq", (a, b), None, "B")


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), None, "B")


def and_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.uid)
    for t in out:
        if t.op == "not" and t.args[0] in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", out, None, "B")


def or_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.uid)
    for t in out:
        if t.op == "not" and t.args[0] in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", out, None, "B")


def arg_index(name, b, dim, body):
    """argmax/argmin over one axis; for an indicator, the first index where its condition holds (as argmax of the condition)."""
    if body.op == "ite" and body.args[1].op == "num" and body.args[2].op == "num" and body.args[1].val != body.args[2].val:
        c, hi, lo = body.args
        body = c if (hi.val > lo.val) == (name == "argmax") else not_(c)
        name = "argmax"
    elif body.sort == "B" and name == "argmin":
        name, body = "argmax", not_(body)
    return uf(name, [lam([b], [dim], body)], "I")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(a, b), b, a)


def tabs(a):
    return ite(lt(a, ZERO), neg(a), a)


SIZES = {}      # name of a symbolic size -> its term


def is_int(t):
    """Integer-valued by construction."""
    if t.op == "num":
        return t.val.denominator == 1
    if t.op in ("add", "mul"):
        return all(map(is_int, t.args))
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    return t.sort == "I"


def _delta(bv, size, body):
    """sum over b in [0,size) of ite(b == c, f, 0) * g  =  ite(0 <= c < size, (f*g)[b := c], 0)."""
    fs = body.args if body.op == "mul" else (body,)
    for k, f in enumerate(fs):
        if f.op == "ite" and f.args[2] is ZERO and f.args[0].op == "eq":
            a, b = f.args[0].args
            if b is bv:
                a, b = b, a
            if a is bv and is_int(b) and bv not in subterms(b):
                rest = mul(*[x if i != k else f.args[1] for i, x in enumerate(fs)])
                if isinstance(size, int):
                    n = num(size, "I")
                else:
                    from .jx import dim_term
                    n = size if isinstance(size, T) else SIZES.get(str(size)) or dim_term(size)
                return ite(and_(le(num(0, "I"), b), lt(b, n)), subst(rest, {bv: b}), ZERO)
    return None


def summ(bv, size, body):
    """Sum over an index bv in [0,size).  bv is a fresh I-sorted var."""
    if body is ZERO:
        return ZERO
    d = _delta(bv, size, body)
    if d is not None:
        return d
    canon = var(f"$s{depth(body)}", "I")
    body = subst(body, {bv: canon}) if bv is not canon else body
    return _mk("sum", (canon, body), str(size), "R")


_DEPTH = {}


def depth(t):
    """Nesting depth of sum/lambda binders in t (used for canonical bound names)."""
    d = _DEPTH.get(t.uid)
    if d is None:
        d = 0
        for a in t.args:
            d = max(d, depth(a))
        if t.op in ("sum", "lam"):
            d += 1
        _DEPTH[t.uid] = d
    return d


def lam(bvs, sizes, body):
    """An array as a value: lambda over index variables."""
    dd = depth(body)
    m = {b: var(f"$l{dd}_{k}", "I") for k, b in enumerate(bvs)}
    body = subst(body, m)
    return _mk("lam", (*m.values(), body), tuple(str(s) for s in sizes), "A")


ZERO = num(0)
ONE = num(1)
MINUS1 = num(-1)
HALF = num(Fraction(1, 2))
TRUE = _mk("true", (), None, "B")
FALSE = _mk("false", (), None, "B")
LN10 = _mk("ln10", (), None, "R")

_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


REBUILD = {
    "add": add, "mul": mul, "div": div, "exp": exp, "log": log, "sig": sig, "sqrt": sqrt,
    "ite": ite, "lt": lt, "le": le, "eq": eq, "not": not_, "and": and_, "or": or_,
}


_FREE = {}


def free_all(t):
    """Free variables, bound-variable names that are free in t included."""
    r = _FREE.get(t.uid)
    if r is None:
        r = frozenset([t]) if t.op == "var" else frozenset().union(*map(free_all, t.args)) if t.args else frozenset()
        if t.op in ("sum", "lam"):
            r = r - set(t.args[:-1])
        _FREE[t.uid] = r
    return r


def binder(t, args):
    """Sum or lambda over the given bound variables and body, bound variables renamed to their canonical names."""
    body, dd = args[-1], depth(args[-1])
    if t.op == "sum":
        names = [var(f"$s{dd}", "I")]
    else:
        names = [var(f"$l{dd}_{k}", "I") for k in range(len(args) - 1)]
    m = {o: n for o, n in zip(args[:-1], names) if o is not n}
    if m:
        fv = free_all(body)
        if not any(n in fv for n in m.values()):
            body = subst(body, m)
            args = (*names, body)
    return _mk(t.op, tuple(args), t.val, t.sort)


def rebuild(t, args):
    if t.op in ("sum", "lam"):
        return binder(t, args)
    f = REBUILD.get(t.op)
    if f is not None:
        return f(*args)
    return _mk(t.op, args, t.val, t.sort)


def subst(t, m, cache=None):
    """Simultaneous substitution of terms (keys are terms)."""
    if cache is None:
        cache = {}
    t0 = t
    r = cache.get(t.uid)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args:
        r = t
    else:
        if t.op in ("sum", "lam"):
            # a bound variable that is free in a replacement is renamed first
            own = t.args[:-1]
            fv = cache.get("fv")
            if fv is None:
                # (a rewriting whose left side mentions the bound variable itself is meant to act under the binder)
                fv = cache["fv"] = frozenset().union(m, *[free_all(v) - free_all(k) for k, v in m.items()])
            if any(b in fv for b in own):
                new = {b: fresh("b", "I") for b in own}
                t = _mk(t.op, (*new.values(), subst(t.args[-1], new)), t.val, t.sort)
        args = [subst(a, m, cache) for a in t.args]
        if all(a is b for a, b in zip(args, t.args)):
            r = t0
        else:
            r = rebuild(t, args)
    cache[t0.uid] = r
    return r


T.__hash__ = lambda self: self.uid
T.__eq__ = lambda self, o: self is o
T.__ne__ = lambda self, o: self is not o


def subterms(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.uid in seen:
            continue
        seen.add(x.uid)
        stack.append((x, True))
        for a in x.args:
            if a.uid not in seen:
                stack.append((a, False))
    return out


def free_vars(t):
    return [x for x in subterms(t) if x.op in ("var",) and not str(x.val).startswith("$")]


def size(t):
    return len(subterms(t))


def diff(t, x, cache=None):
    """Symbolic derivative with respect to the variable term x (rules proved in Lean: Lemmas.lean)."""
    if cache is None:
        cache = {}
    r = cache.get(t.uid)
    if r is not None:
        return r
    if t is x:
        r = ONE
    elif t.op in ("num", "var", "ln10", "special"):
        r = ZERO
    elif t.op == "add":
        r = add(*[diff(a, x, cache) for a in t.args])
    elif t.op == "mul":
        parts = []
        for i, a in enumerate(t.args):
            d = diff(a, x, cache)
            if d is not ZERO:
                parts.append(mul(d, *[b for j, b in enumerate(t.args) if j != i]))
        r = add(*parts) if parts else ZERO
    elif t.op == "div":
        a, b = t.args
        da, db = diff(a, x, cache), diff(b, x, cache)
        if db is ZERO:
            r = ZERO if da is ZERO else div(da, b)
        else:
            r = div(sub(mul(da, b), mul(a, db)), mul(b, b))
    elif t.op == "exp":
        r = mul(t, diff(t.args[0], x, cache))
    elif t.op == "log":
        d = diff(t.args[0], x, cache)
        r = ZERO if d is ZERO else div(d, t.args[0])
    elif t.op == "sig":
        r = mul(t, sub(ONE, t), diff(t.args[0], x, cache))
    elif t.op == "sqrt":
        d = diff(t.args[0], x, cache)
        r = ZERO if d is ZERO else div(d, mul(num(2), t))
    elif t.op == "ite":
        r = ite(t.args[0], diff(t.args[1], x, cache), diff(t.args[2], x, cache))
    elif t.op == "sum":
        r = ZERO if x not in subterms(t.args[1]) else \
            _mk("sum", (t.args[0], diff(t.args[1], x, cache)), t.val, "R")
    elif t.op in ("uf", "fn"):
        if x in subterms(t):
            raise NotImplementedError("derivative of uninterpreted function")
        r = ZERO
    else:
        raise NotImplementedError(t.op)
    cache[t.uid] = r
    return r


def show(t, depth_=0):
    if depth_ > 14:
        return "..."
    o = t.op
    s = lambda a: show(a, depth_ + 1)
    if o == "num":
        return str(t.val)
    if o in ("var", "special"):
        return str(t.val)
    if o == "ln10":
        return "ln10"
    if o in ("true", "false"):
        return o
    if o == "uf":
        return f"{t.val[1]}({', '.join(map(s, t.args))})"
    if o == "add":
        return "(" + " + ".join(map(s, t.args)) + ")"
    if o == "mul":
        return "(" + "*".join(map(s, t.args)) + ")"
    if o == "div":
        return f"({s(t.args[0])} / {s(t.args[1])})"
    if o in ("lt", "le", "eq"):
        return f"({s(t.args[0])} {dict(lt='<', le='<=', eq='==')[o]} {s(t.args[1])})"
    if o == "sum":
        return f"SUM[{t.args[0]}<{t.val}]({s(t.args[1])})"
    if o == "lam":
        return f"LAM{t.val}({s(t.args[-1])})"
    if o == "fn":
        return f"{t.val}({s(t.args[0])})"
    return f"{o}({', '.join(map(s, t.args))})"


class EvalError(Exception):
    pass


def evaluate(t, env, sizes=None, cache=None):
    """Numeric evaluation (float64 / bool).  env: Term -> number or (name)->callable(*idx)."""
    import numpy as np
    sizes = sizes or {}

    memo = {} if cache is None else cache

    def ev(x, local):
        key = x.uid if not local else None
        if key is not None and key in memo:
            return memo[key]
        o = x.op
        if x in local:
            return local[x]
        if o == "num":
            r = float(x.val) if x.val.denominator != 1 or x.sort == "R" else int(x.val)
        elif o == "var":
            if x in env:
                r = env[x]
            elif x.val in env:
                r = env[x.val]
            else:
                raise EvalError(f"unbound {x.val}")
        elif o == "special":
            r = float(x.val)
        elif o == "ln10":
            r = LN10F
        elif o == "true":
            r = True
        elif o == "false":
            r = False
        elif o == "add":
            r = sum(ev(a, local) for a in x.args)
        elif o == "mul":
            r = 1.0
            for a in x.args:
                r = r * ev(a, local)
        elif o == "div":
            with np.errstate(all="ignore"):
                r = float(np.float64(ev(x.args[0], local)) / np.float64(ev(x.args[1], local)))
        elif o == "exp":
            with np.errstate(all="ignore"):
                r = float(np.exp(np.float64(ev(x.args[0], local))))
        elif o == "log":
            with np.errstate(all="ignore"):
                r = float(np.log(np.float64(ev(x.args[0], local))))
        elif o == "sig":
            a = ev(x.args[0], local)
            r = 1 / (1 + math.exp(-a)) if a >= 0 else math.exp(a) / (1 + math.exp(a))
        elif o == "sqrt":
            with np.errstate(all="ignore"):
                r = float(np.sqrt(np.float64(ev(x.args[0], local))))
        elif o == "ite":
            r = ev(x.args[1], local) if ev(x.args[0], local) else ev(x.args[2], local)
        elif o == "lt":
            r = ev(x.args[0], local) < ev(x.args[1], local)
        elif o == "le":
            r = ev(x.args[0], local) <= ev(x.args[1], local)
        elif o == "eq":
            r = ev(x.args[0], local) == ev(x.args[1], local)
        elif o == "not":
            r = not ev(x.args[0], local)
        elif o == "and":
            r = all(ev(a, local) for a in x.args)
        elif o == "or":
            r = any(ev(a, local) for a in x.args)
        elif o == "uf":
            f = env.get(x.val[1])
            if f is None:
                raise EvalError(f"unbound function {x.val[1]}")
            r = f(*[ev(a, local) for a in x.args])
        elif o == "sum":
            n = sizes.get(x.val)
            if n is None:
                n = int(x.val)
            r = 0.0
            for i in range(n):
                l2 = dict(local)
                l2[x.args[0]] = i
                r += ev(x.args[1], l2)
        elif o == "fn":
            import scipy.special as sp
            a = ev(x.args[0], local)
            r = {"erf": sp.erf, "erfc": sp.erfc, "erf_inv": sp.erfinv, "floor": np.floor,
                 "log_ndtr": sp.log_ndtr, "ndtr": sp.ndtr}[x.val](a)
        else:
            raise EvalError(o)
        if key is not None:
            memo[key] = r
        return r

    import sys
    old = sys.getrecursionlimit()
    if old < 20000:
        sys.setrecursionlimit(20000)
    return ev(t, {})
