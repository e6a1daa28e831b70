"""Exact normaliser for terms: rational functions over opaque atoms.

Back end "ring": decides equalities that follow from field arithmetic together with
exp(a)exp(-a)=1, exp(log a)=a (a>0), log(exp a)=a, sig(a)=exp(a)/(1+exp(a)),
sqrt(a)^2=a (a>=0) and linearity of finite sums.  All arithmetic is exact (Fraction).
Side conditions (denominators nonzero, log arguments positive) are separate
definedness obligations, see prove.definedness.
"""
from fractions import Fraction
import random
from . import terms as tm

P = (1 << 61) - 1
MAXTERMS = 6000


class TooBig(Exception):
    pass


class Rat:
    __slots__ = ("n", "d", "_fp", "_id")

    def __init__(self, n, d):
        self.n, self.d, self._fp, self._id = n, d, None, None


ZEROP = {}
ONEP = {(): Fraction(1)}


def p_add(a, b, s=1):
    if len(b) > len(a) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul(a, b):
    if len(a) * len(b) > 400000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def p_pow(a, n):
    r = ONEP
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_scale(a, c, m=()):
    return {m_mul(k, m): v * c for k, v in a.items()}


def m_inv(m):
    return tuple((a, -e) for a, e in m)


def p_content(p):
    """Monomial content (min exponents) of a Laurent polynomial."""
    it = iter(p)
    first = dict(next(it))
    mins = dict(first)
    for m in it:
        d = dict(m)
        for a in list(mins):
            mins[a] = min(mins[a], d.get(a, 0))
        for a, e in d.items():
            if a not in mins:
                mins[a] = min(0, e)
    return tuple(sorted((a, e) for a, e in mins.items() if e))


def p_key(p):
    return tuple(sorted(p.items()))


def order_key(m, atoms):
    d = dict(m)
    return tuple(d.get(a, 0) for a in atoms)


def p_divexact(a, b):
    """Exact division of Laurent polynomial a by b (b has zero content); None if inexact."""
    if not a:
        return a
    ca = p_content(a)
    a = p_scale(a, 1, m_inv(ca))
    atoms = sorted({x for m in a for x, _ in m} | {x for m in b for x, _ in m})
    if {x for m in b for x, _ in m} - {x for m in a for x, _ in m}:
        return None
    kb = max(b, key=lambda m: order_key(m, atoms))
    cb = b[kb]
    ikb = m_inv(kb)
    q = {}
    r = dict(a)
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        kr = max(r, key=lambda m: order_key(m, atoms))
        m = m_mul(kr, ikb)
        if any(e < 0 for _, e in m):
            return None
        c = r[kr] / cb
        q[m] = q.get(m, 0) + c
        r = p_add(r, p_scale(b, c, m), -1)
    return p_scale(q, 1, ca)


class NF:
    def __init__(self, split_exp=False):
        self.split_exp = split_exp
        self.atoms = []          # uid -> (kind, payload, fpvalue, frozenset(bound vars))
        self.index = {}
        self.cache = {}
        self.ratids = {}
        self.rats = []
        self.rng = random.Random(20240917)
        self.side = []           # recorded side conditions (terms assumed positive)

    # ---- atoms -------------------------------------------------------
    def atom(self, kind, payload, bvs=frozenset()):
        k = (kind, payload)
        i = self.index.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append((kind, payload, self.rng.randrange(1, P), bvs))
            self.index[k] = i
        return i

    def mono_bvs(self, m):
        s = frozenset()
        for a, _ in m:
            s |= self.atoms[a][3]
        return s

    # ---- rationals ---------------------------------------------------
    def const(self, q):
        return Rat({(): Fraction(q)} if q else {}, {})

    def of_atom(self, i):
        return Rat({((i, 1),): Fraction(1)}, {})

    def fp(self, r):
        if r._fp is None:
            v = self._pfp(r.n)
            for k, (p, e) in r.d.items():
                v = v * pow(pow(self._pfp(p), e, P), P - 2, P) % P
            r._fp = v
        return r._fp

    def _pfp(self, p):
        s = 0
        for m, c in p.items():
            v = c.numerator % P * pow(c.denominator, P - 2, P) % P
            for a, e in m:
                x = self.atoms[a][2]
                v = v * (pow(x, e, P) if e >= 0 else pow(pow(x, -e, P), P - 2, P)) % P
            s = (s + v) % P
        return s

    def expand_den(self, d):
        r = ONEP
        for p, e in d.values():
            r = p_mul(r, p_pow(p, e))
        return r

    def rat_eq(self, a, b):
        if self.fp(a) != self.fp(b):
            return False
        # exact check by cross multiplication with common factors removed
        da, db = {}, {}
        for k, (p, e) in a.d.items():
            o = b.d.get(k, (p, 0))[1]
            if e > o:
                da[k] = (p, e - o)
        for k, (p, e) in b.d.items():
            o = a.d.get(k, (p, 0))[1]
            if e > o:
                db[k] = (p, e - o)
        l = p_mul(a.n, self.expand_den(db))
        r = p_mul(b.n, self.expand_den(da))
        return l == r

    def rid(self, r):
        if r._id is None:
            f = self.fp(r)
            lst = self.ratids.setdefault(f, [])
            for i in lst:
                if self.rat_eq(self.rats[i], r):
                    r._id = i
                    return i
            r._id = len(self.rats)
            self.rats.append(r)
            lst.append(r._id)
        return r._id

    def may_divide(self, p, n):
        """False when p does not divide n: divisibility of the images with every atom but one replaced by its random value."""
        x = next(a for m in p for a, _ in m) if any(p) else None
        if x is None:
            return True

        def image(q):
            c = {}
            for m, v in q.items():
                w = v.numerator % P * pow(v.denominator % P, P - 2, P) % P
                k = 0
                for a, e in m:
                    if a == x:
                        k = e
                    else:
                        f = self.atoms[a][2]
                        w = w * (pow(f, e, P) if e >= 0 else pow(pow(f, -e, P), P - 2, P)) % P
                c[k] = (c.get(k, 0) + w) % P
            lo = min(c)
            out = [0] * (max(c) - lo + 1)
            for k, w in c.items():
                out[k - lo] = w
            while out and out[-1] == 0:
                out.pop()
            z = 0
            while z < len(out) and out[z] == 0:
                z += 1
            return out[z:]
        a, b = image(n), image(p)
        if not a or not b:
            return True
        if len(b) > len(a):
            return False
        inv = pow(b[-1], P - 2, P)
        for i in range(len(a) - len(b), -1, -1):
            q = a[i + len(b) - 1] * inv % P
            if q:
                for j, y in enumerate(b):
                    a[i + j] = (a[i + j] - q * y) % P
        return not any(a[:len(b) - 1])

    def cancel(self, n, d):
        if not n:
            return Rat({}, {})
        d2 = dict(d)
        if len(n) > 1:
            for k in list(d2):
                p, e = d2[k]
                while e > 0:
                    q = p_divexact(n, p) if len(n) * len(p) < 60 or self.may_divide(p, n) else None
                    if q is None:
                        break
                    n = q
                    e -= 1
                if e:
                    d2[k] = (p, e)
                else:
                    del d2[k]
        return Rat(n, d2)

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        if a.d == b.d:
            return self.cancel(p_add(a.n, b.n), a.d)
        den = dict(a.d)
        na, nb = a.n, b.n
        for k, (p, e) in b.d.items():
            o = den.get(k, (p, 0))[1]
            if e > o:
                na = p_mul(na, p_pow(p, e - o))
                den[k] = (p, e)
        for k, (p, e) in den.items():
            o = b.d.get(k, (p, 0))[1]
            if e > o:
                nb = p_mul(nb, p_pow(p, e - o))
        return self.cancel(p_add(na, nb), den)

    def mul(self, a, b):
        if not a.n or not b.n:
            return Rat({}, {})
        den = dict(a.d)
        for k, (p, e) in b.d.items():
            den[k] = (p, e + den.get(k, (p, 0))[1])
        # cancel across before expanding
        an, bn = a.n, b.n
        r = self.cancel(an, den)
        an, den = r.n, r.d
        r = self.cancel(bn, den)
        bn, den = r.n, r.d
        return self.cancel(p_mul(an, bn), den)

    def inv(self, a):
        if not a.n:
            raise ZeroDivisionError("division by a term equal to zero")
        n = ONEP
        for p, e in a.d.values():
            n = p_mul(n, p_pow(p, e))
        if len(a.n) == 1:
            (m, c), = a.n.items()
            return Rat(p_scale(n, 1 / c, m_inv(m)), {})
        cont = p_content(a.n)
        p = p_scale(a.n, 1, m_inv(cont))
        lead = p[max(p)]
        p = {m: c / lead for m, c in p.items()}
        k = p_key(p)
        return self.cancel(p_scale(n, 1 / lead, m_inv(cont)), {k: (p, 1)})

    def neg(self, a):
        return Rat({m: -c for m, c in a.n.items()}, a.d)

    # ---- functions ---------------------------------------------------
    def rat_bvs(self, r):
        s = frozenset()
        for m in r.n:
            s |= self.mono_bvs(m)
        for p, _ in r.d.values():
            for m in p:
                s |= self.mono_bvs(m)
        return s

    def f_exp(self, r):
        if not r.n:
            return self.const(1)
        out = self.const(1)
        if not r.d:
            rest = {}
            for m, c in r.n.items():
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "log" and c.denominator == 1:
                    base = self.rats[self.atoms[m[0][0]][1]]
                    b = base if c > 0 else self.inv(base)
                    for _ in range(abs(int(c))):
                        out = self.mul(out, b)
                else:
                    rest[m] = c
            if self.split_exp:
                for m, c in rest.items():
                    i = self.rid(Rat({m: Fraction(1, c.denominator)}, {}))
                    a = self.atom("exp", i, self.mono_bvs(m))
                    out = self.mul(out, Rat({((a, int(c.numerator)),): Fraction(1)}, {}))
                return out
            r = Rat(rest, {})
            if not rest:
                return out
        i = self.rid(r)
        j = self.rid(self.neg(r))
        e = 1
        if j < i:
            i, e = j, -1
        a = self.atom("exp", i, self.rat_bvs(r))
        return self.mul(out, Rat({((a, e),): Fraction(1)}, {}))

    def f_log(self, r):
        if len(r.n) == 1 and not r.d:
            (m, c), = r.n.items()
            kinds = [self.atoms[a][0] for a, _ in m]
            if all(k == "exp" for k in kinds) and c > 0 and m:
                out = self.const(0)
                for a, e in m:
                    out = self.add(out, self.mul(self.const(e), self.rats[self.atoms[a][1]]))
                if c != 1:
                    out = self.add(out, self.f_log(self.const(c)))
                return out
            if not m and c == 1:
                return self.const(0)
            if not m and c == 10:
                return self.of_atom(self.atom("ln10", ()))
            if not m and c == Fraction(1, 10):
                return self.neg(self.of_atom(self.atom("ln10", ())))
        if self.pos_poly(r.n) and all(self.pos_poly(p) for p, _ in r.d.values()) and (r.d or len(r.n) > 1 or r.n != {(): 1}):
            # logarithm of a quotient of sums of positive terms: log a - log b, with constants and exponential factors taken out
            out = self.log_poly(r.n)
            for p, e in r.d.values():
                out = self.add(out, self.mul(self.const(-e), self.log_poly(p)))
            return out
        return self.log_atom(r)

    def pos_poly(self, p):
        return bool(p) and all(c > 0 and all(self.atoms[a][0] == "exp" for a, _ in m) for m, c in p.items())

    def log_poly(self, p):
        """Logarithm of a Laurent polynomial with positive coefficients in exponentials."""
        m = p_content(p)
        out = self.const(0)
        for a, e in m:
            out = self.add(out, self.mul(self.const(e), self.rats[self.atoms[a][1]]))
        p = p_scale(p, Fraction(1), m_inv(m))
        c = p[min(p)]
        out = self.add(out, self.log_const(c))
        if len(p) == 1:
            return out
        return self.add(out, self.log_atom(Rat({k: v / c for k, v in p.items()}, {})))

    def log_const(self, c):
        """log of a positive rational: small prime factors taken out (log 10 is a symbol, log 5 = log 10 - log 2)."""
        es = {}
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            q = 2
            while q <= 97 and n > 1:
                while n % q == 0:
                    es[q] = es.get(q, 0) + sgn
                    n //= q
                q += 1
            if n > 1:
                es[n] = es.get(n, 0) + sgn
        e5 = es.pop(5, 0)
        es[2] = es.get(2, 0) - e5
        out = self.mul(self.const(e5), self.of_atom(self.atom("ln10", ())))
        for n, e in sorted(es.items()):
            if e:
                out = self.add(out, self.mul(self.const(e), self.log_atom(self.const(Fraction(n)))))
        return out

    def log_atom(self, r):
        # log(1/r) = -log(r): canonical orientation
        i = self.rid(r)
        try:
            j = self.rid(self.inv(r))
        except ZeroDivisionError:
            j = i
        s = 1
        if j < i:
            i, s = j, -1
        a = self.atom("log", i, self.rat_bvs(r))
        out = self.of_atom(a)
        return out if s == 1 else self.neg(out)

    def f_sqrt(self, r):
        if not r.d and len(r.n) == 1:
            (m, c), = r.n.items()
            if not m:
                import math
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return self.const(Fraction(a, b))
        a = self.atom("sqrt", self.rid(r), self.rat_bvs(r))
        return self.of_atom(a)

    # ---- terms -------------------------------------------------------
    def key(self, t):
        """Canonical key of a term of any sort."""
        if t.sort in ("R", "I"):
            return ("r", self.rid(self.rat(t)))
        if t.sort == "B":
            pos, k = self.bkey(t)
            return k if pos else ("not", k)
        return (t.op, t.val, tuple(self.key(a) for a in t.args))

    def bkey(self, t):
        """(polarity, key) of a condition: a <= b is not b < a, a disjunction is a negated conjunction, and conjuncts are
        a set, so that a mask and its complement negated coincide."""
        if t.op == "not":
            p, k = self.bkey(t.args[0])
            return not p, k
        if t.op in ("true", "false"):
            return t.op == "true", ("true",)
        if t.op in ("lt", "le"):
            a, b = t.args if t.op == "lt" else t.args[::-1]
            d = self.add(self.rat(b), self.neg(self.rat(a)))
            return t.op == "lt", ("lt", self.rid(self._norm_sign(d)[0]))
        if t.op in ("and", "or"):
            ks = []
            for a in t.args:
                p, k = self.bkey(a)
                p = p if t.op == "and" else not p
                ks.append(k if p else ("not", k))
            ks = sorted(set(ks), key=repr)
            if len(ks) == 1:
                k = ks[0]
                p = k[0] != "not"
                k = k if p else k[1]
                return (p if t.op == "and" else not p), k
            return t.op == "and", ("and", tuple(ks))
        return True, self.bkey_atom(t)

    def bkey_atom(self, t):
        if t.op == "eq":
            if t.args[0].sort in ("R", "I"):
                d = self.add(self.rat(t.args[1]), self.neg(self.rat(t.args[0])))
                n, s = self._norm_sign(d)
                i, j = self.rid(n), self.rid(self.neg(n))
                return ("eq", min(i, j))
        return (t.op, t.val, tuple(self.key(a) for a in t.args))

    def _norm_sign(self, d):
        """Scale by a positive rational so that comparison atoms with the same meaning coincide."""
        if not d.n or d.d:
            return d, 1
        c = abs(d.n[max(d.n)])
        return Rat({m: v / c for m, v in d.n.items()}, d.d), 1

    def rat(self, t):
        r = self.cache.get(t.uid)
        if r is not None:
            return r
        # iterative over deep terms
        for s in tm.subterms(t):
            if s.uid not in self.cache and s.sort in ("R", "I"):
                self.cache[s.uid] = self._rat(s)
        return self.cache[t.uid]

    def _rat(self, t):
        o = t.op
        C = lambda a: self.rat(a)
        if o == "num":
            return self.const(t.val)
        if o == "var":
            return self.of_atom(self.atom("var", t.uid, frozenset([t.uid]) if str(t.val).startswith("$") else frozenset()))
        if o == "ln10":
            return self.of_atom(self.atom("ln10", ()))
        if o == "add":
            r = C(t.args[0])
            for a in t.args[1:]:
                r = self.add(r, C(a))
            return r
        if o == "mul":
            r = C(t.args[0])
            for a in t.args[1:]:
                r = self.mul(r, C(a))
            return r
        if o == "div":
            try:
                return self.mul(C(t.args[0]), self.inv(C(t.args[1])))
            except ZeroDivisionError:
                return self.of_atom(self.atom("divzero", (self.rid(C(t.args[0])),)))
        if o == "exp":
            return self.f_exp(C(t.args[0]))
        if o == "sig":
            e = self.f_exp(C(t.args[0]))
            return self.mul(e, self.inv(self.add(self.const(1), e)))
        if o == "log":
            return self.f_log(C(t.args[0]))
        if o == "sqrt":
            return self.f_sqrt(C(t.args[0]))
        if o == "sum":
            return self._sum(t)
        if o == "special":
            return self.of_atom(self.atom("special", t.val))
        bvs = frozenset(v.uid for v in tm.subterms(t) if v.op == "var" and str(v.val).startswith("$"))
        if o == "ite":
            c, a, b = t.args
            pos, k = self.bkey(c)
            a, b = (a, b) if pos else (b, a)
            if k[0] == "lt" and a.sort == "R":
                # an absolute value: |p| and |-p| are the same atom
                ra, rb = C(a), C(b)
                i, j = self.rid(ra), self.rid(rb)
                if i != j and self.rid(self.neg(ra)) == j:
                    di, dj = [self.rid(self._norm_sign(x)[0]) for x in (ra, rb)]
                    if k[1] in (di, dj):
                        p = ra if i < j else rb
                        m = self.of_atom(self.atom("abs", (min(i, j),), self.rat_bvs(p)))
                        return m if k[1] == di else self.neg(m)
            return self.of_atom(self.atom(o, (k, self.key(a), self.key(b)), bvs))
        return self.of_atom(self.atom(o, (t.val, tuple(self.key(a) for a in t.args)), bvs))

    def _sum(self, t):
        bv, body = t.args
        r = self.rat(body)
        b = bv.uid
        # split denominator
        din, dout = {}, {}
        for k, (p, e) in r.d.items():
            if any(b in self.mono_bvs(m) for m in p):
                din[k] = (p, e)
            else:
                dout[k] = (p, e)
        groups = {}
        for m, c in r.n.items():
            dep = tuple(x for x in m if b in self.atoms[x[0]][3])
            ind = tuple(x for x in m if b not in self.atoms[x[0]][3])
            groups.setdefault(dep, {})
            groups[dep] = p_add(groups[dep], {ind: c})
        out = self.const(0)
        # combine groups: each dep monomial (over din) gives its own sum atom
        for dep, coef in groups.items():
            if not dep and not din:
                n = int(t.val) if t.val.isdigit() else None
                s = self.const(n) if n is not None else self.of_atom(self.atom("dim", t.val))
            else:
                inner = Rat({dep: Fraction(1)}, din)
                bvs = self.rat_bvs(inner) - {b}
                s = self.of_atom(self.atom("sum", (t.val, b, self.rid(inner)), bvs))
            out = self.add(out, self.mul(Rat(coef, {}), s))
        if dout:
            out = self.mul(out, Rat(ONEP, dout))
        return out

    def equal(self, a, b):
        if a is b:
            return True
        if a.sort not in ("R", "I"):
            return self.key(a) == self.key(b)
        try:
            return self.rat_eq(self.rat(a), self.rat(b))
        except TooBig:
            return False
