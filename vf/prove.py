"""Discharging obligations: ring normaliser, z3, cvc5, over purified terms.

Transcendental functions become constants constrained by instances of the lemma schemas of
lean/Lemmas.lean (range, monotonicity, ...), each schema machine-checked in Lean/Mathlib.
"""
import sys
import time
from fractions import Fraction
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3
from . import terms as tm
from . import nf as nfm
from .terms import T, num, and_, or_, not_, lt, le, eq, implies

Z3_TIMEOUT_MS = 20000
Z3_RLIMIT = 40_000_000
STATS = {"ring": [0, 0.0], "z3": [0, 0.0], "cvc5": [0, 0.0], "simplify": [0, 0.0], "lean-lemmas": set()}


class Result:
    def __init__(self, status, backend="", model=None, detail="", secs=0.0):
        self.status, self.backend, self.model, self.detail, self.secs = status, backend, model, detail, secs

    @property
    def ok(self):
        return self.status == "proved"

    def __repr__(self):
        return f"<{self.status} {self.backend} {self.detail[:200]}>"


# ------------------------------------------------------------------ path simplification
def assume_cond(t, lits):
    """Rewrite t under decided conditions (dict Term cond -> bool)."""
    m = {}
    for c, v in lits.items():
        b = tm.TRUE if v else tm.FALSE
        nb = tm.FALSE if v else tm.TRUE
        m[c] = b
        if c.op == "lt":
            a, d = c.args
            m[le(d, a)] = nb
            if v:
                m[le(a, d)] = tm.TRUE
                m[lt(d, a)] = tm.FALSE
                m[eq(a, d)] = tm.FALSE
        elif c.op == "le":
            a, d = c.args
            m[lt(d, a)] = nb
            if not v:
                m[lt(a, d)] = tm.FALSE
                m[le(d, a)] = tm.TRUE
                m[eq(a, d)] = tm.FALSE
        elif c.op == "eq" and v:
            a, d = c.args
            if a.sort in ("R", "I"):
                m[lt(a, d)] = m[lt(d, a)] = tm.FALSE
                m[le(a, d)] = m[le(d, a)] = tm.TRUE
    m = {k: v for k, v in m.items() if k.op not in ("true", "false")}
    return tm.subst(t, m)


def first_cond(t):
    """An ite condition (atomic) to split on, innermost-first so conditions are ite-free."""
    for s in tm.subterms(t):
        if s.op == "ite":
            c = atom_of(s.args[0])
            # a condition on a bound variable is not one condition
            if not any(str(v.val).startswith("$") for v in tm.free_all(c)):
                return c
    return None


def atom_of(c):
    while c.op in ("not", "and", "or"):
        c = c.args[0]
    if c.op == "eq" and c.args[0].sort == "B":
        return atom_of(c.args[0])
    return c


# ------------------------------------------------------------------ z3 translation
class Trans:
    def __init__(self, nf=None):
        self.nf = nf or nfm.NF()
        self.cache = {}
        self.consts = {}
        self.atoms = []        # (kind, term, z3 const)
        self.defs = []
        self.key_sort = None
        self.names = {}

    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else f"{base}~{k}"

    def const_for(self, t, kind):
        key = (kind, self.nf.key(t)) if t.sort in ("R", "I", "B") else (kind, t.uid)
        c = self.consts.get(key)
        if c is None:
            n = self.name(f"{kind}_{t.val if t.op == 'var' else t.uid}")
            if t.sort == "B":
                c = z3.Bool(n)
            elif t.sort == "I":
                c = z3.Int(n)
            elif t.sort == "R":
                c = z3.Real(n)
            else:
                c = z3.Const(n, z3.DeclareSort("Key"))
            self.consts[key] = c
            self.atoms.append((kind, t, c))
        return c

    def tr(self, t):
        c = self.cache.get(t.uid)
        if c is not None:
            return c
        for s in tm.subterms_shallow(t) if hasattr(tm, "subterms_shallow") else [t]:
            pass
        r = self._tr(t)
        self.cache[t.uid] = r
        return r

    def real(self, t):
        z = self.tr(t)
        if t.sort == "I":
            return z3.ToReal(z) if z3.is_int(z) else z
        return z

    def _pair(self, a, b):
        x, y = self.tr(a), self.tr(b)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            if z3.is_int(x):
                x = z3.ToReal(x)
            if z3.is_int(y):
                y = z3.ToReal(y)
        return x, y

    def _tr(self, t):
        o = t.op
        if o == "num":
            if t.sort == "I":
                return z3.IntVal(int(t.val))
            return z3.RealVal(f"{t.val.numerator}/{t.val.denominator}") if t.val.denominator != 1 else z3.RealVal(t.val.numerator)
        if o in ("true", "false"):
            return z3.BoolVal(o == "true")
        if o in ("var", "uf", "ln10", "exp", "log", "sig", "sqrt", "sum", "fn", "special"):
            return self.const_for(t, o)
        if o == "add":
            zs = [self.tr(a) for a in t.args]
            zs = self._unify(zs)
            return z3.Sum(zs)
        if o == "mul":
            zs = self._unify([self.tr(a) for a in t.args])
            r = zs[0]
            for z in zs[1:]:
                r = r * z
            return r
        if o == "div":
            a, b = self.real(t.args[0]), self.real(t.args[1])
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
            q = self.const_for(t, "div")
            self.defs.append(z3.Implies(b != 0, q * b == a))
            return q
        if o == "ite":
            a, b = self._pair(t.args[1], t.args[2])
            return z3.If(self.tr(t.args[0]), a, b)
        if o == "lt":
            a, b = self._pair(*t.args)
            return a < b
        if o == "le":
            a, b = self._pair(*t.args)
            return a <= b
        if o == "eq":
            a, b = self._pair(*t.args)
            return a == b
        if o == "not":
            return z3.Not(self.tr(t.args[0]))
        if o == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if o == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        raise NotImplementedError(o)

    def _unify(self, zs):
        if any(z3.is_real(z) for z in zs):
            return [z3.ToReal(z) if z3.is_int(z) else z for z in zs]
        return zs


def lemma_instances(tr, extra_pairs=True, budget=60):
    """Instances of the Lean-checked schemas for every atom of the query (to a fixpoint)."""
    out = []
    done = set()
    groups = {}
    i = 0
    while i < len(tr.atoms):
        kind, t, c = tr.atoms[i]
        i += 1
        if t.op == "ln10":
            out += [c > z3.RealVal("2302584/1000000"),
                    c < z3.RealVal("2302586/1000000")]
            STATS["lean-lemmas"].add("ln10_bounds")
        elif t.op == "sig":
            a = tr.real(t.args[0])
            out += [c > 0, c < 1, (a > 0) == (c > z3.RealVal("1/2")), (a < 0) == (c < z3.RealVal("1/2"))]
            groups.setdefault("sig", []).append((t, a, c))
            STATS["lean-lemmas"].update(("sig_pos", "sig_lt_one", "sig_half"))
        elif t.op == "exp":
            a = tr.real(t.args[0])
            out += [c > 0, c >= 1 + a, (a > 0) == (c > 1), (a < 0) == (c < 1)]
            groups.setdefault("exp", []).append((t, a, c))
            STATS["lean-lemmas"].update(("exp_pos'", "exp_ge_one_add"))
        elif t.op == "log":
            a = tr.real(t.args[0])
            out += [z3.Implies(a > 0, z3.And(c <= a - 1, (a > 1) == (c > 0), (a < 1) == (c < 0)))]
            groups.setdefault("log", []).append((t, a, c))
            STATS["lean-lemmas"].update(("log_le_sub_one'", "log_pos_iff'"))
        elif t.op == "sqrt":
            a = tr.real(t.args[0])
            out += [z3.Implies(a >= 0, z3.And(c >= 0, c * c == a)), z3.Implies(a > 0, c > 0)]
            STATS["lean-lemmas"].add("sqrt_spec")
        elif t.op == "fn" and t.val == "floor":
            a = tr.real(t.args[0])
            out += [c <= a, a < c + 1]
        elif t.op == "uf":
            for f, label in uf_facts(t):
                out.append(tr.tr(f))
            if t.val[0] == "elem" or t.val[1].startswith(("table:", "U", "N", "bits")):
                groups.setdefault(("uf", t.val, len(t.args)), []).append((t, None, c))
    if extra_pairs:
        le_, lo_ = groups.get("exp", []), groups.get("log", [])
        if 0 < len(le_) * len(lo_) <= 40:
            for (t1, a1, c1) in le_:
                for (t2, a2, c2) in lo_:
                    out.append(z3.Implies(a2 > 0, z3.And((a2 < c1) == (c2 < a1), (a2 == c1) == (c2 == a1))))
            STATS["lean-lemmas"].add("lt_exp_iff_log_lt")
        for g, lst in groups.items():
            if len(lst) < 2 or len(lst) > 14:
                continue
            for k in range(len(lst)):
                for l in range(k):
                    (t1, a1, c1), (t2, a2, c2) = lst[k], lst[l]
                    if g in ("sig", "exp"):
                        out += [(a1 < a2) == (c1 < c2), (a1 == a2) == (c1 == c2)]
                        STATS["lean-lemmas"].update(("sig_strictMono", "exp_strictMono'"))
                    elif g == "log":
                        out += [z3.Implies(z3.And(a1 > 0, a2 > 0), z3.And((a1 < a2) == (c1 < c2), (a1 == a2) == (c1 == c2)))]
                        STATS["lean-lemmas"].add("log_strictMono'")
                    else:
                        try:
                            cond = [tr.tr(x) == tr.tr(y) for x, y in zip(t1.args, t2.args) if x is not y]
                        except (NotImplementedError, z3.Z3Exception):
                            continue
                        out.append(z3.Implies(z3.And(*cond) if cond else z3.BoolVal(True), c1 == c2))
    return out


def _rng(t, lo, hi, strict_hi=False):
    return and_(le(num(lo), t), lt(t, num(hi)) if strict_hi else le(t, num(hi)))


UF_FACT_PROVIDERS = []


def uf_facts(t):
    """Facts from library contracts about one uninterpreted application."""
    out = []
    n = t.val[1]
    if n == "U":
        out.append((_rng(t, 0, 1, True), "uniform range"))
    elif n.startswith("table:"):
        from .jx import TABLES
        a = TABLES[n]
        out.append((and_(le(tm.from_float(a.min()), t), le(t, tm.from_float(a.max()))), "constant table range"))
    elif n == "interp":
        fp = t.args[2]
        rng = lam_range(fp)
        if rng is not None:
            out.append((and_(le(rng[0], t), le(t, rng[1])), "interp range"))
    for p in UF_FACT_PROVIDERS:
        out += p(t)
    return out


def lam_range(f):
    """[min,max] of a lambda whose body is an entry of a constant table."""
    if f.op == "lam":
        body = f.args[-1]
        if body.op == "uf" and body.val[1].startswith("table:"):
            from .jx import TABLES
            a = TABLES[body.val[1]]
            return tm.from_float(a.min()), tm.from_float(a.max())
    return None


def z3_check(hyps, goal, timeout=None, lemmas=(), want_model=True, pairs=True):
    tr = Trans()
    s = z3.Solver()
    fs = [tr.tr(h) for h in hyps] + [tr.tr(l) for l in lemmas] + [z3.Not(tr.tr(goal))]
    inst = lemma_instances(tr, pairs)
    k = len(tr.atoms)
    inst += lemma_instances(tr, pairs) if len(tr.atoms) > k else []
    allf = fs + tr.defs + inst
    full = timeout or Z3_TIMEOUT_MS
    for tactic, lim in ((None, min(1500, full)), ("qfnra-nlsat", min(1500, full)), (None, full), ("qfnra-nlsat", full)):
        if lim == full and full <= 1500 and tactic is None and False:
            continue
        try:
            s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
            s.set("timeout", int(lim))
            s.add(*allf)
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return "unsat", None, tr, allf
        if r == z3.sat:
            m = s.model()
            vals = {}
            for kind, t, c in tr.atoms:
                if t.op == "var" or (t.op == "uf" and t.val[0] == "elem") or t.op == "uf":
                    v = m.eval(c, model_completion=True)
                    vals[t] = z3num(v)
            return "sat", vals, tr, allf
    return "unknown", None, tr, allf


def z3num(v):
    try:
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return int(v.as_long())
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
    except Exception:
        pass
    return None


def cvc5_check(allf, timeout_ms=10000):
    try:
        import cvc5
    except Exception:
        return "unknown"
    s = z3.Solver()
    s.add(*allf)
    txt = s.to_smt2()
    try:
        tmg = cvc5.TermManager()
        slv = cvc5.Solver(tmg)
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if o:
                res += str(o)
        if "unsat" in res:
            return "unsat"
        if "sat" in res:
            return "sat"
    except Exception:
        return "unknown"
    return "unknown"


def smt(hyps, goal, lemmas=(), timeout=None, use_cvc5=True):
    t0 = time.time()
    try:
        r, m, tr, allf = z3_check(hyps, goal, lemmas=lemmas, timeout=timeout)
    except (nfm.TooBig, NotImplementedError) as e:
        return Result("unknown", "z3", None, f"translation: {e!r}", time.time() - t0)
    dt = time.time() - t0
    STATS["z3"][1] += dt
    if r == "unsat":
        STATS["z3"][0] += 1
        return Result("proved", "z3", secs=dt)
    if r == "sat":
        return Result("refuted", "z3", m, "z3 counter-model of the purified query", dt)
    if use_cvc5:
        t1 = time.time()
        r2 = cvc5_check(allf)
        STATS["cvc5"][1] += time.time() - t1
        if r2 == "unsat":
            STATS["cvc5"][0] += 1
            return Result("proved", "cvc5", secs=time.time() - t0)
    return Result("unknown", "z3+cvc5", None, "solvers returned unknown", time.time() - t0)


# ------------------------------------------------------------------ goals
MAXSPLIT = 400


def prove(hyps, goal, lemmas=(), timeout=None, ring_first=True):
    """Prove hyps |= goal.  Equalities between reals go through case split + ring first."""
    t0 = time.time()
    hyps = [h for h in hyps if h is not tm.TRUE]
    if goal is tm.TRUE:
        STATS["simplify"][0] += 1
        return Result("proved", "simplify")
    if any(h is tm.FALSE for h in hyps):
        return Result("proved", "simplify", detail="vacuous path")
    if goal.op == "and":
        worst = None
        secs = 0
        backs = set()
        for g in goal.args:
            r = prove(hyps, g, lemmas, timeout)
            secs += r.secs
            backs.add(r.backend)
            if not r.ok:
                return r
        return Result("proved", "+".join(sorted(backs)), secs=time.time() - t0)
    cases = _few_values(hyps, goal)
    if cases:
        v, vals = cases
        backs = set()
        for k in vals:
            m = {v: tm.num(k, "I")}
            g = tm.subst(goal, m)
            r = prove([tm.subst(h, m) for h in hyps], g, lemmas, timeout)
            backs.add(r.backend)
            if not r.ok:
                return r
        return Result("proved", "+".join(sorted(b for b in backs if b)) or "simplify", secs=time.time() - t0)
    if goal.op == "eq" and goal.args[0].sort in ("R",) and ring_first:
        return _eq_prove(hyps, goal.args[0], goal.args[1], lemmas, timeout)
    if first_cond(goal) is not None:
        r = smt(hyps, goal, lemmas, 1500, use_cvc5=False)
        if r.ok:
            return r
        r2 = _split_prove(hyps, goal, lemmas, timeout)
        if r2.ok or r.status == "unknown":
            return r2
        return r
    return smt(hyps, goal, lemmas, timeout)


def _few_values(hyps, goal, most=3):
    """(variable of the goal, its values) when the hypotheses leave an integer variable at most `most` constant values."""
    lo, hi = {}, {}
    for h in hyps:
        if h.op not in ("le", "lt") or not all(x.sort == "I" for x in h.args):
            continue
        a, b = h.args
        if a.op == "num" and b.op == "var":
            lo[b] = max(lo.get(b, a.val), a.val + (h.op == "lt"))
        elif b.op == "num" and a.op == "var":
            hi[a] = min(hi.get(a, b.val), b.val - (h.op == "lt"))
    fv = None
    for v in sorted(lo, key=str):
        if v in hi and hi[v] - lo[v] < most:
            fv = tm.free_vars(goal) if fv is None else fv
            if v in fv and int(lo[v]) == lo[v] and int(hi[v]) == hi[v]:
                return v, range(int(lo[v]), int(hi[v]) + 1)
    return None


def _feasible(hyps, lits):
    path = [c if v else not_(c) for c, v in lits.items()]
    if not path:
        return True
    try:
        r, m, _, _ = z3_check(list(hyps) + path, tm.FALSE, timeout=3000)
    except Exception:
        return True
    return r != "unsat"


def _with(hyps, m):
    out = list(hyps)
    for h in hyps:
        x = tm.subst(h, m)
        if x is not h and x is not tm.TRUE:
            out.append(x)
    return out


def _unify(c):
    """{variable: term} for an equality between integers one of which is a variable; None otherwise."""
    if c.op != "eq" or not all(x.sort == "I" for x in c.args):
        return None
    for x, y in (c.args, c.args[::-1]):
        if x.op == "var" and x not in tm.free_vars(y):
            return {x: y}
    return None


def _eq_prove(hyps, a, b, lemmas, timeout):
    t0 = time.time()
    count = [0]
    fail = []
    usedz3 = [False]

    def rec(a, b, lits, hyps=hyps):
        count[0] += 1
        if count[0] > MAXSPLIT:
            fail.append(Result("unknown", "ring", None, "too many case splits"))
            return False
        if a is b:
            return True
        c = first_cond(tm.add(a, tm.mul(tm.fresh("q"), b)) if False else a) or first_cond(b)
        if c is None:
            nf = nfm.NF()
            try:
                if nf.equal(a, b):
                    return True
                nf2 = nfm.NF(split_exp=True)
                if nf2.equal(a, b):
                    return True
            except (nfm.TooBig, ZeroDivisionError):
                pass
            path = [x if v else not_(x) for x, v in lits.items()]
            usedz3[0] = True
            r = smt(list(hyps) + path, eq(a, b), lemmas, timeout)
            if r.ok:
                return True
            r.detail = f"path {path}: {r.detail}"
            fail.append(r)
            return False
        for v in (True, False) if c not in lits else (lits[c],):
            l2 = dict(lits)
            l2[c] = v
            a2, b2 = assume_cond(a, {c: v}), assume_cond(b, {c: v})
            if not _feasible(hyps, l2):
                usedz3[0] = True
                continue
            h2, m = hyps, _unify(c) if v else None
            if m:
                a2, b2 = tm.subst(a2, m), tm.subst(b2, m)
                h2 = _with(hyps, m)
            if not rec(a2, b2, l2, h2):
                return False
        return True

    ok = rec(a, b, {})
    dt = time.time() - t0
    if ok:
        STATS["ring"][0] += 1
        STATS["ring"][1] += dt
        return Result("proved", "ring+z3" if usedz3[0] else "ring", secs=dt)
    r = fail[-1]
    r.secs = dt
    return r


def _split_prove(hyps, goal, lemmas, timeout):
    t0 = time.time()
    count = [0]
    fail = []

    def rec(g, lits, hyps=hyps):
        count[0] += 1
        if count[0] > 64:
            fail.append(Result("unknown", "z3", None, "too many case splits"))
            return False
        if g is tm.TRUE:
            return True
        c = first_cond(g)
        if c is None:
            path = [x if v else not_(x) for x, v in lits.items()]
            r = smt(list(hyps) + path, g, lemmas, timeout)
            if not r.ok:
                fail.append(r)
            return r.ok
        for v in (True, False) if c not in lits else (lits[c],):
            l2 = dict(lits)
            l2[c] = v
            if not _feasible(hyps, l2):
                continue
            h2, g2, m = hyps, assume_cond(g, {c: v}), _unify(c) if v else None
            if m:
                g2, h2 = tm.subst(g2, m), _with(hyps, m)
            if not rec(g2, l2, h2):
                return False
        return True

    if rec(goal, {}):
        return Result("proved", "z3", secs=time.time() - t0)
    r = fail[-1]
    r.secs = time.time() - t0
    return r


# ------------------------------------------------------------------ definedness
def definedness(t):
    """[(path condition, goal)] : denominators nonzero, log arguments positive, sqrt arguments >= 0."""
    out = {}
    seen = set()

    def walk(x, path):
        key = (x.uid, tuple(p.uid for p in path))
        if key in seen:
            return
        seen.add(key)
        if x.op == "div":
            g = not_(eq(x.args[1], tm.ZERO))
            if x.args[1].op not in ("num", "ln10"):
                out[(g, path)] = (and_(*path), g)
        elif x.op == "log":
            if not (x.args[0].op in ("num", "ln10") ):
                g = lt(tm.ZERO, x.args[0])
                out[(g, path)] = (and_(*path), g)
        elif x.op == "sqrt":
            g = le(tm.ZERO, x.args[0])
            out[(g, path)] = (and_(*path), g)
        if x.op == "ite":
            walk(x.args[0], path)
            walk(x.args[1], path + (x.args[0],))
            walk(x.args[2], path + (not_(x.args[0]),))
        elif x.op in ("sum", "lam"):
            return
        else:
            for a in x.args:
                walk(a, path)
    walk(t, ())
    return list(out.values())
