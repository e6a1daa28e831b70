"""Frame condition of every function of the package: calls leave no module state behind, so that what is proved of one call
holds for every call of every history.  Decided on the syntax of the current sources: no function assigns to, deletes from or calls a
changing method of an object of its module (or of a mutable default argument), none uses `global`, none is memoised.  Where the syntax
does not show it, nothing is concluded; histories of calls are then explored on the real code (check.Run.run_history)."""
import ast
import glob
import os

CHANGING = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse",
            "appendleft", "extendleft", "move_to_end", "__setitem__", "__delitem__", "fill", "put", "resize", "itemset"}
MEMO = ("cache", "memo")


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and not (isinstance(e.func, ast.Attribute) and e.func.attr in ("array", "asarray")) and \
        root(e.func) in ("list", "dict", "set", "OrderedDict", "defaultdict", "deque", "Counter", "bytearray", "collections")


def local_names(f):
    """Names bound inside a function (parameters, assignments, loops, with, imports), without nested functions' own."""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    glob_ = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob_ |= set(n.names)
    return out - glob_


def in_function(f, out, where):
    names = local_names(f)
    a = f.args
    pos = a.posonlyargs + a.args
    dflt = {p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if mutable(d)}
    dflt |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and mutable(d)}
    rebound = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def outer(e):
        r = root(e)
        return r is not None and (r not in names or (r in dflt and r not in rebound))
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.append((where, n.lineno, type(n).__name__.lower() + " " + ", ".join(n.names)))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.NamedExpr)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in [y for x in ts for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]:
                if isinstance(t, (ast.Attribute, ast.Subscript)) and outer(t):
                    out.append((where, n.lineno, "assignment into " + ast.unparse(t)[:60]))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGING and outer(n.func.value) \
                and not imported_call(n, f):
            out.append((where, n.lineno, "call of " + ast.unparse(n.func)[:60]))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and outer(n.args[0]):
            out.append((where, n.lineno, "setattr on " + ast.unparse(n.args[0])[:60]))


def imported_call(n, f):
    """numpy.add(...), jnp.sort(...): functions of an imported module."""
    return isinstance(n.func.value, ast.Name) and n.func.value.id in f.__dict__.get("vf_modules", ()) or \
        isinstance(n.func.value, ast.Attribute) and root(n.func.value) in f.__dict__.get("vf_modules", ())


def scan(repo):
    """[(file:function, line, what)] for every place where a function of the package may change state that outlives the call."""
    out = []
    for p in sorted(glob.glob(os.path.join(repo, "diffmah", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(p, os.path.join(repo, "diffmah"))
        if "/tests/" in "/" + rel or os.path.basename(rel).startswith(("test_", "plot_")):
            continue
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            continue
        mods = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                mods |= {(x.asname or x.name).split(".")[0] for x in n.names}
            elif isinstance(n, ast.ImportFrom):
                mods |= {x.asname or x.name for x in n.names if x.name in ("numpy", "random", "optimizers") or n.module in ("jax", "jax.example_libraries")}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                n.__dict__["vf_modules"] = mods
        tops = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
        tops += [m for c in tree.body if isinstance(c, ast.ClassDef) for m in c.body if isinstance(m, ast.FunctionDef)]
        for f in tops:
            in_function(f, out, rel + ":" + f.name)
        for n in ast.walk(tree):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm and isinstance(getattr(n, "ctx", None), ast.Load) and any(m in nm.lower() for m in MEMO) and "clear_cache" not in nm:
                out.append((rel, n.lineno, "use of " + nm))
    return sorted(set(out))


# ---------------------------------------------------------------- ownership of what a function writes to

# library calls whose result may share memory with an argument (everything else returns a new object: listed as an assumption)
ALIASING = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "broadcast_to",
            "broadcast_arrays", "moveaxis", "swapaxes", "expand_dims", "split", "array_split", "rollaxis", "view", "flatten_view", "real", "imag",
            "diagonal", "require", "ascontiguousarray", "nan_to_num", "getattr", "iter", "next", "zip", "enumerate", "reversed", "vars",
            "get", "values", "items", "keys", "setdefault", "map", "filter"}


class Pkg:
    """Functions of the package with the names their modules import from one another."""

    def __init__(self, repo):
        self.fn, self.names = {}, {}
        base = os.path.join(repo, "diffmah")
        for p in sorted(glob.glob(os.path.join(base, "**", "*.py"), recursive=True)):
            rel = os.path.relpath(p, base)
            if "/tests/" in "/" + rel or os.path.basename(rel).startswith(("test_", "plot_")):
                continue
            try:
                tree = ast.parse(open(p).read())
            except SyntaxError:
                continue
            m = "diffmah/" + rel[:-3]
            m = m[:-len("/__init__")] if m.endswith("/__init__") else m
            self.names[m] = {}
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.fn[(m, n.name)] = n
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom):
                    src = n.module or ""
                    if n.level:
                        d = m.split("/")[:-n.level] if not rel.endswith("__init__.py") else m.split("/")[:len(m.split("/")) - n.level + 1]
                        src = "/".join(d + (src.split(".") if src else []))
                    else:
                        src = src.replace(".", "/")
                    for x in n.names:
                        self.names[m][x.asname or x.name] = (src, x.name)
        self.mod, self.frs, self.bad = {}, {}, {}
        for k in self.fn:
            self.mod[k] = set()
        for _ in range(20):
            self.frs, old = {}, {k: set(v) for k, v in self.mod.items()}
            for k in self.fn:
                self.writes(k)
            if old == self.mod:
                break

    def callee(self, m, func):
        """(module, function) of a call of a function of the package, else None."""
        for _ in range(4):
            if isinstance(func, ast.Name):
                nm = func.id
                if (m, nm) in self.fn:
                    return m, nm
                if nm in self.names.get(m, {}):
                    src, x = self.names[m][nm]
                    if (src, x) in self.fn:
                        return src, x
                    if src in self.names and x in self.names[src]:
                        m, func = src, ast.Name(x)
                        continue
            elif isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) and func.value.id in self.names.get(m, {}):
                src, x = self.names[m][func.value.id]
                if (src + "/" + x, func.attr) in self.fn:
                    return src + "/" + x, func.attr
            return None
        return None

    def returns(self, k):
        """The parameters the result may share memory with; None: not known."""
        if k in self.frs:
            return self.frs[k]
        self.frs[k] = None          # recursion: not shown
        f = self.fn[k]
        nested = {id(x) for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f for x in ast.walk(n)}
        rs = [n.value for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None and id(n) not in nested]
        env = Env(self, k)

        def all_fresh(assume):
            env.assume = assume
            return all(env.fresh(r) for r in rs)
        if all_fresh(env.params):
            self.frs[k] = {p for p in env.params if not all_fresh(env.params - {p})}
        return self.frs[k]

    def shared_args(self, c, e):
        """The arguments of the call e of c that its result may share memory with; None: not known."""
        r = self.returns(c)
        if r is None:
            return None
        a = self.fn[c].args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if any(isinstance(x, ast.Starred) for x in e.args) or any(kw.arg is None for kw in e.keywords):
            return [] if not r else None
        return [x for p, x in list(zip(pos, e.args)) + [(kw.arg, kw.value) for kw in e.keywords] if p in r]

    def writes(self, k):
        f, env, where = self.fn[k], Env(self, k), f"{k[0]}:{k[1]}"
        bad = self.bad[k] = []

        def target(e, n, what):
            if env.fresh(e, line=n.lineno):
                return
            r = root(e)
            if r in env.params:
                self.mod[k].add(r)
                bad.append((where, n.lineno, f"{what} the parameter {r}"))
            elif not env.is_function(e):
                bad.append((where, n.lineno, f"{what} {ast.unparse(e)[:50]}, not shown to be the function's own"))
        for n in ast.walk(f):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in [y for x in ts for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        target(t.value, n, "assignment into")
                    elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                        target(t, n, "in-place operation on")
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGING and not imported_call(n, f) and not is_at_update(n.func):
                    target(n.func.value, n, f"call of .{n.func.attr} of")
                for kw in n.keywords:
                    if kw.arg == "out":
                        target(kw.value, n, "out= into")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copyto", "put", "place", "putmask", "shuffle", "fill_diagonal", "put_along_axis") \
                        and imported_call(n, f) and n.args:
                    target(n.args[0], n, f"{n.func.attr} into")
                c = self.callee(k[0], n.func)
                if c and self.mod[c]:
                    a = self.fn[c].args
                    pos = [x.arg for x in a.posonlyargs + a.args]
                    for p, e in list(zip(pos, n.args)) + [(kw.arg, kw.value) for kw in n.keywords]:
                        if p in self.mod[c] and not isinstance(e, ast.Starred):
                            target(e, n, f"{c[1]} writes to its parameter {p}: passes")
                    if any(isinstance(e, ast.Starred) for e in n.args):
                        bad.append((where, n.lineno, f"{c[1]} writes to its parameters and is called with *"))


def is_at_update(func):
    """x.at[i].add(v): a new array."""
    return isinstance(func.value, ast.Subscript) and isinstance(func.value.value, ast.Attribute) and func.value.value.attr == "at"


class Env:
    def __init__(self, pkg, k):
        self.pkg, self.k = pkg, k
        f = self.f = pkg.fn[k]
        a = f.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.kwarg.arg} if a.kwarg else set()) | ({a.vararg.arg} if a.vararg else set())
        self.own = {a.kwarg.arg} if a.kwarg else set()        # the dict of **kwargs is new at every call
        self.values, self.busy, self.assume = {}, set(), set()
        self.nested = {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f}
        for n in ast.walk(f):
            if isinstance(n, ast.arg) and n.arg not in self.params:
                self.values.setdefault(n.arg, []).append((None, 0))
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    self.bind(t, n.value, n.lineno)
            elif isinstance(n, ast.For):
                self.bind(n.target, n.iter, n.lineno)
            elif isinstance(n, ast.comprehension):
                self.bind(n.target, n.iter, 0)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.bind(n.optional_vars, n.context_expr, 0)
        self.first = {}
        for st in f.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(y, ast.Name):
                            self.first.setdefault(y.id, st.lineno)

    def bind(self, t, v, line):
        if isinstance(t, ast.Name):
            self.values.setdefault(t.id, []).append((v, line))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in v.elts + t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b, line)
            else:
                for a in t.elts:
                    self.bind(a, v, line)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, line)

    def is_function(self, e):
        return isinstance(e, ast.Name) and e.id in self.nested

    def fresh(self, e, line=None):
        """The object belongs to this call: nobody else holds it."""
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Lambda)):
            return True
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return True if not isinstance(e, ast.Tuple) else all(self.fresh(x, line) for x in e.elts)
        if isinstance(e, (ast.Dict, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.fresh(x, line) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.fresh(e.body, line) and self.fresh(e.orelse, line)
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            return self.fresh(e.value, line)
        if isinstance(e, ast.Name):
            if e.id in self.own or e.id in self.assume:
                return True
            if e.id in self.busy:
                return True          # only through itself
            if e.id in self.params and not (line and self.first.get(e.id, 10 ** 9) < line):
                return False
            vs = self.values.get(e.id)
            if not vs:
                return False
            self.busy.add(e.id)
            try:
                if e.id in self.params:
                    # x = np.array(x): the parameter itself is not the function's own
                    self.busy.discard(e.id)
                    return all(v is not None and e.id not in {root(v)} and self.fresh(v, None) for v, _ in vs)
                return all(v is not None and self.fresh(v, ln or line) for v, ln in vs)
            finally:
                self.busy.discard(e.id)
        if isinstance(e, ast.Call):
            c = self.pkg.callee(self.k[0], e.func)
            if c:
                sh = self.pkg.shared_args(c, e)
                return sh is not None and all(self.fresh(x, line) for x in sh)
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            if nm is None or (isinstance(e.func, ast.Name) and (nm in self.params or nm in self.values)):
                return False
            if any(kw.arg == "copy" and isinstance(kw.value, ast.Constant) and not kw.value.value for kw in e.keywords) or nm in ALIASING:
                parts = list(e.args) + ([e.func.value] if isinstance(e.func, ast.Attribute) and not imported_call(e, self.f) else [])
                return all(self.fresh(x, line) for x in parts)
            return True
        return False


def arguments(repo):
    """(number of functions, [(function, line, what)]) : places where a public function, or one it calls, may write to an argument of
    the caller; helpers (leading underscore) may write to theirs when every caller of the package passes an object of its own."""
    p = Pkg(repo)
    out = []
    for k, bad in p.bad.items():
        for b in bad:
            helper = k[1].startswith("_") and "the parameter" in b[2]
            if not helper:
                out.append(b)
    return len(p.fn), sorted(set(out))


if __name__ == "__main__":
    import sys
    repo_ = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    for x in scan(repo_):
        print(x)
    print(arguments(repo_))
