"""Arguments of the public functions of the package before and after each call made from outside of it (real runs)."""
import os
import sys
import numpy as np
from .check import REPO

BASE = os.path.join(REPO, "diffmah") + os.sep


def copy_of(x, depth=0):
    if isinstance(x, np.ndarray):
        return x.copy()
    if depth < 4 and isinstance(x, (list, tuple)):
        return [type(x).__name__] + [copy_of(v, depth + 1) for v in x]
    if depth < 4 and isinstance(x, dict):
        return {k: copy_of(v, depth + 1) for k, v in x.items()}
    return x if isinstance(x, (int, float, str, bool, type(None))) else None


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or a != a)


def mapped(x, conv):
    if isinstance(x, np.ndarray):
        return conv(x)
    if isinstance(x, dict):
        return {k: mapped(v, conv) for k, v in x.items()}
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[mapped(v, conv) for v in x])
    if isinstance(x, (list, tuple)):
        return type(x)(mapped(v, conv) for v in x)
    return x


class Monitor:
    """with Monitor() as m: ...; m.msgs: the arguments changed by a call."""

    def __init__(self, variants=False):
        self.variants, self.seen = variants, {}

    def __enter__(self):
        self.open, self.msgs, self.calls = {}, [], 0
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        if self.variants:
            self.again()
        return False

    def again(self):
        """The same calls with the arrays in other formats (single and double precision, integers)."""
        for (fn, name, _), (f, args) in list(self.seen.items()):
            todo = []
            if any(isinstance(x, list) and len(x) > 1 for x in args.values()):
                todo.append(("lists reversed", {v: x[::-1] if isinstance(x, list) else mapped(x, np.copy) for v, x in args.items()}))
            for what, conv in (("single precision", lambda x: x.astype("f4") if x.dtype.kind == "f" else x.copy()),
                               ("integers", lambda x: x.astype("i8") if x.dtype.kind == "f" and np.all(np.isfinite(x)) else x.copy()),
                               ("double precision", lambda x: x.astype("f8") if x.dtype.kind in "fi" else x.copy())):
                todo.append((what, mapped(args, conv)))
            for what, a in todo:
                b = copy_of(a)
                try:
                    f(**a)
                except Exception:
                    pass
                c = copy_of(a)
                self.msgs += [f"{fn}:{name} changed its argument {v} ({what})" for v in b if not same(b[v], c[v])]

    def hook(self, frame, event, arg):
        if event == "call":
            code = frame.f_code
            if code.co_filename.startswith(BASE) and not code.co_name.startswith(("_", "<")) and "/tests/" not in code.co_filename:
                g = frame.f_back
                while g is not None:           # an outermost call: no function of the package above it
                    if g.f_code.co_filename.startswith(BASE):
                        return
                    g = g.f_back
                n = code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & 4) + bool(code.co_flags & 8)
                args = {v: frame.f_locals[v] for v in code.co_varnames[:n] if v in frame.f_locals}
                self.calls += 1
                kinds = tuple(type(x).__name__ for x in args.values())
                key = (os.path.relpath(code.co_filename, BASE), code.co_name, kinds)
                f = getattr(sys.modules.get(frame.f_globals.get("__name__")), code.co_name, None)
                if self.variants and key not in self.seen and getattr(f, "__code__", None) is code and not code.co_flags & 12:
                    self.seen[key] = (f, mapped(args, np.copy))
                self.open[id(frame)] = (code, args, copy_of(args))
        elif event == "return" and id(frame) in self.open:
            code, args, before = self.open.pop(id(frame))
            after = copy_of(args)
            for v in before:
                if not same(before[v], after[v]):
                    self.msgs.append(f"{os.path.relpath(code.co_filename, BASE)}:{code.co_name} changed its argument {v}")
