"""Run the real function and record every random key its traced program consumes, by the value of the key.

The program obtained from the real function at the given concrete inputs is executed equation by equation; at each
`random_bits` equation the keys it consumes are recorded together with the kind of draw ('U' uniform or 'N' normal, from
the enclosing jax.random function) and the keys split are recorded at each `random_split`.
"""
import jax
import numpy as np
from jax import random as jran
from jax.extend import core as jcore
from .jx import Unsupported

INNER = {"jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "remat2", "checkpoint"}


def _has_bits(j):
    for e in j.eqns:
        if e.primitive.name in ("random_bits", "random_split"):
            return True
        for v in e.params.values():
            for w in (v if isinstance(v, (list, tuple)) else [v]):
                w = getattr(w, "jaxpr", w)
                if hasattr(w, "eqns") and _has_bits(w):
                    return True
    return False


class Rec:
    def __init__(self):
        self.draws = []      # (kind, key bytes, shape drawn per key)
        self.splits = []     # (key bytes, shape)


def _rows(k):
    d = np.asarray(jran.key_data(k)) if jax.dtypes.issubdtype(k.dtype, jax.dtypes.prng_key) else np.asarray(k)
    return [r.tobytes() for r in d.reshape(-1, d.shape[-1])]


def _run(jaxpr, consts, args, rec, kind):
    env = {}
    rd = lambda v: v.val if hasattr(v, "val") else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for e in jaxpr.eqns:
        ins = [rd(v) for v in e.invars]
        n = e.primitive.name
        if n == "random_bits":
            for r in _rows(ins[0]):
                rec.draws.append((kind, r, tuple(e.params["shape"])))
        elif n == "random_split":
            for r in _rows(ins[0]):
                rec.splits.append((r, tuple(e.params["shape"])))
        sub = e.params.get("jaxpr") or e.params.get("call_jaxpr")
        if n in INNER and sub is not None and _has_bits(getattr(sub, "jaxpr", sub)):
            nm = str(e.params.get("name", ""))
            k = "N" if "normal" in nm else ("U" if kind == "" and "uniform" in nm else kind)
            outs = _run(getattr(sub, "jaxpr", sub), getattr(sub, "consts", []), ins, rec, k)
        else:
            if any(hasattr(getattr(w, "jaxpr", w), "eqns") and _has_bits(getattr(w, "jaxpr", w))
                   for v in e.params.values() for w in (v if isinstance(v, (list, tuple)) else [v])):
                raise Unsupported(f"random draws inside {n}")
            outs = e.primitive.bind(*ins, **e.params) if n not in INNER else \
                jcore.jaxpr_as_fun(jcore.ClosedJaxpr(getattr(sub, "jaxpr", sub), getattr(sub, "consts", [])))(*ins)
            outs = outs if isinstance(outs, (list, tuple)) else [outs]
        for v, o in zip(e.outvars, outs):
            env[v] = o
    return [rd(v) for v in jaxpr.outvars]


def record(fn, *args):
    """Rec of fn(*args); args: pytrees of arrays (and one key)."""
    flat, tree = jax.tree_util.tree_flatten(args)
    closed = jax.make_jaxpr(lambda *a: fn(*jax.tree_util.tree_unflatten(tree, a)))(*flat)
    rec = Rec()
    _run(closed.jaxpr, closed.consts, flat, rec, "")
    return rec


def faults(rec):
    """Key-discipline faults: a key both split and consumed, split into different numbers, consumed by draws of different
    kind or shape."""
    out = []
    uses = {}
    for kind, k, sh in rec.draws:
        uses.setdefault(k, set()).add((kind, sh))
    sp = {}
    for k, sh in rec.splits:
        sp.setdefault(k, set()).add(sh)
    bad = [k for k, u in uses.items() if len(u) > 1]
    if bad:
        out.append(f"{len(bad)} keys are used for draws of different kinds: {sorted(map(str, uses[bad[0]]))}")
    bad = [k for k in uses if k in sp]
    if bad:
        out.append(f"{len(bad)} keys are both split and used for a draw")
    bad = [k for k, u in sp.items() if len(u) > 1]
    if bad:
        out.append(f"{len(bad)} keys are split in different ways {[sorted(map(str, sp[k])) for k in bad[:2]]}")
    return out


def distinct(rec, kind=None):
    return len({(a, k) for a, k, _ in rec.draws if kind in (None, a)})
