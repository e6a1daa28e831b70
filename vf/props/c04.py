"""C04: the single-halo parameter transform is a bijection onto the admissible region."""
import numpy as np
import jax.numpy as jnp
from ..lib import *
from ..check import Case
from ..prove import definedness
from . import mahlib as ml
from diffmah import diffmah_kernels as dk

FUNCTIONS = ["diffmah_kernels:get_bounded_mah_params", "diffmah_kernels:get_unbounded_mah_params",
             "diffmah_kernels:_get_bounded_diffmah_param", "diffmah_kernels:_get_unbounded_diffmah_param",
             "diffmah_kernels:_get_early_late", "diffmah_kernels:_get_u_early_late", "diffmah_kernels:_sigmoid",
             "diffmah_kernels:_inverse_sigmoid"]
FB, FU = "diffmah_kernels:get_bounded_mah_params", "diffmah_kernels:get_unbounded_mah_params"


def declared():
    return {k: (tm.from_float(float(v[0])), tm.from_float(float(v[1]))) for k, v in dk.MAH_PBDICT.items()}


def obligations(R):
    with R.guard("bounded"):
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"])
        b = fields(tb.out)
        u = {k[2:]: v.at() for k, v in tb.inp.items()}       # u.u_x -> u_x
        B = declared()
        R.fact("fields are the five halo parameters in order", FB, tuple(b) == ml.NAMES, "names", str(tuple(b)))
        for k in ml.NAMES:
            R.prove(f"{k} strictly inside its bounds", FB, [], and_(lt(B[k][0], b[k]), lt(b[k], B[k][1])))
            for (_, g) in [(0, g) for (pc, g) in definedness(b[k])]:
                R.prove(f"{k} defined", FB, [], g)
        R.prove("early index strictly above late index", FB, [], lt(b["late_index"], b["early_index"]))
        for k in ml.NAMES:
            own = u["u_" + k]
            v2 = var("other", "R")
            R.prove(f"{k} strictly increasing in u_{k}", FB, [lt(own, v2)], lt(b[k], tm.subst(b[k], {own: v2})))
            for k2 in ml.NAMES:
                if k2 == k or (k == "early_index" and k2 == "late_index"):
                    continue
                R.prove(f"{k} does not depend on u_{k2}", FB, [], eq(b[k], tm.subst(b[k], {u["u_" + k2]: v2})))
    with R.guard("unbounded o bounded"):
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"])
        b = fields(tb.out)
        tu = jx.trace(dk.get_unbounded_mah_params, (nt(dk.DEFAULT_MAH_PARAMS),), ["p"], sym={"p." + k: v for k, v in b.items()})
        for k in tu.out._fields:
            R.prove(f"unbounded(bounded(u)).{k} = u.{k}", FU, [], eq(getattr(tu.out, k).at(), tb.inp["u." + k].at()))
    with R.guard("bounded o unbounded"):
        tu = jx.trace(dk.get_unbounded_mah_params, (nt(dk.DEFAULT_MAH_PARAMS),), ["p"])
        p = {k: tu.inp["p." + k].at() for k in ml.NAMES}
        B = declared()
        adm = [lt(B[k][0], p[k]) for k in ml.NAMES] + [lt(p[k], B[k][1]) for k in ml.NAMES] + [lt(p["late_index"], p["early_index"])]
        R.reachable("admissible", adm)
        for k in tu.out._fields:
            for pc, g in definedness(getattr(tu.out, k).at()):
                R.prove(f"{k}: division/log defined on the admissible region", FU, adm, implies(pc, g))
        tb = jx.trace(dk.get_bounded_mah_params, (nt(dk.DEFAULT_MAH_U_PARAMS),), ["u"],
                      sym={"u." + k: getattr(tu.out, k).at() for k in tu.out._fields})
        for k in ml.NAMES:
            R.prove(f"bounded(unbounded(p)).{k} = p.{k}", FB, adm, eq(getattr(tb.out, k).at(), p[k]))


def check_roundtrip(u, scale):
    u = np.array(u, float)
    U = dk.DiffmahUParams(*[float(x) for x in u])
    b = dk.get_bounded_mah_params(U)
    bv = np.array([float(x) for x in b])
    msgs = []
    for k, v in zip(ml.NAMES, bv):
        lo, hi = [float(x) for x in dk.MAH_PBDICT[k]]
        if not lo < v < hi:
            msgs.append(f"{k}={v} outside its bounds ({lo},{hi}) for u={u.tolist()}")
    if not bv[2] > bv[3]:
        msgs.append(f"early {bv[2]} <= late {bv[3]}")
    back = np.array([float(x) for x in dk.get_unbounded_mah_params(b)])
    tol = 1e-6 * (1 + np.exp(0.1 * np.abs(u)) * 1e-7)
    if not np.all(np.abs(back - u) < np.maximum(tol, 1e-6 * np.exp(0.1 * (np.abs(u) + np.abs(u[3]))) * 1e-3)):
        msgs.append(f"round trip u -> p -> u: {worst(back, u)}")
    for k in range(5):
        u2 = u.copy()
        u2[k] += scale
        b2 = np.array([float(x) for x in dk.get_bounded_mah_params(dk.DiffmahUParams(*[float(x) for x in u2]))])
        if not b2[k] > bv[k]:
            msgs.append(f"{ml.NAMES[k]} not increasing in its unconstrained value")
        for j in range(5):
            if j == k or (j == 2 and k == 3):
                continue
            if b2[j] != bv[j]:
                msgs.append(f"{ml.NAMES[j]} changed when u_{ml.NAMES[k]} changed")
    return msgs


def gen_u(rng, N):
    for k in range(N):
        yield dict(u=np.clip(rng.normal(0, [10, 25, 50][k % 3], 5), -150, 150), scale=float(rng.uniform(0.5, 5)))


def check_inverse(params):
    p = np.array(params, float)
    back = np.array([float(x) for x in dk.get_bounded_mah_params(dk.get_unbounded_mah_params(dk.DiffmahParams(*[float(x) for x in p])))])
    if not close(back, p, 1e-9, 1e-9):
        return [f"round trip p -> u -> p: {worst(back, p)}"]
    return []


def gen_p(rng, N):
    for k in range(N):
        yield dict(params=ml.gen_params(rng, 1)[:, 0])


def check_batch(u):
    """The transforms act row by row on arrays."""
    u = np.array(u, float)
    b = dk.get_bounded_mah_params(dk.DiffmahUParams(*[jnp.array(x) for x in u]))
    msgs = []
    for r in range(u.shape[1]):
        one = dk.get_bounded_mah_params(dk.DiffmahUParams(*[float(x) for x in u[:, r]]))
        for k in range(5):
            if not close(np.asarray(b[k])[r], one[k]):
                msgs.append(f"row {r} {ml.NAMES[k]} differs from the single-halo result")
    ub = dk.get_unbounded_mah_params(b)
    for r in range(u.shape[1]):
        one = dk.get_unbounded_mah_params(dk.DiffmahParams(*[float(np.asarray(x)[r]) for x in b]))
        for k in range(5):
            if not close(np.asarray(ub[k])[r], one[k], 1e-6, 1e-6):
                msgs.append(f"inverse row {r} {ml.NAMES[k]} differs")
    return msgs


def gen_batch(rng, N):
    for k in range(N):
        yield dict(u=rng.normal(0, 20, (5, [1, 2, 5][k % 3])))


CASES = {"roundtrip": Case(check_roundtrip, gen_u, 120, 2000), "inverse": Case(check_inverse, gen_p, 80, 1000),
         "batch": Case(check_batch, gen_batch, 12, 60)}
