"""Shared pieces for the population model: declared parameter groups, traced entry points, samplers."""
import importlib
import numpy as np
import jax
import jax.numpy as jnp
from jax import random as jran
from ..lib import *
from . import mahlib as ml

POP = "diffmah.diffmahpop_kernels."


def mod(name):
    return importlib.import_module(POP + name)


class Lazy:
    def __getattr__(self, k):
        return mod({"bp": "bimod_censat_params", "mcc": "mc_bimod_cens", "mcs": "mc_bimod_sats", "fc": "bimod_cens_fithelp",
                    "fs": "bimod_sats_fithelp", "fcs": "bimod_censat_fithelp", "cov": "covariance_kernels",
                    "fec": "frac_early_cens"}[k])


L = Lazy()
P0 = L.bp.DEFAULT_DIFFMAHPOP_PARAMS
U0 = L.bp.DEFAULT_DIFFMAHPOP_U_PARAMS
PARTS = ["t_peak_kernels.tp_pdf_cens_flex", "t_peak_kernels.tp_pdf_sats", "bimod_logm0_kernels.logm0_pop_bimod",
         "bimod_logm0_sats.logm0_pop_bimod_sats", "logtc_bimod", "early_index_bimod", "late_index_bimod",
         "frac_early_cens", "covariance_kernels"]
TYPES = ["TPCens_Params", "TP_Sats_Params", "LGM0Pop_Params", "LGM0Pop_Params", "Logtc_Params", "EarlyIndex_Params",
         "LateIndex_Params", "FEC_Params", "CovParams"]
UTYPES = ["TPCens_UParams", "TP_Sats_UParams", "LGM0Pop_UParams", "LGM0Pop_UParams", "Logtc_UParams", "EarlyIndex_UParams",
          "LateIndex_UParams", "FEC_UParams", "CovUParams"]


def part_fields():
    return [getattr(mod(m), t)._fields for m, t in zip(PARTS, TYPES)]


def group(name):
    f = dict(zip(PARTS, part_fields()))
    if name == "cen_only":
        return f[PARTS[0]] + f[PARTS[2]]
    if name == "sat_only":
        return f[PARTS[1]] + f[PARTS[3]]
    d = {"early_only": "early", "late_only": "late"}[name]
    gr = "alpha" if d == "early" else "beta"
    return (mod("logtc_" + d).Logtc_Params._fields + mod("early_index_" + gr).EarlyIndex_Params._fields
            + mod("late_index_" + gr).LateIndex_Params._fields
            + mod("bimod_logm0_kernels.logm0_pop_" + d).LGM0Pop_Params._fields
            + mod("bimod_logm0_sats.logm0_pop_" + d).LGM0Pop_Params._fields)


def bounds():
    from . import c05
    return c05.load("bimod_censat_params")[4]


def bounds_hyps(p, strict=True):
    """p: dict name -> term."""
    out = []
    for k, (lo, hi) in bounds().items():
        if k in p:
            out += [lt(tm.from_float(lo), p[k]), lt(p[k], tm.from_float(hi))] if strict else [le(tm.from_float(lo), p[k]), le(p[k], tm.from_float(hi))]
    return out


class Kind:
    """The central ('cen') or satellite ('sat') half of the model."""

    def __init__(self, kind):
        self.k = kind
        self.m = L.mcc if kind == "cen" else L.mcs
        self.q = "mc_bimod_cens" if kind == "cen" else "mc_bimod_sats"
        self.fit = L.fc if kind == "cen" else L.fs
        self.fq = "bimod_cens_fithelp" if kind == "cen" else "bimod_sats_fithelp"
        self.single = getattr(self.m, f"mc_diffmah_params_single{kind}")
        self.pop = getattr(self.m, f"mc_{kind}pop")
        self.mcpop = getattr(self.m, f"mc_diffmah_{kind}pop")
        self.moments = self.m.predict_mah_moments_singlebin
        self.foreign = group("sat_only" if kind == "cen" else "cen_only")
        self.single_q = f"{self.q}:mc_diffmah_params_single{kind}"
        self.pop_q = f"{self.q}:mc_{kind}pop"
        self.mcpop_q = f"{self.q}:mc_diffmah_{kind}pop"
        self.moments_q = f"{self.q}:predict_mah_moments_singlebin"

    def tr_single(self, t_peak=False, **kw):
        a = (nt(P0), jx.spec(), jx.spec(), jx.keyspec(), jx.spec()) + ((jx.spec(),) if t_peak else ())
        return jx.trace(self.single, a, ["p", "lgm", "tobs", "key", "lgt0", "tpk"][:len(a)], **kw)

    def tr_pop(self, **kw):
        n, m = jx.dims("n,m", ["n>=1", "m>=1"])
        return jx.trace(self.pop, (nt(P0), jx.spec((m,)), jx.spec((n,)), jx.spec((n,)), jx.keyspec(), jx.spec()),
                        ["p", "t", "lgm", "tobs", "key", "lgt0"], **kw), n, m

    def tr_mcpop(self, t_peak=False, **kw):
        n, = jx.dims("n", ["n>=1"])
        a = (nt(P0), jx.spec((n,)), jx.spec((n,)), jx.keyspec(), jx.spec()) + ((jx.spec((n,)),) if t_peak else ())
        return jx.trace(self.mcpop, a, ["p", "lgm", "tobs", "key", "lgt0", "tpk"][:len(a)], **kw), n

    def tr_moments(self, **kw):
        m, = jx.dims("m", ["m>=1"])
        return jx.trace(self.moments, (nt(P0), jx.spec((m,)), jx.spec(), jx.spec(), jx.keyspec(), jx.spec()),
                        ["p", "t", "lgm", "tobs", "key", "lgt0"], **kw), m

    def tr_loss(self, **kw):
        b, m = jx.dims("b,m", ["b>=1", "m>=1"])
        return jx.trace(self.fit.loss_mah_moments_multibin,
                        (nt(P0), jx.spec((b, m)), jx.spec((b,)), jx.spec((b,)), jx.keyspec(), jx.spec(),
                         jx.spec((b, m)), jx.spec((b, m)), jx.spec((b, m))),
                        ["p", "t", "lgm", "tobs", "key", "lgt0", "tm", "ts", "tf"], **kw), b, m


def leaves_with_names(o):
    return [(jx.path_name(p), l) for p, l in
            jax.tree_util.tree_flatten_with_path(o, is_leaf=lambda x: isinstance(x, SymArr))[0]]


def at_generic(l):
    """Term of a SymArr leaf at generic indices."""
    return l.at(*[I(f"ix{d}") for d in range(l.ndim)])


def changed_by(t, names, pre="p."):
    """t with every parameter in names replaced by an independent value."""
    return tm.subst(t, {var(pre + k): var("alt." + k) for k in names})


# ---------------------------------------------------------------- concrete side
def np_params(d):
    return P0._replace(**{k: float(v) for k, v in d.items()})


def gen_pop_params(rng, sub=None):
    """In-bounds population parameters (name -> value); sub: how many names to randomise."""
    B = bounds()
    names = list(P0._fields)
    if sub is not None:
        names = list(rng.permutation(names)[:sub])
    edge = rng.random() < 0.3
    out = {}
    for k in names:
        lo, hi = B[k]
        f = rng.choice([0.001, 0.999]) if edge and rng.random() < 0.6 else rng.uniform(0.01, 0.99)
        out[k] = float(lo + f * (hi - lo))
    return out


def draws(rng, n):
    return dict(lgm=np.round(rng.uniform(10.5, 15.5, n), 3).tolist(), tobs=np.round(rng.uniform(0.6, 13.9, n), 3).tolist())


def key(seed):
    return jran.key(int(seed))


LGT0 = 1.14
