"""Specification of the single-halo model, written from its definition (not from the code)."""
from fractions import Fraction
import numpy as np
from ..lib import *

BOUNDS = dict(logm0=(0, 17), logtc=(-1, 1), early_index=(Fraction(1, 10), 10), late_index=(Fraction(1, 10), 5),
              t_peak=(Fraction(1, 20), 20))
NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak")
K = Fraction(7, 2)


def index(p, logt):
    return add(p["early_index"], mul(sub(p["late_index"], p["early_index"]), sig(mul(num(K), sub(logt, p["logtc"])))))


def free(p, t, lgt0):
    lt_ = log10(t)
    return add(mul(index(p, lt_), sub(lt_, lgt0)), p["logm0"])


def logmah(p, t, lgt0):
    return ite(lt(t, p["t_peak"]), free(p, t, lgt0), free(p, p["t_peak"], lgt0))


def np_free(p, t, lgt0):
    logm0, logtc, early, late, tp = p
    x = np.log10(t)
    a = np_sigmoid(x, logtc, 3.5, early, late)
    return a * (x - lgt0) + logm0


def np_logmah(p, t, lgt0):
    t = np.asarray(t, float)
    return np_free(p, np.minimum(t, p[4]), lgt0)


def np_rate(p, t, lgt0):
    """d/dt 10**free /1e9, zero after t_peak."""
    logm0, logtc, early, late, tp = p
    t = np.asarray(t, float)
    x = np.log10(t)
    s = np_sig(3.5 * (x - logtc))
    a = early + (late - early) * s
    da = (late - early) * 3.5 * s * (1 - s)
    L = a * (x - lgt0) + logm0
    r = 10 ** L * (a + da * (x - lgt0)) / t / 1e9
    return np.where(t > tp, 0.0, r)


def np_bounded(u):
    b = {k: tuple(float(x) for x in v) for k, v in BOUNDS.items()}
    f = lambda x, lo, hi: np_sigmoid(x, 0.5 * (lo + hi), 0.1, lo, hi)
    logm0 = f(u[0], *b["logm0"])
    logtc = f(u[1], *b["logtc"])
    late = f(u[3], *b["late_index"])
    early = np_sigmoid(u[2], 0.0, 0.1, late, b["early_index"][1])
    tp = f(u[4], *b["t_peak"])
    return np.array([logm0, logtc, early, late, tp])


def gen_params(rng, n):
    """Random admissible halo parameters, with corner cases mixed in."""
    logm0 = rng.uniform(8, 16, n)
    logtc = rng.uniform(-0.99, 0.99, n)
    late = rng.uniform(0.11, 4.9, n)
    early = late + rng.uniform(0.001, 1, n) * (9.9 - late)
    tp = rng.uniform(0.06, 19.5, n)
    k = rng.integers(0, 6)
    if k == 0:
        early = late + 0.001
    if k == 1:
        tp = rng.uniform(14, 19.9, n)
    if k == 2:
        late = np.full(n, 0.1001)
        early = np.full(n, 9.99)
    if k == 3:
        tp = np.full(n, 0.3)
    return np.array([logm0, logtc, early, late, tp])


def gen_times(rng, m, p=None):
    t = np.sort(rng.uniform(0.05, 20, m))
    if p is not None and m:
        t[rng.integers(0, m)] = p[4][rng.integers(0, p.shape[1])]
    return t
