"""C24: calls leave no trace: neither the caller's arguments nor the modules are changed, and results do not depend on earlier calls."""
import importlib
import itertools
import os
from .. import frame, check
from ..check import Case, Undecided, REPO
from ..monitor import Monitor

FUNCTIONS = []
ASSUMPTIONS = ["library calls (numpy, h5py, astropy, ...) return new objects, except those listed in vf/frame.py:ALIASING, and do not change their "
               "arguments, except through out=, copyto, put, place, putmask, shuffle, fill_diagonal and put_along_axis",
               "jax arrays and traced values are immutable",
               "boolean-mask and integer indexing is taken to share memory with its operand (sound: it may only do less)"]
TRUSTED = ["the ownership analysis of vf/frame.py (syntactic, flow-insensitive, interprocedural)"]

# evaluations of the clauses of these properties exercise the public functions of the package
SOURCES = [f"C{k:02d}" for k in range(1, 24)]


def obligations(R):
    p = frame.Pkg(REPO)
    st = frame.scan(REPO)
    n, bad = frame.arguments(REPO)
    of = {}
    for k in p.fn:
        of.setdefault(k[0], []).append(k[1])
    for m, fns in sorted(of.items()):
        rel = m[len("diffmah/"):]
        s = [x for x in st if x[0].split(":")[0] in (rel + ".py", rel + "/__init__.py")]
        b = [x for x in bad if x[0].split(":")[0] == m]
        pub = [f for f in fns if not f.startswith("_")]
        what = f"{m} ({len(fns)} functions)"
        FUNCTIONS.extend(f"{m.replace('/', '.')}:{f}" for f in fns)
        if s:
            R.undecided.append((what, f"may keep state: {s[0][0]}:{s[0][1]}: {s[0][2]}"))
        else:
            R.fact("modifies nothing that outlives the call but the caller's objects", what, True, "frame (ownership) analysis")
        if b:
            R.undecided.append((what, f"may write to an argument: {b[0][0]}:{b[0][1]}: {b[0][2]}"))
        elif pub:
            R.fact("no public function writes to an object of its caller", what, True, "frame (ownership) analysis")
    R.notes.append(f"{n} functions analysed")
    global CHOSEN, N_CALLS
    if R.tier != "quick":
        CHOSEN, N_CALLS = set(SOURCES), 40
    if R.undecided:
        CHOSEN, N_CALLS = relevant([x[0] for x in st + bad]), 8      # what the analysis does not show is looked for on real calls


def relevant(places):
    """The properties whose clauses exercise the functions (or else the modules) of these places."""
    score = {}
    for w in places:
        f, _, fn = w.partition(":")
        stem = os.path.basename(f)[:-3] if f.endswith(".py") else os.path.basename(f)
        for prop in SOURCES:
            for q in getattr(module(prop), "FUNCTIONS", []):
                m, _, g = q.partition(":")
                if m.replace("/", ".").split(".")[-1] == stem:
                    score[prop] = max(score.get(prop, 0), 2 if g == fn else 1)
    best = max(score.values(), default=0)
    return {k for k, v in score.items() if v == best} or set(SOURCES)


def module(pid):
    return importlib.import_module("vf.props." + pid.lower())


def check_args(prop, case, args):
    """Evaluate a clause of another property under the monitor: no public call changes its arguments.  When some function may keep state,
    the clause itself is also required after histories of calls ( it must not hold or fail depending on earlier calls)."""
    mod = module(prop)
    if case not in mod.CASES:
        raise Undecided("no such clause")
    with Monitor(variants=not os.environ.get("VF_HISTORY")) as m:
        try:
            msgs = mod.CASES[case].check(**args)
        except (Undecided, check.OutOfTime):
            raise
        except Exception as e:
            msgs = [f"raised {type(e).__name__}: {e}"]
    return m.msgs + (list(msgs or []) if os.environ.get("VF_HISTORY") else [])


LIGHT = ("C06", "C14", "C15", "C18", "C20", "C21", "C22")
CHOSEN = set(LIGHT)
N_CALLS = 2


def gen_for(prop, name):
    def gen(rng, n):
        k = N_CALLS * (n if n <= 3 else 1) * (4 if prop in LIGHT else 1) if prop in CHOSEN else 0
        for a in itertools.islice(module(prop).CASES[name].gen(rng, max(n, k)), k):
            yield dict(prop=prop, case=name, args=a)
    return gen


def cases():
    out = {}
    for prop in SOURCES:
        try:
            mod = module(prop)
        except Exception:
            continue
        for nm, c in mod.CASES.items():
            out[f"{prop}-{nm}"] = Case(check_args, gen_for(prop, nm), 1, max(4, c.n_thorough // 8), covers="arguments of the public functions unchanged, observed on real calls" if not out else "")
    return out


CASES = cases()
