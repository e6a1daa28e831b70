"""Driver: python -m vf.check C01 [quick|thorough]

Per property module vf/props/c01.py:
  FUNCTIONS   list of "module:function" brought under contract
  obligations(R)   generates and discharges the obligations from the current source of /repo
  CASES       {name: Case}: contract clauses evaluated on the real code (replay of counterexamples,
              bounded stand-in where an obligation is undecided)
"""
import os
import sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["JAX_ENABLE_X64"] = "0" if os.environ.get("VF_F32") == "1" else "1"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
for p in (VERIF, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
import importlib
import json
import signal
import subprocess
import threading
import time
import traceback
import warnings
warnings.filterwarnings("ignore")
import numpy as np


class Undecided(Exception):
    """The obligation could not be generated from the current source."""


class OutOfTime(BaseException):
    """The time given to a group of obligations or to a clause is used up: no verdict about it."""


class Clock:
    """Nested time limits by SIGALRM (main thread); the innermost running limit raises OutOfTime."""
    stack = []

    def __init__(self, secs, start=None):
        self.until = (time.time() if start is None else start) + secs

    def __enter__(self):
        if Clock.stack:
            self.until = min(self.until, Clock.stack[-1].until)
        Clock.stack.append(self)
        Clock.arm()
        return self

    def __exit__(self, *a):
        Clock.stack.pop()
        Clock.arm()
        return False

    @staticmethod
    def arm():
        if Clock.stack:
            signal.setitimer(signal.ITIMER_REAL, max(0.05, Clock.stack[-1].until - time.time()))
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def ring(*_):
        signal.setitimer(signal.ITIMER_REAL, 5)      # again, should this one be lost in a callback
        raise OutOfTime("time limit")


# seconds: one group of obligations, all obligations, one evaluation of a clause, all clauses, whole run
LIMITS = {"quick": (300, 500, 120, 720, 840), "thorough": (3600, 4 * 3600, 600, 5 * 3600, 6 * 3600)}


class Case:
    """A contract clause evaluated on the real code.

    check(**args) -> list of failure messages (empty: the clause held); args must be JSON data.
    gen(rng, n) -> iterable of args, boundary values first.
    """

    def __init__(self, check, gen, n_quick=40, n_thorough=400, covers=""):
        self.check, self.gen, self.n_quick, self.n_thorough, self.covers = check, gen, n_quick, n_thorough, covers


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist())
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x
    return float(x)


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []            # dict(name, fn, status, backend, secs, detail)
        self.undecided = []      # (what, why)
        self.failures = []       # concrete: dict(case, args, msgs)
        self.notes = []
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.reach = []
        self.crosschecks = 0
        self.case_errors = []
        self.witnesses = []      # (case, args) suggested by counter-models
        self.limits = LIMITS.get(tier, LIMITS["quick"])
        self.stateful = []       # places where a call may leave state behind (vf/frame.py)
        self.before = {}         # case -> the evaluations so far (recorded when there are such places)

    # ---------------- obligations
    def prove(self, name, fn, hyps, goal, witness=None, timeout=None, vacuity=True):
        """Discharge hyps |= goal (terms). fn: the function the obligation was generated from."""
        from . import prove as pv
        r = pv.prove(list(hyps), goal, timeout=timeout)
        self._record(name, fn, r, hyps, goal, witness)
        return r.ok

    def _record(self, name, fn, r, hyps, goal, witness=None):
        d = dict(name=name, function=fn, status=r.status, backend=r.backend, secs=round(r.secs, 4), detail=r.detail)
        self.obl.append(d)
        if r.status != "proved":
            d["goal"] = str(goal)[:2000]
            d["hyps"] = [str(h)[:300] for h in hyps]
            if r.model:
                d["model"] = {str(k): v for k, v in list(r.model.items())[:60]}
                if witness:
                    try:
                        w = witness({str(k): v for k, v in r.model.items() if v is not None})
                        if w:
                            self.witnesses.append(w)
                    except Exception as e:
                        d["witness_error"] = repr(e)

    def fact(self, name, fn, ok, backend="syntactic", detail=""):
        """An obligation decided by direct inspection of the extracted program."""
        self.obl.append(dict(name=name, function=fn, status="proved" if ok else "refuted", backend=backend,
                             secs=0.0, detail=detail))
        return ok

    def reachable(self, name, hyps):
        """Vacuity guard: the precondition must be satisfiable."""
        from . import prove as pv
        from . import terms as tm
        try:
            r, m, _, _ = pv.z3_check(list(hyps), tm.FALSE, timeout=5000)
        except Exception as e:
            r = "unknown"
        self.reach.append((name, r))
        if r == "unsat":
            raise RuntimeError(f"vacuous precondition: {name}")

    def guard(self, what):
        return Guard(self, what)

    # ---------------- concrete clauses
    def run_cases(self, cases, boost=1, patience=None):
        for name, c in cases.items():
            n = c.n_quick if self.tier == "quick" else c.n_thorough
            rng = np.random.default_rng([self.seed, sum(map(ord, self.pid + name)), boost])
            todo = [w[1] for w in self.witnesses if w[0] == name]
            k = 0
            t0 = time.time()
            lim = float(os.environ.get("VF_CASE_SECS", "60" if self.tier == "quick" else "300"))
            for args in list(todo) + [None]:
                it = [args] if args is not None else c.gen(rng, n * boost)
                for a in it:
                    if self.run_case(name, c, a):
                        break
                    k += 1
                    if time.time() - self.t0 > self.limits[3]:
                        self.notes.append(f"case {name}: stopped after {k} evaluations (end of the time for clauses)")
                        break
                    if time.time() - t0 > lim * (patience or boost):
                        self.notes.append(f"case {name}: stopped after {k} evaluations ({lim * (patience or boost):.0f}s)")
                        break

    def run_case(self, name, c, args):
        args = jsonable(args)
        key = name + json.dumps(args, sort_keys=True)
        try:
            with Clock(self.limits[2]), Clock(self.limits[3], self.t0):
                msgs = c.check(**args)
        except OutOfTime:
            self.undecided.append((f"case {name}", f"evaluation stopped after {self.limits[2]} s or at the end of the time for clauses"))
            return True
        except Undecided as e:
            self.undecided.append((f"case {name}", str(e)))
            return True
        except (ImportError, AttributeError) as e:
            # a name the clause is anchored to no longer exists: not a verdict about behaviour
            tb = traceback.extract_tb(e.__traceback__)
            if any("/diffmah/" in f.filename for f in tb[-1:]):
                msgs = [f"raised {type(e).__name__}: {e}"]
            else:
                self.undecided.append((f"case {name}", repr(e)))
                return True
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(REPO in f.filename for f in tb):
                msgs = [f"raised {type(e).__name__}: {e}"]
            else:
                self.case_errors.append((name, args, traceback.format_exc()))
                return True
        self.evaluations += 1
        self.distinct.add(hash(key))
        if len(self.samples) < 3:
            self.samples.append({"case": name, "args": json.loads(json.dumps(args))} if len(key) < 1500 else
                                {"case": name, "args": key[:600] + "..."})
        past = self.before.setdefault(name, [])
        if msgs:
            self.failures.append(dict(case=name, args=args, msgs=[str(m) for m in msgs], before=past[-4:]))
            return True
        if self.stateful:
            past.append(args)
        return False

    def run_history(self, cases, secs=120):
        """Some function may keep state between calls: evaluate the clauses after histories of related calls, in particular calls whose
        arguments agree but for one.  A clause that fails so, but holds for the same arguments in a fresh process, is violated by the
        history."""
        t0, tried = time.time(), 0
        same_temp_names()
        os.environ["VF_HISTORY"] = "1"
        todo = {}
        for name, c in cases.items():
            rng = np.random.default_rng([self.seed, 7, sum(map(ord, self.pid + name))])
            try:
                for a in c.gen(rng, 6):
                    todo.setdefault(name, []).append(jsonable(a))
                    if len(todo[name]) >= 8 or time.time() - t0 > secs / 4:
                        break
            except Exception:
                pass
        t0 = time.time()
        for k, (name, args) in enumerate(todo.items()):
            if self.failures:
                break
            c, until = cases[name], t0 + secs * (k + 1) / len(todo)
            pairs = [(x, y) for d in (1, 2, 3) for x, y in zip(args, args[d:])]
            for x, y in pairs:
                if time.time() > min(until, self.t0 + self.limits[3]) or self.failures:
                    break
                for z in hybrids(x, y):
                    if time.time() > min(until, self.t0 + self.limits[3]):
                        break
                    if self.quiet_check(name, c, x):      # not a call the clause speaks about (or a plain failure, reported above)
                        break
                    tried += 1
                    msgs = self.quiet_check(name, c, z)
                    if msgs and fresh_holds(self.pid, name, z) and not fresh_holds(self.pid, name, z, [x]):
                        self.failures.append(dict(case=name, args=z, before=[x],
                                                  msgs=["after the call(s) in `before`, not in a fresh process: " + str(m) for m in msgs]))
                        break
        self.notes.append(f"histories: {tried} evaluations after a related call (a function may keep state between calls)")

    def quiet_check(self, name, c, args):
        try:
            with Clock(self.limits[2]), Clock(self.limits[3], self.t0):
                m = c.check(**json.loads(json.dumps(args)))
            self.evaluations += 1
            return m
        except OutOfTime:
            return []
        except Undecided:
            return []
        except Exception as e:
            return [f"raised {type(e).__name__}: {e}"]


def hybrids(x, y):
    """x itself, y, and x with one of its arguments (or elements) replaced by the corresponding one of y."""
    out = [x, y]

    def put(a, path, v):
        if not path:
            return v
        b = dict(a) if isinstance(a, dict) else list(a)
        b[path[0]] = put(a[path[0]], path[1:], v)
        return b

    def num(v):
        return isinstance(v, (int, float)) and not isinstance(v, bool)

    def walk(a, b, path, depth=0):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in a:
                if k in b:
                    walk(a[k], b[k], path + [k], depth + 1)
            return
        if json.dumps(a) != json.dumps(b):
            out.append(put(x, path, b))
        if isinstance(a, list) and a:
            if all(num(v) for v in a):
                for i in sorted({len(a) // 2, 1, len(a) - 2, 0, len(a) - 1}):
                    if 0 <= i < len(a):
                        lo, hi = a[max(i - 1, 0)], a[min(i + 1, len(a) - 1)]
                        v = (a[i] + (hi if hi != a[i] else lo)) / 2 if isinstance(a[i], float) else a[i] + 1
                        if v != a[i]:
                            out.append(put(x, path + [i], v))
            elif depth < 4 and isinstance(b, list):
                for i in range(min(len(a), len(b), 3)):
                    walk(a[i], b[i], path + [i], depth + 1)
        elif isinstance(a, float):
            out.append(put(x, path, a * 1.01 + 1e-3))
        elif num(a):
            out.append(put(x, path, a + 1))
    walk(x, y, [])
    return out[:40]


def same_temp_names():
    """Scratch files of successive evaluations get the same names (state keyed by file name)."""
    import tempfile

    tempfile._get_candidate_names = lambda: iter([f"vf{os.getpid()}_{k}" for k in range(1000)])


def fresh_holds(pid, case, args, before=()):
    """The clause in a fresh process, after the calls `before`: True unless it is violated there."""
    code = ("import sys,json; sys.path.insert(0, %r); from vf.replay import main; d = json.load(sys.stdin); main(*d)" % VERIF)
    try:
        r = subprocess.run([sys.executable, "-c", code], input=json.dumps([pid, case, args, list(before)]), text=True,
                           capture_output=True, timeout=120, env={**os.environ, "VF_REPO": REPO})
    except subprocess.TimeoutExpired:
        return True
    return not (r.returncode == 1 and "VIOLATED" in r.stdout)


class Guard:
    """Extraction trouble inside is recorded as undecided, never as a violation."""

    def __init__(self, R, what):
        self.R, self.what = R, what

    def __enter__(self):
        self.clock = Clock(self.R.limits[0] if self.what != "obligations" else self.R.limits[1])
        self.clock.__enter__()
        return self

    def __exit__(self, et, e, tb):
        self.clock.__exit__()
        if et is None:
            return False
        if et is OutOfTime:
            if len(Clock.stack) and time.time() >= Clock.stack[-1].until:
                return False
            self.R.undecided.append((self.what, "not decided in the time given to this group of obligations"))
            return True
        if et is KeyboardInterrupt or et is SystemExit:
            return False
        from .jx import Unsupported
        full = traceback.format_exc()
        if issubclass(et, (Unsupported, Undecided)) or True:
            self.R.undecided.append((self.what, f"{et.__name__}: {e}"))
            if os.environ.get("VF_DEBUG"):
                print(full)
            return True


def lean_start():
    f = os.path.join(VERIF, "lean", "Lemmas.lean")
    if not os.path.exists(f) or os.environ.get("VF_NOLEAN"):
        return None
    try:
        return (time.time(), subprocess.Popen(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                              cwd=os.path.dirname(f), text=True))
    except OSError:
        return None


def lean_finish(h, timeout=400):
    if h is None:
        return "not run", 0.0
    t0, p = h
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return "timeout", time.time() - t0
    if p.returncode == 0 and "error" not in out and "sorry" not in out:
        return "accepted", time.time() - t0
    return "rejected: " + out[:500], time.time() - t0


def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                out.append(line)
    return out


REPLAY = '''#!/opt/venv/bin/python
"""Replay of a violation of {pid} found on {when}.
{msg}
Run: /opt/venv/bin/python {path}   (exit 1 while the violation is present)
"""
import json
import sys
sys.path.insert(0, {verif!r})
from vf.replay import main
main({pid!r}, {case!r}, {args}, {before})
'''


def py_literal(x):
    return "json.loads(r'''" + json.dumps(x) + "''')"


def write_replay(R, fail, k):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{R.pid}_{k}.py")
    with open(path, "w") as f:
        f.write(REPLAY.format(pid=R.pid, when=time.strftime("%F %T"), msg="\n".join(fail["msgs"])[:3000].replace('"""', "'''").replace("\\", "/"),
                              path=path, verif=VERIF, case=fail["case"], args=py_literal(fail["args"]), before=py_literal(fail.get("before") or [])))
    return path


def write_obl_replay(R, bad):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{R.pid}_obligation.txt")
    with open(path, "w") as f:
        for o in bad:
            f.write(json.dumps(o, indent=1, default=str) + "\n")
    return path


def main(argv):
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    R = Run(pid, tier, seed)
    lean = lean_start()
    import jax
    from . import frame, jx, prove as pv
    jx.set_float(os.environ["JAX_ENABLE_X64"] == "1")
    mod = importlib.import_module(f"vf.props.{pid.lower()}")
    signal.signal(signal.SIGALRM, Clock.ring)

    def stop():
        # last resort: a solver call that does not return
        R.undecided.append(("the rest of the run", f"stopped after {R.limits[4]} s"))
        rc = report(R, mod, "not waited for", 0.0, time.time() - R.t0)
        sys.stdout.flush()
        os._exit(rc)
    dog = threading.Timer(R.limits[4], stop)
    dog.daemon = True
    dog.start()
    with R.guard("obligations"):
        mod.obligations(R)
    for site, what in sorted(jx.SIZE_BRANCHES.items()):
        R.undecided.append((site, f"the code compares a symbolic size ({what}); obligations cover the sizes for which "
                                  "this is false, the others only the bounded clauses"))
    t_obl = time.time() - R.t0
    cases = getattr(mod, "CASES", {})
    R.stateful = frame.scan(REPO)
    if not R.stateful:
        R.fact("frame condition: no call changes state of a module of diffmah, so what holds of one call holds after any history of calls",
               "diffmah (every function)", True, "syntactic")
    else:
        for where, line, what in R.stateful[:5]:
            R.undecided.append(("frame condition", f"{where}:{line}: {what}; histories of calls are only explored by the bounded clauses"))
    R.run_cases(cases)
    if R.stateful and not R.failures:
        R.run_history(cases)
    bad = [o for o in R.obl if o["status"] != "proved"]
    if (bad or any(not w.startswith("case ") for w, _ in R.undecided)) and not R.failures:
        # search harder for a failing input for the failed obligations, and where obligations could not be decided
        R.run_cases(cases, boost=3 if tier == "quick" else 5, patience=None if bad else 1)
    lean_status, lean_secs = lean_finish(lean, timeout=max(1, min(400, R.limits[4] - 20 - (time.time() - R.t0))))
    dog.cancel()
    if lean_status.startswith("rejected"):
        print("ERROR: lemma schemas rejected by Lean:", lean_status)
        return 2
    return report(R, mod, lean_status, lean_secs, t_obl)


def report(R, mod, lean_status, lean_secs, t_obl):
    pid, tier, rc = R.pid, R.tier, 0
    bad = [o for o in R.obl if o["status"] != "proved"]
    kf = known_findings(pid)
    reported = []
    suppressed = []
    for f in R.failures:
        k = [l for l in kf if f" case={f['case']} " in l + " " and any(t in " ".join(f["msgs"]) for t in [l.split(" match=")[1].split(" what=")[0]] if t)] if kf else []
        (suppressed if k else reported).append(f)
    for l in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, l.split(" what=")[-1]))
    nproved = sum(o["status"] == "proved" for o in R.obl)
    for what, why in R.undecided:
        print(f"UNDECIDED {pid}: {what}: {why}"[:400])
    for n, a, tb in R.case_errors:
        print(f"CASE-ERROR {pid}: {n}: {tb}"[-1500:])
    if reported:
        for k, f in enumerate(reported[:5]):
            path = write_replay(R, f, k)
            print("  ", f["case"], "|", "; ".join(f["msgs"])[:500])
            print(f"VIOLATION property={pid} replay={path}")
        for o in bad[:5]:
            print(f"  failed obligation: {o['name']} [{o['function']}] {o['status']}")
        rc = 1
    elif bad:
        path = write_obl_replay(R, bad)
        for o in bad[:8]:
            print(f"  failed obligation: {o['name']} [{o['function']}] {o['status']} {o['detail'][:200]}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1
    if not R.obl and not R.evaluations:
        print("ERROR: nothing was checked")
        return 2
    write_evidence(R, mod, nproved, bad, reported, lean_status, lean_secs, t_obl)
    print(f"{pid} {tier}: {nproved}/{len(R.obl)} obligations discharged, {len(R.undecided)} undecided, "
          f"{R.evaluations} concrete contract evaluations, lean lemmas {lean_status}, {time.time() - R.t0:.1f}s")
    return rc


def write_evidence(R, mod, nproved, bad, reported, lean_status, lean_secs, t_obl):
    from . import prove as pv, jx
    by = {}
    for o in R.obl:
        if o["status"] == "proved":
            e = by.setdefault(o["backend"] or "simplify", dict(discharged=0, solver_s=0.0))
            e["discharged"] += 1
            e["solver_s"] = round(e["solver_s"] + o["secs"], 3)
    fns = sorted(set(getattr(mod, "FUNCTIONS", [])) | set(o["function"] for o in R.obl if o["function"]))
    assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    assumptions += ["machine arithmetic treated as exact real arithmetic (floating-point rounding, overflow and "
                    "underflow are outside the proofs); python literals are read as the decimal they print as"]
    trusted = ["vf engine: jaxpr-to-term translation, ring normaliser, purification (/verif/vf)",
               "jax tracing: the traced program is the program that runs", "z3 " + pv.z3.get_version_string(), "cvc5",
               "lean 4 + Mathlib for the lemma schemas"]
    trusted += sorted(jx.LIB_CONTRACTS_USED) + sorted(getattr(mod, "TRUSTED", []))
    level = getattr(mod, "LEVEL", "proof")
    ev = dict(property=R.pid, tier=R.tier if R.tier in ("quick", "thorough") else "quick", seed=R.seed, level=level,
              coverage=dict(
                  obligations=len(R.obl), discharged=nproved,
                  checker_cmd=f"/verif/bin/check {R.pid} {R.tier}",
                  trusted_base=trusted,
                  by_backend=by, solver_seconds=round(sum(o["secs"] for o in R.obl), 3),
                  obligation_wall_s=round(t_obl, 2),
                  functions_under_contract=fns,
                  jitted_bodies_interpreted=sorted(x for x in jx.TRACED if x not in jx.LIB_HANDLERS),
                  obligation_names=[f"{o['name']} [{o['function']}] {o['status']} ({o['backend']})" for o in R.obl][:400],
                  undecided=[f"{a}: {b}"[:300] for a, b in R.undecided],
                  lemma_schemas_used=sorted(pv.STATS["lean-lemmas"]), lean=lean_status, lean_s=round(lean_secs, 1),
                  precondition_reachability=[f"{n}: {r}" for n, r in R.reach],
                  extraction_crosschecks=R.crosschecks,
                  evaluations=R.evaluations, distinct_nontrivial=len(R.distinct),
                  rule="contract clauses evaluated on the real code at boundary values, seeded random values and "
                       "solver counter-models; bounded, never counted as proved; distinct = distinct argument sets",
                  bounded_standins=[f"{n}: {c.covers}" for n, c in getattr(mod, "CASES", {}).items() if c.covers],
                  samples=R.samples, notes=R.notes),
              assumptions=assumptions, wall_s=round(time.time() - R.t0, 2),
              violations=len(reported) or (1 if bad else 0))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{R.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
