"""Cases, obligations, cross-checks and reports of one property."""
from __future__ import annotations
import hashlib, json, math, multiprocessing as mp, os, random, signal, sys, time, traceback
from contextlib import contextmanager
from fractions import Fraction
from . import terms as tm
from .terms import T
from . import engine, interp, builtins_, containers as C, prover as PV
from .engine import Ctx, use, ctx, InterpRaise

builtins_.install()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class Case:
    """One verification unit: fn(V) generates obligations.  kind 'proof' (unbounded) or 'bounded' (stated sizes)."""

    def __init__(self, name, fn, kind="proof", bound=None, fallback=None, thorough=False, budget=200, pure=None):
        self.name, self.fn, self.kind, self.bound = name, fn, kind, bound
        self.pure = pure
        self.fallback, self.thorough, self.budget = fallback, thorough, budget


def cases_of(mod):
    """the cases of a property; with STATEFUL unset the calls they make must leave what exists before them alone"""
    out = mod.cases()
    for c in out:
        for x in (c, c.fallback):
            if x is not None and x.pure is None:
                x.pure = not getattr(mod, "STATEFUL", False)
    return out


class V:
    """what a contract sees"""

    def __init__(self, c: Ctx):
        self.c = c
        self.covered = []

    def real(self, *names):
        r = [tm.var(n, tm.R) for n in names]
        return r if len(r) > 1 else r[0]

    def int(self, *names):
        r = [tm.var(n, tm.I) for n in names]
        return r if len(r) > 1 else r[0]

    def radix(self, *ns):
        """reason about row*n + col indices for these n"""
        from .lattice import Lattice
        if self.c.lattice is None:
            self.c.lattice = Lattice(self.c)
        self.c.lattice.radices += list(ns)

    def name_floor(self, x, n):
        """the integer n denotes floor(x)"""
        self.c.floors.append((tm.lift(x), tm.lift(n)))
        self.requires(tm.le(tm.toreal(tm.lift(n)), x), tm.lt(x, tm.add(tm.toreal(tm.lift(n)), 1)))

    def requires(self, *fs):
        for f in fs:
            self.c.assume(f)

    def known_nonzero(self, *ts):
        for t in ts:
            self.c.known_nonzero(t)

    def nonzero_for_all(self, k, n, *ts):
        """requires: each term is nonzero for all 0 <= k < n"""
        for t in ts:
            self.requires(tm.forall((k,), tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n)), tm.not_(tm.eq(t, 0)))))
            self.c.nz_patterns.append((k, tm.lift(n), tm.lift(t)))

    def explore(self, thunk):
        return self.c.explore(thunk)

    @contextmanager
    def under(self, p, *extra):
        m = self.c.mark()
        try:
            for f in (p.facts if hasattr(p, "facts") else [p]):
                self.c.assume(f)
            for f in extra:
                self.c.assume(f)
            yield
        finally:
            self.c.cut(m)

    def oblige(self, label, goal, timeout=None):
        g = goal if isinstance(goal, T) else tm.boolterm(goal)
        return self.c.oblige(label, g, timeout)

    def cover(self, label="requires"):
        """the current facts must not be contradictory"""
        ok = self.c.prover.smt(self.c.facts, tm.FALSE, 3000)[0] != "valid"
        self.c.obligations.append({"label": f"vacuity: {label} is satisfiable", "ok": ok, "backend": "z3", "seconds": 0,
                                   "goal": "facts not contradictory", "reason": "" if ok else "contradictory requires",
                                   "model": None, "path": None, "vac": True})

    def returns(self, label, thunk, ensures):
        """every path of thunk returns normally and satisfies ensures(value) (a term, or calls to V.oblige)"""
        ps = self.explore(thunk)
        ok = [p for p in ps if p.kind == "ok"]
        for p in ps:
            with self.under(p):
                if p.kind != "ok":
                    e = p.value
                    if os.environ.get("PYDV_DEBUG"):
                        print("RAISE", type(e).__name__, e, [str(f)[:150] for f in p.facts])
                    self.oblige(f"{label}: does not raise {type(e).__name__ if isinstance(e, BaseException) else e}", False)
                else:
                    r = ensures(p.value)
                    if r is not None:
                        self.oblige(f"{label}", r)
        if not ok:
            self.oblige(f"{label}: some path returns", False)
        return ps

    def raises(self, label, thunk, exc):
        """every path of thunk raises exc"""
        ps = self.explore(thunk)
        for p in ps:
            with self.under(p):
                if p.kind == "raise" and isinstance(p.value, exc):
                    self.oblige(f"{label}: raises {exc.__name__ if isinstance(exc, type) else exc}", True)
                else:
                    what = "returns" if p.kind == "ok" else f"raises {type(p.value).__name__}"
                    self.oblige(f"{label}: {what} instead of raising", False)
        return ps


def run_case(case, tier):
    c = Ctx()
    t0 = time.time()
    interp.USED.clear()
    for k in PV.STATS:
        PV.STATS[k] = 0
    c.deadline = t0 + case.budget
    out = {"case": case.name, "kind": case.kind, "bound": case.bound, "status": "ok", "error": None}
    v = V(c)
    v.tier = tier
    interp.PURE[0] = bool(case.pure)
    try:
        with use(c):
            case.fn(v)
    except (tm.SymError, RecursionError, NotImplementedError) as e:
        out["status"] = "unsupported"
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc(limit=-6)
    except InterpRaise as e:
        out["status"] = "failed"
        out["error"] = f"uncaught {type(e.exc).__name__}: {e.exc}"
        c.obligations.append({"label": f"{case.name}: no exception", "ok": False, "backend": "engine", "seconds": 0, "goal": "",
                              "reason": out["error"], "model": None, "path": None})
    except Exception as e:
        out["status"] = "unsupported"
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc(limit=-8)
    out["obligations"] = [dict(o, label=f"{case.name} / {o['label']}") for o in c.obligations]
    if out["status"] == "ok" and not [o for o in c.obligations if not o.get("vac")]:
        out["status"] = "unsupported"
        out["error"] = "no obligation generated"
    out["functions"] = dict(interp.USED)
    out["assumptions"] = sorted(c.assumptions)
    out["stats"] = dict(PV.STATS)
    out["seconds"] = round(time.time() - t0, 2)
    return out


def _child(case, tier, conn):
    try:
        sys.setrecursionlimit(20000)
        r = run_case(case, tier)
        conn.send_bytes(json.dumps(r, default=str).encode())
    except BaseException as e:   # noqa
        try:
            conn.send_bytes(json.dumps({"case": case.name, "kind": case.kind, "bound": case.bound, "status": "unsupported",
                                        "error": f"{type(e).__name__}: {e}", "obligations": [], "functions": {},
                                        "assumptions": [], "stats": {}, "seconds": 0,
                                        "trace": traceback.format_exc(limit=-8)}).encode())
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_cases(cases, tier, jobs=8, limit=600):
    """cases in parallel processes; a case that overruns is stopped and reported as unsupported"""
    mpc = mp.get_context("fork")
    todo = list(enumerate(cases))
    todo.sort(key=lambda t: -t[1].budget)
    running = {}
    res = [None] * len(cases)
    t_end = time.time() + limit
    while todo or running:
        while todo and len(running) < jobs:
            i, cs = todo.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=_child, args=(cs, tier, b), daemon=True)
            p.start()
            b.close()
            running[i] = (p, a, time.time(), cs)
        for i, (p, a, t0, cs) in list(running.items()):
            got = None
            if a.poll(0.01):
                try:
                    got = json.loads(a.recv_bytes().decode())
                except EOFError:
                    got = stopped(cs, "worker ended without a result")
            elif time.time() - t0 > cs.budget * 1.5 + 30 or time.time() > t_end:
                got = stopped(cs, "time budget exhausted")
            if got is not None:
                res[i] = got
                if p.is_alive():
                    p.kill()
                p.join()
                a.close()
                del running[i]
        time.sleep(0.005)
    return res


def stopped(cs, why):
    return {"case": cs.name, "kind": cs.kind, "bound": cs.bound, "status": "unsupported", "error": why, "obligations": [],
            "functions": {}, "assumptions": [], "stats": {}, "seconds": cs.budget}


# ------------------------------------------------------------------ running the real code on concrete cases
def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


def run_concrete(mod, case):
    """None when the real code meets the contract on this input, else a message"""
    try:
        return mod.run(case)
    except AssertionError as e:
        return f"assertion: {e}"
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}"


def as_ints(v):
    """whole numbers as int objects"""
    if isinstance(v, float) and v.is_integer() and abs(v) < 2 ** 50:
        return int(v)
    if isinstance(v, list):
        return [as_ints(x) for x in v]
    if isinstance(v, tuple):
        return tuple(as_ints(x) for x in v)
    if isinstance(v, dict):
        return {k: as_ints(x) for k, x in v.items()}
    return v


def _ccchild(mod, jobs, conn):
    n, fails, distinct, samples = 0, [], set(), []
    try:
        import warnings
        warnings.simplefilter("ignore")
        for seed, t_end in jobs:
            rng = random.Random(seed)
            for case in mod.gen(rng, TIER):
                if time.time() > t_end:
                    break
                n += 1
                if rng.random() < 0.3:
                    case = as_ints(case)
                distinct.add(digest(case))
                if len(samples) < 2:
                    samples.append(case)
                m = run_concrete(mod, case)
                if m is not None:
                    fails.append((case, m))
                    if len(fails) > 3:
                        break
        conn.send_bytes(json.dumps({"n": n, "fails": fails, "distinct": sorted(distinct), "samples": samples}, default=str).encode())
    except BaseException as e:
        conn.send_bytes(json.dumps({"n": n, "fails": fails, "distinct": [], "samples": samples,
                                    "error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc(limit=-6)}).encode())
    finally:
        conn.close()
        os._exit(0)


def cross_check(mod, seeds, seconds, procs=4):
    mpc = mp.get_context("fork")
    t_end = time.time() + seconds
    ch = []
    for j in range(procs):
        mine = [(s, t_end) for s in seeds[j::procs]]
        if not mine:
            continue
        a, b = mpc.Pipe(False)
        p = mpc.Process(target=_ccchild, args=(mod, mine, b), daemon=True)
        p.start()
        b.close()
        ch.append((p, a))
    tot = {"n": 0, "fails": [], "distinct": set(), "samples": [], "error": None}
    for p, a in ch:
        if a.poll(max(1, t_end - time.time() + 60)):
            try:
                r = json.loads(a.recv_bytes().decode())
            except EOFError:
                r = {"n": 0, "fails": [], "distinct": [], "samples": [], "error": "worker ended"}
        else:
            r = {"n": 0, "fails": [], "distinct": [], "samples": [], "error": "timeout"}
        if p.is_alive():
            p.kill()
        p.join()
        tot["n"] += r["n"]
        tot["fails"] += r["fails"]
        tot["distinct"] |= set(r["distinct"])
        tot["samples"] += r["samples"][:1]
        if r.get("error"):
            tot["error"] = r["error"] + " " + r.get("trace", "")
    return tot
