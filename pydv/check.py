"""python -m pydv.check Cxx : decide one property on /repo's current working tree."""
from __future__ import annotations
import importlib, json, os, sys, time, traceback

T0 = time.time()


def known_findings(pid):
    out = []
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known:") and f"property={pid} " in ln:
                out.append(ln[len("known:"):].strip())
    return out


def main(pid):
    from . import framework as F
    from .framework import ROOT, SEED, TIER
    mod = importlib.import_module(f"pydv.props.{pid}")
    try:
        cases = [c for c in F.cases_of(mod) if TIER == "thorough" or not c.thorough]
        prep = None
    except Exception as e:
        cases, prep = [], f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-5)}"
    # the contracts on concrete inputs, executed by CPython on the real code
    nseeds = getattr(mod, "SEEDS", 8) * (1 if TIER == "quick" else 6)
    cc = F.cross_check(mod, [SEED * 100003 + j for j in range(nseeds)], getattr(mod, "SECONDS", 40) * (1 if TIER == "quick" else 4))
    # every obligation, by the verifier (less time for the rest when a failing input of the real code is already known)
    res = F.run_cases(cases, TIER, limit=120 if cc["fails"] else 520 if TIER == "quick" else 620)
    # cases outside the verifier's reach on this tree: the same contract with stated finite sizes
    fb = [(i, c.fallback) for i, (c, r) in enumerate(zip(cases, res)) if r["status"] == "unsupported" and c.fallback]
    fbres = F.run_cases([c for _, c in fb], TIER, limit=200) if fb else []
    bounded_for = {}
    for (i, c), r in zip(fb, fbres):
        bounded_for[i] = r
    obs = []
    for r in res + fbres:
        obs += [dict(o, case_kind=r["kind"]) for o in r["obligations"]]
    failed = [o for o in obs if not o["ok"]]
    undecided = [r for i, r in enumerate(res) if r["status"] == "unsupported"]
    fails = list(cc["fails"])
    if (failed or undecided or prep) and not fails:
        # search for an input of the real code that fails
        extra = F.cross_check(mod, [SEED * 7919 + 50000 + j for j in range(nseeds * 6)], 90, procs=8)
        cc["n"] += extra["n"]
        cc["distinct"] |= extra["distinct"]
        fails += extra["fails"]
    known = known_findings(pid)
    vac = [o for o in obs if o.get("vac")]
    proof_obs = [o for o in obs if o["case_kind"] == "proof" and not o.get("vac")]
    bnd_obs = [o for o in obs if o["case_kind"] != "proof" and not o.get("vac")]
    functions = {}
    assumptions = set(getattr(mod, "ASSUMPTIONS", []))
    stats = {}
    for r in res + fbres:
        functions.update(r["functions"])
        assumptions |= set(r["assumptions"])
        for k, x in r["stats"].items():
            stats[k] = stats.get(k, 0) + x
    backends = {}
    for o in obs:
        if o["ok"] and not o.get("vac"):
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    proved = bool(proof_obs) and not undecided and not prep
    viol = []
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    unlisted = []
    for case, msg in fails:
        k = [x for x in known if F.digest(case) in x or (case.get("known") and case["known"] in x)]
        if not k:
            unlisted.append((case, msg))
    if unlisted:
        case, msg = unlisted[0]
        path = f"replays/{pid}-{F.digest(case)}.json"
        json.dump({"property": pid, "case": case, "message": msg, "how": f"python -m pydv.replay {path}   (in /verif)",
                   "failed_obligations": [strip(o) for o in failed][:20]},
                  open(os.path.join(ROOT, path), "w"), indent=1, default=str)
        viol.append(f"VIOLATION property={pid} replay={path}")
        print(f"failing input on the real code: {msg}"[:600])
    elif failed:
        path = f"replays/{pid}-obligation.json"
        json.dump({"property": pid, "failed_obligations": [strip(o) for o in failed][:40],
                   "note": "the verifier no longer discharges these obligations; no failing input was found"},
                  open(os.path.join(ROOT, path), "w"), indent=1, default=str)
        viol.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for o in failed[:8]:
        print(f"obligation not discharged: {o['label']}: {o['goal'][:300]} [{o['reason']}]")
    for r in undecided:
        print(f"outside the verifier's reach on this tree: {r['case']}: {r['error']}"
              + ("" if r not in res or res.index(r) not in bounded_for else " -> bounded stand-in"))
        if os.environ.get("PYDV_DEBUG"):
            print(r.get("trace"))
    if prep:
        print("contracts could not be set up on this tree:", prep)
    for ln in known:
        print(f"KNOWN-FINDING: {ln}")
    ndis = sum(1 for o in proof_obs if o["ok"])
    cov = {
        "obligations": len(proof_obs), "discharged": ndis,
        "checker_cmd": f"/opt/venv/bin/python -m pydv.check {pid}",
        "trusted_base": ["pydv interpreter semantics of Python (cross-checked against CPython on concrete inputs)",
                         "pydv ring normaliser", "z3 5.3", "cvc5 1.4 (when z3 answers unknown)",
                         "float and int arithmetic treated as exact real/integer arithmetic"],
        "vacuity_checks": len(vac), "backends": backends, "solver_stats": {k: round(x, 2) for k, x in stats.items()},
        "functions_under_contract": sorted(functions),
        "cases": [{"case": r["case"], "kind": r["kind"], "bound": r["bound"], "status": r["status"],
                   "obligations": len(r["obligations"]), "discharged": sum(o["ok"] for o in r["obligations"]),
                   "seconds": r["seconds"], "error": r["error"]} for r in res + fbres],
        "bounded_obligations": len(bnd_obs), "bounded_discharged": sum(1 for o in bnd_obs if o["ok"]),
        "evaluations": cc["n"], "distinct_nontrivial": len(cc["distinct"]),
        "rule": "concrete inputs drawn from VERIF_SEED, executed by CPython on the real code against an independent oracle; "
                "distinct by content",
        "samples": cc["samples"][:3],
        "undecided_cases": [f"{r['case']}: {r['error']}" for r in undecided],
        "explanation": getattr(mod, "EXPLANATION", ""),
    }
    level = getattr(mod, "LEVEL", "proof")
    if not proved or ndis == 0:
        level = "other"
        cov["explanation"] = (cov["explanation"] + " On this tree some case is outside the verifier's reach; the listed bounded "
                              "stand-ins and concrete cross-checks decided it instead of a proof.").strip()
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": sorted(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {ndis}/{len(proof_obs)} obligations proved {backends}; bounded {cov['bounded_discharged']}/{len(bnd_obs)}; "
          f"{cc['n']} concrete cross-checks; {len(functions)} functions; {ev['wall_s']} s")
    if cc.get("error"):
        print("cross-check error:", cc["error"])
    if viol:
        print(viol[0])
        return 1
    if cc.get("error") and cc["n"] == 0:
        return 3
    if not obs and cc["n"] == 0:
        print("nothing was checked")
        return 3
    return 0


def strip(o):
    return {k: o[k] for k in ("label", "goal", "reason", "model", "path", "backend") if k in o}


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        code = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
