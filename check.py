#!/usr/bin/env python3
"""Decide one property:  python3-vt /verif/check.py C05 [--tier quick|thorough] [-v]

Steps (all against /repo's current working tree):
 1. parse the real sources with clang, generate the verification conditions of every function under
    contract (contracts/<id>.py), discharge each one (z3 / nlsat / cvc5);
 2. compile the real sources with the executable form of the same specification and run it on
    generated cases (VERIF_SEED) and on every solver counterexample;
 3. decide, write evidence/<id>.json.
"""
import argparse, importlib, json, os, sys, time, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from cxxvc import frontend, unit as U
from cxxvc.harness import Harness, BuildError
from contracts import lib

BASE_TRUST = [
    "clang 18 parses and type-checks the sources as the production compiler (gcc) does",
    "cxxvc (the verification-condition generator in /verif/cxxvc) implements the C++ semantics of the constructs used",
    "z3 4.x / z3-nlsat / cvc5 answer unsat only for unsatisfiable queries",
]
BASE_ASSUME = [
    "double arithmetic is treated as exact real arithmetic (rounding, overflow and NaN propagation are outside the proofs)",
    "integers are mathematical; unsigned subtraction, narrowing casts and float-to-int conversions carry their own no-wrap side condition",
    "operator new and fftw_malloc succeed; compiled with NDEBUG",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--unit", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    pid = a.prop
    mod = importlib.import_module("contracts." + pid)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        rc = decide(mod, pid, a, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(mod, pid, a, seed, t0, scratch):
    # ---- harness builds in the background while the proofs run
    har = None
    if not a.no_harness and hasattr(mod, "harness"):
        har = mod.harness(scratch)
        har.start_build()
    # ---- 1. deductive step
    results = []
    progs = {}
    if not a.no_proof:
        us = []
        for tu, unit in mod.units():
            if a.unit and a.unit not in unit.name:
                continue
            key = json.dumps(tu)
            if key not in progs:
                progs[key] = load(tu)
            us.append((progs[key], unit))
        results = U.run_units(us, a.tier, seed, jobs=8, verbose=a.v)
    units = {}
    if not a.no_proof:
        units = {u.name: u for _, u in mod.units()}
    nobl = sum(len(r["obls"]) for r in results)
    nok = sum(o["status"] == "proved" for r in results for o in r["obls"])
    undec, refuted = [], []
    for r in results:
        if r["status"] != "ok":
            undec.append("%s: %s" % (r["unit"], r.get("reason", "")))
        elif not r["obls"]:
            undec.append("%s: no obligation generated" % r["unit"])
        for nm, c in r.get("covers", []):
            if c == "unsat":
                undec.append("%s: vacuous precondition %s" % (r["unit"], nm))
        for o in r["obls"]:
            if o["status"] == "refuted" and o["confirmed"] and o["exact"]:
                refuted.append((r["unit"], o))
            elif o["status"] != "proved":
                undec.append("%s: obligation %s %s (%s)" % (r["unit"], o["name"], o["status"], o["detail"]))
    proved = bool(results) and not undec and not refuted
    # ---- 2. executable specification on the real code
    fails, hstat, herr = [], {}, None
    if har is not None:
        try:
            har.finish_build()
            lib.LITS = sorted({x for p in progs.values() if not isinstance(p, Exception) for x in p.literals})
            budget = "deep" if (not proved or a.tier == "thorough") else "std"
            extra = []
            for un, o in [(r["unit"], o) for r in results for o in r["obls"] if o["status"] != "proved"]:
                u = units.get(un)
                env = o.get("env") or o.get("menv")
                if u is not None and u.replay is not None and env:
                    try:
                        extra += list(u.replay(env, o) or [])
                    except Exception as e:
                        hstat.setdefault("replay_errors", []).append("%s: %s" % (un, e))
            fails, hstat2 = har.run(seed, budget, a.tier, extra)
            hstat.update(hstat2)
        except BuildError as e:
            herr = str(e)
    # ---- 3. decision
    rc = 0
    lines = []
    rdir = os.path.join(HERE, "replay")
    known = load_known(pid)
    if fails:
        kf, new = [], []
        for f in fails:
            k = next((k for k in known if k in f), None)
            (kf if k else new).append((k, f))
        for k in sorted({k for k, _ in kf}):
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
        fails = [f for _, f in new]
    if fails:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.txt" % pid)
        with open(path, "w") as fh:
            fh.write("property %s violated on the real code\n" % pid)
            fh.write("failing cases (executable specification vs. /repo):\n")
            for f in fails[:20]:
                fh.write("  %s\n" % f)
            fh.write("\nreplay: %s\n" % har.replay_cmd())
            for un, o in refuted[:20]:
                fh.write("\nfailed obligation: unit=%s obligation=%s at %s\n  backend: %s\n  model: %s\n" % (un, o["name"], o["where"], o["detail"], json.dumps(o["env"])))
            for x in undec[:20]:
                fh.write("\nundecided: %s\n" % x)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif refuted:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.txt" % pid)
        with open(path, "w") as fh:
            fh.write("property %s: obligations refuted by the verifier, no failing run of the real code found\n" % pid)
            for un, o in refuted:
                fh.write("\nfailed obligation: unit=%s obligation=%s at %s\n  verifier output: %s\n  counterexample: %s\n" % (un, o["name"], o["where"], o["detail"], json.dumps(o["env"])))
            if herr:
                fh.write("\nharness could not be built: %s\n" % herr[:2000])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
    elif herr is not None and not proved:
        print("ERROR: %s cannot be decided: %s ; harness: %s" % (pid, "; ".join(undec)[:800], herr[:1500]))
        rc = 2
    ev = evidence(mod, pid, a.tier, seed, results, nobl, nok, undec, refuted, fails, hstat, herr, progs, time.time() - t0)
    if not a.unit and not a.no_proof and not a.no_harness:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s: %d/%d obligations discharged over %d units; harness %s cases; %d undecided; %.0fs" %
          (pid, nok, nobl, len(results), hstat.get("evaluations", 0), len(undec), time.time() - t0))
    if a.v or undec:
        for x in undec[:12]:
            print("  undecided:", x[:500])
    if fails:
        for f in fails[:5]:
            print("  FAIL", f[:400])
    if herr and rc != 2:
        print("  harness not built:", herr[:300])
    for l in lines:
        print(l)
    return rc


def load(tu):
    p = frontend.Program()
    try:
        for part in (tu if isinstance(tu, list) else [tu]):
            src = part["src"] if "src" in part else open(os.path.join(HERE, "tu", part["file"])).read()
            p.load(src, part.get("filter", "NRLib"), part.get("defines", ["NDEBUG"]),
                   [os.path.join(frontend.REPO, "src"), os.path.join(HERE, "tu")] + part.get("includes", []), part.get("std", "c++17"))
    except Exception as e:
        return e
    return p


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    except OSError:
        pass
    return out


def evidence(mod, pid, tier, seed, results, nobl, nok, undec, refuted, fails, hstat, herr, progs, wall):
    back = {}
    tsolve = 0.0
    for r in results:
        for o in r["obls"]:
            if o["status"] == "proved":
                back[o["backend"]] = back.get(o["backend"], 0) + 1
            tsolve += o["t"]
    funcs = sorted({r["unit"] for r in results})
    inl = sorted({q for r in results for q in r.get("inlined", [])})
    cmds = sorted({c for p in progs.values() if not isinstance(p, Exception) for c in p.cmds})
    bounded = []
    if undec:
        bounded = ["bounded stand-in (executable specification over generated cases), not proved: " + x[:300] for x in undec]
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": nobl, "discharged": nok,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s -v" % (pid, tier),
        "trusted_base": BASE_TRUST + list(getattr(mod, "TRUSTED", [])),
        "units_under_contract": funcs,
        "functions_executed_from_source": inl,
        "callee_contracts_used": sorted({q for r in results for q in r.get("contracts", [])}),
        "library_models_used": sorted({q for r in results for q in r.get("models", [])}),
        "obligations_by_backend": back,
        "solver_s": round(tsolve, 2),
        "branch_queries": sum(r.get("ndecide", 0) for r in results),
        "loops_summarised_for_all_iterations": sum(r.get("loops", 0) for r in results),
        "vacuity_covers": [[r["unit"], n, c] for r in results for n, c in r.get("covers", [])],
        "obligation_names": [r["unit"] + "/" + o["name"] + ":" + str(o["status"]) for r in results for o in r["obls"]][:400],
        "undecided": [x[:400] for x in undec],
        "bounded_not_proved": bounded + list(getattr(mod, "BOUNDED", [])),
        "front_end": cmds[:4],
        "evaluations": hstat.get("evaluations", 0),
        "distinct_nontrivial": hstat.get("distinct", 0),
        "rule": hstat.get("rule", ""),
        "samples": hstat.get("samples", [])[:5],
    }
    if "replay_errors" in hstat:
        cov["replay_errors"] = hstat["replay_errors"]
    if herr:
        cov["harness_error"] = herr[:500]
    return {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": BASE_ASSUME + list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2), "violations": len(fails) + len(refuted)}


if __name__ == "__main__":
    main()
