#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [-v] [--only HARNESS]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
import argparse
import importlib
import json


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pyvc import lean, report
    from pyvc.ctx import load_real

    prop = importlib.import_module("contracts." + a.id).P
    if a.replay:
        data = json.load(open(a.replay))
        naima = load_real()
        bad = 0
        for f in data["fails"]:
            h = next(h for h in prop.harnesses if h.name == f["harness"])
            r = report.run_concrete(h, naima, a.seed, 1, (), values=f["inputs"])
            for x in r["fails"]:
                bad += 1
                print(json.dumps(x, default=str))
        print("reproduced %d of %d" % (bad, len(data["fails"])))
        return 1 if bad else 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    known = []
    kp = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kp):
        known = [k for k in json.load(open(kp))["findings"] if k["property"] == a.id]
    jobs = lean.start(prop.lemmas) if prop.lemmas and not a.only else None
    r = report.run_property(prop, tier, a.seed, known, a.only, a.v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    standin = sorted(r["standins"])
    lemmas = lean.finish(jobs, prop.lemmas) if jobs is not None or prop.lemmas else []
    unchecked = ["lemmas in %s (not accepted by Lean on this run)" % x["file"] for x in lemmas if not x["accepted"]]
    ev = {
        "property": a.id,
        "tier": tier,
        "seed": a.seed,
        "level": getattr(prop, "level", "proof"),
        "coverage": {
            "obligations": r["obligations"],
            "discharged": r["discharged"],
            "checker_cmd": "/verif/check.py %s --tier %s" % (a.id, tier),
            "trusted_base": report.BASE_TRUST + prop.trusted,
            "contracts": r["detail"],
            "functions_under_contract": sorted({f for d in r["detail"] for f in d["functions"]}),
            "bounded_standins": standin,
            "runtime_evaluations": r["evaluations"],
            "distinct_nontrivial": r["distinct"],
            "rule": "run-time evaluations draw every input of a contract (sizes, values, units, alternatives) at random, with boundary values, the numeric literals of the sources and solver models; one is non-trivial when at least one obligation was evaluated; equal draws count once",
            "samples": r["samples"][:3],
            "backends": r["stats"],
            "lemmas_checked_by_lean": lemmas,
            "vacuous_obligations": r["vacuous"],
            "explanation": "contracts (pre- and postconditions of the real functions, loaded from /repo on this run) executed symbolically by pyvc; every obligation is discharged by the term normaliser, z3 or cvc5 for all values, sizes and units; contracts listed in bounded_standins are checked at run time only",
        },
        "assumptions": report.BASE_ASSUME + prop.assumptions + sorted({x for h in prop.harnesses for x in h.assumes}) + unchecked,
        "wall_s": round(r["wall"], 2),
        "violations": len(r["violations"]),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", a.id + ".json"), "w"), indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    rc = 0
    for i, v in enumerate(r["violations"]):
        path = os.path.join(HERE, "replays", "%s-%d.json" % (a.id, i))
        v["property"] = a.id
        v["replay_cmd"] = "/verif/check.py %s --replay %s" % (a.id, path)
        json.dump(v, open(path, "w"), indent=1, default=str)
        print(
            "VIOLATION property=%s replay=%s%s"
            % (a.id, path, "" if v["kind"] == "input" else " no-failing-input-found")
        )
        rc = 1
    print(
        "%s: %d/%d obligations discharged, %d run-time evaluations, %d stand-ins, %.1f s"
        % (a.id, r["discharged"], r["obligations"], r["evaluations"], len(standin), r["wall"])
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
