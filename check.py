#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property of properties.jsonl on /repo's current tree:
  1. vc engine  - discharges the property's contracts on the real source (see vc/, contracts/);
  2. harness    - executable form of the same contracts on the real crate: gives the failing input of a broken
                  contract, and is the bounded stand-in for obligations the engine cannot express or settle.
Writes evidence/<PROPERTY>.json, and a replay file when something is broken.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build():
    """(ok, internal_ok, log)"""
    for attempt in range(3):
        r = sh(["bash", os.path.join(HERE, "harness/build.sh"), "--bin", "mb"])
        if r.returncode == 0:
            return True, r.stderr
    return False, r.stderr


def build_internal():
    r = sh(["bash", os.path.join(HERE, "harness/build.sh"), "--bin", "mbi"])
    return r.returncode == 0, r.stderr


def run_harness(prop, tier, seed, seconds, extra=()):
    target = os.environ.get("MB_TARGET", "/repo/target")
    exe = os.path.join(target, "debug", "mbi" if prop == "N02" else "mb")
    cmd = [exe, prop, "--seed", str(seed), "--tier", tier, "--seconds", str(seconds), *extra]
    try:
        r = sh(cmd, timeout=seconds + 160)
    except subprocess.TimeoutExpired:
        return {"cases": 0, "failed_cases": 1, "failures": [{"case": -1, "seed": seed, "clause": "terminates", "detail": "the run did not finish"}], "cover": {}}
    out = r.stdout.rsplit("@@RESULT ", 1)
    if len(out) < 2:
        return {"cases": 1, "failed_cases": 1, "cover": {}, "failures": [{"case": -1, "seed": seed, "clause": "no-abort",
                "detail": "the process under test died (status %s): %s" % (r.returncode, r.stderr[-2000:])}]}
    return json.loads(out[1].splitlines()[0])


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.strip().split(" ", 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = LEVELS[prop]
    viol = []          # (description, concrete?)
    # 1. deductive engine
    vc = None
    try:
        sys.path.insert(0, os.path.join(HERE, "vc"))
        import engine_main
        vc = engine_main.run(prop, tier)
    except Exception as e:                      # the engine itself failed: the bounded stand-in decides
        print("note: engine not available: %s" % str(e)[:500])
        vc = None
    # 2. executable contracts on the real crate
    ok, log = build()
    if not ok:
        print("the harness does not build against /repo's current tree:\n" + log[-3000:])
        sys.exit(2)
    har = None
    if prop == "N02":
        iok, ilog = build_internal()
        if not iok:
            print("note: private network sources could not be linked; bounded part skipped")
            har = {"cases": 0, "failed_cases": 0, "failures": [], "cover": {}, "skipped": ilog[-500:]}
    if har is None:
        har = run_harness(prop, tier, seed, 300 if tier == "quick" else 700)

    known = known_findings(prop)
    replay = os.path.join(HERE, "evidence", prop + ".replay.json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)
    failures = har["failures"]
    refuted = [o for o in (vc or {}).get("obligations", []) if o["status"] in ("refuted", "failed")]
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    verdict = 0
    if failures or refuted:
        verdict = 1
        json.dump({"property": prop, "failing_cases": failures, "failed_obligations": refuted,
                   "how_to_replay": "bash harness/build.sh && %s %s --seed %d --tier %s --case <case>" % (
                       "/repo/target/debug/" + ("mbi" if prop == "N02" else "mb"), prop, seed, tier)}, open(replay, "w"), indent=1)
    # evidence
    cov = {}
    ncover = sum(1 for v in har["cover"].values() if v)
    cov["bounded"] = {"what": "bounded: executable contracts on the real crate, stand-in for what is not discharged; never counted as proved",
                      "cases": har["cases"], "failed_cases": har.get("failed_cases", 0), "cover": har["cover"],
                      "seconds": har.get("seconds")}
    assumptions = list(meta.get("assumptions", []))
    if vc is not None and vc.get("obligations"):
        obl = vc["obligations"]
        cov.update({"obligations": len(obl), "discharged": sum(1 for o in obl if o["status"] == "discharged"),
                    "checker_cmd": "python3 check.py %s %s  (vc/ engine over syn AST of /repo/src; back ends: %s)" % (prop, tier, ", ".join(vc.get("backends", []))),
                    "trusted_base": vc.get("trusted", []),
                    "functions_under_contract": vc.get("functions", []),
                    "solver_seconds": vc.get("solver_seconds"), "engine_seconds": vc.get("seconds"),
                    "by_backend": vc.get("by_backend"), "obligation_list": [{k: o[k] for k in ("name", "status", "backend", "time") if k in o} for o in obl],
                    "not_discharged": [o for o in obl if o["status"] != "discharged"],
                    "vacuity": vc.get("vacuity")})
        assumptions += vc.get("assumptions", [])
    if "explanation" not in cov:
        cov["explanation"] = meta.get("explanation", "")
    cov["evaluations"] = har["cases"]
    cov["distinct_nontrivial"] = har.get("nontrivial", ncover)
    cov["rule"] = "seeded generator; distinct_nontrivial counts the distinct situations (cover points) reached"
    cov["samples"] = [{"case": 0, "seed": seed, "how": "mb %s --seed %d --case 0" % (prop, seed)}]
    level = meta["level"]
    if level == "proof" and (not cov.get("obligations") or cov["discharged"] < cov["obligations"]):
        level = "other"         # not everything was discharged on this tree
        cov["explanation"] = "%d of %d obligations discharged on this run; the rest by the bounded stand-in" % (cov.get("discharged", 0), cov.get("obligations", 0))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(failures) + len(refuted)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if vc is not None:
        nd = [o["name"] for o in vc.get("obligations", []) if o["status"] not in ("discharged", "refuted", "failed")]
        print("%s: %d/%d obligations discharged%s" % (prop, cov.get("discharged", 0), cov.get("obligations", 0),
              "; not discharged (decided by the bounded stand-in): " + ", ".join(nd) if nd else ""))
    print("%s: bounded executable contracts: %d cases, %d failed" % (prop, har["cases"], har.get("failed_cases", 0)))
    for o in refuted:
        print("FAILED OBLIGATION %s: %s" % (o["name"], str(o.get("detail", ""))[:600]))
    for f in failures[:5]:
        print("FAILED CONTRACT %s case=%s seed=%s: %s" % (f["clause"], f["case"], f["seed"], f["detail"][:600]))
    if verdict:
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if failures else " no-failing-input-found"))
    sys.exit(verdict)


if __name__ == "__main__":
    main()
