"""Runs the deductive engine on one property: every contract in its own process, several at a time, each with a time limit."""
import json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
RSDUMP = os.path.join(HERE, "rsdump", "target", "debug", "rsdump")
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def ensure():
    if not os.path.exists(RSDUMP):
        env = dict(os.environ); env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "rsdump"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode != 0: raise RuntimeError("rsdump does not build: " + r.stdout[-2000:])


def baseline():
    try: return json.load(open(os.path.join(os.path.dirname(HERE), "baseline.json")))
    except OSError: return {}


def judge(name, obl, summ, base):
    """An obligation that was discharged for the committed source (baseline.json) and is not for different source has failed.
    Not so when the engine lost its grip for another reason: construct outside its reach, loop without closed form, or an
    obligation that was close to the time limit to begin with; those are left to the bounded stand-in."""
    b = base.get(name)
    if not b or not summ or not summ.get("fingerprint") or summ["fingerprint"] == b["fingerprint"]: return
    if any(o["kind"] == "translate" for o in obl): return
    # an invariant the engine tried for a loop does not hold: what follows from the loop is unknown, not wrong
    if any("loop-invariant" in o["name"] and o["status"] == "unknown" for o in obl): return
    for o in obl:
        if o["status"] == "unknown" and o["kind"] == "ensures" and o["name"] in b["ensures"] and b["ensures"][o["name"]] <= 4 and "no closed form" not in o["detail"]:
            o["status"] = "failed"
            o["detail"] = ("discharged for the committed source, not for this one. " + o["detail"]).strip()


def run(prop, tier):
    t0 = time.time()
    ensure()
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", VC_TIER=tier)
    per = 150 if tier == "quick" else 500
    total = 420 if tier == "quick" else 1500
    if tier != "quick": total = 600
    out = subprocess.run([PY, os.path.join(HERE, "worker.py"), prop, "list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    names = next((json.loads(l[2:])["list"] for l in out.stdout.splitlines() if l.startswith("@@")), None)
    if names is None: raise RuntimeError("engine: " + out.stderr[-2000:])
    base = baseline()
    results = [None] * len(names)
    todo = list(range(len(names))); lock = threading.Lock()

    def attempt(i, lim, env):
        obl, summ = [], None
        with tempfile.TemporaryFile("w+") as fo:
            p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), prop, str(i)], stdout=fo, stderr=subprocess.PIPE, text=True, env=env)
            err = ""
            try:
                _, err = p.communicate(timeout=lim)
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                err = "time limit of %d s" % lim
            fo.seek(0)
            for l in fo.read().splitlines():
                if not l.startswith("@@"): continue
                try: d = json.loads(l[2:])
                except ValueError: continue
                if "summary" in d: summ = d
                else: obl.append(d)
        if summ is None:
            obl.append({"name": names[i] + "/rest of the contract", "kind": "translate", "status": "unknown", "detail": err[-300:], "time": 0, "backend": ""})
        return obl, summ

    def work():
        while True:
            with lock:
                if not todo: return
                i = todo.pop(0)
            left = total - (time.time() - t0)
            lim = min(per, left)
            if lim <= 2:
                obl, summ = [{"name": names[i] + "/not attempted", "kind": "translate", "status": "unknown", "detail": "time budget of the run used up", "time": 0, "backend": ""}], None
            else:
                t1 = time.time()
                obl, summ = attempt(i, lim, env)
                # the order in which facts are tried depends on the hash seed: an undecided obligation gets two more tries; every acceptance is a proof
                for seed in ("1", "2"):
                    used = time.time() - t1
                    left = total - (time.time() - t0)
                    if summ is None or not any(o["status"] == "unknown" for o in obl) or any(o["status"] in ("refuted", "unsupported") for o in obl) or used > 60 or left < 120: break
                    again, s2 = attempt(i, min(per, left), dict(env, PYTHONHASHSEED=seed))
                    if s2 is None or [o["name"] for o in again] != [o["name"] for o in obl]: continue
                    obl = [p if o["status"] == "unknown" and p["status"] == "discharged" else o for o, p in zip(obl, again)]
            for o in obl: o["contract"] = names[i]
            judge(names[i], obl, summ, base)
            results[i] = (obl, summ)

    ts = [threading.Thread(target=work) for _ in range(min(6, max(1, len(names))))]
    for t in ts: t.start()
    for t in ts: t.join()
    obls = [o for r in results for o in r[0]]
    fns = {}; vac = {}; zt = 0.0; zn = 0; assumed = set()
    for r in results:
        s = r[1]
        if not s: continue
        for q, n in s["functions"].items(): fns[q] = fns.get(q, 0) + n
        vac.update(s["vacuity"])
        zt += s["stats"].get("z3_time", 0); zn += s["stats"].get("z3", 0)
        assumed.update(s.get("assumed", []))
    by = {}
    for o in obls:
        if o["status"] == "discharged": by[o["backend"]] = by.get(o["backend"], 0) + 1
    return {"obligations": obls, "functions": sorted(fns), "contracts": names, "vacuity": vac, "solver_seconds": round(zt, 2), "solver_calls": zn,
            "seconds": round(time.time() - t0, 2), "by_backend": by, "backends": ["normal form of finite sums (vc/terms.py)", "z3"],
            "trusted": TRUSTED, "assumptions": ASSUMPTIONS,
            "fingerprints": {r[1]["contract"]: r[1]["fingerprint"] for r in results if r[1]}}


TRUSTED = [
    "vc engine: syn front end (vc/rsdump), symbolic evaluator (vc/eval.py), loop summaries (vc/loops.py), term rules (vc/terms.py), prover (vc/prover.py)",
    "contracts assumed on the standard library and rayon methods used (vc/builtins_rs.py): iterators, slices, Vec, Option, f64 methods, sort, binary_search; rayon iterators as their sequential counterparts",
    "z3 4.x",
]
ASSUMPTIONS = [
    "f64 arithmetic treated as exact real arithmetic (no rounding, overflow, NaN or infinities)",
    "partial correctness: termination of while/loop is not proved; usize is checked for underflow only, `as i32` is exact",
    "symbolic inputs of a contract are arbitrary values satisfying its stated preconditions; hypotheses (weak learners' outputs) are opaque functions of (hypothesis, sample, row)",
    "safe Rust's aliasing rules; RefCell transparent; HashMap/HashSet are finite maps/sets in arbitrary order",
    "functions replaced by their interface in a contract (stubs: weak learner, loss, solver, recursive call, contracted helpers) behave as their own contract says",
]

if __name__ == "__main__":
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    for o in r["obligations"]:
        if o["status"] != "discharged": print(o["status"], o["name"], o.get("detail", "")[:200])
    print(len(r["obligations"]), r["by_backend"], r["seconds"], "s", r["functions"], {k: v for k, v in r["vacuity"].items() if not v})
