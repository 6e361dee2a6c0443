"""worker.py PROP INDEX   discharges one contract; one JSON line per obligation, then a summary line"""
import json, os, sys, time
sys.setrecursionlimit(20000)
import contract as CM
import prover as PR
from program import Program


def emit(d): print("@@" + json.dumps(d), flush=True)


def main():
    CM.load(os.environ.get("VC_CONTRACTS", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")))
    prop = sys.argv[1]
    mine = [(n, f) for ps, n, f in CM.REGISTRY if prop in ps]
    if sys.argv[2] == "list":
        emit({"list": [n for n, _ in mine]}); return
    name, f = mine[int(sys.argv[2])]
    t0 = time.time()
    try:
        prog = Program()
    except Exception as e:
        emit({"name": name + "/front end", "kind": "translate", "status": "unsupported", "detail": str(e)[:300], "time": 0, "backend": ""}); return
    fns, vac, fp = CM.run_one(prog, name, f, emit)
    emit({"summary": 1, "contract": name, "functions": fns, "vacuity": vac, "fingerprint": fp, "stats": PR.stats, "seconds": round(time.time() - t0, 2)})


main()
