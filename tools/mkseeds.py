"""Creates /verif/seeded/<id>/ from SEEDS and confirms each in a scratch copy (python3 tools/mkseeds.py [ids...])."""
import json, os, subprocess, sys, shutil, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from seeds import SEEDS, PRELUDE
DEMO = '''#!/bin/bash
# exit 0: the property holds on this tree for the demonstrated input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
lib=$(ls -t target/debug/libminiboosts.rlib target/debug/deps/libminiboosts-*.rlib 2>/dev/null | head -1)
[ -n "$lib" ] || { echo "no library built"; exit 3; }
rustc --edition 2021 -A warnings "$here/demo.rs" --extern miniboosts="$lib" -L dependency=target/debug/deps -o "$T/demo" || exit 3
cd "$T" && timeout 250 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    want = sys.argv[1:]
    base = "/tmp/seedbase"
    for s in SEEDS:
        if want and s["id"] not in want: continue
        d = "%s/seeded/%s" % (H, s["id"]); os.makedirs(d, exist_ok=True)
        edits = s["edits"]
        sh("git -C /repo checkout -q -- .")
        for f, old, new in edits:
            p = "/repo/" + f; t = open(p).read()
            bt = sh("git -C /repo show c73cc34:%s" % f).stdout
            n = t.count(old)
            if n != 1: print(s["id"], "OLD TEXT OCCURS", n, "times in", f)
            if old not in bt: print(s["id"], "warning: text not in the base commit", f)
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh("git -C /repo diff").stdout
        sh("git -C /repo checkout -q -- .")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(PRELUDE + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "lines", len(diff.splitlines()))
main()
