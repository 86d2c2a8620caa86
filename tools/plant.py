#!/usr/bin/env python3
"""plant.py SPEC.py...: development tool. Applies a planted bug to /repo, builds, runs the stable tests, the demonstration and the
check of its property, undoes it, and stores patch, demonstration and meta data under /verif/seeded/<id>/ when it qualifies."""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = '''#!/bin/bash
# exit 0: the property held; non-zero: it did not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -w -fopenmp -I/repo/src/C-interface "$D/demo.c" /repo/_build/src/libbml.a -lopenblas -lm -o "$T/demo" || exit 3
cd "$T" && OMP_NUM_THREADS=%s timeout 60 ./demo
'''
def main():
    for spec in sys.argv[1:]:
        s = {"threads": 1, "demo_sh": None, "demo": None, "files": {}}; exec(open(spec).read(), s)
        id = os.path.basename(spec)[:-3]; d = "%s/seeded/%s" % (V, id)
        assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
        res = []
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                n = t.count(old); assert n == 1, "%s: %d matches of %r" % (f, n, old[:60])
                open(p, "w").write(t.replace(old, new))
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if s["demo"]: open(d + "/demo.c", "w").write(s["demo"])
            for f, t in s["files"].items(): open(d + "/" + f, "w").write(t)
            open(d + "/demo.sh", "w").write(s["demo_sh"] or DEMO_SH % s["threads"]); os.chmod(d + "/demo.sh", 0o755)
            r = sh("bash /opt/vp/test.sh /tmp/w/plant.json"); t = json.load(open("/tmp/w/plant.json"))
            lost = BASE - set(t["passed"])
            res.append("tests lost=%d %s" % (len(lost), sorted(lost)[:3]))
            x = sh("bash %s/demo.sh" % d, cwd=R); res.append("demo patched rc=%d %s" % (x.returncode, x.stdout[-120:].strip()))
            c = sh("./check.sh %s quick" % s["prop"], cwd=V); l = [q for q in c.stdout.split("\n") if q.startswith("VIOLATION")]
            res.append("check rc=%d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and l else "MISSED " + c.stdout[-300:]))
        finally:
            sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh"); x = sh("bash %s/demo.sh" % d, cwd=R); res.append("demo clean rc=%d %s" % (x.returncode, x.stdout[-120:].strip() if x.returncode else ""))
        print(id, "|", " | ".join(res), flush=True)
main()
