#!/usr/bin/env python3
"""Development aid: tools/plant.py FILE [ID...]
FILE defines P = [dict(id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks[, race])].
For each, the change is made in a scratch copy of /repo, built and tested with the
repository's tests, the demonstration is run with and without it, and the property's
quick check is run; if the change counts it is written to /verif/seeded/ID."""
import os, sys, subprocess, shutil, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour holds in the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s/%%s": "%%s/demo_test.go"}}' "$PWD" "%s" "$here" > "$T/overlay.json"
go test %s -vet=off -overlay "$T/overlay.json" -run '^TestSeededDemo$' -count=1 -timeout 200s ./%s
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = tempfile.mkdtemp(prefix="plant", dir="/tmp")
stable = json.load(open("/opt/vp/BASELINE.json"))
try:
    for p in ns["P"]:
        if want and p["id"] not in want:
            continue
        r = base + "/repo"; d = base + "/demo"
        shutil.rmtree(r, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", r, symlinks=True)
        os.mkdir(d)
        pkg = p["pkg"]
        target = (pkg + "/" if pkg != "." else "") + "zz_seeded_demo_test.go"
        open(d + "/demo.sh", "w").write(DEMO % (target, "-race" if p.get("race") else "", pkg if pkg != "." else ""))
        open(d + "/demo_test.go", "w").write(p["demo"].lstrip("\n"))
        out = p["id"] + " |"
        q = sh("bash %s/demo.sh" % d, cwd=r)
        if q.returncode != 0:
            print(out, "DEMO FAILS UNPATCHED", q.stdout[-1500:], q.stderr[-800:], flush=True)
            continue
        for f, old, new in p["edits"]:
            s = open(r + "/" + f).read()
            assert s.count(old) == 1, (p["id"], f, old, s.count(old))
            open(r + "/" + f, "w").write(s.replace(old, new))
        q = sh(". /opt/vp/env.sh; gofmt -l runner.go catacomb/catacomb.go dependency/*.go workertest/*s.go; go vet ./... ", cwd=r)
        if q.returncode or q.stdout: out += " [fmt/vet: %s%s]" % (q.stdout[:200], q.stderr[-300:])
        diff = sh("git diff", cwd=r).stdout
        tf = ""
        for i in range(3):
            q = sh(". /opt/vp/env.sh; timeout 200 go test -vet=off -count=1 -timeout 120s ./... 2>&1 | grep -E '^(FAIL|OOPS|panic|---)' | head -8", cwd=r)
            if q.stdout.strip():
                tf = "; ".join(q.stdout.split("\n"))[:300]; break
        out += " TESTS-FAIL " + tf if tf else " tests-pass"
        fails = 0
        for i in range(3):
            q = sh("bash %s/demo.sh" % d, cwd=r)
            fails += q.returncode != 0
        out += " | demo fails %d/3" % fails
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=base + "/build")
        for pr in [p["prop"]] + p.get("also", []):
            c = subprocess.run(["bash", V + "/check.sh", pr], env=env, capture_output=True, text=True)
            msg = ""
            if c.returncode == 1:
                msg = ([l for l in c.stdout.split("\n") if l and not l.startswith("VIOLATION")][-1:] or [""])[0][:150]
            out += " | %s:%s %s" % (pr, {0: "MISSED", 1: "caught"}.get(c.returncode, c.stderr[-300:]), msg)
        if not tf and fails == 3:
            s = V + "/seeded/" + p["id"]
            shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
            open(s + "/patch.diff", "w").write(diff)
            for f in ("demo.sh", "demo_test.go"): shutil.copy(d + "/" + f, s)
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(s + "/meta.json", "w"), indent=1)
            out += " | KEPT"
        print(out, flush=True)
finally:
    shutil.rmtree(base)
