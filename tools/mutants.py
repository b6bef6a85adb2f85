#!/usr/bin/env python3
"""Development aid: tools/mutants.py FILE [NAME...]
FILE defines M = [(name, file, old, new, [properties])]; each mutant is made in a
scratch copy of /repo, tested with the repository's own tests and checked."""
import os, sys, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
base = tempfile.mkdtemp(prefix="mutants", dir="/tmp")
try:
    for m in ns["M"]:
        name, edits, props = m[0], m[1], m[2]
        if want and name not in want:
            continue
        r = os.path.join(base, "repo")
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree("/repo", r, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=os.path.join(base, "build"))
        t = ""
        if not os.environ.get("NOTEST"):
            pr = subprocess.run(". /opt/vp/env.sh; cd %s && go test -vet=off -count=1 -timeout 90s ./... 2>&1 | grep -E '^(FAIL:|OOPS|panic|.*build failed|ok .*)' | head -5" % r, shell=True, capture_output=True, text=True)
            bad = [l for l in pr.stdout.split("\n") if l and not l.startswith("ok")]
            t = "TESTS-FAIL " + "; ".join(bad)[:150] if bad else "tests-pass"
        res = []
        for p in props:
            q = subprocess.run(["bash", V + "/check.sh", p], env=env, capture_output=True, text=True)
            msg = ""
            if q.returncode == 1:
                msg = [l for l in q.stdout.split("\n") if l and not l.startswith("VIOLATION")][-1:] or [""]
                msg = " " + msg[0][:160]
            elif q.returncode:
                msg = q.stderr[-400:]
            res.append("%s:%s%s" % (p, {0: "MISSED", 1: "caught"}.get(q.returncode, q.returncode), msg))
        print(name, "|", t, "|", " | ".join(res), flush=True)
finally:
    shutil.rmtree(base)
