#!/usr/bin/env python3
"""Development aid: tools/automut.py FILE MUTDIR PATTERNS BOUND OUT [NAME...]
Explores the scenarios PATTERNS (comma separated) with at most BOUND deviations
for each mutant of FILE that automut wrote to MUTDIR; those that survive are also run
through the repository's tests. One line per mutant goes to OUT."""
import os, sys, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, mdir, pats, bound, out = sys.argv[1:6]
names = sys.argv[6:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(mdir + "/*.go"))
done = set()
if os.path.exists(out):
    done = set(l.split(" ", 1)[0] for l in open(out))
N = int(os.environ.get("PAR", "4"))
procs = os.environ.get("PROCS", "2")
base = tempfile.mkdtemp(prefix="automut", dir="/tmp")
dirs = []
for i in range(N):
    d = "%s/%d" % (base, i)
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
    dirs.append(d)
def one(n):
    d = dirs.pop()
    try:
        what = open("%s/%s.txt" % (mdir, n)).read()
        shutil.copy("/repo/" + f, d + "/orig.go")
        shutil.copy("%s/%s.go" % (mdir, n), d + "/repo/" + f)
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
        q = subprocess.run(["bash", V + "/build.sh"], env=env, capture_output=True, text=True)
        res = None
        if q.returncode:
            res = "nobuild"
        else:
            for p in pats.split(","):
                try:
                    args = [d + "/build/mc", "bench", p, "-short", "-procs", procs]
                    if bound != "-1": args += ["-bound", bound]
                    q = subprocess.run(args, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res = "timeout"; break
                bad = [l for l in q.stdout.split("\n") if l.startswith("FAIL") or l.startswith("ERROR")]
                if bad or q.returncode:
                    res = "killed " + (bad or ["?"])[0][:160]; break
            if res is None:
                res = "SURVIVED"
                t = subprocess.run(". /opt/vp/env.sh; cd %s/repo && go test -vet=off -count=1 -timeout 90s ./... 2>&1 | grep -E '^(FAIL:|OOPS|panic|.*build failed|--- FAIL)' | head -3" % d, shell=True, capture_output=True, text=True)
                res += " tests:" + ("FAIL " + t.stdout.replace("\n", ";")[:100] if t.stdout.strip() else "pass")
        shutil.copy("/repo/" + f, d + "/repo/" + f)
        with open(out, "a") as o:
            o.write("%s %s | %s\n" % (n, res, what))
    finally:
        dirs.append(d)
try:
    with ThreadPoolExecutor(N) as ex:
        for r in [ex.submit(one, n) for n in names if n not in done]:
            r.result()
finally:
    shutil.rmtree(base, ignore_errors=True)
