#!/usr/bin/env python3
"""Generate the -overlay that puts the code under a controlled scheduler.

usage: patch.py GOROOT REPO OUTDIR

Writes patched copies of a few standard-library and dependency files below
OUTDIR and OUTDIR/overlay.json.  Nothing outside OUTDIR is modified.  Every
substitution must match exactly; anything else is a hard error.
"""
import json, os, re, subprocess, sys

goroot, repo, out = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
replace = {}


def emit(target, text):
    rel = target.lstrip("/").replace("/", "__")
    p = os.path.join(out, rel)
    old = None
    if os.path.exists(p):
        old = open(p).read()
    if old != text:
        open(p, "w").write(text)
    replace[target] = p


def std(path, *subs):
    t = os.path.join(goroot, "src", path)
    s = open(t).read()
    for old, new in subs:
        if s.count(old) != 1:
            sys.exit(f"patch: {path}: {s.count(old)} matches for {old!r}")
        s = s.replace(old, new)
    emit(t, s)


def add(path, src):
    emit(os.path.join(goroot, "src", path), open(os.path.join(here, src)).read())


add("runtime/verif.go", "runtime_verif.go")

std("runtime/runtime2.go",
    ("type g struct {\n", "type g struct {\n\t_vpad [0]func()\n"),
    ("	ditWanted       bool // set if g wants to be executed with DIT enabled\n",
     "	ditWanted       bool // set if g wants to be executed with DIT enabled\n"
     "	vid             int32 // verif: index+1 of a controlled goroutine\n"
     "	vnp             int32 // verif: >0 disables points\n"))
# the padding line above is only an anchor check; drop it again
t = os.path.join(goroot, "src", "runtime/runtime2.go")
p = replace[t]
s = open(p).read().replace("\t_vpad [0]func()\n", "")
open(p, "w").write(s)

std("runtime/proc.go",
    ("func ready(gp *g, traceskip int, next bool) {\n",
     "func ready(gp *g, traceskip int, next bool) {\n"
     "	if gp.vid > 0 {\n		verifReady(gp)\n		return\n	}\n"),
    ("	if bubble != nil {\n		bubble.decActive()\n	}\n\n	schedule()\n}\n\nfunc goschedImpl",
     "	if bubble != nil {\n		bubble.decActive()\n	}\n\n"
     "	if gp.vid > 0 {\n		verifParked(gp)\n	}\n	schedule()\n}\n\nfunc goschedImpl"),
    ("	gdestroy(gp)\n	schedule()\n}\n",
     "	vid := gp.vid\n	gp.vid = 0\n	gp.vnp = 0\n	gdestroy(gp)\n"
     "	if vid > 0 {\n		verifExited(vid)\n	}\n	schedule()\n}\n"),
    ("	systemstack(func() {\n		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n",
     "	systemstack(func() {\n		if verifNewproc(fn, gp, pc) {\n			return\n		}\n"
     "		newg := newproc1(fn, gp, pc, false, waitReasonZero)\n"),
    ("func Gosched() {\n",
     "func Gosched() {\n	if verifOn() {\n"
     "		verifGoschedFn()\n		return\n	}\n"))

std("runtime/chan.go",
    ("	if debugChan {\n		print(\"chansend: chan=\", c, \"\\n\")\n	}\n",
     "	if verifOn() || verifFiring {\n		verifSend(c, block)\n	}\n"),
    ("	if c.bubble != nil && getg().bubble != c.bubble {\n		fatal(\"close of synctest channel from outside bubble\")\n	}\n",
     "	if verifOn() {\n		verifClose(c)\n	}\n"),
    ("	if c.bubble != nil && getg().bubble != c.bubble {\n		fatal(\"receive on synctest channel from outside bubble\")\n	}\n",
     "	if verifOn() {\n		verifRecv(c, block)\n	}\n"))

std("runtime/select.go",
    ("	pollorder = pollorder[:norder]\n	lockorder = lockorder[:norder]\n",
     "	pollorder = pollorder[:norder]\n	lockorder = lockorder[:norder]\n"
     "	if gp.vid > 0 {\n		verifSelect(gp, scases, pollorder, nsends, block)\n	}\n"))

std("runtime/map.go",
    ("func mapIterStart(t *abi.MapType, m *maps.Map, it *maps.Iter) {\n",
     "func mapIterStart(t *abi.MapType, m *maps.Map, it *maps.Iter) {\n"
     "	if verifActive {\n		verifMapIter(m, sys.GetCallerPC())\n	}\n"))

std("internal/runtime/maps/table.go",
    ("	it.entryOffset = rand()\n	it.dirOffset = rand()\n",
     "	it.entryOffset = verifIterRand()\n	it.dirOffset = it.entryOffset\n"))
std("internal/runtime/maps/runtime.go",
    ("func rand() uint64\n", "func rand() uint64\n\n//go:linkname verifIterRand\nfunc verifIterRand() uint64\n"))

std("runtime/rand.go",
    ("func rand() uint64 {\n", "func rand() uint64 {\n	if verifRandOn() {\n		return verifRandVal()\n	}\n"))

std("runtime/panic.go",
    ("	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n",
     "	preprintpanics(&p)\n	if verifOn() {\n		verifPanicked(p.arg)\n	}\n\n	fatalpanic(&p)   // should not return\n"),
    ("func sync_fatal(s string) {\n",
     "func sync_fatal(s string) {\n	if verifOn() {\n		verifFatal(s)\n	}\n"))

std("runtime/time.go",
    ("type timeTimer struct {\n	c    unsafe.Pointer // <-chan time.Time\n	init bool\n	timer\n}",
     "type timeTimer struct {\n	c    unsafe.Pointer // <-chan time.Time\n	init bool\n	timer\n"
     "	vf func(arg any, seq uintptr, delay int64)\n	varg any\n	vch unsafe.Pointer\n	virt bool\n}"),
    ("	t := new(timeTimer)\n	t.timer.init(nil, nil)\n",
     "	t := new(timeTimer)\n	t.timer.init(nil, nil)\n"
     "	if verifTimeOn() {\n		t.virt = true\n		t.vf = f\n		t.varg = arg\n		t.vch = unsafe.Pointer(c)\n"
     "		if raceenabled {\n			racerelease(unsafe.Pointer(&t.timer))\n		}\n"
     "		verifNewTimer(t, when, period, f, arg, c)\n		return t\n	}\n"),
    ("func stopTimer(t *timeTimer) bool {\n",
     "func stopTimer(t *timeTimer) bool {\n	if t.virt {\n		return verifStopTimer(t)\n	}\n"),
    ("func resetTimer(t *timeTimer, when, period int64) bool {\n",
     "func resetTimer(t *timeTimer, when, period int64) bool {\n	if t.virt {\n		return verifResetTimer(t, when, period)\n	}\n"),
    ("func timeSleep(ns int64) {\n",
     "func timeSleep(ns int64) {\n	if verifOn() {\n		verifSleep(ns)\n		return\n	}\n"),
    ("func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n",
     "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n"
     "	if verifTimeOn() {\n		n := verifNowVal()\n"
     "		return verifEpochSec + n/1000000000, int32(n % 1000000000), verifMonoBase + n\n	}\n"),
    ("func time_runtimeNano() int64 {\n",
     "func time_runtimeNano() int64 {\n	if verifTimeOn() {\n		return verifMonoBase + verifNowVal()\n	}\n"))

# ---- sync
SYNC_DECL = ("\n//go:linkname runtime_verifPoint\nfunc runtime_verifPoint(kind uint8, a unsafe.Pointer)\n"
             "\n//go:linkname runtime_verifTouch\nfunc runtime_verifTouch(kind uint8, a unsafe.Pointer)\n")
std("sync/runtime.go", ("func throw(string)\n", SYNC_DECL + "\nfunc throw(string)\n"))

K = dict(Lock=6, TryLock=7, RLock=8, CondWait=9, CondSignal=10, CondBroadcast=11, WgAdd=12, WgWait=13, Unlock=18)
std("sync/mutex.go",
    ("	isync \"internal/sync\"\n", "	isync \"internal/sync\"\n	\"unsafe\"\n"),
    ("func (m *Mutex) Lock() {\n	m.mu.Lock()\n}\n",
     "//\n//go:noinline\nfunc (m *Mutex) Lock() {\n"
     f"	runtime_verifPoint({K['Lock']}, unsafe.Pointer(m))\n	m.mu.Lock()\n	runtime_verifTouch({K['Lock']}, unsafe.Pointer(m))\n}}\n"),
    ("func (m *Mutex) TryLock() bool {\n	return m.mu.TryLock()\n}\n",
     "//\n//go:noinline\nfunc (m *Mutex) TryLock() bool {\n"
     f"	runtime_verifPoint({K['TryLock']}, unsafe.Pointer(m))\n	return m.mu.TryLock()\n}}\n"),
    ("func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n}\n",
     "func (m *Mutex) Unlock() {\n"
     f"	runtime_verifTouch({K['Unlock']}, unsafe.Pointer(m))\n	m.mu.Unlock()\n}}\n"))
std("internal/sync/mutex.go",
    ("			starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs\n", ""),
    ("				waitStartTime = runtime_nanotime()\n", "				waitStartTime = 1\n"))
std("sync/rwmutex.go",
    ("func (rw *RWMutex) RLock() {\n",
     "//\n//go:noinline\nfunc (rw *RWMutex) RLock() {\n"
     f"	runtime_verifPoint({K['RLock']}, unsafe.Pointer(rw))\n	defer runtime_verifTouch({K['RLock']}, unsafe.Pointer(rw))\n"),
    ("func (rw *RWMutex) RUnlock() {\n",
     f"func (rw *RWMutex) RUnlock() {{\n	runtime_verifTouch({K['Unlock']}, unsafe.Pointer(rw))\n"),
    ("func (rw *RWMutex) Lock() {\n",
     "//\n//go:noinline\nfunc (rw *RWMutex) Lock() {\n"
     f"	runtime_verifPoint({K['Lock']}, unsafe.Pointer(rw))\n	defer runtime_verifTouch({K['Lock']}, unsafe.Pointer(rw))\n"),
    ("func (rw *RWMutex) Unlock() {\n",
     f"func (rw *RWMutex) Unlock() {{\n	runtime_verifTouch({K['Unlock']}, unsafe.Pointer(rw))\n"))
std("sync/cond.go",
    ("func (c *Cond) Wait() {\n	c.checker.check()\n",
     "func (c *Cond) Wait() {\n	c.checker.check()\n"
     f"	runtime_verifPoint({K['CondWait']}, unsafe.Pointer(c))\n"),
    ("func (c *Cond) Signal() {\n	c.checker.check()\n",
     "func (c *Cond) Signal() {\n	c.checker.check()\n"
     f"	runtime_verifPoint({K['CondSignal']}, unsafe.Pointer(c))\n"),
    ("func (c *Cond) Broadcast() {\n	c.checker.check()\n",
     "func (c *Cond) Broadcast() {\n	c.checker.check()\n"
     f"	runtime_verifPoint({K['CondBroadcast']}, unsafe.Pointer(c))\n"))
std("sync/waitgroup.go",
    ("func (wg *WaitGroup) Add(delta int) {\n",
     f"func (wg *WaitGroup) Add(delta int) {{\n	runtime_verifPoint({K['WgAdd']}, unsafe.Pointer(wg))\n"),
    ("func (wg *WaitGroup) Wait() {\n",
     f"func (wg *WaitGroup) Wait() {{\n	runtime_verifPoint({K['WgWait']}, unsafe.Pointer(wg))\n"))

# ---- an instrumented twin of sync/atomic for the code under test
add("sync/verifatomic/atomic.go", "verifatomic.go")

# ---- code under test: atomics become points
n_at = 0
for root, dirs, files in os.walk(repo):
    dirs[:] = [d for d in dirs if not d.startswith(".")]
    for f in files:
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        p = os.path.join(root, f)
        src = open(p).read()
        new = re.sub(r'^(\s*(?:import\s+)?)(\w+\s+)?"sync/atomic"', lambda m: m.group(1) + (m.group(2) or "atomic ") + '"sync/verifatomic"', src, flags=re.M)
        if new != src:
            emit(p, new)
            n_at += 1

# ---- tomb: its lazy initialisation is idempotent and needs no point.  Files of
# the module cache cannot be overlaid, so a patched copy replaces the module.
mod = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "gopkg.in/tomb.v2"], cwd=repo, capture_output=True, text=True)
td = mod.stdout.strip()
if not td:
    sys.exit("patch: cannot locate tomb.v2: " + mod.stderr)
od = os.path.join(out, "tomb")
os.makedirs(od, exist_ok=True)
for f in os.listdir(td):
    if not f.endswith(".go") or f.endswith("_test.go"):
        continue
    s = open(os.path.join(td, f)).read()
    if f == "tomb.go":
        old = "func (t *Tomb) init() {\n	t.m.Lock()\n"
        if s.count(old) != 1:
            sys.exit("patch: tomb init not found")
        s = s.replace(old, "func (t *Tomb) init() {\n	verifruntime.VerifNoPoint(true)\n	t.m.Lock()\n	verifruntime.VerifNoPoint(false)\n")
        s = s.replace('import (\n', 'import (\n	verifruntime "runtime"\n', 1)
    p = os.path.join(od, f)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
open(os.path.join(od, "go.mod"), "w").write("module gopkg.in/tomb.v2\n")

# ---- check.v1: a C that can be made without a test suite, and that does not
# read source files when it logs.
mod = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "gopkg.in/check.v1"], cwd=repo, capture_output=True, text=True)
td = mod.stdout.strip()
if not td:
    sys.exit("patch: cannot locate check.v1: " + mod.stderr)
od = os.path.join(out, "check")
os.makedirs(od, exist_ok=True)
for f in os.listdir(td):
    if not f.endswith(".go") and f != "go.mod" or f.endswith("_test.go"):
        continue
    s = open(os.path.join(td, f)).read()
    if f == "check.go":
        old = "func (c *C) logCaller(skip int) {\n"
        if s.count(old) != 1:
            sys.exit("patch: check logCaller not found")
        s = s.replace(old, "func VerifC() *C { return &C{logb: &logger{}} }\n\n" + old + "	if c.method == nil {\n		return\n	}\n")
    p = os.path.join(od, f)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)

json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1, sort_keys=True)
