// Package mc is a stateless model checker for Go code running on the patched
// runtime (see ../patch).  It enumerates every schedule of a scenario whose
// number of deviations from a deterministic default schedule is within a
// bound, replaying each on the real code.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Scenario is a closed program exploring some behaviour of the code under test.
type Scenario struct {
	Name  string
	Props []string // the properties this scenario helps decide
	Run   func(t *T)
	Early bool // timers may fire while threads can still run (a deviation)
	// Free makes the choice of the next thread free when the current one
	// blocks, so only preemptions count as deviations.
	Free     bool
	MaxSteps int
	// MaxBound caps the deviation bound of the quick and thorough tiers.
	MaxBound, ThoroughBound int
	// LowProps are properties for which MaxBound 1 suffices.
	LowProps []string
	// Full adds an exploration without a deviation bound: 1 in the thorough
	// tier, 2 in both.
	Full      int
	Rand      uint64   // value of the random source
	Policies  int      // bit mask of default schedules (0: all)
	RaceProps []string // properties for which the race-detector pass runs it
	RaceOnly  bool
}

// T is handed to the scenario's root goroutine.
type T struct {
	scn     *Scenario
	fail    *Failure
	done    bool
	tags    map[string]bool // properties whose violations count; nil: all
	traceOn bool
	trace   []string
	Tier    string
	logObj  [8]byte
	calm    bool
}

// Failure is a property violation observed in one execution.
type Failure struct {
	Tag     string `json:"tag"`
	Msg     string `json:"msg"`
	Generic bool   `json:"generic"`
	Hang    bool   `json:"hang,omitempty"`
}

// RaceMode is set in the race-detector build: monitors are switched off there,
// so that they neither add happens-before edges nor race themselves.
var RaceMode bool

// Failf records a violation of the property tag, or of each of several
// properties separated by commas.
func (t *T) Failf(tag, format string, args ...any) {
	if RaceMode || t.fail != nil {
		return
	}
	if t.tags != nil && tag != "*" {
		ok := false
		for _, g := range strings.Split(tag, ",") {
			ok = ok || t.tags[g]
		}
		if !ok {
			return
		}
	}
	t.fail = &Failure{Tag: tag, Msg: fmt.Sprintf(format, args...), Generic: tag == "*"}
}

// Failed reports whether a violation was recorded.
func (t *T) Failed() bool { return t.fail != nil }

// Logf adds a line to the trace of a replay.
func (t *T) Logf(format string, args ...any) {
	if t.traceOn && !RaceMode {
		t.trace = append(t.trace, fmt.Sprintf("      | t=%v %s", time.Duration(runtime.VerifNow()), fmt.Sprintf(format, args...)))
	}
}

// Touch orders the caller with every other monitor event.
func (t *T) Touch() {
	if !RaceMode {
		runtime.VerifTouch(unsafe.Pointer(&t.logObj))
	}
}

// Choose returns a value in [0,n); all are explored at no cost.
func (t *T) Choose(n int) int { return runtime.VerifChoose(n) }

// Calm switches branching off (setup and follow-up phases run under the default
// schedule only) or on again.
func (t *T) Calm(on bool) { t.calm = on }

// Point is an extra scheduling point.
func (t *T) Point() { runtime.VerifPoint(unsafe.Pointer(&t.logObj)) }

// Live is the number of goroutines that have not ended.
func (t *T) Live() int {
	n := 0
	for i := int32(0); i < runtime.VerifN; i++ {
		if s := runtime.VerifT[i].State; s != runtime.VsFree && s != runtime.VsDead {
			n++
		}
	}
	return n
}

// Quiesce waits until no other thread can run without time passing.
func (t *T) Quiesce() { runtime.VerifQuiesce(0) }

// Settle waits until no other thread can run and no timer is pending.
func (t *T) Settle() { runtime.VerifQuiesce(1) }

// After lets virtual time pass, and then waits for quiescence.
func (t *T) After(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	runtime.VerifQuiesce(0)
}

// Now is the virtual time since the execution began.
func (t *T) Now() time.Duration { return time.Duration(runtime.VerifNow()) }

// ---------------------------------------------------------------- execution

type choice struct {
	n     int32 // number of options
	taken int32
	free  int32 // options below this index cost nothing
}

// Prefix is a sequence of L decisions of which only the non-default ones are
// listed, as (position, option) pairs; H guards against divergence on replay.
type Prefix struct {
	L int        `json:"l"`
	D [][2]int32 `json:"d"`
	H uint64     `json:"h"`
	C int        `json:"c"` // deviations spent
}

func shape(h uint64, c choice) uint64 {
	return mix(h, uint64(c.n)<<32|uint64(c.free)<<16|uint64(c.taken))
}

func pack(p []choice) Prefix {
	out := Prefix{L: len(p)}
	for i, c := range p {
		if c.taken != 0 {
			out.D = append(out.D, [2]int32{int32(i), c.taken})
		}
		out.H = shape(out.H, c)
		out.C += c.cost(c.taken)
	}
	return out
}

type Stats struct {
	Execs, Steps, States, Pruned, Diverged, MaxDepth int64
}

type explorer struct {
	scn    *Scenario
	policy int
	tags   map[string]bool
	tier   string
	vis    *Visited
	salt   uint64
	stats  Stats
	gcAt   uint64
	path   []choice
	t      *T
	pruned bool
	trace  bool
	full   bool // no deviation bound
}

// Full is the budget that means "no bound".
const Full = 60

// for the watchdog
var (
	current   *explorer
	stepCount int64
)

func (c *choice) cost(opt int32) int {
	if opt < c.free {
		return 0
	}
	return 1
}

func cost(p []choice) int {
	n := 0
	for i := range p {
		n += p[i].cost(p[i].taken)
	}
	return n
}

var kindNames = map[uint8]string{
	runtime.VkStart: "start", runtime.VkSend: "send", runtime.VkRecv: "recv", runtime.VkSelect: "select",
	runtime.VkClose: "close", runtime.VkLock: "lock", runtime.VkTryLock: "trylock", runtime.VkRLock: "rlock",
	runtime.VkCondWait: "cond.wait", runtime.VkCondSignal: "cond.signal", runtime.VkCondBroadcast: "cond.broadcast",
	runtime.VkWgAdd: "wg.add", runtime.VkWgWait: "wg.wait", runtime.VkAtomic: "atomic", runtime.VkGosched: "gosched",
	runtime.VkUser: "event", runtime.VkMapIter: "map order", runtime.VkChoose: "choose", runtime.VkQuiesce: "quiesce",
	runtime.VkWake: "woken",
}

type option struct {
	thread int32 // >=0: run this thread; -1: fire timer
	arg    int32
}

func fnName(pc uintptr) string {
	f := runtime.FuncForPC(pc)
	if f == nil {
		return "?"
	}
	n := f.Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func loc(pc uintptr) string {
	if pc == 0 {
		return ""
	}
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	file := fr.File
	if i := strings.LastIndex(file, "/"); i >= 0 {
		file = file[i+1:]
	}
	fn := fr.Function
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s %s:%d", fn, file, fr.Line)
}

func stackOf(i int32) string {
	var pcs [24]uintptr
	n := runtime.VerifStackOf(i, pcs[:])
	if n == 0 {
		return ""
	}
	frames := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		fr, more := frames.Next()
		if !strings.HasPrefix(fr.Function, "runtime.") {
			file := fr.File
			if k := strings.LastIndex(file, "/"); k >= 0 {
				file = file[k+1:]
			}
			fn := fr.Function
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			out = append(out, fmt.Sprintf("%s(%s:%d)", fn, file, fr.Line))
		}
		if !more || len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// run performs one execution: the decisions in prefix first, then defaults.
// It leaves the decisions taken in e.path.
func (e *explorer) run(prefix Prefix, budget int) *Failure {
	scn := e.scn
	maxSteps := scn.MaxSteps
	if maxSteps == 0 {
		maxSteps = 20000
	}
	t := &T{scn: scn, tags: e.tags, traceOn: e.trace, Tier: e.tier}
	e.t = t
	e.pruned = false
	e.path = e.path[:0]
	e.stats.Execs++
	runtime.VerifTrace = e.trace
	runtime.VerifRand = scn.Rand
	if scn.Rand == 0 {
		runtime.VerifRand = 1 << 62
	}
	runtime.VerifBegin(func() {
		scn.Run(t)
		t.done = true
	})
	remaining := budget
	nextD := 0
	var h uint64
	var opts []option
	var optbuf [64]option
	cur := int32(-1)
	same := 0
	steps := 0
	var lastRun [runtime.VerifMaxThreads]int32
	for {
		if t.fail != nil || t.done {
			break
		}
		if runtime.VerifOverflow {
			panic("mc: object table overflow")
		}
		N := runtime.VerifN
		opts = optbuf[:0]
		free := int32(1)
		choicePoint := false
		if cur >= 0 && runtime.VerifT[cur].State == runtime.VsChoice {
			th := &runtime.VerifT[cur]
			for k := int32(0); k < th.NAlt; k++ {
				opts = append(opts, option{cur, k})
			}
			if th.Kind == runtime.VkChoose {
				free = th.NAlt
			}
			choicePoint = true
		} else if k := e.local(N); k >= 0 {
			opts = append(opts, option{k, 0})
		} else {
			curOK := cur >= 0 && runtime.VerifT[cur].State == runtime.VsEnabled
			forced := curOK && same > 400
			if curOK && !forced {
				opts = append(opts, option{cur, 0})
			}
			base := len(opts)
			for i := int32(0); i < N; i++ {
				if i != cur && runtime.VerifT[i].State == runtime.VsEnabled {
					opts = append(opts, option{i, 0})
				}
			}
			rest := opts[base:]
			switch e.policy {
			case 1: // newest first
				for a, b := 0, len(rest)-1; a < b; a, b = a+1, b-1 {
					rest[a], rest[b] = rest[b], rest[a]
				}
			case 2: // least recently run first
				sort.SliceStable(rest, func(a, b int) bool { return lastRun[rest[a].thread] < lastRun[rest[b].thread] })
			}
			if forced {
				opts = append(opts, option{cur, 0})
			}
			if !curOK && scn.Free && len(opts) > 0 {
				free = int32(len(opts))
			}
			nt, in := runtime.VerifTimers()
			if len(opts) > 0 {
				if scn.Early && nt > 0 {
					opts = append(opts, option{-1, 0})
				}
			} else if nt > 0 && in == 0 {
				for k := 0; k < nt && k < 4; k++ {
					opts = append(opts, option{-1, int32(k)})
				}
			} else {
				q := int32(-1)
				for i := int32(0); i < N; i++ {
					if runtime.VerifT[i].State == runtime.VsQuiesce && runtime.VerifT[i].Mode == 0 {
						q = i
						break
					}
				}
				if q >= 0 {
					opts = append(opts, option{q, 0})
				} else if nt > 0 {
					for k := 0; k < nt && k < 4; k++ {
						opts = append(opts, option{-1, int32(k)})
					}
				} else {
					for i := int32(0); i < N; i++ {
						if runtime.VerifT[i].State == runtime.VsQuiesce {
							opts = append(opts, option{i, 0})
							break
						}
					}
				}
			}
		}
		if t.calm && len(opts) > 1 && !(choicePoint && free > 1) {
			opts = opts[:1]
		}
		if len(opts) == 0 {
			t.generic("deadlock: the scenario cannot finish and nothing can run\n%s", e.dump())
			break
		}
		sel := int32(0)
		if len(opts) > 1 {
			d := len(e.path)
			c := choice{n: int32(len(opts)), free: free}
			if d < prefix.L {
				if nextD < len(prefix.D) && prefix.D[nextD][0] == int32(d) {
					sel = prefix.D[nextD][1]
					nextD++
				}
				c.taken = sel
				h = shape(h, c)
				if sel >= c.n || d == prefix.L-1 && h != prefix.H {
					e.stats.Diverged++
					e.pruned = true
					break
				}
			} else if e.vis != nil {
				var s uint64
				for i := int32(0); i < N; i++ {
					th := &runtime.VerifT[i]
					s += mix(th.Hash, th.Ident) * 3
				}
				s = mix(s, uint64(runtime.VerifNow()))
				if e.full {
					// all options cost nothing: which thread ran last is immaterial
					if choicePoint {
						s = mix(s, uint64(uint32(cur+1))<<1|1)
					}
				} else {
					s = mix(s, uint64(uint32(cur+1))<<1|b2u(choicePoint))
				}
				s = mix(s, e.salt)
				seen, fresh := e.vis.Visit(s, remaining)
				if fresh {
					e.stats.States++
				}
				if seen {
					e.stats.Pruned++
					e.pruned = true
					break
				}
			}
			c.taken = sel
			e.path = append(e.path, c)
			if d := int64(len(e.path)); d > e.stats.MaxDepth {
				e.stats.MaxDepth = d
			}
			if !e.full {
				remaining -= c.cost(sel)
			}
		}
		o := opts[sel]
		steps++
		if e.trace {
			e.traceStep(o, sel, len(opts))
		}
		if o.thread < 0 {
			runtime.VerifFire(int(o.arg))
		} else {
			th := &runtime.VerifT[o.thread]
			th.Choice = o.arg
			if o.thread == cur {
				same++
			} else {
				same = 0
			}
			cur = o.thread
			lastRun[cur] = int32(steps)
			stepCount++
			current = e
			runtime.VerifStep(cur)
			current = nil
			if runtime.VerifT[cur].State == runtime.VsCrashed {
				msg := runtime.VerifCrashS
				if runtime.VerifCrash != nil {
					msg = fmt.Sprint(runtime.VerifCrash)
				}
				t.generic("unrecovered panic or fatal error: %s\n  at %s", msg, stackOf(cur))
				break
			}
		}
		if steps > maxSteps {
			t.generic("livelock: more than %d steps\n%s", maxSteps, e.dump())
			break
		}
	}
	if !e.pruned && t.fail == nil && len(e.path) < prefix.L {
		e.stats.Diverged++
	}
	e.stats.Steps += int64(steps)
	runtime.VerifEnd()
	fail := t.fail
	e.collect()
	return fail
}

// local finds a thread whose next step only runs code local to it; without a
// bound, running it first loses no behaviour.
func (e *explorer) local(n int32) int32 {
	if !e.full {
		return -1
	}
	for i := int32(0); i < n; i++ {
		if th := &runtime.VerifT[i]; th.State == runtime.VsEnabled && th.Local {
			return i
		}
	}
	return -1
}

func (t *T) generic(format string, args ...any) {
	if t.fail == nil {
		t.fail = &Failure{Tag: "*", Msg: fmt.Sprintf(format, args...), Generic: true}
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func mix(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 ^ (b + 0x7f4a7c15f39cc060 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 29
	x *= 0xff51afd7ed558ccd
	x ^= x >> 32
	return x
}

func (e *explorer) traceStep(o option, sel int32, n int) {
	mark := " "
	if sel > 0 {
		mark = "*"
	}
	if o.thread < 0 {
		_, in := runtime.VerifTimers()
		e.t.trace = append(e.t.trace, fmt.Sprintf("%s %d/%d  clock +%v: timer fires", mark, sel, n, time.Duration(in)))
		return
	}
	th := &runtime.VerifT[o.thread]
	extra := ""
	if th.State == runtime.VsChoice {
		extra = fmt.Sprintf(" -> option %d of %d", o.arg, th.NAlt)
	}
	e.t.trace = append(e.t.trace, fmt.Sprintf("%s %d/%d  g%d [%s] %s%s  %s", mark, sel, n, o.thread, fnName(th.StartPC), kindNames[th.Kind], extra, loc(th.PC)))
}

func (e *explorer) dump() string {
	var b strings.Builder
	for i := int32(0); i < runtime.VerifN; i++ {
		th := &runtime.VerifT[i]
		st := map[uint8]string{runtime.VsEnabled: "runnable", runtime.VsBlocked: "blocked", runtime.VsDead: "", runtime.VsQuiesce: "waiting for quiescence", runtime.VsCrashed: "crashed", runtime.VsChoice: "choosing"}[th.State]
		if st == "" {
			continue
		}
		fmt.Fprintf(&b, "    g%d [%s] %s: %s\n", i, fnName(th.StartPC), st, stackOf(i))
	}
	return b.String()
}

// The collector must not run during an execution.
func init() { debug.SetGCPercent(-1) }

var execsSinceGC int

func (e *explorer) collect() {
	execsSinceGC++
	if execsSinceGC >= 400 {
		execsSinceGC = 0
		runtime.GC()
	}
}
