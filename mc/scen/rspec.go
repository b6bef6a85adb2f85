package scen

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"verifmc/mc"
)

// This file is the specification of a worker runner, as a monitor.  It tracks
// the set of all states ("worlds") an ideal runner could be in, given the
// calls, returns, start-function calls and worker exits seen so far.  Every
// call takes effect at some instant between its invocation and its return;
// every internal reaction (noticing an exit, acting on a stop request, ...)
// takes effect at some instant after its cause, and before the system is
// idle.  An observation that no world explains is a violation.

const (
	phAbsent = iota
	phWait   // known, waiting until dl to call its start function
	phStart  // start call k is in progress, or has returned unnoticed
	phRun    // instance k is installed
)

const (
	rStart = iota
	rStop
	rSR
	rWorker
	rNames
	rReport
	rKill
	rWait
)

var rOpName = [...]string{"StartWorker", "StopWorker", "StopAndRemoveWorker", "Worker", "WorkerNames", "Report", "Kill", "Wait"}
var rOpProp = [...]string{"R05", "R06", "R07", "R08", "R09", "R09", "R02", "R03"}

// results
const (
	resNil = iota
	resErrDead
	resExists
	resNotFound
	resAborted
	resBad
	resErr  = 100 // + error index
	resInst = 200 // + instance index
	resRep  = 1000
)

// error indices
const (
	eNil = iota
	eRestart
	eNoRestart
	eFatal1
	eFatal2
	eGoexit
	eUnknown
	ePanic // like eRestart, but an error made from a panic
	eSpecial
)

var errOf = append([]error{nil, errRestart, errNoRestart, errFatal1, errFatal2, nil, nil, errPanic}, specials...)
var errName = append([]string{"nil", "restartable", "not restartable", "fatal 1", "fatal 2", "Goexit error", "unknown error", "restartable panic"}, specialNames()...)

func errIdx(err error) int8 {
	if err == nil {
		return eNil
	}
	for i, e := range errOf {
		if sameErr(e, err) {
			return int8(i)
		}
	}
	if strings.Contains(err.Error(), "Goexit") {
		return eGoexit
	}
	return eUnknown
}

func resName(r int32) string {
	switch {
	case r >= resRep:
		a, b := (r-resRep)%32, (r-resRep)/32
		f := func(x int32) string {
			switch {
			case x == 0:
				return "absent"
			case x == 1:
				return "not started"
			}
			return fmt.Sprintf("started#%d", x-2)
		}
		return "{a: " + f(a) + ", b: " + f(b) + "}"
	case r >= resInst:
		return fmt.Sprintf("instance #%d", r-resInst)
	case r >= resErr:
		return "error " + errName[r-resErr]
	}
	return [...]string{"nil", "ErrDead", "AlreadyExists", "NotFound", "ErrAborted", "an unexpected value"}[r]
}

type rEnt struct {
	ph   uint8
	stop bool
	sp   bool // a stop request is on its way
	spg  int8 // a stop request for this generation is on its way
	gen  int8
	k    int8
	dl   time.Duration
}

type rOp struct {
	st   uint8 // 0 unused, 1 pending, 2 found, 3 marked, 4 done
	gen  int8
	inst int8
	res  int32
}

const maxOps = 10

type rWorld struct {
	e      [2]rEnt
	killed bool
	dying  bool
	dead   bool
	final  int8
	ngen   int8
	op     [maxOps]rOp
}

type rCall struct {
	id       int8
	returned bool
	err      int8
	inst     int8
	ctx      context.Context
	at       time.Duration
}

type rInst struct {
	id      int8
	stopped bool
	err     int8
	killed  bool
	w       *Inst
	started time.Duration // when its start call began
	ready   time.Duration // and returned
}

type rOpInfo struct {
	kind    int
	id      int8
	ctxDone bool
	abort   bool
	active  bool
}

type rMon struct {
	t        *mc.T
	delay    time.Duration
	fatal    func(int8) bool
	restart  func(int8) bool
	more     func(a, b int8) bool
	ws       []rWorld
	calls    []rCall
	insts    []rInst
	ops      [maxOps]rOpInfo
	hist     []string
	used     map[string]bool
	lastNow  time.Duration
	idNames  []string
	nEvents  int
	deadSeen bool
}

func newRMon(t *mc.T, delay time.Duration) *rMon {
	return &rMon{t: t, delay: delay,
		fatal:   func(e int8) bool { return e == eFatal1 || e == eFatal2 },
		restart: func(e int8) bool { return e != eNoRestart },
		more:    func(a, b int8) bool { return false },
		ws:      []rWorld{{}}, used: map[string]bool{}, idNames: []string{"a", "b"},
	}
}

func (m *rMon) tags(ts ...string) string {
	set := map[string]bool{}
	for _, t := range ts {
		set[t] = true
	}
	for t := range m.used {
		set[t] = true
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (m *rMon) fail(tags, format string, args ...any) {
	m.t.Failf(tags, "%s\n  history:\n    %s", fmt.Sprintf(format, args...), strings.Join(m.hist, "\n    "))
}

func (m *rMon) ev(format string, args ...any) {
	m.hist = append(m.hist, fmt.Sprintf("t=%v ", m.t.Now())+fmt.Sprintf(format, args...))
	m.t.Logf(format, args...)
}

// begin orders the event and applies the consequences of time having passed.
func (m *rMon) begin() bool {
	if mc.RaceMode || m.t.Failed() {
		return false
	}
	m.t.Touch()
	if now := m.t.Now(); now > m.lastNow {
		m.settle("time passes")
		m.lastNow = now
	}
	return !m.t.Failed()
}

// ---- internal transitions

func (m *rMon) done(w rWorld, x int, err int8) rWorld {
	e := &w.e[x]
	gone := rEnt{gen: e.gen, sp: e.sp}
	if err == eNil {
		*e = gone
		return w
	}
	if m.fatal(err) {
		if w.final == eNil || m.more(err, w.final) {
			w.final = err
		}
		*e = gone
		if !w.dying {
			m.die(&w)
		}
		return w
	}
	if !m.restart(err) || e.stop {
		*e = gone
		return w
	}
	e.ph = phWait
	e.dl = m.lastNow + m.delay
	e.k = 0
	return w
}

func (m *rMon) die(w *rWorld) {
	w.dying = true
	for i := range w.e {
		if w.e[i].ph != phAbsent {
			w.e[i].stop = true
		}
	}
}

// succ calls f with every world reachable from w in one internal step; urgent
// steps must have happened when the system is idle.
func (m *rMon) succ(w *rWorld, f func(rWorld, bool)) {
	for x := range w.e {
		e := &w.e[x]
		if e.sp {
			n := *w
			n.e[x].sp = false
			if n.e[x].ph != phAbsent {
				n.e[x].stop = true
			}
			f(n, true)
		}
		if e.spg != 0 {
			n := *w
			if n.e[x].ph != phAbsent && e.spg == e.gen {
				n.e[x].stop = true
			}
			n.e[x].spg = 0
			f(n, true)
		}
		switch e.ph {
		case phRun:
			if m.insts[e.k].stopped {
				f(m.done(*w, x, m.insts[e.k].err), true)
			}
		case phStart:
			if c := &m.calls[e.k]; c.returned {
				if c.err != eNil {
					f(m.done(*w, x, c.err), true)
				} else {
					n := *w
					n.e[x].ph = phRun
					n.e[x].k = c.inst
					f(n, true)
				}
			}
		case phWait:
			if e.stop || w.killed {
				n := *w
				n.e[x] = rEnt{gen: e.gen, sp: e.sp}
				f(n, true)
			}
		}
	}
	if w.killed && !w.dying {
		n := *w
		m.die(&n)
		f(n, true)
	}
	if w.dying && !w.dead {
		empty := true
		for x := range w.e {
			empty = empty && w.e[x].ph == phAbsent
		}
		if empty {
			n := *w
			n.dead = true
			f(n, true)
		}
	}
	for s := range w.op {
		o := &w.op[s]
		if o.st == 0 || o.st == 4 {
			continue
		}
		info := &m.ops[s]
		fin := func(n rWorld, res int32, urgent bool) {
			n.op[s] = rOp{st: 4, res: res}
			f(n, urgent)
		}
		e := w.e[info.id]
		switch info.kind {
		case rStart:
			if w.dead {
				fin(*w, resErrDead, true)
				continue
			}
			if info.ctxDone || w.dying {
				fin(*w, resErrDead, true)
			}
			if w.dying {
				fin(*w, resNil, true)
				continue
			}
			if e.sp {
				continue
			}
			if e.ph != phAbsent {
				fin(*w, resExists, true)
				continue
			}
			n := *w
			n.ngen++
			n.e[info.id] = rEnt{ph: phWait, gen: n.ngen, dl: m.lastNow}
			fin(n, resNil, true)
		case rStop:
			if w.dead {
				fin(*w, resErrDead, true)
				continue
			}
			if w.dying {
				fin(*w, resErrDead, true)
			}
			n := *w
			n.e[info.id].sp = true
			fin(n, resNil, true)
		case rSR, rWorker:
			switch o.st {
			case 1:
				if info.abort {
					fin(*w, resAborted, true)
				}
				if w.killed || w.dead || w.dying {
					fin(*w, resErrDead, w.killed || w.dead)
				}
				if w.killed || w.dead {
					continue
				}
				if e.ph == phAbsent {
					fin(*w, resNotFound, true)
				} else if e.ph == phRun && !e.stop {
					if info.kind == rWorker {
						fin(*w, resInst+int32(e.k), true)
					} else {
						n := *w
						n.op[s] = rOp{st: 2, gen: e.gen, inst: e.k}
						f(n, true)
					}
				}
			case 2:
				n := *w
				if e.ph != phAbsent && e.gen == o.gen {
					n.e[info.id].spg = o.gen
				}
				n.op[s].st = 3
				f(n, true)
			case 3:
				stopped := m.insts[o.inst].stopped
				if info.abort {
					fin(*w, resAborted, stopped)
				}
				if w.dead && stopped {
					fin(*w, resErrDead, true)
				}
				if stopped && (e.ph == phAbsent || e.gen != o.gen) {
					fin(*w, resErr+int32(m.insts[o.inst].err), true)
				}
			}
		case rNames, rReport:
			res := int32(0)
			for x := len(w.e) - 1; x >= 0; x-- {
				e := &w.e[x]
				v := int32(0)
				if e.ph != phAbsent {
					v = 1
					if info.kind == rReport && e.ph == phRun && !e.stop {
						v = 2 + int32(e.k)
					}
				}
				res = res*32 + v
			}
			fin(*w, resRep+res, true)
		case rKill:
			n := *w
			n.killed = true
			fin(n, resNil, true)
		case rWait:
			if w.dead {
				fin(*w, resErr+int32(w.final), true)
			}
		}
	}
}

func (m *rMon) closure() {
	have := make(map[rWorld]bool, len(m.ws)*2)
	for _, w := range m.ws {
		have[w] = true
	}
	for i := 0; i < len(m.ws); i++ {
		w := m.ws[i]
		m.succ(&w, func(n rWorld, _ bool) {
			if !have[n] {
				have[n] = true
				m.ws = append(m.ws, n)
			}
		})
	}
}

func (m *rMon) filter(ok func(*rWorld) bool) bool {
	var out []rWorld
	have := map[rWorld]bool{}
	for i := range m.ws {
		w := m.ws[i]
		if ok(&w) && !have[w] {
			have[w] = true
			out = append(out, w)
		}
	}
	if len(out) == 0 {
		return false
	}
	m.ws = out
	return true
}

// settled says why w cannot be the state of an idle system, or "".
func (m *rMon) settled(w *rWorld) (string, string) {
	why, tag := "", ""
	for s := range w.op {
		if w.op[s].st == 4 {
			k := m.ops[s].kind
			return fmt.Sprintf("%s(%s) should have returned", rOpName[k], m.idNames[m.ops[s].id]), "R10," + rOpProp[k]
		}
	}
	for x := range w.e {
		e := &w.e[x]
		if e.ph == phWait && e.dl <= m.lastNow {
			return fmt.Sprintf("the start function of %q should have been called", m.idNames[x]), "R04,R05"
		}
		if e.ph == phRun && e.stop && !m.insts[e.k].killed && !m.insts[e.k].stopped {
			t := "R06,R07"
			if w.dying {
				t = "R02"
			}
			return fmt.Sprintf("instance #%d of %q should have been killed", e.k, m.idNames[x]), t
		}
		if e.ph == phStart && !m.calls[e.k].returned && w.killed && m.calls[e.k].ctx.Err() == nil {
			return fmt.Sprintf("the context of the start call of %q should have been cancelled by Kill", m.idNames[x]), "R02"
		}
	}
	m.succ(w, func(n rWorld, urgent bool) {
		if urgent && why == "" {
			why, tag = "the runner should have reacted", "R04,R10"
		}
	})
	return why, tag
}

func (m *rMon) settle(when string) {
	m.closure()
	reason, tag := "", ""
	rank := 0
	if !m.filter(func(w *rWorld) bool {
		r, t := m.settled(w)
		if r != "" {
			// prefer the most specific reason
			k := 1
			if !strings.HasPrefix(r, "the runner should") {
				k = 2
			}
			if k > rank {
				rank, reason, tag = k, r, t
			}
		}
		return r == ""
	}) {
		pend := ""
		for s := range m.ops {
			if m.ops[s].active {
				pend += fmt.Sprintf("; %s(%s) has not returned", rOpName[m.ops[s].kind], m.idNames[m.ops[s].id])
				tag += ",R10," + rOpProp[m.ops[s].kind]
			}
		}
		m.fail(m.tags(strings.Split(tag, ",")...), "idle (%s) in a state no ideal runner can be idle in: %s%s", when, reason, pend)
	}
}

// ---- events

// call registers an invocation.
func (m *rMon) call(kind, id int, setup bool) int {
	if !m.begin() {
		return -1
	}
	if !setup {
		m.used[rOpProp[kind]] = true
	}
	s := -1
	for i := range m.ops {
		if !m.ops[i].active {
			s = i
			break
		}
	}
	if s < 0 {
		panic("too many pending operations")
	}
	m.closure()
	m.ops[s] = rOpInfo{kind: kind, id: int8(id), active: true}
	for i := range m.ws {
		m.ws[i].op[s] = rOp{st: 1}
	}
	m.ev("call   %s(%s) [%d]", rOpName[kind], m.idNames[id], s)
	return s
}

// ret registers a return.
func (m *rMon) ret(s int, res int32) {
	if s < 0 || !m.begin() {
		return
	}
	k := m.ops[s].kind
	m.ev("return %s(%s) [%d] = %s", rOpName[k], m.idNames[m.ops[s].id], s, resName(res))
	m.closure()
	var could []string
	seen := map[int32]bool{}
	for i := range m.ws {
		if o := m.ws[i].op[s]; o.st == 4 && !seen[o.res] {
			seen[o.res] = true
			could = append(could, resName(o.res))
		}
	}
	if !m.filter(func(w *rWorld) bool {
		if w.op[s].st != 4 || w.op[s].res != res {
			return false
		}
		w.op[s] = rOp{}
		return true
	}) {
		tag := rOpProp[k]
		if k == rReport || k == rNames {
			tag = "R09"
		}
		if k == rWait {
			tag = "R03,R02"
		}
		if res == resErrDead || seen[resErrDead] {
			tag += ",R10"
		}
		m.fail(m.tags(strings.Split(tag, ",")...), "%s(%s) returned %s, which is impossible here (possible: %s)", rOpName[k], m.idNames[m.ops[s].id], resName(res), strings.Join(could, ", "))
		return
	}
	m.ops[s].active = false
}

func (m *rMon) setAbort(s int) {
	if s < 0 || !m.begin() {
		return
	}
	m.ev("abort  [%d]", s)
	m.ops[s].abort = true
}

func (m *rMon) setCtxDone(s int) {
	if s < 0 || !m.begin() {
		return
	}
	m.ev("cancel [%d]", s)
	m.ops[s].ctxDone = true
}

func (m *rMon) startCall(id int, ctx context.Context) int {
	if !m.begin() {
		return -1
	}
	k := len(m.calls)
	m.ev("start function of %s called (#%d)", m.idNames[id], k)
	for i := range m.calls {
		if m.calls[i].id == int8(id) && !m.calls[i].returned {
			m.fail("R01", "the start function of %q was called while another call of it was in progress", m.idNames[id])
		}
	}
	for i := range m.insts {
		if m.insts[i].id == int8(id) && !m.insts[i].stopped {
			m.fail("R01", "the start function of %q was called while instance #%d was still running", m.idNames[id], i)
		}
	}
	if m.deadSeen {
		m.fail("R02", "the start function of %q was called after the runner's Wait returned", m.idNames[id])
	}
	m.closure()
	m.calls = append(m.calls, rCall{id: int8(id), ctx: ctx, inst: -1, at: m.lastNow})
	due := time.Duration(-1)
	if !m.filter(func(w *rWorld) bool {
		e := &w.e[id]
		if e.ph == phWait {
			due = e.dl
		}
		if e.ph != phWait || e.dl != m.lastNow {
			return false
		}
		e.ph = phStart
		e.k = int8(k)
		e.dl = 0
		return true
	}) {
		extra := ""
		if due >= 0 {
			extra = fmt.Sprintf(" (it was due at %v)", due)
		}
		m.fail(m.tags("R04"), "the start function of %q must not be called now%s", m.idNames[id], extra)
	}
	return k
}

// startRet registers the outcome of start call k.
func (m *rMon) startRet(k int, err int8, w *Inst) int {
	if k < 0 || !m.begin() {
		return -1
	}
	m.closure()
	c := &m.calls[k]
	inst := int8(-1)
	if w != nil {
		inst = int8(len(m.insts))
		m.insts = append(m.insts, rInst{id: c.id, w: w, started: c.at, ready: m.lastNow})
	}
	c.returned, c.err, c.inst = true, err, inst
	m.ev("start function of %s (#%d) returns instance %d, error %s", m.idNames[c.id], k, inst, errName[err])
	return int(inst)
}

func (m *rMon) instKill(i int) {
	if i < 0 || !m.begin() {
		return
	}
	m.ev("instance #%d killed", i)
	in := &m.insts[i]
	in.killed = true
	if in.stopped {
		return
	}
	m.closure()
	if !m.filter(func(w *rWorld) bool {
		for s := range w.op {
			// StopAndRemoveWorker may kill the instance it found itself
			if m.ops[s].kind == rSR && w.op[s].st >= 2 && w.op[s].st <= 3 && w.op[s].inst == int8(i) {
				return true
			}
		}
		e := &w.e[in.id]
		switch e.ph {
		case phRun:
			return e.stop && e.k == int8(i)
		case phStart:
			return e.stop && m.calls[e.k].returned && m.calls[e.k].inst == int8(i)
		}
		return false
	}) {
		m.fail(m.tags("R04"), "instance #%d of %q was killed although nothing asked for it to stop", i, m.idNames[in.id])
	}
}

func (m *rMon) instStop(i int, err int8) {
	if i < 0 || !m.begin() {
		return
	}
	m.closure()
	m.ev("instance #%d stopped: %s", i, errName[err])
	m.insts[i].stopped = true
	m.insts[i].err = err
}

// idle registers that nothing can run until time passes or the scenario acts.
func (m *rMon) idle() {
	if !m.begin() {
		return
	}
	m.settle("quiescent")
}

// over is called when Wait has returned.
func (m *rMon) over() {
	if !m.begin() {
		return
	}
	for i := range m.insts {
		if !m.insts[i].stopped {
			m.fail(m.tags("R02"), "the runner's Wait returned while instance #%d of %q was running", i, m.idNames[m.insts[i].id])
		}
	}
	for i := range m.calls {
		if !m.calls[i].returned {
			m.fail(m.tags("R02"), "the runner's Wait returned while a start call of %q was in progress", m.idNames[m.calls[i].id])
		}
	}
	m.deadSeen = true
}

// ending says whether the runner may be on its way to its end.
func (m *rMon) ending() bool {
	for i := range m.ws {
		if m.ws[i].killed || m.ws[i].dying || m.ws[i].dead {
			return true
		}
	}
	return false
}
