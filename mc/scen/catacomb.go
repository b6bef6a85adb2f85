package scen

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"

	"verifmc/mc"
)

var (
	errC1    = errors.New("kill error 1")
	errC2    = errors.New("kill error 2")
	errCWork = errors.New("work error")
	errCInst = errors.New("worker error")
	errCEnd  = errors.New("worker error when killed")
)

const never = 1 << 30

// cWorker is a worker given to the catacomb.
type cWorker struct {
	*Inst
	name     string
	pending  bool // the call that handed it over is in progress
	owned    bool
	ours     bool // killed by the scenario
	alien    bool // never given to the catacomb
	killLive bool // killed by the catacomb while that was alive
	value    bool // given as a value that cannot be compared
}

func (w *cWorker) handed() worker.Worker {
	if w.value {
		return sliceInst{w.Inst, nil}
	}
	return w.Inst
}

// cRep is a cause of the catacomb's death.
type cRep struct {
	what      string
	noop      bool
	match     func(error) bool // nil: a nil error
	call, ret int
	w         *cWorker
	work      bool
	late      bool // the catacomb died before the call returned
	after     bool // the catacomb was dying already
}

type cCtx struct {
	ctx, parent context.Context
	name        string
}

type ch struct {
	t       *mc.T
	c       *catacomb.Catacomb
	invoked bool
	dying   <-chan struct{}
	dead    <-chan struct{}
	ws      []*cWorker
	reps    []*cRep
	seq     int
	nWork   int
	workRun bool
	workEnd bool
	workGo  chan error
	workHow string
	panicV  any
	pend    map[string]int
	ctxs    []cCtx
	fixed   error // a non-nil reason that was observed
	deadObs int   // when death was first observed
	deadSet bool
	par     int
	body    func() // runs at the beginning of the work function
}

func closed(c <-chan struct{}) bool {
	if c == nil {
		return false
	}
	runtime.VerifNoPoint(true)
	defer runtime.VerifNoPoint(false)
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func newCH(t *mc.T) *ch {
	return &ch{t: t, c: &catacomb.Catacomb{}, workGo: make(chan error, 1), pend: map[string]int{}, deadObs: never}
}

func (h *ch) tick() int {
	h.t.Touch()
	h.seq++
	return h.seq
}

func (h *ch) fail(tag, f string, a ...any) { h.t.Failf(tag, f, a...) }

// errMatch says how an error given to the catacomb shows up as its reason.
func (h *ch) errMatch(err error) (noop bool, match func(error) bool, what string) {
	switch {
	case err == nil:
		return false, nil, "nil"
	case err == tomb.ErrDying || err == tomb.ErrStillAlive || isOtherDying(err):
		return false, func(v error) bool {
			return v != nil && v != tomb.ErrDying && v != tomb.ErrStillAlive && !isOtherDying(v) && v != errC1 && v != errC2 &&
				v != errCWork && v != errCInst && v != errCEnd && v.Error() != err.Error() && strings.Contains(v.Error(), "bad catacomb Kill")
		}, "misuse: " + err.Error()
	case strings.HasSuffix(err.Error(), " is dying"):
		return true, nil, "own ErrDying"
	}
	return false, func(v error) bool { return sameErr(v, err) }, fmt.Sprintf("%q", err.Error())
}

var otherCat = func() *catacomb.Catacomb { return &catacomb.Catacomb{} }()

type otherMark struct{ error }

func isOtherDying(err error) bool {
	var m otherMark
	return errors.As(err, &m)
}

func (h *ch) report(err error, w *cWorker, work bool) *cRep {
	r := &cRep{call: h.tick(), ret: never, w: w, work: work}
	r.noop, r.match, r.what = h.errMatch(err)
	if mc.RaceMode {
		return r
	}
	r.after = closed(h.dying)
	h.reps = append(h.reps, r)
	return r
}

// killRep records a Kill call with the given error; mis is set if the error is
// another catacomb's ErrDying.
func (h *ch) Kill(err error) {
	h.t.Point()
	e := err
	if m, ok := err.(otherMark); ok {
		e = m.error
	}
	isDead := closed(h.dead)
	r := h.report(err, nil, false)
	if isDead || h.deadObs < r.call {
		r.noop = true // ignored
		r.what = "after death: " + r.what
	}
	h.t.Logf("Kill(%v)", err)
	h.enter("Kill")
	h.c.Kill(e)
	h.leave("Kill")
	if !closed(h.dead) {
		r.ret = h.tick()
	} else {
		// the catacomb may have died first
		r.late = true
	}
}

func (h *ch) enter(s string) {
	if !mc.RaceMode {
		h.t.Touch()
		h.pend[s]++
	}
}

func (h *ch) leave(s string) {
	if !mc.RaceMode {
		h.t.Touch()
		h.pend[s]--
	}
}

// mk makes a worker that is not yet given to the catacomb.
func (h *ch) mk(kind string) *cWorker {
	w := &cWorker{name: fmt.Sprintf("%s%d", kind, len(h.ws))}
	switch kind {
	case "sync":
		w.Inst = NewInst(h.t, w.name, 0, false, nil)
	case "sync-err":
		w.Inst = NewInst(h.t, w.name, 0, false, errCEnd)
	case "dyn":
		w.Inst = NewInst(h.t, w.name, 0, true, nil)
	case "dyn-err":
		w.Inst = NewInst(h.t, w.name, 0, true, errCEnd)
	case "stub":
		w.Inst = NewStubborn(h.t, w.name, 0, nil)
	case "stub-err":
		w.Inst = NewStubborn(h.t, w.name, 0, errCEnd)
	case "gone":
		w.Inst = NewInst(h.t, w.name, 0, false, nil)
		w.Inst.Exit(nil)
	case "gone-err":
		w.Inst = NewInst(h.t, w.name, 0, false, nil)
		w.Inst.Exit(errCInst)
	case "gone-own": // stops with the catacomb's own ErrDying
		w.Inst = NewInst(h.t, w.name, 0, false, nil)
	case "tomb-dying":
		w.Inst = NewInst(h.t, w.name, 0, true, tomb.ErrDying)
	default:
		panic(kind)
	}
	if mc.RaceMode {
		return w
	}
	h.ws = append(h.ws, w)
	w.Inst.OnKill = func(*Inst) {
		if w.alien {
			h.fail("C02", "the catacomb killed %s, a worker it was never given", w.name)
		}
		if !w.ours && h.dying != nil && !closed(h.dying) {
			w.killLive = true
		}
	}
	w.Inst.OnStop = func(i *Inst) {
		h.report(i.Err, w, false)
		if w.owned && closed(h.dead) {
			h.fail("C01", "the catacomb was dead before its worker %s stopped", w.name)
		}
	}
	return w
}

// give marks w as being handed over, and gave as handed over.
func (h *ch) give(w *cWorker) {
	h.t.Touch()
	w.pending = true
	if w.Stopped {
		h.report(w.Err, w, false)
	}
}

func (h *ch) Add(w *cWorker) error {
	h.t.Point()
	if mc.RaceMode {
		return h.c.Add(w.handed())
	}
	h.give(w)
	h.t.Logf("Add(%s)", w.name)
	err := h.c.Add(w.handed())
	h.t.Touch()
	w.pending = false
	h.t.Logf("Add(%s) = %v", w.name, err)
	if err == nil {
		w.owned = true
		if closed(h.dead) && !w.Stopped {
			h.fail("C01,C02", "Add accepted %s, but the catacomb is dead and the worker has not stopped", w.name)
		}
		return nil
	}
	for _, r := range h.reps {
		if r.w == w {
			r.noop = true
			r.what = "refused: " + r.what
		}
	}
	if !closed(h.dying) {
		h.fail("C02", "Add(%s) failed with %v though the catacomb is not dying", w.name, err)
	}
	if !w.Stopped {
		h.fail("C02", "Add(%s) failed with %v without stopping the worker", w.name, err)
		return err
	}
	if w.Err != nil && !wraps(err, w.Err) {
		h.fail("C02", "Add(%s) failed with %v, not with the error the worker stopped with, %v", w.name, err, w.Err)
	} else if w.Err == nil && !isOwnDying(h.c, err) {
		h.fail("C02,C05", "Add(%s) failed with %v, not with the catacomb's ErrDying", w.name, err)
	}
	return err
}

func isOwnDying(c *catacomb.Catacomb, err error) bool {
	return err != nil && errors.Cause(err) == c.ErrDying()
}

func (h *ch) work() error {
	h.t.Point()
	h.nWork++
	h.workRun = true
	if h.nWork > 1 {
		h.fail("C04", "the work function was called twice")
	}
	var err error
	own := false
	if h.body != nil {
		h.body()
	}
	switch h.workHow {
	case "now":
		err = <-h.workGo
	default:
		select {
		case <-h.c.Dying():
			switch h.workHow {
			case "", "own":
				err = h.c.ErrDying()
				own = true
			case "nil":
			case "err":
				err = errCWork
			case "stub":
				err = <-h.workGo
			}
		case err = <-h.workGo:
		}
	}
	h.t.Point()
	if mc.RaceMode {
		if h.panicV != nil {
			panic(h.panicV)
		}
		return err
	}
	if err == errOwn {
		err = h.c.ErrDying()
		own = isOwnDying(h.c, err)
	}
	if closed(h.dead) {
		h.fail("C01", "the catacomb was dead before its work function returned")
	}
	if h.panicV != nil {
		r := h.report(errCWork, nil, true)
		v := fmt.Sprint(h.panicV)
		r.what = "panic " + v
		r.match = func(e error) bool {
			p, ok := e.(interface{ Panicked() bool })
			s, ok2 := e.(interface{ StackTrace() []string })
			return ok && p.Panicked() && ok2 && strings.Contains(e.Error(), v) && strings.Contains(strings.Join(s.StackTrace(), "\n"), "goroutine")
		}
		h.workEnd = true
		panic(h.panicV)
	}
	r := h.report(err, nil, true)
	if own {
		r.noop = true
	}
	h.workEnd = true
	h.t.Logf("work returns %v", err)
	return err
}

var errOwn = errors.New("placeholder for the catacomb's own ErrDying")

// End lets the work function return.
func (h *ch) End(err error) {
	h.t.Point()
	h.t.Logf("work is told to return %v", err)
	select {
	case h.workGo <- err:
	default:
	}
}

func (h *ch) Panic(v any) {
	h.t.Touch()
	h.panicV = v
	h.End(nil)
}

// Invoke runs the catacomb with the given workers.
func (h *ch) Invoke(init ...*cWorker) error {
	h.t.Point()
	var ws []worker.Worker
	for _, w := range init {
		ws = append(ws, w.handed())
		if !mc.RaceMode {
			h.give(w)
		}
	}
	err := catacomb.Invoke(catacomb.Plan{Name: "cat", Site: h.c, Work: h.work, Init: ws})
	h.t.Logf("Invoke = %v", err)
	// the slice is the caller's again
	for i := range ws {
		if !mc.RaceMode {
			al := &cWorker{name: "alien"}
			al.Inst = NewInst(h.t, "alien", i, false, nil)
			al.alien = true
			al.Inst.OnKill = func(*Inst) { h.fail("C02", "the catacomb killed a worker it was never given") }
			ws[i] = al.Inst
		} else {
			ws[i] = nil
		}
	}
	if mc.RaceMode {
		return err
	}
	h.t.Touch()
	if err == nil {
		if h.invoked {
			h.fail("C04", "a second Invoke of the same catacomb succeeded")
		}
		h.invoked = true
		h.dying, h.dead = h.c.Dying(), h.c.Dead()
	}
	for _, w := range init {
		w.pending = false
		if err == nil {
			w.owned = true
		} else {
			for _, r := range h.reps {
				if r.w == w {
					r.noop = true
				}
			}
			if !w.Stopped {
				h.fail("C02,C04", "a failed Invoke returned before its worker %s had stopped", w.name)
			}
			w.killLive = false
			w.ours = true
		}
	}
	return err
}

// Again uses the catacomb again, which must fail.
func (h *ch) Again(init ...*cWorker) {
	n := h.nWork
	h.enter("Invoke")
	err := h.Invoke(init...)
	h.leave("Invoke")
	if err == nil {
		h.fail("C04", "a second Invoke of the same catacomb succeeded")
	}
	_ = n
}

// allowed checks an observation v of the reason, made in [s0,s1].
func (h *ch) allowed(what string, v error, s0 int, wait bool) {
	if mc.RaceMode {
		return
	}
	s1 := h.tick()
	if wait && h.deadObs > s1 {
		h.deadObs = s1
	}
	done := func(r *cRep) bool {
		if r.ret < s0 {
			return true
		}
		// death comes after the reports of the work function and the workers
		return wait && (r.work || r.w != nil && r.w.owned) && r.call < s1
	}
	if h.fixed != nil {
		if !sameErr(v, h.fixed) {
			h.fail("C03", "%s returned %v after the reason %v had been seen", what, v, h.fixed)
		}
		return
	}
	cause, doneCause, doneErr := false, false, ""
	okCand := false
	for _, r := range h.reps {
		// a worker's error counts from when it is owned (or may be)
		if r.w != nil && (r.match == nil || !r.w.owned && !r.w.pending) {
			continue
		}
		if r.noop && !r.work {
			continue
		}
		cause = true
		if done(r) {
			doneCause = true
		}
		if r.match == nil || r.noop {
			continue
		}
		if done(r) {
			doneErr = r.what
		}
		if v != nil && r.match(v) {
			ok := true
			for _, o := range h.reps {
				if o != r && !o.noop && o.match != nil && o.ret < r.call && (o.w == nil || o.w.owned) {
					ok = false
				}
			}
			if r.after {
				// Something made the catacomb die before this error
				// occurred; unless that may have been without an error,
				// this one cannot be the first.
				nilCause := false
				for _, o := range h.reps {
					if o.call < r.call && o.w == nil && o.match == nil && !o.noop {
						nilCause = true
					}
				}
				ok = ok && nilCause
			}
			okCand = okCand || ok
		}
	}
	switch {
	case v == nil:
		if !cause {
			h.fail("C03,C07", "%s returned nil though nothing killed the catacomb", what)
		} else if doneErr != "" {
			h.fail("C03,C05", "%s returned nil after the catacomb had been killed with %s: %s", what, doneErr, h.dump())
		}
	case v == tomb.ErrStillAlive:
		if wait {
			h.fail("C03", "Wait returned ErrStillAlive")
		} else if doneCause {
			h.fail("C03,C07", "Err returned ErrStillAlive after the catacomb had been killed: %s", h.dump())
		}
	case okCand:
		h.fixed = v
	default:
		h.fail("C03,C05,C06", "%s returned %v, which is not the first non-nil error: %s", what, v, h.dump())
	}
}

func (h *ch) dump() string {
	var s []string
	for _, r := range h.reps {
		x := fmt.Sprintf("%s[%d,%d]", r.what, r.call, r.ret)
		if r.w != nil {
			x = r.w.name + ":" + x
		}
		if r.noop {
			x += "(void)"
		}
		s = append(s, x)
	}
	return strings.Join(s, " ")
}

func (h *ch) Wait() error {
	h.t.Point()
	h.enter("Wait")
	s := h.tick()
	err := h.c.Wait()
	h.leave("Wait")
	h.t.Logf("Wait = %v", err)
	h.checkDead("Wait returned")
	h.allowed("Wait", err, s, true)
	return err
}

func (h *ch) Err() {
	h.t.Point()
	h.enter("Err")
	s := h.tick()
	err := h.c.Err()
	h.leave("Err")
	h.t.Logf("Err = %v", err)
	h.allowed("Err", err, s, false)
}

func (h *ch) ErrDying() error {
	h.t.Point()
	was := closed(h.dying)
	err := h.c.ErrDying()
	is := closed(h.dying)
	if strings.HasSuffix(err.Error(), "is dying") {
		if !is {
			h.fail("C05", "ErrDying returned %v though the catacomb is alive", err)
		}
	} else if was {
		h.fail("C05", "ErrDying returned %v though the catacomb was dying", err)
	}
	return err
}

// KillOwn does what work functions do when the catacomb is dying.
func (h *ch) KillOwn() {
	err := h.ErrDying()
	h.Kill(err)
}

func (h *ch) Context(parent context.Context, name string) context.Context {
	h.t.Point()
	was := closed(h.dying)
	ctx := h.c.Context(parent)
	if mc.RaceMode {
		return ctx
	}
	if was && ctx.Err() == nil {
		h.fail("C07", "the context obtained from a dying catacomb is not cancelled")
	}
	if parent != nil && parent.Value(ctxKey{}) != ctx.Value(ctxKey{}) {
		h.fail("C07", "the context does not derive from its parent")
	}
	h.t.Touch()
	h.ctxs = append(h.ctxs, cCtx{ctx, parent, name})
	return ctx
}

func (h *ch) checkDead(what string) {
	if mc.RaceMode {
		return
	}
	if !h.workEnd {
		h.fail("C01", "%s before the work function had returned", what)
	}
	for _, w := range h.ws {
		if w.owned && !w.Stopped {
			h.fail("C01", "%s before the worker %s had stopped", what, w.name)
		}
	}
}

// Idle waits until nothing can happen by itself and checks the state.
func (h *ch) Idle() {
	h.t.Quiesce()
	if mc.RaceMode {
		return
	}
	s := h.tick()
	if !h.invoked {
		return
	}
	cause, all := "", true
	for _, r := range h.reps {
		if r.ret > s && !r.late && !(r.w != nil && r.w.pending) {
			r.ret = s
		}
		if r.w != nil && (!r.w.owned || r.match == nil) || r.noop && !r.work {
			continue
		}
		if r.call >= h.deadObs {
			continue
		}
		cause = r.what
	}
	dying, dead := closed(h.dying), closed(h.dead)
	if dying && cause == "" {
		h.fail("C02,C03,C07", "the catacomb is dying though nothing killed it: %s", h.dump())
	}
	if !dying && cause != "" {
		h.fail("C02,C03,C07", "the catacomb is not dying though it was killed (%s)", cause)
	}
	for _, w := range h.ws {
		if w.pending {
			if !dying || w.Stopped {
				h.fail("C02", "the call that hands over %s does not return (dying %v, worker stopped %v)", w.name, dying, w.Stopped)
			}
			if !w.Killed {
				h.fail("C02", "%s, refused by the dying catacomb, is not killed", w.name)
			}
			all = all && true
			continue
		}
		if w.owned && !w.Stopped {
			all = false
			if dying && !w.Killed {
				h.fail("C02", "the catacomb is dying but its worker %s was not killed", w.name)
			}
		}
		if w.owned && w.killLive {
			h.fail("C02", "the catacomb killed its worker %s while it was not dying", w.name)
		}
	}
	if !h.workRun {
		h.fail("C04", "the work function was not called")
	}
	if dying && all && h.workEnd && !dead {
		h.fail("C01", "the catacomb is not dead though its work function returned and all its workers stopped")
	}
	if dead {
		if h.deadObs > s {
			h.deadObs = s
		}
		h.checkDead("the catacomb was dead")
		if h.pend["Wait"] > 0 {
			h.fail("C01", "Wait does not return though the catacomb is dead")
		}
	}
	if h.pend["Kill"] > 0 || h.pend["Err"] > 0 {
		h.fail("C05,C07", "Kill or Err does not return")
	}
	for _, c := range h.ctxs {
		want := dying || c.parent != nil && c.parent.Err() != nil
		if (c.ctx.Err() != nil) != want {
			h.fail("C07", "context %s: cancelled is %v, but the catacomb is dying: %v, and its parent was cancelled: %v", c.name, c.ctx.Err() != nil, dying, c.parent != nil && c.parent.Err() != nil)
		}
	}
	s = h.tick()
	h.t.Calm(true)
	runtime.VerifNoPoint(true)
	h.allowed("Err", h.c.Err(), s, false)
	runtime.VerifNoPoint(false)
	h.t.Calm(false)
}

func (h *ch) Par(fs ...func()) {
	for _, f := range fs {
		if mc.RaceMode {
			go f()
			continue
		}
		h.par++
		go func() {
			f()
			h.t.Touch()
			h.par--
		}()
	}
	h.Idle()
}

func (h *ch) w0() *cWorker {
	for _, w := range h.ws {
		if w.owned {
			return w
		}
	}
	return nil
}

func (h *ch) ReleaseAll() {
	for _, w := range h.ws {
		if w.hold != nil && !w.released {
			w.released = true
			w.Release()
		}
	}
	if h.workHow == "stub" || h.workHow == "now" {
		h.End(nil)
	}
}

// Pass lets time pass.
func (h *ch) Pass(d time.Duration) {
	h.t.After(d)
	h.Idle()
}

// Finish drives the catacomb to its end.
func (h *ch) Finish() {
	if mc.RaceMode {
		h.c.Kill(nil)
		h.t.Quiesce()
		return
	}
	if h.t.Failed() {
		return
	}
	h.t.Calm(true)
	if h.invoked {
		h.Pass(long)
		h.Par(func() { h.Err() })
		h.Par(func() { h.Context(nil, "late") })
		h.Par(func() { h.Kill(nil) })
		h.Pass(long)
		h.ReleaseAll()
		h.Par(func() { h.Wait() })
		h.Par(func() { h.Kill(errC2) })
		h.Par(func() { h.Wait() })
		w := h.mk("dyn")
		h.Par(func() { h.Add(w) })
		w2 := h.mk("sync-err")
		h.Par(func() { h.Add(w2) })
		w3 := h.mk("dyn")
		h.Par(func() { h.Again(w3) })
		h.Par(func() { h.Context(context.Background(), "dead") })
	}
	h.t.Settle()
	h.t.Touch()
	if h.par != 0 {
		h.fail("C01,C02", "%d calls never returned", h.par)
	}
	for _, w := range h.ws {
		if !w.Stopped && !w.alien {
			h.fail("C02", "the worker %s never stopped", w.name)
		}
	}
}

// ---- pairs of concurrent calls

type cAct struct {
	name string
	prop string
	do   func(h *ch)
}

var cActs = []cAct{
	{"kill-nil", "C03", func(h *ch) { h.Kill(nil) }},
	{"kill-1", "C03", func(h *ch) { h.Kill(errC1) }},
	{"kill-2", "C03", func(h *ch) { h.Kill(errC2) }},
	{"kill-own", "C05", func(h *ch) { h.KillOwn() }},
	{"kill-own-wrapped", "C05", func(h *ch) {
		err := h.ErrDying()
		h.Kill(wrapSuffix{err})
	}},
	{"kill-tomb", "C05", func(h *ch) { h.Kill(tomb.ErrDying) }},
	{"kill-other", "C05", func(h *ch) { h.Kill(otherMark{otherDying()}) }},
	{"kill-other-wrapped", "C05", func(h *ch) { h.Kill(otherMark{errors.Annotate(otherDying(), "wrapped")}) }},
	{"work-nil", "C01", func(h *ch) { h.End(nil) }},
	{"work-err", "C03", func(h *ch) { h.End(errCWork) }},
	{"work-own", "C05", func(h *ch) { h.End(errOwn) }},
	{"work-panic", "C06", func(h *ch) { h.Panic("boom") }},
	{"add-sync", "C02", func(h *ch) { h.Add(h.mk("sync")) }},
	{"add-sync-err", "C02", func(h *ch) { h.Add(h.mk("sync-err")) }},
	{"add-dyn", "C02", func(h *ch) { h.Add(h.mk("dyn")) }},
	{"add-dyn-err", "C02", func(h *ch) { h.Add(h.mk("dyn-err")) }},
	{"add-gone", "C02", func(h *ch) { h.Add(h.mk("gone")) }},
	{"add-gone-err", "C02", func(h *ch) { h.Add(h.mk("gone-err")) }},
	{"add-stub", "C02", func(h *ch) { h.Add(h.mk("stub")) }},
	{"w-exit", "C02", func(h *ch) { h.t.Point(); h.w0().Exit(nil) }},
	{"w-fail", "C03", func(h *ch) { h.t.Point(); h.w0().Exit(errCInst) }},
	{"w-kill", "C02", func(h *ch) { h.t.Point(); w := h.w0(); w.ours = true; w.Inst.Kill() }},
	{"again", "C04", func(h *ch) { h.Again(h.mk("dyn")) }},
	{"wait", "C01", func(h *ch) { h.Wait() }},
	{"err", "C07", func(h *ch) { h.Err() }},
	{"ctx", "C07", func(h *ch) { h.Context(context.Background(), "pair") }},
}

// wrapSuffix wraps an error, hiding nothing.
type wrapSuffix struct{ error }

func (w wrapSuffix) Unwrap() error { return w.error }

var theOther *catacomb.Catacomb

func otherDying() error {
	// A catacomb of its own, dying with a distinct identity.
	runtime.VerifNoPoint(true)
	defer runtime.VerifNoPoint(false)
	c := &catacomb.Catacomb{}
	c.Kill(nil)
	return c.ErrDying()
}

var cInits = []struct {
	name string
	work string
	do   func(h *ch)
}{
	{"bare", "", func(h *ch) { h.Invoke() }},
	{"sync", "nil", func(h *ch) { h.Invoke(h.mk("sync")) }},
	{"dyn-err", "", func(h *ch) { h.Invoke(h.mk("dyn-err")) }},
	{"stub", "err", func(h *ch) { h.Invoke(h.mk("stub")) }},
	{"added-dyn", "stub", func(h *ch) { h.Invoke(); w := h.mk("dyn"); h.Par(func() { h.Add(w) }) }},
	{"dying-stub", "", func(h *ch) { h.Invoke(h.mk("stub-err")); h.Idle(); h.Kill(nil); h.Idle() }},
	{"dying-work", "stub", func(h *ch) { h.Invoke(h.mk("sync")); h.Idle(); h.Kill(nil); h.Idle() }},
	{"failed-stub", "", func(h *ch) { h.Invoke(h.mk("stub")); h.Idle(); h.Kill(errC1); h.Idle() }},
	{"dead", "", func(h *ch) { h.Invoke(); h.Idle(); h.Kill(nil); h.Idle() }},
}

var (
	cCore     = set("kill-nil", "kill-1", "work-err", "add-sync-err", "add-dyn", "add-gone-err", "w-fail", "w-exit", "again", "wait")
	cCoreInit = set("bare", "dyn-err", "added-dyn", "dying-stub")
)

func set(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cAllows(in string, a cAct) bool {
	switch a.name {
	case "w-exit", "w-fail", "w-kill":
		return in != "bare" && in != "dying-work" && in != "dead"
	case "work-nil", "work-err", "work-own", "work-panic":
		return in != "dead" && in != "dying-stub" && in != "failed-stub"
	}
	return true
}

func cExclusive(a, b cAct) bool {
	p := func(s string) string { return s[:strings.IndexByte(s+"-", '-')] }
	return p(a.name) == "work" && p(b.name) == "work" || p(a.name) == "w" && p(b.name) == "w"
}

func init() {
	for _, in := range cInits {
		for i, a := range cActs {
			for j := i; j < len(cActs); j++ {
				b := cActs[j]
				if !cAllows(in.name, a) || !cAllows(in.name, b) || cExclusive(a, b) {
					continue
				}
				mc.Register(&mc.Scenario{
					Name:     fmt.Sprintf("catacomb/pair/%s/%s+%s", in.name, a.name, b.name),
					Props:    uniq("C01", "C02", "C03", "C05", "C06", "C07", a.prop, b.prop),
					MaxBound: 1 + b2i(cCoreInit[in.name] && cCore[a.name] && cCore[b.name]), ThoroughBound: 2,
					Full: b2i(cCoreInit[in.name] && cCore[a.name] && cCore[b.name]),
					Run: func(t *mc.T) {
						h := newCH(t)
						h.workHow = in.work
						t.Calm(true)
						in.do(h)
						h.Idle()
						t.Calm(true)
						h.Context(nil, "early")
						t.Calm(false)
						h.Par(func() { a.do(h) }, func() { b.do(h) })
						h.Finish()
					},
				})
			}
		}
	}
}
