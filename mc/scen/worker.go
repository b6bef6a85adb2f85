// Package scen holds the closed scenarios the model checker explores.
package scen

import (
	"context"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

// Clock is the virtual clock: package time is virtualised for controlled
// goroutines, so it only has to forward.
type Clock struct{}

// sliceError cannot be compared.
type sliceError []string

func (e sliceError) Error() string { return strings.Join(e, ", ") }

// nilError is an error whose value may be a nil pointer.
type nilError struct{ s string }

func (*nilError) Error() string { return "typed nil" }

func sameErr(a, b error) bool {
	if x, ok := a.(sliceError); ok {
		y, ok := b.(sliceError)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	if _, ok := b.(sliceError); ok {
		return false
	}
	return a == b
}

// wraps is errors.Is, also for errors that cannot be compared.
func wraps(err, target error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if sameErr(err, target) {
			return true
		}
	}
	return errors.Is(err, target)
}

// specials are errors that mean something elsewhere, but not as the error of a
// worker.
var specials = []error{
	context.Canceled,
	context.DeadlineExceeded,
	errors.Trace(context.Canceled),
	tomb.ErrDying,
	tomb.ErrStillAlive,
	worker.ErrDead,
	errors.Trace(worker.ErrDead),
	worker.ErrAborted,
	errors.Annotate(worker.ErrAborted, "annotated"),
	errors.NotFoundf("a thing"),
	errors.AlreadyExistsf("a thing"),
	errors.NotValidf("a thing"),
	errors.Timeoutf("a thing"),
	errors.Annotate(errFatal1, "annotated"),
	errors.Trace(errRestart),
	fmt.Errorf("wrapped: %w", errNoRestart),
	dependency.ErrBounce,
	dependency.ErrMissing,
	dependency.ErrUninstall,
	io.EOF,
	errors.New(""),
	sliceError{"one", "two"},
	(*nilError)(nil),
}

func specialNames() (ns []string) {
	for _, e := range specials {
		ns = append(ns, fmt.Sprintf("%T(%v)", e, e))
	}
	return ns
}

// long is longer than any timeout that the code might have.
const long = 1000 * time.Hour

// The clock is one of a place where it is not UTC.
func (Clock) Now() time.Time { return time.Now().In(zone) }

var zone = time.FixedZone("there", -7*3600-1800)
func (Clock) After(d time.Duration) <-chan time.Time {
	if d <= 0 {
		// due at once: need not wait until nothing else can run
		runtime.VerifNoPoint(true)
		c := make(chan time.Time, 1)
		c <- time.Now()
		runtime.VerifNoPoint(false)
		return c
	}
	return time.After(d)
}

// Logger swallows everything.
type Logger struct{}

func (Logger) Tracef(string, ...interface{}) {}
func (Logger) Debugf(string, ...interface{}) {}
func (Logger) Infof(string, ...interface{})  {}
func (Logger) Errorf(string, ...interface{}) {}

// Inst is one harness worker.  It stops when killed, or by itself when it is
// released.
type Inst struct {
	t    *mc.T
	ID   string
	Gen  int
	Dyn  bool // has a goroutine, so stopping is asynchronous
	mu   sync.Mutex
	kill chan struct{}
	exit chan struct{}
	dead chan struct{}
	// Err is what Wait returns; the fields below are monitor state.
	Err     error
	KillErr error
	ExitErr error
	OnStop  func(*Inst)
	OnKill  func(*Inst)
	Rep     map[string]interface{}
	NoDead  bool

	killed   bool
	exited   bool
	Stopped  bool
	Killed   bool // Kill was called
	NKill    int
	Waited   bool // some Wait returned
	hold     chan struct{}
	released bool
	Ctx      context.Context
}

// NewInst makes a worker.  A dynamic one runs a goroutine; others stop
// synchronously when killed or released.
func NewInst(t *mc.T, id string, gen int, dyn bool, killErr error) *Inst {
	w := &Inst{t: t, ID: id, Gen: gen, Dyn: dyn, KillErr: killErr,
		kill: make(chan struct{}), exit: make(chan struct{}), dead: make(chan struct{})}
	if dyn {
		go w.loop()
	}
	return w
}

// NewStubborn is a dynamic worker that, once killed, stops only when Release
// is called.
func NewStubborn(t *mc.T, id string, gen int, killErr error) *Inst {
	w := &Inst{t: t, ID: id, Gen: gen, Dyn: true, KillErr: killErr, hold: make(chan struct{}),
		kill: make(chan struct{}), exit: make(chan struct{}), dead: make(chan struct{})}
	go w.loop()
	return w
}

// Release lets a stubborn worker stop.
func (w *Inst) Release() {
	runtime.VerifNoPoint(true)
	close(w.hold)
	runtime.VerifNoPoint(false)
}

func (w *Inst) loop() {
	var err error
	select {
	case <-w.kill:
		err = w.KillErr
		if w.hold != nil {
			<-w.hold
		}
	case <-w.exit:
		err = w.ExitErr
	}
	w.t.Point()
	w.stop(err)
}

func (w *Inst) stop(err error) {
	runtime.VerifNoPoint(true)
	w.Err = err
	if !mc.RaceMode {
		w.Stopped = true
	}
	w.t.Touch()
	w.t.Logf("worker %s#%d stopped: %v", w.ID, w.Gen, err)
	if w.OnStop != nil {
		w.OnStop(w)
	}
	close(w.dead)
	runtime.VerifNoPoint(false)
}

// Kill is part of worker.Worker.
func (w *Inst) Kill() {
	runtime.VerifNoPoint(true)
	w.mu.Lock()
	first := !w.killed
	w.killed = true
	gone := w.exited
	if !w.Dyn && first && !gone {
		w.exited = true
	}
	w.mu.Unlock()
	if !mc.RaceMode {
		w.t.Touch()
		w.Killed = true
		w.NKill++
		w.t.Logf("worker %s#%d killed", w.ID, w.Gen)
		if w.OnKill != nil {
			w.OnKill(w)
		}
	}
	if first {
		close(w.kill)
		if !w.Dyn && !gone {
			w.stop(w.KillErr)
		}
	}
	runtime.VerifNoPoint(false)
}

// Exit makes the worker stop by itself with err (once).
func (w *Inst) Exit(err error) {
	runtime.VerifNoPoint(true)
	w.mu.Lock()
	first := !w.exited
	w.exited = true
	w.mu.Unlock()
	if first {
		w.ExitErr = err
		if w.Dyn {
			close(w.exit)
		} else {
			w.stop(err)
		}
	}
	runtime.VerifNoPoint(false)
}

// Wait is part of worker.Worker.
func (w *Inst) Wait() error {
	<-w.dead
	if !mc.RaceMode {
		w.Waited = true
	}
	return w.Err
}

// Report makes the worker a Reporter.
func (w *Inst) Report() map[string]interface{} {
	return w.Rep
}

var (
	errRestart   = errors.New("restartable")
	errNoRestart = errors.New("not restartable")
	errFatal1    = errors.New("fatal 1")
	errFatal2    = errors.New("fatal 2")
	errKilled    = errors.New("error when killed")
	errPanic     = error(&panicError{})
)

// panicError is an error like those a catacomb makes from a panic.
type panicError struct{}

func (*panicError) Error() string        { return "restartable panic" }
func (*panicError) StackTrace() []string { return []string{"line 1", "line 2"} }
func (*panicError) Panicked() bool       { return true }
