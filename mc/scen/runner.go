package scen

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/juju/errors"
	"github.com/juju/worker/v4"

	"verifmc/mc"
)

const restartDelay = 10 * time.Second

// behav says what one call of a start function does.
type behav struct {
	block    bool // waits until released (or, if honour, until its context is done)
	honour   bool
	err      int8 // fails with this error
	goexit   bool
	do       func() // what the start function does first
	dyn      bool   // the instance stops asynchronously
	stubborn bool   // the instance, once killed, waits for a release
	killErr  int8   // what the instance returns when killed
	slow     time.Duration
}

type ctxKey struct{}

// rh is a runner under test together with its specification.
type rh struct {
	t       *mc.T
	m       *rMon
	r       *worker.Runner
	mu      sync.Mutex
	rel     [2]chan struct{} // releases blocked start calls
	relDone [2]bool
	cur     [2]*Inst
	ncall   [2]int
	all     []*Inst
	abort   chan struct{}
	abortS  []int
	aborted bool
	setup   bool
	noRet   int
	wantCtx [2]any
	nextErr [2]int8
	reqs    []rReq
	clk     int
}

// rReq is a StartWorker call.
type rReq struct {
	id            int
	called, ended int
	ok, used      bool
}

type rcfg struct {
	delay   time.Duration
	nilCfg  bool // nil IsFatal, ShouldRestart and MoreImportant
	more    func(a, b int8) bool
	fatal   func(int8) bool
	restart func(int8) bool
	ids     [2]string
}

func newRH(t *mc.T, c rcfg) *rh {
	h := &rh{t: t, abort: make(chan struct{})}
	d := c.delay
	if d == 0 {
		d = restartDelay
	}
	h.m = newRMon(t, d)
	idName = [2]string{"a", "b"}
	if c.ids[0] != c.ids[1] {
		idName = c.ids
		h.m.idNames = c.ids[:]
	}
	p := worker.RunnerParams{Name: "runner", RestartDelay: d, Clock: Clock{}, Logger: Logger{}}
	if c.fatal != nil {
		h.m.fatal = c.fatal
	}
	if c.restart != nil {
		h.m.restart = c.restart
	}
	if c.nilCfg {
		h.m.fatal = func(int8) bool { return true }
		h.m.restart = func(int8) bool { return true }
	} else {
		p.IsFatal = func(err error) bool { return h.m.fatal(errIdx(err)) }
		p.ShouldRestart = func(err error) bool { return h.m.restart(errIdx(err)) }
	}
	if c.more != nil {
		h.m.more = c.more
		p.MoreImportant = func(a, b error) bool { return c.more(errIdx(a), errIdx(b)) }
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		panic(err)
	}
	h.r = r
	for i := range h.rel {
		h.rel[i] = make(chan struct{})
	}
	return h
}

var idName = [2]string{"a", "b"}

// usedReq notes that the start function given to the q-th StartWorker is called.
func (h *rh) usedReq(q int) {
	if q < 0 || h.t.Failed() {
		return
	}
	r := &h.reqs[q]
	r.used = true
	if r.ended == 0 {
		return
	}
	if !r.ok {
		h.m.fail("R05", "the start function of a StartWorker of %q that was refused is called", idName[r.id])
	}
	for _, o := range h.reqs[q+1:] {
		// an accepted StartWorker of a dying runner has no effect
		if o.id == r.id && o.ok && o.called > r.ended && !h.m.ending() {
			h.m.fail("R05", "a start function of %q is called that is not the one given to the last StartWorker", idName[r.id])
		}
	}
}

func (h *rh) startFn(id, q int, bs []behav) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		h.t.Point()
		k := h.m.startCall(id, ctx)
		runtime.VerifNoPoint(true)
		h.usedReq(q)
		h.mu.Lock()
		n := h.ncall[id]
		h.ncall[id]++
		if n >= len(bs) {
			n = len(bs) - 1
		}
		b := bs[n]
		if h.ncall[id] > 25 {
			b = behav{} // enough
		}
		rel := h.rel[id]
		want := h.wantCtx[id]
		h.mu.Unlock()
		runtime.VerifNoPoint(false)
		if h.ncall[id] == 1 && want != nil && ctx.Value(ctxKey{}) != want {
			h.t.Failf("R05", "the start function's context does not derive from the one given to StartWorker")
		}
		if b.do != nil {
			b.do()
		}
		if b.block {
			if b.honour {
				select {
				case <-rel:
				case <-ctx.Done():
					b.err = eRestart
				}
			} else {
				<-rel
			}
			h.t.Point()
		}
		if b.slow > 0 {
			time.Sleep(b.slow)
		}
		if b.goexit {
			h.m.startRet(k, eGoexit, nil)
			runtime.Goexit()
		}
		if b.err != eNil {
			h.m.startRet(k, b.err, nil)
			return nil, errOf[b.err]
		}
		var w *Inst
		kerr := errOf[b.killErr]
		if b.stubborn {
			w = NewStubborn(h.t, idName[id], k, kerr)
		} else {
			w = NewInst(h.t, idName[id], k, b.dyn, kerr)
		}
		i := h.m.startRet(k, eNil, w)
		w.Rep = map[string]interface{}{"inst": i}
		w.OnKill = func(*Inst) { h.m.instKill(i) }
		w.OnStop = func(w *Inst) { h.m.instStop(i, errIdx(w.Err)) }
		runtime.VerifNoPoint(true)
		h.mu.Lock()
		h.cur[id] = w
		h.all = append(h.all, w)
		h.mu.Unlock()
		runtime.VerifNoPoint(false)
		return w, nil
	}
}

func (h *rh) errRes(err error) int32 {
	if i := errIdx(err); i >= eSpecial && err != worker.ErrDead && err != worker.ErrAborted {
		return resErr + int32(i)
	}
	switch {
	case err == nil:
		return resNil
	case errors.Is(err, worker.ErrDead):
		return resErrDead
	case errors.Is(err, worker.ErrAborted):
		return resAborted
	case errors.Is(err, errors.NotFound):
		return resNotFound
	case errors.Is(err, errors.AlreadyExists):
		return resExists
	}
	return resErr + int32(errIdx(err))
}

func (h *rh) Start(id int, bs ...behav) error {
	return h.StartCtx(context.Background(), nil, id, bs...)
}

func (h *rh) StartCtx(ctx context.Context, slot *int, id int, bs ...behav) error {
	if len(bs) == 0 {
		bs = []behav{{}}
	}
	h.t.Point()
	if mc.RaceMode {
		return h.r.StartWorker(ctx, idName[id], h.startFn(id, -1, bs))
	}
	h.wantCtx[id] = ctx.Value(ctxKey{})
	s := h.m.call(rStart, id, h.setup)
	if slot != nil {
		*slot = s
	}
	if ctx.Err() != nil {
		h.m.setCtxDone(s)
	}
	runtime.VerifNoPoint(true)
	q := len(h.reqs)
	h.clk++
	h.reqs = append(h.reqs, rReq{id: id, called: h.clk})
	runtime.VerifNoPoint(false)
	err := h.r.StartWorker(ctx, idName[id], h.startFn(id, q, bs))
	h.m.ret(s, h.errRes(err))
	runtime.VerifNoPoint(true)
	h.clk++
	r := &h.reqs[q]
	r.ended, r.ok = h.clk, err == nil
	if r.used && !r.ok {
		h.m.fail("R05", "StartWorker of %q returned %v though its start function was called", idName[id], err)
	}
	runtime.VerifNoPoint(false)
	return err
}

func (h *rh) Stop(id int) {
	h.t.Point()
	s := h.m.call(rStop, id, h.setup)
	err := h.r.StopWorker(idName[id])
	h.m.ret(s, h.errRes(err))
}

func (h *rh) SR(id int) {
	h.t.Point()
	s := h.m.call(rSR, id, h.setup)
	h.regAbort(s)
	err := h.r.StopAndRemoveWorker(idName[id], h.abort)
	res := h.errRes(err)
	if res == resNil {
		res = resErr + eNil
	}
	h.m.ret(s, res)
}

func (h *rh) W(id int) worker.Worker {
	h.t.Point()
	s := h.m.call(rWorker, id, h.setup)
	h.regAbort(s)
	w, err := h.r.Worker(idName[id], h.abort)
	res := h.errRes(err)
	if err == nil {
		res = resBad
		if !mc.RaceMode {
			for i := range h.m.insts {
				if w == worker.Worker(h.m.insts[i].w) {
					res = resInst + int32(i)
				}
			}
		}
	}
	h.m.ret(s, res)
	return w
}

func (h *rh) regAbort(s int) {
	if mc.RaceMode || s < 0 {
		return
	}
	h.abortS = append(h.abortS, s)
	if h.aborted {
		h.m.setAbort(s)
	}
}

// Abort closes the channel that pending calls were given.
func (h *rh) Abort() {
	h.t.Point()
	if !mc.RaceMode {
		h.aborted = true
		for _, s := range h.abortS {
			if h.m.ops[s].active && (h.m.ops[s].kind == rSR || h.m.ops[s].kind == rWorker) {
				h.m.setAbort(s)
			}
		}
	}
	runtime.VerifNoPoint(true)
	close(h.abort)
	runtime.VerifNoPoint(false)
}

func (h *rh) Names() {
	h.t.Point()
	s := h.m.call(rNames, 0, h.setup)
	ns := h.r.WorkerNames()
	res := int32(0)
	seen := map[string]bool{}
	for _, n := range ns {
		switch {
		case seen[n]:
			res = resBad - resRep
		case n == idName[0]:
			res += 1
		case n == idName[1]:
			res += 32
		default:
			res = resBad - resRep
		}
		seen[n] = true
	}
	h.m.ret(s, resRep+res)
}

func (h *rh) Report() {
	h.t.Point()
	s := h.m.call(rReport, 0, h.setup)
	rep := h.r.Report()
	if mc.RaceMode {
		return
	}
	res := int32(0)
	ws, ok := rep["workers"].(map[string]interface{})
	if !ok {
		h.t.Failf("R09", "the report has no workers section: %v", rep)
		return
	}
	for n, v := range ws {
		m, _ := v.(map[string]interface{})
		x := int32(1)
		if m[worker.KeyState] == "started" {
			inner, _ := m[worker.KeyReport].(map[string]interface{})
			if i, ok := inner["inst"].(int); ok {
				x = 2 + int32(i)
				if i < len(h.m.insts) {
					at := stamp(h.m.insts[i].started)
					if m[worker.KeyLastStart] != at && m[worker.KeyLastStart] != stamp(h.m.insts[i].ready) {
						h.m.fail("R09", "the report says that the worker running as %q started at %v, but it did at %v", n, m[worker.KeyLastStart], at)
					}
				}
			} else {
				h.m.fail("R09", "the report of a started worker lacks the worker's own report: %v", rep)
			}
		} else if m[worker.KeyState] != "stopped" && m[worker.KeyState] != "stopping" && m[worker.KeyState] != "starting" {
			h.m.fail("R09", "the report has an unknown state: %v", rep)
		} else if m[worker.KeyReport] != nil {
			h.m.fail("R09", "the report of worker %q, which is %v, includes a report of an instance: %v", n, m[worker.KeyState], rep)
		}
		switch n {
		case idName[0]:
			res += x
		case idName[1]:
			res += 32 * x
		}
	}
	h.m.ret(s, resRep+res)
}

func stamp(d time.Duration) string {
	return time.Unix(1700000000, 0).UTC().Add(d).Format("2006-01-02 15:04:05")
}

func (h *rh) Kill() {
	h.t.Point()
	s := h.m.call(rKill, 0, h.setup)
	h.r.Kill()
	h.m.ret(s, resNil)
}

func (h *rh) Wait() error {
	h.t.Point()
	s := h.m.call(rWait, 0, h.setup)
	err := h.r.Wait()
	h.m.ret(s, resErr+int32(errIdx(err)))
	h.m.over()
	return err
}

// Exit makes the current instance of id stop by itself.
func (h *rh) Exit(id int, err int8) {
	h.t.Point()
	runtime.VerifNoPoint(true)
	h.mu.Lock()
	w := h.cur[id]
	h.mu.Unlock()
	runtime.VerifNoPoint(false)
	if w != nil {
		w.Exit(errOf[err])
	}
}

// Release lets a blocked start call of id (and later ones) go on.
func (h *rh) Release(id int) {
	h.t.Point()
	runtime.VerifNoPoint(true)
	h.mu.Lock()
	if !h.relDone[id] {
		h.relDone[id] = true
		close(h.rel[id])
	}
	h.mu.Unlock()
	runtime.VerifNoPoint(false)
}

// ReleaseWorkers lets stubborn instances stop.
func (h *rh) ReleaseWorkers() {
	runtime.VerifNoPoint(true)
	h.mu.Lock()
	for _, w := range h.all {
		if w.hold != nil && !w.released {
			w.released = true
			close(w.hold)
		}
	}
	h.mu.Unlock()
	runtime.VerifNoPoint(false)
}

func (h *rh) Idle() {
	h.t.Quiesce()
	h.m.idle()
}

func (h *rh) Pass(d time.Duration) {
	h.t.After(d)
	h.m.idle()
}

// Par runs the given actions concurrently and waits for idleness; actions may
// remain blocked.
func (h *rh) Par(fs ...func()) {
	for _, f := range fs {
		f := f
		if mc.RaceMode {
			go f()
			continue
		}
		h.noRet++
		go func() {
			f()
			h.t.Touch()
			h.noRet--
		}()
	}
	h.Idle()
}

// Finish drives the runner to its end and checks what must hold then.
func (h *rh) Finish() {
	h.t.Calm(true)
	defer h.t.Calm(false)
	h.Pass(long)
	for i := range h.rel {
		h.Release(i)
	}
	h.Idle()
	h.Pass(restartDelay)
	// follow-up calls see a consistent runner
	for id := range idName {
		h.Par(func() { h.W(id) })
		h.Par(func() { h.Report() })
	}
	if !h.aborted {
		h.Abort()
	}
	h.Idle()
	h.Kill()
	h.Idle()
	h.Pass(long)
	h.ReleaseWorkers()
	h.Idle()
	h.Par(func() { h.Wait() })
	h.Par(func() { h.Start(0) })
	h.Par(func() { h.Stop(0) })
	h.Par(func() { h.SR(0) })
	h.Par(func() { h.W(0) })
	h.Par(func() { h.Names() })
	h.t.Settle()
	h.m.idle()
	h.t.Touch()
	if h.noRet != 0 && !mc.RaceMode {
		h.m.fail(h.m.tags("R10"), "%d calls never returned", h.noRet)
	}
}

// ---- the pairs family

type rAct struct {
	name string
	prop string
	do   func(h *rh)
}

var rActs = []rAct{
	{"start", "R05", func(h *rh) { h.Start(0) }},
	{"stop", "R06", func(h *rh) { h.Stop(0) }},
	{"sr", "R07", func(h *rh) { h.SR(0) }},
	{"worker", "R08", func(h *rh) { h.W(0) }},
	{"report", "R09", func(h *rh) { h.Report() }},
	{"names", "R09", func(h *rh) { h.Names() }},
	{"kill", "R02", func(h *rh) { h.Kill() }},
	{"exit-nil", "R04", func(h *rh) { h.Exit(0, eNil) }},
	{"exit-restart", "R04", func(h *rh) { h.Exit(0, eRestart) }},
	{"exit-norestart", "R04", func(h *rh) { h.Exit(0, eNoRestart) }},
	{"exit-fatal", "R03", func(h *rh) { h.Exit(0, eFatal1) }},
	{"delay", "R04", func(h *rh) { h.t.After(0); time.Sleep(restartDelay) }},
	{"release", "R05", func(h *rh) { h.Release(0) }},
	{"abort", "R10", func(h *rh) { h.Abort() }},
}

type rInit struct {
	name string
	acts string // which of exit, delay, release make sense
	do   func(h *rh)
}

var rInits = []rInit{
	{"absent", "", func(h *rh) {}},
	{"running", "e", func(h *rh) { h.Start(0, behav{}, behav{}); h.Idle() }},
	{"dyn", "e", func(h *rh) { h.Start(0, behav{dyn: true, killErr: eRestart}, behav{}); h.Idle() }},
	{"stubborn", "", func(h *rh) { h.Start(0, behav{stubborn: true, killErr: eNoRestart}, behav{}); h.Idle() }},
	{"starting", "r", func(h *rh) { h.Start(0, behav{block: true}, behav{}); h.Idle() }},
	{"starting-ctx", "r", func(h *rh) { h.Start(0, behav{block: true, honour: true}, behav{}); h.Idle() }},
	{"starting-err", "r", func(h *rh) { h.Start(0, behav{block: true, err: eRestart}, behav{}); h.Idle() }},
	{"restarting", "d", func(h *rh) {
		h.Start(0, behav{}, behav{})
		h.Idle()
		h.Exit(0, eRestart)
		h.Idle()
	}},
	{"restart-starting", "r", func(h *rh) {
		h.Start(0, behav{}, behav{block: true}, behav{})
		h.Idle()
		h.Exit(0, eRestart)
		h.Idle()
		h.Pass(restartDelay)
	}},
	{"restarted", "e", func(h *rh) {
		h.Start(0, behav{}, behav{killErr: eRestart}, behav{dyn: true})
		h.Idle()
		h.Exit(0, eRestart)
		h.Idle()
		h.Pass(restartDelay)
	}},
}

func (in rInit) allows(a rAct) bool {
	switch {
	case len(a.name) > 4 && a.name[:4] == "exit":
		return in.acts == "e"
	case a.name == "delay":
		return in.acts == "d"
	case a.name == "release":
		return in.acts == "r"
	}
	return true
}

func uniq(ss ...string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func init() {
	for _, in := range rInits {
		for i, a := range rActs {
			for j := i; j < len(rActs); j++ {
				b := rActs[j]
				if !in.allows(a) || !in.allows(b) || i == j && i > 6 {
					continue
				}
				// an abort only matters to a call that takes one
				if b.name == "abort" && a.name != "sr" && a.name != "worker" {
					continue
				}
				mc.Register(&mc.Scenario{
					Name:     fmt.Sprintf("runner/pair/%s/%s+%s", in.name, a.name, b.name),
					Props:    uniq("R01", "R10", a.prop, b.prop),
					MaxBound: 2, ThoroughBound: 4, Full: 2,
					RaceProps: []string{"R09"},
					Run: func(t *mc.T) {
						h := newRH(t, rcfg{})
						h.setup = true
						t.Calm(true)
						in.do(h)
						t.Calm(false)
						h.setup = false
						h.Par(func() { a.do(h) }, func() { b.do(h) })
						h.setup = true
						h.Finish()
					},
				})
			}
		}
	}
}
