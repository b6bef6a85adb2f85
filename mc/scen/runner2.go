package scen

import (
	"context"
	"fmt"
	"runtime"
	"time"

	"github.com/juju/worker/v4"

	"verifmc/mc"
)

// ---- triples of concurrent calls

func init() {
	for _, in := range rInits {
		for i, a := range rActs {
			for j := i; j < len(rActs); j++ {
				for k := j; k < len(rActs); k++ {
					b, c := rActs[j], rActs[k]
					if !in.allows(a) || !in.allows(b) || !in.allows(c) || i == j && i > 3 || j == k && j > 3 {
						continue
					}
					if c.name == "abort" && a.name != "sr" && a.name != "worker" && b.name != "sr" && b.name != "worker" {
						continue
					}
					if b.name == "names" || a.name == "names" || c.name == "names" {
						continue
					}
					mc.Register(&mc.Scenario{
						Name:     fmt.Sprintf("runner/triple/%s/%s+%s+%s", in.name, a.name, b.name, c.name),
						Props:    uniq("R01", "R10", a.prop, b.prop, c.prop),
						MaxBound: 1, ThoroughBound: 3,
						Run: func(t *mc.T) {
							h := newRH(t, rcfg{})
							h.setup = true
							t.Calm(true)
							in.do(h)
							t.Calm(false)
							h.setup = false
							h.Par(func() { a.do(h) }, func() { b.do(h) }, func() { c.do(h) })
							h.setup = true
							h.Finish()
						},
					})
				}
			}
		}
	}
}

// ---- two workers: failures that end the runner

type rAct2 struct {
	name string
	do   func(h *rh)
}

func init() {
	acts := []rAct2{
		{"a-fatal1", func(h *rh) { h.Exit(0, eFatal1) }},
		{"a-fatal2", func(h *rh) { h.Exit(0, eFatal2) }},
		{"b-fatal1", func(h *rh) { h.Exit(1, eFatal1) }},
		{"b-fatal2", func(h *rh) { h.Exit(1, eFatal2) }},
		{"b-restart", func(h *rh) { h.Exit(1, eRestart) }},
		{"b-nil", func(h *rh) { h.Exit(1, eNil) }},
		{"kill", func(h *rh) { h.Kill() }},
		{"b-stop", func(h *rh) { h.Stop(1) }},
		{"b-sr", func(h *rh) { h.SR(1) }},
		{"b-start", func(h *rh) { h.Start(1) }},
		{"b-worker", func(h *rh) { h.W(1) }},
		{"b-release", func(h *rh) { h.Release(1) }},
		{"delay", func(h *rh) { time.Sleep(restartDelay) }},
		{"wait", func(h *rh) { h.Wait() }},
	}
	pairOK := func(in string, a, b string) bool {
		if b == "delay" && in != "b-restarting" || b == "b-release" && in != "b-starting" && in != "b-starting-fatal" {
			return false
		}
		// one exit per worker
		ex := func(s string) byte {
			switch s {
			case "a-fatal1", "a-fatal2":
				return 'a'
			case "b-fatal1", "b-fatal2", "b-restart", "b-nil":
				return 'b'
			}
			return 0
		}
		if ex(a) != 0 && ex(a) == ex(b) {
			return false
		}
		if (in == "b-restarting" || in == "b-starting" || in == "b-starting-fatal" || in == "b-absent") && (ex(a) == 'b' || ex(b) == 'b') {
			return false
		}
		return ex(a) != 0 || a == "kill"
	}
	inits := []struct {
		name string
		b    func(h *rh)
	}{
		{"b-running", func(h *rh) { h.Start(1, behav{}) }},
		{"b-dyn-fatal", func(h *rh) { h.Start(1, behav{dyn: true, killErr: eFatal2}) }},
		{"b-dyn-restart", func(h *rh) { h.Start(1, behav{dyn: true, killErr: eRestart}) }},
		{"b-stubborn", func(h *rh) { h.Start(1, behav{stubborn: true, killErr: eFatal1}) }},
		{"b-starting", func(h *rh) { h.Start(1, behav{block: true, killErr: eFatal2}) }},
		{"b-starting-fatal", func(h *rh) { h.Start(1, behav{block: true, err: eFatal2}) }},
		{"b-restarting", func(h *rh) { h.Start(1, behav{}, behav{}); h.Idle(); h.Exit(1, eRestart) }},
		{"b-absent", func(h *rh) {}},
	}
	mores := []struct {
		name string
		f    func(a, b int8) bool
	}{
		{"first", nil},
		{"lower", func(a, b int8) bool { return a < b }},
		{"higher", func(a, b int8) bool { return a > b }},
	}
	for _, in := range inits {
		for i, a := range acts {
			for j := i + 1; j < len(acts); j++ {
				b := acts[j]
				if !pairOK(in.name, a.name, b.name) {
					continue
				}
				for mi, more := range mores {
					more := more
					if mi > 0 && in.name != "b-dyn-fatal" && in.name != "b-starting-fatal" && in.name != "b-stubborn" && !(b.name == "b-fatal1" || b.name == "b-fatal2") {
						continue
					}
					mc.Register(&mc.Scenario{
						Name:     fmt.Sprintf("runner/two/%s/%s+%s/%s", in.name, a.name, b.name, more.name),
						Props:    []string{"R02", "R03", "R01"},
						MaxBound: 2, ThoroughBound: 3, Full: 1,
						Run: func(t *mc.T) {
							h := newRH(t, rcfg{more: more.f})
							h.setup = true
							t.Calm(true)
							h.Start(0, behav{killErr: eFatal1})
							h.Idle()
							in.b(h)
							h.Idle()
							t.Calm(false)
							h.setup = false
							h.Par(func() { a.do(h) }, func() { b.do(h) })
							h.setup = true
							h.ReleaseWorkers()
							h.Finish()
						},
					})
				}
			}
		}
	}
	// the whole life of a runner with two workers, schedules of shutdown included
	for _, how := range []string{"kill", "fatal"} {
		for _, bs := range []struct {
			name string
			a, b behav
		}{
			{"sync", behav{}, behav{}},
			{"dyn", behav{dyn: true}, behav{dyn: true, killErr: eFatal2}},
			{"blocked", behav{}, behav{block: true, honour: true}},
			{"failing", behav{}, behav{err: eRestart}},
		} {
			mc.Register(&mc.Scenario{
				Name:     fmt.Sprintf("runner/life/%s/%s", how, bs.name),
				Props:    []string{"R02", "R03", "R01", "R10"},
				MaxBound: 2, ThoroughBound: 4,
				Run: func(t *mc.T) {
					h := newRH(t, rcfg{})
					h.Start(0, bs.a)
					h.Par(func() { h.Start(1, bs.b) }, func() {
						if how == "kill" {
							h.Kill()
						} else {
							h.Exit(0, eFatal1)
						}
					})
					h.Pass(restartDelay)
					if how == "kill" {
						h.Wait()
					}
					h.setup = true
					h.Finish()
				},
			})
		}
	}
}

// ---- every sequence of calls and events up to a depth

func init() {
	type act struct {
		name string
		do   func(h *rh)
	}
	acts := []act{
		{"start", func(h *rh) { h.Start(0, behav{}, behav{dyn: true, killErr: eRestart}, behav{}) }},
		{"start-blocked", func(h *rh) { h.Start(0, behav{block: true, honour: true}, behav{}) }},
		{"start-failing", func(h *rh) {
			h.Start(0, behav{err: eRestart}, behav{err: eRestart}, behav{killErr: eNoRestart})
		}},
		{"exit-nil", func(h *rh) { h.Exit(0, eNil) }},
		{"exit-restart", func(h *rh) { h.Exit(0, eRestart) }},
		{"exit-norestart", func(h *rh) { h.Exit(0, eNoRestart) }},
		{"exit-fatal", func(h *rh) { h.Exit(0, eFatal1) }},
		{"stop", func(h *rh) { h.Stop(0) }},
		{"sr", func(h *rh) { h.SR(0) }},
		{"worker", func(h *rh) { h.W(0) }},
		{"report", func(h *rh) { h.Report() }},
		{"half-delay", func(h *rh) { time.Sleep(restartDelay / 2) }},
		{"delay", func(h *rh) { time.Sleep(restartDelay) }},
		{"kill", func(h *rh) { h.Kill() }},
		{"release", func(h *rh) { h.Release(0) }},
	}
	firsts := append(acts[:3:3], act{"start-later-blocked", func(h *rh) {
		h.Start(0, behav{err: eRestart}, behav{block: true}, behav{dyn: true})
		h.Idle()
		h.Pass(restartDelay)
	}}, act{"start-later-blocked-ctx", func(h *rh) {
		h.Start(0, behav{}, behav{block: true, honour: true}, behav{dyn: true})
		h.Idle()
		h.Exit(0, eRestart)
		h.Idle()
		h.Pass(restartDelay)
	}})
	seq := func(depth, dlim int, kinds ...int) func(t *mc.T) {
		return func(t *mc.T) {
			t.Calm(true)
			h := newRH(t, rcfg{})
			n := depth
			for i := 0; i < n; i++ {
				var a act
				if i == 0 {
					a = firsts[kinds[t.Choose(len(kinds))]]
				} else {
					a = acts[t.Choose(len(acts))]
				}
				t.Logf("step %d: %s", i, a.name)
				h.Par(func() { a.do(h) })
				if a.name == "half-delay" {
					h.Pass(restartDelay / 2)
				} else if a.name == "delay" {
					h.Pass(restartDelay)
				}
			}
			h.setup = true
			h.Finish()
		}
	}
	all := []string{"R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09", "R10"}
	mc.Register(&mc.Scenario{Name: "runner/seq4", Props: all, Run: seq(4, 0, 0, 1, 2), MaxBound: 0, Policies: 1})
	for i, k := range []string{"running", "blocked", "failing", "later-blocked", "later-blocked-ctx"} {
		mc.Register(&mc.Scenario{Name: "runner/seq5/" + k, Props: all, Run: func(t *mc.T) {
			if t.Tier == "thorough" {
				seq(6, 0, i)(t)
			} else {
				seq(5, 0, i)(t)
			}
		}, MaxBound: 0, Policies: 1})
	}
}

// ---- defaults, contexts, Goexit

func init() {
	mc.Register(&mc.Scenario{Name: "runner/nil-isfatal", Props: []string{"R03", "R02"}, MaxBound: 2, ThoroughBound: 4, Run: func(t *mc.T) {
		h := newRH(t, rcfg{nilCfg: true})
		h.Start(0, behav{}, behav{})
		h.Start(1, behav{dyn: true, killErr: eNoRestart})
		h.Idle()
		h.Par(func() { h.Exit(0, eRestart) }, func() { h.Wait() })
		h.setup = true
		h.Finish()
	}})
	mc.Register(&mc.Scenario{Name: "runner/default-delay", Props: []string{"R04"}, MaxBound: 1, ThoroughBound: 3, Run: func(t *mc.T) {
		// RestartDelay zero means DefaultRestartDelay
		starts := []time.Duration{}
		r, err := worker.NewRunner(worker.RunnerParams{Name: "r", Clock: Clock{}, IsFatal: func(error) bool { return false }})
		if err != nil {
			panic(err)
		}
		var cur *Inst
		r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
			t.Touch()
			starts = append(starts, t.Now())
			cur = NewInst(t, "a", len(starts), false, nil)
			return cur, nil
		})
		t.Quiesce()
		for i := 0; i < 2; i++ {
			cur.Exit(errRestart)
			t.After(worker.DefaultRestartDelay)
		}
		if len(starts) != 3 || starts[1] != worker.DefaultRestartDelay || starts[2] != 2*worker.DefaultRestartDelay {
			t.Failf("R04", "starts at %v with the default restart delay", starts)
		}
		r.Kill()
		r.Wait()
	}})
	mc.Register(&mc.Scenario{Name: "runner/nil-shouldrestart", Props: []string{"R04"}, MaxBound: 1, ThoroughBound: 3, Run: func(t *mc.T) {
		n := 0
		r, err := worker.NewRunner(worker.RunnerParams{Name: "r", Clock: Clock{}, RestartDelay: restartDelay, IsFatal: func(error) bool { return false }})
		if err != nil {
			panic(err)
		}
		var cur *Inst
		r.StartWorker(context.Background(), "a", func(context.Context) (worker.Worker, error) {
			t.Touch()
			n++
			cur = NewInst(t, "a", n, false, nil)
			return cur, nil
		})
		t.Quiesce()
		cur.Exit(errNoRestart)
		t.After(restartDelay)
		if n != 2 {
			t.Failf("R04", "%d starts with a nil ShouldRestart, expected a restart", n)
		}
		r.Kill()
		r.Wait()
	}})
	for _, fatal := range []bool{false, true} {
		mc.Register(&mc.Scenario{Name: fmt.Sprintf("runner/goexit/fatal=%v", fatal), Props: []string{"R04", "R03", "R10"}, MaxBound: 2, ThoroughBound: 4, Run: func(t *mc.T) {
			h := newRH(t, rcfg{fatal: func(e int8) bool { return fatal && e == eGoexit }})
			h.Par(func() { h.Start(0, behav{goexit: true}, behav{}) }, func() { h.W(0) })
			h.Pass(restartDelay)
			h.setup = true
			h.Finish()
		}})
	}
	// contexts: values and cancellation reach the start function; a cancelled
	// StartWorker does not hang
	mc.Register(&mc.Scenario{Name: "runner/ctx-value", Props: []string{"R05"}, MaxBound: 1, ThoroughBound: 3, Run: func(t *mc.T) {
		h := newRH(t, rcfg{})
		ctx := context.WithValue(context.Background(), ctxKey{}, 42)
		h.StartCtx(ctx, nil, 0)
		h.Idle()
		h.setup = true
		h.Finish()
	}})
	mc.Register(&mc.Scenario{Name: "runner/ctx-cancel", Props: []string{"R05", "R10"}, MaxBound: 2, ThoroughBound: 4, Full: 2, Run: func(t *mc.T) {
		h := newRH(t, rcfg{})
		ctx, cancel := context.WithCancel(context.Background())
		slot := -1
		h.Par(func() { h.StartCtx(ctx, &slot, 0, behav{block: true, honour: true}, behav{}) }, func() {
			t.Point()
			runtime.VerifNoPoint(true)
			if !mc.RaceMode && slot >= 0 && h.m.ops[slot].active && h.m.ops[slot].kind == rStart {
				h.m.setCtxDone(slot)
			}
			cancel()
			runtime.VerifNoPoint(false)
		})
		h.t.Quiesce()
		h.setup = true
		h.Finish()
	}})
	mc.Register(&mc.Scenario{Name: "runner/ctx-restart", Props: []string{"R04"}, MaxBound: 1, ThoroughBound: 3, Run: func(t *mc.T) {
		// the caller's context ends after the start: restarts are not affected
		h := newRH(t, rcfg{})
		ctx, cancel := context.WithCancel(context.Background())
		h.StartCtx(ctx, nil, 0, behav{}, behav{block: true, honour: true}, behav{})
		h.Idle()
		cancel()
		h.Exit(0, eRestart)
		h.Pass(restartDelay)
		h.Release(0)
		h.setup = true
		h.Finish()
	}})
}
