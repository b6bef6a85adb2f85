package scen

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/juju/worker/v4"

	"verifmc/mc"
)

// ---- long series of failures: every way of failing at every position

func init() {
	series := func(n int, delay time.Duration, fixed bool) func(t *mc.T) {
		return func(t *mc.T) {
			t.Calm(true)
			h := newRH(t, rcfg{delay: delay})
			how := make([]int, n)
			bs := make([]behav, n+1)
			for i := range how {
				if fixed {
					how[i] = 1
				} else {
					how[i] = t.Choose(5)
				}
				if how[i] == 0 {
					bs[i].err = eRestart
				}
			}
			h.Start(0, bs...)
			h.Idle()
			for i := range how {
				switch how[i] {
				case 1:
					h.Exit(0, eRestart)
				case 2:
					h.Exit(0, ePanic)
				case 3:
					h.Pass(delay / 2)
					h.Exit(0, eRestart)
				case 4:
					h.Pass(3*delay + time.Millisecond)
					h.Exit(0, eRestart)
				}
				h.Idle()
				if delay > 1 {
					h.Pass(delay - 1)
				}
				h.Pass(1)
			}
			h.Report()
			h.setup = true
			h.Finish()
		}
	}
	mc.Register(&mc.Scenario{Name: "runner/restarts", Props: []string{"R04"}, MaxBound: 0, Policies: 1, Run: func(t *mc.T) {
		n := 6
		if t.Tier == "thorough" {
			n = 8
		}
		series(n, restartDelay, false)(t)
	}})
	mc.Register(&mc.Scenario{Name: "runner/restarts-short", Props: []string{"R04"}, MaxBound: 0, Policies: 1, Run: series(4, time.Second, false)})
	for _, d := range []time.Duration{1, time.Millisecond, 20 * time.Millisecond, 700 * time.Millisecond, 59 * time.Second, 5 * time.Minute, time.Hour, 100 * time.Hour} {
		mc.Register(&mc.Scenario{Name: fmt.Sprintf("runner/restarts-delay/%v", d), Props: []string{"R04"}, MaxBound: 0, Policies: 1, Run: series(4, d, false)})
	}
	mc.Register(&mc.Scenario{Name: "runner/restarts-20", Props: []string{"R04", "R09"}, MaxBound: 0, Policies: 1, Run: series(20, restartDelay, true)})
}

// ---- more workers than the specification of the other families has: one of
// each kind, all ended together

func init() {
	kinds := []string{"running", "async", "stubborn", "starting", "restarting", "stopping"}
	run := func(how string, n int) func(t *mc.T) {
		return func(t *mc.T) {
			t.Calm(true)
			p := worker.RunnerParams{Name: "r", RestartDelay: restartDelay, Clock: Clock{}, Logger: Logger{},
				IsFatal: func(err error) bool { return err == errFatal1 || err == errFatal2 },
			}
			r, err := worker.NewRunner(p)
			if err != nil {
				panic(err)
			}
			gate := make(chan struct{})
			insts := map[string][]*Inst{}
			calls := map[string]int{}
			dying := false
			rots := t.Choose(len(kinds)) // which kinds come first, and how they rank in the table
			var ids []string
			for i := 0; i < n; i++ {
				kind := kinds[(i+rots)%len(kinds)]
				id := fmt.Sprintf("%02d-%s", i, kind)
				ids = append(ids, id)
				err := r.StartWorker(context.Background(), id, func(ctx context.Context) (worker.Worker, error) {
					t.Point()
					if dying && !mc.RaceMode {
						t.Failf("R02", "%s was started although the runner is ending", id)
					}
					if mc.RaceMode {
						return NewInst(t, id, 0, true, nil), nil
					}
					calls[id]++
					if kind == "starting" {
						<-gate
						t.Point()
					}
					var w *Inst
					switch kind {
					case "async":
						w = NewInst(t, id, calls[id], true, errRestart)
					case "stubborn", "stopping":
						w = NewStubborn(t, id, calls[id], nil)
					default:
						w = NewInst(t, id, calls[id], false, nil)
					}
					insts[id] = append(insts[id], w)
					return w, nil
				})
				if err != nil {
					t.Failf("R05", "StartWorker(%q): %v", id, err)
				}
			}
			fatal := NewInst(t, "fatal", 0, true, errFatal2)
			r.StartWorker(context.Background(), "fatal", func(context.Context) (worker.Worker, error) { return fatal, nil })
			t.Quiesce()
			if mc.RaceMode {
				r.Report()
				r.Kill()
				close(gate)
				return
			}
			for _, id := range ids {
				if id[3:] == "restarting" {
					insts[id][0].Exit(errRestart)
				} else if id[3:] == "stopping" {
					r.StopWorker(id)
				}
			}
			t.Quiesce()
			names := r.WorkerNames()
			sort.Strings(names)
			if fmt.Sprint(names) != fmt.Sprint(append(append([]string{}, ids...), "fatal")) {
				t.Failf("R09", "WorkerNames is %v, expected %v and fatal", names, ids)
			}
			rep, _ := r.Report()["workers"].(map[string]interface{})
			for _, id := range ids {
				m, _ := rep[id].(map[string]interface{})
				want := id[3:] == "running" || id[3:] == "async" || id[3:] == "stubborn"
				if m == nil || (m[worker.KeyState] == "started") != want {
					t.Failf("R09", "the report shows %s as %v", id, m)
				}
			}
			for _, id := range ids {
				for _, w := range insts[id] {
					if w.Killed && id[3:] != "stopping" {
						t.Failf("R04,R06", "%s was killed although nobody asked for that", id)
					}
				}
			}
			t.Calm(false)
			done := make(chan error, 1)
			var werr error
			ended := false
			go func() {
				err := r.Wait()
				t.Touch()
				werr, ended = err, true
				for id, ws := range insts {
					for _, w := range ws {
						if !w.Stopped {
							t.Failf("R02", "Wait returned although %s still runs", id)
						}
					}
				}
				done <- err
			}()
			if how == "kill" {
				r.Kill()
			} else {
				fatal.Exit(errFatal1)
			}
			t.Quiesce()
			t.Touch()
			dying = true
			for id, ws := range insts {
				for _, w := range ws {
					if !w.Killed && !w.Stopped {
						t.Failf("R02", "%s was not told to stop when the runner ended", id)
					}
				}
			}
			dyn := func(k string) (n int) {
				for _, id := range ids {
					if id[3:] == k {
						n++
					}
				}
				return
			}
			if ended && dyn("starting")+dyn("stubborn")+dyn("stopping") > 0 {
				t.Failf("R02", "Wait returned although start calls or workers are not finished")
			}
			close(gate)
			t.Quiesce()
			for id, ws := range insts {
				for _, w := range ws {
					if !w.Killed && !w.Stopped {
						t.Failf("R02", "%s was not told to stop when its start call returned", id)
					}
				}
			}
			t.After(2 * restartDelay)
			for _, ws := range insts {
				for _, w := range ws {
					if w.hold != nil {
						w.Release()
						t.Quiesce()
					}
				}
			}
			t.Touch()
			if !ended {
				t.Failf("R02", "Wait does not return although all workers have stopped")
				return
			}
			want := error(errFatal1)
			if how == "kill" {
				want = errFatal2
			}
			if werr != want {
				t.Failf("R03", "Wait returned %v, expected %v", werr, want)
			}
		}
	}
	for _, how := range []string{"kill", "fatal"} {
		for _, n := range []int{3, 6, 12} {
			mc.Register(&mc.Scenario{Name: fmt.Sprintf("runner/many/%d/%s", n, how), Props: []string{"R02", "R03", "R09", "R04"},
				MaxBound: map[bool]int{true: 2}[n < 12], ThoroughBound: 3, Run: run(how, n)})
		}
	}
}
