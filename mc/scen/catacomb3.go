package scen

import (
	"context"
	"fmt"

	"verifmc/mc"
)

// Many workers, of all kinds, and long histories: nothing may depend on how
// many there are or were.

func init() {
	kinds := []string{"dyn", "sync", "dyn-err", "stub", "sync-err", "gone", "stub-err"}
	for _, n := range []int{2, 4, 7, 13, 40} {
		for _, act := range []string{"kill", "kill-err", "work-nil", "work-err", "panic", "first-fails", "mid-fails", "last-fails", "last-added-fails", "completes", "all-stop", "refused"} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("catacomb/many/%d/%s", n, act), Props: cProps, MaxBound: b2i(n == 2), ThoroughBound: 1 + b2i(n == 2), Policies: 4, MaxSteps: 1 << 18,
				Run: func(t *mc.T) {
					h := newCH(t)
					t.Calm(true)
					var ws []*cWorker
					for i := 0; i < n; i++ {
						k := kinds[i%len(kinds)]
						if act == "all-stop" {
							k = "stub"
						}
						w := h.mk(k)
						w.value = i%3 == 2
						ws = append(ws, w)
					}
					h.Invoke(ws...)
					h.Idle()
					for i := 0; i < n; i++ {
						k := kinds[(i+3)%len(kinds)]
						if act == "all-stop" {
							k = "stub-err"
						}
						w := h.mk(k)
						w.value = i%4 == 1
						h.Par(func() { h.Add(w) })
						if i == n/2 {
							h.Context(context.Background(), "mid")
						}
					}
					fail := func(w *cWorker) {
						h.Par(func() { h.t.Point(); w.Exit(errCInst) })
					}
					t.Calm(n > 4)
					switch act {
					case "kill":
						h.Par(func() { h.Kill(nil) })
					case "kill-err":
						h.Par(func() { h.Kill(errC1) })
					case "work-nil":
						h.Par(func() { h.End(nil) })
					case "work-err":
						h.Par(func() { h.End(errCWork) })
					case "panic":
						h.Par(func() { h.Panic("boom") })
					case "first-fails":
						fail(h.ws[0])
					case "mid-fails":
						fail(h.ws[n-1])
					case "last-fails":
						fail(h.ws[n])
					case "last-added-fails":
						fail(h.ws[2*n-1])
					case "completes":
						for _, w := range h.ws {
							if w.released || w.Stopped {
								continue
							}
							w.Exit(nil)
							h.Idle()
						}
						h.Pass(long)
						w := h.mk("dyn-err")
						h.Par(func() { h.Add(w) })
						h.Par(func() { h.Kill(nil) })
					case "all-stop":
						h.Par(func() { h.Kill(nil) })
						// one after the other
						for _, w := range h.ws {
							w.released = true
							w.Release()
							h.Idle()
						}
					case "refused":
						h.Par(func() { h.Kill(errC1) })
						for i := 0; i < n; i++ {
							w := h.mk(kinds[i%len(kinds)])
							h.Par(func() { h.Add(w) })
						}
					}
					h.Finish()
				},
			})
		}
	}

	// workers come and go
	for _, k := range []string{"dyn", "gone", "mixed"} {
		for _, act := range []string{"kill", "fails", "work-err", "contexts"} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("catacomb/turnover/%s/%s", k, act), Props: cProps, MaxBound: 0, Policies: 3, MaxSteps: 1 << 18,
				Run: func(t *mc.T) {
					h := newCH(t)
					t.Calm(true)
					h.Invoke(h.mk("stub"))
					h.Idle()
					base := t.Live()
					for i := 0; i < 40; i++ {
						kind := k
						if k == "mixed" {
							kind = []string{"dyn", "gone", "sync"}[i%3]
						}
						w := h.mk(kind)
						w.value = i%2 == 1
						h.Par(func() { h.Add(w) })
						if act == "contexts" {
							p, cancel := context.WithCancel(context.Background())
							h.Context(p, "turn")
							if i%2 == 0 {
								cancel()
							}
							_ = cancel
						}
						if kind != "gone" {
							w.Exit(nil)
						}
						h.Idle()
						if n := t.Live(); n != base && act != "contexts" && !mc.RaceMode {
							h.fail("C02", "after %d workers completed %d goroutines are left over", i+1, n-base)
						}
					}
					w := h.mk("dyn-err")
					h.Par(func() { h.Add(w) })
					switch act {
					case "fails":
						h.Par(func() { w.Exit(errCInst) })
					case "work-err":
						h.Par(func() { h.End(errCWork) })
					default:
						h.Par(func() { h.Kill(nil) })
					}
					h.Finish()
				},
			})
		}
	}
}
