package scen

import (
	"context"
	"fmt"

	"github.com/juju/errors"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"

	"verifmc/mc"
)

var cProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07"}

func init() {
	// triples
	for _, in := range cInits {
		if in.name != "bare" && in.name != "dyn-err" && in.name != "dying-stub" && in.name != "added-dyn" {
			continue
		}
		var acts []cAct
		for _, a := range cActs {
			if cCore[a.name] && cAllows(in.name, a) {
				acts = append(acts, a)
			}
		}
		for i, a := range acts {
			for j := i; j < len(acts); j++ {
				for k := j; k < len(acts); k++ {
					b, c := acts[j], acts[k]
					if cExclusive(a, b) || cExclusive(b, c) || cExclusive(a, c) || i == j && j == k {
						continue
					}
					mc.Register(&mc.Scenario{
						Name:     fmt.Sprintf("catacomb/triple/%s/%s+%s+%s", in.name, a.name, b.name, c.name),
						Props:    uniq("C01", "C02", "C03", a.prop, b.prop, c.prop),
						MaxBound: 1, ThoroughBound: 2,
						Run: func(t *mc.T) {
							h := newCH(t)
							h.workHow = in.work
							t.Calm(true)
							in.do(h)
							h.Idle()
							t.Calm(false)
							h.Par(func() { a.do(h) }, func() { b.do(h) }, func() { c.do(h) })
							h.Finish()
						},
					})
				}
			}
		}
	}

	// the start of a catacomb
	type early struct {
		name string
		how  string
		init []string
		body func(h *ch)
		par  []func(h *ch)
	}
	exit := func(i int, err error) func(h *ch) {
		return func(h *ch) { h.t.Point(); h.ws[i].Exit(err) }
	}
	kill := func(err error) func(h *ch) {
		return func(h *ch) {
			h.t.Point()
			if !h.isInvoked() {
				return // only then may its methods be called
			}
			h.Kill(err)
		}
	}
	for _, e := range []early{
		{name: "immediate-nil", how: "now", init: []string{"dyn"}, body: func(h *ch) { h.End(nil) }},
		{name: "immediate-err", how: "now", init: []string{"dyn-err"}, body: func(h *ch) { h.End(errCWork) }},
		{name: "immediate-panic", how: "now", init: []string{"dyn"}, body: func(h *ch) { h.Panic("early") }},
		{name: "init-fails", init: []string{"dyn", "dyn"}, par: []func(h *ch){exit(0, errCInst)}},
		{name: "init-fails-gone", init: []string{"gone-err", "dyn"}},
		{name: "init-both-fail", init: []string{"dyn", "sync"}, par: []func(h *ch){exit(0, errCInst), exit(1, errC1)}},
		{name: "init-gone", init: []string{"gone", "gone"}, par: []func(h *ch){kill(errC1)}},
		{name: "init-tomb-dying", how: "nil", init: []string{"tomb-dying"}, par: []func(h *ch){kill(nil)}},
		{name: "three", init: []string{"dyn", "sync-err", "stub"}, par: []func(h *ch){kill(nil)}},
		{name: "body-adds", init: []string{"dyn"}, body: func(h *ch) { h.Add(h.mk("dyn")) }, par: []func(h *ch){kill(nil)}},
		{name: "body-adds-2", body: func(h *ch) { h.Add(h.mk("dyn-err")); h.Add(h.mk("sync")) }, par: []func(h *ch){kill(nil)}},
		{name: "body-adds-gone", body: func(h *ch) { h.Add(h.mk("gone-err")); h.Add(h.mk("dyn")) }},
		{name: "body-adds-returns", how: "now", body: func(h *ch) { h.Add(h.mk("dyn")); h.End(nil) }},
		{name: "body-adds-returns-err", how: "now", body: func(h *ch) { h.Add(h.mk("dyn-err")); h.End(errCWork) }},
		{name: "body-adds-panics", how: "now", body: func(h *ch) { h.Add(h.mk("stub-err")); h.Panic("later") }},
		{name: "six-immediate", how: "now", init: []string{"sync", "sync", "sync", "dyn", "stub", "stub-err"}, body: func(h *ch) { h.End(nil) }},
		{name: "nine-immediate", how: "now", init: []string{"sync", "dyn", "sync", "sync-err", "dyn", "sync", "sync", "dyn-err", "stub"}, body: func(h *ch) { h.End(nil) }},
		{name: "nine-kill", how: "own", init: []string{"dyn", "dyn", "sync", "dyn", "gone", "sync", "stub", "dyn-err", "stub"}, par: []func(h *ch){kill(nil)}},
		{name: "nine-last-fails", how: "own", init: []string{"dyn", "dyn", "sync", "dyn", "dyn", "sync", "dyn", "dyn", "gone-err"}},
		{name: "body-kills", how: "own", init: []string{"dyn-err"}, body: func(h *ch) { h.Kill(nil) }},
		{name: "body-kills-adds", how: "own", body: func(h *ch) { h.Kill(nil); h.Add(h.mk("dyn-err")) }, par: []func(h *ch){kill(errC1)}},
	} {
		props := cProps
		if len(e.init) == 6 {
			props = []string{"C01", "C02"} // the costs
		}
		mc.Register(&mc.Scenario{
			Name: "catacomb/early/" + e.name, Props: props, MaxBound: 2 - b2i(len(e.init) > 6), ThoroughBound: 3 - b2i(len(e.init) > 3), Full: 1,
			Run: func(t *mc.T) {
				h := newCH(t)
				h.workHow = e.how
				if e.body != nil {
					h.body = func() { e.body(h) }
				}
				var ws []*cWorker
				for _, k := range e.init {
					ws = append(ws, h.mk(k))
				}
				if mc.RaceMode {
					h.Invoke(ws...)
					h.Finish()
					return
				}
				fs := []func(){func() {
					if err := h.Invoke(ws...); err != nil {
						h.fail("C04", "Invoke failed with %v", err)
					}
				}}
				for _, f := range e.par {
					fs = append(fs, func() { f(h) })
				}
				h.Par(fs...)
				h.Finish()
			},
		})
	}

	// concurrent use of one catacomb
	for _, k := range []string{"dyn", "sync-err", "gone-err", "dyn-err"} {
		mc.Register(&mc.Scenario{
			Name: "catacomb/invoke-twice/" + k, Props: []string{"C04", "C02", "C01"}, MaxBound: 3, ThoroughBound: 4, Full: 1,
			Run: func(t *mc.T) {
				h := newCH(t)
				a, b := h.mk("dyn"), h.mk(k)
				ok := 0
				f := func(w *cWorker) func() {
					return func() {
						if h.Invoke(w) == nil {
							h.t.Touch()
							ok++
						}
					}
				}
				h.Par(f(a), f(b))
				if ok != 1 && !mc.RaceMode {
					h.fail("C04", "of two concurrent Invokes %d succeeded", ok)
				}
				h.Finish()
			},
		})
	}

	mc.Register(&mc.Scenario{Name: "catacomb/validate", Props: []string{"C04", "C02"}, MaxBound: 0, Run: cValidate})

	// contexts
	type pc struct {
		name   string
		parent func() (context.Context, context.CancelFunc)
	}
	for _, withCancel := range []bool{false, true} {
		for _, act := range []string{"kill", "cancel", "both", "again", "w-fail"} {
			if !withCancel && (act == "cancel" || act == "both") {
				continue
			}
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("catacomb/context/%v/%s", withCancel, act), Props: []string{"C07"}, MaxBound: 3, ThoroughBound: 4,
				Run: func(t *mc.T) {
					h := newCH(t)
					t.Calm(true)
					h.Invoke(h.mk("dyn"))
					h.Idle()
					t.Calm(false)
					parent := context.WithValue(context.Background(), ctxKey{}, "p")
					cancel := func() {}
					if withCancel {
						parent, cancel = context.WithCancel(parent)
					}
					fs := []func(){func() {
						h.Context(parent, "given")
						h.Context(nil, "nil")
					}}
					switch act {
					case "kill":
						fs = append(fs, func() { h.Kill(nil) })
					case "cancel":
						fs = append(fs, func() { h.t.Point(); cancel() })
					case "both":
						fs = append(fs, func() { h.t.Point(); cancel() }, func() { h.Kill(errC1) })
					case "again":
						fs = append(fs, func() { h.Context(parent, "given2") })
					case "w-fail":
						fs = append(fs, func() { h.t.Point(); h.w0().Exit(errCInst) })
					}
					h.Par(fs...)
					h.Par(func() { h.Context(parent, "after") })
					t.Calm(true)
					cancel()
					h.Idle()
					h.Finish()
				},
			})
		}
	}

	// a worker that completes leaves nothing behind
	for _, k := range []string{"dyn", "sync", "gone"} {
		mc.Register(&mc.Scenario{
			Name: "catacomb/leak/" + k, Props: []string{"C02"}, MaxBound: 2,
			Run: func(t *mc.T) {
				if mc.RaceMode {
					return
				}
				h := newCH(t)
				h.Invoke()
				h.Idle()
				base := t.Live()
				for i := 0; i < 2; i++ {
					w := h.mk(k)
					h.Par(func() { h.Add(w) })
					h.t.Point()
					w.Exit(nil)
					h.Idle()
					if n := t.Live(); n != base {
						h.fail("C02", "after a worker completed %d goroutines are left over", n-base)
					}
				}
				h.Kill(nil)
				h.Idle()
				if n := t.Live(); n != 1 {
					h.fail("C01", "after the catacomb's death %d goroutines are left over", n-1)
				}
				h.Finish()
			},
		})
	}

	// sequences of calls, each of which is complete before the next
	{
		for _, in := range []string{"sync-err", "dyn-err", "stub-err"} {
			mc.Register(&mc.Scenario{
				Name: "catacomb/seq/" + in, Props: cProps, MaxBound: 0, Policies: 1, MaxSteps: 4000,
				Run: func(t *mc.T) {
					depth := 4
					if t.Tier == "thorough" {
						depth = 5
					}
					h := newCH(t)
					t.Calm(true)
					h.Invoke(h.mk(in))
					h.Idle()
					for i := 0; i < depth; i++ {
						k := t.Choose(15)
						t.Calm(true)
						switch k {
						case 0:
							h.Par(func() { h.Kill(nil) })
						case 1:
							h.Par(func() { h.Kill(errC1) })
						case 2:
							h.Par(func() { h.KillOwn() })
						case 3:
							h.Par(func() { h.Kill(tomb.ErrDying) })
						case 4:
							h.Par(func() { h.Kill(otherMark{errors.Trace(otherDying())}) })
						case 5:
							h.Par(func() { h.End(nil) })
						case 6:
							h.Par(func() { h.End(errCWork) })
						case 7:
							w := h.mk("dyn")
							h.Par(func() { h.Add(w) })
						case 8:
							w := h.mk("stub-err")
							h.Par(func() { h.Add(w) })
						case 9:
							w := h.mk("gone-err")
							h.Par(func() { h.Add(w) })
						case 10:
							if w := h.live(); w != nil {
								w.Exit(nil)
							}
							h.Idle()
						case 11:
							if w := h.live(); w != nil {
								w.Exit(errCInst)
							}
							h.Idle()
						case 12:
							if w := h.live(); w != nil {
								w.ours = true
								w.Inst.Kill()
							}
							h.Idle()
						case 13:
							h.ReleaseAll()
							h.Idle()
						case 14:
							h.Par(func() { h.Wait() })
						}
						if t.Failed() {
							return
						}
					}
					h.Finish()
				},
			})
		}
	}
}

// live returns the latest owned worker that runs.
func (h *ch) live() *cWorker {
	for i := len(h.ws) - 1; i >= 0; i-- {
		if w := h.ws[i]; w.owned && !w.Stopped && !w.Killed {
			return w
		}
	}
	return nil
}

func (h *ch) isInvoked() bool { return h.invoked || h.workRun }

func cValidate(t *mc.T) {
	if mc.RaceMode {
		return
	}
	t.Calm(true)
	var c catacomb.Catacomb
	ran := 0
	p := catacomb.Plan{Site: &c, Name: "n", Work: func() error { ran++; <-c.Dying(); return nil }}
	bad := false
	if t.Choose(2) == 1 {
		p.Name = ""
		bad = true
	}
	if t.Choose(2) == 1 {
		p.Site = nil
		bad = true
	}
	if t.Choose(2) == 1 {
		p.Work = nil
		bad = true
	}
	var ws []*Inst
	n := t.Choose(4)
	for i := 0; i < n; i++ {
		switch t.Choose(3) {
		case 0:
			p.Init = append(p.Init, nil)
			bad = true
		case 1:
			w := NewInst(t, "w", i, false, nil)
			ws = append(ws, w)
			p.Init = append(p.Init, w)
		case 2:
			w := NewInst(t, "w", i, true, errCEnd)
			ws = append(ws, w)
			p.Init = append(p.Init, w)
		}
	}
	if err := p.Validate(); (err != nil) != bad {
		t.Failf("C04", "Validate returned %v for %+v", err, p)
	} else if bad && !errors.Is(err, errors.NotValid) {
		t.Failf("C04", "Validate returned %v, which is not a NotValid error", err)
	}
	err := catacomb.Invoke(p)
	if (err != nil) != bad {
		t.Failf("C04", "Invoke returned %v for %+v", err, p)
	}
	for _, w := range ws {
		if bad && !w.Stopped {
			t.Failf("C02,C04", "an Invoke that fails does not stop its workers")
		}
	}
	t.Quiesce()
	if bad {
		if ran != 0 {
			t.Failf("C04", "the work function of an invalid plan was run")
		}
		if !errors.Is(err, errors.NotValid) {
			t.Failf("C04", "Invoke returned %v, which is not a NotValid error", err)
		}
		// the catacomb can still be used
		p = catacomb.Plan{Site: &c, Name: "n", Work: func() error { ran++; <-c.Dying(); return nil }}
		if err := catacomb.Invoke(p); err != nil {
			t.Failf("C04", "a catacomb named in an invalid plan cannot be used any more: %v", err)
			return
		}
		t.Quiesce()
	}
	if ran != 1 {
		t.Failf("C04", "the work function was run %d times", ran)
	}
	c.Kill(nil)
	t.Quiesce()
	if !closed(c.Dead()) {
		t.Failf("C01", "the catacomb does not die")
		return
	}
	if err := c.Wait(); err != nil && err != errCEnd {
		t.Failf("C03", "Wait returned %v", err)
	}
	if err := catacomb.Invoke(p); err == nil {
		t.Failf("C04", "a dead catacomb was used again")
	}
	t.Settle()
}

var _ worker.Worker = (*Inst)(nil)

// ---- panics with all sorts of values

type panicVal struct{ a, b int }

func init() {
	for _, v := range []struct {
		name string
		mk   func(h *ch) any
	}{
		{"string", func(*ch) any { return "boom" }},
		{"empty", func(*ch) any { return "" }},
		{"int", func(*ch) any { return 42 }},
		{"struct", func(*ch) any { return panicVal{1, 2} }},
		{"error", func(*ch) any { return errC1 }},
		{"worker-error", func(*ch) any { return errCInst }},
		{"tomb-dying", func(*ch) any { return tomb.ErrDying }},
		{"other-dying", func(*ch) any { return otherDying() }},
		{"own-dying", func(h *ch) any { return h.c.ErrDying() }},
		{"own-dying-wrapped", func(h *ch) any { return errors.Annotate(h.c.ErrDying(), "wrapped") }},
		{"nil-error", func(h *ch) any { return (*panicError)(nil) }},
		{"runtime-error", func(h *ch) any {
			defer func() {}()
			var e any
			func() {
				defer func() { e = recover() }()
				var s []int
				_ = s[len(h.ws)+5]
			}()
			return e
		}},
	} {
		for _, state := range []string{"alive", "dying", "failed", "failing"} {
			mc.Register(&mc.Scenario{
				Name: "catacomb/panic/" + v.name + "/" + state, Props: []string{"C06", "C03", "C05"}, MaxBound: 2, ThoroughBound: 4,
				Run: func(t *mc.T) {
					h := newCH(t)
					h.workHow = "stub"
					h.Invoke(h.mk("dyn-err"))
					h.Idle()
					switch state {
					case "dying":
						h.Kill(nil)
						h.Idle()
					case "failed":
						h.Kill(errC2)
						h.Idle()
					case "alive":
						t.Point()
					}
					p := func() {
						h.t.Point()
						h.Panic(v.mk(h))
					}
					if state == "failing" {
						h.Par(p, func() { h.Kill(errC2) })
					} else {
						h.Par(p)
					}
					h.Finish()
				},
			})
		}
	}
}

// ---- errors that mean something elsewhere

func init() {
	xs := specials
	for _, src := range []string{"kill", "kill-twice", "work", "exit", "killed", "gone", "add-gone", "refused"} {
		mc.Register(&mc.Scenario{
			Name: "catacomb/errors/" + src, Props: []string{"C01", "C02", "C03", "C05", "C07"}, MaxBound: 1, ThoroughBound: 2,
			Run: func(t *mc.T) {
				x := xs[t.Choose(len(xs))]
				dying := t.Choose(2) == 1
				h := newCH(t)
				h.workHow = "stub"
				t.Calm(true)
				var w, g *cWorker
				switch src {
				case "exit":
					w = h.mk("dyn")
				case "killed", "refused":
					w = h.mk("dyn")
					w.KillErr = x
				case "gone", "add-gone":
					g = h.mk("sync")
					g.Exit(x)
				}
				if src == "gone" {
					h.Invoke(g)
				} else {
					h.Invoke(h.mk("sync"))
				}
				h.Idle()
				t.Calm(false)
				if src == "refused" || dying {
					if src == "killed" {
						h.Add(w)
						h.Idle()
					}
					h.Kill(nil)
				}
				switch src {
				case "kill":
					h.Kill(x)
				case "kill-twice":
					h.Kill(x)
					h.Kill(errC1)
				case "work":
					h.End(x)
				case "exit":
					h.Add(w)
					h.Idle()
					w.Exit(x)
				case "killed":
					if !dying {
						h.Add(w)
						h.Idle()
						w.ours = true
						w.Kill()
					}
				case "add-gone":
					h.Add(g)
				case "refused":
					h.Add(w)
				}
				h.Idle()
				h.Par(func() { h.Err() })
				h.Par(func() { h.Wait() })
				h.Finish()
			},
		})
	}
}
