package scen

import (
	"context"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

// seqAlphabet performs the k-th event of the sequence scenarios, completely.
func (h *eh) seqStep(k int) bool {
	exits := []error{nil, errOther, eBounceW, dependency.ErrUninstall, eMissW}
	ms := []string{"a", "b"}
	if k < 2*len(exits) {
		h.Par(func() { h.Exit(ms[k/len(exits)], exits[k%len(exits)]) })
		return true
	}
	k -= 2 * len(exits)
	switch k {
	case 0:
		h.Pass(5 * time.Second)
	case 1:
		h.Pass(13 * time.Second)
	case 2:
		h.Pass(70 * time.Second)
	case 3:
		h.Par(func() { h.Install(eSpec{name: "a"}) })
	case 4:
		h.Par(func() { h.Install(eSpec{name: "b", inputs: []string{"a"}}) })
	case 5:
		h.Par(func() { h.Install(eSpec{name: "c", inputs: []string{"b", "a"}, hard: true}) })
	default:
		return false
	}
	return true
}

func init() {
	// sequences of events, each of which is dealt with before the next
	for _, hard := range []bool{false, true} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("engine/seq/hard=%v", hard), Props: dProps, MaxBound: 0, Policies: 1, MaxSteps: 20000,
			Run: func(t *mc.T) {
				depth := 4
				if t.Tier == "thorough" {
					depth = 5
				}
				h := newEH(t, stdCfg())
				t.Calm(true)
				h.up([]eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: hard}})
				for i := 0; i < depth; i++ {
					k := t.Choose(16)
					t.Calm(true)
					h.seqStep(k)
				}
				h.Finish()
			},
		})
	}

	// the same with workers that take their time to start and to stop
	slow := []func(h *eh){
		func(h *eh) { h.Exit("a", errOther) },
		func(h *eh) { h.Exit("a", nil) },
		func(h *eh) { h.Exit("a", eBounceW) },
		func(h *eh) { h.Exit("b", errOther) },
		func(h *eh) { h.Exit("b", dependency.ErrUninstall) },
		func(h *eh) { h.Exit("b", nil) },
		func(h *eh) { h.Let("b") },
		func(h *eh) { h.LooseInsts("a") },
		func(h *eh) { h.LooseInsts("b") },
		func(h *eh) { h.Pass(13 * time.Second) },
		func(h *eh) { h.Pass(70 * time.Second) },
		func(h *eh) { h.Kill() },
		func(h *eh) { h.Install(eSpec{name: "d", inputs: []string{"b", "a"}}) },
		func(h *eh) { h.Install(eSpec{name: "b", inputs: []string{"a"}, script: []eBeh{{stubborn: true}}}) },
	}
	for _, kind := range []string{"slow", "honour", "failing"} {
		mc.Register(&mc.Scenario{
			Name: "engine/seq-slow/" + kind, Props: dProps, MaxBound: 0, Policies: 1, MaxSteps: 20000,
			Run: func(t *mc.T) {
				depth := 4
				if t.Tier == "thorough" {
					depth = 5
				}
				h := newEH(t, stdCfg())
				t.Calm(true)
				b := []eBeh{{block: true, stubborn: true, honour: kind == "honour"}}
				if kind == "failing" {
					b = []eBeh{{stubborn: true, killErr: errOther}, {block: true, honour: true, err: errOther}, {stubborn: true}}
				}
				h.up([]eSpec{{name: "a", script: []eBeh{{stubborn: true}}}, {name: "b", inputs: []string{"a"}, script: b}, {name: "c", inputs: []string{"b"}, hard: true}})
				if kind == "failing" {
					h.Exit("b", errOther)
					h.Idle()
					h.Pass(70 * time.Second)
				}
				for i := 0; i < depth; i++ {
					k := t.Choose(len(slow))
					t.Calm(true)
					if k == 9 || k == 10 {
						slow[k](h)
					} else {
						h.Par(func() { slow[k](h) })
					}
				}
				h.Finish()
			},
		})
	}

	// the same without delays
	for _, z := range []string{"bounce", "both"} {
		mc.Register(&mc.Scenario{
			Name: "engine/zero-delay/" + z, Props: dProps, MaxBound: 0, Policies: 7, MaxSteps: 20000,
			Run: func(t *mc.T) {
				cfg := stdCfg()
				cfg.bounceDelay = 0
				if z == "both" {
					cfg.errDelay = 0
				}
				h := newEH(t, cfg)
				t.Calm(true)
				h.up([]eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}}, {name: "c", inputs: []string{"b"}, hard: true}})
				for i := 0; i < 3; i++ {
					k := t.Choose(16)
					t.Calm(true)
					h.seqStep(k)
				}
				h.Finish()
			},
		})
	}

	// inputs that are listed repeatedly
	for _, z := range []bool{false, true} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("engine/repeated-inputs/zero=%v", z), Props: dProps, MaxBound: 0, Policies: 7, MaxSteps: 20000,
			Run: func(t *mc.T) {
				cfg := stdCfg()
				if z {
					cfg.bounceDelay = 0
				}
				h := newEH(t, cfg)
				t.Calm(true)
				h.up([]eSpec{{name: "a"}, {name: "b", inputs: []string{"a", "a"}}, {name: "c", inputs: []string{"b", "a", "b"}, hard: true}})
				for i := 0; i < 3; i++ {
					k := t.Choose(16)
					t.Calm(true)
					h.seqStep(k)
				}
				h.Finish()
			},
		})
	}

	// backoff: one worker fails again and again, after running for different times
	type bo struct {
		name   string
		factor float64
		max    time.Duration
		reset  time.Duration
		rand   uint64
	}
	for _, b := range []bo{
		{"f2", 2, 0, 0, 0},
		{"f2-reset", 2, 0, 30 * time.Second, 0},
		{"f2-max", 2, 200 * time.Second, 30 * time.Second, 0},
		{"f2-maxlow", 2, 5 * time.Second, 30 * time.Second, 0},
		{"f1.5-min", 1.5, 150 * time.Second, 30 * time.Second, randMin},
		{"f1.5-max", 1.5, 150 * time.Second, 30 * time.Second, randMax},
		{"f1", 1, 0, 30 * time.Second, 0},
		{"f0-min", 0, 5 * time.Second, 30 * time.Second, randMin},
		{"f0-max", 0, 0, 0, randMax},
	} {
		mc.Register(&mc.Scenario{
			Name: "engine/backoff/" + b.name, Props: []string{"D03", "D06", "D04", "D10"}, MaxBound: 0, Policies: 1, MaxSteps: 20000, Rand: b.rand,
			Run: func(t *mc.T) {
				cfg := stdCfg()
				cfg.factor, cfg.maxDelay, cfg.reset = b.factor, b.max, b.reset
				h := newEH(t, cfg)
				t.Calm(true)
				depth := 4
				if t.Tier == "thorough" {
					depth = 5
				}
				// what the start attempts of b do
				script := []eBeh{{}}
				h.up([]eSpec{{name: "a"}})
				m := h.Install(eSpec{name: "b", inputs: []string{"a"}, script: script})
				h.Idle()
				for i := 0; i < depth; i++ {
					k := t.Choose(10)
					t.Calm(true)
					switch k {
					case 9: // told to stop, it asks to be bounced
						h.cur("b").KillErr = dependency.ErrBounce
						h.Exit("a", dependency.ErrBounce)
					case 0:
						h.Exit("b", errOther)
					case 1:
						h.Exit("b", dependency.ErrBounce)
					case 2: // the next attempt fails to start
						m.script = append(append([]eBeh{}, pad(m)...), eBeh{err: errOther}, eBeh{})
						h.Exit("b", errOther)
					case 3:
						h.Exit("a", dependency.ErrBounce)
					case 4:
						h.Pass(31 * time.Second)
						continue
					case 5:
						h.Exit("b", nil)
						h.Idle()
						h.Exit("a", dependency.ErrBounce)
					case 6:
						h.Exit("b", eMissW)
						h.Idle()
						h.Exit("a", dependency.ErrBounce)
					case 7: // restarted while it waits
						h.Exit("b", errOther)
						h.Pass(2 * time.Second)
						h.Exit("a", dependency.ErrBounce)
					case 8:
						h.Pass(29 * time.Second)
						h.Exit("b", errOther)
					}
					h.Idle()
					// until b runs again
					for n := 0; n < 40 && h.cur("b") == nil && !t.Failed(); n++ {
						h.passTo("b")
					}
				}
				h.Finish()
			},
		})
	}

	// other delays
	for i, d := range [][2]time.Duration{{time.Millisecond, time.Millisecond}, {50 * time.Millisecond, 3 * time.Second}, {3 * time.Second, 50 * time.Millisecond}, {2 * time.Minute, time.Second},
		{time.Second, time.Hour}, {10 * time.Hour, 90 * time.Second}, {0, time.Second}, {time.Second, 0}} {
		for _, rnd := range []uint64{0, randMin, randMax} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("engine/delays/%d/%x", i, rnd), Props: []string{"D03", "D04", "D06"}, MaxBound: 0, Policies: 1, MaxSteps: 40000, Rand: rnd,
				Run: func(t *mc.T) {
					cfg := stdCfg()
					cfg.errDelay, cfg.bounceDelay = d[0], d[1]
					h := newEH(t, cfg)
					t.Calm(true)
					h.up([]eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}}})
					for k := 0; k < 4; k++ {
						c := t.Choose(6)
						t.Calm(true)
						switch c {
						case 0:
							h.Exit("a", errOther)
						case 1:
							h.Exit("a", dependency.ErrBounce)
						case 2:
							h.Exit("b", errOther)
						case 3:
							h.Exit("b", dependency.ErrBounce)
						case 4:
							h.Exit("b", nil)
						case 5:
							h.Pass(h.span())
						}
						h.Idle()
						h.passTo("a")
						h.passTo("b")
					}
					h.Finish()
				},
			})
		}
	}

	// an input that fails again and again, started or not, and those that depend on it
	for _, dep := range []string{"soft", "hard", "mixed"} {
		mc.Register(&mc.Scenario{
			Name: "engine/failing-input/" + dep, Props: []string{"D03", "D04", "D06", "D10", "D11"}, MaxBound: 0, Policies: 1, MaxSteps: 40000,
			Run: func(t *mc.T) {
				depth := 5
				if t.Tier == "thorough" {
					depth = 7
				}
				var script []eBeh
				for i := 0; i < depth; i++ {
					script = append(script, []eBeh{{err: errOther}, {err: eBounceW}, {}}[t.Choose(3)])
				}
				t.Calm(true)
				h := newEH(t, stdCfg())
				h.Install(eSpec{name: "b", inputs: []string{"a"}, hard: dep != "soft"})
				h.Install(eSpec{name: "c", inputs: []string{"a", "b"}, hard: dep == "hard"})
				h.Install(eSpec{name: "d", inputs: []string{"c"}, hard: dep == "hard"})
				h.Idle()
				a := h.Install(eSpec{name: "a", script: append(script, eBeh{})})
				h.Idle()
				for i := 0; i < depth && !t.Failed(); i++ {
					for n := 0; n < 40 && len(a.atts) <= i && !t.Failed(); n++ {
						h.passTo("a")
					}
					if h.cur("a") != nil {
						h.Pass(h.span())
						h.Exit("a", errOther)
						h.Idle()
					}
				}
				h.Finish()
			},
		})
	}

	// errors that mean something elsewhere
	for _, src := range []string{"start", "exit", "bounced", "fatal-start", "fatal-exit", "fatal-bounced", "fatal-killed", "fatal-two"} {
		mc.Register(&mc.Scenario{
			Name: "engine/errors/" + src, Props: []string{"D02", "D03", "D04", "D05", "D06", "D10", "D12"}, MaxBound: 0, Policies: 3,
			Run: func(t *mc.T) {
				x := specials[t.Choose(len(specials))]
				kind := t.Choose(4)
				t.Calm(true)
				cfg := stdCfg()
				fatal := strings.HasPrefix(src, "fatal")
				cfg.isFatal = func(err error) bool { return err != nil && fatal == sameErr(err, x) }
				if !fatal {
					cfg.isFatal = func(error) bool { return false }
				}
				if kind&1 == 1 {
					cfg.filter = func(err error) error { return err }
				}
				h := newEH(t, cfg)
				if kind&2 == 2 {
					h.Install(eSpec{name: "self", self: true})
				}
				b := eSpec{name: "b", inputs: []string{"a"}, script: []eBeh{{}}}
				switch src {
				case "start", "fatal-start":
					b.script = []eBeh{{err: x}, {}}
				case "bounced", "fatal-bounced":
					b.script = []eBeh{{killErr: x}, {}}
				case "fatal-killed", "fatal-two":
					b.script = []eBeh{{killErr: x}}
				}
				h.up([]eSpec{{name: "a"}, {name: "c", inputs: []string{"b"}}})
				h.Install(b)
				h.Idle()
				switch src {
				case "exit", "fatal-exit":
					h.Exit("b", x)
				case "bounced", "fatal-bounced":
					h.Exit("a", errOther)
				case "fatal-killed":
					h.Kill()
				case "fatal-two":
					h.Exit("a", x)
				}
				h.Idle()
				h.Par(func() { h.Report(true) })
				h.Pass(h.span())
				h.Finish()
			},
		})
	}

	// what ends the engine
	for _, lower := range []bool{false, true} {
		for _, flt := range []string{"none", "map", "drop", "mark"} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("engine/fatal/lower=%v/filter=%s", lower, flt), Props: []string{"D05", "D02", "D04", "D10"}, MaxBound: 1, ThoroughBound: 2,
				Run: func(t *mc.T) {
					cfg := stdCfg()
					cfg.lower = lower
					cfg.filter = filterFor(flt)
					errs := []error{errEFatal1, errEFatal2, errDomain, nil, errOther}
					h := newEH(t, cfg)
					t.Calm(true)
					e1 := errs[t.Choose(3)]
					e2 := errs[t.Choose(4)]
					e3 := errs[t.Choose(5)]
					mf := []func(error) error{nil, domainFilter}[t.Choose(2)]
					stub := t.Choose(2) == 1
					t.Calm(true)
					h.Install(eSpec{name: "a", filter: mf, script: []eBeh{{stubborn: stub, killErr: e2}}})
					h.Install(eSpec{name: "b", filter: mf, script: []eBeh{{dyn: true, killErr: e3}}})
					h.Install(eSpec{name: "c", filter: mf, script: []eBeh{{dyn: true}}})
					h.Idle()
					t.Calm(false)
					h.Par(func() { h.Wait() }, func() { h.Exit("c", e1) })
					h.Loose("a")
					h.Idle()
					h.Finish()
				},
			})
		}
	}
	// errors of start functions, of every class and through a manifold's filter
	for fi, flt := range []string{"none", "to-bounce", "to-nil", "to-uninst", "to-missing", "to-other", "to-fatal"} {
		mc.Register(&mc.Scenario{
			Name: "engine/start-error/" + flt, Props: []string{"D01", "D04", "D05", "D06", "D10", "D02", "D03"}, MaxBound: 1,
			Run: func(t *mc.T) {
				targets := []error{nil, eBounceW, nil, eUninstW, dependency.ErrMissing, errOther, errEFatal2}
				var mf func(error) error
				if fi > 0 {
					from := errDomain
					mf = func(err error) error {
						if err == from {
							return targets[fi]
						}
						return err
					}
					t.Calm(true)
					if t.Choose(2) == 1 {
						from = nil
					}
				}
				errs := []error{errDomain, errOther, dependency.ErrBounce, eMissW, eUninstW, errEFatal1, errors.Trace(context.Canceled), nil}
				h := newEH(t, stdCfg())
				t.Calm(true)
				e := errs[t.Choose(len(errs))]
				late := t.Choose(3)
				t.Calm(true)
				var s []eBeh
				switch late {
				case 0: // the start function fails
					s = []eBeh{{err: e}, {}}
				case 1: // the worker fails
					s = []eBeh{{}}
				case 2: // after a clean run
					s = []eBeh{{dyn: true}, {err: e}, {}}
				}
				h.Install(eSpec{name: "a"})
				h.Idle()
				t.Calm(false)
				h.Install(eSpec{name: "b", inputs: []string{"a"}, filter: mf, script: s})
				h.Idle()
				if late == 1 {
					h.Exit("b", e)
				}
				if late == 2 {
					h.Exit("b", nil)
				}
				h.Idle()
				t.Calm(true)
				h.Par(func() { h.Report(true) })
				h.Pass(h.span())
				h.Par(func() { h.Report(true) })
				h.Exit("a", errOther)
				h.Idle()
				h.Pass(h.span())
				h.Par(func() { h.Report(true) })
				h.Finish()
			},
		})
	}
	// every error that the engine does not know is fatal: its own must not be
	for _, self := range []bool{false, true} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("engine/all-fatal/self=%v", self), Props: []string{"D05", "D02", "D12"}, MaxBound: 2, ThoroughBound: 3,
			Run: func(t *mc.T) {
				cfg := stdCfg()
				cfg.isFatal = func(err error) bool { return classOf(err) == clOther }
				h := newEH(t, cfg)
				t.Calm(true)
				k := t.Choose(4)
				t.Calm(true)
				if self {
					h.Install(eSpec{name: "self", self: true})
				}
				h.up([]eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}}})
				switch k {
				case 0:
					// b waits to be restarted when its input changes again
					h.Exit("b", dependency.ErrBounce)
					h.Pass(time.Second)
					t.Calm(false)
					h.Exit("a", dependency.ErrBounce)
				case 1:
					h.Exit("a", dependency.ErrBounce)
					h.Pass(time.Second)
					t.Calm(false)
					h.Kill()
				case 2:
					t.Calm(false)
					h.Par(func() { h.Kill() }, func() { h.Exit("a", nil) }, func() { h.Wait() })
				case 3:
					t.Calm(false)
					h.Par(func() { h.Kill() }, func() { h.Exit("a", errOther) }, func() { h.Wait() })
				}
				h.Idle()
				t.Calm(true)
				h.Finish()
			},
		})
	}

	// installing
	type iact struct {
		name string
		do   func(h *eh)
	}
	ins := func(n string, in ...string) iact {
		return iact{fmt.Sprintf("%s(%v)", n, in), func(h *eh) { h.Install(eSpec{name: n, inputs: in}) }}
	}
	iacts := []iact{ins("a"), ins("a", "b"), ins("b", "a"), ins("b", "a", "c"), ins("c", "b"), ins("c", "c"),
		{"a-uninst", func(h *eh) { h.Exit("a", dependency.ErrUninstall) }},
		{"kill", func(h *eh) { h.Kill() }},
		{"report", func(h *eh) { h.Report(false) }}}
	for _, pre := range [][]iact{nil, {iacts[0]}, {iacts[1]}, {iacts[0], iacts[3]}} {
		pn := ""
		for _, p := range pre {
			pn += p.name
		}
		for i, a := range iacts {
			for j := i; j < len(iacts); j++ {
				b := iacts[j]
				mc.Register(&mc.Scenario{
					Name: fmt.Sprintf("engine/install/%s/%s+%s", pn, a.name, b.name), Props: []string{"D07", "D01", "D02", "D03"}, MaxBound: 2, Full: 1,
					Run: func(t *mc.T) {
						h := newEH(t, stdCfg())
						t.Calm(true)
						for _, p := range pre {
							p.do(h)
							h.Idle()
						}
						h.Pass(h.span())
						t.Calm(false)
						h.Par(func() { a.do(h) }, func() { b.do(h) })
						h.Finish()
					},
				})
			}
		}
	}
	mc.Register(&mc.Scenario{
		Name: "engine/install-seq", Props: []string{"D07", "D08"}, MaxBound: 0, Policies: 1, MaxSteps: 20000,
		Run: func(t *mc.T) {
			h := newEH(t, stdCfg())
			n := 3
			if t.Tier == "thorough" {
				n = 4
			}
			for i := 0; i < n; i++ {
				// any list of up to two inputs, or all three
				k := t.Choose(42)
				t.Calm(true)
				var in []string
				switch l := k % 14; {
				case l < 9:
					in = []string{string("abc"[l/3]), string("abc"[l%3])}
				case l < 12:
					in = []string{string("abc"[l-9])}
				case l == 12:
					in = []string{"c", "a", "b"}
				}
				h.Install(eSpec{name: string("abc"[k/14]), inputs: in})
				h.Idle()
			}
			h.Kill()
			h.Idle()
			h.Wait()
		},
	})
	mc.Register(&mc.Scenario{
		Name: "engine/install-uninstall-seq", Props: []string{"D07", "D03"}, MaxBound: 0, Policies: 1, MaxSteps: 40000,
		Run: func(t *mc.T) {
			h := newEH(t, stdCfg())
			n := 4
			if t.Tier == "thorough" {
				n = 5
			}
			specs := []eSpec{{name: "a"}, {name: "a", hidden: true}, {name: "a", inputs: []string{"b"}}, {name: "b", inputs: []string{"a"}}, {name: "b"}, {name: "c", inputs: []string{"a", "b"}}, {name: "b", inputs: []string{"c"}}}
			for i := 0; i < n; i++ {
				k := t.Choose(len(specs) + 4)
				t.Calm(true)
				switch k -= len(specs); k {
				case 0:
					h.Exit("a", dependency.ErrUninstall)
				case 1:
					h.Exit("b", dependency.ErrUninstall)
				case 2:
					h.Exit("a", errOther)
				case 3:
					h.Pass(h.span())
				default:
					h.Install(specs[k+len(specs)])
				}
				h.Idle()
			}
			h.Finish()
		},
	})

	// many manifolds installed at once, with starts that take their time
	for _, tp := range []string{"chain", "chain3", "join", "fork", "diamond", "star"} {
		for _, rev := range []bool{false, true} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("engine/startup/%s/reverse=%v", tp, rev), Props: dProps, MaxBound: map[bool]int{false: 2, true: 1}[tp == "star" || tp == "diamond"], LowProps: dLow, ThoroughBound: 3,
				Run: func(t *mc.T) {
					h := newEH(t, stdCfg())
					ms := topo(tp)
					var fs []func()
					for i := range ms {
						m := ms[i]
						if rev {
							m = ms[len(ms)-1-i]
						}
						fs = append(fs, func() { h.Install(m) })
					}
					h.Par(func() {
						for _, f := range fs {
							f()
						}
					})
					t.Calm(true)
					for i := 0; i < len(ms); i++ {
						h.Pass(h.span())
					}
					for _, m := range ms {
						if h.cur(m.name) == nil {
							h.fail("D03", "%s does not run though nothing ever failed", m.name)
						}
					}
					h.Finish()
				},
			})
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("engine/startup-kill/%s/reverse=%v", tp, rev), Props: []string{"D01", "D02", "D07"}, MaxBound: 1, ThoroughBound: 2,
				Run: func(t *mc.T) {
					h := newEH(t, stdCfg())
					ms := topo(tp)
					for i := range ms {
						ms[i].script = []eBeh{{dyn: true}}
					}
					h.Par(func() {
						for i := range ms {
							if rev {
								i = len(ms) - 1 - i
							}
							h.Install(ms[i])
						}
					}, func() { h.Kill() }, func() { h.Wait() })
					t.Calm(true)
					h.Finish()
				},
			})
		}
	}

	// hidden inputs, and use of the getter when Start is over
	mc.Register(&mc.Scenario{
		Name: "engine/getter", Props: []string{"D09", "D03"}, MaxBound: 2,
		Run: func(t *mc.T) {
			h := newEH(t, stdCfg())
			t.Calm(true)
			kind := t.Choose(4)
			t.Calm(true)
			h.Install(eSpec{name: "a", hidden: kind&1 == 1})
			h.Idle()
			t.Calm(kind&2 == 2)
			h.Install(eSpec{name: "b", inputs: []string{"a", "absent"}})
			h.Install(eSpec{name: "c", inputs: []string{"b", "a"}})
			h.Idle()
			t.Calm(true)
			h.Pass(h.span())
			h.Pass(h.span())
			for _, m := range h.mans {
				h.stale(m, true)
			}
			h.Exit("a", errOther)
			h.Idle()
			h.Pass(h.span())
			for _, m := range h.mans {
				h.stale(m, true)
			}
			h.Finish()
		},
	})

	// an engine that contains itself
	for _, k := range []string{"kill", "fatal", "exit", "stubborn", "dep-err", "report", "wait"} {
		mc.Register(&mc.Scenario{
			Name: "engine/self/" + k, Props: []string{"D12", "D02", "D03", "D01", "D10"}, MaxBound: 2, ThoroughBound: 3, Full: 1,
			Run: func(t *mc.T) {
				h := newEH(t, stdCfg())
				t.Calm(true)
				h.Install(eSpec{name: "self", self: true})
				h.Idle()
				h.up([]eSpec{{name: "b", inputs: []string{"self"}, script: []eBeh{{dyn: true, stubborn: k == "stubborn"}}}})
				h.Par(func() { h.Report(true) })
				t.Calm(false)
				switch k {
				case "kill":
					h.Par(func() { h.Kill() }, func() { h.Report(false) })
				case "wait":
					h.Par(func() { h.Kill() }, func() { h.Wait() })
				case "fatal":
					h.Par(func() { h.Exit("b", errEFatal1) }, func() { h.Wait() })
				case "exit":
					h.Par(func() { h.Exit("b", nil) }, func() { h.Kill() })
				case "stubborn":
					h.Par(func() { h.Kill() }, func() { h.Loose("b") })
				case "dep-err":
					h.Par(func() { h.Exit("b", errOther) }, func() { h.Report(false) })
				case "report":
					h.Par(func() { h.Report(true) }, func() { h.Report(false) })
				}
				t.Calm(true)
				h.Finish()
			},
		})
	}
	// a start function that installs into its own engine
	for _, k := range []string{"plain", "kill", "twice"} {
		mc.Register(&mc.Scenario{
			Name: "engine/self-install/" + k, Props: []string{"D12", "D07", "D02"}, MaxBound: 2, ThoroughBound: 3,
			Run: func(t *mc.T) {
				h := newEH(t, stdCfg())
				t.Calm(true)
				h.Install(eSpec{name: "self", self: true})
				h.Idle()
				t.Calm(false)
				f := func() {
					h.Install(eSpec{name: "b", inputs: []string{"self"}, onStart: func() {
						h.Install(eSpec{name: "n", inputs: []string{"b"}})
						h.Report(false)
					}})
				}
				switch k {
				case "plain":
					h.Par(f)
				case "kill":
					h.Par(f, func() { h.Kill() })
				case "twice":
					h.Par(f, func() { h.Install(eSpec{name: "n"}) })
				}
				t.Calm(true)
				h.Finish()
			},
		})
	}
	registerValidate()
}

func pad(m *eMan) []eBeh {
	s := append([]eBeh{}, m.script...)
	for len(s) < len(m.atts) {
		s = append(s, s[len(s)-1])
	}
	return s[:len(m.atts)]
}

// stale uses a getter when Start has returned.
func (h *eh) stale(m *eMan, again bool) {
	for _, a := range m.atts {
		if a.get == nil || !a.ret || a.aged && !again {
			continue
		}
		a.aged = true
		for _, in := range append([]string{"nix"}, m.inputs...) {
			var w *Inst
			if err := a.get.Get(in, &w); err == nil || w != nil {
				h.fail("D09", "the getter of %s still hands out %s after Start has returned", m.name, in)
			}
			if err := a.get.Get(in, nil); err == nil || errors.Is(err, dependency.ErrMissing) {
				h.fail("D09", "the getter of %s answers %v about %s after Start has returned", m.name, err, in)
			}
		}
	}
}

// passTo lets time pass until something is due.
func (h *eh) passTo(name string) {
	m := h.byName[name]
	if m == nil || len(m.pend) == 0 {
		h.Pass(10 * time.Second)
		return
	}
	d := time.Duration(math.MaxInt64)
	for _, w := range m.pend {
		if w.hi >= h.lastT && w.hi-h.lastT < d {
			d = w.hi - h.lastT
		}
	}
	if d == math.MaxInt64 {
		d = 10 * time.Second
	}
	h.Pass(d + time.Millisecond)
}

func filterFor(k string) func(error) error {
	switch k {
	case "map":
		return func(err error) error {
			if err == errEFatal1 {
				return errFiltered
			}
			return err
		}
	case "drop":
		return func(error) error { return nil }
	case "mark":
		return func(err error) error {
			if err == nil {
				return errFiltered
			}
			return err
		}
	}
	return nil
}

func domainFilter(err error) error {
	if err == errDomain {
		return errEFatal2
	}
	return err
}

var _ worker.Worker = (*Inst)(nil)
