package scen

import (
	"fmt"
	"time"

	"github.com/juju/errors"
	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

func cyclicGraph(g map[string][]string) bool {
	// repeatedly remove what depends on nothing that remains
	left := map[string]bool{}
	for n := range g {
		left[n] = true
	}
	for {
		done := true
		for n := range left {
			free := true
			for _, i := range g[n] {
				if left[i] {
					free = false
				}
			}
			if free {
				delete(left, n)
				done = false
			}
		}
		if done {
			return len(left) > 0
		}
	}
}

func checkGraph(t *mc.T, g map[string][]string) {
	ms := dependency.Manifolds{}
	for n, in := range g {
		ms[n] = dependency.Manifold{Inputs: in}
	}
	err := dependency.Validate(ms)
	if c := cyclicGraph(g); c != (err != nil) {
		t.Failf("D08", "Validate of %v returned %v (cyclic: %v)", g, err, c)
	}
}

type recInstaller struct {
	got  []string
	fail map[string]error
}

func (r *recInstaller) Install(name string, m dependency.Manifold) error {
	if len(m.Inputs) != 1 || m.Inputs[0] != "in-"+name {
		return errOther2
	}
	r.got = append(r.got, name)
	return r.fail[name]
}

func registerValidate() {
	names := []string{"a", "b", "c", "d"}
	// all graphs of up to four manifolds, whose inputs are among these
	for i := 0; i < 16; i++ {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("validate/graphs-4/%x", i), Props: []string{"D08"}, Policies: 1, MaxSteps: 1 << 20,
			Run: func(t *mc.T) {
				for g := i << 12; g < (i+1)<<12; g++ {
					m := map[string][]string{}
					for n := 0; n < 4; n++ {
						var in []string
						for k := 0; k < 4; k++ {
							if g>>(4*n+k)&1 == 1 {
								in = append(in, names[k])
							}
						}
						m[names[n]] = in
					}
					checkGraph(t, m)
				}
			},
		})
	}
	// all lists of up to three inputs, repeated, in any order, and unknown
	// ones, for up to three manifolds
	var lists [][]string
	pool := []string{"a", "b", "c", "x"}
	lists = append(lists, nil)
	for l := 1; l <= 2; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= len(pool)
		}
		for k := 0; k < n; k++ {
			var in []string
			for i, r := 0, k; i < l; i, r = i+1, r/len(pool) {
				in = append(in, pool[r%len(pool)])
			}
			lists = append(lists, in)
		}
	}
	for _, sub := range [][]string{{"a"}, {"a", "b"}, {"a", "b", "c"}} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("validate/lists/%d", len(sub)), Props: []string{"D08"}, Policies: 1, MaxSteps: 1 << 20,
			Run: func(t *mc.T) {
				n := 1
				for range sub {
					n *= len(lists)
				}
				for k := 0; k < n; k++ {
					m := map[string][]string{}
					r := k
					for _, s := range sub {
						m[s] = lists[r%len(lists)]
						r /= len(lists)
					}
					checkGraph(t, m)
				}
			},
		})
	}
	// graphs of five manifolds: a line or a ring with two extra edges
	mc.Register(&mc.Scenario{
		Name: "validate/lines-7", Props: []string{"D08"}, Policies: 1, MaxSteps: 1 << 22,
		Run: func(t *mc.T) {
			const n = 7
			for e1 := 0; e1 < n*n; e1++ {
				for e2 := 0; e2 < n*n; e2++ {
					m := map[string][]string{}
					for i := 0; i < n; i++ {
						k := fmt.Sprintf("m%d", i)
						if i > 0 {
							m[k] = append(m[k], fmt.Sprintf("m%d", i-1))
						} else {
							m[k] = nil
						}
					}
					for _, e := range []int{e1, e2} {
						k := fmt.Sprintf("m%d", e/n)
						m[k] = append(m[k], fmt.Sprintf("m%d", e%n))
					}
					checkGraph(t, m)
				}
			}
		},
	})
	// a very wide and deep graph without cycles
	mc.Register(&mc.Scenario{
		Name: "validate/ladder", Props: []string{"D08"}, Policies: 1, MaxSteps: 1 << 22,
		Run: func(t *mc.T) {
			m := map[string][]string{}
			for i := 0; i < 60; i++ {
				for _, s := range []string{"l", "r"} {
					k := fmt.Sprintf("%s%d", s, i)
					m[k] = nil
					if i > 0 {
						m[k] = []string{fmt.Sprintf("l%d", i-1), fmt.Sprintf("r%d", i-1)}
					}
				}
			}
			checkGraph(t, m)
			m["l0"] = []string{"r59"}
			checkGraph(t, m)
		},
	})
	mc.Register(&mc.Scenario{
		Name: "dependency-install", Props: []string{"D07"}, Policies: 1, MaxSteps: 1 << 20,
		Run: func(t *mc.T) {
			for f := 0; f < 1<<8; f++ {
				present, failing := f&15, f>>4
				r := &recInstaller{fail: map[string]error{}}
				ms := dependency.Manifolds{}
				for i, n := range names {
					if present>>i&1 == 1 {
						ms[n] = dependency.Manifold{Inputs: []string{"in-" + n}}
					}
					if failing>>i&1 == 1 {
						r.fail[n] = errors.New("fail " + n)
					}
				}
				err := dependency.Install(r, ms)
				seen := map[string]bool{}
				var want error
				for _, n := range r.got {
					if seen[n] {
						t.Failf("D07", "Install installed %s twice", n)
					}
					seen[n] = true
					if want != nil {
						t.Failf("D07", "Install went on after the error %v", want)
					}
					want = r.fail[n]
				}
				if want == nil && len(r.got) != len(ms) {
					t.Failf("D07", "Install installed %v of %v", r.got, ms)
				}
				if want == nil && err != nil || want != nil && errors.Cause(err) != want {
					t.Failf("D07", "Install returned %v instead of %v", err, want)
				}
			}
		},
	})
	mc.Register(&mc.Scenario{
		Name: "engine/config", Props: []string{"D11"}, Policies: 1, MaxSteps: 1 << 22,
		Run: func(t *mc.T) {
			t.Calm(true)
			durs := []time.Duration{-time.Hour, -1, 0, 1, time.Hour}
			factors := []float64{-2, -1e-9, 0, 1e-9, 0.5, 0.999999, 1, 1.000001, 2, 1e9}
			h := &eh{t: t}
			check := func(c dependency.EngineConfig) {
				good := c.IsFatal != nil && c.WorstError != nil && c.ErrorDelay >= 0 && c.BounceDelay >= 0 && c.BackoffResetTime >= 0 && c.MaxDelay >= 0 &&
					(c.BackoffFactor == 0 || c.BackoffFactor >= 1) && c.Clock != nil && c.Metrics != nil && c.Logger != nil
				n := t.Live()
				err := c.Validate()
				if (err == nil) != good {
					t.Failf("D11", "Validate returned %v for %+v", err, c)
				}
				e, err2 := dependency.NewEngine(c)
				if (err2 == nil) != good || (e != nil) != good {
					t.Failf("D11", "NewEngine returned %v, %v for %+v", e, err2, c)
				}
				if e != nil {
					e.Kill()
					if err := e.Wait(); err != nil {
						t.Failf("D11", "an engine ended with %v", err)
					}
				} else if t.Live() != n {
					t.Failf("D11", "NewEngine failed, but left a goroutine behind")
				}
			}
			base := dependency.EngineConfig{IsFatal: func(error) bool { return false }, WorstError: h.worst, Clock: Clock{}, Metrics: dependency.DefaultMetrics(), Logger: Logger{}}
			for miss := 0; miss < 32; miss++ {
				c := base
				if miss&1 != 0 {
					c.IsFatal = nil
				}
				if miss&2 != 0 {
					c.WorstError = nil
				}
				if miss&4 != 0 {
					c.Clock = nil
				}
				if miss&8 != 0 {
					c.Metrics = nil
				}
				if miss&16 != 0 {
					c.Logger = nil
				}
				for _, f := range factors {
					c.BackoffFactor = f
					check(c)
				}
				for d := 0; d < 625; d++ {
					c.BackoffFactor = 0
					c.ErrorDelay, c.BounceDelay, c.BackoffResetTime, c.MaxDelay = durs[d%5], durs[d/5%5], durs[d/25%5], durs[d/125]
					check(c)
					if miss != 0 {
						continue
					}
					for _, f := range factors {
						c.BackoffFactor = f
						check(c)
					}
					c.BackoffFactor = 0
				}
			}
		},
	})
}
