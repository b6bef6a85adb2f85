package scen

import (
	"fmt"

	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

// Engines with many manifolds, many inputs, many dependents and long chains:
// nothing may depend on how many there are.

func wideShape(shape string, n int) (ms []eSpec) {
	name := func(p string, i int) string { return fmt.Sprintf("%s%02d", p, i) }
	switch shape {
	case "dependents":
		ms = append(ms, eSpec{name: "a"})
		for i := 0; i < n; i++ {
			ms = append(ms, eSpec{name: name("b", i), inputs: []string{"a"}, hard: i%2 == 0})
		}
	case "inputs", "inputs-hard":
		var ins []string
		for i := 0; i < n; i++ {
			ms = append(ms, eSpec{name: name("a", i)})
			ins = append(ins, name("a", i))
		}
		ms = append(ms, eSpec{name: "b", inputs: ins, hard: shape == "inputs-hard"})
	case "deep":
		for i := 0; i < n; i++ {
			m := eSpec{name: name("a", i), hard: i%3 != 2}
			if i > 0 {
				m.inputs = []string{name("a", i-1)}
			}
			ms = append(ms, m)
		}
	case "apart":
		for i := 0; i < n; i++ {
			ms = append(ms, eSpec{name: name("a", i)})
		}
	case "layers":
		for i := 0; i < n; i++ {
			m := eSpec{name: name("a", i), hard: i%4 != 1}
			if i >= 3 {
				l := i/3*3 - 3
				m.inputs = []string{name("a", l), name("a", l+1), name("a", l+2)}
			}
			ms = append(ms, m)
		}
	}
	return ms
}

func init() {
	for _, shape := range []string{"dependents", "inputs", "inputs-hard", "deep", "apart", "layers"} {
		for _, n := range []int{6, 13} {
			for _, how := range []string{"up", "reverse", "slow-stop"} {
				mc.Register(&mc.Scenario{
					Name: fmt.Sprintf("engine/wide/%s/%d/%s", shape, n, how), Props: dProps, MaxBound: 0, Policies: 3, MaxSteps: 1 << 18,
					Run: func(t *mc.T) {
						ms := wideShape(shape, n)
						who := t.Choose(len(ms))
						k := t.Choose(6)
						t.Calm(true)
						for i := range ms {
							if how == "slow-stop" {
								ms[i].script = []eBeh{{dyn: true, killErr: errOther}, {dyn: true}}
							}
						}
						h := newEH(t, stdCfg())
						for i := range ms {
							m := ms[i]
							if how == "reverse" {
								m = ms[len(ms)-1-i]
							}
							h.Install(m)
							h.Idle()
						}
						for i := 0; i < len(ms); i++ {
							h.Pass(h.span())
						}
						for _, m := range ms {
							if h.cur(m.name) == nil {
								h.fail("D03", "%s does not run though nothing ever failed", m.name)
							}
						}
						h.Par(func() { h.Report(true) })
						switch k {
						case 0, 1, 2, 3:
							h.Exit(ms[who].name, []error{nil, errOther, eBounceW, dependency.ErrUninstall}[k])
						case 4:
							h.Exit(ms[who].name, errEFatal1)
							if o := ms[(who+1)%len(ms)].name; h.cur(o) != nil {
								h.Exit(o, errEFatal2)
							}
						case 5:
							// all of them, one after the other
							for i := range ms {
								if m := ms[(who+i)%len(ms)]; h.cur(m.name) != nil {
									h.Exit(m.name, errOther)
									h.Idle()
								}
							}
						}
						h.Idle()
						h.Par(func() { h.Report(true) })
						for i := 0; i < len(ms) && i < 8; i++ {
							h.Pass(h.span())
						}
						h.Finish()
					},
				})
			}
		}
	}
}
