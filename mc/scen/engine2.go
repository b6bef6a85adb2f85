package scen

import (
	"fmt"
	"time"

	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

const (
	dErr    = 60 * time.Second
	dBounce = 10 * time.Second
)

func stdCfg() eCfg {
	return eCfg{errDelay: dErr, bounceDelay: dBounce}
}

type eTopo struct {
	name string
	mans []eSpec
}

func topo(name string) []eSpec {
	switch name {
	case "one":
		return []eSpec{{name: "a"}}
	case "chain":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: true}}
	case "soft":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}}}
	case "chain3":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: true}, {name: "c", inputs: []string{"b"}, hard: true}}
	case "fork":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: true}, {name: "c", inputs: []string{"a"}}}
	case "star":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: true}, {name: "c", inputs: []string{"a"}}, {name: "d", inputs: []string{"a"}, hard: true}, {name: "e", inputs: []string{"a"}}}
	case "join":
		return []eSpec{{name: "a"}, {name: "b"}, {name: "c", inputs: []string{"a", "b"}, hard: true}}
	case "diamond":
		return []eSpec{{name: "a"}, {name: "b", inputs: []string{"a"}, hard: true}, {name: "c", inputs: []string{"a"}, hard: true}, {name: "d", inputs: []string{"b", "c"}, hard: true}}
	}
	panic(name)
}

var dProps = []string{"D01", "D02", "D03", "D04", "D05", "D06", "D07", "D09", "D10"}

// dLow are the properties that the pair family decides with bound 1.
var dLow = []string{"D06", "D07", "D09", "D10"}

type eAct struct {
	name string
	do   func(h *eh)
}

func exitAct(m, k string) eAct {
	err := map[string]error{"nil": nil, "err": errOther, "bounce": dependency.ErrBounce, "bounce-w": eBounceW, "uninst": dependency.ErrUninstall,
		"uninst-w": eUninstW, "missing": dependency.ErrMissing, "missing-w": eMissW, "fatal1": errEFatal1, "fatal2": errEFatal2, "again": errOther2}
	e, ok := err[k]
	if !ok {
		panic(k)
	}
	return eAct{m + "-" + k, func(h *eh) { h.Exit(m, e) }}
}

// up installs the manifolds and waits until all of them run.
func (h *eh) up(ms []eSpec) {
	for _, m := range ms {
		h.Install(m)
		h.Idle()
	}
	h.Pass(h.span())
	h.Pass(h.span())
}

func init() {
	type init_ struct {
		name string
		topo string
		mod  func(ms []eSpec)
		then func(h *eh)
		acts []eAct
	}
	kill := eAct{"kill", func(h *eh) { h.Kill() }}
	rep := eAct{"report", func(h *eh) { h.Report(false) }}
	wait := eAct{"wait", func(h *eh) { h.Wait() }}
	inst := func(name string, ins ...string) eAct {
		return eAct{"install-" + name, func(h *eh) { h.Install(eSpec{name: name, inputs: ins}) }}
	}
	rel := func(m string) eAct { return eAct{"release-" + m, func(h *eh) { h.Release(m) }} }
	loose := func(m string) eAct { return eAct{"loose-" + m, func(h *eh) { h.Loose(m) }} }
	tick := func(d time.Duration, a eAct) eAct {
		return eAct{fmt.Sprintf("%v-%s", d, a.name), func(h *eh) { time.Sleep(d); a.do(h) }}
	}
	_ = tick
	exits := func(m string, ks ...string) (out []eAct) {
		for _, k := range ks {
			out = append(out, exitAct(m, k))
		}
		return
	}
	cat := func(xs ...[]eAct) (out []eAct) {
		for _, x := range xs {
			out = append(out, x...)
		}
		return
	}
	dyn := func(ms []eSpec) {
		for i := range ms {
			ms[i].script = []eBeh{{dyn: true}}
		}
	}
	inits := []init_{
		{"one", "one", dyn, nil, cat(exits("a", "nil", "err", "bounce-w", "uninst", "missing", "fatal1"), []eAct{kill, rep, wait, inst("n", "a"), inst("a")})},
		{"chain", "chain", nil, nil, cat(exits("a", "nil", "err", "bounce", "uninst-w", "missing-w", "fatal1"), exits("b", "nil", "err", "bounce-w", "uninst", "missing", "fatal2"), []eAct{kill, rep, wait, inst("n", "a", "b")})},
		{"chain-dyn", "chain", dyn, nil, cat(exits("a", "nil", "err", "uninst"), exits("b", "nil", "err", "bounce", "uninst"), []eAct{kill, rep, inst("n", "b")})},
		{"soft-slow-b", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{block: true, killErr: errOther}} }, nil,
			cat(exits("a", "nil", "err", "uninst", "fatal1"), []eAct{kill, rep, rel("b"), inst("n", "b")})},
		{"soft-honour-b", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{block: true, honour: true}, {}} }, nil,
			cat(exits("a", "nil", "err", "uninst", "fatal1"), []eAct{kill, rep, rel("b")})},
		{"again-slow-b", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{}, {block: true}, {dyn: true}} },
			func(h *eh) { h.Exit("b", errOther); h.Idle(); h.Pass(dErr + dErr/2) },
			cat(exits("a", "nil", "err", "bounce", "uninst", "fatal1"), []eAct{kill, rep, rel("b"), inst("n", "b")})},
		{"again-honour-b", "chain", func(ms []eSpec) { ms[1].script = []eBeh{{}, {block: true, honour: true, err: errOther}, {dyn: true}} },
			func(h *eh) { h.Exit("a", dependency.ErrBounce); h.Idle(); h.Pass(2*dBounce + dBounce/2) },
			cat(exits("a", "err", "bounce"), []eAct{kill, rep, rel("b")})},
		{"slow-err-a", "soft", func(ms []eSpec) { ms[0].script = []eBeh{{}, {block: true, err: errOther}, {}} },
			func(h *eh) { h.Exit("a", dependency.ErrBounce); h.Idle(); h.Pass(2*dBounce + dBounce/2) },
			cat(exits("b", "nil", "err", "bounce"), []eAct{kill, rep, rel("a"), inst("n", "a", "b")})},
		{"stubborn-b", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{stubborn: true, killErr: errOther}, {dyn: true}} },
			func(h *eh) { h.Exit("a", nil); h.Idle() }, []eAct{kill, rep, loose("b"), inst("n", "a", "b"), inst("a")}},
		{"stubborn-b-fatal", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{stubborn: true, killErr: errEFatal1}} },
			func(h *eh) { h.Exit("a", errOther); h.Idle() }, []eAct{kill, rep, wait, loose("b")}},
		{"stubborn-b-uninst", "soft", func(ms []eSpec) { ms[1].script = []eBeh{{stubborn: true, killErr: dependency.ErrUninstall}, {}} },
			func(h *eh) { h.Exit("a", errOther); h.Idle() }, []eAct{kill, rep, loose("b")}},
		{"chain3", "chain3", nil, nil, cat(exits("a", "err", "uninst"), exits("b", "nil", "err", "bounce", "uninst"), exits("c", "err", "missing"), []eAct{kill, rep})},
		{"fork", "fork", nil, nil, cat(exits("a", "err", "bounce", "nil"), exits("b", "nil", "err", "fatal1"), exits("c", "err", "uninst", "fatal2"), []eAct{kill, inst("n", "b", "c")})},
		{"star", "star", nil, nil, cat(exits("a", "err", "nil"), exits("c", "uninst", "err"), exits("e", "nil", "uninst"), []eAct{kill})},
		{"join", "join", nil, nil, cat(exits("a", "err", "bounce", "uninst"), exits("b", "err", "nil"), exits("c", "err", "bounce", "nil", "missing"), []eAct{kill, rep})},
		{"join-slow-c", "join", func(ms []eSpec) { ms[2].script = []eBeh{{block: true, dyn: true}, {}} }, nil,
			cat(exits("a", "err", "bounce"), exits("b", "err", "bounce"), []eAct{kill, rel("c")})},
		{"a-delayed", "soft", nil, func(h *eh) { h.Exit("a", errOther); h.Pass(dBounce * 2) },
			cat(exits("b", "nil", "err"), []eAct{kill, rep, inst("n", "a"), tick(dErr-2*dBounce, exitAct("b", "err")), tick(dErr-2*dBounce, kill), tick(dErr-2*dBounce, exitAct("b", "nil"))})},
		{"b-delayed", "soft", nil, func(h *eh) { h.Exit("b", errOther); h.Pass(dBounce) },
			cat(exits("a", "nil", "err"), []eAct{kill, rep, tick(dErr-dBounce, exitAct("a", "err")), tick(dErr-dBounce, kill), tick(dErr-dBounce, exitAct("a", "bounce")), inst("b")})},
	}
	for _, in := range inits {
		for i, a := range in.acts {
			for j := i; j < len(in.acts); j++ {
				b := in.acts[j]
				var race []string
				if a.name == "report" || b.name == "report" {
					race = []string{"D10"}
				}
				mc.Register(&mc.Scenario{
					Name: fmt.Sprintf("engine/pair/%s/%s+%s", in.name, a.name, b.name), Props: dProps, RaceProps: race,
					MaxBound: map[bool]int{false: 2, true: 1}[in.name == "star" || in.name == "fork"], LowProps: dLow, ThoroughBound: 2, Full: 1, Rand: randMid,
					Run: func(t *mc.T) {
						h := newEH(t, stdCfg())
						t.Calm(true)
						ms := topo(in.topo)
						if in.mod != nil {
							in.mod(ms)
						}
						h.up(ms)
						if in.then != nil {
							in.then(h)
						}
						t.Calm(false)
						h.Par(func() { a.do(h) }, func() { b.do(h) })
						h.Finish()
					},
				})
			}
		}
	}
}

// randMid makes the engine's fuzz factor 1.
const (
	randMid = 1 << 62
	randMin = 1
	randMax = 1<<63 - 1025
)
