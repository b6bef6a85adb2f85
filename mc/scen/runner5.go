package scen

import "verifmc/mc"

// Start functions that use their own runner.
func init() {
	acts := []rAct{
		{"start-b", "R05", func(h *rh) { h.Start(1, behav{}) }},
		{"start-a", "R05", func(h *rh) { h.Start(0, behav{}) }},
		{"stop-a", "R06", func(h *rh) { h.Stop(0) }},
		{"stop-b", "R06", func(h *rh) { h.Stop(1) }},
		{"sr-b", "R07", func(h *rh) { h.SR(1) }},
		{"worker-b", "R08", func(h *rh) { h.W(1) }},
		{"report", "R09", func(h *rh) { h.Report() }},
		{"names", "R09", func(h *rh) { h.Names() }},
		{"kill", "R02", func(h *rh) { h.Kill() }},
		{"stop-start-b", "R05", func(h *rh) { h.Stop(1); h.Start(1, behav{dyn: true}) }},
		{"sr-start-b", "R07", func(h *rh) { h.SR(1); h.Start(1, behav{dyn: true}) }},
	}
	for _, a := range acts {
		for _, b := range []string{"none", "running", "restarting"} {
			for _, outer := range []string{"first", "restart", "failing", "kill"} {
				mc.Register(&mc.Scenario{
					Name:  "runner/inside/" + a.name + "/" + b + "/" + outer,
					Props: uniq(a.prop, "R10", "R01", "R02", "R04"), MaxBound: 1, ThoroughBound: 3,
					Run: func(t *mc.T) {
						t.Calm(true)
						h := newRH(t, rcfg{})
						if b != "none" {
							h.Start(1, behav{killErr: eRestart}, behav{})
							h.Idle()
						}
						do := behav{do: func() { a.do(h) }}
						switch outer {
						case "restart":
							h.Start(0, behav{}, do)
							h.Idle()
							h.Exit(0, eRestart)
						case "failing":
							do.err = eRestart
						}
						h.Idle()
						if b == "restarting" {
							h.Exit(1, eRestart)
							h.Idle()
						}
						t.Calm(false)
						switch outer {
						case "first", "failing":
							h.Par(func() { h.Start(0, do, behav{}) })
						case "kill":
							h.Par(func() { h.Start(0, do, behav{}) }, func() { h.Kill() })
						case "restart":
							h.Pass(restartDelay)
						}
						h.setup = true
						h.Finish()
					},
				})
			}
		}
	}
}
