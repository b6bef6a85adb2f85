package scen

import (
	"fmt"

	"verifmc/mc"
)

func init() {
	// errors with a meaning elsewhere are errors like any other
	for _, class := range []string{"fatal", "restart", "remove"} {
		for _, src := range []string{"start", "exit", "stop", "remove", "kill", "restarted"} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("runner/errors/%s/%s", class, src), Props: []string{"R02", "R03", "R04", "R05", "R06", "R07", "R08", "R10"}, MaxBound: 0, Policies: 3,
				Run: func(t *mc.T) {
					x := int8(eSpecial + t.Choose(len(specials)))
					y := int8(eRestart)
					t.Calm(true)
					if src == "remove" && (errRes0(x) == resErrDead || errRes0(x) == resAborted) {
						return // cannot be told apart
					}
					if t.Choose(2) == 1 {
						// another error that the first one may be confused with
						y = int8(eSpecial + t.Choose(len(specials)))
					}
					if x == y {
						return
					}
					t.Calm(true)
					// all other errors get the opposite treatment
					h := newRH(t, rcfg{
						fatal:   func(e int8) bool { return (class == "fatal") == (e == x) },
						restart: func(e int8) bool { return (class == "restart") == (e == x) },
						more:    func(a, b int8) bool { return a == x && b != x },
					})
					h.setup = true
					kill := int8(eNil)
					if src == "stop" || src == "remove" || src == "kill" {
						kill = x
					}
					b := behav{killErr: kill}
					first := b
					if src == "start" {
						first = behav{err: x}
					}
					h.Par(func() { h.Wait() })
					if src == "kill" {
						h.Start(1, behav{killErr: y}, behav{})
					} else {
						h.Start(1, behav{}, behav{})
					}
					h.Idle()
					h.Start(0, first, b, behav{})
					h.Idle()
					switch src {
					case "exit":
						h.Exit(0, x)
					case "stop":
						h.Par(func() { h.Stop(0) })
					case "remove":
						h.Par(func() { h.SR(0) })
					case "kill":
						h.Kill()
					case "restarted":
						h.Exit(0, x)
						h.Idle()
						h.Pass(restartDelay)
						h.Exit(0, x)
					}
					h.Idle()
					h.Par(func() { h.Names() })
					h.Par(func() { h.Report() })
					h.Pass(restartDelay)
					h.Par(func() { h.Report() })
					h.Finish()
				},
			})
		}
	}

	// ids are arbitrary strings
	for i, ids := range [][2]string{{"", "a"}, {"a", "A"}, {"a", "a "}, {"a/b", "a"}, {"*", "a"}, {"a\x00", "a"}, {"workers", "stopped"}} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("runner/ids/%d", i), Props: []string{"R01", "R02", "R04", "R05", "R06", "R07", "R08", "R09", "R10"}, MaxBound: 0, Policies: 1,
			Run: func(t *mc.T) {
				h := newRH(t, rcfg{ids: ids})
				h.setup = true
				depth := 3
				if t.Tier == "thorough" {
					depth = 4
				}
				for k := 0; k < depth; k++ {
					c := t.Choose(13)
					t.Calm(true)
					id := c & 1
					switch c >> 1 {
					case 0:
						h.Par(func() { h.Start(id, behav{}) })
					case 1:
						h.Par(func() { h.Stop(id) })
					case 2:
						h.Par(func() { h.SR(id) })
					case 3:
						h.Par(func() { h.W(id) })
					case 4:
						h.Exit(id, eRestart)
					case 5:
						h.Exit(id, eNil)
					case 6:
						h.Pass(restartDelay)
					}
					h.Idle()
					h.Par(func() { h.Report() })
				}
				h.Par(func() { h.Names() })
				h.Finish()
			},
		})
	}
}

func errRes0(x int8) int32 { return (&rh{}).errRes(errOf[x]) }
