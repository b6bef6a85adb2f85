package scen

import (
	"fmt"
	"time"

	gc "gopkg.in/check.v1"
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
	dt "github.com/juju/worker/v4/dependency/testing"
	"github.com/juju/worker/v4/workertest"

	"verifmc/mc"
)

// deadInst also has a Dead method.
type deadInst struct {
	*Inst
	ch chan struct{}
}

func (d deadInst) Dead() <-chan struct{} {
	if d.ch == nil {
		return nil
	}
	return d.ch
}

// sliceInst is a worker that is no pointer and cannot be compared.
type sliceInst struct {
	*Inst
	x []int
}

func init() {
	mkInst := func(t *mc.T, k string, err error) *Inst {
		switch k {
		case "sync":
			return NewInst(t, "w", 0, false, err)
		case "dyn":
			return NewInst(t, "w", 0, true, err)
		case "stubborn":
			return NewStubborn(t, "w", 0, err)
		case "gone":
			w := NewInst(t, "w", 0, false, nil)
			w.Exit(err)
			return w
		}
		panic(k)
	}
	for _, k := range []string{"sync", "dyn", "stubborn", "gone"} {
		for _, exit := range []string{"none", "nil", "err"} {
			for _, killErr := range []error{nil, errKilled} {
				mc.Register(&mc.Scenario{
					Name: fmt.Sprintf("worker/stop/%s/%s/%v", k, exit, killErr), Props: []string{"W01"}, MaxBound: 3, Full: 2,
					Run: func(t *mc.T) {
						w := mkInst(t, k, killErr)
						n := 0
						for i := 0; i < 2; i++ {
							go func() {
								t.Point()
								var ww worker.Worker = w
								if i == 1 {
									ww = sliceInst{w, nil}
								}
								err := worker.Stop(ww)
								t.Touch()
								if !w.Killed && !w.Stopped {
									t.Failf("W01", "Stop returned without killing the worker")
								}
								if !w.Stopped {
									t.Failf("W01", "Stop returned before the worker stopped")
								} else if err != w.Err {
									t.Failf("W01", "Stop returned %v instead of %v", err, w.Err)
								}
								n++
							}()
						}
						if exit != "none" {
							go func() {
								t.Point()
								if exit == "nil" {
									w.Exit(nil)
								} else {
									w.Exit(errRestart)
								}
							}()
						}
						t.Quiesce()
						t.Touch()
						if !w.Killed {
							t.Failf("W01", "Stop did not kill the worker")
						}
						if w.Stopped != (n == 2) {
							t.Failf("W01", "%d of 2 calls of Stop returned, but worker stopped: %v", n, w.Stopped)
						}
						t.After(long)
						t.Touch()
						if w.Stopped != (n == 2) {
							t.Failf("W01", "%d of 2 calls of Stop returned, but worker stopped: %v", n, w.Stopped)
						}
						if k == "stubborn" {
							w.Release()
						}
						t.Quiesce()
						t.Touch()
						if n != 2 {
							t.Failf("W01", "Stop did not return")
						}
					},
				})
			}
		}
	}
	for _, k := range []string{"sync", "dyn", "gone", "stubborn"} {
		for _, d := range []string{"none", "value", "deader", "deader-nil"} {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("worker/dead/%s/%s", k, d), Props: []string{"W01"}, MaxBound: 3, Full: 2,
				Run: func(t *mc.T) {
					w := mkInst(t, k, errKilled)
					var ww worker.Worker = w
					var own chan struct{}
					switch d {
					case "deader":
						own = make(chan struct{})
						ww = deadInst{w, own}
					case "value":
						ww = sliceInst{w, nil}
					case "deader-nil":
						ww = deadInst{w, nil}
					}
					var chs []<-chan struct{}
					woken := 0
					get := func() {
						t.Point()
						ch := worker.Dead(ww)
						t.Touch()
						if own != nil && ch != (<-chan struct{})(own) {
							t.Failf("W01", "Dead does not return the worker's own channel")
						}
						if ch == nil {
							t.Failf("W01", "Dead returned nil")
							return
						}
						chs = append(chs, ch)
						go func() {
							<-ch
							t.Touch()
							if own == nil && !w.Stopped || own != nil && !closed(own) {
								t.Failf("W01", "the channel was closed before the worker stopped")
							}
							woken++
						}()
					}
					go get()
					go get()
					t.Quiesce()
					t.After(long)
					t.Touch()
					if w.Killed {
						t.Failf("W01", "Dead killed the worker")
					}
					if k != "gone" && woken > 0 {
						t.Failf("W01", "the channel was closed before the worker stopped")
					}
					go func() {
						t.Point()
						if k == "stubborn" {
							w.Release()
						}
						if own != nil {
							close(own)
						}
						w.Kill()
					}()
					get()
					t.Quiesce()
					t.Touch()
					if woken != 3 {
						t.Failf("W01", "%d of 3 channels were closed when the worker stopped", woken)
					}
				},
			})
		}
	}

	// the workers of workertest
	for _, e := range []error{nil, errKilled} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("workertest/workers/%v", e), Props: []string{"W02"}, MaxBound: 3, Full: 1,
			Run: func(t *mc.T) {
				kind := t.Choose(4)
				kills := t.Choose(3)
				var w worker.Worker
				var f *workertest.ForeverWorker
				want := e
				switch kind {
				case 0:
					w = workertest.NewErrorWorker(e)
				case 1:
					w = workertest.NewDeadWorker(e)
				case 2:
					f = workertest.NewForeverWorker(e)
					w = f
				case 3:
					fw := workertest.NewFakeWatcher(2, 1)
					w = fw
					want = nil
				}
				t.Touch()
				killed, returned := 0, 0
				for i := 0; i < 2; i++ {
					go func() {
						t.Point()
						err := w.Wait()
						t.Touch()
						returned++
						if kind != 1 && killed == 0 {
							t.Failf("W02", "Wait returned %v though the worker was not killed", err)
						}
						if err != want {
							t.Failf("W02", "Wait returned %v instead of %v", err, want)
						}
					}()
				}
				for i := 0; i < kills; i++ {
					go func() {
						t.Point()
						if kind != 2 {
							killed++
						}
						w.Kill()
					}()
				}
				t.Quiesce()
				t.Touch()
				if want := kind == 1 || killed > 0; want != (returned == 2) || !want && returned != 0 {
					t.Failf("W02", "%d calls of Wait returned (killed: %d)", returned, killed)
				}
				killed++
				if f != nil {
					f.ReallyKill()
				}
				w.Kill()
				t.Quiesce()
				t.Touch()
				if returned != 2 {
					t.Failf("W02", "%d of 2 calls of Wait returned when the worker was killed", returned)
				}
				if n := t.Live(); n != 1 {
					t.Failf("W02", "%d goroutines were left behind", n-1)
				}
			},
		})
	}
	mc.Register(&mc.Scenario{
		Name: "workertest/watcher", Props: []string{"W02"}, Policies: 1,
		Run: func(t *mc.T) {
			t.Calm(true)
			for l := 0; l < 4; l++ {
				for pre := 0; pre < 5; pre++ {
					func() {
						defer func() {
							if p := recover(); (p != nil) != (pre > l) {
								t.Failf("W02", "NewFakeWatcher(%d, %d): panic %v", l, pre, p)
							}
						}()
						w := workertest.NewFakeWatcher(l, pre)
						if len(w.Changes()) != pre || cap(w.Changes()) != l {
							t.Failf("W02", "NewFakeWatcher(%d, %d) has %d of %d changes", l, pre, len(w.Changes()), cap(w.Changes()))
						}
						if l > pre {
							w.Ping()
							if len(w.Changes()) != pre+1 {
								t.Failf("W02", "Ping sent no change")
							}
						}
						n := len(w.Changes())
						w.Close()
						for i := 0; i < n; i++ {
							if _, ok := <-w.Changes(); !ok {
								t.Failf("W02", "a change was lost")
							}
						}
						if _, ok := <-w.Changes(); ok {
							t.Failf("W02", "Close does not close")
						}
						if err := worker.Stop(w); err != nil {
							t.Failf("W02", "a watcher stopped with %v", err)
						}
					}()
				}
			}
		},
	})

	// a forever worker really is one
	for _, e := range []error{nil, errKilled} {
		mc.Register(&mc.Scenario{
			Name: fmt.Sprintf("workertest/forever/%v", e), Props: []string{"W02"}, MaxBound: 2,
			Run: func(t *mc.T) {
				w := workertest.NewForeverWorker(e)
				returned := 0
				really := false
				for i := 0; i < 2; i++ {
					go func() {
						t.Point()
						err := w.Wait()
						t.Touch()
						returned++
						if !really {
							t.Failf("W02", "a forever worker stopped with %v", err)
						}
						if err != e {
							t.Failf("W02", "Wait returned %v instead of %v", err, e)
						}
					}()
				}
				for i := 0; i < 40; i++ {
					w.Kill()
					if i < 3 || i == 20 {
						t.After(long)
					}
				}
				t.Quiesce()
				t.Touch()
				if returned > 0 {
					t.Failf("W02", "a forever worker stopped after being killed often")
				}
				really = true
				go func() {
					t.Point()
					w.Kill()
				}()
				go func() {
					t.Point()
					w.ReallyKill()
				}()
				t.Quiesce()
				t.Touch()
				if returned != 2 {
					t.Failf("W02", "%d of 2 calls of Wait returned when the worker was killed", returned)
				}
			},
		})
	}
	// no Ping of a fake watcher is lost
	for l := 0; l < 3; l++ {
		for pre := 0; pre <= l; pre++ {
			mc.Register(&mc.Scenario{
				Name: fmt.Sprintf("workertest/ping/%d/%d", l, pre), Props: []string{"W02"}, MaxBound: 3, Full: 1,
				Run: func(t *mc.T) {
					w := workertest.NewFakeWatcher(l, pre)
					const pings = 4
					sent, read := 0, 0
					isClosed := false
					reader := func() {
						t.Point()
						for {
							_, ok := <-w.Changes()
							t.Touch()
							if !ok {
								if !isClosed {
									t.Failf("W02", "the changes were closed by themselves")
								}
								return
							}
							read++
						}
					}
					early := t.Choose(2) == 1
					stop := t.Choose(2) == 1
					if early {
						go reader()
					}
					for i := 0; i < 2; i++ {
						go func() {
							t.Point()
							for k := 0; k < pings/2; k++ {
								w.Ping()
								t.Touch()
								sent++
							}
						}()
					}
					if stop {
						go func() {
							t.Point()
							if err := worker.Stop(w); err != nil {
								t.Failf("W02", "a watcher stopped with %v", err)
							}
						}()
					}
					t.Quiesce()
					t.After(long)
					t.Touch()
					if !early {
						want := min(l-pre, pings)
						if sent != want || len(w.Changes()) != min(l, pre+pings) {
							t.Failf("W02", "%d calls of Ping returned and %d changes are waiting, with room for %d and %d preloaded ones", sent, len(w.Changes()), l, pre)
						}
						go reader()
						t.Quiesce()
						t.Touch()
					}
					if sent != pings || read != pre+pings {
						t.Failf("W02", "%d of %d calls of Ping returned, %d of %d changes were received", sent, pings, read, pre+pings)
					}
					isClosed = true
					w.Close()
					w.Kill()
					t.Quiesce()
					if n := t.Live(); n != 1 {
						t.Failf("W02", "%d goroutines were left behind", n-1)
					}
				},
			})
		}
	}

	// the checks of workertest
	for _, f := range []string{"CheckAlive", "CheckKilled", "CheckKill", "CleanKill", "DirtyKill", "CheckNilOrKill"} {
		mc.Register(&mc.Scenario{
			Name: "workertest/" + f, Props: []string{"W03"}, MaxBound: 2, Early: false, Full: 1,
			Run: func(t *mc.T) {
				c := gc.VerifC()
				stops := []time.Duration{-1, 0, 30 * time.Millisecond, 70 * time.Millisecond, 9 * time.Second, 11 * time.Second}
				stop := stops[t.Choose(len(stops))] // by itself
				lag := stops[t.Choose(len(stops))]  // after being killed
				var err error
				if t.Choose(2) == 1 {
					err = errRestart
				}
				w := NewInst(t, "w", 0, false, nil)
				lw := &lagInst{Inst: w, t: t, lag: lag, err: err}
				if stop >= 0 {
					go func() {
						if stop > 0 {
							time.Sleep(stop)
						}
						w.Exit(err)
					}()
				}
				done := false
				go func() {
					t.Point()
					killFn := true
					timeout := 10 * time.Second
					var got error
					var has bool
					switch f {
					case "CheckAlive":
						workertest.CheckAlive(c, w)
						killFn = false
						timeout = 50 * time.Millisecond
					case "CheckKilled":
						got, has = workertest.CheckKilled(c, w), true
						killFn = false
					case "CheckKill":
						got, has = workertest.CheckKill(c, lw), true
					case "CleanKill":
						workertest.CleanKill(c, lw)
					case "DirtyKill":
						workertest.DirtyKill(c, lw)
					case "CheckNilOrKill":
						workertest.CheckNilOrKill(c, nil)
						if c.Failed() {
							t.Failf("W03", "CheckNilOrKill(nil) fails the test")
						}
						workertest.CheckNilOrKill(c, lw)
					}
					t.Touch()
					done = true
					now := t.Now()
					end := stop
					if killFn && lag >= 0 && (end < 0 || lag < end) {
						end = lag
					}
					stopped := end >= 0 && end < timeout
					if killFn != lw.killed {
						t.Failf("W03", "%s killed the worker: %v", f, lw.killed)
					}
					fail := false
					switch f {
					case "CheckAlive":
						fail = stopped
					case "CleanKill":
						fail = !stopped || err != nil
					case "CheckNilOrKill":
						fail = true
					default:
						fail = !stopped
					}
					if c.Failed() != fail {
						t.Failf("W03", "%s of a worker that stops at %v with error %v: test failed: %v", f, end, err, c.Failed())
					}
					if stopped && now != end || !stopped && now != timeout {
						t.Failf("W03", "%s of a worker that stops at %v returned at %v", f, end, now)
					}
					if has && stopped && got != err || has && !stopped && got == nil {
						t.Failf("W03", "%s returned %v, the worker's error was %v", f, got, err)
					}
				}()
				t.After(12 * time.Second)
				t.Touch()
				if !done {
					t.Failf("W03", "%s does not return", f)
				}
			},
		})
	}

	// the same with all sorts of errors
	mc.Register(&mc.Scenario{
		Name: "workertest/errors", Props: []string{"W02", "W03"}, Policies: 3, MaxSteps: 1 << 20,
		Run: func(t *mc.T) {
			e := specials[t.Choose(len(specials))]
			t.Calm(true)
			check := func(f string, clean bool, do func(c *gc.C, w worker.Worker) (error, bool)) {
				for _, gone := range []bool{false, true} {
					c := gc.VerifC()
					w := NewInst(t, "w", 0, false, e)
					if gone {
						w.Exit(e)
					}
					err, has := do(c, w)
					if has && !sameErr(err, e) {
						t.Failf("W03", "%s returned %v, the worker's error was %v", f, err, e)
					}
					if c.Failed() == clean {
						t.Failf("W03", "%s of a worker that stops with %T(%v): test failed: %v", f, e, e, c.Failed())
					}
				}
			}
			check("CheckKill", true, func(c *gc.C, w worker.Worker) (error, bool) { return workertest.CheckKill(c, w), true })
			check("CheckKilled", true, func(c *gc.C, w worker.Worker) (error, bool) { w.Kill(); return workertest.CheckKilled(c, w), true })
			check("DirtyKill", true, func(c *gc.C, w worker.Worker) (error, bool) { workertest.DirtyKill(c, w); return nil, false })
			check("CleanKill", false, func(c *gc.C, w worker.Worker) (error, bool) { workertest.CleanKill(c, w); return nil, false })
			check("CheckNilOrKill", false, func(c *gc.C, w worker.Worker) (error, bool) { workertest.CheckNilOrKill(c, w); return nil, false })
			check("CheckAlive", false, func(c *gc.C, w worker.Worker) (error, bool) { w.Kill(); workertest.CheckAlive(c, w); return nil, false })
			if err := worker.Stop(workertest.NewDeadWorker(e)); !sameErr(err, e) {
				t.Failf("W02", "a dead worker failed with %v instead of %v", err, e)
			}
			if e == tomb.ErrStillAlive || e == tomb.ErrDying {
				return // these workers are made of tombs
			}
			if err := worker.Stop(workertest.NewErrorWorker(e)); !sameErr(err, e) {
				t.Failf("W02", "an error worker failed with %v instead of %v", err, e)
			}
			w := workertest.NewForeverWorker(e)
			w.ReallyKill()
			if err := worker.Stop(w); !sameErr(err, e) {
				t.Failf("W02", "a forever worker failed with %v instead of %v", err, e)
			}
		},
	})

	// stub getters
	mc.Register(&mc.Scenario{
		Name: "dependency-testing", Props: []string{"W04"}, Policies: 1,
		Run: func(t *mc.T) {
			t.Calm(true)
			type strT string
			vals := []interface{}{7, "seven", strT("str"), errOther, []interface{}{"x", 3}, []interface{}{3.5}, []interface{}{}, []interface{}{"x", strT("y")}, workertest.NewDeadWorker(nil)}
			for _, v := range vals {
				for kind := 0; kind < 3; kind++ {
					raw := map[string]interface{}{"name": v, "other": "o"}
					var g interface {
						Get(string, interface{}) error
					}
					switch kind {
					case 0:
						g = dt.StubGetter(raw)
					case 1:
						g = dt.NewStubResources(raw).Getter()
					case 2:
						rs := dt.StubResources{"other": dt.NewStubResource("o")}
						switch v := v.(type) {
						case error:
							rs["name"] = dt.StubResource{Error: v}
						case []interface{}:
							rs["name"] = dt.NewStubResource(v...)
						default:
							rs["name"] = dt.NewStubResource(v)
						}
						g = rs.Getter()
					}
					outs, isList := v.([]interface{})
					if !isList {
						outs = []interface{}{v}
					}
					werr, isErr := v.(error)
					expect := func(what string, err error, ok bool) {
						switch {
						case isErr && err != werr:
							t.Failf("W04", "Get of %v %s returned %v", v, what, err)
						case !isErr && ok != (err == nil):
							t.Failf("W04", "Get of %v %s returned %v", v, what, err)
						}
					}
					expect("without output", g.Get("name", nil), true)
					if err := g.Get("absent", nil); err == nil {
						t.Failf("W04", "Get of an unknown name succeeded")
					}
					var s string
					var st strT
					var i interface{}
					var w worker.Worker
					var wantS, wantSt, wantI, wantW interface{}
					for _, o := range outs {
						switch x := o.(type) {
						case string:
							if wantS == nil {
								wantS = x
							}
							if wantSt == nil {
								wantSt = strT(x)
							}
						case strT:
							if wantS == nil {
								wantS = string(x)
							}
							if wantSt == nil {
								wantSt = x
							}
						case int:
							if wantS == nil {
								wantS = string(rune(x))
							}
							if wantSt == nil {
								wantSt = strT(string(rune(x)))
							}
						case worker.Worker:
							if wantW == nil {
								wantW = x
							}
						}
						if wantI == nil {
							wantI = o
						}
					}
					err := g.Get("name", &s)
					expect("as a string", err, wantS != nil)
					if err == nil && s != wantS || err != nil && s != "" {
						t.Failf("W04", "Get of %v as a string is %q", v, s)
					}
					err = g.Get("name", &st)
					expect("as a named string", err, wantSt != nil)
					if err == nil && st != wantSt || err != nil && st != "" {
						t.Failf("W04", "Get of %v as a named string is %q", v, st)
					}
					err = g.Get("name", &i)
					expect("as anything", err, wantI != nil)
					if err == nil && i != wantI || err != nil && i != nil {
						t.Failf("W04", "Get of %v as anything is %v", v, i)
					}
					err = g.Get("name", &w)
					expect("as a worker", err, wantW != nil)
					if err == nil && w != wantW || err != nil && w != nil {
						t.Failf("W04", "Get of %v as a worker is %v", v, w)
					}
					expect("into no pointer", g.Get("name", s), false)
					if err := g.Get("other", &s); err != nil || s != "o" {
						t.Failf("W04", "Get of another resource returned %v", err)
					}
				}
			}
			for _, e := range specials {
				for n := 0; n < 3; n++ {
					outs := []interface{}{"x", e, 3}[:n]
					rs := dt.StubResources{"r": {Outputs: outs, Error: e}}
					s := "old"
					if err := rs.Getter().Get("r", &s); !sameErr(err, e) || s != "old" {
						t.Failf("W04", "Get of a resource with the error %v returned %v, %q", e, err, s)
					}
					if err := rs.Getter().Get("r", nil); !sameErr(err, e) {
						t.Failf("W04", "Get of a resource with the error %v returned %v", e, err)
					}
					raw := dt.StubGetter(map[string]interface{}{"r": e})
					if err := raw.Get("r", &s); !sameErr(err, e) || s != "old" {
						t.Failf("W04", "Get of the raw resource %v returned %v, %q", e, err, s)
					}
				}
			}
		},
	})
}

// lagInst stops some time after it is killed.
type lagInst struct {
	*Inst
	t      *mc.T
	lag    time.Duration
	err    error
	killed bool
}

func (l *lagInst) Kill() {
	l.t.Touch()
	if l.killed {
		return
	}
	l.killed = true
	if l.lag < 0 {
		return
	}
	go func() {
		if l.lag > 0 {
			time.Sleep(l.lag)
		}
		l.Inst.Exit(l.err)
	}()
}
