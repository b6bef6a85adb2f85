// Command mc model checks juju/worker.
//
//	mc check PROPERTY [-tier quick|thorough]   decide a property
//	mc replay FILE                             replay a recorded violation
//	mc list                                    list properties and scenarios
//	mc bench SCENARIO [-bound N]               explore one scenario
//	mc worker SIZE                             (internal)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifmc/mc"
	_ "verifmc/scen"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|replay|list|bench ...")
		os.Exit(2)
	}
	runtime.VerifRepo = "github.com/juju/worker"
	if m := os.Args[1]; m == "check" || m == "bench" {
		debug.SetGCPercent(100)
	}
	switch os.Args[1] {
	case "worker":
		n, _ := strconv.Atoi(os.Args[2])
		var f *os.File
		if n > 0 {
			f = os.NewFile(3, "visited")
		}
		mc.WorkerMain(os.Stdin, os.Stdout, f, n)
	case "check":
		check(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		list()
	case "bench":
		bench(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
}

func list() {
	byProp := map[string][]string{}
	for _, n := range mc.Names() {
		for _, p := range mc.Lookup(n).Props {
			byProp[p] = append(byProp[p], n)
		}
	}
	var ps []string
	for p := range byProp {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Printf("%s: %d scenarios: %s\n", p, len(byProp[p]), strings.Join(byProp[p], " "))
	}
}

func policies(s *mc.Scenario) []int {
	var out []int
	for p := 0; p < 3; p++ {
		if s.Policies == 0 || s.Policies&(1<<p) != 0 {
			out = append(out, p)
		}
	}
	return out
}

func self() string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return exe
}

func bench(args []string) {
	fs := flag.NewFlagSet("bench", flag.ExitOnError)
	bound := fs.Int("bound", -1, "")
	limit := fs.Duration("limit", 10*time.Minute, "")
	novis := fs.Bool("novis", false, "")
	tags := fs.String("tags", "", "")
	procs := fs.Int("procs", 8, "")
	full := fs.Bool("full", false, "")
	nofull := fs.Bool("nofull", false, "")
	min := fs.Int("min", 0, "")
	pol := fs.Int("policy", -1, "")
	keep := fs.Bool("keep", false, "go on after a violation")
	short := fs.Bool("short", false, "")
	pat := args[0]
	fs.Parse(args[1:])
	var tm map[string]bool
	if *tags != "" {
		tm = map[string]bool{}
		for _, t := range strings.Split(*tags, ",") {
			tm[t] = true
		}
	}
	var jobs []mc.Job
	for _, n := range mc.Names() {
		if ok, _ := filepath.Match(pat, n); ok || strings.HasSuffix(pat, "...") && strings.HasPrefix(n, strings.TrimSuffix(pat, "...")) {
			s := mc.Lookup(n)
			b := *bound
			if b < 0 {
				b = s.MaxBound
			}
			jobs = append(jobs, mc.Job{Scn: n, Policies: policies(s), MaxBound: b, Full: *full || s.Full == 2 && !*nofull})
			if *pol >= 0 {
				jobs[len(jobs)-1].Policies = []int{*pol}
			}
		}
	}
	var groups [][]mc.Job
	if *keep {
		for _, j := range jobs {
			groups = append(groups, []mc.Job{j})
		}
	} else {
		groups = [][]mc.Job{jobs}
	}
	for _, g := range groups {
		t0 := time.Now()
		reports, v, err := mc.Run(&mc.RunConfig{Exe: self(), Procs: *procs, Jobs: g, Tags: tm, Tier: "quick",
			Deadline: t0.Add(*limit), HangLimit: 30 * time.Second, NoVis: *novis, MinBound: *min, Verbose: !*keep})
		if err != nil {
			fmt.Println("ERROR", err)
			if !*keep {
				os.Exit(2)
			}
		}
		for _, r := range reports {
			if r.Execs > 0 && !*short {
				fmt.Printf("%-40s p%d bound %d/%d execs %d steps %d states %d pruned %d depth %d div %d unst %d trunc %v\n", r.Scn, r.Policy, r.Bound, r.Target, r.Execs, r.Steps, r.States, r.Pruned, r.Depth, r.Diverged, r.Unstable, r.Truncated)
			}
		}
		fmt.Printf("%.1fs\n", time.Since(t0).Seconds())
		if v != nil {
			if !*short {
				for _, l := range v.Trace {
					fmt.Println(l)
				}
			}
			fmt.Printf("FAIL %s policy %d [%s] %s\n", v.Scn, v.Policy, v.Tag, v.Msg)
			mc.WriteReplay("/tmp", "bench", v)
		}
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v mc.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	f, trace := mc.Replay(v.Scn, v.Policy, v.Path, v.Budget, map[string]bool{v.Tag: true})
	for _, l := range trace {
		fmt.Println(l)
	}
	if f == nil {
		fmt.Println("the recorded execution no longer fails")
		os.Exit(0)
	}
	fmt.Printf("[%s] %s\n", f.Tag, f.Msg)
	os.Exit(1)
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func check(args []string) {
	prop := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	root := fs.String("root", "/verif", "")
	limit := fs.Duration("limit", 0, "")
	fs.Parse(args[1:])
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var jobs, raceJobs []mc.Job
	for _, n := range mc.Names() {
		s := mc.Lookup(n)
		hit := false
		for _, p := range s.Props {
			hit = hit || p == prop
		}
		if !hit {
			continue
		}
		b := s.MaxBound
		for _, p := range s.LowProps {
			if p == prop && b > 1 {
				b = 1
			}
		}
		if *tier == "thorough" && s.ThoroughBound > b {
			b = s.ThoroughBound
		}
		if !s.RaceOnly {
			jobs = append(jobs, mc.Job{Scn: n, Policies: policies(s), MaxBound: b, Full: s.Full == 2 || s.Full == 1 && *tier == "thorough"})
		}
		raceHit := false
		for _, p := range s.RaceProps {
			raceHit = raceHit || p == prop
		}
		if raceHit {
			rb := 1
			if *tier == "thorough" {
				rb = 2
			}
			raceJobs = append(raceJobs, mc.Job{Scn: n, Policies: policies(s), MaxBound: rb})
		}
	}
	if len(jobs)+len(raceJobs) == 0 {
		fmt.Fprintf(os.Stderr, "no scenario for property %s\n", prop)
		os.Exit(2)
	}
	lim := *limit
	if lim == 0 {
		lim = 240 * time.Second
		if *tier == "thorough" {
			lim = 40 * time.Minute
		}
	}
	bits := 25
	if *tier == "thorough" {
		bits = 28
	}
	procs := runtime.NumCPU()
	if procs > 16 {
		procs = 16
	}
	reports, v, err := mc.Run(&mc.RunConfig{Exe: self(), Procs: procs, Jobs: jobs, Tags: map[string]bool{prop: true}, Tier: *tier,
		Deadline: t0.Add(lim), HangLimit: 60 * time.Second, VisBits: bits, Verbose: true, Salt: uint64(0)})
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(2)
	}
	var raceReports []*mc.JobReport
	if v == nil && len(raceJobs) > 0 {
		exe := filepath.Join(filepath.Dir(self()), "mc-race")
		rlim := lim / 2
		raceReports, v, err = mc.Run(&mc.RunConfig{Exe: exe, Procs: procs, Jobs: raceJobs, Tags: map[string]bool{prop: true}, Tier: *tier,
			Deadline: time.Now().Add(rlim), HangLimit: 60 * time.Second, VisBits: 22, NoVis: true, Verbose: true,
			Env: []string{"GORACE=halt_on_error=0 atexit_sleep_ms=0"}})
		if err != nil {
			fmt.Fprintln(os.Stderr, "mc: race pass:", err)
			os.Exit(2)
		}
	}
	ev := &evidence{Property: prop, Tier: *tier, Seed: seed, Level: "model_checking", Coverage: map[string]any{}}
	var states, steps, execs, pruned, diverged, unstable int64
	exhaustive := true
	var samples []any
	for _, r := range reports {
		states += r.States
		steps += r.Steps
		execs += r.Execs
		pruned += r.Pruned
		diverged += r.Diverged
		unstable += r.Unstable
		if r.Bound < r.Target {
			exhaustive = false
		}
		samples = append(samples, r)
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	scns := map[string]bool{}
	for _, j := range jobs {
		scns[j.Scn] = true
	}
	if v == nil && len(jobs) > 0 {
		s := mc.Lookup(jobs[0].Scn)
		debug.SetGCPercent(-1)
		runtime.GOMAXPROCS(1)
		_, tr := mc.Replay(s.Name, policies(s)[0], mc.Prefix{}, 0, map[string]bool{prop: true})
		if len(tr) > 80 {
			tr = tr[:80]
		}
		samples = append([]any{map[string]any{"scenario": s.Name, "default_schedule_trace": tr}}, samples...)
	}
	ev.Coverage["states"] = states
	ev.Coverage["transitions"] = steps
	ev.Coverage["traces_validated_against_impl"] = execs
	ev.Coverage["samples"] = samples
	ev.Coverage["exhaustive"] = exhaustive && diverged == 0
	ev.Coverage["scenarios"] = len(scns)
	ev.Coverage["executions_cut_at_visited_states"] = pruned
	ev.Coverage["replay_divergences"] = diverged
	ev.Coverage["unstable_failures_discarded"] = unstable
	ev.Coverage["explanation"] = "states: distinct happens-before signatures at decision points; transitions: scheduler steps executed on the real code; traces_validated_against_impl: executions run on the real code (every explored trace is an execution of the implementation, there is no separate model); each job under samples gives the deviation bound completed for one scenario and default schedule"
	if len(raceReports) > 0 {
		var re, rs int64
		for _, r := range raceReports {
			re += r.Execs
			rs += r.Steps
			if r.Bound < r.Target {
				ev.Coverage["exhaustive"] = false
			}
		}
		ev.Coverage["race_pass"] = map[string]any{"executions": re, "steps": rs, "scenarios": len(raceJobs), "bound": raceReports[0].Target}
	}
	ev.Assumptions = []string{
		"sequentially consistent memory between synchronisation operations (data races are covered by the race pass where the property claims goroutine safety)",
		"bounds: the scenarios' fixed numbers of workers and calls; schedules within the deviation bound of the default schedules",
		"the patched Go runtime preserves the semantics of goroutines, channels, select, locks, timers",
	}
	code := 0
	if v != nil {
		ev.Violations = 1
		path, werr := mc.WriteReplay(filepath.Join(*root, "replays"), prop, v)
		if werr != nil {
			fmt.Fprintln(os.Stderr, werr)
			path = "-"
		}
		fmt.Printf("%s (scenario %s, default schedule %d, %d deviations): %s\n", v.Tag, v.Scn, v.Policy, v.Path.C, v.Msg)
		if v.Stderr != "" {
			fmt.Println(v.Stderr)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	ev.Wall = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if code == 0 {
		fmt.Printf("ok property=%s scenarios=%d executions=%d transitions=%d states=%d exhaustive=%v %.1fs\n", prop, len(scns), execs, steps, states, ev.Coverage["exhaustive"], ev.Wall)
	}
	os.Exit(code)
}
