package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Job is a scenario to explore up to a bound.
type Job struct {
	Scn      string
	Policies []int
	MaxBound int
	Full     bool // also explore without a deviation bound
}

// RunConfig configures a coordinated exploration.
type RunConfig struct {
	Exe      string // worker binary
	Env      []string
	Procs    int
	Jobs     []Job
	Tags     map[string]bool
	Tier     string
	Deadline time.Time
	VisBits  int
	NoVis    bool
	Salt     uint64
	Verbose  bool
	MinBound int
	// HangLimit bounds the real time of one batch of executions without
	// progress.
	HangLimit time.Duration
}

// JobReport says how far one scenario was explored under one default schedule.
type JobReport struct {
	Scn       string `json:"scenario"`
	Policy    int    `json:"policy"`
	Bound     int    `json:"bound_completed"`
	Execs     int64  `json:"executions"`
	Steps     int64  `json:"steps"`
	States    int64  `json:"states"`
	Pruned    int64  `json:"pruned"`
	Depth     int64  `json:"max_depth"`
	Diverged  int64  `json:"diverged"`
	Unstable  int64  `json:"unstable"`
	Truncated bool   `json:"truncated"`
	Target    int    `json:"bound_target"`
}

// Violation is a confirmed failing execution.
type Violation struct {
	Scn     string   `json:"scenario"`
	Policy  int      `json:"policy"`
	Budget  int      `json:"budget"`
	Path    Prefix   `json:"path"`
	Tag     string   `json:"tag"`
	Msg     string   `json:"msg"`
	Trace   []string `json:"trace"`
	Race    bool     `json:"race,omitempty"`
	Stderr  string   `json:"stderr,omitempty"`
	Bounded bool     `json:"-"`
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startProc(cfg *RunConfig, vis *os.File) (*proc, error) {
	cmd := exec.Command(cfg.Exe, "worker", strconv.Itoa(1<<cfg.VisBits))
	cmd.Env = append(os.Environ(), "GODEBUG=invalidptr=0")
	cmd.Env = append(cmd.Env, cfg.Env...)
	cmd.ExtraFiles = []*os.File{vis}
	p := &proc{cmd: cmd, stderr: &tail{}}
	cmd.Stderr = p.stderr
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, cmd.Start()
}

type unit struct {
	job    *JobReport
	budget int
	prefix []Prefix
	costs  int // deviations already spent by the prefixes
	expand bool
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// memfd returns an anonymous file in memory.
func memfd() (*os.File, error) {
	name := []byte("verifmc\x00")
	fd, _, e := syscall.Syscall(319 /* memfd_create */, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		f, err := os.CreateTemp("", "verifmc")
		if err == nil {
			os.Remove(f.Name())
		}
		return f, err
	}
	return os.NewFile(fd, "visited"), nil
}

// Run explores all jobs level by level and stops at the first violation.
func Run(cfg *RunConfig) ([]*JobReport, *Violation, error) {
	if cfg.VisBits == 0 {
		cfg.VisBits = 24
	}
	vf, err := memfd()
	if err != nil {
		return nil, nil, err
	}
	defer vf.Close()
	if err := vf.Truncate(8 << cfg.VisBits); err != nil {
		return nil, nil, err
	}
	var reports []*JobReport
	for _, j := range cfg.Jobs {
		for _, p := range j.Policies {
			reports = append(reports, &JobReport{Scn: j.Scn, Policy: p, Bound: -1, Target: j.MaxBound})
		}
		if j.Full {
			reports = append(reports, &JobReport{Scn: j.Scn, Policy: j.Policies[0], Bound: -1, Target: Full})
		}
	}
	maxB := 0
	hasFull := false
	for _, r := range reports {
		if r.Target == Full {
			hasFull = true
		} else if r.Target > maxB {
			maxB = r.Target
		}
	}
	var levels []int
	for b := cfg.MinBound; b <= maxB; b++ {
		levels = append(levels, b)
	}
	if hasFull {
		levels = append(levels, Full)
	}
	procs := make([]*proc, cfg.Procs)
	for i := range procs {
		p, err := startProc(cfg, vf)
		if err != nil {
			return nil, nil, err
		}
		procs[i] = p
	}
	defer func() {
		for _, p := range procs {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}()

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var stack []unit
	busy := 0
	var viol *Violation
	var fatal error
	pending := map[*JobReport]int{}
	levelDone := true

	// again runs a unit in a fresh process, to confirm a crash or a hang.
	again := func(task *Task) (*Result, string, error) {
		p, err := startProc(cfg, vf)
		if err != nil {
			return nil, "", err
		}
		defer func() {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}()
		task.NoVis = true
		task.End = time.Now().Add(3 * HangLimit).UnixNano()
		b, _ := json.Marshal(task)
		stop := time.AfterFunc(4*HangLimit, func() { p.cmd.Process.Kill() })
		defer stop.Stop()
		p.in.Write(append(b, '\n'))
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			p.cmd.Wait()
			return nil, p.stderr.String(), err
		}
		var res Result
		if err := json.Unmarshal(line, &res); err != nil {
			return nil, "", err
		}
		return &res, "", nil
	}
	_ = again

	serve := func(p *proc) {
		for {
			mu.Lock()
			for len(stack) == 0 && busy > 0 && viol == nil && fatal == nil {
				cond.Wait()
			}
			if len(stack) == 0 || viol != nil || fatal != nil {
				mu.Unlock()
				cond.Broadcast()
				return
			}
			u := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			busy++
			mu.Unlock()

			var res Result
			var err error
			if !time.Now().Before(cfg.Deadline) {
				res.Partial = true
			} else {
				task := Task{Scn: u.job.Scn, Policy: u.job.Policy, Budget: u.budget, Prefix: u.prefix, Expand: u.expand,
					Tags: cfg.Tags, Tier: cfg.Tier, End: cfg.Deadline.UnixNano(), Salt: cfg.Salt, NoVis: cfg.NoVis}
				b, _ := json.Marshal(&task)
				b = append(b, '\n')
				hang := time.AfterFunc(time.Until(cfg.Deadline)+cfg.HangLimit, func() { p.cmd.Process.Kill() })
				if _, err = p.in.Write(b); err == nil {
					var line []byte
					line, err = p.out.ReadBytes('\n')
					if err == nil {
						err = json.Unmarshal(line, &res)
					}
				}
				hang.Stop()
				if err != nil && time.Now().Before(cfg.Deadline) {
					// the process died: does it die again?
					p.cmd.Wait()
					if _, se, err2 := again(&task); err2 != nil && se != "" {
						pf := u.prefix[0]
						res = Result{Path: &pf, Fail: &Failure{Tag: "*", Generic: true, Msg: "the process crashes:\n" + firstLines(se, 12)}}
						err = nil
					}
				} else if err == nil && res.Fail != nil && res.Fail.Hang {
					task.Prefix = []Prefix{*res.Path}
					task.Expand = true
					r2, _, _ := again(&task)
					if r2 == nil || r2.Fail == nil || !r2.Fail.Hang {
						err = fmt.Errorf("a step took more than %v, but did not when repeated", HangLimit)
					}
				}
			}
			mu.Lock()
			busy--
			j := u.job
			if err != nil {
				p.cmd.Wait()
				if fatal == nil {
					fatal = fmt.Errorf("worker process failed while exploring %s (policy %d, budget %d, %d prefixes): %v\n%s", j.Scn, j.Policy, u.budget, len(u.prefix), err, p.stderr)
				}
			} else {
				j.Execs += res.Stats.Execs
				j.Steps += res.Stats.Steps
				j.States += res.Stats.States
				j.Pruned += res.Stats.Pruned
				j.Diverged += res.Stats.Diverged
				if res.Stats.MaxDepth > j.Depth {
					j.Depth = res.Stats.MaxDepth
				}
				if res.Unstable {
					j.Unstable++
				}
				if res.Partial {
					j.Truncated = true
					levelDone = false
				}
				if res.Fail != nil && viol == nil {
					viol = &Violation{Scn: j.Scn, Policy: j.Policy, Budget: u.budget, Path: *res.Path, Tag: res.Fail.Tag, Msg: res.Fail.Msg, Trace: res.Trace}
					if res.Fail.Tag == "race" {
						viol.Race = true
						time.Sleep(100 * time.Millisecond)
						viol.Stderr = p.stderr.String()
					}
				}
				push(&stack, j, u.budget, res.Tasks)
			}
			_ = pending
			mu.Unlock()
			cond.Broadcast()
		}
	}

	for _, b := range levels {
		if viol != nil || fatal != nil {
			break
		}
		if !time.Now().Before(cfg.Deadline) {
			break
		}
		levelDone = true
		stack = stack[:0]
		for i := len(reports) - 1; i >= 0; i-- {
			j := reports[i]
			if j.Target < b || j.Truncated || (j.Target == Full) != (b == Full) {
				continue
			}
			stack = append(stack, unit{job: j, budget: b, prefix: []Prefix{{}}, expand: b > 0})
		}
		if b == 0 {
			// free choices multiply even the default schedule
			for i := range stack {
				stack[i].expand = true
			}
		}
		t0 := time.Now()
		var wg sync.WaitGroup
		for _, p := range procs {
			wg.Add(1)
			go func() { defer wg.Done(); serve(p) }()
		}
		wg.Wait()
		for _, j := range reports {
			if j.Target >= b && (j.Target == Full) == (b == Full) && !j.Truncated && viol == nil && fatal == nil {
				j.Bound = b
			}
		}
		if cfg.Verbose {
			var ex, st, ss int64
			for _, j := range reports {
				ex += j.Execs
				st += j.States
				ss += j.Steps
			}
			fmt.Fprintf(os.Stderr, "mc: bound %d done=%v in %.1fs (cumulative: %d executions, %d steps, %d states)\n", b, levelDone, time.Since(t0).Seconds(), ex, ss, st)
		}
	}
	return reports, viol, fatal
}

// push queues the alternatives an expansion returned, deepest budgets last.
func push(stack *[]unit, j *JobReport, budget int, ps []Prefix) {
	if len(ps) == 0 {
		return
	}
	// The remaining budget decides whether a prefix is expanded again.
	groups := map[int][]Prefix{}
	for _, p := range ps {
		if (budget == 0 || budget >= Full) && p.L <= 3 {
			*stack = append(*stack, unit{job: j, budget: budget, prefix: []Prefix{p}, expand: true})
			continue
		}
		groups[p.C] = append(groups[p.C], p)
	}
	var keys []int
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, spent := range keys {
		rem := budget - spent
		expand := rem >= 2 || rem == budget && budget >= 1
		size := 1
		if rem == 0 {
			size = 48
		} else if !expand {
			size = 2
		} else {
			size = 4
		}
		g := groups[spent]
		for len(g) > 0 {
			n := size
			if n > len(g) {
				n = len(g)
			}
			*stack = append(*stack, unit{job: j, budget: budget, prefix: g[:n:n], expand: expand})
			g = g[n:]
		}
	}
}

// WriteReplay stores a violation so that it can be replayed.
func WriteReplay(dir, prop string, v *Violation) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	name := filepath.Join(dir, prop+"-"+strings.ReplaceAll(v.Scn, "/", "_")+".json")
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return "", err
	}
	return name, os.WriteFile(name, b, 0o644)
}
