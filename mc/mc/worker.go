package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"time"
)

// Task asks a worker process to explore the executions below a prefix.
type Task struct {
	Scn    string          `json:"s"`
	Policy int             `json:"p"`
	Budget int             `json:"b"` // total deviation budget
	Prefix []Prefix        `json:"x"`
	Expand bool            `json:"e"` // run once and hand the alternatives back
	Tags   map[string]bool `json:"t"`
	Tier   string          `json:"r"`
	End    int64           `json:"d"` // deadline, unix nanoseconds
	Salt   uint64          `json:"a"`
	NoVis  bool            `json:"v"`
}

// Result answers a Task.
type Result struct {
	Stats    Stats         `json:"st"`
	Tasks    []Prefix      `json:"k,omitempty"`
	Fail     *Failure      `json:"f,omitempty"`
	Path     *Prefix       `json:"path,omitempty"`
	Trace    []string      `json:"trace,omitempty"`
	Unstable bool          `json:"un,omitempty"`
	Partial  bool          `json:"pa,omitempty"`
	Sample   []string      `json:"sm,omitempty"`
	Races    int           `json:"rc,omitempty"`
	Elapsed  time.Duration `json:"el"`
}

var scenarios = map[string]*Scenario{}

// Register adds a scenario to the catalogue.
func Register(s *Scenario) {
	if scenarios[s.Name] != nil {
		panic("duplicate scenario " + s.Name)
	}
	scenarios[s.Name] = s
}

// Lookup finds a scenario by name.
func Lookup(name string) *Scenario { return scenarios[name] }

// Names lists the registered scenarios.
func Names() []string {
	var out []string
	for n := range scenarios {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// RaceErrors is set by the race build.
var RaceErrors func() int

func hashName(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Explore performs a task in this process.
func Explore(task *Task, vis *Visited) *Result {
	t0 := runtime.VerifRealNano()
	scn := scenarios[task.Scn]
	if scn == nil {
		panic("unknown scenario " + task.Scn)
	}
	e := &explorer{scn: scn, policy: task.Policy, tags: task.Tags, tier: task.Tier,
		salt: mix(hashName(task.Scn), uint64(task.Policy)+task.Salt)}
	if task.Budget >= Full {
		e.full = true
		e.salt = mix(hashName(task.Scn), 0xf011+task.Salt)
	}
	if !task.NoVis {
		e.vis = vis
	}
	res := &Result{}
	for _, p := range task.Prefix {
		e.explore(p, task, res)
		if res.Fail != nil || res.Partial {
			break
		}
	}
	res.Stats = e.stats
	res.Elapsed = time.Duration(runtime.VerifRealNano() - t0)
	return res
}

// explore enumerates the executions below one prefix.
func (e *explorer) explore(prefix Prefix, task *Task, res *Result) {
	base := prefix.L
	for {
		if task.End != 0 && runtime.VerifRealNano()+wallOffset > task.End {
			res.Partial = true
			return
		}
		races := 0
		if RaceErrors != nil {
			races = RaceErrors()
		}
		fail := e.run(prefix, task.Budget)
		if RaceErrors != nil && fail == nil {
			if n := RaceErrors(); n > races {
				fail = &Failure{Tag: "race", Msg: "data race (see the race detector's report on standard error)"}
				res.Races = n - races
			}
		}
		path := append([]choice(nil), e.path...)
		if fail != nil {
			e.confirm(pack(path), fail, task, res)
			if res.Fail != nil {
				return
			}
		}
		if task.Expand {
			for d := prefix.L; d < len(path); d++ {
				c := cost(path[:d])
				for o := int32(1); o < path[d].n; o++ {
					if !e.full && c+path[d].cost(o) > task.Budget {
						break
					}
					np := append(append([]choice(nil), path[:d]...), choice{n: path[d].n, taken: o, free: path[d].free})
					res.Tasks = append(res.Tasks, pack(np))
				}
			}
			return
		}
		// next prefix: the deepest decision with an untried option
		next := -1
		for d := len(path) - 1; d >= base; d-- {
			o := path[d].taken + 1
			if o < path[d].n && (e.full || cost(path[:d])+path[d].cost(o) <= task.Budget) {
				next = d
				break
			}
		}
		if next < 0 {
			return
		}
		path[next].taken++
		prefix = pack(path[:next+1])
	}
}

// wallOffset converts the monotonic clock to unix time.
var wallOffset = time.Now().UnixNano() - runtime.VerifRealNano()

// confirm replays a failing execution and records it if it fails again.
func (e *explorer) confirm(path Prefix, fail *Failure, task *Task, res *Result) {
	saved := e.stats
	vis := e.vis
	e.vis = nil
	if fail.Tag == "race" {
		// The detector reports each race once per process; replays happen
		// in fresh processes.
		res.Fail = fail
		res.Path = &path
		e.vis = vis
		return
	}
	ok := 0
	e.trace = true
	var trace []string
	for i := 0; i < 3; i++ {
		f := e.run(path, task.Budget)
		if f != nil && f.Tag == fail.Tag {
			ok++
			trace = e.t.trace
			fail = f
		}
	}
	e.trace = false
	e.stats = saved
	e.vis = vis
	if ok == 3 {
		res.Fail = fail
		res.Path = &path
		res.Trace = trace
	} else {
		res.Unstable = true
		fmt.Fprintf(os.Stderr, "mc: unstable failure in %s (%d/3): %s\n", task.Scn, ok, fail.Msg)
	}
}

// Replay runs one recorded execution with tracing.
func Replay(scn string, policy int, path Prefix, budget int, tags map[string]bool) (*Failure, []string) {
	s := scenarios[scn]
	if s == nil {
		panic("unknown scenario " + scn)
	}
	e := &explorer{scn: s, policy: policy, tags: tags, trace: true, full: budget >= Full}
	f := e.run(path, budget)
	return f, e.t.trace
}

// HangLimit is the real time one scheduler step may take.
const HangLimit = 25 * time.Second

// watchdog reports a thread that runs on without reaching a scheduling point.
func watchdog(out io.Writer) {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(time.Second)
		p := stepCount
		if p != last || current == nil {
			last = p
			since = time.Now()
			continue
		}
		if time.Since(since) < HangLimit {
			continue
		}
		e := current
		path := pack(e.path)
		res := &Result{Stats: e.stats, Path: &path, Fail: &Failure{Tag: "*", Generic: true, Hang: true,
			Msg: "a goroutine runs on without reaching any synchronisation operation"}}
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		os.Exit(3)
	}
}

// WorkerMain serves tasks on in/out.
func WorkerMain(in io.Reader, out io.Writer, visFile *os.File, visSize int) {
	runtime.GOMAXPROCS(1)
	var vis *Visited
	if visFile != nil {
		v, err := OpenVisited(visFile, visSize)
		if err != nil {
			panic(err)
		}
		vis = v
	}
	r := bufio.NewReaderSize(in, 1<<20)
	w := bufio.NewWriterSize(out, 1<<20)
	go watchdog(out)
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			return
		}
		var task Task
		if err := json.Unmarshal(line, &task); err != nil {
			panic(err)
		}
		res := Explore(&task, vis)
		b, _ := json.Marshal(res)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
