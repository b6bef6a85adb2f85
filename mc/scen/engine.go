package scen

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/juju/errors"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"

	"verifmc/mc"
)

var (
	errOther    = errors.New("ordinary failure")
	errOther2   = errors.New("please try again")
	errEFatal1  = errors.New("fatal error 1")
	errEFatal2  = errors.New("fatal error 2")
	errDomain   = errors.New("domain specific error")
	errFiltered = errors.New("filtered error")
	errOutput   = errors.New("output error")
)

var (
	eBounceW = errors.Annotate(dependency.ErrBounce, "wrapped")
	eUninstW = errors.Trace(dependency.ErrUninstall)
	eMissW   = errors.Annotate(dependency.ErrMissing, "wrapped")
)

type eclass int

const (
	clNil eclass = iota
	clMissing
	clBounce
	clUninstall
	clOther
)

func classOf(err error) eclass {
	switch {
	case err == nil:
		return clNil
	case errors.Is(err, dependency.ErrMissing):
		return clMissing
	case errors.Is(err, dependency.ErrBounce):
		return clBounce
	case errors.Is(err, dependency.ErrUninstall):
		return clUninstall
	}
	return clOther
}

// eBeh is what one start attempt of a manifold does.
type eBeh struct {
	block    bool
	honour   bool // a blocked start returns early if its context is cancelled
	err      error
	dyn      bool
	stubborn bool
	killErr  error
	slow     time.Duration
}

type eSpec struct {
	name   string
	inputs []string
	hard   bool // needs all its inputs
	script []eBeh
	filter func(error) error
	hidden bool // has no Output
	self   bool
	// onStart runs in the start function.
	onStart func()
}

type eInst struct {
	*Inst
	a      *eAtt
	reg    bool
	stp    bool // Stopped, as far as the monitor has seen it
	kld    bool // likewise Killed
	regAt  time.Duration
	stopAt time.Duration
	early  int // when there first was a sign that the engine took it over
}

// eAtt is a start attempt.
type eAtt struct {
	m       *eMan
	n       int
	call    time.Duration
	callSeq int
	seen    []*eInst
	ctx     context.Context
	get     dependency.Getter
	ret     bool
	inst    *eInst
	ended   bool
	end     time.Duration
	endSeq  int
	err     error // raw
	bounced bool  // told to stop before it ended
	settled bool
	aged    bool // its getter was seen to have expired
}

// outRef is filled by the Output function of manifold by.
type outRef struct {
	w  *Inst
	by *eMan
}

type eWin struct {
	lo, hi time.Duration
	re     int
}

type eChg struct {
	at  time.Duration
	seq int
}

// eMan is an installed manifold.
type eMan struct {
	eSpec
	gen     int
	atts    []*eAtt
	instAt  time.Duration
	instRet bool
	gone    bool
	goneSeq int
	refused bool // Install failed
	maybe   bool // it may be gone
	opt     bool // it may not have to be started
	pend    []eWin
	pendSeq int // changes considered so far
	re      map[int]bool
	chgs    []eChg
	nReg    int
	rel     chan struct{}
	relDone bool
}

type eCfg struct {
	errDelay, bounceDelay, maxDelay, reset time.Duration
	factor                                 float64
	lower                                  bool // WorstError prefers the lower rank
	filter                                 func(error) error
	isFatal                                func(error) bool
}

// eh is an engine under test together with its specification.
type eh struct {
	t       *mc.T
	e       *dependency.Engine
	cfg     eCfg
	mans    []*eMan
	byName  map[string]*eMan
	lastT   time.Duration
	seq     int
	killAt  time.Duration // when the engine was told to end, or -1
	killWhy string
	fatal   []error
	waits   int // pending Wait calls
	ended   bool
	endErr  error
	endSet  bool
	par     int
	busy    map[string]int
	lastChg map[string]time.Duration
	later   []func() // checks for the end of this instant
}

func eRank(err error) int {
	switch err {
	case nil:
		return 0
	case errEFatal1:
		return 1
	case errEFatal2:
		return 2
	}
	return 3
}

func newEH(t *mc.T, cfg eCfg) *eh {
	h := &eh{t: t, cfg: cfg, byName: map[string]*eMan{}, killAt: -1, busy: map[string]int{}, lastChg: map[string]time.Duration{}}
	if h.cfg.isFatal == nil {
		h.cfg.isFatal = func(err error) bool { return err == errEFatal1 || err == errEFatal2 }
	}
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:          h.cfg.isFatal,
		WorstError:       h.worst,
		Filter:           cfg.filter,
		ErrorDelay:       cfg.errDelay,
		BounceDelay:      cfg.bounceDelay,
		BackoffFactor:    cfg.factor,
		BackoffResetTime: cfg.reset,
		MaxDelay:         cfg.maxDelay,
		Clock:            Clock{},
		Metrics:          h,
		Logger:           Logger{},
	})
	if err != nil {
		panic(err)
	}
	h.e = e
	return h
}

func (h *eh) worst(a, b error) error {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if (eRank(a) > eRank(b)) != h.cfg.lower {
		return a
	}
	return b
}

func (h *eh) fail(tag, f string, a ...any) { h.t.Failf(tag, f, a...) }

// ev begins a monitor event.
func (h *eh) ev() int {
	h.t.Touch()
	now := h.t.Now()
	if now > h.lastT {
		h.settle(now)
		h.lastT = now
	}
	h.seq++
	return h.seq
}

// cur is the instance that manifold name exposes now.
func (h *eh) cur(name string) *eInst {
	m := h.byName[name]
	if m == nil || len(m.atts) == 0 {
		return nil
	}
	i := m.atts[len(m.atts)-1].inst
	if i == nil || !i.reg || i.stp {
		return nil
	}
	return i
}

func (h *eh) changed(name string) { h.changedAt(name, h.seq) }

func (h *eh) changedAt(name string, seq int) {
	h.lastChg[name] = h.lastT
	for _, m := range h.mans {
		if m.gone {
			continue
		}
		for _, in := range m.inputs {
			if in == name {
				m.chgs = append(m.chgs, eChg{h.lastT, seq})
				break
			}
		}
	}
}

func (m *eMan) last() *eAtt {
	if len(m.atts) == 0 {
		return nil
	}
	return m.atts[len(m.atts)-1]
}

// RecordStart is part of dependency.Metrics.
func (h *eh) RecordStart(name string) {
	if mc.RaceMode {
		return
	}
	h.ev()
	h.t.Logf("engine registers %s", name)
	m := h.byName[name]
	if m == nil || m.last() == nil || m.last().inst == nil {
		h.fail("D10,D01", "a start of %q was recorded, but no worker was started", name)
		return
	}
	i := m.last().inst
	if i.reg {
		h.fail("D10,D01", "the start of %s#%d was recorded twice", name, i.Gen)
	}
	i.reg = true
	i.regAt = h.lastT
	m.nReg++
	if i.early == 0 {
		i.early = h.seq
	}
	h.changedAt(name, i.early)
}

// arriving tells whether an input of m may just have become available: the
// engine may record the start of a worker after it told its dependents.
func (h *eh) arriving(m *eMan) bool {
	any := false
	for _, in := range m.inputs {
		x := h.byName[in]
		if x == nil || x.last() == nil {
			continue
		}
		if i := x.last().inst; i != nil && !i.reg && !i.kld {
			any = true
			if i.early == 0 {
				i.early = h.seq
			}
		}
	}
	return any
}

func (h *eh) filtered(m *eMan, err error) error {
	if m.filter != nil {
		return m.filter(err)
	}
	return err
}

func (h *eh) dying() bool { return h.killAt >= 0 }

func (h *eh) startFn(m *eMan) dependency.StartFunc {
	return func(ctx context.Context, get dependency.Getter) (worker.Worker, error) {
		h.t.Point()
		if mc.RaceMode {
			return h.raceStart(m, ctx, get)
		}
		a := h.startCall(m, ctx)
		a.get = get
		miss := h.look(m, a, get)
		if m.onStart != nil {
			m.onStart()
		}
		n := len(m.atts) - 1
		if n >= len(m.script) {
			n = len(m.script) - 1
		}
		b := m.script[n]
		if len(m.atts) > 60 {
			b = eBeh{} // enough
		}
		if b.block {
			if b.honour {
				select {
				case <-m.rel:
				case <-ctx.Done():
					b.err = errors.Trace(ctx.Err())
				}
			} else {
				<-m.rel
			}
			h.t.Point()
		}
		if b.slow > 0 {
			time.Sleep(b.slow)
		}
		if miss != nil && b.err == nil {
			b.err = miss
		}
		if b.err != nil {
			h.ev()
			a.ret = true
			h.attEnd(a, b.err, a.ctx.Err() != nil)
			return nil, b.err
		}
		if m.self {
			h.ev()
			a.ret = true
			i := &eInst{Inst: NewInst(h.t, m.name, a.n, false, nil), a: a}
			a.inst = i
			return h.e, nil
		}
		i := &eInst{a: a}
		switch {
		case b.stubborn:
			i.Inst = NewStubborn(h.t, m.name, a.n, b.killErr)
		default:
			i.Inst = NewInst(h.t, m.name, a.n, b.dyn, b.killErr)
		}
		i.Rep = map[string]interface{}{"inst": a.n}
		i.OnKill = func(*Inst) { h.instKill(i) }
		i.OnStop = func(*Inst) { h.instStop(i) }
		h.ev()
		h.t.Logf("start of %s returns instance %d", m.name, a.n)
		a.ret = true
		a.inst = i
		return i.Inst, nil
	}
}

func (h *eh) raceStart(m *eMan, ctx context.Context, get dependency.Getter) (worker.Worker, error) {
	for _, in := range m.inputs {
		var w *Inst
		if err := get.Get(in, &w); err != nil && m.hard {
			return nil, err
		}
	}
	if m.self {
		return h.e, nil
	}
	b := m.script[0]
	if b.block {
		<-m.rel
	}
	if b.err != nil {
		return nil, b.err
	}
	w := NewInst(h.t, m.name, 0, true, b.killErr)
	w.Rep = map[string]interface{}{"inst": 1}
	return w, nil
}

// look asks for every input and compares the answers with the specification of
// Get.
func (h *eh) look(m *eMan, a *eAtt, get dependency.Getter) (miss error) {
	for k, in := range m.inputs {
		var ref outRef
		err := get.Get(in, &ref)
		w := ref.w
		if im := h.byName[in]; err == nil && im != nil && !im.hidden && !im.self {
			var n int
			if err := get.Get(in, &n); err != errOutput {
				h.fail("D09", "Get of %s returned %v instead of its output function's error", in, err)
			}
		}
		exist := get.Get(in, nil)
		im := h.byName[in]
		if exist == nil && im != nil && im.self {
			var is dependency.Installer
			var rep dependency.Reporter
			if err == nil {
				h.fail("D12", "Get of the engine accepted an out parameter of type %T", &ref)
			}
			if err := get.Get(in, &is); err != nil || is != dependency.Installer(h.e) {
				h.fail("D12", "Get of the engine's Installer returned %v", err)
			}
			if err := get.Get(in, &rep); err != nil || rep != dependency.Reporter(h.e) {
				h.fail("D12", "Get of the engine's Reporter returned %v", err)
			}
			a.seen[k] = im.last().inst
			continue
		}
		if exist == nil && im != nil && im.hidden {
			if !errors.Is(err, dependency.ErrMissing) {
				h.fail("D09", "Get of %s, which has no output, returned %v", in, err)
			}
			i := im.last().inst
			a.seen[k] = i
			continue
		}
		if (err == nil) != (exist == nil) {
			h.fail("D09", "Get of %s returned %v with and %v without an out parameter", in, err, exist)
		}
		if err != nil {
			if !errors.Is(err, dependency.ErrMissing) {
				h.fail("D09", "Get of %s returned %v, not ErrMissing", in, err)
			}
			since := m.instAt // the start was requested later
			if a.n > 0 {
				since = m.atts[a.n-1].end
			}
			if i := h.cur(in); i != nil && i.regAt < since {
				h.fail("D09", "Get of %s returned %v in a start requested at %v or later, though it is running since %v", in, err, since, i.regAt)
			}
			if m.hard {
				miss = err
			}
			continue
		}
		h.t.Touch()
		for _, x := range h.mans {
			for _, at := range x.atts {
				if at.inst != nil && at.inst.Inst == w {
					a.seen[k] = at.inst
					if ref.by != x {
						h.fail("D09,D07", "Get of %s used the Output of another manifold than that of the worker", in)
					}
					if x.name != in {
						h.fail("D09", "Get of %s returned a worker of %s", in, x.name)
					}
				}
			}
		}
		if a.seen[k] == nil {
			h.fail("D09", "Get of %s returned an unknown worker", in)
			continue
		}
		if i := a.seen[k]; !i.reg {
			h.later = append(h.later, func() {
				if !i.reg {
					h.fail("D03,D09", "Get of %s returned a worker that the engine has not taken over", in)
				}
			})
		}
		if a.seen[k].stp && a.seen[k].stopAt < a.call {
			h.fail("D03", "%s was started with instance %d of its input %s, which stopped at %v", m.name, a.seen[k].Gen, in, a.seen[k].stopAt)
		}
	}
	if err := get.Get("undeclared", nil); !errors.Is(err, dependency.ErrMissing) {
		h.fail("D09", "Get of a name that is not among the inputs returned %v", err)
	}
	if err := get.Get(m.name, nil); !errors.Is(err, dependency.ErrMissing) {
		h.fail("D09", "Get of a name that is not among the inputs returned %v", err)
	}
	return miss
}

func (h *eh) startCall(m *eMan, ctx context.Context) *eAtt {
	h.ev()
	h.t.Logf("start of %s is called", m.name)
	a := &eAtt{m: m, n: len(m.atts), call: h.lastT, callSeq: h.seq, ctx: ctx, seen: make([]*eInst, len(m.inputs))}
	p := m.last()
	if p == nil {
		h.takeOver(m)
	}
	if p != nil && !p.ended {
		h.fail("D01", "the start function of %s is called while an earlier call or its worker is not finished", m.name)
	}
	if m.gone {
		h.fail("D01,D04", "%s is started though it was uninstalled", m.name)
	}
	now := h.lastT
	chgNow := len(m.chgs) > 0 && m.chgs[len(m.chgs)-1].at == now
	if h.cfg.bounceDelay == 0 && h.arriving(m) {
		chgNow = true
	}
	switch {
	case p == nil && now == m.instAt:
		m.re = map[int]bool{0: true}
		if chgNow {
			m.re[1] = true
		}
	case p == nil && len(m.pend) == 0:
		h.fail("D06,D07", "%s, installed at %v, is only started at %v", m.name, m.instAt, now)
	case h.cfg.bounceDelay == 0 && chgNow,
		h.cfg.bounceDelay == 0 && p.end == now && (p.bounced || classOf(h.filtered(m, p.err)) == clBounce),
		h.cfg.errDelay == 0 && p.end == now && classOf(h.filtered(m, p.err)) == clOther:
		h.settleEnd(m, p)
		m.re[1] = true
	case len(m.pend) == 0:
		h.fail("D03,D04,D06", "%s is started at %v though nothing calls for it (it ended at %v with error %v, told to stop: %v)", m.name, now, p.end, p.err, p.bounced)
	default:
		re := map[int]bool{}
		for _, w := range m.pend {
			if w.lo <= now && now <= w.hi {
				re[w.re] = true
			}
		}
		if len(re) == 0 {
			h.fail("D06", "%s is started at %v, but should have been in %s", m.name, now, wins(m.pend))
		}
		m.re = re
	}
	if h.dying() && h.killAt < now {
		h.fail("D02", "%s is started at %v, though the engine was told to end at %v (%s)", m.name, now, h.killAt, h.killWhy)
	}
	if h.ended {
		h.fail("D02", "%s is started after the engine has ended", m.name)
	}
	m.pend = nil
	m.maybe = false
	m.opt = false
	m.atts = append(m.atts, a)
	return a
}

func wins(ws []eWin) string {
	var s []string
	for _, w := range ws {
		s = append(s, fmt.Sprintf("[%v,%v]", w.lo, w.hi))
	}
	return strings.Join(s, " or ")
}

func (h *eh) attEnd(a *eAtt, err error, bounced bool) {
	h.t.Logf("attempt %d of %s ends: %v (told to stop: %v)", a.n, a.m.name, err, bounced)
	a.ended = true
	a.end = h.lastT
	a.endSeq = h.seq
	a.err = err
	a.bounced = bounced
	f := h.filtered(a.m, err)
	if h.cfg.isFatal(f) {
		h.fatal = append(h.fatal, f)
		if !h.dying() {
			h.killAt = h.lastT
			h.killWhy = fmt.Sprintf("%s failed with %v", a.m.name, f)
		}
	}
}

// maySt tells whether a change may have made a's inputs obsolete.
func (m *eMan) maySt(a *eAtt) bool {
	from := m.instAt
	if a.n > 0 {
		from = m.atts[a.n-1].end
	}
	for _, c := range m.chgs {
		if c.at >= from {
			return true
		}
	}
	return false
}

func (h *eh) mustSt(a *eAtt) string {
	m := a.m
	for k, in := range m.inputs {
		if c := h.cur(in); c != a.seen[k] {
			return fmt.Sprintf("its input %s was %s and is %s", in, instName(a.seen[k]), instName(c))
		}
	}
	for _, c := range m.chgs {
		if c.seq > a.callSeq {
			return "an input changed"
		}
	}
	return ""
}

func instName(i *eInst) string {
	if i == nil {
		return "not available"
	}
	return fmt.Sprintf("instance %d", i.Gen)
}

func (h *eh) instKill(i *eInst) {
	h.ev()
	i.kld = true
	m := i.a.m
	if h.dying() {
		return
	}
	if !m.maySt(i.a) {
		h.arriving(m)
		h.later = append(h.later, func() {
			if !m.maySt(i.a) && !h.dying() {
				h.fail("D03", "the engine stopped %s though neither its inputs changed nor the engine is ending", m.name)
			}
		})
	}
}

func (h *eh) instStop(i *eInst) {
	h.ev()
	i.stopAt = h.lastT
	i.stp = true
	if h.ended {
		h.fail("D02", "the engine had ended before its worker %s stopped", i.a.m.name)
	}
	h.attEnd(i.a, i.Err, i.kld)
	if i.reg {
		// still exposed when the change is noticed
		h.changed(i.a.m.name)
	} else {
		// registered and stopped in whatever order: it counts as soon as
		// it is registered
	}
}

// step is the effect of an attempt's end on the number of recent errors.
func (h *eh) step(a *eAtt, r int) int {
	switch classOf(a.err) {
	case clNil:
		return 0
	case clMissing:
		return 1
	}
	if a.inst == nil || !a.inst.reg || a.end-a.inst.regAt < h.cfg.reset {
		return r + 1
	}
	return 1
}

func (h *eh) window(from, d time.Duration, re int) eWin {
	f := float64(d)
	if h.cfg.factor > 0 && d > 0 {
		n := re - 1
		if n < 0 {
			n = 0
		}
		f *= math.Pow(h.cfg.factor, float64(n))
		if m := float64(h.cfg.maxDelay); m > 0 && f > m {
			f = m
		}
	}
	if d == 0 {
		return eWin{from, from, re}
	}
	const tol = time.Millisecond
	return eWin{from + time.Duration(f*0.9) - tol, from + time.Duration(f*1.1) + tol, re}
}

// settleEnd accounts for the end of attempt a in the number of recent errors.
func (h *eh) settleEnd(m *eMan, a *eAtt) {
	if a.settled {
		return
	}
	a.settled = true
	re := map[int]bool{}
	for r := range m.re {
		re[h.step(a, r)] = true
	}
	m.re = re
}

// due works out whether and when m, which is not running, is to start again.
func (h *eh) due(m *eMan) {
	a := m.last()
	fresh := !a.settled
	tc := time.Duration(-1)
	newChg := len(m.chgs) > m.pendSeq
	if len(m.chgs) > 0 {
		tc = m.chgs[len(m.chgs)-1].at
	}
	m.pendSeq = len(m.chgs)
	if !fresh && !newChg {
		return
	}
	h.settleEnd(m, a)
	set := func(from, d time.Duration) {
		m.pend = nil
		for r := range m.re {
			m.pend = append(m.pend, h.window(from, d, r))
		}
		sort.Slice(m.pend, func(i, j int) bool { return m.pend[i].lo < m.pend[j].lo })
	}
	bd := h.cfg.bounceDelay
	cl := classOf(h.filtered(m, a.err))
	if !fresh {
		// a change while it waits, or after it had completed
		m.opt = false
		if len(m.pend) > 0 {
			m.re = map[int]bool{1: true}
		}
		set(tc, bd)
		return
	}
	if tc == a.end && !a.bounced && h.mustSt(a) == "" {
		// The change may have been taken into account already when the
		// attempt began.
		m.re[1] = true
		set(a.end, bd)
		w := m.pend
		switch cl {
		case clNil, clMissing:
			m.opt = true
		case clUninstall:
			m.maybe = true
		case clOther:
			set(a.end, h.cfg.errDelay)
			m.pend = append(m.pend, w...)
		}
		return
	}
	switch {
	case tc == a.end && !a.bounced:
		if cl == clUninstall {
			m.maybe = true
		}
		m.re[1] = true
		set(a.end, bd)
	case a.bounced:
		if tc == a.end {
			m.re[1] = true
		}
		set(a.end, bd)
	case cl == clNil || cl == clMissing:
		m.pend = nil
	case cl == clBounce:
		set(a.end, bd)
	case cl == clUninstall:
		h.uninstalled(m)
	default:
		set(a.end, h.cfg.errDelay)
	}
}

func (h *eh) uninstalled(m *eMan) {
	m.gone = true
	m.goneSeq = h.seq
	m.pend = nil
	if h.byName[m.name] == m {
		delete(h.byName, m.name)
	}
}

// settle checks the state reached when nothing could happen any more at
// instant lastT; now is the present.
func (h *eh) settle(now time.Duration) {
	for _, f := range h.later {
		f()
	}
	h.later = nil
	all := true
	for _, m := range h.mans {
		if a := m.last(); a != nil && !a.ended && !m.self {
			all = false
		}
	}
	if h.dying() {
		for _, m := range h.mans {
			a := m.last()
			if a == nil || a.ended || m.self {
				continue
			}
			if !a.ret {
				if a.ctx.Err() == nil {
					h.fail("D02", "the engine is ending (%s) but the start call of %s in progress is not cancelled", h.killWhy, m.name)
				}
			} else if a.ctx.Err() == nil {
				h.fail("D02", "the engine is ending (%s) but the context of %s's start call is not cancelled", h.killWhy, m.name)
			} else if !a.inst.kld {
				h.fail("D02", "the engine is ending (%s) but %s was not told to stop", h.killWhy, m.name)
			}
		}
		if all && h.waits > 0 {
			h.fail("D02", "Wait does not return though the engine was told to end (%s) and everything has stopped", h.killWhy)
		}
		for _, k := range []string{"Install", "Report", "Kill"} {
			if h.busy[k] > 0 {
				h.fail("D02,D10,D07", "%s does not return", k)
			}
		}
		return
	}
	for _, k := range []string{"Install", "Report", "Kill"} {
		if h.busy[k] > 0 {
			h.fail("D07,D10", "%s does not return", k)
		}
	}
	for _, m := range h.mans {
		if m.gone {
			continue
		}
		a := m.last()
		if a == nil {
			if len(m.chgs) > m.pendSeq {
				// an input changed before the start function was called
				m.pendSeq = len(m.chgs)
				m.pend = []eWin{h.window(m.chgs[m.pendSeq-1].at, h.cfg.bounceDelay, 1)}
				m.re = map[int]bool{1: true}
			}
			if m.instRet && (len(m.pend) == 0 || m.pend[0].hi < now) {
				h.fail("D07,D04,D06", "%s was installed at %v but not started", m.name, m.instAt)
			}
			continue
		}
		switch {
		case !a.ret:
			st := h.mustSt(a)
			if st != "" && a.ctx.Err() == nil {
				h.fail("D03", "the start call of %s in progress is not cancelled though %s", m.name, st)
			}
			if a.ctx.Err() != nil && !m.maySt(a) {
				h.fail("D03", "the context of %s's start call was cancelled though nothing changed", m.name)
			}
		case !a.ended:
			if m.self {
				break
			}
			if st := h.mustSt(a); st != "" && !a.inst.kld {
				h.fail("D03", "%s keeps running though %s", m.name, st)
			}
			if a.inst.kld && a.ctx.Err() == nil {
				h.fail("D03", "%s was told to stop but the context of its start call is not cancelled", m.name)
			}
			if !a.inst.reg && !a.inst.kld {
				h.fail("D03,D10", "the engine neither uses nor stops the worker of %s", m.name)
			}
			if a.inst.reg && a.ctx.Err() != nil && !a.inst.kld {
				h.fail("D03", "the context of %s was cancelled though it is to go on running", m.name)
			}
		default:
			if !a.settled && a.inst != nil && !a.inst.reg && !a.bounced {
				h.fail("D10", "the start of %s#%d was not recorded", m.name, a.n)
			}
			h.due(m)
			if m.gone {
				break
			}
			if len(m.pend) > 0 {
				late := true
				for _, w := range m.pend {
					late = late && (w.hi < now || w.hi == w.lo && w.hi == h.lastT)
				}
				if late {
					if m.maybe {
						h.uninstalled(m)
						break
					}
					if m.opt {
						m.opt = false
						m.pend = nil
						break
					}
					h.fail("D03,D04,D06", "%s was not started again by %v, though it should have been in %s (it ended at %v with error %v, told to stop: %v)", m.name, now, wins(m.pend), a.end, a.err, a.bounced)
				}
			}
		}
	}
}

// Idle waits until nothing happens any more without time passing.
func (h *eh) Idle() {
	h.t.Quiesce()
	if mc.RaceMode {
		return
	}
	h.ev()
	h.settle(h.lastT)
	for _, m := range h.mans {
		h.stale(m, false)
	}
}

func (h *eh) Pass(d time.Duration) {
	h.t.After(d)
	if mc.RaceMode {
		return
	}
	h.ev()
	h.settle(h.lastT)
}

// ---- operations

func (h *eh) newMan(s eSpec) *eMan {
	if len(s.script) == 0 {
		s.script = []eBeh{{}}
	}
	return &eMan{eSpec: s, rel: make(chan struct{}), re: map[int]bool{0: true}}
}

func (h *eh) manifold(m *eMan) dependency.Manifold {
	mf := dependency.Manifold{Inputs: m.inputs, Start: h.startFn(m), Filter: m.filter}
	if m.self {
		sm := dependency.SelfManifold(h.e)
		mf.Output = sm.Output
	} else if !m.hidden {
		mf.Output = func(in worker.Worker, out interface{}) error {
			switch p := out.(type) {
			case **Inst:
				*p = in.(*Inst)
			case *outRef:
				p.w, p.by = in.(*Inst), m
			default:
				return errOutput
			}
			return nil
		}
	}
	return mf
}

func (h *eh) enter(s string) {
	if !mc.RaceMode {
		h.t.Touch()
		h.busy[s]++
	}
}

func (h *eh) leave(s string) {
	if !mc.RaceMode {
		h.t.Touch()
		h.busy[s]--
	}
}

// cyclic tells whether m closes a cycle with the manifolds that satisfy in.
func (h *eh) cyclic(m *eMan, in func(*eMan) bool) bool {
	seen := map[string]bool{}
	var visit func(o *eMan) bool
	visit = func(o *eMan) bool {
		for _, n := range o.inputs {
			if n == m.name {
				return true
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			for _, x := range h.mans {
				if x != m && x.name == n && in(x) && visit(x) {
					return true
				}
			}
		}
		return false
	}
	return visit(m)
}

// takeOver makes m the manifold of its name.
func (h *eh) takeOver(m *eMan) {
	old := h.byName[m.name]
	if old == m {
		return
	}
	if old != nil {
		a := old.last()
		if !old.gone && !old.maybe && !(a != nil && a.ended && !a.bounced && classOf(h.filtered(old, a.err)) == clUninstall) {
			h.fail("D07", "Install of %s succeeded though it was installed already", m.name)
		}
		h.uninstalled(old)
	}
	h.byName[m.name] = m
}

// Install installs a manifold that is expected to be accepted, unless the
// engine is ending.
func (h *eh) Install(s eSpec) *eMan {
	h.t.Point()
	m := h.newMan(s)
	if mc.RaceMode {
		h.mans = append(h.mans, m)
		h.e.Install(s.name, h.manifold(m))
		return m
	}
	h.ev()
	h.t.Logf("Install(%s)", s.name)
	m.instAt = h.lastT
	for _, in := range m.inputs {
		// the engine may not have noticed yet
		if at, ok := h.lastChg[in]; ok && at == h.lastT {
			m.chgs = append(m.chgs, eChg{at, h.seq})
		}
	}
	h.mans = append(h.mans, m)
	call := h.seq
	h.enter("Install")
	err := h.e.Install(s.name, h.manifold(m))
	h.leave("Install")
	h.ev()
	h.t.Logf("Install(%s) = %v", s.name, err)
	if err != nil {
		just := h.dying() || h.cyclic(m, func(o *eMan) bool { return !(o.gone && o.goneSeq < call) && !o.refused })
		for _, o := range h.mans {
			if o != m && o.name == m.name && !(o.gone && o.goneSeq < call) && !o.refused {
				just = true
			}
		}
		if !just {
			h.fail("D07", "Install of %s failed: %v", s.name, err)
		}
		m.refused = true
		if m.last() != nil {
			h.fail("D07", "Install of %s failed with %v, but it was started", s.name, err)
		}
		m.gone = true
		m.goneSeq = h.seq
		return m
	}
	h.takeOver(m)
	if h.cyclic(m, func(o *eMan) bool {
		a := o.last()
		return o.instRet && !o.gone && !o.maybe && !(a != nil && a.ended && classOf(h.filtered(o, a.err)) == clUninstall)
	}) {
		h.fail("D07", "Install of %s with inputs %v succeeded though it closes a cycle", m.name, m.inputs)
	}
	m.instRet = true
	return m
}

func (h *eh) Kill() {
	h.t.Point()
	if !mc.RaceMode {
		h.ev()
		h.t.Logf("Kill()")
		if !h.dying() {
			h.killAt = h.lastT
			h.killWhy = "Kill"
		}
	}
	h.enter("Kill")
	h.e.Kill()
	h.leave("Kill")
}

func (h *eh) Wait() error {
	h.t.Point()
	if mc.RaceMode {
		return h.e.Wait()
	}
	h.t.Touch()
	h.waits++
	err := h.e.Wait()
	h.ev()
	h.waits--
	h.t.Logf("Wait() = %v", err)
	if !h.dying() {
		h.fail("D02,D05,D01", "Wait returned %v though nothing ended the engine", err)
		return err
	}
	for _, m := range h.mans {
		if a := m.last(); a != nil && !a.ended && !m.self {
			h.fail("D02", "Wait returned before %s had stopped", m.name)
		}
	}
	var w error
	for _, f := range h.fatal {
		w = h.worst(f, w)
	}
	if h.cfg.filter != nil {
		w = h.cfg.filter(w)
	}
	if !sameErr(err, w) {
		h.fail("D05", "Wait returned %v instead of %v, the worst of the fatal errors %v", err, w, h.fatal)
	}
	h.ended = true
	return err
}

// Exit makes the running instance of name stop by itself.
func (h *eh) Exit(name string, err error) {
	h.t.Point()
	if mc.RaceMode {
		return
	}
	m := h.byName[name]
	if m == nil || m.last() == nil || m.last().inst == nil {
		return
	}
	m.last().inst.Exit(err)
}

// Release lets blocked start calls of name go on.
func (h *eh) Release(name string) {
	h.t.Point()
	h.release(name, false)
}

func (h *eh) release(name string, insts bool) {
	runtime.VerifNoPoint(true)
	defer runtime.VerifNoPoint(false)
	for _, m := range h.mans {
		if m.name != name && name != "" {
			continue
		}
		if !m.relDone {
			m.relDone = true
			close(m.rel)
		}
		if insts {
			for _, a := range m.atts {
				if i := a.inst; i != nil && i.hold != nil && !i.released {
					i.released = true
					close(i.hold)
				}
			}
		}
	}
}

// Let lets the blocked start call of name go on, but not later ones.
func (h *eh) Let(name string) {
	h.t.Point()
	runtime.VerifNoPoint(true)
	defer runtime.VerifNoPoint(false)
	for _, m := range h.mans {
		if m.name == name && !m.relDone {
			close(m.rel)
			m.rel = make(chan struct{})
		}
	}
}

// LooseInsts lets the present stubborn instances of name stop.
func (h *eh) LooseInsts(name string) {
	h.t.Point()
	runtime.VerifNoPoint(true)
	defer runtime.VerifNoPoint(false)
	for _, m := range h.mans {
		if m.name != name {
			continue
		}
		for _, a := range m.atts {
			if i := a.inst; i != nil && i.hold != nil && !i.released {
				i.released = true
				close(i.hold)
			}
		}
	}
}

// Loose lets stubborn instances of name stop.
func (h *eh) Loose(name string) {
	h.t.Point()
	h.release(name, true)
}

func (h *eh) Par(fs ...func()) {
	for _, f := range fs {
		if mc.RaceMode {
			go f()
			continue
		}
		h.par++
		go func() {
			f()
			h.t.Touch()
			h.par--
		}()
	}
	h.Idle()
}

// Report asks for a report; if exact it is compared with the state, which must
// be settled.
func (h *eh) Report(exact bool) {
	h.t.Point()
	h.enter("Report")
	rep := h.e.Report()
	h.leave("Report")
	if mc.RaceMode {
		return
	}
	h.t.Touch()
	ms, ok := rep[dependency.KeyManifolds].(map[string]interface{})
	if !ok {
		h.fail("D10", "the report lacks the manifolds: %v", rep)
		return
	}
	state := rep[dependency.KeyState]
	if !exact {
		switch state {
		case "started":
		case "stopping", "stopped":
			if !h.dying() {
				h.fail("D10", "the report says %v though nothing ended the engine", state)
			}
		default:
			h.fail("D10", "the report has the unknown state %v", state)
		}
		return
	}
	want := "started"
	if h.dying() {
		want = "stopped"
		for _, m := range h.mans {
			if a := m.last(); a != nil && !a.ended && !m.self {
				want = "stopping"
			}
		}
	}
	if state != want {
		h.fail("D10", "the report says that the engine is %v, but it is %s", state, want)
	}
	if h.dying() {
		var w error
		for _, f := range h.fatal {
			w = h.worst(f, w)
		}
		if want == "stopped" && h.cfg.filter != nil {
			w = h.cfg.filter(w)
		}
		if w != nil && rep[dependency.KeyError] != w.Error() || w == nil && rep[dependency.KeyError] != nil {
			h.fail("D10,D05", "the report has the error %v, but the worst fatal error is %v", rep[dependency.KeyError], w)
		}
	}
	n := 0
	for _, m := range h.mans {
		maybe := m.maybe
		if a := m.last(); h.dying() && a != nil && a.ended && classOf(h.filtered(m, a.err)) == clUninstall {
			maybe = true
		}
		if m.gone || maybe {
			if maybe {
				n = -1000
			}
			continue
		}
		n++
		r, ok := ms[m.name].(map[string]interface{})
		if !ok {
			h.fail("D10", "the report lacks manifold %s", m.name)
			continue
		}
		h.checkManifold(m, r)
	}
	if n >= 0 && len(ms) != n {
		h.fail("D10", "the report has manifolds that are not installed: %v", ms)
	}
}

func (h *eh) checkManifold(m *eMan, r map[string]interface{}) {
	if m.opt {
		return
	}
	a := m.last()
	want := "stopped"
	var lastErr error
	var rep map[string]interface{}
	started := ""
	switch {
	case a == nil:
		if !h.dying() {
			want = "starting"
		}
	case !a.ret:
		want = "starting"
	case m.self:
		want = "started"
		started = stamp(a.inst.regAt)
		if h.dying() {
			want = ""
			if r[dependency.KeyLastStart] == nil {
				started = ""
			}
		}
	case !a.ended:
		want = "started"
		if a.inst.kld {
			want = "stopping"
			if !a.inst.reg {
				want = "starting"
			}
		}
		if a.inst.reg {
			rep = a.inst.Rep
			started = stamp(a.inst.regAt)
		}
	case len(m.pend) > 0 && !h.dying():
		want = "starting"
	default:
		lastErr = h.filtered(m, a.err)
	}
	st := r[dependency.KeyState]
	if st != want && want != "" && !(want == "starting" && st == "stopping" && a != nil && a.ret && !a.ended) {
		h.fail("D10", "the report says that %s is %v, but it is %s", m.name, st, want)
	}
	ins, _ := r[dependency.KeyInputs].([]string)
	if fmt.Sprint(ins) != fmt.Sprint(m.inputs) {
		h.fail("D10", "the report has the inputs %v for %s instead of %v", ins, m.name, m.inputs)
	}
	if c, _ := r[dependency.KeyStartCount].(int); c != m.nReg {
		h.fail("D10", "the report has the start count %v for %s, which was started %d times", r[dependency.KeyStartCount], m.name, m.nReg)
	}
	if s, _ := r[dependency.KeyLastStart].(string); s != started {
		h.fail("D10", "the report says that %s was started at %q, but it was at %q", m.name, s, started)
	}
	if !h.dying() {
		if lastErr != nil && r[dependency.KeyError] != lastErr.Error() || lastErr == nil && r[dependency.KeyError] != nil {
			h.fail("D10", "the report has the error %v for %s, whose last error was %v", r[dependency.KeyError], m.name, lastErr)
		}
	}
	got, _ := r[dependency.KeyReport].(map[string]interface{})
	if !m.self && fmt.Sprint(got) != fmt.Sprint(rep) {
		h.fail("D10", "the report of %s's worker is %v instead of %v", m.name, got, rep)
	}
}

// Finish drives the engine to its end.
func (h *eh) Finish() {
	if mc.RaceMode {
		h.t.Quiesce()
		h.release("", true)
		h.e.Kill()
		h.t.Quiesce()
		return
	}
	if h.t.Failed() {
		return
	}
	h.t.Calm(true)
	h.Par(func() { h.Report(true) })
	h.Pass(long)
	h.release("", true)
	h.Idle()
	h.Pass(h.span())
	h.Par(func() { h.Report(true) })
	h.Pass(h.span())
	h.Par(func() { h.Report(true) })
	h.Par(func() { h.Wait() })
	// everything still reacts to a change
	for _, m := range h.mans {
		if i := h.cur(m.name); i != nil && !m.gone && !m.self && len(m.inputs) == 0 {
			h.Exit(m.name, errOther)
			h.Idle()
			h.Pass(h.span())
			break
		}
	}
	h.Par(func() { h.Report(true) })
	h.Kill()
	h.Idle()
	h.Pass(long)
	h.release("", true)
	h.Idle()
	h.Par(func() { h.Report(true) })
	h.Par(func() { h.Wait() })
	h.Par(func() {
		h.enter("Install")
		if err := h.e.Install("late", dependency.Manifold{}); err == nil {
			h.fail("D07", "an engine that has ended accepts an Install")
		}
		h.leave("Install")
	})
	h.Pass(h.span())
	h.t.Settle()
	h.ev()
	if h.par != 0 {
		h.fail("D02", "%d calls never returned", h.par)
	}
}

// span is a time after which no start is due any more.
func (h *eh) span() time.Duration {
	return 3*h.cfg.errDelay + 3*h.cfg.bounceDelay + time.Second
}
