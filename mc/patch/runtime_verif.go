// Controlled-scheduler support, added to package runtime through -overlay.
//
// "Controlled" goroutines (gp.vid > 0) never run unless the model checker's
// controller goroutine asks for it with VerifStep.  They hand control back at
// every scheduling point (channel operation, select, lock, ...), when they
// block and when they exit.  Requires GOMAXPROCS=1 and no concurrent GC.

package runtime

import (
	"internal/runtime/maps"
	"internal/runtime/sys"
	"unsafe"
)

const (
	VerifMaxThreads = 512
	verifObjSize    = 1 << 15
	verifMaxTimers  = 512
)

const (
	VsFree    = iota
	VsEnabled // at a point, may be scheduled
	VsRunning
	VsBlocked // parked in an operation
	VsDead
	VsChoice  // at a choice point: scheduled with Choice set
	VsQuiesce // waits until nothing else can run
	VsCrashed // unrecovered panic or fatal error
)

const (
	VkStart = iota + 1
	VkSend
	VkRecv
	VkSelect
	VkClose
	VkLock
	VkTryLock
	VkRLock
	VkCondWait
	VkCondSignal
	VkCondBroadcast
	VkWgAdd
	VkWgWait
	VkAtomic
	VkGosched
	VkSleep
	VkUser
	VkUnlock
	VkMapIter
	VkChoose
	VkQuiesce
	VkSpawn
	VkTimer
	VkNewTimer
	VkWake
	VkNow
)

type VerifThread struct {
	gp       guintptr
	State    uint8
	Kind     uint8
	Mode     uint8 // quiesce mode
	Woken    bool
	Local    bool // the next step runs only code local to the thread
	NAlt     int32
	Choice   int32
	Parent   int32 // index of the spawning thread, -1 for the root, -2 for a timer
	ChildIdx int32
	NChild   int32
	NRand    int32
	Obj      uintptr
	Hash     uint64
	Ident    uint64 // canonical identity (spawn path)
	PC       uintptr
	StartPC  uintptr
}

var (
	VerifT        [VerifMaxThreads]VerifThread
	VerifN        int32
	VerifLast     int32
	VerifTrace    bool
	VerifRand     uint64 // value handed out by rand() to controlled goroutines
	VerifRepo     string // package prefix of the code whose map iterations branch
	VerifCrash    any
	VerifCrashS   string
	VerifOverflow bool

	verifCur    int32 // vid of the running controlled thread
	verifCtl    guintptr
	verifFiring bool
	verifFireH  uint64
	verifFireN  int32
	verifActive bool
	verifMapOff uint64
	verifEpoch  uint32
	verifObjKey [verifObjSize]uintptr
	verifObjEp  [verifObjSize]uint32
	verifObjH   [verifObjSize]uint64
	verifObjR   [verifObjSize]uint64

	verifNow   int64
	verifTm    [verifMaxTimers]verifTimerRec
	verifTmN   int32
	verifTmSeq int64
)

type verifTimerRec struct {
	t      *timeTimer
	when   int64
	period int64
	f      func(arg any, seq uintptr, delay int64)
	arg    any
	c      *hchan
	gp     guintptr // sleeping goroutine
	seq    int64
	hash   uint64
	used   bool
}

func verifMix(a, b uint64) uint64 {
	x := a*0x9e3779b97f4a7c15 ^ (b + 0x7f4a7c15f39cc060 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 29
	x *= 0xff51afd7ed558ccd
	x ^= x >> 32
	return x
}

// ---------------------------------------------------------------- objects

func verifObj(a uintptr) int {
	h := uint64(a) * 0x9e3779b97f4a7c15
	i := int(h>>40) & (verifObjSize - 1)
	for n := 0; n < verifObjSize; n++ {
		if verifObjEp[i] != verifEpoch {
			verifObjEp[i] = verifEpoch
			verifObjKey[i] = a
			verifObjR[i] = 0
			verifObjH[i] = verifMix(verifCurHash(), 0x55aa)
			return i
		}
		if verifObjKey[i] == a {
			return i
		}
		i = (i + 1) & (verifObjSize - 1)
	}
	VerifOverflow = true
	return 0
}

func verifCurHash() uint64 {
	if verifCur > 0 {
		return VerifT[verifCur-1].Hash
	}
	return verifFireH
}

func verifSetCurHash(h uint64) {
	if verifCur > 0 {
		VerifT[verifCur-1].Hash = h
	} else {
		verifFireH = h
	}
}

func verifOpW(a uintptr, kind uint64) {
	i := verifObj(a)
	h := verifMix(verifMix(verifCurHash(), verifObjH[i]+kind), verifObjR[i])
	verifSetCurHash(h)
	verifObjH[i] = verifMix(h, 0x1234567)
	verifObjR[i] = 0
}

func verifOpR(a uintptr, kind uint64) {
	i := verifObj(a)
	h := verifMix(verifCurHash(), verifObjH[i]+kind*3+1)
	verifSetCurHash(h)
	verifObjR[i] += verifMix(h, 0x777)
}

func verifMixCur(v uint64) {
	verifSetCurHash(verifMix(verifCurHash(), v))
}

// ---------------------------------------------------------------- control

func verifThreadOf(gp *g) *VerifThread {
	return &VerifT[gp.vid-1]
}

// on reports whether the calling goroutine is controlled.
//
//go:nosplit
func verifOn() bool {
	gp := getg()
	return gp.vid > 0 && gp == gp.m.curg
}

func verifCan(gp *g) bool {
	return gp.vid > 0 && gp.vnp == 0 && gp == gp.m.curg && gp.m.locks == 0
}

func verifReadyReal(gp *g) {
	mp := acquirem()
	casgstatus(gp, _Gwaiting, _Grunnable)
	runqput(mp.p.ptr(), gp, true)
	releasem(mp)
}

// verifReady is called from ready() for a controlled goroutine.
func verifReady(gp *g) {
	t := verifThreadOf(gp)
	if t.State == VsBlocked {
		t.State = VsEnabled
		switch t.Kind {
		case VkSend, VkRecv, VkSelect, VkCondWait, VkWgWait, VkSleep:
			t.Local = true
		}
		t.Kind = VkWake
		t.Woken = true
		t.Hash = verifMix(t.Hash, verifMix(verifCurHash(), 0xabcd))
	}
}

// verifParked is called on g0 when a controlled goroutine has parked.
func verifParked(gp *g) {
	if gp.vid != verifCur {
		throw("verif: parked goroutine is not current")
	}
	t := verifThreadOf(gp)
	if t.State == VsRunning {
		t.State = VsBlocked
	}
	verifCur = 0
	verifReadyReal(verifCtl.ptr())
}

// verifExited is called on g0 when a controlled goroutine has finished.
func verifExited(vid int32) {
	t := &VerifT[vid-1]
	t.State = VsDead
	t.gp = 0
	verifCur = 0
	verifReadyReal(verifCtl.ptr())
}

func verifRegister(newg *g, parent *g) {
	if VerifN >= VerifMaxThreads {
		throw("verif: too many goroutines")
	}
	i := VerifN
	VerifN++
	t := &VerifT[i]
	*t = VerifThread{}
	t.gp.set(newg)
	t.State = VsEnabled
	t.Kind = VkStart
	t.Local = true
	t.StartPC = newg.startpc
	newg.vid = i + 1
	newg.vnp = 0
	if parent != nil && parent.vid > 0 {
		p := verifThreadOf(parent)
		t.Parent = parent.vid - 1
		t.ChildIdx = p.NChild
		p.NChild++
		t.Ident = verifMix(p.Ident, uint64(t.ChildIdx)+17)
		t.Hash = verifMix(p.Hash, t.Ident)
		p.Hash = verifMix(p.Hash, 0x9999)
	} else if verifFiring {
		t.Parent = -2
		t.ChildIdx = verifFireN
		verifFireN++
		t.Ident = verifMix(uint64(t.ChildIdx), 0x7331)
		t.Hash = verifMix(verifFireH, t.Ident)
	} else {
		t.Parent = -1
		t.Ident = verifMix(1, uint64(i))
		t.Hash = t.Ident
	}
}

func verifNewproc(fn *funcval, gp *g, pc uintptr) bool {
	if gp.vid <= 0 && !(verifFiring && gp == verifCtl.ptr()) {
		return false
	}
	newg := newproc1(fn, gp, pc, true, waitReasonZero)
	if isSystemGoroutine(newg, false) {
		verifReadyReal(newg)
		return true
	}
	verifRegister(newg, gp)
	return true
}

// VerifBegin starts a new execution whose root goroutine runs fn.
func VerifBegin(fn func()) {
	verifGoschedFn = verifGosched
	VerifN = 0
	VerifLast = 0
	verifEpoch++
	verifCur = 0
	verifFireN = 0
	verifFireH = 0
	verifNow = 0
	verifTmSeq = 0
	for i := range verifTm[:verifTmN] {
		verifTm[i] = verifTimerRec{}
	}
	verifTmN = 0
	VerifCrash = nil
	VerifCrashS = ""
	verifActive = true
	fv := *(**funcval)(unsafe.Pointer(&fn))
	gp := getg()
	verifCtl.set(gp)
	pc := sys.GetCallerPC()
	systemstack(func() {
		newg := newproc1(fv, gp, pc, true, waitReasonZero)
		verifRegister(newg, nil)
	})
}

// VerifStep lets thread i run until it reaches its next point, blocks or exits.
func VerifStep(i int32) {
	t := &VerifT[i]
	if t.State != VsEnabled && t.State != VsChoice && t.State != VsQuiesce {
		throw("verif: step of a thread that is not enabled")
	}
	t.State = VsRunning
	t.Local = false
	t.Hash = verifMix(t.Hash, 0x57e9)
	verifCur = i + 1
	verifCtl.set(getg())
	gopark(verifStepCommit, unsafe.Pointer(t), waitReasonZero, traceBlockGeneric, 1)
}

func verifStepCommit(gp *g, p unsafe.Pointer) bool {
	t := (*VerifThread)(p)
	verifReadyReal(t.gp.ptr())
	return true
}

// VerifEnd destroys every remaining controlled goroutine.
func VerifEnd() {
	verifActive = false
	for i := int32(0); i < VerifN; i++ {
		t := &VerifT[i]
		gp := t.gp.ptr()
		if gp == nil || t.State == VsDead {
			continue
		}
		gp.vid = 0
		gp.vnp = 0
		systemstack(func() { verifDestroy(gp) })
		t.State = VsDead
		t.gp = 0
	}
	for i := range verifTm[:verifTmN] {
		verifTm[i] = verifTimerRec{}
	}
	verifTmN = 0
	verifCur = 0
}

func verifDestroy(gp *g) {
	if readgstatus(gp) != _Gwaiting {
		throw("verif: destroying a goroutine that is not waiting")
	}
	for sg := gp.waiting; sg != nil; sg = sg.waitlink {
		sg.elem.set(nil)
	}
	gp.waiting = nil
	pp := getg().m.p.ptr()
	if raceenabled {
		racectxend(gp.racectx)
		gp.racectx = 0
	}
	casgstatus(gp, _Gwaiting, _Gdead)
	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))
	gp.m = nil
	gp.lockedm = 0
	gp.preemptStop = false
	gp.paniconfault = false
	gp._defer = nil
	gp._panic = nil
	gp.writebuf = nil
	gp.waitreason = waitReasonZero
	gp.param = nil
	gp.labels = nil
	gp.timer = nil
	gp.bubble = nil
	gp.selectDone.Store(0)
	gp.activeStackChans = false
	gp.parkingOnChan.Store(false)
	gfput(pp, gp)
}

// ---------------------------------------------------------------- points

func verifYield(gp *g, kind uint8, obj uintptr) {
	t := verifThreadOf(gp)
	t.State = VsEnabled
	t.Kind = kind
	t.Obj = obj
	t.Woken = false
	t.NRand = 0
	if VerifTrace {
		t.PC = verifUserPC()
	}
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

func verifChoice(gp *g, kind uint8, n int32) int32 {
	t := verifThreadOf(gp)
	t.State = VsChoice
	t.Kind = kind
	t.NAlt = n
	t.Choice = 0
	if VerifTrace {
		t.PC = verifUserPC()
	}
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	t.Hash = verifMix(t.Hash, uint64(t.Choice)+0xc0ffee)
	return t.Choice
}

// Called through a variable: Gosched may not contain write barriers.
var verifGoschedFn func()

func verifGosched() {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkGosched, 0)
	}
}

// VerifPoint is a scheduling point that counts as a write of obj.
func VerifPoint(obj unsafe.Pointer) {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkUser, uintptr(obj))
	}
	if gp.vid > 0 {
		verifOpW(uintptr(obj), VkUser)
	}
}

// VerifAtomic is the scheduling point before an atomic operation on obj.
func VerifAtomic(obj unsafe.Pointer) {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkAtomic, uintptr(obj))
	}
	if gp.vid > 0 {
		verifOpW(uintptr(obj), VkAtomic)
	}
}

// VerifTouch orders the caller with other touches of obj without yielding.
func VerifTouch(obj unsafe.Pointer) {
	if verifOn() {
		verifOpW(uintptr(obj), VkUser)
	}
}

// VerifMixIn adds v to the calling thread's history.
func VerifMixIn(v uint64) {
	if verifOn() {
		verifMixCur(v)
	}
}

// VerifChoose returns a value in [0,n), all of which are explored.
func VerifChoose(n int) int {
	gp := getg()
	if n <= 1 || gp.vid <= 0 {
		return 0
	}
	return int(verifChoice(gp, VkChoose, int32(n)))
}

// VerifQuiesce blocks the caller until no other thread can run (mode 0),
// or until additionally no timer is pending (mode 1).
func VerifQuiesce(mode int) {
	gp := getg()
	if gp.vid <= 0 {
		return
	}
	t := verifThreadOf(gp)
	t.State = VsQuiesce
	t.Mode = uint8(mode)
	t.Kind = VkQuiesce
	t.Woken = false
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	// Everything that happened so far is ordered before the caller.
	var s uint64
	for i := int32(0); i < VerifN; i++ {
		s += verifMix(VerifT[i].Hash, VerifT[i].Ident)
	}
	t.Hash = verifMix(s, 0xdead)
}

// VerifNoPoint disables (true) or re-enables points in the calling goroutine.
func VerifNoPoint(on bool) {
	gp := getg()
	if on {
		gp.vnp++
	} else {
		gp.vnp--
	}
}

// VerifOn reports whether the caller is a controlled goroutine.
func VerifOn() bool { return verifOn() }

// VerifSelf returns the caller's thread index.
func VerifSelf() int { return int(getg().vid) - 1 }

func VerifSetName() {}

// ---------------------------------------------------------------- channels

func verifLive(q *waitq) bool {
	for sg := q.first; sg != nil; sg = sg.next {
		if sg.isSelect && sg.g.selectDone.Load() != 0 {
			continue
		}
		return true
	}
	return false
}

func verifSendReady(c *hchan) bool {
	return c.closed != 0 || verifLive(&c.recvq) || c.qcount < c.dataqsiz
}

func verifRecvReady(c *hchan) bool {
	return c.qcount > 0 || c.closed != 0 || verifLive(&c.sendq)
}

func verifRecvOp(c *hchan, nb bool) {
	a := uintptr(unsafe.Pointer(c))
	switch {
	case c.closed != 0 && c.qcount == 0:
		verifOpR(a, VkRecv)
	case !verifRecvReady(c):
		if nb || c.elemsize == 0 {
			verifOpR(a, VkRecv+100)
		} else {
			verifOpW(a, VkRecv+200)
		}
	default:
		verifOpW(a, VkRecv)
	}
}

func verifSendOp(c *hchan, nb bool) {
	a := uintptr(unsafe.Pointer(c))
	if nb && !verifSendReady(c) {
		verifOpR(a, VkSend+100)
		return
	}
	verifOpW(a, VkSend)
}

func verifSend(c *hchan, block bool) {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkSend, uintptr(unsafe.Pointer(c)))
	}
	if gp.vid > 0 || verifFiring {
		verifSendOp(c, !block)
	}
}

func verifRecv(c *hchan, block bool) {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkRecv, uintptr(unsafe.Pointer(c)))
	}
	if gp.vid > 0 {
		verifRecvOp(c, !block)
	}
}

func verifClose(c *hchan) {
	gp := getg()
	if verifCan(gp) {
		verifYield(gp, VkClose, uintptr(unsafe.Pointer(c)))
	}
	if gp.vid > 0 {
		verifOpW(uintptr(unsafe.Pointer(c)), VkClose)
	}
}

// verifSelect yields before a select and fixes the order in which its cases
// are polled; when several are ready, which one is taken is a choice point.
func verifSelect(gp *g, scases []scase, pollorder []uint16, nsends int, block bool) {
	if verifCan(gp) {
		verifYield(gp, VkSelect, 0)
	}
	// source order
	n := 0
	for i := range scases {
		if scases[i].c != nil {
			pollorder[n] = uint16(i)
			n++
		}
	}
	nready := int32(0)
	for _, ci := range pollorder {
		if verifCaseReady(scases, int(ci), nsends) {
			nready++
		}
	}
	switch {
	case nready == 0:
		for _, ci := range pollorder {
			c := scases[ci].c
			if int(ci) < nsends {
				verifSendOp(c, !block)
			} else {
				verifRecvOp(c, !block)
			}
		}
		return
	}
	pick := int32(0)
	if nready > 1 && verifCan(gp) {
		pick = verifChoice(gp, VkSelect, nready)
	}
	k := int32(0)
	for j, ci := range pollorder {
		if verifCaseReady(scases, int(ci), nsends) {
			if k == pick {
				copy(pollorder[1:j+1], pollorder[:j])
				pollorder[0] = ci
				c := scases[ci].c
				verifMixCur(uint64(ci) + 0x5e1)
				if int(ci) < nsends {
					verifSendOp(c, false)
				} else {
					verifRecvOp(c, false)
				}
				return
			}
			k++
		}
	}
}

func verifCaseReady(scases []scase, ci int, nsends int) bool {
	c := scases[ci].c
	if ci < nsends {
		return verifSendReady(c)
	}
	return verifRecvReady(c)
}

// ---------------------------------------------------------------- sync

//go:linkname sync_verifPoint sync.runtime_verifPoint
func sync_verifPoint(kind uint8, a unsafe.Pointer) {
	gp := getg()
	if gp.vid <= 0 {
		return
	}
	if verifCan(gp) && verifCallerOK() {
		verifYield(gp, kind, uintptr(a))
	}
	verifOpW(uintptr(a), uint64(kind))
}

//go:linkname sync_verifTouch sync.runtime_verifTouch
func sync_verifTouch(kind uint8, a unsafe.Pointer) {
	if getg().vid > 0 {
		verifOpW(uintptr(a), uint64(kind)+50)
	}
}

func verifHasPrefix(s, p string) bool {
	return len(s) >= len(p) && s[:len(p)] == p
}

type verifPCRec struct {
	pc uintptr
	ok bool
}

var verifPCs [1024]verifPCRec

// verifCallerOK reports whether the code that called into package sync is
// code under test (and not a cache inside the standard library).
func verifCallerOK() bool {
	var pcs [12]uintptr
	n := fpTracebackPCs(unsafe.Pointer(getfp()), pcs[:])
	for _, pc := range pcs[:n] {
		slot := &verifPCs[(pc>>1)&1023]
		if slot.pc == pc {
			return slot.ok
		}
		fi := findfunc(pc - 1)
		if !fi.valid() {
			return false
		}
		name := funcname(fi)
		if verifHasPrefix(name, "runtime.") {
			continue
		}
		if verifHasPrefix(name, "sync.") {
			if verifHasPrefix(name, "sync.(*Pool)") || verifHasPrefix(name, "sync.(*Map)") {
				return false
			}
			continue
		}
		ok := verifUserCode(name)
		slot.pc = pc
		slot.ok = ok
		return ok
	}
	return false
}

func verifUserCode(name string) bool {
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			for j := 0; j < i; j++ {
				if name[j] == '.' {
					return true
				}
			}
			return verifHasPrefix(name, "verifmc/")
		}
	}
	return verifHasPrefix(name, "main.") || verifHasPrefix(name, "context.")
}

func verifUserPC() uintptr {
	var pcs [16]uintptr
	n := fpTracebackPCs(unsafe.Pointer(getfp()), pcs[:])
	for _, pc := range pcs[:n] {
		fi := findfunc(pc - 1)
		if !fi.valid() {
			continue
		}
		name := funcname(fi)
		if verifHasPrefix(name, "runtime.") || verifHasPrefix(name, "sync.") || verifHasPrefix(name, "sync/") ||
			verifHasPrefix(name, "context.") || verifHasPrefix(name, "time.") {
			continue
		}
		return pc
	}
	return 0
}

// ---------------------------------------------------------------- map order

func verifMapIter(m *maps.Map, pc uintptr) {
	gp := getg()
	verifMapOff = 0
	if !verifCan(gp) || VerifRepo == "" || m == nil {
		return
	}
	n := m.Used()
	if n < 2 {
		return
	}
	fi := findfunc(pc - 1)
	if !fi.valid() {
		return
	}
	if !verifHasPrefix(funcname(fi), VerifRepo) {
		return
	}
	if n > 8 {
		n = 8
	}
	off := uint64(verifChoice(gp, VkMapIter, int32(n)))
	verifMapOff = off
}

//go:linkname maps_verifIterRand internal/runtime/maps.verifIterRand
func maps_verifIterRand() uint64 {
	if verifOn() || verifActive {
		return verifMapOff
	}
	return rand()
}

func verifRandOn() bool {
	gp := getg()
	return gp.vid > 0 && gp == gp.m.curg
}

func verifRandVal() uint64 {
	t := verifThreadOf(getg())
	t.NRand++
	if t.NRand > 16 {
		return verifMix(uint64(t.NRand), 99)
	}
	return VerifRand
}

// ---------------------------------------------------------------- time

const verifEpochSec = 1700000000
const verifMonoBase = 1 << 40

//go:nosplit
func verifTimeOn() bool {
	gp := getg()
	return verifActive && (gp.vid > 0 || verifFiring)
}

func verifNowVal() int64 {
	if verifCur > 0 {
		verifMixCur(uint64(verifNow) ^ 0x4e4f57)
	}
	return verifNow
}

// VerifNow is the virtual clock, in nanoseconds since the execution began.
func VerifNow() int64 { return verifNow }

func verifAddTimer(r verifTimerRec) {
	slot := int32(-1)
	for i := int32(0); i < verifTmN; i++ {
		if !verifTm[i].used {
			slot = i
			break
		}
	}
	if slot < 0 {
		if verifTmN >= verifMaxTimers {
			throw("verif: too many timers")
		}
		slot = verifTmN
		verifTmN++
	}
	verifTmSeq++
	r.seq = verifTmSeq
	r.used = true
	if r.when < verifNow {
		r.when = verifNow
	}
	verifMixCur(uint64(r.when) ^ 0x71a3)
	r.hash = verifCurHash()
	verifTm[slot] = r
}

func verifNewTimer(t *timeTimer, when, period int64, f func(arg any, seq uintptr, delay int64), arg any, c *hchan) {
	t.init = true
	verifAddTimer(verifTimerRec{t: t, when: when - verifMonoBase, period: period, f: f, arg: arg, c: c})
}

func verifFindTimer(t *timeTimer) int32 {
	for i := int32(0); i < verifTmN; i++ {
		if verifTm[i].used && verifTm[i].t == t {
			return i
		}
	}
	return -1
}

type verifTmKeep struct {
	t   *timeTimer
	rec verifTimerRec
}

// Timers that fired or were stopped and may be reset.
var verifOld []verifTmKeep

func verifStopTimer(t *timeTimer) bool {
	verifOpW(uintptr(unsafe.Pointer(t)), VkTimer)
	i := verifFindTimer(t)
	if i < 0 {
		// fired: a stopped timer's channel holds no stale value
		if c := (*hchan)(t.vch); c != nil && c.qcount > 0 {
			verifDrain(c)
			return true
		}
		return false
	}
	verifTm[i] = verifTimerRec{}
	return true
}

func verifDrain(c *hchan) {
	for c.qcount > 0 {
		typedmemclr(c.elemtype, chanbuf(c, c.recvx))
		c.recvx++
		if c.recvx == c.dataqsiz {
			c.recvx = 0
		}
		c.qcount--
	}
}

func verifResetTimer(t *timeTimer, when, period int64) bool {
	was := verifStopTimer(t)
	verifAddTimer(verifTimerRec{t: t, when: when - verifMonoBase, period: period, f: t.vf, arg: t.varg, c: (*hchan)(t.vch)})
	return was
}

func verifSleep(ns int64) {
	gp := getg()
	if ns <= 0 {
		return
	}
	verifThreadOf(gp).Kind = VkSleep
	verifAddTimer(verifTimerRec{when: verifNow + ns, gp: guintptr(unsafe.Pointer(gp))})
	gopark(nil, nil, waitReasonSleep, traceBlockSleep, 1)
}

// VerifTimers reports how many timers are due first (at the same instant) and
// in how many nanoseconds; n is 0 if none is pending.
func VerifTimers() (n int, in int64) {
	best := int64(-1)
	for i := int32(0); i < verifTmN; i++ {
		r := &verifTm[i]
		if !r.used {
			continue
		}
		if best < 0 || r.when < best {
			best = r.when
			n = 1
		} else if r.when == best {
			n++
		}
	}
	if n > 0 {
		in = best - verifNow
	}
	return
}

// VerifTimersHash summarises the pending timers.
func VerifTimersHash() uint64 {
	return uint64(verifNow)
}

// VerifFire advances the clock to the earliest deadline and fires the k-th of
// the timers due then (in creation order).
func VerifFire(k int) {
	best := int64(-1)
	for i := int32(0); i < verifTmN; i++ {
		r := &verifTm[i]
		if r.used && (best < 0 || r.when < best) {
			best = r.when
		}
	}
	last := int64(-1)
	sel := int32(-1)
	for ; k >= 0; k-- {
		sel = -1
		for i := int32(0); i < verifTmN; i++ {
			r := &verifTm[i]
			if !r.used || r.when != best || r.seq <= last {
				continue
			}
			if sel < 0 || r.seq < verifTm[sel].seq {
				sel = i
			}
		}
		if sel < 0 {
			throw("verif: no such timer")
		}
		last = verifTm[sel].seq
	}
	r := verifTm[sel]
	verifTm[sel] = verifTimerRec{}
	verifNow = best
	verifCtl.set(getg())
	verifFiring = true
	verifFireH = verifMix(r.hash, uint64(best)+3)
	if r.t != nil {
		verifOpW(uintptr(unsafe.Pointer(r.t)), VkTimer)
	}
	if r.period > 0 {
		nr := r
		nr.when = best + r.period
		verifAddTimer(nr)
	}
	if r.gp != 0 {
		gp := r.gp.ptr()
		verifReady(gp)
	} else {
		r.f(r.arg, 0, 0)
	}
	verifFiring = false
}

// VerifRealNano is the real monotonic clock.
func VerifRealNano() int64 { return nanotime() }

// ---------------------------------------------------------------- crashes

func verifPanicked(v any) {
	VerifCrash = v
	verifCrashPark()
}

//go:nosplit
func verifFatal(s string) {
	VerifCrashS = s
	verifCrashPark()
}

func verifCrashPark() {
	gp := getg()
	t := verifThreadOf(gp)
	t.State = VsCrashed
	if VerifTrace {
		t.PC = verifUserPC()
	}
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	throw("verif: crashed goroutine resumed")
}

// VerifStackOf returns up to len(pcs) frames of thread i.
func VerifStackOf(i int32, pcs []uintptr) int {
	gp := VerifT[i].gp.ptr()
	if gp == nil {
		return 0
	}
	n := 0
	systemstack(func() {
		var u unwinder
		u.initAt(^uintptr(0), ^uintptr(0), 0, gp, 0)
		n = tracebackPCs(&u, 0, pcs)
	})
	return n
}
