// Package vsched is a controlled scheduler and exhaustive explorer for Go code
// whose synchronisation operations were redirected to the shims next to it.
//
// Exactly one managed goroutine runs at a time. Every synchronisation
// operation first calls Point, where the explorer picks who runs next; the
// explorer enumerates those picks depth-first, bounded by the number of
// preemptions (switches away from a goroutine that could have continued), so
// one call of Explore covers every interleaving within the bound.
//
// The core avoids maps and append in code that runs on behalf of a managed
// goroutine, so that the race detector (see race_on.go) sees only the
// happens-before edges of the program under test.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

const (
	maxThreads = 96
	maxPoints  = 1 << 15
	maxTimers  = 512
	maxClosed  = 1024
	maxWaits   = 12
)

type waitEntry struct {
	ch    unsafe.Pointer
	send  bool
	index int
	val   any
}

type thread struct {
	id      int
	wake    chan struct{}
	pred    func() bool // non-nil: blocked until pred()
	done    bool
	daemon  bool
	label   string
	waits   [maxWaits]waitEntry // unbuffered rendezvous offers while blocked
	nwaits  int
	matched bool // a partner completed one of the offers
	mIndex  int
	mVal    any
	mSyn    byte // address used for the happens-before edge of a rendezvous
}

type pointRec struct {
	n      int32 // number of options
	choice int32
	kind   int8 // kSched, kData, kFault
	curOn  bool // kSched: option 0 is the running thread itself (others are preemptions)
}

const (
	kSched = iota
	kData
	kFault
)

type timerRec struct {
	active bool
	gen    int64
	when   int64
	seq    int64
	period int64
	fire   func()
}

type run struct {
	threads  [maxThreads]*thread
	nthreads int
	cur      *thread
	killing  bool
	exitCh   chan struct{}
	points   [maxPoints]pointRec
	npoints  int
	prefix   []int32
	steps    int
	maxSteps int
	clock    int64
	timers   [maxTimers]timerRec
	timerSeq int64
	closed   [maxClosed]unsafe.Pointer
	nclosed  int
	horizon  int64
	end      int // endNormal...
	failMsg  string
	panicMsg string
	outcome  string
	trace    bool
	traceLog []string
	mainDone chan struct{}
	diverged bool
	pruned   bool
	wakeups  int
	timerCh  bool // timers may also fire early, as a costed choice
	logSeq   int
	probe    *thread
	delays   bool
	calm     bool // scheduling is fixed: the running thread goes on, then the oldest
}

const (
	endNormal = iota
	endDeadlock
	endSteps
	endPanic
	endFail
	endHorizon
	endPruned
	endDiverged
)

var endNames = [...]string{"normal", "deadlock", "step-limit", "panic", "fail", "horizon", "pruned", "diverged"}

// R is the active run; nil outside an exploration, when every shim passes
// through to the real primitive.
var r *run

// Active reports whether a controlled execution is in progress.
//
//go:norace
func Active() bool { return r != nil }

// Killing reports whether the execution is being torn down; shims then do
// nothing.
//
//go:norace
func killed() bool { return r.killing }

type option struct {
	t     *thread
	timer int // >=0: fire this timer instead of running a thread
}

// enabled fills opts with the runnable threads: the current one first when it
// can continue, then ascending id.
//
//go:norace
func (x *run) enabled(opts *[maxThreads]*thread) (int, bool) {
	n := 0
	curOn := false
	raceDisable()
	x.probe = x.cur
	if x.cur != nil && !x.cur.done && (x.cur.pred == nil || x.cur.pred()) {
		opts[0] = x.cur
		n = 1
		curOn = true
	}
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if t == x.cur || t.done {
			continue
		}
		x.probe = t
		if t.pred == nil || t.pred() {
			opts[n] = t
			n++
		}
	}
	raceEnable()
	return n, curOn
}

// decide records a decision point and returns the chosen option.
//
//go:norace
func (x *run) decide(n int, kind int8, curOn bool) int {
	i := x.npoints
	if i >= maxPoints {
		x.stop(endSteps, "decision limit")
	}
	c := int32(0)
	if i < len(x.prefix) {
		c = x.prefix[i]
		if int(c) >= n {
			x.diverged = true
			x.stop(endDiverged, fmt.Sprintf("replay diverged at point %d: choice %d of %d", i, c, n))
		}
	}
	x.points[i] = pointRec{n: int32(n), choice: c, kind: kind, curOn: curOn}
	x.npoints++
	return int(c)
}

// stop ends the execution from the calling thread with the given verdict.
//
//go:norace
func (x *run) stop(end int, msg string) {
	if x.end == endNormal {
		x.end = end
		x.failMsg = msg
	}
	x.killing = true
	raceDisable()
	select {
	case x.mainDone <- struct{}{}:
	default:
	}
	raceEnable()
	runtime.Goexit()
}

// Point is a scheduling point of the running thread.
//
//go:norace
func Point() {
	x := r
	if x.killing {
		runtime.Goexit()
	}
	x.reschedule()
}

//go:norace
func (x *run) reschedule() {
	if x.calm && x.cur != nil && !x.cur.done && x.cur.pred == nil {
		x.steps++
		if x.steps > x.maxSteps {
			x.stop(endSteps, "step limit")
		}
		return
	}
	var opts [maxThreads]*thread
	for {
		x.steps++
		if x.steps > x.maxSteps {
			x.stop(endSteps, "step limit")
		}
		n, curOn := x.enabled(&opts)
		if n == 0 {
			if x.advance() {
				continue
			}
			x.stop(endDeadlock, x.describeBlocked())
		}
		// optional early timer: one more option, a costed deviation
		te := -1
		nn := n
		if x.timerCh && !x.calm {
			te = x.earliest()
			if te >= 0 {
				nn++
			}
		}
		c := 0
		if nn > 1 && !x.calm {
			c = x.decide(nn, kSched, curOn || n == 0)
		}
		if te >= 0 && c == n {
			x.fireTimer(te)
			continue
		}
		t := opts[c]
		me := x.cur
		if t == me {
			me.pred = nil
			return
		}
		t.pred = nil
		x.cur = t
		x.wakeups++
		raceDisable()
		t.wake <- struct{}{}
		if me == nil || me.done {
			raceEnable()
			return
		}
		<-me.wake
		raceEnable()
		if x.killing {
			runtime.Goexit()
		}
		return
	}
}

// Block suspends the running thread until pred holds and it is chosen.
//
//go:norace
func Block(label string, pred func() bool) {
	x := r
	if x.killing {
		runtime.Goexit()
	}
	x.cur.pred = pred
	x.cur.label = label
	x.reschedule()
}

//go:norace
func (x *run) describeBlocked() string {
	s := ""
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if !t.done {
			s += fmt.Sprintf("T%d blocked in %s; ", t.id, t.label)
		}
	}
	return s
}

//go:norace
func (x *run) earliest() int {
	best := -1
	for i := range x.timers {
		tm := &x.timers[i]
		if !tm.active {
			continue
		}
		if best < 0 || tm.when < x.timers[best].when || (tm.when == x.timers[best].when && tm.seq < x.timers[best].seq) {
			best = i
		}
	}
	return best
}

// advance moves virtual time to the next timer; false when there is none.
//
//go:norace
func (x *run) advance() bool {
	i := x.earliest()
	if i < 0 {
		return false
	}
	if x.timers[i].when > x.horizon {
		x.stop(endHorizon, "virtual-time horizon reached: "+x.describeBlocked())
	}
	x.fireTimer(i)
	return true
}

//go:norace
func (x *run) fireTimer(i int) {
	tm := &x.timers[i]
	if tm.when > x.clock {
		x.clock = tm.when
	}
	f := tm.fire
	if tm.period > 0 {
		x.timerSeq++
		tm.when += tm.period
		tm.seq = x.timerSeq
	} else {
		tm.active = false
	}
	raceDisable()
	f()
	raceEnable()
}

// AddTimer registers fire to run at now+d (then every period).
//
//go:norace
func AddTimer(d, period time.Duration, fire func()) int {
	x := r
	if d < 0 {
		d = 0
	}
	for i := range x.timers {
		if !x.timers[i].active {
			x.timerSeq++
			x.timers[i] = timerRec{active: true, gen: x.timerSeq, when: x.clock + int64(d), seq: x.timerSeq, period: int64(period), fire: fire}
			return i | int(x.timerSeq)<<16
		}
	}
	panic("vsched: too many timers")
}

// StopTimer reports whether the timer was pending.
//
//go:norace
func StopTimer(id int) bool {
	tm := &r.timers[id&0xffff]
	if !tm.active || tm.gen != int64(id>>16) {
		return false
	}
	tm.active = false
	return true
}

// SpawnFromTimer starts the function of an AfterFunc timer as a goroutine.
//
//go:norace
func SpawnFromTimer(f func()) { r.spawn(f, true) }

// Now is the virtual clock in nanoseconds since the start of the execution.
//
//go:norace
func Now() int64 {
	if r == nil {
		return 0
	}
	return r.clock
}

// Advance lets d of virtual time pass for the calling thread.
//
//go:norace
func Sleep(d time.Duration) {
	if r.killing {
		runtime.Goexit()
	}
	if d <= 0 {
		Point()
		return
	}
	x := r
	due := x.clock + int64(d)
	AddTimer(d, 0, func() {})
	Block("sleep", func() bool { return x.clock >= due })
}

// Elapse makes d of virtual time pass at once for everybody, as if every
// thread had been slow. No timer may be due within it.
//
//go:norace
func Elapse(d time.Duration) {
	Point()
	r.clock += int64(d)
}

// Go starts a managed goroutine.
//
//go:norace
func Go(f func()) {
	x := r
	if x == nil {
		go f()
		return
	}
	if x.killing {
		runtime.Goexit()
	}
	x.spawn(f, false)
	Point()
}

//go:norace
func (x *run) spawn(f func(), daemon bool) *thread {
	if x.nthreads >= maxThreads {
		panic("vsched: too many threads")
	}
	t := &thread{id: x.nthreads, wake: make(chan struct{}), daemon: daemon}
	x.threads[x.nthreads] = t
	x.nthreads++
	go x.threadMain(t, f)
	return t
}

//go:norace
func (x *run) threadMain(t *thread, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer x.threadExit(t)
	if x.killing {
		return
	}
	f()
}

//go:norace
func (x *run) threadExit(t *thread) {
	if p := recover(); p != nil && !x.killing {
		if x.end == endNormal {
			x.end = endPanic
			x.panicMsg = fmt.Sprint(p)
			x.failMsg = fmt.Sprintf("panic in T%d: %v", t.id, p)
			if x.trace {
				x.failMsg += "\n" + string(debug.Stack())
			}
		}
		x.killing = true
	}
	t.done = true
	if x.killing {
		raceDisable()
		select {
		case x.mainDone <- struct{}{}:
		default:
		}
		x.exitCh <- struct{}{}
		raceEnable()
		return
	}
	if t.id == 0 {
		x.killing = true
		raceDisable()
		select {
		case x.mainDone <- struct{}{}:
		default:
		}
		x.exitCh <- struct{}{}
		raceEnable()
		return
	}
	// hand over to somebody else
	var ended bool
	func() {
		defer func() {}()
		x.handOver(&ended)
	}()
}

//go:norace
func (x *run) handOver(_ *bool) {
	var opts [maxThreads]*thread
	for {
		x.steps++
		n, _ := x.enabled(&opts)
		if n == 0 {
			i := x.earliest()
			if i >= 0 && x.timers[i].when <= x.horizon {
				x.fireTimer(i)
				continue
			}
			if x.end == endNormal {
				if i >= 0 {
					x.end = endHorizon
				} else {
					x.end = endDeadlock
				}
				x.failMsg = x.describeBlocked()
			}
			x.finishFromExit()
			return
		}
		c := 0
		if n > 1 && !x.calm {
			if x.npoints >= maxPoints {
				x.end = endSteps
				x.finishFromExit()
				return
			}
			i := x.npoints
			if i < len(x.prefix) {
				c = int(x.prefix[i])
				if c >= n {
					x.end = endDiverged
					x.diverged = true
					x.failMsg = "replay diverged"
					x.finishFromExit()
					return
				}
			}
			x.points[i] = pointRec{n: int32(n), choice: int32(c), kind: kSched, curOn: false}
			x.npoints++
		}
		t := opts[c]
		t.pred = nil
		x.cur = t
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
		return
	}
}

//go:norace
func (x *run) finishFromExit() {
	x.killing = true
	raceDisable()
	select {
	case x.mainDone <- struct{}{}:
	default:
	}
	x.exitCh <- struct{}{}
	raceEnable()
}

// Choose is an environment decision with n alternatives, all explored.
//
//go:norace
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r.killing {
		runtime.Goexit()
	}
	return r.decide(n, kData, false)
}

// ChooseFault is an environment decision whose alternatives other than 0 count
// against the fault bound.
//
//go:norace
func ChooseFault(n int) int {
	if n <= 1 {
		return 0
	}
	if r.killing {
		runtime.Goexit()
	}
	return r.decide(n, kFault, false)
}

// Fail ends the execution with a violation.
//
//go:norace
func Fail(format string, args ...any) {
	if r.killing {
		runtime.Goexit()
	}
	r.stop(endFail, fmt.Sprintf(format, args...))
}

// Failed is Fail without ending the caller (for use in deferred code).
//
//go:norace
func Prune() {
	r.stop(endPruned, "")
}

// Outcome appends to the observation string of this execution; distinct
// outcomes are counted to expose vacuous exploration.
//
//go:norace
func Outcome(format string, args ...any) { r.outcome += fmt.Sprintf(format, args...) + ";" }

// Tracef appends a line to the trace kept when replaying.
//
//go:norace
func Tracef(format string, args ...any) {
	if r != nil && r.trace {
		r.traceLog = append(r.traceLog, fmt.Sprintf("T%d ", r.cur.id)+fmt.Sprintf(format, args...))
	}
}

// Calm fixes the schedule (true) or makes it a choice again (false). A scenario
// uses it around phases in which the interleaving is not what it explores.
//
//go:norace
func Calm(on bool) {
	if r != nil {
		r.calm = on
	}
}

// ThreadID is the id of the running managed goroutine.
//
//go:norace
func ThreadID() int { return r.cur.id }

// Stamp is a logical clock that increases with every call: used to order the
// call and return events of an operation history.
//
//go:norace
func Stamp() int { r.logSeq++; return r.logSeq }

// Live is the number of managed goroutines that have not finished, the caller
// included.
//
//go:norace
func Live() int {
	n := 0
	for i := 0; i < r.nthreads; i++ {
		if !r.threads[i].done {
			n++
		}
	}
	return n
}

// Quiesce blocks the caller until no other managed goroutine can run without
// virtual time passing, and no timer is due now.
//
//go:norace
func Quiesce() {
	x := r
	me := x.cur
	Block("quiesce", func() bool {
		for i := 0; i < x.nthreads; i++ {
			t := x.threads[i]
			if t == me || t.done {
				continue
			}
			if t.pred == nil || (t.label != "quiesce" && t.pred()) {
				return false
			}
		}
		// A timer due at this instant fires now: whose timer of one
		// instant was set first is no matter of what the code does.
		i := x.earliest()
		return i < 0 || x.timers[i].when > x.clock
	})
}

// Group joins managed goroutines started by a scenario.
type Group struct{ n, done int }

//go:norace
func (g *Group) Go(f func()) {
	g.n++
	x := r
	x.spawn(func() {
		defer g.finish()
		f()
	}, false)
}

//go:norace
func (g *Group) finish() {
	RaceRelease(unsafe.Pointer(g))
	g.done++
}

//go:norace
func (g *Group) Wait() {
	Block("join", func() bool { return g.done == g.n })
	RaceAcquire(unsafe.Pointer(g))
}

var runMu sync.Mutex

var generation int

// Generation numbers executions; package-level state of the shims is dropped
// when it changes.
//
//go:norace
func Generation() int { return generation }

// Killed reports that the execution is being torn down.
//
//go:norace
func Killed() bool { return r != nil && r.killing }

// PointIfActive is Point inside an exploration and nothing outside one.
//
//go:norace
func PointIfActive() {
	if r != nil {
		Point()
	}
}

// Yield stands for runtime.Gosched; the type parameter only keeps the import
// of package runtime used.
func Yield[T any]() { PointIfActive() }

// Workers is what runtime.NumCPU and GOMAXPROCS report to rewritten code: the
// size of worker pools, which the real machine must not decide.
var Workers = 1

// NumCPU stands in for runtime.NumCPU.
func NumCPU[T any]() int { return Workers }

// GOMAXPROCS stands in for runtime.GOMAXPROCS.
func GOMAXPROCS[T any](int) int { return Workers }

// RaceOn runs f, called from a timer, with its synchronisation visible to the
// race detector (timer callbacks are otherwise invisible to it).
//
//go:norace
func RaceOn(f func()) {
	raceEnable()
	f()
	raceDisable()
}
