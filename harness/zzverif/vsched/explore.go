package vsched

import (
	"fmt"
	"sort"
	"time"
)

// Opts bounds an exploration.
type Opts struct {
	Preempt  int           // switches away from a runnable goroutine
	Delays   bool          // Preempt bounds every deviation from the default schedule, not only preemptions
	Faults   int           // non-default environment answers
	MaxSteps int           // per execution (0: 20000)
	MaxExecs int64         // 0: unlimited
	Horizon  time.Duration // virtual time per execution (0: 1h)
	Deadline time.Time     // wall clock; zero: none
	Shard    int
	Shards   int
	TimerCh  bool // a pending timer may fire early, as a preemption
	// BadEnds lists verdicts other than fail/panic that count as violations.
	DeadlockOK bool
	HorizonOK  bool
	StepsOK    bool
	MaxViol    int
	Known      func(kind, msg string) bool // violations listed as known findings
	OnReset    func()                      // run before every execution, outside it
}

// Violation is one failing execution.
type Violation struct {
	Choices []int32
	Kind    string
	Msg     string
	Trace   []string
	Known   bool
}

// Result summarises an exploration.
type Result struct {
	Execs      int64
	States     int64 // distinct decision nodes plus complete executions
	Steps      int64 // scheduler transitions
	Outcomes   map[string]int64
	Violations []Violation
	Exhaustive bool
	Truncated  int64 // executions cut at the step limit
	MaxPoints  int
	Races      int
	Diverged   int64 // executions whose replay did not repeat (inconclusive)
	Distinct   int   // distinct states recorded with Visited
}

var seen map[string]int

// Visited records a state key with the number of steps still to be taken from
// it; true when it was already expanded with at least as many steps left (the
// caller then prunes). The key must determine every future behaviour.
func Visited(key string, remaining int) bool {
	// A replayed prefix re-creates states it created before: only states past
	// the prefix can be new.
	if r.npoints < len(r.prefix) {
		return false
	}
	p, f := r.cost(r.npoints)
	key = fmt.Sprintf("%d,%d|%s", p, f, key)
	if left, ok := seen[key]; ok && left >= remaining {
		return true
	}
	seen[key] = remaining
	return false
}

// SeenCount is the number of distinct states recorded so far.
func SeenCount() int { return len(seen) }

var exclusive *run

// exec runs body once under the given choice prefix.
func exec(body func(), prefix []int32, o *Opts, trace bool) *run {
	x := exclusive
	if x == nil {
		x = &run{}
		exclusive = x
	}
	for i := 0; i < x.nthreads; i++ {
		x.threads[i] = nil
	}
	x.nthreads, x.cur, x.killing, x.npoints, x.steps, x.clock, x.timerSeq = 0, nil, false, 0, 0, 0, 0
	for i := range x.timers {
		if x.timers[i].seq != 0 {
			x.timers[i] = timerRec{}
		}
	}
	for i := 0; i < x.nclosed; i++ {
		x.closed[i] = nil
	}
	x.nclosed = 0
	x.end, x.failMsg, x.panicMsg, x.outcome, x.trace, x.traceLog = endNormal, "", "", "", trace, nil
	x.diverged, x.pruned, x.calm, x.logSeq = false, false, false, 0
	x.prefix = prefix
	x.maxSteps = o.MaxSteps
	if x.maxSteps == 0 {
		x.maxSteps = 20000
	}
	x.horizon = int64(o.Horizon)
	if x.horizon == 0 {
		x.horizon = int64(time.Hour)
	}
	x.timerCh, x.delays = o.TimerCh, o.Delays
	x.exitCh = make(chan struct{})
	x.mainDone = make(chan struct{}, 1)
	if o.OnReset != nil {
		o.OnReset()
	}
	generation++
	r = x
	t := x.spawn(body, false)
	x.cur = t
	t.wake <- struct{}{}
	<-x.mainDone
	// tear down: x.killing is set, everybody else is parked or about to exit
	// the thread that stopped the execution is running its deferred calls and
	// reports on exitCh; the rest are woken one at a time.
	<-x.exitCh
	for i := 0; i < x.nthreads; i++ {
		th := x.threads[i]
		for !th.done {
			select {
			case th.wake <- struct{}{}:
				<-x.exitCh
			case <-x.exitCh:
			}
		}
	}
	r = nil
	return x
}

func (x *run) cost(i int) (p, f int) {
	for k := 0; k < i; k++ {
		pt := &x.points[k]
		if pt.choice != 0 {
			switch pt.kind {
			case kSched:
				if pt.curOn || x.delays {
					p++
				}
			case kFault:
				f++
			}
		}
	}
	return
}

// Explore enumerates every execution of body within the bounds.
func Explore(body func(), o Opts) Result {
	runMu.Lock()
	defer runMu.Unlock()
	seen = map[string]int{}
	if o.MaxViol == 0 {
		o.MaxViol = 3
	}
	res := Result{Outcomes: map[string]int64{}, Exhaustive: true}
	var prefix []int32
	var runs int64
	nviol := 0
	knownSeen := map[string]bool{}
	var costP, costF, devs []int
	for {
		re := raceErrors()
		x := exec(body, prefix, &o, false)
		nd := 0
		for _, c := range prefix {
			if c != 0 {
				nd++
			}
		}
		// every worker runs the executions with fewer than two deviations; the
		// first one counts them
		if nd > 1 || o.Shard == 0 {
			res.Execs++
			res.Steps += int64(x.steps)
			res.States += int64(x.npoints-len(prefix)) + 1
		}
		runs++
		if x.npoints > res.MaxPoints {
			res.MaxPoints = x.npoints
		}
		if x.end != endPruned && x.end != endDiverged && (nd > 1 || o.Shard == 0) {
			res.Outcomes[endNames[x.end]+":"+x.outcome]++
		}
		if raceErrors() > re {
			res.Races++
			if x.end == endNormal {
				x.end, x.failMsg = endFail, "data race detected (see race log)"
			}
		}
		if bad, kind := classify(x, &o); bad {
			ch := make([]int32, x.npoints)
			for i := range ch {
				ch[i] = x.points[i].choice
			}
			kn := o.Known != nil && o.Known(kind, x.failMsg)
			if !kn || (!knownSeen[x.failMsg] && len(knownSeen) < 50) {
				res.Violations = append(res.Violations, Violation{Choices: ch, Kind: kind, Msg: x.failMsg, Known: kn})
			}
			if kn {
				knownSeen[x.failMsg] = true
			} else if nviol++; nviol >= o.MaxViol {
				res.Exhaustive = false
				return res
			}
		}
		if x.end == endDiverged {
			res.Diverged++
			res.Exhaustive = false
		}
		if x.end == endSteps {
			res.Truncated++
			res.Exhaustive = false
		}
		// next prefix: the deepest decision with an alternative in bounds
		n := x.npoints
		if cap(costP) < n+1 {
			costP = make([]int, 2*n+2)
			costF = make([]int, 2*n+2)
			devs = make([]int, 2*n+2)
		}
		costP, costF, devs = costP[:n+1], costF[:n+1], devs[:n+1]
		costP[0], costF[0], devs[0] = 0, 0, 0
		for k := 0; k < n; k++ {
			pt := &x.points[k]
			costP[k+1], costF[k+1], devs[k+1] = costP[k], costF[k], devs[k]
			if pt.choice != 0 {
				devs[k+1]++
				if pt.kind == kSched && (pt.curOn || o.Delays) {
					costP[k+1]++
				} else if pt.kind == kFault {
					costF[k+1]++
				}
			}
		}
		found := false
		for i := n - 1; i >= 0; i-- {
			pt := &x.points[i]
			if pt.choice+1 >= pt.n {
				continue
			}
			p, f := costP[i], costF[i]
			switch pt.kind {
			case kSched:
				if pt.curOn || o.Delays {
					p++
				}
			case kFault:
				f++
			}
			if p > o.Preempt || f > o.Faults {
				continue
			}
			alt := pt.choice + 1
			if o.Shards > 1 && devs[i] == 1 {
				// executions are dealt out by their first two deviations
				for ; alt < pt.n && !x.mine(i, alt, &o); alt++ {
				}
				if alt == pt.n {
					continue
				}
			}
			np := make([]int32, i+1)
			for k := 0; k < i; k++ {
				np[k] = x.points[k].choice
			}
			np[i] = alt
			prefix = np
			found = true
			break
		}
		if !found {
			res.Distinct = len(seen)
			return res
		}
		if o.MaxExecs > 0 && runs >= o.MaxExecs {
			res.Exhaustive = false
			return res
		}
		if !o.Deadline.IsZero() && runs&63 == 0 && time.Now().After(o.Deadline) {
			res.Exhaustive = false
			return res
		}
	}
}

// mine reports whether this worker owns the subtree that takes alt at point i.
func (x *run) mine(i int, alt int32, o *Opts) bool {
	h := uint64(14695981039346656037)
	for k := 0; k <= i; k++ {
		c := x.points[k].choice
		if k == i {
			c = alt
		}
		if c != 0 {
			h = (h ^ uint64(k)) * 1099511628211
			h = (h ^ uint64(c)) * 1099511628211
			h ^= h >> 29
		}
	}
	h *= 0x9E3779B97F4A7C15
	return int((h>>33)%uint64(o.Shards)) == o.Shard
}

func classify(x *run, o *Opts) (bool, string) {
	switch x.end {
	case endFail:
		return true, "fail"
	case endPanic:
		return true, "panic"
	case endDeadlock:
		return !o.DeadlockOK, "deadlock"
	case endHorizon:
		return !o.HorizonOK, "no-progress"
	case endSteps:
		return false, ""
	}
	return false, ""
}

// Replay runs one recorded execution with tracing.
func Replay(body func(), choices []int32, o Opts) (Violation, string) {
	runMu.Lock()
	defer runMu.Unlock()
	seen = map[string]int{}
	re := raceErrors()
	x := exec(body, choices, &o, true)
	if raceErrors() > re && x.end == endNormal {
		x.end, x.failMsg = endFail, "data race detected (see race log)"
	}
	bad, kind := classify(x, &o)
	v := Violation{Choices: choices, Msg: x.failMsg, Trace: x.traceLog}
	if bad {
		v.Kind = kind
	}
	return v, endNames[x.end] + ":" + x.outcome
}

// OutcomeList renders outcomes deterministically.
func (res *Result) OutcomeList() []string {
	var out []string
	for k, n := range res.Outcomes {
		out = append(out, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(out)
	return out
}
