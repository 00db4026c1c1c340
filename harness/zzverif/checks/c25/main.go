// C25: background expiration, its triggers, its counters, and Stop.
package main

import (
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vctx"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

var bg = context.Background()

const (
	ttl   = 10 * time.Second
	every = 25 * time.Second
	quiet = 4 * time.Second
)

// ent is when an entry expires; 0 never.
type ent struct {
	ttl  time.Duration
	last int64
}

func (e ent) expired() bool { return e.ttl > 0 && hc.Now()-e.last > int64(e.ttl) }

type env struct {
	h        *hc.Cache
	c        hc.Cfg
	m        map[string]ent // what may be there
	start    int64
	accepted int64 // when the last expiration run was triggered
	removed  int64 // by expiration, as observed
	evicted  int64
	loops    int64
	stopped  bool
}

// stat is the sum of a counter.
func (e *env) stat(name string) int64 {
	if s := e.h.GetStats()[name]; s != nil {
		return s.Sum
	}
	return 0
}

func (e *env) have() []string { return hc.Keys(hc.Items(e.h)) }

// check compares the contents: entries that have not expired are there and no
// others may be; with clean, no expired entry is left.
func (e *env) check(when string, clean bool) {
	have := e.have()
	for _, k := range have {
		x, ok := e.m[k]
		if !ok {
			vsched.Fail("[phantom] %s: %q is there", when, k)
		}
		if clean && x.expired() {
			vsched.Fail("[left] %s: %q has expired and is still there", when, k)
		}
	}
	for k, x := range e.m {
		if slices.Contains(have, k) {
			continue
		}
		if !x.expired() {
			vsched.Fail("[lost] %s: %q has not expired and is gone", when, k)
		}
		e.removed++
		delete(e.m, k)
	}
}

type op struct {
	name string
	do   func(e *env)
}

func set(k string, d time.Duration) op {
	return op{fmt.Sprintf("set %s %v", k, d), func(e *env) {
		if err := e.h.Set(bg, k, "v", d); err != nil {
			vsched.Fail("[set] %v", err)
		}
		e.m[k] = ent{d, hc.Now()}
	}}
}

func wait(d time.Duration) op {
	return op{fmt.Sprint("wait ", d), func(e *env) {
		due := e.c.Expiration > 0 && !e.stopped && (hc.Now()+int64(d)-e.start)/int64(e.c.Expiration) > (hc.Now()-e.start)/int64(e.c.Expiration)
		before := hc.Now()
		vsched.Sleep(d)
		vsched.Quiesce()
		if !due {
			e.check("no expiration was due", false)
			return
		}
		// what had expired at the last tick is gone
		tick := e.start + (hc.Now()-e.start)/int64(e.c.Expiration)*int64(e.c.Expiration)
		for _, k := range e.have() {
			if x := e.m[k]; x.ttl > 0 && tick-x.last > int64(x.ttl) {
				vsched.Fail("[interval] %q expired before the expiration run at %v and is still there", k, time.Duration(tick-before))
			}
		}
		e.check("after an interval", false)
	}}
}

// signal is a trigger, explicit or by reading an expired entry.
func signal(name string, do func(e *env) bool) op {
	return op{name, func(e *env) {
		due := hc.Now()-e.accepted >= int64(e.c.Debounce)
		n := e.stat("expiration_loop_count")
		if !do(e) {
			return
		}
		vsched.Quiesce()
		ran := e.stat("expiration_loop_count") - n
		switch {
		case e.stopped && ran != 0:
			vsched.Fail("[stopped] %s after Stop started an expiration run", name)
		case ran > 1 || ran < 0:
			vsched.Fail("[loops] %s started %d expiration runs", name, ran)
		case !e.stopped && due && ran == 0:
			vsched.Fail("[trigger] %s, %v after the last one with debounce %v, started no expiration run", name, time.Duration(hc.Now()-e.accepted), e.c.Debounce)
		case ran == 1:
			e.accepted = hc.Now()
		}
		e.check(name, ran == 1)
	}}
}

var trigger = signal("trigger", func(e *env) bool { e.h.TriggerExpiration(); return true })

func read(k string, how int) op {
	name := []string{"get ", "info ", "getorset ", "multi "}[how] + k
	return signal(name, func(e *env) bool {
		x, ok := e.m[k]
		ok = ok && slices.Contains(e.have(), k)
		switch how {
		case 0:
			e.h.Get(bg, k)
		case 1:
			e.h.GetWithInfo(bg, k)
		case 2:
			if !ok {
				return false
			}
			e.h.GetOrSet(bg, k, "v", ttl)
		case 3:
			e.h.GetMultiple(bg, "zz", k)
		}
		if ok && !x.expired() {
			x.last = hc.Now()
			e.m[k] = x
		}
		return ok && x.expired()
	})
}

var stop = op{"stop", func(e *env) {
	if err := e.h.Stop(bg); err != nil {
		vsched.Fail("[stop] %v", err)
	}
	e.stopped = true
	vsched.Quiesce()
	if n := vsched.Live(); n > 1 {
		vsched.Fail("[leak] %d goroutines are left after Stop", n-1)
	}
}}

// sequence: every sequence of writes, reads, waits and triggers.
func sequence(c hc.Cfg, n int, ops []op) func() {
	return func() {
		vsched.Calm(true)
		e := &env{c: c, m: map[string]ent{}, start: hc.Now(), accepted: -1 << 62}
		e.h = hc.New(bg, c)
		vsched.Quiesce()
		for i := range n {
			o := ops[vsched.Choose(len(ops))]
			vsched.Tracef("%d: %s", i, o.name)
			o.do(e)
			vsched.Quiesce()
			e.check(o.name, false)
			e.counters(o.name)
		}
		vsched.Outcome("%v %d", e.have(), e.removed)
	}
}

// counters: what the statistics say happened is what happened.
func (e *env) counters(when string) {
	if n := e.stat("item_expired_count"); n != e.removed {
		vsched.Fail("[counter] %s: item_expired_count is %d, %d entries were removed as expired", when, n, e.removed)
	}
	st := e.h.GetStats()
	for _, k := range []string{"expiration", "eviction"} {
		loops, took := st[k+"_loop_count"], st[k+"_loop_duration"]
		switch {
		case loops == nil && took == nil:
		case loops == nil || took == nil || int64(took.Count) != loops.Sum:
			vsched.Fail("[counter] %s: %s runs are counted as %+v with durations %+v", when, k, loops, took)
		case took.Min < 0 || took.Max > hc.Now()-e.start:
			vsched.Fail("[duration] %s: a %s run is said to have taken %v", when, k, time.Duration(took.Max))
		}
	}
}

// pending: triggers raced against each other and against entries expiring;
// whatever had expired when the last trigger was called is gone afterwards.
func pending(buffer, threads, n int, timed bool, fixed ...[]int) func() {
	ops := []op{
		{"trigger", func(e *env) { e.h.TriggerExpiration() }},
		{"get a", func(e *env) { e.h.Get(bg, "a") }},
		{"evict", func(e *env) { e.h.TriggerEviction(bg) }},
		{"set c", func(e *env) { e.h.Set(bg, "c", "v", 0) }},
	}
	if timed {
		ops = append(ops, op{"wait", func(e *env) { vsched.Sleep(ttl) }})
	}
	if fixed != nil {
		ops = append(ops, op{"elapse", func(e *env) { vsched.Elapse(ttl) }})
	}
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, hc.Cfg{Interval: time.Hour, Buffer: buffer})}
		e.h.Set(bg, "a", "v", ttl)
		e.h.Set(bg, "b", "v", 2*ttl)
		e.h.Set(bg, "z", "v", 0)
		vsched.Sleep(ttl + 1)
		vsched.Quiesce()
		plan := make([][]op, threads)
		last, what := 0, ""
		for i := range threads {
			what += fmt.Sprintf(" T%d:", i+1)
			m := n
			if fixed != nil {
				m = len(fixed[i])
			}
			for j := range m {
				lo := 0
				if j == 0 {
					lo = last
				}
				k := 0
				if fixed == nil {
					k = lo + vsched.Choose(len(ops)-lo)
				}
				if j == 0 {
					last = k
				}
				if fixed != nil {
					k = fixed[i][j]
				}
				plan[i] = append(plan[i], ops[k])
				what += " " + ops[k].name
			}
		}
		// gone after a thread's last trigger: what had expired by then
		must := make([]map[string]bool, threads)
		expired := func(l int64) map[string]bool {
			out := map[string]bool{"a": true}
			if hc.Now()-l > int64(2*ttl) {
				out["b"] = true
			}
			return out
		}
		start := hc.Now() - int64(ttl) - 1
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for _, o := range plan[i] {
					if o.name == "trigger" {
						must[i] = expired(start)
					}
					o.do(e)
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		vsched.Quiesce()
		have := e.have()
		for _, m := range must {
			for k := range m {
				if slices.Contains(have, k) {
					vsched.Fail("[left] %s: %q had expired when the last trigger was called and is still there", what, k)
				}
			}
		}
		if !slices.Contains(have, "z") || hc.Now()-start <= int64(2*ttl) && !slices.Contains(have, "b") {
			vsched.Fail("[lost] %s: only %v are there", what, have)
		}
		// and triggers still work
		vsched.Sleep(2 * ttl)
		e.h.TriggerExpiration()
		vsched.Quiesce()
		if left := e.have(); slices.Contains(left, "a") || slices.Contains(left, "b") {
			vsched.Fail("[trigger] %s: a trigger later on left %v", what, left)
		}
		vsched.Outcome("%v", have)
	}
}

// stops: Stop raced against everything else; it returns, everything ends, and
// the cache still answers.
func stops(c hc.Cfg, threads, n int) func() {
	return func() {
		vsched.Calm(true)
		ctx, cancel := vctx.WithCancel(bg)
		h := hc.New(ctx, c)
		h.Set(bg, "a", "v", ttl)
		h.Set(bg, "b", "v", ttl)
		h.Set(bg, "d", "v", 0)
		vsched.Sleep(ttl + 1)
		ops := []op{
			{"stop", func(*env) {
				if err := h.Stop(bg); err != nil {
					vsched.Fail("[stop] %v", err)
				}
			}},
			{"set c", func(*env) { h.Set(bg, "c", "v", 0) }},
			{"trigger", func(*env) { h.TriggerExpiration() }},
			{"evict", func(*env) { h.TriggerEviction(bg) }},
			{"get a", func(*env) { h.Get(bg, "a") }},
			{"capacity", func(*env) { h.SetCapacity(bg, 1) }},
			{"cancel", func(*env) { cancel() }},
		}
		plan := make([][]op, threads)
		last, what := 0, ""
		for i := range threads {
			what += fmt.Sprintf(" T%d:", i+1)
			for j := range n {
				lo := 0
				if j == 0 {
					lo = last
				}
				k := lo + vsched.Choose(len(ops)-lo)
				if j == 0 {
					last = k
				}
				plan[i] = append(plan[i], ops[k])
				what += " " + ops[k].name
			}
		}
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for _, o := range plan[i] {
					o.do(nil)
				}
			})
		}
		g.Wait()
		if err := h.Stop(bg); err != nil {
			vsched.Fail("[stop] %s: %v", what, err)
		}
		vsched.Calm(true)
		vsched.Quiesce()
		if l := vsched.Live(); l > 1 {
			vsched.Fail("[leak] %s: %d goroutines are left after Stop", what, l-1)
		}
		// still a cache, and nothing happens behind its back
		have := hc.Keys(hc.Items(h))
		h.Set(bg, "late", "v", 0)
		h.TriggerExpiration()
		h.TriggerExpiration()
		h.TriggerEviction(bg)
		h.TriggerEviction(bg)
		h.Get(bg, "a")
		vsched.Sleep(10 * every)
		vsched.Quiesce()
		if v, ok := h.Get(bg, "late"); !ok || v != "v" {
			vsched.Fail("[late] %s: a value set after Stop is %v, %v", what, v, ok)
		}
		if after := hc.Keys(hc.Items(h)); c.Interval > 0 && len(after) != len(have)+1 {
			vsched.Fail("[stopped] %s: %v became %v after Stop", what, have, after)
		}
		if err := h.Stop(bg); err != nil {
			vsched.Fail("[stop] %s: again: %v", what, err)
		}
		hc.CheckAlloc(h, what)
		vsched.Outcome("%v", have)
	}
}

// canceled: the context New was given ends the background runs.
func canceled() {
	vsched.Calm(true)
	ctx, cancel := vctx.WithCancel(bg)
	c := hc.Cfg{Interval: every, Expiration: every, Capacity: vsched.Choose(2)}
	h := hc.New(ctx, c)
	base := vsched.Live()
	h.Set(bg, "a", "v", ttl)
	h.Set(bg, "b", "v", 0)
	if vsched.Choose(2) == 1 {
		vsched.Quiesce()
	}
	cancel()
	vsched.Quiesce()
	vsched.Sleep(10 * every)
	h.TriggerExpiration()
	h.TriggerEviction(bg)
	vsched.Quiesce()
	if n := h.Count(bg); n != 2 {
		vsched.Fail("[canceled] %d of 2 entries are left although background runs were canceled", n)
	}
	if l := vsched.Live(); l >= base {
		vsched.Fail("[leak] %d goroutines before and %d after the context was canceled", base, l)
	}
	if err := h.Stop(bg); err != nil {
		vsched.Fail("[stop] %v", err)
	}
	vsched.Quiesce()
	if l := vsched.Live(); l > 1 {
		vsched.Fail("[leak] %d goroutines are left after Stop", l-1)
	}
	vsched.Outcome("%v", hc.Keys(hc.Items(h)))
}

// evictions: their counters.
func evictions() {
	vsched.Calm(true)
	c := hc.Cfg{Interval: every, Capacity: 2, MaxEvict: uint(1 + vsched.Choose(3))}
	h := hc.New(bg, c)
	start := hc.Now()
	n := vsched.Choose(6)
	for i := range n {
		h.Set(bg, fmt.Sprint("k", i), i, 0)
	}
	runs := 0
	for range vsched.Choose(4) {
		if vsched.Choose(2) == 0 {
			h.TriggerEviction(bg)
			vsched.Quiesce()
		} else {
			vsched.Sleep(every)
			vsched.Quiesce()
		}
		runs++
	}
	e := &env{h: h, start: start}
	if got, want := e.stat("item_evicted_count"), int64(n-h.Count(bg)); got != want {
		vsched.Fail("[counter] item_evicted_count is %d, %d entries were evicted", got, want)
	}
	if got := e.stat("eviction_loop_count"); got != int64(runs) {
		vsched.Fail("[counter] eviction_loop_count is %d after %d runs", got, runs)
	}
	if want := min(runs*int(c.MaxEvict), max(0, n-2)); n-h.Count(bg) != want {
		vsched.Fail("[evict] %d runs of at most %d evicted %d of %d entries at capacity 2", runs, c.MaxEvict, n-h.Count(bg), n)
	}
	e.counters("evictions")
	vsched.Outcome("%d %d", n, h.Count(bg))
}

// large: many entries expiring at once, many runs.
func large(ns []int, hows int) func() {
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		how := vsched.Choose(hows)
		c := hc.Cfg{Interval: time.Hour}
		if how == 1 {
			c.Expiration = every
		}
		e := &env{c: c, m: map[string]ent{}, start: hc.Now(), accepted: -1 << 62}
		e.h = hc.New(bg, c)
		vsched.Quiesce()
		if how == 2 { // n runs
			for i := range n {
				set("a", ttl).do(e)
				wait(ttl + 1).do(e)
				trigger.do(e)
				if i%64 == 0 {
					e.counters("a run")
				}
			}
			e.counters("many runs")
			if got := e.stat("expiration_loop_count"); got != int64(n) {
				vsched.Fail("[loops] expiration_loop_count is %d after %d triggers, each handled before the next", got, n)
			}
			vsched.Outcome("runs %d", n)
			return
		}
		for i := range n {
			set(fmt.Sprint("k", i), ttl).do(e)
			if i%10 == 0 {
				set(fmt.Sprint("later", i), 4*ttl).do(e)
				set(fmt.Sprint("stays", i), 0).do(e)
			}
		}
		vsched.Sleep(ttl + 1)
		e.check("nothing was due", false)
		if how == 1 {
			vsched.Sleep(every - ttl)
			vsched.Quiesce()
			e.check("after an interval", true)
		} else {
			trigger.do(e)
			e.check("after a trigger", true)
		}
		e.counters("many")
		vsched.Outcome("%d left", len(e.m))
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000, Horizon: 24 * time.Hour}
	o := func(p int) vsched.Opts {
		return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 200000, Horizon: 24 * time.Hour}
	}
	timed := func(p int) vsched.Opts { x := o(p); x.TimerCh = true; return x }
	base := []op{set("a", ttl), set("b", 2*ttl), set("c", 0), wait(ttl), wait(1), wait(quiet), trigger, read("a", 0), read("b", 3)}
	reads := []op{set("a", ttl), set("b", ttl), wait(ttl + 1), read("a", 0), read("a", 1), read("b", 2), read("a", 3), trigger}
	stopped := append(slices.Clone(reads), stop)
	var sc []kit.Scenario
	add := func(name string, c hc.Cfg, quick, deep int, ops []op) {
		sc = append(sc, kit.Scenario{Name: name, Body: sequence(c, quick, ops), Quick: det, Deep: det, Weight: 2})
		sc = append(sc, kit.Scenario{Name: name + "-deep", Body: sequence(c, deep, ops), Quick: det, Deep: det, DeepOnly: true, Weight: 4})
	}
	add("triggers", hc.Cfg{Interval: time.Hour}, 4, 6, base)
	add("debounced", hc.Cfg{Interval: time.Hour, Debounce: quiet, Buffer: 2}, 4, 6, base)
	add("intervals", hc.Cfg{Interval: time.Hour, Expiration: every}, 4, 6, append(slices.Clone(base), wait(every)))
	add("reads", hc.Cfg{Interval: 0, Capacity: 5}, 4, 6, reads)
	add("stopped", hc.Cfg{Interval: time.Hour}, 4, 6, stopped)
	sc = append(sc,
		kit.Scenario{Name: "pending-2x1", Body: pending(1, 2, 1, false), Quick: o(2), Deep: o(4), Race: true, RaceP: 1, Weight: 2},
		kit.Scenario{Name: "pending-2x2", Body: pending(1, 2, 2, false), Quick: o(1), Deep: o(3), Weight: 2},
		kit.Scenario{Name: "pending-3x1", Body: pending(3, 3, 1, false), Quick: o(1), Deep: o(3), Weight: 2},
		kit.Scenario{Name: "pending-timed", Body: pending(1, 2, 2, true), Quick: timed(0), Deep: timed(2), Weight: 3},
		// a trigger while another one is being handled, about what expired since
		kit.Scenario{Name: "pending-after", Body: pending(1, 2, 2, false, []int{0}, []int{4, 0}), Quick: o(2), Deep: o(4), Weight: 2},
		kit.Scenario{Name: "stops-2x1", Body: stops(hc.Cfg{Interval: every, Expiration: every}, 2, 1), Quick: o(1), Deep: o(3), Race: true, RaceP: 1, Weight: 2},
		kit.Scenario{Name: "stops-2x2", Body: stops(hc.Cfg{Interval: every, Capacity: 2}, 2, 2), Quick: o(0), Deep: o(1), Weight: 2},
		kit.Scenario{Name: "canceled", Body: canceled, Quick: o(1), Deep: o(2)},
		kit.Scenario{Name: "large", Body: large(kit.Sizes(520), 3), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 24 * time.Hour}},
		kit.Scenario{Name: "vast", Body: large([]int{12001}, 2), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 24 * time.Hour}},
		kit.Scenario{Name: "larger", Body: large(kit.Sizes(5200), 3), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "evictions", Body: evictions, Quick: det, Deep: det},
	)
	kit.Main(sc...)
}
