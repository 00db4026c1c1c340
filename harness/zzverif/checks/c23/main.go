// C23: capacity is enforced by evicting exactly the excess, chosen by policy.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

var bg = context.Background()

// ref keeps the keys and, for the policies that are exact, their order.
type ref struct {
	keys []string // least recently written first
	uses map[string]int
}

func (r *ref) has(k string) bool { return slices.Contains(r.keys, k) }

func (r *ref) write(k string) {
	r.keys = append(slices.DeleteFunc(slices.Clone(r.keys), func(x string) bool { return x == k }), k)
	r.uses[k]++
}

func (r *ref) drop(k string) {
	r.keys = slices.DeleteFunc(slices.Clone(r.keys), func(x string) bool { return x == k })
	delete(r.uses, k)
}

// victim by policy; "" when the policy is not modelled.
func (r *ref) victim(alg string) string {
	switch alg {
	case "lru", "cawolfu":
		return r.keys[0]
	case "lfu":
		best := r.keys[0]
		for _, k := range r.keys {
			if r.uses[k] < r.uses[best] {
				best = k
			}
		}
		return best
	}
	return ""
}

type env struct {
	h   *hc.Cache
	r   *ref
	c   hc.Cfg
	cap int
	n   int
}

func (e *env) have() []string { return hc.Keys(hc.Items(e.h)) }

// lost compares what is there with what the reference holds: only keys of the
// reference may be there, and exactly n of them may be gone.
func (e *env) lost(what string, n int, keep string) []string {
	have := e.have()
	for _, k := range have {
		if !e.r.has(k) {
			vsched.Fail("[phantom] %s: %q is there", what, k)
		}
	}
	var gone []string
	for _, k := range e.r.keys {
		if !slices.Contains(have, k) {
			gone = append(gone, k)
		}
	}
	if len(gone) != n {
		vsched.Fail("[excess] %s: capacity %d, %v stored, %v are gone, want %d evicted", what, e.cap, e.r.keys, gone, n)
	}
	if keep != "" && slices.Contains(gone, keep) {
		vsched.Fail("[newest] %s: the key just written is gone", what)
	}
	if e.h.Count(bg) != len(have) {
		vsched.Fail("[count] %s: Count %d with %v", what, e.h.Count(bg), have)
	}
	return gone
}

type op struct {
	name string
	do   func(e *env)
}

func write(k string, getOrSet bool) op {
	name := "set " + k
	if getOrSet {
		name = "getorset " + k
	}
	return op{name, func(e *env) {
		e.n++
		known := e.r.has(k)
		var err error
		if getOrSet {
			_, err = e.h.GetOrSet(bg, k, e.n, 0)
		} else {
			err = e.h.Set(bg, k, e.n, 0)
		}
		if err != nil {
			vsched.Fail("[write] %s: %v", name, err)
		}
		if getOrSet && known {
			e.lost(name, 0, k)
			return
		}
		proactive := e.c.Interval == 0 && e.cap > 0
		before := ref{keys: slices.Clone(e.r.keys), uses: e.r.uses}
		e.r.write(k)
		excess := 0
		if proactive {
			excess = max(0, len(e.r.keys)-e.cap)
		}
		gone := e.lost(name, excess, k)
		if e.c.Shards <= 1 && e.c.Capacity >= e.cap {
			if len(gone) == 1 {
				if v := before.victim(e.c.Algorithm); v != "" && v != gone[0] {
					vsched.Fail("[policy] %s with %v written in this order (uses %v), capacity %d: %s evicted %s, want %s", name, before.keys, before.uses, e.cap, e.c.Algorithm, gone[0], v)
				}
			}
		}
		for _, g := range gone {
			e.r.drop(g)
		}
	}}
}

func bad(k string) op {
	return op{"refused " + k, func(e *env) {
		if e.h.Set(bg, k, nil, 0) == nil || e.h.Set(bg, " ", 1, 0) == nil {
			vsched.Fail("[write] invalid set accepted")
		}
		e.lost("a refused set", 0, "")
	}}
}

func remove(k string) op {
	return op{"remove " + k, func(e *env) {
		e.h.Remove(bg, k)
		e.r.drop(k)
		e.lost("remove "+k, 0, "")
	}}
}

var clearOp = op{"clear", func(e *env) {
	e.h.Clear(bg)
	e.r = &ref{uses: map[string]int{}}
	e.lost("clear", 0, "")
}}

var get = op{"get a", func(e *env) { e.h.Get(bg, "a"); e.lost("get", 0, "") }}

// limit is how much one run may evict.
func (e *env) limit() int {
	if e.c.MaxEvict > 0 {
		return int(e.c.MaxEvict)
	}
	return e.c.Capacity
}

// evictedBy checks what one eviction run took.
func (e *env) evictedBy(what string) {
	excess := 0
	if e.cap > 0 {
		excess = max(0, len(e.r.keys)-e.cap)
	}
	for _, g := range e.lost(what, min(excess, e.limit()), "") {
		e.r.drop(g)
	}
}

var trigger = op{"trigger", func(e *env) {
	e.h.TriggerEviction(bg)
	vsched.Quiesce()
	e.evictedBy("TriggerEviction")
}}

var tick = op{"tick", func(e *env) {
	vsched.Sleep(e.c.Interval)
	vsched.Quiesce()
	e.evictedBy("an interval")
}}

func setCap(n int) op {
	return op{fmt.Sprintf("capacity %d", n), func(e *env) {
		e.h.SetCapacity(bg, n)
		if n >= 0 {
			e.cap = n
		}
		if e.h.Capacity() != e.cap {
			vsched.Fail("[capacity] Capacity is %d after SetCapacity(%d), want %d", e.h.Capacity(), n, e.cap)
		}
		vsched.Quiesce()
		e.evictedBy(fmt.Sprintf("SetCapacity(%d)", n))
	}}
}

func run(ops []op, n int, c hc.Cfg) func() {
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, c), r: &ref{uses: map[string]int{}}, c: c, cap: c.Capacity}
		vsched.Quiesce()
		if e.h.Capacity() != c.Capacity || e.h.EvictionInterval() != c.Interval || e.h.EvictionAlgorithm() != c.Algorithm {
			vsched.Fail("[capacity] configured %+v: %d %v %s", c, e.h.Capacity(), e.h.EvictionInterval(), e.h.EvictionAlgorithm())
		}
		for i := range n {
			o := ops[vsched.Choose(len(ops))]
			vsched.Tracef("%d: %s", i, o.name)
			o.do(e)
			vsched.Quiesce()
			e.lost("after "+o.name, 0, "")
		}
		vsched.Outcome("%v", e.r.keys)
	}
}

var writes = []op{write("a", false), write("b", false), write("c", true), write("d", false), remove("a"), remove("b"), get}

// concurrent: writers and removers; once all have returned the cache is within
// its capacity and holds only what was written.
func concurrent(threads, n int, c hc.Cfg) func() {
	type cop struct {
		name string
		do   func(h *hc.Cache)
	}
	set := func(k string) cop { return cop{"set " + k, func(h *hc.Cache) { h.Set(bg, k, 1, 0) }} }
	cops := []cop{set("c"), set("d"), set("a"),
		{"remove a", func(h *hc.Cache) { h.Remove(bg, "a") }},
		{"remove c", func(h *hc.Cache) { h.Remove(bg, "c") }},
		{"getorset e", func(h *hc.Cache) { h.GetOrSet(bg, "e", 1, 0) }},
		{"clear", func(h *hc.Cache) { h.Clear(bg) }},
		{"capacity 1", func(h *hc.Cache) { h.SetCapacity(bg, 1) }},
	}
	return func() {
		vsched.Calm(true)
		h := hc.New(bg, c)
		h.Set(bg, "a", 1, 0)
		h.Set(bg, "b", 1, 0)
		vsched.Quiesce()
		var plan [][]cop
		last := 0
		what := ""
		writers := 0
		for i := range threads {
			var l []cop
			what += fmt.Sprintf(" T%d:", i+1)
			for j := range n {
				lo := 0
				if j == 0 {
					lo = last
				}
				k := lo + vsched.Choose(len(cops)-lo)
				if j == 0 {
					last = k
				}
				if strings.Contains(cops[k].name, "set") {
					writers++
				}
				l = append(l, cops[k])
				what += " " + cops[k].name
			}
			plan = append(plan, l)
		}
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for _, o := range plan[i] {
					o.do(h)
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		vsched.Quiesce()
		if n := h.Count(bg); h.Capacity() > 0 && n > h.Capacity() {
			vsched.Fail("[over] %s: Count %d, capacity %d", what, n, h.Capacity())
		}
		// the next write still finds its victims
		for i := range 3 {
			k := fmt.Sprintf("z%d", i)
			h.Set(bg, k, 1, 0)
			have := hc.Keys(hc.Items(h))
			if n := h.Count(bg); n > h.Capacity() || n != len(have) {
				vsched.Fail("[over] %s, then %s: Count %d, %v, capacity %d", what, k, n, have, h.Capacity())
			}
			if !slices.Contains(have, k) {
				vsched.Fail("[newest] %s: %s just written is not among %v", what, k, have)
			}
		}
		vsched.Outcome("%v", hc.Keys(hc.Items(h)))
	}
}

// large: capacities, excesses and limits per run far beyond those of the
// sequences.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns)-1)+1]
		c := hc.Cfg{Capacity: n, Algorithm: "lru"}
		switch vsched.Choose(3) {
		case 0: // proactive
			c.Algorithm = []string{"lru", "lfu", "cawolfu", "clock"}[vsched.Choose(4)]
			c.Shards = []int{1, 16}[vsched.Choose(2)]
			e := &env{h: hc.New(bg, c), r: &ref{uses: map[string]int{}}, c: c, cap: n}
			over := n + 3
			for i := range n + over {
				k := fmt.Sprint("k", i)
				if err := e.h.Set(bg, k, i, 0); err != nil {
					vsched.Fail("[write] %v", err)
				}
				if got := e.h.Count(bg); got != min(i+1, n) {
					vsched.Fail("[excess] capacity %d: %d entries after %d writes of different keys", n, got, i+1)
				}
			}
			have := e.have()
			for i := range n + over {
				k := fmt.Sprint("k", i)
				in := slices.Contains(have, k)
				switch {
				case i == n+over-1 && !in:
					vsched.Fail("[newest] capacity %d: the key just written is gone", n)
				case c.Shards == 1 && (c.Algorithm == "lru" || c.Algorithm == "cawolfu") && in != (i >= over):
					vsched.Fail("[policy] capacity %d, %d keys written in order: key %d is there: %v", n, n+over, i, in)
				}
			}
			vsched.Outcome("%s %d", c.Algorithm, n)
		case 1: // many too many at once
			c.Capacity = n + 3
			e := &env{h: hc.New(bg, c), r: &ref{uses: map[string]int{}}, c: c, cap: n + 3}
			for i := range n + 3 {
				e.h.Set(bg, fmt.Sprint("k", i), i, 0)
				e.r.keys = append(e.r.keys, fmt.Sprint("k", i))
			}
			setCap(3).do(e)
			if h := e.have(); !slices.Equal(h, slices.Sorted(slices.Values([]string{fmt.Sprint("k", n), fmt.Sprint("k", n+1), fmt.Sprint("k", n+2)}))) {
				vsched.Fail("[policy] of %d keys written in order %v are left", n+3, h)
			}
			vsched.Outcome("resized")
		case 2: // runs that may evict n at most
			c.Capacity, c.MaxEvict, c.Interval = 2, uint(n), 10*time.Second
			e := &env{h: hc.New(bg, c), r: &ref{uses: map[string]int{}}, c: c, cap: 2}
			for i := range 2*n + 3 {
				e.h.Set(bg, fmt.Sprint("k", i), i, 0)
				e.r.keys = append(e.r.keys, fmt.Sprint("k", i))
			}
			for _, o := range []op{trigger, tick, tick, trigger} {
				o.do(e)
			}
			vsched.Outcome("runs")
		}
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	var sc []kit.Scenario
	add := func(name string, ops []op, quick, deep int, c hc.Cfg) {
		sc = append(sc, kit.Scenario{Name: name, Body: run(ops, quick, c), Quick: det, Deep: det, Weight: 2})
		sc = append(sc, kit.Scenario{Name: name + "-deep", Body: run(ops, deep, c), Deep: det, DeepOnly: true, Weight: 4})
	}
	h := time.Hour
	for _, a := range []string{"lru", "lfu", "cawolfu", "clock"} {
		add("proactive-"+a, writes, 5, 7, hc.Cfg{Capacity: 2, Algorithm: a})
	}
	add("proactive-one", append(slices.Clone(writes), clearOp, bad("a")), 4, 6, hc.Cfg{Capacity: 1, Algorithm: "lru"})
	add("proactive-few", writes, 5, 7, hc.Cfg{Capacity: 3, Algorithm: "lru", MaxEvict: 1})
	add("proactive-many", writes, 5, 7, hc.Cfg{Capacity: 2, Algorithm: "lfu", MaxEvict: 9})
	add("proactive-sharded", append(slices.Clone(writes), write("i", false), write("q", false), clearOp), 5, 6, hc.Cfg{Capacity: 3, Algorithm: "lru", Shards: 8})
	caps := []op{write("a", false), write("b", false), write("c", false), write("d", true), remove("a"), setCap(1), setCap(3), setCap(0), setCap(-1), trigger}
	add("resized", caps, 4, 6, hc.Cfg{Capacity: 2, Algorithm: "lru"})
	add("resized-limited", caps, 4, 6, hc.Cfg{Capacity: 2, Algorithm: "clock", MaxEvict: 1})
	periodic := append(slices.Clone(caps), tick)
	add("periodic", periodic, 4, 6, hc.Cfg{Capacity: 2, Algorithm: "lru", Interval: 10 * time.Second})
	add("periodic-limited", periodic, 4, 6, hc.Cfg{Capacity: 1, Algorithm: "lfu", Interval: 10 * time.Second, MaxEvict: 1})
	add("periodic-sharded", periodic, 4, 6, hc.Cfg{Capacity: 1, Algorithm: "lru", Interval: 10 * time.Second, Shards: 4})
	add("unlimited", periodic, 4, 6, hc.Cfg{Algorithm: "lru", Interval: 10 * time.Second, MaxEvict: 2})
	add("unlimited-proactive", append(slices.Clone(writes), trigger, setCap(2)), 4, 5, hc.Cfg{Algorithm: "lru", MaxEvict: 2})
	p := func(n int) vsched.Opts { return vsched.Opts{Preempt: n, MaxSteps: 200000} }
	_ = h
	sc = append(sc,
		kit.Scenario{Name: "large", Body: large(300), Quick: vsched.Opts{MaxSteps: 1 << 30}, Deep: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "larger", Body: large(2100), Deep: vsched.Opts{MaxSteps: 1 << 30}, DeepOnly: true},
		kit.Scenario{Name: "concurrent-2x1", Body: concurrent(2, 1, hc.Cfg{Capacity: 2, Algorithm: "lru"}), Quick: p(2), Deep: p(3), Race: true, Weight: 5},
		kit.Scenario{Name: "concurrent-2x2", Body: concurrent(2, 2, hc.Cfg{Capacity: 2, Algorithm: "lru", Shards: 4}), Quick: p(0), Deep: p(1), Weight: 8},
		kit.Scenario{Name: "concurrent-3x1", Body: concurrent(3, 1, hc.Cfg{Capacity: 2, Algorithm: "lru"}), Quick: p(1), Deep: p(2), Weight: 8},
	)
	kit.Main(sc...)
}
