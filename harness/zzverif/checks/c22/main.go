// C22: the accounted allocation is exact and never exceeds the limit.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

var bg = context.Background()

const ttl = 10 * time.Second

// model: the sizes by key.
type state struct {
	h   *hc.Cache
	m   hc.Model
	max int64
	n   int
}

func (s *state) total() int64 {
	var t int64
	for _, e := range s.m {
		t += e.Size
	}
	return t
}

// value of n bytes, each different.
func (s *state) value(n int) string {
	s.n++
	return strings.Repeat(string(rune('a'+s.n%26)), n)
}

type op struct {
	name string
	do   func(s *state) string
}

// expect decides whether a write of n bytes to k fits.
func (s *state) fits(k string, n int) bool {
	return s.max == 0 || s.total()-s.m[k].Size+int64(n) <= s.max
}

func set(k string, n int, d time.Duration) op {
	return op{fmt.Sprintf("set %s %d", k, n), func(s *state) string {
		v := s.value(n)
		err := s.h.Set(bg, k, v, d)
		var want error
		if !s.fits(k, n) {
			want = sentinel.ErrCacheFull
		}
		if want == nil {
			want = hc.SetErr(k, v, d)
		} else if hc.SetErr(k, v, d) != nil && hc.Match(err, hc.SetErr(k, v, d)) {
			want = hc.SetErr(k, v, d) // either reason
		}
		if !hc.Match(err, want) {
			vsched.Fail("[limit] Set(%s, %d bytes) with %v stored, limit %d: %v, want %v", k, n, s.sizes(), s.max, err, want)
		}
		if err == nil {
			s.m.Put(k, v, d)
		}
		return hc.Show(err)
	}}
}

func getOrSet(k string, n int) op {
	return op{fmt.Sprintf("getorset %s %d", k, n), func(s *state) string {
		v := s.value(n)
		got, err := s.h.GetOrSet(bg, k, v, ttl)
		if e, ok := s.m[k]; ok {
			if e.Expired(vnow()) {
				if err != nil {
					return "expired"
				}
				delete(s.m, k)
			} else {
				if err != nil || got != e.V {
					vsched.Fail("[limit] GetOrSet(%s) on a stored key: %v, %v", k, got, err)
				}
				s.m.Touch(k)
				return "hit"
			}
		}
		var want error
		if !s.fits(k, n) {
			want = sentinel.ErrCacheFull
		}
		if !hc.Match(err, want) {
			vsched.Fail("[limit] GetOrSet(%s, %d bytes) with %v stored, limit %d: %v, want %v", k, n, s.sizes(), s.max, err, want)
		}
		if err == nil {
			s.m.Put(k, v, ttl)
		}
		return hc.Show(err)
	}}
}

func vnow() int64 { return hc.Now() }

func (s *state) sizes() string {
	var out []string
	for k, e := range s.m {
		out = append(out, fmt.Sprintf("%s:%d", k, e.Size))
	}
	slices.Sort(out)
	return strings.Join(out, " ")
}

func remove(ctx context.Context, label string, keys ...string) op {
	return op{"remove " + label + strings.Join(keys, ","), func(s *state) string {
		err := s.h.Remove(ctx, keys...)
		if ctx.Err() == nil && err != nil {
			vsched.Fail("[remove] %v", err)
		}
		if ctx.Err() != nil {
			// may or may not have removed: look
			vsched.Quiesce()
			have := hc.Keys(hc.Items(s.h))
			for _, k := range keys {
				if !slices.Contains(have, k) {
					delete(s.m, k)
				}
			}
			return "cancelled"
		}
		for _, k := range keys {
			delete(s.m, k)
		}
		return ""
	}}
}

func clearOp(ctx context.Context, label string) op {
	return op{"clear" + label, func(s *state) string {
		err := s.h.Clear(ctx)
		if ctx.Err() == nil && err != nil {
			vsched.Fail("[clear] %v", err)
		}
		vsched.Quiesce()
		have := hc.Keys(hc.Items(s.h))
		for k := range s.m {
			if ctx.Err() == nil || !slices.Contains(have, k) {
				delete(s.m, k)
			}
		}
		return ""
	}}
}

var wait = op{"wait", func(s *state) string { vsched.Sleep(ttl + 1); return "" }}
var trigger = op{"trigger", func(s *state) string { s.h.TriggerExpiration(); return "" }}
var get = op{"get a", func(s *state) string {
	if _, ok := s.h.Get(bg, "a"); ok {
		s.m.Touch("a")
	}
	return ""
}}

func cancelled() context.Context {
	c, cancel := context.WithCancel(context.Background())
	cancel()
	return c
}

func ops() []op {
	dead := cancelled()
	return []op{
		set("a", 3, 0), set("a", 1, ttl), set("a", 4, 0), set("b", 2, ttl), set("b", 3, 0), set("a", 7, 0),
		set("", 2, 0), set("c", 2, -1), getOrSet("a", 2), getOrSet("b", 3),
		remove(bg, "", "a"), remove(bg, "", "a", "a", "b"), remove(dead, "cancelled ", "a", "b"), clearOp(bg, ""), clearOp(dead, " cancelled"),
		wait, trigger, get,
	}
}

func run(n int, c hc.Cfg) func() {
	return func() {
		vsched.Calm(true)
		s := &state{h: hc.New(bg, c), m: hc.Model{}, max: c.MaxSize}
		os := ops()
		vsched.Quiesce()
		for i := range n {
			o := os[vsched.Choose(len(os))]
			vsched.Tracef("%d: %s", i, o.name)
			out := o.do(s)
			if i == n-1 {
				vsched.Outcome("%s=%s", o.name, out)
			}
			s.check("after " + o.name)
			vsched.Quiesce()
			s.check("after " + o.name)
		}
	}
}

// huge says it has that many bytes.
type huge int

func (h huge) SizeBytes() int { return int(h) }

// vast: sizes beyond 32 bits.
func vast() {
	vsched.Calm(true)
	sizes := []int{0, 1, 1<<15 + 3, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40, 1<<53 + 1}
	a, b := sizes[vsched.Choose(len(sizes))], sizes[vsched.Choose(len(sizes))]
	limit := int64(0)
	if vsched.Choose(2) == 1 {
		limit = int64(a + b)
	}
	h := hc.New(bg, hc.Cfg{Interval: time.Hour, MaxSize: limit})
	set := func(k string, n int, ok bool) {
		if err := h.Set(bg, k, huge(n), ttl); (err == nil) != ok {
			vsched.Fail("[limit] storing %d bytes next to %d, limit %d: %v", n, h.Allocation(), limit, err)
		}
	}
	is := func(when string, want int) {
		if got := h.Allocation(); got != int64(want) {
			vsched.Fail("[exact] %s the allocation is %d, stored are %d bytes (%d and %d)", when, got, want, a, b)
		}
	}
	set("a", a, true)
	set("b", b, true)
	is("after two writes", a+b)
	if limit > 0 {
		set("c", 1, false)
		set("a", a+1, false)
		is("after refused writes", a+b)
	}
	h.Remove(bg, "a")
	is("after removing one", b)
	if _, err := h.GetOrSet(bg, "a", huge(a), ttl); err != nil {
		vsched.Fail("[limit] storing %d bytes next to %d, limit %d: %v", a, b, limit, err)
	}
	set("a", b, limit == 0 || 2*b <= a+b)
	set("a", a, true)
	set("b", 0, true)
	is("after overwriting", a)
	vsched.Sleep(ttl + 1)
	h.TriggerExpiration()
	vsched.Quiesce()
	is("after expiring", 0)
	vsched.Outcome("%v %v", a > 1<<31, limit > 0)
}

// large: many entries up to the limit to the byte, big values, big limits.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		size := func(i int) int { return i % 7 } // of entry i
		what := "many"
		switch vsched.Choose(3) {
		case 1:
			what = "big"
			u := n
			n = 6
			size = func(i int) int { return u*100 + i }
		case 2:
			what = "uneven"
			u := n
			n = 12
			size = func(i int) int { return i % 2 * u * 512 }
		}
		total := 0
		for i := range n {
			total += size(i)
		}
		s := &state{h: nil, m: hc.Model{}, max: int64(total)}
		s.h = hc.New(bg, hc.Cfg{Interval: time.Hour, MaxSize: s.max})
		key := func(i int) string { return fmt.Sprintf("key-%d", i) }
		vsched.Tracef("%s: %d entries of %d bytes", what, n, total)
		for i := range n {
			set(key(i), size(i), []time.Duration{0, ttl}[i%2]).do(s)
		}
		s.check("filling up")
		for i := range n {
			set(key(i), size(i)+1, 0).do(s) // one byte too many (or limit 0: none)
			getOrSet("other", 1).do(s)
			set(key(i), size(i), []time.Duration{0, ttl}[i%2]).do(s)
			if i > 40 {
				break
			}
		}
		s.check("overfilling")
		for i := 0; i < n; i += 3 {
			remove(bg, "", key(i)).do(s)
		}
		s.check("removing")
		for i := 0; i < n; i += 3 {
			getOrSet(key(i), size(i)).do(s)
		}
		set("more", 1, 0).do(s)
		s.check("refilling")
		vsched.Sleep(ttl + 1)
		s.h.TriggerExpiration()
		vsched.Quiesce()
		s.check("expiring")
		for i := range n {
			set(key(i), size(n-1-i), 0).do(s)
		}
		s.check("refilling again")
		var ks []string
		for i := range n {
			ks = append(ks, key(i))
		}
		remove(bg, "", ks...).do(s)
		s.check("removing all")
		set("last", total, 0).do(s)
		set("last", total+1, 0).do(s)
		clearOp(bg, "").do(s)
		s.check("Clear")
		vsched.Outcome("%s", what)
	}
}

func (s *state) check(when string) {
	s.m.Check(s.h, when)
	hc.CheckAlloc(s.h, when)
	if t := s.h.Allocation(); s.max > 0 && t > s.max {
		vsched.Fail("[limit] %s: %d bytes are stored, the limit is %d", when, t, s.max)
	}
	if s.h.MaxCacheSize() != s.max {
		vsched.Fail("[limit] MaxCacheSize is %d, configured %d", s.h.MaxCacheSize(), s.max)
	}
}

// concurrent: threads of operations on one or two keys; once all have
// returned the books must balance.
func concurrent(threads, n int, c hc.Cfg) func() {
	type cop struct {
		name string
		do   func(h *hc.Cache, t int) string
	}
	put := func(k string, n int) cop {
		return cop{fmt.Sprintf("set %s %d", k, n), func(h *hc.Cache, t int) string {
			return hc.Show(h.Set(bg, k, strings.Repeat(fmt.Sprint(t), n), 0))
		}}
	}
	cops := []cop{
		put("a", 3), put("a", 5), put("b", 4), put("", 2),
		{"getorset a", func(h *hc.Cache, t int) string { _, err := h.GetOrSet(bg, "a", "xy", 0); return hc.Show(err) }},
		{"remove a", func(h *hc.Cache, t int) string { return hc.Show(h.Remove(bg, "a")) }},
		{"remove a,b", func(h *hc.Cache, t int) string { return hc.Show(h.Remove(bg, "a", "b", "a")) }},
		{"clear", func(h *hc.Cache, t int) string { return hc.Show(h.Clear(bg)) }},
	}
	return func() {
		vsched.Calm(true)
		h := hc.New(bg, c)
		h.Set(bg, "a", "1", 0)
		vsched.Quiesce()
		plan := make([][]cop, threads)
		last := 0
		for i := range threads {
			for j := range n {
				k := 0
				if j == 0 { // threads are interchangeable
					k = last + vsched.Choose(len(cops)-last)
					last = k
				} else {
					k = vsched.Choose(len(cops))
				}
				plan[i] = append(plan[i], cops[k])
			}
		}
		res := make([]string, threads)
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for _, o := range plan[i] {
					res[i] += o.do(h, i+1) + ";"
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		vsched.Quiesce()
		when := ""
		for i := range threads {
			when += fmt.Sprintf("T%d", i+1)
			for _, o := range plan[i] {
				when += " " + o.name + ";"
			}
		}
		hc.CheckAlloc(h, when)
		if t := h.Allocation(); c.MaxSize > 0 && t > c.MaxSize {
			vsched.Fail("[limit] %s: %d bytes are stored, the limit is %d", when, t, c.MaxSize)
		}
		l := hc.Items(h)
		if h.Count(bg) != len(l) {
			vsched.Fail("[count] %s: Count %d, %d listed", when, h.Count(bg), len(l))
		}
		out := ""
		for _, it := range l {
			out += fmt.Sprint(it.Key, it.Value, " ")
		}
		vsched.Outcome("%v %s", res, out)
	}
}

// expiring: removal of an expired item races with writes of the key.
func expiring() {
	vsched.Calm(true)
	h := hc.New(bg, hc.Cfg{Interval: time.Hour})
	h.Set(bg, "a", "123", ttl)
	vsched.Sleep(ttl + 1)
	vsched.Quiesce()
	k := vsched.Choose(3)
	vsched.Calm(false)
	var g vsched.Group
	g.Go(func() { h.TriggerExpiration() })
	g.Go(func() {
		switch k {
		case 0:
			h.Set(bg, "a", "fresh", ttl)
		case 1:
			h.Remove(bg, "a")
		case 2:
			h.Clear(bg)
		}
	})
	g.Wait()
	vsched.Calm(true)
	vsched.Quiesce()
	hc.CheckAlloc(h, "expiration against a write")
	vsched.Outcome("%d %v", k, hc.Keys(hc.Items(h)))
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	kit.Main(
		kit.Scenario{Name: "unlimited", Body: run(3, hc.Cfg{Interval: time.Hour}), Quick: det, Deep: det},
		kit.Scenario{Name: "limited", Body: run(4, hc.Cfg{Interval: time.Hour, MaxSize: 6}), Quick: det, Deep: det, Weight: 2},
		kit.Scenario{Name: "scanned", Body: run(3, hc.Cfg{Interval: time.Second, Expiration: time.Second, MaxSize: 5, Shards: 4}), Quick: det, Deep: det},
		kit.Scenario{Name: "concurrent-2x1", Body: concurrent(2, 1, hc.Cfg{Interval: time.Hour, MaxSize: 8}), Quick: vsched.Opts{Preempt: 2, MaxSteps: 200000}, Deep: vsched.Opts{Preempt: 4, MaxSteps: 200000}, Race: true, Weight: 2},
		kit.Scenario{Name: "concurrent-2x2", Body: concurrent(2, 2, hc.Cfg{Interval: time.Hour}), Quick: vsched.Opts{Preempt: 1, MaxSteps: 200000}, Deep: vsched.Opts{Preempt: 3, MaxSteps: 200000}, Weight: 3},
		kit.Scenario{Name: "concurrent-3x1", Body: concurrent(3, 1, hc.Cfg{Interval: time.Hour}), Quick: vsched.Opts{Preempt: 1, MaxSteps: 200000}, Deep: vsched.Opts{Preempt: 3, MaxSteps: 200000}, Weight: 3},
		kit.Scenario{Name: "expiring", Body: expiring, Quick: vsched.Opts{Preempt: 2, MaxSteps: 200000}, Deep: vsched.Opts{Preempt: 4, MaxSteps: 200000}, Weight: 2},
		kit.Scenario{Name: "large", Body: large(520), Quick: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "vast", Body: vast, Quick: det, Deep: det},
		kit.Scenario{Name: "larger", Body: large(5200), Deep: vsched.Opts{MaxSteps: 1 << 30}, DeepOnly: true},
		kit.Scenario{Name: "limited-5", Body: run(5, hc.Cfg{Interval: time.Hour, MaxSize: 6}), Deep: det, DeepOnly: true, Weight: 6},
	)
}
