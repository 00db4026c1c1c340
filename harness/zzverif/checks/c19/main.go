// C19: every eviction algorithm is a bounded store that can always name a
// victim and never forgets or invents a key.
package main

import (
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

type algo struct {
	name  string
	slots func(capacity int) int
	mk    func(capacity int) (eviction.IAlgorithm, error)
}

func plain(n int) int { return n }

func algos() []algo {
	var out []algo
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu"} {
		out = append(out, algo{n, plain, func(c int) (eviction.IAlgorithm, error) { return eviction.NewEvictionAlgorithm(n, c) }})
	}
	out = append(out, algo{"arc", plain, func(c int) (eviction.IAlgorithm, error) { return eviction.NewARCAlgorithm(c) }})
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu"} {
		out = append(out, algo{n + "/1", plain, func(c int) (eviction.IAlgorithm, error) { return eviction.NewSharded(n, c, 1) }})
	}
	return out
}

var keys = []string{"", "b", "c", "d", "e", "f"}

const (
	oSet = iota
	oGet
	oDel
	oEvict
)

type step struct{ o, k int }

func (s step) String() string {
	if s.o == oEvict {
		return "evict"
	}
	return []string{"set ", "get ", "del "}[s.o] + keys[s.k]
}

func show(seq []step) string {
	var out []string
	for _, s := range seq {
		out = append(out, s.String())
	}
	return strings.Join(out, ", ")
}

// bounded runs every sequence of operations (keys named in order of first use)
// on a fresh instance and looks at what it tracks after each one.
func bounded(a algo, nk, depth, deep int) func(p *kit.P) {
	return func(p *kit.P) {
		n := depth
		if p.Deep() {
			n = deep
		}
		for c := 0; c <= 3; c++ {
			var rec func(seq []step, used int)
			rec = func(seq []step, used int) {
				if len(seq) == n {
					one(p, a, c, seq)
					return
				}
				for k := range min(used+1, nk) {
					for o := range oEvict {
						if o != oSet && k == used {
							continue // an unknown key: covered by deleted and evicted ones
						}
						rec(append(seq, step{o, k}), max(used, k+1))
					}
				}
				rec(append(seq, step{o: oEvict}), used)
			}
			rec(make([]step, 0, n), 0)
		}
	}
}

// one checks the last operation of seq: the ones before it are checked as the
// last ones of shorter sequences (all prefixes are covered from length 1 on by
// the loop below).
func one(p *kit.P, a algo, c int, seq []step) {
	id := fmt.Sprintf("%d:%s", c, show(seq))
	if !p.Begin("%s", id) {
		return
	}
	x, err := a.mk(c)
	if err != nil {
		p.Fail(id, "new", "%v", err)
		return
	}
	held := map[string]int{} // tracked keys as far as known
	maybe := false           // a Set replaced an unknown victim: held has one key too many
	for i, s := range seq {
		k := keys[s.k]
		switch s.o {
		case oSet:
			x.Set(k, i)
			if c == 0 {
				break
			}
			if _, ok := held[k]; !ok && len(held) == c {
				maybe = true
			}
			held[k] = i
		case oGet:
			v, ok := x.Get(k)
			w, known := held[k]
			switch {
			case ok && (!known || v != w):
				p.Fail(id, "get", "capacity %d, %s: step %d got %v, want %v (tracked %v)", c, show(seq), i+1, v, w, known)
				return
			case !ok && known && !maybe:
				p.Fail(id, "forgotten", "capacity %d, %s: %s is not tracked any more at step %d", c, show(seq), k, i+1)
				return
			case !ok && known:
				delete(held, k) // it was the victim
				maybe = false
			}
		case oDel:
			if maybe {
				if _, ok := held[k]; ok {
					// is it the victim or not? ask a copy of the history
					held, maybe = settle(a, c, seq[:i], held)
				}
			}
			x.Delete(k)
			delete(held, k)
		case oEvict:
			if maybe {
				held, maybe = settle(a, c, seq[:i], held)
			}
			k, ok := x.Evict()
			if ok != (len(held) > 0) {
				p.Fail(id, "evict-none", "capacity %d, %s: with %d keys tracked Evict (step %d) answered %q %v", c, show(seq), len(held), i+1, k, ok)
				return
			}
			if _, known := held[k]; ok && !known || !ok && k != "" {
				p.Fail(id, "evict-unknown", "capacity %d, %s: Evict (step %d) named %q, tracked are %v", c, show(seq), i+1, k, held)
				return
			}
			delete(held, k)
		}
		if maybe {
			held, maybe = settle(a, c, seq[:i+1], held)
			if s.o == oSet {
				if _, ok := held[keys[s.k]]; !ok {
					p.Fail(id, "forgotten", "capacity %d, %s: %s is not tracked right after step %d set it", c, show(seq), keys[s.k], i+1)
					return
				}
			}
			if len(held) < c {
				p.Fail(id, "over-eviction", "capacity %d, %s: step %d at capacity left %d keys", c, show(seq), i+1, len(held))
				return
			}
		}
		if len(held) > c {
			p.Fail(id, "capacity", "capacity %d, %s: %d keys tracked after step %d", c, show(seq), len(held), i+1)
			return
		}
	}
	// drain: exactly the tracked keys, each once
	want := slices.Sorted(maps.Keys(held))
	for i, k := range keys {
		if _, ok := held[k]; !ok {
			if _, ok := x.Get(k); ok {
				p.Fail(id, "ghost", "capacity %d, %s: key %d %s is tracked, want %v", c, show(seq), i, k, want)
				return
			}
		}
	}
	var got []string
	for range len(want) + 2 {
		k, ok := x.Evict()
		if !ok {
			break
		}
		got = append(got, k)
	}
	slices.Sort(got)
	if !slices.Equal(got, want) {
		p.Fail(id, "drain", "capacity %d, %s: tracked %v, but evicting until empty gave %v", c, show(seq), want, got)
	}
	p.Outcome("%d of %d", len(want), c)
}

// settle finds out which keys are still tracked after seq, on an instance of
// its own (looking disturbs the order).
func settle(a algo, c int, seq []step, held map[string]int) (map[string]int, bool) {
	x, _ := a.mk(c)
	for i, s := range seq {
		switch s.o {
		case oSet:
			x.Set(keys[s.k], i)
		case oGet:
			x.Get(keys[s.k])
		case oDel:
			x.Delete(keys[s.k])
		case oEvict:
			x.Evict()
		}
	}
	out := map[string]int{}
	for k, v := range held {
		if _, ok := x.Get(k); ok {
			out[k] = v
		}
	}
	return out, false
}

// sharded: several shards together.
func sharded(p *kit.P) {
	n := 4
	if p.Deep() {
		n = 5
	}
	for _, name := range []string{"lru", "lfu", "clock", "cawolfu"} {
		for _, shards := range []int{2, 4} {
			for c := 0; c <= 5; c++ {
				per := (c + shards - 1) / shards
				var rec func(seq []step)
				rec = func(seq []step) {
					if len(seq) == n+2 {
						shardedOne(p, name, shards, c, per, seq)
						return
					}
					lo := 0
					if len(seq) < 2 {
						rec(append(seq, step{oSet, len(seq)}))
						return
					}
					for k := lo; k < 4; k++ {
						for o := range oEvict {
							if len(seq) > n-1 && o == oGet {
								continue
							}
							rec(append(seq, step{o, k}))
						}
					}
					rec(append(seq, step{o: oEvict}))
				}
				rec(make([]step, 0, n+2))
			}
		}
	}
}

func shardedOne(p *kit.P, name string, shards, c, per int, seq []step) {
	id := fmt.Sprintf("%s/%d %d:%s", name, shards, c, show(seq))
	if !p.Begin("%s", id) {
		return
	}
	x, err := eviction.NewSharded(name, c, shards)
	if err != nil {
		p.Fail(id, "new", "%v", err)
		return
	}
	for i, s := range seq {
		switch s.o {
		case oSet:
			x.Set(keys[s.k], i)
			if v, ok := x.Get(keys[s.k]); (ok && v == any(i)) != (per > 0) {
				p.Fail(id, "forgotten", "%s: step %d, Get right after Set gives %v %v", id, i+1, v, ok)
				return
			}
		case oGet:
			x.Get(keys[s.k])
		case oDel:
			x.Delete(keys[s.k])
			if _, ok := x.Get(keys[s.k]); ok {
				p.Fail(id, "ghost", "%s: step %d, Get right after Delete hits", id, i+1)
				return
			}
		case oEvict:
			k, ok := x.Evict()
			if _, hit := x.Get(k); ok && (hit || !slices.Contains(keys, k)) {
				p.Fail(id, "evict-unknown", "%s: step %d evicted %q, tracked after: %v", id, i+1, k, hit)
				return
			}
		}
	}
	var held []string
	for _, k := range keys {
		if _, ok := x.Get(k); ok {
			held = append(held, k)
		}
	}
	if len(held) > per*shards {
		p.Fail(id, "capacity", "%s: %d keys tracked", id, len(held))
	}
	var got []string
	for range len(held) + 2 {
		k, ok := x.Evict()
		if !ok {
			break
		}
		got = append(got, k)
	}
	slices.Sort(got)
	if !slices.Equal(got, held) {
		p.Fail(id, "drain", "%s: tracked %v, but evicting until empty gave %v", id, held, got)
	}
	p.Outcome("%d", len(held))
}

// busy: a victim is found however often the items were used, and at once.
func busy(p *kit.P) {
	for _, a := range algos() {
		for c := 1; c <= 4; c++ {
			for uses := 0; uses <= 40; uses += 8 {
				id := fmt.Sprintf("%s %d %d", a.name, c, uses)
				if !p.Begin("%s", id) {
					continue
				}
				x, _ := a.mk(c)
				for i := range c {
					x.Set(keys[i], i)
					for range uses + i {
						x.Get(keys[i])
					}
				}
				x.Set("new", 1)
				if _, ok := x.Get("new"); !ok {
					p.Fail(id, "forgotten", "%s: a new key was not tracked by a full cache", id)
				}
				for i := range c {
					if k, ok := x.Evict(); !ok {
						p.Fail(id, "evict-none", "%s: %d keys tracked, Evict answered %q %v", id, c-i, k, ok)
						break
					}
				}
				if k, ok := x.Evict(); ok {
					p.Fail(id, "evict-unknown", "%s: an empty cache evicted %q", id, k)
				}
			}
		}
	}
}

// large: capacities far beyond those of the sequences.
func large(p *kit.P) {
	limit := 520
	if p.Deep() {
		limit = 2100
	}
	name := func(k int) string { return fmt.Sprintf("key-%d", k) }
	for _, a := range algos() {
		for _, c := range kit.Sizes(limit) {
			if c == 0 {
				continue
			}
			for _, kind := range []string{"fill", "over", "deleted", "replaced"} {
				id := fmt.Sprintf("%s %d %s", a.name, c, kind)
				if !p.Begin("%s", id) {
					continue
				}
				x, err := a.mk(c)
				if err != nil {
					p.Fail(id, "new", "%v", err)
					continue
				}
				n, want := c, c
				if kind == "over" {
					n = 2*c + 1
				}
				for k := range n {
					x.Set(name(k), k)
					if v, ok := x.Get(name(k)); !ok || v != any(k) {
						p.Fail(id, "forgotten", "%s: %s is %v %v right after its Set", id, name(k), v, ok)
					}
				}
				val := func(k int) int { return k }
				switch kind {
				case "deleted":
					for k := 0; k < n; k += 2 {
						x.Delete(name(k))
						want--
					}
				case "replaced":
					for k := range n {
						x.Set(name(k), -k)
					}
					val = func(k int) int { return -k }
				}
				held := map[string]bool{}
				for k := range n {
					v, ok := x.Get(name(k))
					if !ok {
						continue
					}
					held[name(k)] = true
					if v != any(val(k)) {
						p.Fail(id, "get", "%s: %s is %v, want %d", id, name(k), v, val(k))
					}
					if kind == "deleted" && k%2 == 0 {
						p.Fail(id, "ghost", "%s: %s, deleted, is tracked", id, name(k))
					}
				}
				if len(held) != want {
					p.Fail(id, "capacity", "%s: %d keys are tracked, want %d", id, len(held), want)
				}
				for i := range len(held) {
					k, ok := x.Evict()
					if !ok || !held[k] {
						p.Fail(id, "drain", "%s: eviction %d of %d named %q %v", id, i+1, want, k, ok)
						break
					}
					delete(held, k)
				}
				if k, ok := x.Evict(); ok {
					p.Fail(id, "evict-unknown", "%s: an empty cache evicted %q", id, k)
				}
				p.Outcome("%s", kind)
			}
		}
		for _, u := range kit.Sizes(70000) { // used very often, and still a victim when asked for
			id := fmt.Sprintf("%s used %d", a.name, u)
			if !p.Begin("%s", id) {
				continue
			}
			x, _ := a.mk(2)
			x.Set("a", 1)
			x.Set("b", 2)
			for range u {
				x.Get("a")
				x.Get("b")
			}
			x.Set("c", 3)
			_, c := x.Get("c")
			k1, ok1 := x.Evict()
			k2, ok2 := x.Evict()
			k3, ok3 := x.Evict()
			if !c || !ok1 || !ok2 || ok3 || k1 == k2 || k1 != "c" && k2 != "c" {
				p.Fail(id, "evict-none", "%s: c is tracked: %v; evictions: %q %v, %q %v, %q %v", id, c, k1, ok1, k2, ok2, k3, ok3)
			}
			p.Outcome("used")
		}
	}
	for _, l := range kit.Sizes(70000) { // long keys
		for _, a := range algos() {
			id := fmt.Sprintf("%s key of %d bytes", a.name, l)
			if !p.Begin("%s", id) {
				continue
			}
			x, _ := a.mk(4)
			k1, k2 := strings.Repeat("x", l)+"1", strings.Repeat("x", l)+"2"
			x.Set(k1, 1)
			x.Set(k2, 2)
			v1, ok1 := x.Get(k1)
			v2, ok2 := x.Get(k2)
			if !ok1 || !ok2 || v1 != any(1) || v2 != any(2) {
				p.Fail(id, "get", "%s: %v %v, %v %v", id, v1, ok1, v2, ok2)
			}
			x.Delete(k1)
			if k, ok := x.Evict(); !ok || k != k2 {
				p.Fail(id, "drain", "%s: evicted %.20q... (%d bytes) %v", id, k, len(k), ok)
			}
			p.Outcome("long")
		}
	}
}

// registry: names and parameters.
func registry(p *kit.P) {
	if !p.Begin("registry") {
		return
	}
	bad := func(err, want error) bool { return !errors.Is(err, want) }
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu"} {
		if _, err := eviction.NewEvictionAlgorithm(n, -1); bad(err, sentinel.ErrInvalidCapacity) {
			p.Fail("registry", "capacity", "%s with capacity -1: %v", n, err)
		}
		if x, err := eviction.NewEvictionAlgorithm(n, 0); err != nil || x == nil {
			p.Fail("registry", "capacity", "%s with capacity 0: %v", n, err)
		}
		if _, err := eviction.NewSharded(n, -1, 2); bad(err, sentinel.ErrInvalidCapacity) {
			p.Fail("registry", "capacity", "sharded %s with capacity -1: %v", n, err)
		}
		for _, s := range []int{-4, -1, 0, 3, 5, 6, 7, 9, 12, 100} {
			if _, err := eviction.NewSharded(n, 10, s); bad(err, sentinel.ErrInvalidCapacity) {
				p.Fail("registry", "shards", "%d shards: %v", s, err)
			}
		}
		for s := 1; s <= 256; s *= 2 {
			if x, err := eviction.NewSharded(n, 10, s); err != nil || x == nil {
				p.Fail("registry", "shards", "%d shards: %v", s, err)
			}
		}
	}
	if _, err := eviction.NewEvictionAlgorithm("", 1); bad(err, sentinel.ErrParamCannotBeEmpty) {
		p.Fail("registry", "name", "empty name: %v", err)
	}
	for _, n := range []string{"x", "LRU", "lru ", "arc"} {
		if _, err := eviction.NewEvictionAlgorithm(n, 1); bad(err, sentinel.ErrAlgorithmNotFound) {
			p.Fail("registry", "name", "%q: %v", n, err)
		}
		if _, err := eviction.NewSharded(n, 1, 1); bad(err, sentinel.ErrAlgorithmNotFound) {
			p.Fail("registry", "name", "sharded %q: %v", n, err)
		}
	}
	e := eviction.NewEmptyAlgorithmRegistry()
	if _, err := e.NewAlgorithm("lru", 1); bad(err, sentinel.ErrAlgorithmNotFound) {
		p.Fail("registry", "empty", "an empty registry made lru: %v", err)
	}
	r := eviction.NewAlgorithmRegistry()
	for _, x := range []*eviction.AlgorithmRegistry{e, r} {
		for _, n := range []string{"mine", "lru"} {
			got := -1
			x.Register(n, func(c int) (eviction.IAlgorithm, error) { got = c; return eviction.NewARCAlgorithm(c) })
			a, err := x.NewAlgorithm(n, 7)
			if _, ok := a.(*eviction.ARC); !ok || err != nil || got != 7 {
				p.Fail("registry", "register", "%s made %T with %d: %v", n, a, got, err)
			}
		}
	}
	if a, err := eviction.NewEvictionAlgorithm("lru", 2); err != nil {
		p.Fail("registry", "register", "%v", err)
	} else if _, ok := a.(*eviction.ARC); ok {
		p.Fail("registry", "register", "a registration in one registry shows in another")
	}
	p.Outcome("ok")
}

// concurrent: operations take effect one at a time: what they return is what
// some order of them returns on the same algorithm used by one goroutine.
func concurrent(a algo, nt, per int) func() {
	return func() {
		x, _ := a.mk(2)
		var pre []step
		for i := range vsched.Choose(3) {
			pre = append(pre, step{oSet, i})
		}
		progs := make([][]step, nt)
		first := 0
		al := []step{{oSet, 0}, {oSet, 2}, {oGet, 0}, {oGet, 1}, {oDel, 0}, {oEvict, 0}}
		for t := range progs {
			for s := range per {
				lo := 0
				if s == 0 {
					lo = first
				}
				c := lo + vsched.Choose(len(al)-lo)
				if s == 0 {
					first = c
				}
				progs[t] = append(progs[t], al[c])
			}
		}
		run := func(x eviction.IAlgorithm, s step, v int) string {
			switch s.o {
			case oSet:
				x.Set(keys[s.k], v)
			case oGet:
				v, ok := x.Get(keys[s.k])
				return fmt.Sprint(v, ok)
			case oDel:
				x.Delete(keys[s.k])
			case oEvict:
				return fmt.Sprint(x.Evict())
			}
			return ""
		}
		drain := func(x eviction.IAlgorithm) string {
			s := ""
			for range 5 {
				k, ok := x.Evict()
				if !ok {
					break
				}
				s += k + " "
			}
			return s
		}
		for i, s := range pre {
			run(x, s, i)
		}
		type hist struct {
			ops []func(eviction.IAlgorithm) string
		}
		h := ref.NewHist[*hist](nt)
		var g vsched.Group
		for t := range progs {
			g.Go(func() {
				for i, s := range progs[t] {
					v := 10*t + i + 10
					do := func(x eviction.IAlgorithm) string { return run(x, s, v) }
					h.Do(t, s.String(), func() string { return do(x) }, func(m *hist) string {
						m.ops = append(m.ops, do)
						y, _ := a.mk(2)
						for i, s := range pre {
							run(y, s, i)
						}
						r := ""
						for _, f := range m.ops {
							r = f(y)
						}
						return r
					})
				}
			})
		}
		g.Wait()
		end := drain(x)
		vsched.Outcome("%s", end)
		if !h.Explained(&hist{}, func(m *hist) *hist { return &hist{slices.Clone(m.ops)} }, func(m *hist) bool {
			y, _ := a.mk(2)
			for i, s := range pre {
				run(y, s, i)
			}
			for _, f := range m.ops {
				f(y)
			}
			return drain(y) == end
		}) {
			vsched.Fail("[linearizable]%s, then evicting gave %s: no order of the operations explains it", h, end)
		}
	}
}

func main() {
	var scs []kit.Scenario
	for _, a := range algos() {
		if strings.HasSuffix(a.name, "/1") {
			scs = append(scs, kit.Scenario{Name: "sequences " + a.name, Plain: bounded(a, 4, 5, 6)})
			continue
		}
		scs = append(scs, kit.Scenario{Name: "sequences " + a.name, Plain: bounded(a, 5, 7, 8), Weight: 6},
			kit.Scenario{Name: "concurrent " + a.name, Body: concurrent(a, 2, 2), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 5}, Race: true},
			kit.Scenario{Name: "concurrent3 " + a.name, Body: concurrent(a, 3, 1), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 5}})
	}
	scs = append(scs,
		kit.Scenario{Name: "sharded", Plain: sharded, Weight: 3},
		kit.Scenario{Name: "busy", Plain: busy},
		kit.Scenario{Name: "large", Plain: large, Weight: 2},
		kit.Scenario{Name: "registry", Plain: registry, Single: true},
	)
	kit.Main(scs...)
}
