// C20: the victim is the one the policy names.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

type model interface {
	set(k string)
	get(k string) bool
	del(k string)
	evict() string // "" when empty
}

// lru: most recently set or read last.
type lru struct {
	capacity int
	l        []string
}

func (m *lru) get(k string) bool {
	i := slices.Index(m.l, k)
	if i < 0 {
		return false
	}
	m.l = append(slices.Delete(m.l, i, i+1), k)
	return true
}

func (m *lru) set(k string) {
	if m.capacity == 0 || m.get(k) {
		return
	}
	if len(m.l) == m.capacity {
		m.evict()
	}
	m.l = append(m.l, k)
}

func (m *lru) del(k string) {
	if i := slices.Index(m.l, k); i >= 0 {
		m.l = slices.Delete(m.l, i, i+1)
	}
}

func (m *lru) evict() string {
	if len(m.l) == 0 {
		return ""
	}
	k := m.l[0]
	m.l = m.l[1:]
	return k
}

// lfu: least often set or read, among equals least recently.
type lfu struct {
	capacity, clock int
	e               []lfuEnt
}

type lfuEnt struct {
	k       string
	n, last int
}

func (m *lfu) get(k string) bool {
	m.clock++
	for i := range m.e {
		if m.e[i].k == k {
			m.e[i].n++
			m.e[i].last = m.clock
			return true
		}
	}
	return false
}

func (m *lfu) set(k string) {
	if m.capacity == 0 || m.get(k) {
		return
	}
	if len(m.e) == m.capacity {
		m.evict()
	}
	m.e = append(m.e, lfuEnt{k, 1, m.clock})
}

func (m *lfu) del(k string) {
	m.e = slices.DeleteFunc(m.e, func(e lfuEnt) bool { return e.k == k })
}

func (m *lfu) evict() string {
	if len(m.e) == 0 {
		return ""
	}
	v := slices.MinFunc(m.e, func(a, b lfuEnt) int {
		if a.n != b.n {
			return a.n - b.n
		}
		return a.last - b.last
	})
	m.del(v.k)
	return v.k
}

// clock: slots in a circle, one second chance per use.
type clock struct {
	s    []string
	n    []int
	hand int
}

func (m *clock) get(k string) bool {
	i := slices.Index(m.s, k)
	if i >= 0 {
		m.n[i]++
	}
	return i >= 0
}

func (m *clock) step() { m.hand = (m.hand + 1) % len(m.s) }

func (m *clock) set(k string) {
	if len(m.s) == 0 || m.get(k) {
		return
	}
	if !slices.Contains(m.s, "") {
		m.evict()
	}
	for m.s[m.hand] != "" {
		m.step()
	}
	m.s[m.hand], m.n[m.hand] = k, 1
	m.step()
}

func (m *clock) del(k string) {
	if i := slices.Index(m.s, k); i >= 0 {
		m.s[i] = ""
	}
}

func (m *clock) evict() string {
	if strings.Join(m.s, "") == "" {
		return ""
	}
	for {
		if k := m.s[m.hand]; k != "" {
			if m.n[m.hand] == 0 {
				m.s[m.hand] = ""
				return k
			}
			m.n[m.hand]--
		}
		m.step()
	}
}

// arc without ghost hits: keys used once go before keys used again, each in
// order of last use.
type arc struct {
	once, again lru
	capacity    int
}

func (m *arc) get(k string) bool {
	if slices.Contains(m.once.l, k) {
		m.once.del(k)
		m.again.l = append(m.again.l, k)
		return true
	}
	return m.again.get(k)
}

func (m *arc) set(k string) {
	if m.capacity == 0 || m.get(k) {
		return
	}
	if len(m.once.l)+len(m.again.l) == m.capacity {
		m.evict()
	}
	m.once.l = append(m.once.l, k)
}

func (m *arc) del(k string) { m.once.del(k); m.again.del(k) }

func (m *arc) evict() string {
	if k := m.once.evict(); k != "" {
		return k
	}
	return m.again.evict()
}

// shards: keys spread over independent models by the hash of the data map,
// evictions go round.
type shards struct {
	s []model
	n int
}

func (m *shards) of(k string) model { return m.s[int(cache.Hash(k))%len(m.s)] }
func (m *shards) set(k string)      { m.of(k).set(k) }
func (m *shards) get(k string) bool { return m.of(k).get(k) }
func (m *shards) del(k string)      { m.of(k).del(k) }
func (m *shards) evict() string {
	m.n++
	for i := range m.s {
		if k := m.s[(m.n-1+i)%len(m.s)].evict(); k != "" {
			return k
		}
	}
	return ""
}

func newModel(name string, c int) model {
	switch name {
	case "lru", "cawolfu":
		return &lru{capacity: c}
	case "lfu":
		return &lfu{capacity: c}
	case "clock":
		return &clock{s: make([]string, c), n: make([]int, c)}
	}
	return &arc{capacity: c}
}

const (
	oSet = iota
	oGet
	oDel
	oEvict
)

var keys = pickKeys()

func pickKeys() []string {
	out := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	for i := len(out); i < 3000; i++ {
		out = append(out, fmt.Sprintf("key-%d", i))
	}
	return out
}

type step struct{ o, k int }

func (s step) String() string {
	if s.o == oEvict {
		return "evict"
	}
	return []string{"set ", "get ", "del "}[s.o] + keys[s.k]
}

// order runs every sequence against the model and compares every victim and
// the order in which the rest goes.
func order(name string, shardN, caps, nk, depth, deep int, fresh bool) func(p *kit.P) {
	return func(p *kit.P) {
		n := depth
		if p.Deep() {
			n = deep
		}
		for c := 1; c <= caps; c++ {
			var rec func(seq []step, used int)
			rec = func(seq []step, used int) {
				if len(seq) == n {
					compare(p, name, shardN, c, seq, fresh)
					return
				}
				for k := range min(used+1, nk) {
					for o := range oEvict {
						if k == used && o != oSet {
							continue
						}
						rec(append(seq, step{o, k}), max(used, k+1))
					}
				}
				if used > 0 {
					rec(append(seq, step{o: oEvict}), used)
				}
			}
			rec(make([]step, 0, n), 0)
		}
	}
}

func compare(p *kit.P, name string, shardN, c int, seq []step, fresh bool) {
	compareAs(p, fmt.Sprint(c, seq), name, shardN, c, seq, fresh)
}

func compareAs(p *kit.P, id, name string, shardN, c int, seq []step, fresh bool) {
	if !p.Begin("%s", id) {
		return
	}
	var x eviction.IAlgorithm
	var err error
	var m model
	switch {
	case name == "arc":
		x, err = eviction.NewARCAlgorithm(c)
		m = newModel(name, c)
	case shardN > 0:
		x, err = eviction.NewSharded(name, c, shardN)
		s := &shards{}
		for range shardN {
			s.s = append(s.s, newModel(name, (c+shardN-1)/shardN))
		}
		m = s
	default:
		x, err = eviction.NewEvictionAlgorithm(name, c)
		m = newModel(name, c)
	}
	if err != nil {
		p.Fail(id, "new", "%v", err)
		return
	}
	gone := map[string]bool{} // set once and not tracked any more
	for i, s := range seq {
		k := keys[s.k]
		switch s.o {
		case oSet:
			if fresh {
				if gone[k] && !m.get(k) {
					return // a ghost hit: adaptive, not modelled
				}
				gone[k] = true
			}
			x.Set(k, i)
			m.set(k)
		case oGet:
			_, ok := x.Get(k)
			if w := m.get(k); ok != w {
				p.Fail(id, "policy", "capacity %d: %s: step %d, %s is tracked: %v, the policy says %v", c, show(seq[:i+1]), i+1, k, ok, w)
				return
			}
		case oDel:
			x.Delete(k)
			m.del(k)
		case oEvict:
			k, _ := x.Evict()
			if w := m.evict(); k != w {
				p.Fail(id, "policy", "capacity %d: %s: step %d evicted %q, the policy says %q", c, show(seq[:i+1]), i+1, k, w)
				return
			}
		}
	}
	var got, want []string
	for range c + shardN + 2 {
		k, _ := x.Evict()
		got = append(got, k)
		want = append(want, m.evict())
	}
	if !slices.Equal(got, want) {
		i := 0
		for got[i] == want[i] {
			i++
		}
		p.Fail(id, "policy", "capacity %d: %s: then the eviction number %d names %q, the policy says %q", c, show(seq), i+1, got[i], want[i])
	}
	p.Outcome("%s", strings.Join(want[:min(len(want), 8)], ""))
}

func show(seq []step) string {
	s := fmt.Sprint(seq)
	if len(s) > 300 {
		return fmt.Sprintf("%d operations ending %s", len(seq), s[len(s)-200:])
	}
	return s
}

// large: capacities and use counts far beyond those of the sequences above.
func large(name string, shardN int) func(p *kit.P) {
	return func(p *kit.P) {
		limit, uses := 300, 5000
		if p.Deep() {
			limit, uses = 1100, 70000
		}
		fresh := name == "arc"
		var seq []step
		add := func(o, k int) { seq = append(seq, step{o, k}) }
		for _, c := range kit.Sizes(limit) {
			if c == 0 {
				continue
			}
			for _, kind := range []string{"scan", "mixed", "churn"} {
				seq = nil
				switch kind {
				case "scan": // twice as many keys as fit, one use each
					for k := range 2 * c {
						add(oSet, k)
					}
				case "mixed": // uneven use, deletions, refills
					for k := range c {
						add(oSet, k)
					}
					for k := range c {
						for range k * 7 % 5 {
							add(oGet, k)
						}
					}
					for k := 0; k < c; k += 3 {
						add(oDel, k)
					}
					for k := range c/2 + 1 {
						add(oSet, c+k)
						if k%2 == 0 {
							add(oGet, c+k)
						}
					}
					for range c / 4 {
						add(oEvict, 0)
					}
					for k := range c/2 + 1 {
						add(oSet, 2*c+k)
						add(oGet, c+k)
					}
				case "churn": // one key stays in use while others pass through
					for k := range 2*c + 3 {
						add(oSet, k)
						if k%max(1, c/2) == 0 {
							add(oGet, 0)
							add(oGet, k)
						}
					}
				}
				compareAs(p, fmt.Sprint(kind, c), name, shardN, c, seq, fresh)
			}
		}
		for _, u := range kit.Sizes(uses) { // keys told apart by one use among many
			for _, first := range []int{0, 1} {
				seq = nil
				add(oSet, 0)
				add(oSet, 1)
				for range u {
					add(oGet, first)
				}
				for range u + 1 {
					add(oGet, 1-first)
				}
				add(oGet, first)
				add(oSet, 2)
				add(oEvict, 0)
				compareAs(p, fmt.Sprint("uses", u, first), name, shardN, 3, seq, fresh)
			}
		}
	}
}

// long: keys used tens of thousands of times, more often than small counters
// can tell, and many shards.
func long(p *kit.P) {
	ns := []int{1, 7, 8, 9, 14, 15, 16, 17, 31, 33, 63, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 32767, 32769, 65534, 65535, 65536, 65600}
	if !p.Deep() {
		ns = []int{1, 8, 9, 15, 16, 17, 32, 65, 128, 129, 255, 256, 257, 1000, 32769, 65535, 65536, 65600}
	}
	for _, name := range []string{"lru", "lfu", "clock", "cawolfu"} {
		for _, u := range ns {
			for _, v := range ns {
				for _, kind := range []string{"read", "set"} {
					if u > 1000 && v > 1000 && u != v && u != 32769 && !p.Deep() {
						continue
					}
					o := oGet
					if kind == "set" {
						o = oSet
					}
					seq := []step{{oSet, 0}, {oSet, 1}, {oSet, 2}}
					for range u {
						seq = append(seq, step{o, 0})
					}
					for range v {
						seq = append(seq, step{o, 1})
					}
					for range min(u, v) / 2 {
						seq = append(seq, step{o, 2})
					}
					seq = append(seq, step{o: oEvict}, step{oSet, 3}, step{o: oEvict})
					compareAs(p, fmt.Sprint(name, kind, u, v), name, 0, 4, seq, false)
				}
			}
		}
	}
	for _, n := range []int{1, 8, 64, 128, 256, 512, 1024, 2048} {
		var seq []step
		for k := range 2500 {
			seq = append(seq, step{oSet, k})
		}
		for range 1500 {
			seq = append(seq, step{o: oEvict})
		}
		for k := range 100 {
			seq = append(seq, step{oSet, k}, step{o: oEvict})
		}
		for _, name := range []string{"lru", "lfu"} {
			compareAs(p, fmt.Sprint(name, "shards", n), name, n, 3000, seq, false)
		}
	}
}

func main() {
	var scs []kit.Scenario
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu"} {
		scs = append(scs,
			kit.Scenario{Name: n, Plain: order(n, 0, 3, 4, 7, 9, false), Weight: 4},
			kit.Scenario{Name: n + " wide", Plain: order(n, 0, 4, 5, 6, 8, false), Weight: 2},
			kit.Scenario{Name: n + "/2", Plain: order(n, 2, 4, 4, 6, 7, false), Weight: 2},
			kit.Scenario{Name: n + "/1", Plain: order(n, 1, 3, 4, 5, 6, false)})
	}
	for _, n := range []string{"lru", "lfu", "clock", "cawolfu", "arc"} {
		scs = append(scs, kit.Scenario{Name: n + " large", Plain: large(n, 0)})
	}
	scs = append(scs, kit.Scenario{Name: "lru/16 large", Plain: large("lru", 16)})
	scs = append(scs, kit.Scenario{Name: "long", Plain: long, Weight: 2})
	scs = append(scs, kit.Scenario{Name: "arc", Plain: order("arc", 0, 4, 8, 7, 8, true), Weight: 2})
	kit.Main(scs...)
}
