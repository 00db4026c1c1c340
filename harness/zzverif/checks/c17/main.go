// C17: the sharded map is one atomic map per key with an exact count.
package main

import (
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"github.com/cespare/xxhash/v2"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsync"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// keys: keys[0] and keys[1] share a shard, keys[2] does not.
var keys = pickKeys()

func pickKeys() []string {
	m := cache.New()
	ks := []string{"k0"}
	for i := 1; len(ks) < 2; i++ {
		if k := fmt.Sprintf("k%d", i); m.GetShard(k) == m.GetShard("k0") {
			ks = append(ks, k)
		}
	}
	for i := 1; len(ks) < 3; i++ {
		if k := fmt.Sprintf("k%d", i); m.GetShard(k) != m.GetShard("k0") {
			ks = append(ks, k)
		}
	}
	return ks
}

type ent struct {
	id  int
	acc uint32
}

type model map[string]ent

func clone(m model) model { return maps.Clone(m) }

func (m model) String() string {
	var out []string
	for k, e := range m {
		out = append(out, fmt.Sprintf("%s=%d/%d", k, e.id, e.acc))
	}
	slices.Sort(out)
	return strings.Join(out, " ")
}

// mk: the map goes by the key an item is stored under, not by the one it names.
func mk(k string, id int) *cache.Item {
	return &cache.Item{Key: "of " + k, Value: id, Size: int64(id)}
}

func show(it *cache.Item, ok bool) string {
	if it == nil || !ok {
		return fmt.Sprintf("none %v", ok)
	}
	return fmt.Sprintf("%s=%v/%d", it.Key, it.Value, it.Size)
}

func (m model) show(k string) string {
	e, ok := m[k]
	if !ok {
		return "none false"
	}
	return fmt.Sprintf("of %s=%d/%d", k, e.id, e.id)
}

const (
	set = iota
	get
	getCopy
	touch
	has
	pop
	remove
	swap
	popOdd
	clearAll
	nops
)

var names = []string{"set", "get", "copy", "touch", "has", "pop", "remove", "swap", "pop-odd", "clear"}

func real(m *cache.ConcurrentMap, o int, k string, id int) string {
	switch o {
	case set:
		m.Set(k, mk(k, id))
	case get:
		it, ok := m.Get(k)
		return show(it, ok)
	case getCopy:
		it, ok := m.GetCopy(k)
		if it == nil {
			return show(it, ok)
		}
		return fmt.Sprintf("%s #%d", show(it, ok), it.AccessCount)
	case touch:
		return fmt.Sprint(m.Touch(k))
	case has:
		return fmt.Sprint(m.Has(k))
	case pop:
		it, ok := m.Pop(k)
		return show(it, ok)
	case remove:
		m.Remove(k)
	case swap:
		it := m.Swap(k, mk(k, id))
		return show(it, it != nil)
	case popOdd:
		it, ok := m.PopIf(k, func(it *cache.Item) bool { return it.Size%2 == 1 })
		return show(it, ok)
	case clearAll:
		m.Clear()
	}
	return ""
}

func (m model) do(o int, k string, id int) string {
	e, ok := m[k]
	switch o {
	case set:
		m[k] = ent{id: id}
	case get:
		return m.show(k)
	case getCopy:
		if !ok {
			return m.show(k)
		}
		return fmt.Sprintf("%s #%d", m.show(k), e.acc)
	case touch:
		if ok {
			e.acc++
			m[k] = e
		}
		return fmt.Sprint(ok)
	case has:
		return fmt.Sprint(ok)
	case pop:
		s := m.show(k)
		delete(m, k)
		return s
	case remove:
		delete(m, k)
	case swap:
		s := m.show(k)
		m[k] = ent{id: id}
		return s
	case popOdd:
		if e.id%2 == 0 {
			return "none false"
		}
		s := m.show(k)
		delete(m, k)
		return s
	case clearAll:
		clear(m)
	}
	return ""
}

// contents through the iterator, compared with the model.
func contents(m *cache.ConcurrentMap) string {
	x := model{}
	n := 0
	for k, it := range m.All() {
		n++
		id, _ := it.Value.(int)
		x[k] = ent{id, it.AccessCount}
	}
	if n != len(x) {
		return "an entry was yielded twice"
	}
	return x.String()
}

// sequences: every sequence of operations against a plain map.
func sequences(p *kit.P) {
	depth := 4
	if p.Deep() {
		depth = 5
	}
	type step struct {
		o int
		k string
	}
	var al []step
	for o := range nops {
		for i, k := range keys {
			if o == clearAll && i > 0 {
				continue
			}
			al = append(al, step{o, k})
		}
	}
	seq := make([]step, 0, depth)
	run := func() {
		id := ""
		for _, s := range seq {
			id += names[s.o] + " " + s.k + ";"
		}
		if !p.Begin("%s", id) {
			return
		}
		m := cache.New()
		ref := model{}
		var copies []*cache.Item
		var was []cache.Item
		for i, s := range seq {
			got, want := real(&m, s.o, s.k, i+1), ref.do(s.o, s.k, i+1)
			if got != want {
				p.Fail(id, "result", "%s: step %d returned %q, want %q", id, i+1, got, want)
				return
			}
			if c, ok := m.GetCopy(s.k); ok {
				copies, was = append(copies, c), append(was, *c)
			}
			if m.Count() != len(ref) {
				p.Fail(id, "count", "%s: after step %d Count() is %d, the map holds %d", id, i+1, m.Count(), len(ref))
				return
			}
		}
		if g, w := contents(&m), ref.String(); g != w {
			p.Fail(id, "contents", "%s: the map holds %q, want %q", id, g, w)
			return
		}
		for i, c := range copies {
			if *c != was[i] {
				p.Fail(id, "copy", "%s: a copy changed from %+v to %+v", id, was[i], *c)
			}
			*c = cache.Item{Key: "scribble", Value: -1}
		}
		if g, w := contents(&m), ref.String(); g != w {
			p.Fail(id, "copy", "%s: modifying copies changed the map to %q", id, g)
			return
		}
		// stopping an iteration early releases everything
		for n := range 3 {
			i := 0
			for range m.All() {
				if i++; i > n {
					break
				}
			}
			if i != min(n+1, len(ref)) {
				p.Fail(id, "all", "%s: %d entries yielded before the stop, want %d", id, i, min(n+1, len(ref)))
			}
		}
		m.Set("x", mk("x", 1))
		if !m.Has("x") || m.Count() != len(ref)+1 {
			p.Fail(id, "count", "%s: then Set(x): Count() %d of %d", id, m.Count(), len(ref)+1)
		}
		p.Outcome("%d", len(ref))
	}
	var rec func()
	rec = func() {
		if len(seq) == depth {
			run()
			return
		}
		for _, s := range al {
			seq = append(seq, s)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

// spread: many keys, each found where it was put.
func spread(p *kit.P) {
	m := cache.New()
	ks := []string{"", " ", "\x00", "ü", strings.Repeat("long", 1000)}
	for _, n := range kit.Sizes(1 << 16) {
		ks = append(ks, strings.Repeat("n", n)+"-", strings.Repeat("m", n)+"+")
	}
	for i := range 3000 {
		ks = append(ks, fmt.Sprintf("key-%d", i))
	}
	if !p.Begin("spread") {
		return
	}
	shards := map[*cache.ConcurrentMapShard]int{}
	for i, k := range ks {
		m.Set(k, mk(k, i))
		shards[m.GetShard(k)]++
		if m.GetShard(k) != m.GetShard(string([]byte(k))) || cache.Hash(k) != cache.Hash(string([]byte(k))) {
			p.Fail("spread", "shard", "key %q moves between shards", k)
		}
		if h := xxhash.Sum64String(k); cache.Hash(k) != uint32(h)^uint32(h>>32) {
			p.Fail("spread", "hash", "a key of %d bytes (%.20q) has hash %x, documented is the folded xxhash %x", len(k), k, cache.Hash(k), uint32(h)^uint32(h>>32))
		}
	}
	for range 70000 {
		m.Touch("")
	}
	if it, _ := m.GetCopy(""); it == nil || it.AccessCount != 70000 {
		p.Fail("spread", "touch", "70000 times touched: %+v", it)
	}
	for i, k := range ks {
		if it, ok := m.Get(k); !ok || it.Value != i {
			p.Fail("spread", "lost", "key %q is %v %v", k, it, ok)
		}
	}
	if m.Count() != len(ks) {
		p.Fail("spread", "count", "%d keys counted as %d", len(ks), m.Count())
	}
	if len(shards) != cache.ShardCount {
		p.Fail("spread", "shard", "%d keys use only %d shards", len(ks), len(shards))
	}
	p.Outcome("%d shards", len(shards))
}

// many: the same operations on maps of many keys, spread over the shards or
// all in one of them, and on long keys.
func many(p *kit.P) {
	limit := 2100
	if p.Deep() {
		limit = 20000
	}
	var spreadKeys, oneShard []string
	m := cache.New()
	for i := 0; len(spreadKeys) < limit || len(oneShard) < limit*5/2; i++ {
		k := fmt.Sprintf("key-%d", i)
		if i == 0 {
			k = ""
		}
		spreadKeys = append(spreadKeys, k)
		if m.GetShard(k) == m.GetShard("") {
			oneShard = append(oneShard, k)
		}
	}
	for _, n := range kit.Sizes(limit) {
		manyOne(p, fmt.Sprintf("spread %d", n), spreadKeys[:n])
	}
	for _, n := range kit.Sizes(len(oneShard)) {
		manyOne(p, fmt.Sprintf("one shard %d", n), oneShard[:n])
	}
	for _, n := range kit.Sizes(1 << 16) {
		x := strings.Repeat("x", n)
		manyOne(p, fmt.Sprintf("long %d", n), []string{x + "0", x + "1", x + "2", "1" + x + "y", x + "x"})
	}
}

func manyOne(p *kit.P, id string, ks []string) {
	if !p.Begin("%s", id) {
		return
	}
	m := cache.New()
	ref := model{}
	for i, k := range ks {
		m.Set(k, mk(k, i+1))
		ref.do(set, k, i+1)
	}
	check := func(when string) bool {
		if m.Count() != len(ref) {
			p.Fail(id, "count", "%s: after %s Count() is %d, the map holds %d", id, when, m.Count(), len(ref))
			return false
		}
		if g, w := contents(&m), ref.String(); g != w {
			p.Fail(id, "contents", "%s: after %s the contents differ (%d and %d bytes listed)", id, when, len(g), len(w))
			return false
		}
		return true
	}
	if !check("setting") {
		return
	}
	for round := range 2 {
		for i, k := range ks {
			o := []int{set, get, getCopy, touch, has, pop, remove, swap, popOdd}[(i+round)%9]
			if got, want := real(&m, o, k, 100000+i), ref.do(o, k, 100000+i); got != want {
				p.Fail(id, "result", "%s: %s of key %d returned %q, want %q", id, names[o], i, got, want)
				return
			}
		}
		if !check(fmt.Sprintf("round %d", round)) {
			return
		}
	}
	m.Clear()
	clear(ref)
	if !check("Clear") {
		return
	}
	for i, k := range ks {
		if m.Has(k) {
			p.Fail(id, "result", "%s: key %d is there after Clear", id, i)
			return
		}
		m.Set(k, mk(k, i))
		ref.do(set, k, i)
	}
	check("setting again")
	p.Outcome("%d", len(ref))
}

// concurrent: any two programs are linearizable, and the count is right when
// they are done.
func concurrent(nt, per int, ops []int, nk int) func() {
	return func() {
		m := cache.New()
		base := model{}
		if vsched.Choose(2) == 1 {
			m.Set(keys[0], mk(keys[0], 9))
			base[keys[0]] = ent{id: 9}
		}
		type prog struct {
			o int
			k string
		}
		progs := make([][]prog, nt)
		first := 0
		for t := range progs {
			for s := range per {
				lo := 0
				if s == 0 {
					lo = first
				}
				c := lo + vsched.Choose(len(ops)*nk-lo)
				if s == 0 {
					first = c
				}
				progs[t] = append(progs[t], prog{ops[c%len(ops)], keys[c/len(ops)*(3-nk)]})
			}
		}
		h := ref.NewHist[model](nt)
		var g vsched.Group
		for t := range progs {
			g.Go(func() {
				for s, o := range progs[t] {
					id := 10*t + s + 10
					h.Do(t, names[o.o]+" "+o.k, func() string { return real(&m, o.o, o.k, id) }, func(x model) string { return x.do(o.o, o.k, id) })
				}
			})
		}
		g.Wait()
		end, n := contents(&m), m.Count()
		vsched.Outcome("%s", end)
		if !h.Explained(base, clone, func(x model) bool { return x.String() == end && len(x) == n }) {
			vsched.Fail("[linearizable]%s, ended with %q and Count() %d: no order of the operations explains it", h, end, n)
		}
	}
}

// iterate: an iteration next to writers sees every untouched key once, and
// only what was there at some time.
func iterate() {
	m := cache.New()
	m.Set(keys[0], mk(keys[0], 1))
	m.Set(keys[1], mk(keys[1], 2))
	m.Set(keys[2], mk(keys[2], 3))
	victim := keys[vsched.Choose(3)]
	what := vsched.Choose(4)
	var g vsched.Group
	g.Go(func() {
		switch what {
		case 0:
			m.Set(victim, mk(victim, 7))
		case 1:
			m.Remove(victim)
		case 2:
			m.Pop(victim)
			m.Set(victim, mk(victim, 7))
		case 3:
			m.Clear()
		}
	})
	seen := map[string]int{}
	for k, it := range m.All() {
		if seen[k]++; seen[k] > 1 {
			vsched.Fail("[iterate] %q was yielded twice", k)
		}
		id, _ := it.Value.(int)
		old := slices.Index(keys, k) + 1
		if id != old && (k != victim || id != 7 || what == 1 || what == 3) {
			vsched.Fail("[iterate] %q came with value %d", k, id)
		}
	}
	g.Wait()
	for _, k := range keys {
		if what != 3 && k != victim && seen[k] != 1 {
			vsched.Fail("[iterate] %q, untouched, was yielded %d times", k, seen[k])
		}
	}
	if what == 0 && seen[victim] != 1 {
		vsched.Fail("[iterate] %q, present all along, was yielded %d times", victim, seen[victim])
	}
	want := 3
	switch what {
	case 1:
		want = 2
	case 3:
		want = 0
	}
	if m.Count() != want {
		vsched.Fail("[count] Count() is %d, want %d", m.Count(), want)
	}
	vsched.Outcome("%d", len(seen))
}

// holding: while a consumer is held inside the iteration of one shard, other
// shards can be written, and the shard itself once the consumer goes on.
func holding() {
	m := cache.New()
	m.Set(keys[0], mk(keys[0], 1))
	var hold, in vsync.WaitGroup
	hold.Add(1)
	in.Add(1)
	stop := vsched.Choose(2) == 1
	var g vsched.Group
	g.Go(func() {
		for range m.All() {
			in.Done()
			hold.Wait()
			if stop {
				break
			}
		}
	})
	in.Wait()
	m.Set(keys[2], mk(keys[2], 2)) // blocks forever if the whole map is locked
	if _, ok := m.Get(keys[0]); !ok {
		vsched.Fail("[holding] a reader of the iterated shard lost %q", keys[0])
	}
	g.Go(func() { m.Set(keys[1], mk(keys[1], 3)) })
	hold.Done()
	g.Wait()
	if m.Count() != 3 {
		vsched.Fail("[count] Count() is %d, want 3", m.Count())
	}
	vsched.Outcome("%v", stop)
}

// copies: a copy taken next to Touch and Set is one whole state.
func copies() {
	m := cache.New()
	k := keys[0]
	m.Set(k, &cache.Item{Key: k, Value: 1, Size: 1, Expiration: 1})
	var g vsched.Group
	g.Go(func() { m.Touch(k); m.Set(k, &cache.Item{Key: k, Value: 2, Size: 2, Expiration: 2, AccessCount: 40}) })
	last := time.Time{}
	for range 2 {
		c, ok := m.GetCopy(k)
		if !ok {
			vsched.Fail("[copy] %q vanished", k)
		}
		id, _ := c.Value.(int)
		if int64(id) != c.Size || c.Size != int64(c.Expiration) || id == 1 && c.AccessCount > 1 || id == 2 && c.AccessCount != 40 {
			vsched.Fail("[copy] torn copy %+v", *c)
		}
		if id == 1 && (c.AccessCount > 0) != !c.LastAccess.IsZero() {
			vsched.Fail("[copy] half-touched copy %+v", *c)
		}
		last = c.LastAccess
		vsched.Outcome("%d/%d", id, c.AccessCount)
	}
	_ = last
	g.Wait()
}

func main() {
	all := []int{set, getCopy, touch, has, pop, remove, swap, popOdd}
	kit.Main(
		kit.Scenario{Name: "sequences", Plain: sequences, Weight: 3},
		kit.Scenario{Name: "spread", Plain: spread, Single: true},
		kit.Scenario{Name: "many", Plain: many, Weight: 2},
		kit.Scenario{Name: "concurrent-2x1", Body: concurrent(2, 1, all, 2), Quick: vsched.Opts{Preempt: 4}, Deep: vsched.Opts{Preempt: 12}, Race: true},
		kit.Scenario{Name: "clear", Body: concurrent(2, 1, []int{clearAll, set, getCopy, pop, remove}, 1), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "concurrent-2x2", Body: concurrent(2, 2, []int{set, getCopy, pop, remove, popOdd, touch}, 1), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 6}, Weight: 2},
		kit.Scenario{Name: "concurrent-3x1", Body: concurrent(3, 1, []int{set, getCopy, pop, remove, popOdd}, 1), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 5}, Weight: 2},
		kit.Scenario{Name: "iterate", Body: iterate, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "holding", Body: holding, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 6}},
		kit.Scenario{Name: "copies", Body: copies, Quick: vsched.Opts{Preempt: 3}, Deep: vsched.Opts{Preempt: 8}, Race: true},
	)
}
