// C29: copies of a key resolve to the newest one and never go back.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

type ver struct {
	v uint64
	o string
}

func (a ver) newer(b ver) bool { return a.v > b.v || a.v == b.v && a.o < b.o }
func (a ver) String() string   { return fmt.Sprintf("%d%s", a.v, a.o) }

// rank orders the versions used below, oldest first; the origin that is
// smaller wins a tie.
var versions = []ver{{1, "b"}, {1, "a"}, {2, "b"}, {2, "a"}, {3, "a"}}

func item(key string, v ver) *cache.Item {
	rank := 0
	for i, x := range versions {
		if x == v {
			rank = i
		}
	}
	return &cache.Item{Key: key, Value: v.String(), Version: v.v, Origin: v.o, LastUpdated: time.Unix(0, 0).Add(time.Duration(rank) * time.Millisecond)}
}

func verOf(it cache.Item) ver { return ver{it.Version, it.Origin} }

// arrivals delivers copies to an owner in every order, with repetitions.
func arrivals(n int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2})
		key, other := c.Key(0, 1), c.Keys(2, 0, 1)[1]
		if err := c.Raw.ForwardSet(bg, "n1", item(other, ver{1, "a"}), false); err != nil {
			vsched.Fail("[arrive] %v", err)
		}
		var cur ver
		hist := ""
		for range n {
			v := versions[vsched.Choose(len(versions))]
			hist += " " + v.String()
			vsched.Sleep(time.Millisecond)
			in := item(key, v)
			if err := c.Raw.ForwardSet(bg, "n1", in, false); err != nil {
				vsched.Fail("[arrive] after%s: %v", hist, err)
			}
			if v.newer(cur) {
				cur = v
			}
			got, ok := c.Local(1, key)
			if !ok || verOf(got) != cur || got.Value != cur.String() {
				vsched.Fail("[went-back] after%s: n1 holds %v=%v, newest is %v", hist, verOf(got), got.Value, cur)
			}
			in.Value = "scribble" // the caller's item stays the caller's
			if got, _ := c.Local(1, key); got.Value == "scribble" {
				vsched.Fail("[shared] after%s: the stored item is the sender's", hist)
			}
			if o, ok := c.Local(1, other); !ok || o.Value != "1a" {
				vsched.Fail("[other] after%s: another key changed to %v", hist, o.Value)
			}
		}
		if _, ok := c.Local(0, key); ok {
			vsched.Fail("[spread] after%s: n0 has a copy although nobody sent it one", hist)
		}
		vsched.Outcome("%v", cur)
		c.Stop()
	}
}

// late delivers an old copy after the key was written anew or removed.
func late(depth int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyAll)}})
		key := c.Key(0, 1)
		set := func(v string) cache.Item {
			if err := c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: v}); err != nil {
				vsched.Fail("[set] %v", err)
			}
			it, _ := c.Local(1, key)
			return it
		}
		var old []cache.Item
		hist, want := "", ""
		for i := range depth {
			vsched.Sleep(time.Millisecond)
			switch vsched.Choose(3) {
			case 0:
				want = fmt.Sprintf("v%d", i)
				old = append(old, set(want))
				hist += " set " + want
			case 1:
				if err := c.Nodes[0].Remove(bg, key); err != nil {
					vsched.Fail("[remove] %v", err)
				}
				want = ""
				hist += " remove"
			case 2:
				if len(old) == 0 {
					return
				}
				i, to := vsched.Choose(len(old)), vsched.Choose(2)
				if err := c.Raw.ForwardSet(bg, dc.ID(to), &old[i], false); err != nil {
					vsched.Fail("[arrive] %v", err)
				}
				hist += fmt.Sprintf(" late %v to %s", old[i].Value, dc.ID(to))
			}
			for n := range 2 {
				it, ok := c.Local(n, key)
				if ok != (want != "") || ok && it.Value != want {
					if want == "" {
						vsched.Fail("[resurrected] after%s: %s", hist, c.Show(key))
					}
					vsched.Fail("[went-back] after%s: %s", hist, c.Show(key))
				}
			}
		}
		vsched.Outcome("%v", want != "")
		c.Stop()
	}
}

// resolve reads three owners with every combination of copies.
func resolve(parallel bool) func() {
	return func() {
		vsched.Calm(true)
		lv := []backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyAll}[vsched.Choose(2)]
		c := dc.New(dc.Cfg{N: 4, R: 3, Opts: []dc.Opt{backend.WithDistReadConsistency(lv), backend.WithDistParallelReads(parallel)}})
		key := c.Key(0, 1, 2)
		var have []ver
		hist := ""
		var top ver
		got := map[ver]bool{}
		for i := range 3 {
			if k := vsched.Choose(len(versions) + 1); k > 0 {
				v := versions[k-1]
				c.Nodes[i].DebugInject(item(key, v))
				have = append(have, v)
				got[v] = true
				if v.newer(top) {
					top = v
				}
				hist += fmt.Sprintf(" %s=%v", dc.ID(i), v)
			} else {
				hist += fmt.Sprintf(" %s=-", dc.ID(i))
			}
		}
		at := vsched.Choose(4)
		vsched.Sleep(time.Millisecond)
		vsched.Calm(false)
		it, ok := c.Nodes[at].Get(bg, key)
		vsched.Quiesce()
		vsched.Calm(true)
		need := 2
		if lv == backend.ConsistencyAll {
			need = 3
		}
		hist = fmt.Sprintf("%v read at %s with%s", lv, dc.ID(at), hist)
		if ok != (len(have) >= need) {
			vsched.Fail("[level] %s: found %v", hist, ok)
		}
		if !ok {
			vsched.Outcome("miss")
			c.Stop()
			return
		}
		v := verOf(*it)
		if !got[v] || it.Value != v.String() {
			vsched.Fail("[mixed] %s: %v=%v", hist, v, it.Value)
		}
		older := 0
		for _, h := range have {
			if h == v || v.newer(h) {
				older++
			}
		}
		if older < need {
			vsched.Fail("[not-newest] %s: read %v", hist, v)
		}
		if len(have) == need && v != top {
			vsched.Fail("[not-newest] %s: read %v", hist, v)
		}
		if !parallel && need == 2 && len(have) == 3 { // the first two of the ring order answer
			want := have[0]
			if have[1].newer(want) {
				want = have[1]
			}
			if at == 3 && v != want {
				vsched.Fail("[not-newest] %s: read %v of the first two owners", hist, v)
			}
		}
		for i := range 3 { // repaired, never set back
			l, ok := c.Local(i, key)
			if !ok || v.newer(verOf(l)) || !got[verOf(l)] {
				vsched.Fail("[repair] %s: read %v, then %s", hist, v, c.Show(key))
			}
		}
		if _, ok := c.Local(3, key); ok {
			vsched.Fail("[stray] %s: n3 keeps a copy and does not own the key", hist)
		}
		vsched.Outcome("%v", v)
		c.Stop()
	}
}

// settled checks that all owners hold the newest copy.
func settled(c *dc.Cluster, key string, owners int, vals map[string]bool, what string) {
	first, ok := c.Local(0, key)
	for i := range owners {
		it, ok2 := c.Local(i, key)
		if !ok || !ok2 || verOf(it) != verOf(first) || it.Value != first.Value {
			vsched.Fail("[diverged] %s: %s", what, c.Show(key))
		}
	}
	if s, _ := first.Value.(string); !vals[s] {
		vsched.Fail("[wrong] %s: %s", what, c.Show(key))
	}
	vsched.Outcome("%v@%d", first.Value, first.Version)
}

// writers race on a key, entering at any node; readers look on.
func writers(nodes, repl, w, r int, hint bool) func() {
	return func() {
		vsched.Calm(true)
		opts := []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyAll), backend.WithDistReadConsistency(backend.ConsistencyQuorum)}
		c := dc.New(dc.Cfg{N: nodes, R: repl, Opts: opts})
		var own []int
		for i := range repl {
			own = append(own, i)
		}
		key := c.Key(own...)
		if err := c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: "v0"}); err != nil {
			vsched.Fail("[set] %v", err)
		}
		vsched.Sleep(time.Millisecond)
		at := make([]int, w+r)
		for i := range at {
			at[i] = vsched.Choose(nodes)
			if i > 0 && i < w && at[i] < at[i-1] || i > w && at[i] < at[i-1] {
				return // symmetric
			}
		}
		vsched.Calm(false)
		var g vsched.Group
		errs := make([]error, w)
		seen := make([]*cache.Item, r)
		for i := range w {
			g.Go(func() { errs[i] = c.Nodes[at[i]].Set(bg, &cache.Item{Key: key, Value: fmt.Sprintf("w%d", i)}) })
		}
		for i := range r {
			g.Go(func() { seen[i], _ = c.Nodes[at[w+i]].Get(bg, key) })
		}
		g.Wait()
		vsched.Calm(true)
		vals := map[string]bool{}
		for i, err := range errs {
			if err != nil {
				vsched.Fail("[set] concurrent write: %v", err)
			}
			vals[fmt.Sprintf("w%d", i)] = true
		}
		settled(c, key, repl, vals, fmt.Sprintf("after concurrent writes at %v", at))
		for _, it := range seen {
			if it == nil {
				vsched.Fail("[lost] a read during overwrites at %v found nothing", at)
			} else if s, _ := it.Value.(string); !vals[s] && s != "v0" {
				vsched.Fail("[wrong] a read during writes at %v returned %v", at, it.Value)
			}
		}
		c.Stop()
	}
}

// hinted replays a hint for the old value while a new one is written.
func hinted() {
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistHintTTL(time.Minute), backend.WithDistHintReplayInterval(10 * time.Millisecond)}})
	key := c.Key(0, 1)
	c.SetDown(1, true)
	_ = c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: "v1"})
	c.SetDown(1, false)
	vsched.Sleep(time.Millisecond)
	op := vsched.Choose(2)
	vsched.Calm(false)
	var g vsched.Group
	g.Go(func() { vsched.Sleep(9 * time.Millisecond) })
	g.Go(func() {
		vsched.Sleep(9 * time.Millisecond)
		var err error
		if op == 0 {
			err = c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: "v2"})
		} else {
			_, _ = c.Nodes[1].Get(bg, key)
		}
		if err != nil {
			vsched.Fail("[set] %v", err)
		}
	})
	g.Wait()
	vsched.Calm(true)
	vsched.Sleep(20 * time.Millisecond)
	want := []string{"v2", "v1"}[op]
	settled(c, key, 2, map[string]bool{want: true}, "after a hint was replayed")
	c.Stop()
}

// keysApart runs operations on different keys of one shard side by side.
func keysApart(n int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyAll)}})
		keys := c.Keys(n, 0, 1)
		ops := make([]int, n)
		for i, k := range keys {
			if err := c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: "v0"}); err != nil {
				vsched.Fail("[set] %v", err)
			}
			ops[i] = vsched.Choose(3)
			if i > 0 && ops[i] < ops[i-1] {
				return // symmetric
			}
		}
		vsched.Sleep(time.Millisecond)
		vsched.Calm(false)
		var g vsched.Group
		for i, k := range keys {
			g.Go(func() {
				n := c.Nodes[i%2]
				var err error
				switch ops[i] {
				case 0:
					err = n.Set(bg, &cache.Item{Key: k, Value: "v1"})
				case 1:
					err = n.Remove(bg, k)
				case 2:
					if it, ok := n.Get(bg, k); !ok || it.Value != "v0" {
						vsched.Fail("[other] get of an untouched key: %v", it)
					}
				}
				if err != nil {
					vsched.Fail("[error] %v", err)
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		for i, k := range keys {
			want := []string{"v1", "", "v0"}[ops[i]]
			for j := range 2 {
				if it, ok := c.Local(j, k); ok != (want != "") || ok && it.Value != want {
					vsched.Fail("[other] operations %v on separate keys: %s", ops, c.Show(k))
				}
			}
		}
		vsched.Outcome("%v", ops)
		c.Stop()
	}
}

// extremes: versions and origins of every magnitude, in pairs.
func extremes() {
	vsched.Calm(true)
	vs := []uint64{1, 2, 9, 10, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 2}
	os := []string{"a", "b", "A", "10", "9", "é", "", strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2", "node-10", "node-2"}
	var a, b ver
	if vsched.Choose(2) == 0 {
		a, b = ver{vs[vsched.Choose(len(vs))], "a"}, ver{vs[vsched.Choose(len(vs))], []string{"a", "b"}[vsched.Choose(2)]}
	} else {
		a, b = ver{7, os[vsched.Choose(len(os))]}, ver{7, os[vsched.Choose(len(os))]}
	}
	top := b
	if a.newer(b) {
		top = a
	}
	mk := func(key string, v ver) *cache.Item {
		at := time.Unix(1, 0)
		if v == top {
			at = time.Unix(2, 0)
		}
		return &cache.Item{Key: key, Value: v.String(), Version: v.v, Origin: v.o, LastUpdated: at}
	}
	lv := []backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyAll}[vsched.Choose(2)]
	parallel := vsched.Choose(2) == 1
	c := dc.New(dc.Cfg{N: 3, R: 2, Opts: []dc.Opt{backend.WithDistReadConsistency(lv), backend.WithDistParallelReads(parallel)}})
	ks := c.Keys(3, 0, 1)
	what := fmt.Sprintf("%v then %v", a, b)
	for _, v := range []ver{a, b, a} { // arriving one after the other
		if err := c.Raw.ForwardSet(bg, "n1", mk(ks[0], v), false); err != nil {
			vsched.Fail("[arrive] %v", err)
		}
	}
	if it, ok := c.Local(1, ks[0]); !ok || verOf(it) != top {
		vsched.Fail("[went-back] after %s, and again: n1 holds %v", what, verOf(it))
	}
	c.Nodes[0].DebugInject(mk(ks[1], a)) // met by a read
	c.Nodes[1].DebugInject(mk(ks[1], b))
	at := vsched.Choose(3)
	it, ok := c.Nodes[at].Get(bg, ks[1])
	vsched.Quiesce()
	if !ok || verOf(*it) != top {
		vsched.Fail("[read] n0 has %v and n1 has %v: a read at %s finds %v", a, b, dc.ID(at), it)
	}
	for i := range 2 {
		if it, ok := c.Local(i, ks[1]); !ok || verOf(it) != top {
			vsched.Fail("[repair] n0 had %v and n1 had %v: %s has %v after a read", a, b, dc.ID(i), verOf(it))
		}
	}
	c.Nodes[0].DebugInject(mk(ks[2], a)) // met by a sync
	c.Nodes[1].DebugInject(mk(ks[2], b))
	if err := c.Nodes[1].SyncWith(bg, "n0"); err != nil {
		vsched.Fail("[sync] %v", err)
	}
	if it, ok := c.Local(1, ks[2]); !ok || verOf(it) != top {
		vsched.Fail("[sync] n1 had %v, n0 had %v: n1 has %v after a sync", b, a, verOf(it))
	}
	for _, v := range []ver{a, b, a} { // then the primary writes
		if err := c.Raw.ForwardSet(bg, "n0", mk(ks[0], v), false); err != nil {
			vsched.Fail("[arrive] %v", err)
		}
	}
	if err := c.Nodes[2*vsched.Choose(2)].Set(bg, &cache.Item{Key: ks[0], Value: "after"}); err != nil {
		vsched.Fail("[write] %v", err)
	}
	for i := range 2 {
		if it, ok := c.Local(i, ks[0]); !ok || it.Value != "after" || it.Version <= top.v {
			vsched.Fail("[write] after %s a write has version %d at %s: %v", what, it.Version, dc.ID(i), it.Value)
		}
	}
	vsched.Outcome("%v", top == a)
	c.Stop()
}

func main() {
	det := vsched.Opts{MaxSteps: 200000}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 200000} }
	kit.Main(
		kit.Scenario{Name: "arrivals", Body: arrivals(4), Quick: det, Deep: det},
		kit.Scenario{Name: "late", Body: late(6), Quick: det},
		kit.Scenario{Name: "resolve", Body: resolve(false), Quick: det},
		kit.Scenario{Name: "resolve-parallel", Body: resolve(true), Quick: s(0), Weight: 2},
		kit.Scenario{Name: "writers-2", Body: writers(2, 2, 2, 0, false), Quick: s(2), Race: true, Weight: 2},
		kit.Scenario{Name: "writers-3x2", Body: writers(3, 3, 2, 0, false), Quick: s(1), Weight: 2},
		kit.Scenario{Name: "writer-reader", Body: writers(3, 3, 1, 1, false), Quick: s(1), Race: true, Weight: 2},
		kit.Scenario{Name: "writers-3", Body: writers(2, 2, 3, 0, false), Quick: s(1), Weight: 2},
		kit.Scenario{Name: "hint-replay", Body: hinted, Quick: s(2), Race: true},
		kit.Scenario{Name: "keys-apart", Body: keysApart(2), Quick: s(1), Race: true},
		kit.Scenario{Name: "keys-apart-3", Body: keysApart(3), Deep: s(1), DeepOnly: true},
		kit.Scenario{Name: "extremes", Body: extremes, Quick: det, Deep: det},
		kit.Scenario{Name: "late-8", Body: late(8), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "arrivals-6", Body: arrivals(6), Deep: det, DeepOnly: true},
	)
}
