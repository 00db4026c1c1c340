// C31: Merkle anti-entropy brings replicas to the newest copy or removal and
// loses nothing.
package main

import (
	"bytes"
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

// state of a key on a node: nothing, an item or a tombstone of a version.
type state struct {
	v    uint64
	tomb bool
}

func (s state) String() string {
	switch {
	case s.v == 0:
		return "-"
	case s.tomb:
		return fmt.Sprintf("x%d", s.v)
	default:
		return fmt.Sprintf("v%d", s.v)
	}
}

func (s state) item() bool { return s.v > 0 && !s.tomb }

// pull is what a node in state l holds after a sync with one in state r.
func pull(l, r state) (s state, adopted bool) {
	switch {
	case r.item() && (l.v == 0 || r.v > l.v):
		return r, true
	case r.tomb && l.item() && r.v >= l.v:
		return r, false
	}
	return l, false
}

func item(key string, v uint64) *cache.Item {
	return &cache.Item{Key: key, Value: fmt.Sprintf("%s@%d", key, v), Version: v, Origin: "o", Expiration: time.Hour,
		LastUpdated: time.Unix(0, 0).Add(time.Duration(v) * time.Millisecond)}
}

func put(c *dc.Cluster, n int, key string, s state) {
	switch {
	case s.v == 0:
	case s.tomb:
		c.Nodes[n].DebugInject(item(key, s.v-1))
		if err := c.Raw.ForwardRemove(bg, dc.ID(n), key, false); err != nil {
			vsched.Fail("[setup] %v", err)
		}
	default:
		c.Nodes[n].DebugInject(item(key, s.v))
	}
}

// same checks that node n holds exactly the items of st.
func same(c *dc.Cluster, n int, keys []string, st []state, what string) {
	l, _ := c.Nodes[n].List(bg)
	seen := 0
	for i, k := range keys {
		var it *cache.Item
		for _, x := range l {
			if x.Key == k {
				it = x
				seen++
			}
		}
		if (it != nil) != st[i].item() {
			kind := "lost"
			if it != nil {
				kind = "resurrected"
			}
			vsched.Fail("[%s] %s: %s should be %v: %s", kind, what, k, st[i], c.Show(k))
			return
		}
		if it == nil {
			continue
		}
		w := item(k, st[i].v)
		if it.Version != w.Version || it.Value != w.Value || it.Origin != w.Origin || it.Expiration != w.Expiration || !it.LastUpdated.Equal(w.LastUpdated) {
			vsched.Fail("[copy] %s: %s is %v@%d/%s, should be %v@%d/%s", what, k, it.Value, it.Version, it.Origin, w.Value, w.Version, w.Origin)
		}
	}
	if seen != len(l) {
		vsched.Fail("[foreign] %s: n%d holds %d items, %d expected", what, n, len(l), seen)
	}
}

// pairs syncs two nodes in every pair of states, in both directions.
func pairs(nkeys int, states []state, chunks []int) func() {
	return func() {
		vsched.Calm(true)
		chunk := chunks[vsched.Choose(len(chunks))]
		other := chunk
		if chunk < 0 { // the nodes disagree about the size
			chunk, other = 1, 2
		}
		c := dc.New(dc.Cfg{N: 2, R: 2, Each: func(i int) []dc.Opt {
			return []dc.Opt{backend.WithDistMerkleChunkSize([]int{chunk, other}[i])}
		}})
		keys := c.Keys(nkeys, 0, 1)
		st := [2][]state{make([]state, nkeys), make([]state, nkeys)}
		desc := fmt.Sprintf("chunks %d/%d,", chunk, other)
		for i, k := range keys {
			st[0][i], st[1][i] = states[vsched.Choose(len(states))], states[vsched.Choose(len(states))]
			put(c, 0, k, st[0][i])
			put(c, 1, k, st[1][i])
			desc += fmt.Sprintf(" %s:%v/%v", k, st[0][i], st[1][i])
		}
		vsched.Sleep(time.Second)
		n := 0
		for round := range 4 {
			me, peer := round%2, 1-round%2
			before := c.Nodes[me].Metrics().MerkleKeysPulled
			if err := c.Nodes[me].SyncWith(bg, dc.ID(peer)); err != nil {
				vsched.Fail("[sync] %s: %v", desc, err)
			}
			pulled := 0
			for i := range keys {
				s, ad := pull(st[me][i], st[peer][i])
				st[me][i] = s
				if ad {
					pulled++
				}
			}
			n += pulled
			what := fmt.Sprintf("%s, round %d", desc, round)
			same(c, me, keys, st[me], what)
			same(c, peer, keys, st[peer], what+" (peer)")
			if d := c.Nodes[me].Metrics().MerkleKeysPulled - before; d != int64(pulled) {
				vsched.Fail("[metrics] %s: %d keys pulled, reported %d", what, pulled, d)
			}
			tombs := 0
			for _, s := range st[me] {
				if s.tomb {
					tombs++
				}
			}
			if x := c.Nodes[me].Metrics().TombstonesActive; x != int64(tombs) {
				vsched.Fail("[metrics] %s: %d tombstones, reported %d", what, tombs, x)
			}
			if round > 1 && pulled > 0 {
				vsched.Fail("[converge] %s: still pulling", what)
			}
		}
		for i, k := range keys {
			if st[0][i].item() != st[1][i].item() {
				vsched.Fail("[converge] %s: %s", desc, c.Show(k))
			}
		}
		vsched.Outcome("%d", n)
		c.Stop()
	}
}

// old delivers the removed version again after the removal was learned by a
// sync.
func old() {
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 3, R: 3, Opts: []dc.Opt{backend.WithDistMerkleChunkSize(1 + vsched.Choose(2))}})
	key := c.Key(0, 1, 2)
	v := uint64(2 + vsched.Choose(3)) // tombstone of n1
	w := uint64(1 + vsched.Choose(int(v)))
	put(c, 1, key, state{v, true})
	put(c, 0, key, state{w, false})
	vsched.Sleep(time.Second)
	_ = c.Nodes[0].SyncWith(bg, "n1")
	back := uint64(1 + vsched.Choose(int(v)+1))
	put(c, 2, key, state{back, false})
	how := vsched.Choose(2)
	if how == 0 {
		_ = c.Nodes[0].SyncWith(bg, "n2")
	} else {
		_ = c.Raw.ForwardSet(bg, "n0", item(key, back), false)
	}
	_, ok := c.Local(0, key)
	if ok != (back > v) {
		vsched.Fail("[resurrected] removal %d learned by a sync (held %d), then version %d arrives: %s", v, w, back, c.Show(key))
	}
	vsched.Outcome("%v", ok)
	c.Stop()
}

// ties: copies of the same version by different coordinators, of which the
// one with the smaller origin is the newest.
func ties() {
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistMerkleChunkSize(1 + vsched.Choose(2))}})
	key := c.Key(0, 1)
	origins := []string{"n0", "n1", "n10", "", "n"}
	var held [2]*cache.Item
	what := ""
	for n := range held {
		v := uint64(1 + vsched.Choose(2))
		o := origins[vsched.Choose(len(origins))]
		it := item(key, v)
		it.Origin, it.Value = o, fmt.Sprintf("%d by %q", v, o)
		it.LastUpdated = it.LastUpdated.Add(time.Duration(vsched.Choose(2)) * time.Minute)
		held[n] = it
		what += fmt.Sprintf(" n%d has %v", n, it.Value)
		cp := *it
		c.Nodes[n].DebugInject(&cp)
	}
	if t0, t1 := c.Nodes[0].BuildMerkleTree(), c.Nodes[1].BuildMerkleTree(); bytes.Equal(t0.Root, t1.Root) != (held[0].Value == held[1].Value) || (len(t0.DiffLeafRanges(t1)) == 0) != (held[0].Value == held[1].Value) {
		vsched.Fail("[tree]%s: the trees do not tell", what)
	}
	first := vsched.Choose(2)
	for round := range 4 {
		me := (first + round) % 2
		if err := c.Nodes[me].SyncWith(bg, dc.ID(1-me)); err != nil {
			vsched.Fail("[sync]%s: %v", what, err)
		}
		if a, b := held[me], held[1-me]; b.Version > a.Version || b.Version == a.Version && b.Origin < a.Origin {
			held[me] = b
		}
		for n, w := range held {
			it, ok := c.Local(n, key)
			if !ok || it.Version != w.Version || it.Origin != w.Origin || it.Value != w.Value {
				vsched.Fail("[tie]%s: after %d syncs n%d should have %v: %s", what, round+1, n, w.Value, c.Show(key))
			}
		}
	}
	vsched.Outcome("%v", held[0].Value)
	c.Stop()
}

// brains: both owners coordinate writes while they cannot reach each other.
func brains() {
	const every = 10 * time.Millisecond
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistMerkleAutoSync(every), backend.WithDistWriteConsistency(backend.ConsistencyOne)}})
	key := c.Key(0, 1)
	_ = c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: "before"})
	vsched.Sleep(time.Millisecond)
	c.SetCut(0, 1, true)
	c.SetCut(1, 0, true)
	what := ""
	for i := range 4 {
		e := vsched.Choose(3)
		if e == 2 {
			continue
		}
		what += fmt.Sprintf(" set@%d", e)
		_ = c.Nodes[e].Set(bg, &cache.Item{Key: key, Value: fmt.Sprintf("w%d", i)})
		vsched.Sleep(time.Millisecond)
	}
	a, oka := c.Local(0, key)
	b, okb := c.Local(1, key)
	if !oka || !okb {
		vsched.Fail("[setup] after%s: %s", what, c.Show(key))
	}
	if b.Version > a.Version || b.Version == a.Version && b.Origin < a.Origin {
		a = b
	}
	c.SetCut(0, 1, false)
	c.SetCut(1, 0, false)
	vsched.Sleep(4 * every)
	for n := range 2 {
		if it, ok := c.Local(n, key); !ok || it.Value != a.Value {
			vsched.Fail("[tie] a split with%s, then auto-sync: n%d should have %v: %s", what, n, a.Value, c.Show(key))
		}
	}
	vsched.Outcome("%v", a.Origin)
	c.Stop()
}

// trees: equal contents give equal trees, different ones give different ones
// in exactly the chunks that differ.
func trees() {
	vsched.Calm(true)
	const nk = 4
	keys := []string{"a", "ab", "b", "c"}
	chunk := []int{1, 2, 3, 128}[vsched.Choose(4)]
	diffs := 0
	b, err := backend.NewDistMemory(bg, backend.WithDistMerkleChunkSize(chunk), backend.WithDistShardCount(2), backend.WithDistReplication(1))
	if err != nil {
		vsched.Fail("[new] %v", err)
		return
	}
	dm := b.(*backend.DistMemory)
	{
		type tr struct {
			id   int
			st   []state
			tree *backend.MerkleTree
		}
		var all []tr
		sts := []state{{}, {1, false}, {2, false}, {258, false}}
		n := len(sts)
		tot := 1
		for range nk {
			tot *= n
		}
		for id := range tot {
			st := make([]state, nk)
			x := id
			for i := range st {
				st[i] = sts[x%n]
				x /= n
			}
			var first *backend.MerkleTree
			for _, ord := range [][]int{{0, 1, 2, 3}, {3, 1, 2, 0}} {
				for _, k := range keys {
					dm.DebugDropLocal(k)
				}
				for _, i := range ord {
					if st[i].v > 0 {
						dm.DebugInject(item(keys[i], st[i].v))
					}
				}
				t := dm.BuildMerkleTree()
				if first == nil {
					first = t
				} else if !bytes.Equal(first.Root, t.Root) || len(first.DiffLeafRanges(t)) > 0 {
					vsched.Fail("[tree] %v: the tree depends on the order of insertion", st)
				}
			}
			all = append(all, tr{id, st, first})
		}
		for _, x := range all {
			for _, y := range all {
				eq := x.id == y.id
				if bytes.Equal(x.tree.Root, y.tree.Root) != eq {
					vsched.Fail("[tree] chunk %d: roots of %v and %v: equal is %v", chunk, x.st, y.st, !eq)
				}
				d := x.tree.DiffLeafRanges(y.tree)
				// every chunk of x with an entry y lacks or has in another version
				var kx []int
				for i := range keys {
					if x.st[i].v > 0 {
						kx = append(kx, i)
					}
				}
				for j, i := range kx {
					if x.st[i] != y.st[i] && !slices.Contains(d, j/chunk) {
						vsched.Fail("[diff] chunk %d: %v against %v: %v misses %s", chunk, x.st, y.st, d, keys[i])
					}
				}
				if eq && len(d) > 0 {
					vsched.Fail("[diff] chunk %d: %v differs from itself: %v", chunk, x.st, d)
				}
				diffs += len(d)
			}
		}
	}
	_ = dm.Stop(bg)
	vsched.Outcome("%d", diffs)
}

// auto runs histories of writes, removals and failures with auto-sync and
// no other repair; then everybody is up again.
func auto(n, r, depth int, anyEntry bool) func() {
	const every = 10 * time.Millisecond
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: n, R: r, Opts: []dc.Opt{backend.WithDistMerkleAutoSync(every), backend.WithDistMerkleChunkSize(2), backend.WithDistWriteConsistency(backend.ConsistencyOne)}})
		owners := []int{0, 1, 2}[:r]
		key := c.Key(owners...)
		other := c.Keys(2, owners...)[1]
		foreign := ""
		if n > r {
			foreign = c.Key(n-1, 0)
			c.Nodes[0].DebugInject(item(foreign, 1))
		}
		c.Nodes[0].DebugInject(item(other, 1))
		hist, want, entries := "", "", 1
		if anyEntry {
			entries = r
		}
		downs := 0
		for i := range depth {
			vsched.Sleep(time.Millisecond)
			switch op := vsched.Choose(3 + r - 1); {
			case op == 0:
				e := vsched.Choose(entries)
				if c.Down(e) {
					return
				}
				v := fmt.Sprintf("w%d", i)
				if c.Nodes[e].Set(bg, &cache.Item{Key: key, Value: v}) == nil {
					want = v
				}
				hist += fmt.Sprintf(" set@%d", e)
			case op == 1:
				e := vsched.Choose(entries)
				if c.Down(e) {
					return
				}
				if c.Nodes[e].Remove(bg, key) == nil {
					want = ""
				}
				hist += fmt.Sprintf(" remove@%d", e)
			case op == 2:
				vsched.Sleep(every)
				hist += " wait"
			default:
				t := op - 2 // n1.. fail and come back
				if anyEntry {
					t %= r
				}
				c.SetDown(t, !c.Down(t))
				downs++
				hist += fmt.Sprintf(" toggle%d", t)
			}
		}
		for t := range r {
			c.SetDown(t, false)
		}
		vsched.Sleep(time.Duration(r+2) * every)
		var first cache.Item
		var has bool
		for i, o := range owners {
			it, ok := c.Local(o, key)
			if i == 0 {
				first, has = it, ok
			} else if ok != has || ok && (it.Value != first.Value || it.Version != first.Version) {
				vsched.Fail("[converge] after%s and waiting: %s", hist, c.Show(key))
			}
			if _, ok := c.Local(o, other); !ok {
				vsched.Fail("[lost] after%s: the untouched key: %s", hist, c.Show(other))
			}
		}
		if !anyEntry && (has != (want != "") || has && first.Value != want) {
			vsched.Fail("[newest] after%s the primary last held %q: %s", hist, want, c.Show(key))
		}
		if anyEntry && downs == 0 && (has != (want != "") || has && first.Value != want) {
			vsched.Fail("[newest] after%s, last write %q: %s", hist, want, c.Show(key))
		}
		if n > r {
			for i := range n {
				if _, ok := c.Local(i, key); ok && i >= r {
					vsched.Fail("[spread] after%s a node that does not own the key has it: %s", hist, c.Show(key))
				}
			}
			if _, ok := c.Local(n-1, foreign); !ok {
				vsched.Fail("[converge] after%s an owner did not get its key: %s", hist, c.Show(foreign))
			}
			if _, ok := c.Local(1, foreign); ok {
				vsched.Fail("[spread] after%s: %s", hist, c.Show(foreign))
			}
		}
		vsched.Outcome("%v", has)
		c.Stop()
		at := c.Nodes[0].Metrics().AutoSyncLoops
		vsched.Sleep(5 * every)
		if c.Nodes[0].Metrics().AutoSyncLoops != at {
			vsched.Fail("[stopped] auto-sync runs after Stop")
		}
	}
}

// backoff: the interval doubles over clean rounds up to the cap and is back
// at once after a round that was not clean.
func backoff(depth int) func() {
	const every = 10 * time.Millisecond
	return func() {
		vsched.Calm(true)
		limit := []int{0, 1, 2, 3, 4}[vsched.Choose(5)]
		c := dc.New(dc.Cfg{N: 2, R: 2, Each: func(i int) []dc.Opt {
			if i == 1 {
				return nil
			}
			return []dc.Opt{backend.WithDistMerkleAutoSync(every), backend.WithDistMerkleAdaptiveBackoff(limit)}
		}})
		var at time.Duration
		n := 0
		c.Tap = func(cl dc.Call) {
			if cl.Op == "merkle" {
				at = time.Duration(vsched.Now())
				n++
			}
		}
		keys := c.Keys(depth, 0, 1)
		start := time.Duration(vsched.Now())
		factor := int64(1)
		hist := ""
		clean := int64(0)
		for i := range depth {
			vsched.Sleep(time.Millisecond)
			ok := false
			switch vsched.Choose(4) {
			case 0:
				ok = true
				hist += " clean"
			case 1:
				c.Nodes[1].DebugInject(item(keys[i], 1))
				hist += " new"
			case 2:
				c.SetDown(1, true)
				hist += " down"
			case 3: // the listing alone fails, of an equal peer
				ok = true
				c.Hook = func(cl *dc.Call) dc.Verdict {
					if cl.Op == "keys" || cl.Op == "get" {
						return dc.Lose
					}
					return dc.Deliver
				}
				hist += " nolist"
			}
			due := start + time.Duration(factor)*every
			vsched.Sleep(due - time.Duration(vsched.Now()) + time.Microsecond)
			if n != i+1 || at != due {
				vsched.Fail("[backoff] cap %d, rounds%s: %d rounds, the last at %v, expected %d and %v", limit, hist, n, at, i+1, due)
				return
			}
			if ok && limit > 1 {
				clean++
				factor = min(factor*2, int64(limit))
			} else {
				factor = 1
			}
			start = due
			x := c.Nodes[0].Metrics()
			if x.AutoSyncLoops != int64(n) || (limit > 1 && (x.AutoSyncBackoffFactor != factor || x.AutoSyncCleanTicks != clean)) {
				vsched.Fail("[metrics] cap %d, rounds%s: %d loops, factor %d, %d clean", limit, hist, x.AutoSyncLoops, x.AutoSyncBackoffFactor, x.AutoSyncCleanTicks)
			}
			if (x.LastAutoSyncError != "") != c.Down(1) {
				vsched.Fail("[metrics] cap %d, rounds%s: last error %q", limit, hist, x.LastAutoSyncError)
			}
			c.SetDown(1, false)
			c.Hook = nil
		}
		vsched.Outcome("%d", factor)
		c.Stop()
	}
}

// peers: every round asks as many peers as configured, each once.
func peers() {
	const every = 10 * time.Millisecond
	vsched.Calm(true)
	lim := vsched.Choose(5) - 1
	c := dc.New(dc.Cfg{N: 4, R: 2, Each: func(i int) []dc.Opt {
		if i > 0 {
			return nil
		}
		return []dc.Opt{backend.WithDistMerkleAutoSync(every), backend.WithDistMerkleAutoSyncPeers(lim)}
	}})
	got := map[string]int{}
	c.Tap = func(cl dc.Call) {
		if cl.Op == "merkle" {
			got[cl.To]++
		}
	}
	vsched.Sleep(time.Millisecond)
	for range 3 {
		clear(got)
		vsched.Sleep(every)
		want := 3
		if lim > 0 {
			want = min(lim, 3)
		}
		for id, k := range got {
			if id == "n0" || k != 1 {
				vsched.Fail("[peers] limit %d: asked %v", lim, got)
			}
		}
		if len(got) != want {
			vsched.Fail("[peers] limit %d: asked %v", lim, got)
		}
	}
	vsched.Outcome("%d", len(got))
	c.Stop()
}

// outage: peers that fail keep a round from nobody else.
func outage() {
	const every = 10 * time.Millisecond
	vsched.Calm(true)
	down := vsched.Choose(8)
	c := dc.New(dc.Cfg{N: 4, R: 2, Each: func(i int) []dc.Opt {
		if i > 0 {
			return nil
		}
		return []dc.Opt{backend.WithDistMerkleAutoSync(every)}
	}})
	keys := map[int][]string{}
	for n := 1; n < 4; n++ {
		c.SetDown(n, down>>(n-1)&1 == 1)
		keys[n] = c.Keys(16, n, 0)
	}
	// Members come in an order of no promise: enough rounds to meet each.
	for round := range 16 {
		for n := 1; n < 4; n++ {
			c.Nodes[n].DebugInject(item(keys[n][round], 1))
		}
		vsched.Sleep(time.Millisecond)
		vsched.Sleep(every)
		for n := 1; n < 4; n++ {
			if _, ok := c.Local(0, keys[n][round]); !ok && !c.Down(n) {
				vsched.Fail("[outage] nodes %03b (n3 n2 n1) are down: a round did not bring n0 what n%d has", down, n)
			}
		}
	}
	vsched.Outcome("%b", down)
	c.Stop()
}

// sweep: a tombstone stays for its time to live and is gone one sweep later.
func sweep() {
	const ms = time.Millisecond
	vsched.Calm(true)
	ttl := []time.Duration{0, 15 * ms, 30 * ms}[vsched.Choose(3)]
	every := []time.Duration{0, 10 * ms}[vsched.Choose(2)]
	c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistTombstoneTTL(ttl), backend.WithDistTombstoneSweep(every)}})
	keys := c.Keys(2, 0, 1)
	type rem struct {
		at  time.Duration
		has bool
	}
	var rs [2]rem
	for i, k := range keys {
		vsched.Sleep(time.Duration(1+6*vsched.Choose(3)) * ms)
		put(c, 0, k, state{3, true})
		rs[i] = rem{time.Duration(vsched.Now()), true}
	}
	again := vsched.Choose(2) == 1
	if again { // a second removal renews the first
		vsched.Sleep(4 * ms)
		_ = c.Raw.ForwardRemove(bg, "n0", keys[0], false)
		rs[0].at = time.Duration(vsched.Now())
	}
	wait := time.Duration(7*vsched.Choose(9)+1) * ms
	vsched.Sleep(wait)
	now := time.Duration(vsched.Now())
	active := int64(0)
	for i, k := range keys {
		must := ttl <= 0 || every <= 0 || now-rs[i].at < ttl
		mustNot := !must && now-rs[i].at > ttl+every
		_ = c.Raw.ForwardSet(bg, "n0", item(k, 1+uint64(vsched.Choose(2)*2)), false)
		_, back := c.Local(0, k)
		if must && back {
			vsched.Fail("[resurrected] ttl %v sweep %v: an old copy of a key removed %v ago came back", ttl, every, now-rs[i].at)
		}
		if mustNot && !back {
			vsched.Fail("[sweep] ttl %v sweep %v: the tombstone is still there after %v", ttl, every, now-rs[i].at)
		}
		if !back {
			active++
		}
	}
	x := c.Nodes[0].Metrics()
	if x.TombstonesActive != active || x.TombstonesPurged != 2-active {
		vsched.Fail("[metrics] %d tombstones kept of 2: %d active, %d purged", active, x.TombstonesActive, x.TombstonesPurged)
	}
	vsched.Outcome("%d", active)
	c.Stop()
}

// races syncs while the node takes part in writes and removals.
func races(ops int, both bool) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistMerkleChunkSize(1)}})
		key := c.Key(0, 1)
		st := []state{{}, {1, false}, {2, false}, {2, true}, {3, false}}
		put(c, 0, key, st[vsched.Choose(3)])
		r := st[1+vsched.Choose(4)]
		put(c, 1, key, r)
		vsched.Sleep(time.Second)
		opsN := make([]int, ops)
		for i := range opsN {
			opsN[i] = vsched.Choose(3)
		}
		vsched.Calm(false)
		g := vsched.Group{}
		var maxSet uint64
		removed := false
		for _, o := range opsN {
			switch o {
			case 0, 1:
				maxSet = max(maxSet, uint64(3+o))
			case 2:
				removed = true
			}
		}
		g.Go(func() { _ = c.Nodes[0].SyncWith(bg, "n1") })
		if both {
			g.Go(func() { _ = c.Nodes[1].SyncWith(bg, "n0") })
		}
		for _, o := range opsN {
			g.Go(func() {
				if o == 2 {
					_ = c.Raw.ForwardRemove(bg, "n0", key, false)
				} else {
					_ = c.Raw.ForwardSet(bg, "n0", item(key, uint64(3+o)), false)
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		it, ok := c.Local(0, key)
		if maxSet > 0 && !removed {
			// without a removal here the newest of all arrives
			if !ok || it.Version < maxSet {
				vsched.Fail("[went-back] set up to %d, peer %v: n0 has %v@%d", maxSet, r, ok, it.Version)
			}
		}
		if removed && maxSet == 0 && r.tomb && ok {
			vsched.Fail("[resurrected] removed on both: %s", c.Show(key))
		}
		// afterwards two more rounds make them agree
		for range 2 {
			_ = c.Nodes[0].SyncWith(bg, "n1")
			_ = c.Nodes[1].SyncWith(bg, "n0")
		}
		a, oka := c.Local(0, key)
		b, okb := c.Local(1, key)
		if oka != okb || a.Version != b.Version || a.Value != b.Value {
			vsched.Fail("[converge] %v, peer was %v: %s", opsN, r, c.Show(key))
		}
		if maxSet > 0 && !removed && (!oka || a.Version < maxSet) {
			vsched.Fail("[went-back] set up to %d, peer was %v: %s", maxSet, r, c.Show(key))
		}
		vsched.Outcome("%v %d", oka, a.Version)
		c.Stop()
	}
}

// large: many keys in many states, and versions of every magnitude.
func large(limit int) func() {
	states := []state{{1, false}, {}, {2, false}, {1 << 32, false}, {1<<32 + 1, false}, {5, true}, {1 << 48, false}, {1<<56 + 1, false}, {1<<56 + 2, false}, {1<<16 + 1, false}, {1 << 16, false}}
	at := func(v uint64) time.Time { return time.Unix(int64(v>>24), int64(v&(1<<24-1))*50) }
	mk := func(k string, v uint64) *cache.Item {
		it := item(k, v)
		it.LastUpdated = at(v)
		return it
	}
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		chunk := []int{0, 1, 7, 128, 1000}[vsched.Choose(5)]
		kind := vsched.Choose(3)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistMerkleChunkSize(chunk)}})
		what := fmt.Sprintf("%d keys, chunks of %d, kind %d", n, chunk, kind)
		st := [2][]state{}
		var keys []string
		for i := range n {
			k := fmt.Sprintf("key-%d", i)
			if kind == 1 {
				k = strings.Repeat("long", 1+i%300) + k
			}
			keys = append(keys, k)
			for j := range 2 {
				s := states[0]
				switch { // everything differs, or one key does: the last, or one in the middle
				case kind < 2:
					s = states[(i/[]int{1, len(states)}[j]+i)%len(states)]
				case i == n-1 || i == n/2:
					s = states[2+j]
				}
				st[j] = append(st[j], s)
				switch {
				case s.v == 0:
				case s.tomb:
					c.Nodes[j].DebugInject(mk(k, s.v-1))
					if err := c.Raw.ForwardRemove(bg, dc.ID(j), k, false); err != nil {
						vsched.Fail("[setup] %v", err)
					}
				default:
					c.Nodes[j].DebugInject(mk(k, s.v))
				}
			}
		}
		vsched.Sleep(time.Second)
		for round := range 4 {
			me, peer := round%2, 1-round%2
			before := c.Nodes[me].Metrics().MerkleKeysPulled
			if err := c.Nodes[me].SyncWith(bg, dc.ID(peer)); err != nil {
				vsched.Fail("[sync] %s: %v", what, err)
			}
			pulled := int64(0)
			for i := range keys {
				s, ad := pull(st[me][i], st[peer][i])
				st[me][i] = s
				if ad {
					pulled++
				}
			}
			for j := range 2 {
				have := map[string]*cache.Item{}
				l, _ := c.Nodes[j].List(bg)
				for _, it := range l {
					have[it.Key] = it
				}
				for i, k := range keys {
					it, s := have[k], st[j][i]
					if (it != nil) != s.item() {
						vsched.Fail("[lost] %s: round %d: %s has key %d: %v, should be %v", what, round, dc.ID(j), i, it != nil, s)
						return
					}
					if it != nil && (it.Version != s.v || it.Value != item(k, s.v).Value) {
						vsched.Fail("[copy] %s: round %d: %s has key %d in version %d, should be %v", what, round, dc.ID(j), i, it.Version, s)
						return
					}
				}
			}
			if d := c.Nodes[me].Metrics().MerkleKeysPulled - before; d != pulled {
				vsched.Fail("[metrics] %s, round %d: %d keys pulled, reported %d", what, round, pulled, d)
			}
		}
		vsched.Outcome("%d", n)
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	few := []state{{}, {1, false}, {2, false}, {1, true}, {2, true}}
	many := []state{{}, {1, false}, {2, false}, {3, false}, {1, true}, {2, true}, {3, true}}
	kit.Main(
		kit.Scenario{Name: "pairs-1", Body: pairs(1, many, []int{1, 128}), Quick: det},
		kit.Scenario{Name: "pairs-2", Body: pairs(2, many, []int{1, 2, -1}), Quick: det, Weight: 2},
		kit.Scenario{Name: "pairs-3", Body: pairs(3, few, []int{1, 2, -1, 128}), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "large", Body: large(300), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "larger", Body: large(5200), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "learned-removal", Body: old, Quick: det},
		kit.Scenario{Name: "trees", Body: trees, Quick: vsched.Opts{MaxSteps: 4000000}},
		kit.Scenario{Name: "auto-2of3", Body: auto(3, 2, 4, false), Quick: det, Weight: 2},
		kit.Scenario{Name: "auto-3", Body: auto(3, 3, 4, false), Quick: det},
		kit.Scenario{Name: "auto-any", Body: auto(2, 2, 5, true), Quick: det},
		kit.Scenario{Name: "auto-deep", Body: auto(3, 2, 6, false), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "auto-any-deep", Body: auto(3, 3, 6, true), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "backoff", Body: backoff(5), Quick: det},
		kit.Scenario{Name: "ties", Body: ties, Quick: det},
		kit.Scenario{Name: "brains", Body: brains, Quick: det},
		kit.Scenario{Name: "peers", Body: peers, Quick: det},
		kit.Scenario{Name: "outage", Body: outage, Quick: det},
		kit.Scenario{Name: "sweep", Body: sweep, Quick: det},
		kit.Scenario{Name: "sync-op", Body: races(1, false), Quick: s(1), Deep: s(2), Race: true},
		kit.Scenario{Name: "sync-both-op", Body: races(1, true), Quick: s(1), Deep: s(2)},
		kit.Scenario{Name: "sync-ops", Body: races(2, false), Quick: s(1), Deep: s(2)},
	)
}
