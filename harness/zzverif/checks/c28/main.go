// C28: writes, reads and removals honour their consistency level.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

type level = backend.ConsistencyLevel

var levels = []level{backend.ConsistencyOne, backend.ConsistencyQuorum, backend.ConsistencyAll}

func need(owners int, l level) int {
	switch l {
	case backend.ConsistencyAll:
		return owners
	case backend.ConsistencyQuorum:
		return owners/2 + 1
	}
	return 1
}

type env struct {
	c      *dc.Cluster
	key    string
	own    []int // owners, primary first
	w, r   level
	n      int
	last   string          // last acknowledged value ("" none or removed)
	fresh  map[string]bool // values written since, acknowledged or not, and last itself
	since  uint64          // version of last
	blind  bool            // a write was coordinated by an owner that had missed the last one
	all    map[string]bool
	calls  int
	sets   []dc.Call
	remd   bool // removed since the last write
	anyRem bool // some removal failed or missed an owner: copies may linger
}

func (e *env) up(i int) bool { return !e.c.Down(i) }

func (e *env) owner(i int) bool {
	for _, o := range e.own {
		if o == i {
			return true
		}
	}
	return false
}

// coordinator is who coordinates a write that enters at node i; -1 nobody.
func (e *env) coordinator(i int) int {
	if e.up(e.own[0]) {
		return e.own[0]
	}
	if e.owner(i) {
		return i
	}
	return -1
}

func (e *env) holders() (n int) {
	for _, o := range e.own {
		if _, ok := e.c.Local(o, e.key); ok && e.up(o) {
			n++
		}
	}
	return
}

func (e *env) ups() (n int) {
	for _, o := range e.own {
		if e.up(o) {
			n++
		}
	}
	return
}

func (e *env) foreign(when string) {
	for i := range e.c.Nodes {
		if _, ok := e.c.Local(i, e.key); ok && !e.owner(i) {
			vsched.Fail("[stray] %s: %s holds the key and does not own it", when, dc.ID(i))
		}
	}
}

func (e *env) set(i int) {
	e.n++
	v := fmt.Sprintf("v%d", e.n)
	before := e.c.Show(e.key)
	co := e.coordinator(i)
	miss := false
	if co >= 0 && e.last != "" && !e.blind {
		if it, ok := e.c.Local(co, e.key); !ok || it.Version < e.since {
			miss = true
		}
	}
	it := &cache.Item{Key: e.key, Value: v}
	err := e.c.Nodes[i].Set(bg, it)
	vsched.Tracef("set %s at %s -> %v: %s", v, dc.ID(i), err, e.c.Show(e.key))
	where := fmt.Sprintf("set %s at %s with %s", v, dc.ID(i), before)
	e.foreign(where)
	e.all[v] = true
	if co < 0 {
		if err == nil {
			vsched.Fail("[set-lost] %s: nobody can coordinate the write, and it succeeded", where)
		}
		return
	}
	e.fresh[v] = true
	acks := e.ups()
	if want := acks >= need(len(e.own), e.w); want != (err == nil) {
		vsched.Fail("[set-level] %s: %d of %d owners reachable, write level %v: %v", where, acks, len(e.own), e.w, err)
	}
	if err != nil && !errors.Is(err, sentinel.ErrQuorumFailed) {
		vsched.Fail("[set-error] %s: %v", where, err)
	}
	for _, o := range e.own {
		if !e.up(o) {
			continue
		}
		got, ok := e.c.Local(o, e.key)
		if !ok || got.Value != v {
			vsched.Fail("[set-missed] %s: reachable owner %s has %v: %s", where, dc.ID(o), got.Value, e.c.Show(e.key))
		}
		if err == nil && o == co {
			if miss {
				e.blind = true
			}
			if got.Version <= e.since && !e.blind {
				vsched.Fail("[version] %s: version %d does not follow %d", where, got.Version, e.since)
			}
			e.since = got.Version
			if got.Origin == "" {
				vsched.Fail("[origin] %s: no origin", where)
			}
		}
	}
	if err == nil {
		e.last = v
		e.fresh = map[string]bool{v: true}
	} else if miss {
		e.blind = true // it may win later on, or lose
	}
	e.remd = false
	vsched.Outcome("s%v", err == nil)
}

func (e *env) get(i int) {
	have := e.holders()
	before := e.c.Show(e.key)
	_, mine := e.c.Local(i, e.key)
	it, ok := e.c.Nodes[i].Get(bg, e.key)
	vsched.Tracef("get at %s -> %v: %s", dc.ID(i), ok, e.c.Show(e.key))
	where := fmt.Sprintf("get at %s with %s", dc.ID(i), before)
	n := need(len(e.own), e.r)
	e.foreign(where)
	if e.r == backend.ConsistencyOne && mine {
		have++
	}
	if want := have >= n; want != ok {
		vsched.Fail("[get-level] %s: %d copies reachable, read level %v: found %v", where, have, e.r, ok)
	}
	vsched.Outcome("g%v", ok)
	if !ok {
		return
	}
	v, _ := it.Value.(string)
	if it.Key != e.key || !e.all[v] {
		vsched.Fail("[get-wrong] %s: %q=%v was never written", where, it.Key, it.Value)
	}
	k := len(e.own)
	if need(k, e.w)+need(k, e.r) > k && e.last != "" && !e.fresh[v] && !e.anyRem {
		if e.blind {
			vsched.Fail("[blind] %s: %s, but %s was acknowledged later (by an owner that had missed the write before)", where, v, e.last)
		}
		vsched.Fail("[stale] %s: %s, but %s was acknowledged later", where, v, e.last)
	}
	if e.r != backend.ConsistencyOne {
		for _, o := range e.own {
			if got, ok := e.c.Local(o, e.key); e.up(o) && (!ok || got.Version < it.Version) {
				vsched.Fail("[repair] %s: %s still has %v@%d after reading %s@%d", where, dc.ID(o), got.Value, got.Version, v, it.Version)
			}
		}
	}
	// a returned item is the caller's own
	it.Value = "scribble"
	if c, ok := e.c.Local(i, e.key); ok && c.Value == "scribble" {
		vsched.Fail("[shared] %s: the returned item is the stored one", where)
	}
}

func (e *env) remove(i int) {
	before := e.c.Show(e.key)
	co := e.coordinator(i)
	err := e.c.Nodes[i].Remove(bg, e.key)
	vsched.Tracef("remove at %s -> %v: %s", dc.ID(i), err, e.c.Show(e.key))
	where := fmt.Sprintf("remove at %s with %s", dc.ID(i), before)
	if (err == nil) != (co >= 0) {
		vsched.Fail("[remove-result] %s: %v", where, err)
	}
	vsched.Outcome("r%v", err == nil)
	if co < 0 {
		return
	}
	for _, o := range e.own {
		if _, ok := e.c.Local(o, e.key); ok {
			if e.up(o) {
				vsched.Fail("[remove-missed] %s: reachable owner %s still has the key: %s", where, dc.ID(o), e.c.Show(e.key))
			}
			e.anyRem = true // the deletion has to wait for anti-entropy
		}
	}
	e.last, e.since, e.blind = "", 0, false
	e.fresh = map[string]bool{}
}

// run enumerates histories of n operations on one key.
func run(nodes, repl, n int, w, r []level, soft, parallel, removes, readLast bool) func() {
	return func() {
		vsched.Calm(true)
		e := &env{fresh: map[string]bool{}, all: map[string]bool{}}
		e.w, e.r = w[vsched.Choose(len(w))], r[vsched.Choose(len(r))]
		e.c = dc.New(dc.Cfg{N: nodes, R: repl, Opts: []dc.Opt{backend.WithDistWriteConsistency(e.w), backend.WithDistReadConsistency(e.r), backend.WithDistParallelReads(parallel)}})
		e.c.Soft = soft
		for i := range repl {
			e.own = append(e.own, i)
		}
		e.key = e.c.Key(e.own...)
		for step := range n {
			var ops []func()
			for i := range nodes {
				if !e.up(i) {
					continue
				}
				if !readLast || step < n-1 {
					ops = append(ops, func() { e.set(i) })
				}
				if e.n > 0 && (!readLast || step == n-1) {
					ops = append(ops, func() { e.get(i) })
					if removes {
						ops = append(ops, func() { e.remove(i) })
					}
				}
			}
			if step < n-1 {
				for i := range repl { // owners fail and come back
					ops = append(ops, func() {
						e.c.SetDown(i, !e.c.Down(i))
						vsched.Tracef("%s down=%v", dc.ID(i), e.c.Down(i))
					})
				}
			}
			if len(ops) == 0 { // everybody is down
				break
			}
			vsched.Sleep(time.Millisecond) // clocks move on
			ops[vsched.Choose(len(ops))]()
		}
		e.c.Stop()
	}
}

// large: many keys, many writes of one, long keys, big values, wide replication.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		kind := []string{"keys", "writes", "long", "big", "wide"}[vsched.Choose(5)]
		n := ns[vsched.Choose(len(ns))]
		nodes, repl := 4, 3
		if kind == "wide" {
			repl = 1 + n%7
			nodes, n = 8, 5
		}
		w, r := levels[vsched.Choose(3)], levels[2]
		if w == levels[2] {
			r = levels[vsched.Choose(2)]
		}
		c := dc.New(dc.Cfg{N: nodes, R: repl, Opts: []dc.Opt{backend.WithDistWriteConsistency(w), backend.WithDistReadConsistency(r)}})
		ring := c.Mem[0].Ring()
		what := fmt.Sprintf("%s %d, %v/%v, %d of %d", kind, n, w, r, repl, nodes)
		last := map[string]cache.Item{} // with the version of the write before it
		known := map[string]uint64{}
		var order []string
		set := func(at int, k string, v any) {
			vsched.Sleep(time.Millisecond)
			if err := c.Nodes[at].Set(bg, &cache.Item{Key: k, Value: v}); err != nil {
				vsched.Fail("[set-level] %s: set at %s: %v", what, dc.ID(at), err)
			}
			if _, ok := last[k]; !ok {
				order = append(order, k)
			}
			last[k] = cache.Item{Value: v, Version: known[k]}
		}
		check := func() {
			have := make([]map[string]*cache.Item, nodes)
			for i := range nodes {
				have[i] = map[string]*cache.Item{}
				l, err := c.Nodes[i].List(bg)
				if err != nil {
					vsched.Fail("[list] %v", err)
				}
				for _, it := range l {
					have[i][it.Key] = it
				}
			}
			for j, k := range order {
				want, there := last[k]
				own := map[string]bool{}
				for _, o := range ring.Lookup(k) {
					own[string(o)] = true
				}
				if len(own) != repl {
					vsched.Fail("[owners] %s: key %d has %d owners", what, j, len(own))
				}
				var version uint64
				for i := range nodes {
					it, ok := have[i][k]
					if ok != (own[dc.ID(i)] && there) {
						vsched.Fail("[set-missed] %s: key %d at %s: there %v, owner %v, stored %v", what, j, dc.ID(i), ok, own[dc.ID(i)], there)
					}
					if !ok {
						continue
					}
					if it.Value != want.Value || it.Version <= want.Version || version > 0 && it.Version != version {
						vsched.Fail("[version] %s: key %d at %s has version %d, %v; the write before had %d", what, j, dc.ID(i), it.Version, it.Value == want.Value, want.Version)
					}
					version = it.Version
				}
				at := (j + 1) % nodes
				it, ok := c.Nodes[at].Get(bg, k)
				if ok != there || ok && (it.Value != want.Value || it.Key != k) {
					vsched.Fail("[stale] %s: key %d at %s: found %v, want %v", what, j, dc.ID(at), ok, there)
				}
				known[k] = version
			}
		}
		x := strings.Repeat("k", n*16)
		switch kind {
		case "keys", "wide":
			for i := range n {
				set(i%nodes, fmt.Sprint("key-", i), fmt.Sprint("v", i))
			}
			check()
			for i := 0; i < n; i += 2 {
				set((i+1)%nodes, fmt.Sprint("key-", i), fmt.Sprint("w", i))
			}
		case "writes":
			for i := range n {
				set(i%nodes, "key", fmt.Sprint("v", i))
				check()
			}
		case "long":
			for i := range 6 {
				set(i%nodes, fmt.Sprint(x, i), fmt.Sprint("v", i))
				set(i%nodes, fmt.Sprint(i, x), fmt.Sprint("w", i))
			}
		case "big":
			for i := range 6 {
				set(i%nodes, fmt.Sprint("key-", i%4), fmt.Sprint(x, i, x))
			}
		}
		check()
		for i, k := range order {
			if i%3 == 0 {
				if err := c.Nodes[i%nodes].Remove(bg, k); err != nil {
					vsched.Fail("[remove-result] %s: %v", what, err)
				}
				delete(last, k)
			}
		}
		check()
		vsched.Outcome("%s", kind)
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 200000}
	q := levels[1:2]
	seq := func(nodes, repl, n int, w, r []level, soft, removes bool) func() {
		return run(nodes, repl, n, w, r, soft, false, removes, false)
	}
	kit.Main(
		kit.Scenario{Name: "history-3x3", Body: seq(3, 3, 4, levels, levels, false, true), Quick: det, Weight: 2},
		kit.Scenario{Name: "history-4x3-soft", Body: seq(4, 3, 3, levels, levels, true, true), Quick: det, Weight: 2},
		kit.Scenario{Name: "history-3x2", Body: seq(3, 2, 4, levels, levels, true, true), Quick: det},
		kit.Scenario{Name: "history-2x1", Body: seq(2, 1, 4, levels, levels, false, true), Quick: det},
		kit.Scenario{Name: "quorum-3x3-5", Body: seq(3, 3, 5, q, q, true, false), Quick: det, Weight: 2},
		kit.Scenario{Name: "quorum-faults", Body: run(3, 3, 7, q, q, true, false, false, true), Quick: det, Weight: 3},
		kit.Scenario{Name: "overlap-faults", Body: run(3, 3, 5, levels, levels, true, false, false, true), Quick: det, Weight: 1},
		kit.Scenario{Name: "large", Body: large(130), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "quorum-3x3-7", Body: seq(3, 3, 7, q, q, true, false), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "history-4x3-4", Body: seq(4, 3, 4, levels, levels, true, true), Deep: det, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "history-3x3-5", Body: seq(3, 3, 5, levels, levels, false, true), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "history-5x5-4", Body: seq(5, 5, 4, levels, levels, true, true), Deep: det, DeepOnly: true, Weight: 3},
	)
}
