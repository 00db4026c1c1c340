// C44: caches over a cluster expire what has outlived its time, and only that.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var bg = context.Background()

type front = hypercache.HyperCache[backend.DistMemory]

const (
	ttl  = 10 * time.Millisecond
	half = 6 * time.Millisecond
	over = 11 * time.Millisecond
)

// fronts builds a cluster with a cache over each node.
func fronts(n, r int, opts ...dc.Opt) (*dc.Cluster, []*front) {
	hs := make([]*front, n)
	c := dc.New(dc.Cfg{N: n, R: r, Opts: opts, Make: func(i int, o []dc.Opt) error {
		conf, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			return err
		}
		conf.DistMemoryOptions = o
		conf.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{
			hypercache.WithEvictionInterval[backend.DistMemory](time.Hour),
			hypercache.WithExpirationInterval[backend.DistMemory](time.Hour),
			hypercache.WithEvictionShardCount[backend.DistMemory](1),
		}
		hs[i], err = hypercache.New(bg, hypercache.NewBackendManager(), conf)
		return err
	}})
	return c, hs
}

func stop(hs []*front) {
	for i, h := range hs {
		if err := h.Stop(bg); err != nil {
			vsched.Fail("[stop] n%d: %v", i, err)
		}
	}
}

func age(t int64) time.Duration { return time.Duration(vsched.Now() - t) }

// life is what is known of a key's lifetime.
type life struct {
	val           string // "" after a removal
	ttl           time.Duration
	wrote, access int64 // of the value; the last successful access
}

func (l *life) must() bool {
	return l.val != "" && (l.ttl == 0 || age(l.wrote) <= l.ttl)
}
func (l *life) may() bool {
	return l.val != "" && (l.ttl == 0 || age(l.access) <= l.ttl)
}

func (l *life) write(val string, ttl time.Duration) {
	*l = life{val, ttl, vsched.Now(), vsched.Now()}
}

// judge compares what a read through node n gave.
func (l *life) judge(n int, v any, ok bool, what func() string) {
	switch {
	case ok && (!l.may() || v != l.val):
		vsched.Fail("[late] n%d reads %v, want %q %v/%v old of %v: %s", n, v, l.val, age(l.wrote), age(l.access), l.ttl, what())
	case !ok && l.must():
		vsched.Fail("[lost] n%d misses %q, %v old of %v: %s", n, l.val, age(l.wrote), l.ttl, what())
	}
	if ok {
		l.access = vsched.Now()
	}
}

// sequences runs all sequences of operations on one key, next to two that stay.
func sequences(n, r, depth int) func() {
	return func() {
		vsched.Calm(true)
		c, hs := fronts(n, r)
		owners := []int{0, 1, 2}[:min(n, r)]
		ks := c.Keys(2, owners...)
		key, stay, long := ks[0], ks[1], "long"
		var l, ls, ll life
		l.wrote = vsched.Now()
		set := func(i int, k, v string, d time.Duration) {
			if err := hs[i].Set(bg, k, v, d); err != nil {
				vsched.Fail("[set] n%d: %v", i, err)
			}
		}
		set(0, stay, "stays", 0)
		ls.write("stays", 0)
		set(n-1, long, "long", time.Hour)
		ll.write("long", time.Hour)
		var hist []string
		what := func() string { return strings.Join(hist, " ") + " | " + c.Show(key) }
		for i := range depth {
			op := vsched.Choose(4*n + 3)
			at := op % n
			v := fmt.Sprintf("v%d", i)
			switch {
			case op == 4*n:
				hist = append(hist, "half")
				vsched.Sleep(half)
			case op == 4*n+1:
				hist = append(hist, "over")
				vsched.Sleep(over)
			case op == 4*n+2:
				hist = append(hist, "remove")
				if err := hs[0].Remove(bg, key); err != nil {
					vsched.Fail("[remove] %v", err)
				}
				l.val = ""
			case op < n:
				hist = append(hist, fmt.Sprintf("set%d", at))
				set(at, key, v, 0)
				l.write(v, 0)
			case op < 2*n:
				hist = append(hist, fmt.Sprintf("setTTL%d", at))
				set(at, key, v, ttl)
				l.write(v, ttl)
			case op < 3*n:
				hist = append(hist, fmt.Sprintf("get%d", at))
				x, ok := hs[at].Get(bg, key)
				l.judge(at, x, ok, what)
				vsched.Quiesce() // a pass may have been started
			default:
				hist = append(hist, fmt.Sprintf("pass%d", at))
				hs[at].TriggerExpiration()
				vsched.Quiesce()
				items, err := hs[at].List(bg)
				if err != nil {
					vsched.Fail("[list] %v", err)
				}
				for _, it := range items {
					if it.Expired() {
						vsched.Fail("[kept] n%d still holds %+v after its pass: %s", at, *it, what())
					}
				}
			}
		}
		for i, h := range hs {
			x, ok := h.Get(bg, key)
			l.judge(i, x, ok, what)
			x, ok = h.Get(bg, stay)
			ls.judge(i, x, ok, what)
			x, ok = h.Get(bg, long)
			ll.judge(i, x, ok, what)
		}
		vsched.Quiesce()
		vsched.Outcome("%s", c.Show(key))
		stop(hs)
	}
}

// outdated lets a replica miss writes of the primary, and expire its old copy.
func outdated(depth int) func() {
	return func() {
		vsched.Calm(true)
		c, hs := fronts(3, 2, backend.WithDistWriteConsistency(backend.ConsistencyOne), backend.WithDistReadConsistency(backend.ConsistencyOne))
		key := c.Key(0, 1)
		var l life
		l.wrote = vsched.Now()
		var hist []string
		what := func() string { return strings.Join(hist, " ") + " | " + c.Show(key) }
		cut := func(y bool) {
			c.SetCut(0, 1, y)
			c.SetCut(1, 0, y)
		}
		for i := range depth {
			v := fmt.Sprintf("v%d", i)
			switch op := vsched.Choose(8); op {
			case 0, 1:
				d := time.Duration(op) * ttl
				hist = append(hist, fmt.Sprintf("set(%v)", d))
				if err := hs[0].Set(bg, key, v, d); err != nil {
					vsched.Fail("[set] %v: %s", err, what())
				}
				l.write(v, d)
			case 2:
				hist = append(hist, "cut")
				cut(true)
			case 3:
				hist = append(hist, "heal")
				cut(false)
			case 4:
				hist = append(hist, "over")
				vsched.Sleep(over)
			case 5, 6, 7:
				hist = append(hist, fmt.Sprintf("pass%d", op-5))
				hs[op-5].TriggerExpiration()
				vsched.Quiesce()
			}
			// once the value has expired, an older one may surface where the write was missed
			if x, ok := hs[2].Get(bg, key); l.must() || ok && x == l.val {
				l.judge(2, x, ok, what)
			}
			vsched.Quiesce()
		}
		cut(false)
		for i := range 2 {
			if err := c.Nodes[i].SyncWith(bg, dc.ID(1-i)); err != nil {
				vsched.Fail("[sync] %v: %s", err, what())
			}
		}
		vsched.Quiesce()
		for i := range 3 {
			x, ok := hs[i].Get(bg, key)
			l.judge(i, x, ok, func() string { return what() + " after both synced" })
		}
		vsched.Quiesce()
		vsched.Outcome("%s", c.Show(key))
		stop(hs)
	}
}

// rewrite races a write with passes over the expired value it replaces.
func rewrite(n, r, writer, first, second int) func() {
	return func() {
		vsched.Calm(true)
		c, hs := fronts(n, r)
		key := c.Key([]int{0, 1, 2}[:r]...)
		if err := hs[0].Set(bg, key, "old", ttl); err != nil {
			vsched.Fail("[set] %v", err)
		}
		vsched.Sleep(over)
		var g vsched.Group
		vsched.Calm(false)
		g.Go(func() {
			if err := hs[writer].Set(bg, key, "new", 0); err != nil {
				vsched.Fail("[set] %v", err)
			}
		})
		g.Go(func() { hs[first].TriggerExpiration() })
		if second >= 0 {
			g.Go(func() {
				if v, ok := hs[second].Get(bg, key); ok && v != "new" {
					vsched.Fail("[late] n%d reads %v", second, v)
				}
			})
		}
		g.Wait()
		vsched.Quiesce()
		vsched.Calm(true)
		for i, h := range hs {
			if v, ok := h.Get(bg, key); !ok || v != "new" {
				vsched.Fail("[lost] n%d reads %v, %v after the write: %s", i, v, ok, c.Show(key))
			}
		}
		vsched.Outcome("%s", c.Show(key))
		stop(hs)
	}
}

// many entries expire at once, and many do not.
func many(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		r := 1 + vsched.Choose(2)
		c, hs := fronts(2, r)
		set := func(i int, k string, d time.Duration) {
			if err := hs[i%2].Set(bg, k, "v", d); err != nil {
				vsched.Fail("[set] %v", err)
			}
		}
		for i := range n {
			set(i, fmt.Sprint("goes", i), ttl)
			set(i, fmt.Sprint("stays", i), []time.Duration{0, time.Hour}[i%2])
		}
		vsched.Sleep(over)
		for i := range n {
			for j := range 2 {
				if _, ok := hs[j].Get(bg, fmt.Sprint("goes", i)); ok {
					vsched.Fail("[late] %d keys: key %d is read through n%d after its lifetime", n, i, j)
				}
			}
		}
		for i, h := range hs {
			h.TriggerExpiration()
			vsched.Quiesce()
			l, err := c.Nodes[i].List(bg)
			if err != nil {
				vsched.Fail("[list] %v", err)
			}
			for _, it := range l {
				if strings.HasPrefix(it.Key, "goes") {
					vsched.Fail("[left] %d keys, %d copies: %s is left at n%d after a pass", n, r, it.Key, i)
				}
			}
		}
		for i := range n {
			for j := range 2 {
				if v, ok := hs[j].Get(bg, fmt.Sprint("stays", i)); !ok || v != "v" {
					vsched.Fail("[lost] %d keys: the key %d that stays is %v through n%d", n, i, v, j)
				}
			}
		}
		vsched.Outcome("%d", n)
		stop(hs)
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	race := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 400000} }
	kit.Main(
		kit.Scenario{Name: "sequences, one node", Body: sequences(1, 1, 5), Quick: det, Deep: det},
		kit.Scenario{Name: "sequences, a node reads through another", Body: sequences(2, 1, 4), Quick: det, Deep: det, Weight: 2},
		kit.Scenario{Name: "sequences, two replicas", Body: sequences(2, 2, 4), Quick: det, Deep: det, Weight: 2},
		kit.Scenario{Name: "sequences, two replicas of three nodes", Body: sequences(3, 2, 3), Quick: det, Deep: det, Weight: 2},
		kit.Scenario{Name: "outdated copies", Body: outdated(5), Quick: det, Deep: det, Weight: 3},
		kit.Scenario{Name: "rewritten, one node", Body: rewrite(1, 1, 0, 0, -1), Quick: race(2), Deep: race(4), Race: true},
		kit.Scenario{Name: "rewritten, the replica's pass", Body: rewrite(2, 2, 0, 1, -1), Quick: race(2), Deep: race(3), Race: true},
		kit.Scenario{Name: "rewritten through the replica", Body: rewrite(2, 2, 1, 0, 1), Quick: race(2), Deep: race(3)},
		kit.Scenario{Name: "many", Body: many(300), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "many more", Body: many(2100), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "sequences-5, two nodes", Body: sequences(2, 2, 5), Deep: det, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "sequences-4, three nodes", Body: sequences(3, 2, 4), Deep: det, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "outdated-6", Body: outdated(6), Deep: det, DeepOnly: true, Weight: 3},
	)
}
