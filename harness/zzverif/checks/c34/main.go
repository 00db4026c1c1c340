// C34: batched read repair sends every repair once, soon, and before Stop
// returns.
package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const (
	ms    = time.Millisecond
	every = 10 * ms
)

func now() time.Duration { return time.Duration(vsched.Now()) }

func item(key string, v uint64) *cache.Item {
	return &cache.Item{Key: key, Value: fmt.Sprintf("%s@%d", key, v), Version: v, Origin: "n0", LastUpdated: time.Unix(0, 0).Add(time.Duration(v) * time.Second)}
}

func batched(size int, o ...dc.Opt) func(int) []dc.Opt {
	return func(i int) []dc.Opt {
		if i == 0 {
			return append(o, backend.WithDistReadRepairBatch(every, size))
		}
		return nil
	}
}

// what the queue must hold for a peer and key
type pending struct {
	version uint64
	since   time.Duration
}

// sequences: all histories of reads, newer copies and time, then Stop.
func sequences(level backend.ConsistencyLevel, parallel bool, depth, keys int) func() {
	return func() {
		vsched.Calm(true)
		size := 1 + vsched.Choose(keys+1)
		c := dc.New(dc.Cfg{N: 3, R: 3, Opts: []dc.Opt{backend.WithDistReadConsistency(level), backend.WithDistParallelReads(parallel)}, Each: batched(size)})
		vsched.Sleep(ms)
		var (
			hist    = fmt.Sprintf("batches of %d:", size)
			version = map[string]uint64{}
			queue   = map[string]*pending{} // peer/key
			sent    = map[string]uint64{}   // peer/key -> version, since the last step
			nsent   int64
			full    = map[string]bool{} // peers whose batch was filled in this step
			local   int64
			key     []string
		)
		for i := range keys {
			k := fmt.Sprintf("k%d", i)
			key = append(key, k)
			version[k] = 1
			for j := range 3 {
				c.Nodes[j].DebugInject(item(k, 1))
			}
		}
		c.Tap = func(cl dc.Call) {
			if cl.Op != "set" {
				return
			}
			id := cl.To + "/" + cl.Key
			nsent++
			p := queue[id]
			switch {
			case cl.From != "n0" || cl.Repl:
				vsched.Fail("[call] %s: unexpected %v (replicate %v)", hist, cl, cl.Repl)
			case p == nil:
				vsched.Fail("[unasked] %s: %v is sent, no repair is due", hist, cl)
			case cl.Item.Version != p.version || cl.Item.Value != fmt.Sprintf("%s@%d", cl.Key, p.version) || cl.Item.Origin != "n0":
				vsched.Fail("[version] %s: %v is sent, due is version %d", hist, cl, p.version)
			}
			delete(queue, id)
			sent[id] = p.version
		}
		steps := 1 + vsched.Choose(depth)
		for range steps {
			clear(sent)
			clear(full)
			switch op := vsched.Choose(2*keys + 2); {
			case op < keys: // a read
				k := key[op]
				hist += " read " + k
				reads := make(map[string]bool)
				// what the read must queue: the chosen copy for every other owner
				for i := 1; i < 3; i++ {
					id := dc.ID(i) + "/" + k
					reads[id] = true
					if queue[id] == nil {
						queue[id] = &pending{since: now()}
					}
					queue[id].version = version[k]
				}
				for i := 1; i < 3; i++ {
					n := 0
					for id := range queue {
						if strings.HasPrefix(id, dc.ID(i)+"/") {
							n++
						}
					}
					full[dc.ID(i)] = n >= size
				}
				it, ok := c.Nodes[0].Get(bg, k)
				if !ok || it.Version != version[k] {
					vsched.Fail("[read] %s: %v", hist, it)
				}
				// the caller's own
				it.Key, it.Value, it.Version, it.Origin = "scribbled", "scribbled", 99, "scribbled"
				vsched.Quiesce()
				for id := range reads {
					peer, _, _ := strings.Cut(id, "/")
					if full[peer] != (queue[id] == nil) {
						vsched.Fail("[batch] %s: the batch for %s is full: %v, sent: %v", hist, peer, full[peer], queue[id] == nil)
					}
				}
			case op < 2*keys: // a newer copy
				k := key[op-keys]
				version[k]++
				hist += " write " + k
				c.Nodes[0].DebugInject(item(k, version[k]))
			case op == 2*keys:
				hist += " half"
				vsched.Sleep(every / 2)
			default:
				hist += " wait"
				vsched.Sleep(every)
			}
			for id, p := range queue {
				if now()-p.since > every {
					vsched.Fail("[late] %s: the repair of %s is due for %v", hist, id, now()-p.since)
				}
			}
		}
		clear(sent)
		hist += " stop"
		if err := c.Nodes[0].Stop(bg); err != nil {
			vsched.Fail("[stop] %v", err)
		}
		if len(queue) > 0 {
			vsched.Fail("[drain] %s: Stop has returned, %d repairs were not sent", hist, len(queue))
		}
		m := c.Nodes[0].Metrics()
		if m.ReadRepairBatched != nsent || m.ReadRepair-local != m.ReadRepairBatched+m.ReadRepairCoalesced {
			vsched.Fail("[metrics] %s: %d sent; %d repairs, %d batched, %d coalesced counted", hist, nsent, m.ReadRepair-local, m.ReadRepairBatched, m.ReadRepairCoalesced)
		}
		for k, v := range version {
			for i := 1; i < 3; i++ {
				if it, ok := c.Local(i, k); !ok || it.Version > v {
					vsched.Fail("[copy] %s: %s", hist, c.Show(k))
				}
			}
		}
		vsched.Sleep(3 * every)
		vsched.Outcome("%d %d", size, nsent)
		c.Stop()
	}
}

// stale: which owner holds the newest copy, and who reads, does not matter.
func stale(level backend.ConsistencyLevel, parallel bool) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 3, R: 3, Opts: []dc.Opt{backend.WithDistReadConsistency(level), backend.WithDistParallelReads(parallel), backend.WithDistReadRepairBatch(every, 1+vsched.Choose(2))}})
		vsched.Sleep(ms)
		who := vsched.Choose(3)
		down := vsched.Choose(4) - 1
		var top uint64
		have := [3]uint64{}
		for i := range 3 {
			have[i] = uint64(vsched.Choose(3))
			if have[i] > 0 {
				c.Nodes[i].DebugInject(item("k", have[i]))
			}
		}
		if down >= 0 {
			c.SetDown(down, true)
		}
		it, ok := c.Nodes[who].Get(bg, "k")
		if ok {
			top = it.Version
		}
		vsched.Sleep(every + ms)
		for i := range 3 {
			x, has := c.Local(i, "k")
			if i == down && i != who {
				if x.Version != have[i] {
					vsched.Fail("[down] n%d is down, had version %d and has %d", i, have[i], x.Version)
				}
				continue
			}
			if has != (max(have[i], top) > 0) || x.Version != max(have[i], top) {
				vsched.Fail("[repair] copies %v, n%d reads version %d, n%d down: a round later n%d has version %d", have, who, top, down, i, x.Version)
			}
		}
		vsched.Outcome("%d %v", top, ok)
		c.Stop()
	}
}

// stopping: reads, the flusher and Stop at the same time.
func stopping(size, kind int, slow time.Duration) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistReadConsistency(backend.ConsistencyAll)}, Each: batched(size)})
		c.Slow = slow
		for i := range 2 {
			c.Nodes[i].DebugInject(item("a", 1))
			c.Nodes[i].DebugInject(item("b", 1))
		}
		c.Nodes[0].DebugInject(item("a", 2))
		c.Nodes[0].DebugInject(item("b", 2))
		vsched.Sleep(every - 2*ms)
		var returned [2]atomic.Bool
		var missing []string
		read := func(i int, k string) {
			if it, ok := c.Nodes[0].Get(bg, k); !ok || it.Version != 2 {
				vsched.Fail("[read] %v", it)
			}
			returned[i].Store(true)
		}
		stop := func() {
			due := [2]bool{returned[0].Load(), returned[1].Load()}
			if err := c.Nodes[0].Stop(bg); err != nil {
				vsched.Fail("[stop] %v", err)
			}
			for i, k := range []string{"a", "b"} {
				if x, _ := c.Local(1, k); due[i] && x.Version != 2 {
					missing = append(missing, k)
				}
			}
		}
		vsched.Calm(false)
		g := vsched.Group{}
		switch kind {
		case 0: // two reads race with Stop
			g.Go(func() { read(0, "a") })
			g.Go(stop)
		case 1: // a read, then Stop at the time of the tick
			g.Go(func() {
				read(0, "a")
				vsched.Sleep(2*ms - slow/2)
				stop()
			})
		case 2: // two reads which fill the batch, then Stop
			g.Go(func() {
				read(0, "a")
				read(1, "b")
				stop()
			})
		case 3: // Stop twice
			g.Go(func() {
				read(0, "a")
				stop()
			})
			g.Go(func() { _ = c.Nodes[0].Stop(bg) })
		}
		g.Wait()
		vsched.Calm(true)
		vsched.Quiesce()
		vsched.Sleep(3 * every)
		if len(missing) > 0 && kind != 3 {
			vsched.Fail("[drain] the reads of %v had returned before Stop was called; when it returned, their repairs had not arrived", missing)
		}
		m := c.Nodes[0].Metrics()
		vsched.Outcome("%d %d", m.ReadRepairBatched, len(missing))
		c.Stop()
	}
}

// flushing: readers of several versions, and the tick.
func flushing(size int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistReadConsistency(backend.ConsistencyAll)}, Each: batched(size)})
		for i := range 2 {
			c.Nodes[i].DebugInject(item("a", 1))
			c.Nodes[i].DebugInject(item("b", 1))
		}
		vsched.Sleep(every - ms)
		vsched.Calm(false)
		g := vsched.Group{}
		g.Go(func() {
			c.Nodes[0].DebugInject(item("a", 2))
			vsched.Sleep(ms)
			c.Nodes[0].Get(bg, "a")
		})
		g.Go(func() {
			vsched.Sleep(ms)
			c.Nodes[0].DebugInject(item("a", 3))
			c.Nodes[0].Get(bg, "a")
			c.Nodes[0].Get(bg, "b")
		})
		g.Wait()
		vsched.Calm(true)
		vsched.Sleep(every + ms)
		if x, _ := c.Local(1, "a"); x.Version != 3 {
			vsched.Fail("[repair] version 3 was read, and a round later n1 has %s", c.Show("a"))
		}
		m := c.Nodes[0].Metrics()
		if m.ReadRepair != m.ReadRepairBatched+m.ReadRepairCoalesced {
			vsched.Fail("[metrics] %d repairs, %d batched, %d coalesced", m.ReadRepair, m.ReadRepairBatched, m.ReadRepairCoalesced)
		}
		vsched.Outcome("%d %d", m.ReadRepairBatched, m.ReadRepairCoalesced)
		c.Stop()
	}
}

// off: sizes and intervals that disable batching repair at once.
func off() {
	vsched.Calm(true)
	iv := []time.Duration{0, -1, every}[vsched.Choose(3)]
	size := vsched.Choose(3) - 1
	c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistReadConsistency(backend.ConsistencyAll), backend.WithDistReadRepairBatch(iv, size)}})
	vsched.Sleep(ms)
	c.Nodes[0].DebugInject(item("a", 2))
	c.Nodes[1].DebugInject(item("a", 1))
	c.Nodes[0].Get(bg, "a")
	x, _ := c.Local(1, "a")
	on := iv > 0 && size > 0
	if on && size > 1 || !on {
		if (x.Version == 2) == on {
			vsched.Fail("[off] interval %v, size %d: repaired when the read returned: %v", iv, size, x.Version == 2)
		}
	}
	vsched.Outcome("%v", x.Version)
	c.Stop()
}

// large: big batches, and a queue of many at Stop.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns)-1)+1]
		size := []int{n, n + 1, 1 << 20}[vsched.Choose(3)]
		c := dc.New(dc.Cfg{N: 3, R: 3, Opts: []dc.Opt{backend.WithDistReadConsistency(backend.ConsistencyAll)}, Each: batched(size)})
		vsched.Sleep(ms)
		sent := map[string]int{}
		total := 0
		c.Tap = func(cl dc.Call) {
			if cl.Op == "set" {
				sent[cl.To+cl.Key]++
				total++
			}
		}
		read := func(from, to int) {
			for i := from; i < to; i++ {
				k := fmt.Sprint("k", i)
				c.Nodes[0].DebugInject(item(k, 2))
				c.Nodes[1].DebugInject(item(k, 1))
				c.Nodes[2].DebugInject(item(k, 1))
				if it, ok := c.Nodes[0].Get(bg, k); !ok || it.Version != 2 {
					vsched.Fail("[read] %v", it)
				}
			}
			vsched.Quiesce()
		}
		repaired := func(when string, to int) {
			if total != 2*to {
				vsched.Fail("[batch] batches of %d, %s: %d repairs sent, want %d", size, when, total, 2*to)
			}
			for j := 1; j < 3; j++ {
				l, _ := c.Nodes[j].List(bg)
				fresh := 0
				for _, it := range l {
					if it.Version == 2 {
						fresh++
					}
				}
				if fresh != to {
					vsched.Fail("[repair] batches of %d, %s: %s has %d fresh copies, want %d", size, when, dc.ID(j), fresh, to)
				}
			}
		}
		read(0, n)
		if size == n {
			repaired("full", n)
		} else {
			repaired("not full", 0)
			vsched.Sleep(every)
			repaired("an interval later", n)
		}
		read(n, 2*n-1)
		c.Stop()
		repaired("after Stop", 2*n-1)
		for k, m := range sent {
			if m != 1 {
				vsched.Fail("[twice] batches of %d: %s was sent %d times", size, k, m)
			}
		}
		vsched.Outcome("%d", n)
	}
}

// larger: what Stop sends of many repairs, with batches of any size.
func larger(p *kit.P) {
	limit := 300
	if p.Deep() {
		limit = 5200
	}
	for _, n := range kit.Sizes(limit)[1:] {
		for _, size := range []int{1, n, n/2 + 1, 1 << 20} {
			id := fmt.Sprintf("%d in batches of %d", n, size)
			if !p.Begin("%s", id) {
				continue
			}
			c := dc.New(dc.Cfg{N: 3, R: 3, Opts: []dc.Opt{backend.WithDistReadConsistency(backend.ConsistencyAll)}, Each: func(i int) []dc.Opt {
				if i == 0 {
					return []dc.Opt{backend.WithDistReadRepairBatch(time.Hour, size)}
				}
				return nil
			}})
			var mu sync.Mutex
			sent := map[string]int{}
			c.Tap = func(cl dc.Call) {
				if cl.Op == "set" {
					mu.Lock()
					sent[cl.To+cl.Key]++
					mu.Unlock()
				}
			}
			for i := range n {
				k := fmt.Sprint("k", i)
				c.Nodes[0].DebugInject(item(k, 2))
				c.Nodes[1].DebugInject(item(k, 1))
				c.Nodes[2].DebugInject(item(k, 1))
				if it, ok := c.Nodes[0].Get(bg, k); !ok || it.Version != 2 {
					p.Fail(id, "read", "%v", it)
				}
			}
			c.Stop()
			if len(sent) != 2*n {
				p.Fail(id, "batch", "%s: %d repairs sent by the end of Stop, want %d", id, len(sent), 2*n)
			}
			for k, m := range sent {
				if m != 1 {
					p.Fail(id, "twice", "%s: %s was sent %d times", id, k, m)
				}
			}
			for j := 1; j < 3; j++ {
				l, _ := c.Nodes[j].List(bg)
				for _, it := range l {
					if it.Version != 2 {
						p.Fail(id, "repair", "%s: %s has %v", id, dc.ID(j), it)
					}
				}
			}
			p.Outcome("%d", n)
		}
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 1 << 30}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	d := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 400000} }
	kit.Main(
		kit.Scenario{Name: "sequences", Body: sequences(backend.ConsistencyAll, false, 4, 2), Quick: det},
		kit.Scenario{Name: "sequences-parallel", Body: sequences(backend.ConsistencyAll, true, 3, 2), Quick: det},
		kit.Scenario{Name: "sequences-deep", Body: sequences(backend.ConsistencyAll, false, 6, 2), Deep: det, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "sequences-3", Body: sequences(backend.ConsistencyAll, false, 5, 3), Deep: det, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "stale-all", Body: stale(backend.ConsistencyAll, false), Quick: det},
		kit.Scenario{Name: "stale-quorum", Body: stale(backend.ConsistencyQuorum, false), Quick: det},
		kit.Scenario{Name: "stale-parallel", Body: stale(backend.ConsistencyQuorum, true), Quick: det},
		kit.Scenario{Name: "stop-read", Body: stopping(4, 0, 0), Quick: s(1), Deep: s(2), Race: true},
		kit.Scenario{Name: "stop-tick", Body: stopping(4, 1, 0), Quick: s(1), Deep: s(2), Race: true},
		kit.Scenario{Name: "stop-tick-slow", Body: stopping(4, 1, ms), Quick: s(1), Deep: s(2)},
		kit.Scenario{Name: "stop-full", Body: stopping(2, 2, 0), Quick: d(2), Deep: s(1), Race: true},
		kit.Scenario{Name: "stop-full-slow", Body: stopping(2, 2, ms), Quick: d(2), Deep: s(1)},
		kit.Scenario{Name: "stop-twice", Body: stopping(4, 3, 0), Quick: d(2), Deep: s(1), Race: true},
		kit.Scenario{Name: "flushing", Body: flushing(4), Quick: s(1), Deep: s(2), Race: true},
		kit.Scenario{Name: "flushing-full", Body: flushing(2), Quick: d(2), Deep: s(1), Race: true},
		kit.Scenario{Name: "off", Body: off, Quick: det},
		kit.Scenario{Name: "large", Body: large(20), Quick: det},
		kit.Scenario{Name: "larger", Plain: larger},
	)
}
