// C47: what a distributed node counts, times and traces is what it did, and
// injected faults are what was asked for.
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const ms = time.Millisecond

// tally is what a node should have counted.
type tally struct {
	forwardGet, forwardSet, forwardRemove         int64
	attempts, acks, quorumFailures, promotions    int64
	queued, drains, refused                       int64
	sets, gets, removes                           uint64
	hbSuccess, hbFailure, suspected, dead         int64
	indirectSuccess, indirectFailure, indirectRef int64
}

func read(dm *backend.DistMemory) (t tally) {
	m := dm.Metrics()
	t = tally{
		m.ForwardGet, m.ForwardSet, m.ForwardRemove,
		m.WriteAttempts, m.WriteAcks, m.WriteQuorumFailures, m.WriteForwardPromotion,
		m.HintedQueued, m.Drains, m.WriteApplyRefused,
		0, 0, 0,
		m.HeartbeatSuccess, m.HeartbeatFailure, m.NodesSuspect, m.NodesDead,
		m.IndirectProbeSuccess, m.IndirectProbeFailure, m.IndirectProbeRefuted,
	}
	h := dm.LatencyHistograms()
	for _, x := range []struct {
		n    *uint64
		name string
	}{{&t.sets, "set"}, {&t.gets, "get"}, {&t.removes, "remove"}} {
		for _, v := range h[x.name] {
			*x.n += v
		}
	}
	if m.MembersAlive+m.MembersSuspect+m.MembersDead < 1 {
		vsched.Fail("[members] nobody is a member")
	}
	return t
}

func members(what string, c *dc.Cluster, i int) {
	m := c.Nodes[i].Metrics()
	var n [3]int64
	for _, x := range c.Mem[i].List() {
		switch x.State {
		case cluster.NodeAlive:
			n[0]++
		case cluster.NodeSuspect:
			n[1]++
		default:
			n[2]++
		}
	}
	if got := [3]int64{m.MembersAlive, m.MembersSuspect, m.MembersDead}; got != n || m.MembershipVersion != c.Mem[i].Version() {
		vsched.Fail("[members] %s: %s counts %v at version %d, its membership has %v at %d", what, dc.ID(i), got, m.MembershipVersion, n, c.Mem[i].Version())
	}
}

// world is a cluster whose calls and spans are recorded.
type world struct {
	*dc.Cluster
	want   []tally
	trace  []*recorder
	calls  []dc.Call
	w, r   backend.ConsistencyLevel
	drain  []bool
	log    string
	values int
}

func build(n, r int, w, rd backend.ConsistencyLevel, more ...dc.Opt) *world {
	x := &world{w: w, r: rd, want: make([]tally, n), drain: make([]bool, n)}
	for range n {
		x.trace = append(x.trace, &recorder{})
	}
	x.Cluster = dc.New(dc.Cfg{N: n, R: r, Opts: append([]dc.Opt{
		backend.WithDistWriteConsistency(w), backend.WithDistReadConsistency(rd), backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(time.Hour),
	}, more...), Each: func(i int) []dc.Opt {
		return []dc.Opt{backend.WithDistTracerProvider(provider{r: x.trace[i]})}
	}})
	x.Tap = func(c dc.Call) { x.calls = append(x.calls, c) }
	return x
}

func needed(n int, l backend.ConsistencyLevel) int {
	switch l {
	case backend.ConsistencyAll:
		return n
	case backend.ConsistencyQuorum:
		return n/2 + 1
	default:
		return 1
	}
}

func index(id string) int { return int(id[1] - '0') }

// do does one operation at a node, and says what should be counted.
func (x *world) do(op string, i int, key string) {
	x.calls = x.calls[:0]
	before := make([]int, len(x.trace))
	for j, t := range x.trace {
		before[j] = len(t.spans)
	}
	x.log += fmt.Sprintf("%s %s at %s; ", op, key, dc.ID(i))
	var owners []int
	for _, o := range x.Mem[i].Ring().Lookup(key) {
		owners = append(owners, index(string(o)))
	}
	var err error
	hit := false
	t := &x.want[i]
	name := ""
	switch op {
	case "set":
		x.values++
		err = x.Nodes[i].Set(bg, &cache.Item{Key: key, Value: x.values})
		name = "dist.set"
		t.sets++
		if !x.drain[i] {
			t.attempts++
		}
	case "invalid":
		if err = x.Nodes[i].Set(bg, &cache.Item{Key: "", Value: 1}); err == nil {
			vsched.Fail("[invalid] an item without a key was set")
		}
		err = nil
	case "get":
		_, hit = x.Nodes[i].Get(bg, key)
		name = "dist.get"
		t.gets++
	case "remove":
		err = x.Nodes[i].Remove(bg, key)
		name = "dist.remove"
		t.removes++
	case "drain":
		if !x.drain[i] {
			t.drains++
		}
		x.drain[i] = true
		err = x.Nodes[i].Drain(bg)
	}
	if x.drain[i] && (op == "set" || op == "remove") != errors.Is(err, sentinel.ErrDraining) {
		vsched.Fail("[draining] %s: %v", x.log, err)
	}
	// what the calls say was done
	coordinator := -1
	if (op == "set" || op == "remove") && !x.drain[i] && len(owners) > 0 && owners[0] == i {
		coordinator = i
	}
	fan := map[int][]dc.Call{}
	for _, c := range x.calls {
		from := index(c.From)
		switch {
		case c.Op == "get" && x.r == backend.ConsistencyOne:
			x.want[from].forwardGet++
		case (c.Op == "set" || c.Op == "remove") && c.Repl:
			if c.Op == "set" {
				x.want[from].forwardSet++
			} else {
				x.want[from].forwardRemove++
			}
			if c.Verdict == dc.Deliver {
				coordinator = index(c.To)
				continue
			}
			for k, o := range owners {
				if k > 0 && o == from {
					x.want[from].promotions++
					coordinator = from
				}
			}
		case op == "set" && c.Op == "set" || op == "remove" && c.Op == "remove":
			fan[from] = append(fan[from], c)
		}
	}
	if op == "set" && coordinator >= 0 {
		acks := 1
		for _, c := range fan[coordinator] {
			if c.Verdict == dc.Deliver {
				acks++
			} else {
				x.want[coordinator].queued++
			}
		}
		x.want[coordinator].acks += int64(acks)
		if short := acks < needed(len(owners), x.w); short {
			x.want[coordinator].quorumFailures++
			if !errors.Is(err, sentinel.ErrQuorumFailed) {
				vsched.Fail("[error] %s: %d of %d copies, and %v", x.log, acks, len(owners), err)
			}
		} else if err != nil {
			vsched.Fail("[error] %s: %d of %d copies, and %v", x.log, acks, len(owners), err)
		}
	}
	for j := range x.Nodes {
		if got := read(x.Nodes[j]); got != x.want[j] {
			vsched.Fail("[count] %s: %s counts\n  %+v, not\n  %+v", x.log, dc.ID(j), got, x.want[j])
			return
		}
		members(x.log, x.Cluster, j)
	}
	x.spans(name, i, before, fan, err, hit)
}

func levels() []backend.ConsistencyLevel {
	return []backend.ConsistencyLevel{backend.ConsistencyOne, backend.ConsistencyQuorum, backend.ConsistencyAll}
}

// operations: every history of operations at the nodes, some of them gone.
func operations(n int) func() {
	return func() {
		vsched.Calm(true)
		r := 1 + vsched.Choose(3)
		lv := levels()[vsched.Choose(3)]
		x := build(3, r, lv, lv, backend.WithDistParallelReads(vsched.Choose(2) == 1))
		key := x.Pref(0, 1, 2)
		down := vsched.Choose(4)
		soft := vsched.Choose(2) == 1
		if down == 0 && soft {
			vsched.Prune()
		}
		x.Soft = soft
		for i := range 2 {
			x.SetDown(i, down>>i&1 == 1)
		}
		x.log = fmt.Sprintf("R=%d %v down %b soft %v: ", r, lv, down, soft)
		ops := []string{"set", "get", "remove", "invalid", "drain", "heal"}
		for range n {
			op := ops[vsched.Choose(len(ops))]
			switch op {
			case "heal":
				if x.SetDown(0, false); true {
					x.SetDown(1, false)
				}
				x.log += "heal; "
			default:
				x.do(op, vsched.Choose(3), key)
			}
		}
		m := read(x.Nodes[0])
		vsched.Outcome("%+v", m)
		x.Stop()
	}
}

// bounds of the buckets of the histograms.
var bounds = []time.Duration{50 * time.Microsecond, 100 * time.Microsecond, 250 * time.Microsecond, 500 * time.Microsecond, ms, 2 * ms, 5 * ms, 10 * ms, 25 * ms, 50 * ms, 100 * ms, 250 * ms, 500 * ms, time.Second}

// latency: an operation that takes as long as this goes to that bucket.
func latency() {
	vsched.Calm(true)
	var ds []time.Duration
	for _, b := range bounds {
		ds = append(ds, b-1, b, b+1)
	}
	ds = append(ds, 1, 2*time.Second, time.Hour)
	d := ds[vsched.Choose(len(ds))]
	c := dc.New(dc.Cfg{N: 2, R: 1})
	key := c.Key(1)
	c.Slow = d
	op := []string{"set", "get", "remove"}[vsched.Choose(3)]
	fails := vsched.Choose(2) == 1
	if fails {
		c.SetDown(1, true)
	}
	at := vsched.Now()
	switch op {
	case "set":
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: 1})
	case "get":
		c.Nodes[0].Get(bg, key)
	case "remove":
		_ = c.Nodes[0].Remove(bg, key)
	}
	took := time.Duration(vsched.Now() - at)
	b := 0
	for b < len(bounds) && took > bounds[b] {
		b++
	}
	for name, h := range c.Nodes[0].LatencyHistograms() {
		if len(h) != len(bounds)+1 {
			vsched.Fail("[buckets] %s: %v", name, h)
			return
		}
		for i, n := range h {
			want := uint64(0)
			if name == op && i == b {
				want = 1
			}
			if n != want {
				vsched.Fail("[bucket] a %s of %v: %s: %v", op, took, name, h)
				return
			}
		}
	}
	for name, h := range c.Nodes[1].LatencyHistograms() { // it was asked by a peer, not by a caller
		for _, n := range h {
			if n != 0 {
				vsched.Fail("[bucket] the peer counted a %s: %v", name, h)
			}
		}
	}
	vsched.Outcome("%s %d", op, b)
	c.Stop()
}

// probes: what a heartbeat found is counted.
func probes(rounds int) func() {
	return func() {
		vsched.Calm(true)
		k := vsched.Choose(3) // relays
		hb := backend.WithDistHeartbeat(100*ms, 150*ms, 250*ms)
		c := dc.New(dc.Cfg{N: 3, R: 1, Each: func(i int) []dc.Opt {
			if i > 0 {
				return nil
			}
			return []dc.Opt{hb, backend.WithDistIndirectProbes(k, 10*ms)}
		}})
		var want tally
		var calls []dc.Call
		c.Tap = func(x dc.Call) { calls = append(calls, x) }
		log := fmt.Sprintf("%d relays: ", k)
		state := func() map[string]cluster.NodeState {
			m := map[string]cluster.NodeState{}
			for _, x := range c.Mem[0].List() {
				m[string(x.ID)] = x.State
			}
			return m
		}
		vsched.Sleep(50 * ms)
		for range rounds {
			mode := vsched.Choose(4) // node 1: fine, unreachable from 0, gone; 3: both gone
			c.SetCut(0, 1, mode == 1)
			c.SetDown(1, mode >= 2)
			c.SetDown(2, mode == 3)
			log += fmt.Sprintf("mode %d; ", mode)
			old := state()
			calls = calls[:0]
			vsched.Sleep(100 * ms)
			now := state()
			for _, x := range calls {
				ok := x.Verdict == dc.Deliver
				switch {
				case x.Op == "health" && x.From == "n0":
					if ok {
						want.hbSuccess++
					} else {
						want.hbFailure++
					}
				case x.Op == "indirect":
					// it helps if the relay reaches the target
					if ok && !c.Down(index(x.Key)) {
						want.indirectSuccess++
						want.indirectRef++
					} else {
						want.indirectFailure++
					}
				}
			}
			for id, st := range old {
				if n, here := now[id]; !here {
					want.dead++
				} else if st == cluster.NodeAlive && n == cluster.NodeSuspect {
					want.suspected++
				}
			}
			if got := read(c.Nodes[0]); got != want {
				vsched.Fail("[count] %s it counts\n  %+v, not\n  %+v", log, got, want)
				return
			}
			if m := c.Nodes[0].Metrics(); m.NodesRemoved != want.dead {
				vsched.Fail("[count] %s %d removed, not %d", log, m.NodesRemoved, want.dead)
			}
			members(log, c, 0)
		}
		vsched.Outcome("%+v", want)
		c.Stop()
	}
}

// conflicts: two copies that differ are one conflict, settled by the version
// or else by the origin.
func conflicts() {
	vsched.Calm(true)
	parallel := vsched.Choose(2) == 1
	rd := []backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyAll}[vsched.Choose(2)]
	c := dc.New(dc.Cfg{N: 3, R: 2, Opts: []dc.Opt{backend.WithDistReadConsistency(rd), backend.WithDistParallelReads(parallel)}})
	key := c.Pref(0, 1, 2)
	type copy struct {
		version uint64
		origin  string
	}
	var has []copy
	for i := range 2 {
		v := vsched.Choose(4)
		if v == 0 {
			continue
		}
		o := dc.ID(vsched.Choose(2))
		has = append(has, copy{uint64(v), o})
		c.Nodes[i].DebugInject(&cache.Item{Key: key, Value: i, Version: uint64(v), Origin: o, LastUpdated: time.Unix(int64(v), 0)})
	}
	at := vsched.Choose(3)
	_, ok := c.Nodes[at].Get(bg, key)
	m := c.Nodes[at].Metrics()
	var n, ties int64
	if len(has) == 2 && has[0] != has[1] {
		if n = 1; has[0].version == has[1].version {
			ties = 1
		}
	}
	if m.VersionConflicts != n || m.VersionTieBreaks != ties {
		vsched.Fail("[conflicts] %v read at %v (parallel %v) by n%d: %d conflicts, %d ties, not %d and %d", has, rd, parallel, at, m.VersionConflicts, m.VersionTieBreaks, n, ties)
	}
	vsched.Outcome("%v %d %d", ok, n, ties)
	c.Stop()
}

// together: operations at once are all counted.
func together(n int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2})
		keys := []string{c.Key(0, 1), c.Key(1, 0)}
		var g vsched.Group
		var sets, gets, removes uint64
		var fs, fg, fr int64
		for t := range n {
			op, k := vsched.Choose(3), vsched.Choose(2)
			_ = t
			switch op {
			case 0:
				if sets++; k == 1 {
					fs++
				}
			case 1:
				gets++
			case 2:
				if removes++; k == 1 {
					fr++
				}
			}
			g.Go(func() {
				switch op {
				case 0:
					_ = c.Nodes[0].Set(bg, &cache.Item{Key: keys[k], Value: 1})
				case 1:
					c.Nodes[0].Get(bg, keys[k])
				case 2:
					_ = c.Nodes[0].Remove(bg, keys[k])
				}
				c.Nodes[0].Metrics()
			})
		}
		vsched.Calm(false)
		g.Wait()
		vsched.Calm(true)
		got := read(c.Nodes[0])
		fg = got.forwardGet // a miss asks the next owner
		if got.sets != sets || got.gets != gets || got.removes != removes || got.forwardSet != fs || got.forwardRemove != fr || got.attempts != int64(sets) || fg > int64(2*gets) {
			vsched.Fail("[count] %d sets, %d gets, %d removals: %+v", sets, gets, removes, got)
		}
		vsched.Outcome("%d %d %d", sets, gets, removes)
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 1 << 30, Horizon: 100 * time.Hour}
	d := func(n int) vsched.Opts { return vsched.Opts{Preempt: n, Delays: true} }
	kit.Main(
		kit.Scenario{Name: "operations", Body: operations(2), Quick: det, Weight: 2},
		kit.Scenario{Name: "operations-3", Body: operations(3), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "latency", Body: latency, Quick: det, Deep: det},
		kit.Scenario{Name: "probes", Body: probes(4), Quick: det},
		kit.Scenario{Name: "probes-6", Body: probes(6), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "conflicts", Body: conflicts, Quick: det, Deep: det},
		kit.Scenario{Name: "together", Body: together(2), Quick: d(1), Deep: d(2), Race: true},
		kit.Scenario{Name: "together-3", Body: together(3), Deep: d(1), DeepOnly: true},
		kit.Scenario{Name: "chaos", Body: chaos(2), Quick: det, Weight: 4},
		kit.Scenario{Name: "chaos-3", Body: chaos(3), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "chaos-together", Body: chaosTogether, Quick: d(1), Deep: d(2), Race: true},
		kit.Scenario{Name: "instruments", Body: instruments(2, true), Quick: det},
		kit.Scenario{Name: "instruments-3", Body: instruments(3, false), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "broken", Body: broken, Quick: det, Deep: det},
		kit.Scenario{Name: "stopping", Body: stopping, Quick: d(2), Deep: d(3), Race: true},
	)
}
