// C33: a draining node takes no writes and serves reads; a stopped node, or
// one whose context ended, does nothing on its own any more.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vctx"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const (
	ms    = time.Millisecond
	every = 10 * ms
)

func item(k string, v int) *cache.Item { return &cache.Item{Key: k, Value: v} }

// draining: all sequences of operations on two nodes, either of which drains.
func draining(repl, depth int, level backend.ConsistencyLevel) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: repl, Opts: []dc.Opt{backend.WithDistReadConsistency(level), backend.WithDistWriteConsistency(level)}})
		c.Rec = true
		vsched.Sleep(ms)
		var (
			keys  = []string{c.Pref(0, 1), c.Pref(1, 0)}
			want  = map[string]int{}
			drain [2]bool
			stop  [2]bool
			hist  string
		)
		for n := range 1 + vsched.Choose(depth) {
			op, node := vsched.Choose(6), vsched.Choose(2)
			k := ""
			if op == 0 || op == 1 || op == 3 {
				k = keys[vsched.Choose(2)]
			}
			before := len(c.Calls())
			dump := c.Show(keys[0]) + c.Show(keys[1])
			m := c.Nodes[node].Metrics()
			var err error
			switch op {
			case 0:
				hist += fmt.Sprintf(" n%d.Set(%s)", node, k)
				it := item(k, n+1)
				err = c.Nodes[node].Set(bg, it)
				if drain[node] && (it.Version != 0 || it.Origin != "") {
					vsched.Fail("[touch]%s: the refused item was changed: %v", hist, it)
				}
				if err == nil {
					want[k] = n + 1
				}
			case 1:
				hist += fmt.Sprintf(" n%d.Remove(%s)", node, k)
				err = c.Nodes[node].Remove(bg, k)
				if err == nil {
					delete(want, k)
				}
			case 2:
				hist += fmt.Sprintf(" n%d.Remove(%s, %s)", node, keys[0], keys[1])
				err = c.Nodes[node].Remove(bg, keys...)
				if err == nil {
					clear(want)
				}
			case 3:
				hist += fmt.Sprintf(" n%d.Get(%s)", node, k)
				it, ok := c.Nodes[node].Get(bg, k)
				v, has := want[k]
				if ok != has || ok && it.Value != v {
					vsched.Fail("[get]%s: got %v, want %v %v", hist, it, v, has)
				}
				continue
			case 4:
				hist += fmt.Sprintf(" n%d.Drain", node)
				if e := c.Nodes[node].Drain(bg); e != nil {
					vsched.Fail("[drain]%s: %v", hist, e)
				}
				drain[node] = true
			case 5:
				hist += fmt.Sprintf(" n%d.Stop", node)
				if e := c.Nodes[node].Stop(bg); e != nil {
					vsched.Fail("[stop]%s: %v", hist, e)
				}
				stop[node] = true
			}
			if op < 3 && (err != nil) != drain[node] || drain[node] && op < 3 && !errors.Is(err, sentinel.ErrDraining) {
				vsched.Fail("[refuse]%s: draining %v, answer %v", hist, drain[node], err)
			}
			if op >= 4 || drain[node] {
				if len(c.Calls()) != before || c.Show(keys[0])+c.Show(keys[1]) != dump {
					vsched.Fail("[effect]%s: had an effect: calls %v, %s -> %s", hist, c.Calls()[before:], dump, c.Show(keys[0])+c.Show(keys[1]))
				}
				after := c.Nodes[node].Metrics()
				if after.WriteAttempts != m.WriteAttempts || after.WriteQuorumFailures != m.WriteQuorumFailures {
					vsched.Fail("[count]%s: a refused write is counted as attempted", hist)
				}
			}
			for i := range 2 {
				got := c.Nodes[i].Metrics().Drains
				if c.Nodes[i].IsDraining() != drain[i] || got != map[bool]int64{true: 1}[drain[i]] {
					vsched.Fail("[state]%s: n%d draining %v, %d drains; want %v", hist, i, c.Nodes[i].IsDraining(), got, drain[i])
				}
			}
		}
		for k, v := range want {
			for i := range 2 {
				if it, ok := c.Nodes[i].Get(bg, k); !ok || it.Value != v {
					vsched.Fail("[lost]%s: n%d gives %v for %s, want %d", hist, i, it, k, v)
				}
			}
		}
		vsched.Outcome("%v %v %v", drain, stop, len(want))
		c.Stop()
	}
}

// racing: writes and drains at the same time.
func racing(remove bool) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyAll)}})
		k := c.Pref(0, 1)
		if remove {
			c.Nodes[0].Set(bg, item(k, 7))
		}
		vsched.Sleep(ms)
		vsched.Calm(false)
		g := vsched.Group{}
		var res, late error
		g.Go(func() {
			if remove {
				res = c.Nodes[0].Remove(bg, k)
			} else {
				res = c.Nodes[0].Set(bg, item(k, 1))
			}
		})
		g.Go(func() {
			c.Nodes[0].Drain(bg)
			if !c.Nodes[0].IsDraining() {
				vsched.Fail("[state] Drain returned, IsDraining is false")
			}
			if remove {
				late = c.Nodes[0].Remove(bg, k)
			} else {
				late = c.Nodes[0].Set(bg, item(k, 2))
			}
		})
		g.Go(func() { c.Nodes[0].Drain(bg) })
		g.Wait()
		vsched.Calm(true)
		if !errors.Is(late, sentinel.ErrDraining) || res != nil && !errors.Is(res, sentinel.ErrDraining) {
			vsched.Fail("[refuse] a write after Drain: %v, one at the same time: %v", late, res)
		}
		if d := c.Nodes[0].Metrics().Drains; d != 1 {
			vsched.Fail("[count] %d drains", d)
		}
		for i := range 2 {
			it, ok := c.Local(i, k)
			if ok != (remove == (res != nil)) || ok && !remove && it.Value != 1 {
				vsched.Fail("[effect] the write answered %v, n%d has %v %v", res, i, it.Value, ok)
			}
		}
		vsched.Outcome("%v", res)
		c.Stop()
	}
}

const (
	heartbeat = 1 << iota
	gossip
	hints
	rebalance
	merkle
	tombs
	repair
	all = 1<<iota - 1
)

func loops(mask int) []dc.Opt {
	o := []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyOne), backend.WithDistReadConsistency(backend.ConsistencyQuorum)}
	if mask&heartbeat != 0 {
		o = append(o, backend.WithDistHeartbeat(every, 3*every, 1000*every), backend.WithDistIndirectProbes(1, 2*ms))
	}
	if mask&gossip != 0 {
		o = append(o, backend.WithDistGossipInterval(every))
	}
	if mask&hints != 0 {
		o = append(o, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(every))
	}
	if mask&rebalance != 0 {
		o = append(o, backend.WithDistRebalanceInterval(every))
	}
	if mask&merkle != 0 {
		o = append(o, backend.WithDistMerkleAutoSync(every))
	}
	if mask&tombs != 0 {
		o = append(o, backend.WithDistTombstoneTTL(time.Hour), backend.WithDistTombstoneSweep(every))
	}
	if mask&repair != 0 {
		o = append(o, backend.WithDistReadRepairBatch(every, 100))
	}
	return o
}

func show(ms *cluster.Membership) string {
	var b strings.Builder
	for _, n := range ms.List() {
		fmt.Fprintf(&b, "%s %v %d;", n.ID, n.State, n.Incarnation)
	}
	return b.String()
}

// ending: after Stop, or after the end of the context, whenever it comes,
// nothing of the node is left.
func ending(mask int, cancel bool, slow time.Duration) func() {
	return func() {
		vsched.Calm(true)
		ctx, end := vctx.WithCancel(bg)
		c := dc.New(dc.Cfg{N: 3, R: 2, Ctx: ctx, Each: func(i int) []dc.Opt {
			if mask == all && i > 0 {
				return loops(0)
			}
			return loops(mask)
		}})
		c.Rec = true
		for i := range 4 {
			c.Nodes[i%3].Set(bg, item(fmt.Sprintf("k%d", i), i))
		}
		who := vsched.Choose(4) - 1 // unreachable
		if who >= 0 {
			c.SetDown(who, true)
			c.Nodes[(who+1)%3].Set(bg, item("k0", 9))
			c.Nodes[(who+1)%3].Set(bg, item("k1", 9))
			c.Nodes[(who+1)%3].Remove(bg, "k2")
		}
		c.Slow = slow
		at := time.Duration(vsched.Choose(9)) * every / 4
		vsched.Sleep(at)
		vsched.Calm(false)
		if cancel {
			end()
		} else {
			vsched.Calm(true)
			for i := 2; i >= 0; i-- {
				if i == 0 {
					vsched.Quiesce()
					vsched.Calm(false)
				}
				if err := c.Nodes[i].Stop(bg); err != nil {
					vsched.Fail("[stop] %v", err)
				}
			}
		}
		members := [3]string{show(c.Mem[0]), show(c.Mem[1]), show(c.Mem[2])}
		vsched.Quiesce()
		vsched.Calm(true)
		if slow > 0 { // a call that was under way ends
			vsched.Sleep(10 * slow)
		}
		if n := vsched.Live(); n != 1 {
			vsched.Fail("[leak] at %v, n%d unreachable, cancelled %v: %d goroutines are left", at, who, cancel, n-1)
		}
		for i := range 3 {
			if now := show(c.Mem[i]); now != members[i] {
				vsched.Fail("[verdict] at %v, n%d unreachable, cancelled %v: the ended node n%d changed its mind from %s to %s", at, who, cancel, i, members[i], now)
			}
		}
		// the node still answers
		calls := len(c.Calls())
		for i := range 3 {
			c.Nodes[i].Metrics()
			c.Nodes[i].Get(bg, "k3")
			if err := c.Nodes[i].Stop(bg); err != nil {
				vsched.Fail("[again] %v", err)
			}
		}
		vsched.Outcome("%d", calls)
		end()
		c.Stop()
	}
}

// busy: Stop concurrent with everything else.
func busy(mask, with int) func() {
	return func() {
		vsched.Calm(true)
		ctx, end := vctx.WithCancel(bg)
		c := dc.New(dc.Cfg{N: 2, R: 2, Ctx: ctx, Opts: loops(mask)})
		k := c.Pref(0, 1)
		c.Nodes[0].Set(bg, item(k, 1))
		vsched.Sleep(every - ms)
		n := c.Nodes[0]
		vsched.Calm(false)
		g := vsched.Group{}
		g.Go(func() {
			vsched.Sleep(ms) // with the tick of every loop
			n.Stop(bg)
		})
		g.Go(func() {
			vsched.Sleep(ms)
			switch with {
			case 0:
				n.Stop(bg)
			case 1:
				if it, ok := n.Get(bg, k); !ok || it.Value != 1 {
					vsched.Fail("[get] %v", it)
				}
			case 2:
				if err := n.Set(bg, item(k, 1)); err != nil {
					vsched.Fail("[set] %v", err)
				}
			case 3:
				if err := n.Remove(bg, k); err != nil {
					vsched.Fail("[remove] %v", err)
				}
			case 4:
				n.Drain(bg)
			case 5:
				end()
			case 6:
				n.Metrics()
				n.DistMembershipSnapshot()
			}
		})
		g.Wait()
		vsched.Quiesce()
		vsched.Calm(true)
		c.Nodes[1].Stop(bg)
		vsched.Quiesce()
		if n := vsched.Live(); n != 1 {
			vsched.Fail("[leak] %d goroutines are left", n-1)
		}
		vsched.Outcome("ended")
		end()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 1 << 30}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 1 << 30} }
	d := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 1 << 30} }
	sc := []kit.Scenario{
		{Name: "draining", Body: draining(2, 3, backend.ConsistencyAll), Quick: det},
		{Name: "draining-one", Body: draining(1, 3, backend.ConsistencyOne), Quick: det},
		{Name: "draining-deep", Body: draining(2, 4, backend.ConsistencyAll), Deep: det, DeepOnly: true, Weight: 3},
		{Name: "racing-set", Body: racing(false), Quick: s(2), Deep: s(3), Race: true},
		{Name: "racing-remove", Body: racing(true), Quick: s(2), Deep: s(3), Race: true},
	}
	names := []string{"heartbeat", "gossip", "hints", "rebalance", "merkle", "tombstones", "repair"}
	for i, n := range names {
		sc = append(sc,
			kit.Scenario{Name: "stop-" + n, Body: ending(1<<i, false, 0), Quick: d(1), Deep: d(2)},
			kit.Scenario{Name: "cancel-" + n, Body: ending(1<<i, true, 0), Quick: d(1), Deep: d(2)},
			kit.Scenario{Name: "slow-" + n, Body: ending(1<<i, false, 3*ms), Quick: d(1), Deep: d(2)},
			kit.Scenario{Name: "slow-cancel-" + n, Body: ending(1<<i, true, 3*ms), Quick: d(1), Deep: d(2)},
		)
	}
	sc = append(sc,
		kit.Scenario{Name: "stop-all", Body: ending(all, false, 0), Quick: d(0), Deep: d(1)},
		kit.Scenario{Name: "cancel-all", Body: ending(all, true, 0), Quick: d(0), Deep: d(1)},
	)
	for i, n := range []string{"stop", "get", "set", "remove", "drain", "cancel", "look"} {
		sc = append(sc,
			kit.Scenario{Name: "busy-" + n, Body: busy(repair|gossip, i), Quick: d(1), Deep: d(2), Race: true},
			kit.Scenario{Name: "busy-all-" + n, Body: busy(all, i), Deep: d(2), DeepOnly: true, Race: true},
		)
	}
	kit.Main(sc...)
}
