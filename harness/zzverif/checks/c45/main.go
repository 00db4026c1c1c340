// C45: whoever follows the topology events of a node ends up with its current
// membership.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var bg = context.Background()

const ms = time.Millisecond

type wireMember struct {
	ID, Address, State string
	Incarnation        uint64
}

// view is what the payload of a members event says, on the wire.
type view struct {
	Replication  int          `json:"replication"`
	VirtualNodes int          `json:"virtualNodes"`
	Members      []wireMember `json:"members"`
}

func (v view) String() string {
	var out []string
	for _, m := range v.Members {
		out = append(out, fmt.Sprintf("%s(%s) %s %d", m.ID, m.Address, m.State, m.Incarnation))
	}
	sort.Strings(out)
	return fmt.Sprintf("R=%d V=%d %s", v.Replication, v.VirtualNodes, strings.Join(out, ", "))
}

func read(payload any) string {
	b, err := json.Marshal(payload)
	if err != nil {
		vsched.Fail("[payload] %v", err)
	}
	var v view
	if err := json.Unmarshal(b, &v); err != nil {
		vsched.Fail("[payload] %s: %v", b, err)
	}
	return v.String()
}

// current is the membership of a node as its membership and ring say.
func current(m *cluster.Membership) string {
	v := view{Replication: m.Ring().Replication(), VirtualNodes: m.Ring().VirtualNodesPerNode()}
	for _, n := range m.List() {
		v.Members = append(v.Members, wireMember{string(n.ID), n.Address, n.State.String(), n.Incarnation})
	}
	return v.String()
}

type metrics struct{ HeartbeatSuccess, HeartbeatFailure, NodesRemoved, ReadPrimaryPromote int64 }

func counters(dm *backend.DistMemory) metrics {
	m := dm.Metrics()
	return metrics{m.HeartbeatSuccess, m.HeartbeatFailure, m.NodesRemoved, m.ReadPrimaryPromote}
}

func readMetrics(payload any) (out metrics) {
	b, err := json.Marshal(payload)
	if err == nil {
		err = json.Unmarshal(b, &out)
	}
	if err != nil || strings.Count(string(b), ":") != 4 {
		vsched.Fail("[payload] %s: %v", b, err)
	}
	return
}

// follower follows the events of a node.
type follower struct {
	who  string
	ch   <-chan eventbus.Event
	end  func()
	last string // membership
	got  int    // members events
	beat []metrics
	ver  uint64
	seen []eventbus.Event
	said []string // what they said when they came
}

func follow(who string, b *eventbus.Bus, m *cluster.Membership) *follower {
	f := &follower{who: who}
	f.ch, f.end = b.Subscribe(bg)
	f.last = current(m)
	return f
}

// drain takes what has come. It must not be more than fits.
func (f *follower) drain() {
	for n := 0; ; n++ {
		select {
		case e, ok := <-f.ch:
			if !ok {
				return
			}
			if e.Version <= f.ver {
				vsched.Fail("[order] %s: version %d after %d", f.who, e.Version, f.ver)
			}
			f.ver = e.Version
			switch e.Type {
			case "members":
				f.got++
				f.last = read(e.Payload)
				f.seen, f.said = append(f.seen, e), append(f.said, f.last)
			case "heartbeat":
				f.beat = append(f.beat, readMetrics(e.Payload))
			default:
				vsched.Fail("[type] %s: event %q", f.who, e.Type)
			}
		default:
			return
		}
	}
}

// unchanged checks that what was delivered still says what it said.
func (f *follower) unchanged(hist func() string) {
	for i, e := range f.seen {
		if s := read(e.Payload); s != f.said[i] {
			vsched.Fail("[rewritten] %s: the event said %q, and says %q after %s", f.who, f.said[i], s, hist())
		}
	}
}

// op is a change of the membership.
type op struct {
	name string
	do   func(m *cluster.Membership)
}

func node(i int, s cluster.NodeState, inc uint64) *cluster.Node {
	n := cluster.NewNode(dc.ID(i), dc.ID(i)+":1")
	n.State, n.Incarnation = s, inc
	return n
}

func upsert(i int, s cluster.NodeState, inc uint64) op {
	return op{fmt.Sprintf("upsert n%d %v %d", i, s, inc), func(m *cluster.Membership) { m.Upsert(node(i, s, inc)) }}
}

func mark(i int, s cluster.NodeState) op {
	return op{fmt.Sprintf("mark n%d %v", i, s), func(m *cluster.Membership) { m.Mark(cluster.NodeID(dc.ID(i)), s) }}
}

func remove(i int) op {
	return op{fmt.Sprintf("remove n%d", i), func(m *cluster.Membership) { m.Remove(cluster.NodeID(dc.ID(i))) }}
}

func refute(i int) op {
	return op{fmt.Sprintf("refute n%d", i), func(m *cluster.Membership) { m.Refute(cluster.NodeID(dc.ID(i))) }}
}

const (
	alive   = cluster.NodeAlive
	suspect = cluster.NodeSuspect
	dead    = cluster.NodeDead
)

var ops = []op{
	upsert(1, alive, 3), upsert(2, alive, 1), upsert(2, dead, 2), mark(1, alive), mark(1, suspect), mark(1, dead),
	mark(2, suspect), remove(1), remove(2), refute(0), refute(1),
}

// front builds a cache over a distributed backend which knows n1.
func front(ctx context.Context, r int) (*hypercache.HyperCache[backend.DistMemory], *dc.Cluster) {
	var h *hypercache.HyperCache[backend.DistMemory]
	c := dc.New(dc.Cfg{N: 2, R: r, VNodes: 2, Make: func(i int, o []dc.Opt) error {
		if i == 1 {
			_, err := backend.NewDistMemory(ctx, o...)
			return err
		}
		conf, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			return err
		}
		conf.DistMemoryOptions = o
		conf.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{
			hypercache.WithEvictionInterval[backend.DistMemory](time.Hour),
			hypercache.WithExpirationInterval[backend.DistMemory](time.Hour),
		}
		h, err = hypercache.New(ctx, hypercache.NewBackendManager(), conf)
		return err
	}})
	return h, c
}

// histories runs every history of changes, with followers from each moment.
func histories(r, depth int) func() {
	return func() {
		vsched.Calm(true)
		h, c := front(bg, r)
		m := c.Mem[0]
		var fs []*follower
		var hist []string
		what := func() string { return strings.Join(hist, "; ") }
		if h.EventBus() == nil || h.EventBus() != c.Nodes[0].EventBus() {
			vsched.Fail("[bus] the cache has not the bus of its backend")
			return
		}
		changes := make([]int, 0, depth)
		for range depth {
			fs = append(fs, follow(fmt.Sprintf("follower from %d", len(hist)), h.EventBus(), m))
			changes = append(changes, 0)
			o := ops[vsched.Choose(len(ops))]
			ver := m.Version()
			o.do(m)
			hist = append(hist, o.name)
			cur := current(m)
			mem, repl, vn := h.DistMembershipSnapshot()
			if s := read(map[string]any{"replication": repl, "virtualNodes": vn, "members": mem}); s != cur {
				vsched.Fail("[snapshot] after %s the cache says %s, the membership is %s", what(), s, cur)
			}
			for i, f := range fs {
				changes[i] += int(m.Version() - ver)
				f.drain()
				if f.last != cur || f.got != changes[i] {
					vsched.Fail("[behind] %s, after %s: %d events, the last says %s; there were %d changes, the membership is %s", f.who, what(), f.got, f.last, changes[i], cur)
				}
			}
		}
		for _, f := range fs {
			f.unchanged(what)
			f.end()
		}
		if n := h.EventBus().SubscriberCount(); n != 0 {
			vsched.Fail("[left] %d subscribers are left", n)
		}
		vsched.Outcome("%s", current(m))
		if err := h.Stop(bg); err != nil {
			vsched.Fail("[stop] %v", err)
		}
		c.Stop()
	}
}

// many members, and many changes.
func many(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		h, c := front(bg, 2)
		m := c.Mem[0]
		f := follow("follower", h.EventBus(), m)
		hist := func() string { return fmt.Sprintf("%d members joining and changing", n) }
		want := 0
		step := func(do func()) {
			ver := m.Version()
			do()
			want += int(m.Version() - ver)
			f.drain()
			if cur := current(m); f.last != cur || f.got != want {
				vsched.Fail("[behind] %s: %d events of %d changes; the last says %d bytes, the membership %d", hist(), f.got, want, len(f.last), len(cur))
			}
		}
		id := func(i int) cluster.NodeID { return cluster.NodeID(fmt.Sprint("member-", i)) }
		for i := range n {
			step(func() { m.Upsert(cluster.NewNode(string(id(i)), fmt.Sprint("10.0.0.1:", i))) })
		}
		mem, repl, vn := h.DistMembershipSnapshot()
		if s := read(map[string]any{"replication": repl, "virtualNodes": vn, "members": mem}); s != current(m) {
			vsched.Fail("[snapshot] %s: the cache says %d bytes, the membership %d", hist(), len(s), len(current(m)))
		}
		for i := 0; i < n; i += 1 + n/20 {
			step(func() { m.Mark(id(i), suspect) })
			step(func() { m.Remove(id(n - 1 - i)) })
		}
		if len(f.seen) > 40 {
			f.seen, f.said = f.seen[:40], f.said[:40]
		}
		f.unchanged(hist)
		f.end()
		vsched.Outcome("%d", n)
		if err := h.Stop(bg); err != nil {
			vsched.Fail("[stop] %v", err)
		}
		c.Stop()
	}
}

// race runs changes at once; a follower from before, and one which comes
// meanwhile.
func race(late bool, threads ...[]op) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 1, R: 2, VNodes: 1})
		m, b := c.Mem[0], c.Nodes[0].EventBus()
		m.Upsert(node(1, alive, 1))
		fs := []*follower{follow("the first", b, m)}
		ver := m.Version()
		var g vsched.Group
		vsched.Calm(false)
		for _, t := range threads {
			g.Go(func() {
				for _, o := range t {
					o.do(m)
				}
			})
		}
		if late {
			g.Go(func() { fs = append(fs, follow("the late one", b, m)) })
		}
		g.Wait()
		vsched.Calm(true)
		cur := current(m)
		for i, f := range fs {
			f.drain()
			if f.last != cur {
				vsched.Fail("[stale] %s of the followers has heard %q, and that is the end of it: the membership is %s", f.who, f.said, cur)
			}
			if i == 0 && f.got != int(m.Version()-ver) {
				vsched.Fail("[count] %d events of %d changes: %q", f.got, m.Version()-ver, f.said)
			}
			vsched.Outcome("%q", f.said)
			f.unchanged(func() string { return "the race" })
			f.end()
		}
		vsched.Outcome("%s", cur)
		c.Stop()
	}
}

// beats follows the heartbeat events: one a second, with the counters of then.
func beats(secs int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 2, R: 2, VNodes: 1, Each: func(i int) []dc.Opt {
			if i == 0 {
				return []dc.Opt{backend.WithDistHeartbeat(300*ms, time.Hour, time.Hour)}
			}
			return nil
		}})
		dm := c.Nodes[0]
		f := follow("the follower", dm.EventBus(), c.Mem[0])
		vsched.Sleep(50 * ms)
		var want []metrics
		var hist string
		for range secs {
			c.SetDown(1, vsched.Choose(2) == 1)
			x := vsched.Choose(3)
			if x == 1 {
				c.Mem[0].Upsert(node(2, alive, 1))
			} else if x == 2 {
				c.Mem[0].Remove("n2")
			}
			hist += fmt.Sprintf(" %v/%d", c.Down(1), x)
			vsched.Sleep(949 * ms) // to just before the second
			want = append(want, counters(dm))
			if f.drain(); len(f.beat) != len(want)-1 {
				vsched.Fail("[early]%s: %d heartbeat events before second %d", hist, len(f.beat), len(want))
			}
			vsched.Sleep(51 * ms)
			f.drain()
			if cur := current(c.Mem[0]); f.last != cur {
				vsched.Fail("[behind]%s: the last event says %s, the membership is %s", hist, f.last, cur)
			}
			if len(f.beat) != len(want) || f.beat[len(want)-1] != want[len(want)-1] {
				vsched.Fail("[beat]%s: the heartbeat events say %v, want %v", hist, f.beat, want)
				return
			}
		}
		if dm.EventBus().Dropped() != 0 {
			vsched.Fail("[dropped]%s: %d events were dropped", hist, dm.EventBus().Dropped())
		}
		vsched.Outcome("%v", f.beat)
		c.Stop()
		vsched.Sleep(5 * time.Second)
		if f.drain(); len(f.beat) != len(want) {
			vsched.Fail("[stopped]%s: %d more events after Stop", hist, len(f.beat)-len(want))
		}
		f.end()
	}
}

// clustered follows each node of a cluster which runs its failure detection
// and gossip, while nodes go and come.
func clustered(n, rounds int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: n, R: 2, VNodes: 1, Opts: []dc.Opt{
			backend.WithDistHeartbeat(10*ms, 20*ms, 60*ms), backend.WithDistGossipInterval(50 * ms)}})
		fs := make([]*follower, n)
		for i := range n {
			fs[i] = follow(dc.ID(i)+"'s follower", c.Nodes[i].EventBus(), c.Mem[i])
		}
		var hist []string
		total := 0
		for range rounds {
			x := vsched.Choose(n + 1)
			for i := range n {
				c.SetDown(i, i == x)
			}
			wait := []time.Duration{21 * ms, 62 * ms}[vsched.Choose(2)]
			hist = append(hist, fmt.Sprintf("n%d is down for %v", x, wait))
			for range 5 {
				vsched.Sleep(wait / 5)
				for i, f := range fs {
					f.drain()
					if cur := current(c.Mem[i]); f.last != cur {
						vsched.Fail("[behind] %s, after %v: heard %s last, the membership is %s", f.who, hist, f.last, cur)
					}
				}
			}
		}
		for i, f := range fs {
			total += f.got
			if d := c.Nodes[i].EventBus().Dropped(); d != 0 {
				vsched.Fail("[dropped] %s, after %v: %d events", f.who, hist, d)
			}
			f.unchanged(func() string { return strings.Join(hist, "; ") })
			f.end()
		}
		vsched.Outcome("%d", total)
		c.Stop()
	}
}

// stopping stops the node while it changes, and a follower comes and goes.
func stopping() {
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 1, R: 2, VNodes: 1})
	m, b := c.Mem[0], c.Nodes[0].EventBus()
	m.Upsert(node(1, alive, 1))
	f := follow("the follower", b, m)
	var g vsched.Group
	vsched.Calm(false)
	g.Go(func() { mark(1, suspect).do(m) })
	g.Go(func() {
		if err := c.Nodes[0].Stop(bg); err != nil {
			vsched.Fail("[stop] %v", err)
		}
	})
	g.Go(func() { f.end(); f.end() })
	g.Wait()
	vsched.Calm(true)
	f.drain()
	vsched.Outcome("%d", f.got)
	if n := b.SubscriberCount(); n != 0 {
		vsched.Fail("[left] %d subscribers are left", n)
	}
}

func main() {
	q := func(n int) vsched.Opts { return vsched.Opts{Preempt: n, MaxSteps: 200000} }
	seq := vsched.Opts{MaxSteps: 1 << 20}
	kit.Main(
		kit.Scenario{Name: "histories of changes", Body: histories(2, 3), Quick: seq, Deep: seq},
		kit.Scenario{Name: "histories of changes, one copy", Body: histories(1, 2), Quick: seq, Deep: seq},
		kit.Scenario{Name: "many members", Body: many(130), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "more members", Body: many(520), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "longer histories", Body: histories(2, 4), Quick: seq, Deep: seq, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "suspicion races a join", Body: race(false, []op{mark(1, suspect)}, []op{upsert(2, alive, 1)}), Quick: q(2), Race: true},
		kit.Scenario{Name: "suspicion races a removal", Body: race(false, []op{mark(1, suspect)}, []op{remove(1)}), Quick: q(2)},
		kit.Scenario{Name: "three changes race", Body: race(false, []op{mark(1, suspect)}, []op{upsert(2, alive, 1)}, []op{refute(0)}), Quick: q(1)},
		kit.Scenario{Name: "histories race", Body: race(false, []op{mark(1, suspect), mark(1, alive)}, []op{upsert(2, alive, 1), remove(2)}), Quick: q(1)},
		kit.Scenario{Name: "a follower comes", Body: race(true, []op{mark(1, suspect)}, []op{upsert(2, alive, 1)}), Quick: q(1)},
		kit.Scenario{Name: "a follower comes during a history", Body: race(true, []op{mark(1, suspect), remove(1), upsert(1, alive, 9)}), Quick: q(1)},
		kit.Scenario{Name: "heartbeats", Body: beats(3), Quick: seq, Deep: seq},
		kit.Scenario{Name: "more heartbeats", Body: beats(4), Quick: seq, Deep: seq, DeepOnly: true},
		kit.Scenario{Name: "a cluster", Body: clustered(3, 2), Quick: seq, Deep: seq},
		kit.Scenario{Name: "a cluster for longer", Body: clustered(3, 4), Quick: seq, Deep: seq, DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "stopping", Body: stopping, Quick: q(1), Deep: q(2), Race: true},
	)
}
