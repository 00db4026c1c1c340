// C03: the membership table behaves as a versioned state machine.
package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsync"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
)

type rec struct {
	state cluster.NodeState
	inc   uint64
	addr  string
	seen  int64
}

// model is the reference: a map, a version and the events it must announce.
type model struct {
	nodes  map[string]rec
	ver    uint64
	events []string
}

func newModel() *model { return &model{nodes: map[string]rec{}} }

func (m *model) clone() *model {
	c := newModel()
	for k, v := range m.nodes {
		c.nodes[k] = v
	}
	c.ver = m.ver
	c.events = slices.Clone(m.events)
	return c
}

func (m *model) event(id string, st cluster.NodeState) {
	m.ver++
	m.events = append(m.events, fmt.Sprintf("%s=%s@%d", id, st, m.ver))
}

const (
	opUpsert = iota
	opRemove
	opMark
	opRefute
	opMerge
)

type op struct {
	kind  int
	id    string
	state cluster.NodeState
	inc   uint64
	addr  string
}

func (o op) String() string {
	switch o.kind {
	case opUpsert:
		return fmt.Sprintf("Upsert(%s,%s,inc=%d,%s)", o.id, o.state, o.inc, o.addr)
	case opRemove:
		return "Remove(" + o.id + ")"
	case opMark:
		return fmt.Sprintf("Mark(%s,%s)", o.id, o.state)
	case opMerge:
		return fmt.Sprintf("Merge(%s,%s,inc=%d,%s)", o.id, o.state, o.inc, o.addr)
	}
	return "Refute(" + o.id + ")"
}

func (o op) model(m *model, now int64) bool {
	n, ok := m.nodes[o.id]
	switch o.kind {
	case opUpsert:
		m.nodes[o.id] = rec{o.state, o.inc, o.addr, now}
		m.event(o.id, o.state)
		return true
	case opMerge:
		if ok && o.inc <= n.inc || !ok && o.state != cluster.NodeAlive {
			return false
		}
		m.nodes[o.id] = rec{o.state, o.inc, o.addr, now}
		m.event(o.id, o.state)
		return true
	case opRemove:
		if ok {
			delete(m.nodes, o.id)
			m.event(o.id, cluster.NodeDead)
		}
		return ok
	case opMark:
		if ok {
			n.seen = now
			if n.state != o.state {
				n.state = o.state
				n.inc++
				m.event(o.id, o.state)
			}
			m.nodes[o.id] = n
		}
		return ok
	default:
		if ok {
			n.seen, n.state = now, cluster.NodeAlive
			n.inc++
			m.nodes[o.id] = n
			m.event(o.id, cluster.NodeAlive)
		}
		return ok
	}
}

func (o op) real(m *cluster.Membership) bool {
	id := cluster.NodeID(o.id)
	switch o.kind {
	case opUpsert:
		m.Upsert(&cluster.Node{ID: id, Address: o.addr, State: o.state, Incarnation: o.inc})
		return true
	case opMerge:
		return m.Merge(&cluster.Node{ID: id, Address: o.addr, State: o.state, Incarnation: o.inc})
	case opRemove:
		return m.Remove(id)
	case opMark:
		return m.Mark(id, o.state)
	default:
		return m.Refute(id)
	}
}

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func renderReal(m *cluster.Membership, withSeen bool) string {
	var out []string
	for _, n := range m.List() {
		s := fmt.Sprintf("%s:%s:%d:%s", n.ID, n.State, n.Incarnation, n.Address)
		if withSeen {
			s += fmt.Sprintf(":%d", int64(n.LastSeen.Sub(epoch)))
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func renderModel(m *model, withSeen bool) string {
	var out []string
	for id, n := range m.nodes {
		s := fmt.Sprintf("%s:%s:%d:%s", id, n.state, n.inc, n.addr)
		if withSeen {
			s += fmt.Sprintf(":%d", n.seen)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func alphabet() []op {
	var out []op
	for _, id := range []string{"a", "b"} {
		out = append(out, op{opUpsert, id, cluster.NodeAlive, 1, "h:1"}, op{kind: opRemove, id: id},
			op{kind: opMark, id: id, state: cluster.NodeAlive}, op{kind: opMark, id: id, state: cluster.NodeSuspect},
			op{kind: opMark, id: id, state: cluster.NodeDead}, op{kind: opRefute, id: id})
	}
	out = append(out, op{opUpsert, "a", cluster.NodeSuspect, 7, "h:2"}, op{opUpsert, "a", cluster.NodeDead, 3, "h:1"},
		op{opMerge, "a", cluster.NodeAlive, 2, "h:3"}, op{opMerge, "a", cluster.NodeSuspect, 3, "h:1"})
	return out
}

// sequences: every operation sequence of the given depth, the whole visible
// state and both observers compared after every step.
func sequences(depth int, al []op) func() {
	return func() {
		m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1)))
		ref := newModel()
		var ev1, ev2 []string
		order := true
		m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
			ev1 = append(ev1, fmt.Sprintf("%s=%s@%d", id, st, v))
			if m.Version() != v {
				vsched.Fail("[observer] observer told version %d while the membership is at %d", v, m.Version())
			}
			// the change is already visible when it is announced
			found := false
			for _, n := range m.List() {
				if n.ID == id {
					found = true
					if n.State != st {
						vsched.Fail("[observer] observer told %s is %s, List says %s", id, st, n.State)
					}
				}
			}
			if !found && st != cluster.NodeDead {
				vsched.Fail("[observer] observer told %s is %s, List does not have it", id, st)
			}
		})
		m.OnStateChange(nil)
		m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
			ev2 = append(ev2, fmt.Sprintf("%s=%s@%d", id, st, v))
			order = order && len(ev1) == len(ev2)
		})
		trail := ""
		for range depth {
			vsched.Sleep(time.Second)
			o := al[vsched.Choose(len(al))]
			trail += o.String() + " "
			now := vsched.Now()
			want := o.model(ref, now)
			got := o.real(m)
			if got != want {
				vsched.Fail("[result] %s returned %v, want %v", trail, got, want)
			}
			if m.Version() != ref.ver {
				vsched.Fail("[version] after %s version %d, want %d", trail, m.Version(), ref.ver)
			}
			if g, w := renderReal(m, true), renderModel(ref, true); g != w {
				vsched.Fail("[state] after %s members are %q, want %q", trail, g, w)
			}
			// what List hands out belongs to the caller
			for _, n := range m.List() {
				n.State, n.Incarnation, n.Address, n.ID = cluster.NodeDead, 999, "scribble", "zz"
			}
			if g, w := renderReal(m, true), renderModel(ref, true); g != w {
				vsched.Fail("[list-alias] modifying the nodes List returned changed the membership: %q, want %q", g, w)
			}
			if !slices.Equal(ev1, ref.events) || !slices.Equal(ev2, ref.events) || !order {
				vsched.Fail("[events] after %s observers saw %q and %q, want %q in registration order", trail, ev1, ev2, ref.events)
			}
		}
		vsched.Outcome("%s", renderModel(ref, false))
	}
}

// linearizable: what concurrent operations returned, announced and left behind
// is what some order of them would have.
func linearizable(nt, per int, al []op) func() {
	return func() {
		m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1)))
		base := newModel()
		if vsched.Choose(2) == 1 {
			o := op{opUpsert, "a", cluster.NodeAlive, 1, "h:1"}
			o.model(base, 0)
			o.real(m)
		}
		base.events = nil
		var mu vsync.Mutex
		var events []string
		m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
			mu.Lock()
			events = append(events, fmt.Sprintf("%s=%s@%d", id, st, v))
			mu.Unlock()
		})
		pick := make([][]op, nt)
		res := make([][]bool, nt)
		last := 0
		names := ""
		for t := range pick {
			i := last + vsched.Choose(len(al)-last)
			last = i
			pick[t] = append(pick[t], al[i])
			for k := 1; k < per; k++ {
				pick[t] = append(pick[t], al[vsched.Choose(len(al))])
			}
			res[t] = make([]bool, per)
			names += fmt.Sprintf("T%d:%v ", t+1, pick[t])
		}
		var g vsched.Group
		for t := range pick {
			g.Go(func() {
				for k, o := range pick[t] {
					res[t][k] = o.real(m)
				}
			})
		}
		g.Wait()
		sort.Strings(events)
		got := fmt.Sprintf("%s | %v | %v | %d", renderReal(m, false), res, events, m.Version())
		vsched.Outcome("%s", got)
		pos := make([]int, nt)
		r := make([][]bool, nt)
		for t := range r {
			r[t] = make([]bool, per)
		}
		var rec func(s *model) bool
		rec = func(s *model) bool {
			done := true
			for t := range pick {
				if pos[t] == per {
					continue
				}
				done = false
				c := s.clone()
				r[t][pos[t]] = pick[t][pos[t]].model(c, 0)
				pos[t]++
				if rec(c) {
					return true
				}
				pos[t]--
			}
			if done {
				ev := slices.Clone(s.events)
				sort.Strings(ev)
				return fmt.Sprintf("%s | %v | %v | %d", renderModel(s, false), r, append([]string{}, ev...), s.ver) == got
			}
			return false
		}
		if !rec(base) {
			vsched.Fail("[linearizable] %s ended as %s, which no order of the operations gives", names, got)
		}
	}
}

// unlocked: an observer that waits for another mutation does not block it.
func unlocked() {
	m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1)))
	m.Upsert(cluster.NewNode("a", "h:1"))
	m.Upsert(cluster.NewNode("b", "h:2"))
	which := vsched.Choose(4)
	first := true
	var wake vsync.WaitGroup
	wake.Add(1)
	m.OnStateChange(func(cluster.NodeID, cluster.NodeState, uint64) {
		if first {
			first = false
			wake.Wait()
		}
	})
	var g vsched.Group
	g.Go(func() {
		switch which {
		case 0:
			m.Upsert(cluster.NewNode("c", "h:3"))
		case 1:
			m.Mark("a", cluster.NodeSuspect)
		case 2:
			m.Refute("a")
		case 3:
			m.Remove("a")
		}
	})
	vsched.Quiesce()
	vsched.Outcome("%d", len(m.List()))
	_ = m.Version()
	m.Mark("b", cluster.NodeSuspect)
	wake.Done()
	g.Wait()
}

// observers: those who register at once, and beside a mutation, all hear of
// what follows.
func observers() {
	m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1)))
	m.Upsert(cluster.NewNode("a", "h:1"))
	mutate := []func(){func() {}, func() { m.Upsert(cluster.NewNode("b", "h:2")) }, func() { m.Mark("a", cluster.NodeSuspect) }, func() { m.Remove("a") }, func() { m.Refute("a") }}[vsched.Choose(5)]
	var mu vsync.Mutex
	heard := map[int]string{}
	var g vsched.Group
	for i := range 2 {
		g.Go(func() {
			m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
				mu.Lock()
				heard[i] += fmt.Sprintf(" %s=%s@%d", id, st, v)
				mu.Unlock()
			})
		})
	}
	g.Go(mutate)
	g.Wait()
	vsched.Outcome("%v", heard)
	m.Upsert(cluster.NewNode("z", "h:9"))
	last := fmt.Sprintf(" z=alive@%d", m.Version())
	for i := range 2 {
		if !strings.HasSuffix(heard[i], last) {
			vsched.Fail("[observer-lost] observer %d heard %q, which does not end with %q", i, heard[i], last)
		}
	}
}

// identity: node construction and validation.
func identity(p *kit.P) {
	addrs := []string{"127.0.0.1:1", "127.0.0.1:2", "h:1", "h:11", "[::1]:80", "a:b", "x", "", "h", "h:1:2", ":9", "::1"}
	valid := map[string]bool{"127.0.0.1:1": true, "127.0.0.1:2": true, "h:1": true, "h:11": true, "[::1]:80": true, "a:b": true, ":9": true}
	seen := map[cluster.NodeID]string{}
	for i, a := range addrs {
		id := fmt.Sprintf("addr=%d", i)
		n := cluster.NewNode("", a)
		prev, dup := seen[n.ID]
		seen[n.ID] = a
		if !p.Begin("%s", id) {
			continue
		}
		if dup {
			p.Fail(id, "derived-id", "addresses %q and %q get the same id %s", prev, a, n.ID)
		}
		if n.ID == "" || cluster.NewNode("", a).ID != n.ID {
			p.Fail(id, "derived-id", "address %q: derived id %q is empty or not stable", a, n.ID)
		}
		if n.State != cluster.NodeAlive || n.Incarnation != 1 || n.Address != a || n.LastSeen.IsZero() {
			p.Fail(id, "new-node", "NewNode gave %+v", *n)
		}
		if e := cluster.NewNode("me", a); e.ID != "me" || e.Address != a {
			p.Fail(id, "new-node", "explicit id not kept: %+v", *e)
		}
		if err := n.Validate(); (err == nil) != valid[a] {
			p.Fail(id, "validate", "Validate(%q) = %v", a, err)
		}
		p.Outcome("valid=%v", valid[a])
	}
	for st, w := range map[cluster.NodeState]string{cluster.NodeAlive: "alive", cluster.NodeSuspect: "suspect", cluster.NodeDead: "dead", 9: "unknown"} {
		if p.Begin("state=%d", st) && st.String() != w {
			p.Fail(fmt.Sprintf("state=%d", st), "state-name", "%d is called %q", int(st), st.String())
		}
	}
	_ = vtime.Now
}

// large: many members, many observers, high numbers.
func large(p *kit.P) {
	for _, n := range kit.Sizes(520) {
		id := fmt.Sprintf("%d members", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1)))
		logs := make([][]string, n)
		turn := -1 // the observer that was told last
		for i := range logs {
			m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
				if i != (turn+1)%n {
					p.Fail(fmt.Sprintf("%d members", n), "order", "of %d observers, number %d was told after number %d", n, i, turn)
				}
				turn = i
				logs[i] = append(logs[i], fmt.Sprintf("%s=%s@%d", id, st, v))
			})
		}
		w := newModel()
		step := func(o op) bool {
			o.addr = o.id + ".example.internal:7946"
			if g, want := o.real(m), o.model(w, 0); g != want {
				p.Fail(id, "result", "%s returned %v", o, g)
				return false
			}
			return true
		}
		name := func(i int) string { return fmt.Sprintf("node-%d", i) }
		for i := range n {
			if !step(op{kind: opUpsert, id: name(i), inc: 1 << (i % 64), state: cluster.NodeState(i % 3)}) {
				return
			}
		}
		for j, i := range []int{n - 1, 0, n / 2, n / 3, n} {
			for _, o := range []op{
				{kind: opMark, id: name(i), state: cluster.NodeDead}, {kind: opRefute, id: name(i)}, {kind: opMark, id: name(i), state: cluster.NodeSuspect},
				{kind: opMerge, id: name(i), inc: 1<<63 + 5, state: cluster.NodeAlive}, {kind: opMerge, id: name(i), inc: 1<<63 + 4, state: cluster.NodeDead},
				{kind: opMerge, id: name(i), inc: 1 << 40, state: cluster.NodeDead},
				{kind: opMark, id: name(i), state: cluster.NodeDead + 1}, {kind: opMark, id: name(i), state: -1}, {kind: opMark, id: name(i), state: -1},
				{kind: opRemove, id: name(i + j)}, {kind: opRefute, id: name(i + j)},
			} {
				if !step(o) {
					return
				}
			}
		}
		if got, want := renderReal(m, false), renderModel(w, false); got != want || m.Version() != w.ver {
			p.Fail(id, "state", "%d members: version %d, want %d; %.500s", n, m.Version(), w.ver, got)
			return
		}
		for i, l := range logs {
			if !slices.Equal(l, w.events) {
				p.Fail(id, "events", "observer %d of %d heard %d of %d changes", i, n, len(l), len(w.events))
				return
			}
		}
		p.Outcome("ok")
	}
}

func main() {
	al := alphabet()
	kit.Main(
		kit.Scenario{Name: "identity", Plain: identity},
		kit.Scenario{Name: "large", Plain: large},
		kit.Scenario{Name: "sequences-4", Body: sequences(4, al), Quick: vsched.Opts{}, Deep: vsched.Opts{MaxSteps: 20000}},
		kit.Scenario{Name: "sequences-5", Body: sequences(5, al[:len(al)-2]), Quick: vsched.Opts{}, Deep: vsched.Opts{MaxSteps: 20000}, Weight: 3},
		kit.Scenario{Name: "linearizable-2x1", Body: linearizable(2, 1, al), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "linearizable-2x2", Body: linearizable(2, 2, []op{al[0], al[1], al[2], al[3], al[5]}), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}, Weight: 2},
		kit.Scenario{Name: "linearizable-3x1", Body: linearizable(3, 1, al[:6]), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 3}, Weight: 2},
		kit.Scenario{Name: "observers", Body: observers, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, RaceP: 2},
		kit.Scenario{Name: "unlocked", Body: unlocked, Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
	)
}
