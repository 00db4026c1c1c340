// C02: the ring always follows the membership: once the mutations in flight
// have returned, ownership is computed from exactly the members not dead.
package main

import (
	"fmt"
	"slices"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

const vn, repl = 3, 2

type op struct {
	name string
	do   func(m *cluster.Membership)
}

func node(id string, st cluster.NodeState) *cluster.Node {
	n := cluster.NewNode(id, id+":1")
	n.State = st
	return n
}

func ops() []op {
	var out []op
	for _, id := range []string{"a", "b"} {
		nid := cluster.NodeID(id)
		out = append(out,
			op{"up " + id, func(m *cluster.Membership) { m.Upsert(node(id, cluster.NodeAlive)) }},
			op{"rm " + id, func(m *cluster.Membership) { m.Remove(nid) }},
			op{"dead " + id, func(m *cluster.Membership) { m.Mark(nid, cluster.NodeDead) }},
			op{"alive " + id, func(m *cluster.Membership) { m.Mark(nid, cluster.NodeAlive) }},
		)
	}
	out = append(out,
		op{"up c", func(m *cluster.Membership) { m.Upsert(node("c", cluster.NodeAlive)) }},
		op{"updead a", func(m *cluster.Membership) { m.Upsert(node("a", cluster.NodeDead)) }},
		op{"suspect a", func(m *cluster.Membership) { m.Mark("a", cluster.NodeSuspect) }},
		op{"refute a", func(m *cluster.Membership) { m.Refute("a") }},
		op{"claim a", func(m *cluster.Membership) { m.RefuteClaim("a", 9) }},
	)
	return out
}

var keys = ref.Keys(24)

// mismatch compares the ring with the membership.
func mismatch(m *cluster.Membership) string {
	var ids []string
	for _, n := range m.List() {
		if n.State != cluster.NodeDead {
			ids = append(ids, string(n.ID))
		}
	}
	slices.Sort(ids)
	want := ref.NewRing(ids, vn, repl)
	for _, k := range keys {
		var got []string
		for _, id := range m.Ring().Lookup(k) {
			got = append(got, string(id))
		}
		if !slices.Equal(got, want.Owners(k)) {
			return fmt.Sprintf("members not dead %q, but the ring gives key %q to %q instead of %q", ids, k, got, want.Owners(k))
		}
	}
	return ""
}

func fresh(init int) *cluster.Membership {
	m := cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(vn), cluster.WithReplication(repl)))
	if init&1 == 1 {
		m.Upsert(node("a", cluster.NodeAlive))
	}
	if init&2 == 2 {
		m.Upsert(node("b", cluster.NodeAlive))
	}
	return m
}

func sequences(p *kit.P) {
	depth := 3
	if p.Deep() {
		depth = 5
	}
	al := ops()
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) > 0 {
			id := fmt.Sprintf("%v", seq)
			if p.Begin("%s", id) {
				m := fresh(0)
				names := ""
				for _, i := range seq {
					al[i].do(m)
					names += al[i].name + "; "
				}
				if s := mismatch(m); s != "" {
					p.Fail(id, "stale-ring", "after %s: %s", names, s)
				}
				p.Outcome("members=%d", len(m.List()))
			}
		}
		if len(seq) == depth {
			return
		}
		for i := range al {
			rec(append(slices.Clone(seq), i))
		}
	}
	rec(nil)
}

// concurrent runs nt threads with one operation each (every combination).
func concurrent(nt, perThread int, al []op) func() {
	return func() {
		m := fresh(vsched.Choose(4))
		var pick [][]int
		last := 0
		for t := 0; t < nt; t++ {
			var l []int
			for k := 0; k < perThread; k++ {
				if k == 0 { // threads are interchangeable
					i := last + vsched.Choose(len(al)-last)
					last = i
					l = append(l, i)
				} else {
					l = append(l, vsched.Choose(len(al)))
				}
			}
			pick = append(pick, l)
		}
		var g vsched.Group
		names := ""
		for t, l := range pick {
			for _, i := range l {
				names += fmt.Sprintf("T%d:%s ", t+1, al[i].name)
			}
			g.Go(func() {
				for _, i := range l {
					al[i].do(m)
				}
			})
		}
		g.Wait()
		s := mismatch(m)
		n := 0
		for _, x := range m.List() {
			n = n*10 + int(x.State) + 1
		}
		vsched.Outcome("%d", n)
		if s != "" {
			vsched.Fail("[stale-ring] %s: %s", names, s)
		}
	}
}

// readers: a member that is never touched stays an owner throughout, and
// lookups name only current or former members.
func readers() {
	m := fresh(3)
	var g vsched.Group
	g.Go(func() { m.Upsert(node("c", cluster.NodeAlive)); m.Remove("c") })
	g.Go(func() { m.Mark("b", cluster.NodeSuspect); m.Mark("b", cluster.NodeAlive) })
	g.Go(func() {
		for _, k := range keys[:3] {
			l := m.Ring().Lookup(k)
			if len(l) != 2 || l[0] == l[1] {
				vsched.Fail("[owners] during churn of c, key %q is owned by %q", k, l)
			}
			vsched.Outcome("%v", slices.Contains(l, "c"))
		}
	})
	g.Wait()
	if s := mismatch(m); s != "" {
		vsched.Fail("[stale-ring] %s", s)
	}
}

// large: the ring of many members.
func large(p *kit.P) {
	limit := 150
	if p.Deep() {
		limit = 1030
	}
	for _, n := range kit.Sizes(limit) {
		id := fmt.Sprintf("%d members", n)
		if !p.Begin("%s", id) {
			continue
		}
		m := fresh(0)
		name := func(i int) string { return fmt.Sprintf("node-%d", i) }
		check := func(what string) bool {
			if s := mismatch(m); s != "" {
				p.Fail(id, "ring", "%d members, %s: %.500s", n, what, s)
				return false
			}
			return true
		}
		for i := range n {
			m.Upsert(node(name(i), []cluster.NodeState{cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}[i%3]))
		}
		if !check("joined") {
			return
		}
		steps := []func(i int){
			func(i int) { m.Mark(cluster.NodeID(name(i)), cluster.NodeDead) },
			func(i int) { m.Remove(cluster.NodeID(name(i))) },
			func(i int) { m.Refute(cluster.NodeID(name(i))) },
			func(i int) { m.Upsert(node(name(i), cluster.NodeAlive)) },
			func(i int) { m.Merge(&cluster.Node{ID: cluster.NodeID(name(i)), Address: "x:1", Incarnation: 99}) },
			func(i int) {
				m.Merge(&cluster.Node{ID: cluster.NodeID(name(i)), Address: "x:1", Incarnation: 199, State: cluster.NodeDead})
			},
		}
		for k, do := range steps {
			for _, i := range []int{n - 1, n / 2, 0, n + k} {
				do(max(i, 0))
				if !check(fmt.Sprintf("step %d of member %d", k, i)) {
					return
				}
			}
		}
		p.Outcome("ok")
	}
}

func main() {
	al := ops()
	kit.Main(
		kit.Scenario{Name: "sequences", Plain: sequences},
		kit.Scenario{Name: "large", Plain: large},
		kit.Scenario{Name: "two-threads", Body: concurrent(2, 1, al), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "three-threads", Body: concurrent(3, 1, al[:8]), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 2}, Weight: 2},
		kit.Scenario{Name: "two-by-two", Body: concurrent(2, 2, []op{al[0], al[1], al[5], al[8], al[9]}), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}, Weight: 2},
		kit.Scenario{Name: "readers", Body: readers, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 3}, Race: true},
	)
}
