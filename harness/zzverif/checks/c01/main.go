// C01: key ownership on the consistent-hash ring.
package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

var universe = []string{"n1", "n10", "n2", "a", "node-αβ", "10.0.0.1:7946", "b"}

func subset(mask int) []string {
	var out []string
	for i, id := range universe {
		if mask>>i&1 == 1 {
			out = append(out, id)
		}
	}
	return out
}

func nodes(ids []string) []*cluster.Node {
	var out []*cluster.Node
	for _, id := range ids {
		n := cluster.NewNode(id, id+":1")
		n.ID = cluster.NodeID(id) // no name is a name, too
		out = append(out, n)
	}
	return out
}

func strs(ids []cluster.NodeID) []string {
	var out []string
	for _, id := range ids {
		out = append(out, string(id))
	}
	return out
}

func same(a []string, b []string) bool { return slices.Equal(a, b) }

func newRing(vn, r int) *cluster.Ring {
	return cluster.NewRing(cluster.WithVirtualNodes(vn), cluster.WithReplication(r))
}

func keysFor(n int, ids []string) []string {
	ks := ref.Keys(n)
	// keys that hash exactly onto a virtual node, or right next to one
	for _, id := range universe {
		for i := 0; i < 3; i++ {
			ks = append(ks, id+string([]byte{byte(i)}))
		}
		ks = append(ks, id+string([]byte{63}), id+string([]byte{255}))
	}
	_ = ids
	return ks
}

// ownership: every subset of the universe, in several build orders.
func ownership(p *kit.P) {
	vns := []int{1, 2, 3, 64, 256}
	rs := []int{1, 2, 3, 7}
	nk := 80
	if p.Deep() {
		vns = []int{1, 2, 3, 5, 16, 63, 64, 65, 128, 255, 256, 257, 300}
		rs = []int{1, 2, 3, 4, 5, 6, 7, 8}
		nk = 700
	}
	for mask := 0; mask < 1<<len(universe); mask++ {
		ids := subset(mask)
		keys := keysFor(nk, ids)
		for _, vn := range vns {
			for _, r := range rs {
				id := fmt.Sprintf("mask=%d vn=%d r=%d", mask, vn, r)
				if !p.Begin("%s", id) {
					continue
				}
				want := ref.NewRing(ids, vn, r)
				orders := [][]string{ids}
				rev := slices.Clone(ids)
				slices.Reverse(rev)
				orders = append(orders, rev)
				if len(ids) > 2 {
					orders = append(orders, append(slices.Clone(ids[1:]), ids[0]))
				}
				for oi, ord := range orders {
					ring := newRing(vn, r)
					if oi == 1 {
						// reach the set from another one
						ring.Build(nodes(universe))
					}
					ns := nodes(ord)
					ring.Build(ns)
					for _, n := range ns { // the ring owns its data
						n.ID = "changed"
					}
					for _, k := range keys {
						got := strs(ring.Lookup(k))
						w := want.Owners(k)
						if !same(got, w) {
							p.Fail(id, "owners", "nodes %q vnodes=%d replication=%d key %q: owners %q, want %q (order %d)", ord, vn, r, k, got, w, oi)
							return
						}
						if len(got) != min(r, len(ids)) {
							p.Fail(id, "count", "nodes %q vnodes=%d replication=%d key %q: %d owners %q", ord, vn, r, k, len(got), got)
							return
						}
					}
					// a caller may do what it likes with the answer
					for _, k := range keys[:min(20, len(keys))] {
						l := ring.Lookup(k)
						for i := range l {
							l[i] = "scribble"
						}
						l = append(l, "x")
						_ = l
						if got := strs(ring.Lookup(k)); !same(got, want.Owners(k)) {
							p.Fail(id, "aliased", "modifying the result of Lookup changed the ring: %q", got)
							return
						}
					}
				}
				p.Outcome("%d owners", min(r, len(ids)))
			}
		}
	}
}

// disruption: adding or removing one node moves only the keys it must.
func disruption(p *kit.P) {
	vns := []int{1, 4, 64}
	nk := 200
	if p.Deep() {
		vns = []int{1, 2, 4, 16, 64, 256}
		nk = 2000
	}
	for mask := 0; mask < 1<<len(universe); mask++ {
		for j := range universe {
			if mask>>j&1 == 1 {
				continue
			}
			for _, vn := range vns {
				id := fmt.Sprintf("mask=%d add=%d vn=%d", mask, j, vn)
				if !p.Begin("%s", id) {
					continue
				}
				small, big := newRing(vn, 3), newRing(vn, 3)
				small.Build(nodes(subset(mask)))
				big.Build(nodes(subset(mask | 1<<j)))
				moved := 0
				for _, k := range keysFor(nk, nil) {
					a, b := strs(small.Lookup(k)), strs(big.Lookup(k))
					if !slices.Contains(b, universe[j]) {
						if !same(a, b) {
							p.Fail(id, "disruption", "adding %q changed the owners of %q from %q to %q", universe[j], k, a, b)
							return
						}
						continue
					}
					moved++
					// the old owners keep their relative order
					var rest []string
					for _, o := range b {
						if o != universe[j] {
							rest = append(rest, o)
						}
					}
					if !same(rest, a[:len(rest)]) {
						p.Fail(id, "disruption", "adding %q reordered the owners of %q from %q to %q", universe[j], k, a, b)
						return
					}
				}
				p.Outcome("moved=%v", moved > 0)
			}
		}
	}
}

// config: option handling.
func config(p *kit.P) {
	for _, vn := range []int{-5, -1, 0, 1, 2, 64, 255, 256, 257, 1000, 5000, 70000} {
		for _, r := range []int{-5, -1, 0, 1, 2, 9, 300, 70000} {
			id := fmt.Sprintf("vn=%d r=%d", vn, r)
			if !p.Begin("%s", id) {
				continue
			}
			ring := newRing(vn, r)
			wv, wr := vn, r
			if vn <= 0 {
				wv = 64
			}
			if r <= 0 {
				wr = 1
			}
			if ring.VirtualNodesPerNode() != wv || ring.Replication() != wr {
				p.Fail(id, "config", "options (%d,%d) give vnodes=%d replication=%d", vn, r, ring.VirtualNodesPerNode(), ring.Replication())
			}
			if l := ring.Lookup("k"); len(l) != 0 {
				p.Fail(id, "empty", "empty ring owns a key: %q", l)
			}
			ring.Build(nodes(universe[:3]))
			if n := len(ring.VNodeHashes()); n != 3*wv {
				p.Fail(id, "vnodes", "%d virtual nodes, want %d", n, 3*wv)
			}
			ring.Build(nil)
			if l := ring.Lookup("k"); len(l) != 0 {
				p.Fail(id, "empty", "emptied ring owns a key: %q", l)
			}
			p.Outcome("%d/%d", wv, wr)
		}
	}
}

// large: many nodes, long names, long keys.
func large(p *kit.P) {
	limit, nk := 150, 60
	if p.Deep() {
		limit, nk = 1030, 400
	}
	test := func(id string, ids []string, vn, r int, keys []string) bool {
		want, ring := ref.NewRing(ids, vn, r), newRing(vn, r)
		ring.Build(nodes(ids))
		for _, k := range keys {
			if got, w := strs(ring.Lookup(k)), want.Owners(k); !same(got, w) {
				p.Fail(id, "owners", "%d nodes, vnodes=%d replication=%d, key of %d bytes: owners %.300q, want %.300q", len(ids), vn, r, len(k), got, w)
				return false
			}
		}
		p.Outcome("%d owners", min(r, len(ids)))
		return true
	}
	for _, n := range kit.Sizes(limit) {
		for _, vn := range []int{1, 16, 64, 256} {
			for _, r := range []int{1, 3, n + 1} {
				id := fmt.Sprintf("nodes=%d vn=%d r=%d", n, vn, r)
				if !p.Begin("%s", id) {
					continue
				}
				var ids []string
				for i := range n {
					ids = append(ids, fmt.Sprintf("10.0.%d.%d:7946", i/256, i%256))
				}
				keys := ref.Keys(nk)
				if r > 3 {
					keys = keys[:8]
				}
				if !test(id, ids, vn, r, keys) {
					return
				}
			}
		}
	}
	for _, vn := range []int{2, 255, 257, 300, 1000, 5000} {
		id := fmt.Sprintf("one of no name vn=%d", vn)
		if p.Begin("%s", id) && !(test(id, []string{"", "a", "b"}, vn, 2, ref.Keys(nk)) && test(id, []string{""}, vn, 2, ref.Keys(nk)) && test(id, universe[:3], vn, 3, ref.Keys(nk))) {
			return
		}
	}
	for _, n := range kit.Sizes(5001) {
		id := fmt.Sprintf("names of %d", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		long := strings.Repeat("node.", n/5+1)[:n]
		if !test(id, []string{long + "a", long + "b", long, "a" + long, "b" + long}, 16, 3, append(ref.Keys(40), long+"x", long+"y", "x"+long, "y"+long)) {
			return
		}
	}
}

// rebuilt: what a ring answers depends on its last Build alone, not on the
// lists it was built from before.
func rebuilt(p *kit.P) {
	names := universe[:4]
	var lists [][]string
	var rec func(l []string)
	rec = func(l []string) {
		lists = append(lists, slices.Clone(l))
		for _, n := range names {
			if !slices.Contains(l, n) {
				rec(append(slices.Clone(l), n))
			}
		}
	}
	rec(nil)
	keys := keysFor(12, nil)
	vns := []int{1, 3}
	if p.Deep() {
		keys, vns = keysFor(40, nil), []int{1, 2, 3, 64}
	}
	for _, vn := range vns {
		for i, a := range lists {
			id := fmt.Sprintf("from %q vn=%d", a, vn)
			if !p.Begin("%s", id) {
				continue
			}
			for _, b := range lists {
				for _, again := range []bool{false, true} {
					ring := newRing(vn, 2)
					ring.Build(nodes(a))
					for _, k := range keys {
						ring.Lookup(k)
					}
					ring.Build(nodes(b))
					if again {
						ring.Build(nodes(a))
						ring.Build(nodes(b))
					}
					want := ref.NewRing(b, vn, 2)
					for _, k := range keys {
						if got, w := strs(ring.Lookup(k)), want.Owners(k); !same(got, w) {
							p.Fail(id, "history", "a ring of %q rebuilt as %q (vnodes=%d): owners of %q are %q, want %q", a, b, vn, k, got, w)
							return
						}
					}
					if n := len(ring.VNodeHashes()); n != vn*len(b) {
						p.Fail(id, "history", "a ring of %q rebuilt as %q has %d points", a, b, n)
						return
					}
				}
			}
			p.Outcome("%d", len(lists[i]))
		}
	}
}

// concurrent: a lookup sees one whole ring, and never goes back in time.
func concurrent() {
	sets := [][]string{{"n1", "n2"}, {"n2", "a"}, {"a"}, {"n1", "n10", "n2"}}
	ring := newRing(2, 2)
	ring.Build(nodes(sets[0]))
	key := []string{"key-1", "key-7919", "x"}[vsched.Choose(3)]
	var want []string
	for _, s := range sets {
		want = append(want, strings.Join(ref.NewRing(s, 2, 2).Owners(key), ","))
	}
	var g vsched.Group
	g.Go(func() {
		ring.Build(nodes(sets[1]))
		ring.Build(nodes(sets[2]))
		ring.Build(nodes(sets[3]))
	})
	for range 2 {
		g.Go(func() {
			at := 0
			for range 3 {
				got := strings.Join(strs(ring.Lookup(key)), ",")
				for at < len(want) && want[at] != got {
					at++
				}
				if at == len(want) {
					vsched.Fail("[torn] Lookup(%q)=%s is no (later) ring among %q", key, got, want)
				}
				vsched.Outcome("%d", at)
			}
		})
	}
	g.Wait()
	if got := strings.Join(strs(ring.Lookup(key)), ","); got != want[3] {
		vsched.Fail("[final] Lookup(%q)=%s want %s", key, got, want[3])
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "ownership", Plain: ownership, Weight: 4},
		kit.Scenario{Name: "disruption", Plain: disruption, Weight: 2},
		kit.Scenario{Name: "config", Plain: config},
		kit.Scenario{Name: "large", Plain: large, Weight: 2},
		kit.Scenario{Name: "rebuilt", Plain: rebuilt, Weight: 2},
		kit.Scenario{Name: "concurrent", Body: concurrent, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, Weight: 2},
	)
}
