// C48: a node's identity is what it was given, or follows from its address.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/cespare/xxhash/v2"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
)

// derived is the identity of a node known by its address alone: 64 bits of
// xxhash, little endian, in hex. Nodes of different builds meet in one cluster.
func derived(addr string) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], xxhash.Sum64String(addr))
	return hex.EncodeToString(b[:])
}

func words(alpha []string, n int) []string {
	out, last := []string{""}, []string{""}
	for range n {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

func identity(p *kit.P) {
	n := 4
	if p.Deep() {
		n = 5
	}
	addrs := words([]string{"a", "A", "1", ":", ".", "[", "]", "-", " ", "é"}, n)
	for i := range 300 {
		addrs = append(addrs, fmt.Sprintf("10.0.%d.%d:7946", i/256, i%256), fmt.Sprintf("host-%d:%d", i, 7000+i))
	}
	for _, l := range kit.Sizes(1025) {
		addrs = append(addrs, strings.Repeat("h", l)+":1")
	}
	seen := map[string]string{}
	for _, a := range addrs {
		first, dup := seen[derived(a)]
		if !dup {
			seen[derived(a)] = a
		}
		if !p.Begin("%s", a) {
			continue
		}
		x, y := cluster.NewNode("", a), cluster.NewNode("", a)
		if string(x.ID) != derived(a) || y.ID != x.ID || dup && first != a {
			p.Fail(a, "derived", "address %q: nodes %q and %q, want %q", a, x.ID, y.ID, derived(a))
			return
		}
		for _, id := range []string{"n1", a, " ", "N1", derived(a), derived(a)[:4], strings.Repeat("é", 200)} {
			if id == "" {
				continue
			}
			if z := cluster.NewNode(id, a); string(z.ID) != id || z.Address != a || z.State != cluster.NodeAlive {
				p.Fail(a, "given", "NewNode(%q, %q) is %q at %q, %v", id, a, z.ID, z.Address, z.State)
				return
			}
		}
		if x.Address != a || x.State != cluster.NodeAlive {
			p.Fail(a, "given", "NewNode(\"\", %q) is at %q, %v", a, x.Address, x.State)
			return
		}
		_, _, bad := net.SplitHostPort(a)
		for _, node := range []*cluster.Node{x, {ID: "n", Address: a}, {Address: a, State: cluster.NodeDead}} {
			before := *node
			err := node.Validate()
			if (err == nil) != (bad == nil) || err != nil && !errors.Is(err, cluster.ErrInvalidAddress) {
				p.Fail(a, "validate", "address %q: %v", a, err)
				return
			}
			if *node != before {
				p.Fail(a, "validate", "Validate changed %+v to %+v", before, *node)
				return
			}
		}
		p.Outcome("%v", bad == nil)
	}
}

// states: what a state is called, and what no state is.
func states(p *kit.P) {
	names := map[cluster.NodeState]string{cluster.NodeAlive: "alive", cluster.NodeSuspect: "suspect", cluster.NodeDead: "dead"}
	for i := -300; i <= 300; i++ {
		s := cluster.NodeState(i)
		id := fmt.Sprintf("state %d", i)
		if !p.Begin("%s", id) {
			continue
		}
		want, ok := names[s]
		if !ok {
			want = "unknown"
		}
		if s.String() != want {
			p.Fail(id, "state", "state %d is called %q, want %q", i, s.String(), want)
		}
		p.Outcome("%s", want)
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "identity", Plain: identity, Weight: 3},
		kit.Scenario{Name: "states", Plain: states},
	)
}
