// C36: a node built from a configuration acts exactly as that configuration
// says; values out of range leave the defaults.
package main

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/dist"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const ms = time.Millisecond

type opt = backend.DistMemoryOption

func pick[T any](vals ...T) T { return vals[vsched.Choose(len(vals))] }

func quiet(t backend.DistTransport) []opt {
	return []opt{backend.WithDistTransport(t), backend.WithDistLogger(slog.New(slog.DiscardHandler))}
}

func build(f func(context.Context, ...opt) (backend.IBackend[backend.DistMemory], error), o ...opt) *backend.DistMemory {
	b, err := f(bg, o...)
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	return b.(*backend.DistMemory)
}

func plain(ctx context.Context, o ...opt) (backend.IBackend[backend.DistMemory], error) {
	return backend.NewDistMemory(ctx, o...)
}

func from(cfg any) func(context.Context, ...opt) (backend.IBackend[backend.DistMemory], error) {
	return func(ctx context.Context, o ...opt) (backend.IBackend[backend.DistMemory], error) {
		return backend.NewDistMemoryWithConfig(ctx, cfg, o...)
	}
}

// same are the options that say what cfg says.
func same(cfg dist.Config) []opt {
	var o []opt
	if cfg.NodeID != "" || cfg.AdvertiseAddr != "" {
		o = append(o, backend.WithDistNode(cfg.NodeID, cfg.AdvertiseAddr))
	}
	o = append(o, backend.WithDistSeeds(slices.Clone(cfg.Seeds)))
	if cfg.Replication > 0 {
		o = append(o, backend.WithDistReplication(cfg.Replication))
	}
	if cfg.VirtualNodes > 0 {
		o = append(o, backend.WithDistVirtualNodes(cfg.VirtualNodes))
	}
	if cfg.ReadConsistency >= 0 && cfg.ReadConsistency <= 2 {
		o = append(o, backend.WithDistReadConsistency(backend.ConsistencyLevel(cfg.ReadConsistency)))
	}
	if cfg.WriteConsistency >= 0 && cfg.WriteConsistency <= 2 {
		o = append(o, backend.WithDistWriteConsistency(backend.ConsistencyLevel(cfg.WriteConsistency)))
	}
	if cfg.HintTTL > 0 {
		o = append(o, backend.WithDistHintTTL(cfg.HintTTL))
	}
	if cfg.HintReplay > 0 {
		o = append(o, backend.WithDistHintReplayInterval(cfg.HintReplay))
	}
	if cfg.HintMaxPerNode > 0 {
		o = append(o, backend.WithDistHintMaxPerNode(cfg.HintMaxPerNode))
	}
	return o
}

// who is what a node is and knows.
func who(dm *backend.DistMemory) string {
	var m []string
	for _, n := range dm.Membership().List() {
		m = append(m, fmt.Sprintf("%s@%s %s %d", n.ID, n.Address, n.State, n.Incarnation))
	}
	slices.Sort(m)
	s := fmt.Sprintf("%s at %q knows %v;", dm.LocalNodeID(), dm.LocalNodeAddr(), m)
	for i := range 6 {
		s += fmt.Sprintf(" %v", dm.Ring().Lookup(fmt.Sprintf("key%d", i)))
	}
	return s
}

func kind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, sentinel.ErrQuorumFailed):
		return "quorum"
	}
	return "error"
}

// act is what a node does in a cluster of which p1 is there and p2 is not, until it comes.
func act(f func(context.Context, ...opt) (backend.IBackend[backend.DistMemory], error), o ...opt) string {
	t := backend.NewInProcessTransport()
	peer := func(id string) *backend.DistMemory {
		ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(3)))
		for _, x := range []string{"n0", "p1", "p2"} {
			if x != id {
				ms.Upsert(cluster.NewNode(x, x+":1"))
			}
		}
		dm := build(plain, append(quiet(t), backend.WithDistMembership(ms, cluster.NewNode(id, id+":1")), backend.WithDistReplication(3))...)
		return dm
	}
	p1 := peer("p1")
	t.Register(p1)
	dm := build(f, append(quiet(t), o...)...)
	t.Register(dm)
	vsched.Sleep(ms)
	out := who(dm) + ";"
	step := func() {
		m := dm.Metrics()
		out += fmt.Sprintf(" %+v;", m)
	}
	for i := range 4 {
		k := fmt.Sprintf("key%d", i)
		out += " " + kind(dm.Set(bg, &cache.Item{Key: k, Value: i}))
		it, ok := dm.Get(bg, k)
		if ok {
			out += fmt.Sprintf(" v%d", it.Version)
		}
		out += fmt.Sprint(ok, p1.LocalContains(k))
	}
	step()
	vsched.Sleep(15 * ms)
	step()
	p2 := peer("p2")
	t.Register(p2)
	vsched.Sleep(10 * ms)
	step()
	vsched.Sleep(60 * ms)
	step()
	for i := range 4 {
		out += fmt.Sprint(" ", p1.LocalContains(fmt.Sprintf("key%d", i)), p2.LocalContains(fmt.Sprintf("key%d", i)))
	}
	for _, n := range []*backend.DistMemory{dm, p1, p2} {
		n.Stop(bg)
	}
	return out
}

// compare the two nodes.
func compare(what string, a, b string) {
	if a == b {
		return
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-60)
	vsched.Fail("[differs] %s: from the configuration ...%.300s, from options ...%.300s", what, a[i:], b[i:])
}

var (
	seedsList = [][]string{nil, {"p1@p1:1", "p2@p2:1"}, {"p1@p1:1", "n0@other:1", "x@n0:1", "p2@p2:1"}, {"", "p1:1", "p1:1", "p2@a@b"}, {"@p1:1", "p2@"}}
)

// identity: who the node is and who owns what.
func identity() {
	vsched.Calm(true)
	cfg := dist.Config{NodeID: pick("", "n0"), AdvertiseAddr: pick("", "n0:1"), BindAddr: pick("", "b:1"), Seeds: seedsList[vsched.Choose(len(seedsList))],
		Replication: pick(-1, 0, 1, 2, 3), VirtualNodes: pick(-1, 0, 1, 16), ReadConsistency: -1, WriteConsistency: -1}
	seeds := slices.Clone(cfg.Seeds)
	mine := cfg
	mine.Seeds = seeds
	t := backend.NewInProcessTransport()
	a := build(from(mine), quiet(t)...)
	for i := range seeds { // it is the caller's
		seeds[i] = "changed@c:1"
	}
	b := build(plain, append(same(cfg), quiet(t)...)...)
	compare(fmt.Sprintf("%+v", cfg), who(a), who(b))
	// and what it should know
	local := cfg.NodeID
	addr := cfg.AdvertiseAddr
	if addr == "" {
		addr = "local"
	}
	if local == "" {
		local = string(cluster.NewNode("", addr).ID)
	}
	want := map[string]string{local: addr}
	for _, s := range cfg.Seeds {
		id, at, ok := strings.Cut(s, "@")
		if !ok {
			id, at = "", s
		}
		if s == "" || at == addr || id == local {
			continue
		}
		if id == "" {
			id = string(cluster.NewNode("", at).ID)
		}
		want[id] = at
	}
	got := map[string]string{}
	for _, n := range a.Membership().List() {
		got[string(n.ID)] = n.Address
		if n.State != cluster.NodeAlive {
			vsched.Fail("[state] %+v: %s is %s", cfg, n.ID, n.State)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) || string(a.LocalNodeID()) != local || a.LocalNodeAddr() != cfg.AdvertiseAddr {
		vsched.Fail("[members] %+v: it is %s at %q and knows %v, not %v", cfg, a.LocalNodeID(), a.LocalNodeAddr(), got, want)
	}
	owners := max(cfg.Replication, 1)
	for i := range 10 {
		k := fmt.Sprintf("key%d", i)
		o := a.Ring().Lookup(k)
		if len(o) != min(owners, len(want)) {
			vsched.Fail("[owners] %+v: %q has owners %v", cfg, k, o)
		}
		if a.IsOwner(k) != slices.Contains(o, cluster.NodeID(local)) {
			vsched.Fail("[isowner] %+v: IsOwner(%q) is %v, owners %v", cfg, k, a.IsOwner(k), o)
		}
	}
	vsched.Outcome("%d %d", len(want), min(owners, len(want)))
	a.Stop(bg)
	b.Stop(bg)
}

// behaviour: what the node does.
func behaviour(levels, repl []int, durations []time.Duration, maxes []int) func() {
	return func() {
		vsched.Calm(true)
		cfg := dist.Config{NodeID: "n0", AdvertiseAddr: "n0:1", Seeds: seedsList[1], Replication: pick(repl...), VirtualNodes: pick(0, 16),
			ReadConsistency: pick(levels...), WriteConsistency: pick(levels...), HintMaxPerNode: pick(maxes...)}
		cfg.HintTTL = durations[vsched.Choose(len(durations))] * 40
		cfg.HintReplay = durations[vsched.Choose(len(durations))] * 10
		a, b := act(from(cfg)), act(plain, same(cfg)...)
		compare(fmt.Sprintf("%+v", cfg), a, b)
		vsched.Outcome("%s", a)
	}
}

// own is a caller's own configuration.
type own struct {
	Name             string
	NodeID           string
	AdvertiseAddr    string
	Seeds            []string
	Replication      int
	VirtualNodes     int
	ReadConsistency  int
	WriteConsistency int
	HintTTL          time.Duration
	HintReplay       time.Duration
	HintMaxPerNode   int
	secret           int
}

// shapes: every way to hand over a configuration, alone or with options.
func shapes() {
	vsched.Calm(true)
	full := dist.Config{NodeID: "n0", AdvertiseAddr: "n0:1", Seeds: seedsList[1], Replication: 3, VirtualNodes: 16, ReadConsistency: pick(0, 1, 2), WriteConsistency: pick(0, 1, 2), HintTTL: 40 * ms, HintReplay: 10 * ms, HintMaxPerNode: 2}
	var cfg any
	shape := vsched.Choose(5)
	switch shape {
	case 0:
		cfg = full
	case 1:
		cfg = &full
	case 2:
		cfg = own{Name: "x", NodeID: full.NodeID, AdvertiseAddr: full.AdvertiseAddr, Seeds: full.Seeds, Replication: 3, VirtualNodes: 16, ReadConsistency: full.ReadConsistency, WriteConsistency: full.WriteConsistency, HintTTL: full.HintTTL, HintReplay: full.HintReplay, HintMaxPerNode: 2, secret: 1}
	case 3:
		d := dist.Defaults()
		if d.Replication != 1 || d.VirtualNodes != 64 || d.ReadConsistency != int(backend.ConsistencyOne) || d.WriteConsistency != int(backend.ConsistencyQuorum) {
			vsched.Fail("[defaults] %+v", d)
		}
		full = d
		cfg = d
	case 4: // defaults, with the node's own data
		d := dist.Defaults()
		d.NodeID, d.AdvertiseAddr, d.Seeds, d.Replication = "n0", "n0:1", seedsList[1], 3
		full, cfg = d, d
	}
	extra := []func() []opt{
		func() []opt { return nil },
		func() []opt { return []opt{backend.WithDistReplication(2)} },
		func() []opt {
			return []opt{backend.WithDistWriteConsistency(backend.ConsistencyAll), backend.WithDistReadConsistency(backend.ConsistencyAll)}
		},
		func() []opt { return []opt{backend.WithDistHintTTL(0), backend.WithDistNode("n0", "else:1")} },
	}[vsched.Choose(4)]
	a, b := act(from(cfg), extra()...), act(plain, append(same(full), extra()...)...)
	compare(fmt.Sprintf("shape %d of %+v", shape, full), a, b)
	vsched.Outcome("%s", a)
}

// junk: options out of range say nothing.
func junk() {
	vsched.Calm(true)
	base := []opt{backend.WithDistNode("n0", "n0:1"), backend.WithDistSeeds(seedsList[1])}
	set := []opt{backend.WithDistReplication(3), backend.WithDistVirtualNodes(16), backend.WithDistHintMaxPerNode(2), backend.WithDistHintMaxTotal(3), backend.WithDistHintMaxBytes(100)}
	common := []opt{backend.WithDistHintTTL(40 * ms), backend.WithDistHintReplayInterval(10 * ms)}
	all := []opt{
		backend.WithDistReplication(0), backend.WithDistReplication(-3), backend.WithDistVirtualNodes(0), backend.WithDistVirtualNodes(-1),
		backend.WithDistHintMaxPerNode(0), backend.WithDistHintMaxPerNode(-1), backend.WithDistHintMaxTotal(0), backend.WithDistHintMaxTotal(-1),
		backend.WithDistHintMaxBytes(0), backend.WithDistHintMaxBytes(-5), backend.WithDistIndirectProbes(-1, -ms), backend.WithDistLogger(nil),
		backend.WithDistTracerProvider(nil), backend.WithDistMeterProvider(nil), backend.WithDistReadRepairBatch(-ms, 3), backend.WithDistReadRepairBatch(ms, 0),
		backend.WithDistReadRepairBatch(0, 0), backend.WithDistMembership(nil, cluster.NewNode("zz", "zz:1")), backend.WithDistGossipInterval(-ms), backend.WithDistHeartbeat(-ms, ms, ms),
	}
	o := slices.Concat(base, common)
	if vsched.Choose(2) == 1 {
		o = append(o, set...)
	}
	b := act(plain, o...)
	i := vsched.Choose(len(all) + 1)
	var bad []opt
	if i < len(all) {
		bad = all[i : i+1]
	} else {
		bad = all
	}
	a := act(plain, append(slices.Clone(o), bad...)...)
	if a != b {
		vsched.Fail("[junk] option %d out of range changes the node: %s, not %s", i, a, b)
	}
	vsched.Outcome("%s", a)
}

// many: many seeds, owners and virtual nodes.
func many() {
	vsched.Calm(true)
	sizes := kit.Sizes(130)
	n := sizes[vsched.Choose(len(sizes))]
	cfg := dist.Config{NodeID: "n0", AdvertiseAddr: "n0:1", Replication: pick(1, 3, n, n+5), VirtualNodes: pick(1, 16, n)}
	names := vsched.Choose(2) == 1
	for i := range n {
		seed := fmt.Sprintf("p%d:1", i)
		if names {
			seed = fmt.Sprintf("p%d@p%d:1", i, i)
		}
		cfg.Seeds = append(cfg.Seeds, seed)
	}
	t := backend.NewInProcessTransport()
	a := build(from(cfg), quiet(t)...)
	b := build(plain, append(same(cfg), quiet(t)...)...)
	what := fmt.Sprintf("%d seeds, replication %d, %d virtual nodes", n, cfg.Replication, cfg.VirtualNodes)
	compare(what, who(a), who(b))
	know := map[string]bool{}
	for _, m := range a.Membership().List() {
		know[m.Address] = true
	}
	if len(know) != n+1 || len(a.Membership().List()) != n+1 {
		vsched.Fail("[members] %s: it knows %d members", what, len(know))
	}
	for i := range n {
		if !know[fmt.Sprintf("p%d:1", i)] {
			vsched.Fail("[members] %s: it does not know seed %d", what, i)
		}
	}
	vn := cfg.VirtualNodes
	if vn < 1 {
		vn = dist.Defaults().VirtualNodes
	}
	if h := len(a.Ring().VNodeHashes()); h != vn*(n+1) {
		vsched.Fail("[ring] %s: %d points on the ring", what, h)
	}
	owners := min(max(cfg.Replication, 1), n+1)
	for i := range 5 {
		if o := a.Ring().Lookup(fmt.Sprint("key", i)); len(o) != owners {
			vsched.Fail("[owners] %s: %d owners", what, len(o))
		}
	}
	vsched.Outcome("%d", owners)
	a.Stop(bg)
	b.Stop(bg)
}

func main() {
	d := []time.Duration{-ms, 0, ms}
	kit.Main(
		kit.Scenario{Name: "identity", Body: identity},
		kit.Scenario{Name: "behaviour", Body: behaviour([]int{-1, 0, 1, 2, 3}, []int{0, 3}, d[1:], []int{0, 1})},
		kit.Scenario{Name: "behaviour-all", Body: behaviour([]int{-1, 0, 1, 2, 3}, []int{-1, 0, 1, 2, 3, 4}, d, []int{-1, 0, 1, 2, 10}), DeepOnly: true},
		kit.Scenario{Name: "shapes", Body: shapes},
		kit.Scenario{Name: "junk", Body: junk},
		kit.Scenario{Name: "many", Body: many, Quick: vsched.Opts{MaxSteps: 1 << 30}, Deep: vsched.Opts{MaxSteps: 1 << 30}},
	)
}
