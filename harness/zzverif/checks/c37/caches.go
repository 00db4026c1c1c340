package main

import (
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/web"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

// caches: the port of a real cache, over each backend that works alone.
var caches = kit.Scenario{Name: "caches", Plain: func(p *kit.P) {
	for _, algo := range []string{"lru", "lfu", "clock"} {
		for _, max := range []int64{0, 1 << 20} {
			id := fmt.Sprintf("in memory, %s, limit %d", algo, max)
			if !p.Begin("%s", id) {
				continue
			}
			conf, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
			if err != nil {
				p.Fail(id, "config", "%v", err)
				continue
			}
			addr := web.Addr()
			conf.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](3)}
			conf.HyperCacheOptions = []hypercache.Option[backend.InMemory]{
				hypercache.WithEvictionAlgorithm[backend.InMemory](algo),
				hypercache.WithEvictionShardCount[backend.InMemory](1),
				hypercache.WithMaxCacheSize[backend.InMemory](max),
				hypercache.WithEvictionInterval[backend.InMemory](time.Hour),
				hypercache.WithExpirationInterval[backend.InMemory](90 * time.Minute),
				hypercache.WithManagementHTTP[backend.InMemory](addr),
			}
			h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
			if err != nil || h.ManagementHTTPAddress() != addr {
				p.Fail(id, "new", "%s: %v, address %q", id, err, h.ManagementHTTPAddress())
				continue
			}
			config := func() {
				want := map[string]any{"capacity": h.Capacity(), "allocation": h.Allocation(), "maxCacheSize": max, "evictionInterval": "1h0m0s", "expirationInterval": "1h30m0s", "evictionAlgorithm": algo}
				got, _ := call(addr, "GET", "/config", "").json().(map[string]any)
				for k, v := range want {
					if !reflect.DeepEqual(got[k], asJSON(v)) {
						p.Fail(id, "config:"+k, "%s: /config says %s is %v, want %v", id, k, got[k], v)
					}
				}
			}
			config()
			for i := range 5 {
				if err := h.Set(bg, fmt.Sprint("k", i), strings.Repeat("v", 10*(i+1)), 0); err != nil {
					p.Fail(id, "set", "%s: %v", id, err)
				}
			}
			config()
			if err := h.Set(bg, "soon", "v", time.Millisecond); err != nil {
				p.Fail(id, "set", "%s: %v", id, err)
			}
			time.Sleep(5 * time.Millisecond)
			if a := call(addr, "POST", "/trigger-expiration", ""); a.status != 202 {
				p.Fail(id, "expire", "%s: %v", id, a)
			}
			if !web.Until(func() bool { return h.Count(bg) <= 5 }) {
				p.Fail(id, "expired", "%s: an expired item stays after the trigger", id)
			}
			if a := call(addr, "POST", "/evict", ""); a.status != 202 {
				p.Fail(id, "evict", "%s: %v", id, a)
			}
			if !web.Until(func() bool { return h.Count(bg) <= 3 }) {
				p.Fail(id, "evicted", "%s: %d items of 3 after the trigger", id, h.Count(bg))
			}
			config()
			st, _ := call(addr, "GET", "/stats", "").json().(map[string]any)
			for k, v := range h.GetStats() {
				if g, _ := st[k].(map[string]any); g == nil || g["Count"] != float64(v.Count) && g["Count"] == 0.0 {
					p.Fail(id, "stats", "%s: /stats says %v of %s, want %v", id, st[k], k, v)
				}
			}
			if a := call(addr, "GET", "/dist/metrics", ""); a.status != 404 {
				p.Fail(id, "metrics", "%s: %v", id, a)
			}
			if a := call(addr, "GET", "/cluster/events", ""); a.status != 503 {
				p.Fail(id, "events", "%s: %v", id, a)
			}
			if a := call(addr, "POST", "/clear", ""); a.status != 200 || h.Count(bg) != 0 {
				p.Fail(id, "clear", "%s: %v, %d items are left", id, a, h.Count(bg))
			}
			p.Outcome("%s", algo)
			if err := h.Stop(bg); err != nil {
				p.Fail(id, "stop", "%s: %v", id, err)
			}
			if web.Up(addr) {
				p.Fail(id, "up", "%s: the port is open after Stop", id)
			}
		}
	}
	id := "a taken address"
	if p.Begin("%s", id) { // not fatal: the cache works without
		addr := web.Addr()
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return
		}
		conf, _ := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
		conf.HyperCacheOptions = []hypercache.Option[backend.InMemory]{hypercache.WithManagementHTTP[backend.InMemory](addr)}
		h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
		if err != nil || h.ManagementHTTPAddress() != "" || h.Set(bg, "k", "v", 0) != nil || h.Stop(bg) != nil {
			p.Fail(id, "fatal", "%s: New: %v", id, err)
		}
		l.Close()
	}
}}

// followed: the stream of a real distributed cache, for every history of its
// membership.
var followed = kit.Scenario{Name: "followed", Weight: 2, Plain: func(p *kit.P) {
	type op struct {
		name string
		do   func(m *cluster.Membership)
	}
	ops := []op{
		{"n1 joins", func(m *cluster.Membership) { m.Upsert(cluster.NewNode("n1", "n1:1")) }},
		{"n2 joins", func(m *cluster.Membership) { m.Upsert(cluster.NewNode("n2", "n2:1")) }},
		{"n1 suspect", func(m *cluster.Membership) { m.Mark("n1", cluster.NodeSuspect) }},
		{"n1 alive", func(m *cluster.Membership) { m.Mark("n1", cluster.NodeAlive) }},
		{"n2 dead", func(m *cluster.Membership) { m.Mark("n2", cluster.NodeDead) }},
		{"n1 leaves", func(m *cluster.Membership) { m.Remove("n1") }},
		{"n2 leaves", func(m *cluster.Membership) { m.Remove("n2") }},
		{"n0 refutes", func(m *cluster.Membership) { m.Refute("n0") }},
	}
	depth := 3
	total := 1
	for range depth {
		total *= len(ops)
	}
	for c := range total {
		var seq []op
		id := ""
		for i, x := 0, c; i < depth; i, x = i+1, x/len(ops) {
			seq = append(seq, ops[x%len(ops)])
			id += "; " + ops[x%len(ops)].name
		}
		id = id[2:]
		if !p.Begin("%s", id) {
			continue
		}
		conf, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			p.Fail(id, "config", "%v", err)
			continue
		}
		addr := web.Addr()
		m := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(2), cluster.WithVirtualNodes(3)))
		var dm *backend.DistMemory
		conf.DistMemoryOptions = []backend.DistMemoryOption{backend.WithDistShardCount(2), backend.WithDistReplication(2), backend.WithDistMembership(m, cluster.NewNode("n0", "n0:1")),
			backend.WithDistTransport(backend.NewInProcessTransport()), func(d *backend.DistMemory) { dm = d }}
		conf.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{hypercache.WithManagementHTTP[backend.DistMemory](addr)}
		h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
		if err != nil {
			p.Fail(id, "new", "%s: %v", id, err)
			continue
		}
		norm := func(v any) string {
			x, _ := v.(map[string]any)
			l, _ := x["members"].([]any)
			var out []string
			for _, y := range l {
				b, _ := json.Marshal(y)
				out = append(out, string(b))
			}
			slices.Sort(out)
			return fmt.Sprint(x["replication"], x["virtualNodes"], out)
		}
		expect := func() string { // from the membership itself
			var out []string
			for _, n := range m.List() {
				out = append(out, fmt.Sprintf(`{"Address":%q,"ID":%q,"Incarnation":%d,"State":%q}`, n.Address, string(n.ID), n.Incarnation, n.State.String()))
			}
			slices.Sort(out)
			return fmt.Sprint(2, 3, out)
		}
		x := open(addr)
		x.next()
		f, ok := x.next()
		if !ok || f.event != "members" || norm(f.json()) != expect() {
			p.Fail(id, "initial", "%s: the first members are %+v, want %s", id, f, expect())
		}
		last := norm(f.json())
		for i, o := range seq {
			ver := m.Version()
			o.do(m)
			for want := int(m.Version() - ver); want > 0; {
				f, ok := x.next()
				if !ok {
					p.Fail(id, "missing", "%s: no event for change %d", id, i+1)
					break
				}
				if f.event == "members" {
					want--
					last = norm(f.json())
				}
			}
			if last != expect() {
				p.Fail(id, "stale", "%s: after change %d the stream says %s, want %s", id, i+1, last, expect())
			}
			if a := call(addr, "GET", "/cluster/members", ""); norm(a.json()) != expect() {
				p.Fail(id, "members", "%s: after change %d: %v, want %s", id, i+1, a, expect())
			}
			ring, _ := call(addr, "GET", "/cluster/ring", "").json().(map[string]any)
			live := 0
			for _, n := range m.List() {
				if n.State != cluster.NodeDead {
					live++
				}
			}
			if ring["count"] != float64(3*live) {
				p.Fail(id, "ring", "%s: after change %d the ring has %v spots of %d nodes", id, i+1, ring["count"], live)
			}
			own, _ := call(addr, "GET", "/dist/owners?key=k1", "").json().(map[string]any)
			var want []any
			for _, o := range m.Ring().Lookup("k1") {
				want = append(want, string(o))
			}
			if got, _ := own["owners"].([]any); !slices.Equal(got, want) {
				p.Fail(id, "owners", "%s: after change %d: %v, want %v", id, i+1, own, want)
			}
			p.Steps++
		}
		p.Outcome("%s", expect())
		if err := h.Stop(bg); err != nil {
			p.Fail(id, "stop", "%s: %v", id, err)
		}
		if !x.ended() {
			p.Fail(id, "end", "%s: the stream does not end with Stop", id)
		}
		if web.Up(addr) {
			p.Fail(id, "up", "%s: the port is open after Stop", id)
		}
		_ = dm.Stop(bg)
	}
}}
