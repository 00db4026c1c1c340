// C35: nodes that talk over HTTP behave like nodes of one process, whatever
// is stored, and let nobody in without the credential.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/dist"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

type opt = backend.DistMemoryOption

// home is a loopback address of this process alone, so that nobody else can
// take a port between its choice and its use.
var home = fmt.Sprintf("127.%d.%d.%d", 64+os.Getpid()>>16, os.Getpid()>>8&255, os.Getpid()&255)

var nextPort atomic.Int32

// port returns an address nobody uses. The kernel does not hand out ports this low by itself.
func port() string {
	for {
		a := fmt.Sprintf("%s:%d", home, 10000+nextPort.Add(1)%20000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

func up(addr string) bool {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// node is a member of a cluster, listening if addr is set.
func node(id, addr string, peers map[string]string, repl int, t backend.DistTransport, o ...opt) *backend.DistMemory {
	for range 20 {
		a := addr
		if a == "" {
			a = id + ":1"
		}
		ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(repl), cluster.WithVirtualNodes(16)))
		for p, pa := range peers {
			if p != id {
				ms.Upsert(cluster.NewNode(p, pa))
			}
		}
		opts := []opt{backend.WithDistReplication(repl), backend.WithDistMembership(ms, cluster.NewNode(id, a)), backend.WithDistLogger(slog.New(slog.DiscardHandler))}
		if t != nil {
			opts = append(opts, backend.WithDistTransport(t))
		}
		b, err := backend.NewDistMemory(bg, append(opts, o...)...)
		if err != nil {
			panic(err)
		}
		dm := b.(*backend.DistMemory)
		if addr == "" || up(addr) {
			return dm
		}
		dm.Stop(bg) // somebody else took the port
		time.Sleep(50 * time.Millisecond)
	}
	panic("cannot listen")
}

// group is a cluster over HTTP or in one process. Its last member is gone.
type group struct {
	nodes []*backend.DistMemory
	addr  map[string]string
}

func newGroup(overHTTP bool, n int, gone bool, repl int, o ...opt) *group {
	g := &group{addr: map[string]string{}}
	total := n
	if gone {
		total++
	}
	for i := range total {
		id := fmt.Sprintf("n%d", i)
		g.addr[id] = id + ":1"
		if overHTTP {
			g.addr[id] = home + ":1"
			if i < n {
				g.addr[id] = port()
			}
		}
	}
	shared := backend.NewInProcessTransport()
	for i := range n {
		id := fmt.Sprintf("n%d", i)
		if overHTTP {
			g.nodes = append(g.nodes, node(id, g.addr[id], g.addr, repl, nil, o...))
		} else {
			dm := node(id, "", g.addr, repl, shared, o...)
			shared.Register(dm)
			g.nodes = append(g.nodes, dm)
		}
	}
	return g
}

func (g *group) stop() {
	for _, n := range g.nodes {
		ctx, cancel := context.WithTimeout(bg, time.Millisecond)
		n.Stop(ctx)
		cancel()
	}
}

// norm is a value as JSON.
func norm(v any) string {
	if b, ok := v.(json.RawMessage); ok {
		var c bytes.Buffer
		if json.Compact(&c, b) == nil {
			return canon(c.Bytes())
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return canon(b)
}

// canon is a JSON text in a canonical form, numbers by value.
func canon(b []byte) string {
	var x any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return "bad: " + string(b)
	}
	return show(x)
}

func show(x any) string {
	switch y := x.(type) {
	case json.Number:
		s := y.String()
		if !strings.ContainsAny(s, ".eE") {
			return s
		}
		f, _ := y.Float64()
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return fmt.Sprintf("%d", int64(f))
		}
		return fmt.Sprint(f)
	case []any:
		var p []string
		for _, e := range y {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for k, e := range y {
			p = append(p, fmt.Sprintf("%q:%s", k, show(e)))
		}
		slices.Sort(p)
		return "{" + strings.Join(p, ",") + "}"
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

// dump is all a node holds, or all it holds of some keys.
func dump(n *backend.DistMemory, keys []string) string {
	l, err := n.List(bg)
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, it := range l {
		if keys != nil && !slices.Contains(keys, it.Key) {
			continue
		}
		out = append(out, fmt.Sprintf("%q=%s v%d %s %v", it.Key, norm(it.Value), it.Version, it.Origin, it.Expiration))
	}
	if t := n.BuildMerkleTree(); t != nil {
		for k, v := range t.Tombstones {
			if keys != nil && !slices.Contains(keys, k) {
				continue
			}
			out = append(out, fmt.Sprintf("%q removed v%d", k, v))
		}
	}
	slices.Sort(out)
	return strings.Join(out, "; ")
}

func kind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, sentinel.ErrQuorumFailed):
		return "quorum"
	case errors.Is(err, sentinel.ErrDraining):
		return "draining"
	}
	return "error"
}

// value i of a sequence, and its life time.
func value(i int) (any, time.Duration) {
	switch i % 4 {
	case 0:
		return fmt.Sprintf("s%d", i), 0
	case 1:
		return []byte{byte(i), 0, 255}, time.Second
	case 2:
		return map[string]any{"a": []any{1.5, true, nil}, "<&>": i}, 1500 * time.Millisecond
	}
	return float64(i) / 3, time.Hour
}

// twins: the same history on a cluster over HTTP and on one in a process.
func twins(name string, repl, depth, ddepth int, gone bool, level backend.ConsistencyLevel) kit.Scenario {
	return kit.Scenario{Name: name, Plain: func(p *kit.P) {
		max := depth
		if p.Deep() {
			max = ddepth
		}
		o := []opt{backend.WithDistReadConsistency(level), backend.WithDistWriteConsistency(level)}
		h, l := newGroup(true, 3, gone, repl, o...), newGroup(false, 3, gone, repl, o...)
		defer h.stop()
		defer l.stop()
		// Keys whose primaries differ, the second one's is gone if any is; all
		// of the same length, and fresh ones for each history, so that nothing
		// of the last one is in the way.
		first := []string{"n0", "n1"}
		if gone {
			first[1] = "n3"
		}
		ring := l.nodes[0].Membership().Ring()
		key := func(d, c, i int) string {
			for j := range 999 {
				k := fmt.Sprintf("k%d.%06d.%03d", d, c, j)
				if o := ring.Lookup(k); string(o[0]) == first[i] {
					return k
				}
			}
			panic("no key")
		}
		const ops = 18
		run := 0
		for d := 1; d <= max; d++ {
			total := 1
			for range d {
				total *= ops
			}
			for c := range total {
				id := fmt.Sprintf("%d/%d", d, c)
				if !p.Begin("%s", id) {
					continue
				}
				run++
				hist, x, ks := "", c, [2]string{key(d, c, 0), key(d, c, 1)}
				for s := range d {
					op := x % ops
					x /= ops
					n, k := op/3%3, ks[op/9]
					var a, b string
					switch op % 3 {
					case 0:
						v, ttl := value(c + c/ops + s)
						hist += fmt.Sprintf(" n%d.Set(%s,%v,%v)", n, k, v, ttl)
						a = kind(h.nodes[n].Set(bg, &cache.Item{Key: k, Value: v, Expiration: ttl}))
						b = kind(l.nodes[n].Set(bg, &cache.Item{Key: k, Value: v, Expiration: ttl}))
					case 1:
						hist += fmt.Sprintf(" n%d.Get(%s)", n, k)
						get := func(m *backend.DistMemory) string {
							it, ok := m.Get(bg, k)
							if !ok {
								return "none"
							}
							return fmt.Sprintf("%s %s v%d %s %v", it.Key, norm(it.Value), it.Version, it.Origin, it.Expiration)
						}
						a, b = get(h.nodes[n]), get(l.nodes[n])
					case 2:
						hist += fmt.Sprintf(" n%d.Remove(%s)", n, k)
						a, b = kind(h.nodes[n].Remove(bg, k)), kind(l.nodes[n].Remove(bg, k))
					}
					if a != b {
						p.Fail(id, "answer", "%s: over HTTP %s, in process %s", hist, a, b)
					}
					p.Outcome("%s", strings.SplitN(a, " ", 2)[0][:min(4, len(a))])
				}
				for i := range h.nodes { // what was kept of a request is not overwritten
					h.nodes[i].Get(bg, fmt.Sprintf("K%d.%06d.%03d", 0, 0, 0))
					l.nodes[i].Get(bg, fmt.Sprintf("K%d.%06d.%03d", 0, 0, 0))
				}
				for i := range h.nodes {
					if a, b := dump(h.nodes[i], ks[:]), dump(l.nodes[i], ks[:]); a != b {
						p.Fail(id, "state", "%s: n%d holds over HTTP %.2000s, in process %.2000s", hist, i, a, b)
					}
				}
				if run%50 == 0 { // keep the nodes small
					for i := range h.nodes {
						h.nodes[i].Clear(bg)
						l.nodes[i].Clear(bg)
					}
				}
			}
		}
	}}
}

func client(addr string, lim backend.DistHTTPLimits, a backend.DistHTTPAuth) *backend.DistHTTPTransport {
	return backend.NewDistHTTPTransportWithAuth(lim, a, func(id string) (string, bool) { return "http://" + addr, id == "n0" })
}

type pair struct {
	A int               `json:"a"`
	B map[string]string `json:"b"`
}

var values = []any{
	"", "v", "ünïcødé \u2028 \U0001f600", "<a href=\"x\">&amp;</a>\\", "line\nfeed\ttab\x00nul\x7f", "aGVsbG8=", "{\"a\":1}", "null", "1",
	[]byte{}, []byte("bytes"), []byte{0, 1, 254, 255}, true, false,
	0, -1, 1 << 20, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int8(-128),
	0.1, 1e300, -5e-324, math.Pi, 1e21, 123456789.123456789,
	[]any{}, []any{1, "a", nil, []any{int64(1<<60 + 1)}}, map[string]any{}, map[string]any{"k": map[string]any{"n": int64(1<<62 + 1)}, "": 0},
	pair{7, map[string]string{"x": "y"}}, &pair{}, []string{"a", "b"}, [2]int{1, 2}, json.RawMessage(`{"raw": [1, 2.50]}`), nil,
}

var ttls = []time.Duration{0, 1, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond, time.Second, 90 * time.Minute, 24 * 365 * time.Hour, 290 * 365 * 24 * time.Hour}

var keys = []string{"k", "a b", "a+b", "100%", "%41", "a/b", "/", "a?b=c&d", "#", "ünï", "\U0001f600", "a\nb", "\x00", "\"q\"", "\\", "..", "a=b", "a;b", "a,b", " ", strings.Repeat("long", 500)}

// items: everything that can be stored, sent over and fetched back.
var items = kit.Scenario{Name: "items", Plain: func(p *kit.P) {
	g := newGroup(true, 1, false, 1)
	defer g.stop()
	srv := g.nodes[0]
	addr := g.addr["n0"]
	try := func(id string, t *backend.DistHTTPTransport, k string, v any, ttl time.Duration, version uint64, origin string) {
		if !p.Begin("%s", id) {
			return
		}
		at := time.Unix(1700000000, 123456789)
		it := &cache.Item{Key: k, Value: v, Expiration: ttl, Version: version, Origin: origin, LastUpdated: at}
		if err := t.ForwardSet(bg, "n0", it, false); err != nil {
			p.Fail(id, "set", "%s: ForwardSet of %q=%#v: %v", id, k, v, err)
			return
		}
		want := ttl
		if r := ttl % time.Millisecond; r > 0 { // whole milliseconds, never none
			want += time.Millisecond - r
		}
		check := func(where string, got *cache.Item, ok bool) {
			switch {
			case !ok || got == nil:
				p.Fail(id, "lost", "%s: %q=%#v is not there", where, k, v)
			case got.Key != k || norm(got.Value) != norm(v):
				p.Fail(id, "value", "%s: %q=%#v arrived as %q=%#v", where, k, v, got.Key, got.Value)
			case (got.Expiration == 0) != (ttl == 0) || got.Expiration < ttl/time.Millisecond*time.Millisecond || got.Expiration > max(want, ttl):
				p.Fail(id, "ttl", "%s: expiration %v arrived as %v", where, ttl, got.Expiration)
			case got.Version != version || got.Origin != origin:
				p.Fail(id, "version", "%s: version %d %q arrived as %d %q", where, version, origin, got.Version, got.Origin)
			case !got.LastUpdated.Equal(at):
				p.Fail(id, "updated", "%s: last update %v arrived as %v", where, at, got.LastUpdated)
			}
		}
		l, _ := srv.List(bg)
		var have *cache.Item
		for _, x := range l {
			if x.Key == k {
				have = x
			}
		}
		check("at the node", have, have != nil)
		got, ok, err := t.ForwardGet(bg, "n0", k)
		if err != nil {
			p.Fail(id, "get", "%s: ForwardGet of %q: %v", id, k, err)
			return
		}
		check("fetched back", got, ok)
		ks, err := t.ListKeys(bg, "n0", "")
		if err != nil || !slices.Equal(ks, []string{k}) {
			p.Fail(id, "keys", "%s: ListKeys gives %q, %v", id, ks, err)
		}
		if err := t.ForwardRemove(bg, "n0", k, false); err != nil {
			p.Fail(id, "remove", "%s: ForwardRemove of %q: %v", id, k, err)
		}
		if _, ok, err := t.ForwardGet(bg, "n0", k); ok || err != nil {
			p.Fail(id, "removed", "%s: %q is still there, or %v", id, k, err)
		}
		p.Outcome("%s %v", norm(v)[:1], got.Expiration > 0)
	}
	plain := client(addr, backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
	zipped := client(addr, backend.DistHTTPLimits{CompressionThreshold: 1}, backend.DistHTTPAuth{})
	next := uint64(10)
	for z, t := range []*backend.DistHTTPTransport{plain, zipped} {
		for i, k := range keys {
			for j, v := range values {
				next += 10
				if z == 1 && i > 0 && j > 0 {
					continue
				}
				try(fmt.Sprintf("key%d/value%d/zip%d", i, j, z), t, k, v, 0, next, "n0")
			}
		}
		for i, ttl := range ttls {
			for j, ver := range []uint64{1, 1<<53 + 1, math.MaxUint64 - 1} {
				for m, o := range []string{"", "n0", "o \"ü\"&"} {
					try(fmt.Sprintf("ttl%d/version%d/origin%d/zip%d", i, j, m, z), t, fmt.Sprintf("t%d%d%d%d", i, j, m, z), "v", ttl, ver, o)
				}
			}
		}
	}
}}

// ages: the lifetime of an item counts from its last access, on every node.
var ages = kit.Scenario{Name: "ages", Plain: func(p *kit.P) {
	g := newGroup(true, 1, false, 1)
	defer g.stop()
	plain := client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
	zipped := client(g.addr["n0"], backend.DistHTTPLimits{CompressionThreshold: 1}, backend.DistHTTPAuth{})
	version := uint64(10)
	for z, t := range []*backend.DistHTTPTransport{plain, zipped} {
		for _, age := range []time.Duration{0, time.Microsecond, time.Millisecond, 1500 * time.Microsecond, 5 * time.Second, time.Hour, 30 * 24 * time.Hour, 100 * 365 * 24 * time.Hour} {
			for _, ttl := range []time.Duration{0, time.Millisecond, time.Second, time.Minute, 2 * time.Hour} {
				for _, repl := range []bool{false, true} {
					version += 10
					id := fmt.Sprintf("zip%d age %v lifetime %v replicate=%v", z, age, ttl, repl)
					if !p.Begin("%s", id) {
						continue
					}
					t0 := time.Now()
					it := &cache.Item{Key: id, Value: "v", Expiration: ttl, Version: version, Origin: "n0", LastUpdated: t0, LastAccess: t0.Add(-age)}
					if err := t.ForwardSet(bg, "n0", it, repl); err != nil {
						p.Fail(id, "set", "%s: %v", id, err)
						continue
					}
					check := func(where string, x *cache.Item) {
						d := x.LastAccess.Sub(it.LastAccess)
						if d < -time.Millisecond || d > time.Since(t0)+2*time.Millisecond {
							p.Fail(id, "age", "%s: %s it was last accessed %v later than sent", id, where, d)
						}
						if ttl > 0 && age > ttl && !x.Expired() {
							p.Fail(id, "expired", "%s: %s it has not expired", id, where)
						}
					}
					l, _ := g.nodes[0].List(bg)
					found := false
					for _, x := range l {
						if x.Key == id {
							found = true
							check("at the node", x)
						}
					}
					got, ok, err := t.ForwardGet(bg, "n0", id)
					if !found || err != nil {
						p.Fail(id, "get", "%s: there %v, fetched %v, %v", id, found, ok, err)
						continue
					}
					if ok {
						check("fetched back", got)
					} else if ttl == 0 || age < ttl/2 && time.Since(t0) < ttl/2 {
						p.Fail(id, "lost", "%s: not fetched", id)
					}
					p.Outcome("%v %v", ttl > 0 && age > ttl, repl)
				}
			}
		}
	}
}}

// removals: what the server keeps of a request outlives the request.
var removals = kit.Scenario{Name: "removals", Plain: func(p *kit.P) {
	for n := 1; n <= 6; n++ {
		for shape := range 4 {
			id := fmt.Sprintf("%d/%d", n, shape)
			if !p.Begin("%s", id) {
				continue
			}
			g := newGroup(true, 1, false, 1)
			t := client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
			var want []string
			for i := range n {
				k := fmt.Sprintf("key-%d%s", i, strings.Repeat("x", []int{0, i, n - i, 100}[shape]))
				want = append(want, k)
				if err := t.ForwardRemove(bg, "n0", k, false); err != nil {
					p.Fail(id, "remove", "%v", err)
				}
			}
			for _, k := range []string{"a", "other-key-to-look-at", strings.Repeat("z", 300)} {
				t.ForwardGet(bg, "n0", k)
				t.ForwardRemove(bg, "n0", "zz"+k, false)
				want = append(want, "zz"+k)
				t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: strings.Repeat("q", 500), Version: 1, Origin: "n0"}, false)
			}
			tree, err := t.FetchMerkle(bg, "n0")
			if err != nil {
				p.Fail(id, "merkle", "%v", err)
				g.stop()
				continue
			}
			var got []string
			for k := range tree.Tombstones {
				got = append(got, k)
			}
			slices.Sort(got)
			slices.Sort(want)
			if !slices.Equal(got, want) {
				p.Fail(id, "tombstones", "removed %q, remembered %q", want, got)
			}
			// what was removed stays so: an older copy does not bring it back
			for _, k := range want {
				t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: "old", Version: 0, Origin: "n0", LastUpdated: time.Unix(1, 0)}, false)
				if _, ok, _ := t.ForwardGet(bg, "n0", k); ok {
					p.Fail(id, "back", "an older copy of the removed %q was taken", k)
				}
			}
			p.Outcome("%d", len(got))
			g.stop()
		}
	}
}}

// listings: trees and keys over HTTP are those of the node.
var listings = kit.Scenario{Name: "listings", Plain: func(p *kit.P) {
	for _, shards := range []int{1, 2, 3, 8, 1024, 1025, 1500} {
		for _, n := range []int{0, 1, 5, 60} {
			for chunk := range 3 {
				id := fmt.Sprintf("%d/%d/%d", shards, n, chunk)
				if !p.Begin("%s", id) {
					continue
				}
				g := newGroup(true, 1, false, 1, backend.WithDistShardCount(shards), backend.WithDistMerkleChunkSize(1<<(2*chunk)))
				t := client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
				local := backend.NewInProcessTransport()
				local.Register(g.nodes[0])
				for i := range n {
					k := fmt.Sprintf("%c%d", "abü"[i%3], i)
					g.nodes[0].Set(bg, &cache.Item{Key: k, Value: i})
					if i%5 == 4 {
						g.nodes[0].Remove(bg, k)
					}
				}
				for _, q := range []string{"", "a", "b1", "*1", "?[12]", "[", "a*", "\u00c3", "ab&c=d"} {
					a, ea := t.ListKeys(bg, "n0", q)
					b, eb := local.ListKeys(bg, "n0", q)
					slices.Sort(a)
					slices.Sort(b)
					if !slices.Equal(a, b) || (ea == nil) != (eb == nil) {
						p.Fail(id, "keys", "%d shards, %d keys, pattern %q: over HTTP %d keys, %v; in process %d keys, %v", shards, n, q, len(a), ea, len(b), eb)
					}
				}
				a, ea := t.FetchMerkle(bg, "n0")
				b, eb := local.FetchMerkle(bg, "n0")
				if ea != nil || eb != nil || !bytes.Equal(a.Root, b.Root) || a.ChunkSize != b.ChunkSize || !slices.EqualFunc(a.LeafHashes, b.LeafHashes, bytes.Equal) || fmt.Sprint(a.Tombstones) != fmt.Sprint(b.Tombstones) {
					p.Fail(id, "merkle", "%d shards, %d keys: over HTTP %v, %v; in process %v, %v", shards, n, a, ea, b, eb)
				}
				p.Outcome("%d", n)
				g.stop()
			}
		}
	}
}}

var endpoints = []struct {
	method, path, body string
	open               int // status with the credential
}{
	{"POST", "/internal/set", `{"key":"new","value":"x","version":1,"origin":"n0"}`, 200},
	{"POST", "/internal/cache/set", `{"key":"new","value":"x","version":1,"origin":"n0"}`, 200},
	{"GET", "/internal/get?key=old", "", 200},
	{"GET", "/internal/cache/get?key=old", "", 200},
	{"DELETE", "/internal/del?key=old", "", 200},
	{"DELETE", "/internal/cache/remove?key=old&replicate=true", "", 200},
	{"GET", "/health", "", 200},
	{"POST", "/dist/drain", "", 200},
	{"GET", "/internal/probe?target=n0", "", 200},
	{"POST", "/internal/gossip", `[{"id":"n9","address":"a:1","state":"alive","incarnation":1}]`, 200},
	{"GET", "/internal/merkle", "", 200},
	{"GET", "/internal/keys", "", 200},
}

// access: every endpoint with every credential under every policy.
var access = kit.Scenario{Name: "access", Plain: func(p *kit.P) {
	const secret = "s3cret-token"
	policies := []struct {
		name string
		auth backend.DistHTTPAuth
	}{
		{"none", backend.DistHTTPAuth{}},
		{"token", backend.DistHTTPAuth{Token: secret}},
		{"verify", backend.DistHTTPAuth{ServerVerify: func(c fiber.Ctx) error {
			if c.Get("X-Sig") == "good" {
				return nil
			}
			return errors.New("no signature")
		}}},
		{"both", backend.DistHTTPAuth{Token: secret, ServerVerify: func(c fiber.Ctx) error {
			if c.Get("X-Sig") == "good" {
				return nil
			}
			return errors.New("no signature")
		}}},
		{"sign", backend.DistHTTPAuth{ClientSign: func(*http.Request) error { return nil }, AllowAnonymousInbound: true}},
	}
	headers := [][2]string{{}, {"Authorization", "Bearer " + secret}, {"Authorization", "Bearer " + secret + "x"}, {"Authorization", "Bearer " + secret[1:]},
		{"Authorization", "bearer " + secret}, {"Authorization", secret}, {"Authorization", "Bearer "}, {"Authorization", "Basic " + secret}, {"Authorization", "Bearer  " + secret},
		{"X-Sig", "good"}, {"X-Sig", "bad"}, {"X-Authorization", "Bearer " + secret}}
	for _, pol := range policies {
		for h, hd := range headers {
			for e, ep := range endpoints {
				id := fmt.Sprintf("%s/%d/%d", pol.name, h, e)
				if !p.Begin("%s", id) {
					continue
				}
				g := newGroup(true, 1, false, 1, backend.WithDistHTTPAuth(pol.auth))
				dm := g.nodes[0]
				dm.Set(bg, &cache.Item{Key: "old", Value: "v"})
				before := dump(dm, nil) + fmt.Sprint(dm.IsDraining(), len(dm.Membership().List()))
				req, _ := http.NewRequest(ep.method, "http://"+g.addr["n0"]+ep.path, strings.NewReader(ep.body))
				if hd[0] != "" {
					req.Header.Set(hd[0], hd[1])
				}
				allowed := false
				switch pol.name {
				case "none", "sign":
					allowed = true
				case "token":
					allowed = hd[0] == "Authorization" && hd[1] == "Bearer "+secret
				default:
					allowed = hd[0] == "X-Sig" && hd[1] == "good"
				}
				resp, err := http.DefaultClient.Do(req)
				if err != nil {
					p.Fail(id, "io", "%v", err)
					g.stop()
					continue
				}
				body, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				after := dump(dm, nil) + fmt.Sprint(dm.IsDraining(), len(dm.Membership().List()))
				probe := strings.Contains(ep.path, "probe") // its answer needs another request
				switch {
				case !allowed && resp.StatusCode != 401:
					p.Fail(id, "open", "policy %s, header %q: %s %s answers %d %s", pol.name, hd, ep.method, ep.path, resp.StatusCode, body)
				case !allowed && (after != before || bytes.Contains(body, []byte(secret)) || bytes.Contains(body, []byte("old"))):
					p.Fail(id, "effect", "policy %s, header %q: %s %s is refused but had an effect, or tells: %s", pol.name, hd, ep.method, ep.path, body)
				case allowed && resp.StatusCode != ep.open && !(probe && pol.name != "token"):
					p.Fail(id, "closed", "policy %s, header %q: %s %s answers %d %s", pol.name, hd, ep.method, ep.path, resp.StatusCode, body)
				}
				p.Outcome("%v %d", allowed, resp.StatusCode)
				g.stop()
			}
		}
	}
	for bits := range 16 {
		id := fmt.Sprintf("validate/%d", bits)
		if !p.Begin("%s", id) {
			continue
		}
		var a backend.DistHTTPAuth
		if bits&1 != 0 {
			a.Token = secret
		}
		if bits&2 != 0 {
			a.ServerVerify = func(fiber.Ctx) error { return nil }
		}
		if bits&4 != 0 {
			a.ClientSign = func(*http.Request) error { return nil }
		}
		a.AllowAnonymousInbound = bits&8 != 0
		b, err := backend.NewDistMemory(bg, backend.WithDistHTTPAuth(a), backend.WithDistLogger(slog.New(slog.DiscardHandler)))
		bad := bits&4 != 0 && bits&3 == 0 && bits&8 == 0
		if (err != nil) != bad || bad && !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			p.Fail(id, "validate", "token %v, verify %v, sign %v, anonymous %v: %v", bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0, err)
		}
		if err == nil {
			b.(*backend.DistMemory).Stop(bg)
		}
		p.Outcome("%v", bad)
	}
}}

// signing: what each call of the client carries.
var signing = kit.Scenario{Name: "signing", Plain: func(p *kit.P) {
	type seen struct {
		method, path, query, auth, sig, enc, body string
	}
	var got []seen
	status, answer := 200, "{}"
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		if r.Header.Get("Content-Encoding") == "gzip" {
			if z, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
				b, _ = io.ReadAll(z)
			}
		}
		got = append(got, seen{r.Method, r.URL.Path, r.URL.RawQuery, strings.Join(r.Header.Values("Authorization"), "|"), r.Header.Get("X-Sig"), r.Header.Get("Content-Encoding"), string(b)})
		w.WriteHeader(status)
		io.WriteString(w, answer)
	}))
	defer srv.Close()
	addr := strings.TrimPrefix(srv.URL, "http://")
	it := &cache.Item{Key: "k&1", Value: strings.Repeat("v", 100), Version: 3, Origin: "n1"}
	calls := []struct {
		name, method, path string
		query              url.Values
		do                 func(t *backend.DistHTTPTransport) error
		notFound           bool // 404 means the node is not there
	}{
		{"set", "POST", "/internal/set", nil, func(t *backend.DistHTTPTransport) error { return t.ForwardSet(bg, "n0", it, true) }, true},
		{"get", "GET", "/internal/get", url.Values{"key": {"k&1"}}, func(t *backend.DistHTTPTransport) error { _, _, err := t.ForwardGet(bg, "n0", "k&1"); return err }, true},
		{"remove", "DELETE", "/internal/del", url.Values{"key": {"k&1"}, "replicate": {"true"}}, func(t *backend.DistHTTPTransport) error { return t.ForwardRemove(bg, "n0", "k&1", true) }, true},
		{"health", "GET", "/health", nil, func(t *backend.DistHTTPTransport) error { return t.Health(bg, "n0") }, true},
		{"probe", "GET", "/internal/probe", url.Values{"target": {"n 2"}}, func(t *backend.DistHTTPTransport) error { return t.IndirectHealth(bg, "n0", "n 2") }, true},
		{"gossip", "POST", "/internal/gossip", nil, func(t *backend.DistHTTPTransport) error {
			return t.Gossip(bg, "n0", []backend.GossipMember{{ID: "n1", Address: "x:1", State: "dead", Incarnation: 1 << 60}})
		}, true},
		{"merkle", "GET", "/internal/merkle", nil, func(t *backend.DistHTTPTransport) error { _, err := t.FetchMerkle(bg, "n0"); return err }, true},
		{"keys", "GET", "/internal/keys", url.Values{"q": {"a*&b"}}, func(t *backend.DistHTTPTransport) error { _, err := t.ListKeys(bg, "n0", "a*&b"); return err }, false},
	}
	errSign := errors.New("cannot sign")
	auths := []struct {
		name      string
		a         backend.DistHTTPAuth
		auth, sig string
		err       error
	}{
		{"none", backend.DistHTTPAuth{}, "", "", nil},
		{"token", backend.DistHTTPAuth{Token: "T"}, "Bearer T", "", nil},
		{"sign", backend.DistHTTPAuth{Token: "T", ClientSign: func(r *http.Request) error { r.Header.Set("X-Sig", r.Method+r.URL.Path); return nil }}, "", "*", nil},
		{"fails", backend.DistHTTPAuth{Token: "T", ClientSign: func(*http.Request) error { return errSign }}, "", "", errSign},
	}
	for _, a := range auths {
		for _, zip := range []int{0, 1, 100000} {
			for _, c := range calls {
				for _, status = range []int{200, 201, 204, 300, 400, 401, 403, 404, 409, 429, 500, 502, 503} {
					for bi, body := range []string{"{}", "", "{", `{"error":"boom"}`, `{"found":true,"item":{}}`, "null", "[1]"} {
						id := fmt.Sprintf("%s/zip%d/%s/%d/%d", a.name, zip, c.name, status, bi)
						if !p.Begin("%s", id) {
							continue
						}
						answer = body
						got = nil
						t := client(addr, backend.DistHTTPLimits{CompressionThreshold: zip}, a.a)
						err := c.do(t)
						if a.err != nil {
							if !errors.Is(err, a.err) || len(got) != 0 {
								p.Fail(id, "unsigned", "the request could not be signed: %v, sent %v", err, got)
							}
							continue
						}
						if len(got) != 1 {
							p.Fail(id, "requests", "%d requests, %v", len(got), err)
							continue
						}
						s := got[0]
						wantSig := a.sig
						if wantSig == "*" {
							wantSig = c.method + c.path
						}
						q, _ := url.ParseQuery(s.query)
						if s.method != c.method || s.path != c.path || q.Encode() != c.query.Encode() {
							p.Fail(id, "request", "%s: sends %+v", id, s)
						}
						if s.auth != a.auth || s.sig != wantSig {
							p.Fail(id, "credential", "%s: sends Authorization %q, signature %q", id, s.auth, s.sig)
						}
						if (s.enc == "gzip") != (c.name == "set" && zip == 1) {
							p.Fail(id, "encoding", "%s: threshold %d, sends encoding %q", id, zip, s.enc)
						}
						if c.name == "set" && !strings.Contains(s.body, it.Value.(string)) || c.name == "gossip" && !strings.Contains(s.body, "1152921504606846976") {
							p.Fail(id, "body", "%s: sends %q", id, s.body)
						}
						reads := c.name == "get" || c.name == "merkle" || c.name == "keys"
						switch {
						case status >= 300 && err == nil:
							p.Fail(id, "status", "%s: status %d is a success", id, status)
						case status == 404 && c.notFound != errors.Is(err, sentinel.ErrBackendNotFound):
							p.Fail(id, "404", "%s: status 404 gives %v", id, err)
						case status != 404 && status >= 300 && errors.Is(err, sentinel.ErrBackendNotFound):
							p.Fail(id, "not404", "%s: status %d gives %v", id, status, err)
						case status < 300 && !reads && err != nil:
							p.Fail(id, "success", "%s: status %d gives %v", id, status, err)
						case status == 200 && reads && (body == "" || body == "{" || body == "[1]") != (err != nil):
							p.Fail(id, "damaged", "%s: the body %q gives %v", id, body, err)
						}
						p.Outcome("%v %d", err == nil, status)
					}
				}
			}
		}
	}
	for i, u := range []string{"", "127.0.0.1:1", "ftp://x:1", "http://", "://", "/path", "http://[::1", "file:///etc/hostname"} {
		for _, c := range calls {
			id := fmt.Sprintf("url/%d/%s", i, c.name)
			if !p.Begin("%s", id) {
				continue
			}
			t := backend.NewDistHTTPTransport(0, func(string) (string, bool) { return u, true })
			if c.do(t) == nil {
				p.Fail(id, "url", "%s to %q succeeds", c.name, u)
			}
			t = backend.NewDistHTTPTransport(0, func(string) (string, bool) { return srv.URL, false })
			if err := c.do(t); !errors.Is(err, sentinel.ErrBackendNotFound) {
				p.Fail(id, "unknown", "%s to an unknown node gives %v", c.name, err)
			}
			if c.do(backend.NewDistHTTPTransport(0, nil)) == nil {
				p.Fail(id, "nil", "%s without a resolver succeeds", c.name)
			}
			p.Outcome("url")
		}
	}
}}

// sizes: bodies around every limit are taken whole or refused.
var sizes = kit.Scenario{Name: "sizes", Plain: func(p *kit.P) {
	for _, limit := range []int{200, 1000} {
		for _, zip := range []int{0, 100, 500} {
			for size := 0; size <= 1200; size += 20 {
				id := fmt.Sprintf("%d/%d/%d", limit, zip, size)
				if !p.Begin("%s", id) {
					continue
				}
				lim := backend.DistHTTPLimits{BodyLimit: limit, ResponseLimit: int64(limit), CompressionThreshold: zip}
				g := newGroup(true, 1, false, 1, backend.WithDistHTTPLimits(lim))
				t := client(g.addr["n0"], lim, backend.DistHTTPAuth{})
				var b strings.Builder // does not compress well
				x := uint32(size + 1)
				for b.Len() < size {
					x = x*1664525 + 1013904223
					b.WriteByte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[x>>26])
				}
				v := b.String()
				err := t.ForwardSet(bg, "n0", &cache.Item{Key: "k", Value: v, Version: 1, Origin: "n0"}, false)
				l, _ := g.nodes[0].List(bg)
				switch {
				case err == nil && (len(l) != 1 || l[0].Value != v):
					p.Fail(id, "set", "limit %d: a value of %d bytes is accepted, the node has %d", limit, size, len(l))
				case err != nil && len(l) != 0:
					p.Fail(id, "refused", "limit %d: a value of %d bytes is refused (%v) and stored", limit, size, err)
				case err != nil && size+200 < limit || err == nil && zip == 0 && size > limit:
					p.Fail(id, "limit", "limit %d: a value of %d bytes: %v", limit, size, err)
				}
				g.nodes[0].Set(bg, &cache.Item{Key: "g", Value: v})
				it, ok, err := t.ForwardGet(bg, "n0", "g")
				switch {
				case err == nil && (!ok || norm(it.Value) != norm(v)):
					p.Fail(id, "get", "limit %d: a value of %d bytes is read as %v", limit, size, it)
				case err != nil && size+300 < limit || err == nil && size > limit:
					p.Fail(id, "response", "limit %d: a value of %d bytes is read: %v", limit, size, err)
				}
				p.Outcome("%v", err == nil)
				g.stop()
			}
		}
	}
}}

// bulk: values, keys and listings of many sizes, with the limits a node has
// by itself.
var bulk = kit.Scenario{Name: "bulk", Plain: func(p *kit.P) {
	limit := 1 << 20
	if p.Deep() {
		limit = 8 << 20
	}
	g := newGroup(true, 1, false, 1)
	defer g.stop()
	local := backend.NewInProcessTransport()
	local.Register(g.nodes[0])
	clients := []*backend.DistHTTPTransport{client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{}),
		client(g.addr["n0"], backend.DistHTTPLimits{CompressionThreshold: 1}, backend.DistHTTPAuth{})}
	noise := func(n int) string { // does not compress well
		var b strings.Builder
		for x := uint32(n + 1); b.Len() < n; {
			x = x*1664525 + 1013904223
			b.WriteByte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[x>>26])
		}
		return b.String()
	}
	trip := func(id string, t *backend.DistHTTPTransport, k string, v any) {
		if err := t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: v, Version: 3, Origin: "n0", LastUpdated: time.Unix(1, 0)}, false); err != nil {
			p.Fail(id, "set", "%s: %v", id, err)
			return
		}
		l, _ := g.nodes[0].List(bg)
		it, ok, err := t.ForwardGet(bg, "n0", k)
		if len(l) != 1 || l[0].Key != k || norm(l[0].Value) != norm(v) || !ok || err != nil || it.Key != k || norm(it.Value) != norm(v) || it.Version != 3 {
			p.Fail(id, "value", "%s: %d items; fetched %v, %v", id, len(l), ok, err)
		}
		ks, err := t.ListKeys(bg, "n0", "")
		if err != nil || len(ks) != 1 || ks[0] != k {
			p.Fail(id, "keys", "%s: %d keys listed, %v", id, len(ks), err)
		}
		if err := t.ForwardRemove(bg, "n0", k, false); err != nil {
			p.Fail(id, "remove", "%s: %v", id, err)
		}
		if l, _ := g.nodes[0].List(bg); len(l) != 0 {
			p.Fail(id, "remove", "%s: still there", id)
			_ = local.ForwardRemove(bg, "n0", k, false)
		}
		p.Outcome("%v", len(k) > 20)
	}
	for z, t := range clients {
		for _, n := range kit.Sizes(limit) {
			if id := fmt.Sprintf("value %d/%d", n, z); p.Begin("%s", id) {
				trip(id, t, id, noise(n))
			}
			if id := fmt.Sprintf("zeros %d/%d", n, z); p.Begin("%s", id) {
				trip(id, t, id, strings.Repeat("0", n))
			}
		}
		for _, n := range kit.Sizes(3000) {
			if id := fmt.Sprintf("key %d/%d", n, z); p.Begin("%s", id) {
				trip(id, t, fmt.Sprint(noise(n), "k", z), "v")
			}
			if id := fmt.Sprintf("list %d/%d", n, z); p.Begin("%s", id) {
				v := make([]any, n)
				for i := range v {
					v[i] = float64(i)
				}
				trip(id, t, id, v)
			}
		}
	}
	// the transport puts a key into the URL, and a node reads 4 KB of it
	for z, t := range clients {
		for _, n := range []int{4000, 4095, 4096, 5000, 20000} {
			id := fmt.Sprintf("long key %d/%d", n, z)
			if !p.Begin("%s", id) {
				continue
			}
			k := fmt.Sprint(noise(n), "k", z)
			err := t.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: "v", Version: 3, Origin: "n0", LastUpdated: time.Unix(1, 0)}, false)
			it, ok, gerr := t.ForwardGet(bg, "n0", k)
			if err == nil && (!ok || it.Key != k || gerr != nil) {
				p.Fail(id, "unreachable", "%s: stored, but fetching it gives %v, %v", id, ok, gerr)
			}
			if rerr := t.ForwardRemove(bg, "n0", k, false); err == nil && rerr != nil {
				p.Fail(id, "unreachable", "%s: stored, but removing it gives %v", id, rerr)
			}
			_ = local.ForwardRemove(bg, "n0", k, false)
			p.Outcome("long %v", ok)
		}
	}
	most := 1100
	if p.Deep() {
		most = 5200
	}
	for _, shards := range []int{1, 8} {
		for _, n := range kit.Sizes(most) {
			id := fmt.Sprintf("listing %d/%d", n, shards)
			if !p.Begin("%s", id) {
				continue
			}
			g := newGroup(true, 1, false, 1, backend.WithDistShardCount(shards))
			t := client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
			local := backend.NewInProcessTransport()
			local.Register(g.nodes[0])
			for i := range n {
				g.nodes[0].Set(bg, &cache.Item{Key: fmt.Sprintf("key-%d", i), Value: i})
				if i%10 == 9 {
					g.nodes[0].Remove(bg, fmt.Sprintf("key-%d", i))
				}
			}
			for _, q := range []string{"", "key-*1", "key-1", "[a-k]*"} {
				a, ea := t.ListKeys(bg, "n0", q)
				b, eb := local.ListKeys(bg, "n0", q)
				slices.Sort(a)
				slices.Sort(b)
				if !slices.Equal(a, b) || ea != nil || eb != nil || q == "" && len(a) != n-n/10 {
					p.Fail(id, "keys", "%s: pattern %q: over HTTP %d keys, %v; in process %d, %v", id, q, len(a), ea, len(b), eb)
				}
			}
			a, ea := t.FetchMerkle(bg, "n0")
			b, eb := local.FetchMerkle(bg, "n0")
			if ea != nil || eb != nil || !bytes.Equal(a.Root, b.Root) || a.ChunkSize != b.ChunkSize || !slices.EqualFunc(a.LeafHashes, b.LeafHashes, bytes.Equal) || fmt.Sprint(a.Tombstones) != fmt.Sprint(b.Tombstones) || len(a.Tombstones) != n/10 {
				p.Fail(id, "merkle", "%s: over HTTP %d leaves and %d removals, %v; in process %d and %d, %v", id, len(a.LeafHashes), len(a.Tombstones), ea, len(b.LeafHashes), len(b.Tombstones), eb)
			}
			p.Outcome("listing")
			g.stop()
		}
	}
}}

// states: gossip and probes between real nodes.
var states = kit.Scenario{Name: "states", Plain: func(p *kit.P) {
	for _, st := range []string{"alive", "suspect", "dead", "", "Dead", "zombie"} {
		for _, known := range []string{"", "alive", "suspect", "dead"} {
			for inc := range uint64(4) {
				for self := range 2 {
					id := fmt.Sprintf("%s/%s/%d/%d", st, known, inc, self)
					if !p.Begin("%s", id) {
						continue
					}
					var out [2]string
					for i := range 2 {
						g := newGroup(i == 1, 1, false, 1)
						dm := g.nodes[0]
						var t backend.DistTransport
						if i == 1 {
							t = client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
						} else {
							l := backend.NewInProcessTransport()
							l.Register(dm)
							t = l
						}
						who := "n5"
						if self == 1 {
							who = "n0"
						} else if known != "" {
							state := map[string]cluster.NodeState{"alive": cluster.NodeAlive, "suspect": cluster.NodeSuspect, "dead": cluster.NodeDead}[known]
							n := cluster.NewNode("n5", "h:1")
							n.State, n.Incarnation = state, 2
							dm.Membership().Upsert(n)
						}
						err := t.Gossip(bg, "n0", []backend.GossipMember{{ID: who, Address: "new:1", State: st, Incarnation: inc}})
						out[i] = fmt.Sprint(err)
						all := dm.Membership().List()
						slices.SortFunc(all, func(a, b *cluster.Node) int { return strings.Compare(string(a.ID), string(b.ID)) })
						for _, n := range all {
							a := n.Address
							if n.ID == "n0" {
								a = ""
							}
							out[i] += fmt.Sprintf(" %s %s %v %d", n.ID, a, n.State, n.Incarnation)
						}
						g.stop()
					}
					if out[0] != out[1] {
						p.Fail(id, "gossip", "%s at %d about %s: in process %s, over HTTP %s", st, inc, known, out[0], out[1])
					}
					p.Outcome("%s", out[0])
				}
			}
		}
	}
	for drain := range 2 {
		for gone := range 2 {
			id := fmt.Sprintf("probe/%d/%d", drain, gone)
			if !p.Begin("%s", id) {
				continue
			}
			g := newGroup(true, 2, gone == 1, 1)
			t := client(g.addr["n0"], backend.DistHTTPLimits{}, backend.DistHTTPAuth{})
			if drain == 1 {
				g.nodes[0].Drain(bg)
				g.nodes[1].Drain(bg)
			}
			if err := t.Health(bg, "n0"); (err != nil) != (drain == 1) {
				p.Fail(id, "health", "draining %v: %v", drain == 1, err)
			}
			if err := t.IndirectHealth(bg, "n0", "n1"); (err != nil) != (drain == 1) {
				p.Fail(id, "indirect", "draining %v: %v", drain == 1, err)
			}
			if err := t.IndirectHealth(bg, "n0", "n2"); err == nil {
				p.Fail(id, "gone", "the relay reaches a node that is not there (known %v)", gone == 1)
			}
			p.Outcome("%d", drain)
			g.stop()
		}
	}
}}

// formed: clusters built from configurations alone, with every mix of tokens.
var formed = kit.Scenario{Name: "formed", Plain: func(p *kit.P) {
	tokens := []string{"", "A", "B"}
	for mix := range 27 {
		for repl := 1; repl <= 3; repl++ {
			for self := range 2 {
				id := fmt.Sprintf("%d/%d/%d", mix, repl, self)
				if !p.Begin("%s", id) {
					continue
				}
				tok := []string{tokens[mix%3], tokens[mix/3%3], tokens[mix/9]}
				var nodes []*backend.DistMemory
				for try := 0; ; try++ {
					addr := []string{port(), port(), port()}
					var seeds []string
					for i, a := range addr {
						seeds = append(seeds, fmt.Sprintf("n%d@%s", i, a))
					}
					nodes = nil
					for i, a := range addr {
						mine := slices.Clone(seeds)
						if self == 0 {
							mine = slices.Delete(mine, i, i+1)
						}
						cfg := dist.Config{NodeID: fmt.Sprintf("n%d", i), AdvertiseAddr: a, Seeds: mine, Replication: repl, VirtualNodes: 16, WriteConsistency: int(backend.ConsistencyAll)}
						b, err := backend.NewDistMemoryWithConfig(bg, cfg, backend.WithDistHTTPAuth(backend.DistHTTPAuth{Token: tok[i]}), backend.WithDistLogger(slog.New(slog.DiscardHandler)))
						if err != nil {
							panic(err)
						}
						nodes = append(nodes, b.(*backend.DistMemory))
					}
					if up(addr[0]) && up(addr[1]) && up(addr[2]) || try == 20 {
						break
					}
					(&group{nodes: nodes}).stop() // somebody else took a port
				}
				lets := func(from, to int) bool { return from == to || tok[to] == "" || tok[to] == tok[from] }
				index := func(n cluster.NodeID) int { return int(n[1] - '0') }
				for i, n := range nodes {
					for j := range 6 {
						k := fmt.Sprintf("key%d-%d", i, j)
						o := n.Ring().Lookup(k)
						if len(o) != repl {
							p.Fail(id, "owners", "%q has owners %v, replication %d", k, o, repl)
							continue
						}
						// all calls of the write are let in
						owner, first := slices.Contains(o, n.LocalNodeID()), index(o[0])
						ok := lets(i, first)
						for _, x := range o[1:] {
							ok = ok && lets(first, index(x))
						}
						err := n.Set(bg, &cache.Item{Key: k, Value: "v"})
						if ok && err != nil {
							p.Fail(id, "set", "tokens %q: n%d.Set(%s) with owners %v: %v", tok, i, k, o, err)
						}
						// ... or the one the write starts with is not
						if err == nil && !ok && (!owner || repl == 1) && !lets(i, first) {
							p.Fail(id, "refused", "tokens %q: n%d.Set(%s) with owners %v succeeds", tok, i, k, o)
						}
						for x, m := range nodes {
							has := m.LocalContains(k)
							if ok && has != slices.Contains(o, m.LocalNodeID()) {
								p.Fail(id, "copies", "tokens %q: after n%d.Set(%s) with owners %v n%d has a copy: %v", tok, i, k, o, x, has)
							}
							reach := lets(i, x) // or through somebody else
							for y := range nodes {
								reach = reach || lets(i, y) && lets(y, x)
							}
							if has && !reach {
								p.Fail(id, "got", "tokens %q: n%d.Set(%s) reached n%d", tok, i, k, x)
							}
						}
						if it, found := n.Get(bg, k); ok && (!found || norm(it.Value) != norm("v")) {
							p.Fail(id, "get", "tokens %q: n%d.Get(%s) with owners %v: %v", tok, i, k, o, it)
						}
						p.Outcome("%v %v %d", ok, owner, repl)
					}
				}
				(&group{nodes: nodes}).stop()
			}
		}
	}
}}

// stopped: a node which is stopped does not listen, whenever that happens; one
// thread alone runs the server only once it lets go.
var stopped = kit.Scenario{Name: "stopped", Single: true, Plain: func(p *kit.P) {
	for _, yields := range []int{0, 1, 3, 10, -1} {
		for _, threads := range []int{1, 2, 8} {
			for try := range 3 {
				id := fmt.Sprintf("%d yields, %d threads, %d", yields, threads, try)
				if !p.Begin("%s", id) {
					continue
				}
				addr := port()
				build := func() *backend.DistMemory {
					ms := cluster.NewMembership(cluster.NewRing())
					b, err := backend.NewDistMemory(bg, backend.WithDistNode("n0", addr), backend.WithDistMembership(ms, cluster.NewNode("n0", addr)), backend.WithDistLogger(slog.New(slog.DiscardHandler)))
					if err != nil {
						p.Fail(id, "new", "%s: %v", id, err)
						return nil
					}
					return b.(*backend.DistMemory)
				}
				old := runtime.GOMAXPROCS(threads)
				dm := build()
				if yields < 0 && !up(addr) {
					p.Fail(id, "deaf", "%s: the node does not listen", id)
				}
				for range yields {
					runtime.Gosched()
				}
				err := dm.Stop(bg)
				runtime.GOMAXPROCS(old)
				if err != nil {
					p.Fail(id, "stop", "%s: %v", id, err)
				}
				time.Sleep(20 * time.Millisecond)
				if up(addr) {
					err := client(addr, backend.DistHTTPLimits{}, backend.DistHTTPAuth{}).Health(bg, "n0")
					p.Fail(id, "up", "%s: a stopped node accepts connections, its health is %v", id, err)
					continue
				}
				dm = build() // its place is free
				if dm == nil || !up(addr) {
					p.Fail(id, "again", "%s: the next node does not listen", id)
				}
				for range 2 {
					if err := dm.Stop(bg); err != nil {
						p.Fail(id, "stop-twice", "%s: %v", id, err)
					}
				}
				p.Outcome("%d %d", yields, threads)
			}
		}
	}
}}

func main() {
	kit.Main(
		twins("twins-1", 1, 3, 4, false, backend.ConsistencyOne),
		twins("twins-2", 2, 3, 4, false, backend.ConsistencyAll),
		twins("twins-3", 3, 3, 4, false, backend.ConsistencyQuorum),
		twins("twins-gone", 2, 3, 4, true, backend.ConsistencyOne),
		twins("twins-gone-3", 3, 3, 4, true, backend.ConsistencyQuorum),
		items, ages, removals, listings, formed, access, signing, sizes, bulk, states, stopped,
	)
}
