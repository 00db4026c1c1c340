// C37: the management port tells what is, and lets in whom its gates let in.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	fiber "github.com/gofiber/fiber/v3"
	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/web"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

var bg = context.Background()

// base is a cache which notes what is asked of it.
type base struct {
	mu    sync.Mutex
	calls []string
	n     int // the generation of the answers
	size  int // how much more there is of everything
	clear func(ctx context.Context) error
	evict func(ctx context.Context)
}

func (b *base) note(s string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, s)
}

func (b *base) take() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	c := b.calls
	b.calls = nil
	return c
}

func (b *base) stats() stats.Stats {
	s := stats.Stats{"x": {Mean: 1.5, Median: 2, Min: -3, Max: int64(b.n), Values: []int64{1, 2, int64(b.n)}, Count: 3, Sum: 9, Variance: 0.25}, "y\n\"": {}}
	for i := range b.size {
		s["x"].Values = append(s["x"].Values, int64(i))
		if i%10 == 0 {
			s[fmt.Sprint("s", i)] = &stats.Stat{Count: i}
		}
	}
	return s
}

func (b *base) GetStats() stats.Stats             { b.note("stats"); return b.stats() }
func (b *base) Capacity() int                     { b.note("config"); return 10 + b.n }
func (b *base) Allocation() int64                 { return 20 + int64(b.n) }
func (b *base) MaxCacheSize() int64               { return 30 + int64(b.n) }
func (b *base) EvictionInterval() time.Duration   { return time.Duration(40+b.n) * time.Second }
func (b *base) ExpirationInterval() time.Duration { return time.Duration(50+b.n) * time.Millisecond }
func (b *base) EvictionAlgorithm() string         { return fmt.Sprintf("algo%d", b.n) }
func (b *base) TriggerExpiration()                { b.note("expire") }
func (b *base) TriggerEviction(ctx context.Context) {
	b.note("evict")
	if b.evict != nil {
		b.evict(ctx)
	}
}
func (b *base) Clear(ctx context.Context) error {
	b.note("clear")
	if b.clear != nil {
		return b.clear(ctx)
	}
	return nil
}

func (b *base) self() *base { return b }

// dist adds what a distributed cache tells.
type dist struct {
	b  *base
	no bool // no metrics
}

func (d dist) metrics() map[string]any { return map[string]any{"forwards": 100 + d.b.n} }
func (d dist) DistMetrics() any {
	d.b.note("metrics")
	if d.no {
		return nil
	}
	return d.metrics()
}
func (d dist) ClusterOwners(key string) []string {
	d.b.note("owners")
	o := []string{"of " + key, fmt.Sprint("n", d.b.n)}
	for i := range d.b.size {
		o = append(o, fmt.Sprint("o", i))
	}
	return o
}

type member = struct {
	ID          string
	Address     string
	State       string
	Incarnation uint64
}

// intro adds the membership.
type intro struct {
	b    *base
	also func() // while the membership is read
}

func (i intro) DistMembershipSnapshot() ([]member, int, int) {
	i.b.note("members")
	if i.also != nil {
		i.also()
	}
	m := []member{{"a", "a:1", "alive", uint64(i.b.n)}, {"b", "b:1", "suspect", 1 << 60}}
	for j := range i.b.size {
		m = append(m, member{fmt.Sprint("m", j), fmt.Sprint("m:", j), [...]string{"alive", "dead", "suspect"}[j%3], uint64(j)})
	}
	return m, 60 + i.b.n, 70 + i.b.n
}
func (i intro) DistRingHashSpots() []string {
	i.b.note("ring")
	l := []string{"ff", fmt.Sprint(i.b.n), "03"}
	for j := range i.b.size {
		l = append(l, fmt.Sprintf("%x", j*7919))
	}
	return l
}
func (i intro) DistHeartbeatMetrics() any {
	i.b.note("heartbeat")
	return map[string]any{"heartbeatSuccess": 80 + i.b.n}
}

// bus adds the events.
type bus struct {
	b  *base
	eb *eventbus.Bus
}

func (e bus) EventBus() *eventbus.Bus { return e.eb }

// cache is what the server needs.
type cache interface {
	GetStats() stats.Stats
	Capacity() int
	Allocation() int64
	MaxCacheSize() int64
	TriggerEviction(ctx context.Context)
	TriggerExpiration()
	EvictionInterval() time.Duration
	ExpirationInterval() time.Duration
	EvictionAlgorithm() string
	Clear(ctx context.Context) error
	self() *base
}

// kinds are the caches there are: those which tell less, and more.
var kinds = []struct {
	name             string
	dist, intro, bus bool
	noMetrics, noBus bool
	make             func(b *base, eb *eventbus.Bus) cache
}{
	{"all", true, true, true, false, false, func(b *base, eb *eventbus.Bus) cache {
		return struct {
			*base
			dist
			intro
			bus
		}{b, dist{b: b}, intro{b: b}, bus{b, eb}}
	}},
	{"plain", false, false, false, false, false, func(b *base, _ *eventbus.Bus) cache { return b }},
	{"distributed", true, false, false, false, false, func(b *base, _ *eventbus.Bus) cache {
		return struct {
			*base
			dist
		}{b, dist{b: b}}
	}},
	{"members", false, true, false, false, false, func(b *base, _ *eventbus.Bus) cache {
		return struct {
			*base
			intro
		}{b, intro{b: b}}
	}},
	{"events", false, false, true, false, false, func(b *base, eb *eventbus.Bus) cache {
		return struct {
			*base
			bus
		}{b, bus{b, eb}}
	}},
	{"not distributed", true, true, true, true, true, func(b *base, _ *eventbus.Bus) cache {
		return struct {
			*base
			dist
			intro
			bus
		}{b, dist{b: b, no: true}, intro{b: b}, bus{b, nil}}
	}},
}

// client talks to one server, one connection per request.
var client = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 3 * web.Patience}

type ans struct {
	status int
	body   string
	hdr    http.Header
}

func (a ans) String() string { return fmt.Sprintf("%d %.200q", a.status, a.body) }

func (a ans) json() (out any) {
	_ = json.Unmarshal([]byte(a.body), &out)
	return
}

func call(addr, method, path string, body string, hdr ...string) ans {
	req, err := http.NewRequest(method, "http://"+addr+path, strings.NewReader(body))
	if err != nil {
		return ans{status: -1, body: err.Error()}
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	resp, err := client.Do(req)
	if err != nil {
		return ans{status: -1, body: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return ans{status: -2, body: err.Error()}
	}
	return ans{resp.StatusCode, string(b), resp.Header}
}

func asJSON(v any) (out any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	_ = json.Unmarshal(b, &out)
	return
}

func start(p *kit.P, id string, c cache, opts ...hypercache.ManagementHTTPOption) (*hypercache.ManagementHTTPServer, string) {
	s := hypercache.NewManagementHTTPServer(web.Addr(), opts...)
	if err := s.Start(bg, c); err != nil {
		p.Fail(id, "start", "%s: Start: %v", id, err)
	}
	return s, s.Address()
}

// shutdown must end the server.
func shutdown(p *kit.P, id string, s *hypercache.ManagementHTTPServer) {
	addr := s.Address()
	ctx, cancel := context.WithTimeout(bg, web.Patience)
	defer cancel()
	if err := s.Shutdown(ctx); err != nil {
		p.Fail(id, "shutdown", "%s: Shutdown: %v", id, err)
	}
	if web.Up(addr) {
		p.Fail(id, "up", "%s: the server still accepts connections after Shutdown", id)
	}
	if err := s.LastServeError(); err != nil {
		p.Fail(id, "serve-error", "%s: after a clean Shutdown the serve error is %v", id, err)
	}
}

type route struct {
	method, path string
	control      bool
	open         bool
	effect       string // the call that it makes, when allowed
	status       int
}

var routes = []route{
	{"GET", "/health", false, true, "", 200},
	{"GET", "/stats", false, false, "stats", 200},
	{"GET", "/config", false, false, "config", 200},
	{"GET", "/dist/metrics", false, false, "metrics", 200},
	{"GET", "/dist/owners?key=k", false, false, "owners", 200},
	{"GET", "/cluster/members", false, false, "members", 200},
	{"GET", "/cluster/ring", false, false, "ring", 200},
	{"GET", "/cluster/heartbeat", false, false, "heartbeat", 200},
	{"POST", "/evict", true, false, "evict", 202},
	{"POST", "/trigger-expiration", true, false, "expire", 202},
	{"POST", "/clear", true, false, "clear", 200},
	{"GET", "/cluster/events", false, false, "members", 200}, // last: a stream
}

// gate lets some credentials in.
type gate struct {
	name string
	n    int
	mu   sync.Mutex
	ok   []string
	code int
}

func (g *gate) f(c fiber.Ctx) error {
	g.mu.Lock()
	g.n++
	g.mu.Unlock()
	for _, o := range g.ok {
		if c.Get("X-Cred") == o {
			return nil
		}
	}
	return fiber.NewError(g.code, g.name+" says no")
}

func (g *gate) take() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := g.n
	g.n = 0
	return n
}

// variants are other spellings of a path, which may or may not lead to it.
func variants(path string) []string {
	p, q, _ := strings.Cut(path, "?")
	if q != "" {
		q = "?" + q
	}
	return []string{path, p + "/" + q, strings.ToUpper(p) + q, "/" + p + q, p[:1] + fmt.Sprintf("%%%02x", p[1]) + p[2:] + q, "/x/.." + p + q, p + "/x" + q, p + "%00" + q}
}

var gates = kit.Scenario{Name: "gates", Plain: func(p *kit.P) {
	for posture := range 4 {
		for ri, r := range routes {
			id := fmt.Sprintf("posture %d, %s %s", posture, r.method, r.path)
			if !p.Begin("%s", id) {
				continue
			}
			read := &gate{name: "read", ok: []string{"reader", "admin"}, code: 401}
			ctrl := &gate{name: "control", ok: []string{"admin", "operator"}, code: 403}
			var opts []hypercache.ManagementHTTPOption
			var want *gate
			if posture&1 != 0 {
				opts = append(opts, hypercache.WithMgmtAuth(read.f))
				want = read
			}
			if posture&2 != 0 {
				opts = append(opts, hypercache.WithMgmtControlAuth(ctrl.f))
				if r.control {
					want = ctrl
				}
			}
			if r.open {
				want = nil
			}
			b := &base{}
			s, addr := start(p, id, kinds[0].make(b, eventbus.New()), opts...)
			events := ri == len(routes)-1
			for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"} {
				for _, cred := range []string{"", "reader", "operator", "admin", "nobody"} {
					paths := variants(r.path)
					if m != r.method && m != "HEAD" || events {
						paths = paths[:1]
					}
					for v, path := range paths {
						allowed := want == nil
						if want != nil {
							for _, o := range want.ok {
								allowed = allowed || o == cred
							}
						}
						if events && allowed && m == "GET" {
							continue // streams have their own scenario
						}
						a := call(addr, m, path, "", "X-Cred", cred)
						calls, nr, nc := b.take(), read.take(), ctrl.take()
						p.Steps++
						p.Outcome("%d %d %d", a.status, nr, nc)
						name := fmt.Sprintf("%s: %s %s as %q: %v, gates %d/%d, calls %v", id, m, path, cred, a, nr, nc, calls)
						served := m == r.method || m == "HEAD" && r.method == "GET"
						n := 0
						switch {
						case len(calls) > 0 && (!served || !allowed):
							p.Fail(id, "effect", "%s", name)
						case v > 0 && a.status >= 400: // not found
							continue
						case v > 0:
							// it leads there: then as the path itself
						case a.status < 0:
							p.Fail(id, "answer", "%s", name)
						}
						if !served {
							if a.status != 405 && a.status != 404 {
								p.Fail(id, "method", "%s", name)
							}
							continue
						}
						if want != nil {
							n = 1
						}
						if wr, wc := n*b2i(want == read), n*b2i(want == ctrl); nr != wr || nc != wc {
							p.Fail(id, "gates", "%s, want the gates asked %d/%d", name, wr, wc)
						}
						if !allowed {
							if a.status != want.code || m != "HEAD" && a.body != want.name+" says no" {
								p.Fail(id, "let-in", "%s", name)
							}
							continue
						}
						if events {
							continue
						}
						if a.status != r.status || r.effect != "" && (len(calls) != 1 || calls[0] != r.effect) && !(r.effect == "config" && fmt.Sprint(calls) == "[config members]") {
							p.Fail(id, "kept-out", "%s", name)
						}
					}
				}
			}
			shutdown(p, id, s)
		}
	}
}}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// content: every route tells what the cache says now.
var content = kit.Scenario{Name: "content", Plain: func(p *kit.P) {
	for _, k := range kinds {
		for _, again := range []bool{false, true} {
			id := fmt.Sprintf("%s, %v", k.name, again)
			if !p.Begin("%s", id) {
				continue
			}
			b := &base{}
			var eb *eventbus.Bus
			if k.bus && !k.noBus {
				eb = eventbus.New()
			}
			s, addr := start(p, id, k.make(b, eb))
			for n := range 3 {
				b.n = n
				if again {
					b.n = 2 - n
				}
				n := b.n
				check := func(path string, status int, want any) {
					p.Steps++
					a := call(addr, "GET", path, "")
					p.Outcome("%s %d", path, a.status)
					if a.status != status {
						p.Fail(id, "status:"+path, "%s: %s: %v, want %d", id, path, a, status)
						return
					}
					if m, ok := a.json().(map[string]any); status >= 400 && (!ok || m["error"] == nil || m["error"] == "") {
						p.Fail(id, "error:"+path, "%s: %s: %v does not say what is wrong", id, path, a)
					}
					if want != nil && !reflect.DeepEqual(a.json(), asJSON(want)) {
						p.Fail(id, "content:"+path, "%s: %s: %v, want %v", id, path, a, asJSON(want))
					}
				}
				if a := call(addr, "GET", "/health", ""); a.status != 200 || a.body != "ok" {
					p.Fail(id, "health", "%s: %v", id, a)
				}
				check("/stats", 200, b.stats())
				cfg := map[string]any{"capacity": 10 + n, "allocation": 20 + n, "maxCacheSize": 30 + n, "evictionInterval": b.EvictionInterval().String(),
					"expirationInterval": b.ExpirationInterval().String(), "evictionAlgorithm": b.EvictionAlgorithm()}
				if k.intro {
					cfg["replication"], cfg["virtualNodesPerNode"] = 60+n, 70+n
				}
				check("/config", 200, cfg)
				if k.dist {
					if k.noMetrics {
						check("/dist/metrics", 404, nil)
					} else {
						check("/dist/metrics", 200, map[string]any{"forwards": 100 + n})
					}
					for _, q := range [][2]string{{"k", "k"}, {"a%20b", "a b"}, {"a+b", "a b"}, {"a%2Bb", "a+b"}, {"%C3%BC%26%3D%23", "ü&=#"}, {"%22%0A", "\"\n"}, {strings.Repeat("k", 1000), strings.Repeat("k", 1000)}} {
						check("/dist/owners?key="+q[0], 200, map[string]any{"key": q[1], "owners": []string{"of " + q[1], fmt.Sprint("n", n)}})
					}
					check("/dist/owners", 400, nil)
					check("/dist/owners?key=", 400, nil)
				} else {
					check("/dist/metrics", 404, nil)
					check("/dist/owners?key=k", 404, nil)
					check("/dist/owners", 404, nil)
				}
				if k.intro {
					m, r, v := intro{b: b}.DistMembershipSnapshot()
					check("/cluster/members", 200, map[string]any{"members": m, "replication": r, "virtualNodes": v})
					check("/cluster/ring", 200, map[string]any{"count": 3, "vnodes": intro{b: b}.DistRingHashSpots()})
					check("/cluster/heartbeat", 200, intro{b: b}.DistHeartbeatMetrics())
				} else {
					check("/cluster/members", 404, nil)
					check("/cluster/ring", 404, nil)
					check("/cluster/heartbeat", 404, nil)
				}
				if !k.bus || k.noBus || !k.intro {
					check("/cluster/events", 503, nil)
				}
				b.take()
				for _, f := range []error{nil, errors.New("cannot"), nil} {
					b.clear = func(ctx context.Context) error {
						if ctx.Err() != nil {
							p.Fail(id, "ctx", "%s: Clear gets a context which is over", id)
						}
						return f
					}
					a := call(addr, "POST", "/clear", "")
					if c := b.take(); len(c) != 1 || (a.status == 200) != (f == nil) || f != nil && a.status < 500 {
						p.Fail(id, "clear", "%s: clearing which gives %v: %v", id, f, a)
					}
				}
			}
			shutdown(p, id, s)
		}
	}
}}

// sized: answers and events of many sizes, and many events.
var sized = kit.Scenario{Name: "sized", Plain: func(p *kit.P) {
	most, clients := 1100, 100
	if p.Deep() {
		most, clients = 5200, 300
	}
	for _, n := range kit.Sizes(most) {
		id := fmt.Sprint("size ", n)
		if !p.Begin("%s", id) {
			continue
		}
		b := &base{n: 1, size: n}
		eb := eventbus.New()
		s, addr := start(p, id, kinds[0].make(b, eb))
		m, r, v := intro{b: b}.DistMembershipSnapshot()
		members := map[string]any{"members": m, "replication": r, "virtualNodes": v}
		key := strings.Repeat("k", min(n, 3000)+1)
		for path, want := range map[string]any{
			"/stats": b.stats(), "/cluster/members": members,
			"/cluster/ring":           map[string]any{"count": 3 + n, "vnodes": intro{b: b}.DistRingHashSpots()},
			"/dist/owners?key=" + key: map[string]any{"key": key, "owners": dist{b: b}.ClusterOwners(key)},
		} {
			if a := call(addr, "GET", path, ""); a.status != 200 || !reflect.DeepEqual(a.json(), asJSON(want)) {
				p.Fail(id, "content", "%s: %.40s: %v", id, path, a)
			}
		}
		x := open(addr)
		if e := x.initial(asJSON(members), asJSON(intro{b: b}.DistHeartbeatMetrics())); e != "" {
			p.Fail(id, "initial", "%s: %.300s", id, e)
		}
		for i := range n {
			eb.Publish(eventbus.Event{Type: "members", Payload: i})
			if f, ok := x.next(); !ok || f.bad != "" || f.data != fmt.Sprint(i) {
				p.Fail(id, "event", "%s: event %d: %+v", id, i, f)
				break
			}
		}
		for _, w := range []any{strings.Repeat("x", n), strings.Repeat("x", 100*n), intro{b: b}.DistRingHashSpots()} {
			eb.Publish(eventbus.Event{Type: "t" + strings.Repeat("y", n), Payload: w})
			if f, ok := x.next(); !ok || f.bad != "" || len(f.event) != n+1 || !reflect.DeepEqual(f.json(), asJSON(w)) {
				p.Fail(id, "event", "%s: an event of %d bytes: %d bytes of type %.20s", id, n, len(f.data), f.event)
			}
		}
		if n <= clients {
			ss := []*stream{x}
			for range n {
				y := open(addr)
				if e := y.initial(asJSON(members), asJSON(intro{b: b}.DistHeartbeatMetrics())); e != "" {
					p.Fail(id, "initial", "%s: client %d: %.300s", id, len(ss), e)
				}
				ss = append(ss, y)
			}
			if k := eb.SubscriberCount(); k != n+1 {
				p.Fail(id, "subscribers", "%s: %d subscribers", id, k)
			}
			for round := range 2 {
				eb.Publish(eventbus.Event{Type: "all", Payload: round})
				for i, y := range ss {
					if f, ok := y.next(); !ok || f.event != "all" || f.data != fmt.Sprint(round) {
						p.Fail(id, "event", "%s: client %d: %+v", id, i, f)
					}
				}
			}
			for _, y := range ss[1:] {
				y.cancel()
			}
		}
		shutdown(p, id, s)
		if !x.ended() {
			p.Fail(id, "end", "%s: the stream does not end with Shutdown", id)
		}
		p.Outcome("%v", n > 64)
	}
}}

func main() {
	kit.Main(gates, content, sized, streams, crowds, lifecycle, atOnce, inflight, limits, caches, followed)
}
