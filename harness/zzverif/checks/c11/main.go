// C11: what a client call says is what goes over the wire, and back.
package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

var ctx = context.Background()

// keys: alphabet strings up to a length, and special ones.
func keys(deep bool) []string {
	al := []string{"a", "/", "%", " ", "?", "#", "+", "é", ":", "&", "=", ".", ";", "\x00", "\"", "\\", "世", "%2F", "\xff", "~"}
	out := []string{"session:user-42", "a/b/c", "%2e%2e", "key with spaces", "🙂", strings.Repeat("k", 300)}
	for _, a := range al {
		if a != "." {
			out = append(out, a)
		}
		for _, b := range al {
			if a+b != ".." {
				out = append(out, a+b)
			}
			if deep {
				for _, c := range al {
					out = append(out, a+b+c)
				}
			}
		}
	}
	return out
}

var ttls = []time.Duration{0, -1, -time.Second, 1, 999, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1500 * time.Microsecond,
	time.Second, 1500 * time.Millisecond, time.Minute, 90 * time.Minute, 1000 * time.Hour, time.Duration(1<<63 - 1), time.Duration(-1 << 63)}

func values() [][]byte {
	out := [][]byte{nil, {}, []byte("v"), []byte("hello world"), []byte("dGVzdA=="), []byte(`{"a":1}`), {0}, {0xff, 0xfe}, []byte("a\nb\r\n"), []byte("é世")}
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	return append(out, all, slices.Repeat([]byte("x"), 70000))
}

type rig struct {
	net *fake.Net
	c   *client.Client
}

func newRig(do func(fake.Req) fake.Ans) *rig {
	n := &fake.Net{Do: do}
	c, err := client.New([]string{"http://h:1"}, client.WithHTTPClient(n.Client()))
	if err != nil {
		panic(err)
	}
	return &rig{n, c}
}

func (r *rig) last() fake.Req { return r.net.Log[len(r.net.Log)-1] }

// keyOf decodes the key a request addresses: one escaped path segment.
func keyOf(q fake.Req) (string, bool) {
	path, _, _ := strings.Cut(q.URI, "?")
	seg, ok := strings.CutPrefix(path, "/v1/cache/")
	if !ok || strings.Contains(seg, "/") {
		return "", false
	}
	k, err := url.PathUnescape(seg)
	return k, err == nil
}

func single(p *kit.P) {
	for _, key := range keys(p.Deep()) {
		id := fmt.Sprintf("key=%q", key)
		if !p.Begin("%s", id) {
			continue
		}
		r := newRig(func(q fake.Req) fake.Ans {
			if q.Method == http.MethodGet && q.Header.Get("Accept") == "application/json" {
				b, _ := json.Marshal(map[string]any{"key": "k", "value": "dg=="})
				return fake.Ans{Status: 200, Body: string(b)}
			}
			return fake.Ans{Status: 200, Body: "v"}
		})
		calls := []struct {
			method string
			f      func() error
		}{
			{http.MethodPut, func() error { return r.c.Set(ctx, key, []byte("v"), time.Second) }},
			{http.MethodGet, func() error { _, err := r.c.Get(ctx, key); return err }},
			{http.MethodGet, func() error { _, err := r.c.GetItem(ctx, key); return err }},
			{http.MethodDelete, func() error { return r.c.Delete(ctx, key) }},
		}
		for i, call := range calls {
			n := len(r.net.Log)
			if err := call.f(); err != nil {
				p.Fail(id, "call", "call %d: %v", i, err)
				return
			}
			if len(r.net.Log) != n+1 {
				p.Fail(id, "call", "call %d sent %d requests", i, len(r.net.Log)-n)
				return
			}
			q := r.last()
			if k, ok := keyOf(q); !ok || k != key || q.Method != call.method {
				p.Fail(id, "key", "call %d for key %q went to %s %s (key %q)", i, key, q.Method, q.URI, k)
				return
			}
			if q.Method != http.MethodPut && (q.RawQuery != "" || len(q.Body) != 0) {
				p.Fail(id, "request", "call %d carries query %q body %q", i, q.RawQuery, q.Body)
				return
			}
		}
		p.Outcome("ok")
	}
}

func set(p *kit.P) {
	for _, ttl := range ttls {
		for vi, v := range values() {
			id := fmt.Sprintf("ttl=%s value=%d", ttl, vi)
			if !p.Begin("%s", id) {
				continue
			}
			var stored []byte
			r := newRig(func(q fake.Req) fake.Ans {
				if q.Method == http.MethodPut {
					stored = q.Body
					return fake.Ans{Status: 200}
				}
				return fake.Ans{Status: 200, Body: string(stored)}
			})
			if err := r.c.Set(ctx, "k", v, ttl); err != nil {
				p.Fail(id, "call", "%v", err)
				return
			}
			q := r.last()
			vals, err := url.ParseQuery(q.RawQuery)
			if err != nil || len(vals) > 1 {
				p.Fail(id, "ttl", "query %q: %v", q.RawQuery, err)
				return
			}
			if ttl > 0 {
				d, err := time.ParseDuration(vals.Get("ttl"))
				if err != nil || d != ttl {
					p.Fail(id, "ttl", "TTL %s sent as %q (%v)", ttl, q.RawQuery, err)
					return
				}
			} else if q.RawQuery != "" {
				p.Fail(id, "ttl", "no expiry sent as %q", q.RawQuery)
				return
			}
			if string(q.Body) != string(v) {
				p.Fail(id, "value", "value of %d bytes sent as %d bytes", len(v), len(q.Body))
				return
			}
			got, err := r.c.Get(ctx, "k")
			if err != nil || string(got) != string(v) {
				p.Fail(id, "value", "Get returned %d bytes of %d: %v", len(got), len(v), err)
				return
			}
			p.Outcome("%v", ttl > 0)
		}
	}
}

type field struct {
	name string
	set  func(env map[string]any, it *client.Item)
}

var fields = []field{
	{"ttl", func(e map[string]any, i *client.Item) { e["ttl_ms"] = 1500; i.TTLMs = 1500 }},
	{"exp", func(e map[string]any, i *client.Item) {
		e["expires_at"] = "2030-01-02T03:04:05Z"
		i.ExpiresAt = "2030-01-02T03:04:05Z"
	}},
	{"ver", func(e map[string]any, i *client.Item) { e["version"] = uint64(1<<64 - 1); i.Version = 1<<64 - 1 }},
	{"org", func(e map[string]any, i *client.Item) { e["origin"] = "n-origin"; i.Origin = "n-origin" }},
	{"upd", func(e map[string]any, i *client.Item) {
		e["last_updated"] = "2029-01-01T00:00:00Z"
		i.LastUpdated = "2029-01-01T00:00:00Z"
	}},
	{"own", func(e map[string]any, i *client.Item) {
		e["owners"] = []string{"p", "r"}
		i.Owners = []string{"p", "r"}
	}},
	{"node", func(e map[string]any, i *client.Item) { e["node"] = "n-served"; i.Node = "n-served" }},
	{"big", func(e map[string]any, i *client.Item) {
		e["ttl_ms"], e["version"] = int64(1<<62+1), uint64(1<<63+1)
		i.TTLMs, i.Version = 1<<62+1, 1<<63+1
		e["origin"], e["expires_at"] = " N\u00e9 ", "2030-01-02T03:04:05.123456789+02:00"
		i.Origin, i.ExpiresAt = " N\u00e9 ", "2030-01-02T03:04:05.123456789+02:00"
	}},
	{"enc", func(e map[string]any, i *client.Item) { e["value_encoding"] = "base64" }},
	{"extra", func(e map[string]any, i *client.Item) { e["new_field"] = map[string]any{"x": 1} }},
}

// items: every subset of envelope fields, every value, single and batch.
func items(p *kit.P) {
	for mask := 0; mask < 1<<len(fields); mask++ {
		for vi, v := range values() {
			if vi >= 11 && mask > 0 {
				continue
			}
			id := fmt.Sprintf("mask=%x value=%d", mask, vi)
			if !p.Begin("%s", id) {
				continue
			}
			env := map[string]any{"key": "the key", "value": base64.StdEncoding.EncodeToString(v)}
			want := client.Item{Key: "the key", Value: v}
			for i, f := range fields {
				if mask>>i&1 == 1 {
					f.set(env, &want)
				}
			}
			b, _ := json.Marshal(env)
			r := newRig(func(q fake.Req) fake.Ans {
				if q.Method == http.MethodPost {
					e2 := map[string]any{"found": true}
					for k, v := range env {
						e2[k] = v
					}
					delete(e2, "node")
					body := map[string]any{"results": []any{map[string]any{"key": "miss", "found": false}, e2}, "node": want.Node}
					b, _ := json.Marshal(body)
					return fake.Ans{Status: 200, Body: string(b)}
				}
				return fake.Ans{Status: 200, Body: string(b)}
			})
			it, err := r.c.GetItem(ctx, "the key")
			if err != nil || !same(*it, want) {
				p.Fail(id, "item", "envelope %s gave %+v, %v", clip(b), it, err)
				return
			}
			res, err := r.c.BatchGet(ctx, []string{"miss", "the key"})
			if err != nil || len(res) != 2 || res[0].Found || res[0].Item != nil || res[0].Key != "miss" || !res[1].Found || res[1].Key != "the key" || res[1].Item == nil || !same(*res[1].Item, want) {
				p.Fail(id, "batch-item", "batch envelope %s gave %+v, %v", clip(b), res, err)
				return
			}
			p.Outcome("%d", vi)
		}
	}
}

func clip(b []byte) string { return string(b[:min(len(b), 300)]) }

func same(a, b client.Item) bool {
	va, vb := a.Value, b.Value
	a.Value, b.Value = nil, nil
	if len(a.Owners) == 0 && len(b.Owners) == 0 {
		a.Owners, b.Owners = nil, nil
	}
	return string(va) == string(vb) && reflect.DeepEqual(a, b)
}

// malformed: an answer that makes no sense is an error, not a value.
func malformed(p *kit.P) {
	bodies := []string{"", "{", "null,", "[]", `"x"`, `{"value":5}`, `{"value":"***","value_encoding":"base64"}`, `{"value":"dg"}`, "<html>",
		`{"results":5}`, `{"results":[{"found":true,"value":"***"}]}`, `{"results":[{"key":5}]}`, `{"id":5,"allowed":"yes","members":7}`}
	type call struct {
		name string
		f    func(c *client.Client) error
		bad  func(i int) bool
	}
	all := func(int) bool { return true }
	calls := []call{
		{"GetItem", func(c *client.Client) error { _, err := c.GetItem(ctx, "k"); return err }, func(i int) bool { return i < 9 && i != 2 || i == 2 }},
		{"BatchGet", func(c *client.Client) error { _, err := c.BatchGet(ctx, []string{"k"}); return err }, func(i int) bool { return i < 5 || i >= 8 && i < 12 }},
		{"BatchSet", func(c *client.Client) error { _, err := c.BatchSet(ctx, []client.BatchSetItem{{Key: "k"}}); return err }, func(i int) bool { return i < 5 || i == 8 || i == 9 || i == 11 }},
		{"BatchDelete", func(c *client.Client) error { _, err := c.BatchDelete(ctx, []string{"k"}); return err }, func(i int) bool { return i < 5 || i == 8 || i == 9 || i == 11 }},
		{"Identity", func(c *client.Client) error { _, err := c.Identity(ctx); return err }, func(i int) bool { return i < 5 || i == 8 || i == 12 }},
		{"Can", func(c *client.Client) error {
			ok, err := c.Can(ctx, "x")
			if ok {
				return nil
			}
			return err
		}, func(i int) bool { return i < 5 || i == 8 || i == 12 }},
		{"RefreshTopology", func(c *client.Client) error { return c.RefreshTopology(ctx) }, func(i int) bool { return i < 5 || i == 8 || i == 12 }},
	}
	_ = all
	for i, b := range bodies {
		if i == 2 {
			continue // a JSON null followed by garbage decodes as an empty answer
		}
		for _, c := range calls {
			if !c.bad(i) {
				continue
			}
			id := fmt.Sprintf("%s body=%q", c.name, b)
			if !p.Begin("%s", id) {
				continue
			}
			r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: b} })
			if err := c.f(r.c); err == nil {
				p.Fail(id, "malformed", "%s accepted the answer %q", c.name, b)
			}
			p.Outcome("rejected")
		}
	}
	// a value that is only almost base64
	for _, v := range []string{"YWJj!", "YWJj!!!!", "YWJjZA", "YWJjZA=", "YWJjZA===", "YWJjZA==YWJj", "YWJj YWJj", "=", "YQ", "YWJj_-__", "YWJj\u0000"} {
		for i, c := range calls[:2] {
			body := []string{`{"key":"k","value":"` + v + `","value_encoding":"base64"}`, `{"results":[{"key":"k","found":true,"value":"` + v + `","value_encoding":"base64"}]}`}[i]
			id := fmt.Sprintf("%s value=%q", c.name, v)
			if !p.Begin("%s", id) {
				continue
			}
			r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: body} })
			if err := c.f(r.c); err == nil {
				p.Fail(id, "malformed", "%s accepted the value %q as base64", c.name, v)
			}
			p.Outcome("rejected")
		}
	}
	// an answer cut off in the middle
	for _, c := range append(calls, call{"Get", func(c *client.Client) error { _, err := c.Get(ctx, "k"); return err }, all}) {
		for _, b := range []string{"", "par", `{"id":"x"`} {
			id := fmt.Sprintf("%s cut after %q", c.name, b)
			if !p.Begin("%s", id) {
				continue
			}
			r := newRig(func(fake.Req) fake.Ans {
				return fake.Ans{Status: 200, Body: b, BodyErr: errors.New("connection reset")}
			})
			if err := c.f(r.c); err == nil {
				p.Fail(id, "malformed", "%s accepted an answer cut off after %q", c.name, b)
			}
			p.Outcome("rejected")
		}
	}
}

// batchRequests: what is sent.
func batchRequests(p *kit.P) {
	vs := values()[:10]
	ks := []string{"a", "b/c", "", "..", "é", "a"}
	for n := 0; n <= 4; n++ {
		total := 1
		for range n {
			total *= len(ttls)
		}
		step := 1
		if n >= 3 {
			step = 7
			if p.Deep() {
				step = 1
			}
		}
		if n == 4 {
			step *= 53
		}
		for x := 0; x < total; x += step {
			id := fmt.Sprintf("n=%d x=%d", n, x)
			if !p.Begin("%s", id) {
				continue
			}
			var in []client.BatchSetItem
			var names []string
			y := x
			for i := range n {
				in = append(in, client.BatchSetItem{Key: ks[(x+i)%len(ks)], Value: vs[(x+3*i)%len(vs)], TTL: ttls[y%len(ttls)]})
				names = append(names, in[i].Key)
				y /= len(ttls)
			}
			r := newRig(func(q fake.Req) fake.Ans {
				// the server's answer names every key
				var d struct {
					Keys  []string
					Items []struct{ Key string }
				}
				_ = json.Unmarshal(q.Body, &d)
				var rs []map[string]any
				for _, it := range d.Items {
					d.Keys = append(d.Keys, it.Key)
				}
				for _, k := range d.Keys {
					rs = append(rs, map[string]any{"key": k, "stored": true, "deleted": true, "bytes": 3, "owners": []string{"n1"}})
				}
				b, _ := json.Marshal(map[string]any{"results": rs, "node": "n"})
				return fake.Ans{Status: 200, Body: string(b)}
			})
			res, err := r.c.BatchSet(ctx, in)
			if err != nil || res == nil || len(res) != n {
				p.Fail(id, "batch", "BatchSet of %d items: %v, %v", n, res, err)
				return
			}
			if n == 0 {
				g, e1 := r.c.BatchGet(ctx, nil)
				d, e2 := r.c.BatchDelete(ctx, []string{})
				if len(r.net.Log) != 0 || e1 != nil || e2 != nil || g == nil || d == nil || len(g)+len(d) != 0 {
					p.Fail(id, "batch-empty", "empty batches sent %d requests: %v %v %v %v", len(r.net.Log), g, d, e1, e2)
					return
				}
				continue
			}
			for i, x := range res {
				if x.Key != in[i].Key || !x.Stored || x.Bytes != 3 || x.Err != nil || !slices.Equal(x.Owners, []string{"n1"}) {
					p.Fail(id, "batch", "result %d: %+v", i, x)
					return
				}
			}
			q := r.last()
			var body struct {
				Items []struct {
					Key, Value    string
					ValueEncoding string `json:"value_encoding"`
					TTL           int64  `json:"ttl_ms"`
				}
			}
			if err := json.Unmarshal(q.Body, &body); err != nil || q.Method != http.MethodPost || q.URI != "/v1/cache/batch/put" || len(body.Items) != n {
				p.Fail(id, "batch-wire", "%s %s %s: %v", q.Method, q.URI, q.Body, err)
				return
			}
			for i, it := range body.Items {
				v, err := base64.StdEncoding.DecodeString(it.Value)
				if err != nil || it.ValueEncoding != "base64" || string(v) != string(in[i].Value) || it.Key != in[i].Key {
					p.Fail(id, "batch-wire", "item %d %+v sent as %+v", i, in[i], it)
					return
				}
				w := in[i].TTL
				if (w > 0) != (it.TTL > 0) || w <= 0 && it.TTL != 0 {
					p.Fail(id, "batch-ttl", "item %d with TTL %s sent with ttl_ms %d (0 means it never expires)", i, w, it.TTL)
					return
				}
				if ms := float64(w) / 1e6; w >= time.Millisecond && (float64(it.TTL) < ms-1 || float64(it.TTL) > ms+1) {
					p.Fail(id, "batch-ttl", "item %d with TTL %s sent with ttl_ms %d", i, w, it.TTL)
					return
				}
			}
			for _, c := range []struct {
				uri string
				f   func() (int, error)
			}{
				{"/v1/cache/batch/get", func() (int, error) { r, err := r.c.BatchGet(ctx, names); return len(r), err }},
				{"/v1/cache/batch/delete", func() (int, error) {
					r, err := r.c.BatchDelete(ctx, names)
					for i, x := range r {
						if x.Key != names[i] || !x.Deleted || x.Err != nil || !slices.Equal(x.Owners, []string{"n1"}) {
							return -1, nil
						}
					}
					return len(r), err
				}},
			} {
				ln, err := c.f()
				q := r.last()
				var d struct{ Keys []string }
				_ = json.Unmarshal(q.Body, &d)
				if err != nil || ln != n || q.URI != c.uri || q.Method != http.MethodPost || !slices.Equal(d.Keys, names) {
					p.Fail(id, "batch-wire", "%q sent as %s %s %s: %d results, %v", names, q.Method, q.URI, q.Body, ln, err)
					return
				}
			}
			p.Outcome("%d", n)
		}
	}
}

// batchResults: a failed item is reported as failed, in its place.
func batchResults(p *kit.P) {
	codes := []string{"", "BAD_REQUEST", "DRAINING", "INTERNAL", "NEWCODE"}
	msgs := []string{"", "boom"}
	status := map[string]int{"BAD_REQUEST": 400, "DRAINING": 503, "INTERNAL": 500}
	type one struct {
		ok        bool
		code, msg string
	}
	var al []one
	for _, c := range codes {
		for _, m := range msgs {
			if c == "" {
				al = append(al, one{true, c, ""})
				if m != "" {
					al = append(al, one{false, c, m})
				}
				continue
			}
			al = append(al, one{false, c, m})
		}
	}
	for i := range al {
		for j := range al {
			for k := range al {
				id := fmt.Sprintf("%d,%d,%d", i, j, k)
				if !p.Begin("%s", id) {
					continue
				}
				in := []one{al[i], al[j], al[k]}
				var rs []map[string]any
				for n, o := range in {
					m := map[string]any{"key": fmt.Sprint("k", n), "stored": o.ok, "deleted": o.ok}
					if o.code != "" {
						m["code"] = o.code
					}
					if o.msg != "" {
						m["error"] = o.msg
					}
					rs = append(rs, m)
				}
				b, _ := json.Marshal(map[string]any{"results": rs})
				r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: string(b)} })
				ps, e1 := r.c.BatchSet(ctx, make([]client.BatchSetItem, 3))
				ds, e2 := r.c.BatchDelete(ctx, make([]string, 3))
				if e1 != nil || e2 != nil || len(ps) != 3 || len(ds) != 3 {
					p.Fail(id, "batch", "%s: %v %v %v %v", b, ps, e1, ds, e2)
					return
				}
				for n, o := range in {
					for _, x := range []struct {
						key string
						ok  bool
						err *client.StatusError
					}{{ps[n].Key, ps[n].Stored, ps[n].Err}, {ds[n].Key, ds[n].Deleted, ds[n].Err}} {
						good := x.key == fmt.Sprint("k", n) && x.ok == o.ok && (x.err == nil) == o.ok
						if good && x.err != nil {
							good = x.err.Code == o.code && x.err.Message == o.msg && x.err.HTTPStatus == status[o.code] &&
								errors.Is(x.err, client.ErrBadRequest) == (o.code == "BAD_REQUEST") &&
								errors.Is(x.err, client.ErrDraining) == (o.code == "DRAINING") &&
								errors.Is(x.err, client.ErrInternal) == (o.code == "INTERNAL")
						}
						if !good {
							p.Fail(id, "batch-error", "item %d of %s reported as %+v %v", n, b, x, x.err)
							return
						}
					}
				}
				p.Outcome("%v", in[0].ok)
			}
		}
	}
}

// rest: identity, capabilities, status codes.
func rest(p *kit.P) {
	for _, name := range append(keys(false), "cache.read", "") {
		for _, allowed := range []bool{true, false} {
			id := fmt.Sprintf("can %q %v", name, allowed)
			if !p.Begin("%s", id) {
				continue
			}
			r := newRig(func(fake.Req) fake.Ans {
				return fake.Ans{Status: 200, Body: fmt.Sprintf(`{"capability":"x","allowed":%v}`, allowed)}
			})
			got, err := r.c.Can(ctx, name)
			q := r.last()
			v, qe := url.ParseQuery(q.RawQuery)
			if err != nil || got != allowed || q.Path != "/v1/me/can" || qe != nil || !slices.Equal(v["capability"], []string{name}) || len(v) != 1 {
				p.Fail(id, "can", "Can(%q) sent %s, answer %v, got %v %v", name, q.URI, allowed, got, err)
			}
			p.Outcome("%v", allowed)
		}
	}
	for mask := 0; mask < 8; mask++ {
		id := fmt.Sprintf("identity %d", mask)
		if !p.Begin("%s", id) {
			continue
		}
		var scopes, caps []string
		for i, s := range []string{"read", "write", "admin"} {
			if mask>>i&1 == 1 {
				scopes = append(scopes, s)
				caps = append(caps, "cache."+s)
			}
		}
		b, _ := json.Marshal(map[string]any{"id": "me", "scopes": scopes, "capabilities": caps})
		r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: string(b)} })
		me, err := r.c.Identity(ctx)
		if err != nil || me.ID != "me" || !slices.Equal(me.Scopes, scopes) || !slices.Equal(me.Capabilities, caps) || r.last().URI != "/v1/me" {
			p.Fail(id, "identity", "%s gave %+v %v", b, me, err)
			continue
		}
		for _, c := range []string{"cache.read", "cache.write", "cache.admin", "cache", "cache.rea", "", "read", "CACHE.READ"} {
			if me.HasCapability(c) != slices.Contains(caps, c) {
				p.Fail(id, "capability", "HasCapability(%q)=%v with %q", c, me.HasCapability(c), caps)
			}
		}
		p.Outcome("%d", len(caps))
	}
	// success statuses
	for _, st := range []int{200, 204} {
		id := fmt.Sprintf("delete %d", st)
		if !p.Begin("%s", id) {
			continue
		}
		r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: st} })
		if err := r.c.Delete(ctx, "k"); err != nil {
			p.Fail(id, "delete", "Delete answered %d: %v", st, err)
		}
		p.Outcome("%d", st)
	}
}

// sizes: nothing is cut, capped or dropped because it is long or many.
func sizes(p *kit.P) {
	limit := 1 << 20
	if p.Deep() {
		limit = 1 << 24
	}
	for _, n := range kit.Sizes(limit + 1) {
		id := fmt.Sprintf("value of %d", n)
		if !p.Begin("%s", id) {
			continue
		}
		v := make([]byte, n)
		for i := range v {
			v[i] = byte(i * 31 >> 3)
		}
		var stored, sent []byte
		enc := ""
		r := newRig(func(q fake.Req) fake.Ans {
			switch {
			case q.Method == http.MethodPut:
				stored = q.Body
				return fake.Ans{Status: 200}
			case q.Method == http.MethodPost && strings.HasSuffix(q.Path, "put"):
				sent = q.Body
				return fake.Ans{Status: 200, Body: `{"results":[{"key":"k","stored":true,"bytes":` + fmt.Sprint(n) + `}]}`}
			case q.Method == http.MethodPost:
				return fake.Ans{Status: 200, Body: `{"results":[{"key":"k","found":true,"value":"` + enc + `","value_encoding":"base64"}]}`}
			case q.Header.Get("Accept") == "application/json":
				return fake.Ans{Status: 200, Body: `{"key":"k","value":"` + enc + `","value_encoding":"base64"}`}
			}
			return fake.Ans{Status: 200, Body: string(v)}
		})
		enc = base64.StdEncoding.EncodeToString(v)
		if err := r.c.Set(ctx, "k", v, 0); err != nil || string(stored) != string(v) {
			p.Fail(id, "value", "Set sent %d of %d bytes: %v", len(stored), n, err)
			return
		}
		if g, err := r.c.Get(ctx, "k"); err != nil || string(g) != string(v) {
			p.Fail(id, "value", "Get returned %d of %d bytes: %v", len(g), n, err)
			return
		}
		if it, err := r.c.GetItem(ctx, "k"); err != nil || string(it.Value) != string(v) {
			p.Fail(id, "item", "GetItem of %d bytes: %v", n, err)
			return
		}
		if g, err := r.c.BatchGet(ctx, []string{"k"}); err != nil || len(g) != 1 || g[0].Item == nil || string(g[0].Item.Value) != string(v) {
			p.Fail(id, "batch-item", "BatchGet of %d bytes: %v", n, err)
			return
		}
		res, err := r.c.BatchSet(ctx, []client.BatchSetItem{{Key: "k", Value: v}})
		if err != nil || len(res) != 1 || res[0].Bytes != n || !strings.Contains(string(sent), `"`+enc+`"`) {
			p.Fail(id, "batch", "BatchSet of %d bytes sent %d: %v", n, len(sent), err)
			return
		}
		p.Outcome("ok")
	}
	for _, n := range []int{2<<20 + 1, 4<<20 + 1, 10_000_001, 16<<20 + 1, 33 << 20} {
		id := fmt.Sprintf("large value of %d", n)
		if n > limit*20 && !p.Deep() || !p.Begin("%s", id) {
			continue
		}
		v := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
		var stored []byte
		r := newRig(func(q fake.Req) fake.Ans {
			if q.Method == http.MethodPut {
				stored = q.Body
				return fake.Ans{Status: 200}
			}
			return fake.Ans{Status: 200, Body: v}
		})
		if err := r.c.Set(ctx, "k", []byte(v), 0); err != nil || string(stored) != v {
			p.Fail(id, "value", "Set sent %d of %d bytes: %v", len(stored), n, err)
			return
		}
		if g, err := r.c.Get(ctx, "k"); err != nil || string(g) != v {
			p.Fail(id, "value", "Get returned %d of %d bytes: %v", len(g), n, err)
			return
		}
		p.Outcome("ok")
	}
	for _, n := range kit.Sizes(5001) {
		id := fmt.Sprintf("text of %d", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		text := strings.Repeat("kü/", n/3+1)[:n]
		text = strings.ToValidUTF8(text, "x")
		r := newRig(func(q fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: "v"} })
		if _, err := r.c.Get(ctx, text); err != nil {
			p.Fail(id, "call", "%v", err)
			return
		}
		if k, ok := keyOf(r.last()); !ok || k != text {
			p.Fail(id, "key", "a key of %d bytes was sent as one of %d", n, len(k))
			return
		}
		b, _ := json.Marshal(map[string]string{"code": "C" + text, "error": "E" + text, "details": "D" + text})
		r = newRig(func(q fake.Req) fake.Ans { return fake.Ans{Status: 409, Body: string(b)} })
		_, err := r.c.Get(ctx, "k")
		var se *client.StatusError
		if !errors.As(err, &se) || se.HTTPStatus != 409 || se.Code != "C"+text || se.Message != "E"+text || se.Details != "D"+text {
			p.Fail(id, "error", "an error answer with texts of %d bytes gave %d %d %d bytes", n, len(se.Code), len(se.Message), len(se.Details))
			return
		}
		p.Outcome("ok")
	}
	for _, n := range append(kit.Sizes(2001), 2500, 4097, 5001, 10_001, 20_001, 65_537) {
		id := fmt.Sprintf("batch of %d", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		var in []client.BatchSetItem
		var names []string
		for i := range n {
			names = append(names, fmt.Sprintf("k%d", i))
			in = append(in, client.BatchSetItem{Key: names[i], Value: []byte(names[i])})
		}
		var got []string
		r := newRig(func(q fake.Req) fake.Ans {
			var d struct {
				Keys  []string
				Items []struct{ Key string }
			}
			_ = json.Unmarshal(q.Body, &d)
			for _, it := range d.Items {
				d.Keys = append(d.Keys, it.Key)
			}
			got = d.Keys
			var rs []map[string]any
			for i, k := range d.Keys {
				m := map[string]any{"key": k, "stored": true, "deleted": true, "found": true, "bytes": i, "owners": names[:i%50], "value": base64.StdEncoding.EncodeToString([]byte(k))}
				if i%7 == 6 && strings.HasSuffix(q.Path, "put") {
					m["stored"], m["code"], m["error"] = false, "INTERNAL", k
				}
				rs = append(rs, m)
			}
			b, _ := json.Marshal(map[string]any{"results": rs, "node": "n"})
			return fake.Ans{Status: 200, Body: string(b)}
		})
		ps, e1 := r.c.BatchSet(ctx, in)
		ok := slices.Equal(got, names)
		gs, e2 := r.c.BatchGet(ctx, names)
		ok = ok && slices.Equal(got, names)
		ds, e3 := r.c.BatchDelete(ctx, names)
		ok = ok && slices.Equal(got, names)
		if !ok || e1 != nil || e2 != nil || e3 != nil || len(ps) != n || len(gs) != n || len(ds) != n || len(r.net.Log) != 3 {
			p.Fail(id, "batch", "%d requests, results %d %d %d: %v %v %v", len(r.net.Log), len(ps), len(gs), len(ds), e1, e2, e3)
			return
		}
		for i, k := range names {
			bad := i%7 == 6
			if ps[i].Key != k || ps[i].Stored == bad || ps[i].Bytes != i || !slices.Equal(ps[i].Owners, names[:i%50]) || (ps[i].Err != nil) != bad || bad && ps[i].Err.Message != k ||
				gs[i].Key != k || !gs[i].Found || gs[i].Item == nil || string(gs[i].Item.Value) != k || !slices.Equal(gs[i].Item.Owners, names[:i%50]) ||
				ds[i].Key != k || !ds[i].Deleted || ds[i].Err != nil || !slices.Equal(ds[i].Owners, names[:i%50]) {
				p.Fail(id, "batch", "result %d: %+v %+v %+v", i, ps[i], gs[i], ds[i])
				return
			}
		}
		p.Outcome("ok")
	}
}

// lists: an identity with many scopes and capabilities, an item with many owners.
func lists(p *kit.P) {
	for _, n := range kit.Sizes(2001) {
		id := fmt.Sprintf("%d entries", n)
		if !p.Begin("%s", id) {
			continue
		}
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("cache.n%d", n-i)
		}
		r := newRig(func(q fake.Req) fake.Ans {
			b, _ := json.Marshal(map[string]any{"id": "x", "scopes": names, "capabilities": names, "key": "k", "value": "dg==", "value_encoding": "base64", "owners": names})
			return fake.Ans{Status: 200, Body: string(b)}
		})
		who, err := r.c.Identity(ctx)
		if err != nil || !slices.Equal(who.Scopes, names) || !slices.Equal(who.Capabilities, names) {
			p.Fail(id, "identity", "an identity with %d scopes and capabilities has %d and %d (%v)", n, len(who.Scopes), len(who.Capabilities), err)
			return
		}
		it, err := r.c.GetItem(ctx, "k")
		if err != nil || !slices.Equal(it.Owners, names) {
			p.Fail(id, "owners", "an item with %d owners: %+v %v", n, it, err)
			return
		}
		p.Outcome("ok")
	}
}

// misnamed: an item is reported under the name its node gave it.
func misnamed(p *kit.P) {
	for i, key := range []string{"other", "K", "k ", "", "a/b", "k2", "é"} {
		id := fmt.Sprintf("key %d", i)
		if !p.Begin("%s", id) {
			continue
		}
		b, _ := json.Marshal(map[string]any{"key": key, "value": "dg==", "value_encoding": "base64"})
		r := newRig(func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: string(b)} })
		it, err := r.c.GetItem(ctx, "k")
		if err != nil || it.Key != key || string(it.Value) != "v" {
			p.Fail(id, "item", "envelope %s gave %+v, %v", b, it, err)
		}
		p.Outcome("%s", key)
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "keys", Plain: single, Weight: 2},
		kit.Scenario{Name: "set", Plain: set},
		kit.Scenario{Name: "items", Plain: items, Weight: 3},
		kit.Scenario{Name: "misnamed", Plain: misnamed},
		kit.Scenario{Name: "malformed", Plain: malformed},
		kit.Scenario{Name: "batch-requests", Plain: batchRequests, Weight: 3},
		kit.Scenario{Name: "batch-results", Plain: batchResults},
		kit.Scenario{Name: "rest", Plain: rest},
		kit.Scenario{Name: "lists", Plain: lists},
		kit.Scenario{Name: "sizes", Plain: sizes, Weight: 3},
	)
}
