// C39: the server binary serves the cache as its API promises.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

func main() {
	kit.Main(
		kit.Scenario{Name: "every sequence of writes, read on every surface", Plain: single, Weight: 3},
		kit.Scenario{Name: "the same on a cluster, through every node", Plain: clustered, Weight: 4},
		kit.Scenario{Name: "any key on every surface", Plain: anyKey, Weight: 2},
		kit.Scenario{Name: "any value on every surface and node", Plain: anyValue},
		kit.Scenario{Name: "large", Plain: large, Weight: 2},
		kit.Scenario{Name: "requests that make no sense", Plain: inputs},
		kit.Scenario{Name: "pages of the key listing", Plain: pages},
		kit.Scenario{Name: "lifetimes", Plain: lifetimes},
		kit.Scenario{Name: "an expired key goes alone", Plain: alone},
		kit.Scenario{Name: "every route and credential", Plain: authz, Weight: 2},
		kit.Scenario{Name: "identities of an OIDC provider", Plain: oidc, Weight: 2},
		kit.Scenario{Name: "client certificates", Plain: mtls},
		kit.Scenario{Name: "starting and stopping", Plain: boot},
		kit.Scenario{Name: "the management port", Plain: mgmt},
	)
}

func tag(id string) string {
	h := fnv.New32a()
	h.Write([]byte(id))
	return fmt.Sprintf("%08x", h.Sum32())
}

func esc(k string) string { return url.PathEscape(k) }

// entry is what a key should hold.
type entry struct {
	val     []byte
	ttl     time.Duration
	version uint64
}

type model map[string]*entry

// keyReads compares every way of reading one key with the model. It returns
// a description of the first difference.
func keyReads(s *server, k string, e *entry, owners int) (string, *itemInfo) {
	get := s.do("GET", "/v1/cache/"+esc(k), nil)
	js := s.do("GET", "/v1/cache/"+esc(k), nil, "Accept: application/json")
	head := s.do("HEAD", "/v1/cache/"+esc(k), nil)
	batch := s.post("/v1/cache/batch/get", map[string]any{"keys": []string{k}})
	own := s.do("GET", "/v1/owners/"+esc(k), nil)
	who := "[" + s.id + "] "
	om := own.json()
	ol, _ := om["owners"].([]any)
	if own.status != 200 || om["key"] != k || om["node"] != s.id || len(ol) != owners {
		return who + fmt.Sprintf("owners of %q: %v", k, own), nil
	}
	var br struct {
		Results []map[string]any `json:"results"`
		Node    string           `json:"node"`
	}
	json.Unmarshal(batch.body, &br)
	if batch.status != 200 || len(br.Results) != 1 || br.Node != s.id || br.Results[0]["key"] != k {
		return who + fmt.Sprintf("batch get of %q: %v", k, batch), nil
	}
	if e == nil {
		for _, a := range []ans{get, js} {
			if w := isErr(a, 404, "NOT_FOUND"); w != "" {
				return who + fmt.Sprintf("a read of the absent %q %s", k, w), nil
			}
		}
		if head.status != 404 {
			return who + fmt.Sprintf("HEAD of the absent %q: %v", k, head), nil
		}
		if br.Results[0]["found"] != false {
			return who + fmt.Sprintf("batch get of the absent %q: %v", k, batch), nil
		}
		return "", nil
	}
	if get.status != 200 || !bytes.Equal(get.body, e.val) || get.h.Get("Content-Type") != "application/octet-stream" {
		return who + fmt.Sprintf("GET of %q (holding %q): %v as %s", k, e.val, get, get.h.Get("Content-Type")), nil
	}
	i := &itemInfo{}
	for n, m := range []map[string]any{js.json(), br.Results[0]} {
		name, a := "JSON GET", js
		if n == 1 {
			name, a = "batch get", batch
			if m["found"] != true {
				return who + fmt.Sprintf("%s of %q: %v", name, k, a), nil
			}
		} else if a.status != 200 || m["node"] != s.id {
			return who + fmt.Sprintf("%s of %q: %v", name, k, a), nil
		}
		v, _ := m["value"].(string)
		if m["key"] != k || v != b64(e.val) || (m["value_encoding"] != "base64") {
			return who + fmt.Sprintf("%s of %q (holding %q): %v", name, k, e.val, a), nil
		}
		x := info(m)
		if w := x.sane(e.ttl, time.Now()); w != "" {
			return who + fmt.Sprintf("%s of %q: %s: %v", name, k, w, a), nil
		}
		if fmt.Sprint(x.owners) != fmt.Sprint(ol) {
			return who + fmt.Sprintf("%s of %q says owners %v, not %v", name, k, x.owners, ol), nil
		}
		if n == 1 && !i.same(x) {
			return who + fmt.Sprintf("batch get of %q says %+v, JSON GET %+v", k, x, i), nil
		}
		i = x
	}
	h := &itemInfo{origin: head.h.Get("X-Cache-Origin"), expires: head.h.Get("X-Cache-Expires-At"), updated: head.h.Get("X-Cache-Last-Updated")}
	h.version, _ = strconv.ParseUint(head.h.Get("X-Cache-Version"), 10, 64)
	h.ttl, _ = strconv.ParseInt(head.h.Get("X-Cache-Ttl-Ms"), 10, 64)
	for o := range strings.SplitSeq(head.h.Get("X-Cache-Owners"), ",") {
		h.owners = append(h.owners, o)
	}
	if w := h.sane(e.ttl, time.Now()); head.status != 200 || len(head.body) != 0 || head.h.Get("X-Cache-Node") != s.id || w != "" {
		return who + fmt.Sprintf("HEAD of %q: %s %v %v", k, w, head, head.h), nil
	}
	if !i.same(h) || fmt.Sprint(h.owners) != fmt.Sprint(ol) {
		return who + fmt.Sprintf("HEAD of %q says %+v, batch get %+v", k, h, i), nil
	}
	return "", i
}

// itemInfo is what an answer tells about an item.
type itemInfo struct {
	version                  uint64
	ttl                      int64
	origin, expires, updated string
	owners                   []any
}

func info(m map[string]any) *itemInfo {
	i := &itemInfo{}
	f, _ := m["version"].(float64)
	i.version = uint64(f)
	f, _ = m["ttl_ms"].(float64)
	i.ttl = int64(f)
	i.origin, _ = m["origin"].(string)
	i.expires, _ = m["expires_at"].(string)
	i.updated, _ = m["last_updated"].(string)
	i.owners, _ = m["owners"].([]any)
	return i
}

func (i *itemInfo) sane(ttl time.Duration, now time.Time) string {
	if i.version == 0 || i.origin == "" {
		return "no version or origin"
	}
	u, err := time.Parse(time.RFC3339, i.updated)
	if err != nil || u.After(now.Add(time.Second)) || u.Before(now.Add(-time.Minute)) {
		return "last_updated " + i.updated
	}
	if ttl == 0 {
		if i.ttl != 0 || i.expires != "" {
			return fmt.Sprintf("ttl %d, expires %q without a lifetime", i.ttl, i.expires)
		}
		return ""
	}
	if i.ttl <= 0 || i.ttl > ttl.Milliseconds() || i.ttl < (ttl-time.Minute).Milliseconds() {
		return fmt.Sprintf("ttl %d of %v", i.ttl, ttl)
	}
	x, err := time.Parse(time.RFC3339, i.expires)
	if d := x.Sub(now.Add(time.Duration(i.ttl) * time.Millisecond)); err != nil || d > 30*time.Second || d < -30*time.Second {
		return "expires_at " + i.expires
	}
	return ""
}

func (i *itemInfo) same(o *itemInfo) bool {
	return i.version == o.version && i.origin == o.origin && i.updated == o.updated && (i.ttl == 0) == (o.ttl == 0)
}

// write is a way of changing one or both keys.
type write struct {
	name string
	run  func(s *server, k [2]string, owners int, seq int) (string, map[int]*entry)
}

func checkPut(s *server, a ans, k string, n int, ttl time.Duration, owners int) string {
	m := a.json()
	o, _ := m["owners"].([]any)
	t, _ := m["ttl_ms"].(float64)
	b, isN := m["bytes"].(float64)
	if a.status != 200 || m["key"] != k || m["stored"] != true || m["node"] != s.id || len(o) != owners || int64(t) != ttl.Milliseconds() || !isN || int(b) != n {
		return fmt.Sprintf("PUT of %q (%d bytes, ttl %v): %v", k, n, ttl, a)
	}
	return ""
}

// writes lists the operations; every written value is unique to its place in the sequence.
func writes() []write {
	var out []write
	for i := range 2 {
		out = append(out,
			write{fmt.Sprintf("put%d", i), func(s *server, k [2]string, owners, seq int) (string, map[int]*entry) {
				v := []byte(fmt.Sprintf("v%d\x00\xff", seq))
				return checkPut(s, s.do("PUT", "/v1/cache/"+esc(k[i]), v), k[i], len(v), 0, owners), map[int]*entry{i: {val: v}}
			}},
			write{fmt.Sprintf("putTTL%d", i), func(s *server, k [2]string, owners, seq int) (string, map[int]*entry) {
				v := []byte(fmt.Sprintf("{\"t\":%d}", seq))
				return checkPut(s, s.do("PUT", "/v1/cache/"+esc(k[i])+"?ttl=1h30m", v, "Content-Type: application/json"), k[i], len(v), 90*time.Minute, owners), map[int]*entry{i: {val: v, ttl: 90 * time.Minute}}
			}},
			write{fmt.Sprintf("del%d", i), func(s *server, k [2]string, owners, seq int) (string, map[int]*entry) {
				a := s.do("DELETE", "/v1/cache/"+esc(k[i]), nil)
				m := a.json()
				o, _ := m["owners"].([]any)
				if a.status != 200 || m["key"] != k[i] || m["deleted"] != true || m["node"] != s.id || len(o) != owners {
					return fmt.Sprintf("DELETE of %q: %v", k[i], a), nil
				}
				return "", map[int]*entry{i: nil}
			}})
	}
	out = append(out,
		write{"batchPut", func(s *server, k [2]string, owners, seq int) (string, map[int]*entry) {
			v0, v1 := []byte(fmt.Sprintf("aGVsbG8=%d", seq)), []byte{byte(seq), 0, 0xfe}
			a := s.post("/v1/cache/batch/put", map[string]any{"items": []any{
				map[string]any{"key": k[0], "value": string(v0)},
				map[string]any{"key": "", "value": "x"},
				map[string]any{"key": k[0], "value": "%%", "value_encoding": "base64"},
				map[string]any{"key": k[1], "value": b64(v1), "value_encoding": "base64", "ttl_ms": 5400000},
			}})
			var r struct {
				Results []struct {
					Key    string
					Stored bool
					Bytes  int
					Owners []string
					Code   string
					Error  string
				}
				Node string
			}
			json.Unmarshal(a.body, &r)
			if a.status != 200 || len(r.Results) != 4 || r.Node != s.id {
				return fmt.Sprintf("batch put: %v", a), nil
			}
			for i, want := range []struct {
				k      string
				stored bool
				n      int
				code   string
			}{{k[0], true, len(v0), ""}, {"", false, 0, "BAD_REQUEST"}, {k[0], false, 0, "BAD_REQUEST"}, {k[1], true, len(v1), ""}} {
				g := r.Results[i]
				if g.Key != want.k || g.Stored != want.stored || g.Bytes != want.n || g.Code != want.code || (g.Error == "") != want.stored || want.stored && len(g.Owners) != owners {
					return fmt.Sprintf("batch put, result %d: %v", i, a), nil
				}
			}
			return "", map[int]*entry{0: {val: v0}, 1: {val: v1, ttl: 90 * time.Minute}}
		}},
		write{"batchDel", func(s *server, k [2]string, owners, seq int) (string, map[int]*entry) {
			a := s.post("/v1/cache/batch/delete", map[string]any{"keys": []string{k[1], "", k[0]}})
			var r struct {
				Results []struct {
					Key     string
					Deleted bool
					Owners  []string
					Code    string
				}
				Node string
			}
			json.Unmarshal(a.body, &r)
			if a.status != 200 || len(r.Results) != 3 || r.Node != s.id {
				return fmt.Sprintf("batch delete: %v", a), nil
			}
			for i, w := range []string{k[1], "", k[0]} {
				g := r.Results[i]
				if g.Key != w || g.Deleted != (w != "") || (g.Code == "BAD_REQUEST") != (w == "") || w != "" && len(g.Owners) != owners {
					return fmt.Sprintf("batch delete, result %d: %v", i, a), nil
				}
			}
			return "", map[int]*entry{0: nil, 1: nil}
		}})
	return out
}

// listing compares the key listing with the model.
func listing(s *server, pre string, k [2]string, m model) string {
	want := []string{}
	for _, x := range k {
		if m[x] != nil {
			want = append(want, x)
		}
	}
	slices.Sort(want)
	for _, q := range []string{pre, pre + "*"} {
		a := s.do("GET", "/v1/cache/keys?q="+url.QueryEscape(q), nil)
		var r struct {
			Keys         []string `json:"keys"`
			Next         string   `json:"next_cursor"`
			TotalMatched int      `json:"total_matched"`
			Truncated    bool     `json:"truncated"`
			Node         string   `json:"node"`
			Partial      []string `json:"partial_nodes"`
		}
		json.Unmarshal(a.body, &r)
		if a.status != 200 || !slices.Equal(r.Keys, want) || r.TotalMatched != len(want) || r.Truncated || r.Next != "" || r.Node != s.id || len(r.Partial) != 0 || r.Keys == nil {
			return fmt.Sprintf("[%s] listing of %q: %v, not %q", s.id, q, a, want)
		}
	}
	return ""
}

func sequences(p *kit.P, nodes func() []*server, n, owners, depth int) {
	ops := writes()
	total := len(ops) * n
	idx := make([]int, depth)
	for {
		names := []string{}
		for _, i := range idx {
			names = append(names, fmt.Sprintf("%s@%d", ops[i/n].name, i%n))
		}
		id := fmt.Sprintf("%d/%d: %s", n, owners, strings.Join(names, " "))
		if p.Begin("%s", id) {
			s := nodes()
			pre := tag(id) + ":"
			k := [2]string{pre + "a b:ü%", pre + "KEY"}
			m := model{}
			hist := []string{}
			fail := func(key, f string, a ...any) {
				p.Fail(id, key, "%s: %s", strings.Join(hist, " "), fmt.Sprintf(f, a...))
			}
		seq:
			for j, i := range idx {
				hist = append(hist, names[j])
				w, upd := ops[i/n].run(s[i%n], k, owners, j)
				if w != "" {
					fail("write", "%s", w)
					break
				}
				for x, e := range upd {
					if old := m[k[x]]; e != nil && old != nil {
						e.version = old.version
					}
					m[k[x]] = e
				}
				for x := range k {
					var first *itemInfo
					e := m[k[x]]
					for _, srv := range s {
						w, i := keyReads(srv, k[x], e, owners)
						if w != "" {
							fail("read", "%s", w)
							break seq
						}
						if first == nil {
							first = i
						} else if !first.same(i) {
							fail("differ", "%s says %+v of %q, %s %+v", srv.id, i, k[x], s[0].id, first)
							break seq
						}
					}
					if _, wrote := upd[x]; e != nil && wrote {
						if first.version <= e.version {
							fail("version", "the write of %q left version %d, it had %d", k[x], first.version, e.version)
							break seq
						}
					} else if e != nil && first.version != e.version {
						fail("version", "%q was not written, its version went from %d to %d", k[x], e.version, first.version)
						break seq
					}
					if e != nil {
						e.version = first.version
					}
				}
				for _, srv := range s {
					if w := listing(srv, pre, k, m); w != "" {
						fail("listing", "%s", w)
						break seq
					}
				}
			}
			p.Outcome("%v %v", m[k[0]] != nil, m[k[1]] != nil)
		}
		j := depth - 1
		for ; j >= 0; j-- {
			if idx[j]++; idx[j] < total {
				break
			}
			idx[j] = 0
		}
		if j < 0 {
			return
		}
	}
}

// once runs servers on first use.
func once(f func() []*server) (func() []*server, func()) {
	var s []*server
	return func() []*server {
			if s == nil {
				s = f()
			}
			return s
		}, func() {
			for _, x := range s {
				x.kill()
			}
		}
}

func single(p *kit.P) {
	nodes, stop := once(func() []*server { return startCluster(1, 3) })
	defer stop()
	sequences(p, nodes, 1, 1, 2)
	sequences(p, nodes, 1, 1, 3)
	if p.Deep() {
		sequences(p, nodes, 1, 1, 4)
	}
}

func clustered(p *kit.P) {
	for _, r := range []int{2, 3, 1} {
		func() {
			nodes, stop := once(func() []*server { return startCluster(3, r) })
			defer stop()
			sequences(p, nodes, 3, r, 1)
			if r == 2 || p.Deep() {
				sequences(p, nodes, 3, r, 2)
			}
		}()
	}
}

// keys of every kind; "." and ".." are path segments, "keys" is the listing.
var kinds = []string{
	"plain", "KEY", "key", "a b", "a/b", "/", "//", "a%b", "%", "%20", "%2F", "a+b", "+", "a?b", "?", "a#b", "#", "ü", "日本", "😀", "a&b=c", "a;b", "a,b", "a:b",
	"a\\b", "\"q\"", "'", "<x>", "{}", "[1]", "a*b", "*", "~", "@", "!", "$", "(", "|", "^", "`", "\t", "\n", "\x01", "\x00", "\x7f", " ", " a ",
	"...", "./a", "../a", "a/../b", "a/./b", "a/.", "batch", "batch/get", "keys/", "key s", ":key", "-", "_", strings.Repeat("k", 1000), strings.Repeat("ü/", 200), "0", "null", "true",
}

func anyKey(p *kit.P) {
	nodes, stop := once(func() []*server { return startCluster(2, 1) })
	defer stop()
	ways := []string{"put", "batch", "sdk"}
	for ki, kind := range kinds {
		for _, way := range ways {
			for at := range 2 {
				for _, pre := range []bool{false, true} {
					id := fmt.Sprintf("key %d %q by %s at n%d prefixed=%v", ki, kind, way, at, pre)
					if !p.Begin("%s", id) {
						continue
					}
					s := nodes()
					k := kind
					if pre {
						k = tag(id) + kind
					}
					if strings.TrimSpace(k) == "" { // not a key
						continue
					}
					v := []byte("of " + id)
					c, err := client.New([]string{"http://" + s[at].api})
					if err != nil {
						panic(err)
					}
					other, _ := client.New([]string{"http://" + s[1-at].api})
					var w string
					switch way {
					case "put":
						if a := s[at].do("PUT", "/v1/cache/"+esc(k), v); a.status != 200 || a.json()["key"] != k {
							w = a.String()
						}
					case "batch":
						a := s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": string(v)}}})
						if a.status != 200 || !bytes.Contains(a.body, []byte(`"stored":true`)) {
							w = a.String()
						}
					case "sdk":
						if err := c.Set(bg, k, v, 0); err != nil {
							w = err.Error()
						}
					}
					if w != "" {
						p.Fail(id, "store:"+way, "key %q is not stored: %s", k, w)
						continue
					}
					if a := s[1-at].do("GET", "/v1/cache/"+esc(k), nil); a.status != 200 || !bytes.Equal(a.body, v) {
						p.Fail(id, "get", "key %q, stored by %s: %v", k, way, a)
					}
					for _, srv := range s {
						if w, _ := keyReads(srv, k, &entry{val: v}, 1); w != "" {
							p.Fail(id, "read", "key %q, stored by %s: %s", k, way, w)
						}
					}
					if b, err := other.Get(bg, k); err != nil || !bytes.Equal(b, v) {
						p.Fail(id, "sdk:get", "key %q: %q, %v", k, b, err)
					}
					if it, err := c.GetItem(bg, k); err != nil || it.Key != k || !bytes.Equal(it.Value, v) {
						p.Fail(id, "sdk:item", "key %q: %+v, %v", k, it, err)
					}
					if pre {
						if w := listing(s[at], tag(id), [2]string{k, ""}, model{k: {}}); w != "" && !strings.ContainsAny(kind, "*?[\\/") {
							p.Fail(id, "listing", "%s", w)
						}
					}
					switch way {
					case "put":
						if a := s[1-at].do("DELETE", "/v1/cache/"+esc(k), nil); a.status != 200 || a.json()["key"] != k {
							w = a.String()
						}
					case "batch":
						if a := s[1-at].post("/v1/cache/batch/delete", map[string]any{"keys": []string{k}}); a.status != 200 {
							w = a.String()
						}
					case "sdk":
						if err := other.Delete(bg, k); err != nil {
							w = err.Error()
						}
					}
					if w != "" {
						p.Fail(id, "delete:"+way, "key %q: %s", k, w)
					}
					for _, srv := range s {
						if w, _ := keyReads(srv, k, nil, 1); w != "" {
							p.Fail(id, "deleted", "key %q, deleted by %s: %s", k, way, w)
						}
					}
					c.Close()
					other.Close()
					p.Outcome("%s %s", way, kind)
				}
			}
		}
	}
}

func values() [][]byte {
	out := [][]byte{{}, {0}, {0xff}, []byte("a"), []byte("abcd"), []byte("aGVsbG8="), []byte("aGVsbG8gd29ybGQ="), []byte(`"quoted"`), []byte(`"aGVsbG8="`), []byte("null"), []byte("12345678901234567890"), []byte(`{"a":[1,2]}`),
		[]byte("[]"), []byte("1e400"), []byte("<b>&\u2028"), []byte("\xed\xa0\x80"), []byte("\r\n\r\n"), bytes.Repeat([]byte{0, 1, 0xfe, 0xff}, 300), bytes.Repeat([]byte("x"), 1<<20), []byte(base64.StdEncoding.EncodeToString(bytes.Repeat([]byte("z"), 3000)))}
	for n := range 9 {
		out = append(out, []byte("QUJDREVGRw=="[:n]))
	}
	return out
}

func anyValue(p *kit.P) {
	nodes, stop := once(func() []*server { return startCluster(3, 2) })
	defer stop()
	for vi, v := range values() {
		for _, way := range []string{"put", "put json", "put text", "batch base64", "batch text", "batch unknown encoding", "sdk", "sdk batch"} {
			for at := range 3 {
				id := fmt.Sprintf("value %d by %s at n%d", vi, way, at)
				if !p.Begin("%s", id) {
					continue
				}
				if strings.HasPrefix(way, "batch text") || strings.HasPrefix(way, "batch unknown") {
					if strings.ToValidUTF8(string(v), "?") != string(v) {
						continue
					}
				}
				s := nodes()
				k := tag(id)
				var w string
				batch := func(enc any, val string) {
					a := s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": val, "value_encoding": enc}}})
					if a.status != 200 || !bytes.Contains(a.body, []byte(`"stored":true`)) {
						w = a.String()
					}
				}
				put := func(h ...string) {
					w = checkPut(s[at], s[at].do("PUT", "/v1/cache/"+k, v, h...), k, len(v), 0, 2)
				}
				c, _ := client.New([]string{"http://" + s[at].api})
				switch way {
				case "put":
					put()
				case "put json":
					put("Content-Type: application/json")
				case "put text":
					put("Content-Type: text/plain; charset=utf-8")
				case "batch base64":
					batch("base64", b64(v))
				case "batch text":
					batch("", string(v))
				case "batch unknown encoding":
					batch("utf8", string(v))
				case "sdk":
					if err := c.Set(bg, k, v, 0); err != nil {
						w = err.Error()
					}
				case "sdk batch":
					r, err := c.BatchSet(bg, []client.BatchSetItem{{Key: k, Value: v}})
					if err != nil || len(r) != 1 || !r[0].Stored {
						w = fmt.Sprint(r, err)
					}
				}
				if w != "" {
					p.Fail(id, "store:"+way, "%s: not stored: %s", id, w)
					continue
				}
				for _, srv := range s {
					if w, _ := keyReads(srv, k, &entry{val: v}, 2); w != "" {
						p.Fail(id, "read:"+way, "%s: %s", id, w)
						break
					}
					c, _ := client.New([]string{"http://" + srv.api})
					if g, err := c.Get(bg, k); err != nil || !bytes.Equal(g, v) {
						p.Fail(id, "sdk", "%s: Get: %v, %v", id, len(g), err)
					}
					if r, err := c.BatchGet(bg, []string{k, k + "-absent"}); err != nil || len(r) != 2 || !r[0].Found || r[1].Found || !bytes.Equal(r[0].Item.Value, v) {
						p.Fail(id, "sdk batch", "%s: BatchGet: %+v, %v", id, r, err)
					}
					c.Close()
				}
				c.Close()
				p.Outcome("%s %d", way, vi)
			}
		}
	}
}

func inputs(p *kit.P) {
	nodes, stop := once(func() []*server { return []*server{start()} })
	defer stop()
	type in struct{ method, path, body string }
	bad := []in{}
	for _, t := range []string{"x", "1", "-5s", "-1ns", "5", "1x", "1h-", "9999999999h", "NaN", "1d", "0x1s", "%20", "-0.5ms"} {
		bad = append(bad, in{"PUT", "/v1/cache/K?ttl=" + t, "v"})
	}
	for _, k := range []string{"%20", "%09", "%0A", "%20%20"} {
		bad = append(bad, in{"PUT", "/v1/cache/" + k, "v"})
	}
	for _, op := range []string{"get", "put", "delete"} {
		for _, b := range []string{"", "{", "[]", "1", "\"x\"", `{"keys":1,"items":1}`, `{"keys":[1],"items":[1]}`, `{"keys":{},"items":{}}`, "{}x", `{"keys":["a"],"items":[]`, "\x00"} {
			bad = append(bad, in{"POST", "/v1/cache/batch/" + op, b})
		}
	}
	bad = append(bad, in{"POST", "/v1/cache/batch/put", `{"items":[{"key":"K","value":1}]}`}, in{"POST", "/v1/cache/batch/put", `{"items":[{"key":"K","value":"v","ttl_ms":"1"}]}`})
	for _, q := range []string{"cursor=-1", "cursor=x", "cursor=1.5", "limit=0", "limit=-1", "limit=x", "max=0", "max=-3", "max=1e3", "limit=99999999999999999999", "q=%5B", "q=%5Ba", "q=a%5B-", "q=*%5B", "q=%5B%5D"} {
		bad = append(bad, in{"GET", "/v1/cache/keys?" + q, ""})
	}
	for _, q := range []string{"", "?capability=", "?capability=cache.reads", "?capability=read", "?capability=CACHE.READ", "?capability=cache.read%20", "?capability=*"} {
		bad = append(bad, in{"GET", "/v1/me/can" + q, ""})
	}
	for _, i := range bad {
		id := fmt.Sprintf("%s %s %q", i.method, i.path, i.body)
		if !p.Begin("%s", id) {
			continue
		}
		s := nodes()[0]
		k := tag(id)
		var body []byte
		if i.body != "" {
			body = []byte(strings.ReplaceAll(i.body, "\"K\"", "\""+k+"\""))
		}
		a := s.do(i.method, strings.ReplaceAll(i.path, "/K", "/"+k), body)
		if w := isErr(a, 400, "BAD_REQUEST"); w != "" {
			p.Fail(id, "refused:"+strings.SplitN(i.path, "?", 2)[0], "%s %s", id, w)
		}
		if g := s.do("GET", "/v1/cache/"+k, nil); g.status != 404 {
			p.Fail(id, "stored", "%s was refused, and stored: %v", id, g)
		}
		p.Outcome("%s", a)
	}
	// per-item refusals of a batch leave its other items alone
	for _, it := range []string{`"ttl_ms":-1`, `"ttl_ms":-9223372036854775808`, `"ttl_ms":9223372036854775807`, `"ttl_ms":9223372036855`, `"value_encoding":"base64"`} {
		for at := range 3 {
			id := fmt.Sprintf("batch item %s at %d", it, at)
			if !p.Begin("%s", id) {
				continue
			}
			s := nodes()[0]
			k := tag(id)
			items := []string{}
			for i := range 3 {
				x := fmt.Sprintf(`{"key":"%s-%d","value":"v!%d"`, k, i, i)
				if i == at {
					x += "," + it
				}
				items = append(items, x+"}")
			}
			a := s.do("POST", "/v1/cache/batch/put", []byte(`{"items":[`+strings.Join(items, ",")+`]}`))
			var r struct {
				Results []struct {
					Key    string
					Stored bool
					Code   string
					Error  string
				}
			}
			json.Unmarshal(a.body, &r)
			if a.status != 200 || len(r.Results) != 3 {
				p.Fail(id, "batch", "%s: %v", id, a)
				continue
			}
			for i, x := range r.Results {
				good := i != at
				if x.Key != fmt.Sprintf("%s-%d", k, i) || x.Stored != good || good != (x.Error == "") || !good && x.Code != "BAD_REQUEST" {
					p.Fail(id, "item", "%s: item %d: %+v", id, i, x)
				}
				if g := s.do("GET", "/v1/cache/"+x.Key, nil); (g.status == 200) != good {
					p.Fail(id, "item:stored", "%s: item %d: %v", id, i, g)
				}
			}
			p.Outcome("%+v", r.Results[at])
		}
	}
	// odd requests that are fine
	for _, i := range []struct {
		method, path, body string
		status             int
		want               string
	}{
		{"GET", "/healthz", "", 200, "ok"}, {"HEAD", "/healthz", "", 200, ""}, {"POST", "/v1/cache/batch/get", "{}", 200, `"results":[]`}, {"POST", "/v1/cache/batch/get", `{"keys":null}`, 200, `"results":[]`},
		{"POST", "/v1/cache/batch/put", `{"items":[]}`, 200, `"results":[]`}, {"POST", "/v1/cache/batch/delete", `{"keys":[]}`, 200, `"results":[]`}, {"POST", "/v1/cache/batch/get", `{"keys":[""]}`, 200, `"found":false`},
		{"GET", "/v1/cache/keys?q=none-such", "", 200, `"keys":[]`}, {"GET", "/v1/cache/keys?cursor=99&q=none-such", "", 200, `"keys":[]`}, {"GET", "/v1/cache/keys?limit=100000&max=999999&q=none-such", "", 200, `"total_matched":0`},
		{"DELETE", "/v1/cache/never-there", "", 200, `"deleted":true`}, {"GET", "/v1/owners/never-there", "", 200, `"owners":["n0"]`}, {"GET", "/v1/openapi.yaml", "", 200, "openapi: 3"},
		{"GET", "/v1/me", "", 200, `"id":"anonymous"`}, {"GET", "/v1/me/can?capability=cache.admin", "", 200, `"allowed":true`}, {"PUT", "/v1/cache/long-ttl?ttl=2562047h", "v", 200, `"stored":true`}, {"PUT", "/v1/cache/zero-ttl?ttl=0s", "v", 200, `"stored":true`}, {"PUT", "/v1/cache/no-ttl?ttl=", "v", 200, `"stored":true`},
	} {
		id := fmt.Sprintf("fine: %s %s %q", i.method, i.path, i.body)
		if !p.Begin("%s", id) {
			continue
		}
		var body []byte
		if i.body != "" {
			body = []byte(i.body)
		}
		if a := nodes()[0].do(i.method, i.path, body); a.status != i.status || !strings.Contains(string(a.body), i.want) {
			p.Fail(id, "fine", "%s: %v", id, a)
		}
		p.Outcome("%s", id)
	}
}

func pages(p *kit.P) {
	nodes, stop := once(func() []*server { return startCluster(3, 2) })
	defer stop()
	for _, n := range []int{0, 1, 2, 5, 7} {
		for limit := 1; limit <= n+1; limit++ {
			for mx := 1; mx <= n+2; mx++ {
				for at := range 3 {
					id := fmt.Sprintf("%d keys, limit %d, max %d, at n%d", n, limit, mx, at)
					if !p.Begin("%s", id) {
						continue
					}
					s := nodes()
					pre := tag(id)
					want := []string{}
					for i := range n {
						k := fmt.Sprintf("%s-%d", pre, i)
						want = append(want, k)
						if a := s[i%3].do("PUT", "/v1/cache/"+k, []byte("v")); a.status != 200 {
							p.Fail(id, "put", "%v", a)
						}
					}
					got, cur := []string{}, ""
					for range n + 2 {
						u := fmt.Sprintf("/v1/cache/keys?q=%s&limit=%d", pre, limit)
						if mx <= n+1 {
							u += fmt.Sprintf("&max=%d", mx)
						}
						if cur != "" {
							u += "&cursor=" + cur
						}
						a := s[at].do("GET", u, nil)
						var r struct {
							Keys         []string `json:"keys"`
							Next         string   `json:"next_cursor"`
							TotalMatched int      `json:"total_matched"`
							Truncated    bool     `json:"truncated"`
						}
						json.Unmarshal(a.body, &r)
						if a.status != 200 || len(r.Keys) > limit || r.Next != "" && len(r.Keys) != limit {
							p.Fail(id, "page", "%s: %s: %v", id, u, a)
							break
						}
						total := min(n, mx)
						if r.TotalMatched != total {
							p.Fail(id, "total", "%s: %v matched, %d there", id, a, n)
						}
						if r.Truncated != (mx < n) {
							p.Fail(id, "truncated", "%s: %v", id, a)
						}
						got = append(got, r.Keys...)
						if cur = r.Next; cur == "" {
							break
						}
					}
					// with a cap below the number of keys any of them may be left out
					if mx >= n && !slices.Equal(got, want) {
						p.Fail(id, "walk", "%s: the pages hold %q", id, got)
					}
					if len(got) > min(n, mx) || mx >= n && (len(got) != n || !slices.IsSorted(got) || len(slices.Compact(slices.Clone(got))) != n) {
						p.Fail(id, "walk:cap", "%s: the pages hold %q", id, got)
					}
					p.Outcome("%d", len(got))
				}
			}
		}
	}
}

func lifetimes(p *kit.P) {
	nodes, stop := once(func() []*server { return startCluster(2, 1) })
	defer stop()
	for _, ttl := range []time.Duration{time.Nanosecond, time.Millisecond, 20 * time.Millisecond, 150 * time.Millisecond} {
		for at := range 2 {
			for _, way := range []string{"put", "batch", "over", "over unlimited"} {
				for n := range 4 {
					id := fmt.Sprintf("%v %s at n%d #%d", ttl, way, at, n)
					if way == "batch" && ttl < time.Millisecond || !p.Begin("%s", id) {
						continue
					}
					s := nodes()
					k := tag(id)
					t0 := time.Now()
					var a ans
					switch way {
					case "put":
						a = s[at].do("PUT", "/v1/cache/"+k+"?ttl="+ttl.String(), []byte("v"))
					case "batch":
						a = s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": "v", "ttl_ms": ttl.Milliseconds()}}})
					case "over": // the last write decides
						s[1-at].do("PUT", "/v1/cache/"+k, []byte("old"))
						t0 = time.Now()
						a = s[at].do("PUT", "/v1/cache/"+k+"?ttl="+ttl.String(), []byte("v"))
					case "over unlimited":
						s[1-at].do("PUT", "/v1/cache/"+k+"?ttl="+ttl.String(), []byte("old"))
						a = s[at].do("PUT", "/v1/cache/"+k, []byte("v"))
					}
					if a.status != 200 {
						p.Fail(id, "put", "%s: %v", id, a)
						continue
					}
					if ttl >= 100*time.Millisecond {
						for _, x := range s {
							g := x.do("GET", "/v1/cache/"+k, nil)
							if g.status != 200 && (way == "over unlimited" || time.Since(t0) < ttl) {
								p.Fail(id, "early", "%s: gone %v after the write: %v", id, time.Since(t0), g)
							}
						}
					}
					time.Sleep(ttl + 30*time.Millisecond)
					var want *entry
					if way == "over unlimited" {
						want = &entry{val: []byte("v")}
					}
					for _, x := range s {
						if w, _ := keyReads(x, k, want, 1); w != "" {
							p.Fail(id, "late", "%s: %v later: %s", id, time.Since(t0), w)
						}
					}
					p.Outcome("%v %s", ttl, way)
				}
			}
		}
	}
}

// alone expires one key and looks at the others.
func alone(p *kit.P) {
	for _, n := range []int{1, 3} {
		func() {
			nodes, stop := once(func() []*server { return startCluster(n, 2) })
			defer stop()
			for at := range n {
				for by := range n {
					for _, how := range []string{"read", "batch", "trigger", "rewritten"} {
						id := fmt.Sprintf("%d nodes: expired at n%d, %s at n%d", n, at, how, by)
						if !p.Begin("%s", id) {
							continue
						}
						s := nodes()
						owners := min(n, 2)
						pre := tag(id)
						others := map[string]*entry{}
						for i := range 6 {
							k, e, u := fmt.Sprintf("%s-%d", pre, i), &entry{val: []byte{byte(i)}}, ""
							if i%2 == 0 {
								e.ttl, u = time.Hour, "?ttl=1h"
							}
							others[k] = e
							if w := checkPut(s[i%n], s[i%n].do("PUT", "/v1/cache/"+k+u, e.val), k, 1, e.ttl, owners); w != "" {
								p.Fail(id, "put", "%s", w)
							}
						}
						k := pre + "-x"
						s[at].do("PUT", "/v1/cache/"+k+"?ttl=2ms", []byte("v"))
						time.Sleep(10 * time.Millisecond)
						var last *entry
						switch how {
						case "read":
							s[by].do("GET", "/v1/cache/"+k, nil)
						case "batch":
							s[by].post("/v1/cache/batch/get", map[string]any{"keys": []string{k, pre + "-0"}})
						case "trigger":
							if a := s[by].call("POST", s[by].mgmt, "/trigger-expiration", nil); a.status/100 != 2 {
								p.Fail(id, "trigger", "%s: %v", id, a)
							}
						case "rewritten":
							last = &entry{val: []byte("new")}
							s[by].do("GET", "/v1/cache/"+k, nil)
							s[by].do("PUT", "/v1/cache/"+k, last.val)
						}
						time.Sleep(30 * time.Millisecond)
						for _, x := range s {
							for o, e := range others {
								if w, _ := keyReads(x, o, e, owners); w != "" {
									p.Fail(id, "other", "%s: %s", id, w)
								}
							}
							if w, _ := keyReads(x, k, last, owners); w != "" {
								p.Fail(id, "expired", "%s: %s", id, w)
							}
						}
						p.Outcome("%s", id)
					}
				}
			}
		}()
	}
}

func file(name, content string) string {
	p := filepath.Join(os.TempDir(), fmt.Sprintf("c39-%d-%s", os.Getpid(), name))
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return p
}

// until polls for a condition.
func until(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}
