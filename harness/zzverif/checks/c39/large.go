package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

// large: values, keys, batches and listings of many sizes.
func large(p *kit.P) {
	long, most := 1<<20, 1100
	if p.Deep() {
		long, most = 3<<20, 5200
	}
	nodes, stop := once(func() []*server { return startCluster(2, 1) })
	defer stop()
	for _, n := range kit.Sizes(long) {
		id := fmt.Sprint("value of ", n)
		if !p.Begin("%s", id) {
			continue
		}
		s := nodes()
		v := make([]byte, n)
		for i, x := 0, uint32(n+1); i < n; i++ {
			x = x*1664525 + 1013904223
			v[i] = byte(x >> 24)
		}
		for at := range 2 {
			for _, way := range []string{"put", "text", "base64"} {
				k := fmt.Sprint(tag(id), way, at)
				v := v
				var a ans
				switch way {
				case "put":
					a = s[at].do("PUT", "/v1/cache/"+k, v)
				case "text":
					v = []byte(strings.Repeat("\"x\n", n/3) + strings.Repeat("y", n%3))
					a = s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": string(v)}}})
				case "base64":
					if n > 1<<20 {
						continue
					}
					a = s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": b64(v), "value_encoding": "base64", "ttl_ms": 5400000}}})
				}
				if a.status != 200 || way != "put" && !bytes.Contains(a.body, []byte(`"stored":true`)) {
					p.Fail(id, "store:"+way, "%s: %.200s", id, a)
					continue
				}
				e := &entry{val: v}
				if way == "base64" {
					e.ttl = 90 * time.Minute
				}
				for _, srv := range s {
					if w, _ := keyReads(srv, k, e, 1); w != "" {
						p.Fail(id, "read:"+way, "%s by %s at n%d: %.200s", id, way, at, w)
					}
				}
				if a := s[1-at].do("DELETE", "/v1/cache/"+k, nil); a.status != 200 {
					p.Fail(id, "delete", "%s: %.200s", id, a)
				}
			}
		}
		p.Outcome("value")
	}
	for _, n := range kit.Sizes(20000) {
		id := fmt.Sprint("key of ", n)
		if n < 9 || !p.Begin("%s", id) {
			continue
		}
		s := nodes()
		word := func(w string) string {
			if n > 3900 { // too long for a URL between nodes
				return "unreachable"
			}
			return w
		}
		for at := range 2 {
			for z := range 4 { // some are the other node's
				k := (fmt.Sprint(tag(fmt.Sprint(id, at, z)), z) + strings.Repeat("k", n))[:n]
				v := []byte("of " + k[:9])
				a := s[at].post("/v1/cache/batch/put", map[string]any{"items": []any{map[string]any{"key": k, "value": string(v)}, map[string]any{"key": k + "x", "value": "else"}}})
				if a.status != 200 || strings.Count(string(a.body), `"stored":true`) != 2 {
					p.Fail(id, "store", "%s: %.200s", id, a)
					continue
				}
				for i, srv := range s {
					if n <= 3000 {
						if w, _ := keyReads(srv, k, &entry{val: v}, 1); w != "" {
							p.Fail(id, "read", "%s by n%d: %.200s", id, i, w)
						}
					}
					b := srv.post("/v1/cache/batch/get", map[string]any{"keys": []string{k, k[1:], k + "x"}})
					var r struct{ Results []map[string]any }
					json.Unmarshal(b.body, &r)
					if b.status != 200 || len(r.Results) != 3 || r.Results[0]["value"] != b64(v) || r.Results[1]["found"] != false || r.Results[2]["value"] != b64([]byte("else")) {
						p.Fail(id, word("get"), "%s by n%d: %.200s", id, i, b)
					}
				}
				if a := s[1-at].post("/v1/cache/batch/delete", map[string]any{"keys": []string{k}}); a.status != 200 || !bytes.Contains(a.body, []byte(`"deleted":true`)) {
					p.Fail(id, word("delete"), "%s: %.200s", id, a)
				}
				for i, srv := range s {
					b := srv.post("/v1/cache/batch/get", map[string]any{"keys": []string{k, k + "x"}})
					if b.status != 200 || strings.Count(string(b.body), `"found":true`) != 1 {
						p.Fail(id, word("gone"), "%s by n%d: %.200s", id, i, b)
					}
				}
			}
		}
		p.Outcome("key")
	}
	for _, n := range kit.Sizes(most) {
		id := fmt.Sprint("batch of ", n)
		if !p.Begin("%s", id) {
			continue
		}
		s := nodes()
		pre := tag(id)
		var keys []string
		var items []client.BatchSetItem
		for i := range n {
			k := fmt.Sprintf("%s-%05d", pre, i)
			keys = append(keys, k)
			items = append(items, client.BatchSetItem{Key: k, Value: []byte(fmt.Sprint("v", i)), TTL: time.Duration(i%2) * time.Hour})
		}
		c, err := client.New([]string{"http://" + s[0].api})
		if err != nil {
			panic(err)
		}
		rs, err := c.BatchSet(bg, items)
		if err != nil || len(rs) != n || slices.ContainsFunc(rs, func(r client.BatchPutResult) bool { return !r.Stored }) {
			p.Fail(id, "set", "%s: %d results, %v", id, len(rs), err)
		}
		for i, srv := range s {
			o, err := client.New([]string{"http://" + srv.api})
			if err != nil {
				panic(err)
			}
			gs, err := o.BatchGet(bg, append(slices.Clone(keys), pre))
			if err != nil || len(gs) != n+1 || gs[n].Found {
				p.Fail(id, "get", "%s by n%d: %d results, %v", id, i, len(gs), err)
				continue
			}
			for j, k := range keys {
				if g := gs[j]; !g.Found || g.Key != k || g.Item == nil || string(g.Item.Value) != fmt.Sprint("v", j) || (g.Item.TTLMs > 0) != (j%2 == 1) {
					p.Fail(id, "get", "%s by n%d: item %d is %+v", id, i, j, g)
					break
				}
			}
			o.Close()
			for _, page := range []int{1 + n/3, 500} {
				var all []string
				cursor := ""
				for rounds := 0; ; rounds++ {
					a := srv.do("GET", fmt.Sprintf("/v1/cache/keys?q=%s&limit=%d&cursor=%s", pre, page, url.QueryEscape(cursor)), nil)
					m := a.json()
					l, _ := m["keys"].([]any)
					for _, k := range l {
						all = append(all, fmt.Sprint(k))
					}
					if total, _ := m["total_matched"].(float64); a.status != 200 || int(total) != n || len(l) > page {
						p.Fail(id, "page", "%s by n%d: %.200s", id, i, a)
						break
					}
					cursor, _ = m["next_cursor"].(string)
					if cursor == "" || rounds > n {
						break
					}
				}
				if !slices.Equal(all, keys) {
					p.Fail(id, "listing", "%s by n%d: %d keys in pages of %d", id, i, len(all), page)
				}
			}
		}
		ds, err := c.BatchDelete(bg, keys)
		if err != nil || len(ds) != n || slices.ContainsFunc(ds, func(r client.BatchDeleteResult) bool { return !r.Deleted }) {
			p.Fail(id, "delete", "%s: %d results, %v", id, len(ds), err)
		}
		c.Close()
		for i, srv := range s {
			if a := srv.do("GET", "/v1/cache/keys?q="+pre, nil); a.status != 200 || a.json()["total_matched"] != 0.0 {
				p.Fail(id, "deleted", "%s by n%d: %.200s", id, i, a)
			}
		}
		p.Outcome("batch")
	}
}
