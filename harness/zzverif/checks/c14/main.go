// C14: the client presents exactly the configured credential over the
// configured transport.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"log/slog"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"time"

	"golang.org/x/oauth2/clientcredentials"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/client"
)

var ctx = context.Background()

type tap struct {
	name     string
	requests []seen
	idp      fake.Ans
	fail     int // how many cache answers are 503 first
}

type seen struct {
	host, auth string
	auths      int
	left       time.Duration // until the request's deadline
	body, uri  string
}

func (t *tap) RoundTrip(r *http.Request) (*http.Response, error) {
	s := seen{host: r.URL.Host, auth: r.Header.Get("Authorization"), auths: len(r.Header.Values("Authorization")), uri: r.URL.String()}
	if d, ok := r.Context().Deadline(); ok {
		s.left = time.Until(d)
	}
	n := &fake.Net{Do: func(q fake.Req) fake.Ans {
		s.body = string(q.Body)
		if q.Host == "idp" {
			return t.idp
		}
		if t.fail > 0 {
			t.fail--
			return fake.Ans{Status: 503}
		}
		return fake.Ans{Status: 200, Body: `{"results":[],"members":[{"address":"n1","state":"alive"},{"address":"http://n2","state":"suspect"}]}`}
	}}
	resp, err := n.RoundTrip(r)
	t.requests = append(t.requests, s)
	return resp, err
}

func token(access string, life int) fake.Ans {
	return fake.Ans{Status: 200, Header: http.Header{"Content-Type": {"application/json"}},
		Body: fmt.Sprintf(`{"access_token":%q,"token_type":"Bearer","expires_in":%d}`, access, life)}
}

var cc = clientcredentials.Config{ClientID: "cid", ClientSecret: secret, TokenURL: "http://idp/token", Scopes: []string{"s1"}}

const secret = "ZWQXVKJYQZGVXWKQ-secret"

var tokens = [3]string{"QJXZVWKYGQXJVZWQ", "XZJQKWVGYXQZWJKV", "VYQXGJWZKQVXZYJW"}

// fragment finds a piece of a secret in a text: four characters of it
// together, in any place, are too many.
func fragment(s string) string {
	for _, x := range append(tokens[:], secret[:16]) {
		for i := 0; i+4 <= len(x); i++ {
			if strings.Contains(s, x[i:i+4]) {
				return x[i : i+4]
			}
		}
	}
	return ""
}

type opt struct {
	name string
	auth string // credential it configures; "" none, "oidc"
	base int    // 1, 2: sets transport A, B
	mk   func(a, b *http.Client) client.Option
}

var opts = []opt{
	{"httpA", "", 1, func(a, b *http.Client) client.Option { return client.WithHTTPClient(a) }},
	{"httpB", "", 2, func(a, b *http.Client) client.Option { return client.WithHTTPClient(b) }},
	{"bearer1", "Bearer tok-1", 0, func(a, b *http.Client) client.Option { return client.WithBearerAuth("tok-1") }},
	{"bearer2", "Bearer tok 2/+=", 0, func(a, b *http.Client) client.Option { return client.WithBearerAuth("tok 2/+=") }},
	{"basic", "Basic " + base64.StdEncoding.EncodeToString([]byte("us:er:p:w")), 0, func(a, b *http.Client) client.Option { return client.WithBasicAuth("us:er", "p:w") }},
	{"basic2", "Basic " + base64.StdEncoding.EncodeToString([]byte("ü:\x01é")), 0, func(a, b *http.Client) client.Option { return client.WithBasicAuth("ü", "\x01é") }},
	{"basic3", "Basic " + base64.StdEncoding.EncodeToString([]byte(" a b\t: p\r\n")), 0, func(a, b *http.Client) client.Option { return client.WithBasicAuth(" a b\t", " p\r\n") }},
	{"oidc", "oidc", 0, func(a, b *http.Client) client.Option { return client.WithOIDCClientCredentials(cc) }},
	{"logger", "", 0, func(a, b *http.Client) client.Option { return client.WithLogger(nil) }},
	{"refresh", "", 0, func(a, b *http.Client) client.Option { return client.WithTopologyRefresh(0) }},
}

var calls = []func(c *client.Client) error{
	func(c *client.Client) error { return c.Set(ctx, "k", []byte("v"), 0) },
	func(c *client.Client) error { _, err := c.Get(ctx, "k"); return err },
	func(c *client.Client) error { return c.Delete(ctx, "k") },
	func(c *client.Client) error { _, err := c.BatchGet(ctx, []string{"k"}); return err },
	func(c *client.Client) error { _, err := c.Identity(ctx); return err },
	func(c *client.Client) error { return c.RefreshTopology(ctx) },
	func(c *client.Client) error { return c.Set(ctx, "k2", []byte("w"), time.Minute) },
}

func sequences(p *kit.P) {
	maxLen := 3
	if p.Deep() {
		maxLen = 5
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		one(p, seq)
		if len(seq) < maxLen {
			for i := range opts {
				rec(append(slices.Clone(seq), i))
			}
		}
	}
	rec(nil)
}

func one(p *kit.P, seq []int) {
	var names []string
	base, cred := 0, ""
	lost := false // a credential configured before WithHTTPClient: unspecified
	for _, i := range seq {
		names = append(names, opts[i].name)
		if opts[i].base > 0 {
			base = opts[i].base
			if cred != "" {
				lost = true
			}
			cred = ""
		}
		if opts[i].auth != "" {
			cred, lost = opts[i].auth, false
		}
	}
	id := strings.Join(names, ",")
	if !p.Begin("%s", id) {
		return
	}
	taps := []*tap{{name: "default"}, {name: "A"}, {name: "B"}}
	for _, t := range taps {
		t.idp = token("oidc-token", 3600)
		t.fail = 1
	}
	saved := http.DefaultTransport
	http.DefaultTransport = taps[0]
	defer func() { http.DefaultTransport = saved }()
	a := &http.Client{Transport: taps[1], Timeout: time.Minute}
	b := &http.Client{Transport: taps[2]}
	ca, cb := *a, *b
	var os []client.Option
	for _, i := range seq {
		os = append(os, opts[i].mk(a, b))
	}
	c, err := client.New([]string{"http://n1", "http://n2"}, os...)
	if len(seq)%2 == 1 && cred != "" && !lost { // a credential in a seed does not replace the configured one
		c, err = client.New([]string{"http://n1", "http://sd:pw@n2"}, os...)
	}
	if err != nil {
		p.Fail(id, "new", "%v", err)
		return
	}
	for i, call := range calls {
		if err := call(c); err != nil {
			p.Fail(id, "call", "options %s: call %d failed: %v", id, i, err)
			return
		}
	}
	if a.Transport != ca.Transport || a.Timeout != ca.Timeout || b.Transport != cb.Transport {
		p.Fail(id, "caller", "options %s changed the caller's http.Client", id)
	}
	tokens, longest := 0, time.Duration(0)
	for i, t := range taps {
		for _, s := range t.requests {
			if i != base {
				p.Fail(id, "transport", "options %s: a request to %s went over transport %s, configured is %s", id, s.uri, t.name, taps[base].name)
				return
			}
			if s.host == "idp" {
				tokens++
				if cred != "oidc" && !lost {
					p.Fail(id, "idp", "options %s: a token was fetched", id)
				}
				if strings.Contains(s.auth, "tok") || strings.HasPrefix(s.auth, "Bearer") {
					p.Fail(id, "leak", "options %s: the identity provider was sent %q", id, s.auth)
				}
				continue
			}
			want := cred
			if cred == "oidc" {
				want = "Bearer oidc-token"
			}
			if lost {
				continue
			}
			if s.auth != want || s.auths > 1 || want == "" && s.auths > 0 {
				p.Fail(id, "credential", "options %s: %s was sent %d credentials, %q, want %q", id, s.uri, s.auths, s.auth, want)
				return
			}
			if strings.Contains(s.body+s.uri, "secret") || strings.Contains(s.body+s.uri, "tok") {
				p.Fail(id, "leak", "options %s: a secret went to %s in the request", id, s.uri)
			}
			longest = max(longest, s.left)
			lo, hi := []time.Duration{1, 30 * time.Second, 0}[base], []time.Duration{10 * time.Second, time.Minute, 0}[base]
			if s.left < lo || s.left > hi {
				p.Fail(id, "timeout", "options %s: a request ran with %s left, want between %s and %s", id, s.left, lo, hi)
				return
			}
		}
	}
	if base == 0 && !lost && longest < 9500*time.Millisecond {
		// the fastest of a dozen requests that go nowhere: were it this slow,
		// every one of them would have been
		p.Fail(id, "timeout", "options %s: no request had more than %s of the default 10 s", id, longest)
	}
	if cred == "oidc" && tokens != 1 {
		p.Fail(id, "token-cache", "options %s: %d token requests for a token valid for an hour", id, tokens)
	}
	p.Outcome("%d %s", base, cred)
}

// oidc: the token's life.
func oidc(p *kit.P) {
	bad := []fake.Ans{{Status: 500}, {Status: 401, Body: `{"error":"invalid_client"}`}, {Err: fake.ErrDial}, {Status: 200, Body: "{}"}, {Status: 200, Body: "x"}, token("", 3600)}
	// a sequence of answers of the identity provider, one call after each
	good := []fake.Ans{token(tokens[0], 1), token(tokens[1], 3600), token(tokens[2], 1)}
	all := append(slices.Clone(good), bad...)
	n := len(all)
	for x := 0; x < n*n*n; x++ {
		id := fmt.Sprintf("%d", x)
		if !p.Begin("%s", id) {
			continue
		}
		var log bytes.Buffer
		t := &tap{}
		c, err := client.New([]string{"http://n1"}, client.WithHTTPClient(&http.Client{Transport: t}), client.WithOIDCClientCredentials(cc),
			client.WithLogger(slog.New(slog.NewTextHandler(&log, &slog.HandlerOptions{Level: slog.LevelDebug}))))
		if err != nil {
			p.Fail(id, "new", "%v", err)
			return
		}
		cached := ""
		y := x
		for range 3 {
			k := y % n
			y /= n
			t.idp = all[k]
			t.requests = nil
			err := c.Delete(ctx, "k")
			want := cached
			fetch := want == ""
			if fetch && k < len(good) {
				want = tokens[k]
				if k == 1 {
					cached = want
				}
			}
			var idp, node []seen
			for _, s := range t.requests {
				if s.host == "idp" {
					idp = append(idp, s)
				} else {
					node = append(node, s)
				}
			}
			if fetch != (len(idp) > 0) {
				p.Fail(id, "token-cache", "step with cached=%q: %d token requests", cached, len(idp))
				return
			}
			if want == "" {
				if err == nil || len(node) > 0 {
					p.Fail(id, "no-token", "without a token (%+v): error %v, %d requests reached the cache", t.idp, err, len(node))
					return
				}
				if f := fragment(err.Error()); f != "" {
					p.Fail(id, "leak", "the error shows %q, part of a secret: %v", f, err)
				}
			} else if err != nil || len(node) != 1 || node[0].auth != "Bearer "+want {
				p.Fail(id, "token", "want token %s: error %v, requests %+v", want, err, node)
				return
			}
			for _, s := range idp {
				v, _ := url.ParseQuery(s.body)
				if v.Get("grant_type") != "client_credentials" || v.Get("scope") != "s1" {
					p.Fail(id, "grant", "token request %q", s.body)
				}
			}
			if f := fragment(log.String()); f != "" {
				p.Fail(id, "leak", "the log shows %q, part of a secret: %s", f, log.String())
			}
			p.Outcome("%v %s", fetch, want)
		}
	}
}

// exact: whatever the credential consists of, it is sent as it is.
func exact(p *kit.P) {
	var texts []string
	for b := range 256 {
		for _, f := range []string{"%c", "a%c", "%cbc", "ab%c", "abc%cdef"} {
			texts = append(texts, strings.Replace(f, "%c", string([]byte{byte(b)}), 1))
		}
	}
	for _, n := range kit.Sizes(20_000) {
		if n > 0 {
			texts = append(texts, strings.Repeat("Ab3+/=", n/6+1)[:n])
		}
	}
	for i, x := range texts {
		id := fmt.Sprintf("%d: %.20q", i, x)
		if !p.Begin("%s", id) {
			continue
		}
		for j, o := range []struct {
			opt  client.Option
			want string
		}{
			{client.WithBearerAuth(x), "Bearer " + x},
			{client.WithBasicAuth(x, "pw"), "Basic " + base64.StdEncoding.EncodeToString([]byte(x+":pw"))},
			{client.WithBasicAuth("user", x), "Basic " + base64.StdEncoding.EncodeToString([]byte("user:"+x))},
			{client.WithBasicAuth(x, x), "Basic " + base64.StdEncoding.EncodeToString([]byte(x+":"+x))},
		} {
			if j == 0 && (strings.ContainsFunc(x, func(r rune) bool { return r < ' ' || r > '~' }) || strings.TrimSpace(x) == "") {
				continue // cannot stand in a header
			}
			t := &tap{fail: 1}
			c, err := client.New([]string{"http://n1", "http://n2"}, client.WithHTTPClient(&http.Client{Transport: t}), o.opt)
			if err != nil {
				p.Fail(id, "new", "%q: %v", x, err)
				return
			}
			if err := c.Delete(ctx, "k"); err != nil || len(t.requests) != 2 {
				p.Fail(id, "call", "%q: %d requests, %v", x, len(t.requests), err)
				return
			}
			for _, s := range t.requests {
				if s.auth != o.want || s.auths != 1 {
					p.Fail(id, "credential", "sent %.100q (%d times), want %.100q", s.auth, s.auths, o.want)
					return
				}
			}
			p.Outcome("%d", j)
		}
	}
}

// refused: options that are refused.
func refused(p *kit.P) {
	for mask := 0; mask < 8; mask++ {
		cfg := clientcredentials.Config{}
		if mask&1 > 0 {
			cfg.ClientID = "i"
		}
		if mask&2 > 0 {
			cfg.ClientSecret = "s"
		}
		if mask&4 > 0 {
			cfg.TokenURL = "http://idp"
		}
		id := fmt.Sprintf("mask %d", mask)
		if !p.Begin("%s", id) {
			continue
		}
		_, e1 := client.New([]string{"http://x"}, client.WithOIDCClientCredentials(cfg))
		u, pw, tok := cfg.ClientID, cfg.ClientSecret, cfg.TokenURL
		_, e2 := client.New([]string{"http://x"}, client.WithBasicAuth(u, pw))
		_, e3 := client.New([]string{"http://x"}, client.WithBearerAuth(tok))
		_, e4 := client.New([]string{"http://x"}, client.WithHTTPClient(nil))
		if (e1 == nil) != (mask == 7) || (e2 == nil) != (mask&3 == 3) || (e3 == nil) != (mask&4 > 0) || e4 == nil {
			p.Fail(id, "option", "oidc %+v: %v; basic %q %q: %v; bearer %q: %v; nil client: %v", cfg, e1, u, pw, e2, tok, e3, e4)
		}
		p.Outcome("%v", e1 == nil)
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "sequences", Plain: sequences, Weight: 3},
		kit.Scenario{Name: "oidc", Plain: oidc, Weight: 2},
		kit.Scenario{Name: "exact", Plain: exact},
		kit.Scenario{Name: "refused", Plain: refused, Single: true},
	)
}
