// C10: a client call fails over exactly as documented.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/client"
)

// an endpoint's behaviour
type mode struct {
	name string
	ans  fake.Ans
	kind int // 0 success, 1 try the next one, 2 final
}

func env(status int, code string) fake.Ans {
	return fake.Ans{Status: status, Body: fmt.Sprintf(`{"code":%q,"error":"msg-%s","details":"d-%d"}`, code, code, status)}
}

const (
	ok = iota
	retry
	final
)

var modes = []mode{
	{"ok", fake.Ans{Status: 200}, ok},
	{"refused", fake.Ans{Err: fake.ErrDial}, retry},
	{"draining", env(503, "DRAINING"), retry},
	{"notfound", env(404, "NOT_FOUND"), final},
	{"internal", env(500, "INTERNAL"), retry},
	{"unauthorized", env(401, "UNAUTHORIZED"), final},
	{"forbidden", env(403, "FORBIDDEN"), final},
	{"bad", env(400, "BAD_REQUEST"), final},
	{"proxy502", fake.Ans{Status: 502, Body: "<html>bad gateway</html>"}, retry},
	{"busy429", fake.Ans{Status: 429, Body: "slow down"}, final},
	{"timeout504", fake.Ans{Status: 504}, retry},
	{"plain404", fake.Ans{Status: 404}, final},
	{"plain503", fake.Ans{Status: 503, Body: "{}"}, retry},
	{"409", env(409, "CONFLICT"), final},
	{"599", env(599, "WEIRD"), retry},
	{"499", fake.Ans{Status: 499, Body: `{"code":5}`}, final},
	{"nomsg409", fake.Ans{Status: 409, Body: `{"code":"CONFLICT","error":"","details":"why"}`}, final},
	{"nomsg500", fake.Ans{Status: 500, Body: `{"code":"INTERNAL","error":""}`}, retry},
	{"timeout", fake.Ans{Err: fmt.Errorf("dial: %w", context.DeadlineExceeded)}, retry},
	{"deadline", fake.Ans{Err: &net.OpError{Op: "read", Err: os.ErrDeadlineExceeded}}, retry},
	{"eof", fake.Ans{Err: io.EOF}, retry},
	{"reset", fake.Ans{Err: &net.OpError{Op: "read", Err: syscall.ECONNRESET}}, retry},
	{"dns", fake.Ans{Err: &net.DNSError{Err: "no such host", Name: "n", IsNotFound: true}}, retry},
	{"300", fake.Ans{Status: 300, Body: "choose"}, final},
	{"304", fake.Ans{Status: 304}, final},
	{"nocode500", fake.Ans{Status: 500, Body: `{"error":"x"}`}, retry},
}

// answers without the code that goes with their status, or with a code alone
var sparse = append(slices.Clone(modes), []mode{
	{"plain400", fake.Ans{Status: 400}, final}, {"plain401", fake.Ans{Status: 401, Body: "no"}, final}, {"plain403", fake.Ans{Status: 403, Body: "[]"}, final}, {"plain500", fake.Ans{Status: 500}, retry},
	{"418/NOT_FOUND", env(418, "NOT_FOUND"), final}, {"409/UNAUTHORIZED", env(409, "UNAUTHORIZED"), final}, {"429/DRAINING", env(429, "DRAINING"), final},
	{"422/BAD_REQUEST", env(422, "BAD_REQUEST"), final}, {"409/INTERNAL", env(409, "INTERNAL"), final}, {"451/not_found", env(451, "not_found"), final}, {"451/FORBIDDEN_X", env(451, "BAD_REQUEST_X"), final},
}...)

type command struct {
	name string
	body string
	run  func(*client.Client, context.Context) error
}

func errOf[T any](_ T, err error) error { return err }

const okBody = `{"key":"k","value":"dg==","value_encoding":"base64","members":[],"results":[],"id":"x","allowed":true}`

var commands = []command{
	{"Set", "", func(c *client.Client, x context.Context) error { return c.Set(x, "k", []byte("payload"), time.Minute) }},
	{"Get", okBody, func(c *client.Client, x context.Context) error { return errOf(c.Get(x, "k")) }},
	{"BatchSet", okBody, func(c *client.Client, x context.Context) error {
		return errOf(c.BatchSet(x, []client.BatchSetItem{{Key: "a", Value: []byte("1")}}))
	}},
	{"GetItem", okBody, func(c *client.Client, x context.Context) error { return errOf(c.GetItem(x, "k")) }},
	{"Delete", "", func(c *client.Client, x context.Context) error { return c.Delete(x, "k") }},
	{"Identity", okBody, func(c *client.Client, x context.Context) error { return errOf(c.Identity(x)) }},
	{"Can", okBody, func(c *client.Client, x context.Context) error { return errOf(c.Can(x, "cache.read")) }},
	{"BatchGet", okBody, func(c *client.Client, x context.Context) error { return errOf(c.BatchGet(x, []string{"a"})) }},
	{"BatchDelete", okBody, func(c *client.Client, x context.Context) error { return errOf(c.BatchDelete(x, []string{"a"})) }},
	{"RefreshTopology", okBody, func(c *client.Client, x context.Context) error { return c.RefreshTopology(x) }},
}

var sentinels = map[string]error{
	"notfound": client.ErrNotFound, "unauthorized": client.ErrUnauthorized, "forbidden": client.ErrForbidden,
	"draining": client.ErrDraining, "bad": client.ErrBadRequest, "internal": client.ErrInternal,
}

// family: the sentinels an answer belongs to.
func family(m mode) []string {
	switch m.ans.Status {
	case 400:
		return []string{"bad"}
	case 401:
		return []string{"unauthorized"}
	case 403:
		return []string{"forbidden"}
	case 404:
		return []string{"notfound"}
	case 503:
		return []string{"draining"}
	}
	if m.ans.Status >= 500 {
		return []string{"internal"}
	}
	if _, code, ok := strings.Cut(m.name, "/"); ok && m.ans.Status >= 400 {
		if fam := map[string]string{"NOT_FOUND": "notfound", "UNAUTHORIZED": "unauthorized", "DRAINING": "draining", "BAD_REQUEST": "bad", "INTERNAL": "internal"}[code]; fam != "" {
			return []string{fam}
		}
	}
	return nil
}

// explained: err tells what the answer m was.
func explained(who string, err error, m mode) {
	if m.ans.Err != nil {
		if !errors.Is(err, m.ans.Err) {
			vsched.Fail("[error] %s: %v does not wrap the transport failure", who, err)
		}
		return
	}
	var se *client.StatusError
	if !errors.As(err, &se) {
		vsched.Fail("[error] %s: %v (%T) carries no StatusError", who, err, err)
	}
	if se.HTTPStatus != m.ans.Status {
		vsched.Fail("[error] %s: status %d reported, the endpoint said %d", who, se.HTTPStatus, m.ans.Status)
	}
	var e struct{ Code, Error, Details string }
	if json.Unmarshal([]byte(m.ans.Body), &e) == nil && e.Code != "" {
		if se.Code != e.Code || se.Message != e.Error || se.Details != e.Details {
			vsched.Fail("[error] %s: %+v does not carry the error envelope %s", who, se, m.ans.Body)
		}
	} else if se.Code != "" || se.Message != m.ans.Body || se.Details != "" {
		vsched.Fail("[error] %s: %+v for the answer %d %q", who, se, m.ans.Status, m.ans.Body)
	}
	fam := family(m)
	for name, s := range sentinels {
		if errors.Is(err, s) != slices.Contains(fam, name) {
			vsched.Fail("[sentinel] %s: errors.Is(%v, %s) = %v for status %d", who, err, name, errors.Is(err, s), m.ans.Status)
		}
	}
}

func failover(n int, ms []mode, cs []command) func() {
	return func() {
		cmd := cs[vsched.Choose(len(cs))]
		var eps []string
		pick := map[string]mode{}
		var desc []string
		for i := range n {
			h := fmt.Sprintf("n%d:80", i)
			eps = append(eps, "http://"+h)
			m := ms[vsched.Choose(len(ms))]
			pick[h] = m
			desc = append(desc, m.name)
		}
		fn := &fake.Net{}
		fn.Do = func(q fake.Req) fake.Ans {
			a := pick[q.Host].ans
			if a.Status == 200 {
				a.Body = cmd.body
			}
			return a
		}
		c, err := client.New(eps, client.WithHTTPClient(fn.Client()))
		if err != nil {
			vsched.Fail("[new] %v", err)
		}
		err = cmd.run(c, context.Background())
		who := fmt.Sprintf("%s against %v", cmd.name, desc)
		var visited []string
		for i, q := range fn.Log {
			if slices.Contains(visited, q.Host) {
				vsched.Fail("[repeat] %s: endpoint %s tried twice", who, q.Host)
			}
			visited = append(visited, q.Host)
			f := fn.Log[0]
			if q.Method != f.Method || q.URI != f.URI || string(q.Body) != string(f.Body) || !sameHeader(q.Header, f.Header) {
				vsched.Fail("[request] %s: attempt %d sent %s %s %q, the first sent %s %s %q", who, i+1, q.Method, q.URI, q.Body, f.Method, f.URI, f.Body)
			}
			if i < len(fn.Log)-1 && pick[q.Host].kind != retry {
				vsched.Fail("[walk] %s: went on to another endpoint after %q", who, pick[q.Host].name)
			}
		}
		if len(visited) == 0 {
			vsched.Fail("[walk] %s: no endpoint tried", who)
		}
		for _, b := range fn.Bodies {
			if !b.Closed {
				vsched.Fail("[leak] %s: a response body was not closed", who)
			}
		}
		last := pick[visited[len(visited)-1]]
		switch last.kind {
		case ok:
			if err != nil {
				vsched.Fail("[result] %s: an endpoint answered 200 but the call failed: %v", who, err)
			}
		case final:
			if err == nil || errors.Is(err, client.ErrAllEndpointsFailed) {
				vsched.Fail("[result] %s: a final answer gave %v", who, err)
			}
			if last.ans.Status >= 400 || cmd.name != "RefreshTopology" { // which need not tell what a 3xx was
				explained(who, err, last)
			}
		case retry:
			if len(visited) != n {
				vsched.Fail("[walk] %s: gave up after %v of %d endpoints", who, visited, n)
			}
			if !errors.Is(err, client.ErrAllEndpointsFailed) {
				vsched.Fail("[result] %s: every endpoint failed, error is %v", who, err)
			}
			explained(who, err, last)
		}
		vsched.Outcome("%d/%s", len(visited), last.name)
	}
}

func sameHeader(a, b http.Header) bool {
	for _, k := range []string{"Content-Type", "Accept", "Authorization"} {
		if !slices.Equal(a.Values(k), b.Values(k)) {
			return false
		}
	}
	return true
}

// statuses: every status is classed as what it is, whatever the body says and
// however long it is.
func statuses() {
	st := 400 + vsched.Choose(200)
	fill := []int{0, 3, 1000, 70_000, 1_200_000}[vsched.Choose(5)]
	cmd := commands[[]int{0, 1, 3, 7}[vsched.Choose(4)]]
	if fill > 1000 && (st%50 > 4 || cmd.name == "GetItem") {
		vsched.Prune()
	}
	long := strings.Repeat("x", fill)
	a := fake.Ans{Status: st, Body: fmt.Sprintf(`{"details":"d%s","error":"m%s","code":"SOME"}`, long, long)}
	if fill == 3 {
		a.Body = "no envelope"
	}
	m := mode{fmt.Sprint(st), a, final}
	if st >= 500 {
		m.kind = retry
	}
	fn := &fake.Net{}
	fn.Do = func(q fake.Req) fake.Ans {
		if len(fn.Log) == 1 {
			return m.ans
		}
		return fake.Ans{Status: 200, Body: cmd.body}
	}
	c, err := client.New([]string{"http://a", "http://b"}, client.WithHTTPClient(fn.Client()))
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	err = cmd.run(c, context.Background())
	who := fmt.Sprintf("%s, status %d with a body of %d bytes, then 200", cmd.name, st, len(a.Body))
	if m.kind == retry && (err != nil || len(fn.Log) != 2 || fn.Log[0].Host == fn.Log[1].Host) {
		vsched.Fail("[walk] %s: %d attempts, %.200s", who, len(fn.Log), fmt.Sprint(err))
	}
	if m.kind == final {
		if len(fn.Log) != 1 || errors.Is(err, client.ErrAllEndpointsFailed) {
			vsched.Fail("[walk] %s: %d attempts, %.200s", who, len(fn.Log), fmt.Sprint(err))
		}
		explained(who, err, m)
	} else { // nor does it mean anything else when no other answers
		fn.Log = nil
		c, _ = client.New([]string{"http://a"}, client.WithHTTPClient(fn.Client()))
		err = cmd.run(c, context.Background())
		if !errors.Is(err, client.ErrAllEndpointsFailed) {
			vsched.Fail("[result] %s alone: %.200s", who, fmt.Sprint(err))
		}
		explained(who, err, m)
	}
	vsched.Outcome("%d", m.kind)
}

// cancelled: a caller that gave up is told so, and its request reaches no one
// as a live one.
func cancelled() {
	cmd := commands[vsched.Choose(len(commands))]
	ctx, cancel := context.WithCancel(context.Background())
	at := vsched.Choose(4) // which attempt the caller gives up in; 3: before the call
	n := 0
	fn := &fake.Net{Do: func(fake.Req) fake.Ans {
		n++
		if n == at+1 {
			cancel()
			return fake.Ans{Err: ctx.Err()}
		}
		return fake.Ans{Status: 503}
	}}
	if at == 3 {
		cancel()
	}
	c, _ := client.New([]string{"http://a", "http://b", "http://c"}, client.WithHTTPClient(fn.Client()))
	err := cmd.run(c, ctx)
	if !errors.Is(err, context.Canceled) {
		vsched.Fail("[cancel] %s cancelled at %d: error %v", cmd.name, at, err)
	}
	vsched.Outcome("%d", at)
}

// seeds: what New accepts.
func seeds(p *kit.P) {
	for _, c := range []struct {
		in, want []string
	}{
		{nil, nil}, {[]string{""}, nil}, {[]string{" ", "/", "//"}, nil},
		{[]string{"http://a"}, []string{"http://a"}}, {[]string{" http://a/ ", "", "http://b//"}, []string{"http://a", "http://b"}},
		{[]string{"http://a", "http://a"}, []string{"http://a", "http://a"}},
	} {
		id := fmt.Sprintf("%q", c.in)
		if !p.Begin("%s", id) {
			continue
		}
		cl, err := client.New(c.in)
		if len(c.want) == 0 {
			if !errors.Is(err, client.ErrNoEndpoints) {
				p.Fail(id, "seeds", "New(%q): %v", c.in, err)
			}
			continue
		}
		if err != nil || !slices.Equal(cl.Endpoints(), c.want) {
			p.Fail(id, "seeds", "New(%q): %v, endpoints %q", c.in, err, cl.Endpoints())
			continue
		}
		cl.Endpoints()[0] = "scribble"
		c.in[0] = "scribble"
		if !slices.Equal(cl.Endpoints(), c.want) {
			p.Fail(id, "alias", "the caller's slices alias the client's view: %q", cl.Endpoints())
		}
		p.Outcome("%d", len(c.want))
	}
}

// spread: every endpoint gets to be the first one tried (no fixed order).
func spread(p *kit.P) {
	for n := 2; n <= 4; n++ {
		id := fmt.Sprintf("endpoints=%d", n)
		if !p.Begin("%s", id) {
			continue
		}
		var eps []string
		for i := range n {
			eps = append(eps, fmt.Sprintf("http://n%d", i))
		}
		first := map[string]bool{}
		for range 3 { // a new client, too, must not prefer its first seed
			fn := &fake.Net{Do: func(fake.Req) fake.Ans { return fake.Ans{Status: 200} }}
			c, _ := client.New(eps, client.WithHTTPClient(fn.Client()))
			for range 200 {
				_ = c.Delete(context.Background(), "k")
			}
			for _, q := range fn.Log {
				first[q.Host] = true
			}
		}
		if len(first) != n { // chance of a false alarm: below 4*(3/4)^600
			p.Fail(id, "spread", "600 calls against %d endpoints started only at %v", n, first)
		}
		p.Outcome("%d", len(first))
	}
}

// many: a long list of endpoints is walked like a short one.
func many(p *kit.P) {
	for _, n := range kit.Sizes(1001) {
		for _, end := range []mode{modes[0], modes[1], modes[2], modes[3]} {
			id := fmt.Sprintf("%d endpoints, the last one tried: %s", n, end.name)
			if n == 0 || !p.Begin("%s", id) {
				continue
			}
			var eps []string
			for i := range n {
				eps = append(eps, fmt.Sprintf("http://n%d", i))
			}
			fn := &fake.Net{}
			fn.Do = func(q fake.Req) fake.Ans {
				if len(fn.Log) >= n {
					return end.ans
				}
				return modes[1+len(fn.Log)%2].ans
			}
			c, err := client.New(eps, client.WithHTTPClient(fn.Client()))
			if err != nil {
				p.Fail(id, "new", "%v", err)
				return
			}
			err = c.Set(context.Background(), "k", []byte("v"), 0)
			seen := map[string]bool{}
			for _, q := range fn.Log {
				seen[q.Host] = true
				if string(q.Body) != "v" || q.URI != fn.Log[0].URI {
					p.Fail(id, "request", "%s %s %q", q.Method, q.URI, q.Body)
					return
				}
			}
			if len(seen) != n || len(fn.Log) != n {
				p.Fail(id, "walk", "%d of %d endpoints tried in %d attempts: %v", len(seen), n, len(fn.Log), err)
				return
			}
			bad := (err == nil) != (end.kind == ok) || errors.Is(err, client.ErrAllEndpointsFailed) != (end.kind == retry)
			if end.ans.Err != nil {
				bad = bad || !errors.Is(err, end.ans.Err)
			} else if end.kind != ok {
				var se *client.StatusError
				bad = bad || !errors.As(err, &se) || se.HTTPStatus != end.ans.Status
			}
			if bad {
				p.Fail(id, "result", "%v", err)
				return
			}
			p.Outcome("%s", end.name)
		}
	}
}

// concurrent: calls by several goroutines do not disturb each other.
func concurrent() {
	fn := &fake.Net{Do: func(q fake.Req) fake.Ans {
		if q.Host == "n1" {
			return fake.Ans{Err: fake.ErrDial}
		}
		if q.Method == http.MethodGet {
			return fake.Ans{Status: 200, Body: strings.TrimPrefix(q.Path, "/v1/cache/")}
		}
		return fake.Ans{Status: 200}
	}}
	c, _ := client.New([]string{"http://n1", "http://n2"}, client.WithHTTPClient(fn.Client()))
	var g vsched.Group
	for _, k := range []string{"a", "b"} {
		g.Go(func() {
			if err := c.Set(context.Background(), k, []byte("v-"+k), 0); err != nil {
				vsched.Fail("[result] Set: %v", err)
			}
			v, err := c.Get(context.Background(), k)
			if err != nil || string(v) != k {
				vsched.Fail("[result] Get(%s) = %q, %v", k, v, err)
			}
		})
	}
	g.Wait()
	for _, q := range fn.Log {
		if q.Method == http.MethodPut && string(q.Body) != "v-"+strings.TrimPrefix(q.Path, "/v1/cache/") {
			vsched.Fail("[request] %s carries %q", q.Path, q.Body)
		}
	}
	vsched.Outcome("%d", len(fn.Log))
}

func main() {
	seq := vsched.Opts{MaxSteps: 20000}
	kit.Main(
		kit.Scenario{Name: "one", Body: failover(1, sparse, commands), Deep: seq},
		kit.Scenario{Name: "two", Body: failover(2, sparse, commands), Deep: seq, Weight: 2},
		kit.Scenario{Name: "three", Body: failover(3, modes[:6], commands[:5]), Deep: seq, Weight: 3},
		kit.Scenario{Name: "three-all", Body: failover(3, modes, commands), Deep: seq, Weight: 6},
		kit.Scenario{Name: "four", Body: failover(4, modes[:4], commands[:2]), Deep: seq, Weight: 3},
		kit.Scenario{Name: "statuses", Body: statuses, Deep: seq, Weight: 2},
		kit.Scenario{Name: "cancelled", Body: cancelled, Deep: seq},
		kit.Scenario{Name: "seeds", Plain: seeds, Single: true},
		kit.Scenario{Name: "many", Plain: many, Single: true},
		kit.Scenario{Name: "spread", Plain: spread, Single: true},
		kit.Scenario{Name: "concurrent", Body: concurrent, Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}, Race: true},
	)
}
