// C12: topology refresh follows the cluster and never loses it.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
	"github.com/hyp3rd/hypercache/pkg/client"
)

var ctx = context.Background()

type member struct {
	Address string `json:"address"`
	State   string `json:"state"`
	ID      string `json:"id"`
	Incarn  int    `json:"incarnation"`
}

var al = []member{
	{"n1:80", "alive", "a", 1}, {"n2:80", "suspect", "b", 1}, {"n3:80", "dead", "c", 1}, {"", "alive", "d", 1},
	{"https://n4:443/", "alive", "e", 1}, {"  ", "alive", "f", 1}, {" n5:80 ", "alive", "g", 1}, {"N7.Example.COM:8080", "alive", "j", 1}, {"[2001:DB8::1]:80", "alive", "k", 1}, {"", "dead", "h", 1}, {"http://n6", "dead", "i", 1}, {"https://n8:9443/base//", "suspect", "l", 1},
}

func want(scheme string, ms []member) []string {
	var out []string
	for _, m := range ms {
		a := strings.TrimSpace(m.Address)
		if a == "" || m.State == "dead" {
			continue
		}
		if strings.Contains(a, "://") {
			out = append(out, strings.TrimRight(a, "/"))
		} else {
			out = append(out, scheme+"://"+a)
		}
	}
	return out
}

func view(ms []member) string {
	b, _ := json.Marshal(map[string]any{"replication": 3, "members": ms})
	return string(b)
}

// projection: every member list up to three entries, every seed scheme.
func projection(p *kit.P) {
	seeds := map[string]string{"http://seed": "http", "https://seed": "https", "http://seed https://seed2": "http", "https://seed http://seed2": "https", "http://seed http://seed2 https://seed3": "http"}
	var lists [][]member
	lists = append(lists, nil)
	for _, a := range al {
		lists = append(lists, []member{a})
		for _, b := range al {
			lists = append(lists, []member{a, b})
			for _, c := range al {
				lists = append(lists, []member{a, b, c})
			}
		}
	}
	for seed, scheme := range seeds {
		for i, l := range lists {
			id := fmt.Sprintf("seed=%s list=%d", seed, i)
			if !p.Begin("%s", id) {
				continue
			}
			answer := view(l)
			net := &fake.Net{Do: func(q fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: answer} }}
			c, _ := client.New(strings.Fields(seed), client.WithHTTPClient(net.Client()))
			before := c.Endpoints()
			err := c.RefreshTopology(ctx)
			w := want(scheme, l)
			if len(w) == 0 {
				w = before
			}
			got := c.Endpoints()
			if err != nil || !slices.Equal(got, w) {
				p.Fail(id, "view", "seeds %q, members %s: endpoints %q (%v), want %q", before, answer, got, err, w)
				return
			}
			// what follows goes only there
			net.Log = nil
			net.Do = func(fake.Req) fake.Ans { return fake.Ans{Status: 500} }
			_ = c.Delete(ctx, "k")
			var to []string
			for _, q := range net.Log {
				to = append(to, q.Host)
			}
			for _, h := range to {
				if !slices.ContainsFunc(w, func(e string) bool { return strings.Contains(e+"/", "//"+h+"/") }) {
					p.Fail(id, "stale", "after a refresh to %q a call went to %q", w, to)
					return
				}
			}
			// a failed refresh changes nothing
			for _, bad := range []fake.Ans{{Err: fake.ErrDial}, {Status: 500}, {Status: 401}, {Status: 404}, {Status: 200, Body: "{"}, {Status: 200, Body: `{"members":"x"}`}, {Status: 200, Body: view([]member{{"zz:1", "alive", "z", 1}})[:30]},
				{Status: 200, Body: `{"members":[{"address":"zz:1","state":"alive"},{"address":5,"state":"alive"}]}`}, {Status: 200, Body: `{"members":[{"address":"zz:1","state":"alive"},7]}`},
				{Status: 200, Body: `{"members":[{"address":"zz:1","state":"alive"}`}, {Status: 200, Body: view([]member{{"zz:1", "alive", "z", 1}})[:40], BodyErr: fake.ErrDial},
				{Status: 200, Body: `{"members":[{"address":"zz:1","state":["alive"]}]}`}} {
				net.Do = func(fake.Req) fake.Ans { return bad }
				if err := c.RefreshTopology(ctx); err == nil {
					p.Fail(id, "silent", "a refresh answered %+v reports no error", bad)
					return
				}
				if got := c.Endpoints(); !slices.Equal(got, w) {
					p.Fail(id, "wiped", "a failed refresh (%+v) changed the endpoints from %q to %q", bad, w, got)
					return
				}
			}
			// an empty answer changes nothing
			for _, body := range []string{"{}", view(nil), view(al[2:4]), "null"} {
				net.Do = func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: body} }
				_ = c.RefreshTopology(ctx)
				if got := c.Endpoints(); !slices.Equal(got, w) {
					p.Fail(id, "wiped", "a refresh answered %s changed the endpoints from %q to %q", body, w, got)
					return
				}
			}
			p.Outcome("%d", len(w))
		}
	}
}

// many: a large cluster is taken over whole.
func many(p *kit.P) {
	for _, n := range kit.Sizes(2001) {
		id := fmt.Sprintf("%d members", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		var l []member
		for i := range n {
			l = append(l, member{fmt.Sprintf("n%d:80", i), []string{"alive", "suspect"}[i%2], fmt.Sprint(i), i})
		}
		net := &fake.Net{Do: func(fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: view(l)} }}
		c, _ := client.New([]string{"http://seed"}, client.WithHTTPClient(net.Client()))
		if err := c.RefreshTopology(ctx); err != nil || !slices.Equal(c.Endpoints(), want("http", l)) {
			p.Fail(id, "view", "a refresh to %d members: %v, %d endpoints", n, err, len(c.Endpoints()))
			return
		}
		l = l[n/2:]
		if err := c.RefreshTopology(ctx); err != nil || !slices.Equal(c.Endpoints(), want("http", l)) {
			p.Fail(id, "view", "a refresh from %d to %d members: %v, %d endpoints", n, len(l), err, len(c.Endpoints()))
			return
		}
		p.Outcome("ok")
	}
}

// loop: the periodic refresh over every sequence of answers.
func loop(n int) func() {
	return func() {
		iv := []time.Duration{time.Second, 7 * time.Second}[vsched.Choose(2)]
		views := [][]member{{al[0]}, {al[0], al[1]}}
		mode := 0
		net := &fake.Net{}
		net.Do = func(q fake.Req) fake.Ans {
			if q.Path != "/cluster/members" {
				return fake.Ans{Status: 200}
			}
			switch mode {
			case 0, 1:
				return fake.Ans{Status: 200, Body: view(views[mode])}
			case 2:
				return fake.Ans{Err: fake.ErrDial}
			case 3:
				return fake.Ans{Status: 200, Body: "{"}
			default:
				return fake.Ans{Status: 200, Body: view(nil)}
			}
		}
		c, err := client.New([]string{"http://seed"}, client.WithHTTPClient(net.Client()), client.WithTopologyRefresh(iv))
		if err != nil {
			vsched.Fail("[new] %v", err)
		}
		exp := []string{"http://seed"}
		vtime.Sleep(iv / 2)
		var trail []int
		for range n {
			if got := c.Endpoints(); !slices.Equal(got, exp) {
				vsched.Fail("[view] after refreshes %v (interval %s): endpoints %q, want %q", trail, iv, got, exp)
			}
			mode = vsched.Choose(5)
			trail = append(trail, mode)
			before := len(net.Log)
			vtime.Sleep(iv)
			if len(net.Log) == before {
				vsched.Fail("[stopped] no refresh within an interval after %v", trail)
			}
			if mode < 2 {
				exp = want("http", views[mode])
			}
		}
		if got := c.Endpoints(); !slices.Equal(got, exp) {
			vsched.Fail("[view] after refreshes %v (interval %s): endpoints %q, want %q", trail, iv, got, exp)
		}
		_ = c.Close()
		vsched.Outcome("%v", exp)
	}
}

// persist: no number of failures in a row ends the refreshes.
func persist() {
	vsched.Calm(true)
	n := []int{7, 40, 300}[vsched.Choose(3)]
	kind := vsched.Choose(3)
	net := &fake.Net{}
	down := true
	net.Do = func(q fake.Req) fake.Ans {
		switch {
		case !down:
			return fake.Ans{Status: 200, Body: view(al[:1])}
		case kind == 0:
			return fake.Ans{Err: fake.ErrDial}
		case kind == 1:
			return fake.Ans{Status: 503, Body: "{}"}
		}
		return fake.Ans{Status: 200, Body: "["}
	}
	c, err := client.New([]string{"http://seed"}, client.WithHTTPClient(net.Client()), client.WithTopologyRefresh(time.Second))
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	vtime.Sleep(500 * time.Millisecond)
	for i := range n {
		before := len(net.Log)
		vtime.Sleep(time.Second)
		if len(net.Log) == before {
			vsched.Fail("[stopped] no refresh in the interval after %d failures in a row", i)
		}
	}
	down = false
	vtime.Sleep(time.Second)
	if got := c.Endpoints(); !slices.Equal(got, []string{"http://n1:80"}) {
		vsched.Fail("[view] after %d failures in a row a good answer gave %q", n, got)
	}
	_ = c.Close()
	vsched.Outcome("%d", n)
}

// hang: a refresh that gets no answer gives up, and the next one works.
func hang() {
	net := &fake.Net{}
	stuck := true
	net.Do = func(q fake.Req) fake.Ans { return fake.Ans{Status: 200, Body: view(al[:1])} }
	hn := &hangNet{Net: net, stuck: &stuck}
	hc := net.Client()
	hc.Transport = hn
	c, _ := client.New([]string{"http://seed"}, client.WithHTTPClient(hc), client.WithTopologyRefresh(time.Second))
	vtime.Sleep(1500 * time.Millisecond)
	if got := c.Endpoints(); !slices.Equal(got, []string{"http://seed"}) {
		vsched.Fail("[view] %q", got)
	}
	stuck = false
	vtime.Sleep(5 * time.Second)
	if got := c.Endpoints(); !slices.Equal(got, []string{"http://n1:80"}) {
		vsched.Fail("[hang] a refresh without an answer stopped the refreshes: %q", got)
	}
	_ = c.Close()
	vsched.Outcome("ok")
}

// whole: a call made while the view changes uses one whole view.
func whole() {
	pool := func(addrs ...string) (out []member) {
		for i, a := range addrs {
			out = append(out, member{a, []string{"alive", "suspect"}[i%2], "", 0})
		}
		return out
	}
	// other members, more or fewer of them, as many others, one replaced, the same ones in another order
	pairs := [][2][]member{
		{pool("a1:80", "a2:80"), pool("b1:80", "b2:80", "b3:80")},
		{pool("a1:80", "a2:80"), pool("b1:80", "b2:80")},
		{pool("a1:80", "a2:80"), pool("a2:80", "a1:80")},
		{pool("a1:80", "a2:80", "a3:80"), pool("b1:80", "a2:80")},
	}
	v := pairs[vsched.Choose(len(pairs))]
	a, b := v[0], v[1]
	serve := a
	net := &fake.Net{}
	net.Do = func(q fake.Req) fake.Ans {
		if q.Path == "/cluster/members" {
			return fake.Ans{Status: 200, Body: view(serve)}
		}
		return fake.Ans{Status: 503}
	}
	c, _ := client.New([]string{"http://seed"}, client.WithHTTPClient(net.Client()))
	_ = c.RefreshTopology(ctx)
	serve = b
	net.Log = nil
	var g vsched.Group
	g.Go(func() { _ = c.RefreshTopology(ctx) })
	var seen []string
	g.Go(func() {
		err := c.Delete(ctx, "k")
		if err == nil {
			vsched.Fail("[result] no endpoint works but Delete succeeded")
		}
	})
	g.Go(func() { seen = c.Endpoints() })
	g.Wait()
	if !slices.Equal(seen, want("http", a)) && !slices.Equal(seen, want("http", b)) {
		vsched.Fail("[torn] Endpoints returned %q during a refresh", seen)
	}
	var to []string
	for _, q := range net.Log {
		if q.Path != "/cluster/members" {
			to = append(to, "http://"+q.Host)
		}
	}
	slices.Sort(to)
	if !slices.Equal(to, slices.Sorted(slices.Values(want("http", a)))) && !slices.Equal(to, slices.Sorted(slices.Values(want("http", b)))) {
		vsched.Fail("[torn] a call during a refresh went to %q", to)
	}
	if got := c.Endpoints(); !slices.Equal(got, want("http", b)) {
		vsched.Fail("[view] after the refresh: %q", got)
	}
	vsched.Outcome("%d %d", len(to), len(seen))
}

// options: which intervals are accepted.
func options(p *kit.P) {
	for _, iv := range []time.Duration{-time.Hour, -1, 0, 1, time.Millisecond, 999999999, time.Second, time.Second + 1, time.Hour} {
		id := iv.String()
		if !p.Begin("%s", id) {
			continue
		}
		c, err := client.New([]string{"http://x"}, client.WithTopologyRefresh(iv), client.WithHTTPClient((&fake.Net{Do: func(fake.Req) fake.Ans { return fake.Ans{Status: 500} }}).Client()))
		if bad := iv > 0 && iv < time.Second; bad != (err != nil) {
			p.Fail(id, "option", "refresh interval %s: %v", iv, err)
		}
		if err == nil {
			_ = c.Close()
			_ = c.Close()
		}
		p.Outcome("%v", err == nil)
	}
}

func main() {
	seq := vsched.Opts{MaxSteps: 20000}
	kit.Main(
		kit.Scenario{Name: "projection", Plain: projection, Weight: 3},
		kit.Scenario{Name: "many", Plain: many, Single: true},
		kit.Scenario{Name: "loop-4", Body: loop(4), Deep: seq, Weight: 2},
		kit.Scenario{Name: "loop-2", Body: loop(2), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 2}, Weight: 2},
		kit.Scenario{Name: "loop-6", Body: loop(6), Deep: seq, DeepOnly: true},
		kit.Scenario{Name: "persist", Body: persist, Quick: vsched.Opts{MaxSteps: 100000}, Deep: vsched.Opts{MaxSteps: 100000}},
		kit.Scenario{Name: "hang", Body: hang, Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "whole", Body: whole, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, Weight: 2},
		kit.Scenario{Name: "options", Plain: options, Single: true},
	)
}
