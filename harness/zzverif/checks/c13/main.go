// C13: closing a client.
package main

import (
	"context"
	"net/http"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vatomic"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
	"github.com/hyp3rd/hypercache/pkg/client"
)

const members = `{"members":[{"address":"n1:80","state":"alive"}]}`

// slow takes its time to answer a refresh, or never does.
type slow struct {
	*fake.Net
	delay time.Duration
	first int64 // only that many answers take time; 0: all
	calls vatomic.Int64
	live  vatomic.Int64
}

func (s *slow) RoundTrip(r *http.Request) (*http.Response, error) {
	n := s.calls.Add(1)
	s.live.Add(1)
	defer s.live.Add(-1)
	switch {
	case s.delay < 0 && n < 3:
		vsched.Recv(r.Context().Done())
		return nil, r.Context().Err()
	case s.delay > 0 && (s.first == 0 || n <= s.first):
		vtime.Sleep(s.delay)
	}
	return s.Net.RoundTrip(r)
}

func newClient(delay time.Duration, refresh bool) (*client.Client, *slow) {
	net := &fake.Net{Do: func(q fake.Req) fake.Ans {
		if q.Path == "/cluster/members" {
			return fake.Ans{Status: 200, Body: members}
		}
		return fake.Ans{Status: 200, Body: "v"}
	}}
	s := &slow{Net: net, delay: delay}
	opts := []client.Option{client.WithHTTPClient(&http.Client{Transport: s})}
	if refresh {
		opts = append(opts, client.WithTopologyRefresh(time.Second))
	}
	c, err := client.New([]string{"http://seed"}, opts...)
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	return c, s
}

// closers: several goroutines close a client, before, at or after a refresh.
func closers(n int) func() {
	return func() {
		refresh := vsched.Choose(4) > 0
		delay := []time.Duration{0, 300 * time.Millisecond, -1}[vsched.Choose(3)]
		at := []time.Duration{0, time.Second, 1100 * time.Millisecond, 2 * time.Second}[vsched.Choose(4)]
		c, s := newClient(delay, refresh)
		var g vsched.Group
		for range n {
			g.Go(func() {
				if at > 0 {
					vtime.Sleep(at)
				}
				if err := c.Close(); err != nil {
					vsched.Fail("[close] %v", err)
				}
				if s.live.Load() != 0 {
					vsched.Fail("[inflight] Close returned while a refresh was running")
				}
				before := s.calls.Load()
				vtime.Sleep(5 * time.Second)
				if s.calls.Load() != before {
					vsched.Fail("[leak] a refresh ran after Close returned")
				}
			})
		}
		g.Wait()
		if err := c.Close(); err != nil {
			vsched.Fail("[close] again: %v", err)
		}
		vsched.Quiesce()
		if l := vsched.Live(); l > 1 {
			vsched.Fail("[leak] %d goroutines are left after Close", l-1)
		}
		s.delay = 0
		if v, err := c.Get(context.Background(), "k"); err != nil || string(v) != "v" {
			vsched.Fail("[dead] a call after Close: %q, %v", v, err)
		}
		vsched.Outcome("%v %s %s %d", refresh, delay, at, s.calls.Load())
	}
}

// pending: Close does not cancel a call under way.
func pending() {
	refresh := vsched.Choose(2) == 1
	c, s := newClient(200*time.Millisecond, refresh)
	var g vsched.Group
	g.Go(func() {
		v, err := c.Get(context.Background(), "k")
		if err != nil || string(v) != "v" {
			vsched.Fail("[pending] a call under way during Close: %q, %v", v, err)
		}
	})
	g.Go(func() { _ = c.Close() })
	g.Wait()
	vsched.Outcome("%v %d", refresh, s.calls.Load())
}

// keeps: a closed client keeps the view it had, and may be refreshed by hand.
func keeps() {
	refresh := vsched.Choose(2) == 1
	times := 1 + vsched.Choose(2)
	c, s := newClient(0, refresh)
	want := "http://seed"
	vtime.Sleep(1500 * time.Millisecond)
	if refresh {
		want = "http://n1:80"
	} else if vsched.Choose(2) == 1 {
		if err := c.RefreshTopology(context.Background()); err != nil {
			vsched.Fail("[refresh] %v", err)
		}
		want = "http://n1:80"
	}
	for range times {
		_ = c.Close()
		if got := c.Endpoints(); len(got) != 1 || got[0] != want {
			vsched.Fail("[view] Close changed the endpoints from %q to %q", want, got)
		}
	}
	before := s.calls.Load()
	if v, err := c.Get(context.Background(), "k"); err != nil || string(v) != "v" || s.calls.Load() != before+1 || "http://"+s.Log[len(s.Log)-1].Host != want {
		vsched.Fail("[dead] a call after Close: %q, %v", v, err)
	}
	if err := c.RefreshTopology(context.Background()); err != nil || c.Endpoints()[0] != "http://n1:80" {
		vsched.Fail("[dead] RefreshTopology after Close: %v, %q", err, c.Endpoints())
	}
	vsched.Outcome("%v %s", refresh, want)
}

// long: Close waits for a refresh however long it takes, and for nothing else.
func long() {
	every := []time.Duration{time.Second, 30 * time.Second, 10 * time.Minute}[vsched.Choose(3)]
	takes := []time.Duration{time.Millisecond, 9 * time.Second, 11 * time.Second, 45 * time.Second, 5 * time.Minute}[vsched.Choose(5)]
	into := []time.Duration{-every / 2, 0, takes / 3, takes - time.Microsecond, takes + time.Microsecond}[vsched.Choose(5)]
	n := 1 + vsched.Choose(3)
	net := &fake.Net{Do: func(q fake.Req) fake.Ans { return fake.Ans{Status: 503} }}
	// with a tick due and Close called, either may be served: not for ever
	s := &slow{Net: net, delay: takes, first: int64(3 * n)}
	var seeds []string
	for i := range n {
		seeds = append(seeds, "http://seed"+string(rune('0'+i)))
	}
	c, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: s}), client.WithTopologyRefresh(every))
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	vtime.Sleep(every + into)
	live, start := s.live.Load(), vtime.Now()
	if err := c.Close(); err != nil {
		vsched.Fail("[close] %v", err)
	}
	if s.live.Load() != 0 {
		vsched.Fail("[inflight] Close returned while a refresh was running (every %s, an answer takes %s, closed %s into it)", every, takes, into)
	}
	if w := vtime.Since(start); live == 0 && into != 0 && w > 0 {
		vsched.Fail("[waits] Close took %s with no refresh running (every %s)", w, every)
	}
	before := s.calls.Load()
	vtime.Sleep(3 * every)
	if s.calls.Load() != before {
		vsched.Fail("[leak] a refresh ran after Close returned")
	}
	vsched.Quiesce()
	if l := vsched.Live(); l > 1 {
		vsched.Fail("[leak] %d goroutines are left after Close", l-1)
	}
	vsched.Outcome("%s %d", into, live)
}

func main() {
	kit.Main(
		kit.Scenario{Name: "closers-1", Body: closers(1), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}},
		kit.Scenario{Name: "closers-2", Body: closers(2), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}, Race: true, Weight: 2},
		kit.Scenario{Name: "closers-3", Body: closers(3), Quick: vsched.Opts{Preempt: 0}, Deep: vsched.Opts{Preempt: 1}, Weight: 2},
		kit.Scenario{Name: "long", Body: long, Quick: vsched.Opts{Horizon: 3 * time.Hour, MaxSteps: 20000}, Deep: vsched.Opts{Preempt: 1, Horizon: 3 * time.Hour, MaxSteps: 20000}},
		kit.Scenario{Name: "keeps", Body: keeps},
		kit.Scenario{Name: "pending", Body: pending, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true},
	)
}
