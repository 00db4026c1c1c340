package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// rate is a probability and what it can lead to.
type rate struct {
	p           float64
	never, ever bool
}

var drops = []rate{{0, true, false}, {-1, true, false}, {1, false, true}, {2.5, false, true}, {0.5, false, false}}

var lates = []struct {
	rate
	d time.Duration
}{
	{rate{1, true, false}, 0},
	{rate{1, true, false}, -ms},
	{rate{0, true, false}, 7 * ms},
	{rate{-2, true, false}, 7 * ms},
	{rate{1, false, true}, 7 * ms},
	{rate{2.5, false, true}, 3 * ms},
	{rate{0.5, false, false}, 7 * ms},
}

// asked is one call a node can be made to do, and how its failure shows.
var asked = []struct {
	op string
	do func(c *dc.Cluster, key string) error
}{
	{"set", func(c *dc.Cluster, key string) error {
		return c.Nodes[0].Set(bg, &cache.Item{Key: key, Value: 1})
	}},
	{"get", func(c *dc.Cluster, key string) error {
		c.Nodes[0].Get(bg, key)
		return nil
	}},
	{"remove", func(c *dc.Cluster, key string) error { return c.Nodes[0].Remove(bg, key) }},
	{"keys", func(c *dc.Cluster, _ string) error {
		r, err := c.Nodes[0].ListKeys(bg, "", 0)
		if err == nil && len(r.PartialNodes) > 0 {
			err = backend.ErrChaosDrop
		}
		return err
	}},
	{"merkle", func(c *dc.Cluster, _ string) error { return c.Nodes[0].SyncWith(bg, "n1") }},
	{"beat", func(*dc.Cluster, string) error { // heartbeat and gossip, at the times they come
		vsched.Sleep(time.Second)
		return nil
	}},
}

// chaos: faults happen to calls at the rate asked for, all of them and no other.
func chaos(n int) func() {
	return func() {
		vsched.Calm(true)
		ch, p, last := backend.NewChaos(), newPipeline(), map[string]int64{}
		order := vsched.Choose(3) // chaos after the transport, before it, or none
		c := dc.New(dc.Cfg{N: 2, R: 1, Each: func(i int) []dc.Opt {
			if i > 0 {
				return nil
			}
			o := []dc.Opt{backend.WithDistMeterProvider(p), backend.WithDistGossipInterval(time.Second), backend.WithDistHeartbeat(time.Second, time.Hour, 0)}
			if order == 0 {
				o = append(o, backend.WithDistChaos(ch))
			}
			return o
		}, Make: func(i int, o []dc.Opt) error {
			if i == 0 && order == 1 {
				o = append([]dc.Opt{backend.WithDistChaos(ch)}, o...)
			}
			_, err := backend.NewDistMemory(bg, o...)
			return err
		}})
		key := c.Key(1)
		var calls []dc.Call
		c.Tap = func(x dc.Call) {
			if x.From == "n0" {
				calls = append(calls, x)
			}
		}
		vsched.Sleep(500 * ms)
		log := []string{"chaos last: ", "chaos first: ", "no chaos: "}[order]
		n := n
		if order == 2 {
			n = 1
		}
		for range n {
			drop, late := drops[vsched.Choose(len(drops))], lates[4]
			if !drop.ever {
				late = lates[vsched.Choose(len(lates))]
			}
			lat, d := late.rate, late.d
			ch.SetDropRate(drop.p)
			ch.SetLatency(d, lat.p)
			if order == 2 { // not installed
				drop, lat = rate{never: true}, rate{never: true}
			}
			a := asked[vsched.Choose(len(asked))]
			log += fmt.Sprintf("%s, dropped %v, late %v by %v; ", a.op, drop.p, lat.p, d)
			calls = calls[:0]
			lost, slow, at := ch.Drops(), ch.Latencies(), vsched.Now()
			err := a.do(c, key)
			took := time.Duration(vsched.Now() - at)
			lost, slow = ch.Drops()-lost, ch.Latencies()-slow
			through := int64(len(calls))
			want := int64(1)
			if a.op == "beat" {
				want, took = 2, took-time.Second
			}
			if a.op == "merkle" && through+lost > 1 { // what differs is fetched
				if want = through + lost; drop.ever {
					want = 1
				}
			}
			switch {
			case through+lost != want:
				vsched.Fail("[calls] %s %d calls, %d dropped, of %d", log, through, lost, want)
			case drop.never && lost > 0, drop.ever && lost < want:
				vsched.Fail("[drops] %s %d of %d dropped", log, lost, want)
			case lat.never && slow > 0, lat.ever && slow != through, slow > through:
				vsched.Fail("[late] %s %d of %d calls late", log, slow, through)
			case a.op != "beat" && took != time.Duration(slow)*d:
				vsched.Fail("[late] %s it took %v", log, took)
			case a.op != "beat" && a.op != "get" && (want == 1 || lost == 0) && (lost > 0) != errors.Is(err, backend.ErrChaosDrop):
				vsched.Fail("[error] %s %d dropped: %v", log, lost, err)
			case lost == 0 && err != nil:
				vsched.Fail("[error] %s %v", log, err)
			}
			compare(log, p, c.Nodes[0], last)
			m := c.Nodes[0].Metrics()
			wd, wl := ch.Drops(), ch.Latencies()
			if order == 2 {
				wd, wl = 0, 0
			}
			if m.ChaosDrops != wd || m.ChaosLatencies != wl {
				vsched.Fail("[count] %s the node counts %d lost and %d delays, not %d and %d", log, m.ChaosDrops, m.ChaosLatencies, wd, wl)
			}
			vsched.Outcome("%s %d %d", a.op, lost, slow)
			c.Mem[0].Mark("n1", cluster.NodeAlive) // which a heartbeat may have come to doubt
		}
		var none *backend.Chaos
		none.SetDropRate(1)
		none.SetLatency(ms, 1)
		if none.Drops() != 0 || none.Latencies() != 0 {
			vsched.Fail("[count] no chaos counts")
		}
		c.Stop()
	}
}

// chaosTogether: calls at once, while the rates change, are all counted.
func chaosTogether() {
	vsched.Calm(true)
	ch := backend.NewChaos()
	c := dc.New(dc.Cfg{N: 2, R: 1, Opts: []dc.Opt{backend.WithDistChaos(ch)}})
	key := c.Key(1)
	c.Rec = true
	var g vsched.Group
	ch.SetDropRate(0.5)
	for range 2 {
		g.Go(func() {
			c.Nodes[0].Get(bg, key)
		})
	}
	g.Go(func() {
		ch.SetDropRate(1)
		ch.Drops()
		c.Nodes[0].Metrics()
		ch.SetDropRate(0)
	})
	vsched.Calm(false)
	g.Wait()
	vsched.Calm(true)
	if n := int64(len(c.Calls())); n+ch.Drops() != 2 {
		vsched.Fail("[calls] %d calls and %d dropped, of 2", n, ch.Drops())
	}
	vsched.Outcome("%d", ch.Drops())
	c.Stop()
}
