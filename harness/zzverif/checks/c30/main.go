// C30: hinted handoff delivers what an unreachable replica missed, within its
// time to live and caps, and accounts for every hint.
package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const (
	ttl   = 35 * time.Millisecond
	every = 10 * time.Millisecond
)

type hint struct {
	key, val string
	expire   time.Duration
	size     int64
}

type caps struct {
	node, total int
	bytes       int64
}

// model is what n0 owes the others.
type model struct {
	caps                               caps
	q                                  [3][]hint
	has                                [3]map[string]string
	queued, replayed, expired, refused int64
	delivered, wantDelivered           []string
}

func (m *model) total() (n int, b int64) {
	for _, q := range m.q {
		for _, h := range q {
			n++
			b += h.size
		}
	}
	return
}

func (m *model) queue(to int, h hint) {
	n, b := m.total()
	q := m.q[to]
	if m.caps.node > 0 && len(q) >= m.caps.node {
		n--
		b -= q[0].size
		q = q[1:]
	}
	if m.caps.total > 0 && n >= m.caps.total || m.caps.bytes > 0 && b+h.size > m.caps.bytes {
		m.refused++
		return
	}
	m.q[to] = append(append([]hint{}, q...), h)
	m.queued++
}

func (m *model) tick(now time.Duration, c *dc.Cluster) {
	for to, q := range m.q {
		var keep []hint
		for _, h := range q {
			switch {
			case now > h.expire:
				m.expired++
			case c.Down(to) || c.Down(0):
				keep = append(keep, h)
			default:
				m.replayed++
				if seq(h.val) > seq(m.has[to][h.key]) { // never overwrites a newer value
					m.has[to][h.key] = h.val
				}
				m.wantDelivered = append(m.wantDelivered, fmt.Sprintf("%s:%s", dc.ID(to), h.val))
			}
		}
		m.q[to] = keep
	}
}

func seq(v string) (n int) {
	fmt.Sscanf(v, "w%d", &n)
	return
}

func build(cp caps, n int, extra ...dc.Opt) *dc.Cluster {
	opts := append([]dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyOne)}, extra...)
	return dc.New(dc.Cfg{N: n, R: n, Opts: opts, Each: func(i int) []dc.Opt {
		if i > 0 {
			return nil
		}
		return []dc.Opt{backend.WithDistHintTTL(ttl), backend.WithDistHintReplayInterval(every),
			backend.WithDistHintMaxPerNode(cp.node), backend.WithDistHintMaxTotal(cp.total), backend.WithDistHintMaxBytes(cp.bytes)}
	}})
}

// histories enumerates writes, outages and waits on a three-node cluster.
func histories(n int, cps []caps, removes bool) func() {
	return func() {
		vsched.Calm(true)
		cp := cps[vsched.Choose(len(cps))]
		c := build(cp, 3)
		ks := c.Keys(2, 0, 1, 2)
		m := &model{caps: cp}
		for i := range m.has {
			m.has[i] = map[string]string{}
		}
		c.Tap = func(cl dc.Call) {
			if cl.Op == "set" && cl.Verdict == dc.Deliver {
				m.delivered = append(m.delivered, fmt.Sprintf("%s:%v", cl.To, cl.Item.Value))
			}
		}
		hist := fmt.Sprintf("caps %+v:", cp)
		start := time.Duration(vsched.Now())
		now := func() time.Duration { return time.Duration(vsched.Now()) - start }
		wait := func(d time.Duration) {
			end := now() + d
			for t := (now()/every + 1) * every; t <= end; t += every {
				m.tick(t, c)
			}
			vsched.Sleep(d)
		}
		check := func() {
			for i := range 3 {
				for _, k := range ks {
					it, ok := c.Local(i, k)
					want, has := m.has[i][k]
					if ok != has || ok && it.Value != want {
						key := "missed"
						if !has {
							key = "resurrected"
						} else if ok {
							key = "wrong"
						}
						vsched.Fail("[%s] %s: %s should hold %q: %s", key, hist, dc.ID(i), want, c.Show(k))
					}
				}
			}
			if a, b := strings.Join(m.delivered, " "), strings.Join(m.wantDelivered, " "); a != b {
				vsched.Fail("[delivery] %s: delivered %s, expected %s", hist, a, b)
			}
			_, bytes := m.total()
			x := c.Nodes[0].Metrics()
			if x.HintedQueued != m.queued || x.HintedReplayed != m.replayed || x.HintedExpired != m.expired || x.HintedGlobalDropped != m.refused || x.HintedBytes != bytes {
				vsched.Fail("[metrics] %s: queued %d replayed %d expired %d dropped %d bytes %d, expected %d %d %d %d %d", hist,
					x.HintedQueued, x.HintedReplayed, x.HintedExpired, x.HintedGlobalDropped, x.HintedBytes, m.queued, m.replayed, m.expired, m.refused, bytes)
			}
			if x.MigrationHintQueued+x.MigrationHintDropped+x.MigrationHintExpired+x.MigrationHintReplayed != 0 {
				vsched.Fail("[metrics] %s: migration hints without a migration", hist)
			}
		}
		nw := 0
		for range n {
			wait(time.Millisecond)
			nops := 6
			if removes {
				nops = 7
			}
			switch op := vsched.Choose(nops); op {
			case 0, 1:
				nw++
				v := fmt.Sprintf("w%d", nw) + strings.Repeat("x", 20*op)
				hist += fmt.Sprintf(" set k%d=%s", op, v)
				for _, to := range []int{1, 2} { // in ring order
					h := hint{ks[op], v, now() + ttl, int64(len(ks[op]) + len(v))}
					if c.Down(to) {
						m.queue(to, h)
					} else {
						m.has[to][ks[op]] = v
						m.wantDelivered = append(m.wantDelivered, dc.ID(to)+":"+v)
					}
				}
				m.has[0][ks[op]] = v
				if err := c.Nodes[0].Set(bg, &cache.Item{Key: ks[op], Value: v}); err != nil {
					vsched.Fail("[set] %s: %v", hist, err)
				}
			case 2, 3:
				i := op - 1
				c.SetDown(i, !c.Down(i))
				hist += fmt.Sprintf(" %s down=%v", dc.ID(i), c.Down(i))
			case 4:
				hist += " tick"
				wait(every)
			case 5:
				hist += " wait"
				wait(ttl - every + every/2)
			case 6:
				hist += " remove k0"
				for i := range 3 {
					if !c.Down(i) {
						delete(m.has[i], ks[0])
					}
					var keep []hint // a removed value is not delivered any more
					for _, h := range m.q[i] {
						if h.key != ks[0] {
							keep = append(keep, h)
						}
					}
					m.q[i] = keep
				}
				if err := c.Nodes[0].Remove(bg, ks[0]); err != nil {
					vsched.Fail("[remove] %s: %v", hist, err)
				}
			}
			check()
		}
		vsched.Outcome("q%d r%d e%d d%d", m.queued, m.replayed, m.expired, m.refused)
		c.Stop()
	}
}

// concurrent runs writers against replay ticks.
func concurrent(w int, down bool) func() {
	return func() {
		vsched.Calm(true)
		c := build(caps{node: []int{0, 1}[vsched.Choose(2)], total: 2}, 2)
		keys := c.Keys(w, 0, 1)
		same := vsched.Choose(2) == 1
		c.SetDown(1, true)
		c.Rec = true
		vsched.Sleep(every / 2)
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: keys[0], Value: "v"})
		if !down {
			c.SetDown(1, false)
		}
		vsched.Calm(false)
		var g vsched.Group
		for i := range w {
			k := keys[i]
			if same {
				k = keys[0]
			}
			g.Go(func() {
				vsched.Sleep(every / 2)
				if err := c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: fmt.Sprintf("w%d", i)}); err != nil {
					vsched.Fail("[set] %v", err)
				}
			})
		}
		g.Wait()
		vsched.Quiesce()
		vsched.Calm(true)
		x := c.Nodes[0].Metrics()
		left := x.HintedQueued - x.HintedReplayed - x.HintedExpired
		if !down {
			if left != 0 {
				vsched.Fail("[lost] %d hints left after a replay with the replica up", left)
			}
		}
		c.SetDown(1, false)
		vsched.Sleep(2 * every)
		x = c.Nodes[0].Metrics()
		if x.HintedBytes != 0 {
			vsched.Fail("[metrics] %d bytes of hints left after everything was delivered", x.HintedBytes)
		}
		if x.HintedReplayed > x.HintedQueued || x.HintedExpired != 0 {
			vsched.Fail("[metrics] queued %d replayed %d expired %d", x.HintedQueued, x.HintedReplayed, x.HintedExpired)
		}
		arrived := map[string]int{}
		for _, cl := range c.Calls() {
			if cl.Op == "set" && cl.Verdict == dc.Deliver {
				arrived[fmt.Sprint(cl.Item.Value)]++
			}
		}
		for v, n := range arrived {
			if n > 1 {
				vsched.Fail("[delivery] %s delivered %d times", v, n)
			}
		}
		if x.HintedGlobalDropped == 0 && !down {
			for i := range w {
				k := keys[i]
				a, ok := c.Local(0, k)
				b, ok2 := c.Local(1, k)
				if ok != ok2 || a.Value != b.Value {
					vsched.Fail("[missed] %s", c.Show(k))
				}
			}
		}
		vsched.Outcome("q%d r%d d%d", x.HintedQueued, x.HintedReplayed, x.HintedGlobalDropped)
		c.Stop()
	}
}

// slow: a peer that takes ten seconds to answer holds up nobody else.
func slow() {
	vsched.Calm(true)
	c := build(caps{}, 3)
	ks := c.Keys(2, 0, 1, 2)
	hung := false
	c.Hook = func(cl *dc.Call) dc.Verdict {
		if cl.Op == "set" && cl.To == "n1" && !hung {
			hung = true
			vsched.Sleep(10 * time.Second)
		}
		return dc.Deliver
	}
	hung = true
	c.SetDown(1, true)
	c.SetDown(2, true)
	for i, k := range ks {
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: fmt.Sprintf("v%d", i)})
	}
	c.SetDown(1, false)
	hung = false
	vsched.Sleep(every + every/2)
	if !hung {
		vsched.Fail("[missed] nothing was replayed")
	}
	op := vsched.Choose(3)
	t := vsched.Now()
	var err error
	switch op {
	case 0:
		err = c.Nodes[0].Set(bg, &cache.Item{Key: ks[0], Value: "w"})
	case 1:
		err = c.Nodes[0].Remove(bg, ks[1])
	case 2:
		_, _ = c.Nodes[0].Get(bg, ks[0])
	}
	if err != nil || vsched.Now() != t {
		vsched.Fail("[blocked] operation %d returned %v after %v while a peer hangs in a replay", op, err, time.Duration(vsched.Now()-t))
	}
	vsched.Sleep(11 * time.Second)
	for i, k := range ks {
		it, ok := c.Local(1, k)
		want, has := fmt.Sprintf("v%d", i), true
		if op == 0 && i == 0 {
			want = "w"
		} else if op == 1 && i == 1 {
			has = false
		}
		if ok != has || ok && it.Value != want {
			vsched.Fail("[missed] after operation %d during a replay: %s", op, c.Show(k))
		}
	}
	vsched.Outcome("%d", op)
	c.Stop()
}

// off: without a time to live nothing is queued; a stopped node delivers
// nothing; a lost acknowledgment is retried.
func corners() {
	vsched.Calm(true)
	switch vsched.Choose(3) {
	case 0:
		c := dc.New(dc.Cfg{N: 2, R: 2, Opts: []dc.Opt{backend.WithDistHintReplayInterval(every)}})
		c.SetDown(1, true)
		k := c.Key(0, 1)
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: "v"})
		c.SetDown(1, false)
		vsched.Sleep(5 * every)
		if _, ok := c.Local(1, k); ok || c.Nodes[0].Metrics().HintedQueued != 0 {
			vsched.Fail("[off] hinted handoff without a time to live")
		}
		c.Stop()
	case 1:
		c := build(caps{}, 2)
		c.SetDown(1, true)
		k := c.Key(0, 1)
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: "v"})
		c.SetDown(1, false)
		c.Stop()
		vsched.Sleep(5 * every)
		if _, ok := c.Local(1, k); ok {
			vsched.Fail("[stopped] a stopped node delivered a hint")
		}
	case 2:
		c := build(caps{}, 2)
		k := c.Key(0, 1)
		n := 0
		vsched.Sleep(every / 2)
		c.Hook = func(cl *dc.Call) dc.Verdict {
			if cl.Op != "set" {
				return dc.Deliver
			}
			n++
			return []dc.Verdict{dc.Lose, dc.LoseAck, dc.Refuse, dc.Deliver, dc.Lose}[min(n-1, 4)]
		}
		_ = c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: "v"})
		for i := range 3 {
			vsched.Sleep(every)
			if x := c.Nodes[0].Metrics(); n != i+2 || (x.HintedReplayed == 1) != (i == 2) {
				vsched.Fail("[retry] after %d ticks: %d attempts, %d replayed", i+1, n, x.HintedReplayed)
			}
		}
		vsched.Sleep(5 * every)
		if n != 4 {
			vsched.Fail("[retry] delivered hint was sent again: %d attempts", n)
		}
		c.Stop()
	}
	vsched.Outcome("ok")
}

// large: many hints, big ones, and caps of many.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		n := ns[vsched.Choose(len(ns))]
		kind := []string{"free", "node", "total", "bytes", "big"}[vsched.Choose(5)]
		size := func(i int) int { return 10 + i%7 }
		var cp caps
		want := n // delivered: the first ones, or with a cap per node the last ones
		over := n + 3
		switch kind {
		case "free":
			over = n
		case "node":
			cp.node = n
		case "total":
			cp.total = n
		case "big":
			over = 3
			want = 3
			size = func(i int) int { return n*512 + i }
		}
		if kind != "free" && kind != "big" && n == 0 {
			return // zero is no cap
		}
		if kind == "bytes" { // as many as n hints have in a cluster of their own
			x := build(caps{}, 2)
			x.SetDown(1, true)
			k := x.Key(0, 1)
			for i := range n {
				_ = x.Nodes[0].Set(bg, &cache.Item{Key: k, Value: strings.Repeat("v", size(i))})
			}
			cp.bytes = x.Nodes[0].Metrics().HintedBytes
			x.Stop()
			if cp.bytes <= 0 {
				vsched.Fail("[bytes] %d hints of together %d bytes", n, cp.bytes)
			}
			over = n + 1
		}
		c := build(cp, 2)
		ks := c.Keys(5, 0, 1)
		vsched.Sleep(every / 2)
		c.SetDown(1, true)
		var vals, got []string
		key := func(i int) string {
			if kind == "bytes" {
				return ks[0]
			}
			return ks[i%5]
		}
		for i := range over {
			v := fmt.Sprintf("%d-%s", i, strings.Repeat("v", size(i)))
			if kind == "bytes" {
				v = strings.Repeat("v", size(i))
			}
			vals = append(vals, v)
			if err := c.Nodes[0].Set(bg, &cache.Item{Key: key(i), Value: v}); err != nil {
				vsched.Fail("[set] %v", err)
			}
		}
		x := c.Nodes[0].Metrics()
		refused := 0
		switch kind {
		case "node":
			vals = vals[len(vals)-want:]
		case "total", "bytes":
			refused = over - want
			vals = vals[:want]
		}
		if x.HintedGlobalDropped != int64(refused) || x.HintedQueued != int64(over-refused) {
			vsched.Fail("[metrics] %s %d: of %d hints %d queued and %d refused", kind, n, over, x.HintedQueued, x.HintedGlobalDropped)
		}
		c.Tap = func(cl dc.Call) {
			if cl.Op == "set" {
				got = append(got, fmt.Sprint(cl.Item.Value))
			}
		}
		c.SetDown(1, false)
		vsched.Sleep(every)
		if len(got) != len(vals) {
			vsched.Fail("[delivered] %s %d: %d of %d hints after a replay interval", kind, n, len(got), len(vals))
		}
		for i := range vals {
			if got[i] != vals[i] {
				vsched.Fail("[order] %s %d: delivery %d is %.20s..., want %.20s...", kind, n, i, got[i], vals[i])
			}
		}
		x = c.Nodes[0].Metrics()
		if x.HintedReplayed != int64(len(vals)) || x.HintedBytes != 0 {
			vsched.Fail("[metrics] %s %d: %d replayed, %d bytes left", kind, n, x.HintedReplayed, x.HintedBytes)
		}
		vsched.Sleep(3 * every)
		if len(got) != len(vals) {
			vsched.Fail("[twice] %s %d: %d deliveries of %d hints", kind, n, len(got), len(vals))
		}
		vsched.Outcome("%s", kind)
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	all := []caps{{}, {node: 1}, {node: 2, total: 3}, {total: 1}, {bytes: 40}, {node: 1, bytes: 40}, {node: 2, bytes: 45}}
	kit.Main(
		kit.Scenario{Name: "histories-5", Body: histories(5, all, false), Quick: det, Weight: 2},
		kit.Scenario{Name: "removals-5", Body: histories(5, all[:2], true), Quick: det},
		kit.Scenario{Name: "corners", Body: corners, Quick: det},
		kit.Scenario{Name: "slow-peer", Body: slow, Quick: det},
		kit.Scenario{Name: "replay-write", Body: concurrent(1, false), Quick: s(2), Race: true},
		kit.Scenario{Name: "replay-writes", Body: concurrent(2, false), Quick: s(1), Deep: s(2), Race: true},
		kit.Scenario{Name: "queue-writes", Body: concurrent(2, true), Quick: s(2)},
		kit.Scenario{Name: "large", Body: large(300), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "larger", Body: large(2100), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "histories-7", Body: histories(7, all, true), Deep: det, DeepOnly: true, Weight: 4},
	)
}
