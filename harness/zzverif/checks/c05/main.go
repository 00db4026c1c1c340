// C05: the failure detector suspects who does not answer, prunes who stays
// silent, and nobody else.
package main

import (
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

const (
	ms    = time.Millisecond
	every = 10 * ms
)

func now() time.Duration { return time.Duration(vsched.Now()) }

func member(m *cluster.Membership, i int) (cluster.Node, bool) {
	for _, n := range m.List() {
		if string(n.ID) == dc.ID(i) {
			return *n, true
		}
	}
	return cluster.Node{}, false
}

func only0(o ...dc.Opt) func(int) []dc.Opt {
	return func(i int) []dc.Opt {
		if i == 0 {
			return o
		}
		return nil
	}
}

// peer is what n0 must believe of a peer.
type peer struct {
	lastOK  time.Duration // last answer
	failing bool          // its last probe failed
	since   time.Duration // of the first failure after lastOK
	gone    bool
}

// watch follows the probes n0 makes and what it believes after each round.
type watch struct {
	*dc.Cluster
	n             int
	suspect, dead time.Duration
	k             int
	p             []peer
	ok, bad       int64
	iok, ibad     int64
	suspected     int64
	refuted       int64
	removed       int64
	hist          string
	probed        []int // this round
	asked         []int // relays of the last failed probe
	confirm       bool
	answer        func(c *dc.Call) dc.Verdict
}

func newWatch(n int, suspect, dead time.Duration, k int, relayed time.Duration, o ...dc.Opt) *watch {
	w := &watch{n: n, suspect: suspect, dead: dead, k: k, p: make([]peer, n)}
	o = append(o, backend.WithDistHeartbeat(every, suspect, dead))
	if k > 0 {
		o = append(o, backend.WithDistIndirectProbes(k, relayed))
	}
	w.Cluster = dc.New(dc.Cfg{N: n, R: n, VNodes: 1, Each: only0(o...)})
	w.hist = fmt.Sprintf("suspect after %v, dead after %v:", suspect, dead)
	w.Hook = w.call
	return w
}

func (w *watch) call(c *dc.Call) dc.Verdict {
	if c.From != "n0" {
		return dc.Deliver // a relay asking the target
	}
	to := int(c.To[1] - '0')
	v := w.answer(c)
	switch c.Op {
	case "health":
		if to == 0 || w.p[to].gone || slices.Contains(w.probed, to) {
			vsched.Fail("[probe] %s: n%d is probed (gone %v, this round %v)", w.hist, to, w.p[to].gone, w.probed)
		}
		w.settle()
		w.probed = append(w.probed, to)
		p := &w.p[to]
		if v == dc.Deliver {
			w.ok++
			p.lastOK, p.failing = now(), false
			w.hist += fmt.Sprintf(" n%d+", to)
		} else {
			w.bad++
			if !p.failing {
				p.since = now()
			}
			p.failing = true
			w.hist += fmt.Sprintf(" n%d-", to)
		}
	case "indirect":
		target := int(c.Key[1] - '0')
		last := -1
		if len(w.probed) > 0 {
			last = w.probed[len(w.probed)-1]
		}
		x, ok := member(w.Mem[0], to)
		if target != last || !w.p[target].failing || w.confirm || to == 0 || to == target || !ok || x.State != cluster.NodeAlive || slices.Contains(w.asked, to) || len(w.asked) >= w.k {
			vsched.Fail("[relay] %s: n%d (%v) is asked about n%d, after %v, confirmed %v", w.hist, to, x.State, target, w.asked, w.confirm)
		}
		w.asked = append(w.asked, to)
		if v == dc.Deliver {
			w.iok++
			w.confirm = true
			w.hist += fmt.Sprintf(" n%d:n%d+", to, target)
		} else {
			w.ibad++
			w.hist += fmt.Sprintf(" n%d:n%d-", to, target)
		}
	default:
		vsched.Fail("[call] the failure detector makes the call %v", *c)
	}
	return v
}

// settle ends the probe before.
func (w *watch) settle() {
	if len(w.probed) == 0 {
		return
	}
	last := w.probed[len(w.probed)-1]
	p := &w.p[last]
	if p.failing && w.k > 0 {
		if w.confirm {
			w.refuted++
			p.lastOK, p.failing = now(), false
		} else {
			alive := 0
			for j := 1; j < w.n; j++ {
				if x, ok := member(w.Mem[0], j); ok && j != last && x.State == cluster.NodeAlive {
					alive++
				}
			}
			if len(w.asked) != min(w.k, alive) {
				vsched.Fail("[relay] %s: %v of %d live peers were asked, up to %d should be", w.hist, w.asked, alive, w.k)
			}
		}
	}
	w.asked, w.confirm = nil, false
}

// round checks what n0 believes after a round in which want peers were probed.
func (w *watch) round() {
	w.settle()
	w.probed = nil
	w.hist += " |"
	var ring []string
	for i := 1; i < w.n; i++ {
		p := &w.p[i]
		x, ok := member(w.Mem[0], i)
		if p.gone {
			if ok {
				vsched.Fail("[back] %s: n%d was pruned and is %v", w.hist, i, x.State)
			}
			continue
		}
		quiet := now() - p.lastOK
		switch {
		case !ok:
			p.gone = true
			w.removed++
			if !p.failing || w.dead == 0 || quiet <= w.dead {
				vsched.Fail("[pruned] %s: n%d answered %v ago and is pruned", w.hist, i, quiet)
			}
			continue
		case !p.failing && x.State != cluster.NodeAlive:
			vsched.Fail("[alive] %s: n%d answered %v ago and is %v", w.hist, i, quiet, x.State)
		case p.failing && x.State != cluster.NodeSuspect:
			vsched.Fail("[suspect] %s: n%d does not answer and is %v", w.hist, i, x.State)
		case p.failing && w.dead > 0 && now() > p.since+w.dead+2*every:
			vsched.Fail("[kept] %s: n%d has not answered for %v", w.hist, i, quiet)
		}
	}
	for _, x := range w.Mem[0].List() {
		ring = append(ring, string(x.ID))
	}
	var got []string
	for _, id := range w.Mem[0].Ring().Lookup("key") {
		got = append(got, string(id))
	}
	slices.Sort(got)
	if !slices.Equal(got, ring) {
		vsched.Fail("[ring] %s: members %v, owners are taken from %v", w.hist, ring, got)
	}
	m := w.Nodes[0].Metrics()
	g := []int64{m.HeartbeatSuccess, m.HeartbeatFailure, m.IndirectProbeSuccess, m.IndirectProbeFailure, m.IndirectProbeRefuted, m.NodesRemoved, m.NodesDead}
	x := []int64{w.ok, w.bad, w.iok, w.ibad, w.refuted, w.removed, w.removed}
	if !slices.Equal(g, x) {
		vsched.Fail("[metrics] %s: answers, failures, relayed answers, failures, refuted, removed, dead: %v counted, %v seen", w.hist, g, x)
	}
}

// patterns: all patterns of answers of two peers.
func patterns(ticks int) func() {
	return func() {
		vsched.Calm(true)
		t := [][2]time.Duration{{15 * ms, 35 * ms}, {0, 0}, {0, 25 * ms}, {25 * ms, 0}, {12 * ms, 12 * ms}}[vsched.Choose(5)]
		w := newWatch(3, t[0], t[1], 0, 0)
		second := vsched.Choose(3) // n2 answers, does not, or stops to
		n := 0
		w.answer = func(c *dc.Call) dc.Verdict {
			if c.To == "n2" {
				if second == 0 || second == 2 && n < 2 {
					return dc.Deliver
				}
				return dc.Refuse
			}
			return []dc.Verdict{dc.Deliver, dc.Lose}[vsched.Choose(2)]
		}
		v0 := w.Mem[0].Version()
		vsched.Sleep(ms)
		for ; n < ticks; n++ {
			vsched.Sleep(every)
			w.round()
			if w.bad == 0 && w.Mem[0].Version() != v0 {
				vsched.Fail("[quiet] %s: everyone answers, and the membership changes", w.hist)
			}
		}
		vsched.Outcome("%v %v", w.p[1].gone, w.removed)
		w.Stop()
		w.answer = func(c *dc.Call) dc.Verdict {
			vsched.Fail("[stopped] a stopped node probes")
			return dc.Deliver
		}
		vsched.Sleep(3 * every)
	}
}

// indirect: all patterns of answers of the target and the relays.
func indirect(n, ticks int) func() {
	return func() {
		vsched.Calm(true)
		k := 1 + vsched.Choose(3)
		relayed := time.Duration(vsched.Choose(2)) * 3 * ms
		w := newWatch(n, 15*ms, 25*ms, k, relayed)
		mute := vsched.Choose(n) // one relay may be silent itself
		w.answer = func(c *dc.Call) dc.Verdict {
			switch {
			case c.Op == "health" && c.To != "n1":
				if mute >= 2 && c.To == dc.ID(mute) {
					return dc.Lose
				}
				return dc.Deliver
			case c.Op == "indirect" && c.Key != "n1":
				return dc.Lose
			}
			return []dc.Verdict{dc.Deliver, dc.Lose}[vsched.Choose(2)]
		}
		vsched.Sleep(ms)
		for range ticks {
			vsched.Sleep(every)
			w.round()
		}
		vsched.Outcome("%v %v %v", w.p[1].gone, w.refuted > 0, w.removed)
		w.Stop()
	}
}

// sampling: every round probes as many peers as it should, and nobody who
// answers is suspected, however long it was not probed.
func sampling(n, ticks int) func() {
	return func() {
		vsched.Calm(true)
		k := 1 + vsched.Choose(n)
		w := newWatch(n, 15*ms, 25*ms, 0, 0, backend.WithDistHeartbeatSample(k))
		w.answer = func(c *dc.Call) dc.Verdict { return dc.Deliver }
		v0 := w.Mem[0].Version()
		vsched.Sleep(ms)
		for t := range ticks {
			vsched.Sleep(every)
			if len(w.probed) != min(k, n-1) {
				vsched.Fail("[sample] round %d probed %v: %d of %d peers should be", t, w.probed, k, n-1)
			}
			w.hist += fmt.Sprint(w.probed)
			w.round()
			if w.Mem[0].Version() != v0 {
				vsched.Fail("[quiet] sample of %d: %s: everyone answers, and the membership changes", k, w.hist)
			}
		}
		vsched.Outcome("%d", k)
		w.Stop()
	}
}

// slow: probes of some peers hang until they time out.
func slow(n, ticks int) func() {
	return func() {
		vsched.Calm(true)
		k := vsched.Choose(2) * (n - 2)
		hang := 1 + vsched.Choose(n-1)
		first := vsched.Choose(2) == 0
		relayed := time.Duration(vsched.Choose(2)) * 8 * ms
		hangs := func(id string) bool {
			i := int(id[1] - '0')
			if first {
				return i <= hang
			}
			return i >= n-hang
		}
		o := []dc.Opt{backend.WithDistHeartbeat(every, 15*ms, 35*ms)}
		if k > 0 {
			o = append(o, backend.WithDistIndirectProbes(k, relayed))
		}
		c := dc.New(dc.Cfg{N: n, R: n, VNodes: 1, Each: only0(o...)})
		hist := fmt.Sprintf("%d relays (%v), hanging:", k, relayed)
		longest := time.Duration(0)
		c.Hook = func(cl *dc.Call) dc.Verdict {
			if cl.From == "n0" && (cl.Op == "health" && hangs(cl.To) || cl.Op == "indirect" && hangs(cl.Key)) {
				t := now()
				vsched.Recv(cl.Ctx.Done())
				d := now() - t
				longest = max(longest, d)
				limit := every / 2
				if cl.Op == "indirect" && relayed > 0 {
					limit = relayed
				}
				if d > limit {
					vsched.Fail("[timeout] a probe (%s) took %v, at most %v is allowed", cl.Op, d, limit)
				}
				return dc.Lose
			}
			return dc.Deliver
		}
		for i := 1; i < n; i++ {
			if hangs(dc.ID(i)) {
				hist += " " + dc.ID(i)
			}
		}
		vsched.Sleep(ms)
		for range ticks {
			vsched.Sleep(every)
			for i := 1; i < n; i++ {
				x, ok := member(c.Mem[0], i)
				if !hangs(dc.ID(i)) && (!ok || x.State != cluster.NodeAlive) {
					vsched.Fail("[healthy] %s: n%d answers every probe, and n0 has it as %v (member: %v)", hist, i, x.State, ok)
				}
			}
		}
		left := 0
		for i := 1; i < n; i++ {
			if _, ok := member(c.Mem[0], i); ok && hangs(dc.ID(i)) {
				left++
			}
		}
		if left > 0 {
			vsched.Fail("[kept] %s: %d of them are still members after %v", hist, left, now())
		}
		vsched.Outcome("%v", longest)
		c.Stop()
	}
}

// zombie: a node that is gone stays gone, though the others gossip about it.
func zombie(hb [2]time.Duration, gossip time.Duration) func() {
	return func() {
		vsched.Calm(true)
		const dead = 25 * ms
		phase := time.Duration(vsched.Choose(8)) * 2 * ms
		c := dc.New(dc.Cfg{N: 3, R: 3, VNodes: 1, Each: func(i int) []dc.Opt {
			if i == 2 {
				return nil
			}
			return []dc.Opt{backend.WithDistGossipInterval(gossip + time.Duration(i)*ms), backend.WithDistHeartbeat(hb[i], hb[i], dead)}
		}})
		vsched.Sleep(phase)
		c.SetDown(2, true)
		down := now()
		vsched.Sleep(dead + 3*every)
		for range 8 {
			for i := range 2 {
				if x, ok := member(c.Mem[i], 2); ok {
					vsched.Fail("[zombie] n2 went down at %v; at %v n%d has it as %v", down, now(), i, x.State)
				}
				if x, ok := member(c.Mem[i], 1-i); !ok || x.State != cluster.NodeAlive {
					vsched.Fail("[alive] n%d has n%d as %v (%v)", i, 1-i, x.State, ok)
				}
			}
			vsched.Sleep(5 * ms)
		}
		vsched.Outcome("%d", c.Mem[0].Version())
		c.Stop()
	}
}

// rejoin: a node which was pruned comes back, and is let in.
func rejoin(pruned bool) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 3, R: 3, VNodes: 1, Opts: []dc.Opt{backend.WithDistGossipInterval(every), backend.WithDistHeartbeat(every, 15*ms, 35*ms)}})
		c.SetDown(2, true)
		for i := range 2 {
			if pruned {
				c.Leave(i, 2)
			} else {
				c.Mem[i].Mark("n2", cluster.NodeSuspect)
			}
		}
		c.Restart(2, vsched.Choose(2))
		c.SetDown(2, false)
		vsched.Sleep(3*every + ms)
		in := 0
		for i := range 2 {
			if x, ok := member(c.Mem[i], 2); ok && x.State == cluster.NodeAlive {
				in++
			}
		}
		if in == 0 {
			vsched.Fail("[shut-out] n2 is back and gossips, and neither n0 nor n1 has it")
		}
		vsched.Outcome("%d", in)
		c.Stop()
	}
}

// heal: a partition ends.
func heal() {
	vsched.Calm(true)
	const dead = 35 * ms
	c := dc.New(dc.Cfg{N: 2, R: 2, VNodes: 1, Opts: []dc.Opt{backend.WithDistHeartbeat(every, 15*ms, dead), backend.WithDistGossipInterval(every)}})
	d := time.Duration(1+vsched.Choose(9)) * every
	oneWay := vsched.Choose(2) == 1
	c.SetCut(0, 1, true)
	c.SetCut(1, 0, !oneWay)
	vsched.Sleep(d)
	c.SetCut(0, 1, false)
	c.SetCut(1, 0, false)
	vsched.Sleep(10 * every)
	for i := range 2 {
		if x, ok := member(c.Mem[i], 1-i); !ok || x.State != cluster.NodeAlive {
			key := "heal"
			if !oneWay && d > dead {
				key = "split"
			}
			vsched.Fail("[%s] a partition of %v (one way: %v, dead after %v) ended 100ms ago: n%d has n%d as %v (member: %v)", key, d, oneWay, dead, i, 1-i, x.State, ok)
		}
	}
	vsched.Outcome("%v", d)
	c.Stop()
}

// racing: an operator removes the peer, or it refutes, while it is probed.
func racing() {
	vsched.Calm(true)
	fails := vsched.Choose(2) == 1
	kind := vsched.Choose(3)
	c := dc.New(dc.Cfg{N: 2, R: 2, VNodes: 1, Each: only0(backend.WithDistHeartbeat(every, 15*ms, 35*ms))})
	c.SetCut(0, 1, fails)
	vsched.Sleep(every - ms)
	vsched.Calm(false)
	g := vsched.Group{}
	g.Go(func() {
		vsched.Sleep(ms)
		switch kind {
		case 0:
			c.Nodes[0].RemovePeer("n1:1")
		case 1:
			_ = c.Raw.Gossip(context.Background(), "n0", []backend.GossipMember{{ID: "n1", Address: "n1:1", State: "alive", Incarnation: 5}})
		case 2:
			c.Nodes[0].Metrics()
			c.Nodes[0].DistMembershipSnapshot()
		}
	})
	g.Go(func() { vsched.Sleep(2 * ms) })
	g.Wait()
	vsched.Calm(true)
	x, ok := member(c.Mem[0], 1)
	switch {
	case kind == 0 && ok:
		vsched.Fail("[back] n1 was removed and is %v", x.State)
	case kind == 1 && (x.Incarnation < 5 || x.Incarnation == 5 && x.State != cluster.NodeAlive):
		vsched.Fail("[lost] n1 refuted with incarnation 5 and is %v@%d", x.State, x.Incarnation)
	case kind == 2 && (x.State == cluster.NodeSuspect) != fails:
		vsched.Fail("[state] probe fails: %v, n1 is %v", fails, x.State)
	}
	vsched.Outcome("%v %d", x.State, x.Incarnation)
	c.Stop()
}

func main() {
	det := vsched.Opts{MaxSteps: 1 << 30}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	two := func(a, b time.Duration) [2]time.Duration { return [2]time.Duration{a, b} }
	kit.Main(
		kit.Scenario{Name: "patterns", Body: patterns(9), Quick: det},
		kit.Scenario{Name: "patterns-deep", Body: patterns(13), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "indirect-3", Body: indirect(3, 5), Quick: det},
		kit.Scenario{Name: "indirect-4", Body: indirect(4, 4), Quick: det},
		kit.Scenario{Name: "indirect-5", Body: indirect(5, 2), Quick: det},
		kit.Scenario{Name: "indirect-deep", Body: indirect(4, 5), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "sampling-3", Body: sampling(3, 4), Quick: det},
		kit.Scenario{Name: "sampling-4", Body: sampling(4, 3), Quick: det},
		kit.Scenario{Name: "sampling-deep", Body: sampling(4, 5), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "slow", Body: slow(4, 20), Quick: det},
		kit.Scenario{Name: "slow-6", Body: slow(6, 40), Quick: det},
		kit.Scenario{Name: "zombie", Body: zombie(two(every, every), 20*ms), Quick: det},
		kit.Scenario{Name: "zombie-skew", Body: zombie(two(every, 7*ms), 15*ms), Quick: det},
		kit.Scenario{Name: "zombie-deep", Body: zombie(two(every, 7*ms), 9*ms), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "rejoin", Body: rejoin(true), Quick: det},
		kit.Scenario{Name: "rejoin-suspect", Body: rejoin(false), Quick: det},
		kit.Scenario{Name: "heal", Body: heal, Quick: det},
		kit.Scenario{Name: "racing", Body: racing, Quick: s(2), Race: true},
	)
}
