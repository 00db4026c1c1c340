// C04: gossip spreads the newest news of every member, and a live node
// refutes what is said against it.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var bg = context.Background()

// rec is what a node believes of a member; inc 0: it does not know it.
type rec struct {
	st  cluster.NodeState
	inc uint64
}

func (r rec) String() string {
	if r.inc == 0 {
		return "-"
	}
	return fmt.Sprintf("%s@%d", r.st, r.inc)
}

const maxN = 4

// state is the views of all nodes.
type state [maxN][maxN]rec

func (s state) show(n int) string {
	var b strings.Builder
	for i := range n {
		fmt.Fprintf(&b, "n%d:%v ", i, s[i][:n])
	}
	return strings.TrimSpace(b.String())
}

type world struct {
	*dc.Cluster
	n int
}

func newWorld(n int, opts ...dc.Opt) *world {
	return &world{dc.New(dc.Cfg{N: n, R: n, VNodes: 1, Opts: opts}), n}
}

// put makes s the state of the cluster.
func (w *world) put(s state) {
	for i := range w.n {
		for j := range w.n {
			id := cluster.NodeID(dc.ID(j))
			switch {
			case i == j:
				w.Self[i].State, w.Self[i].Incarnation = s[i][i].st, s[i][i].inc
				w.Mem[i].Upsert(w.Self[i])
			case s[i][j].inc == 0:
				w.Mem[i].Remove(id)
			default:
				w.Mem[i].Upsert(&cluster.Node{ID: id, Address: dc.ID(j) + ":1", State: s[i][j].st, Incarnation: s[i][j].inc})
			}
		}
	}
}

func (w *world) get() (s state) {
	for i := range w.n {
		s[i] = view(w.Mem[i])
	}
	return s
}

func view(m *cluster.Membership) (v [maxN]rec) {
	for _, x := range m.List() {
		v[x.ID[1]-'0'] = rec{x.State, x.Incarnation}
	}
	return v
}

// snapshot is what a node with this membership pushes.
func snapshot(m *cluster.Membership) (out []backend.GossipMember) {
	l := m.List()
	slices.SortFunc(l, func(a, b *cluster.Node) int { return strings.Compare(string(a.ID), string(b.ID)) })
	for _, x := range l {
		out = append(out, backend.GossipMember{ID: string(x.ID), Address: x.Address, State: x.State.String(), Incarnation: x.Incarnation})
	}
	return out
}

func (w *world) push(i, j int) {
	if err := w.Raw.Gossip(bg, dc.ID(j), snapshot(w.Mem[i])); err != nil {
		vsched.Fail("[push] %v", err)
	}
}

// merge is what must hold of the receiver's view after the news: what it has
// to say of itself, and the newer record of all others.
func merge(what string, j, n int, old, news, got [maxN]rec) {
	for k := range n {
		o, m, g := old[k], news[k], got[k]
		bad := ""
		switch {
		case k == j:
			against := m.inc > 0 && m.st != cluster.NodeAlive
			switch {
			case g.st != cluster.NodeAlive || g.inc < o.inc:
				bad = "self"
			case against && m.inc >= o.inc && g.inc <= m.inc:
				bad = "unrefuted"
			case (m.inc == 0 || against && m.inc < o.inc || !against && m.inc <= o.inc) && g != o:
				bad = "self-changed"
			}
		case m.inc == 0 || o.inc > 0 && m.inc <= o.inc:
			if g != o {
				bad = "stale"
			}
		case o.inc == 0 && m.st != cluster.NodeAlive:
			if g != o {
				bad = "revived"
			}
		case g != m:
			bad = "missed"
		}
		if bad != "" {
			vsched.Fail("[%s] %s: n%d believed %v of n%d, is told %v, believes %v", bad, what, j, o, k, m, g)
		}
	}
}

// ring must have the members of the view which are not dead.
func (w *world) ring(what string, i int) {
	v := view(w.Mem[i])
	var want []string
	for j := range w.n {
		if v[j].inc > 0 && v[j].st != cluster.NodeDead {
			want = append(want, dc.ID(j))
		}
	}
	var got []string
	for _, id := range w.Mem[i].Ring().Lookup("key") {
		got = append(got, string(id))
	}
	slices.Sort(got)
	if !slices.Equal(got, want) {
		vsched.Fail("[ring] %s: n%d believes %v, owners are taken from %v", what, i, v[:w.n], got)
	}
}

// told: one node of any belief is told anything.
func told(claims int) func() {
	return func() {
		vsched.Calm(true)
		w := newWorld(2)
		states := []cluster.NodeState{cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}
		var recs []rec
		for inc := range uint64(4) {
			for _, st := range states {
				recs = append(recs, rec{st, inc})
				if inc == 0 {
					break
				}
			}
		}
		pick := func() rec { return recs[vsched.Choose(len(recs))] }
		var s state
		s[0][0] = rec{cluster.NodeAlive, uint64(1 + vsched.Choose(3))}
		s[0][1] = pick()
		s[1][1] = rec{cluster.NodeAlive, 1}
		w.put(s)
		for c := range claims {
			var news [maxN]rec
			news[0], news[1] = pick(), pick()
			var ms []backend.GossipMember
			for k, r := range news[:2] {
				if r.inc > 0 {
					ms = append(ms, backend.GossipMember{ID: dc.ID(k), Address: fmt.Sprintf("n%d:%d", k, c+2), State: r.st.String(), Incarnation: r.inc})
				}
			}
			if vsched.Choose(2) == 1 {
				slices.Reverse(ms)
			}
			old := view(w.Mem[0])
			if err := w.Raw.Gossip(bg, "n0", ms); err != nil {
				vsched.Fail("[push] %v", err)
			}
			got := view(w.Mem[0])
			merge("told", 0, 2, old, news, got)
			w.ring("told", 0)
			for _, x := range w.Mem[0].List() {
				if x.ID == "n1" && got[1] != old[1] && x.Address != fmt.Sprintf("n1:%d", c+2) {
					vsched.Fail("[address] the news has n1 at n1:%d, n0 at %s", c+2, x.Address)
				}
				if x.ID == "n0" && x.Address != "n0:1" {
					vsched.Fail("[address] n0 is told its address, and takes it: %s", x.Address)
				}
			}
			if vsched.Outcome("%v", got[:2]); w.Nodes[0].Metrics().MembersAlive < 1 {
				vsched.Fail("[metrics] no member is alive")
			}
		}
		w.Stop()
	}
}

// reach explores all states reachable by failed and successful probes,
// pruning, restarts and gossip, and lets the news spread in each of them.
func reach(n, depth int, incs uint64, prune bool) func() {
	return func() {
		vsched.Calm(true)
		w := newWorld(n)
		type entry struct {
			s    state
			d    int
			from int
			op   string
		}
		var all []entry
		seen := map[state]bool{}
		history := func(i int) string {
			var ops []string
			for ; all[i].from >= 0; i = all[i].from {
				ops = append(ops, all[i].op)
			}
			slices.Reverse(ops)
			return strings.Join(ops, " ")
		}
		add := func(s state, d, from int, op string) {
			if !seen[s] {
				seen[s] = true
				all = append(all, entry{s, d, from, op})
			}
		}
		add(w.get(), 0, -1, "")
		trans := 0
		for x := 0; x < len(all); x++ {
			e := all[x]
			w.settle(e.s, func() string { return history(x) })
			if e.d == depth {
				continue
			}
			for i := range n {
				for j := range n {
					if i == j {
						if e.s[i][i].inc > 1 { // a restart
							s := e.s
							s[i] = all[0].s[i]
							add(s, e.d+1, x, fmt.Sprintf("restart%d", i))
						}
						continue
					}
					r := e.s[i][j]
					if r.inc == 0 {
						continue
					}
					id := cluster.NodeID(dc.ID(j))
					step := func(op string, f func()) state {
						w.put(e.s)
						f()
						trans++
						s := w.get()
						for k := range n {
							if k != j && s[k] != e.s[k] && k != i {
								vsched.Fail("[other] %s %s: n%d changed from %v to %v", history(x), op, k, e.s[k][:n], s[k][:n])
							}
						}
						w.ring(op, i)
						w.ring(op, j)
						add(s, e.d+1, x, op)
						return s
					}
					op := fmt.Sprintf("push%d>%d", i, j)
					s := step(op, func() { w.push(i, j) })
					merge(history(x)+" "+op, j, n, e.s[j], e.s[i], s[j])
					switch {
					case r.inc >= incs:
					case r.st == cluster.NodeAlive:
						step(fmt.Sprintf("suspect%d/%d", i, j), func() { w.Mem[i].Mark(id, cluster.NodeSuspect) })
					default:
						step(fmt.Sprintf("alive%d/%d", i, j), func() { w.Mem[i].Mark(id, cluster.NodeAlive) })
					}
					if prune && r.st == cluster.NodeSuspect {
						step(fmt.Sprintf("prune%d/%d", i, j), func() { w.Mem[i].Remove(id) })
					}
				}
			}
		}
		vsched.Outcome("%d states, %d transitions", len(all), trans)
		w.Stop()
	}
}

// settle lets every node push to all it knows, round by round: in the end
// all which hear of each other believe each other alive.
func (w *world) settle(s state, hist func() string) {
	w.put(s)
	// who can hear of whom
	var link [maxN][maxN]bool
	for i := range w.n {
		for j := range w.n {
			link[i][j] = i == j || s[i][j].inc > 0 || s[j][i].inc > 0
		}
	}
	for k := range w.n {
		for i := range w.n {
			for j := range w.n {
				link[i][j] = link[i][j] || link[i][k] && link[k][j]
			}
		}
	}
	for range 4 {
		v := w.get()
		for i := range w.n {
			for j := range w.n {
				if i != j && view(w.Mem[i])[j].inc > 0 {
					w.push(i, j)
				}
			}
		}
		if w.get() == v {
			break
		}
	}
	v := w.get()
	for i := range w.n {
		for j := range w.n {
			if link[i][j] && (v[i][j].inc == 0 || v[i][j].st != cluster.NodeAlive) {
				vsched.Fail("[unsettled] after %s and 4 rounds of gossip n%d believes %v of n%d, which is alive: %s", hist(), i, v[i][j], j, v.show(w.n))
			}
		}
	}
}

// racing: news arrives from two peers, or while the failure detector changes
// its mind.
func racing(self bool, pairs ...[2]uint64) func() {
	return func() {
		vsched.Calm(true)
		w := newWorld(3)
		who := 2
		if self {
			who = 0
		}
		id := dc.ID(who)
		claim := func(st string, inc uint64) []backend.GossipMember {
			return []backend.GossipMember{{ID: id, Address: id + ":1", State: st, Incarnation: inc}}
		}
		first := pairs[vsched.Choose(len(pairs))]
		st := func(inc uint64) string {
			if inc%2 == 1 && !self {
				return "alive"
			}
			return "suspect"
		}
		kinds := 4
		if self {
			kinds = 2
		}
		kind := vsched.Choose(kinds)
		start := view(w.Mem[0])[who]
		var seen []uint64
		vsched.Sleep(time.Millisecond)
		vsched.Calm(false)
		g := vsched.Group{}
		g.Go(func() { _ = w.Raw.Gossip(bg, "n0", claim(st(first[1]), first[1])) })
		g.Go(func() {
			switch kind {
			case 0:
				_ = w.Raw.Gossip(bg, "n0", claim(st(first[0]), first[0]))
			case 1:
				for range 2 {
					seen = append(seen, view(w.Mem[0])[who].inc)
				}
			case 2:
				w.Mem[0].Mark("n2", cluster.NodeSuspect)
			case 3:
				w.Mem[0].Remove("n2")
			}
		})
		g.Wait()
		vsched.Calm(true)
		got := view(w.Mem[0])[who]
		top := first[1]
		if !slices.IsSorted(seen) {
			vsched.Fail("[backwards] incarnations of n%d as seen: %v", who, seen)
		}
		what := fmt.Sprintf("n0 believed %v of n%d and was told %s@%d and %s@%d", start, who, st(first[0]), first[0], st(top), top)
		if kind > 0 {
			what = fmt.Sprintf("n0 believed %v of n%d and was told %s@%d (%s meanwhile)", start, who, st(top), top, []string{"", "read", "a probe failed", "it was pruned"}[kind])
		}
		switch {
		case self:
			if got.st != cluster.NodeAlive || got.inc <= top {
				vsched.Fail("[unrefuted] %s: %v", what, got)
			}
		case kind == 3: // pruned before, between or after
			if got.inc != 0 && got.inc != top {
				vsched.Fail("[backwards] %s: %v", what, got)
			}
		case got.inc < top:
			vsched.Fail("[backwards] %s: %v", what, got)
		case got.inc == top && got.st.String() != st(top):
			vsched.Fail("[mixed] %s: %v", what, got)
		}
		w.ring(what, 0)
		vsched.Outcome("%v", got)
		w.Stop()
	}
}

// loops: the gossip loops of all nodes, over all targets they may pick.
func loops(n, ticks int, raw bool) func() {
	return func() {
		vsched.Calm(true)
		const every = 10 * time.Millisecond
		w := &world{dc.New(dc.Cfg{N: n, R: n, VNodes: 1, Raw: raw, Each: func(i int) []dc.Opt {
			return []dc.Opt{backend.WithDistGossipInterval(every + time.Duration(i)*time.Millisecond)}
		}}), n}
		// a chain: each node knows the next one only, and one is slandered
		for i := range n {
			for j := range n {
				if j != i && j != i+1 {
					w.Leave(i, j)
				}
			}
		}
		if vsched.Choose(2) == 1 {
			w.Mem[0].Mark("n1", cluster.NodeSuspect)
		}
		down := vsched.Choose(n+1) - 1
		if raw {
			down = -1
		}
		if down >= 0 {
			w.SetDown(down, true)
		}
		model := w.get()
		pushes := 0
		w.Tap = func(c dc.Call) {
			if c.Op != "gossip" {
				vsched.Fail("[call] gossip makes the call %v", c)
				return
			}
			i, j := int(c.From[1]-'0'), int(c.To[1]-'0')
			pushes++
			now := w.get()
			var news [maxN]rec
			for _, m := range c.Members {
				r := rec{inc: m.Incarnation}
				switch m.State {
				case "suspect":
					r.st = cluster.NodeSuspect
				case "dead":
					r.st = cluster.NodeDead
				}
				news[m.ID[1]-'0'] = r
				if m.Address != m.ID+":1" {
					vsched.Fail("[address] n%d says %s is at %s", i, m.ID, m.Address)
				}
			}
			if i == j || now[i][j].inc == 0 || news != now[i] {
				vsched.Fail("[push] n%d, believing %v, tells %s %v", i, now[i][:n], c.To, news[:n])
			}
			model = now
		}
		vsched.Sleep(time.Duration(ticks)*(every+2*time.Millisecond) + time.Millisecond)
		if !raw && pushes < ticks {
			vsched.Fail("[idle] %d pushes in %d rounds", pushes, ticks)
		}
		v := w.get()
		known := 0
		for i := range n {
			for j := range n {
				if v[i][j].inc < model[i][j].inc {
					vsched.Fail("[backwards] n%d believed %v of n%d and now %v", i, model[i][j], j, v[i][j])
				}
				if v[i][j].inc > 0 {
					known++
				}
			}
			if v[i][i].st != cluster.NodeAlive {
				vsched.Fail("[self] n%d believes itself %v", i, v[i][i])
			}
		}
		if n == 2 && down < 0 && (v[0] != v[1] || v[0][1].st != cluster.NodeAlive) {
			vsched.Fail("[unsettled] %s", v.show(n))
		}
		w.Stop()
		before := pushes
		vsched.Sleep(5 * every)
		if pushes != before {
			vsched.Fail("[stopped] a stopped node gossips")
		}
		vsched.Outcome("%d %d", down, known)
	}
}

// joining: the loops run while nodes come and go on the transport.
func joining() {
	vsched.Calm(true)
	w := &world{dc.New(dc.Cfg{N: 2, R: 2, VNodes: 1, Raw: true, Opts: []dc.Opt{backend.WithDistGossipInterval(10 * time.Millisecond)}}), 2}
	vsched.Sleep(9 * time.Millisecond)
	vsched.Calm(false)
	g := vsched.Group{}
	g.Go(func() {
		vsched.Sleep(time.Millisecond)
		w.Raw.Unregister("n1")
		w.Raw.Register(w.Nodes[1])
	})
	g.Go(func() { vsched.Sleep(2 * time.Millisecond) })
	g.Wait()
	vsched.Calm(true)
	vsched.Outcome("%s", w.get().show(2))
	w.Stop()
}

// large: the news of many members in one message.
func large() {
	vsched.Calm(true)
	const every = 10 * time.Millisecond
	sizes := []int{10, 21, 33, 65, 101, 129}
	n := sizes[vsched.Choose(len(sizes))]
	w := dc.New(dc.Cfg{N: 2, R: 2, VNodes: 1, Each: func(i int) []dc.Opt {
		if i == 0 {
			return []dc.Opt{backend.WithDistGossipInterval(every)}
		}
		return nil
	}})
	show := func(m *cluster.Membership) map[string]string {
		out := map[string]string{}
		for _, x := range m.List() {
			out[string(x.ID)] = fmt.Sprintf("%s %s %d", x.Address, x.State, x.Incarnation)
		}
		return out
	}
	var news []backend.GossipMember
	for i := range n {
		news = append(news, backend.GossipMember{ID: fmt.Sprintf("m%d", i), Address: fmt.Sprintf("10.0.0.%d:7946", i), State: "alive", Incarnation: uint64(1) << (i % 63)})
	}
	told := func(i int) {
		if err := w.Raw.Gossip(bg, dc.ID(i), news); err != nil {
			vsched.Fail("[push] %v", err)
		}
		v := show(w.Mem[i])
		for _, x := range news {
			if want := fmt.Sprintf("%s %s %d", x.Address, x.State, x.Incarnation); v[x.ID] != want {
				vsched.Fail("[missed] n%d is told of %d members at once, of %s %s: believes %q", i, n, x.ID, want, v[x.ID])
			}
		}
	}
	told(0)
	for i := range news {
		news[i].Incarnation++
		news[i].State = []string{"alive", "suspect", "dead"}[i%3]
	}
	told(0)
	pushed := 0
	w.Tap = func(c dc.Call) {
		pushed++
		if got, want := len(c.Members), len(w.Mem[0].List()); got != want {
			vsched.Fail("[push] n0 knows %d members and tells %d", want, got)
		}
		v := show(w.Mem[0])
		for _, x := range c.Members {
			if got := fmt.Sprintf("%s %s %d", x.Address, x.State, x.Incarnation); v[x.ID] != got {
				vsched.Fail("[push] n0 believes %q of %s and tells %q", v[x.ID], x.ID, got)
			}
		}
	}
	vsched.Sleep(every + time.Millisecond)
	if pushed != 1 {
		vsched.Fail("[idle] %d pushes in a round", pushed)
	}
	w.Stop()
	vsched.Outcome("%d", n)
}

func main() {
	p24, p23, p45 := [2]uint64{2, 4}, [2]uint64{2, 3}, [2]uint64{4, 5}
	det := vsched.Opts{MaxSteps: 1 << 30}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	kit.Main(
		kit.Scenario{Name: "large", Body: large, Quick: det},
		kit.Scenario{Name: "told", Body: told(1), Quick: det},
		kit.Scenario{Name: "told-twice", Body: told(2), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "reach-2", Body: reach(2, 100, 5, true), Quick: det, Single: true},
		kit.Scenario{Name: "reach-3", Body: reach(3, 6, 4, true), Quick: det, Single: true},
		kit.Scenario{Name: "reach-3-deep", Body: reach(3, 8, 4, true), Deep: det, DeepOnly: true, Single: true},
		kit.Scenario{Name: "reach-4", Body: reach(4, 4, 4, false), Deep: det, DeepOnly: true, Single: true},
		kit.Scenario{Name: "racing", Body: racing(false, p24, p23, p45), Quick: s(3), Race: true},
		kit.Scenario{Name: "racing-self", Body: racing(true, p24, p23), Quick: s(3), Race: true},
		kit.Scenario{Name: "loops-2", Body: loops(2, 6, false), Quick: det},
		kit.Scenario{Name: "loops-3", Body: loops(3, 4, false), Quick: det},
		kit.Scenario{Name: "loops-raw", Body: loops(3, 3, true), Quick: det},
		kit.Scenario{Name: "loops-3-deep", Body: loops(3, 5, false), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "joining", Body: joining, Quick: s(2), Race: true},
	)
}
