// C32: rebalancing moves every key to its owners and loses none.
package main

import (
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const every = 10 * time.Millisecond

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			out = append(out, slices.Insert(slices.Clone(p), i, n-1))
		}
	}
	return out
}

// world is a cluster with a changing set of members and one watched key.
type world struct {
	*dc.Cluster
	n, r   int
	order  []int // preference of the key
	key    string
	member []bool
	want   string
	hist   string
}

func newWorld(n, r, initial int, order []int, opts ...dc.Opt) *world {
	c := dc.New(dc.Cfg{N: n, R: r, VNodes: 64, Opts: append([]dc.Opt{backend.WithDistRebalanceInterval(every), backend.WithDistWriteConsistency(backend.ConsistencyOne)}, opts...)})
	w := &world{Cluster: c, n: n, r: r, order: order, key: c.Pref(order...), member: make([]bool, n)}
	for i := range n {
		w.member[i] = i < initial
	}
	for i := range n {
		for j := initial; j < n; j++ {
			if i != j {
				c.Leave(i, j)
			}
		}
	}
	w.hist = fmt.Sprintf("key prefers %v, %d members:", order, initial)
	return w
}

func (w *world) owners() []int {
	var o []int
	for _, i := range w.order {
		if w.member[i] && len(o) < w.r {
			o = append(o, i)
		}
	}
	return o
}

func (w *world) members() (n int) {
	for _, m := range w.member {
		if m {
			n++
		}
	}
	return
}

func (w *world) others(i int) (o []int) {
	for j, m := range w.member {
		if m && j != i {
			o = append(o, j)
		}
	}
	return
}

// join makes i an empty member, known to all at once.
func (w *world) join(i int) {
	w.Restart(i, w.others(i)...)
	w.SetDown(i, false)
	for _, j := range w.others(i) {
		w.Join(j, i)
	}
	w.member[i] = true
	w.hist += fmt.Sprintf(" join%d", i)
}

// crash takes i away with what it holds; leave lets it go on for itself,
// knowing that it is no member.
func (w *world) crash(i int) {
	w.SetDown(i, true)
	w.member[i] = false
	for _, j := range w.others(i) {
		w.Leave(j, i)
	}
	w.hist += fmt.Sprintf(" crash%d", i)
}

func (w *world) leave(i int) {
	w.member[i] = false
	for _, j := range w.others(i) {
		w.Leave(j, i)
	}
	w.Leave(i, i)
	w.hist += fmt.Sprintf(" leave%d", i)
}

func (w *world) tick() {
	vsched.Sleep(every)
	w.hist += " tick"
}

func (w *world) set(v string) {
	p := w.owners()[0]
	if err := w.Nodes[p].Set(bg, &cache.Item{Key: w.key, Value: v}); err != nil {
		vsched.Fail("[set] after%s: %v", w.hist, err)
	}
	w.want = v
	w.hist += " set"
}

func (w *world) has(i int) bool {
	it, ok := w.Local(i, w.key)
	return ok && it.Value == w.want
}

// placed checks that the owners, and nobody else, hold the newest copy.
func (w *world) placed(spread bool) {
	if w.want == "" {
		return
	}
	o := w.owners()
	for i := range w.n {
		_, any := w.Local(i, w.key)
		switch {
		case slices.Contains(o, i) && !w.has(i):
			k := "missing"
			for j := range w.n {
				if w.has(j) && !w.Down(j) {
					k = "incomplete"
				}
			}
			vsched.Fail("[%s] %s: owners %v: %s", k, w.hist, o, w.Show(w.key))
		case spread && any && !slices.Contains(o, i) && (w.member[i] || !w.Down(i)):
			vsched.Fail("[kept] %s: owners %v: %s", w.hist, o, w.Show(w.key))
		}
	}
}

// safe: a crash of i does not take the last newest copy away.
func (w *world) safe(i int) bool {
	for j := range w.n {
		if j != i && w.member[j] && w.has(j) {
			return true
		}
	}
	return w.want == ""
}

// changes runs histories of membership changes, with a round after each.
func changes(n, r, initial, depth int, opts ...dc.Opt) func() {
	ps := perms(n)
	return func() {
		vsched.Calm(true)
		w := newWorld(n, r, initial, ps[vsched.Choose(len(ps))], opts...)
		w.set("w")
		w.tick()
		for d := range depth {
			vsched.Sleep(time.Millisecond)
			op := vsched.Choose(2*n + 1)
			i := op / 2
			switch {
			case op == 2*n:
				w.set(fmt.Sprintf("w%d", d))
			case w.member[i]:
				if w.members() == 1 {
					vsched.Prune()
					return
				}
				if op%2 == 0 {
					if !w.safe(i) {
						vsched.Prune()
						return
					}
					w.crash(i)
				} else {
					w.leave(i)
				}
			default:
				if op%2 == 1 {
					vsched.Prune()
					return
				}
				w.join(i)
			}
			w.tick()
			w.tick()
			w.placed(true)
		}
		vsched.Outcome("%d", w.members())
		w.Stop()
	}
}

// faults: the transfers of one change fail in every way; nothing is lost
// meanwhile (hints may hold the copy) and everything arrives afterwards.
func faults(n, r int, join, hints bool, opts ...dc.Opt) func() {
	ps := perms(n)
	return func() {
		vsched.Calm(true)
		initial := n
		if join {
			initial--
		}
		w := newWorld(n, r, initial, ps[vsched.Choose(len(ps))], opts...)
		w.set("w")
		w.tick()
		vsched.Sleep(time.Millisecond)
		if join {
			w.join(n - 1)
		} else {
			w.leave(vsched.Choose(n))
		}
		left := 2
		w.Hook = func(c *dc.Call) dc.Verdict {
			if c.Op != "set" || left == 0 {
				return dc.Deliver
			}
			v := vsched.Choose(4)
			if v > 0 {
				left--
				w.hist += fmt.Sprintf(" (%v: %d)", c, v)
			}
			return []dc.Verdict{dc.Deliver, dc.Refuse, dc.Lose, dc.LoseAck}[v]
		}
		for range 3 {
			w.tick()
			ok := false
			for i := range n {
				ok = ok || w.has(i)
			}
			if !ok && !hints {
				vsched.Fail("[lost] %s: nobody has it: %s", w.hist, w.Show(w.key))
			}
		}
		w.Hook = nil
		w.tick()
		w.tick()
		w.placed(true)
		vsched.Outcome("%d", left)
		w.Stop()
	}
}

// views: the members learn of a change one by one, with or without a round
// in between; anti-entropy makes up for copies a node refused because it had
// not learned yet that it owns the key.
func views(n, r int, join bool) func() {
	ps := perms(n)
	return func() {
		vsched.Calm(true)
		initial := n
		if join {
			initial--
		}
		w := newWorld(n, r, initial, ps[vsched.Choose(len(ps))], backend.WithDistMerkleAutoSync(every))
		w.set("w")
		w.tick()
		vsched.Sleep(time.Millisecond)
		x := n - 1
		var learn []int
		for i := range n {
			learn = append(learn, i)
		}
		if join { // the new node knows everybody
			w.Restart(x, w.others(x)...)
			learn = learn[:x]
		}
		for len(learn) > 0 {
			k := vsched.Choose(len(learn))
			i := learn[k]
			learn = slices.Delete(learn, k, k+1)
			if join {
				w.Join(i, x)
			} else {
				w.Leave(i, x)
			}
			w.hist += fmt.Sprintf(" n%d-learns", i)
			if vsched.Choose(2) == 1 {
				w.tick()
				ok := false
				for i := range n {
					ok = ok || w.has(i)
				}
				if !ok {
					refused := int64(0)
					for i := range n {
						refused += w.Nodes[i].Metrics().WriteApplyRefused
					}
					if refused > 0 {
						vsched.Fail("[refused] %s: the copy was given away to a node which refused it: %s", w.hist, w.Show(w.key))
					}
					vsched.Fail("[lost] %s: nobody has it: %s", w.hist, w.Show(w.key))
				}
			}
		}
		w.member[x] = join
		for range 3 {
			w.tick()
		}
		w.placed(true)
		vsched.Outcome("%v", join)
		w.Stop()
	}
}

// early: a write or removal at the new owners comes before the transfer.
func early() {
	vsched.Calm(true)
	r := 1 + vsched.Choose(2)
	order := [][]int{{2, 0, 1}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}}[vsched.Choose(4)]
	if order[0] != 2 && r == 1 {
		vsched.Prune()
		return
	}
	w := newWorld(3, r, 2, order)
	for i := range 1 + vsched.Choose(2) {
		w.set(fmt.Sprintf("w%d", i))
	}
	w.tick()
	vsched.Sleep(time.Millisecond)
	w.join(2)
	blind := !w.has(w.owners()[0])
	remove := vsched.Choose(2) == 1
	if remove {
		w.hist += " remove"
		if err := w.Nodes[w.owners()[0]].Remove(bg, w.key); err != nil {
			vsched.Fail("[remove] %v", err)
		}
	} else {
		w.set("new")
	}
	for range 4 {
		w.tick()
	}
	for _, i := range w.owners() {
		it, ok := w.Local(i, w.key)
		if ok == remove || ok && it.Value != "new" {
			if blind {
				vsched.Fail("[blind] %s: %s", w.hist, w.Show(w.key))
			}
			vsched.Fail("[early] %s: %s", w.hist, w.Show(w.key))
		}
	}
	vsched.Outcome("%v %v", blind, remove)
	w.Stop()
}

// grace: a copy which is not needed any more stays for the grace period.
func grace() {
	const ms = time.Millisecond
	vsched.Calm(true)
	g := []time.Duration{15 * ms, 25 * ms, 5 * ms}[vsched.Choose(3)]
	// n0 and n1 own the key until n2 joins and replaces one of them
	orders := [][]int{{2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}}
	w := newWorld(3, 2, 2, orders[vsched.Choose(4)], backend.WithDistRemovalGrace(g))
	w.set("w")
	w.tick()
	vsched.Sleep(ms)
	lost := w.order[2]
	w.join(2)
	at := vsched.Now()
	back := vsched.Choose(2) == 1
	after := time.Duration(1+4*vsched.Choose(10)) * ms
	vsched.Sleep(after)
	if back && after < g { // it is needed again before the time is up
		w.crash(2)
		if vsched.Choose(2) == 1 { // and, at least one scan later, not
			vsched.Sleep(every + time.Duration(1+3*vsched.Choose(5))*ms)
			w.join(2)
			at := vsched.Now()
			for time.Duration(vsched.Now()-at) < g-ms {
				vsched.Sleep(ms)
				if _, has := w.Local(lost, w.key); !has {
					vsched.Fail("[grace-again] of %v, %s: the copy of n%d is gone %v after it was not needed any more again", g, w.hist, lost, time.Duration(vsched.Now()-at))
				}
			}
			vsched.Outcome("again")
		}
		vsched.Sleep(3*g + 3*every)
		w.placed(true)
		vsched.Outcome("back")
		w.Stop()
		return
	}
	age := time.Duration(vsched.Now() - at)
	_, has := w.Local(lost, w.key)
	if !has && age < g {
		vsched.Fail("[grace] of %v: the copy of n%d is gone after %v", g, lost, age)
	}
	if has && age > g+2*every {
		vsched.Fail("[kept] grace %v: n%d still has a copy after %v", g, lost, age)
	}
	vsched.Sleep(3*g + 3*every)
	w.placed(true)
	vsched.Outcome("%v", has)
	w.Stop()
}

// graceFaults: the copy stays for as long as nobody took it over.
func graceFaults() {
	const g = 15 * time.Millisecond
	vsched.Calm(true)
	w := newWorld(3, 1, 2, [][]int{{2, 0, 1}, {2, 1, 0}}[vsched.Choose(2)], backend.WithDistRemovalGrace(g))
	w.set("w")
	w.tick()
	vsched.Sleep(time.Millisecond)
	w.join(2)
	v := []dc.Verdict{dc.Refuse, dc.Lose}[vsched.Choose(2)]
	w.Hook = func(c *dc.Call) dc.Verdict {
		if c.Op == "set" {
			return v
		}
		return dc.Deliver
	}
	for range 1 + vsched.Choose(6) {
		w.tick()
		if !w.has(0) && !w.has(1) {
			vsched.Fail("[lost] %s, transfers fail: %s", w.hist, w.Show(w.key))
		}
	}
	w.Hook = nil
	vsched.Sleep(g + 3*every)
	w.placed(true)
	vsched.Outcome("ok")
	w.Stop()
}

// midway: ownership comes back while a scan is on its way to the clean-up.
func midway() {
	const g = 15 * time.Millisecond
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 2, R: 1, Each: func(i int) []dc.Opt {
		if i > 0 {
			return nil
		}
		return []dc.Opt{backend.WithDistRebalanceInterval(every), backend.WithDistRemovalGrace(g)}
	}})
	keys := c.Keys(12, 1)
	for _, k := range keys[:6] { // written while n0 was alone, say
		c.Nodes[0].DebugInject(&cache.Item{Key: k, Value: k, Version: 1, Origin: "n0", LastUpdated: time.Unix(1, 0)})
	}
	at := 1 + vsched.Choose(5) // the scan in which n1 fails
	for i := range at {
		k := keys[6+i] // gives every scan something to transfer
		c.Nodes[0].DebugInject(&cache.Item{Key: k, Value: k, Version: 1, Origin: "n0", LastUpdated: time.Unix(1, 0)})
		held := map[string]bool{}
		if i == at-1 {
			for _, k := range keys[:6] {
				_, held[k] = c.Local(0, k)
			}
			c.Hook = func(cl *dc.Call) dc.Verdict {
				if cl.Op == "set" && cl.From == "n0" && !c.Down(1) {
					c.SetDown(1, true)
					c.Leave(0, 1)
				}
				return dc.Deliver
			}
		}
		vsched.Sleep(time.Millisecond)
		vsched.Sleep(every)
		for k, had := range held {
			if _, ok := c.Local(0, k); had && !ok {
				vsched.Fail("[midway] n1 went in scan %d: n0, the only node now, dropped the copy it had", at)
			}
		}
	}
	vsched.Outcome("%d", at)
	c.Stop()
}

// batches: a transfer is split and limited as configured, each key goes once.
func batches() {
	vsched.Calm(true)
	nk := 1 + vsched.Choose(6)
	size := 1 + vsched.Choose(3)
	conc := 1 + vsched.Choose(3)
	c := dc.New(dc.Cfg{N: 2, R: 1, Opts: []dc.Opt{backend.WithDistRebalanceInterval(every), backend.WithDistRebalanceBatchSize(size),
		backend.WithDistRebalanceMaxConcurrent(conc)}})
	keys := c.Keys(nk, 1)
	c.Leave(0, 1)
	for _, k := range keys {
		if err := c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: k}); err != nil {
			vsched.Fail("[set] %v", err)
		}
	}
	fly, peak, sent := 0, 0, map[string]int{}
	c.Hook = func(cl *dc.Call) dc.Verdict {
		if cl.Op == "set" {
			sent[cl.Key]++
			fly++
			peak = max(peak, fly)
			vsched.Sleep(time.Millisecond)
			fly--
		}
		return dc.Deliver
	}
	c.Join(0, 1)
	vsched.Sleep(40 * time.Millisecond)
	nb := (nk + size - 1) / size
	x := c.Nodes[0].Metrics()
	for _, k := range keys {
		if _, ok := c.Local(1, k); sent[k] != 1 || !ok {
			vsched.Fail("[batches] %d keys, size %d, %d at once: %s sent %d times", nk, size, conc, k, sent[k])
		}
	}
	if peak != min(conc, nb) {
		vsched.Fail("[batches] %d keys, size %d, %d at once: up to %d transfers in parallel", nk, size, conc, peak)
	}
	throttled := int64(max(0, nb-conc))
	if x.RebalanceBatches != int64(nb) || x.RebalancedKeys != int64(nk) || x.RebalancedPrimary != int64(nk) || (x.RebalanceThrottle > 0) != (throttled > 0) {
		vsched.Fail("[metrics] %d keys, size %d, %d at once: %d batches, %d keys, %d primaries, %d throttled", nk, size, conc,
			x.RebalanceBatches, x.RebalancedKeys, x.RebalancedPrimary, x.RebalanceThrottle)
	}
	vsched.Outcome("%d %d", peak, nb)
	c.Stop()
}

// limit: the transfers to new replicas are limited per round and all done in
// the end, failing ones included.
func limit(fail bool) func() {
	return func() {
		vsched.Calm(true)
		lim := vsched.Choose(5)
		nk := 1 + vsched.Choose(3)
		c := dc.New(dc.Cfg{N: 4, R: 3, Opts: []dc.Opt{backend.WithDistRebalanceInterval(every), backend.WithDistReplicaDiffMaxPerTick(lim)}})
		keys := c.Keys(nk, 0, 1, 2)
		both := vsched.Choose(2) == 1
		for i := range 4 {
			if i != 2 {
				c.Leave(i, 2)
			}
			if i != 1 && both {
				c.Leave(i, 1)
			}
			if i != 3 {
				c.Leave(i, 3)
			}
		}
		for _, k := range keys {
			if err := c.Nodes[0].Set(bg, &cache.Item{Key: k, Value: k}); err != nil {
				vsched.Fail("[set] %v", err)
			}
		}
		vsched.Sleep(every + time.Millisecond)
		bad := 0
		if fail {
			bad = 1 + vsched.Choose(2)
		}
		n, total := 0, 0
		c.Hook = func(cl *dc.Call) dc.Verdict {
			if cl.Op == "set" && cl.From == "n0" {
				n++
				if bad > 0 {
					bad--
					return dc.Lose
				}
				total++
			}
			return dc.Deliver
		}
		need := nk
		if both {
			need *= 2
		}
		for i := range 4 {
			if i != 2 {
				c.Join(i, 2)
			}
			if i != 1 && both {
				c.Join(i, 1)
			}
		}
		for round := 0; round < need+3; round++ {
			n = 0
			vsched.Sleep(every)
			if lim > 0 && n > lim {
				vsched.Fail("[limit] of %d per round: %d in round %d", lim, n, round)
			}
		}
		for _, k := range keys {
			for i := range 3 {
				if _, ok := c.Local(i, k); !ok {
					vsched.Fail("[incomplete] limit %d, %d keys: after %d rounds: %s", lim, nk, need+3, c.Show(k))
				}
			}
		}
		if total != need {
			vsched.Fail("[limit] of %d: %d transfers for %d missing copies", lim, total, need)
		}
		vsched.Outcome("%d", need)
		c.Stop()
	}
}

// idle: without a change nothing is moved.
func idle() {
	vsched.Calm(true)
	r := 1 + vsched.Choose(3)
	c := dc.New(dc.Cfg{N: 3, R: r, Opts: []dc.Opt{backend.WithDistRebalanceInterval(every)}})
	for i := range 6 {
		k := fmt.Sprintf("key%d", i)
		if err := c.Nodes[vsched.Choose(2)].Set(bg, &cache.Item{Key: k, Value: k}); err != nil {
			vsched.Fail("[set] %v", err)
		}
	}
	n := 0
	c.Hook = func(cl *dc.Call) dc.Verdict {
		n++
		return dc.Deliver
	}
	vsched.Sleep(5*every + time.Millisecond)
	for i := range 3 {
		x := c.Nodes[i].Metrics()
		if n != 0 || x.RebalancedKeys+x.RebalanceBatches+x.RebalancedReplicaDiff != 0 {
			vsched.Fail("[idle] %d calls, n%d moved %d keys", n, i, x.RebalancedKeys)
		}
	}
	c.Stop()
	c.Leave(0, 1)
	c.Leave(0, 2)
	c.Leave(1, 1)
	vsched.Sleep(5 * every)
	if n != 0 {
		vsched.Fail("[stopped] a stopped node moves keys")
	}
	vsched.Outcome("%d", r)
}

// arrival: a newer copy arrives while the node gives the key away.
func arrival() {
	vsched.Calm(true)
	c := dc.New(dc.Cfg{N: 3, R: 1, Each: func(i int) []dc.Opt {
		if i == 0 {
			return []dc.Opt{backend.WithDistRebalanceInterval(every)}
		}
		return nil
	}})
	key := c.Key(1)
	item := func(v uint64) *cache.Item {
		return &cache.Item{Key: key, Value: fmt.Sprint(v), Version: v, Origin: "o", LastUpdated: time.Unix(0, 0).Add(time.Duration(v) * time.Millisecond)}
	}
	c.Leave(0, 1)
	c.Leave(0, 2)
	_ = c.Raw.ForwardSet(bg, "n0", item(1), false)
	vsched.Sleep(every - time.Millisecond)
	vsched.Calm(false)
	g := vsched.Group{}
	g.Go(func() { // n2 still believes that n0 is the owner
		vsched.Sleep(time.Millisecond)
		_ = c.Raw.ForwardSet(bg, "n0", item(2), false)
	})
	g.Go(func() {
		vsched.Sleep(time.Millisecond)
		c.Join(0, 1)
	})
	g.Wait()
	vsched.Calm(true)
	vsched.Sleep(3 * every)
	// a copy which n0 accepted (it answered before it knew n1, or it
	// still held the key) is not lost
	x := c.Nodes[0].Metrics()
	it, ok := c.Local(1, key)
	if !ok || it.Version < 2 && x.WriteApplyRefused == 0 {
		vsched.Fail("[lost] n0 took version 2: %s", c.Show(key))
	}
	vsched.Outcome("%d %d", it.Version, x.WriteApplyRefused)
	c.Stop()
}

// many keys moving at once.
func many(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		nk := ns[vsched.Choose(len(ns))]
		r := 1 + vsched.Choose(2)
		size := []int{0, 1, 7, 1000}[vsched.Choose(4)]
		if size > 0 && nk/size > 15 {
			size = nk / 15 // a goroutine per batch
		}
		c := dc.New(dc.Cfg{N: 3, R: r, Opts: []dc.Opt{backend.WithDistRebalanceInterval(every), backend.WithDistRebalanceBatchSize(size), backend.WithDistRebalanceMaxConcurrent(4)}})
		for i := range 2 {
			c.Leave(i, 2)
		}
		for i := range nk {
			k := fmt.Sprint("key-", i)
			if err := c.Nodes[i%2].Set(bg, &cache.Item{Key: k, Value: k}); err != nil {
				vsched.Fail("[set] %v", err)
			}
		}
		vsched.Sleep(every)
		sent := map[string]int{}
		c.Tap = func(cl dc.Call) {
			if cl.Op == "set" && cl.To == "n2" {
				sent[cl.Key]++
			}
		}
		check := func(when string, gone int) {
			have := make([]map[string]bool, 3)
			for i := range 3 {
				have[i] = map[string]bool{}
				l, err := c.Nodes[i].List(bg)
				if err != nil {
					vsched.Fail("[list] %v", err)
				}
				for _, it := range l {
					have[i][it.Key] = it.Value == it.Key
				}
			}
			for i := range nk {
				k := fmt.Sprint("key-", i)
				own := c.Mem[0].Ring().Lookup(k)
				for j := range 3 {
					if own := slices.Contains(own, cluster.NodeID(dc.ID(j))); j != gone && own != have[j][k] {
						key := "kept"
						if own {
							key = "missing"
						}
						vsched.Fail("[%s] %d keys, batches of %d, %d copies, after %s: %s at %s: owner %v, there %v", key, nk, size, r, when, k, dc.ID(j), own, have[j][k])
					}
				}
			}
		}
		check("writing", 2)
		for i := range 2 {
			c.Join(i, 2)
		}
		vsched.Sleep(2*every + time.Duration(nk)*time.Millisecond)
		check("a join", -1)
		for k, n := range sent {
			if n != 1 && (r == 1 || n > 2) {
				vsched.Fail("[batches] %d keys, batches of %d, %d copies: %s was sent %d times", nk, size, r, k, n)
			}
		}
		for i := range 3 {
			c.Leave(i, 2)
		}
		vsched.Sleep(2*every + time.Duration(nk)*time.Millisecond)
		check("a leave", 2)
		vsched.Outcome("%d", nk)
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	hints := func(o ...dc.Opt) []dc.Opt {
		return append([]dc.Opt{backend.WithDistHintTTL(time.Second), backend.WithDistHintReplayInterval(every)}, o...)
	}
	kit.Main(
		kit.Scenario{Name: "changes-2of3", Body: changes(3, 2, 2, 3), Quick: det},
		kit.Scenario{Name: "changes-2of4", Body: changes(4, 2, 3, 2), Quick: det},
		kit.Scenario{Name: "changes-1of3", Body: changes(3, 1, 2, 3), Quick: det},
		kit.Scenario{Name: "changes-3of4", Body: changes(4, 3, 3, 2), Quick: det},
		kit.Scenario{Name: "changes-deep", Body: changes(4, 2, 2, 4), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "changes-3-deep", Body: changes(4, 3, 2, 4), Deep: det, DeepOnly: true, Weight: 4},
		kit.Scenario{Name: "faults-join", Body: faults(3, 2, true, false), Quick: det},
		kit.Scenario{Name: "faults-join-1", Body: faults(3, 1, true, false), Quick: det},
		kit.Scenario{Name: "faults-leave", Body: faults(3, 2, false, false), Quick: det},
		kit.Scenario{Name: "faults-leave-1", Body: faults(3, 1, false, false), Quick: det},
		kit.Scenario{Name: "faults-hints", Body: faults(3, 1, true, true, hints()...), Quick: det},
		kit.Scenario{Name: "faults-hints-cap", Body: faults(3, 1, true, false, hints(backend.WithDistHintMaxBytes(1))...), Quick: det},
		kit.Scenario{Name: "views-join", Body: views(3, 2, true), Quick: det},
		kit.Scenario{Name: "views-leave", Body: views(3, 2, false), Quick: det},
		kit.Scenario{Name: "views-join-1", Body: views(3, 1, true), Quick: det},
		kit.Scenario{Name: "views-leave-1", Body: views(3, 1, false), Quick: det},
		kit.Scenario{Name: "views-join-4", Body: views(4, 2, true), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "views-leave-4", Body: views(4, 2, false), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "grace", Body: grace, Quick: det},
		kit.Scenario{Name: "midway", Body: midway, Quick: det},
		kit.Scenario{Name: "grace-faults", Body: graceFaults, Quick: det},
		kit.Scenario{Name: "early", Body: early, Quick: det},
		kit.Scenario{Name: "batches", Body: batches, Quick: det},
		kit.Scenario{Name: "limit", Body: limit(false), Quick: det},
		kit.Scenario{Name: "limit-faults", Body: limit(true), Quick: det},
		kit.Scenario{Name: "many", Body: many(300), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "more", Body: many(2100), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "idle", Body: idle, Quick: det},
		kit.Scenario{Name: "arrival", Body: arrival, Quick: s(2), Race: true},
	)
}
