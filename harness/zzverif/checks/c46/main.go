// C46: a cluster-wide listing has every key there is, once, and tells whom it
// could not ask.
package main

import (
	"context"
	"fmt"
	"path"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

// most is how many keys a listing has without a limit of the caller's.
const most = 10000

func item(k string) *cache.Item {
	return &cache.Item{Key: k, Value: "v", Version: 1, Origin: "n0", LastUpdated: time.Unix(1, 0)}
}

// matches: a pattern with *, ? or [ is a glob, any other one a prefix.
func matches(pattern, k string) (bool, error) {
	if !strings.ContainsAny(pattern, "*?[") {
		return strings.HasPrefix(k, pattern), nil
	}
	return path.Match(pattern, k)
}

// state of a node as the asking one sees it, and as it is.
type state int

const (
	up state = iota
	suspect
	dead
	unknown  // not a member
	down     // a member which is gone
	failing  // a member which gives an error
	afterErr // a member which fails after the work is done
)

func (s state) asked() bool { return s == up || s == down || s == failing || s == afterErr }

// check lists once and compares with what the nodes hold.
func check(what string, got *backend.ListKeysResult, err error, hold []map[string]bool, st []state, pattern string, limit int) {
	if _, bad := matches(pattern, ""); bad != nil {
		if err == nil {
			vsched.Fail("[pattern] %s: no error for the pattern %q", what, pattern)
		}
		vsched.Outcome("bad pattern")
		return
	}
	if err != nil {
		vsched.Fail("[error] %s: %v", what, err)
		return
	}
	var want, partial []string
	for i, h := range hold {
		if !st[i].asked() {
			continue
		}
		if st[i] != up {
			partial = append(partial, dc.ID(i))
			continue
		}
		for k := range h {
			if ok, _ := matches(pattern, k); ok {
				want = append(want, k)
			}
		}
	}
	slices.Sort(want)
	want = slices.Compact(want)
	pn := slices.Clone(got.PartialNodes)
	slices.Sort(pn)
	if !slices.Equal(pn, partial) {
		vsched.Fail("[partial] %s: it says that %q could not be asked, not %q", what, pn, partial)
	}
	if !slices.IsSorted(got.Keys) || len(slices.Compact(slices.Clone(got.Keys))) != len(got.Keys) {
		vsched.Fail("[order] %s: %.200q", what, got.Keys)
	}
	n := limit
	if n <= 0 {
		n = most
	}
	switch {
	case len(want) <= n && (!slices.Equal(got.Keys, want) || got.Truncated):
		vsched.Fail("[keys] %s: %d keys %.200q (truncated %v), want %d: %.200q", what, len(got.Keys), got.Keys, got.Truncated, len(want), want)
	case len(want) > n:
		if len(got.Keys) != n || !got.Truncated {
			vsched.Fail("[limit] %s: %d keys of %d, truncated %v", what, len(got.Keys), len(want), got.Truncated)
		}
		for _, k := range got.Keys {
			if _, ok := slices.BinarySearch(want, k); !ok {
				vsched.Fail("[keys] %s: it lists %q, which is not there", what, k)
			}
		}
	}
	vsched.Outcome("%d %v %d", len(got.Keys), got.Truncated, len(pn))
}

// lister is who lists: the node, or a cache over it.
type lister func(pattern string, limit int) (*backend.ListKeysResult, error)

func nodeLister(dm *backend.DistMemory) lister {
	return func(pattern string, limit int) (*backend.ListKeysResult, error) {
		r, err := dm.ListKeys(bg, pattern, limit)
		return &r, err
	}
}

// apply makes the nodes what st says.
func apply(c *dc.Cluster, st []state) {
	for i := range st {
		switch st[i] {
		case suspect:
			c.Mem[0].Mark(cluster.NodeID(dc.ID(i)), cluster.NodeSuspect)
		case dead:
			c.Mem[0].Mark(cluster.NodeID(dc.ID(i)), cluster.NodeDead)
		case unknown:
			c.Leave(0, i)
		case down:
			c.SetDown(i, true)
		}
	}
	c.Hook = func(cl *dc.Call) dc.Verdict {
		if cl.Op == "keys" && st[int(cl.To[1]-'0')] == failing {
			return dc.Lose
		}
		return dc.Deliver
	}
}

var patterns = []string{"", "A", "[A]*", "A*", "a", "a*", "*b", "?", "??", "[ab]*", "[", "a[", "[a-", "\\*", "a\\*", "ab", "zz", "a/", "a/*", "*/*", "*", "**", "[^a]*", "*é*", "\x00", "a?c", "[]a]", "[*]"}

var names = []string{"a", "ab", "a/b", "b*", "é\x00", "abc", "A"}

// selection: every set of keys on one node, every pattern and limit.
func selection() func() {
	return func() {
		vsched.Calm(true)
		set := vsched.Choose(1 << len(names))
		shards := 1 + 3*vsched.Choose(2)
		c := dc.New(dc.Cfg{N: 1, R: 1, Opts: []dc.Opt{backend.WithDistShardCount(shards)}})
		h := map[string]bool{}
		for i, k := range names {
			if set>>i&1 == 1 {
				h[k] = true
				c.Nodes[0].DebugInject(item(k))
			}
		}
		limits := []int{-1, 0, 1, 2, 3, 5, 6, 7, 8}
		limit := limits[vsched.Choose(len(limits))]
		for _, pat := range patterns {
			got, err := nodeLister(c.Nodes[0])(pat, limit)
			check(fmt.Sprintf("%v, %q up to %d", h, pat, limit), got, err, []map[string]bool{h}, []state{up}, pat, limit)
		}
		c.Stop()
	}
}

// spread: every distribution of keys over the nodes, and every state of these.
func spread(keys int) func() {
	return func() {
		vsched.Calm(true)
		st := []state{up, state(vsched.Choose(6)), state(vsched.Choose(6))}
		c := dc.New(dc.Cfg{N: 3, R: 1})
		hold := []map[string]bool{{}, {}, {}}
		for i := range keys {
			k := names[i]
			for j, m := 0, vsched.Choose(8); j < 3; j++ {
				if m>>j&1 == 1 {
					hold[j][k] = true
					c.Nodes[j].DebugInject(item(k))
				}
			}
		}
		apply(c, st)
		for _, pat := range []string{"", "a", "*b"} {
			for _, limit := range []int{0, 1, 2, keys} {
				got, err := nodeLister(c.Nodes[0])(pat, limit)
				check(fmt.Sprintf("%v in states %v, %q up to %d", hold, st, pat, limit), got, err, hold, st, pat, limit)
			}
		}
		c.Stop()
	}
}

// histories: what was written, removed, cleared or expired.
func histories(depth int) func() {
	return func() {
		vsched.Calm(true)
		r := 1 + vsched.Choose(2)
		c := dc.New(dc.Cfg{N: 2, R: r, Opts: []dc.Opt{backend.WithDistWriteConsistency(backend.ConsistencyOne)}})
		h := map[string]bool{}
		hist := fmt.Sprintf("replication %d:", r)
		for range depth {
			switch o := vsched.Choose(10); {
			case o < 8:
				k, at := names[o%2], o/2%2
				if o < 4 {
					hist += fmt.Sprintf(" set %s@n%d", k, at)
					if err := c.Nodes[at].Set(bg, &cache.Item{Key: k, Value: "x"}); err != nil {
						vsched.Fail("[set] %s: %v", hist, err)
					}
					h[k] = true
				} else {
					hist += fmt.Sprintf(" remove %s@n%d", k, at)
					if err := c.Nodes[at].Remove(bg, k); err != nil {
						vsched.Fail("[remove] %s: %v", hist, err)
					}
					delete(h, k)
				}
			case o == 8:
				hist += " clear"
				for _, n := range c.Nodes {
					if err := n.Clear(bg); err != nil {
						vsched.Fail("[clear] %s: %v", hist, err)
					}
				}
				clear(h)
			default:
				hist += " remove both"
				if err := c.Nodes[0].Remove(bg, names[:2]...); err != nil {
					vsched.Fail("[remove] %s: %v", hist, err)
				}
				clear(h)
			}
			for i, n := range c.Nodes {
				for _, pat := range []string{"", "ab"} {
					got, err := nodeLister(n)(pat, 0)
					check(fmt.Sprintf("%s: n%d lists %q", hist, i, pat), got, err, []map[string]bool{h, h}, []state{up, up}, pat, 0)
					if len(got.Keys) > 0 { // what was listed is the caller's
						got.Keys[0] = "zz"
					}
				}
			}
		}
		c.Stop()
	}
}

// together: keys come and go, and nodes fail, while a listing runs.
func together(mode int) func() {
	return func() {
		vsched.Calm(true)
		c := dc.New(dc.Cfg{N: 3, R: 1})
		for i, k := range names[:4] {
			c.Nodes[i%3].DebugInject(item(k))
		}
		limit := []int{0, 3}[vsched.Choose(2)]
		vsched.Calm(false)
		var g vsched.Group
		var got backend.ListKeysResult
		var err error
		g.Go(func() { got, err = c.Nodes[0].ListKeys(bg, "", limit) })
		switch mode {
		case 0: // what is written or removed
			g.Go(func() {
				c.Nodes[1].DebugInject(item("new"))
				c.Nodes[2].DebugDropLocal(names[2])
			})
		case 1: // a node is lost
			g.Go(func() { c.SetDown(1, true) })
		case 2: // the membership changes
			g.Go(func() {
				c.Mem[0].Mark("n2", cluster.NodeSuspect)
				c.Mem[0].Remove("n1")
			})
		case 3: // another lists
			g.Go(func() {
				r, e := c.Nodes[0].ListKeys(bg, "a*", 1)
				if e != nil || len(r.Keys) != 1 || !r.Truncated || len(r.PartialNodes) != 0 {
					vsched.Fail("[other] another listing: %v %v", r, e)
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		if err != nil || !slices.IsSorted(got.Keys) || len(slices.Compact(slices.Clone(got.Keys))) != len(got.Keys) {
			vsched.Fail("[order] %v %v", got, err)
		}
		n := limit
		if n == 0 {
			n = most
		}
		gone := map[string]bool{} // which may miss
		switch mode {
		case 0:
			gone[names[2]] = true
		case 1:
			if len(got.PartialNodes) > 0 {
				gone[names[1]] = true
			}
		case 2:
			gone[names[1]], gone[names[2]] = true, true
		}
		if mode == 1 && len(got.PartialNodes) > 0 && (len(got.PartialNodes) != 1 || got.PartialNodes[0] != "n1" || slices.Contains(got.Keys, names[1])) || mode != 1 && len(got.PartialNodes) > 0 {
			vsched.Fail("[partial] mode %d: %v", mode, got)
		}
		for _, k := range got.Keys {
			if !slices.Contains(names[:4], k) && !(mode == 0 && k == "new") {
				vsched.Fail("[keys] mode %d: %v, where %q never was", mode, got, k)
			}
		}
		if !got.Truncated {
			for _, k := range names[:4] {
				if !gone[k] && !slices.Contains(got.Keys, k) {
					vsched.Fail("[keys] mode %d: %v lacks %q, which was there all the time", mode, got, k)
				}
			}
		}
		if len(got.Keys) > n || got.Truncated && len(got.Keys) != n {
			vsched.Fail("[limit] mode %d, up to %d: %v", mode, limit, got)
		}
		vsched.Outcome("%v", got)
		c.Stop()
	}
}

// caches: a cache lists like its node, and cannot without one.
func caches() {
	vsched.Calm(true)
	st := []state{up, state(vsched.Choose(6))}
	var hc *hypercache.HyperCache[backend.DistMemory]
	c := dc.New(dc.Cfg{N: 2, R: 1, Make: func(i int, opts []dc.Opt) error {
		if i > 0 {
			_, err := backend.NewDistMemory(bg, opts...)
			return err
		}
		conf, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
		if err != nil {
			return err
		}
		conf.DistMemoryOptions = opts
		conf.HyperCacheOptions = []hypercache.Option[backend.DistMemory]{hypercache.WithExpirationInterval[backend.DistMemory](time.Hour), hypercache.WithEvictionInterval[backend.DistMemory](0)}
		hc, err = hypercache.New(bg, hypercache.NewBackendManager(), conf)
		return err
	}})
	hold := []map[string]bool{{}, {}}
	for i, k := range names {
		hold[i%2][k] = true
		c.Nodes[i%2].DebugInject(item(k))
	}
	apply(c, st)
	pat := patterns[vsched.Choose(len(patterns))]
	for _, limit := range []int{0, 1, 2, 6} {
		got, err := hc.ClusterKeys(bg, pat, limit)
		if got == nil && err == nil {
			vsched.Fail("[unsupported] a distributed cache lists nothing")
		}
		check(fmt.Sprintf("states %v, %q up to %d", st, pat, limit), got, err, hold, st, pat, limit)
	}
	local, err := hypercache.NewInMemoryWithDefaults(bg, 10)
	if err != nil {
		vsched.Fail("[new] %v", err)
	}
	if r, err := local.ClusterKeys(bg, "", 0); r != nil || err != nil {
		vsched.Fail("[local] a cache that is not distributed lists %v, %v", r, err)
	}
	_ = local.Stop(bg)
	_ = hc.Stop(bg)
	c.Stop()
}

// large: many keys, on one node or on both.
func large(limit int) func() {
	return func() {
		vsched.Calm(true)
		ns := append(kit.Sizes(limit), most-1, most, most+1)
		n := ns[vsched.Choose(len(ns))]
		c := dc.New(dc.Cfg{N: 2, R: 1, Opts: []dc.Opt{backend.WithDistShardCount(1 + 7*vsched.Choose(2))}})
		hold := []map[string]bool{{}, {}}
		for i := range n {
			k := fmt.Sprintf("key-%d", i)
			for j := range 2 {
				if i%3 == 2 || i%3 == j {
					hold[j][k] = true
					c.Nodes[j].DebugInject(item(k))
				}
			}
		}
		st := []state{up, []state{up, failing}[vsched.Choose(2)]}
		apply(c, st)
		for _, l := range []int{0, 1, n - 1, n, n + 1} {
			for _, pat := range []string{"", "key-1"} {
				got, err := nodeLister(c.Nodes[0])(pat, l)
				check(fmt.Sprintf("%d keys, %q up to %d", n, pat, l), got, err, hold, st, pat, l)
			}
		}
		c.Stop()
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 1 << 30}
	s := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 400000} }
	d := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 400000} }
	kit.Main(
		kit.Scenario{Name: "selection", Body: selection(), Quick: det, Deep: det},
		kit.Scenario{Name: "spread", Body: spread(2), Quick: det, Deep: det},
		kit.Scenario{Name: "spread-3", Body: spread(3), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "histories", Body: histories(3), Quick: det},
		kit.Scenario{Name: "histories-4", Body: histories(4), Deep: det, DeepOnly: true},
		kit.Scenario{Name: "changes", Body: together(0), Quick: d(2), Deep: s(2), Race: true},
		kit.Scenario{Name: "loss", Body: together(1), Quick: d(2), Deep: s(2), Race: true},
		kit.Scenario{Name: "members", Body: together(2), Quick: d(2), Deep: s(2), Race: true},
		kit.Scenario{Name: "listings", Body: together(3), Quick: d(1), Deep: d(2), Race: true},
		kit.Scenario{Name: "caches", Body: caches, Quick: det, Deep: det},
		kit.Scenario{Name: "large", Body: large(1100), Quick: det},
		kit.Scenario{Name: "larger", Body: large(5200), Deep: det, DeepOnly: true},
	)
}
