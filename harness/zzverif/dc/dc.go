// Package dc builds clusters of distributed backends of the real code on a
// network the checks control.
package dc

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Opt is an option of a node.
type Opt = backend.DistMemoryOption

// ErrNet is what a call gets that the network loses.
var ErrNet = errors.New("connection reset by peer")

// Verdict is what the network does with a call.
type Verdict int

const (
	Deliver Verdict = iota
	Refuse          // the target is not there
	Lose            // an error, and the call is not delivered
	LoseAck         // delivered, but the answer is an error
)

// Call is one call over the network.
type Call struct {
	From, Op, To string
	Key          string
	Item         *cache.Item // of a set: a copy
	Repl         bool
	Members      []backend.GossipMember // of gossip
	Ctx          context.Context        // not of gossip
	Verdict      Verdict
}

func (c Call) String() string {
	s := fmt.Sprintf("%s->%s %s %s", c.From, c.To, c.Op, c.Key)
	if c.Item != nil {
		s += fmt.Sprintf("=%v@%d", c.Item.Value, c.Item.Version)
	}
	return s
}

// Net is the network of a cluster.
type Net struct {
	inner *backend.InProcessTransport
	down  [8]bool
	cut   [8][8]bool // from, to
	Soft  bool       // down nodes give ErrNet instead of "not found"
	Hook  func(c *Call) Verdict
	Tap   func(c Call)  // sees every call after its verdict; sequential scenarios
	Rec   bool          // keep the calls, for Calls
	Slow  time.Duration // a call takes this long, and fails if its context ends
	calls [512]Call
	ncall int
}

func num(id string) int { return int(id[1] - '0') }

// Flags are read and written without the race detector looking: the network
// is no synchronisation of the code under test, and no data of it either.

// Down reports whether a node is down.
//
//go:norace
func (n *Net) Down(i int) bool { return n.down[i] }

// SetDown takes a node down, or up.
//
//go:norace
func (n *Net) SetDown(i int, down bool) { n.down[i] = down }

// SetCut cuts one direction between two nodes.
//
//go:norace
func (n *Net) SetCut(from, to int, cut bool) { n.cut[from][to] = cut }

//go:norace
func (n *Net) broken(from, to string) bool {
	f, t := num(from), num(to)
	return n.down[f] || n.down[t] || n.cut[f][t]
}

//go:norace
func (n *Net) record(c *Call) {
	if n.ncall < len(n.calls) {
		n.calls[n.ncall] = *c
		n.ncall++
	}
}

// Calls are the calls so far, with their verdicts (Rec).
//
//go:norace
func (n *Net) Calls() []Call { return n.calls[:n.ncall] }

func (n *Net) judge(c *Call) error {
	c.Verdict = Deliver
	if n.Slow > 0 {
		vsched.Sleep(n.Slow)
		if c.Ctx != nil && c.Ctx.Err() != nil {
			return c.Ctx.Err()
		}
	}
	if n.broken(c.From, c.To) {
		c.Verdict = Refuse
		if n.Soft {
			c.Verdict = Lose
		}
	} else if n.Hook != nil {
		c.Verdict = n.Hook(c)
	}
	if n.Rec {
		n.record(c)
	}
	if n.Tap != nil {
		n.Tap(*c)
	}
	switch c.Verdict {
	case Refuse:
		return sentinel.ErrBackendNotFound
	case Lose:
		return ErrNet
	}
	return nil
}

// Link is the transport of one node.
type Link struct {
	N    *Net
	From string
}

func after(c *Call, err error) error {
	if err == nil && c.Verdict == LoseAck {
		return ErrNet
	}
	return err
}

// ForwardSet implements backend.DistTransport.
func (l Link) ForwardSet(ctx context.Context, id string, it *cache.Item, repl bool) error {
	cp := *it
	c := Call{From: l.From, Op: "set", To: id, Key: it.Key, Item: &cp, Repl: repl, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return err
	}
	return after(&c, l.N.inner.ForwardSet(ctx, id, it, repl))
}

// ForwardGet implements backend.DistTransport.
func (l Link) ForwardGet(ctx context.Context, id, key string) (*cache.Item, bool, error) {
	c := Call{From: l.From, Op: "get", To: id, Key: key, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return nil, false, err
	}
	it, ok, err := l.N.inner.ForwardGet(ctx, id, key)
	if err = after(&c, err); err != nil {
		return nil, false, err
	}
	return it, ok, nil
}

// ForwardRemove implements backend.DistTransport.
func (l Link) ForwardRemove(ctx context.Context, id, key string, repl bool) error {
	c := Call{From: l.From, Op: "remove", To: id, Key: key, Repl: repl, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return err
	}
	return after(&c, l.N.inner.ForwardRemove(ctx, id, key, repl))
}

// Health implements backend.DistTransport.
func (l Link) Health(ctx context.Context, id string) error {
	c := Call{From: l.From, Op: "health", To: id, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return err
	}
	return after(&c, l.N.inner.Health(ctx, id))
}

// IndirectHealth implements backend.DistTransport.
func (l Link) IndirectHealth(ctx context.Context, relay, target string) error {
	c := Call{From: l.From, Op: "indirect", To: relay, Key: target, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return err
	}
	return after(&c, Link{l.N, relay}.Health(ctx, target))
}

// Gossip implements backend.DistTransport.
func (l Link) Gossip(ctx context.Context, id string, ms []backend.GossipMember) error {
	c := Call{From: l.From, Op: "gossip", To: id, Members: ms}
	if err := l.N.judge(&c); err != nil {
		return err
	}
	return after(&c, l.N.inner.Gossip(ctx, id, ms))
}

// FetchMerkle implements backend.DistTransport.
func (l Link) FetchMerkle(ctx context.Context, id string) (*backend.MerkleTree, error) {
	c := Call{From: l.From, Op: "merkle", To: id, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return nil, err
	}
	return l.N.inner.FetchMerkle(ctx, id)
}

// ListKeys implements backend.DistTransport.
func (l Link) ListKeys(ctx context.Context, id, pattern string) ([]string, error) {
	c := Call{From: l.From, Op: "keys", To: id, Ctx: ctx}
	if err := l.N.judge(&c); err != nil {
		return nil, err
	}
	return l.N.inner.ListKeys(ctx, id, pattern)
}

// Cfg is a cluster to build.
type Cfg struct {
	N, R   int
	VNodes int  // default 16
	Raw    bool // nodes talk over a plain in-process transport, without Net
	Opts   []Opt
	Each   func(i int) []Opt
	Ctx    context.Context
	Make   func(i int, opts []Opt) error // builds node i with these options, instead of NewDistMemory
}

// Cluster is a set of nodes which all know each other.
type Cluster struct {
	*Net
	IDs   []string
	Nodes []*backend.DistMemory
	Raw   *backend.InProcessTransport
	Mem   []*cluster.Membership
	Self  []*cluster.Node // each node's own record
	cfg   Cfg
}

// ID is the name of node i.
func ID(i int) string { return fmt.Sprintf("n%d", i) }

// New builds the cluster.
func New(c Cfg) *Cluster {
	if c.VNodes == 0 {
		c.VNodes = 16
	}
	if c.Ctx == nil {
		c.Ctx = context.Background()
	}
	cl := &Cluster{Net: &Net{inner: backend.NewInProcessTransport()}}
	cl.Raw = cl.inner
	for i := range c.N {
		cl.IDs = append(cl.IDs, ID(i))
	}
	cl.cfg = c
	for i := range c.N {
		peers := make([]int, 0, c.N)
		for j := range c.N {
			if j != i {
				peers = append(peers, j)
			}
		}
		dm, ms, self := cl.node(i, peers)
		cl.Nodes = append(cl.Nodes, dm)
		cl.Mem = append(cl.Mem, ms)
		cl.Self = append(cl.Self, self)
	}
	return cl
}

// node makes a node which knows these peers.
func (cl *Cluster) node(i int, peers []int) (*backend.DistMemory, *cluster.Membership, *cluster.Node) {
	c := cl.cfg
	ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(c.R), cluster.WithVirtualNodes(c.VNodes)))
	for _, j := range peers {
		ms.Upsert(cluster.NewNode(ID(j), ID(j)+":1"))
	}
	var t backend.DistTransport = Link{cl.Net, ID(i)}
	if c.Raw {
		t = cl.inner
	}
	self := cluster.NewNode(ID(i), ID(i)+":1")
	opts := append([]Opt{backend.WithDistShardCount(1), backend.WithDistReplication(c.R),
		backend.WithDistMembership(ms, self), backend.WithDistTransport(t)}, c.Opts...)
	if c.Each != nil {
		opts = append(opts, c.Each(i)...)
	}
	make := c.Make
	if make == nil {
		make = func(_ int, o []Opt) error {
			_, err := backend.NewDistMemory(c.Ctx, o...)
			return err
		}
	}
	var dm *backend.DistMemory
	opts = append(opts, func(d *backend.DistMemory) { dm = d })
	if err := make(i, opts); err != nil || dm == nil {
		vsched.Fail("[new] %v", err)
		return nil, nil, nil
	}
	cl.inner.Register(dm)
	return dm, ms, self
}

// Restart replaces node i by an empty one which knows these peers.
func (cl *Cluster) Restart(i int, peers ...int) {
	if err := cl.Nodes[i].Stop(context.Background()); err != nil {
		vsched.Fail("[stop] %s: %v", ID(i), err)
	}
	cl.Nodes[i], cl.Mem[i], cl.Self[i] = cl.node(i, peers)
}

// Join lets node i know node j, and Leave forget it.
func (cl *Cluster) Join(i, j int) { cl.Mem[i].Upsert(cluster.NewNode(ID(j), ID(j)+":1")) }

// Leave lets node i forget node j.
func (cl *Cluster) Leave(i, j int) { cl.Mem[i].Remove(cluster.NodeID(ID(j))) }

var (
	found   = map[string]string{} // kept across executions
	foundMu sync.Mutex
)

// Key is a key whose owners are exactly these nodes in this order.
func (c *Cluster) Key(owners ...int) string { return c.Keys(1, owners...)[0] }

// Keys are n keys with these owners.
func (c *Cluster) Keys(n int, owners ...int) []string {
	want := make([]cluster.NodeID, len(owners))
	for i, o := range owners {
		want[i] = cluster.NodeID(ID(o))
	}
	r := c.Mem[0].Ring()
	id := fmt.Sprint(len(c.IDs), r.Replication(), r.VirtualNodesPerNode(), want)
	var out []string
	for i := 0; len(out) < n; i++ {
		k := fmt.Sprintf("%s#%d", id, len(out))
		foundMu.Lock()
		v, ok := found[k]
		foundMu.Unlock()
		if ok {
			out = append(out, v)
			continue
		}
		start := 0
		if len(out) > 0 {
			fmt.Sscanf(out[len(out)-1], "key%d", &start)
			start++
		}
		for j := start; ; j++ {
			if j > start+20000 {
				vsched.Fail("[keys] no key with owners %v", want)
				return nil
			}
			key := fmt.Sprintf("key%d", j)
			if slices.Equal(r.Lookup(key), want) {
				foundMu.Lock()
				found[k] = key
				foundMu.Unlock()
				out = append(out, key)
				break
			}
		}
	}
	return out
}

// Pref is a key which prefers the nodes in this order: its owners are the
// first of them which are members.
func (c *Cluster) Pref(order ...int) string {
	id := fmt.Sprint("pref", c.cfg.VNodes, order)
	foundMu.Lock()
	v, ok := found[id]
	foundMu.Unlock()
	if ok {
		return v
	}
	n := len(order)
	ring := cluster.NewRing(cluster.WithReplication(n), cluster.WithVirtualNodes(c.cfg.VNodes))
	ms := cluster.NewMembership(ring)
	want := make([]cluster.NodeID, n)
	for i := range n {
		ms.Upsert(cluster.NewNode(ID(i), ID(i)+":1"))
		want[i] = cluster.NodeID(ID(order[i]))
	}
	for j := range 200000 {
		key := fmt.Sprintf("key%d", j)
		if slices.Equal(ring.Lookup(key), want) {
			foundMu.Lock()
			found[id] = key
			foundMu.Unlock()
			return key
		}
	}
	vsched.Fail("[keys] no key prefers %v", order)
	return ""
}

// Local is node i's own copy of key.
func (c *Cluster) Local(i int, key string) (cache.Item, bool) {
	l, err := c.Nodes[i].List(context.Background())
	if err != nil {
		vsched.Fail("[list] %v", err)
	}
	for _, it := range l {
		if it.Key == key {
			return *it, true
		}
	}
	return cache.Item{}, false
}

// Show lists the copies of key on all nodes.
func (c *Cluster) Show(key string) string {
	var b strings.Builder
	for i := range c.Nodes {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(ID(i))
		if c.Down(i) {
			b.WriteString("(down)")
		}
		if it, ok := c.Local(i, key); ok {
			fmt.Fprintf(&b, "=%v@%d/%s", it.Value, it.Version, it.Origin)
		} else {
			b.WriteString("=-")
		}
	}
	return b.String()
}

// Stop stops all nodes.
func (c *Cluster) Stop() {
	for i, n := range c.Nodes {
		if err := n.Stop(context.Background()); err != nil {
			vsched.Fail("[stop] %s: %v", ID(i), err)
		}
	}
}
