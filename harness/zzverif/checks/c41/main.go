// C41: the redis backends are a map from keys to items on the server.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"reflect"
	"slices"
	"strings"

	"time"

	goredis "github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/redisd"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

// be is either backend.
type be interface {
	Get(ctx context.Context, key string) (*cache.Item, bool)
	Set(ctx context.Context, item *cache.Item) error
	Count(ctx context.Context) int
	Capacity() int
	SetCapacity(int)
	Remove(ctx context.Context, keys ...string) error
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
	Clear(ctx context.Context) error
}

type rig struct {
	name    string
	srv     *redisd.Cluster
	b       be
	set     string // name of the keys set
	cluster bool
	close   func()
}

type quiet struct{}

func (quiet) Printf(context.Context, string, ...any) {}

// conn is a backend connected to srv.
func conn(srv *redisd.Cluster, cluster bool, set, client string, retries int, ser serializer.ISerializer) (be, func(), error) {
	if cluster {
		c := goredis.NewClusterClient(&goredis.ClusterOptions{Addrs: srv.Addrs(), ClientName: client, MaxRetries: retries, MaxRedirects: 2, PoolSize: 2, DialerRetries: 1,
			MinRetryBackoff: time.Microsecond, MaxRetryBackoff: time.Microsecond, ReadTimeout: time.Minute, WriteTimeout: time.Minute, PoolTimeout: time.Minute})
		os := []backend.Option[backend.RedisCluster]{backend.WithRedisClusterClient(c), backend.WithCapacity[backend.RedisCluster](7)}
		if set != "" {
			os = append(os, backend.WithClusterKeysSetName(set))
		}
		if ser != nil {
			os = append(os, backend.WithClusterSerializer(ser))
		}
		b, err := backend.NewRedisCluster(os...)
		return b, func() { c.Close() }, err
	}
	c := goredis.NewClient(&goredis.Options{Addr: srv.Addrs()[0], ClientName: client, MaxRetries: retries, PoolSize: 2, DialerRetries: 1,
		MinRetryBackoff: time.Microsecond, MaxRetryBackoff: time.Microsecond, ReadTimeout: time.Minute, WriteTimeout: time.Minute, PoolTimeout: time.Minute})
	os := []backend.Option[backend.Redis]{backend.WithRedisClient(c), backend.WithCapacity[backend.Redis](7)}
	if set != "" {
		os = append(os, backend.WithKeysSetName(set))
	}
	if ser != nil {
		os = append(os, backend.WithSerializer(ser))
	}
	b, err := backend.NewRedis(os...)
	return b, func() { c.Close() }, err
}

// rigs are the servers of one scenario, made at the first case a shard runs.
type rigs struct{ m map[string]*rig }

func (r *rigs) get(p *kit.P, id string, nodes int, cluster bool, set string, retries int) *rig {
	key := fmt.Sprint(nodes, cluster, set, retries)
	if x := r.m[key]; x != nil {
		x.srv.Reset()
		return x
	}
	srv := redisd.New(nodes)
	b, cl, err := conn(srv, cluster, set, "t", retries, nil)
	if err != nil {
		p.Fail(id, "new", "%s: the backend cannot be made: %v", id, err)
		srv.Close()
		return nil
	}
	name := "redis"
	if cluster {
		name = fmt.Sprintf("cluster of %d", nodes)
	}
	if set == "" {
		set = constants.RedisBackend
	}
	x := &rig{name, srv, b, set, cluster, func() { cl(); srv.Close() }}
	if r.m == nil {
		r.m = map[string]*rig{}
	}
	r.m[key] = x
	return x
}

func (r *rigs) close() {
	for _, x := range r.m {
		x.close()
	}
}

// ent is an item of the model.
type ent struct {
	v   any
	ttl time.Duration
	end time.Duration // 0: never
}

type model struct {
	m   map[string]ent
	now time.Duration
}

func (m *model) put(k string, v any, ttl time.Duration) {
	e := ent{v, ttl, 0}
	if ttl > 0 {
		e.end = m.now + ttl
	}
	m.m[k] = e
}

func (m *model) advance(d time.Duration) {
	m.now += d
	for k, e := range m.m {
		if e.end > 0 && e.end <= m.now {
			delete(m.m, k)
		}
	}
}

func (m *model) String() string {
	var l []string
	for k, e := range m.m {
		l = append(l, fmt.Sprintf("%s=%v", k, e.v))
	}
	slices.Sort(l)
	return strings.Join(l, " ")
}

// compare reads everything.
func compare(r *rig, m *model, keys []string) string {
	for _, k := range keys {
		it, ok := r.b.Get(bg, k)
		e, want := m.m[k]
		switch {
		case ok != want:
			return fmt.Sprintf("get|Get(%q) finds %v, want %v", k, ok, want)
		case ok && (it == nil || it.Key != k || !reflect.DeepEqual(it.Value, e.v) || it.Expiration != e.ttl):
			return fmt.Sprintf("item|Get(%q) = %+v, want value %v and expiration %v", k, it, e.v, e.ttl)
		}
	}
	if n := r.b.Count(bg); n != len(m.m) {
		return fmt.Sprintf("count|Count is %d with %d items", n, len(m.m))
	}
	l, err := r.b.List(bg)
	if err != nil {
		return fmt.Sprintf("list|List: %v", err)
	}
	var got, want []string
	for _, it := range l {
		got = append(got, fmt.Sprintf("%s=%v", it.Key, it.Value))
	}
	for k, e := range m.m {
		want = append(want, fmt.Sprintf("%s=%v", k, e.v))
	}
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		return fmt.Sprintf("list|List has %v, want %v", got, want)
	}
	return ""
}

func fail(p *kit.P, id, name, msg string) {
	key, text, _ := strings.Cut(msg, "|")
	p.Fail(id, key, "%s: %s", name, text)
}

type op struct {
	name string
	do   func(r *rig, m *model) error // the error tells what is wrong
}

func item(k string, v any, ttl time.Duration) *cache.Item {
	return &cache.Item{Key: k, Value: v, Expiration: ttl, LastAccess: time.Now()}
}

func setOp(k, v string, ttl time.Duration) op {
	return op{fmt.Sprintf("set(%s,%s,%v)", k, v, ttl), func(r *rig, m *model) error {
		m.put(k, v, ttl)
		return r.b.Set(bg, item(k, v, ttl))
	}}
}

func removeOp(keys ...string) op {
	return op{fmt.Sprintf("remove%v", keys), func(r *rig, m *model) error {
		for _, k := range keys {
			delete(m.m, k)
		}
		return r.b.Remove(bg, keys...)
	}}
}

func alphabet() []op {
	ops := []op{
		setOp("a", "1", 0), setOp("a", "2", 400*time.Millisecond), setOp("a", "3", 1900*time.Millisecond),
		setOp("b", "4", 0), setOp("b", "5", 1900*time.Millisecond),
		removeOp("a"), removeOp("a", "b"), removeOp(), removeOp("none", "b"),
		{"remove the set", func(r *rig, m *model) error { return r.b.Remove(bg, r.set) }},
		{"set the set", func(r *rig, m *model) error {
			if err := r.b.Set(bg, item(r.set, "x", 0)); !errors.Is(err, sentinel.ErrInvalidKey) {
				return fmt.Errorf("setting the key of the keys set: %v", err)
			}
			return nil
		}},
		{"clear", func(r *rig, m *model) error {
			clear(m.m)
			return r.b.Clear(bg)
		}},
	}
	for _, d := range []time.Duration{500 * time.Millisecond, 1200 * time.Millisecond} {
		ops = append(ops, op{fmt.Sprint("wait ", d), func(r *rig, m *model) error {
			r.srv.Advance(d)
			m.advance(d)
			return nil
		}})
	}
	return ops
}

// seqs calls f with every sequence of length d over n.
func seqs(n, d int, f func([]int)) {
	s := make([]int, d)
	var rec func(int)
	rec = func(i int) {
		if i == d {
			f(s)
			return
		}
		for s[i] = range n {
			rec(i + 1)
		}
	}
	rec(0)
}

var sequences = kit.Scenario{Name: "sequences", Weight: 3, Plain: func(p *kit.P) {
	var rs rigs
	defer rs.close()
	ops := alphabet()
	depth := 3
	if p.Deep() {
		depth = 4
	}
	for _, set := range []string{"", "the keys"} {
		for _, nodes := range []int{1, 2} {
			for d := 1; d <= depth; d++ {
				if set != "" && d == depth {
					continue
				}
				seqs(len(ops), d, func(s []int) {
					var names []string
					for _, i := range s {
						names = append(names, ops[i].name)
					}
					id := fmt.Sprintf("%d/%s: %s", nodes, set, strings.Join(names, ", "))
					if !p.Begin("%s", id) {
						return
					}
					r := rs.get(p, id, nodes, nodes > 1, set, -1)
					if r == nil {
						return
					}
					m := &model{m: map[string]ent{}}
					for _, i := range s {
						if err := ops[i].do(r, m); err != nil {
							p.Fail(id, "op:"+ops[i].name, "%s after %v: %s: %v", r.name, names, ops[i].name, err)
							return
						}
					}
					if msg := compare(r, m, []string{"a", "b", "none", r.set}); msg != "" {
						fail(p, id, fmt.Sprintf("%s after %v", r.name, names), msg)
					}
					p.Outcome("%v", m)
				})
			}
		}
	}
}}

// tag is a serializer of its own.
type tag struct {
	serializer.DefaultJSONSerializer
}

func (t *tag) Marshal(v any) ([]byte, error) {
	b, err := t.DefaultJSONSerializer.Marshal(v)
	return append([]byte("tag"), b...), err
}

func (t *tag) Unmarshal(b []byte, v any) error {
	if !strings.HasPrefix(string(b), "tag") {
		return errors.New("not mine")
	}
	return t.DefaultJSONSerializer.Unmarshal(b[3:], v)
}

// items: what is read back is what was written.
var items = kit.Scenario{Name: "items", Plain: func(p *kit.P) {
	keys := []string{"a", " a", "a b", "{a}b", "a{", "ü", "\x00\x7f", "data", strings.Repeat("k", 5000), "1"}
	vals := []any{"", "v", "\"", "ü\n", float64(0), 1.5, float64(1 << 40), true, false, []any{"x", 1.0}, map[string]any{"x": []any{nil, "y"}}, strings.Repeat("v", 70000)}
	when := time.Date(2031, 2, 3, 4, 5, 6, 789, time.UTC)
	full := func(k string, v any) *cache.Item {
		return &cache.Item{Key: k, Value: v, Expiration: 90 * time.Second, LastAccess: when, LastUpdated: when.Add(time.Nanosecond), Size: 77, AccessCount: 3, Version: 1 << 60, Origin: "n1"}
	}
	for _, nodes := range []int{1, 3} {
		for _, own := range []bool{false, true} {
			for ki, k := range keys {
				for vi, v := range vals {
					id := fmt.Sprintf("item %d/%v/%d/%d", nodes, own, ki, vi)
					if !p.Begin("%s", id) {
						continue
					}
					func() {
						srv := redisd.New(nodes)
						defer srv.Close()
						var ser serializer.ISerializer
						if own {
							ser = &tag{}
						}
						b, cl, err := conn(srv, nodes > 1, "", "t", -1, ser)
						if err != nil {
							p.Fail(id, "new", "%v", err)
							return
						}
						defer cl()
						if c := b.Capacity(); c != 7 {
							p.Fail(id, "capacity", "capacity %d, want 7", c)
						}
						b.SetCapacity(9)
						b.SetCapacity(-1)
						if c := b.Capacity(); c != 9 {
							p.Fail(id, "capacity", "capacity %d, want 9", c)
						}
						for _, bad := range []*cache.Item{{Key: " ", Value: v}, {Key: "", Value: v}, {Key: k}, {Key: k, Value: v, Expiration: -1}} {
							if err := b.Set(bg, bad); err == nil {
								p.Fail(id, "invalid", "an invalid item %+v is stored", bad)
							}
						}
						if n := b.Count(bg); n != 0 {
							p.Fail(id, "invalid", "%d items after invalid ones", n)
						}
						in := full(k, v)
						if err := b.Set(bg, in); err != nil {
							p.Fail(id, "set", "Set(%q, %v): %v", k, v, err)
							return
						}
						if !reflect.DeepEqual(in, full(k, v)) {
							p.Fail(id, "changed", "Set changes the item")
						}
						same := func(it *cache.Item) bool {
							if it == nil {
								return false
							}
							c := *it
							ok := c.LastAccess.Equal(when) && c.LastUpdated.Equal(when.Add(time.Nanosecond))
							c.LastAccess, c.LastUpdated = when, when.Add(time.Nanosecond)
							return ok && reflect.DeepEqual(&c, full(k, v))
						}
						it, ok := b.Get(bg, k)
						if !ok || !same(it) {
							p.Fail(id, "roundtrip", "Get(%.20q) = %+v, want %+v", k, it, in)
							return
						}
						l, err := b.List(bg)
						if err != nil || len(l) != 1 || !same(l[0]) {
							p.Fail(id, "roundtrip", "List: %v %v, want %+v", l, err, in)
						}
						// what was read is the caller's
						it.Key, it.Value = "mine", "mine"
						_ = b.Set(bg, item("other", "o", 0))
						if o, ok := b.Get(bg, "other"); !ok || o.Value != "o" || o.Expiration != 0 || o.Version != 0 || o.Origin != "" {
							p.Fail(id, "mixed", "Get of another item: %+v", o)
						}
						if it.Key != "mine" || it.Value != "mine" {
							p.Fail(id, "shared", "an item that was read changes afterwards: %+v", it)
						}
						if a, ok := b.Get(bg, k); !ok || !same(a) {
							p.Fail(id, "shared", "an item changes with the one read: %+v", a)
						}
						ctx, cancel := context.WithCancel(bg)
						cancel()
						if err := b.Set(ctx, item("late", "o", 0)); err == nil {
							p.Fail(id, "ctx", "Set with an ended context: no error")
						}
						if err := b.Remove(ctx, k); err == nil {
							p.Fail(id, "ctx", "Remove with an ended context: no error")
						}
						if _, err := b.List(ctx); err == nil {
							p.Fail(id, "ctx", "List with an ended context: no error")
						}
						if err := b.Clear(ctx); err == nil {
							p.Fail(id, "ctx", "Clear with an ended context: no error")
						}
						if n := b.Count(bg); n != 2 {
							p.Fail(id, "ctx", "%d items, want 2", n)
						}
						if err := b.Remove(bg, k); err != nil {
							p.Fail(id, "remove", "%v", err)
						}
						if _, ok := b.Get(bg, k); ok {
							p.Fail(id, "remove", "%q is there after its removal", k)
						}
						p.Outcome("%T", v)
					}()
				}
			}
		}
	}
	for _, c := range []string{"no client", "no cluster client"} {
		if !p.Begin("%s", c) {
			continue
		}
		_, err := backend.NewRedis()
		if strings.Contains(c, "cluster") {
			_, err = backend.NewRedisCluster()
		}
		if !errors.Is(err, sentinel.ErrNilClient) {
			p.Fail(c, "nil", "%s: %v", c, err)
		}
	}
}}

// lists: the filters apply in order, and the first that fails ends the list.
var lists = kit.Scenario{Name: "lists", Plain: func(p *kit.P) {
	var rs rigs
	defer rs.close()
	now := time.Now()
	its := []cache.Item{
		{Key: "a", Value: "x", Size: 3, AccessCount: 9, LastAccess: now.Add(4), Expiration: 4 * time.Hour},
		{Key: "b", Value: "y", Size: 1, AccessCount: 7, LastAccess: now.Add(2), Expiration: 2 * time.Hour},
		{Key: "c", Value: "x", Size: 4, AccessCount: 8, LastAccess: now.Add(3), Expiration: 3 * time.Hour},
		{Key: "d", Value: "x", Size: 2, AccessCount: 6, LastAccess: now.Add(1), Expiration: 1 * time.Hour},
	}
	type filter struct {
		name string
		f    backend.IFilter
		do   func([]cache.Item) []cache.Item // nil: fails
	}
	by := func(less func(a, b cache.Item) int) func([]cache.Item) []cache.Item {
		return func(l []cache.Item) []cache.Item { slices.SortFunc(l, less); return l }
	}
	fs := []filter{
		{"key", backend.WithSortBy(constants.SortByKey.String()), by(func(a, b cache.Item) int { return strings.Compare(a.Key, b.Key) })},
		{"size", backend.WithSortBy(constants.SortBySize.String()), by(func(a, b cache.Item) int { return int(a.Size - b.Size) })},
		{"access", backend.WithSortBy(constants.SortByLastAccess.String()), by(func(a, b cache.Item) int { return a.LastAccess.Compare(b.LastAccess) })},
		{"count", backend.WithSortBy(constants.SortByAccessCount.String()), by(func(a, b cache.Item) int { return int(a.AccessCount) - int(b.AccessCount) })},
		{"expiration", backend.WithSortBy(constants.SortByExpiration.String()), by(func(a, b cache.Item) int { return int(a.Expiration - b.Expiration) })},
		{"asc", backend.WithSortOrderAsc(true), func(l []cache.Item) []cache.Item { return l }},
		{"desc", backend.WithSortOrderAsc(false), func(l []cache.Item) []cache.Item { slices.Reverse(l); return l }},
		{"x", backend.WithFilterFunc(func(it *cache.Item) bool { return it.Value == "x" }), func(l []cache.Item) []cache.Item {
			return slices.DeleteFunc(l, func(it cache.Item) bool { return it.Value != "x" })
		}},
		{"none", backend.WithFilterFunc(func(*cache.Item) bool { return false }), func([]cache.Item) []cache.Item { return []cache.Item{} }},
		{"bad", backend.WithSortBy("no such field"), nil},
	}
	for _, nodes := range []int{1, 2} {
		for d := 1; d <= 3; d++ {
			seqs(len(fs), d, func(s []int) {
				var names []string
				var l []backend.IFilter
				want, bad, sorted := slices.Clone(its), false, false
				for _, i := range s {
					names, l = append(names, fs[i].name), append(l, fs[i].f)
					if fs[i].do == nil {
						bad = true
					} else {
						want = fs[i].do(want)
					}
					sorted = sorted || i < 5
				}
				id := fmt.Sprintf("%d: %v", nodes, names)
				if !p.Begin("%s", id) {
					return
				}
				r := rs.get(p, id, nodes, nodes > 1, "", -1)
				if r == nil {
					return
				}
				for _, it := range its {
					if err := r.b.Set(bg, &it); err != nil {
						p.Fail(id, "set", "%v", err)
						return
					}
				}
				got, err := r.b.List(bg, l...)
				if bad {
					if err == nil {
						p.Fail(id, "error", "%s: List with filters %v: no error", r.name, names)
					}
					p.Outcome("error")
					return
				}
				var gk, wk []string
				for _, it := range got {
					gk = append(gk, it.Key)
				}
				for _, it := range want {
					wk = append(wk, it.Key)
				}
				if !sorted { // the order is the server's
					slices.Sort(gk)
					slices.Sort(wk)
				}
				if err != nil || !slices.Equal(gk, wk) {
					p.Fail(id, "list", "%s: List with filters %v: %v %v, want %v", r.name, names, gk, err, wk)
				}
				p.Outcome("%v", wk)
			})
		}
	}
}}

// faults: one command of the operation fails, by the answer or by the
// connection, before it is done or after.
var faults = kit.Scenario{Name: "faults", Plain: func(p *kit.P) {
	var rs rigs
	defer rs.close()
	const far = 1900 * time.Millisecond
	type tried struct {
		name string
		do   func(r *rig) error
		then map[string]ent
	}
	old := map[string]ent{"a": {"1", 0, 0}, "b": {"2", far, far}}
	with := func(f func(m map[string]ent)) map[string]ent {
		m := map[string]ent{"a": old["a"], "b": old["b"]}
		f(m)
		return m
	}
	set := func(k, v string, ttl time.Duration) tried {
		return tried{"set " + k + " " + ttl.String(), func(r *rig) error { return r.b.Set(bg, item(k, v, ttl)) }, with(func(m map[string]ent) { m[k] = ent{v, ttl, ttl} })}
	}
	all := []tried{
		set("a", "3", 0), set("a", "3", far), set("b", "3", 0), set("b", "3", far), set("c", "3", 0), set("c", "3", far),
		{"remove a", func(r *rig) error { return r.b.Remove(bg, "a") }, with(func(m map[string]ent) { delete(m, "a") })},
		{"remove a b", func(r *rig) error { return r.b.Remove(bg, "a", "b") }, map[string]ent{}},
		{"remove c a", func(r *rig) error { return r.b.Remove(bg, "c", "a") }, with(func(m map[string]ent) { delete(m, "a") })},
		{"clear", func(r *rig) error { return r.b.Clear(bg) }, map[string]ent{}},
		{"list", func(r *rig) error {
			l, err := r.b.List(bg)
			var s []string
			for _, it := range l {
				s = append(s, fmt.Sprint(it.Key, it.Value))
			}
			slices.Sort(s)
			if err == nil && fmt.Sprint(s) != "[a1 b2]" {
				panic(fmt.Sprintf("list|List without error: %v", s))
			}
			return err
		}, old},
		{"get a", func(r *rig) error {
			it, ok := r.b.Get(bg, "a")
			if ok && (it.Value != "1" || it.Key != "a") {
				panic(fmt.Sprintf("get|Get(a) = %+v", it))
			}
			if !ok {
				return errors.New("miss")
			}
			return nil
		}, old},
		{"get c", func(r *rig) error {
			if it, ok := r.b.Get(bg, "c"); ok {
				panic(fmt.Sprintf("get|Get(c) = %+v", it))
			}
			return nil
		}, old},
	}
	most := 1
	if p.Deep() {
		most = 2
	}
	for _, nodes := range []int{1, 2} {
		for _, retries := range []int{-1, 2} {
			for _, t := range all {
				// the plan: faults at two of the first commands
				for first := range 12 {
					for kind := redisd.Refuse; kind <= redisd.Cut; kind++ {
						for gap := 0; gap <= 6; gap++ {
							for kind2 := redisd.Refuse; kind2 <= redisd.Cut; kind2++ {
								if (gap == 0) != (kind2 == redisd.Refuse) && gap == 0 || gap > 0 && most == 1 {
									continue
								}
								id := fmt.Sprintf("%d/%d: %s, command %d %s", nodes, retries, t.name, first, [...]string{"", "refused", "dropped", "cut"}[kind])
								if gap > 0 {
									id += fmt.Sprintf(", then %d %s", first+gap, [...]string{"", "refused", "dropped", "cut"}[kind2])
								}
								if !p.Begin("%s", id) {
									continue
								}
								r := rs.get(p, id, nodes, nodes > 1, "", retries)
								if r == nil {
									return
								}
								func() {
									defer func() {
										if e := recover(); e != nil {
											fail(p, id, r.name+", "+id, fmt.Sprint(e))
										}
									}()
									m := &model{m: map[string]ent{}}
									for _, k := range []string{"a", "b"} {
										if err := r.b.Set(bg, item(k, old[k].v, old[k].ttl)); err != nil {
											panic(fmt.Sprintf("set|%v", err))
										}
									}
									n, hit := 0, 0
									r.srv.Set(func([]string) redisd.Fault {
										n++
										switch {
										case n == first+1:
											hit++
											return kind
										case gap > 0 && n == first+1+gap:
											hit++
											return kind2
										}
										return redisd.None
									}, nil)
									err := t.do(r)
									r.srv.Set(nil, nil)
									p.Outcome("%s %d: %v", t.name, hit, err != nil)
									if hit == 0 && err != nil {
										panic(fmt.Sprintf("error|no fault, but %v", err))
									}
									state := func() string {
										var s []string
										for _, k := range []string{"a", "b", "c"} {
											if it, ok := r.b.Get(bg, k); ok {
												s = append(s, fmt.Sprintf("%s=%v/%v", k, it.Value, it.Expiration))
											}
										}
										return strings.Join(s, " ")
									}
									show := func(m map[string]ent) string {
										var s []string
										for _, k := range []string{"a", "b", "c"} {
											if e, ok := m[k]; ok {
												s = append(s, fmt.Sprintf("%s=%v/%v", k, e.v, e.ttl))
											}
										}
										return strings.Join(s, " ")
									}
									s := state()
									if err == nil && s != show(t.then) {
										panic(fmt.Sprintf("silent|no error, but the store has %q, want %q", s, show(t.then)))
									}
									if nodes == 1 && s != show(old) && s != show(t.then) {
										panic(fmt.Sprintf("torn|after %v the store has %q, neither %q nor %q", err, s, show(old), show(t.then)))
									}
									if strings.HasPrefix(t.name, "get") || t.name == "list" {
										return
									}
									// the same again completes it
									if err := t.do(r); err != nil {
										panic(fmt.Sprintf("again|a second time: %v", err))
									}
									for k, e := range t.then {
										m.put(k, e.v, e.ttl)
									}
									if msg := compare(r, m, []string{"a", "b", "c"}); msg != "" {
										panic(msg)
									}
									r.srv.Advance(far)
									m.advance(far)
									if msg := compare(r, m, []string{"a", "b", "c"}); msg != "" {
										panic(msg)
									}
								}()
							}
						}
					}
				}
			}
		}
	}
}}

func main() {
	goredis.SetLogger(quiet{})
	log.SetOutput(io.Discard)
	kit.Main(sequences, items, lists, large, faults, together, whole)
}

// large: many items, many keys in one call, long keys and large values.
var large = kit.Scenario{Name: "large", Weight: 2, Plain: func(p *kit.P) {
	var rs rigs
	defer rs.close()
	most, long := 1100, 1<<18
	if p.Deep() {
		most, long = 5200, 8<<20
	}
	check := func(id string, r *rig, m *model, keys []string) bool {
		if msg := compare(r, m, keys); msg != "" {
			if len(msg) > 300 {
				msg = msg[:300] + "..."
			}
			fail(p, id, id, msg)
			return false
		}
		return true
	}
	for _, nodes := range []int{1, 3} {
		for _, n := range kit.Sizes(most) {
			id := fmt.Sprintf("%d items on %d", n, nodes)
			if !p.Begin("%s", id) {
				continue
			}
			r := rs.get(p, id, nodes, nodes > 1, "", -1)
			if r == nil {
				return
			}
			m := &model{m: map[string]ent{}}
			var keys, gone []string
			for i := range n {
				k := fmt.Sprintf("key-%d", i)
				keys = append(keys, k)
				ttl := time.Duration(0)
				switch {
				case i%4 == 1:
					ttl = time.Duration(i%3+1) * 700 * time.Millisecond
				case i%3 == 1:
					gone = append(gone, k)
				}
				m.put(k, float64(i), ttl)
				if err := r.b.Set(bg, item(k, float64(i), ttl)); err != nil {
					p.Fail(id, "set", "%s: item %d: %v", id, i, err)
					return
				}
			}
			if !check(id, r, m, keys) {
				continue
			}
			l, err := r.b.List(bg, backend.WithSortBy(constants.SortByKey.String()), backend.WithSortOrderAsc(false))
			if err != nil || len(l) != n || !slices.IsSortedFunc(l, func(a, b *cache.Item) int { return strings.Compare(b.Key, a.Key) }) {
				p.Fail(id, "sorted", "%s: a list in descending order has %d items, %v", id, len(l), err)
			}
			if err := r.b.Remove(bg, gone...); err != nil {
				p.Fail(id, "remove", "%s: removing %d keys: %v", id, len(gone), err)
			}
			for _, k := range gone {
				delete(m.m, k)
			}
			if !check(id, r, m, keys) {
				continue
			}
			for range 4 {
				r.srv.Advance(700 * time.Millisecond)
				m.advance(700 * time.Millisecond)
				if !check(id, r, m, keys) {
					break
				}
			}
			if err := r.b.Remove(bg, keys...); err != nil {
				p.Fail(id, "remove", "%s: removing all: %v", id, err)
			}
			clear(m.m)
			check(id, r, m, keys)
			p.Outcome("%d", len(gone))
		}
		for _, n := range kit.Sizes(long) {
			for what := range 2 {
				id := fmt.Sprintf("%s of %d on %d", [...]string{"a key", "a value"}[what], n, nodes)
				if n == 0 || !p.Begin("%s", id) {
					continue
				}
				r := rs.get(p, id, nodes, nodes > 1, "", -1)
				if r == nil {
					return
				}
				m := &model{m: map[string]ent{}}
				k, v := strings.Repeat("x", n), any("v")
				if what == 1 {
					k, v = "k", strings.Repeat("x", n)
				}
				keys := []string{k, k + "x", k[1:], "k2"}
				for i, kk := range []string{k, "k2"} {
					ttl := time.Duration(i) * time.Second
					m.put(kk, v, ttl)
					if err := r.b.Set(bg, item(kk, v, ttl)); err != nil {
						p.Fail(id, "set", "%s: %v", id, err)
					}
				}
				if !check(id, r, m, keys) {
					continue
				}
				r.srv.Advance(time.Second)
				m.advance(time.Second)
				if !check(id, r, m, keys) {
					continue
				}
				if err := r.b.Remove(bg, k); err != nil {
					p.Fail(id, "remove", "%s: %v", id, err)
				}
				clear(m.m)
				check(id, r, m, keys)
				p.Outcome("%s", [...]string{"key", "value"}[what])
			}
		}
	}
}}
