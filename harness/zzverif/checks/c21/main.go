// C21: the in-memory cache returns what was stored until it expires or is removed.
package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const ttl = 10 * time.Second

type env struct {
	h *hc.Cache
	m hc.Model
	n int // values are numbered
}

func (e *env) val() string { e.n++; return strings.Repeat("v", e.n%3) + fmt.Sprint(e.n) }

type op struct {
	name string
	do   func(e *env) string
}

func set(k string, v func(*env) any, d time.Duration, label string) op {
	return op{fmt.Sprintf("set %s %s", k, label), func(e *env) string {
		val := v(e)
		want := hc.SetErr(k, val, d)
		if _, bad := val.(badValue); bad {
			want = sentinel.ErrInvalidSize
		}
		err := e.h.Set(bg, k, val, d)
		if !hc.Match(err, want) {
			vsched.Fail("[set] Set(%q, %v, %v): %v, want %v", k, val, d, err, want)
		}
		if want == nil {
			e.m.Put(k, val, d)
		}
		return hc.Show(err)
	}}
}

// badValue cannot be sized.
type badValue struct{}

func (badValue) MarshalBinary() ([]byte, error) { return nil, fmt.Errorf("no") }

func get(k string) op {
	return op{"get " + k, func(e *env) string {
		v, ok := e.h.Get(bg, k)
		w, wok := e.m.Live(k)
		if ok != wok || ok && !eq(v, w.V) || !ok && v != nil {
			vsched.Fail("[get] Get(%s) = %v, %v, want %v, %v", k, v, ok, w.V, wok)
		}
		if wok {
			e.m.Touch(k)
		}
		return fmt.Sprint(ok)
	}}
}

func info(k string) op {
	return op{"info " + k, func(e *env) string {
		it, ok := e.h.GetWithInfo(bg, k)
		_, wok := e.m.Live(k)
		if ok != wok || !ok && it != nil {
			vsched.Fail("[info] GetWithInfo(%s) = %v, %v, want %v", k, it, ok, wok)
		}
		if ok {
			w := e.m.Touch(k)
			if it.Key != k || !eq(it.Value, w.V) || it.Expiration != w.TTL || it.AccessCount != w.Acc || it.LastAccess.UnixNano() != w.Last || it.Size != w.Size {
				vsched.Fail("[info] GetWithInfo(%s) = %+v, want %+v", k, it, w)
			}
			*it = cache.Item{Key: "changed", Value: "changed", Size: 99, Expiration: 1} // the caller's copy
		}
		return fmt.Sprint(ok)
	}}
}

func getOrSet(k string, d time.Duration) op {
	return op{fmt.Sprintf("getorset %s %v", k, d), func(e *env) string {
		mine := e.val()
		v, err := e.h.GetOrSet(bg, k, mine, d)
		_, stored := e.m[k]
		w, live := e.m.Live(k)
		switch {
		case live:
			if err != nil || !eq(v, w.V) {
				vsched.Fail("[getorset] GetOrSet(%s) on a stored key: %v, %v, want %v", k, v, err, w.V)
			}
			e.m.Touch(k)
		case stored && err != nil:
			if !hc.Match(err, sentinel.ErrKeyExpired) || v != nil {
				vsched.Fail("[getorset] GetOrSet(%s) on an expired key: %v, %v", k, v, err)
			}
		default:
			if want := hc.SetErr(k, mine, d); want != nil {
				if !hc.Match(err, want) || v != nil {
					vsched.Fail("[getorset] GetOrSet(%s, %v): %v, %v, want %v", k, d, v, err, want)
				}
				break
			}
			if err != nil || !eq(v, mine) {
				vsched.Fail("[getorset] GetOrSet(%s) on an absent key: %v, %v, want %v", k, v, err, mine)
			}
			e.m.Put(k, mine, d)
		}
		return fmt.Sprint(live, hc.Show(err))
	}}
}

func multi(keys ...string) op {
	return op{"multi " + strings.Join(keys, ","), func(e *env) string {
		hit, failed := e.h.GetMultiple(bg, keys...)
		out := ""
		for i, k := range keys {
			w, ok := e.m.Live(k)
			v, gok := hit[k]
			err, bad := failed[k]
			if gok != ok || bad == ok || ok && !eq(v, w.V) || bad && !hc.Match(err, sentinel.ErrKeyNotFound) {
				vsched.Fail("[multi] GetMultiple(%v): %s gives %v %v / %v, want %v %v", keys, k, v, gok, err, w.V, ok)
			}
			if ok {
				e.m.Touch(k)
			}
			_ = i
			out += fmt.Sprint(ok)
		}
		uniq := slices.Compact(slices.Sorted(slices.Values(keys)))
		if len(hit)+len(failed) != len(uniq) {
			vsched.Fail("[multi] GetMultiple(%v) answers %v and %v", keys, hit, failed)
		}
		return out
	}}
}

func remove(keys ...string) op {
	return op{"remove " + strings.Join(keys, ","), func(e *env) string {
		if err := e.h.Remove(bg, keys...); err != nil {
			vsched.Fail("[remove] Remove(%v): %v", keys, err)
		}
		for _, k := range keys {
			delete(e.m, k)
		}
		return ""
	}}
}

var clearOp = op{"clear", func(e *env) string {
	if err := e.h.Clear(bg); err != nil {
		vsched.Fail("[clear] %v", err)
	}
	clear(e.m)
	return ""
}}

// mutate changes what List returned, which must be the caller's.
var mutate = op{"mutate", func(e *env) string {
	for _, it := range hc.Items(e.h) {
		*it = cache.Item{Key: "changed", Size: 5}
	}
	return ""
}}

func advance(d time.Duration) op {
	return op{"wait " + d.String(), func(e *env) string { vsched.Sleep(d); return "" }}
}

var trigger = op{"trigger", func(e *env) string { e.h.TriggerExpiration(); return "" }}

func eq(a, b any) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func str(e *env) any { return e.val() }

var all = []op{
	set("a", str, 0, "forever"), set("a", str, ttl, "ttl"), set("b", str, ttl, "ttl"),
	get("a"), get("b"), info("a"), getOrSet("a", ttl), getOrSet("b", 0),
	multi("a", "b", "c", "a"), remove("a"), remove("b", "a", "b", "c"), clearOp, mutate,
	advance(6 * time.Second), advance(ttl), advance(1), trigger,
	set("", str, 0, "empty"), set("a", func(*env) any { return nil }, 0, "nil"), set("a", str, -1, "negative"),
	set("a", func(*env) any { return badValue{} }, 0, "bad"), getOrSet(" \t", 0), getOrSet("b", -1),
	set("a", func(*env) any { return []byte("xyz") }, 1, "1ns"),
}

// core are the operations of the deeper sequences.
var core = []op{
	set("a", str, 0, "forever"), set("a", str, ttl, "ttl"), get("a"), getOrSet("a", ttl), remove("a"),
	advance(6 * time.Second), advance(ttl), advance(1), trigger, set("b", str, ttl, "ttl"), multi("b", "a"),
}

// run explores all sequences of n operations.
func run(ops []op, n int, c hc.Cfg) func() {
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, c), m: hc.Model{}}
		vsched.Quiesce()
		for i := range n {
			o := ops[vsched.Choose(len(ops))]
			vsched.Tracef("%d: %s", i, o.name)
			out := o.do(e)
			if i == n-1 {
				vsched.Outcome("%s=%s", o.name, out)
			}
			e.check(o.name)
		}
		vsched.Quiesce()
		e.check("the end")
	}
}

// large: many entries, long keys, big values.
func large(limit int, c hc.Cfg) func() { return largeOf(kit.Sizes(limit), 3, c) }

func largeOf(ns []int, kinds int, c hc.Cfg) func() {
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, c), m: hc.Model{}}
		n := ns[vsched.Choose(len(ns))]
		key := func(i int) string { return fmt.Sprintf("key-%d", i) }
		what := "many"
		switch vsched.Choose(kinds) {
		case 1:
			what = "long keys"
			x := strings.Repeat("k", n*16)
			key = func(i int) string { return x + fmt.Sprint(i) }
			n = 4
		case 2:
			what = "big values"
			size := n * 64
			e.n = 1000
			var ks []string
			for i := range 3 {
				v := strings.Repeat(string(rune('a'+i)), size)
				set(key(i), func(*env) any { return v }, 0, "big").do(e)
				ks = append(ks, key(i))
			}
			for _, k := range ks {
				get(k).do(e)
				info(k).do(e)
				getOrSet(k, ttl).do(e)
			}
			multi(ks...).do(e)
			e.check(what)
			n = 0
		}
		vsched.Tracef("%s, size %d", what, n)
		var ks []string
		ttls := []time.Duration{0, ttl, 2 * ttl}
		for i := range n {
			ks = append(ks, key(i))
			set(key(i), str, ttls[i%3], "").do(e)
		}
		e.check("sets")
		if n == 0 {
			vsched.Outcome("%s", what)
			return
		}
		multi(ks...).do(e)
		for i := 0; i < n; i += 2 {
			getOrSet(key(i), ttl).do(e)
		}
		getOrSet("new", 0).do(e)
		e.check("reads")
		var some []string
		for i := 0; i < n; i += 5 {
			some = append(some, key(i))
		}
		remove(some...).do(e)
		e.check("Remove")
		for _, k := range ks {
			get(k).do(e)
		}
		vsched.Sleep(ttl + 1)
		for i := 0; i < n; i += 4 {
			info(key(i)).do(e)
		}
		multi(ks...).do(e)
		e.h.TriggerExpiration()
		vsched.Quiesce()
		e.check("expiration")
		for i := 0; i < n; i += 3 {
			set(key(i), str, ttl, "").do(e)
		}
		e.check("sets again")
		clearOp.do(e)
		e.check("Clear")
		multi(ks...).do(e)
		set(key(0), str, 0, "").do(e)
		e.check("the end")
		vsched.Outcome("%s %d", what, n)
	}
}

// check compares the contents; []byte values are compared by their text.
func (e *env) check(when string) { e.m.Check(e.h, "after "+when) }

func main() {
	det := vsched.Opts{MaxSteps: 200000}
	long := hc.Cfg{Interval: time.Hour}
	kit.Main(
		kit.Scenario{Name: "sequences-all", Body: run(all, 3, long), Quick: det},
		kit.Scenario{Name: "sequences-core", Body: run(core, 5, long), Quick: det, Weight: 2},
		// with scans every second and with proactive eviction, never needed
		kit.Scenario{Name: "sequences-scans", Body: run(core, 4, hc.Cfg{Interval: time.Second, Expiration: time.Second, Capacity: 5, Shards: 4, Algorithm: "lfu"}), Quick: det},
		kit.Scenario{Name: "sequences-proactive", Body: run(core, 4, hc.Cfg{Capacity: 2, MaxSize: 1 << 20, Algorithm: "clock", Debounce: time.Second}), Quick: det},
		kit.Scenario{Name: "large", Body: large(520, long), Quick: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "large-scans", Body: large(130, hc.Cfg{Interval: time.Hour, Expiration: time.Second, Shards: 16, Algorithm: "clock"}), Quick: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "vast", Body: largeOf([]int{12001}, 1, long), Quick: vsched.Opts{MaxSteps: 1 << 30}, Deep: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "larger", Body: large(5200, long), Deep: vsched.Opts{MaxSteps: 1 << 30}, DeepOnly: true},
		kit.Scenario{Name: "sequences-all-4", Body: run(all, 4, long), Deep: det, DeepOnly: true, Weight: 2},
		kit.Scenario{Name: "sequences-core-6", Body: run(core, 6, long), Deep: det, DeepOnly: true, Weight: 5},
	)
}
