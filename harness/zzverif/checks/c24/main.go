// C24: concurrent operations on a cache are linearizable per key.
package main

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

const (
	ttl     = time.Minute
	expired = "expired"
)

// state is what each key holds: a value or expired; absent keys are missing.
type state map[string]string

func (s state) read(k string) string {
	if v, ok := s[k]; ok && v != expired {
		return v
	}
	return "none"
}

type env struct {
	h    *hc.Cache
	hist *ref.Hist[state]
}

type op struct {
	name string
	do   func(e *env, t int, v string)
}

// whole checks that an item handed out is one that was written, in one piece.
func whole(it *cache.Item, k string) string {
	if it == nil {
		return "nil item"
	}
	v := fmt.Sprint(it.Value)
	if it.Key != k || it.Size != int64(len(v)) || it.Expiration != ttl || it.LastAccess.UnixNano() > hc.Now() {
		vsched.Fail("[torn] the item of %s is key %q value %q size %d expiration %v", k, it.Key, v, it.Size, it.Expiration)
	}
	return v
}

func set(k string) op {
	return op{"set " + k, func(e *env, t int, v string) {
		e.hist.Do(t, "set "+k+" "+v, func() string { return hc.Show(e.h.Set(bg, k, v, ttl)) },
			func(s state) string { s[k] = v; return "ok" })
	}}
}

// refused writes change nothing.
var refused = op{"refused", func(e *env, t int, v string) {
	e.hist.Do(t, "refused", func() string {
		return hc.Show(e.h.Set(bg, "a", nil, ttl)) + hc.Show(e.h.Set(bg, "a", v, -1))
	}, func(state) string { return sentinel.ErrNilValue.Error() + sentinel.ErrInvalidExpiration.Error() })
}}

func get(k string) op {
	return op{"get " + k, func(e *env, t int, _ string) {
		e.hist.Do(t, "get "+k, func() string {
			v, ok := e.h.Get(bg, k)
			if !ok {
				return "none"
			}
			return fmt.Sprint(v)
		}, func(s state) string { return s.read(k) })
	}}
}

func info(k string) op {
	return op{"info " + k, func(e *env, t int, _ string) {
		e.hist.Do(t, "info "+k, func() string {
			it, ok := e.h.GetWithInfo(bg, k)
			if !ok {
				return "none"
			}
			return whole(it, k)
		}, func(s state) string { return s.read(k) })
	}}
}

func multi(k string) op {
	return op{"multi " + k, func(e *env, t int, _ string) {
		e.hist.Do(t, "multi "+k, func() string {
			got, failed := e.h.GetMultiple(bg, k)
			if len(got)+len(failed) != 1 {
				vsched.Fail("[multi] GetMultiple(%s) = %v %v", k, got, failed)
			}
			if v, ok := got[k]; ok {
				return fmt.Sprint(v)
			}
			if !errors.Is(failed[k], sentinel.ErrKeyNotFound) {
				return hc.Show(failed[k])
			}
			return "none"
		}, func(s state) string { return s.read(k) })
	}}
}

// list sees every key as one read of it would.
func list(k string) op {
	return op{"list " + k, func(e *env, t int, _ string) {
		e.hist.Do(t, "list "+k, func() string {
			for _, it := range hc.Items(e.h) {
				if it.Key == k && !it.Expired() {
					return whole(it, k)
				}
			}
			return "none"
		}, func(s state) string { return s.read(k) })
	}}
}

func remove(k string) op {
	return op{"remove " + k, func(e *env, t int, _ string) {
		e.hist.Do(t, "remove "+k, func() string { return hc.Show(e.h.Remove(bg, k)) },
			func(s state) string { delete(s, k); return "ok" })
	}}
}

// getOrSet is a read, and a write if the read found nothing; the two together
// are not promised to be one step.
func getOrSet(k string) op {
	return op{"getorset " + k, func(e *env, t int, v string) {
		start := vsched.Stamp()
		x, err := e.h.GetOrSet(bg, k, v, ttl)
		end := vsched.Stamp()
		got := fmt.Sprint(x)
		if err != nil {
			got = hc.Show(err)
		}
		e.hist.T[t] = append(e.hist.T[t], ref.Call[state]{Name: "getorset " + k + " " + v, Got: got, Start: start, End: end,
			Model: func(s state) string {
				switch s[k] {
				case "":
					return v
				case expired:
					if got == v { // it may have been removed meanwhile
						return v
					}
					return sentinel.ErrKeyExpired.Error()
				}
				return s[k]
			}})
		if got == v {
			e.hist.T[t] = append(e.hist.T[t], ref.Call[state]{Name: "(write)", Got: "ok", Start: start, End: end,
				Model: func(s state) string { s[k] = v; return "ok" }})
		}
	}}
}

var trigger = op{"trigger", func(e *env, t int, _ string) {
	e.hist.Do(t, "trigger", func() string { e.h.TriggerExpiration(); return "" }, func(state) string { return "" })
}}

func concurrent(c hc.Cfg, threads, n int, ops []op) func() {
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, c), hist: ref.NewHist[state](threads)}
		init := state{}
		if k := vsched.Choose(3); k > 0 {
			e.h.Set(bg, "a", "old", ttl)
			init["a"] = "old"
			if k == 2 {
				vsched.Sleep(ttl + 1)
				init["a"] = expired
			}
		}
		plan := make([][]op, threads)
		last := 0
		for i := range threads {
			for j := range n {
				lo := 0
				if j == 0 {
					lo = last
				}
				k := lo + vsched.Choose(len(ops)-lo)
				if j == 0 {
					last = k
				}
				plan[i] = append(plan[i], ops[k])
			}
		}
		vsched.Quiesce()
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for j, o := range plan[i] {
					o.do(e, i, strings.Repeat(fmt.Sprint("v", i+1), j+1))
				}
			})
		}
		g.Wait()
		vsched.Calm(true)
		vsched.Quiesce()
		final := state{}
		for _, it := range hc.Items(e.h) {
			if !it.Expired() {
				final[it.Key] = whole(it, it.Key)
			}
		}
		if !e.hist.Explained(init, maps.Clone, func(s state) bool {
			s = maps.Clone(s)
			maps.DeleteFunc(s, func(_, v string) bool { return v == expired })
			return maps.Equal(s, final)
		}) {
			vsched.Fail("[linearizable] no order of%s explains these results from %v to %v", e.hist, init, final)
		}
		vsched.Outcome("%s %v", e.hist, final)
	}
}

func main() {
	o := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 100000} }
	d := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 100000} }
	all := []op{set("a"), set("b"), get("a"), info("a"), multi("a"), list("a"), remove("a"), getOrSet("a"), refused, trigger, get("b")}
	few := []op{set("a"), get("a"), info("a"), remove("a"), getOrSet("a"), trigger}
	quick := []op{set("a"), set("b"), get("a"), info("a"), multi("a"), remove("a"), getOrSet("a"), refused, get("b")}
	scans := []op{set("a"), get("a"), list("a"), trigger, remove("a")}
	plain := hc.Cfg{Interval: time.Hour}
	limited := hc.Cfg{Interval: time.Hour, MaxSize: 1000, Shards: 4}
	kit.Main(
		kit.Scenario{Name: "2x1", Body: concurrent(plain, 2, 1, quick), Quick: d(2), Deep: o(2), Race: true, RaceP: 1, Weight: 3},
		kit.Scenario{Name: "limited-2x1", Body: concurrent(limited, 2, 1, all), Quick: d(1), Deep: d(3)},
		kit.Scenario{Name: "2x2", Body: concurrent(plain, 2, 2, few), Quick: d(1), Deep: d(3), Weight: 3},
		kit.Scenario{Name: "3x1", Body: concurrent(plain, 3, 1, few), Quick: d(1), Deep: d(3), Weight: 2},
		kit.Scenario{Name: "scans", Body: concurrent(plain, 2, 1, scans), Quick: d(2), Deep: d(4), Weight: 2},
		kit.Scenario{Name: "3x2", Body: concurrent(plain, 3, 2, few), Deep: d(2), DeepOnly: true, Weight: 4},
	)
}
