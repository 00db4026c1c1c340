// C27: typed views of a cache.
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var bg = context.Background()

const ttl = time.Minute

type label string

func (l label) String() string { return "<" + string(l) + ">" }

type pair struct{ A, B int }

// ent is a stored value; it is expired once its time is over.
type ent struct {
	v       any
	ttl     time.Duration
	expired bool
}

type env struct {
	h *hc.Cache
	m map[string]ent
	n int
}

// view is one typed view, whatever its type.
type view struct {
	name     string
	set      func(e *env, k string, i int, d time.Duration)
	getOrSet func(e *env, k string, i int)
	read     func(e *env)
	remove   func(e *env, k string) error
	clear    func(e *env) error
}

func of[V any](name string, val func(i int) V) view {
	t := func(e *env) *hypercache.Typed[backend.InMemory, V] {
		return hypercache.NewTyped[backend.InMemory, V](e.h)
	}
	// expect is what the view makes of key k.
	expect := func(e *env, k string) (V, error) {
		var zero V
		x, ok := e.m[k]
		if !ok || x.expired {
			return zero, sentinel.ErrKeyNotFound
		}
		v, ok := x.v.(V)
		if !ok {
			return zero, sentinel.ErrTypeMismatch
		}
		return v, nil
	}
	same := func(a, b V) bool { return any(a) == any(b) }
	return view{
		name: name,
		set: func(e *env, k string, i int, d time.Duration) {
			v := val(i)
			err := t(e).Set(bg, k, v, d)
			if want := hc.SetErr(k, v, d); !hc.Match(err, want) {
				vsched.Fail("[set] Typed[%s].Set(%q, %v, %v): %v, want %v", name, k, v, d, err, want)
			}
			if err == nil {
				e.m[k] = ent{v, d, false}
			}
		},
		getOrSet: func(e *env, k string, i int) {
			v := val(i)
			x, had := e.m[k]
			got, err := t(e).GetOrSet(bg, k, v, ttl)
			var zero V
			switch {
			case !had:
				if want := hc.SetErr(k, v, ttl); want != nil {
					if !hc.Match(err, want) || !same(got, zero) {
						vsched.Fail("[getorset] Typed[%s].GetOrSet(%q, %v) of nothing: %v, %v, want %v", name, k, v, got, err, want)
					}
					return
				}
				if err != nil || !same(got, v) {
					vsched.Fail("[getorset] Typed[%s].GetOrSet(%q, %v) of nothing: %v, %v", name, k, v, got, err)
				}
				e.m[k] = ent{v, ttl, false}
			case x.expired:
				if !errors.Is(err, sentinel.ErrKeyExpired) || !same(got, zero) {
					vsched.Fail("[getorset] Typed[%s].GetOrSet of an expired key: %v, %v", name, got, err)
				}
				vsched.Quiesce()
				e.sweep()
			default:
				w, werr := expect(e, k)
				if !hc.Match(err, werr) || !same(got, w) {
					vsched.Fail("[getorset] Typed[%s].GetOrSet(%q) of %T %v: %v, %v, want %v, %v", name, k, x.v, x.v, got, err, w, werr)
				}
			}
		},
		read: func(e *env) {
			var hits, misses int
			for _, k := range []string{"a", "b", "zz"} {
				w, werr := expect(e, k)
				v, ok := t(e).Get(bg, k)
				if ok != (werr == nil) || !same(v, w) {
					vsched.Fail("[get] Typed[%s].Get(%q) of %v: %v, %v, want %v, %v", name, k, e.m[k].v, v, ok, w, werr)
				}
				v, err := t(e).GetTyped(bg, k)
				if !hc.Match(err, werr) || !same(v, w) {
					vsched.Fail("[typed] Typed[%s].GetTyped(%q) of %v: %v, %v, want %v, %v", name, k, e.m[k].v, v, err, w, werr)
				}
				it, v, ok := t(e).GetWithInfo(bg, k)
				if ok != (werr == nil) || !same(v, w) || ok != (it != nil) || ok && (it.Key != k || it.Value != any(w)) {
					vsched.Fail("[info] Typed[%s].GetWithInfo(%q) of %v: %+v, %v, %v, want %v, %v", name, k, e.m[k].v, it, v, ok, w, werr)
				}
				if werr == nil {
					hits++
				} else {
					misses++
				}
			}
			got, failed := t(e).GetMultiple(bg, "a", "b", "zz")
			for _, k := range []string{"a", "b", "zz"} {
				w, werr := expect(e, k)
				v, ok := got[k]
				if ok != (werr == nil) || !same(v, w) || !ok && !errors.Is(failed[k], werr) {
					vsched.Fail("[multi] Typed[%s].GetMultiple: %v %v, want %v, %v for %q", name, got, failed, w, werr, k)
				}
			}
			if len(got) != hits || len(failed) != misses {
				vsched.Fail("[multi] Typed[%s].GetMultiple: %v %v", name, got, failed)
			}
		},
		remove: func(e *env, k string) error { return t(e).Remove(bg, k) },
		clear:  func(e *env) error { return t(e).Clear(bg) },
	}
}

// sweep forgets what expiration has removed.
func (e *env) sweep() {
	have := map[string]bool{}
	for _, k := range hc.Keys(hc.Items(e.h)) {
		have[k] = true
	}
	for k, x := range e.m {
		if x.expired && !have[k] {
			delete(e.m, k)
		}
	}
}

var shared = 7

var views = []view{
	of("int", func(i int) int { return i }),
	of("string", func(i int) string { return fmt.Sprint("s", i) }),
	of("label", func(i int) label { return label(fmt.Sprint("l", i)) }),
	of("Stringer", func(i int) fmt.Stringer {
		if i%2 == 0 {
			return nil
		}
		return label(fmt.Sprint("x", i))
	}),
	of("*int", func(i int) *int {
		if i%2 == 0 {
			return nil
		}
		return &shared
	}),
	of("pair", func(i int) pair { return pair{i, -i} }),
	of("any", func(i int) any {
		return []any{i, "any", nil, label("y"), pair{1, 2}}[i%5]
	}),
}

type op struct {
	name string
	do   func(e *env)
}

func ops() []op {
	var out []op
	for _, v := range views {
		out = append(out, op{"set a " + v.name, func(e *env) { v.set(e, "a", e.n, ttl) }})
		out = append(out, op{"getorset a " + v.name, func(e *env) { v.getOrSet(e, "a", e.n) }})
	}
	out = append(out,
		op{"set b int", func(e *env) { views[0].set(e, "b", e.n, 0) }},
		op{"set b string", func(e *env) { views[1].set(e, "b", e.n, ttl) }},
		op{"refused", func(e *env) { views[1].set(e, " ", e.n, 0); views[0].set(e, "a", e.n, -time.Second) }},
		op{"untyped", func(e *env) {
			if err := e.h.Set(bg, "a", int64(e.n), ttl); err != nil {
				vsched.Fail("[untyped] %v", err)
			}
			e.m["a"] = ent{v: int64(e.n), ttl: ttl}
		}},
		op{"remove", func(e *env) {
			if err := views[e.n%len(views)].remove(e, "a"); err != nil {
				vsched.Fail("[remove] %v", err)
			}
			delete(e.m, "a")
		}},
		op{"clear", func(e *env) {
			if err := views[e.n%len(views)].clear(e); err != nil {
				vsched.Fail("[clear] %v", err)
			}
			clear(e.m)
		}},
		op{"wait", func(e *env) {
			vsched.Sleep(ttl + 1)
			for k, x := range e.m {
				x.expired = x.ttl > 0
				e.m[k] = x
			}
		}},
	)
	return out
}

func run(n int) func() {
	all := ops()
	return func() {
		vsched.Calm(true)
		e := &env{h: hc.New(bg, hc.Cfg{Interval: time.Hour}), m: map[string]ent{}}
		if hypercache.NewTyped[backend.InMemory, int](e.h).Underlying() != e.h {
			vsched.Fail("[underlying] not the wrapped cache")
		}
		vsched.Quiesce()
		for i := range n {
			o := all[vsched.Choose(len(all))]
			e.n = i + 1
			vsched.Tracef("%d: %s", i, o.name)
			o.do(e)
			if o.name != "wait" || vsched.Choose(2) == 0 {
				for _, v := range views {
					v.read(e)
				}
				vsched.Quiesce()
				e.sweep()
			}
		}
		// what is stored is what was set, of the type it was set as
		for _, it := range hc.Items(e.h) {
			if x, ok := e.m[it.Key]; !ok || it.Value != x.v {
				vsched.Fail("[content] %q holds %T %v, want %T %v", it.Key, it.Value, it.Value, x.v, x.v)
			}
		}
		vsched.Outcome("%T %T", e.m["a"].v, e.m["b"].v)
	}
}

// large: many keys of alternating types, long keys, big values.
func large(limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		h := hc.New(bg, hc.Cfg{Interval: time.Hour})
		n := ns[vsched.Choose(len(ns))]
		long := ""
		if vsched.Choose(2) == 1 {
			long, n = fmt.Sprintf("%0*d", 1+n*16, 7), 6
		}
		ints := hypercache.NewTyped[backend.InMemory, int](h)
		strs := hypercache.NewTyped[backend.InMemory, string](h)
		val := func(i int) string { return fmt.Sprint(long, "v", i) }
		var ks []string
		for i := range n {
			k := fmt.Sprint(long, "k", i)
			ks = append(ks, k)
			var err error
			if i%3 == 0 {
				err = ints.Set(bg, k, i, 0)
			} else {
				err = strs.Set(bg, k, val(i), 0)
			}
			if err != nil {
				vsched.Fail("[set] %d: %v", i, err)
			}
		}
		iv, ie := ints.GetMultiple(bg, append(ks, "none")...)
		sv, se := strs.GetMultiple(bg, append(ks, "none")...)
		if len(iv)+len(ie) != n+1 || len(sv)+len(se) != n+1 || !errors.Is(ie["none"], sentinel.ErrKeyNotFound) {
			vsched.Fail("[multi] of %d keys: %d ints, %d errors; %d strings, %d errors", n+1, len(iv), len(ie), len(sv), len(se))
		}
		for i, k := range ks {
			a, aok := ints.Get(bg, k)
			b, bok := strs.Get(bg, k)
			_, aerr := ints.GetTyped(bg, k)
			_, berr := strs.GetTyped(bg, k)
			ma, mok := iv[k]
			mb, nok := sv[k]
			if i%3 == 0 {
				if !aok || a != i || bok || aerr != nil || !errors.Is(berr, sentinel.ErrTypeMismatch) || !mok || ma != i || nok || !errors.Is(se[k], sentinel.ErrTypeMismatch) {
					vsched.Fail("[get] int key %d of %d: %v %v %v, %v %v", i, n, a, aok, aerr, bok, berr)
				}
			} else if !bok || b != val(i) || aok || berr != nil || !errors.Is(aerr, sentinel.ErrTypeMismatch) || mok || !nok || mb != val(i) || !errors.Is(ie[k], sentinel.ErrTypeMismatch) {
				vsched.Fail("[get] string key %d of %d: %v %v, %v %v", i, n, bok, berr, aok, aerr)
			}
		}
		vsched.Outcome("%d", n)
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	kit.Main(
		kit.Scenario{Name: "views", Body: run(4), Quick: det, Deep: det},
		kit.Scenario{Name: "large", Body: large(520), Quick: vsched.Opts{MaxSteps: 1 << 30}, Deep: vsched.Opts{MaxSteps: 1 << 30}},
		kit.Scenario{Name: "views-5", Body: run(5), Deep: det, DeepOnly: true},
	)
}
