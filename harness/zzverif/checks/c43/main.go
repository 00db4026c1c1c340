// C43: filters and orders of listings.
package main

import (
	"cmp"
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/hc"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var bg = context.Background()

type filter struct {
	name string
	f    backend.IFilter
	sort func(a, b *cache.Item) int
	keep func(it *cache.Item) bool
	flip bool
	bad  bool
}

func by(f constants.SortingField, c func(a, b *cache.Item) int) filter {
	return filter{name: "by " + f.String(), f: backend.WithSortBy(f.String()), sort: c}
}

func only(name string, keep func(it *cache.Item) bool) filter {
	return filter{name: name, f: backend.WithFilterFunc(keep), keep: keep}
}

var filters = []filter{
	by(constants.SortByKey, func(a, b *cache.Item) int { return cmp.Compare(a.Key, b.Key) }),
	by(constants.SortBySize, func(a, b *cache.Item) int { return cmp.Compare(a.Size, b.Size) }),
	by(constants.SortByLastAccess, func(a, b *cache.Item) int { return a.LastAccess.Compare(b.LastAccess) }),
	by(constants.SortByAccessCount, func(a, b *cache.Item) int { return cmp.Compare(a.AccessCount, b.AccessCount) }),
	by(constants.SortByExpiration, func(a, b *cache.Item) int { return cmp.Compare(a.Expiration, b.Expiration) }),
	{name: "ascending", f: backend.WithSortOrderAsc(true)},
	{name: "descending", f: backend.WithSortOrderAsc(false), flip: true},
	only("small", func(it *cache.Item) bool { return it.Size < 3 }),
	only("read", func(it *cache.Item) bool { return it.AccessCount > 0 }),
	only("none", func(it *cache.Item) bool { return false }),
	{name: "by nothing", f: backend.WithSortBy(""), bad: true},
	{name: "by Value", f: backend.WithSortBy("Value"), bad: true},
	{name: "by key", f: backend.WithSortBy("key"), bad: true},
}

// store is a cache of either backend.
type store interface {
	Set(ctx context.Context, key string, value any, expiration time.Duration) error
	Get(ctx context.Context, key string) (any, bool)
	List(ctx context.Context, filters ...backend.IFilter) ([]*cache.Item, error)
}

func newStore(dist bool) store {
	if !dist {
		return hc.New(bg, hc.Cfg{Interval: time.Hour})
	}
	conf, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	if err != nil {
		vsched.Fail("[new] %v", err)
		return nil
	}
	conf.DistMemoryOptions = []backend.DistMemoryOption{backend.WithDistShardCount(2), backend.WithDistReplication(1),
		backend.WithDistMembership(cluster.NewMembership(cluster.NewRing()), cluster.NewNode("n0", "")), backend.WithDistTransport(backend.NewInProcessTransport())}
	h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
	if err != nil {
		vsched.Fail("[new] %v", err)
		return nil
	}
	return h
}

// items are the contents, whatever the order.
func items(h store) []*cache.Item {
	l, err := h.List(bg)
	if err != nil {
		vsched.Fail("[list] %v", err)
	}
	return l
}

// fill stores items whose fields rank differently, with ties.
func fill(h store, n int) {
	for i := range n {
		v := []string{"xxx", "y", "zzzz", "y", "www", ""}[i]
		if err := h.Set(bg, []string{"d", "b", "e", "a", "c", "aa"}[i], v, []time.Duration{0, time.Minute, time.Hour, time.Minute, 0, time.Second}[i]); err != nil {
			vsched.Fail("[set] %v", err)
		}
		if i%2 == 0 {
			vsched.Sleep(time.Millisecond)
		}
	}
	for i, k := range []string{"b", "e", "b", "c", "zz", "a", "e"} {
		h.Get(bg, k)
		if i%3 == 0 {
			vsched.Sleep(1)
		}
	}
	vsched.Quiesce()
}

func run(dist bool, most, length int) func() {
	return func() {
		vsched.Calm(true)
		h := newStore(dist)
		n := vsched.Choose(most + 1)
		fill(h, n)
		var fs []backend.IFilter
		what := fmt.Sprintf("%d items", n)
		kept := map[string]cache.Item{}
		for _, it := range items(h) {
			kept[it.Key] = *it
		}
		before := fmt.Sprint(kept)
		var order func(a, b *cache.Item) int
		bad := false
		for range vsched.Choose(length + 1) {
			f := filters[vsched.Choose(len(filters))]
			what += ", " + f.name
			fs = append(fs, f.f)
			switch {
			case f.bad:
				bad = true
			case f.sort != nil:
				order = f.sort
			case f.flip && order != nil:
				o := order
				order = func(a, b *cache.Item) int { return -o(a, b) }
			case f.keep != nil:
				for k, it := range kept {
					if !f.keep(&it) {
						delete(kept, k)
					}
				}
			}
		}
		l, err := h.List(bg, fs...)
		vsched.Quiesce()
		if bad {
			if err == nil || l != nil {
				vsched.Fail("[invalid] %s: %v, %v, want an error", what, hc.Keys(l), err)
			}
			vsched.Outcome("error")
			return
		}
		if err != nil || len(l) != len(kept) {
			vsched.Fail("[set] %s: %v, %v, want %d items", what, hc.Keys(l), err, len(kept))
		}
		seen := map[string]bool{}
		for i, it := range l {
			w, ok := kept[it.Key]
			if !ok || seen[it.Key] || *it != w {
				vsched.Fail("[item] %s: item %d is %+v, want %+v once", what, i, *it, w)
			}
			seen[it.Key] = true
			if i > 0 && order != nil && order(l[i-1], it) > 0 {
				vsched.Fail("[order] %s: %+v comes before %+v", what, *l[i-1], *it)
			}
		}
		vsched.Outcome("%v", hc.Keys(l))
		// the caller owns the listing
		for _, it := range l {
			*it = cache.Item{Key: "scribble", Value: 1}
		}
		slices.Reverse(l)
		now := map[string]cache.Item{}
		for _, it := range items(h) {
			now[it.Key] = *it
		}
		if after := fmt.Sprint(now); after != before {
			vsched.Fail("[copy] %s: the cache holds %s after the listing was modified, held %s", what, after, before)
		}
	}
}

// large: listings long enough for every part of a sorting algorithm.
func large(dist bool, limit int) func() {
	ns := kit.Sizes(limit)
	return func() {
		vsched.Calm(true)
		h := newStore(dist)
		n := ns[vsched.Choose(len(ns))]
		kind := vsched.Choose(3)
		for i := range n {
			j := i // ascending, descending, mixed
			switch kind {
			case 1:
				j = n - i
			case 2:
				j = i * 7919 % (n + 1)
			}
			v := fmt.Sprintf("%0*d", 1+j%17, j)
			if err := h.Set(bg, fmt.Sprintf("key-%05d", j), v, time.Duration(j%13)*time.Hour); err != nil {
				vsched.Fail("[set] %v", err)
			}
			if i%3 == 0 {
				vsched.Sleep(time.Microsecond)
			}
			for range j % 4 {
				h.Get(bg, fmt.Sprintf("key-%05d", j))
			}
		}
		kept := map[string]cache.Item{}
		for _, it := range items(h) {
			kept[it.Key] = *it
		}
		for _, f := range filters {
			for _, extra := range []int{-1, 6, 8} { // alone, descending, filtered
				if f.bad || f.sort == nil {
					continue
				}
				fs := []backend.IFilter{f.f}
				want := len(kept)
				if extra >= 0 {
					fs = append(fs, filters[extra].f)
					if k := filters[extra].keep; k != nil {
						want = 0
						for _, it := range kept {
							if k(&it) {
								want++
							}
						}
					}
				}
				l, err := h.List(bg, fs...)
				if err != nil || len(l) != want {
					vsched.Fail("[set] %s of %d: %d items, %v, want %d", f.name, n, len(l), err, want)
				}
				seen := map[string]bool{}
				for i, it := range l {
					if w, ok := kept[it.Key]; !ok || seen[it.Key] || *it != w {
						vsched.Fail("[item] %s of %d: item %d is %+v, want %+v once", f.name, n, i, *it, w)
					}
					seen[it.Key] = true
					if i > 0 {
						d := f.sort(l[i-1], it)
						if extra == 6 {
							d = -d
						}
						if d > 0 {
							vsched.Fail("[order] %s of %d: %+v comes before %+v", f.name, n, *l[i-1], *it)
						}
					}
				}
			}
		}
		vsched.Outcome("%d", n)
	}
}

func main() {
	det := vsched.Opts{MaxSteps: 400000}
	kit.Main(
		kit.Scenario{Name: "filters", Body: run(false, 6, 3), Quick: det, Deep: det},
		kit.Scenario{Name: "filters on a distributed backend", Body: run(true, 6, 3), Quick: det, Deep: det},
		kit.Scenario{Name: "large", Body: large(false, 300), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "large on a distributed backend", Body: large(true, 130), Quick: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}},
		kit.Scenario{Name: "larger", Body: large(false, 5200), Deep: vsched.Opts{MaxSteps: 1 << 30, Horizon: 1000 * time.Hour}, DeepOnly: true},
		kit.Scenario{Name: "filters-4", Body: run(false, 6, 4), Deep: det, DeepOnly: true},
	)
}
