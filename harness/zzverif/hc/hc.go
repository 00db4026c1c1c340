// Package hc builds in-memory caches for the checks and keeps a reference
// model of what they must contain.
package hc

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"maps"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Cache is the cache under test.
type Cache = hypercache.HyperCache[backend.InMemory]

// Opt is one of its options.
type Opt = hypercache.Option[backend.InMemory]

// Cfg is what the scenarios vary.
type Cfg struct {
	Capacity   int
	Interval   time.Duration // eviction interval; 0 proactive
	Expiration time.Duration // expiration interval; 0 none
	Algorithm  string
	Shards     int
	MaxEvict   uint
	MaxSize    int64
	Debounce   time.Duration
	Buffer     int
	Log        slog.Handler
}

// New builds a cache.
func New(ctx context.Context, c Cfg) *Cache {
	conf, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		vsched.Fail("[new] config: %v", err)
		return nil
	}
	if c.Algorithm == "" {
		c.Algorithm = "lru"
	}
	if c.Shards == 0 {
		c.Shards = 1
	}
	conf.HyperCacheOptions = []Opt{
		hypercache.WithEvictionInterval[backend.InMemory](c.Interval),
		hypercache.WithExpirationInterval[backend.InMemory](c.Expiration),
		hypercache.WithEvictionAlgorithm[backend.InMemory](c.Algorithm),
		hypercache.WithEvictionShardCount[backend.InMemory](c.Shards),
		hypercache.WithMaxEvictionCount[backend.InMemory](c.MaxEvict),
		hypercache.WithMaxCacheSize[backend.InMemory](c.MaxSize),
		hypercache.WithExpirationTriggerDebounce[backend.InMemory](c.Debounce),
		hypercache.WithExpirationTriggerBuffer[backend.InMemory](c.Buffer),
	}
	if c.Log != nil {
		conf.HyperCacheOptions = append(conf.HyperCacheOptions, hypercache.WithLogger[backend.InMemory](slog.New(c.Log)))
	}
	conf.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](c.Capacity)}
	h, err := hypercache.New(ctx, hypercache.NewBackendManager(), conf)
	if err != nil || h == nil {
		vsched.Fail("[new] %+v: %v", c, err)
		return nil
	}
	return h
}

// Ent is a stored entry of the model.
type Ent struct {
	V    any
	TTL  time.Duration
	Last int64
	Acc  uint32
	Size int64
}

// Model is the sequential specification of the cache.
type Model map[string]Ent

// Clone copies a model.
func (m Model) Clone() Model { return maps.Clone(m) }

// Expired reports whether the entry has outlived its time.
func (e Ent) Expired(now int64) bool { return e.TTL > 0 && now-e.Last > int64(e.TTL) }

// Live is the entry of k if it is there and has not expired.
func (m Model) Live(k string) (Ent, bool) {
	e, ok := m[k]
	if !ok || e.Expired(Now()) {
		return Ent{}, false
	}
	return e, true
}

// Touch counts an access.
func (m Model) Touch(k string) Ent {
	e := m[k]
	e.Last = Now()
	e.Acc++
	m[k] = e
	return e
}

// Put stores an entry.
func (m Model) Put(k string, v any, ttl time.Duration) {
	m[k] = Ent{V: v, TTL: ttl, Last: Now(), Size: Size(v)}
}

// Size is the accounted size of the values the checks use.
func Size(v any) int64 {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case []byte:
		return int64(len(v))
	case int:
		if v >= 0 && v < 24 {
			return 1
		}
		return 2
	}
	return -1
}

// SetErr is the error a Set of these arguments must give.
func SetErr(k string, v any, ttl time.Duration) error {
	switch {
	case strings.TrimSpace(k) == "":
		return sentinel.ErrInvalidKey
	case v == nil:
		return sentinel.ErrNilValue
	case ttl < 0:
		return sentinel.ErrInvalidExpiration
	}
	return nil
}

// Match reports whether err is what want names (nil: no error).
func Match(err, want error) bool {
	if want == nil {
		return err == nil
	}
	return errors.Is(err, want)
}

// Show names an error shortly.
func Show(err error) string {
	if err == nil {
		return "ok"
	}
	for _, e := range []error{sentinel.ErrInvalidKey, sentinel.ErrNilValue, sentinel.ErrInvalidExpiration, sentinel.ErrKeyExpired, sentinel.ErrKeyNotFound,
		sentinel.ErrCacheFull, sentinel.ErrInvalidSize, sentinel.ErrTimeoutOrCanceled, sentinel.ErrTypeMismatch} {
		if errors.Is(err, e) {
			return e.Error()
		}
	}
	return err.Error()
}

// Items lists the cache, sorted by key; a listing with a key twice fails.
func Items(h *Cache) []*cache.Item {
	l, err := h.List(context.Background())
	if err != nil {
		vsched.Fail("[list] %v", err)
	}
	slices.SortFunc(l, func(a, b *cache.Item) int { return strings.Compare(a.Key, b.Key) })
	for i, it := range l {
		if it == nil || i > 0 && l[i-1].Key == it.Key {
			vsched.Fail("[list] nil or duplicate entry in %v", Keys(l))
		}
	}
	return l
}

// Keys of a listing.
func Keys(l []*cache.Item) []string {
	var out []string
	for _, it := range l {
		out = append(out, it.Key)
	}
	return out
}

// Check compares the complete observable contents with the model. Entries the
// model knows as expired may be there or not; those that are not are dropped
// from the model. It does not count as an access.
func (m Model) Check(h *Cache, when string) {
	t := Now()
	l := Items(h)
	seen := map[string]bool{}
	for _, it := range l {
		e, ok := m[it.Key]
		if !ok {
			vsched.Fail("[phantom] %s: the cache lists %q = %v, which was removed or never stored", when, it.Key, it.Value)
			return
		}
		seen[it.Key] = true
		if fmt.Sprint(it.Value) != fmt.Sprint(e.V) || it.Expiration != e.TTL || it.AccessCount != e.Acc || it.LastAccess.UnixNano() != e.Last || it.Size != e.Size {
			vsched.Fail("[content] %s: %q is listed as value %v ttl %v accesses %d last %d size %d, want %v %v %d %d %d", when, it.Key,
				it.Value, it.Expiration, it.AccessCount, it.LastAccess.UnixNano(), it.Size, e.V, e.TTL, e.Acc, e.Last, e.Size)
		}
	}
	for k, e := range m {
		if seen[k] {
			continue
		}
		if !e.Expired(t) {
			vsched.Fail("[lost] %s: %q, stored and neither removed nor expired, is not there", when, k)
			return
		}
		delete(m, k)
	}
	if n := h.Count(context.Background()); n != len(l) {
		vsched.Fail("[count] %s: Count is %d with %d entries listed", when, n, len(l))
	}
}

// CheckAlloc compares the accounted with the listed sizes.
func CheckAlloc(h *Cache, when string) {
	l := Items(h)
	var size int64
	for _, it := range l {
		size += it.Size
	}
	if a := h.Allocation(); a != size {
		vsched.Fail("[allocation] %s: Allocation is %d, the %d entries have %d bytes", when, a, len(l), size)
	}
}

// Now is the virtual time as items record it.
func Now() int64 { return vtime.Now().UnixNano() }
