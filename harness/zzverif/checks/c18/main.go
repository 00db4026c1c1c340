// C18: expiry, validity and size of an item.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/ugorji/go/codec"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// expiry: an item is expired exactly when more than its expiration has passed
// since the last access.
func expiry() {
	exps := []time.Duration{0, 1, time.Millisecond, time.Second, 30 * time.Minute, math.MaxInt64, -1, -time.Hour}
	it := &cache.Item{Key: "k", Value: 1, Expiration: exps[vsched.Choose(len(exps))], LastAccess: vtime.Now()}
	last := vsched.Now()
	count := uint32(0)
	exp := int64(it.Expiration)
	for range 3 {
		off := []int64{0, -1, 1, int64(time.Hour)}[vsched.Choose(4)]
		wait := off
		if exp > 0 && exp < int64(time.Hour) && off != int64(time.Hour) {
			wait = exp + off - (vsched.Now() - last) // just before, at, just after the expiration
		}
		if wait > 0 {
			vsched.Sleep(time.Duration(wait))
		}
		want := exp > 0 && vsched.Now()-last > exp
		before := *it
		if got := it.Expired(); got != want {
			vsched.Fail("[expired] expiration %s, %s after the last access: Expired() is %v", it.Expiration, time.Duration(vsched.Now()-last), got)
		}
		if *it != before {
			vsched.Fail("[expired] asking changed the item to %+v", *it)
		}
		vsched.Outcome("%v", want)
		if vsched.Choose(2) == 1 {
			it.Touch()
			last = vsched.Now()
			count++
			if it.AccessCount != count || it.LastAccess.UnixNano() != vtime.Now().UnixNano() || it.Expired() {
				vsched.Fail("[touch] Touch left %+v", *it)
			}
		}
	}
}

// validity: what Valid accepts.
func validity(p *kit.P) {
	ks := []struct {
		k  string
		ok bool
	}{{"k", true}, {"", false}, {" ", false}, {"\t\n ", false}, {" k ", true}, {"\x00", true}, {"\u2003", false}, {"é", true}, {strings.Repeat("x", 5000), true}}
	var np *int
	vals := []struct {
		v  any
		ok bool
	}{{1, true}, {nil, false}, {"", true}, {[]byte(nil), true}, {np, true}, {0, true}, {false, true}, {error(nil), false}}
	exps := []time.Duration{0, 1, math.MaxInt64, -1, math.MinInt64}
	for i, k := range ks {
		for j, v := range vals {
			for n, e := range exps {
				id := fmt.Sprintf("%d/%d/%d", i, j, n)
				if !p.Begin("%s", id) {
					continue
				}
				it := cache.Item{Key: k.k, Value: v.v, Expiration: e}
				err := it.Valid()
				var want error
				switch {
				case !k.ok:
					want = sentinel.ErrInvalidKey
				case !v.ok:
					want = sentinel.ErrNilValue
				case e < 0:
					want = sentinel.ErrInvalidExpiration
				}
				if !errors.Is(err, want) || (err == nil) != (want == nil) {
					p.Fail(id, "valid", "key %q value %v expiration %d: %v, want %v", k.k, v.v, e, err, want)
				}
				p.Outcome("%v", err)
			}
		}
	}
}

type bin struct{ n int }

func (b bin) MarshalBinary() ([]byte, error) {
	if b.n < 0 {
		return nil, errors.New("no")
	}
	return make([]byte, b.n), nil
}

// self refuses to be encoded.
type self struct{}

func (self) CodecEncodeSelf(*codec.Encoder) { panic(errors.New("no")) }
func (self) CodecDecodeSelf(*codec.Decoder) {}

type sized int

func (s sized) SizeBytes() int { return int(s) }

type both struct{}

func (both) MarshalBinary() ([]byte, error) { return make([]byte, 5), nil }
func (both) SizeBytes() int                 { return 99 }

type named string
type namedBytes []byte

// values whose encoded size is known from the CBOR specification.
var sizes = []struct {
	name string
	v    any
	size int64 // <0: not encodable
}{
	{"string", "abc", 3}, {"string0", "", 0}, {"utf8", "äö", 4}, {"bytes", []byte{1, 2}, 2}, {"bytesnil", []byte(nil), 0},
	{"bin", bin{7}, 7}, {"bin0", bin{0}, 0}, {"binerr", bin{-1}, -1}, {"sized", sized(123), 123}, {"sized31", sized(1 << 31), 1 << 31}, {"sized40", sized(1<<40 + 7), 1<<40 + 7}, {"both", both{}, 5},
	{"int0", 0, 1}, {"int23", 23, 1}, {"int24", 24, 2}, {"int-1", -1, 1}, {"int-25", -25, 2}, {"int256", 256, 3}, {"int65536", 65536, 5},
	{"int32max", int64(math.MaxUint32), 5}, {"int33", int64(math.MaxUint32) + 1, 9}, {"uint64", uint64(math.MaxUint64), 9}, {"int8", int8(-128), 2},
	{"true", true, 1}, {"false", false, 1}, {"nil", nil, 1}, {"float32", float32(1.5), 5}, {"float64", 1.1, 9},
	{"ints", []int{1, 2, 3}, 4}, {"empty", []int{}, 1}, {"strings", []string{"a", "bb"}, 6}, {"map", map[string]int{"a": 1, "bc": 300}, 1 + 2 + 1 + 3 + 3}, {"map0", map[string]int{}, 1},
	{"nested", []any{1, "x", []int{5}}, 1 + 1 + 2 + 2}, {"named", named("abc"), 4}, {"struct", struct{ A int }{1}, 1 + 2 + 1}, {"structs", []struct{ A, B int }{{1, 2}, {3, 400}}, 1 + (1 + 2 + 1 + 2 + 1) + (1 + 2 + 1 + 2 + 3)},
	{"ptr", ptr(7), 1}, {"big", strings.Repeat("z", 3<<20), 3 << 20}, {"bigs", []string{strings.Repeat("z", 3<<20)}, 1 + 5 + 3<<20},
	{"self", self{}, -1}, {"mixed", []any{strings.Repeat("y", 40), self{}}, -1},
}

func ptr[T any](v T) *T { return &v }

func sizeOf(name string, v any) (int64, error) {
	it := &cache.Item{Key: name, Value: v, Size: 77, Version: 3, Origin: "o"}
	err := it.SetSize()
	if it.Key != name || it.Version != 3 || it.Origin != "o" {
		return -9, errors.New("SetSize changed other fields")
	}
	return it.Size, err
}

// size: every pair of values, one after the other (a pooled buffer is reused).
func size(p *kit.P) {
	for _, a := range sizes {
		for _, b := range sizes {
			id := a.name + "," + b.name
			if !p.Begin("%s", id) {
				continue
			}
			_, _ = sizeOf(a.name, a.v)
			got, err := sizeOf(b.name, b.v)
			if b.size < 0 {
				if !errors.Is(err, sentinel.ErrInvalidSize) {
					p.Fail(id, "size-error", "%s cannot be encoded: size %d, error %v", b.name, got, err)
				}
			} else if err != nil || got != b.size {
				p.Fail(id, "size", "%s after %s has size %d (%v), want %d", b.name, a.name, got, err, b.size)
			}
			p.Outcome("%v", err == nil)
		}
	}
	for _, n := range []int64{0, 1, 1023, 1024, 1 << 20, 5<<20 + 1} {
		id := fmt.Sprintf("units %d", n)
		if p.Begin("%s", id) {
			it := cache.Item{Size: n}
			if it.SizeKB() != float64(n)/1024 || it.SizeMB() != float64(n)/1048576 {
				p.Fail(id, "units", "%d bytes are %v KB and %v MB", n, it.SizeKB(), it.SizeMB())
			}
		}
	}
	_ = binary.MaxVarintLen16
}

// large: values of many lengths; their encoding is a head of known length and
// the content.
func large(p *kit.P) {
	head := func(n int) int64 {
		switch {
		case n < 24:
			return 1
		case n < 1<<8:
			return 2
		case n < 1<<16:
			return 3
		}
		return 5
	}
	ns := kit.Sizes(1 << 20)
	for i, n := range ns {
		s := strings.Repeat("v", n)
		vals := []struct {
			name string
			v    any
			size int64
		}{
			{"string", s, int64(n)}, {"bytes", []byte(s), int64(n)}, {"named", named(s), head(n) + int64(n)},
			{"strings", []string{s, s}, 1 + 2*(head(n)+int64(n))}, {"map", map[string]string{"k": s}, 1 + 2 + head(n) + int64(n)},
			{"nested", []any{[]any{s}, 1}, 1 + 1 + head(n) + int64(n) + 1}, {"bools", make([]bool, n), head(n) + int64(n)},
			{"bin", bin{n}, int64(n)}, {"sized", sized(n), int64(n)},
		}
		for _, v := range vals {
			id := fmt.Sprintf("%s %d", v.name, n)
			if !p.Begin("%s", id) {
				continue
			}
			before := []int{0, 1 << 20, ns[len(ns)-1-i]} // what the pooled buffer held before
			for _, b := range before {
				_, _ = sizeOf("before", []string{strings.Repeat("b", b)})
				if got, err := sizeOf("k", v.v); err != nil || got != v.size {
					p.Fail(id, "size", "a %s of %d, encoded after one of %d, has size %d (%v), want %d", v.name, n, b, got, err, v.size)
				}
			}
			p.Outcome("%s", v.name)
		}
	}
}

// busy: touched more often than a small counter can tell.
func busy(p *kit.P) {
	for _, n := range []int{255, 256, 65535, 65536, 70000, 140000} {
		id := fmt.Sprintf("busy %d", n)
		if !p.Begin("%s", id) {
			continue
		}
		it := cache.Item{Key: "k", Value: 1}
		for range n {
			it.Touch()
		}
		if int(it.AccessCount) != n {
			p.Fail(id, "touch", "after %d touches the item counts %d", n, it.AccessCount)
		}
	}
	p.Outcome("counted")
}

// shared: sizes computed at the same time do not mix (pooled encoder buffers).
func shared() {
	vals := []int{4, 5, 24, 26, 27, 28, 30, 35, 38, 40}
	i, j := vals[vsched.Choose(len(vals)-1)], vals[vsched.Choose(len(vals)-1)]
	var g vsched.Group
	for _, k := range []int{i, j} {
		g.Go(func() {
			for range 2 {
				got, err := sizeOf(sizes[k].name, sizes[k].v)
				if w := sizes[k].size; w < 0 && err == nil || w >= 0 && (err != nil || got != w) {
					vsched.Fail("[size] next to %s and %s: %s has size %d (%v)", sizes[i].name, sizes[j].name, sizes[k].name, got, err)
				}
			}
		})
	}
	g.Wait()
	vsched.Outcome("%v", i == j)
}

// pool: an item handed out is blank and nobody else's.
func pool(n int) func() {
	return func() {
		m := cache.NewItemPoolManager()
		out := map[*cache.Item]int{}
		var mine []*cache.Item
		for i := range n {
			switch vsched.Choose(3) {
			case 0:
				it := m.Get()
				if it == nil || *it != (cache.Item{}) {
					vsched.Fail("[pool] Get handed out %+v", it)
				}
				if out[it] > 0 {
					vsched.Fail("[pool] an item in use was handed out again")
				}
				out[it]++
				it.Key, it.Value, it.AccessCount, it.Version = "k", i, 3, 9
				mine = append(mine, it)
			case 1:
				if len(mine) > 0 {
					m.Put(mine[0])
					delete(out, mine[0])
					mine = mine[1:]
				}
			case 2:
				m.Put(nil)
			}
		}
		vsched.Outcome("%d", len(mine))
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "expiry", Body: expiry, Quick: vsched.Opts{Horizon: 48 * time.Hour}, Deep: vsched.Opts{Horizon: 48 * time.Hour, MaxSteps: 1000}},
		kit.Scenario{Name: "validity", Plain: validity},
		kit.Scenario{Name: "size", Plain: size},
		kit.Scenario{Name: "large", Plain: large},
		kit.Scenario{Name: "busy", Plain: busy},
		kit.Scenario{Name: "shared", Body: shared, Quick: vsched.Opts{Preempt: 3}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "pool-5", Body: pool(5), Quick: vsched.Opts{MaxSteps: 1000}, Deep: vsched.Opts{MaxSteps: 1000}},
		kit.Scenario{Name: "pool-8", Body: pool(8), Quick: vsched.Opts{MaxSteps: 1000}, Deep: vsched.Opts{MaxSteps: 1000}, DeepOnly: true},
	)
}
