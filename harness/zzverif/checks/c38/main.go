// C38: what the serializer stores is what it gives back.
package main

import (
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/libs/serializer"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
)

type inner struct {
	N int64             `json:"n"`
	S []string          `json:"s,omitempty"`
	M map[string]*inner `json:"m"`
}

type record struct {
	Name    string
	Private string `json:"-"`
	Any     any    `json:"any"`
	In      inner  `json:"in"`
	P       *inner
	B       []byte
	F       float64
	T       time.Time
	D       time.Duration
	U       uint64
	OK      bool
}

// item is the shape of a stored cache item.
type item struct {
	Key         string
	Value       any
	LastAccess  time.Time
	Size        int64
	Expiration  time.Duration
	AccessCount uint
}

var strs = []string{"", "a", "\x00", "\"\\/\b\f\n\r\t", "<script>&", "héllo \U0001F600 \u2028", "null", "{\"a\":1}", strings.Repeat("x", 4096), "0", " "}

// anyVals: values as they come back from JSON into an interface.
func anyVals(depth int) []any {
	vs := []any{nil, true, false, 0.0, -1.5, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740991.0}
	for _, s := range strs {
		vs = append(vs, s)
	}
	if depth > 0 {
		sub := anyVals(depth - 1)
		vs = append(vs, []any{}, map[string]any{})
		for i, v := range sub {
			vs = append(vs, []any{v}, map[string]any{strs[i%len(strs)]: v}, []any{v, sub[(i+3)%len(sub)]},
				map[string]any{"a": v, "b": sub[(i*7+1)%len(sub)]})
		}
	}
	return vs
}

func typed(depth int) []any {
	var vs []any
	for _, s := range strs {
		vs = append(vs, s, &record{Name: s, B: []byte(s), Any: s}, []string{s, s}, map[string]string{s: s})
	}
	for _, i := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1<<53 + 1)} {
		vs = append(vs, i, inner{N: i}, []int64{i, -i}, map[string]int64{"k": i}, map[int64]bool{i: true}, time.Duration(i), &record{D: time.Duration(i), U: uint64(i)})
	}
	for _, u := range []uint64{0, math.MaxUint64, 1 << 63} {
		vs = append(vs, u, []uint64{u})
	}
	for _, f := range []float64{0, 0.1, -1e-7, 1e21, 1e20, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.123456789} {
		vs = append(vs, f, float32(f/1e300), []float64{f}, &record{F: f})
	}
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	t0 := time.Date(2026, 2, 28, 23, 59, 59, 999999999, time.UTC)
	vs = append(vs, b, [][]byte{b, {}}, true, int8(-128), uint8(255), [3]int{1, 2, 3}, t0,
		&record{T: t0}, inner{S: []string{"a", ""}, M: map[string]*inner{"x": {N: 1, M: map[string]*inner{}}}},
		&inner{M: map[string]*inner{"nil": nil}}, []*inner{{N: 1}, nil, {N: 3}})
	for i, a := range anyVals(min(depth, 1)) {
		vs = append(vs, item{Key: strs[i%len(strs)], Value: a, LastAccess: t0, Size: int64(i), Expiration: time.Duration(i) * time.Minute, AccessCount: uint(i)},
			&record{Any: a}, []any{a, i % 2 * 0}, map[string]any{"k": a})
	}
	return vs
}

// norm is what v looks like after a round trip through JSON into its own type.
func norm(v any) any {
	data, err := stdjson.Marshal(v)
	if err != nil {
		panic(err)
	}
	dst := reflect.New(reflect.TypeOf(v))
	if err := stdjson.Unmarshal(data, dst.Interface()); err != nil {
		panic(fmt.Sprintf("%T %s: %v", v, data, err))
	}
	return dst.Elem().Interface()
}

func short(v any) string {
	s := fmt.Sprintf("%T %+v", v, v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func roundtrip(p *kit.P) {
	depth := 1
	if p.Deep() {
		depth = 2
	}
	ser, err := serializer.New("default")
	if err != nil {
		panic(err)
	}
	for i, v := range anyVals(depth + 1) {
		id := fmt.Sprintf("any %d", i)
		if !p.Begin("%s", id) {
			continue
		}
		data, err := ser.Marshal(v)
		if err != nil {
			p.Fail(id, "marshal", "%s: %v", short(v), err)
			continue
		}
		var back any
		if err := ser.Unmarshal(data, &back); err != nil || !reflect.DeepEqual(back, v) {
			p.Fail(id, "roundtrip", "%s came back as %s, %v", short(v), short(back), err)
		}
		var std any
		if err := stdjson.Unmarshal(data, &std); err != nil || !reflect.DeepEqual(std, v) {
			p.Fail(id, "not-json", "%s is stored as %.200s, which is read as %s, %v", short(v), data, short(std), err)
		}
		// what was stored does not change behind the caller's back
		keep := string(data)
		if other, err := ser.Marshal(map[string]any{"other": strings.Repeat("z", len(data))}); err != nil || string(data) != keep || string(other) == keep {
			p.Fail(id, "aliased", "%s: the stored bytes changed when another value was stored", short(v))
		}
		if _, num := v.(float64); !num { // a cut number is another number; "-1." is the parser's leniency
			wrong(p, id, ser, data)
		}
		p.Outcome("%T", v)
	}
	for i, v := range typed(depth) {
		id := fmt.Sprintf("typed %d", i)
		if !p.Begin("%s", id) {
			continue
		}
		data, err := ser.Marshal(v)
		if err != nil {
			p.Fail(id, "marshal", "%s: %v", short(v), err)
			continue
		}
		w := norm(v)
		fresh := reflect.New(reflect.TypeOf(v))
		if err := ser.Unmarshal(data, fresh.Interface()); err != nil || !reflect.DeepEqual(fresh.Elem().Interface(), w) {
			p.Fail(id, "roundtrip", "%s came back as %s, %v", short(v), short(fresh.Elem().Interface()), err)
		}
		// the source buffer may be reused once Unmarshal returned
		for j := range data {
			data[j] = 'x'
		}
		if !reflect.DeepEqual(fresh.Elem().Interface(), w) {
			p.Fail(id, "alias-input", "%s changed with the buffer it was read from: %s", short(v), short(fresh.Elem().Interface()))
		}
		p.Outcome("%T", v)
	}
}

// large: strings, bytes, lists, maps and nests of many sizes.
func large(p *kit.P) {
	long, many, deep := 1<<20, 5200, 1100
	if p.Deep() {
		long, many, deep = 8<<20, 140000, 2100
	}
	ser, err := serializer.New("default")
	if err != nil {
		panic(err)
	}
	trip := func(id string, v any) {
		if !p.Begin("%s", id) {
			return
		}
		p.Outcome("%T", v)
		data, err := ser.Marshal(v)
		if err != nil {
			p.Fail(id, "marshal", "%s: %v", id, err)
			return
		}
		// the buffers of others do not end up in this one
		keep := string(data)
		for _, o := range []any{"small", strings.Repeat("z", len(data)), v} {
			if _, err := ser.Marshal(o); err != nil {
				p.Fail(id, "marshal", "%s: then %T: %v", id, o, err)
			}
		}
		if string(data) != keep {
			p.Fail(id, "aliased", "%s: the stored bytes changed when another value was stored", id)
		}
		back := reflect.New(reflect.TypeOf(v))
		if err := ser.Unmarshal(data, back.Interface()); err != nil || !reflect.DeepEqual(back.Elem().Interface(), v) {
			p.Fail(id, "roundtrip", "%s: %d bytes came back different, %v", id, len(data), err)
		}
		std := reflect.New(reflect.TypeOf(v))
		if err := stdjson.Unmarshal(data, std.Interface()); err != nil || !reflect.DeepEqual(std.Elem().Interface(), v) {
			p.Fail(id, "not-json", "%s: the %d bytes stored read differently with encoding/json, %v", id, len(data), err)
		}
		for j := range data {
			data[j] = 'x'
		}
		if !reflect.DeepEqual(back.Elem().Interface(), v) {
			p.Fail(id, "alias-input", "%s changed with the buffer it was read from", id)
		}
		// a cut document is no document
		for _, cut := range []int{1, len(keep) / 2, len(keep) - 1} {
			var x any
			if cut > 0 && cut < len(keep) && !(keep[0] == '-' || keep[0] >= '0' && keep[0] <= '9') && ser.Unmarshal([]byte(keep[:cut]), &x) == nil {
				p.Fail(id, "truncated", "%s: the first %d of %d bytes are read without an error", id, cut, len(keep))
			}
		}
	}
	for _, n := range kit.Sizes(long) {
		trip(fmt.Sprint("string ", n), strings.Repeat("a", n))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		trip(fmt.Sprint("bytes ", n), b)
		if n <= 70000 {
			trip(fmt.Sprint("quotes ", n), strings.Repeat("\"\\\n<\u2028", n/5)+strings.Repeat("é", n%5))
			trip(fmt.Sprint("key ", n), map[string]any{strings.Repeat("k", n): "v"})
		}
	}
	for _, n := range kit.Sizes(many) {
		l, m, is := make([]any, n), make(map[string]any, n), make(map[int64]string, n)
		rs := make([]record, n)
		for i := range n {
			l[i], m[fmt.Sprint("k", i)], is[int64(i)<<40] = float64(i), fmt.Sprint(i), "x"
			rs[i] = record{Name: fmt.Sprint(i), U: uint64(i) << 40, B: []byte{byte(i)}, In: inner{S: []string{"s"}, M: map[string]*inner{}}}
		}
		trip(fmt.Sprint("list ", n), l)
		trip(fmt.Sprint("map ", n), m)
		trip(fmt.Sprint("numbers ", n), is)
		trip(fmt.Sprint("records ", n), rs)
	}
	for _, n := range kit.Sizes(deep) {
		var l, m any = "x", "x"
		for range n {
			l, m = []any{l}, map[string]any{"m": m}
		}
		trip(fmt.Sprint("lists within lists ", n), l)
		trip(fmt.Sprint("maps within maps ", n), m)
	}
}

// wrong: every truncation and a damaged byte is refused or reads as what
// encoding/json reads.
func wrong(p *kit.P, id string, ser serializer.ISerializer, data []byte) {
	n := len(data)
	if n > 60 {
		return
	}
	for cut := range n {
		var got, std any
		e1 := ser.Unmarshal(data[:cut:cut], &got)
		e2 := stdjson.Unmarshal(data[:cut:cut], &std)
		if e2 != nil && e1 == nil {
			p.Fail(id, "truncated", "%q read as %s", data[:cut], short(got))
		}
		if e1 == nil && !reflect.DeepEqual(got, std) {
			p.Fail(id, "truncated", "%q read as %s, want %s", data[:cut], short(got), short(std))
		}
	}
}

// destinations: what Unmarshal does to what it is given.
func destinations(p *kit.P) {
	ser, _ := serializer.New("default")
	type dcase struct {
		name string
		data string
		mk   func() any
	}
	s, n, sl, m, r, pp := "old", int64(7), []string{"old"}, map[string]int{"old": 1}, record{Name: "old", U: 7}, &inner{N: 9}
	_ = pp
	dests := []func() any{
		func() any { x := s; return &x },
		func() any { x := n; return &x },
		func() any { x := append([]string(nil), sl...); return &x },
		func() any { x := map[string]int{"old": m["old"]}; return &x },
		func() any { x := r; return &x },
		func() any { x := &inner{N: 9}; return &x },
		func() any { var x any = "old"; return &x },
		func() any { var x any = &inner{N: 3}; return &x },
		func() any { return map[string]int{} },
		func() any { return record{} },
		func() any { return "s" },
		func() any { return nil },
		func() any { return (*record)(nil) },
		func() any { var x any; return x },
	}
	for di, mk := range dests {
		for _, data := range []string{"null", `"new"`, "12", `["a"]`, `{"old":2,"new":3}`, `{"Name":"new"}`, `{"n":5}`, "", "nul", "{", "[1,2", `{"Name":3}`, "true false", "1 2", "{}}"} {
			id := fmt.Sprintf("dest %d data %q", di, data)
			if !p.Begin("%s", id) {
				continue
			}
			a, b := mk(), mk()
			e1, e2 := ser.Unmarshal([]byte(data), a), stdjson.Unmarshal([]byte(data), b)
			p.Outcome("err=%v", e2 != nil)
			if (e1 != nil) != (e2 != nil) {
				p.Fail(id, "dest-error", "decoding %q into %T: error %v, want %v", data, a, e1, e2)
				continue
			}
			if e1 == nil && !reflect.DeepEqual(a, b) {
				p.Fail(id, "dest", "decoding %q into a used %T leaves %s, want %s", data, a, short(reflect.ValueOf(a).Elem().Interface()), short(reflect.ValueOf(b).Elem().Interface()))
			}
		}
	}
	for _, v := range []any{make(chan int), func() {}, math.NaN(), math.Inf(1), map[string]any{"x": make(chan int)}, []any{1, math.Inf(-1)}, complex(1, 2)} {
		id := short(v)
		if strings.Contains(id, "0x") {
			id = fmt.Sprintf("%T", v)
		}
		if !p.Begin("unstorable %s", id) {
			continue
		}
		data, err := ser.Marshal(v)
		p.Outcome("err=%v", err != nil)
		if err == nil || data != nil {
			p.Fail("unstorable "+id, "unstorable", "%s was stored as %q, %v", id, data, err)
		}
	}
}

type stub struct{ id int }

func (*stub) Marshal(any) ([]byte, error) { return nil, nil }
func (*stub) Unmarshal([]byte, any) error { return nil }

// registry: all sequences of registrations and lookups.
func registry(p *kit.P) {
	names := []string{"default", "msgpack", "mine", "", "Default", " default"}
	depth := 3
	if p.Deep() {
		depth = 4
	}
	// operation: 0..5 register names[i] (on registry A or B), checks after each step
	for start := range 2 {
		var rec func(seq []int)
		rec = func(seq []int) {
			id := fmt.Sprintf("start=%d ops=%v", start, seq)
			if p.Begin("%s", id) {
				regs := [2]*serializer.Registry{}
				model := [2]map[string]int{{}, {}}
				for i := range regs {
					if start == 1 {
						regs[i] = serializer.NewSerializerRegistry()
						model[i]["default"], model[i]["msgpack"] = -1, -2
					} else {
						regs[i] = serializer.NewEmptySerializerRegistry()
					}
				}
				for k, op := range seq {
					r, nm := op/len(names), names[op%len(names)]
					regs[r].Register(nm, func() serializer.ISerializer { return &stub{k + 1} })
					model[r][nm] = k + 1
				}
				for i := range regs {
					for _, nm := range names {
						checkNew(p, id, nm, model[i], regs[i].New)
					}
				}
				checkNew(p, id, "default", map[string]int{"default": -1}, serializer.New)
				checkNew(p, id, "msgpack", map[string]int{"msgpack": -2}, serializer.New)
				checkNew(p, id, "mine", map[string]int{}, serializer.New)
				checkNew(p, id, "", map[string]int{}, serializer.New)
			}
			if len(seq) < depth {
				for i := range 2 * len(names) {
					rec(append(append([]int(nil), seq...), i))
				}
			}
		}
		rec(nil)
	}
}

func checkNew(p *kit.P, id, nm string, model map[string]int, f func(string) (serializer.ISerializer, error)) {
	s, err := f(nm)
	w, ok := model[nm]
	switch {
	case nm == "":
		if !errors.Is(err, sentinel.ErrParamCannotBeEmpty) || s != nil {
			p.Fail(id, "empty", "%s: the empty name gives %T, %v", id, s, err)
		}
	case !ok:
		if !errors.Is(err, sentinel.ErrSerializerNotFound) || s != nil {
			p.Fail(id, "unknown", "%s: %q gives %T, %v", id, nm, s, err)
		}
	case err != nil:
		p.Fail(id, "lost", "%s: %q gives %v", id, nm, err)
	case w > 0:
		s2, err2 := f(nm)
		if s2 == s || err2 != nil {
			p.Fail(id, "again", "%s: asked twice, %q is not made twice: %v", id, nm, err2)
		}
		if st, isStub := s2.(*stub); !isStub || st.id != w {
			p.Fail(id, "wrong", "%s: asked again, %q gives %T %+v, want registration %d", id, nm, s2, s2, w)
		}
		if st, isStub := s.(*stub); !isStub || st.id != w {
			p.Fail(id, "wrong", "%s: %q gives %T %+v, want registration %d", id, nm, s, s, w)
		}
	case w == -1:
		var back string
		data, err := s.Marshal("x")
		if err != nil || s.Unmarshal(data, &back) != nil || back != "x" {
			p.Fail(id, "default", "%s: default serializer broken: %v", id, err)
		}
	default:
		// msgpack is disabled: it must fail, never store or read anything
		var back string
		data, err := s.Marshal("x")
		if err == nil || len(data) > 0 || s.Unmarshal([]byte("\xa1x"), &back) == nil || back != "" {
			p.Fail(id, "msgpack", "%s: the disabled msgpack serializer answers %q, %v", id, data, err)
		}
	}
	p.Outcome("%v", err)
}

func main() {
	kit.Main(
		kit.Scenario{Name: "roundtrip", Plain: roundtrip, Weight: 3},
		kit.Scenario{Name: "destinations", Plain: destinations},
		kit.Scenario{Name: "large", Plain: large},
		kit.Scenario{Name: "registry", Plain: registry},
	)
}
