// C42: middleware is transparent.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/middleware"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

type ctxKey struct{}

// call is one call the service received.
type call struct {
	method string
	args   []any
}

// svc records calls and gives the answers it was told to.
type svc struct {
	calls []call
	ok    bool
	panic bool
	ctx   context.Context
}

var (
	errAnswer = errors.New("answer")
	item      = &cache.Item{Key: "k", Value: "v"}
	items     = []*cache.Item{item, {Key: "k2"}}
	values    = map[string]any{"k": 1}
	failed    = map[string]error{"k2": errAnswer}
	statsOut  = stats.Stats{"x": {Sum: 3}}
)

func (s *svc) got(ctx context.Context, method string, args ...any) {
	s.calls = append(s.calls, call{method, args})
	s.ctx = ctx
	if s.panic {
		panic("service")
	}
}

func (s *svc) err() error {
	if s.ok {
		return nil
	}
	return errAnswer
}

func (s *svc) Get(ctx context.Context, key string) (any, bool) {
	s.got(ctx, "Get", key)
	if s.ok {
		return "value", true
	}
	return nil, false
}

func (s *svc) Set(ctx context.Context, key string, value any, d time.Duration) error {
	s.got(ctx, "Set", key, value, d)
	return s.err()
}

func (s *svc) GetOrSet(ctx context.Context, key string, value any, d time.Duration) (any, error) {
	s.got(ctx, "GetOrSet", key, value, d)
	return "stored", s.err()
}

func (s *svc) GetWithInfo(ctx context.Context, key string) (*cache.Item, bool) {
	s.got(ctx, "GetWithInfo", key)
	if s.ok {
		return item, true
	}
	return nil, false
}

func (s *svc) GetMultiple(ctx context.Context, keys ...string) (map[string]any, map[string]error) {
	s.got(ctx, "GetMultiple", strs(keys)...)
	if s.ok {
		return values, nil
	}
	return nil, failed
}

func (s *svc) List(ctx context.Context, f ...backend.IFilter) ([]*cache.Item, error) {
	var a []any
	for _, x := range f {
		a = append(a, x)
	}
	s.got(ctx, "List", a...)
	if s.ok {
		return items, nil
	}
	return nil, errAnswer
}

func (s *svc) Remove(ctx context.Context, keys ...string) error {
	s.got(ctx, "Remove", strs(keys)...)
	return s.err()
}
func (s *svc) Clear(ctx context.Context) error     { s.got(ctx, "Clear"); return s.err() }
func (s *svc) Capacity() int                       { s.got(nil, "Capacity"); return 11 }
func (s *svc) Allocation() int64                   { s.got(nil, "Allocation"); return 12 }
func (s *svc) Count(ctx context.Context) int       { s.got(ctx, "Count"); return 13 }
func (s *svc) TriggerEviction(ctx context.Context) { s.got(ctx, "TriggerEviction") }
func (s *svc) Stop(ctx context.Context) error      { s.got(ctx, "Stop"); return s.err() }
func (s *svc) GetStats() stats.Stats               { s.got(nil, "GetStats"); return statsOut }

func strs(l []string) []any {
	out := []any{}
	for _, x := range l {
		out = append(out, x)
	}
	return out
}

// rec observes what the middlewares emit.
type rec struct {
	lines    []string
	started  []string
	ended    int
	open     int
	doubled  bool
	errors   int
	hits     []bool
	counts   map[string]int64
	sampled  map[string]int
	counted  map[string]int64
	timed    map[string]int
	negative bool
}

func (r *rec) Printf(f string, v ...any) { r.lines = append(r.lines, fmt.Sprintf(f, v...)) }

// collector is a stats collector.
type collector struct{ r *rec }

func (c collector) Incr(k constants.Stat, v int64)  { c.r.counted[string(k)] += v }
func (c collector) Decr(constants.Stat, int64)      {}
func (c collector) Gauge(constants.Stat, int64)     {}
func (c collector) Histogram(constants.Stat, int64) {}
func (c collector) GetStats() stats.Stats           { return nil }
func (c collector) Timing(k constants.Stat, v int64) {
	c.r.timed[string(k)]++
	c.r.negative = c.r.negative || v < 0 || v > int64(time.Hour)
}

type tracer struct {
	tnoop.Tracer
	r *rec
}

type span struct {
	tnoop.Span
	r     *rec
	ended *bool
}

type spanKey struct{}

func (t tracer) Start(ctx context.Context, name string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	t.r.started = append(t.r.started, name)
	t.r.open++
	return context.WithValue(ctx, spanKey{}, name), span{r: t.r, ended: new(bool)}
}

func (s span) End(...trace.SpanEndOption) {
	s.r.doubled = s.r.doubled || *s.ended
	*s.ended = true
	s.r.ended++
	s.r.open--
}
func (s span) RecordError(error, ...trace.EventOption) { s.r.errors++ }
func (s span) SetAttributes(kv ...attribute.KeyValue) {
	for _, a := range kv {
		if a.Key == "hit" {
			s.r.hits = append(s.r.hits, a.Value.AsBool())
		}
	}
}

type meter struct {
	mnoop.Meter
	r    *rec
	fail int
}

type counter struct {
	mnoop.Int64Counter
	r *rec
}

type histogram struct {
	mnoop.Float64Histogram
	r *rec
}

func (m meter) Int64Counter(string, ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	if m.fail == 1 {
		return nil, errAnswer
	}
	return counter{r: m.r}, nil
}

func (m meter) Float64Histogram(string, ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	if m.fail == 2 {
		return nil, errAnswer
	}
	return histogram{r: m.r}, nil
}

func method(s attribute.Set) string {
	v, _ := s.Value("method")
	return v.AsString()
}

func (c counter) Add(_ context.Context, n int64, o ...metric.AddOption) {
	c.r.counts[method(metric.NewAddConfig(o).Attributes())] += n
}

func (h histogram) Record(_ context.Context, v float64, o ...metric.RecordOption) {
	h.r.sampled[method(metric.NewRecordConfig(o).Attributes())]++
	h.r.negative = h.r.negative || v < 0 || v > float64(time.Hour.Milliseconds())
}

var kinds = []string{"logging", "stats", "metrics", "tracing"}

func (r *rec) wrap(kind string) hypercache.Middleware {
	return func(next hypercache.Service) hypercache.Service {
		switch kind {
		case "logging":
			return middleware.NewLoggingMiddleware(next, r)
		case "stats":
			return middleware.NewStatsCollectorMiddleware(next, collector{r})
		case "metrics":
			m, err := middleware.NewOTelMetricsMiddleware(next, meter{r: r})
			if err != nil {
				return nil
			}
			return m
		case "tracing":
			return middleware.NewOTelTracingMiddleware(next, tracer{r: r}, middleware.WithCommonAttributes(attribute.String("x", "y")))
		}
		return next
	}
}

// use calls one method and returns its results.
type use struct {
	name string
	args []any
	do   func(ctx context.Context, s hypercache.Service) []any
	ctx  bool
	stat string // what the stats middleware calls it; "" not counted
	otel bool   // counted and traced
}

var (
	f1 = backend.WithSortBy("Key")
	f2 = backend.WithSortOrderAsc(false)
)

func uses() []use {
	out := []use{
		{"Capacity", nil, func(_ context.Context, s hypercache.Service) []any { return []any{s.Capacity()} }, false, "", false},
		{"Allocation", nil, func(_ context.Context, s hypercache.Service) []any { return []any{s.Allocation()} }, false, "", false},
		{"Count", nil, func(c context.Context, s hypercache.Service) []any { return []any{s.Count(c)} }, true, "", false},
		{"GetStats", nil, func(_ context.Context, s hypercache.Service) []any { return []any{s.GetStats()} }, false, "", false},
		{"Clear", nil, func(c context.Context, s hypercache.Service) []any { return []any{s.Clear(c)} }, true, "clear", true},
		{"Stop", nil, func(c context.Context, s hypercache.Service) []any { return []any{s.Stop(c)} }, true, "", false},
		{"TriggerEviction", nil, func(c context.Context, s hypercache.Service) []any { s.TriggerEviction(c); return []any{} }, true, "trigger_eviction", false},
	}
	for _, k := range []string{"", "k", "key %d%s"} {
		out = append(out,
			use{"Get", []any{k}, func(c context.Context, s hypercache.Service) []any { a, b := s.Get(c, k); return []any{a, b} }, true, "get", true},
			use{"GetWithInfo", []any{k}, func(c context.Context, s hypercache.Service) []any { a, b := s.GetWithInfo(c, k); return []any{a, b} }, true, "get_with_info", true})
		for _, v := range []any{nil, "v%s", 7, []byte{1}} {
			for _, d := range []time.Duration{-1, 0, time.Hour} {
				out = append(out,
					use{"Set", []any{k, v, d}, func(c context.Context, s hypercache.Service) []any { return []any{s.Set(c, k, v, d)} }, true, "set", true},
					use{"GetOrSet", []any{k, v, d}, func(c context.Context, s hypercache.Service) []any {
						a, b := s.GetOrSet(c, k, v, d)
						return []any{a, b}
					}, true, "get_or_set", true})
			}
		}
	}
	for _, ks := range [][]string{nil, {"a"}, {"a", "b", "a"}} {
		out = append(out,
			use{"GetMultiple", strs(ks), func(c context.Context, s hypercache.Service) []any {
				a, b := s.GetMultiple(c, ks...)
				return []any{a, b}
			}, true, "get_multiple", true},
			use{"Remove", strs(ks), func(c context.Context, s hypercache.Service) []any { return []any{s.Remove(c, ks...)} }, true, "remove", true})
	}
	for _, fs := range [][]backend.IFilter{nil, {f1}, {f2, f1}} {
		var a []any
		for _, f := range fs {
			a = append(a, f)
		}
		out = append(out, use{"List", a, func(c context.Context, s hypercache.Service) []any {
			a, b := s.List(c, fs...)
			return []any{a, b}
		}, true, "list", true})
	}
	return out
}

// stacks: every composition of middlewares times every call and answer.
func stacks(p *kit.P) {
	depth := 3
	if p.Deep() {
		depth = 5
	}
	var stack []string
	var rec func()
	all := uses()
	rec = func() {
		for _, u := range all {
			for how := range 3 { // ok, refused, panic
				check(p, stack, u, how)
			}
		}
		if len(stack) == depth {
			return
		}
		for _, k := range kinds {
			stack = append(stack, k)
			rec()
			stack = stack[:len(stack)-1]
		}
	}
	rec()
}

func outcome(f func() []any) (out []any, panicked any) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func check(p *kit.P, stack []string, u use, how int) {
	id := fmt.Sprintf("%v %s%v %d", stack, u.name, u.args, how)
	if !p.Begin("%s", id) {
		return
	}
	r := &rec{counts: map[string]int64{}, sampled: map[string]int{}, counted: map[string]int64{}, timed: map[string]int{}}
	inner := &svc{ok: how == 0, panic: how == 2}
	plain := &svc{ok: how == 0, panic: how == 2}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, "mine"))
	defer cancel()
	var mws []hypercache.Middleware
	for _, k := range stack {
		mws = append(mws, r.wrap(k))
	}
	got, gp := outcome(func() []any { return u.do(ctx, hypercache.ApplyMiddleware(inner, mws...)) })
	want, wp := outcome(func() []any { return u.do(ctx, plain) })
	if !reflect.DeepEqual(got, want) || !reflect.DeepEqual(gp, wp) {
		p.Fail(id, "result", "%s: %v (panic %v), the service itself gives %v (panic %v)", id, got, gp, want, wp)
		return
	}
	if len(inner.calls) != 1 || inner.calls[0].method != u.name || !slices.EqualFunc(inner.calls[0].args, u.args, func(a, b any) bool { return reflect.DeepEqual(a, b) }) {
		p.Fail(id, "call", "%s: the service received %v", id, inner.calls)
		return
	}
	if u.ctx {
		if inner.ctx == nil || inner.ctx.Value(ctxKey{}) != "mine" || inner.ctx.Err() != nil {
			p.Fail(id, "context", "%s: the context lost its values", id)
			return
		}
		if cancel(); inner.ctx.Err() == nil {
			p.Fail(id, "context", "%s: the context is not cancelled with the caller's", id)
		}
	}
	n := func(k string) (c int) {
		for _, s := range stack {
			if s == k {
				c++
			}
		}
		return
	}
	if how == 2 {
		p.Outcome("panic")
		if r.open != 0 {
			p.Fail(id, "span", "%s: %d spans were not ended when the service panicked", id, r.open)
		}
		return
	}
	// each layer accounts for each call once
	if u.stat != "" {
		if c, d := r.counted["hypercache_"+u.stat+"_count"], r.timed["hypercache_"+u.stat+"_duration"]; c != int64(n("stats")) || d != n("stats") || r.negative {
			p.Fail(id, "stats", "%s: counted %v timed %v", id, r.counted, r.timed)
		}
	}
	if u.otel {
		if r.counts[u.name] != int64(n("metrics")) || r.sampled[u.name] != n("metrics") || len(r.counts) > 1 || len(r.sampled) > 1 {
			p.Fail(id, "metrics", "%s: counted %v sampled %v", id, r.counts, r.sampled)
		}
		if len(r.started) != n("tracing") || slices.ContainsFunc(r.started, func(s string) bool { return s != "hypercache."+u.name }) {
			p.Fail(id, "span", "%s: spans %v", id, r.started)
		}
		if _, fails := want[len(want)-1].(error); fails && r.errors != n("tracing") {
			p.Fail(id, "span", "%s: %d of %d spans record the error", id, r.errors, n("tracing"))
		}
	}
	if u.name == "Get" || u.name == "GetWithInfo" {
		if len(r.hits) != n("tracing") || slices.Contains(r.hits, how != 0) {
			p.Fail(id, "hit", "%s: spans say hit %v", id, r.hits)
		}
	}
	if r.open != 0 || r.doubled {
		p.Fail(id, "span", "%s: %d spans are open, ended twice %v", id, r.open, r.doubled)
	}
	p.Outcome("%s %v", u.name, got)
}

// broken: instruments that cannot be made are reported.
func broken(p *kit.P) {
	for fail := range 3 {
		id := fmt.Sprint("fail ", fail)
		if !p.Begin("%s", id) {
			continue
		}
		s, err := middleware.NewOTelMetricsMiddleware(&svc{}, meter{r: &rec{}, fail: fail})
		if fail == 0 && (err != nil || s == nil) || fail > 0 && (!errors.Is(err, errAnswer) || s != nil) {
			p.Fail(id, "new", "%s: %v, %v", id, s, err)
		}
		p.Outcome("%v", err)
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "stacks", Plain: stacks},
		kit.Scenario{Name: "broken", Plain: broken},
	)
}
