package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/metric"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/trace"
	tnoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/dc"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// --- spans ---

type spanKey struct{}

// span is one span, as it was recorded.
type span struct {
	tnoop.Span
	name   string
	parent *span
	attrs  map[string]attribute.Value
	ended  int
	errs   []error
	status codes.Code
}

type recorder struct{ spans []*span }

type provider struct {
	tnoop.TracerProvider
	r *recorder
}

type tracer struct {
	tnoop.Tracer
	r *recorder
}

func (p provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{r: p.r} }

func (t tracer) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	s := &span{name: name, attrs: map[string]attribute.Value{}}
	s.parent, _ = ctx.Value(spanKey{}).(*span)
	cfg := trace.NewSpanStartConfig(o...)
	s.SetAttributes(cfg.Attributes()...)
	t.r.spans = append(t.r.spans, s)
	return context.WithValue(ctx, spanKey{}, s), s
}

func (s *span) End(...trace.SpanEndOption)                    { s.ended++ }
func (s *span) RecordError(err error, _ ...trace.EventOption) { s.errs = append(s.errs, err) }
func (s *span) SetStatus(c codes.Code, _ string)              { s.status = c }
func (s *span) SetAttributes(kv ...attribute.KeyValue) {
	if s.ended > 0 {
		vsched.Fail("[span] %s is changed after its end", s.name)
	}
	for _, a := range kv {
		s.attrs[string(a.Key)] = a.Value
	}
}

// spans compares what was traced with what was done: the operation at node i,
// and the copies sent.
func (x *world) spans(name string, i int, before []int, fan map[int][]dc.Call, err error, hit bool) {
	for j, t := range x.trace {
		var roots, copies []*span
		for _, s := range t.spans[before[j]:] {
			if s.ended != 1 {
				vsched.Fail("[span] %s: the span %s of %s ended %d times", x.log, s.name, dc.ID(j), s.ended)
			}
			if bad := len(s.errs) > 0; bad != (s.status == codes.Error) {
				vsched.Fail("[span] %s: the span %s of %s has the errors %v and the status %v", x.log, s.name, dc.ID(j), s.errs, s.status)
			}
			if strings.HasPrefix(s.name, "dist.replicate.") {
				copies = append(copies, s)
			} else {
				roots = append(roots, s)
			}
		}
		switch {
		case j != i && len(roots) > 0 || j == i && name == "" && len(roots) > 0:
			vsched.Fail("[span] %s: %s traced %s, which nobody asked it for", x.log, dc.ID(j), roots[0].name)
		case j == i && name != "" && (len(roots) != 1 || roots[0].name != name):
			vsched.Fail("[span] %s: %d spans for one %s", x.log, len(roots), name)
		case j == i && name != "":
			s := roots[0]
			if (len(s.errs) > 0) != (err != nil) || err != nil && !errors.Is(s.errs[0], err) {
				vsched.Fail("[span] %s: the operation gave %v, its span has %v", x.log, err, s.errs)
			}
			if v, ok := s.attrs["cache.hit"]; name == "dist.get" && (!ok || v.AsBool() != hit) {
				vsched.Fail("[span] %s: hit %v, the span says %v", x.log, hit, v.AsBool())
			}
			lv := x.r
			if name == "dist.set" {
				lv = x.w
			}
			if v, ok := s.attrs["dist.consistency"]; ok && v.AsString() != lv.String() {
				vsched.Fail("[span] %s: consistency %v, the span says %q", x.log, lv, v.AsString())
			}
			if v, ok := s.attrs["dist.acks"]; ok {
				n := int64(1)
				for _, c := range fan[j] {
					if c.Verdict == dc.Deliver {
						n++
					}
				}
				if v.AsInt64() != n {
					vsched.Fail("[span] %s: %d copies, the span says %d", x.log, n, v.AsInt64())
				}
			}
		}
		if name != "dist.set" && name != "dist.remove" {
			continue
		}
		if len(copies) != len(fan[j]) {
			vsched.Fail("[span] %s: %s sent %d copies and traced %d", x.log, dc.ID(j), len(fan[j]), len(copies))
			continue
		}
		for k, s := range copies {
			c := fan[j][k]
			if v := s.attrs["peer.id"]; v.AsString() != c.To || (len(s.errs) > 0) != (c.Verdict != dc.Deliver) {
				vsched.Fail("[span] %s: the span of %v names %q and has the errors %v", x.log, c, v.AsString(), s.errs)
			}
			if s.name != "dist.replicate."+c.Op || c.Ctx.Value(spanKey{}) != s {
				vsched.Fail("[span] %s: %v is not part of its span (%s)", x.log, c, s.name)
			}
			top := s
			for top.parent != nil {
				top = top.parent
			}
			if top.name != name {
				vsched.Fail("[span] %s: %v is part of %q", x.log, c, top.name)
			}
		}
	}
}

// --- instruments ---

// exposed: every counter of a node, the instrument it is exposed as, and
// whether that is cumulative.
var exposed = []struct {
	field, name string
	sum         bool
}{
	{"ForwardGet", "dist.forward.get", true},
	{"ForwardSet", "dist.forward.set", true},
	{"ForwardRemove", "dist.forward.remove", true},
	{"ReplicaFanoutSet", "dist.replica.fanout.set", true},
	{"ReplicaFanoutRemove", "dist.replica.fanout.remove", true},
	{"ReadRepair", "dist.read.repair", true},
	{"ReadRepairBatched", "dist.read.repair.batched", true},
	{"ReadRepairCoalesced", "dist.read.repair.coalesced", true},
	{"ReplicaGetMiss", "dist.replica.get.miss", true},
	{"ReadPrimaryPromote", "dist.read.primary_promote", true},
	{"HeartbeatSuccess", "dist.heartbeat.success", true},
	{"HeartbeatFailure", "dist.heartbeat.failure", true},
	{"IndirectProbeSuccess", "dist.heartbeat.indirect_probe.success", true},
	{"IndirectProbeFailure", "dist.heartbeat.indirect_probe.failure", true},
	{"IndirectProbeRefuted", "dist.heartbeat.indirect_probe.refuted", true},
	{"Drains", "dist.drains", true},
	{"NodesSuspect", "dist.nodes.suspect", true},
	{"NodesDead", "dist.nodes.dead", true},
	{"NodesRemoved", "dist.nodes.removed", true},
	{"VersionConflicts", "dist.version.conflicts", true},
	{"VersionTieBreaks", "dist.version.tie_breaks", true},
	{"HintedQueued", "dist.hinted.queued", true},
	{"HintedReplayed", "dist.hinted.replayed", true},
	{"HintedExpired", "dist.hinted.expired", true},
	{"HintedDropped", "dist.hinted.dropped", true},
	{"HintedGlobalDropped", "dist.hinted.global_dropped", true},
	{"HintedBytes", "dist.hinted.bytes", false},
	{"MigrationHintQueued", "dist.migration.queued", true},
	{"MigrationHintReplayed", "dist.migration.replayed", true},
	{"MigrationHintExpired", "dist.migration.expired", true},
	{"MigrationHintDropped", "dist.migration.dropped", true},
	{"MigrationHintLastAgeNanos", "dist.migration.last_age_ns", false},
	{"MerkleSyncs", "dist.merkle.syncs", true},
	{"MerkleKeysPulled", "dist.merkle.keys_pulled", true},
	{"MerkleBuildNanos", "dist.merkle.last_build_ns", false},
	{"MerkleDiffNanos", "dist.merkle.last_diff_ns", false},
	{"MerkleFetchNanos", "dist.merkle.last_fetch_ns", false},
	{"AutoSyncLoops", "dist.auto_sync.loops", true},
	{"LastAutoSyncNanos", "dist.auto_sync.last_ns", false},
	{"AutoSyncCleanTicks", "dist.auto_sync.clean_ticks", true},
	{"AutoSyncBackoffFactor", "dist.auto_sync.backoff_factor", false},
	{"ChaosDrops", "dist.chaos.drops", true},
	{"ChaosLatencies", "dist.chaos.latencies", true},
	{"TombstonesActive", "dist.tombstones.active", false},
	{"TombstonesPurged", "dist.tombstones.purged", true},
	{"WriteAttempts", "dist.write.attempts", true},
	{"WriteAcks", "dist.write.acks", true},
	{"WriteQuorumFailures", "dist.write.quorum_failures", true},
	{"WriteForwardPromotion", "dist.write.forward_promotion", true},
	{"WriteApplyRefused", "dist.write.apply_refused", true},
	{"RebalancedKeys", "dist.rebalance.keys", true},
	{"RebalanceBatches", "dist.rebalance.batches", true},
	{"RebalanceThrottle", "dist.rebalance.throttle", true},
	{"RebalanceLastNanos", "dist.rebalance.last_ns", false},
	{"RebalancedReplicaDiff", "dist.rebalance.replica_diff", true},
	{"RebalanceReplicaDiffThrottle", "dist.rebalance.replica_diff_throttle", true},
	{"RebalancedPrimary", "dist.rebalance.primary", true},
	{"MembersAlive", "dist.members.alive", false},
	{"MembersSuspect", "dist.members.suspect", false},
	{"MembersDead", "dist.members.dead", false},
	{"MembershipVersion", "dist.membership.version", false},
}

// pipeline is a meter provider that collects when it is told to.
type pipeline struct {
	mnoop.MeterProvider
	refuse    string // this instrument
	noWatch   bool   // refuse the callback
	made      map[string]bool
	sums      map[string]bool
	callbacks []*registration
	ended     int
}

type meter struct {
	mnoop.Meter
	p *pipeline
}

type sum struct {
	mnoop.Int64ObservableCounter
	name string
}

type gauge struct {
	mnoop.Int64ObservableGauge
	name string
}

type registration struct {
	mnoop.Registration
	p  *pipeline
	f  metric.Callback
	on map[string]bool
}

var errRefused = errors.New("refused")

func (p *pipeline) Meter(string, ...metric.MeterOption) metric.Meter { return meter{p: p} }

func (m meter) add(name string, cumulative bool) error {
	if m.p.refuse == name {
		return errRefused
	}
	if m.p.made[name] {
		vsched.Fail("[instrument] %s is made twice", name)
	}
	m.p.made[name] = true
	m.p.sums[name] = cumulative
	return nil
}

func (m meter) Int64ObservableCounter(name string, _ ...metric.Int64ObservableCounterOption) (metric.Int64ObservableCounter, error) {
	if err := m.add(name, true); err != nil {
		return nil, err
	}
	return sum{name: name}, nil
}

func (m meter) Int64ObservableGauge(name string, _ ...metric.Int64ObservableGaugeOption) (metric.Int64ObservableGauge, error) {
	if err := m.add(name, false); err != nil {
		return nil, err
	}
	return gauge{name: name}, nil
}

func nameOf(o metric.Observable) string {
	switch x := o.(type) {
	case sum:
		return x.name
	case gauge:
		return x.name
	}
	return fmt.Sprintf("%T", o)
}

func (m meter) RegisterCallback(f metric.Callback, on ...metric.Observable) (metric.Registration, error) {
	if m.p.noWatch {
		return nil, errRefused
	}
	r := &registration{p: m.p, f: f, on: map[string]bool{}}
	for _, o := range on {
		r.on[nameOf(o)] = true
	}
	m.p.callbacks = append(m.p.callbacks, r)
	return r, nil
}

func (r *registration) Unregister() error {
	r.p.ended++
	for i, x := range r.p.callbacks {
		if x == r {
			r.p.callbacks = append(r.p.callbacks[:i:i], r.p.callbacks[i+1:]...)
			return nil
		}
	}
	vsched.Fail("[unregister] a callback is taken away twice")
	return nil
}

type observer struct {
	mnoop.Observer
	r   *registration
	got map[string]int64
}

func (o observer) ObserveInt64(x metric.Int64Observable, v int64, _ ...metric.ObserveOption) {
	name := nameOf(x)
	if !o.r.on[name] {
		vsched.Fail("[instrument] %s is observed, and was not registered", name)
	}
	if _, ok := o.got[name]; ok {
		vsched.Fail("[instrument] %s is observed twice", name)
	}
	o.got[name] = v
}

// collect is one collection cycle.
func (p *pipeline) collect() map[string]int64 {
	got := map[string]int64{}
	for _, r := range p.callbacks {
		if err := r.f(bg, observer{r: r, got: got}); err != nil {
			vsched.Fail("[collect] %v", err)
		}
	}
	return got
}

func newPipeline() *pipeline { return &pipeline{made: map[string]bool{}, sums: map[string]bool{}} }

// compare: what is exposed is what the node counts.
func compare(what string, p *pipeline, dm *backend.DistMemory, last map[string]int64) {
	got := p.collect()
	v := reflect.ValueOf(dm.Metrics())
	for _, e := range exposed {
		f := v.FieldByName(e.field)
		if !f.IsValid() || e.name == p.refuse {
			continue
		}
		want := int64(0)
		if f.CanInt() {
			want = f.Int()
		} else {
			want = int64(f.Uint())
		}
		x, ok := got[e.name]
		switch {
		case !ok:
			vsched.Fail("[exposed] %s: %s is not exposed", what, e.name)
		case x != want:
			vsched.Fail("[exposed] %s: %s is %d, and %s %d", what, e.name, x, e.field, want)
		case p.sums[e.name] != e.sum:
			vsched.Fail("[kind] %s is cumulative: %v", e.name, p.sums[e.name])
		case e.sum && x < last[e.name]:
			vsched.Fail("[kind] %s: %s went from %d to %d", what, e.name, last[e.name], x)
		}
		last[e.name] = x
	}
}

// instruments: everything a node counts is exposed as such, whatever happens.
func instruments(n int, stop bool) func() {
	return func() {
		vsched.Calm(true)
		p := newPipeline()
		last := map[string]int64{}
		pre := preludes[vsched.Choose(len(preludes))]
		script, lv := pre.steps, pre.level
		c := dc.New(dc.Cfg{N: 3, R: 2, Opts: []dc.Opt{
			backend.WithDistHintTTL(time.Second), backend.WithDistHintReplayInterval(310 * ms), backend.WithDistHintMaxTotal(3),
			backend.WithDistReadConsistency(lv), backend.WithDistWriteConsistency(lv),
		}, Each: func(i int) []dc.Opt {
			if i > 0 {
				return nil
			}
			return []dc.Opt{backend.WithDistMeterProvider(p), backend.WithDistHeartbeat(100*ms, 150*ms, 500*ms), backend.WithDistIndirectProbes(1, 10*ms),
				backend.WithDistTombstoneTTL(time.Second), backend.WithDistTombstoneSweep(210 * ms),
				backend.WithDistRebalanceInterval(130 * ms), backend.WithDistRebalanceBatchSize(1), backend.WithDistRebalanceMaxConcurrent(1), backend.WithDistReplicaDiffMaxPerTick(1),
				backend.WithDistReadRepairBatch(190*ms, 8), backend.WithDistMerkleAutoSync(410 * ms), backend.WithDistMerkleAdaptiveBackoff(4)}
		}})
		dm := c.Nodes[0]
		compare("at first", p, dm, last)
		log := ""
		steps := []string{"set", "get", "remove", "gone", "back", "leave", "join", "wait", "long", "sync", "drain"}
		set := func(owners ...int) {
			_ = dm.Set(bg, &cache.Item{Key: c.Pref(append(owners, rest(owners)...)...), Value: 1})
		}
		for k := range len(script) + n {
			var step string
			if k < len(script) {
				step = script[k]
			} else {
				step = steps[vsched.Choose(len(steps))]
			}
			log += step + "; "
			switch step {
			case "set":
				set(0, 1)
				set(1, 0)
				set(2, 1)
				set(2, 0)
			case "get":
				for _, k := range []string{c.Pref(0, 1, 2), c.Pref(1, 0, 2), c.Pref(2, 1, 0)} {
					dm.Get(bg, k)
				}
			case "remove":
				_ = dm.Remove(bg, c.Pref(0, 1, 2), c.Pref(2, 1, 0))
			case "conflict":
				for _, k := range []string{c.Pref(0, 1, 2), c.Pref(1, 0, 2)} {
					for v, i := range []int{0, 1, 1} { // older, of the same version, newer
						c.Nodes[i].DebugInject(&cache.Item{Key: k, Value: v, Version: uint64(4 + v/2), Origin: dc.ID(2 - i), LastUpdated: time.Unix(0, vsched.Now())})
						if v > 0 {
							dm.Get(bg, k)
						}
					}
				}
			case "stray":
				k := c.Pref(1, 2, 0)
				_ = dc.Link{N: c.Net, From: "n1"}.ForwardSet(bg, "n0", &cache.Item{Key: k, Value: 1, Version: 1, Origin: "n1", LastUpdated: time.Unix(0, vsched.Now())}, false)
			case "cut":
				c.SetCut(0, 1, true)
			case "dead2":
				c.Mem[0].Mark("n2", cluster.NodeDead)
			case "slow":
				c.Slow = 2 * ms
			case "gone2", "back2":
				c.SetDown(2, step == "gone2")
			case "gone", "back":
				c.SetDown(1, step == "gone")
			case "leave":
				c.Leave(0, 2)
			case "join":
				c.Join(0, 2)
			case "wait":
				vsched.Sleep(450 * ms)
			case "long":
				vsched.Sleep(1700 * ms)
			case "sync":
				_ = dm.SyncWith(bg, "n1")
			case "drain":
				_ = dm.Drain(bg)
			}
			compare(log, p, dm, last)
		}
		var some []string
		for _, e := range exposed {
			if last[e.name] != 0 {
				some = append(some, fmt.Sprintf("%s=%d", e.field, last[e.name]))
			}
		}
		sort.Strings(some)
		vsched.Outcome("%v", some)
		if len(script) > 0 || !stop {
			return
		}
		c.Stop()
		if len(p.callbacks) > 0 || p.ended != 1 {
			vsched.Fail("[unregister] after Stop %d callbacks are left, %d were taken away", len(p.callbacks), p.ended)
		}
	}
}

// preludes lead to what short histories do not reach.
var preludes = []struct {
	level backend.ConsistencyLevel
	steps []string
}{
	{backend.ConsistencyOne, nil},
	{backend.ConsistencyQuorum, []string{"gone", "set", "wait", "long", "back", "wait"}},
	{backend.ConsistencyQuorum, []string{"gone", "set", "wait", "back", "wait", "get", "wait"}},
	{backend.ConsistencyOne, []string{"leave", "set", "wait", "gone2", "slow", "join", "wait", "back2", "wait", "wait", "stray"}},
	{backend.ConsistencyQuorum, []string{"leave", "set", "wait", "gone2", "join", "long", "long"}},
	{backend.ConsistencyAll, []string{"conflict", "wait", "cut", "wait", "stray", "stray", "dead2"}},
	{backend.ConsistencyOne, []string{"set", "remove", "long", "leave", "wait", "join", "wait"}},
	{backend.ConsistencyOne, []string{"leave", "set", "gone", "set", "gone2", "join", "slow", "wait", "wait", "back", "wait"}},
}

func rest(owners []int) (out []int) {
	for i := range 3 {
		there := false
		for _, o := range owners {
			there = there || o == i
		}
		if !there {
			out = append(out, i)
		}
	}
	return out
}

// broken: a pipeline that refuses one thing has all the others, and a cache
// with any pipeline works.
func broken() {
	vsched.Calm(true)
	p := newPipeline()
	n := vsched.Choose(len(exposed) + 2)
	switch {
	case n < len(exposed):
		p.refuse = exposed[n].name
	case n == len(exposed):
		p.noWatch = true
	}
	opts := []dc.Opt{backend.WithDistMeterProvider(p), backend.WithDistTracerProvider(nil)}
	if n > len(exposed) {
		opts = append([]dc.Opt{backend.WithDistMeterProvider(nil)}, backend.WithDistTracerProvider(nil))
	}
	c := dc.New(dc.Cfg{N: 1, R: 1, Opts: opts})
	dm := c.Nodes[0]
	if err := dm.Set(bg, &cache.Item{Key: "k", Value: 1}); err != nil {
		vsched.Fail("[set] %v", err)
	}
	if _, ok := dm.Get(bg, "k"); !ok {
		vsched.Fail("[get] it is gone")
	}
	if n < len(exposed) {
		compare("without "+p.refuse, p, dm, map[string]int64{})
	}
	c.Stop()
	if len(p.callbacks) > 0 {
		vsched.Fail("[unregister] after Stop %d callbacks are left", len(p.callbacks))
	}
	vsched.Outcome("%d", n)
}

// stopping: a node is stopped once, however often and by however many, and is
// read meanwhile.
func stopping() {
	vsched.Calm(true)
	p := newPipeline()
	c := dc.New(dc.Cfg{N: 1, R: 1, Opts: []dc.Opt{backend.WithDistMeterProvider(p)}})
	cb := p.callbacks[0].f
	var g vsched.Group
	for range 2 {
		g.Go(func() {
			if err := c.Nodes[0].Stop(bg); err != nil {
				vsched.Fail("[stop] %v", err)
			}
		})
	}
	g.Go(func() {
		got := map[string]int64{}
		on := map[string]bool{}
		for _, e := range exposed {
			on[e.name] = true
		}
		_ = cb(bg, observer{r: &registration{on: on}, got: got})
		if got["dist.members.alive"] != 1 {
			vsched.Fail("[exposed] %d alive", got["dist.members.alive"])
		}
	})
	vsched.Calm(false)
	g.Wait()
	vsched.Calm(true)
	if p.ended != 1 || len(p.callbacks) > 0 {
		vsched.Fail("[unregister] %d times", p.ended)
	}
	vsched.Outcome("stopped")
}
