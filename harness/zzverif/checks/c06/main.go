// C06: the event bus delivers every event once, in version order, or counts it
// as dropped.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

const capacity = 16

// drain empties a channel nobody else is using.
func drain(ch <-chan eventbus.Event) (out []eventbus.Event) {
	for {
		select {
		case e, ok := <-ch:
			if !ok {
				return
			}
			out = append(out, e)
		default:
			return
		}
	}
}

func versions(es []eventbus.Event) (out []uint64) {
	for _, e := range es {
		out = append(out, e.Version)
	}
	return
}

func increasing(who string, vs []uint64) {
	for i := 1; i < len(vs); i++ {
		if vs[i] <= vs[i-1] {
			vsched.Fail("[order] %s received versions %v, not in increasing order", who, vs)
		}
	}
}

// publishers: concurrent publishers, idle subscribers with room for all.
func publishers(np, per, ns int) func() {
	return func() {
		b := eventbus.New()
		ctx := context.Background()
		var chs []<-chan eventbus.Event
		for range ns {
			ch, _ := b.Subscribe(ctx)
			chs = append(chs, ch)
		}
		ret := make([][]uint64, np)
		var g vsched.Group
		for p := range np {
			ret[p] = make([]uint64, per)
			g.Go(func() {
				for i := range per {
					ret[p][i] = b.Publish(eventbus.Event{Type: fmt.Sprintf("t%d", p), Payload: i})
				}
			})
		}
		g.Wait()
		owner := map[uint64]string{}
		for p := range np {
			if !slices.IsSorted(ret[p]) {
				vsched.Fail("[version] publisher %d was given versions %v in this order", p, ret[p])
			}
			for i, v := range ret[p] {
				if _, dup := owner[v]; dup || v < 1 || v > uint64(np*per) {
					vsched.Fail("[version] versions handed out: %v", ret)
				}
				owner[v] = fmt.Sprintf("t%d/%d", p, i)
			}
		}
		for s, ch := range chs {
			es := drain(ch)
			increasing(fmt.Sprintf("subscriber %d", s), versions(es))
			if len(es) != np*per {
				vsched.Fail("[lost] subscriber %d with room received %d of %d events", s, len(es), np*per)
			}
			for _, e := range es {
				if owner[e.Version] != fmt.Sprintf("%s/%v", e.Type, e.Payload) {
					vsched.Fail("[content] version %d carries %s/%v, published as %s", e.Version, e.Type, e.Payload, owner[e.Version])
				}
				vsched.Outcome("%s", e.Type)
			}
		}
		if b.Dropped() != 0 {
			vsched.Fail("[dropped] %d drops counted, none happened", b.Dropped())
		}
	}
}

// overflow: a nearly full subscriber that reads concurrently.
func overflow(pre, np, per, reads int) func() {
	return func() {
		b := eventbus.New()
		ch, _ := b.Subscribe(context.Background())
		other, _ := b.Subscribe(context.Background())
		for range pre {
			b.Publish(eventbus.Event{Type: "pre"})
		}
		drain(other)
		var got []eventbus.Event
		var g vsched.Group
		for range np {
			g.Go(func() {
				for range per {
					b.Publish(eventbus.Event{Type: "x"})
				}
			})
		}
		g.Go(func() {
			for range reads {
				got = append(got, vsched.Recv(ch))
			}
		})
		g.Wait()
		got = append(got, drain(ch)...)
		increasing("the slow subscriber", versions(got))
		total := pre + np*per
		dropped := int(b.Dropped())
		if len(got)+dropped != total {
			vsched.Fail("[accounting] %d events published, %d received, %d counted as dropped", total, len(got), dropped)
		}
		if dropped > max(0, total-capacity) {
			vsched.Fail("[early-drop] %d events dropped although at most %d could not fit", dropped, max(0, total-capacity))
		}
		if dropped < max(0, total-capacity-reads) {
			vsched.Fail("[accounting] only %d drops", dropped)
		}
		if o := drain(other); len(o) != np*per {
			vsched.Fail("[isolation] a subscriber with room received %d of %d events because another one is slow", len(o), np*per)
		}
		vsched.Outcome("dropped=%d", dropped)
	}
}

// joining: events published after Subscribe returned are all received.
func joining() {
	b := eventbus.New()
	subAt, pubAt := 1<<30, [3]int{}
	var ch <-chan eventbus.Event
	var g vsched.Group
	g.Go(func() {
		ch, _ = b.Subscribe(context.Background())
		subAt = vsched.Stamp()
	})
	var ver [3]uint64
	g.Go(func() {
		for i := range 3 {
			pubAt[i] = vsched.Stamp()
			ver[i] = b.Publish(eventbus.Event{Type: "x", Payload: i})
		}
	})
	g.Wait()
	es := drain(ch)
	vs := versions(es)
	increasing("the new subscriber", vs)
	for i := range 3 {
		if pubAt[i] > subAt && !slices.Contains(vs, ver[i]) {
			vsched.Fail("[lost] event %d was published after Subscribe returned but not received", i)
		}
	}
	if len(vs) > 0 && vs[len(vs)-1]-vs[0] != uint64(len(vs)-1) {
		vsched.Fail("[gap] the new subscriber received versions %v", vs)
	}
	vsched.Outcome("%v", vs)
}

type msub struct {
	q      []uint64
	live   bool
	unsub  func()
	cancel context.CancelFunc
	ch     <-chan eventbus.Event
	closed bool
}

// sequences: all operation sequences against a queue model.
func sequences(depth int) func() {
	return func() {
		b := eventbus.New()
		var subs []*msub
		var ver, dropped uint64
		pub := func(n int) {
			for range n {
				ver++
				stamp := time.Time{}
				if ver%2 == 0 {
					stamp = time.Unix(int64(ver), 0)
				}
				if v := b.Publish(eventbus.Event{Type: "t", Payload: ver, Timestamp: stamp}); v != ver {
					vsched.Fail("[version] Publish returned %d, want %d", v, ver)
				}
				for _, s := range subs {
					if !s.live {
						continue
					}
					if len(s.q) == capacity {
						dropped++
					} else {
						s.q = append(s.q, ver)
					}
				}
			}
		}
		trail := ""
		for range depth {
			switch o := vsched.Choose(6); o {
			case 0:
				trail += "pub "
				pub(1)
			case 1:
				trail += "pub*9 "
				pub(9)
			case 2:
				if len(subs) == 2 {
					vsched.Prune()
				}
				trail += "sub "
				ctx, cancel := context.WithCancel(context.Background())
				ch, un := b.Subscribe(ctx)
				subs = append(subs, &msub{live: true, unsub: un, cancel: cancel, ch: ch})
			case 3, 4, 5:
				if len(subs) == 0 {
					vsched.Prune()
				}
				s := subs[vsched.Choose(len(subs))]
				switch o {
				case 3:
					trail += "unsub "
					s.unsub()
					s.live = false
				case 4:
					trail += "cancel "
					s.cancel()
					s.live = false
				case 5:
					trail += "read "
					if len(s.q) > 0 {
						e := vsched.Recv(s.ch)
						if e.Version != s.q[0] || e.Payload != s.q[0] || e.Type != "t" {
							vsched.Fail("[content] %s: read version %d payload %v, want %d", trail, e.Version, e.Payload, s.q[0])
						}
						if e.Timestamp.IsZero() || (e.Version%2 == 0 && !e.Timestamp.Equal(time.Unix(int64(e.Version), 0))) {
							vsched.Fail("[timestamp] version %d has timestamp %v", e.Version, e.Timestamp)
						}
						s.q = s.q[1:]
					}
				}
			}
			vsched.Quiesce()
			n := 0
			for _, s := range subs {
				if s.live {
					n++
				}
				if len(s.ch) != len(s.q) {
					vsched.Fail("[queue] %s: %d events waiting, want %d", trail, len(s.ch), len(s.q))
				}
			}
			if b.SubscriberCount() != n {
				vsched.Fail("[count] %s: %d subscribers, want %d", trail, b.SubscriberCount(), n)
			}
			if b.Dropped() != dropped {
				vsched.Fail("[dropped] %s: %d drops counted, want %d", trail, b.Dropped(), dropped)
			}
		}
		for _, s := range subs {
			es := drain(s.ch)
			if !slices.Equal(versions(es), s.q) {
				vsched.Fail("[content] %s: left to read %v, want %v", trail, versions(es), s.q)
			}
		}
		vsched.Outcome("d%d s%d v%d", dropped, len(subs), ver)
		for _, s := range subs {
			s.cancel()
		}
	}
}

// many: with many subscribers, some of them not reading, each gets what it has
// room for.
func many(p *kit.P) {
	limit := 300
	if p.Deep() {
		limit = 5001
	}
	for _, n := range kit.Sizes(limit) {
		id := fmt.Sprintf("%d subscribers", n)
		if !p.Begin("%s", id) {
			continue
		}
		b := eventbus.New()
		var chs []<-chan eventbus.Event
		var offs []func()
		for range n {
			ch, off := b.Subscribe(context.Background())
			chs, offs = append(chs, ch), append(offs, off)
		}
		if b.SubscriberCount() != n {
			p.Fail(id, "many", "%d subscribers counted as %d", n, b.SubscriberCount())
			return
		}
		dropped := 0
		for round := range 3 {
			for i := range capacity + round {
				b.Publish(eventbus.Event{Type: "t", Payload: round*100 + i})
				if i >= capacity {
					dropped += n
				}
			}
			if b.Dropped() != uint64(dropped) {
				p.Fail(id, "dropped", "%d subscribers, round %d: %d drops counted, %d happened", n, round, b.Dropped(), dropped)
				return
			}
			for s, ch := range chs {
				got := drain(ch)
				if len(got) != capacity {
					p.Fail(id, "lost", "subscriber %d of %d: %d events readable in round %d", s, n, len(got), round)
					return
				}
				for i, e := range got {
					if e.Payload != round*100+i || e.Version != got[0].Version+uint64(i) {
						p.Fail(id, "many", "subscriber %d of %d: event %d is %v version %d", s, n, i, e.Payload, e.Version)
						return
					}
				}
			}
		}
		for i := 0; i < n; i += 2 {
			offs[i]()
		}
		v := b.Publish(eventbus.Event{Type: "last"})
		for s, ch := range chs {
			if got := drain(ch); len(got) != s%2 || len(got) > 0 && got[0].Version != v {
				p.Fail(id, "lost", "subscriber %d of %d: %v", s, n, got)
				return
			}
		}
		for i := 1; i < n; i += 2 {
			offs[i]()
		}
		p.Outcome("%d", n)
	}
}

// steady: a subscriber that keeps up gets every event of a long history.
func steady(p *kit.P) {
	for step := 1; step <= capacity; step++ {
		id := fmt.Sprintf("%d at a time", step)
		if !p.Begin("%s", id) {
			continue
		}
		b := eventbus.New()
		ch, off := b.Subscribe(context.Background())
		last := uint64(0)
		for n := 0; n < 5000; n += step {
			for range step {
				b.Publish(eventbus.Event{Type: "t", Payload: n})
			}
			for _, e := range drain(ch) {
				if last++; e.Version != last {
					p.Fail(id, "lost", "event %d came as version %d", last, e.Version)
					return
				}
			}
		}
		if int(last) < 5000 || b.Dropped() != 0 {
			p.Fail(id, "lost", "%d events received, %d dropped", last, b.Dropped())
			return
		}
		off()
		p.Outcome("%d", step)
	}
}

// idle: however long a subscriber does not read, it loses what has no room,
// all of that is counted, and what has room afterwards arrives.
func idle(p *kit.P) {
	for _, n := range []int{100, 256, 1000, 5000, 70000, 300000} {
		id := fmt.Sprintf("idle for %d", n)
		if n > 100000 && !p.Deep() || !p.Begin("%s", id) {
			continue
		}
		b := eventbus.New()
		slow, offSlow := b.Subscribe(context.Background())
		fast, offFast := b.Subscribe(context.Background())
		last, dropped := uint64(0), uint64(0)
		for range 2 {
			for i := range n {
				last = b.Publish(eventbus.Event{Type: "t"})
				if i >= capacity {
					dropped++
				}
				if got := drain(fast); len(got) != 1 || got[0].Version != last {
					p.Fail(id, "lost", "publication %d: the subscriber that reads received %v", last, versions(got))
					return
				}
			}
			if b.Dropped() != dropped || b.SubscriberCount() != 2 {
				p.Fail(id, "dropped", "%d drops counted, %d happened; %d subscribers", b.Dropped(), dropped, b.SubscriberCount())
				return
			}
			got := drain(slow)
			if len(got) != capacity || got[0].Version != last-uint64(n)+1 || got[capacity-1].Version != last-uint64(n)+capacity {
				p.Fail(id, "lost", "after %d events the idle subscriber reads %v", n, versions(got))
				return
			}
		}
		offSlow()
		offFast()
		p.Outcome("%d", n)
	}
}

// faithful: an event arrives with every field as published, whatever it holds.
func faithful(p *kit.P) {
	types := []string{"", "t", "node.joined", strings.Repeat("x", 300), "\x00", "é\xff"}
	payloads := []any{nil, 0, "", "text", []byte(nil), []byte("b"), map[string]int{"a": 1}, errors.New("e"), &struct{ X int }{1}, (*int)(nil), false, 0.5, eventbus.Event{Type: "in"}}
	now := time.Now()
	stamps := []time.Time{{}, now, now.Add(24 * time.Hour), now.Add(1000 * time.Hour), now.Add(-time.Second), now.Add(-1000000 * time.Hour), time.Unix(0, 0), time.Unix(-5, 7), now.In(time.FixedZone("z", 3600)), time.Time{}.Add(1)}
	for i, ty := range types {
		for j, pl := range payloads {
			for k, ts := range stamps {
				id := fmt.Sprintf("type %d payload %d time %d", i, j, k)
				if !p.Begin("%s", id) {
					continue
				}
				b := eventbus.New()
				a, offA := b.Subscribe(context.Background())
				c, offC := b.Subscribe(context.Background())
				for n, preset := range []uint64{0, 1, 7, 1 << 63} {
					in := eventbus.Event{Type: ty, Payload: pl, Timestamp: ts, Version: preset}
					before := time.Now()
					v := b.Publish(in)
					after := time.Now()
					if v != uint64(n+1) {
						p.Fail(id, "version", "publication %d with Version %d preset was given version %d", n+1, preset, v)
						return
					}
					for s, ch := range []<-chan eventbus.Event{a, c} {
						es := drain(ch)
						if len(es) != 1 {
							p.Fail(id, "lost", "subscriber %d received %d events", s, len(es))
							return
						}
						e := es[0]
						if e.Type != ty || e.Version != v || !reflect.DeepEqual(e.Payload, pl) {
							p.Fail(id, "content", "published %+v as version %d, received %+v", in, v, e)
							return
						}
						if ts.IsZero() && (e.Timestamp.Before(before) || e.Timestamp.After(after)) || !ts.IsZero() && (!e.Timestamp.Equal(ts) || e.Timestamp.String() != ts.String()) {
							p.Fail(id, "timestamp", "published with time %v, received %v", ts, e.Timestamp)
							return
						}
					}
				}
				offA()
				offC()
				p.Outcome("%v", ts.IsZero())
			}
		}
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "publishers-2x2", Body: publishers(2, 2, 2), Quick: vsched.Opts{Preempt: 3}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "publishers-3x1", Body: publishers(3, 1, 1), Quick: vsched.Opts{Preempt: 3}, Deep: vsched.Opts{Preempt: 6}},
		kit.Scenario{Name: "overflow-15", Body: overflow(15, 2, 2, 2), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true},
		kit.Scenario{Name: "overflow-13", Body: overflow(13, 2, 3, 1), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 4}},
		kit.Scenario{Name: "joining", Body: joining, Quick: vsched.Opts{Preempt: 3}, Deep: vsched.Opts{Preempt: 6}, Race: true},
		kit.Scenario{Name: "many", Plain: many},
		kit.Scenario{Name: "steady", Plain: steady},
		kit.Scenario{Name: "faithful", Plain: faithful},
		kit.Scenario{Name: "idle", Plain: idle},
		kit.Scenario{Name: "sequences-5", Body: sequences(5), Quick: vsched.Opts{}, Deep: vsched.Opts{MaxSteps: 20000}, Weight: 2},
		kit.Scenario{Name: "sequences-7", Body: sequences(7), Quick: vsched.Opts{}, Deep: vsched.Opts{MaxSteps: 20000}, Weight: 3, DeepOnly: true},
	)
}
