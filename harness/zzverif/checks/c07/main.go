// C07: subscriptions end cleanly, whichever way and in whatever order.
package main

import (
	"context"
	"fmt"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vctx"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

// state of a channel nobody else uses: events left, closed?
func look(ch <-chan eventbus.Event) (n int, closed bool) {
	for {
		select {
		case _, ok := <-ch:
			if !ok {
				return n, true
			}
			n++
		default:
			return n, false
		}
	}
}

// ends: one subscription ended by every combination of two of {unsubscribe,
// unsubscribe again, context} while events are published.
func ends() {
	b := eventbus.New()
	ctx, cancel := vctx.WithCancel(context.Background())
	ch, unsub := b.Subscribe(ctx)
	octx, ocancel := vctx.WithCancel(context.Background())
	och, _ := b.Subscribe(octx)
	b.Publish(eventbus.Event{Type: "a"})
	acts := []func(){unsub, cancel}
	names := []string{"unsubscribe", "cancel"}
	x, y := vsched.Choose(2), vsched.Choose(2)
	var g vsched.Group
	g.Go(acts[x])
	g.Go(acts[y])
	g.Go(func() { b.Publish(eventbus.Event{Type: "b"}) })
	g.Wait()
	vsched.Quiesce()
	if c := b.SubscriberCount(); c != 1 {
		vsched.Fail("[count] after %s and %s %d subscribers remain, want the other one", names[x], names[y], c)
	}
	b.Publish(eventbus.Event{Type: "late"})
	n, closed := look(ch)
	if !closed {
		vsched.Fail("[open] after %s and %s the channel is still open", names[x], names[y])
	}
	if n < 1 || n > 2 {
		vsched.Fail("[buffered] %d events readable after the end, want the 1 or 2 delivered before it", n)
	}
	if on, oc := look(och); oc || on != 3 {
		vsched.Fail("[isolation] the other subscriber received %d of 3 events, closed=%v", on, oc)
	}
	unsub()
	cancel()
	if c := b.SubscriberCount(); c != 1 {
		vsched.Fail("[count] ending a subscription again changed the count to %d", c)
	}
	ocancel()
	vsched.Quiesce()
	if _, oc := look(och); !oc || b.SubscriberCount() != 0 {
		vsched.Fail("[reap] a cancelled subscription was not reaped (closed=%v, count=%d)", oc, b.SubscriberCount())
	}
	if b.Dropped() != 0 {
		vsched.Fail("[dropped] %d drops", b.Dropped())
	}
	vsched.Outcome("%s %s %d", names[x], names[y], n)
}

// preCancelled: a context that is already over, and one that ends while
// Subscribe runs.
func preCancelled() {
	b := eventbus.New()
	ctx, cancel := vctx.WithCancel(context.Background())
	early := vsched.Choose(2) == 1
	if early {
		cancel()
	}
	var ch <-chan eventbus.Event
	var unsub func()
	var g vsched.Group
	g.Go(func() { ch, unsub = b.Subscribe(ctx) })
	g.Go(cancel)
	g.Go(func() { b.Publish(eventbus.Event{}) })
	g.Wait()
	vsched.Quiesce()
	n, closed := look(ch)
	if !closed || b.SubscriberCount() != 0 {
		vsched.Fail("[reap] cancelled subscription: closed=%v count=%d", closed, b.SubscriberCount())
	}
	unsub()
	vsched.Outcome("%v %d", early, n)
}

// blockedReader: a reader waiting on the channel is released by the end.
func blockedReader() {
	b := eventbus.New()
	ctx, cancel := vctx.WithCancel(context.Background())
	ch, unsub := b.Subscribe(ctx)
	var g vsched.Group
	got := 0
	g.Go(func() {
		for range vsched.RangeChan(ch) {
			got++
		}
	})
	g.Go(func() { b.Publish(eventbus.Event{}); b.Publish(eventbus.Event{}) })
	which := vsched.Choose(2)
	g.Go(func() {
		if which == 0 {
			cancel()
		} else {
			unsub()
		}
	})
	g.Wait()
	vsched.Outcome("%d %d", which, got)
}

// full: ending a subscription with a full buffer blocks nobody.
func full() {
	b := eventbus.New()
	ctx, cancel := vctx.WithCancel(context.Background())
	ch, unsub := b.Subscribe(ctx)
	for range 16 {
		b.Publish(eventbus.Event{})
	}
	var g vsched.Group
	g.Go(func() { b.Publish(eventbus.Event{}) })
	g.Go(unsub)
	g.Go(cancel)
	g.Go(func() { c2, u2 := b.Subscribe(context.Background()); u2(); look(c2) })
	g.Wait()
	vsched.Quiesce()
	n, closed := look(ch)
	if !closed || n != 16 || b.SubscriberCount() != 0 || b.Dropped() > 1 {
		vsched.Fail("[full] closed=%v readable=%d subscribers=%d dropped=%d", closed, n, b.SubscriberCount(), b.Dropped())
	}
	vsched.Outcome("%d", b.Dropped())
}

// ids: subscriptions made and ended concurrently never end each other.
func ids() {
	b := eventbus.New()
	var g vsched.Group
	var keep [2]<-chan eventbus.Event
	for i := range 2 {
		g.Go(func() {
			_, u := b.Subscribe(context.Background())
			keep[i], _ = b.Subscribe(context.Background())
			u()
		})
	}
	g.Wait()
	if c := b.SubscriberCount(); c != 2 {
		vsched.Fail("[count] %d subscribers, want 2", c)
	}
	b.Publish(eventbus.Event{})
	for i := range keep {
		if n, closed := look(keep[i]); n != 1 || closed {
			vsched.Fail("[isolation] surviving subscription %d: %d events, closed=%v", i, n, closed)
		}
	}
	vsched.Outcome("%d", vsched.ThreadID())
}

// many: of many subscriptions, any set ends and the others stay.
func many() {
	vsched.Calm(true)
	n := []int{20, 33, 40}[vsched.Choose(3)]
	which := vsched.Choose(5)
	how := vsched.Choose(3)
	b := eventbus.New()
	var chs []<-chan eventbus.Event
	var ends [][]func()
	for range n {
		ctx, cancel := vctx.WithCancel(context.Background())
		ch, off := b.Subscribe(ctx)
		chs, ends = append(chs, ch), append(ends, []func(){off, cancel})
	}
	gone := func(i int) bool {
		return []bool{i%2 == 0, i%2 == 1, i < n/2, i >= n/2, i != n-1}[which]
	}
	left := 0
	b.Publish(eventbus.Event{Type: "a"})
	for i := range n {
		if !gone(i) {
			left++
			continue
		}
		if how < 2 {
			ends[i][how]()
		} else {
			ends[i][i/2%2]()
		}
	}
	vsched.Quiesce()
	if c := b.SubscriberCount(); c != left {
		vsched.Fail("[count] %d of %d subscriptions remain, counted as %d", left, n, c)
	}
	b.Publish(eventbus.Event{Type: "b"})
	for i, ch := range chs {
		want := 2
		if gone(i) {
			want = 1
		}
		if got, closed := look(ch); got != want || closed != gone(i) {
			vsched.Fail("[isolation] subscription %d of %d, ended %v: %d events, closed %v", i, n, gone(i), got, closed)
		}
	}
	for i := range n {
		ends[i][1]()
		ends[i][0]()
	}
	vsched.Quiesce()
	if c := b.SubscriberCount(); c != 0 || b.Dropped() != 0 {
		vsched.Fail("[reap] %d subscriptions remain, %d drops", c, b.Dropped())
	}
	vsched.Outcome("%d", left)
}

// churn: however many subscriptions come and go, those that stay are theirs.
func churn(p *kit.P) {
	for _, n := range []int{15, 16, 255, 256, 257, 4096, 5000, 65536, 70000} {
		for _, how := range []string{"unsubscribe", "cancel", "both"} {
			id := fmt.Sprintf("%d by %s", n, how)
			if n > 5000 && how != "unsubscribe" && !p.Deep() || !p.Begin("%s", id) {
				continue
			}
			b := eventbus.New()
			first, offFirst := b.Subscribe(context.Background())
			var mid <-chan eventbus.Event
			var offMid func()
			for i := range n {
				if i == n/2 {
					mid, offMid = b.Subscribe(context.Background())
				}
				ctx, cancel := context.WithCancel(context.Background())
				ch, off := b.Subscribe(ctx)
				if how != "cancel" {
					off()
				}
				cancel()
				for range ch { // closes, here or soon
				}
				if how == "both" {
					off()
				}
			}
			last, offLast := b.Subscribe(context.Background())
			if c := b.SubscriberCount(); c != 3 {
				p.Fail(id, "count", "%d subscriptions remain, counted as %d", 3, c)
				return
			}
			b.Publish(eventbus.Event{Type: "t"})
			for i, ch := range []<-chan eventbus.Event{first, mid, last} {
				if got, closed := look(ch); got != 1 || closed {
					p.Fail(id, "isolation", "subscription %d of those that stay, after %d others: %d events, closed %v", i, n, got, closed)
					return
				}
			}
			offFirst()
			offMid()
			offLast()
			if c := b.SubscriberCount(); c != 0 {
				p.Fail(id, "count", "no subscription remains, counted as %d", c)
			}
			p.Outcome("%s", how)
		}
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "ends", Body: ends, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, Weight: 3},
		kit.Scenario{Name: "pre-cancelled", Body: preCancelled, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true},
		kit.Scenario{Name: "blocked-reader", Body: blockedReader, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}},
		kit.Scenario{Name: "many", Body: many, Quick: vsched.Opts{MaxSteps: 200000}, Deep: vsched.Opts{MaxSteps: 200000}},
		kit.Scenario{Name: "full", Body: full, Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "churn", Plain: churn},
		kit.Scenario{Name: "ids", Body: ids, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}},
	)
}
