package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/web"
)

type frame struct {
	event, data, retry string
	bad                string
}

func (f frame) json() (out any) {
	_ = json.Unmarshal([]byte(f.data), &out)
	return
}

// stream is a client of /cluster/events.
type stream struct {
	status int
	hdr    http.Header
	cancel func()
	ch     chan frame // closed at the end of the stream
	got    []frame
}

func open(addr string) *stream {
	ctx, cancel := context.WithCancel(bg)
	s := &stream{cancel: cancel, ch: make(chan frame, 10000)}
	req, err := http.NewRequestWithContext(ctx, "GET", "http://"+addr+"/cluster/events", nil)
	if err != nil {
		cancel()
		close(s.ch)
		return s
	}
	resp, err := (&http.Client{Transport: &http.Transport{DisableKeepAlives: true}}).Do(req)
	if err != nil {
		s.status = -1
		cancel()
		close(s.ch)
		return s
	}
	s.status, s.hdr = resp.StatusCode, resp.Header
	go func() {
		defer close(s.ch)
		defer resp.Body.Close()
		r := bufio.NewReader(resp.Body)
		var f frame
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				return
			}
			l = strings.TrimSuffix(l, "\n")
			k, v, ok := strings.Cut(l, ": ")
			switch {
			case l == "":
				s.ch <- f
				f = frame{}
			case !ok:
				f.bad = l
			case k == "event" && f.event == "":
				f.event = v
			case k == "data" && f.data == "":
				f.data = v
			case k == "retry" && f.retry == "":
				f.retry = v
			default:
				f.bad = l
			}
		}
	}()
	return s
}

// next is the next frame; false: none comes, or the stream ended.
func (s *stream) next() (frame, bool) {
	select {
	case f, ok := <-s.ch:
		if ok {
			s.got = append(s.got, f)
		}
		return f, ok
	case <-time.After(web.Patience):
		return frame{bad: "nothing comes"}, false
	}
}

// ended waits for the end; frames still to be read count.
func (s *stream) ended() bool {
	for {
		f, ok := s.next()
		if !ok {
			return f.bad == ""
		}
	}
}

// initial reads what every stream begins with.
func (s *stream) initial(members, heartbeat any) string {
	if s.status != 200 || !strings.HasPrefix(s.hdr.Get("Content-Type"), "text/event-stream") {
		return fmt.Sprintf("the stream begins with %d %v", s.status, s.hdr)
	}
	if cc := s.hdr.Get("Cache-Control"); cc != "no-cache" {
		return "Cache-Control: " + cc
	}
	if f, ok := s.next(); !ok || f.retry != "5000" || f.event != "" || f.data != "" {
		return fmt.Sprintf("the first frame is %+v", f)
	}
	if f, ok := s.next(); !ok || f.event != "members" || !reflect.DeepEqual(f.json(), members) {
		return fmt.Sprintf("the second frame is %+v, want the members %v", f, members)
	}
	if f, ok := s.next(); !ok || f.event != "heartbeat" || !reflect.DeepEqual(f.json(), heartbeat) {
		return fmt.Sprintf("the third frame is %+v, want the heartbeat %v", f, heartbeat)
	}
	return ""
}

// payloads are what is published.
func payload(i int) (string, any) {
	switch i % 5 {
	case 0:
		return "members", map[string]any{"members": []string{"a", "line\nbreak\r\n", "event: x"}, "n": i}
	case 1:
		return "heartbeat", map[string]any{"n": i}
	case 2:
		return "other", strings.Repeat("\u2028é<&", 3000)
	case 3:
		return "empty", nil
	}
	return "list", []int{i, i, i}
}

// streams runs every sequence of events, clients which come and clients which go.
var streams = kit.Scenario{Name: "streams", Weight: 3, Plain: func(p *kit.P) {
	depth := 4
	if p.Deep() {
		depth = 5
	}
	total := 1
	for range depth {
		total *= 4
	}
	for c := range total {
		seq := ""
		for i, x := 0, c; i < depth; i, x = i+1, x/4 {
			seq += []string{"P", "C", "G", "M"}[x%4]
		}
		if !strings.Contains(seq, "C") || !p.Begin("%s", seq) {
			continue
		}
		b := &base{n: 1}
		eb := eventbus.New()
		s, addr := start(p, seq, kinds[0].make(b, eb))
		var ss []*stream
		n := 0
		publish := func() {
			n++
			t, v := payload(n)
			eb.Publish(eventbus.Event{Type: t, Payload: v})
			for i, x := range ss {
				f, ok := x.next()
				if !ok || f.event != t || !reflect.DeepEqual(f.json(), asJSON(v)) || f.bad != "" {
					p.Fail(seq, "frame", "%s: client %d gets %.200v (%v), want %s %.200v", seq, i, f, ok, t, v)
				}
			}
		}
		for _, o := range seq {
			switch o {
			case 'P':
				publish()
			case 'C':
				x := open(addr)
				m, r, v := intro{b: b}.DistMembershipSnapshot()
				if e := x.initial(asJSON(map[string]any{"members": m, "replication": r, "virtualNodes": v}), asJSON(intro{b: b}.DistHeartbeatMetrics())); e != "" {
					p.Fail(seq, "initial", "%s: client %d: %s", seq, len(ss), e)
				}
				ss = append(ss, x)
				if k := eb.SubscriberCount(); k != len(ss) {
					p.Fail(seq, "subscribers", "%s: %d subscribers of %d clients", seq, k, len(ss))
				}
			case 'G': // the oldest goes
				if len(ss) > 0 {
					ss[0].cancel()
					ss = ss[1:]
					if !web.Until(func() bool { publish(); return eb.SubscriberCount() == len(ss) }) {
						p.Fail(seq, "gone", "%s: %d subscribers of %d clients, though one has gone long ago", seq, eb.SubscriberCount(), len(ss))
					}
				}
			case 'M': // the membership changes
				b.n++
			}
		}
		p.Outcome("%d %d", len(ss), n)
		p.Steps += int64(n)
		shutdown(p, seq, s)
		for i, x := range ss {
			k := len(x.got)
			if !x.ended() {
				p.Fail(seq, "end", "%s: the stream of client %d does not end with Shutdown", seq, i)
			}
			if len(x.got) != k {
				p.Fail(seq, "more", "%s: client %d gets %v, which nobody sent", seq, i, x.got[k:])
			}
		}
		if !web.Until(func() bool { return eb.SubscriberCount() == 0 }) {
			p.Fail(seq, "left", "%s: %d subscribers after Shutdown", seq, eb.SubscriberCount())
		}
	}
}}

// crowds: events while a client connects, and more than fit.
var crowds = kit.Scenario{Name: "crowds", Plain: func(p *kit.P) {
	for _, during := range []int{1, 2, 5, 16} {
		id := fmt.Sprintf("%d during the snapshot", during)
		if !p.Begin("%s", id) {
			continue
		}
		b := &base{n: 1}
		eb := eventbus.New()
		n, armed := 0, true
		c := struct {
			*base
			dist
			intro
			bus
		}{b, dist{b: b}, intro{b: b, also: func() {
			if !armed {
				return
			}
			armed = false
			for range during {
				n++
				eb.Publish(eventbus.Event{Type: "members", Payload: n})
			}
		}}, bus{b, eb}}
		s, addr := start(p, id, c)
		x := open(addr)
		m, r, v := intro{b: b}.DistMembershipSnapshot()
		if e := x.initial(asJSON(map[string]any{"members": m, "replication": r, "virtualNodes": v}), asJSON(intro{b: b}.DistHeartbeatMetrics())); e != "" {
			p.Fail(id, "initial", "%s: %s", id, e)
		}
		for i := range during {
			if f, ok := x.next(); !ok || f.event != "members" || f.data != fmt.Sprint(i+1) {
				p.Fail(id, "during", "%s: event %d, published while the client connected: %+v", id, i+1, f)
			}
		}
		p.Outcome("%d", n)
		shutdown(p, id, s)
		x.ended()
	}
	for _, clients := range []int{1, 2, 4} {
		for _, many := range []int{16, 100, 1000} {
			id := fmt.Sprintf("%d events at once to %d", many, clients)
			if !p.Begin("%s", id) {
				continue
			}
			b := &base{n: 1}
			eb := eventbus.New()
			s, addr := start(p, id, kinds[0].make(b, eb))
			var ss []*stream
			for range clients {
				x := open(addr)
				for range 3 {
					x.next()
				}
				ss = append(ss, x)
			}
			for i := range many {
				eb.Publish(eventbus.Event{Type: "members", Payload: i})
			}
			// every client still hears what comes now
			if !web.Until(func() bool {
				d := eb.Dropped()
				eb.Publish(eventbus.Event{Type: "last"})
				return eb.Dropped() == d
			}) {
				p.Fail(id, "stuck", "%s: the clients do not read on", id)
			}
			got := 0
			for i, x := range ss {
				last := -1
				for {
					f, ok := x.next()
					if !ok || f.bad != "" {
						p.Fail(id, "frame", "%s: client %d: %+v", id, i, f)
						break
					}
					if f.event == "last" {
						break
					}
					var k int
					if err := json.Unmarshal([]byte(f.data), &k); err != nil || k <= last {
						p.Fail(id, "order", "%s: client %d gets %q after %d", id, i, f.data, last)
					}
					last = k
					got++
				}
			}
			if d := int(eb.Dropped()); got > many*clients || got+d < many*clients {
				p.Fail(id, "count", "%s: %d events got, %d dropped", id, got, d)
			}
			p.Outcome("%d %d", clients, many)
			shutdown(p, id, s)
			for _, x := range ss {
				x.ended()
			}
		}
	}
}}

var _ = hypercache.NewManagementHTTPServer
