package main

import (
	"context"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/web"
)

// lifecycle runs every sequence of starts, stops and requests, on an address
// which may be taken.
var lifecycle = kit.Scenario{Name: "lifecycle", Weight: 2, Plain: func(p *kit.P) {
	const steps = "SXTFRC" // Start, Shutdown, the address is taken, freed, a request, the context ends
	depth := 4
	if p.Deep() {
		depth = 5
	}
	total := 1
	for range depth {
		total *= len(steps)
	}
	for c := range total {
		seq := ""
		for i, x := 0, c; i < depth; i, x = i+1, x/len(steps) {
			seq += string(steps[x%len(steps)])
		}
		if i, j := strings.IndexByte(seq, 'S'), strings.LastIndexByte(seq, 'X'); i >= 0 && i < j && strings.Contains(seq[j:], "S") {
			continue // starting a server again is not promised
		}
		if !p.Begin("%s", seq) {
			continue
		}
		var taken net.Listener
		addr := web.Addr()
		b := &base{}
		ctx, cancel := context.WithCancel(bg)
		over := false
		s := hypercache.NewManagementHTTPServer(addr)
		up := false
		release := func() {
			if taken != nil {
				taken.Close()
				taken = nil
			}
		}
		for _, o := range seq {
			switch o {
			case 'S':
				err := s.Start(ctx, kinds[0].make(b, eventbus.New()))
				switch {
				case up && err != nil:
					p.Fail(seq, "again", "%s: Start of a running server: %v", seq, err)
				case !up && taken != nil && err == nil:
					p.Fail(seq, "taken", "%s: Start on a taken address succeeds", seq)
				case !up && taken == nil && !over && err != nil:
					p.Fail(seq, "start", "%s: Start: %v", seq, err)
				}
				up = up || err == nil
			case 'X':
				dl, done := context.WithTimeout(bg, web.Patience)
				if err := s.Shutdown(dl); err != nil {
					p.Fail(seq, "shutdown", "%s: Shutdown: %v", seq, err)
				}
				done()
				if up && web.Up(addr) {
					p.Fail(seq, "up", "%s: the server accepts connections after Shutdown", seq)
				}
				up = false
			case 'T':
				if !up && taken == nil {
					var err error
					if taken, err = net.Listen("tcp", addr); err != nil {
						p.Fail(seq, "held", "%s: the address is not free while the server is not up: %v", seq, err)
					}
				}
			case 'F':
				release()
			case 'R':
				if up {
					if a := call(addr, "POST", "/clear", ""); a.status != 200 {
						p.Fail(seq, "request", "%s: %v", seq, a)
					}
				}
			case 'C':
				cancel()
				over = true
			}
			if want := map[bool]string{true: addr, false: ""}[up]; s.Address() != want && !(strings.Contains(seq, "X") && s.Address() == addr) {
				p.Fail(seq, "address", "%s: the address is %q, want %q", seq, s.Address(), want)
			}
			if err := s.LastServeError(); err != nil {
				p.Fail(seq, "serve-error", "%s: %v", seq, err)
			}
			p.Steps++
		}
		p.Outcome("%v %v", up, over)
		release()
		cancel()
		if up {
			shutdown(p, seq, s)
		}
	}
}}

// atOnce: a server is shut down before it has begun to serve, which is when
// one thread alone runs.
var atOnce = kit.Scenario{Name: "at once", Single: true, Plain: func(p *kit.P) {
	for _, yields := range []int{0, 1, 2, 5, 20} {
		for _, threads := range []int{1, 2, 8} {
			for try := range 5 {
				id := fmt.Sprintf("%d yields, %d threads, %d", yields, threads, try)
				if !p.Begin("%s", id) {
					continue
				}
				s := hypercache.NewManagementHTTPServer(web.Addr())
				c := kinds[0].make(&base{}, eventbus.New())
				old := runtime.GOMAXPROCS(threads)
				err := s.Start(bg, c)
				for range yields {
					runtime.Gosched()
				}
				serr := s.Shutdown(bg)
				runtime.GOMAXPROCS(old)
				if err != nil || serr != nil {
					p.Fail(id, "errors", "%s: Start %v, Shutdown %v", id, err, serr)
				}
				time.Sleep(20 * time.Millisecond)
				if a := call(s.Address(), "GET", "/health", ""); a.status > 0 {
					p.Fail(id, "up", "%s: the server serves after Shutdown: %v", id, a)
				} else if web.Up(s.Address()) {
					p.Fail(id, "up", "%s: the server listens after Shutdown", id)
				}
				if err := s.LastServeError(); err != nil {
					p.Fail(id, "serve-error", "%s: %v", id, err)
				}
				p.Outcome("%d %d", yields, threads)
			}
		}
	}
}}

// inflight: operations which are under way when the server stops get told, and
// Shutdown waits for them.
var inflight = kit.Scenario{Name: "in flight", Plain: func(p *kit.P) {
	for _, path := range []string{"/clear", "/evict"} {
		for _, n := range []int{1, 2, 4} {
			for _, how := range []string{"shutdown", "context", "stubborn"} {
				id := fmt.Sprintf("%d %s, %s", n, path, how)
				if !p.Begin("%s", id) {
					continue
				}
				b := &base{}
				in := make(chan struct{}, n)
				release := make(chan struct{})
				wait := func(ctx context.Context) {
					in <- struct{}{}
					if how == "stubborn" {
						<-release
						return
					}
					select {
					case <-ctx.Done():
					case <-time.After(web.Patience):
						p.Fail(id, "not-told", "%s: the operation is not told to end", id)
					}
				}
				b.clear = func(ctx context.Context) error { wait(ctx); return ctx.Err() }
				b.evict = wait
				ctx, cancel := context.WithCancel(bg)
				s := hypercache.NewManagementHTTPServer(web.Addr())
				if err := s.Start(ctx, kinds[0].make(b, eventbus.New())); err != nil {
					p.Fail(id, "start", "%s: %v", id, err)
				}
				var wg sync.WaitGroup
				as := make([]ans, n)
				for i := range n {
					wg.Go(func() { as[i] = call(s.Address(), "POST", path, "") })
				}
				for range n {
					<-in
				}
				switch how {
				case "context":
					cancel()
					wg.Wait()
				case "stubborn":
					dl, done := context.WithTimeout(bg, 50*time.Millisecond)
					t := time.Now()
					if err := s.Shutdown(dl); err == nil {
						p.Fail(id, "waits", "%s: Shutdown returns nil while operations run", id)
					}
					done()
					if d := time.Since(t); d > web.Patience {
						p.Fail(id, "deadline", "%s: Shutdown with a deadline of 50ms takes %v", id, d)
					}
					if web.Up(s.Address()) {
						p.Fail(id, "up", "%s: it listens after Shutdown", id)
					}
					close(release)
					wg.Wait()
				}
				if how != "stubborn" {
					shutdown(p, id, s)
				}
				wg.Wait()
				cancel()
				for _, a := range as {
					p.Outcome("%s %d", path, a.status)
					if path == "/clear" && how != "stubborn" && a.status != 500 || path == "/evict" && a.status != 202 && how != "stubborn" {
						p.Fail(id, "answer", "%s: %v", id, a)
					}
				}
			}
		}
	}
}}

// limits: options out of range keep the defaults, others hold.
var limits = kit.Scenario{Name: "limits", Plain: func(p *kit.P) {
	for _, l := range []int{-5, 0, 1, 100, 4096, 1 << 20, 5 << 20} {
		for _, d := range []int{-1, 0, 1} {
			eff := l
			if l <= 0 {
				eff = 4 << 20
			}
			id := fmt.Sprintf("body limit %d, %+d", l, d)
			if !p.Begin("%s", id) {
				continue
			}
			b := &base{}
			s, addr := start(p, id, kinds[0].make(b, nil), hypercache.WithMgmtBodyLimit(l))
			a := call(addr, "POST", "/clear", strings.Repeat("x", eff+d))
			c := b.take()
			p.Outcome("%d", a.status)
			if d <= 0 && (a.status != 200 || len(c) != 1) || d > 0 && (a.status == 200 || len(c) != 0) {
				p.Fail(id, "body", "%s: a body of %d: %v, calls %v", id, eff+d, a, c)
			}
			shutdown(p, id, s)
		}
	}
	for _, n := range []int{-1, 0, 1, 2, 3} {
		id := fmt.Sprintf("concurrency %d", n)
		if !p.Begin("%s", id) {
			continue
		}
		b := &base{}
		in, release := make(chan struct{}, 20), make(chan struct{})
		b.clear = func(context.Context) error { in <- struct{}{}; <-release; return nil }
		s, addr := start(p, id, kinds[0].make(b, nil), hypercache.WithMgmtConcurrency(n))
		eff := n
		if n <= 0 {
			eff = 8
		}
		var wg sync.WaitGroup
		as := make([]ans, eff)
		for i := range eff {
			wg.Go(func() { as[i] = call(addr, "POST", "/clear", "") })
		}
		for range eff {
			select {
			case <-in:
			case <-time.After(web.Patience):
				p.Fail(id, "few", "%s: fewer than %d requests run at once", id, eff)
			}
		}
		if n > 0 {
			if a := call(addr, "POST", "/clear", ""); a.status == 200 || len(in) > 0 {
				p.Fail(id, "many", "%s: one request more than %d: %v", id, n, a)
			}
		}
		close(release)
		wg.Wait()
		for _, a := range as {
			p.Outcome("%d", a.status)
			if a.status != 200 {
				p.Fail(id, "answer", "%s: %v", id, a)
			}
		}
		shutdown(p, id, s)
	}
	for _, what := range []string{"idle", "read"} {
		id := what + " timeout"
		if !p.Begin("%s", id) {
			continue
		}
		b := &base{}
		opt := hypercache.WithMgmtIdleTimeout(100 * time.Millisecond)
		if what == "read" {
			opt = hypercache.WithMgmtReadTimeout(100 * time.Millisecond)
		}
		s, addr := start(p, id, kinds[0].make(b, nil), opt)
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			p.Fail(id, "dial", "%s: %v", id, err)
			continue
		}
		req := "POST /clear HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n"
		if what == "read" {
			req = "POST /clear HTTP/1.1\r\nHost: x\r\nContent-Len"
		}
		fmt.Fprint(conn, req)
		conn.SetReadDeadline(time.Now().Add(web.Patience))
		buf := make([]byte, 4096)
		var rerr error
		for rerr == nil {
			_, rerr = conn.Read(buf)
		}
		if ne, ok := rerr.(net.Error); ok && ne.Timeout() {
			p.Fail(id, "open", "%s: the connection stays open", id)
		}
		if c := b.take(); (len(c) == 1) != (what == "idle") {
			p.Fail(id, "calls", "%s: calls %v", id, c)
		}
		p.Outcome("%s", what)
		conn.Close()
		shutdown(p, id, s)
	}
	id := "the default write timeout"
	if p.Begin("%s", id) { // a stream lives as long as its client
		eb := eventbus.New()
		s, addr := start(p, id, kinds[0].make(&base{}, eb), hypercache.WithMgmtReadTimeout(200*time.Millisecond), hypercache.WithMgmtIdleTimeout(200*time.Millisecond))
		x := open(addr)
		for range 3 {
			x.next()
		}
		time.Sleep(time.Second)
		eb.Publish(eventbus.Event{Type: "late", Payload: 1})
		if f, ok := x.next(); !ok || f.event != "late" {
			p.Fail(id, "cut", "%s: a stream without events for a second: %+v", id, f)
		}
		shutdown(p, id, s)
	}
	id = "nothing yet"
	if p.Begin("%s", id) {
		var no *hypercache.ManagementHTTPServer
		s := hypercache.NewManagementHTTPServer("nowhere")
		if no.LastServeError() != nil || s.LastServeError() != nil || s.Address() != "" || s.Shutdown(bg) != nil {
			p.Fail(id, "zero", "a server which was not started has errors or an address")
		}
		if err := s.Start(bg, kinds[0].make(&base{}, nil)); err == nil || s.Address() != "" || s.Shutdown(bg) != nil {
			p.Fail(id, "nowhere", "Start nowhere: %v, address %q", err, s.Address())
		}
	}
}}
