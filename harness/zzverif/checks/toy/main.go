package main

import (
	"context"
	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vatomic"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsync"
)

func main() {
	_ = eventbus.New
	_ = context.Background
	kit.Main(
		kit.Scenario{Name: "mutex-ok", Race: true, Quick: vsched.Opts{Preempt: 2}, Body: func() {
			var mu vsync.Mutex
			n := 0
			var g vsched.Group
			for range 3 {
				g.Go(func() { mu.Lock(); n++; mu.Unlock() })
			}
			g.Wait()
			vsched.Outcome("%d", n)
			if n != 3 {
				vsched.Fail("[n] %d", n)
			}
		}},
		kit.Scenario{Name: "race", Race: true, Quick: vsched.Opts{Preempt: 2}, Body: func() {
			n := 0
			var g vsched.Group
			var a vatomic.Int64
			for range 2 {
				g.Go(func() { n++; a.Add(1) })
			}
			g.Wait()
			vsched.Outcome("%d", n)
		}},
		kit.Scenario{Name: "atomic-hb-ok", Race: true, Quick: vsched.Opts{Preempt: 2}, Body: func() {
			n := 0
			var g vsched.Group
			var a vatomic.Int64
			g.Go(func() { n = 5; a.Store(1) })
			g.Go(func() {
				if a.Load() == 1 {
					n++
					vsched.Outcome("seen")
				}
			})
			g.Wait()
			vsched.Outcome("%d", n)
		}},
		kit.Scenario{Name: "lost-update", Quick: vsched.Opts{Preempt: 2}, Body: func() {
			var g vsched.Group
			var a vatomic.Int64
			for range 2 {
				g.Go(func() { v := a.Load(); a.Store(v + 1) })
			}
			g.Wait()
			vsched.Outcome("%d", a.Load())
			if a.Load() != 2 {
				vsched.Fail("[lost] %d", a.Load())
			}
		}},
		kit.Scenario{Name: "chan-ok", Race: true, Quick: vsched.Opts{Preempt: 2}, Body: func() {
			var g vsched.Group
			c := make(chan int)
			d := make(chan int, 1)
			x := 0
			g.Go(func() { x = 7; vsched.SendTo(c).Send(1); vsched.Close(c) })
			g.Go(func() {
				for v := range vsched.RangeChan(c) {
					vsched.SendTo(d).Send(v + x)
				}
				vsched.Close(d)
			})
			s := 0
			for v := range vsched.RangeChan(d) {
				s += v
			}
			g.Wait()
			if s != 8 {
				vsched.Fail("[sum] %d", s)
			}
		}},
		kit.Scenario{Name: "deadlock", Quick: vsched.Opts{Preempt: 2}, Body: func() {
			var g vsched.Group
			var a, b vsync.Mutex
			g.Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
			g.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
			g.Wait()
		}},
	)
}
