// Package verrgroup mirrors golang.org/x/sync/errgroup.
package verrgroup

import (
	"context"
	"sync/atomic"

	"github.com/hyp3rd/hypercache/internal/zzverif/vctx"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsync"
)

type Group struct {
	cancel func(error)
	wg     vsync.WaitGroup
	once   vsync.Once
	err    error
	limit  int64
	active atomic.Int64 // plain: a bookkeeping count
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := vctx.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) SetLimit(n int) { g.limit = int64(n) }

func (g *Group) TryGo(f func() error) bool {
	if g.limit > 0 && g.active.Load() >= g.limit {
		return false
	}
	g.start(f)
	return true
}

func (g *Group) Go(f func() error) {
	if g.limit > 0 && g.active.Load() >= g.limit {
		if vsched.Active() {
			vsched.Block("errgroup.Go", func() bool { return g.active.Load() < g.limit })
		}
	}
	g.start(f)
}

func (g *Group) start(f func() error) {
	g.wg.Add(1)
	g.active.Add(1)
	vsched.Go(func() {
		defer g.wg.Done()
		defer func() { g.active.Add(-1) }()
		if err := f(); err != nil {
			g.once.Do(func() {
				g.err = err
				if g.cancel != nil {
					g.cancel(err)
				}
			})
		}
	})
}
