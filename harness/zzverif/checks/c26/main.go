// C26: the worker pool.
package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

// job is one enqueued job and what became of it.
type job struct {
	name     string
	err      error
	runs     atomic.Int64
	done     atomic.Int64
	enqueued int // when Enqueue was called
	accepted int // when it returned
}

type rig struct {
	p     *hypercache.WorkerPool
	jobs  [8]*job      // by thread and position
	max   atomic.Int64 // most workers there may be
	now   atomic.Int64
	began atomic.Int64 // when the first Shutdown was called
}

func (r *rig) enqueue(slot int, name string, err error) {
	j := &job{name: name, err: err}
	r.jobs[slot] = j
	j.enqueued = vsched.Stamp()
	r.p.Enqueue(func() error {
		if n := r.now.Add(1); n > r.max.Load() {
			vsched.Fail("[workers] %d jobs run at once, there are at most %d workers", n, r.max.Load())
		}
		j.runs.Add(1)
		vsched.Point()
		j.done.Add(1)
		r.now.Add(-1)
		return j.err
	})
	j.accepted = vsched.Stamp()
}

// raise raises v to n.
func raise(v *atomic.Int64, n int64) {
	for {
		m := v.Load()
		if n <= m || v.CompareAndSwap(m, n) {
			return
		}
	}
}

type op struct {
	name string
	do   func(r *rig, t, slot int)
}

func enqueue(fails bool) op {
	name := "enqueue"
	if fails {
		name = "enqueue failing"
	}
	return op{name, func(r *rig, t, slot int) {
		var err error
		if fails {
			err = errors.New("failed")
		}
		r.enqueue(slot, fmt.Sprintf("%s by %d", name, t), err)
	}}
}

func resize(n int) op {
	return op{fmt.Sprintf("resize %d", n), func(r *rig, t, slot int) {
		raise(&r.max, int64(n))
		r.p.Resize(n)
	}}
}

var shutdown = op{"shutdown", func(r *rig, t, slot int) {
	r.began.CompareAndSwap(0, int64(vsched.Stamp()))
	r.p.Shutdown()
}}

// concurrent: threads of operations, then a Shutdown; every accepted job has
// run exactly once, none ran that came too late, and nothing is left behind.
func concurrent(workers, threads, n int, ops []op) func() {
	return func() {
		vsched.Calm(true)
		r := &rig{p: hypercache.NewWorkerPool(workers)}
		r.max.Store(int64(workers))
		vsched.Quiesce()
		plan := make([][]op, threads)
		what := ""
		last := 0
		for i := range threads {
			what += fmt.Sprintf(" T%d:", i+1)
			for j := range n {
				lo := 0
				if j == 0 {
					lo = last
				}
				k := lo + vsched.Choose(len(ops)-lo)
				if j == 0 {
					last = k
				}
				plan[i] = append(plan[i], ops[k])
				what += " " + ops[k].name
			}
		}
		vsched.Calm(false)
		var g vsched.Group
		for i := range threads {
			g.Go(func() {
				for j, o := range plan[i] {
					o.do(r, i+1, i*n+j)
				}
			})
		}
		g.Wait()
		shutdown.do(r, 0, 0)
		vsched.Quiesce()
		vsched.Calm(true)
		r.finish(what)
		vsched.Outcome("%s", r.sum())
	}
}

func (r *rig) sum() string {
	var out []string
	for _, j := range r.jobs {
		if j == nil {
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", j.name, j.runs.Load()))
	}
	slices.Sort(out)
	return strings.Join(out, " ")
}

// finish checks the pool after Shutdown.
func (r *rig) finish(what string) {
	failing := map[error]bool{}
	for _, j := range r.jobs {
		if j == nil {
			continue
		}
		n := j.runs.Load()
		switch {
		case n > 1:
			vsched.Fail("[twice] %s: %s ran %d times", what, j.name, n)
		case n == 0 && j.accepted < int(r.began.Load()):
			vsched.Fail("[lost] %s: %s was accepted before Shutdown and never ran", what, j.name)
		case n != j.done.Load():
			vsched.Fail("[unfinished] %s: %s has not finished when Shutdown is over", what, j.name)
		}
		if n > 0 && j.err != nil {
			failing[j.err] = true
		}
	}
	// too late
	late := false
	r.p.Enqueue(func() error { late = true; return nil })
	r.p.Resize(3)
	r.p.Resize(1)
	r.p.Shutdown()
	vsched.Quiesce()
	if late {
		vsched.Fail("[late] %s: a job enqueued after Shutdown ran", what)
	}
	// the errors, and the end of them
	got := map[error]bool{}
	for err := range vsched.RangeChan(r.p.Errors()) {
		if !failing[err] || got[err] {
			vsched.Fail("[errors] %s: error %v is not one a job returned, or came twice", what, err)
		}
		got[err] = true
	}
	if len(failing) == 1 && len(got) != 1 {
		vsched.Fail("[errors] %s: the only error was not reported", what)
	}
	if n := vsched.Live(); n > 1 {
		vsched.Fail("[leak] %s: %d goroutines are left", what, n-1)
	}
}

// width: after resizing to n, n jobs that wait for each other all get on, and
// no more than n run at once.
func width(resizes int, calm bool) func() {
	return func() {
		vsched.Calm(true)
		start := 1 + vsched.Choose(3)
		p := hypercache.NewWorkerPool(start)
		n := start
		what := fmt.Sprint(start)
		for range vsched.Choose(resizes + 1) {
			n = 1 + vsched.Choose(4)
			what += fmt.Sprint(" -> ", n)
			if vsched.Choose(2) == 1 {
				p.Enqueue(func() error { return nil })
			}
			if vsched.Choose(3) == 2 {
				p.Resize(-1)
			}
			p.Resize(n)
			if vsched.Choose(2) == 1 {
				vsched.Quiesce()
			}
		}
		vsched.Quiesce()
		vsched.Calm(calm)
		var in, most atomic.Int64
		gate := make(chan struct{})
		for range n + 1 {
			vsched.Go(func() {
				p.Enqueue(func() error {
					raise(&most, in.Add(1))
					vsched.Recv(gate)
					in.Add(-1)
					return nil
				})
			})
		}
		vsched.Quiesce()
		if most.Load() != int64(n) {
			vsched.Fail("[width] resized %s: %d of %d waiting jobs run at once, want %d", what, most.Load(), n+1, n)
		}
		vsched.Close(gate)
		vsched.Quiesce()
		p.Shutdown()
		vsched.Quiesce()
		if l := vsched.Live(); l > 1 || in.Load() != 0 {
			vsched.Fail("[leak] resized %s: %d goroutines are left, %d jobs", what, l-1, in.Load())
		}
		vsched.Outcome("%d", n)
	}
}

// unread: failing jobs, more than anybody reads the errors of.
func unread() {
	workers := 1 + vsched.Choose(2)
	n := workers*2 + 2
	p := hypercache.NewWorkerPool(workers)
	var ran atomic.Int64
	for range n {
		p.Enqueue(func() error { ran.Add(1); return errors.New("x") })
	}
	p.Shutdown()
	if ran.Load() != int64(n) {
		vsched.Fail("[lost] %d of %d failing jobs ran", ran.Load(), n)
	}
	errs := 0
	for range vsched.RangeChan(p.Errors()) {
		errs++
	}
	if errs < 1 || errs > n {
		vsched.Fail("[errors] %d errors of %d jobs", errs, n)
	}
	vsched.Quiesce()
	if l := vsched.Live(); l > 1 {
		vsched.Fail("[leak] %d goroutines are left", l-1)
	}
	vsched.Outcome("%d", errs)
}

// read: somebody reads the errors while jobs fail, slower than they do.
func read() {
	p := hypercache.NewWorkerPool(1 + vsched.Choose(2))
	vsched.Calm(false)
	seen, closed := 0, false
	vsched.Go(func() {
		for range vsched.RangeChan(p.Errors()) {
			seen++
		}
		closed = true
	})
	k := vsched.Choose(4)
	for i := range 3 {
		fails := i <= k-1
		p.Enqueue(func() error {
			if fails {
				return errors.New("x")
			}
			return nil
		})
	}
	p.Shutdown()
	vsched.Quiesce()
	if !closed || seen > k || (k > 0 && seen == 0) {
		vsched.Fail("[errors] %d of %d errors read, closed %v", seen, k, closed)
	}
	vsched.Outcome("%d of %d", seen, k)
}

// large: many workers, many jobs, many resizes.
func large(p *kit.P) {
	limit := 300
	if p.Deep() {
		limit = 3000
	}
	for _, n := range kit.Sizes(limit) {
		for _, kind := range []string{"workers", "grown", "shrunk", "jobs", "failing", "resizes"} {
			id := fmt.Sprintf("%s %d", kind, n)
			if n == 0 || !p.Begin("%s", id) {
				continue
			}
			var ran, now, most atomic.Int64
			gate := make(chan struct{})
			full := make(chan struct{})
			var once sync.Once
			job := func(want int) func() error {
				return func() error {
					ran.Add(1)
					k := now.Add(1)
					raise(&most, k)
					if int(k) == want {
						once.Do(func() { close(full) })
					}
					<-gate
					now.Add(-1)
					return nil
				}
			}
			var w *hypercache.WorkerPool
			jobs := n
			switch kind {
			case "workers", "grown", "shrunk":
				switch kind {
				case "workers":
					w = hypercache.NewWorkerPool(n)
				case "grown":
					w = hypercache.NewWorkerPool(1)
					w.Resize(n)
				case "shrunk":
					w = hypercache.NewWorkerPool(n + 7)
					w.Resize(n)
				}
				done := make(chan struct{})
				go func() {
					for range n {
						w.Enqueue(job(n))
					}
					close(done)
				}()
				select {
				case <-full:
				case <-time.After(time.Minute):
					p.Fail(id, "width", "%s: of %d jobs that wait for each other only %d run", id, n, now.Load())
				}
				close(gate)
				<-done
			case "jobs", "failing":
				w = hypercache.NewWorkerPool(3)
				var bad error
				if kind == "failing" {
					bad = errors.New("failed")
				}
				for range n {
					w.Enqueue(func() error { ran.Add(1); return bad })
				}
			case "resizes":
				w = hypercache.NewWorkerPool(2)
				jobs = 0
				for i := range n {
					w.Resize(1 + i%5)
					w.Enqueue(func() error { ran.Add(1); return nil })
					jobs++
				}
			}
			w.Shutdown()
			if ran.Load() != int64(jobs) {
				p.Fail(id, "lost", "%s: %d of %d jobs had run when Shutdown returned", id, ran.Load(), jobs)
			}
			if kind != "shrunk" && most.Load() > int64(n) {
				p.Fail(id, "workers", "%s: %d jobs ran at once", id, most.Load())
			}
			errs := 0
			for range w.Errors() {
				errs++
			}
			if kind == "failing" && (errs < 1 || errs > n) || kind != "failing" && errs > 0 {
				p.Fail(id, "errors", "%s: %d errors", id, errs)
			}
			p.Outcome("%s", kind)
		}
	}
}

func main() {
	o := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, MaxSteps: 100000} }
	d := func(p int) vsched.Opts { return vsched.Opts{Preempt: p, Delays: true, MaxSteps: 100000} }
	all := []op{enqueue(false), enqueue(true), resize(1), resize(3), shutdown}
	few := []op{enqueue(true), resize(2), shutdown}
	kit.Main(
		kit.Scenario{Name: "concurrent-2x1", Body: concurrent(1, 2, 1, all), Quick: d(3), Deep: d(6), Race: true, RaceP: 1},
		kit.Scenario{Name: "concurrent-2x2", Body: concurrent(2, 2, 2, all), Quick: d(1), Deep: d(4), Weight: 3},
		kit.Scenario{Name: "concurrent-3x1", Body: concurrent(2, 3, 1, all), Quick: d(2), Deep: d(4), Weight: 2},
		kit.Scenario{Name: "preempted-2x1", Body: concurrent(1, 2, 1, few), Quick: o(1), Deep: o(2), Weight: 2},
		kit.Scenario{Name: "small-2x2", Body: concurrent(2, 2, 2, few), Quick: d(2), Deep: d(4), Weight: 2},
		kit.Scenario{Name: "small-3x1", Body: concurrent(1, 3, 1, few), Quick: d(3), Deep: d(5), Weight: 2},
		kit.Scenario{Name: "width", Body: width(1, false), Quick: d(1), Deep: d(3), Weight: 2},
		kit.Scenario{Name: "width-calm", Body: width(2, true), Quick: d(0), Deep: d(0)},
		kit.Scenario{Name: "width-3", Body: width(3, true), Deep: d(1), DeepOnly: true, Weight: 3},
		kit.Scenario{Name: "unread", Body: unread, Quick: d(3), Deep: o(3)},
		kit.Scenario{Name: "read", Body: read, Quick: d(3), Deep: o(2)},
		// last: its goroutines are real and may still be ending
		kit.Scenario{Name: "large", Plain: large},
	)
}
