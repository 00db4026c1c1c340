package vsched

import (
	"cmp"
	"iter"
	"runtime"
	"slices"
	"unsafe"
)

//go:norace
func chanPtr[T any](ch *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

//go:norace
func (x *run) isClosed(p unsafe.Pointer) bool {
	for i := 0; i < x.nclosed; i++ {
		if x.closed[i] == p {
			return true
		}
	}
	return false
}

// probeClosed reports whether an unbuffered channel is closed. No managed
// goroutine ever parks on the real channel, so a receive can succeed only
// because the channel is closed.
//
//go:norace
func probeClosed[T any](ch <-chan T) bool {
	raceDisable()
	defer raceEnable()
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

//go:norace
func (x *run) findOffer(p unsafe.Pointer, send bool) (*thread, int) {
	for i := 0; i < x.nthreads; i++ {
		t := x.threads[i]
		if t == x.probe || t.done || t.pred == nil || t.matched {
			continue
		}
		for j := 0; j < t.nwaits; j++ {
			if t.waits[j].ch == p && t.waits[j].send == send {
				return t, j
			}
		}
	}
	return nil, -1
}

// Case is one communication of a select statement.
type Case interface {
	ready() bool
	commit() // perform, given ready
	offer(t *thread, idx int)
	accept(v any)
	tryReal() bool
}

type RCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

//go:norace
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

//go:norace
func (c *RCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	p := chanPtr(&c.ch)
	if cap(c.ch) > 0 {
		return len(c.ch) > 0 || r.isClosed(p)
	}
	if t, _ := r.findOffer(p, true); t != nil {
		return true
	}
	return probeClosed(c.ch)
}

//go:norace
func (c *RCase[T]) commit() {
	if cap(c.ch) == 0 {
		if t, j := r.findOffer(chanPtr(&c.ch), true); t != nil {
			c.Val, _ = t.waits[j].val.(T)
			c.Ok = true
			t.matched, t.mIndex = true, t.waits[j].index
			RaceAcquire(unsafe.Pointer(&t.mSyn))
			RaceRelease(unsafe.Pointer(&t.mSyn))
			return
		}
	}
	select {
	case c.Val, c.Ok = <-c.ch:
	default:
		panic("vsched: receive not ready")
	}
}

//go:norace
func (c *RCase[T]) offer(t *thread, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		t.waits[t.nwaits] = waitEntry{ch: chanPtr(&c.ch), send: false, index: idx}
		t.nwaits++
	}
}

//go:norace
func (c *RCase[T]) accept(v any) { c.Val, _ = v.(T); c.Ok = true }

type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase(ch).Of(v): the channel alone fixes T, so v converts as in a send
// statement.
//
//go:norace
func SendCase[T any](ch chan<- T) *SCase[T] { return &SCase[T]{ch: ch} }

//go:norace
func (c *SCase[T]) Of(v T) *SCase[T] {
	c.v = v
	return c
}

//go:norace
func (c *SCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	p := chanPtr(&c.ch)
	if r.isClosed(p) {
		return true
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	t, _ := r.findOffer(p, false)
	return t != nil
}

//go:norace
func (c *SCase[T]) commit() {
	if cap(c.ch) == 0 && !r.isClosed(chanPtr(&c.ch)) {
		t, j := r.findOffer(chanPtr(&c.ch), false)
		t.matched, t.mIndex, t.mVal = true, t.waits[j].index, c.v
		RaceAcquire(unsafe.Pointer(&t.mSyn))
		RaceRelease(unsafe.Pointer(&t.mSyn))
		return
	}
	select {
	case c.ch <- c.v: // panics when closed, as the program would
	default:
		panic("vsched: send not ready")
	}
}

//go:norace
func (c *SCase[T]) offer(t *thread, idx int) {
	if c.ch != nil && cap(c.ch) == 0 {
		t.waits[t.nwaits] = waitEntry{ch: chanPtr(&c.ch), send: true, index: idx, val: c.v}
		t.nwaits++
	}
}

//go:norace
func (c *SCase[T]) accept(any) {}

// Select performs one of the cases; -1 means the default clause.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	x := r
	if x == nil {
		return realSelect(hasDefault, cases)
	}
	Point()
	for {
		var idx [maxWaits]int
		n := 0
		x.probe = x.cur
		for i, c := range cases {
			if c.ready() {
				idx[n] = i
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = Choose(n)
			}
			x.probe = x.cur
			cases[idx[k]].commit()
			return idx[k]
		}
		if hasDefault {
			return -1
		}
		me := x.cur
		me.nwaits, me.matched = 0, false
		for i, c := range cases {
			c.offer(me, i)
		}
		RaceRelease(unsafe.Pointer(&me.mSyn))
		Block("select", func() bool {
			if me.matched {
				return true
			}
			for _, c := range cases {
				if c.ready() {
					return true
				}
			}
			return false
		})
		me.nwaits = 0
		if me.matched {
			me.matched = false
			RaceAcquire(unsafe.Pointer(&me.mSyn))
			cases[me.mIndex].accept(me.mVal)
			me.mVal = nil
			return me.mIndex
		}
	}
}

// realSelect serves code that runs outside an exploration.
func realSelect(hasDefault bool, cases []Case) int {
	for {
		for i, c := range cases {
			if c.tryReal() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Gosched()
	}
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if r == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RCase[T]{ch: ch}
	Select(false, &c)
	return c.Val, c.Ok
}

//go:norace
func SendTo[T any](ch chan<- T) *SCase[T] { return &SCase[T]{ch: ch} }

// Send is the send statement.
//
//go:norace
func (c *SCase[T]) Send(v T) {
	if r == nil {
		c.ch <- v
		return
	}
	c.v = v
	Select(false, c)
}

//go:norace
func Close[T any](ch chan<- T) {
	if r != nil {
		Point()
		if r.nclosed >= maxClosed {
			panic("vsched: too many closed channels")
		}
		r.closed[r.nclosed] = chanPtr(&ch)
		r.nclosed++
	}
	close(ch)
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// RangeMap iterates in key order, so that executions are reproducible.
func RangeMap[M ~map[K]V, K cmp.Ordered, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// BlockForever stands for an empty select.
func BlockForever() {
	if r == nil {
		select {}
	}
	Block("select{}", func() bool { return false })
}

func (c *RCase[T]) tryReal() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.Val, c.Ok = <-c.ch:
		return true
	default:
		return false
	}
}

func (c *SCase[T]) tryReal() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

// Len is len of a channel: others may act right before it.
//
//go:norace
func Len[T any](ch <-chan T) int {
	if r != nil {
		Point()
	}
	return len(ch)
}

// LenSend is Len for channels one can only send on.
//
//go:norace
func LenSend[T any](ch chan<- T) int {
	if r != nil {
		Point()
	}
	return len(ch)
}
