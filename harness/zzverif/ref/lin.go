package ref

import "github.com/hyp3rd/hypercache/internal/zzverif/vsched"

// Call is one completed operation of a concurrent history.
type Call[S any] struct {
	Model      func(S) string // the same operation on the sequential model
	Got        string         // what the real operation returned
	Start, End int
	Name       string
}

// Hist is a concurrent history, one list of calls per thread.
type Hist[S any] struct {
	T [][]Call[S]
}

// NewHist has room for n threads.
func NewHist[S any](n int) *Hist[S] { return &Hist[S]{T: make([][]Call[S], n)} }

// Do runs one operation on thread t and records it.
func (h *Hist[S]) Do(t int, name string, real func() string, model func(S) string) {
	c := Call[S]{Model: model, Name: name, Start: vsched.Stamp()}
	c.Got = real()
	c.End = vsched.Stamp()
	h.T[t] = append(h.T[t], c)
}

// String lists the calls.
func (h *Hist[S]) String() string {
	s := ""
	for i, l := range h.T {
		s += " T" + itoa(i+1) + ":"
		for _, c := range l {
			s += " " + c.Name + "=" + c.Got
		}
	}
	return s
}

// Explained reports whether some order of the calls that respects program
// order and real-time order gives every result, and ends in a state accepted
// by fin (nil: any).
func (h *Hist[S]) Explained(init S, clone func(S) S, fin func(S) bool) bool {
	pos := make([]int, len(h.T))
	var rec func(s S) bool
	rec = func(s S) bool {
		done := true
		for t := range h.T {
			if pos[t] == len(h.T[t]) {
				continue
			}
			done = false
			c := &h.T[t][pos[t]]
			// no pending call may have ended before this one started
			ok := true
			for u := range h.T {
				if u != t && pos[u] < len(h.T[u]) && h.T[u][pos[u]].End < c.Start {
					ok = false
				}
			}
			if !ok {
				continue
			}
			n := clone(s)
			if c.Model(n) != c.Got {
				continue
			}
			pos[t]++
			if rec(n) {
				return true
			}
			pos[t]--
		}
		return done && (fin == nil || fin(s))
	}
	return rec(init)
}
