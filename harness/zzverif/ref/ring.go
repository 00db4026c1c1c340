// Package ref holds reference models shared by several checks.
package ref

import (
	"cmp"
	"slices"

	"github.com/cespare/xxhash/v2"
)

type point struct {
	h  uint64
	id string
}

// Ring is consistent hashing written the obvious way: every node has vn points
// at xxhash64(id + byte(i)); a key is owned by the first r distinct nodes at or
// clockwise after xxhash64(key).
type Ring struct {
	pts []point
	n   int
	r   int
}

func NewRing(ids []string, vn, r int) *Ring {
	x := &Ring{n: len(ids), r: r}
	for _, id := range ids {
		for i := 0; i < vn; i++ {
			x.pts = append(x.pts, point{xxhash.Sum64String(id + string([]byte{byte(i)})), id})
		}
	}
	slices.SortFunc(x.pts, func(a, b point) int { return cmp.Compare(a.h, b.h) })
	return x
}

// Owners of key, primary first.
func (x *Ring) Owners(key string) []string {
	if len(x.pts) == 0 {
		return nil
	}
	h := xxhash.Sum64String(key)
	start := 0
	for start < len(x.pts) && x.pts[start].h < h {
		start++
	}
	var out []string
	for i := 0; i < len(x.pts) && len(out) < x.r; i++ {
		id := x.pts[(start+i)%len(x.pts)].id
		if !slices.Contains(out, id) {
			out = append(out, id)
		}
	}
	return out
}

// Keys returns n ordinary keys.
func Keys(n int) []string {
	out := []string{""}
	for i := 1; i < n; i++ {
		out = append(out, "key-"+itoa(i*7919%100003))
	}
	return out
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
