package kit

// Sizes lists the sizes up to limit at which something often changes: every
// one up to 20, and the powers of two and ten with their neighbours.
func Sizes(limit int) []int {
	var out []int
	for n := 0; n <= limit; n++ {
		near := n <= 20
		for d := -1; d <= 1; d++ {
			m := n + d
			if m > 0 && m&(m-1) == 0 {
				near = true
			}
			for m > 1 && m%10 == 0 {
				m /= 10
			}
			if m == 1 || m == 5 {
				near = true
			}
		}
		if near {
			out = append(out, n)
		}
	}
	return out
}
