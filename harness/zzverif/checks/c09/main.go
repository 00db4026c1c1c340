// C09: summaries of a recorded sequence equal those of a list.
package main

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))+1e-9
}

func refMedian(s []int64) float64 {
	n := len(s)
	if n == 0 {
		return 0
	}
	if n%2 == 1 {
		return float64(s[n/2])
	}
	return float64(s[n/2-1])/2 + float64(s[n/2])/2
}

func refPercentile(s []int64, p float64) float64 {
	n := len(s)
	if n == 0 {
		return 0
	}
	i := 0
	switch {
	case p <= 0:
	case p >= 1:
		i = n - 1
	default:
		i = min(int(float64(n)*p), n-1)
	}
	return float64(s[i])
}

func check(p *kit.P, id string, capacity int, vals []int64) {
	c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
	if c.Mean("k") != 0 || c.Median("k") != 0 || c.Percentile("k", 0.5) != 0 || len(c.GetStats()) != 0 {
		p.Fail(id, "empty", "an unused collector reports values")
	}
	for i, v := range vals {
		switch i % 5 {
		case 0:
			c.Incr("k", v)
		case 1:
			if v == math.MinInt64 {
				c.Gauge("k", v)
			} else {
				c.Decr("k", -v)
			}
		case 2:
			c.Timing("k", v)
		case 3:
			c.Gauge("k", v)
		default:
			c.Histogram("k", v)
		}
		c.Incr("other", 1)
		seen := vals[:i+1]
		win := slices.Clone(seen[max(0, len(seen)-capacity):])
		slices.Sort(win)
		var sum int64
		var fsum float64
		for _, x := range seen {
			sum += x
			fsum += float64(x)
		}
		st := c.GetStats()["k"]
		if st == nil {
			p.Fail(id, "lost", "after %v there is no entry", seen)
			return
		}
		if st.Count != len(seen) || st.Sum != sum || st.Min != slices.Min(seen) || st.Max != slices.Max(seen) {
			p.Fail(id, "aggregate", "after %v: count=%d sum=%d min=%d max=%d", seen, st.Count, st.Sum, st.Min, st.Max)
			return
		}
		if !slices.Equal(st.Values, win) {
			p.Fail(id, "window", "after %v with capacity %d the window is %v, want %v", seen, capacity, st.Values, win)
			return
		}
		if math.Abs(fsum) < 1e18 {
			mean := float64(sum) / float64(len(seen))
			if !near(st.Mean, mean) || !near(c.Mean("k"), mean) {
				p.Fail(id, "mean", "after %v: mean %v/%v, want %v", seen, st.Mean, c.Mean("k"), mean)
				return
			}
			if len(seen) <= capacity {
				var acc float64
				for _, x := range seen {
					acc += (float64(x) - mean) * (float64(x) - mean)
				}
				if w := acc / float64(len(seen)); !near(st.Variance, w) {
					p.Fail(id, "variance", "after %v: variance %v, want %v", seen, st.Variance, w)
					return
				}
			}
		}
		if m := refMedian(win); !near(st.Median, m) || !near(c.Median("k"), m) {
			p.Fail(id, "median", "window %v: median %v/%v, want %v", win, st.Median, c.Median("k"), m)
			return
		}
		last := math.Inf(-1)
		for _, q := range []float64{-1, 0, 0.01, 0.25, 0.33, 0.5, 0.66, 0.75, 0.9, 0.95, 0.99, 0.999, 1, 2} {
			got := c.Percentile("k", q)
			if got != refPercentile(win, q) {
				p.Fail(id, "percentile", "window %v: percentile %v is %v, want %v", win, q, got, refPercentile(win, q))
				return
			}
			if got < last {
				p.Fail(id, "percentile", "window %v: percentiles decrease at %v", win, q)
				return
			}
			last = got
		}
		if o := c.GetStats()["other"]; o == nil || o.Count != i+1 || o.Sum != int64(i+1) || o.Min != 1 || o.Max != 1 {
			p.Fail(id, "isolation", "recording one stat changed another: %+v", o)
			return
		}
		for i := range st.Values { // the snapshot belongs to the caller
			st.Values[i] = 424242
		}
	}
}

func sequences(p *kit.P) {
	alpha := []int64{0, 1, -1, 7, 100}
	depth := 5
	if p.Deep() {
		depth = 7
	}
	for _, capacity := range []int{1, 2, 3, 8} {
		var recur func(seq []int64)
		recur = func(seq []int64) {
			if len(seq) == depth {
				id := fmt.Sprintf("cap=%d %v", capacity, seq)
				if p.Begin("%s", id) {
					check(p, id, capacity, seq)
					p.Outcome("cap=%d max=%d", capacity, slices.Max(seq))
				}
				return
			}
			for _, v := range alpha {
				recur(append(slices.Clone(seq), v))
			}
		}
		recur(nil)
	}
}

func extremes(p *kit.P) {
	alpha := []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 0, -5, 1 << 62}
	for _, capacity := range []int{1, 2, 4} {
		var recur func(seq []int64)
		recur = func(seq []int64) {
			if len(seq) == 4 {
				id := fmt.Sprintf("cap=%d %v", capacity, seq)
				if p.Begin("%s", id) {
					check(p, id, capacity, seq)
					p.Outcome("min=%d", slices.Min(seq))
				}
				return
			}
			for _, v := range alpha {
				recur(append(slices.Clone(seq), v))
			}
		}
		recur(nil)
	}
}

// long: the window of default capacity and several wrap-arounds.
func long(p *kit.P) {
	for _, capacity := range []int{-1, 0, 1, 2, 5, 7, 64, 10000} {
		for _, n := range []int{1, 2, 5, 7, 8, 63, 64, 65, 200, 4095, 4096, 4097, 9000, 70000, 1<<20 + 5, 3 << 20} {
			id := fmt.Sprintf("cap=%d n=%d", capacity, n)
			if !p.Begin("%s", id) {
				continue
			}
			c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
			if capacity == 0 {
				c = stats.NewHistogramStatsCollector()
			}
			eff := capacity
			if eff <= 0 {
				eff = stats.DefaultSampleCapacity
			}
			var vals []int64
			for i := range n {
				v := int64((i*7919)%1009 - 500)
				vals = append(vals, v)
				c.Histogram("k", v)
			}
			win := slices.Clone(vals[max(0, n-eff):])
			slices.Sort(win)
			st := c.GetStats()["k"]
			if !slices.Equal(st.Values, win) || st.Count != n || st.Min != slices.Min(vals) || st.Max != slices.Max(vals) {
				p.Fail(id, "window", "capacity %d after %d values: count %d min %d max %d, %d samples", capacity, n, st.Count, st.Min, st.Max, len(st.Values))
			}
			var sum int64
			for _, v := range vals {
				sum += v
			}
			if mean := float64(sum) / float64(n); st.Sum != sum || !near(st.Mean, mean) || !near(c.Mean("k"), mean) {
				p.Fail(id, "mean", "capacity %d after %d values: sum %d mean %v/%v, want %d and %v", capacity, n, st.Sum, st.Mean, c.Mean("k"), sum, mean)
			} else if n <= eff {
				var acc float64
				for _, x := range vals {
					acc += (float64(x) - mean) * (float64(x) - mean)
				}
				if w := acc / float64(n); math.Abs(st.Variance-w) > 1e-9*w {
					p.Fail(id, "variance", "capacity %d after %d values: variance %v, want %v", capacity, n, st.Variance, w)
				}
			}
			if !near(st.Median, refMedian(win)) || c.Percentile("k", 0.95) != refPercentile(win, 0.95) {
				p.Fail(id, "median", "capacity %d after %d values: median %v p95 %v", capacity, n, st.Median, c.Percentile("k", 0.95))
			}
			p.Outcome("%d", len(win))
		}
	}
}

// many: many statistics, long names, large windows.
func many(p *kit.P) {
	for _, n := range kit.Sizes(2001) {
		id := fmt.Sprintf("%d statistics", n)
		if !p.Begin("%s", id) {
			continue
		}
		c := stats.NewHistogramStatsCollectorWithCapacity(3)
		for round := range 2 {
			for i := range n {
				c.Incr(constants.Stat(fmt.Sprintf("stat-%d", i)), int64(10*i+round))
			}
		}
		st := c.GetStats()
		for i := range n {
			name := fmt.Sprintf("stat-%d", i)
			if s := st[name]; s == nil || s.Count != 2 || s.Sum != int64(20*i+1) || s.Min != int64(10*i) || s.Max != int64(10*i+1) || !slices.Equal(s.Values, []int64{int64(10 * i), int64(10*i + 1)}) || c.Mean(constants.Stat(name)) != float64(20*i+1)/2 {
				p.Fail(id, "many", "%d statistics, %s: %+v", n, name, s)
				return
			}
		}
		if len(st) != n {
			p.Fail(id, "many", "%d statistics are listed as %d", n, len(st))
			return
		}
		p.Outcome("%v", n > 0)
	}
	for _, n := range kit.Sizes(5001) {
		id := fmt.Sprintf("names of %d", n)
		if !p.Begin("%s", id) {
			continue
		}
		base := strings.Repeat("requests.", n/9+1)[:n]
		c := stats.NewHistogramStatsCollectorWithCapacity(3)
		for i, name := range []string{base + "a", base + "b", base} {
			for range i + 1 {
				c.Timing(constants.Stat(name), int64(i))
			}
		}
		st := c.GetStats()
		for i, name := range []string{base + "a", base + "b", base} {
			if s := st[name]; s == nil || s.Count != i+1 || s.Sum != int64(i*(i+1)) {
				p.Fail(id, "name", "a statistic with a name of %d bytes: %+v", len(name), s)
				return
			}
		}
		p.Outcome("ok")
	}
	for _, capacity := range []int{1000, 1024, 4095, 4097, 10000, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 1} {
		id := fmt.Sprintf("window of %d", capacity)
		if !p.Begin("%s", id) {
			continue
		}
		c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
		for i := range capacity + 3 {
			c.Gauge("k", int64(i))
			if i == capacity-1 {
				if s := c.GetStats()["k"]; s.Count != capacity || len(s.Values) != capacity || s.Values[0] != 0 || s.Values[capacity-1] != int64(capacity-1) {
					p.Fail(id, "window", "a window of %d lists %d samples", capacity, len(s.Values))
					return
				}
			}
		}
		if s := c.GetStats()["k"]; s.Count != capacity+3 || s.Min != 0 || len(s.Values) != capacity || s.Values[0] != 3 || s.Values[capacity-1] != int64(capacity+2) {
			p.Fail(id, "window", "a window of %d lists %d samples, %d to %d", capacity, len(s.Values), s.Values[0], s.Values[len(s.Values)-1])
			return
		}
		p.Outcome("ok")
	}
}

type fake struct {
	stats.ICollector
	n int
}

func registry(p *kit.P) {
	boom := errors.New("boom")
	for i, name := range []string{"", "default", "nope", "mine", "bad", "Default", "default "} {
		for j, r := range []*stats.CollectorRegistry{stats.NewCollectorRegistry(), stats.NewEmptyCollectorRegistry()} {
			id := fmt.Sprintf("%d/%d", i, j)
			if !p.Begin("%s", id) {
				continue
			}
			r.Register("mine", func() (stats.ICollector, error) { return fake{}, nil })
			r.Register("bad", func() (stats.ICollector, error) { return nil, boom })
			c, err := r.NewCollector(name)
			var want error
			switch {
			case name == "":
				want = sentinel.ErrParamCannotBeEmpty
			case name == "bad":
				want = boom
			case name == "mine" || (name == "default" && j == 0):
			default:
				want = sentinel.ErrStatsCollectorNotFound
			}
			if !errors.Is(err, want) || (want == nil && (err != nil || c == nil)) {
				p.Fail(id, "registry", "NewCollector(%q) in registry %d: %v, %v; want error %v", name, j, c, err, want)
			}
			if want == nil && name == "default" {
				d, _ := r.NewCollector(name)
				c.Incr(constants.StatIncr, 1)
				if len(d.GetStats()) != 0 {
					p.Fail(id, "shared", "two collectors share their values")
				}
			}
			p.Outcome("%v", want)
		}
	}
	// the last one registered under a name is the one constructed
	for _, name := range []string{"default", "mine", "Ünï"} {
		for j, mk := range []func() *stats.CollectorRegistry{stats.NewCollectorRegistry, stats.NewEmptyCollectorRegistry} {
			id := fmt.Sprintf("replace %q/%d", name, j)
			if !p.Begin("%s", id) {
				continue
			}
			r := mk()
			for n := range 3 {
				r.Register(name, func() (stats.ICollector, error) { return fake{n: n}, nil })
				c, err := r.NewCollector(name)
				if f, ok := c.(fake); err != nil || !ok || f.n != n {
					p.Fail(id, "registry", "after %d registrations of %q NewCollector gives %T %+v, %v", n+1, name, c, c, err)
				}
			}
			p.Outcome("%s", name)
		}
	}
	if p.Begin("package") {
		if c, err := stats.NewCollector("default"); err != nil || c == nil {
			p.Fail("package", "registry", "NewCollector(default): %v %v", c, err)
		}
		if _, err := stats.NewCollector("mine"); !errors.Is(err, sentinel.ErrStatsCollectorNotFound) {
			p.Fail("package", "registry", "NewCollector(mine): %v", err)
		}
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "sequences", Plain: sequences, Weight: 3},
		kit.Scenario{Name: "extremes", Plain: extremes},
		kit.Scenario{Name: "long", Plain: long},
		kit.Scenario{Name: "many", Plain: many},
		kit.Scenario{Name: "registry", Plain: registry, Single: true},
	)
}
