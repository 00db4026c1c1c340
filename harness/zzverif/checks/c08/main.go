// C08: statistics stay exact when recorded and read concurrently.
package main

import (
	"math"
	"slices"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vatomic"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

func rec(c *stats.HistogramStatsCollector, kind int, key constants.Stat, v int64) {
	switch kind {
	case 0:
		c.Incr(key, v)
	case 1:
		c.Decr(key, -v)
	case 2:
		c.Timing(key, v)
	case 3:
		c.Gauge(key, v)
	default:
		c.Histogram(key, v)
	}
}

func exact(c *stats.HistogramStatsCollector, key string, vals []int64, capacity int) {
	st := c.GetStats()[key]
	if len(vals) == 0 {
		if st != nil {
			vsched.Fail("[ghost] statistics %+v for a stat never recorded", *st)
		}
		return
	}
	if st == nil {
		vsched.Fail("[lost] stat %q recorded %v is missing", key, vals)
	}
	var sum int64
	for _, v := range vals {
		sum += v
	}
	if st.Count != len(vals) || st.Sum != sum || st.Min != slices.Min(vals) || st.Max != slices.Max(vals) {
		vsched.Fail("[aggregate] recorded %v: count=%d sum=%d min=%d max=%d", vals, st.Count, st.Sum, st.Min, st.Max)
	}
	mean := float64(sum) / float64(len(vals))
	if math.Abs(st.Mean-mean) > 1e-9 || math.Abs(c.Mean(constants.Stat(key))-mean) > 1e-9 {
		vsched.Fail("[mean] recorded %v: mean %v", vals, st.Mean)
	}
	window(st.Values, vals, capacity)
	vsched.Outcome("%d kept", len(st.Values))
}

// window: the sample window holds recorded values, each at most once.
func window(got, vals []int64, capacity int) {
	if len(got) > capacity || len(got) > len(vals) {
		vsched.Fail("[window] %d samples of %d recorded, capacity %d", len(got), len(vals), capacity)
	}
	if !slices.IsSorted(got) {
		vsched.Fail("[window] samples %v are not sorted", got)
	}
	rest := slices.Clone(vals)
	for _, v := range got {
		i := slices.Index(rest, v)
		if i < 0 {
			vsched.Fail("[window] sample %d of %v was not recorded (%v)", v, got, vals)
		}
		rest = slices.Delete(rest, i, i+1)
	}
}

// writers: recorders of the same and of different stats, first use included.
func writers(vals [][]int64, keys []constants.Stat, capacity int) func() {
	return func() {
		c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
		same := vsched.Choose(2) == 0
		kind := vsched.Choose(5)
		all := map[constants.Stat][]int64{}
		var g vsched.Group
		for t, l := range vals {
			key := keys[0]
			if !same && t > 0 {
				key = keys[1]
			}
			all[key] = append(all[key], l...)
			g.Go(func() {
				for i, v := range l {
					k := kind
					if i%2 == 1 {
						k = 4
					}
					rec(c, k, key, v)
				}
			})
		}
		g.Wait()
		for _, k := range keys {
			exact(c, string(k), all[k], capacity)
		}
		// the window still accepts samples after contention
		rec(c, 0, keys[0], 1000)
		if v := c.GetStats()[string(keys[0])].Values; !slices.Contains(v, 1000) {
			vsched.Fail("[window] a sample recorded without contention is missing from %v", v)
		}
	}
}

// snapshot: what a concurrent reader sees is explained by what was recorded.
func snapshot(what int) func() {
	return func() {
		c := stats.NewHistogramStatsCollectorWithCapacity(4)
		vals := [][]int64{{5, 9}, {-3}}
		var started []int64
		pre := vsched.Choose(2)
		if pre == 1 {
			c.Incr("k", 6)
			started = append(started, 6)
		}
		all := append(slices.Clone(started), 5, 9, -3)
		var done vatomic.Int64
		var g vsched.Group
		for _, l := range vals {
			g.Go(func() {
				for _, v := range l {
					c.Incr("k", v)
					done.Add(1)
				}
			})
		}
		g.Go(func() {
			lastCount := 0
			for range 2 {
				before := int(done.Load()) + pre
				switch what {
				case 0:
					st := c.GetStats()["k"]
					if st == nil {
						if before > 0 {
							vsched.Fail("[lost] %d values recorded, none reported", before)
						}
						continue
					}
					if st.Count < before || st.Count > len(all) || st.Count < lastCount {
						vsched.Fail("[count] snapshot count %d, %d were recorded before it", st.Count, before)
					}
					lastCount = st.Count
					if !slices.Contains(all, st.Min) || !slices.Contains(all, st.Max) || st.Min > st.Max {
						vsched.Fail("[sentinel] snapshot with count %d reports min=%d max=%d, recorded values are %v", st.Count, st.Min, st.Max, all)
					}
					if !subsetSum(all, st.Sum) {
						vsched.Fail("[sum] snapshot sum %d is no sum of recorded values %v", st.Sum, all)
					}
					window(st.Values, all, 4)
					for i := range st.Values {
						st.Values[i] = 77777
					}
					vsched.Outcome("%d", st.Count)
				case 1:
					p := c.Percentile("k", 1)
					if p != 0 && !slices.Contains(all, int64(p)) {
						vsched.Fail("[window] percentile %v is not a recorded value", p)
					}
					vsched.Outcome("%v", p)
				case 2:
					m := c.Mean("k")
					if before > 0 && (m < -3 || m > 20) {
						vsched.Fail("[mean] concurrent mean %v", m)
					}
					vsched.Outcome("%v", c.Median("k"))
				}
			}
		})
		g.Wait()
		st := c.GetStats()["k"]
		if st.Count != len(all) || slices.Contains(st.Values, 77777) {
			vsched.Fail("[alias] a reader's change to its snapshot shows in the collector: %v", st.Values)
		}
	}
}

func subsetSum(vals []int64, s int64) bool {
	for m := 0; m < 1<<len(vals); m++ {
		var t int64
		for i, v := range vals {
			if m>>i&1 == 1 {
				t += v
			}
		}
		if t == s {
			return true
		}
	}
	return false
}

func main() {
	kit.Main(
		kit.Scenario{Name: "writers-2x2", Body: writers([][]int64{{5, -2}, {7, 7}}, []constants.Stat{"a", "b"}, 8), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true},
		kit.Scenario{Name: "writers-2x2-small", Body: writers([][]int64{{5, -2}, {7, 1}}, []constants.Stat{"a", "b"}, 2), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "writers-3x1", Body: writers([][]int64{{math.MaxInt64 / 4}, {0}, {math.MinInt64 / 4}}, []constants.Stat{"a", "b"}, 8), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "snapshot", Body: snapshot(0), Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, Weight: 2},
		kit.Scenario{Name: "percentile", Body: snapshot(1), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
		kit.Scenario{Name: "mean", Body: snapshot(2), Quick: vsched.Opts{Preempt: 1}, Deep: vsched.Opts{Preempt: 3}},
	)
}
