// Package kit is the command line of every check program: it runs the
// scenarios of a property, sharded over worker processes, and writes what it
// covered as JSON for the runner (bin/vrun.py) to merge.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

// Scenario is one closed driver. Exactly one of Body (run under the explorer)
// and Plain (a deterministic enumeration) is set.
type Scenario struct {
	Name   string
	Body   func()
	Plain  func(*P)
	Quick  vsched.Opts
	Deep   vsched.Opts // thorough tier; zero: Quick with one more preemption
	Single bool        // not sharded: one worker runs it whole
	Race   bool        // also run in the race-detector build
	RaceP  int         // preemption bound there (default 1)
	// MinOutcomes guards against vacuity: fewer distinct outcomes than this on
	// an exhaustive run is reported in the evidence as vacuous.
	DeepOnly bool // thorough tier only
	Weight   int  // share of the time budget (default 1)
}

// P collects the cases of a plain enumeration.
type P struct {
	Tier     string
	Cases    int64
	Steps    int64
	outcomes map[string]int64
	viol     []Viol
	perKey   map[string]int
	samples  []string
	deadline time.Time
	known    map[string]bool
	only     string // replay: run only this case
	capped   bool
	shard    int
	shards   int
}

// Viol is one violation as written for the runner.
type Viol struct {
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Choices  []int32  `json:"choices,omitempty"`
	Case     string   `json:"case,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Known    bool     `json:"known"`
	Race     bool     `json:"race,omitempty"`
}

// Res is the result of one scenario in one worker.
type Res struct {
	Scenario   string           `json:"scenario"`
	Bound      string           `json:"bound"`
	Execs      int64            `json:"execs"`
	States     int64            `json:"states"`
	Steps      int64            `json:"steps"`
	Distinct   int              `json:"distinct"`
	Outcomes   map[string]int64 `json:"outcomes"`
	NOutcomes  int              `json:"n_outcomes"`
	Exhaustive bool             `json:"exhaustive"`
	Truncated  int64            `json:"truncated"`
	Diverged   int64            `json:"diverged"`
	Samples    []string         `json:"samples"`
	Wall       float64          `json:"wall"`
	Race       bool             `json:"race"`
	Plain      bool             `json:"plain"`
}

// Begin announces a case; it returns false when the case must be skipped
// (sharding, replay of another case, or the deadline passed).
func (p *P) Begin(format string, args ...any) bool {
	id := fmt.Sprintf(format, args...)
	if p.only != "" {
		return id == p.only
	}
	p.Cases++
	if p.shards > 1 && int(p.Cases)%p.shards != p.shard {
		return false
	}
	if p.Cases&255 == 0 && !p.deadline.IsZero() && time.Now().After(p.deadline) {
		p.capped = true
	}
	if p.capped {
		return false
	}
	p.Steps++
	if len(p.samples) < 5 {
		p.samples = append(p.samples, id)
	}
	return true
}

// Deep reports the thorough tier.
func (p *P) Deep() bool { return p.Tier == "thorough" }

// Outcome counts an observation of the current case.
func (p *P) Outcome(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(p.outcomes) < 5000 || p.outcomes[s] > 0 {
		p.outcomes[s]++
	}
}

// Fail records a violation of the named case. key identifies the defect
// class, one report per key is kept.
func (p *P) Fail(caseID, key, format string, args ...any) {
	if p.perKey[key]++; p.perKey[key] > 1 {
		return
	}
	p.viol = append(p.viol, Viol{Key: key, Kind: "fail", Case: caseID, Msg: fmt.Sprintf(format, args...), Known: p.known[key]})
}

// Key extracts the leading "[key]" of a failure message.
func Key(kind, msg string) string {
	if strings.HasPrefix(msg, "[") {
		if i := strings.IndexByte(msg, ']'); i > 0 {
			return msg[1:i]
		}
	}
	return kind
}

// Main runs the scenarios.
func Main(scs ...Scenario) {
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	out := flag.String("out", "", "")
	budget := flag.Float64("budget", 60, "seconds")
	replay := flag.String("replay", "", "violation file to replay")
	only := flag.String("only", "", "scenario name prefix")
	knownF := flag.String("known", "", "JSON list of known finding keys, scenario:key")
	verbose := flag.Bool("v", false, "")
	flag.Parse()

	known := map[string]bool{}
	if *knownF != "" {
		var ks []string
		b, err := os.ReadFile(*knownF)
		if err == nil {
			_ = json.Unmarshal(b, &ks)
		}
		for _, k := range ks {
			known[k] = true
		}
	}
	if *replay != "" {
		doReplay(*replay, scs, *tier)
		return
	}
	start := time.Now()
	totalW := 0
	var run []Scenario
	for _, sc := range scs {
		if *only != "" && !strings.HasPrefix(sc.Name, *only) {
			continue
		}
		if vsched.RaceEnabled && !sc.Race {
			continue
		}
		if sc.DeepOnly && *tier != "thorough" {
			continue
		}
		if sc.Weight == 0 {
			sc.Weight = 1
		}
		totalW += sc.Weight
		run = append(run, sc)
	}
	// Enumerations go last: a goroutine they leave behind must not start while
	// a controlled execution runs, which would take it for one of its threads.
	slices.SortStableFunc(run, func(a, b Scenario) int {
		switch {
		case a.Plain == nil && b.Plain != nil:
			return -1
		case a.Plain != nil && b.Plain == nil:
			return 1
		}
		return 0
	})
	var results []Res
	var viols []Viol
	for i, sc := range run {
		// the share of the remaining budget, so that short scenarios leave
		// their time to the long ones
		left := time.Duration(*budget*float64(time.Second)) - time.Since(start)
		share := time.Duration(float64(left) * float64(sc.Weight) / float64(totalW))
		totalW -= sc.Weight
		if share < 200*time.Millisecond {
			share = 200 * time.Millisecond
		}
		t0 := time.Now()
		var res Res
		var vs []Viol
		if sc.Single && i%*shards != *shard {
			continue
		}
		if sc.Plain != nil {
			p := &P{Tier: *tier, outcomes: map[string]int64{}, perKey: map[string]int{}, deadline: t0.Add(share), known: map[string]bool{}, shard: *shard, shards: *shards}
			if sc.Single {
				p.shards = 1
			}
			for k := range known {
				if s, key, ok := strings.Cut(k, "|"); ok && (s == sc.Name || s == "*") {
					p.known[key] = true
				}
			}
			runPlain(sc, p)
			res = Res{Scenario: sc.Name, Bound: "full enumeration", Execs: p.Steps, States: p.Steps, Steps: p.Steps, Outcomes: p.outcomes, Exhaustive: !p.capped, Samples: p.samples, Plain: true}
			vs = p.viol
		} else {
			o := sc.opts(*tier)
			o.Deadline = t0.Add(share)
			if !sc.Single {
				o.Shard, o.Shards = *shard, *shards
			}
			o.Known = func(kind, msg string) bool { return known[sc.Name+"|"+Key(kind, msg)] || known["*|"+Key(kind, msg)] }
			r := vsched.Explore(sc.Body, o)
			res = Res{
				Scenario: sc.Name, Bound: bound(o),
				Execs: r.Execs, States: r.States, Steps: r.Steps, Distinct: r.Distinct, Outcomes: r.Outcomes,
				Exhaustive: r.Exhaustive, Truncated: r.Truncated, Diverged: r.Diverged,
			}
			for _, v := range r.Violations {
				vs = append(vs, Viol{Key: Key(v.Kind, v.Msg), Kind: v.Kind, Msg: v.Msg, Choices: v.Choices, Known: v.Known})
			}
		}
		res.NOutcomes = len(res.Outcomes)
		if len(res.Outcomes) > 400 {
			small := map[string]int64{}
			for k, v := range res.Outcomes {
				if len(small) < 400 {
					small[k] = v
				}
			}
			res.Outcomes = small
		}
		res.Wall = time.Since(t0).Seconds()
		res.Race = vsched.RaceEnabled
		for j := range vs {
			vs[j].Scenario = sc.Name
			vs[j].Race = vsched.RaceEnabled
		}
		viols = append(viols, vs...)
		results = append(results, res)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-40s execs=%d states=%d steps=%d distinct=%d outcomes=%d exhaustive=%v trunc=%d div=%d viol=%d %.2fs\n",
				sc.Name, res.Execs, res.States, res.Steps, res.Distinct, len(res.Outcomes), res.Exhaustive, res.Truncated, res.Diverged, len(vs), res.Wall)
			for _, v := range vs {
				fmt.Fprintf(os.Stderr, "   VIOL known=%v key=%s kind=%s case=%s %s\n", v.Known, v.Key, v.Kind, v.Case, v.Msg)
			}
			if len(res.Outcomes) <= 12 {
				for k, n := range res.Outcomes {
					fmt.Fprintf(os.Stderr, "   outcome %s x%d\n", k, n)
				}
			}
		}
	}
	if *out != "" {
		b, err := json.Marshal(map[string]any{"results": results, "violations": viols})
		if err == nil {
			err = os.WriteFile(*out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}

func (sc *Scenario) opts(tier string) vsched.Opts {
	o := sc.Quick
	if tier == "thorough" {
		d := sc.Deep
		if d.Preempt == 0 && d.Faults == 0 && d.MaxSteps == 0 {
			d = sc.Quick
			d.Preempt++
		}
		o = d
	}
	if vsched.RaceEnabled {
		o = sc.Quick
		o.Preempt = 1
		if sc.RaceP > 0 {
			o.Preempt = sc.RaceP
		}
		o.Faults = min(o.Faults, 1)
	}
	return o
}

func runPlain(sc Scenario, p *P) {
	defer func() {
		if e := recover(); e != nil {
			id := "?"
			if n := len(p.samples); n > 0 {
				id = p.samples[n-1]
			}
			p.Fail(id, "panic", "panic during enumeration: %v", e)
		}
	}()
	sc.Plain(p)
}

func doReplay(file string, scs []Scenario, tier string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, sc := range scs {
		if sc.Name != v.Scenario {
			continue
		}
		if sc.Plain != nil {
			p := &P{Tier: tier, outcomes: map[string]int64{}, perKey: map[string]int{}, known: map[string]bool{}, only: v.Case}
			runPlain(sc, p)
			for _, w := range p.viol {
				if w.Key == v.Key {
					fmt.Printf("REPRODUCED %s: %s\n", w.Key, w.Msg)
					os.Exit(1)
				}
			}
			fmt.Println("NOT REPRODUCED")
			os.Exit(0)
		}
		w, outc := vsched.Replay(sc.Body, v.Choices, sc.opts(tier))
		for _, l := range w.Trace {
			fmt.Println("  " + l)
		}
		fmt.Println("  outcome:", outc)
		if w.Kind != "" {
			fmt.Printf("REPRODUCED %s: %s\n", Key(w.Kind, w.Msg), w.Msg)
			os.Exit(1)
		}
		fmt.Println("NOT REPRODUCED")
		os.Exit(0)
	}
	fmt.Println("no scenario", v.Scenario)
	os.Exit(3)
}

// bound names the bound of an exploration.
func bound(o vsched.Opts) string {
	what := "preemptions"
	if o.Delays {
		what = "schedule deviations"
	}
	return fmt.Sprintf("%s<=%d faults<=%d", what, o.Preempt, o.Faults)
}
