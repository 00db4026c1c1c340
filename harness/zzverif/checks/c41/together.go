package main

import (
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/redisd"
	"github.com/hyp3rd/hypercache/internal/zzverif/ref"
)

// runner decides which client's next command the server runs.
type runner struct {
	events chan event
	clock  int
}

type event struct {
	client int
	grant  chan struct{} // nil: the client is done
}

// run runs the clients under the schedule in choices (0 beyond it) and returns
// the choices made and how many there were at each point.
func (s *runner) run(clients []func(), choices []int) (made, of []int) {
	pending := make([]chan struct{}, len(clients))
	wait := func() {
		e := <-s.events
		pending[e.client] = e.grant
	}
	for i, f := range clients {
		go func() {
			f()
			s.events <- event{i, nil}
		}()
		wait()
	}
	for {
		var ready []int
		for i, g := range pending {
			if g != nil {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			return
		}
		c := 0
		if len(ready) > 1 {
			if len(made) < len(choices) {
				c = choices[len(made)]
			}
			made, of = append(made, c), append(of, len(ready))
		}
		g := pending[ready[c]]
		close(g)
		wait()
	}
}

type step struct {
	name  string
	real  func(be) string
	model func(*model) string
}

func errs(err error) string {
	if err != nil {
		return fmt.Sprintf("error: %v", err)
	}
	return "ok"
}

func steps() []step {
	set := func(k, v string, ttl time.Duration) step {
		return step{fmt.Sprintf("set(%s,%s,%v)", k, v, ttl), func(b be) string { return errs(b.Set(bg, item(k, v, ttl))) },
			func(m *model) string { m.put(k, v, ttl); return "ok" }}
	}
	return []step{
		set("a", "x", 0), set("a", "y", time.Second),
		{"get(a)", func(b be) string {
			it, ok := b.Get(bg, "a")
			if !ok {
				return "miss"
			}
			return fmt.Sprint(it.Key, "=", it.Value)
		}, func(m *model) string {
			if e, ok := m.m["a"]; ok {
				return fmt.Sprint("a=", e.v)
			}
			return "miss"
		}},
		{"remove(a)", func(b be) string { return errs(b.Remove(bg, "a")) }, func(m *model) string { delete(m.m, "a"); return "ok" }},
		{"clear", func(b be) string { return errs(b.Clear(bg)) }, func(m *model) string { clear(m.m); return "ok" }},
		{"count", func(b be) string { return fmt.Sprint(b.Count(bg)) }, func(m *model) string { return fmt.Sprint(len(m.m)) }},
		{"list", func(b be) string {
			l, err := b.List(bg)
			if err != nil {
				return errs(err)
			}
			var s []string
			for _, it := range l {
				s = append(s, fmt.Sprint(it.Key, "=", it.Value))
			}
			slices.Sort(s)
			return strings.Join(s, " ")
		}, nil},
	}
}

// together: two clients of one server, every order of their commands.
var together = kit.Scenario{Name: "together", Weight: 2, Plain: func(p *kit.P) {
	st := steps()
	var progs [][]int
	for i := range st {
		progs = append(progs, []int{i})
	}
	for i := range st {
		for j := range st {
			progs = append(progs, []int{i, j})
		}
	}
	type two struct {
		srv *redisd.Cluster
		b   [2]be
		cl  [2]func()
	}
	made := map[bool]*two{}
	defer func() {
		for _, t := range made {
			t.cl[0]()
			t.cl[1]()
			t.srv.Close()
		}
	}()
	for _, cluster := range []bool{false, true} {
		for _, before := range []bool{false, true} {
			for ai, a := range progs {
				for bi, b := range progs {
					// the clients are alike; two steps each only in the thorough tier
					if bi > ai || !p.Deep() && len(a) == 2 && len(b) == 2 {
						continue
					}
					show := func(l []int) string {
						var s []string
						for _, i := range l {
							s = append(s, st[i].name)
						}
						return strings.Join(s, " ")
					}
					id := fmt.Sprintf("cluster %v, a there %v: %s | %s", cluster, before, show(a), show(b))
					if !p.Begin("%s", id) {
						continue
					}
					t := made[cluster]
					if t == nil {
						t = &two{srv: redisd.New(1)}
						for i := range 2 {
							var err error
							if t.b[i], t.cl[i], err = conn(t.srv, cluster, "", fmt.Sprint("c", i), -1, nil); err != nil {
								p.Fail(id, "new", "%v", err)
								return
							}
							t.b[i].Count(bg) // connects
						}
						made[cluster] = t
					}
					var choices []int
					for n := 0; ; n++ {
						t.srv.Reset()
						m0 := &model{m: map[string]ent{}}
						for k := range map[string]bool{"b": true, "a": before} {
							if k == "a" && !before {
								continue
							}
							m0.put(k, "0", 0)
							if err := t.b[0].Set(bg, item(k, "0", 0)); err != nil {
								p.Fail(id, "set", "%v", err)
								return
							}
						}
						r := &runner{events: make(chan event)}
						h := ref.NewHist[*model](2)
						var lists []string
						var cls []func()
						for i, prog := range [][]int{a, b} {
							cls = append(cls, func() {
								for _, x := range prog {
									s := st[x]
									c := ref.Call[*model]{Name: s.name, Start: r.clock}
									r.clock++
									c.Got = s.real(t.b[i])
									c.End = r.clock
									r.clock++
									c.Model = s.model
									if s.name == "list" {
										lists = append(lists, c.Got)
									}
									if s.model == nil || cluster && s.name == "count" { // not one command: no snapshot
										got := c.Got
										c.Model = func(*model) string { return got }
									}
									h.T[i] = append(h.T[i], c)
								}
							})
						}
						t.srv.Set(nil, func(client string, cmd []string) {
							g := make(chan struct{})
							r.events <- event{int(client[1] - '0'), g}
							<-g
						})
						made, of := r.run(cls, choices)
						t.srv.Set(nil, nil)
						p.Steps += int64(len(made))
						at := func() string { return fmt.Sprintf("%s, order %v:%s", id, made, h) }
						clears := slices.Contains(a, 4) || slices.Contains(b, 4)
						for _, l := range lists {
							seen := map[string]bool{}
							for _, kv := range strings.Fields(l) {
								k, v, _ := strings.Cut(kv, "=")
								if seen[k] || k == "a" && !strings.Contains("0xy", v) || k == "b" && v != "0" || k != "a" && k != "b" {
									p.Fail(id, "together:list", "%s: listed %q", at(), l)
								}
								seen[k] = true
							}
							if !seen["b"] && !clears {
								p.Fail(id, "together:list", "%s: b is not listed", at())
							}
						}
						// what is left, and what is left once items have expired
						end := func() string {
							var s []string
							for _, k := range []string{"a", "b"} {
								if it, ok := t.b[0].Get(bg, k); ok {
									s = append(s, fmt.Sprint(k, "=", it.Value))
								}
							}
							l, err := t.b[1].List(bg)
							var ls []string
							for _, it := range l {
								ls = append(ls, fmt.Sprint(it.Key, "=", it.Value))
							}
							slices.Sort(ls)
							if err != nil || !slices.Equal(ls, s) {
								p.Fail(id, "together:end", "%s: afterwards Get finds %v, List %v %v", at(), s, ls, err)
							}
							if n := t.b[0].Count(bg); n != len(s) {
								p.Fail(id, "together:count", "%s: afterwards Count is %d with %v", at(), n, s)
							}
							return strings.Join(s, " ")
						}
						now := end()
						t.srv.Advance(2 * time.Second)
						later := end()
						clone := func(m *model) *model { return &model{maps.Clone(m.m), m.now} }
						if !h.Explained(m0, clone, func(m *model) bool {
							if m.String() != now {
								return false
							}
							m = clone(m)
							m.advance(2 * time.Second)
							return m.String() == later
						}) {
							p.Fail(id, "together", "%s: then %q, and %q after 2s: no order of the operations explains it", at(), now, later)
						}
						p.Outcome("%s %s %s", h, now, later)
						// the next order
						i := len(made) - 1
						for i >= 0 && made[i]+1 >= of[i] {
							i--
						}
						if i < 0 {
							break
						}
						choices = append(slices.Clone(made[:i]), made[i]+1)
					}
				}
			}
		}
	}
}}
