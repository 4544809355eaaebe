package main

import (
	"encoding/json"
	"sync"
	"time"
)

// minimiser shrinks a failing plan. Candidates run in fresh processes, eight
// at a time; of each batch the first that still fails is kept.
type minimiser struct {
	c           *checker
	try         func(*Plan) (*Outcome, bool)
	tried, kept int
	deadline    time.Time
}

func clone(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	_ = json.Unmarshal(b, &q)

	return &q
}

// first runs candidates and returns the first that still fails.
func (m *minimiser) first(cands []*Plan) (int, *Outcome) {
	for lo := 0; lo < len(cands); lo += 8 {
		if time.Now().After(m.deadline) {
			return -1, nil
		}
		hi := min(lo+8, len(cands))
		outs := make([]*Outcome, hi-lo)
		oks := make([]bool, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i-lo], oks[i-lo] = m.try(cands[i])
			}()
		}
		wg.Wait()
		m.tried += hi - lo
		for i := range oks {
			if oks[i] {
				m.kept++
				return lo + i, outs[i]
			}
		}
	}

	return -1, nil
}

// chunks removes runs of elements, larger ones first.
func chunks(n int, mk func(lo, hi int) *Plan) []*Plan {
	var out []*Plan
	for size := n; size >= 1; size /= 2 {
		for lo := 0; lo < n; lo += size {
			if q := mk(lo, min(lo+size, n)); q != nil {
				out = append(out, q)
			}
		}
		if n > 64 && size <= n/16 {
			break
		}
	}

	return out
}

func (m *minimiser) run(p *Plan, o *Outcome) (*Plan, *Outcome) {
	best, bo := clone(p), o
	if o.Viol[0].Class == "hang" || o.Viol[0].Class == "crash" {
		m.deadline = time.Now().Add(90 * time.Second)
	}
	// pin the schedule
	if len(best.Tasks) > 1 && !o.Overflow && o.Trace != nil {
		q := clone(best)
		q.UseTrace, q.Trace = true, o.Trace
		if _, out := m.first([]*Plan{q}); out != nil {
			best, bo = q, out
		}
	}
	if len(best.Warmup) > 0 {
		for {
			n := len(best.Warmup)
			i, out := m.first(func() []*Plan {
				var cs []*Plan
				if n > 1 {
					q := clone(best)
					q.Warmup = q.Warmup[n/2:]
					cs = append(cs, q)
					q = clone(best)
					q.Warmup = q.Warmup[:n/2]
					cs = append(cs, q)
				}

				return cs
			}())
			if i < 0 {
				break
			}
			if i == 0 {
				best.Warmup = best.Warmup[n/2:]
			} else {
				best.Warmup = best.Warmup[:n/2]
			}
			bo = out
		}
	}
	for range 6 {
		before := m.kept
		for _, step := range []func(*Plan) []*Plan{dropTasks, dropPreempts, dropFaults, dropOps, dropPre, dropInsts, simplify} {
			for time.Now().Before(m.deadline) {
				cs := step(best)
				i, out := m.first(cs)
				if i < 0 {
					break
				}
				best, bo = cs[i], out
				if best.UseTrace && out.Trace != nil && len(out.Trace) <= len(best.Trace) {
					// keep only the decisions that took effect
					q := clone(best)
					q.Trace = out.Trace
					if len(q.Trace) < len(best.Trace) {
						if _, o2 := m.first([]*Plan{q}); o2 != nil {
							best, bo = q, o2
						}
					}
				}
			}
		}
		if m.kept == before || time.Now().After(m.deadline) {
			break
		}
	}

	return best, bo
}

// variants gives the plan as it is and, when a schedule is pinned, also with
// the seeded scheduler, because a shorter history shifts the logical clock.
func variants(q *Plan) []*Plan {
	if !q.UseTrace {
		return []*Plan{q}
	}

	return []*Plan{q}
}

func dropTasks(p *Plan) []*Plan {
	var out []*Plan
	for i := range p.Tasks {
		if len(p.Tasks[i]) == 0 {
			continue
		}
		q := clone(p)
		q.Tasks[i] = nil
		out = append(out, variants(q)...)
	}

	return out
}

func dropPreempts(p *Plan) []*Plan {
	if !p.UseTrace {
		return nil
	}

	return chunks(len(p.Trace), func(lo, hi int) *Plan {
		q := clone(p)
		q.Trace = append(q.Trace[:lo:lo], q.Trace[hi:]...)

		return q
	})
}

func dropFaults(p *Plan) []*Plan {
	out := chunks(len(p.Faults), func(lo, hi int) *Plan {
		q := clone(p)
		q.Faults = append(q.Faults[:lo:lo], q.Faults[hi:]...)

		return q
	})

	return append(out, chunks(len(p.Cust), func(lo, hi int) *Plan {
		q := clone(p)
		q.Cust = append(q.Cust[:lo:lo], q.Cust[hi:]...)

		return q
	})...)
}

func dropOps(p *Plan) []*Plan {
	var out []*Plan
	for t := range p.Tasks {
		out = append(out, chunks(len(p.Tasks[t]), func(lo, hi int) *Plan {
			q := clone(p)
			q.Tasks[t] = append(q.Tasks[t][:lo:lo], q.Tasks[t][hi:]...)

			return q
		})...)
	}

	return out
}

func dropPre(p *Plan) []*Plan {
	out := chunks(len(p.Post), func(lo, hi int) *Plan {
		q := clone(p)
		q.Post = append(q.Post[:lo:lo], q.Post[hi:]...)

		return q
	})

	return append(out, chunks(len(p.Pre), func(lo, hi int) *Plan {
		q := clone(p)
		q.Pre = append(q.Pre[:lo:lo], q.Pre[hi:]...)

		return q
	})...)
}

// dropInsts replaces unused archives by a trivial one, keeping the numbering.
func dropInsts(p *Plan) []*Plan {
	used := map[int]bool{}
	mark := func(ops []Op) {
		for _, o := range ops {
			used[o.I%max(len(p.Insts), 1)] = true
		}
	}
	mark(p.Pre)
	mark(p.Post)
	for _, t := range p.Tasks {
		mark(t)
	}
	var out []*Plan
	n := len(p.Insts)
	if n > 1 && !used[n-1] {
		// modulo arithmetic only matters for indices beyond the end
		q := clone(p)
		q.Insts = q.Insts[:n-1]
		out = append(out, q)
	}
	for i := range p.Insts {
		if !used[i] && len(p.Insts[i].Arch.Folders) > 0 {
			q := clone(p)
			q.Insts[i] = InstSpec{Via: "mem", Arch: ArchSpec{Header: "plain", Empty: 1}}
			out = append(out, q)
		}
	}

	return out
}

// simplify makes archives plainer.
func simplify(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan) bool) {
		q := clone(p)
		if f(q) {
			out = append(out, q)
		}
	}
	for i := range p.Insts {
		in := &p.Insts[i]
		add(func(q *Plan) bool { q.Insts[i].Latency = 0; return in.Latency != 0 })
		add(func(q *Plan) bool { q.Insts[i].Arch.Prefix = 0; return in.Arch.Prefix != 0 && !in.Arch.Garbage })
		add(func(q *Plan) bool { q.Insts[i].Arch.Gap = 0; return in.Arch.Gap != 0 })
		add(func(q *Plan) bool { q.Insts[i].Arch.Trail = 0; return in.Arch.Trail != 0 })
		add(func(q *Plan) bool { q.Insts[i].Arch.Form = 0; return in.Arch.Form != 0 })
		add(func(q *Plan) bool { q.Insts[i].Arch.Tiny = 0; return in.Arch.Tiny != 0 })
		add(func(q *Plan) bool {
			q.Insts[i].Arch.Header, q.Insts[i].Arch.HAES = "plain", nil
			return in.Arch.Header != "plain"
		})
		add(func(q *Plan) bool { q.Insts[i].Split, q.Insts[i].Vols = false, nil; return in.Split })
		add(func(q *Plan) bool {
			q.Insts[i].Arch.Empty, q.Insts[i].Arch.Dirs = 0, 0
			return in.Arch.Empty+in.Arch.Dirs > 0
		})
		for k := range in.Arch.Forge {
			add(func(q *Plan) bool {
				fg := q.Insts[i].Arch.Forge
				q.Insts[i].Arch.Forge = append(fg[:k:k], fg[k+1:]...)

				return true
			})
		}
		for k := range in.Arch.Folders {
			f := &in.Arch.Folders[k]
			add(func(q *Plan) bool { q.Insts[i].Arch.Folders[k].AES = nil; return f.AES != nil })
			add(func(q *Plan) bool { q.Insts[i].Arch.Folders[k].Under = nil; return len(f.Under) > 0 })
			for x := range f.Filters {
				add(func(q *Plan) bool {
					fl := q.Insts[i].Arch.Folders[k].Filters
					q.Insts[i].Arch.Folders[k].Filters = append(fl[:x:x], fl[x+1:]...)

					return true
				})
			}
			add(func(q *Plan) bool {
				q.Insts[i].Arch.Folders[k].Files = []int{1}
				return len(f.Files) > 1
			})
		}
	}

	return out
}
