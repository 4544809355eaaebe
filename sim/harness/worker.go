package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"syscall"
	"time"

	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// stats is what a worker reports about the plans it ran.
type stats struct {
	Runs     int              `json:"runs"`
	Points   int64            `json:"points"`
	Switches int64            `json:"switches"`
	SimTime  int64            `json:"simtime"`
	Ops      int64            `json:"ops"`
	Overflow int64            `json:"overflow"`
	Multi    int64            `json:"multi"` // runs with more than one caller
	Switched int64            `json:"switched"`
	Faulty   int64            `json:"faulty"` // runs in which a fault fired
	Fired    map[string]int64 `json:"fired"`
	Probes   map[string]int64 `json:"probes"`
	Families map[string]int64 `json:"families"`
	Codecs   map[string]int64 `json:"codecs"`
	Hashes   []uint64         `json:"hashes"`  // schedules of runs with several callers
	Results  []uint64         `json:"results"` // everything the callers saw
	Nontriv  int64            `json:"nontriv"`
	Other    map[string]int64 `json:"other"` // breaches of other properties seen
	Wall     float64          `json:"wall"`
	Checks   []uint64         `json:"checks"` // index, schedule hash, result hash triples for the determinism check
}

func newStats() *stats {
	return &stats{Fired: map[string]int64{}, Probes: map[string]int64{}, Families: map[string]int64{}, Codecs: map[string]int64{}, Other: map[string]int64{}}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Points += o.Points
	s.Switches += o.Switches
	s.SimTime += o.SimTime
	s.Ops += o.Ops
	s.Overflow += o.Overflow
	s.Multi += o.Multi
	s.Switched += o.Switched
	s.Faulty += o.Faulty
	s.Nontriv += o.Nontriv
	for k, v := range o.Fired {
		s.Fired[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Families {
		s.Families[k] += v
	}
	for k, v := range o.Codecs {
		s.Codecs[k] += v
	}
	for k, v := range o.Other {
		s.Other[k] += v
	}
	s.Hashes = append(s.Hashes, o.Hashes...)
	s.Results = append(s.Results, o.Results...)
	s.Checks = append(s.Checks, o.Checks...)
	s.Wall += o.Wall
}

// violations keeps those that concern the plan's property.
func (o *Outcome) violations(prop string) []Violation {
	var v []Violation
	for _, x := range o.Viol {
		if x.concerns(prop) {
			v = append(v, x)
		}
	}

	return v
}

// msg is one line from a worker to its parent.
type msg struct {
	T     string      `json:"t"` // B: begins plan I, V: violation, S: statistics
	I     int         `json:"i"`
	Viol  []Violation `json:"viol,omitempty"`
	Stats *stats      `json:"stats,omitempty"`
}

func limitMemory(lim uint64) {
	if vsim.RaceEnabled {
		return
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim << 8})
}

// indices lists the plan indices of one worker.
func indices(prop string, race bool, from, count, w, n int) []int {
	var out []int
	k := 0
	for i := from; i < from+count; i++ {
		if (racy[prop] > 0 && i%100 < racy[prop]) != race {
			continue
		}
		if k%n == w {
			out = append(out, i)
		}
		k++
	}

	return out
}

func workerMain(prop string, base uint64, tier string, list []int, capS float64) {
	limitMemory(4 << 30)
	runtime.GOMAXPROCS(1)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	send := func(m msg) {
		_ = enc.Encode(m)
		_ = w.Flush()
	}
	st := newStats()
	start := time.Now()
	for k, i := range list {
		if time.Since(start).Seconds() > capS {
			break
		}
		send(msg{T: "B", I: i})
		p := makePlan(prop, base, i, tier)
		out := execute(p)
		st.add(p, out)
		if k%97 == 3 && len(st.Checks) < 6 {
			st.Checks = append(st.Checks, uint64(i), out.Hash, out.LogHash)
		}
		if v := out.violations(prop); len(v) > 0 {
			send(msg{T: "V", I: i, Viol: v})

			break
		}
	}
	st.Wall = time.Since(start).Seconds()
	send(msg{T: "S", Stats: st})
}

func (s *stats) add(p *Plan, o *Outcome) {
	s.Runs++
	s.Points += o.Points
	s.Switches += o.Switches
	s.SimTime += o.SimTime
	s.Ops += int64(o.Ops)
	s.Families[p.Family]++
	if o.Overflow {
		s.Overflow++
	}
	if len(p.Tasks) > 1 {
		s.Multi++
		s.Hashes = append(s.Hashes, o.Hash)
		if o.Switches > 0 {
			s.Switched++
		}
	}
	fired := 0
	for k, v := range o.Fired {
		if v > 0 {
			s.Fired[k] += int64(v)
			fired += v
		}
	}
	if fired > 0 {
		s.Faulty++
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for i := range p.Insts {
		for _, f := range p.Insts[i].Arch.Folders {
			c := f.Codec
			if len(c) > 7 && c[:7] == "custom:" {
				c = "custom"
			}
			s.Codecs[c]++
			if f.AES != nil {
				s.Codecs["aes"]++
			}
			if len(f.Under) > 0 {
				s.Codecs["custom below"]++
			}
			for _, x := range f.Filters {
				if len(x) > 6 {
					switch x[:5] {
					case "delta":
						x = "delta"
					case "custo":
						x = "custom"
					}
				}
				s.Codecs["filter "+x]++
			}
		}
	}
	if o.Ops > len(p.Insts)+1 && (o.Probes["bytes"] > 0 || fired > 0 || o.Probes["opens"] > 0) {
		s.Nontriv++
		s.Results = append(s.Results, o.LogHash)
	}
	for _, v := range o.Viol {
		if !v.concerns(p.Prop) {
			s.Other[v.Class+" ("+fmt.Sprint(v.Props)+")"]++
		}
	}
}

// runMain runs one plan from a file in this process and prints its outcome.
func runMain(path string, logTo bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Index < 0 {
		limitMemory(24 << 30)
	} else {
		limitMemory(4 << 30)
	}
	runtime.GOMAXPROCS(1)
	for _, i := range p.Warmup {
		execute(makePlan(p.Prop, p.BaseSeed, i, p.Tier))
	}
	keepLog = logTo
	out := execute(&p)
	if logTo {
		for _, l := range out.Log {
			fmt.Fprintln(os.Stderr, l)
		}
	}
	o, _ := json.Marshal(out)
	fmt.Println(string(o))

	return 0
}
