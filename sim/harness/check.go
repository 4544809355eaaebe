package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checker is the parent process of one check. It executes no code under test.
type checker struct {
	prop, tier, plain, race, verif, info, tmp string
	base                                      uint64
	count                                     int
	capS, budget                              float64
	start                                     time.Time
	notes                                     []string
	mu                                        sync.Mutex
}

type found struct {
	index int
	race  bool
	prev  []int // indices run before by the same process
	viol  []Violation
}

// quickRuns is how many plans the quick tier runs; set so that it takes
// about 15 seconds on the development machine.
var quickRuns = map[string]int{
	"C01": 20000, "C02": 3000, "C03": 40000, "C04": 25000, "C05": 40000, "C06": 200000, "C07": 20000, "C08": 25000, "C09": 80000,
	"C10": 10000, "C11": 30000, "C12": 60000, "C13": 40000, "C14": 25000, "C15": 10000, "C16": 12000, "C17": 60000, "C18": 18000, "C19": 60000, "C20": 30000, "C22": 25000, "C23": 150, "C24": 60000,
}

func (c *checker) bin(race bool) string {
	if race {
		return c.race
	}

	return c.plain
}

func (c *checker) cmd(race bool, args ...string) *exec.Cmd {
	cm := exec.Command(c.bin(race), args...)
	cm.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "VERIF_FIXTURES="+filepath.Join(c.verif, "fixtures"))
	if race {
		cm.Env = append(cm.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(c.tmp, "race"))
	}

	return cm
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)

	return (u + s) / 100
}

// stallCPU is how much processor time one plan may take without reporting;
// the simulator's own step limits are reached long before.
func stallCPU(race bool) float64 {
	if race {
		return 60
	}

	return 25
}

// watch kills cm when it uses more than lim of processor time, or 10 times as
// much of real time, without beat changing.
func watch(cm *exec.Cmd, lim float64, beat func() int64, done chan struct{}) *bool {
	killed := new(bool)
	go func() {
		last, cpu0, t0 := beat(), cpuOf(cm.Process.Pid), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
			}
			if b := beat(); b != last {
				last, cpu0, t0 = b, cpuOf(cm.Process.Pid), time.Now()
				continue
			}
			if cpuOf(cm.Process.Pid)-cpu0 > lim || time.Since(t0).Seconds() > 10*lim {
				*killed = true
				_ = cm.Process.Kill()

				return
			}
		}
	}()

	return killed
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 16<<10 {
		t.b = append(t.b, p[:min(len(p), 16<<10-len(t.b))]...)
	}

	return len(p), nil
}

// runPlan runs one plan in a fresh process.
func (c *checker) runPlan(p *Plan, log bool) (*Outcome, string) {
	f, err := os.CreateTemp(c.tmp, "plan")
	if err != nil {
		return nil, err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(p)
	_, _ = f.Write(b)
	_ = f.Close()
	verb := "run"
	if log {
		verb = "log"
	}
	cm := c.cmd(p.Race, verb, f.Name())
	var so bytes.Buffer
	se := &tail{}
	cm.Stdout, cm.Stderr = &so, se
	if err := cm.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan struct{})
	killed := watch(cm, 2*stallCPU(p.Race), func() int64 { return 0 }, done)
	err = cm.Wait()
	close(done)
	if *killed {
		return &Outcome{Viol: []Violation{{Class: "hang", Detail: "the run does not end (no scheduling point is reached)"}}}, string(se.b)
	}
	if err != nil {
		return &Outcome{Viol: []Violation{{Class: "crash", Detail: firstLine(string(se.b))}}}, string(se.b)
	}
	var o Outcome
	if e := json.Unmarshal(so.Bytes(), &o); e != nil {
		return nil, e.Error()
	}

	return &o, string(se.b)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.Contains(l, "SIG") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}

	return s
}

// worker runs one worker process to its end and returns a violation, if any.
func (c *checker) worker(race bool, w, n, count int, st *stats) (*found, error) {
	list := indices(c.prop, race, 0, count, w, n)
	after, strange := -1, 0
	for {
		args := []string{"worker", "-prop", c.prop, "-seed", strconv.FormatUint(c.base, 10), "-tier", c.tier, "-count", strconv.Itoa(count),
			"-w", strconv.Itoa(w), "-n", strconv.Itoa(n), "-after", strconv.Itoa(after), "-cap", fmt.Sprint(max(c.capS-time.Since(c.start).Seconds(), 1))}
		if race {
			args = append(args, "-race")
		}
		cm := c.cmd(race, args...)
		so, err := cm.StdoutPipe()
		if err != nil {
			return nil, err
		}
		se := &tail{}
		cm.Stderr = se
		if err := cm.Start(); err != nil {
			return nil, err
		}
		var (
			mu   sync.Mutex
			beat int64
			cur  = -1
			v    *found
			fin  bool
		)
		done := make(chan struct{})
		killed := watch(cm, stallCPU(race), func() int64 { mu.Lock(); defer mu.Unlock(); return beat }, done)
		rd := bufio.NewReaderSize(so, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			var m msg
			if json.Unmarshal(line, &m) != nil {
				continue
			}
			mu.Lock()
			beat++
			mu.Unlock()
			switch m.T {
			case "B":
				cur = m.I
			case "V":
				v = &found{index: m.I, race: race, viol: m.Viol}
			case "S":
				c.mu.Lock()
				st.merge(m.Stats)
				c.mu.Unlock()
				fin = true
			}
		}
		werr := cm.Wait()
		close(done)
		var prev []int
		for _, i := range list {
			if i > after && i < cur {
				prev = append(prev, i)
			}
		}
		if v != nil {
			v.prev = prev
			return v, nil
		}
		if fin && werr == nil {
			return nil, nil
		}
		if cur < 0 {
			return nil, fmt.Errorf("worker failed before its first run: %v: %s", werr, se.b)
		}
		// crashed or stalled in plan cur: does that repeat by itself?
		p := makePlan(c.prop, c.base, cur, c.tier)
		for _, wu := range [][]int{nil, prev} {
			if wu != nil && *killed {
				break // a stall is judged by itself
			}
			p.Warmup = wu
			o, msg := c.runPlan(p, false)
			if o == nil {
				return nil, fmt.Errorf("cannot repeat plan %d: %s", cur, msg)
			}
			if vs := o.violations(c.prop); len(vs) > 0 {
				return &found{index: cur, race: race, viol: vs, prev: prev}, nil
			}
		}
		what := "crashed"
		if *killed {
			what = "stalled"
		}
		c.note("worker %v/%d %s in plan %d, which does not repeat: %v %s", race, w, what, cur, werr, firstLine(string(se.b)))
		after = cur
		if strange++; strange > 3 {
			return nil, fmt.Errorf("workers keep failing without a repeatable reason: %s", firstLine(string(se.b)))
		}
	}
}

func (c *checker) note(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
	fmt.Fprintf(os.Stderr, format+"\n", a...)
}

func (c *checker) check() int {
	c.start = time.Now()
	if gens[c.prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.prop)
		return 2
	}
	if c.tmp == "" {
		d, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c.tmp = d
		defer os.RemoveAll(d)
	}
	count := c.count
	if count == 0 {
		count = quickRuns[c.prop]
		if c.tier == "thorough" {
			count *= 1000
		}
	}
	if c.capS > 1e8 {
		c.capS = 100
		if c.tier == "thorough" {
			c.capS = 780
		}
		if c.budget > 0 {
			c.capS = c.budget
		}
	}
	type job struct {
		race bool
		w, n int
	}
	var jobs []job
	np, nr := 8, 0
	if racy[c.prop] > 0 && c.race != "" {
		np, nr = 3, 5
	}
	for i := range np {
		jobs = append(jobs, job{false, i, np})
	}
	for i := range nr {
		jobs = append(jobs, job{true, i, nr})
	}
	st := newStats()
	res := make([]*found, len(jobs))
	errs := make([]error, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i], errs[i] = c.worker(j.race, j.w, j.n, count, st)
		}()
	}
	wg.Wait()
	var fs []*found
	for _, f := range res {
		if f != nil {
			fs = append(fs, f)
		}
	}
	for i := range huge[c.prop] {
		p := makePlan(c.prop, c.base, -1-i, c.tier)
		o, log := c.runPlan(p, false)
		if o == nil || strings.Contains(log, "out of memory") {
			c.note("a stream with the largest dictionary could not be checked: no memory for it")

			continue
		}
		st.add(p, o)
		if v := o.violations(c.prop); len(v) > 0 {
			fs = append(fs, &found{index: -1 - i, viol: v})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].index < fs[j].index })
	explore := time.Since(c.start).Seconds()
	known := c.known()
	code := 0
	nviol := 0
	reported := map[string]bool{}
	for _, f := range fs {
		if len(reported) >= 2 {
			break
		}
		if reported[f.viol[0].Class] {
			continue
		}
		file, ok := c.report(f, known)
		if !ok {
			errs = append(errs, fmt.Errorf("the violation of plan %d (%s) does not repeat: %s", f.index, f.viol[0].Class, f.viol[0].Detail))
			continue
		}
		reported[f.viol[0].Class] = true
		if file != "" {
			nviol++
			code = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, file)
		}
	}
	for _, k := range known {
		if !k.fixed && k.prop == c.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.text)
		}
	}
	det := c.determinism(st)
	c.evidence(st, explore, nviol, det)
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, "error:", e)
			if code == 0 {
				code = 2
			}
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s runs=%d wall=%.1fs\n", c.prop, st.Runs, time.Since(c.start).Seconds())
	}

	return code
}

// determinism repeats some of the plans in fresh processes and compares.
func (c *checker) determinism(st *stats) string {
	n, same := 0, 0
	for i := 0; i+2 < len(st.Checks) && n < 8; i += 3 * max(1, len(st.Checks)/24) {
		p := makePlan(c.prop, c.base, int(st.Checks[i]), c.tier)
		o, _ := c.runPlan(p, false)
		if o == nil {
			continue
		}
		n++
		if o.Hash == st.Checks[i+1] && o.LogHash == st.Checks[i+2] {
			same++
		} else {
			c.note("plan %d did not repeat exactly in a fresh process: %x %x, then %x %x", st.Checks[i], st.Checks[i+1], st.Checks[i+2], o.Hash, o.LogHash)
		}
	}

	return fmt.Sprintf("%d of %d plans repeated in a fresh process gave the same schedule and the same results", same, n)
}

type knownFinding struct {
	prop, text, match string
	fixed             bool
}

// known reads the known findings: lines "fixed: ..." or
// "finding: property=<id> match=<text of class and detail> <what fails>".
func (c *checker) known() []knownFinding {
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "match=\"")
		if !ok {
			continue
		}
		m, text, _ := strings.Cut(rest, "\" ")
		out = append(out, knownFinding{prop: prop, match: m, text: text})
	}

	return out
}

// Replay is a replay file.
type Replay struct {
	Property  string      `json:"property"`
	Violation []Violation `json:"violation"`
	Found     string      `json:"found"`
	Minimised string      `json:"minimised"`
	Race      string      `json:"race,omitempty"`
	Log       []string    `json:"log"`
	Plan      *Plan       `json:"plan"`
}

// report confirms, minimises and writes down a violation.
func (c *checker) report(f *found, known []knownFinding) (string, bool) {
	p := makePlan(c.prop, c.base, f.index, c.tier)
	class := f.viol[0].Class
	try := func(p *Plan) (*Outcome, bool) {
		o, _ := c.runPlan(p, false)
		if o == nil {
			return nil, false
		}
		for _, v := range o.violations(c.prop) {
			if v.Class == class {
				return o, true
			}
		}

		return o, false
	}
	o, ok := try(p)
	if !ok {
		p.Warmup = f.prev
		o, ok = try(p)
		if !ok {
			return "", false
		}
	}
	m := &minimiser{c: c, try: try, deadline: time.Now().Add(60 * time.Second)}
	best, bo := m.run(p, o)
	for _, k := range known {
		if k.prop != c.prop || k.fixed {
			continue
		}
		vs := bo.violations(c.prop)
		if len(vs) > 0 && strings.Contains(vs[0].Class+": "+vs[0].Detail, k.match) {
			return "", true
		}
	}
	// the replay must be exact
	o1, log := c.runPlan(best, true)
	exact := o1 != nil && o1.Hash == bo.Hash && o1.LogHash == bo.LogHash && len(o1.Viol) == len(bo.Viol)
	rp := &Replay{Property: c.prop, Plan: best, Violation: bo.violations(c.prop), Log: strings.Split(strings.TrimSpace(log), "\n"),
		Found:     fmt.Sprintf("plan %d of base seed %d, tier %s", f.index, c.base, c.tier),
		Minimised: fmt.Sprintf("%d of %d candidate reductions kept; %d preemptions, %d operations, %d faults left; exact replay: %v", m.kept, m.tried, len(best.Trace), nops(best), len(best.Faults)+len(best.Cust), exact)}
	if class == "race" {
		rp.Race = c.raceLog(best)
	}
	dir := filepath.Join(c.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.prop, class, c.base, f.index))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	vs := bo.violations(c.prop)
	if len(vs) > 0 {
		fmt.Printf("%s: %s\n", vs[0].Class, vs[0].Detail)
	}

	return path, true
}

// raceLog runs a plan once more and returns the race detector's report.
func (c *checker) raceLog(p *Plan) string {
	old, _ := filepath.Glob(filepath.Join(c.tmp, "race.*"))
	for _, f := range old {
		_ = os.Remove(f)
	}
	c.runPlan(p, false)
	fs, _ := filepath.Glob(filepath.Join(c.tmp, "race.*"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
			return string(b[:min(len(b), 6000)])
		}
	}

	return ""
}

func nops(p *Plan) int {
	n := len(p.Pre) + len(p.Post)
	for _, t := range p.Tasks {
		n += len(t)
	}

	return n
}

// replay runs a replay file and reports whether the violation shows again.
func (c *checker) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	if c.tmp == "" {
		d, _ := os.MkdirTemp("", "vsim")
		c.tmp = d
		defer os.RemoveAll(d)
	}
	c.prop = r.Property
	o, log := c.runPlan(r.Plan, true)
	fmt.Print(log)
	if o == nil {
		return 2
	}
	if vs := o.violations(r.Property); len(vs) > 0 {
		for _, v := range vs {
			fmt.Printf("%s: %s\n", v.Class, v.Detail)
		}
		if vs[0].Class == "race" {
			fmt.Println(c.raceLog(r.Plan))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)

		return 1
	}
	fmt.Println("the violation does not show")

	return 0
}

func (c *checker) evidence(st *stats, explore float64, nviol int, det string) {
	uniq := func(v []uint64) int {
		m := map[uint64]bool{}
		for _, x := range v {
			m[x] = true
		}

		return len(m)
	}
	hours := max(explore, 0.001) / 3600
	samples := []any{}
	for k := 0; k < 2 && k < st.Runs; k++ {
		samples = append(samples, sample(makePlan(c.prop, c.base, k*7, c.tier)))
	}
	var info map[string]any
	_ = json.Unmarshal([]byte(c.info), &info)
	cov := map[string]any{
		"evaluations":                       st.Runs,
		"distinct_nontrivial":               uniq(st.Results),
		"rule":                              "one evaluation is one simulated run of a seeded plan (archives, callers' operations, faults, scheduler settings); it is non-trivial if at least one archive was opened and the callers performed operations beyond opening, and distinct if the sequence of all results the callers saw differs (hash of every count, error and listing)",
		"samples":                           samples,
		"runs_per_hour":                     int(float64(st.Runs) / hours),
		"seeds_per_hour":                    int(float64(st.Runs) / hours),
		"exploration_s":                     explore,
		"simulated_time_s":                  float64(st.SimTime) / 1e9,
		"logical_steps":                     st.Points,
		"operations":                        st.Ops,
		"runs_with_several_callers":         st.Multi,
		"runs_with_preemptions":             st.Switched,
		"preemptions":                       st.Switches,
		"distinct_interleavings":            uniq(st.Hashes),
		"interleaving_measure":              "hash of the full sequence of scheduling decisions (logical step, task) of runs with several callers",
		"runs_with_faults":                  st.Faulty,
		"faults_fired":                      st.Fired,
		"probes":                            st.Probes,
		"families":                          st.Families,
		"codecs_in_plans":                   st.Codecs,
		"truncated_traces":                  st.Overflow,
		"breaches_of_other_properties_seen": st.Other,
		"determinism":                       det,
		"build":                             info,
		"real_components":                   "all of github.com/bodgit/sevenzip (instrumented copy made from the working tree) and all its third-party decoders (not instrumented)",
		"stub_components":                   "storage (simulated volumes and file system behind the afero seam or io.ReaderAt), scheduler and sync primitives used by the repository, runtime.NumCPU, clock; third-party code runs atomically between scheduling points and zstd in its synchronous mode (one processor)",
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"archives are produced by the harness's own encoder from pre-compressed samples and reference filters; their plain text is the model",
			"scheduling points are inserted before every statement of the repository; preemption inside third-party packages is not explored, except by the race detector",
		},
		"wall_s": time.Since(c.start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// sample shows a plan without bulk.
func sample(p *Plan) any {
	q := *p
	if len(q.Insts) > 2 {
		q.Insts = q.Insts[:2]
	}
	q.Insts = append([]InstSpec(nil), q.Insts...)
	for i := range q.Insts {
		if len(q.Insts[i].Vols) > 12 {
			q.Insts[i].Vols = q.Insts[i].Vols[:12]
		}
	}

	return &q
}
