package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"strings"

	"github.com/bodgit/sevenzip"
	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// node is one path of the expected file system view.
type node struct {
	path string
	dir  bool
	file int // index into arch.Files, -1 for implied directories
	kids []string
	dup  bool // several entries claim the path; the first one has it
}

type inst struct {
	idx      int
	spec     *InstSpec
	arch     *Arch
	disk     *Disk
	name     string
	zr       *sevenzip.Reader
	rc       *sevenzip.ReadCloser
	opens    int
	closing  bool
	closes   int   // calls of Close
	failed   []int // attempts that failed on a storage fault, by stream
	custFail []int // decoder faults fired, by stream
	openH    []int // open handles by stream
	inflight []int
	alive    []int // live custom decoder instances by stream
	chains   []int // bottom custom decoders constructed
	custSeen []int // events seen by each decoder fault
	bottom   []int // method number of the first custom decoder of a stream
	nodes    map[string]*node
	dups     bool // several entries claim one path
	paths    []string
	files    []*sevenzip.File
	ref      *refHeader // what the header says
}

type handle struct {
	id     int
	in     *inst
	fi     int
	m      *FileModel
	rc     io.ReadCloser
	fsf    fs.File
	pos    int
	open   bool // norace access only
	closed bool
	failed bool
	eof    bool
	wild   bool // content is not comparable (wrong password, damaged)
	ver    int  // custom decompressor version seen, -1 none
	same   bool // wild content so far equals the model
	dir    *node
	dirPos int
	gen    int // which opening of the archive it belongs to
}

type tctx struct {
	r      *run
	id     int
	stage  string
	opi    int
	h      map[int]*handle
	viol   []Violation
	hash   uint64
	buf    []byte
	cur    *handle
	curVer int // version observed by the decoder constructed during this op
	opCust []*cust
	rng    *Rng
	ops    int
	cnt    map[string]int64
	log    []string
	hist   []regEv
}

type run struct {
	plan  *Plan
	insts []*inst
	tasks []*tctx // of the current stage
	all   []*tctx
	reg   [maxMethods]int // method states registered (for probes)
	salt  [4]byte
	evseq int64
	dead  bool
	ids   int

	memBase, memSeen, memNext, memMay, memKeep int64
	memOpens                                   int
}

const maxMethods = 10

var theRun *run

var keepLog bool

// ---- violations ----------------------------------------------------------

func (t *tctx) fail(class string, props []string, format string, a ...any) {
	v := Violation{Class: class, Props: props, Detail: fmt.Sprintf(format, a...), Task: t.id, Op: t.opi, Stage: t.stage, Clock: vsim.Clock()}
	t.viol = append(t.viol, v)
	t.note("VIOLATION " + class + ": " + v.Detail)
	if v.concerns(t.r.plan.Prop) {
		vsim.AbortRun()
		panic(vsim.Abort{})
	}
}

func (t *tctx) note(s string) {
	if keepLog {
		t.log = append(t.log, fmt.Sprintf("%s task %d op %d @%d: %s", t.stage, t.id, t.opi, vsim.Clock(), s))
	}
}

func (t *tctx) mixHash(vs ...int64) {
	for _, v := range vs {
		t.hash = (t.hash ^ uint64(v)) * 0x100000001b3
	}
}

func (t *tctx) mixErr(err error) {
	if err == nil {
		t.mixHash(1)
		return
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(err.Error()))
	t.mixHash(int64(h.Sum64()))
}

//go:norace
func (r *run) seq() int64 { r.evseq++; return r.evseq }

//go:norace
func (r *run) newID() int { r.ids++; return r.ids }

// ---- setting up ----------------------------------------------------------

func expand(plan *Plan) *run {
	r := &run{plan: plan}
	custSalt = saltOf(plan.Seed)
	r.salt = custSalt
	theFs.reset()
	for i := range plan.Insts {
		is := &plan.Insts[i]
		in := &inst{idx: i, spec: is}
		in.arch = is.Arch.build(i)
		in.disk = newDisk(i, in.arch, is.Vols, plan.Faults, is.Latency, mix(plan.Seed, uint64(i), 3))
		n := len(in.arch.Folders)
		in.failed, in.custFail, in.openH = make([]int, n), make([]int, n), make([]int, n)
		in.inflight, in.alive, in.chains = make([]int, n), make([]int, n), make([]int, n)
		in.custSeen = make([]int, len(plan.Cust))
		in.bottom = make([]int, n)
		for k := range in.bottom {
			in.bottom[k] = is.Arch.Folders[k].bottom()
		}
		if is.Via == "fs" {
			in.name = theFs.mount(in.disk, fmt.Sprintf("/sim/%sa%d.7z", is.Base, i), is.Split)
		}
		if plan.Forward {
			in.disk.fetched = make([]uint8, len(in.arch.Bytes))
		}
		in.tree()
		r.insts = append(r.insts, in)
	}

	return r
}

func (in *inst) tree() {
	in.nodes = map[string]*node{".": {path: ".", dir: true, file: -1}}
	for i := range in.arch.Files {
		f := &in.arch.Files[i]
		if f.Path == "" {
			continue
		}
		if n := in.nodes[f.Path]; n != nil {
			n.dup, in.dups = true, true
			continue
		}
		in.nodes[f.Path] = &node{path: f.Path, dir: f.Dir, file: i}
	}
	for _, p := range sortedKeys(in.nodes) {
		parts := strings.Split(p, "/")
		for k := 1; k < len(parts); k++ {
			d := strings.Join(parts[:k], "/")
			if n := in.nodes[d]; n == nil {
				in.nodes[d] = &node{path: d, dir: true, file: -1}
			} else if !n.dir {
				n.dup, in.dups = true, true
			}
		}
	}
	for p := range in.nodes {
		in.paths = append(in.paths, p)
	}
	sort.Strings(in.paths)
	for _, p := range in.paths {
		if p == "." {
			continue
		}
		d, b := ".", p
		if i := strings.LastIndexByte(p, '/'); i >= 0 {
			d, b = p[:i], p[i+1:]
		}
		in.nodes[d].kids = append(in.nodes[d].kids, b)
	}
	for _, n := range in.nodes {
		sort.Strings(n.kids)
	}
}

// ---- shared flags touched by several tasks -------------------------------

//go:norace
func (in *inst) setClosing() { in.closing = true; in.closes++ }

//go:norace
func (in *inst) closeCalls() int { return in.closes }

//go:norace
func (in *inst) isClosing() bool { return in.closing }

//go:norace
func (h *handle) setOpen(v bool) { h.open = v }

//go:norace
func (in *inst) bump(a []int, fo, d int) int { a[fo] += d; return a[fo] }

//go:norace
func (in *inst) peek(a []int, fo int) int { return a[fo] }

//go:norace
func (d *Disk) total() int { return d.firedTotal }

//go:norace
func (d *Disk) inFolder(fo int) (errs, touched int) { return d.firedIn[fo], d.touched[fo] }

//go:norace
func (d *Disk) setPhase(p string) { d.phase = p }

//go:norace
func (d *Disk) heal() { d.healed = true }

// ---- running -------------------------------------------------------------

func execute(p *Plan) (out *Outcome) {
	out = &Outcome{Fired: map[string]int{}, Probes: map[string]int64{}}
	cfg := vsim.Config{
		Seed: p.Seed, NumCPU: p.NumCPU, PoolHit: p.PoolHit, OpLimit: p.OpLimit, RunLimit: 40 * p.OpLimit,
	}
	if cfg.OpLimit == 0 {
		cfg.OpLimit = 200_000_000
		cfg.RunLimit = 4_000_000_000
	}
	r := expand(p)
	defer unmapAll()
	theRun = r
	vsim.Begin(cfg)
	races := vsim.RaceErrors()
	vsim.FsHook = theFs
	for k := 0; k < p.Methods && k < maxMethods; k++ {
		sevenzip.RegisterDecompressor(customID(k), custMaker(0, k))
	}
	one := cfg
	ok := r.stage(out, "pre", one, [][]Op{p.Pre})
	if ok && len(p.Tasks) > 0 {
		m := cfg
		m.Strategy, m.Mean, m.SyncPm, m.Depth, m.Horizon = p.Strategy, p.Mean, p.SyncPm, p.Depth, p.Horizon
		m.Replay, m.Trace = p.UseTrace, p.Trace
		ok = r.stage(out, "main", m, p.Tasks)
	}
	if ok {
		ok = r.stage(out, "post", one, [][]Op{p.Post})
	}
	vsim.FsHook = nil
	if n := vsim.RaceErrors() - races; n > 0 {
		out.Viol = append(out.Viol, Violation{Class: "race", Detail: fmt.Sprintf("the race detector reported %d data race(s); see the log", n)})
	}
	if ok {
		r.final(out)
	}
	for _, in := range r.insts {
		for _, f := range in.disk.faults {
			out.Fired[f.Kind] += f.fired
		}
		out.Fired["forged"] += len(in.spec.Arch.Forge)
		for _, n := range in.custFail {
			out.Fired["decoder"] += n
		}
	}
	out.LogHash = 0xcbf29ce484222325
	for _, t := range r.all {
		out.LogHash = (out.LogHash ^ t.hash) * 0x100000001b3
		out.Ops += t.ops
		for k, v := range t.cnt {
			out.Probes[k] += v
		}
		out.Log = append(out.Log, t.log...)
	}
	pr := vsim.Probes()
	out.Probes["blocked"] += pr[0]
	out.Probes["decoder recycled"] += pr[1]
	out.Probes["reads stalled"] += pr[2]
	theRun = nil

	return out
}

// stage runs op lists as tasks; false means the run is over.
func (r *run) stage(out *Outcome, name string, cfg vsim.Config, lists [][]Op) bool {
	if len(lists) == 1 && len(lists[0]) == 0 {
		return true
	}
	r.tasks = nil
	var bodies []func()
	for i, ops := range lists {
		t := &tctx{r: r, id: i, stage: name, h: map[int]*handle{}, hash: 0xcbf29ce484222325, cnt: map[string]int64{},
			rng: newRng(mix(r.plan.Seed, uint64(i), uint64(len(name))))}
		r.tasks = append(r.tasks, t)
		r.all = append(r.all, t)
		bodies = append(bodies, func() { t.main(ops) })
	}
	res := vsim.Run(cfg, bodies)
	out.Points += res.Points
	out.SimTime += res.SimTime
	if name == "main" {
		out.Hash, out.Trace, out.Switches, out.Overflow = res.Hash, res.Trace, res.Switches, res.Overflow
	}
	ok := true
	for _, t := range r.tasks {
		for _, v := range t.viol {
			out.Viol = append(out.Viol, v)
			if v.concerns(r.plan.Prop) {
				ok = false
			}
		}
	}
	if res.Stalled != "" && ok {
		v := Violation{Class: "stall", Props: []string{"C22"}, Detail: res.Stalled, Stage: name}
		out.Viol = append(out.Viol, v)
		ok = !v.concerns(r.plan.Prop)
	}
	if res.Deadlock != "" && ok {
		out.Viol = append(out.Viol, Violation{Class: "deadlock", Detail: res.Deadlock, Stage: name})
		ok = false
	}

	return ok
}

func (t *tctx) main(ops []Op) {
	for i := range ops {
		t.opi = i
		if !t.guard(&ops[i]) {
			return
		}
	}
	t.opi = len(ops)
}

func (t *tctx) guard(op *Op) (ok bool) {
	defer func() {
		v := recover()
		if v == nil {
			return
		}
		ok = false
		switch v := v.(type) {
		case vsim.Abort:
		case vsim.Hang:
			t.viol = append(t.viol, Violation{Class: "hang", Detail: fmt.Sprintf("%s did not finish within %d steps; stuck in %s", op.K, v.Points, topFrame()), Task: t.id, Op: t.opi, Stage: t.stage, Clock: vsim.Clock()})
			vsim.AbortRun()
		default:
			t.viol = append(t.viol, Violation{Class: "panic", Detail: fmt.Sprintf("%s panicked: %v at %s", op.K, v, topFrame()), Task: t.id, Op: t.opi, Stage: t.stage, Clock: vsim.Clock()})
			vsim.AbortRun()
		}
	}()
	vsim.OpStart()
	vsim.Point()
	t.ops++
	t.curVer = -1
	t.opCust = t.opCust[:0]
	t.cur = nil
	t.do(op)
	t.cur = nil

	return !vsim.Aborting()
}

// topFrame names the innermost frame of the code under test.
func topFrame() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	first := ""
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/bodgit/sevenzip") && !strings.Contains(f.Function, "/zzverif/") {
			fn := f.File[strings.LastIndexByte(f.File, '/')+1:]
			return fmt.Sprintf("%s (%s:%d)", strings.TrimPrefix(f.Function, "github.com/bodgit/"), fn, f.Line)
		}
		if first == "" && !strings.HasPrefix(f.Function, "runtime.") {
			first = f.Function
		}
		if !more {
			break
		}
	}

	return first
}

func (t *tctx) inst(op *Op) *inst { return t.r.insts[op.I%len(t.r.insts)] }

func (t *tctx) do(op *Op) {
	t.mixHash(int64(len(op.K)), int64(op.H), int64(op.F))
	switch op.K {
	case "open":
		t.opOpen(t.inst(op))
	case "probe":
		t.opProbe(t.inst(op), op)
	case "ref":
		t.opRef(t.inst(op))
	case "closearch":
		t.opCloseArch(t.inst(op))
	case "list":
		t.checkListing(t.inst(op))
	case "openfile":
		t.opOpenFile(t.inst(op), op, false)
	case "fsfile":
		t.opOpenFile(t.inst(op), op, true)
	case "fsopen":
		t.opFsOpen(t.inst(op), op)
	case "read":
		t.opRead(op)
	case "readp", "readall", "copy":
		t.opReadMany(op)
	case "close":
		t.opClose(op)
	case "extract": // open, read to the end, close
		t.opOpenFile(t.inst(op), op, op.S == "fs")
		t.opReadMany(&Op{K: "readall", H: op.H, M: op.M})
		t.opClose(op)
	case "recover":
		t.opRecover(t.inst(op), op)
	case "heal":
		for _, in := range t.r.insts {
			in.disk.heal()
		}
	case "readdir":
		t.opReadDir(op)
	case "fsstat":
		t.opFsStat(t.inst(op), op)
	case "fsreadfile":
		t.opFsReadFile(t.inst(op), op)
	case "fswalk":
		t.opFsWalk(t.inst(op))
	case "fstest":
		t.opFsTest(t.inst(op))
	case "mem":
		t.opMem(op)
	case "register":
		t.opRegister(op)
	case "regload":
		t.opRegLoad(t.inst(op), op)
	default:
		panic("unknown op " + op.K)
	}
}

// ---- archives ------------------------------------------------------------

func memAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)

	return ms.TotalAlloc
}

func (t *tctx) opOpen(in *inst) {
	if in.zr != nil && !in.isClosing() {
		return
	}
	d := in.disk
	d.setPhase("open")
	firedBefore := d.total()
	var (
		zr  *sevenzip.Reader
		rc  *sevenzip.ReadCloser
		err error
	)
	meas := !vsim.RaceEnabled && len(t.r.tasks) == 1
	var m0 uint64
	if meas {
		m0 = memAlloc()
	}
	if in.spec.Via == "fs" {
		rc, err = sevenzip.OpenReaderWithPassword(in.name, in.spec.Pw)
		if rc != nil {
			zr = &rc.Reader
		}
	} else {
		zr, err = sevenzip.NewReaderWithPassword(&memReader{d}, int64(len(d.data)), in.spec.Pw)
	}
	if meas {
		lim := uint64(48<<20) + 64*uint64(min(len(d.data), 1<<28))
		if in.spec.Arch.HAES != nil {
			lim += 16 << 20
		}
		if got := memAlloc() - m0; got > lim {
			t.fail("alloc", []string{"C06"}, "opening an archive of %d bytes allocated %d bytes", len(d.data), got)
		}
	}
	t.mixErr(err)
	t.mixHash(int64(d.total() - firedBefore))
	if err != nil {
		t.note(fmt.Sprintf("open inst %d: %v", in.idx, err))
		if zr != nil || rc != nil {
			t.fail("open-nonnil", nil, "a failed open also returned a reader (%v)", err)
		}
		t.judgeOpen(in, err, d.total()-firedBefore)
		t.checkFds(in, 0)
		t.cnt["open failed"]++

		return
	}
	t.note(fmt.Sprintf("open inst %d: ok", in.idx))
	if in.arch.Bad {
		t.fail("garbage-accepted", nil, "input without an archive was opened")
	}
	d.setPhase("body")
	d.damage("body") // before any other caller can open a file
	in.zr, in.rc = zr, rc
	in.closing, in.closes = false, 0
	in.opens++
	in.files = append(in.files[:0], zr.File...)
	if in.arch.EncH && in.spec.Pw != in.arch.HPw {
		t.fail("wrongpw", []string{"C10", "C06", "C11"}, "an encrypted header was opened with the wrong password")
	}
	t.checkListing(in)
	t.checkFds(in, 1)
	if rc != nil {
		vols := rc.Volumes()
		want := d.present()
		if strings.Join(vols, "|") != strings.Join(want, "|") {
			t.fail("volumes", []string{"C08", "C09"}, "volumes %v, want %v", clip(vols), clip(want))
		}
	}
	t.cnt["opens"]++
}

func clip(s []string) string {
	if len(s) > 6 {
		return fmt.Sprintf("%v... (%d)", s[:6], len(s))
	}

	return fmt.Sprint(s)
}

// judgeOpen decides whether an open error is legitimate.
func (t *tctx) judgeOpen(in *inst, err error, fired int) {
	d := in.disk
	var re *sevenzip.ReadError
	isRE := errors.As(err, &re)
	if isRE && re.Encrypted != in.arch.EncH {
		t.fail("hint", []string{"C11"}, "open error has encryption hint %v for a header that is encrypted=%v: %v", re.Encrypted, in.arch.EncH, err)
	}
	switch {
	case in.arch.Bad:
		if fired == 0 && !strings.Contains(err.Error(), "not a valid 7-zip file") {
			t.fail("garbage-error", []string{"C08", "C17"}, "input without an archive is reported as: %v", err)
		}
	case in.arch.EncH && in.spec.Pw != in.arch.HPw:
		if fired == 0 && !d.damaged() && !isRE {
			t.fail("hint", []string{"C11"}, "wrong password for the header is not reported as a ReadError: %v", err)
		}
	case d.damaged():
		if d.onlyIn(in.arch.EncHdr) && fired == 0 {
			if !isRE {
				t.fail("hint", []string{"C11"}, "damage confined to the packed header is not reported as a ReadError: %v", err)
			}
		}
		if d.onlyInFolders() && fired == 0 {
			t.fail("spurious-open-error", nil, "the headers are intact but opening fails: %v", err)
		}
	case fired > 0:
		if !d.eofFired() {
			t.injected(in, err, "opening")
		}
		if in.arch.EncHdr.Hi > in.arch.EncHdr.Lo && !d.wide && d.faultsWithin(in.arch.EncHdr) && !isRE {
			t.fail("hint", []string{"C11"}, "a storage error inside the packed header is not reported as a ReadError: %v", err)
		}
	default:
		t.fail("spurious-open-error", nil, "opening a healthy archive failed: %v", err)
	}
}

// injected checks that err unwraps to an injected fault that really fired.
func (t *tctx) injected(in *inst, err error, what string) *InjErr {
	var ie *InjErr
	if !errors.As(err, &ie) {
		t.fail("cause-lost", []string{"C03", "C15", "C17", "C09", "C14"}, "%s failed because of a storage fault, but the error does not unwrap to it: %v", what, err)

		return nil
	}
	for _, f := range in.disk.faults {
		if f.err == ie {
			if f.fired == 0 {
				t.fail("cause-wrong", nil, "%s reports fault #%d, which never fired", what, ie.ID)
			}

			return ie
		}
	}
	t.fail("cause-wrong", nil, "%s reports a fault of another archive: %v", what, err)

	return ie
}

func (t *tctx) checkFds(in *inst, want int) {
	if in.spec.Via != "fs" {
		return
	}
	if v, o, c := in.disk.fdBalance(want); v >= 0 {
		t.fail("volume-handles", []string{"C09"}, "volume %d was opened %d and closed %d times; expected %d open", v+1, o, c, want)
	}
	if in.disk.doubleClosed() {
		t.fail("volume-handles", []string{"C09"}, "a volume was closed more often than it was opened")
	}
}

func (t *tctx) opCloseArch(in *inst) {
	if in.rc == nil {
		return
	}
	again := in.isClosing()
	in.setClosing()
	t0 := in.disk.closeErrTotal()
	fired0, fired1 := make([]int, len(in.disk.faults)), make([]int, len(in.disk.faults))
	in.disk.closeErrsFired(fired0)
	if again {
		in.disk.closedAgain()
	}
	err := in.rc.Close()
	in.disk.closeErrsFired(fired1)
	t.mixErr(err)
	t.cnt["archive closes"]++
	if again || in.closeCalls() > 1 {
		return // another caller closes it, too
	}
	d := in.disk
	if d.closeErrTotal() > t0 {
		if err == nil {
			t.fail("close-error-lost", []string{"C09"}, "closing a volume failed but Close reported nothing")
		} else {
			for i, f := range d.faults {
				if fired1[i] > fired0[i] && !errors.Is(err, f.err) {
					t.fail("close-error-lost", []string{"C09"}, "Close does not report the failing close of volume %d: %v", f.Vol+1, err)
				}
			}
		}
	} else if err != nil {
		t.fail("close-error", nil, "closing a healthy archive failed: %v", err)
	}
	t.checkFds(in, 0)
}

// checkListing compares the listing with the model.
func (t *tctx) checkListing(in *inst) {
	if in.zr == nil {
		return
	}
	if d := in.listingDiff(); d != "" {
		t.fail("listing", nil, "%s", d)
	}
}

func (in *inst) listingDiff() string {
	fsx := in.zr.File
	if len(fsx) != len(in.arch.Files) {
		return fmt.Sprintf("%d entries listed, want %d", len(fsx), len(in.arch.Files))
	}
	for i, f := range fsx {
		m := &in.arch.Files[i]
		if i < len(in.files) && in.files[i] != f {
			return fmt.Sprintf("entry %d was replaced after opening", i)
		}
		name := m.Name
		if m.Dir && !strings.HasSuffix(name, "/") {
			name += "/"
		}
		if f.Name != name {
			return fmt.Sprintf("entry %d is named %q, want %q", i, f.Name, name)
		}
		if f.UncompressedSize != uint64(len(m.Data)) || f.FileInfo().Size() != int64(len(m.Data)) {
			return fmt.Sprintf("%s has size %d, want %d", name, f.UncompressedSize, len(m.Data))
		}
		if f.CRC32 != m.CRC {
			return fmt.Sprintf("%s has checksum %08x, want %08x", name, f.CRC32, m.CRC)
		}
		if m.Folder >= 0 && f.Stream != m.Folder {
			return fmt.Sprintf("%s is in stream %d, want %d", name, f.Stream, m.Folder)
		}
		if !f.Modified.Equal(m.MTime) {
			return fmt.Sprintf("%s was modified %v, want %v", name, f.Modified, m.MTime)
		}
		if f.Attributes != m.Attr {
			return fmt.Sprintf("%s has attributes %x, want %x", name, f.Attributes, m.Attr)
		}
		if !f.Created.Equal(m.CTime) || !f.Accessed.Equal(m.ATime) {
			return fmt.Sprintf("%s was created %v and accessed %v, want %v and %v", name, f.Created, f.Accessed, m.CTime, m.ATime)
		}
		if f.Mode() != m.mode() || f.FileInfo().Mode() != m.mode() {
			return fmt.Sprintf("%s has mode %v, want %v", name, f.Mode(), m.mode())
		}
		if f.FileInfo().IsDir() != m.Dir {
			return fmt.Sprintf("%s: directory is %v, want %v", name, f.FileInfo().IsDir(), m.Dir)
		}
	}

	return ""
}

// ---- files ---------------------------------------------------------------

func (in *inst) wrongPw(fo int) bool {
	return in.arch.Folders[fo].Enc && in.spec.Pw != in.arch.Folders[fo].Pw
}

func (t *tctx) newHandle(in *inst, fi int) *handle {
	return &handle{id: t.r.newID(), in: in, fi: fi, m: &in.arch.Files[fi], ver: -1, same: true, gen: in.opens}
}

// before and after bracket a library call on behalf of h.
func (t *tctx) before(h *handle) {
	t.cur = h
	if h.m != nil && h.m.Folder >= 0 {
		h.in.bump(h.in.inflight, h.m.Folder, 1)
	}
}

func (t *tctx) after(h *handle) {
	if h.m != nil && h.m.Folder >= 0 {
		h.in.bump(h.in.inflight, h.m.Folder, -1)
	}
	t.cur = nil
	if h.m == nil || h.m.Folder < 0 {
		return
	}
	t.checkAlive(h.in, h.m.Folder)
}

// gone tells that the archive of h is closed or being closed.
func (h *handle) gone() bool { return h.in.isClosing() || h.gen != h.in.opens }

func (t *tctx) checkAlive(in *inst, fo int) {
	n := in.peek(in.alive, fo)
	if n == 0 || in.opens > 1 { // what an archive had parked goes with it
		return
	}
	lim := (in.peek(in.openH, fo) + in.peek(in.inflight, fo) + t.r.plan.NumCPU) * in.arch.Folders[fo].NCust
	if n > lim {
		t.fail("instances", []string{"C13"}, "%d live decoder instances for stream %d with %d open files and %d processors", n, fo, in.peek(in.openH, fo), t.r.plan.NumCPU)
	}
}

func (t *tctx) opOpenFile(in *inst, op *Op, viaFs bool) {
	if in.zr == nil || len(in.arch.Files) == 0 {
		return
	}
	if old := t.h[op.H]; old != nil && !old.closed {
		return // slot busy
	}
	fi := op.F % len(in.arch.Files)
	if op.F < 0 {
		fi = len(in.arch.Files) - 1
	}
	if viaFs && !in.arch.Files[fi].Dir && in.arch.Files[fi].Path != "" {
		n := in.nodes[in.arch.Files[fi].Path]
		if n.dir {
			return
		}
		fi = n.file // the first that claims the path
	}
	if in.arch.Files[fi].Far && op.S != "far" {
		return // takes long
	}
	h := t.newHandle(in, fi)
	var err error
	t.before(h)
	if viaFs && !h.m.Dir {
		h.fsf, err = in.zr.Open(h.m.Path)
		h.rc = h.fsf
	} else {
		h.rc, err = in.files[fi].Open()
	}
	t.opened(h, op.H, err)
}

func (t *tctx) opened(h *handle, slot int, err error) {
	in := h.in
	if err == nil && h.m.Folder >= 0 {
		in.bump(in.openH, h.m.Folder, 1)
		h.setOpen(true)
	}
	t.after(h)
	t.mixErr(err)
	h.ver = t.curVer
	t.cnt["file opens"]++
	t.opened1(h)
	t.checkMem(0)
	if err != nil {
		t.note(fmt.Sprintf("open %s of inst %d: %v", h.m.Name, in.idx, err))
		t.judge(h, err, "opening")
		t.checkPartial(h)

		return
	}
	t.note(fmt.Sprintf("open %s of inst %d (handle %d): ok", h.m.Name, in.idx, h.id))
	if h.m.Folder >= 0 {
		h.wild = in.wrongPw(h.m.Folder) || in.disk.damagedFolder(h.m.Folder)
	}
	t.h[slot] = h
}
