package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strconv"

	"github.com/bodgit/sevenzip"
	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// custErr is the failure of one of the harness's own decompressors.
type custErr struct{ n int }

func (e *custErr) Error() string { return "injected decoder failure " + strconv.Itoa(e.n) }

// cust is an instance of one of the harness's own decompressors. It detects
// two users at a time, use after close and double close.
type cust struct {
	ver    int
	k      int
	in     *inst
	fo     int
	rc     io.ReadCloser
	pos    int
	busy   bool
	closed bool
	owner  *handle
	dead   bool // close failed on purpose
	src    io.Reader
	err    error
	size   int
	quirk  int
	idle   int
}

// The ways in which a plan's own decompressors read their input, all of which
// decompressors in the field show.
const (
	quirkNone    = iota
	quirkAhead   // through a buffer of their own
	quirkCtor    // all of it when they are built
	quirkFirst   // all of it before they return anything
	quirkShort   // few bytes at a time
	quirkDataEOF // with the end of file along with the last bytes
	quirkNothing // now and then nothing, without an error
	quirks
)

func custMaker(version, k int) sevenzip.Decompressor {
	return func(props []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
		return newCust(version, k, props, size, readers)
	}
}

//go:norace
func task() *tctx {
	ct := vsim.Current()
	if ct == nil || theRun == nil || ct.ID >= len(theRun.tasks) {
		return nil
	}

	return theRun.tasks[ct.ID]
}

//go:norace
func newCust(version, k int, props []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
	t := task()
	if t == nil {
		return nil, errRO
	}
	vsim.Point()
	if len(props) != 3 || int(props[2]) != k || int(props[0]) >= len(t.r.insts) || len(readers) != 1 || readers[0] == nil {
		t.fail("ctor-args", nil, "decompressor %d was built with properties %x and %d readers", k, props, len(readers))
		return nil, errRO
	}
	in := t.r.insts[props[0]]
	fo := int(props[1])
	if fo >= len(in.arch.Folders) || int(size) != in.arch.Folders[fo].CustLen[k] {
		t.fail("ctor-args", nil, "decompressor %d was built for stream %d with size %d", k, fo, size)
		return nil, errRO
	}
	if e := in.custEvent("ctor", k, fo); e != nil {
		return nil, e
	}
	c := &cust{ver: version, k: k, in: in, fo: fo, rc: readers[0], owner: t.cur}
	c.size, c.quirk = int(size), theRun.plan.quirk(k)
	c.src = c.rc
	switch c.quirk {
	case quirkAhead:
		c.src = bufio.NewReaderSize(c.rc, 16<<(theRun.plan.CSize%9))
	case quirkCtor:
		if e := c.slurp(); e != nil {
			return nil, e
		}
	}
	in.alive[fo]++
	if in.custBottom(fo) == k {
		in.chains[fo]++
	}
	t.curVer = version
	t.addCust(c)

	return c, nil
}

// quirk is how decompressor number k reads its input in this plan.
//
//go:norace
func (p *Plan) quirk(k int) int {
	if k < len(p.CMode) {
		return p.CMode[k] % quirks
	}

	return quirkNone
}

//go:norace
func (c *cust) slurp() error {
	b, err := io.ReadAll(c.rc)
	if err != nil {
		c.err = fmt.Errorf("decompressor %d: %w", c.k, err)
	}
	c.src = bytes.NewReader(b)

	return c.err
}

// fetch reads from the input the way the quirk has it.
//
//go:norace
func (c *cust) fetch(p []byte) (int, error) {
	if c.quirk == quirkFirst && c.src == io.Reader(c.rc) {
		_ = c.slurp()
	}
	if c.err != nil {
		return 0, c.err
	}
	if c.quirk == quirkNothing {
		if c.idle++; len(p) > 0 && c.idle%(2+theRun.plan.CSize%5) == 0 {
			return 0, nil
		}
	}
	if c.quirk == quirkShort && len(p) > 1 {
		p = p[:1+(c.pos*7+theRun.plan.CSize)%min(len(p), 1+theRun.plan.CSize%100)]
	}
	n, err := c.src.Read(p)
	if c.quirk == quirkDataEOF && err == nil && c.pos+n == c.size {
		err = io.EOF
	}

	return n, err
}

//go:norace
func (t *tctx) addCust(c *cust) {
	n := make([]*cust, len(t.opCust)+1)
	for i := range t.opCust {
		n[i] = t.opCust[i]
	}
	n[len(t.opCust)] = c
	t.opCust = n
}

//go:norace
func (in *inst) custBottom(fo int) int { return in.bottom[fo] }

//go:norace
func (in *inst) custEvent(kind string, k, fo int) error {
	if in.disk.healed {
		return nil
	}
	cf := theRun.plan.Cust
	for i := range cf {
		f := &cf[i]
		if f.Inst != in.idx || f.Kind != kind || f.K >= 0 && f.K != k {
			continue
		}
		in.custSeen[i]++
		s := in.custSeen[i]
		if s > f.At && s <= f.At+f.N {
			in.custFail[fo]++

			return &custErr{i}
		}
	}

	return nil
}

// checkPartial runs after a failed open: decoders built for a chain that was
// never completed must have been closed.
func (t *tctx) checkPartial(h *handle) {
	if h.m.Folder < 0 {
		return
	}
	per := h.in.arch.Folders[h.m.Folder].NCust
	if len(t.opCust) == 0 || len(t.opCust) >= per {
		return
	}
	for _, c := range t.opCust {
		if c.alive() {
			t.fail("instances", []string{"C13"}, "opening %s failed while its decoders were being built, and decoder %d of stream %d was left open", h.m.Name, c.k, c.fo)
			return
		}
	}
}

//go:norace
func (c *cust) alive() bool { return !c.closed }

//go:norace
func (c *cust) Read(p []byte) (int, error) {
	t := task()
	if t == nil {
		return 0, errRO
	}
	if c.closed {
		t.fail("use-after-close", []string{"C13", "C16", "C02"}, "decoder %d of stream %d is read after it was closed", c.k, c.fo)
		return 0, errRO
	}
	if c.busy {
		t.fail("two-users", []string{"C13", "C02"}, "decoder %d of stream %d is read by two callers at once", c.k, c.fo)
		return 0, errRO
	}
	if t.cur != nil && c.owner != t.cur {
		if c.owner != nil && c.owner.open {
			t.fail("two-users", []string{"C13", "C02"}, "decoder %d of stream %d serves two open files", c.k, c.fo)
		}
		c.owner = t.cur
	}
	c.busy = true
	vsim.Point()
	if e := c.in.custEvent("read", c.k, c.fo); e != nil {
		c.busy = false
		return 0, e
	}
	n, err := c.fetch(p)
	if c.ver != 0 {
		for i := 0; i < n; i++ {
			p[i] ^= customXor(c.ver, c.pos+i)
		}
		vsim.RaceWrite(p[:max(n, 0)])
	}
	c.pos += max(n, 0)
	vsim.Point()
	c.busy = false

	return n, err
}

//go:norace
func (c *cust) Close() error {
	t := task()
	vsim.Point()
	if c.closed {
		if t != nil {
			t.fail("double-close", []string{"C13", "C16"}, "decoder %d of stream %d is closed twice", c.k, c.fo)
		}

		return errRO
	}
	if c.busy && t != nil && !vsim.Aborting() {
		t.fail("two-users", []string{"C13", "C02"}, "decoder %d of stream %d is closed while it is being read", c.k, c.fo)
	}
	if t != nil && t.cur != nil && c.owner != nil && c.owner != t.cur && c.owner.open {
		t.fail("two-users", []string{"C13", "C02"}, "decoder %d of stream %d is closed on behalf of one file while another open file uses it", c.k, c.fo)
	}
	c.closed = true
	c.in.alive[c.fo]--
	if theRun != nil && theRun.plan.Drain && !vsim.Aborting() {
		var b [64]byte // some decoders look at what is left of their input
		_, _ = c.rc.Read(b[:])
	}
	err := c.rc.Close()
	if e := c.in.custEvent("close", c.k, c.fo); e != nil {
		return e
	}

	return err
}

// ---- registry --------------------------------------------------------------

// regEv is one event of the history of a method's registration: a
// registration of version V, or an open that built a decoder of version V.
type regEv struct {
	method, v  int
	write      bool
	start, end int64
	task       int
	what       string
}

func (t *tctx) opRegister(op *Op) {
	k := op.M % maxMethods
	id := customID(k)
	ev := regEv{method: k, v: op.N, write: true, task: t.id, start: t.r.seq()}
	sevenzip.RegisterDecompressor(id, custMaker(op.N, k))
	ev.end = t.r.seq()
	// the caller may reuse its buffer
	for i := range id {
		id[i] = 0xee
	}
	t.hist = append(t.hist, ev)
	t.cnt["registrations"]++
	t.mixHash(int64(op.N))
}

// opRegLoad opens the file of a single-file stream, which always builds a
// decoder, and records which version it got.
func (t *tctx) opRegLoad(in *inst, op *Op) {
	if in.zr == nil || len(in.arch.Files) == 0 {
		return
	}
	fi := op.F % len(in.arch.Files)
	h := t.newHandle(in, fi)
	fo := h.m.Folder
	if fo < 0 {
		return
	}
	k := in.bottom[fo]
	ev := regEv{method: k, task: t.id, start: t.r.seq(), what: h.m.Name}
	var err error
	t.before(h)
	h.rc, err = in.files[fi].Open()
	ev.end = t.r.seq()
	if err == nil {
		in.bump(in.openH, fo, 1)
		h.setOpen(true)
	}
	t.after(h)
	t.mixErr(err)
	t.cnt["registry opens"]++
	if err != nil {
		// the only reason can be that the method is unknown
		ev.v = -1
		t.hist = append(t.hist, ev)
		t.note(fmt.Sprintf("open %s: %v", h.m.Name, err))

		return
	}
	ev.v = t.curVer
	h.ver = t.curVer
	t.note(fmt.Sprintf("open %s: version %d", h.m.Name, h.ver))
	t.hist = append(t.hist, ev)
	t.h[-2] = h
	t.opReadMany(&Op{K: "readall", H: -2, M: op.M})
	t.opClose(&Op{H: -2})
}

// checkVersion checks that a handle's bytes all come from the decompressor
// version its open was given.
func (t *tctx) checkVersion(h *handle, p, want []byte) {
	off := 0
	// position within the stream
	for _, fi := range h.in.arch.Folders[h.m.Folder].Files {
		if fi == h.fi {
			break
		}
		off += len(h.in.arch.Files[fi].Data)
	}
	for i := range p {
		if p[i]^want[i] != customXor(h.ver, off+h.pos+i) {
			t.fail("version-mixture", []string{"C18", "C02"}, "%s opened with version %d of its decompressor delivers a byte that is not that version's at offset %d", h.m.Name, h.ver, h.pos+i)
			return
		}
	}
}

// checkRegistry decides whether each method's history of registrations and
// opens is linearizable as a register whose initial value is the version
// registered up front (0) or none (-1).
func (r *run) checkRegistry(out *Outcome) {
	if r.plan.Family != "registry" {
		return
	}
	var evs [maxMethods][]regEv
	for _, t := range r.all {
		for _, e := range t.hist {
			evs[e.method] = append(evs[e.method], e)
		}
	}
	for k := range evs {
		init := -1
		if k < r.plan.Methods {
			init = 0
		}
		ok, done := linearizable(init, evs[k])
		if done && !ok {
			s := ""
			for _, e := range evs[k] {
				w := "open got"
				if e.write {
					w = "register"
				}
				s += fmt.Sprintf(" [task %d %s %d: %d..%d]", e.task, w, e.v, e.start, e.end)
			}
			out.Viol = append(out.Viol, Violation{Class: "registry", Props: []string{"C18", "C02"}, Detail: fmt.Sprintf("method %d: no order of the registrations explains what the opens got:%s", k, s), Stage: "final"})
		}
	}
}

// linearizable is an exhaustive search with memoisation over which events
// have taken effect; done is false when the history is too long to decide.
func linearizable(init int, evs []regEv) (ok, done bool) {
	n := len(evs)
	if n > 40 {
		return true, false
	}
	type key struct {
		set uint64
		v   int
	}
	seen := map[key]bool{}
	steps := 0
	var rec func(set uint64, v int) bool
	rec = func(set uint64, v int) bool {
		if set == uint64(1)<<n-1 {
			return true
		}
		kk := key{set, v}
		if seen[kk] {
			return false
		}
		seen[kk] = true
		if steps++; steps > 200000 {
			return false
		}
		minEnd := int64(1) << 62
		for i := range evs {
			if set>>i&1 == 0 && evs[i].end < minEnd {
				minEnd = evs[i].end
			}
		}
		for i := range evs {
			if set>>i&1 == 1 || evs[i].start > minEnd {
				continue
			}
			if evs[i].write {
				if rec(set|1<<i, evs[i].v) {
					return true
				}
			} else if evs[i].v == v {
				if rec(set|1<<i, v) {
					return true
				}
			}
		}

		return false
	}
	ok = rec(0, init)

	return ok, ok || steps <= 200000
}
