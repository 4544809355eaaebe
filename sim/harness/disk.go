package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"

	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
	"github.com/spf13/afero"
)

// Fault is one injected storage fault. Offsets are those of the joined archive.
type Fault struct {
	Inst  int    `json:"inst"`
	Kind  string `json:"kind"`            // err short eof slow stall | openerr staterr closeerr | flip zero torn swap alias trunc
	Phase string `json:"phase,omitempty"` // open body any: when it is armed
	At    int    `json:"at,omitempty"`    // skip this many matching events first
	Lo    int64  `json:"lo,omitempty"`    // reads touching [Lo,Hi) only; at-rest: damaged range
	Hi    int64  `json:"hi,omitempty"`
	Count int    `json:"count,omitempty"` // how often it fires, -1 for ever (until healed)
	Arg   int64  `json:"arg,omitempty"`   // bytes delivered (short), cut (eof, trunc), latency (slow), bit (flip), source (swap)
	Vol   int    `json:"vol,omitempty"`   // volume (open/stat/close faults)
}

// InjErr is the error every injected fault returns.
type InjErr struct {
	ID   int
	Kind string
}

func (e *InjErr) Error() string { return "injected " + e.Kind + " fault #" + strconv.Itoa(e.ID) }

// NetErr also pretends to be a timeout, as network storage errors do.
func (e *InjErr) Timeout() bool { return e.ID%2 == 1 }

type faultState struct {
	Fault
	id      int
	seen    int
	fired   int
	applied bool // at rest, done
	err     *InjErr
}

const maxVol = 2100

// Disk is the simulated storage of one archive instance: the joined bytes,
// optionally cut into volumes, with faults. All of it is touched by whichever
// task holds the baton and hidden from the race detector, which is told only
// about the bytes written into callers' buffers.
type Disk struct {
	inst   int
	arch   *Arch
	data   []byte // current content (joined)
	clean  []byte
	vols   []int64 // start offset of each volume, plus the end
	names  []string
	faults []*faultState
	phase  string
	healed bool

	reads       int64
	missing     int   // volumes from this one on do not exist (0: all do)
	firedIn     []int // faults with errors fired, per folder
	firedHdr    int
	firedTotal  int
	wide        bool // a read that failed was not one of the packed header alone
	touched     []int // by folder: any non-slow fault (errors, eof) fired
	fetched     []uint8
	latency     int64
	lat         vsim.Rand
	opened      [maxVol]int16
	closed      [maxVol]int16
	fdUse       int // uses after close
	closeErrs   int
	closedTwice int
	extraCloses int // caused by the caller closing the archive again
}

//go:norace
func (d *Disk) folderAt(off int64) int {
	for i := range d.arch.Folders {
		sp := d.arch.Folders[i].Spans
		for k := range sp {
			if off >= sp[k].Lo && off < sp[k].Hi {
				return i
			}
		}
	}

	return -1
}

func newDisk(inst int, a *Arch, vols []int, faults []Fault, latency int64, seed uint64) *Disk {
	d := &Disk{inst: inst, arch: a, clean: a.Bytes, data: a.Bytes, phase: "open", latency: latency}
	d.lat.Seed(seed)
	d.firedIn = make([]int, len(a.Folders))
	d.touched = make([]int, len(a.Folders))
	n := int64(len(a.Bytes))
	d.vols = []int64{0}
	at := int64(0)
	for _, v := range vols {
		// a volume is never empty: nothing that splits archives makes such
		if v > 0 && at+int64(v) < n {
			at += int64(v)
			d.vols = append(d.vols, at)
		}
	}
	d.vols = append(d.vols, n)
	for i, f := range faults {
		if f.Inst != inst {
			continue
		}
		fs := &faultState{Fault: f, id: i}
		fs.err = &InjErr{i, f.Kind}
		d.faults = append(d.faults, fs)
	}
	d.damage("open")

	return d
}

// damage applies the at-rest faults of a phase.
func (d *Disk) damage(phase string) {
	for _, f := range d.faults {
		if f.Phase != phase || f.applied {
			continue
		}
		switch f.Kind {
		case "flip", "zero", "torn", "swap", "trunc", "alias":
			f.applied = true
		default:
			continue
		}
		if len(d.data) == 0 {
			continue
		}
		if &d.data[0] == &d.clean[0] {
			d.data = append([]byte(nil), d.clean...)
		}
		n := int64(len(d.data))
		lo, hi := min(max(f.Lo, 0), n), min(max(f.Hi, f.Lo), n)
		switch f.Kind {
		case "flip":
			if lo < n {
				d.data[lo] ^= 1 << (f.Arg & 7)
			}
		case "zero":
			clear(d.data[lo:hi])
		case "alias":
			aliasDamage(d.data[lo:hi], uint64(f.Arg))
		case "torn": // a write of the range that got only part of the way over older bytes
			old := genContent(uint64(f.Arg), int(hi-lo))
			copy(d.data[lo:hi], old)
		case "swap":
			src := f.Arg
			if src >= 0 && src+(hi-lo) <= n {
				copy(d.data[lo:hi], append([]byte(nil), d.clean[src:src+(hi-lo)]...))
			}
		case "trunc":
			if f.Arg < n {
				d.data = d.data[:f.Arg]
			}
			if f.Vol == 1 { // volumes that lie entirely beyond the cut are gone
				for i := 1; i+1 < len(d.vols); i++ {
					if d.vols[i] >= f.Arg {
						d.missing = i
						break
					}
				}
			}
		}
		f.fired++
		d.firedTotal++
	}
}

// aliasDamage flips bits of b such that its CRC-32 changes in one byte, in one
// half or in a single bit only: damage that a checksum compared, stored or
// computed incompletely would not notice. CRC-32 is linear, so such bits are
// found by elimination.
func aliasDamage(b []byte, seed uint64) {
	r := newRng(seed)
	if len(b) == 0 {
		return
	}
	target := uint32(0)
	for target == 0 {
		target = uint32(r.U64())
		switch r.N(3) {
		case 0:
			target &= 0xff << (8 * r.N(4))
		case 1:
			target &= 0xffff << (16 * r.N(2))
		default:
			target = 1 << r.N(32)
		}
	}
	type row struct {
		v    uint32
		bits []int
	}
	var basis [32]*row
	zero := make([]byte, len(b))
	c0 := crc32.ChecksumIEEE(zero)
	lead := func(v uint32) int { return 31 - bits.LeadingZeros32(v) }
	for range 60 {
		bit := r.N(8 * len(b))
		zero[bit/8] = 1 << (bit % 8)
		x := &row{crc32.ChecksumIEEE(zero) ^ c0, []int{bit}}
		zero[bit/8] = 0
		for x.v != 0 {
			o := basis[lead(x.v)]
			if o == nil {
				basis[lead(x.v)] = x
				break
			}
			x.v ^= o.v
			x.bits = append(x.bits, o.bits...)
		}
	}
	var flip []int
	for target != 0 {
		o := basis[lead(target)]
		if o == nil {
			b[r.N(len(b))] ^= 1 // too short for that
			return
		}
		target ^= o.v
		flip = append(flip, o.bits...)
	}
	for _, i := range flip {
		b[i/8] ^= 1 << (i % 8)
	}
}

// same tells that the stored bytes are the original ones.
func (d *Disk) same() bool {
	return len(d.data) == len(d.clean) && (len(d.data) == 0 || &d.data[0] == &d.clean[0])
}

// damaged tells whether anything stored differs from the original.
func (d *Disk) damaged() bool {
	return !d.same() && string(d.data) != string(d.clean)
}

// damagedFolder tells whether a stream's packed bytes differ from the original.
func (d *Disk) damagedFolder(i int) bool {
	if d.same() {
		return false
	}
	for _, s := range d.arch.Folders[i].Spans {
		hi := min(s.Hi, int64(len(d.data)))
		if hi > s.Lo && string(d.data[s.Lo:hi]) != string(d.clean[s.Lo:hi]) {
			return true
		}
	}

	return false
}

// cutFolder tells whether part of a stream's packed bytes is out of reach.
//
//go:norace
func (d *Disk) cutFolder(i int) bool {
	end := int64(len(d.data))
	for k := range d.faults {
		if f := d.faults[k]; f.Kind == "eof" && f.fired > 0 && f.Arg < end {
			end = f.Arg
		}
	}
	sp := d.arch.Folders[i].Spans
	for k := range sp {
		if sp[k].Hi > end {
			return true
		}
	}

	return false
}

//go:norace
func (d *Disk) eofFired() bool {
	for k := range d.faults {
		if d.faults[k].Kind == "eof" && d.faults[k].fired > 0 {
			return true
		}
	}

	return false
}

// onlyIn tells that all differences lie inside sp.
func (d *Disk) onlyIn(sp Span) bool {
	if len(d.data) != len(d.clean) || sp.Hi <= sp.Lo {
		return false
	}

	return string(d.data[:sp.Lo]) == string(d.clean[:sp.Lo]) && string(d.data[sp.Hi:]) == string(d.clean[sp.Hi:])
}

// onlyInFolders tells that all differences lie inside packed file content.
func (d *Disk) onlyInFolders() bool {
	if len(d.data) != len(d.clean) {
		return false
	}
	for i := range d.data {
		if d.data[i] != d.clean[i] && d.folderAt(int64(i)) < 0 {
			return false
		}
	}

	return true
}

// faultsWithin tells that every storage fault is confined to sp.
func (d *Disk) faultsWithin(sp Span) bool {
	for _, f := range d.faults {
		if f.Lo < sp.Lo || f.Hi > sp.Hi || f.Hi <= f.Lo {
			return false
		}
	}

	return len(d.faults) > 0
}

// present lists the names of the volumes that exist.
func (d *Disk) present() []string {
	if d.missing > 0 {
		return d.names[:d.missing]
	}

	return d.names
}

// fdBalance returns the first volume whose open count is not want.
//
//go:norace
func (d *Disk) fdBalance(want int) (vol, opened, closed int) {
	n := len(d.names)
	if d.missing > 0 {
		n = d.missing
	}
	for i := 0; i < n; i++ {
		if int(d.opened[i])-int(d.closed[i]) != want {
			return i, int(d.opened[i]), int(d.closed[i])
		}
	}

	return -1, 0, 0
}

//go:norace
func (d *Disk) doubleClosed() bool { return d.closedTwice > d.extraCloses }

//go:norace
func (d *Disk) closedAgain() { d.extraCloses += len(d.vols) - 1 }

//go:norace
func (d *Disk) closeErrsFired(out []int) {
	for i, f := range d.faults {
		if f.Kind == "closeerr" {
			out[i] = f.fired
		}
	}
}

//go:norace
func (d *Disk) closeErrTotal() int { return d.closeErrs }

// readAt serves one read of the joined range, limited to a volume's end.
//
//go:norace
func (d *Disk) readAt(p []byte, off, end int64) (int, error) {
	vsim.Point()
	if d.latency > 0 && vsim.Active() {
		vsim.Sleep(1 + int64(d.lat.U64()%uint64(d.latency)))
	}
	d.reads++
	if off < 0 {
		return 0, errNegOffset
	}
	if end > int64(len(d.data)) {
		end = int64(len(d.data))
	}
	n := int64(len(p))
	var err error
	if off >= end {
		n, err = 0, io.EOF
	} else if off+n > end {
		n, err = end-off, io.EOF
	}
	if !d.healed {
		for i := range d.faults {
			f := d.faults[i]
			if f.Phase != d.phase && f.Phase != "any" {
				continue
			}
			if f.Count >= 0 && f.fired >= f.Count {
				continue
			}
			if f.Hi > f.Lo && (off >= f.Hi || off+int64(len(p)) <= f.Lo) {
				continue
			}
			k := f.Kind
			if k == "eof" {
				// the device ends at Arg
				if off+n > f.Arg {
					n = max(0, f.Arg-off)
					err = io.EOF
					d.note(f, max(off, f.Arg))
				}

				continue
			}
			if k != "err" && k != "short" && k != "slow" && k != "stall" {
				continue
			}
			f.seen++
			if f.seen <= f.At {
				continue
			}
			if k == "stall" {
				f.fired++
				vsim.Stall()

				continue
			}
			if k == "slow" {
				f.fired++
				vsim.Sleep(f.Arg)

				continue
			}
			at := off
			if f.Hi > f.Lo && f.Lo > off {
				at = f.Lo
			}
			d.note(f, at)
			if e := d.arch.EncHdr; off < int64(e.Lo) || off+int64(len(p)) > int64(e.Hi) || len(d.names) > 1 {
				d.wide = true
			}
			m := int64(0)
			if k == "short" {
				m = f.Arg
				if f.Hi > f.Lo && f.Lo > off {
					m = f.Lo - off
				}
				if m > n-1 {
					m = n - 1
				}
				if m < 0 {
					m = 0
				}
			}
			d.fill(p, off, m)

			return int(m), f.err
		}
	}
	d.fill(p, off, n)

	return int(n), err
}

var errNegOffset = errors.New("simulated disk: negative offset")

//go:norace
func (d *Disk) note(f *faultState, off int64) {
	f.fired++
	d.firedTotal++
	fo := d.folderAt(off)
	if fo >= 0 {
		d.touched[fo]++
		if f.Kind != "eof" {
			d.firedIn[fo]++
		}
	} else {
		d.firedHdr++
	}
}

//go:norace
func (d *Disk) fill(p []byte, off, n int64) {
	if n <= 0 {
		return
	}
	if vsim.RaceEnabled {
		for i := int64(0); i < n; i++ {
			p[i] = d.data[off+i]
		}
	} else {
		copy(p[:n], d.data[off:])
	}
	vsim.RaceWrite(p[:n])
	if d.fetched != nil && d.phase == "body" {
		for i := off; i < off+n; i++ {
			if d.fetched[i] < 255 {
				d.fetched[i]++
			}
		}
	}
}

// memReader is the io.ReaderAt handed to NewReader.
type memReader struct{ d *Disk }

func (m *memReader) ReadAt(p []byte, off int64) (int, error) {
	return m.d.readAt(p, off, int64(len(m.d.clean)))
}

// ---- simulated file system ---------------------------------------------

type simFs struct {
	files map[string]*volFile
	calls int
}

type volFile struct {
	d   *Disk
	idx int
}

var theFs = &simFs{files: map[string]*volFile{}}

func (s *simFs) reset() { s.files = map[string]*volFile{} }

// mount makes the volumes of d visible under base; the name to open is returned.
func (s *simFs) mount(d *Disk, base string, split bool) string {
	n := len(d.vols) - 1
	d.names = nil
	for i := 0; i < n; i++ {
		name := base
		if split {
			name = fmt.Sprintf("%s.%03d", base, i+1)
		}
		d.names = append(d.names, name)
		s.files[name] = &volFile{d, i}
	}

	return d.names[0]
}

//go:norace
func (d *Disk) event(kind string, vol int) *InjErr {
	if d.healed {
		return nil
	}
	for _, f := range d.faults {
		if f.Kind != kind || f.Vol != vol || f.Count >= 0 && f.fired >= f.Count {
			continue
		}
		f.seen++
		if f.seen <= f.At {
			continue
		}
		f.fired++
		d.firedTotal++
		d.firedHdr++

		return f.err
	}

	return nil
}

//go:norace
func (s *simFs) Open(name string) (afero.File, error) {
	vsim.Point()
	s.calls++
	name = filepath.Clean(name)
	v, ok := s.files[name]
	if !ok || v.d.missing > 0 && v.idx >= v.d.missing {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if e := v.d.event("openerr", v.idx); e != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: e}
	}
	v.d.opened[v.idx]++

	return &simFile{v: v, name: name}, nil
}

func (s *simFs) OpenFile(name string, _ int, _ os.FileMode) (afero.File, error) { return s.Open(name) }

//go:norace
func (s *simFs) Stat(name string) (os.FileInfo, error) {
	vsim.Point()
	s.calls++
	v, ok := s.files[filepath.Clean(name)]
	if !ok || v.d.missing > 0 && v.idx >= v.d.missing {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	if e := v.d.event("staterr", v.idx); e != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: e}
	}

	return simInfo{name, v.size()}, nil
}

var errRO = errors.New("simulated file system is read-only")

func (s *simFs) Create(string) (afero.File, error)          { return nil, errRO }
func (s *simFs) Mkdir(string, os.FileMode) error            { return errRO }
func (s *simFs) MkdirAll(string, os.FileMode) error         { return errRO }
func (s *simFs) Remove(string) error                        { return errRO }
func (s *simFs) RemoveAll(string) error                     { return errRO }
func (s *simFs) Rename(string, string) error                { return errRO }
func (s *simFs) Name() string                               { return "simFs" }
func (s *simFs) Chmod(string, os.FileMode) error            { return errRO }
func (s *simFs) Chown(string, int, int) error               { return errRO }
func (s *simFs) Chtimes(string, time.Time, time.Time) error { return errRO }

type simInfo struct {
	name string
	size int64
}

func (i simInfo) Name() string       { return filepath.Base(i.name) }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() os.FileMode  { return 0o644 }
func (i simInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() any           { return nil }

//go:norace
func (v *volFile) size() int64 {
	lo, hi := v.d.vols[v.idx], v.d.vols[v.idx+1]
	n := int64(len(v.d.data))

	return max(min(hi, n)-lo, 0)
}

type simFile struct {
	v      *volFile
	name   string
	pos    int64
	closed bool
}

func (f *simFile) Name() string { return f.name }

//go:norace
func (f *simFile) Stat() (os.FileInfo, error) {
	vsim.Point()
	if f.closed {
		return nil, os.ErrClosed
	}
	if e := f.v.d.event("staterr", f.v.idx); e != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: e}
	}

	return simInfo{f.name, f.v.size()}, nil
}

//go:norace
func (f *simFile) ReadAt(p []byte, off int64) (int, error) {
	vsim.Point()
	if f.closed {
		f.v.d.fdUse++

		return 0, &fs.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if off < 0 {
		return 0, errNegOffset
	}
	n, err := f.v.d.readAt(p, f.v.d.vols[f.v.idx]+off, f.v.d.vols[f.v.idx+1])
	if err != nil && err != io.EOF {
		err = &fs.PathError{Op: "read", Path: f.name, Err: err}
	}

	return n, err
}

//go:norace
func (f *simFile) Read(p []byte) (int, error) {
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}

	return n, err
}

//go:norace
func (f *simFile) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.v.size()
	}
	if off < 0 {
		return 0, errNegOffset
	}
	f.pos = off

	return off, nil
}

//go:norace
func (f *simFile) Close() error {
	vsim.Point()
	if f.closed {
		f.v.d.closedTwice++

		return &fs.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	f.v.d.closed[f.v.idx]++
	if e := f.v.d.event("closeerr", f.v.idx); e != nil {
		f.v.d.closeErrs++

		return &fs.PathError{Op: "close", Path: f.name, Err: e}
	}

	return nil
}

func (f *simFile) Write([]byte) (int, error)          { return 0, errRO }
func (f *simFile) WriteAt([]byte, int64) (int, error) { return 0, errRO }
func (f *simFile) WriteString(string) (int, error)    { return 0, errRO }
func (f *simFile) Truncate(int64) error               { return errRO }
func (f *simFile) Sync() error                        { return nil }
func (f *simFile) Readdir(int) ([]os.FileInfo, error) { return nil, errRO }
func (f *simFile) Readdirnames(int) ([]string, error) { return nil, errRO }

func sortInts(v []int) []int { sort.Ints(v); return v }
