package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/bodgit/sevenzip"
	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// judge decides whether an error met while opening or reading h is
// legitimate, and whether it says what it must.
func (t *tctx) judge(h *handle, err error, what string) {
	in, fo := h.in, h.m.Folder
	first := !h.failed
	h.failed = true
	if fo < 0 {
		t.fail("spurious-error", nil, "%s the empty file %s failed: %v", what, h.m.Name, err)
		return
	}
	if h.gone() {
		t.cnt["error after archive close"]++
		return
	}
	var ce *custErr
	f := &in.arch.Folders[fo]
	if f.Custom && t.r.plan.Family == "registry" {
		return // judged by the caller
	}
	errs, _ := in.disk.inFolder(fo)
	legit := false
	switch {
	case in.peek(in.custFail, fo) > 0 && errors.As(err, &ce):
		legit = true
		t.cnt["decoder fault reported"]++
	case in.wrongPw(fo):
		legit = true
		t.cnt["wrong password failures"]++
	case in.disk.damagedFolder(fo):
		legit = true
		t.cnt["damage detected"]++
	case in.disk.cutFolder(fo):
		legit = true
		t.cnt["cut detected"]++
	case errs > 0:
		legit = true
		if t.injected(in, err, what+" "+h.m.Name) != nil {
			t.cnt["storage fault reported"]++
		}
		if first {
			n := in.bump(in.failed, fo, 1)
			errs, _ = in.disk.inFolder(fo) // looking at the error may have given way to others
			if n > errs {
				t.fail("poisoned", []string{"C03", "C04", "C14", "C15"}, "%s %s failed with %v: %d opens of stream %d have failed although only %d storage faults hit it", what, h.m.Name, err, n, fo, errs)
			}
		}
	}
	if !legit {
		t.fail("spurious-error", nil, "%s %s (stream %d) failed although nothing is wrong with it: %v", what, h.m.Name, fo, err)
	}
	var re *sevenzip.ReadError
	if !errors.As(err, &re) {
		t.fail("hint", []string{"C11"}, "%s %s: error is not a ReadError: %v", what, h.m.Name, err)
	} else if re.Encrypted != f.Enc {
		t.fail("hint", []string{"C11"}, "%s %s: encryption hint is %v for a stream with encrypted=%v: %v", what, h.m.Name, re.Encrypted, f.Enc, err)
	}
}

// one performs a single Read and checks what it returned.
func (t *tctx) one(h *handle, p []byte) (n int, err error) {
	t.before(h)
	n, err = h.rc.Read(p)
	t.after(h)
	t.mixHash(int64(n))
	t.mixErr(err)
	if n < 0 || n > len(p) {
		t.fail("read-count", nil, "Read of %s returned %d for a buffer of %d", h.m.Name, n, len(p))
	}
	if h.pos+n > len(h.m.Data) {
		t.fail("overrun", nil, "%s delivers more than its %d bytes", h.m.Name, len(h.m.Data))
	}
	t.checkData(h, p[:n])
	h.pos += n
	t.cnt["bytes"] += int64(n)
	t.checkMem(n)
	switch {
	case err == nil:
	case err == io.EOF, errors.Is(err, io.EOF) && !t.isReadError(err): //nolint:errorlint
		h.eof = true
		if h.pos < len(h.m.Data) && !h.wild {
			// damage and wrong passwords may well decode to less, which
			// the caller tells from the size and the checksum
			t.fail("short-eof", nil, "%s ends cleanly after %d of %d bytes", h.m.Name, h.pos, len(h.m.Data))
		}
	default:
		if errors.Is(err, io.EOF) {
			t.fail("short-eof", []string{"C03", "C05"}, "%s: error %v after %d of %d bytes looks like a clean end of file", h.m.Name, err, h.pos, len(h.m.Data))
		}
		t.note(fmt.Sprintf("read %s at %d: %v", h.m.Name, h.pos, err))
		t.judge(h, err, "reading")
	}

	return n, err
}

func (t *tctx) isReadError(err error) bool {
	var re *sevenzip.ReadError

	return errors.As(err, &re)
}

func (t *tctx) checkData(h *handle, p []byte) {
	n := len(p)
	if n == 0 {
		return
	}
	want := h.m.Data[h.pos : h.pos+n]
	fo := h.m.Folder
	if fo >= 0 && h.in.arch.Folders[fo].Custom && t.r.plan.Family == "registry" {
		t.checkVersion(h, p, want)
		return
	}
	if bytes.Equal(p, want) {
		return
	}
	if h.wild {
		h.same = false
		return
	}
	at := 0
	for at < n && p[at] == want[at] {
		at++
	}
	t.fail("wrong-bytes", nil, "%s (stream %d) delivers wrong bytes at offset %d: %x, want %x", h.m.Name, fo, h.pos+at, p[at:min(n, at+8)], want[at:min(n, at+8)])
}

func (t *tctx) scratch(n int) []byte {
	if cap(t.buf) < n {
		t.buf = make([]byte, n)
	}
	b := t.buf[:n]

	return b
}

func (t *tctx) slot(op *Op) *handle { return t.h[op.H] }

func (t *tctx) opRead(op *Op) {
	h := t.slot(op)
	if h == nil || h.rc == nil {
		return
	}
	t.cnt["reads"]++
	p := t.scratch(max(op.N, 0))
	if h.closed {
		t.readClosed(h, p)
		return
	}
	n, err := t.one(h, p)
	if len(p) > 0 && n == 0 && err == nil {
		t.stall(h)
	}
}

// stall keeps reading a handle that returned no data and no error.
func (t *tctx) stall(h *handle) {
	p := t.scratch(512)
	for range 200 {
		n, err := t.one(h, p)
		if n > 0 || err != nil {
			return
		}
	}
	t.fail("no-progress", nil, "%s: 200 reads at offset %d returned neither data nor an error", h.m.Name, h.pos)
}

// readClosed reads a closed handle.
func (t *tctx) readClosed(h *handle, p []byte) {
	if len(p) == 0 {
		p = t.scratch(1)
	}
	t.cnt["reads after close"]++
	n, err := h.rc.Read(p)
	t.mixHash(int64(n))
	if n != 0 || err == nil {
		t.fail("read-after-close", []string{"C16", "C14", "C13"}, "reading the closed handle of %s returned %d, %v", h.m.Name, n, err)
	}
	if err == io.EOF && h.m.Folder >= 0 && h.pos < len(h.m.Data) { //nolint:errorlint
		t.fail("read-after-close", []string{"C16"}, "reading the closed handle of %s after %d of %d bytes reports a clean end of file", h.m.Name, h.pos, len(h.m.Data))
	}
}

// opReadMany reads up to N percent of the file, or all of it, in chunks.
func (t *tctx) opReadMany(op *Op) {
	h := t.slot(op)
	if h == nil || h.rc == nil || h.closed || h.dir != nil {
		return
	}
	t.cnt["reads"]++
	if op.K == "copy" && (!h.m.Huge || op.S == "far") {
		w := &checkWriter{t: t, h: h}
		t.before(h)
		_, err := io.Copy(w, h.rc)
		t.after(h)
		t.mixErr(err)
		if err != nil {
			t.judge(h, err, "copying")
		} else if h.pos < len(h.m.Data) && !h.wild {
			t.fail("short-eof", nil, "copying %s ends cleanly after %d of %d bytes", h.m.Name, h.pos, len(h.m.Data))
		}

		return
	}
	limit := len(h.m.Data) + 1
	if op.K == "readp" {
		limit = len(h.m.Data) * op.N / 100
		if limit <= h.pos {
			return
		}
	}
	if h.m.Huge && op.S != "far" {
		limit = min(limit, h.pos+1<<16)
	}
	idle := 0
	for h.pos < limit {
		c := op.M
		if c <= 0 {
			c = 1 + t.rng.N(97)
			if t.rng.P(10) {
				c = 1 + t.rng.N(9000)
			}
		}
		if op.K == "readp" && c > limit-h.pos {
			c = limit - h.pos
		}
		n, err := t.one(h, t.scratch(c))
		if err != nil {
			break
		}
		if n == 0 {
			if idle++; idle > 200 {
				t.fail("no-progress", nil, "%s: 200 reads at offset %d returned neither data nor an error", h.m.Name, h.pos)
				break
			}
		} else {
			idle = 0
		}
		if n > 0 && idle == 0 {
			vsim.OpStart()
		}
	}
	if h.eof && h.wild && h.m.Folder >= 0 && h.in.wrongPw(h.m.Folder) && h.pos == len(h.m.Data) && h.same && h.pos >= 16 {
		t.fail("wrongpw", []string{"C10"}, "%s was decrypted with the wrong password", h.m.Name)
	}
}

type checkWriter struct {
	t *tctx
	h *handle
}

func (w *checkWriter) Write(p []byte) (int, error) {
	if w.h.pos+len(p) > len(w.h.m.Data) {
		w.t.fail("overrun", nil, "%s delivers more than its %d bytes", w.h.m.Name, len(w.h.m.Data))
		return 0, errors.New("overrun")
	}
	w.t.checkData(w.h, p)
	w.h.pos += len(p)

	return len(p), nil
}

func (t *tctx) opClose(op *Op) {
	h := t.slot(op)
	if h == nil || h.rc == nil && h.fsf == nil {
		return
	}
	if h.dir != nil {
		_ = h.fsf.Close()
		return
	}
	again := h.closed
	h.closed = true
	t.before(h)
	h.setOpen(false) // from here on others may get its decoder
	err := h.rc.Close()
	if !again && h.m.Folder >= 0 {
		h.in.bump(h.in.openH, h.m.Folder, -1)
	}
	t.after(h)
	t.mixErr(err)
	t.cnt["file closes"]++
	t.note(fmt.Sprintf("close %s (handle %d) at %d: %v", h.m.Name, h.id, h.pos, err))
	if err == nil || again {
		return
	}
	if h.m.Folder >= 0 {
		in, fo := h.in, h.m.Folder
		_, touched := in.disk.inFolder(fo)
		if h.gone() || touched > 0 || in.peek(in.custFail, fo) > 0 || in.wrongPw(fo) || in.disk.damagedFolder(fo) || in.disk.cutFolder(fo) {
			return
		}
	}
	t.fail("close-error", nil, "closing the healthy handle of %s failed: %v", h.m.Name, err)
}

// opRecover runs after storage has healed: every file must be readable with
// at most as many failed attempts as there were faults.
func (t *tctx) opRecover(in *inst, op *Op) {
	if in.zr == nil || in.isClosing() {
		return
	}
	for k := range in.arch.Files {
		fi := k
		if op.N == 1 {
			fi = len(in.arch.Files) - 1 - k
		}
		if in.arch.Files[fi].Far {
			continue
		}
		for try := 0; ; try++ {
			vsim.OpStart()
			h := t.newHandle(in, fi)
			var err error
			t.before(h)
			h.rc, err = in.files[fi].Open()
			if err == nil && h.m.Folder >= 0 {
				in.bump(in.openH, h.m.Folder, 1)
				h.setOpen(true)
			}
			t.after(h)
			if err != nil {
				t.judge(h, err, "opening (after storage healed)")
				t.checkPartial(h)
			} else {
				if h.m.Folder >= 0 {
					h.wild = in.wrongPw(h.m.Folder) || in.disk.damagedFolder(h.m.Folder)
				}
				t.h[-1] = h
				t.opReadMany(&Op{K: "readall", H: -1, M: pickOf(t.rng, 4096, 777, 65536)})
				t.opClose(&Op{H: -1})
			}
			if h.m.Folder < 0 || !h.failed {
				break
			}
			if in.wrongPw(h.m.Folder) || in.disk.damagedFolder(h.m.Folder) || in.disk.cutFolder(h.m.Folder) {
				break
			}
			t.cnt["retries after healing"]++
			if try > 200 {
				t.fail("poisoned", nil, "%s is still unreadable after 200 attempts on healthy storage", h.m.Name)
				break
			}
		}
	}
	t.cnt["recoveries"]++
}

// ---- file system view ------------------------------------------------------

func (t *tctx) path(in *inst, op *Op) string {
	if op.S != "" {
		return op.S
	}

	return in.paths[op.F%len(in.paths)]
}

func (t *tctx) pathError(in *inst, p string, err error) bool {
	if !fs.ValidPath(p) {
		if !errors.Is(err, fs.ErrInvalid) {
			t.fail("fs-error", []string{"C15", "C02", "C20"}, "invalid path %q gives %v", p, err)
		}

		return true
	}
	if in.nodes[p] == nil {
		if !errors.Is(err, fs.ErrNotExist) {
			t.fail("fs-error", []string{"C15", "C02", "C20"}, "unknown path %q gives %v", p, err)
		}

		return true
	}

	return false
}

func (t *tctx) opFsOpen(in *inst, op *Op) {
	if in.zr == nil {
		return
	}
	if old := t.h[op.H]; old != nil && !old.closed {
		return
	}
	p := t.path(in, op)
	n := in.nodes[p]
	if !fs.ValidPath(p) || n == nil {
		f, err := in.zr.Open(p)
		t.mixErr(err)
		if err == nil {
			_ = f.Close()
		}
		t.pathError(in, p, err)

		return
	}
	if !n.dir {
		t.opOpenFile(in, &Op{F: n.file, H: op.H}, true)
		if h := t.h[op.H]; h != nil && h.fsf != nil && !h.closed && h.pos == 0 {
			t.checkStat(in, p, n, h.fsf.Stat)
		}

		return
	}
	f, err := in.zr.Open(p)
	t.mixErr(err)
	if err != nil {
		t.fail("fs-error", nil, "opening the directory %q failed: %v", p, err)
		return
	}
	h := &handle{id: t.r.newID(), in: in, fi: -1, fsf: f, dir: n, closed: true}
	t.h[op.H] = h
	t.checkStat(in, p, n, f.Stat)
	if k, err := f.Read(make([]byte, 4)); k != 0 || err == nil || err == io.EOF { //nolint:errorlint
		t.fail("fs-error", []string{"C15", "C02", "C20"}, "reading the directory %q returned %d, %v", p, k, err)
	}
}

func (t *tctx) checkStat(in *inst, p string, n *node, stat func() (fs.FileInfo, error)) {
	fi, err := stat()
	if n.dup && n.dir {
		if err == nil {
			t.fail("fs-info", []string{"C15", "C02", "C20"}, "several entries claim the directory %q, and there is no error", p)
		}

		return
	}
	if err != nil {
		t.fail("fs-info", []string{"C15", "C02", "C20"}, "stat of %q failed: %v", p, err)
		return
	}
	if d := in.infoDiff(p, n, fi); d != "" {
		t.fail("fs-info", []string{"C15", "C02", "C20"}, "%s", d)
	}
}

func (in *inst) infoDiff(p string, n *node, fi fs.FileInfo) string {
	base := p[strings.LastIndexByte(p, '/')+1:]
	switch {
	case p != "." && fi.Name() != base:
		return fmt.Sprintf("%q is named %q", p, fi.Name())
	case fi.IsDir() != n.dir || fi.Mode().IsDir() != n.dir:
		return fmt.Sprintf("%q: directory is %v, want %v", p, fi.IsDir(), n.dir)
	}
	if n.dir {
		if n.file >= 0 && !fi.ModTime().Equal(in.arch.Files[n.file].MTime) {
			return fmt.Sprintf("%q was modified %v", p, fi.ModTime())
		}

		return ""
	}
	m := &in.arch.Files[n.file]
	lf := in.files[n.file].FileInfo()
	switch {
	case fi.Size() != int64(len(m.Data)):
		return fmt.Sprintf("%q has size %d, want %d", p, fi.Size(), len(m.Data))
	case !fi.ModTime().Equal(m.MTime):
		return fmt.Sprintf("%q was modified %v, want %v", p, fi.ModTime(), m.MTime)
	case fi.Mode() != lf.Mode():
		return fmt.Sprintf("%q has mode %v, listing says %v", p, fi.Mode(), lf.Mode())
	}

	return ""
}

func (t *tctx) opReadDir(op *Op) {
	h := t.slot(op)
	if h == nil || h.dir == nil {
		return
	}
	rd, ok := h.fsf.(fs.ReadDirFile)
	if !ok {
		t.fail("fs-dir", []string{"C15", "C02", "C20"}, "directory %q cannot be listed", h.dir.path)
		return
	}
	t.cnt["directory pages"]++
	ents, err := rd.ReadDir(op.N)
	t.mixHash(int64(len(ents)))
	left := len(h.dir.kids) - h.dirPos
	want := left
	if op.N > 0 && want > op.N {
		want = op.N
	}
	if op.N > 0 && left == 0 {
		if len(ents) != 0 || err != io.EOF { //nolint:errorlint
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "ReadDir(%d) at the end of %q returned %d entries, %v", op.N, h.dir.path, len(ents), err)
		}

		return
	}
	if h.dirPos+want > len(h.dir.kids) {
		return
	}
	if h.in.conflict(h.dir, h.dirPos, want) {
		if err == nil || err == io.EOF || len(ents) != 0 { //nolint:errorlint
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "ReadDir(%d) of %q with entries that claim the same path returned %d entries, %v", op.N, h.dir.path, len(ents), err)
		}

		return
	}
	if err != nil || len(ents) != want {
		t.fail("fs-dir", []string{"C15", "C02", "C20"}, "ReadDir(%d) of %q with %d entries left returned %d entries, %v", op.N, h.dir.path, left, len(ents), err)
	}
	t.checkEntries(h.in, h.dir, h.dirPos, ents)
	h.dirPos += want
}

// conflict tells whether several entries claim the path of one of n children.
func (in *inst) conflict(dir *node, from, n int) bool {
	for _, k := range dir.kids[from : from+n] {
		if in.nodes[joinPath(dir.path, k)].dup {
			return true
		}
	}

	return false
}

func joinPath(dir, k string) string {
	if dir == "." {
		return k
	}

	return dir + "/" + k
}

func (t *tctx) checkEntries(in *inst, dir *node, from int, ents []fs.DirEntry) {
	for i, e := range ents {
		k := dir.kids[from+i]
		if e.Name() != k {
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "entry %d of %q is %q, want %q", from+i, dir.path, e.Name(), k)
			return
		}
		p := joinPath(dir.path, k)
		n := in.nodes[p]
		if e.IsDir() != n.dir || e.Type().IsDir() != n.dir {
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "entry %q: directory is %v, want %v", p, e.IsDir(), n.dir)
		}
		fi, err := e.Info()
		if err == nil && fi.Mode().Type() != e.Type() {
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "entry %q has type %v but mode %v", p, e.Type(), fi.Mode())
		}
		if err != nil {
			t.fail("fs-dir", []string{"C15", "C02", "C20"}, "information of %q: %v", p, err)
			return
		}
		if d := in.infoDiff(p, n, fi); d != "" {
			t.fail("fs-info", []string{"C15", "C02", "C20"}, "%s", d)
		}
	}
}

func (t *tctx) opFsStat(in *inst, op *Op) {
	if in.zr == nil {
		return
	}
	p := t.path(in, op)
	h := t.pathHandle(in, p)
	if h != nil {
		t.before(h)
	}
	fi, err := fs.Stat(in.zr, p)
	if h != nil {
		t.after(h)
	}
	t.mixErr(err)
	t.cnt["fs stats"]++
	if err != nil {
		if t.pathError(in, p, err) {
			return
		}
		if n := in.nodes[p]; n.dup && n.dir {
			return
		}
		if h != nil {
			t.judge(h, err, "stat of")
			return
		}
		t.fail("fs-info", []string{"C15", "C02", "C20"}, "stat of %q failed: %v", p, err)

		return
	}
	n := in.nodes[p]
	if n == nil || n.dup && n.dir {
		t.fail("fs-error", []string{"C15", "C02", "C20"}, "unknown or ambiguous path %q has information", p)
		return
	}
	if d := in.infoDiff(p, n, fi); d != "" {
		t.fail("fs-info", []string{"C15", "C02", "C20"}, "%s", d)
	}
}

// pathHandle stands for the handle a helper of package fs opens and closes.
func (t *tctx) pathHandle(in *inst, p string) *handle {
	n := in.nodes[p]
	if n == nil || n.dir {
		return nil
	}
	h := t.newHandle(in, n.file)
	if h.m.Folder >= 0 {
		h.wild = in.wrongPw(h.m.Folder) || in.disk.damagedFolder(h.m.Folder)
	}

	return h
}

func (t *tctx) opFsReadFile(in *inst, op *Op) {
	if in.zr == nil {
		return
	}
	p := t.path(in, op)
	h := t.pathHandle(in, p)
	if h != nil {
		t.before(h)
	}
	b, err := fs.ReadFile(in.zr, p)
	if h != nil {
		t.after(h)
	}
	t.mixHash(int64(len(b)))
	t.mixErr(err)
	t.cnt["fs file reads"]++
	if err != nil {
		if t.pathError(in, p, err) {
			return
		}
		if h == nil {
			return // reading a directory must fail
		}
		if len(b) <= len(h.m.Data) {
			t.checkData(h, b)
		}
		t.judge(h, err, "reading")

		return
	}
	if h == nil {
		t.fail("fs-error", []string{"C15", "C02", "C20"}, "reading the directory or unknown path %q succeeded", p)
		return
	}
	if len(b) != len(h.m.Data) && !h.wild {
		t.fail("short-eof", nil, "ReadFile(%q) returned %d bytes, want %d", p, len(b), len(h.m.Data))
		return
	}
	t.checkData(h, b)
}

func (t *tctx) opFsWalk(in *inst) {
	if in.zr == nil {
		return
	}
	var got []string
	err := fs.WalkDir(in.zr, ".", func(p string, d fs.DirEntry, err error) error {
		n := in.nodes[p]
		if err != nil && n != nil && n.dir && in.conflict(n, 0, len(n.kids)) {
			return nil
		}
		if err != nil {
			return err
		}
		if n == nil {
			t.fail("fs-walk", []string{"C15", "C02"}, "the walk visits %q, which does not exist", p)
			return fs.SkipAll
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		if d := in.infoDiff(p, n, fi); d != "" {
			t.fail("fs-info", []string{"C15", "C02", "C20"}, "%s", d)
		}
		got = append(got, p)

		return nil
	})
	t.cnt["fs walks"]++
	if err != nil {
		t.fail("fs-walk", []string{"C15", "C02"}, "walking failed: %v", err)
		return
	}
	sort.Strings(got)
	want := in.paths
	if in.dups {
		want = nil
		var walk func(p string)
		walk = func(p string) {
			want = append(want, p)
			if n := in.nodes[p]; n.dir && !in.conflict(n, 0, len(n.kids)) {
				for _, k := range n.kids {
					walk(joinPath(p, k))
				}
			}
		}
		walk(".")
		sort.Strings(want)
	}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		t.fail("fs-walk", []string{"C15", "C02"}, "the walk visits %s, want %s", clip(got), clip(want))
	}
}

func (t *tctx) opFsTest(in *inst) {
	if in.zr == nil {
		return
	}
	var want []string
	for _, p := range in.paths {
		if p != "." {
			want = append(want, p)
		}
	}
	t.cnt["fstest runs"]++
	if len(want) == 0 || in.dups {
		return
	}
	if err := fstest.TestFS(in.zr, want...); err != nil {
		t.fail("fstest", []string{"C15", "C02"}, "fstest.TestFS: %v", err)
	}
}

// ---- after the run ---------------------------------------------------------

func (r *run) final(out *Outcome) {
	t := &tctx{r: r, stage: "final", cnt: map[string]int64{}}
	add := func(class string, props []string, format string, a ...any) {
		v := Violation{Class: class, Props: props, Detail: fmt.Sprintf(format, a...), Stage: "final"}
		out.Viol = append(out.Viol, v)
	}
	_ = t
	for _, in := range r.insts {
		if in.zr != nil {
			if d := in.listingDiff(); d != "" {
				add("listing", nil, "after the run: %s", d)
			}
		}
		if in.spec.Via == "fs" {
			want := 0
			if in.rc != nil && !in.isClosing() {
				want = 1
			}
			if v, o, c := in.disk.fdBalance(want); v >= 0 {
				add("volume-handles", []string{"C09"}, "after the run: volume %d was opened %d and closed %d times; expected %d open", v+1, o, c, want)
			}
		}
		if in.disk.fetched != nil {
			for fo := range in.arch.Folders {
				for _, sp := range in.arch.Folders[fo].Spans {
					for o := sp.Lo; o < sp.Hi; o++ {
						if in.disk.fetched[o] > 1 {
							add("fetched-twice", []string{"C12"}, "byte %d of stream %d was fetched %d times by a front-to-back history", o-sp.Lo, fo, in.disk.fetched[o])
							break
						}
					}
				}
				if n := in.chains[fo]; n > 1 {
					add("decoded-twice", []string{"C12"}, "%d decoders were built for stream %d by a front-to-back history", n, fo)
				}
			}
		}
		for fo := range in.arch.Folders {
			n := in.alive[fo]
			if lim := (in.openH[fo] + r.plan.NumCPU) * in.arch.Folders[fo].NCust; n > lim {
				add("instances", []string{"C13"}, "after the run %d decoder instances of stream %d are neither closed nor within the limit of %d", n, fo, lim)
			}
		}
	}
	r.checkRegistry(out)
}
