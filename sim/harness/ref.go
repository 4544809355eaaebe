package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/bodgit/sevenzip"
)

// A second reading of headers, written from the description of the format and
// not from the code under test.

// refEntry is what a header says about an entry.
type refEntry struct {
	name        string
	size        uint64
	crc         uint32
	stream      int // -1: none
	times       [3]*uint64
	attr        uint32
	empty, file bool
}

// How well a header is formed.
const (
	refFull   = iota // as described: has to be readable
	refLoose         // says what it says, but somebody may refuse it
	refBroken        // says nothing: has to be refused
	refVague         // can be read in several ways, or not by its description
)

var refNames = []string{"well-formed", "readable", "broken", "vague"}

type refHeader struct {
	verdict int
	why     string
	files   []refEntry
	folders int
}

type refParser struct {
	b []byte
	p int
	h *refHeader

	ext bool // a record is stored elsewhere

	streams []int // folder of every file with a stream
	sizes   []uint64
	crcs    []*uint32
}

// worse notes a flaw.
func (r *refParser) worse(v int, format string, a ...any) {
	if v > r.h.verdict {
		r.h.verdict, r.h.why = v, fmt.Sprintf(format, a...)
	}
}

type refStop struct{}

// try stops reading where it has to be.
func (r *refParser) try(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(refStop); !ok {
				panic(e)
			}
		}
	}()
	f()
}

func (r *refParser) stop(v int, format string, a ...any) {
	r.worse(v, format, a...)
	panic(refStop{})
}

func (r *refParser) byte() byte {
	if r.p >= len(r.b) {
		r.stop(refBroken, "ends at %d", r.p)
	}
	r.p++

	return r.b[r.p-1]
}

func (r *refParser) take(n uint64) []byte {
	if n > uint64(len(r.b)-r.p) {
		r.stop(refBroken, "%d bytes wanted at %d", n, r.p)
	}
	r.p += int(n)

	return r.b[r.p-int(n) : r.p]
}

func (r *refParser) num() uint64 {
	first := r.byte()
	for k := 0; k < 8; k++ {
		if first&(0x80>>k) == 0 {
			v := uint64(0)
			for j, c := range r.take(uint64(k)) {
				v |= uint64(c) << (8 * j)
			}

			return v | uint64(first&(0x7f>>k))<<(8*k)
		}
	}

	return binary.LittleEndian.Uint64(r.take(8))
}

// count is a number of things that take at least a byte each, or a bit.
func (r *refParser) count(what string) int {
	v := r.num()
	if v > uint64(8*len(r.b)) {
		r.stop(refBroken, "%d %s", v, what)
	}

	return int(v)
}

func (r *refParser) bits(n int) []bool {
	v := r.take(uint64(n+7) / 8)
	out := make([]bool, n)
	for i := range out {
		out[i] = v[i/8]>>(7-i%8)&1 == 1
	}

	return out
}

func (r *refParser) optBits(n int) []bool {
	switch r.byte() {
	case 0:
		return r.bits(n)
	case 1:
	default:
		r.worse(refLoose, "an odd mark for all")
	}
	out := make([]bool, n)
	for i := range out {
		out[i] = true
	}

	return out
}

func (r *refParser) digests(n int) []*uint32 {
	if n == 0 {
		r.worse(refLoose, "no checksums")
	}
	out := make([]*uint32, n)
	for i, d := range r.optBits(n) {
		if d {
			v := binary.LittleEndian.Uint32(r.take(4))
			out[i] = &v
		}
	}

	return out
}

func (r *refParser) expect(id byte, what string) {
	if got := r.byte(); got != id {
		// others may be skipped by whoever knows them
		r.stop(refBroken, "%d instead of the %s", got, what)
	}
}

// folder returns how many packed streams it needs and which of n sizes is its own.
func (r *refParser) folder() (packed, outs, main int) {
	coders := r.count("coders")
	if coders == 0 {
		r.stop(refBroken, "a folder without coders")
	}
	if coders > 32 {
		r.worse(refLoose, "%d coders", coders)
	}
	ins := 0
	for range coders {
		fl := r.byte()
		if fl&0xc0 != 0 {
			r.worse(refVague, "unknown marks of a coder")
		}
		if fl&15 == 0 || fl&15 > 8 {
			r.worse(refLoose, "a long or no method id")
		}
		r.take(uint64(fl & 15))
		in, out := 1, 1
		if fl&0x10 != 0 {
			in, out = r.count("inputs"), r.count("outputs")
		}
		if in < 1 || out != 1 || in > 32 {
			r.worse(refLoose, "a coder with %d inputs and %d outputs", in, out)
		}
		ins, outs = ins+in, outs+out
		if fl&0x20 != 0 {
			n := r.num()
			if n == 0 {
				r.worse(refLoose, "empty properties")
			}
			r.take(n)
		}
	}
	if ins > 32 || outs > 32 {
		r.worse(refLoose, "%d inputs and %d outputs", ins, outs)
	}
	if outs == 0 || ins < outs-1 {
		r.stop(refBroken, "%d inputs and %d outputs", ins, outs)
	}
	usedIn, usedOut := make([]bool, ins), make([]bool, outs)
	for range outs - 1 {
		i, o := r.num(), r.num()
		if i >= uint64(ins) || o >= uint64(outs) || usedIn[i] || usedOut[o] {
			r.stop(refBroken, "a bond of %d and %d", i, o)
		}
		usedIn[i], usedOut[o] = true, true
	}
	packed = ins - (outs - 1)
	if packed == 0 {
		r.worse(refBroken, "no packed stream")
	}
	if packed > 1 {
		for range packed {
			i := r.num()
			if i >= uint64(ins) || usedIn[i] {
				r.stop(refBroken, "packed stream %d", i)
			}
			usedIn[i] = true
		}
	}
	for i, u := range usedOut {
		if !u {
			main = i
		}
	}

	return packed, outs, main
}

func (r *refParser) streamsInfo(main bool) {
	id := r.byte()
	sizes, packs := 0, 0
	if id == 6 {
		if pos := r.num(); pos >= 1<<62 {
			r.worse(refLoose, "packed streams at %d", pos)
		}
		n := r.num()
		id = r.byte()
		if n == 0 || n > uint64(len(r.b)) {
			if r.worse(refLoose, "%d packed streams", n); n > 0 && (id == 9 || id == 10) {
				r.stop(refBroken, "%d packed streams", n)
			}
			n = min(n, 1<<20)
		}
		packs = int(n)
		if id == 9 {
			total := uint64(0)
			for range packs {
				v := r.num()
				if total += v; v >= 1<<61 || total >= 1<<62 {
					r.worse(refLoose, "packed streams of %d bytes", v)
				}
			}
			sizes = packs
			id = r.byte()
		}
		if id == 10 {
			r.digests(packs)
			id = r.byte()
		}
		if id != 0 {
			r.stop(refBroken, "%d among the packed streams", id)
		}
		id = r.byte()
	}
	var unpack []uint64
	var fcrc []*uint32
	need := 0
	if id == 7 {
		r.expect(11, "folders")
		n := r.count("folders")
		if n == 0 {
			r.worse(refLoose, "no folders")
		}
		switch r.byte() {
		case 0:
		case 1:
			r.stop(refBroken, "folders stored elsewhere")
		default:
			r.stop(refBroken, "an odd place of folders")
		}
		var outs, mains []int
		for range n {
			p, o, m := r.folder()
			need += p
			outs, mains = append(outs, o), append(mains, m)
		}
		r.expect(12, "sizes of folders")
		for i := range n {
			for j := range outs[i] {
				v := r.num()
				if v >= 1<<61 {
					r.worse(refLoose, "a stream of %d bytes", v)
				}
				if j == mains[i] {
					unpack = append(unpack, v)
				}
			}
		}
		fcrc = make([]*uint32, n)
		id = r.byte()
		if id == 10 {
			fcrc = r.digests(n)
			id = r.byte()
		}
		if id != 0 {
			r.stop(refBroken, "%d among the folders", id)
		}
		id = r.byte()
	}
	if need > sizes {
		r.worse(refBroken, "%d packed streams for %d", sizes, need)
	}
	if need < packs {
		r.worse(refLoose, "%d packed streams for %d", packs, need)
	}
	var streams []int
	var fsz []uint64
	var crcs []*uint32
	if id == 8 {
		if len(unpack) == 0 {
			r.worse(refLoose, "files of no folders")
		}
		id = r.byte()
		counts := make([]int, len(unpack))
		for i := range counts {
			counts[i] = 1
		}
		if id == 13 {
			for i := range counts {
				counts[i] = r.count("files")
			}
			id = r.byte()
		}
		hasSizes := id == 9
		for i, c := range counts {
			if c > 1 && !hasSizes {
				r.stop(refBroken, "no sizes of files")
			}
			left := unpack[i]
			for j := range c {
				v := left
				if j < c-1 {
					v = r.num()
				}
				if v > left {
					r.stop(refBroken, "files that are larger than their stream")
				}
				left -= v
				streams, fsz = append(streams, i), append(fsz, v)
			}
		}
		if hasSizes {
			id = r.byte()
		}
		crcs = make([]*uint32, len(streams))
		var open []int
		for i, f := range streams {
			if counts[f] == 1 && fcrc[f] != nil {
				crcs[i] = fcrc[f]
			} else {
				open = append(open, i)
			}
		}
		if id == 10 {
			for i, d := range r.digests(len(open)) {
				crcs[open[i]] = d
			}
			id = r.byte()
		}
		if id != 0 {
			r.stop(refBroken, "%d among the files of folders", id)
		}
		id = r.byte()
	} else {
		for i := range unpack {
			streams = append(streams, i)
		}
		fsz, crcs = unpack, fcrc
	}
	if id != 0 {
		r.stop(refBroken, "%d among the streams", id)
	}
	if main {
		r.h.folders = len(unpack)
		r.streams, r.sizes, r.crcs = streams, fsz, crcs
	}
}

func (r *refParser) filesInfo() {
	n := r.count("files")
	if n == 0 || n > len(r.b)-r.p {
		r.worse(refLoose, "%d files", n)
	}
	if n > len(r.b) {
		r.stop(refVague, "%d files", n)
	}
	fs := make([]refEntry, n)
	seen := map[byte]bool{}
	nEmpty := 0
	for {
		id := r.byte()
		if id == 0 {
			break
		}
		size := r.num()
		if size > uint64(len(r.b)-r.p) {
			// the rest cannot be read by it, but perhaps by other means
			r.stop(refVague, "record %d of %d bytes", id, size)
		}
		end := r.p + int(size)
		if seen[id] && id != 25 {
			r.worse(refVague, "record %d again", id)
		}
		seen[id] = true
		sub := &refParser{b: r.b[:end], p: r.p, h: &refHeader{}}
		if sub.try(func() { nEmpty = sub.record(id, fs, nEmpty) }); sub.h.verdict == refBroken && !sub.ext {
			r.stop(refVague, "record %d is too short: %s", id, sub.h.why) // by its own size
		}
		if r.worse(sub.h.verdict, "record %d: %s", id, sub.h.why); sub.ext {
			panic(refStop{})
		}
		if sub.p != end {
			r.stop(refVague, "record %d is %d bytes longer than what it says", id, end-sub.p)
		}
		r.p = end
	}
	if !seen[17] {
		r.worse(refLoose, "no names")
	}
	j := 0
	for i := range fs {
		fs[i].stream = -1
		if fs[i].empty {
			continue
		}
		if j >= len(r.streams) {
			r.stop(refBroken, "more files than streams")
		}
		fs[i].stream, fs[i].size = r.streams[j], r.sizes[j]
		if c := r.crcs[j]; c != nil {
			fs[i].crc = *c
		}
		j++
	}
	if j < len(r.streams) {
		r.worse(refLoose, "more streams than files")
	}
	r.h.files = fs
}

// elsewhere reads whether the data of a record is in another stream.
func (r *refParser) elsewhere() {
	if r.byte() != 0 {
		r.ext = true
		r.stop(refBroken, "stored elsewhere")
	}
}

func (r *refParser) record(id byte, fs []refEntry, nEmpty int) int {
	switch id {
	case 14:
		nEmpty = 0
		for i, e := range r.bits(len(fs)) {
			if fs[i].empty = e; e {
				nEmpty++
			}
		}
	case 15, 16:
		if nEmpty == 0 {
			r.worse(refVague, "empty files before empty streams")
		}
		j, v := 0, r.bits(nEmpty)
		for i := range fs {
			if fs[i].empty {
				if id == 15 {
					fs[i].file = v[j]
				}
				j++
			}
		}
		if id == 16 {
			r.worse(refLoose, "deleted files")
		}
	case 17:
		r.elsewhere()
		for i := range fs {
			var u []uint16
			for {
				c := binary.LittleEndian.Uint16(r.take(2))
				if c == 0 {
					break
				}
				u = append(u, c)
			}
			fs[i].name = string(utf16.Decode(u))
		}
	case 18, 19, 20:
		def := r.optBits(len(fs))
		r.elsewhere()
		for i, d := range def {
			if d {
				v := binary.LittleEndian.Uint64(r.take(8))
				fs[i].times[id-18] = &v
			}
		}
	case 21:
		def := r.optBits(len(fs))
		r.elsewhere()
		for i, d := range def {
			if d {
				fs[i].attr = binary.LittleEndian.Uint32(r.take(4))
			}
		}
	case 25:
		for _, c := range r.take(uint64(len(r.b) - r.p)) {
			if c != 0 {
				r.worse(refLoose, "padding of other bytes")
			}
		}
	default:
		r.worse(refLoose, "record %d", id)
		r.p = len(r.b)
	}

	return nEmpty
}

// readRef reads a header; packed tells that it was not stored plainly.
func readRef(b []byte, packed bool) (h *refHeader) {
	h = &refHeader{}
	if len(b) == 0 {
		if packed {
			h.verdict, h.why = refVague, "a packed header of nothing"
		}

		return h
	}
	r := &refParser{b: b, h: h}
	r.try(func() { r.header(packed) })

	return h
}

func (r *refParser) header(packed bool) {
	switch id := r.byte(); {
	case id == 1:
	case id == 23:
		r.stop(refVague, "a packed header")
	default:
		r.stop(refBroken, "no header")
	}
	id := r.byte()
	if id == 2 {
		r.worse(refLoose, "properties of the archive")
		for r.byte() != 0 {
			r.take(r.num())
		}
		id = r.byte()
	}
	if id == 3 {
		r.worse(refLoose, "additional streams")
		r.streamsInfo(false)
		id = r.byte()
	}
	if id == 4 {
		r.streamsInfo(true)
		id = r.byte()
	}
	if id == 5 {
		r.filesInfo()
		id = r.byte()
	}
	if id != 0 {
		r.stop(refBroken, "%d at the top", id)
	}
	if r.p < len(r.b) {
		if packed {
			r.worse(refLoose, "more bytes behind the header")
		} else {
			r.worse(refBroken, "more bytes behind the header")
		}
	}
}

// oneMark makes one of consecutive replacement characters: there is no rule for
// how many stand for bytes that are no characters.
func oneMark(s string) string {
	for strings.Contains(s, "\ufffd\ufffd") {
		s = strings.ReplaceAll(s, "\ufffd\ufffd", "\ufffd")
	}

	return s
}

// refDiff compares a listing with what the header says.
func refDiff(h *refHeader, zr *sevenzip.Reader) string {
	if len(zr.File) != len(h.files) {
		return fmt.Sprintf("%d entries are listed, the header has %d", len(zr.File), len(h.files))
	}
	for i, f := range zr.File {
		e := &h.files[i]
		attr := e.attr
		if attr>>28 == 0 && e.empty && !e.file {
			attr |= 0x10
		}
		mode := fileMode(attr)
		name := e.name
		if mode.IsDir() && !strings.HasSuffix(name, "/") {
			name += "/"
		}
		switch {
		case oneMark(f.Name) != oneMark(name):
			return fmt.Sprintf("entry %d is named %q, the header says %q", i, f.Name, name)
		case f.UncompressedSize != e.size || f.FileInfo().Size() != int64(e.size):
			return fmt.Sprintf("entry %d has size %d, the header says %d", i, f.UncompressedSize, e.size)
		case f.CRC32 != e.crc:
			return fmt.Sprintf("entry %d has checksum %08x, the header says %08x", i, f.CRC32, e.crc)
		case e.stream >= 0 && f.Stream != e.stream:
			return fmt.Sprintf("entry %d is in stream %d, the header says %d", i, f.Stream, e.stream)
		case f.Attributes != e.attr:
			return fmt.Sprintf("entry %d has attributes %x, the header says %x", i, f.Attributes, e.attr)
		case f.Mode() != mode || f.FileInfo().Mode() != mode || f.FileInfo().IsDir() != mode.IsDir():
			return fmt.Sprintf("entry %d has mode %v, the header means %v", i, f.Mode(), mode)
		}
		for k, got := range []time.Time{f.Created, f.Accessed, f.Modified} {
			var want time.Time
			if v := e.times[k]; v != nil {
				want = time.Unix(int64(*v/1e7)-11644473600, int64(*v%1e7)*100)
			}
			if !got.Equal(want) {
				return fmt.Sprintf("time %d of entry %d is %v, the header says %v", k, i, got, want.UTC())
			}
		}
	}

	return ""
}

// opRef opens an archive and compares what it shows with the second reading.
func (t *tctx) opRef(in *inst) {
	d := in.disk
	var (
		zr  *sevenzip.Reader
		rc  *sevenzip.ReadCloser
		err error
	)
	fired := d.total()
	d.setPhase("open")
	if in.spec.Via == "fs" {
		rc, err = sevenzip.OpenReaderWithPassword(in.name, in.spec.Pw)
		if rc != nil {
			zr = &rc.Reader
		}
	} else {
		zr, err = sevenzip.NewReaderWithPassword(&memReader{d}, int64(len(d.data)), in.spec.Pw)
	}
	t.mixErr(err)
	h := in.ref
	if h == nil {
		h = readRef(in.arch.Hdrs[0], len(in.arch.Hdrs[1]) > 0)
		in.ref = h
	}
	t.cnt["headers "+refNames[h.verdict]]++
	t.note(fmt.Sprintf("ref inst %d: %s (%s): %v", in.idx, refNames[h.verdict], h.why, err))
	if err != nil {
		t.cnt["refused"]++
		if zr != nil || rc != nil {
			t.fail("open-nonnil", nil, "a failed open also returned a reader (%v)", err)
		}
		if h.verdict == refFull && d.total() == fired {
			t.fail("refused", nil, "an archive with a well-formed header (%d files) cannot be opened: %v", len(h.files), err)
		}

		return
	}
	t.cnt["opened "+refNames[h.verdict]]++
	if h.verdict == refBroken {
		t.fail("accepted", nil, "an archive was opened (%d entries) though its header is broken: %s", len(zr.File), h.why)
	}
	if h.verdict <= refLoose {
		if diff := refDiff(h, zr); diff != "" {
			t.fail("misread", nil, "%s", diff)
		}
	}
	if rc != nil {
		t.mixErr(rc.Close())
		if h.verdict <= refLoose {
			if diff := refDiff(h, zr); diff != "" {
				t.fail("misread", nil, "after closing: %s", diff)
			}
		}
	}
}
