package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"runtime"

	"github.com/bodgit/sevenzip"
	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// Edit is one change to a header made by whoever forged the archive, before
// the checksums were computed.
type Edit struct {
	W int    `json:"w,omitempty"` // 0 header, 1 description of the packed header, 2 start header
	K string `json:"k"`           // num byte cut dup ins ; off size (start header)
	P int    `json:"p,omitempty"`
	N int    `json:"n,omitempty"`
	V uint64 `json:"v,omitempty"`
}

// Tok is one number in a header.
type Tok struct {
	P, N int
	V    uint64
}

var (
	recBuf             *bytes.Buffer
	recToks, recCoders []Tok
	recRecs            []Tok
)

// record notes the extent of a record of the header being written.
func record(h *bytes.Buffer) func() {
	at := h.Len()

	return func() {
		if n := h.Len() - at; n > 0 {
			recRecs = append(recRecs, Tok{at, n, 0})
		}
	}
}

// alter changes what a record says, mostly not its length.
func alter(rec []byte, seed uint64) []byte {
	r := newRng(seed)
	b := append([]byte(nil), rec...)
	from := min(len(b), 1+r.N(3)) // the kind of record, the length
	switch r.N(6) {
	case 0:
		for i := from; i < len(b); i++ {
			b[i] = 0xff
		}
	case 1:
		clear(b[from:])
	case 2:
		copy(b[from:], genContent(r.U64(), len(b)-from))
	case 3:
		for range 1 + r.N(3) {
			if len(b) > from {
				b[from+r.N(len(b)-from)] ^= 1 << r.N(8)
			}
		}
	case 4:
		for i := from; i < len(b); i++ {
			b[i] ^= 0xff
		}
	}

	return b
}

func forge(h []byte, edits []Edit, w int) []byte {
	out := append([]byte(nil), h...)
	for _, e := range edits {
		if e.W != w || len(out) == 0 {
			continue
		}
		p := e.P % (len(out) + 1)
		n := min(max(e.N, 0), len(out)-p)
		switch e.K {
		case "num":
			var b bytes.Buffer
			putNum(&b, e.V)
			out = append(append(append([]byte(nil), out[:p]...), b.Bytes()...), out[p+n:]...)
		case "coder":
			out = append(append(append([]byte(nil), out[:p]...), forgeCoder(newRng(e.V))...), out[p+n:]...)
		case "byte":
			if p < len(out) {
				out[p] = byte(e.V)
			}
		case "cut":
			out = append(append([]byte(nil), out[:p]...), out[p+n:]...)
		case "dup":
			out = append(append([]byte(nil), out[:p+n]...), out[p:]...)
		case "alter", "again": // V says how, and for a repetition also where to
			rec := alter(out[p:p+n], e.V)
			if e.K == "again" {
				p += n
				if e.V&3 == 0 {
					p = int(e.V>>2) % (len(out) + 1)
				}
				n = 0
			}
			out = append(append(append([]byte(nil), out[:p]...), rec...), out[p+n:]...)
		case "move":
			rec := append([]byte(nil), out[p:p+n]...)
			out = append(append([]byte(nil), out[:p]...), out[p+n:]...)
			p = int(e.V) % (len(out) + 1)
			out = append(append(append([]byte(nil), out[:p]...), rec...), out[p:]...)
		case "ins":
			out = append(append(append([]byte(nil), out[:p]...), bytes.Repeat([]byte{byte(e.V)}, min(e.N, 1<<16))...), out[p:]...)
		}
	}

	return out
}

// forgeCoder describes some coder with unsuitable properties.
func forgeCoder(r *Rng) []byte {
	var b bytes.Buffer
	names := sortedKeys(methodIDs)
	name := names[r.N(len(names))]
	id := methodIDs[name]
	if r.P(10) {
		id = genContent(r.U64(), r.N(16))
	}
	fl := byte(len(id))
	in, out := 1, 1
	if name == "bcj2" {
		in = 4
	}
	if r.P(15) {
		in, out = r.N(6), r.N(3)
	}
	if in != 1 || out != 1 {
		fl |= 0x10
	}
	var props []byte
	switch n := pickOf(r, 0, 0, 1, 1, 2, 3, 4, 5, 5, 5, 6, 17, 18, 34, r.N(70)); {
	case n == 0:
	case name == "aes" && r.P(70):
		props = genContent(r.U64(), n)
		props[0] = byte(pickOf(r, r.N(16), 25, 40, 62, 63) | pickOf(r, 0xc0, 0x80, 0x40, 0))
	case r.P(50):
		props = bytes.Repeat([]byte{byte(pickOf(r, 0, 0xff, r.N(256)))}, n)
	default:
		props = genContent(r.U64(), n)
		if len(props) >= 5 && r.P(80) { // a small dictionary
			props[3], props[4] = 0, 0
		}
	}
	if len(props) > 0 {
		fl |= 0x20
	}
	b.WriteByte(fl)
	b.Write(id)
	if in != 1 || out != 1 {
		putNum(&b, uint64(in))
		putNum(&b, uint64(out))
	}
	if len(props) > 0 {
		putNum(&b, uint64(len(props)))
		b.Write(props)
	}

	return b.Bytes()
}

func forgeStart(sh []byte, edits []Edit) {
	for _, e := range edits {
		if e.W != 2 {
			continue
		}
		switch e.K {
		case "off":
			binary.LittleEndian.PutUint64(sh, e.V)
		case "size":
			binary.LittleEndian.PutUint64(sh[8:], e.V)
		}
	}
}

func wildNum(r *Rng, v uint64) uint64 {
	switch r.N(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return v + 1
	case 3:
		return v - 1
	case 4:
		return v * 2
	case 5:
		return v ^ 1<<r.N(64)
	case 6:
		return uint64(r.N(70))
	case 7:
		return 1<<32 - 1
	case 8:
		return 1 << 32
	case 9:
		return 1<<31 - uint64(r.N(2))
	case 10:
		return 1<<63 - uint64(r.N(3))
	case 11:
		return -uint64(1 + r.N(3))
	case 12:
		return r.U64() >> r.N(64)
	default:
		return 1<<uint(r.N(64)) + uint64(r.N(3)) - 1
	}
}

// genForge makes up to n edits for an archive.
func genForge(r *Rng, a *Arch, n int) []Edit {
	var out []Edit
	for range n {
		e := Edit{}
		if len(a.Hdrs[1]) > 0 && r.P(40) {
			e.W = 1
		}
		if r.P(4) {
			e.W = 2
			e.K = pickOf(r, "off", "size")
			e.V = wildNum(r, uint64(pickOf(r, int(a.Header.Lo-a.SigHdr.Hi), int(a.Header.Hi-a.Header.Lo))))
			out = append(out, e)

			continue
		}
		h, toks := a.Hdrs[e.W], a.Toks[e.W]
		if len(h) == 0 {
			continue
		}
		span := func() {
			e.P = r.N(len(h))
			e.N = 1 + r.Small(16)
			if len(toks) > 1 && r.P(60) {
				i := r.N(len(toks))
				j := min(i+1+r.N(4), len(toks)-1)
				e.P, e.N = toks[i].P, max(toks[j].P-toks[i].P, 1)
			}
			if r.P(30) { // from or including a property id
				e.P--
			}
			if e.P < 0 {
				e.P = 0
			}
		}
		if e.W == 0 && len(a.Recs) > 1 && r.P(25) {
			x, y := a.Recs[r.N(len(a.Recs))], a.Recs[r.N(len(a.Recs))]
			e.K, e.P, e.N = pickOf(r, "alter", "again", "again", "move"), x.P, x.N
			e.V = r.U64() | 1
			if e.K == "move" {
				e.V = uint64(pickOf(r, y.P, y.P+y.N))
			} else if r.P(30) {
				e.V = uint64(pickOf(r, y.P, y.P+y.N)) << 2
			}
			out = append(out, e)

			continue
		}
		switch r.N(10) {
		case 0, 1:
			e.K = "byte"
			e.P = r.N(len(h))
			e.V = uint64(pickOf(r, r.N(256), r.N(28), int(h[e.P])^1<<r.N(8), 0, 1, 255))
		case 8:
			if len(a.Coders[e.W]) == 0 {
				continue
			}
			c := a.Coders[e.W][r.N(len(a.Coders[e.W]))]
			e.K, e.P, e.N, e.V = "coder", c.P, c.N, r.U64()
		case 2:
			e.K = "cut"
			span()
		case 3:
			e.K = "dup"
			span()
		case 4:
			e.K = "ins"
			span()
			e.V = uint64(pickOf(r, r.N(256), r.N(28), 0, 1, 255))
			e.N = 1 + r.Small(40)
			if r.P(3) {
				e.N = 1 << r.N(17)
			}
		default:
			if len(toks) == 0 {
				continue
			}
			t := toks[r.N(len(toks))]
			e.K, e.P, e.N, e.V = "num", t.P, t.N, wildNum(r, t.V)
		}
		out = append(out, e)
	}

	return out
}

// demands tells what memory and time the coders described anywhere in b ask
// for: those of the format's own decoders, whatever else the header says.
func demands(b []byte) (mem uint64, slow, zstd bool) {
	num := func(p int) (uint64, int) {
		if p >= len(b) {
			return 0, len(b)
		}
		f, v := b[p], uint64(0)
		p++
		for i := 0; i < 8; i++ {
			if f&(0x80>>i) == 0 {
				return v | uint64(f&(0x7f>>i))<<(8*i), p
			}
			if p >= len(b) {
				return 0, len(b)
			}
			v |= uint64(b[p]) << (8 * i)
			p++
		}

		return v, p
	}
	for i := range b {
		n := int(b[i] & 15)
		if b[i]&0x20 == 0 || i+1+n >= len(b) {
			continue
		}
		id, p := string(b[i+1:i+1+n]), i+1+n
		if b[i]&0x10 != 0 {
			_, p = num(p)
			_, p = num(p)
		}
		_, p = num(p)
		pr := b[p:]
		switch {
		case id == "\x03\x01\x01" && len(pr) >= 5, id == "\x03\x04\x01" && len(pr) >= 5:
			mem += 2*uint64(binary.LittleEndian.Uint32(pr[1:])) + 1<<20
		case id == "\x21" && len(pr) >= 1 && pr[0] <= 40:
			mem += 2*(uint64(2|pr[0]&1)<<(pr[0]/2+11)) + 1<<20
		case id == "\x06\xf1\x07\x01" && len(pr) >= 1:
			if c := pr[0] & 63; c >= 16 && c <= 24 {
				slow = true
			}
		}
	}
	zstd = bytes.Contains(b, []byte("\x04\xf7\x11\x01")) // the window size is in the packed data
	mem += uint64(bytes.Count(b, []byte("\x04\xf7\x11\x02"))) * 32 << 20

	return mem, slow, zstd
}

// opProbe opens a forged archive and tries everything with it.
func (t *tctx) opProbe(in *inst, op *Op) {
	d := in.disk
	mem, slow, zstd := uint64(0), false, false
	for _, h := range in.arch.Hdrs {
		m, s, z := demands(h)
		mem, slow, zstd = mem+m, slow || s, zstd || z
	}
	if slow || mem > 256<<20 {
		t.cnt["forged archives with costly decoders"]++

		return
	}
	meas := !vsim.RaceEnabled && len(t.r.tasks) == 1
	lim := uint64(24<<20) + 1024*uint64(len(d.data)) + 2*mem
	watch := func(what string, f func()) {
		var m0 uint64
		if meas {
			m0 = memAlloc()
		}
		vsim.OpStart()
		f()
		if meas {
			got := memAlloc() - m0
			if got > lim && !(zstd && what[0] == 'r') {
				t.fail("alloc", []string{"C19"}, "%s an archive of %d bytes (%d bytes for decoders) allocated %d bytes", what, len(d.data), mem, got)
			}
		}
	}
	var (
		zr  *sevenzip.Reader
		rc  *sevenzip.ReadCloser
		err error
	)
	d.setPhase("open")
	watch("opening", func() {
		if in.spec.Via == "fs" {
			rc, err = sevenzip.OpenReaderWithPassword(in.name, in.spec.Pw)
			if rc != nil {
				zr = &rc.Reader
			}
		} else {
			zr, err = sevenzip.NewReaderWithPassword(&memReader{d}, int64(len(d.data)), in.spec.Pw)
		}
	})
	t.cnt["opens"]++
	t.mixErr(err)
	t.note(fmt.Sprintf("probe inst %d: %v", in.idx, err))
	if err != nil {
		t.cnt["forged rejected"]++
		if zr != nil {
			t.fail("open-nonnil", nil, "a failed open also returned a reader (%v)", err)
		}
		t.checkFds(in, 0)

		return
	}
	t.cnt["forged accepted"]++
	t.checkFds(in, 1)
	d.setPhase("body")
	watch("listing", func() {
		for _, f := range zr.File {
			fi := f.FileInfo()
			t.mixHash(int64(len(fi.Name())), fi.Size(), int64(fi.Mode()), fi.ModTime().Unix(), int64(f.Stream))
		}
		n := 0
		werr := fs.WalkDir(zr, ".", func(_ string, d fs.DirEntry, err error) error {
			if n++; n > 20*len(zr.File)+2*len(in.arch.Hdrs[0])+100 {
				t.fail("fs-walk", []string{"C19"}, "the walk of %d files does not end", len(zr.File))
			}
			if err != nil {
				return nil //nolint:nilerr
			}
			_, _ = d.Info()

			return nil
		})
		t.mixErr(werr)
	})
	r := newRng(uint64(op.N))
	for range min(len(zr.File), 5) {
		f := zr.File[r.N(len(zr.File))]
		watch("reading a file of", func() {
			h, err := f.Open()
			t.mixErr(err)
			if err != nil {
				return
			}
			buf := make([]byte, pickOf(r, 1000, 4096, 40000))
			idle, total := 0, 0
			for total < 400000 {
				n, err := h.Read(buf)
				t.mixHash(int64(n))
				total += n
				t.cnt["bytes"] += int64(n)
				if n < 0 || n > len(buf) {
					t.fail("count", []string{"C19"}, "a read into %d bytes returned %d", len(buf), n)
				}
				if f.UncompressedSize < uint64(total) {
					t.fail("count", []string{"C19"}, "a file listed with %d bytes yields more", f.UncompressedSize)
				}
				if err != nil {
					t.mixErr(err)
					break
				}
				if n == 0 {
					if idle++; idle > 200 {
						t.fail("stuck", []string{"C19"}, "reads return neither bytes nor an error")
					}
				}
			}
			t.mixErr(h.Close())
		})
	}
	if rc != nil {
		t.mixErr(rc.Close())
		t.checkFds(in, 0)
	}
	runtime.KeepAlive(zr)
}
