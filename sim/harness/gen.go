package main

import (
	"strconv"
	"strings"
)

// What plans are made of. Every choice comes from the plan's own generator.

var (
	codecs  = []string{"copy", "lzma", "lzma2", "deflate", "bzip2", "zstd", "brotli", "lz4", "ppmd"}
	pooled  = []string{"deflate", "zstd", "brotli", "lz4"}
	filters = []string{"bcj", "arm", "arm64", "ppc", "sparc", "delta", "bcj2", "copy"}
	pws     = []string{"password", "p", "Passwört", "passwore", "secret", "pä", "x1", "longer pass phrase", "日本", "a", "ab"}
)

// shape says what kind of archives a family needs.
type shape struct {
	codecs   []string
	custom   int // percent of streams coded by the harness's own decompressors
	custFlt  int // percent of streams with harness filters on top
	under    int // percent of streams with harness decompressors below
	filter   int // percent of streams with built-in filters
	aes      int // percent of encrypted streams
	maxFold  int
	maxFiles int
	single   bool // one file per stream
	big      int  // percent chance that large samples are allowed
	headers  []string
	prefix   int // percent with a self-extractor stub
	empties  bool
	via      int // percent opened through the file system
	split    int // percent of those in volumes
	latency  int // percent with storage latency
	onePw    bool
}

var allHeaders = []string{"plain", "plain", "copy", "lzma", "lzma", "aes", "aeslzma"}

func stdShape() shape {
	return shape{codecs: codecs, filter: 35, aes: 25, maxFold: 3, maxFiles: 6, big: 15, headers: allHeaders, prefix: 10, empties: true, via: 40, split: 60, latency: 15, onePw: true, custom: 5, custFlt: 6, under: 6}
}

func genAES(r *Rng, pw string) *AESSpec {
	a := &AESSpec{Cycles: pickOf(r, 0, 1, 2, 3, 4, 5, 6, 0x3f), IVLen: pickOf(r, 0, 1, 8, 15, 16, 16, 16), IVSeed: r.U64(), Pw: pw}
	a.Salt = make([]byte, pickOf(r, 0, 0, 1, 4, 8, 15, 16))
	for i := range a.Salt {
		a.Salt[i] = byte(r.U64())
	}
	if a.Cycles == 0x3f && len(a.Salt)+2*len(pw) > 30 {
		a.Cycles = 1
	}
	if len(a.Salt) == 0 && a.IVLen == 0 {
		a.IVLen = 16
	}

	return a
}

func genSizes(r *Rng, maxFiles int) []int {
	n := 1 + r.N(maxFiles)
	s := make([]int, n)
	for i := range s {
		switch r.N(6) {
		case 0:
			s[i] = 1 + r.N(3)
		case 1:
			s[i] = 16 * (1 + r.N(8))
		case 2:
			s[i] = 1 + r.N(100)
		case 3:
			s[i] = 4096*(1+r.N(2)) + r.N(3) - 1
		default:
			s[i] = 1 + r.N(6000)
		}
	}

	return s
}

func genFolder(r *Rng, sh *shape, pw string) FolderSpec {
	f := FolderSpec{Codec: pickOf(r, sh.codecs...), Seed: r.U64()}
	if r.P(sh.custom) {
		f.Codec = "custom:" + strconv.Itoa(r.N(2))
	}
	switch {
	case f.Codec == "copy" || strings.HasPrefix(f.Codec, "custom:"):
		f.Len = pickOf(r, 1, 2, 5, 15, 16, 17, 31, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 12289, 20000)
		if f.Len > 6000 && !r.P(sh.big*3) {
			f.Len = 1 + r.N(6000)
		}
	default:
		b := blobs[f.Codec]
		for range 20 {
			f.Blob = r.N(len(b))
			if n := len(b[f.Blob].Plain); n <= 6000 || r.P(sh.big) {
				break
			}
		}
		if f.Codec == "ppmd" {
			f.Len = 1 + r.N(3000)
			if r.P(sh.big) {
				f.Len = 0
			}
		}
	}
	if r.P(sh.aes) {
		f.AES = genAES(r, pw)
	}
	if r.P(sh.filter) {
		n := 1
		if r.P(25) {
			n = 2
		}
		for i := range n {
			k := pickOf(r, filters...)
			if k == "bcj2" && i > 0 {
				k = "bcj"
			}
			if k == "delta" {
				k = "delta:" + strconv.Itoa(pickOf(r, 1, 1, 2, 3, 4, 7, 16, 100, 255, 256, 1+r.N(256)))
			}
			f.Filters = append(f.Filters, k)
		}
	}
	if r.P(sh.custFlt) {
		f.Filters = append(f.Filters, "custom:"+strconv.Itoa(2+r.N(2)))
		if r.P(40) {
			f.Filters = append(f.Filters, "custom:"+strconv.Itoa(4+r.N(2)))
		}
		if n := len(f.Filters); n > 1 && f.Filters[0] != "bcj2" && r.P(50) { // below the others
			i := r.N(n)
			f.Filters[i], f.Filters[n-1] = f.Filters[n-1], f.Filters[i]
		}
	}
	if r.P(sh.under) {
		f.Under = []string{"custom:" + strconv.Itoa(8+r.N(2))}
		if r.P(40) {
			f.Under = []string{"custom:8", "custom:9"}
		}
	}
	if f.Codec == "lzma" && r.P(5) {
		f.Huge = true
	}
	f.Files = genSizes(r, sh.maxFiles)
	if sh.empties && r.P(2) {
		f.Files = nil // a stream without files
	}
	if sh.single {
		f.Files = []int{1}
	}

	return f
}

func genArch(r *Rng, sh *shape, pw string) ArchSpec {
	a := ArchSpec{Tree: r.U64(), Meta: r.U64(), Header: pickOf(r, sh.headers...)}
	n := 1 + r.N(sh.maxFold)
	for range n {
		a.Folders = append(a.Folders, genFolder(r, sh, pw))
	}
	if r.P(35) {
		a.Form = r.U64()
	}
	if !sh.single && r.P(3) {
		a.Tiny = pickOf(r, 20, 100, 300)
	}
	if sh.empties && r.P(30) {
		a.Empty = r.N(4)
		a.Dirs = r.N(3)
	}
	if strings.HasPrefix(a.Header, "aes") {
		a.HAES = genAES(r, pw)
	}
	if r.P(sh.prefix) {
		a.Prefix = pickOf(r, 1, 5, 31, 32, 100, 4090, 4091, 4095, 4096, 4097, 4101, 8192, 9000)
		a.Decoys = r.N(3)
	}
	if r.P(10) {
		a.Gap = r.N(40)
	}
	if r.P(10) {
		a.Trail = r.N(50)
	}

	return a
}

func genVols(r *Rng, approx int) []int {
	var v []int
	switch r.N(5) {
	case 0: // equal
		n := 2 + r.N(6)
		for range n {
			v = append(v, approx/n+1)
		}
	case 1: // tiny first volumes
		for range 1 + r.N(40) {
			v = append(v, 1+r.N(4))
		}
	case 2:
		for range 2 + r.N(10) {
			v = append(v, 1+r.N(approx/2+2))
		}
	case 3: // volumes of the structures' own sizes
		for range 2 + r.N(5) {
			v = append(v, pickOf(r, 32, 31, 1, 12, 20, 4096, 4102, 16), 1+r.N(approx/4+2))
		}
	default:
		v = append(v, 32, 1+r.N(100), r.N(approx+1))
	}
	v = append(v, 1)

	return v
}

func genInst(r *Rng, sh *shape) InstSpec {
	pw := pickOf(r, pws...)
	is := InstSpec{Arch: genArch(r, sh, pw), Pw: pw, Via: "mem"}
	if r.P(sh.via) {
		is.Via = "fs"
		if r.P(sh.split) {
			is.Split = true
			is.Vols = genVols(r, 3000)
		}
	}
	if r.P(sh.latency) {
		is.Latency = pickOf[int64](r, 10, 1000, 100000)
	}

	return is
}

var chunkSizes = []int{1, 2, 3, 5, 7, 8, 13, 15, 16, 17, 31, 32, 33, 100, 255, 256, 257, 512, 1000, 4095, 4096, 4097, 32768, 65537, 0, 0, 0}

// fewer single-byte reads over big files
func genChunk(r *Rng) int { return chunkSizes[r.N(len(chunkSizes))] }

// genHistory is a random list of file operations of one caller over the
// given archive instances.
func genHistory(r *Rng, insts []int, n int, fsPct int) []Op {
	var ops []Op
	open := map[int]bool{}
	slots := 1 + r.N(4)
	run := r.N(8) // current position of a forward walk
	for len(ops) < n {
		s := r.N(slots)
		in := insts[r.N(len(insts))]
		if !open[s] {
			f := r.N(24)
			if r.P(50) {
				run++
				f = run
			}
			if r.P(fsPct) {
				ops = append(ops, Op{K: "fsopen", I: in, F: f, H: s})
			} else {
				ops = append(ops, Op{K: "openfile", I: in, F: f, H: s})
			}
			open[s] = true

			continue
		}
		switch r.N(10) {
		case 0, 1:
			ops = append(ops, Op{K: "read", H: s, N: genChunk(r)})
		case 2, 3:
			ops = append(ops, Op{K: "readp", H: s, N: 1 + r.N(99), M: genChunk(r)})
		case 4, 5:
			ops = append(ops, Op{K: "readall", H: s, M: genChunk(r)})
			if r.P(70) {
				ops = append(ops, Op{K: "close", H: s})
				open[s] = false
			}
		case 6:
			ops = append(ops, Op{K: "copy", H: s})
		case 7, 8:
			ops = append(ops, Op{K: "close", H: s})
			open[s] = false
		default:
			if r.P(30) {
				ops = append(ops, Op{K: "list", I: in})
			} else {
				ops = append(ops, Op{K: "extract", I: in, F: r.N(24), H: 9, M: genChunk(r)})
			}
		}
	}

	return ops
}

func genSched(r *Rng, p *Plan) {
	p.NumCPU = pickOf(r, 1, 1, 2, 2, 3, 4, 8)
	p.PoolHit = pickOf(r, 0, 500, 900, 1000, 1000, 1000)
	if len(p.Tasks) < 2 {
		return
	}
	switch r.N(4) {
	case 0:
		p.Strategy = 2
		p.Depth = 1 + r.N(6)
		p.Horizon = pickOf[int64](r, 200, 2000, 20000, 200000)
		p.SyncPm = pickOf(r, 0, 5, 50)
	default:
		p.Strategy = 1
		p.Mean = pickOf[int64](r, 2, 5, 20, 100, 1000, 10000)
		p.SyncPm = pickOf(r, 0, 20, 100, 300)
	}
}

func openAll(p *Plan) {
	for i := range p.Insts {
		p.Pre = append(p.Pre, Op{K: "open", I: i})
	}
}

func all(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i
	}

	return v
}

// genFaults places n storage faults of the given kinds on an instance whose
// layout is known.
func genFaults(r *Rng, inst int, a *Arch, n int, phase string, kinds ...string) []Fault {
	var out []Fault
	size := int64(len(a.Bytes))
	for range n {
		f := Fault{Inst: inst, Kind: pickOf(r, kinds...), Phase: phase, Count: 1}
		// where: anywhere, or inside one stream's packed bytes
		if len(a.Folders) > 0 && r.P(75) {
			fo := a.Folders[r.N(len(a.Folders))]
			if len(fo.Spans) > 0 {
				sp := fo.Spans[r.N(len(fo.Spans))]
				f.Lo, f.Hi = sp.Lo, sp.Hi
				if r.P(50) && sp.Hi > sp.Lo {
					f.Lo = sp.Lo + int64(r.N(int(sp.Hi-sp.Lo)))
					if r.P(50) {
						f.Hi = min(f.Lo+1+int64(r.N(64)), sp.Hi)
					}
				}
			}
		}
		f.At = 0
		if r.P(60) {
			f.At = r.N(6)
		}
		switch f.Kind {
		case "short":
			f.Arg = int64(r.N(5000))
			if r.P(50) {
				f.Arg = int64(r.N(64))
			}
		case "eof":
			f.Arg = int64(r.N(int(size)))
			if f.Hi > f.Lo {
				f.Arg = f.Lo + int64(r.N(int(f.Hi-f.Lo)))
			}
			f.Lo, f.Hi, f.At, f.Count = 0, 0, 0, -1
		case "slow":
			f.Arg = pickOf[int64](r, 1000, 1000000)
			f.Count = 1 + r.N(5)
		case "stall":
			f.Count = 1 + r.N(3)
		}
		if (f.Kind == "err" || f.Kind == "short") && r.P(30) {
			f.Count = 1 + r.N(4)
		}
		out = append(out, f)
	}

	return out
}

// genDamage places at-rest damage inside [lo,hi).
func genDamage(r *Rng, inst int, size int64, lo, hi int64, phase string) Fault {
	if hi <= lo {
		hi = lo + 1
	}
	at := lo + int64(r.N(int(hi-lo)))
	f := Fault{Inst: inst, Kind: pickOf(r, "flip", "flip", "zero", "torn", "swap"), Phase: phase, Lo: at, Hi: min(hi, at+1+int64(r.Small(512))), Arg: int64(r.N(8))}
	if f.Kind == "torn" {
		f.Arg = int64(r.U64() >> 8)
	}
	if f.Kind == "swap" {
		f.Arg = int64(r.N(int(size)))
	}

	return f
}
