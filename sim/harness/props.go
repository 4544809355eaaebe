package main

import (
	"fmt"
	"hash/fnv"
	"slices"
	"strconv"
	"strings"
)

var claimed = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24"}

// racy lists the properties part of whose plans run in the race build.
var racy = map[string]int{"C02": 50, "C10": 25, "C15": 30, "C18": 40, "C16": 15}

func makePlan(prop string, base uint64, index int, tier string) *Plan {
	h := fnv.New64a()
	_, _ = h.Write([]byte(prop))
	seed := mix(base, h.Sum64(), uint64(index))
	r := newRng(seed)
	p := &Plan{Prop: prop, Seed: seed, Index: index, Tier: tier, BaseSeed: base}
	custSalt = saltOf(seed) // archives built along the way must be those of the run
	if pct := racy[prop]; pct > 0 {
		p.Race = index%100 < pct
	}
	gens[prop](r, p)
	genSched(r, p)
	genQuirks(r, p)

	return p
}

var gens = map[string]func(*Rng, *Plan){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06,
	"C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12,
	"C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16, "C17": genC17, "C18": genC18, "C19": genC19, "C20": genC20, "C22": genC22, "C23": genC23, "C24": genC24,
}

// genQuirks decides how the plan's own decompressors read their input.
func genQuirks(r *Rng, p *Plan) {
	uses := len(p.Cust) > 0 || p.Methods > 0
	for i := range p.Insts {
		for _, f := range p.Insts[i].Arch.Folders {
			uses = uses || strings.Contains(f.Codec+strings.Join(slices.Concat(f.Under, f.Filters), " "), "custom:")
		}
	}
	if !uses {
		return
	}
	if p.Methods == 0 {
		p.Methods = maxMethods
	}
	if p.Prop == "C23" || r.P(50) {
		return
	}
	p.CSize = r.N(1000)
	for range maxMethods {
		p.CMode = append(p.CMode, r.N(quirks))
	}
}

// ending reads everything once more at the end of a run.
func ending(r *Rng, p *Plan) {
	for i := range p.Insts {
		p.Post = append(p.Post, Op{K: "recover", I: i, N: r.N(2)}, Op{K: "list", I: i})
	}
}

func built(p *Plan, i int) *Arch { return p.Insts[i].Arch.build(i) }

func fewTasks(r *Rng) int {
	if r.P(65) {
		return 1
	}

	return 2 + r.N(2)
}

func genC01(r *Rng, p *Plan) {
	if p.Index < 0 {
		genHuge(r, p)

		return
	}
	p.Family = "histories"
	sh := stdShape()
	n := pickOf(r, 1, 1, 1, 2, 3)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	if r.P(2) && beyond(r, p, 0) {
		openAll(p)
		p.Pre = append(p.Pre, Op{K: "openfile", F: r.N(9), H: 8, S: "far"}, Op{K: "readall", H: 8, M: 1 << 20, S: "far"}, Op{K: "close", H: 8})
	}
	openAll(p)
	for range fewTasks(r) {
		p.Tasks = append(p.Tasks, genHistory(r, all(n), 5+r.N(40), 10))
	}
	ending(r, p)
}

// huge is how many plans of a property need address space that a worker, which
// lives on, can't spare: they're indexed -1, -2, ... and have a process each.
var huge = map[string]int{"C01": 2}

// genHuge makes an archive with a stream that declares the largest dictionary
// of its method and is decoded once.
func genHuge(r *Rng, p *Plan) {
	p.Family = "largest dictionary"
	f := FolderSpec{Codec: pickOf(r, "lzma", "lzma2"), Blob: r.N(1000), Huge: true}
	if p.Index == -1 {
		f.Codec = "lzma2"
	}
	f.Files = []int{1 + r.N(40), 1}
	p.Insts = []InstSpec{{Arch: ArchSpec{Folders: []FolderSpec{f}, Header: "plain"}, Via: "mem"}}
	openAll(p)
	for i := range 3 {
		p.Pre = append(p.Pre, Op{K: "openfile", F: i, H: i}, Op{K: "readall", H: i, M: 1 + r.N(5000)}, Op{K: "close", H: i})
	}
	p.Tasks = [][]Op{nil}
}

func genC02(r *Rng, p *Plan) {
	p.Family = "concurrent"
	sh := stdShape()
	sh.big = 5
	sh.custom = 10
	sh.custFlt = 10
	sh.under = 10
	p.Methods = maxMethods
	n := 1 + r.N(3)
	nt := 2 + r.N(3)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
		if r.P(30) { // the same archive opened twice
			p.Insts = append(p.Insts, p.Insts[len(p.Insts)-1])
		}
	}
	openAll(p)
	n = len(p.Insts)
	for range nt {
		ops := genHistory(r, all(n), 4+r.N(20), 30)
		own := len(p.Insts)
		// an archive of the task's own, possibly equal to a shared one
		if r.P(60) {
			is := genInst(r, &sh)
			if r.P(50) {
				is = p.Insts[r.N(n)]
			}
			p.Insts = append(p.Insts, is)
			ops = insertOps(r, ops, []Op{{K: "open", I: own}, {K: "extract", I: own, F: r.N(9), H: 20, M: 4096}, {K: "extract", I: own, F: r.N(9), H: 20, M: 77}, {K: "closearch", I: own}})
		}
		if r.P(50) {
			ops = insertOps(r, ops, []Op{{K: "fswalk", I: r.N(n)}, {K: "fsreadfile", I: r.N(n), F: r.N(30)}, {K: "fsstat", I: r.N(n), F: r.N(30)}})
		}
		if r.P(30) {
			ops = insertOps(r, ops, []Op{{K: "register", M: 6 + r.N(2), N: 1 + r.N(200)}, {K: "register", M: 6 + r.N(2), N: 1 + r.N(200)}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for i := range n {
		p.Post = append(p.Post, Op{K: "recover", I: i}, Op{K: "list", I: i})
	}
}

// insertOps spreads extra over ops, keeping both orders.
func insertOps(r *Rng, ops, extra []Op) []Op {
	var out []Op
	for len(ops) > 0 || len(extra) > 0 {
		if len(extra) == 0 || len(ops) > 0 && r.N(len(ops)+len(extra)) < len(ops) {
			out = append(out, ops[0])
			ops = ops[1:]
		} else {
			out = append(out, extra[0])
			extra = extra[1:]
		}
	}

	return out
}

func storageFaults(r *Rng, p *Plan, kinds ...string) {
	for i := range p.Insts {
		if i > 0 && r.P(50) {
			continue
		}
		p.Faults = append(p.Faults, genFaults(r, i, built(p, i), 1+r.N(4), "body", kinds...)...)
	}
}

func genC03(r *Rng, p *Plan) {
	p.Family = "read errors"
	sh := stdShape()
	sh.aes, sh.filter = 30, 45
	n := pickOf(r, 1, 1, 1, 2)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	openAll(p)
	if r.P(92) {
		storageFaults(r, p, "err", "err", "short", "short", "slow")
		if r.P(15) { // a range that stays bad
			for i := range p.Faults {
				if p.Faults[i].Kind == "err" && p.Faults[i].Hi > p.Faults[i].Lo {
					p.Faults[i].Count = -1
					p.Faults[i].At = 0
				}
			}
		}
	}
	for range fewTasks(r) {
		ops := genHistory(r, all(n), 5+r.N(30), 15)
		ops = rereads(r, ops)
		p.Tasks = append(p.Tasks, ops)
	}
}

// rereads adds further reads of handles that may have met an error.
func rereads(r *Rng, ops []Op) []Op {
	var out []Op
	for _, o := range ops {
		out = append(out, o)
		if (o.K == "readall" || o.K == "readp") && r.P(40) {
			for range 1 + r.N(3) {
				out = append(out, Op{K: "read", H: o.H, N: genChunk(r)})
			}
			if r.P(50) {
				out = append(out, Op{K: "readall", H: o.H, M: genChunk(r)})
			}
		}
	}

	return out
}

func genC04(r *Rng, p *Plan) {
	genC03(r, p)
	p.Family = "heal and recover"
	for i := range p.Faults {
		if p.Faults[i].Count < 0 {
			p.Faults[i].Count = 1 + r.N(5)
		}
	}
	// handles left open at the end are closed at random before healing
	for i := range p.Tasks {
		for s := range 5 {
			if r.P(50) {
				p.Tasks[i] = append(p.Tasks[i], Op{K: "close", H: s})
			}
		}
	}
	p.Post = append(p.Post, Op{K: "heal"})
	ending(r, p)
}

func genC05(r *Rng, p *Plan) {
	sh := stdShape()
	sh.aes, sh.filter = 30, 50
	sh.split = 70
	n := pickOf(r, 1, 1, 2)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	p.Family = "cut while open"
	for i := range p.Insts {
		a := built(p, i)
		size := len(a.Bytes)
		if r.P(70) {
			p.Faults = append(p.Faults, genFaults(r, i, a, 1, "body", "eof")...)
			if r.P(20) { // shortly before the end of a stream
				fo := a.Folders[r.N(len(a.Folders))]
				sp := fo.Spans[r.N(len(fo.Spans))]
				if sp.Hi > sp.Lo {
					p.Faults[len(p.Faults)-1].Arg = max(sp.Lo, sp.Hi-1-int64(r.N(20)))
				}
			}
		} else {
			p.Family = "cut before opening"
			f := Fault{Inst: i, Kind: "trunc", Phase: "open", Arg: int64(r.N(size + 1)), Vol: r.N(2)}
			switch r.N(4) {
			case 0:
				f.Arg = int64(size - 1 - r.N(min(40, size-1)))
			case 1: // whole volumes are missing
				f.Vol = 1
				if v := p.Insts[i].Vols; len(v) > 1 {
					at := 0
					for k := range 1 + r.N(len(v)-1) {
						at += v[k]
					}
					f.Arg = int64(min(at, size))
				}
			}
			p.Faults = append(p.Faults, f)
		}
	}
	openAll(p)
	for range fewTasks(r) {
		p.Tasks = append(p.Tasks, rereads(r, genHistory(r, all(n), 5+r.N(25), 15)))
	}
	ending(r, p)
}

func genC06(r *Rng, p *Plan) {
	p.Family = "damaged metadata"
	sh := stdShape()
	sh.maxFold, sh.big, sh.via = 4, 0, 30
	sh.prefix = 15
	is := genInst(r, &sh)
	if is.Split && r.P(50) {
		is.Split, is.Vols = false, nil
	}
	p.Insts = []InstSpec{is}
	a := built(p, 0)
	size := int64(len(a.Bytes))
	for range pickOf(r, 1, 1, 1, 2, 3) {
		sp := a.Header
		switch r.N(7) {
		case 0, 1:
			sp = a.SigHdr
		case 2, 3, 4:
			if a.EncHdr.Hi > 0 {
				sp = a.EncHdr
			}
		}
		if r.P(12) {
			p.Faults = append(p.Faults, Fault{Inst: 0, Kind: "trunc", Phase: "open", Arg: int64(r.N(int(size)))})
			continue
		}
		if r.P(15) {
			if sp == a.SigHdr {
				sp.Lo += 12
			}
			p.Faults = append(p.Faults, Fault{Inst: 0, Kind: "alias", Phase: "open", Lo: sp.Lo, Hi: sp.Hi, Arg: int64(r.U64() >> 8)})
			continue
		}
		p.Faults = append(p.Faults, genDamage(r, 0, size, sp.Lo, sp.Hi, "open"))
	}
	openAll(p)
	p.Tasks = [][]Op{{{K: "list"}}}
	for range 1 + r.N(4) {
		p.Tasks[0] = append(p.Tasks[0], Op{K: "extract", F: r.N(24), H: 1, M: 4096})
	}
	p.Tasks[0] = append(p.Tasks[0], Op{K: "fswalk"})
	ending(r, p)
}

func genC07(r *Rng, p *Plan) {
	p.Family = "damaged content"
	sh := stdShape()
	sh.filter = 45
	n := pickOf(r, 1, 2, 2, 3)
	for i := range n {
		if i > 0 && r.P(40) {
			sh.codecs = []string{p.Insts[0].Arch.Folders[0].Codec, pickOf(r, codecs...)}
		}
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	for i := range p.Insts {
		if i > 0 && r.P(60) {
			continue
		}
		a := built(p, i)
		for range 1 + r.N(2) {
			fo := a.Folders[r.N(len(a.Folders))]
			sp := fo.Spans[r.N(len(fo.Spans))]
			if sp.Hi == sp.Lo {
				continue
			}
			ph := "open"
			if r.P(30) {
				ph = "body"
			}
			p.Faults = append(p.Faults, genDamage(r, i, int64(len(a.Bytes)), sp.Lo, sp.Hi, ph))
		}
	}
	openAll(p)
	for range fewTasks(r) {
		p.Tasks = append(p.Tasks, rereads(r, genHistory(r, all(n), 5+r.N(25), 10)))
	}
	ending(r, p)
}

func genC08(r *Rng, p *Plan) {
	p.Family = "volumes"
	sh := stdShape()
	sh.prefix = 30
	sh.via = 100
	sh.latency = 5
	sh.big = 5
	whole := genInst(r, &sh)
	if r.P(8) {
		whole.Arch = ArchSpec{Garbage: true, Tree: r.U64(), Prefix: pickOf(r, 0, 1, 5, 6, 31, 32, 100, 4096, 4102, 5000, 9000)}
	}
	if r.P(3) { // nothing in it
		whole.Arch = ArchSpec{Header: "plain", Tree: r.U64(), Form: 1 + r.U64()>>1, Prefix: pickOf(r, 0, 0, 100, 5000), Trail: r.N(9)}
	}
	whole.Split, whole.Vols = false, nil
	p.Insts = []InstSpec{whole}
	if r.P(3) {
		beyond(r, p, 0)
	}
	parts := p.Insts[0]
	parts.Via, parts.Split = "fs", true
	size := len(parts.Arch.build(0).Bytes)
	parts.Vols = genVols(r, size)
	if r.P(3) { // more than 999 volumes
		parts.Vols = nil
		for range 995 + r.N(40) {
			parts.Vols = append(parts.Vols, 1+r.N(max(size/500, 1)))
		}
	}
	if r.P(10) {
		parts.Vols = []int{size}
	}
	if r.P(30) {
		whole.Via = "mem"
	}
	parts.Base = pickOf(r, "", "x.001.", "UP.", "sp ace.", ".")
	p.Insts = []InstSpec{parts, whole}
	openAll(p)
	if len(whole.Arch.Folders) > 0 && r.P(20) { // the same read errors for both
		p.Family = "volumes with faults"
		fs := genFaults(r, 0, built(p, 0), 1+r.N(2), "body", "err", "short")
		p.Faults = append(p.Faults, fs...)
		for _, f := range fs {
			f.Inst = 1
			p.Faults = append(p.Faults, f)
		}
	}
	nt := fewTasks(r)
	for range nt {
		ops := genHistory(r, []int{0}, 5+r.N(20), 15)
		p.Tasks = append(p.Tasks, ops)
		if r.P(30) {
			o2 := append([]Op(nil), ops...)
			for i := range o2 {
				o2[i].I = 1
			}
			p.Tasks = append(p.Tasks, o2)
		}
	}
	p.Post = append(p.Post, Op{K: "heal"})
	ending(r, p)
	p.Post = append(p.Post, Op{K: "closearch"})
}

func genC09(r *Rng, p *Plan) {
	p.Family = "volume handles"
	sh := stdShape()
	sh.via, sh.split, sh.big, sh.maxFold = 100, 75, 0, 2
	n := pickOf(r, 1, 1, 2)
	for range n {
		is := genInst(r, &sh)
		if r.P(15) {
			is.Pw = "wrong" + is.Pw
		}
		if r.P(5) {
			is.Arch = ArchSpec{Garbage: true, Tree: r.U64(), Prefix: r.N(9000)}
		}
		p.Insts = append(p.Insts, is)
	}
	for i := range p.Insts {
		a := built(p, i)
		d := newDisk(i, a, p.Insts[i].Vols, nil, 0, 0)
		nv := len(d.vols) - 1
		for range r.N(4) {
			f := Fault{Inst: i, Kind: pickOf(r, "openerr", "staterr", "closeerr", "closeerr"), Phase: "any", Vol: r.N(nv), Count: 1}
			if r.P(20) {
				f.Vol = pickOf(r, 0, nv-1)
			}
			if r.P(25) {
				f.At = r.N(2)
			}
			if f.Kind == "closeerr" && r.P(30) {
				f.Count = -1
			}
			p.Faults = append(p.Faults, f)
		}
		size := int64(len(a.Bytes))
		switch r.N(6) {
		case 0:
			p.Faults = append(p.Faults, Fault{Inst: i, Kind: pickOf(r, "err", "short"), Phase: "open", At: r.N(8), Count: 1, Arg: int64(r.N(32))})
		case 1:
			if !a.Bad {
				sp := pickOf(r, a.SigHdr, a.Header, a.Header)
				p.Faults = append(p.Faults, genDamage(r, i, size, sp.Lo, sp.Hi, "open"))
			}
		case 2:
			p.Faults = append(p.Faults, Fault{Inst: i, Kind: "trunc", Phase: "open", Arg: int64(r.N(int(size) + 1)), Vol: r.N(2)})
		}
	}
	// each task owns some of the archives; it opens, uses and closes them
	nt := min(n, 1+r.N(2))
	p.Tasks = make([][]Op, nt)
	for i := range p.Insts {
		t := i % nt
		for range 1 + r.N(3) {
			p.Tasks[t] = append(p.Tasks[t], Op{K: "open", I: i})
			for k := range r.N(3) {
				p.Tasks[t] = append(p.Tasks[t], Op{K: "extract", I: i, F: r.N(12), H: 50 + k, M: 4096})
			}
			p.Tasks[t] = append(p.Tasks[t], Op{K: "closearch", I: i})
			if r.P(20) {
				p.Tasks[t] = append(p.Tasks[t], Op{K: "closearch", I: i})
			}
		}
	}
	p.Post = append(p.Post, Op{K: "heal"})
	for i := range p.Insts {
		p.Post = append(p.Post, Op{K: "open", I: i}, Op{K: "recover", I: i}, Op{K: "closearch", I: i})
	}
}

// alike is another password that's easily taken for pw.
func alike(r *Rng, pw string) string {
	rs := []rune(pw + "?")
	i := r.N(len(rs) - 1 + 1)
	switch r.N(9) {
	case 0:
		return pw + pickOf(r, " ", "\t", "\n", "\r\n", "\u00a0", "\ufeff", ".", "/")
	case 1:
		return pickOf(r, " ", "\ufeff", "\x00", "\t") + pw
	case 2:
		if u := strings.ToUpper(pw); u != pw {
			return u
		}
		return strings.ToLower(pw) + "A"
	case 3: // another 16 bit half
		rs[i] ^= 0x100
		return string(rs)
	case 4: // 8 bits of it
		rs[i] ^= 1 << r.N(7)
		return string(rs)
	case 5:
		return pw + pw
	case 6: // differs behind a long beginning
		return pw + strings.Repeat("0", pickOf(r, 4, 12, 20, 40)) + "1"
	case 7: // composed, decomposed
		return pw + pickOf(r, "\u00e9", "e\u0301")
	default: // beyond the basic plane
		return pw + pickOf(r, "\U0001f600", "\U0001f601", "\uff21", "A")
	}
}

func genC10(r *Rng, p *Plan) {
	p.Family = "keys"
	var (
		ps     = []string{pickOf(r, pws...), pickOf(r, pws...), pickOf(r, pws...) + "1"}
		salts  [][]byte
		cycles = []int{r.N(4), 4 + r.N(3), 0x3f}
	)
	for range 3 {
		s := make([]byte, pickOf(r, 0, 1, 8, 12))
		for i := range s {
			s[i] = byte(r.U64())
		}
		salts = append(salts, s)
	}
	if len(salts[0]) > 0 { // differs in one byte, and by a suffix
		s := append([]byte(nil), salts[0]...)
		s[r.N(len(s))] ^= 1
		salts = append(salts, s, append(append([]byte(nil), salts[0]...), 0))
	}
	// passwords that are alike, and some that run into the other values
	if r.P(60) {
		ps[1] = alike(r, ps[0])
	}
	if r.P(15) && len(salts[0]) > 1 {
		ps[1] = ps[0] + fmt.Sprintf("%x", salts[0][:1])
		salts[1] = salts[0][1:]
	}
	if r.P(15) {
		ps[1] = ps[0] + "1"
		cycles = []int{r.N(3), 0, r.N(7)}
		cycles[1] = 10 + cycles[0]
	}
	mk := func() *AESSpec {
		a := &AESSpec{Cycles: pickOf(r, cycles...), Salt: pickOf(r, salts...), IVLen: pickOf(r, 8, 16, 16), IVSeed: r.U64(), Pw: pickOf(r, ps...)}
		if a.Cycles == 0x3f && len(a.Salt)+2*len(a.Pw) > 30 {
			a.Cycles = 1
		}

		return a
	}
	n := pickOf(r, 2, 3, 4, 6, 12, 14)
	for range n {
		var a ArchSpec
		a.Tree, a.Meta = r.U64(), r.U64()
		a.Header = pickOf(r, "plain", "lzma", "aes", "aeslzma")
		x := mk()
		for range pickOf(r, 1, 1, 2) {
			f := FolderSpec{Codec: pickOf(r, "copy", "copy", "lzma", "deflate", "lzma2"), Seed: r.U64(), Len: 33 + r.N(200), Files: []int{20 + r.N(30), 20, 1}}
			if f.Codec != "copy" {
				f.Blob = pickOf(r, 1, 2)
			}
			y := mk()
			y.Pw = x.Pw
			if y.Cycles == 0x3f && len(y.Salt)+2*len(y.Pw) > 30 {
				y.Cycles = 1
			}
			f.AES = y
			a.Folders = append(a.Folders, f)
		}
		if a.Header[0] == 'a' {
			a.HAES = x
		}
		is := InstSpec{Arch: a, Pw: x.Pw, Via: pickOf(r, "mem", "mem", "fs")}
		p.Insts = append(p.Insts, is)
		if r.P(45) { // the same archive opened with a wrong password
			w := is
			w.Pw = pickOf(r, ps...)
			if r.P(30) {
				w.Pw = pickOf(r, "", is.Pw+"x", "x"+is.Pw)
			}
			p.Insts = append(p.Insts, w)
		}
	}
	n = len(p.Insts)
	nt := pickOf(r, 1, 2, 3)
	if p.Race && nt == 1 {
		nt = 2
	}
	shared := make([]bool, n)
	for i := range p.Insts {
		if i == 0 || r.P(60) {
			shared[i] = true
			p.Pre = append(p.Pre, Op{K: "open", I: i})
		}
	}
	for ti := range nt {
		var ops []Op
		for i := range p.Insts {
			if i%nt == ti && !shared[i] {
				ops = append(ops, Op{K: "open", I: i})
			}
		}
		shuffle(r, ops)
		var own []int
		for _, o := range ops {
			own = append(own, o.I)
		}
		for _, o := range p.Pre {
			own = append(own, o.I)
		}
		for range 6 + r.N(30) {
			i := pickOf(r, own...)
			ops = append(ops, Op{K: "extract", I: i, F: r.N(8), H: 1, M: pickOf(r, 7, 16, 17, 512, 0)})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for i := range n {
		p.Post = append(p.Post, Op{K: "open", I: i})
	}
	ending(r, p)
}

func genC11(r *Rng, p *Plan) {
	p.Family = "hints"
	sh := stdShape()
	sh.aes, sh.maxFold, sh.filter = 50, 4, 35
	n := pickOf(r, 1, 1, 2)
	for range n {
		is := genInst(r, &sh)
		if r.P(25) {
			is.Pw = pickOf(r, "", "nope", is.Pw+" ")
		}
		if r.P(15) { // big enough that the packed header is out of reach of the signature search
			is.Arch.Prefix = 0
			is.Arch.Folders = append(is.Arch.Folders, FolderSpec{Codec: "copy", Seed: r.U64(), Len: 9000, Files: []int{100, 1}})
		}
		p.Insts = append(p.Insts, is)
	}
	for i := range p.Insts {
		a := built(p, i)
		size := int64(len(a.Bytes))
		switch r.N(8) {
		case 0, 1, 2:
			p.Faults = append(p.Faults, genFaults(r, i, a, 1+r.N(3), "body", "err", "short", "eof")...)
		case 3, 4:
			fo := a.Folders[r.N(len(a.Folders))]
			sp := fo.Spans[r.N(len(fo.Spans))]
			if sp.Hi > sp.Lo {
				p.Faults = append(p.Faults, genDamage(r, i, size, sp.Lo, sp.Hi, "open"))
			}
		case 5, 6:
			if sp := a.EncHdr; sp.Hi > 0 {
				if r.P(50) {
					p.Faults = append(p.Faults, genDamage(r, i, size, sp.Lo, sp.Hi, "open"))
				} else {
					p.Faults = append(p.Faults, Fault{Inst: i, Kind: pickOf(r, "err", "short"), Phase: "open", Lo: sp.Lo, Hi: sp.Hi, Count: 1})
				}
			}
		}
	}
	openAll(p)
	for range fewTasks(r) {
		p.Tasks = append(p.Tasks, rereads(r, genHistory(r, all(n), 5+r.N(25), 15)))
	}
	ending(r, p)
}

func genC12(r *Rng, p *Plan) {
	p.Family = "front to back"
	p.Forward = true
	p.Methods = maxMethods
	sh := stdShape()
	sh.custom, sh.custFlt, sh.under = 25, 25, 15
	sh.maxFiles = 9
	n := pickOf(r, 1, 1, 2)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	openAll(p)
	type walk struct{ ops []Op }
	var walks []*walk
	for i := range p.Insts {
		a := built(p, i)
		claims := map[string]int{} // by name the first one that claims it is opened
		for _, f := range a.Files {
			claims[f.Path]++
		}
		for fo := range a.Folders {
			w := &walk{}
			h := len(walks)
			skip := pickOf(r, 0, 0, 20, 50)
			for _, f := range a.Folders[fo].Files {
				if r.P(skip) {
					continue
				}
				open := pickOf(r, "openfile", "openfile", "openfile", "fsfile")
				if claims[a.Files[f].Path] > 1 {
					open = "openfile"
				}
				w.ops = append(w.ops, Op{K: open, I: i, F: f, H: h})
				switch r.N(6) {
				case 0:
				case 1:
					w.ops = append(w.ops, Op{K: "read", H: h, N: genChunk(r)})
				case 2:
					w.ops = append(w.ops, Op{K: "readp", H: h, N: r.N(100), M: genChunk(r)})
				case 3:
					w.ops = append(w.ops, Op{K: "copy", H: h})
				default:
					w.ops = append(w.ops, Op{K: "readall", H: h, M: genChunk(r)})
				}
				w.ops = append(w.ops, Op{K: "close", H: h})
			}
			walks = append(walks, w)
		}
	}
	// spread the walkers over the tasks
	nt := min(1+r.N(4), max(len(walks), 1))
	p.Tasks = make([][]Op, nt)
	for i, w := range walks {
		t := i % nt
		p.Tasks[t] = insertOps(r, p.Tasks[t], w.ops)
	}
}

func genC13(r *Rng, p *Plan) {
	p.Family = "decoder lifetimes"
	p.Methods = maxMethods
	sh := stdShape()
	sh.custom, sh.custFlt, sh.big, sh.under = 60, 60, 0, 30
	sh.maxFold, sh.maxFiles = 2, 9
	n := pickOf(r, 1, 1, 2)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	openAll(p)
	switch r.N(4) {
	case 0:
		storageFaults(r, p, "err", "short", "eof")
	case 1:
		for range 1 + r.N(3) {
			p.Cust = append(p.Cust, CustFault{Inst: r.N(n), K: pickOf(r, -1, -1, r.N(6)), Kind: pickOf(r, "ctor", "ctor", "read", "close"), At: r.N(8), N: 1 + r.N(3)})
		}
	}
	nt := pickOf(r, 1, 1, 2, 3, 4)
	for range nt {
		ops := genHistory(r, all(n), 10+r.N(50), 10)
		if r.P(20) {
			for range 3 {
				ops = append(ops, Op{K: "close", H: r.N(4)}, Op{K: "read", H: r.N(4), N: 10})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(60) {
		p.Post = append(p.Post, Op{K: "heal"})
		if r.P(50) {
			ending(r, p)
		}
	}
}

func genC14(r *Rng, p *Plan) {
	p.Family = "recycled decoders"
	sh := stdShape()
	sh.codecs = []string{pickOf(r, pooled...)}
	if r.P(30) {
		sh.codecs = append(sh.codecs, pickOf(r, codecs...))
	}
	sh.aes, sh.filter, sh.maxFold, sh.maxFiles = 15, 20, 3, 5
	sh.headers = []string{"plain", "lzma"}
	n := 2 + r.N(3)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	healthy := r.N(n)
	for i := range p.Insts {
		if i == healthy {
			continue
		}
		a := built(p, i)
		size := int64(len(a.Bytes))
		switch r.N(6) {
		case 0:
			p.Faults = append(p.Faults, genFaults(r, i, a, 1+r.N(2), "body", "err", "short")...)
		case 1:
			p.Faults = append(p.Faults, genFaults(r, i, a, 1, "body", "eof")...)
		case 2:
			fo := a.Folders[r.N(len(a.Folders))]
			sp := fo.Spans[r.N(len(fo.Spans))]
			if sp.Hi > sp.Lo {
				p.Faults = append(p.Faults, genDamage(r, i, size, sp.Lo, sp.Hi, "open"))
			}
		case 3: // garbage right at the start of a stream: the decoder rejects it at once
			sp := a.Folders[r.N(len(a.Folders))].Spans[0]
			p.Faults = append(p.Faults, Fault{Inst: i, Kind: "flip", Phase: "open", Lo: sp.Lo + int64(r.N(4)), Arg: int64(r.N(8))})
		}
	}
	openAll(p)
	for range fewTasks(r) {
		ops := genHistory(r, all(n), 8+r.N(25), 10)
		if r.P(30) {
			ops = append(ops, Op{K: "closearch", I: r.N(n)})
			ops = append(ops, Op{K: "close", H: r.N(3)}, Op{K: "close", H: r.N(3)})
		}
		for range 2 + r.N(3) {
			ops = insertOps(r, ops, []Op{{K: "extract", I: healthy, F: r.N(12), H: 30, M: genChunk(r)}})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	// handles read after being closed must not touch the recycled decoder
	for i := range p.Tasks {
		for range r.N(4) {
			p.Tasks[i] = insertOps(r, p.Tasks[i], []Op{{K: "read", H: r.N(4), N: 64}})
		}
	}
	ending(r, p)
}

func genC15(r *Rng, p *Plan) {
	p.Family = "file system view"
	sh := stdShape()
	sh.big, sh.maxFold, sh.maxFiles, sh.filter = 0, 3, 9, 15
	is := genInst(r, &sh)
	if r.P(80) {
		is.Arch.Empty, is.Arch.Dirs = r.N(6), r.N(6)
	}
	if r.P(5) {
		is.Arch.Folders = nil
		is.Arch.Empty++
		is.Arch.Header = "plain"
	}
	p.Insts = []InstSpec{is}
	openAll(p)
	faulty := len(is.Arch.Folders) > 0 && r.P(30)
	if faulty {
		p.Family = "file system view with faults"
		storageFaults(r, p, "err", "short", "eof")
	}
	nt := pickOf(r, 1, 2, 2, 3, 4)
	bad := []string{"/", "", "a/", "../x", "./a", "a//b", "no/such", "nosuch", "sub", "dir0/none", "file0/x", "a\\b", "\x00"}
	for range nt {
		var ops []Op
		for range 2 + r.N(14) {
			s := r.N(4)
			switch r.N(12) {
			case 0, 1:
				ops = append(ops, Op{K: "fswalk"})
			case 2:
				ops = append(ops, Op{K: "fsstat", F: r.N(40)})
			case 3, 4:
				ops = append(ops, Op{K: "fsreadfile", F: r.N(40)})
			case 5:
				ops = append(ops, Op{K: pickOf(r, "fsopen", "fsstat", "fsreadfile"), S: pickOf(r, bad...), H: s})
			case 6:
				if !faulty && !p.Race && r.P(30) {
					ops = append(ops, Op{K: "fstest"})
				}
			case 7, 8:
				ops = append(ops, Op{K: "fsopen", F: r.N(40), H: s}, Op{K: "readall", H: s, M: genChunk(r)}, Op{K: "close", H: s})
			case 9: // page through the root
				ops = append(ops, Op{K: "fsopen", S: ".", H: s})
				for range 1 + r.N(6) {
					ops = append(ops, Op{K: "readdir", H: s, N: pickOf(r, -1, 0, 1, 1, 2, 3, 100)})
				}
			default:
				ops = append(ops, Op{K: "fsopen", F: r.N(40), H: s})
				for range 1 + r.N(4) {
					ops = append(ops, Op{K: "readdir", H: s, N: pickOf(r, -1, 0, 1, 1, 2, 5)}, Op{K: "read", H: s, N: genChunk(r)})
				}
				if r.P(50) {
					ops = append(ops, Op{K: "close", H: s})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Post = append(p.Post, Op{K: "heal"}, Op{K: "fswalk"})
	ending(r, p)
}

func genC16(r *Rng, p *Plan) {
	p.Family = "closing"
	sh := stdShape()
	sh.via, sh.split, sh.big = 75, 40, 5
	sh.custom, sh.custFlt, sh.under = 15, 15, 15
	p.Methods = maxMethods
	n := pickOf(r, 1, 1, 2)
	for range n {
		p.Insts = append(p.Insts, genInst(r, &sh))
	}
	openAll(p)
	if r.P(25) {
		storageFaults(r, p, "err", "short", "eof")
	}
	nt := pickOf(r, 1, 2, 2, 3)
	for ti := range nt {
		ops := genHistory(r, all(n), 6+r.N(25), 20)
		var extra []Op
		for range 3 + r.N(8) {
			s := r.N(4)
			extra = append(extra, Op{K: "close", H: s})
			if r.P(60) {
				extra = append(extra, Op{K: "read", H: s, N: pickOf(r, 0, 1, 10, 5000)})
			}
			if r.P(40) {
				extra = append(extra, Op{K: "close", H: s})
			}
		}
		ops = insertOps(r, ops, extra)
		if ti == 0 && r.P(60) {
			ops = insertOps(r, ops, []Op{{K: "closearch", I: r.N(n)}})
			if r.P(40) {
				ops = insertOps(r, ops, []Op{{K: "closearch", I: r.N(n)}})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Post = append(p.Post, Op{K: "heal"})
	ending(r, p)
}

func genC17(r *Rng, p *Plan) {
	p.Family = "faulty open"
	sh := stdShape()
	sh.maxFold, sh.big, sh.prefix = 3, 0, 35
	n := pickOf(r, 1, 1, 2)
	for i := range n {
		is := genInst(r, &sh)
		if r.P(5) {
			is.Arch = ArchSpec{Garbage: true, Tree: r.U64(), Prefix: r.N(20000)}
		}
		p.Insts = append(p.Insts, is)
		a := built(p, i)
		size := int64(len(a.Bytes))
		if !r.P(85) || size == 0 {
			continue
		}
		for range 1 + r.N(3) {
			f := Fault{Inst: i, Kind: pickOf(r, "err", "err", "short", "short", "eof", "slow"), Phase: "open", At: r.N(12), Count: 1}
			if r.P(30) {
				f.At = 0
			}
			f.Arg = int64(r.N(40))
			if r.P(30) {
				f.Arg = int64(r.N(4200))
			}
			if r.P(50) && !a.Bad { // hit one of the structures
				sp := a.Header
				switch r.N(3) {
				case 0:
					sp = a.SigHdr
				case 1:
					if a.EncHdr.Hi > 0 {
						sp = a.EncHdr
					}
				}
				if sp.Hi > sp.Lo {
					f.Lo = sp.Lo + int64(r.N(int(sp.Hi-sp.Lo)))
					f.Hi = sp.Hi
					f.At = r.N(2)
				}
			}
			switch f.Kind {
			case "eof":
				f.Arg = int64(r.N(int(size)))
				if f.Hi > 0 {
					f.Arg = f.Lo
				}
				f.Lo, f.Hi, f.At, f.Count = 0, 0, 0, -1
			case "slow":
				f.Arg = 1000000
			}
			p.Faults = append(p.Faults, f)
		}
	}
	nt := min(n, 1+r.N(2))
	p.Tasks = make([][]Op, nt)
	for i := range p.Insts {
		t := i % nt
		for range 1 + r.N(4) {
			p.Tasks[t] = append(p.Tasks[t], Op{K: "open", I: i})
		}
		p.Tasks[t] = append(p.Tasks[t], Op{K: "extract", I: i, F: r.N(9), H: i, M: 4096})
	}
	p.Post = append(p.Post, Op{K: "heal"})
	for i := range p.Insts {
		p.Post = append(p.Post, Op{K: "open", I: i})
	}
	ending(r, p)
}

func genC18(r *Rng, p *Plan) {
	p.Family = "registry"
	nm := 1 + r.N(3)
	p.Methods = r.N(nm + 1)
	for m := range nm {
		f := FolderSpec{Codec: "custom:" + strconv.Itoa(m), Seed: r.U64(), Len: 20 + r.N(80), Files: []int{1}}
		a := ArchSpec{Tree: r.U64(), Meta: r.U64(), Header: "plain", Folders: []FolderSpec{f}}
		p.Insts = append(p.Insts, InstSpec{Arch: a, Via: "mem"})
	}
	sh := stdShape()
	sh.big, sh.aes, sh.via, sh.custom, sh.custFlt, sh.under = 0, 0, 0, 0, 0, 0
	p.Insts = append(p.Insts, genInst(r, &sh))
	openAll(p)
	nt := 2 + r.N(3)
	v := 1
	for range nt {
		var ops []Op
		for range 2 + r.N(4) {
			m := r.N(nm)
			switch r.N(5) {
			case 0, 1:
				ops = append(ops, Op{K: "register", M: m, N: v})
				v++
			case 2, 3:
				ops = append(ops, Op{K: "regload", I: m, M: 16})
			default:
				ops = append(ops, Op{K: "extract", I: nm, F: r.N(9), H: 1, M: 4096})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for m := range nm {
		p.Post = append(p.Post, Op{K: "regload", I: m, M: 16})
	}
}

func genC19(r *Rng, p *Plan) {
	p.Family = "forged headers"
	sh := stdShape()
	sh.custom, sh.custFlt, sh.under = 0, 0, 0
	sh.via, sh.split, sh.latency = 30, 50, 10
	n := 1 + r.N(3)
	for i := range n {
		is := genInst(r, &sh)
		if r.P(30) {
			is.Arch.Header = pickOf(r, "copy", "lzma")
			is.Arch.HAES = nil
		}
		p.Insts = append(p.Insts, is)
		p.Insts[i].Arch.Forge = genForge(r, built(p, i), pickOf(r, 1, 1, 1, 2, 2, 3, 5, 10))
	}
	var ops []Op
	for i := range n {
		ops = append(ops, Op{K: "probe", I: i, N: r.N(1 << 20)})
	}
	p.Tasks = [][]Op{ops}
	if r.P(10) {
		p.Faults = append(p.Faults, genFaults(r, 0, built(p, 0), 1, "any", "err", "short", "eof", "slow")...)
	}
	if r.P(15) { // somebody else reads a healthy archive meanwhile, or afterwards
		p.Insts = append(p.Insts, genInst(r, &sh))
		p.Pre = append(p.Pre, Op{K: "open", I: n})
		p.Tasks = append(p.Tasks, genHistory(r, []int{n}, 3+r.N(12), 10))
		p.Post = append(p.Post, Op{K: "recover", I: n}, Op{K: "list", I: n})
	}
}

func genC20(r *Rng, p *Plan) {
	p.Family = "file information"
	sh := stdShape()
	sh.big, sh.maxFold, sh.maxFiles, sh.via = 0, 4, 9, 55
	n := 1 + r.N(2)
	for i := range n {
		is := genInst(r, &sh)
		for is.Arch.Form == 0 {
			is.Arch.Form = r.U64()
		}
		if r.P(70) {
			is.Arch.Empty, is.Arch.Dirs = r.N(6), r.N(6)
		}
		if r.P(8) {
			is.Arch.Folders, is.Arch.Header = nil, "plain"
			if is.Arch.Empty++; r.P(40) {
				is.Arch.Empty, is.Arch.Dirs = 0, 0
			}
		}
		p.Insts = append(p.Insts, is)
		if r.P(3) {
			beyond(r, p, i)
			is = p.Insts[i]
		}
		a := built(p, i)
		if len(is.Arch.Folders) > 0 && r.P(40) {
			p.Faults = append(p.Faults, genFaults(r, i, a, 1+r.N(3), pickOf(r, "open", "body", "any"), "err", "short", "slow")...)
		}
		if len(is.Arch.Folders) > 0 && len(a.Bytes) < 1<<30 && r.P(15) { // what is stored for the files does not matter
			fo := a.Folders[r.N(len(a.Folders))]
			if sp := fo.Spans[r.N(len(fo.Spans))]; sp.Hi > sp.Lo {
				p.Faults = append(p.Faults, genDamage(r, i, int64(len(a.Bytes)), sp.Lo, sp.Hi, pickOf(r, "open", "body")))
			}
		}
	}
	nt := pickOf(r, 1, 1, 2, 3)
	for ti := range nt {
		var ops []Op
		for i := range n {
			if i%nt == ti {
				for range 1 + r.N(3) {
					ops = append(ops, Op{K: "open", I: i})
				}
			}
		}
		for range 3 + r.N(10) {
			i := r.N(n)
			switch r.N(8) {
			case 0, 1:
				ops = append(ops, Op{K: "list", I: i})
			case 2:
				ops = append(ops, Op{K: "fswalk", I: i})
			case 3, 4:
				ops = append(ops, Op{K: "fsstat", I: i, F: r.N(40)})
			case 5:
				ops = append(ops, Op{K: "fsopen", I: i, F: r.N(40), H: r.N(4)})
			default:
				ops = append(ops, Op{K: "extract", I: i, F: r.N(12), H: 5, M: genChunk(r)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Post = append(p.Post, Op{K: "heal"})
	for i := range n {
		p.Post = append(p.Post, Op{K: "open", I: i}, Op{K: "list", I: i}, Op{K: "fswalk", I: i}, Op{K: "closearch", I: i}, Op{K: "open", I: i}, Op{K: "list", I: i})
	}
}

func genC22(r *Rng, p *Plan) {
	p.Family = "stalled reads"
	sh := stdShape()
	sh.big, sh.maxFiles = 10, 9
	sh.maxFold = pickOf(r, 1, 1, 2, 3)
	if r.P(30) {
		sh.codecs = []string{pickOf(r, pooled...)}
	}
	if r.P(20) {
		sh.custom, sh.custFlt, sh.under = 50, 50, 30
		p.Methods = maxMethods
		p.Drain = r.P(50)
	}
	n := pickOf(r, 1, 1, 2, 3)
	shared := 1 + r.N(n)
	nt := pickOf(r, 2, 2, 3, 4)
	for i := range n {
		is := genInst(r, &sh)
		if len(is.Arch.Folders) > 0 && r.P(60) { // the callers meet in the same streams
			is.Arch.Folders = is.Arch.Folders[:1]
		}
		p.Insts = append(p.Insts, is)
		a := built(p, i)
		if i < shared {
			p.Pre = append(p.Pre, Op{K: "open", I: i})
		}
		if i == 0 || r.P(60) {
			p.Faults = append(p.Faults, genFaults(r, i, a, 1+r.N(3), pickOf(r, "body", "body", "any"), "stall")...)
			if r.P(15) {
				p.Faults = append(p.Faults, genFaults(r, i, a, 1, "body", "err", "short", "slow")...)
			}
		}
	}
	for ti := range nt {
		var own []int
		var ops []Op
		for i := range n {
			if i < shared {
				own = append(own, i)
			} else if i%nt == ti {
				own = append(own, i)
				ops = append(ops, Op{K: "open", I: i})
			}
		}
		ops = append(ops, genHistory(r, own, 4+r.N(16), 15)...)
		var extra []Op
		for range r.N(4) {
			switch r.N(4) {
			case 0:
				extra = append(extra, Op{K: "fswalk", I: pickOf(r, own...)})
			case 1:
				extra = append(extra, Op{K: "fsstat", I: pickOf(r, own...), F: r.N(20)})
			case 2:
				if n > shared && ti < n-shared {
					for _, i := range own {
						if i >= shared {
							extra = append(extra, Op{K: "closearch", I: i}, Op{K: "open", I: i})
						}
					}
				}
			default:
				extra = append(extra, Op{K: "register", M: 6 + r.N(2), N: 1 + r.N(200)})
			}
		}
		p.Tasks = append(p.Tasks, insertOps(r, ops, extra))
	}
	p.Post = append(p.Post, Op{K: "heal"})
	ending(r, p)
}

// genC23 reads large streams in many ways and watches the memory in use.
func genC23(r *Rng, p *Plan) {
	p.Family = "large streams"
	p.Mem, p.OpLimit = 1, 4_000_000_000
	opens := 2 + r.N(5)
	pw := pickOf(r, pws...)
	f := FolderSpec{Codec: pickOf(r, "copy", "copy", "copy", "custom:0", "deflate", "lzma", "lzma2", "zstd", "brotli", "lz4"), Seed: uint64(1 + r.N(4)), Len: pickOf(r, 1000, 30000)}
	p.Methods = maxMethods
	if r.P(25) {
		f.AES = genAES(r, pw)
	}
	for range pickOf(r, 0, 0, 1, 1, 2) {
		k := pickOf(r, "bcj", "arm", "arm64", "ppc", "sparc", "delta:1", "delta:4", "delta:256", "copy", "custom:2")
		if len(f.Filters) == 0 && r.P(30) {
			k = "bcj2"
		}
		f.Filters = append(f.Filters, k)
	}
	f.Rep = memSlack + 7*f.mem() + 4<<20
	f.Rep = (f.Rep>>22 + 1) << 22 // not too many different ones
	rest := f.Rep
	for range r.N(3) {
		f.Files = append(f.Files, 1+r.N(5000))
		rest -= f.Files[len(f.Files)-1]
	}
	switch r.N(3) {
	case 0: // one large file and a few after it
		f.Files = append(f.Files, rest-10000, 1+r.N(4000), 1+r.N(4000))
	case 1: // a few large ones
		f.Files = append(f.Files, rest/3, rest/3+r.N(1000), 1+r.N(1000), rest)
	default:
		f.Files = append(f.Files, rest)
	}
	is := InstSpec{Arch: ArchSpec{Tree: r.U64(), Meta: r.U64(), Header: pickOf(r, "plain", "lzma"), Folders: []FolderSpec{f}}, Pw: pw, Via: "mem"}
	if r.P(40) {
		is.Via = "fs"
		if r.P(60) {
			is.Split, is.Vols = true, []int{1 + r.N(1<<16), 1 + r.N(1<<20), 1 + r.N(1<<20), 1}
		}
	}
	if r.P(20) {
		sh := stdShape()
		sh.codecs = []string{"copy"}
		is.Arch.Folders = append(is.Arch.Folders, genFolder(r, &sh, pw))
	}
	p.Insts = []InstSpec{is}
	if r.P(25) {
		p.Faults = genFaults(r, 0, built(p, 0), 1+r.N(2), "body", "err", "short", "slow")
	}
	p.Pre = []Op{{K: "mem"}, {K: "open"}}
	nt := min(pickOf(r, 1, 1, 2, 3), opens)
	p.Tasks = make([][]Op, nt)
	nf := len(f.Files)
	for k := range opens {
		ti := k % nt
		s := r.N(3)
		ops := []Op{{K: "close", H: s}, {K: "openfile", F: r.N(nf + 1), H: s}}
		for range 1 + r.N(3) {
			c := pickOf(r, 512, 4096, 4097, 32768, 65536, 1000, 0)
			switch r.N(4) {
			case 0:
				ops = append(ops, Op{K: "readp", H: s, N: 1 + r.N(99), M: c})
			case 1:
				k, m := 1+r.N(4), pickOf(r, 1, 2, 16, 100)
				if m < 4 && len(f.Filters) > 0 {
					k += 5 + r.N(5)
				}
				ops = append(ops, Op{K: "readp", H: s, N: k, M: m})
			default:
				ops = append(ops, Op{K: "readall", H: s, M: c})
			}
		}
		ops = append(ops, Op{K: "mem", N: 1})
		p.Tasks[ti] = append(p.Tasks[ti], ops...)
	}
	for ti := range p.Tasks {
		for s := range 3 {
			if r.P(70) {
				p.Tasks[ti] = append(p.Tasks[ti], Op{K: "close", H: s})
			}
		}
	}
	p.Post = []Op{{K: "mem", N: 1}, {K: "mem", N: 2}}
}

func genC24(r *Rng, p *Plan) {
	p.Family = "readings of headers"
	sh := stdShape()
	sh.custom, sh.custFlt, sh.big, sh.under = 0, 0, 0, 0
	sh.via, sh.split, sh.latency = 30, 50, 10
	n := 1 + r.N(3)
	for i := range n {
		is := genInst(r, &sh)
		wild := r.P(65)
		if wild {
			is.Arch = ArchSpec{Wild: r.U64() | 1, Tree: is.Arch.Tree, Header: is.Arch.Header, HAES: is.Arch.HAES, Prefix: is.Arch.Prefix, Trail: is.Arch.Trail}
		}
		if r.P(30) {
			is.Arch.Header = pickOf(r, "plain", "copy", "lzma")
			is.Arch.HAES = nil
		}
		p.Insts = append(p.Insts, is)
		if wild && r.P(60) {
			continue
		}
		for _, e := range genForge(r, built(p, i), pickOf(r, 1, 1, 1, 2, 3)) {
			if e.W == 0 {
				p.Insts[i].Arch.Forge = append(p.Insts[i].Arch.Forge, e)
			}
		}
	}
	nt := pickOf(r, 1, 1, 1, 2, 3)
	p.Tasks = make([][]Op, nt)
	for range n + r.N(2*n+1) {
		ti := r.N(nt)
		p.Tasks[ti] = append(p.Tasks[ti], Op{K: "ref", I: r.N(n)})
	}
	for i := range n {
		p.Post = append(p.Post, Op{K: "ref", I: i})
	}
	if r.P(15) {
		i := r.N(n)
		p.Faults = append(p.Faults, genFaults(r, i, built(p, i), 1+r.N(2), pickOf(r, "open", "any"), "err", "short", "slow")...)
	}
}
