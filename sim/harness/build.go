package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/bits"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	xlzma "github.com/ulikunitz/xz/lzma"
)

// FolderSpec describes one packed stream ("folder") of a generated archive.
type FolderSpec struct {
	Codec   string   `json:"codec"`             // copy, lzma, ..., custom:N
	Blob    int      `json:"blob,omitempty"`    // index among the fixtures of the codec
	Len     int      `json:"len,omitempty"`     // content length (copy, custom; ppmd prefix)
	Seed    uint64   `json:"seed,omitempty"`    // content seed (copy, custom)
	Filters []string `json:"filters,omitempty"` // decode order: bcj arm arm64 ppc sparc delta:N bcj2 copy custom:N
	AES     *AESSpec `json:"aes,omitempty"`
	Files   []int    `json:"files"` // sizes; the rest goes to the last one
	Rev     bool     `json:"rev,omitempty"`
	Rep     int      `json:"rep,omitempty"`   // a large stream: the content of Len bytes repeated to this size
	Hole    int64    `json:"hole,omitempty"`  // zero bytes in the middle of the content (copy)
	Under   []string `json:"under,omitempty"` // custom:N below the method, the first one below any encryption
	Huge    bool     `json:"huge,omitempty"`  // declares the largest dictionary there is (lzma, lzma2)
}

// AESSpec holds the encryption parameters of one stream.
type AESSpec struct {
	Cycles int    `json:"cycles"`
	Salt   []byte `json:"salt"`
	IVLen  int    `json:"ivlen"`
	IVSeed uint64 `json:"ivseed"`
	Pw     string `json:"pw"`
}

// ArchSpec describes a generated (or, with Real, a stored) archive.
type ArchSpec struct {
	Real    string       `json:"real,omitempty"`
	Folders []FolderSpec `json:"folders,omitempty"`
	Empty   int          `json:"empty,omitempty"` // empty files sprinkled in
	Dirs    int          `json:"dirs,omitempty"`  // explicit directories
	Tree    uint64       `json:"tree,omitempty"`  // name layout seed
	Header  string       `json:"header"`          // plain copy lzma aes aeslzma
	HAES    *AESSpec     `json:"haes,omitempty"`
	Prefix  int          `json:"prefix,omitempty"` // self-extractor stub length
	Decoys  int          `json:"decoys,omitempty"`
	Gap     int          `json:"gap,omitempty"`
	Hole    int64        `json:"hole,omitempty"`  // more bytes before the first stream, beyond memory
	Trail   int          `json:"trail,omitempty"` // bytes after the archive
	Garbage bool         `json:"garbage,omitempty"`
	Meta    uint64       `json:"meta,omitempty"`  // times and attributes seed
	Form    uint64       `json:"form,omitempty"`  // how the header is written; 0 is the common form
	Tiny    int          `json:"tiny,omitempty"`  // further files of a few bytes in the first stream
	Wild    uint64       `json:"wild,omitempty"`  // a header of all kinds, without any files
	Forge   []Edit       `json:"forge,omitempty"` // changes to the headers before they get their checksums
}

// FileModel is what the archive must show for one entry.
type FileModel struct {
	Name   string // as stored
	Path   string // in the file system view; empty if not part of it
	Data   []byte
	Folder int // -1 without stream
	Off    int
	Dir    bool
	Attr   uint32
	MTime  time.Time
	CTime  time.Time
	ATime  time.Time
	CRC    uint32
	Enc    bool
	Huge   bool // has a hole in it
	Far    bool // behind a hole of its stream
}

// Span is a byte range of the archive.
type Span struct{ Lo, Hi int64 }

// FolderModel tells where a stream's packed data lies.
type FolderModel struct {
	Spans   []Span
	Enc     bool
	Custom  bool
	Files   []int
	Len     int
	Pw      string
	NCust   int         // custom decoders in the chain
	CustLen map[int]int // output size of each
}

// Arch is a built archive and its model.
type Arch struct {
	Bytes   []byte
	Files   []FileModel
	Folders []FolderModel
	SigHdr  Span // signature and start header
	Header  Span // header (or encoded header info)
	EncHdr  Span // packed header, if any
	EncH    bool // header needs the password
	HPw     string
	Start   int64
	Bad     bool
	Toks    [2][]Tok // numbers in the header and in the description of the packed header
	Recs    []Tok    // of the header
	Coders  [2][]Tok // descriptions of coders
	Hdrs    [2][]byte
}

var methodIDs = map[string][]byte{
	"copy": {0}, "delta": {3}, "lzma": {3, 1, 1}, "bcj": {3, 3, 1, 3}, "bcj2": {3, 3, 1, 0x1b},
	"ppc": {3, 3, 2, 5}, "arm": {3, 3, 5, 1}, "sparc": {3, 3, 8, 5}, "deflate": {4, 1, 8}, "bzip2": {4, 2, 2},
	"zstd": {4, 0xf7, 0x11, 1}, "brotli": {4, 0xf7, 0x11, 2}, "lz4": {4, 0xf7, 0x11, 4},
	"aes": {6, 0xf1, 7, 1}, "arm64": {0x0a}, "lzma2": {0x21}, "ppmd": {3, 4, 1},
}

// customID is the method id of the harness's own decompressor number k.
func customID(k int) []byte {
	return []byte{0x7f, 0x51, custSalt[0], custSalt[1], custSalt[2], custSalt[3], byte(k)}
}

// custSalt makes the ids unique to a run, since registrations are for ever.
var custSalt [4]byte

func saltOf(seed uint64) (b [4]byte) {
	binary.LittleEndian.PutUint32(b[:], uint32(mix(seed, 77)))

	return b
}

// longNum makes some numbers take more bytes than they need.
var longNum *Rng

func putNum(b *bytes.Buffer, v uint64) {
	if recBuf == b {
		at := b.Len()
		defer func() { recToks = append(recToks, Tok{at, b.Len() - at, v}) }()
	}
	if longNum != nil && longNum.P(25) {
		if k := 1 + longNum.N(8); k == 8 || v < uint64(1)<<(8*k) {
			b.WriteByte(byte(uint(0xff00) >> k))
			for j := 0; j < k; j++ {
				b.WriteByte(byte(v >> (8 * j)))
			}

			return
		}
	}
	var first byte
	mask := byte(0x80)
	for i := 0; i < 8; i++ {
		if v < uint64(1)<<(7*(i+1)) {
			first |= byte(v >> (8 * i))
			b.WriteByte(first)
			for j := 0; j < i; j++ {
				b.WriteByte(byte(v >> (8 * j)))
			}

			return
		}
		first |= mask
		mask >>= 1
	}
	b.WriteByte(0xff)
	_ = binary.Write(b, binary.LittleEndian, v)
}

func le(b *bytes.Buffer, v any) { _ = binary.Write(b, binary.LittleEndian, v) }

func kdf(pw string, salt []byte, cycles int) []byte {
	in := append([]byte(nil), salt...)
	for _, u := range utf16.Encode([]rune(pw)) {
		in = append(in, byte(u), byte(u>>8))
	}
	if cycles == 0x3f {
		k := make([]byte, 32)
		copy(k, in)

		return k
	}
	h := sha256.New()
	var ctr [8]byte
	for i := uint64(0); i < 1<<cycles; i++ {
		h.Write(in)
		binary.LittleEndian.PutUint64(ctr[:], i)
		h.Write(ctr[:])
	}

	return h.Sum(nil)
}

func aesEncrypt(a *AESSpec, plain []byte) (packed, props []byte) {
	r := newRng(a.IVSeed)
	iv := make([]byte, 16)
	for i := 0; i < a.IVLen; i++ {
		iv[i] = byte(r.U64())
	}
	blk, _ := aes.NewCipher(kdf(a.Pw, a.Salt, a.Cycles))
	padded := make([]byte, (len(plain)+15)/16*16)
	copy(padded, plain)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(padded, padded)
	b0, b1 := byte(a.Cycles), byte(0)
	s, v := len(a.Salt), a.IVLen
	if s > 0 {
		b0 |= 0x80
		b1 |= byte(s-1) << 4
	}
	if v > 0 {
		b0 |= 0x40
		b1 |= byte(v - 1)
	}
	props = append([]byte{b0, b1}, a.Salt...)
	props = append(props, iv[:v]...)

	return padded, props
}

func genContent(seed uint64, n int) []byte {
	r := newRng(seed)
	b := make([]byte, n)
	mode := r.N(5)
	for i := 0; i < n; {
		switch mode {
		case 0: // random
			v := r.U64()
			for k := 0; k < 8 && i < n; k++ {
				b[i] = byte(v >> (8 * k))
				i++
			}
		case 1: // numbered records: any displacement shows
			i += copy(b[i:], strconv.Itoa(i)+";")
		case 2: // branch heavy
			v := r.U64()
			seq := [][]byte{{0xe8, byte(v), byte(v >> 8), 0, 0}, {0xe9, byte(v), 1, 0xff, 0xff}, {0x0f, 0x84, byte(v), byte(v >> 8), 0, 0}, {byte(v), byte(v >> 8), 1, 0xeb}, {0x48, byte(v), 2, 1}, {0x40, 1, byte(v), 3}, {byte(v), 3, 0, 0x94}, {byte(v), byte(v >> 9), byte(v >> 17)}}
			i += copy(b[i:], seq[int(v>>40)%len(seq)])
		case 3:
			b[i] = byte(r.N(4))
			i++
		default: // branches to targets at the limits of what filters change
			v := uint32(i) * pickOf[uint32](r, 1, 0, 0xffffffff)
			v = v>>pickOf(r, 0, 2, 12) + pickOf[uint32](r, 0, 0xffffffff, 1, 4, 0xfffffffc, 5, 8, 0x1000000, 0xff000000, 0xfeffffff, 0x2000000, 0x1ffffff, 0x3ffffff, 0x800000, 0x7fffff, 0x20000, 0x1ffff, 0x10000, uint32(r.U64()))
			switch k := r.N(8); {
			case k == 0: // x86
				i += copy(b[i:], []byte{pickOf[byte](r, 0xe8, 0xe9), byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
			case k == 1:
				for range 1 + r.N(pickOf(r, 5, 5, 100)) {
					i += copy(b[i:], []byte{pickOf[byte](r, 0xe8, 0xe9, 0, 0xff, 0, 0xff, 0x0f, 0x80, 0xe8, 5)})
				}
			default:
				for i&3 != 0 && i < n {
					b[i] = pickOf[byte](r, 0, 0xff, 0xe8)
					i++
				}
				w := pickOf(r, 0xeb000000|v&0xffffff, 0x94000000|v&0x3ffffff, 0x90000000|v<<5&0xffffe0|v<<29&0x60000000|uint32(r.N(32)), v)
				be := pickOf(r, 0x48000001|v&0x3fffffc, 0x40000000|v&0x3fffff, 0x7fc00000|v&0x3fffff, v)
				if r.P(50) {
					w = bits.ReverseBytes32(be)
				}
				i += copy(b[i:], binary.LittleEndian.AppendUint32(nil, w))
			}
		}
	}

	return b
}

type coderOut struct {
	id      []byte
	nin     int
	props   []byte
	outSize int
}

// stream is one chain of coders under construction: the bytes it yields.
type folderBuild struct {
	coders []coderOut
	binds  [][2]int
	inBase []int
	packed []int // in-stream indexes fed from packed streams
	packs  [][]byte
	nin    int
	under  []string
	tag    []byte // of the properties of custom coders
}

func (fb *folderBuild) add(c coderOut) int {
	fb.inBase = append(fb.inBase, fb.nin)
	fb.nin += c.nin
	fb.coders = append(fb.coders, c)

	return len(fb.coders) - 1
}

// source adds AES (if any) and a codec over packed data; returns the coder
// whose output carries plain.
func (fb *folderBuild) source(a *AESSpec, codec string, props, packed []byte, outSize int) int {
	data, ap := packed, []byte(nil)
	if a != nil {
		data, ap = aesEncrypt(a, packed)
	}
	prev := -1
	step := func(c coderOut) {
		i := fb.add(c)
		if prev >= 0 {
			fb.binds = append(fb.binds, [2]int{fb.inBase[i], prev})
		} else {
			fb.packed = append(fb.packed, fb.inBase[i])
			fb.packs = append(fb.packs, data)
		}
		prev = i
	}
	under := func(k, size int) {
		if k < len(fb.under) {
			step(coderOut{methodOf(fb.under[k]), 1, append(slices.Clone(fb.tag), customNum(fb.under[k])), size})
		}
	}
	under(0, len(data))
	if a != nil {
		step(coderOut{methodIDs["aes"], 1, ap, len(packed)})
	}
	under(1, len(packed))
	fb.under = nil // only below the first source
	if a != nil && codec == "copy" && len(props) == 0 && outSize%2 == 0 {
		return prev // encryption alone, no copy coder
	}
	step(coderOut{methodOf(codec), 1, props, outSize})

	return prev
}

func customNum(name string) byte {
	n, _ := strconv.Atoi(strings.TrimPrefix(name, "custom:"))

	return byte(n)
}

func methodOf(name string) []byte {
	if k, ok := strings.CutPrefix(name, "custom:"); ok {
		n, _ := strconv.Atoi(k)

		return customID(n)
	}

	return methodIDs[name]
}

// customXor is the transformation the harness's own decompressors apply; it
// depends on the version registered.
func customXor(version, i int) byte {
	if version == 0 {
		return 0
	}

	return byte(version*37 + i*7 + i>>8)
}

func xorWith(version int, b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i] ^ customXor(version, i)
	}

	return o
}

// bottom is the number of the first custom method of the chain, or -1.
func (f *FolderSpec) bottom() int {
	for _, n := range slices.Concat(f.Under, []string{f.Codec}, f.Filters) {
		if s, ok := strings.CutPrefix(n, "custom:"); ok {
			k, _ := strconv.Atoi(s)

			return k
		}
	}

	return -1
}

func (f *FolderSpec) build(arch, idx int) (*folderBuild, []byte) {
	fb := &folderBuild{under: f.Under, tag: []byte{byte(arch), byte(idx)}}
	var (
		plain, packed, props []byte
		last                 int
	)
	codec := f.Codec
	switch {
	case f.Rep > 0:
		plain = tile(genContent(f.Seed, f.Len), f.Rep)
		packed = plain
		if k, ok := strings.CutPrefix(codec, "custom:"); ok {
			n, _ := strconv.Atoi(k)
			props = []byte{byte(arch), byte(idx), byte(n)}
		} else if codec != "copy" {
			packed, props = packLarge(fmt.Sprint(f.Seed, f.Len, f.Rep), codec, plain)
		}
	case codec == "copy":
		plain = genContent(f.Seed, f.Len)
		if f.Hole > 0 {
			plain = withHoles(plain, []hole{{len(plain) / 2, f.Hole}})
		}
		packed = plain
	case strings.HasPrefix(codec, "custom:"):
		plain = genContent(f.Seed, f.Len)
		packed = plain // transformed by the registered version when read
		k, _ := strconv.Atoi(codec[7:])
		props = []byte{byte(arch), byte(idx), byte(k)}
	default:
		bl := blobs[codec][f.Blob%len(blobs[codec])]
		plain, packed, props = bl.Plain, bl.Packed, bl.Props
		if f.Len > 0 && f.Len < len(plain) && codec == "ppmd" {
			plain = plain[:f.Len]
		}
		if f.Huge && codec == "lzma2" {
			props = []byte{40}
		}
		if f.Huge && codec == "lzma" {
			props = []byte{props[0], 0xff, 0xff, 0xff, 0xff}
		}
	}
	rest := f.Filters
	if len(rest) > 0 && rest[0] == "bcj2" {
		r := newRng(f.Seed ^ 0xbc12)
		nj := 0
		for i := range plain {
			if plain[i]&0xfe == 0xe8 || i > 0 && plain[i-1] == 0x0f && plain[i]&0xf0 == 0x80 {
				nj++
			}
		}
		// E8/E9 bytes of converted addresses also count: leave room
		call, jump, rc := make([]byte, 8*nj+64), make([]byte, 8*nj+64), make([]byte, 16*nj+256)
		for i := range call {
			call[i] = byte(r.U64())
		}
		for i := range jump {
			jump[i] = byte(r.U64())
		}
		for i := 1; i < len(rc); i++ {
			rc[i] = byte(r.U64())
		}
		out, c, j, n, ok := refBCJ2(plain, call, jump, rc)
		if ok {
			m := fb.source(f.AES, codec, props, packed, len(plain))
			cc := fb.source(f.AES, "copy", nil, call[:c], c)
			jj := fb.source(nil, "copy", nil, jump[:j], j)
			b := fb.add(coderOut{methodIDs["bcj2"], 4, nil, len(out)})
			ib := fb.inBase[b]
			fb.binds = append(fb.binds, [2]int{ib, m}, [2]int{ib + 1, cc}, [2]int{ib + 2, jj})
			fb.packed = append(fb.packed, ib+3)
			fb.packs = append(fb.packs, rc[:n])
			plain, last = out, b
		} else {
			last = fb.source(f.AES, codec, props, packed, len(plain))
		}
		rest = rest[1:]
	} else {
		last = fb.source(f.AES, codec, props, packed, len(plain))
	}
	for _, fl := range rest {
		var (
			id []byte
			pr []byte
		)
		name, arg, _ := strings.Cut(fl, ":")
		switch name {
		case "bcj":
			plain = refBCJ(plain)
		case "arm":
			plain = refARM(plain)
		case "arm64":
			plain = refARM64(plain)
		case "ppc":
			plain = refPPC(plain)
		case "sparc":
			plain = refSPARC(plain)
		case "delta":
			d, _ := strconv.Atoi(arg)
			plain = refDelta(plain, d)
			pr = []byte{byte(d - 1)}
		case "custom":
			k, _ := strconv.Atoi(arg)
			pr = []byte{byte(arch), byte(idx), byte(k)}
		case "copy":
		default:
			continue
		}
		id = methodOf(name)
		if name == "custom" {
			id = methodOf(fl)
		}
		c := fb.add(coderOut{id, 1, pr, len(plain)})
		fb.binds = append(fb.binds, [2]int{fb.inBase[c], last})
		last = c
	}

	return fb, plain
}

func writeFolder(b *bytes.Buffer, fb *folderBuild) {
	putNum(b, uint64(len(fb.coders)))
	for _, c := range fb.coders {
		at := b.Len()
		fl := byte(len(c.id))
		if c.nin != 1 {
			fl |= 0x10
		}
		if len(c.props) > 0 {
			fl |= 0x20
		}
		b.WriteByte(fl)
		b.Write(c.id)
		if c.nin != 1 {
			putNum(b, uint64(c.nin))
			putNum(b, 1)
		}
		if len(c.props) > 0 {
			putNum(b, uint64(len(c.props)))
			b.Write(c.props)
		}
		if recBuf == b {
			recCoders = append(recCoders, Tok{at, b.Len() - at, 0})
		}
	}
	for _, bp := range fb.binds {
		putNum(b, uint64(bp[0]))
		putNum(b, uint64(bp[1]))
	}
	if len(fb.packed) > 1 {
		for _, p := range fb.packed {
			putNum(b, uint64(p))
		}
	}
}

// build turns the spec into bytes and a model. Instance numbers arch appear
// in the properties of custom coders.
func (s *ArchSpec) build(arch int) *Arch {
	a := &Arch{}
	if s.Garbage {
		a.Bytes = genContent(s.Tree, s.Prefix)
		if i := bytes.Index(a.Bytes, []byte("7z\xbc\xaf\x27\x1c")); i >= 0 {
			a.Bytes[i] = 0
		}
		a.Bad = true

		return a
	}
	var (
		builds []*folderBuild
		packs  [][]byte
		plains [][]byte
		r      = newRng(s.Tree)
	)
	type ent struct {
		f   FileModel
		sub int
	}
	var ents []ent
	fo := newForm(s.Form)
	defer func() { longNum = nil }()
	for i := range s.Folders {
		fs := &s.Folders[i]
		fb, plain := fs.build(arch, i)
		builds = append(builds, fb)
		plains = append(plains, plain)
		fm := FolderModel{Enc: fs.AES != nil, Len: len(plain), Custom: strings.HasPrefix(fs.Codec, "custom:")}
		if fs.AES != nil {
			fm.Pw = fs.AES.Pw
		}
		if fm.Custom {
			fm.NCust++
		}
		for _, fl := range slices.Concat(fs.Under, fs.Filters) {
			if strings.HasPrefix(fl, "custom:") {
				fm.NCust++
			}
		}
		fm.CustLen = map[int]int{}
		for _, c := range fb.coders {
			if len(c.props) == 3 && bytes.Equal(c.id, customID(int(c.props[2]))) {
				fm.CustLen[int(c.props[2])] = c.outSize
			}
		}
		off := 0
		sizes := fs.Files
		if i == 0 && s.Tiny > 0 {
			tr := newRng(s.Tree ^ 0x717)
			sizes = nil
			for range s.Tiny {
				sizes = append(sizes, 1+tr.N(3))
			}
			sizes = append(sizes, fs.Files...)
		}
		for k := 0; k < len(sizes) && off < len(plain); k++ {
			n := max(sizes[k], 1)
			if k == len(sizes)-1 || off+n > len(plain) {
				n = len(plain) - off
			}
			if fo.zero > 0 && fo.r.P(fo.zero) { // not at the end of the stream
				ents = append(ents, ent{FileModel{Data: []byte{}, Folder: i, Off: off, Enc: fm.Enc, Far: fs.Hole > 0 && off > fs.Len/2}, 0})
			}
			d := plain[off : off+n]
			fm := FileModel{Data: d, Folder: i, Off: off, CRC: crcOf(d), Enc: fm.Enc}
			if h := fs.Len / 2; fs.Hole > 0 {
				fm.Huge = off <= h && off+n > h
				fm.Far = off > h
			}
			ents = append(ents, ent{fm, 0})
			off += n
		}
		a.Folders = append(a.Folders, fm)
		packs = append(packs, fb.packs...)
	}
	// sprinkle entries without a stream
	for i := 0; i < s.Empty+s.Dirs; i++ {
		e := ent{FileModel{Folder: -1, Dir: i >= s.Empty}, 0}
		at := r.N(len(ents) + 1)
		ents = append(ents, ent{})
		copy(ents[at+1:], ents[at:])
		ents[at] = e
	}
	nameTree(r, len(ents), func(i int) bool { return ents[i].f.Dir }, func(i int, n string) { ents[i].f.Name = n })
	if fo.names {
		for i := range ents {
			if f := &ents[i].f; !f.Dir && fo.r.P(40) {
				f.Name += pickOf(fo.r, "😀", "\U00010000x", "\uffff", "\u0100", "\u2028", " ", ".", "\u0301", strings.Repeat("long ", 1+fo.r.N(200)), strings.Repeat("ÿ", 1+fo.r.N(60)))
			}
		}
	}
	if fo.dups && len(ents) > 1 {
		for range 1 + fo.r.N(3) {
			a, b := &ents[fo.r.N(len(ents))].f, &ents[fo.r.N(len(ents))].f
			switch a.Name = b.Name; fo.r.N(3) {
			case 0: // whose name is that of a directory
				a.Name, _, _ = strings.Cut(b.Name, "/")
			case 1:
				if d := path.Dir(b.Name); d != "." {
					a.Name = d
				}
			}
		}
	}
	for i := range ents {
		ents[i].f.Path = ents[i].f.Name
	}
	if fo.odd {
		for i := range ents {
			ents[i].f.Name = fo.oddName(ents[i].f.Path)
		}
		if fo.dots {
			ents = append(ents, ent{FileModel{Folder: -1, Dir: true, Name: pickOf(fo.r, ".", "./", "..", "../", "/", "x/..", "../..", "./.", "\\", ".\\", "/.")}, 0})
		}
	}
	mr := newRng(s.Meta)
	for i := range ents {
		f := &ents[i].f
		f.MTime = time.Unix(1500000000+int64(mr.N(100000000)), int64(mr.N(1000000))*100).UTC()
		if s.Form != 0 {
			fo.meta(f)
		}
		f.Attr = 0x20
		if f.Dir {
			f.Attr = 0x10
		} else if mr.P(30) {
			f.Attr |= 0x8000 | uint32(0o100600+mr.N(0o100))<<16
		}
		if s.Form != 0 {
			fo.attr(f)
		}
		a.Files = append(a.Files, *f)
	}
	// header
	var h bytes.Buffer
	recBuf, recToks, recCoders, recRecs = &h, nil, nil, nil
	defer func() { recBuf = nil }()
	h.WriteByte(1)
	var body bytes.Buffer
	body.Write(make([]byte, s.Gap))
	var (
		holes []hole // positions in body
		holed int64
	)
	if s.Hole > 0 {
		holes, holed = append(holes, hole{body.Len(), s.Hole}), s.Hole
	}
	pos := int64(s.Prefix+32+s.Gap) + s.Hole
	for i, fb := range builds {
		for _, p := range fb.packs {
			a.Folders[i].Spans = append(a.Folders[i].Spans, Span{pos, pos + int64(len(p))})
			pos += int64(len(p))
			if f := &s.Folders[i]; f.Hole > 0 {
				body.Write(p[:f.Len/2])
				holes, holed = append(holes, hole{body.Len(), f.Hole}), holed+f.Hole
				p = p[int64(f.Len/2)+f.Hole:]
			}
			body.Write(p)
		}
	}
	longNum = fo.long
	counts := make([]int, len(builds))
	ones := true
	for _, f := range a.Files {
		if f.Folder >= 0 {
			counts[f.Folder]++
		}
	}
	for _, c := range counts {
		ones = ones && c == 1
	}
	if len(builds) > 0 {
		h.WriteByte(4)
		ends := record(&h)
		h.WriteByte(6)
		putNum(&h, uint64(s.Gap)+uint64(s.Hole))
		putNum(&h, uint64(len(packs)))
		end := record(&h)
		h.WriteByte(9)
		for _, p := range packs {
			putNum(&h, uint64(len(p)))
		}
		end()
		end = record(&h)
		if fo.packCRC > 0 {
			h.WriteByte(10)
			crcs := make([]uint32, len(packs))
			for i := range packs {
				crcs[i] = crcOf(packs[i])
			}
			def := fo.some(len(packs), fo.packCRC)
			putBits(&h, def, true)
			for i, c := range crcs {
				if def[i] {
					le(&h, c)
				}
			}
		}
		end()
		h.WriteByte(0)
		ends()
		ends = record(&h)
		h.WriteByte(7)
		end = record(&h)
		h.WriteByte(11)
		putNum(&h, uint64(len(builds)))
		h.WriteByte(0)
		for _, fb := range builds {
			writeFolder(&h, fb)
		}
		end()
		end = record(&h)
		h.WriteByte(12)
		for _, fb := range builds {
			for _, c := range fb.coders {
				putNum(&h, uint64(c.outSize))
			}
		}
		end()
		// checksums: of files, or of streams if each has just one file
		inUnpack := ones && fo.digests >= 2 && fo.digests <= 4
		var def []bool
		switch fo.digests {
		case 1, 3:
			n := 0
			for _, f := range a.Files {
				if f.Folder >= 0 {
					n++
				}
			}
			def = fo.some(n, 70)
		case 4:
			n := 0
			for _, f := range a.Files {
				if f.Folder >= 0 {
					n++
				}
			}
			def = make([]bool, n)
		}
		nsub := 0
		for _, c := range counts {
			nsub += c
		}
		known := make([]bool, len(builds)) // streams whose own checksum is that of their file
		if fo.digests == 5 {
			fdef := make([]bool, len(builds))
			any := false
			for i := range fdef {
				fdef[i] = fo.r.P(60)
				known[i] = fdef[i] && counts[i] == 1
				any = any || fdef[i]
			}
			if any {
				h.WriteByte(10)
				putBits(&h, fdef, fo.r.P(50))
				for i := range fdef {
					if fdef[i] {
						le(&h, crcOf(plains[i]))
					}
				}
			}
		}
		digests := func() {
			if nsub == 0 {
				return
			}
			defer record(&h)()
			if fo.digests == 5 {
				var sub []bool
				for i := range a.Files {
					f := &a.Files[i]
					if f.Folder < 0 || known[f.Folder] {
						continue
					}
					d := fo.r.P(80)
					sub = append(sub, d)
					if !d {
						f.CRC = 0
					}
				}
				if len(sub) == 0 {
					return
				}
				h.WriteByte(10)
				putBits(&h, sub, fo.r.P(50))
				k := 0
				for i := range a.Files {
					f := &a.Files[i]
					if f.Folder < 0 || known[f.Folder] {
						continue
					}
					if sub[k] {
						le(&h, f.CRC)
					}
					k++
				}

				return
			}
			if fo.digests == 4 {
				for i := range a.Files {
					a.Files[i].CRC = 0
				}

				return
			}
			h.WriteByte(10)
			if def == nil {
				h.WriteByte(1)
			} else {
				putBits(&h, def, false)
			}
			k := 0
			for i := range a.Files {
				if a.Files[i].Folder < 0 {
					continue
				}
				if def == nil || def[k] {
					le(&h, a.Files[i].CRC)
				} else {
					a.Files[i].CRC = 0
				}
				k++
			}
		}
		if inUnpack {
			digests()
		}
		h.WriteByte(0)
		ends()
		if !inUnpack || !fo.noSub {
			ends = record(&h)
			h.WriteByte(8)
			end = record(&h)
			if !ones || !fo.noCounts {
				h.WriteByte(13)
				for _, c := range counts {
					putNum(&h, uint64(c))
				}
			}
			end()
			end = record(&h)
			for _, c := range counts {
				if c > 1 {
					h.WriteByte(9)
					break
				}
			}
			for i, c := range counts {
				k := 0
				for _, f := range a.Files {
					if f.Folder == i {
						k++
						if k < c {
							putNum(&h, uint64(len(f.Data)))
						}
					}
				}
			}
			end()
			if !inUnpack {
				digests()
			}
			h.WriteByte(0)
			ends()
		}
		h.WriteByte(0)
	}
	if len(a.Files) > 0 {
		h.WriteByte(5)
		putNum(&h, uint64(len(a.Files)))
		bits := func(n int, f func(i int) bool) []byte {
			b := make([]byte, (n+7)/8)
			for i := 0; i < n; i++ {
				if f(i) {
					b[i/8] |= 0x80 >> (i % 8)
				}
			}

			return b
		}
		var nostream []int
		for i := range a.Files {
			if a.Files[i].Folder < 0 {
				nostream = append(nostream, i)
			}
		}
		fo.dummy(&h)
		if len(nostream) > 0 {
			v := bits(len(a.Files), func(i int) bool { return a.Files[i].Folder < 0 })
			end := record(&h)
			h.WriteByte(14)
			putNum(&h, uint64(len(v)))
			h.Write(v)
			end()
			if s.Empty > 0 || !fo.noEmptyFile {
				fo.dummy(&h)
				v = bits(len(nostream), func(i int) bool { return !a.Files[nostream[i]].Dir })
				end = record(&h)
				h.WriteByte(15)
				putNum(&h, uint64(len(v)))
				h.Write(v)
				end()
			}
		}
		var nm bytes.Buffer
		nm.WriteByte(0)
		for i := range a.Files {
			for _, u := range utf16.Encode([]rune(a.Files[i].Name)) {
				le(&nm, u)
			}
			le(&nm, uint16(0))
		}
		attrs := func() {
			def := make([]bool, len(a.Files))
			allSet, width := true, 0
			for i := range def {
				def[i] = a.Files[i].Attr != 0
				allSet = allSet && def[i]
				if def[i] {
					width++
				}
			}
			if width == 0 {
				return
			}
			var b bytes.Buffer
			if allSet {
				b.WriteByte(1)
			} else {
				putBits(&b, def, true)
			}
			b.WriteByte(0)
			for i := range a.Files {
				if def[i] {
					le(&b, a.Files[i].Attr)
				}
			}
			h.WriteByte(21)
			putNum(&h, uint64(b.Len()))
			h.Write(b.Bytes())
		}
		times := func(id byte, get func(*FileModel) time.Time) {
			def := make([]bool, len(a.Files))
			allSet, width := true, 0
			for i := range def {
				def[i] = !get(&a.Files[i]).IsZero()
				allSet = allSet && def[i]
				if def[i] {
					width++
				}
			}
			if width == 0 {
				return
			}
			var b bytes.Buffer
			if allSet {
				b.WriteByte(1)
			} else {
				putBits(&b, def, true)
			}
			b.WriteByte(0)
			for i := range a.Files {
				if def[i] {
					m := get(&a.Files[i])
					le(&b, uint64(m.Unix()+11644473600)*1e7+uint64(m.Nanosecond()/100))
				}
			}
			h.WriteByte(id)
			putNum(&h, uint64(b.Len()))
			h.Write(b.Bytes())
		}
		parts := []func(){
			func() {
				h.WriteByte(17)
				putNum(&h, uint64(nm.Len()))
				h.Write(nm.Bytes())
			},
			func() { times(18, func(f *FileModel) time.Time { return f.CTime }) },
			func() { times(19, func(f *FileModel) time.Time { return f.ATime }) },
			func() { times(20, func(f *FileModel) time.Time { return f.MTime }) },
			attrs,
		}
		if fo.shuffled {
			shuffle(fo.r, parts)
		}
		for _, p := range parts {
			end := record(&h)
			p()
			end()
			fo.dummy(&h)
		}
		if mr.P(30) {
			n := mr.N(20)
			h.WriteByte(25)
			putNum(&h, uint64(n))
			h.Write(make([]byte, n))
		}
		h.WriteByte(0)
	}
	h.WriteByte(0)
	if s.Wild != 0 {
		h.Reset()
		recBuf, recToks, recCoders, recRecs = &h, nil, nil, nil
		longNum = nil
		wildHeader(&h, s.Wild)
	}
	a.Toks[0], a.Coders[0], a.Recs, recBuf = recToks, recCoders, recRecs, nil
	if len(a.Files) == 0 && len(builds) == 0 && s.Wild == 0 && fo.r.P(70) {
		// nothing at all, not even a header
		h.Reset()
	}
	hdr := forge(h.Bytes(), s.Forge, 0)
	a.Hdrs[0] = hdr
	if s.Header != "plain" && s.Header != "" {
		fb := &folderBuild{}
		src, codec, props := hdr, "copy", []byte(nil)
		if strings.HasSuffix(s.Header, "lzma") {
			var xb bytes.Buffer
			w, err := xlzma.WriterConfig{SizeInHeader: true, Size: int64(len(hdr)), DictCap: 4096, BufSize: 8192}.NewWriter(&xb)
			if err != nil {
				panic(err)
			}
			_, _ = w.Write(hdr)
			_ = w.Close()
			src, codec, props = xb.Bytes()[13:], "lzma", xb.Bytes()[:5]
		}
		var ha *AESSpec
		if strings.HasPrefix(s.Header, "aes") {
			ha = s.HAES
			a.EncH, a.HPw = true, ha.Pw
		}
		fb.source(ha, codec, props, src, len(hdr))
		hp := int64(body.Len()) + holed
		pk := fb.packs[0]
		a.EncHdr = Span{int64(s.Prefix) + 32 + hp, int64(s.Prefix) + 32 + hp + int64(len(pk))}
		body.Write(pk)
		var e bytes.Buffer
		recBuf, recToks, recCoders, recRecs = &e, nil, nil, nil
		e.WriteByte(23)
		e.WriteByte(6)
		putNum(&e, uint64(hp))
		putNum(&e, 1)
		e.WriteByte(9)
		putNum(&e, uint64(len(pk)))
		e.WriteByte(0)
		e.WriteByte(7)
		e.WriteByte(11)
		putNum(&e, 1)
		e.WriteByte(0)
		writeFolder(&e, fb)
		e.WriteByte(12)
		for _, c := range fb.coders {
			putNum(&e, uint64(c.outSize))
		}
		e.WriteByte(10)
		e.WriteByte(1)
		le(&e, crc32.ChecksumIEEE(hdr))
		e.WriteByte(0)
		e.WriteByte(0)
		a.Toks[1], a.Coders[1], recBuf = recToks, recCoders, nil
		hdr = forge(e.Bytes(), s.Forge, 1)
		a.Hdrs[1] = hdr
	}
	var sh bytes.Buffer
	le(&sh, uint64(body.Len())+uint64(holed))
	le(&sh, uint64(len(hdr)))
	le(&sh, crc32.ChecksumIEEE(hdr))
	forgeStart(sh.Bytes(), s.Forge)
	var o bytes.Buffer
	if s.Prefix > 0 {
		pre := genContent(s.Tree^0x5f, s.Prefix)
		pr := newRng(s.Tree ^ 0xdec0)
		for i := 0; i < s.Decoys; i++ {
			if at := 1 + pr.N(max(s.Prefix-40, 1)); at+6 < s.Prefix {
				copy(pre[at:], "7z\xbc\xaf\x27\x1c")
			}
		}
		if bytes.HasPrefix(pre, []byte("7z\xbc\xaf\x27\x1c")) {
			pre[0] = 'M'
		}
		o.Write(pre)
	}
	o.WriteString("7z\xbc\xaf\x27\x1c\x00\x04")
	le(&o, crc32.ChecksumIEEE(sh.Bytes()))
	o.Write(sh.Bytes())
	for i := range holes {
		holes[i].at += o.Len()
	}
	o.Write(body.Bytes())
	a.Start = int64(s.Prefix)
	a.SigHdr = Span{a.Start, a.Start + 32}
	a.Header = Span{int64(o.Len()) + holed, int64(o.Len()+len(hdr)) + holed}
	o.Write(hdr)
	o.Write(genContent(s.Tree^0x7a11, s.Trail))
	a.Bytes = withHoles(o.Bytes(), holes)
	for i := range a.Files {
		if a.Files[i].Folder >= 0 {
			a.Folders[a.Files[i].Folder].Files = append(a.Folders[a.Files[i].Folder].Files, i)
		}
	}

	return a
}

// nameTree assigns unique names, some nested in implied or explicit
// directories; a directory entry may be a parent of other entries.
func nameTree(r *Rng, n int, isDir func(int) bool, set func(int, string)) {
	dirs := []string{""}
	names := make([]string, n)
	for i := 0; i < n; i++ {
		if !isDir(i) {
			continue
		}
		d := dirs[r.N(len(dirs))]
		nm := d + "dir" + strconv.Itoa(i)
		names[i] = nm
		dirs = append(dirs, nm+"/")
	}
	for k := r.N(4); k > 0; k-- { // implied directories
		d := dirs[r.N(len(dirs))]
		dirs = append(dirs, d+pickOf(r, "sub", "a.b", "ünï", "Sub", "x-y")+strconv.Itoa(k)+"/")
	}
	for i := 0; i < n; i++ {
		if isDir(i) {
			continue
		}
		names[i] = dirs[r.N(len(dirs))] + pickOf(r, "file", "a", "b.txt", "Z", "f.", "ß", "10", "9") + strconv.Itoa(i)
	}
	for i := range names {
		set(i, names[i])
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	return ks
}
