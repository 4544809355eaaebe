package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"runtime"
	"slices"
	"strings"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	xlzma "github.com/ulikunitz/xz/lzma"

	vsim "github.com/bodgit/sevenzip/zzverif/vsim"
)

// Large streams, and how much memory reading them may take.

// tile repeats b until there are n bytes.
func tile(b []byte, n int) []byte {
	o := make([]byte, n)
	for at := copy(o, b); at < n; at *= 2 {
		copy(o[at:], o[:at])
	}

	return o
}

type largeBlob struct{ packed, props []byte }

var largeBlobs = map[string]largeBlob{}

// packLarge compresses plain, which key identifies, with little memory needed
// to decompress it.
func packLarge(key, codec string, plain []byte) ([]byte, []byte) {
	key = codec + " " + key
	if b, ok := largeBlobs[key]; ok {
		return b.packed, b.props
	}
	var (
		o     bytes.Buffer
		props []byte
		err   error
		w     interface {
			Write([]byte) (int, error)
			Close() error
		}
	)
	skip := 0
	switch codec {
	case "deflate":
		w, err = flate.NewWriter(&o, 6)
	case "lzma":
		w, err = xlzma.WriterConfig{SizeInHeader: true, Size: int64(len(plain)), DictCap: 1 << 16, BufSize: 8192}.NewWriter(&o)
		skip = 13
	case "lzma2":
		w, err = xlzma.Writer2Config{DictCap: 1 << 16}.NewWriter2(&o)
		props = []byte{8}
	case "zstd":
		w, err = zstd.NewWriter(&o, zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<16), zstd.WithEncoderLevel(zstd.SpeedFastest))
	case "brotli":
		w = brotli.NewWriterOptions(&o, brotli.WriterOptions{Quality: 3, LGWin: 16})
	case "lz4":
		l := lz4.NewWriter(&o)
		err = l.Apply(lz4.BlockSizeOption(lz4.Block64Kb))
		w = l
	default:
		panic("no encoder for " + codec)
	}
	if err != nil {
		panic(err)
	}
	for at := 0; at < len(plain); at += 1 << 16 {
		_, _ = w.Write(plain[at:min(at+1<<16, len(plain))])
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	b := o.Bytes()
	if codec == "lzma" {
		props = b[:5]
	}
	res := largeBlob{append([]byte(nil), b[skip:]...), append([]byte(nil), props...)}
	largeBlobs[key] = res

	return res.packed, res.props
}

// coderMem is what a decoder may hold, for its whole life.
var coderMem = map[string]int{
	"copy": 64 << 10, "custom": 128 << 10, "aes": 256 << 10, "bcj": 384 << 10, "arm": 384 << 10, "arm64": 384 << 10, "ppc": 384 << 10, "sparc": 384 << 10,
	"delta": 64 << 10, "bcj2": 512 << 10, "deflate": 256 << 10, "lzma": 512 << 10, "lzma2": 512 << 10, "zstd": 3 << 20, "brotli": 1 << 20, "lz4": 1 << 20,
}

func (f *FolderSpec) mem() int {
	n := 64 << 10
	for _, c := range slices.Concat(f.Under, []string{f.Codec}, f.Filters) {
		c, _, _ = strings.Cut(c, ":")
		n += coderMem[c]
	}
	if f.AES != nil {
		n += 2 * coderMem["aes"]
	}

	return n
}

// memSlack is for the listing, the harness and its record of the schedule.
const (
	memSlack = 2 << 20
	memStep  = 3 << 19
)

func heapNow() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)

	return int64(ms.HeapAlloc)
}

// checkMem is called after n bytes were delivered. Every file opened since the
// beginning may have left one chain of decoders behind, in use or parked.
func (t *tctx) checkMem(n int) {
	r := t.r
	if r.plan.Mem == 0 || r.memBase == 0 {
		return
	}
	r.memSeen += int64(n)
	if n >= 0 && r.memSeen < r.memNext {
		return
	}
	r.memNext = r.memSeen + memStep
	lim := r.memBase + r.memMay + memSlack
	for _, x := range r.all {
		lim += int64(cap(x.buf))
	}
	got := heapNow()
	t.cnt["memory measured"]++
	if keepLog {
		t.note(fmt.Sprintf("%d KiB more than at the beginning, %d KiB allowed", (got-r.memBase)>>10, (lim-r.memBase)>>10))
	}
	if got > lim {
		t.fail("memory", []string{"C23"}, "after %d files were opened, the memory in use exceeds that at the beginning by more than the %d KiB all decoders may hold", r.memOpens, (lim-r.memBase)>>10)
	}
}

//go:norace
func (t *tctx) opened1(h *handle) {
	r := t.r
	if r.plan.Mem == 0 || h.m.Folder < 0 {
		return
	}
	r.memOpens++
	f := &h.in.spec.Arch.Folders[h.m.Folder]
	r.memMay += int64(f.mem())
	for _, c := range pooled {
		if f.Codec == c {
			r.memKeep += int64(coderMem[c])
		}
	}
}

func (t *tctx) opMem(op *Op) {
	r := t.r
	switch op.N {
	case 0:
		r.memBase, r.memSeen, r.memNext = heapNow(), 0, 0
	case 1:
		t.checkMem(-1)
	default: // drop everything, only what is kept for reuse may remain
		for _, x := range r.all {
			for _, h := range x.h {
				h.rc, h.fsf = nil, nil
			}
			x.h = map[int]*handle{}
		}
		for _, in := range r.insts {
			in.zr, in.rc, in.files = nil, nil, nil
		}
		r.memMay = r.memKeep
		t.checkMem(-1)
	}
	vsim.OpStart()
}
