// Command addfix appended the samples with less usual parameters to
// /verif/fixtures, at development time, with the same encoders as genfix. It is
// kept for reference. Run it inside a scratch copy of /repo: addfix IN OUT.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	xlzma "github.com/ulikunitz/xz/lzma"
)

type blob struct {
	Method string `json:"m"`
	Props  string `json:"p"`
	Plain  int    `json:"i"`
	Off    int    `json:"o"`
	Len    int    `json:"n"`
	Note   string `json:"t,omitempty"`
}

type plain struct {
	Off  int    `json:"o"`
	Len  int    `json:"n"`
	CRC  uint32 `json:"c"`
	Kind string `json:"k"`
}

type index struct {
	Plains []plain `json:"plains"`
	Blobs  []blob  `json:"blobs"`
}

var (
	ix   index
	data []byte
)

func addPlain(b []byte, kind string) int {
	ix.Plains = append(ix.Plains, plain{len(data), len(b), crc32.ChecksumIEEE(b), kind})
	data = append(data, b...)

	return len(ix.Plains) - 1
}

func addBlob(m string, props []byte, i int, packed []byte, note string) {
	ix.Blobs = append(ix.Blobs, blob{m, hex.EncodeToString(props), i, len(data), len(packed), note})
	data = append(data, packed...)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}

	return v
}

func py(in []byte, code string, args ...any) []byte {
	c := exec.Command("python3", "-c", "import sys,zlib,bz2,lzma\nd=sys.stdin.buffer.read()\nw=sys.stdout.buffer.write\n"+fmt.Sprintf(code, args...))
	c.Stdin = bytes.NewReader(in)
	c.Stderr = os.Stderr

	return must(c.Output())
}

func pat(n int, x uint32) []byte {
	b := make([]byte, n)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}

	return b
}

func get(i int) []byte { return data[ix.Plains[i].Off:][:ix.Plains[i].Len] }

func le32(v ...uint32) (b []byte) {
	for _, x := range v {
		b = binary.LittleEndian.AppendUint32(b, x)
	}

	return b
}

func brot(b []byte, level, win int) []byte {
	var o bytes.Buffer
	w := brotli.NewWriterOptions(&o, brotli.WriterOptions{Quality: level, LGWin: win})
	w.Write(b)
	w.Close()

	return o.Bytes()
}

func brotFrame(b []byte, level, win int) []byte {
	c := brot(b, level, win)

	return append(append(le32(0x184d2a50, 8, uint32(len(c))), 0x42, 0x52, byte((len(b)+65535)/65536), 0), c...)
}

func lz(b []byte, o ...lz4.Option) []byte {
	var out bytes.Buffer
	w := lz4.NewWriter(&out)
	if err := w.Apply(o...); err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()

	return out.Bytes()
}

func skipFrame(c []byte) []byte { return append(le32(0x184d2a50, 4, uint32(len(c))), c...) }

func main() {
	in, out := os.Args[1], os.Args[2]
	if err := json.Unmarshal(must(os.ReadFile(filepath.Join(in, "index.json"))), &ix); err != nil {
		panic(err)
	}
	data = must(os.ReadFile(filepath.Join(in, "data.bin")))
	by := map[int]int{} // plain of that length
	for i, p := range ix.Plains {
		by[p.Len] = i
	}
	one, few, med, exe, mix := by[1], addPlain([]byte("twelve bytes"), "text"), by[5003], by[20000], by[33333]

	// Brotli: streams split into frames, short streams without a frame, other windows
	for _, x := range [][3]int{{med, 1000, 5}, {exe, 7000, 9}, {mix, 30000, 1}, {few, 5, 3}} {
		b := get(x[0])
		var c []byte
		for k := 0; k < len(b); k += x[1] {
			c = append(c, brotFrame(b[k:min(len(b), k+x[1])], x[2], 10+k%14)...)
		}
		addBlob("brotli", nil, x[0], c, "frames")
	}
	b := get(med)
	c := append(brotFrame(b[:2000], 4, 12), brotFrame(nil, 4, 12)...)
	addBlob("brotli", nil, med, append(c, brotFrame(b[2000:], 11, 24)...), "frames, an empty one")
	addBlob("brotli", nil, one, brot(get(one), 5, 16), "short")
	addBlob("brotli", nil, few, brot(get(few), 11, 10), "short")
	addBlob("brotli", nil, mix, brot(get(mix), 11, 10), "small window")
	addBlob("brotli", nil, exe, brotFrame(get(exe), 0, 24), "fast")

	// LZMA and LZMA2: matches as far away as the dictionary is large
	for p := 0; p <= 5; p++ {
		n := (2 | p&1) << (p/2 + 11)
		b := pat(n, uint32(p+1))
		i := addPlain(append(b, b...), "far")
		addBlob("lzma2", []byte{byte(p)}, i, py(get(i), `w(lzma.compress(d,format=lzma.FORMAT_RAW,filters=[{"id":lzma.FILTER_LZMA2,"dict_size":%d}]))`, n), "far matches")
		if p < 2 {
			c := py(get(i), `w(lzma.compress(d,format=lzma.FORMAT_ALONE,filters=[{"id":lzma.FILTER_LZMA1,"dict_size":%d}]))`, n)
			addBlob("lzma", append(c[:1:1], le32(uint32(n))...), i, c[13:], "far matches")
		}
	}
	b = pat(5000, 9)
	i := addPlain(append(b, b...), "far")
	c = py(get(i), `w(lzma.compress(d,format=lzma.FORMAT_ALONE,filters=[{"id":lzma.FILTER_LZMA1,"dict_size":5000}]))`)
	addBlob("lzma", append(c[:1:1], le32(5000)...), i, c[13:], "odd dictionary")
	c = py(get(med), `w(lzma.compress(d,format=lzma.FORMAT_RAW,filters=[{"id":lzma.FILTER_LZMA2,"dict_size":1<<16,"lc":0,"lp":4,"pb":4}]))`)
	addBlob("lzma2", []byte{8}, med, c, "lp 4")
	c = py(pat(3000, 5), `w(lzma.compress(d,format=lzma.FORMAT_RAW,filters=[{"id":lzma.FILTER_LZMA2,"dict_size":4096}]))`)
	addBlob("lzma2", []byte{0}, addPlain(pat(3000, 5), "rand"), c, "stored chunks")
	for _, pr := range []xlzma.Properties{{LC: 8, LP: 4, PB: 4}, {LC: 0, LP: 0, PB: 0}, {LC: 4, LP: 1, PB: 3}} {
		var o bytes.Buffer
		w := must(xlzma.WriterConfig{Properties: &pr, SizeInHeader: true, Size: int64(len(get(med))), DictCap: 1 << 13}.NewWriter(&o))
		w.Write(get(med))
		w.Close()
		addBlob("lzma", append(o.Bytes()[:1:1], le32(1<<13)...), med, o.Bytes()[13:], "other contexts")
	}
	c = py(get(few), `w(lzma.compress(d,format=lzma.FORMAT_ALONE))`)
	addBlob("lzma", append(c[:1:1], le32(1)...), few, c[13:], "tiny dictionary")

	// Deflate: all block types and flushes
	for _, a := range []string{"0,zlib.DEFLATED,-15", "9,zlib.DEFLATED,-15", "6,zlib.DEFLATED,-15,8,zlib.Z_FIXED", "6,zlib.DEFLATED,-15,1,zlib.Z_HUFFMAN_ONLY", "6,zlib.DEFLATED,-9"} {
		addBlob("deflate", nil, exe, py(get(exe), "o=zlib.compressobj(%s)\nfor k in range(0,len(d),3000):\n w(o.compress(d[k:k+3000])); w(o.flush(zlib.Z_FULL_FLUSH if k%%2000 else zlib.Z_SYNC_FLUSH))\nw(o.flush())", a), a)
	}
	addBlob("deflate", nil, few, py(get(few), "o=zlib.compressobj(6,zlib.DEFLATED,-15)\nw(o.compress(d)+o.flush())"), "")

	// Bzip2: several streams
	addBlob("bzip2", nil, mix, py(get(mix), "for k in range(0,len(d),9000):\n w(bz2.compress(d[k:k+9000],1+k//9000))"), "streams")
	addBlob("bzip2", nil, few, py(get(few), "w(bz2.compress(d,9))"), "")

	// Zstandard: frames as written by several threads, other levels
	b = get(mix)
	c = nil
	for k := 0; k < len(b); k += 10000 {
		w := must(zstd.NewWriter(nil, zstd.WithEncoderLevel(zstd.EncoderLevel(1+k/10000%4)), zstd.WithSingleSegment(k%20000 == 0), zstd.WithEncoderCRC(k%20000 != 0)))
		c = append(c, skipFrame(w.EncodeAll(b[k:min(len(b), k+10000)], nil))...)
	}
	addBlob("zstd", nil, mix, c, "skippable frames")
	w := must(zstd.NewWriter(nil, zstd.WithZeroFrames(true)))
	c = append(w.EncodeAll(get(few), nil), w.EncodeAll(nil, nil)...)
	addBlob("zstd", nil, few, append(c, le32(0x184d2a5f, 0)...), "empty frames")
	i = addPlain(bytes.Repeat([]byte{7}, 9000), "runs")
	addBlob("zstd", nil, i, w.EncodeAll(get(i), nil), "run")

	// LZ4: several frames, linked blocks, sizes
	b = get(exe)
	addBlob("lz4", nil, exe, append(skipFrame(lz(b[:7000], lz4.SizeOption(7000))), skipFrame(lz(b[7000:], lz4.CompressionLevelOption(lz4.Level9), lz4.BlockChecksumOption(true)))...), "frames")
	addBlob("lz4", nil, mix, lz(get(mix), lz4.BlockSizeOption(lz4.Block4Mb), lz4.ChecksumOption(true)), "large blocks")
	r := addPlain(pat(4500, 77), "rand")
	addBlob("lz4", nil, r, lz(get(r)), "stored blocks")
	// the second block is a copy of the first one and five more bytes
	lit := []byte("0123456789abcdefghij")
	i = addPlain(append(append(append([]byte(nil), lit...), lit...), "vwxyz"...), "text")
	blk1 := append([]byte{0xf0, 5}, lit...)
	blk2 := append([]byte{0x0f, 20, 0, 1, 0x50}, "vwxyz"...)
	fr := append(le32(0x184d2204), 0x40, 0x40, 0xc0)
	fr = append(append(fr, le32(uint32(len(blk1)))...), blk1...)
	fr = append(append(fr, le32(uint32(len(blk2)))...), blk2...)
	fr = append(fr, 0, 0, 0, 0)
	for k := range 256 { // the checksum of the frame's header
		fr[6] = byte(k)
		if b, err := io.ReadAll(lz4.NewReader(bytes.NewReader(fr))); err == nil && bytes.Equal(b, get(i)) {
			addBlob("lz4", nil, i, fr, "linked blocks")
		}
	}

	os.WriteFile(filepath.Join(out, "index.json"), must(json.MarshalIndent(&ix, "", "")), 0o644)
	os.WriteFile(filepath.Join(out, "data.bin"), data, 0o644)
	fmt.Println(len(ix.Plains), len(ix.Blobs), len(data))
}
