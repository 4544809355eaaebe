// Command genfix produced /verif/fixtures once, at development time, from
// encoders independent of the code under test (liblzma through python,
// bzip2, zlib and zstd command line tools, the Go brotli and lz4 writers) and
// from the PPMd samples available offline. It is kept for reference; the
// checks only read its output. Run it inside a scratch copy of /repo.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/andybalholm/brotli"
	"github.com/bodgit/sevenzip"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	xlzma "github.com/ulikunitz/xz/lzma"
)

type blob struct {
	Method string `json:"m"`
	Props  string `json:"p"`
	Plain  int    `json:"i"`
	Off    int    `json:"o"`
	Len    int    `json:"n"`
	Note   string `json:"t,omitempty"`
}

type plain struct {
	Off  int    `json:"o"`
	Len  int    `json:"n"`
	CRC  uint32 `json:"c"`
	Kind string `json:"k"`
}

type index struct {
	Plains []plain `json:"plains"`
	Blobs  []blob  `json:"blobs"`
}

var (
	ix   index
	data bytes.Buffer
)

type rnd uint64

func (r *rnd) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rnd) n(k int) int { return int(r.next() % uint64(k)) }

func gen(r *rnd, kind string, n int) []byte {
	b := make([]byte, 0, n+64)
	words := strings.Fields("seven zip archive reader stream folder coder pack the a of and header volume signature offset concurrent file close open read pool")
	for len(b) < n {
		switch kind {
		case "text":
			b = append(b, words[r.n(len(words))]...)
			b = append(b, " \n.,"[r.n(4)])
		case "rand":
			b = append(b, byte(r.next()))
		case "runs":
			c, k := byte(r.n(5)), 1+r.n(200)
			for i := 0; i < k; i++ {
				b = append(b, c)
			}
		case "x86":
			switch r.n(7) {
			case 0:
				b = append(b, 0xe8, byte(r.next()), byte(r.next()), byte(r.n(3)), 0)
			case 1:
				b = append(b, 0xe9, byte(r.next()), byte(r.next()), 0xff, 0xff)
			case 2:
				b = append(b, 0x0f, 0x80|byte(r.n(16)), byte(r.next()), byte(r.next()), byte(r.n(2)), 0)
			case 3:
				b = append(b, 0xe8, 0xe8, 0xe9, 0xff, 0x00)
			case 4: // ARM, PPC, SPARC, ARM64 branches
				b = append(b, [][]byte{{1, 2, 3, 0xeb}, {0x48, 1, 2, 1}, {0x40, 0, 1, 2}, {0x7f, 0xc1, 2, 3}, {5, 6, 0, 0x94}, {1, 2, 3, 0x90}}[r.n(6)]...)
			default:
				for i := r.n(6); i >= 0; i-- {
					b = append(b, byte(r.next()))
				}
			}
		case "mixed":
			b = append(b, gen(r, []string{"text", "rand", "runs", "x86"}[r.n(4)], 1+r.n(3000))...)
		}
	}
	return b[:n]
}

func addPlain(b []byte, kind string) int {
	ix.Plains = append(ix.Plains, plain{data.Len(), len(b), crc32.ChecksumIEEE(b), kind})
	data.Write(b)
	return len(ix.Plains) - 1
}

func addBlob(m string, props []byte, i int, packed []byte, note string) {
	ix.Blobs = append(ix.Blobs, blob{m, hex.EncodeToString(props), i, data.Len(), len(packed), note})
	data.Write(packed)
}

func run(in []byte, name string, args ...string) []byte {
	c := exec.Command(name, args...)
	c.Stdin = bytes.NewReader(in)
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		panic(fmt.Sprint(name, args, err))
	}
	return b
}

func py(in []byte, code string) []byte { return run(in, "python3", "-c", code) }

func main() {
	out := os.Args[1]
	r := rnd(42)
	specs := []struct {
		kind string
		n    int
	}{{"text", 1}, {"text", 61}, {"mixed", 900}, {"x86", 4096}, {"text", 5003}, {"rand", 4500}, {"x86", 20000}, {"mixed", 33333}, {"runs", 70000}, {"mixed", 150001}}
	for _, s := range specs {
		b := gen(&r, s.kind, s.n)
		i := addPlain(b, s.kind)
		// LZMA1 without end marker (size known), two parameter sets
		for k, pr := range [][3]int{{3, 0, 2}, {1, 2, 0}} {
			if k == 1 && s.n != 900 && s.n != 20000 {
				continue
			}
			dict := 1 << 16
			code := fmt.Sprintf(`
import sys,lzma
d=sys.stdin.buffer.read()
f=[{"id":lzma.FILTER_LZMA1,"lc":%d,"lp":%d,"pb":%d,"dict_size":%d}]
c=lzma.compress(d,format=lzma.FORMAT_ALONE,filters=f)
sys.stdout.buffer.write(c)`, pr[0], pr[1], pr[2], dict)
			c := py(b, code)
			addBlob("lzma", c[:5], i, c[13:], "eos")
		}
		var xb bytes.Buffer
		xw, err := xlzma.WriterConfig{SizeInHeader: true, Size: int64(len(b)), DictCap: 1 << 16}.NewWriter(&xb)
		if err != nil {
			panic(err)
		}
		xw.Write(b)
		if err := xw.Close(); err != nil {
			panic(err)
		}
		addBlob("lzma", xb.Bytes()[:5], i, xb.Bytes()[13:], "noeos")
		c := py(b, `
import sys,lzma
d=sys.stdin.buffer.read()
sys.stdout.buffer.write(lzma.compress(d,format=lzma.FORMAT_RAW,filters=[{"id":lzma.FILTER_LZMA2,"dict_size":1<<16}]))`)
		addBlob("lzma2", []byte{8}, i, c, "") // 2<<(8/2+11) = 65536
		c = py(b, `
import sys,zlib
d=sys.stdin.buffer.read()
o=zlib.compressobj(6,zlib.DEFLATED,-15)
sys.stdout.buffer.write(o.compress(d)+o.flush())`)
		addBlob("deflate", nil, i, c, "")
		addBlob("bzip2", nil, i, run(b, "python3", "-c", "import sys,bz2;sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read(),1))"), "")
		addBlob("zstd", nil, i, run(b, "zstd", "-q", "-c", "-3", "--no-check"), "")
		if s.n == 5003 || s.n == 33333 {
			// several frames, one of them checksummed
			h := s.n / 3
			c = append(run(b[:h], "zstd", "-q", "-c", "-5"), run(b[h:], "zstd", "-q", "-c", "-1", "--no-check")...)
			addBlob("zstd", nil, i, c, "frames")
			// small blocks through the Go encoder
			var zb bytes.Buffer
			w, _ := zstd.NewWriter(&zb, zstd.WithWindowSize(1024))
			for j := 0; j < len(b); j += 1500 {
				w.Write(b[j:min(len(b), j+1500)])
				w.Flush()
			}
			w.Close()
			addBlob("zstd", nil, i, zb.Bytes(), "small blocks")
		}
		var bb bytes.Buffer
		bw := brotli.NewWriterLevel(&bb, 5)
		if s.n == 33333 || s.n == 150001 {
			for j := 0; j < len(b); j += 9000 {
				bw.Write(b[j:min(len(b), j+9000)])
				bw.Flush()
			}
		} else {
			bw.Write(b)
		}
		bw.Close()
		fr := make([]byte, 16)
		binary.LittleEndian.PutUint32(fr[0:], 0x184d2a50)
		binary.LittleEndian.PutUint32(fr[4:], 8)
		binary.LittleEndian.PutUint32(fr[8:], uint32(bb.Len()))
		binary.LittleEndian.PutUint16(fr[12:], 0x5242)
		binary.LittleEndian.PutUint16(fr[14:], uint16((len(b)+65535)/65536))
		addBlob("brotli", nil, i, append(fr, bb.Bytes()...), "framed")
		if bb.Len() >= 16 && (s.n == 900 || s.n == 20000) {
			addBlob("brotli", nil, i, bb.Bytes(), "raw")
		}
		var lb bytes.Buffer
		lw := lz4.NewWriter(&lb)
		lw.Apply(lz4.BlockSizeOption(lz4.Block64Kb), lz4.ChecksumOption(s.n%2 == 0), lz4.BlockChecksumOption(s.n%3 == 0))
		if s.n == 33333 {
			lw.Write(b[:10000])
			lw.Flush()
			lw.Write(b[10000:])
		} else {
			lw.Write(b)
		}
		lw.Close()
		sk := make([]byte, 12)
		binary.LittleEndian.PutUint32(sk[0:], 0x184d2a50)
		binary.LittleEndian.PutUint32(sk[4:], 4)
		binary.LittleEndian.PutUint32(sk[8:], uint32(lb.Len()))
		addBlob("lz4", nil, i, append(sk, lb.Bytes()...), "framed")
		if s.n == 900 || s.n == 20000 {
			addBlob("lz4", nil, i, lb.Bytes(), "raw")
		}
	}
	// PPMd: the packed stream of testdata/ppmd.7z, a plain-header archive or not,
	// located by decoding its header with the library and checked by CRC.
	addPPMD("testdata/ppmd.7z")
	js, _ := json.MarshalIndent(&ix, "", "")
	os.WriteFile(filepath.Join(out, "index.json"), js, 0o644)
	os.WriteFile(filepath.Join(out, "data.bin"), data.Bytes(), 0o644)
	fmt.Println(len(ix.Plains), len(ix.Blobs), data.Len())
}

func addPPMD(name string) {
	rc, err := sevenzip.OpenReader(name)
	if err != nil {
		panic(err)
	}
	var all []byte
	for _, f := range rc.File {
		if f.UncompressedSize == 0 {
			continue
		}
		r, err := f.Open()
		if err != nil {
			panic(err)
		}
		b, err := io.ReadAll(r)
		if err != nil || crc32.ChecksumIEEE(b) != f.CRC32 {
			panic(fmt.Sprint(f.Name, err))
		}
		fmt.Println("ppmd", f.Name, f.Stream, len(b))
		all = append(all, b...)
	}
	for _, s := range sevenzip.PackDump(&rc.Reader) {
		fmt.Printf("folder props %x sizes %v pack@%d+%d\n", s.Props, s.Sizes, s.Off, s.Len)
		raw, _ := os.ReadFile(name)
		i := addPlain(all, "ppmd")
		addBlob("ppmd", s.Props, i, raw[s.Off:s.Off+s.Len], "")
	}
}
