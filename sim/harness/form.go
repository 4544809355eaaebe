package main

import (
	"bytes"
	"io/fs"
	"strings"
	"time"
)

// form says how a header is written: everything the format leaves to the
// writer. The zero seed gives what 7-Zip writes for ordinary archives.
type form struct {
	r           *Rng
	zero        int // percent of files followed by an empty one within the stream
	names       bool
	long        *Rng
	packCRC     int
	digests     int // 0 all, 1 some files', 2 in the unpack info, 3 some of these, 4 none, 5 streams' in the unpack info, files' of the others
	noSub       bool
	noCounts    bool
	noEmptyFile bool
	shuffled    bool
	dummies     int
	times       [3]int // percent of files with creation, access, modification time
	oddAttr     int
	odd         bool // unusual spellings of paths
	dots        bool // an entry for the root itself
	dups        bool // entries that claim the same path
}

func newForm(seed uint64) *form {
	f := &form{r: newRng(seed)}
	if seed == 0 {
		return f
	}
	r := f.r
	if r.P(15) {
		f.zero = 15
	}
	f.names = r.P(30)
	if r.P(20) {
		f.long = newRng(r.U64())
	}
	if r.P(20) {
		f.packCRC = pickOf(r, 50, 100)
	}
	f.digests = pickOf(r, 0, 0, 1, 2, 2, 3, 4, 5)
	f.noSub, f.noCounts, f.noEmptyFile = r.P(50), r.P(50), r.P(50)
	f.shuffled = r.P(30)
	if r.P(30) {
		f.dummies = 40
	}
	for i := range f.times {
		f.times[i] = pickOf(r, 0, 50, 100)
	}
	if r.P(50) {
		f.oddAttr = 50
	}
	if r.P(20) {
		f.odd, f.dots = true, r.P(30)
	}
	f.dups = r.P(12)

	return f
}

// oddName is another spelling of a path.
func (f *form) oddName(p string) string {
	switch f.r.N(8) {
	case 0:
		return "/" + p
	case 1:
		return "./" + p
	case 2:
		return pickOf(f.r, "../", "../../", "/../", "//") + p
	case 3:
		return strings.ReplaceAll(p, "/", "//")
	case 4:
		return strings.ReplaceAll(p, "/", "/./")
	case 5:
		return strings.ReplaceAll(p, "/", `\`)
	case 6:
		return strings.Replace(p, "/", "/x/../", 1)
	}

	return p
}

// some marks about pct percent, but at least one and, if pct < 100, not all.
func (f *form) some(n, pct int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = f.r.P(pct)
	}
	if n > 0 {
		b[f.r.N(n)] = true
		if pct < 100 && n > 1 {
			b[f.r.N(n)] = false
		}
	}

	return b
}

// putBits writes an optional bit vector.
func putBits(b *bytes.Buffer, def []bool, short bool) {
	allSet := true
	for _, d := range def {
		allSet = allSet && d
	}
	if allSet && short {
		b.WriteByte(1)

		return
	}
	b.WriteByte(0)
	v := make([]byte, (len(def)+7)/8)
	for i, d := range def {
		if d {
			v[i/8] |= 0x80 >> (i % 8)
		}
	}
	b.Write(v)
}

// dummy perhaps writes padding.
func (f *form) dummy(h *bytes.Buffer) {
	if f.dummies == 0 || !f.r.P(f.dummies) {
		return
	}
	n := f.r.N(9)
	h.WriteByte(25)
	putNum(h, uint64(n))
	h.Write(make([]byte, n))
}

func (f *form) meta(m *FileModel) {
	t := func() time.Time {
		if f.r.P(20) { // from 1601 on, as far as the format goes
			k := f.r.U64() >> pickOf(f.r, 0, 1, 2, 5, 8, 40, 63)

			return time.Unix(int64(k/1e7)-11644473600, int64(k%1e7)*100).UTC()
		}
		return time.Unix(int64(f.r.U64()%13e9)-4e9, int64(f.r.N(10000000))*100).UTC() // 1843 to 2255
	}
	if f.r.P(f.times[0]) {
		m.CTime = t()
	}
	if f.r.P(f.times[1]) {
		m.ATime = t()
	}
	if f.r.P(f.times[2]) {
		m.MTime = t()
	} else {
		m.MTime = time.Time{}
	}
}

func (f *form) attr(m *FileModel) {
	if !f.r.P(f.oddAttr) {
		return
	}
	if m.Dir {
		m.Attr = pickOf(f.r, 0, 0x20, 0x10, 0x11, 0x8010|uint32(0o040700+f.r.N(0o100))<<16, 0x8010|0o043755<<16)

		return
	}
	perm := uint32(f.r.N(0o1000))
	if f.r.P(25) { // neither a regular file nor a directory
		m.Attr = 0x8020 | (pickOf[uint32](f.r, 0o120000, 0o010000, 0o140000, 0o060000, 0o020000)+perm)<<16

		return
	}
	m.Attr = pickOf(f.r, 0, 0x21, 0x1, 0x80, 0x2026, 0x8020|(0o100000+perm)<<16, 0x8020|(0o104000+perm)<<16, 0x8020|(0o102000+perm)<<16, 0x8020|(0o101000+perm)<<16)
}

// mode is what the attributes mean. They needn't say what a directory is: it
// has no stream and isn't an empty file.
func (m *FileModel) mode() fs.FileMode {
	if m.Dir {
		return fileMode(m.Attr | 0x10)
	}

	return fileMode(m.Attr)
}

func fileMode(attr uint32) fs.FileMode {
	var m fs.FileMode
	if attr>>28 == 0 { // no Unix mode
		m = 0o666
		if attr&0x10 != 0 {
			m = 0o777 | fs.ModeDir
		}
		if attr&1 != 0 {
			m &^= 0o222
		}

		return m
	}
	u := attr >> 16
	m = fs.FileMode(u & 0o777)
	switch u & 0o170000 {
	case 0o040000:
		m |= fs.ModeDir
	case 0o120000:
		m |= fs.ModeSymlink
	case 0o010000:
		m |= fs.ModeNamedPipe
	case 0o140000:
		m |= fs.ModeSocket
	case 0o060000:
		m |= fs.ModeDevice
	case 0o020000:
		m |= fs.ModeDevice | fs.ModeCharDevice
	}
	if u&0o4000 != 0 {
		m |= fs.ModeSetuid
	}
	if u&0o2000 != 0 {
		m |= fs.ModeSetgid
	}
	if u&0o1000 != 0 {
		m |= fs.ModeSticky
	}

	return m
}
