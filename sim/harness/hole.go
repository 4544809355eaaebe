package main

import (
	"hash/crc32"
	"syscall"
)

// Archives of more than 4 GiB: almost all of it are zero bytes that were never
// touched, in memory that is only reserved.

type hole struct {
	at int
	n  int64
}

var maps [][]byte

// withHoles returns b with zero bytes inserted.
func withHoles(b []byte, holes []hole) []byte {
	n := int64(len(b))
	for _, h := range holes {
		n += h.n
	}
	if n == int64(len(b)) {
		return b
	}
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil && lim.Cur < lim.Max {
		lim.Cur += uint64(n)
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	m, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic("cannot reserve address space: " + err.Error())
	}
	maps = append(maps, m)
	from, to := 0, int64(0)
	for _, h := range holes {
		to += int64(copy(m[to:], b[from:h.at]))
		from = h.at
		to += h.n
	}
	copy(m[to:], b[from:])

	return m
}

// unmapAll releases the archives with holes. Nothing of them may be used any more.
func unmapAll() {
	n := uint64(0)
	for _, m := range maps {
		n += uint64(len(m))
		_ = syscall.Munmap(m)
	}
	maps = nil
	var lim syscall.Rlimit
	if n > 0 && syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil && lim.Cur < lim.Max {
		lim.Cur -= n
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

// crcOf is the checksum stored for b; nothing checks that of a huge file.
func crcOf(b []byte) uint32 {
	if len(b) > 1<<29 {
		return 0xdeadbeef ^ uint32(len(b))
	}

	return crc32.ChecksumIEEE(b)
}

// beyond makes archives of a plan (from one on) larger than 4 GiB. It returns
// whether the first one has a stream that's worth reading to its end (which
// takes seconds).
func beyond(r *Rng, p *Plan, from int) (far bool) {
	size := func() int64 {
		return pickOf(r, 1<<31-int64(r.N(3000)), 1<<31+int64(r.N(3000)), 1<<32-int64(r.N(5000)), 1<<32+int64(r.N(5000)), 1<<32, 5<<30, 1<<33)
	}
	p.Family = "beyond 4 GiB"
	for i := from; i < len(p.Insts); i++ {
		a := &p.Insts[i].Arch
		if a.Garbage || a.Real != "" || len(a.Folders) == 0 {
			continue
		}
		if r.P(60) {
			a.Hole = size()
			if r.P(60) {
				continue
			}
		}
		f := FolderSpec{Codec: "copy", Len: 200 + r.N(9000), Seed: r.U64(), Hole: size()}
		left := f.Len / 2
		for range r.N(3) {
			n := 1 + r.N(left)
			f.Files, left = append(f.Files, n), left-n
			if left < 2 {
				break
			}
		}
		if r.P(20) { // some files behind it
			f.Files = append(f.Files, int(f.Hole)+left+1+r.N(f.Len/4), 1+r.N(f.Len/4))
			far = i == 0 && r.P(10)
		}
		f.Files = append(f.Files, 1)
		at := r.N(len(a.Folders) + 1)
		a.Folders = append(a.Folders[:at:at], append([]FolderSpec{f}, a.Folders[at:]...)...)
	}

	return far
}
