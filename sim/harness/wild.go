package main

import (
	"bytes"
	"unicode/utf16"
)

// wildHeader writes a header as free as the format allows, without anything
// behind it: any graph of coders, any numbers, names and times.
func wildHeader(h *bytes.Buffer, seed uint64) {
	r := newRng(seed)
	fo := &form{r: r}
	if r.P(30) {
		fo.dummies = 10 + r.N(60)
	}
	if r.P(40) {
		longNum = newRng(r.U64())
		defer func() { longNum = nil }()
	}
	big := func() uint64 {
		switch r.N(5) {
		case 0:
			return uint64(r.N(4))
		case 1:
			return uint64(r.N(1000))
		default:
			return r.U64() >> (4 + r.N(60))
		}
	}
	flaw := func(pct int) bool { return r.N(1000) < pct } // per mille
	bits := func(n int, f func(i int) bool) []byte {
		b := make([]byte, (n+7)/8)
		for i := range n {
			if f(i) {
				b[i/8] |= 0x80 >> (i % 8)
			}
		}

		return b
	}
	digests := func(b *bytes.Buffer, n int) []bool {
		def := make([]bool, n)
		pct := pickOf(r, 0, 50, 90, 100, 100)
		for i := range def {
			def[i] = r.P(pct)
		}
		putBits(b, def, r.P(60))
		for _, d := range def {
			if d {
				putLE32(b, uint32(r.U64())>>pickOf(r, 0, 0, 8, 31))
			}
		}

		return def
	}
	h.WriteByte(1)
	if flaw(5) {
		h.WriteByte(2)
		for range r.N(3) {
			h.WriteByte(byte(1 + r.N(30)))
			n := r.N(9)
			putNum(h, uint64(n))
			h.Write(genContent(r.U64(), n))
		}
		h.WriteByte(0)
	}
	streams := 0
	if nf := pickOf(r, 0, 1, 1, 2, 3, r.N(9)); nf > 0 {
		h.WriteByte(4)
		var fb bytes.Buffer
		recs := recToks
		if recBuf != nil {
			recBuf = &fb
		}
		need := 0
		outs, mains := make([]int, nf), make([]int, nf)
		type span struct{ p, n int }
		var coders []span
		for i := range nf {
			nc := pickOf(r, 1, 1, 1, 2, 2, 3, 4, 1+r.N(12))
			putNum(&fb, uint64(nc))
			ins := 0
			for range nc {
				at := fb.Len()
				names := sortedKeys(methodIDs)
				id := methodIDs[names[r.N(len(names))]]
				if r.P(20) {
					id = genContent(r.U64(), 1+r.N(8))
				}
				in := 1
				if r.P(20) {
					in = 1 + r.N(5)
				}
				props := genContent(r.U64(), pickOf(r, 0, 0, 1, 5, 18, r.N(40), r.N(300)))
				fl := byte(len(id))
				if in != 1 || r.P(10) {
					fl |= 0x10
				}
				if len(props) > 0 {
					fl |= 0x20
				}
				fb.WriteByte(fl)
				fb.Write(id)
				if fl&0x10 != 0 {
					putNum(&fb, uint64(in))
					putNum(&fb, 1)
				}
				if len(props) > 0 {
					putNum(&fb, uint64(len(props)))
					fb.Write(props)
				}
				ins += in
				coders = append(coders, span{at, fb.Len() - at})
			}
			oi, ii := make([]int, nc), make([]int, ins)
			for j := range oi {
				oi[j] = j
			}
			for j := range ii {
				ii[j] = j
			}
			shuffle(r, oi)
			shuffle(r, ii)
			for j := range nc - 1 {
				putNum(&fb, uint64(ii[j]))
				putNum(&fb, uint64(oi[j]))
			}
			if rest := ii[nc-1:]; len(rest) > 1 {
				for _, j := range rest {
					putNum(&fb, uint64(j))
				}
			}
			need += ins - (nc - 1)
			outs[i], mains[i] = nc, oi[nc-1]
		}
		if recBuf != nil {
			recBuf = h
		}
		inner := recToks[len(recs):]
		recToks = recs
		// the packed streams
		done := record(h)
		h.WriteByte(6)
		putNum(h, big())
		if flaw(15) {
			need += r.N(3) - 1
		}
		putNum(h, uint64(need))
		h.WriteByte(9)
		for range need {
			putNum(h, big()>>8)
		}
		if r.P(20) {
			h.WriteByte(10)
			digests(h, need)
		}
		h.WriteByte(0)
		done()
		done = record(h)
		h.WriteByte(7)
		h.WriteByte(11)
		putNum(h, uint64(nf))
		h.WriteByte(b2i(flaw(6)))
		for _, t := range inner {
			recToks = append(recToks, Tok{t.P + h.Len(), t.N, t.V})
		}
		for _, c := range coders {
			recCoders = append(recCoders, Tok{c.p + h.Len(), c.n, 0})
		}
		h.Write(fb.Bytes())
		h.WriteByte(12)
		sizes := make([]uint64, nf)
		for i := range nf {
			for j := range outs[i] {
				v := big()
				if j == mains[i] {
					sizes[i] = v
				}
				putNum(h, v)
			}
		}
		var known []bool
		if r.P(40) {
			h.WriteByte(10)
			known = digests(h, nf)
		}
		h.WriteByte(0)
		done()
		counts := make([]int, nf)
		ones := true
		for i := range counts {
			counts[i] = pickOf(r, 1, 1, 1, 0, 2, 3, r.N(12))
			if nf > 3 && r.P(50) {
				counts[i] = 1
			}
			if r.N(800) == 0 {
				counts[i] = 900 + r.N(3000)
			}
			ones = ones && counts[i] == 1
		}
		if r.P(15) {
			for i := range counts {
				counts[i] = 1
			}
			ones = true
		}
		for _, c := range counts {
			streams += c
		}
		if !ones || r.P(70) {
			done = record(h)
			h.WriteByte(8)
			if !ones || r.P(50) {
				h.WriteByte(13)
				for _, c := range counts {
					putNum(h, uint64(c))
				}
			}
			more := false
			for _, c := range counts {
				more = more || c > 1
			}
			if more != flaw(6) || r.P(10) {
				h.WriteByte(9)
				for i, c := range counts {
					left := sizes[i]
					for j := 0; j < c-1; j++ {
						v := uint64(0)
						if left > 0 {
							v = r.U64() % (left + 1) >> pickOf(r, 0, 0, 1, 4, 20)
						}
						if flaw(5) {
							v = left + 1 + uint64(r.N(3))
						}
						putNum(h, v)
						left -= min(v, left)
					}
				}
			}
			open := 0
			for i, c := range counts {
				if c != 1 || known == nil || !known[i] {
					open += c
				}
			}
			if open > 0 && r.P(75) {
				h.WriteByte(10)
				digests(h, open)
			}
			h.WriteByte(0)
			done()
		}
		h.WriteByte(0)
	}
	if flaw(15) {
		streams = max(streams+r.N(3)-1, 0)
	}
	empty := pickOf(r, 0, 0, 1, 2, r.N(20))
	if r.N(800) == 0 {
		empty = 900 + r.N(3000)
	}
	n := streams + empty
	if n == 0 {
		h.WriteByte(0)

		return
	}
	h.WriteByte(5)
	putNum(h, uint64(n))
	is := make([]bool, n)
	for i := range empty {
		is[i] = true
	}
	shuffle(r, is)
	rec := func(id byte, b []byte) {
		done := record(h)
		h.WriteByte(id)
		putNum(h, uint64(len(b)))
		h.Write(b)
		done()
		fo.dummy(h)
	}
	var first, rest []func()
	if empty > 0 {
		first = append(first, func() { rec(14, bits(n, func(i int) bool { return is[i] })) })
		if r.P(70) {
			first = append(first, func() { rec(15, bits(empty, func(int) bool { return r.P(60) })) })
		}
		if flaw(8) {
			first = append(first, func() { rec(16, bits(empty, func(int) bool { return r.P(20) })) })
		}
	}
	rest = append(rest, func() {
		var b bytes.Buffer
		b.WriteByte(b2i(flaw(6)))
		for range n {
			for _, u := range wildName(r) {
				putLE16(&b, u)
			}
			putLE16(&b, 0)
		}
		rec(17, b.Bytes())
	})
	vec := func(id byte, val func(b *bytes.Buffer)) {
		rest = append(rest, func() {
			var b bytes.Buffer
			def := make([]bool, n)
			pct := pickOf(r, 0, 30, 80, 100, 100)
			for i := range def {
				def[i] = r.P(pct)
			}
			putBits(&b, def, r.P(60))
			b.WriteByte(b2i(flaw(6)))
			for _, d := range def {
				if d {
					val(&b)
				}
			}
			rec(id, b.Bytes())
		})
	}
	for id := byte(18); id <= 20; id++ {
		if r.P(50) {
			vec(id, func(b *bytes.Buffer) {
				v := r.U64() >> pickOf(r, 0, 1, 7, 7, 8, 30, 63)
				putLE32(b, uint32(v))
				putLE32(b, uint32(v>>32))
			})
		}
	}
	if r.P(60) {
		vec(21, func(b *bytes.Buffer) {
			putLE32(b, uint32(r.U64())>>pickOf(r, 0, 4, 16, 26)&pickOf[uint32](r, 0xffffffff, 0xf1ffffff, 0x81ff8037))
		})
	}
	if flaw(6) {
		rest = append(rest, func() { rec(byte(pickOf(r, 22, 24, 26, r.N(256)|32)), genContent(r.U64(), r.N(20))) })
	}
	if r.P(40) {
		shuffle(r, rest)
	}
	if r.P(15) && len(first) == 1 { // the records of empty streams needn't come first
		rest = append(rest, first...)
		first = nil
	}
	fo.dummy(h)
	for _, f := range append(first, rest...) {
		f()
	}
	h.WriteByte(0)
	h.WriteByte(0)
	if flaw(8) {
		h.Write(make([]byte, 1+r.N(4)))
	}
}

func b2i(b bool) byte {
	if b {
		return 1
	}

	return 0
}

func putLE16(b *bytes.Buffer, v uint16) { b.Write([]byte{byte(v), byte(v >> 8)}) }

func putLE32(b *bytes.Buffer, v uint32) {
	b.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
}

// wildName is any name that has no zeros.
func wildName(r *Rng) []uint16 {
	var out []uint16
	n := r.Small(20) - r.N(2)
	if r.P(1) {
		n = r.N(1 << pickOf(r, 9, 12, 15))
	}
	set := r.N(5)
	for range n {
		switch set {
		case 0:
			out = append(out, uint16('a'+r.N(26)))
		case 1:
			out = append(out, uint16(pickOf(r, '/', '\\', '.', 'a', ':', ' ', 1, 0x7f)))
		case 2:
			out = append(out, utf16.Encode([]rune{rune(pickOf(r, 0x10000+r.N(0x100000), 0xe9, 0x4e00+r.N(20000), 0x1f600, 0xfeff, 0xfffd, 0xffff))})...)
		case 3:
			out = append(out, uint16(max(r.N(1<<16), 1)))
		default:
			out = append(out, uint16(pickOf(r, 0x100, 0x200, 0xff00, 0x2f00, 0x61, 0x2f, 0xd800, 0xdc00, 0xdbff, 0xdfff, 0xfffe, 0xfeff)))
		}
	}

	return out
}
