package main

import "encoding/binary"

// Whole-buffer reference decoders for the 7-Zip filters, written from the
// format descriptions (xz's simple/*.c and 7-Zip's Delta.c, Bcj2.c), used as
// oracles: any byte string is a valid encoded form, and these say what it
// decodes to.

func refDelta(b []byte, dist int) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i]
		if i >= dist {
			o[i] += o[i-dist]
		}
	}

	return o
}

func refARM(b []byte) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+4 <= len(o); i += 4 {
		if o[i+3] == 0xeb {
			src := uint32(o[i]) | uint32(o[i+1])<<8 | uint32(o[i+2])<<16
			dst := ((src << 2) - (uint32(i) + 8)) >> 2
			o[i], o[i+1], o[i+2] = byte(dst), byte(dst>>8), byte(dst>>16)
		}
	}

	return o
}

func refPPC(b []byte) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+4 <= len(o); i += 4 {
		if o[i]>>2 == 0x12 && o[i+3]&3 == 1 {
			src := uint32(o[i]&3)<<24 | uint32(o[i+1])<<16 | uint32(o[i+2])<<8 | uint32(o[i+3]&^3)
			dst := src - uint32(i)
			o[i] = 0x48 | byte(dst>>24)&3
			o[i+1] = byte(dst >> 16)
			o[i+2] = byte(dst >> 8)
			o[i+3] = o[i+3]&3 | byte(dst)&^3
		}
	}

	return o
}

func refSPARC(b []byte) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+4 <= len(o); i += 4 {
		if (o[i] == 0x40 && o[i+1]&0xc0 == 0) || (o[i] == 0x7f && o[i+1]&0xc0 == 0xc0) {
			src := binary.BigEndian.Uint32(o[i:]) << 2
			dst := (src - uint32(i)) >> 2
			dst = ((0 - ((dst >> 22) & 1)) << 22 & 0x3fffffff) | (dst & 0x3fffff) | 0x40000000
			binary.BigEndian.PutUint32(o[i:], dst)
		}
	}

	return o
}

func refARM64(b []byte) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+4 <= len(o); i += 4 {
		pc := uint32(i)
		in := binary.LittleEndian.Uint32(o[i:])
		switch {
		case in>>26 == 0x25: // BL
			src := in
			pc >>= 2
			pc = 0 - pc
			binary.LittleEndian.PutUint32(o[i:], 0x94000000|(src+pc)&0x03ffffff)
		case in&0x9f000000 == 0x90000000: // ADRP
			src := (in>>29)&3 | (in>>3)&0x001ffffc
			if (src+0x00020000)&0x001c0000 != 0 {
				continue
			}
			in &= 0x9000001f
			pc >>= 12
			pc = 0 - pc
			dst := src + pc
			in |= (dst & 3) << 29
			in |= (dst & 0x0003fffc) << 3
			in |= (0 - (dst & 0x00020000)) & 0x00e00000
			binary.LittleEndian.PutUint32(o[i:], in)
		}
	}

	return o
}

// refBCJ follows xz's simple/x86.c, decoding the whole buffer at once.
func refBCJ(in []byte) []byte {
	maskToAllowed := [8]bool{true, true, true, false, true, false, false, false}
	maskToBit := [8]uint32{0, 1, 2, 2, 3, 3, 3, 3}
	msb := func(b byte) bool { return b == 0 || b == 0xff }
	b := append([]byte(nil), in...)
	if len(b) < 5 {
		return b
	}
	prevMask := uint32(0)
	prevPos := uint32(0xfffffffb) // (uint32_t)(-5)
	size := len(b) - 4
	for i := 0; i < size; {
		if b[i] != 0xe8 && b[i] != 0xe9 {
			i++
			continue
		}
		off := uint32(i) - prevPos
		prevPos = uint32(i)
		if off > 5 {
			prevMask = 0
		} else {
			for k := uint32(0); k < off; k++ {
				prevMask &= 0x77
				prevMask <<= 1
			}
		}
		c := b[i+4]
		if msb(c) && maskToAllowed[(prevMask>>1)&7] && (prevMask>>1) < 0x10 {
			src := uint32(c)<<24 | uint32(b[i+3])<<16 | uint32(b[i+2])<<8 | uint32(b[i+1])
			var dest uint32
			for {
				dest = src - (uint32(i) + 5)
				if prevMask == 0 {
					break
				}
				k := maskToBit[prevMask>>1]
				c = byte(dest >> (24 - k*8))
				if !msb(c) {
					break
				}
				src = dest ^ (1<<(32-k*8) - 1)
			}
			b[i+4] = byte(^(((dest >> 24) & 1) - 1))
			b[i+3] = byte(dest >> 16)
			b[i+2] = byte(dest >> 8)
			b[i+1] = byte(dest)
			i += 5
			prevMask = 0
		} else {
			i++
			prevMask |= 1
			if msb(c) {
				prevMask |= 0x10
			}
		}
	}

	return b
}

// refBCJ2 decodes the four streams and reports how much of call, jump and
// range coder data was consumed; ok is false when one of them ran out.
func refBCJ2(main, call, jump, rc []byte) (out []byte, nc, nj, nr int, ok bool) {
	var probs [258]uint32
	for i := range probs {
		probs[i] = 1024
	}
	if len(rc) < 5 {
		return nil, 0, 0, 0, false
	}
	var code, rng uint32 = 0, 0xffffffff
	for i := 0; i < 5; i++ {
		code = code<<8 | uint32(rc[i])
	}
	nr = 5
	prev := byte(0)
	for _, b := range main {
		out = append(out, b)
		isj := b&0xfe == 0xe8 || prev == 0x0f && b&0xf0 == 0x80
		if !isj {
			prev = b
			continue
		}
		var p *uint32
		switch b {
		case 0xe8:
			p = &probs[prev]
		case 0xe9:
			p = &probs[256]
		default:
			p = &probs[257]
		}
		bound := (rng >> 11) * *p
		var bit bool
		if code < bound {
			rng = bound
			*p += (2048 - *p) >> 5
		} else {
			rng -= bound
			code -= bound
			*p -= *p >> 5
			bit = true
		}
		if rng < 1<<24 {
			if nr >= len(rc) {
				return nil, 0, 0, 0, false
			}
			code = code<<8 | uint32(rc[nr])
			rng <<= 8
			nr++
		}
		if !bit {
			prev = b
			continue
		}
		var v uint32
		if b == 0xe8 {
			if nc+4 > len(call) {
				return nil, 0, 0, 0, false
			}
			v = binary.BigEndian.Uint32(call[nc:])
			nc += 4
		} else {
			if nj+4 > len(jump) {
				return nil, 0, 0, 0, false
			}
			v = binary.BigEndian.Uint32(jump[nj:])
			nj += 4
		}
		v -= uint32(len(out)) + 4
		out = binary.LittleEndian.AppendUint32(out, v)
		prev = byte(v >> 24)
	}

	return out, nc, nj, nr, true
}
