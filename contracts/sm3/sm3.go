package sm3

import (
	"hash"
	"math/bits"
)

// ---- GM/T 0004-2012 (GB/T 32905) specification ----

// compression function CF of the standard on one 64-byte block
func specCF(v [8]uint32, b []byte) [8]uint32 {
	var w [68]uint32
	var w1 [64]uint32
	for j := 0; j < 16; j++ {
		w[j] = uint32(b[4*j])<<24 | uint32(b[4*j+1])<<16 | uint32(b[4*j+2])<<8 | uint32(b[4*j+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		x = x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23)
		w[j] = x ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	a, bb, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(a, 12)
		ff := a ^ bb ^ c
		gg := e ^ f ^ g
		if j >= 16 {
			ff = (a & bb) | (a & c) | (bb & c)
			gg = (e & f) | (^e & g)
		}
		tt1 := ff + d + ss2 + w1[j]
		tt2 := gg + h + ss1 + w[j]
		d = c
		c = bits.RotateLeft32(bb, 9)
		bb = a
		a = tt1
		h = g
		g = bits.RotateLeft32(f, 19)
		f = e
		e = tt2 ^ bits.RotateLeft32(tt2, 9) ^ bits.RotateLeft32(tt2, 17)
	}
	return [8]uint32{a ^ v[0], bb ^ v[1], c ^ v[2], d ^ v[3], e ^ v[4], f ^ v[5], g ^ v[6], h ^ v[7]}
}

// iteration over the whole blocks of p
//
//@ fold specCompress specCF 64
func specCompress(v [8]uint32, p []byte) [8]uint32 {
	for len(p) >= 64 {
		v = specCF(v, p[:64])
		p = p[64:]
	}
	return v
}

func specIV() [8]uint32 {
	return [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
}

// padding: 1 bit, k zero bits, 64-bit big-endian bit length
func specPad(m []byte) []byte {
	l := uint64(len(m)) * 8
	k := (119 - len(m)%64) % 64
	r := make([]byte, 0, len(m)+9+k)
	r = append(r, m...)
	r = append(r, 0x80)
	r = append(r, make([]byte, k)...)
	return append(r, byte(l>>56), byte(l>>48), byte(l>>40), byte(l>>32), byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
}

func specSum(m []byte) []byte {
	v := specCompress(specIV(), specPad(m))
	var r []byte
	for i := 0; i < 8; i++ {
		r = append(r, byte(v[i]>>24), byte(v[i]>>16), byte(v[i]>>8), byte(v[i]))
	}
	return r
}

// internal function and representation the contracts are written for
//
//@ bind block func(*digest, []byte)
//@ bindfields digest h:\[.*\]uint32 x:\[.*\]byte nx:int len:uint64

// ---- data structure invariant ----

// repr: an arbitrary digest that has absorbed the message m (ghost)
func reprDigest(m []byte) *digest {
	d := new(digest)
	full := len(m) - len(m)%64
	d.h = specCompress(specIV(), m[:full])
	junk := vFixedBytes("junk", 64)
	copy(d.x[:], junk)
	copy(d.x[:], m[full:])
	d.nx = len(m) % 64
	d.len = uint64(len(m))
	return d
}

func isRepr(d *digest, m []byte) bool {
	full := len(m) - len(m)%64
	return d.h == specCompress(specIV(), m[:full]) && vEqual(d.x[:len(m)%64], m[full:]) && d.nx == len(m)%64 && d.len == uint64(len(m))
}

// block(dig,p): dig.h := specCompress(dig.h, p), nothing else changes
//
//@ summary block
func sumBlock(dig *digest, p []byte) {
	dig.h = specCompress(dig.h, p[:len(p)&^63])
}

//@ harness C01 C02 nosum=block
//@ contract block
func hBlock() {
	d := new(digest)
	hv := vWords("h")
	d.h = hv
	copy(d.x[:], vFixedBytes("x", 64))
	d.nx = vInt("nx", 0, 63)
	d.len = vUint64("len")
	p := vBytes("p")
	x0, nx0, len0 := d.x, d.nx, d.len
	p0 := append([]byte{}, p...)
	block(d, p)
	vAssert("block computes the iterated compression function", d.h == specCompress(hv, p0[:len(p0)&^63]))
	vAssert("block leaves the rest of the state alone", d.x == x0 && d.nx == nx0 && d.len == len0)
	vAssert("block does not write its input", vEqual(p, p0))
}

// block may be handed the digest's own buffer
//
//@ harness C01 C02 nosum=block
//@ contract block
func hBlockOwnBuffer() {
	d := new(digest)
	hv := vWords("h")
	d.h = hv
	x := vFixedBytes("x", 64)
	copy(d.x[:], x)
	block(d, d.x[:])
	vAssert("block on the own buffer", d.h == specCF(hv, x)) // = specCompress(hv, x) by definition
	vAssert("buffer unchanged", vEqual(d.x[:], x))
}

func vWords(name string) [8]uint32 {
	b := vFixedBytes(name, 32)
	var r [8]uint32
	for i := 0; i < 8; i++ {
		r[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	return r
}

//@ harness C01 C02
//@ contract (*digest).Reset New
func hNew() {
	d := New().(*digest)
	vAssert("New represents the empty message", isRepr(d, nil))
	vAssert("Size", d.Size() == 32 && Size == 32)
	vAssert("BlockSize", d.BlockSize() == 64 && BlockSize == 64)
}

//@ harness C01 C02
//@ contract (*digest).Reset
func hReset() {
	d := new(digest)
	d.h = vWords("h")
	copy(d.x[:], vFixedBytes("x", 64))
	d.nx = vInt("nx", 0, 63)
	d.len = vUint64("len")
	d.Reset()
	vAssert("Reset represents the empty message", isRepr(d, nil))
}

//@ harness C01 C02
//@ contract (*digest).Write
func hWrite() {
	m := vBytes("m")
	p := vBytes("p")
	p0 := append([]byte{}, p...)
	d := reprDigest(m)
	n, err := d.Write(p)
	vAssert("Write absorbs exactly its argument", isRepr(d, append(append([]byte{}, m...), p0...)))
	vAssert("Write returns the length and no error", n == len(p0) && err == nil)
	vAssert("Write does not modify its argument", vEqual(p, p0))
}

//@ harness C01 C02
//@ contract (*digest).Sum (*digest).checkSum
func hSumMethod() {
	m := vBytes("m")
	in := vBytesCap("in")
	in0 := append([]byte{}, in...)
	d := reprDigest(m)
	d0 := *d
	var h hash.Hash = d
	out := h.Sum(in)
	vAssert("Sum appends the digest of the absorbed message", vEqual(out, append(append([]byte{}, in0...), specSum(m)...)))
	vAssert("Sum does not change the state", *d == d0)
	vAssert("Sum does not overwrite the prefix", vEqual(in, in0))
}

//@ harness C01
//@ contract Sum
func hSumFunc() {
	data := vBytes("data")
	d0 := append([]byte{}, data...)
	r := Sum(data)
	vAssert("Sum(data) is the SM3 digest", vEqual(r, specSum(d0)))
	vAssert("Sum does not modify data", vEqual(data, d0))
}

// published test vectors (sanity of the specification itself)
//
//@ harness C01
func hVectors() {
	e1 := []byte{0x66, 0xc7, 0xf0, 0xf4, 0x62, 0xee, 0xed, 0xd9, 0xd1, 0xf2, 0xd4, 0x6b, 0xdc, 0x10, 0xe4, 0xe2, 0x41, 0x67, 0xc4, 0x87, 0x5c, 0xf2, 0xf7, 0xa2, 0x29, 0x7d, 0xa0, 0x2b, 0x8f, 0x4b, 0xa8, 0xe0}
	v := specCF(specIV(), specPad([]byte("abc")))
	for i := 0; i < 8; i++ {
		vAssert("GM/T 0004 example 1", uint32(e1[4*i])<<24|uint32(e1[4*i+1])<<16|uint32(e1[4*i+2])<<8|uint32(e1[4*i+3]) == v[i])
	}
	if vBool("second") {
		var m []byte
		for i := 0; i < 16; i++ {
			m = append(m, "abcd"...)
		}
		p := specPad(m)
		w := specCF(specCF(specIV(), p[:64]), p[64:])
		vAssert("GM/T 0004 example 2", w[0] == 0xdebe9ff9 && w[7] == 0x9c0c5732)
	}
}

// any history of operations on one object; follows by induction from the
// contracts above, executed here on the public interface
//
//@ harness C01 C02 bounded
func hHistory() {
	h := New()
	var m []byte
	for i := vInt("ops", 1, 6); i > 0; i-- {
		switch vChoice("op", 6) {
		case 0:
			h.Reset()
			m = nil
		case 1:
			in := vBytesCap("in")
			in0 := append([]byte{}, in...)
			vAssert("Sum after a history", vEqual(h.Sum(in), append(in0, specSum(m)...)))
		default:
			p := vBytes("p")
			n, err := h.Write(p)
			vAssert("Write result", n == len(p) && err == nil)
			m = append(m, p...)
		}
	}
	vAssert("final Sum", vEqual(h.Sum(nil), specSum(m)))
	vAssert("one-shot Sum", vEqual(Sum(m), specSum(m)))
	vAssert("sizes", h.Size() == 32 && h.BlockSize() == 64)
}
