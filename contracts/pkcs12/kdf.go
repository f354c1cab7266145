package pkcs12

import (
	"crypto/sha1"
	"math/big"
)

// ---- RFC 7292 appendix B.2 with SHA-1 (u = 20, v = 64 bytes) ----

func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func specSha1(b []byte) []byte {
	s := sha1.Sum(b)
	return s[:]
}

// copies of p, the last one truncated, to a multiple of 64 bytes
func specRepeat(p []byte) []byte {
	r := make([]byte, 64*((len(p)+63)/64))
	for i := 0; i < len(r); i++ {
		r[i] = p[i%len(p)]
	}
	return r
}

//@ opaque
func absRepeat(p []byte) []byte { return specRepeat(p) }

func repeated(p []byte) []byte {
	r := absRepeat(p)
	vAssume(len(r) == 64*((len(p)+63)/64)) // by its definition
	return r
}

//@ summary fillWithRepeats
func sumRepeat(p []byte, v int) []byte {
	vAssert("precondition of fillWithRepeats: 64-byte blocks", v == 64)
	return repeated(p)
}

// I_j = (I_j + B + 1) mod 2^512 for every 64-byte block
func specAddBlocks(in, b []byte) []byte {
	r := make([]byte, len(in))
	m := new(big.Int).Lsh(big.NewInt(1), 512)
	inc := new(big.Int).SetBytes(b)
	inc.Add(inc, big.NewInt(1))
	for j := 0; j < len(in)/64; j++ {
		x := new(big.Int).SetBytes(in[64*j : 64*j+64])
		x.Add(x, inc)
		x.Mod(x, m)
		copy(r[64*j:64*j+64], x.FillBytes(make([]byte, 64)))
	}
	return r
}

func specHashN(x []byte, n int) []byte {
	for j := 0; j < n; j++ {
		x = specSha1(x)
	}
	return x
}

func specKDF(salt, password []byte, iter int, id byte, size int) []byte {
	d := make([]byte, 64)
	for i := range d {
		d[i] = id
	}
	in := cat(repeated(salt), repeated(password))
	out := []byte{}
	for n := (size + 19) / 20; n > 0; n-- {
		a := specHashN(specSha1(cat(d, in)), iter-1)
		out = append(out, a...)
		if n > 1 {
			in = specAddBlocks(in, cat(a, a, a, a)[:64])
		}
	}
	return out[:size]
}

func genSalt() []byte { return vFill([]int{0, 1, 7, 8, 8, 20, 63, 64, 65, 127, 128, 130}[vPick(12)]) }
func genPass() []byte {
	return vFill([]int{0, 2, 2, 10, 16, 62, 64, 66, 128, 130, 200}[vPick(11)])
}

//@ harness C16 helper nosum=fillWithRepeats
//@ contract fillWithRepeats
func hRepeat() {
	p := vBytesGen("pattern", genSalt)
	p0 := cat(p)
	r := fillWithRepeats(p, 64)
	vAssert("copies of the pattern to a multiple of the block", vEqual(r, specRepeat(p0)))
	vAssert("argument unchanged", vEqual(p, p0))
}

// the derived key for a given size
func checkKDF(size int) {
	salt := vBytesGen("salt", genSalt)
	pass := vBytesGen("password", genPass)
	iter := vIntGen("iterations", 1, 1<<40, func() int { return 1 + vPick(4) })
	id := vByte("id")
	salt0, pass0 := cat(salt), cat(pass)
	k := pbkdf(sha1Sum, 20, 64, salt, pass, iter, id, size)
	vAssert("derived key of RFC 7292 B.2", vEqual(k, specKDF(salt0, pass0, iter, id, size)))
	vAssert("arguments unchanged", vEqual(salt, salt0) && vEqual(pass, pass0))
}

//@ harness C16 nosum=pbkdf
//@ contract pbkdf fillWithRepeats
func hPbkdf1() { checkKDF(vIntGen("size", 1, 20, func() int { return []int{5, 8, 20, 1}[vPick(4)] })) }

//@ harness C16 nosum=pbkdf
//@ contract pbkdf fillWithRepeats
func hPbkdf2() { checkKDF(vIntGen("size", 21, 40, func() int { return []int{24, 24, 40, 21}[vPick(4)] })) }

// more than two blocks: executed only
//
//@ harness C16 bounded
//@ contract pbkdf fillWithRepeats
func hPbkdfN() { checkKDF(vIntGen("size", 1, 1<<30, func() int { return []int{24, 40, 41, 60, 16}[vPick(5)] })) }
