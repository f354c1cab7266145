package sm2

import (
	"math/big"

	"github.com/mmdet/mcrypto/sm3"
)

// internal functions with contracts (re-attached by signature if renamed)
//
//@ bind appendBigIntTo32Bytes func(*big.Int) []byte
//@ bind kdf func(int, *big.Int, *big.Int) ([]byte, bool)

// fixed-length field elements
//
//@ harness C03 C07 C08 helper nosum=appendBigIntTo32Bytes
//@ contract appendBigIntTo32Bytes
func hFix32() {
	x := vBigGen("x", genField)
	vAssume(x.Sign() >= 0 && x.Cmp(lim256()) < 0)
	vAssert("32-byte big-endian", vEqual(appendBigIntTo32Bytes(x), fix32(x)))
}

func lim256() *big.Int { return new(big.Int).Lsh(bigI(1), 256) }

func genField() *big.Int {
	return new(big.Int).Rsh(new(big.Int).Rand(vRng, specP()), uint(vPick(255)))
}

// appendBigIntTo32Bytes: contract for callers
//
//@ summary appendBigIntTo32Bytes
func sumFix32(bn *big.Int) []byte {
	vAssert("appendBigIntTo32Bytes: below 2^256", bn.Sign() >= 0 && bn.Cmp(lim256()) < 0)
	return fix32(bn)
}

// KDF as a function of the standard, abstract for the callers
//
//@ opaque
func absKDF(x, y *big.Int, klen int) []byte { return specKDF(x, y, klen) }

// the abstract mask has the requested length (lemma hKdfLen)
func kdfMask(x, y *big.Int, klen int) []byte {
	t := absKDF(x, y, klen)
	vAssume(len(t) == klen)
	return t
}

//@ harness C07 C08
func hKdfLen() {
	x, y := vPoint("pt", genPoint)
	n := vIntGen("klen", 0, 1<<36, func() int { return vPick(400) })
	vAssert("length of the mask", len(specKDF(x, y, n)) == n)
}

//@ harness C07 C08 helper nosum=kdf
//@ contract kdf intToBytes appendBigIntTo32Bytes
func hKdf() {
	x, y := vPoint("pt", genPoint)
	n := vIntGen("klen", 1, 1<<36, func() int { return 1 + vPick(400) })
	t, ok := kdf(n, x, y)
	want := specKDF(x, y, n)
	if allZero(want) {
		vAssert("an all-zero mask is reported", !ok && t == nil)
		return
	}
	vAssert("mask accepted", ok)
	vAssert("mask is the key derivation of the standard", vEqual(t, want))
}

// kdf: contract for callers
//
//@ summary kdf
func sumKdf(klen int, x, y *big.Int) ([]byte, bool) {
	t := kdfMask(x, y, klen)
	if allZero(t) {
		return nil, false
	}
	return t, true
}

// ---- encryption ----

// randomness for encryption: nonce blocks, sometimes a few (a retry), sometimes short
func genEncRand() []byte {
	var b []byte
	for i := 0; i <= vPick(3); i++ {
		k := genScalar()
		if vPick(2) == 0 {
			k = genShortScalar()
		}
		b = append(b, genNonceBlock(k)...)
	}
	if vPick(6) == 0 {
		b = b[:vPick(len(b))]
	}
	return b
}

// one ciphertext for (x1,y1) and the shared point (x2,y2)
func specCipher(x1, y1, x2, y2 *big.Int, msg []byte) []byte {
	return cat([]byte{4}, fix32(x1), fix32(y1), sm3.Sum(cat(fix32(x2), msg, fix32(y2))), xorBytes(msg, kdfMask(x2, y2, len(msg))))
}

//@ harness C07
//@ contract Encryt nextk
func hEncrypt() {
	priv := anyKey(bigI(1), bSub(specN(), bigI(1)))
	rd := vReaderGen("rand", genEncRand)
	msg := vBytesGen("msg", genEncMsg)
	msg0 := cat(msg)
	c, err := Encryt(rd, &priv.PublicKey, msg)
	vAssert("message unchanged", vEqual(msg, msg0))
	if len(msg0) == 0 {
		vAssert("empty message refused", err != nil && c == nil)
		return
	}
	if err != nil {
		vAssert("no ciphertext with an error", c == nil)
		vAssert("only a failing reader makes encryption fail", vReaderFailed(rd))
		return
	}
	vAssert("ciphertext length", len(c) == 97+len(msg0))
	x1, y1 := os2i(c[1:33]), os2i(c[33:65])
	x2, y2 := specCurve().ScalarMult(x1, y1, priv.D.Bytes())
	vAssert("C1 on the curve", specCurve().IsOnCurve(x1, y1))
	vAssert("C1 || C3 || C2 of the standard", vEqual(c, specCipher(x1, y1, x2, y2, msg0)))
	vAssert("mask not zero", !allZero(kdfMask(x2, y2, len(msg0))))
	m, err := Decryt(priv, c)
	vAssert("decrypts to the message", err == nil && vEqual(m, msg0))
	checkGlobals()
}

func genEncMsg() []byte {
	n := []int{0, 1, 1, 1, 2, 31, 32, 33, 64, 65}[vPick(10)]
	if vPick(3) == 0 {
		n = vPick(300)
	}
	b := make([]byte, n)
	vRng.Read(b)
	return b
}

// ---- decryption ----

// specDecrypt: GM/T 0003.4 section 7 for C1 || C3 || C2 with an uncompressed C1
func specDecrypt(d *big.Int, c []byte) []byte {
	if len(c) <= 97 || c[0] != 4 {
		return nil
	}
	x1, y1 := os2i(c[1:33]), os2i(c[33:65])
	if x1.Cmp(specP()) >= 0 || y1.Cmp(specP()) >= 0 || !specCurve().IsOnCurve(x1, y1) {
		return nil
	}
	x2, y2 := specCurve().ScalarMult(x1, y1, d.Bytes())
	t := kdfMask(x2, y2, len(c)-97)
	if allZero(t) {
		return nil
	}
	m := xorBytes(c[97:], t)
	if !vEqual(sm3.Sum(cat(fix32(x2), m, fix32(y2))), c[65:97]) {
		return nil
	}
	return m
}

type cipherGen struct{ priv *PrivateKey }

func (g *cipherGen) gen() []byte {
	x1, y1 := genPoint()
	x2, y2 := specCurve().ScalarMult(x1, y1, g.priv.D.Bytes())
	msg := genEncMsg()
	if vPick(4) == 0 { // search for an all-zero mask
		if len(msg) > 1 {
			msg = msg[:1]
		}
		for i := 0; i < 300 && len(msg) == 1 && !allZero(specKDF(x2, y2, 1)); i++ {
			x1, y1 = specCurve().Add(x1, y1, specGx(), specGy())
			x2, y2 = specCurve().Add(x2, y2, g.priv.X, g.priv.Y)
		}
	}
	c := specCipher(x1, y1, x2, y2, msg)
	switch vPick(10) {
	case 0:
		c[vPick(len(c))] ^= 1 << uint(vPick(8))
	case 1:
		c = c[:vPick(len(c)+1)]
	case 2: // another point with a consistent rest
		x1 = bAdd(x1, bigI(1))
		if x1.BitLen() <= 256 {
			c = specCipher(x1, y1, x2, y2, msg)
		}
	case 3: // non-canonical coordinate
		if s := bAdd(x1, specP()); s.BitLen() <= 256 {
			copy(c[1:33], fix32(s))
		}
	case 4:
		copy(c[1:65], make([]byte, 64))
	case 5:
		c[0] = byte(vPick(8))
	}
	return c
}

//@ harness C08
//@ contract Decryt
func hDecrypt() {
	priv := anyKey(bigI(1), bSub(specN(), bigI(1)))
	g := &cipherGen{priv}
	c := vBytesGen("ciphertext", g.gen)
	c0 := cat(c)
	m, err := Decryt(priv, c)
	vAssert("ciphertext unchanged", vEqual(c, c0))
	want := specDecrypt(priv.D, c0)
	if want == nil {
		vAssert("invalid ciphertext is an error without plaintext", err != nil && m == nil)
		return
	}
	vAssert("valid ciphertext decrypts", err == nil && vEqual(m, want))
	checkGlobals()
}
