package sm2

import (
	"crypto/elliptic"
	"math/big"

	"github.com/mmdet/mcrypto/sm3"
)

// ---- GM/T 0003 (GB/T 32918) specification ----

func specInt(s string) *big.Int {
	n, _ := new(big.Int).SetString(s, 16)
	return n
}

func specP() *big.Int {
	return specInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
}
func specA() *big.Int {
	return specInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
}
func specB() *big.Int {
	return specInt("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
}
func specN() *big.Int {
	return specInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
}
func specGx() *big.Int {
	return specInt("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
}
func specGy() *big.Int {
	return specInt("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
}

// the group of the standard's curve (a = -3 mod p, as crypto/elliptic assumes)
func specCurve() *elliptic.CurveParams {
	return &elliptic.CurveParams{P: specP(), N: specN(), B: specB(), Gx: specGx(), Gy: specGy(), BitSize: 256, Name: "sm2p256v1"}
}

func bigI(n int64) *big.Int { return big.NewInt(n) }

func bAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bMul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func bMod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }
func bEq(a, b *big.Int) bool      { return a.Cmp(b) == 0 }
func fix32(x *big.Int) []byte     { return x.FillBytes(make([]byte, 32)) }
func os2i(b []byte) *big.Int      { return new(big.Int).SetBytes(b) }
func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

var specDefaultID = []byte("1234567812345678")

// Z = SM3(ENTL || ID || a || b || xG || yG || xA || yA)
func specZ(x, y *big.Int, id []byte) []byte {
	l := len(id) * 8
	return sm3.Sum(cat([]byte{byte(l >> 8), byte(l)}, id, fix32(specA()), fix32(specB()), fix32(specGx()), fix32(specGy()), fix32(x), fix32(y)))
}

// digest signed for (identity, message)
func specDigest(x, y *big.Int, id, msg []byte) []byte {
	if len(id) == 0 {
		id = specDefaultID
	}
	return sm3.Sum(cat(specZ(x, y, id), msg))
}

// verification of GM/T 0003.2 section 7
func specVerify(x, y *big.Int, digest []byte, r, s *big.Int) bool {
	n := specN()
	if r.Sign() <= 0 || r.Cmp(n) >= 0 || s.Sign() <= 0 || s.Cmp(n) >= 0 {
		return false
	}
	t := bMod(bAdd(r, s), n)
	if t.Sign() == 0 {
		return false
	}
	c := specCurve()
	x1, y1 := c.ScalarBaseMult(s.Bytes())
	x2, y2 := c.ScalarMult(x, y, t.Bytes())
	x3, y3 := c.Add(x1, y1, x2, y2)
	if x3.Sign() == 0 && y3.Sign() == 0 {
		return false
	}
	return bEq(bMod(bAdd(os2i(digest), x3), n), r)
}

// KDF of GM/T 0003.4 section 5.4.3 on x || y, one block
func specKDFBlock(x, y *big.Int, i int) []byte {
	return sm3.Sum(cat(fix32(x), fix32(y), []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}))
}
func specKDF(x, y *big.Int, klen int) []byte {
	out := []byte{}
	for i := 1; i <= (klen+31)/32; i++ {
		out = append(out, specKDFBlock(x, y, i)...)
	}
	return out[:klen]
}
func allZero(b []byte) bool {
	for i := 0; i < len(b); i++ {
		if b[i] != 0 {
			return false
		}
	}
	return true
}
func xorBytes(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := 0; i < len(a); i++ {
		r[i] = a[i] ^ b[i]
	}
	return r
}

// ---- arbitrary keys ----

// an arbitrary key pair; d in [lo,hi]
func anyKey(lo, hi *big.Int) *PrivateKey {
	d := vBig("d", lo, hi)
	x, y := specCurve().ScalarBaseMult(d.Bytes())
	return &PrivateKey{PublicKey: PublicKey{Curve: SM2P256V1(), X: x, Y: y}, D: d}
}
func anyPriv() *PrivateKey { return anyKey(bigI(1), bSub(specN(), bigI(2))) }

// ---- generators (executed runs only) ----

// nonce block of the code under test for the nonce k: any byte string that is
// k-1 modulo n-1 (40 bytes)
func genNonceBlock(k *big.Int) []byte {
	b := bSub(k, bigI(1))
	if vPick(2) == 0 {
		b = bAdd(b, bMul(bSub(specN(), bigI(1)), bigI(int64(vPick(1<<30)))))
	}
	return b.FillBytes(make([]byte, 40))
}

func genScalar() *big.Int {
	n1 := bSub(specN(), bigI(1))
	switch vPick(6) {
	case 0:
		return bigI(int64(1 + vPick(3)))
	case 1:
		return bSub(n1, bigI(int64(vPick(3))))
	}
	return bAdd(new(big.Int).Rand(vRng, n1), bigI(1))
}

// scalars k with a leading zero byte in a coordinate of kG
func genShortScalar() *big.Int {
	lim := new(big.Int).Lsh(bigI(1), 248)
	k := genScalar()
	x, y := specCurve().ScalarBaseMult(k.Bytes())
	for i := 0; i < 2000; i++ {
		if x.Cmp(lim) < 0 || y.Cmp(lim) < 0 {
			break
		}
		k = bAdd(k, bigI(1))
		if k.Cmp(specN()) >= 0 {
			k = bigI(1)
			x, y = specGx(), specGy()
			continue
		}
		x, y = specCurve().Add(x, y, specGx(), specGy())
		if x.Sign() == 0 {
			x, y = specCurve().ScalarBaseMult(k.Bytes())
		}
	}
	return k
}
