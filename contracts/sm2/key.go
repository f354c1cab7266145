package sm2

import (
	"crypto/elliptic"
	"math/big"
)

// ---- curve, key generation, key comparison ----

//@ harness C09
//@ contract SM2P256V1 (P256V1Curve).Params initSm2P256V1
func hCurve() {
	checkGlobals()
	c := SM2P256V1()
	pr := c.Params()
	vAssert("parameters of the standard", bEq(pr.P, specP()) && bEq(pr.N, specN()) && bEq(pr.B, specB()) && bEq(pr.Gx, specGx()) && bEq(pr.Gy, specGy()) && pr.BitSize == 256)
	vAssert("a = p - 3", bEq(c.A, specA()) && bEq(c.A, bSub(pr.P, bigI(3))))
	// the group operations of the exported curve are those of the standard's curve
	var ec elliptic.Curve = c
	x1, y1 := vPoint("P", genPoint)
	x2, y2 := vPoint("Q", genPoint)
	k := vBigGen("k", genScalar)
	vAssume(k.Sign() >= 0)
	ax, ay := ec.Add(x1, y1, x2, y2)
	bx, by := specCurve().Add(x1, y1, x2, y2)
	vAssert("Add", bEq(ax, bx) && bEq(ay, by))
	ax, ay = ec.ScalarMult(x1, y1, k.Bytes())
	bx, by = specCurve().ScalarMult(x1, y1, k.Bytes())
	vAssert("ScalarMult", bEq(ax, bx) && bEq(ay, by))
	ax, ay = ec.ScalarBaseMult(k.Bytes())
	bx, by = specCurve().ScalarBaseMult(k.Bytes())
	vAssert("ScalarBaseMult", bEq(ax, bx) && bEq(ay, by))
	qx, qy := vBig("qx", bigI(0), specP()), vBig("qy", bigI(0), specP())
	vAssert("IsOnCurve", ec.IsOnCurve(qx, qy) == specCurve().IsOnCurve(qx, qy) && ec.IsOnCurve(x1, y1))
}

// 32-byte blocks that crypto/elliptic turns into chosen scalars
func genKeyBlock() []byte {
	n := specN()
	d := genScalar()
	switch vPick(4) {
	case 0:
		d = bigI(int64(vPick(2)))
	case 1:
		d = bSub(n, bigI(int64(1+vPick(2))))
	}
	b := fix32(d)
	b[1] ^= 0x42
	return append(b, vFill(64)...)
}

//@ harness C09 nosum=GenerateKey
//@ contract GenerateKey
func hGenerateKey() {
	rd := vReaderGen("rand", genKeyBlock)
	k, err := GenerateKey(rd)
	if err != nil {
		vAssert("fails only when the randomness fails", vReaderFailed(rd))
		vAssert("no key with an error", k == nil)
		return
	}
	vAssert("failing randomness is reported", !vReaderFailed(rd))
	vAssert("scalar in [1,n-2]", k.D.Sign() > 0 && k.D.Cmp(bSub(specN(), bigI(2))) <= 0)
	x, y := specCurve().ScalarBaseMult(k.D.Bytes())
	vAssert("public point is D*G", bEq(k.X, x) && bEq(k.Y, y))
	vAssert("on the SM2 curve", k.Curve == elliptic.Curve(SM2P256V1()))
	checkGlobals()
}

func anyPub(name string) *PublicKey {
	x, y := vPoint(name, genPoint)
	c := elliptic.Curve(SM2P256V1())
	if vChoice(name+" curve", 2) == 1 {
		c = elliptic.P256()
	}
	return &PublicKey{Curve: c, X: x, Y: y}
}

// public keys are equal exactly if curve and both coordinates are
//
//@ harness C09
//@ contract (*PublicKey).Equal
func hPubEqual() {
	a := anyPub("A")
	b := anyPub("B")
	switch vChoice("relation", 4) {
	case 1:
		b.X, b.Y = new(big.Int).Set(a.X), new(big.Int).Set(a.Y)
	case 2:
		b.X = new(big.Int).Set(a.X)
	case 3:
		b.Y = new(big.Int).Set(a.Y)
	}
	same := bEq(a.X, b.X) && bEq(a.Y, b.Y) && a.Curve == b.Curve
	vAssert("equal exactly if curve and point are", a.Equal(b) == same)
	vAssert("symmetric", b.Equal(a) == same)
	vAssert("reflexive", a.Equal(a))
	vAssert("another type is not equal", !a.Equal(a.X) && !a.Equal(nil))
}

//@ harness C09
//@ contract (*PrivateKey).Equal (*PrivateKey).Public
func hPrivEqual() {
	a, b := anyPriv(), anyKeyNamed("e")
	if vChoice("relation", 2) == 1 {
		b.D, b.X, b.Y = new(big.Int).Set(a.D), new(big.Int).Set(a.X), new(big.Int).Set(a.Y)
	}
	vAssert("equal exactly if the scalars are", a.Equal(b) == bEq(a.D, b.D))
	vAssert("reflexive", a.Equal(a))
	vAssert("another type is not equal", !a.Equal(a.D) && !a.Equal(nil) && !a.Equal(&a.PublicKey))
	p, ok := a.Public().(*PublicKey)
	vAssert("Public is the matching public key", ok && bEq(p.X, a.X) && bEq(p.Y, a.Y) && p.Curve == a.Curve)
	vAssert("public key of the same key compares equal", p.Equal(&a.PublicKey))
}

func anyKeyNamed(name string) *PrivateKey {
	d := vBig(name, bigI(1), bSub(specN(), bigI(2)))
	x, y := specCurve().ScalarBaseMult(d.Bytes())
	return &PrivateKey{PublicKey: PublicKey{Curve: SM2P256V1(), X: x, Y: y}, D: d}
}
