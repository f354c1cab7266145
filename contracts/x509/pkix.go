package x509

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
)

// ---- SubjectPublicKeyInfo ----

func namedCurve(i int) elliptic.Curve {
	switch i {
	case 0:
		return elliptic.P224()
	case 1:
		return elliptic.P256()
	case 2:
		return elliptic.P384()
	}
	return elliptic.P521()
}

func curveScalar(name string, c elliptic.Curve) *big.Int {
	hi := new(big.Int).Sub(c.Params().N, big.NewInt(1))
	return vBigGen(name, func() *big.Int {
		d := new(big.Int).SetBytes(vFill((c.Params().N.BitLen() + 7) / 8))
		switch vPick(4) {
		case 0:
			d.Rsh(d, uint(1+vPick(40)))
		case 1:
			d = big.NewInt(int64(1 + vPick(9)))
		case 2:
			d.Sub(c.Params().N, big.NewInt(int64(1+vPick(3))))
		}
		d.Mod(d, hi)
		return d.Add(d, big.NewInt(1))
	})
}

func scalarIn(d *big.Int, c elliptic.Curve) bool {
	return d.Sign() > 0 && d.Cmp(c.Params().N) < 0
}

// an arbitrary valid public key of the kind: 0 RSA, 1 ECDSA, 2 SM2, 3 Ed25519
func vPublicKey() crypto.PublicKey {
	switch vChoice("kind", 4) {
	case 0:
		n := vBigGen("n", func() *big.Int { return new(big.Int).Add(new(big.Int).SetBytes(vFill(1+vPick(40))), big.NewInt(1)) })
		vAssume(n.Sign() > 0)
		return &rsa.PublicKey{N: n, E: vInt("e", 1, 1<<31-1)}
	case 1:
		c := namedCurve(vChoice("curve", 4))
		d := curveScalar("d", c)
		vAssume(scalarIn(d, c))
		x, y := c.ScalarBaseMult(d.Bytes())
		return &ecdsa.PublicKey{Curve: c, X: x, Y: y}
	case 2:
		c := sm2.SM2P256V1()
		d := curveScalar("d", c)
		vAssume(scalarIn(d, c))
		x, y := c.ScalarBaseMult(d.Bytes())
		return &sm2.PublicKey{Curve: c, X: x, Y: y}
	}
	return ed25519.PublicKey(vFixedBytes("ed", 32))
}

func samePublic(a, b crypto.PublicKey) bool {
	switch p := a.(type) {
	case *rsa.PublicKey:
		q, ok := b.(*rsa.PublicKey)
		return ok && p.N.Cmp(q.N) == 0 && p.E == q.E
	case *ecdsa.PublicKey:
		q, ok := b.(*ecdsa.PublicKey)
		return ok && p.Curve == q.Curve && p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
	case *sm2.PublicKey:
		q, ok := b.(*sm2.PublicKey)
		return ok && p.Curve == q.Curve && p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
	case ed25519.PublicKey:
		q, ok := b.(ed25519.PublicKey)
		return ok && vEqual(p, q)
	}
	return false
}

//@ harness C11
func hPKIXRound() {
	pub := vPublicKey()
	der, err := MarshalPKIXPublicKey(pub)
	vAssert("a supported key is encoded", err == nil)
	got, err := ParsePKIXPublicKey(der)
	vAssert("the encoding is parsed", err == nil)
	vAssert("to an equal key of the same kind", samePublic(pub, got))
}

//@ harness C11
func hPKIXTrailing() {
	pub := vPublicKey()
	der, err := MarshalPKIXPublicKey(pub)
	vAssume(err == nil)
	more := vBytes("more")
	vAssume(len(more) > 0)
	got, err := ParsePKIXPublicKey(cat(der, more))
	vAssert("trailing data is rejected", err != nil && got == nil)
}

//@ harness C11
func hPKCS1Round() {
	n := vBigGen("n", func() *big.Int { return new(big.Int).Add(new(big.Int).SetBytes(vFill(1+vPick(40))), big.NewInt(1)) })
	vAssume(n.Sign() > 0)
	pub := &rsa.PublicKey{N: n, E: vInt("e", 1, 1<<31-1)}
	der := MarshalPKCS1PublicKey(pub)
	got, err := ParsePKCS1PublicKey(der)
	vAssert("the encoding is parsed", err == nil)
	vAssert("to an equal key", samePublic(pub, got))
	more := vBytes("more")
	vAssume(len(more) > 0)
	got, err = ParsePKCS1PublicKey(cat(der, more))
	vAssert("trailing data is rejected", err != nil && got == nil)
}

// the curve named by the content of an object identifier
func specCurveOfParams(params []byte) elliptic.Curve {
	switch string(params) {
	case "\x2b\x81\x04\x00\x21":
		return elliptic.P224()
	case "\x2a\x86\x48\xce\x3d\x03\x01\x07":
		return elliptic.P256()
	case "\x2b\x81\x04\x00\x22":
		return elliptic.P384()
	case "\x2b\x81\x04\x00\x23":
		return elliptic.P521()
	case "\x2a\x81\x1c\xcf\x55\x01\x82\x2d":
		return sm2.SM2P256V1()
	}
	return nil
}

// the algorithm named by the content of an object identifier
func specKeyAlgo(oid []byte) string {
	switch string(oid) {
	case "\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01":
		return "RSA"
	case "\x2a\x86\x48\xce\x3d\x02\x01":
		return "EC"
	case "\x2b\x65\x70":
		return "Ed25519"
	case "\x2a\x86\x48\xce\x38\x04\x01":
		return "DSA"
	}
	return ""
}

func anyPKIX() []byte {
	var pub crypto.PublicKey
	kind := vPick(5)
	if kind < 4 {
		pub = poolPub(kind, vPick(8))
	}
	var der []byte
	switch k := pub.(type) {
	case *rsa.PublicKey:
		q := *k
		switch vPick(4) {
		case 0:
			q.N = new(big.Int).Neg(q.N)
		case 1:
			q.E = -q.E
		}
		der, _ = MarshalPKIXPublicKey(&q)
	case nil:
		der = vFill(vPick(80))
	default:
		der, _ = MarshalPKIXPublicKey(pub)
	}
	return mangle(mangle(der))
}

//@ harness C11
func hPKIXAny() {
	der := vBytesGen("der", anyPKIX)
	pub, err := ParsePKIXPublicKey(der)
	if err != nil {
		vAssert("an error comes without a key", pub == nil)
		return
	}
	spki, rest, ok := vDerRead(der, 0x30)
	vAssert("only a complete structure without trailing data is accepted", ok && len(rest) == 0)
	alg, spki, ok := vDerRead(spki, 0x30)
	vAssert("the structure holds an algorithm", ok)
	bits, _, ok := vDerRead(spki, 3)
	vAssert("and a bit string", ok && len(bits) > 0)
	oid, params, ok := vDerRead(alg, 6)
	vAssert("the algorithm is named by an object identifier", ok)
	switch k := pub.(type) {
	case *rsa.PublicKey:
		vAssert("an RSA key is accepted under the RSA identifier only", specKeyAlgo(oid) == "RSA")
		vAssert("with positive parameters", k.N.Sign() > 0 && k.E > 0)
	case *ecdsa.PublicKey:
		vAssert("an ECDSA key is accepted under the EC identifier only", specKeyAlgo(oid) == "EC")
		c, _, ok := vDerRead(params, 6)
		vAssert("the parameters of an ECDSA key name a curve", ok)
		vAssert("the curve of an ECDSA key is the named one", k.Curve != sm2.SM2P256V1() && k.Curve == specCurveOfParams(c))
		vAssert("the point of an ECDSA key is on the curve", k.Curve.IsOnCurve(k.X, k.Y))
	case *sm2.PublicKey:
		vAssert("an SM2 key is accepted under the EC identifier only", specKeyAlgo(oid) == "EC")
		c, _, ok := vDerRead(params, 6)
		vAssert("the parameters of an SM2 key name a curve", ok)
		vAssert("the curve of an SM2 key is the named one", k.Curve == sm2.SM2P256V1() && k.Curve == specCurveOfParams(c))
		vAssert("the point of an SM2 key is on the curve", k.Curve.IsOnCurve(k.X, k.Y))
	case ed25519.PublicKey:
		vAssert("an Ed25519 key is accepted under its identifier only", specKeyAlgo(oid) == "Ed25519")
		vAssert("without parameters and with 32 bytes", len(params) == 0 && len(k) == 32)
	case *dsa.PublicKey:
		vAssert("a DSA key is accepted under its identifier only", specKeyAlgo(oid) == "DSA")
		vAssert("with positive DSA parameters", k.Y.Sign() > 0 && k.P.Sign() > 0 && k.Q.Sign() > 0 && k.G.Sign() > 0)
	default:
		vAssert("no other kind of key is accepted", false)
	}
}

//@ harness C11
func hPKCS1PubAny() {
	der := vBytesGen("der", func() []byte {
		k := *poolPub(0, vPick(2)).(*rsa.PublicKey)
		switch vPick(4) {
		case 0:
			k.N = new(big.Int).Neg(k.N)
		case 1:
			k.E = -k.E
		case 2:
			k.E = 1 << 40
		}
		return mangle(MarshalPKCS1PublicKey(&k))
	})
	pub, err := ParsePKCS1PublicKey(der)
	if err == nil {
		_, rest, ok := vDerRead(der, 0x30)
		vAssert("only positive parameters without trailing data are accepted", ok && len(rest) == 0 && pub.N.Sign() > 0 && pub.E > 0 && pub.E <= 1<<31-1)
	} else {
		vAssert("an error comes without a key", pub == nil)
	}
}
