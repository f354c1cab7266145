package x509

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
)

// ---- private keys ----

var pool3 *rsa.PrivateKey

func rsa3() *rsa.PrivateKey {
	if pool3 == nil {
		pool3, _ = rsa.GenerateMultiPrimeKey(rand.Reader, 3, 1024)
	}
	return pool3
}

func vRSAKey() *rsa.PrivateKey {
	var src *rsa.PrivateKey
	np := 2 + vChoice("extra prime", 2)
	gen := func(f func(k *rsa.PrivateKey) *big.Int) func() *big.Int {
		return func() *big.Int {
			if src == nil {
				src = keys().rsa[vPick(2)]
				if np == 3 {
					src = rsa3()
				}
			}
			return f(src)
		}
	}
	n := vBigGen("n", gen(func(k *rsa.PrivateKey) *big.Int { return k.N }))
	d := vBigGen("d", gen(func(k *rsa.PrivateKey) *big.Int { return k.D }))
	p := vBigGen("p", gen(func(k *rsa.PrivateKey) *big.Int { return k.Primes[0] }))
	q := vBigGen("q", gen(func(k *rsa.PrivateKey) *big.Int { return k.Primes[1] }))
	primes := []*big.Int{p, q}
	if np == 3 {
		primes = append(primes, vBigGen("r", gen(func(k *rsa.PrivateKey) *big.Int { return k.Primes[2] })))
	}
	e := vIntGen("e", 1, 1<<31-1, func() int { return 65537 })
	key := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: e}, D: d, Primes: primes}
	vAssume(key.Validate() == nil)
	return key
}

func vECKey() *ecdsa.PrivateKey {
	c := namedCurve(vChoice("curve", 4))
	d := curveScalar("d", c)
	vAssume(scalarIn(d, c))
	x, y := c.ScalarBaseMult(d.Bytes())
	return &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}, D: d}
}

func vSM2Key() *sm2.PrivateKey {
	c := sm2.SM2P256V1()
	d := curveScalar("d", c)
	vAssume(scalarIn(d, c))
	x, y := c.ScalarBaseMult(d.Bytes())
	return &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: c, X: x, Y: y}, D: d}
}

// an arbitrary valid private key of the kind: 0 RSA, 1 ECDSA, 2 SM2, 3 Ed25519
func vPrivateKey() crypto.PrivateKey {
	switch vChoice("kind", 4) {
	case 0:
		return vRSAKey()
	case 1:
		return vECKey()
	case 2:
		return vSM2Key()
	}
	return ed25519.NewKeyFromSeed(vFixedBytes("seed", 32))
}

// asserts that b is the same key as a
func vSamePrivate(a, b any) {
	switch p := a.(type) {
	case *rsa.PrivateKey:
		q, ok := b.(*rsa.PrivateKey)
		vAssert("the same kind of key (RSA)", ok)
		vAssert("the same modulus", p.N.Cmp(q.N) == 0)
		vAssert("the same exponents", p.E == q.E && p.D.Cmp(q.D) == 0)
		vAssert("the same number of primes", len(p.Primes) == len(q.Primes))
		for i := range p.Primes {
			vAssert("the same primes", p.Primes[i].Cmp(q.Primes[i]) == 0)
		}
	case *ecdsa.PrivateKey:
		q, ok := b.(*ecdsa.PrivateKey)
		vAssert("the same kind of key (ECDSA)", ok)
		vAssert("the same curve", p.Curve == q.Curve)
		vAssert("the same scalar", p.D.Cmp(q.D) == 0)
		vAssert("the same point", p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0)
	case *sm2.PrivateKey:
		q, ok := b.(*sm2.PrivateKey)
		vAssert("the same kind of key (SM2)", ok)
		vAssert("the same curve", p.Curve == q.Curve)
		vAssert("the same scalar", p.D.Cmp(q.D) == 0)
		vAssert("the same point", p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0)
	case ed25519.PrivateKey:
		q, ok := b.(ed25519.PrivateKey)
		vAssert("the same kind of key (Ed25519)", ok)
		vAssert("the same seed and public part", vEqual(p, q))
	}
}

//@ harness C10
func hPKCS8Round() {
	key := vPrivateKey()
	der, err := MarshalPKCS8PrivateKey(key)
	vAssert("a supported key is encoded", err == nil)
	got, err := ParsePKCS8PrivateKey(der)
	vAssert("the encoding is parsed", err == nil)
	vSamePrivate(key, got)
}

//@ harness C10
func hSEC1Round() {
	key := vECKey()
	der, err := MarshalECPrivateKey(key)
	vAssert("a supported key is encoded", err == nil)
	got, err := ParseECPrivateKey(der)
	vAssert("the encoding is parsed", err == nil)
	vSamePrivate(key, got)
}

//@ harness C10
func hPKCS1PrivRound() {
	key := vRSAKey()
	der := MarshalPKCS1PrivateKey(key)
	got, err := ParsePKCS1PrivateKey(der)
	vAssert("the encoding is parsed", err == nil)
	vSamePrivate(key, got)
	more := vBytes("more")
	vAssume(len(more) > 0)
	got, err = ParsePKCS1PrivateKey(cat(der, more))
	vAssert("trailing data is rejected", err != nil && got == nil)
}

func anyEC(sec1 bool) func() []byte {
	return func() []byte {
		k := *keys().ec[vPick(8)]
		s := *keys().sm[vPick(4)]
		n := k.Params().N
		if sec1 {
			vPickScalar(&k.D, n)
			oid, _ := oidFromNamedCurve(k.Curve)
			if vPick(5) == 0 {
				oid = nil
			}
			if vPick(5) == 0 {
				oid = oidNamedCurveSM2P256
			}
			b, _ := safeEC(&k, oid)
			return mangle(b)
		}
		switch vPick(5) {
		case 0:
			vPickScalar(&s.D, s.Params().N)
			b, _ := safe8(&s)
			return mangle(b)
		case 1:
			b, _ := safe8(keys().ed[vPick(2)])
			return mangle(b)
		case 2:
			b, _ := safe8(keys().rsa[vPick(2)])
			return mangle(b)
		}
		vPickScalar(&k.D, n)
		b, _ := safe8(&k)
		return mangle(b)
	}
}

func vPickScalar(d **big.Int, n *big.Int) {
	switch vPick(6) {
	case 0:
		*d = new(big.Int)
	case 1:
		*d = n
	case 2:
		*d = new(big.Int).Add(n, big.NewInt(int64(vPick(4))))
	case 3:
		*d = new(big.Int).Sub(n, big.NewInt(1))
	}
}

func safe8(k any) (b []byte, err error) {
	defer func() { recover() }()
	return MarshalPKCS8PrivateKey(k)
}

func safeEC(k *ecdsa.PrivateKey, oid []int) (b []byte, err error) {
	defer func() { recover() }()
	return marshalECPrivateKeyWithOID(k, oid)
}

// what is required of an EC key accepted from the SEC 1 structure der, with the
// curve named by the enclosing structure if outer names one
func vAcceptedEC(key any, outer, der []byte) {
	in, _, ok := vDerRead(der, 0x30)
	vAssert("an EC key comes from a SEC 1 structure", ok)
	vc, in, ok := vDerRead(in, 2)
	vAssert("with a version", ok)
	ver, ok := vDerReadInt(vc)
	vAssert("of version 1", ok && ver.Cmp(big.NewInt(1)) == 0)
	sc, in, ok := vDerRead(in, 4)
	vAssert("with a scalar", ok)
	name := outer
	if name == nil {
		// encoding/asn1 does not compare the length of the explicit tag with its content
		ctx, more, ok := vDerRead(in, 0xa0)
		vAssert("a curve is named", ok)
		name, _, ok = vDerRead(cat(ctx, more), 6)
		vAssert("by an object identifier", ok)
	}
	d := new(big.Int).SetBytes(sc)
	switch k := key.(type) {
	case *ecdsa.PrivateKey:
		vAssert("the curve of an ECDSA key is the named one", k.Curve != sm2.SM2P256V1() && k.Curve == specCurveOfParams(name))
		vAssert("the scalar of an ECDSA key is the encoded one", k.D.Cmp(d) == 0)
		vAssert("the scalar of an ECDSA key is in range", scalarIn(k.D, k.Curve))
		x, y := k.Curve.ScalarBaseMult(d.Bytes())
		vAssert("the point of an ECDSA key belongs to the scalar", k.X.Cmp(x) == 0 && k.Y.Cmp(y) == 0)
	case *sm2.PrivateKey:
		vAssert("the curve of an SM2 key is the named one", k.Curve == sm2.SM2P256V1() && k.Curve == specCurveOfParams(name))
		vAssert("the scalar of an SM2 key is the encoded one", k.D.Cmp(d) == 0)
		vAssert("the scalar of an SM2 key is in range", scalarIn(k.D, k.Curve))
		x, y := k.Curve.ScalarBaseMult(d.Bytes())
		vAssert("the point of an SM2 key belongs to the scalar", k.X.Cmp(x) == 0 && k.Y.Cmp(y) == 0)
	default:
		vAssert("no other kind of key is accepted", false)
	}
}

//@ harness C10
func hSEC1Any() {
	der := vBytesGen("der", anyEC(true))
	key, err := ParseECPrivateKey(der)
	if err != nil {
		vAssert("an error comes without a key", key == nil)
		return
	}
	vAcceptedEC(key, nil, der)
}

//@ harness C10
func hPKCS8Any() {
	der := vBytesGen("der", anyEC(false))
	key, err := ParsePKCS8PrivateKey(der)
	if err != nil {
		vAssert("an error comes without a key", key == nil)
		return
	}
	in, _, ok := vDerRead(der, 0x30)
	vAssert("only a complete structure is accepted", ok)
	_, in, ok = vDerRead(in, 2)
	vAssert("the structure starts with a version", ok)
	alg, in, ok := vDerRead(in, 0x30)
	vAssert("the structure holds an algorithm", ok)
	priv, _, ok := vDerRead(in, 4)
	vAssert("and an octet string", ok)
	oid, params, ok := vDerRead(alg, 6)
	vAssert("the algorithm is named by an object identifier", ok)
	switch k := key.(type) {
	case *rsa.PrivateKey:
		vAssert("an RSA key is accepted under the RSA identifier only", specKeyAlgo(oid) == "RSA")
		vAssert("and is valid", k.Validate() == nil)
	case ed25519.PrivateKey:
		vAssert("an Ed25519 key is accepted under its identifier only", specKeyAlgo(oid) == "Ed25519")
		vAssert("without parameters", len(params) == 0)
		seed, _, ok := vDerRead(priv, 4)
		vAssert("from a seed of 32 bytes", ok && len(seed) == 32)
		vAssert("and is the key of that seed", vEqual(k, ed25519.NewKeyFromSeed(seed)))
	default:
		vAssert("an EC key is accepted under the EC identifier only", specKeyAlgo(oid) == "EC")
		outer, _, ok := vDerRead(params, 6)
		if ok {
			_, ok = vDerReadOID(outer)
		}
		if !ok { // other parameters are ignored
			outer = nil
		}
		vAcceptedEC(key, outer, priv)
	}
}
