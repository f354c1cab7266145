package sm2

import (
	"errors"
	"io"
	"math/big"
)

// a public key point, possibly with short coordinates
func genPoint() (x, y *big.Int) {
	k := genScalar()
	if vPick(2) == 0 {
		k = genShortScalar()
	}
	return specCurve().ScalarBaseMult(k.Bytes())
}

//@ harness C03 nosum=(*PublicKey).SM3Digest
//@ contract z appendBigIntTo32Bytes (*PublicKey).SM3Digest
func hDigest() {
	x, y := vPoint("pub", genPoint)
	pub := &PublicKey{Curve: SM2P256V1(), X: x, Y: y}
	uid := vBytesGen("uid", genID)
	msg := vBytes("msg")
	uid0, msg0 := cat(uid), cat(msg)
	e, err := pub.SM3Digest(msg, uid)
	if len(uid) > 8191 {
		vAssert("identity too long is rejected", err != nil && e == nil)
	} else {
		vAssert("digest computed", err == nil)
		vAssert("digest is SM3(Z || M)", vEqual(e, specDigest(x, y, uid0, msg0)))
	}
	vAssert("arguments unchanged", vEqual(uid, uid0) && vEqual(msg, msg0))
}

func genID() []byte {
	switch vPick(6) {
	case 0:
		return nil
	case 1:
		return []byte("1234567812345678")
	case 2:
		return vFill(8185 + vPick(14))
	case 3:
		return vFill([]int{31, 32, 33, 255, 256, 8191, 8192}[vPick(7)])
	}
	return vFill(vPick(70))
}

// ---- signing ----

// what a signer did with the nonces offered (executed runs only)
type craft struct {
	d *big.Int
	k *big.Int
	n int
}

// nonce stream whose first block encodes c.k
func (c *craft) reader() []byte {
	c.k = genScalar()
	return genNonceBlock(c.k)
}

// digest for which the nonce c.k is unusable: r = 0, r + k = n or s = 0
func (c *craft) digest() []byte {
	if c.k == nil {
		return vFill(32)
	}
	n := specN()
	x, _ := specCurve().ScalarBaseMult(c.k.Bytes())
	r := new(big.Int)
	switch vPick(6) {
	case 0:
		r = bSub(n, c.k)
	case 1: // s = (k - r d)/(1+d) = 0
		r = bMul(c.k, new(big.Int).ModInverse(c.d, n))
	case 2:
	case 3:
		r = bigI(int64(1 + vPick(5)))
	default:
		return vFill([]int{0, 1, 20, 31, 32, 32, 32, 33, 48, 64}[vPick(10)])
	}
	e := bMod(bSub(r, x), n)
	if vPick(3) == 0 { // the same residue, not reduced
		return bAdd(e, bMul(n, bigI(int64(vPick(1000))))).FillBytes(make([]byte, 40))
	}
	return fix32(e)
}

// exactly one of: a valid signature, an error caused by the reader
func checkSigned(what string, priv *PrivateKey, digest []byte, rd *vRdr, r, s *big.Int, err error) {
	if err != nil {
		vAssert(what+": fails only when the randomness fails", vReaderFailed(rd))
		vAssert(what+": no signature with an error", r == nil && s == nil)
		return
	}
	vAssert(what+": failing randomness is reported", !vReaderFailed(rd))
	n := specN()
	vAssert(what+": r in [1,n-1]", r.Sign() > 0 && r.Cmp(n) < 0)
	vAssert(what+": s in [1,n-1]", s.Sign() > 0 && s.Cmp(n) < 0)
	vAssert(what+": the signature satisfies the verification equation", specVerify(priv.X, priv.Y, digest, r, s))
}

//@ harness C05 nosum=SignDigestRS
//@ contract SignDigestRS nextk
func hSignDigestRS() {
	priv := anyPriv()
	c := &craft{d: priv.D}
	rd := vReaderGen("rand", c.reader)
	digest := vBytesGen("digest", c.digest)
	digest0 := cat(digest)
	d0 := new(big.Int).Set(priv.D)
	x0, y0 := new(big.Int).Set(priv.X), new(big.Int).Set(priv.Y)
	r, s, err := SignDigestRS(rd, priv, digest)
	checkSigned("SignDigestRS", priv, digest0, rd, r, s, err)
	vAssert("the key and digest are unchanged", bEq(priv.D, d0) && bEq(priv.X, x0) && bEq(priv.Y, y0) && vEqual(digest, digest0))
	checkGlobals()
}

func checkGlobals() {
	c := SM2P256V1()
	vAssert("curve parameters unchanged", bEq(c.P, specP()) && bEq(c.N, specN()) && bEq(c.A, specA()) && bEq(c.B, specB()) && bEq(c.Gx, specGx()) && bEq(c.Gy, specGy()) && bEq(one, bigI(1)))
}

// every signing entry point
//
//@ harness C05
//@ contract SignDigest SignRS Sign (*PrivateKey).SignDigestRS (*PrivateKey).SignDigest (*PrivateKey).SignRS (*PrivateKey).Sign
func hSignForms() {
	priv := anyPriv()
	c := &craft{d: priv.D}
	rd := vReaderGen("rand", c.reader)
	var r, s *big.Int
	var sig, e []byte
	var err error
	switch f := vChoice("form", 7); f {
	case 0, 1, 2:
		digest := vBytesGen("digest", c.digest)
		e = cat(digest)
		switch f {
		case 0:
			r, s, err = priv.SignDigestRS(rd, digest)
		case 1:
			sig, err = SignDigest(rd, priv, digest)
		case 2:
			sig, err = priv.SignDigest(rd, digest)
		}
	default:
		msg := vBytes("msg")
		uid := vBytesGen("uid", genID)
		e = specDigest(priv.X, priv.Y, cat(uid), cat(msg))
		switch f {
		case 3:
			r, s, err = SignRS(rd, priv, msg, uid)
		case 4:
			r, s, err = priv.SignRS(rd, msg, uid)
		case 5:
			sig, err = Sign(rd, priv, msg, uid)
		case 6:
			sig, err = priv.Sign(rd, msg, uid)
		}
		if len(uid) > 8191 {
			vAssert("identity too long", err != nil && r == nil && s == nil && sig == nil)
			return
		}
	}
	if sig != nil {
		vAssert("an encoded signature comes without an error", err == nil)
		var err2 error
		r, s, err2 = UnmarshalSign(sig)
		vAssert("the encoded signature decodes", err2 == nil)
	}
	checkSigned("form", priv, e, rd, r, s, err)
}

// scalars outside [1,n-2] are refused
//
//@ harness C05 nosum=SignDigestRS
//@ contract SignDigestRS SignDigest SignRS Sign
func hSignBadKey() {
	d := vBigGen("d", func() *big.Int {
		switch vPick(5) {
		case 0:
			return bigI(int64(-vPick(3)))
		case 1:
			return bAdd(specN(), bigI(int64(vPick(4)-1)))
		case 2:
			return bSub(bMul(specN(), bigI(int64(1+vPick(4)))), bigI(1))
		case 3:
			return bAdd(specN(), genScalar())
		}
		return bSub(bigI(0), genScalar())
	})
	vAssume(d.Sign() <= 0 || d.Cmp(bSub(specN(), bigI(2))) > 0)
	priv := &PrivateKey{PublicKey: PublicKey{Curve: SM2P256V1(), X: specGx(), Y: specGy()}, D: d}
	rd := vReader("rand")
	in := vBytes("in")
	if vBool("digest form") {
		if vBool("rs") {
			r, s, err := priv.SignDigestRS(rd, in)
			vAssert("rejected", err != nil && r == nil && s == nil)
		} else {
			sig, err := priv.SignDigest(rd, in)
			vAssert("rejected", err != nil && sig == nil)
		}
		return
	}
	if vBool("rs") {
		r, s, err := priv.SignRS(rd, in, nil)
		vAssert("rejected", err != nil && r == nil && s == nil)
	} else {
		sig, err := priv.Sign(rd, in, nil)
		vAssert("rejected", err != nil && sig == nil)
	}
}

// ---- verification ----

// a candidate signature for a digest under a key chosen so that interesting
// boundaries are reached (executed runs only)
type forge struct {
	x, y   *big.Int
	e      []byte
	r, s   *big.Int
	nudged bool
}

// the two points of the curve with x = 0
func zeroXPoint() (x, y *big.Int) {
	p := specP()
	y = new(big.Int).ModSqrt(specB(), p)
	if vPick(2) == 0 {
		y = bSub(p, y)
	}
	return new(big.Int), y
}

func (f *forge) point() (x, y *big.Int) {
	n := specN()
	c := specCurve()
	f.r, f.s = genScalar(), genScalar()
	mode := vPick(8)
	if mode == 0 { // r + s = 0 mod n
		f.s = bSub(n, f.r)
	}
	if mode == 1 {
		f.s = bigI(int64(vPick(3)))
	}
	t := bMod(bAdd(f.r, f.s), n)
	switch {
	case t.Sign() != 0 && mode == 2:
		// s G + t P = (0, sqrt b)
		f.x, f.y = pointFor(zeroXPoint, f.s, t)
	case t.Sign() != 0 && mode == 3:
		// s G + t P is the point at infinity: P = -(s/t) G
		k := bMod(bMul(bSub(n, bMod(f.s, n)), new(big.Int).ModInverse(t, n)), n)
		f.x, f.y = c.ScalarBaseMult(k.Bytes())
	default:
		f.x, f.y = genPoint()
	}
	if f.x.Sign() == 0 && f.y.Sign() == 0 {
		f.x, f.y = specGx(), specGy()
	}
	// the digest that makes (r,s) valid
	x1, y1 := c.ScalarBaseMult(f.s.Bytes())
	x2, y2 := c.ScalarMult(f.x, f.y, t.Bytes())
	x3, _ := c.Add(x1, y1, x2, y2)
	e := bMod(bSub(f.r, x3), n)
	f.e = fix32(e)
	switch vPick(6) {
	case 0:
		f.e = bAdd(e, bMul(n, bigI(int64(1+vPick(1000))))).FillBytes(make([]byte, 40))
	case 1:
		f.e = e.Bytes()
	case 2:
		f.e = vFill(32)
	}
	// perturb the signature
	switch vPick(9) {
	case 0:
		f.r = bAdd(f.r, n)
	case 1:
		f.s = bAdd(f.s, n)
	case 2:
		f.r = bSub(f.r, n)
	case 3:
		f.s = bSub(f.s, n)
	case 4:
		f.r, f.s = f.s, f.r
	case 5:
		switch vPick(4) {
		case 0:
			f.r = bigI(0)
		case 1:
			f.s = bigI(0)
		case 2:
			f.r = n
		case 3:
			f.s = n
		}
	}
	return f.x, f.y
}

// P with s G + t P = Q
func pointFor(q func() (x, y *big.Int), s, t *big.Int) (x, y *big.Int) {
	n := specN()
	c := specCurve()
	qx, qy := q()
	sx, sy := c.ScalarBaseMult(s.Bytes())
	if sy.Sign() != 0 {
		sy = bSub(specP(), sy)
	}
	dx, dy := c.Add(qx, qy, sx, sy)
	return c.ScalarMult(dx, dy, new(big.Int).ModInverse(t, n).Bytes())
}

//@ harness C04 nosum=VerifyDigestRS
//@ contract VerifyDigestRS (*PublicKey).VerifyDigestRS
func hVerifyDigestRS() {
	f := &forge{}
	x, y := vPoint("pub", f.point)
	digest := vBytesGen("digest", func() []byte { return f.e })
	r := vBigGen("r", func() *big.Int { return f.r })
	s := vBigGen("s", func() *big.Int { return f.s })
	r0, s0, digest0 := new(big.Int).Set(r), new(big.Int).Set(s), cat(digest)
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	pub := &PublicKey{Curve: SM2P256V1(), X: x, Y: y}
	var ok bool
	if vBool("method") {
		ok = pub.VerifyDigestRS(digest, r, s)
	} else {
		ok = VerifyDigestRS(pub, digest, r, s)
	}
	vAssert("accepts exactly the signatures of the standard", ok == specVerify(x0, y0, digest0, r0, s0))
	vAssert("arguments unchanged", bEq(r, r0) && bEq(s, s0) && vEqual(digest, digest0) && bEq(pub.X, x0) && bEq(pub.Y, y0))
	checkGlobals()
}

// the message forms, for a signature that is valid or close to valid for some
// message (executed runs sign with a known key)
//
//@ harness C04 nosum=VerifyRS,VerifyDigestRS
//@ contract VerifyRS (*PublicKey).VerifyRS
func hVerifyRS() {
	g := &signGen{}
	x, y := vPoint("pub", g.point)
	msg := vBytesGen("msg", g.message)
	uid := vBytesGen("uid", g.identity)
	r := vBigGen("r", g.rr)
	s := vBigGen("s", g.ss)
	r0, s0, msg0, uid0 := new(big.Int).Set(r), new(big.Int).Set(s), cat(msg), cat(uid)
	pub := &PublicKey{Curve: SM2P256V1(), X: x, Y: y}
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	var ok bool
	if vBool("method") {
		ok = pub.VerifyRS(msg, uid, r, s)
	} else {
		ok = VerifyRS(pub, msg, uid, r, s)
	}
	want := false
	if len(uid0) <= 8191 {
		want = specVerify(x0, y0, specDigest(x0, y0, uid0, msg0), r0, s0)
	}
	vAssert("accepts exactly the signatures of the standard", ok == want)
	vAssert("arguments unchanged", bEq(r, r0) && bEq(s, s0) && vEqual(msg, msg0) && vEqual(uid, uid0) && bEq(pub.X, x0) && bEq(pub.Y, y0))
	checkGlobals()
}

// the encoded forms agree with the pair forms
//
//@ harness C04
//@ contract Verify VerifyDigest (*PublicKey).Verify (*PublicKey).VerifyDigest
func hVerifyEncoded() {
	g := &signGen{}
	x, y := vPoint("pub", g.point)
	msg := vBytesGen("msg", g.message)
	uid := vBytesGen("uid", g.identity)
	sig := vBytesGen("sig", g.sig)
	msg0, uid0, sig0 := cat(msg), cat(uid), cat(sig)
	pub := &PublicKey{Curve: SM2P256V1(), X: x, Y: y}
	want := false
	r, s, err := UnmarshalSign(sig0)
	f := vChoice("form", 4)
	var ok bool
	if f < 2 {
		if err == nil && len(uid0) <= 8191 {
			want = validSig(x, y, specDigest(x, y, uid0, msg0), r, s)
		}
		if f == 0 {
			ok = Verify(pub, msg, uid, sig)
		} else {
			ok = pub.Verify(msg, uid, sig)
		}
	} else {
		if err == nil {
			want = validSig(x, y, msg0, r, s)
		}
		if f == 2 {
			ok = VerifyDigest(pub, msg, sig)
		} else {
			ok = pub.VerifyDigest(msg, sig)
		}
	}
	vAssert("the encoded form accepts exactly the decodable valid signatures", ok == want)
	vAssert("arguments unchanged", vEqual(msg, msg0) && vEqual(uid, uid0) && vEqual(sig, sig0))
}

// honest and nearly honest message signatures (executed runs only)
type signGen struct {
	d, x, y  *big.Int
	uid, msg []byte
	r, s     *big.Int
	digest   bool
}

func (g *signGen) point() (x, y *big.Int) {
	g.d = genScalar()
	if vPick(2) == 0 {
		g.d = genShortScalar()
	}
	if bEq(g.d, bSub(specN(), bigI(1))) {
		g.d = bigI(1)
	}
	g.x, g.y = specCurve().ScalarBaseMult(g.d.Bytes())
	g.uid, g.msg = genID(), vFill(vPick(80))
	e := specDigest(g.x, g.y, g.uid, g.msg)
	if vPick(2) == 0 {
		e = g.msg
	}
	g.r, g.s = specSign(g.d, genScalar(), e)
	return g.x, g.y
}

// the signing equations; for generators
func specSign(d, k *big.Int, digest []byte) (r, s *big.Int) {
	n := specN()
	x, _ := specCurve().ScalarBaseMult(k.Bytes())
	r = bMod(bAdd(os2i(digest), x), n)
	s = bMod(bMul(bSub(k, bMul(r, d)), new(big.Int).ModInverse(bAdd(d, bigI(1)), n)), n)
	return
}
func (g *signGen) message() []byte {
	if vPick(8) == 0 {
		return g.uid
	}
	return g.msg
}
func (g *signGen) identity() []byte {
	if vPick(8) == 0 {
		return g.msg
	}
	return g.uid
}
func (g *signGen) rr() *big.Int {
	switch vPick(9) {
	case 0:
		return g.s
	case 1:
		return bAdd(g.r, specN())
	case 2:
		return bSub(g.r, specN())
	}
	return g.r
}
func (g *signGen) ss() *big.Int {
	switch vPick(9) {
	case 0:
		return g.r
	case 1:
		return bAdd(g.s, specN())
	case 2:
		return bSub(g.s, specN())
	}
	return g.s
}
func (g *signGen) sig() []byte {
	return perturbSig(derSig(g.rr(), g.ss()))
}

// ---- signature encoding ----

func derTLV(tag byte, c []byte) []byte { return vDerTLV(tag, c) }
func derSig(r, s *big.Int) []byte {
	return vDerTLV(0x30, cat(vDerTLV(2, vDerInt(r)), vDerTLV(2, vDerInt(s))))
}

// the string is the encoding of some pair
func isEncoding(sig []byte) bool {
	body, rest, ok := vDerRead(sig, 0x30)
	if !ok || len(rest) != 0 {
		return false
	}
	a, rest, ok := vDerRead(body, 2)
	if !ok {
		return false
	}
	if _, ok = vDerReadInt(a); !ok {
		return false
	}
	b, rest, ok := vDerRead(rest, 2)
	if !ok {
		return false
	}
	if _, ok = vDerReadInt(b); !ok {
		return false
	}
	return len(rest) == 0
}

// malformed variants (executed runs only)
func perturbSig(sig []byte) []byte {
	if len(sig) < 8 {
		return sig
	}
	body := sig[2:]
	if sig[1] == 0x81 {
		body = sig[3:]
	}
	switch vPick(16) {
	case 0:
		return cat(sig, vFill(1+vPick(3)))
	case 1:
		return sig[:vPick(len(sig))]
	case 2: // trailing data inside
		return derTLV(0x30, cat(body, vFill(1+vPick(3))))
	case 3: // non-minimal integer
		return derTLV(0x30, cat([]byte{2, body[1] + 1, 0}, body[2:]))
	case 4: // non-minimal length
		if len(body) < 128 {
			return cat([]byte{0x30, 0x81, byte(len(body))}, body)
		}
	case 5:
		return derTLV(0x31, body)
	case 6:
		return derTLV(0x30, cat([]byte{3}, body[1:]))
	case 7: // three integers
		return derTLV(0x30, cat(body, []byte{2, 1, 1}))
	case 8: // one integer
		return derTLV(0x30, body[:2+int(body[1])])
	case 9: // indefinite length
		return cat([]byte{0x30, 0x80}, body, []byte{0, 0})
	case 10:
		b := cat(sig)
		b[vPick(len(b))] ^= 1 << uint(vPick(8))
		return b
	case 11: // sequence wrapped
		return derTLV(0x30, sig)
	}
	return sig
}

func genAnyInt() *big.Int {
	switch vPick(5) {
	case 0:
		return bigI(int64(vPick(600) - 300))
	case 1:
		return bSub(bigI(0), genScalar())
	case 2:
		return new(big.Int).Lsh(bigI(int64(1+vPick(3))), uint(vPick(300)))
	case 3:
		return os2i(vFill(vPick(70)))
	}
	return genScalar()
}

//@ harness C06
//@ contract MarshalSign UnmarshalSign
func hMarshal() {
	r := vBigGen("r", genAnyInt)
	s := vBigGen("s", genAnyInt)
	r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
	sig, err := MarshalSign(r, s)
	vAssert("every pair is encodable", err == nil)
	vAssert("the encoding is the DER SEQUENCE of the two INTEGERs", vEqual(sig, derSig(r0, s0)))
	r1, s1, err := UnmarshalSign(sig)
	vAssert("decoding the encoding succeeds", err == nil)
	vAssert("decoding returns the same pair", bEq(r1, r0) && bEq(s1, s0))
	vAssert("arguments unchanged", bEq(r, r0) && bEq(s, s0))
}

//@ harness C06
//@ contract UnmarshalSign
func hUnmarshal() {
	sig := vBytesGen("sig", func() []byte { return perturbSig(derSig(genAnyInt(), genAnyInt())) })
	sig0 := cat(sig)
	r, s, err := UnmarshalSign(sig)
	vAssert("input unchanged", vEqual(sig, sig0))
	if err != nil {
		vAssert("no pair with an error", r == nil && s == nil)
		vAssert("only non-encodings are rejected", !isEncoding(sig0))
		return
	}
	vAssert("the accepted string is exactly the encoding of the result", vEqual(sig0, derSig(r, s)))
}

// ---- contracts used by callers ----

// SM3Digest returns SM3(Z || M) or an error for identities that do not fit
//
//@ summary (*PublicKey).SM3Digest
func sumSM3Digest(pub *PublicKey, msg, uid []byte) ([]byte, error) {
	if len(uid) > 8191 {
		return nil, errors.New("contract")
	}
	return specDigest(pub.X, pub.Y, uid, msg), nil
}

// SignDigestRS refuses scalars outside [1,n-2]; otherwise it reports a failure
// of the reader or returns the signature of some usable nonce
//
//@ summary SignDigestRS
func sumSignDigestRS(rand io.Reader, priv *PrivateKey, digest []byte) (r, s *big.Int, err error) {
	n := specN()
	if priv.D.Sign() <= 0 || priv.D.Cmp(bSub(n, bigI(2))) > 0 {
		return nil, nil, errors.New("contract")
	}
	if _, err := io.ReadFull(rand, make([]byte, 40)); err != nil {
		return nil, nil, err
	}
	k := vBig("k", bigI(1), bSub(n, bigI(1)))
	r, s = specSign(priv.D, k, digest)
	vAssume(r.Sign() != 0 && s.Sign() != 0 && bMod(bAdd(r, k), n).Sign() != 0)
	return r, s, nil
}

//@ opaque
func validSig(x, y *big.Int, digest []byte, r, s *big.Int) bool {
	return specVerify(x, y, digest, r, s)
}

//@ summary VerifyDigestRS
func sumVerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
	vAssert("precondition of VerifyDigestRS: the key is a point of the curve", specCurve().IsOnCurve(pub.X, pub.Y))
	return validSig(pub.X, pub.Y, digest, r, s)
}

//@ summary VerifyRS
func sumVerifyRS(pub *PublicKey, in, uid []byte, r, s *big.Int) bool {
	vAssert("precondition of VerifyRS: the key is a point of the curve", specCurve().IsOnCurve(pub.X, pub.Y))
	if len(uid) > 8191 {
		return false
	}
	return validSig(pub.X, pub.Y, specDigest(pub.X, pub.Y, uid, in), r, s)
}
