package x509

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"

	"github.com/mmdet/mcrypto/sm2"
)

// specSigned: the primitive of the declared algorithm accepts the signature over
// exactly these bytes under a key of the algorithm's type; MD5 and SHA-1
// algorithms are for signing only, every other combination is refused.
func specSigned(algo SignatureAlgorithm, m, sig []byte, pub crypto.PublicKey) bool {
	d256, d384, d512 := sha256.Sum256(m), sha512.Sum384(m), sha512.Sum512(m)
	switch k := pub.(type) {
	case *rsa.PublicKey:
		pss := &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}
		switch algo {
		case SHA256WithRSA:
			return rsa.VerifyPKCS1v15(k, crypto.SHA256, d256[:], sig) == nil
		case SHA384WithRSA:
			return rsa.VerifyPKCS1v15(k, crypto.SHA384, d384[:], sig) == nil
		case SHA512WithRSA:
			return rsa.VerifyPKCS1v15(k, crypto.SHA512, d512[:], sig) == nil
		case SHA256WithRSAPSS:
			return rsa.VerifyPSS(k, crypto.SHA256, d256[:], sig, pss) == nil
		case SHA384WithRSAPSS:
			return rsa.VerifyPSS(k, crypto.SHA384, d384[:], sig, pss) == nil
		case SHA512WithRSAPSS:
			return rsa.VerifyPSS(k, crypto.SHA512, d512[:], sig, pss) == nil
		}
	case *ecdsa.PublicKey:
		switch algo {
		case ECDSAWithSHA256:
			return ecdsa.VerifyASN1(k, d256[:], sig)
		case ECDSAWithSHA384:
			return ecdsa.VerifyASN1(k, d384[:], sig)
		case ECDSAWithSHA512:
			return ecdsa.VerifyASN1(k, d512[:], sig)
		}
	case *sm2.PublicKey:
		if algo == SM2WithSM3 && k.Curve == sm2.SM2P256V1() {
			return sm2.Verify(k, m, nil, sig)
		}
	case ed25519.PublicKey:
		if algo == PureEd25519 {
			return ed25519.Verify(k, m, sig)
		}
	}
	return false
}

// every declared algorithm, and any other number
func vAlgo() SignatureAlgorithm {
	a := vChoice("algorithm", int(SM2WithSM3)+2)
	if a <= int(SM2WithSM3) {
		return SignatureAlgorithm(a)
	}
	n := vIntGen("unknown algorithm", -1<<62, 1<<62, func() int { return 17 + vPick(99) })
	vAssume(n < 0 || n > int(SM2WithSM3))
	return SignatureAlgorithm(n)
}

// an arbitrary public key: 0 RSA, 1 ECDSA, 2 SM2, 3 Ed25519, then kinds that are never accepted
func vPubKey(kind, idx int) crypto.PublicKey {
	switch kind {
	case 0:
		return &rsa.PublicKey{N: vBigGen("N", func() *big.Int { return new(big.Int).Set(poolPub(0, idx).(*rsa.PublicKey).N) }),
			E: vIntGen("E", 1, 1<<31-1, func() int { return poolPub(0, idx).(*rsa.PublicKey).E })}
	case 1:
		c := elliptic.P256()
		x := vBigGen("X", func() *big.Int { return new(big.Int).Set(keys().ec[2+idx%2].X) })
		y := vBigGen("Y", func() *big.Int { return new(big.Int).Set(keys().ec[2+idx%2].Y) })
		return &ecdsa.PublicKey{Curve: c, X: x, Y: y}
	case 2:
		x, y := vPoint("P", func() (x, y *big.Int) { k := poolPub(2, idx).(*sm2.PublicKey); return new(big.Int).Set(k.X), new(big.Int).Set(k.Y) })
		return &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: x, Y: y}
	case 3:
		k := vBytesGen("ed25519 key", func() []byte { return append([]byte{}, poolPub(3, idx).(ed25519.PublicKey)...) })
		vAssume(len(k) == ed25519.PublicKeySize)
		return ed25519.PublicKey(k)
	case 4:
		return &sm2.PublicKey{Curve: elliptic.P256(), X: big.NewInt(1), Y: big.NewInt(2)}
	case 5:
		return &dsa.PublicKey{}
	}
	return nil
}

func ecPoolKey(kind, idx int) crypto.PrivateKey {
	if kind == 1 {
		return keys().ec[2+idx%2]
	}
	return poolKey(kind, idx)
}

//@ harness C12
//@ contract checkSignature
func hCheckSignature() {
	kind := vChoice("key kind", 7)
	idx := vIntGen("pool", 0, 3, func() int { return vPick(4) })
	pub := vPubKey(kind, idx)
	algo := vAlgo()
	m := vBytes("signed")
	sig := vBytesGen("signature", func() []byte {
		if kind > 3 {
			return vFill(64)
		}
		return mangle(poolSign(ecPoolKey(kind, idx), algo, m))
	})
	m0, sig0 := cat(m), cat(sig)
	err := checkSignature(algo, m, sig, pub)
	vAssert("accepted exactly when the declared algorithm's primitive accepts", (err == nil) == specSigned(algo, m0, sig0, pub))
	vAssert("arguments unchanged", vEqual(m, m0) && vEqual(sig, sig0))
}

// entry points: every one checks the signature over the signed part of its own object
//
//@ harness C12
//@ contract Certificate.CheckSignature Certificate.CheckCRLSignature Certificate.CheckSignatureFrom CertificateRequest.CheckSignature
func hCheckEntry() {
	kind := vChoice("key kind", 7)
	idx := vIntGen("pool", 0, 3, func() int { return vPick(4) })
	pub := vPubKey(kind, idx)
	algo := vAlgo()
	m := vBytes("signed")
	sig := vBytesGen("signature", func() []byte {
		if kind > 3 {
			return vFill(64)
		}
		return mangle(poolSign(ecPoolKey(kind, idx), algo, m))
	})
	ok := specSigned(algo, m, sig, pub)
	switch vChoice("entry", 4) {
	case 0:
		c := &Certificate{PublicKey: pub}
		vAssert("Certificate.CheckSignature", (c.CheckSignature(algo, m, sig) == nil) == ok)
	case 1:
		r := &CertificateRequest{PublicKey: pub, SignatureAlgorithm: algo, RawTBSCertificateRequest: m, Signature: sig}
		vAssert("CertificateRequest.CheckSignature", (r.CheckSignature() == nil) == ok)
	case 3:
		c := &Certificate{PublicKey: pub}
		crl := &pkix.CertificateList{TBSCertList: pkix.TBSCertificateList{Raw: m}, SignatureValue: asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)}}
		i := vChoice("oid", 13)
		crl.SignatureAlgorithm.Algorithm = sigOIDs[i]
		vAssume(specAlgoOfOID(sigOIDs[i]) == algo)
		vAssert("Certificate.CheckCRLSignature", (c.CheckCRLSignature(crl) == nil) == ok)
	case 2:
		parent := &Certificate{PublicKey: pub, Version: vInt("version", 1, 3), BasicConstraintsValid: vBool("bc valid"), IsCA: vBool("CA"),
			KeyUsage: KeyUsage(vInt("key usage", 0, 511)), PublicKeyAlgorithm: PublicKeyAlgorithm(vInt("declared key type", 0, 4))}
		child := &Certificate{RawTBSCertificate: m, SignatureAlgorithm: algo, Signature: sig}
		may := !(parent.Version == 3 && !parent.BasicConstraintsValid) && !(parent.BasicConstraintsValid && !parent.IsCA) &&
			(parent.KeyUsage == 0 || parent.KeyUsage&KeyUsageCertSign != 0) && parent.PublicKeyAlgorithm != UnknownPublicKeyAlgorithm
		vAssert("Certificate.CheckSignatureFrom", (child.CheckSignatureFrom(parent) == nil) == (may && ok))
	}
}

// specAlgoOfOID: the algorithm an identifier declares (RSA-PSS apart)
func specAlgoOfOID(oid asn1.ObjectIdentifier) SignatureAlgorithm {
	for _, d := range []struct {
		oid  []int
		algo SignatureAlgorithm
	}{
		{[]int{1, 2, 840, 113549, 1, 1, 4}, MD5WithRSA},
		{[]int{1, 2, 840, 113549, 1, 1, 5}, SHA1WithRSA},
		{[]int{1, 2, 840, 113549, 1, 1, 11}, SHA256WithRSA},
		{[]int{1, 2, 840, 113549, 1, 1, 12}, SHA384WithRSA},
		{[]int{1, 2, 840, 113549, 1, 1, 13}, SHA512WithRSA},
		{[]int{1, 2, 840, 10040, 4, 3}, DSAWithSHA1},
		{[]int{2, 16, 840, 1, 101, 3, 4, 3, 2}, DSAWithSHA256},
		{[]int{1, 2, 840, 10045, 4, 1}, ECDSAWithSHA1},
		{[]int{1, 2, 840, 10045, 4, 3, 2}, ECDSAWithSHA256},
		{[]int{1, 2, 840, 10045, 4, 3, 3}, ECDSAWithSHA384},
		{[]int{1, 2, 840, 10045, 4, 3, 4}, ECDSAWithSHA512},
		{[]int{1, 3, 101, 112}, PureEd25519},
		{[]int{1, 2, 156, 10197, 1, 501}, SM2WithSM3},
	} {
		if oid.Equal(d.oid) {
			return d.algo
		}
	}
	return UnknownSignatureAlgorithm
}

var sigOIDs = []asn1.ObjectIdentifier{oidSignatureMD5WithRSA, oidSignatureSHA1WithRSA, oidSignatureSHA256WithRSA, oidSignatureSHA384WithRSA, oidSignatureSHA512WithRSA,
	oidSignatureDSAWithSHA1, oidSignatureDSAWithSHA256, oidSignatureECDSAWithSHA1, oidSignatureECDSAWithSHA256, oidSignatureECDSAWithSHA384, oidSignatureECDSAWithSHA512,
	oidSignatureEd25519, oidSignatureSM2WithSM3, oidSignatureMD2WithRSA, oidISOSignatureSHA1WithRSA, {1, 2, 3}, {}, {1, 2, 156, 10197, 1, 301}, {1, 2, 840, 113549, 1, 1}}

//@ harness C12
//@ contract getSignatureAlgorithmFromAI
func hSigAlgoFromAI() {
	var ai pkix.AlgorithmIdentifier
	ai.Algorithm = sigOIDs[vChoice("oid", len(sigOIDs))]
	ai.Parameters.FullBytes = vBytesGen("parameters", func() []byte { return [][]byte{nil, {5, 0}, {48, 0}, {1}}[vPick(4)] })
	want := specAlgoOfOID(ai.Algorithm)
	if want == PureEd25519 && len(ai.Parameters.FullBytes) != 0 {
		want = UnknownSignatureAlgorithm
	}
	vAssert("declared algorithm", getSignatureAlgorithmFromAI(ai) == want)
}

// RSA-PSS identifiers name an algorithm only with the parameters of that algorithm
//
//@ harness C12
func hSigAlgoPSS() {
	hashes := []SignatureAlgorithm{SHA256WithRSAPSS, SHA384WithRSAPSS, SHA512WithRSAPSS}
	oids := []asn1.ObjectIdentifier{oidSHA256, oidSHA384, oidSHA512, oidSM3}
	i, j := vChoice("hash", 4), vChoice("mgf hash", 4)
	salt := []int{32, 48, 64, 20}[vChoice("salt", 4)]
	trailer := 1 + vChoice("trailer", 2)
	null := asn1.RawValue{FullBytes: []byte{5, 0}}
	mgfOID := []asn1.ObjectIdentifier{oidMGF1, oidSHA256}[vChoice("mgf", 2)]
	mgf, err := asn1.Marshal(pkix.AlgorithmIdentifier{Algorithm: oids[j], Parameters: null})
	vAssume(err == nil)
	p := pssParameters{Hash: pkix.AlgorithmIdentifier{Algorithm: oids[i], Parameters: null}, MGF: pkix.AlgorithmIdentifier{Algorithm: mgfOID, Parameters: asn1.RawValue{FullBytes: mgf}}, SaltLength: salt, TrailerField: trailer}
	b, err := asn1.Marshal(p)
	vAssume(err == nil)
	got := getSignatureAlgorithmFromAI(pkix.AlgorithmIdentifier{Algorithm: oidSignatureRSAPSS, Parameters: asn1.RawValue{FullBytes: b}})
	want := UnknownSignatureAlgorithm
	if i < 3 && i == j && salt == 32+16*i && trailer == 1 && mgfOID.Equal(oidMGF1) {
		want = hashes[i]
	}
	vAssert("algorithm of the PSS parameters", got == want)
}
