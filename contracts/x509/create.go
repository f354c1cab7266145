package x509

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"io"
	"math/big"
	"time"

	"github.com/mmdet/mcrypto/sm2"
)

// ---- what is signed ----

const (
	pkcs1OID  = "\x2a\x86\x48\x86\xf7\x0d\x01\x01"
	ansiX962  = "\x2a\x86\x48\xce\x3d\x04"
	nistHash  = "\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02"
	mgf1OID   = "\x06\x09" + pkcs1OID + "\x08"
	nullParam = "\x05\x00"
)

func pssParam(hash, salt byte) string {
	alg := "\x30\x0d" + nistHash + string([]byte{hash}) + nullParam
	return "\x30\x34\xa0\x0f" + alg + "\xa1\x1c\x30\x1a" + mgf1OID + alg + "\xa2\x03\x02\x01" + string([]byte{salt})
}

// the content of the AlgorithmIdentifier of a signature algorithm (RFC 3279, 4055, 5758, 8410, GM/T 0015)
func specAlgID(algo SignatureAlgorithm) string {
	switch algo {
	case MD5WithRSA:
		return "\x06\x09" + pkcs1OID + "\x04" + nullParam
	case SHA1WithRSA:
		return "\x06\x09" + pkcs1OID + "\x05" + nullParam
	case SHA256WithRSA:
		return "\x06\x09" + pkcs1OID + "\x0b" + nullParam
	case SHA384WithRSA:
		return "\x06\x09" + pkcs1OID + "\x0c" + nullParam
	case SHA512WithRSA:
		return "\x06\x09" + pkcs1OID + "\x0d" + nullParam
	case SHA256WithRSAPSS:
		return "\x06\x09" + pkcs1OID + "\x0a" + pssParam(1, 32)
	case SHA384WithRSAPSS:
		return "\x06\x09" + pkcs1OID + "\x0a" + pssParam(2, 48)
	case SHA512WithRSAPSS:
		return "\x06\x09" + pkcs1OID + "\x0a" + pssParam(3, 64)
	case ECDSAWithSHA1:
		return "\x06\x07" + ansiX962 + "\x01"
	case ECDSAWithSHA256:
		return "\x06\x08" + ansiX962 + "\x03\x02"
	case ECDSAWithSHA384:
		return "\x06\x08" + ansiX962 + "\x03\x03"
	case ECDSAWithSHA512:
		return "\x06\x08" + ansiX962 + "\x03\x04"
	case PureEd25519:
		return "\x06\x03\x2b\x65\x70"
	case SM2WithSM3:
		return "\x06\x08\x2a\x81\x1c\xcf\x55\x01\x83\x75"
	}
	return ""
}

// the algorithm a key signs with when requested; unknown if there is none
func specSigningAlgo(pub crypto.PublicKey, requested SignatureAlgorithm) SignatureAlgorithm {
	var own []SignatureAlgorithm
	switch k := pub.(type) {
	case *rsa.PublicKey:
		own = []SignatureAlgorithm{SHA256WithRSA, MD5WithRSA, SHA1WithRSA, SHA384WithRSA, SHA512WithRSA, SHA256WithRSAPSS, SHA384WithRSAPSS, SHA512WithRSAPSS}
	case *ecdsa.PublicKey:
		switch k.Curve {
		case elliptic.P224(), elliptic.P256():
			own = []SignatureAlgorithm{ECDSAWithSHA256, ECDSAWithSHA1, ECDSAWithSHA384, ECDSAWithSHA512}
		case elliptic.P384():
			own = []SignatureAlgorithm{ECDSAWithSHA384, ECDSAWithSHA1, ECDSAWithSHA256, ECDSAWithSHA512}
		case elliptic.P521():
			own = []SignatureAlgorithm{ECDSAWithSHA512, ECDSAWithSHA1, ECDSAWithSHA256, ECDSAWithSHA384}
		}
	case *sm2.PublicKey:
		if k.Curve == sm2.SM2P256V1() {
			own = []SignatureAlgorithm{SM2WithSM3}
		}
	case ed25519.PublicKey:
		own = []SignatureAlgorithm{PureEd25519}
	}
	for i, a := range own {
		if a == requested || requested == UnknownSignatureAlgorithm && i == 0 {
			return a
		}
	}
	return UnknownSignatureAlgorithm
}

func signOnly(a SignatureAlgorithm) bool {
	return a == MD5WithRSA || a == SHA1WithRSA || a == ECDSAWithSHA1
}

func specSigHash(a SignatureAlgorithm) Hash {
	switch a {
	case MD5WithRSA:
		return MD5
	case SHA1WithRSA, ECDSAWithSHA1:
		return SHA1
	case SHA256WithRSA, SHA256WithRSAPSS, ECDSAWithSHA256:
		return SHA256
	case SHA384WithRSA, SHA384WithRSAPSS, ECDSAWithSHA384:
		return SHA384
	case SHA512WithRSA, SHA512WithRSAPSS, ECDSAWithSHA512:
		return SHA512
	case SM2WithSM3:
		return SM3
	}
	return 0
}

// a public key of one of the kinds: 0 RSA, 1-4 ECDSA on a NIST curve, 5 SM2, 6 Ed25519, then unsupported ones
func vSignerPub(kind, idx int) crypto.PublicKey {
	switch {
	case kind == 0:
		return vPubKey(0, idx)
	case kind <= 4:
		x := vBigGen("X", func() *big.Int { return new(big.Int).Set(keys().ec[2*(kind-1)+idx%2].X) })
		y := vBigGen("Y", func() *big.Int { return new(big.Int).Set(keys().ec[2*(kind-1)+idx%2].Y) })
		vAssume(namedCurve(kind - 1).IsOnCurve(x, y))
		return &ecdsa.PublicKey{Curve: namedCurve(kind - 1), X: x, Y: y}
	case kind <= 6:
		return vPubKey(kind-3, idx)
	}
	return vPubKey(kind-3, idx) // SM2 key on another curve, DSA, none
}

func signerPoolKey(kind, idx int) crypto.PrivateKey {
	switch {
	case kind == 0:
		return poolKey(0, idx)
	case kind <= 4:
		return keys().ec[2*(kind-1)+idx%2]
	}
	return poolKey(kind-3, idx)
}

//@ harness C13
//@ contract signingParamsForPublicKey
func hSigningParams() {
	kind := vChoice("key kind", 10)
	idx := vIntGen("pool", 0, 3, func() int { return vPick(4) })
	pub := vSignerPub(kind, idx)
	algo := vAlgo()
	want := specSigningAlgo(pub, algo)
	h, ai, err := signingParamsForPublicKey(pub, algo)
	if want == UnknownSignatureAlgorithm {
		vAssert("unsupported combinations are refused", err != nil)
		return
	}
	vAssert("supported combinations are not refused", err == nil)
	vAssert("the digest is that of the algorithm", h == specSigHash(want))
	der, err := asn1.Marshal(ai)
	vAssert("the identifier can be encoded", err == nil)
	vAssert("the identifier is that of the algorithm", vEqual(der, vDerTLV(0x30, []byte(specAlgID(want)))))
}

// a signer that may fail; what it returns is accepted by the primitive of its
// key over the digest (or, for SM2 and Ed25519, the message) with the options it was given
type honestSigner struct {
	pub   crypto.PublicKey
	priv  func() crypto.PrivateKey
	calls int
	failed bool
	sig   []byte
}

func (s *honestSigner) Public() crypto.PublicKey { return s.pub }

func (s *honestSigner) Sign(_ io.Reader, in []byte, opts crypto.SignerOpts) ([]byte, error) {
	s.calls++
	sig := vBytesGen("signature", func() []byte {
		b, err := (&vSigner{priv: s.priv()}).Sign(nil, in, opts)
		if err != nil {
			b = vFill(8)
		}
		return b
	})
	s.failed = vBool("the signer fails")
	if s.failed {
		return sig, errSigner
	}
	ok := false
	switch k := s.pub.(type) {
	case *rsa.PublicKey:
		if pss, isPSS := opts.(*rsa.PSSOptions); isPSS {
			ok = rsa.VerifyPSS(k, pss.Hash, in, sig, pss) == nil
		} else {
			ok = rsa.VerifyPKCS1v15(k, opts.HashFunc(), in, sig) == nil
		}
	case *ecdsa.PublicKey:
		ok = ecdsa.VerifyASN1(k, in, sig)
	case *sm2.PublicKey:
		ok = k.Curve == sm2.SM2P256V1() && sm2.Verify(k, in, nil, sig)
	case ed25519.PublicKey:
		ok = opts.HashFunc() == 0 && ed25519.Verify(k, in, sig)
	}
	vAssume(ok)
	s.sig = sig
	return sig, nil
}

// asserts that der is one signed object: the part to be signed, the algorithm and
// the signature, which the signer made and the library accepts; inner tells
// where the signed part repeats the algorithm
func vSignedObject(der []byte, err error, s *honestSigner, algo SignatureAlgorithm) (tbs []byte) {
	want := specSigningAlgo(s.pub, algo)
	if err != nil {
		vAssert("an error comes without an object", len(der) == 0)
		return nil
	}
	vAssert("unsupported combinations are refused", want != UnknownSignatureAlgorithm)
	vAssert("a failure of the signer is reported", !s.failed && s.calls == 1)
	obj, rest, ok := vDerRead(der, 0x30)
	vAssert("the result is one structure", ok && len(rest) == 0)
	content, tail, ok := vDerRead(obj, 0x30)
	vAssert("it starts with the signed part", ok)
	alg, tail, ok := vDerRead(tail, 0x30)
	vAssert("the declared algorithm is the requested one or the default of the key", ok && vEqual(alg, []byte(specAlgID(want))))
	bits, tail, ok := vDerRead(tail, 3)
	vAssert("it ends with a bit string", ok && len(tail) == 0 && len(bits) > 0 && bits[0] == 0)
	vAssert("which is the signature", vEqual(bits[1:], s.sig))
	tbs = vDerTLV(0x30, content)
	if !signOnly(want) {
		vAssert("the signature is accepted over the signed part", specSigned(want, tbs, bits[1:], s.pub))
	}
	return content
}

var errAny = errors.New("any")

func vSignerOf(kind int) *honestSigner {
	idx := vIntGen("pool", 0, 3, func() int { return vPick(4) })
	pub := vSignerPub(kind, idx)
	return &honestSigner{pub: pub, priv: func() crypto.PrivateKey { return signerPoolKey(kind, idx) }}
}

func vTime(name string) time.Time {
	return time.Unix(int64(vIntGen(name, -1<<40, 1<<40, func() int { return 1600000000 + 1000*vPick(1<<30) })), 0)
}

func vName(name string) []byte {
	return vBytesGen(name, func() []byte {
		b, _ := asn1.Marshal(pkix.Name{CommonName: string([]byte{'a' + byte(vPick(26))}), Organization: []string{"x"}}.ToRDNSequence())
		return b
	})
}

//@ harness C13
//@ contract CreateCertificate
func hCreateCertificate() {
	kind := vChoice("key kind", 10)
	s := vSignerOf(kind)
	algo := vAlgo()
	template := &Certificate{SignatureAlgorithm: algo, SerialNumber: vBigGen("serial", func() *big.Int { return big.NewInt(int64(vPick(1 << 30))) }),
		RawSubject: vName("subject"), SubjectKeyId: vBytes("subject key id")}
	if algo == 0 {
		template.NotBefore, template.NotAfter = vTime("not before"), vTime("not after")
	}
	parent := &Certificate{RawSubject: vName("issuer"), SubjectKeyId: vBytes("issuer key id")}
	vAssume(len(template.RawSubject) > 0 && len(parent.RawSubject) > 0)
	if vBool("parent has a key") {
		parent.PublicKey = s.pub
	}
	der, err := CreateCertificate(rand.Reader, template, parent, s.pub, s)
	vSignedObject(der, err, s, algo)
}

//@ harness C13
//@ contract CreateCertificateRequest
func hCreateRequest() {
	kind := vChoice("key kind", 10)
	s := vSignerOf(kind)
	algo := vAlgo()
	template := &CertificateRequest{SignatureAlgorithm: algo, RawSubject: vName("subject")}
	vAssume(len(template.RawSubject) > 0)
	if vBool("an attribute is given") {
		template.Attributes = []pkix.AttributeTypeAndValueSET{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 7}, Value: [][]pkix.AttributeTypeAndValue{{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "x"}}}}}
	}
	if vBool("an extension is given") {
		template.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 99}, Critical: vBool("critical"), Value: vBytes("extension")}}
	}
	der, err := CreateCertificateRequest(rand.Reader, template, s)
	vSignedObject(der, err, s, algo)
}

// an issuer name and revoked certificates
func vRevoked() []pkix.RevokedCertificate {
	var r []pkix.RevokedCertificate
	for i := vChoice("revoked", 3); i > 0; i-- {
		r = append(r, pkix.RevokedCertificate{SerialNumber: vBigGen("revoked serial", func() *big.Int { return big.NewInt(int64(vPick(1 << 30))) }), RevocationTime: vTime("revoked at")})
	}
	return r
}

//@ harness C13
//@ contract Certificate.CreateCRL
func hCreateCRL() {
	kind := vChoice("key kind", 10)
	s := vSignerOf(kind)
	c := &Certificate{SubjectKeyId: vBytes("key id")}
	c.Subject.CommonName = []string{"", "issuer"}[vChoice("issuer", 2)]
	der, err := c.CreateCRL(rand.Reader, s, vRevoked(), vTime("now"), vTime("expiry"))
	vSignedObject(der, err, s, UnknownSignatureAlgorithm)
}

//@ harness C13
//@ contract CreateRevocationList
func hCreateRevocationList() {
	kind := vChoice("key kind", 10)
	s := vSignerOf(kind)
	algo := vAlgo()
	c := &Certificate{SubjectKeyId: vBytes("key id"), KeyUsage: KeyUsage(vInt("key usage", 0, 511))}
	template := &RevocationList{SignatureAlgorithm: algo, Number: vBigGen("number", func() *big.Int { return big.NewInt(int64(vPick(1 << 30))) }),
		NextUpdate: time.Unix(1, 0)}
	if algo == 0 {
		template.ThisUpdate, template.NextUpdate, template.RevokedCertificates = vTime("this update"), vTime("next update"), vRevoked()
	}
	if algo == 0 && vBool("an extension is given") {
		template.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 99}, Critical: vBool("critical"), Value: vBytes("extension")}}
	}
	der, err := CreateRevocationList(rand.Reader, template, c, s)
	vSignedObject(der, err, s, algo)
}

// the whole way on generated templates: create, parse, check
//
//@ harness C13 bounded
func hCreateParse() {
	kind := vChoice("kind", 4)
	idx := vPick(8)
	priv := poolKey(kind, idx)
	pub := poolPub(kind, idx)
	s := &vSigner{priv: priv}
	algo := SignatureAlgorithm(0)
	if vPick(2) == 0 {
		algo = SignatureAlgorithm(vPick(18))
	}
	want := specSigningAlgo(pub, algo)
	name := pkix.Name{CommonName: "n", Organization: []string{"o"}, Country: []string{"CN"}}
	from := time.Unix(1600000000+int64(vPick(1<<30)), 0)
	template := &Certificate{SignatureAlgorithm: algo, SerialNumber: big.NewInt(int64(1 + vPick(1<<30))), Subject: name, NotBefore: from, NotAfter: from.Add(time.Hour),
		KeyUsage: KeyUsage(vPick(512)) | KeyUsageCRLSign | KeyUsageCertSign, SubjectKeyId: vFill(1 + vPick(20)), BasicConstraintsValid: true, IsCA: true}
	if vPick(2) == 0 {
		template.DNSNames = []string{"a.example"}
		template.ExtKeyUsage = []ExtKeyUsage{ExtKeyUsageAny, ExtKeyUsageServerAuth}
		template.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}}
		template.CRLDistributionPoints = []string{"http://x"}
	}
	var revoked []pkix.RevokedCertificate
	for i := vPick(4); i > 0; i-- {
		revoked = append(revoked, pkix.RevokedCertificate{SerialNumber: big.NewInt(int64(vPick(99))), RevocationTime: from})
	}
	refused := func(what string, err error) bool {
		if want == UnknownSignatureAlgorithm {
			vAssert(what+": unsupported combinations are refused", err != nil)
		} else if err != nil && kind == 0 && algo >= SHA512WithRSA { // a short key has no room for the longer digests
			return true
		} else {
			vAssert(what+": created", err == nil)
		}
		return err != nil
	}
	der, err := CreateCertificate(rand.Reader, template, template, pub, s)
	if !refused("certificate", err) {
		c, err := ParseCertificate(der)
		vAssert("certificate: parsed", err == nil)
		vAssert("certificate: algorithm", c.SignatureAlgorithm == want)
		vAssert("certificate: key", samePublic(pub, c.PublicKey))
		if !signOnly(want) {
			vAssert("certificate: signature", c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature) == nil)
			vAssert("certificate: signed by itself", c.CheckSignatureFrom(c) == nil)
		}
		if algo == 0 {
			der, err := c.CreateCRL(rand.Reader, s, revoked, from, from.Add(time.Hour))
			vAssert("list: created", err == nil)
			l, err := ParseCRL(der)
			vAssert("list: parsed", err == nil)
			vAssert("list: signature", c.CheckCRLSignature(l) == nil)
			vAssert("list: entries", len(l.TBSCertList.RevokedCertificates) == len(revoked))
		}
		der, err := CreateRevocationList(rand.Reader, &RevocationList{SignatureAlgorithm: algo, Number: big.NewInt(7), ThisUpdate: from, NextUpdate: from.Add(time.Hour), RevokedCertificates: revoked}, c, s)
		if !refused("revocation list", err) && !signOnly(want) {
			l, err := ParseDERCRL(der)
			vAssert("revocation list: parsed", err == nil)
			vAssert("revocation list: signature", c.CheckCRLSignature(l) == nil)
		}
	}
	der, err = CreateCertificateRequest(rand.Reader, &CertificateRequest{SignatureAlgorithm: algo, Subject: name, DNSNames: template.DNSNames}, s)
	if !refused("request", err) {
		r, err := ParseCertificateRequest(der)
		vAssert("request: parsed", err == nil)
		vAssert("request: algorithm", r.SignatureAlgorithm == want)
		vAssert("request: key", samePublic(pub, r.PublicKey))
		if !signOnly(want) {
			vAssert("request: signature", r.CheckSignature() == nil)
		}
	}
}
