package x509

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
)

// ---- PKCS#7 signed data ----

func specSM3(m []byte) []byte {
	h := sm3.New()
	h.Write(m)
	return h.Sum(nil)
}

// the bytes signed for a set of attributes: the content of their DER SET OF
func specAttrs(attrs []attribute) []byte {
	b, err := asn1.Marshal(struct {
		A []attribute `asn1:"set"`
	}{attrs})
	vAssume(err == nil)
	c, _, ok := vDerRead(b, 0x30)
	vAssume(ok)
	return c
}

// the key matching the signer's certificate
var p7Certs []*Certificate

// a certificate with arbitrary identity and an arbitrary key
func vCert(kind int) *Certificate {
	i := vIntGen("pool", 0, 3, func() int { return vPick(4) })
	c := &Certificate{PublicKey: vPubKey(kind, i), SerialNumber: vBigGen("serial", func() *big.Int { return big.NewInt(int64(vPick(3))) }),
		RawIssuer: vBytesGen("issuer", func() []byte { return []byte{0x30, byte(vPick(2))} })}
	return c
}

func vAttr(content []byte) attribute {
	var a attribute
	a.Type = []asn1.ObjectIdentifier{oidAttributeMessageDigest, oidAttributeContentType, {1, 2, 3}}[vChoice("attribute", 3)]
	body := vBytesGen("attribute value", func() []byte {
		switch vPick(7) {
		case 0:
			return nil
		case 4:
			return vDerTLV(4, nil)
		case 1:
			return vDerTLV(4, vFill(32))
		case 2:
			return vDerTLV(4, specSM3(content)[:vPick(32)])
		case 3:
			return vDerTLV(5, nil)
		}
		return vDerTLV(4, specSM3(content))
	})
	a.Value = asn1.RawValue{Tag: 17, IsCompound: true, Bytes: body}
	return a
}

// specSigner: what is required of one signer of a message
func specSigner(p7 *PKCS7, s signerInfo) bool {
	signed := p7.Content
	if len(s.AuthenticatedAttributes) > 0 {
		found := false
		for _, a := range s.AuthenticatedAttributes {
			if a.Type.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}) {
				d, _, ok := vDerRead(a.Value.Bytes, 4)
				if !ok || !vEqual(d, specSM3(p7.Content)) {
					return false
				}
				found = true
				break
			}
		}
		if !found {
			return false
		}
		signed = specAttrs(s.AuthenticatedAttributes)
	}
	for _, c := range p7.Certificates {
		if c.SerialNumber.Cmp(s.IssuerAndSerialNumber.SerialNumber) == 0 && bytes.Equal(c.RawIssuer, s.IssuerAndSerialNumber.IssuerName.FullBytes) {
			return specSigned(SM2WithSM3, signed, s.EncryptedDigest, c.PublicKey)
		}
	}
	return false
}

func vSignerInfo(p7 *PKCS7, attrs int) signerInfo {
	var s signerInfo
	for i := 0; i < attrs; i++ {
		s.AuthenticatedAttributes = append(s.AuthenticatedAttributes, vAttr(p7.Content))
	}
	s.IssuerAndSerialNumber.SerialNumber = vBigGen("signer serial", func() *big.Int { return big.NewInt(int64(vPick(3))) })
	s.IssuerAndSerialNumber.IssuerName.FullBytes = vBytesGen("signer issuer", func() []byte { return []byte{0x30, byte(vPick(2))} })
	s.EncryptedDigest = vBytesGen("signature", func() []byte {
		m := p7.Content
		if attrs > 0 {
			m = specAttrs(s.AuthenticatedAttributes)
		}
		for i, k := range keys().sm {
			for _, c := range p7.Certificates {
				if p, ok := c.PublicKey.(*sm2.PublicKey); ok && p.X.Cmp(k.X) == 0 && vPick(4) > 0 {
					return mangle(poolSign(keys().sm[i], SM2WithSM3, m))
				}
			}
		}
		return vFill(70)
	})
	return s
}

// one signer is accepted exactly as specified
//
//@ harness C15
//@ contract verifySignature
func hVerifySigner() {
	p7 := &PKCS7{Content: vBytes("content")}
	for i := vChoice("certificates", 3); i > 0; i-- {
		p7.Certificates = append(p7.Certificates, vCert([]int{2, 1}[vChoice("key kind", 2)]))
	}
	s := vSignerInfo(p7, vChoice("attributes", 4))
	err := verifySignature(p7, s)
	if specSigner(p7, s) {
		vAssert("a genuine signer is accepted", err == nil)
	} else {
		vAssert("any other signer is rejected", err != nil)
	}
}

// a message is accepted only if it has a signer and every signer is accepted
//
//@ harness C15
//@ contract PKCS7.Verify
func hVerifyMessage() {
	p7 := &PKCS7{Content: vBytes("content")}
	for i := vChoice("certificates", 3); i > 0; i-- {
		p7.Certificates = append(p7.Certificates, vCert(2))
	}
	n := vChoice("signers", 4)
	good := 0
	for i := 0; i < n; i++ {
		s := vSignerInfo(p7, 0)
		p7.Signers = append(p7.Signers, s)
		if specSigner(p7, s) {
			good++
		}
	}
	err := p7.Verify()
	if n > 0 && good == n {
		vAssert("a message all of whose signers are genuine is accepted", err == nil)
	} else {
		vAssert("any other message is rejected", err != nil)
	}
}

// ParseCertificates, for the parsing of messages: certificates the harness knows
// come back as they are (certificates parse to themselves), anything else gives
// an error or certificates about which nothing is known
//
//@ summary ParseCertificates
func sumParseCertificates(der []byte) ([]*Certificate, error) {
	for _, c := range p7Certs {
		if vEqual(der, c.Raw) {
			d := *c
			return []*Certificate{&d}, nil
		}
	}
	if vBool("certificates do not parse") {
		return nil, errAny
	}
	return []*Certificate{vCert(2)}, nil
}

// what the library signs
//
//@ harness C14
//@ contract NewSignedData NewSignedDataCallBack getSignerInfoWithAttr getSignerInfoWithAttrCallback
func hSignMessage() {
	d := curveScalar("d", sm2.SM2P256V1())
	vAssume(scalarIn(d, sm2.SM2P256V1()))
	x, y := sm2.SM2P256V1().ScalarBaseMult(d.Bytes())
	priv := &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: sm2.SM2P256V1(), X: x, Y: y}, D: d}
	cert := vOwnCert(priv)
	data := vBytes("data")
	fails := false
	var out []byte
	var err error
	switch vChoice("signer", 4) {
	case 0:
		out, err = NewSignedData(cert, priv, data)
	case 1:
		out, err = NewSignedDataCallBack(cert, func(m []byte) ([]byte, error) {
			if vBool("callback fails") {
				fails = true
				return m, errSigner
			}
			return sm2.Sign(vRng, priv, m, nil)
		}, data)
	case 2:
		out, err = NewSignedData(cert, &ecdsa.PrivateKey{}, data)
		vAssert("another kind of key is refused", err != nil)
	case 3:
		out, err = NewSignedData(cert, nil, data)
		vAssert("no key is refused", err != nil)
	}
	if err != nil {
		vAssert("no message comes with an error", len(out) == 0)
		return
	}
	vAssert("a failing callback is reported", !fails)
	p7Certs = []*Certificate{cert}
	p7, err := ParsePKCS7(out)
	vAssert("the message is parsed", err == nil)
	vAssert("to the content", vEqual(p7.Content, data))
	vAssert("with one signer", len(p7.Signers) == 1)
	si := p7.Signers[0].IssuerAndSerialNumber
	vAssert("identified by the certificate", si.SerialNumber.Cmp(cert.SerialNumber) == 0 && vEqual(si.IssuerName.FullBytes, cert.RawIssuer))
	vAssert("and verifies", p7.Verify() == nil)
	vAssert("the certificate is found", p7.GetOnlySigner() != nil)
}

// a certificate for a key (when executed: a real one, which parses)
func vOwnCert(priv *sm2.PrivateKey) *Certificate {
	var own *Certificate
	vBigGen("executed", func() *big.Int {
		t := &Certificate{SerialNumber: big.NewInt(int64(vPick(300))), Subject: pkix.Name{CommonName: "p7"}, NotBefore: time.Unix(1600000000, 0), NotAfter: time.Unix(1700000000, 0)}
		der, err := CreateCertificate(vRng, t, t, &priv.PublicKey, &vSigner{priv: poolKey(2, 0)})
		if err == nil {
			own, err = ParseCertificate(der)
		}
		if err != nil {
			panic(err)
		}
		return nil
	})
	if own != nil {
		return own
	}
	return &Certificate{Raw: vDerTLV(0x30, vBytes("certificate")), RawIssuer: vDerTLV(0x30, vBytes("name")), SerialNumber: vBigGen("serial", func() *big.Int { return nil }), PublicKey: &priv.PublicKey}
}

// a parsed message is exactly one signed-data structure: nothing before, after
// or instead of it, and the content is the octet string found in it
//
//@ harness C15 lazy=CertificateList,signerInfo,AlgorithmIdentifier
//@ contract ParsePKCS7 parseSignedData
func hParseMessage() {
	data := vBytesGen("message", func() []byte {
		k := keys().sm[vPick(4)]
		m, err := NewSignedData(vOwnCert(k), k, vFill(vPick(40)))
		if err != nil {
			panic(err)
		}
		return mangle(m)
	})
	p7, err := ParsePKCS7(data)
	if err != nil {
		vAssert("no message comes with an error", p7 == nil)
		return
	}
	outer, rest, ok := vDerRead(data, 0x30)
	vAssert("a message is one SEQUENCE, without trailing data", ok && len(rest) == 0)
	oid, rest, ok := vDerRead(outer, 6)
	vAssert("of type signed data", ok && vEqual(oid, []byte{42, 129, 28, 207, 85, 6, 1, 4, 2, 2}))
	inner, _, ok := vDerRead(rest, 0xa0)
	vAssert("with explicit content", ok)
	sd, rest, ok := vDerRead(inner, 0x30)
	vAssert("which is one SEQUENCE, without trailing data", ok && len(rest) == 0)
	_, rest, ok = vDerRead(sd, 2)
	vAssert("with a version", ok)
	_, rest, ok = vDerRead(rest, 0x31)
	vAssert("and digest algorithms", ok)
	ci, _, ok := vDerRead(rest, 0x30)
	vAssert("and content information", ok)
	_, rest, ok = vDerRead(ci, 6)
	vAssert("which has a type", ok)
	if c, _, ok := vDerRead(rest, 0xa0); ok && len(c) > 0 {
		if o, _, ok := vDerRead(c, 4); ok {
			vAssert("the content is the octet string", vEqual(p7.Content, o))
		}
	} else {
		vAssert("no content, if there is none", len(p7.Content) == 0)
	}
}
