package pkcs12

import (
	"crypto"
	"io"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"errors"
	"io/fs"
	"math/big"
	"os"
	"time"

	"github.com/mmdet/mcrypto/sm2"
	x "github.com/mmdet/mcrypto/x509"
)

// ---- what a file contains: keys and certificates ----

var (
	specCertBagOID = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 10, 1, 3}
	specKeyBagOID  = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 10, 1, 2}
	specX509OID    = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 22, 1}
)

// password encoding, proved in C19
//
//@ opaque
func absIsBMP(s string) bool { return specBMP([]rune(s)) }

//@ opaque
func absBMP(s string) []byte { return cat(specUnits([]rune(s)), []byte{0, 0}) }

//@ summary bmpString
func sumBMP(s string) ([]byte, error) {
	if !absIsBMP(s) {
		return nil, errors.New("not UCS-2")
	}
	return absBMP(s), nil
}

// The content of the file of a harness, as getSafeContents (proved by
// hSafeContents) finds it.
var (
	gFile, gPassword []byte
	gOpens           bool
	gBags            []safeBag
	gUpdated         []byte
)

//@ summary getSafeContents
func sumSafeContents(file, password []byte) ([]safeBag, []byte, error) {
	vAssert("the given file is opened with the encoded password", vEqual(file, gFile) && vEqual(password, gPassword))
	if !gOpens {
		return nil, nil, errors.New("does not open")
	}
	return gBags, gUpdated, nil
}

//@ opaque
func absCerts(der []byte) int {
	c, err := x.ParseCertificates(der)
	if err != nil {
		return -1
	}
	return len(c)
}

//@ summary x509:ParseCertificates
func sumParseCerts(der []byte) ([]*x.Certificate, error) {
	n := absCerts(der)
	switch {
	case n < 0:
		return nil, errors.New("certificates")
	case n == 0:
		return nil, nil
	case n == 1:
		return []*x.Certificate{{Raw: cat(der)}}, nil
	}
	return []*x.Certificate{{}, {}}, nil
}

//@ opaque
func absStdCerts(der []byte) int {
	c, err := stdx509.ParseCertificates(der)
	if err != nil {
		return -1
	}
	return len(c)
}

//@ summary crypto/x509:ParseCertificates
func sumParseStdCerts(der []byte) ([]*stdx509.Certificate, error) {
	n := absStdCerts(der)
	switch {
	case n < 0:
		return nil, errors.New("certificates")
	case n == 0:
		return nil, nil
	case n == 1:
		return []*stdx509.Certificate{{Raw: cat(der)}}, nil
	}
	return []*stdx509.Certificate{{}, {}}, nil
}

//@ opaque
func absKeyOK(der []byte) bool {
	_, err := x.ParsePKCS8PrivateKey(der)
	return err == nil
}

//@ opaque
func absKeyID(der []byte) int { return 0 }

// the kind of the keys of a harness
var gKind int

//@ summary x509:ParsePKCS8PrivateKey
func sumParseKey(der []byte) (interface{}, error) {
	if !absKeyOK(der) {
		return nil, errors.New("key")
	}
	d := big.NewInt(int64(absKeyID(der)))
	switch gKind {
	case 0:
		return &rsa.PrivateKey{D: d}, nil
	case 1:
		return &ecdsa.PrivateKey{D: d}, nil
	}
	return &sm2.PrivateKey{D: d}, nil
}

type specX509Bag struct {
	Id   asn1.ObjectIdentifier
	Data []byte `asn1:"tag:0,explicit"`
}

type specShrouded struct {
	Algorithm pkix.AlgorithmIdentifier
	Data      []byte
}

// the certificates' bytes in a bag
func specCertBag(b []byte) ([]byte, bool) {
	var v specX509Bag
	if !specParse(b, &v) || !v.Id.Equal(specX509OID) {
		return nil, false
	}
	return v.Data, true
}

// the key in a bag
func specKeyBag(b, password []byte) (interface{}, bool) {
	var v specShrouded
	if !specParse(b, &v) {
		return nil, false
	}
	der, ok := decrypted(v.Algorithm, v.Data, password)
	if !ok {
		return nil, false
	}
	var raw asn1.RawValue
	if !specParse(der, &raw) {
		return nil, false
	}
	k, err := x.ParsePKCS8PrivateKey(der)
	return k, err == nil
}

// an open file of at most max bags: password, and the file
func vFile(max, attrs int, std bool) (text string, file []byte) {
	text = vText()
	if !absIsBMP(text) {
		return text, vBytesGen("file", func() []byte { return vFill(vPick(20)) })
	}
	gPassword = absBMP(text)
	gOpens = vBool("opens")
	gUpdated = gPassword
	if vBool("empty password") {
		vAssume(vEqual(gPassword, []byte{0, 0}))
		gUpdated = nil
	}
	for n := vChoice("bags", max+1); n > 0; n-- {
		var b safeBag
		switch vChoice("bag kind", 3) {
		case 0:
			b.Id = specCertBagOID
			b.Value.Bytes = vBytesGen("certificate bag", func() []byte { return genCertBag(std) })
		case 1:
			b.Id = specKeyBagOID
			b.Value.Bytes = vBytesGen("key bag", func() []byte { return genKeyBag(gUpdated) })
		case 2:
			b.Id = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 10, 1, 1}
			b.Value.Bytes = vBytesGen("other bag", func() []byte { return vDerTLV(0x30, nil) })
		}
		if attrs > 0 {
			for n := vChoice("attributes", attrs+1); n > 0; n-- {
				b.Attributes = append(b.Attributes, vAttribute())
			}
		}
		gBags = append(gBags, b)
	}
	file = vBytesGen("file", func() []byte {
		var bags []specBag
		for _, b := range gBags {
			s := specBag{Id: b.Id, Value: explicit0(b.Value.Bytes)}
			for _, a := range b.Attributes {
				s.Attributes = append(s.Attributes, specAttr{a.Id, a.Value})
			}
			bags = append(bags, s)
		}
		n := vPick(len(bags) + 1)
		return genOpening([2][]specBag{bags[:n], bags[n:]})
	})
	gFile = file
	return text, file
}

func vAttribute() (a pkcs12Attribute) {
	a.Id = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 20}
	switch vChoice("attribute", 4) {
	case 1:
		a.Id = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 21}
	case 2:
		a.Id = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 17, 1}
	case 3:
		a.Id = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 22}
	}
	b := vBytesGen("attribute value", func() []byte {
		v := vFill(vPick(6))
		switch vPick(8) {
		case 0:
			return v
		case 1, 2, 3:
			return vDerTLV(4, v)
		case 4:
			return append(vDerTLV(0x1e, v), 5, 0)
		case 5:
			return vDerTLV(0x1e, cat(specUnits([]rune("name")), []byte{0, 0}[:2*vPick(2)]))
		}
		return vDerTLV(0x1e, v)
	})
	a.Value = asn1.RawValue{Tag: 17, IsCompound: true, Bytes: b}
	return a
}

// a file with the given bags that opens, or does not open, as gOpens says
func genOpening(bags [2][]specBag) []byte {
	var parts []specPart
	for _, b := range bags {
		data := derOf(b)
		if vPick(2) == 0 {
			parts = append(parts, specPart{specDataOID, explicit0(derOf(data))})
			continue
		}
		alg, enc := genEncrypt(data, gUpdated)
		parts = append(parts, specPart{specEncryptedOID, explicit0(derOf(specEncrypted{0, specEncryptedContent{specDataOID, alg, enc}}))})
	}
	content := derOf(parts)
	var pfx specPFX
	pfx.Version = 3
	pfx.AuthSafe = specPart{specDataOID, explicit0(derOf(content))}
	pfx.MacData.Mac.Algorithm.Algorithm = specSHA1OID
	pfx.MacData.MacSalt = vFill(8)
	pfx.MacData.Iterations = 1 + vPick(3)
	pfx.MacData.Mac.Digest = specMAC(pfx.MacData.MacSalt, pfx.MacData.Iterations, gUpdated, content)
	if !gOpens {
		pfx.MacData.Mac.Digest[vPick(20)] ^= 1
	}
	return derOf(pfx)
}

// an SM2 key as a crypto.Signer
type smSigner struct{ k *sm2.PrivateKey }

func (s smSigner) Public() crypto.PublicKey { return &s.k.PublicKey }
func (s smSigner) Sign(r io.Reader, in []byte, _ crypto.SignerOpts) ([]byte, error) {
	return sm2.Sign(r, s.k, in, nil)
}

var gPool struct {
	std, all [][]byte // certificates
	keys     [][]byte // PKCS#8
	rsa, ec  []interface{}
	sm       []*sm2.PrivateKey
	certs    []*x.Certificate
	stdCerts []*stdx509.Certificate
}

func pool() {
	if gPool.std != nil {
		return
	}
	for i := 0; i < 2; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &stdx509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(1000000000, 0), NotAfter: time.Unix(2000000000, 0)}
		der, err := stdx509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(err)
		}
		gPool.std = append(gPool.std, der)
		gPool.all = append(gPool.all, der)
		s, err := sm2.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		xt := &x.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "b"}, NotBefore: time.Unix(1000000000, 0), NotAfter: time.Unix(2000000000, 0), SignatureAlgorithm: x.SM2WithSM3}
		der, err = x.CreateCertificate(rand.Reader, xt, xt, &s.PublicKey, smSigner{s})
		if err != nil {
			panic(err)
		}
		gPool.all = append(gPool.all, der)
		r, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		gPool.rsa = append(gPool.rsa, r)
		gPool.ec = append(gPool.ec, k)
		gPool.sm = append(gPool.sm, s)
		for _, k := range []interface{}{r, k, s} {
			der, err := x.MarshalPKCS8PrivateKey(k)
			if err != nil {
				panic(err)
			}
			gPool.keys = append(gPool.keys, der)
		}
	}
	for _, der := range gPool.all {
		c, err := x.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		gPool.certs = append(gPool.certs, c)
	}
	for _, der := range gPool.std {
		c, err := stdx509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		gPool.stdCerts = append(gPool.stdCerts, c)
	}
}

func genCertBag(std bool) []byte {
	pool()
	certs := gPool.all
	if std {
		certs = gPool.std
	}
	v := specX509Bag{specX509OID, certs[vPick(len(certs))]}
	switch vPick(20) {
	case 0:
		v.Id = specDataOID
	case 1:
		v.Data = nil
	case 2:
		v.Data = cat(v.Data, certs[vPick(len(certs))])
	case 3:
		v.Data = v.Data[:len(v.Data)-1]
	}
	b := derOf(v)
	if vPick(20) == 0 {
		b = append(b, 5, 0)
	}
	return b
}

func genKeyBag(password []byte) []byte {
	pool()
	der := cat(gPool.keys[vPick(len(gPool.keys))])
	switch vPick(20) {
	case 0:
		der = append(der, 5, 0)
	case 1:
		der[vPick(len(der))] ^= 4
	case 2:
		der = der[:len(der)-1]
	}
	alg, enc := genEncrypt(der, password)
	switch vPick(20) {
	case 0:
		enc = enc[:len(enc)-1]
	case 1:
		alg.Algorithm = specDataOID
	}
	b := derOf(specShrouded{alg, enc})
	if vPick(20) == 0 {
		b = append(b, 5, 0)
	}
	return b
}

// Decoding returns exactly the certificates and the one key of the file.
//
//@ harness C20 absdecode nosum=DecodeAll
//@ contract DecodeAll decodeCertBag decodePkcs8ShroudedKeyBag
func hDecodeAll() {
	gKind = 2
	text, file := vFile(4, 0, false)
	file0 := cat(file)
	key, certs, err := DecodeAll(file, text)
	vAssert("file unchanged", vEqual(file, file0))
	if err != nil {
		vAssert("nothing is returned with an error", key == nil && certs == nil)
	}
	if !absIsBMP(text) || !gOpens {
		vAssert("not opened", err != nil)
		return
	}
	var want []*x.Certificate
	var wantKey interface{}
	for _, b := range gBags {
		switch {
		case b.Id.Equal(specCertBagOID):
			data, ok := specCertBag(b.Value.Bytes)
			if !ok {
				vAssert("malformed certificate bag", err != nil)
				return
			}
			c, e := x.ParseCertificates(data)
			if e != nil || len(c) != 1 {
				vAssert("not one certificate in a bag", err != nil)
				return
			}
			want = append(want, c[0])
		case b.Id.Equal(specKeyBagOID):
			if wantKey != nil {
				vAssert("more than one key", err != nil)
				return
			}
			k, ok := specKeyBag(b.Value.Bytes, gUpdated)
			if !ok {
				vAssert("malformed key bag", err != nil)
				return
			}
			wantKey = k
		}
	}
	if want == nil || wantKey == nil {
		vAssert("certificate or key missing", err != nil)
		return
	}
	vAssert("accepted", err == nil)
	vAssert("the key of the file", vSame(key, wantKey))
	vAssert("the certificates of the file in order", vSame(certs, want))
}

// likewise for a single certificate
//
//@ harness C20 absdecode
//@ contract Decode decodeCertBag decodePkcs8ShroudedKeyBag
func hDecode() {
	gKind = 2
	text, file := vFile(4, 0, true)
	file0 := cat(file)
	key, cert, err := Decode(file, text)
	vAssert("file unchanged", vEqual(file, file0))
	if err != nil {
		vAssert("nothing is returned with an error", key == nil && cert == nil)
	}
	if !absIsBMP(text) || !gOpens {
		vAssert("not opened", err != nil)
		return
	}
	var want *stdx509.Certificate
	var wantKey interface{}
	for _, b := range gBags {
		switch {
		case b.Id.Equal(specCertBagOID):
			data, ok := specCertBag(b.Value.Bytes)
			if !ok || want != nil {
				vAssert("malformed or second certificate bag", err != nil)
				return
			}
			c, e := stdx509.ParseCertificates(data)
			if e != nil || len(c) != 1 {
				vAssert("not one certificate in a bag", err != nil)
				return
			}
			want = c[0]
		case b.Id.Equal(specKeyBagOID):
			k, ok := specKeyBag(b.Value.Bytes, gUpdated)
			if !ok || wantKey != nil {
				vAssert("malformed or second key bag", err != nil)
				return
			}
			wantKey = k
		}
	}
	if want == nil || wantKey == nil {
		vAssert("certificate or key missing", err != nil)
		return
	}
	vAssert("accepted", err == nil)
	vAssert("the key of the file", vSame(key, wantKey))
	vAssert("the certificate of the file", vSame(cert, want))
}

//@ opaque
func absFromBMP(b []byte) string {
	t, _ := decodeBMPString(b)
	return t
}

// of even length: proved in C19
//
//@ summary decodeBMPString
func sumFromBMP(b []byte) (string, error) {
	if len(b)%2 != 0 {
		return "", errors.New("odd length")
	}
	return absFromBMP(b), nil
}

//@ opaque
func absPKCS1(d []byte) []byte { return nil }

//@ summary crypto/x509:MarshalPKCS1PrivateKey
func sumPKCS1(k *rsa.PrivateKey) []byte { return absPKCS1(k.D.Bytes()) }

//@ opaque
func absSEC1(d []byte) []byte { return nil }

//@ summary crypto/x509:MarshalECPrivateKey
func sumSEC1(k *ecdsa.PrivateKey) ([]byte, error) {
	b := absSEC1(k.D.Bytes())
	if len(b) == 0 {
		return nil, errors.New("key")
	}
	return b, nil
}

// header name and value of an attribute
func specHeader(a pkcs12Attribute) (k, v string, ok bool) {
	switch {
	case a.Id.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 21}):
		var id []byte
		if !specParse(a.Value.Bytes, &id) {
			return "", "", false
		}
		return "localKeyId", hex.EncodeToString(id), true
	case a.Id.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 20}):
		k = "friendlyName"
	case a.Id.Equal(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 311, 17, 1}):
		k = "Microsoft CSP Name"
	default:
		return "", "", false
	}
	var r asn1.RawValue
	if !specParse(a.Value.Bytes, &r) {
		return "", "", false
	}
	v, err := decodeBMPString(r.Bytes)
	return k, v, err == nil
}

// the PEM block of a bag, without headers
func specBlock(b safeBag, password []byte) (kind string, body []byte, ok bool) {
	switch {
	case b.Id.Equal(specCertBagOID):
		body, ok = specCertBag(b.Value.Bytes)
		return "CERTIFICATE", body, ok
	case b.Id.Equal(specKeyBagOID):
		k, ok := specKeyBag(b.Value.Bytes, password)
		if !ok {
			return "", nil, false
		}
		switch k := k.(type) {
		case *rsa.PrivateKey:
			return "PRIVATE KEY", stdx509.MarshalPKCS1PrivateKey(k), true
		case *ecdsa.PrivateKey:
			body, err := stdx509.MarshalECPrivateKey(k)
			return "PRIVATE KEY", body, err == nil
		}
	}
	return "", nil, false
}

// Conversion to PEM gives one block for each bag, with its attributes as headers.
//
//@ harness C20 absdecode
//@ contract ToPEM convertBag convertAttribute decodeCertBag decodePkcs8ShroudedKeyBag
func hToPEM() {
	gKind = vChoice("kind of keys", 3)
	checkPEM(2, 0)
}

// with attributes
//
//@ harness C20 absdecode
//@ contract ToPEM convertBag convertAttribute
func hToPEMHeaders() { checkPEM(1, 2) }

func checkPEM(bags, attrs int) {
	text, file := vFile(bags, attrs, false)
	file0 := cat(file)
	blocks, err := ToPEM(file, text)
	vAssert("file unchanged", vEqual(file, file0))
	if err != nil {
		vAssert("nothing is returned with an error", blocks == nil)
	}
	if !absIsBMP(text) || !gOpens {
		vAssert("not opened", err != nil)
		return
	}
	for i, b := range gBags {
		var names, vals []string
		for _, a := range b.Attributes {
			k, v, ok := specHeader(a)
			if !ok {
				vAssert("malformed attribute", err != nil)
				return
			}
			if len(names) == 1 && names[0] == k { // the last one counts
				vals[0] = v
				continue
			}
			names, vals = append(names, k), append(vals, v)
		}
		kind, body, ok := specBlock(b, gUpdated)
		if !ok {
			vAssert("malformed bag", err != nil)
			return
		}
		if err == nil {
			vAssert("one block for each bag", len(blocks) == len(gBags))
			vAssert("type of the block", blocks[i].Type == kind)
			vAssert("content of the block", vEqual(blocks[i].Bytes, body))
			vAssert("number of headers", len(blocks[i].Headers) == len(names))
			for j, k := range names {
				vAssert("header", blocks[i].Headers[k] == vals[j])
			}
		}
	}
	vAssert("accepted", err == nil)
}

var gRandFailed bool

//@ summary crypto/rand:Read
func sumRand(b []byte) (int, error) {
	copy(b, vFixedBytes("random", len(b)))
	if vBool("randomness fails") {
		gRandFailed = true
		return 0, errors.New("random")
	}
	return len(b), nil
}

//@ opaque
func absPKCS8(kind int, d []byte) []byte { return nil }

//@ summary x509:MarshalPKCS8PrivateKey
func sumMarshalKey(key interface{}) ([]byte, error) {
	var der []byte
	switch k := key.(type) {
	case *rsa.PrivateKey:
		der = absPKCS8(0, k.D.Bytes())
	case *ecdsa.PrivateKey:
		der = absPKCS8(1, k.D.Bytes())
	case *sm2.PrivateKey:
		der = absPKCS8(2, k.D.Bytes())
	default:
		return nil, errors.New("kind of key")
	}
	if len(der) == 0 {
		return nil, errors.New("key")
	}
	return der, nil
}

// a key of a kind: RSA, ECDSA, SM2, or something else
func vKey() interface{} {
	if vExec() {
		pool()
	}
	i := vPick(2)
	d := vBigGen("d", func() *big.Int { return big.NewInt(5) })
	switch vChoice("kind of key", 4) {
	case 0:
		if vExec() {
			return gPool.rsa[i]
		}
		return &rsa.PrivateKey{D: d}
	case 1:
		if vExec() {
			return gPool.ec[i]
		}
		return &ecdsa.PrivateKey{D: d}
	case 2:
		if vExec() {
			return gPool.sm[i]
		}
		return &sm2.PrivateKey{D: d}
	}
	return "key"
}

func specOwn(b safeBag, cert []byte) bool {
	if len(b.Attributes) != 1 || !b.Attributes[0].Id.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 21}) {
		return false
	}
	var id []byte
	return specParse(b.Attributes[0].Value.Bytes, &id) && vEqual(id, specSha1(cert))
}

// An encoded file is authentic for its password and contains the given key and
// certificates; every failure is reported.
//
//@ harness C20 nosum=Encode
//@ contract Encode makeCertBag makeSafeContents encodeCertBag encodePkcs8ShroudedKeyBag computeMac
func hEncode() {
	text := vText()
	key := vKey()
	cert := &x.Certificate{Raw: vBytesGen("certificate", func() []byte { return vDerTLV(0x30, vFill(vPick(20))) })}
	var ca []*stdx509.Certificate
	for n := vChoice("further certificates", 3); n > 0; n-- {
		ca = append(ca, &stdx509.Certificate{Raw: vBytesGen("further certificate", func() []byte { return vDerTLV(0x30, vFill(vPick(20))) })})
	}
	file, err := Encode(key, cert, ca, text)
	if err != nil {
		vAssert("no file with an error", file == nil)
	}
	if !absIsBMP(text) || gRandFailed {
		vAssert("password or randomness", err != nil)
		return
	}
	der, e := x.MarshalPKCS8PrivateKey(key)
	if e != nil {
		vAssert("key that cannot be encoded", err != nil)
		return
	}
	vAssert("encoded", err == nil)
	password := absBMP(text)
	pfx, content, ok := specAuthSafe(file)
	vAssert("a password-protected file", ok)
	vAssert("authentic for the password", specMatches(pfx.MacData, content, password))
	var parts []specPart
	vAssert("two parts", specParse(content, &parts) && len(parts) == 2)
	var bags []safeBag
	for _, p := range parts {
		b, ok := specBags(p, password)
		vAssert("a part that can be read", ok)
		bags = append(bags, b...)
	}
	n := 0
	keys := 0
	for _, b := range bags {
		switch {
		case b.Id.Equal(specCertBagOID):
			c, ok := specCertBag(b.Value.Bytes)
			vAssert("a certificate bag that can be read", ok)
			vAssert("no more certificates than given", n <= len(ca))
			if n == 0 {
				vAssert("the certificate comes first", vEqual(c, cert.Raw))
				vAssert("the certificate is marked as the key's", specOwn(b, cert.Raw))
			} else {
				vAssert("then the further certificates in order", vEqual(c, ca[n-1].Raw))
				vAssert("further certificates are not marked", len(b.Attributes) == 0)
			}
			n++
		case b.Id.Equal(specKeyBagOID):
			var v specShrouded
			vAssert("a key bag that can be read", specParse(b.Value.Bytes, &v))
			k, ok := decrypted(v.Algorithm, v.Data, password)
			vAssert("the key decrypts with the password", ok)
			vAssert("the key", vEqual(k, der))
			vAssert("the key is marked as the certificate's", specOwn(b, cert.Raw))
			keys++
		default:
			vAssert("nothing else is in the file", false)
		}
	}
	vAssert("all certificates", n == 1+len(ca))
	vAssert("one key", keys == 1)
}


// ---- files of SM2 keys ----

// the file of a harness
var (
	gName      string
	gContent12 []byte
	gWritten   bool
	gIOFails   bool
	gCerts     []*x.Certificate
	gKey       interface{}
	gOwn       *x.Certificate
)

//@ summary io/ioutil:WriteFile
func sumWriteFile(name string, b []byte, perm fs.FileMode) error { return writeFile(name, b) }

//@ summary os:WriteFile
func sumOSWriteFile(name string, b []byte, perm os.FileMode) error { return writeFile(name, b) }

//@ summary io/ioutil:ReadFile
func sumReadFile(name string) ([]byte, error) { return readFile(name) }

//@ summary os:ReadFile
func sumOSReadFile(name string) ([]byte, error) { return readFile(name) }

func writeFile(name string, b []byte) error {
	vAssert("the file named is written", name == gName)
	if gIOFails {
		return errors.New("write")
	}
	gWritten = true
	gContent12 = cat(b)
	return nil
}

func readFile(name string) ([]byte, error) {
	vAssert("the file named is read", name == gName)
	if gIOFails {
		return nil, errors.New("read")
	}
	return cat(gContent12), nil
}

//@ summary Encode
func sumEncode(key interface{}, cert *x.Certificate, ca []*stdx509.Certificate, text string) ([]byte, error) {
	k, ok := key.(*sm2.PrivateKey)
	vAssert("the key, certificate and password given are encoded", ok && cert == gOwn && len(ca) == 0 && k == gKey.(*sm2.PrivateKey) && text == gText)
	if !gOpens {
		return nil, errors.New("encode")
	}
	return cat(gFile), nil
}

var gText string

// nothing decodes from no bytes (hDecodeAll, hSafeContents)
//
//@ summary DecodeAll
func sumDecodeAll(file []byte, text string) (interface{}, []*x.Certificate, error) {
	vAssert("the password given is used", text == gText)
	if len(file) == 0 || !gOpens {
		return nil, nil, errors.New("decode")
	}
	vAssert("the content of the file is decoded", vEqual(file, gFile))
	return gKey, gCerts, nil
}

func testFile() string {
	d, err := os.MkdirTemp("", "p12")
	if err != nil {
		panic(err)
	}
	return d
}

// Writing a key and certificate to a file: what is written is what Encode gives.
//
//@ harness C20
//@ contract SM2P12Encrypt
func hSM2Write() {
	text := vText()
	if vExec() {
		pool()
		d := testFile()
		defer os.RemoveAll(d)
		name := d + "/f"
		if vPick(6) == 0 {
			name = d + "/none/f"
		}
		i := vPick(2)
		cert := gPool.certs[vPick(len(gPool.certs))]
		err := SM2P12Encrypt(cert, text, gPool.sm[i], name)
		b, e := os.ReadFile(name)
		if e != nil {
			vAssert("failure is reported", err != nil)
			return
		}
		vAssert("written", err == nil)
		key, certs, e := DecodeAll(b, text)
		vAssert("the file decodes", e == nil && len(certs) == 1)
		vAssert("the certificate", vEqual(certs[0].Raw, cert.Raw))
		vAssert("the key", vSame(key, gPool.sm[i]))
		return
	}
	gText, gName = text, string(vBytes("name"))
	gIOFails, gOpens = vBool("writing fails"), vBool("encodes")
	gOwn = &x.Certificate{Raw: vBytes("certificate")}
	k := &sm2.PrivateKey{D: vAnyBig("d")}
	gKey = k
	gFile = vBytes("file")
	err := SM2P12Encrypt(gOwn, text, k, gName)
	if gIOFails || !gOpens {
		vAssert("failure is reported", err != nil)
		return
	}
	vAssert("success", err == nil)
	vAssert("written", gWritten && vEqual(gContent12, gFile))
}

// Reading gives the key and first certificate DecodeAll finds.
//
//@ harness C20
//@ contract SM2P12Decrypt
func hSM2Read() {
	text := vText()
	if vExec() {
		pool()
		d := testFile()
		defer os.RemoveAll(d)
		name := d + "/f"
		i := vPick(len(gPool.certs))
		key := vKey()
		b, err := Encode(key, gPool.certs[i], nil, text)
		if err != nil {
			return
		}
		if vPick(6) == 0 {
			b[vPick(len(b))] ^= 1
		}
		if vPick(8) > 0 {
			if err := os.WriteFile(name, b, 0600); err != nil {
				panic(err)
			}
		} else {
			b = nil
		}
		if vPick(8) == 0 {
			text += "x"
		}
		wk, wc, we := DecodeAll(b, text)
		cert, k, err := SM2P12Decrypt(name, text)
		_, sm := wk.(*sm2.PrivateKey)
		_, rs := wk.(*rsa.PrivateKey)
		if we != nil || !sm && !rs {
			vAssert("failure is reported", err != nil && cert == nil && k == nil)
			return
		}
		vAssert("success", err == nil)
		vAssert("the certificate", vEqual(cert.Raw, wc[0].Raw))
		vAssert("the key", vSame(k, wk))
		return
	}
	gText, gName = text, string(vBytes("name"))
	gIOFails, gOpens = vBool("reading fails"), vBool("decodes")
	gFile = vBytes("file")
	gContent12 = gFile
	vAssume(len(gFile) > 0)
	gCerts = []*x.Certificate{{Raw: vBytes("certificate")}}
	if vBool("more certificates") {
		gCerts = append(gCerts, &x.Certificate{Raw: vBytes("certificate")})
	}
	px, py := vAnyBig("x"), vAnyBig("y")
	dd := vAnyBig("d")
	kind := vChoice("kind of key", 4)
	switch kind {
	case 0: // keys that are decoded are points of the curve (C10)
		gKey = &sm2.PrivateKey{PublicKey: sm2.PublicKey{Curve: sm2.SM2P256V1(), X: px, Y: py}, D: dd}
		vAssume(sm2.SM2P256V1().IsOnCurve(px, py))
	case 1:
		gKey = &rsa.PrivateKey{D: dd}
	case 2:
		gKey = &ecdsa.PrivateKey{D: dd}
	case 3:
		gKey = "key"
	}
	cert, key, err := SM2P12Decrypt(gName, text)
	if gIOFails || !gOpens || kind > 1 {
		vAssert("failure is reported", err != nil && cert == nil && key == nil)
		return
	}
	vAssert("success", err == nil)
	vAssert("the certificate", cert != nil && vEqual(cert.Raw, gCerts[0].Raw))
	if kind == 0 {
		k, ok := key.(*sm2.PrivateKey)
		vAssert("an SM2 key", ok)
		vAssert("the key", k.D.Cmp(dd) == 0 && k.X.Cmp(px) == 0 && k.Y.Cmp(py) == 0 && k.Curve == sm2.SM2P256V1())
	} else {
		k, ok := key.(*rsa.PrivateKey)
		vAssert("an RSA key", ok)
		vAssert("the same key", k.D.Cmp(dd) == 0)
	}
}

func vAnyBig(name string) *big.Int {
	return vBigGen(name, func() *big.Int { return big.NewInt(int64(vPick(1000))) })
}
