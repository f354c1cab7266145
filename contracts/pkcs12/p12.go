package pkcs12

import (
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/x509/pkix"
	"encoding/asn1"
)

// ---- PKCS #12 files (RFC 7292) ----

var specSHA1OID = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}

func specMAC(salt []byte, iter int, password, msg []byte) []byte {
	m := hmac.New(sha1.New, derived(salt, password, iter, 3, 20))
	m.Write(msg)
	return m.Sum(nil)
}

// The authentication code is verified and computed as specified.
//
//@ harness C20
//@ contract verifyMac computeMac
func hMac() {
	password := vBytesGen("password", genPass)
	msg := vBytesGen("message", func() []byte { return vFill(vPick(70)) })
	var m macData
	m.Iterations = vIntGen("iterations", -1<<40, 1<<40, func() int { return []int{1, 1, 2, 3, 0, -1}[vPick(6)] })
	m.MacSalt = vBytesGen("salt", genSalt)
	switch vChoice("algorithm", 4) {
	case 0:
		m.Mac.Algorithm.Algorithm = specSHA1OID
	case 1:
		m.Mac.Algorithm.Algorithm = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 27}
	case 2:
		m.Mac.Algorithm.Algorithm = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
	case 3:
		m.Mac.Algorithm.Algorithm = nil
	}
	want := specMAC(m.MacSalt, m.Iterations, password, msg)
	m.Mac.Digest = vBytesGen("digest", func() []byte {
		b := cat(want)
		switch vPick(5) {
		case 0:
			b[vPick(20)] ^= byte(1 << uint(vPick(8)))
		case 1:
			b = b[:vPick(20)]
		case 2:
			b = append(b, 0)
		}
		return b
	})
	digest0, msg0, password0, salt0 := cat(m.Mac.Digest), cat(msg), cat(password), cat(m.MacSalt)
	err := verifyMac(&m, msg, password)
	vAssert("arguments unchanged", vEqual(msg, msg0) && vEqual(password, password0) && vEqual(m.Mac.Digest, digest0) && vEqual(m.MacSalt, salt0))
	if !m.Mac.Algorithm.Algorithm.Equal(specSHA1OID) {
		vAssert("another algorithm is refused", err != nil && err != ErrIncorrectPassword)
		vAssert("another algorithm is not computed", computeMac(&m, msg, password) != nil)
		return
	}
	if vEqual(digest0, want) {
		vAssert("the right code is accepted", err == nil)
	} else {
		vAssert("any other code is a wrong password", err == ErrIncorrectPassword)
	}
	vAssert("computed", computeMac(&m, msg, password) == nil)
	vAssert("the code of the message", vEqual(m.Mac.Digest, want))
	vAssert("arguments still unchanged", vEqual(msg, msg0) && vEqual(password, password0) && vEqual(m.MacSalt, salt0))
}

var (
	specDataOID      = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 7, 1}
	specEncryptedOID = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 7, 6}
)

type specPart struct {
	ContentType asn1.ObjectIdentifier
	Content     asn1.RawValue `asn1:"tag:0,explicit,optional"`
}

type specDigest struct {
	Algorithm pkix.AlgorithmIdentifier
	Digest    []byte
}

type specMacData struct {
	Mac        specDigest
	MacSalt    []byte
	Iterations int `asn1:"optional,default:1"`
}

type specPFX struct {
	Version  int
	AuthSafe specPart
	MacData  specMacData `asn1:"optional"`
}

type specEncryptedContent struct {
	ContentType asn1.ObjectIdentifier
	Algorithm   pkix.AlgorithmIdentifier
	Data        []byte `asn1:"tag:0,optional"`
}

type specEncrypted struct {
	Version int
	Content specEncryptedContent
}

// v is read from exactly b
func specParse(b []byte, v interface{}) bool {
	rest, err := asn1.Unmarshal(b, v)
	return err == nil && len(rest) == 0
}

// the authenticated content of a file
func specAuthSafe(file []byte) (pfx specPFX, content []byte, ok bool) {
	if !specParse(file, &pfx) || pfx.Version != 3 || !pfx.AuthSafe.ContentType.Equal(specDataOID) {
		return pfx, nil, false
	}
	var v asn1.RawValue
	if !specParse(pfx.AuthSafe.Content.Bytes, &v) {
		return pfx, nil, false
	}
	return pfx, v.Bytes, pfx.MacData.Mac.Algorithm.Algorithm.Equal(specSHA1OID)
}

func specMatches(m specMacData, content, password []byte) bool {
	return vEqual(m.Mac.Digest, specMAC(m.MacSalt, m.Iterations, password, content))
}

// the password under which the file is authentic: the given one, or none for the empty text
func specPassword(m specMacData, content, password []byte) (pw []byte, ok bool) {
	if specMatches(m, content, password) {
		return password, true
	}
	if len(password) == 2 && password[0] == 0 && password[1] == 0 && specMatches(m, content, nil) {
		return nil, true
	}
	return nil, false
}

// the bags of one part of the authenticated content
func specBags(p specPart, password []byte) (bags []safeBag, ok bool) {
	var data []byte
	switch {
	case p.ContentType.Equal(specDataOID):
		if !specParse(p.Content.Bytes, &data) {
			return nil, false
		}
	case p.ContentType.Equal(specEncryptedOID):
		var e specEncrypted
		if !specParse(p.Content.Bytes, &e) || e.Version != 0 {
			return nil, false
		}
		if data, ok = decrypted(e.Content.Algorithm, e.Content.Data, password); !ok {
			return nil, false
		}
	default:
		return nil, false
	}
	if !specParse(data, &bags) {
		return nil, false
	}
	return bags, true
}

// Nothing is decrypted or returned unless the file is authentic for the password,
// and what is returned is what the file contains.
//
//@ harness C20 absdecode nosum=getSafeContents
//@ contract getSafeContents verifyMac unmarshal
func hSafeContents() {
	password := vBytesGen("password", genPass)
	file := vBytesGen("file", func() []byte { return genFile(password) })
	file0, password0 := cat(file), cat(password)
	pfx, content, ok := specAuthSafe(file0)
	var pw []byte
	authentic := false
	if ok {
		gMac, gContent, gMustMatch = pfx.MacData, content, true
		pw, authentic = specPassword(pfx.MacData, content, password0)
	}
	bags, updated, err := getSafeContents(file, password)
	vAssert("arguments unchanged", vEqual(file, file0) && vEqual(password, password0))
	if err != nil {
		vAssert("nothing is returned with an error", bags == nil && updated == nil)
	}
	if !ok {
		vAssert("not a password-protected file", err != nil)
		return
	}
	if !authentic {
		vAssert("not authentic", err == ErrIncorrectPassword)
		return
	}
	var parts []specPart
	if !specParse(content, &parts) || len(parts) != 2 {
		vAssert("not two parts", err != nil)
		return
	}
	bags0, ok0 := specBags(parts[0], pw)
	if !ok0 {
		vAssert("first part malformed", err != nil)
		return
	}
	bags1, ok1 := specBags(parts[1], pw)
	if !ok1 {
		vAssert("second part malformed", err != nil)
		return
	}
	vAssert("accepted", err == nil)
	vAssert("the password to use", vEqual(updated, pw))
	want := append([]safeBag(nil), bags0...)
	want = append(want, bags1...)
	vAssert("the bags of the file", vSame(bags, want))
}

// ---- generation of files ----

func derOf(v interface{}) []byte {
	b, err := asn1.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func explicit0(b []byte) asn1.RawValue {
	return asn1.RawValue{Class: 2, Tag: 0, IsCompound: true, Bytes: b}
}

type specAttr struct {
	Id    asn1.ObjectIdentifier
	Value asn1.RawValue `asn1:"set"`
}

type specBag struct {
	Id         asn1.ObjectIdentifier
	Value      asn1.RawValue `asn1:"tag:0,explicit"`
	Attributes []specAttr    `asn1:"set,optional"`
}

func genBags() []specBag {
	var bags []specBag
	for i := vPick(4); i > 0; i-- {
		b := specBag{Id: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 10, 1, 1 + vPick(4)}, Value: explicit0(vDerTLV(0x30, vFill(vPick(10))))}
		if vPick(3) == 0 {
			b.Attributes = append(b.Attributes, specAttr{asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 20 + vPick(3)}, asn1.RawValue{Tag: 17, IsCompound: true, Bytes: vDerTLV(4, vFill(vPick(5)))}})
		}
		bags = append(bags, b)
	}
	return bags
}

// encrypts content, by an algorithm chosen at random
func genEncrypt(content, password []byte) (pkix.AlgorithmIdentifier, []byte) {
	alg := pkix.AlgorithmIdentifier{Algorithm: []asn1.ObjectIdentifier{spec3DES, specRC40}[vPick(2)]}
	alg.Parameters.FullBytes = derOf(specPBEParams{genSalt(), 1 + vPick(3)})
	b, iv := specCipher(alg, password)
	out := specPad(content)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, out)
	return alg, out
}

func genPart(bags []specBag, password []byte) specPart {
	data := derOf(bags)
	if vPick(15) == 0 {
		data = append(data, 5, 0)
	}
	if vPick(15) == 0 && len(data) > 2 {
		data = data[:len(data)-1]
	}
	if vPick(2) == 0 {
		return specPart{specDataOID, explicit0(derOf(data))}
	}
	alg, enc := genEncrypt(data, password)
	e := specEncrypted{0, specEncryptedContent{specDataOID, alg, enc}}
	switch vPick(12) {
	case 0:
		e.Version = 1 + vPick(2)
	case 1:
		e.Content.Data[vPick(len(e.Content.Data))] ^= 1
	case 2:
		e.Content.Algorithm.Algorithm = specDataOID
	}
	p := specPart{specEncryptedOID, explicit0(derOf(e))}
	if vPick(15) == 0 {
		p.ContentType = specSHA1OID
	}
	return p
}

func genFile(password []byte) []byte {
	var parts []specPart
	n := 2
	if vPick(6) == 0 {
		n = vPick(4)
	}
	for ; n > 0; n-- {
		parts = append(parts, genPart(genBags(), password))
	}
	return genPFX(derOf(parts), password)
}

func genPFX(content, password []byte) []byte {
	if len(password) == 2 && password[0] == 0 && password[1] == 0 && vPick(2) == 0 {
		password = nil
	}
	var pfx specPFX
	pfx.Version = 3
	pfx.AuthSafe = specPart{specDataOID, explicit0(derOf(content))}
	pfx.MacData.Mac.Algorithm.Algorithm = specSHA1OID
	pfx.MacData.MacSalt = genSalt()
	pfx.MacData.Iterations = 1 + vPick(3)
	pfx.MacData.Mac.Digest = specMAC(pfx.MacData.MacSalt, pfx.MacData.Iterations, password, content)
	switch vPick(24) {
	case 0:
		pfx.Version = vPick(5)
	case 1:
		pfx.AuthSafe.ContentType = specEncryptedOID
	case 2:
		pfx.MacData = specMacData{}
	case 3:
		pfx.MacData.Mac.Algorithm.Algorithm = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 25}
	case 4, 5:
		pfx.MacData.Mac.Digest[vPick(20)] ^= byte(1 << uint(vPick(8)))
	case 6, 7:
		pfx.MacData.Mac.Digest = pfx.MacData.Mac.Digest[:vPick(20)]
	case 8:
		c := cat(content)
		c[vPick(len(c))] ^= 1
		pfx.AuthSafe.Content = explicit0(derOf(c))
	case 9:
		pfx.MacData.Iterations++
	case 10:
		pfx.MacData.MacSalt = append(pfx.MacData.MacSalt, 1)
	case 11:
		pfx.AuthSafe.Content = explicit0(append(derOf(content), 5, 0))
	case 12:
		pfx.AuthSafe.Content = explicit0(nil)
	}
	b := derOf(pfx)
	switch vPick(30) {
	case 0:
		b = append(b, 0)
	case 1:
		b = b[:len(b)-1]
	}
	return b
}
