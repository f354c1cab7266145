package x509

import (
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"time"

	"golang.org/x/crypto/cryptobyte"
)

// ---- the structure of certificates (RFC 5280 section 4.1) ----

// the parts that have their own contracts: names (C22), keys (C11),
// extensions (C21)

var gExtended bool

//@ summary parseName for=C23
func sumParseName(raw cryptobyte.String) (*pkix.RDNSequence, error) {
	if vBool("the name is invalid") {
		return nil, errAny
	}
	return &pkix.RDNSequence{}, nil
}

//@ summary parsePublicKey for=C23
func sumParsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo) (interface{}, error) {
	if vBool("the key is invalid") {
		return nil, errAny
	}
	return nil, nil
}

//@ summary processExtensions for=C23
func sumProcessExtensions(out *Certificate) error {
	gExtended = true
	if vBool("an extension is invalid") {
		return errAny
	}
	out.KeyUsage = KeyUsage(vInt("key usage", 0, 511))
	out.BasicConstraintsValid = vBool("basic constraints")
	return nil
}

// the elements of a DER sequence
func derElements(b []byte) [][]byte {
	var l [][]byte
	for len(b) > 0 {
		v := asn1.RawValue{}
		rest, err := asn1.Unmarshal(b, &v)
		if err != nil {
			return l
		}
		l, b = append(l, v.FullBytes), rest
	}
	return l
}

func derContent(b []byte) []byte {
	v := asn1.RawValue{}
	if _, err := asn1.Unmarshal(b, &v); err != nil {
		return nil
	}
	return v.Bytes
}

func derList(l [][]byte) []byte {
	var c []byte
	for _, e := range l {
		c = append(c, e...)
	}
	return vDerTLV(0x30, c)
}

// one element changed: removed, doubled, exchanged, of another type, mangled
func derChange(l [][]byte) [][]byte {
	l = append([][]byte{}, l...)
	i := vPick(len(l))
	switch vPick(6) {
	case 0:
		l = append(l[:i], l[i+1:]...)
	case 1:
		l = append(l[:i+1], l[i:]...)
	case 2:
		j := vPick(len(l))
		l[i], l[j] = l[j], l[i]
	case 3:
		l[i] = mangle(l[i])
	case 4:
		if e := derElements(derContent(l[i])); len(e) > 0 && l[i][0]&0x20 != 0 {
			d := derList(derChange(e))
			d[0] = l[i][0]
			l[i] = d
		}
	default:
		l[i] = append([]byte{}, l[i]...)
		l[i][0] = []byte{2, 3, 4, 5, 0x30, 0x31, 0xa0, 23, 24}[vPick(9)]
	}
	return l
}

// what parseCertificate passes on
var gValidity, gAIs []cryptobyte.String

//@ summary parseValidity for=C23
func sumParseValidity(der cryptobyte.String) (time.Time, time.Time, error) {
	gValidity = append(gValidity, der)
	if vBool("the validity is malformed") {
		return time.Time{}, time.Time{}, errAny
	}
	return vTime("not before"), vTime("not after"), nil
}

//@ summary parseAI for=C23
func sumParseAI(der cryptobyte.String) (pkix.AlgorithmIdentifier, error) {
	gAIs = append(gAIs, der)
	if vBool("the algorithm is malformed") {
		return pkix.AlgorithmIdentifier{}, errAny
	}
	return pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, vInt("arc", 0, 39)}, Parameters: asn1.RawValue{FullBytes: vBytes("parameters")}}, nil
}

//@ summary getSignatureAlgorithmFromAI for=C23
func sumSignatureAlgorithm(ai pkix.AlgorithmIdentifier) SignatureAlgorithm {
	return SignatureAlgorithm(vInt("signature algorithm", 0, 30))
}

//@ summary getPublicKeyAlgorithmFromOID for=C23
func sumPublicKeyAlgorithm(oid asn1.ObjectIdentifier) PublicKeyAlgorithm {
	return PublicKeyAlgorithm(vInt("public key algorithm", 0, 10))
}

func genValidity() []byte {
	utc := func() []byte {
		s := []string{"700102030405Z", "491231235959Z", "500101000000Z", "7001020304Z", "991332000000Z", "700102030405+0100", "700102030405", "7001020304+0800", "700102030405-0000", "700102030460Z", "20200102030405Z"}[vPick(11)]
		return vDerTLV(23, []byte(s))
	}
	gen := func() []byte {
		s := []string{"20700102030405Z", "00010101000000Z", "20200102030405+0100", "20200102030405.5Z", "2020010203Z", "20201302030405Z", "99991231235959Z"}[vPick(7)]
		return vDerTLV(24, []byte(s))
	}
	v := []byte{}
	for n := 1 + vPick(3); n > 0; n-- {
		if vPick(2) == 0 {
			v = append(v, utc()...)
		} else {
			v = append(v, gen()...)
		}
	}
	return v
}

func genCertDER() []byte {
	whole := derElements(derContent(certDERs()[vPick(len(certDERs()))]))
	tbs := derElements(derContent(whole[0]))
	switch vPick(8) {
	case 0:
		tbs[0] = vDerTLV(0xa0, vDerTLV(2, []byte{byte(vPick(6) - 1)}))
	case 1:
		tbs = tbs[1:]
	case 2:
		tbs[2] = [][]byte{vDerTLV(0x30, vDerTLV(6, []byte{42, 134, 72, 206, 61, 4, 3, 2})), cat(tbs[2], nil)}[vPick(2)]
		if vPick(2) == 0 {
			tbs[2] = vDerTLV(0x30, cat(derContent(tbs[2]), []byte{5, 0}))
		}
	case 3:
		tbs[4] = vDerTLV(0x30, genValidity())
	case 4, 5:
		tbs = derChange(tbs)
	}
	whole[0] = derList(tbs)
	if vPick(8) == 0 {
		whole = derChange(whole)
	}
	b := derList(whole)
	switch vPick(16) {
	case 0:
		b = append(b, vFill(1+vPick(3))...)
	case 1:
		b = mangle(b)
	}
	return b
}

//@ harness C23 longlists nosum=parseCertificate
//@ contract ParseCertificate parseCertificate parseAI parseExtension
func hParseCertificate() {
	der := vBytesGen("der", genCertDER)
	gExtended, gValidity, gAIs = false, nil, nil
	cert, err := ParseCertificate(der)
	vAssert("a certificate or an error", (cert == nil) == (err != nil))
	whole, rest, ok := vDerRead(der, 0x30)
	if !ok || len(rest) != 0 {
		vAssert("what is not one complete structure is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the raw certificate is the input", vEqual(cert.Raw, der))
	}
	tbs, sig, ok := vDerRead(whole, 0x30)
	if !ok {
		vAssert("a certificate without its signed part is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the signed part", vEqual(cert.RawTBSCertificate, vDerTLV(0x30, tbs)))
	}
	outer, sig, ok := vDerRead(sig, 0x30)
	if !ok {
		vAssert("a certificate without its algorithm is rejected", err != nil)
		return
	}
	_, _, ok = vDerRead(sig, 3)
	if !ok {
		vAssert("a certificate without its signature is rejected", err != nil)
		return
	}
	version := 1
	if v, t, ok := vDerRead(tbs, 0xa0); ok {
		c, rest, ok := vDerRead(v, 2)
		if !ok || len(rest) != 0 {
			vAssert("a malformed version is rejected", err != nil)
			return
		}
		n, ok := vDerReadInt(c)
		if !ok || n.Sign() < 0 || n.Cmp(big.NewInt(2)) > 0 {
			vAssert("versions other than 1 to 3 are rejected", err != nil)
			return
		}
		version, tbs = int(n.Int64())+1, t
	}
	if err == nil {
		vAssert("the version", cert.Version == version)
	}
	c, tbs, ok := vDerRead(tbs, 2)
	if !ok {
		vAssert("a certificate without serial number is rejected", err != nil)
		return
	}
	serial, ok := vDerReadInt(c)
	if !ok {
		vAssert("a malformed serial number is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the serial number", cert.SerialNumber.Cmp(serial) == 0)
	}
	inner, tbs, ok := vDerRead(tbs, 0x30)
	if !ok || !vEqual(inner, outer) {
		vAssert("different signature algorithms are rejected", err != nil)
		return
	}
	if vExec() {
		if !specAI(inner) {
			vAssert("a malformed signature algorithm is rejected", err != nil)
			return
		}
	} else if err == nil {
		vAssert("the signature algorithm is that of the certificate", len(gAIs) > 0 && vEqual(gAIs[0], inner))
	}
	issuer, tbs, ok := vDerRead(tbs, 0x30)
	if !ok {
		vAssert("a certificate without issuer is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the issuer", vEqual(cert.RawIssuer, vDerTLV(0x30, issuer)))
	}
	validity, tbs, ok := vDerRead(tbs, 0x30)
	if !ok {
		vAssert("a certificate without validity is rejected", err != nil)
		return
	}
	if vExec() {
		if _, _, ok := specTimes(validity); !ok {
			vAssert("a certificate with a malformed validity is rejected", err != nil)
			return
		}
	} else if err == nil {
		vAssert("the validity is that of the certificate", len(gValidity) == 1 && vEqual(gValidity[0], validity))
	}
	subject, tbs, ok := vDerRead(tbs, 0x30)
	if !ok {
		vAssert("a certificate without subject is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the subject", vEqual(cert.RawSubject, vDerTLV(0x30, subject)))
	}
	spki, tbs, ok := vDerRead(tbs, 0x30)
	if !ok {
		vAssert("a certificate without public key is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the public key", vEqual(cert.RawSubjectPublicKeyInfo, vDerTLV(0x30, spki)))
	}
}

// an algorithm identifier starts with an object identifier
func specAI(b []byte) bool {
	oid, rest, ok := vDerRead(b, 6)
	if !ok {
		return false
	}
	_, ok = vDerReadOID(oid)
	return ok && (len(rest) == 0 || len(rest) > 1)
}

//@ harness C23 nosum=parseAI
//@ contract parseAI
func hParseAI() {
	b := vBytesGen("der", func() []byte {
		b := cat(vDerTLV(6, []byte{42, 134, 72, 206, 61, 4, 3, 2}), [][]byte{nil, {5, 0}, {5}, {0x30, 0}, {6, 1, 42, 5, 0}}[vPick(5)])
		if vPick(3) == 0 {
			b = mangle(b)
		}
		return b
	})
	ai, err := parseAI(b)
	oid, rest, ok := vDerRead(b, 6)
	if !ok {
		vAssert("an algorithm without object identifier is rejected", err != nil)
		return
	}
	id, ok := vDerReadOID(oid)
	if !ok {
		vAssert("a malformed object identifier is rejected", err != nil)
		return
	}
	if err == nil {
		vAssert("the object identifier", vSame(ai.Algorithm, asn1.ObjectIdentifier(id)))
		n := len(ai.Parameters.FullBytes)
		vAssert("the parameters are what follows", n <= len(rest) && vEqual(ai.Parameters.FullBytes, rest[:n]))
	}
	if len(rest) == 0 {
		vAssert("parameters may be absent", err == nil && len(ai.Parameters.FullBytes) == 0)
	}
}

//@ harness C23 nosum=parseValidity
//@ contract parseValidity
func hParseValidity() {
	b := vBytesGen("der", genValidity)
	_, _, err := parseValidity(b)
	if _, _, ok := specTimes(b); !ok {
		vAssert("other than two times is rejected", err != nil)
	}
}

// the two tags of a validity
func specTimes(validity []byte) (a, b byte, ok bool) {
	rest := validity
	if _, r, ok := vDerRead(rest, 23); ok {
		a, rest = 23, r
	} else if _, r, ok := vDerRead(rest, 24); ok {
		a, rest = 24, r
	} else {
		return 0, 0, false
	}
	if _, _, ok := vDerRead(rest, 23); ok {
		return a, 23, true
	}
	if _, _, ok := vDerRead(rest, 24); ok {
		return a, 24, true
	}
	return 0, 0, false
}

func certDERs() [][]byte {
	if gDERs != nil {
		return gDERs
	}
	now := time.Now()
	k := &vSigner{priv: poolKey(2, 0)}
	for i, u := range []time.Time{now, now.AddDate(60, 0, 0), time.Date(1960, 1, 2, 3, 4, 5, 0, time.UTC)} {
		t := &Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: "a"}, NotBefore: u, NotAfter: u.AddDate(1, 0, 0),
			KeyUsage: KeyUsageCertSign, DNSNames: []string{"a.example"}, BasicConstraintsValid: i > 0, IsCA: i > 1}
		der, err := CreateCertificate(nil, t, t, k.Public(), k)
		if err == nil {
			gDERs = append(gDERs, der)
		}
	}
	return gDERs
}

var gDERs [][]byte
var _ asn1.BitString

//@ harness C23
//@ contract parseExtension
func hParseExtension() {
	b := vBytesGen("der", func() []byte {
		b := vDerTLV(6, []byte{85, 29, byte(vPick(40))})
		switch vPick(6) {
		case 0:
			b = append(b, 1, 1, 0)
		case 1, 2:
			b = append(b, 1, 1, 0xff)
		case 3:
			b = append(b, 1, byte(vPick(3)), byte(vPick(256)))
		}
		b = append(b, vDerTLV(4, vFill(vPick(5)))...)
		if vPick(4) == 0 {
			b = mangle(b)
		}
		return b
	})
	ext, err := parseExtension(b)
	oid, rest, ok := vDerRead(b, 6)
	if !ok {
		vAssert("an extension without identifier is rejected", err != nil)
		return
	}
	id, ok := vDerReadOID(oid)
	if !ok {
		vAssert("a malformed identifier is rejected", err != nil)
		return
	}
	critical := false
	if c, r, ok := vDerRead(rest, 1); ok {
		if len(c) != 1 || c[0] != 0 && c[0] != 0xff {
			vAssert("a malformed criticality is rejected", err != nil)
			return
		}
		critical, rest = c[0] == 0xff, r
	}
	value, _, ok := vDerRead(rest, 4)
	if !ok {
		vAssert("an extension without value is rejected", err != nil)
		return
	}
	vAssert("an extension is accepted", err == nil)
	vAssert("its identifier", vSame(ext.Id, asn1.ObjectIdentifier(id)))
	vAssert("its criticality", ext.Critical == critical)
	vAssert("its value", vEqual(ext.Value, value))
}

// Two certificates in a row, then anything: each is parsed, trailing bytes are
// a certificate too.
//
//@ summary parseCertificate for=C23
func sumParseCertificate(der []byte) (*Certificate, error) {
	whole, rest, ok := vDerRead(der, 0x30)
	if !ok || vBool("the certificate is malformed") {
		return nil, errAny
	}
	gParsed = append(gParsed, whole)
	return &Certificate{Raw: der[:len(der)-len(rest)]}, nil
}

var gParsed [][]byte

//@ harness C23 nosum=ParseCertificates
//@ contract ParseCertificates
func hParseCertificates() {
	gParsed = nil
	var ders [][]byte
	n := vChoice("certificates", 3)
	for i := 0; i < n; i++ {
		ders = append(ders, vDerTLV(0x30, vBytesGen("certificate", func() []byte { return derContent(genCertDER()) })))
	}
	var junk []byte
	if vBool("junk") {
		junk = vBytes("junk")
		vAssume(len(junk) > 0)
		_, _, ok := vDerRead(junk, 0x30)
		vAssume(!ok)
	}
	var all []byte
	for _, d := range ders {
		all = cat(all, d)
	}
	all = cat(all, junk)
	certs, err := ParseCertificates(all)
	if len(junk) > 0 {
		vAssert("trailing data is rejected", err != nil && len(certs) == 0)
		return
	}
	if vExec() {
		ok := true
		for _, d := range ders {
			if _, e := ParseCertificate(d); e != nil {
				ok = false
			}
		}
		vAssert("the certificates are accepted when each is", (err == nil) == ok)
	} else {
		vAssert("the certificates are accepted when each is", (err == nil) == (len(gParsed) == n))
	}
	if err != nil {
		vAssert("none is returned with an error", len(certs) == 0)
		return
	}
	vAssert("one for each", len(certs) == n)
	for i, c := range certs {
		vAssert("the certificates in order", vEqual(c.Raw, ders[i]))
	}
}

func digits(s string, i, n int) int {
	v := 0
	for _, c := range s[i : i+n] {
		v = 10*v + int(c-'0')
	}
	return v
}

// specTime: the text of a UTCTime or GeneralizedTime (RFC 5280 section 4.1.2.5).
func specTime(tag byte, s string) (time.Time, bool) {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	year := 0
	switch {
	case tag == 23 && (n == 10 || n == 12):
		year = 1900 + digits(s, 0, 2)
		if year < 1950 {
			year += 100
		}
	case tag == 24 && n == 14:
		year = digits(s, 0, 4)
		s, n = s[2:], 12
	default:
		return time.Time{}, false
	}
	mon, day, hour, min, sec := digits(s, 2, 2), digits(s, 4, 2), digits(s, 6, 2), digits(s, 8, 2), 0
	if n == 12 {
		sec = digits(s, 10, 2)
	}
	t := time.Date(year, time.Month(mon), day, hour, min, sec, 0, time.UTC)
	if t.Month() != time.Month(mon) || t.Day() != day || t.Hour() != hour || t.Minute() != min || t.Second() != sec {
		return t, false
	}
	zone := s[n:]
	if zone == "Z" {
		return t, true
	}
	if len(zone) != 5 || zone[0] != '+' && zone[0] != '-' {
		return t, false
	}
	for _, c := range zone[1:] {
		if c < '0' || c > '9' {
			return t, false
		}
	}
	off := digits(zone, 1, 2)*60 + digits(zone, 3, 2)
	if zone[0] == '-' {
		off = -off
	}
	return t.Add(-time.Duration(off) * time.Minute), off != 0
}

//@ harness C23 bounded nosum=parseValidity
//@ contract parseValidity
func hValidityTimes() {
	num := func(lo, n int) string {
		k := lo + vPick(n)
		return string([]byte{'0' + byte(k/10%10), '0' + byte(k%10)})
	}
	one := func() (byte, string) {
		tag := byte(23 + vPick(2))
		s := num(0, 100)
		if vPick(3) == 0 {
			s = num(48, 4)
		}
		if tag == 24 {
			s = []string{"00", "19", "20", "99"}[vPick(4)] + s
		}
		s += num(1, 12) + num(1, 28+vPick(4)) + num(0, 24) + num(0, 60)
		if tag == 24 || vPick(4) > 0 {
			s += num(0, 60)
		}
		switch vPick(12) {
		case 0:
			s += "+" + num(0, 12) + num(0, 60)
		case 1:
			s += "-" + num(0, 12) + num(0, 60)
		case 2:
			s += "+0000"
		case 3:
		default:
			s += "Z"
		}
		switch vPick(12) {
		case 0:
			s = s[:vPick(len(s))]
		case 1:
			b := []byte(s)
			b[vPick(len(b))] = byte("09 :+-.Zz"[vPick(9)])
			s = string(b)
		}
		for i, c := range s { // zones like +0090 are left to the time package
			if c == '+' || c == '-' {
				if len(s) == i+5 && (s[i+3] > '5' || s[i+1] > '1') {
					s = s[:i] + "Z"
					break
				}
			}
		}
		return tag, s
	}
	ta, a := one()
	tb, b := one()
	wa, oka := specTime(ta, a)
	wb, okb := specTime(tb, b)
	vLog("times", a+" "+b)
	before, after, err := parseValidity(cryptobyte.String(cat(vDerTLV(ta, []byte(a)), vDerTLV(tb, []byte(b)))))
	if !oka || !okb {
		vAssert("a malformed time is rejected", err != nil)
		return
	}
	vAssert("two times are accepted", err == nil)
	vAssert("the first time", before.Equal(wa))
	vAssert("the last time", after.Equal(wb))
}
