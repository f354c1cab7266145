package x509

import (
	"crypto/x509/pkix"
	"encoding/asn1"
	"net"
	"net/url"
	"strings"
)

// ---- certificate extensions (RFC 5280 section 4.2) ----

//@ harness C21
//@ contract marshalKeyUsage parseKeyUsageExtension reverseBitsInAByte asn1BitLength
func hKeyUsage() {
	ku := KeyUsage(vChoice("usage", 512))
	ext, err := marshalKeyUsage(ku)
	vAssert("a key usage is encoded", err == nil)
	vAssert("as a critical extension", ext.Critical && vSame(ext.Id, asn1.ObjectIdentifier{2, 5, 29, 15}))
	got, err := parseKeyUsageExtension(ext.Value)
	vAssert("its encoding is decoded", err == nil)
	vAssert("to the key usage", got == ku)
}

//@ harness C21
//@ contract parseKeyUsageExtension
func hKeyUsageBytes() {
	b := vBytesGen("der", func() []byte {
		b := vDerTLV(3, append([]byte{byte(vPick(9))}, vFill(vPick(4))...))
		if vPick(3) == 0 {
			b = mangle(b)
		}
		return b
	})
	c, _, ok := vDerRead(b, 3)
	if !ok || len(c) == 0 || c[0] > 7 || len(c) == 1 && c[0] > 0 {
		_, err := parseKeyUsageExtension(b)
		vAssert("what is not a bit string is rejected", err != nil)
		return
	}
	pad := 0
	for pad < 7 && int(c[0]) != pad {
		pad++
	}
	ku, err := parseKeyUsageExtension(b)
	if pad > 0 && c[len(c)-1]&(1<<pad-1) != 0 {
		vAssert("padding that is not zero is rejected", err != nil)
		return
	}
	vAssert("a bit string is accepted", err == nil)
	vAssert("and no other", int(ku)>>9 == 0)
}

//@ harness C21
//@ contract parseKeyUsageExtension
func hKeyUsageBits() {
	pad := vChoice("padding", 8)
	var c []byte
	switch vChoice("bytes", 4) {
	case 0:
		c = []byte{byte(pad)}
	case 1:
		c = []byte{byte(pad), byte(vChoice("first", 256))}
	case 2:
		c = []byte{byte(pad), []byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[vChoice("first", 10)], []byte{0, 128, 255}[vChoice("second", 3)]}
	case 3:
		c = []byte{byte(pad), []byte{0, 1, 2, 4, 8, 16, 32, 64, 128, 255}[vChoice("first", 10)], []byte{0, 128, 255}[vChoice("second", 3)], vByte("third")}
	}
	ku, err := parseKeyUsageExtension(vDerTLV(3, c))
	bits := 8*(len(c)-1) - pad
	if bits < 0 || pad > 0 && c[len(c)-1]&(1<<pad-1) != 0 {
		vAssert("padding that is not zero is rejected", err != nil)
		return
	}
	vAssert("a bit string is accepted", err == nil)
	want := 0
	for i := 0; i < 9 && i < bits; i++ {
		if c[1+i/8]>>uint(7-i%8)&1 != 0 {
			want |= 1 << uint(i)
		}
	}
	vAssert("each usage is its bit", int(ku) == want)
}

//@ harness C21
//@ contract marshalBasicConstraints parseBasicConstraintsExtension
func hBasicConstraints() {
	ca, zero := vBool("is CA"), vBool("zero")
	n := vIntGen("path length", -1<<31, 1<<31-1, func() int { return vPick(6) - 2 })
	ext, err := marshalBasicConstraints(ca, n, zero)
	vAssert("basic constraints are encoded", err == nil)
	vAssert("as a critical extension", ext.Critical && vSame(ext.Id, asn1.ObjectIdentifier{2, 5, 29, 19}))
	gotCA, got, err := parseBasicConstraintsExtension(ext.Value)
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same role", gotCA == ca)
	if n == 0 && !zero {
		n = -1 // zero without MaxPathLenZero is no limit
	}
	vAssert("and path length", got == n)
}

//@ harness C21
//@ contract parseBasicConstraintsExtension
func hBasicConstraintsBytes() {
	b := vBytesGen("der", func() []byte {
		var c []byte
		if vPick(3) > 0 {
			c = append(c, 1, 1, []byte{0, 255, 255, 1}[vPick(4)])
		}
		if vPick(3) > 0 {
			c = append(c, vDerTLV(2, vFill(1+vPick(3)))...)
		}
		b := vDerTLV(0x30, c)
		if vPick(3) == 0 {
			b = mangle(b)
		}
		return b
	})
	ca, n, err := parseBasicConstraintsExtension(b)
	c, _, ok := vDerRead(b, 0x30)
	if !ok {
		vAssert("what is not a sequence is rejected", err != nil)
		return
	}
	wantCA := false
	if v, r, ok := vDerRead(c, 1); ok {
		if len(v) != 1 || v[0] != 0 && v[0] != 255 {
			vAssert("a malformed role is rejected", err != nil)
			return
		}
		wantCA, c = v[0] == 255, r
	} else if len(c) > 0 && c[0] == 1 {
		vAssert("a malformed role is rejected", err != nil)
		return
	}
	want := -1
	if v, _, ok := vDerRead(c, 2); ok {
		x, ok := vDerReadInt(v)
		if !ok || !x.IsInt64() {
			vAssert("a malformed path length is rejected", err != nil)
			return
		}
		want = int(x.Int64())
	} else if len(c) > 0 && c[0] == 2 {
		vAssert("a malformed path length is rejected", err != nil)
		return
	}
	vAssert("basic constraints are accepted", err == nil)
	vAssert("the role", ca == wantCA)
	vAssert("the path length", n == want)
}

func knownUsage(i int) (ExtKeyUsage, asn1.ObjectIdentifier) {
	return ExtKeyUsage(i), []asn1.ObjectIdentifier{{2, 5, 29, 37, 0}, {1, 3, 6, 1, 5, 5, 7, 3, 1}, {1, 3, 6, 1, 5, 5, 7, 3, 2}, {1, 3, 6, 1, 5, 5, 7, 3, 3}, {1, 3, 6, 1, 5, 5, 7, 3, 4}, {1, 3, 6, 1, 5, 5, 7, 3, 5},
		{1, 3, 6, 1, 5, 5, 7, 3, 6}, {1, 3, 6, 1, 5, 5, 7, 3, 7}, {1, 3, 6, 1, 5, 5, 7, 3, 8}, {1, 3, 6, 1, 5, 5, 7, 3, 9}, {1, 3, 6, 1, 4, 1, 311, 10, 3, 3}, {2, 16, 840, 1, 113730, 4, 1}, {1, 3, 6, 1, 4, 1, 311, 2, 1, 22}, {1, 3, 6, 1, 4, 1, 311, 61, 1, 1}}[i]
}

// each known usage has its registered identifier
//
//@ harness C21
//@ contract oidFromExtKeyUsage extKeyUsageFromOID
func hExtKeyUsageOID() {
	u, want := knownUsage(vChoice("usage", 14))
	oid, ok := oidFromExtKeyUsage(u)
	vAssert("a known usage has its identifier", ok && oid.Equal(want))
	v, ok := extKeyUsageFromOID(want)
	vAssert("and its identifier is the usage", ok && v == u)
	_, ok = oidFromExtKeyUsage(ExtKeyUsage(14 + vInt("more", 0, 1000)))
	vAssert("there are no others", !ok)
}

func vOIDs(name string) []asn1.ObjectIdentifier {
	oid := func() asn1.ObjectIdentifier { return asn1.ObjectIdentifier{1, 2, 3, vInt("arc", 0, 1<<30)} }
	switch vChoice(name, 4) {
	case 1:
		return []asn1.ObjectIdentifier{oid()}
	case 2:
		return []asn1.ObjectIdentifier{oid(), oid()}
	case 3:
		return []asn1.ObjectIdentifier{oid(), oid(), oid()}
	}
	return nil
}

//@ harness C21
//@ contract marshalExtKeyUsage parseExtKeyUsageExtension
func hExtKeyUsage() {
	var known []ExtKeyUsage
	switch vChoice("known", 3) {
	case 1:
		known = []ExtKeyUsage{ExtKeyUsage(vChoice("usage", 15))}
	case 2:
		known = []ExtKeyUsage{ExtKeyUsage(vChoice("usage", 2)), ExtKeyUsage(vChoice("usage", 15))}
	}
	unknown := vOIDs("unknown")
	ext, err := marshalExtKeyUsage(known, unknown)
	for _, k := range known {
		if k > 13 {
			vAssert("an unknown usage is rejected", err != nil)
			return
		}
	}
	vAssert("usages are encoded", err == nil)
	vAssert("as the extension", vSame(ext.Id, asn1.ObjectIdentifier{2, 5, 29, 37}))
	k, u, err := parseExtKeyUsageExtension(ext.Value)
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same known usages", vSame(k, known))
	vAssert("and the same unknown ones", vSame(u, unknown))
}

//@ harness C21 longlists
//@ contract parseExtKeyUsageExtension parseCertificatePoliciesExtension forEachSAN
func hListBytes() {
	b := vBytesGen("der", func() []byte { return mangle(vDerTLV(0x30, vDerTLV(6, []byte{42, 3}))) })
	_, _, e1 := parseExtKeyUsageExtension(b)
	_, e2 := parseCertificatePoliciesExtension(b)
	e3 := forEachSAN(b, func(int, []byte) error { return nil })
	if _, _, ok := vDerRead(b, 0x30); !ok {
		vAssert("what is not a sequence is rejected", e1 != nil && e2 != nil && e3 != nil)
	}
}

//@ harness C21
//@ contract marshalCertificatePolicies parseCertificatePoliciesExtension
func hPolicies() {
	oids := vOIDs("policies")
	ext, err := marshalCertificatePolicies(oids)
	vAssert("policies are encoded", err == nil)
	vAssert("as the extension", vSame(ext.Id, asn1.ObjectIdentifier{2, 5, 29, 32}))
	got, err := parseCertificatePoliciesExtension(ext.Value)
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same policies", vSame(got, oids))
}

// URIs are taken as their text: parsing the text of a URI gives the URI.
var gURIs []*url.URL
var gURITexts []string

//@ summary net/url:URL.String
func sumURLString(u *url.URL) string {
	for i, v := range gURIs {
		if v == u {
			return gURITexts[i]
		}
	}
	return string(vBytes("uri"))
}

//@ summary net/url:Parse
func sumURLParse(s string) (*url.URL, error) {
	for i, v := range gURIs {
		if s == gURITexts[i] {
			return v, nil
		}
	}
	if vBool("the uri is malformed") {
		return nil, errAny
	}
	return &url.URL{}, nil
}

func vIA5(name string) string {
	s := string(vBytesGen(name, func() []byte {
		return []byte([]string{"a.example", "b.example.org", "x@y.example", "A", "a b", "", "*.example", "é"}[vPick(8)])
	}))
	return s
}

func specIP(b []byte) []byte {
	if len(b) == 16 {
		for _, c := range b[:10] {
			if c != 0 {
				return b
			}
		}
		if b[10] == 255 && b[11] == 255 {
			return b[12:]
		}
	}
	return b
}

// an address in four bytes when it is an IPv4 one
//
//@ summary net:IP.To4
func sumTo4(ip net.IP) net.IP {
	if len(ip) == 4 {
		return ip
	}
	if len(ip) == 16 && vEqual(ip[:12], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}) {
		return ip[12:16]
	}
	return nil
}

//@ harness C21
//@ contract marshalSANs parseSANExtension forEachSAN
func hSANs() {
	gURIs, gURITexts = nil, nil
	var dns, mail []string
	var ips []net.IP
	var uris []*url.URL
	switch vChoice("names", 3) {
	case 1:
		dns = []string{vIA5("name")}
	case 2:
		dns = []string{vIA5("name"), vIA5("name")}
	}
	switch vChoice("addresses", 3) {
	case 1:
		mail = []string{vIA5("address")}
	case 2:
		mail = []string{vIA5("address"), vIA5("address")}
	}
	if vBool("an ip") {
		n := []int{4, 16, 5}[vChoice("length", 3)]
		b := make([]byte, n)
		if vBool("mapped") && n == 16 {
			b[10], b[11] = 255, 255
			copy(b[12:], vFixedBytes("ip", 4))
		} else {
			copy(b, vFixedBytes("ip", n))
		}
		ips = append(ips, b)
	}
	if vBool("a uri") {
		if vExec() {
			u, _ := url.Parse("https://" + []string{"a.example", "b.example:80", "[::1]"}[vPick(3)] + "/" + string('a'+byte(vPick(26))))
			uris = []*url.URL{u}
		} else {
			u := &url.URL{Host: ""}
			gURIs, gURITexts = []*url.URL{u}, []string{string(vBytes("uri"))}
			uris = gURIs
		}
	}
	texts := append(append(append([]string{}, dns...), mail...), gURITexts...)
	der, err := marshalSANs(dns, mail, ips, uris)
	for _, s := range texts {
		if !vASCII(s) {
			vAssert("a name that is not an IA5String is rejected", err != nil && der == nil)
			return
		}
	}
	vAssert("names are encoded", err == nil)
	gotDNS, gotMail, gotIPs, gotURIs, err := parseSANExtension(der)
	for _, ip := range ips {
		if len(ip) == 5 {
			vAssert("an address of another length is rejected", err != nil)
			return
		}
	}
	if vExec() && len(uris) > 0 && uris[0].Host == "b.example:80" { // a host with a port is a domain here
		return
	}
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same DNS names", vSame(gotDNS, dns))
	vAssert("the same mail addresses", vSame(gotMail, mail))
	vAssert("as many IP addresses", len(gotIPs) == len(ips))
	for i, ip := range ips {
		vAssert("the same IP addresses", vEqual(gotIPs[i], specIP(ip)))
	}
	vAssert("as many URIs", len(gotURIs) == len(uris))
	for i, u := range uris {
		if vExec() {
			vAssert("the same URIs", gotURIs[i].String() == u.String())
		} else {
			vAssert("the same URIs", gotURIs[i] == u)
		}
	}
}

// Domain names and mailboxes are taken as accepted or not: gNamesOK is false
// once one was not.
var gNamesOK bool

//@ summary domainToReverseLabels for=C21
func sumDomain(domain string) ([]string, bool) {
	if vBool("the domain is malformed") {
		gNamesOK = false
		return nil, false
	}
	return nil, true
}

//@ summary parseRFC2821Mailbox for=C21
func sumMailbox(in string) (rfc2821Mailbox, bool) {
	if vBool("the mailbox is malformed") {
		gNamesOK = false
		return rfc2821Mailbox{}, false
	}
	return rfc2821Mailbox{}, true
}

//@ summary net:ParseIP
func sumParseIP(s string) net.IP {
	if vBool("is an address") {
		gNamesOK = false
		return net.IP{0, 0, 0, 0}
	}
	return nil
}

// addresses and masks of the same length
//
//@ summary net:IP.Mask
func sumMask(ip net.IP, mask net.IPMask) net.IP {
	out := make(net.IP, len(ip))
	for i := range out {
		out[i] = ip[i] & mask[i]
	}
	return out
}

// a domain name is labels of printable characters; a leading period is
// allowed
//
//@ harness C21 bounded nosum=domainToReverseLabels
//@ contract domainToReverseLabels
func hDomain() {
	s := ""
	for n := vPick(9); n > 0; n-- {
		s += []string{".", "a", "-", "b", ".", "\x21", "\x7e", "c", "\x20", "\x7f", "é", "\xff"}[vPick(12)]
	}
	labels, ok := domainToReverseLabels(s)
	want := strings.Split(s, ".")
	if want[0] == "" {
		want = want[1:]
	}
	good := true
	for _, l := range want {
		good = good && l != ""
		for i := 0; i < len(l); i++ {
			good = good && l[i] > 32 && l[i] < 127
		}
	}
	vAssert("a domain is its labels", ok == good && (!ok || len(labels) == len(want)))
	if ok {
		for i, l := range want {
			vAssert("in reverse order", labels[len(labels)-1-i] == l)
		}
	}
}

func vURLs(name string) []string {
	switch vChoice(name, 3) {
	case 1:
		return []string{vIA5("url")}
	case 2:
		return []string{vIA5("url"), vIA5("url")}
	}
	return nil
}

// extensions of a template, and what is read back from them
//
//@ harness C21
//@ contract buildCertExtensions processExtensions oidInExtensions
func hExtKeyIDs() {
	skid, akid := vBytes("subject key"), vBytes("authority key")
	tmpl := &Certificate{SubjectKeyId: vBytes("other"), AuthorityKeyId: vBytes("other")}
	exts, err := buildCertExtensions(tmpl, vBool("empty subject"), akid, skid)
	vAssert("key identifiers are encoded", err == nil)
	raw := vBytes("raw")
	out := &Certificate{Raw: raw, Version: 3, Extensions: exts}
	err = processExtensions(out)
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same subject key identifier", vEqual(out.SubjectKeyId, skid))
	vAssert("and authority key identifier", vEqual(out.AuthorityKeyId, akid))
	vAssert("and nothing else", vSame(*out, Certificate{Raw: raw, Version: 3, Extensions: exts, SubjectKeyId: out.SubjectKeyId, AuthorityKeyId: out.AuthorityKeyId}))
	vAssert("the issuer's identifier is the one passed", len(exts) <= 2)
}

//@ harness C21
//@ contract buildCertExtensions processExtensions
func hExtURLs() {
	ocsp, issuers, crls := vURLs("ocsp"), vURLs("issuers"), vURLs("crls")
	tmpl := &Certificate{OCSPServer: ocsp, IssuingCertificateURL: issuers, CRLDistributionPoints: crls}
	exts, err := buildCertExtensions(tmpl, false, nil, nil)
	vAssert("urls are encoded", err == nil)
	out := &Certificate{Extensions: exts}
	err = processExtensions(out)
	vAssert("their encoding is decoded", err == nil)
	vAssert("to the same OCSP servers", vSame(out.OCSPServer, ocsp))
	vAssert("the same issuer URLs", vSame(out.IssuingCertificateURL, issuers))
	vAssert("the same distribution points", vSame(out.CRLDistributionPoints, crls))
	vAssert("and nothing else", vSame(*out, Certificate{Extensions: exts, OCSPServer: out.OCSPServer, IssuingCertificateURL: out.IssuingCertificateURL, CRLDistributionPoints: out.CRLDistributionPoints}))
}

//@ harness C21
//@ contract buildCertExtensions processExtensions
func hExtUsages() {
	tmpl := &Certificate{}
	if vBool("key usage") {
		tmpl.KeyUsage = []KeyUsage{KeyUsageCertSign, KeyUsageDecipherOnly | KeyUsageDigitalSignature, KeyUsageContentCommitment}[vChoice("usage", 3)]
	}
	if vBool("extended") {
		tmpl.ExtKeyUsage = []ExtKeyUsage{ExtKeyUsage(vChoice("usage", 14))}
		if vBool("more") {
			tmpl.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 2, 3, vInt("arc", 0, 1<<30)}}
		}
	}
	if vBool("policy") {
		tmpl.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3, vInt("arc", 0, 1<<30)}}
	}
	if vBool("basic") {
		tmpl.BasicConstraintsValid = true
		tmpl.IsCA, tmpl.MaxPathLen = vBool("CA"), []int{-1, 0, 3}[vChoice("path", 3)]
		tmpl.MaxPathLenZero = tmpl.MaxPathLen == 0 && vBool("zero")
	}
	exts, err := buildCertExtensions(tmpl, false, nil, nil)
	vAssert("usages are encoded", err == nil)
	out := &Certificate{Extensions: exts}
	vAssert("their encoding is decoded", processExtensions(out) == nil)
	if tmpl.BasicConstraintsValid && tmpl.MaxPathLen == 0 && !tmpl.MaxPathLenZero {
		tmpl.MaxPathLen = -1
	}
	tmpl.Extensions = exts
	vAssert("to the same certificate", vSame(*out, *tmpl))
}

// An extension given explicitly replaces the one of the template, and one
// that is not understood is reported when it is critical.
//
//@ harness C21
//@ contract buildCertExtensions oidInExtensions
func hExtExtra() {
	tmpl := &Certificate{KeyUsage: KeyUsageCertSign, ExtKeyUsage: []ExtKeyUsage{ExtKeyUsageAny}, BasicConstraintsValid: true, OCSPServer: []string{"a"}, DNSNames: []string{"b"},
		PolicyIdentifiers: []asn1.ObjectIdentifier{{1, 2, 3}}, PermittedDNSDomains: []string{"c"}, CRLDistributionPoints: []string{"d"}, PermittedDNSDomainsCritical: vBool("critical")}
	ids := []asn1.ObjectIdentifier{{2, 5, 29, 15}, {2, 5, 29, 37}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}, {2, 5, 29, 17}, {2, 5, 29, 32}, {2, 5, 29, 30}, {2, 5, 29, 31}}
	k := vChoice("extra", 11)
	empty := vBool("empty subject")
	val := vBytes("value")
	if k < 10 {
		tmpl.ExtraExtensions = []pkix.Extension{{Id: ids[k], Value: val}}
	} else {
		tmpl.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4}, Critical: true, Value: val}}
	}
	exts, err := buildCertExtensions(tmpl, empty, []byte{1}, []byte{2})
	vAssert("extensions are built", err == nil)
	want := 10
	if k == 10 {
		want = 11
	}
	vAssert("each extension appears once", len(exts) == want)
	j := 0
	for i, id := range ids {
		if i == k {
			continue
		}
		vAssert("in order", exts[j].Id.Equal(id))
		crit := i == 0 || i == 2 || i == 6 && empty || i == 8 && tmpl.PermittedDNSDomainsCritical
		vAssert("critical where the standard says so", exts[j].Critical == crit)
		j++
	}
	vAssert("the explicit ones come last, as they are", vSame(exts[j:], tmpl.ExtraExtensions))
}

//@ harness C21
//@ contract processExtensions
func hExtUnknown() {
	n := vInt("number", 0, 1<<30)
	vAssume(n != 14 && n != 15 && n != 17 && n != 19 && (n < 30 || n > 32) && n != 35 && n != 37)
	ids := []asn1.ObjectIdentifier{{2, 5, 29, n}, {2, 5, 30, 15}, {1, 5, 29, 15}, {2, 5, 29}, {2, 5, 29, 15, 1}, {1, 3, 6, 1, 5, 5, 7, 1, 2}, {2, 6, 29, 15}, {}}
	e1 := pkix.Extension{Id: ids[vChoice("first", 8)], Critical: vBool("critical"), Value: vBytes("value")}
	e2 := pkix.Extension{Id: ids[vChoice("second", 2)], Critical: vBool("critical"), Value: vBytes("value")}
	out := &Certificate{Extensions: []pkix.Extension{e1, e2}}
	vAssert("unknown extensions are let pass", processExtensions(out) == nil)
	var want []asn1.ObjectIdentifier
	if e1.Critical {
		want = append(want, e1.Id)
	}
	if e2.Critical {
		want = append(want, e2.Id)
	}
	vAssert("and reported when they are critical", vSame(out.UnhandledCriticalExtensions, want))
	vAssert("with nothing else", vSame(*out, Certificate{Extensions: []pkix.Extension{e1, e2}, UnhandledCriticalExtensions: out.UnhandledCriticalExtensions}))
}

func vNet(name string) []*net.IPNet {
	var mask []byte
	switch vChoice(name, 9) {
	case 0:
		return nil
	case 1:
		mask = []byte{0, 0, 0, 0}
	case 2:
		mask = []byte{128, 0, 0, 0}
	case 3:
		mask = []byte{255, 255, 255, 254}
	case 4:
		mask = []byte{255, 255, 255, 255}
	case 5:
		mask = []byte{255, 240, 0, 0}
	case 6:
		mask = []byte{255, 0, 255, 0} // a gap
	case 7:
		mask = []byte{255, 255, 255, 255, 255, 252, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	default:
		mask = []byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}
	}
	n := len(mask)
	return []*net.IPNet{{IP: vFixedBytes("address", n), Mask: mask}}
}

func vDomains(name string) []string {
	switch vChoice(name, 2) {
	case 1:
		s := string(vBytesGen("domain", func() []byte {
			return []byte([]string{"a.example", ".b.example.org", "x@y.example", "", "a..b", "10.0.0.1", "\"q q\"@y", "@z", "x@", "a b@c", "é", "a b", "A"}[vPick(13)])
		}))
		if vExec() {
			d := s
			if name == "mail" && strings.Contains(s, "@") {
				_, ok := parseRFC2821Mailbox(s)
				gNamesOK = gNamesOK && ok
				return []string{s}
			}
			if len(d) > 0 && d[0] == '.' {
				d = d[1:]
			}
			if name == "uri" && net.ParseIP(s) != nil {
				gNamesOK = false
			}
			_, ok := domainToReverseLabels(d)
			gNamesOK = gNamesOK && ok
		}
		return []string{s}
	}
	return nil
}

//@ harness C21
//@ contract buildCertExtensions parseNameConstraintsExtension isValidIPMask
func hNameConstraints() {
	gNamesOK = true
	tmpl := &Certificate{PermittedDNSDomainsCritical: vBool("critical")}
	dns, mail, uri := vDomains("dns"), vDomains("mail"), vDomains("uri")
	ips := vNet("ip")
	if vBool("excluded") {
		tmpl.ExcludedDNSDomains, tmpl.ExcludedEmailAddresses, tmpl.ExcludedURIDomains, tmpl.ExcludedIPRanges = dns, mail, uri, ips
	} else {
		tmpl.PermittedDNSDomains, tmpl.PermittedEmailAddresses, tmpl.PermittedURIDomains, tmpl.PermittedIPRanges = dns, mail, uri, ips
	}
	exts, err := buildCertExtensions(tmpl, false, nil, nil)
	for _, l := range [][]string{dns, mail, uri} {
		for _, s := range l {
			if !vASCII(s) {
				vAssert("a constraint that is not an IA5String is rejected", err != nil)
				return
			}
		}
	}
	vAssert("constraints are encoded", err == nil)
	if len(dns)+len(mail)+len(uri)+len(ips) == 0 {
		vAssert("no constraints are no extension", len(exts) == 0)
		return
	}
	vAssert("as one extension", len(exts) == 1 && exts[0].Critical == tmpl.PermittedDNSDomainsCritical)
	out := &Certificate{Extensions: exts}
	err = processExtensions(out)
	if len(ips) > 0 && len(ips[0].Mask) == 4 && ips[0].Mask[2] == 255 && ips[0].Mask[1] == 0 {
		vAssert("a mask with a gap is rejected", err != nil)
		return
	}
	if !gNamesOK {
		vAssert("a malformed name is rejected", err != nil)
		return
	}
	vAssert("their encoding is decoded", err == nil)
	for i := range ips {
		ips[i].IP = sumMask(ips[i].IP, ips[i].Mask)
	}
	tmpl.Extensions = exts
	vAssert("to the same constraints", vSame(*out, *tmpl))
}

func vPoint2(name string) ([]byte, []string) {
	a, b := vIA5("url"), vIA5("url")
	point := func(n ...[]byte) []byte { return vDerTLV(0x30, vDerTLV(0xa0, vDerTLV(0xa0, cat(n...)))) }
	switch vChoice(name, 6) {
	case 0: // no name
		return vDerTLV(0x30, nil), nil
	case 1: // reasons only
		return vDerTLV(0x30, vDerTLV(0x81, vBytes("reasons"))), nil
	case 2:
		return point(vDerTLV(0x86, []byte(a))), []string{a}
	case 3:
		return point(vDerTLV(0x86, []byte(a)), vDerTLV(0x86, []byte(b))), []string{a, b}
	case 4: // what follows a name of another kind is not read
		return point(vDerTLV(0x86, []byte(a)), vDerTLV(0x82, []byte(b))), []string{a}
	}
	return vDerTLV(0x30, cat(vDerTLV(0xa0, vDerTLV(0xa0, vDerTLV(0x86, []byte(a)))), vDerTLV(0xa2, vBytes("issuer")))), []string{a}
}

func vAccess(name string) (der []byte, ocsp, issuers []string) {
	u := vIA5("url")
	o, i := asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 48, 1}, asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 48, 2}
	access := func(o asn1.ObjectIdentifier, tag byte) []byte {
		id, _ := asn1.Marshal(o)
		return vDerTLV(0x30, cat(id, vDerTLV(tag, []byte(u))))
	}
	switch vChoice(name, 5) {
	case 0:
		return access(o, 0x86), []string{u}, nil
	case 1:
		return access(i, 0x86), nil, []string{u}
	case 2: // another method
		return access(asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 48, 3}, 0x86), nil, nil
	case 3: // a location of another kind
		return access(o, 0x82), nil, nil
	}
	return access(i, 0xa4), nil, nil
}

// what others may have encoded
//
//@ harness C21
//@ contract processExtensions
func hExtPoints() {
	p, u := vPoint2("first")
	q, v := vPoint2("second")
	out := &Certificate{Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 31}, Value: vDerTLV(0x30, cat(p, q))}}}
	vAssert("distribution points are decoded", processExtensions(out) == nil)
	vAssert("to their URLs", vSame(out.CRLDistributionPoints, append(u, v...)))
}

//@ harness C21
//@ contract processExtensions
func hExtAccess() {
	p, o1, i1 := vAccess("first")
	q, o2, i2 := vAccess("second")
	out := &Certificate{Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}, Value: vDerTLV(0x30, cat(p, q))}}}
	vAssert("access descriptions are decoded", processExtensions(out) == nil)
	vAssert("to their OCSP servers", vSame(out.OCSPServer, append(o1, o2...)))
	vAssert("and issuers", vSame(out.IssuingCertificateURL, append(i1, i2...)))
}

//@ harness C21
//@ contract processExtensions
func hExtKeyBytes() {
	v := vBytesGen("value", func() []byte {
		return mangle([][]byte{vDerTLV(4, vFill(3)), vDerTLV(0x30, vDerTLV(0x80, vFill(4))), vDerTLV(0x30, nil), vDerTLV(0x30, vDerTLV(0x81, vFill(2)))}[vPick(4)])
	})
	if vBool("subject") {
		out := &Certificate{Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 14}, Value: v}}}
		err := processExtensions(out)
		k, _, ok := vDerRead(v, 4)
		vAssert("a subject key identifier is an octet string", (err == nil) == ok)
		if ok {
			vAssert("with the identifier", vEqual(out.SubjectKeyId, k))
		}
		return
	}
	out := &Certificate{Extensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: v}}}
	err := processExtensions(out)
	c, _, ok := vDerRead(v, 0x30)
	if !ok {
		vAssert("an authority key identifier is a sequence", err != nil)
		return
	}
	k, _, ok := vDerRead(c, 0x80)
	if !ok && len(c) > 0 && c[0] == 0x80 {
		vAssert("with a well-formed identifier", err != nil)
		return
	}
	vAssert("an authority key identifier is accepted", err == nil)
	if ok {
		vAssert("with the identifier", vEqual(out.AuthorityKeyId, k))
	} else {
		vAssert("without an identifier", len(out.AuthorityKeyId) == 0)
	}
}
