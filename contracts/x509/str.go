package x509

import (
	"encoding/asn1"
	"crypto/x509/pkix"
	"golang.org/x/crypto/cryptobyte"
	"unicode/utf16"
	"unicode/utf8"

	cbasn1 "golang.org/x/crypto/cryptobyte/asn1"
)

// ---- character sets (X.680 clause 41; RFC 5280 section 4.1.2.4) ----

const printables = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?" +
	"*&" // the documented exceptions

func specPrintable(b byte) bool {
	for i := 0; i < len(printables); i++ {
		if printables[i] == b {
			return true
		}
	}
	return false
}

//@ harness C22
//@ contract isPrintable
func hPrintable() {
	b := vByte("b")
	if specPrintable(b) {
		vAssert("a character of the set is printable", isPrintable(b))
	} else {
		vAssert("other characters are not printable", !isPrintable(b))
	}
}

func genText() []byte {
	b := make([]byte, vPick(12))
	for i := range b {
		switch vPick(12) {
		case 0:
			b[i] = vRngByte()
		case 1:
			b[i] = 0
		case 2:
			b[i] = byte(0x7e + vPick(4))
		default:
			b[i] = printables[vPick(len(printables))]
		}
	}
	if vPick(4) == 0 {
		b = append(b, "aé日𝄞"[:vPick(10)]...)
	}
	return b
}

func vRngByte() byte { return byte(vPick(256)) }

//@ harness C22
//@ contract isIA5String
func hIA5() {
	s := string(vBytesGen("s", genText))
	if vASCII(s) {
		vAssert("a string of bytes below 0x80 is an IA5String", isIA5String(s) == nil)
	} else {
		vAssert("other strings are not", isIA5String(s) != nil)
	}
}

func allPrintable(v []byte) bool {
	for _, b := range v {
		if !isPrintable(b) {
			return false
		}
	}
	return true
}

func allNumeric(v []byte) bool {
	for _, b := range v {
		if b != ' ' && (b < '0' || b > '9') {
			return false
		}
	}
	return true
}

//@ harness C22 nosum=parseASN1String
//@ contract parseASN1String
func hASN1String() {
	v := vBytesGen("value", genText)
	ok, text := false, string(v)
	tag := vChoice("tag", 256)
	vAssume(tag != 30)
	switch tag {
	case 20:
		ok = true
	case 19:
		ok = allPrintable(v)
	case 12:
		ok = utf8.Valid(v)
	case 22:
		ok = vASCII(text)
	case 18:
		ok = allNumeric(v)
	}
	s, err := parseASN1String(cbasn1.Tag(tag), v)
	if !ok {
		vAssert("a string of another type or with other characters is rejected", err != nil && s == "")
		return
	}
	vAssert("a string of its character set is accepted", err == nil)
	vAssert("and returned unchanged", s == text)
}

// the code units of a BMPString
func bmpUnits(v []byte) []uint16 {
	u := make([]uint16, len(v)/2)
	for i := range u {
		u[i] = uint16(v[2*i])<<8 | uint16(v[2*i+1])
	}
	return u
}

//@ harness C22 nosum=parseASN1String
//@ contract parseASN1String
func hBMPString() {
	v := vBytesGen("value", func() []byte {
		b := []byte{}
		for n := vPick(6); n > 0; n-- {
			switch vPick(4) {
			case 0:
				b = append(b, 0, 0)
			case 1:
				b = append(b, byte(0xd8+vPick(8)), vRngByte())
			default:
				b = append(b, byte(vPick(2)), vRngByte())
			}
		}
		if vPick(6) == 0 {
			b = append(b, 0)
		}
		return b
	})
	s, err := parseASN1String(30, v)
	if len(v)%2 != 0 {
		vAssert("a BMPString of odd length is rejected", err != nil && s == "")
		return
	}
	vAssert("a BMPString of even length is accepted", err == nil)
	if len(v) >= 2 && v[len(v)-1] == 0 && v[len(v)-2] == 0 {
		vAssert("and returned without its terminator", s == string(utf16.Decode(bmpUnits(v[:len(v)-2]))))
	} else {
		vAssert("and returned unchanged", s == string(utf16.Decode(bmpUnits(v))))
	}
}

// A name of up to two sets of up to two attributes: each attribute has the
// type that is encoded and the text parseASN1String gives for its value; one
// that is not accepted there is rejected.
type nameText struct {
	tag   byte
	value []byte
	ok    bool
	text  string
}

var nameTexts []*nameText
var nameNext int

//@ summary parseASN1String for=C22
func sumASN1String(tag cbasn1.Tag, value []byte) (string, error) {
	if nameNext < len(nameTexts) {
		t := nameTexts[nameNext]
		nameNext++
		vAssert("the attributes are read in order", byte(tag) == t.tag && vEqual(value, t.value))
		if t.ok {
			return t.text, nil
		}
		return "", errAny
	}
	if vBool("the text is invalid") {
		return "", errAny
	}
	return string(vBytes("text")), nil
}

//@ harness C22
//@ contract parseName
func hName() {
	nameTexts, nameNext = nil, 0
	oids := [][]byte{{85, 4, 3}, {85, 4, 10}}
	var sets []byte
	counts := [][]int{{}, {0}, {1}, {2}, {1, 1}, {2, 1}}[vChoice("sets", 6)]
	ok := true
	for i, n := range counts {
		var set []byte
		for j := 0; j < n; j++ {
			t := &nameText{tag: []byte{19, 12, 22, 4}[(j+vChoice("tag", 4))%4], value: vBytesGen("value", genText)}
			if vExec() {
				s, err := parseASN1String(cbasn1.Tag(t.tag), t.value)
				t.ok, t.text = err == nil, s
			} else {
				t.ok, t.text = vBool("valid"), string(vBytes("text"))
			}
			ok = ok && t.ok
			nameTexts = append(nameTexts, t)
			set = cat(set, vDerTLV(0x30, cat(vDerTLV(6, oids[(i+j)%2]), vDerTLV(t.tag, t.value))))
		}
		sets = cat(sets, vDerTLV(0x31, set))
	}
	rdns, err := parseName(cryptobyte.String(vDerTLV(0x30, sets)))
	if !ok {
		vAssert("a name with an invalid string is rejected", err != nil && rdns == nil)
		return
	}
	vAssert("a name of valid strings is accepted", err == nil && len(*rdns) == len(counts))
	k := 0
	for i, n := range counts {
		vAssert("the attributes", len((*rdns)[i]) == n)
		for j := 0; j < n; j++ {
			a := (*rdns)[i][j]
			s, isText := a.Value.(string)
			vAssert("the text unchanged", isText && s == nameTexts[k].text)
			vAssert("the type", len(a.Type) == 4 && a.Type[0] == 2 && a.Type[1] == 5 && a.Type[2] == 4 && a.Type[3] == int(oids[(i+j)%2][2]))
			k++
		}
	}
}

//@ harness C22 longlists
//@ contract parseName
func hNameBytes() {
	nameTexts, nameNext = nil, 0
	b := vBytesGen("name", genName)
	rdns, err := parseName(cryptobyte.String(b))
	if _, _, ok := vDerRead(b, 0x30); !ok {
		vAssert("what is not a sequence is rejected", err != nil)
	}
	vAssert("a name or an error", (err == nil) == (rdns != nil))
}

func genName() []byte {
	b, _ := asn1.Marshal(pkix.Name{CommonName: string(genText()), Organization: []string{"x"}}.ToRDNSequence())
	return mangle(b)
}
