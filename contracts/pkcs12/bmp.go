package pkcs12

import (
	"unicode/utf8"
)

// ---- BMPString (RFC 7292 appendix B.1, UCS-2 with a zero terminator) ----

// two-byte big-endian units of the code points
func specUnits(rs []rune) []byte {
	b := make([]byte, 2*len(rs))
	for i := range rs {
		b[2*i] = byte(rs[i] >> 8)
		b[2*i+1] = byte(rs[i])
	}
	return b
}

func specBMP(rs []rune) bool {
	for _, r := range rs {
		if r >= 0x10000 {
			return false
		}
	}
	return true
}

func vText() string {
	return string(vBytesGen("text", func() []byte {
		rs := []rune{}
		for n := vPick(12); n > 0; n-- {
			switch vPick(8) {
			case 0:
				rs = append(rs, rune(0x10000+vPick(0x2000)))
			case 1:
				rs = append(rs, rune(0xe000+vPick(0x2000)))
			case 2:
				rs = append(rs, 0)
			case 3, 4:
				rs = append(rs, rune(vPick(0xd800)))
			default:
				rs = append(rs, rune(vPick(0x80)))
			}
		}
		b := []byte(string(rs))
		if vPick(6) == 0 && len(b) > 0 {
			b = b[:len(b)-1]
		}
		return b
	}))
}

//@ harness C19 nosum=bmpString,decodeBMPString
func hBMPEncode() {
	s := vText()
	rs := []rune(s)
	out, err := bmpString(s)
	if specBMP(rs) {
		vAssert("a string of the basic plane is encoded", err == nil)
		vAssert("its encoding is the big-endian units followed by two zero bytes", vEqual(out, cat(specUnits(rs), []byte{0, 0})))
		return
	}
	vAssert("a string with other characters is rejected", err != nil && len(out) == 0)
}

//@ harness C19 nosum=bmpString,decodeBMPString
func hBMPOdd() {
	b := vBytes("b")
	s, err := decodeBMPString(b)
	if len(b)%2 != 0 {
		vAssert("a byte string of odd length is rejected", err != nil && s == "")
	} else {
		vAssert("a byte string of even length is decoded", err == nil)
	}
}

//@ harness C19 nosum=bmpString,decodeBMPString
func hBMPRound() {
	s := vText()
	vAssume(utf8.ValidString(s))
	rs := []rune(s)
	vAssume(specBMP(rs))
	out, err := bmpString(s)
	vAssume(err == nil)
	t, err := decodeBMPString(out)
	vAssert("an encoded string is decoded", err == nil)
	vAssert("to itself", t == s)
	vAssume(len(rs) > 0 && rs[len(rs)-1] != 0)
	t, err = decodeBMPString(out[:len(out)-2])
	vAssert("an encoded string is decoded without its terminator", err == nil)
	vAssert("to itself without its terminator", t == s)
}
