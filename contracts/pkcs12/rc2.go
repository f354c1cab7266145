package pkcs12

// RFC 2268, written from the text of the standard.

var specPI = [256]byte{
	0xd9, 0x78, 0xf9, 0xc4, 0x19, 0xdd, 0xb5, 0xed, 0x28, 0xe9, 0xfd, 0x79, 0x4a, 0xa0, 0xd8, 0x9d,
	0xc6, 0x7e, 0x37, 0x83, 0x2b, 0x76, 0x53, 0x8e, 0x62, 0x4c, 0x64, 0x88, 0x44, 0x8b, 0xfb, 0xa2,
	0x17, 0x9a, 0x59, 0xf5, 0x87, 0xb3, 0x4f, 0x13, 0x61, 0x45, 0x6d, 0x8d, 0x09, 0x81, 0x7d, 0x32,
	0xbd, 0x8f, 0x40, 0xeb, 0x86, 0xb7, 0x7b, 0x0b, 0xf0, 0x95, 0x21, 0x22, 0x5c, 0x6b, 0x4e, 0x82,
	0x54, 0xd6, 0x65, 0x93, 0xce, 0x60, 0xb2, 0x1c, 0x73, 0x56, 0xc0, 0x14, 0xa7, 0x8c, 0xf1, 0xdc,
	0x12, 0x75, 0xca, 0x1f, 0x3b, 0xbe, 0xe4, 0xd1, 0x42, 0x3d, 0xd4, 0x30, 0xa3, 0x3c, 0xb6, 0x26,
	0x6f, 0xbf, 0x0e, 0xda, 0x46, 0x69, 0x07, 0x57, 0x27, 0xf2, 0x1d, 0x9b, 0xbc, 0x94, 0x43, 0x03,
	0xf8, 0x11, 0xc7, 0xf6, 0x90, 0xef, 0x3e, 0xe7, 0x06, 0xc3, 0xd5, 0x2f, 0xc8, 0x66, 0x1e, 0xd7,
	0x08, 0xe8, 0xea, 0xde, 0x80, 0x52, 0xee, 0xf7, 0x84, 0xaa, 0x72, 0xac, 0x35, 0x4d, 0x6a, 0x2a,
	0x96, 0x1a, 0xd2, 0x71, 0x5a, 0x15, 0x49, 0x74, 0x4b, 0x9f, 0xd0, 0x5e, 0x04, 0x18, 0xa4, 0xec,
	0xc2, 0xe0, 0x41, 0x6e, 0x0f, 0x51, 0xcb, 0xcc, 0x24, 0x91, 0xaf, 0x50, 0xa1, 0xf4, 0x70, 0x39,
	0x99, 0x7c, 0x3a, 0x85, 0x23, 0xb8, 0xb4, 0x7a, 0xfc, 0x02, 0x36, 0x5b, 0x25, 0x55, 0x97, 0x31,
	0x2d, 0x5d, 0xfa, 0x98, 0xe3, 0x8a, 0x92, 0xae, 0x05, 0xdf, 0x29, 0x10, 0x67, 0x6c, 0xba, 0xc9,
	0xd3, 0x00, 0xe6, 0xcf, 0xe1, 0x9e, 0xa8, 0x2c, 0x63, 0x16, 0x01, 0x3f, 0x58, 0xe2, 0x89, 0xa9,
	0x0d, 0x38, 0x34, 0x1b, 0xab, 0x33, 0xff, 0xb0, 0xbb, 0x48, 0x0c, 0x5f, 0xb9, 0xb1, 0xcd, 0x2e,
	0xc5, 0xf3, 0xdb, 0x47, 0xe5, 0xa5, 0x9c, 0x77, 0x0a, 0xa6, 0x20, 0x68, 0xfe, 0x7f, 0xc1, 0xad,
}

// section 2: key expansion; T1 effective key bits, T8 = ceil(T1/8), TM = 255 mod 2^(8+T1-8*T8)
func specExpand(key []byte, t1 int) [64]uint16 {
	var l [128]byte
	t := len(key)
	copy(l[:], key)
	for i := t; i < 128; i++ {
		l[i] = specPI[l[i-1]+l[i-t]]
	}
	t8 := (t1 + 7) / 8
	l[128-t8] = specPI[l[128-t8]&(0xff>>uint(8*t8-t1))]
	for i := 127 - t8; i >= 0; i-- {
		l[i] = specPI[l[i+1]^l[i+t8]]
	}
	var k [64]uint16
	for i := 0; i < 64; i++ {
		k[i] = uint16(l[2*i]) | uint16(l[2*i+1])<<8
	}
	return k
}

var specRot = [4]uint{1, 2, 3, 5}

// section 3: 5 mixing rounds, a mashing round, 6 mixing rounds, a mashing round, 5 mixing rounds
func specRC2(k [64]uint16, in [8]byte) [8]byte {
	var r [4]uint16
	for i := 0; i < 4; i++ {
		r[i] = uint16(in[2*i]) | uint16(in[2*i+1])<<8
	}
	j := 0
	for round := 1; round <= 16; round++ {
		for i := 0; i < 4; i++ {
			a, b, c := r[(i+3)%4], r[(i+2)%4], r[(i+1)%4]
			x := r[i] + k[j] + (a & b) + (^a & c)
			r[i] = x<<specRot[i] | x>>(16-specRot[i])
			j++
		}
		if round == 5 || round == 11 {
			for i := 0; i < 4; i++ {
				r[i] += k[r[(i+3)%4]&63]
			}
		}
	}
	var out [8]byte
	for i := 0; i < 4; i++ {
		out[2*i], out[2*i+1] = byte(r[i]), byte(r[i]>>8)
	}
	return out
}

func vRC2Key() (c *rc2Cipher) {
	c = &rc2Cipher{}
	for i := range c.k {
		c.k[i] = vUint16("subkey")
	}
	return c
}

func arr8(b []byte) (r [8]byte) {
	copy(r[:], b)
	return r
}

// Encrypt is RFC 2268 encryption for every expanded key and block, in place or
// not, and touches nothing but the destination block.
//
//@ harness C17 nosum=expandKey
//@ contract rc2Cipher.Encrypt
func hRC2Encrypt() {
	c := vRC2Key()
	k0 := c.k
	src := vFixedBytes("src", 8)
	s0 := arr8(src)
	if vBool("in place") {
		c.Encrypt(src, src)
		vAssert("encrypts", arr8(src) == specRC2(k0, s0))
		return
	}
	dst := vFixedBytes("dst", 13)
	tail := append([]byte{}, dst[8:]...)
	c.Encrypt(dst, src)
	vAssert("encrypts", arr8(dst) == specRC2(k0, s0))
	vAssert("only the block is written", vEqual(dst[8:], tail) && arr8(src) == s0 && c.k == k0)
}

//@ harness C17 nosum=expandKey
//@ contract rc2Cipher.Decrypt
func hRC2Decrypt() {
	c := vRC2Key()
	k0 := c.k
	m := arr8(vFixedBytes("block", 8))
	src := specRC2(k0, m)
	s := src[:]
	if vBool("in place") {
		c.Decrypt(s, s)
		vAssert("inverts", arr8(s) == m)
		return
	}
	dst := vFixedBytes("dst", 11)
	tail := append([]byte{}, dst[8:]...)
	c.Decrypt(dst, s)
	vAssert("inverts", arr8(dst) == m)
	vAssert("only the block is written", vEqual(dst[8:], tail) && arr8(s) == specRC2(k0, m) && c.k == k0)
}

// The key expansion of RFC 2268 for every key of 1 to 128 bytes and every
// effective length of 1 to 1024 bits.
//
//@ harness C17 nosum=expandKey
//@ contract expandKey New rc2Cipher.BlockSize
func hRC2Expand() {
	n := vInt("key length", 1, 128)
	t1 := 8*vInt("T8", 1, 128) - vChoice("missing bits", 8)
	key := vFixedBytes("key", n)
	k0 := append([]byte{}, key...)
	b, err := New(key, t1)
	vAssert("accepted", err == nil && b.BlockSize() == 8)
	vAssert("expanded key", b.(*rc2Cipher).k == specExpand(k0, t1))
	vAssert("key unchanged", vEqual(key, k0))
}

// both together and through the interface
//
//@ harness C17 bounded
func hRC2Cipher() {
	n := vInt("key length", 1, 128)
	t1 := vInt("effective", 1, 1024)
	key := vFixedBytes("key", n)
	b := vFixedBytes("block", 8)
	c, err := New(key, t1)
	vAssert("accepted", err == nil)
	e, d := make([]byte, 8), make([]byte, 8)
	c.Encrypt(e, b)
	vAssert("encrypts", arr8(e) == specRC2(specExpand(key, t1), arr8(b)))
	c.Decrypt(d, e)
	vAssert("inverts", vEqual(d, b))
}
