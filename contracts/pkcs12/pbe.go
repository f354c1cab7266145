package pkcs12

import (
	"crypto/cipher"
	"crypto/des"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
)

// ---- PKCS #12 password-based encryption (RFC 7292 appendix C) ----

// the key derivation, proved in C16
//
//@ opaque len=size
func absKDF(salt, password []byte, iter int, id byte, size int) []byte {
	return specKDF(salt, password, iter, id, size)
}

func derived(salt, password []byte, iter int, id byte, size int) []byte {
	return absKDF(salt, password, iter, id, size)
}

//@ summary pbkdf
func sumKDF(hash func([]byte) []byte, u, v int, salt, password []byte, r int, ID byte, size int) []byte {
	vAssert("precondition of pbkdf: SHA-1, 20-byte output, 64-byte blocks, at most 40 bytes", u == 20 && v == 64 && 1 <= size && size <= 40)
	probe := vBytes("probe")
	vAssert("precondition of pbkdf: SHA-1", vEqual(hash(probe), specSha1(probe)))
	return derived(salt, password, r, ID, size)
}

// the key expansion, proved in C17
//
//@ opaque
func absExpand(key []byte, t1 int) [64]uint16 { return specExpand(key, t1) }

//@ summary expandKey
func sumExpand(key []byte, t1 int) [64]uint16 {
	vAssert("precondition of expandKey", 1 <= len(key) && len(key) <= 128 && 1 <= t1 && t1 <= 1024)
	return absExpand(key, t1)
}

var (
	spec3DES = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 1, 3}
	specRC40 = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 1, 6}
)

type specPBEParams struct {
	Salt       []byte
	Iterations int
}

// the cipher an algorithm identifier and a password select
func specCipher(alg pkix.AlgorithmIdentifier, password []byte) (b cipher.Block, iv []byte) {
	var p specPBEParams
	rest, err := asn1.Unmarshal(alg.Parameters.FullBytes, &p)
	if err != nil || len(rest) != 0 {
		return nil, nil
	}
	iv = derived(p.Salt, password, p.Iterations, 2, 8)
	switch {
	case alg.Algorithm.Equal(spec3DES):
		b, err = des.NewTripleDESCipher(derived(p.Salt, password, p.Iterations, 1, 24))
		if err != nil {
			return nil, nil
		}
	case alg.Algorithm.Equal(specRC40):
		b = &rc2Cipher{k: absExpand(derived(p.Salt, password, p.Iterations, 1, 5), 40)}
	default:
		return nil, nil
	}
	return b, iv
}

func specPad(content []byte) []byte {
	n := 8 - len(content)%8
	r := cat(content)
	for i := 0; i < n; i++ {
		r = append(r, byte(n))
	}
	return r
}

// the content of a padded text; ok: the padding is well formed
func specUnpad(text []byte) (content []byte, ok bool) {
	if len(text) == 0 {
		return nil, false
	}
	n := int(text[len(text)-1])
	if n < 1 || n > 8 || n > len(text) {
		return nil, false
	}
	for i := 1; i < n; i++ {
		if text[len(text)-1-i] != byte(n) {
			return nil, false
		}
	}
	return text[:len(text)-n], true
}

// what a ciphertext decrypts to, if anything
func specDecrypt(alg pkix.AlgorithmIdentifier, data, password []byte) ([]byte, bool) {
	b, iv := specCipher(alg, password)
	if b == nil || len(data) == 0 || len(data)%8 != 0 {
		return nil, false
	}
	text := make([]byte, len(data))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(text, data)
	return specUnpad(text)
}

//@ opaque
func absDecrypts(algorithm asn1.ObjectIdentifier, params, data, password []byte) bool {
	_, ok := specDecrypt(pkix.AlgorithmIdentifier{Algorithm: algorithm, Parameters: asn1.RawValue{FullBytes: params}}, data, password)
	return ok
}

//@ opaque
func absDecrypted(algorithm asn1.ObjectIdentifier, params, data, password []byte) []byte {
	b, _ := specDecrypt(pkix.AlgorithmIdentifier{Algorithm: algorithm, Parameters: asn1.RawValue{FullBytes: params}}, data, password)
	return b
}

// decryption as proved by hDecrypt
func decrypted(alg pkix.AlgorithmIdentifier, data, password []byte) ([]byte, bool) {
	for _, e := range gEncrypted {
		if alg.Algorithm.Equal(e.alg) && vEqual(alg.Parameters.FullBytes, e.params) && vEqual(password, e.password) && vEqual(data, e.data) {
			return e.content, true
		}
	}
	if !absDecrypts(alg.Algorithm, alg.Parameters.FullBytes, data, password) {
		return nil, false
	}
	return absDecrypted(alg.Algorithm, alg.Parameters.FullBytes, data, password), true
}

// the authentication that must precede decryption
var gMustMatch bool
var gMac specMacData
var gContent []byte

//@ summary pbDecrypt
func sumDecrypt(info decryptable, password []byte) ([]byte, error) {
	if gMustMatch {
		vAssert("nothing is decrypted before authentication", specMatches(gMac, gContent, password))
	}
	b, ok := decrypted(info.Algorithm(), info.Data(), password)
	if !ok {
		return nil, errors.New("decryption")
	}
	return b, nil
}

type encryption struct {
	alg                             asn1.ObjectIdentifier
	params, data, password, content []byte
}

// what has been encrypted, and therefore decrypts
var gEncrypted []encryption

//@ opaque
func absEncrypted(algorithm asn1.ObjectIdentifier, params, content, password []byte) []byte { return nil }

// encryption as proved by hEncrypt: with an algorithm it knows and well-formed
// parameters it gives what decrypts to the content
//
//@ summary pbEncrypt
func sumEncrypt(info encryptable, content, password []byte) error {
	alg := info.Algorithm()
	var p specPBEParams
	if !specParse(alg.Parameters.FullBytes, &p) || !alg.Algorithm.Equal(spec3DES) && !alg.Algorithm.Equal(specRC40) {
		return errors.New("algorithm")
	}
	data := absEncrypted(alg.Algorithm, alg.Parameters.FullBytes, content, password)
	vAssume(absDecrypts(alg.Algorithm, alg.Parameters.FullBytes, data, password))
	vAssume(vEqual(absDecrypted(alg.Algorithm, alg.Parameters.FullBytes, data, password), content))
	gEncrypted = append(gEncrypted, encryption{alg.Algorithm, alg.Parameters.FullBytes, cat(data), cat(password), cat(content)})
	info.SetData(data)
	return nil
}

func genPBEParams() []byte {
	b, _ := asn1.Marshal(specPBEParams{genSalt(), []int{1, 1, 2, 3, 0, -1}[vPick(6)]})
	switch vPick(12) {
	case 0:
		b = append(b, 5, 0)
	case 1:
		b = b[:len(b)-1]
	case 2:
		return nil
	}
	return b
}

func vPBEAlgorithm() (a pkix.AlgorithmIdentifier) {
	switch vChoice("algorithm", 4) {
	case 0:
		a.Algorithm = spec3DES
	case 1:
		a.Algorithm = specRC40
	case 2:
		a.Algorithm = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 12, 1, 5}
	case 3:
		a.Algorithm = nil
	}
	a.Parameters.FullBytes = vBytesGen("parameters", genPBEParams)
	return a
}

// Decryption returns exactly the unpadded plaintext, and refuses everything else.
//
//@ harness C18 nosum=pbDecrypt,pbEncrypt
//@ contract pbDecrypt pbDecrypterFor pbeCipherFor shaWithTripleDESCBC.create shaWithTripleDESCBC.deriveKey shaWithTripleDESCBC.deriveIV shaWith40BitRC2CBC.create shaWith40BitRC2CBC.deriveKey shaWith40BitRC2CBC.deriveIV unmarshal
func hDecrypt() {
	alg := vPBEAlgorithm()
	password := vBytesGen("password", genPass)
	b, iv := specCipher(alg, password)
	data := vBytesGen("data", func() []byte {
		// mostly ciphertexts of texts with good or nearly good padding
		t := specPad(vFill(vPick(20)))
		switch vPick(8) {
		case 0:
			t[len(t)-1-vPick(8)] ^= byte(1 + vPick(9))
		case 1:
			t[len(t)-1] = byte(vPick(12))
		case 2:
			for i := 0; i < 8; i++ {
				t[len(t)-1-i] = []byte{0, 8, 9}[vPick(3)]
			}
		}
		if b != nil {
			cipher.NewCBCEncrypter(b, iv).CryptBlocks(t, t)
		}
		switch vPick(10) {
		case 0:
			t = t[:len(t)-1-vPick(8)]
		case 1:
			t = append(t, 1)
		}
		return t
	})
	data0, password0 := cat(data), cat(password)
	var out []byte
	var err error
	if vBool("shrouded key") {
		out, err = pbDecrypt(&encryptedPrivateKeyInfo{AlgorithmIdentifier: alg, EncryptedData: data}, password)
	} else {
		out, err = pbDecrypt(encryptedContentInfo{ContentEncryptionAlgorithm: alg, EncryptedContent: data}, password)
	}
	vAssert("arguments unchanged", vEqual(data, data0) && vEqual(password, password0))
	if err != nil {
		vAssert("no content with an error", out == nil)
	}
	if b == nil {
		vAssert("unknown algorithm or malformed parameters", err != nil)
		return
	}
	if len(data0) == 0 || len(data0)%8 != 0 {
		vAssert("not a positive multiple of the block size", err != nil)
		return
	}
	text := make([]byte, len(data0))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(text, data0)
	content, ok := specUnpad(text)
	if !ok {
		vAssert("malformed padding", err != nil)
		return
	}
	vAssert("accepted", err == nil)
	vAssert("the content", vEqual(out, content))
}

// Encryption is CBC over the padded content, and decrypts back.
//
//@ harness C18 nosum=pbDecrypt,pbEncrypt
//@ contract pbEncrypt pbEncrypterFor pbeCipherFor encryptedContentInfo.SetData encryptedContentInfo.Data encryptedPrivateKeyInfo.SetData encryptedPrivateKeyInfo.Data
func hEncrypt() {
	alg := vPBEAlgorithm()
	password := vBytesGen("password", genPass)
	content := vBytesGen("content", func() []byte { return vFill(vPick(30)) })
	content0, password0 := cat(content), cat(password)
	key := vBool("shrouded key")
	k := &encryptedPrivateKeyInfo{AlgorithmIdentifier: alg}
	c := &encryptedContentInfo{ContentEncryptionAlgorithm: alg}
	var err error
	if key {
		err = pbEncrypt(k, content, password)
	} else {
		err = pbEncrypt(c, content, password)
	}
	vAssert("arguments unchanged", vEqual(content, content0) && vEqual(password, password0))
	b, iv := specCipher(alg, password0)
	if b == nil {
		vAssert("unknown algorithm or malformed parameters", err != nil)
		vAssert("no data with an error", k.EncryptedData == nil && c.EncryptedContent == nil)
		return
	}
	vAssert("accepted", err == nil)
	want := specPad(content0)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(want, want)
	var out []byte
	if key {
		vAssert("ciphertext", vEqual(k.EncryptedData, want))
		out, err = pbDecrypt(k, password)
	} else {
		vAssert("ciphertext", vEqual(c.EncryptedContent, want))
		out, err = pbDecrypt(c, password)
	}
	vAssert("decrypts", err == nil)
	vAssert("round trip", vEqual(out, content0))
}
