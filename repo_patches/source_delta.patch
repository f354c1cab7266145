From 7a22beb0f015935c40a9bbf4d0dcd68efd2ff5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 01/20] fix: sm2 PublicKey.VerifyRS passes message and identity
 in the right order

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..94031b7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From 7874ce6d9853f65461d6a830e7b3428cee8666e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 02/20] fix: sm2 kdf hashes every counter block separately and
 truncates only the last one

---
 sm2/sm2.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 94031b7..f36913a 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -425,17 +425,14 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
-		hash := h.Sum(nil)
-		if klen%32 != 0 {
-			out = append(out, hash[:klen%32]...)
-		} else {
-			out = append(out, hash...)
-		}
+		out = h.Sum(out)
 		ct++
 	}
+	out = out[:klen]
 	for i := 0; i < len(out); i++ {
 		if out[i] != 0 {
 			return out, true
-- 
2.43.0


From dc41a61920671ae74aeb4a48d2838a8906997f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 03/20] fix: sm2 encryption encodes field elements as exactly
 32 bytes

---
 sm2/sm2.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f36913a..f427ca1 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,14 +394,14 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -479,9 +479,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From 68a4e8cf91f6137f1075629fd7bb6a86abbd391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 04/20] fix: sm2 Encryt reports an empty message instead of
 looping forever

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f427ca1..0bdfe33 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -384,6 +384,9 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 
 func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 	length := len(msg)
+	if length == 0 {
+		return nil, errors.New("failed to encrypt:empty message")
+	}
 	for {
 		c := []byte{}
 		curve := pub.Curve
-- 
2.43.0


From e81076055c0cabb34ffb24354851ca0883b6584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 05/20] fix: sm2 Decryt rejects malformed ciphertexts and
 returns no plaintext with an error

---
 sm2/sm2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 0bdfe33..68c2ab0 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -451,6 +451,10 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	//0x04 || C1 || C3 || C2，C2不能为空
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, errors.New("failed to decrypt:malformed ciphertext")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
@@ -487,7 +491,7 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
-		return c, errors.New("failed to decrypt:hash compared error")
+		return nil, errors.New("failed to decrypt:hash compared error")
 	}
 	return c, nil
 }
-- 
2.43.0


From 7ffdf4b1700fc98797de7c7738c7a7c28f4e7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 06/20] fix: sm2 verification rejects only the point at
 infinity, not every point with a zero coordinate

---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 68c2ab0..15f9ef4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -340,7 +340,7 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
@@ -374,7 +374,7 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
-- 
2.43.0


From e08aa98d8b70c520e4f76e940193f4dd62d75623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 07/20] fix: sm2 signing rejects private scalars outside
 [1,n-2] instead of panicking

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 15f9ef4..628f516 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -273,6 +273,10 @@ func SignDigestRS(rand io.Reader, priv *PrivateKey, digest []byte) (r, s *big.In
 	if N.Sign() == 0 {
 		return nil, nil, errZeroParam
 	}
+	//私钥d的取值范围是[1,n-2]，否则1+d不可逆
+	if priv.D.Sign() <= 0 || new(big.Int).Add(priv.D, one).Cmp(N) >= 0 {
+		return nil, nil, errors.New("invalid private key")
+	}
 	for {
 		var k *big.Int
 		var err error
-- 
2.43.0


From e7eba5c6bcbf1c85d9810fc611126d16dc910337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 08/20] fix: sm2 rejects identities whose bit length does not
 fit the two-byte field

---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 628f516..ffb8e72 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -131,6 +131,10 @@ func (pub *PublicKey) SM3Digest(msg []byte, uid []byte) ([]byte, error) {
 	if len(uid) == 0 {
 		uid = sm2SignDefaultUserId
 	}
+	//标识的比特长度用两个字节表示
+	if len(uid) > 0xFFFF/8 {
+		return nil, errors.New("user id too long")
+	}
 	digest := sm3.New()
 	z := z(digest, pub.X, pub.Y, uid)
 	digest.Reset()
@@ -252,6 +256,9 @@ func Sign(rand io.Reader, priv *PrivateKey, in, uid []byte) ([]byte, error) {
 //原文裸签，返回R||S
 func SignRS(rand io.Reader, priv *PrivateKey, in, userId []byte) (r, s *big.Int, err error) {
 	hash, err := priv.PublicKey.SM3Digest(in, userId)
+	if err != nil {
+		return nil, nil, err
+	}
 	return SignDigestRS(rand, priv, hash)
 }
 
-- 
2.43.0


From 402e18d7b49a0aad04ec916c3dca622fc3e620fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 09/20] fix: sm2 GenerateKey never returns the scalars 0 and
 n-1

---
 sm2/sm2.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index ffb8e72..a5da108 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -92,18 +92,25 @@ func (pub *PublicKey) Equal(x crypto.PublicKey) bool {
 
 //生成SM2密钥对
 func GenerateKey(random io.Reader) (*PrivateKey, error) {
-	d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
-	if err != nil {
-		return nil, err
+	for {
+		d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
+		if err != nil {
+			return nil, err
+		}
+		//d的取值范围是[1,n-2]
+		D := new(big.Int).SetBytes(d)
+		if D.Sign() == 0 || new(big.Int).Add(D, one).Cmp(SM2P256V1().N) >= 0 {
+			continue
+		}
+		return &PrivateKey{
+			PublicKey: PublicKey{
+				Curve: SM2P256V1(),
+				X:     x,
+				Y:     y,
+			},
+			D: D,
+		}, nil
 	}
-	return &PrivateKey{
-		PublicKey: PublicKey{
-			Curve: SM2P256V1(),
-			X:     x,
-			Y:     y,
-		},
-		D: new(big.Int).SetBytes(d),
-	}, err
 }
 
 //原文裸签，返回R||S
-- 
2.43.0


From 1a409c73e4876da484246c2efb470c9378d04ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 10/20] fix: Ed25519 signatures were always refused as
 unsupported

---
 x509/x509.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..0bd7055 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,17 +1015,20 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
-		return ErrUnsupportedAlgorithm
-	}
-
 	if hashType == 0 && pubKeyAlgo != Ed25519 {
 		return ErrUnsupportedAlgorithm
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
+	// Ed25519 signs the message itself, there is no pre-hashing.
+	signed := plain
+	if hashType != 0 {
+		if !hashType.Available() {
+			return ErrUnsupportedAlgorithm
+		}
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
+	}
 
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
-- 
2.43.0


From a4e7279a2896d7709497358d30d772f5fd129fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 11/20] fix: MD5 and SHA-1 signatures are for signing only, do
 not verify them

---
 x509/x509.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 0bd7055..8cee9aa 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1019,6 +1019,11 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		return ErrUnsupportedAlgorithm
 	}
 
+	switch hashType {
+	case MD5, SHA1:
+		return InsecureAlgorithmError(algo)
+	}
+
 	// Ed25519 signs the message itself, there is no pre-hashing.
 	signed := plain
 	if hashType != 0 {
-- 
2.43.0


From 062ad22c7a01a70a0ca96f44724c5f24d910a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 12/20] fix: SM2WithSM3 is for SM2 keys and the other ECDSA
 algorithms are not

---
 x509/x509.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 8cee9aa..d29f146 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1046,7 +1046,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 			return rsa.VerifyPKCS1v15(pub, crypto.Hash(hashType), signed, signature)
 		}
 	case *ecdsa.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if pubKeyAlgo != ECDSA || algo == SM2WithSM3 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if !ecdsa.VerifyASN1(pub, signed, signature) {
@@ -1054,7 +1054,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 		return
 	case *sm2.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if algo != SM2WithSM3 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if pub.Curve != sm2.SM2P256V1() {
@@ -1606,7 +1606,8 @@ func signingParamsForPublicKey(pub any, requestedSigAlgo SignatureAlgorithm) (ha
 	found := false
 	for _, details := range signatureAlgorithmDetails {
 		if details.algo == requestedSigAlgo {
-			if details.pubKeyAlgo != pubType {
+			_, isSM2 := pub.(*sm2.PublicKey)
+			if details.pubKeyAlgo != pubType || isSM2 != (requestedSigAlgo == SM2WithSM3) {
 				err = errors.New("x509: requested SignatureAlgorithm does not match private key type")
 				return
 			}
-- 
2.43.0


From 3eef8bed9ca0c61dfa342a9481d9a939f0e864cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 13/20] fix: hand SM2 signers the message for certificates,
 requests and revocation lists, as CreateCRL does

---
 x509/x509.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index d29f146..6d9b0c3 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1769,8 +1769,9 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	}
 	c.Raw = tbsCertContents
 
+	// SM2 signers take the message, not its digest.
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2198,8 +2199,9 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	}
 	tbsCSR.Raw = tbsCSRContents
 
+	// SM2 signers take the message, not its digest.
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2401,8 +2403,9 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
+	// SM2 signers take the message, not its digest.
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From 1bf5f7b2d6a0118105f80841c70c851137d9a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 14/20] fix: certificate requests with an RSA-PSS algorithm
 were signed with PKCS #1 v1.5

---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index 6d9b0c3..435af5a 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2207,8 +2207,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From b943a7d9bdb0d33d40895a40a75cd69ab75ccd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 15/20] fix: PKCS #7 signing ignored failures of the signer

---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..77a5bee 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 8cbb123568c663ddff5c08efde9240bef0550540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 16/20] fix: parsing of signed data ignored malformed
 structures

---
 x509/pkcs7.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 77a5bee..927e99f 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -472,7 +472,11 @@ type unsignedData []byte
 
 func parseSignedData(data []byte) (*PKCS7, error) {
 	var sd signedData
-	asn1.Unmarshal(data, &sd)
+	if rest, err := asn1.Unmarshal(data, &sd); err != nil {
+		return nil, err
+	} else if len(rest) > 0 {
+		return nil, asn1.SyntaxError{Msg: "trailing data"}
+	}
 	certs, err := sd.Certificates.Parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9c999086d7429c8028603a4c1591f88f4ad65616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 17/20] fix: the zero scalar is not an elliptic curve private
 key

---
 x509/sec1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..a625277 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -103,7 +103,7 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 
 	k := new(big.Int).SetBytes(privKey.PrivateKey)
 	curveOrder := curve.Params().N
-	if k.Cmp(curveOrder) >= 0 {
+	if k.Sign() == 0 || k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
 
-- 
2.43.0


From 20188b65f8219413cb3b608344b8c7e6e3410295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 18/20] fix: ToPEM ignored failures to authenticate or decrypt
 the file

---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 351c1796e912fcb71ec73fe5be66c25f554159f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 19/20] fix: Decode and DecodeAll lost or misplaced the errors
 about repeated bags

---
 pkcs12/pkcs12.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..7194641 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
@@ -247,7 +243,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -289,7 +285,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		switch {
 		case bag.Id.Equal(oidCertBag):
 			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one certificate bag")
 			}
 
 			certsData, err := decodeCertBag(bag.Value.Bytes)
@@ -308,7 +304,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From 9844c0c3982f91a7449cb16e62129aa72686e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 20/20] fix: the largest version number overflowed the check
 and was accepted

---
 x509/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..e3a55d4 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1035,12 +1035,12 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	if cert.Version < 0 {
 		return nil, errors.New("x509: malformed version")
 	}
+	if cert.Version > 2 {
+		return nil, errors.New("x509: invalid version")
+	}
 	// for backwards compat reasons Version is one-indexed,
 	// rather than zero-indexed as defined in 5280
 	cert.Version++
-	if cert.Version > 3 {
-		return nil, errors.New("x509: invalid version")
-	}
 
 	serial := new(big.Int)
 	if !tbs.ReadASN1Integer(serial) {
-- 
2.43.0

