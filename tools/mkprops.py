import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [])))
p("C01","SM3 digests conform to GM/T 0004 for every message",
 "For every byte string, hashing it in one call or by any sequence of writes yields the 32-byte digest defined by the SM3 standard (padding, message expansion, compression, big-endian output).",
 ["inputs","histories"],"every message of every length and every way of splitting it into writes",
 "The test hashes one fixed string and prints it; padding boundaries, multi-block inputs and split writes are never compared with the standard.",
 ["sm3/sm3.go"],[("compression function","sm3/sm3.go block"),("buffering","sm3/sm3.go (*digest).Write"),("padding and output","sm3/sm3.go (*digest).checkSum"),("one-shot","sm3/sm3.go Sum")],
 ["sm3.New","sm3.Sum","hash.Hash methods"])
p("C02","SM3 hash objects honour the hash.Hash contract",
 "Reading the digest appends to the supplied prefix and leaves the object able to continue from the same state; Reset restores the empty-message state; Write absorbs exactly its argument, reports its full length with no error and does not modify it; the declared digest and block sizes are 32 and 64.",
 ["inputs","histories"],"every reachable object state, every argument, every interleaving of writes, sums and resets on one object",
 "No test interleaves writes with sums or resets, and none inspects prefixes, spare capacity or the caller's buffers.",
 ["sm3/sm3.go"],[("state copy before padding","sm3/sm3.go (*digest).Sum"),("reset","sm3/sm3.go (*digest).Reset"),("absorb","sm3/sm3.go (*digest).Write")],
 ["hash.Hash methods of sm3.New()"])
p("C03","SM2 message digest binds identity, curve and key as in GM/T 0003.2",
 "For every public key, user identity and message the digest that is signed equals SM3(Z || M) with Z = SM3(16-bit identity bit length || identity || a || b || Gx || Gy || x || y), every field element encoded as exactly 32 bytes and an empty identity replaced by the default one; an identity whose bit length does not fit 16 bits is refused with an error, never signed or verified.",
 ["inputs"],"every key (including coordinates with leading zero bytes), identity up to 8191 bytes and message",
 "Random keys have a short coordinate once in 128 runs and the tests compare signing only with verification by the same code, never with the standard's encoding.",
 ["sm2/sm2.go"],[("Z value","sm2/sm2.go z"),("digest","sm2/sm2.go (*PublicKey).SM3Digest"),("fixed-width encoding","sm2/sm2.go appendBigIntTo32Bytes")],
 ["(*PublicKey).SM3Digest","sm2.Sign","sm2.Verify"])
p("C04","SM2 verification accepts exactly the signatures the standard defines",
 "A signature (r,s) is accepted for a digest e and public key P on the curve if and only if 1 <= r,s < n, r+s is not 0 mod n and the affine x coordinate of s*G+(r+s)*P satisfies (e+x) mod n = r; every entry point (raw pair, byte-encoded, message, digest, method or function form) makes the same decision and none panics.",
 ["inputs"],"every key on the curve, digest, identity, message and every integer pair or byte string offered as a signature",
 "Tests verify a handful of honest signatures; range checks, zero coordinates, reversed arguments and malformed encodings are never exercised.",
 ["sm2/sm2.go"],[("verification equation","sm2/sm2.go VerifyDigestRS"),("message form","sm2/sm2.go VerifyRS"),("encoded form","sm2/sm2.go Verify, VerifyDigest"),("method forms","sm2/sm2.go (*PublicKey).Verify*")],
 ["sm2.Verify*","(*PublicKey).Verify*"])
p("C05","SM2 signing yields a valid signature or an error, never anything else",
 "For every private scalar in [1,n-2], digest and randomness source, signing either returns a pair that satisfies the standard's signing equations (and therefore verifies under the matching public key) or returns an error; it rejects unusable nonces, does not reuse rejected ones, does not panic for any key, and propagates failures of the randomness source.",
 ["inputs","fault_sequences"],"every private scalar, digest, message and identity, and every byte stream or failure of the randomness source",
 "The degenerate nonces have probability 2^-256 under real randomness and the tests never supply a chosen or failing reader.",
 ["sm2/sm2.go"],[("signing equation","sm2/sm2.go SignDigestRS"),("nonce sampling","sm2/sm2.go nextk"),("message and DER forms","sm2/sm2.go Sign, SignRS, SignDigest, (*PrivateKey).Sign")],
 ["sm2.Sign*","(*PrivateKey).Sign*"])
p("C06","SM2 signature encoding is a DER bijection with strict parsing",
 "Encoding a pair (r,s) of positive integers produces the DER SEQUENCE of two INTEGERs and decoding returns the same pair; decoding rejects every byte string that is not exactly such an encoding, including trailing bytes and non-minimal or truncated forms.",
 ["inputs"],"every pair of integers and every byte string",
 "Tests only decode what the encoder has just produced.",
 ["sm2/sm2.go"],[("encoder","sm2/sm2.go MarshalSign"),("decoder","sm2/sm2.go UnmarshalSign")],["sm2.MarshalSign","sm2.UnmarshalSign","sm2.SignDigest","sm2.VerifyDigest"])
p("C07","SM2 encryption follows the standard layout and decrypts to the plaintext",
 "Encrypting any non-empty message under any public key gives 0x04 || x1 || y1 || C3 || C2 with 32-byte coordinates, C2 = M xor KDF(x2||y2,|M|) and C3 = SM3(x2||M||y2), where (x1,y1)=kG and (x2,y2)=kP, and decrypting it with the matching private key returns the message; a zero mask or failing randomness never yields a ciphertext.",
 ["inputs","fault_sequences"],"every key, non-empty message of every length, nonce (including those giving coordinates with leading zero bytes) and randomness failure",
 "The tests encrypt short random messages, so lengths that are not multiples of the digest size and coordinates with leading zeros (1 in 64 encryptions) are missed or show up as flakes.",
 ["sm2/sm2.go"],[("encryption","sm2/sm2.go Encryt"),("key derivation","sm2/sm2.go kdf, intToBytes"),("decryption","sm2/sm2.go Decryt")],["sm2.Encryt","sm2.Decryt"])
p("C08","SM2 decryption rejects every invalid ciphertext without leaking plaintext",
 "For every private key and every byte string, decryption returns the plaintext of the unique valid layout or an error: strings too short, with another form byte, with a point that is not on the curve, with a wrong check value or with an all-zero mask are rejected, no plaintext accompanies an error and no input makes it panic.",
 ["inputs"],"every private key and every byte string offered as ciphertext",
 "No test decrypts anything but an honest ciphertext.",
 ["sm2/sm2.go"],[("decryption","sm2/sm2.go Decryt"),("point check","sm2/sm2.go Decryt"),("check value","sm2/sm2.go Decryt"),("mask","sm2/sm2.go kdf")],["sm2.Decryt"])
p("C09","SM2 curve, key generation and key comparison are sound",
 "The curve parameters are those of the standard; generated keys have a scalar in [1,n-2] and the public point scalar*G, failures of the randomness source are returned as errors; two keys compare equal exactly when they denote the same key.",
 ["inputs","fault_sequences"],"every byte stream or failure of the randomness source, and every pair of keys",
 "Tests only generate keys from the system source and never compare two keys.",
 ["sm2/sm2.go"],[("parameters","sm2/sm2.go initSm2P256V1, SM2P256V1"),("generation","sm2/sm2.go GenerateKey"),("comparison","sm2/sm2.go (*PublicKey).Equal, (*PrivateKey).Equal")],["sm2.GenerateKey","Equal"])
p("C10","Private keys survive PKCS#8 and SEC1 encoding and malformed ones are rejected",
 "For every supported private key, parsing its PKCS#8 (or SEC1) encoding returns an equal key of the same kind; an encoding whose scalar is zero or not below the group order, whose algorithm or curve is unknown, whose Ed25519 seed has the wrong size or whose RSA numbers are invalid (or, for PKCS#1, followed by trailing data) is rejected with an error, no key accompanies an error, and no input makes a parser panic.",
 ["inputs"],"every supported private key, including scalars with leading zero bytes, and every structurally valid or invalid encoding",
 "The tests round-trip a few fixed keys.",
 ["x509/pkcs8.go","x509/sec1.go","x509/pkcs1.go"],[("PKCS#8","x509/pkcs8.go"),("SEC1","x509/sec1.go"),("PKCS#1","x509/pkcs1.go")],["x509.MarshalPKCS8PrivateKey","x509.ParsePKCS8PrivateKey","x509.ParseECPrivateKey"])
p("C11","Public keys survive PKIX encoding and off-curve or malformed keys are rejected",
 "For every supported public key, parsing its PKIX encoding returns an equal key of the same kind on the same curve; encodings with a point off the curve, non-positive RSA parameters, an unknown curve or algorithm, or data after the structure are rejected with an error.",
 ["inputs"],"every supported public key and every encoding",
 "Tests never encode a public key on its own and never offer an invalid one.",
 ["x509/x509.go","x509/parser.go"],[("encoding","x509/x509.go marshalPublicKey, MarshalPKIXPublicKey"),("decoding","x509/x509.go ParsePKIXPublicKey; x509/parser.go parsePublicKey")],["x509.MarshalPKIXPublicKey","x509.ParsePKIXPublicKey"])
p("C12","Signature checking is bound to the declared algorithm and the key type",
 "A signature over certificate, request or revocation-list contents is accepted only if the declared algorithm belongs to the key's type and the corresponding primitive accepts it over the exact signed bytes (with the algorithm's digest); algorithms declared insecure or unknown and keys of another type are rejected, and every supported algorithm, including Ed25519 and SM2 with SM3, is decided by its own primitive.",
 ["inputs","configurations"],"every declared algorithm, key type, signed content and signature value",
 "The tests check one algorithm on honest signatures; the algorithm by key-type matrix and hostile declarations are not sampled.",
 ["x509/x509.go"],[("dispatch","x509/x509.go checkSignature"),("tables","x509/x509.go signatureAlgorithmDetails")],["(*Certificate).CheckSignature","CheckSignatureFrom","(*CertificateRequest).CheckSignature"])
p("C13","Everything the library signs verifies with the library",
 "For every supported signer and template, a certificate, certificate request or revocation list that is created without error carries a signature, made over its exact to-be-signed bytes with the declared algorithm, that the corresponding verification accepts under the signer's public key; unsupported key or algorithm combinations are refused with an error. (Signing algorithms that verification declares insecure, MD5 and SHA-1 based, are excepted from the acceptance.)",
 ["inputs","configurations"],"every supported key type, requested algorithm and template",
 "Tests create at most one certificate with one key type.",
 ["x509/x509.go"],[("creation","x509/x509.go CreateCertificate, CreateCertificateRequest, CreateCRL, CreateRevocationList"),("algorithm choice","x509/x509.go signingParamsForPublicKey")],["x509.Create*","CheckSignature*"])
p("C14","PKCS#7 signing produces messages that parse back and verify",
 "For every content, certificate and key the produced signed-data message parses back to the same content and signer information and verifies; every failure while digesting, signing or encoding is reported as an error and no message is returned with it.",
 ["inputs","fault_sequences"],"every content, signer kind, attribute choice and failing signer or callback",
 "The tests sign one fixed message and never inject a failing signer.",
 ["x509/pkcs7.go"],[("signing","x509/pkcs7.go NewSignedData, NewSignedDataCallBack, getSignerInfo*"),("parsing","x509/pkcs7.go parseSignedData")],["x509.NewSignedData","x509.ParsePKCS7"])
p("C15","PKCS#7 verification accepts only genuinely signed content",
 "A signed-data message is accepted only if every signer's signature checks, under the certificate identified by its issuer and serial number, over the content or over attributes whose message digest equals the digest of that content; a message with no signer, an unknown certificate, a wrong message digest or trailing or malformed structure is rejected.",
 ["inputs"],"every message structure, certificate set and content",
 "Tests verify two fixed honest messages, one of which fails in this sandbox.",
 ["x509/pkcs7.go"],[("verification","x509/pkcs7.go verifySignature, (*PKCS7).Verify*"),("structure","x509/pkcs7.go parseSignedData")],["(*PKCS7).Verify"])
p("C16","PKCS#12 key derivation conforms to RFC 7292 appendix B",
 "For every salt, password, iteration count, purpose and length, the derived key equals the one defined by RFC 7292 appendix B.2 with SHA-1 (64-byte block, 20-byte output).",
 ["inputs"],"every salt, password (including empty), iteration count and requested size",
 "Two vectors are tested upstream; the carry chain of the big-integer addition is data dependent and not sampled here at all.",
 ["pkcs12/pbkdf.go"],[("derivation","pkcs12/pbkdf.go pbkdf, fillWithRepeats, sha1Sum")],["PKCS#12 encode and decode"])
p("C17","RC2 conforms to RFC 2268 and decryption inverts encryption",
 "For every key, effective key length and block, encryption produces the RC2 block defined by RFC 2268 and decryption inverts it; nothing outside the destination block is written.",
 ["inputs"],"every key, effective key length and 8-byte block",
 "No test of this repository calls the cipher.",
 ["pkcs12/rc2.go"],[("key schedule","pkcs12/rc2.go expandKey"),("rounds","pkcs12/rc2.go Encrypt, Decrypt")],["PKCS#12 decode of RC2-protected files"])
p("C18","PKCS#12 password-based encryption pads, decrypts back and rejects bad padding",
 "Encrypting any content and decrypting it with the same password and parameters returns the content; decryption of data whose length is not a positive multiple of the block size or whose padding is malformed returns an error and never panics, and unknown algorithms or malformed parameters are rejected.",
 ["inputs"],"every content length, password, parameter set and ciphertext",
 "No test in this repository covers padding or corrupt data.",
 ["pkcs12/crypto.go"],[("padding","pkcs12/crypto.go pbEncrypt, pbDecrypt"),("algorithms","pkcs12/crypto.go pbeCipherFor, pbDecrypterFor, pbEncrypterFor")],["pkcs12.Encode","pkcs12.Decode"])
p("C19","PKCS#12 password and attribute strings use BMPString faithfully",
 "Every string of Basic Multilingual Plane characters encodes to big-endian two-byte units with a two-byte zero terminator and decodes back to itself (without the terminator too, if it does not end in NUL); strings with other characters and byte strings of odd length are rejected.",
 ["inputs"],"every string and every byte string",
 "No test in this repository covers the conversion.",
 ["pkcs12/bmp-string.go"],[("encode","pkcs12/bmp-string.go bmpString"),("decode","pkcs12/bmp-string.go decodeBMPString")],["pkcs12.Encode","pkcs12.Decode"])
p("C20","PKCS#12 files decode back, and nothing is decrypted before authentication",
 "Decoding what was encoded with a password returns the same key and certificates; no content is decrypted or returned unless the file's authentication code matches for the supplied password, a wrong password or altered file yields an error, and every failure while encoding or decoding is reported.",
 ["inputs","fault_sequences"],"every key, certificate set, password, file content and failing randomness source",
 "The repository has no PKCS#12 test.",
 ["pkcs12/pkcs12.go","pkcs12/mac.go","pkcs12/safebags.go"],[("authentication","pkcs12/mac.go verifyMac, computeMac"),("decode","pkcs12/pkcs12.go getSafeContents, Decode*, ToPEM"),("encode","pkcs12/pkcs12.go Encode"),("bags","pkcs12/safebags.go")],["pkcs12.Encode","pkcs12.Decode","pkcs12.DecodeAll","pkcs12.ToPEM"])
p("C21","Certificate extension codecs invert each other",
 "For every value of the supported certificate extensions (key usage, extended key usage, basic constraints, subject alternative names, name constraints, policies), parsing the encoded extension returns the same value, and encodings that are not of the extension's type are rejected.",
 ["inputs"],"every representable extension value and every byte string",
 "Tests parse a couple of fixed certificates.",
 ["x509/x509.go","x509/parser.go"],[("encoders","x509/x509.go marshalKeyUsage, marshalExtKeyUsage, marshalBasicConstraints, marshalSANs, buildCertExtensions"),("decoders","x509/parser.go parse*Extension")],["x509.CreateCertificate","x509.ParseCertificate"])
p("C22","String and name validators admit exactly their character sets",
 "IA5 strings contain only bytes below 0x80, printable strings only the PrintableString repertoire (plus the documented exceptions), and encoded strings of other types or invalid encodings are rejected; string conversion returns the text unchanged.",
 ["inputs"],"every byte string and every string tag",
 "Validators are reached only through fixed certificates.",
 ["x509/parser.go","x509/x509.go"],[("validators","x509/parser.go isPrintable, parseASN1String; x509/x509.go isIA5String")],["x509.ParseCertificate"])
p("C23","Structural rules of certificates are enforced when parsing",
 "Parsing accepts a certificate only if it is one complete DER structure without trailing data whose version is 1 to 3, whose inner and outer signature algorithm identifiers are equal and whose validity consists of two well-formed times; the parsed raw parts are the corresponding parts of the input, and no byte string makes the parser panic.",
 ["inputs"],"every byte string",
 "Tests parse a couple of fixed well-formed certificates.",
 ["x509/parser.go"],[("structure","x509/parser.go parseCertificate"),("validity","x509/parser.go parseValidity, parseTime"),("algorithm","x509/parser.go parseAI")],["x509.ParseCertificate"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
