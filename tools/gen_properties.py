#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that wording is edited in one place."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- SM3
p("P01", "SM3 digest is the standard one for every message",
  "For every byte string of any length, including the empty one and every length around a 64-byte block boundary, the one-shot digest and the digest obtained through a hash object are the 32-byte value GB/T 32905-2016 (SM3) defines for it.",
  ["inputs"], "every message, every length from 0 upwards and every content",
  "The tests hash two messages (3 and 64 bytes); padding has 64 length residues, the message-expansion and the boolean functions have to be right for every word value, and the bit-length field matters beyond 2^16/2^24/2^32 bits.",
  ["sm3/sm3.go"], [("one-shot digest", "sm3/sm3.go Sum"), ("compression, padding and length encoding", "sm3/sm3.go processBlock, finish, processLength")],
  ["sm3.Sum(m)", "sm3.New().Write(m); Sum(nil)"])
p("P02", "A streaming SM3 hash equals the digest of what was written, in any history",
  "For every sequence of writes of any sizes (empty writes included), digest requests and resets on a hash object, each digest request returns its argument followed by the SM3 digest of exactly the bytes written since creation or the last reset, and asking for a digest changes nothing that later calls return. Every write reports that all its bytes were accepted, with no error, and hash objects used side by side do not influence each other.",
  ["histories", "inputs"], "every interleaving of Write/Sum/Reset over one or several hash objects and every way of cutting a message into writes",
  "The tests write three fixed chunks once and never continue after a digest request; chunkings and call orders are unbounded.",
  ["sm3/sm3.go"], [("partial-word buffer", "sm3/sm3.go Write"), ("finalisation", "sm3/sm3.go Sum, checkSum, finish"), ("Reset", "sm3/sm3.go Reset")],
  ["hash.Hash returned by sm3.New"],
  [("digest state", "chaining value, word buffer, byte count", "sm3/sm3.go type sm3Digest")])
p("P03", "SM3 drives generic hash consumers: HMAC-SM3 is the standard value",
  "An SM3 hash object reports a digest size of 32 bytes and a block size of 64 bytes, and keyed constructions built on it through the generic hash interface (HMAC, and key derivation built on HMAC) yield the standard HMAC-SM3 results for every key and message.",
  ["inputs"], "every HMAC key length (shorter, equal and longer than a block) and every message, and HMAC objects that are summed, reset and reused",
  "No test uses SM3 through an interface consumer at all.",
  ["sm3/sm3.go"], [("Size/BlockSize", "sm3/sm3.go Size, BlockSize"), ("non-destructive Sum", "sm3/sm3.go Sum")],
  ["crypto/hmac.New(sm3.New, key)"])
# ---------------------------------------------------------------- SM4
p("P04", "SM4 block operations are the standard permutation and its inverse",
  "For every 16-byte key and block, encryption yields the GB/T 32907-2016 (SM4) ciphertext and decryption is its exact inverse, also when source and destination are the same buffer; only the first 16 destination bytes are written. A cipher object can be used for any number of blocks in any order without its behaviour changing, and does not depend on the caller's key buffer after creation.",
  ["inputs", "histories"], "every key, every block, every order of Encrypt/Decrypt calls on one cipher object, in place or not",
  "The tests encrypt a handful of fixed blocks under two keys; a wrong S-box entry or round constant shows only for some keys and blocks.",
  ["sm4/sm4.go"], [("key schedule", "sm4/sm4.go expandKey"), ("rounds", "sm4/sm4.go processBlock"), ("block interface", "sm4/sm4.go Encrypt, Decrypt")],
  ["sm4.NewCipher(key).Encrypt/Decrypt"])
p("P05", "SM4 ECB and CBC equal the textbook modes and decrypt back exactly",
  "For every 16-byte key, 16-byte IV and every plaintext whose length is a multiple of 16 (including the empty one), ECB and CBC encryption give exactly the ciphertext of the textbook mode over SM4, of the same length, and the matching decryption returns the plaintext.",
  ["inputs"], "every key, IV, block count and content",
  "The tests use one or two blocks; chaining, block order and long inputs are unbounded.",
  ["sm4/sm4.go"], [("modes", "sm4/sm4.go ECBEncrypt, ECBDecrypt, CBCEncrypt, CBCDecrypt")],
  ["the four mode functions"])
p("P06", "SM4 rejects wrong key, IV and data sizes with an error",
  "Whenever the key is not 16 bytes, the IV of a CBC call is not 16 bytes, or the data is not a multiple of 16 bytes, cipher creation and the ECB/CBC functions return an error and no output, without panicking, whatever the combination of sizes; when all sizes are right they succeed.",
  ["inputs"], "every combination of key, IV and data lengths",
  "No test passes a wrong size.",
  ["sm4/sm4.go"], [("size checks", "sm4/sm4.go NewCipher, ECBEncrypt, ECBDecrypt, CBCEncrypt, CBCDecrypt")],
  ["returned error and output"])
p("P07", "Padding is exactly reversible, minimal, and leaves the caller's data alone",
  "For every byte string and every block size from 1 to 255, PKCS#5/7 padding appends between 1 and blockSize bytes each equal to the number appended, zero padding appends between 1 and blockSize zero bytes, the result is a multiple of the block size, and the corresponding unpadding returns the original bytes. Padding never changes the caller's buffer, including bytes beyond the end of the given slice, and pad-encrypt-decrypt-unpad through SM4 is the identity.",
  ["inputs"], "every data length and content, every block size 1..255, every spare capacity of the input slice",
  "The tests pad three strings for block size 16, with no spare capacity.",
  ["util/padding.go", "sm4/sm4.go"], [("padding", "util/padding.go PKCS5Padding, PKCS5UnPadding, ZeroPadding, UnZeroPadding")],
  ["returned slice", "the caller's backing array"])
# ---------------------------------------------------------------- SM2 keys
p("P08", "SM2 key pairs are valid points d*G of the standard curve",
  "The curve is the one of GB/T 32918.5 (sm2p256v1). For every entropy stream a generated private key d lies in [1, n-2] and its public key is exactly d*G; for every private key in [1, n-1] the derived public key is exactly d*G, and different entropy gives different keys.",
  ["inputs"], "every entropy stream (including streams steering towards 0, 1, n-2, n-1, n and above) and every private key",
  "The tests generate one random key and check that the point is on the curve.",
  ["sm2/sm2.go"], [("generation", "sm2/sm2.go GenerateKey"), ("derivation", "sm2/sm2.go CalculatePubKey"), ("curve constants", "sm2/sm2.go initSm2P256V1")],
  ["sm2.GenerateKey", "sm2.CalculatePubKey", "sm2.GetSm2P256V1"])
p("P09", "Raw key encodings have fixed width and round-trip exactly",
  "Every private key in [1, n-1] encodes to exactly 32 big-endian bytes, and every public key on the curve to exactly 64 bytes X||Y (65 with the 0x04 prefix in uncompressed form), zero-padded on the left. Decoding returns the same numbers and re-encoding the same bytes, including keys whose numbers have leading zero bytes; any other input length is rejected with an error.",
  ["inputs"], "every key, in particular those with one or more leading zero bytes in d, X or Y, and every input length",
  "Raw encodings are not tested at all; a random key has a leading zero byte once in about 85 tries.",
  ["sm2/sm2.go"], [("fixed-width conversion", "sm2/sm2.go bigIntTo32Bytes, GetRawBytes, GetUnCompressBytes"), ("decoding", "sm2/sm2.go RawBytesToPublicKey, RawBytesToPrivateKey")],
  ["RawBytesToPublicKey, RawBytesToPrivateKey, GetRawBytes, GetUnCompressBytes"])
# ---------------------------------------------------------------- SM2 signatures
p("P10", "Every signature produced is a valid SM2 signature of the message",
  "For every private key in [1, n-2], every user identity shorter than 8192 bytes (nil, empty or not) and every message of any length including empty, signing succeeds and returns r and s in [1, n-1] that the verification equation of GB/T 32918.2 accepts for the matching public key, and this library's own verification accepts it, both in DER and in (r, s) form. For the extreme key d = n-1, for which SM2 signing is undefined, signing returns an error.",
  ["inputs"], "every key, identity, message and nonce drawn from the entropy source",
  "The tests sign one 32-byte and one 128-byte message under the default identity with a few random keys.",
  ["sm2/sm2.go"], [("signing", "sm2/sm2.go SignToRS, Sign"), ("Z value", "sm2/sm2.go getZ, calculateE")],
  ["sm2.Sign, sm2.SignToRS judged by an independent verifier and by sm2.Verify, sm2.VerifyByRS"])
p("P11", "Verification accepts exactly the signatures the standard accepts",
  "For every public key, identity, message and pair of integers (r, s), verification answers true if and only if GB/T 32918.2 verification accepts: r and s in [1, n-1], r+s not 0 mod n, the point not at infinity, and R equal to r. Altered messages, identities, keys, out-of-range or congruent values, crafted degenerate signatures and public keys that are not points of the curve are all answered false.",
  ["inputs"], "valid signatures by an independent signer (any nonce, any key) and every perturbation of message, identity, key, r or s, including r+n, s+n, negatives, 0, n, swapped values and crafted infinity cases",
  "The tests only ever verify valid signatures; no rejection is tested.",
  ["sm2/sm2.go"], [("verification", "sm2/sm2.go VerifyByRS, Verify")],
  ["sm2.VerifyByRS, sm2.Verify compared with an independent verifier"])
p("P12", "DER signatures are canonical and round-trip",
  "For all non-negative r and s, the DER form is the unique DER encoding of SEQUENCE { INTEGER r, INTEGER s } and decoding it gives r and s back. Decoding, and verification of DER signatures, reject every byte string that is not the exact DER encoding of two integers: trailing or missing bytes, extra elements, non-minimal integers or lengths, wrong tags.",
  ["inputs"], "every pair (r, s) with any number of leading zero or high-bit bytes, and every byte-level perturbation of the encoding",
  "The tests decode one fixed signature and what the library itself produced.",
  ["sm2/sm2.go"], [("codec", "sm2/sm2.go MarshalSign, UnmarshalSign")],
  ["sm2.MarshalSign, sm2.UnmarshalSign, sm2.Verify"])
p("P13", "Signing nonces are fresh, in range and unpredictable-looking in every history",
  "Over every history of signatures, by the same or different keys, on the same or different messages, the nonce each signature was made with (recoverable from the private key) lies in [1, n-1], is never used twice (nor as the secret of an encryption or of a key generated in between), and spans the full width: no fixed or structurally short nonces, for short and long messages, also when the entropy source delivers its bytes in small pieces.",
  ["histories", "inputs"], "every sequence of signing calls, including repeated identical ones, and every fragmentation of entropy reads",
  "The tests never look at nonces; a repeated or short nonce reveals the private key while every signature still verifies.",
  ["sm2/sm2.go"], [("nonce generation", "sm2/sm2.go nextK"), ("use in signing", "sm2/sm2.go SignToRS")],
  ["k = s(1+d)+rd mod n recovered from each signature"])
p("P14", "Signatures bind the user identity, with one documented default",
  "A signature made under one identity verifies under another if and only if both denote the same identity: a nil identity means the 16-byte default '1234567812345678', an empty non-nil identity is a distinct identity of its own, and any two byte strings that differ (in content or length, up to 8191 bytes) are different identities. The identity digest is the standard one (length in bits, identity, curve constants, public key), so other implementations agree.",
  ["inputs"], "all pairs of identities: nil, empty, default, prefixes, extensions, same length, around 255/256/8191 bytes",
  "The tests use the nil identity only.",
  ["sm2/sm2.go"], [("Z value and default identity", "sm2/sm2.go getZ, SignToRS, VerifyByRS")],
  ["sm2.Sign/SignToRS/Verify/VerifyByRS under pairs of identities"])
# ---------------------------------------------------------------- SM2 encryption
p("P15", "Encryption output is standard SM2 ciphertext and decrypts to the plaintext",
  "For every public key on the curve, every plaintext of any length including empty, and both ciphertext layouts, encryption terminates and yields 97 + len(plaintext) bytes consisting of an uncompressed curve point, the masked text and the 32-byte check value in the order the layout names, which an independent GB/T 32918.4 decryption and this library's own decryption turn back into the plaintext. An unknown layout value gives an error.",
  ["inputs"], "every key, plaintext length (in particular 0, 1 and around multiples of 32), layout and nonce, including nonces for which the mask is all zero and shared points with leading zero bytes",
  "The tests encrypt one 10-byte text with random keys; the retry on an all-zero mask and leading zero bytes are out of their reach.",
  ["sm2/sm2.go"], [("encryption", "sm2/sm2.go Encrypt"), ("key derivation", "sm2/sm2.go kdf")],
  ["sm2.Encrypt judged by an independent decryptor"])
p("P16", "Decryption recovers the plaintext of any standard SM2 ciphertext",
  "For every private key, plaintext, nonce and layout, a ciphertext made by an independent GB/T 32918.4 encryptor decrypts to exactly the plaintext, including when coordinates of the transmitted or of the shared point have leading zero bytes and for any plaintext length; the same ciphertext re-ordered to the other layout decrypts under that layout's name.",
  ["inputs"], "every key, nonce, plaintext length and layout, with points chosen to have 0 to 3 leading zero bytes in either coordinate",
  "The tests decrypt only what the library itself encrypted, under random keys.",
  ["sm2/sm2.go"], [("decryption", "sm2/sm2.go Decrypt"), ("key derivation", "sm2/sm2.go kdf, bigIntTo32Bytes")],
  ["sm2.Decrypt on independently produced ciphertexts"])
p("P17", "Tampered, truncated or misdirected ciphertexts are rejected with an error",
  "For every valid ciphertext, changing any bit of it, truncating or extending it, decrypting it with another key or under the other layout, or replacing its point by one that is not on the curve (or malformed) makes decryption return an error and no plaintext, without panicking.",
  ["inputs"], "every position and kind of alteration of every ciphertext",
  "No test decrypts anything invalid.",
  ["sm2/sm2.go"], [("point decoding and check value comparison", "sm2/sm2.go Decrypt")],
  ["error and output of sm2.Decrypt"])
p("P18", "The DER ciphertext envelope is faithful and canonical",
  "For every ciphertext and layout, the DER form is the DER SEQUENCE of the two coordinates as INTEGERs and the two OCTET STRINGs in the layout's order (GM/T 0009 for C1C3C2), and converting back gives the original bytes, including coordinates with leading zeros. Malformed input (too short, trailing bytes, negative or oversized coordinates, wrong check value size, non-minimal encoding, unknown layout) is rejected with an error, without panicking.",
  ["inputs"], "every ciphertext (any length), both layouts, coordinates with leading zero bytes, every perturbation of the encoding",
  "The tests convert one 10-byte ciphertext per layout; coordinates with leading zeros occur once in about 128 random points.",
  ["sm2/sm2.go"], [("codec", "sm2/sm2.go MarshalCipher, UnmarshalCipher")],
  ["sm2.MarshalCipher, sm2.UnmarshalCipher"])
p("P19", "Encryption is randomised afresh on every call",
  "Over every history of encryptions, of the same or different plaintexts to the same or different keys, no ephemeral point is ever repeated, ephemeral points are not taken from a small or structured set, and with the same plaintext and key all ciphertexts differ, also when entropy arrives in small pieces.",
  ["histories", "inputs"], "every sequence of encryption calls",
  "The tests encrypt each plaintext once.",
  ["sm2/sm2.go"], [("nonce generation", "sm2/sm2.go nextK, Encrypt")],
  ["C1 of each ciphertext"])
p("P20", "An entropy failure yields an error, never weak output",
  "Whenever the entropy source fails, immediately or after any number of bytes, key generation, signing, encryption, certificate-request creation and software certificate issuance either had already obtained what they needed and return a fully valid result, or return an error and no result; they never panic, never loop, and never emit keys, signatures or ciphertexts built on missing entropy.",
  ["fault_sequences", "inputs"], "every failure point (byte offset), error kind and read fragmentation of the entropy source, for every operation that consumes entropy",
  "No test injects a failing source.",
  ["sm2/sm2.go", "sm2/cert/gmx509.go"], [("error propagation", "sm2/sm2.go GenerateKey, nextK, SignToRS, Encrypt"), ("callers", "sm2/cert/gmx509.go CreateCertificateRequest, IssueCertificateBySoftCAKey")],
  ["error and result of each operation under a failing crypto/rand.Reader"])
# ---------------------------------------------------------------- key exchange
p("P21", "Both parties of a key exchange derive the same key and confirmations",
  "For every pair of static and ephemeral key pairs, all identities (nil meaning empty) and every requested key length of at least 1 bit, initiator and responder obtain the same key of ceil(bits/8) bytes, the initiator accepts the responder's confirmation S1, and the responder's confirmation S2 check accepts the initiator's S2.",
  ["inputs"], "all key quadruples, identities and key lengths from 1 bit to thousands of bits",
  "The test runs one exchange of 128 bits and never compares the keys.",
  ["sm2/keyexchange.go"], [("exchange", "sm2/keyexchange.go CalculateKeyWithConfirmation, ResponderConfirm"), ("key derivation", "sm2/keyexchange.go kdfForExch")],
  ["Key, S1, S2 of both sides"])
p("P22", "Key exchange results are those of the SM2 standard",
  "For all inputs, the key, S1 and S2 computed by either side equal those of GB/T 32918.3: coordinates enter hashes as fixed 32-byte strings, the key derivation function concatenates full hash blocks and truncates, so keys for different lengths are prefixes of one stream, and the result interoperates with any conforming peer.",
  ["inputs"], "all keys, identities and key lengths, with shared and ephemeral points chosen to have leading zero bytes",
  "No standard value is compared in the test; leading zero bytes occur in one of about 85 exchanges, multi-block keys never.",
  ["sm2/keyexchange.go", "sm2/sm2.go"], [("shared point", "sm2/keyexchange.go calculateU, reduce"), ("hashing", "sm2/keyexchange.go kdfForExch, calculateInnerHash, s1, s2")],
  ["ExchangeResult compared with an independent implementation"])
p("P23", "Key confirmation detects every mismatch and bad peer input is refused",
  "If anything the two sides must agree on differs (any static or ephemeral key, either identity, any bit of S1), the initiator returns an error, and any altered S2 fails the responder's check; an initiator without a confirmation value gets an error. Peer keys that are not points of the curve, or that make the shared point the point at infinity, are refused with an error, without panicking.",
  ["inputs"], "every single difference between the two parties' views, every alteration of the tags, every invalid peer point",
  "The test covers the matching case only.",
  ["sm2/keyexchange.go"], [("confirmation comparison", "sm2/keyexchange.go CalculateKeyWithConfirmation, ResponderConfirm")],
  ["error of CalculateKeyWithConfirmation, result of ResponderConfirm"])
# ---------------------------------------------------------------- certificates
p("P24", "A certificate request round-trips every field it was built from",
  "For every request template (subject, alternative names of all four kinds, extra extensions, attributes), key pair and identity, the created request parses back to the same subject, names, extensions, attributes and public key, with the raw parts being exactly the bytes inside the request; an explicitly given alternative-name extension takes priority over the name lists, and extensions given through attributes take priority over both. The request's signature verifies under the same identity.",
  ["inputs", "configurations"], "every combination of template fields and values, including long names, non-ASCII text, IPv4/IPv6, several attributes and a pre-existing extension-request attribute",
  "The test creates one request with one subject and one extension.",
  ["sm2/cert/gmx509.go"], [("creation", "sm2/cert/gmx509.go CreateCertificateRequest, marshalSANs, newRawAttributes"), ("parsing", "sm2/cert/gmx509.go ParseCertificateRequest, parseCSRExtensions, parseSANExtension")],
  ["cert.CreateCertificateRequest, cert.ParseCertificateRequest"])
p("P25", "A request's signature check accepts exactly genuine self-signed requests",
  "Request verification answers true if and only if the signature over the exact signed portion is a standard SM2 signature by the key inside the request under the given identity (nil meaning the default). Any change to any single byte of a request, any change to the signed portion, the key or the signature value, a signature by another key or over other bytes, or another identity makes it answer false or return an error, without panicking.",
  ["inputs"], "every request, every single-byte alteration of it, every identity pair, signatures by other keys",
  "The test verifies one genuine request.",
  ["sm2/cert/gmx509.go"], [("verification", "sm2/cert/gmx509.go VerifyDERCSRSign, VerifyCSRSign")],
  ["cert.VerifyDERCSRSign, cert.VerifyCSRSign"])
p("P26", "A certificate round-trips every template field",
  "For every certificate template (serial number, validity, subject, issuer, key usage, extended key usages known and unknown, basic constraints and path length, key identifiers, authority information access, alternative names, policies, name constraints, CRL distribution points, extra extensions) the issued certificate parses back to the same values, times to the second in UTC and in order, including zero and maximal values and absent fields staying absent.",
  ["inputs", "configurations"], "every combination and value of template fields",
  "The test issues one certificate and checks none of its fields.",
  ["sm2/cert/gmx509.go"], [("encoding", "sm2/cert/gmx509.go CreateCertificateInfo, buildExtensions"), ("decoding", "sm2/cert/gmx509.go ParseCertificate, parseCertificate")],
  ["cert.CreateCertificateInfo, IssueCertificateBySoftCAKey, CreateCertificate, ParseCertificate"])
p("P27", "An issued certificate carries the signed bytes, signature and chain links",
  "For every certificate, the to-be-signed bytes handed out for signing are byte for byte those inside the issued certificate and those reported after parsing, the signature inside is exactly the one supplied (external signing) or a valid SM2 signature of those bytes by the CA key under the given identity (software signing), and issuer name, subject name and authority key identifier are taken from parent and template as X.509 prescribes. A missing serial number is an error.",
  ["inputs", "configurations"], "all templates, parents, CA keys, identities and externally supplied signature bytes",
  "The test signs with the subject's own key and never verifies the certificate.",
  ["sm2/cert/gmx509.go"], [("issuing", "sm2/cert/gmx509.go CreateCertificateInfo, IssueCertificateBySoftCAKey, CreateCertificate")],
  ["TBSCertificate.Raw, parsed RawTBSCertificate and Signature, sm2.Verify"])
p("P28", "Certificate extensions are encoded as RFC 5280 prescribes",
  "For every template, the extensions of an issued certificate (identifiers, criticality, DER values, each present exactly once and only when the template asks for it) are those RFC 5280 prescribes and an independent X.509 implementation produces for the same template; an extension given explicitly replaces the one derived from template fields; an extended key usage without a known identifier and names not representable in name constraints give an error.",
  ["inputs", "configurations"], "all templates over the standard extension fields, with and without overriding explicit extensions",
  "The test looks at no extension bytes; interoperability needs exact DER.",
  ["sm2/cert/gmx509.go", "cryptobyte/builder.go"], [("extension encoding", "sm2/cert/gmx509.go buildExtensions, reverseBitsInAByte, asn1BitLength")],
  ["Extensions of the parsed certificate compared with crypto/x509 and an independent encoder"])
p("P29", "A certificate issued from a request carries the request's key and names",
  "For every request and issuing template filled from it, the template holds the request's key, subject and alternative names, and the issued certificate contains byte for byte the request's public key information, its subject (every attribute of the standard name structure, in order) and its alternative names are the request's (an IPv4 address given in IPv6 form is the same address); the request itself is not changed, nor is a template the filled one was copied from, nor the template's other settings. Issuing fails for a request object whose key information is malformed.",
  ["inputs", "configurations"], "all requests (any key, names and extensions) and issuing templates",
  "The test prints the resulting names without comparing them.",
  ["sm2/cert/gmx509.go"], [("template filling", "sm2/cert/gmx509.go FillCertificateTemplateByCSR"), ("key copy", "sm2/cert/gmx509.go CreateCertificateInfo")],
  ["fields of the parsed certificate against the parsed request"])
p("P30", "Only SM2 certificates and requests with a valid SM2 key are accepted",
  "Parsing a certificate or request succeeds only if its signature algorithm is SM2-with-SM3, its key is an EC key on the SM2 curve given as an uncompressed point that lies on the curve, nothing follows the outermost element or the value inside a standard extension, and no mandatory part is missing, cut off, of another type or not in DER form; otherwise an error is returned. Well-formed SM2 objects are accepted.",
  ["inputs"], "every substitution of algorithm or curve identifiers, key encodings (compressed, off-curve, infinity, wrong length) and trailing data in each such place",
  "The tests parse two genuine objects.",
  ["sm2/cert/gmx509.go"], [("algorithm and key checks", "sm2/cert/gmx509.go parseCertificate, parseCertificateRequest, parsePublicKey")],
  ["cert.ParseCertificate, cert.ParseCertificateRequest"])
p("P31", "Parsing reports exactly what a foreign certificate's extensions say",
  "For a certificate made by any other implementation, with any standard, unknown, critical or malformed extension values, parsing either fails with an error or reports for each field exactly the values encoded in the extensions, lists every extension with its raw bytes in order, and lists as unhandled exactly the critical extensions it did not interpret.",
  ["inputs"], "certificates assembled extension by extension by an independent encoder, including unusual but legal forms and byte-level mutations of extension values",
  "The tests parse only what the library wrote.",
  ["sm2/cert/gmx509.go", "cryptobyte/asn1.go"], [("extension decoding", "sm2/cert/gmx509.go parseCertificate")],
  ["fields of cert.ParseCertificate compared with an independent decoder"])
p("P32", "No decoder panics or hangs on any input",
  "For arbitrary byte strings, including truncated, extended and bit-flipped valid encodings, every decoding entry point (certificate and request parsing and verification, signature and ciphertext decoding, verification, decryption, raw key decoding followed by use of the key, SM4 mode decryption, padding removal, and the byte-string readers) returns a result or an error; none panics, none runs on without end.",
  ["inputs"], "arbitrary bytes, mutations of valid objects, and structure-aware corruptions",
  "The tests never pass malformed data; attacker-supplied bytes are unbounded.",
  ["sm2/sm2.go", "sm2/cert/gmx509.go", "cryptobyte/asn1.go", "cryptobyte/string.go", "sm4/sm4.go", "util/padding.go"], [("input validation", "each decoding function")],
  ["return of each entry point"])
p("P33", "Name constraints are decoded and validated exactly",
  "For every name-constraints extension, parsing reports permitted and excluded DNS names, IP ranges, e-mail addresses and URI domains exactly as encoded, and refuses with an error invalid domains, non-contiguous or wrongly sized IP masks, malformed mailboxes, IP addresses as URI domains, non-ASCII values, and an extension without any subtree; name types it does not know leave the extension marked unhandled when critical.",
  ["inputs"], "all combinations of constraint kinds with valid and invalid values, built by an independent encoder",
  "No test contains a name constraint.",
  ["sm2/cert/gmx509.go"], [("decoding and validation", "sm2/cert/gmx509.go parseNameConstraintsExtension, isValidIPMask, parseRFC2821Mailbox, domainToReverseLabels")],
  ["fields or error of cert.ParseCertificate"])
p("P34", "Subject alternative names are decoded and validated exactly",
  "For every subject-alternative-name extension in a certificate or a request, parsing reports DNS names, e-mail addresses, IP addresses and URIs in their order exactly as encoded, skips name types it does not report, and refuses with an error IP addresses that are not 4 or 16 bytes, URIs that do not parse or whose host is not a valid domain, and values that are not a proper sequence.",
  ["inputs"], "all sequences of general names of all types with valid and invalid contents",
  "One test request contains one DNS name.",
  ["sm2/cert/gmx509.go"], [("decoding", "sm2/cert/gmx509.go forEachSAN, parseSANExtension, domainToReverseLabels")],
  ["fields or error of cert.ParseCertificate and cert.ParseCertificateRequest"])
# ---------------------------------------------------------------- cryptobyte
p("P35", "What the byte builder writes, the byte reader reads back",
  "For every sequence of values (fixed-width integers, byte strings, length-prefixed nestings of any width and depth, and every supported ASN.1 type), the builder's output is the concatenation of the values' standard encodings, and reading it with the matching sequence of reads returns every value and consumes the output exactly. A value that cannot be represented (too long for its length prefix, invalid identifier, unsupported tag) makes the builder report an error.",
  ["inputs", "histories"], "all value trees over the builder's operations",
  "The cryptobyte packages have no tests at all.",
  ["cryptobyte/builder.go", "cryptobyte/string.go", "cryptobyte/asn1.go"], [("writer", "cryptobyte/builder.go, cryptobyte/asn1.go Builder methods"), ("reader", "cryptobyte/string.go, cryptobyte/asn1.go String methods")],
  ["Builder.Bytes, String reads"])
p("P36", "ASN.1 readers accept exactly DER and yield the encoded value",
  "For every byte string, the typed ASN.1 readers (boolean, integer into every Go integer type and big integers, enumerated, object identifier, bit string, octet string, generalised time, optional and skipping forms) succeed exactly when it starts with a DER encoding of that type with a value that fits, and then return the encoded value and consume exactly that element; absent optional elements yield the default and consume nothing.",
  ["inputs"], "valid DER of every type and size, its non-minimal variants, out-of-range values and arbitrary bytes",
  "The cryptobyte packages have no tests at all.",
  ["cryptobyte/asn1.go"], [("readers", "cryptobyte/asn1.go String methods")],
  ["result, remaining bytes and out value of each reader"])
p("P37", "The byte reader stays within its bytes and consumes exactly what it returns",
  "For every byte string and every sequence of read, skip, copy and length-prefixed read requests of any size, each request succeeds exactly when enough bytes remain, returns the next bytes (as big-endian numbers where asked), and leaves exactly the rest; a failing fixed-size request consumes nothing, out-of-range requests (including negative lengths) fail without panicking, and the underlying bytes are never changed.",
  ["inputs", "histories"], "all byte strings and all request sequences",
  "The cryptobyte packages have no tests at all.",
  ["cryptobyte/string.go"], [("bounds", "cryptobyte/string.go read, readLengthPrefixed")],
  ["results and remaining String against a model"])
p("P38", "Builders honour their buffer: fixed size never exceeded, errors are sticky",
  "For every sequence of builder operations, a builder over a given buffer keeps the bytes already in it and appends; a fixed-size builder never reallocates, never writes beyond the buffer's capacity and reports an error exactly when the content does not fit, and otherwise gives the same bytes as a growing builder. Once an error occurred (overflow, failed value, build error raised in a nested continuation) later writes have no effect and the error, without any bytes, is what the caller gets. A write to a builder from within the continuation of one of its children is refused by a panic and leaves the content as it was; a panic of the caller's own in a continuation reaches the caller.",
  ["histories", "inputs"], "all operation sequences, nestings, buffer prefixes and capacities, and error injection points",
  "The cryptobyte packages have no tests at all.",
  ["cryptobyte/builder.go"], [("capacity check", "cryptobyte/builder.go add, flushChild"), ("error propagation", "cryptobyte/builder.go callContinuation, AddValue")],
  ["Builder.Bytes, the caller's buffer"])
# ---------------------------------------------------------------- global
p("P39", "Operations never modify their inputs, and outputs do not change afterwards",
  "No operation of the library changes any byte slice, key, number, template, request or parent certificate passed to it (bytes beyond a slice's end included), nor the shared curve parameters. Digests, ciphertexts, plaintexts, keys, signatures and encoded requests and certificates it returned stay the same when the caller afterwards overwrites the inputs (hash output appended to a caller-given prefix excepted). Reusing one template for several requests or certificates gives the same content each time.",
  ["inputs", "histories"], "all operations with inputs that have spare capacity, followed by overwriting the inputs, and repeated use of the same arguments",
  "The tests use each input once and do not look at it again.",
  ["sm2/sm2.go", "sm2/keyexchange.go", "sm2/cert/gmx509.go", "sm3/sm3.go", "sm4/sm4.go", "util/padding.go", "util/bigint.go"],
  [("copies of inputs", "every exported function")],
  ["snapshots of all arguments before and after; outputs after scribbling over inputs"])
p("P40", "Independent operations may run concurrently on shared keys and ciphers",
  "Any number of goroutines may at the same time sign, verify, encrypt, decrypt, exchange keys, hash with their own hash objects, use the same SM4 cipher object, build and read byte strings, calculate with numbers and curve points, and create and parse requests and certificates, sharing key objects and (unmodified) templates and inputs, with the same results as when run one after another and without data races.",
  ["schedules", "inputs"], "all mixes of operations and schedules",
  "The tests are single-threaded.",
  ["sm2/sm2.go", "sm2/keyexchange.go", "sm3/sm3.go", "sm4/sm4.go", "sm2/cert/gmx509.go"], [("absence of shared mutable state", "package-level variables and key/cipher objects are only read")],
  ["results per goroutine, Go race detector"],
  [("curve parameters", "package-level, read-only after init", "sm2/sm2.go sm2P256V1")])
p("P41", "Results never depend on earlier operations",
  "In every history of operations, successful or failing, on any inputs, each operation's outcome is the one its own arguments (and fresh entropy) determine: deterministic operations return the same as in a fresh process, and randomised ones return outputs valid for their own arguments, whatever ran before.",
  ["histories"], "all sequences of mixed operations, including rejected inputs and changing sizes, keys and identities in between",
  "Each test runs a short fixed sequence.",
  ["sm2/sm2.go", "sm2/keyexchange.go", "sm3/sm3.go", "sm4/sm4.go", "sm2/cert/gmx509.go", "cryptobyte/builder.go"], [("fresh local state per call", "every exported function")],
  ["each call against an independent model of the same call"])
p("P42", "Big-number and point helpers are exact and pure",
  "The arithmetic helpers return exactly the sum, difference, product, Euclidean remainder, modular inverse (where it exists), shift, bit-set and bitwise-and of their arguments for all integers, always in a new number and without changing the arguments, also when the same number is passed twice; the infinity test is true exactly for (0, 0), and the affine Z value is 0 there and 1 elsewhere.",
  ["inputs"], "all integers of any size and sign, aliased or not",
  "The tests add 1 and 1 and compare nothing.",
  ["util/bigint.go", "util/ec.go"], [("helpers", "util/bigint.go, util/ec.go")],
  ["returned numbers and arguments"])
p("P43", "The exported curve is a correct implementation of the SM2 group",
  "However a program obtains the curve (the exported accessor or the Curve field of any key the library returned), its membership test, addition, doubling, scalar and base-point multiplication and reported parameters, used through the generic elliptic-curve interface, are those of the group of GB/T 32918.5: exact for every pair of points (equal, opposite, infinity as (0, 0), coordinates with leading zeros) and every scalar of any byte length (zero, multiples of and beyond the order, leading zeros), with no argument changed; coordinates that are negative, not reduced or off the curve are not members.",
  ["inputs"], "all points, pairs of points, coordinate pairs and scalars",
  "The tests only use the curve inside sign and encrypt round trips on a few random keys.",
  ["sm2/sm2.go"], [("curve object", "sm2/sm2.go P256V1Curve, initSm2P256V1, GetSm2P256V1")],
  ["results of the elliptic.Curve methods against reference arithmetic"])
p("P44", "Keys mean the same in every form and across all parts",
  "A key pair used as caller-made literal, as generated, decoded from or re-encoded to its raw bytes, calculated from the private key, or parsed out of a certificate request or certificate issued for it, denotes the same key: signatures made with any form of the private key verify under any form of the public key (and not under another key), ciphertexts for any form decrypt with any form, key exchanges mixing forms agree with the standard, and requests and self-issued certificates made with it verify under the key found inside.",
  ["inputs", "configurations"], "all keys (in particular with leading zero bytes) and all combinations of forms and operations",
  "The tests exercise each part alone with a fresh random key and never carry keys between the parts.",
  ["sm2/sm2.go", "sm2/keyexchange.go", "sm2/cert/gmx509.go"], [("key objects", "sm2/sm2.go RawBytesTo*, GetRawBytes, CalculatePubKey; sm2/cert/gmx509.go parsePublicKey, marshalPublicKey")],
  ["results of operations on mixed forms, against the reference"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
