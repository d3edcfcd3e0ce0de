# id: (text)
T = {
"P01": "Messages around every block and padding boundary, textured, up to 400 kB; every length 0–330; constant messages of 2^28…2^32+3 bytes against digests computed by OpenSSL (the 32-bit length and index limits). Oracle: literal transcription of the standard.",
"P02": "Histories of write/sum/reset on up to three interleaved objects, against a byte log hashed from scratch; splits of one message; `Sum(b)` into prefixes with spare capacity. Tests only hash once.",
"P03": "HMAC, HKDF, PBKDF2 driven over the hash object (which rely on Size, BlockSize, Reset and Sum-leaves-state), against RFC 2104/5869/8018 over the reference digest.",
"P04": "Histories over several cipher objects with related keys and blocks, aliasing dst/src, larger slices; against a reference with an S-box derived from its algebraic definition (not a copied table).",
"P05": "ECB/CBC over 0–70 000 blocks with repeated and nearly repeated blocks, related keys and IVs; textbook modes over the reference cipher; both directions; input kept.",
"P06": "All combinations of key/IV/data lengths around the valid ones and large ones; error exactly when a size is wrong, never a panic or output.",
"P07": "Block sizes 1–255, data up to 140 kB, spare capacity behind the data filled with a guard pattern.",
"P08": "GenerateKey over steered entropy (0, 1, n-2, n-1, n, above, in pieces) and CalculatePubKey over edge scalars of [1,n-1], against affine reference arithmetic; keys must lie in [1,n-2].",
"P09": "Raw encodings of keys whose numbers have 0–31 leading zero bytes; inputs of every wrong length; public keys with extreme coordinates.",
"P10": "Keys, ids, messages and entropy; nonces steered to skip values; messages searched for short r or s; d = n-1. Every signature is judged by the reference verifier, because a sign/verify round trip in the library agrees with itself.",
"P11": "Genuine signatures and 33 kinds of variations (congruent r+n, s+n, negative, zero, swapped, forged on other keys, ids, messages, off-curve and degenerate keys); accept exactly when the standard's equation and ranges hold.",
"P12": "Integer pairs and valid, negative, non-minimal, mutated, truncated, extended encodings against a strict DER reader; also through Verify on genuine signatures.",
"P13": "Histories of 10–200 signatures: every nonce is recovered with the private key and checked for repeats, relations between messages/keys, range, constant bits, against the secrets of encryptions and generated keys of the same history, and against the entropy drawn; the same for operations that draw from one slow source concurrently.",
"P14": "Pairs of identities (nil, empty, default, prefixes, one bit, up to 8191 bytes) cross-verified with the reference.",
"P15": "Recipients, plaintexts up to several MiB, layouts and entropy; ephemeral scalars steered to points with leading zeros and to all-zero key streams (which must be redrawn); the reference decrypts. Unknown layouts must be errors. Recipients with extreme public points, or extreme shared points (P = k⁻¹U): the reference ciphertext for the steered scalar. Plaintexts that make ciphertext octets zero, and key streams steered to zero octets at chosen places.",
"P16": "Ciphertexts made by the reference encryptor with chosen scalars (leading zeros in transmitted and shared coordinates), both layouts, up to 20 kB and several MiB; transmitted and shared points with extreme coordinates (C1 = U or d⁻¹U).",
"P17": "Valid ciphertexts changed in 22 ways, incl. coordinates plus the prime under a matching check value, consistent ciphertexts on other curves (invalid-curve attack) and on the wrong layout; rejected exactly when the standard rejects, never with a partial plaintext.",
"P18": "Envelopes of generated coordinates (short, zero) and texts; decoded inputs valid, with negative, oversized or wrongly sized parts, mutated; accepted exactly when canonical DER of well-formed parts.",
"P19": "Histories of encryptions: ephemeral points must be distinct, unrelated, unstructured and paid for in entropy, also when drawn concurrently.",
"P20": "An entropy source failing after 0–130 bytes in four ways (error, short read, EOF, zero-progress then error) in every operation that draws: error without output, or output that needed no more entropy and is valid.",
"P21": "Both sides run with generated keys, ids, key lengths 1–20 000 bits: equal keys, matching confirmations.",
"P22": "Key, S1, S2 of each side against the reference exchange with short coordinates; two library sides that agree on a wrong value are caught here. Peers with extreme static, ephemeral or shared points, for both roles.",
"P23": "18 kinds of disagreement and altered confirmation values; off-curve, zero, out-of-range peers and peers that cancel to infinity, both roles.",
"P24": "Request templates over all fields; the DER is read by the independent reader, parts and parsed fields compared with a model, signature judged by the reference.",
"P25": "Reference-signed requests, genuine or altered in 18 ways incl. a sweep of byte positions; verdict against the reference.",
"P26": "Templates over all certificate fields, a third with explicit extensions replacing derived ones; issued, parsed, every field compared with the template and an independent decoder.",
"P27": "Issuers constructed or parsed, self-issued or not, software or external signature: handed-out bytes, names, key identifier, algorithm, signature.",
"P28": "Extensions against an independent RFC 5280 encoder, and against crypto/x509 for the same template; unknown usages and non-ASCII constraints must be errors.",
"P29": "Library-made and foreign requests, templates with other contents or filled before: key information, subject attributes and names of certificate and request compared at the encoding level; damaged key information must be refused; the other settings of the template and the template it was copied from are compared before and after.",
"P30": "Certificates and requests from the independent encoder with substituted algorithms, curves, key encodings or trailing data: accepted exactly when all are right; every mandatory element dropped, retagged, emptied, cut or given a non-DER length: refused.",
"P31": "0–6 standard and 0–3 unknown extensions, half with damaged values, against an independent decoder of each extension that has three answers (must, must not, no claim).",
"P32": "Mutated valid encodings, odd numbers and random bytes through every decoding entry point and through what uses the results; the exhaustive name and constraint sweeps of P33 and P34; panics, runaway CPU or memory, result together with an error.",
"P33": "Name constraints of all kinds, valid and invalid, against independent validators of domains, mailboxes and masks.",
"P34": "Alternative names of all kinds, valid and invalid, in certificates and requests, against an independent decoder.",
"P35": "Trees of values of every kind built, compared with an independent encoding, read back with the matching readers; unrepresentable values must be errors.",
"P36": "Each typed reader on boundary, non-minimal, malformed, mutated, trailing and very large elements: accepted exactly when strict DER in range, value exact, exactly the element consumed; variables keep what earlier reads put there when a later read fails or continues.",
"P37": "Sequences of read/skip/copy/length-prefixed requests with sizes over the whole int range against a slice model.",
"P38": "Operation trees on zero, growing and fixed builders over guarded buffers with about the room needed; state compared after every operation with the growing model; errors stay and come without bytes. Writes to a builder waiting for a child at any level are refused, caught or not, without a trace.",
"P39": "2–9 operations of 31 kinds over shared guarded inputs; all inputs compared after each, all outputs after each and again after the inputs were overwritten.",
"P40": "New processes whose first operations run concurrently; operations interrupted in the middle (long messages on one or two processors, crowds of up to 270 goroutines); 2–6 goroutines over shared keys, ciphers, templates and inputs under the race detector; every result judged by the reference.",
"P41": "Histories over few related keys/identities/messages with failing operations, overwritten outputs, keys and buffers rewritten in place; sequences of other properties' cases in one process; hundreds to 10^6 repetitions. Each outcome is judged by the reference as if it were the first.",
"P42": "Each helper on integers of either sign up to 520 bits, equal or identical objects, against definitions by division and two's complement; arguments kept.",
"P43": "Edge points and pairs, scalars of 0–70 bytes, unreduced and off-curve coordinates, through the generic interface of the curve object obtained in five ways; reference affine arithmetic.",
"P44": "Two owners' keys in 4×7 combinations of forms carried through signing, encryption, exchange, requests and certificates; reference implementation and cross-form equality.",
}
