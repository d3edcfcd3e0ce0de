From 0e384b5a83f13aa0ec0619ff8220153a2eafd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 01/25] fix: sm3: Sum must not change the state of the hash

---
 sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..dc1b430 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,8 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	// work on a copy, so that the caller can keep writing and summing
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 7c8ce7ae2c86851f7d3d322eaba21559304ac4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 02/25] fix: sm3: accept empty writes instead of panicking

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index dc1b430..0fd07c1 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -87,7 +87,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From f0b376f6233a8dd38c3a20e29bc9dbe17a2d1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 03/25] fix: sm3: do not truncate offsets of writes beyond 2
 GiB

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 0fd07c1..0c638f5 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -105,7 +105,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -215,7 +215,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From 639e8549dd5302942cf96cbbdd40cd92be6aa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 04/25] fix: sm2: derive exchanged keys of more than 128 bits

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From 2f36a89300a54f942fb9ea00fd41151b29ef7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 05/25] fix: sm3: report the block size in bytes, HMAC depends
 on it

---
 sm3/sm3.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 0c638f5..5eaec24 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,7 +9,8 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
+	blockWords   = BlockSize / 4
 )
 
 var gT = []uint32{
@@ -24,7 +25,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -227,14 +228,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From fa61bd9e87a6800a946092ef725c06fd0a843688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 06/25] fix: sm2: hash key exchange coordinates as fixed
 32-byte strings

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..3cb365b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From b31cd7916bfcbae915d318d7987bb4f234bcc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 07/25] fix: sm2: refuse invalid peer points in the key
 exchange

---
 sm2/keyexchange.go | 6 ++++++
 sm2/sm2.go         | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3cb365b..8ed671f 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -117,6 +117,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	if initiator && confirmationTag == nil {
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
+	if !otherStaticPub.isOnCurve() || !otherEphemeralPub.isOnCurve() {
+		return nil, errors.New("invalid public key of the other party")
+	}
 
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
@@ -126,6 +129,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("shared point at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..7820a41 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -186,6 +186,11 @@ func CalculatePubKey(priv *PrivateKey) *PublicKey {
 	return pub
 }
 
+// isOnCurve 判断公钥是否是SM2曲线上的点（不包括无穷远点）
+func (pub *PublicKey) isOnCurve() bool {
+	return pub != nil && pub.X != nil && pub.Y != nil && sm2P256V1.IsOnCurve(pub.X, pub.Y)
+}
+
 func nextK(rnd io.Reader, max *big.Int) (*big.Int, error) {
 	intOne := new(big.Int).SetInt64(1)
 	var k *big.Int
-- 
2.43.0


From bcc2f541cb13c8da3bac512ad00891c28d0ef1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 08/25] fix: sm4: return an error for a CBC IV of the wrong
 size

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..1b9b3d9 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must be equal to block size")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv length must be equal to block size")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From df9a49677bc98eede5790ae044538fbebb6e8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 09/25] fix: util: padding must not write behind the caller's
 slice

---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From fdd4396e177fbccccc2d999d51aaf29bfe088714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 10/25] fix: util: PKCS5UnPadding must not panic on text that
 is not padded

---
 util/padding.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index 78ca4ca..3d9b33a 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -10,7 +10,14 @@ func PKCS5Padding(src []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(src []byte) []byte {
 	length := len(src)
+	if length == 0 {
+		return nil
+	}
 	unpadding := int(src[length-1])
+	if unpadding > length {
+		// not a padded text
+		return nil
+	}
 	return src[:(length - unpadding)]
 }
 
-- 
2.43.0


From 438d7958df2af95cc946406adb3dfd916f670148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 11/25] fix: sm2: encrypting an empty plaintext must terminate

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 7820a41..0696378 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -281,7 +281,7 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 		kPBx, kPBy = pub.Curve.ScalarMult(pub.X, pub.Y, kBytes)
 		kdf(digest, kPBx, kPBy, c2)
 
-		if !notEncrypted(c2, in) {
+		if len(in) == 0 || !notEncrypted(c2, in) {
 			break
 		}
 	}
-- 
2.43.0


From 95c013dae05e987703a83ef0b7fe040270c1fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 12/25] fix: sm2: Decrypt must not panic on short input or an
 invalid C1

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 0696378..8094c7d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -312,9 +312,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("invalid cipher text")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("invalid C1")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From 0a9a0f17a52cdaac1958f3a832d42d3bac06490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 13/25] fix: sm2: reject malformed input in MarshalCipher and
 UnmarshalCipher

---
 sm2/sm2.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 8094c7d..0fc8ed8 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -358,6 +358,9 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength || in[0] != UnCompress {
+		return nil, errors.New("invalid cipher text")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
@@ -395,6 +398,29 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// checkCipher 检查解码得到的密文各部分是否合法，以及der是否就是cipher的DER编码
+func checkCipher(der []byte, cipher interface{}, x, y *big.Int, c3 []byte) error {
+	if x.Sign() < 0 || x.BitLen() > BitSize || y.Sign() < 0 || y.BitLen() > BitSize {
+		return errors.New("invalid C1 in cipher text")
+	}
+	if len(c3) != sm3.DigestLength {
+		return errors.New("invalid C3 in cipher text")
+	}
+	return checkDER(der, cipher)
+}
+
+// checkDER 检查der是否就是val的DER编码，不允许有多余的数据
+func checkDER(der []byte, val interface{}) error {
+	canonical, err := asn1.Marshal(val)
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(canonical, der) {
+		return errors.New("not a DER encoding")
+	}
+	return nil
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -402,6 +428,10 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		err = checkCipher(in, *cipher, cipher.X, cipher.Y, cipher.C3)
+		if err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -426,6 +456,10 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		err = checkCipher(in, *cipher, cipher.X, cipher.Y, cipher.C3)
+		if err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 80d1df1e4ff3def7fe6bd26566bb9e54a318a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 14/25] fix: sm2: reject signatures that are not the exact DER
 encoding

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 0fc8ed8..3c3a2e5 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -527,6 +527,10 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	err = checkDER(sign, *sm2Sign)
+	if err != nil {
+		return nil, nil, err
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 8b143ded67866bdc6018b56b260acf00c6b7ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 15/25] fix: sm2: refuse public keys that are not points of the
 curve

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 3c3a2e5..9a9ffd3 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -265,6 +265,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if !pub.isOnCurve() {
+		return nil, errors.New("invalid public key")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -590,6 +593,9 @@ func Sign(priv *PrivateKey, userId []byte, in []byte) ([]byte, error) {
 }
 
 func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
+	if !pub.isOnCurve() {
+		return false
+	}
 	intOne := new(big.Int).SetInt64(1)
 	if r.Cmp(intOne) == -1 || r.Cmp(pub.Curve.N) >= 0 {
 		return false
-- 
2.43.0


From a7c603676876770a9c99c3533761862c2f52c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 16/25] fix: sm2: never generate or sign with a private key
 outside [1, n-2]

---
 sm2/sm2.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 9a9ffd3..587917b 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -96,14 +96,28 @@ func GetSm2P256V1() P256V1Curve {
 	return sm2P256V1
 }
 
+// isSignable 判断私钥d是否在[1, n-2]范围内，d为n-1时(1+d)不可逆，无法签名
+func isSignable(d *big.Int) bool {
+	return d.Sign() > 0 && new(big.Int).Add(d, big.NewInt(1)).Cmp(sm2P256V1.N) < 0
+}
+
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
+	var d, x, y *big.Int
+	for {
+		var priv []byte
+		var err error
+		priv, x, y, err = elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		d = new(big.Int).SetBytes(priv)
+		if isSignable(d) {
+			break
+		}
 	}
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	privateKey.D = d
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -538,6 +552,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !isSignable(priv.D) {
+		return nil, nil, errors.New("private key must be in [1, n-2]")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From 71131e95d29903a1db7d007229ded4ca90d59df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 17/25] fix: cryptobyte: ReadASN1Boolean must read a BOOLEAN,
 the optional form only once

---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 1ee483b9eb22256a7bb1be32a1f9c5e220bb3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 18/25] fix: cryptobyte: AddASN1BigInt must not panic on -1

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..c8bc322 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -75,7 +75,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 8ed1a58c36410199437a57a3eb1540b01a2524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 19/25] fix: cryptobyte: read identifiers of up to 31 bits, in
 minimal form only

---
 cryptobyte/asn1.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index c8bc322..72e2621 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -377,11 +377,16 @@ func (s *String) ReadASN1Enum(out *int) bool {
 func (s *String) readBase128Int(out *int) bool {
 	ret := 0
 	for i := 0; len(*s) > 0; i++ {
-		if i == 4 {
+		// Identifiers of up to 31 bits take 5 bytes, int may have just 32 bits.
+		if i == 5 || ret >= 1<<(31-7) {
 			return false
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if i == 0 && b == 0x80 {
+			// ITU-T X.690, section 8.19.2: the leading octet shall not be 0x80.
+			return false
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From 295e96c9e5be56bda0d728a9b6cb3bd40e5a0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 20/25] fix: cryptobyte: fail on negative lengths and read zero
 bytes from a nil String

---
 cryptobyte/string.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..2ce4338 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -22,11 +22,15 @@ package cryptobyte
 type String []byte
 
 // read advances a String by n bytes and returns them. If less than n bytes
-// remain, it returns nil.
+// remain or n is negative, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
+	if n == 0 {
+		// Not nil, even if the String is.
+		return []byte{}
+	}
 	v := (*s)[:n]
 	*s = (*s)[n:]
 	return v
-- 
2.43.0


From f8e11f2174a3b859cf7b8b18e91ee0d6884068ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 21/25] fix: cryptobyte: keep length-prefixed contents in
 fixed-size builders and report their overflow

---
 cryptobyte/builder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..c84b9cc 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
@@ -251,6 +254,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
@@ -268,9 +275,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // Longer now, and reallocated unless fixedSize.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From 7eb5a3e111ff782e4e7d95c474168e10fc3ef4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 22/25] fix: cert: refuse domains that start with an empty
 label

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..03c2634 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -467,6 +467,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The domain starts with an empty label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From 710fae351b7b8dade46a87589d39e6c416e99c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 23/25] fix: cert: report an unknown extended key usage instead
 of panicking

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 03c2634..c2a9147 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -727,7 +727,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 6dce5cf39f3fad8dcaa003f1899d942c3ee47947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 24/25] fix: cert: do not change the template's attributes when
 creating a request

---
 sm2/cert/gmx509.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index c2a9147..32d2e08 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -133,12 +133,15 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 
 		// Append the extensions to an existing attribute if possible.
 		appended := false
-		for _, atvSet := range attributes {
+		for i, atvSet := range attributes {
 			if !atvSet.Type.Equal(oidExtensionRequest) || len(atvSet.Value) == 0 {
 				continue
 			}
 
-			atvSet.Value[0] = append(atvSet.Value[0], atvs...)
+			// The values belong to the template: leave them as they are.
+			value := append([][]pkix.AttributeTypeAndValue(nil), atvSet.Value...)
+			value[0] = append(append([]pkix.AttributeTypeAndValue(nil), value[0]...), atvs...)
+			attributes[i].Value = value
 			appended = true
 			break
 		}
-- 
2.43.0


From 91caf4a1755c6d560b492e81df3ed73a9179587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 25/25] fix: cert: omit the extensions field when there are no
 extensions

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 32d2e08..843b7b5 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -978,7 +978,7 @@ type tbsCertificate struct {
 	PublicKey          publicKeyInfo
 	UniqueId           asn1.BitString   `asn1:"optional,tag:1"`
 	SubjectUniqueId    asn1.BitString   `asn1:"optional,tag:2"`
-	Extensions         []pkix.Extension `asn1:"optional,explicit,tag:3"`
+	Extensions         []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
 }
 
 type TBSCertificate tbsCertificate
-- 
2.43.0

