From 3f9b57af896afe5fb6c9a3a969e06e53be7493fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:33 +0000
Subject: [PATCH 01/10] fix: CheckWIF panicked on strings shorter than a
 checksum

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..f077242 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* The checksum is 4 bytes long */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From 56960c7ac495aaa1eb888ea43d06035363d51b61 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 02/10] fix: private keys with leading zeros, short, zero or
 out of range keys gave errors or malformed WIFs

---
 private_key.go | 9 +++++++++
 util.go        | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/private_key.go b/private_key.go
index f077242..8f50224 100644
--- a/private_key.go
+++ b/private_key.go
@@ -77,6 +77,9 @@ func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
 	var p PrivateKey
 	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	if len(hexa) != 64 || !isPrivateKeyInRange(p.Key) {
+		return nil, errors.New("private key invalid")
+	}
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
@@ -153,6 +156,9 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -174,6 +180,9 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
diff --git a/util.go b/util.go
index 3b7fa9b..78cabe0 100644
--- a/util.go
+++ b/util.go
@@ -16,6 +16,11 @@ func generateRandomBigInt() *big.Int {
 	return nBig
 }
 
+/* A private key is a number between 1 and N-1 */
+func isPrivateKeyInRange(key *big.Int) bool {
+	return key != nil && key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
+}
+
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
-- 
2.43.0


From 63371e17b39131a8c2601bb6a7986681f9fad8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:38 +0000
Subject: [PATCH 03/10] fix: PrivateFromWIF panicked or imported a wrong key on
 other networks, lengths and compressed WIFs

---
 private_key.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/private_key.go b/private_key.go
index 8f50224..0227bfc 100644
--- a/private_key.go
+++ b/private_key.go
@@ -60,13 +60,25 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
+	/* Network byte, 32 bytes key, 01 if the public key is compressed, and 4 bytes checksum */
+	if len(hexa) != 74 && (len(hexa) != 76 || hexa[66:68] != "01") {
+		return nil, errors.New("wif invalid")
+	}
+	if hexa[0:2] != strings.ToLower(network.PrivKeyPrefix) {
+		return nil, errors.New("different network")
+	}
+
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
+	hexa = hexa[0:64]
 
 	var privateKey PrivateKey
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
 	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	if !isPrivateKeyInRange(privateKey.Key) {
+		return nil, errors.New("wif invalid")
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
-- 
2.43.0


From 417380289dbf1127e7006373a72ef04771998a14 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:40 +0000
Subject: [PATCH 04/10] fix: distinct private keys were reported identical when
 their WIFs only differ in case

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 0227bfc..20c4df1 100644
--- a/private_key.go
+++ b/private_key.go
@@ -159,7 +159,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -183,7 +183,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From 5ab486d0a0bcca26e9b6c279170ea32631694845 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:42 +0000
Subject: [PATCH 05/10] fix: PublicFromHex panicked on malformed keys and
 accepted points off the curve

---
 public_key.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..5d4c90c 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,18 +18,34 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+		if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
-- 
2.43.0


From 701af5b058c7ddb2b170e2f690f4c293ed1357d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 06/10] fix: GetPublicKey exited the process on N-1 and gave
 wrong points for keys out of range

---
 public_key.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 5d4c90c..f83cd8a 100644
--- a/public_key.go
+++ b/public_key.go
@@ -76,12 +76,26 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if !isPrivateKeyInRange(p.Key) {
+		return nil, false
+	}
+
+	/* kG = -(N-k)G: use the smaller scalar, the ladder cannot go through the point at infinity */
+	key := p.Key
+	opposite := new(big.Int).Sub(secp256k1.N, key)
+	if key.Cmp(opposite) > 0 {
+		key = opposite
+	}
+
+	R, valid := secp256k1.ScalarMult(key, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	publicKey.X = R.X
 	publicKey.Y = R.Y
+	if key == opposite {
+		publicKey.Y = secp256k1.MultMod(R.Y, big.NewInt(-1))
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From d79ca14bc0f5b64a06a302403b867e30e472491c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:46 +0000
Subject: [PATCH 07/10] fix: AddPublicKeys exited the process on opposite keys

---
 public_key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public_key.go b/public_key.go
index f83cd8a..9172f80 100644
--- a/public_key.go
+++ b/public_key.go
@@ -210,6 +210,10 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		Y: p2.Y,
 	}
 
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("sum is the point at infinity")
+	}
+
 	r, onCurve := secp256k1.AddPoints(point1, point2)
 	if !onCurve {
 		return nil, errors.New("point is not on curve")
-- 
2.43.0


From a8ee894f16cb63f94a77571f2a28609ae588c833 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:49 +0000
Subject: [PATCH 08/10] fix: NewMnemonic phrases were not valid BIP39 mnemonics

---
 mnemonic.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..b3a91af 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
@@ -109,8 +109,13 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	entropyBytes := entropy.Bytes()
+	for len(entropyBytes) < entropyLength/8 {
+		entropyBytes = append([]byte{0}, entropyBytes...)
+	}
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
@@ -118,6 +123,9 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	hashInt := new(big.Int).SetBytes(hash)
 
 	hashBinary := fmt.Sprintf("%b", hashInt)
+	for len(hashBinary) < 256 {
+		hashBinary = "0" + hashBinary
+	}
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -133,7 +141,7 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From 8b1f2fce8a0527aa74208ec13444ab4581cc4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:23:51 +0000
Subject: [PATCH 09/10] fix: NewSeedFromMnemonic rejected or panicked on valid
 mnemonics, logged them and returned no seed

---
 mnemonic.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index b3a91af..575375e 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,17 +3,29 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
 	binary := ""
 	for _, word := range words {
 		index := -1
@@ -35,22 +47,24 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
+	/* One checksum bit for 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	checksum := binary[len(binary)-checksumLength : len(binary)]
+	binary = binary[0 : len(binary)-checksumLength]
+
 	hash := ""
 	for i := 0; i < len(binary); i += 4 {
 		n := ""
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
-
 	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	decoded, err := hex.DecodeString(hash)
 	if err != nil {
 		return nil, err
 	}
@@ -58,19 +72,17 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	shaHash := sha.Sum(nil)
 
 	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
+	shaHashBinary := fmt.Sprintf("%b", shaHashBig)
 
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
+	for len(shaHashBinary) < 256 {
+		shaHashBinary = "0" + shaHashBinary
 	}
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0


From a0f75a4ff3eadce54a3ef47a90e5875b6da1d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:57 +0000
Subject: [PATCH 10/10] fix: the public key of private key 1 shared its
 coordinates with the curve's generator

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 9172f80..161d50b 100644
--- a/public_key.go
+++ b/public_key.go
@@ -91,8 +91,9 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* The point may be the generator itself, do not share it */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 	if key == opposite {
 		publicKey.Y = secp256k1.MultMod(R.Y, big.NewInt(-1))
 	}
-- 
2.43.0

