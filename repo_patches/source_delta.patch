From 7cc4a834de39195892371159289576043e67ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 01/18] fix: csprng must not hand out the same keystream on
 every Read

Read always started at keystream offset 0, so two reads from one generator
returned the same bytes: two splits with one generator shared their
polynomials, and the public share tags revealed the coefficients (and, in
krawczyk, the AES key).
---
 csprng/csprng.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..aa8103a 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,12 +3,16 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
-	c  *aesctrat.AesCtr
-	iv []byte
+	// offset is the number of keystream bytes that are already handed out.
+	// It is accessed atomically, so it stays first to be 64-bit aligned.
+	offset uint64
+	c      *aesctrat.AesCtr
+	iv     []byte
 }
 
 func init() {
@@ -19,16 +23,20 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
+// Read fills buff with the next len(buff) bytes of the keystream. Every byte
+// of the keystream is handed out once, also when r is used concurrently.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	n := uint64(len(buff))
+	offset := atomic.AddUint64(&r.offset, n) - n
+	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
 	return len(buff), nil
 }
 
-- 
2.43.0


From 953d2d82bb6e5e86a9a7c0b32be1932cdb38d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 02/18] fix: Read must overwrite the buffer instead of mixing
 in its old content

---
 csprng/csprng.go         | 3 +++
 randomizer/randomizer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index aa8103a..ff2feb2 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -36,6 +36,9 @@ func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 func (r *CSPRNG) Read(buff []byte) (int, error) {
 	n := uint64(len(buff))
 	offset := atomic.AddUint64(&r.offset, n) - n
+	for i := range buff {
+		buff[i] = 0
+	}
 	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
 	return len(buff), nil
 }
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..d1d3ffb 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -22,6 +22,9 @@ func NewRandomizer() *Randomizer {
 }
 
 func (r *Randomizer) Read(buff []byte) (int, error) {
+	for i := range buff {
+		buff[i] = 0
+	}
 	r.c.XORKeyStream(buff, buff)
 	return len(buff), nil
 }
-- 
2.43.0


From 56221201e911cbc97a06da4cebffce368a3db035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/18] fix: csprng.Perm must not index out of range

j reached n for the first element (a panic in one of 256 calls of
Perm(255)), and n-2 wrapped around for n < 2.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index ff2feb2..9743cdb 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -52,8 +52,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); int(i) < int(n)-1; i++ {
+		j := i + shuffler[i] % (n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From b01030ecd8867e3a0c791c73fb5fcf021bb16094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 04/18] fix: GetUniqueBytes must not return 255

SplitWithRandomizer uses each byte plus one as a share tag: 255 wrapped to
tag 0, and the share with tag 0 is the secret itself.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 9743cdb..acf8927 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -61,7 +61,7 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	return buff
 }
 
-// GetUniqueBytes produces n unique byte. If n >= 20, this uses Perm(255)
+// GetUniqueBytes produces n unique byte between 0 and 254. If n >= 20, this uses Perm(255)
 // and return the first n bytes. Assuming PRNG that produces uniform number
 // when n >= 20, the chance of producing duplicate byte is greater than 50%,
 // that is why Perm(255) is used.
@@ -76,7 +76,7 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
 		for isDuplicate {
-			if _, exist := isExist[buff[i]]; !exist {
+			if _, exist := isExist[buff[i]]; !exist && buff[i] != 255 {
 				isDuplicate = false
 				break
 			}
-- 
2.43.0


From d726282a2a01f49ed2ec4a427a4ab47455099c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 05/18] fix: Randomizer.Perm must return a permutation

It overwrote elements instead of swapping them, so values were repeated,
and it panicked for n = 0.
---
 randomizer/randomizer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index d1d3ffb..e271da7 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -36,12 +36,11 @@ func (r *Randomizer) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
+	for max := int(n) - 1; max > 0; max-- {
+		rx := int(shuffler[max]) % (max + 1)
 		temp := buff[rx]
+		buff[rx] = buff[max]
 		buff[max] = temp
-		max--
 	}
 	return buff
 }
\ No newline at end of file
-- 
2.43.0


From 5e547667da460165e0e29ac1ecb28139d0527156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 06/18] fix: keys and polynomial coefficients must come from
 crypto/rand

They came from math/rand seeded with the time (31 bits of seed), so the
secret could be recovered from one share by trying all seeds.
---
 csprng/csprng.go         | 5 ++++-
 krawczyk/krawczyk.go     | 2 +-
 randomizer/randomizer.go | 6 ++++--
 shamir/polynomial.go     | 6 ++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index acf8927..65c8eaf 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,6 +1,7 @@
 package csprng
 
 import (
+	crand "crypto/rand"
 	"github.com/starius/aesctrat"
 	"math/rand"
 	"sync/atomic"
@@ -21,7 +22,9 @@ func init() {
 
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	if _, err := crand.Read(keyIv); err != nil {
+		panic(err)
+	}
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..b1d9d5b 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index e271da7..c66fbbd 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
@@ -12,7 +12,9 @@ type Randomizer struct {
 
 func NewRandomizer() *Randomizer {
 	keyAndIV := make([]byte, 16 + aes.BlockSize)
-	rand.Read(keyAndIV)
+	if _, err := rand.Read(keyAndIV); err != nil {
+		panic(err)
+	}
 	c, err := aes.NewCipher(keyAndIV[:16])
 	if err != nil {
 		panic(err)
diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..dde6cb1 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
@@ -18,7 +18,9 @@ func makePolynomialsWithBuff(intercepts []uint8, degree int, buffer []uint8) ([]
 	N := len(intercepts)
 
 	// assign random coefficients for all the N polynomials
-	_, _ = rand.Read(buffer)
+	if _, err := rand.Read(buffer); err != nil {
+		return nil, err
+	}
 
 	for p := 0; p < N; p++ {
 		s := (degree+1)*p
-- 
2.43.0


From 5817e3ab2a35dbc34757e9a78b75275e709680f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 07/18] fix: Regenerate must give every new share its own
 non-zero tag

The replacement for a duplicate tag was never stored, tag 0 (whose share
is the secret) was possible, a count beyond the free tags looped forever
and a negative count panicked.
---
 shamir/shamir.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..5041faf 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -440,10 +440,8 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
-	newShares := make([][]byte, numNewShares)
 	x_samples := make([]uint8, len(parts))
 	y_samples := make([]uint8, len(parts))
-	newXs := make([]byte, numNewShares)
 
 	// Set the x value for each sample and ensure no x_sample values are the same,
 	// otherwise div() can be unhappy
@@ -456,18 +454,24 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		checkMap[samp] = true
 	}
 
+	// each share, given or new, needs its own non-zero x
+	if numNewShares < 0 || numNewShares > 255-len(parts) {
+		return nil, fmt.Errorf("the number of given and new parts cannot exceed 255")
+	}
+	newShares := make([][]byte, numNewShares)
+	newXs := make([]byte, numNewShares)
+
 	// generate new random x
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
-	// ensure no duplicate x generated
-	for _, nx := range newXs {
-		exists := checkMap[nx]
-		for exists {
-			nx = byte(rand.Uint32())
-			exists = checkMap[nx]
+	// ensure no duplicate x generated, and no zero x as its share is the secret
+	checkMap[0] = true
+	for i := range newXs {
+		for checkMap[newXs[i]] {
+			newXs[i] = byte(rand.Uint32())
 		}
-		checkMap[nx] = true
+		checkMap[newXs[i]] = true
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 338a0c0e53081bffa7be97b2e2d133dc037a0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 08/18] fix: appending to a share must not overwrite the next
 share

---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 5041faf..127eda8 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From 15c9976ac76ac800e2f0b496649c65d1c558d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 09/18] fix: krawczyk.Combine must return an error for
 malformed shares

It panicked when given no share, a share shorter than its metadata, a
part-id equal to the number of parts, or negative parameters.
---
 krawczyk/krawczyk.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index b1d9d5b..f7469a4 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -172,12 +172,15 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold should be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -213,11 +216,15 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		// metadata, at least one byte of encoded data, and the part-id
+		if len(ssData[i]) < secretStartIdx+2 {
+			return nil, errors.New("the given secret-shared data is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if partID >= byte(parts) {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From dd703d852ba0bec63e48033cdf8b7fe02126ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 10/18] fix: krawczyk.Split must not panic for thresholds close
 to parts

reedsolomon pads in the spare capacity of its input and indexes out of
range when there is some, but too little (e.g. 60 bytes, 20 parts,
threshold 20).
---
 krawczyk/krawczyk.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index f7469a4..663f649 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,11 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// Split pads in place and may write up to threshold bytes after the data when
+	// there is any spare capacity, so make sure there is enough of it
+	paddedSecret := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(paddedSecret, encryptedSecret)
+	encodedSecret, err := encoder.Split(paddedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +128,11 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// Split pads in place and may write up to threshold bytes after the data when
+	// there is any spare capacity, so make sure there is enough of it
+	paddedSecret := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(paddedSecret, encryptedSecret)
+	encodedSecret, err := encoder.Split(paddedSecret)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
-- 
2.43.0


From 61029542a1bd1b4f1549e983b992955d1f8ffc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 11/18] fix: SplitP must share secrets of 4 GiB and more
 completely

The length was truncated to 32 bits, so the rest of the secret was left
out of the shares.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 127eda8..25e6aa8 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -321,8 +321,8 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	// Because we are using a field of size 256, we can only represent
 	// a single byte as the intercept of the polynomial, so we must
 	// use a new polynomial for each byte.
-	idx := uint32(0)
-	secretLen := uint32(len(secret))
+	idx := 0
+	secretLen := len(secret)
 	var wg sync.WaitGroup
 	for idx < secretLen {
 
@@ -332,7 +332,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 		}
 
 		wg.Add(1)
-		go func(startIdx, endIdx uint32, values []byte) {
+		go func(startIdx, endIdx int, values []byte) {
 			defer wg.Done()
 
 			crtIdx := startIdx
-- 
2.43.0


From 31ff3fca95542e5b81fb3a101b0f0084dd95e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/18] fix: SplitP must return an error instead of ending the
 process

---
 shamir/shamir.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 25e6aa8..eb2966f 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"github.com/fadhilkurnia/shamir/csprng"
 	"github.com/fadhilkurnia/shamir/utils"
-	"log"
 	"math/rand"
 	"sync"
 )
@@ -324,6 +323,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	idx := 0
 	secretLen := len(secret)
 	var wg sync.WaitGroup
+	polyErr := make(chan error, 1)
 	for idx < secretLen {
 
 		endIdx := idx + 1024
@@ -339,7 +339,11 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 			for _, val := range values {
 				p, err := makePolynomial(val, uint8(threshold-1))
 				if err != nil {
-					log.Fatalf("failed to generate polynomial: %s", err.Error())
+					select {
+					case polyErr <- err:
+					default:
+					}
+					return
 				}
 
 				// Generate a `parts` number of (x,y) pairs
@@ -359,6 +363,12 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 
 	wg.Wait()
 
+	select {
+	case err := <-polyErr:
+		return nil, fmt.Errorf("failed to generate polynomial: %v", err)
+	default:
+	}
+
 	// Return the encoded secrets
 	return out, nil
 }
-- 
2.43.0


From 464c7b7f2853bfdbf85c02d80dbb2b7227ef7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 13/18] fix: krawczyk.Combine must not print to the standard
 output of its caller

---
 krawczyk/krawczyk.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 663f649..5531048 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -241,8 +241,7 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	// get the metadata
 	metadata, err := shamir.Combine(ssMetadata)
 	if err != nil {
-		fmt.Println("failed to retrieve the metadata: ", err)
-		return nil, err
+		return nil, fmt.Errorf("failed to retrieve the metadata: %v", err)
 	}
 	key := metadata[:LenKey]
 	length := binary.LittleEndian.Uint32(metadata[LenKey:])
-- 
2.43.0


From 2547922b4be74d96ab8c5703e887ff8442813c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 14/18] fix: NewCSPRNGWithKeyIV must not keep a reference to
 the callers buffer

Clearing or reusing the buffer changed the keystream of the generator.
---
 csprng/csprng.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 65c8eaf..7fe895e 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -31,7 +31,8 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{c: ctr, iv: keyIv[16:]}
+	iv := append([]byte(nil), keyIv[16:]...)
+	return &CSPRNG{c: ctr, iv: iv}
 }
 
 // Read fills buff with the next len(buff) bytes of the keystream. Every byte
-- 
2.43.0


From 83df81f6c786849e53b9a8bb61af1b9ea8a8a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 15/18] fix: the generic vector operations must be built on
 ppc64le too

There is no assembly for ppc64le here, so the module did not build there.
---
 galois/vector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galois/vector.go b/galois/vector.go
index 56850e7..1294fd1 100644
--- a/galois/vector.go
+++ b/galois/vector.go
@@ -1,7 +1,6 @@
-//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo) && (!ppc64le || noasm || appengine || gccgo)
+//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo)
 // +build !amd64 noasm appengine gccgo
 // +build !arm64 noasm appengine gccgo
-// +build !ppc64le noasm appengine gccgo
 
 package galois
 
-- 
2.43.0


From ce29cabf22d786d6cb6894a175e2d1e419257ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 16/18] fix: krawczyk must build on 32-bit architectures

---
 krawczyk/krawczyk.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 5531048..2db642c 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -19,9 +19,9 @@ const LenKey = 16
 const LenLen = 4
 
 func Split(secret []byte, parts, threshold int) ([][]byte, error) {
-	if len(secret) > math.MaxUint32 {
+	if uint64(len(secret)) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is to large, we can only split up to %d bytes data", math.MaxUint32)
+			"the provided secret is to large, we can only split up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold == 0 || parts == 0 {
 		return nil, errors.New("#parts and #threshold can not be zero")
@@ -94,9 +94,9 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 
 // SplitWithRandomizer is exactly the same with Split but with randomizer provided by the caller
 func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng.CSPRNG) ([][]byte, error) {
-	if len(secret) > math.MaxUint32 {
+	if uint64(len(secret)) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is to large, we can only split up to %d bytes data", math.MaxUint32)
+			"the provided secret is to large, we can only split up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold == 0 || parts == 0 {
 		return nil, errors.New("#parts and #threshold can not be zero")
@@ -183,9 +183,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	if len(ssData) == 0 {
 		return nil, errors.New("no secret-shared data is given")
 	}
-	if len(ssData[0]) > math.MaxUint32 {
+	if uint64(len(ssData[0])) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
+			"the provided secret is too large, we can only combine up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold <= 0 || parts <= 0 {
 		return nil, errors.New("#parts and #threshold should be positive")
@@ -245,6 +245,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	}
 	key := metadata[:LenKey]
 	length := binary.LittleEndian.Uint32(metadata[LenKey:])
+	if uint64(length) > math.MaxInt {
+		return nil, errors.New("the given secret-shared data is wrong, the secret is too large")
+	}
 
 	// decode the ciphertext
 	decoder, err := reedsolomon.New(threshold, parts-threshold)
-- 
2.43.0


From d73191fb817486676bc44044106223d4bf249101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 17/18] fix: the SIMD AddVector must not write past a shorter
 vector

The assembly trusts len(in), so a shorter out was overrun silently. The
generic version already panics for different lengths.
---
 galois/vector_amd64.go | 3 +++
 galois/vector_arm64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/galois/vector_amd64.go b/galois/vector_amd64.go
index d1b5dde..f3e91a3 100644
--- a/galois/vector_amd64.go
+++ b/galois/vector_amd64.go
@@ -105,6 +105,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic("in and out should have the same length")
+	}
 	origOutPointer := out
 
 	if useSSE2 {
diff --git a/galois/vector_arm64.go b/galois/vector_arm64.go
index 9314174..5634527 100644
--- a/galois/vector_arm64.go
+++ b/galois/vector_arm64.go
@@ -38,6 +38,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic("in and out should have the same length")
+	}
 	origOutPointer := out
 
 	galXorNEON(in, out)
-- 
2.43.0


From fe3d25c8c40b7a75297c672bf2f11c5ef69ecad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 18/18] fix: GalExp must not overflow for large exponents

---
 galois/galois.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..89acfd9 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -57,7 +57,7 @@ func GalExp(a byte, n int) byte {
 	}
 
 	logA := logTable[a]
-	logResult := int(logA) * n
+	logResult := int(logA) * (n % 255)
 	for logResult >= 255 {
 		logResult -= 255
 	}
-- 
2.43.0

