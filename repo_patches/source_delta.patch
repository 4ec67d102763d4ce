From aef333db23492d3dd09cdbb9add0f8f6e767e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 1/6] fix: bits: do not access the buffer when reading zero
 bits

---
 pkg/bits/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..c55df16 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
-- 
2.43.0


From 84e446503b6e3609b69bebb431bd210ebd641a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 2/6] fix: bits: write exactly the N low bits of the value

---
 pkg/bits/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/bits/write.go b/pkg/bits/write.go
index a9d870b..105161a 100644
--- a/pkg/bits/write.go
+++ b/pkg/bits/write.go
@@ -2,6 +2,12 @@ package bits //nolint:revive
 
 // WriteBitsUnsafe writes N bits.
 func WriteBitsUnsafe(buf []byte, pos *int, v uint64, n int) {
+	if n == 0 {
+		return
+	}
+
+	v &= 1<<n - 1
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		buf[*pos>>0x03] |= byte(v << (res - n))
-- 
2.43.0


From eb0b35df5871141fcf10b347bcbb50a6fc266831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 3/6] fix: bits: refuse Exp-Golomb code words that do not fit
 32 bits

---
 pkg/bits/read.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index c55df16..9eec80f 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -71,7 +71,7 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		}
 
 		leadingZeros++
-		if leadingZeros > 32 {
+		if leadingZeros > 31 {
 			return 0, fmt.Errorf("invalid value")
 		}
 	}
@@ -100,11 +100,11 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
-	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+	vi := int32(v >> 1)
+	if (v & 0x01) != 0 {
+		return vi + 1, nil
 	}
-	return -vi / 2, nil
+	return -vi, nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From 9bcc473eb8e27c54adafa0926ced5b303a45f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 4/6] fix: av1: do not panic when the first OBU of a temporal
 unit is empty

---
 pkg/codecs/av1/is_random_access.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
-- 
2.43.0


From 60061bc999084a21ac4b0e969de11bce4c0b4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 5/6] fix: mpeg4video: do not panic when the configuration ends
 with a start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..0ff1323 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -24,6 +24,10 @@ func IsValidConfig(config []byte) error {
 		}
 
 		pos += i
+		if pos+3 >= len(config) {
+			break
+		}
+
 		startCode := StartCode(config[pos+3])
 
 		switch {
-- 
2.43.0


From 9fa80c002385723c8def6a678dd444f6def35123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 6/6] fix: h264, h265: do not panic on empty NAL units

---
 pkg/codecs/h264/dts_extractor.go    | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 pkg/codecs/h265/dts_extractor.go    | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..0f76298 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -112,6 +112,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..d5fdc36 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -158,6 +158,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0

