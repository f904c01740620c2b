From aee8990da1fa80a6a2d8b715fc362f2cee96bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:12 +0000
Subject: [PATCH 1/6] fix: start MovMax with the lowest value of the type

numeric_limits<float>::min() is the smallest positive normal number, so a
floating point moving maximum dropped a sample equal to it too early.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 7c66e0897354323786b162ac08db0d467de1f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:20 +0000
Subject: [PATCH 2/6] fix: place the negative frequencies correctly in
 frequency-domain zero padding

For odd input lengths the first negative frequency was left among the
positive ones.  For output lengths below one and a half of the input length
bins were overwritten before they were moved, or zeroed after.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..c2b2bff 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i <= OUTPUT-INPUT+INPUT/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From dfb3664d9c03fae1198b821786966604dd599df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:47 +0000
Subject: [PATCH 3/6] fix: take the sign of the angle from y when y / x
 underflows

---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0


From d58d32b21bb115bb172c1531de7c5b4761b746f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:59 +0000
Subject: [PATCH 4/6] fix: keep WAV reader defined on unusual headers

Zero or negative channel counts divided by zero, large fields overflowed,
and rejected headers left the reported parameters uninitialised.
---
 wav.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wav.hh b/wav.hh
index 94c8e95..fc37a5e 100644
--- a/wav.hh
+++ b/wav.hh
@@ -15,8 +15,8 @@ template <typename TYPE>
 class ReadWAV : public ReadPCM<TYPE>
 {
 	std::ifstream is;
-	int bits_, bytes, rate_, channels_, frames_;
-	int offset, factor;
+	int bits_ = 0, bytes = 0, rate_ = 0, channels_ = 0, frames_ = 0;
+	int offset = 0, factor = 1;
 	int readLE(int b)
 	{
 		int v = 0;
@@ -67,6 +67,10 @@ public:
 		if (AudioFormat != 1 && AudioFormat != 3)
 			return;
 		channels_ = readLE(2);
+		if (channels_ < 1) {
+			channels_ = 0;
+			return;
+		}
 		rate_ = readLE(4);
 		int ByteRate = readLE(4);
 		int BlockAlign = readLE(2);
@@ -80,7 +84,7 @@ public:
 		bytes = bits_ / 8;
 		if (bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if ((long long)rate_ * bytes * channels_ != ByteRate)
 			return;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
@@ -104,7 +108,7 @@ public:
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-			if (Subchunk2Size + overhead - 8 != ChunkSize)
+			if (Subchunk2Size != ChunkSize - (overhead - 8))
 				return;
 			if (Subchunk1Size == 16)
 				frames_ = Subchunk2Size / (bytes * channels_);
-- 
2.43.0


From 4e1ad8dc6f5f724b67ed83d6a606ea54f51189f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:02:33 +0000
Subject: [PATCH 5/6] fix: keep Netpbm reader defined on unusual headers

Rejected headers left the size and kind uninitialised and long numbers
overflowed.
---
 netpbm.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..c849584 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -15,8 +15,8 @@ template <typename TYPE>
 class ReadPNM : public ReadPEL<TYPE>
 {
 	std::ifstream is;
-	int width_, height_, maxval_;
-	bool mono_;
+	int width_ = 0, height_ = 0, maxval_ = 0;
+	bool mono_ = false;
 
 	TYPE linear(int val)
 	{
@@ -65,8 +65,11 @@ public:
 					while (is.good() && !newline(is.get()));
 			while (space(c))
 				c = is.get();
-			for (num[i] = 0; digit(c); c = is.get())
+			for (num[i] = 0; digit(c); c = is.get()) {
+				if (num[i] > 99999999)
+					return;
 				num[i] = 10 * num[i] + value(c);
+			}
 		}
 		if (!space(c))
 			return;
-- 
2.43.0


From 1c3d635ce9e8b62ffdcb62ed49b9ac7e975cc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:07 +0000
Subject: [PATCH 6/6] fix: scale by powers of two beyond 2^255

The shift count ran out of the range of int, so powers of ten beyond 77
came out wrong for double.
---
 exp.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..6ade555 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,10 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
-	t *= t;
-	t *= t;
-	t *= t;
-	t *= 1 << ar;
+	TYPE t = 1;
+	for (TYPE b = 2; a; a >>= 1, b *= b)
+		if (a & 1)
+			t *= b;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0

