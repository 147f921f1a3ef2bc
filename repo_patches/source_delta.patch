From 4cb1f28e04fcaf5f7acb95d1ca94a63403772dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 01/28] fix: a NaN right operand of Unpacked +, * and / gives
 NaN, not the left operand

---
 include/unpacked.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b794ebd..3eeb734 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -327,7 +327,7 @@ struct Unpacked
     // UnpackedDualSel(*,NaN)
     // UnpackedDualSel(NaN,*)
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -389,7 +389,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator*(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -432,7 +432,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator/(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
 
     // 9 more cases
     switch (UnpackedDualSel(a.type, b.type))
-- 
2.43.0


From 59f20e3a53d345d7edc8aa419dd2bd4dc0be0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 02/28] fix: Unpacked number divided by infinity is zero, not
 infinity

---
 include/unpacked.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index 3eeb734..6deece6 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -457,6 +457,7 @@ struct Unpacked
     case UnpackedDualSel(Infinity, Infinity):
       return nan();
     case UnpackedDualSel(Zero, Infinity):
+    case UnpackedDualSel(Regular, Infinity):
       return zero();
     case UnpackedDualSel(Zero, Regular):
     case UnpackedDualSel(Infinity, Zero):
-- 
2.43.0


From 1b312da339864fab08e57fc94d6c2442808cf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 03/28] fix: Unpacked sum shifted by the fraction width or more
 when exponents are far apart

---
 include/unpacked.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 6deece6..afe2ec9 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -342,10 +342,12 @@ struct Unpacked
           (FT_leftmost_bit >> 1) |
           (a.fraction >> 2); // denormalized and shifted right
       POSIT_LUTYPE bfrac1 = (FT_leftmost_bit >> 1) | (b.fraction >> 2);
+      // an operand more than FT_bits below the other vanishes (a shift by
+      // FT_bits or more is undefined)
       POSIT_LUTYPE afrac = dir < 0
-                               ? (afrac1 >> -dir)
+                               ? (-dir < FT_bits ? (afrac1 >> -dir) : 0)
                                : afrac1; // denormalized and shifted right
-      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (bfrac1 >> dir);
+      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (dir < FT_bits ? (bfrac1 >> dir) : 0);
 
       // 1.xxxx => 0.1xxxxx => 0.0k 1 xxxx
       //
-- 
2.43.0


From 026b33640100d4ead5f717d1553e6e7a01e658d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 04/28] fix: Unpacked operator!= was inverted and unary minus
 turned zero, infinity and NaN into numbers

---
 include/unpacked.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index afe2ec9..270140d 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -228,12 +228,13 @@ struct Unpacked
   constexpr bool operator!=(const Unpacked &u) const
   {
     // nan != nan ALWAYS
-    return type == NaN || u.type == NaN ? true : (*this == u);
+    return !(*this == u);
   }
 
   constexpr Unpacked operator-() const
   {
-    return Unpacked(exponent, fraction, !negativeSign);
+    return type == Regular ? Unpacked(exponent, fraction, !negativeSign)
+                           : Unpacked(type, type == Infinity ? !negativeSign : negativeSign);
   }
 
   CONSTEXPR14 Unpacked inv() const
-- 
2.43.0


From 01a77ccc4d7fcbb43489b2b03050e3b579e3d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 05/28] fix: reciprocal of zero and infinity, and of minpos in
 WithNanInf posits (was infinity, now saturates)

---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 665384a..5e6bc3f 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -598,7 +598,7 @@ template <class T, int totalbits, int esbits, class FT, PositSpec positspec>
 CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::inv() const -> Posit
 {
 	auto u = unpack_low();
-	if(u.fraction == 0)
+	if(u.type == UnpackedT::Regular && u.fraction == 0)
 	{
 		// 2^(R scale + E) with E unsigned
 		// becomes -R scale + (scale-E)
@@ -609,7 +609,7 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::inv() const -> Posit
 			u.regime = -(u.regime+1);
 			u.exp = PT::POSIT_REG_SCALE-u.exp; // NOP if esbits == 0
 		}
-		return pack_low(u);
+		return pack_posit< T,totalbits,esbits,FT,positspec> (unpacked_low2full(u)); // saturates
 	}
 	else
 	{
-- 
2.43.0


From 459d4d7b0d0c53741ae1b0486806f64235b83817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 06/28] fix: half of minpos underflowed to zero and twice of
 maxpos reached infinity or wrapped

---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 5e6bc3f..a9f0362 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -753,7 +753,7 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::half() const -> Posit<T
 		{
 			q.exp--;
 		}
-		return pack_low(q);
+		return pack_posit<T,totalbits,esbits,FT,positspec>(unpacked_low2full(q)); // saturates
 	}
 	else
 	{
@@ -782,7 +782,7 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::twice() const -> Posit<
 		{
 			q.exp++;
 		}
-		return pack_low(q);
+		return pack_posit<T,totalbits,esbits,FT,positspec>(unpacked_low2full(q)); // saturates
 	}
 	else
 	{
-- 
2.43.0


From d0c400df602a114ba788ccdf6b5c46386753c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 07/28] fix: negation and absolute value of the top pattern
 (NaN, unsigned infinity) left the posit's range when the holder is wider, and
 overflowed otherwise

---
 include/posit.h     | 8 ++++----
 include/posit10.hpp | 4 ++--
 include/posit12.hpp | 4 ++--
 include/posit8.hpp  | 4 ++--
 include/positf.h    | 8 ++++----
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index a9f0362..29f76d0 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -335,10 +335,11 @@ public:
 	/// absolute value
 	/// TODO: use (v ^ mask) - mask   OR (x+mask)^nasj
 	/// where int const mask = v >> sizeof(int) * CHAR_BIT - 1;
-	constexpr Posit abs()  const { return Posit(DeepInit(),pcabs(v));  }  // could be >= infinity because infinity is sign symmetric
+	constexpr Posit abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
 
 	/// negation
-	constexpr Posit neg()  const { return Posit(DeepInit(),-v); }; 
+	/// the top pattern (NaN or unsigned infinity) is its own negative
+	constexpr Posit neg()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 
 	/// 1/x
 	CONSTEXPR14 Posit inv()  const;
@@ -901,8 +902,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
 	inline CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> abs(Posit<T,totalbits,esbits,FT,positspec> z) 
 	{
-		using PP=Posit<T,totalbits,esbits,FT,positspec>;
-		return PP(PP::DeepInit(),pcabs(z.v));
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
diff --git a/include/posit10.hpp b/include/posit10.hpp
index 42161f1..280b67c 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -97,7 +97,7 @@ public:
 	posit10 twice() const;
 	posit10 exp2() const { return posit10(DeepInit(),posit10ns::opexp2[uu()]); }
 	posit10 square() const { return posit10(DeepInit(),posit10ns::opsquare[uu()]); }
-	posit10 operator-() const { return posit10(DeepInit(),-v);  }
+	posit10 operator-() const { return posit10(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  } // the top pattern is its own negative
 
 #if 0
 //	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),a.v<0? -posit10ns::opadd[(-a).uu()*1024+(-b).uu()] : posit10ns::opadd[a.uu()*1024+b.uu()]); }
@@ -162,7 +162,7 @@ namespace std
 {
 	inline posit10 abs(posit10 z) 
 	{
-		return posit10(posit10::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit10 min(const posit10 &a, const posit10 & b)
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 9a39672..180fb3d 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -80,7 +80,7 @@ public:
 	posit12 twice() const;
 	posit12 exp2() const { return posit12(DeepInit(),posit12ns::opexp2[uu()]); }
 	posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu()]); }
-	posit12 operator-() const { return posit12(DeepInit(),-v);  }
+	posit12 operator-() const { return posit12(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  } // the top pattern is its own negative
 
 	friend bool operator<(posit12 a, posit12 b) { return a.v < b.v; }
 	friend bool operator>(posit12 a, posit12 b) { return a.v > b.v; }
@@ -141,7 +141,7 @@ namespace std
 {
 	inline posit12 abs(posit12 z) 
 	{
-		return posit12(posit12::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 
diff --git a/include/posit8.hpp b/include/posit8.hpp
index 7881222..f8a35cd 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -88,7 +88,7 @@ public:
 	posit8 twice() const;
 	posit8 exp2() const { return posit8(DeepInit(),posit8ns::opexp2[uu()]); }
 	posit8 square() const { return posit8(DeepInit(),posit8ns::opsquare[uu()]); }
-	posit8 operator-() const { return posit8(DeepInit(),-v);  }
+	posit8 operator-() const { return posit8(DeepInit(),v == PT::_POSIT_TOP ? v : -v);  } // the top pattern is its own negative
 
 	friend bool operator<(posit8 a, posit8 b) { return a.v < b.v; }
 	friend bool operator>(posit8 a, posit8 b) { return a.v > b.v; }
@@ -157,7 +157,7 @@ namespace std
 {
 	inline posit8 abs(posit8 z) 
 	{
-		return posit8(posit8::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit8 min(posit8 a, posit8 b)
diff --git a/include/positf.h b/include/positf.h
index e9462ee..620ebfd 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -85,8 +85,9 @@ public:
 
 	constexpr UnpackedT unpack() const { return PPT(typename PPT::DeepInit(),v).unpack(); }
 
-	constexpr PositF abs()  const { return PositF(DeepInit(),(v < 0 ? -v : v));  }  // could be >= infinity because infinity is sign symmetric
-	constexpr PositF neg()  const { return PositF(DeepInit(),-v); }; 
+	constexpr PositF abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
+	/// the top pattern (NaN or unsigned infinity) is its own negative
+	constexpr PositF neg()  const { return PositF(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 	PositF inv()  const { return PositF(1/(FFT)unpack());}
 
 	// SFINAE optionally: template<typename U = T, class = typename std::enable_if<withnan, U>::type>
@@ -228,8 +229,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
 	inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> abs(PositF<T,totalbits,esbits,FFT,positspec> z) 
 	{
-		using PP=PositF<T,totalbits,esbits,FFT,positspec>;
-		return PP(PP::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
-- 
2.43.0


From 53c780aa39c800305b9b35b735d0ccab66ddd60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 08/28] fix: next() stepped from maxpos into infinity or NaN
 and was stuck at the lowest posit

---
 include/posit.h  | 2 +-
 include/positf.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 29f76d0..c121cde 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -352,7 +352,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr Posit next() const { return Posit(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr Posit next() const { return Posit(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
diff --git a/include/positf.h b/include/positf.h
index 620ebfd..dd7b575 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -98,7 +98,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr PositF next() const { return PositF(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr PositF next() const { return PositF(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
-- 
2.43.0


From 71bf5224b0ae58a048bbf67a72043352c40d9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 09/28] fix: packing shifted by the holder width or more at the
 extreme regimes of 32- and 64-bit posits

---
 include/posit.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index c121cde..66ca873 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -726,7 +726,10 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
     POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) : (PT::POSIT_MASK << (PT::POSIT_HOLDER_SIZE-(reg+1))); // reg+1 bits on the left
 	POSIT_UTYPE eexp = msb_exp<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,esbits,(esbits == 00)>()(exp);
 	POSIT_UTYPE fraction =  x.fraction;
-	POSIT_STYPE p = ((fraction >> (rs+es+1)) | (eexp >> (rs+1)) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
+	// fields pushed out completely contribute nothing (shifting by the holder size is undefined)
+	POSIT_UTYPE fbits = rs+es+1 < (int)(sizeof(T)*8) ? fraction >> (rs+es+1) : 0;
+	POSIT_UTYPE ebits = rs+1 < (int)(sizeof(T)*8) ? eexp >> (rs+1) : 0;
+	POSIT_STYPE p = (fbits | ebits | (regbits>>1)) >> (sizeof(T)*8-totalbits);
 	//std::cout << "incoming " << x << std::endl;
 	//std::cout << "fraction before " << std::bitset<sizeof(FT)*8>(x.fraction) << " and " << " after " << std::bitset<sizeof(POSIT_UTYPE)*8>(fraction) << " residual exponent " << exp << " from " << eexponent <<  " and regime " << reg << std::endl;
 	//std::cout << "output sign " << std::bitset<sizeof(T)*8>(p) << " then " << std::bitset<sizeof(T)*8>(-p) << std::endl; 
-- 
2.43.0


From 0b7e5f7882e2d2cf2c2c4d8332df9e26c6c027fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 10/28] fix: fixed-point packing did not saturate in the top
 binade and shifted by the full width; unpacking negated the most negative
 value

---
 include/unpacked.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 270140d..ed182d6 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -512,7 +512,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfixed(
     using UT = typename int_least_bits<sizeof(typename Trait::value_t)*8>::unsigned_type;
     type = Regular;
     negativeSign = nx < 0;
-    UT x = pcabs(nx);
+    UT x = nx < 0 ? UT(0) - UT(nx) : UT(nx); // also for the most negative value
     const int p = Trait::totalbits - findbitleftmostC(x) - 1; // 31->0,0->31
     exponent = (p - Trait::fraction_bits);
     UT ux = p == 0 ? 0 : (x << (Trait::totalbits - p));
@@ -655,7 +655,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     break;
   }
   constexpr int intbits = Trait::totalbits - Trait::fraction_bits;
-  if (exponent >= intbits)
+  if (exponent >= intbits - 1) // one of intbits is the sign
   {
     return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()
                         : std::numeric_limits<typename Trait::value_t>::max();
@@ -680,9 +680,9 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     //
     // extrema: e.g. for totalbits=32, whatever fraction
     // - exponent==-Trait::fraction_bits ==> 1 | 0
-    // - exponent==intbits-1 ==> 0x8000000 | (F >> 1)
-    ST r = (ST(1) << (exponent + Trait::fraction_bits)) |
-           (ST)(f >> (intbits - exponent));
+    // - exponent==intbits-2 ==> 0x4000000 | (F >> 2)
+    ST r = (ST)((UT(1) << (exponent + Trait::fraction_bits)) |
+                (exponent == -Trait::fraction_bits ? UT(0) : UT(f >> (intbits - exponent))));
     return negativeSign ? -r : r;
   }
 }
-- 
2.43.0


From e4d65d5571e89bb99378223f3b445fcc4fbfb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 11/28] fix: packing to IEEE formats flushed subnormals where
 the format has them, overflowed narrow exponents and rounded negative
 underflow away from zero

---
 include/unpacked.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index ed182d6..edd7914 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -627,7 +627,7 @@ struct fraction_bit_extract<abits, AT, bbits, BT, false, msb>
 {
   static constexpr BT packdenorm(AT fraction)
   {
-    return ((BT)(msb | (fraction >> 1)) << (bbits - abits));
+    return (((BT)1) << (bbits - 1)) | ((BT)(((BT)fraction) << (bbits - abits)) >> 1);
   }
 
   static constexpr BT pack(AT fraction)
@@ -704,8 +704,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
     break;
   }
 
-  largest_type<ET, typename int_least_bits<Trait::exponent_bits>::signed_type> fexp =
-      exponent;
+  largest_type<ET, int> fexp = exponent; // room for the bias
   fexp += Trait::exponent_bias;
 
   // left aligned
@@ -721,7 +720,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   }
   else if (fexp < 1)
   {
-    if (Trait::with_denorm)
+    if (!Trait::with_denorm)
       return 0;
     else
     {
@@ -740,7 +739,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
                                        (FT_bits > Trait::fraction_bits),
                                        FT_leftmost_bit>::packdenorm(fraction);
       // use denormalization
-      ffracbits >>= -fexp;
+      ffracbits = -fexp < Trait::fraction_bits ? ffracbits >> -fexp : 0;
       //std::cout << typeid(Trait).name()<< "pack - denormalized (exp=" << exponent << ",fraction=" << (int)fraction << ") means rawexp=" << fexp << " results in fraction=" << (int)ffracbits << "\n";
     }
   }
@@ -756,11 +755,6 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   typename Trait::holder_t value =
       ffracbits | fexpbits | (negativeSign ? Trait::signbit : 0);
 
-  // don't underflow to zero?
-  if (value != 0 && (value << 1) == 0)
-  {
-    value++;
-  }
   return value;
 }
 
-- 
2.43.0


From 817f562754ff9f0cccb5fc087a12fd36d182dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:17 +0000
Subject: [PATCH 12/28] fix: unpacking IEEE formats wrapped narrow exponents
 and lost subnormals and NaN payloads below a narrow fraction type

---
 include/unpacked.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index edd7914..b2b3461 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -542,12 +542,13 @@ template <class Trait>
 CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     typename Trait::holder_t value)
 {
-  ET rawexp = bitset_getT(value, Trait::fraction_bits, Trait::exponent_bits);
+  const int rawexp = bitset_getT(value, Trait::fraction_bits, Trait::exponent_bits);
+  // the whole stored fraction, FT can be narrower
+  const typename Trait::holder_t rawfraction = bitset_getT(value, 0, Trait::fraction_bits);
+  int exp = rawexp - Trait::exponent_bias;
   type = Regular;
   negativeSign =
       value & (((typename Trait::holder_t)1) << (Trait::data_bits - 1));
-  exponent = rawexp - Trait::exponent_bias; // ((un.u >> Trait::fraction_bits)
-                                            // & Trait::exponent_mask)
 
   // std::cout  << "un.u is " << std::hex <<un.u << " for " << value <<
   // std::endl;  std::cout << std::dec << "float trait: fraction bits " <<
@@ -571,7 +572,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   // biased: -max, -max+1, ..., max, max+1 === 0, min, ..., max, infinity
   if (rawexp == ((1 << Trait::exponent_bits) - 1)) // AKA 128 for single
   {
-    if (fraction == 0)
+    if (rawfraction == 0)
     {
       type = Infinity;
     }
@@ -583,7 +584,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   else if (rawexp == 0)
   {
     // normalized
-    if (!Trait::with_denorm || fraction == 0)
+    if (!Trait::with_denorm || rawfraction == 0)
     {
       type = Zero;
       negativeSign = false; // don't care signed zero
@@ -591,12 +592,18 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     // denormalized
     else
     {
-      int k = findbitleftmostC(fraction);
-      exponent -= k;
-      fraction <<= (k + 1);
+      // zeros on the left of the stored fraction
+      int k = findbitleftmostC(rawfraction) -
+              ((int)sizeof(typename Trait::holder_t) * 8 - Trait::fraction_bits);
+      exp -= k;
+      fraction = cast_right_to_left<typename Trait::holder_t, Trait::fraction_bits,
+                                    FT, FT_bits>()(rawfraction << (k + 1));
       //std::cout << typeid(Trait).name() << "unpacking: denormalized (rawexp=0,fraction=" <<  (int)tmp << ") unpacked as  (exp=" << exponent << ",fraction=" << (int)fraction << ")"<< std::endl;
     }
   }
+  // ET can be narrower than the exponent range of Trait
+  exponent = exp < std::numeric_limits<ET>::lowest() ? std::numeric_limits<ET>::lowest()
+             : exp > std::numeric_limits<ET>::max() ? std::numeric_limits<ET>::max() : exp;
   return *this;
 }
 
-- 
2.43.0


From 027e52f5e740d7941b04fe69458b7ec0c5ea36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 13/28] fix: one half was wrong for posits narrower than their
 holder, and types without infinity claimed to have it

---
 include/posit.h  | 4 ++--
 include/positf.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 66ca873..6073de2 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -90,7 +90,7 @@ struct PositTrait
 
 		// 1/2
 		// 00 1[esbits+1] 0[N-2-esbitis-1]
-		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (totalbits-esbits-1))) << (totalbits-3-esbits);
+		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE(((POIST_ONEHELPER << (esbits+1))-1) << (totalbits-3-esbits));
 		
 		// max value below Infinity
 		// 1[holder-total] 1 0[total-1]
@@ -950,7 +950,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
diff --git a/include/positf.h b/include/positf.h
index dd7b575..eb70483 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -94,7 +94,7 @@ public:
     constexpr bool hasNaN() const { return positspec != PositSpec::WithInf; }
 	constexpr bool isNaN() const { return positspec != PositSpec::WithInf && v == PT::POSIT_NAN; } 
 	constexpr bool isnegative() const { return v < 0; } //(v &POSIT_SIGNBIT) != 0; }
-	constexpr bool isinfinity() const { return v == PT::POSIT_PINF || v == PT::POSIT_NINF; }
+	constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF); }
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
@@ -267,7 +267,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From 427e082d3b3efc39acc91e48733f49cb48647bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 14/28] fix: constants and infinity predicate of the tabulated
 posits did not match their format

---
 include/posit10.hpp | 14 +++++++-------
 include/posit12.hpp | 10 +++++-----
 include/posit8.hpp  |  6 +++---
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 280b67c..32560af 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -72,17 +72,17 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x100) == 0; }
 	bool is_nan() const { return PT::withnan && v == -512; }
-	bool is_infinity() const { return PT::withnan ? (v == -511 || v == 511) : v == -512;}
-	static posit10 max() { return posit10(DeepInit(),PT::withnan ? 510 : 511); }
+	bool is_infinity() const { return as_posit().isinfinity(); }
+	static posit10 max() { return posit10(DeepInit(),PT::POSIT_MAXPOS); }
 	static posit10 min() { return posit10(DeepInit(),1); }
 	static posit10 one() { return posit10(DeepInit(),0x100); }
 	static posit10 afterone() { return posit10(DeepInit(),0x101); }
 	static posit10 zero() { return posit10(DeepInit(),0); }
-	static posit10 two() { return posit10(DeepInit(),288); }
-	static posit10 onehalf() { return posit10(DeepInit(),0x80); }
-	static posit10 pinfinity() { return posit10(DeepInit(),PT::withnan ? 511: -512); }
-	static posit10 ninfinity() { return posit10(DeepInit(),PT::withnan ?-511: -512); }
-	static posit10 nan() { return posit10(DeepInit(),PT::withnan ?-512: 0); }
+	static posit10 two() { return posit10(DeepInit(),PT::POSIT_TWO); }
+	static posit10 onehalf() { return posit10(DeepInit(),PT::POSIT_HALF); }
+	static posit10 pinfinity() { return posit10(DeepInit(),PT::POSIT_PINF); }
+	static posit10 ninfinity() { return posit10(DeepInit(),PT::POSIT_NINF); }
+	static posit10 nan() { return posit10(DeepInit(),PT::POSIT_NAN); }
 
 
 	friend bool operator<(const posit10 &a, const posit10 & b) { return a.v < b.v; }
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 180fb3d..72a4cb3 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -65,15 +65,15 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x400) == 0; }
 	bool is_nan() const { return PT::withnan && v == -2048; }
-	bool is_infinity() const { return PT::withnan ? (v == -2047 || v == 2047) : v == -2048;}
+	bool is_infinity() const { return as_posit().isinfinity(); }
 	static posit12 max() { return posit12(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit12 min() { return posit12(DeepInit(),1); } //  ? -126 : -127
 	static posit12 one() { return posit12(DeepInit(),0x400); }
 	static posit12 afterone() { return posit12(DeepInit(),0x401); } // 0x40
-	static posit12 onehalf() { return posit12(DeepInit(),0x200); }
-	static posit12 pinfinity() { return posit12(DeepInit(),PT::withnan ? 2047: -2048); }
-	static posit12 ninfinity() { return posit12(DeepInit(),PT::withnan ?-2047: -2048); }
-	static posit12 nan() { return posit12(DeepInit(),PT::withnan ?-2048: 0); }
+	static posit12 onehalf() { return posit12(DeepInit(),PT::POSIT_HALF); }
+	static posit12 pinfinity() { return posit12(DeepInit(),PT::POSIT_PINF); }
+	static posit12 ninfinity() { return posit12(DeepInit(),PT::POSIT_NINF); }
+	static posit12 nan() { return posit12(DeepInit(),PT::POSIT_NAN); }
 
 	posit12 inv() const { return posit12(DeepInit(),posit12ns::opinv[uu()]); }
 	posit12 half() const;
diff --git a/include/posit8.hpp b/include/posit8.hpp
index f8a35cd..e4312a0 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -71,14 +71,14 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x80) == 0; }
 	bool is_nan() const { return PT::withnan && v == PT::POSIT_NAN; }
-	bool is_infinity() const { return (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	bool is_infinity() const { return as_posit().isinfinity(); }
 	static posit8 max() { return posit8(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit8 min() { return posit8(DeepInit(),1); } //  ? -126 : -127
 	static posit8 one() { return posit8(DeepInit(),PT::POSIT_ONE); } // 0x40
 	static posit8 afterone() { return posit8(DeepInit(),PT::POSIT_ONE+1); } // 0x40
-	static posit8 two() { return posit8(DeepInit(),72); }
+	static posit8 two() { return posit8(DeepInit(),PT::POSIT_TWO); }
 	static posit8 zero() { return posit8(DeepInit(),0); }
-	static posit8 onehalf() { return posit8(DeepInit(),0x20); }
+	static posit8 onehalf() { return posit8(DeepInit(),PT::POSIT_HALF); }
 	static posit8 pinfinity() { return posit8(DeepInit(),PT::POSIT_PINF); } // ? 127: -128); }
 	static posit8 ninfinity() { return posit8(DeepInit(),PT::POSIT_NINF); } //,PT::withnan ?-127: -128); }
 	static posit8 nan() { return posit8(DeepInit(),PT::POSIT_NAN); } // withnan ?-128: 0); }
-- 
2.43.0


From 9d3ec6ccfccb7cd91ac9a46c2a8f7ce1f215cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 15/28] fix: int conversion of NaN and out-of-range tabulated
 posits was undefined

---
 include/posit10.hpp | 2 +-
 include/posit12.hpp | 2 +-
 include/posit8.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 32560af..a413c31 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -125,7 +125,7 @@ public:
 	operator FPT() const { return as_posit(); }
 	operator float() const { return uint32_to_float(posit10ns::op2float[uu()]); }
 	operator double() const { return (float)*this; }
-	operator int() const { return (float)*this; }
+	operator int() const { return (int)as_posit(); }
 
 	int16_t v;
 
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 72a4cb3..d65ff7d 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -108,7 +108,7 @@ public:
 	operator FPT() const { return as_posit(); }
 	operator float() const { return uint32_to_float(posit12ns::op2float[uu()]); }
 	operator double() const  { return (double)(float)*this; }
-	operator int() const  { return (int)(float)*this; }
+	operator int() const { return (int)as_posit(); }
 
 	int16_t v;
 
diff --git a/include/posit8.hpp b/include/posit8.hpp
index e4312a0..bd92abf 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -112,7 +112,7 @@ public:
 	operator FPT() const { return as_posit(); }
 	operator float() const { return uint32_to_float(posit8ns::op2float[uu()]); }
 	operator double() const { return (float)*this; }
-	operator int() const { return (float)*this; }
+	operator int() const { return (int)as_posit(); }
 
 	UnpackedLow unpack_low() const { return as_posit().unpack_low(); }
 	UnpackedT unpack() const { return as_posit().unpack(); }
-- 
2.43.0


From a031fa1ff33ef37615ab2fae5a18834054992130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 16/28] fix: portable half to float conversion returned the bit
 pattern as a number

---
 include/float16native32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/float16native32.hpp b/include/float16native32.hpp
index a237046..72637f0 100644
--- a/include/float16native32.hpp
+++ b/include/float16native32.hpp
@@ -53,7 +53,7 @@ inline float float16nto32(float16n_t x)
 {	
 	// template <class SrcTrait, class DstTrait, class FT>
 	// constexpr DstTrait::holder_t convertfloats(SrcTrait::holder_t src)
-    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloati<single_trait>();
+    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloat<single_trait>();
 }
 
 // TODO: use optimized quicker version
-- 
2.43.0


From a23941b85ddcee8aba26e61b501278022bec7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 17/28] fix: PositF fma and compound product did not compile

---
 include/positf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index eb70483..8c6b3eb 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -114,12 +114,12 @@ public:
 
 	friend constexpr PositF fma(const PositF & a, const PositF & b, const PositF & c)
 	{
-		return PositF::pack_posit((FFT)a*(FFT)b+(FFT)c);
+		return PositF((FFT)a*(FFT)b+(FFT)c);
 	}
 
 	CONSTEXPR14 PositF & operator*= (const PositF & b)
 	{
-		*this = PositF::pack_posit((FFT)*this *(FFT)b);
+		*this = PositF((FFT)*this *(FFT)b);
 		return *this;
 	}
     friend constexpr PositF operator+(const PositF & a, const PositF & b)
-- 
2.43.0


From 466b93ac0c55f32b7983287e6d12623f299968b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 18/28] fix: anyfloat_emu could not be constructed from an
 unpacked number

---
 include/anyfloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/anyfloat.hpp b/include/anyfloat.hpp
index 1c75a5d..b4808ed 100644
--- a/include/anyfloat.hpp
+++ b/include/anyfloat.hpp
@@ -60,7 +60,7 @@ public:
 	CONSTEXPR14 explicit anyfloat_emu(double d) : v(UnpackedT(d).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(int i) : v(UnpackedT(i).template pack_xfloati<trait_t>()) {}
 	CONSTEXPR14 explicit anyfloat_emu(DeepInit, T x) : v(x) {} 
-	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_floati<trait_t>) {}
+	CONSTEXPR14 explicit anyfloat_emu(UnpackedT u) : v(u.template pack_xfloati<trait_t>()) {}
 	//CONSTEXPR14 explicit anyfloat_emu(UnpackedLow u) : v(pack_low(u).v) {} 
 
 	constexpr UnpackedT unpack() const { return UnpackedT::template make_floati<trait_t>(v); }
-- 
2.43.0


From 89742bf1a79bd592c43b0c0305ab884bda8f814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 19/28] fix: fast sigmoid and softplus of negative posits were
 negative when the holder is wider than the posit or than an int is not

---
 include/posit.h  | 4 ++--
 include/positf.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 6073de2..d3fbd3c 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -477,10 +477,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
diff --git a/include/positf.h b/include/positf.h
index 8c6b3eb..6fe1253 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -159,10 +159,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),((v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From 944daf64825042e76173048a28f503962dc21c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 20/28] fix: bit-field insertion cleared the low bits instead
 of the field, and the mask of zero bits shifted by the full width

---
 include/bithippop.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index e3606fe..5841161 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -64,7 +64,7 @@
 template <typename R>
 constexpr R bitmask(unsigned int const onecount)
 {
-	return static_cast<R>(-(onecount != 0)) & (static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
+	return onecount == 0 ? static_cast<R>(0) : static_cast<R>(static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
 }
 
 template <typename T>
@@ -152,14 +152,14 @@ inline int findbitleftmost(uint32_t input)
 template <class T, class Y, int offset, int size>
 constexpr T bitset_part(T input, Y value)
 {
-	return (input & ~bitmask<T>(size)) | ((value & bitmask<T>(size)) << offset);
+	return (input & ~(bitmask<T>(size) << offset)) | ((value & bitmask<T>(size)) << offset);
 }
 
 template <class T, class Y>
 CONSTEXPR14 T bitset_part(T input, Y value, int offset, int size)
 {
 	auto M = bitmask<T>(size);
-	return (input & ~M) | ((value & M) << offset);
+	return (input & ~(M << offset)) | ((value & M) << offset);
 }
 
 template <class T, int offset, int size>
-- 
2.43.0


From b945a32288e1a8d614e3cadc003387b00867bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 21/28] fix: analyze() shifted by the holder width without
 exponent bits or with a wider fraction type

---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index d3fbd3c..d8e343b 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -871,10 +871,10 @@ auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
         int reg = q.first;
         int rs = q.second;
         pars <<= rs; // MSB: ES FS
-        POSIT_UTYPE exp = bitset_leftmost_getT(pars,esbits);
+        POSIT_UTYPE exp = bitset_leftmost_get_const<POSIT_UTYPE,esbits>()(pars);
         pars <<= esbits; // output MSB: FS left aligned in T
         //std::cout << std::bitset<PT::POSIT_HOLDER_SIZE>(pars) << std::endl;
-        i.ifraction = sizeof(FT) >= sizeof(T) ? pars << (UT::FT_bits-PT::POSIT_HOLDER_SIZE) : pars >> (PT::POSIT_HOLDER_SIZE-UT::FT_bits); // output: FS left aligned in FT (larger or equal to T)
+        i.ifraction = cast_msb<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,FT,UT::FT_bits>()(pars); // output: FS left aligned in FT (larger or equal to T)
     	i.exponent = PT::join_reg_exp(reg,exp);
     	i.exp = exp;
     	i.rs = rs;
-- 
2.43.0


From f833d40b1d07447c1a902372116d28725f0e000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 22/28] fix: PositF comparisons treated NaN as a number, unlike
 Posit

---
 include/positf.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index 6fe1253..d472902 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -66,13 +66,13 @@ public:
 
 	PositF() {}
 
-    friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.v == u.v; }
-    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return a.v != u.v; }
-    friend constexpr bool operator < (const PositF & a, const PositF & u)  { return a.v < u.v; }
-    friend constexpr bool operator <= (const PositF & a, const PositF & u)  { return a.v <= u.v; }
+    friend constexpr bool operator == (const PositF & a, const PositF & u)  { return a.isNaN()||u.isNaN() ? false : a.v == u.v; }
+    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return !(a == u); }
+    friend constexpr bool operator < (const PositF & a, const PositF & u)  { return a.isNaN()||u.isNaN() ? false : a.v < u.v; }
+    friend constexpr bool operator <= (const PositF & a, const PositF & u)  { return a.isNaN()||u.isNaN() ? false : a.v <= u.v; }
 
-    friend constexpr bool operator > (const PositF & a, const PositF & u)  { return a.v > u.v; }
-    friend constexpr bool operator >= (const PositF & a, const PositF & u)  { return a.v >= u.v; }
+    friend constexpr bool operator > (const PositF & a, const PositF & u)  { return a.isNaN()||u.isNaN() ? false : a.v > u.v; }
+    friend constexpr bool operator >= (const PositF & a, const PositF & u)  { return a.isNaN()||u.isNaN() ? false : a.v >= u.v; }
 
     static constexpr PositF ldexp(const PositF & u, int exp); // exponent product
 
-- 
2.43.0


From 2a99edae9cb8d55c2976a88d011d5771df277d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:56 +0000
Subject: [PATCH 23/28] fix: normalising an unpacked sum whose only bit is the
 lowest shifted by the fraction width

---
 include/unpacked.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b2b3461..680d099 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -98,7 +98,9 @@ struct Unpacked
     else
     {
       int k = findbitleftmostC(fraction);
-      return Unpacked(exponent - k, fraction << (k + 1), negativeSign);
+      // only the lowest bit set: nothing is left of the fraction (a shift by
+      // FT_bits is undefined)
+      return Unpacked(exponent - k, k + 1 < FT_bits ? fraction << (k + 1) : 0, negativeSign);
     }
   }
 
-- 
2.43.0


From 1644621c7dc297b6e531878d1cd1f5eea49aa85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 24/28] fix: PositF::unpack_low did not compile (missing
 typename)

---
 include/positf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/positf.h b/include/positf.h
index d472902..d2b9864 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -36,7 +36,7 @@ public:
 	
 	CONSTEXPR14 UnpackedLow unpack_low() const 
 	{ 
-		return PPT(PPT::DeepInit(),v).unpack_low(); 
+		return PPT(typename PPT::DeepInit(),v).unpack_low(); 
 	}
 
 	static CONSTEXPR14 PositF pack_low(UnpackedLow u) 
-- 
2.43.0


From 91b508f18d3e3c284d76985de5ac930a05e9def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 25/28] fix: binary8tab constructors left the value
 uninitialised

---
 src/binary8.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index c36d481..43b581d 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -4,15 +4,19 @@
  * Emanuele Ruffaldi 2017
  */
 #include "binary8.hpp"
+#include "anyfloat.hpp"
 
-binary8tab::binary8tab(int a)
+/// same as the one used by binary8_gen for making the tables
+using binary8gen=anyfloat_emu<BINARY8_EXP,BINARY8_MAN,int8_t,uint8_t, float>;
+
+binary8tab::binary8tab(int a) : v(binary8gen(a).v)
 {
 }
 
-binary8tab::binary8tab(float a)
+binary8tab::binary8tab(float a) : v(binary8gen(a).v)
 {
 }
 
-binary8tab::binary8tab(double a) 
+binary8tab::binary8tab(double a) : v(binary8gen(a).v)
 {
 }
-- 
2.43.0


From 4f3b6f189196566618480537ef3d60ff0d8cf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 26/28] fix: binary8tab negation complemented the
 sign-magnitude pattern

---
 include/binary8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index ac042df..141efdb 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -90,7 +90,7 @@ public:
 	binary8tab twice() const;
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
-	binary8tab operator-() const { return binary8tab(DeepInit(),-v);  }
+	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
 
 	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
 	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-- 
2.43.0


From 87d5651688f9dc42264dd540eb6100f5c5a34cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 27/28] fix: binary8tab comparisons ordered the sign-magnitude
 patterns as integers

---
 include/binary8.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index 141efdb..f66384b 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -92,12 +92,12 @@ public:
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
 	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
 
-	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
-	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-	friend bool operator<=(binary8tab a, binary8tab b) { return a.v <= b.v;}
-	friend bool operator>=(binary8tab a, binary8tab b) { return a.v >= b.v; }
-	friend bool operator==(binary8tab a, binary8tab b) { return a.v == b.v; }
-	friend bool operator!=(binary8tab a, binary8tab b) { return a.v !=b.v; }
+	friend bool operator<(binary8tab a, binary8tab b) { return (float)a < (float)b; }
+	friend bool operator>(binary8tab a, binary8tab b) { return (float)a > (float)b; }
+	friend bool operator<=(binary8tab a, binary8tab b) { return (float)a <= (float)b;}
+	friend bool operator>=(binary8tab a, binary8tab b) { return (float)a >= (float)b; }
+	friend bool operator==(binary8tab a, binary8tab b) { return (float)a == (float)b; }
+	friend bool operator!=(binary8tab a, binary8tab b) { return (float)a != (float)b; }
 
 	friend binary8tab operator+(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opadd[a.uu()*256+b.uu()]); }
 	friend binary8tab operator*(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opmul[a.uu()*256+b.uu()]); }
-- 
2.43.0


From 89082c1f85b459842fd7a232e82356e919b79133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 28/28] fix: binary8tab::twice was declared and used but not
 defined

---
 src/binary8.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index 43b581d..e206f30 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -20,3 +20,8 @@ binary8tab::binary8tab(float a) : v(binary8gen(a).v)
 binary8tab::binary8tab(double a) : v(binary8gen(a).v)
 {
 }
+
+binary8tab binary8tab::twice() const
+{
+	return *this + *this;
+}
-- 
2.43.0

