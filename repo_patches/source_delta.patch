From 79dd58b31febe58a19d247a1f8dc2ff8d9bcd847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 01/23] fix: fw_uint operator|(int) rejected the all-ones
 constant of its own width

---
 include/thls/tops/fw_uint_on_masked_uint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fw_uint_on_masked_uint.hpp b/include/thls/tops/fw_uint_on_masked_uint.hpp
index a7bad98..0e97357 100644
--- a/include/thls/tops/fw_uint_on_masked_uint.hpp
+++ b/include/thls/tops/fw_uint_on_masked_uint.hpp
@@ -595,7 +595,7 @@ struct fw_uint
 
     THLS_INLINE fw_uint operator|(int b) const
     {
-        assert(b>=0 && b< MASK());
+        assert(b>=0 && b<= MASK());
         return fw_uint( bits_t(bits|b) & MASK(), detail::init_from_bits());
     }
 
-- 
2.43.0


From 51c116586c7c1bf35071c12ae523afb80f668dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 02/23] fix: single-path adders lost the guard position at
 exponent distance wF+2

The saturated shift is wF+3 but was also used for a distance of wF+2, so a
subtrahend just above half of the gap below a power of two was halved and the
difference rounded back up to the power of two.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index f0ddef3..d2b5c46 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -310,7 +310,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index a7722f7..340aaab 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -244,7 +244,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a85454c..68837c3 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -279,7 +279,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 64c1eb1..805498a 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -300,7 +300,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
 
     //vhdl<<tab<<declare("shiftedOut") << " <= '1' when (expDiff >= "<<wF+2<<") else '0';"<<endl;
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
 
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index b8e6c84..22de0ed 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -140,7 +140,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         std::cerr<<"  expDiff = "<<expDiff<<"\n";
     }
 
-    auto shiftedOut = expDiff >= (wF+2);
+    auto shiftedOut = expDiff >= (wF+3);
 
     //shiftVal=the number of positions that fracY must be shifted to the right
     fw_uint<sizeRightShift> shiftVal;
-- 
2.43.0


From e36a6a10441f64db530bf6f7a4d91193d0c58d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 03/23] fix: single-path adders aborted for narrow exponents

With wE==sizeRightShift the alignment shift was not saturated and could reach
the width of the shifted value; with wE<sizeRightShift the shift amount was one
bit too wide for the checked cast, so every call failed an assertion.
---
 include/thls/tops/fp_flopoco_add_single_v1.hpp | 4 ++--
 include/thls/tops/fp_flopoco_add_single_v2.hpp | 4 ++--
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 4 ++--
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 4 ++--
 include/thls/tops/fp_flopoco_add_single_v5.hpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v1.hpp b/include/thls/tops/fp_flopoco_add_single_v1.hpp
index d2b5c46..c0cf6fd 100644
--- a/include/thls/tops/fp_flopoco_add_single_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v1.hpp
@@ -327,11 +327,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else if (wE==sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v2.hpp b/include/thls/tops/fp_flopoco_add_single_v2.hpp
index 340aaab..e19aaa1 100644
--- a/include/thls/tops/fp_flopoco_add_single_v2.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v2.hpp
@@ -254,10 +254,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index 68837c3..a252b52 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -289,10 +289,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 805498a..862b7ff 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -317,11 +317,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     }
     else if (wE==sizeRightShift) {
         //vhdl<<tab<<declare("shiftVal", sizeRightShift) << " <= expDiff" << range(sizeRightShift-1,0) << ";" << endl ;
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
         //vhdl<<tab<<declare("shiftVal",sizeRightShift) << " <= CONV_STD_LOGIC_VECTOR(0,"<<sizeRightShift-wE <<") & expDiff;" <<	endl;
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
diff --git a/include/thls/tops/fp_flopoco_add_single_v5.hpp b/include/thls/tops/fp_flopoco_add_single_v5.hpp
index 22de0ed..5846614 100644
--- a/include/thls/tops/fp_flopoco_add_single_v5.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v5.hpp
@@ -149,10 +149,10 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single_v5(const fp_flopoco<wEX,wFX> &xPre, c
         shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits< sizeRightShift-1, 0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else if (wE==sizeRightShift) {
-        shiftVal = checked_cast<sizeRightShift>( get_bits<sizeRightShift-1,0>(expDiff) );
+        shiftVal = checked_cast<sizeRightShift>(  select(shiftedOut==0, get_bits<sizeRightShift-1,0>(expDiff), fw_uint<sizeRightShift>(wF+3)) );
     }
     else 	{ //  wE< sizeRightShift
-        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), expDiff) );
+        shiftVal = checked_cast<sizeRightShift>( concat( zg<sizeRightShift-wE>(), get_bits<wE-1,0>(expDiff)) );
 
     }
     if(DEBUG){
-- 
2.43.0


From 37ff2d313cb0b1be7d2bcdd97c58ed6a33220c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 04/23] fix: add_single v4 rounded with the inverted tie
 condition

---
 include/thls/tops/fp_flopoco_add_single_v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v4.hpp b/include/thls/tops/fp_flopoco_add_single_v4.hpp
index 862b7ff..548b97d 100644
--- a/include/thls/tops/fp_flopoco_add_single_v4.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v4.hpp
@@ -485,7 +485,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_single(const fp_flopoco<wEX,wFX> &xPre, cons
     /*auto addToRoundBit = select(
         lsb==0 && grd==1 && rnd==0 && stk==0, zg<1>(),
         og<1>());*/
-    auto addToRoundBit = concat(lsb,grd,rnd,stk) ==cg<4>(0b0100);
+    auto addToRoundBit = concat(lsb,grd,rnd,stk) !=cg<4>(0b0100);
     //round
 
     //IntAdder *ra = new IntAdder(target, wE+2+wF+1, inDelayMap("X", getCriticalPath() ) );
-- 
2.43.0


From 2b109263f15dff1dcad6d51d8f338388bf902a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 05/23] fix: add_single v3 called __builtin_clz on zero bytes

---
 include/thls/tops/fp_flopoco_add_single_v3.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_add_single_v3.hpp b/include/thls/tops/fp_flopoco_add_single_v3.hpp
index a252b52..fae8f63 100644
--- a/include/thls/tops/fp_flopoco_add_single_v3.hpp
+++ b/include/thls/tops/fp_flopoco_add_single_v3.hpp
@@ -111,7 +111,8 @@ THLS_INLINE void LZOCShifter(fw_uint<WD> &out, fw_uint<WC> &count, const fw_uint
 
 THLS_INLINE fw_uint<3> clz(const fw_uint<8> &x)
 {
-    return fw_uint<3>(0x7&__builtin_clz(0xFF & x.to_int()));
+    int v=0xFF & x.to_int();
+    return fw_uint<3>(v==0 ? 0 : 0x7&__builtin_clz(v)); // __builtin_clz(0) is undefined
 }
 
 THLS_INLINE fw_uint<1> non_zero(const fw_uint<8> &x)
-- 
2.43.0


From 95da5568806ad2e4a727dfd55ff5cb66a47ac5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 06/23] fix: exact-width products below the exponent range
 became NaN instead of zero

---
 include/thls/tops/fp_flopoco_mul_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_mul_v1.hpp b/include/thls/tops/fp_flopoco_mul_v1.hpp
index fbb3c99..90c5282 100644
--- a/include/thls/tops/fp_flopoco_mul_v1.hpp
+++ b/include/thls/tops/fp_flopoco_mul_v1.hpp
@@ -107,7 +107,7 @@ THLS_INLINE fp_flopoco<wER,wFR> mul_v1(const fp_flopoco<wEX,wFX> &x, const fp_fl
         fw_uint<2> excPostNorm = select(
             expPostNormB==0b00, fw_uint<2>(0b01),
             expPostNormB==0b01, fw_uint<2>(0b10),
-            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b11),
+            (expPostNormB==0b11) || (expPostNormB==0b10) , fw_uint<2>(0b00),
             fw_uint<2>(0b11)// Impossible last case?
         ); 
 
-- 
2.43.0


From ea0aa0694cd3a66e1519e3121bce550daf38dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 07/23] fix: inv_v1 wrote the exception bits of one as an octal
 literal and aborted on every call

---
 include/thls/tops/fp_flopoco_inv_v1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_v1.hpp b/include/thls/tops/fp_flopoco_inv_v1.hpp
index bf2285f..5e05e49 100644
--- a/include/thls/tops/fp_flopoco_inv_v1.hpp
+++ b/include/thls/tops/fp_flopoco_inv_v1.hpp
@@ -34,7 +34,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_v1(const fp_flopoco<wEY,wFY> &y, int DEBUG)
     static const int wE=wEY;
     static const int wF=wFY;
 
-    auto X=concat(cg<4>(0100),og<wE-1>(),zg<wF>());
+    auto X=concat(cg<4>(0b0100),og<wE-1>(),zg<wF>());
     auto Y=y.bits;
 
 
-- 
2.43.0


From d9e2c27b33442d9a15937f01c587b4d3e52197f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 08/23] fix: faithful reciprocals of values just below the
 largest exponent wrapped to huge numbers instead of underflowing

---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 97b3b17..1c4fc61 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -380,7 +380,10 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         flags=fw_uint<2>(0b10);
         break;
     case 1:
-        if((y.get_exp_bits()==og<wEY>()).to_bool()){
+        // Anything below the smallest exponent underflows, including the case where only the
+        // normalisation of the fraction takes it there
+        if((y.get_exp_bits()==og<wEY>()).to_bool()
+            || ( (y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !take_msb(frac_out_fix.bits).to_bool() ) ){
             flags=fw_uint<2>(0b00);
         }else {
             flags = fw_uint<2>(0b01);
@@ -419,7 +422,10 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
                 flags=fw_uint<2>(0b10);
                 break;
             case 1:
-                if((y.get_exp_bits()==og<wEY>()).to_bool()){
+                // Anything below the smallest exponent underflows, including the case where only the
+                // normalisation of the fraction takes it there
+                if((y.get_exp_bits()==og<wEY>()).to_bool()
+                    || ( (y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !(y.get_frac_bits()==zg<wFY>()).to_bool() ) ){
                     flags=fw_uint<2>(0b00);
                 }else {
                     flags = fw_uint<2>(0b01);
-- 
2.43.0


From 3745c2039cb82ebb644161b1679cd14590d58527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 09/23] fix: converting zeros, infinities and NaNs to a shorter
 fraction could turn them into infinity

---
 include/thls/tops/fp_convert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_convert.hpp b/include/thls/tops/fp_convert.hpp
index 5c3da9a..6a1295e 100644
--- a/include/thls/tops/fp_convert.hpp
+++ b/include/thls/tops/fp_convert.hpp
@@ -153,7 +153,7 @@ void convert(fp_flopoco<ER,FR> &dst, const fp_flopoco<EX,FX> &src)
         const int ADJ = (1<<(ER-1)) - (1<<(EX-1));
         rExp = checked_cast<ER>(zpad_hi<ER-EX>(xExp)) + fw_uint<ER>(ADJ) + zpad_hi<ER-1>(fracWrappedUp);
     }else if(ER == EX){
-        if( (fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
+        if( (src.is_normal() & fracWrappedUp & (checked_cast<ER>(xExp)==og<ER>())).to_bool() ){
             rFlags=fw_uint<2>(0b10); // infinity
         }
         rExp = checked_cast<ER>( xExp ) + zpad_hi<ER-1>(fracWrappedUp);
-- 
2.43.0


From 6fcba7fb7732cb5d2764652a888d743d0caf00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 10/23] fix: promoting an IEEE number to the native format did
 not compile or returned a dangling reference

---
 include/thls/tops/fp_promote.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 7cb7298..4f5d0a3 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -77,7 +77,7 @@ namespace detail
         
         static fp_flopoco<DstE,DstF> to_flopoco(const fp_ieee<SrcE,SrcF> &src)
         {
-            return fp_ieee<DstE,DstF>(
+            return fp_flopoco<DstE,DstF>(
                 concat(
                     src.get_flags(),
                     src.get_sign(),
@@ -126,7 +126,7 @@ namespace detail
         static const fp_ieee<E,F> &to_ieee(const fp_ieee<E,F> &src)
         { return src; }
         
-        static const fp_flopoco<E,F> &to_flopoco(const fp_ieee<E,F> &src)
+        static fp_flopoco<E,F> to_flopoco(const fp_ieee<E,F> &src)
         { 
             return fp_flopoco<E,F>(
                 concat(
-- 
2.43.0


From eff92ca261e0379ef6b3b1eb05849c07b2a5309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 11/23] fix: promoting IEEE zeros, infinities and NaNs to a
 wider exponent turned them into normal numbers

---
 include/thls/tops/fp_promote.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_promote.hpp b/include/thls/tops/fp_promote.hpp
index 4f5d0a3..37c039a 100644
--- a/include/thls/tops/fp_promote.hpp
+++ b/include/thls/tops/fp_promote.hpp
@@ -69,7 +69,14 @@ namespace detail
             return fp_ieee<DstE,DstF>(
                 concat(
                     src.get_sign(),
-                    promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits()),
+                    select(
+                        src.get_exp_bits()==zg<SrcE>(), // zero
+                            zg<DstE>(),
+                        src.get_exp_bits()==og<SrcE>(), // nan or infinity
+                            og<DstE>(),
+                        // default: normal
+                            promote_exp_impl<DstE,SrcE>::go(src.get_exp_bits())
+                    ),
                     promote_frac_impl<DstF,SrcF>::go(src.get_frac_bits())
                 )
             );
-- 
2.43.0


From 278cd399654dc6653ea2e85b398996de7c3ae07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 12/23] fix: comparisons distinguished infinities of the same
 sign by their payload bits

---
 include/thls/tops/fp_flopoco_ordering.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_ordering.hpp b/include/thls/tops/fp_flopoco_ordering.hpp
index a8cf000..ac6bf7e 100644
--- a/include/thls/tops/fp_flopoco_ordering.hpp
+++ b/include/thls/tops/fp_flopoco_ordering.hpp
@@ -28,6 +28,8 @@ THLS_INLINE fw_uint<1> equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<wEB,
             zg<1>(), // Flags must be the same 
         na.is_zero(),
             og<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()==nb.get_sign(), // Infinities differ only in sign
         // else
             na.get_sign()==nb.get_sign() && na.get_exp_frac_bits()==nb.get_exp_frac_bits()
     );
@@ -50,6 +52,8 @@ THLS_INLINE fw_uint<1> not_equal(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             og<1>(), // Flags must be the same
         na.is_zero(),
             zg<1>(), // Any two zeros are the same
+        na.is_inf(),
+            na.get_sign()!=nb.get_sign(), // Infinities differ only in sign
         // else
             na.get_sign() != nb.get_sign() || na.get_exp_frac_bits()!=nb.get_exp_frac_bits()
     );
@@ -78,7 +82,9 @@ THLS_INLINE fw_uint<1> less_than(const fp_flopoco<wEA,wFA> &a, const fp_flopoco<
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_negative(), // If different signs, first must be negative for less than
-            // Pre: not nan, not _both_ zero, same sign
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(),  // Infinities of the same sign are equal
+            // Pre: not nan, not _both_ zero or infinite, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()>nb.get_flags_exp_frac_bits(),
             // na.is_positive()
@@ -107,7 +113,9 @@ THLS_INLINE fw_uint<1> less_than_equal(const fp_flopoco<wEA,wFA> &a, const fp_fl
         // Pre: neither is nan, both are not zero
         na.is_negative() ^ nb.is_negative(),
             na.is_negative(), // If different signs, first must be negative for less than equal
-        // Pre: not nan, not _both_ zero, same sign
+        (na.is_inf() & nb.is_inf()),
+            og<1>(),  // Infinities of the same sign are equal
+        // Pre: not nan, not _both_ zero or infinite, same sign
         na.is_negative(),
             na.get_flags_exp_frac_bits()>=nb.get_flags_exp_frac_bits(),
         // na.is_positive()
@@ -133,7 +141,9 @@ THLS_INLINE fw_uint<1> greater_than(const fp_flopoco<wEA,wFA> &a, const fp_flopo
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be negative for greater than
-            // Pre: not nan, not _both_ zero, same sign
+            (na.is_inf() & nb.is_inf()),
+                zg<1>(),  // Infinities of the same sign are equal
+            // Pre: not nan, not _both_ zero or infinite, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<nb.get_flags_exp_frac_bits(),
             // na.is_positive()
@@ -159,7 +169,9 @@ THLS_INLINE fw_uint<1> greater_than_equal(const fp_flopoco<wEA,wFA> &a, const fp
             // Pre: neither is nan, both are not zero
             na.is_negative() ^ nb.is_negative(),
                 na.is_positive(), // If different signs, first must be positive for greater than equal
-            // Pre: not nan, not _both_ zero, same sign
+            (na.is_inf() & nb.is_inf()),
+                og<1>(),  // Infinities of the same sign are equal
+            // Pre: not nan, not _both_ zero or infinite, same sign
             na.is_negative(),
                 na.get_flags_exp_frac_bits()<=nb.get_flags_exp_frac_bits(),
             // na.is_positive()
-- 
2.43.0


From bd41ad80f0ab9240a29caff355ca1d70e1a9bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 13/23] fix: nextdown stepped a whole binade when crossing a
 power of two

---
 include/thls/tops/fp_flopoco.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 8144f63..2ebeadc 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -451,7 +451,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==zg<FracBits>(),
                 select(x.get_exp_bits()==zg<ExpBits>(),
                     traits::pos_zero(),
-                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,zg<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits()-1,og<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b010),x.get_exp_bits(),x.get_frac_bits()-1))
             ),
@@ -463,7 +463,7 @@ THLS_INLINE fp_flopoco<ExpBits,FracBits> nextdown(const fp_flopoco<ExpBits,FracB
             select(x.get_frac_bits()==og<FracBits>(),
                 select(x.get_exp_bits()==og<ExpBits>(),
                     traits::neg_infinity(),
-                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,og<FracBits>()))
+                    fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits()+1,zg<FracBits>()))
                 ),
                 fp_t(concat(fw_uint<3>(0b011),x.get_exp_bits(),x.get_frac_bits()+1))
             ),
-- 
2.43.0


From ca85c8061f6dc4c993e96c3072610819df4d43fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 14/23] fix: numeric_limits epsilon and round_error of native
 numbers aborted, and epsilon was half the gap above one

---
 include/thls/tops/fp_flopoco.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 2ebeadc..32c096f 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -327,15 +327,12 @@ namespace std
         }
 
         static THLS_CONSTEXPR T epsilon()
-        { // == 2^-(FracBits+1)
-          // expnt == ExpBits -FracBits-1
-            assert(0); // not tested
-            return T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias - FracBits-1) ,thls::zg<FracBits>()));
+        { // == 2^-FracBits, the gap between one and the next number above it
+            return T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias - FracBits ) ,thls::zg<FracBits>()));
         }
 
         static THLS_CONSTEXPR T round_error()
         { // == 0.5
-            assert(0); // not tested
             return T(concat(thls::fw_uint<3>(0b010),thls::fw_uint<ExpBits>( bias - 1 ) ,thls::zg<FracBits>()));
         }
 
-- 
2.43.0


From d537fbb0917a31418048a0e199f33162e61517f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 15/23] fix: numeric_limits of IEEE numbers: epsilon and
 round_error aborted, signalling_NaN was infinity

---
 include/thls/tops/fp_ieee.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/thls/tops/fp_ieee.hpp b/include/thls/tops/fp_ieee.hpp
index 59d7879..97d1987 100644
--- a/include/thls/tops/fp_ieee.hpp
+++ b/include/thls/tops/fp_ieee.hpp
@@ -214,15 +214,12 @@ namespace std
         }
 
         static THLS_CONSTEXPR T epsilon()
-        { // == 2^-(FracBits+1)
-          // expnt == ExpBits -FracBits-1
-            assert(0); // not tested
-            return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias - FracBits-1) ,thls::zg<FracBits>()));
+        { // == 2^-FracBits, the gap between one and the next number above it
+            return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias - FracBits ) ,thls::zg<FracBits>()));
         }
 
         static THLS_CONSTEXPR T round_error()
         { // == 0.5
-            assert(0); // not tested
             return T(concat(thls::zg<1>(),thls::fw_uint<ExpBits>( bias - 1 ) ,thls::zg<FracBits>()));
         }
 
@@ -245,7 +242,7 @@ namespace std
         static THLS_CONSTEXPR T signalling_NaN()
         {
             // This just returns a quiet nan (MSB of fraction is one)
-            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::zg<FracBits>()));
+            return T(concat(thls::zg<1>(),thls::og<ExpBits>() ,thls::og<FracBits>()));
         }
 
         static THLS_CONSTEXPR T denorm_min()
-- 
2.43.0


From 5fc2a8a6fa61d0d6458cf84a309099cb0c322f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 16/23] fix: building a native number from a double lost
 infinities, the sign of zero and subnormals

---
 include/thls/tops/fp_flopoco.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 32c096f..24a88ec 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -50,19 +50,19 @@ struct fp_flopoco
     // Warning: this is lossy
     explicit fp_flopoco(double x)
     {
-        fw_uint<1> sign(0);
-        if(x<0){
-            sign=fw_uint<1>(1);
-            x=-x;
-        }
+        fw_uint<1> sign(std::signbit(x) ? 1 : 0); // Also gets the sign of zero
+        x=std::fabs(x);
         fw_uint<2> flags(0);
         fw_uint<ExpBits> exp(0);
         fw_uint<FracBits> frac(0);
         switch(std::fpclassify(x)){
-        case FP_INFINITE:  ;
+        case FP_INFINITE:
+            flags=fw_uint<2>(0b10);
+            break;
         case FP_NAN:
             flags=fw_uint<2>(0b11);
             break;
+        case FP_SUBNORMAL: // May be in range if the exponent is wide
         case FP_NORMAL:
             {
                 //std::cerr<<"Normal\n";
@@ -87,7 +87,6 @@ struct fp_flopoco
             break;
         default:
             assert(0);
-        case FP_SUBNORMAL:
         case FP_ZERO:
             break;
         }
-- 
2.43.0


From 0d56cc25a2675821f8ee576b1ef009300b15b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 17/23] fix: to_double negated an unsigned fraction and
 returned huge positive numbers for negative ones

---
 include/thls/tops/fp_flopoco.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 24a88ec..1e96b81 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -997,10 +997,8 @@ double fp_flopoco<ExpBits,FracBits>::to_double() const
         return is_negative().to_bool() ? neg_zero : pos_zero;
     }else if(is_normal().to_bool()){
         uint64_t frac=concat(og<1>(), get_frac_bits()).to_uint64();
-        if(is_negative().to_bool()){
-            frac=-frac;
-        }
-        return ::ldexp(frac, get_exp_bits().to_int() - bias - FracBits );
+        double mag=::ldexp((double)frac, get_exp_bits().to_int() - bias - FracBits );
+        return is_negative().to_bool() ? -mag : mag;
     }else if(is_inf().to_bool()){
         return is_negative().to_bool() ? neg_inf : pos_inf;
     }else{
-- 
2.43.0


From f5462277151bc56a59969e420883d1a3bc549ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 18/23] fix: building a native number from a double truncated
 fractions to 32 bits

---
 include/thls/tops/fp_flopoco.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco.hpp b/include/thls/tops/fp_flopoco.hpp
index 1e96b81..f4c0481 100644
--- a/include/thls/tops/fp_flopoco.hpp
+++ b/include/thls/tops/fp_flopoco.hpp
@@ -77,8 +77,9 @@ struct fp_flopoco
                     flags=fw_uint<2>(0b10);
                 }else{
                     assert(1.0<=f && f<2.0);
-                    uint64_t fx=ldexp(f-1.0, FracBits);
-                    frac=fw_uint<FracBits>(fx);
+                    const int w=FracBits<52 ? FracBits : 52; // There are no more bits in a double
+                    uint64_t fx=ldexp(f-1.0, w);
+                    frac=fw_uint<FracBits>::from_uint64(fx)<<(FracBits-w);
                     exp=fw_uint<ExpBits>(e+bias);
                     //std::cerr<<"  x="<<x<<", f="<<f<<", e="<<e<<", fx="<<fx<<", exp="<<exp<<", frac="<<frac<<"\n";
 
-- 
2.43.0


From 5a935b7c9646302889f834943f66b15923bbe0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 19/23] fix: dot4_pos_rndd keeps enough low bits to round down
 correctly

---
 include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
index 082d7c3..8e9925e 100644
--- a/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
+++ b/include/thls/tops/fp_flopoco_dot4_pos_rndd.hpp
@@ -138,6 +138,17 @@ fw_uint<W> safe_rshift(const fw_uint<W> &val, const fw_uint<WS> &places)
      ??.ffffffff
 
      So we need to keep 3*WAB-1 bits (still huge...)
+
+     That only considers the bits of one product at a time though. If
+     two of the minor products are both cut off, the parts that get dropped
+     can sum to a whole unit, which then carries through the run of ones above
+     it. With 3*WAB+3 fractional bits that can't happen:
+     - any product that loses bits is below 2^(-2*WAB-2)
+     - if two lose bits then their sum is less than 2^(-2*WAB-1), so to carry
+       out of it the third must have ones down to there, and have an msb below
+       -WAB. So the sum of all three is below 2^(-WAB), and can't carry into
+       the major product.
+     - the same holds if all three lose bits.
 */
 template<int WE, int WF, bool log=false>
 fp_flopoco<WE,WF> dot4_pos_rndd(
@@ -227,7 +238,7 @@ fp_flopoco<WE,WF> dot4_pos_rndd(
     auto shift3=x0_exp-x3_exp;
 
     const int WAB=2*WF;
-    const int PAD_LOW=2*WAB-1;
+    const int PAD_LOW=2*WAB+3;
 
     auto x0_frac_full=concat(zg<2>(), x0_frac, zg<PAD_LOW>());
     auto x1_frac_full=concat(zg<2>(), x1_frac, zg<PAD_LOW>());
-- 
2.43.0


From 7f146e156369a44b0ab027993ebb353b079652af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 20/23] fix: inv_table_newton names the result range of its
 direct table

Results of at most six fraction bits did not compile.
---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 1c4fc61..6fcb770 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -318,7 +318,7 @@ namespace thls
     {
         template<int LSBR,int LSBY>
         static fw_fix<0,LSBR> go(const fw_fix<0,LSBY> &x)
-        { return inv_frac_direct_table<LSBR>(x); }
+        { return inv_frac_direct_table<0,LSBR>(x); }
     };
 
     template<>
-- 
2.43.0


From 3cd6dfd36c8c96de93d8fbfd95476f96ef063bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 21/23] fix: inv_direct adjusts the exponent when the rounded
 reciprocal is one

With fewer result bits than input bits an input just above a power of two
also rounds to one; the result was half the reciprocal.
---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 6fcb770..9b5a91b 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -413,7 +413,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
         auto frac_out_fix=inv_frac_direct_table<0,-wFR-1,0,-wFY>(frac_in_fix);
         fw_uint<wFR> frac=take_lsbs<wFR>(frac_out_fix.bits);
         fw_uint<wER> exp=(og<wEY>() - fw_uint<wEY>(2)) - y.get_exp_bits();
-        if((y.get_frac_bits()==zg<wFY>()).to_bool()){
+        if(take_msb(frac_out_fix.bits).to_bool()){
             exp=exp+fw_uint<wER>(1);
         }
 
@@ -425,7 +425,7 @@ THLS_INLINE fp_flopoco<wER,wFR> inv_table_newton(const fp_flopoco<wEY,wFY> &y, i
                 // Anything below the smallest exponent underflows, including the case where only the
                 // normalisation of the fraction takes it there
                 if((y.get_exp_bits()==og<wEY>()).to_bool()
-                    || ( (y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !(y.get_frac_bits()==zg<wFY>()).to_bool() ) ){
+                    || ( (y.get_exp_bits()==og<wEY>()-fw_uint<wEY>(1)).to_bool() && !take_msb(frac_out_fix.bits).to_bool() ) ){
                     flags=fw_uint<2>(0b00);
                 }else {
                     flags = fw_uint<2>(0b01);
-- 
2.43.0


From 52907e0212055dfe0c2c87cfed2e4fb0417c8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:48 +0000
Subject: [PATCH 22/23] fix: trunc_to_lsb extends a value that is coarser than
 the result

inv_table_newton with many more result bits than input bits aborted.
---
 include/thls/tops/fp_flopoco_inv_nr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thls/tops/fp_flopoco_inv_nr.hpp b/include/thls/tops/fp_flopoco_inv_nr.hpp
index 9b5a91b..f886cbc 100644
--- a/include/thls/tops/fp_flopoco_inv_nr.hpp
+++ b/include/thls/tops/fp_flopoco_inv_nr.hpp
@@ -128,7 +128,8 @@ namespace thls
     THLS_INLINE_STRONG fw_fix<MSB,LSBR> trunc_to_lsb(const fw_fix<MSB,LSB> &x)
     {
         const int WR=fw_fix<MSB,LSBR>::W;
-        return fw_fix<MSB,LSBR>(take_msbs<WR>(x.bits));
+        const int PAD=LSBR<LSB ? LSB-LSBR : 0; // The result may be finer than the input
+        return fw_fix<MSB,LSBR>(take_msbs<WR>(zpad_lo<PAD>(x.bits)));
     }
 
     /*
-- 
2.43.0


From 6b6957b2809e0aa8ff46cf6476745de01c864f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:56 +0000
Subject: [PATCH 23/23] fix: fma rounded twice; the wide sum is now rounded to
 odd before the only rounding

---
 include/thls/tops/fp_flopoco_add_dual_v1.hpp | 14 +++++++++++++-
 include/thls/tops/fp_flopoco_fma.hpp         | 13 ++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/thls/tops/fp_flopoco_add_dual_v1.hpp b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
index 571d523..ce54df1 100644
--- a/include/thls/tops/fp_flopoco_add_dual_v1.hpp
+++ b/include/thls/tops/fp_flopoco_add_dual_v1.hpp
@@ -9,7 +9,9 @@
 namespace thls
 {
 
-template<int wER,int wFR, int wEX,int wFX,int wEY,int wFY>
+// ROUND_TO_ODD: truncate, and set the lowest fraction bit if anything was lost. A result with at least two
+// bits to spare can then be rounded again without suffering from double rounding.
+template<int wER,int wFR, int wEX,int wFX,int wEY,int wFY,bool ROUND_TO_ODD=false>
 THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const fp_flopoco<wEY,wFY> &yPre, int DEBUG=0)
 {
     // Allow wFX!=wFY and wER!=wFR, but require that wER=max(wEX,wEY) and wFR=max(wFX,wFY)
@@ -183,6 +185,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
 
     fw_uint<wE+1+wF+1> resultBeforeRoundClose;
     fw_uint<1> roundClose;
+    fw_uint<1> inexactClose;
     fw_uint<1> resultCloseIsZero;
     fw_uint<1> resSign;
     
@@ -303,6 +306,7 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
         resultBeforeRoundClose = concat( take_lsbs<wE+2>(exponentResultClose) , get_bits<wF,1>(shiftedFrac) );
         //vhdl<<tab<< declare("roundClose") << " <= roundClose0;"<<endl;
         roundClose = roundClose0;
+        inexactClose = get_bit<0>(shiftedFrac);
         //vhdl<<tab<< declare("resultCloseIsZero") << " <= resultCloseIsZero0;"<<endl;
         resultCloseIsZero = resultCloseIsZero0;
     }
@@ -608,6 +612,11 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
 
     //vhdl<<tab<< declare("zeroFromClose") << " <= syncClose and resultCloseIsZero;" <<endl;
     auto zeroFromClose = syncClose & resultCloseIsZero;
+
+    auto inexact = select(syncClose,
+        inexactClose,
+        fracResultRoundBit | fracResultStickyBit
+    );
     if(DEBUG_far){
         #ifndef THLS_SYNTHESIS
         std::cerr<<"  zeroFromClose = "<<zeroFromClose<<"\n";
@@ -631,6 +640,9 @@ THLS_INLINE fp_flopoco<wER,wFR> add_dual(const fp_flopoco<wEX,wFX> &xPre, const
     vhdl << instance(finalRoundAdd, "finalRoundAdder");*/
     
     fw_uint<2+wE+wF> resultRounded = add_cin(resultBeforeRound, round);
+    if(ROUND_TO_ODD){
+        resultRounded = resultBeforeRound | zpad_hi<1+wE+wF>(inexact);
+    }
     if(DEBUG_far){
         #ifndef THLS_SYNTHESIS
         std::cerr<<"  resultRounded = "<<resultRounded<<"\n";
diff --git a/include/thls/tops/fp_flopoco_fma.hpp b/include/thls/tops/fp_flopoco_fma.hpp
index 5f66d47..df22072 100644
--- a/include/thls/tops/fp_flopoco_fma.hpp
+++ b/include/thls/tops/fp_flopoco_fma.hpp
@@ -10,11 +10,6 @@
 namespace thls
 {
 
-/*
-BUG: This current implement has double-rounding, and doesn't quite
-guarantee the fma contract - it has more precision, but can round
-to the wrong result.
-*/
 template<int wER,int wFR, int wEX,int wFX,int wEY,int wFY,int wEZ,int wFZ>
 THLS_INLINE fp_flopoco<wER,wFR> fma(const fp_flopoco<wEX,wFX> &x, const fp_flopoco<wEY,wFY> &y, const fp_flopoco<wEZ,wFZ> &z, int DEBUG=0)
 {
@@ -27,7 +22,8 @@ THLS_INLINE fp_flopoco<wER,wFR> fma(const fp_flopoco<wEX,wFX> &x, const fp_flopo
     convert(yy,y);
 
 
-    const int wFXY=wFX+wFY+2;
+    // The product is exact, and the sum is at least two bits wider than the result
+    const int wFXY=thls_ctMax(wFX+wFY+2,wFR+2);
     auto xy=mul<wEXY,wFXY>(xx,yy, DEBUG);
 
     const int wEXYZ=wEXY > wEZ ? wEXY : (wEZ+1);
@@ -39,9 +35,8 @@ THLS_INLINE fp_flopoco<wER,wFR> fma(const fp_flopoco<wEX,wFX> &x, const fp_flopo
     convert(xyxy, xy);
     convert(zz, z);
 
-    // TODO : This is a travesty.
-    // ERROR : Double-rounding!!!!
-    auto xyz=add_fast<wEXYZ,wFXYZ>(xyxy, zz, DEBUG);
+    // Rounding the sum to odd makes the final conversion the only rounding
+    auto xyz=add_dual<wEXYZ,wFXYZ,wEXYZ,wFXYZ,wEXYZ,wFXYZ,true>(xyxy, zz, DEBUG);
 
     fp_flopoco<wER,wFR> res;
     convert(res, xyz);
-- 
2.43.0

