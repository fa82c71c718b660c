From aebe7a4b6501ce87fd93d4c5e282c89df8d8e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 1/3] fix: apply the last step of the correct rounding search
 in left-closed directed modes

When the remaining distance equalled the tried displacement, the search
computed the number of steps and returned without applying it, and it compared
the parity with an approximation of x that was off by the remainder r.
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..c14bb7e 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2091,8 +2091,8 @@ namespace jkj {
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
 					// We already know r is at most deltai
-					deltai -= std::uint32_t(r);
 					auto const approx_x = zi - deltai;
+					deltai -= std::uint32_t(r);
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2133,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From b995b9ce41909681da0059d3f63d7a3f18e061d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 2/3] fix: successor of an all-ones significand in left-closed
 directed modes

There the right endpoint is 2^q and its significand wraps to 0; the integrality
test then took 0 as divisible by every power of 5 (an extra digit, for example
for the float 0x54ffffff rounded toward zero) or failed the assertion x != 0.
---
 grisu_exact.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index c14bb7e..2b38a7c 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,20 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					bool is_z_integer;
+					if constexpr (IntervalTypeProvider::tag ==
+						grisu_exact_rounding_modes::left_closed_directed_tag)
+					{
+						// Take care of the case when overflow occurs, that is, z = 2^(q+e) * 10^k
+						is_z_integer = fr == 0 ?
+							minus_k <= 0 && minus_k - exponent <= int(extended_precision) :
+							is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+					else {
+						is_z_integer = is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+
+					if (is_z_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From 5fd08bae53d5ce27ec49d0e53efccde47732b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 3/3] fix: signed overflow in floor_log2_pow10 inside its
 documented range

The 32-bit product overflows for |e| > 616, while the function documents
(and asserts) [-642,642].
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 2b38a7c..a8b245b 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

