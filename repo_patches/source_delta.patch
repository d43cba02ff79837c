From 1d29cf2c0a9c232d06525b1042d6eac0ae9263b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/14] fix: compare y against y for the sign flip in
 HalfSpace2SidelessCompare

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From b0d6cd0dd65799a9125956461734fcf74a68c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/14] fix: use a positive scale in HalfSpace3Compare when the
 normal components cancel out

---
 include/walnut/half_space3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..7f3a909 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,9 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    // The scale of a plane must be positive for every non-zero normal.
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From faaff3756228b696227b012157be9d2f07f6f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 03/14] fix: account for negative denominators in
 HomoPoint2::LexicographicallyLt

---
 include/walnut/homo_point2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..40421d3 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,10 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    // Flip the sides of the comparison if exactly one denominator is negative.
+    int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From ac1708f8c3d4efb05e67c48a46bd55baf573034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 04/14] fix: negate the twist instead of complementing its sign
 word in HomoPoint3::Get2DTwistDir

---
 src/walnut/homo_point3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..c509d98 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,12 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  BigInt twist = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  if (p1.dist_denom().HasDifferentSign(p3.dist_denom())) {
+    twist.Negate();
+  }
+  return twist.GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From 304653c4296fb42c18e54dd042d1b5550854d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/14] fix: read 0 past the trimmed end of a BigUInt in
 GetAtBitOffset

---
 include/walnut/big_uint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..60d7012 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -265,6 +265,8 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    // The words past the end are all 0.
+    if (word_index >= words_.size()) return BigUIntWord{0};
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From be638bc576e47eabadb9810daed3a19c847be008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 06/14] fix: grow and trim the words correctly in BigInt
 increment and decrement

---
 include/walnut/big_int.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..65c4ca3 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -317,13 +317,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -390,6 +390,7 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
-- 
2.43.0


From 34f9317c4ffa63fec920aef2dfd67be03b88c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 07/14] fix: support adding and subtracting a BigInt to itself
 in place

---
 include/walnut/big_int.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 65c4ca3..c951dc2 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -275,14 +275,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as *this, so get its size before resizing.
+    size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -347,14 +349,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as *this, so get its size before resizing.
+    size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From cf93fc3a4eaaac5adeab7e6d83d0755821f7a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 08/14] fix: avoid overflowing the word when dividing the
 minimum word by -1

---
 include/walnut/big_int.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index c951dc2..b56a5af 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -658,7 +658,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivide(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -682,7 +682,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivide(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -692,7 +692,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (IsWordDivide(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -842,6 +842,15 @@ class BigInt {
     return true;
   }
 
+  // Returns true if `this` can be divided by `other` using a single word
+  // division.
+  constexpr bool IsWordDivide(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           // The quotient of these does not fit in a word.
+           !(BigIntWord{words_[0]} == std::numeric_limits<BigIntWord>::min() &&
+             BigIntWord{other.words_[0]} == -1);
+  }
+
   static constexpr bool CanTrimLastHalf(BigUIntWord last) {
     return static_cast<BigIntHalfWord>(BigIntWord{last}) == BigIntWord{last};
   }
-- 
2.43.0


From 7daad2262b238451bcdb4d55a877fc69fabd9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 09/14] fix: avoid overflowing the word in the absolute value
 of the minimum word

---
 include/walnut/big_int.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b56a5af..dbcddae 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -734,9 +734,6 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
-      return BigInt(BigIntWord{words_[0].SignedAbs()});
-    }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
       return *this;
     } else {
-- 
2.43.0


From 769319d01ee4bf5d5b51de171c63f14509bdeb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:42 +0000
Subject: [PATCH 10/14] fix: BigIntWords::resize with an initial value also
 shrinks

---
 include/walnut/big_int_words.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/walnut/big_int_words.h b/include/walnut/big_int_words.h
index 1b55f52..e07f284 100644
--- a/include/walnut/big_int_words.h
+++ b/include/walnut/big_int_words.h
@@ -171,6 +171,7 @@ class BigIntWords {
       extra_[extra_size_] = init;
       ++extra_size_;
     }
+    extra_size_ = extra_size;
   }
 
   constexpr BigIntWords& operator=(const BigIntWords& other) {
-- 
2.43.0


From e34e77e38862047a6f2f0333ac7e4b15c0b4bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:07 +0000
Subject: [PATCH 11/14] fix: a deed of a null pointer does not dereference it

---
 include/walnut/deed.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..f24f93b 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,7 +55,8 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
+    if (object == nullptr) return;
+    if (object->owner_ != nullptr) {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
-- 
2.43.0


From 0f6ce1c539e187449d082d334392a0ca776fb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 12/14] fix: an object lent through GenericDeed::Lend follows
 the borrower

---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index f24f93b..d379190 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -151,6 +151,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From c32d44f75d6473a90fbe07630ff4a5cc48f1655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 13/14] fix: SubtractIdsFilter subtracts from the first listed
 id

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..5240b84 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From 0bb2a7c9a3ce3cebdfa8d8487dd09ce36643a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:19 +0000
Subject: [PATCH 14/14] fix: a missing polyhedron has winding number zero when
 it is subtracted

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 include/walnut/bsp_visitor.h              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 5240b84..26304cb 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // A polyhedron without facets has pwn 0 everywhere.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..ba2d665 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // A polyhedron without facets has pwn 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0

