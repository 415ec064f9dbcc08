From 37a2b6e76ae68535ea8a4f4dcc632372350f0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 001/183] fix: DataBufferFactory::Clear must empty the free
 lists of large buffers

The loop over free_list_ copied each bucket, so the deleted buffers stayed in
the free list: a later Allocate returned freed memory and a second Clear (or
the destructor) freed it again.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From 33469adfe981d8c8ce8356e8bd52d58f11dc9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 002/183] fix: initialize the submit state of a new DataBuffer

Submit() tests destination_ for null, but the constructor left destination_,
delay_line_ and latency_ uninitialized, so submitting a new buffer without a
destination called through a garbage pointer.
---
 mpact/sim/generic/data_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..c3edd1b 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -269,10 +269,10 @@ class DataBuffer : public ReferenceCount {
 
  private:
   explicit DataBuffer(unsigned size);
-  DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferFactory* db_factory_ = nullptr;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
-- 
2.43.0


From 810ff5fb76200a44bc998abb27e2b3ee3ecc91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 003/183] fix: grow the delay line when the latency equals its
 (power of two) depth

Resize(latency) is a no-op growth when latency == depth and depth is a power
of two: the relocation loop then wrote past the end of the vector and the
entry was applied in the wrong cycle.
---
 mpact/sim/generic/delay_line.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..ae22457 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -86,7 +86,7 @@ class DelayLine : public DelayLineInterface {
     // absl::MutexLock dl(&delay_line_lock_);
     // If the latency is longer than the delay line, resize the delay line.
     if (latency >= static_cast<int>(delay_line_.size())) {
-      Resize(latency);
+      Resize(latency + 1);
     }
     int pos = (latency + current_) & mask_;
     delay_line_[pos].emplace_back(args...);
-- 
2.43.0


From c58723c2dc931700512cdf3f625ab5fa7823f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 004/183] fix: StatusRegister::SetDataBuffer must not release
 the caller's reference

The submit paths (DataBuffer::Submit and the delay line record) release the
submit reference after SetDataBuffer returns. Releasing it here as well drops
a reference owned by someone else and recycles a buffer still in use.
---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..acfbdfe 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so just ignore the data buffer. The reference used
+    // for the submit is released by the caller.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From 9ba08162a957097c01d459f523940facfb708384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 005/183] fix: FPTypeInfo<uint64_t> and FPTypeInfo<int64_t>
 describe double precision

Both specializations used the single precision layout, so classification of a
64 bit floating point bit pattern looked at the wrong bits.
---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From e6fd7d09f4c41ea64814c9abc316e6d3b4dcf0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 006/183] fix: FPTypeInfo::SignBit for signed integer bit
 patterns

The arithmetic right shift of a negative value gives -1, never 1, so SignBit
was false for every pattern with the sign bit set.
---
 mpact/sim/generic/type_helpers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..7e13221 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,9 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -359,7 +361,9 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -417,7 +421,9 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 4ed7cfe8e246ab69170433d64e52092572d78b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 007/183] fix: PerformActions at an address without an action
 point does nothing

The error was logged, but the end iterator was dereferenced afterwards.
---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From fdc98d6322925a5a1ac4964be5063265069227e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 008/183] fix: propagate the error of a negated constant
 expression

TemplateNegate::Evaluate returned the (ok) status of the operand when its
value could not be computed, which aborts in StatusOr, and leaked the operand.
---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From 6e073a15fa84be1adcbca00ed4ac75fde2d9e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 009/183] fix: report integer overflow in template expressions

Signed overflow was undefined behavior (and INT_MIN / -1 a crash of the
generator); report it as an error like division by zero.
---
 mpact/sim/decoder/template_expression.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 3e94409..055f9b2 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -14,7 +14,9 @@
 
 #include "mpact/sim/decoder/template_expression.h"
 
+#include <cstdint>
 #include <functional>
+#include <limits>
 #include <variant>
 
 #include "absl/status/status.h"
@@ -25,6 +27,16 @@ namespace sim {
 namespace machine_description {
 namespace instruction_set {
 
+// Returns the value as a template value, or an error if it isn't representable
+// as an int.
+static absl::StatusOr<TemplateValue> CheckedInt(int64_t value) {
+  if ((value < std::numeric_limits<int>::min()) ||
+      (value > std::numeric_limits<int>::max())) {
+    return absl::InternalError("Integer overflow");
+  }
+  return static_cast<int>(value);
+}
+
 // Static operator overloads are used to implement operations on expression
 // nodes. If there is an error in the expression evaluation the error is
 // propagated to the top.
@@ -34,7 +46,7 @@ static absl::StatusOr<TemplateValue> operator-(
     auto variant_value = lhs.value();
     int* value_ptr = std::get_if<int>(&variant_value);
     if (value_ptr != nullptr) {
-      return -*value_ptr;
+      return CheckedInt(-static_cast<int64_t>(*value_ptr));
     } else {
       return absl::InternalError("int type expected");
     }
@@ -69,7 +81,7 @@ static absl::StatusOr<TemplateValue> operator+(
   return OperatorHelper<int>(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
-        return lhs_value + rhs_value;
+        return CheckedInt(static_cast<int64_t>(lhs_value) + rhs_value);
       });
 }
 
@@ -79,7 +91,7 @@ static absl::StatusOr<TemplateValue> operator-(
   return OperatorHelper<int>(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
-        return lhs_value - rhs_value;
+        return CheckedInt(static_cast<int64_t>(lhs_value) - rhs_value);
       });
 }
 
@@ -89,7 +101,7 @@ static absl::StatusOr<TemplateValue> operator*(
   return OperatorHelper<int>(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
-        return lhs_value * rhs_value;
+        return CheckedInt(static_cast<int64_t>(lhs_value) * rhs_value);
       });
 }
 
@@ -100,7 +112,7 @@ static absl::StatusOr<TemplateValue> operator/(
       lhs, rhs,
       [](int lhs_value, int rhs_value) -> absl::StatusOr<TemplateValue> {
         if (rhs_value == 0) return absl::InternalError("Divide by zero");
-        return lhs_value / rhs_value;
+        return CheckedInt(static_cast<int64_t>(lhs_value) / rhs_value);
       });
 }
 
-- 
2.43.0


From ecde94c7e2ce432f08fc27cfd36cb7390acdbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:57 +0000
Subject: [PATCH 010/183] fix: writing a register's own data buffer back must
 not release it

---
 mpact/sim/generic/register.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7306b79 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,12 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference before releasing the old one, in case db already is
+  // the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From aea67d64148e1c1130b146d33e3327ddd14e6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 011/183] fix: a token fifo must not take a token for a refused
 push

---
 mpact/sim/generic/token_fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..110c3d9 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -67,7 +67,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // Don't take a token for a data buffer that was not accepted.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
-- 
2.43.0


From 1afdc69815a96cd768200c7129b4a4ca9ebfec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 012/183] fix: a pop that underflows a token fifo must not
 release a token

---
 mpact/sim/generic/token_fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 110c3d9..7e34c28 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -82,7 +82,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  // Note that IsEmpty() is false if there are reserved slots.
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From 02847109fabeec7759b7fa4bf90d86f3ec1a0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 013/183] fix: only notify on empty when a pop makes the fifo
 empty

---
 mpact/sim/generic/fifo_with_notify.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..6afbe74 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -36,8 +36,9 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool had_element = Available() > 0;
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (had_element && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From 1833573a9f6f22be9276429e9632e791c29fc76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 014/183] fix: register the depth configuration entry of a fifo

---
 mpact/sim/generic/fifo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..3770a90 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,9 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  // Register the depth, so that the value can be imported. This cannot fail, as
+  // it is the first configuration entry added.
+  AddConfig(&depth_).IgnoreError();
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From acc7b2caa38a800432c4fc4e3f02cabfdea2f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 015/183] fix: grow the resource bitset when setting a bit in
 the word past its end

---
 mpact/sim/generic/resource_bitset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..aba21b5 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -58,7 +58,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From d8854a039530c0b9ac7792c0d3fd03b57b0eb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 016/183] fix: self assignment of a resource bitset

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index aba21b5..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
-- 
2.43.0


From 635b391b0d4747d625fc435d2201d041894e080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 017/183] fix: size of the cycle mask when the end cycle is a
 multiple of 64

---
 mpact/sim/generic/complex_resource_operand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..16c1251 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
-- 
2.43.0


From 6861dadcb32841e15f70a2b6712caa370f77c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:45 +0000
Subject: [PATCH 018/183] fix: validation of a cycle mask given as a span

---
 mpact/sim/generic/complex_resource_operand.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index 16c1251..de05b45 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -73,10 +73,11 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. Only
+  // a partially used last word of the resource can contain such bits.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span.back() >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +93,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From d2b15969b9dd4e94b971305e5bb693350301280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 019/183] fix: replacing instruction attributes used the wrong
 form of delete

The attribute array is allocated with new[], so it has to be freed with
delete[]. Copying an empty span also passed a null pointer to memcpy.
---
 mpact/sim/generic/instruction.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..fdda95e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -14,8 +14,8 @@
 
 #include "mpact/sim/generic/instruction.h"
 
+#include <algorithm>
 #include <cstdint>
-#include <cstring>
 #include <string>
 
 #include "absl/types/span.h"
@@ -112,10 +112,9 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
-  std::memcpy(attribute_array_, attributes.data(),
-              attributes.size() * sizeof(int));
+  std::copy(attributes.begin(), attributes.end(), attribute_array_);
   attributes_ = absl::Span<const int>(attribute_array_, attributes.size());
 }
 
-- 
2.43.0


From 91d9f3d78c0078b99033e5a229dcd9575a3c47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 020/183] fix: children past the first kept a dangling parent
 pointer

Only the first child was told that its parent is being destroyed. A later
child that is still referenced wrote through the stale pointer when it was
destroyed.
---
 mpact/sim/generic/instruction.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index fdda95e..c2e4c46 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -94,7 +94,7 @@ Instruction::~Instruction() {
     delete op;
   }
   resource_acquire_.clear();
-  if (parent_ != nullptr) {
+  if ((parent_ != nullptr) && (parent_->child_ == this)) {
     // remove reference to this from the parent
     parent_->child_ = nullptr;
   }
@@ -103,7 +103,10 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // Children may outlive this instruction if someone else refers to them.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From ea52bfc9c56db5fbbeec9acd89394deb83cbc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 021/183] fix: refusing a decode cache with a bad pc increment
 crashed

Create() is meant to return nullptr when the minimum pc increment is not a
power of two, but the destructor then walked an array that was never
allocated.
---
 mpact/sim/generic/decode_cache.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..d9cba53 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -26,16 +26,15 @@ namespace generic {
 
 DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
-    : decoder_(decoder), instruction_cache_(nullptr) {
+    : decoder_(decoder), num_entries_(0), instruction_cache_(nullptr) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
+    // minimum pc increment not a power of 2.
+    return;
+  }
   num_entries_ = absl::bit_ceil(props.num_entries);
   address_shift_ =
       (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
   address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
-    // minimum pc increment not a power of 2.
-    instruction_cache_ = nullptr;
-    return;
-  }
   address_mask_ = (num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
-- 
2.43.0


From 819e42b0dd09fa6d5dbc2e06a1cf78c9831f79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 022/183] fix: invalidating an address range missed
 instructions or did not end

From an unaligned start the loop stepped over every instruction in the
range, and it never ended when the range reaches the top of the address
space.
---
 mpact/sim/generic/decode_cache.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index d9cba53..d2d54fc 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -103,8 +103,13 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  for (int entry = 0; entry < num_entries_; ++entry) {
+    Instruction* inst = instruction_cache_[entry];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      inst->DecRef();
+      instruction_cache_[entry] = nullptr;
+    }
   }
 }
 
-- 
2.43.0


From d302f1ad07f2f6cc21b0954420dac447b86865b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 023/183] fix: adding a null counter or config to a component
 crashed

The null check in AddMapEntry comes after the pointer has been used.
---
 mpact/sim/generic/component.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index a4aa0f7..17c1346 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -78,12 +78,16 @@ absl::Status Component::AddChildComponent(Component& child) {
   return absl::OkStatus();
 }
 absl::Status Component::AddCounter(CounterBaseInterface* counter) {
+  if (counter == nullptr) {
+    return absl::InvalidArgumentError("counter is nullptr");
+  }
   if (!counter->IsInitialized()) {
     return absl::InvalidArgumentError("Counter has not been initialized");
   }
   return AddMapEntry(counter->GetName(), counter, &counter_map_);
 }
 absl::Status Component::AddConfig(ConfigBase* config) {
+  if (config == nullptr) return absl::InvalidArgumentError("config is nullptr");
   return AddMapEntry(config->name(), config, &config_map_);
 }
 
-- 
2.43.0


From 0bcde37ddc4509ef9ea7ed290550373b8a54cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 024/183] fix: a component removed from its parent still named
 it as parent

---
 mpact/sim/generic/component.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index 17c1346..43f4118 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -100,6 +100,7 @@ absl::Status Component::RemoveChildComponent(absl::string_view name) {
   if (iter == child_map_.end())
     return absl::NotFoundError(
         absl::StrCat("No such child component '", name, "'"));
+  iter->second->SetParent(nullptr);
   child_map_.erase(iter);
   return absl::OkStatus();
 }
-- 
2.43.0


From e4aa1acdb61ead0df89a5700b99583c47495078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 025/183] fix: a config entry created without a value exported
 uninitialized memory

---
 mpact/sim/generic/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/config.h b/mpact/sim/generic/config.h
index 346804b..ba31cc7 100644
--- a/mpact/sim/generic/config.h
+++ b/mpact/sim/generic/config.h
@@ -105,7 +105,7 @@ class Config : public ConfigBase {
   using ValueWrittenCallback = std::function<void()>;
 
   Config() = delete;
-  explicit Config(absl::string_view name) : ConfigBase(name) {}
+  explicit Config(absl::string_view name) : ConfigBase(name), value_() {}
   Config(absl::string_view name, T value) : ConfigBase(name), value_(value) {}
   ~Config() override = default;
 
-- 
2.43.0


From 4dbf456f44f6ad45a708633d7c000a0b6cc19f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 026/183] fix: reading an element of a half precision source
 ran off an empty function

---
 mpact/sim/generic/instruction.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/generic/instruction.h b/mpact/sim/generic/instruction.h
index 12b66b6..3e12765 100644
--- a/mpact/sim/generic/instruction.h
+++ b/mpact/sim/generic/instruction.h
@@ -346,6 +346,12 @@ inline int16_t GetInstructionSource<int16_t>(const Instruction* inst, int index,
   return inst->Source(index)->AsInt16(element);
 }
 template <>
+inline HalfFP GetInstructionSource<HalfFP>(const Instruction* inst, int index,
+                                           int element) {
+  auto value = inst->Source(index)->AsUint16(element);
+  return HalfFP{.value = value};
+}
+template <>
 inline uint32_t GetInstructionSource<uint32_t>(const Instruction* inst,
                                                int index, int element) {
   return inst->Source(index)->AsUint32(element);
-- 
2.43.0


From 9f2893ff7b1c8f72076bac488b7007155f5a77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 027/183] fix: a delayed load from flat memory did not hold on
 to its instruction

The context is kept alive until the instruction executes, but the
instruction itself was not, unlike in the other memory classes.
---
 mpact/sim/util/memory/flat_memory.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..3443f4b 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -36,11 +36,13 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
       // If the context is non-null, need to IncRef it before storing it in the
       // lambda.
       if (context != nullptr) context->IncRef();
+      inst->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -75,11 +77,13 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
       // If the context is non-null, need to IncRef it before storing it in the
       // lambda.
       if (context != nullptr) context->IncRef();
+      inst->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From e6fdcd0180cea0a06960c67ec6cad3a0dcc83d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 028/183] fix: unit stride accesses ignored the addressable
 unit size

Addresses are in addressable units, so consecutive elements are el_size
bytes apart, not el_size units.
---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++--
 mpact/sim/util/memory/flat_memory.h         | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..90b4cc7 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -97,7 +97,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -160,7 +161,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..6479cf3 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -112,7 +112,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -132,7 +133,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From f8089d756abb3c3dff1cb0e366b5c3f6da7d249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 029/183] fix: unaligned vector elements were accessed through
 misaligned pointers

---
 mpact/sim/util/memory/flat_memory.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index 6479cf3..646d28d 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -16,6 +16,7 @@
 #define MPACT_SIM_UTIL_MEMORY_FLAT_MEMORY_H_
 
 #include <cstdint>
+#include <cstring>
 
 #include "mpact/sim/generic/instruction.h"
 #include "mpact/sim/generic/ref_count.h"
@@ -117,7 +118,9 @@ class FlatMemory : public MemoryInterface {
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-        db->Set<T>(entry, *reinterpret_cast<T*>(&memory_buffer_[offset]));
+        T value;
+        std::memcpy(&value, &memory_buffer_[offset], sizeof(T));
+        db->Set<T>(entry, value);
       }
     }
   }
@@ -138,7 +141,8 @@ class FlatMemory : public MemoryInterface {
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-        *reinterpret_cast<T*>(&memory_buffer_[offset]) = db->Get<T>(entry);
+        T value = db->Get<T>(entry);
+        std::memcpy(&memory_buffer_[offset], &value, sizeof(T));
       }
     }
   }
-- 
2.43.0


From 4df6fa79d8d02fbc50dbe090d2bfd145733a7c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 030/183] fix: a memory reaching the end of the address space
 rejected every access

The upper bound wrapped around, so that for instance a memory constructed
with just a base address reported all accesses as out of bounds.
---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 90b4cc7..5392ada 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <utility>
 
 #include "absl/base/macros.h"
@@ -40,6 +41,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
       (addressable_unit_size != 0) &&
       ((addressable_unit_size & (addressable_unit_size - 1)) == 0));
   addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  // The memory may extend to the end of the address space.
+  if (max_address_ < base_address_) {
+    max_address_ = std::numeric_limits<uint64_t>::max();
+  }
 }
 
 // Delete all the allocated blocks.
-- 
2.43.0


From 86774196df19128e128500c89256bb1358476ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 031/183] fix: masked unit stride stores to tagged memory
 cleared the wrong tags

The tags of the whole vector were cleared or kept depending on the mask of
the first element only.
---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..c7998fb 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // With a single address this is a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    if (!mask_span[i]) continue;
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From 163bbfce3ac09eccfd75fbe97954f6e8308d796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 032/183] fix: a load of only tags from untagged memory never
 completed

The instruction that writes back the tags was dropped.
---
 .../tagged_to_untagged_memory_transactor.cc    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..c8c71fd 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,7 +61,23 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
+  if (db == nullptr) {
+    // This is a load of tags only. There is nothing to load from the target.
+    if (inst == nullptr) return;
+    if (tags->latency() == 0) {
+      inst->Execute(context);
+      return;
+    }
+    inst->IncRef();
+    if (context != nullptr) context->IncRef();
+    inst->state()->function_delay_line()->Add(
+        tags->latency(), [inst, context]() {
+          inst->Execute(context);
+          if (context != nullptr) context->DecRef();
+          inst->DecRef();
+        });
+    return;
+  }
   target_mem_->Load(address, db, inst, context);
 }
 
-- 
2.43.0


From f96cfc0788d4fe2762ba6fa717facc80b3d8d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 033/183] fix: stores did not break all the reservations they
 overlap

Only the granule of the first byte was considered, so a store conditional
succeeded after a wide, unaligned or unit stride store to its location.
---
 mpact/sim/util/memory/atomic_memory.cc        | 29 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 ++
 mpact/sim/util/memory/atomic_tagged_memory.cc | 36 ++++++++++---------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 ++
 4 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..ca637b1 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,27 +132,34 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of all the granules that are written.
+  ClearLLTags(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of all the granules that are written.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (int i = 0; i < masks.size(); ++i) {
+    if (!masks[i]) continue;
+    ClearLLTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
 
+// Remove any tags in the range of addresses that is written.
+void AtomicMemory::ClearLLTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 // Perform the atomic memory operation.
 absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
                                            DataBuffer* db, Instruction* inst,
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..511d0d5 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -76,6 +76,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the load linked tags of the given range of addresses.
+  void ClearLLTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   MemoryInterface* memory_ = nullptr;
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..7f38969 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,37 +141,41 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of all the granules that are written.
+  ClearLLTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of all the granules that are written.
+  ClearLLTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of all the granules that are written.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (int i = 0; i < masks.size(); ++i) {
+    if (!masks[i]) continue;
+    ClearLLTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
 
+// Remove any tags in the range of addresses that is written.
+void AtomicTaggedMemory::ClearLLTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 // Perform the atomic memory operation.
 absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
                                                  DataBuffer* db,
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..d014311 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -82,6 +82,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the load linked tags of the given range of addresses.
+  void ClearLLTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   TaggedMemoryInterface* tagged_memory_ = nullptr;
-- 
2.43.0


From 9316542e380c2d3b40c88f0bf6a2abab24e819ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 034/183] fix: atomic operations did not break reservations

A store conditional succeeded after an intervening atomic operation wrote
the location, which loses the update.
---
 mpact/sim/util/memory/atomic_memory.cc        | 4 ++--
 mpact/sim/util/memory/atomic_tagged_memory.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index ca637b1..3409d62 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -217,7 +217,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
-    memory_->Store(address, tmp_db);
+    Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
   }
@@ -244,7 +244,7 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
-  memory_->Store(address, tmp_db);
+  Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
 }
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 7f38969..d2b5aff 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -234,7 +234,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       break;
   }
   if (op == Operation::kAtomicSwap) {
-    tagged_memory_->Store(address, tmp_db);
+    Store(address, tmp_db);
     WriteBack(inst, context, db);
     return absl::OkStatus();
   }
@@ -261,7 +261,7 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store the new value to memory, the other value will be written back to the
   // instruction destination.
-  tagged_memory_->Store(address, tmp_db);
+  Store(address, tmp_db);
   WriteBack(inst, context, db);
   return absl::OkStatus();
 }
-- 
2.43.0


From 2478bcb824acddc56803d5afc274a06ad344d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 035/183] fix: tagged stores through an atomic tagged memory
 lost their tags

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index d2b5aff..64dc9d5 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -143,7 +143,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   // Remove the tags of all the granules that are written.
   ClearLLTags(address, db->size<uint8_t>());
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 0bf5b77ccd950c5697a52cacb251b8579c647d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:09 +0000
Subject: [PATCH 036/183] fix: tagged memory mixed up addressable units and
 bytes

Addresses are in addressable units while the tag granule is in bytes. With
units larger than one byte several granules shared a tag.
---
 .../util/memory/tagged_flat_demand_memory.cc  | 29 +++++++++++++------
 .../util/memory/tagged_flat_demand_memory.h   |  4 +++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index c7998fb..859721e 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -46,8 +46,9 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  tag_memory_ = new FlatDemandMemory(TagIndex(memory_size_in_units),
+                                     TagIndex(base_address), 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
@@ -71,7 +72,7 @@ void TaggedFlatDemandMemory::Load(uint64_t address, DataBuffer* db,
     data_memory_->Load(address, db, nullptr, nullptr);
   }
   int latency = (db != nullptr) ? db->latency() : tags->latency();
-  tag_memory_->Load(address >> tag_granule_shift_, tags, nullptr, nullptr);
+  tag_memory_->Load(TagIndex(address), tags, nullptr, nullptr);
   FinishLoad(latency, inst, context);
 }
 
@@ -80,7 +81,7 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db,
   if (!CheckRequest(address, db, tags)) return;
   // Store data and tags.
   data_memory_->Store(address, db);
-  tag_memory_->Store(address >> tag_granule_shift_, tags);
+  tag_memory_->Store(TagIndex(address), tags);
 }
 
 // Untagged load is passed directly to the data memory.
@@ -119,7 +120,9 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     // Clear any affected tags.
     if (!mask_span[i]) continue;
-    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+    ClearTags(scatter ? address_span[i]
+                      : address_span[0] +
+                            i * (el_size >> addressable_unit_shift_),
               el_size);
   }
 }
@@ -128,7 +131,7 @@ bool TaggedFlatDemandMemory::CheckRequest(uint64_t address,
                                           const DataBuffer* db,
                                           const DataBuffer* tags) {
   uint64_t mask = (1ULL << tag_granule_shift_) - 1;
-  if (address & mask) {
+  if ((address << addressable_unit_shift_) & mask) {
     LOG(ERROR) << absl::StrCat(
         "Tagged load to ", absl::Hex(address, absl::kZeroPad16),
         " not aligned to tag granule (", tag_granule_, ")");
@@ -174,10 +177,18 @@ void TaggedFlatDemandMemory::FinishLoad(int latency, Instruction* inst,
 }
 
 // Clear the tags for the given range of memory.
+uint64_t TaggedFlatDemandMemory::TagIndex(uint64_t address) const {
+  // Addresses are in addressable units, the granule is in bytes.
+  return tag_granule_shift_ >= addressable_unit_shift_
+             ? address >> (tag_granule_shift_ - addressable_unit_shift_)
+             : address << (addressable_unit_shift_ - tag_granule_shift_);
+}
+
 void TaggedFlatDemandMemory::ClearTags(uint64_t address, unsigned size) {
-  uint64_t lo = address >> tag_granule_shift_;
-  uint64_t hi = (address + size - 1) >> tag_granule_shift_;
-  int num_tags = hi - lo + 1;
+  uint64_t lo = TagIndex(address);
+  // The byte offset of the address within its tag granule.
+  uint64_t offset = (address << addressable_unit_shift_) & (tag_granule_ - 1);
+  int num_tags = ((offset + size - 1) >> tag_granule_shift_) + 1;
   auto* tag_db = db_factory_->Allocate(num_tags);
   std::memset(tag_db->raw_ptr(), 0, num_tags);
   tag_memory_->Store(lo, tag_db);
diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.h b/mpact/sim/util/memory/tagged_flat_demand_memory.h
index 1c7bbf1..c1c9802 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.h
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.h
@@ -124,8 +124,12 @@ class TaggedFlatDemandMemory : public TaggedMemoryInterface {
   // Clear the tags for the specified range of memory.
   void ClearTags(uint64_t address, unsigned size);
 
+  // Return the index in tag memory of the tag for the given address.
+  uint64_t TagIndex(uint64_t address) const;
+
   unsigned tag_granule_;
   unsigned tag_granule_shift_;
+  unsigned addressable_unit_shift_;
   FlatDemandMemory* data_memory_ = nullptr;
   FlatDemandMemory* tag_memory_ = nullptr;
   generic::DataBufferFactory* db_factory_ = nullptr;
-- 
2.43.0


From 6f5582e7b0803d66cae80f0c51b1a1a1820cf980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:09 +0000
Subject: [PATCH 037/183] fix: a successful store conditional left overlapped
 reservations intact

---
 mpact/sim/util/memory/atomic_memory.cc        | 4 ++--
 mpact/sim/util/memory/atomic_tagged_memory.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 3409d62..ec5878e 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -182,8 +182,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
-      memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      // The store removes the tag.
+      Store(address, db);
       value = 0;
     }
     auto res = WriteDb(db, value);
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 64dc9d5..db052d2 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -199,8 +199,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
-      tagged_memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      // The store removes the tag.
+      Store(address, db);
       value = 0;
     }
     auto res = WriteDb(db, value);
-- 
2.43.0


From c5ad4397a4ef64d4f2af09ae1d70279ad94f3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:09 +0000
Subject: [PATCH 038/183] fix: memory watchers read past the address of unit
 stride accesses

---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..bfe7a4a 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -114,7 +114,9 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // With a single address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -150,7 +152,9 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // With a single address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..1ded8cc 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -115,7 +115,9 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // With a single address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -166,7 +168,9 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // With a single address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From dc0953654e22244bf12180a87c8079f7561e2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:22 +0000
Subject: [PATCH 039/183] fix: stores next to another target were not routed

The lookup of a plain store covered one byte more than the access, so it could
find the neighboring target. The tagged targets were looked up with the first
address only, so that the default got accesses that overlap a target.
---
 mpact/sim/util/memory/single_initiator_router.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..342d44a 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -142,7 +142,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
   // Since the plain memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -265,7 +265,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
+  auto it = memory_targets_.find({address, address + size - 1});
   if (it != memory_targets_.end()) {
     auto& range = it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -279,7 +279,7 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   // Since the plain memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
-- 
2.43.0


From 16122e706375a29118ade5b40cf3d9b3540305ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:22 +0000
Subject: [PATCH 040/183] fix: vector stores to the end of a tagged target were
 not routed

---
 mpact/sim/util/memory/single_initiator_router.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 342d44a..d8a6aeb 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -340,7 +340,7 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
       auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
+      auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
@@ -350,7 +350,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
+        if ((range.base > address) || (range.top < address + el_size - 1))
+          break;
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From 75d542dca2e52f4ee7cf9932c6affd1c56506743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:22 +0000
Subject: [PATCH 041/183] fix: vector accesses partly outside of a target were
 still sent to it

When an element after the first was not in any target, or only partly in one,
the whole access was sent to the target of the elements before it.
---
 .../util/memory/single_initiator_router.cc    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d8a6aeb..2fcd30f 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -174,14 +174,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -208,14 +213,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
@@ -310,14 +320,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -344,14 +359,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From c6f797512399fe35e6bb99fb04092d1148b50d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:22 +0000
Subject: [PATCH 042/183] fix: unit stride accesses were routed by their first
 element only

---
 .../util/memory/single_initiator_router.cc    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 2fcd30f..91bc245 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -164,12 +164,15 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  ReferenceCount* context) {
   // This is a vector load, so check each address that is not masked off.
   // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // A single address denotes a unit stride access.
+  int count = mask_db->size<bool>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -208,7 +211,8 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
@@ -310,12 +314,15 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
   // This is a vector store, so check each address that is not masked off.
   // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // A single address denotes a unit stride access.
+  int count = mask_db->size<bool>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -354,7 +361,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
-- 
2.43.0


From 522106dafd6f7ec8ab7aa966463b5440ab53fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:12 +0000
Subject: [PATCH 043/183] fix: a routed vector load with every element masked
 off never completed

---
 .../util/memory/single_initiator_router.cc    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 91bc245..9d74ae8 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/util/memory/single_initiator_router.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <string>
 
@@ -21,6 +22,9 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/str_cat.h"
+#include "mpact/sim/generic/data_buffer.h"
+#include "mpact/sim/generic/instruction.h"
+#include "mpact/sim/generic/ref_count.h"
 #include "mpact/sim/util/memory/memory_interface.h"
 #include "mpact/sim/util/memory/tagged_memory_interface.h"
 
@@ -167,6 +171,21 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
   // A single address denotes a unit stride access.
   int count = mask_db->size<bool>();
   bool unit_stride = address_db->size<uint64_t>() == 1;
+  // If every element is masked off there is nothing to load from any target,
+  // but the instruction still has to complete.
+  auto masks = mask_db->Get<bool>();
+  if (std::none_of(masks.begin(), masks.end(), [](bool mask) { return mask; })) {
+    if (inst == nullptr) return;
+    if (db->latency() == 0) return inst->Execute(context);
+    inst->IncRef();
+    if (context != nullptr) context->IncRef();
+    inst->state()->function_delay_line()->Add(db->latency(), [inst, context]() {
+      inst->Execute(context);
+      if (context != nullptr) context->DecRef();
+      inst->DecRef();
+    });
+    return;
+  }
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
-- 
2.43.0


From a7eaee009d898f31f389199ba76d73a954775797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 044/183] fix: a cache in front of tagged memory could not be
 constructed

The two non cacheable counters had no names there, so registering the second
one failed.
---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 37ea62ed561e3b5966c3971b0c11a623371ac8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 045/183] fix: cache lines allocated by a write were not dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From 34fdebc795e2e35a9755d948b492e62d7d35dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 046/183] fix: a tag only load through a cache crashed or
 waited twice

The latency of a tag only load is applied by the memory.
---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..d758fee 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -288,7 +288,7 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   } else {
     size = db->size<uint8_t>();
   }
-  int latency = (db != nullptr) ? db->latency() : tags->latency();
+  int latency = (db != nullptr) ? db->latency() : 0;
 
   (void)CacheLookup(address, size, /*is_read=*/true);
   if (tagged_memory_ == nullptr) return;
-- 
2.43.0


From 6e21380d4cde4727d3f738fdaa62ade57260bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 047/183] fix: loads without an instruction through a cache
 leaked their context

Nor did the data buffer get its latency back.
---
 mpact/sim/util/memory/cache.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index d758fee..8302fa4 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -346,11 +346,11 @@ void Cache::LoadChild(const Instruction* inst) {
   auto* db = cache_context->db;
   auto* og_inst = cache_context->inst;
   // Reset the db latency to the original value.
+  if (db != nullptr) db->set_latency(cache_context->latency);
   if (nullptr != og_inst) {
     if (cache_context->latency > 0) {
-      if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
@@ -360,6 +360,8 @@ void Cache::LoadChild(const Instruction* inst) {
       if (og_context != nullptr) og_context->DecRef();
       og_inst->DecRef();
     }
+  } else if (og_context != nullptr) {
+    og_context->DecRef();
   }
   if (db) db->DecRef();
 }
-- 
2.43.0


From 08dabc2d39e8d7f7c1efac1ac7038cbec6d6e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 048/183] fix: only the first element of unit stride accesses
 was looked up in the cache

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8302fa4..00e34a5 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address denotes a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      (void)CacheLookup(
+          unit_stride ? address_span[0] + i * el_size : address_span[i],
+          el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -320,9 +324,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // A single address denotes a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      (void)CacheLookup(
+          unit_stride ? address_span[0] + i * el_size : address_span[i],
+          el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 96b03a1ba0e140b7d97192f18d35431d489ad3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 049/183] fix: a rejected cache configuration was applied in
 part or threw

A value that is not a number threw an exception. Otherwise the members were
changed before the configuration was found to be invalid, leaving the cache
inconsistent with its allocated lines. Ranges accumulated when reconfiguring.
---
 mpact/sim/util/memory/cache.cc | 73 ++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 00e34a5..a89410f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,9 +16,12 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "absl/functional/bind_front.h"
@@ -112,12 +115,22 @@ Cache::~Cache() {
   cache_inst_->DecRef();
 }
 
+// Parse the number at the start of str. Returns true if there is a valid number,
+// in which case size is the number of characters it takes up.
+static bool ParseNumber(const std::string& str, int base, uint64_t* value,
+                        std::string::size_type* size) {
+  char* end = nullptr;
+  errno = 0;
+  *value = std::strtoull(str.c_str(), &end, base);
+  *size = end - str.c_str();
+  return (*size > 0) && (errno == 0) && (str.find('-') == std::string::npos);
+}
+
 absl::Status Cache::Configure(const std::string& config,
                               CounterValueOutputBase<uint64_t>* cycle_counter) {
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -125,7 +138,10 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  if (!ParseNumber(config_vec[0], 10, &cache_size, &size)) {
+    return absl::InvalidArgumentError("Invalid value for cache size");
+  }
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -140,38 +156,45 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
-  if (size != config_vec[1].size()) {
+  uint64_t line_size;
+  if (!ParseNumber(config_vec[1], 10, &line_size, &size) ||
+      size != config_vec[1].size()) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
-  if (size != config_vec[2].size()) {
+  uint64_t num_sets;
+  if (!ParseNumber(config_vec[2], 10, &num_sets, &size) ||
+      size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
   // If there are more than 4 entries, check for cacheable, or non-cacheable
   // memory ranges. Format is: [c|nc]:<start_address>:<size>
+  decltype(cacheable_ranges_) cacheable_ranges;
+  decltype(non_cacheable_ranges_) non_cacheable_ranges;
   for (int i = 4; i < config_vec.size(); i++) {
     std::vector<std::string> range_vec = absl::StrSplit(config_vec[i], ':');
     if (range_vec.size() != 3) {
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
-    if (size != range_vec[1].size()) {
+    uint64_t range_start;
+    if (!ParseNumber(range_vec[1], 0, &range_start, &size) ||
+        size != range_vec[1].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
-    if (size != range_vec[2].size()) {
+    uint64_t range_end;
+    if (!ParseNumber(range_vec[2], 0, &range_end, &size) ||
+        size != range_vec[2].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid size");
     }
@@ -185,19 +208,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -207,7 +228,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -220,14 +241,22 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid, so apply it.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  has_cacheable_ = !cacheable_ranges.empty();
+  has_non_cacheable_ = !non_cacheable_ranges.empty();
+  cacheable_ranges_ = std::move(cacheable_ranges);
+  non_cacheable_ranges_ = std::move(non_cacheable_ranges);
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-- 
2.43.0


From 92e09c4829bc72de32daf414598904c352f17482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:29 +0000
Subject: [PATCH 050/183] fix: the memory delayed the internal instruction of
 tag only cache loads

That instruction has no state to schedule it with. Like for other loads, the
cache applies the latency itself.
---
 mpact/sim/util/memory/cache.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index a89410f..dc9636f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -321,7 +321,7 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   } else {
     size = db->size<uint8_t>();
   }
-  int latency = (db != nullptr) ? db->latency() : 0;
+  int latency = (db != nullptr) ? db->latency() : tags->latency();
 
   (void)CacheLookup(address, size, /*is_read=*/true);
   if (tagged_memory_ == nullptr) return;
@@ -337,8 +337,11 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   if (db) {
     db->set_latency(0);
     db->IncRef();
+  } else {
+    tags->set_latency(0);
   }
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
+  if (db == nullptr) tags->set_latency(latency);
   cache_context->DecRef();
 }
 
-- 
2.43.0


From 319104647b81682c4557243be543e69de242b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:02 +0000
Subject: [PATCH 051/183] fix: the memory use profiler did not mark all the
 words of an access

A double word marked only one word, or one that was not accessed if it ended a
bit map byte, an access across segments was written out of bounds, and the
first access to address 0 dereferenced a null pointer.
---
 mpact/sim/util/memory/memory_use_profiler.cc | 30 +++++++++++++-------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 ++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..596f9e2 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -40,30 +40,38 @@ MemoryUseTracker::~MemoryUseTracker() {
 }
 
 // Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
+static inline void MarkUsedBit(uint64_t byte_offset, uint8_t* bits) {
   // Shift right by two, so that every byte offset becomes a word offset.
   uint64_t word_offset = byte_offset >> 2;
   // Byte offs
   uint64_t byte_index = word_offset >> 3;
   int bit_index = word_offset & 0b111;
 
-  bits[byte_index] |= (mask << bit_index);
+  bits[byte_index] |= (1 << bit_index);
 }
 
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
+  // The profiling is done on a word boundary, so each word that is touched by
+  // the access is marked. The words may be in different segments.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+  constexpr uint64_t kWordMask = kGranularity - 1;
+  uint64_t first_word = address & ~kWordMask;
+  uint64_t last_word = (address + size - 1) & ~kWordMask;
+  for (uint64_t word = first_word; word != last_word; word += kGranularity) {
+    MarkWordUsed(word);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
+  MarkWordUsed(last_word);
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  if ((last_used_ != nullptr) && (address >= last_start_) &&
+      (address <= last_end_)) {
+    return MarkUsedBit(address - last_start_, last_used_);
+  }
+  auto it = memory_use_map_.find(MemoryWatcher::AddressRange(address));
   if (it == memory_use_map_.end()) {
     // Compute new base and top addresses.
     uint64_t start = address & ~kBaseMask;
@@ -79,7 +87,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   last_start_ = it->first.start;
   last_end_ = it->first.end;
   last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  MarkUsedBit(address - last_start_, it->second);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..fdf4842 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Mark the word at the given (word aligned) address as used.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From d8fc4fb05932d1154924d357782c5ddb071088ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:02 +0000
Subject: [PATCH 052/183] fix: the memory use profile lost or merged ranges at
 the end of segments

---
 mpact/sim/util/memory/memory_use_profiler.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 596f9e2..8a579a4 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -95,9 +95,21 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   // Current range info.
   uint64_t range_start = 0;
   uint64_t range_end = 0;
+  uint64_t previous_end = 0;
   bool range_started = false;
+  auto write_range = [&os, &range_start, &range_end]() {
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
+                          range_end - range_start + 4);
+  };
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range extends into this segment only if the segments are adjacent.
+    if (range_started && (base != previous_end + 1)) {
+      range_end = previous_end + 1 - kGranularity;
+      write_range();
+      range_started = false;
+    }
+    previous_end = range.end;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -114,8 +126,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
         int bit_indx = absl::countr_one(byte) - 1;
         range_end = base + (byte_index * 8 + bit_indx) * kGranularity;
         // Output range.
-        os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
-                              range_end - range_start + 4);
+        write_range();
         // Clear those bits from the current byte, then we start looking for
         // a new range.
         byte &= ~((1 << (bit_indx + 1)) - 1);
@@ -136,6 +147,11 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  // The last range may extend to the end of its segment.
+  if (range_started) {
+    range_end = previous_end + 1 - kGranularity;
+    write_range();
+  }
 }
 
 }  // namespace internal
-- 
2.43.0


From 24955739398ad843c9a4733c08d6814d38919e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:02 +0000
Subject: [PATCH 053/183] fix: only the first element of unit stride accesses
 was profiled

---
 mpact/sim/util/memory/memory_use_profiler.cc | 36 +++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 8a579a4..2aad638 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -171,9 +171,14 @@ void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
+    // A single address denotes a unit stride access.
+    bool unit_stride = address_db->size<uint64_t>() == 1;
+    for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
       if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
+        tracker_.MarkUsed(unit_stride
+                              ? address_db->Get<uint64_t>(0) + i * el_size
+                              : address_db->Get<uint64_t>(i),
+                          el_size);
       }
     }
   }
@@ -188,9 +193,14 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
+    // A single address denotes a unit stride access.
+    bool unit_stride = address_db->size<uint64_t>() == 1;
+    for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
       if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
+        tracker_.MarkUsed(unit_stride
+                              ? address_db->Get<uint64_t>(0) + i * el_size
+                              : address_db->Get<uint64_t>(i),
+                          el_size);
       }
     }
   }
@@ -214,9 +224,14 @@ void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
+    // A single address denotes a unit stride access.
+    bool unit_stride = address_db->size<uint64_t>() == 1;
+    for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
       if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
+        tracker_.MarkUsed(unit_stride
+                              ? address_db->Get<uint64_t>(0) + i * el_size
+                              : address_db->Get<uint64_t>(i),
+                          el_size);
       }
     }
   }
@@ -240,9 +255,14 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
+    // A single address denotes a unit stride access.
+    bool unit_stride = address_db->size<uint64_t>() == 1;
+    for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
       if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
+        tracker_.MarkUsed(unit_stride
+                              ? address_db->Get<uint64_t>(0) + i * el_size
+                              : address_db->Get<uint64_t>(i),
+                          el_size);
       }
     }
   }
-- 
2.43.0


From 1bf2510837d5e2e042df50e1b12757cfe4b65252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 054/183] fix: a failing read from a socket stream repeated the
 last character

Treat it as the end of the stream instead.
---
 mpact/sim/util/renode/socket_streambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..f1f127e 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -50,10 +50,10 @@ class SocketStreambuf : public std::streambuf {
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     if (ch_ == '\r') {
       count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      if (count <= 0) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
-- 
2.43.0


From 01396d8b55676021c099592b68b7d0ce1de6ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 055/183] fix: a socket stream closed its descriptor twice

By then the number may refer to another open file.
---
 mpact/sim/util/renode/socket_streambuf.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index f1f127e..f6d58a4 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -31,12 +31,15 @@ namespace renode {
 class SocketStreambuf : public std::streambuf {
  public:
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override { close(fd_); }
+  ~SocketStreambuf() override {
+    if (fd_ >= 0) close(fd_);
+  }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) {
-      close(fd_);
+      if (fd_ >= 0) close(fd_);
+      fd_ = -1;
       return c;
     }
     if (c == '\xa') {
-- 
2.43.0


From 68fc1260e97c9ff8522458e615eb54409046a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 056/183] fix: failing writes to a socket stream were reported
 as successful

---
 mpact/sim/util/renode/socket_streambuf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index f6d58a4..5e09f19 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -43,10 +43,11 @@ class SocketStreambuf : public std::streambuf {
       return c;
     }
     if (c == '\xa') {
-      write(fd_, "\r\n", 2);
+      if (write(fd_, "\r\n", 2) != 2) return traits_type::eof();
       return c;
     }
-    write(fd_, &c, 1);
+    char ch = traits_type::to_char_type(c);
+    if (write(fd_, &ch, 1) != 1) return traits_type::eof();
     return c;
   }
 
-- 
2.43.0


From e8db428b76b7146cf1c8f8a3cb7c1839c272242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 057/183] fix: a profile sample of all ones crashed before any
 range was set

The initial last used range has to be empty.
---
 mpact/sim/util/other/instruction_profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..76aae26 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -75,7 +75,7 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
   uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From 58c0c3a377de4a4a314f93ecd73d147315b66757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 058/183] fix: the instruction profiler wrote past its counters

Ranges were allocated with one (or two) entries too few, the last entry was
not written to the profile, and a range got the size of the previous one.
---
 mpact/sim/util/other/instruction_profiler.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..ff6e111 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,8 +75,8 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
-    for (auto i = 0; i < size; ++i) {
+    uint64_t size = range.end - range.start + 1;
+    for (uint64_t i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
                             counters[i]);
@@ -114,17 +114,17 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    uint64_t range_size = end - begin;
+    uint64_t* counters = new uint64_t[range_size];
+    ::memset(counters, 0, range_size * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
+    uint64_t size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-- 
2.43.0


From 3a7705de82581bbf26ae0e81d1d5cfb37c036fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 059/183] fix: the uart scratch register was not initialized

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From 5f4ee41db15e586c9ab3bec700d00e014d463363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 060/183] fix: loading a second elf file used the freed
 sections of the first

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..dcabe90 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -68,6 +68,15 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     return absl::NotFoundError(
         absl::StrCat("Unable to open elf file: '", file_name, "'"));
   }
+  // Drop everything that refers to a previously loaded file.
+  loaded_ = false;
+  has_stack_size_ = false;
+  for (auto* symtab : symbol_accessors_) {
+    delete symtab;
+  }
+  symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
   if (!elf_reader_.load(file_name)) {
     return absl::InternalError(
         absl::StrCat("Elf loading error for '", file_name, "'"));
-- 
2.43.0


From 18f9ecba664c4d669369b17052ea809205e1975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:00 +0000
Subject: [PATCH 061/183] fix: function symbols without size corrupted the
 function lookup

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index dcabe90..e43da6a 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -108,8 +108,11 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
+        // An empty range has no place in the order of the map.
+        uint64_t scaled_size = size / text_size_scale_;
+        if (scaled_size == 0) continue;
         function_range_map_.insert(
-            std::make_pair(AddressRange(value, size / text_size_scale_), name));
+            std::make_pair(AddressRange(value, scaled_size), name));
       }
     }
   }
-- 
2.43.0


From 050b152870c9e2a81e9dd5c7678857208b06c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 062/183] fix: the assembler ignored errors in its second pass

The status checked was shadowed by another one.
---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9419fc4..088527b 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -740,11 +740,11 @@ absl::Status SimpleAssembler::ParsePassTwo(
     auto relo_size = relo_vector.size();
     auto address = section_address_map_[section];
     if (line[0] == '.') {
-      auto status = ParseAsmDirective(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmDirective(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     } else {
-      auto status = ParseAsmStatement(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmStatement(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     }
     if (!status.ok()) return status;
     // Update section information in the relocation vector.
-- 
2.43.0


From ad5987c2865ee75486f331aa4688010b047b065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 063/183] fix: the second assembler pass started in the last
 section of the first

---
 mpact/sim/util/asm/simple_assembler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 088527b..e7bf16a 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -732,7 +732,8 @@ absl::Status SimpleAssembler::ParsePassTwo(
     std::vector<RelocationInfo>& relo_vector,
     ResolverInterface* symbol_resolver) {
   // Now fill in the sections. Parse each of the lines saved in the first
-  // pass.
+  // pass. Like the first pass, start outside of any section.
+  current_section_ = nullptr;
   for (auto const& line : lines_) {
     std::vector<uint8_t> byte_vector;
     absl::Status status;
@@ -749,7 +750,8 @@ absl::Status SimpleAssembler::ParsePassTwo(
     if (!status.ok()) return status;
     // Update section information in the relocation vector.
     for (int i = relo_size; i < relo_vector.size(); ++i) {
-      relo_vector[i].section_index = section->get_index();
+      relo_vector[i].section_index =
+          section == nullptr ? 0 : section->get_index();
       relo_vector[i].offset = address;
     }
     // Go to the next line if there is no data to add to the section.
-- 
2.43.0


From 84e4564baeb588504f3bed5a4e697a605f29b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 064/183] fix: .align 0 moved the location counter back to zero

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e7bf16a..d9eb9c4 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -807,7 +807,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     if (!res.ok()) return res.status();
     uint64_t align = res.value();
     // Verify that the alignment is a power of two.
-    if ((align & (align - 1)) != 0) {
+    if ((align == 0) || ((align & (align - 1)) != 0)) {
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
-- 
2.43.0


From 7c228ebe5fb7462c35f6024f76789207c7813143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 065/183] fix: .align and .space reserved no bytes in the text
 and data sections

What followed was placed at lower addresses than its labels.
---
 mpact/sim/util/asm/simple_assembler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index d9eb9c4..7adcd3d 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -813,6 +813,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "bss") {
     // .bss
     SetBssSection(".bss");
@@ -875,6 +876,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     size = res.value();
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "string") {
     // .string
     auto res = GetValues<std::string>(remainder);
-- 
2.43.0


From fc8287e82725218bcbc8489ec6fd70bf0237736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 066/183] fix: .align beyond the alignment of its section was
 not honored

---
 mpact/sim/util/asm/simple_assembler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 7adcd3d..8908a90 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
+    if (align > section->get_addr_align()) section->set_addr_align(align);
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
     if (section != bss_section_) byte_values.resize(size, 0);
-- 
2.43.0


From fd8bedbc4dcc43c6bc0e6040d463bc72d163974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 067/183] fix: all relocations were said to apply to the text
 section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 8908a90..3679e72 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -703,7 +703,7 @@ absl::Status SimpleAssembler::CreateRelocatable(
                                        ? sizeof(ELFIO::Elf64_Rela)
                                        : sizeof(ELFIO::Elf32_Rela));
       rela_section->set_link(symtab_->get_index());
-      rela_section->set_info(text_section_->get_index());
+      rela_section->set_info(section_index);
       rela_section->set_addr_align(8);
       // Process the relocation vector entries.
       absl::Status status;
-- 
2.43.0


From 1344baad316c0ba667dc07a00ea6b2f7d38b3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 068/183] fix: a label defined again before a directive was
 silently dropped

---
 mpact/sim/util/asm/simple_assembler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 3679e72..f8301b9 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -947,6 +947,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
+    if (!status.ok()) return status;
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From fd66b201b40236a857f417f92292594c813a8b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 069/183] fix: executables with undefined symbols were created

The set of undefined symbols is needed to refuse to create an executable.
---
 mpact/sim/util/asm/simple_assembler.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index f8301b9..d54d508 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -388,6 +388,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
+    if (symbol_indices_.contains(symbol)) continue;
     auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
     if (!status.ok()) {
       cleanup();
@@ -395,8 +396,6 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           "Failed to add undefined symbol '", symbol, "': ", status.message()));
     }
   }
-  undefined_symbols_.clear();
-
   if (bss_section_ != nullptr) {
     bss_section_->set_size(section_address_map_[bss_section_]);
   }
-- 
2.43.0


From a2afc07403cd0462116f19ed337a4e3a7bc531ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 070/183] fix: directives dropped everything after the first
 malformed value

---
 mpact/sim/util/asm/simple_assembler.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index d54d508..77d013f 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -168,6 +168,14 @@ std::string ExpandEscapes(absl::string_view text) {
   return result;
 }
 
+// Anything that is left after the last value of a directive is an error.
+absl::Status CheckNothingLeft(absl::string_view remainder) {
+  static RE2 blank_re("\\s*");
+  if (RE2::FullMatch(remainder, blank_re)) return absl::OkStatus();
+  return absl::InvalidArgumentError(
+      absl::StrCat("Invalid value: '", remainder, "'"));
+}
+
 // This function is used to parse a list of values from the remainder of an
 // assembly directive. The values are separated by commas. The type T is the
 // type of the values, and must be an integer type or char. The resolver
@@ -184,6 +192,8 @@ absl::StatusOr<std::vector<T>> GetValues(
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
+  auto left_status = CheckNothingLeft(remainder);
+  if (!left_status.ok()) return left_status;
   return values;
 }
 
@@ -201,6 +211,8 @@ absl::StatusOr<std::vector<char>> GetValues<char>(absl::string_view remainder,
           absl::StrCat("Invalid character: '", match, "'"));
     values.push_back(expanded[0]);
   }
+  auto left_status = CheckNothingLeft(remainder);
+  if (!left_status.ok()) return left_status;
   return values;
 }
 
@@ -214,6 +226,8 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
+  auto left_status = CheckNothingLeft(remainder);
+  if (!left_status.ok()) return left_status;
   return values;
 }
 
@@ -227,6 +241,8 @@ absl::StatusOr<std::vector<std::string>> GetLabels(
   while (RE2::Consume(&remainder, label_re, &match)) {
     values.push_back(match);
   }
+  auto left_status = CheckNothingLeft(remainder);
+  if (!left_status.ok()) return left_status;
   return values;
 }
 
-- 
2.43.0


From 73be8539330d1c9d02b3ca5cc4cb739659fab226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 071/183] fix: strings could not contain escaped quotes

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 77d013f..9cb3f0c 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -222,7 +222,7 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
     absl::string_view remainder, ResolverInterface* resolver) {
   std::vector<std::string> values;
   std::string match;
-  static RE2 value_re("\\s*\"([^\"]*)\"\\s*(?:,|$)");
+  static RE2 value_re("\\s*\"((?:[^\"\\\\]|\\\\.)*)\"\\s*(?:,|$)");
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
-- 
2.43.0


From 60457dc2dd5e1d7f8d2ba2f205d1771616c80a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 072/183] fix: no statement continued on the next line was
 accepted

The backslash and the newline were kept, and the latter is not matched by the
statement patterns.
---
 mpact/sim/util/asm/simple_assembler.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9cb3f0c..3f60bab 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -347,8 +347,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       // If there is an escaped newline then append the line, up to the  '\',
       // and continue.
       if ((len >= 1) && (tmp[len - 1] == '\\')) {
-        // Insert the escaped newline that getline removed.
-        absl::StrAppend(&line, tmp, "\n");
+        absl::StrAppend(&line, tmp.substr(0, len - 1));
         continue;
       }
       absl::StrAppend(&line, tmp);
-- 
2.43.0


From 9b7a70de106f03031319b18ad66ba4cb0d094af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 073/183] fix: the assembler leaked its resolver on errors

---
 mpact/sim/util/asm/simple_assembler.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 3f60bab..4c566a3 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -340,6 +340,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       std::string suffix;
       // Remove comments from the input line.
       if (!RE2::FullMatch(tmp, comment_re_, &prefix, &suffix)) {
+        cleanup();
         return absl::InternalError("Failed to parse comment");
       }
       tmp = absl::StrCat(prefix, suffix);
@@ -374,7 +375,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           status = ParseAsmStatement(line, address, zero_resolver, byte_vector,
                                      relo_vector);
         }
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
         // Save the statements for processing in pass two (labels are all
         // processed in pass one).
         lines_.push_back(statement);
@@ -387,7 +391,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         }
         auto status = AddSymbolToCurrentSection(label, symbol_address, 0,
                                                 ELFIO::STT_NOTYPE, 0, 0);
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
       }
       continue;
     }
-- 
2.43.0


From 3fe5360300bfdb93150693a5d407a4605958a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:27 +0000
Subject: [PATCH 074/183] fix: numbers in bin_fmt files were truncated at digit
 separators or threw when large

---
 mpact/sim/decoder/bin_format_visitor.cc | 46 ++++++++++++++++++++-----
 mpact/sim/decoder/bin_format_visitor.h  |  1 +
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..b7c30c0 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -15,12 +15,15 @@
 #include "mpact/sim/decoder/bin_format_visitor.h"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <deque>
 #include <filesystem>  // NOLINT: third party.
 #include <fstream>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <list>
 #include <memory>
 #include <string>
@@ -34,6 +37,7 @@
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
 #include "antlr4-runtime/ParserRuleContext.h"
 #include "mpact/sim/decoder/bin_decoder.h"
@@ -494,7 +498,7 @@ BinaryNum BinFormatVisitor::ParseBinaryNum(TerminalNode* node) {
     return BinaryNum{/*value=*/0, /*width=*/-1};
   }
   auto digits = bin_str.substr(2);
-  int64_t value = 0;
+  uint64_t value = 0;
   int width = 0;
   for (auto d : digits) {
     if (d == '\'') continue;
@@ -507,19 +511,45 @@ BinaryNum BinFormatVisitor::ParseBinaryNum(TerminalNode* node) {
     value |= d - '0';
     width++;
   }
-  return BinaryNum{value, width};
+  if (width > 64) {
+    error_listener_->semanticError(node->getSymbol(),
+                                   "Binary number is wider than 64 bits");
+    return BinaryNum{/*value=*/0, /*width=*/-1};
+  }
+  return BinaryNum{static_cast<int64_t>(value), width};
 }
 
 // Parse a number string and return the value.
-int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+int64_t BinFormatVisitor::ConvertToInt64(NumberCtx* ctx) {
   // Binary has to be handled separately.
   auto bin_number = ctx->BIN_NUMBER();
   if (bin_number != nullptr) {
-    return static_cast<int>(ParseBinaryNum(bin_number).value);
+    int64_t value = ParseBinaryNum(bin_number).value;
+    if (value < 0) {
+      error_listener_->semanticError(ctx->start, "Number is out of range");
+      return 0;
+    }
+    return value;
+  }
+  // Hex, octal and decimal, possibly with digit separators.
+  std::string text = absl::StrReplaceAll(ctx->getText(), {{"'", ""}});
+  errno = 0;
+  int64_t value = std::strtoll(text.c_str(), nullptr, 0);
+  if (errno == ERANGE) {
+    error_listener_->semanticError(ctx->start, "Number is out of range");
+    return 0;
+  }
+  return value;
+}
+
+// Parse a number string for a bit index, width, or count and return the value.
+int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+  int64_t value = ConvertToInt64(ctx);
+  if (value > std::numeric_limits<int>::max()) {
+    error_listener_->semanticError(ctx->start, "Number is out of range");
+    return 0;
   }
-  // Hex, octal and decimal.
-  int ret_val = std::stoi(ctx->getText(), nullptr, 0);
-  return ret_val;
+  return static_cast<int>(value);
 }
 
 std::unique_ptr<BinEncodingInfo> BinFormatVisitor::ProcessTopLevel(
@@ -1249,7 +1279,7 @@ void BinFormatVisitor::VisitConstraint(Format* format, FieldConstraintCtx* ctx,
         }
       }
     }
-    int value = ConvertToInt(ctx->number());
+    int64_t value = ConvertToInt64(ctx->number());
     if (constraint_type == ConstraintType::kEq) {
       status = inst_encoding->AddEqualConstraint(field_name, value);
     } else {
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index e1ba70f..7751059 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -118,6 +118,7 @@ class BinFormatVisitor {
   // Utility methods to parse certain nodes.
   BinaryNum ParseBinaryNum(TerminalNode* node);
   BitRange GetBitIndexRange(BitIndexRangeCtx* ctx);
+  int64_t ConvertToInt64(NumberCtx* ctx);
   int ConvertToInt(NumberCtx* ctx);
   // Methods that visit the nodes of the parse tree.
   std::unique_ptr<BinEncodingInfo> ProcessTopLevel(
-- 
2.43.0


From 188a400ace66ed4b678c7b42c14fbb8f34163cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:27 +0000
Subject: [PATCH 075/183] fix: decoders of groups without common bits declared
 a variable twice

---
 mpact/sim/decoder/instruction_group.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..6b4c44c 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -203,6 +203,9 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
   std::string top_level_decoder = absl::StrCat(signature, " {\n");
   std::string w_format_top_level_decoder =
       absl::StrCat(w_format_signature, " {\n");
+  // Multiple top level groups each assign to the same variable.
+  std::string opcode_decl = "auto opcode";
+  std::string opcode_format_decl = "auto opcode_format";
   std::string declarations =
       absl::StrCat("std::pair<", opcode_enum_, ", FormatEnum> Decode",
                    this->name(), "None(", format_->uint_type_name(), ");\n");
@@ -215,10 +218,12 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
+    absl::StrAppend(&top_level_decoder, "  ", opcode_decl, " = Decode", name,
                     "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    absl::StrAppend(&w_format_top_level_decoder, "  ", opcode_format_decl,
+                    " = Decode", name, "(inst_word);\n");
+    opcode_decl = "opcode";
+    opcode_format_decl = "opcode_format";
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 2b4e967ccba6f426d8074e9464bf3e915fb03b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:27 +0000
Subject: [PATCH 076/183] fix: constraints on fields and overlays of 31 bits or
 more were shifted out of an int

---
 mpact/sim/decoder/instruction_encoding.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..9648c35 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1LL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -181,9 +181,14 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  if (width >= 64) {
+    return absl::OutOfRangeError(
+        absl::StrCat("Overlay '", field_name,
+                     "' is too wide to create constraint - must be < 64 bits"));
+  }
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value >= (1LL << width)) || (value < 0)) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +199,22 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -(1LL << (width - 1));
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
+      value = value & ((1LL << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= (1LL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From 079cbabbf428bf73a0b6d830c4a9c22cf419638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:27 +0000
Subject: [PATCH 077/183] fix: the bits of wide overlays were shifted out of an
 int

---
 mpact/sim/decoder/encoding_group.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..24596d6 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -478,7 +478,7 @@ void EncodingGroup::ProcessConstraint(
   std::string name = absl::StrCat(overlay->name(), "_value");
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  auto result = overlay->GetBitField(~0ULL);
   if (result.ok()) {
     mask = result.value();
   } else {
-- 
2.43.0


From d8bf953b259999efc56e98e60acd032a0a526c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:02 +0000
Subject: [PATCH 078/183] fix: unbalanced braces in decoders of specialized
 instructions without further conditions

---
 mpact/sim/decoder/encoding_group.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 24596d6..0f78f56 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -580,11 +580,14 @@ int EncodingGroup::EmitEncodingIfStatement(
                   ", FormatEnum::k", ToPascalCase(encoding->format_name()),
                   ");\n");
   if (specialization) {
-    // Close the if statements.
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    // Close the if statements. The outer one is only there if there were any
+    // conditions.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    if (count > 0) {
+      indent_str = indent_str.substr(2);
+      absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    }
   }
   return count != 0 ? 1 : 0;
 }
-- 
2.43.0


From a1ff7613fd250c3138239da4f0a90a4b89b85d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:35 +0000
Subject: [PATCH 079/183] fix: specializations were lost in merged groups and
 their errors ignored

---
 mpact/sim/decoder/bin_format_visitor.cc | 65 +++++++++++++++++--------
 mpact/sim/decoder/bin_format_visitor.h  |  7 ++-
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index b7c30c0..f9cea11 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -223,6 +223,9 @@ absl::Status BinFormatVisitor::Process(
   }
   // Process specializations.
   ProcessSpecializations(encoding_info.get());
+  if (error_listener_->HasError() > 0) {
+    return absl::InternalError("Errors encountered - terminating.");
+  }
 
   // Create output streams for .h and .cc files.
   std::string dec_dot_h_name = absl::StrCat(prefix, "_bin_decoder.h");
@@ -1045,7 +1048,7 @@ void BinFormatVisitor::VisitInstructionDef(InstructionDefCtx* ctx,
   // for later processing when all the instructions have been processed.
   int file_index = context_file_map_.at(ctx);
   if (ctx->parent != nullptr) {
-    specializations_.push_back(ctx);
+    specializations_.push_back({ctx, inst_group});
     context_file_map_.insert({ctx, file_index});
     return;
   }
@@ -1481,6 +1484,7 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
   }
   auto parent_group = res.value();
   for (auto* child_group : child_groups) {
+    merged_groups_.emplace(child_group, parent_group);
     for (auto* encoding : child_group->encoding_vec()) {
       parent_group->AddInstructionEncoding(new InstructionEncoding(*encoding));
     }
@@ -1489,28 +1493,51 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
 }
 
 void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
-  for (auto* ctx : specializations_) {
+  for (auto& [ctx, group] : specializations_) {
     auto file_index = context_file_map_.at(ctx);
     std::string name = ctx->name->getText();
     std::string parent_name = ctx->parent->getText();
-    for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
-      auto iter = grp_ptr->encoding_name_map().find(parent_name);
-      if (iter != grp_ptr->encoding_name_map().end()) {
-        auto* parent_encoding = iter->second;
-        auto* format = parent_encoding->format();
-        auto* inst_encoding =
-            new InstructionEncoding(name, format, /*is_duplicate=*/false);
-        for (auto* constraint :
-             ctx->field_constraint_list()->field_constraint()) {
-          context_file_map_.insert({constraint, file_index});
-          VisitConstraint(format, constraint, inst_encoding);
-        }
-        if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding)
-                 .ok()) {
-          delete inst_encoding;
-          continue;
+    // Find the group that has the instruction being specialized. Prefer the one
+    // in which the specialization is declared.
+    InstructionGroup* parent_group = nullptr;
+    if (group->encoding_name_map().contains(parent_name)) {
+      parent_group = group;
+    } else {
+      for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
+        if (grp_ptr->encoding_name_map().contains(parent_name)) {
+          parent_group = grp_ptr;
+          break;
         }
-        break;
+      }
+    }
+    if (parent_group == nullptr) {
+      error_listener_->semanticError(
+          file_names_[file_index], ctx->start,
+          absl::StrCat("Instruction '", parent_name, "' specialized by '", name,
+                       "' not found"));
+      continue;
+    }
+    // The groups merged from that group have their own copies of it.
+    std::vector<InstructionGroup*> groups = {parent_group};
+    for (size_t i = 0; i < groups.size(); ++i) {
+      auto [begin, end] = merged_groups_.equal_range(groups[i]);
+      for (auto iter = begin; iter != end; ++iter) {
+        groups.push_back(iter->second);
+      }
+    }
+    for (auto* grp_ptr : groups) {
+      auto iter = grp_ptr->encoding_name_map().find(parent_name);
+      if (iter == grp_ptr->encoding_name_map().end()) continue;
+      auto* format = iter->second->format();
+      auto* inst_encoding =
+          new InstructionEncoding(name, format, /*is_duplicate=*/false);
+      for (auto* constraint :
+           ctx->field_constraint_list()->field_constraint()) {
+        context_file_map_.insert({constraint, file_index});
+        VisitConstraint(format, constraint, inst_encoding);
+      }
+      if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding).ok()) {
+        delete inst_encoding;
       }
     }
   }
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index 7751059..d4d7656 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <deque>
 #include <list>
+#include <map>
 #include <memory>
 #include <string>
 #include <tuple>
@@ -185,7 +186,11 @@ class BinFormatVisitor {
   // Set of include files marked as once.
   absl::flat_hash_set<std::string> once_include_files_;
   // Specializations to process after all instructions have been processed.
-  std::vector<InstructionDefCtx*> specializations_;
+  // Specializations and the groups in which they are declared.
+  std::vector<std::pair<InstructionDefCtx*, InstructionGroup*>>
+      specializations_;
+  // Maps from groups to the groups that were merged from them.
+  std::multimap<InstructionGroup*, InstructionGroup*> merged_groups_;
 };
 
 }  // namespace bin_format
-- 
2.43.0


From dee8ab0fd69cea3d7c10f624a189aee79744954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:24 +0000
Subject: [PATCH 080/183] fix: decoders used fields of another format that have
 the same name

---
 mpact/sim/decoder/encoding_group.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 0f78f56..91039aa 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -415,11 +415,21 @@ void EncodingGroup::EmitComplexDecoderBody(
   absl::StrAppend(definitions_ptr, "  switch (index) {\n");
   // For each index value, generate the 'case' statement.
   for (auto& [index_value, encodings] : encoding_map) {
-    absl::flat_hash_set<std::string> extracted;
     absl::StrAppend(definitions_ptr, "    case 0x", absl::Hex(index_value),
                     ": {\n");
     int if_count = 0;
+    absl::flat_hash_set<std::string> extracted;
+    const Format* format = nullptr;
     for (auto* encoding : encodings) {
+      // Values with the same name may be elsewhere in another format, so use a
+      // separate scope for each format.
+      if (encoding->format() != format) {
+        if (format != nullptr) {
+          absl::StrAppend(definitions_ptr, "    } {\n");
+          extracted.clear();
+        }
+        format = encoding->format();
+      }
       for (auto* constraint : encoding->equal_constraints()) {
         ProcessConstraint(extracted, constraint, definitions_ptr);
       }
@@ -440,15 +450,24 @@ void EncodingGroup::EmitComplexDecoderBodyIfSequence(
   // to see if the instruction is matched.
   absl::flat_hash_set<std::string> extracted;
   int count = 0;
+  const Format* format = nullptr;
   // For equal constraints, some can be ignored because those bits are
   // wholly considered by the parent groups or the discriminator.
   for (auto* encoding : encoding_vec_) {
+    // Values with the same name may be elsewhere in another format, so use a
+    // separate scope for each format.
+    if (encoding->format() != format) {
+      absl::StrAppend(definitions_ptr, format == nullptr ? "  {\n" : "  } {\n");
+      extracted.clear();
+      format = encoding->format();
+    }
     for (auto* constraint : encoding->equal_constraints()) {
       ProcessConstraint(extracted, constraint, definitions_ptr);
     }
     count += EmitEncodingIfStatement(/*indent*/ 0, encoding, opcode_enum,
                                      extracted, definitions_ptr);
   }
+  if (format != nullptr) absl::StrAppend(definitions_ptr, "  }\n");
   if (count > 0) {
     absl::StrAppend(definitions_ptr, "  return std::make_pair(", opcode_enum,
                     "::kNone, FormatEnum::kNone);\n");
-- 
2.43.0


From cc835de7abf0b71132e29a09640a9da4e0b92c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:46 +0000
Subject: [PATCH 081/183] fix: the bits of wide overlays were shifted out of
 the type of their values

---
 mpact/sim/decoder/overlay.cc | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..d3e9915 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,20 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask of the given number of bits (up to 64).
+uint64_t BitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+// Shift that returns 0 when all the bits are shifted out.
+uint64_t ShiftLeft(uint64_t value, int shift) {
+  return shift >= 64 ? 0 : value << shift;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +173,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= ShiftLeft(BitMask(component->width()), component->low());
     }
     position -= component->width();
   }
@@ -180,9 +194,9 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       // If value == 0, nothing to or in - it just takes space.
       if (bin_num.value == 0) continue;
       int shift = component->position() - bin_num.width + 1;
-      value |= bin_num.value << shift;
+      value |= ShiftLeft(bin_num.value, shift);
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = ShiftLeft(BitMask(component->width()), component->low());
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,10 +211,10 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
     int shift = component->position() - component->width() + 1;
-    uint64_t bits = ((input >> shift) & mask);
-    bitfield |= bits << component->low();
+    if (shift >= 64) continue;
+    uint64_t bits = ((input >> shift) & BitMask(component->width()));
+    bitfield |= ShiftLeft(bits, component->low());
   }
   return bitfield;
 }
@@ -233,17 +247,21 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      absl::StrAppend(&output, "  ", result, assign, bin_num.value,
+                      shift + bin_num.width > 31 ? "ULL" : "");
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
-      absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
-                      absl::Hex(mask), ")");
+      uint64_t mask = ShiftLeft(BitMask(component->width()), component->low());
       int diff = component->high() - component->position();
+      // Don't shift bits out of the type of the value.
+      bool widen = (diff < 0) && (component->position() >= 31);
+      absl::StrAppend(&output, "  ", result, assign,
+                      widen ? "static_cast<uint64_t>" : "", "(", value, " & 0x",
+                      absl::Hex(mask), ")");
       if (diff < 0) {
         absl::StrAppend(&output, " << ", -diff);
       } else if (diff > 0) {
@@ -253,6 +271,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // If there is nothing but zeros, the result is zero.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From ed1666a8f7d619d88c9aa4f196920809f29cc58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 082/183] fix: specializations with errors made decoders that
 do not compile

---
 mpact/sim/decoder/bin_format_visitor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index f9cea11..6f396b5 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -223,9 +223,6 @@ absl::Status BinFormatVisitor::Process(
   }
   // Process specializations.
   ProcessSpecializations(encoding_info.get());
-  if (error_listener_->HasError() > 0) {
-    return absl::InternalError("Errors encountered - terminating.");
-  }
 
   // Create output streams for .h and .cc files.
   std::string dec_dot_h_name = absl::StrCat(prefix, "_bin_decoder.h");
@@ -1529,6 +1526,7 @@ void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
       auto iter = grp_ptr->encoding_name_map().find(parent_name);
       if (iter == grp_ptr->encoding_name_map().end()) continue;
       auto* format = iter->second->format();
+      int errors = error_listener_->semantic_error_count();
       auto* inst_encoding =
           new InstructionEncoding(name, format, /*is_duplicate=*/false);
       for (auto* constraint :
@@ -1536,7 +1534,9 @@ void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
         context_file_map_.insert({constraint, file_index});
         VisitConstraint(format, constraint, inst_encoding);
       }
-      if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding).ok()) {
+      // Leave out specializations that have errors.
+      if ((error_listener_->semantic_error_count() != errors) ||
+          !grp_ptr->AddSpecialization(name, parent_name, inst_encoding).ok()) {
         delete inst_encoding;
       }
     }
-- 
2.43.0


From da2a70d8f64a20a743561fdb12fc426368ad63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:56 +0000
Subject: [PATCH 083/183] fix: extractors of same-named fields at different
 places were promoted to base formats

---
 mpact/sim/decoder/format.cc  | 69 ++++++++++++++++++++++--------------
 mpact/sim/decoder/format.h   |  3 ++
 mpact/sim/decoder/overlay.cc | 20 ++++-------
 3 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..d4f935d 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -48,10 +48,13 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
-    if (high_ != rhs.high_) return false;
-    if (size_ != rhs.size_) return false;
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
   } else {
     if (format_ != rhs.format_) return false;
+    if (high_ != rhs.high_) return false;
+    if (size_ != rhs.size_) return false;
   }
   return true;
 }
@@ -247,9 +250,6 @@ void Format::PropagateExtractorsUp() {
   if (base_format_ != nullptr) {
     // Try to propagate extractors up the inheritance tree.
     for (auto const& [name, field_or_format_ptr] : extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (field_or_format_ptr == nullptr) continue;
       auto iter = base_format_->extractors_.find(name);
       // If it isn't in the parent, add it.
       if (iter == base_format_->extractors_.end()) {
@@ -258,16 +258,17 @@ void Format::PropagateExtractorsUp() {
       } else if (iter->second == nullptr) {
         // Can't promote it, a previous attempt failed.
         continue;
-      } else if (*field_or_format_ptr != *(iter->second)) {
-        // If the base extractor refers to a different object, fail the
-        // promotion.
+      } else if (base_format_->IsOwnExtractor(iter->second)) {
+        // The base format keeps the extractors for its own fields.
+        continue;
+      } else if ((field_or_format_ptr == nullptr) ||
+                 (*field_or_format_ptr != *(iter->second))) {
+        // If the extractor couldn't be promoted to this format, or the base
+        // extractor refers to a different object, fail the promotion.
         base_format_->extractors_[name] = nullptr;
       }
     }
     for (auto const& [name, overlay_ptr] : overlay_extractors_) {
-      // Ignore those that have a nullptr, they have already failed to be
-      // promoted.
-      if (overlay_ptr == nullptr) continue;
       auto iter = base_format_->overlay_extractors_.find(name);
       // If it isn't in the parent, add it.
       if (iter == base_format_->overlay_extractors_.end()) {
@@ -276,9 +277,14 @@ void Format::PropagateExtractorsUp() {
       } else if (iter->second == nullptr) {
         // Previous attempt fail, don't promote.
         continue;
-      } else if (*overlay_ptr != *(iter->second)) {
-        // If the base format extractor refers to a different overlay type,
-        // fail the promotion.
+      } else if (base_format_->IsOwnOverlayExtractor(iter->second)) {
+        // The base format keeps the extractors for its own overlays.
+        continue;
+      } else if ((overlay_ptr == nullptr) ||
+                 (*overlay_ptr != *(iter->second))) {
+        // If the extractor couldn't be promoted to this format, or the base
+        // format extractor refers to a different overlay type, fail the
+        // promotion.
         base_format_->overlay_extractors_[name] = nullptr;
       }
     }
@@ -295,16 +301,19 @@ void Format::PropagateExtractorsDown() {
   auto e_iter = extractors_.begin();
   while (e_iter != extractors_.end()) {
     auto cur = e_iter++;
-    // Failed promotion from derived format extractors.
-    if (cur->second == nullptr) {
-      extractors_.erase(cur);
+    // If the name exists in overlay extractors, only keep the one that is the
+    // format's own.
+    auto overlay_iter = overlay_extractors_.find(cur->first);
+    if (overlay_iter != overlay_extractors_.end()) {
+      if (!IsOwnOverlayExtractor(overlay_iter->second)) {
+        overlay_extractors_.erase(overlay_iter);
+      }
+      if (!IsOwnExtractor(cur->second)) extractors_.erase(cur);
       continue;
     }
-    // If the name exists in overlay extractors, erase both.
-    if (overlay_extractors_.find(cur->first) != overlay_extractors_.end()) {
-      overlay_extractors_.erase(cur->first);
+    // Failed promotion from derived format extractors.
+    if (cur->second == nullptr) {
       extractors_.erase(cur);
-      continue;
     }
   }
   // Remove the overlay extractor entries with null ptrs.
@@ -316,18 +325,24 @@ void Format::PropagateExtractorsDown() {
       overlay_extractors_.erase(cur);
       continue;
     }
-    // If the name exists in overlay extractors, erase both.
-    if (extractors_.find(cur->first) != extractors_.end()) {
-      extractors_.erase(cur->first);
-      overlay_extractors_.erase(cur);
-      continue;
-    }
   }
   for (auto* fmt : derived_formats_) {
     fmt->PropagateExtractorsDown();
   }
 }
 
+// Returns true if the extractor is for a field or format of this format, as
+// opposed to one that was promoted from a derived format.
+bool Format::IsOwnExtractor(const FieldOrFormat* field_or_format) const {
+  return std::find(field_vec_.begin(), field_vec_.end(), field_or_format) !=
+         field_vec_.end();
+}
+
+// Returns true if the extractor is for an overlay of this format.
+bool Format::IsOwnOverlayExtractor(const Overlay* overlay) const {
+  return (overlay != nullptr) && (GetOverlay(overlay->name()) == overlay);
+}
+
 // Returns true if the current format, or a base format, contains an
 // extractor for field 'name'.
 bool Format::HasExtract(const std::string& name) const {
diff --git a/mpact/sim/decoder/format.h b/mpact/sim/decoder/format.h
index 36081f5..5222130 100644
--- a/mpact/sim/decoder/format.h
+++ b/mpact/sim/decoder/format.h
@@ -204,6 +204,9 @@ class Format {
                                            const Format* format,
                                            int high) const;
   std::string GenerateOverlayInserter(Overlay* overlay) const;
+  // Return true if the extractor isn't promoted from a derived format.
+  bool IsOwnExtractor(const FieldOrFormat* field_or_format) const;
+  bool IsOwnOverlayExtractor(const Overlay* overlay) const;
   // Return string representation of the int type that contains bitwidth bits.
   std::string GetIntType(int bitwidth) const;
   std::string GetUIntType(int bitwidth) const;
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index d3e9915..b258089 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -220,13 +220,10 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
 }
 
 bool Overlay::operator==(const Overlay& rhs) const {
-  if (declared_width_ > 64) {
-    return WriteComplexValueExtractor("value", "result", "") ==
-           rhs.WriteComplexValueExtractor("value", "result", "");
-  } else {
-    return WriteSimpleValueExtractor("value", "result") ==
-           rhs.WriteSimpleValueExtractor("value", "result");
-  }
+  if (is_signed_ != rhs.is_signed_) return false;
+  if (declared_width_ != rhs.declared_width_) return false;
+  return WriteComplexValueExtractor("value", "result", "") ==
+         rhs.WriteComplexValueExtractor("value", "result", "");
 }
 
 bool Overlay::operator!=(const Overlay& rhs) const { return !(*this == rhs); }
@@ -359,12 +356,9 @@ std::string Overlay::WriteComplexValueExtractor(
       absl::StrAppend(&output, "  ", result, assign, "ExtractBits<",
                       return_type, ">(", value, ", ", component->high(), ", ",
                       component->width(), ")");
-      if (component->low() > 0) {
-        int shift = component->position() - component->width() + 1;
-        if (shift > 0) {
-          absl::StrAppend(&output, " << ",
-                          component->position() - component->width() + 1);
-        }
+      int shift = component->position() - component->width() + 1;
+      if (shift > 0) {
+        absl::StrAppend(&output, " << ", shift);
       }
       absl::StrAppend(&output, ";\n");
     }
-- 
2.43.0


From 145f54a366f3b405d574a34e683bc0c719282b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:50 +0000
Subject: [PATCH 084/183] fix: extractors of wide fields did not compile, lost
 bits, or were not sign-extended

---
 mpact/sim/decoder/bin_format_visitor.cc |  2 +-
 mpact/sim/decoder/format.cc             | 78 +++++++++++++++----------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 6f396b5..bc7af88 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -82,7 +82,7 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   while (bits_left > 0) {
     int bwidth = std::min(8 - blsb, bits_left);
     uint8_t bmask = ((1 << bwidth) - 1) << blsb;
-    val |= ((data[byte_low] & bmask) >> blsb) << bits_extracted;
+    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
     blsb = 0;
     bits_left -= bwidth;
     bits_extracted += bwidth;
diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index d4f935d..7cc10e0 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -35,6 +35,22 @@ namespace bin_format {
 
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask of the given number of bits (up to 64).
+uint64_t BitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+// Return the code that sets the (already declared) absl::uint128 variable
+// 'mask' to a mask of the given number of bits.
+std::string SetUInt128Mask(int width) {
+  if (width >= 128) return "  mask = absl::Uint128Max();\n";
+  return absl::StrCat("  mask = (mask << ", width, ") - 1;\n");
+}
+
+}  // namespace
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -397,6 +413,13 @@ std::string Format::GeneratePackedStructFieldExtractor(
 // format.
 std::string Format::GenerateFieldExtractor(const Field* field) const {
   std::string h_output;
+  // An extraction can only be for 128 bits or less.
+  if (field->width > 128) {
+    encoding_info_->error_listener()->semanticError(
+        nullptr, absl::StrCat("Cannot generate an extractor for field '",
+                              field->name, "': it is wider than 128 bits"));
+    return "";
+  }
   int return_width = GetIntTypeBitWidth(field->width);
   std::string result_type_name =
       field->is_signed ? GetIntType(return_width) : GetUIntType(return_width);
@@ -407,61 +430,54 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
 
   absl::StrAppend(&h_output, "inline ", signature, " {\n");
 
+  // The expression that extracts the bits from a byte array.
+  int byte_size = (declared_width_ + 7) / 8;
+  std::string bytes_expr = absl::StrCat(
+      "internal::ExtractBits<", GetUIntType(return_width), ">(value, ",
+      byte_size, ", ", field->high, ", ", field->width, ")");
+  // The return statement, with sign-extension if the field is signed.
+  auto return_statement = [&](absl::string_view expr) -> std::string {
+    if (!field->is_signed) return absl::StrCat("  return ", expr, ";\n");
+    int shift = return_width - field->width;
+    return absl::StrCat("  ", result_type_name, " result = static_cast<",
+                        result_type_name, ">((", expr, ") << ", shift,
+                        ");\n  return result >> ", shift, ";\n");
+  };
+
   // Generate extraction function. For fields it's a simple shift and mask if
   // the source format width <= 64 bits. Slightly more involved with format
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = BitMask(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
       expr = absl::StrCat(" (value >> ", field->low, ") & 0x", absl::Hex(mask));
     }
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask = 1;\n",
+                    SetUInt128Mask(field->width));
     if (field->low == 0) {
       expr = absl::StrCat("value & mask");
     } else {
       expr = absl::StrCat(" (value >> ", field->low, ") & mask");
     }
+    if (return_width <= 64) {
+      expr = absl::StrCat("absl::Uint128Low64(", expr, ")");
+    }
   } else {
     // For format width > 128 bits, use the templated extract helper function.
-    int byte_size = (declared_width_ + 7) / 8;
-    expr = absl::StrCat("internal::ExtractBits<", result_type_name, ">(value, ",
-                        byte_size, ", ", field->high, ", ", field->width, ")");
-  }
-
-  // Add sign-extension if the field is signed.
-  std::string sign_extension;
-  if (field->is_signed) {
-    int shift = return_width - field->width;
-    sign_extension =
-        absl::StrCat("  ", result_type_name, " result = (", expr, ") << ",
-                     shift, ";\n  result = result >> ", shift, ";\n");
-    expr = "result";
-  }
-  if (declared_width_ <= 64) {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
-  } else if ((declared_width_ <= 128) && (return_width <= 64)) {
-    absl::StrAppend(&h_output, sign_extension, "  return absl::Uint128Low64(",
-                    expr, ");\n}\n\n");
-  } else {
-    absl::StrAppend(&h_output, sign_extension, "  return ", expr, ";\n}\n\n");
+    expr = bytes_expr;
   }
+  absl::StrAppend(&h_output, return_statement(expr), "}\n\n");
   // If the parent format size is not a power of two, also create an extractor
   // that takes a uint8_t * parameter.
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
-                    ToPascalCase(field->name), "(const uint8_t *value) {\n");
-    int byte_size = (declared_width_ + 7) / 8;
-    absl::StrAppend(&h_output, "  return internal::ExtractBits<",
-                    result_type_name, ">(value, ", byte_size, ", ", field->high,
-                    ", ", field->width, ");\n}\n\n");
+                    ToPascalCase(field->name), "(const uint8_t *value) {\n",
+                    return_statement(bytes_expr), "}\n\n");
   }
   return h_output;
 }
-- 
2.43.0


From 9a2991ab2b58006ce5e79fd8ec33540a05e361dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:50 +0000
Subject: [PATCH 085/183] fix: inserters of fields in formats of more than 64
 bits misplaced the value or did not compile

---
 mpact/sim/decoder/bin_format_visitor.cc |  4 ++--
 mpact/sim/decoder/format.cc             | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index bc7af88..d3fae68 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -112,8 +112,8 @@ static inline void InsertBits(uint8_t *data, int data_size, int msb, int width,
   int blsb = lsb & 0x7;
   while (width > 0) {
     int bwidth = std::min(8 - blsb, width);
-    T bmask = (1 << bwidth) - 1;
-    uint8_t bval = (val & bmask);
+    uint8_t bmask = (1 << bwidth) - 1;
+    uint8_t bval = static_cast<uint8_t>(val) & bmask;
     bmask <<= blsb;
     bval <<= blsb;
     val >>= bwidth;
diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 7cc10e0..6f7c664 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -530,7 +530,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = BitMask(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -542,12 +542,13 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                     "  return inst_word;\n"
                     "}\n");
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    field->width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask = 1;\n",
+                    SetUInt128Mask(field->width));
     if (field->low != 0) {
-      absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
+      absl::StrAppend(&h_output, "  mask = mask << ", field->low,
+                      ";\n"
+                      "  value = value << ",
+                      field->low, ";\n");
     }
     absl::StrAppend(&h_output,
                     "  inst_word = (inst_word & ~mask) | (value & mask);\n"
-- 
2.43.0


From 0e315f8cc9e20d515d289718d7efb315d4134264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:50 +0000
Subject: [PATCH 086/183] fix: extractors and inserters of replicated formats
 used other bits

---
 mpact/sim/decoder/format.cc | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 6f7c664..62b2aee 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -724,20 +724,18 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = BitMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
+                    "  return (inst_word & ~(0x",
                     absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
     absl::StrAppend(
         &h_output, "  int low = ", low, " - (index * ", width,
         ");\n"
-        "  absl::uint128 mask = 1;\n"
-        "  mask = (mask << ",
-        width,
-        ") - 1;\n"
+        "  absl::uint128 mask = 1;\n",
+        SetUInt128Mask(width),
         "  mask <<= low;\n"
         "  return (inst_word & ~mask) | (value << low) & mask;\n}\n");
   } else {
@@ -780,15 +778,13 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = BitMask(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
   } else if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output,
-                    "  absl::uint128 mask = 1;\n"
-                    "  mask = (mask << ",
-                    width, ") - 1;\n");
+    absl::StrAppend(&h_output, "  absl::uint128 mask = 1;\n",
+                    SetUInt128Mask(width));
     if (low > 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", low, ";\n");
     }
@@ -870,20 +866,17 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      shift = absl::StrCat("(", low, " - index * ", width, ")");
     } else {
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
-      expr =
-          absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
+      uint64_t mask = BitMask(width);
+      expr = absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask));
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
-      absl::StrAppend(&h_output,
-                      "  absl::uint128 mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+      absl::StrAppend(&h_output, "  absl::uint128 mask = 1;\n",
+                      SetUInt128Mask(width));
       expr = absl::StrCat("(value >> ", shift, ") & mask");
       if (width <= 64) {
         absl::StrAppend(&h_output, "  return absl::Uint128Low64(", expr,
@@ -908,7 +901,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From b1f2a6c7e448853db7fc0579eb66c347f3b4a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:43 +0000
Subject: [PATCH 087/183] fix: overlays in formats of more than 64 bits did not
 compile, and inserting overlays kept old bits

---
 mpact/sim/decoder/bin_format_visitor.cc |  9 +++
 mpact/sim/decoder/format.cc             | 80 +++++++++++++------------
 mpact/sim/decoder/overlay.cc            |  9 ++-
 3 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index d3fae68..5a18de7 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -91,6 +91,14 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   return val;
 }
 
+// This function extracts a bitfield width bits wide from value. The lsb has
+// index 0.
+template <typename T>
+static inline T ExtractBits(absl::uint128 value, int msb, int width) {
+  absl::uint128 mask = absl::Uint128Max() >> (128 - width);
+  return static_cast<T>((value >> (msb - width + 1)) & mask);
+}
+
 }  // namespace internal
 
 )foo";
@@ -297,6 +305,7 @@ BinFormatVisitor::StringTriple BinFormatVisitor::EmitDecoderFilePrefix(
                   "\n"
                   "#include \"absl/functional/any_invocable.h\"\n"
                   "#include \"absl/log/log.h\"\n"
+                  "#include \"absl/numeric/int128.h\"\n"
                   "#include \"",
                   types_dot_h_name,
                   "\"\n"
diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 62b2aee..f38fa19 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -579,7 +579,9 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   std::string result_type_name = GetUIntType(computed_width_);
   std::string overlay_type_name;
   if (computed_width_ <= 128) {
-    overlay_type_name = result_type_name;
+    // The overlay may have constant bits that make it wider than the format.
+    overlay_type_name =
+        GetUIntType(std::max(computed_width_, overlay->declared_width()));
   } else {
     overlay_type_name = GetUIntType(overlay->declared_width());
   }
@@ -598,19 +600,11 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   bool use_mask_variable = false;
   int remaining = overlay->declared_width();
   int byte_size = (declared_width_ + 7) / 8;
-  if (declared_width_ <= 128) {
-    absl::StrAppend(&h_output, "  ", result_type_name, " tmp;\n");
-    // Track the leftmost bit in the overlay.
-    if (declared_width_ > 64) {
-      absl::StrAppend(&h_output, "  absl::uint128 mask;\n");
-      use_mask_variable = true;
-    }
-  } else {
-    absl::StrAppend(&h_output, "  ", overlay_type_name, " tmp;\n");
-    if (overlay->declared_width() > 64) {
-      absl::StrAppend(&h_output, "  absl::uint128 mask;\n");
-      use_mask_variable = true;
-    }
+  absl::StrAppend(&h_output, "  ", overlay_type_name, " tmp;\n");
+  if ((overlay->declared_width() > 64) ||
+      ((declared_width_ > 64) && (declared_width_ <= 128))) {
+    absl::StrAppend(&h_output, "  absl::uint128 mask;\n");
+    use_mask_variable = true;
   }
   for (auto& bits_or_field : overlay->component_vec()) {
     int width = bits_or_field->width();
@@ -624,13 +618,10 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" >> ", remaining - width);
     }
     if (use_mask_variable) {
-      absl::StrAppend(&h_output,
-                      "  mask = 1;\n"
-                      "  mask = (mask << ",
-                      width, ") - 1;\n");
+      absl::StrAppend(&h_output, "  mask = 1;\n", SetUInt128Mask(width));
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = BitMask(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -639,8 +630,14 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
     if (bits_or_field->low() != 0) {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
-    if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+    if (declared_width_ <= 64) {
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~0x",
+                      absl::Hex(BitMask(width) << bits_or_field->low()),
+                      "ULL) | ", use_mask_variable ? "absl::Uint128Low64" : "",
+                      "(tmp ", shift, ");\n");
+    } else if (declared_width_ <= 128) {
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~(mask ", shift,
+                      ")) | (tmp ", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
@@ -949,45 +946,52 @@ std::string Format::GeneratePackedStructOverlayExtractor(
 // Generates the C++ code for the overlay extractors in the current format.
 std::string Format::GenerateOverlayExtractor(Overlay* overlay) const {
   std::string h_output;
+  // An extraction can only be for 128 bits or less.
+  if (overlay->declared_width() > 128) {
+    encoding_info_->error_listener()->semanticError(
+        nullptr, absl::StrCat("Cannot generate an extractor for overlay '",
+                              overlay->name(), "': it is wider than 128 bits"));
+    return "";
+  }
 
   std::string return_type = overlay->is_signed()
                                 ? GetIntType(overlay->declared_width())
                                 : GetUIntType(overlay->declared_width());
 
   std::string arg_type = GetUIntType(declared_width_);
+  if (declared_width_ > 128) arg_type = absl::StrCat("const ", arg_type);
   std::string signature =
       absl::StrCat("inline ", return_type, " Extract",
                    ToPascalCase(overlay->name()), "(", arg_type, " value)");
 
-  // Generate definition.
+  // Generate definition. Use an unsigned type until the value is complete.
+  std::string result_type = GetUIntType(overlay->declared_width());
   absl::StrAppend(&h_output, signature,
                   " {\n"
                   "  ",
-                  return_type, " result;\n");
-  if (declared_width_ <= 64) {
+                  result_type, " result;\n");
+  if ((declared_width_ <= 64) && (overlay->declared_width() <= 64)) {
     absl::StrAppend(&h_output,
                     overlay->WriteSimpleValueExtractor("value", "result"));
   } else {
-    absl::StrAppend(&h_output, overlay->WriteComplexValueExtractor(
-                                   "value", "result", return_type));
+    // Formats that aren't stored in a byte array are extracted from a uint128.
+    std::string value = "absl::uint128(value)";
+    if (declared_width_ > 128) {
+      value = absl::StrCat("value, ", (declared_width_ + 7) / 8);
+    }
+    absl::StrAppend(
+        &h_output, "  using internal::ExtractBits;\n",
+        overlay->WriteComplexValueExtractor(value, "result", result_type));
   }
   if (overlay->is_signed()) {
     int shift = GetIntTypeBitWidth(overlay->declared_width()) -
                 overlay->declared_width();
-    absl::StrAppend(&h_output, "  result = result << ", shift,
-                    ";\n"
-                    "  result = result >> ",
-                    shift, ";\n");
-  }
-  if ((declared_width_ > 64) && (overlay->declared_width() <= 64)) {
-    absl::StrAppend(&h_output,
-                    "  return UInt128Low64(result();\n"
-                    "}\n\n");
+    absl::StrAppend(&h_output, "  return static_cast<", return_type,
+                    ">(result << ", shift, ") >> ", shift, ";\n");
   } else {
-    absl::StrAppend(&h_output,
-                    "  return result;\n"
-                    "}\n\n");
+    absl::StrAppend(&h_output, "  return result;\n");
   }
+  absl::StrAppend(&h_output, "}\n\n");
   return h_output;
 }
 
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index b258089..32d7705 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -347,7 +347,12 @@ std::string Overlay::WriteComplexValueExtractor(
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      if (shift + bin_num.width > 31) {
+        absl::StrAppend(&output, "  ", result, assign, "static_cast<",
+                        return_type, ">(", bin_num.value, "ULL)");
+      } else {
+        absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      }
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
@@ -364,6 +369,8 @@ std::string Overlay::WriteComplexValueExtractor(
     }
     assign = " |= ";
   }
+  // If there is nothing but zeros, the result is zero.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From b30e81f245d9f03874841a99a3a7c5faf924e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:38 +0000
Subject: [PATCH 088/183] fix: overlays of packed structs used the wrong bits,
 and packed extractors did not compile

---
 mpact/sim/decoder/format.cc  | 89 ++++++++++++++++++++++++++----------
 mpact/sim/decoder/format.h   |  1 +
 mpact/sim/decoder/overlay.cc | 65 ++++++++++++++++----------
 mpact/sim/decoder/overlay.h  |  2 +
 4 files changed, 109 insertions(+), 48 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index f38fa19..767efeb 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -327,8 +327,10 @@ void Format::PropagateExtractorsDown() {
       if (!IsOwnExtractor(cur->second)) extractors_.erase(cur);
       continue;
     }
-    // Failed promotion from derived format extractors.
-    if (cur->second == nullptr) {
+    // Failed promotion from derived format extractors. The extractors of a
+    // packed struct only work on the fields in the struct.
+    if ((cur->second == nullptr) || ((layout() == Layout::kPackedStruct) &&
+                                     !IsOwnExtractor(cur->second))) {
       extractors_.erase(cur);
     }
   }
@@ -337,7 +339,8 @@ void Format::PropagateExtractorsDown() {
   while (o_iter != overlay_extractors_.end()) {
     auto cur = o_iter++;
     // Failed promotion from derived format extractors.
-    if (cur->second == nullptr) {
+    if ((cur->second == nullptr) || ((layout() == Layout::kPackedStruct) &&
+                                     !IsOwnOverlayExtractor(cur->second))) {
       overlay_extractors_.erase(cur);
       continue;
     }
@@ -387,10 +390,11 @@ std::string Format::GeneratePackedStructFieldExtractor(
     const Field* field) const {
   std::string h_output;
   int width = field->width;
-  std::string return_type = GetUIntType(width);
+  std::string return_type =
+      field->is_signed ? GetIntType(width) : GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(field->name), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
@@ -650,6 +654,30 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   return h_output;
 }
 
+std::string Format::GeneratePackedStructOverlayInserter(
+    Overlay* overlay) const {
+  // If the format is passed as an integer, its bits are in the same places
+  // regardless of the layout.
+  if (declared_width_ <= 64) return GenerateOverlayInserter(overlay);
+  std::string h_output;
+  absl::StrAppend(&h_output, "static inline uint8_t * Insert",
+                  ToPascalCase(overlay->name()), "(",
+                  GetUIntType(overlay->declared_width()),
+                  " value, uint8_t * inst_word) {\n");
+  if (overlay->declared_width() > 128) {
+    absl::StrAppend(&h_output,
+                    "  LOG(FATAL) << \" Support for overlays > 128 bits "
+                    "not implemented - "
+                    "yet.\";\n"
+                    "  return 0;\n}\n");
+    return h_output;
+  }
+  absl::StrAppend(&h_output,
+                  overlay->WritePackedStructValueInserter("value", "inst_word"),
+                  "  return inst_word;\n}\n");
+  return h_output;
+}
+
 std::string Format::GeneratePackedStructFormatInserter(
     std::string_view format_alias, const Format* format, int high,
     int size) const {
@@ -805,7 +833,7 @@ std::string Format::GeneratePackedStructFormatExtractor(
   std::string return_type = GetUIntType(width);
   std::string signature = absl::StrCat("inline ", return_type, " Extract",
                                        ToPascalCase(format_alias), "(");
-  if (declared_width_ < 64) {
+  if (declared_width_ <= 64) {
     absl::StrAppend(&signature, GetUIntType(declared_width_), " value) {\n");
   } else {
     absl::StrAppend(&signature, "const uint8_t *value) {\n");
@@ -914,32 +942,37 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
 
 std::string Format::GeneratePackedStructOverlayExtractor(
     Overlay* overlay) const {
+  // If the format is passed as an integer, its bits are in the same places
+  // regardless of the layout.
+  if (declared_width_ <= 64) return GenerateOverlayExtractor(overlay);
   std::string h_output;
-  std::string arg_type;
-  if (declared_width_ > 128) {
-    arg_type = "const uint8_t *";
-  } else {
-    arg_type = GetUIntType(declared_width_);
+  // An extraction can only be for 128 bits or less.
+  if (overlay->declared_width() > 128) {
+    encoding_info_->error_listener()->semanticError(
+        nullptr, absl::StrCat("Cannot generate an extractor for overlay '",
+                              overlay->name(), "': it is wider than 128 bits"));
+    return "";
   }
+  std::string arg_type = "const uint8_t *";
   std::string return_type = overlay->is_signed()
                                 ? GetIntType(overlay->declared_width())
                                 : GetUIntType(overlay->declared_width());
+  // Use an unsigned type until the value is complete.
+  std::string result_type = GetUIntType(overlay->declared_width());
   std::string signature =
       absl::StrCat("inline ", return_type, " Extract",
                    ToPascalCase(overlay->name()), "(", arg_type, " value)");
-  absl::StrAppend(&h_output, signature, " {\n  ", return_type, " result;\n",
+  absl::StrAppend(&h_output, signature, " {\n  ", result_type, " result;\n",
                   overlay->WritePackedStructValueExtractor("value", "result"));
   if (overlay->is_signed()) {
     int shift = GetIntTypeBitWidth(overlay->declared_width()) -
                 overlay->declared_width();
-    absl::StrAppend(&h_output, "  result = result << ", shift,
-                    ";\n"
-                    "  result = result >> ",
-                    shift, ";\n");
+    absl::StrAppend(&h_output, "  return static_cast<", return_type,
+                    ">(result << ", shift, ") >> ", shift, ";\n");
+  } else {
+    absl::StrAppend(&h_output, "  return result;\n");
   }
-  absl::StrAppend(&h_output,
-                  "  return result;\n"
-                  "}\n\n");
+  absl::StrAppend(&h_output, "}\n\n");
   return h_output;
 }
 
@@ -1029,7 +1062,11 @@ std::string Format::GenerateInserters() const {
   }
   // Next the overlays.
   for (auto& [unused, overlay_ptr] : overlay_extractors_) {
-    auto inserter = GenerateOverlayInserter(overlay_ptr);
+    if (layout() == Layout::kPackedStruct) {
+      inserter = GeneratePackedStructOverlayInserter(overlay_ptr);
+    } else {
+      inserter = GenerateOverlayInserter(overlay_ptr);
+    }
     absl::StrAppend(&h_output, inserter);
   }
   absl::StrAppend(&h_output, "};  // struct ", ToPascalCase(name()), "\n\n");
@@ -1113,7 +1150,9 @@ Extractors Format::GenerateExtractors() const {
         extractor = GenerateFieldExtractor(field_or_format_ptr->field());
       }
       absl::StrAppend(&extractors.h_output, extractor);
-      absl::StrAppend(&extractors.class_output, "static ", extractor);
+      if (!extractor.empty()) {
+        absl::StrAppend(&extractors.class_output, "static ", extractor);
+      }
     } else {
       std::string extractor;
       if (layout() == Layout::kPackedStruct) {
@@ -1126,7 +1165,9 @@ Extractors Format::GenerateExtractors() const {
             field_or_format_ptr->high(), field_or_format_ptr->size());
       }
       absl::StrAppend(&extractors.h_output, extractor);
-      absl::StrAppend(&extractors.class_output, "static ", extractor);
+      if (!extractor.empty()) {
+        absl::StrAppend(&extractors.class_output, "static ", extractor);
+      }
     }
   }
 
@@ -1139,7 +1180,9 @@ Extractors Format::GenerateExtractors() const {
       extractor = GenerateOverlayExtractor(overlay_ptr);
     }
     absl::StrAppend(&extractors.h_output, extractor);
-    absl::StrAppend(&extractors.class_output, "static ", extractor);
+    if (!extractor.empty()) {
+      absl::StrAppend(&extractors.class_output, "static ", extractor);
+    }
   }
 
   absl::StrAppend(&extractors.h_output, "}  // namespace ", ToSnakeCase(name()),
diff --git a/mpact/sim/decoder/format.h b/mpact/sim/decoder/format.h
index 5222130..319d461 100644
--- a/mpact/sim/decoder/format.h
+++ b/mpact/sim/decoder/format.h
@@ -204,6 +204,7 @@ class Format {
                                            const Format* format,
                                            int high) const;
   std::string GenerateOverlayInserter(Overlay* overlay) const;
+  std::string GeneratePackedStructOverlayInserter(Overlay* overlay) const;
   // Return true if the extractor isn't promoted from a derived format.
   bool IsOwnExtractor(const FieldOrFormat* field_or_format) const;
   bool IsOwnOverlayExtractor(const Overlay* overlay) const;
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 32d7705..55a44b0 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -26,16 +26,12 @@
 #include "absl/strings/string_view.h"
 #include "mpact/sim/decoder/bin_format_visitor.h"
 #include "mpact/sim/decoder/format.h"
-#include "mpact/sim/decoder/format_name.h"
 
 namespace mpact {
 namespace sim {
 namespace decoder {
 namespace bin_format {
 
-using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
-using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
-
 namespace {
 
 // Return a mask of the given number of bits (up to 64).
@@ -293,19 +289,14 @@ std::string GetUIntType(int bitwidth) {
 
 }  // namespace
 
+// Return a string with the code for extracting the value of the overlay from
+// the byte array 'value' and storing it into the variable 'result'. In a packed
+// struct the least significant bits come first.
 std::string Overlay::WritePackedStructValueExtractor(
     absl::string_view value, absl::string_view result) const {
   std::string output;
-  std::string assign = " = ";
-  std::string union_type =
-      absl::StrCat("const ", ToSnakeCase(format_->name()), "::Union",
-                   ToPascalCase(format_->name()));
-  absl::StrAppend(&output, "  ", union_type,
-                  " *packed_union;\n"
-                  "  packed_union = reinterpret_cast<",
-                  union_type, "*>(",
-                  format_->declared_width() > 64 ? "value);\n" : "&value);\n");
   std::string result_type = GetUIntType(declared_width_);
+  absl::StrAppend(&output, "  ", result, " = 0;\n");
   for (auto* component : component_vec_) {
     if (component->high() < 0) {
       // Binary literals are added.
@@ -314,19 +305,43 @@ std::string Overlay::WritePackedStructValueExtractor(
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
-      if (shift > 0) {
-        absl::StrAppend(&output, " << ", shift);
-      }
-      absl::StrAppend(&output, ";\n");
-    } else {
-      // Field or format references are added.
-      absl::StrAppend(
-          &output, "  ", result, assign, "static_cast<", result_type,
-          ">(packed_union->", ToSnakeCase(format_->name()), ".",
-          component->field()->name, ") << ", component->position(), ";\n");
+      absl::StrAppend(&output, "  ", result, " |= static_cast<", result_type,
+                      ">(", bin_num.value, "ULL) << ", shift, ";\n");
+      continue;
+    }
+    // Field or format references are added one byte at a time.
+    int shift = component->position() - component->width() + 1;
+    for (int low = component->low(); low <= component->high();) {
+      int width = std::min(8 - low % 8, component->high() - low + 1);
+      absl::StrAppend(&output, "  ", result, " |= static_cast<", result_type,
+                      ">((", value, "[", low / 8, "] >> ", low % 8, ") & 0x",
+                      absl::Hex(BitMask(width)), ") << ", shift, ";\n");
+      low += width;
+      shift += width;
+    }
+  }
+  return output;
+}
+
+// Return a string with the code for inserting the overlay value in the variable
+// 'value' into the byte array 'target'.
+std::string Overlay::WritePackedStructValueInserter(
+    absl::string_view value, absl::string_view target) const {
+  std::string output;
+  for (auto* component : component_vec_) {
+    // Binary literals are not part of the format.
+    if (component->high() < 0) continue;
+    int shift = component->position() - component->width() + 1;
+    for (int low = component->low(); low <= component->high();) {
+      int width = std::min(8 - low % 8, component->high() - low + 1);
+      uint64_t mask = BitMask(width) << (low % 8);
+      absl::StrAppend(&output, "  ", target, "[", low / 8, "] = (", target, "[",
+                      low / 8, "] & ~0x", absl::Hex(mask),
+                      ") | ((static_cast<uint8_t>(", value, " >> ", shift,
+                      ") << ", low % 8, ") & 0x", absl::Hex(mask), ");\n");
+      low += width;
+      shift += width;
     }
-    assign = " |= ";
   }
   return output;
 }
diff --git a/mpact/sim/decoder/overlay.h b/mpact/sim/decoder/overlay.h
index ebd638b..de83ed4 100644
--- a/mpact/sim/decoder/overlay.h
+++ b/mpact/sim/decoder/overlay.h
@@ -109,6 +109,8 @@ class Overlay {
                                         absl::string_view result) const;
   std::string WritePackedStructValueExtractor(absl::string_view value,
                                               absl::string_view result) const;
+  std::string WritePackedStructValueInserter(absl::string_view value,
+                                             absl::string_view target) const;
   absl::StatusOr<uint64_t> GetValue(uint8_t* input);
   std::string WriteComplexValueExtractor(absl::string_view value,
                                          absl::string_view result,
-- 
2.43.0


From 0edc126bc66d1a2c2c4d232da31313668dd73263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 089/183] fix: reading a binary format description from
 standard input used an element of an empty vector

---
 mpact/sim/decoder/bin_format_visitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 5a18de7..b70a86b 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -186,8 +186,9 @@ absl::Status BinFormatVisitor::Process(
 
   // Create and add the error listener.
   set_error_listener(std::make_unique<decoder::DecoderErrorListener>());
-  error_listener_->set_file_name(file_names[0]);
-  file_names_.push_back(file_names[0]);
+  std::string file_name = file_names.empty() ? "-" : file_names[0];
+  error_listener_->set_file_name(file_name);
+  file_names_.push_back(file_name);
   parser_wrapper.parser()->removeErrorListeners();
   parser_wrapper.parser()->addErrorListener(error_listener());
 
-- 
2.43.0


From 1b7c4a8d6aee77d50e7a8d130a3e19d0b66501d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 090/183] fix: references to undefined formats crashed the
 binary decoder generator

---
 mpact/sim/decoder/bin_format_visitor.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index b70a86b..4d1520d 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -574,6 +574,7 @@ std::unique_ptr<BinEncodingInfo> BinFormatVisitor::ProcessTopLevel(
   }
   // Visit the decoder.
   auto bin_encoding_info = VisitDecoderDef(decoder_iter->second);
+  if (bin_encoding_info == nullptr) return nullptr;
   // Now visit any formats that references any formats that have been visited.
   // Formats are visited lazily, so only those "reachable" from the decoder
   // will have been visited. Build a multi-map from referenced format to parent
@@ -602,7 +603,8 @@ std::unique_ptr<BinEncodingInfo> BinFormatVisitor::ProcessTopLevel(
       std::string parent_format_name = iter->second;
       VisitFormatDef(format_decl_map_.at(parent_format_name),
                      bin_encoding_info.get());
-      format_list.push_back(bin_encoding_info->GetFormat(parent_format_name));
+      auto* parent_format = bin_encoding_info->GetFormat(parent_format_name);
+      if (parent_format != nullptr) format_list.push_back(parent_format);
     }
   }
   bin_encoding_info->PropagateExtractors();
@@ -881,10 +883,17 @@ void BinFormatVisitor::VisitFieldDef(FieldDefCtx* ctx, Format* format,
     }
     format_ref = encoding_info->GetFormat(format_ref_name);
   }
+  if (format_ref == nullptr) {
+    error_listener_->semanticError(
+        file_names_[context_file_map_.at(ctx)], ctx->format_name,
+        absl::StrCat("Undefined format '", format_ref_name, "' used by '",
+                     field_name, "'"));
+    return;
+  }
   int width = format_ref->declared_width();
   if ((format->layout() == Format::Layout::kPackedStruct) && (width > 64)) {
     error_listener_->semanticError(
-        file_names_[context_file_map_.at(ctx)], ctx->index()->number()->start,
+        file_names_[context_file_map_.at(ctx)], ctx->format_name,
         "Formats used in packed struct layouts can not be > 64 bits");
     return;
   }
@@ -999,6 +1008,8 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupDef(
     } else {
       VisitFormatDef(iter->second, encoding_info);
       auto* format = encoding_info->GetFormat(format_name);
+      // The format had errors.
+      if (format == nullptr) return nullptr;
       // Verify that the format width = declared width and also <= 64 bits wide.
       if (format->declared_width() != width) {
         error_listener_->semanticError(
-- 
2.43.0


From 86a845cb7c940373f54953b90cedc178a9e6aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 091/183] fix: encodings were checked using formats with errors

---
 mpact/sim/decoder/bin_format_visitor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 4d1520d..252d9e7 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -225,7 +225,10 @@ absl::Status BinFormatVisitor::Process(
     LOG(ERROR) << "No encoding specified";
     return absl::InternalError("No encoding specified");
   }
-  PerformEncodingChecks(encoding_info.get());
+  // The formats have to be correct before the encodings can be checked.
+  if (!error_listener_->HasError()) {
+    PerformEncodingChecks(encoding_info.get());
+  }
   // Fail if there are errors.
   if (error_listener_->HasError() > 0) {
     return absl::InternalError("Errors encountered - terminating.");
-- 
2.43.0


From e39201d1ae50e3e4813bbe99774ad10bf5f120b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 092/183] fix: formats that inherit from themselves and groups
 that contain themselves overflowed the stack

---
 mpact/sim/decoder/bin_format_visitor.cc | 19 +++++++++++++++++--
 mpact/sim/decoder/bin_format_visitor.h  |  3 +++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 252d9e7..c19ec5b 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -784,7 +784,14 @@ void BinFormatVisitor::VisitFormatDef(FormatDefCtx* ctx,
     if (parent_format == nullptr) {
       auto iter = format_decl_map_.find(parent_name);
       if (iter != format_decl_map_.end()) {
+        if (!active_formats_.insert(format_name).second) {
+          error_listener_->semanticError(
+              file_names_[context_file_map_.at(ctx)], ctx->start,
+              absl::StrCat("Format '", format_name, "' inherits from itself"));
+          return;
+        }
         VisitFormatDef(iter->second, encoding_info);
+        active_formats_.erase(format_name);
       }
       parent_format = encoding_info->GetFormat(parent_name);
     }
@@ -1053,8 +1060,16 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupDef(
   absl::flat_hash_set<std::string> group_name_set;
   auto file_index = context_file_map_.at(ctx);
   context_file_map_.insert({ctx->group_name_list(), file_index});
-  return VisitInstructionGroupNameList(group_name, ctx->group_name_list(),
-                                       group_name_set, encoding_info);
+  if (!active_groups_.insert(group_name).second) {
+    error_listener_->semanticError(
+        file_names_[context_file_map_.at(ctx)], ctx->start,
+        absl::StrCat("Instruction group '", group_name, "' contains itself"));
+    return nullptr;
+  }
+  auto* group = VisitInstructionGroupNameList(
+      group_name, ctx->group_name_list(), group_name_set, encoding_info);
+  active_groups_.erase(group_name);
+  return group;
 }
 
 void BinFormatVisitor::VisitInstructionDef(InstructionDefCtx* ctx,
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index d4d7656..f311523 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -172,6 +172,9 @@ class BinFormatVisitor {
   std::vector<std::string> include_dir_vec_;
   // Keep track of files that are included in case there is recursive includes.
   std::deque<std::string> include_file_stack_;
+  // Names of the formats and instruction groups that are being visited.
+  absl::flat_hash_set<std::string> active_formats_;
+  absl::flat_hash_set<std::string> active_groups_;
   // Error listening object passed to the parser.
   std::unique_ptr<decoder::DecoderErrorListener> error_listener_ = nullptr;
   std::string decoder_name_;
-- 
2.43.0


From 056c847e1ce3b942122b8329c4414cb905dd19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 093/183] fix: constraint values of 63-bit fields were computed
 with signed overflow

---
 mpact/sim/decoder/instruction_encoding.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 9648c35..8dca335 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -165,7 +165,7 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         }
       }
     }
-    value &= (1LL << field->width) - 1;
+    value &= (1ULL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -188,7 +188,7 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
   }
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1LL << width)) || (value < 0)) {
+    if ((value < 0) || (value >= (1ULL << width))) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -205,7 +205,7 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1LL << width) - 1);
+      value = value & ((1ULL << width) - 1);
     } else {
       if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
@@ -214,7 +214,7 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
     }
   }
-  value &= (1LL << width) - 1;
+  value &= (1ULL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From fa663d34094a2e35b05dde76b0cb9dd06e466b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 094/183] fix: the combined mask left out the bits of
 right-hand side fields

---
 mpact/sim/decoder/instruction_encoding.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 8dca335..28c2976 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -266,6 +266,7 @@ absl::Status InstructionEncoding::AddOtherConstraint(
 absl::Status InstructionEncoding::ComputeMaskAndValue() {
   // First consider equal constraints.
   mask_ = 0;
+  value_ = 0;
   for (auto* constraint : equal_constraints_) {
     uint64_t mask = 0;
     uint64_t value = 0;
@@ -314,12 +315,12 @@ absl::Status InstructionEncoding::ComputeMaskAndValue() {
     // If the rhs is a field or overlay, add to the mask.
     if (constraint->rhs_field != nullptr) {
       int width = constraint->rhs_field->width;
-      mask &= (1LLU << width) - 1;
+      mask = (1LLU << width) - 1;
       int shift = constraint->rhs_field->low;
       mask <<= shift;
       other_mask_ |= mask;
     } else if (constraint->rhs_overlay != nullptr) {
-      mask &= constraint->rhs_overlay->mask();
+      mask = constraint->rhs_overlay->mask();
       other_mask_ |= mask;
     }
   }
-- 
2.43.0


From 1ef784ff42a3bbc32a31eeedc0a13de3012377f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 095/183] fix: syntax errors in generated instruction
 definitions were ignored

---
 mpact/sim/decoder/bin_format_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index c19ec5b..21c01df 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1233,9 +1233,15 @@ void BinFormatVisitor::ProcessInstructionDefGenerator(
   // Parse and process the generated text.
   auto* parser = new BinFmtAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto instruction_defs =
       parser->parser()->instruction_def_list()->instruction_def();
+  if (error_listener()->syntax_error_count() > 0) {
+    for (auto* info : range_info_vec) delete info;
+    return;
+  }
   // Process the opcode spec.
   for (auto* inst_def : instruction_defs) {
     context_file_map_.insert({inst_def, file_index});
-- 
2.43.0


From 23e60c49b37275adc55139e385d397f0b6590b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 096/183] fix: parts of a format with the same name were
 accepted, and the format width could overflow

---
 mpact/sim/decoder/format.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 767efeb..bcf0e89 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -216,8 +216,17 @@ absl::Status Format::ComputeAndCheckFormatWidth() {
         auto* field = field_or_format->field();
         field->high = declared_width_ - computed_width_ - 1;
         field->low = field->high - field->width + 1;
+        if (field->width > declared_width_ - computed_width_) {
+          return absl::InternalError(
+              absl::StrCat("Format '", name_, "' declared width (",
+                           declared_width_, ") is less than its computed width"));
+        }
         computed_width_ += field->width;
-        extractors_.insert(std::make_pair(field->name, field_or_format));
+        if (!extractors_.insert(std::make_pair(field->name, field_or_format))
+                 .second) {
+          return absl::InternalError(absl::StrCat(
+              "Format '", name_, "': '", field->name, "' already defined"));
+        }
         continue;
       }
 
@@ -233,9 +242,22 @@ absl::Status Format::ComputeAndCheckFormatWidth() {
         field_or_format->set_format(format);
       }
       field_or_format->set_high(declared_width_ - computed_width_ - 1);
+      if (static_cast<int64_t>(format->declared_width()) *
+              field_or_format->size() >
+          declared_width_ - computed_width_) {
+        return absl::InternalError(
+            absl::StrCat("Format '", name_, "' declared width (",
+                         declared_width_, ") is less than its computed width"));
+      }
       computed_width_ += format->declared_width() * field_or_format->size();
-      extractors_.insert(
-          std::make_pair(field_or_format->format_alias(), field_or_format));
+      if (!extractors_
+               .insert(std::make_pair(field_or_format->format_alias(),
+                                      field_or_format))
+               .second) {
+        return absl::InternalError(
+            absl::StrCat("Format '", name_, "': '",
+                         field_or_format->format_alias(), "' already defined"));
+      }
     }
     if (computed_width_ != declared_width_) {
       return absl::InternalError(absl::StrCat(
@@ -246,6 +268,10 @@ absl::Status Format::ComputeAndCheckFormatWidth() {
   for (auto& [name, overlay_ptr] : overlay_map_) {
     auto status = overlay_ptr->ComputeHighLow();
     if (!status.ok()) return status;
+    if (extractors_.find(name) != extractors_.end()) {
+      return absl::InternalError(
+          absl::StrCat("Format '", name_, "': '", name, "' already defined"));
+    }
     overlay_extractors_.insert(std::make_pair(name, overlay_ptr));
   }
   // Set the type names.
-- 
2.43.0


From 34e16ddc218807fd3ecc70ca27f8d3a1075142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 097/183] fix: fields and overlays without bits were accepted

---
 mpact/sim/decoder/bin_format_visitor.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 21c01df..ba2b907 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -857,6 +857,12 @@ void BinFormatVisitor::VisitFieldDef(FieldDefCtx* ctx, Format* format,
     // If it's a field definition, add the field.
     bool is_signed = ctx->sign_spec()->SIGNED() != nullptr;
     int width = ConvertToInt(ctx->index()->number());
+    if (width == 0) {
+      error_listener_->semanticError(
+          file_names_[context_file_map_.at(ctx)], ctx->index()->number()->start,
+          absl::StrCat("Field '", field_name, "' must be at least 1 bit wide"));
+      return;
+    }
     if ((format->layout() == Format::Layout::kPackedStruct) && (width > 64)) {
       error_listener_->semanticError(
           file_names_[context_file_map_.at(ctx)], ctx->index()->number()->start,
@@ -917,6 +923,12 @@ void BinFormatVisitor::VisitOverlayDef(OverlayDefCtx* ctx, Format* format) {
   std::string name(ctx->IDENT()->getText());
   bool is_signed = ctx->sign_spec()->SIGNED() != nullptr;
   int width = ConvertToInt(ctx->width->number());
+  if (width == 0) {
+    error_listener_->semanticError(
+        file_names_[context_file_map_.at(ctx)], ctx->width->number()->start,
+        absl::StrCat("Overlay '", name, "' must be at least 1 bit wide"));
+    return;
+  }
   // For now, only support overlays <= 64 bit wide.
   if (width > 64) {
     error_listener_->semanticError(
@@ -936,6 +948,7 @@ void BinFormatVisitor::VisitOverlayDef(OverlayDefCtx* ctx, Format* format) {
   for (auto* bit_field : ctx->bit_field_list()->bit_field_spec()) {
     context_file_map_.insert({bit_field, file_index});
     VisitOverlayBitField(bit_field, overlay);
+    if (overlay->computed_width() > overlay->declared_width()) break;
   }
   if (overlay->computed_width() != overlay->declared_width()) {
     error_listener_->semanticError(
-- 
2.43.0


From 8eb16391456e7f223aba9f8b4da748f002a2d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 098/183] fix: constraints were computed for overlays with
 errors

---
 mpact/sim/decoder/instruction_encoding.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 28c2976..320770e 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -181,6 +181,10 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  if (width != overlay->declared_width()) {
+    return absl::InternalError(
+        absl::StrCat("Overlay '", field_name, "' is incomplete"));
+  }
   if (width >= 64) {
     return absl::OutOfRangeError(
         absl::StrCat("Overlay '", field_name,
-- 
2.43.0


From 5da6f3213981199a57a5ee624a0667fd4fe8613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 099/183] fix: the computed width of overlays could overflow

---
 mpact/sim/decoder/overlay.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 55a44b0..73e859c 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -86,6 +87,10 @@ absl::Status Overlay::AddFieldReference(std::string field_name) {
   }
   // Translate the field relative bit ranges to format relative bit ranges.
   int width = field->width;
+  if (width > std::numeric_limits<int>::max() - computed_width_) {
+    return absl::InternalError(
+        absl::StrCat("Overlay '", name(), "' is too wide"));
+  }
   component_vec_.push_back(new BitsOrField(field, width - 1, 0, field->width));
   computed_width_ += width;
   return absl::OkStatus();
@@ -120,6 +125,10 @@ absl::Status Overlay::AddFieldReference(std::string field_name,
       return absl::InternalError(absl::StrCat(
           "bitrange has non-positive width for field '", field->name, ","));
     }
+    if (width > std::numeric_limits<int>::max() - computed_width_) {
+      return absl::InternalError(
+          absl::StrCat("Overlay '", name(), "' is too wide"));
+    }
     component_vec_.push_back(
         new BitsOrField(field, range.first, range.last, width));
     computed_width_ += width;
@@ -147,6 +156,10 @@ absl::Status Overlay::AddFormatReference(const std::vector<BitRange>& ranges) {
           absl::StrCat("bitrange has non-positive width for format '",
                        format_->name(), "',"));
     }
+    if (width > std::numeric_limits<int>::max() - computed_width_) {
+      return absl::InternalError(
+          absl::StrCat("Overlay '", name(), "' is too wide"));
+    }
     // Translate into bit positions relative to the bit format that contains
     // the field.
     component_vec_.push_back(
-- 
2.43.0


From 26841edab772862f62df2eb03bdb670f1a61fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 100/183] fix: action points whose instruction could not be
 written were left half changed

---
 .../sim/generic/action_point_manager_base.cc  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..10e4fea 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,17 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +116,13 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If this is the only active action, write a breakpoint instruction.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +142,14 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 5ecb5e4b91870368e3a527a44145aa0b2bb18355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 101/183] fix: the gdb server closed descriptors several times
 or not at all

---
 mpact/sim/util/gdbserver/gdbserver.cc | 29 +++++++++++++++++----------
 mpact/sim/util/gdbserver/gdbserver.h  |  9 ++++-----
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..3b13bda 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -122,13 +122,24 @@ GdbServer::GdbServer(
 
 GdbServer::~GdbServer() {
   Terminate();
+  DeleteStreams();
+}
+
+void GdbServer::DeleteStreams() {
   delete os_;
   delete is_;
   delete out_buf_;
   delete in_buf_;
+  os_ = nullptr;
+  is_ = nullptr;
+  out_buf_ = nullptr;
+  in_buf_ = nullptr;
 }
 
 bool GdbServer::Connect(int port) {
+  // Release any previous connection.
+  Terminate();
+  DeleteStreams();
   good_ = true;
   if (port <= 0) {
     return false;
@@ -236,25 +247,21 @@ bool GdbServer::Connect(int port) {
         std::string_view(reinterpret_cast<char*>(buffer_), buffer_pos));
     buffer_pos = 0;
   }
-  good_ = false;
+  Terminate();
   return true;
 }
 
 void GdbServer::Terminate() {
   // Shutdown the connection.
   if (cli_fd_ != -1) {
-    int res = fcntl(cli_fd_, F_GETFD);
-    if (res >= 0) {
-      (void)shutdown(cli_fd_, SHUT_RDWR);
-      (void)close(cli_fd_);
-    }
+    (void)shutdown(cli_fd_, SHUT_RDWR);
+    (void)close(cli_fd_);
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
-    int res = shutdown(server_socket_, SHUT_RDWR);
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      (void)close(server_socket_);
-    }
+    (void)shutdown(server_socket_, SHUT_RDWR);
+    (void)close(server_socket_);
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..94eec77 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -45,15 +45,12 @@ using ::mpact::sim::generic::DebugInfo;
 // does not expand \n to \r\n or vice versa.
 class GdbSocketStreambuf : public std::streambuf {
  public:
+  // The streambuf does not own the file descriptor.
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
-    }
+    if (c == EOF) return c;
     write(fd_, &c, 1);
     return c;
   }
@@ -95,6 +92,8 @@ class GdbServer {
  private:
   // Terminate the connection to the GDB client.
   void Terminate();
+  // Delete the streams used to access the connection.
+  void DeleteStreams();
   // Sends the given response to the GDB client. Wrapping it in the proper
   // packet format and adding the checksum.
   void Respond(std::string_view response);
-- 
2.43.0


From 863422a05d36d7a7cf9f7922d4a2e885872295b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 102/183] fix: a new gdb connection inherited the protocol
 settings of the previous one

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 3b13bda..8548d6c 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -140,6 +140,12 @@ bool GdbServer::Connect(int port) {
   // Release any previous connection.
   Terminate();
   DeleteStreams();
+  // A new connection starts out with the default protocol settings.
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  error_message_supported_ = false;
+  thread_suffix_ = false;
+  thread_select_.clear();
   good_ = true;
   if (port <= 0) {
     return false;
-- 
2.43.0


From a882494e815fac252e269f6d5cdad8ee0163f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 103/183] fix: a gdb client that went away killed or hung the
 simulator

---
 mpact/sim/util/gdbserver/gdbserver.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 94eec77..2668ee4 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -19,6 +19,8 @@
 #ifndef MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 #define MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 
+#include <sys/socket.h>
+
 #include <cstdint>
 #include <cstdio>
 #include <istream>
@@ -51,14 +53,16 @@ class GdbSocketStreambuf : public std::streambuf {
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) return c;
-    write(fd_, &c, 1);
+    char ch = traits_type::to_char_type(c);
+    // Don't raise SIGPIPE if the client is gone.
+    if (send(fd_, &ch, 1, MSG_NOSIGNAL) != 1) return traits_type::eof();
     return c;
   }
 
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
-- 
2.43.0


From 0c5e3c3369f150367e3291bc61697164b7f29471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 104/183] fix: long gdb packets overflowed the receive buffer

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 8548d6c..1356976 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -240,6 +240,12 @@ bool GdbServer::Connect(int port) {
         Terminate();
         return false;
       }
+      // Leave room for the checksum.
+      if (buffer_pos >= sizeof(buffer_) - 2) {
+        LOG(ERROR) << absl::StrFormat("Command too long on port %d", port);
+        Terminate();
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From 4ef18730fd3bcfa0ad19ae08186d42b71603fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 105/183] fix: escaped characters in gdb packets were doubled

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 1356976..101795a 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -57,9 +57,8 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   std::string command;
   for (int i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
-    if (c == 0x7d) {
+    if ((c == 0x7d) && (i + 1 < escaped_command.size())) {
       c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
     }
     command.push_back(c);
   }
-- 
2.43.0


From fc1675172992ff469e9dd1bf0a110fa746f76996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 106/183] fix: empty gdb commands were read past their end

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 101795a..daf257f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -397,6 +397,8 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  // An empty command is not supported.
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -705,7 +707,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (command.empty() || (command.front() != ';')) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -824,6 +826,7 @@ void GdbServer::GdbDetach() {
 }
 
 void GdbServer::GdbSelectThread(std::string_view command) {
+  if (command.empty()) return SendError("invalid thread id");
   int thread_id;
   char op = command.front();
   command.remove_prefix(1);
@@ -1095,6 +1098,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1330,7 +1334,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (absl::StartsWith(command, ":")) {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From a48ecdf04c992d810e3afd2c917c2064ac590b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 107/183] fix: gdb thread ids were used without checking their
 range

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 +++++++
 mpact/sim/util/gdbserver/gdbserver.h  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index daf257f..c625d57 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -615,6 +615,7 @@ std::string GdbServer::GetHaltReason(int thread_id) {
 void GdbServer::GdbHaltReason() { Respond(GetHaltReason(0)); }
 
 void GdbServer::GdbContinue(int thread_id, std::string_view command) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   // If the core is halted due to program done, then just respond with W00.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
@@ -839,6 +840,7 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   thread_select_[op] = thread_id;
   Respond("OK");
 }
@@ -959,6 +961,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
 }
 
 void GdbServer::GdbReadGprRegisters(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   std::string response;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
@@ -981,6 +984,7 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 }
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
@@ -1008,6 +1012,7 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
 
 void GdbServer::GdbReadRegister(int thread_id,
                                 std::string_view register_number_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1064,6 +1069,7 @@ void GdbServer::GdbReadRegister(int thread_id,
 void GdbServer::GdbWriteRegister(int thread_id,
                                  std::string_view register_number_str,
                                  std::string_view register_value_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1179,6 +1185,7 @@ void GdbServer::GdbSet(std::string_view command) {
 }
 
 void GdbServer::GdbStep(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   auto result = core_debug_interfaces_[thread_index]->Step(1);
   if (!result.ok()) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 2668ee4..f5e0b8c 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -105,6 +105,10 @@ class GdbServer {
   void SendError(std::string_view error);
 
   int GetThreadId(char command_type, std::string_view command);
+  // Returns true if there is a core for the given thread id.
+  bool IsValidThreadId(int thread_id) const {
+    return (thread_id >= 1) && (thread_id <= core_debug_interfaces_.size());
+  }
   // Takes a GDB command string, verifies the checksum, and if it is valid,
   // then submits the command to be parsed.
   void AcceptGdbCommand(std::string_view command);
-- 
2.43.0


From 1774a1e4cbf4fdcbb0d647f468ba181f3b1695e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 108/183] fix: malformed gdb register and memory data was
 written or read past its end

---
 mpact/sim/util/gdbserver/gdbserver.cc | 82 ++++++++++++++++-----------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index c625d57..2bedd49 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -65,6 +66,22 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Returns true if the string is a sequence of two digit hex bytes.
+bool IsHexBytes(std::string_view data) {
+  if (data.size() % 2 != 0) return false;
+  for (char c : data) {
+    if (!absl::ascii_isxdigit(c)) return false;
+  }
+  return true;
+}
+
+// Returns the value of the byte at the given index in a string of hex bytes.
+uint8_t GetHexByte(std::string_view data, size_t index) {
+  uint32_t value = 0;
+  (void)absl::SimpleHexAtoi(data.substr(index * 2, 2), &value);
+  return static_cast<uint8_t>(value);
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -924,25 +941,18 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
-  int num_bytes = 0;
-  for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
-    num_bytes++;
-    std::string_view byte = data.substr(0, 2);
-    data.remove_prefix(2);
-    uint32_t value_tmp;
-    (void)absl::SimpleHexAtoi(byte, &value_tmp);
-    uint8_t value = static_cast<uint8_t>(value_tmp);
-    buffer_[i] = value;
-  }
-  if (num_bytes != length) {
+  if (!IsHexBytes(data) || (data.size() != 2 * length)) {
     LOG(ERROR) << "Length does not match data size";
     if (error_message_supported_) {
       return SendError("length does not match data size");
     }
     return Respond("E01");
   }
+  for (size_t i = 0; i < length; ++i) {
+    buffer_[i] = GetHexByte(data, i);
+  }
   auto result =
-      core_debug_interfaces_[0]->WriteMemory(address, buffer_, num_bytes);
+      core_debug_interfaces_[0]->WriteMemory(address, buffer_, length);
   if (!result.ok()) {
     LOG(ERROR) << "Failed to write memory: " << result.status().message();
     if (error_message_supported_) {
@@ -986,25 +996,32 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
+  // Find all the registers before writing any of them.
+  std::vector<generic::DataBuffer*> data_buffers;
+  size_t num_bytes = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    // If the register is not found, go to the next one (assume there is a
+    // gap in the register numbers).
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
-    for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
-        LOG(ERROR) << "Invalid data format";
-        return SendError("Invalid data format");
-      }
-      std::string_view byte_str = data.substr(0, 2);
-      data.remove_prefix(2);
-      uint32_t byte_value_tmp;
-      (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-      byte = static_cast<uint8_t>(byte_value_tmp);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
+    data_buffers.push_back(result.value());
+    num_bytes += result.value()->size<uint8_t>();
+  }
+  if (!IsHexBytes(data) || (data.size() < 2 * num_bytes)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  size_t index = 0;
+  for (auto* db : data_buffers) {
+    for (auto& byte : db->Get<uint8_t>()) {
+      byte = GetHexByte(data, index++);
     }
   }
   Respond("OK");
@@ -1092,13 +1109,14 @@ void GdbServer::GdbWriteRegister(int thread_id,
                << result.status().message();
     return SendError(result.status().message());
   }
+  if (!IsHexBytes(register_value_str)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
+  size_t index = 0;
   for (auto& byte : result.value()->Get<uint8_t>()) {
-    if (register_value_str.empty()) break;
-    std::string_view byte_str = register_value_str.substr(0, 2);
-    register_value_str.remove_prefix(2);
-    uint32_t byte_value_tmp;
-    (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-    byte = static_cast<uint8_t>(byte_value_tmp);
+    if (2 * index >= register_value_str.size()) break;
+    byte = GetHexByte(register_value_str, index++);
   }
   Respond("OK");
 }
-- 
2.43.0


From 508c8c8ae3ed38292f5d7797a1919806abd8a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 109/183] fix: gdb vCont actions without a thread id were
 refused, and threads took several actions

---
 mpact/sim/util/gdbserver/gdbserver.cc | 48 +++++++++++++++------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 2bedd49..6ffea32 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -730,34 +730,40 @@ void GdbServer::GdbVContinue(std::string_view command) {
   }
   command.remove_prefix(1);
   std::vector<std::string> parts = absl::StrSplit(command, ';');
+  // For each thread, the leftmost action that matches it applies. An action
+  // without a thread id (or with thread id -1) matches all the threads.
+  std::vector<char> actions(core_debug_interfaces_.size(), 0);
   for (std::string& part : parts) {
     std::string_view part_view = part;
-    std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
-    if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          StepThread(tid);
+    size_t pos = part_view.find(':');
+    std::string_view action = part_view.substr(0, pos);
+    if ((action != "c") && (action != "s")) {
+      return SendError("invalid vCont action");
+    }
+    int first = 1;
+    int last = core_debug_interfaces_.size();
+    if (pos != std::string_view::npos) {
+      // Get the thread id.
+      std::string_view tid_str = part_view.substr(pos + 1);
+      if (tid_str != "-1") {
+        int tid;
+        bool success = absl::SimpleHexAtoi(tid_str, &tid);
+        if (success && (tid == 0)) tid = 1;  // Thread id 0 means any thread.
+        if (!success || !IsValidThreadId(tid)) {
+          return SendError("invalid thread id");
         }
+        first = tid;
+        last = tid;
       }
-      continue;
     }
-    // Otherwise, apply the action to the specified thread.
-    int tid;
-    bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
-      SendError("invalid thread id");
-      return;
+    for (int tid = first; tid <= last; ++tid) {
+      if (actions[tid - 1] == 0) actions[tid - 1] = action.front();
     }
-    if (action == "c") {
+  }
+  for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    if (actions[tid - 1] == 'c') {  // continue
       ContinueThread(tid);
-    } else if (action == "s") {
+    } else if (actions[tid - 1] == 's') {  // step
       StepThread(tid);
     }
   }
-- 
2.43.0


From d1497f67f170a7e3628a7df3e72cf4bef91c84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 110/183] fix: a gdb continue command got no response if the
 core was still running

---
 mpact/sim/util/gdbserver/gdbserver.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 6ffea32..651e1e2 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -666,15 +666,18 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
       LOG(ERROR) << "Failed to run core: " << status.message();
       return SendError(status.message());
     }
-    // Now wait for the core to halt.
-    status = core_debug_interfaces_[thread_index]->Wait();
-    if (!status.ok()) {
-      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
-      return SendError(status.message());
-    }
-    // Get the halt reason.
-    Respond(GetHaltReason(thread_index));
+  } else if (!command.empty()) {
+    LOG(ERROR) << "Cannot continue at an address while the core is running";
+    return SendError("core is not halted");
+  }
+  // Now wait for the core to halt.
+  auto status = core_debug_interfaces_[thread_index]->Wait();
+  if (!status.ok()) {
+    LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+    return SendError(status.message());
   }
+  // Get the halt reason.
+  Respond(GetHaltReason(thread_index));
 }
 
 void GdbServer::ContinueThread(int thread_id) {
-- 
2.43.0


From f027016879bbea654226bb74237d7b01beead118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 111/183] fix: special characters broke the framing of gdb
 responses

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 +++++++++++++++-
 mpact/sim/util/gdbserver/gdbserver.h  |  6 +++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 651e1e2..582cae7 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -82,6 +82,19 @@ uint8_t GetHexByte(std::string_view data, size_t index) {
   return static_cast<uint8_t>(value);
 }
 
+// Escapes the characters that have a special meaning in a GDB response.
+std::string EscapeResponse(std::string_view response) {
+  std::string escaped_response;
+  for (char c : response) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped_response.push_back('}');
+      c ^= 0x20;
+    }
+    escaped_response.push_back(c);
+  }
+  return escaped_response;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -294,7 +307,8 @@ void GdbServer::Terminate() {
   good_ = false;
 }
 
-void GdbServer::Respond(std::string_view response) {
+void GdbServer::Respond(std::string_view raw_response) {
+  std::string response = EscapeResponse(raw_response);
   // Compute the checksum of the response.
   uint8_t checksum = 0;
   for (char c : response) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index f5e0b8c..edc09ba 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -98,9 +98,9 @@ class GdbServer {
   void Terminate();
   // Delete the streams used to access the connection.
   void DeleteStreams();
-  // Sends the given response to the GDB client. Wrapping it in the proper
-  // packet format and adding the checksum.
-  void Respond(std::string_view response);
+  // Sends the given response to the GDB client. Escaping special characters,
+  // wrapping it in the proper packet format and adding the checksum.
+  void Respond(std::string_view raw_response);
   // Sends the given error message to the GDB client in an error packet.
   void SendError(std::string_view error);
 
-- 
2.43.0


From f2b3a9c6de7cb966a2f6189d9ff0bbcdb2c7b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 112/183] fix: host info without a value was read past its end

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 582cae7..f595689 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1414,7 +1414,12 @@ void GdbServer::GdbHostInfo() {
   std::string response;
   for (const std::string& part : parts) {
     if (part.empty()) continue;
-    std::vector<std::string> key_value = absl::StrSplit(part, ':');
+    std::vector<std::string> key_value =
+        absl::StrSplit(part, absl::MaxSplits(':', 1));
+    if (key_value.size() != 2) {
+      LOG(ERROR) << "Invalid host info: " << part;
+      continue;
+    }
     std::string_view key = key_value[0];
     std::string_view value = key_value[1];
     if (key == "triple") {
-- 
2.43.0


From a888e2ef232a79b4829689dc7857729517428c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:11 +0000
Subject: [PATCH 113/183] fix: the gdb server used another port if the given
 one was too large

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index f595689..331874d 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -176,7 +176,8 @@ bool GdbServer::Connect(int port) {
   thread_suffix_ = false;
   thread_select_.clear();
   good_ = true;
-  if (port <= 0) {
+  if ((port <= 0) || (port > 65535)) {
+    good_ = false;
     return false;
   }
   // Create the socket on the given port.
-- 
2.43.0


From 248dd58b9f3ae1eba5c8d0fd66d56c10c4597699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 114/183] fix: a constructed Renode instance could get the name
 of a connected one

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..8cffb1b 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From 65bfa4df65bec2a1c0ac4961addaa5f8e594dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 115/183] fix: the name length of a destroyed Renode instance
 stayed in use

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 8cffb1b..78f3217 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From 8cb07d7217dc0bee5b75732c0f10c0e149317c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 116/183] fix: the number of steps reported to Renode was cut
 to 32 bits

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 78f3217..d490b03 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -394,7 +394,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From 15e2d4254698241929eed12c3e4ef3d332a54156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 117/183] fix: some Renode calls wrote the status to a null
 pointer

---
 mpact/sim/util/renode/renode_mpact.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index d490b03..e148509 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -304,7 +304,7 @@ uint64_t RenodeAgent::LoadExecutable(int32_t id, const char* file_name,
   auto dbg_iter = core_dbg_instances_.find(id);
   if (dbg_iter == core_dbg_instances_.end()) {
     LOG(ERROR) << "No such core dbg instance: " << id;
-    *status = -1;
+    if (status != nullptr) *status = -1;
     return 0;
   }
   // Instantiate loader.
@@ -312,10 +312,10 @@ uint64_t RenodeAgent::LoadExecutable(int32_t id, const char* file_name,
   auto res = dbg->LoadExecutable(file_name, for_symbols_only);
   if (!res.ok()) {
     LOG(ERROR) << "Failed to load executable: " << res.status().message();
-    *status = -1;
+    if (status != nullptr) *status = -1;
     return 0;
   }
-  *status = 0;
+  if (status != nullptr) *status = 0;
   uint64_t entry = res.value();
   return entry;
 }
@@ -372,7 +372,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -390,7 +392,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 5211e6b32176d15b6fcd999e801d21c971f27531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:36 +0000
Subject: [PATCH 118/183] fix: an image file that could not be read was
 reported as loaded

---
 mpact/sim/util/renode/renode_mpact.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index e148509..10f94a4 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -357,6 +357,10 @@ int32_t RenodeAgent::LoadImage(int32_t id, const char* file_name,
     }
     load_address += gcount;
   } while (image_file.good() && (gcount > 0));
+  if (image_file.bad()) {
+    LOG(ERROR) << "LoadImage: Failed to read the input file";
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From a6ad038199a2c94346f83946444bed1405a7ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:14 +0000
Subject: [PATCH 119/183] fix: after a breakpoint the CLI and Renode used the
 simulator at once

---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From 0c579fe4d38ffe67806a982e18f4df2c12184460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:04 +0000
Subject: [PATCH 120/183] fix: the CLI waited forever to run a program that it
 had stepped to its end

---
 mpact/sim/util/renode/renode_cli_top.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 2916445..84156d0 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -152,7 +152,7 @@ absl::Status RenodeCLITop::CLIRun() {
   // This predicate is used to determine when the command line interface is
   // in control for the purposes of issuing a run command.
   auto cli_is_not_running = [this] {
-    return cli_status_ != RunStatus::kRunning;
+    return program_done_ || (cli_status_ != RunStatus::kRunning);
   };
   run_control_mutex_.LockWhen(absl::Condition(&cli_is_not_running));
   if (top_->GetLastHaltReason().value() == *HaltReason::kProgramDone) {
-- 
2.43.0


From aa7b7f70e20d1c8a13ef79d516b6ff6d07fee405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:15 +0000
Subject: [PATCH 121/183] fix: the socket CLI used another port if the given
 one was out of range

---
 mpact/sim/util/renode/socket_cli.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index 4185f38..3340f1f 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -50,6 +50,11 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
     good_ = false;
     return;
   }
+  if ((port < 0) || (port > 0xffff)) {
+    LOG(ERROR) << "Invalid port number " << port;
+    good_ = false;
+    return;
+  }
   // Create the socket on the given port.
   server_socket_ =
       socket(/*domain=*/AF_INET, /*type=*/SOCK_STREAM, /*protocol=*/0);
-- 
2.43.0


From 7435d4fc9968ca40ecd2763e8f35bf809be39c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:15 +0000
Subject: [PATCH 122/183] fix: the socket CLI went on after it failed to listen

---
 mpact/sim/util/renode/socket_cli.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index 3340f1f..732969f 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -85,6 +85,7 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
     good_ = false;
     LOG(ERROR) << "Failed to listen on port " << port << ": "
                << strerror(errno);
+    return;
   }
 
   // Launch CLI thread.
-- 
2.43.0


From 2b90fc46917c31b9d947dc8a38dce610b17de53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:15 +0000
Subject: [PATCH 123/183] fix: a client that left in the middle of the output
 ended the simulator

---
 mpact/sim/util/renode/socket_streambuf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5e09f19..680d282 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -14,6 +14,7 @@
 #ifndef MPACT_SIM_UTIL_RENODE_SOCKET_STREAMBUF_H_
 #define MPACT_SIM_UTIL_RENODE_SOCKET_STREAMBUF_H_
 
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include <cstdio>
@@ -43,11 +44,11 @@ class SocketStreambuf : public std::streambuf {
       return c;
     }
     if (c == '\xa') {
-      if (write(fd_, "\r\n", 2) != 2) return traits_type::eof();
+      if (send(fd_, "\r\n", 2, MSG_NOSIGNAL) != 2) return traits_type::eof();
       return c;
     }
     char ch = traits_type::to_char_type(c);
-    if (write(fd_, &ch, 1) != 1) return traits_type::eof();
+    if (send(fd_, &ch, 1, MSG_NOSIGNAL) != 1) return traits_type::eof();
     return c;
   }
 
-- 
2.43.0


From a2938aaffa0a2fa367660d402009bb5de8ece297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:15 +0000
Subject: [PATCH 124/183] fix: the socket CLI closed its client socket three
 times

---
 mpact/sim/util/renode/socket_cli.cc      | 33 ++++++++++++++----------
 mpact/sim/util/renode/socket_streambuf.h | 12 +++------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index 732969f..cec381b 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -14,10 +14,10 @@
 
 #include "mpact/sim/util/renode/socket_cli.h"
 
-#include <fcntl.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <unistd.h>
 
 #include <cerrno>
 #include <cstring>
@@ -111,6 +111,9 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
       // Start the CLI.
       os << "CLI connected:\n";
       dbg_shell_.Run(is, os);
+      // Let the client know that the session is over. The socket is closed by
+      // the destructor.
+      (void)shutdown(cli_fd_, SHUT_RDWR);
       // Notify that CLI is disconnected.
       is_connected_cb_(false);
     }
@@ -122,11 +125,6 @@ SocketCLI::~SocketCLI() {
   // Shutdown the connection.
   if (cli_fd_ != -1) {
     (void)shutdown(cli_fd_, SHUT_RDWR);
-    int err = close(cli_fd_);
-    if (err != 0) {
-      LOG(ERROR) << "Failed to close client socket " << cli_fd_ << ": "
-                 << strerror(errno);
-    }
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
@@ -134,16 +132,23 @@ SocketCLI::~SocketCLI() {
       LOG(ERROR) << "Failed to shutdown server socket " << server_socket_
                  << ": " << strerror(errno);
     }
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      int err = close(server_socket_);
-      if (err != 0) {
-        LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
-                   << strerror(errno);
-      }
-    }
   }
+  // Wait for the CLI thread before closing the sockets that it uses.
   if (cli_thread_.joinable()) cli_thread_.join();
+  if (cli_fd_ != -1) {
+    int err = close(cli_fd_);
+    if (err != 0) {
+      LOG(ERROR) << "Failed to close client socket " << cli_fd_ << ": "
+                 << strerror(errno);
+    }
+  }
+  if (server_socket_ != -1) {
+    int err = close(server_socket_);
+    if (err != 0) {
+      LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
+                 << strerror(errno);
+    }
+  }
 }
 
 }  // namespace renode
diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 680d282..5deffb9 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -31,18 +31,14 @@ namespace renode {
 // implement to make this happen. No buffering is performed.
 class SocketStreambuf : public std::streambuf {
  public:
+  // The file descriptor remains owned by the caller, as it may be shared by
+  // several stream buffers.
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override {
-    if (fd_ >= 0) close(fd_);
-  }
+  ~SocketStreambuf() override = default;
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      if (fd_ >= 0) close(fd_);
-      fd_ = -1;
-      return c;
-    }
+    if (c == EOF) return c;
     if (c == '\xa') {
       if (send(fd_, "\r\n", 2, MSG_NOSIGNAL) != 2) return traits_type::eof();
       return c;
-- 
2.43.0


From 552745919184f170a63b55b7e7484662c90767e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 125/183] fix: stopping the socket CLI while a client connects
 raced and could hang

---
 mpact/sim/util/renode/socket_cli.cc | 26 +++++++++++++++++++-------
 mpact/sim/util/renode/socket_cli.h  |  8 +++++++-
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index cec381b..8cd9285 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -29,6 +29,7 @@
 
 #include "absl/functional/any_invocable.h"
 #include "absl/log/log.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/renode/socket_streambuf.h"
 
@@ -91,8 +92,17 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
   // Launch CLI thread.
   cli_thread_ = std::thread([this, port]() {
     // Accept the connection and set up streams.
-    cli_fd_ = accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
-    if (cli_fd_ == -1) {
+    int cli_fd = accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
+    if (cli_fd != -1) {
+      absl::MutexLock lock(&cli_fd_mutex_);
+      cli_fd_ = cli_fd;
+      // There is no use in starting a session that is to be stopped.
+      if (stopping_) {
+        good_ = false;
+        return;
+      }
+    }
+    if (cli_fd == -1) {
       good_ = false;
       LOG(ERROR) << "Failed to accept connection on port " << port << ": "
                  << strerror(errno);
@@ -100,8 +110,8 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
       good_ = true;
       // Create input and output streams attached to the socket from which the
       // cli will read commands/write responses.
-      SocketStreambuf out_buf(cli_fd_);
-      SocketStreambuf in_buf(cli_fd_);
+      SocketStreambuf out_buf(cli_fd);
+      SocketStreambuf in_buf(cli_fd);
       std::ostream os(&out_buf);
       if (!os.good()) return;
       std::istream is(&in_buf);
@@ -113,7 +123,7 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
       dbg_shell_.Run(is, os);
       // Let the client know that the session is over. The socket is closed by
       // the destructor.
-      (void)shutdown(cli_fd_, SHUT_RDWR);
+      (void)shutdown(cli_fd, SHUT_RDWR);
       // Notify that CLI is disconnected.
       is_connected_cb_(false);
     }
@@ -123,8 +133,10 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
 
 SocketCLI::~SocketCLI() {
   // Shutdown the connection.
-  if (cli_fd_ != -1) {
-    (void)shutdown(cli_fd_, SHUT_RDWR);
+  {
+    absl::MutexLock lock(&cli_fd_mutex_);
+    stopping_ = true;
+    if (cli_fd_ != -1) (void)shutdown(cli_fd_, SHUT_RDWR);
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
diff --git a/mpact/sim/util/renode/socket_cli.h b/mpact/sim/util/renode/socket_cli.h
index 74124a8..e2f5c6f 100644
--- a/mpact/sim/util/renode/socket_cli.h
+++ b/mpact/sim/util/renode/socket_cli.h
@@ -5,9 +5,11 @@
 #include <sys/socket.h>
 #include <sys/types.h>
 
+#include <atomic>
 #include <thread>  // NOLINT
 
 #include "absl/functional/any_invocable.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/program_loader/elf_program_loader.h"
 
@@ -38,9 +40,13 @@ class SocketCLI {
  private:
   DebugCommandShellInterface& dbg_shell_;
   std::thread cli_thread_;
-  bool good_ = false;
+  std::atomic<bool> good_ = false;
   int server_socket_ = -1;
+  // The client socket is set by the CLI thread, unless the destructor has
+  // started to stop it.
+  absl::Mutex cli_fd_mutex_;
   int cli_fd_ = -1;
+  bool stopping_ = false;
   absl::AnyInvocable<void(bool)> is_connected_cb_;
 };
 
-- 
2.43.0


From 70533e1ce630891cf7ce131c124cdb7a1b2bc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:45 +0000
Subject: [PATCH 126/183] fix: a token fifo ignored its own capacity

---
 mpact/sim/generic/token_fifo.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 7e34c28..86bbfd5 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -52,12 +52,13 @@ TokenFifoBase::TokenFifoBase(ArchState* arch_state, absl::string_view name,
 
 // The fifo is full if it is at capacity or if there are no token available.
 bool TokenFifoBase::IsFull() const {
-  return (token_store_->available() == 0) ||
+  return FifoBase::IsFull() || (token_store_->available() == 0) ||
          (Reserved() >= token_store_->available());
 }
 
 bool TokenFifoBase::IsOverSubscribed() const {
-  return Reserved() > token_store_->available();
+  return FifoBase::IsOverSubscribed() ||
+         (Reserved() > token_store_->available());
 }
 
 bool TokenFifoBase::Push(DataBuffer* db) {
-- 
2.43.0


From d5108b788132b870d50ccf2e796cb2ace3dcd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 127/183] fix: plain stores in a partly covered tag granule hit
 the end of the tag memory

---
 .../sim/util/memory/tagged_flat_demand_memory.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 859721e..49fb675 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -14,9 +14,11 @@
 
 #include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
 
+#include <algorithm>
 #include <bit>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
@@ -47,8 +49,18 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
   addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
-  tag_memory_ = new FlatDemandMemory(TagIndex(memory_size_in_units),
-                                     TagIndex(base_address), 1, 0);
+  // The tags have to cover every granule that the memory touches, including
+  // those that it only covers in part at either end.
+  uint64_t tag_base = TagIndex(base_address);
+  uint64_t tag_size = 0;
+  if (memory_size_in_units > 0) {
+    uint64_t last = base_address + memory_size_in_units - 1;
+    // The memory may extend to the end of the address space.
+    if (last < base_address) last = std::numeric_limits<uint64_t>::max();
+    tag_size = TagIndex(last) - tag_base +
+               std::max<uint64_t>(1, addressable_unit_size / tag_granule_);
+  }
+  tag_memory_ = new FlatDemandMemory(tag_size, tag_base, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From 239c47260cbcdf514b87082749c8f26f9699581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:23 +0000
Subject: [PATCH 128/183] fix: labels of data directives ignored the data
 address unit

---
 mpact/sim/util/asm/simple_assembler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 4c566a3..399394a 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -966,7 +966,11 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Label: '", label, "' defined outside of a section"));
     }
-    auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
+    uint64_t symbol_address = address;
+    if ((section == data_section_) || (section == bss_section_)) {
+      symbol_address = address / data_address_unit_;
+    }
+    auto status = AddSymbol(label, symbol_address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
     if (!status.ok()) return status;
   }
-- 
2.43.0


From d3751d5e683c76a78bf3171a5844ba0d0349002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:40 +0000
Subject: [PATCH 129/183] fix: numbers in isa files were cut at digit
 separators, misread in binary, or threw when large

---
 mpact/sim/decoder/instruction_set_visitor.cc | 35 ++++++++++++++++----
 mpact/sim/decoder/instruction_set_visitor.h  |  1 +
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d6a0b21..9e929a1 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -16,11 +16,15 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
 #include <cstddef>
+#include <cstdint>
+#include <cstdlib>
 #include <filesystem>  // NOLINT: third party.
 #include <fstream>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -34,7 +38,9 @@
 #include "absl/flags/flag.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/match.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
 #include "antlr4-runtime/ParserRuleContext.h"
 #include "mpact/sim/decoder/bundle.h"
@@ -504,9 +510,9 @@ std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx) {
     // indices to the instances vector.
     int range_start;
     int range_end;
-    range_end = range_start = std::stoi(range_spec->range_start->getText());
+    range_end = range_start = VisitNumber(range_spec->range_start);
     if (range_spec->range_end != nullptr) {
-      range_end = std::stoi(range_spec->range_end->getText());
+      range_end = VisitNumber(range_spec->range_end);
     }
     for (int instance = range_start; instance <= range_end; instance++) {
       instances.push_back(instance);
@@ -515,6 +521,22 @@ std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx) {
   return instances;
 }
 
+// Returns the value of a number token. The number is hexadecimal, octal,
+// decimal or binary, and may contain digit separators.
+int InstructionSetVisitor::VisitNumber(antlr4::Token* token) {
+  std::string text = absl::StrReplaceAll(token->getText(), {{"'", ""}});
+  errno = 0;
+  int64_t value = absl::StartsWith(text, "0b")
+                      ? std::strtoll(text.c_str() + 2, nullptr, 2)
+                      : std::strtoll(text.c_str(), nullptr, 0);
+  if ((errno == ERANGE) || (value > std::numeric_limits<int>::max())) {
+    error_listener()->semanticError(
+        token, absl::StrCat("Number is out of range: '", text, "'"));
+    return 0;
+  }
+  return static_cast<int>(value);
+}
+
 void InstructionSetVisitor::VisitConstantDef(ConstantDefCtx* ctx) {
   if (ctx == nullptr) return;
   std::string ident = ctx->ident()->getText();
@@ -779,7 +801,7 @@ void InstructionSetVisitor::VisitSlotDeclaration(
   }
   // Set the size if it is replicated.
   if (ctx->size_spec() != nullptr) {
-    int size = std::stoi(ctx->size_spec()->NUMBER()->getText(), nullptr, 0);
+    int size = VisitNumber(ctx->size_spec()->NUMBER()->getSymbol());
     slot->set_size(size);
   }
   // Add the slot to the ISA.
@@ -833,7 +855,7 @@ void InstructionSetVisitor::VisitConstAndDefaultDecls(ConstAndDefaultCtx* ctx,
     return;
   }
   if (ctx->SIZE() != nullptr) {  // Default size.
-    int value = std::stoi(ctx->NUMBER()->getText(), nullptr, 0);
+    int value = VisitNumber(ctx->NUMBER()->getSymbol());
     slot->set_default_instruction_size(value);
     return;
   }
@@ -1037,7 +1059,7 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
 
   if (ctx->NUMBER() != nullptr) {
     auto* expr =
-        new TemplateConstant(std::stoi(ctx->NUMBER()->getText(), nullptr, 0));
+        new TemplateConstant(VisitNumber(ctx->NUMBER()->getSymbol()));
     return expr;
   }
 
@@ -1648,8 +1670,7 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
 
   // Get the size of the instruction if specified, otherwise use default size.
   if (opcode_ctx->size_spec() != nullptr) {
-    int size =
-        std::stoi(opcode_ctx->size_spec()->NUMBER()->getText(), nullptr, 0);
+    int size = VisitNumber(opcode_ctx->size_spec()->NUMBER()->getSymbol());
     top->set_instruction_size(size);
   } else {
     top->set_instruction_size(slot->default_instruction_size());
diff --git a/mpact/sim/decoder/instruction_set_visitor.h b/mpact/sim/decoder/instruction_set_visitor.h
index 83fa3ba..f6fe409 100644
--- a/mpact/sim/decoder/instruction_set_visitor.h
+++ b/mpact/sim/decoder/instruction_set_visitor.h
@@ -112,6 +112,7 @@ class InstructionSetVisitor {
 
   std::unique_ptr<InstructionSet> VisitIsaDeclaration(IsaDeclCtx* ctx);
   void VisitConstantDef(ConstantDefCtx* ctx);
+  int VisitNumber(antlr4::Token* token);
   void VisitBundleList(BundleListCtx* ctx, Bundle* bundle);
   void VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot);
   void VisitOpcodeOperands(OpcodeOperandsCtx* ctx, int op_spec_number,
-- 
2.43.0


From eae14479f80913d402029b735ef63c822cb1a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:12 +0000
Subject: [PATCH 130/183] fix: global constants were refused in latencies,
 resources and attributes of instructions

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 9e929a1..385d7ae 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1077,11 +1077,13 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
     }
 
     // It should be an opcode operand term, which means it should be a
-    // destination operand with a latency. That is the value/expression that
-    // is needed here.
+    // destination operand with a latency, or a global constant. That is the
+    // value/expression that is needed here.
     if (inst != nullptr) {
       auto* op = inst->GetDestOp(ident);
       if (op == nullptr) {
+        auto* expr = GetConstExpression(ident);
+        if (expr != nullptr) return expr->DeepCopy();
         error_listener()->semanticError(
             file_names_[context_file_map_.at(ctx)], ctx->start,
             absl::StrCat("'", ident,
-- 
2.43.0


From a863627f660e75cc28dd80e8ccd2037036bb19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:12 +0000
Subject: [PATCH 131/183] fix: instruction attributes without a value were 0
 instead of 1

---
 mpact/sim/decoder/instruction_set_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 385d7ae..c730b70 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1346,7 +1346,7 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       attributes.emplace(name, expr);
       continue;
     }
-    attributes.emplace(name, new TemplateConstant(0));
+    attributes.emplace(name, new TemplateConstant(1));
   }
   // Are we parsing attributes for an instruction?
   if (inst != nullptr) {
-- 
2.43.0


From 6f10b728c5f6e59d7503e754111f1becc42ab2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:12 +0000
Subject: [PATCH 132/183] fix: overriding an opcode of a later base slot, or a
 deleted one, threw

---
 mpact/sim/decoder/instruction_set_visitor.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index c730b70..52a79a7 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1207,9 +1207,9 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
         }
       }
     }
-    // Perform the overrides.
-    PerformOpcodeOverrides(overridden_ops_set, slot);
   }
+  // Perform the overrides.
+  PerformOpcodeOverrides(overridden_ops_set, slot);
   // Add the declared opcodes.
   for (auto* inst : instruction_vec) {
     absl::Status status = slot->AppendInstruction(inst);
@@ -1224,7 +1224,14 @@ void InstructionSetVisitor::PerformOpcodeOverrides(
     absl::flat_hash_set<OpcodeSpecCtx*> overridden_ops_set, Slot* slot) {
   for (auto* override_ctx : overridden_ops_set) {
     std::string name = override_ctx->name->getText();
-    auto* inst = slot->instruction_map().at(name);
+    auto iter = slot->instruction_map().find(name);
+    if (iter == slot->instruction_map().end()) {
+      error_listener()->semanticError(
+          file_names_[context_file_map_.at(slot->ctx())], override_ctx->name,
+          absl::StrCat("Overridden opcode '", name, "' is not inherited"));
+      continue;
+    }
+    auto* inst = iter->second;
     VisitOpcodeAttributes(override_ctx->opcode_attribute_list(), inst, slot);
   }
 }
-- 
2.43.0


From cdde7277011e4cf2c0cdebb8d602a7712ddb7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 133/183] fix: resource setters were shared by instructions
 with different resource cycles

---
 mpact/sim/decoder/slot.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 85756e4..b3423c5 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -838,6 +838,15 @@ std::string Slot::CreateResourceKey(
     } else {
       absl::StrAppend(&name, ref->resource->pascal_name());
     }
+    // The simple resources are grouped by the end latency when acquired.
+    if (ref->end_expression != nullptr) {
+      auto end_value = ref->end_expression->GetValue();
+      if (!end_value.ok()) {
+        absl::StrAppend(&name, "(?)");
+      } else {
+        absl::StrAppend(&name, "(", *std::get_if<int>(&end_value.value()), ")");
+      }
+    }
     names.insert(name);
   }
   std::string sep = "";
@@ -860,13 +869,13 @@ std::string Slot::CreateResourceKey(
     if (!begin_value.ok()) {
       absl::StrAppend(&name, "(?)");
     } else {
-      absl::StrAppend(&name, *std::get_if<int>(&begin_value.value()));
+      absl::StrAppend(&name, "(", *std::get_if<int>(&begin_value.value()), ")");
     }
     auto end_value = ref->end_expression->GetValue();
     if (!end_value.ok()) {
       absl::StrAppend(&name, "(?)");
     } else {
-      absl::StrAppend(&name, *std::get_if<int>(&end_value.value()));
+      absl::StrAppend(&name, "(", *std::get_if<int>(&end_value.value()), ")");
     }
     names.insert(name);
   }
-- 
2.43.0


From 8be485bbe9ff98a9e13fdcd5eef0bb8aa12568ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 134/183] fix: shared resource setters requested the resources
 of the wrong opcode

---
 mpact/sim/decoder/slot.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index b3423c5..7200934 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -914,8 +914,9 @@ std::string Slot::GenerateResourceSetterFcn(
   std::string output;
   absl::StrAppend(&output, "void ", name, "(Instruction *inst, ", encoding_type,
                   " *enc, SlotEnum slot, int entry) {\n");
-  std::string opcode_name = inst->opcode()->pascal_name();
-  std::string opcode_enum = absl::StrCat("OpcodeEnum::k", opcode_name);
+  // The function may be shared by multiple instructions, so get the opcode from
+  // the instruction.
+  std::string opcode_enum = "static_cast<OpcodeEnum>(inst->opcode())";
   if (!inst->resource_use_vec().empty() ||
       !inst->resource_acquire_vec().empty()) {
     absl::StrAppend(&output, "  ResourceOperandInterface *res_op;\n");
-- 
2.43.0


From f5871d63d40595dc88eb08bc4b39603fa2e251e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:51 +0000
Subject: [PATCH 135/183] fix: generated decoders with complex array resources
 did not compile, and complex resources were never acquired

---
 mpact/sim/decoder/instruction_set_visitor.cc |  2 +-
 mpact/sim/decoder/slot.cc                    | 18 ++++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 52a79a7..fe3f726 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2393,7 +2393,7 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       "  virtual std::vector<ResourceOperandInterface *> "
       "GetComplexResourceOperands",
       "(", optional_instruction,
-      "SlotEnum slot, int entry, OpcodeEnum opcode, ComplexResourceEnum "
+      "SlotEnum slot, int entry, OpcodeEnum opcode, ListComplexResourceEnum "
       "resource_op, int begin, int end) { return {}; }\n");
   // For each operand type, declare the pure virtual method that returns the
   // given operand.
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 7200934..dd9021c 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -982,13 +982,12 @@ std::string Slot::GenerateResourceSetterFcn(
     }
     if (complex->is_array) {
       absl::StrAppend(
-          &output, "  auto res_op_vec = enc->GetComplexResourceOperands(",
+          &output, "  for (auto *op : enc->GetComplexResourceOperands(",
           optional_inst, "slot, entry, ", opcode_enum,
           ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
-          *begin, ", ", *end, ");\n");
+          ", ", *begin, ", ", *end, ")) {\n");
       absl::StrAppend(&output,
-                      "  for (auto res_op : res_op_vec) {\n"
-                      "    inst->AppendResourceHold(res_op);\n"
+                      "    inst->AppendResourceHold(op);\n"
                       "  }\n");
     } else {
       absl::StrAppend(&output, "  res_op = enc->GetComplexResourceOperand(",
@@ -1088,15 +1087,14 @@ std::string Slot::GenerateResourceSetterFcn(
       int* end = std::get_if<int>(&end_value.value());
       if (complex->is_array) {
         absl::StrAppend(&output,
-                        "  auto res_op_vec = "
+                        "  for (auto *op : "
                         "enc->GetComplexResourceOperands(",
                         optional_inst, "slot, entry, ", opcode_enum,
                         ", ListComplexResourceEnum::k",
-                        complex->resource->pascal_name(), *begin, ", ", *end,
-                        ");\n");
+                        complex->resource->pascal_name(), ", ", *begin, ", ",
+                        *end, ")) {\n");
         absl::StrAppend(&output,
-                        "  for (auto res_op : res_op_vec) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(op);\n"
                         "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
@@ -1106,7 +1104,7 @@ std::string Slot::GenerateResourceSetterFcn(
         absl::StrAppend(&output, *begin, ", ", *end, ");\n");
         absl::StrAppend(&output,
                         "  if (res_op != nullptr) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(res_op);\n"
                         "  }\n");
       }
     }
-- 
2.43.0


From d3c2746953df5dc5e85d23ac64bdce27a06b2164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:51 +0000
Subject: [PATCH 136/183] fix: version 2 decoders with array destinations of
 decode time latency did not compile

---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index fe3f726..3786473 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2437,8 +2437,8 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       &output, "  virtual int GetLatency(", optional_instruction,
       "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, DestOpEnum dest_op, int dest_no) { return 0; };\n",
-      "  virtual std::vector<int> GetLatency(SlotEnum slot, int entry, "
-      "OpcodeEnum "
+      "  virtual std::vector<int> GetLatency(", optional_instruction,
+      "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, ListDestOpEnum dest_op, int dest_no) { return {0}; }\n");
 
   absl::StrAppend(&output, "};\n\n");
-- 
2.43.0


From bad547d629777a3fe1fce2fd03027cfe646992d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:51 +0000
Subject: [PATCH 137/183] fix: destination operands were numbered 0, 2, 4 in
 generated decoders

---
 mpact/sim/decoder/slot.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index dd9021c..eb3aca1 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1259,7 +1259,6 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
       absl::StrAppend(&output, "  inst->AppendDestination(enc->GetDestination(",
                       optional_inst, "slot, entry, opcode, ", dest_op_enum,
                       ", ", dest_no, ", ", latency, "));\n");
-      dest_no++;
     }
     dest_no++;
   }
-- 
2.43.0


From 6ce385032ea8da87aa96030c9451402829bc6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 138/183] fix: instructions with different disassembly formats
 shared a disassembly setter

---
 mpact/sim/decoder/slot.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index eb3aca1..82d8946 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -744,15 +744,9 @@ std::string Slot::GenerateDisasmSetterFcn(absl::string_view name,
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateDisassemblySetter(const Instruction* inst) {
-  std::string key;
-  // First combine the disassembly fragments.
-  for (auto const* format : inst->disasm_format_vec()) {
-    for (auto const& frag : format->format_fragment_vec) {
-      absl::StrAppend(&key, frag);
-    }
-  }
-  // Then add the resources.
-  absl::StrAppend(&key, ":", CreateOperandLookupKey(inst->opcode()));
+  // The function can only be shared by instructions that would generate the
+  // same code, so use the code as the key.
+  std::string key = GenerateDisasmSetterFcn("", inst);
   std::string func_name = absl::StrCat(
       pascal_name(), "Slot", inst->opcode()->pascal_name(), "SetDisasm");
   auto iter = disasm_setter_name_map_->find(key);
-- 
2.43.0


From 0c64631b064872ec120c98f1ba293507af6fece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 139/183] fix: instructions of different slots shared attribute
 setters with other attribute positions

---
 mpact/sim/decoder/slot.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 82d8946..0e9ed21 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -230,11 +230,15 @@ static std::string indent_string(int n) { return std::string(n, ' '); }
 // instructions can share attribute setter functions.
 std::string Slot::CreateAttributeLookupKey(const Instruction* inst) const {
   std::string key;
-  int count = attribute_names_.size();
-  for (auto const& [name, expr] : inst->attribute_map()) {
-    count--;
-    std::string value;
-    auto result = expr->GetValue();
+  // The attribute values are set by position, so the key has an entry for each
+  // of the attributes of the slot.
+  for (auto const& name : attribute_names_) {
+    auto iter = inst->attribute_map().find(name);
+    if (iter == inst->attribute_map().end()) {
+      absl::StrAppend(&key, "[]:");
+      continue;
+    }
+    auto result = iter->second->GetValue();
     if (!result.ok()) {
       absl::StrAppend(&key, name, "[e1]:");
       continue;
@@ -246,9 +250,6 @@ std::string Slot::CreateAttributeLookupKey(const Instruction* inst) const {
     }
     absl::StrAppend(&key, name, "[", *value_ptr, "]:");
   }
-  for (int i = 0; i < count; ++i) {
-    absl::StrAppend(&key, "[]:");
-  }
   return key;
 }
 
-- 
2.43.0


From d0c2f9789a7dfe188e9305145d79c9e424d13cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 140/183] fix: disassembly with operands of the second child
 instruction dereferenced null

---
 mpact/sim/decoder/slot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 0e9ed21..7d91c4b 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -68,7 +68,7 @@ static absl::StatusOr<std::string> TranslateLocator(
     absl::StrAppend(&code, "child()->");
   }
   for (int i = 1; i < locator.op_spec_number; i++) {
-    absl::StrAppend(&code, "next()->");
+    absl::StrAppend(&code, "child()->");
   }
   if (locator.type == 'p') {
     absl::StrAppend(&code, "Predicate()");
-- 
2.43.0


From 9aefddba5ef04033211b5cd565175bf28088ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 141/183] fix: generated attribute setters leaked the attribute
 array

---
 mpact/sim/decoder/slot.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 7d91c4b..d652847 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -261,8 +261,8 @@ std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
   absl::StrAppend(&output, "void ", name, "(Instruction *inst) {\n");
   int size = attribute_names_.size();
   if (size > 0) {
-    // Allocate the array and initialize to zero.
-    absl::StrAppend(&output, "  int *attrs = new int[", size, "]{");
+    // Declare and initialize the array.
+    absl::StrAppend(&output, "  int attrs[", size, "]{");
     for (auto const& attribute_name : attribute_names_) {
       auto it = inst->attribute_map().find(attribute_name);
       if (it == inst->attribute_map().end()) {
-- 
2.43.0


From 127c87bc56d9093c1aa0fa9ade61e684335d8098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:36 +0000
Subject: [PATCH 142/183] fix: generated decoders of instruction sets with slot
 instances did not compile

---
 mpact/sim/decoder/instruction_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 796cc74..87b58ec 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -426,7 +426,7 @@ std::string InstructionSet::GenerateClassDefinitions(
     } else {
       for (auto const index : instance_vec) {
         absl::StrAppend(&output, "  tmp_inst = ", slot_name,
-                        "_decoder_->Decode(address, encoding, , ", enum_name,
+                        "_decoder_->Decode(address, encoding, ", enum_name,
                         ", ", index,
                         ");\n"
                         "  if (tmp_inst != nullptr) size += tmp_inst->size();\n"
-- 
2.43.0


From e9d88181e16ecf6a9e6d7cd05ea1e63b92616a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:36 +0000
Subject: [PATCH 143/183] fix: the size of default opcodes was not initialized

---
 mpact/sim/decoder/opcode.h | 2 +-
 mpact/sim/decoder/slot.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/opcode.h b/mpact/sim/decoder/opcode.h
index ca04563..ba09c73 100644
--- a/mpact/sim/decoder/opcode.h
+++ b/mpact/sim/decoder/opcode.h
@@ -264,7 +264,7 @@ class Opcode {
 
  private:
   Opcode(absl::string_view name, int value);
-  int instruction_size_;
+  int instruction_size_ = 1;
   Opcode* child_ = nullptr;
   Opcode* parent_ = nullptr;
   std::string predicate_op_name_;
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index d652847..9452721 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1284,7 +1284,7 @@ std::string Slot::CreateFuncGetterGlobalArray(absl::string_view encoding_type) {
       GenerateResourceSetter(default_instruction_, encoding_type), ",\n",
       "    ", GenerateAttributeSetter(default_instruction_), ",\n",
       "    SemFuncSetter{", default_instruction_->semfunc_code_string(), "}, ",
-      default_instruction_->opcode()->instruction_size(), "}),\n");
+      default_instruction_size(), "}),\n");
   for (auto const& [unused, inst_ptr] : instruction_map_) {
     auto* instruction = inst_ptr;
     std::string opcode_name = instruction->opcode()->pascal_name();
-- 
2.43.0


From 8806ea3adf3c016fa2882bd84506e710231a416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:36 +0000
Subject: [PATCH 144/183] fix: template parameters in resource cycles were
 refused

---
 mpact/sim/decoder/instruction_set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 87b58ec..d796857 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -105,6 +105,9 @@ Slot* InstructionSet::GetSlot(absl::string_view slot_name) const {
 
 absl::Status InstructionSet::AnalyzeResourceUse() {
   for (auto const* slot : slot_order_) {
+    // The expressions in templated slots can only be evaluated in the slots
+    // that inherit from them.
+    if (slot->is_templated()) continue;
     for (auto& [unused, inst_ptr] : slot->instruction_map()) {
       for (auto const* def : inst_ptr->resource_acquire_vec()) {
         if (def->begin_expression != nullptr) {
-- 
2.43.0


From 54ab9505187ac5886d67a900152e08ff256c3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:03 +0000
Subject: [PATCH 145/183] fix: percent signs could not be escaped in disasm
 strings, and quotes broke the generated code

---
 mpact/sim/decoder/instruction_set_visitor.cc | 37 +++++++++++++-------
 mpact/sim/decoder/slot.cc                    |  5 +--
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 3786473..1665639 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1991,6 +1991,27 @@ static absl::StatusOr<std::pair<std::string, std::string::size_type>> get_ident(
   }
   return std::make_pair(op_name, pos);
 }
+
+// Returns the position of the next '%' that isn't escaped by a backslash.
+static std::string::size_type find_specifier(const std::string& str,
+                                             std::string::size_type pos) {
+  while ((pos = str.find_first_of("\\%", pos)) != std::string::npos) {
+    if (str[pos] == '%') return pos;
+    pos += 2;
+  }
+  return pos;
+}
+
+// Returns the text with the backslashes that escape characters removed.
+static std::string unescape_text(const std::string& str) {
+  std::string text;
+  for (std::string::size_type i = 0; i < str.size(); ++i) {
+    if ((str[i] == '\\') && (i + 1 < str.size())) ++i;
+    text.push_back(str[i]);
+  }
+  return text;
+}
+
 // This method parses the disasm format string.
 absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
                                                       Instruction* inst) {
@@ -2001,14 +2022,9 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
   // Extract raw text without (between) the '%' specifiers.
   DisasmFormat* disasm_fmt = new DisasmFormat();
   while ((pos != std::string::npos) &&
-         ((pos = format.find_first_of('%', pos)) != std::string::npos)) {
+         ((pos = find_specifier(format, pos)) != std::string::npos)) {
     std::string text = format.substr(prev, pos - prev);
-    std::string new_text;
-    for (auto& c : text) {
-      if (c == '\\') continue;
-      new_text.push_back(c);
-    }
-    disasm_fmt->format_fragment_vec.push_back(new_text);
+    disasm_fmt->format_fragment_vec.push_back(unescape_text(text));
     pos++;
     if (pos >= length) break;
 
@@ -2111,12 +2127,7 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
   }
   if (prev != std::string::npos) {
     std::string text = format.substr(prev);
-    std::string new_text;
-    for (auto& c : text) {
-      if (c == '\\') continue;
-      new_text.push_back(c);
-    }
-    disasm_fmt->format_fragment_vec.push_back(new_text);
+    disasm_fmt->format_fragment_vec.push_back(unescape_text(text));
   }
   std::string str;
   for (auto& s : disasm_fmt->format_fragment_vec) {
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 9452721..9a0985d 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -32,6 +32,7 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/escaping.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
@@ -676,8 +677,8 @@ std::string Slot::GenerateDisasmSetterFcn(absl::string_view name,
     std::string next_sep;
     for (auto const& frag : disasm_fmt->format_fragment_vec) {
       if (!frag.empty()) {
-        absl::StrAppend(&output, inner_sep, indent_string(indent), "\"", frag,
-                        "\"");
+        absl::StrAppend(&output, inner_sep, indent_string(indent), "\"",
+                        absl::CEscape(frag), "\"");
         next_sep = ", ";
       }
       if (index < disasm_fmt->format_info_vec.size()) {
-- 
2.43.0


From 878746a953b7c4c3e6aab2d04034a9560e105347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:10 +0000
Subject: [PATCH 146/183] fix: disasm strings with just the instruction address
 threw

---
 mpact/sim/decoder/slot.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 9a0985d..48837c1 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -438,8 +438,13 @@ std::tuple<std::string, std::vector<OperandLocator>> Slot::GenerateRegEx(
           absl::StrAppend(&output, "(?:");
         }
         std::string op_name = (*format_iter)->op_name;
-        absl::StrAppend(&output, "(\\S*?)");
-        opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        if (op_name.empty()) {
+          // The instruction address, it is not an operand.
+          absl::StrAppend(&output, "\\S*?");
+        } else {
+          absl::StrAppend(&output, "(\\S*?)");
+          opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        }
         if ((fragment_iter != fragment_end) && (!(*fragment_iter).empty())) {
           char c = (*fragment_iter)[0];
           // If the next fragment is not alnum or underscore, add a space
-- 
2.43.0


From 03bb07afee871acb5acf1ec5ddef2fa5098c8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:54 +0000
Subject: [PATCH 147/183] fix: generated opcodes lost the spaces between their
 tokens, and syntax errors in them were ignored

---
 mpact/sim/decoder/instruction_set_visitor.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 1665639..ba47912 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1823,6 +1823,17 @@ void InstructionSetVisitor::VisitOpcodeOperands(OpcodeOperandsCtx* ctx,
   }
 }
 
+// Returns the text of the parse tree with its tokens separated by spaces, so
+// that no two tokens are joined into one when the text is parsed again.
+static std::string GetSpacedText(antlr4::tree::ParseTree* tree) {
+  if (tree->children.empty()) return tree->getText();
+  std::string text;
+  for (auto* child : tree->children) {
+    absl::StrAppend(&text, GetSpacedText(child), " ");
+  }
+  return text;
+}
+
 absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
     OpcodeSpecCtx* ctx, Slot* slot, std::vector<Instruction*>& instruction_vec,
     absl::flat_hash_set<std::string>& deleted_ops_set,
@@ -1894,7 +1905,7 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
     }
   }
   // Check that all binding variable references are valid.
-  std::string input_text = ctx->generator_opcode_spec_list()->getText();
+  std::string input_text = GetSpacedText(ctx->generator_opcode_spec_list());
   std::string::size_type start_pos = 0;
   auto pos = input_text.find_first_of('$', start_pos);
   while (pos != std::string::npos) {
@@ -1923,8 +1934,14 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
   // Parse and process the generated text.
   auto* parser = new IsaAntlrParserWrapper(generated_text);
   antlr_parser_wrappers_.push_back(parser);
+  parser->parser()->removeErrorListeners();
+  parser->parser()->addErrorListener(error_listener());
   // Parse the text starting at the opcode_spec_list rule.
   auto opcode_spec_vec = parser->parser()->opcode_spec_list()->opcode_spec();
+  if (error_listener()->syntax_error_count() > 0) {
+    for (auto* info : range_info_vec) delete info;
+    return absl::InternalError("Syntax error in generated opcodes");
+  }
   // Process the opcode spec.
   for (auto* opcode_spec : opcode_spec_vec) {
     ProcessOpcodeSpec(opcode_spec, slot, instruction_vec, deleted_ops_set,
-- 
2.43.0


From 2e8e37e77c86dfbf61bdccc0e4eb353412f392b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 148/183] fix: the isa generator crashed when reading standard
 input

---
 mpact/sim/decoder/instruction_set_visitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index ba47912..eb0aa7a 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -133,8 +133,9 @@ absl::Status InstructionSetVisitor::Process(
   }
   // Create an antlr4 stream from the input stream.
   IsaAntlrParserWrapper parser_wrapper(source_stream);
-  error_listener()->set_file_name(file_names[0]);
-  file_names_.push_back(file_names[0]);
+  std::string file_name = file_names.empty() ? "-" : file_names[0];
+  error_listener()->set_file_name(file_name);
+  file_names_.push_back(file_name);
   parser_wrapper.parser()->removeErrorListeners();
   parser_wrapper.parser()->addErrorListener(error_listener());
 
-- 
2.43.0


From cd5813388a9c48f2a2cfc88f9f34e948590668e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 149/183] fix: slots inheriting from themselves and bundles
 containing themselves overflowed the stack

---
 mpact/sim/decoder/instruction_set_visitor.cc | 16 ++++++++++++++++
 mpact/sim/decoder/instruction_set_visitor.h  |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index eb0aa7a..bd2ec45 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -469,7 +469,14 @@ void InstructionSetVisitor::VisitBundleList(BundleListCtx* ctx,
     }
     // If the bundle hasn't been processed yet, visit its declaration.
     if (!bundle->instruction_set()->bundle_map().contains(bundle_name)) {
+      declarations_being_visited_.insert(iter->second);
       VisitBundleDeclaration(iter->second, bundle->instruction_set());
+      declarations_being_visited_.erase(iter->second);
+    } else if (declarations_being_visited_.contains(iter->second)) {
+      error_listener()->semanticError(
+          file_names_[context_file_map_.at(ctx)], bundle_spec->start,
+          absl::StrCat("Bundle '", bundle_name, "' contains itself"));
+      continue;
     }
     bundle->AppendBundleName(bundle_spec->IDENT()->getText());
   }
@@ -491,7 +498,9 @@ void InstructionSetVisitor::VisitSlotList(SlotListCtx* ctx, Bundle* bundle) {
     }
     // If the slot hasn't been processed yet, visit its declaration.
     if (!bundle->instruction_set()->slot_map().contains(slot_name)) {
+      declarations_being_visited_.insert(iter->second);
       VisitSlotDeclaration(iter->second, bundle->instruction_set());
+      declarations_being_visited_.erase(iter->second);
     }
     // First obtain the vector of instance indices specified before appending.
     std::vector<int> instances = VisitArraySpec(slot_spec->array_spec());
@@ -729,7 +738,14 @@ void InstructionSetVisitor::VisitSlotDeclaration(
       // If the slot hasn't been visited, visit it.
       auto* base = instruction_set->GetSlot(base_name);
       if (base == nullptr) {
+        if (!declarations_being_visited_.insert(slot_iter->second).second) {
+          error_listener()->semanticError(
+              file_names_[context_file_map_.at(ctx)], base_item->start,
+              absl::StrCat("Slot '", base_name, "' inherits from itself"));
+          continue;
+        }
         VisitSlotDeclaration(slot_iter->second, instruction_set);
+        declarations_being_visited_.erase(slot_iter->second);
         base = instruction_set->GetSlot(base_name);
       }
       // Now check if the base slot is templated or not, and if the template
diff --git a/mpact/sim/decoder/instruction_set_visitor.h b/mpact/sim/decoder/instruction_set_visitor.h
index f6fe409..3da6e80 100644
--- a/mpact/sim/decoder/instruction_set_visitor.h
+++ b/mpact/sim/decoder/instruction_set_visitor.h
@@ -227,6 +227,10 @@ class InstructionSetVisitor {
   std::vector<std::string> include_dir_vec_;
   // Keep track of files that are included in case there is recursive includes.
   std::deque<std::string> include_file_stack_;
+  // The slot and bundle declarations that are currently being visited, used to
+  // detect those that inherit from, or contain, themselves.
+  absl::flat_hash_set<const antlr4::ParserRuleContext*>
+      declarations_being_visited_;
   // Error listening object passed to the parser.
   std::unique_ptr<decoder::DecoderErrorListener> error_listener_;
   // For template functions evaluators.
-- 
2.43.0


From 30e89b853952db59a5a538a7e5fd13e254e32b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 150/183] fix: resources or attributes of the default opcode
 dereferenced null

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index bd2ec45..32b51c6 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -940,6 +940,12 @@ void InstructionSetVisitor::VisitConstAndDefaultDecls(ConstAndDefaultCtx* ctx,
         }
         continue;
       }
+      if (attribute->semfunc_spec() == nullptr) {
+        error_listener()->semanticError(
+            file_names_[context_file_map_.at(ctx)], attribute->start,
+            "Only disasm and semfunc can be specified for the default opcode");
+        continue;
+      }
       // Semfunc spec.
       // If a semfunc has already been declared, signal an error.
       if (has_semfunc) {
-- 
2.43.0


From 21cf68b8c5228f15ed645581011cb454fc3db7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 151/183] fix: wrong expressions in attributes and resources
 dereferenced null

---
 mpact/sim/decoder/instruction_set_visitor.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 32b51c6..007a3b3 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1053,6 +1053,7 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
           absl::StrCat("Function '", function, "' takes ", evaluator.arity,
                        " parameters, but ", ctx->expression().size(),
                        " were given"));
+      return nullptr;
     }
     auto* args = new TemplateInstantiationArgs;
     bool has_error = false;
@@ -1373,7 +1374,8 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       context_file_map_.insert(
           {attribute->expression(), context_file_map_.at(slot->ctx())});
       auto* expr = VisitExpression(attribute->expression(), slot, inst);
-      attributes.emplace(name, expr);
+      // An error has already been reported if there is no expression.
+      if (expr != nullptr) attributes.emplace(name, expr);
       continue;
     }
     attributes.emplace(name, new TemplateConstant(1));
@@ -1507,6 +1509,8 @@ InstructionSetVisitor::ProcessResourceReference(
     context_file_map_.insert(
         {resource_item->begin_cycle, context_file_map_.at(slot->ctx())});
     begin_expr = VisitExpression(resource_item->begin_cycle, slot, inst);
+    // An error has already been reported if there is no expression.
+    if (begin_expr == nullptr) return return_value;
   }
 
   if (resource_item->end_cycle == nullptr) {
@@ -1538,6 +1542,10 @@ InstructionSetVisitor::ProcessResourceReference(
     context_file_map_.insert(
         {resource_item->end_cycle, context_file_map_.at(slot->ctx())});
     end_expr = VisitExpression(resource_item->end_cycle, slot, inst);
+    if (end_expr == nullptr) {
+      delete begin_expr;
+      return return_value;
+    }
   }
   auto* ref =
       new ResourceReference(resource, is_array, dest_op, begin_expr, end_expr);
-- 
2.43.0


From 0d686dcc2d64e6fbfff1854f85a269e6a7556243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 152/183] fix: an opcode generator with the same variable twice
 read past the end of a vector

---
 mpact/sim/decoder/instruction_set_visitor.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 007a3b3..43bf283 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1885,7 +1885,6 @@ absl::Status InstructionSetVisitor::ProcessOpcodeGenerator(
         error_listener()->semanticError(
             file_names_[context_file_map_.at(slot->ctx())], assign_ctx->start,
             absl::StrCat("Duplicate binding variable name '", name, "'"));
-        continue;
       }
       range_variable_names.insert(name);
       range_info->range_names.push_back(ident_ctx->getText());
-- 
2.43.0


From fe6dda3df81abeec750f79eec76c56e5ca7dfc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 153/183] fix: errors in inherited opcodes of slots without an
 opcode list dereferenced null

---
 mpact/sim/decoder/instruction_set_visitor.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 43bf283..f92a4a8 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1226,8 +1226,8 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
             slot->AppendInheritedInstruction(inst_ptr, base_slot.arguments);
         if (!status.ok()) {
           error_listener()->semanticError(
-              file_names_[context_file_map_.at(ctx)], ctx->start,
-              status.message());
+              file_names_[context_file_map_.at(slot->ctx())],
+              slot->ctx()->start, status.message());
         }
       }
     }
@@ -1634,7 +1634,9 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
     auto status = ProcessOpcodeGenerator(opcode_ctx, slot, instruction_vec,
                                          deleted_ops_set, overridden_ops_set);
     if (!status.ok()) {
-      error_listener()->semanticError(opcode_ctx->name, status.message());
+      error_listener()->semanticError(
+          file_names_[context_file_map_.at(slot->ctx())], opcode_ctx->start,
+          status.message());
     }
     return;
   }
@@ -1680,13 +1682,15 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
     // Multiple inheritance is not supported.
     if (found == 0) {
       error_listener()->semanticError(
-          file_names_[context_file_map_.at(slot->ctx())], opcode_ctx->deleted,
+          file_names_[context_file_map_.at(slot->ctx())],
+          opcode_ctx->overridden,
           absl::StrCat("Base slot does not define or inherit opcode '",
                        opcode_name, "'"));
       return;
     } else if (found > 1) {
       error_listener()->semanticError(
-          file_names_[context_file_map_.at(slot->ctx())], opcode_ctx->deleted,
+          file_names_[context_file_map_.at(slot->ctx())],
+          opcode_ctx->overridden,
           absl::StrCat("Multiple inheritance of opcodes is not supported: ",
                        opcode_name));
       return;
-- 
2.43.0


From b674adb66a087bdd4209146e14d3afc817993ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:28 +0000
Subject: [PATCH 154/183] fix: wrong operand expressions in disasm strings were
 accepted, threw, or freed memory twice

---
 mpact/sim/decoder/instruction_set_visitor.cc | 37 ++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index f92a4a8..ff0b6d3 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -39,6 +39,7 @@
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/match.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
@@ -2026,6 +2027,10 @@ std::string InstructionSetVisitor::GenerateOpcodeSpec(
 static absl::StatusOr<std::pair<std::string, std::string::size_type>> get_ident(
     std::string str, std::string::size_type pos) {
   // If the next character is not an alpha or '_' it's an error.
+  if (pos >= str.size()) {
+    return absl::InternalError(
+        absl::StrCat("Missing operand name in '", str, "'"));
+  }
   if (!std::isalpha(str[pos]) && (str[pos] != '_')) {
     return absl::InternalError(
         absl::StrCat("Invalid character in operand name at position ", pos,
@@ -2069,7 +2074,6 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
   std::string::size_type pos = 0;
   std::string::size_type prev = 0;
   std::string::size_type length = format.size();
-  FormatInfo* format_info = nullptr;
   // Extract raw text without (between) the '%' specifiers.
   DisasmFormat* disasm_fmt = new DisasmFormat();
   while ((pos != std::string::npos) &&
@@ -2107,7 +2111,8 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
         return res.status();
       }
 
-      format_info = res.value();
+      auto* format_info = res.value();
+      disasm_fmt->format_info_vec.push_back(format_info);
 
       pos = end_pos;
 
@@ -2121,7 +2126,6 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
         if (end_pos == std::string::npos) break;
         auto res = ParseNumberFormat(format.substr(pos, end_pos - pos));
         if (!res.ok()) {
-          delete format_info;
           delete disasm_fmt;
           return res.status();
         }
@@ -2139,7 +2143,6 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
         }
       }
       format_info->is_formatted = true;
-      disasm_fmt->format_info_vec.push_back(format_info);
 
     } else {  // Simple %opname specifier.
       auto res = get_ident(format, pos);
@@ -2171,7 +2174,6 @@ absl::Status InstructionSetVisitor::ParseDisasmFormat(std::string format,
     prev = pos;
   }
   if (pos != std::string::npos) {
-    delete format_info;
     delete disasm_fmt;
     return absl::InternalError(
         absl::StrCat("Unexpected end of format string in '", format, "'"));
@@ -2290,11 +2292,21 @@ absl::StatusOr<FormatInfo*> InstructionSetVisitor::ParseFormatExpression(
       return res.status();
     }
     auto [ident, new_pos] = res.value();
+    if (!op->op_locator_map().contains(ident)) {
+      delete format_info;
+      return absl::InternalError(absl::StrCat("Invalid operand '", ident,
+                                              "' used in format for opcode'",
+                                              op->name(), "'"));
+    }
     format_info->op_name = ident;
 
-    pos = skip_space(expr, new_pos);
-
     // Get the shift direction.
+    pos = skip_space(expr, new_pos);
+    if (pos == std::string::npos) {
+      delete format_info;
+      return absl::InternalError(
+          absl::StrCat("Missing shift in expression '", expr, "'"));
+    }
     if (expr.substr(pos, 2) == "<<") {
       format_info->do_left_shift = true;
     } else if (expr.substr(pos, 2) != ">>") {
@@ -2308,7 +2320,7 @@ absl::StatusOr<FormatInfo*> InstructionSetVisitor::ParseFormatExpression(
     pos = skip_space(expr, pos);
 
     std::string num;
-    while (std::isdigit(expr[pos])) {
+    while ((pos < expr.size()) && std::isdigit(expr[pos])) {
       num.push_back(expr[pos]);
       pos++;
     }
@@ -2317,12 +2329,17 @@ absl::StatusOr<FormatInfo*> InstructionSetVisitor::ParseFormatExpression(
       return absl::InternalError(
           absl::StrCat("Malformed expression - no shift amount '", expr, "'"));
     }
-    format_info->shift_amount = std::stoi(num);
+    if (!absl::SimpleAtoi(num, &format_info->shift_amount) ||
+        (format_info->shift_amount > 63)) {
+      delete format_info;
+      return absl::InternalError(absl::StrCat(
+          "Malformed expression - shift amount out of range '", expr, "'"));
+    }
 
     // Verify close paren, and that there aren't any other characters after
     // that.
     pos = skip_space(expr, pos);
-    if (expr[pos] != ')') {
+    if ((pos == std::string::npos) || (expr[pos] != ')')) {
       delete format_info;
       return absl::InternalError(
           absl::StrCat("Malformed expression - expected ')' '", expr, "'"));
-- 
2.43.0


From 3e87d9f374af977ca830c13d3eaa7e77c8942bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 155/183] fix: reversed slot instance ranges were accepted as
 all instances, and large ones exhausted memory

---
 mpact/sim/decoder/instruction_set_visitor.cc | 17 +++++++++++++++--
 mpact/sim/decoder/instruction_set_visitor.h  |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index ff0b6d3..63ff30b 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -504,12 +504,14 @@ void InstructionSetVisitor::VisitSlotList(SlotListCtx* ctx, Bundle* bundle) {
       declarations_being_visited_.erase(iter->second);
     }
     // First obtain the vector of instance indices specified before appending.
-    std::vector<int> instances = VisitArraySpec(slot_spec->array_spec());
+    std::vector<int> instances = VisitArraySpec(
+        slot_spec->array_spec(), bundle->instruction_set()->GetSlot(slot_name));
     bundle->AppendSlot(slot_name, instances);
   }
 }
 
-std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx) {
+std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx,
+                                                       const Slot* slot) {
   std::vector<int> instances;
 
   // If there are not array specifications, return the empty vector.
@@ -525,6 +527,17 @@ std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx) {
     if (range_spec->range_end != nullptr) {
       range_end = VisitNumber(range_spec->range_end);
     }
+    if (range_start > range_end) {
+      error_listener()->semanticError(
+          range_spec->start, absl::StrCat("Range ", range_start, "..",
+                                          range_end, " is empty"));
+      continue;
+    }
+    // The instances are checked against the number of instances of the slot
+    // later on. Don't expand a range that is already known to be too large.
+    if ((slot != nullptr) && (range_end >= slot->size())) {
+      range_start = range_end;
+    }
     for (int instance = range_start; instance <= range_end; instance++) {
       instances.push_back(instance);
     }
diff --git a/mpact/sim/decoder/instruction_set_visitor.h b/mpact/sim/decoder/instruction_set_visitor.h
index 3da6e80..74dbecf 100644
--- a/mpact/sim/decoder/instruction_set_visitor.h
+++ b/mpact/sim/decoder/instruction_set_visitor.h
@@ -123,7 +123,7 @@ class InstructionSetVisitor {
   void VisitConstAndDefaultDecls(ConstAndDefaultCtx* ctx, Slot* slot);
   TemplateExpression* VisitExpression(ExpressionCtx* ctx, Slot* slot,
                                       Instruction* inst);
-  std::vector<int> VisitArraySpec(ArraySpecCtx* ctx);
+  std::vector<int> VisitArraySpec(ArraySpecCtx* ctx, const Slot* slot);
   void VisitNamespaceDecl(NamespaceDeclCtx* ctx, InstructionSet* isa);
   void VisitBundleDeclaration(BundleDeclCtx* ctx,
                               InstructionSet* instruction_set);
-- 
2.43.0


From 698770d6fcb4c4fb039eba8a7e5fa0b9447013f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 156/183] fix: the range check of slot instances overflowed for
 the largest index

---
 mpact/sim/decoder/instruction_set_visitor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 63ff30b..5f8a304 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -536,7 +536,8 @@ std::vector<int> InstructionSetVisitor::VisitArraySpec(ArraySpecCtx* ctx,
     // The instances are checked against the number of instances of the slot
     // later on. Don't expand a range that is already known to be too large.
     if ((slot != nullptr) && (range_end >= slot->size())) {
-      range_start = range_end;
+      instances.push_back(range_end);
+      continue;
     }
     for (int instance = range_start; instance <= range_end; instance++) {
       instances.push_back(instance);
-- 
2.43.0


From f3277767242b3cde60ad830fbc5a81d8d7e45be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 157/183] fix: an opcode overridden twice got the attributes of
 either override

---
 mpact/sim/decoder/instruction_set_visitor.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 5f8a304..75d2ded 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1710,6 +1710,15 @@ void InstructionSetVisitor::ProcessOpcodeSpec(
                        opcode_name));
       return;
     }
+    for (auto* overridden_ctx : overridden_ops_set) {
+      if (overridden_ctx->name->getText() != opcode_name) continue;
+      error_listener()->semanticError(
+          file_names_[context_file_map_.at(slot->ctx())],
+          opcode_ctx->overridden,
+          absl::StrCat("Opcode '", opcode_name,
+                       "' is overridden more than once"));
+      return;
+    }
     overridden_ops_set.insert(opcode_ctx);
     return;
   }
-- 
2.43.0


From 05e813af73c846815b9849df73135a29a65ae4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 158/183] fix: negative latencies in child instructions were
 accepted

---
 mpact/sim/decoder/slot.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 48837c1..b7168d4 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -179,11 +179,20 @@ Slot::~Slot() {
   attribute_map_.clear();
 }
 
-absl::Status Slot::AppendInstruction(Instruction* inst) {
-  if (!is_templated()) {
+// Returns true if none of the destination operands of the instruction and its
+// child instructions have a negative (or otherwise invalid) latency.
+static bool HasValidLatencies(const Instruction* inst) {
+  for (; inst != nullptr; inst = inst->child()) {
     bool valid = inst->opcode()->ValidateDestLatencies(
         [](int l) -> bool { return l >= 0; });
-    if (!valid) {
+    if (!valid) return false;
+  }
+  return true;
+}
+
+absl::Status Slot::AppendInstruction(Instruction* inst) {
+  if (!is_templated()) {
+    if (!HasValidLatencies(inst)) {
       return absl::InternalError(absl::StrCat("Invalid latency for opcode '",
                                               inst->opcode()->name(), "'"));
     }
@@ -205,9 +214,7 @@ absl::Status Slot::AppendInheritedInstruction(Instruction* inst,
 
     if (derived.ok()) {
       if (!is_templated()) {
-        bool valid = derived.value()->opcode()->ValidateDestLatencies(
-            [](int l) -> bool { return l >= 0; });
-        if (!valid) {
+        if (!HasValidLatencies(derived.value())) {
           return absl::InternalError(absl::StrCat(
               "Invalid latency for opcode '", inst->opcode()->name(), "'"));
         }
-- 
2.43.0


From fdf53587cb30989fe01fe2d8b758452cf6c44a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 159/183] fix: attributes and disasm widths without a value
 were accepted

---
 mpact/sim/decoder/instruction_set.cc         | 20 ++++++++++++++++++++
 mpact/sim/decoder/instruction_set.h          |  2 ++
 mpact/sim/decoder/instruction_set_visitor.cc |  7 ++++++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index d796857..cb5d01e 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -127,6 +127,26 @@ absl::Status InstructionSet::AnalyzeResourceUse() {
   return absl::OkStatus();
 }
 
+absl::Status InstructionSet::CheckAttributeValues() const {
+  for (auto const* slot : slot_order_) {
+    // The expressions in templated slots can only be evaluated in the slots
+    // that inherit from them.
+    if (slot->is_templated()) continue;
+    for (auto& [unused, inst_ptr] : slot->instruction_map()) {
+      for (auto const* inst = inst_ptr; inst != nullptr; inst = inst->child()) {
+        for (auto const& [name, expr] : inst->attribute_map()) {
+          auto result = expr->GetValue();
+          if (result.ok()) continue;
+          return absl::InternalError(absl::StrCat(
+              "Attribute '", name, "' of opcode '", inst->opcode()->name(),
+              "' in slot '", slot->name(), "': ", result.status().message()));
+        }
+      }
+    }
+  }
+  return absl::OkStatus();
+}
+
 void InstructionSet::ComputeSlotAndBundleOrders() {
   // Compute order of slot definitions
   for (auto const& [unused, slot_ptr] : slot_map_) {
diff --git a/mpact/sim/decoder/instruction_set.h b/mpact/sim/decoder/instruction_set.h
index ea92ef3..2570f3f 100644
--- a/mpact/sim/decoder/instruction_set.h
+++ b/mpact/sim/decoder/instruction_set.h
@@ -65,6 +65,8 @@ class InstructionSet {
   // determine which resources must be modeled by complex resource types vs
   // simple resource types.
   absl::Status AnalyzeResourceUse();
+  // Verifies that the values of all the instruction attributes can be computed.
+  absl::Status CheckAttributeValues() const;
   // Return strings containing class declarations, definitions, and opcode enum
   // class.
   std::string GenerateClassDeclarations(absl::string_view file_name,
diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 75d2ded..092240d 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -184,6 +184,10 @@ absl::Status InstructionSetVisitor::Process(
   if (!status.ok()) {
     error_listener()->semanticError(nullptr, status.message());
   }
+  status = instruction_set->CheckAttributeValues();
+  if (!status.ok()) {
+    error_listener()->semanticError(nullptr, status.message());
+  }
 
   // If the prefix is empty, use the source file name.
   if (isa_prefix.empty() && file_names.empty()) {
@@ -850,7 +854,8 @@ void InstructionSetVisitor::VisitDisasmWidthsDecl(DisasmWidthsCtx* ctx) {
   for (auto* expr : ctx->expression()) {
     context_file_map_.insert({expr, context_file_map_.at(ctx)});
     auto* width_expr = VisitExpression(expr, nullptr, nullptr);
-    if ((width_expr == nullptr) || (!width_expr->IsConstant())) {
+    if ((width_expr == nullptr) || (!width_expr->IsConstant()) ||
+        !width_expr->GetValue().ok()) {
       error_listener()->semanticError(expr->start,
                                       "Expression must be constant");
       continue;
-- 
2.43.0


From ad37cb584cd032b96a362bc0bf53f0f9144cc2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 160/183] fix: negative cycles of resources were accepted

---
 mpact/sim/decoder/instruction_set.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index cb5d01e..359ca56 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -113,6 +113,11 @@ absl::Status InstructionSet::AnalyzeResourceUse() {
         if (def->begin_expression != nullptr) {
           auto result = def->begin_expression->GetValue();
           if (!result.ok()) return result.status();
+          if (std::get<int>(result.value()) < 0) {
+            return absl::InternalError(
+                absl::StrCat("Negative begin cycle of resource '",
+                             def->resource->name(), "'"));
+          }
           if (std::get<int>(result.value()) != 0) {
             def->resource->set_is_simple(false);
           }
@@ -120,6 +125,10 @@ absl::Status InstructionSet::AnalyzeResourceUse() {
         if (def->end_expression != nullptr) {
           auto result = def->end_expression->GetValue();
           if (!result.ok()) return result.status();
+          if (std::get<int>(result.value()) < 0) {
+            return absl::InternalError(absl::StrCat(
+                "Negative end cycle of resource '", def->resource->name(), "'"));
+          }
         }
       }
     }
-- 
2.43.0


From d2192984529ea67bd733875d23efc964dd4fc793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 161/183] fix: templated slots were accepted as slots of the
 isa

---
 mpact/sim/decoder/instruction_set_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 092240d..d2219ae 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -295,6 +295,12 @@ void InstructionSetVisitor::PerformBundleReferenceChecks(
       }
     }
     if (slot->is_referenced()) continue;
+    if (slot->is_templated()) {
+      error_listener()->semanticError(
+          slot->ctx()->start,
+          absl::StrCat("Templated slot '", slot->name(),
+                       "' can only be used as a base slot"));
+    }
     if ((slot->default_instruction() == nullptr) ||
         slot->default_instruction()->semfunc_code_string().empty()) {
       error_listener()->semanticError(
-- 
2.43.0


From 5082d7d2d043455e77df2368a47802952903f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 162/183] fix: intersections of proto value sets lost or kept
 single points wrongly

---
 mpact/sim/decoder/proto_constraint_value_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index 27e1910..b231986 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -249,7 +249,7 @@ ProtoConstraintValueSet::SubRange ProtoConstraintValueSet::IntersectSubrange(
   }
   // Check for a null set if max == min, but either endpoint is not included.
   if ((min_value == max_value) &&
-      !(subrange.max_included && lhs_subrange.min_included)) {
+      !(subrange.max_included && subrange.min_included)) {
     delete subrange.min;
     delete subrange.max;
     return {nullptr, false, nullptr, false};
-- 
2.43.0


From 4203dd42a22ac29a905c6c01a3c9b7f6bdcb6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 163/183] fix: two constraints on one proto field crashed the
 generator

---
 mpact/sim/decoder/proto_encoding_group.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index f311316..c43fe46 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -338,6 +338,7 @@ void ProtoEncodingGroup::CheckEncodings() {
       }
       // This is not the first occurance of a field descriptor. Intersect
       // with the current range.
+      value_set = value_sets.back().back();
       auto status =
           value_set->IntersectWith(ProtoConstraintValueSet(constraint));
       // Check for error.
-- 
2.43.0


From 2ff84fe560a79fc8f468895e83eb666f4cf8673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 164/183] fix: proto number literals with a suffix or
 separators were refused

---
 mpact/sim/decoder/proto_format_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index a2dbce5..0cfb685 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/decoder/proto_format_visitor.h"
 
+#include <algorithm>
 #include <unistd.h>
 
 #include <cctype>
@@ -638,6 +639,13 @@ ProtoConstraintExpression* ProtoFormatVisitor::VisitNumber(NumberCtx* ctx) {
   bool is_long_long = absl::StrContains(num_str, "ll");
   bool is_long = !is_long_long && absl::StrContains(num_str, "l");
   bool is_hex = num_str.substr(0, 2) == "0x";
+  // Remove the suffix and the digit separators, the conversion functions don't
+  // accept them.
+  num_str.erase(std::remove_if(num_str.begin(), num_str.end(),
+                               [](char c) {
+                                 return c == 'u' || c == 'l' || c == '\'';
+                               }),
+                num_str.end());
   // If neither 'l' nor 'll' is specified, try using the 32 bit wide integer if
   // the value fits, otherwise use 64 bit.
   if (is_signed) {  // Either int32 or int64
-- 
2.43.0


From 1d31a3e39842af24740268c391a6b6cb99aee704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 165/183] fix: unknown proto fields and HAS() of plain fields
 crashed the generator

---
 mpact/sim/decoder/proto_format_visitor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 0cfb685..9df7ac7 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -262,6 +262,7 @@ const google::protobuf::FieldDescriptor* ProtoFormatVisitor::GetField(
   // If this is a "leaf" field, find it and return if found.
   if (pos == std::string::npos) {
     auto* field_desc = message_type->FindFieldByName(field_name);
+    if (field_desc == nullptr) return nullptr;
     if (field_desc->containing_oneof() != nullptr) {
       one_of_fields.push_back(field_desc);
     }
@@ -549,7 +550,7 @@ void ProtoFormatVisitor::VisitFieldConstraint(
     // If the last field in one_of_fields is the field with the kHas constraint
     // remove that field from the vector, as it will be handled in the
     // constraint.
-    if (field_desc == one_of_fields.back()) {
+    if (!one_of_fields.empty() && (field_desc == one_of_fields.back())) {
       one_of_fields.pop_back();
     }
     status = inst_encoding->AddConstraint(ctx, ConstraintType::kHas, field_desc,
-- 
2.43.0


From 9a2232e4bad7b36cb048398be24fff7b7bdc0938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 166/183] fix: optional proto fields were treated as members of
 a oneof

---
 mpact/sim/decoder/proto_constraint_value_set.cc |  2 +-
 mpact/sim/decoder/proto_encoding_group.cc       | 10 +++++-----
 mpact/sim/decoder/proto_format_visitor.cc       |  4 ++--
 mpact/sim/decoder/proto_instruction_encoding.cc | 14 +++++++-------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index b231986..b320579 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -139,7 +139,7 @@ ProtoConstraintValueSet::ProtoConstraintValueSet(
     case ConstraintType::kHas: {
       int32_t value = -1;
       auto* field = constraint->field_descriptor;
-      auto* one_of = constraint->field_descriptor->containing_oneof();
+      auto* one_of = constraint->field_descriptor->real_containing_oneof();
       for (int32_t i = 0; i < one_of->field_count(); ++i) {
         if (one_of->field(i)->name() == field->name()) {
           value = i;
diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index c43fe46..2ba822a 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -95,7 +95,7 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
   // instructions in the encoding group.
   for (auto* eq_constraint : enc->equal_constraints()) {
     auto const* field = eq_constraint->field_descriptor;
-    auto const* oneof = field->containing_oneof();
+    auto const* oneof = field->real_containing_oneof();
     auto const* expr = eq_constraint->expr;
     auto op = eq_constraint->op;
     auto* qualifed_ident_ctx = eq_constraint->ctx->qualified_ident();
@@ -136,7 +136,7 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
       oneof = nullptr;
     } else if (op == ConstraintType::kHas) {
       value = field->index();
-      oneof = field->containing_oneof();
+      oneof = field->real_containing_oneof();
       field = nullptr;
     } else {
       error_listener()->semanticError(
@@ -170,7 +170,7 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
   // aren't added with differentiators that are also used in other constraints.
   for (auto* constraint : enc->other_constraints()) {
     auto const* field = constraint->field_descriptor;
-    auto const* oneof = field->containing_oneof();
+    auto const* oneof = field->real_containing_oneof();
     if (oneof != nullptr) {
       other_oneof_set_.insert(oneof);
       continue;
@@ -244,7 +244,7 @@ void ProtoEncodingGroup::AddSubGroups() {
         } else {  // This constraint is a kHas.
           if ((best_field->oneof != nullptr) &&
               (best_field->oneof ==
-               constraint->field_descriptor->containing_oneof())) {
+               constraint->field_descriptor->real_containing_oneof())) {
             break;
           }
         }
@@ -443,7 +443,7 @@ std::string ProtoEncodingGroup::EmitLeafDecoder(
       if (pos != std::string::npos) {
         prefix = absl::StrCat(".", ident.substr(0, pos + 1));
       }
-      auto oneof_desc = constraint->field_descriptor->containing_oneof();
+      auto oneof_desc = constraint->field_descriptor->real_containing_oneof();
       auto oneof_name = oneof_desc->name();
       std::string parent_name;
       for (auto parent = oneof_desc->containing_type(); parent != nullptr;
diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 9df7ac7..0128d09 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -263,7 +263,7 @@ const google::protobuf::FieldDescriptor* ProtoFormatVisitor::GetField(
   if (pos == std::string::npos) {
     auto* field_desc = message_type->FindFieldByName(field_name);
     if (field_desc == nullptr) return nullptr;
-    if (field_desc->containing_oneof() != nullptr) {
+    if (field_desc->real_containing_oneof() != nullptr) {
       one_of_fields.push_back(field_desc);
     }
     return field_desc;
@@ -273,7 +273,7 @@ const google::protobuf::FieldDescriptor* ProtoFormatVisitor::GetField(
   std::string remainder = field_name.substr(pos + 1);
   auto const* field_desc = message_type->FindFieldByName(field);
   if (field_desc == nullptr) return nullptr;
-  if (field_desc->containing_oneof() != nullptr) {
+  if (field_desc->real_containing_oneof() != nullptr) {
     one_of_fields.push_back(field_desc);
   }
   auto const* message_desc = field_desc->message_type();
diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index bbd16b2..a3d6bc5 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -102,7 +102,7 @@ absl::Status ProtoInstructionEncoding::AddSetter(
   // constraint, signal an error.
   ProtoConstraint* depends_on = nullptr;
   for (auto const* desc : one_of_fields) {
-    auto iter = oneof_field_map_.find(desc->containing_oneof());
+    auto iter = oneof_field_map_.find(desc->real_containing_oneof());
     if (iter != oneof_field_map_.end()) {
       // Duplicate of an encoding constraint.
       if (iter->second == desc) continue;
@@ -131,7 +131,7 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   // duplicate one_of field constraints.
   ProtoConstraint* depends_on = nullptr;
   for (auto const* desc : one_of_fields) {
-    auto iter = oneof_field_map_.find(desc->containing_oneof());
+    auto iter = oneof_field_map_.find(desc->real_containing_oneof());
     if (iter != oneof_field_map_.end()) {
       if (iter->second == field_descriptor) {
         continue;  // Ignore duplicate.
@@ -144,7 +144,7 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
       }
     }
     // Add the one_of to the oneof_field_map_.
-    oneof_field_map_.emplace(desc->containing_oneof(), desc);
+    oneof_field_map_.emplace(desc->real_containing_oneof(), desc);
     depends_on = AddHasConstraint(desc, depends_on);
   }
   // In order to generate a reasonably efficient decoder we divide the
@@ -183,10 +183,10 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
     equal_constraints_.push_back(
         new ProtoConstraint{ctx, field_descriptor, op, expr, 0, nullptr});
   } else if ((op == ConstraintType::kHas) &&
-             (field_descriptor->containing_oneof() != nullptr)) {
+             (field_descriptor->real_containing_oneof() != nullptr)) {
     // If it's a kHas constraint on an one_of field, first make sure that it
     // does not contradict or duplicate any previous one_of kHas constraints.
-    auto* oneof_desc = field_descriptor->containing_oneof();
+    auto* oneof_desc = field_descriptor->real_containing_oneof();
     auto iter = oneof_field_map_.find(oneof_desc);
     if (iter != oneof_field_map_.end()) {
       // There is already a constraint on this oneof. Either it's the same
@@ -348,7 +348,7 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   auto generate_if_statement = [&](int indent,
                                    const ProtoConstraint* constraint) {
     auto* desc = constraint->field_descriptor;
-    auto* oneof = desc->containing_oneof();
+    auto* oneof = desc->real_containing_oneof();
     absl::StrAppend(&setter_code_, std::string(indent, ' '), "if ($.");
     if (oneof != nullptr) {
       absl::StrAppend(&setter_code_, oneof->name(),
@@ -401,7 +401,7 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
               recursive_if_conditions(depends_on, if_conditions);
               if (!if_conditions.empty()) sep = " && ";
             }
-            auto* oneof = desc->containing_oneof();
+            auto* oneof = desc->real_containing_oneof();
             std::string ident = constraint->ctx->qualified_ident()->getText();
             auto pos = ident.find_last_of('.');
             std::string prefix;
-- 
2.43.0


From 09d6966dc5fbe8e94742c5f24c147cb289f335e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 167/183] fix: any type was accepted for a setter of unsigned
 values

---
 mpact/sim/decoder/proto_encoding_info.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_encoding_info.cc b/mpact/sim/decoder/proto_encoding_info.cc
index 1c01936..eb1df21 100644
--- a/mpact/sim/decoder/proto_encoding_info.cc
+++ b/mpact/sim/decoder/proto_encoding_info.cc
@@ -125,7 +125,7 @@ absl::Status ProtoEncodingInfo::CheckSetterType(
         return absl::OkStatus();
       }
       if ((cpp_type == google::protobuf::FieldDescriptor::CPPTYPE_INT32) ||
-          (iter->second = google::protobuf::FieldDescriptor::CPPTYPE_INT64)) {
+          (cpp_type == google::protobuf::FieldDescriptor::CPPTYPE_INT64)) {
         iter->second = google::protobuf::FieldDescriptor::CPPTYPE_INT64;
         return absl::OkStatus();
       }
-- 
2.43.0


From 977230f9229f0d6ff86a637c30c0474b5f7c687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 168/183] fix: constraints on fields of oneof members were
 dropped or refused

---
 .../sim/decoder/proto_instruction_encoding.cc | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index a3d6bc5..924749b 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -132,20 +132,26 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   ProtoConstraint* depends_on = nullptr;
   for (auto const* desc : one_of_fields) {
     auto iter = oneof_field_map_.find(desc->real_containing_oneof());
-    if (iter != oneof_field_map_.end()) {
-      if (iter->second == field_descriptor) {
-        continue;  // Ignore duplicate.
-      } else {
-        // This contradicts a previous one_of constraint. Flag an error.
-        return absl::InternalError(
-            absl::StrCat("One_of constraint on '", desc->name(),
-                         "' contradicts previous constraint on '",
-                         iter->second->name(), "'"));
-      }
+    if ((iter != oneof_field_map_.end()) && (iter->second != desc)) {
+      // This contradicts a previous one_of constraint. Flag an error.
+      return absl::InternalError(
+          absl::StrCat("One_of constraint on '", desc->name(),
+                       "' contradicts previous constraint on '",
+                       iter->second->name(), "'"));
     }
+    depends_on = AddHasConstraint(desc, depends_on);
+    if (iter != oneof_field_map_.end()) continue;  // Ignore duplicate.
     // Add the one_of to the oneof_field_map_.
     oneof_field_map_.emplace(desc->real_containing_oneof(), desc);
-    depends_on = AddHasConstraint(desc, depends_on);
+    // Add an equal constraint on the first one_of_field dependency, and the
+    // remaining one_of dependencies to the other constraints.
+    auto* has_constraint = new ProtoConstraint{
+        ctx, desc, ConstraintType::kHas, nullptr, 0, nullptr};
+    if (desc == one_of_fields[0]) {
+      equal_constraints_.push_back(has_constraint);
+    } else {
+      other_constraints_.push_back(has_constraint);
+    }
   }
   // In order to generate a reasonably efficient decoder we divide the
   // constraints into two sets, those that can be used as indices into function
@@ -157,17 +163,9 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   // top level in the proto.
 
   if (!one_of_fields.empty()) {
-    // Add equal constraint on the first one_of_field dependency.
-    equal_constraints_.push_back(new ProtoConstraint{
-        ctx, one_of_fields[0], ConstraintType::kHas, nullptr, 0, nullptr});
-    // Add the remaining one_of depende ncies to the other constraints.
-    for (int i = 1; i < one_of_fields.size(); ++i) {
-      other_constraints_.push_back(new ProtoConstraint{
-          ctx, one_of_fields[i], ConstraintType::kHas, nullptr, 0, nullptr});
-      // Add the constraint to the 'other' constraints.
-      other_constraints_.push_back(
-          new ProtoConstraint{ctx, field_descriptor, op, expr, 0, depends_on});
-    }
+    // Add the constraint to the 'other' constraints.
+    other_constraints_.push_back(
+        new ProtoConstraint{ctx, field_descriptor, op, expr, 0, depends_on});
     return absl::OkStatus();
   }
 
-- 
2.43.0


From 665b7d825f2f7583a789648a4f647bda9ddd226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 169/183] fix: conditions of proto decoders did not compile

---
 mpact/sim/decoder/proto_encoding_group.cc     | 43 ++++++++-----------
 .../sim/decoder/proto_instruction_encoding.cc | 32 ++++++++++++++
 .../sim/decoder/proto_instruction_encoding.h  | 15 +++++++
 3 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 2ba822a..85cc231 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -433,35 +433,28 @@ std::string ProtoEncodingGroup::EmitLeafDecoder(
   }
 
   // Helper lambda.
+  auto const* message_type = inst_group_->message_type();
   auto generate_condition =
-      [](const ProtoConstraint* constraint) -> std::string {
-    std::string output;
+      [message_type](const ProtoConstraint* constraint) -> std::string {
+    auto* ctx = constraint->ctx;
+    auto const* field = constraint->field_descriptor;
+    std::string ident = ctx->qualified_ident()->getText();
     if (constraint->op == ConstraintType::kHas) {
-      std::string ident = constraint->ctx->qualified_ident()->getText();
-      auto pos = ident.find_last_of('.');
-      std::string prefix;
-      if (pos != std::string::npos) {
-        prefix = absl::StrCat(".", ident.substr(0, pos + 1));
-      }
-      auto oneof_desc = constraint->field_descriptor->real_containing_oneof();
-      auto oneof_name = oneof_desc->name();
-      std::string parent_name;
-      for (auto parent = oneof_desc->containing_type(); parent != nullptr;
-           parent = parent->containing_type()) {
-        absl::StrAppend(&parent_name, ToPascalCase(parent->name()), "::");
-      }
-      auto package = absl::StrReplaceAll(
-          constraint->field_descriptor->file()->package(), {{".", "::"}});
       return absl::StrCat(
-          "(", kDecodeMsgName, prefix, ".", oneof_name, "_case() == ", package,
-          "::", parent_name, ToPascalCase(oneof_name), "Case::k",
-          ToPascalCase(constraint->field_descriptor->name()), ")");
-    } else {
-      return absl::StrCat("(", kDecodeMsgName, ".",
-                          constraint->ctx->field->getText(), " ",
-                          GetOpText(constraint->op), " ",
-                          constraint->ctx->constraint_expr()->getText(), ")");
+          "(", GetHasCondition(message_type, kDecodeMsgName, ident, field),
+          ")");
+    }
+    std::string value = ctx->constraint_expr()->getText();
+    if (ctx->constraint_expr()->qualified_ident() != nullptr) {
+      // The value is the name of an enumerator.
+      value = absl::StrReplaceAll(
+          field->enum_type()->FindValueByName(value)->full_name(),
+          {{".", "::"}});
     }
+    return absl::StrCat("(", kDecodeMsgName, ".",
+                        GetMessageAccess(message_type, ident, field),
+                        field->name(), "() ", GetOpText(constraint->op), " ",
+                        value, ")");
   };
 
   // Generate a chained if-else if-else-statement for the encodings in the
diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index 924749b..0611c6f 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -23,11 +23,13 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_split.h"
 #include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
 #include "mpact/sim/decoder/format_name.h"
 #include "mpact/sim/decoder/proto_constraint_expression.h"
 #include "mpact/sim/decoder/proto_format_contexts.h"
+#include "mpact/sim/decoder/proto_instruction_group.h"
 #include "src/google/protobuf/descriptor.h"
 
 namespace mpact {
@@ -37,6 +39,36 @@ namespace proto_fmt {
 
 using mpact::sim::machine_description::instruction_set::ToPascalCase;
 
+std::string GetMessageAccess(const google::protobuf::Descriptor* message_type,
+                             absl::string_view qualified_name,
+                             const google::protobuf::FieldDescriptor* field) {
+  std::string access;
+  std::vector<std::string> names = absl::StrSplit(qualified_name, '.');
+  for (auto const& name : names) {
+    auto const* component = message_type->FindFieldByName(name);
+    if ((component == nullptr) || (component == field)) break;
+    absl::StrAppend(&access, name, "().");
+    message_type = component->message_type();
+    if (message_type == nullptr) break;
+  }
+  return access;
+}
+
+std::string GetHasCondition(const google::protobuf::Descriptor* message_type,
+                            absl::string_view object,
+                            absl::string_view qualified_name,
+                            const google::protobuf::FieldDescriptor* field) {
+  auto access = absl::StrCat(
+      object, ".", GetMessageAccess(message_type, qualified_name, field));
+  auto const* oneof = field->real_containing_oneof();
+  if (oneof == nullptr) return absl::StrCat(access, "has_", field->name(), "()");
+  return absl::StrCat(
+      access, oneof->name(), "_case() == ",
+      absl::StrReplaceAll(field->containing_type()->full_name(),
+                          {{".", "::"}}),
+      "::k", ToPascalCase(field->name()));
+}
+
 ProtoInstructionEncoding::ProtoInstructionEncoding(
     std::string name, ProtoInstructionGroup* parent)
     : name_(name), instruction_group_(parent) {}
diff --git a/mpact/sim/decoder/proto_instruction_encoding.h b/mpact/sim/decoder/proto_instruction_encoding.h
index 2a96456..ab7084a 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.h
+++ b/mpact/sim/decoder/proto_instruction_encoding.h
@@ -57,6 +57,21 @@ inline std::string GetOpText(ConstraintType op) {
   }
 }
 
+// Returns the C++ expression that, appended to "<message object>.", accesses the
+// (sub)message that contains the given field, e.g., "a().b()." for the field c
+// in the qualified name "a.b.c", or an empty string if field is a field in the
+// message type itself.
+std::string GetMessageAccess(const google::protobuf::Descriptor* message_type,
+                             absl::string_view qualified_name,
+                             const google::protobuf::FieldDescriptor* field);
+
+// Returns the C++ condition that is true if the given field is present in the
+// message object.
+std::string GetHasCondition(const google::protobuf::Descriptor* message_type,
+                            absl::string_view object,
+                            absl::string_view qualified_name,
+                            const google::protobuf::FieldDescriptor* field);
+
 // Struct to store information about an encoding constraint for an instruction.
 struct ProtoConstraint {
   // Parsing context.
-- 
2.43.0


From 7b49b03e23970483c8f71cb32197eb386da1137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 170/183] fix: setters that depend on oneof fields did not
 compile or crashed the generator

---
 .../sim/decoder/proto_instruction_encoding.cc | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index 0611c6f..3991e03 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -20,6 +20,7 @@
 #include <vector>
 
 #include "absl/container/btree_map.h"
+#include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
 #include "absl/strings/str_cat.h"
@@ -286,6 +287,10 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   absl::btree_multimap<const ProtoConstraint*, const ProtoSetter*>
       grouped_if_not_setters;
 
+  // The qualified name of a field whose setter depends on the constraint. It
+  // includes the path to the field of the constraint.
+  absl::flat_hash_map<const ProtoConstraint*, std::string> constraint_idents;
+
   // Lambda used to determine if a constraint is already satisfied by
   // an identical constraint used in the decoding of the instruction.
   auto is_in_eq_constraints = [&](const ProtoConstraint* constraint) {
@@ -304,6 +309,11 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   for (auto& [name, setter_ptr] : setter_map_) {
     // Get any one_of dependency that the setter depends on.
     auto* depends = setter_ptr->depends_on;
+    for (auto* constraint = depends; constraint != nullptr;
+         constraint = constraint->depends_on) {
+      constraint_idents.emplace(
+          constraint, setter_ptr->ctx->qualified_ident()->getText());
+    }
     // If the dependency matches one in the equal constraints for decoding the
     // instruction, it will be true for the setters, and does not have to be
     // tested for again.
@@ -377,16 +387,12 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   // setters.
   auto generate_if_statement = [&](int indent,
                                    const ProtoConstraint* constraint) {
-    auto* desc = constraint->field_descriptor;
-    auto* oneof = desc->real_containing_oneof();
-    absl::StrAppend(&setter_code_, std::string(indent, ' '), "if ($.");
-    if (oneof != nullptr) {
-      absl::StrAppend(&setter_code_, oneof->name(),
-                      "_case() == ", ToPascalCase(oneof->name()), "Case::k",
-                      ToPascalCase(desc->name()), ") {\n");
-    } else {
-      absl::StrAppend(&setter_code_, "has_", desc->name(), ") {\n");
-    }
+    absl::StrAppend(
+        &setter_code_, std::string(indent, ' '), "if (",
+        GetHasCondition(instruction_group_->message_type(), "$",
+                        constraint_idents[constraint],
+                        constraint->field_descriptor),
+        ") {\n");
   };
 
   // Recursive lambda for generating nested if statements around groups of
@@ -423,7 +429,6 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   std::function<void(const ProtoConstraint*, std::string&)>
       recursive_if_conditions =
           [&](const ProtoConstraint* constraint, std::string& if_conditions) {
-            auto* desc = constraint->field_descriptor;
             auto* depends_on = constraint->depends_on;
             std::string sep = "";
             // Generate the conditions in reverse order of the depends_on list.
@@ -431,24 +436,12 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
               recursive_if_conditions(depends_on, if_conditions);
               if (!if_conditions.empty()) sep = " && ";
             }
-            auto* oneof = desc->real_containing_oneof();
-            std::string ident = constraint->ctx->qualified_ident()->getText();
-            auto pos = ident.find_last_of('.');
-            std::string prefix;
-            if (pos != std::string::npos) {
-              prefix = ident.substr(0, pos + 1);
-            }
-            if (!prefix.empty()) {
-              // Convert a.b.c to a().b().c().
-              prefix = absl::StrReplaceAll(prefix, {{".", "()."}});
-            }
-            if (oneof != nullptr) {
-              absl::StrAppend(&if_conditions, sep, "($.", prefix, oneof->name(),
-                              "_case() == k", ToPascalCase(desc->name()), ")");
-            } else {
-              absl::StrAppend(&if_conditions, sep, "($.", prefix, "has_",
-                              desc->name(), ")");
-            }
+            absl::StrAppend(
+                &if_conditions, sep, "(",
+                GetHasCondition(instruction_group_->message_type(), "$",
+                                constraint_idents[constraint],
+                                constraint->field_descriptor),
+                ")");
           };
 
   // Process the setters with dependencies and if_not's.
-- 
2.43.0


From fab49f28e32ee744eb5d7f1ed3047b18f50608cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 171/183] fix: proto decoders could not select instructions by
 oneof members

---
 mpact/sim/decoder/proto_encoding_group.cc | 27 ++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 85cc231..27d6295 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -47,6 +47,8 @@ using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 struct FieldInfo {
   const google::protobuf::FieldDescriptor* field;
   const google::protobuf::OneofDescriptor* oneof;
+  // If oneof is not nullptr, one of its fields.
+  const google::protobuf::FieldDescriptor* member;
   QualifiedIdentCtx* ctx;
   absl::btree_multimap<int64_t, const ProtoInstructionEncoding*> value_map;
   int64_t min_value = 0;
@@ -135,7 +137,7 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
       }
       oneof = nullptr;
     } else if (op == ConstraintType::kHas) {
-      value = field->index();
+      value = field->number();
       oneof = field->real_containing_oneof();
       field = nullptr;
     } else {
@@ -147,11 +149,11 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
     }
     eq_constraint->value = value;
     // If the field_info doesn't exist, add a new field_info.
-    auto name = field != nullptr ? field->name() : oneof->name();
+    auto name = field != nullptr ? field->full_name() : oneof->full_name();
     auto iter = field_map_.find(name);
     FieldInfo* field_info = nullptr;
     if (iter == field_map_.end()) {
-      field_info = new FieldInfo{field, oneof};
+      field_info = new FieldInfo{field, oneof, eq_constraint->field_descriptor};
       field_info->min_value = std::numeric_limits<int64_t>::max();
       field_info->max_value = std::numeric_limits<int64_t>::min();
       field_info->ctx = qualifed_ident_ctx;
@@ -511,6 +513,19 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
   // Sort the encoding_group_vec according to differentiator value.
   std::sort(encoding_group_vec_.begin(), encoding_group_vec_.end(), LessThan);
   // Now emit the decoder function.
+  // The expression that accesses the value of the differentiator.
+  auto ident = differentiator_->ctx->getText();
+  auto const* message_type = inst_group_->message_type();
+  std::string call;
+  if (differentiator_->oneof != nullptr) {
+    call = absl::StrCat(
+        GetMessageAccess(message_type, ident, differentiator_->member),
+        differentiator_->oneof->name(), "_case");
+  } else {
+    call = absl::StrCat(
+        GetMessageAccess(message_type, ident, differentiator_->field),
+        differentiator_->field->name());
+  }
   double density =
       (double)differentiator_->unique_values /
       (double)(differentiator_->max_value - differentiator_->min_value);
@@ -518,7 +533,7 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     std::string map_name = absl::StrCat(ToSnakeCase(fcn_name), "_map");
     absl::StrAppend(
         &output,
-        "absl::NoDestructor<absl::flat_hash_map<int32_t, std::function<",
+        "absl::NoDestructor<absl::flat_hash_map<int64_t, std::function<",
         opcode_enum, "(", message_type_name, ", ", decoder_class, "*)>>> ",
         map_name, "({\n");
     for (auto* enc_group : encoding_group_vec_) {
@@ -528,8 +543,6 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     }
     absl::StrAppend(&output, "});\n\n");
     // Emit the function body.
-    auto call =
-        absl::StrReplaceAll(differentiator_->ctx->getText(), {{".", "()."}});
     absl::StrAppend(&output, opcode_enum, " ", fcn_name, "(", message_type_name,
                     " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n",
                     "  auto iter = ", map_name, "->find(", kDecodeMsgName, ".",
@@ -560,8 +573,6 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
       }
     }
     // Emit the function body.
-    auto call =
-        absl::StrReplaceAll(differentiator_->ctx->getText(), {{".", "()."}});
     absl::StrAppend(
         &output, "};\n\n", opcode_enum, " ", fcn_name, "(", message_type_name,
         " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n", "  return ",
-- 
2.43.0


From 3df5c63077b2b45693d0c072ad8ac7649e3ec1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 172/183] fix: proto decoders read outside of their tables for
 unknown values

---
 mpact/sim/decoder/proto_encoding_group.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 27d6295..42bc0bf 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -575,9 +575,12 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     // Emit the function body.
     absl::StrAppend(
         &output, "};\n\n", opcode_enum, " ", fcn_name, "(", message_type_name,
-        " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n", "  return ",
-        ToSnakeCase(fcn_name), "_table[", kDecodeMsgName, ".", call, "() - ",
-        differentiator_->min_value, "](", kDecodeMsgName, ", decoder);\n}\n\n");
+        " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n",
+        "  auto value = static_cast<int64_t>(", kDecodeMsgName, ".", call,
+        "());\n", "  if ((value < ", min, ") || (value > ", max, ")) return ",
+        opcode_enum, "::kNone;\n", "  return ", ToSnakeCase(fcn_name),
+        "_table[value - (", min, ")](", kDecodeMsgName,
+        ", decoder);\n}\n\n");
   }
   return output;
 }
-- 
2.43.0


From ce0536f174996b1a09b029c5f6f2a4f611ad49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 173/183] fix: proto decoders missed instructions that do not
 constrain a looked up field

---
 mpact/sim/decoder/proto_encoding_group.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 42bc0bf..0fa3b55 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -199,6 +199,13 @@ void ProtoEncodingGroup::AddSubGroups() {
     // '!='. If so, it is not a candidate for a direct lookup of the value.
     if (other_field_set_.contains(field_info->field)) continue;
     if (other_oneof_set_.contains(field_info->oneof)) continue;
+    // Encodings that do not constrain the field match any value of it, so they
+    // cannot be found by looking up the value.
+    absl::flat_hash_set<const ProtoInstructionEncoding*> constrained;
+    for (auto const& [unused, enc] : field_info->value_map) {
+      constrained.insert(enc);
+    }
+    if (constrained.size() != encoding_vec_.size()) continue;
     if (best_field == nullptr) {
       best_field = field_info;
     } else {
-- 
2.43.0


From 0f6b40d83d6f8ef47d23155fe3687476ce3a21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 174/183] fix: groups of an aliased proto message could not be
 merged

---
 mpact/sim/decoder/proto_format_visitor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 0128d09..2fcf46c 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -1170,11 +1170,11 @@ void ProtoFormatVisitor::ProcessParentGroup(
     }
     // If this is the first child group, get the proto message type name.
     if (child_groups.empty()) {
-      group_format_name = child_group->message_type()->name();
+      group_format_name = child_group->message_type()->full_name();
     }
     // Check that the child groups all use the same proto message type
     // name.
-    if (group_format_name != child_group->message_type()->name()) {
+    if (group_format_name != child_group->message_type()->full_name()) {
       error_listener_->semanticError(
           attr_ctx->start,
           absl::StrCat("Instruction group '", child_name, "' must use format '",
@@ -1195,7 +1195,7 @@ void ProtoFormatVisitor::ProcessParentGroup(
   }
   // Create the "parent" instruction group.
   const google::protobuf::Descriptor* group_format =
-      message_finder_(Expand(group_format_name));
+      message_finder_(group_format_name);
   if (group_format == nullptr) {
     error_listener_->semanticError(
         attr_ctx->start,
-- 
2.43.0


From fbbde559c09b1e96af54860596e59e82999a1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 175/183] fix: proto decoders with sparse values lacked an
 include

---
 mpact/sim/decoder/proto_encoding_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/decoder/proto_encoding_info.cc b/mpact/sim/decoder/proto_encoding_info.cc
index eb1df21..7b537c1 100644
--- a/mpact/sim/decoder/proto_encoding_info.cc
+++ b/mpact/sim/decoder/proto_encoding_info.cc
@@ -214,6 +214,7 @@ StringPair ProtoEncodingInfo::GenerateDecoderClass() {
   absl::StrAppend(&h_output, "\n");
   absl::StrAppend(&cc_output,
                   "#include <functional>\n\n"
+                  "#include \"absl/base/no_destructor.h\"\n"
                   "#include \"absl/container/flat_hash_map.h\"\n\n");
   // Open namespaces.
   std::string name_space_ref = absl::StrJoin(decoder_->namespaces(), "::");
-- 
2.43.0


From c2a15ab226c8307980607072c0c9d7778070d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 176/183] fix: presence and value of oneof scalars were
 intersected

---
 mpact/sim/decoder/proto_encoding_group.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 0fa3b55..44f5101 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -319,6 +319,22 @@ void ProtoEncodingGroup::CheckEncodings() {
     for (auto* constraint : enc->other_constraints()) {
       constraints.back().push_back(constraint);
     }
+    // A comparison of the value of a field implies that the field is present,
+    // so there is no need to consider any kHas constraint on the same field.
+    absl::flat_hash_set<const google::protobuf::FieldDescriptor*> compared;
+    for (auto* constraint : constraints.back()) {
+      if (constraint->op != ConstraintType::kHas) {
+        compared.insert(constraint->field_descriptor);
+      }
+    }
+    auto is_implied = [&compared](const ProtoConstraint* constraint) {
+      return constraint->op == ConstraintType::kHas &&
+             compared.contains(constraint->field_descriptor);
+    };
+    constraints.back().erase(
+        std::remove_if(constraints.back().begin(), constraints.back().end(),
+                       is_implied),
+        constraints.back().end());
   }
   for (int i = 0; i < constraints.size(); ++i) {
     std::sort(
-- 
2.43.0


From 33df76fe3c970e714ef27b3e958d04a2a9ad2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 177/183] fix: value set of HAS() of a field outside of a oneof
 crashed

---
 mpact/sim/decoder/proto_constraint_value_set.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index b320579..447c348 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -140,10 +140,15 @@ ProtoConstraintValueSet::ProtoConstraintValueSet(
       int32_t value = -1;
       auto* field = constraint->field_descriptor;
       auto* one_of = constraint->field_descriptor->real_containing_oneof();
-      for (int32_t i = 0; i < one_of->field_count(); ++i) {
-        if (one_of->field(i)->name() == field->name()) {
-          value = i;
-          break;
+      // A field that isn't part of a oneof has only one "present" value.
+      if (one_of == nullptr) {
+        value = 0;
+      } else {
+        for (int32_t i = 0; i < one_of->field_count(); ++i) {
+          if (one_of->field(i)->name() == field->name()) {
+            value = i;
+            break;
+          }
         }
       }
       ProtoConstraintExpression* expr =
-- 
2.43.0


From d9f8cb609f95f25c0496ccb8a61c811bdd1aa390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:09 +0000
Subject: [PATCH 178/183] fix: declarations of included proto format files were
 lost

---
 mpact/sim/decoder/proto_format_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 2fcf46c..455c7a2 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -438,7 +438,7 @@ void ProtoFormatVisitor::ParseIncludeFile(
   }
   include_file_stack_.emplace_back(file_name);
   // Process the declarations.
-  PreProcessDeclarations(include_parser->parser()->top_level()->declaration());
+  PreProcessDeclarations(declaration_vec);
   include_file_stack_.pop_back();
 }
 
-- 
2.43.0


From 9fc13f9098b106570110c1d37c6d7ef63c1f1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 179/183] fix: proto decoders of negative values did not
 compile

---
 mpact/sim/decoder/proto_encoding_group.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 44f5101..7859ee9 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -521,6 +521,13 @@ bool LessThan(ProtoEncodingGroup* lhs, ProtoEncodingGroup* rhs) {
   return lhs->value() < rhs->value();
 }
 
+// Returns the name of the decoder function for the given value of the
+// differentiator of the function fcn_name. Values can be negative.
+std::string ValueFcnName(absl::string_view fcn_name, int64_t value) {
+  return absl::StrCat(
+      fcn_name, "_", absl::StrReplaceAll(absl::StrCat(value), {{"-", "n"}}));
+}
+
 }  // namespace
 
 std::string ProtoEncodingGroup::EmitComplexDecoder(
@@ -561,8 +568,8 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
         map_name, "({\n");
     for (auto* enc_group : encoding_group_vec_) {
       auto enc_value = enc_group->value();
-      absl::StrAppend(&output, "  {", enc_value, ", ", fcn_name, "_", enc_value,
-                      "},\n");
+      absl::StrAppend(&output, "  {", enc_value, ", ",
+                      ValueFcnName(fcn_name, enc_value), "},\n");
     }
     absl::StrAppend(&output, "});\n\n");
     // Emit the function body.
@@ -591,7 +598,8 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
         absl::StrAppend(&output, "  Decode", ToPascalCase(inst_group_->name()),
                         "_None,\n");
       } else {
-        absl::StrAppend(&output, "  ", fcn_name, "_", enc_value, ",\n");
+        absl::StrAppend(&output, "  ", ValueFcnName(fcn_name, enc_value),
+                        ",\n");
         ++iter;
       }
     }
@@ -616,7 +624,7 @@ std::string ProtoEncodingGroup::EmitDecoders(
   for (auto* enc_group : encoding_group_vec_) {
     absl::StrAppend(
         &output,
-        enc_group->EmitDecoders(absl::StrCat(fcn_name, "_", enc_group->value()),
+        enc_group->EmitDecoders(ValueFcnName(fcn_name, enc_group->value()),
                                 opcode_enum, message_type_name));
   }
   // Emit decoder for this group.
-- 
2.43.0


From ca4f1e5f9105c89f472ced73b4cc0b46cbf3d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:31 +0000
Subject: [PATCH 180/183] fix: presence and value of oneof scalars were taken
 for ambiguous

---
 mpact/sim/decoder/proto_encoding_group.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 7859ee9..ccd7499 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -412,12 +412,10 @@ bool ProtoEncodingGroup::DoConstraintsOverlap(
     }
     ProtoConstraintValueSet lhs_copy(**(iter_lhs));
     auto status = lhs_copy.IntersectWith(**(iter_rhs));
-    // If there is an error taking the intersection, return true to signify
-    // an overlap, even if there isn't one.
-    if (!status.ok()) return true;
-    // If the intersection is empty, then they don't overlap. No need to check
-    // further.
-    if (lhs_copy.IsEmpty()) return false;
+    // If there is an error taking the intersection, treat it as an overlap in
+    // this field, even if there isn't one. Otherwise, if the intersection is
+    // empty, then they don't overlap. No need to check further.
+    if (status.ok() && lhs_copy.IsEmpty()) return false;
     ++iter_lhs;
     ++iter_rhs;
   }
-- 
2.43.0


From 7930be71ebf145f8301edda92c54c5679d595435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 181/183] fix: groups listed in two merged groups were used
 after free

---
 mpact/sim/decoder/proto_encoding_info.cc       |  7 ++++++-
 mpact/sim/decoder/proto_format_visitor.cc      | 13 -------------
 mpact/sim/decoder/proto_instruction_decoder.cc |  1 -
 3 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_info.cc b/mpact/sim/decoder/proto_encoding_info.cc
index 7b537c1..6ef9cce 100644
--- a/mpact/sim/decoder/proto_encoding_info.cc
+++ b/mpact/sim/decoder/proto_encoding_info.cc
@@ -45,7 +45,12 @@ ProtoEncodingInfo::ProtoEncodingInfo(
     decoder::DecoderErrorListener* error_listener)
     : opcode_enum_(opcode_enum), error_listener_(error_listener) {}
 
-ProtoEncodingInfo::~ProtoEncodingInfo() { delete decoder_; }
+ProtoEncodingInfo::~ProtoEncodingInfo() {
+  delete decoder_;
+  // The groups are owned by this object, as a group can be listed in a decoder
+  // by itself, and as part of any number of merged groups.
+  for (auto const& [unused, group] : instruction_group_map_) delete group;
+}
 
 void ProtoEncodingInfo::AddIncludeFile(std::string include_file) {
   include_files_.emplace(include_file);
diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 455c7a2..99891a1 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -1148,8 +1148,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
         error_listener_->semanticError(
             attr_ctx->start,
             absl::StrCat("Instruction group '", child_name, "' listed twice"));
-        // Clean up.
-        for (auto* child_group : child_groups) delete child_group;
         return;
       }
     } else {
@@ -1163,8 +1161,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
         error_listener_->semanticError(
             attr_ctx->start,
             absl::StrCat("Instruction group '", child_name, "' not found"));
-        // Clean up.
-        for (auto* child_group : child_groups) delete child_group;
         continue;
       }
     }
@@ -1180,8 +1176,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
           absl::StrCat("Instruction group '", child_name, "' must use format '",
                        group_format_name, ", to be merged into group '",
                        group_name, "'"));
-      // Clean up.
-      for (auto* child_group : child_groups) delete child_group;
       return;
     }
     child_groups.push_back(child_group);
@@ -1189,8 +1183,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
 
   if (child_groups.empty()) {
     error_listener_->semanticError(attr_ctx->start, "No child groups");
-    // Clean up.
-    for (auto* child_group : child_groups) delete child_group;
     return;
   }
   // Create the "parent" instruction group.
@@ -1201,15 +1193,11 @@ void ProtoFormatVisitor::ProcessParentGroup(
         attr_ctx->start,
         absl::StrCat("Could not find proto message type '", group_format_name,
                      "' in proto descriptor pool"));
-    // Clean up.
-    for (auto* child_group : child_groups) delete child_group;
     return;
   }
   auto res = encoding_info->AddInstructionGroup(group_name, group_format);
   if (!res.ok()) {
     error_listener_->semanticError(attr_ctx->start, res.status().message());
-    // Clean up.
-    for (auto* child_group : child_groups) delete child_group;
     return;
   }
   auto parent_group = res.value();
@@ -1219,7 +1207,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
       parent_group->CopyInstructionEncoding(
           new ProtoInstructionEncoding(*encoding));
     }
-    delete child_group;
   }
   // Add the parent instruction group to the decoder.
   group_name_set.insert(parent_group->name());
diff --git a/mpact/sim/decoder/proto_instruction_decoder.cc b/mpact/sim/decoder/proto_instruction_decoder.cc
index 945d617..096a09d 100644
--- a/mpact/sim/decoder/proto_instruction_decoder.cc
+++ b/mpact/sim/decoder/proto_instruction_decoder.cc
@@ -31,7 +31,6 @@ ProtoInstructionDecoder::ProtoInstructionDecoder(
       error_listener_(error_listener) {}
 
 ProtoInstructionDecoder::~ProtoInstructionDecoder() {
-  for (auto* group : instruction_groups_) delete group;
   instruction_groups_.clear();
 }
 
-- 
2.43.0


From d1b3fc942ac1088402c92f7739f6bac4e15df6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 182/183] fix: proto binding variables assigned twice crashed
 the generator

---
 mpact/sim/decoder/proto_format_visitor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 99891a1..bd31f5a 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -852,6 +852,8 @@ void ProtoFormatVisitor::ProcessInstructionDefGenerator(
             absl::StrCat("Unreferenced binding variable '", name, "'."));
       }
     }
+    // All names were duplicates, an error has been signaled.
+    if (range_info->range_values.empty()) continue;
     // See if it's a list of simple values.
     if (!assign_ctx->gen_value().empty()) {
       for (auto* gen_value_ctx : assign_ctx->gen_value()) {
-- 
2.43.0


From ad00baac67cf5c4b43829b873ba6dc23e5820b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 183/183] fix: HAS() of proto fields without presence was
 accepted

---
 mpact/sim/decoder/proto_format_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index bd31f5a..09f71a6 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -547,6 +547,13 @@ void ProtoFormatVisitor::VisitFieldConstraint(
                        inst_group->message_type()->name(), "'"));
       return;
     }
+    // Repeated fields, and fields without presence don't have a has_ method.
+    if (!field_desc->has_presence()) {
+      error_listener()->semanticError(
+          ctx->start, absl::StrCat("Field '", field_name,
+                                   "' does not track presence"));
+      return;
+    }
     // If the last field in one_of_fields is the field with the kHas constraint
     // remove that field from the vector, as it will be handled in the
     // constraint.
-- 
2.43.0

