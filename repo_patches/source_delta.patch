From 37b4e69f505739b218392748098c7da57ee318dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 01/40] fix: bit reversal up to the word width used an
 undefined shift

ring_bitrev and aby3 BitrevB computed the mask as (1 << end) - (1 << start);
with end equal to the word width the shift is undefined and in practice left
the old bits in place (x | rev(x)). Accumulate the mask instead.
---
 src/libspu/mpc/aby3/boolean.cc   | 3 ++-
 src/libspu/mpc/utils/ring_ops.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..d3404b8 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -496,13 +496,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        out_el_t mask = 0U;
         for (size_t idx = start; idx < end; idx++) {
+          mask |= (out_el_t)1 << idx;
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..9e410c3 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,14 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      U mask = 0U;
       for (size_t idx = start; idx < end; idx++) {
+        mask |= (U)1 << idx;
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From b1d4ecf2581ffef94dae54d2a7c902e30a30d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:39 +0000
Subject: [PATCH 02/40] fix: keep the parentheses of a subtrahend when printing
 cost expressions

---
 src/libspu/core/cexpr.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libspu/core/cexpr.cc b/src/libspu/core/cexpr.cc
index 8476d55..c5ebae5 100644
--- a/src/libspu/core/cexpr.cc
+++ b/src/libspu/core/cexpr.cc
@@ -78,9 +78,9 @@ class BinaryExpr : public BaseBinaryExpr {
   std::string expr() const override {
     // return fmt::format("({}){}({})", lhs_->expr(), Name, rhs_->expr());
     std::stringstream ss;
-    auto print_operand = [&](const CExpr& operand) {
+    auto print_operand = [&](const CExpr& operand, size_t min_priority) {
       if (auto bin_op = std::dynamic_pointer_cast<BaseBinaryExpr>(operand)) {
-        if (bin_op->priority() < this->priority()) {
+        if (bin_op->priority() < min_priority) {
           ss << "(" << operand->expr() << ")";
         } else {
           ss << operand->expr();
@@ -89,9 +89,12 @@ class BinaryExpr : public BaseBinaryExpr {
         ss << operand->expr();
       }
     };
-    print_operand(lhs_);
+    // subtraction is not associative, so `a-(b-c)` and `a-(b+c)` must keep the
+    // parentheses of their right operand.
+    const bool is_sub = std::is_same_v<Fn, std::minus<>>;
+    print_operand(lhs_, kPriority);
     ss << Name;
-    print_operand(rhs_);
+    print_operand(rhs_, is_sub ? kPriority + 1 : kPriority);
     return ss.str();
   }
 
-- 
2.43.0


From c01c43fecfdcdba72cb356a87c2754f4b950c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 03/40] fix: expanding a scalar to an empty shape must not
 write to the empty buffer

---
 src/libspu/core/ndarray_ref.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..92771ee 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -365,6 +365,9 @@ NdArrayRef NdArrayRef::expand(const Shape& to_shape) const {
   NdArrayRef ret(eltype(), to_shape);
   // compute number of elements need to copy
   size_t numel = ret.numel();
+  if (numel == 0) {
+    return ret;
+  }
   size_t num_bytes = numel * elsize();
   size_t bytes_copied = elsize();
 
-- 
2.43.0


From 8c86a8a5c4054dcfa29fa8f30ffc37903d2fb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 04/40] fix: an empty axis has no room for interior padding

---
 src/libspu/core/ndarray_ref.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 92771ee..b98362f 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -32,7 +32,8 @@ Shape deducePadShape(const Shape& input_shape, const Sizes& edge_padding_low,
   SPU_ENFORCE(interior_padding.size() == input_shape.size());
   for (size_t i = 0; i < input_shape.size(); i++) {
     dims.emplace_back(edge_padding_low[i] + edge_padding_high[i] +
-                      interior_padding[i] * (input_shape[i] - 1) +
+                      interior_padding[i] *
+                          std::max<int64_t>(input_shape[i] - 1, 0) +
                       input_shape[i]);
   }
 
-- 
2.43.0


From d2e467c8711566d130ceccf0b5c03281fe0c4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 05/40] fix: broadcasting an axis of extent one repeats its
 only element

The stride of such an axis need not be zero, e.g. after slicing with a step.
---
 src/libspu/core/ndarray_ref.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index b98362f..00e66ce 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -251,12 +251,13 @@ NdArrayRef NdArrayRef::broadcast_to(const Shape& to_shape,
   // TODO: check to_shape match broadcasting rules.
   if (!in_dims.empty()) {
     for (size_t idx = 0; idx < in_dims.size(); ++idx) {
-      new_strides[in_dims[idx]] = strides()[idx];
+      new_strides[in_dims[idx]] = shape()[idx] == 1 ? 0 : strides()[idx];
     }
   } else {
     for (size_t idx = 0; idx < strides().size(); ++idx) {
+      const auto in_idx = strides().size() - 1 - idx;
       new_strides[new_strides.size() - 1 - idx] =
-          strides()[strides().size() - 1 - idx];
+          shape()[in_idx] == 1 ? 0 : strides()[in_idx];
     }
   }
 
-- 
2.43.0


From d8d093fa2d0fd248f66759ad0b5fd502a35e9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 06/40] fix: unpacking a packed tensor honours its offset and
 strides

---
 src/libspu/core/ndarray_ref.h | 7 ++++---
 src/libspu/core/value.h       | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.h b/src/libspu/core/ndarray_ref.h
index a797d80..9a88096 100644
--- a/src/libspu/core/ndarray_ref.h
+++ b/src/libspu/core/ndarray_ref.h
@@ -396,11 +396,12 @@ struct SimdTrait<NdArrayRef> {
     SPU_ENFORCE(v.numel() == total_num, "split number mismatch {} != {}",
                 v.numel(), total_num);
 
-    int64_t offset = 0;
+    const NdArrayRef packed = v.isCompact() ? v : v.clone();
+    int64_t offset = packed.offset();
     for (const auto& shape : pi) {
-      *result++ = NdArrayRef(v.buf(), v.eltype(), shape,
+      *result++ = NdArrayRef(packed.buf(), packed.eltype(), shape,
                              makeCompactStrides(shape), offset);
-      offset += shape.numel() * v.elsize();
+      offset += shape.numel() * packed.elsize();
     }
 
     return result;
diff --git a/src/libspu/core/value.h b/src/libspu/core/value.h
index 69fc69c..458644a 100644
--- a/src/libspu/core/value.h
+++ b/src/libspu/core/value.h
@@ -142,12 +142,14 @@ struct SimdTrait<Value> {
     SPU_ENFORCE(v.numel() == total_num, "split number mismatch {} != {}",
                 v.numel(), total_num);
 
-    int64_t offset = 0;
+    const NdArrayRef packed =
+        v.data().isCompact() ? v.data() : v.data().clone();
+    int64_t offset = packed.offset();
     for (const auto& shape : pi) {
-      auto arr = NdArrayRef(v.data().buf(), v.storage_type(), shape,
+      auto arr = NdArrayRef(packed.buf(), packed.eltype(), shape,
                             makeCompactStrides(shape), offset);
       *result++ = Value(arr, v.dtype());
-      offset += shape.numel() * v.elsize();
+      offset += shape.numel() * packed.elsize();
     }
 
     return result;
-- 
2.43.0


From 7ae460fe10de18d9b5d7c16dc3762139b2093777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 07/40] fix: joining value chunks rejects surplus content
 before copying it

Content beyond the end of the value was written past its buffer, and only the
first chunk's total_bytes was checked.
---
 src/libspu/core/value.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..590a363 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -141,6 +141,9 @@ Value Value::fromProto(const ValueProto& value) {
     partial.set_is_complex(false);
     ValueProto partial_proto;
     partial_proto.meta = partial;
+    SPU_ENFORCE(value.chunks.size() % 2 == 0,
+                "complex value with odd number of chunks {}",
+                value.chunks.size());
     auto n = value.chunks.size() / 2;
     std::copy_n(value.chunks.begin(), n,
                 std::back_inserter(partial_proto.chunks));
@@ -183,8 +186,13 @@ Value Value::fromProto(const ValueProto& value) {
 
   size_t chunk_end_pos = 0;
   for (const auto& [offset, chunk] : ordered_chunks) {
+    SPU_ENFORCE(chunk->total_bytes() == total_bytes,
+                "chunks disagree on total_bytes, {} != {}",
+                chunk->total_bytes(), total_bytes);
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - offset,
+                "chunk at {} exceeds total_bytes {}", offset, total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From e56d97430fe184e8c84d7efd37ae906927db4d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 08/40] fix: the two oblivious-index share types of aby3 need
 different ids

Reading an OShr type back from its text gave an OPShr of half the size.
---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From 0d7ebe5d366fc1788abfd78d451100669a3b12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 09/40] fix: spdz2k boolean share type read from text has its
 size

---
 src/libspu/mpc/spdz2k/type.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..cf06dde 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -45,6 +45,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
-- 
2.43.0


From e473372a8b36046ffeceb17466a837f18211cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 10/40] fix: parsing a configuration replaces the
 sub-configurations it lacks

---
 src/libspu/spu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/spu.cc b/src/libspu/spu.cc
index 83c1c76..77d4ff2 100644
--- a/src/libspu/spu.cc
+++ b/src/libspu/spu.cc
@@ -136,6 +136,8 @@ void convertFromPB(const pb::RuntimeConfig& src, RuntimeConfig& dst) {
         ttp_conf.server_host(), ttp_conf.adjust_rank(),
         ttp_conf.asym_crypto_schema(), ttp_conf.server_public_key(),
         ttp_conf.transport_protocol(), std::move(ssl_config));
+  } else {
+    dst.ttp_beaver_config.reset();
   }
 
   if (src.has_cheetah_2pc_config()) {
@@ -143,6 +145,8 @@ void convertFromPB(const pb::RuntimeConfig& src, RuntimeConfig& dst) {
         CheetahConfig(src.cheetah_2pc_config().disable_matmul_pack(),
                       src.cheetah_2pc_config().enable_mul_lsb_error(),
                       CheetahOtKind(src.cheetah_2pc_config().ot_kind()));
+  } else {
+    dst.cheetah_2pc_config = CheetahConfig();
   }
 }
 
-- 
2.43.0


From 6eb9bf499ba7b309043f6ec632cab18de097907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 11/40] fix: swift random shares hold one gamma at both of its
 holders

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..82ce827 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -635,7 +635,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   if (rank == 2) {
     alpha2 = r1;
     beta = r0;
-    gamma = r3;
+    gamma = r2;
   }
 
   auto beta_plus_gamma = ring_add(beta, gamma);
-- 
2.43.0


From 4d1fb89696861b7407b13f71c9d6b0657122796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 12/40] fix: aby3 right shift of a narrow boolean share by more
 than its width

---
 src/libspu/mpc/aby3/boolean.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d3404b8..e2a64ab 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -432,6 +432,12 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
+        if (shift_bit >= static_cast<int64_t>(in_ty->nbits())) {
+          // nothing is left, and the storage may be narrower than the shift.
+          _out[idx][0] = 0;
+          _out[idx][1] = 0;
+          return;
+        }
         _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
         _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
       });
-- 
2.43.0


From b04bee9ede948e01631f5524d58811f2185dea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 13/40] fix: spdz2k random arithmetic shares authenticate plain
 ring elements

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index ceb7e75..7f0312a 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -106,8 +106,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
-  auto x = ring_rshift(prg_state->genPriv(field, shape), {2})
-               .as(makeType<AShrTy>(field));
+  auto x = ring_rshift(prg_state->genPriv(field, shape), {2});
   auto x_mac = beaver->AuthArrayRef(x, field, k, s);
   return makeAShare(x, x_mac, field);
 }
-- 
2.43.0


From f04e561bfb7305fe196e20b8606b3af3c24657b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 14/40] fix: spdz2k boolean share of a single element exposes
 all its bits

---
 src/libspu/mpc/spdz2k/value.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 029f065..831c030 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -101,7 +101,9 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
       Strides new_strides = in.strides();
       std::transform(new_strides.cbegin(), new_strides.cend() - 1,
                      new_strides.begin(), [k](int64_t s) { return 2 * s * k; });
-      new_strides.back() *= 2;
+      // the last axis walks the bits of the elements, also when it has a single
+      // element and its own stride is zero.
+      new_strides.back() = 2;
       return NdArrayRef{
           in.buf(), ty, new_shape, new_strides,
           in.offset() + share_idx * static_cast<int64_t>(ty.size())};
-- 
2.43.0


From 0af0fe699a6bfe0acd7449c50a2a766e7ba54fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 15/40] fix: securenn random shares leave the assisting party
 without a piece

---
 src/libspu/mpc/securenn/arithmetic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..9205899 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -109,6 +109,10 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
+  // P2 only assists the computation and holds no part of a secret.
+  if (ctx->getState<Communicator>()->getRank() == 2) {
+    return ring_zeros(field, shape).as(makeType<AShrTy>(field));
+  }
   return ring_rshift(prg_state->genPriv(field, shape), {2})
       .as(makeType<AShrTy>(field));
 }
-- 
2.43.0


From 6bc1bf08bb9b9be654c7c4291cbe51ec2def62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 16/40] fix: securenn: give every element of the parallel
 comparison loops its own accumulator

---
 src/libspu/mpc/securenn/arithmetic.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 9205899..0fc11a2 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -674,14 +674,12 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
-        w_total = 0;
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_eta__[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
@@ -1090,14 +1088,13 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-        w_total = 0;
+
+        size_t w;
+        size_t w_total = 0;
         for (int i = (int)(k - 1); i >= 0; i--) {
           if (_beta[idx] == 0) {
             w = (p + _dp_x[idx * k + i] + rank * r_bits[i] -
-- 
2.43.0


From d9fbf3907fdbd242df4911f1a928410a7ece904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 17/40] fix: aby3: decompose bits into bytes, as parallel loops
 write them

---
 src/libspu/mpc/aby3/conversion.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..75d3d9d 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,11 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // one byte per bit: neighbouring elements may be written by different threads.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +265,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
-- 
2.43.0


From 8ebaffd50bff117c87f3c2b67f2607fcb8364a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 18/40] fix: topk of a private tensor has to be shared before
 it is shuffled

---
 src/libspu/kernel/hal/permute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index d2f2013..05224d8 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -743,7 +743,8 @@ std::vector<spu::Value> PrepareInput(SPUContext *ctx, const Value &input,
 
   // shuffle with random permutation to break link of values
   auto rand_perm = _rand_perm_s(ctx, input.shape());
-  inp.push_back(_perm_ss(ctx, input, rand_perm).setDtype(input.dtype()));
+  inp.push_back(
+      _perm_ss(ctx, _2s(ctx, input), rand_perm).setDtype(input.dtype()));
 
   // we concate random value to hide the data-dependant running pattern
   // for quick select;
-- 
2.43.0


From 83ba8454724f9a5398dff0068cc1966ad7411e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 19/40] fix: topk of a public tensor could not encode its
 indices in FM32

---
 src/libspu/kernel/hal/permute.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 05224d8..e19d6ce 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1792,10 +1792,15 @@ std::vector<Value> topk_1d(SPUContext *ctx, const spu::Value &input,
         Index(indices_to_sort.begin(), indices_to_sort.begin() + config.k_hi);
     ret.push_back(internal::_permute_1d(ctx, input, topk_indices));
     if (!config.value_only) {
-      auto dt =
-          ctx->config().field == FieldType::FM32 ? spu::DT_I32 : spu::DT_I64;
-      ret.push_back(constant(ctx, topk_indices, dt,
-                             {static_cast<int64_t>(topk_indices.size())}));
+      const Shape indices_shape = {static_cast<int64_t>(topk_indices.size())};
+      if (ctx->config().field == FieldType::FM32) {
+        // 64-bit integers can not be encoded in a 32-bit ring.
+        std::vector<int32_t> indices_i32(topk_indices.begin(),
+                                         topk_indices.end());
+        ret.push_back(constant(ctx, indices_i32, spu::DT_I32, indices_shape));
+      } else {
+        ret.push_back(constant(ctx, topk_indices, spu::DT_I64, indices_shape));
+      }
     }
 
     return ret;
-- 
2.43.0


From 1f53b92eadc3064a3aa6a982a1ce735e6bba373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 20/40] fix: permute an empty tensor whose permuted dimension
 is not empty

---
 src/libspu/kernel/hal/permute.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index e19d6ce..b2fc836 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1696,7 +1696,7 @@ std::vector<spu::Value> permute(SPUContext *ctx,
   // - W is the vector length.
   const int64_t M = inputs.size();
   const int64_t W = shape.dim(permute_dim);
-  if (W == 0) {
+  if (shape.numel() == 0) {
     return std::vector<spu::Value>(inputs.begin(), inputs.end());
   }
   const int64_t N = shape.numel() / W;
-- 
2.43.0


From ce917a3bd88243e45ea116a35937298026c0bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 21/40] fix: sorting keys of two owners in front of a secret
 key were merged into one

---
 src/libspu/kernel/hal/permute.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index b2fc836..fc7ac1d 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1171,8 +1171,8 @@ std::vector<size_t> _find_mergeable_keys(SPUContext *ctx,
       } else {
         split_indices.push_back(idx + 1);
       }
-      pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
     }
+    pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
   }
   std::reverse(split_indices.begin(), split_indices.end());
   return split_indices;
-- 
2.43.0


From 14b2b3886708973231c1ed496e9809fe5022b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 22/40] fix: fxp to int cast with 31 or more fraction bits

---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..294dcf2 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps = _constant(
+      ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From 59022eb85c05b51a4cb8e5b3cacd3ae76b460b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 23/40] fix: round-to-nearest-even of an empty tensor

---
 src/libspu/kernel/hlo/basic_unary.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/kernel/hlo/basic_unary.cc b/src/libspu/kernel/hlo/basic_unary.cc
index 44cc9e3..5f84520 100644
--- a/src/libspu/kernel/hlo/basic_unary.cc
+++ b/src/libspu/kernel/hlo/basic_unary.cc
@@ -118,6 +118,9 @@ spu::Value Round_RNTE(SPUContext *ctx, const spu::Value &in) {
   // so comp = b && (c || a)
   SPU_ENFORCE(!in.isComplex());
   SPU_ENFORCE(in.isFxp(), "Round only supports fxp");
+  if (in.shape().isEmpty()) {
+    return in;
+  }
   const int64_t fxp_bits = ctx->getFxpBits();
   const auto k1 = hal::_constant(ctx, 1U, in.shape());
 
-- 
2.43.0


From 6ebf9f562f4231c563678865135dc44ad8512e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 24/40] fix: integer power of zero with an exponent beyond the
 bits considered

---
 src/libspu/kernel/hal/polymorphic.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hal/polymorphic.cc b/src/libspu/kernel/hal/polymorphic.cc
index 21680cc..52169be 100644
--- a/src/libspu/kernel/hal/polymorphic.cc
+++ b/src/libspu/kernel/hal/polymorphic.cc
@@ -356,16 +356,16 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
     const auto bit_width = SizeOf(ctx->getField()) * 8;
 
     auto y_b = _prefer_b(ctx, y);
-    auto msb_y = _rshift(ctx, y_b, {static_cast<int64_t>(bit_width - 1)});
     auto x_abs1 = _equal(ctx, abs(ctx, x), k1);
 
     auto ret = _constant(ctx, 1, x.shape());
     // To compute ret = x^y,
     // although y has `bit_width` bits, we only consider `y_bits` bits here.
-    // The reason are two folds (recall that both x and y are int):
+    // The reasons are (recall that both x and y are int):
     //   1. if |x|>1, then `ret` will OVERFLOW/UNDERFLOW if y>63 (e.g. FM64),
     //   which means the valid bits of y can't exceed `log(bit_width - 1)` .
-    //   2. if |x|=1:
+    //   2. if x=0, then we always get 0 when y has other bits set.
+    //   3. if |x|=1:
     //      a). x=1, then we always get `ret`=1;
     //      b). x=-1, then the sign of `ret` is decided on the LSB of y;
     // So we can "truncate" y to `y_bits` bits safely.
@@ -388,8 +388,12 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
       }
     }
 
+    // y<0 or y is out of the `y_bits` bits that were considered
+    auto y_in_range = _equal(
+        ctx, _rshift(ctx, y_b, {static_cast<int64_t>(y_bits)}), k0);
+
     // when x=-1 and y<0, we can still get a correct result
-    return _mux(ctx, _and(ctx, msb_y, _not(ctx, x_abs1)), k0, ret)
+    return _mux(ctx, _or(ctx, y_in_range, x_abs1), ret, k0)
         .setDtype(x.dtype());
   }
   if (x.isPublic() && y.isPublic()) {
-- 
2.43.0


From 9a179510bb7d71f2ae5654fda00babda09a4b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 25/40] fix: shifts of an empty tensor by public amounts

---
 src/libspu/kernel/hlo/shift.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/kernel/hlo/shift.cc b/src/libspu/kernel/hlo/shift.cc
index 0b6f3f1..410cef2 100644
--- a/src/libspu/kernel/hlo/shift.cc
+++ b/src/libspu/kernel/hlo/shift.cc
@@ -52,6 +52,10 @@ spu::Value shift_impl(SPUContext *ctx, const spu::Value &lhs,
                       const spu::Value &rhs, const Fn &f) {
   SPU_ENFORCE(rhs.shape() == lhs.shape());
 
+  if (lhs.shape().isEmpty()) {
+    return lhs;
+  }
+
   if (rhs.isPublic()) {
     return shift_impl_p(ctx, lhs, rhs, f);
   }
-- 
2.43.0


From 52aeaba2c64cc560ece2f8b3097f40ddb0d6def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 26/40] fix: rng_uniform returns the requested shape

---
 src/libspu/kernel/hal/random.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index ddf0b59..76da4b3 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -21,6 +21,7 @@
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/prot_wrapper.h"
 #include "libspu/kernel/hal/public_helper.h"
+#include "libspu/kernel/hal/shape_ops.h"
 
 //
 #include "libspu/mpc/common/prg_state.h"  // TODO: bad reference.
@@ -55,7 +56,7 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
     ele = dist(gen);
   }
 
-  return constant(ctx, buffer, lo.dtype());
+  return reshape(ctx, constant(ctx, buffer, lo.dtype()), to_shape);
 }
 
 Value random(SPUContext* ctx, Visibility vis, DataType dtype,
-- 
2.43.0


From d5876320440de920ea3762479e35bb0ce91d6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 27/40] fix: gather returns an empty result in the result shape

---
 src/libspu/kernel/hlo/indexing.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..211d357 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -425,10 +425,16 @@ namespace spu::kernel::hlo {
 spu::Value Gather(SPUContext *ctx, const spu::Value &operand,
                   const spu::Value &start_indices, const GatherConfig &config,
                   const Shape &result_shape) {
-  // If input is empty, short circuit
-  if (operand.numel() == 0) {
-    return operand;
-  }
+  // If there is nothing to gather, short circuit
+  if (result_shape.numel() == 0) {
+    auto empty = [&](const NdArrayRef &x) {
+      return NdArrayRef(x.eltype(), result_shape);
+    };
+    return operand.isComplex() ? Value(empty(operand.data()),
+                                       empty(*operand.imag()), operand.dtype())
+                               : Value(empty(operand.data()), operand.dtype());
+  }
+  SPU_ENFORCE(operand.numel() > 0, "can not gather from an empty tensor");
 
   auto start_indices_value =
       reshapedGatherIndices(ctx, config.indexVectorDim, start_indices);
-- 
2.43.0


From a640a527b715d3ab4f52ec11f429bd4af1080d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 28/40] fix: dynamic slice clamps a public start index at zero
 when another is secret

---
 src/libspu/kernel/hlo/indexing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index 211d357..9dc93b0 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -14,6 +14,7 @@
 
 #include "libspu/kernel/hlo/indexing.h"
 
+#include <algorithm>
 #include <cstring>
 
 #include "llvm/ADT/STLExtras.h"
@@ -802,7 +803,8 @@ spu::Value SecretDynamicSlice(SPUContext *ctx, const spu::Value &operand,
     for (size_t rank = 0; rank < operand.shape().size(); ++rank) {
       if (start_indices[rank].isPublic()) {
         start[rank] = hal::getScalarValue<int64_t>(ctx, start_indices[rank]);
-        start[rank] = std::min(limit[rank] - slice_size[rank], start[rank]);
+        start[rank] = std::clamp<int64_t>(start[rank], 0,
+                                          limit[rank] - slice_size[rank]);
         limit[rank] = start[rank] + slice_size[rank];
         new_start_indices[rank] = zero_s;
       } else {
-- 
2.43.0


From 7bef7231fca5512903093713ec3d4e811f0b844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 29/40] fix: reducing over an empty dimension gives the init
 value

---
 src/libspu/kernel/hlo/reduce.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/libspu/kernel/hlo/reduce.cc b/src/libspu/kernel/hlo/reduce.cc
index f7e1595..392d092 100644
--- a/src/libspu/kernel/hlo/reduce.cc
+++ b/src/libspu/kernel/hlo/reduce.cc
@@ -340,6 +340,25 @@ std::vector<spu::Value> Reduce(SPUContext *ctx,
   }
   flat_shape.push_back(numel_to_reduce);
 
+  // broadcast to origin shape.
+  Shape out_shape = inputs[0].shape();
+  for (const auto &axis : dims_to_reduce) {
+    out_shape[axis] = 1;
+  }
+
+  std::vector<spu::Value> broadcasted_init_values;
+  if (!ignore_init_values || numel_to_reduce == 0) {
+    // init_values are scalars, broadcast to return shape first.
+    for (const auto &v : init_values) {
+      broadcasted_init_values.push_back(hal::broadcast_to(ctx, v, out_shape));
+    }
+  }
+
+  if (numel_to_reduce == 0) {
+    // nothing to reduce, only init values are left.
+    return broadcasted_init_values;
+  }
+
   std::vector<spu::Value> flattened;
   for (const auto &input : inputs) {
     flattened.push_back(
@@ -350,12 +369,6 @@ std::vector<spu::Value> Reduce(SPUContext *ctx,
   auto results =
       TreeReduce(ctx, flattened, flattened[0].shape().size() - 1, reducer);
 
-  // broadcast to origin shape.
-  Shape out_shape = inputs[0].shape();
-  for (const auto &axis : dims_to_reduce) {
-    out_shape[axis] = 1;
-  }
-
   for (auto &result : results) {
     result = hal::reshape(ctx, result, out_shape);
   }
@@ -364,12 +377,6 @@ std::vector<spu::Value> Reduce(SPUContext *ctx,
     return results;
   }
 
-  std::vector<spu::Value> broadcasted_init_values;
-  // init_values are scalars, broadcast to return shape first.
-  for (const auto &v : init_values) {
-    broadcasted_init_values.push_back(hal::broadcast_to(ctx, v, out_shape));
-  }
-
   return reducer(results, broadcasted_init_values);
 }
 
-- 
2.43.0


From 1acfa67b02d256d75be0bbf04c67b72be35d5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 30/40] fix: oblivious reads accept boolean shares

---
 src/libspu/kernel/hal/ring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/ring.cc b/src/libspu/kernel/hal/ring.cc
index 1c5895b..fbd0c82 100644
--- a/src/libspu/kernel/hal/ring.cc
+++ b/src/libspu/kernel/hal/ring.cc
@@ -698,7 +698,7 @@ Value _oramread(SPUContext* ctx, const Value& x, const Value& y,
 
   Value ret;
   if (y.isSecret()) {
-    ret = _oramread_ss(ctx, reshaped_x, reshaped_y, offset);
+    ret = _oramread_ss(ctx, reshaped_x, _prefer_a(ctx, reshaped_y), offset);
   } else if (y.isPublic()) {
     ret = _oramread_sp(ctx, reshaped_x, reshaped_y, offset);
   } else if (y.isPrivate()) {
-- 
2.43.0


From b3d0b3c32d9992b1b06313ae53929d2b45263115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 31/40] fix: dynamic update slice keeps a secret start index
 secret behind a public one

---
 src/libspu/kernel/hlo/indexing.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index 9dc93b0..0785ad9 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -543,7 +543,8 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
   SPU_ENFORCE_EQ(start_indices.size(), update.shape().size());
   SPU_ENFORCE(!start_indices.empty());
 
-  if (start_indices[0].isSecret()) {
+  if (std::any_of(start_indices.begin(), start_indices.end(),
+                  [](const spu::Value &v) { return v.isSecret(); })) {
     // flatten first
     spu::Value flattened_operand =
         hal::reshape(ctx, operand, {operand.numel()});
@@ -568,13 +569,7 @@ spu::Value DynamicUpdateSlice(SPUContext *ctx, const spu::Value &operand,
     // Start indices
     Index start_indices_i64(start_indices.size());
     for (const auto &idx : llvm::enumerate(start_indices)) {
-      auto v_idx = idx.value();
-      if (v_idx.isSecret()) {
-        v_idx = hal::reveal(ctx, v_idx);
-        SPDLOG_WARN("Reveal {}th start index of DynamicUpdateSlice",
-                    idx.index());
-      }
-      start_indices_i64[idx.index()] = getIndices(ctx, v_idx)[0];
+      start_indices_i64[idx.index()] = getIndices(ctx, idx.value())[0];
       // Transform start_indices
       // start_indices[i] = clamp(start_indices[i], 0, operand.dimension_size[i]
       // - update.dimension_size[i])
-- 
2.43.0


From 05cc3008ef85a1084c6053745b4a1c324a949162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 32/40] fix: securenn: the dealing party neither sees opened
 masks nor holds a piece of the operands

P2 deals the random bits and AND triples, and used to take part in opening the
operands masked with them (and_bb, trunc_a, b2a), from which it could compute
every operand.
---
 src/libspu/mpc/securenn/arithmetic.cc | 30 +++++++-------
 src/libspu/mpc/securenn/boolean.cc    | 58 ++++++++++++++++++++++++---
 src/libspu/mpc/securenn/boolean.h     |  8 +++-
 src/libspu/mpc/securenn/conversion.cc | 36 +++++++++--------
 src/libspu/mpc/securenn/conversion.h  |  3 +-
 5 files changed, 98 insertions(+), 37 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 0fc11a2..e92d90d 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -201,9 +201,14 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   DISPATCH_ALL_FIELDS(field, [&]() {
     using U = ring2k_t;
 
-    auto r = prg_state->genPriv(field, in.shape());
-    auto rc = prg_state->genPriv(field, in.shape());
-    auto rb = prg_state->genPriv(field, in.shape());
+    // P2 learns r, so it neither holds a piece of it nor sees x+r.
+    auto gen = [&] {
+      return rank == 2 ? ring_zeros(field, in.shape())
+                       : prg_state->genPriv(field, in.shape());
+    };
+    auto r = gen();
+    auto rc = gen();
+    auto rb = gen();
 
     // reconstruct r, rc, rb
     auto r_recon = comm->reduce(ReduceOp::ADD, r, 2, "r");
@@ -253,7 +258,14 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         x_plus_r[idx] = x + _r[idx];
       });
       // open <x> + <r> = c
-      c = comm->allReduce<U, std::plus>(x_plus_r, kBindName());
+      comm->addCommStatsManually(1, 2 * numel * sizeof(U));
+      if (rank == 2) {
+        out = ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
+        return;
+      }
+      comm->sendAsync<U>(1 - rank, x_plus_r, kBindName());
+      c = comm->recv<U>(1 - rank, kBindName());
+      pforeach(0, numel, [&](int64_t idx) { c[idx] += x_plus_r[idx]; });
     }
 
     pforeach(0, numel, [&](int64_t idx) {
@@ -279,16 +291,6 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
       _out[idx] = y;
     });
   });
-  // P2 send share to P0
-  if (rank == 2) {
-    comm->sendAsync(0, out, "out");
-    out = ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
-  }
-  if (rank == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "out");
-    tmp = tmp.reshape(in.shape());
-    out = ring_add(out, tmp);
-  }
 
   return out.as(makeType<AShrTy>(field));
 }
diff --git a/src/libspu/mpc/securenn/boolean.cc b/src/libspu/mpc/securenn/boolean.cc
index c122b9e..0c6f734 100644
--- a/src/libspu/mpc/securenn/boolean.cc
+++ b/src/libspu/mpc/securenn/boolean.cc
@@ -131,9 +131,39 @@ NdArrayRef AndBP::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   return out;
 }
 
-NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
-                       const NdArrayRef& rhs) const {
-  SPU_ENFORCE(lhs.shape() == rhs.shape());
+NdArrayRef movePieceOfP2(KernelEvalContext* ctx, const NdArrayRef& in) {
+  const auto field = in.eltype().as<Ring2k>()->field();
+  const size_t nbits = getNumBits(in);
+  auto* comm = ctx->getState<Communicator>();
+  auto* prg_state = ctx->getState<PrgState>();
+  const auto rank = comm->getRank();
+
+  if (nbits == 0 || in.numel() == 0) {
+    return in;
+  }
+
+  if (rank == 2) {
+    auto t =
+        prg_state->genPrssPair(field, in.shape(), PrgState::GenPrssCtrl::First)
+            .first;
+    ring_bitmask_(t, 0, nbits);
+    comm->sendAsync(0, ring_xor(in, t), "piece");
+    return makeBShare(ring_zeros(field, in.shape()), field, nbits);
+  }
+  if (rank == 1) {
+    auto t =
+        prg_state->genPrssPair(field, in.shape(), PrgState::GenPrssCtrl::Second)
+            .second;
+    ring_bitmask_(t, 0, nbits);
+    return makeBShare(ring_xor(in, t), field, nbits);
+  }
+  auto piece = comm->recv(2, in.eltype(), "piece").reshape(in.shape());
+  return makeBShare(ring_xor(in, piece), field, nbits);
+}
+
+NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs_in,
+                       const NdArrayRef& rhs_in) const {
+  SPU_ENFORCE(lhs_in.shape() == rhs_in.shape());
 
   auto* comm = ctx->getState<Communicator>();
   auto rank = comm->getRank();
@@ -141,10 +171,21 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   const auto field = ctx->getState<Z2kState>()->getDefaultField();
   auto ty = makeType<BShrTy>(field);
 
-  const size_t out_nbits = std::min(getNumBits(lhs), getNumBits(rhs));
+  const size_t out_nbits = std::min(getNumBits(lhs_in), getNumBits(rhs_in));
+  if (out_nbits == 0) {
+    // special case, it's known to be zero.
+    return makeBShare(ring_zeros(field, lhs_in.shape()), field, 0);
+  }
+
+  const auto lhs = movePieceOfP2(ctx, lhs_in);
+  const auto rhs = movePieceOfP2(ctx, rhs_in);
+
   const PtType backtype = getBacktype(out_nbits);
   const int64_t numel = lhs.numel();
 
+  // hand over the pieces of P2, open
+  comm->addCommStatsManually(2, numel * SizeOf(backtype) * 4);
+
   NdArrayRef out(makeType<BShrTy>(field, out_nbits), lhs.shape());
   DISPATCH_ALL_FIELDS(field, [&]() {
     using T = ring2k_t;
@@ -178,6 +219,10 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         auto c1 = ring_xor(ring_and(ring_xor(a0, a1), ring_xor(b0, b1)), c0);
 
         comm->sendAsync(1, c1, "c");  // 1 latency, k
+
+        NdArrayView<T> _out(out);
+        pforeach(0, numel, [&](int64_t idx) { _out[idx] = 0; });
+        return;
       }
       if (rank == 0) {
         a = prg_state
@@ -212,7 +257,10 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         mask[numel + idx] = _rhs[idx] ^ _b[idx];
       });
 
-      mask = comm->allReduce<V, std::bit_xor>(mask, "open(x^a,y^b)");
+      // between P0 and P1 only, P2 knows a and b
+      comm->sendAsync<V>(1 - rank, mask, "open(x^a,y^b)");
+      const auto other = comm->recv<V>(1 - rank, "open(x^a,y^b)");
+      pforeach(0, numel * 2, [&](int64_t idx) { mask[idx] ^= other[idx]; });
 
       // Zi = Ci ^ ((X ^ A) & Bi) ^ ((Y ^ B) & Ai) ^ <(X ^ A) & (Y ^ B)>
       NdArrayView<T> _z(out);
diff --git a/src/libspu/mpc/securenn/boolean.h b/src/libspu/mpc/securenn/boolean.h
index a19f109..a01672b 100644
--- a/src/libspu/mpc/securenn/boolean.h
+++ b/src/libspu/mpc/securenn/boolean.h
@@ -73,11 +73,17 @@ class AndBP : public BinaryKernel {
                   const NdArrayRef& rhs) const override;
 };
 
+// P2 deals the correlated randomness of the kernels below, so it must neither
+// see the values that are opened under it nor hold a piece of the operands.
+// Moves P2's piece of a boolean sharing to P0, re-randomized between P1 and P2.
+NdArrayRef movePieceOfP2(KernelEvalContext* ctx, const NdArrayRef& in);
+
 class AndBB : public BinaryKernel {
  public:
   static constexpr const char* kBindName() { return "and_bb"; }
 
-  ce::CExpr latency() const override { return ce::Const(1); }
+  // hand over the pieces of P2, open
+  ce::CExpr latency() const override { return ce::Const(2); }
 
   ce::CExpr comm() const override { return ce::K() * 2 * (ce::N() - 1); }
 
diff --git a/src/libspu/mpc/securenn/conversion.cc b/src/libspu/mpc/securenn/conversion.cc
index cc78358..ba1e45f 100644
--- a/src/libspu/mpc/securenn/conversion.cc
+++ b/src/libspu/mpc/securenn/conversion.cc
@@ -21,6 +21,7 @@
 #include "libspu/mpc/common/prg_state.h"
 #include "libspu/mpc/common/pv2k.h"
 #include "libspu/mpc/securenn/arithmetic.h"
+#include "libspu/mpc/securenn/boolean.h"
 #include "libspu/mpc/securenn/type.h"
 #include "libspu/mpc/utils/ring_ops.h"
 
@@ -94,23 +95,28 @@ NdArrayRef B2A::proc(KernelEvalContext* ctx, const NdArrayRef& x) const {
 }
 
 NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
-                             const NdArrayRef& x) const {
-  const auto field = x.eltype().as<Ring2k>()->field();
+                             const NdArrayRef& in) const {
+  const auto field = in.eltype().as<Ring2k>()->field();
   auto* comm = ctx->getState<Communicator>();
   auto* prg_state = ctx->getState<PrgState>();
   auto rank = comm->getRank();
 
-  const int64_t nbits = x.eltype().as<BShare>()->nbits();
+  const int64_t nbits = in.eltype().as<BShare>()->nbits();
   SPU_ENFORCE((size_t)nbits <= SizeOf(field) * 8, "invalid nbits={}", nbits);
   if (nbits == 0) {
     // special case, it's known to be zero.
-    return ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
+    return ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
   }
 
+  const auto x = movePieceOfP2(ctx, in);
+
   auto numel = x.numel();
 
-  auto randbits =
-      prg_state->genPriv(field, {numel * static_cast<int64_t>(nbits)});
+  // P2 learns the random bits, so it neither holds a piece of them nor sees
+  // x^r.
+  const Shape rand_shape = {numel * static_cast<int64_t>(nbits)};
+  auto randbits = rank == 2 ? ring_zeros(field, rand_shape)
+                            : prg_state->genPriv(field, rand_shape);
   // reconstruct ranbits
   if (rank == 0) {
     comm->sendAsync(2, randbits, "randbits0");
@@ -156,7 +162,14 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     });
 
     // open c = x ^ r
-    x_xor_r = comm->allReduce<U, std::bit_xor>(x_xor_r, "open(x^r)");
+    comm->addCommStatsManually(2, 2 * numel * sizeof(U));
+    if (rank == 2) {
+      res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
+      return;
+    }
+    comm->sendAsync<U>(1 - rank, x_xor_r, "open(x^r)");
+    const auto other = comm->recv<U>(1 - rank, "open(x^r)");
+    pforeach(0, numel, [&](int64_t idx) { x_xor_r[idx] ^= other[idx]; });
 
     NdArrayView<U> _res(res);
     pforeach(0, numel, [&](int64_t idx) {
@@ -173,15 +186,6 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     });
   });
 
-  if (comm->getRank() == 2) {
-    comm->sendAsync(0, res, "res");
-    res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
-  }
-  if (comm->getRank() == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "res");
-    tmp = tmp.reshape(x.shape());
-    res = ring_add(res, tmp);
-  }
   return res;
 }
 
diff --git a/src/libspu/mpc/securenn/conversion.h b/src/libspu/mpc/securenn/conversion.h
index b769fd4..10ebca6 100644
--- a/src/libspu/mpc/securenn/conversion.h
+++ b/src/libspu/mpc/securenn/conversion.h
@@ -62,7 +62,8 @@ class B2A_Randbit : public UnaryKernel {
  public:
   static constexpr const char* kBindName() { return "b2a"; }
 
-  ce::CExpr latency() const override { return ce::Const(1); }
+  // hand over the piece of P2, open
+  ce::CExpr latency() const override { return ce::Const(2); }
 
   ce::CExpr comm() const override {
     return ce::K() * (ce::N() - 1)  // Open bit masked value
-- 
2.43.0


From 590e81b38722428992208a2384cb500903333a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 33/40] fix: beaver: a matrix operand used for the first time
 gets randomness of its own

Dot treated a descriptor that is only being filled like one that is replayed:
it drew the operand from the stream without moving the counter on, so the two
operands and the product were cut from the same random stream and the masked
operands were opened under one mask.
---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..3be47ee 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From 2fada7b888aca587dd0cc30ad52afba73db9b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 34/40] fix: beaver server: reply to a long TruncPr request
 with its two arrays in order

Requests above 32 MB were adjusted block by block and the blocks of both
adjustments were sent interleaved, while the client fills one array after the
other: all tuples were wrong.
---
 .../semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 28f2311..2fd8bb2 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -347,8 +347,11 @@ void AdjustAndSend(
 
   try {
     auto& [ops, perm, seeds, pad_length] = adjust_params;
+    // a TruncPr reply carries two arrays one after the other, the client would
+    // mix them up if the blocks of both were interleaved.
     if constexpr (std::is_same_v<AdjustRequest, AdjustDotRequest> ||
-                  std::is_same_v<AdjustRequest, AdjustPermRequest>) {
+                  std::is_same_v<AdjustRequest, AdjustPermRequest> ||
+                  std::is_same_v<AdjustRequest, AdjustTruncPrRequest>) {
       auto adjusts = AdjustImpl(request, absl::MakeSpan(ops), perm);
       SendStreamData(adjusts, pa);
     } else {
-- 
2.43.0


From f02c083d90dbeb2093b408ef566895d96c508e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 35/40] fix: atan2 of a public or private operand and a boolean
 share

---
 src/libspu/kernel/hal/fxp_approx.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 6fa4208..4871f76 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -856,9 +856,14 @@ Value AtanApproxLocal(SPUContext* ctx, const Value& x) {
 }
 
 Value atan2_minimax(SPUContext* ctx, const Value& y, const Value& x) {
-  auto common_type = _common_type(ctx, x.storage_type(), y.storage_type());
-  std::vector<Value> xy = {_cast_type(ctx, x, common_type).setDtype(x.dtype()),
-                           _cast_type(ctx, y, common_type).setDtype(y.dtype())};
+  // A public or private operand is shared arithmetically, hence it can not be
+  // packed with a boolean share.
+  const auto xa = _prefer_a(ctx, x);
+  const auto ya = _prefer_a(ctx, y);
+  auto common_type = _common_type(ctx, xa.storage_type(), ya.storage_type());
+  std::vector<Value> xy = {
+      _cast_type(ctx, xa, common_type).setDtype(x.dtype()),
+      _cast_type(ctx, ya, common_type).setDtype(y.dtype())};
   // vectorize the computation of the msb and abs of x and y
   std::vector<Value> msb_xy;
   spu::vmap(xy.begin(), xy.end(), std::back_inserter(msb_xy),
-- 
2.43.0


From ddf83526361e93b3b7057c08f4b5fa783c24371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 36/40] fix: rsqrt: cover the same domain with an odd number of
 fraction bits

---
 src/libspu/kernel/hal/fxp_approx.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 4871f76..c8c4abb 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -617,8 +617,8 @@ static Value rsqrt_comp(SPUContext* ctx, const Value& x, const Value& z) {
     b = _bit_parity(ctx, z_even, k / 2);
   }
 
-  auto a_rev = _bitrev(ctx, a, 0, (f / 2) * 2);
-  a_rev = detail::maskNumberOfBits(ctx, a_rev, (f / 2) * 2);
+  auto a_rev = _bitrev(ctx, a, 0, f);
+  a_rev = detail::maskNumberOfBits(ctx, a_rev, f);
 
   // do compensation
   // Note:
@@ -631,8 +631,8 @@ static Value rsqrt_comp(SPUContext* ctx, const Value& x, const Value& z) {
   Value c0;
   Value c1;
   if (f % 2 == 1) {
-    c0 = _constant(ctx, 1 << ((f + 3) / 2), x.shape());  // f+e even
-    c1 = _constant(ctx, (1 << (f / 2 + 1)) * std::sqrt(2),
+    c0 = _constant(ctx, 1 << ((f + 1) / 2), x.shape());  // f+e even
+    c1 = _constant(ctx, (1 << (f / 2)) * std::sqrt(2),
                    x.shape());  // f+e odd
   } else {
     c0 = _constant(ctx, (1 << (f / 2)) * std::sqrt(2),
-- 
2.43.0


From 0eeeae34c7c8126f368fa5465218b74ca1d1f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:39 +0000
Subject: [PATCH 37/40] fix: exp prime mode: private values and boolean shares

---
 src/libspu/kernel/hal/fxp_approx.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index c8c4abb..20f6f81 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -23,6 +23,7 @@
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/fxp_base.h"
 #include "libspu/kernel/hal/fxp_cleartext.h"
+#include "libspu/kernel/hal/prot_wrapper.h"
 #include "libspu/kernel/hal/ring.h"
 #include "libspu/kernel/hal/shape_ops.h"
 
@@ -222,6 +223,12 @@ Value exp_prime(SPUContext* ctx, const Value& x) {
                     .setDtype(x.dtype());
   }
 
+  // the kernel works on an arithmetic share.
+  if (clamped_x.isPrivate()) {
+    clamped_x = _v2s(ctx, clamped_x).setDtype(x.dtype());
+  }
+  clamped_x = _prefer_a(ctx, clamped_x);
+
   auto ret = dynDispatch<spu::Value>(ctx, "exp_a", clamped_x);
   return ret.setDtype(x.dtype());
 }
-- 
2.43.0


From 225ef001b06b69e38a6fa64bcba49b780e2fa142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 38/40] fix: LowMC on shares of a scalar

---
 src/libspu/mpc/semi2k/lowmc.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/mpc/semi2k/lowmc.cc b/src/libspu/mpc/semi2k/lowmc.cc
index 993e563..3b1289d 100644
--- a/src/libspu/mpc/semi2k/lowmc.cc
+++ b/src/libspu/mpc/semi2k/lowmc.cc
@@ -243,6 +243,11 @@ NdArrayRef LowMcB::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 
 NdArrayRef LowMcB::encrypt(KernelEvalContext* ctx, const NdArrayRef& in,
                            uint128_t key, uint128_t seed) const {
+  // the state is sliced along the first axis, which a scalar does not have
+  if (in.shape().ndim() == 0) {
+    return encrypt(ctx, in.reshape({1}), key, seed).reshape(in.shape());
+  }
+
   const auto field = in.eltype().as<BShrTy>()->field();
   const auto numel = in.numel();
   const auto k = SizeOf(field) * 8;
-- 
2.43.0


From 24c35e255babd9bbc75907d893374d57ea5b3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 39/40] fix: LowMC layers were singular, so different blocks
 could share a ciphertext

---
 src/libspu/mpc/utils/lowmc.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/utils/lowmc.cc b/src/libspu/mpc/utils/lowmc.cc
index 1d61025..7cc22ee 100644
--- a/src/libspu/mpc/utils/lowmc.cc
+++ b/src/libspu/mpc/utils/lowmc.cc
@@ -305,13 +305,14 @@ NdArrayRef LowMC::Substitution(const NdArrayRef& data,
 void LowMC::fill_matrixes(bool need_decrypt) {
   // 1. create Lmatrixes
   lin_matrices_.reserve(rounds_);
-  // -1 means no rank checking
-  int64_t desire_rank = -1;
+  // LowMC requires invertible Lmatrixes and key matrices of full rank, with or
+  // without decryption: a singular Lmatrix maps different blocks to the same
+  // ciphertext.
+  // Note: we force block_size_ <= key_size_ = 128, so we can just use the
+  // same ranks for all Lmatices and key matrices.
+  const int64_t desire_rank = block_size_;
   if (need_decrypt) {
     inv_lin_matrices_.reserve(rounds_);
-    // Note: we force block_size_ <= key_size_ = 128, so we can just use the
-    // same ranks for all Lmatices and key matrices.
-    desire_rank = block_size_;
   }
 
   for (uint64_t i = 0; i < rounds_; i++) {
@@ -353,7 +354,7 @@ NdArrayRef LowMC::get_pub_rand_blocks(FieldType field, int64_t n_blocks,
   const auto ring_ty = makeType<RingTy>(field);
   auto rand = replay_ring_rand(field, {n_blocks});
 
-  // check the rank for the inverse process (debug only now)
+  // check the rank
   if (desire_rank > 0) {
     // The simple constant rounds algorithm to generate invertible or full
     // row-rank matrixes:
-- 
2.43.0


From 0b9fd4d58f34080730206037b1b59dec28095be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 40/40] fix: LowMC decryption overwrote its argument

---
 src/libspu/mpc/utils/lowmc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/lowmc.cc b/src/libspu/mpc/utils/lowmc.cc
index 7cc22ee..b841c63 100644
--- a/src/libspu/mpc/utils/lowmc.cc
+++ b/src/libspu/mpc/utils/lowmc.cc
@@ -257,7 +257,7 @@ NdArrayRef LowMC::decrypt(const NdArrayRef& ciphertext) {
   const auto& shape = ciphertext.shape();
 
   // just the inverse procedure of encrypt
-  auto c = ciphertext;
+  auto c = ciphertext.clone();
   for (uint64_t r = rounds_; r > 0; r--) {
     ring_xor_(c, round_keys_[r].broadcast_to(shape, {}));
 
-- 
2.43.0

