From f35bfb4d2c1ed496c57045e709c93b0acb6523bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 01/23] fix: IntegerRange: bounds of sdiv and abs when INT_MIN
 is involved

---
 cmmc/Analysis/IntegerRange.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmmc/Analysis/IntegerRange.cpp b/cmmc/Analysis/IntegerRange.cpp
index a9af490..a781906 100644
--- a/cmmc/Analysis/IntegerRange.cpp
+++ b/cmmc/Analysis/IntegerRange.cpp
@@ -288,10 +288,9 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
     if(rhs.mMinSignedValue == 0 && rhs.mMaxSignedValue == 0)
         return ret;
 
-    const auto wrap = [](int64_t& x) {
-        if(x == -static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
-            x = std::numeric_limits<int32_t>::min();
-    };
+    // INT_MIN / -1 wraps around, while its neighbours reach up to INT_MAX: nothing is known about the bounds
+    bool overflow = false;
+    const auto checkOverflow = [&](int64_t x) { overflow |= signedOverflow(x); };
     if(rhs.mMinSignedValue >= 0) {
         const auto s1 = mMinSignedValue / std::max(static_cast<int64_t>(1), rhs.mMinSignedValue),
                    s2 = mMinSignedValue / std::max(static_cast<int64_t>(1), rhs.mMaxSignedValue),
@@ -303,11 +302,12 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
              s2 = mMinSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue),
              s3 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMinSignedValue),
              s4 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue);
-        wrap(s1);
-        wrap(s2);
-        wrap(s3);
-        wrap(s4);
-        ret.setSignedRange(std::min(std::min(s1, s2), std::min(s3, s4)), std::max(std::max(s1, s2), std::max(s3, s4)));
+        checkOverflow(s1);
+        checkOverflow(s2);
+        checkOverflow(s3);
+        checkOverflow(s4);
+        if(!overflow)
+            ret.setSignedRange(std::min(std::min(s1, s2), std::min(s3, s4)), std::max(std::max(s1, s2), std::max(s3, s4)));
     } else {
         std::array<int64_t, 2> lhs = { mMinSignedValue, mMaxSignedValue };
         std::array<int64_t, 4> rhsList{ rhs.mMinSignedValue, -1, 1, rhs.mMaxSignedValue };
@@ -317,11 +317,12 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
                 if(!rhsVal)
                     continue;
                 auto val = lhsVal / rhsVal;
-                wrap(val);
+                checkOverflow(val);
                 minV = std::min(minV, val);
                 maxV = std::max(maxV, val);
             }
-        ret.setSignedRange(minV, maxV);
+        if(!overflow)
+            ret.setSignedRange(minV, maxV);
     }
 
     ret.sync();
@@ -481,7 +482,9 @@ IntegerRange IntegerRange::smin(const IntegerRange& rhs) const {
 IntegerRange IntegerRange::abs() const {
     IntegerRange ret;
     if(mMinSignedValue < 0 && mMaxSignedValue >= 0) {
-        ret.setSignedRange(0, std::max(std::abs(mMinSignedValue), std::abs(mMaxSignedValue)));
+        ret.setSignedRange(0,
+                           std::min(std::max(std::abs(mMinSignedValue), std::abs(mMaxSignedValue)),
+                                    static_cast<int64_t>(std::numeric_limits<int32_t>::max())));
     } else if(mMinSignedValue != std::numeric_limits<int32_t>::min()) {
         auto s1 = std::abs(mMinSignedValue);
         auto s2 = std::abs(mMaxSignedValue);
-- 
2.43.0


From 8fd8329849bb1c66b160f015e5987bb587bf8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 02/23] fix: cmmcCacheLookup: different arguments must not
 share a key

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index b98b724..e87715c 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,7 +271,7 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(key2);
+    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint32_t>(key2);
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
-- 
2.43.0


From 8800a4b2bd94b9d8bc71e44ec13a16edf2c253f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 03/23] fix: cmmcParallelFor: sub-ranges near the limits of
 int32_t

---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index e87715c..5957785 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -224,11 +224,12 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
         std::atomic_thread_fence(std::memory_order_seq_cst);
 
         constexpr uint32_t alignment = 4;
-        const auto inc = static_cast<int32_t>(((size / threads) + alignment - 1) / alignment * alignment);
+        const auto inc = static_cast<int64_t>(((size / threads) + alignment - 1) / alignment * alignment);
         std::array<bool, maxThreads> assigned{};
         for(int32_t i = 0; i < static_cast<int32_t>(threads); ++i) {
+            // the last sub-range may reach beyond the range of int32_t
             const auto subBeg = beg + i * inc;
-            auto subEnd = std::min(subBeg + inc, end);
+            auto subEnd = std::min(subBeg + inc, static_cast<int64_t>(end));
             if(static_cast<uint32_t>(i) == threads - 1)
                 subEnd = end;
             if(subBeg >= subEnd)
@@ -237,8 +238,8 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
             worker.func = func;
-            worker.beg = subBeg;
-            worker.end = subEnd;
+            worker.beg = static_cast<int32_t>(subBeg);
+            worker.end = static_cast<int32_t>(subEnd);
             // signal worker
             worker.ready.post();
             assigned[static_cast<size_t>(i)] = true;
-- 
2.43.0


From 68f45b86f60c123cffdc1682ac8c702c9f0d5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 04/23] fix: x >= a && x > b was merged into x < smax(a - 1, b)

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d624a2e..cc22b17 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1291,7 +1291,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                             break;
                         }
                         case CompareOp::ICmpSignedGreaterEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
+                            op = CompareOp::ICmpSignedGreaterThan;
                             val = addOffset(val, -1);
                             break;
                         }
-- 
2.43.0


From 30529e968f7af4c841f9317692a8d6453087d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 05/23] fix: -x cmp INT_MIN was rewritten to INT_MIN cmp x

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index cc22b17..4fadcb3 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -439,8 +439,13 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
             */
 
+            auto maxSigned = [](const Value* like) {
+                return std::numeric_limits<intmax_t>::max() >> (64 - like->getType()->as<IntegerType>()->getBitwidth());
+            };
+            auto minSigned = [&](const Value* like) { return -maxSigned(like) - 1; };
+
             // -x cmp c -> -c cmp x
-            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx)) {
+            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx) && i1 != minSigned(v1)) {
                 switch(cmp) {
                     case CompareOp::ICmpEqual:
                     case CompareOp::ICmpNotEqual:
-- 
2.43.0


From f527cd4735b12b6adcb1255fd4da3fd8e1c6b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 06/23] fix: (a >> c1) >> c2 was folded to 0 for negative a if
 c1 + c2 exceeds the bit width

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 4fadcb3..221ff48 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -513,9 +513,8 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
             if(ashr(ashr(any(v1), int_(i1)), int_(i2))(matchCtx)) {
                 const auto shamt = i1 + i2;
-                if(isLegalShamt(shamt, v1->getType()))
-                    return builder.makeOp<BinaryInst>(InstructionID::AShr, v1, makeIntLike(shamt, v1));
-                return makeIntLike(0, v1);
+                const auto maxShamt = static_cast<intmax_t>(v1->getType()->as<IntegerType>()->getBitwidth()) - 1;
+                return builder.makeOp<BinaryInst>(InstructionID::AShr, v1, makeIntLike(std::min(shamt, maxShamt), v1));
             }
 
             // select c1, c2, false -> c1 & c2
-- 
2.43.0


From 3d7582028240f2c71df515c00acdfaf9d9a25d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 07/23] fix: x <= INT_MAX and x >= INT_MIN were rewritten to
 comparisons that are always false

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 221ff48..17d8bf3 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1196,12 +1196,11 @@ class ArithmeticReduce final : public TransformPass<Function> {
 
             // le x c -> lt x c+1, ge x c -> gt x c-1
             if(icmp(cmp, any(v1), int_(i1))(matchCtx)) {
-                // TODO: check overflow
-                if(cmp == CompareOp::ICmpSignedLessEqual) {
+                if(cmp == CompareOp::ICmpSignedLessEqual && i1 != maxSigned(v1)) {
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, v1,
                                                        makeIntLike(i1 + 1, v1));
                 }
-                if(cmp == CompareOp::ICmpSignedGreaterEqual) {
+                if(cmp == CompareOp::ICmpSignedGreaterEqual && i1 != minSigned(v1)) {
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedGreaterThan, v1,
                                                        makeIntLike(i1 - 1, v1));
                 }
-- 
2.43.0


From 2bb025a6c19c3efae2b4e627bd7dd48b55304186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 08/23] fix: x / c1 == c2 was rewritten to a range check that
 includes negative x if it reaches INT_MAX

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 17d8bf3..d69daf0 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1068,6 +1068,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                         lower -= i1 - 1;
                         ++upper;
                     }
+                    upper = std::min(upper, static_cast<intmax_t>(std::numeric_limits<int32_t>::max()) + 1);
 
                     if(upper - lower <= static_cast<intmax_t>(std::numeric_limits<uint32_t>::max()) &&
                        (-std::numeric_limits<int32_t>::max() <= lower && lower <= std::numeric_limits<int32_t>::max())) {
-- 
2.43.0


From 0ea15b92f175789421dd97d3a29d1c9bc7ba77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 09/23] fix: x == a ? b : a was rewritten to a ^ b ^ x although
 a == b is possible

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d69daf0..a97ee43 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -736,9 +736,13 @@ class ArithmeticReduce final : public TransformPass<Function> {
             // TODO: 2-15 Rotate Shifts
 
             // 2-21 Alternating among Two or More Values
-            // x == a ? b : a -> a ^ b ^ x / a + b - x
+            // x == a ? b : a -> a ^ b ^ x / a + b - x where x is either a or b
+            auto isDistinctConstant = [](Value* lhs, Value* rhs) {
+                return lhs->is<ConstantInteger>() && rhs->is<ConstantInteger>() &&
+                    lhs->as<ConstantInteger>()->getZeroExtended() != rhs->as<ConstantInteger>()->getZeroExtended();
+            };
             if(inst->getType()->isBoolean() && select(oneUse(icmp(cmp, any(v1), any(v2))), any(v3), any(v4))(matchCtx) &&
-               ((v1 == v4 || v2 == v4) && cmp == CompareOp::ICmpEqual)) {
+               ((v1 == v4 || v2 == v4) && cmp == CompareOp::ICmpEqual) && isDistinctConstant(v3, v4)) {
                 auto x = (v1 == v4 ? v2 : v1);
                 auto b = v3;
                 auto a = v4;
-- 
2.43.0


From d020e12280d9a6049b77fd4f4f1c2c28f06c4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 10/23] fix: a / c1 / c2 was folded to 0 although it is -1 if a
 = INT_MIN and c1 * c2 = 2^31

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index a97ee43..0ad5024 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -179,14 +179,18 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
             // a / c1 / c2 -> a / (c1 * c2)
             if(sdiv(sdiv(any(v1), int_(i1)), int_(i2))(matchCtx)) {
-                const auto val = i1 * i2;
+                intmax_t val;
                 const auto width = v1->getType()->as<IntegerType>()->getBitwidth();
-                const auto min = -(1LL << (width - 1));
-                const auto max = -(min + 1);
-                if(min <= val && val <= max) {
-                    return builder.makeOp<BinaryInst>(InstructionID::SDiv, v1, makeIntLike(val, inst));
+                const auto max = std::numeric_limits<intmax_t>::max() >> (64 - width);
+                const auto min = -max - 1;
+                if(!__builtin_mul_overflow(i1, i2, &val)) {
+                    if(min <= val && val <= max) {
+                        return builder.makeOp<BinaryInst>(InstructionID::SDiv, v1, makeIntLike(val, inst));
+                    }
+                    // min / (max + 1) = -1
+                    if(val - 1 != max)
+                        return ConstantInteger::get(inst->getType(), 0);
                 }
-                return ConstantInteger::get(inst->getType(), 0);
             }
             // 0 % a -> 0
             if(srem(cint_(0), any(v1))(matchCtx) || urem(cuint_(0), any(v1))(matchCtx))
-- 
2.43.0


From c5e7a74b20c099bf1ab08d4b4138a417cc31b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 11/23] fix: ((x mod c1) + c2) mod c1 + c3) mod c1 has another
 sign if c2 + c3 is reduced before it is added

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 0ad5024..54daf86 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -470,7 +470,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                     int_(i5))(matchCtx) &&
                (i1 > 0 && i1 == i3 && i3 == i5) && (i2 >= 0 && i4 >= 0 && i1 + i2 + i4 < std::numeric_limits<int32_t>::max())) {
                 return builder.makeOp<BinaryInst>(
-                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike((i2 + i4) % i1, v2)), v3);
+                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike(i2 + i4, v2)), v3);
             }
 
             // (a == c1) & (b == c2) -> ((a^c1) | (b^c2)) == 0
-- 
2.43.0


From a03e32ba29f128b5784a727c833a6cd354d633a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:25 +0000
Subject: [PATCH 12/23] fix: do not treat the 64-bit constant 0xffffffff as -1
 in RISC-V selection

---
 cmmc/Target/RISCV/RISCVISelInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/RISCV/RISCVISelInfo.cpp b/cmmc/Target/RISCV/RISCVISelInfo.cpp
index f7bab72..09702af 100644
--- a/cmmc/Target/RISCV/RISCVISelInfo.cpp
+++ b/cmmc/Target/RISCV/RISCVISelInfo.cpp
@@ -247,9 +247,11 @@ static bool isOne(const MIROperand& op) {
     return op.isImm() && op.imm() == 1;
 }
 static bool isNegativeOne(const MIROperand& op) {
-    return op.isImm() && static_cast<uint32_t>(op.imm()) == 0xffffffff;
+    return op.isImm() && (op.type() == OperandType::Int64 ? op.imm() == -1 : static_cast<uint32_t>(op.imm()) == 0xffffffff);
 }
 static bool isNotImm(OperandType type, const MIROperand& op) {
+    if(type == OperandType::Int64)
+        return op.isImm() && op.imm() == -1;
     return op.isImm() && static_cast<uint32_t>(op.imm()) == (type == OperandType::Bool ? 1 : 0xffffffff);
 }
 
-- 
2.43.0


From 974c3d4625090fd54cbe9ba2c1df06784fd78ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 13/23] fix: select XNOR for xor with -1 only, not for boolean
 negation

---
 cmmc/Target/RISCV/RISCV.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index eadd8fb..f8738de 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -656,7 +656,7 @@ InstSelection:
             Lhs: $Lhs
             Rhs: $Rhs
         Rhs: $Imm
-        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNotImm(($Dst).type(), $Imm)
+        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNegativeOne($Imm)
     Replace:
       XNOR:
         Rd: $Dst
@@ -670,7 +670,7 @@ InstSelection:
           InstXor:
             Lhs: $Rhs
             Rhs: $Imm
-        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNotImm(($Dst).type(), $Imm)
+        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNegativeOne($Imm)
     Replace:
       XNOR:
         Rd: $Dst
-- 
2.43.0


From a224e66b071627e72ee7f8eaccdda266be3e2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 14/23] fix: swap the operands of a RISC-V select on x ^ 1 only
 if x is boolean

---
 cmmc/Target/RISCV/RISCV.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index f8738de..1ae8f4b 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -2073,7 +2073,7 @@ InstSelection:
             Imm: $Imm
         Rhs: $Rhs
         CC: $CmpOpcode
-        $Predicate: ctx.hasOneUse($Cond) && isOperandIReg($InvCond) && isOne($Imm) && isZero($Rhs) && isCompareOp($CmpOpcode, CompareOp::ICmpNotEqual)
+        $Predicate: ctx.hasOneUse($Cond) && ($InvCond).type() == OperandType::Bool && isOne($Imm) && isZero($Rhs) && isCompareOp($CmpOpcode, CompareOp::ICmpNotEqual)
     Replace:
       Select_GPR_GPR:
         Rd: $Dst
@@ -2095,7 +2095,7 @@ InstSelection:
             Imm: $Imm
         Rhs: $Rhs
         CC: $CmpOpcode
-        $Predicate: ctx.hasOneUse($Cond) && isOperandIReg($InvCond) && isOne($Imm) && isZero($Rhs) && isCompareOp($CmpOpcode, CompareOp::ICmpNotEqual)
+        $Predicate: ctx.hasOneUse($Cond) && ($InvCond).type() == OperandType::Bool && isOne($Imm) && isZero($Rhs) && isCompareOp($CmpOpcode, CompareOp::ICmpNotEqual)
     Replace:
       Select_FPR_GPR:
         Rd: $Dst
-- 
2.43.0


From 3d2f9e4ae6deb56ecc4c52471073e5dfe3a30e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 15/23] fix: ARM: do not select a shifted index for byte loads
 (ldrsb has no such form)

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..aa822ee 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -319,7 +319,8 @@ static bool selectFusedAddrOffset(const MIROperand& addr, ISelContext& ctx, cons
         index = offInst->getOperand(1);
         scale = offInst->getOperand(2);
 
-        if(isOperandLoadStoreShamt(scale) && isOperandGPR(index)) {
+        // ldrsb has no form with a shifted index
+        if(dst.type() == OperandType::Int32 && isOperandLoadStoreShamt(scale) && isOperandGPR(index)) {
             if(auto indexReg = ctx.getRegRef(index, *offInst)) {
                 index = *indexReg;
                 scale = MIROperand::asImm(scale.imm(), OperandType::LoadStoreShamt);
-- 
2.43.0


From b03560ad83013202a762189d6cf112034f6f5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 16/23] fix: ARM: materialize the constant of smin/smax that is
 no operand2 constant

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index aa822ee..584ad32 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -822,7 +822,7 @@ static bool legalizeInst(MIRInst& inst, ISelContext& ctx) {
             imm2reg(lhs);
             MIROperand rhsImmInverted;
             if(rhs.isImm() && !isOperandOp2Constant(rhs) && !selectInvertedOp2Constant(rhs, rhsImmInverted)) {
-                imm2reg(lhs);
+                imm2reg(rhs);
             }
             break;
         }
-- 
2.43.0


From 8b681d902d144c89eb0b83aaa5836d6246951371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 17/23] fix: ARM: expand smin/smax with an inverted operand2
 constant

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index 584ad32..9a5af15 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -995,6 +995,21 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto op2 = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            // cmn lhs, ~rhs compares lhs with rhs + 1
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            auto cf =
+                MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT, OperandType::CondField);
+            *ctx.iter =
+                MIRInst{ MVN_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From 6054db0352d1dff6afc57ec0b5a2ae40f89d2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 18/23] fix: +0.0 and -0.0 are different constants

---
 cmmc/IR/ConstantValue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/IR/ConstantValue.cpp b/cmmc/IR/ConstantValue.cpp
index dca3b80..3038cef 100644
--- a/cmmc/IR/ConstantValue.cpp
+++ b/cmmc/IR/ConstantValue.cpp
@@ -15,6 +15,7 @@
 #include <cmmc/IR/ConstantValue.hpp>
 #include <cmmc/IR/Type.hpp>
 #include <cmmc/Support/Diagnostics.hpp>
+#include <cmath>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -151,7 +152,10 @@ size_t ConstantFloatingPoint::hash() const {
 }
 bool ConstantFloatingPoint::isEqual(const ConstantValue* rhs) const {
     return isEqualImpl<ConstantFloatingPoint>(
-        rhs, [&](const ConstantFloatingPoint* rhsVal) { return getValue() == rhsVal->getValue(); });
+        rhs, [&](const ConstantFloatingPoint* rhsVal) {
+            // +0.0 and -0.0 are different constants
+            return getValue() == rhsVal->getValue() && std::signbit(getValue()) == std::signbit(rhsVal->getValue());
+        });
 }
 
 size_t ConstantOffset::hash() const {
-- 
2.43.0


From 15b187c97c47e92279e0dac20645eee543e7c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 19/23] fix: do not fold a select between +0.0 and -0.0

---
 cmmc/Transforms/Combine/ConstantPropagation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ConstantPropagation.cpp b/cmmc/Transforms/Combine/ConstantPropagation.cpp
index e00d7df..6d7fdb6 100644
--- a/cmmc/Transforms/Combine/ConstantPropagation.cpp
+++ b/cmmc/Transforms/Combine/ConstantPropagation.cpp
@@ -259,7 +259,7 @@ class ConstantPropagation final : public TransformPass<Function> {
                     return inst->getOperand(1);
                 }
                 // select c?a:a -> a
-                if(select(any(v1), fp_(f1), fp_(f2))(matchCtx) && f1 == f2) {
+                if(select(any(v1), fp_(f1), fp_(f2))(matchCtx) && f1 == f2 && std::signbit(f1) == std::signbit(f2)) {
                     return inst->getOperand(1);
                 }
             }
-- 
2.43.0


From 59e81a2183fe9c8ff47669dd2b3172eba62e3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 20/23] fix: constant folding of srem by -1 (INT64_MIN % -1
 traps)

---
 cmmc/Transforms/Combine/ConstantPropagation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ConstantPropagation.cpp b/cmmc/Transforms/Combine/ConstantPropagation.cpp
index 6d7fdb6..d977318 100644
--- a/cmmc/Transforms/Combine/ConstantPropagation.cpp
+++ b/cmmc/Transforms/Combine/ConstantPropagation.cpp
@@ -100,8 +100,11 @@ class ConstantPropagation final : public TransformPass<Function> {
                 }
                 if(udiv(uint_(u1), uint_(u2))(matchCtx) && u2)
                     return makeUInt(inst, u1 / u2);
-                if(srem(int_(i1), int_(i2))(matchCtx) && i2)
+                if(srem(int_(i1), int_(i2))(matchCtx) && i2) {
+                    if(i2 == -1)
+                        return makeInt(inst, 0);
                     return makeInt(inst, i1 % i2);
+                }
                 if(urem(uint_(u1), uint_(u2))(matchCtx) && u2)
                     return makeUInt(inst, u1 % u2);
                 if(shl(uint_(u1), uint_(u2))(matchCtx))
-- 
2.43.0


From 2c24da0ed9d917ffcbe3611009c73040af3c30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:34 +0000
Subject: [PATCH 21/23] fix: a non-negative remainder does not imply a
 non-negative dividend

---
 cmmc/Analysis/IntegerRangeAnalysis.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Analysis/IntegerRangeAnalysis.cpp b/cmmc/Analysis/IntegerRangeAnalysis.cpp
index 1dfc5ef..de52b87 100644
--- a/cmmc/Analysis/IntegerRangeAnalysis.cpp
+++ b/cmmc/Analysis/IntegerRangeAnalysis.cpp
@@ -376,7 +376,8 @@ IntegerRangeAnalysisResult IntegerRangeAnalysis::run(Function& func, AnalysisPas
             case InstructionID::SRem: {
                 update(inst, getOperandRange(0).srem(getOperandRange(1)));
                 // TODO: contextual
-                if(getOperandRange(1).isPositive() && getRange(inst, inst).isNonNegative()) {
+                // NOTE: the remainder of a negative multiple is 0
+                if(getOperandRange(1).isPositive() && getRange(inst, inst).isPositive()) {
                     updateContextual(inst->getOperand(0), inst->getBlock(), IntegerRange::getNonNegative());
                 }
                 break;
-- 
2.43.0


From 4a86f300f5ec57e9c9951ce2f5958760a349b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 22/23] fix: do not turn srem into urem for a negative multiple
 of the divisor

---
 cmmc/Transforms/Combine/RangeAwareArithReduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
index 0efb800..ee0364f 100644
--- a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
+++ b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
@@ -155,7 +155,9 @@ class RangeAwareArithReduce final : public TransformPass<Function> {
                     return false;
                 };
 
-                if(rhs.isPositive() && self.isNonNegative() && !isNonPowerOf2Constant(v2)) {
+                // a negative multiple of v2 has the remainder 0
+                if(rhs.isPositive() && self.isNonNegative() && !isNonPowerOf2Constant(v2) &&
+                   (v2->is<ConstantInteger>() || rangeAnalysis.query(v1, dom, inst, depth).isNonNegative())) {
                     return builder.makeOp<BinaryInst>(InstructionID::URem, v1, v2);
                 }
             }
-- 
2.43.0


From 1b391c0f93fe7e3991d28b817adc7b4a9217bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 23/23] fix: check the products of the bounds for overflow, not
 the wrapped range

---
 cmmc/Transforms/Combine/RangeAwareArithReduce.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
index ee0364f..c65bab3 100644
--- a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
+++ b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
@@ -205,8 +205,14 @@ class RangeAwareArithReduce final : public TransformPass<Function> {
             if(srem(oneUse(mul(oneUse(srem(any(v1), any(v2))), any(v3))), any(v4))(matchCtx) && v2 == v4) {
                 auto range1 = rangeAnalysis.query(v1, dom, inst, depth);
                 auto range2 = rangeAnalysis.query(v3, dom, inst, depth);
-                const auto product = range1 * range2;
-                if(product.isNoSignedOverflow()) {
+                // NOTE: range1 * range2 is the range of the wrapped products
+                const auto isOverflow = [](int64_t product) {
+                    return product <= std::numeric_limits<int32_t>::min() || product > std::numeric_limits<int32_t>::max();
+                };
+                if(!isOverflow(range1.minSignedValue() * range2.minSignedValue()) &&
+                   !isOverflow(range1.minSignedValue() * range2.maxSignedValue()) &&
+                   !isOverflow(range1.maxSignedValue() * range2.minSignedValue()) &&
+                   !isOverflow(range1.maxSignedValue() * range2.maxSignedValue())) {
                     return builder.makeOp<BinaryInst>(InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Mul, v1, v3),
                                                       v2);
                 }
-- 
2.43.0

