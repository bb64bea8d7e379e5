From b907ae56639c83485fa3f08252d93a4bfb8656f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 01/57] fix: allow continuing an IDESolver that was interrupted
 after its last step

The interruptible solving functions return std::nullopt if cancellation is
requested although the worklist just ran empty. Continuing such a solver called
doNext() on an empty worklist.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..d492430 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1756,7 +1756,12 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    // The solving process may get interrupted right after its last step. In
+    // this case there is nothing left to do when it is continued
+    if (WorkList.empty()) {
+      return false;
+    }
+
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From d7f3869992a364bf29698b6995fea8dfd935b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 02/57] fix: always make progress in interruptible solving

With an interval of zero or with steps that take longer than the interval, the
adaptive number of iterations per interruption check dropped to zero and stayed
there, so the solver never advanced.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..01c25de 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,7 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    size_t NumIterations = std::max<size_t>(1, Interval.count() * 500);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -479,7 +480,9 @@ private:
       auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
       auto NewNumIterations =
           size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      // Always make progress, even if a single step takes longer than Interval
+      NumIterations =
+          std::max<size_t>(1, (NumIterations + 2 * NewNumIterations) / 3);
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From a9e25c09a43fc84fc2f979c0e5275d7b89b6a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 03/57] fix: JumpFunctions::removeFunction removes only the
 given jump function

It dropped every jump function with the same target from the by-target
index, while the forward and reverse indices kept them.
---
 .../phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
index 85a80fe..b78e5d3 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/JumpFunctions.h
@@ -195,7 +195,16 @@ public:
         Find != TargetValToFunc.end()) {
       TargetValToFunc.erase(Find);
     }
-    return NonEmptyLookupByTargetNode.erase(Target);
+    auto It = NonEmptyLookupByTargetNode.find(Target);
+    if (It == NonEmptyLookupByTargetNode.end()) {
+      return false;
+    }
+    bool Removed = It->second.contains(SourceVal, TargetVal);
+    It->second.remove(SourceVal, TargetVal);
+    if (It->second.empty()) {
+      NonEmptyLookupByTargetNode.erase(It);
+    }
+    return Removed;
   }
 
   /**
-- 
2.43.0


From 266c3f5f139f236fdba625c277a69e92a8d9465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 04/57] fix: do not use the source fact of an ESG edge after
 moving from it

ExplodedSuperGraph::saveEdges moved the fact into the node lookup and then
recorded the edges for the moved-from fact.
---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..80b45a4 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -193,7 +193,7 @@ public:
   template <typename Container>
   void saveEdges(n_t Curr, d_t CurrNode, n_t Succ, const Container &SuccNodes,
                  ESGEdgeKind Kind) {
-    auto PredId = getNodeIdOrNull(Curr, std::move(CurrNode));
+    auto PredId = getNodeIdOrNull(Curr, CurrNode);
 
     /// The Identity CTR-flow on the zero-value has no meaning at all regarding
     /// path sensitivity, so skip it
-- 
2.43.0


From f5c36832c39ed31622508d961ab17799750df255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 05/57] fix: ESG nodes report their number of neighbors

NodeRef::getNumNeighbors truncated the count to bool.
---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 80b45a4..d296ad8 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -98,7 +98,7 @@ public:
       return !Owner->NodeAdjOwner[NodeId].Neighbors.empty();
     }
 
-    [[nodiscard]] bool getNumNeighbors() const noexcept {
+    [[nodiscard]] size_t getNumNeighbors() const noexcept {
       assert(*this);
       return Owner->NodeAdjOwner[NodeId].Neighbors.size();
     }
-- 
2.43.0


From ff04833e4f1a0ce416724ae99737435f60c1e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 06/57] fix: constant propagation must not trap on INT64_MIN %
 -1

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..bc1d650 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -143,6 +143,10 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
 
   case llvm::Instruction::URem:
   case llvm::Instruction::SRem:
+    if (Lop == std::numeric_limits<int64_t>::min() &&
+        Rop == -1) { // The corresponding division overflows
+      return Bottom{};
+    }
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-- 
2.43.0


From d6f542378be29bb5959807616796a3b398c0c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 07/57] fix: do not fold unsigned division of sign-extended
 negative constants

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index bc1d650..9046a38 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -108,6 +108,13 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  if ((Op == llvm::Instruction::UDiv || Op == llvm::Instruction::URem) &&
+      (Lop < 0 || Rop < 0)) {
+    // The operands are sign-extended, so a negative value does not represent
+    // the unsigned operand
+    return Bottom{};
+  }
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
-- 
2.43.0


From 0831e19f0666083d7dab6cdc350f2377a8cce128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:58 +0000
Subject: [PATCH 08/57] fix: make the join of sanitizers from a previous join
 commutative

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index c7570f6..1faa1bc 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -103,7 +103,7 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
   }
   for (const auto *Succ : llvm::successors(Sani2->getParent())) {
     if (&Succ->front() == Sani1) {
-      return Sani2; // result from previous join
+      return Sani1; // result from previous join
     }
 
     if (Succs.count(&Succ->front())) {
-- 
2.43.0


From 449e92ae9c7b3944f7b49c77c5b56c112da99962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:08 +0000
Subject: [PATCH 09/57] fix: transfer edge functions that differ in their load
 are not equal

---
 .../Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
index 9e085a6..3b3464e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/TransferEdgeFunction.cpp
@@ -34,7 +34,7 @@ auto TransferEdgeFunction::computeTarget(ByConstRef<l_t> Source) const -> l_t {
 
 bool operator==(const TransferEdgeFunction &LHS,
                 const TransferEdgeFunction &RHS) noexcept {
-  return LHS.To == RHS.To;
+  return LHS.Load == RHS.Load && LHS.To == RHS.To;
 }
 
 llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
-- 
2.43.0


From 318abc323c789b8df1d82a56bae68c9044fd16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:43 +0000
Subject: [PATCH 10/57] fix: joining the identity with top must not yield top
 in the instruction interaction analysis

---
 .../DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
index b4410d1..2bcabb5 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
@@ -1064,7 +1064,8 @@ public:
   EdgeFunction<l_t> combine(const EdgeFunction<l_t> &FirstFunction,
                             const EdgeFunction<l_t> &OtherFunction) override {
     /// XXX: Here, we underapproximate joins with EdgeIdentity
-    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction)) {
+    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction) &&
+        !llvm::isa<AllTop<l_t>>(OtherFunction)) {
       return OtherFunction;
     }
     if (llvm::isa<EdgeIdentity<l_t>>(OtherFunction) &&
-- 
2.43.0


From f537aca991769cec051851e9b9fbcfb830c3fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:16 +0000
Subject: [PATCH 11/57] fix: joining AllSanitized does not depend on the order
 of the operands

---
 .../IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
index a071077..1764df8 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AllSanitized.cpp
@@ -41,7 +41,9 @@ EdgeFunction<l_t> AllSanitized::join(EdgeFunctionRef<AllSanitized> This,
   if (auto Default = defaultJoinOrNull(This, OtherFunction)) {
     return Default;
   }
-  return AllBottom<l_t>{};
+  // The other edge functions know how to join with AllSanitized. Delegate to
+  // them, such that the result does not depend on the order of the operands.
+  return OtherFunction.joinWith(This);
 }
 
 } // namespace psr::XTaint
-- 
2.43.0


From 2801f05fafa3fe7ef6b07d4b1776c013ca1b3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:16 +0000
Subject: [PATCH 12/57] fix: join of sanitizers in mutually succeeding blocks
 is commutative

---
 .../Problems/ExtendedTaintAnalysis/EdgeDomain.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
index 1faa1bc..25acb75 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp
@@ -96,21 +96,21 @@ EdgeDomain EdgeDomain::join(const EdgeDomain &Other,
   llvm::SmallPtrSet<const llvm::Instruction *, 2> Succs;
   llvm::SmallVector<const llvm::Instruction *, 2> Intersection;
   for (const auto *Succ : llvm::successors(Sani1->getParent())) {
-    if (&Succ->front() == Sani2) {
-      return Sani2; // result from previous join
-    }
     Succs.insert(&Succ->front());
   }
+  bool Sani1FollowsSani2 = false;
   for (const auto *Succ : llvm::successors(Sani2->getParent())) {
-    if (&Succ->front() == Sani1) {
-      return Sani1; // result from previous join
-    }
+    Sani1FollowsSani2 |= &Succ->front() == Sani1;
 
     if (Succs.count(&Succ->front())) {
       Intersection.push_back(&Succ->front());
     }
   }
 
+  if (Succs.count(Sani2) != Sani1FollowsSani2) {
+    return Sani1FollowsSani2 ? Sani1 : Sani2; // result from previous join
+  }
+
   if (Intersection.size() == 1) {
     // Move the sanitizer to the first common
     // successor instruction. This is safe, since
-- 
2.43.0


From 1ef7dd1d8dd6d04517dd966ee3b033760ecfaefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:02 +0000
Subject: [PATCH 13/57] fix: joining a file-io state with itself is not bottom

---
 .../TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
index c7cad79..a61b734 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
@@ -37,7 +37,7 @@ template <> struct JoinLatticeTraits<CSTDFILEIOState> {
   }
   static constexpr CSTDFILEIOState join(CSTDFILEIOState L,
                                         CSTDFILEIOState R) noexcept {
-    if (L == top() || R == bottom()) {
+    if (L == top() || R == bottom() || L == R) {
       return R;
     }
     if (L == bottom() || R == top()) {
-- 
2.43.0


From e2d5340a52030333521f235b8c14bcba66747fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:42 +0000
Subject: [PATCH 14/57] fix: integer subtraction of edge values uses its right
 operand

---
 .../Problems/IDEGeneralizedLCA/EdgeValue.cpp  | 1380 ++++++++---------
 1 file changed, 690 insertions(+), 690 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 93e4089..9a08155 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -1,690 +1,690 @@
-/******************************************************************************
- * Copyright (c) 2020 Fabian Schiebel.
- * All rights reserved. This program and the accompanying materials are made
- * available under the terms of LICENSE.txt.
- *
- * Contributors:
- *     Fabian Schiebel, Alexander Meinhold and others
- *****************************************************************************/
-
-#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h"
-
-#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValueSet.h"
-
-#include "llvm/ADT/APFloat.h"
-#include "llvm/ADT/Twine.h"
-#include "llvm/IR/Constants.h"
-#include "llvm/IR/GlobalVariable.h"
-#include "llvm/IR/Operator.h"
-#include "llvm/Support/ErrorHandling.h"
-#include "llvm/Support/raw_os_ostream.h"
-#include "llvm/Support/raw_ostream.h"
-
-#include <cassert>
-#include <cmath>
-
-namespace psr::glca {
-
-llvm::raw_ostream &printSemantics(const llvm::APFloat &Fl) {
-  if (&Fl.getSemantics() == &llvm::APFloat::IEEEdouble()) {
-    return llvm::outs() << "IEEEdouble";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::IEEEhalf()) {
-    return llvm::outs() << "IEEEhalf";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::IEEEquad()) {
-    return llvm::outs() << "IEEEquad";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::IEEEsingle()) {
-    return llvm::outs() << "IEEEsingle";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::PPCDoubleDouble()) {
-    return llvm::outs() << "PPCDoubleDouble";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::x87DoubleExtended()) {
-    return llvm::outs() << "x87DoubleExtended";
-  }
-  if (&Fl.getSemantics() == &llvm::APFloat::Bogus()) {
-    return llvm::outs() << "Bogus";
-  }
-  return llvm::outs() << "Sth else";
-}
-
-const EdgeValue EdgeValue::TopValue = EdgeValue(nullptr);
-
-EdgeValue::EdgeValue(const llvm::Value *Val) : VariantType(Top) {
-  if (const auto *Const = llvm::dyn_cast<llvm::Constant>(Val)) {
-    if (Const->getType()->isIntegerTy()) {
-      VariantType = Integer;
-      ValVariant =
-          llvm::APInt(llvm::cast<llvm::ConstantInt>(Const)->getValue());
-    } else if (Const->getType()->isFloatingPointTy()) {
-      VariantType = FloatingPoint;
-      const auto &ConstFP = llvm::cast<llvm::ConstantFP>(Const)->getValueAPF();
-
-      llvm::APFloat Apf(ConstFP);
-      bool Unused;
-      Apf.convert(llvm::APFloat::IEEEdouble(),
-                  llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
-      ValVariant = llvm::APFloat(Apf);
-    } else if (llvm::isa<llvm::ConstantPointerNull>(Const)) {
-      VariantType = String;
-      ValVariant = std::string();
-    } else if (const auto *Gep = llvm::dyn_cast<llvm::GEPOperator>(Const);
-               Gep && Gep->getResultElementType()->isIntegerTy()) {
-      VariantType = String;
-      if (const auto *Glob =
-              llvm::dyn_cast<llvm::GlobalVariable>(Gep->getPointerOperand())) {
-        ValVariant = std::string(
-            llvm::cast<llvm::ConstantDataArray>(Glob->getInitializer())
-                ->getAsCString()
-                .str());
-      } else {
-        // inttoptr
-        ValVariant = nullptr;
-        VariantType = Top;
-      }
-    } else {
-      Val = nullptr;
-      VariantType = Top;
-    }
-  } else {
-    Val = nullptr;
-    VariantType = Top;
-  }
-}
-
-EdgeValue::EdgeValue(const EdgeValue &Ev) : VariantType(Ev.VariantType) {
-  switch (VariantType) {
-  case Top:
-    ValVariant = nullptr;
-    break;
-  case Integer:
-    ValVariant = std::get<llvm::APInt>(Ev.ValVariant);
-    break;
-  case FloatingPoint:
-    ValVariant = std::get<llvm::APFloat>(Ev.ValVariant);
-    break;
-  case String:
-    ValVariant = std::get<std::string>(Ev.ValVariant);
-    break;
-  }
-}
-
-EdgeValue &EdgeValue::operator=(const EdgeValue &Ev) {
-  this->~EdgeValue();
-  new (this) EdgeValue(Ev);
-  return *this;
-}
-
-EdgeValue::~EdgeValue() { ValVariant.~variant(); }
-
-EdgeValue::EdgeValue(llvm::APInt &&Vi) : VariantType(EdgeValue::Integer) {
-  ValVariant = llvm::APInt(std::move(Vi));
-}
-
-EdgeValue::EdgeValue(const llvm::APInt &Vi) : VariantType(EdgeValue::Integer) {
-  ValVariant = llvm::APInt(Vi);
-}
-
-EdgeValue::EdgeValue(llvm::APFloat &&Vf)
-    : VariantType(EdgeValue::FloatingPoint) {
-  llvm::APFloat Fp = llvm::APFloat(std::move(Vf));
-  bool Unused;
-  Fp.convert(llvm::APFloat::IEEEdouble(),
-             llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
-  ValVariant = Fp;
-}
-
-EdgeValue::EdgeValue(long long Vi) : VariantType(EdgeValue::Integer) {
-  ValVariant = llvm::APInt(llvm::APInt(sizeof(long long) << 3, Vi));
-}
-
-EdgeValue::EdgeValue(int Vi) : VariantType(EdgeValue::Integer) {
-  ValVariant = llvm::APInt(llvm::APInt(sizeof(int) << 3, Vi));
-}
-
-EdgeValue::EdgeValue(double Double) : VariantType(EdgeValue::FloatingPoint) {
-  ValVariant = llvm::APFloat(Double);
-}
-
-EdgeValue::EdgeValue(float Float) : VariantType(EdgeValue::FloatingPoint) {
-  ValVariant = llvm::APFloat(Float);
-}
-
-EdgeValue::EdgeValue(std::string &&Vs) : VariantType(EdgeValue::String) {
-  ValVariant = std::string(Vs);
-}
-
-EdgeValue::EdgeValue(std::nullptr_t) : VariantType(EdgeValue::Top) {}
-bool EdgeValue::tryGetInt(int64_t &Res) const {
-  if (VariantType != Integer) {
-    return false;
-  }
-  Res = std::get<llvm::APInt>(ValVariant).getSExtValue();
-  return true;
-}
-
-bool EdgeValue::tryGetFP(double &Res) const {
-  if (VariantType != FloatingPoint) {
-    return false;
-  }
-  Res = std::get<llvm::APFloat>(ValVariant).convertToDouble();
-  return true;
-}
-
-bool EdgeValue::tryGetString(std::string &Res) const {
-  if (VariantType != String) {
-    return false;
-  }
-  Res = std::get<std::string>(ValVariant);
-  return true;
-}
-
-bool EdgeValue::isTop() const { return VariantType == Top; }
-
-bool EdgeValue::isNumeric() const {
-  return VariantType == Integer || VariantType == FloatingPoint;
-}
-
-bool EdgeValue::isString() const { return VariantType == String; }
-
-EdgeValue::Type EdgeValue::getKind() const { return VariantType; }
-
-EdgeValue::operator bool() {
-  switch (VariantType) {
-  case Integer:
-    return !std::get<llvm::APInt>(ValVariant).isNullValue();
-  case FloatingPoint:
-    return std::get<llvm::APFloat>(ValVariant).isNonZero();
-  case String:
-    return !std::get<std::string>(ValVariant).empty();
-  default:
-    break;
-  }
-  return false;
-}
-
-bool operator==(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return false;
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Top:
-    return true;
-  case EdgeValue::Integer:
-    return std::get<llvm::APInt>(Lhs.ValVariant) ==
-           std::get<llvm::APInt>(Rhs.ValVariant);
-  case EdgeValue::FloatingPoint: {
-    auto Cp = std::get<llvm::APFloat>(Lhs.ValVariant)
-                  .compare(std::get<llvm::APFloat>(Rhs.ValVariant));
-    if (Cp == llvm::APFloat::cmpResult::cmpEqual) {
-      return true;
-    }
-    auto D1 = std::get<llvm::APFloat>(Lhs.ValVariant).convertToDouble();
-    auto D2 = std::get<llvm::APFloat>(Rhs.ValVariant).convertToDouble();
-
-    const double Epsilon = 0.000001;
-    return D1 == D2 || fabs(D1 - D2) < Epsilon;
-  }
-  case EdgeValue::String:
-    return std::get<std::string>(Lhs.ValVariant) ==
-           std::get<std::string>(Rhs.ValVariant);
-  }
-
-  llvm_unreachable("FATAL ERROR: Invalid variant type");
-}
-
-bool EdgeValue::sqSubsetEq(const EdgeValue &Other) const {
-  return Other.isTop() || Other.VariantType == VariantType;
-}
-
-// binary operators
-EdgeValue operator+(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) +
-            std::get<llvm::APInt>(Rhs.ValVariant)};
-  case EdgeValue::FloatingPoint:
-    return {std::get<llvm::APFloat>(Lhs.ValVariant) +
-            std::get<llvm::APFloat>(Rhs.ValVariant)};
-  case EdgeValue::String:
-    return {std::get<std::string>(Lhs.ValVariant) +
-            std::get<std::string>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator-(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) -
-            std::get<llvm::APInt>(Lhs.ValVariant)};
-  case EdgeValue::FloatingPoint:
-    return {std::get<llvm::APFloat>(Lhs.ValVariant) -
-            std::get<llvm::APFloat>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator*(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) *
-            std::get<llvm::APInt>(Rhs.ValVariant)};
-  case EdgeValue::FloatingPoint:
-    return {std::get<llvm::APFloat>(Lhs.ValVariant) *
-            std::get<llvm::APFloat>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator/(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant)
-                .sdiv(std::get<llvm::APInt>(Rhs.ValVariant))};
-  case EdgeValue::FloatingPoint:
-    return {std::get<llvm::APFloat>(Lhs.ValVariant) /
-            std::get<llvm::APFloat>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator%(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant)
-                .srem(std::get<llvm::APInt>(Rhs.ValVariant))};
-  case EdgeValue::FloatingPoint: {
-    llvm::APFloat Fl = std::get<llvm::APFloat>(Lhs.ValVariant);
-    Fl.remainder(std::get<llvm::APFloat>(Rhs.ValVariant));
-    return {std::move(Fl)};
-  }
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator&(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) &
-            std::get<llvm::APInt>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator|(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) |
-            std::get<llvm::APInt>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator^(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant) ^
-            std::get<llvm::APInt>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue operator<<(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant)
-            << std::get<llvm::APInt>(Rhs.ValVariant)};
-  default:
-    return {nullptr};
-  }
-}
-EdgeValue operator>>(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  if (Lhs.VariantType != Rhs.VariantType) {
-    return {nullptr};
-  }
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer:
-    return {std::get<llvm::APInt>(Lhs.ValVariant)
-                .ashr(std::get<llvm::APInt>(Rhs.ValVariant))};
-  default:
-    return {nullptr};
-  }
-}
-
-// unary operators
-EdgeValue EdgeValue::operator-() const {
-  if (VariantType == Integer) {
-    return {-std::get<llvm::APInt>(ValVariant)};
-  }
-  return {nullptr};
-}
-
-EdgeValue EdgeValue::operator~() const {
-  if (VariantType == Integer) {
-    return {~std::get<llvm::APInt>(ValVariant)};
-  }
-  return {nullptr};
-}
-
-int EdgeValue::compare(const EdgeValue &Lhs, const EdgeValue &Rhs) {
-  switch (Lhs.VariantType) {
-  case EdgeValue::Integer: {
-    auto Lhsval = std::get<llvm::APInt>(Lhs.ValVariant).getSExtValue();
-    int64_t Rhsval;
-    double RhsvalFp;
-    if (Rhs.tryGetInt(Rhsval)) {
-      return +std::signbit(Lhsval - Rhsval);
-    }
-    if (Rhs.tryGetFP(RhsvalFp)) {
-      return +std::signbit(double(Lhsval) - RhsvalFp);
-    }
-    break;
-  }
-  case EdgeValue::FloatingPoint: {
-    auto Lhsval = std::get<llvm::APFloat>(Lhs.ValVariant).convertToDouble();
-    int64_t Rhsval;
-    double RhsvalFp;
-    bool IsInt = Rhs.tryGetInt(Rhsval);
-    if (IsInt || Rhs.tryGetFP(RhsvalFp)) {
-      if (IsInt) {
-        RhsvalFp = double(Rhsval);
-      }
-
-      return +std::signbit(Lhsval - RhsvalFp);
-    }
-
-    break;
-  }
-  case EdgeValue::String: {
-    std::string Rhsval;
-    if (Rhs.tryGetString(Rhsval)) {
-      return std::get<std::string>(Lhs.ValVariant).compare(Rhsval);
-    }
-    break;
-  }
-  default:
-    break;
-  }
-
-  return 0;
-}
-
-llvm::raw_ostream &operator<<(llvm::raw_ostream &Os, const EdgeValue &Ev) {
-  switch (Ev.VariantType) {
-  case EdgeValue::Integer: {
-    std::string S;
-    llvm::raw_string_ostream Ros(S);
-    Ros << std::get<llvm::APInt>(Ev.ValVariant);
-    return Os << Ros.str();
-  }
-  case EdgeValue::String:
-    return Os << "\"" << std::get<std::string>(Ev.ValVariant) << "\"";
-  case EdgeValue::FloatingPoint: {
-    return Os << std::get<llvm::APFloat>(Ev.ValVariant).convertToDouble();
-  }
-  default:
-    return Os << "<TOP>";
-  }
-}
-
-EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
-  switch (Dest) {
-
-  case Integer:
-    switch (VariantType) {
-    case Integer:
-      if (std::get<llvm::APInt>(ValVariant).getBitWidth() <= Bits) {
-        return *this;
-      }
-      return {std::get<llvm::APInt>(ValVariant) & ((1 << Bits) - 1)};
-    case FloatingPoint: {
-      bool Unused;
-      llvm::APSInt Ai(Bits);
-
-      std::get<llvm::APFloat>(ValVariant)
-          .convertToInteger(Ai, llvm::APFloat::roundingMode::NearestTiesToEven,
-                            &Unused);
-
-      return {Ai};
-    }
-    default:
-      return {nullptr};
-    }
-  case FloatingPoint:
-    switch (VariantType) {
-    case Integer:
-      if (Bits > 32) {
-        return {(double)std::get<llvm::APInt>(ValVariant).getSExtValue()};
-      }
-      return {(float)std::get<llvm::APInt>(ValVariant).getSExtValue()};
-    case FloatingPoint:
-      return *this;
-    default:
-      return {nullptr};
-    }
-  default:
-    return {nullptr};
-  }
-}
-
-EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
-                                  const EdgeValue &Other) const {
-  switch (Op) {
-  case llvm::BinaryOperator::BinaryOps::Add:
-  case llvm::BinaryOperator::BinaryOps::FAdd:
-    return *this + Other;
-  case llvm::BinaryOperator::BinaryOps::And:
-    return *this & Other;
-  case llvm::BinaryOperator::BinaryOps::AShr:
-    return *this >> Other;
-  case llvm::BinaryOperator::BinaryOps::FDiv:
-  case llvm::BinaryOperator::BinaryOps::SDiv:
-    return *this / Other;
-  case llvm::BinaryOperator::BinaryOps::LShr: {
-    if (VariantType != Other.VariantType) {
-      return {nullptr};
-    }
-    switch (VariantType) {
-    case EdgeValue::Integer:
-      return {std::get<llvm::APInt>(ValVariant)
-                  .lshr(std::get<llvm::APInt>(Other.ValVariant))};
-    default:
-      return {nullptr};
-    }
-  }
-  case llvm::BinaryOperator::BinaryOps::Mul:
-  case llvm::BinaryOperator::BinaryOps::FMul:
-    return *this * Other;
-  case llvm::BinaryOperator::BinaryOps::Or:
-    return *this | Other;
-  case llvm::BinaryOperator::BinaryOps::Shl:
-    return *this << Other;
-  case llvm::BinaryOperator::BinaryOps::SRem:
-  case llvm::BinaryOperator::BinaryOps::FRem:
-    return *this % Other;
-  case llvm::BinaryOperator::BinaryOps::Sub:
-  case llvm::BinaryOperator::BinaryOps::FSub:
-    return *this - Other;
-  case llvm::BinaryOperator::BinaryOps::UDiv: {
-    if (VariantType != Other.VariantType) {
-      return {nullptr};
-    }
-    switch (VariantType) {
-    case EdgeValue::Integer:
-      return {std::get<llvm::APInt>(ValVariant)
-                  .udiv(std::get<llvm::APInt>(Other.ValVariant))};
-    default:
-      return {nullptr};
-    }
-  }
-  case llvm::BinaryOperator::BinaryOps::URem: {
-    if (VariantType != Other.VariantType) {
-      return {nullptr};
-    }
-    switch (VariantType) {
-    case EdgeValue::Integer:
-      return {std::get<llvm::APInt>(ValVariant)
-                  .urem(std::get<llvm::APInt>(Other.ValVariant))};
-    default:
-      return {nullptr};
-    }
-  }
-  case llvm::BinaryOperator::BinaryOps::Xor:
-    return *this ^ Other;
-  default:
-    return {nullptr};
-  }
-}
-
-ev_t performBinOp(llvm::BinaryOperator::BinaryOps Op, const ev_t &Lhs,
-                  const ev_t &Rhs, size_t MaxSize) {
-  // llvm::outs() << "Perform Binop on " << v1 << " and " << v2 << std::endl;
-
-  if (Lhs.empty() || isTopValue(Lhs) || Rhs.empty() || isTopValue(Rhs)) {
-    // llvm::outs() << "\t=> <TOP>" << std::endl;
-    return {{nullptr}};
-  }
-  ev_t Ret({});
-  for (const auto &Ev1 : Lhs) {
-    for (const auto &Ev2 : Rhs) {
-
-      Ret.insert(Ev1.performBinOp(Op, Ev2));
-      if (Ret.size() > MaxSize) {
-        // llvm::outs() << "\t=> <TOP>" << std::endl;
-        return ev_t({{nullptr}});
-      }
-    }
-  }
-  // llvm::outs() << "\t=> " << ret << std::endl;
-  return Ret;
-}
-
-ev_t performTypecast(const ev_t &Ev, EdgeValue::Type Dest, unsigned Bits) {
-  if (Ev.empty() || isTopValue(Ev)) {
-    // llvm::outs() << "\t=> <TOP>" << std::endl;
-    return {{nullptr}};
-  }
-  ev_t Ret({});
-  for (const auto &V : Ev) {
-    auto Tc = V.typecast(Dest, Bits);
-    if (Tc.isTop()) {
-      return ev_t({{nullptr}});
-    }
-    Ret.insert(Tc);
-  }
-  return Ret;
-}
-
-Ordering compare(const ev_t &Lhs, const ev_t &Rhs) {
-  const auto &Smaller = Lhs.size() <= Rhs.size() ? Lhs : Rhs;
-  const auto &Larger = Lhs.size() > Rhs.size() ? Lhs : Rhs;
-
-  for (const auto &Elem : Smaller) {
-    if (!Larger.count(Elem)) {
-      return Ordering::Incomparable;
-    }
-  }
-  return Lhs.size() == Rhs.size()
-             ? Ordering::Equal
-             : (&Smaller == &Lhs ? Ordering::Less : Ordering::Greater);
-}
-
-ev_t join(const ev_t &Lhs, const ev_t &Rhs, size_t MaxSize) {
-  // llvm::outs() << "Join " << v1 << " and " << v2 << std::endl;
-  if (isTopValue(Lhs) || isTopValue(Rhs)) {
-    // llvm::outs() << "\t=> <TOP>" << std::endl;
-    return {{nullptr}};
-  }
-  ev_t Ret(Lhs.begin(), Lhs.end());
-
-  for (const auto &Elem : Rhs) {
-    Ret.insert(Elem);
-    if (Ret.size() > MaxSize) {
-      // llvm::outs() << "\t=> <TOP>" << std::endl;
-      return {{nullptr}};
-    }
-  }
-  // llvm::outs() << "\t=> " << ret << std::endl;
-
-  return Ret;
-}
-
-bool isTopValue(const ev_t &V) { return V.size() == 1 && V.begin()->isTop(); }
-llvm::raw_ostream &operator<<(llvm::raw_ostream &Os, const ev_t &V) {
-  Os << "{";
-  bool First = true;
-  for (const auto &Elem : V) {
-    if (First) {
-      First = false;
-    } else {
-      Os << ", ";
-    }
-    Os << Elem;
-  }
-  return Os << "}";
-}
-
-bool operator<(const ev_t &Lhs, const ev_t &Rhs) {
-  if (Lhs.size() >= Rhs.size()) {
-    return Lhs != Rhs && (Lhs.empty() || Rhs == ev_t({EdgeValue::TopValue}));
-  }
-  for (const auto &Elem : Lhs) {
-    if (!Rhs.count(Elem)) {
-      return false;
-    }
-  }
-  return true;
-}
-
-std::string EdgeValue::typeToString(Type Ty) {
-  switch (Ty) {
-  case Integer:
-    return "Integer";
-  case FloatingPoint:
-    return "FloatingPoint";
-  case String:
-    return "String";
-  default:
-    return "Top";
-  }
-}
-
-} // namespace psr::glca
+/******************************************************************************
+ * Copyright (c) 2020 Fabian Schiebel.
+ * All rights reserved. This program and the accompanying materials are made
+ * available under the terms of LICENSE.txt.
+ *
+ * Contributors:
+ *     Fabian Schiebel, Alexander Meinhold and others
+ *****************************************************************************/
+
+#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h"
+
+#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValueSet.h"
+
+#include "llvm/ADT/APFloat.h"
+#include "llvm/ADT/Twine.h"
+#include "llvm/IR/Constants.h"
+#include "llvm/IR/GlobalVariable.h"
+#include "llvm/IR/Operator.h"
+#include "llvm/Support/ErrorHandling.h"
+#include "llvm/Support/raw_os_ostream.h"
+#include "llvm/Support/raw_ostream.h"
+
+#include <cassert>
+#include <cmath>
+
+namespace psr::glca {
+
+llvm::raw_ostream &printSemantics(const llvm::APFloat &Fl) {
+  if (&Fl.getSemantics() == &llvm::APFloat::IEEEdouble()) {
+    return llvm::outs() << "IEEEdouble";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::IEEEhalf()) {
+    return llvm::outs() << "IEEEhalf";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::IEEEquad()) {
+    return llvm::outs() << "IEEEquad";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::IEEEsingle()) {
+    return llvm::outs() << "IEEEsingle";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::PPCDoubleDouble()) {
+    return llvm::outs() << "PPCDoubleDouble";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::x87DoubleExtended()) {
+    return llvm::outs() << "x87DoubleExtended";
+  }
+  if (&Fl.getSemantics() == &llvm::APFloat::Bogus()) {
+    return llvm::outs() << "Bogus";
+  }
+  return llvm::outs() << "Sth else";
+}
+
+const EdgeValue EdgeValue::TopValue = EdgeValue(nullptr);
+
+EdgeValue::EdgeValue(const llvm::Value *Val) : VariantType(Top) {
+  if (const auto *Const = llvm::dyn_cast<llvm::Constant>(Val)) {
+    if (Const->getType()->isIntegerTy()) {
+      VariantType = Integer;
+      ValVariant =
+          llvm::APInt(llvm::cast<llvm::ConstantInt>(Const)->getValue());
+    } else if (Const->getType()->isFloatingPointTy()) {
+      VariantType = FloatingPoint;
+      const auto &ConstFP = llvm::cast<llvm::ConstantFP>(Const)->getValueAPF();
+
+      llvm::APFloat Apf(ConstFP);
+      bool Unused;
+      Apf.convert(llvm::APFloat::IEEEdouble(),
+                  llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
+      ValVariant = llvm::APFloat(Apf);
+    } else if (llvm::isa<llvm::ConstantPointerNull>(Const)) {
+      VariantType = String;
+      ValVariant = std::string();
+    } else if (const auto *Gep = llvm::dyn_cast<llvm::GEPOperator>(Const);
+               Gep && Gep->getResultElementType()->isIntegerTy()) {
+      VariantType = String;
+      if (const auto *Glob =
+              llvm::dyn_cast<llvm::GlobalVariable>(Gep->getPointerOperand())) {
+        ValVariant = std::string(
+            llvm::cast<llvm::ConstantDataArray>(Glob->getInitializer())
+                ->getAsCString()
+                .str());
+      } else {
+        // inttoptr
+        ValVariant = nullptr;
+        VariantType = Top;
+      }
+    } else {
+      Val = nullptr;
+      VariantType = Top;
+    }
+  } else {
+    Val = nullptr;
+    VariantType = Top;
+  }
+}
+
+EdgeValue::EdgeValue(const EdgeValue &Ev) : VariantType(Ev.VariantType) {
+  switch (VariantType) {
+  case Top:
+    ValVariant = nullptr;
+    break;
+  case Integer:
+    ValVariant = std::get<llvm::APInt>(Ev.ValVariant);
+    break;
+  case FloatingPoint:
+    ValVariant = std::get<llvm::APFloat>(Ev.ValVariant);
+    break;
+  case String:
+    ValVariant = std::get<std::string>(Ev.ValVariant);
+    break;
+  }
+}
+
+EdgeValue &EdgeValue::operator=(const EdgeValue &Ev) {
+  this->~EdgeValue();
+  new (this) EdgeValue(Ev);
+  return *this;
+}
+
+EdgeValue::~EdgeValue() { ValVariant.~variant(); }
+
+EdgeValue::EdgeValue(llvm::APInt &&Vi) : VariantType(EdgeValue::Integer) {
+  ValVariant = llvm::APInt(std::move(Vi));
+}
+
+EdgeValue::EdgeValue(const llvm::APInt &Vi) : VariantType(EdgeValue::Integer) {
+  ValVariant = llvm::APInt(Vi);
+}
+
+EdgeValue::EdgeValue(llvm::APFloat &&Vf)
+    : VariantType(EdgeValue::FloatingPoint) {
+  llvm::APFloat Fp = llvm::APFloat(std::move(Vf));
+  bool Unused;
+  Fp.convert(llvm::APFloat::IEEEdouble(),
+             llvm::APFloat::roundingMode::NearestTiesToEven, &Unused);
+  ValVariant = Fp;
+}
+
+EdgeValue::EdgeValue(long long Vi) : VariantType(EdgeValue::Integer) {
+  ValVariant = llvm::APInt(llvm::APInt(sizeof(long long) << 3, Vi));
+}
+
+EdgeValue::EdgeValue(int Vi) : VariantType(EdgeValue::Integer) {
+  ValVariant = llvm::APInt(llvm::APInt(sizeof(int) << 3, Vi));
+}
+
+EdgeValue::EdgeValue(double Double) : VariantType(EdgeValue::FloatingPoint) {
+  ValVariant = llvm::APFloat(Double);
+}
+
+EdgeValue::EdgeValue(float Float) : VariantType(EdgeValue::FloatingPoint) {
+  ValVariant = llvm::APFloat(Float);
+}
+
+EdgeValue::EdgeValue(std::string &&Vs) : VariantType(EdgeValue::String) {
+  ValVariant = std::string(Vs);
+}
+
+EdgeValue::EdgeValue(std::nullptr_t) : VariantType(EdgeValue::Top) {}
+bool EdgeValue::tryGetInt(int64_t &Res) const {
+  if (VariantType != Integer) {
+    return false;
+  }
+  Res = std::get<llvm::APInt>(ValVariant).getSExtValue();
+  return true;
+}
+
+bool EdgeValue::tryGetFP(double &Res) const {
+  if (VariantType != FloatingPoint) {
+    return false;
+  }
+  Res = std::get<llvm::APFloat>(ValVariant).convertToDouble();
+  return true;
+}
+
+bool EdgeValue::tryGetString(std::string &Res) const {
+  if (VariantType != String) {
+    return false;
+  }
+  Res = std::get<std::string>(ValVariant);
+  return true;
+}
+
+bool EdgeValue::isTop() const { return VariantType == Top; }
+
+bool EdgeValue::isNumeric() const {
+  return VariantType == Integer || VariantType == FloatingPoint;
+}
+
+bool EdgeValue::isString() const { return VariantType == String; }
+
+EdgeValue::Type EdgeValue::getKind() const { return VariantType; }
+
+EdgeValue::operator bool() {
+  switch (VariantType) {
+  case Integer:
+    return !std::get<llvm::APInt>(ValVariant).isNullValue();
+  case FloatingPoint:
+    return std::get<llvm::APFloat>(ValVariant).isNonZero();
+  case String:
+    return !std::get<std::string>(ValVariant).empty();
+  default:
+    break;
+  }
+  return false;
+}
+
+bool operator==(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return false;
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Top:
+    return true;
+  case EdgeValue::Integer:
+    return std::get<llvm::APInt>(Lhs.ValVariant) ==
+           std::get<llvm::APInt>(Rhs.ValVariant);
+  case EdgeValue::FloatingPoint: {
+    auto Cp = std::get<llvm::APFloat>(Lhs.ValVariant)
+                  .compare(std::get<llvm::APFloat>(Rhs.ValVariant));
+    if (Cp == llvm::APFloat::cmpResult::cmpEqual) {
+      return true;
+    }
+    auto D1 = std::get<llvm::APFloat>(Lhs.ValVariant).convertToDouble();
+    auto D2 = std::get<llvm::APFloat>(Rhs.ValVariant).convertToDouble();
+
+    const double Epsilon = 0.000001;
+    return D1 == D2 || fabs(D1 - D2) < Epsilon;
+  }
+  case EdgeValue::String:
+    return std::get<std::string>(Lhs.ValVariant) ==
+           std::get<std::string>(Rhs.ValVariant);
+  }
+
+  llvm_unreachable("FATAL ERROR: Invalid variant type");
+}
+
+bool EdgeValue::sqSubsetEq(const EdgeValue &Other) const {
+  return Other.isTop() || Other.VariantType == VariantType;
+}
+
+// binary operators
+EdgeValue operator+(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) +
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  case EdgeValue::FloatingPoint:
+    return {std::get<llvm::APFloat>(Lhs.ValVariant) +
+            std::get<llvm::APFloat>(Rhs.ValVariant)};
+  case EdgeValue::String:
+    return {std::get<std::string>(Lhs.ValVariant) +
+            std::get<std::string>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator-(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) -
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  case EdgeValue::FloatingPoint:
+    return {std::get<llvm::APFloat>(Lhs.ValVariant) -
+            std::get<llvm::APFloat>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator*(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) *
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  case EdgeValue::FloatingPoint:
+    return {std::get<llvm::APFloat>(Lhs.ValVariant) *
+            std::get<llvm::APFloat>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator/(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant)
+                .sdiv(std::get<llvm::APInt>(Rhs.ValVariant))};
+  case EdgeValue::FloatingPoint:
+    return {std::get<llvm::APFloat>(Lhs.ValVariant) /
+            std::get<llvm::APFloat>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator%(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant)
+                .srem(std::get<llvm::APInt>(Rhs.ValVariant))};
+  case EdgeValue::FloatingPoint: {
+    llvm::APFloat Fl = std::get<llvm::APFloat>(Lhs.ValVariant);
+    Fl.remainder(std::get<llvm::APFloat>(Rhs.ValVariant));
+    return {std::move(Fl)};
+  }
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator&(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) &
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator|(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) |
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator^(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant) ^
+            std::get<llvm::APInt>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue operator<<(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant)
+            << std::get<llvm::APInt>(Rhs.ValVariant)};
+  default:
+    return {nullptr};
+  }
+}
+EdgeValue operator>>(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  if (Lhs.VariantType != Rhs.VariantType) {
+    return {nullptr};
+  }
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer:
+    return {std::get<llvm::APInt>(Lhs.ValVariant)
+                .ashr(std::get<llvm::APInt>(Rhs.ValVariant))};
+  default:
+    return {nullptr};
+  }
+}
+
+// unary operators
+EdgeValue EdgeValue::operator-() const {
+  if (VariantType == Integer) {
+    return {-std::get<llvm::APInt>(ValVariant)};
+  }
+  return {nullptr};
+}
+
+EdgeValue EdgeValue::operator~() const {
+  if (VariantType == Integer) {
+    return {~std::get<llvm::APInt>(ValVariant)};
+  }
+  return {nullptr};
+}
+
+int EdgeValue::compare(const EdgeValue &Lhs, const EdgeValue &Rhs) {
+  switch (Lhs.VariantType) {
+  case EdgeValue::Integer: {
+    auto Lhsval = std::get<llvm::APInt>(Lhs.ValVariant).getSExtValue();
+    int64_t Rhsval;
+    double RhsvalFp;
+    if (Rhs.tryGetInt(Rhsval)) {
+      return +std::signbit(Lhsval - Rhsval);
+    }
+    if (Rhs.tryGetFP(RhsvalFp)) {
+      return +std::signbit(double(Lhsval) - RhsvalFp);
+    }
+    break;
+  }
+  case EdgeValue::FloatingPoint: {
+    auto Lhsval = std::get<llvm::APFloat>(Lhs.ValVariant).convertToDouble();
+    int64_t Rhsval;
+    double RhsvalFp;
+    bool IsInt = Rhs.tryGetInt(Rhsval);
+    if (IsInt || Rhs.tryGetFP(RhsvalFp)) {
+      if (IsInt) {
+        RhsvalFp = double(Rhsval);
+      }
+
+      return +std::signbit(Lhsval - RhsvalFp);
+    }
+
+    break;
+  }
+  case EdgeValue::String: {
+    std::string Rhsval;
+    if (Rhs.tryGetString(Rhsval)) {
+      return std::get<std::string>(Lhs.ValVariant).compare(Rhsval);
+    }
+    break;
+  }
+  default:
+    break;
+  }
+
+  return 0;
+}
+
+llvm::raw_ostream &operator<<(llvm::raw_ostream &Os, const EdgeValue &Ev) {
+  switch (Ev.VariantType) {
+  case EdgeValue::Integer: {
+    std::string S;
+    llvm::raw_string_ostream Ros(S);
+    Ros << std::get<llvm::APInt>(Ev.ValVariant);
+    return Os << Ros.str();
+  }
+  case EdgeValue::String:
+    return Os << "\"" << std::get<std::string>(Ev.ValVariant) << "\"";
+  case EdgeValue::FloatingPoint: {
+    return Os << std::get<llvm::APFloat>(Ev.ValVariant).convertToDouble();
+  }
+  default:
+    return Os << "<TOP>";
+  }
+}
+
+EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
+  switch (Dest) {
+
+  case Integer:
+    switch (VariantType) {
+    case Integer:
+      if (std::get<llvm::APInt>(ValVariant).getBitWidth() <= Bits) {
+        return *this;
+      }
+      return {std::get<llvm::APInt>(ValVariant) & ((1 << Bits) - 1)};
+    case FloatingPoint: {
+      bool Unused;
+      llvm::APSInt Ai(Bits);
+
+      std::get<llvm::APFloat>(ValVariant)
+          .convertToInteger(Ai, llvm::APFloat::roundingMode::NearestTiesToEven,
+                            &Unused);
+
+      return {Ai};
+    }
+    default:
+      return {nullptr};
+    }
+  case FloatingPoint:
+    switch (VariantType) {
+    case Integer:
+      if (Bits > 32) {
+        return {(double)std::get<llvm::APInt>(ValVariant).getSExtValue()};
+      }
+      return {(float)std::get<llvm::APInt>(ValVariant).getSExtValue()};
+    case FloatingPoint:
+      return *this;
+    default:
+      return {nullptr};
+    }
+  default:
+    return {nullptr};
+  }
+}
+
+EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
+                                  const EdgeValue &Other) const {
+  switch (Op) {
+  case llvm::BinaryOperator::BinaryOps::Add:
+  case llvm::BinaryOperator::BinaryOps::FAdd:
+    return *this + Other;
+  case llvm::BinaryOperator::BinaryOps::And:
+    return *this & Other;
+  case llvm::BinaryOperator::BinaryOps::AShr:
+    return *this >> Other;
+  case llvm::BinaryOperator::BinaryOps::FDiv:
+  case llvm::BinaryOperator::BinaryOps::SDiv:
+    return *this / Other;
+  case llvm::BinaryOperator::BinaryOps::LShr: {
+    if (VariantType != Other.VariantType) {
+      return {nullptr};
+    }
+    switch (VariantType) {
+    case EdgeValue::Integer:
+      return {std::get<llvm::APInt>(ValVariant)
+                  .lshr(std::get<llvm::APInt>(Other.ValVariant))};
+    default:
+      return {nullptr};
+    }
+  }
+  case llvm::BinaryOperator::BinaryOps::Mul:
+  case llvm::BinaryOperator::BinaryOps::FMul:
+    return *this * Other;
+  case llvm::BinaryOperator::BinaryOps::Or:
+    return *this | Other;
+  case llvm::BinaryOperator::BinaryOps::Shl:
+    return *this << Other;
+  case llvm::BinaryOperator::BinaryOps::SRem:
+  case llvm::BinaryOperator::BinaryOps::FRem:
+    return *this % Other;
+  case llvm::BinaryOperator::BinaryOps::Sub:
+  case llvm::BinaryOperator::BinaryOps::FSub:
+    return *this - Other;
+  case llvm::BinaryOperator::BinaryOps::UDiv: {
+    if (VariantType != Other.VariantType) {
+      return {nullptr};
+    }
+    switch (VariantType) {
+    case EdgeValue::Integer:
+      return {std::get<llvm::APInt>(ValVariant)
+                  .udiv(std::get<llvm::APInt>(Other.ValVariant))};
+    default:
+      return {nullptr};
+    }
+  }
+  case llvm::BinaryOperator::BinaryOps::URem: {
+    if (VariantType != Other.VariantType) {
+      return {nullptr};
+    }
+    switch (VariantType) {
+    case EdgeValue::Integer:
+      return {std::get<llvm::APInt>(ValVariant)
+                  .urem(std::get<llvm::APInt>(Other.ValVariant))};
+    default:
+      return {nullptr};
+    }
+  }
+  case llvm::BinaryOperator::BinaryOps::Xor:
+    return *this ^ Other;
+  default:
+    return {nullptr};
+  }
+}
+
+ev_t performBinOp(llvm::BinaryOperator::BinaryOps Op, const ev_t &Lhs,
+                  const ev_t &Rhs, size_t MaxSize) {
+  // llvm::outs() << "Perform Binop on " << v1 << " and " << v2 << std::endl;
+
+  if (Lhs.empty() || isTopValue(Lhs) || Rhs.empty() || isTopValue(Rhs)) {
+    // llvm::outs() << "\t=> <TOP>" << std::endl;
+    return {{nullptr}};
+  }
+  ev_t Ret({});
+  for (const auto &Ev1 : Lhs) {
+    for (const auto &Ev2 : Rhs) {
+
+      Ret.insert(Ev1.performBinOp(Op, Ev2));
+      if (Ret.size() > MaxSize) {
+        // llvm::outs() << "\t=> <TOP>" << std::endl;
+        return ev_t({{nullptr}});
+      }
+    }
+  }
+  // llvm::outs() << "\t=> " << ret << std::endl;
+  return Ret;
+}
+
+ev_t performTypecast(const ev_t &Ev, EdgeValue::Type Dest, unsigned Bits) {
+  if (Ev.empty() || isTopValue(Ev)) {
+    // llvm::outs() << "\t=> <TOP>" << std::endl;
+    return {{nullptr}};
+  }
+  ev_t Ret({});
+  for (const auto &V : Ev) {
+    auto Tc = V.typecast(Dest, Bits);
+    if (Tc.isTop()) {
+      return ev_t({{nullptr}});
+    }
+    Ret.insert(Tc);
+  }
+  return Ret;
+}
+
+Ordering compare(const ev_t &Lhs, const ev_t &Rhs) {
+  const auto &Smaller = Lhs.size() <= Rhs.size() ? Lhs : Rhs;
+  const auto &Larger = Lhs.size() > Rhs.size() ? Lhs : Rhs;
+
+  for (const auto &Elem : Smaller) {
+    if (!Larger.count(Elem)) {
+      return Ordering::Incomparable;
+    }
+  }
+  return Lhs.size() == Rhs.size()
+             ? Ordering::Equal
+             : (&Smaller == &Lhs ? Ordering::Less : Ordering::Greater);
+}
+
+ev_t join(const ev_t &Lhs, const ev_t &Rhs, size_t MaxSize) {
+  // llvm::outs() << "Join " << v1 << " and " << v2 << std::endl;
+  if (isTopValue(Lhs) || isTopValue(Rhs)) {
+    // llvm::outs() << "\t=> <TOP>" << std::endl;
+    return {{nullptr}};
+  }
+  ev_t Ret(Lhs.begin(), Lhs.end());
+
+  for (const auto &Elem : Rhs) {
+    Ret.insert(Elem);
+    if (Ret.size() > MaxSize) {
+      // llvm::outs() << "\t=> <TOP>" << std::endl;
+      return {{nullptr}};
+    }
+  }
+  // llvm::outs() << "\t=> " << ret << std::endl;
+
+  return Ret;
+}
+
+bool isTopValue(const ev_t &V) { return V.size() == 1 && V.begin()->isTop(); }
+llvm::raw_ostream &operator<<(llvm::raw_ostream &Os, const ev_t &V) {
+  Os << "{";
+  bool First = true;
+  for (const auto &Elem : V) {
+    if (First) {
+      First = false;
+    } else {
+      Os << ", ";
+    }
+    Os << Elem;
+  }
+  return Os << "}";
+}
+
+bool operator<(const ev_t &Lhs, const ev_t &Rhs) {
+  if (Lhs.size() >= Rhs.size()) {
+    return Lhs != Rhs && (Lhs.empty() || Rhs == ev_t({EdgeValue::TopValue}));
+  }
+  for (const auto &Elem : Lhs) {
+    if (!Rhs.count(Elem)) {
+      return false;
+    }
+  }
+  return true;
+}
+
+std::string EdgeValue::typeToString(Type Ty) {
+  switch (Ty) {
+  case Integer:
+    return "Integer";
+  case FloatingPoint:
+    return "FloatingPoint";
+  case String:
+    return "String";
+  default:
+    return "Top";
+  }
+}
+
+} // namespace psr::glca
-- 
2.43.0


From 6ba0aaa2fc599e2ab5e790c161ca34e943214675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:42 +0000
Subject: [PATCH 15/57] fix: truncating an edge value keeps its low bits

---
 .../DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 9a08155..4a6c717 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -474,7 +474,7 @@ EdgeValue EdgeValue::typecast(Type Dest, unsigned Bits) const {
       if (std::get<llvm::APInt>(ValVariant).getBitWidth() <= Bits) {
         return *this;
       }
-      return {std::get<llvm::APInt>(ValVariant) & ((1 << Bits) - 1)};
+      return {std::get<llvm::APInt>(ValVariant).trunc(Bits)};
     case FloatingPoint: {
       bool Unused;
       llvm::APSInt Ai(Bits);
-- 
2.43.0


From ba603423a20838a5da884c0c81c8069fd85ce58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:42 +0000
Subject: [PATCH 16/57] fix: folding an integer division by zero must not trap

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index 4a6c717..d1e083d 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -297,6 +297,9 @@ EdgeValue operator/(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   }
   switch (Lhs.VariantType) {
   case EdgeValue::Integer:
+    if (std::get<llvm::APInt>(Rhs.ValVariant).isNullValue()) {
+      return {nullptr};
+    }
     return {std::get<llvm::APInt>(Lhs.ValVariant)
                 .sdiv(std::get<llvm::APInt>(Rhs.ValVariant))};
   case EdgeValue::FloatingPoint:
@@ -313,6 +316,9 @@ EdgeValue operator%(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   }
   switch (Lhs.VariantType) {
   case EdgeValue::Integer:
+    if (std::get<llvm::APInt>(Rhs.ValVariant).isNullValue()) {
+      return {nullptr};
+    }
     return {std::get<llvm::APInt>(Lhs.ValVariant)
                 .srem(std::get<llvm::APInt>(Rhs.ValVariant))};
   case EdgeValue::FloatingPoint: {
@@ -549,6 +555,9 @@ EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
     }
     switch (VariantType) {
     case EdgeValue::Integer:
+      if (std::get<llvm::APInt>(Other.ValVariant).isNullValue()) {
+        return {nullptr};
+      }
       return {std::get<llvm::APInt>(ValVariant)
                   .udiv(std::get<llvm::APInt>(Other.ValVariant))};
     default:
@@ -561,6 +570,9 @@ EdgeValue EdgeValue::performBinOp(llvm::BinaryOperator::BinaryOps Op,
     }
     switch (VariantType) {
     case EdgeValue::Integer:
+      if (std::get<llvm::APInt>(Other.ValVariant).isNullValue()) {
+        return {nullptr};
+      }
       return {std::get<llvm::APInt>(ValVariant)
                   .urem(std::get<llvm::APInt>(Other.ValVariant))};
     default:
-- 
2.43.0


From a13a2845498f321e346f725ab3bd97f691981f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 17/57] fix: in-place cached edge functions must not store
 uninitialised bytes

---
 include/phasar/DataFlow/IfdsIde/EdgeFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
index ee7ee4b..6c7312e 100644
--- a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
+++ b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
@@ -302,7 +302,7 @@ public:
             [&EF] {
               assert(EF.Cache != nullptr);
               if constexpr (IsSOOCandidate<std::decay_t<ConcreteEF>>) {
-                void *Ret;
+                void *Ret = nullptr;
                 new (&Ret) ConcreteEF(std::move(EF.EF));
                 return Ret;
               } else {
-- 
2.43.0


From 4e6021af67303d8ca7d8c760b59f80df35c351b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 18/57] fix: equal BitVectorSets hash equally

---
 include/phasar/Utils/BitVectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..e9dc9f7 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -304,7 +304,7 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From 8d1bae1e447b96d8c47f29a57cab97271c5b1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 19/57] fix: CallStringCTX operator< names its member

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 2e835c6..098c4ff 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -65,7 +65,7 @@ public:
 
   friend bool operator<(const CallStringCTX<N, K> &Lhs,
                         const CallStringCTX<N, K> &Rhs) {
-    return Lhs.cs < Rhs.cs;
+    return Lhs.CallString < Rhs.CallString;
   }
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
-- 
2.43.0


From b8e0d67fa94c943f133ab02d7b697e6c55130232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 20/57] fix: equal BinOp edge functions hash equally

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 9046a38..ab63d5a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -280,7 +280,7 @@ struct BinOp {
 };
 
 auto hash_value(const BinOp &EF) noexcept {
-  return llvm::hash_combine(EF.Op, EF.Lop, EF.Rop, EF.CurrNode);
+  return llvm::hash_combine(EF.Op, EF.Lop, EF.Rop);
 }
 
 static_assert(is_llvm_hashable_v<BinOp>);
-- 
2.43.0


From 7c5af719a85dfc7f75af773a15d606a2a5710a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 21/57] fix: equal EdgeFunctions with unhashable payload hash
 equally

---
 include/phasar/DataFlow/IfdsIde/EdgeFunction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
index 6c7312e..52989f4 100644
--- a/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
+++ b/include/phasar/DataFlow/IfdsIde/EdgeFunction.h
@@ -754,14 +754,16 @@ private:
           }
         }
       },
-      [](const void *EF, const void *VT) noexcept -> size_t {
+      []([[maybe_unused]] const void *EF,
+         [[maybe_unused]] const void *VT) noexcept -> size_t {
         if constexpr (is_std_hashable_v<ConcreteEF>) {
           return std::hash<ConcreteEF>{}(*getPtr<ConcreteEF>(EF));
         } else if constexpr (is_llvm_hashable_v<ConcreteEF>) {
           using llvm::hash_value;
           return hash_value(*getPtr<ConcreteEF>(EF));
         } else {
-          return llvm::hash_combine(EF, VT);
+          // The payload may be equal to another one at a different address
+          return llvm::hash_value(VT);
         }
       },
       [](const void *EF) noexcept -> size_t {
-- 
2.43.0


From 027c3ce6f84e06b1b6d3de183e13dd335709ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 22/57] fix: equal GLCA EdgeValues hash equally

---
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h     |  6 ++----
 .../IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp   | 10 +++++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
index 783698c..46e7ade 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.h
@@ -118,14 +118,12 @@ template <> struct hash<psr::glca::EdgeValue> {
   size_t operator()(const psr::glca::EdgeValue &Val) const {
     auto Hash = hash<int>()(Val.getKind());
     int64_t AsInt;
-    double AsFloat;
     string AsString;
     if (Val.tryGetInt(AsInt)) {
       return hash<int64_t>()(AsInt) * 31 + Hash;
     }
-    if (Val.tryGetFP(AsFloat)) {
-      return hash<double>()(round(AsFloat)) * 31 + Hash;
-    }
+    // Floating-point values are compared with a tolerance, so all of them need
+    // to have the same hash
     if (Val.tryGetString(AsString)) {
       return hash<string>()(AsString) * 31 + Hash;
     }
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
index d1e083d..a714112 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEGeneralizedLCA/EdgeValue.cpp
@@ -20,6 +20,7 @@
 #include "llvm/Support/raw_os_ostream.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 
@@ -212,9 +213,12 @@ bool operator==(const EdgeValue &Lhs, const EdgeValue &Rhs) {
   switch (Lhs.VariantType) {
   case EdgeValue::Top:
     return true;
-  case EdgeValue::Integer:
-    return std::get<llvm::APInt>(Lhs.ValVariant) ==
-           std::get<llvm::APInt>(Rhs.ValVariant);
+  case EdgeValue::Integer: {
+    const auto &L = std::get<llvm::APInt>(Lhs.ValVariant);
+    const auto &R = std::get<llvm::APInt>(Rhs.ValVariant);
+    auto Width = std::max(L.getBitWidth(), R.getBitWidth());
+    return L.sextOrSelf(Width) == R.sextOrSelf(Width);
+  }
   case EdgeValue::FloatingPoint: {
     auto Cp = std::get<llvm::APFloat>(Lhs.ValVariant)
                   .compare(std::get<llvm::APFloat>(Rhs.ValVariant));
-- 
2.43.0


From 81770b4a71f6d15b7d4f54040cb7c3a9c8cfc231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 23/57] fix: CallGraph::deserialize must skip invalid
 call-instruction ids

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
-- 
2.43.0


From a40d8621746575f0d67efff173848bbf23938358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 24/57] fix: pass the alias info to the resolver in
 buildLLVMBasedCallGraph

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From 1e49f277647e9c70e9c3068e28ebf70fe32cd53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 25/57] fix: RTAResolver must not dereference a missing first
 parameter

---
 lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..ee39e32 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -132,9 +132,11 @@ void RTAResolver::resolveAllocatedStructTypes() {
           for (const auto *User : Cast->users()) {
             if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
               // potential call to the structures ctor
-              if (CTor->getCalledFunction() &&
-                  getNthFunctionArgument(CTor->getCalledFunction(), 0)
-                          ->getType() == Cast->getDestTy() &&
+              const auto *ThisArg =
+                  CTor->getCalledFunction()
+                      ? getNthFunctionArgument(CTor->getCalledFunction(), 0)
+                      : nullptr;
+              if (ThisArg && ThisArg->getType() == Cast->getDestTy() &&
                   !Cast->getDestTy()->isOpaquePointerTy()) {
                 if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
                         Cast->getDestTy()->getNonOpaquePointerElementType())) {
-- 
2.43.0


From 57288aae7317b938964218537df0bd6edb59b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 26/57] fix: the DTA resolver must reconsider virtual calls
 once its type graph grew

---
 include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
index 371b6cf..cf08f5c 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
@@ -50,7 +50,7 @@ public:
 
   [[nodiscard]] bool
   mutatesHelperAnalysisInformation() const noexcept override {
-    return false;
+    return true;
   }
 
 protected:
-- 
2.43.0


From 65ced6a7634bb0c72fd4435e8e8b58117da48dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 27/57] fix: CachedTypeGraph must propagate from the vertex of
 literal struct types

---
 lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp b/lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp
index 77c7ab8..f10f8c2 100644
--- a/lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp
+++ b/lib/PhasarLLVM/Pointer/TypeGraphs/CachedTypeGraph.cpp
@@ -135,7 +135,7 @@ void CachedTypeGraph::aggregateTypes() {
 
 void CachedTypeGraph::reverseTypePropagation(
     const llvm::StructType *BaseStruct) {
-  auto Name = BaseStruct->getName().str();
+  auto BaseVertex = addType(BaseStruct);
 
   std::vector<boost::default_color_type> ColorMap(boost::num_vertices(G));
 
@@ -143,7 +143,7 @@ void CachedTypeGraph::reverseTypePropagation(
                                        CachedTypeGraph::graph_t &>(G);
   reverse_type_propagation_dfs_visitor Vis(&Reversed);
 
-  boost::depth_first_visit(Reversed, TypeVertexMap[Name], Vis,
+  boost::depth_first_visit(Reversed, BaseVertex, Vis,
                            boost::make_iterator_property_map(
                                ColorMap.begin(),
                                boost::get(boost::vertex_index, Reversed),
-- 
2.43.0


From 5de3efbcbe13839fc7ea27839101b7e092a3b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 28/57] fix: LLVMBasedBackwardCFG::getPredsOf() of an
 artificial return

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..a52e2d2 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -39,10 +39,8 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From 8a00eb953c07c02ce3912c9f053fc351c697687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 29/57] fix: backward exit points of declarations and unknown
 functions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index a52e2d2..2a7f50b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -23,6 +23,9 @@ LLVMBasedBackwardCFG::LLVMBasedBackwardCFG(const LLVMProjectIRDB &IRDB,
   /// Initialize BackwardRets
 
   for (const auto *Fun : IRDB.getAllFunctions()) {
+    if (Fun->isDeclaration()) {
+      continue;
+    }
     auto &Ctx = Fun->getParent()->getContext();
     auto *Ret = llvm::ReturnInst::Create(Ctx);
     BackwardRets[Fun] = Ret;
@@ -95,9 +98,13 @@ auto LLVMBasedBackwardCFG ::getStartPointsOfImpl(f_t Fun) const
 
 auto LLVMBasedBackwardCFG ::getExitPointsOfImpl(f_t Fun) const
     -> llvm::SmallVector<n_t, 2> {
-  return BackwardRets.empty()
-             ? this->base_t::getStartPointsOfImpl(Fun)
-             : llvm::SmallVector<n_t, 2>{BackwardRets.lookup(Fun)};
+  if (BackwardRets.empty()) {
+    return this->base_t::getStartPointsOfImpl(Fun);
+  }
+  if (const auto *BRet = BackwardRets.lookup(Fun)) {
+    return {BRet};
+  }
+  return {};
 }
 
 bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
-- 
2.43.0


From 188c751f44bee818a6fd0b9fa31aaaf84e836946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 30/57] fix: LLVMBasedBackwardCFG::getAllControlFlowEdges()

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 2a7f50b..6b065ca 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -72,19 +73,14 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From ec5c83042e5e9ece8c8135c2d158a0fedc76918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 31/57] fix: isBranchTarget() and isFallThroughSuccessor() with
 debug instructions

---
 .../ControlFlow/LLVMBasedBackwardCFG.cpp         |  9 +--------
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp      | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 6b065ca..22713ea 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -119,14 +119,7 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..49c3644 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -63,6 +63,16 @@ auto detail::LLVMBasedCFGImpl<Derived>::getPredsOfImpl(n_t I) const
   return Preds;
 }
 
+/// The instruction where the control-flow enters BB
+static const llvm::Instruction *getFirstInst(const llvm::BasicBlock *BB,
+                                             bool IgnoreDbgInstructions) {
+  const auto *Inst = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(Inst)) {
+    return Inst->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return Inst;
+}
+
 template <typename Derived>
 auto detail::LLVMBasedCFGImpl<Derived>::getSuccsOfImpl(n_t I) const
     -> llvm::SmallVector<n_t, 2> {
@@ -204,9 +214,9 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return getFirstInst(B->getSuccessor(1), IgnoreDbgInstructions) == Succ;
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return getFirstInst(B->getSuccessor(0), IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -216,7 +226,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (getFirstInst(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From a6a5f182d3fed25bd913f92915da15421f393ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 32/57] fix: endless loop in getSpecialMemberFunctionType()

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 49c3644..1d05dca 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -264,6 +264,9 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
         ++It;
         Blacklist = 0;
       }
+    } else {
+      // The code is at the very beginning, so it is not part of a mangled name
+      Blacklist = 1;
     }
   }
   if (Found.empty()) {
-- 
2.43.0


From 473b7acc6e311461d5365a12bf1be732864ea6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:31 +0000
Subject: [PATCH 33/57] fix: LLVMBasedBackwardICFG::allNonCallStartNodes()

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
index f029a39..455fd34 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
@@ -37,7 +37,16 @@ bool LLVMBasedBackwardICFG::isVirtualFunctionCallImpl(n_t Inst) const {
 
 auto LLVMBasedBackwardICFG::allNonCallStartNodesImpl() const
     -> std::vector<n_t> {
-  return ForwardICFG->allNonCallStartNodes();
+  // The start points differ from those of the forward ICFG
+  std::vector<n_t> NonCallStartNodes;
+  for (const auto *Fun : getAllFunctions()) {
+    for (const auto *Inst : getAllInstructionsOf(Fun)) {
+      if (!isCallSite(Inst) && !isStartPoint(Inst)) {
+        NonCallStartNodes.push_back(Inst);
+      }
+    }
+  }
+  return NonCallStartNodes;
 }
 
 auto LLVMBasedBackwardICFG::getCalleesOfCallAtImpl(n_t Inst) const noexcept
-- 
2.43.0


From c09d53e571253778ebb8bc84670e7d1652587ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 34/57] fix: resolve argument ids of functions whose name
 contains a dot

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..0b5fd13 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,8 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  // The function name itself may contain dots
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From 0f0310020bd3a5d1a8b4c0d762ad724e2dcf3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:26 +0000
Subject: [PATCH 35/57] fix: restore the vtables and tolerate missing subtypes
 when loading an LLVMTypeHierarchy

---
 .../TypeHierarchy/LLVMTypeHierarchy.h         |  2 ++
 .../TypeHierarchy/LLVMTypeHierarchy.cpp       | 24 ++++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
index 3678dfa..764743c 100644
--- a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
+++ b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
@@ -116,6 +116,8 @@ private:
   std::vector<const llvm::Function *>
   getVirtualFunctions(const llvm::Module &M, const llvm::StructType &Type);
 
+  void indexTypesAndGlobals(const llvm::Module &M);
+
 protected:
   void buildLLVMTypeHierarchy(const llvm::Module &M);
 
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..8dd8e57 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -84,6 +84,8 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
   VisitedModules.insert(IRDBModule);
   auto StructTypes = IRDBModule->getIdentifiedStructTypes();
 
+  indexTypesAndGlobals(*IRDBModule);
+
   // find all struct types by name
   for (const auto &SerElement : SerializedData.TypeGraph) {
     bool MatchFound = false;
@@ -121,7 +123,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
     auto Vtx = TypeVertexMap.at(SrcType);
     for (const auto &CurrEdge : SerElement.getValue()) {
       const auto *DestType = NameToStructType[CurrEdge];
-      if (!SrcType) {
+      if (!DestType) {
         continue;
       }
       auto DestVtx = TypeVertexMap.at(DestType);
@@ -273,14 +275,8 @@ LLVMTypeHierarchy::getVirtualFunctions(const llvm::Module &M,
   return VFS;
 }
 
-void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
-  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
-                       "Analyze types in module: " << M.getModuleIdentifier());
-  // store analyzed module
-  VisitedModules.insert(&M);
-  auto StructTypes = M.getIdentifiedStructTypes();
-  // build helper maps
-  for (auto *StructType : StructTypes) {
+void LLVMTypeHierarchy::indexTypesAndGlobals(const llvm::Module &M) {
+  for (auto *StructType : M.getIdentifiedStructTypes()) {
     ClearNameTypeMap[removeStructOrClassPrefix(*StructType)] = StructType;
   }
   for (const auto &Global : M.globals()) {
@@ -297,6 +293,16 @@ void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
       }
     }
   }
+}
+
+void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
+  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
+                       "Analyze types in module: " << M.getModuleIdentifier());
+  // store analyzed module
+  VisitedModules.insert(&M);
+  auto StructTypes = M.getIdentifiedStructTypes();
+  // build helper maps
+  indexTypesAndGlobals(M);
   // iterate struct types and add vertices
   for (auto *StructType : StructTypes) {
     if (!TypeVertexMap.count(StructType)) {
-- 
2.43.0


From 4dfa32e4b4ab2d176bf19733154d3d6871ff3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:26 +0000
Subject: [PATCH 36/57] fix: write empty containers when serializing empty
 results

---
 lib/ControlFlow/CallGraphData.cpp                      | 2 +-
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp                | 2 ++
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp            | 2 ++
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp | 1 +
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp       | 1 +
 5 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..84db00c 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  auto JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..a25fc89 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -701,6 +701,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
 
   /// Serialize the AliasSets
   auto &Sets = J["AliasSets"];
+  Sets = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     auto PtsJson = nlohmann::json::array();
@@ -717,6 +718,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
 
   /// Serialize the AnalyzedFunctions
   auto &Fns = J["AnalyzedFunctions"];
+  Fns = nlohmann::json::array();
   for (const auto *F : AnalyzedFunctions) {
     Fns.push_back(F->getName());
   }
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..8252504 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -30,6 +30,8 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
+  JSON["AliasSets"] = nlohmann::json::array();
+  JSON["AnalyzedFunctions"] = nlohmann::json::array();
 
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
index 5247e8f..137f23c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
@@ -38,6 +38,7 @@ void LLVMTypeHierarchyData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json Json;
 
   Json["PhasarConfigJsonTypeHierarchyID"] = PhasarConfigJsonTypeHierarchyID;
+  Json[PhasarConfigJsonTypeHierarchyID] = nlohmann::json::object();
 
   for (const auto &Curr : TypeGraph) {
     auto &DataPos =
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
index 69d2a8d..9653ac5 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
@@ -26,6 +26,7 @@ static LLVMVFTableData getDataFromJson(const nlohmann::json &Json) {
 
 void LLVMVFTableData::printAsJson(llvm::raw_ostream &OS) const {
   nlohmann::json JSON;
+  JSON["VFT"] = nlohmann::json::array();
 
   for (const auto &Curr : VFT) {
     JSON["VFT"].push_back(Curr);
-- 
2.43.0


From 83aa307cbfa27453fe513d10edefff6fadda3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:26 +0000
Subject: [PATCH 37/57] fix: print null vtable entries of LLVMVFTable and
 LLVMTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 8dd8e57..ffe5732 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -379,7 +379,7 @@ void LLVMTypeHierarchy::print(llvm::raw_ostream &OS) const {
   for (const auto &[Ty, VFT] : TypeVFTMap) {
     OS << "Virtual function table for: " << Ty->getName() << '\n';
     for (const auto *F : VFT) {
-      OS << "\t-" << F->getName() << '\n';
+      OS << "\t-" << (F ? F->getName() : "<null>") << '\n';
     }
   }
 }
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 2b6b443..4f645a9 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -41,7 +41,7 @@ int LLVMVFTable::getIndex(const llvm::Function *F) const {
 
 void LLVMVFTable::print(llvm::raw_ostream &OS) const {
   for (const auto *F : VFT) {
-    OS << F->getName();
+    OS << (F ? F->getName() : "<null>");
     if (F != VFT.back()) {
       OS << '\n';
     }
-- 
2.43.0


From 4cf681bbdcc72f3869b43b2a3b674e47eecadccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:59 +0000
Subject: [PATCH 38/57] fix: do not duplicate null vtable entries when loading
 a DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..dcb5a37 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -286,6 +286,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From 4a2e5231539f7ab6eaa9462ab2f83b9a4bbac2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 39/57] fix: serialize the types of a DIBasedTypeHierarchy by
 unique names

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp    | 117 +++++++++---------
 1 file changed, 57 insertions(+), 60 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index dcb5a37..fe9b082 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -170,6 +170,27 @@ static llvm::StringRef getCompositeTypeName(const llvm::DICompositeType *Ty) {
   return Ident.empty() ? Ty->getName() : Ident;
 }
 
+/// All struct- or class types in the order of the DebugInfoFinder
+static std::vector<const llvm::DICompositeType *>
+collectClassTypes(const llvm::DebugInfoFinder &DIF) {
+  // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
+  static constexpr llvm::dwarf::Tag DwarfTags[] = {
+      llvm::dwarf::DW_TAG_class_type,
+      llvm::dwarf::DW_TAG_structure_type,
+      llvm::dwarf::DW_TAG_union_type,
+  };
+
+  std::vector<const llvm::DICompositeType *> Ret;
+  for (const auto *Ty : DIF.types()) {
+    if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
+      if (llvm::is_contained(DwarfTags, Composite->getTag())) {
+        Ret.push_back(Composite);
+      }
+    }
+  }
+  return Ret;
+}
+
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   // -- Find all types
   {
@@ -183,25 +204,10 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
     }
 
     // -- Filter all struct- or class types
-
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
-    static constexpr llvm::dwarf::Tag DwarfTags[] = {
-        llvm::dwarf::DW_TAG_class_type,
-        llvm::dwarf::DW_TAG_structure_type,
-        llvm::dwarf::DW_TAG_union_type,
-    };
-
-    for (const auto *Ty : DIF.types()) {
-      if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
-        if (!llvm::is_contained(DwarfTags, Composite->getTag())) {
-          continue;
-        }
-        if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
-          VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
-
-          assert(!getCompositeTypeName(Composite).empty());
-        }
+    for (const auto *Composite : collectClassTypes(DIF)) {
+      if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
+        VertexTypes.push_back(Composite);
+        NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
       }
     }
 
@@ -219,39 +225,20 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   buildTypeHierarchy(TG, VertexTypes, TransitiveDerivedIndex, Hierarchy);
 }
 
-static const llvm::DICompositeType *
-stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
-                        llvm::StringRef DITypeName) {
-  const llvm::DICompositeType *ByName = nullptr;
-  bool HasUniqueByName = false;
-  for (const auto *Type : DIF.types()) {
-    if (const auto *DICT = llvm::dyn_cast<llvm::DICompositeType>(Type)) {
-      auto Ident = DICT->getIdentifier();
-      if (Ident == DITypeName) {
-        return DICT;
-      }
-      if (DICT->getName() == DITypeName) {
-        HasUniqueByName = ByName == nullptr;
-        ByName = DICT;
-      }
-    }
-  }
-  if (HasUniqueByName) {
-    return ByName;
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
-}
-
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
+/// Names the given types for serialization. Since types without identifier may
+/// share their name, all but the first of them get a unique suffix.
+static std::vector<std::string>
+getUniqueTypeNames(llvm::ArrayRef<const llvm::DICompositeType *> Types) {
+  std::vector<std::string> Ret;
+  Ret.reserve(Types.size());
+
+  llvm::StringMap<size_t> NumUses;
+  for (const auto *Ty : Types) {
+    auto Name = getCompositeTypeName(Ty);
+    auto Use = NumUses[Name]++;
+    Ret.push_back(Use ? (Name + "#" + llvm::Twine(Use)).str() : Name.str());
   }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
+  return Ret;
 }
 
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
@@ -262,21 +249,35 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
   const auto *Module = IRDB->getModule();
   DIF.processModule(*Module);
 
+  llvm::StringMap<const llvm::DICompositeType *> TypeOfName;
+  auto ClassTypes = collectClassTypes(DIF);
+  auto ClassTypeNames = getUniqueTypeNames(ClassTypes);
+  for (size_t I = 0, End = ClassTypes.size(); I != End; ++I) {
+    TypeOfName[ClassTypeNames[I]] = ClassTypes[I];
+  }
+  auto GetClassType = [&TypeOfName](llvm::StringRef Name) {
+    const auto *Ty = TypeOfName.lookup(Name);
+    if (!Ty) {
+      llvm::report_fatal_error("DIType doesn't exist: " + Name);
+    }
+    return Ty;
+  };
+
   VertexTypes.reserve(SerializedData.VertexTypes.size());
   TypeToVertex.reserve(SerializedData.VertexTypes.size());
   size_t Idx = 0;
   for (const auto &Curr : SerializedData.VertexTypes) {
-    const auto *Ty = stringToDICompositeType(DIF, Curr);
+    const auto *Ty = GetClassType(Curr);
     VertexTypes.push_back(Ty);
     TypeToVertex.try_emplace(Ty, Idx);
-    NameToType.try_emplace(Curr, Ty);
+    NameToType.try_emplace(getCompositeTypeName(Ty), Ty);
 
     ++Idx;
   }
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(GetClassType(Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -351,17 +352,13 @@ DIBasedTypeHierarchy::getAsJson() const {
 DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
   DIBasedTypeHierarchyData Data;
 
-  Data.VertexTypes.reserve(VertexTypes.size());
-
-  for (const auto &Curr : VertexTypes) {
-    Data.VertexTypes.push_back(getTypeName(Curr).str());
-  }
+  Data.VertexTypes = getUniqueTypeNames(VertexTypes);
 
   Data.TransitiveDerivedIndex = TransitiveDerivedIndex;
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(Data.VertexTypes[TypeToVertex.lookup(Curr)]);
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From d5fd6d9988a8f3883cbeb85764e104b1f4dd92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 40/57] fix: mapFactsToCaller: do not return the zero value
 through the globals branch

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 64583248dcb4b94435504c08dc56f5a9916fe0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 41/57] fix: findAllFunctionDefs: skip subprograms whose
 function is not in the module

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index c7465cd..7e418dc 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -37,7 +37,10 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
     if (SubProgram->isDistinct() && !SubProgram->getLinkageName().empty() &&
         (SubProgram->getName() == Name ||
          SubProgram->getLinkageName() == Name)) {
-      FnDefs.push_back(IRDB.getFunction(SubProgram->getLinkageName()));
+      // The debug info may outlive the function it describes
+      if (const auto *F = IRDB.getFunction(SubProgram->getLinkageName())) {
+        FnDefs.push_back(F);
+      }
     }
   }
   DIF.reset();
-- 
2.43.0


From 8ecdd1c1b816d8b726482684fe4ec3a80cf82843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 42/57] fix: LLVMTaintConfig: a function's return category
 applies to calls of the function only

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 7e418dc..fbab6de 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -119,7 +119,10 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
     }
     // handle a function's return value
     for (const auto &User : Fun->users()) {
-      addTaintCategory(User, FunDesc.ReturnCat);
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
+      if (Call && Call->getCalledOperand() == Fun) {
+        addTaintCategory(Call, FunDesc.ReturnCat);
+      }
     }
   }
 }
@@ -214,8 +217,9 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
             auto AnnotationStr = A.getAnnotationString().substr(4);
             const auto *Fun = A.getFunction();
             for (const auto &User : Fun->users()) {
-              if (llvm::isa<llvm::CallBase>(User)) {
-                addTaintCategory(User, AnnotationStr);
+              const auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
+              if (Call && Call->getCalledOperand() == Fun) {
+                addTaintCategory(Call, AnnotationStr);
               }
             }
           }
-- 
2.43.0


From 714e1a75c6d2b41e4f1520575ab776f793522d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 43/57] fix: LLVMTaintConfig: tag struct members with the
 category of their own description

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index fbab6de..3fbba65 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -134,7 +134,7 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
 
   // handle variables
   // scope can be a function name or a struct.
-  std::unordered_map<const llvm::Type *, const std::string> StructConfigMap;
+  llvm::SmallPtrSet<const VariableData *, 4> StructMembers;
 
   // read all struct types from config
   for (const auto &VarDesc : Config.Variables) {
@@ -145,11 +145,7 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
     for (const auto &Ty : DIF.types()) {
       if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
           Ty->getName().equals(VarDesc.Scope)) {
-        for (const auto &LlvmStructTy : M->getIdentifiedStructTypes()) {
-          StructConfigMap.insert(
-              std::pair<const llvm::Type *, const std::string>(LlvmStructTy,
-                                                               VarDesc.Name));
-        }
+        StructMembers.insert(&VarDesc);
       }
     }
     DIF.reset();
@@ -166,13 +162,13 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
               LocalVar->getLine() == VarDesc.Line) {
             addTaintCategory(DbgDeclare->getAddress(), VarDesc.Cat);
           }
-        } else if (!StructConfigMap.empty()) {
+        } else if (StructMembers.count(&VarDesc)) {
           // Ignorning line numbers for getElementPtr instructions
           if (const auto *Gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
             const auto *StType =
                 llvm::dyn_cast<llvm::StructType>(Gep->getSourceElementType());
-            if (StType && StructConfigMap.count(StType)) {
-              auto VarName = StructConfigMap.at(StType);
+            if (StType && !StType->isLiteral()) {
+              llvm::StringRef VarName = VarDesc.Name;
               // using substr to cover the edge case in which same variable
               // name is present as a local variable and also as a struct
               // member variable. (Ex. JsonConfig/fun_member_02.cpp)
-- 
2.43.0


From 673d0b631a20d5b9b74013d4aa535375daafa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 44/57] fix: IFDSTaintAnalysis: source functions also sanitize

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..9c7e4b9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -462,7 +462,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -475,6 +476,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From 4ade21e3631e72f20a0f708766856ab1b45fe574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:05 +0000
Subject: [PATCH 45/57] fix: IFDSTaintAnalysis: follow calls that return a
 struct by reference

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 9c7e4b9..8080425 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -395,7 +395,11 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // populateWithMayAliases(Leak, CallSite);
   populateWithMustAliases(Kill, CallSite);
 
-  if (CS->hasStructRetAttr()) {
+  // Do not summarize a call just because of its sret parameter, if there is a
+  // callee to follow. Then, the call-to-return flow kills the parameter.
+  if (CS->hasStructRetAttr() &&
+      (DestFun->isDeclaration() || !Gen.empty() || !Leak.empty() ||
+       !Kill.empty())) {
     const auto *SRet = CS->getArgOperand(0);
     if (!Gen.count(SRet)) {
       // SRet is guaranteed to be written to by the call. If it does not
-- 
2.43.0


From 6fafb7b37218fc7977adcab44ced0548428050da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 46/57] fix: collectSanitizedFacts: ask the sanitizer callback

---
 .../phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..40933f4 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBSanitized = Callback(CB);
+    Dest.insert(CBSanitized.begin(), CBSanitized.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
-- 
2.43.0


From af0d4ceb99eff9927524879418aa78bc1e04122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 47/57] fix: IFDSTaintAnalysis: sanitized arguments do not
 bypass the call

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 8080425..6672724 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -359,9 +359,29 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
-    return HasDeclOnly || !Arg->getType()->isPointerTy();
-  });
+  // What all callees sanitize must not bypass the call
+  container_type Sanitized;
+  bool IsFirst = true;
+  for (const auto *DestFun : Callees) {
+    container_type Facts;
+    collectSanitizedFacts(Facts, *Config, CS, DestFun);
+    if (IsFirst) {
+      Sanitized = std::move(Facts);
+      IsFirst = false;
+    } else {
+      for (auto It = Sanitized.begin(); It != Sanitized.end();) {
+        It = Facts.count(*It) ? std::next(It) : Sanitized.erase(It);
+      }
+    }
+  }
+
+  return mapFactsAlongsideCallSite(
+      CS, [HasDeclOnly, Sanitized{std::move(Sanitized)}](d_t Arg) {
+        if (Sanitized.count(Arg)) {
+          return false;
+        }
+        return HasDeclOnly || !Arg->getType()->isPointerTy();
+      });
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
-- 
2.43.0


From 77b1e691e42e78fa26c486fb2101443dcd9459b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:38 +0000
Subject: [PATCH 48/57] fix: Let the end iterator of a BitVectorSet not depend
 on elements inserted later

---
 include/phasar/Utils/BitVectorSet.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index e9dc9f7..d1d9062 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -105,7 +105,7 @@ private:
         int NextIdx = Bits.find_next(PosPtr->first);
 
         if (NextIdx <= static_cast<int>(PosPtr->first)) {
-          PosPtr = Position.right.find(Bits.size());
+          PosPtr = Position.right.end();
           break;
         }
 
@@ -335,32 +335,28 @@ public:
 
   [[nodiscard]] iterator begin() {
     int Index = Bits.find_first();
-    if (Index == -1) {
-      Index = Bits.size();
-    }
-    iterator BeginIter(Position.right.find(Index));
+    iterator BeginIter(Index == -1 ? Position.right.end()
+                                   : Position.right.find(Index));
     BeginIter.setBits(Bits);
     return BeginIter;
   }
 
   [[nodiscard]] iterator end() {
-    iterator EndIter(Position.right.find(Bits.size()));
+    iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
 
   [[nodiscard]] const_iterator begin() const {
     int Index = Bits.find_first();
-    if (Index == -1) {
-      Index = Bits.size();
-    }
-    const_iterator BeginIter(Position.right.find(Index));
+    const_iterator BeginIter(Index == -1 ? Position.right.end()
+                                   : Position.right.find(Index));
     BeginIter.setBits(Bits);
     return BeginIter;
   }
 
   [[nodiscard]] const_iterator end() const {
-    const_iterator EndIter(Position.right.find(Bits.size()));
+    const_iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
-- 
2.43.0


From bc954f0448b48d27a175b810fb7397943bb55d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:38 +0000
Subject: [PATCH 49/57] fix: Advance BitVectorSet iterators over the elements
 of the set

---
 include/phasar/Utils/BitVectorSet.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index d1d9062..1a0fd1d 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -95,7 +95,7 @@ private:
 
     BitVectorSetIterator<D> &operator+=(const difference_type &Movement) {
       for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
+        ++*this;
       }
       return *this;
     }
@@ -125,12 +125,8 @@ private:
     }
 
     BitVectorSetIterator<D> operator+(const difference_type &Movement) {
-      auto OldPtr = PosPtr;
-      for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
-      }
       auto Temp(*this);
-      PosPtr = OldPtr;
+      Temp += Movement;
       return Temp;
     }
 
-- 
2.43.0


From 1c66ed592630622f3845ab9d13118537d4cd1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:38 +0000
Subject: [PATCH 50/57] fix: Do not keep pointers to the block freed by
 StableVector::shrink_to_fit

---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From ebc5187f9c0bf5985ee17521e7077591ae916920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 51/57] fix: initialize AllocVarArg in typestate return flow

---
 .../DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..75c1207 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -124,7 +124,7 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     container_type Res;
     // Handle C-style varargs functions
     if (CalleeFun->isVarArg() && !CalleeFun->isDeclaration()) {
-      const llvm::Instruction *AllocVarArg;
+      const llvm::Instruction *AllocVarArg = nullptr;
       // Find the allocation of %struct.__va_list_tag
       for (const auto &BB : *CalleeFun) {
         for (const auto &I : BB) {
-- 
2.43.0


From 6c14bb942705d4f6d8d823d10c18d7216d3789cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 52/57] fix: let toAliasResult recognise the names of all alias
 results

---
 lib/Pointer/AliasResult.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Pointer/AliasResult.cpp b/lib/Pointer/AliasResult.cpp
index c0e7851..66fb0a9 100644
--- a/lib/Pointer/AliasResult.cpp
+++ b/lib/Pointer/AliasResult.cpp
@@ -29,6 +29,7 @@ std::string psr::toString(AliasResult AR) {
 psr::AliasResult psr::toAliasResult(llvm::StringRef S) {
   return llvm::StringSwitch<AliasResult>(S)
 #define ALIAS_RESULT_TYPE(NAME) .Case(#NAME, AliasResult::NAME)
+#include "phasar/Pointer/AliasResult.def"
       .Default(AliasResult::MayAlias); // Sound overapproximation
 }
 
-- 
2.43.0


From 90cac4b172c9311df1c6b7bc03b6b00b7dce0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 53/57] fix: let phasar-cli pass the requested solver
 configuration to the analysis

---
 .../phasar-cli/Controller/AnalysisControllerInternalIDE.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h b/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
index 645c055..3a8316b 100644
--- a/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
+++ b/tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h
@@ -27,6 +27,14 @@ template <typename SolverTy, typename ProblemTy, typename... ArgTys>
 static void executeIfdsIdeAnalysis(AnalysisController &Data, ArgTys &&...Args) {
   auto Problem =
       createAnalysisProblem<ProblemTy>(*Data.HA, std::forward<ArgTys>(Args)...);
+
+  // Analyses that must not auto-add the zero fact say so on construction
+  auto Config = Data.SolverConfig;
+  if (!Problem.getIFDSIDESolverConfig().autoAddZero()) {
+    Config.setAutoAddZero(false);
+  }
+  Problem.setIFDSIDESolverConfig(Config);
+
   SolverTy Solver(Problem, &Data.HA->getICFG());
   {
     std::optional<Timer> MeasureTime;
-- 
2.43.0


From 4d864e76bced06bbe6a81aa4536cd0ba90fa28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:20 +0000
Subject: [PATCH 54/57] fix: enter all callees of a call in the inter mono
 solver

---
 include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
index 0be77db..2c4afb8 100644
--- a/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
+++ b/include/phasar/DataFlow/Mono/Solver/InterMonoSolver.h
@@ -95,7 +95,7 @@ protected:
     // Add inter- and intra-edges of callee(s)
     for (auto Callee : ICF->getCalleesOfCallAt(Src)) {
       if (AddedFunctions.find(Callee) != AddedFunctions.end()) {
-        break;
+        continue;
       }
       AddedFunctions.insert(Callee);
       // Add call Edge(s)
-- 
2.43.0


From 64277a1f5b179ee4d369d6f5fa1db194601db566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:08 +0000
Subject: [PATCH 55/57] fix: IDESolver::resultsAtInLLVMSSA passes StripZero on
 as StripZero

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index d492430..a2ec97a 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -184,7 +184,8 @@ public:
       std::is_same_v<std::remove_reference_t<NTy>, llvm::Instruction *>,
       std::unordered_map<d_t, l_t>>
   resultsAtInLLVMSSA(NTy Stmt, bool StripZero = false) {
-    return getSolverResults().resultsAtInLLVMSSA(Stmt, StripZero);
+    return getSolverResults().resultsAtInLLVMSSA(
+        Stmt, /*AllowOverapproximation*/ false, StripZero);
   }
 
   virtual void emitTextReport(llvm::raw_ostream &OS = llvm::outs()) {
-- 
2.43.0


From f41129876a1227d0347d0647f5bd08542de67f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:08 +0000
Subject: [PATCH 56/57] fix: LCA keeps the operands of an arithmetic intrinsic
 and does not fold saturating operations

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index ab63d5a..dbee9f9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -583,13 +583,15 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     auto *Rop = BinIntrinsic->getRHS();
     unsigned OP = BinIntrinsic->getBinaryOp();
 
-    // For non linear constant computation we propagate bottom
-    if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
-        (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
-      return AllBottom<l_t>{};
-    }
-
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      // For non linear constant computation we propagate bottom, and saturating
+      // operations do not compute what BinOp computes
+      if (llvm::isa<llvm::SaturatingInst>(Curr) ||
+          (CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
+          (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
+        return AllBottom<l_t>{};
+      }
+
       return lca::BinOp{OP, Lop, Rop, CurrNode};
     }
   }
-- 
2.43.0


From 2b208617aa19736c28a46b7439ba23fe7b608873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:08 +0000
Subject: [PATCH 57/57] fix: LCA does not fold results that wrap around in the
 operands' type

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index dbee9f9..80a7491 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -95,9 +95,11 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param BitWidth the width of the operands' type
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -119,19 +121,25 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   int64_t Res;
   switch (Op) {
   case llvm::Instruction::Add:
-    if (llvm::AddOverflow(Lop, Rop, Res)) {
+    if (llvm::AddOverflow(Lop, Rop, Res) ||
+        !llvm::isIntN(BitWidth, Res)) {
+      // The result wraps around in the operands' type
       return Bottom{};
     }
     return Res;
 
   case llvm::Instruction::Sub:
-    if (llvm::SubOverflow(Lop, Rop, Res)) {
+    if (llvm::SubOverflow(Lop, Rop, Res) ||
+        !llvm::isIntN(BitWidth, Res)) {
+      // The result wraps around in the operands' type
       return Bottom{};
     }
     return Res;
 
   case llvm::Instruction::Mul:
-    if (llvm::MulOverflow(Lop, Rop, Res)) {
+    if (llvm::MulOverflow(Lop, Rop, Res) ||
+        !llvm::isIntN(BitWidth, Res)) {
+      // The result wraps around in the operands' type
       return Bottom{};
     }
     return Res;
@@ -146,6 +154,10 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
+    if (!llvm::isIntN(BitWidth, Lop / Rop)) {
+      // MIN / -1 in the operands' type
+      return Bottom{};
+    }
     return Lop / Rop;
 
   case llvm::Instruction::URem:
@@ -221,18 +233,21 @@ struct BinOp {
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 Lic->getBitWidth());
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+                                 Ric->getBitWidth());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source,
+                                 Lic->getBitWidth());
     }
 
     llvm::report_fatal_error(
-- 
2.43.0

