From 6ddd36ba4f430bf1fbb7dbf190eb2304f4968b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 01/10] fix: look up a number at exactly minus the tolerance as
 the shared zero, not as a negated zero

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From ce3d1d17240e89511ef5ba50c9a297065fd9fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 02/10] fix: keep number buckets sorted when val + tolerance is
 rounded up to an entry out of range

---
 include/dd/ComplexTable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..8cea672 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -529,6 +529,10 @@ namespace dd {
                     ++hits;
                     return curr;
                 }
+                // `val + TOLERANCE` might have been rounded up to an entry that is out of range: keep the bucket sorted
+                if (curr->value > val) {
+                    break;
+                }
                 ++collisions;
                 prev = curr;
                 curr = curr->next;
-- 
2.43.0


From a7a1c734578dba844662a580f38c4b1110fce990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 03/10] fix: Kronecker product with an identity keeps the left
 operand's weight

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..297af7d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1992,7 +1992,7 @@ namespace dd {
                         e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From df4d1de079340d8938fdf05abc606e4719a3dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 04/10] fix: makeIdent does not answer a range above qubit zero
 with a cached full identity

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 297af7d..59e9de9 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2180,7 +2180,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From 58d4c8ae1f782dce86bf47e80ee4da2ae03a279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 05/10] fix: forget memoised Toffoli diagrams when numbers are
 collected

---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 59e9de9..c7aa8fe 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -975,6 +975,7 @@ namespace dd {
                 vectorInnerProduct.clear();
                 vectorKronecker.clear();
                 matrixKronecker.clear();
+                toffoliTable.clear();
                 stochasticNoiseOperationCache.clear();
                 densityAdd.clear();
                 densityDensityMultiplication.clear();
-- 
2.43.0


From 5dfa2e3cb807e4d3c7b239026285924dbc64dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 06/10] fix: garbage collection reports success when only
 density nodes were removed

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c7aa8fe..31b9101 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -981,7 +981,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From 428d9bafc0bd0dfa5bc1f3602f6f200ea83cbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 07/10] fix: keep edge weights and the weight of the rebuilt
 node in ancilla reduction

---
 include/dd/Package.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 31b9101..2fe9541 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2336,7 +2336,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2345,20 +2345,18 @@ namespace dd {
                     handled.set(i);
                 }
             }
-            f = makeDDNode(f.p->v, edges);
 
             // something to reduce for this qubit
-            if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
+            if (ancillary[static_cast<std::size_t>(e.p->v)]) {
                 if (regular) {
-                    if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
-                    }
+                    edges[1] = mEdge::zero;
+                    edges[3] = mEdge::zero;
                 } else {
-                    if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
-                        f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
-                    }
+                    edges[2] = mEdge::zero;
+                    edges[3] = mEdge::zero;
                 }
             }
+            f = makeDDNode(e.p->v, edges);
 
             auto c = cn.mulCached(f.w, e.w);
             f.w    = cn.lookup(c);
-- 
2.43.0


From fb555c7cbb5c48a1ee19aeff3c17660967fbc98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:13 +0000
Subject: [PATCH 08/10] fix: reject state vectors and matrices for more qubits
 than configured

---
 include/dd/Package.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 2fe9541..3d26441 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -320,6 +320,14 @@ namespace dd {
             [[maybe_unused]] const auto before = cn.cacheCount();
 
             const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            if (static_cast<std::size_t>(level) >= nqubits) {
+                throw std::runtime_error{"Requested state with " +
+                                         std::to_string(level + 1) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             auto       state = makeStateFromVector(stateVector.begin(), stateVector.end(), level);
 
             // the recursive function makes use of the cache, so we have to clean it up
@@ -361,6 +369,13 @@ namespace dd {
             [[maybe_unused]] const auto before = cn.cacheCount();
 
             const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            if (static_cast<std::size_t>(level) >= nqubits) {
+                throw std::runtime_error{"Requested matrix with " +
+                                         std::to_string(level + 1) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
 
             auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
 
-- 
2.43.0


From 40841b7578ff88ea071bf42fe7b56c16be8a0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 09/10] fix: let zero successors of a state node point to the
 terminal in uncached construction

---
 include/dd/Package.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 3d26441..e7d8e9d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -135,12 +135,12 @@ namespace dd {
             auto zero = std::array{e.p->e[0].w.approximatelyZero(), e.p->e[1].w.approximatelyZero()};
 
             // make sure to release cached numbers approximately zero, but not exactly zero
-            if (cached) {
-                for (auto i = 0U; i < RADIX; i++) {
-                    if (zero[i] && e.p->e[i].w != Complex::zero) {
+            for (auto i = 0U; i < RADIX; i++) {
+                if (zero[i]) {
+                    if (cached && e.p->e[i].w != Complex::zero) {
                         cn.returnToCache(e.p->e[i].w);
-                        e.p->e[i] = vEdge::zero;
                     }
+                    e.p->e[i] = vEdge::zero;
                 }
             }
 
-- 
2.43.0


From d1c2cb5f108abb34ee3f63d1450f1a2b9e66ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 10/10] fix: memo tables tell density-matrix operands apart by
 their temporary flags

While a density node's temporary flags are set its edges are modified in place, so the same
node with different flags is a different operand. The flags only entered the hash of some
operands, so colliding keys returned the result of the conjugated operand.
---
 include/dd/ComputeTable.hpp      |  6 +++---
 include/dd/DensityNoiseTable.hpp |  5 +++--
 include/dd/Node.hpp              | 12 ++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..3a3af54 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -46,7 +46,7 @@ namespace dd {
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {withTempFlags(leftOperand), withTempFlags(rightOperand), result};
             ++count;
         }
 
@@ -58,10 +58,10 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.leftOperand != leftOperand) {
+            if (entry.leftOperand != withTempFlags(leftOperand)) {
                 return result;
             }
-            if (entry.rightOperand != rightOperand) {
+            if (entry.rightOperand != withTempFlags(rightOperand)) {
                 return result;
             }
 
diff --git a/include/dd/DensityNoiseTable.hpp b/include/dd/DensityNoiseTable.hpp
index e74e9e2..546c54c 100644
--- a/include/dd/DensityNoiseTable.hpp
+++ b/include/dd/DensityNoiseTable.hpp
@@ -7,6 +7,7 @@
 #define DDpackage_NOISECOMPUTETABLE_HPP
 
 #include "Definitions.hpp"
+#include "Node.hpp"
 
 #include <array>
 #include <cstddef>
@@ -47,7 +48,7 @@ namespace dd {
             const auto key   = hash(operand, usedQubits);
             auto&      entry = table[key];
             entry.result     = result;
-            entry.operand    = operand;
+            entry.operand    = withTempFlags(operand);
             entry.usedQubits = usedQubits;
             ++count;
         }
@@ -60,7 +61,7 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.operand != operand) {
+            if (entry.operand != withTempFlags(operand)) {
                 return result;
             }
             if (entry.usedQubits != usedQubits) {
diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 84ff004..2813ddc 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <cstddef>
+#include <type_traits>
 #include <utility>
 
 namespace dd {
@@ -212,6 +213,17 @@ namespace dd {
         return dEdge{reinterpret_cast<dNode*>(e.p), e.w};
     }
 
+    // The edges of a density matrix node are modified in place while its temporary flags are set.
+    // Hence, such a node only identifies the operand of a memoised operation together with these flags.
+    template<class OperandType>
+    static inline OperandType withTempFlags(OperandType operand) {
+        if constexpr (std::is_same_v<decltype(operand.p), dNode*>) {
+            const auto flags = dNode::getDensityMatrixTempFlags(operand.p->flags);
+            operand.p        = reinterpret_cast<dNode*>(reinterpret_cast<std::uintptr_t>(operand.p) | flags);
+        }
+        return operand;
+    }
+
 } // namespace dd
 
 namespace std {
-- 
2.43.0

