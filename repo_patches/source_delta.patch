From a0271a9e7b6ab353569feb41090f8116aec49eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 01/44] fix: invert the global phase in
 QuantumComputation::invert

The state preparation relied on the phase not being inverted: its disentangler
now carries the phase it has to undo.
---
 src/algorithms/StatePreparation.cpp | 2 +-
 src/ir/QuantumComputation.cpp       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..3c19e85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..92b6614 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -550,6 +550,9 @@ void QuantumComputation::invert() {
   }
   std::reverse(ops.begin(), ops.end());
 
+  // the adjoint of a circuit has the opposite global phase
+  gphase(-2 * globalPhase);
+
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
   } else {
-- 
2.43.0


From ba419f1ad62e5d4e339ce9595c1ba9aafbb92950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 02/44] fix: keep the buckets of the real-number table sorted
 at bucket borders

---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..58c6ae7 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,9 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From e65b8051e7d7275839371bd54577158cc376e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 03/44] fix: keep the buckets of the real-number table sorted
 at the exact tolerance

---
 src/dd/RealNumberUniqueTable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 58c6ae7..1ff1c44 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -275,7 +275,9 @@ RealNumber* RealNumberUniqueTable::findOrInsert(const std::int64_t key,
 
   RealNumber* prev = nullptr;
   const fp valTol = val + RealNumber::eps;
-  while (curr != nullptr && curr->value <= valTol) {
+  while (curr != nullptr &&
+         (curr->value <= val ||
+          RealNumber::approximatelyEquals(curr->value, val))) {
     if (RealNumber::approximatelyEquals(curr->value, val)) {
       // check if val is actually closer to the next element in the list (if
       // there is one)
-- 
2.43.0


From f972461bc1e4cac8993a47e25fcb12cbea7a321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 04/44] fix: subtract an expression from a term or a constant

---
 include/mqt-core/ir/operations/Expression.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..2ff5460 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -719,14 +719,16 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
   return lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const Term<T>& lhs, const Expression<T, U>& rhs) {
+  auto result = -rhs;
+  result += lhs;
+  return result;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const U& lhs, const Expression<T, U>& rhs) {
+  auto result = -rhs;
+  result += lhs;
+  return result;
 }
 
 template <typename T, typename U>
-- 
2.43.0


From 9ada2655085af8ab5246cb9a15c411fbf9c6dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 05/44] fix: add the coefficient in coefficient plus expression

---
 include/mqt-core/ir/operations/Expression.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 2ff5460..bcf34af 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -702,9 +702,8 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
 }
 
 template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
-- 
2.43.0


From a029fa910eb30624801c0962b3d165c8e59e6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 06/44] fix: compare the variables of expressions in operator==

---
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index bcf34af..1129337 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -795,7 +795,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From 4d38e80e4f55bf7634cb64e9c66be6ad2b17dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 07/44] fix: compare all parts of symbolic operations in equals

---
 src/ir/operations/SymbolicOperation.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..b6327d9 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -341,22 +341,11 @@ bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
   if (!op.isSymbolicOperation()) {
     return false;
   }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
+  if (!StandardOperation::equals(op, perm1, perm2)) {
+    return false;
   }
-  return true;
+  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
+  return symbolicParameter == symOp.symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From be55a587fb6ce8ccd15d3d67d1bd244a160511d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 08/44] fix: keep parameters and symbolic parameters of
 symbolic U gates in step

---
 src/ir/operations/SymbolicOperation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index b6327d9..90a56a1 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -229,7 +229,15 @@ void SymbolicOperation::checkSymbolicUgate() {
       type = parseU3(symbolicParameter[0].value(), symbolicParameter[1].value(),
                      parameter[2]);
     }
+    // a symbolic P or U2 gate only keeps the trailing parameters
+    if (type != U && isSymbolicOperation()) {
+      const auto excess = type == P ? 2 : 1;
+      parameter.erase(parameter.begin(), parameter.begin() + excess);
+      symbolicParameter.erase(symbolicParameter.begin(),
+                              symbolicParameter.begin() + excess);
+    }
   }
+  symbolicParameter.resize(parameter.size());
   // NOLINTEND(bugprone-unchecked-optional-access)
 }
 
@@ -379,6 +387,7 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From 13bcc8f2b26766f929324491a40e138dbb01bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 09/44] fix: keep controls and targets apart when comparing
 controlled RZ and RZZ gates

---
 src/ir/operations/Operation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..704e146 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -134,7 +134,9 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  if (isDiagonalGate()) {
+  // the controls and targets of a controlled RZ or RZZ gate are not
+  // interchangeable
+  if (isDiagonalGate() && (nc1 == 0U || (type != RZ && type != RZZ))) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
-- 
2.43.0


From 2ead52f96b5f70f7222654bafa826331a438a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 10/44] fix: do not equate symbolic and non-symbolic operations

---
 src/ir/operations/Operation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 704e146..52e9e20 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -134,6 +134,11 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  // symbolic parameters are not part of the parameter vector compared above
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
   // the controls and targets of a controlled RZ or RZZ gate are not
   // interchangeable
   if (isDiagonalGate() && (nc1 == 0U || (type != RZ && type != RZZ))) {
-- 
2.43.0


From b41bb9d35e2fd68c908ae9c0e6a1608e75f8f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 11/44] fix: tensor products respect the requested qubit offset

The Kronecker compute table is keyed by the two operands only, so a result
computed for another number of qubits (or without index shift) was returned.
Also, matrices whose top levels are skipped identities were not shifted by the
given number of qubits.
---
 include/mqt-core/dd/Package.hpp | 35 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..9021baf 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,25 @@ private:
       }
     }
 
-    // check if we already computed the product before and return the result
+    // Increase the qubit index
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // for matrices, the top node of y might be on a lower level than the
+      // number of qubits suggests since identities are skipped
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        idx += static_cast<Qubit>(yNumQubits);
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
+    // check if we already computed the product before and return the result.
+    // A stored result may only be reused if it was computed for the same offset
+    // of the qubit indices, i.e., if its top node is on the expected level.
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && !r->isTerminal() && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1485,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 9e9b77691549a2df6e3dd801c77165f30ba8e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 12/44] fix: partial trace relabels levels correctly below
 skipped qubits

The new level of a kept node was derived from the eliminated qubits met on the
path, which misses eliminated levels that are skipped in the diagram.
---
 include/mqt-core/dd/Package.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 9021baf..de50696 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1578,8 +1578,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1612,9 +1612,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1633,15 +1632,20 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+    // The node moves down by the number of eliminated qubits below it. This has
+    // to be determined from the level of the node since eliminated levels above
+    // it might have been skipped.
+    const auto adjustedV = static_cast<Qubit>(
+        static_cast<std::size_t>(v) -
+        static_cast<std::size_t>(std::count(
+            eliminate.begin(),
+            eliminate.begin() +
+                static_cast<std::vector<bool>::difference_type>(v),
+            true)));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From e90c92a67f317be70032e27d86ebcde03d715abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 13/44] fix: garbage collection invalidates all affected
 compute tables

The tables for conjugation and magnitude sums kept entries pointing to collected
nodes, as did the density-matrix tables for collected (reinterpreted) matrix
nodes. Collected density-matrix nodes are now reported as well.
---
 src/dd/Package.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..638c2b1 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
@@ -131,8 +134,10 @@ bool Package::garbageCollect(bool force) {
     stochasticNoiseOperationCache.clear();
   }
   // invalidate all compute tables involving density matrices if any density
-  // matrix node has been collected
-  if (dCollect > 0) {
+  // matrix node has been collected. Since operations are applied to density
+  // matrices as (reinterpreted) matrix nodes, the entries of these tables may
+  // also refer to matrix nodes.
+  if (dCollect > 0 || mCollect > 0) {
     densityAdd.clear();
     densityDensityMultiplication.clear();
     densityNoise.clear();
@@ -154,7 +159,7 @@ bool Package::garbageCollect(bool force) {
     densityNoise.clear();
     densityTrace.clear();
   }
-  return vCollect > 0 || mCollect > 0 || cCollect > 0;
+  return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
-- 
2.43.0


From 231f2147f4442f51b383f76b73af73c0e1fc184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 14/44] fix: clearing a unary compute table keeps its
 configured size

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..d69ba9c 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(stats.numBuckets, false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From 776df96a35052f028f2162669ba4dbc7e5b18628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 15/44] fix: off-diagonal entries of identity diagrams are zero

Reading a single entry of a terminal matrix edge returned the diagonal weight
for every index.
---
 src/dd/Edge.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..8d7623a 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,7 +43,9 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
+  // a terminal matrix edge represents a multiple of the identity, whose
+  // off-diagonal entries are zero
+  if (std::is_same_v<Node, vNode> && isTerminal()) {
     return c;
   }
 
@@ -356,10 +358,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From 9c7e32c8c1f7ec351f050757cbebf624d17e8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 16/44] fix: cached density matrix products are only reused for
 the same operands

---
 include/mqt-core/dd/ComputeTable.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..203ea43 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -20,9 +20,11 @@
 #include "ir/Definitions.hpp"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iostream>
 #include <stdexcept>
+#include <type_traits>
 #include <vector>
 
 namespace dd {
@@ -111,7 +113,8 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result};
+    table[key] = {withTempFlags(leftOperand), withTempFlags(rightOperand),
+                  result};
   }
 
   /**
@@ -132,10 +135,10 @@ public:
     }
 
     auto& entry = table[key];
-    if (entry.leftOperand != leftOperand) {
+    if (entry.leftOperand != withTempFlags(leftOperand)) {
       return result;
     }
-    if (entry.rightOperand != rightOperand) {
+    if (entry.rightOperand != withTempFlags(rightOperand)) {
       return result;
     }
 
@@ -170,6 +173,21 @@ public:
   }
 
 private:
+  /// Density matrix nodes may be looked up while they are temporarily modified.
+  /// The respective flags are part of what the operand represents and, hence,
+  /// stored as part of the key.
+  template <class OperandType>
+  [[nodiscard]] static OperandType withTempFlags(OperandType operand) {
+    if constexpr (std::is_same_v<OperandType, dNode*>) {
+      if (!dNode::isTerminal(operand)) {
+        const auto flags = dNode::getDensityMatrixTempFlags(operand->flags);
+        return reinterpret_cast<dNode*>(
+            reinterpret_cast<std::uintptr_t>(operand) | flags);
+      }
+    }
+    return operand;
+  }
+
   /// The actual table storing the entries
   std::vector<Entry> table;
   /// Dynamic bitset to mark valid entries
-- 
2.43.0


From d8e88b5be73190f21087f6ac4d50af195145b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 17/44] fix: entries handed out after a memory manager reset
 are clean

---
 src/dd/MemoryManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..69bc9c1 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -54,6 +55,9 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     chunks[0].resize(stats.numAllocated * entrySize_);
     ++numAllocations;
   }
+  // entries handed out again must not carry over data (such as reference
+  // counts) from before the reset
+  std::fill(chunks[0].begin(), chunks[0].end(), std::byte{});
 
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
-- 
2.43.0


From 67abb4c46a4faa8d3cf499d340c40eb7912818d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 18/44] fix: a unique table created for some variables has
 buckets for them

---
 src/dd/UniqueTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/UniqueTable.cpp b/src/dd/UniqueTable.cpp
index a6d1f64..5ab33b1 100644
--- a/src/dd/UniqueTable.cpp
+++ b/src/dd/UniqueTable.cpp
@@ -24,7 +24,7 @@ namespace dd {
 UniqueTable::UniqueTable(MemoryManager& manager,
                          const UniqueTableConfig& config)
     : cfg(config), gcLimit(config.initialGCLimit), memoryManager(&manager),
-      tables(config.nVars), stats(config.nVars) {
+      tables(config.nVars, Table(config.nBuckets)), stats(config.nVars) {
   for (auto& stat : stats) {
     stat.entrySize = sizeof(Bucket);
     stat.numBuckets = cfg.nBuckets;
-- 
2.43.0


From c50ceeb09cf6301332d42964fda45f05684fe8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 19/44] fix: partially computed density matrix products are not
 reused as full ones

---
 include/mqt-core/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index de50696..8c2ba9a 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1251,7 +1251,12 @@ private:
     }
 
     auto e = makeDDNode(var, edge, generateDensityMatrix);
-    computeTable.insert(x.p, y.p, e);
+    // When generating a density matrix, only parts of the result are computed.
+    // Such a result must not be reused for a regular multiplication, but
+    // terminals cannot be told apart in the compute table.
+    if (!generateDensityMatrix || !e.isTerminal()) {
+      computeTable.insert(x.p, y.p, e);
+    }
 
     e.w = e.w * rWeight;
     return e;
-- 
2.43.0


From fbd22856702fa9ca2f3cc64c622dad5ec3106b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 20/44] fix: temporary flags are not part of the identity of
 stored density matrix nodes

---
 include/mqt-core/dd/UniqueTable.hpp |  4 +++-
 src/dd/Edge.cpp                     | 11 +----------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/UniqueTable.hpp b/include/mqt-core/dd/UniqueTable.hpp
index 9fcb600..4158b23 100644
--- a/include/mqt-core/dd/UniqueTable.hpp
+++ b/include/mqt-core/dd/UniqueTable.hpp
@@ -90,7 +90,9 @@ public:
   template <class Node>
   [[nodiscard]] static bool nodesAreEqual(const Node& p, const Node& q) {
     if constexpr (std::is_same_v<Node, dNode>) {
-      return (p.e == q.e && (p.flags == q.flags));
+      // the temporary flags are not part of what a stored node represents
+      return p.e == q.e && dNode::isDensityMatrixNode(p.flags) ==
+                               dNode::isDensityMatrixNode(q.flags);
     } else {
       return p.e == q.e;
     }
diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 8d7623a..9a5cae5 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -660,16 +660,7 @@ auto hash<dd::Edge<Node>>::operator()(const dd::Edge<Node>& e) const noexcept
     -> std::size_t {
   const auto h1 = dd::murmur64(reinterpret_cast<std::size_t>(e.p));
   const auto h2 = std::hash<dd::Complex>{}(e.w);
-  auto h3 = qc::combineHash(h1, h2);
-  if constexpr (std::is_same_v<Node, dd::dNode>) {
-    if (e.isTerminal()) {
-      return h3;
-    }
-    assert(dd::dNode::isDensityMatrixTempFlagSet(e.p) == false);
-    const auto h4 = dd::dNode::getDensityMatrixTempFlags(e.p->flags);
-    h3 = qc::combineHash(h3, h4);
-  }
-  return h3;
+  return qc::combineHash(h1, h2);
 }
 
 template struct hash<dd::Edge<dd::vNode>>;
-- 
2.43.0


From a70b056e403371588a952b633c74a7fceb5cba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 21/44] fix: diagrams of controlled global phases respect the
 controls

The diagram of a global phase with controls (e.g., 'ctrl @ gphase' in
OpenQASM) was that of an uncontrolled one.
---
 src/dd/Operations.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..e1b2ef0 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -26,6 +26,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <random>
 #include <sstream>
@@ -154,6 +155,17 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    if (op.isControlled()) {
+      // a controlled global phase is a phase gate on one of its controls
+      auto controls = permutation.apply(op.getControls());
+      const auto target = *controls.begin();
+      controls.erase(controls.begin());
+      const auto factor = std::polar(1., phase);
+      const auto matrix = target.type == qc::Control::Type::Pos
+                              ? GateMatrix{1, 0, 0, factor}
+                              : GateMatrix{factor, 0, 0, 1};
+      return dd.makeGateDD(matrix, controls, target.qubit);
+    }
     auto id = Package::makeIdent();
     id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
     return id;
-- 
2.43.0


From 098141a081def497bebd855b364f7ecbf3208601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 22/44] fix: modifications of density matrix nodes are only
 reverted by whoever applied them

---
 include/mqt-core/dd/Edge.hpp    |  4 +--
 include/mqt-core/dd/Node.hpp    |  9 ++++++-
 include/mqt-core/dd/Package.hpp | 45 ++++++++++++++++++++-------------
 src/dd/Node.cpp                 | 23 +++++++++++------
 4 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/include/mqt-core/dd/Edge.hpp b/include/mqt-core/dd/Edge.hpp
index c82e98c..4b2adcf 100644
--- a/include/mqt-core/dd/Edge.hpp
+++ b/include/mqt-core/dd/Edge.hpp
@@ -349,8 +349,8 @@ public:
   }
 
   template <typename T = Node, isDensityMatrix<T> = true>
-  static void applyDmChangesToEdge(Edge& x) {
-    Node::applyDmChangesToNode(x.p);
+  static bool applyDmChangesToEdge(Edge& x) {
+    return Node::applyDmChangesToNode(x.p);
   }
 
   /**
diff --git a/include/mqt-core/dd/Node.hpp b/include/mqt-core/dd/Node.hpp
index fac5f95..e3bee6f 100644
--- a/include/mqt-core/dd/Node.hpp
+++ b/include/mqt-core/dd/Node.hpp
@@ -193,7 +193,14 @@ struct dNode final : NodeBase {       // NOLINT(readability-identifier-naming)
 
   static void getAlignedNodeRevertModificationsOnSubEdges(dNode* p) noexcept;
 
-  static void applyDmChangesToNode(dNode*& p) noexcept;
+  /**
+   * @brief Apply the modifications encoded in a tagged pointer to the node.
+   * @param p The (possibly tagged) pointer. It is untagged in the process.
+   * @returns Whether the node has been modified. Only in that case, the
+   * modifications may be reverted by the caller. Otherwise, the node is either
+   * unmodified or still in use by someone else.
+   */
+  static bool applyDmChangesToNode(dNode*& p) noexcept;
 
   static void revertDmChangesToNode(dNode*& p) noexcept;
 };
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 8c2ba9a..53577ef 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -834,11 +834,15 @@ public:
       }
 
       if constexpr (std::is_same_v<Node, dNode>) {
-        dNode::applyDmChangesToNode(e1.p);
-        dNode::applyDmChangesToNode(e2.p);
+        const auto e1Changed = dNode::applyDmChangesToNode(e1.p);
+        const auto e2Changed = dNode::applyDmChangesToNode(e2.p);
         edge[i] = add2(e1, e2, var - 1);
-        dNode::revertDmChangesToNode(e2.p);
-        dNode::revertDmChangesToNode(e1.p);
+        if (e2Changed) {
+          dNode::revertDmChangesToNode(e2.p);
+        }
+        if (e1Changed) {
+          dNode::revertDmChangesToNode(e1.p);
+        }
       } else {
         edge[i] = add2(e1, e2, var - 1);
       }
@@ -1205,14 +1209,8 @@ private:
           const auto v = static_cast<Qubit>(var - 1);
           if constexpr (std::is_same_v<LeftOperandNode, dNode>) {
             dCachedEdge m;
-            dEdge::applyDmChangesToEdges(e1, e2);
-            if (!generateDensityMatrix || idx == 1) {
-              // When generateDensityMatrix is false or I have the first edge I
-              // don't optimize anything and set generateDensityMatrix to false
-              // for all child edges
-              m = multiply2(e1, e2, v, false);
-            } else if (idx == 2) {
-              // When I have the second edge and generateDensityMatrix == false,
+            if (generateDensityMatrix && idx == 2) {
+              // When I have the second edge and generateDensityMatrix == true,
               // then edge[2] == edge[1]
               if (k == 0) {
                 if (edge[1].w.approximatelyZero()) {
@@ -1222,6 +1220,14 @@ private:
                 }
               }
               continue;
+            }
+            const auto e1Changed = dEdge::applyDmChangesToEdge(e1);
+            const auto e2Changed = dEdge::applyDmChangesToEdge(e2);
+            if (!generateDensityMatrix || idx == 1) {
+              // When generateDensityMatrix is false or I have the first edge I
+              // don't optimize anything and set generateDensityMatrix to false
+              // for all child edges
+              m = multiply2(e1, e2, v, false);
             } else {
               m = multiply2(e1, e2, v, generateDensityMatrix);
             }
@@ -1229,14 +1235,17 @@ private:
             if (k == 0 || edge[idx].w.exactlyZero()) {
               edge[idx] = m;
             } else if (!m.w.exactlyZero()) {
-              dNode::applyDmChangesToNode(edge[idx].p);
-              dNode::applyDmChangesToNode(m.p);
               edge[idx] = add2(edge[idx], m, v);
-              dNode::revertDmChangesToNode(m.p);
-              dNode::revertDmChangesToNode(edge[idx].p);
             }
-            // Undo modifications on density matrices
-            dEdge::revertDmChangesToEdges(e1, e2);
+            // Undo modifications on density matrices. Operands that have not
+            // been modified here (e.g., because they skip the current level)
+            // might still be in use and must be left alone.
+            if (e2Changed) {
+              dEdge::revertDmChangesToEdge(e2);
+            }
+            if (e1Changed) {
+              dEdge::revertDmChangesToEdge(e1);
+            }
           } else {
             auto m = multiply2(e1, e2, v);
 
diff --git a/src/dd/Node.cpp b/src/dd/Node.cpp
index 4faea56..b467db3 100644
--- a/src/dd/Node.cpp
+++ b/src/dd/Node.cpp
@@ -85,15 +85,22 @@ void dNode::getAlignedNodeRevertModificationsOnSubEdges(dNode* p) noexcept {
   std::swap(p->e[2], p->e[1]);
 }
 
-void dNode::applyDmChangesToNode(dNode*& p) noexcept {
-  if (isDensityMatrixTempFlagSet(p)) {
-    const auto tmp = alignDensityNodeNode(p);
-    if (p == nullptr) {
-      return;
-    }
-    assert(getDensityMatrixTempFlags(p->flags) == 0);
-    p->flags = p->flags | tmp;
+bool dNode::applyDmChangesToNode(dNode*& p) noexcept {
+  if (!isDensityMatrixTempFlagSet(p)) {
+    return false;
+  }
+  const auto tmp = static_cast<std::uint8_t>(getDensityMatrixTempFlags(p));
+  auto* node = p;
+  alignDensityNode(node);
+  if (node == nullptr || tempDensityMatrixFlagsEqual(node->flags, tmp)) {
+    // nothing to modify or the modifications have already been applied
+    p = node;
+    return false;
   }
+  assert(getDensityMatrixTempFlags(node->flags) == 0);
+  alignDensityNodeNode(p);
+  p->flags = p->flags | tmp;
+  return true;
 }
 
 void dNode::revertDmChangesToNode(dNode*& p) noexcept {
-- 
2.43.0


From 23048c719174676f010245e6ed93b6c0c50eebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 23/44] fix: reading density matrices leaves their nodes intact

---
 src/dd/Edge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 9a5cae5..03d63b0 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -61,6 +61,9 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
     // node is not at the expected level (skipped node)
     if (r.isTerminal() || r.p->v != level - 1U) {
       if (r.isZeroTerminal() || tmp == 1U || tmp == 2U) {
+        if constexpr (std::is_same_v<Node, dNode>) {
+          Edge<dNode>::revertDmChangesToEdge(r);
+        }
         return 0.;
       }
       --level;
@@ -491,7 +494,8 @@ auto Edge<Node>::traverseMatrix(const std::complex<fp>& amp,
   const auto coords = {std::pair{i, j}, {i, y}, {x, j}, {x, y}};
   std::size_t k = 0U;
   for (const auto& [a, b] : coords) {
-    if (auto& e = p->e[k++]; !e.w.exactlyZero()) {
+    // work on a copy so that the flags stored in the edge are preserved
+    if (auto e = p->e[k++]; !e.w.exactlyZero()) {
       if constexpr (std::is_same_v<Node, dNode>) {
         Edge<dNode>::applyDmChangesToEdge(e);
       }
-- 
2.43.0


From 0083b5c39bce44cf71b936dbada32e7936dd06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 24/44] fix: noise on density matrices that skip qubits

---
 src/dd/NoiseFunctionality.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..9a3c25c 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -280,14 +280,16 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isTerminal() || originalEdge.p->v < nextLevel) {
+    // the level is skipped, i.e., the identity is applied at this level
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
     newEdges[3] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
   } else {
     for (std::size_t i = 0; i < newEdges.size(); i++) {
-      auto& successor = originalCopy.p->e[i];
+      // work on a copy so that the flags stored in the edge are preserved
+      auto successor = originalCopy.p->e[i];
       if (firstPathEdge || i == 1) {
         // If I am to the firstPathEdge I cannot minimize the necessary
         // operations anymore
-- 
2.43.0


From a099886ee38d7154c5457f7c59809a45b2375f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 25/44] fix: products of density matrices do not share nodes
 with their operands

---
 include/mqt-core/dd/Package.hpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 53577ef..2ae762d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1083,7 +1083,7 @@ public:
       if (!xCopy.isTerminal()) {
         var = xCopy.p->v;
       }
-      if (!y.isTerminal() && yCopy.p->v > var) {
+      if (!yCopy.isTerminal() && yCopy.p->v > var) {
         var = yCopy.p->v;
       }
 
@@ -1138,11 +1138,10 @@ private:
       if constexpr (!std::is_same_v<RightOperandNode, dNode>) {
         return {y.p, rWeight};
       } else {
-        if (y.isIdentity() ||
-            (dNode::isDensityMatrixTempFlagSet(y.p->flags) &&
-             generateDensityMatrix) ||
-            (!dNode::isDensityMatrixTempFlagSet(y.p->flags) &&
-             !generateDensityMatrix)) {
+        // Nodes of an operand must not become part of the result since an
+        // operation (whose nodes are matrix nodes) would otherwise share nodes
+        // with the density matrix, which are modified temporarily.
+        if (y.isIdentity()) {
           return {y.p, rWeight};
         }
       }
@@ -1153,14 +1152,6 @@ private:
       if (y.isIdentity()) {
         if constexpr (!std::is_same_v<LeftOperandNode, dNode>) {
           return {x.p, rWeight};
-        } else {
-          if (x.isIdentity() ||
-              (dNode::isDensityMatrixTempFlagSet(x.p->flags) &&
-               generateDensityMatrix) ||
-              (!dNode::isDensityMatrixTempFlagSet(x.p->flags) &&
-               !generateDensityMatrix)) {
-            return {x.p, rWeight};
-          }
         }
       }
     }
@@ -1262,8 +1253,13 @@ private:
     auto e = makeDDNode(var, edge, generateDensityMatrix);
     // When generating a density matrix, only parts of the result are computed.
     // Such a result must not be reused for a regular multiplication, but
-    // terminals cannot be told apart in the compute table.
-    if (!generateDensityMatrix || !e.isTerminal()) {
+    // the compute table can only tell the results apart by means of their node.
+    if constexpr (std::is_same_v<RightOperandNode, dNode>) {
+      if (generateDensityMatrix == (!e.isTerminal() &&
+                                    dNode::isDensityMatrixNode(e.p->flags))) {
+        computeTable.insert(x.p, y.p, e);
+      }
+    } else {
       computeTable.insert(x.p, y.p, e);
     }
 
-- 
2.43.0


From e766574ee81f4160838819565e3f938b3b5fe320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 26/44] fix: measurement of density matrices that skip qubits

---
 include/mqt-core/dd/Package.hpp | 22 ++++++++++++++++++----
 src/dd/Package.cpp              | 12 ++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 2ae762d..d3c414c 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1543,8 +1543,10 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
+    if constexpr (std::is_same_v<Node, mNode>) {
+      if (a.isIdentity()) {
+        return static_cast<ComplexValue>(a.w);
+      }
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
@@ -1584,17 +1586,29 @@ private:
    * mapped to the interval [0,1] (as opposed to the interval [0,2^N]).
    *
    * For density matrices, such normalization is not applied as the trace of
-   * density matrices is always 1 by definition.
+   * density matrices is always 1 by definition. In turn, every level marked for
+   * elimination that is skipped in the DD (i.e., that is an identity)
+   * contributes a factor of two.
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
                          const std::vector<bool>& eliminate,
                          std::size_t level) {
-    const auto aWeight = static_cast<ComplexValue>(a.w);
+    auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
     }
 
+    if constexpr (std::is_same_v<Node, dNode>) {
+      const auto nextLevel =
+          a.isTerminal() ? 0U : static_cast<std::size_t>(a.p->v) + 1U;
+      for (; level > nextLevel; --level) {
+        if (eliminate[level - 1U]) {
+          aWeight = aWeight * 2.;
+        }
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
     if (a.isIdentity() ||
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 638c2b1..875964c 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -792,7 +792,11 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
   char measuredResult = '0';
   dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
+  // the density matrix might skip the measured qubit
+  const auto nrQubits =
+      std::max<std::size_t>(index, e.isTerminal() ? 0U : e.p->v) + 1U;
+  // skipped qubits at the top contribute to all traces alike
+  const auto totalTrace = trace(e, nrQubits);
   dEdge::setDensityMatrixTrue(e);
 
   auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
@@ -800,16 +804,16 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   auto tmp0 = conjugateTranspose(measZeroDd);
   auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
   auto tmp2 = multiply(densityFromMatrixEdge(measZeroDd), tmp1, true);
-  auto densityMatrixTrace = trace(tmp2, nrQubits);
+  auto densityMatrixTrace = trace(tmp2, nrQubits) / totalTrace;
 
   std::uniform_real_distribution<fp> dist(0., 1.);
-  if (const auto threshold = dist(mt); threshold > densityMatrixTrace.r) {
+  if (const auto threshold = dist(mt); threshold >= densityMatrixTrace.r) {
     auto const measOneDd = makeGateDD(MEAS_ONE_MAT, index);
     tmp0 = conjugateTranspose(measOneDd);
     tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
     tmp2 = multiply(densityFromMatrixEdge(measOneDd), tmp1, true);
     measuredResult = '1';
-    densityMatrixTrace = trace(tmp2, nrQubits);
+    densityMatrixTrace = trace(tmp2, nrQubits) / totalTrace;
   }
 
   incRef(tmp2);
-- 
2.43.0


From dad9e488d03ba057fe2de00e3bfbeadd2a028c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 27/44] fix: amplitude damping probability of multi-qubit gates
 in stochastic noise

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 9a3c25c..b24beee 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From 983d6f7296585e23459002a1d2056e2185a5f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 28/44] fix: stochastic amplitude damping uses the same sampled
 noise for both outcomes

---
 src/dd/NoiseFunctionality.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index b24beee..29ebfb7 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -113,6 +113,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
+    // Both alternatives have to be based on the same sampled noise operations
+    auto replay = generator;
     auto stackedOperation = generateNoiseOperation(operation, target, generator,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
@@ -123,8 +125,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
-                                                true, multiQubitOperation);
+      stackedOperation = generateNoiseOperation(operation, target, replay, true,
+                                                multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
     tmp.w = Complex::one();
-- 
2.43.0


From 14fe313535ebd3894a396bb2bef95aa464165df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 29/44] fix: amplitude damping operations of different noise
 models are not mixed up

---
 src/dd/NoiseFunctionality.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 29ebfb7..a5fd0f4 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -143,6 +143,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  // The cache is shared by everything that uses the package. Thus, operations
+  // that depend on the probabilities of this object must not be cached.
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
-- 
2.43.0


From 4d170a73224b108354885701a1a51fb4a9ec6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 30/44] fix: copy the comparison kind of classic-controlled
 operations

Copying, assigning or cloning a ClassicControlledOperation reset the
comparison kind to equality.
---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From 699a7761c0bbf39d550ec256d588dc7fbbf4040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 31/44] fix: keep classical dependencies and global phases when
 reordering operations

---
 src/ir/QuantumComputation.cpp | 64 ++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 92b6614..6fd0f59 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1117,6 +1117,31 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+void addUsedBits(const Operation& op, std::set<Bit>& bits) {
+  if (op.getType() == Measure) {
+    const auto& classics =
+        dynamic_cast<const NonUnitaryOperation&>(op).getClassics();
+    bits.insert(classics.begin(), classics.end());
+  } else if (op.isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& reg = classic.getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = classic.getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    addUsedBits(*classic.getOperation(), bits);
+  } else if (op.isCompoundOperation()) {
+    for (const auto& subOp : dynamic_cast<const CompoundOperation&>(op)) {
+      addUsedBits(*subOp, bits);
+    }
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1127,12 +1152,34 @@ void QuantumComputation::reorderOperations() {
     highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  // the order of operations that share classical bits has to be kept as well.
+  // The DAG contains one wire for each classical bit followed by the qubits.
+  std::size_t nbits = 0;
+  std::unordered_map<const Operation*, std::set<Bit>> usedBits{};
+  for (const auto& op : ops) {
+    auto& bits = usedBits[op.get()];
+    addUsedBits(*op, bits);
+    if (!bits.empty()) {
+      nbits = std::max(nbits, static_cast<std::size_t>(*bits.rbegin()) + 1);
+    }
+  }
+
+  auto dag = DAG(nbits + highestPhysicalQubit + 1);
+  std::vector<std::unique_ptr<Operation>> newOps{};
 
   for (auto& op : ops) {
     const auto usedQubits = op->getUsedQubits();
     for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+      dag.at(nbits + q).push_back(&op);
+    }
+    const auto& bits = usedBits.at(op.get());
+    for (const auto b : bits) {
+      dag.at(b).push_back(&op);
+    }
+    // operations that do not act on any qubit or bit (e.g., global phases)
+    // commute with all other operations
+    if (usedQubits.empty() && bits.empty()) {
+      newOps.emplace_back(std::move(op));
     }
   }
 
@@ -1148,8 +1195,6 @@ void QuantumComputation::reorderOperations() {
     }
   }
 
-  std::vector<std::unique_ptr<Operation>> newOps{};
-
   // iterate over DAG in depth-first fashion starting from the top-most qubit
   const auto msq = dag.size() - 1;
   bool done = false;
@@ -1158,7 +1203,7 @@ void QuantumComputation::reorderOperations() {
     done = true;
 
     // iterate over qubits in reverse order
-    for (auto q = static_cast<std::make_signed_t<Qubit>>(msq); q >= 0; --q) {
+    for (auto q = static_cast<std::int64_t>(msq); q >= 0; --q) {
       // nothing to be done for this qubit
       if (dagIterators.at(static_cast<std::size_t>(q)) ==
           dag.at(static_cast<std::size_t>(q)).end()) {
@@ -1177,9 +1222,12 @@ void QuantumComputation::reorderOperations() {
       actsOn[static_cast<std::size_t>(q)] = true;
       for (std::size_t i = 0; i < dag.size(); ++i) {
         // actually check in reverse order
-        const auto qb =
-            static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
+        const auto qb = static_cast<std::int64_t>(dag.size() - 1 - i);
+        const auto wire = static_cast<std::size_t>(qb);
+        const auto used = wire < nbits
+                              ? usedBits.at(op.get()).count(wire) != 0
+                              : op->actsOn(static_cast<Qubit>(wire - nbits));
+        if (qb != q && used) {
           actsOn[static_cast<std::size_t>(qb)] = true;
 
           assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-- 
2.43.0


From c5ec9b22c8b6b36efad04ca229c6a0ce86f3b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 32/44] fix: inverse check of compound operations that act on
 no qubit

---
 src/ir/operations/CompoundOperation.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..8143bf9 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -220,17 +220,13 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
     // and the reorderOperations method can be used to get a canonical form of
     // the compound operations
     const auto& thisUsedQubits = getUsedQubits();
-    assert(!thisUsedQubits.empty());
-    const auto thisMaxQubit =
-        *std::max_element(thisUsedQubits.cbegin(), thisUsedQubits.cend());
-    QuantumComputation thisQc(thisMaxQubit + 1);
+    QuantumComputation thisQc(
+        thisUsedQubits.empty() ? 0U : *thisUsedQubits.crbegin() + 1U);
     std::for_each(cbegin(), cend(),
                   [&](const auto& op) { thisQc.emplace_back(op->clone()); });
     const auto& otherUsedQubits = co.getUsedQubits();
-    assert(!otherUsedQubits.empty());
-    const auto otherMaxQubit =
-        *std::max_element(otherUsedQubits.cbegin(), otherUsedQubits.cend());
-    QuantumComputation otherQc(otherMaxQubit + 1);
+    QuantumComputation otherQc(
+        otherUsedQubits.empty() ? 0U : *otherUsedQubits.crbegin() + 1U);
     std::for_each(co.cbegin(), co.cend(),
                   [&](const auto& op) { otherQc.emplace_back(op->clone()); });
     thisQc.reorderOperations();
-- 
2.43.0


From 7a3fd223fa630a4d2b242aee45c3f986f3e0429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 33/44] fix: operations with several symbolic parameters need
 not commute

---
 src/ir/operations/StandardOperation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..21c264d 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -551,7 +551,11 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
     //    ───────■──
   }
   // operations with more than one parameter might not be commutative when the
-  // parameter are not the same, i.e. a general U3 gate
+  // parameter are not the same, i.e. a general U3 gate. The values of symbolic
+  // parameters are unknown.
+  if (isSymbolicOperation() || other.isSymbolicOperation()) {
+    return false;
+  }
   // TODO: this check might introduce false negatives
   return type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
-- 
2.43.0


From 915e1da6d02e67ebaed6a04219076dab4fb4c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 34/44] fix: reduction of garbage for zero diagrams and
 weighted identities

With normalizeWeights, diagrams without nodes were dereferenced, and the
weight of an identity was not replaced by its magnitude. The reference
to the weight of a reduced identity was never released.
---
 src/dd/Package.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 875964c..c40bdea 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1151,6 +1151,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1187,6 +1188,13 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
        e.isTerminal())) {
     return e;
   }
+  // there are no qubits to consider, only the weight is left to be normalized
+  if (e.isTerminal()) {
+    const auto res = vEdge::terminal(cn.lookup(ComplexNumbers::mag(e.w)));
+    incRef(res);
+    decRef(e);
+    return res;
+  }
   Qubit lowerbound = 0;
   for (std::size_t i = 0U; i < garbage.size(); ++i) {
     if (garbage[i]) {
@@ -1211,15 +1219,18 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
 
   // if we have only identities and no other nodes
   if (e.isIdentity()) {
     auto g = e;
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(e.w));
+    }
     for (auto i = 0U; i < garbage.size(); ++i) {
       if (garbage[i]) {
         if (regular) {
@@ -1232,6 +1243,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From bfca5ae588c929fb6aa260b4bf8e0901e6ee0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 35/44] fix: sampled bits of permuted, repeatedly measured and
 narrow circuits

Outcomes of circuits without measurements were read from the positions of
the inputs after the outputs had been moved, measuring a qubit into two
bits or two qubits into one bit lost a result, measured garbage qubits
made sampling throw, and fewer classical bits than outputs were written
out of bounds.
---
 src/dd/Simulation.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..4ca72c2 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit). A later measurement into the same bit overwrites it.
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -111,10 +111,6 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       e = applyUnitaryOperation(*op, e, dd, permutation);
     }
 
-    // correct permutation if necessary
-    changePermutation(e, permutation, qc.outputPermutation, dd);
-    e = dd.reduceGarbage(e, qc.getGarbage());
-
     // measure all qubits
     std::map<std::string, std::size_t> counts{};
     for (std::size_t i = 0U; i < shots; ++i) {
@@ -126,25 +122,27 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     dd.decRef(e);
 
     std::map<std::string, std::size_t> actualCounts{};
+    // without measurements, every output of the circuit needs a bit
     const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+        hasMeasurements ? qc.getNcbits()
+                        : std::max(qc.getNqubits(), qc.getNcbits());
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
+        for (const auto& [bit, qubit] : measurementMap) {
           // measurement map specifies that the circuit `qubit` is measured into
           // a certain `bit`
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
+              bitstring[bitstring.size() - 1U - permutation.at(qubit)];
         }
       } else {
         // otherwise, we consider the output permutation for determining where
         // to measure the qubits to
         for (const auto& [qubit, bit] : qc.outputPermutation) {
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+              bitstring[bitstring.size() - 1U - permutation.at(qubit)];
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From b98f8987db975b920e7dc1ca24b6c2facb35df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 36/44] fix: functionality of empty and single-gate circuits,
 and global phases

buildFunctionality and buildFunctionalityRecursive dropped the global
phase of the circuit. The recursive construction ignored permutations,
ancillary and garbage qubits for a single operation (and the virtual
SWAP), and read from an empty stack for an empty circuit. The error
message of changePermutation dereferenced the end iterator.
---
 include/mqt-core/dd/Operations.hpp   |  2 +-
 src/dd/FunctionalityConstruction.cpp | 38 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Operations.hpp b/include/mqt-core/dd/Operations.hpp
index 34c88d2..c997945 100644
--- a/include/mqt-core/dd/Operations.hpp
+++ b/include/mqt-core/dd/Operations.hpp
@@ -234,7 +234,7 @@ void changePermutation(DDType& on, qc::Permutation& from,
     auto it = from.find(i);
     if (it == from.end()) {
       throw std::runtime_error(
-          "[changePermutation] Key " + std::to_string(it->first) +
+          "[changePermutation] Key " + std::to_string(i) +
           " was not found in first permutation. This should never happen.");
     }
     auto current = it->second;
diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..629de0a 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -10,17 +10,35 @@
 
 #include "dd/FunctionalityConstruction.hpp"
 
+#include "dd/ComplexValue.hpp"
 #include "dd/Operations.hpp"
 #include "dd/Package.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+// properly account for the global phase of the circuit
+void applyGlobalPhase(MatrixDD& e, const qc::QuantumComputation& qc,
+                      Package& dd) {
+  if (std::abs(qc.getGlobalPhase()) > 0) {
+    // create a temporary copy for reference counting
+    const auto oldW = e.w;
+    e.w = dd.cn.lookup(e.w *
+                       ComplexValue{std::polar(1.0, qc.getGlobalPhase())});
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -43,6 +61,7 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
@@ -121,22 +140,21 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
 
   auto permutation = qc.initialLayout;
 
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
-    dd.incRef(e);
-    return e;
+  auto e = Package::makeIdent();
+  if (!qc.empty()) {
+    std::stack<MatrixDD> s{};
+    const auto depth = std::max<std::size_t>(
+        1U, static_cast<std::size_t>(std::ceil(std::log2(qc.size()))));
+    buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
+    e = s.top();
+    s.pop();
   }
 
-  std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
-  buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-  auto e = s.top();
-  s.pop();
-
   // correct permutation if necessary
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
-- 
2.43.0


From 40409f4d20f408aa3652f651ae62d7b999ca34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 37/44] fix: fuse only single-qubit unitary gates

singleQubitGateFusion merged gates with measurements, resets and
classically controlled operations on the same qubit and accessed the
target of global phase gates.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..cb51511 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -185,8 +185,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
   for (auto& it : qc) {
     // not a single-qubit operation
-    if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+    if (!it->isStandardOperation() || it->isSymbolicOperation() ||
+        !it->getControls().empty() || it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || (*op)->isSymbolicOperation() ||
+         !(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
@@ -236,7 +237,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
       auto lastop = (--(compop->end()));
       auto inverseIt = INVERSE_MAP.find((*lastop)->getType());
       // check if current operation is the inverse of the previous operation
-      if (inverseIt != INVERSE_MAP.end() &&
+      if (inverseIt != INVERSE_MAP.end() && (*lastop)->isStandardOperation() &&
           it->getType() == inverseIt->second) {
         compop->pop_back();
         it->setGate(I);
-- 
2.43.0


From e428a08bc2ef68e11745ad1bf3fec200dcab5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 38/44] fix: keep the controls of controlled SWAPs in
 decomposeSWAP

Controlled SWAP gates were replaced by three uncontrolled CNOTs.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index cb51511..e14bbae 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -595,7 +595,7 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
+      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
         const auto targets = (*it)->getTargets();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
@@ -624,7 +624,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
       auto cit = compOp.begin();
       while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
+        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
+            !(*cit)->isControlled()) {
           const auto targets = (*cit)->getTargets();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-- 
2.43.0


From 6e25c256276278c9242168056d8d73bb85c508f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 39/44] fix: eliminate the first reset inside of compound
 operations

eliminateResets skipped compound operations until a reset had been seen.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index e14bbae..2295f78 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -706,7 +706,7 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
         }
       }
       it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
+    } else if (!replacementMap.empty() || (*it)->isCompoundOperation()) {
       if ((*it)->isCompoundOperation()) {
         auto& compOp = dynamic_cast<CompoundOperation&>(**it);
         auto compOpIt = compOp.begin();
-- 
2.43.0


From e31a8e0bb78e0aeab365ad90ae6cd372ca0285be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 40/44] fix: keep the order of dependent operations in
 collectBlocks

Blocks stayed at the position of their first operation even if
operations on qubits that joined later precede the joining operation.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 24 +++++++++-------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 2295f78..b726b97 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1357,7 +1357,9 @@ struct DSU {
 
   /**
    * @brief Merge two blocks together.
-   * @details The smaller block is merged into the larger block.
+   * @details The block that starts earlier in the circuit is merged into the one
+   * that starts later. Operations between the two positions may act on the
+   * qubits of the later block, but not on those of the earlier one.
    * @param block1 first block
    * @param block2 second block
    */
@@ -1369,8 +1371,7 @@ struct DSU {
     }
     assert(currentBlockOperations[parent1] != nullptr);
     assert(currentBlockOperations[parent2] != nullptr);
-    if (currentBlockOperations[parent1]->size() <
-        currentBlockOperations[parent2]->size()) {
+    if (currentBlockInCircuit[parent1] < currentBlockInCircuit[parent2]) {
       std::swap(parent1, parent2);
     }
     parent[parent2] = parent1;
@@ -1549,19 +1550,14 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
         prev = q;
       }
       const auto block = dsu.findBlock(static_cast<Qubit>(prev));
-      const auto empty = dsu.blockEmpty(block);
-      if (empty) {
-        dsu.currentBlockInCircuit[block] = &(*opIt);
-      }
+      // the block moves to the position of the operation, since operations on
+      // qubits that have just become part of the block may precede it
+      auto*& position = dsu.currentBlockInCircuit[block];
       dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
-      if (!empty) {
-        opIt = qc.erase(opIt);
-        // this can only ever be called on at least the second operation in a
-        // circuit, so it is safe to decrement the iterator here.
-        --opIt;
+      if (position != nullptr) {
+        *position = std::make_unique<StandardOperation>(0, I);
       }
+      position = &op;
     }
   }
 
-- 
2.43.0


From d8250115070d3373c59ed68326d9b579a238eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 41/44] fix: remove exactly the diagonal gates before
 measurements

removeDiagonalGatesBeforeMeasure dereferenced the end of the list of a
qubit, removed uncontrolled two-qubit gates and parts of compound
operations although other qubits were used afterwards.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 212 ++++-----------------
 1 file changed, 38 insertions(+), 174 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index b726b97..5edc5b5 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -273,192 +273,56 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 }
 
 namespace {
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op);
-
-void removeDiagonalGatesBeforeMeasureRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend()) {
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                                nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    // check if desired operation was reached
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->isStandardOperation()) {
-      // try removing gate and upon success increase all corresponding iterators
-      auto onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, op);
-      if (onlyDiagonalGates) {
-        for (const auto& control : op->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : op->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-
-    } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyDiagonalGates = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        onlyDiagonalGates = removeDiagonalGate(dag, dagIterators, idx, it, cop);
-        if (!onlyDiagonalGates) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
-      }
-    } else if (op->isClassicControlledOperation()) {
-      // consider the operation that is classically controlled and proceed as
-      // above
-      auto* cop = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
-      const bool onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, cop);
-      if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isNonUnitaryOperation()) {
-      // non-unitary operation is not diagonal
-      it = dag.at(idx).rend();
-    } else {
-      throw std::runtime_error("Unexpected operation encountered");
+/// What follows on a qubit (looking at the circuit from its end)
+enum class QubitUse : std::uint8_t { Unused, OnlyMeasured, Used };
+
+template <class Operations>
+void removeDiagonalGatesBeforeMeasure(Operations& ops,
+                                      std::vector<QubitUse>& uses) {
+  for (auto it = ops.end(); it != ops.begin();) {
+    --it;
+    auto& op = **it;
+    if (op.isCompoundOperation()) {
+      removeDiagonalGatesBeforeMeasure(dynamic_cast<CompoundOperation&>(op),
+                                       uses);
+      continue;
     }
-  }
-
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                              nullptr);
-  }
-}
-
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op) {
-  // not a diagonal gate
-  if (!op->isDiagonalGate()) {
-    it = dag.at(idx).rend();
-    return false;
-  }
-
-  if (op->getNcontrols() != 0) {
-    // need to check all controls and targets
-    bool onlyDiagonalGates = true;
-    for (const auto& control : op->getControls()) {
-      auto controlQubit = control.qubit;
-      if (controlQubit == idx) {
-        continue;
-      }
-      if (control.type == Control::Type::Neg) {
-        dagIterators.at(controlQubit) = dag.at(controlQubit).rend();
-        onlyDiagonalGates = false;
-        break;
-      }
-      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at control with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
-                                                (*it)->get());
-      // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
-        onlyDiagonalGates = false;
-        break;
+    if (op.getType() == Measure) {
+      for (const auto target : op.getTargets()) {
+        auto& use = uses.at(target);
+        use = use == QubitUse::Unused ? QubitUse::OnlyMeasured : QubitUse::Used;
       }
+      continue;
     }
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
-                                                (*it)->get());
-      // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
+    const auto& gate =
+        op.isClassicControlledOperation()
+            ? *dynamic_cast<ClassicControlledOperation&>(op).getOperation()
+            : op;
+    const auto qubits = op.getUsedQubits();
+    // a diagonal gate does not influence the outcomes if all of its qubits are
+    // only measured afterwards
+    if (gate.isStandardOperation() && gate.isDiagonalGate() &&
+        !qubits.empty() &&
+        std::all_of(qubits.cbegin(), qubits.cend(), [&uses](const auto q) {
+          return uses.at(q) == QubitUse::OnlyMeasured;
+        })) {
+      it = ops.erase(it);
+      continue;
     }
-    if (!onlyDiagonalGates) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
+    for (const auto q : qubits) {
+      uses.at(q) = QubitUse::Used;
     }
-    return onlyDiagonalGates;
   }
-  // set operation to identity so that it can be collected by the
-  // removeIdentities pass
-  op->setGate(I);
-  return true;
 }
 } // namespace
 
 void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
     QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-
-  // initialize iterators
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty() || dag.at(q).back()->get()->getType() != Measure) {
-      // qubit is not measured and thus does not have to be considered
-      dagIterators.at(q) = dag.at(q).rend();
-    } else {
-      // point to operation before measurement
-      dagIterators.at(q) = ++(dag.at(q).rbegin());
-    }
-  }
-  // iterate over DAG in depth-first fashion
-  removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, 0, nullptr);
+  std::vector<QubitUse> uses(qc.getHighestPhysicalQubitIndex() + 1,
+                             QubitUse::Unused);
+  ::qc::removeDiagonalGatesBeforeMeasure(qc, uses);
 
-  // remove resulting identities from circuit
+  // remove compound operations that became empty
   removeIdentities(qc);
 }
 
-- 
2.43.0


From db1359c65f95e87752db5cf632fbf4ea7002c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 42/44] fix: remove only final measurements and barriers

removeFinalMeasurements removed other operations of compound operations
and measurements whose results control later operations.
---
 src/circuit_optimizer/CircuitOptimizer.cpp | 152 ++++++---------------
 1 file changed, 43 insertions(+), 109 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 5edc5b5..5865db4 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -12,6 +12,7 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/ClassicControlledOperation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/Control.hpp"
 #include "ir/operations/NonUnitaryOperation.hpp"
@@ -327,129 +328,62 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 }
 
 namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
+template <class Operations>
+void removeFinalMeasurements(Operations& ops, std::vector<bool>& usedQubits,
+                             std::unordered_set<Bit>& usedBits) {
+  for (auto it = ops.end(); it != ops.begin();) {
+    --it;
+    auto& op = **it;
+    if (op.isCompoundOperation()) {
+      removeFinalMeasurements(dynamic_cast<CompoundOperation&>(op), usedQubits,
+                              usedBits);
+      continue;
     }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
+    if (op.getType() == Measure || op.getType() == Barrier) {
+      const auto& targets = op.getTargets();
+      bool isFinal = !targets.empty() &&
+                     std::none_of(targets.cbegin(), targets.cend(),
+                                  [&usedQubits](const auto target) {
+                                    return usedQubits.at(target);
+                                  });
+      if (op.getType() == Measure) {
+        // results that control other operations are still needed
+        const auto& bits =
+            dynamic_cast<NonUnitaryOperation&>(op).getClassics();
+        isFinal = isFinal && std::none_of(bits.cbegin(), bits.cend(),
+                                          [&usedBits](const auto bit) {
+                                            return usedBits.count(bit) > 0;
+                                          });
       }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
-      }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
-    }
-  }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-  }
-}
-
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
+      if (isFinal) {
+        it = ops.erase(it);
         continue;
       }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
+    }
+    if (const auto* classic = dynamic_cast<ClassicControlledOperation*>(&op);
+        classic != nullptr) {
+      if (const auto& bit = classic->getControlBit(); bit.has_value()) {
+        usedBits.emplace(*bit);
       }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
+      if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
+        for (std::size_t i = 0; i < reg->getSize(); ++i) {
+          usedBits.emplace(reg->getStartIndex() + i);
+        }
       }
     }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
+    for (const auto q : op.getUsedQubits()) {
+      usedQubits.at(q) = true;
     }
-    return onlyMeasurements;
   }
-  return false;
 }
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
-  }
-
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
+  std::vector<bool> usedQubits(qc.getHighestPhysicalQubitIndex() + 1, false);
+  std::unordered_set<Bit> usedBits{};
+  ::qc::removeFinalMeasurements(qc, usedQubits, usedBits);
 
+  // remove compound operations that became empty
   removeIdentities(qc);
 }
 
-- 
2.43.0


From 6086b9793796a3d2d36501f93467f9dc4a36e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 43/44] fix: keep the transitive closure of acyclic graphs
 complete

Adding an edge (u, v) did not record that predecessors of u reach the
successors of v, so that cycles were accepted.
---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..5a1b823 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -52,12 +52,14 @@ public:
       throw std::logic_error(oss.str());
     }
     DirectedGraph<V>::addEdge(u, v);
+    // everything that reaches u now also reaches everything reachable from v
     for (std::size_t k = 0; k < this->nVertices; ++k) {
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From c124ac02a3e1f1cec60c1cd467a526e4d771a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 44/44] fix: respect self-loops of undirected graphs

isAdjacent and toString ignored the edge of a vertex with itself although
getEdge, getNeighbours and getAdjacentEdges report it.
---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..ff64499 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,7 +194,7 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
+    return (i <= j && adjacencyMatrix[i][j - i] != std::nullopt) or
            (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0

