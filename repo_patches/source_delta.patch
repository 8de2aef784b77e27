From 282b9a70190a5ef792cb5a103d12255f975ee2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 01/47] fix: makeIdent must not reuse cached identities when
 the lowest level is not 0

The second shortcut consulted idTable even for leastSignificantQubit != 0, so
the returned diagram extended below its lowest level.
---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 1986f39..9c065cd 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2180,7 +2180,7 @@ namespace dd {
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
             }
-            if (mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
+            if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 && (idTable[static_cast<std::size_t>(mostSignificantQubit - 1)]).p != nullptr) {
                 idTable[static_cast<std::size_t>(mostSignificantQubit)] = makeDDNode(mostSignificantQubit,
                                                                                      std::array{idTable[static_cast<std::size_t>(mostSignificantQubit - 1)],
                                                                                                 mEdge::zero,
-- 
2.43.0


From 7265e842a928f2f37536165ffdbd46bb8b42bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 02/47] fix: controlled two-qubit gate constructors must
 multiply above the start level

makeSWAPDD, makeRZZDD, ... build the gate by multiplication but did not pass
'start' on to multiply(), so for start != 0 the product was computed down to
level 0 and the result was not an operator on the requested qubits.
---
 include/dd/Package.hpp | 112 ++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9c065cd..30e1c9e 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -635,7 +635,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e));
+            e = multiply(e, multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start)), static_cast<Qubit>(start));
             return e;
         }
 
@@ -643,7 +643,7 @@ namespace dd {
             auto c = controls;
             c.insert(Control{target1});
             mEdge e = makeGateDD(Xmat, n, c, target0, start);
-            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e);
+            e       = multiply(makeGateDD(Xmat, n, controls, target1, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -651,7 +651,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, controls, target1, start);
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(makeGateDD(Xmat, n, c, target0, start), e);
+            e = multiply(makeGateDD(Xmat, n, c, target0, start), e, static_cast<Qubit>(start));
             return e;
         }
 
@@ -660,15 +660,15 @@ namespace dd {
         }
         mEdge makeiSWAPDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             mEdge e = makeGateDD(Smat, n, controls, target1, start);              // S q[1]
-            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start)); // S q[0]
-            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start)); // H q[0]
+            e       = multiply(e, makeGateDD(Smat, n, controls, target0, start), static_cast<Qubit>(start)); // S q[0]
+            e       = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start)); // H q[0]
             auto c  = controls;
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start)); // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start)); // CX q[0], q[1]
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));        // CX q[1], q[0]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start)); // H q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));        // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target1, start), static_cast<Qubit>(start)); // H q[1]
             return e;
         }
 
@@ -679,13 +679,13 @@ namespace dd {
             mEdge e = makeGateDD(Hmat, n, controls, target1, start); // H q[1]
             auto  c = controls;
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start)); // CX q[1], q[0]
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start)); // CX q[1], q[0]
             c.erase(Control{target1});
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));           // CX q[0], q[1]
-            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start));    // H q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start)); // Sdag q[0]
-            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start)); // Sdag q[1]
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));           // CX q[0], q[1]
+            e = multiply(e, makeGateDD(Hmat, n, controls, target0, start), static_cast<Qubit>(start));    // H q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target0, start), static_cast<Qubit>(start)); // Sdag q[0]
+            e = multiply(e, makeGateDD(Sdagmat, n, controls, target1, start), static_cast<Qubit>(start)); // Sdag q[1]
             return e;
         }
 
@@ -698,7 +698,7 @@ namespace dd {
             mEdge e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
             c.insert(Control{target1});
-            e = multiply(e, makeGateDD(Xmat, n, c, target0, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -710,9 +710,9 @@ namespace dd {
             c.insert(Control{target0});
             auto e = makeGateDD(Xmat, n, c, target1, start);
             c.erase(Control{target0});
-            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start));
+            e = multiply(e, makeGateDD(RZmat(theta), n, c, target1, start), static_cast<Qubit>(start));
             c.insert(Control{target0});
-            e = multiply(e, makeGateDD(Xmat, n, c, target1, start));
+            e = multiply(e, makeGateDD(Xmat, n, c, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -722,10 +722,10 @@ namespace dd {
         mEdge makeRYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the RX gates since they cancel if the controls are 0.
             auto e = makeGateDD(RXmat(PI_2), n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(RXmat(PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RXmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -735,10 +735,10 @@ namespace dd {
         mEdge makeRXXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target0, start);
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -748,8 +748,8 @@ namespace dd {
         mEdge makeRZXDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const std::size_t start = 0) {
             // no controls are necessary on the H gates since they cancel if the controls are 0.
             auto e = makeGateDD(Hmat, n, Controls{}, target1, start);
-            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start));
-            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start));
+            e      = multiply(e, makeRZZDD(n, controls, target0, target1, theta, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Hmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -758,8 +758,8 @@ namespace dd {
         }
         mEdge makeECRDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const std::size_t start = 0) {
             auto e = makeRZXDD(n, controls, target0, target1, -PI_4, start);
-            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start));
-            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start));
+            e      = multiply(e, makeGateDD(Xmat, n, controls, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeRZXDD(n, controls, target0, target1, PI_4, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -768,21 +768,21 @@ namespace dd {
         }
         mEdge makeXXMinusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(-beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(-theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
@@ -791,21 +791,21 @@ namespace dd {
         }
         mEdge makeXXPlusYYDD(const QubitCount n, const Controls& controls, const Qubit target0, const Qubit target1, const fp theta, const fp beta = 0., const std::size_t start = 0) {
             auto e = makeGateDD(RZmat(beta), n, Controls{}, target1, start);
-            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start));
-            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
+            e      = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(SXmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Smat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e      = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
             // only the following two gates need to be controlled by the controls since the other gates cancel if the controls are 0.
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start));
-            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start));
-
-            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start));
-            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start));
-            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start));
-            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RYmat(theta / 2.), n, controls, target1, start), static_cast<Qubit>(start));
+
+            e = multiply(e, makeGateDD(Xmat, n, Control{target0}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(Sdagmat, n, Controls{}, target1, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(SXdagmat, n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(PI_2), n, Controls{}, target0, start), static_cast<Qubit>(start));
+            e = multiply(e, makeGateDD(RZmat(-beta), n, Controls{}, target1, start), static_cast<Qubit>(start));
             return e;
         }
 
-- 
2.43.0


From 954c10dc8d0943a6e028d70ed8374d53a4a4b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 03/47] fix: kronecker must not drop the scalar of an identity
 left operand

The identity shortcut ignored x.w, and it computed wrong levels for
incIdx == false, where the operands already live on the final levels.
---
 include/dd/Package.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 30e1c9e..131f223 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1984,15 +1984,13 @@ namespace dd {
             constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
             // special case handling for matrices
             if constexpr (n == NEDGE) {
-                if (x.p->isIdentity()) {
-                    auto idx = incIdx ? static_cast<Qubit>(y.p->v + 1) : y.p->v;
-                    auto e   = makeDDNode(idx, std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
+                if (incIdx && x.p->isIdentity()) {
+                    auto e = makeDDNode(static_cast<Qubit>(y.p->v + 1), std::array{y, Edge<Node>::zero, Edge<Node>::zero, y});
                     for (auto i = 0; i < x.p->v; ++i) {
-                        idx = incIdx ? static_cast<Qubit>(e.p->v + 1) : e.p->v;
-                        e   = makeDDNode(idx, std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
+                        e = makeDDNode(static_cast<Qubit>(e.p->v + 1), std::array{e, Edge<Node>::zero, Edge<Node>::zero, e});
                     }
 
-                    e.w = cn.getCached(CTEntry::val(y.w.r), CTEntry::val(y.w.i));
+                    e.w = cn.mulCached(x.w, y.w);
                     computeTable.insert(x, y, {e.p, e.w});
                     return e;
                 }
-- 
2.43.0


From 15553fbac30f3a7baeb62915e78b84ecb750be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 04/47] fix: reduceAncillae must keep edge weights

A child was considered a duplicate of another when only the nodes matched, not
the weights, and the weight pulled out when the node was first rebuilt was lost
when the node was rebuilt a second time without its ancillary part.
---
 include/dd/Package.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 131f223..4ec2d02 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2333,7 +2333,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceAncillaeRecursion(f.p->e[i], ancillary, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2344,21 +2344,25 @@ namespace dd {
             }
             f = makeDDNode(f.p->v, edges);
 
+            // the weight of the edge to the original node and the one resulting from rebuilding it
+            auto c = cn.mulCached(f.w, e.w);
+
             // something to reduce for this qubit
             if (f.p->v >= 0 && ancillary[static_cast<std::size_t>(f.p->v)]) {
                 if (regular) {
                     if (f.p->e[1].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], mEdge::zero, f.p->e[2], mEdge::zero});
+                        ComplexNumbers::mul(c, c, f.w);
                     }
                 } else {
                     if (f.p->e[2].w != Complex::zero || f.p->e[3].w != Complex::zero) {
                         f = makeDDNode(f.p->v, std::array{f.p->e[0], f.p->e[1], mEdge::zero, mEdge::zero});
+                        ComplexNumbers::mul(c, c, f.w);
                     }
                 }
             }
 
-            auto c = cn.mulCached(f.w, e.w);
-            f.w    = cn.lookup(c);
+            f.w = cn.lookup(c);
             cn.returnToCache(c);
             return f;
         }
-- 
2.43.0


From ca9463f6f9778f209a107d7b948a6c9858d4d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 05/47] fix: transfer must visit all children of a node

The traversal read the top of an empty stack, and a child that had already been
transferred through its sibling hid the remaining children, so that the rebuilt
node pointed to nothing.
---
 include/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 4ec2d02..d9db990 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2914,8 +2914,13 @@ namespace dd {
                     currentEdge = stack.top();
                     stack.pop();
 
+                    // nodes that have been transferred in the meantime must not hide the remaining children
+                    while (!stack.empty() && mappedNode.find(stack.top()->p) != mappedNode.end()) {
+                        stack.pop();
+                    }
+
                     bool hasChild = false;
-                    for (std::size_t i = 1; i < n && !hasChild; ++i) {
+                    for (std::size_t i = 1; i < n && !hasChild && !stack.empty(); ++i) {
                         auto& edge = currentEdge->p->e[i];
                         if (edge.w.approximatelyZero()) {
                             continue;
-- 
2.43.0


From 01e64679bb12aaf10e744b4bcd2b67fe1f66f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 06/47] fix: size() must not share its set of visited nodes
 between packages

The function-local static was written by every package of the same type, a data
race when packages are used by different threads, and it was never released.
---
 include/dd/Package.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index d9db990..2166500 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2227,10 +2227,9 @@ namespace dd {
         ///
         template<class Edge>
         unsigned int size(const Edge& e) {
-            static constexpr unsigned int            NODECOUNT_BUCKETS = 200000;
-            static std::unordered_set<decltype(e.p)> visited{NODECOUNT_BUCKETS}; // 2e6
+            static constexpr unsigned int     NODECOUNT_BUCKETS = 200000;
+            std::unordered_set<decltype(e.p)> visited{NODECOUNT_BUCKETS}; // 2e6
             visited.max_load_factor(10);
-            visited.clear();
             return nodeCount(e, visited);
         }
 
-- 
2.43.0


From ec449e71dabcebe4bfef7c93ef2082c77eefd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 07/47] fix: garbageCollect must report collected density
 matrix nodes

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 2166500..b15022d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -980,7 +980,7 @@ namespace dd {
                 densityDensityMultiplication.clear();
                 densityNoise.clear();
             }
-            return vCollect > 0 || mCollect > 0 || cCollect > 0;
+            return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
         }
 
         void clearUniqueTables() {
-- 
2.43.0


From 12ba8d2415d35e721f4fcfdff2ca50d3fdb5d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 08/47] fix: clear the Toffoli table when numbers have been
 collected

Its entries hold edge weights, which are not referenced, so they dangle after a
collection of the complex numbers just as those of the other tables do.
---
 include/dd/Package.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index b15022d..ea84711 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -975,6 +975,7 @@ namespace dd {
                 vectorInnerProduct.clear();
                 vectorKronecker.clear();
                 matrixKronecker.clear();
+                toffoliTable.clear();
                 stochasticNoiseOperationCache.clear();
                 densityAdd.clear();
                 densityDensityMultiplication.clear();
-- 
2.43.0


From 69ee981d7f6ebe0e4dd6021e8571c297f3b6416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 09/47] fix: give back the node of a result that vanishes

In cached computations, and when the normalisation factor vanishes, the freshly
taken node was neither used nor returned, so that repeated work kept allocating
new nodes that no garbage collection could reclaim.
---
 include/dd/Package.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ea84711..e357b4d 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -195,6 +195,7 @@ namespace dd {
             } else {
                 r.w = cn.lookup(CTEntry::val(max.w.r) * commonFactor, CTEntry::val(max.w.i) * commonFactor);
                 if (r.w.approximatelyZero()) {
+                    vUniqueTable.returnNode(e.p);
                     return vEdge::zero;
                 }
             }
@@ -1012,9 +1013,16 @@ namespace dd {
             }
 
             // normalize it
-            e = normalize(e, cached);
+            const auto node = e.p;
+            e               = normalize(e, cached);
             assert(e.p->v == var || e.isTerminal());
 
+            // normalizing a cached computation does not put a node that is not needed back into the chain
+            if (cached && e.isTerminal()) {
+                uniqueTable.returnNode(node);
+                return e;
+            }
+
             // look it up in the unique tables
             auto l = uniqueTable.lookup(e, false);
             assert(l.p->v == var || l.isTerminal());
-- 
2.43.0


From ebbabff99163e8801d2079e758503130556ee9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 10/47] fix: density matrix compute tables must distinguish the
 modifications of an operand

---
 include/dd/ComputeTable.hpp      |  6 +++---
 include/dd/DensityNoiseTable.hpp |  5 +++--
 include/dd/Node.hpp              | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 7ff8fea..27c72ea 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -46,7 +46,7 @@ namespace dd {
 
         void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {leftOperand, rightOperand, result};
+            table[key]     = {toTableKey(leftOperand), toTableKey(rightOperand), result};
             ++count;
         }
 
@@ -58,10 +58,10 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.leftOperand != leftOperand) {
+            if (entry.leftOperand != toTableKey(leftOperand)) {
                 return result;
             }
-            if (entry.rightOperand != rightOperand) {
+            if (entry.rightOperand != toTableKey(rightOperand)) {
                 return result;
             }
 
diff --git a/include/dd/DensityNoiseTable.hpp b/include/dd/DensityNoiseTable.hpp
index e74e9e2..50d9c0b 100644
--- a/include/dd/DensityNoiseTable.hpp
+++ b/include/dd/DensityNoiseTable.hpp
@@ -7,6 +7,7 @@
 #define DDpackage_NOISECOMPUTETABLE_HPP
 
 #include "Definitions.hpp"
+#include "Node.hpp"
 
 #include <array>
 #include <cstddef>
@@ -47,7 +48,7 @@ namespace dd {
             const auto key   = hash(operand, usedQubits);
             auto&      entry = table[key];
             entry.result     = result;
-            entry.operand    = operand;
+            entry.operand    = toTableKey(operand);
             entry.usedQubits = usedQubits;
             ++count;
         }
@@ -60,7 +61,7 @@ namespace dd {
             if (entry.result.p == nullptr) {
                 return result;
             }
-            if (entry.operand != operand) {
+            if (entry.operand != toTableKey(operand)) {
                 return result;
             }
             if (entry.usedQubits != usedQubits) {
diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 84ff004..9647460 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <cstddef>
+#include <type_traits>
 #include <utility>
 
 namespace dd {
@@ -207,6 +208,20 @@ namespace dd {
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
     inline dNode dNode::terminalNode{{{{nullptr, Complex::zero}, {nullptr, Complex::zero}, {nullptr, Complex::zero}, {nullptr, Complex::zero}}}, nullptr, 0, -1, 0};
 
+    /// Operands as they are stored in the tables of computed results. The meaning of an operand of the density matrix
+    /// operations depends on the temporary flags its node currently carries (e.g., whether it is conjugated). These
+    /// flags are not part of an edge and, hence, have to be recorded as a tag of the pointer.
+    template<class Operand>
+    static inline Operand toTableKey(const Operand& operand) {
+        auto key = operand;
+        if constexpr (std::is_same_v<Operand, dEdge> || std::is_same_v<Operand, dCachedEdge>) {
+            if (key.p != nullptr) {
+                key.p = reinterpret_cast<dNode*>(reinterpret_cast<std::uintptr_t>(key.p) | dNode::getDensityMatrixTempFlags(key.p->flags));
+            }
+        }
+        return key;
+    }
+
     // NOLINTNEXTLINE(clang-diagnostic-unused-function) It's used but clang-tidy in our CI complains...
     static inline dEdge densityFromMatrixEdge(const mEdge& e) {
         return dEdge{reinterpret_cast<dNode*>(e.p), e.w};
-- 
2.43.0


From 573dc7d38c09fef52b136252a97078b83125a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 11/47] fix: getDensityMatrix must not alter its argument

---
 include/dd/Package.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index e357b4d..6d4be4c 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2746,12 +2746,14 @@ namespace dd {
         }
 
         CMat getDensityMatrix(dEdge& e) {
-            dEdge::applyDmChangesToEdge(e);
-            const std::size_t dim = 2ULL << e.p->v;
+            // work on a copy since reverting the changes removes the flags from the edge
+            auto root = e;
+            dEdge::applyDmChangesToEdge(root);
+            const std::size_t dim = 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
-            getDensityMatrix(e, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(e);
+            getDensityMatrix(root, Complex::one, 0, 0, mat);
+            dd::dEdge::revertDmChangesToEdge(root);
             return mat;
         }
 
-- 
2.43.0


From 193a8c372bb8ae69d3df20d7e8cadeb6c2c3b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 12/47] fix: density matrix nodes must not be normalized by an
 entry off the diagonal

---
 include/dd/Package.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 6d4be4c..dcd3cf2 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -400,8 +400,20 @@ namespace dd {
 
                 fp   max  = 0;
                 auto maxc = Complex::one;
+                // The reduced representation of a density matrix requires real weights on its diagonal. Hence, it must not be
+                // normalized by an entry off the diagonal that is only larger than the diagonal due to rounding errors.
+                constexpr fp offDiagonalMargin  = 1.01;
+                auto         order              = std::array{0U, 1U, 2U, 3U};
+                auto         reducedDensityNode = false;
+                if constexpr (std::is_same_v<Node, dNode>) {
+                    reducedDensityNode = dNode::isDensityMatrixNode(e.p->flags);
+                    if (reducedDensityNode) {
+                        order = {0U, 3U, 1U, 2U};
+                    }
+                }
+
                 // determine max amplitude
-                for (auto i = 0U; i < NEDGE; ++i) {
+                for (const auto i: order) {
                     if (zero[i]) {
                         continue;
                     }
@@ -410,8 +422,9 @@ namespace dd {
                         max    = ComplexNumbers::mag2(e.p->e[i].w);
                         maxc   = e.p->e[i].w;
                     } else {
-                        auto mag = ComplexNumbers::mag2(e.p->e[i].w);
-                        if (mag - max > ComplexTable<>::tolerance()) {
+                        auto       mag         = ComplexNumbers::mag2(e.p->e[i].w);
+                        const auto offDiagonal = reducedDensityNode && (i == 1U || i == 2U);
+                        if (mag - (offDiagonal ? offDiagonalMargin * max : max) > ComplexTable<>::tolerance()) {
                             argmax = static_cast<decltype(argmax)>(i);
                             max    = mag;
                             maxc   = e.p->e[i].w;
@@ -1337,7 +1350,7 @@ namespace dd {
         }
 
         template<class Node>
-        Edge<Node> add2(const Edge<Node>& x, const Edge<Node>& y) {
+        Edge<Node> add2(const Edge<Node>& x, const Edge<Node>& y, [[maybe_unused]] const bool generateDensityMatrix = false) {
             if (x.p == nullptr) {
                 return y;
             }
@@ -1412,7 +1425,7 @@ namespace dd {
 
                 if constexpr (std::is_same_v<Node, dNode>) {
                     dEdge::applyDmChangesToEdges(e1, e2);
-                    edge[i] = add2(e1, e2);
+                    edge[i] = add2(e1, e2, generateDensityMatrix && (i == 0U || i == 3U));
                     dEdge::revertDmChangesToEdges(e1, e2);
                 } else {
                     edge[i] = add2(e1, e2);
@@ -1427,7 +1440,7 @@ namespace dd {
                 }
             }
 
-            auto e = makeDDNode(w, edge, true);
+            auto e = makeDDNode(w, edge, true, generateDensityMatrix);
 
             //           if (r.p != nullptr && e.p != r.p){ // activate for debugging caching only
             //               std::cout << "Caching error detected in add" << std::endl;
@@ -1722,7 +1735,7 @@ namespace dd {
                             } else if (!m.w.exactlyZero()) {
                                 dEdge::applyDmChangesToEdges(edge[idx], m);
                                 auto oldE = edge[idx];
-                                edge[idx] = add2(edge[idx], m);
+                                edge[idx] = add2(edge[idx], m, generateDensityMatrix && idx != 1);
                                 dEdge::revertDmChangesToEdges(edge[idx], e2);
                                 cn.returnToCache(oldE.w);
                                 cn.returnToCache(m.w);
-- 
2.43.0


From f472d18fae51b9f8a55e970b951bcc6a85ff8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 13/47] fix: cached density matrix results must not be mistaken
 for plain ones

---
 include/dd/ComputeTable.hpp | 15 +++++++--------
 include/dd/Package.hpp      |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/dd/ComputeTable.hpp b/include/dd/ComputeTable.hpp
index 27c72ea..aa6153d 100644
--- a/include/dd/ComputeTable.hpp
+++ b/include/dd/ComputeTable.hpp
@@ -30,6 +30,7 @@ namespace dd {
             LeftOperandType  leftOperand;
             RightOperandType rightOperand;
             ResultType       result;
+            bool             densityMatrix; // whether the result is a reduced density matrix
         };
 
         static constexpr std::size_t MASK = NBUCKET - 1;
@@ -44,13 +45,13 @@ namespace dd {
         // access functions
         [[nodiscard]] const auto& getTable() const { return table; }
 
-        void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result) {
+        void insert(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const ResultType& result, const bool useDensityMatrix = false) {
             const auto key = hash(leftOperand, rightOperand);
-            table[key]     = {toTableKey(leftOperand), toTableKey(rightOperand), result};
+            table[key]     = {toTableKey(leftOperand), toTableKey(rightOperand), result, useDensityMatrix};
             ++count;
         }
 
-        ResultType lookup(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, [[maybe_unused]] const bool useDensityMatrix = false) {
+        ResultType lookup(const LeftOperandType& leftOperand, const RightOperandType& rightOperand, const bool useDensityMatrix = false) {
             ResultType result{};
             lookups++;
             const auto key   = hash(leftOperand, rightOperand);
@@ -65,11 +66,9 @@ namespace dd {
                 return result;
             }
 
-            if constexpr (std::is_same_v<RightOperandType, dEdge>) {
-                // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
-                if (dNode::isDensityMatrixNode(entry.result.p->flags) != useDensityMatrix) {
-                    return result;
-                }
+            // Since density matrices are reduced representations of matrices, a density matrix may not be returned when a matrix is required and vice versa
+            if (entry.densityMatrix != useDensityMatrix) {
+                return result;
             }
             hits++;
             return entry.result;
diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index dcd3cf2..869c5ac 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1382,7 +1382,7 @@ namespace dd {
             }
 
             auto& computeTable = getAddComputeTable<Node>();
-            auto  r            = computeTable.lookup({x.p, x.w}, {y.p, y.w});
+            auto  r            = computeTable.lookup({x.p, x.w}, {y.p, y.w}, generateDensityMatrix);
             //           if (r.p != nullptr && false) { // activate for debugging caching only
             if (r.p != nullptr) {
                 if (r.w.approximatelyZero()) {
@@ -1446,7 +1446,7 @@ namespace dd {
             //               std::cout << "Caching error detected in add" << std::endl;
             //           }
 
-            computeTable.insert({x.p, x.w}, {y.p, y.w}, {e.p, e.w});
+            computeTable.insert({x.p, x.w}, {y.p, y.w}, {e.p, e.w}, generateDensityMatrix);
             return e;
         }
 
@@ -1763,7 +1763,7 @@ namespace dd {
             //                std::cout << "Caching error detected in mul" << std::endl;
             //            }
 
-            computeTable.insert(xCopy, yCopy, {e.p, e.w});
+            computeTable.insert(xCopy, yCopy, {e.p, e.w}, generateDensityMatrix);
 
             if (!e.w.exactlyZero() && (x.w.exactlyOne() || !y.w.exactlyZero())) {
                 if (e.w.exactlyOne()) {
-- 
2.43.0


From 2f4b891163f9ffb8faf6d168eb180f8f477259f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 14/47] fix: getProbVectorFromDensityMatrix must consider
 complex weights on the diagonal

---
 include/dd/Package.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 869c5ac..84078d1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2620,27 +2620,20 @@ namespace dd {
             std::map<std::string, dd::fp> measuredResult  = {};
             for (std::size_t m = 0; m < statesToMeasure; m++) {
                 std::size_t currentResult     = m;
-                auto        globalProbability = dd::CTEntry::val(e.w.r);
+                auto        amplitude         = std::complex<dd::fp>{dd::CTEntry::val(e.w.r), dd::CTEntry::val(e.w.i)};
                 auto        resultString      = intToString(m, '1', e.p->v + 1);
                 dEdge       cur               = e;
                 for (dd::Qubit i = 0; i < e.p->v + 1; ++i) {
-                    if (cur.p->v == -1 || globalProbability <= measurementThreshold) {
-                        globalProbability = 0;
+                    if (cur.p->v == -1 || std::abs(amplitude) <= measurementThreshold) {
+                        amplitude = 0;
                         break;
                     }
-                    assert(dd::CTEntry::approximatelyZero(cur.p->e.at(0).w.i) && dd::CTEntry::approximatelyZero(cur.p->e.at(3).w.i));
-                    auto p0 = dd::CTEntry::val(cur.p->e.at(0).w.r);
-                    auto p1 = dd::CTEntry::val(cur.p->e.at(3).w.r);
-
-                    if (currentResult % 2 == 0) {
-                        cur = cur.p->e.at(0);
-                        globalProbability *= p0;
-                    } else {
-                        cur = cur.p->e.at(3);
-                        globalProbability *= p1;
-                    }
+                    // the entries on the diagonal are real, but the weights leading to them need not be
+                    cur = cur.p->e.at(currentResult % 2 == 0 ? 0U : 3U);
+                    amplitude *= std::complex<dd::fp>{dd::CTEntry::val(cur.w.r), dd::CTEntry::val(cur.w.i)};
                     currentResult = currentResult >> 1;
                 }
+                const auto globalProbability = amplitude.real();
                 if (globalProbability > 0) { // No need to track probabilities of 0
                     measuredResult.insert({resultString, globalProbability});
                 }
-- 
2.43.0


From 38276dbd926b18f0c666c7aa5f72cd2ff8b652da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 15/47] fix: transfer must not lose the weight of a child that
 is normalized differently

---
 include/dd/Package.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 84078d1..21bd4a9 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2902,7 +2902,7 @@ namespace dd {
             Edge              root{};
             std::stack<Edge*> stack;
 
-            std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
+            std::unordered_map<decltype(original.p), Edge> mappedNode{};
 
             Edge* currentEdge = &original;
             if (!currentEdge->isTerminal()) {
@@ -2959,15 +2959,20 @@ namespace dd {
                         }
                         std::array<Edge, n> edges{};
                         for (std::size_t i = 0; i < n; i++) {
-                            if (currentEdge->p->e[i].isTerminal()) {
-                                edges[i].p = currentEdge->p->e[i].p;
+                            const auto& child = currentEdge->p->e[i];
+                            if (child.isTerminal()) {
+                                edges[i].p = child.p;
+                                edges[i].w = cn.lookup(child.w);
                             } else {
-                                edges[i].p = mappedNode[currentEdge->p->e[i].p];
+                                // the transferred child might have been normalized differently
+                                const auto& mapped = mappedNode[child.p];
+                                auto        c      = cn.getTemporary(CTEntry::val(child.w.r), CTEntry::val(child.w.i));
+                                ComplexNumbers::mul(c, c, mapped.w);
+                                edges[i] = {mapped.p, cn.lookup(c)};
                             }
-                            edges[i].w = cn.lookup(currentEdge->p->e[i].w);
                         }
                         root                       = makeDDNode(currentEdge->p->v, edges);
-                        mappedNode[currentEdge->p] = root.p;
+                        mappedNode[currentEdge->p] = root;
                         currentEdge                = nullptr;
                     }
                 } while (!stack.empty());
-- 
2.43.0


From d744c3253e4baaef87b78b5d7d47bf53154ea39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 16/47] fix: an edge whose weight vanishes during normalization
 must be the zero edge

---
 include/dd/Package.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 21bd4a9..61cafb3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -478,6 +478,9 @@ namespace dd {
                         auto c = cn.getTemporary();
                         ComplexNumbers::div(c, r.p->e[i].w, maxc);
                         r.p->e[i].w = cn.lookup(c);
+                        if (r.p->e[i].w == Complex::zero) {
+                            r.p->e[i] = Edge<Node>::zero;
+                        }
                     }
                 }
                 return r;
-- 
2.43.0


From e4f149bf52e407d529c8064629e0b4198a3b879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 17/47] fix: lookup must not return a negative pointer to zero

---
 include/dd/ComplexNumbers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexNumbers.hpp b/include/dd/ComplexNumbers.hpp
index 6a45318..dee28a7 100644
--- a/include/dd/ComplexNumbers.hpp
+++ b/include/dd/ComplexNumbers.hpp
@@ -160,7 +160,7 @@ namespace dd {
             if (signR) {
                 auto absr = std::abs(r);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absr < decltype(complexTable)::tolerance()) {
+                if (absr <= decltype(complexTable)::tolerance()) {
                     ret.r = &decltype(complexTable)::zero;
                 } else {
                     ret.r = CTEntry::getNegativePointer(complexTable.lookup(absr));
@@ -173,7 +173,7 @@ namespace dd {
             if (signI) {
                 auto absi = std::abs(i);
                 // if absolute value is close enough to zero, just return the zero entry (avoiding -0.0)
-                if (absi < decltype(complexTable)::tolerance()) {
+                if (absi <= decltype(complexTable)::tolerance()) {
                     ret.i = &decltype(complexTable)::zero;
                 } else {
                     ret.i = CTEntry::getNegativePointer(complexTable.lookup(absi));
-- 
2.43.0


From b3d23fa54ffefd743bfb2e6391cd03edba50107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 18/47] fix: hash of large numbers must not overflow

---
 include/dd/ComplexTable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 0f29cb1..632b7bf 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -130,8 +130,8 @@ namespace dd {
         // linear (clipped) hash function
         static constexpr std::int64_t hash(const fp val) {
             assert(val >= 0);
-            auto key = static_cast<std::int64_t>(std::nearbyint(val * MASK));
-            return std::min<std::int64_t>(key, MASK);
+            // clip before converting since large values cannot be represented as an integer
+            return static_cast<std::int64_t>(std::nearbyint(std::min(val, static_cast<fp>(1.)) * MASK));
         }
 
         // access functions
-- 
2.43.0


From 3bb0b790036e39db0b52815f446e1d41aae21c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 19/47] fix: graph export must not assign the same identifier
 to different nodes

---
 include/dd/Export.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index eb3c2b5..8a37934 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -162,7 +162,7 @@ namespace dd {
         os << "digraph \"DD\" {graph[];node[shape=plain];edge[arrowhead=none]\n";
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << "root->";
         if (e.isTerminal()) {
             os << "t";
@@ -187,7 +187,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -209,7 +209,7 @@ namespace dd {
         os << "root [label=\"\",shape=point,style=invis]\n";
         os << "t [label=<<font point-size=\"20\">1</font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-        auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+        auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         auto mag      = thicknessFromMagnitude(e.w);
         auto color    = colorFromPhase(e.w);
         os << "root->";
@@ -253,7 +253,7 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& modernNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")" << conditionalFormat(e.p->e[0].w, formatAsPolar) << "\">" << (e.p->e[0].w.approximatelyZero() ? "&nbsp;0 " : "<font color=\"white\">&nbsp;0 </font>")
@@ -270,7 +270,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& modernNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
         os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -280,7 +280,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const mEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -318,7 +318,7 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& classicNode(const vEdge& e, std::ostream& os, bool formatAsPolar = true) {
-        auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
         os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
         os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)" << static_cast<std::size_t>(e.p->v) << R"(</font></sub></font></td></tr><tr>)";
@@ -342,7 +342,7 @@ namespace dd {
     template<class Edge>
     static std::ostream& memoryNode(const Edge& e, std::ostream& os) {
         constexpr std::size_t n         = std::tuple_size_v<decltype(e.p->e)>;
-        auto                  nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U; // this allows for 2^20 (roughly 1e6) unique nodes
+        auto                  nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
         os << nodelabel << "[label=<";
         os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
         os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex << reinterpret_cast<std::uintptr_t>(e.p) << std::dec << " ref: " << e.p->ref << "</td></tr>";
@@ -364,8 +364,8 @@ namespace dd {
     }
 
     [[maybe_unused]] static std::ostream& bwEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -405,8 +405,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& bwEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -429,8 +429,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const mEdge& from, const mEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         if (classic) {
@@ -468,8 +468,8 @@ namespace dd {
         return os;
     }
     [[maybe_unused]] static std::ostream& coloredEdge(const vEdge& from, const vEdge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false, [[maybe_unused]] bool classic = false, bool formatAsPolar = true) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":";
         os << (idx == 0 ? "sw" : "se") << "->";
@@ -491,8 +491,8 @@ namespace dd {
     }
     template<class Edge>
     static std::ostream& memoryEdge(const Edge& from, const Edge& to, std::uint16_t idx, std::ostream& os, bool edgeLabels = false) {
-        auto fromlabel = (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-        auto tolabel   = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+        auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+        auto tolabel   = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
         os << fromlabel << ":" << idx << ":s->";
         if (to.isTerminal()) {
-- 
2.43.0


From b5cb2d34692c625e3ad73f9dcea8a905fd5008d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 20/47] fix: serialize must write all children of a vector node

---
 include/dd/Export.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index 8a37934..0f50c91 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -664,6 +664,11 @@ namespace dd {
                 node = stack.top();
                 stack.pop();
 
+                // nodes that have been written in the meantime must not hide the remaining children
+                while (!stack.empty() && nodeIndex.find(stack.top()->p) != nodeIndex.end()) {
+                    stack.pop();
+                }
+
                 bool hasChild = false;
                 for (auto i = 1U; i < RADIX && !hasChild; ++i) {
                     auto& edge = node->p->e.at(i);
-- 
2.43.0


From 00e429b59ec34ddd5c72331f6ebfede46785cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 21/47] fix: hash of large numbers: avoid a compiler warning

---
 include/dd/ComplexTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index 632b7bf..afef46a 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -131,7 +131,7 @@ namespace dd {
         static constexpr std::int64_t hash(const fp val) {
             assert(val >= 0);
             // clip before converting since large values cannot be represented as an integer
-            return static_cast<std::int64_t>(std::nearbyint(std::min(val, static_cast<fp>(1.)) * MASK));
+            return static_cast<std::int64_t>(std::nearbyint(std::min(val, fp{1}) * MASK));
         }
 
         // access functions
-- 
2.43.0


From b481b448c68de0bb337b0ac9c3dbe48796ffa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 22/47] fix: deserialize must not lose the weight of a node
 that is normalized differently

---
 include/dd/Package.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 61cafb3..6b7a2e1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3001,11 +3001,11 @@ namespace dd {
             auto         result = Edge::zero;
             ComplexValue rootweight{};
 
-            std::unordered_map<std::int64_t, Node*> nodes{};
-            std::int64_t                            nodeIndex{};
-            Qubit                                   v{};
-            std::array<ComplexValue, N>             edgeWeights{};
-            std::array<std::int64_t, N>             edgeIndices{};
+            std::unordered_map<std::int64_t, Edge> nodes{};
+            std::int64_t                           nodeIndex{};
+            Qubit                                  v{};
+            std::array<ComplexValue, N>            edgeWeights{};
+            std::array<std::int64_t, N>            edgeIndices{};
             edgeIndices.fill(-2);
 
             if (readBinary) {
@@ -3025,7 +3025,7 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             } else {
                 std::string version;
@@ -3085,7 +3085,7 @@ namespace dd {
                         edgeWeights[i].fromString(m.str(edgeIdx + 3), m.str(edgeIdx + 4));
                     }
 
-                    result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
             }
 
@@ -3110,7 +3110,7 @@ namespace dd {
 
     private:
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
-        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Node*>& nodes) {
+        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
             if (index == -1) {
                 return Edge::zero;
             }
@@ -3120,17 +3120,16 @@ namespace dd {
                 if (edgeIdx[i] == -2) {
                     edges[i] = Edge::zero;
                 } else {
-                    if (edgeIdx[i] == -1) {
-                        edges[i] = Edge::one;
-                    } else {
-                        edges[i].p = nodes[edgeIdx[i]];
-                    }
-                    edges[i].w = cn.lookup(edgeWeight[i]);
+                    edges[i] = edgeIdx[i] == -1 ? Edge::one : nodes[edgeIdx[i]];
+                    // the node might have been normalized differently when it was serialized
+                    auto c = cn.getTemporary(edgeWeight[i]);
+                    ComplexNumbers::mul(c, c, edges[i].w);
+                    edges[i].w = cn.lookup(c);
                 }
             }
 
             auto newedge = makeDDNode(v, edges);
-            nodes[index] = newedge.p;
+            nodes[index] = newedge;
 
             // reset
             edgeIdx.fill(-2);
-- 
2.43.0


From 4ad372f3f222b6bda2e777288980c3c24cf223fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 23/47] fix: deserialize must report streams that end
 unexpectedly

---
 include/dd/Package.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 6b7a2e1..5b25de1 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3011,12 +3011,13 @@ namespace dd {
             if (readBinary) {
                 std::remove_const_t<decltype(SERIALIZATION_VERSION)> version{};
                 is.read(reinterpret_cast<char*>(&version), sizeof(decltype(SERIALIZATION_VERSION)));
-                if (version != SERIALIZATION_VERSION) {
+                if (!is || version != SERIALIZATION_VERSION) {
                     throw std::runtime_error("Wrong Version of serialization file version. version of file: " + std::to_string(version) + "; current version: " + std::to_string(SERIALIZATION_VERSION));
                 }
 
-                if (!is.eof()) {
-                    rootweight.readBinary(is);
+                rootweight.readBinary(is);
+                if (!is) {
+                    throw std::runtime_error("Serialized decision diagram ends unexpectedly");
                 }
 
                 while (is.read(reinterpret_cast<char*>(&nodeIndex), sizeof(decltype(nodeIndex)))) {
@@ -3025,8 +3026,15 @@ namespace dd {
                         is.read(reinterpret_cast<char*>(&edgeIndices[i]), sizeof(decltype(edgeIndices[i])));
                         edgeWeights[i].readBinary(is);
                     }
+                    if (!is) {
+                        throw std::runtime_error("Serialized decision diagram ends unexpectedly");
+                    }
                     result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
                 }
+                // the last read has to fail at the end of a node
+                if (is.gcount() != 0) {
+                    throw std::runtime_error("Serialized decision diagram ends unexpectedly");
+                }
             } else {
                 std::string version;
                 std::getline(is, version);
@@ -3048,12 +3056,13 @@ namespace dd {
                 std::smatch      m;
 
                 std::string line;
-                if (std::getline(is, line)) {
-                    if (!std::regex_match(line, m, complexWeightRegex)) {
-                        throw std::runtime_error("Regex did not match second line: " + line);
-                    }
-                    rootweight.fromString(m.str(1), m.str(2));
+                if (!std::getline(is, line)) {
+                    throw std::runtime_error("Serialized decision diagram ends unexpectedly");
                 }
+                if (!std::regex_match(line, m, complexWeightRegex)) {
+                    throw std::runtime_error("Regex did not match second line: " + line);
+                }
+                rootweight.fromString(m.str(1), m.str(2));
 
                 while (std::getline(is, line)) {
                     if (line.empty() || line.size() == 1) {
@@ -3089,6 +3098,10 @@ namespace dd {
                 }
             }
 
+            if (is.bad()) {
+                throw std::runtime_error("Serialized decision diagram could not be read completely");
+            }
+
             auto w = cn.getCached(rootweight.r, rootweight.i);
             ComplexNumbers::mul(w, result.w, w);
             result.w = cn.lookup(w);
-- 
2.43.0


From b4c6c569607d550b0c8e0d321435260e47663f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 24/47] fix: deserialize must reject damaged input instead of
 building malformed diagrams

---
 include/dd/Package.hpp | 72 +++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 5b25de1..85200d5 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3004,6 +3004,7 @@ namespace dd {
             std::unordered_map<std::int64_t, Edge> nodes{};
             std::int64_t                           nodeIndex{};
             Qubit                                  v{};
+            Qubit                                  lowest = -1;
             std::array<ComplexValue, N>            edgeWeights{};
             std::array<std::int64_t, N>            edgeIndices{};
             edgeIndices.fill(-2);
@@ -3029,7 +3030,7 @@ namespace dd {
                     if (!is) {
                         throw std::runtime_error("Serialized decision diagram ends unexpectedly");
                     }
-                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, lowest, edgeIndices, edgeWeights, nodes);
                 }
                 // the last read has to fail at the end of a node
                 if (is.gcount() != 0) {
@@ -3065,7 +3066,7 @@ namespace dd {
                 rootweight.fromString(m.str(1), m.str(2));
 
                 while (std::getline(is, line)) {
-                    if (line.empty() || line.size() == 1) {
+                    if (line.empty() || line == "\r") {
                         continue;
                     }
 
@@ -3083,7 +3084,11 @@ namespace dd {
                     // match 6: real
                     // match 7: imag (without i)
                     nodeIndex = std::stoi(m.str(1));
-                    v         = static_cast<Qubit>(std::stoi(m.str(2)));
+                    const auto level = std::stoi(m.str(2));
+                    if (level > std::numeric_limits<Qubit>::max()) {
+                        throw std::runtime_error("Serialized decision diagram contains an invalid level: " + m.str(2));
+                    }
+                    v = static_cast<Qubit>(level);
 
                     for (auto edgeIdx = 3U, i = 0U; i < N; i++, edgeIdx += 5) {
                         if (m.str(edgeIdx).empty()) {
@@ -3094,7 +3099,7 @@ namespace dd {
                         edgeWeights[i].fromString(m.str(edgeIdx + 3), m.str(edgeIdx + 4));
                     }
 
-                    result = deserializeNode<Node>(nodeIndex, v, edgeIndices, edgeWeights, nodes);
+                    result = deserializeNode<Node>(nodeIndex, v, lowest, edgeIndices, edgeWeights, nodes);
                 }
             }
 
@@ -3102,6 +3107,8 @@ namespace dd {
                 throw std::runtime_error("Serialized decision diagram could not be read completely");
             }
 
+            checkDeserializedWeight(rootweight);
+            checkDeserializedWeight({CTEntry::val(result.w.r), CTEntry::val(result.w.i)});
             auto w = cn.getCached(rootweight.r, rootweight.i);
             ComplexNumbers::mul(w, result.w, w);
             result.w = cn.lookup(w);
@@ -3122,22 +3129,57 @@ namespace dd {
         }
 
     private:
+        // weights that are not finite or whose squares cannot be represented do not stem from a decision diagram
+        static void checkDeserializedWeight(const ComplexValue& w) {
+            static const auto LIMIT = std::sqrt(std::sqrt(std::numeric_limits<fp>::max()));
+            if (!(std::abs(w.r) < LIMIT && std::abs(w.i) < LIMIT)) {
+                throw std::runtime_error("Serialized decision diagram contains an invalid weight");
+            }
+        }
+
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
-        Edge deserializeNode(std::int64_t index, Qubit v, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
-            if (index == -1) {
-                return Edge::zero;
+        Edge deserializeNode(std::int64_t index, Qubit v, Qubit& lowest, std::array<std::int64_t, N>& edgeIdx, std::array<ComplexValue, N>& edgeWeight, std::unordered_map<std::int64_t, Edge>& nodes) {
+            if (index < 0) {
+                throw std::runtime_error("Serialized decision diagram contains an invalid node index: " + std::to_string(index));
+            }
+            if (v < 0 || static_cast<std::size_t>(v) >= nqubits) {
+                throw std::runtime_error("Serialized decision diagram contains an invalid level: " + std::to_string(v));
+            }
+            // children precede their parents
+            if (nodes.empty()) {
+                lowest = v;
             }
 
             std::array<Edge, N> edges{};
             for (auto i = 0U; i < N; ++i) {
-                if (edgeIdx[i] == -2) {
-                    edges[i] = Edge::zero;
-                } else {
-                    edges[i] = edgeIdx[i] == -1 ? Edge::one : nodes[edgeIdx[i]];
-                    // the node might have been normalized differently when it was serialized
-                    auto c = cn.getTemporary(edgeWeight[i]);
-                    ComplexNumbers::mul(c, c, edges[i].w);
-                    edges[i].w = cn.lookup(c);
+                edges[i] = Edge::zero;
+                if (edgeIdx[i] == -2 || edgeWeight[i].approximatelyZero()) {
+                    continue;
+                }
+                checkDeserializedWeight(edgeWeight[i]);
+
+                auto child = Edge::one;
+                if (edgeIdx[i] != -1) {
+                    const auto it = nodes.find(edgeIdx[i]);
+                    if (it == nodes.end()) {
+                        throw std::runtime_error("Serialized decision diagram contains an edge to an unknown node: " + std::to_string(edgeIdx[i]));
+                    }
+                    child = it->second;
+                }
+                if (child.w.exactlyZero()) {
+                    continue;
+                }
+                if (child.isTerminal() ? v != lowest : child.p->v != v - 1) {
+                    throw std::runtime_error("Serialized decision diagram contains an edge that skips levels");
+                }
+
+                // the node might have been normalized differently when it was serialized
+                auto c = cn.getTemporary(edgeWeight[i]);
+                ComplexNumbers::mul(c, c, child.w);
+                checkDeserializedWeight({c.r->value, c.i->value});
+                child.w = cn.lookup(c);
+                if (!child.w.exactlyZero()) {
+                    edges[i] = child;
                 }
             }
 
-- 
2.43.0


From f5314b1775f9617008158bf312edc6e9470e4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 25/47] fix: deleteEdge must return the zero edge if the weight
 vanishes

---
 include/dd/Package.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 85200d5..c61c7bb 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1092,6 +1092,9 @@ namespace dd {
                 auto w = cn.getTemporary();
                 dd::ComplexNumbers::mul(w, newedge.w, e.w);
                 newedge.w = cn.lookup(w);
+                if (newedge.w == Complex::zero) {
+                    return Edge<Node>::zero;
+                }
             }
 
             return newedge;
-- 
2.43.0


From 89f77fc9df3a150665221d48d2182ef144e16ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 26/47] fix: writing to a file must report failures

---
 include/dd/Export.hpp  | 13 +++++++++++++
 include/dd/Package.hpp | 10 +++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index 0f50c91..5697987 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -609,9 +609,17 @@ namespace dd {
     template<class Edge>
     [[maybe_unused]] static void export2Dot(Edge basic, const std::string& outputFilename, bool colored = true, bool edgeLabels = false, bool classic = false, bool memory = false, bool show = true, bool formatAsPolar = true) {
         std::ofstream init(outputFilename);
+        if (!init.good()) {
+            throw std::invalid_argument("Cannot open file: " + outputFilename);
+        }
+
         toDot(basic, init, colored, edgeLabels, classic, memory, formatAsPolar);
         init.close();
 
+        if (!init.good()) {
+            throw std::runtime_error("Cannot write file: " + outputFilename);
+        }
+
         if (show) {
             std::ostringstream oss;
             oss << "dot -Tsvg " << outputFilename << " -o " << outputFilename.substr(0, outputFilename.find_last_of('.')) << ".svg";
@@ -789,6 +797,11 @@ namespace dd {
         }
 
         serialize(basic, ofs, writeBinary);
+        ofs.close();
+
+        if (!ofs.good()) {
+            throw std::runtime_error("Cannot write file: " + outputFilename);
+        }
     }
 
     template<typename Edge>
diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index c61c7bb..970c348 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2838,13 +2838,21 @@ namespace dd {
             cn.returnToCache(weight);
         }
         void exportAmplitudes(const vEdge& edge, const std::string& outputFilename, dd::QubitCount nq, bool binary = false) {
-            std::ofstream      init(outputFilename);
+            std::ofstream init(outputFilename);
+            if (!init.good()) {
+                throw std::invalid_argument("Cannot open file: " + outputFilename);
+            }
+
             std::ostringstream oss{};
 
             exportAmplitudes(edge, oss, nq, binary);
 
             init << oss.str() << std::flush;
             init.close();
+
+            if (!init.good()) {
+                throw std::runtime_error("Cannot write file: " + outputFilename);
+            }
         }
 
         void exportAmplitudesRec(const vEdge& edge, std::vector<std::complex<dd::fp>>& amplitudes, Complex& amplitude, dd::QubitCount level, std::size_t idx) {
-- 
2.43.0


From b9515fe21c81c92882d5c71b0364ad3b69248938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 27/47] fix: exports must not silently lose data if an
 allocation fails

---
 include/dd/ComplexValue.hpp | 1 +
 include/dd/Export.hpp       | 4 ++++
 include/dd/Package.hpp      | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/include/dd/ComplexValue.hpp b/include/dd/ComplexValue.hpp
index 00d9444..d411bee 100644
--- a/include/dd/ComplexValue.hpp
+++ b/include/dd/ComplexValue.hpp
@@ -178,6 +178,7 @@ namespace dd {
 
         static std::string toString(const fp& real, const fp& imag, bool formatted = true, int precision = -1) {
             std::ostringstream ss{};
+            ss.exceptions(std::ios::badbit);
 
             if (precision >= 0) {
                 ss << std::setprecision(precision);
diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index 5697987..c35fabf 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -36,6 +36,7 @@ namespace dd {
             phase += 1.;
         }
         std::ostringstream oss{};
+        oss.exceptions(std::ios::badbit);
         oss << std::fixed << std::setprecision(3) << phase << " " << 0.667 << " " << 0.75;
         return oss.str();
     }
@@ -122,6 +123,7 @@ namespace dd {
         }
 
         std::ostringstream ss{};
+        ss.exceptions(std::ios::badbit);
         // magnitude is (almost) 1
         if (std::abs(mag - 1) < ComplexTable<>::tolerance()) {
             if (std::abs(phase) < ComplexTable<>::tolerance()) {
@@ -539,6 +541,8 @@ namespace dd {
     template<class Edge>
     static void toDot(const Edge& e, std::ostream& os, bool colored = true, bool edgeLabels = false, bool classic = false, bool memory = false, bool formatAsPolar = true) {
         std::ostringstream oss{};
+        // report a failing allocation instead of silently truncating the graph
+        oss.exceptions(std::ios::badbit);
         // header, root and terminal declaration
 
         if (memory) {
diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 970c348..50275d7 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2844,6 +2844,8 @@ namespace dd {
             }
 
             std::ostringstream oss{};
+            // report a failing allocation instead of silently truncating the data
+            oss.exceptions(std::ios::badbit);
 
             exportAmplitudes(edge, oss, nq, binary);
 
-- 
2.43.0


From 6e1fff8f47ca6589c7b9c714f9521e97fb33f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 28/47] fix: measureAll must keep the state if building the
 collapsed one fails

---
 include/dd/Package.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 50275d7..aa5b37e 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1164,8 +1164,6 @@ namespace dd {
             }
 
             if (collapse) {
-                decRef(rootEdge);
-
                 vEdge                e = vEdge::one;
                 std::array<vEdge, 2> edges{};
 
@@ -1180,6 +1178,7 @@ namespace dd {
                     e = makeDDNode(p, edges, false);
                 }
                 incRef(e);
+                decRef(rootEdge);
                 rootEdge = e;
                 garbageCollect();
             }
-- 
2.43.0


From 95905cf038797c77622a17c66c2409f5c406bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 29/47] fix: resize must not announce a size that the tables do
 not provide

---
 include/dd/Package.hpp                       | 11 ++++++-----
 include/dd/StochasticNoiseOperationTable.hpp |  2 +-
 include/dd/UniqueTable.hpp                   |  2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index aa5b37e..20c5e62 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -106,12 +106,13 @@ namespace dd {
                                             std::to_string(MAX_POSSIBLE_QUBITS) + " qubits, while " +
                                             std::to_string(nq) + " were requested. Please recompile the package with a wider Qubit type!");
             }
+            // the new size only takes effect once all tables provide for it
+            vUniqueTable.resize(nq);
+            mUniqueTable.resize(nq);
+            dUniqueTable.resize(nq);
+            stochasticNoiseOperationCache.resize(nq);
+            idTable.resize(nq);
             nqubits = nq;
-            vUniqueTable.resize(nqubits);
-            mUniqueTable.resize(nqubits);
-            dUniqueTable.resize(nqubits);
-            stochasticNoiseOperationCache.resize(nqubits);
-            idTable.resize(nqubits);
         }
 
         // reset package state
diff --git a/include/dd/StochasticNoiseOperationTable.hpp b/include/dd/StochasticNoiseOperationTable.hpp
index ccd5a5b..9bc4e58 100644
--- a/include/dd/StochasticNoiseOperationTable.hpp
+++ b/include/dd/StochasticNoiseOperationTable.hpp
@@ -26,8 +26,8 @@ namespace dd {
         [[nodiscard]] const auto& getTable() const { return table; }
 
         void resize(std::size_t nq) {
+            table.resize(nq);
             nvars = nq;
-            table.resize(nvars);
         }
 
         void insert(std::uint8_t kind, Qubit target, const Edge& r) {
diff --git a/include/dd/UniqueTable.hpp b/include/dd/UniqueTable.hpp
index 733e657..787b7ee 100644
--- a/include/dd/UniqueTable.hpp
+++ b/include/dd/UniqueTable.hpp
@@ -42,10 +42,10 @@ namespace dd {
         static constexpr std::size_t MASK = NBUCKET - 1;
 
         void resize(std::size_t nq) {
-            nvars = nq;
             tables.resize(nq);
             // TODO: if the new size is smaller than the old one we might have to release the unique table entries for the superfluous variables
             active.resize(nq);
+            nvars           = nq;
             activeNodeCount = std::accumulate(active.begin(), active.end(), 0UL);
         }
 
-- 
2.43.0


From 0d8884d9ab986c396fef4e0ce326ee7597a81098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 30/47] fix: temporary changes of density matrix nodes must be
 reverted if an operation fails

---
 include/dd/Node.hpp    | 26 ++++++++++++++++++++++++++
 include/dd/Package.hpp | 36 ++++++++++++++----------------------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/include/dd/Node.hpp b/include/dd/Node.hpp
index 9647460..4405fdd 100644
--- a/include/dd/Node.hpp
+++ b/include/dd/Node.hpp
@@ -208,6 +208,32 @@ namespace dd {
     // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
     inline dNode dNode::terminalNode{{{{nullptr, Complex::zero}, {nullptr, Complex::zero}, {nullptr, Complex::zero}, {nullptr, Complex::zero}}}, nullptr, 0, -1, 0};
 
+    /// Applies the temporary modifications to the nodes of up to two edges and guarantees that they are reverted again
+    /// (even if the operation that requires them fails)
+    class DmChanges {
+    public:
+        explicit DmChanges(dEdge& edge):
+            x(&edge) {
+            dEdge::applyDmChangesToEdge(*x);
+        }
+        DmChanges(dEdge& edge1, dEdge& edge2):
+            x(&edge1), y(&edge2) {
+            dEdge::applyDmChangesToEdges(*x, *y);
+        }
+        ~DmChanges() {
+            dEdge::revertDmChangesToEdge(*x);
+            if (y != nullptr) {
+                dEdge::revertDmChangesToEdge(*y);
+            }
+        }
+        DmChanges(const DmChanges&)            = delete;
+        DmChanges& operator=(const DmChanges&) = delete;
+
+    private:
+        dEdge* x{};
+        dEdge* y{};
+    };
+
     /// Operands as they are stored in the tables of computed results. The meaning of an operand of the density matrix
     /// operations depends on the temporary flags its node currently carries (e.g., whether it is conjugated). These
     /// flags are not part of an edge and, hence, have to be recorded as a tag of the pointer.
diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 20c5e62..07f16f3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -1430,9 +1430,8 @@ namespace dd {
                 }
 
                 if constexpr (std::is_same_v<Node, dNode>) {
-                    dEdge::applyDmChangesToEdges(e1, e2);
+                    const DmChanges changes(e1, e2);
                     edge[i] = add2(e1, e2, generateDensityMatrix && (i == 0U || i == 3U));
-                    dEdge::revertDmChangesToEdges(e1, e2);
                 } else {
                     edge[i] = add2(e1, e2);
                 }
@@ -1572,7 +1571,8 @@ namespace dd {
             if constexpr (std::is_same_v<LeftOperand, dEdge>) {
                 auto xCopy = x;
                 auto yCopy = y;
-                dEdge::applyDmChangesToEdges(xCopy, yCopy);
+
+                const DmChanges changes(xCopy, yCopy);
 
                 if (!xCopy.isTerminal()) {
                     var = xCopy.p->v;
@@ -1582,9 +1582,6 @@ namespace dd {
                 }
 
                 e = multiply2(xCopy, yCopy, var, start, generateDensityMatrix);
-
-                dEdge::revertDmChangesToEdges(xCopy, yCopy);
-
             } else {
                 if (!x.isTerminal()) {
                     var = x.p->v;
@@ -1717,8 +1714,8 @@ namespace dd {
                         }
 
                         if constexpr (std::is_same_v<LeftOperandNode, dNode>) {
-                            dEdge m;
-                            dEdge::applyDmChangesToEdges(e1, e2);
+                            dEdge           m;
+                            const DmChanges changes(e1, e2);
                             if (!generateDensityMatrix || idx == 1) {
                                 // When generateDensityMatrix is false or I have the first edge I don't optimize anything and set generateDensityMatrix to false for all child edges
                                 m = multiply2(e1, e2, static_cast<Qubit>(var - 1), start, false);
@@ -1739,15 +1736,13 @@ namespace dd {
                             if (k == 0 || edge[idx].w.exactlyZero()) {
                                 edge[idx] = m;
                             } else if (!m.w.exactlyZero()) {
-                                dEdge::applyDmChangesToEdges(edge[idx], m);
+                                const DmChanges summandChanges(edge[idx], m);
+
                                 auto oldE = edge[idx];
                                 edge[idx] = add2(edge[idx], m, generateDensityMatrix && idx != 1);
-                                dEdge::revertDmChangesToEdges(edge[idx], e2);
                                 cn.returnToCache(oldE.w);
                                 cn.returnToCache(m.w);
                             }
-                            //Undo modifications on density matrices
-                            dEdge::revertDmChangesToEdges(e1, e2);
                         } else {
                             auto m = multiply2(e1, e2, static_cast<Qubit>(var - 1), start);
 
@@ -2760,12 +2755,13 @@ namespace dd {
         CMat getDensityMatrix(dEdge& e) {
             // work on a copy since reverting the changes removes the flags from the edge
             auto root = e;
-            dEdge::applyDmChangesToEdge(root);
+
+            const DmChanges changes(root);
+
             const std::size_t dim = 2ULL << root.p->v;
             // allocate resulting matrix
             auto mat = CMat(dim, CVec(dim, {0.0, 0.0}));
             getDensityMatrix(root, Complex::one, 0, 0, mat);
-            dd::dEdge::revertDmChangesToEdge(root);
             return mat;
         }
 
@@ -2785,24 +2781,20 @@ namespace dd {
 
             // recursive case
             if (!e.p->e[0].w.approximatelyZero()) {
-                dEdge::applyDmChangesToEdge(e.p->e[0]);
+                const DmChanges changes(e.p->e[0]);
                 getDensityMatrix(e.p->e[0], c, i, j, mat);
-                dd::dEdge::revertDmChangesToEdge(e.p->e[0]);
             }
             if (!e.p->e[1].w.approximatelyZero()) {
-                dEdge::applyDmChangesToEdge(e.p->e[1]);
+                const DmChanges changes(e.p->e[1]);
                 getDensityMatrix(e.p->e[1], c, i, y, mat);
-                dd::dEdge::revertDmChangesToEdge(e.p->e[1]);
             }
             if (!e.p->e[2].w.approximatelyZero()) {
-                dEdge::applyDmChangesToEdge(e.p->e[2]);
+                const DmChanges changes(e.p->e[2]);
                 getDensityMatrix(e.p->e[2], c, x, j, mat);
-                dd::dEdge::revertDmChangesToEdge(e.p->e[2]);
             }
             if (!e.p->e[3].w.approximatelyZero()) {
-                dEdge::applyDmChangesToEdge(e.p->e[3]);
+                const DmChanges changes(e.p->e[3]);
                 getDensityMatrix(e.p->e[3], c, x, y, mat);
-                dd::dEdge::revertDmChangesToEdge(e.p->e[3]);
             }
 
             cn.returnToCache(c);
-- 
2.43.0


From 425b909e92c7366079ac24c14621faa65e194eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 31/47] fix: deserialize must not turn a decision diagram
 without nodes into zero

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 07f16f3..111b0d6 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -3003,7 +3003,7 @@ namespace dd {
 
         template<class Node, class Edge = Edge<Node>, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
         Edge deserialize(std::istream& is, bool readBinary = false) {
-            auto         result = Edge::zero;
+            auto         result = Edge::one;
             ComplexValue rootweight{};
 
             std::unordered_map<std::int64_t, Edge> nodes{};
-- 
2.43.0


From f9e50553bca85d03b58e4e7a5429c8b37944a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 32/47] fix: buckets of the complex table must stay sorted in
 case of rounding

---
 include/dd/ComplexTable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dd/ComplexTable.hpp b/include/dd/ComplexTable.hpp
index afef46a..1c6d552 100644
--- a/include/dd/ComplexTable.hpp
+++ b/include/dd/ComplexTable.hpp
@@ -529,6 +529,10 @@ namespace dd {
                     ++hits;
                     return curr;
                 }
+                // valTol might have been rounded up, but the list has to stay sorted
+                if (curr->value > val) {
+                    break;
+                }
                 ++collisions;
                 prev = curr;
                 curr = curr->next;
-- 
2.43.0


From ef447dc3cf8da932d172eb99306f289a89bfe1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 33/47] fix: createInitialMatrix must release the identity if
 reducing it fails

---
 include/dd/Package.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 111b0d6..ebb6966 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2232,7 +2232,12 @@ namespace dd {
         mEdge createInitialMatrix(dd::QubitCount n, const std::vector<bool>& ancillary) {
             auto e = makeIdent(n);
             incRef(e);
-            return reduceAncillae(e, ancillary);
+            try {
+                return reduceAncillae(e, ancillary);
+            } catch (...) {
+                decRef(e);
+                throw;
+            }
         }
 
     private:
-- 
2.43.0


From 74c68e299785148bb797f1eb71696f448664c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 34/47] fix: reduceGarbage must not treat children with equal
 nodes but different weights as equal

---
 include/dd/Package.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ebb6966..68987c3 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2410,7 +2410,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound);
                         for (auto j = i + 1; j < RADIX; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
@@ -2463,7 +2463,7 @@ namespace dd {
                     } else {
                         edges[i] = reduceGarbageRecursion(f.p->e[i], garbage, lowerbound, regular);
                         for (auto j = i + 1; j < NEDGE; ++j) {
-                            if (e.p->e[i].p == e.p->e[j].p) {
+                            if (e.p->e[i] == e.p->e[j]) {
                                 edges[j] = edges[i];
                                 handled.set(j);
                             }
-- 
2.43.0


From 3586f6bc3e1515b181c1f98b2f8698b89933b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 35/47] Revert "fix: serialize must write all children of a
 vector node"

This reverts commit b5cb2d34692c625e3ad73f9dcea8a905fd5008d7. With only two
children per node the traversal never hides one behind a node that has been
written already, so there was no defect.
---
 include/dd/Export.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/dd/Export.hpp b/include/dd/Export.hpp
index c35fabf..7d2dafd 100644
--- a/include/dd/Export.hpp
+++ b/include/dd/Export.hpp
@@ -676,11 +676,6 @@ namespace dd {
                 node = stack.top();
                 stack.pop();
 
-                // nodes that have been written in the meantime must not hide the remaining children
-                while (!stack.empty() && nodeIndex.find(stack.top()->p) != nodeIndex.end()) {
-                    stack.pop();
-                }
-
                 bool hasChild = false;
                 for (auto i = 1U; i < RADIX && !hasChild; ++i) {
                     auto& edge = node->p->e.at(i);
-- 
2.43.0


From 4119ffd2ae4137f5a917fa780acac86851d698c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 36/47] fix: vectors and matrices that exceed the package must
 be rejected

---
 include/dd/Package.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 68987c3..73c2296 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -319,9 +319,18 @@ namespace dd {
                 return vEdge::terminal(cn.lookup(stateVector[0]));
             }
 
+            const auto n = static_cast<std::size_t>(std::log2(length));
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested state with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             [[maybe_unused]] const auto before = cn.cacheCount();
 
-            const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            const auto level = static_cast<Qubit>(n - 1);
             auto       state = makeStateFromVector(stateVector.begin(), stateVector.end(), level);
 
             // the recursive function makes use of the cache, so we have to clean it up
@@ -360,9 +369,18 @@ namespace dd {
                 return mEdge::terminal(cn.lookup(matrix[0][0]));
             }
 
+            const auto n = static_cast<std::size_t>(std::log2(length));
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested matrix with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             [[maybe_unused]] const auto before = cn.cacheCount();
 
-            const auto level = static_cast<Qubit>(std::log2(length) - 1);
+            const auto level = static_cast<Qubit>(n - 1);
 
             auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
 
-- 
2.43.0


From 6c333c0255ca1287caa5ad603cb52f3b3a1eb785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 37/47] fix: identities and density operators that exceed the
 package must be rejected

---
 include/dd/Package.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 73c2296..babe28a 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -225,6 +225,13 @@ namespace dd {
         }
 
         dEdge makeZeroDensityOperator(QubitCount n) {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested density operator with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
             auto f = dEdge::one;
             for (std::size_t p = 0; p < n; p++) {
                 f = makeDDNode(static_cast<Qubit>(p), std::array{f, dEdge::zero, dEdge::zero, dEdge::zero});
@@ -2215,6 +2222,13 @@ namespace dd {
             if (mostSignificantQubit < leastSignificantQubit) {
                 return mEdge::one;
             }
+            if (static_cast<std::size_t>(mostSignificantQubit) + 1 > nqubits) {
+                throw std::runtime_error{"Requested identity with " +
+                                         std::to_string(mostSignificantQubit + 1) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
 
             if (leastSignificantQubit == 0 && idTable[static_cast<std::size_t>(mostSignificantQubit)].p != nullptr) {
                 return idTable[static_cast<std::size_t>(mostSignificantQubit)];
-- 
2.43.0


From 1df8addc7f3abb74e4dfcd6b3227075c0e9ca0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 38/47] fix: basis states with too few values must be rejected

---
 include/dd/Package.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index babe28a..42a6f83 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -263,6 +263,10 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
+            }
+
             auto f = vEdge::one;
             for (std::size_t p = start; p < n + start; ++p) {
                 if (!state[p]) {
@@ -282,8 +286,8 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
-            if (state.size() < n) {
-                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n) + ", but received " + std::to_string(state.size()));
+            if (state.size() < n + start) {
+                throw std::runtime_error("Insufficient qubit states provided. Requested " + std::to_string(n + start) + ", but received " + std::to_string(state.size()));
             }
 
             auto f = vEdge::one;
-- 
2.43.0


From 93b20ba177786a318376b12137ee09ff285daf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 39/47] fix: identities of more than 128 qubits must be
 rejected

---
 include/dd/Package.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 42a6f83..ea765b4 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2221,7 +2221,16 @@ namespace dd {
         /// Identity matrices
         ///
         // create n-qubit identity DD. makeIdent(n) === makeIdent(0, n-1)
-        mEdge makeIdent(QubitCount n) { return makeIdent(0, static_cast<Qubit>(n - 1)); }
+        mEdge makeIdent(QubitCount n) {
+            if (n > nqubits) {
+                throw std::runtime_error{"Requested identity with " +
+                                         std::to_string(n) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+            return makeIdent(0, static_cast<Qubit>(n - 1));
+        }
         mEdge makeIdent(Qubit leastSignificantQubit, Qubit mostSignificantQubit) {
             if (mostSignificantQubit < leastSignificantQubit) {
                 return mEdge::one;
-- 
2.43.0


From 89365609485d73225a139bf34e277fb4101e93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:40 +0000
Subject: [PATCH 40/47] fix: gates with targets or controls outside the
 requested qubits must be rejected

---
 include/dd/Package.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index ea765b4..9305fec 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -532,6 +532,10 @@ namespace dd {
                                          std::to_string(nqubits) +
                                          " qubits. Please allocate a larger package instance."};
             }
+            const auto isRequested = [&](const Qubit q) { return q >= static_cast<Qubit>(start) && static_cast<std::size_t>(q) < n + start; };
+            if (!isRequested(target) || !std::all_of(controls.begin(), controls.end(), [&](const Control& c) { return isRequested(c.qubit); })) {
+                throw std::runtime_error("Targets and controls of a gate must be among the requested qubits.");
+            }
             std::array<mEdge, NEDGE> em{};
             auto                     it = controls.begin();
             for (auto i = 0U; i < NEDGE; ++i) {
@@ -605,6 +609,11 @@ namespace dd {
                                          " qubits. Please allocate a larger package instance."};
             }
 
+            const auto isRequested = [&](const Qubit q) { return q >= static_cast<Qubit>(start) && static_cast<std::size_t>(q) < n + start; };
+            if (!isRequested(target0) || !isRequested(target1) || target0 == target1) {
+                throw std::runtime_error("Targets of a gate must be two of the requested qubits.");
+            }
+
             // create terminal edge matrix
             std::array<std::array<mEdge, NEDGE>, NEDGE> em{};
             for (auto i1 = 0U; i1 < NEDGE; i1++) {
-- 
2.43.0


From 8dcfa788f23a4557977bda4339721a73930d1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 41/47] fix: Kronecker products that exceed the package must be
 rejected

---
 include/dd/Package.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 9305fec..4063ed9 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2003,6 +2003,14 @@ namespace dd {
                 throw std::invalid_argument("Kronecker is currently not supported for density matrices");
             }
 
+            if (incIdx && !x.isTerminal() && !y.isTerminal() && static_cast<std::size_t>(x.p->v + y.p->v) + 2 > nqubits) {
+                throw std::runtime_error{"Requested Kronecker product with " +
+                                         std::to_string(x.p->v + y.p->v + 2) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             auto e = kronecker2(x, y, incIdx);
 
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
-- 
2.43.0


From fa5188308418a9ce3ac19d295a9b7f02ecc27f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 42/47] fix: diagrams that exceed the package must not be
 transferred

---
 include/dd/Package.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 4063ed9..4986d6b 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2973,6 +2973,14 @@ namespace dd {
         // transfers a decision diagram from another package to this package
         template<class Edge>
         Edge transfer(Edge& original) {
+            if (!original.isTerminal() && static_cast<std::size_t>(original.p->v) >= nqubits) {
+                throw std::runtime_error{"Requested transfer of a decision diagram with " +
+                                         std::to_string(original.p->v + 1) +
+                                         " qubits, but current package configuration only supports up to " +
+                                         std::to_string(nqubits) +
+                                         " qubits. Please allocate a larger package instance."};
+            }
+
             // POST ORDER TRAVERSAL USING ONE STACK   https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
             Edge              root{};
             std::stack<Edge*> stack;
-- 
2.43.0


From 3621d8079aa6fa31f346d2748ea9f9d033dcfea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 43/47] fix: gates controlled by their own target must be
 rejected

---
 include/dd/Package.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 4986d6b..2502848 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -533,8 +533,8 @@ namespace dd {
                                          " qubits. Please allocate a larger package instance."};
             }
             const auto isRequested = [&](const Qubit q) { return q >= static_cast<Qubit>(start) && static_cast<std::size_t>(q) < n + start; };
-            if (!isRequested(target) || !std::all_of(controls.begin(), controls.end(), [&](const Control& c) { return isRequested(c.qubit); })) {
-                throw std::runtime_error("Targets and controls of a gate must be among the requested qubits.");
+            if (!isRequested(target) || !std::all_of(controls.begin(), controls.end(), [&](const Control& c) { return isRequested(c.qubit) && c.qubit != target; })) {
+                throw std::runtime_error("Targets and controls of a gate must be distinct and among the requested qubits.");
             }
             std::array<mEdge, NEDGE> em{};
             auto                     it = controls.begin();
-- 
2.43.0


From df8b981abc8f3877758418f174c9e4742ddc2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 44/47] fix: matrices whose rows differ in length must be
 rejected

---
 include/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 2502848..b7ac9f2 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -372,7 +372,7 @@ namespace dd {
             }
 
             const auto& width = matrix[0].size();
-            if (length != width) {
+            if (!std::all_of(matrix.begin(), matrix.end(), [&](const auto& row) { return row.size() == length; })) {
                 throw std::invalid_argument("Matrix must be square.");
             }
 
-- 
2.43.0


From e4dd6a35d8bb1192b2fa5718ded53f795d7c7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:12 +0000
Subject: [PATCH 45/47] fix: return the zero edge when a Kronecker product is
 too small to be told from zero

---
 include/dd/Package.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index b7ac9f2..309d4e4 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2016,6 +2016,10 @@ namespace dd {
             if (e.w != Complex::zero && !e.w.exactlyOne()) {
                 cn.returnToCache(e.w);
                 e.w = cn.lookup(e.w);
+                // the product of two small weights might be too small to be distinguished from zero
+                if (e.w.exactlyZero()) {
+                    return Edge::zero;
+                }
             }
 
             return e;
-- 
2.43.0


From e2779846046f25caf47742a8bd58b66e8c3c1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 46/47] fix: return the zero edge when a partial trace is too
 small to be told from zero

---
 include/dd/Package.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 309d4e4..8bab5cb 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2153,7 +2153,8 @@ namespace dd {
                     cn.returnToCache(r2.w);
                 }
 
-                return r;
+                // the product of the weights might be too small to be distinguished from zero
+                return r.w.exactlyZero() ? mEdge::zero : r;
             }
 
             std::array<mEdge, NEDGE> edge{};
@@ -2171,7 +2172,8 @@ namespace dd {
                 ComplexNumbers::mul(c, r.w, a.w);
                 r.w = cn.lookup(c);
             }
-            return r;
+            // the product of the weights might be too small to be distinguished from zero
+            return r.w.exactlyZero() ? mEdge::zero : r;
         }
 
         bool isCloseToIdentityRecursive(const mEdge& m, std::unordered_set<decltype(m.p)>& visited, dd::fp tol) {
-- 
2.43.0


From a8da9de8657d48e050a1f611f6aa0d7371de88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 47/47] fix: return the zero edge when a reduced diagram is too
 small to be told from zero

---
 include/dd/Package.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dd/Package.hpp b/include/dd/Package.hpp
index 8bab5cb..1b34e40 100644
--- a/include/dd/Package.hpp
+++ b/include/dd/Package.hpp
@@ -2459,7 +2459,8 @@ namespace dd {
 
             f.w = cn.lookup(c);
             cn.returnToCache(c);
-            return f;
+            // the product of the weights might be too small to be distinguished from zero
+            return f.w.exactlyZero() ? mEdge::zero : f;
         }
 
         vEdge reduceGarbageRecursion(vEdge& e, const std::vector<bool>& garbage, Qubit lowerbound) {
@@ -2513,7 +2514,8 @@ namespace dd {
                 f.w = Complex::one;
             }
 
-            return f;
+            // the product of the weights might be too small to be distinguished from zero
+            return f.w.exactlyZero() ? vEdge::zero : f;
         }
         mEdge reduceGarbageRecursion(mEdge& e, const std::vector<bool>& garbage, Qubit lowerbound, bool regular = true) {
             if (e.p->v < lowerbound) {
@@ -2596,7 +2598,8 @@ namespace dd {
                 f.w = Complex::one;
             }
 
-            return f;
+            // the product of the weights might be too small to be distinguished from zero
+            return f.w.exactlyZero() ? mEdge::zero : f;
         }
 
         ///
-- 
2.43.0

