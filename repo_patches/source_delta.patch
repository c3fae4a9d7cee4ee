From fcbf6ef8808cb74dd93efc3f3810f81f91cdd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 01/25] fix: moveLegsToFront must not alias the tensor's own
 leg list

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..8aabcae 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -492,7 +492,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..5cef037 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
-- 
2.43.0


From 5024b9e29add15ac1349324362613f8225deb394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 02/25] fix: contractTwoTensors accepts explicit bonds in
 either orientation

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..4bdc5e2 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -104,8 +104,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.anotherSide(leg) for bond, leg in zip(bonds, contractALegs)]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From edce92a2e07067e9c64917a0ed8948dba14e010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 03/25] fix: outer product of a diagonal and a plain tensor
 keeps the promoted dtype and works for rank-0 diagonals

---
 src/CTL/tensor/contract/contract.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 4bdc5e2..d6a7b04 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -86,10 +86,13 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
-                einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
-                xplib.xp.einsum(einsumStr, data)[...] = outerData
+                if (ta.dim == 0):
+                    data = outerData
+                else:
+                    data = xplib.xp.zeros(shape, dtype = outerData.dtype)
+                    einsumStr = ('j' * ta.dim) + '...->j...'
+                    xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
             if (tensorLikeContract):
-- 
2.43.0


From 885c513437b95dda2d80b740772d32495fa57a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 04/25] fix: diagonalNDTensor keeps the dtype of its data and
 accepts dim 0

---
 src/CTL/funcs/funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..d703a62 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a)
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From 5071badee8b80b69cbd5de38562d158970798d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 05/25] fix: sumOutLegByLabel passes weights on for a list of
 labels

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 5cef037..295b493 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1115,7 +1115,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From e017c3036cce294bc1559a7098bea4ca54b7b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 06/25] fix: outer product of two diagonal tensors is a plain
 tensor, and networks of unlinked diagonal tensors can be contracted

---
 src/CTL/tensor/contract/contract.py        |  5 +++--
 src/CTL/tensor/contract/optimalContract.py |  7 ++++---
 src/CTL/tensor/contract/tensorGraph.py     | 14 ++++++--------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index d6a7b04..cce9271 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,7 +77,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag and (ta.dim == 0 or tb.dim == 0)):
+            # a scalar times a diagonal tensor is still diagonal
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
@@ -86,7 +87,7 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                outerData = xplib.xp.multiply.outer(ta.a, tb.a)
+                outerData = xplib.xp.multiply.outer(ta.a, tb.toTensor())
                 if (ta.dim == 0):
                     data = outerData
                 else:
diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..541c115 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,13 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
-        return ta.bondDimension(), 1
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0 or ta.dim == 0 or tb.dim == 0)):
+        return max(ta.bondDimension(), tb.bondDimension()), 1
 
+    # the outer product of two diagonal tensors is not diagonal: count as normal tensors
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..f15326b 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -178,9 +178,9 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and (not isDiagonalOuterProduct(self.contractRes[tsA], self.contractRes[tsB]))):
                 # both diagonal, only need to product
-                return shapeA[0]
+                return max(shapeA + shapeB + [1])
             
             diagonal = diagonalA or diagonalB
 
@@ -200,7 +200,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and (not isDiagonalOuterProduct(self.contractRes[tsA], self.contractRes[tsB]))):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -222,7 +222,8 @@ class TensorGraph(UndirectedGraph):
             return len(commonEdges) > 0
         
         def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
+            # such a product is not diagonal any more(except for the product with a scalar)
+            return tsA[2] and tsB[2] and len(tsA[0]) > 0 and len(tsB[0]) > 0 and (not isSharingBond(tsA, tsB))
 
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
@@ -242,7 +243,7 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            return (edges, shape, diagonalA and diagonalB and (not isDiagonalOuterProduct(tsA, tsB)))
 
         def getSize(tsA, tsB):
             '''
@@ -372,9 +373,6 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
-                                # diagonal outer product is banned
-                                continue
                             tt = t1 | t2
                             if (self.contractRes[tt] is None):
                                 self.contractRes[tt] = calculateContractRes(t1, t2)
-- 
2.43.0


From ae5bc86f06459ca14262071dc4f6778b450a7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 07/25] fix: rank-0 diagonal tensors can be copied and built
 from labels, legs or shape

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 8aabcae..eafc2c7 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,9 +228,9 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(() if (len(shape) == 0) else shape[0])
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(data.shape) <= 1):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
-- 
2.43.0


From 87d84c1b5c61378ccee621f3a6709bb5078d91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 08/25] fix: FiniteTensorNetwork instances do not share their
 tensor name list

---
 src/CTL/tensornetwork/tensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..97f8048 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -8,7 +8,7 @@ class FiniteTensorNetwork:
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
     def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From c103c6689f952bb5812ed74f8ff7609d88081ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 09/25] fix: DiagonalTensor rejects data whose size only
 accidentally matches the dense shape

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index eafc2c7..e2e84a8 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -213,7 +213,7 @@ class DiagonalTensor(Tensor):
             return True 
         if (isinstance(shape, int)):
             shape = tuple([shape] * len(data.shape))
-        return ((len(data.shape) == 1) and (len(shape) > 0) and (len(data) == shape[0])) or (funcs.tupleProduct(data.shape) == funcs.tupleProduct(shape))
+        return ((len(data.shape) == 1) and (len(shape) > 0) and (len(data) == shape[0])) or (tuple(data.shape) == tuple(shape))
 
     def generateData(self, shape, data, isTensorLike):
         """
-- 
2.43.0


From ecca40b66625f2519fc04380fb42027f72028efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 10/25] fix: FiniteTensorNetwork recomputes its contraction
 sequence after structural changes

---
 src/CTL/tensornetwork/tensornetwork.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 97f8048..4721e13 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
@@ -54,6 +56,7 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding link ({}, {}) to a FTN which is locked.".format((aName, aLeg), (bName, bLeg))
         self.checkLock('adding link ({}, {})'.format((aName, aLeg), (bName, bLeg)))
         self.links.append(((aName, aName + '-' + aLeg), (bName, bName + '-' + bLeg)))
+        self.optimalSeq = None
 
     def addPreNameChange(self, name, legName, newName):
         self.checkLock('add pre name change for tensor {}: from {} to {}'.format(name, legName, newName))
-- 
2.43.0


From 2c8135039e31569a38a639775ed9dba26d0558ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 11/25] fix: greedy contraction sequence handles disconnected
 networks

---
 src/CTL/tensor/contract/tensorGraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index f15326b..a080aaf 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -312,6 +312,9 @@ class TensorGraph(UndirectedGraph):
                         minSize = newSize 
                         minTSA, minTSB = tsA, tsB 
 
+                if (minTSA == -1):
+                    # no bond is left: outer product of disconnected parts
+                    minTSA, minTSB = tensorSet[0], tensorSet[1]
                 tsA, tsB = minTSA, minTSB
                 self.greedySeq.append((tsA, tsB))
                 self.greedyCost += costFunc(tsA, tsB)
-- 
2.43.0


From 1d9fc5943bcb7f5ca0b6fc567035fe8f03e930a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 12/25] fix: optimal contraction sequence handles rank-0
 tensors

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index a080aaf..ed94087 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -327,7 +327,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if len(x) > 0], default = 1)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From e8185a8684d6f97ccebd105fd9a79597d637d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 13/25] fix: TensorGraph.addFreeEdge invalidates the cached
 edge list

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index ed94087..089f4f6 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -59,6 +59,7 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
-- 
2.43.0


From 0f17fb09ee558b597d6700cbdcebf778e78c8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 14/25] fix: tensorSVDDecomposition accepts only rows or only
 cols

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..5562d55 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = [leg.name for leg in a.complementLegs([a.getLeg(label) for label in cols])]
+    if (cols is None):
+        cols = [leg.name for leg in a.complementLegs([a.getLeg(label) for label in rows])]
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From 74dddc2ef3030fa8ff632fcf4cac43a4aa66f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 15/25] fix: toMatrix accepts an empty list of rows or columns

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index e2e84a8..e6a03e9 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -556,9 +556,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 295b493..e3eeb89 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -615,9 +615,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From c9eb4a3a1c4857f7cc76d92465ced1993f63d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 16/25] fix: copyTensorList leaves original legs free instead
 of deleting their bond attribute

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 541c115..070c796 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From 7a5955011d1404a6cfb0a9567024cc98de70adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 17/25] fix: IsingSiteTensor handles sites without edges

---
 src/CTL/models/Ising.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..28b3d0f 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -199,6 +199,9 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert (funcs.isRealNumber(betaJ) or (len(betaJ) == dim)), funcs.errorMessage("betaJ {} do not have required dim {}.".format(betaJ, dim))
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
+    if (dim == 0):
+        # an isolated site only contributes the sum over its two states
+        return Tensor(data = xplib.xp.array(2.0), labels = labels)
     a = xplib.xp.array([1.0, 1.0])
     a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
-- 
2.43.0


From 404b800db3f7bb6755d3d9b63e5c37825c3c003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 18/25] fix: copies and TensorLike copies keep the dtype

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index e6a03e9..838a4e9 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -587,7 +587,7 @@ class DiagonalTensor(Tensor):
         DiagonalTensor
             A copy of the current diagonal tensor, all the information can be copied is contained.
         """
-        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag)
+        return DiagonalTensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
     def toTensorLike(self):
         """
@@ -601,7 +601,7 @@ class DiagonalTensor(Tensor):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True)
+            return DiagonalTensor(data = None, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, shape = self.shape, tensorLikeFlag = True, dtype = self.dtype)
 
     def moveLabelsToFront(self, labelList):
         """
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index e3eeb89..84aa016 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -666,7 +666,7 @@ class Tensor(TensorBase):
         Tensor
             A copy of the current tensor, all the information can be copied is contained.
         """
-        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag)
+        return Tensor(data = self.a, shape = self.shape, degreeOfFreedom = self.degreeOfFreedom, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = self.tensorLikeFlag, dtype = self.dtype)
         # no copy of tensor legs, which may contain connection information
         # the data will be copied in the new tensor, since all data is generated by "generateData"
     def toTensorLike(self):
@@ -681,7 +681,7 @@ class Tensor(TensorBase):
         if (self.tensorLikeFlag):
             return self.copy()
         else:
-            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True)
+            return Tensor(data = None, degreeOfFreedom = self.degreeOfFreedom, shape = self.shape, name = self.name, labels = self.labels, diagonalFlag = self.diagonalFlag, tensorLikeFlag = True, dtype = self.dtype)
     
     def copyN(self, n):
         """
-- 
2.43.0


From 8450933b78cdf215460e7688ec35252c92f128e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 19/25] fix: summing out a leg of a TensorLike object only
 changes its legs

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 838a4e9..de981dc 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -738,13 +738,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if (self.tensorLikeFlag):
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 84aa016..0968846 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1096,7 +1096,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From e5878f03c332c88497e37a9467422e005b27dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 20/25] fix: ndEye of one dimension is all ones

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index d703a62..09e1247 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1144,7 +1144,7 @@ def ndEye(n, l):
     """
     res = xplib.xp.zeros(tuple([l] * n))
     if (n == 1):
-        res[0] = 1.0
+        res[:] = 1.0
     else:
         res[xplib.xp.diag_indices(l, n)] = 1
     return res
-- 
2.43.0


From c32f19d524e73c428e042cd69cdeaafa79851d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 21/25] fix: moveLegsToFront does not modify a leg list shared
 with the caller

---
 src/CTL/tensor/diagonalTensor.py | 5 ++---
 src/CTL/tensor/tensor.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index de981dc..875bf7d 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -501,13 +501,12 @@ class DiagonalTensor(Tensor):
                     currIdx += 1
                     break
 
-        for leg in movedLegs:
-            self.legs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        # never change a leg list in place: it may be shared with the caller
+        self.legs = movedLegs + funcs.listDifference(self.legs, movedLegs)
         # self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
     def toVector(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 0968846..84efa66 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -570,13 +570,12 @@ class Tensor(TensorBase):
                     currIdx += 1
                     break
 
-        for leg in movedLegs:
-            self.legs.remove(leg)
         
         # print(moveFrom, moveTo)
         # print(labelList)
         # print(self.labels)
-        self.legs = movedLegs + self.legs 
+        # never change a leg list in place: it may be shared with the caller
+        self.legs = movedLegs + funcs.listDifference(self.legs, movedLegs)
         if (not self.tensorLikeFlag):
             self.a = xplib.xp.moveaxis(self.a, moveFrom, moveTo)
 
-- 
2.43.0


From 9755bcd59287216d1e74f6f708f643d77d426cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 22/25] fix: mergeLink renames a single shared bond with a pair
 of names side by side

---
 src/CTL/tensor/contract/link.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..eb85d32 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -94,8 +94,12 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
         if (renameWarning):
             warnings.warn(funcs.warningMessage(warn = 'mergeLink cannot merge links between two tensors {} and {} sharing one bond, only rename'.format(ta, tb), location = funcName), RuntimeWarning)
         if (bondName is not None):
-            mergeLegA[0].name = bondName 
-            mergeLegB[0].name = bondName
+            if (isinstance(bondName, str)):
+                bondNameA, bondNameB = bondName, bondName
+            else:
+                bondNameA, bondNameB = bondName # tuple/list
+            mergeLegA[0].name = bondNameA
+            mergeLegB[0].name = bondNameB
         return ta, tb
 
     # otherwise, we need to do outProduct, and then merge
-- 
2.43.0


From 8dc5d8d140f825bffe9ebe893e8531b3d4131302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 23/25] fix: rank-0 diagonal tensors copy their data and reject
 contradicting shapes

---
 src/CTL/tensor/diagonalTensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 875bf7d..e836fdd 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -254,8 +254,9 @@ class DiagonalTensor(Tensor):
 
         # first, consider scalar case
         if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
+            if (shape is not None and shape != ()) or ((data is not None) and (data.shape != ())):
+                raise ValueError(funcs.errorMessage('data {} is not compatible with required shape {}'.format(data, shape), location = funcName))
+            data = self.generateData(shape = (), data = data, isTensorLike = isTensorLike)
             return [], data, [], () # scalar
             
 
-- 
2.43.0


From eac44a7d8b0a3505029a12c95c0c042b5fb4e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 24/25] fix: contraction order search never expands diagonal
 tensors of one connected part

---
 src/CTL/tensor/contract/tensorGraph.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 089f4f6..2a8e9d9 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -171,6 +171,16 @@ class TensorGraph(UndirectedGraph):
             for i in range(n):
                 self.contractRes[i] = (edges[i], shapes[i], self.diagonalFlags[i])
 
+        # connected part of the network each edge belongs to
+        edgePart = dict()
+        for localEdges in edges:
+            parts = set([edgePart.get(edge, edge) for edge in localEdges])
+            for edge in localEdges:
+                edgePart[edge] = edge
+            for edge in edgePart:
+                if (edge in localEdges) or (edgePart[edge] in parts):
+                    edgePart[edge] = min(parts)
+
         def getCost(tsA, tsB):
             # to deal with diagonal tensors:
             # what if we contract two diagonal tensors?
@@ -179,6 +189,8 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
+            if (isWastefulDiagonalProduct(self.contractRes[tsA], self.contractRes[tsB])):
+                return float('inf')
             if (diagonalA and diagonalB and (not isDiagonalOuterProduct(self.contractRes[tsA], self.contractRes[tsB]))):
                 # both diagonal, only need to product
                 return max(shapeA + shapeB + [1])
@@ -201,6 +213,8 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
+            if (isWastefulDiagonalProduct(self.contractRes[tsA], self.contractRes[tsB])):
+                return float('inf')
             if (diagonalA and diagonalB and (not isDiagonalOuterProduct(self.contractRes[tsA], self.contractRes[tsB]))):
                 costOrder = 1
             else:
@@ -226,6 +240,10 @@ class TensorGraph(UndirectedGraph):
             # such a product is not diagonal any more(except for the product with a scalar)
             return tsA[2] and tsB[2] and len(tsA[0]) > 0 and len(tsB[0]) > 0 and (not isSharingBond(tsA, tsB))
 
+        def isWastefulDiagonalProduct(tsA, tsB):
+            # never expand two diagonal tensors which can be linked by other tensors
+            return isDiagonalOuterProduct(tsA, tsB) and edgePart[tsA[0][0]] == edgePart[tsB[0][0]]
+
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
                 tsA = self.contractRes[tsA]
@@ -275,15 +293,13 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
-                if (self.contractRes[x] is None):
-                    self.contractRes[x] = calculateContractRes(tsA, tsB)
-                
                 localCost = costFunc(tsA, tsB)
                 currCost = self.optimalCost[tsA] + self.optimalCost[tsB] + localCost
                 if (minCost is None) or (currCost < minCost):
                     minCost = currCost
                     minTSA = tsA
                     minTSB = tsB
+                    self.contractRes[x] = calculateContractRes(tsA, tsB)
 
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
-- 
2.43.0


From 58bbd741a06bb6ad5565f4af6a7a05ca2aef1a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 25/25] fix: StringSet keeps the length of generated strings
 when names are added or removed

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0

