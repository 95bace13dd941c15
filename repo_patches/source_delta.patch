From 1289e1644c398f31b5c9c381eb1d1751b53b136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 01/31] Verification hooks: run-time GC and large-BDD
 thresholds under CAL_VERIF_HOOKS

---
 src/calInt.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/calInt.h b/src/calInt.h
index 0a88629..bb3e7a9 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -89,6 +89,18 @@
                                   addition of every GC_CHECK number of nodes to
                                   the unique table */
 
+#ifdef CAL_VERIF_HOOKS
+/* Verification builds set these thresholds at run time; the variables are
+   defined by the verification harness. */
+extern long calVerifMinGCLimit;
+extern int calVerifGCCheck;
+extern unsigned long calVerifLargeBdd;
+#undef CAL_MIN_GC_LIMIT
+#undef CAL_GC_CHECK
+#define CAL_MIN_GC_LIMIT calVerifMinGCLimit
+#define CAL_GC_CHECK calVerifGCCheck
+#endif
+
 /* End Performance Related Constants */
 
 /* Memory Management related constants */
@@ -244,6 +256,10 @@ extern unsigned long calPrimes[];
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
+#ifdef CAL_VERIF_HOOKS
+#undef CAL_LARGE_BDD
+#define CAL_LARGE_BDD calVerifLargeBdd
+#endif
 
 
 /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 1a61742c179852258fe6dd99805282c5f61f7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/31] fix: null operands of Not, Identity and Compose yield a
 null result

Cal_BddNot and Cal_BddIdentity dereferenced a null operand, and Cal_BddCompose
assigned the null result but went on with the null operand.
---
 src/cal.c           | 2 ++
 src/calBddCompose.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cal.c b/src/cal.c
index eac49b8..6849444 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -131,6 +131,7 @@ Cal_BddIdentity(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (userBdd == 0) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return userBdd;
 }
@@ -166,6 +167,7 @@ Cal_BddNot(Cal_BddManager bddManager, Cal_Bdd userBdd)
 {
   /* Interface BDD reference count */
   CalBddNode_t *bddNode = CAL_BDD_POINTER(userBdd);
+  if (userBdd == 0) return Cal_BddNull(bddManager);
   CalBddNodeIcrRefCount(bddNode);
   return CalBddNodeNot(userBdd);
 }
diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 96770d0..6cda2c3 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -82,7 +82,7 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   Cal_Bdd_t F, G, H;
 
   if (CalBddPreProcessing(bddManager, 3, fUserBdd, gUserBdd, hUserBdd) == 0){
-    result = bddManager->bddNull;
+    return Cal_BddNull(bddManager);
   }
   F = CalBddGetInternalBdd(bddManager, fUserBdd);
   G = CalBddGetInternalBdd(bddManager, gUserBdd);
-- 
2.43.0


From 1fe9cbd99f646d48dd100b5ce28051ed2c99fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/31] fix: pairwise operations start at the smallest level of
 all pairs

BddArrayOpBF overwrote the starting level with that of the last pair, so the
requests of pairs above it were never processed.
---
 src/calBddOp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index cf6e2f2..d445d22 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -679,7 +679,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
 {
   Cal_BddId_t minId, bddId;
   /*Cal_BddIndex_t minIndex = 0;*/
-  int minIndex = 0;
+  int minIndex = bddManager->numVars; /* smallest index over all the pairs */
+  int pairMinIndex;
   int bddIndex;
   CalHashTable_t *hashTable, **hashTableArray, *uniqueTableForId;
   Cal_Bdd_t F, G, result;
@@ -692,7 +693,8 @@ BddArrayOpBF(Cal_BddManager_t * bddManager, Cal_Bdd_t*  bddArray,
     F = bddArray[i<<1];
     G = bddArray[(i<<1)+1];
     if ((*calOpProc)(bddManager, F, G, &result) == 0){
-      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, minIndex);
+      CalBddGetMinIdAndMinIndex(bddManager, F, G, minId, pairMinIndex);
+      if (pairMinIndex < minIndex) minIndex = pairMinIndex;
       CalHashTableFindOrAdd(hashTableArray[minId], F, G, &result);
     }
     resultArray[i] = result;
-- 
2.43.0


From 2aae9537727f402154ea1ffa7a09a9955a7a4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 04/31] fix: Cal_BddIsCube answers 0 for the zero function
 instead of exiting

---
 src/cal.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cal.c b/src/cal.c
index 6849444..24e7464 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -534,10 +534,7 @@ Cal_BddIsCube(
   Cal_Bdd_t f;
   f = CalBddGetInternalBdd(bddManager, fUserBdd);
   if (CalBddIsBddConst(f)){
-    if (CalBddIsBddZero(bddManager, f)){
-      CalBddFatalMessage("Cal_BddIsCube called with 0");
-    }
-    else return 1;
+    return CalBddIsBddOne(bddManager, f);
   }
 
   CalBddGetThenBdd(f, f1);
-- 
2.43.0


From 67ecac0e28f4a4831c5e1797a1dd01721f8b5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 05/31] fix: Reduce and Between with an empty care set return a
 valid function

BddReduceBF returned the internal null diagram, which was then turned into a
user handle; Cal_BddBetween(0, 1) and Cal_BddReduce(f, 0) hit this.
---
 src/calReduce.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calReduce.c b/src/calReduce.c
index 81d2420..329958d 100644
--- a/src/calReduce.c
+++ b/src/calReduce.c
@@ -232,7 +232,10 @@ BddReduceBF(
   int bddIndex;
   Cal_BddId_t bddId, minId;
 
-
+  /* Nothing is cared about: every function, in particular f, is valid. */
+  if (CalBddIsBddZero(bddManager, c)){
+    return f;
+  }
   if ((*calOpProc)(bddManager, f, c, &result) == 1){
     return result;
   }
-- 
2.43.0


From 4c902f923e167699f0197703c165148962fd4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 06/31] fix: reordering takes the values of variable
 associations into account

The interaction matrix was computed from user diagrams only; swapping two
variables that interact only inside an association value was treated as
trivial and corrupted the diagram.
---
 src/calInteract.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 6d7caa4..82cebe4 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -79,6 +79,7 @@
 static void ddSuppInteract(Cal_BddManager_t *bddManager, Cal_Bdd_t f, int *support);
 static void ddClearLocal(Cal_Bdd_t f);
 static void ddUpdateInteract(Cal_BddManager_t *bddManager, int *support);
+static void ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc, int *support);
 
 /**AutomaticEnd***************************************************************/
 
@@ -171,6 +172,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   int *support;
   long numBins;
   CalBddNode_t **bins, *bddNode, *nextBddNode;
+  CalAssociation_t *assoc;
 
   int n = bddManager->numVars;
 
@@ -201,6 +203,13 @@ CalInitInteract(Cal_BddManager_t *bddManager)
       ddUpdateInteract(bddManager, support);
     }
   }
+  /* The values of the associations are roots as well */
+  for (assoc = bddManager->associationList;
+       assoc != Cal_Nil(CalAssociation_t); assoc = assoc->next){
+    ddAssociationInteract(bddManager, assoc, support);
+  }
+  ddAssociationInteract(bddManager, bddManager->tempAssociation, support);
+
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
@@ -308,3 +317,25 @@ ddUpdateInteract(Cal_BddManager_t *bddManager, int *support)
   }
   }
 } /* end of ddUpdateInteract */
+
+
+/**Function********************************************************************
+  Marks as interacting the variables of each value of the association.
+******************************************************************************/
+static void
+ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t *assoc,
+                      int *support)
+{
+  int i, k;
+  int n = bddManager->numVars;
+
+  for (i = 1; i <= n; i++){
+    if (CalBddIsBddNull(bddManager, assoc->varAssociation[i])) continue;
+    for (k = 0; k < n; k++) {
+      support[k] = 0;
+    }
+    ddSuppInteract(bddManager, assoc->varAssociation[i], support);
+    ddClearLocal(assoc->varAssociation[i]);
+    ddUpdateInteract(bddManager, support);
+  }
+} /* end of ddAssociationInteract */
-- 
2.43.0


From 43cbe8e1664ba9c28bbceff6162af7f5a396cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 07/31] fix: repacking forwards an association value only if it
 moved

CalVarAssociationRepackUpdate replaced values on levels that had not been
repacked by their then cofactors.
---
 src/calAssociation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index 5a196aa..d46fe3d 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -385,7 +385,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
     nextAssoc = assoc->next;
     for (i=1; i <= bddManager->numVars; i++){
       if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-        CalBddForward(assoc->varAssociation[i]);
+        CalBddIsForwardedTo(assoc->varAssociation[i]);
       }
     }
   }
@@ -393,7 +393,7 @@ CalVarAssociationRepackUpdate(Cal_BddManager_t *  bddManager,
   assoc = bddManager->tempAssociation;
   for (i=1; i <= bddManager->numVars; i++){
     if (CalBddGetBddId(assoc->varAssociation[i]) == id){
-      CalBddForward(assoc->varAssociation[i]);
+      CalBddIsForwardedTo(assoc->varAssociation[i]);
     }
   }
 }
-- 
2.43.0


From 333c63f131ba13532f909e3c3fe548b8bb08fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 08/31] fix: repacking several levels releases the replaced
 hash table bins

---
 src/calHashTable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calHashTable.c b/src/calHashTable.c
index c9e187b..b9500dc 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -799,6 +799,8 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
           Cal_Assert(!(CalBddNodeIsRefCountZero(dupNode)));
         }
       }
+      /* Free the old bins */
+      Cal_MemFree(oldBins);
 
 #ifdef __FOO__
       /*fprintf(stdout,"Repacking id = %d, index = %d\n", id, index+level);*/
-- 
2.43.0


From 7f31d203f99a5df42711f216eaa410413940f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 09/31] fix: reading a damaged dump file returns an error
 instead of corrupting memory

Bound the shared-node count by the nodes actually read, the nesting by the
number of variables, and do not free or duplicate missing subdiagrams.
---
 src/calDump.c | 62 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/calDump.c b/src/calDump.c
index d9e8870..0a70037 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -84,7 +84,7 @@ static long indexMask[] = {0xffl, 0xffffl, 0xffffffl};
 static void Write(Cal_BddManager_t * bddManager, unsigned long n, int bytes, FILE * fp);
 static void BddDumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t f, FILE * fp, CalHashTable_t * h, Cal_BddIndex_t * normalizedIndexes, int indexSize, int nodeNumberSize);
 static unsigned long Read(int * error, int bytes, FILE * fp);
-static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t * shared, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, int * error);
+static Cal_Bdd_t BddUndumpBddStep(Cal_BddManager_t * bddManager, Cal_Bdd_t * vars, FILE * fp, Cal_BddIndex_t numberVars, Cal_Bdd_t ** shared, long * sharedSize, long numberShared, long * sharedSoFar, int indexSize, int nodeNumberSize, long depth, int * error);
 static int BytesNeeded(long n);
 
 /**AutomaticEnd***************************************************************/
@@ -107,6 +107,7 @@ Cal_BddUndumpBdd(
   int indexSize;
   int nodeNumberSize;
   Cal_Bdd_t *shared;
+  long sharedSize;
   long sharedSoFar;
   Cal_Bdd_t v;
   Cal_Bdd_t result;
@@ -153,16 +154,18 @@ Cal_BddUndumpBdd(
     Cal_MemFree(vars);
     return Cal_BddNull(bddManager);
   }
-  shared = Cal_MemAlloc(Cal_Bdd_t, numberShared);
-  for(i = 0; i < numberShared; ++i){
-    shared[i] = CalBddNull(bddManager);
-  }
+  /* The number in the file is not trusted: the array grows with the
+   * shared nodes that are actually read.
+   */
+  shared = Cal_Nil(Cal_Bdd_t);
+  sharedSize = 0;
   sharedSoFar = 0;
-  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-      numberShared, &sharedSoFar, indexSize, nodeNumberSize, error);
+  result = BddUndumpBddStep(bddManager, vars, fp, numberVars, &shared,
+      &sharedSize, numberShared, &sharedSoFar, indexSize, nodeNumberSize, 0,
+      error);
   Cal_MemFree(vars);
 
-  for(i = 0; i < numberShared; ++i){
+  for(i = 0; i < sharedSoFar; ++i){
     v = shared[i];
     if(!CalBddIsBddNull(bddManager, v)){
       CalBddFree(v);
@@ -171,7 +174,7 @@ Cal_BddUndumpBdd(
   if(!*error && sharedSoFar !=  numberShared){
     *error = CAL_BDD_UNDUMP_FORMAT;
   }
-  Cal_MemFree(shared);
+  if(shared) Cal_MemFree(shared);
   if(*error){
     if(!CalBddIsBddNull(bddManager, result)){
       CalBddFree(result);
@@ -400,11 +403,13 @@ BddUndumpBddStep(
   Cal_Bdd_t * vars,
   FILE * fp,
   Cal_BddIndex_t  numberVars,
-  Cal_Bdd_t * shared,
+  Cal_Bdd_t ** shared,
+  long * sharedSize,
   long  numberShared,
   long * sharedSoFar,
   int  indexSize,
   int  nodeNumberSize,
+  long  depth,
   int * error)
 {
   long nodeNumber;
@@ -415,6 +420,11 @@ BddUndumpBddStep(
   Cal_Bdd_t temp1, temp2;
   Cal_Bdd_t result;
 
+  /* A path of a valid file has at most one labelled node per variable */
+  if(depth > 2*(long)numberVars+1){
+    *error = CAL_BDD_UNDUMP_FORMAT;
+    return CalBddNull(bddManager);
+  }
   i = Read(error, indexSize, fp);
   if(*error){
     return CalBddNull(bddManager);
@@ -457,14 +467,14 @@ BddUndumpBddStep(
     case POSNODE_ENCODING:
     case NEGNODE_ENCODING:
       nodeNumber = Read(error, nodeNumberSize, fp);
-      if(!*error && (nodeNumber >=  numberShared ||
-          CalBddIsBddNull(bddManager, shared[nodeNumber]))){
+      if(!*error && (nodeNumber >=  *sharedSoFar ||
+          CalBddIsBddNull(bddManager, (*shared)[nodeNumber]))){
         *error = CAL_BDD_UNDUMP_FORMAT;
       }
       if(*error){
         return CalBddNull(bddManager);
       }
-      v = shared[nodeNumber];
+      v = (*shared)[nodeNumber];
       v = CalBddIdentity(bddManager, v);
       if(encoding == POSNODE_ENCODING){
         return (v);
@@ -475,10 +485,23 @@ BddUndumpBddStep(
       }
     case NODELABEL_ENCODING:
       nodeNumber =  *sharedSoFar;
+      if(nodeNumber >= numberShared){
+        *error = CAL_BDD_UNDUMP_FORMAT;
+        return CalBddNull(bddManager);
+      }
+      if(nodeNumber >= *sharedSize){
+        *sharedSize = 2*(*sharedSize)+16;
+        *shared = Cal_MemRealloc(Cal_Bdd_t, *shared, *sharedSize);
+      }
+      (*shared)[nodeNumber] = CalBddNull(bddManager);
       ++*sharedSoFar;
       v = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-          numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
-      shared[nodeNumber] = v;
+          sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+          depth+1, error);
+      if(*error){
+        return CalBddNull(bddManager);
+      }
+      (*shared)[nodeNumber] = v;
       v = CalBddIdentity(bddManager, v);
       return (v);
     default:
@@ -491,9 +514,14 @@ BddUndumpBddStep(
     return CalBddNull(bddManager);
   }
   temp1 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth+1, error);
+  if(*error){
+    return CalBddNull(bddManager);
+  }
   temp2 = BddUndumpBddStep(bddManager, vars, fp, numberVars, shared,
-       numberShared, sharedSoFar, indexSize, nodeNumberSize, error);
+       sharedSize, numberShared, sharedSoFar, indexSize, nodeNumberSize,
+       depth+1, error);
   if(*error){
       CalBddFree(temp1);
       return CalBddNull(bddManager);
-- 
2.43.0


From ae85515ad4822f91c9c8bb2bbc7df4dd5dede71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 10/31] fix: a node visited three times stays marked as shared

Printing repeated subformulas that have three or more references.
---
 src/calPrint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrint.c b/src/calPrint.c
index 4aa73f0..8d19427 100644
--- a/src/calPrint.c
+++ b/src/calPrint.c
@@ -173,8 +173,8 @@ CalBddMarkSharedNodes(Cal_BddManager_t *bddManager, Cal_Bdd_t f)
   if ((mark = CalBddGetMark(f))){
     if (mark == 1){
       CalBddPutMark(f, 2);
-      return;
     }
+    return;
   }
   CalBddPutMark(f, 1);
   CalBddGetThenBdd(f, thenBdd);
-- 
2.43.0


From 30e3ee3a5908efda01bbdb1c4142f684741bc4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 11/31] fix: Cal_BddPrintFunctionProfile prints valid functions

The preprocessing check was inverted: nothing was printed.
---
 src/calPrintProfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calPrintProfile.c b/src/calPrintProfile.c
index 3360319..96da4fa 100644
--- a/src/calPrintProfile.c
+++ b/src/calPrintProfile.c
@@ -135,7 +135,7 @@ Cal_BddPrintFunctionProfile(Cal_BddManager bddManager,
                             FILE * fp)
 {
   long *levelCounts;
-  if (CalBddPreProcessing(bddManager, 1, f)){
+  if (CalBddPreProcessing(bddManager, 1, f) == 0){
 	return;
   }
   levelCounts = Cal_MemAlloc(long, bddManager->numVars+1);
-- 
2.43.0


From e97f1391d3bb36d6ac3662ac2ab78386028e5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 12/31] fix: automatic garbage collection respects
 Cal_BddSetGCMode

---
 src/calUtil.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/calUtil.c b/src/calUtil.c
index 66df24e..d6e8d37 100644
--- a/src/calUtil.c
+++ b/src/calUtil.c
@@ -217,27 +217,29 @@ CalBddPostProcessing(Cal_BddManager_t *bddManager)
   if (bddManager->gcCheck > 0) return CAL_BDD_OK;
   bddManager->gcCheck = CAL_GC_CHECK;
   if(bddManager->numNodes > bddManager->uniqueTableGCLimit){
-    long origNodes = bddManager->numNodes;
-    Cal_BddManagerGC(bddManager);
-    if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
-        (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
-        (bddManager->reorderTechnique != CAL_REORDER_NONE)){
-      CalCacheTableTwoFlush(bddManager->cacheTable);
-      if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
-        CalBddReorderAuxBF(bddManager);
+    if (bddManager->gcMode != 0){
+      long origNodes = bddManager->numNodes;
+      Cal_BddManagerGC(bddManager);
+      if ((bddManager->numNodes > bddManager->reorderingThreshold) &&
+          (3*bddManager->numNodes > 2* bddManager->uniqueTableGCLimit) &&
+          (bddManager->reorderTechnique != CAL_REORDER_NONE)){
+        CalCacheTableTwoFlush(bddManager->cacheTable);
+        if (bddManager->reorderMethod == CAL_REORDER_METHOD_BF){
+          CalBddReorderAuxBF(bddManager);
+        }
+        else{
+          CalBddReorderAuxDF(bddManager);
+        }
       }
-      else{
-        CalBddReorderAuxDF(bddManager);
-      }
-    }
-    else {
-      /* Check if we should repack */
-      Cal_Assert(CalCheckAllValidity(bddManager));
-      if (bddManager->numNodes <
-          bddManager->repackAfterGCThreshold*origNodes){
-        CalRepackNodesAfterGC(bddManager);
+      else {
+        /* Check if we should repack */
+        Cal_Assert(CalCheckAllValidity(bddManager));
+        if (bddManager->numNodes <
+            bddManager->repackAfterGCThreshold*origNodes){
+          CalRepackNodesAfterGC(bddManager);
+        }
+        Cal_Assert(CalCheckAllValidity(bddManager));
       }
-      Cal_Assert(CalCheckAllValidity(bddManager));
     }
     Cal_BddManagerSetGCLimit(bddManager);
     if (bddManager->nodeLimit && (bddManager->numNodes >
-- 
2.43.0


From 003b12e8be0d742791e1dca0c142bfd37593b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 13/31] fix: pipelined results survive collections and
 reorderings until the pipeline is quit

---
 src/calGC.c          |  2 +-
 src/calHashTable.c   |  4 ++--
 src/calInteract.c    |  2 +-
 src/calPipeline.c    | 43 +++++++++++++++++++++++++++----------------
 src/calReorderBF.c   | 14 +++++++-------
 src/calReorderDF.c   |  4 ++--
 src/calReorderUtil.c |  4 ++--
 7 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/src/calGC.c b/src/calGC.c
index 8599983..1a4b091 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -356,7 +356,7 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
     nodeManager->freeNodeList = freeNodeList;
   }
   /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calHashTable.c b/src/calHashTable.c
index b9500dc..2c6c898 100644
--- a/src/calHashTable.c
+++ b/src/calHashTable.c
@@ -673,7 +673,7 @@ CalBddPackNodesAfterReorderForSingleId(Cal_BddManager_t *bddManager,
                            bddManager->indexToId[index]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -856,7 +856,7 @@ CalBddPackNodesForMultipleIds(Cal_BddManager_t *bddManager,
 
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calInteract.c b/src/calInteract.c
index 82cebe4..5902470 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -213,7 +213,7 @@ CalInitInteract(Cal_BddManager_t *bddManager)
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalRequestNode_t **requestNodeListArray =
         bddManager->requestNodeListArray;
     Cal_Bdd_t resultBdd;
diff --git a/src/calPipeline.c b/src/calPipeline.c
index 91bb09a..d0fe5ce 100644
--- a/src/calPipeline.c
+++ b/src/calPipeline.c
@@ -115,7 +115,6 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
     return 0;
   }
   else{
-    bddManager->pipelineState = CREATE;
     switch(bddOp){
     case CAL_AND :
       bddManager->pipelineFn = CalOpAnd;
@@ -130,6 +129,9 @@ Cal_PipelineInit(Cal_BddManager bddManager, Cal_BddOp_t bddOp)
       CalBddWarningMessage("Unknown Bdd Operation type");
       return 0;
     }
+    bddManager->pipelineState = CREATE;
+    /* Nothing has been executed so far */
+    bddManager->currentPipelineDepth = bddManager->pipelineDepth;
     return 1;
   }
 }
@@ -148,12 +150,15 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
 
   insertDepth = 0;
 
-  f = CalBddGetInternalBdd(bddManager, fUserBdd);
-  g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(bddManager->pipelineState != CREATE){
     CalBddWarningMessage("Provisional Bdd not created: Pipeline is not initialized");
     return Cal_BddNull(bddManager);
   }
+  if (fUserBdd == 0 || gUserBdd == 0){
+    return Cal_BddNull(bddManager);
+  }
+  f = CalBddGetInternalBdd(bddManager, fUserBdd);
+  g = CalBddGetInternalBdd(bddManager, gUserBdd);
   if(CalBddIsMarked(f)){
     CalBddGetDepth(f, operandDepth);
     if(insertDepth <= operandDepth){
@@ -166,14 +171,15 @@ Cal_PipelineCreateProvisionalBdd(Cal_BddManager bddManager, Cal_Bdd fUserBdd,
       insertDepth = operandDepth + 1;
     }
   }
-  if (bddManager->pipelineDepth <= insertDepth){
-    bddManager->pipelineDepth = insertDepth + 1;
-  }
   if (insertDepth >= MAX_INSERT_DEPTH){
     CalBddWarningMessage("Provisional Bdd not created");
     CalBddWarningMessage("Maximum pipeline depth is reached");
     return Cal_BddNull(bddManager);
   }
+  if (bddManager->pipelineDepth <= insertDepth){
+    bddManager->pipelineDepth = insertDepth + 1;
+    bddManager->currentPipelineDepth = bddManager->pipelineDepth;
+  }
 
   CalNodeManagerAllocNode(bddManager->nodeManagerArray[0], requestNode);
   CalRequestNodePutF(requestNode, f);
@@ -250,14 +256,7 @@ Cal_PipelineExecute(Cal_BddManager bddManager)
     }
     requestNodeListArray += bddManager->depth;
   }
-  /* Need to decrement the reference counts */
-  for (i=0; i<bddManager->pipelineDepth; i++){
-    for (node=bddManager->requestNodeListArray[i]; node; node = nextNode){
-      nextNode = CalBddNodeGetNextBddNode(node);
-      CalBddNodeGetThenBdd(node, thenBdd);
-      CalBddDcrRefCount(thenBdd);
-    }
-  }
+  /* The results stay locked until the pipeline is quit */
   bddManager->pipelineState = UPDATE;
   return 1;
 }
@@ -268,11 +267,15 @@ Cal_Bdd
 Cal_PipelineUpdateProvisionalBdd(Cal_BddManager bddManager,
                                  Cal_Bdd provisionalBdd)
 {
-  Cal_Bdd_t calBdd = CalBddGetInternalBdd(bddManager, provisionalBdd);
+  Cal_Bdd_t calBdd;
   if(bddManager->pipelineState != UPDATE){
     CalBddWarningMessage("Provisional Bdd cannot be updated");
     return Cal_BddNull(bddManager);
   }
+  if (provisionalBdd == 0){
+    return Cal_BddNull(bddManager);
+  }
+  calBdd = CalBddGetInternalBdd(bddManager, provisionalBdd);
   CalBddGetThenBdd(calBdd, calBdd);
   return CalBddGetExternalBdd(bddManager, calBdd);
 }
@@ -292,8 +295,11 @@ void
 Cal_PipelineQuit(Cal_BddManager bddManager)
 {
   CalRequestNode_t *requestNode, *next;
-  int i;
+  Cal_Bdd_t result;
+  int i, numExecuted;
 
+  numExecuted = (bddManager->pipelineState == READY) ? 0 :
+      bddManager->pipelineDepth - bddManager->currentPipelineDepth;
   bddManager->pipelineState = READY;
   for(i = 0; i < bddManager->pipelineDepth; i++){
     for(requestNode = bddManager->requestNodeListArray[i],
@@ -301,6 +307,11 @@ Cal_PipelineQuit(Cal_BddManager bddManager)
         requestNode != Cal_Nil(CalRequestNode_t);
         requestNode = next){
       next = CalRequestNodeGetNextRequestNode(requestNode);
+      if (i < numExecuted){
+        /* Unlock the result */
+        CalRequestNodeGetThenRequest(requestNode, result);
+        CalBddDcrRefCount(result);
+      }
       CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
     }
     bddManager->requestNodeListArray[i] = Cal_Nil(CalRequestNode_t);
diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6ed8128..6070ad7 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -568,7 +568,7 @@ CofactorFixAndReclaimForwardedNodes(Cal_BddManager_t *bddManager, int
   int index, varId;
   /* Clean up : Need to fix the cofactors of userBDDs and the
      indices above the varStartIndex only. */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -888,7 +888,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -950,7 +950,7 @@ BddReorderSiftToBestPos(Cal_BddManager_t * bddManager, int
 
     if (swapFlag){
       /* Fix user BDD pointers and reclaim forwarding nodes */
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1098,7 +1098,7 @@ BddSiftPerfromPhaseIV(Cal_BddManager_t *bddManager, int varStartIndex,
     CalBddReorderFixCofactors(bddManager, varId);
     varCurIndex--;
   }
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
@@ -1177,7 +1177,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
         CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
       }
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1242,7 +1242,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       }
       even = 1;
       CalBddReorderFixUserBddPtrs(bddManager);
-      if (bddManager->pipelineState == CREATE){
+      if (bddManager->pipelineState != READY){
         /* There are some results computed in pipeline */
         CalBddReorderFixProvisionalNodes(bddManager);
       }
@@ -1256,7 +1256,7 @@ BddReorderVarWindow(Cal_BddManager bddManager, char *levels)
       CalBddReorderFixCofactors(bddManager, bddManager->indexToId[i]);
     }
     CalBddReorderFixUserBddPtrs(bddManager);
-    if (bddManager->pipelineState == CREATE){
+    if (bddManager->pipelineState != READY){
       /* There are some results computed in pipeline */
       CalBddReorderFixProvisionalNodes(bddManager);
     }
diff --git a/src/calReorderDF.c b/src/calReorderDF.c
index 5a92224..44b3902 100644
--- a/src/calReorderDF.c
+++ b/src/calReorderDF.c
@@ -600,7 +600,7 @@ BddReallocateNodesInPlace(Cal_BddManager_t *bddManager)
     /* Fix the varBdd array */
   }
 /* Need to update the handles to the nodes being moved */
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodesAfterReallocation(bddManager);
   }
@@ -795,7 +795,7 @@ BddReallocateNodes(Cal_BddManager_t *bddManager)
     CalBddIsForwardedTo(bddManager->varBdds[id]);
   }
 
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     /* There are some results computed in pipeline */
     CalBddReorderFixProvisionalNodes(bddManager);
   }
diff --git a/src/calReorderUtil.c b/src/calReorderUtil.c
index a2a7f3e..b992729 100644
--- a/src/calReorderUtil.c
+++ b/src/calReorderUtil.c
@@ -142,7 +142,7 @@ CalCheckAllValidity(Cal_BddManager bddManager)
     CalCheckValidityOfNodesForId(bddManager, id);
   }
   CalCheckAssociationValidity(bddManager);
-  if (bddManager->pipelineState == CREATE){
+  if (bddManager->pipelineState != READY){
     CalCheckPipelineValidity(bddManager);
   }
   CalCheckRefCountValidity(bddManager);
@@ -334,7 +334,7 @@ CalCheckRefCountValidity(Cal_BddManager_t *bddManager)
         nextBddNode = CalBddNodeGetNextBddNode(bddNode);
         /* If the pipeline execution is going on, the following
            assertion will not hold */
-        if (bddManager->pipelineState != CREATE){
+        if (bddManager->pipelineState == READY){
           Cal_Assert(CalBddNodeIsRefCountZero(bddNode) ||
                      CalBddNodeIsRefCountMax(bddNode));
         }
-- 
2.43.0


From d4ffab8977db40d8a448399d02f798ad914ef5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 14/31] fix: Compose and the n-ary operators leave the requests
 of an open pipeline alone

---
 src/calBddCompose.c | 4 +---
 src/calBddOp.c      | 8 ++++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/calBddCompose.c b/src/calBddCompose.c
index 6cda2c3..957fa4e 100644
--- a/src/calBddCompose.c
+++ b/src/calBddCompose.c
@@ -96,18 +96,16 @@ Cal_BddCompose(Cal_BddManager bddManager, Cal_Bdd  fUserBdd,
   CalRequestNodePutF(requestNode, F);
   CalRequestNodePutG(requestNode, H);
   CalRequestNodePutNextRequestNode(requestNode, 0);
-  bddManager->requestNodeListArray[0] = requestNode;
   /*
   ** We can achieve a superscalar compose operation, provided G
   ** is the same for all the compose operation
   */
 
-  CalRequestNodeListCompose(bddManager, bddManager->requestNodeListArray[0],
+  CalRequestNodeListCompose(bddManager, requestNode,
       CalBddGetBddIndex(bddManager, G));
 
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0], requestNode);
-  bddManager->requestNodeListArray[0] = Cal_Nil(CalRequestNode_t);
 
   return CalBddGetExternalBdd(bddManager, result);
 }
diff --git a/src/calBddOp.c b/src/calBddOp.c
index d445d22..bf4239a 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -740,7 +740,13 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   int pipeDepth;
   CalRequestNode_t *requestNode;
   Cal_Bdd_t result;
+  CalRequestNode_t **pipelineListArray = bddManager->requestNodeListArray;
 
+  /* An open pipeline keeps its requests in requestNodeListArray */
+  bddManager->requestNodeListArray = Cal_MemAlloc(CalRequestNode_t *,
+                                                  MAX_INSERT_DEPTH);
+  memset((char *)bddManager->requestNodeListArray, 0,
+         MAX_INSERT_DEPTH*sizeof(CalRequestNode_t *));
   BddArrayToRequestNodeListArray(bddManager, calBddArray, numBdds);
   CalRequestNodeListArrayOp(bddManager, bddManager->requestNodeListArray, op);
   for(pipeDepth = 0; pipeDepth < bddManager->depth-1; pipeDepth++){
@@ -760,6 +766,8 @@ BddMultiwayOp(Cal_BddManager_t * bddManager, Cal_Bdd_t * calBddArray,
   CalRequestNodeGetThenRequest(requestNode, result);
   CalNodeManagerFreeNode(bddManager->nodeManagerArray[0],
                          requestNode);
+  Cal_MemFree(bddManager->requestNodeListArray);
+  bddManager->requestNodeListArray = pipelineListArray;
   return result;
 }
 
-- 
2.43.0


From c042ea8ecff5e40386a31be869c29c455c4da664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 15/31] fix: pairwise operators return a null-terminated array
 and report overflows

---
 src/calBddOp.c | 25 ++++++++++++++++++++++---
 src/calObj.hh  |  6 +++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index bf4239a..d8b4b84 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -267,7 +267,8 @@ Cal_BddPairwiseAnd(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpAnd);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
@@ -309,12 +310,21 @@ Cal_BddPairwiseOr(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpOr);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
   Cal_MemFree(bddArray);
   Cal_MemFree(resultArray);
+  if (CalBddPostProcessing(bddManager)  == CAL_BDD_OVERFLOWED){
+    for (i=0; i<num/2; i++){
+      Cal_BddFree(bddManager, userResultArray[i]);
+      userResultArray[i] = Cal_BddNull(bddManager);
+    }
+    Cal_BddManagerGC(bddManager);
+    return userResultArray;
+  }
   return userResultArray;
 }
 
@@ -343,12 +353,21 @@ Cal_BddPairwiseXor(Cal_BddManager bddManager, Cal_Bdd *userBddArray)
     bddArray[i] = CalBddGetInternalBdd(bddManager, userBddArray[i]);
   }
   resultArray =  BddArrayOpBF(bddManager, bddArray, num, CalOpXor);
-  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2);
+  userResultArray = Cal_MemAlloc(Cal_Bdd, num/2+1);
+  userResultArray[num/2] = Cal_BddNull(bddManager);
   for (i=0; i<num/2; i++){
     userResultArray[i] = CalBddGetExternalBdd(bddManager, resultArray[i]);
   }
   Cal_MemFree(bddArray);
   Cal_MemFree(resultArray);
+  if (CalBddPostProcessing(bddManager)  == CAL_BDD_OVERFLOWED){
+    for (i=0; i<num/2; i++){
+      Cal_BddFree(bddManager, userResultArray[i]);
+      userResultArray[i] = Cal_BddNull(bddManager);
+    }
+    Cal_BddManagerGC(bddManager);
+    return userResultArray;
+  }
   return userResultArray;
 }
 
diff --git a/src/calObj.hh b/src/calObj.hh
index 4ebd6d1..53b43c8 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -741,12 +741,12 @@ protected:
   {
     std::vector<BDD> res;
 
+    if (!bddArray) { return res; }
+
     for (int i = 0; Cal_BddIsBddNull(bddManager, bddArray[i]) == 0; i++){
-      if (CalBddPreProcessing(bddManager, 1, bddArray[i]) == 0){
-        return std::vector<BDD>();
-      }
       res.push_back(BDD(bddManager, bddArray[i]));
     }
+    Cal_MemFree(bddArray);
 
     return res;
   }
-- 
2.43.0


From da611fd74b731e6a459c54bd8c5f3ed969e51ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 16/31] fix: n-ary operators accept more than 1024 operands

---
 src/calBddOp.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/calBddOp.c b/src/calBddOp.c
index d8b4b84..9fb855f 100644
--- a/src/calBddOp.c
+++ b/src/calBddOp.c
@@ -804,10 +804,6 @@ BddArrayToRequestNodeListArray(
   CalRequestNode_t *even, *odd, *requestNode, *requestNodeList, *head;
 
   bddManager->depth = CeilLog2(numBdds);
-  if (bddManager->depth > 10){
-    CalBddFatalMessage("Don't be stooopid\n, Use lesser depth\n");
-  }
-
   if (bddManager->depth > bddManager->maxDepth){
     /* Need to reallocate the memory for reqQue and
        requestNodeListArray */
-- 
2.43.0


From a42d917064566e889308fcff6159192f28ea611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 17/31] fix: Profile and FunctionProfile of the C++ interface
 return the counts

---
 src/calObj.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/calObj.hh b/src/calObj.hh
index 53b43c8..13a9d05 100644
--- a/src/calObj.hh
+++ b/src/calObj.hh
@@ -597,8 +597,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> Profile(bool negout = true) const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddProfile(this->_bddManager, this->_bdd, results.data(), negout);
     return results;
   }
@@ -629,8 +628,7 @@ public:
   //////////////////////////////////////////////////////////////////////////////
   std::vector<long> FunctionProfile() const
   {
-    std::vector<long> results;
-    results.reserve(Cal_BddVars(this->_bddManager)+1);
+    std::vector<long> results(Cal_BddVars(this->_bddManager)+1);
     Cal_BddFunctionProfile(this->_bddManager, this->_bdd, results.data());
     return results;
   }
@@ -1955,8 +1953,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> levelCounts;
-    levelCounts.reserve(this->Vars()+1);
+    std::vector<long> levelCounts(this->Vars()+1);
 
     Cal_BddProfileMultiple(this->_bddManager,
                            c_arg.data(),
@@ -2066,8 +2063,7 @@ public:
     std::vector<Cal_Bdd> c_arg =
       BDD::C_Bdd_vector(this->_bddManager, std::move(begin), std::move(end));
 
-    std::vector<long> funcCounts;
-    funcCounts.reserve(Vars()+1);
+    std::vector<long> funcCounts(Vars()+1);
 
     Cal_BddFunctionProfileMultiple(this->_bddManager, c_arg.data(), funcCounts.data());
 
-- 
2.43.0


From 19db611e030bff561f92a37d1432439678bd4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 18/31] fix: reordering takes unreachable nodes with saturated
 reference counts into account

---
 src/calInteract.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/calInteract.c b/src/calInteract.c
index 5902470..b70d6a4 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -209,6 +209,30 @@ CalInitInteract(Cal_BddManager_t *bddManager)
     ddAssociationInteract(bddManager, assoc, support);
   }
   ddAssociationInteract(bddManager, bddManager->tempAssociation, support);
+  /* A node with a saturated reference count survives every collection,
+     even if no root reaches it anymore */
+  for (i = 1; i <= n; i++){
+    CalHashTable_t *uniqueTableForId = bddManager->uniqueTable[i];
+    int refCount;
+    long bin;
+    for (bin = 0; bin < uniqueTableForId->numBins; bin++){
+      for (bddNode = uniqueTableForId->bins[bin]; bddNode;
+           bddNode = nextBddNode){
+        Cal_Bdd_t internalBdd;
+        nextBddNode = CalBddNodeGetNextBddNode(bddNode);
+        CalBddNodeGetRefCount(bddNode, refCount);
+        if (refCount < CAL_MAX_REF_COUNT) continue;
+        CalBddPutBddId(internalBdd, i);
+        CalBddPutBddNode(internalBdd, bddNode);
+        for (k = 0; k < n; k++) {
+          support[k] = 0;
+        }
+        ddSuppInteract(bddManager, internalBdd, support);
+        ddClearLocal(internalBdd);
+        ddUpdateInteract(bddManager, support);
+      }
+    }
+  }
 
   /* If there are some results pending in the pipeline, we need to
      take those into account as well */
-- 
2.43.0


From 8a67f6e272ff26daef6002c02cedc0e1ac5bfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 19/31] fix: the function profile of several functions counts
 roots inside each other once

---
 src/calBddSize.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calBddSize.c b/src/calBddSize.c
index 18db633..6cd8381 100644
--- a/src/calBddSize.c
+++ b/src/calBddSize.c
@@ -272,6 +272,7 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   Cal_BddIndex_t j;
   Cal_Bdd_t *f, *fArray;
   CalHashTable_t *h;
+  int *dataPtr;
 
   Cal_Bdd userBdd;
 
@@ -301,7 +302,13 @@ Cal_BddFunctionProfileMultiple(Cal_BddManager bddManager, Cal_Bdd
   }
   i = -1;
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
-    CalHashTableOneInsert(h, *f, (char *)&i);
+    /* A root may also be a subfunction of another one */
+    if(CalHashTableOneLookup(h, *f, (char **)&dataPtr)){
+      *dataPtr = -1;
+    }
+    else{
+      CalHashTableOneInsert(h, *f, (char *)&i);
+    }
   }
   for(f = fArray; !CalBddIsBddNull(bddManager, *f); ++f){
     BddDominatedStep(bddManager, *f, funcCounts, h);
-- 
2.43.0


From 3917e9ed0ffcb5f5f61581625dd52fdec2303cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 20/31] fix: collecting garbage with repacking keeps the table
 of variables current

---
 src/calGC.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calGC.c b/src/calGC.c
index 1a4b091..0d6e139 100644
--- a/src/calGC.c
+++ b/src/calGC.c
@@ -366,6 +366,11 @@ CalRepackNodesAfterGC(Cal_BddManager_t *bddManager)
   /* Fix the user BDDs */
   CalBddReorderFixUserBddPtrs(bddManager);
 
+  /* Fix the variables */
+  for (id = 1; id <= bddManager->numVars; id++){
+    CalBddIsForwardedTo(bddManager->varBdds[id]);
+  }
+
   /* Fix the association */
   CalReorderAssociationFix(bddManager);
 
-- 
2.43.0


From 3426159738053e902fe01d3e6ca3eb0e3ca81c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 21/31] fix: temporary association op codes no longer run into
 the other operations' codes

---
 src/calBddVarSubstitute.c |  2 +-
 src/calCacheTableTwo.c    | 21 +++++++++++++++++++++
 src/calInt.h              |  2 ++
 src/calQuant.c            |  7 +++----
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 4dc1bba..1e9395c 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -88,7 +88,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_VAR_SUBSTITUTE + assoc->id;
diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 8450793..6deea05 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -470,6 +470,27 @@ CalCacheTableRehash(Cal_BddManager_t *bddManager)
     CacheTableTwoRehash(cacheTable, 1);
   }
 }
+/**Function********************************************************************
+  Returns an operation code for the temporary association and reserves numCodes
+  consecutive codes, the returned one being the largest. The codes count down
+  towards the ones of the other operations: when they are used up, they start
+  anew, after everything stored under the previous ones has been flushed.
+******************************************************************************/
+unsigned short
+CalCacheTableTwoTempOpCode(Cal_BddManager_t *bddManager, int numCodes)
+{
+  unsigned short opCode;
+
+  if (bddManager->tempOpCode < CAL_OP_TEMP_MIN + numCodes){
+    CalCacheTableTwoFlush(bddManager->cacheTable);
+    bddManager->tempOpCode = (unsigned short)-1;
+  }
+  opCode = bddManager->tempOpCode;
+  bddManager->tempOpCode -= numCodes;
+  return opCode;
+}
+
+
 /**Function********************************************************************
   Flushes the entries from the cache corresponding to the given associationId.
 ******************************************************************************/
diff --git a/src/calInt.h b/src/calInt.h
index bb3e7a9..790ba3f 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -253,6 +253,7 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_COMPOSE 0x6000
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
+#define  CAL_OP_TEMP_MIN 0x9000 /* Smallest code of a temporary association */
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
@@ -1553,6 +1554,7 @@ EXTERN void CalCacheTableTwoFixResultPointers(Cal_BddManager_t *bddManager);
 EXTERN void CalCacheTablePrint(Cal_BddManager_t *bddManager);
 EXTERN void CalBddManagerGetCacheTableData(Cal_BddManager_t *bddManager, unsigned long *cacheSize, unsigned long *cacheEntries, unsigned long *cacheInsertions, unsigned long *cacheLookups, unsigned long *cacheHits, unsigned long *cacheCollisions);
 EXTERN void CalCacheTableRehash(Cal_BddManager_t *bddManager);
+EXTERN unsigned short CalCacheTableTwoTempOpCode(Cal_BddManager_t *bddManager, int numCodes);
 EXTERN void CalCacheTableTwoFlushAssociationId(Cal_BddManager_t *bddManager, int associationId);
 EXTERN unsigned long CalCacheTableMemoryConsumption(CalCacheTable_t *cacheTable);
 EXTERN void CalBddManagerGCCheck(Cal_BddManager_t * bddManager);
diff --git a/src/calQuant.c b/src/calQuant.c
index e5ec784..6e8ea50 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -106,7 +106,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
@@ -145,8 +145,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     unsigned short opCode;
 
     if (bddManager->currentAssociation->id == -1){
-      opCode = bddManager->tempOpCode--;
-      bddManager->tempOpCode--;
+      opCode = CalCacheTableTwoTempOpCode(bddManager, 2);
     }
     else {
       opCode = CAL_OP_REL_PROD + assoc->id;
@@ -184,7 +183,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
 
     CalBddNot(f, f);
     if (assoc->id == -1){
-      opCode = bddManager->tempOpCode--;
+      opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
       opCode = CAL_OP_QUANT + assoc->id;
-- 
2.43.0


From a7d40f704365b17174ae3842bc313ff8bdf533a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 22/31] fix: witnesses of disjoint functions no longer explore
 every path

Cal_BddIntersects and Cal_BddImplies recursed without remembering pairs
of subfunctions already found to be disjoint, so that they took time
exponential in the number of variables for small diagrams.
---
 src/cal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 24e7464..6523448 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -681,6 +681,11 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
       return bddManager->bddZero;
   }
   if (CAL_BDD_OUT_OF_ORDER(f, g)) CAL_BDD_SWAP(f, g);
+  /* Pairs already found to be disjoint must not be explored again. */
+  if (CalCacheTableTwoLookup(bddManager, f, g, CAL_OP_NAND, &temp) &&
+      CalBddIsBddOne(bddManager, temp)){
+    return bddManager->bddZero;
+  }
   CalBddGetMinId2(bddManager, f, g, topId);
   CalBddGetCofactors(f, topId, f1, f2);
   CalBddGetCofactors(g, topId, g1, g2);
@@ -688,6 +693,8 @@ BddIntersectsStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t  g)
   if (CalBddIsBddZero(bddManager, temp)){
     temp = BddIntersectsStep(bddManager, f2, g2);
     if (CalBddIsBddZero(bddManager, temp)){
+      CalCacheTableTwoInsert(bddManager, f, g, bddManager->bddOne,
+                             CAL_OP_NAND, 0);
       return bddManager->bddZero;
     }
     else{
-- 
2.43.0


From bfc24e042be29aead5f7bd1b4b6c762fc5c0ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 23/31] fix: an association that gives a variable twice
 protects only the function it keeps

---
 src/calAssociation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calAssociation.c b/src/calAssociation.c
index d46fe3d..9d5716c 100644
--- a/src/calAssociation.c
+++ b/src/calAssociation.c
@@ -173,9 +173,11 @@ Cal_AssociationInit(Cal_BddManager bddManager,
   p->refCount = 1;
   /* Protect BDDs in the association. */
   if(pairs){
-    for(i = 0; i < numAssociations; i++){
-      f = associationInfo[(i<<1)+1];
-      CalBddIcrRefCount(f);
+    for(i = 1; i <= bddManager->numVars; i++){
+      f = varAssociation[i];
+      if(!CalBddIsBddNull(bddManager, f)){
+        CalBddIcrRefCount(f);
+      }
     }
   }
   Cal_MemFree(associationInfo);
-- 
2.43.0


From 00e0a2928b063977028cffca017f1de94f50bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:52 +0000
Subject: [PATCH 24/31] fix: a dump that could not be written completely is not
 reported as written

---
 src/calDump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calDump.c b/src/calDump.c
index 0a70037..b9ac6fb 100644
--- a/src/calDump.c
+++ b/src/calDump.c
@@ -262,7 +262,8 @@ Cal_BddDumpBdd(
     BddDumpBddStep(bddManager, f, fp, h, normalizedIndexes, indexSize, nodeNumberSize);
     CalHashTableOneQuit(h);
     Cal_MemFree(normalizedIndexes);
-    return (1);
+    /* Not written successfully if the stream reports an error */
+    return (ferror(fp) == 0);
   }
   return (0);
 }
-- 
2.43.0


From 862f060d123ce61143972fc8617f62675a58c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 25/31] fix: substitution keeps its request nodes for reuse
 instead of losing them

---
 src/calBddSubstitute.c    | 6 ++----
 src/calBddVarSubstitute.c | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/calBddSubstitute.c b/src/calBddSubstitute.c
index 26eef5e..10e4a43 100644
--- a/src/calBddSubstitute.c
+++ b/src/calBddSubstitute.c
@@ -342,20 +342,18 @@ CalHashTableSubstituteReduce(
   }
 
 
-  /*last = Cal_Nil(CalRequestNode_t);*/
   for(requestNode = requestNodeListForITE;
       requestNode != Cal_Nil(CalRequestNode_t);
-      /*last = requestNode, */
       requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  /*CalBddNodePutNextBddNode(endNode, requestNodeListForITE);*/
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
 
   /* ITE Cleanup */
diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 1e9395c..8b11db2 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -278,7 +278,7 @@ CalHashTableSubstituteReduce(
   /*CalRequestNode_t *requestNodeList = hashTable->requestNodeList;*/
   CalRequestNode_t *endNode = hashTable->endNode;
   CalRequestNode_t *requestNodeListForITE = Cal_Nil(CalRequestNode_t);
-  CalRequestNode_t *requestNode, *next, *last;
+  CalRequestNode_t *requestNode, *next;
   CalBddNode_t *bddNode;
   Cal_Bdd_t varBdd;
   Cal_Bdd_t thenBdd, elseBdd, result;
@@ -476,19 +476,18 @@ CalHashTableSubstituteReduce(
     }
   }
 
-  last = Cal_Nil(CalRequestNode_t);
   for(requestNode = requestNodeListForITE; 
       requestNode != Cal_Nil(CalRequestNode_t);
-      last = requestNode, 
       requestNode = CalRequestNodeGetNextRequestNode(requestNode)){
     CalRequestNodeGetThenRequest(requestNode, result);
     CalBddNodeGetRefCount(requestNode, refCount);
     CalRequestIsForwardedTo(result);
     CalBddAddRefCount(result, refCount);
     CalRequestNodePutThenRequest(requestNode, result);
+    endNode->nextBddNode = requestNode;
+    endNode = requestNode;
   }
 
-  endNode->nextBddNode = requestNodeListForITE;
   hashTable->endNode = endNode;
   /* ITE Cleanup */
   for(bddId = 1; bddId <= bddManager->numVars; bddId++){
-- 
2.43.0


From a0b4490a125a44578d2669d6b94a4ba9ebccdd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:45 +0000
Subject: [PATCH 26/31] fix: breadth-first sifting reclaims the nodes it
 forwards

---
 src/calReorderBF.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/calReorderBF.c b/src/calReorderBF.c
index 6070ad7..d72d3ab 100644
--- a/src/calReorderBF.c
+++ b/src/calReorderBF.c
@@ -139,7 +139,7 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
 {
   CalHashTable_t *uniqueTableForId =
       bddManager->uniqueTable[id];
-  CalBddNode_t *bddNode, *nextBddNode;
+  CalBddNode_t *bddNode, *nextBddNode, *lastFixed = Cal_Nil(CalBddNode_t);
   Cal_Bdd_t thenBdd;
 
   /* These are the forwarding nodes. */
@@ -151,6 +151,7 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
     if (CalBddIsForwarded(thenBdd)) {
       CalBddForward(thenBdd);
       CalBddNodePutThenBdd(bddNode, thenBdd);
+      lastFixed = bddNode;
     }
     else {
       /* there should not be anymore double forwarding */
@@ -158,10 +159,14 @@ BddReorderFixForwardingNodes(Cal_BddManager bddManager,
     }
     Cal_Assert(CalBddIsForwarded(thenBdd) == 0);
   }
-  /* Adjust the list */
-  uniqueTableForId->endNode->nextBddNode =
-      uniqueTableForId->startNode.nextBddNode;
-  uniqueTableForId->startNode.nextBddNode = bddNode;
+  /* Adjust the list: the fixed nodes go to its end */
+  if (lastFixed && bddNode){
+    uniqueTableForId->endNode->nextBddNode =
+        uniqueTableForId->startNode.nextBddNode;
+    uniqueTableForId->endNode = lastFixed;
+    lastFixed->nextBddNode = Cal_Nil(CalBddNode_t);
+    uniqueTableForId->startNode.nextBddNode = bddNode;
+  }
 }
 
 /**Function********************************************************************
@@ -439,6 +444,10 @@ BddReorderSwapVarIndex(Cal_BddManager_t * bddManager, int varIndex,
   bddNode = processingNodeList;
   /*endNode = uniqueTableForId->endNode;*/
   startNode = uniqueTableForId->startNode.nextBddNode;
+  if (startNode == Cal_Nil(CalBddNode_t) && bddNode){
+    /* The first node put into the list is its last one */
+    uniqueTableForId->endNode = bddNode;
+  }
   while (bddNode != Cal_Nil(CalBddNode_t)) {
     nextBddNode = CalBddNodeGetNextBddNode(bddNode);
 
-- 
2.43.0


From 43fb2512afafe534019e090d38c019e1681d35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:39 +0000
Subject: [PATCH 27/31] fix: printed peak node usage ignored everything since
 the last collection

---
 src/cal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cal.c b/src/cal.c
index 6523448..9f1c0f0 100644
--- a/src/cal.c
+++ b/src/cal.c
@@ -343,6 +343,10 @@ Cal_BddStats(Cal_BddManager bddManager, FILE * fp)
   long numPages;
   unsigned long totalBytes;
 
+  /* The peak is otherwise only brought up to date by a collection. */
+  if (bddManager->numPeakNodes < bddManager->numNodes){
+    bddManager->numPeakNodes = bddManager->numNodes;
+  }
 
   fprintf(fp, "**** CAL modifiable parameters ****\n");
   fprintf(fp, "Node limit: %ld\n", bddManager->nodeLimit);
-- 
2.43.0


From 70b0145b7e315344a2976eecd6ee639ac334c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:49 +0000
Subject: [PATCH 28/31] Verification hooks: size of the computed table

---
 src/calCacheTableTwo.c | 4 ++++
 src/calInt.h           | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 6deea05..719b89a 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -42,7 +42,11 @@
 /* Constant declarations                                                     */
 /*---------------------------------------------------------------------------*/
 /* cache table management related constants */
+#ifdef CAL_VERIF_HOOKS
+#define CACHE_TABLE_DEFAULT_SIZE_INDEX calVerifCacheIndex
+#else
 #define CACHE_TABLE_DEFAULT_SIZE_INDEX 16
+#endif
 #define CACHE_TABLE_DEFAULT_CACHE_RATIO 4
 
 /*---------------------------------------------------------------------------*/
diff --git a/src/calInt.h b/src/calInt.h
index 790ba3f..1dac797 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -95,6 +95,7 @@
 extern long calVerifMinGCLimit;
 extern int calVerifGCCheck;
 extern unsigned long calVerifLargeBdd;
+extern int calVerifCacheIndex;
 #undef CAL_MIN_GC_LIMIT
 #undef CAL_GC_CHECK
 #define CAL_MIN_GC_LIMIT calVerifMinGCLimit
-- 
2.43.0


From afbf0105fe19ef994088689515bef09a4c0ca18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:35 +0000
Subject: [PATCH 29/31] fix: computed table sends all pairs with the same sum
 to one entry

Crosswise pairs of neighbouring nodes then keep evicting each other and
relational products recompute exponentially many subproblems.
---
 src/calCacheTableTwo.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calCacheTableTwo.c b/src/calCacheTableTwo.c
index 719b89a..c032b9b 100644
--- a/src/calCacheTableTwo.c
+++ b/src/calCacheTableTwo.c
@@ -85,12 +85,19 @@ struct CacheEntryStruct {
 /*---------------------------------------------------------------------------*/
 /* Macro declarations                                                        */
 /*---------------------------------------------------------------------------*/
+/* Symmetric in the operands. Their sum alone would send all pairs with the
+   same sum, such as the crosswise pairs of neighbouring nodes, to one entry. */
+#define CacheTableTwoMix(operand1, operand2) \
+   (((((CalAddress_t)(operand1)) + ((CalAddress_t)(operand2))) / NODE_SIZE) + \
+    (((((CalAddress_t)(operand1)) / NODE_SIZE) * \
+      (((CalAddress_t)(operand2)) / NODE_SIZE) * 0x9E3779B97F4A7C15ull) >> 40))
+
 #ifdef USE_POWER_OF_2
 #  define CacheTableTwoDoHash(table, operand1, operand2, opCode) \
-   (((((((CalAddress_t)(operand1)) +	((CalAddress_t)(operand2))) / NODE_SIZE) << 2) + opCode + ((CalAddress_t)operand1 & 0x1)+ (((CalAddress_t)operand2 & 0x1)<<1)) &((table)->numBins - 1))
+   (((CacheTableTwoMix(operand1, operand2) << 2) + opCode + ((CalAddress_t)operand1 & 0x1)+ (((CalAddress_t)operand2 & 0x1)<<1)) &((table)->numBins - 1))
 #else
 #  define CacheTableTwoDoHash(table, operand1, operand2, opCode) \
-   ((((((CalAddress_t)(operand1)) +	((CalAddress_t)(operand2))) / NODE_SIZE) + opCode + ((CalAddress_t)operand1 & 0x1)+ ((CalAddress_t)operand2 & 0x1)) %((table)->numBins))
+   ((CacheTableTwoMix(operand1, operand2) + opCode + ((CalAddress_t)operand1 & 0x1)+ ((CalAddress_t)operand2 & 0x1)) %((table)->numBins))
 /*(((((CalAddress_t)(operand1)) +	((CalAddress_t)(operand2))) + opCode) &((table)->numBins - 1))
 ((opCode + (((CalAddress_t)(operand1)) << 1) + (((CalAddress_t)(operand2)) <<2)) &((table)->numBins - 1))
 ((opCode + ((((CalAddress_t)(operand1)) + ((CalAddress_t)(operand2))) )+(((CalAddress_t)operand1 & 0x1) << (table->sizeIndex-1)) + (((CalAddress_t)operand2 & 0x1) << (table->sizeIndex-2))) &((table)->numBins - 1))
-- 
2.43.0


From 89bdedba78bf5a5ef42112b070da6e3e9cd2fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:04 +0000
Subject: [PATCH 30/31] fix: interaction matrix of more than 46341 variables
 overflowed an int

Depth-first reordering then crashed.
---
 src/calInteract.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/calInteract.c b/src/calInteract.c
index b70d6a4..8014377 100644
--- a/src/calInteract.c
+++ b/src/calInteract.c
@@ -109,13 +109,14 @@ static void ddAssociationInteract(Cal_BddManager_t *bddManager, CalAssociation_t
 void
 CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit;
+    long posn, word;
+    int bit;
 
     Cal_Assert(x < y);
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long)bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     bddManager->interact[word] |= 1 << bit;
@@ -133,7 +134,8 @@ CalSetInteract(Cal_BddManager_t *bddManager, int x, int y)
 int
 CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
 {
-    int posn, word, bit, result;
+    long posn, word;
+    int bit, result;
 
     x -= 1;
     y -= 1;
@@ -147,7 +149,7 @@ CalTestInteract(Cal_BddManager_t *bddManager, int x, int y)
     Cal_Assert(y < bddManager->numVars);
     Cal_Assert(x >= 0);
 
-    posn = ((((bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
+    posn = (((((long)bddManager->numVars << 1) - x - 3) * x) >> 1) + y - 1;
     word = posn >> LOGBPL;
     bit = posn & (BPL-1);
     result = (bddManager->interact[word] >> bit) & 1;
@@ -167,7 +169,7 @@ int
 CalInitInteract(Cal_BddManager_t *bddManager)
 {
   int i,k;
-  int words;
+  long word, words;
   long *interact;
   int *support;
   long numBins;
@@ -176,11 +178,11 @@ CalInitInteract(Cal_BddManager_t *bddManager)
 
   int n = bddManager->numVars;
 
-  words = ((n * (n-1)) >> (1 + LOGBPL)) + 1;
+  words = (((long)n * (n-1)) >> (1 + LOGBPL)) + 1;
   bddManager->interact = interact = Cal_MemAlloc(long, words);
   if (interact == NULL) return(0);
-  for (i = 0; i < words; i++) {
-      interact[i] = 0;
+  for (word = 0; word < words; word++) {
+      interact[word] = 0;
   }
 
   support = Cal_MemAlloc(int, n);
-- 
2.43.0


From ebf2ac187e8257da9dcf7a66b7d6580dd3f6aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:06 +0000
Subject: [PATCH 31/31] fix: operation codes of associations with ids of 4096
 and more overlapped

Quantification under such an association and a substitution of variables
under another one then shared entries of the computed table.
---
 src/calBddVarSubstitute.c | 2 +-
 src/calInt.h              | 2 ++
 src/calQuant.c            | 8 ++++----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/calBddVarSubstitute.c b/src/calBddVarSubstitute.c
index 8b11db2..aabfbfb 100644
--- a/src/calBddVarSubstitute.c
+++ b/src/calBddVarSubstitute.c
@@ -87,7 +87,7 @@ Cal_BddVarSubstitute(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     Cal_Bdd_t f = CalBddGetInternalBdd(bddManager, fUserBdd);
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCode(assoc)){
       opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
diff --git a/src/calInt.h b/src/calInt.h
index 1dac797..52af7ce 100644
--- a/src/calInt.h
+++ b/src/calInt.h
@@ -255,6 +255,7 @@ extern unsigned long calPrimes[];
 #define  CAL_OP_SUBST 0x7000
 #define  CAL_OP_VAR_SUBSTITUTE 0x8000
 #define  CAL_OP_TEMP_MIN 0x9000 /* Smallest code of a temporary association */
+#define  CAL_OP_MAX_ASSOCIATIONS 0x1000 /* Codes per operation; further associations use the ones for temporary associations */
 
 #define  CAL_LARGE_BDD (1<<19) /* For smaller BDDs, we would
                                   use depth-first exist and forall routines */
@@ -887,6 +888,7 @@ double calAfterReduceToAfterApplyNodesRatio, calAfterReduceToUniqueTableNodesRat
 #define CalBddIsBddOne(manager, calBdd) CalBddIsEqual(calBdd, (manager)->bddOne)
 #define CalBddIsBddZero(manager, calBdd) CalBddIsEqual(calBdd, (manager)->bddZero)
 #define CalBddIsBddNull(manager, calBdd) CalBddIsEqual(calBdd,(manager)->bddNull)
+#define CalAssociationHasOpCode(assoc) (((assoc)->id >= 0) && ((assoc)->id < CAL_OP_MAX_ASSOCIATIONS))
 #define CalBddManagerGetBddOne(manager) ((manager)->bddOne)
 #define CalBddManagerGetBddZero(manager) ((manager)->bddZero)
 #define CalBddManagerGetBddNull(manager) (manager)->bddNull
diff --git a/src/calQuant.c b/src/calQuant.c
index 6e8ea50..5ecb7f0 100644
--- a/src/calQuant.c
+++ b/src/calQuant.c
@@ -105,7 +105,7 @@ Cal_BddExists(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCode(assoc)){
       opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
@@ -144,7 +144,7 @@ Cal_BddRelProd(Cal_BddManager bddManager, Cal_Bdd fUserBdd, Cal_Bdd gUserBdd)
     CalAssociation_t *assoc = bddManager->currentAssociation;
     unsigned short opCode;
 
-    if (bddManager->currentAssociation->id == -1){
+    if (!CalAssociationHasOpCode(assoc)){
       opCode = CalCacheTableTwoTempOpCode(bddManager, 2);
     }
     else {
@@ -182,7 +182,7 @@ Cal_BddForAll(Cal_BddManager bddManager, Cal_Bdd fUserBdd)
     unsigned short opCode;
 
     CalBddNot(f, f);
-    if (assoc->id == -1){
+    if (!CalAssociationHasOpCode(assoc)){
       opCode = CalCacheTableTwoTempOpCode(bddManager, 1);
     }
     else {
@@ -310,7 +310,7 @@ BddRelProdStep(Cal_BddManager_t * bddManager, Cal_Bdd_t  f, Cal_Bdd_t
     if (CalBddIsBddZero(bddManager, f) || CalBddIsBddZero(bddManager, g)){
       return bddManager->bddZero;
     }
-    if (assoc->id != -1){
+    if (CalAssociationHasOpCode(assoc)){
       opCode = CAL_OP_QUANT+assoc->id;
     }
     else{
-- 
2.43.0

