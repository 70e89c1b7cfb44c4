From 1ac00b9e4cb79ba348b2afda9b31b30acd8cf004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 01/64] fix: ArrayItr claims an element when the array is empty
 or the first constraint is absent

---
 src/trident/iterators/arrayitr.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..6d4bf66 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -181,10 +181,6 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
                         && array->at(pos).second < constraint2) {
                     pos++;
                 }
-                hasNextChecked = true;
-                n = pos < nElements && array->at(pos).second == constraint2;
-            } else {
-                hasNextChecked = n = true;
             }
         } else {
             hasNextChecked = true;
@@ -193,7 +189,6 @@ void ArrayItr::init(std::shared_ptr<Pairs> values, int64_t v1, int64_t v2) {
         }
     } else {
         pos = 0;
-        hasNextChecked = n = true;
     }
 }
 
-- 
2.43.0


From cee2e1e1323b3943f048828afcd8c45cd1312c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 02/64] fix: MergeUnion repeats the last right value when the
 left input ends on a match

---
 rdf3x/src/rts/MergeUnion.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdf3x/src/rts/MergeUnion.cpp b/rdf3x/src/rts/MergeUnion.cpp
index 89a3e47..4eb2db6 100644
--- a/rdf3x/src/rts/MergeUnion.cpp
+++ b/rdf3x/src/rts/MergeUnion.cpp
@@ -79,6 +79,14 @@ uint64_t MergeUnion::next()
       case done: return false;
       case stepLeft: case stepBoth:
          if ((leftCount=left->next())==0) {
+            // The right value was already produced if both sides matched
+            if (state==stepBoth) {
+               if ((rightCount=right->next())==0) {
+                  state=done;
+                  return false;
+               }
+               rightValue=rightReg->value;
+            }
             result->value=rightValue;
             state=leftEmpty;
             observedOutputCardinality+=rightCount;
-- 
2.43.0


From 660b96f75e954693c42f9fb64e74322cfbe11f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 03/64] fix: ValuesScan drops rows of several values and cannot
 be restarted

---
 rdf3x/src/rts/ValuesScan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/ValuesScan.cpp b/rdf3x/src/rts/ValuesScan.cpp
index 4aef4b8..24e8773 100644
--- a/rdf3x/src/rts/ValuesScan.cpp
+++ b/rdf3x/src/rts/ValuesScan.cpp
@@ -6,7 +6,7 @@ ValuesScan::ValuesScan(std::vector<Register*> regs,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
     regs(regs), values(values) {
         if (regs.size() > 0)
-            toBeProcessed = values.size() / regs.size();
+            toBeProcessed = values.size() - values.size() % regs.size();
         else
             toBeProcessed = 0;
         processed = 0;
@@ -18,6 +18,7 @@ ValuesScan::~ValuesScan() {
 
 /// Produce the first tuple
 uint64_t ValuesScan::first() {
+    processed = 0;
     if (processed < toBeProcessed) {
         for (auto v : regs) {
             v->value = values[processed++];
-- 
2.43.0


From 4dac2698b9064d4ae0bd28bbb89f85aa27ac5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 04/64] fix: joins, unions and expressions mark an unbound
 value with id 2^32-1 instead of the unbound marker

---
 rdf3x/src/rts/CartProd.cpp  |  4 +--
 rdf3x/src/rts/HashJoin.cpp  |  4 +--
 rdf3x/src/rts/MergeJoin.cpp | 64 ++++++++++++++++++-------------------
 rdf3x/src/rts/Selection.cpp |  4 +--
 rdf3x/src/rts/Union.cpp     |  2 +-
 5 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 368f58c..79e5cfa 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -153,7 +153,7 @@ uint64_t CartProd::next()
     joinSuccedeed = true;
     //Set the hash values to NULL
     for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-    leftTail[index]->value = ~0u;
+    leftTail[index]->value = UINT64_MAX;
     return rightCount;
     }
 
@@ -166,7 +166,7 @@ uint64_t CartProd::next()
     currentIdx = 0;
     for (uint64_t index = 0, limit = rightTail.size();
     index < limit; ++index)
-    rightTail[index]->value = ~0u;
+    rightTail[index]->value = UINT64_MAX;
     return next();
     }
     }
diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index 8864907..d305f60 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -255,7 +255,7 @@ uint64_t HashJoin::next()
             joinSuccedeed = true;
             //Set the hash values to NULL
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             return rightCount;
         }
 
@@ -273,7 +273,7 @@ uint64_t HashJoin::next()
                 currentIdx = 0;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
-                    rightTail[index]->value = ~0u;
+                    rightTail[index]->value = UINT64_MAX;
                 return next();
             }
         }
diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 542467b..add3587 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -46,9 +46,9 @@ uint64_t MergeJoin::first()
                 return false;
             }
             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                leftTail[index]->value = ~0u;
+                leftTail[index]->value = UINT64_MAX;
             }
-            leftValue->value = ~0u;
+            leftValue->value = UINT64_MAX;
             scanState = loopEmptyLeft;
             observedOutputCardinality += rightCount;
             return rightCount;
@@ -59,9 +59,9 @@ uint64_t MergeJoin::first()
     if ((rightCount=right->first())==0) {
         if (rightOptional) {
             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                rightTail[index]->value = ~0u;
+                rightTail[index]->value = UINT64_MAX;
             }
-            rightValue->value = ~0u;
+            rightValue->value = UINT64_MAX;
             scanState = loopEmptyRight;
             observedOutputCardinality += leftCount;
             return leftCount;
@@ -181,9 +181,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanHasBothSwapped) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -196,9 +196,9 @@ uint64_t MergeJoin::next()
                         if (scanState>scanStepLeft) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 } else {
                                     return false;
@@ -212,7 +212,7 @@ uint64_t MergeJoin::next()
                             uint64_t l=leftValue->value,r=rightValue->value;
                             if (l<r) {
                                 if (rightOptional) {
-                                    if (rightValue->value == ~0u) {
+                                    if (rightValue->value == UINT64_MAX) {
                                         // Means that right side is exhausted
                                         scanState = scanStepLeft;
                                         observedOutputCardinality += leftCount;
@@ -220,9 +220,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Right side is not exhausted. Push value aside.
                                     copyRight();
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step left, and get right from the shadow.
                                     scanState = scanStepLeftCopyRight;
@@ -234,7 +234,7 @@ uint64_t MergeJoin::next()
                             }
                             if (l>r) {
                                 if (leftOptional) {
-                                    if (leftValue->value == ~0u) {
+                                    if (leftValue->value == UINT64_MAX) {
                                         // Means that left side is exhausted
                                         scanState = scanStepRight;
                                         observedOutputCardinality += rightCount;
@@ -242,9 +242,9 @@ uint64_t MergeJoin::next()
                                     }
                                     // Left side is not exhausted. Push value aside.
                                     copyLeft();
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                     // But now, what is the next scanState? It should step right, and get left from the shadow.
                                     scanState = scanStepRightCopyLeft;
@@ -317,15 +317,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (leftOptional) {
-                                if (l != ~0u) {
+                                if (l != UINT64_MAX) {
                                     if (l > r) {
                                         // We need to compare the next "right" with this left as well.
                                         swapLeft();
                                         scanState = loopEmptyLeftCopyLeft;
                                     }
-                                    leftValue->value = ~0u;
+                                    leftValue->value = UINT64_MAX;
                                     for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                        leftTail[index]->value = ~0u;
+                                        leftTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality+=rightCount;
@@ -361,15 +361,15 @@ uint64_t MergeJoin::next()
                                 return count;
                             }
                             if (rightOptional) {
-                                if (r != ~0u) {
+                                if (r != UINT64_MAX) {
                                     if (r > l) {
                                         swapRight();
                                         scanState = loopEmptyRightCopyRight;
                                         // We need to compare the next "left" with this right as well.
                                     }
-                                    rightValue->value = ~0u;
+                                    rightValue->value = UINT64_MAX;
                                     for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                        rightTail[index]->value = ~0u;
+                                        rightTail[index]->value = UINT64_MAX;
                                     }
                                 }
                                 observedOutputCardinality += leftCount;
@@ -392,10 +392,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualLeft) {
                             if ((leftCount=left->next())==0) {
                                 if (leftOptional) {
-                                    if (leftValue->value != ~0u) {
-                                        leftValue->value = ~0u;
+                                    if (leftValue->value != UINT64_MAX) {
+                                        leftValue->value = UINT64_MAX;
                                         for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                            leftTail[index]->value = ~0u;
+                                            leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepRight;
@@ -426,10 +426,10 @@ uint64_t MergeJoin::next()
                         if (scanState==loopEqualRight) {
                             if ((rightCount=right->next())==0) {
                                 if (rightOptional) {
-                                    if (rightValue->value != ~0u) {
-                                        rightValue->value = ~0u;
+                                    if (rightValue->value != UINT64_MAX) {
+                                        rightValue->value = UINT64_MAX;
                                         for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                            rightTail[index]->value = ~0u;
+                                            rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
                                     scanState = scanStepLeft;
@@ -470,10 +470,10 @@ uint64_t MergeJoin::next()
                             } else {
                                 if ((leftCount=left->next())==0) {
                                     if (leftOptional) {
-                                        if (leftValue->value != ~0u) {
-                                            leftValue->value = ~0u;
+                                        if (leftValue->value != UINT64_MAX) {
+                                            leftValue->value = UINT64_MAX;
                                             for (int index = 0, limit = leftTail.size(); index < limit; ++index) {
-                                                leftTail[index]->value = ~0u;
+                                                leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyLeft;
@@ -495,10 +495,10 @@ uint64_t MergeJoin::next()
                                 // No, right hand side empty?
                                 if (scanState==loopSpooledRightEmpty) {
                                     if (rightOptional) {
-                                        if (rightValue->value != ~0u) {
-                                            rightValue->value = ~0u;
+                                        if (rightValue->value != UINT64_MAX) {
+                                            rightValue->value = UINT64_MAX;
                                             for (int index = 0, limit = rightTail.size(); index < limit; ++index) {
-                                                rightTail[index]->value = ~0u;
+                                                rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
                                         scanState = loopEmptyRight;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..6ba1cdd 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -640,7 +640,7 @@ string Selection::Neg::print(PlanPrinter& out)
 void Selection::Null::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u);
+    result.setId(UINT64_MAX);
 }
 //---------------------------------------------------------------------------
 string Selection::Null::print(PlanPrinter& /*out*/)
@@ -736,7 +736,7 @@ void Selection::FunctionCall::setSelection(Selection* s)
 void Selection::FunctionCall::eval(Result& result)
     // Evaluate the predicate
 {
-    result.setId(~0u); // XXX perform the call
+    result.setId(UINT64_MAX); // XXX perform the call
 }
 //---------------------------------------------------------------------------
 string Selection::FunctionCall::print(PlanPrinter& out)
diff --git a/rdf3x/src/rts/Union.cpp b/rdf3x/src/rts/Union.cpp
index 1863f3c..a8e8175 100644
--- a/rdf3x/src/rts/Union.cpp
+++ b/rdf3x/src/rts/Union.cpp
@@ -35,7 +35,7 @@ uint64_t Union::firstFromPart()
          continue;
       }
       for (std::vector<Register*>::const_iterator iter=initializations[current].begin(),limit=initializations[current].end();iter!=limit;++iter)
-         (*iter)->value=~0u;
+         (*iter)->value=UINT64_MAX;
       for (std::vector<Register*>::const_iterator iter=mappings[current].begin(),limit=mappings[current].end();iter!=limit;) {
          Register* from=*iter; ++iter;
          Register* to=*iter; ++iter;
-- 
2.43.0


From c94401cab793f577c9387daeed0e1764019d9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 05/64] fix: Sort reads outside the tuple when ordering by
 count or by a value it does not hold

---
 rdf3x/src/rts/Sort.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/Sort.cpp b/rdf3x/src/rts/Sort.cpp
index efe77ae..1b24319 100644
--- a/rdf3x/src/rts/Sort.cpp
+++ b/rdf3x/src/rts/Sort.cpp
@@ -117,11 +117,11 @@ Sort::Sort(DBLayer& db, Operator* input, const vector<Register*>& values, const
     for (vector<pair<Register*, bool> >::const_iterator iter = registerOrder.begin(), limit = registerOrder.end(); iter != limit; ++iter) {
         if (!(*iter).first) {
             Order o;
-            o.slot = ~0u;
+            o.slot = UINT64_MAX;
             o.descending = (*iter).second;
             order.push_back(o);
         } else {
-            uint64_t slot = ~0u;
+            uint64_t slot = UINT64_MAX;
             for (uint64_t index = 0; index < values.size(); index++)
                 if ((*iter).first == values[index]) {
                     slot = index;
-- 
2.43.0


From b5180de52227e3ce7db8ef5f516610bceb64cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 06/64] fix: optional MergeJoin loses mandatory rows when the
 optional side ends within a group of matches

---
 rdf3x/src/rts/MergeJoin.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index add3587..801c3f0 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -398,7 +398,9 @@ uint64_t MergeJoin::next()
                                             leftTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepRight;
+                                    // The next right tuple is waiting in the shadow
+                                    swapRight();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -432,7 +434,9 @@ uint64_t MergeJoin::next()
                                             rightTail[index]->value = UINT64_MAX;
                                         }
                                     }
-                                    scanState = scanStepLeft;
+                                    // The next left tuple is waiting in the shadow
+                                    swapLeft();
+                                    scanState = scanHasBoth;
                                     continue;
                                 }
                                 if (Operator::disableSkipping) {
@@ -476,7 +480,13 @@ uint64_t MergeJoin::next()
                                                 leftTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyLeft;
+                                        if (scanState == loopSpooledRightEmpty) {
+                                            scanState = empty;
+                                            return false;
+                                        }
+                                        // The next right tuple is waiting in the shadow
+                                        swapRight();
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
@@ -501,7 +511,8 @@ uint64_t MergeJoin::next()
                                                 rightTail[index]->value = UINT64_MAX;
                                             }
                                         }
-                                        scanState = loopEmptyRight;
+                                        // The current left tuple was not produced yet
+                                        scanState = scanHasBoth;
                                         continue;
                                     }
                                     if (Operator::disableSkipping) {
-- 
2.43.0


From 78836c59d81d7df9d48d5833295982caec9d53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 07/64] fix: optional HashJoin loses unmatched rows

---
 rdf3x/src/rts/HashJoin.cpp | 41 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/rdf3x/src/rts/HashJoin.cpp b/rdf3x/src/rts/HashJoin.cpp
index d305f60..3c4856e 100644
--- a/rdf3x/src/rts/HashJoin.cpp
+++ b/rdf3x/src/rts/HashJoin.cpp
@@ -202,8 +202,17 @@ uint64_t HashJoin::first()
 
     // Read the first tuple from the right side
     probePeekTask.run();
-    if (((rightCount = probePeekTask.count) == 0) && !leftOptional) {
-        return false;
+    if ((rightCount = probePeekTask.count) == 0) {
+        if (!rightOptional)
+            return false;
+        // Nothing to join with, all tuples of the hash table are left over
+        hashTableIter = NULL;
+        currentIdx = 0;
+        rightValue->value = UINT64_MAX;
+        for (uint64_t index = 0, limit = rightTail.size();
+                index < limit; ++index)
+            rightTail[index]->value = UINT64_MAX;
+        return next();
     }
 
     // Setup the lookup
@@ -220,17 +229,22 @@ uint64_t HashJoin::next()
     // Produce the next tuple
 {
     if (currentIdx != (size_t) -1) {
-        Entry *e;
-        while (currentIdx < hashTable.size()) {
-            if ((e = hashTable[currentIdx++])
-                    && !collectedRightValues.count(e->key)) {
-                for (uint64_t index = 0, limit = leftTail.size();
-                        index < limit; ++index)
-                    leftTail[index]->value = e->values[index];
-                return e->count;
-            }
+        // Produce all tuples of the keys that were never joined
+        while (!hashTableIter && currentIdx < hashTable.size()) {
+            hashTableIter = hashTable[currentIdx++];
+            if (hashTableIter && collectedRightValues.count(hashTableIter->key))
+                hashTableIter = NULL;
         }
-        return false;
+        if (!hashTableIter)
+            return false;
+        Entry *e = hashTableIter;
+        hashTableIter = e->next;
+        leftValue->value = e->key;
+        for (uint64_t index = 0, limit = leftTail.size();
+                index < limit; ++index)
+            leftTail[index]->value = e->values[index];
+        observedOutputCardinality += e->count;
+        return e->count;
     }
 
     // Repeat until a match is found
@@ -254,6 +268,8 @@ uint64_t HashJoin::next()
         if (!elementToProcess && !joinSuccedeed && leftOptional) {
             joinSuccedeed = true;
             //Set the hash values to NULL
+            leftValue->value = UINT64_MAX;
+            observedOutputCardinality += rightCount;
             for (uint64_t index = 0, limit = leftTail.size(); index < limit; ++index)
                 leftTail[index]->value = UINT64_MAX;
             return rightCount;
@@ -271,6 +287,7 @@ uint64_t HashJoin::next()
             } else {
                 //Scan the all left table. return a NULL for each entry not joined
                 currentIdx = 0;
+                rightValue->value = UINT64_MAX;
                 for (uint64_t index = 0, limit = rightTail.size();
                         index < limit; ++index)
                     rightTail[index]->value = UINT64_MAX;
-- 
2.43.0


From a977ecdcca5d6feaaf486adbeabe6f4aa7dd7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 08/64] fix: a failed lookup in a table function result is
 marked with id 2^32-1 instead of the unbound marker

---
 rdf3x/src/rts/TableFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/TableFunction.cpp b/rdf3x/src/rts/TableFunction.cpp
index 6076a3f..594274a 100644
--- a/rdf3x/src/rts/TableFunction.cpp
+++ b/rdf3x/src/rts/TableFunction.cpp
@@ -233,7 +233,7 @@ void TableFunction::requestTable()
             }
          }
          if (!ok) {
-            table.push_back(~0u);
+            table.push_back(UINT64_MAX);
          } else {
             table.push_back(id);
          }
-- 
2.43.0


From af7bbb2210fe92ebc62f8425394592af93bc73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 09/64] fix: NewRowTable reads a row past the end when looking
 up a pair

---
 include/trident/binarytables/newrowtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..0c92c12 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -238,12 +238,13 @@ class NewRowTable: public AbsNewTable {
             }
             int64_t v1 = Reader1::read(s);
             int64_t v2 = Reader2::read(s + Reader1::size());
-            while ((v1 < c1 || (v1 == c1 && v2 < c2)) && s < e) {
+            while ((v1 < c1 || (v1 == c1 && v2 < c2)) &&
+                    (s + Reader1::size() + Reader2::size()) < e) {
                 s += Reader1::size() + Reader2::size();
                 v1 = Reader1::read(s);
                 v2 = Reader2::read(s + Reader1::size());
             }
-            if (v1 == c1 && v2 == c2 && s < e) {
+            if (v1 == c1 && v2 == c2) {
                 setup(s, s + Reader1::size() + Reader2::size());
             } else {
                 setup(s, s);
-- 
2.43.0


From 74dbea196fe9d22ec3fb77051a6ac7187d70c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 10/64] fix: LongIntReader sign-extends five-byte values from
 2^39 on

---
 include/trident/binarytables/binarytablereaders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/binarytables/binarytablereaders.h b/include/trident/binarytables/binarytablereaders.h
index e00e672..f7ea0ae 100644
--- a/include/trident/binarytables/binarytablereaders.h
+++ b/include/trident/binarytables/binarytablereaders.h
@@ -71,7 +71,7 @@ public:
     }
 
     static uint64_t read(const char* buffer) {
-        uint64_t n = (int64_t) (buffer[0]) << 32;
+        uint64_t n = (int64_t) (buffer[0] & 0xFF) << 32;
         n += (int64_t) (buffer[1] & 0xFF) << 24;
         n += (buffer[2] & 0xFF) << 16;
         n += (buffer[3] & 0xFF) << 8;
-- 
2.43.0


From e25f21b77ca52e8ed02e8722fb773fa8defe80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 11/64] fix: columnNotIn returns a second value when asked to
 stop after the first

---
 src/trident/binarytables/newcolumntable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/binarytables/newcolumntable.cpp b/src/trident/binarytables/newcolumntable.cpp
index bc0c777..b54a59f 100644
--- a/src/trident/binarytables/newcolumntable.cpp
+++ b/src/trident/binarytables/newcolumntable.cpp
@@ -283,7 +283,7 @@ void NewColumnTable::columnNotIn11(const char *begin1, const char* end1,
         if (tv <= ov) {
             if (tv < ov) {
                 output->add(tv);
-                if (stopAfterFirst) break;
+                if (stopAfterFirst) return;
             }
             //move tv forward
             begin1 += bBlock1;
@@ -328,7 +328,7 @@ void NewColumnTable::columnNotIn12(const char *begin1, const char* end1,
         if (tv <= ov) {
             if (tv < ov) {
                 output->add(tv);
-                if (stopAfterFirst) break;
+                if (stopAfterFirst) return;
             }
             //move tv forward
             begin1 += bBlock1;
@@ -373,7 +373,7 @@ void NewColumnTable::columnNotIn21(const char *begin1, const char* end1,
         if (tv <= ov) {
             if (tv < ov) {
                 output->add(tv);
-                if (stopAfterFirst) break;
+                if (stopAfterFirst) return;
             }
             //move tv forward
             begin1 += bEntry1;
@@ -418,7 +418,7 @@ void NewColumnTable::columnNotIn22(const char *begin1, const char* end1,
         if (tv <= ov) {
             if (tv < ov) {
                 output->add(tv);
-                if (stopAfterFirst) break;
+                if (stopAfterFirst) return;
             }
             //move tv forward
             begin1 += bEntry1;
-- 
2.43.0


From 2666dc9e813e67c79731899a853477e4a8d26081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 12/64] fix: NewRowTable steps back a single row when a seek
 stays at the current group

---
 include/trident/binarytables/newrowtable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 0c92c12..c1bda85 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -282,6 +282,9 @@ class NewRowTable: public AbsNewTable {
                         current += Reader1::size() + Reader2::size();
                     }
                 }
+            } else if (isSecondColumnIgnored) {
+                //Step back to the beginning of the group
+                current -= count * (Reader1::size() + Reader2::size());
             } else {
                 current -= Reader1::size() + Reader2::size();
             }
-- 
2.43.0


From 02dcb17bf0fccc7be6ed07ae86f3e160e35cfd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 13/64] fix: NewColumnTable restricted to a first value reports
 rows after a seek past its end

---
 include/trident/binarytables/newcolumntable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..6238153 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -423,6 +423,8 @@ class NewColumnTable: public AbsNewTable {
                         currentpos1 = startpos1;
                         nUniqueFirstTerms = 1;
                         nTerms = currentCount;
+                        //The first next() must read the first term again
+                        scannedCounts = currentCount;
                     } else {
                         //Make it fail
                         currentpos1 = startpos2;
-- 
2.43.0


From e4b1b8db2225d14687c60c2e90a4231c68c503f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 14/64] fix: NewClusterTable::getCardinality disturbs the
 iteration

---
 include/trident/binarytables/newclustertable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/trident/binarytables/newclustertable.h b/include/trident/binarytables/newclustertable.h
index 05ff152..e39dd22 100644
--- a/include/trident/binarytables/newclustertable.h
+++ b/include/trident/binarytables/newclustertable.h
@@ -80,9 +80,9 @@ class NewClusterTable: public AbsNewTable {
                 //Skip first el
                 s += Reader1::size();
                 nels++;
-                count = countgroup = ReaderCount::read(s);
-                sum += count;
-                s += ReaderCount::size() + Reader2::size() * count;
+                const int64_t c = ReaderCount::read(s);
+                sum += c;
+                s += ReaderCount::size() + Reader2::size() * c;
             }
             if (isSecondColumnIgnored) {
                 return nels;
-- 
2.43.0


From 2e42dbd80404ee58046ee227337a3adc8d1f1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 15/64] fix: read the distance between the keys of a tree node
 as an unsigned byte

---
 src/trident/tree/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..cfb881c 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -101,7 +101,7 @@ int Node::unserialize(char* bytes, int pos) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
-- 
2.43.0


From eb374ee26a47ed9b74ce832fe325b341398d1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:13 +0000
Subject: [PATCH 16/64] fix: keep the keys of a reloaded tree node explicit
 when the node can still change

---
 src/trident/tree/node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index cfb881c..e447ac4 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -102,7 +102,16 @@ int Node::unserialize(char* bytes, int pos) {
         pos += 8;
         if (size > 1) {
             uint8_t step = (uint8_t) bytes[pos++];
-            if (step > 0) {
+            if (step > 1 && !context->isReadOnly()) {
+                //Nodes that can change keep their keys explicitly
+                consecutive = false;
+                if (keys == NULL) {
+                    keys = context->getNodesKeyFactory()->get();
+                }
+                for (int i = 0; i < getCurrentSize() - 1; ++i) {
+                    keys[i] = (int64_t) (i + 1) * step;
+                }
+            } else if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
             } else {
-- 
2.43.0


From 3ef9cd0d7eba843ce7cdf21f133430850a727537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:32 +0000
Subject: [PATCH 17/64] fix: estimates for a term that does not occur reuse the
 entry of the previous term

---
 src/trident/kb/querier.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..2ed0ed6 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -284,7 +284,7 @@ uint64_t Querier::isAggregated(const int idx, const int64_t first, const int64_t
             lastKeyFound = tree->get(key, &currentValue);
             lastKeyQueried = key;
         }
-        if (currentValue.exists(idx)) {
+        if (lastKeyFound && currentValue.exists(idx)) {
             if (StorageStrat::isAggregated(currentValue.getStrategy(idx))) {
                 //Is the second term bound?
                 if (idx == IDX_PSO && first >= 0) {
@@ -339,7 +339,7 @@ uint64_t Querier::isReverse(const int idx, const int64_t first, const int64_t se
         lastKeyFound = tree->get(key1, &currentValue);
         lastKeyQueried = key1;
     }
-    if (!currentValue.exists(idx)) {
+    if (lastKeyFound && !currentValue.exists(idx)) {
         if (currentValue.exists(idx - 3)) {
             return currentValue.getNElements(idx - 3);
         }
@@ -408,7 +408,7 @@ uint64_t Querier::estCardOnIndex(const int idx, const int64_t first, const int64
             perm = perm - 3;
 
         int64_t nElements = 0;
-        if (currentValue.exists(perm)) {
+        if (lastKeyFound && currentValue.exists(perm)) {
             nElements += currentValue.getNElements(perm);
         }
         for (size_t i = 0; i < diffIndices.size(); ++i) {
@@ -456,7 +456,7 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
         }
 
         int64_t nElements = 0;
-        if (currentValue.exists(perm)) {
+        if (lastKeyFound && currentValue.exists(perm)) {
             nElements += currentValue.getNElements(perm);
         }
         for (size_t i = 0; i < diffIndices.size(); ++i) {
-- 
2.43.0


From c5569a8bad818ac8573953f7ee5ad03edd6624d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:32 +0000
Subject: [PATCH 18/64] fix: cardinality of a pattern whose table is not stored
 is that of the reverse table

---
 src/trident/kb/querier.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 2ed0ed6..f532078 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -458,6 +458,9 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
         int64_t nElements = 0;
         if (lastKeyFound && currentValue.exists(perm)) {
             nElements += currentValue.getNElements(perm);
+        } else if (lastKeyFound && perm >= 3 && currentValue.exists(perm - 3)) {
+            //The table is not stored. The reverse one has the same triples
+            nElements += currentValue.getNElements(perm - 3);
         }
         for (size_t i = 0; i < diffIndices.size(); ++i) {
             nElements += diffIndices[i]->getCard(perm, key);
@@ -510,6 +513,9 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
         int64_t nElements = 0;
         if (q->lastKeyFound && q->currentValue.exists(idx)) {
             nElements += q->currentValue.getNElements(idx);
+        } else if (q->lastKeyFound && idx >= 3 && q->currentValue.exists(idx - 3)) {
+            //The table is not stored. The reverse one has the same triples
+            nElements += q->currentValue.getNElements(idx - 3);
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
             nElements += q->diffIndices[i]->getCard(idx, key);
-- 
2.43.0


From bc458234f4ba7b3357090b5fb11b66cae86641ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:10 +0000
Subject: [PATCH 19/64] fix: seeking to a key in a list of terms compares keys
 of eight bytes instead of five

---
 src/trident/iterators/termitr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/iterators/termitr.cpp b/src/trident/iterators/termitr.cpp
index 3ba5551..e6fb81d 100644
--- a/src/trident/iterators/termitr.cpp
+++ b/src/trident/iterators/termitr.cpp
@@ -143,7 +143,7 @@ void TermItr::gotoKey(int64_t keyToSearch) {
     while (start < end) {
         const size_t nels = (end - start) / 11;
         const char *middle = start + (nels / 2) * 11;
-        const int64_t k = Utils::decode_long(middle + 5);
+        const int64_t k = Utils::decode_longFixedBytes(middle + 5, 5);
         if (k < keyToSearch) {
             start = middle + 11;
         } else if (k > keyToSearch) {
-- 
2.43.0


From e1f18955f7a93575fa3cd3f628e9cb157e8679dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:10 +0000
Subject: [PATCH 20/64] fix: a reordered scan returns rows of the current key
 after a seek past the last key

---
 src/trident/iterators/reorderitr.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trident/iterators/reorderitr.cpp b/src/trident/iterators/reorderitr.cpp
index 78977d7..dc792d2 100644
--- a/src/trident/iterators/reorderitr.cpp
+++ b/src/trident/iterators/reorderitr.cpp
@@ -296,13 +296,12 @@ void ReOrderItr::gotoKey(int64_t newkey) {
 	}
 	nextKeyIndex++;
     }
-    if (nextKeyIndex < array.size()) {
-	if (itr != NULL && itr != m_itr) {
-	    itr->clear();
-	    delete itr;
-	}
-	itr = NULL;
+    //The rows left of the current key come before the new one
+    if (itr != NULL && itr != m_itr) {
+	itr->clear();
+	delete itr;
     }
+    itr = NULL;
     hasNext();
 }
 
-- 
2.43.0


From e54b7c67b9b3a44012d20b197bba8f2b62c5a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 21/64] fix: a mark on a scan keeps the table of an earlier
 mark

---
 src/trident/iterators/scanitr.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/trident/iterators/scanitr.cpp b/src/trident/iterators/scanitr.cpp
index 537a4e4..95a923d 100644
--- a/src/trident/iterators/scanitr.cpp
+++ b/src/trident/iterators/scanitr.cpp
@@ -279,25 +279,30 @@ void ScanItr::clear() {
 void ScanItr::mark() {
     m_hnc = hnc;
     m_hn = hn;
-    if (itr1) {
+    if (m_itr1 && m_itr1 != itr1)
+        q->releaseItr(m_itr1);
+    m_itr1 = itr1;
+    if (itr1)
         itr1->mark();
-        m_itr1 = itr1;
-    }
 
-    if (itr2) {
+    if (m_itr2 && m_itr2 != itr2)
+        q->releaseItr(m_itr2);
+    m_itr2 = itr2;
+    if (itr2)
         itr2->mark();
-        m_itr2 = itr2;
-    }
 
-    if (currentTable) {
+    if (m_currentTable && m_currentTable != currentTable)
+        q->releaseItr(m_currentTable);
+    m_currentTable = currentTable;
+    if (currentTable)
         currentTable->mark();
-        m_currentTable = currentTable;
-    }
 
-    if (reversedItr) {
+    if (m_reversedItr && m_reversedItr != reversedItr)
+        q->releaseItr(m_reversedItr);
+    m_reversedItr = reversedItr;
+    if (reversedItr)
         reversedItr->mark();
-        m_reversedItr = reversedItr;
-    }
+
     m_key = getKey();
 }
 
-- 
2.43.0


From 61e8cd42ed4c7361f0f615cdf8a23e740a98396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:33 +0000
Subject: [PATCH 22/64] fix: resetting a reordered scan does not go back within
 the rows of a key

---
 include/trident/iterators/reorderitr.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 53de0ba..892d005 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -113,7 +113,14 @@ public:
     LIBEXP void next();
 
     LIBEXP void mark() {
+        if (m_itr != NULL && m_itr != itr) {
+            m_itr->clear();
+            delete m_itr;
+        }
         m_itr = itr;
+        if (itr != NULL) {
+            itr->mark();
+        }
         m_key = key;
         m_nextKeyIndex = nextKeyIndex;
     }
@@ -124,6 +131,9 @@ public:
             delete itr;
         }
         itr = m_itr;
+        if (itr != NULL) {
+            itr->reset(i);
+        }
         key = m_key;
         nextKeyIndex = m_nextKeyIndex;
     }
-- 
2.43.0


From ea7c0537a70bf7ca6b1c7d4c0c252f0772f6b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 23/64] fix: looking up a term beyond the last one of a flat
 tree reads past the file

---
 src/trident/tree/flatroot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 2d38d22..0f77a0c 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -28,8 +28,10 @@ void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
 }
 
 bool FlatRoot::get(nTerm key, TermCoordinates *value) {
-    char *start = raw + key * sizeblock;
     value->clear();
+    if (key < 0 || (uint64_t) key >= len / sizeblock)
+        return false;
+    char *start = raw + key * sizeblock;
     __set(IDX_SOP, start + 5, value);
     if (!unlabeled || !undirected) {
         __set(IDX_OSP, start + 18, value);
-- 
2.43.0


From 0796852690ee189d6f4511970fcbe15676f3d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 24/64] fix: the last entry of a flat tree is read with three
 bytes past it

---
 src/trident/tree/flatroot.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 0f77a0c..c91540e 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -2,6 +2,8 @@
 #include <trident/tree/flattreeitr.h>
 #include <trident/binarytables/storagestrat.h>
 
+#include <cstring>
+
 FlatRoot::FlatRoot(string path, bool unlabeled, bool undirected) :
     unlabeled(unlabeled), undirected(undirected) {
         file = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(path, true));
@@ -18,10 +20,13 @@ FlatRoot::FlatRoot(string path, bool unlabeled, bool undirected) :
     }
 
 void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
-    const int64_t nels = *((int64_t*)(block)) & INT64_C(0XFFFFFFFFFF);
+    int64_t nels = 0;
+    memcpy(&nels, block, 5);
     if (nels > 0) {
         const short file = *((short*)(block + 6));
-        const int64_t pos = *((int64_t*)(block + 8)) & INT64_C(0XFFFFFFFFFF);
+        //Only five bytes are stored: eight could go past the end of the file
+        int64_t pos = 0;
+        memcpy(&pos, block + 8, 5);
         const char strat = *(block + 5);
         value->set(permid, file, pos, nels, strat);
     }
-- 
2.43.0


From 079ee3450784acaee9b0ea0c23764efa17eb5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:26 +0000
Subject: [PATCH 25/64] fix: a cartesian product or a GROUP BY that is started
 again repeats its earlier rows

---
 rdf3x/src/rts/CartProd.cpp | 2 ++
 rdf3x/src/rts/GroupBy.cpp  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/rdf3x/src/rts/CartProd.cpp b/rdf3x/src/rts/CartProd.cpp
index 79e5cfa..3b2a63c 100644
--- a/rdf3x/src/rts/CartProd.cpp
+++ b/rdf3x/src/rts/CartProd.cpp
@@ -32,6 +32,8 @@ uint64_t CartProd::first()
     // Produce the first tuple
 {
     //Need to store all the first entries in a vector
+    buffer.clear();
+    leftExhausted = false;
     if ((leftCount = left->first()) == 0) {
         if (leftOptional) {
             for(int i = 0; i < leftTail.size(); ++i) {
diff --git a/rdf3x/src/rts/GroupBy.cpp b/rdf3x/src/rts/GroupBy.cpp
index f1f226b..df4b75c 100644
--- a/rdf3x/src/rts/GroupBy.cpp
+++ b/rdf3x/src/rts/GroupBy.cpp
@@ -79,6 +79,7 @@ bool GroupBy::sameThanPrevious(uint64_t index) {
 /// Produce the first tuple
 uint64_t GroupBy::first() {
     observedOutputCardinality=0;
+    values.clear();
     uint64_t cnt = child->first();
 
     while (cnt > 0) {
-- 
2.43.0


From cac7af3eedd643699ede0e41d20b6f26360ab683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 26/64] fix: a DISTINCT/LIMIT that is started again keeps
 counting from where it stopped

---
 rdf3x/src/rts/DuplLimit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/rts/DuplLimit.cpp b/rdf3x/src/rts/DuplLimit.cpp
index 9bc6236..20c42a1 100644
--- a/rdf3x/src/rts/DuplLimit.cpp
+++ b/rdf3x/src/rts/DuplLimit.cpp
@@ -20,6 +20,8 @@ DuplLimit::DuplLimit(
 uint64_t DuplLimit::first()
 // Produce the first tuple
 {
+    observedOutputCardinality = 0;
+    currentCount = 0;
     if (observedOutputCardinality < limit) {
         if ((entryCount = input->first()) != 0) {
 	    // If there is an offset, skip those.
-- 
2.43.0


From a44a4b65d4ab0e6a4365b69d07cf50d19d994221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:35 +0000
Subject: [PATCH 27/64] fix: cached cardinalities outlive the querier and the
 updates they were computed with

---
 include/trident/kb/querier.h |  6 ++++++
 src/trident/kb/querier.cpp   | 28 +++++++++++-----------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 288d300..0d95586 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -46,6 +46,8 @@
 #include <kognac/factory.h>
 
 #include <iostream>
+#include <map>
+#include <tuple>
 
 class TableStorage;
 class ListPairHandler;
@@ -316,6 +318,10 @@ class Querier {
 
         Partial **partial;
 
+        //Cardinalities already computed, and the number of updates they take into account
+        std::map<std::tuple<int64_t, int64_t, int64_t>, int64_t> cachedCards;
+        size_t cachedCardsUpdates = 0;
+
         //Statistics
         int64_t aggrIndices, notAggrIndices, cacheIndices;
         int64_t spo, ops, pos, sop, osp, pso;
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index f532078..bbd1cd0 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -470,22 +470,6 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
     throw 10;
 }
 
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
-        } else {
-            return memoized->second;
-        }
-    };
-}
-
 int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
@@ -542,7 +526,17 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
+    //The cached cardinalities are those of this KB with the updates it has now
+    if (cachedCardsUpdates != diffIndices.size()) {
+        cachedCards.clear();
+        cachedCardsUpdates = diffIndices.size();
+    }
+    const auto pattern = std::make_tuple(s, p, o);
+    auto cached = cachedCards.find(pattern);
+    if (cached == cachedCards.end()) {
+        cached = cachedCards.insert(std::make_pair(pattern, getCard_internal(this, s, p, o))).first;
+    }
+    return cached->second;
 }
 
 
-- 
2.43.0


From 636ebee7369ad4ab1810567de1d145c5ea600b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 28/64] fix: reading an updated knowledge base grouped by pairs
 removes the deleted triples, not whole groups

---
 include/trident/iterators/rmitr.h |  67 ++++++----
 src/trident/iterators/rmitr.cpp   | 201 +++++++++++-------------------
 2 files changed, 116 insertions(+), 152 deletions(-)

diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index b130215..550d9ab 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -31,17 +31,40 @@ private:
     PairItr *itr;
     PairItr *rmitr;
     int64_t delnfirstterms;
-    bool rmitrvalid;
     bool noseccol;
-    int64_t v1, v2;
-    int64_t curCount, nextCount;
-    bool hnc, hn;
 
-    bool savedrmitrvalid;
-    int64_t savedv1, savedv2, savedcurCount, savednextCount;
+    struct Row {
+        int64_t key, v1, v2;
 
+        Row() : key(-1), v1(-1), v2(-1) {}
 
-    int cmp(PairItr *itr1, PairItr *itr2);
+        Row(int64_t key, int64_t v1, int64_t v2) : key(key), v1(v1), v2(v2) {}
+
+        bool operator <(const Row &o) const {
+            if (key != o.key)
+                return key < o.key;
+            if (v1 != o.v1)
+                return v1 < o.v1;
+            return v2 < o.v2;
+        }
+    };
+
+    struct State {
+        bool rmitrvalid; //Is there still a row to remove?
+        bool hnc, hn;
+        bool ahead; //row was read, but it was not yet returned
+        int64_t v1, v2;
+        int64_t curCount;
+        Row row; //The last row read from itr
+        Row rm; //The next row to remove
+    } s, saved;
+    int64_t savedKey;
+
+    void readRm();
+
+    bool advance();
+
+    void skipGroup();
 
 public:
     int getTypeItr() {
@@ -49,38 +72,28 @@ public:
     }
 
     int64_t getValue1() {
-        return v1;
+        return s.v1;
     }
 
     int64_t getValue2() {
-        return v2;
+        return s.v2;
     }
 
     void clear() {
     }
 
     void mark() {
-        savedrmitrvalid = rmitrvalid;
-	savedv1 = v1;
-	savedv2 = v2;
-	savedcurCount = curCount;
-	savednextCount = nextCount;
-	itr->mark();
-	rmitr->mark();
+        saved = s;
+        savedKey = key;
+        itr->mark();
+        rmitr->mark();
     }
 
     void reset(const char i) {
-        rmitrvalid = savedrmitrvalid;
-	hnc = false;
-	if (i == 0) {
-	    v1 = savedv1;
-	} else {
-	    v2 = savedv2;
-	}
-	curCount = savedcurCount;
-	nextCount = savednextCount;
-	itr->reset(i);
-	rmitr->reset(i);
+        s = saved;
+        setKey(savedKey);
+        itr->reset(i);
+        rmitr->reset(i);
     }
 
     PairItr *getMainItr() {
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..17659fc 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -22,7 +22,6 @@
 
 #include <trident/iterators/rmitr.h>
 
-#include <algorithm>
 #include <assert.h>
 
 void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
@@ -31,157 +30,109 @@ void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
     this->rmitr = rmitr;
     this->delnfirstterms = nfirstterms;
     noseccol = false;
-    hnc = hn = false;
-    v1 = v2 = key = -1;
-    if (rmitr->hasNext()) {
+    key = -1;
+    s.hnc = s.hn = s.ahead = false;
+    s.v1 = s.v2 = -1;
+    s.curCount = 1;
+    readRm();
+}
+
+//Reads the next row to remove
+void RmItr::readRm() {
+    s.rmitrvalid = rmitr->hasNext();
+    if (s.rmitrvalid) {
         rmitr->next();
-        rmitrvalid = true;
-    } else {
-        rmitrvalid = false;
+        s.rm = Row(rmitr->getKey(), rmitr->getValue1(), rmitr->getValue2());
     }
-    curCount = nextCount = 0;
 }
 
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
-    assert(v1 != -1);
-    itr->moveto(c1, c2);
-    rmitr->moveto(c1, c2);
-    if (rmitr->hasNext()) {
-        rmitr->next();
-    } else {
-        rmitrvalid = false;
+    assert(s.v1 != -1);
+    if ((s.hnc && s.hn) || s.ahead) {
+        //itr is already on the row that follows the current one
+        if (!(s.row < Row(key, c1, c2))) {
+            return;
+        }
     }
+    itr->moveto(c1, c2);
+    //advance() brings rmitr to the position of itr
+    s.hnc = s.ahead = false;
 }
 
-bool RmItr::hasNext() {
-    if (hnc)
-        return hn;
-
-    bool valid = false;
+//Moves itr to its next row that is not marked to be removed
+bool RmItr::advance() {
     while (itr->hasNext()) {
-        //Check if there is a valid element
         itr->next();
-        if (rmitrvalid) {
-            //Check if it's equivalent. If so, we move to the next element
-            int cmpres = cmp(rmitr, itr);
-            while (cmpres < 0) {
-                //Move the rmitr to the right position
-                if (rmitr->hasNext()) {
-                    rmitr->next();
-                    cmpres = cmp(rmitr, itr);
-                } else {
-                    break;
-                }
-            }
-            if (cmpres < 0) {//No more triples to remove
-                nextCount = itr->getCount();
-                rmitrvalid = false;
-                valid = true;
-                break;
-            } else if (cmpres > 0) { //The triple is not marked to be removed
-                nextCount = itr->getCount();
-                valid = true;
-                break;
-            } else {
-                //We must continue to find the next valid element
-                if (noseccol) {
-                    //Check the count. If greater than 0 then it's fine
-                    nextCount = itr->getCount() - rmitr->getCount();
-                    if (nextCount > 0) {
-                        valid = true;
-                        break;
-                    }
-                }
-            }
-        } else {
-            nextCount = itr->getCount();
-            valid = true;
-            break;
+        s.row = Row(itr->getKey(), itr->getValue1(), itr->getValue2());
+        while (s.rmitrvalid && s.rm < s.row) {
+            readRm();
         }
+        if (!s.rmitrvalid || s.row < s.rm) {
+            return true;
+        }
+    }
+    return false;
+}
+
+bool RmItr::hasNext() {
+    if (!s.hnc) {
+        s.hn = s.ahead || advance();
+        s.ahead = false;
+        s.hnc = true;
     }
-    hnc = true;
-    hn = valid;
-    return hn;
+    return s.hn;
 }
 
 void RmItr::next() {
-    setKey(itr->getKey());
-    v1 = itr->getValue1();
-    v2 = itr->getValue2();
-    curCount = nextCount;
-    hnc = false;
+    if (!hasNext()) {
+        return;
+    }
+    setKey(s.row.key);
+    s.v1 = s.row.v1;
+    s.v2 = s.row.v2;
+    s.curCount = 1;
+    s.hnc = false;
+    if (noseccol) {
+        skipGroup();
+    }
+}
+
+//Counts the other rows with the current key and first value
+void RmItr::skipGroup() {
+    while (!s.ahead && advance()) {
+        if (s.row.key == key && s.row.v1 == s.v1) {
+            s.curCount++;
+        } else {
+            s.ahead = true;
+        }
+    }
 }
 
 int64_t RmItr::getCount() {
-    return curCount;
+    return s.curCount;
 }
 
 uint64_t RmItr::getCardinality() {
-    if (noseccol) {
-        return itr->getCardinality() - delnfirstterms;
-    } else {
-        return itr->getCardinality() - rmitr->getCardinality();
-    }
+    return itr->getCardinality() - rmitr->getCardinality();
 }
 
 uint64_t RmItr::estCardinality() {
-    uint64_t card = itr->estCardinality();
-    if (rmitrvalid)
-        card -= rmitr->estCardinality();
-    return std::max((uint64_t)0, card);
-}
-
-int RmItr::cmp(PairItr *itr1, PairItr *itr2) {
-    if (noseccol) {
-        if (itr1->getKey() < itr2->getKey()) {
-            return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0)
-                return -1;
-            else if (diff > 0)
-                return 1;
-            else
-                return 0;
-        } else {
-            return 1;
-        }
-    } else {
-        if (itr1->getKey() < itr2->getKey()) {
-            return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0) {
-                return -1;
-            } else if (diff > 0) {
-                return 1;
-            } else {
-                int64_t diff2 = itr1->getValue2() - itr2->getValue2();
-                if (diff2 < 0) {
-                    return -1;
-                } else if (diff2 > 0) {
-                    return 1;
-                } else {
-                    return 0;
-                }
-            }
-        } else {
-            return 1;
-        }
-    }
+    const uint64_t card = itr->estCardinality();
+    const uint64_t rmcard = s.rmitrvalid ? rmitr->estCardinality() : 0;
+    return card > rmcard ? card - rmcard : 0;
 }
 
 void RmItr::ignoreSecondColumn() {
-    itr->ignoreSecondColumn();
-    rmitr->ignoreSecondColumn();
+    //Single rows are removed, hence the groups are formed here and not by itr and rmitr
     noseccol = true;
-    if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
-    } else {
-        curCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            curCount -= rmitr->getCount();
+    if (s.v1 != -1) {
+        //A row was already returned: move to the end of its group
+        s.ahead = s.ahead || (s.hnc && s.hn);
+        s.hnc = false;
+        if (s.ahead && s.row.key == key && s.row.v1 == s.v1) {
+            s.curCount++;
+            s.ahead = false;
+        }
+        skipGroup();
     }
 }
-- 
2.43.0


From d4f32dd391e9cb4f33995ab3a8beb220b8aa100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 29/64] fix: a grouped scan over several updates does not drop
 the pair (0,0)

---
 src/trident/iterators/compositescanitr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 61557cd..042a46e 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -139,7 +139,7 @@ void CompositeScanItr::init(int perm) {
     initializeConstraints();
     hnc = false;
     hn = false;
-    v1 = v2 = 0;
+    v1 = v2 = -1; //No row was read yet
     ignseccol = false;
     count = 1;
     this->perm = perm;
-- 
2.43.0


From c0af94d5e14c1750d355c11dd12678557baaca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 30/64] fix: count the distinct first terms of an updated
 pattern instead of adding up the counts of the updates

---
 include/trident/kb/querier.h |  2 ++
 src/trident/kb/querier.cpp   | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 0d95586..ae06a3c 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -374,6 +374,8 @@ class Querier {
                 const int64_t key, const int64_t v1,
                 const int64_t v2, const bool cons);
 
+        uint64_t countFirstTerms(PairItr *itr);
+
         static int64_t getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o);
 
     public:
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index bbd1cd0..fdb12b3 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -131,6 +131,21 @@ char Querier::getStrategy(const int idx, const int64_t v) {
   return currentValue.getNElements(idx);
   }*/
 
+//Number of distinct (key, first term) pairs that itr, which was not yet read, returns
+uint64_t Querier::countFirstTerms(PairItr *itr) {
+    itr->ignoreSecondColumn();
+    if (diffIndices.empty()) {
+        return itr->getCardinality();
+    }
+    //The same pair can occur in several updates: it must be counted once, and only if some triple with it is left
+    uint64_t count = 0;
+    while (itr->hasNext()) {
+        itr->next();
+        count++;
+    }
+    return count;
+}
+
 uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64_t second,
         const int64_t third, bool skipLast) {
     //Check if first element is variable
@@ -160,8 +175,7 @@ uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64
         if (third < 0) countUnbound++;
         if (countUnbound >= 2) {
             if (skipLast) {
-                itr->ignoreSecondColumn();
-                uint64_t card = itr->getCardinality();
+                uint64_t card = countFirstTerms(itr);
                 releaseItr(itr);
                 return card;
             } else {
@@ -259,8 +273,7 @@ int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o, uint
                 itr = getIterator(idx2, s, p, o);
             }
 
-            itr->ignoreSecondColumn();
-            int64_t nElements = itr->getCardinality();
+            int64_t nElements = countFirstTerms(itr);
             releaseItr(itr);
             return nElements;
         } else {
-- 
2.43.0


From db107281db03057cd3108b80676b80657f59b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 31/64] fix: cardinalities subtract deleted triples

---
 src/trident/kb/querier.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index fdb12b3..b6afe15 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -425,7 +425,11 @@ uint64_t Querier::estCardOnIndex(const int idx, const int64_t first, const int64
             nElements += currentValue.getNElements(perm);
         }
         for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key1);
+            if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += diffIndices[i]->getCard(perm, key1);
+            } else {
+                nElements -= diffIndices[i]->getCard(perm, key1);
+            }
         }
         return nElements;
     }
@@ -476,7 +480,11 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
             nElements += currentValue.getNElements(perm - 3);
         }
         for (size_t i = 0; i < diffIndices.size(); ++i) {
-            nElements += diffIndices[i]->getCard(perm, key);
+            if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += diffIndices[i]->getCard(perm, key);
+            } else {
+                nElements -= diffIndices[i]->getCard(perm, key);
+            }
         }
         return nElements;
     }
@@ -515,7 +523,11 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             nElements += q->currentValue.getNElements(idx - 3);
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
+            if (q->diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += q->diffIndices[i]->getCard(idx, key);
+            } else {
+                nElements -= q->diffIndices[i]->getCard(idx, key);
+            }
         }
         return nElements;
     }
@@ -572,17 +584,7 @@ bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
 bool Querier::isEmpty(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
-        if (inputSize != 0) {
-            return false;
-        }
-        if (diffIndices.size() > 0) {
-            for (size_t i = 0; i < diffIndices.size(); ++i) {
-                if (diffIndices[i]->getSize() > 0) {
-                    return false;
-                }
-            }
-        }
-        return true;
+        return getInputSize() == 0;
     }
 
     int idx = getIndex(s, p, o);
-- 
2.43.0


From 3a7b78600be92e1fab21e2ba988c069b76cc9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 32/64] fix: the list of terms reflects every update and its
 own permutation

---
 src/trident/kb/querier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index b6afe15..f9d002f 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -801,7 +801,7 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
@@ -816,7 +816,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
-- 
2.43.0


From 78151987a4a7fa58c062b71078d6ea26b88e1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:22 +0000
Subject: [PATCH 33/64] fix: opening an updated knowledge base without its
 dictionary crashed

---
 src/trident/kb/kb.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..9aa6c5e 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -329,7 +329,7 @@ KB::KB(const char *path,
                     LOG(DEBUGL) << "Time loading diff index " << sec.count() * 1000 << "ms.";
                 }
             }
-            if (!dictUpdates.empty()) {
+            if (dictEnabled && !dictUpdates.empty()) {
                 dictManager->addUpdates(dictUpdates);
                 //update total number of terms and nextID fields
                 for (auto itr = dictUpdates.begin(); itr != dictUpdates.end(); ++itr) {
@@ -337,9 +337,11 @@ KB::KB(const char *path,
                     nextID = max(nextID, itr->nextid);
                 }
             }
-            //check also the global dictionary container in dictmanager
-            totalNumberTerms += dictManager->getGUDSize();
-            nextID = max(nextID, (int64_t) dictManager->getLargestGUDTerm() + 1);
+            if (dictEnabled) {
+                //check also the global dictionary container in dictmanager
+                totalNumberTerms += dictManager->getGUDSize();
+                nextID = max(nextID, (int64_t) dictManager->getLargestGUDTerm() + 1);
+            }
         }
 
         for (int i = 0; i < N_PARTITIONS; i++) {
-- 
2.43.0


From 8a48be8a5cb59e1ebf7d4e0b18366f0b86b88ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:22 +0000
Subject: [PATCH 34/64] fix: merging updates lost those that bring no new first
 term

---
 src/trident/kb/querier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index f9d002f..615ac18 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -861,7 +861,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
                 DiffScanItr *itr = factory11.get();
-- 
2.43.0


From 253fba94d05fc3ac8495fbdd5af01a6141b6d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:49 +0000
Subject: [PATCH 35/64] fix: merging updates re-added existing triples, failed
 when they cancel out and lost the small-update terms

---
 src/trident/kb/kb.cpp | 98 +++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 51 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 9aa6c5e..3f2b931 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -668,62 +668,46 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         return;
     }
 
-    // Filter: the only deletes that should be left are in the db.
-    if (type == DiffIndex::TypeUpdate::DELETE_df) {
-        std::vector<uint64_t> del_s;
-        std::vector<uint64_t> del_p;
-        std::vector<uint64_t> del_o;
-
-        PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
-        if (kbitr->hasNext()) {
-            kbitr->next();
-        } else {
-            q->releaseItr(kbitr);
-            kbitr = NULL;
-        }
+    // Filter: the only deletes that should be left are in the db, and the only
+    // additions are not.
+    std::vector<uint64_t> eff_s;
+    std::vector<uint64_t> eff_p;
+    std::vector<uint64_t> eff_o;
+
+    PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
+    if (kbitr->hasNext()) {
+        kbitr->next();
+    } else {
+        q->releaseItr(kbitr);
+        kbitr = NULL;
+    }
 
-        size_t i = 0;
-        while (i != all_s.size()) {
-            //move kbitr to the good position
-            int cmpResult;
-            while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
-                if (kbitr->hasNext()) {
-                    kbitr->next();
-                } else {
-                    q->releaseItr(kbitr);
-                    kbitr = NULL;
-                }
-            }
-            if (kbitr) {
-                //do the check
-                if (cmpResult == 0) {
-                    del_s.push_back(all_s[i]);
-                    del_p.push_back(all_p[i]);
-                    del_o.push_back(all_o[i]);
-                    //Must move also the original iterator
-                    if (kbitr->hasNext()) {
-                        kbitr->next();
-                    } else {
-                        break;
-                    }
-                }
-                i++;
+    for (size_t i = 0; i != all_s.size(); ++i) {
+        //move kbitr to the good position
+        int cmpResult = 1;
+        while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
+            if (kbitr->hasNext()) {
+                kbitr->next();
             } else {
-                break;
+                q->releaseItr(kbitr);
+                kbitr = NULL;
             }
         }
-        if (kbitr)
-            q->releaseItr(kbitr);
-
-        if (del_s.size() == 0) {
-            return;
+        bool existing = kbitr && cmpResult == 0;
+        if (existing == (type == DiffIndex::TypeUpdate::DELETE_df)) {
+            eff_s.push_back(all_s[i]);
+            eff_p.push_back(all_p[i]);
+            eff_o.push_back(all_o[i]);
         }
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
-    } else {
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
     }
+    if (kbitr)
+        q->releaseItr(kbitr);
+
+    if (eff_s.size() == 0) {
+        return;
+    }
+    Utils::create_directories(dir);
+    DiffIndex3::createDiffIndex(type, dir, diffDir, eff_s, eff_p, eff_o, true, q, true);
 
     //Write the type of file
     string flagup;
@@ -782,6 +766,12 @@ void KB::mergeUpdates() {
         return;
     }
 
+    // Start from an empty directory, which remains so if the updates cancel each other
+    if (Utils::exists(diffDir)) {
+        Utils::remove_all(diffDir);
+    }
+    Utils::create_directories(diffDir);
+
     Querier *q = query();
     // Create the single updates with respect to a querier that does not have the diffIndices.
     // Create querier with empty diffs
@@ -799,7 +789,7 @@ void KB::mergeUpdates() {
     }
     if (rmCount >= 1) {
         PairItr *rmItr = q->summaryRmDiff();
-        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (addCount != 0 ? "1" : "0"), diffDir, q1);
+        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (Utils::exists(diffDir + DIR_SEP + "0") ? "1" : "0"), diffDir, q1);
         q->releaseItr(rmItr);
     }
 
@@ -827,6 +817,12 @@ void KB::mergeUpdates() {
         // Utils::remove_all(diffDir);
         throw 10;
     }
+    // Keep the terms added by small updates (see DictMgmt)
+    std::string gud = DIR_SEP + std::string("gud");
+    if (Utils::exists(old + gud) && std::rename((old + gud).c_str(), (oldDiffDir + gud).c_str()) != 0) {
+        LOG(ERRORL) << "Error renaming " << old + gud;
+        throw 10;
+    }
     // Utils::remove_all(old);
     std::chrono::duration<double> sec = std::chrono::system_clock::now() - start;
     LOG(INFOL) << "Total merge time = " << sec.count() * 1000 << " ms.";
-- 
2.43.0


From af23a5e1bc7127880bf76f5ee7f4eb6b0d0ceb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:49 +0000
Subject: [PATCH 36/64] fix: deleting triples with an unknown term deleted
 those with the preceding term

---
 src/trident/kb/updater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..68d51b8 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -198,6 +198,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
+                        previd = itr->nums;
                         continue;
                     }
                 }
@@ -240,6 +241,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
+                        previd = itr->nump;
                         continue;
                     }
                 }
@@ -282,6 +284,7 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
+                        previd = itr->numo;
                         continue;
                     }
                 }
-- 
2.43.0


From 3aec23bf48a4f8e7fbe54a6a0fb5381f98b255cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 37/64] fix: plan hash joins for OPTIONAL and subqueries, not
 nested loops that drop unmatched rows

---
 rdf3x/src/cts/PlanGen.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..eb3581f 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -634,9 +634,10 @@ PlanGen::JoinDescription PlanGen::buildJoinInfo(const QueryGraph::SubQuery& quer
         //I cannot calculate the join selectivity because there is a nested query involved
         //One solution is to get the cardinality of the nested query.
         //Another is to do some rough approximations
-        //I choose the second one.
-        //
-        result.selectivity = -1;
+        //I choose the second one. Note: a negative value means that there is
+        //no join predicate and forces a nested loop join, which cannot handle
+        //optional inputs.
+        result.selectivity = 1;
     }
 
     // Look up suitable orderings
-- 
2.43.0


From 0ce54a64ab874fb03612ba58cdee5d48172b0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:17 +0000
Subject: [PATCH 38/64] fix: compare the values of a variable repeated inside
 one triple pattern

---
 rdf3x/src/cts/CodeGen.cpp | 11 ++++++++++-
 rdf3x/src/cts/PlanGen.cpp |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..80809dc 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -103,11 +103,20 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    Operator* result = IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+
+    // A variable that is repeated in the pattern must have the same value everywhere
+    if (!node.constSubject && !node.constPredicate && node.subject == node.predicate)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(predicate)), plan->cardinality);
+    if (!node.constSubject && !node.constObject && node.subject == node.object)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(object)), plan->cardinality);
+    else if (!node.constPredicate && !node.constObject && node.predicate == node.object)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(predicate), new Selection::Variable(object)), plan->cardinality);
+    return result;
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index eb3581f..ed5ca9f 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -545,6 +545,14 @@ PlanGen::Problem* PlanGen::buildScan(const QueryGraph::SubQuery& query, const Qu
     bool unusedPredicate = (!node.constPredicate) && isUnused(*fullQuery, node, node.predicate);
     bool unusedObject = (!node.constObject) && isUnused(*fullQuery, node, node.object);
 
+    // A variable that is repeated in the pattern is needed to compare its values
+    if (!node.constSubject && !node.constPredicate && node.subject == node.predicate)
+        unusedSubject = unusedPredicate = false;
+    if (!node.constSubject && !node.constObject && node.subject == node.object)
+        unusedSubject = unusedObject = false;
+    if (!node.constPredicate && !node.constObject && node.predicate == node.object)
+        unusedPredicate = unusedObject = false;
+
     // Lookup variables
     uint64_t s = node.constSubject ? UINT64_MAX : node.subject, p = node.constPredicate ? UINT64_MAX : node.predicate, o = node.constObject ? UINT64_MAX : node.object;
     uint64_t sc = node.constSubject ? node.subject : UINT64_MAX, pc = node.constPredicate ? node.predicate : UINT64_MAX, oc = node.constObject ? node.object : UINT64_MAX;
-- 
2.43.0


From c97e9b79cdd5ece7cb73a7ff0faa1c873fae5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:18 +0000
Subject: [PATCH 39/64] fix: MINUS without common variables removes nothing
 instead of dividing by zero

---
 rdf3x/src/rts/Minus.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/rts/Minus.cpp b/rdf3x/src/rts/Minus.cpp
index a9926eb..de1d8fc 100644
--- a/rdf3x/src/rts/Minus.cpp
+++ b/rdf3x/src/rts/Minus.cpp
@@ -28,7 +28,8 @@ uint64_t Minus::first() {
     if (res) {
         if (!loaded) {
             //Load the hashmap
-            if (minusTree->first()) {
+            //(without common variables nothing can be removed)
+            if (!regsToCheck.empty() && minusTree->first()) {
                 do {
                     //Read the values in the registers and copy them in row
                     unsigned i = 0;
-- 
2.43.0


From 52b5d7d12ecde488906eca7f197dc11eaec8130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:29 +0000
Subject: [PATCH 40/64] fix: NOT EXISTS compares all the shared variables, also
 when there are two or none

---
 rdf3x/include/rts/operator/Selection.hpp |  3 ++-
 rdf3x/src/rts/Selection.cpp              | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 0d77c72..d52ef47 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -16,6 +16,7 @@
 #include <vector>
 #include <string>
 #include <unordered_set>
+#include <set>
 #include <map>
 //---------------------------------------------------------------------------
 class Register;
@@ -590,7 +591,7 @@ class Selection : public Operator {
             private:
                 /// The probe
                 std::unique_ptr<Predicate> probe;
-                std::unordered_set<uint64_t> set;
+                std::set<std::vector<uint64_t>> set;
                 std::unique_ptr<Operator> tree;
                 std::vector<Register *> regsToLoad;
                 std::vector<Register *> regsToCheck;
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 6ba1cdd..8ce9026 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -1158,9 +1158,8 @@ Selection::BuiltinNotExists::BuiltinNotExists(Operator *tree,
     regsToLoad(regsToLoad), regsToCheck(regsToCheck), runtime(runtime), loaded(false)
 {
     this->tree = std::unique_ptr<Operator>(tree);
-    probe = std::unique_ptr<Predicate>(new Selection::Variable(regsToCheck[0]));
-    if (regsToLoad.size() != 1)
-        throw;
+    if (regsToLoad.size() == 1)
+        probe = std::unique_ptr<Predicate>(new Selection::Variable(regsToCheck[0]));
 }
 //---------------------------------------------------------------------------
 void Selection::BuiltinNotExists::eval(Result& result)
@@ -1169,16 +1168,20 @@ void Selection::BuiltinNotExists::eval(Result& result)
     if (!loaded) {
         if (tree->first()) {
             do {
-                set.insert(regsToLoad[0]->value);
+                std::vector<uint64_t> row;
+                for (auto reg : regsToLoad)
+                    row.push_back(reg->value);
+                set.insert(row);
             } while (tree->next());
         }
         loaded = true;
     }
 
-    Result p, c;
-    probe->eval(p); // The variable to be checked
+    std::vector<uint64_t> row; // The variables to be checked
+    for (auto reg : regsToCheck)
+        row.push_back(reg->value);
 
-    if (!set.count(p.id)) {
+    if (!set.count(row)) {
         result.setBoolean(true);
     } else {
         result.setBoolean(false);
@@ -1191,7 +1194,7 @@ string Selection::BuiltinNotExists::print(PlanPrinter& out)
     std::ostringstream oss;
     DebugPlanPrinter pp(oss, runtime, true);
     tree->print(pp);
-    return "not_exists(" + probe->print(out) + " in " + oss.str() + ")";
+    return "not_exists(" + (probe ? probe->print(out) : "") + " in " + oss.str() + ")";
 }
 //---------------------------------------------------------------------------
 void Selection::AggrFunction::eval(Result& result)
-- 
2.43.0


From 9f1dae27b920718f2dcdd98197eb01680a3be17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:14 +0000
Subject: [PATCH 41/64] fix: join the patterns inside MINUS and NOT EXISTS, and
 keep the variables they share

---
 rdf3x/src/cts/PlanGen.cpp    | 15 ++++++++++++---
 rdf3x/src/cts/QueryGraph.cpp | 22 ++++++++++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index ed5ca9f..f915e7f 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -402,7 +402,9 @@ void PlanGen::buildFullyAggregatedIndexScan(const QueryGraph::SubQuery& query, D
     addPlan(result, plan);
 }
 //---------------------------------------------------------------------------
-static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
+static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node& node, uint64_t val);
+//---------------------------------------------------------------------------
+static bool isUnused(const QueryGraph::Filter* filter, const QueryGraph::Node& node, unsigned val)
     // Check if a variable is unused
 {
     if (!filter)
@@ -410,7 +412,11 @@ static bool isUnused(const QueryGraph::Filter* filter, unsigned val)
     if (filter->type == QueryGraph::Filter::Variable)
         if (filter->id == val)
             return false;
-    return isUnused(filter->arg1, val) && isUnused(filter->arg2, val) && isUnused(filter->arg3, val);
+    if (filter->subpattern && !isUnused(*filter->subpattern, node, val))
+        return false;
+    if (filter->subquery && !isUnused(filter->subquery->getQuery(), node, val))
+        return false;
+    return isUnused(filter->arg1, node, val) && isUnused(filter->arg2, node, val) && isUnused(filter->arg3, node, val);
 }
 //---------------------------------------------------------------------------
 static bool isUnused(const QueryGraph::TableFunction* function, uint64_t val) {
@@ -428,7 +434,7 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     // Check if a variable is unused outside its primary pattern
 {
     for (vector<QueryGraph::Filter>::const_iterator iter = query.filters.begin(), limit = query.filters.end(); iter != limit; ++iter)
-        if (!isUnused(&(*iter), val))
+        if (!isUnused(&(*iter), node, val))
             return false;
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(),
@@ -460,6 +466,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
+    for (const auto &itr : query.minuses)
+        if (!isUnused(itr->getQuery(), node, val))
+            return false;
     return true;
 }
 //---------------------------------------------------------------------------
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index c560a13..0c417a7 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -216,9 +216,31 @@ static bool intersects(const set<unsigned>& a, const set<unsigned>& b, vector<un
     return result;
 }
 //---------------------------------------------------------------------------
+static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings);
+//---------------------------------------------------------------------------
+static void constructEdges(QueryGraph::Filter* filter)
+    // Construct the edges for the pattern nested in a filter
+{
+    if (!filter)
+        return;
+    if (filter->subpattern) {
+        set<unsigned> bindings;
+        constructEdges(*filter->subpattern, bindings);
+    }
+    constructEdges(filter->arg1);
+    constructEdges(filter->arg2);
+    constructEdges(filter->arg3);
+}
+//---------------------------------------------------------------------------
 static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindings)
     // Construct the edges for a specfic subquery
 {
+    // The patterns used in MINUS and in the filters are planned on their own
+    for (auto &minus : subQuery.minuses)
+        minus->constructEdges();
+    for (auto &filter : subQuery.filters)
+        constructEdges(&filter);
+
     // Collect all variable bindings
     vector<set<unsigned> > patternBindings, optionalBindings, unionBindings, subqueryBindings, valueBindings;
     patternBindings.resize(subQuery.nodes.size());
-- 
2.43.0


From f7993dfb665d1577884b8f62e3a8489768e2d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 42/64] fix: accept VALUES at the start of a group, keep all
 parts of a nested group, number VALUES as the planner does

---
 rdf3x/src/cts/QueryGraph.cpp   | 9 +++++++--
 rdf3x/src/cts/SPARQLParser.cpp | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 0c417a7..2b8de6f 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -286,9 +286,10 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
 
     // Derive all edges
     subQuery.edges.clear();
-    unsigned optionalOfs = patternBindings.size(), unionOfs = optionalOfs + optionalBindings.size();
+    // (in the order in which the plan generator numbers the relations)
+    unsigned valueOfs = patternBindings.size();
+    unsigned optionalOfs = valueOfs + valueBindings.size(), unionOfs = optionalOfs + optionalBindings.size();
     unsigned subqueryOfs = unionOfs + unionBindings.size();
-    unsigned valueOfs = subqueryOfs + subqueryBindings.size();
     vector<unsigned> common;
     for (unsigned index = 0, limit = patternBindings.size(); index < limit; ++index) {
         for (unsigned index2 = index + 1; index2 < limit; index2++)
@@ -340,6 +341,10 @@ static void constructEdges(QueryGraph::SubQuery& subQuery, set<unsigned>& bindin
             if (intersects(subqueryBindings[index], valueBindings[index2], common))
                 subQuery.edges.push_back(QueryGraph::Edge(subqueryOfs + index, valueOfs + index2, common));
     }
+    for (unsigned index = 0, limit = valueBindings.size(); index < limit; index++)
+        for (unsigned index2 = index + 1; index2 < limit; index2++)
+            if (intersects(valueBindings[index], valueBindings[index2], common))
+                subQuery.edges.push_back(QueryGraph::Edge(valueOfs + index, valueOfs + index2, common));
 }
 //---------------------------------------------------------------------------
 void QueryGraph::constructEdges()
diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..64e3d5f 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -1463,6 +1463,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
                 group.optional.insert(group.optional.end(), newGroup.optional.begin(), newGroup.optional.end());
                 group.unions.insert(group.unions.end(), newGroup.unions.begin(), newGroup.unions.end());
                 group.subqueries.insert(group.subqueries.end(), newGroup.subqueries.begin(), newGroup.subqueries.end());
+                group.assignments.insert(group.assignments.end(), newGroup.assignments.begin(), newGroup.assignments.end());
+                group.minuses.insert(group.minuses.end(), newGroup.minuses.begin(), newGroup.minuses.end());
+                group.values.insert(group.values.end(), newGroup.values.begin(), newGroup.values.end());
             }
 
             if (token != SPARQLLexer::Dot)
@@ -1493,6 +1496,9 @@ void SPARQLParser::parseGroupGraphPattern(PatternGroup & group)
             } else if (token == SPARQLLexer::Identifier
                     && lexer.isKeyword("minus")) {
                 parseMinus(group);
+            } else if (token == SPARQLLexer::Identifier
+                    && lexer.isKeyword("values")) {
+                parseValues(group);
             } else {
                 lexer.unget(token);
                 parseGraphPattern(group);
-- 
2.43.0


From efddd97828d311a6d2554d2f9ee9d50e12a11cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 43/64] fix: take the common variables of an OPTIONAL join from
 the side that is always bound

---
 rdf3x/src/cts/CodeGen.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 80809dc..308989e 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -294,6 +294,15 @@ static void mergeBindings(const set<unsigned>& projection, map<unsigned, Registe
             bindings[(*iter).first] = (*iter).second;
 }
 //---------------------------------------------------------------------------
+static void mergeBindings(const set<unsigned>& projection, map<unsigned, Register*>& bindings, const Plan* plan, const map<unsigned, Register*>& leftBindings, const map<unsigned, Register*>& rightBindings)
+    // Merge bindings after a join. Common variables are unbound in the optional side if there was no match
+{
+    if (plan->left->optional && !plan->right->optional)
+        mergeBindings(projection, bindings, rightBindings, leftBindings);
+    else
+        mergeBindings(projection, bindings, leftBindings, rightBindings);
+}
+//---------------------------------------------------------------------------
 static Operator* addAdditionalSelections(Runtime& runtime, Operator* input, const set<unsigned>& joinVariables, map<unsigned, Register*>& leftBindings, map<unsigned, Register*>& rightBindings, unsigned joinedOn)
     // Convert additional join predicates into a selection
 {
@@ -360,7 +369,7 @@ static Operator* translateMergeJoin(Runtime& runtime, const map<unsigned, Regist
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    mergeBindings(projection, bindings, plan, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -395,7 +404,7 @@ static Operator* translateHashJoin(Runtime& runtime, const map<unsigned, Registe
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, newProjection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, newProjection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    mergeBindings(projection, bindings, plan, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
@@ -427,7 +436,7 @@ static Operator* translateCartProd(Runtime& runtime,
     map<unsigned, Register*> leftBindings, rightBindings;
     Operator* leftTree = translatePlan(runtime, context, projection, leftBindings, registers, plan->left);
     Operator* rightTree = translatePlan(runtime, context, projection, rightBindings, registers, plan->right);
-    mergeBindings(projection, bindings, leftBindings, rightBindings);
+    mergeBindings(projection, bindings, plan, leftBindings, rightBindings);
 
     // Prepare the tails
     vector<Register*> leftTail, rightTail;
-- 
2.43.0


From 756792dd0e07de65644d8a9ebe4118a000bb4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 44/64] fix: SELECT DISTINCT in a subquery removes duplicates
 before the join

---
 rdf3x/src/cts/PlanGen.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index f915e7f..bbd2546 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -932,6 +932,19 @@ Plan* PlanGen::translate_int(const QueryGraph::SubQuery& query,
         PlanGen p(plans);
         p.init(db, *itr->get());
         Plan* childPlan = p.translate_int((*itr)->getQuery(), *itr->get(), completeEstimate);
+        if (childPlan && (*itr)->getDuplicateHandling() == QueryGraph::NoDuplicates) {
+            //DISTINCT: the rows must be grouped before they are joined
+            Plan* groupPlan = plans->alloc();
+            groupPlan->op = Plan::HashGroupify;
+            groupPlan->opArg = 0;
+            groupPlan->left = childPlan;
+            groupPlan->right = 0;
+            groupPlan->next = 0;
+            groupPlan->cardinality = childPlan->cardinality;
+            groupPlan->costs = childPlan->costs;
+            groupPlan->ordering = ~0u;
+            childPlan = groupPlan;
+        }
         Plan* plan = plans->alloc();
         plan->op = Plan::Subselect;
         plan->left = childPlan;
-- 
2.43.0


From 952eb1c2c3b2e9d67d913316c50f7e1d82f7a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:26 +0000
Subject: [PATCH 45/64] fix: initialise the plans of subqueries and MINUS
 (next, costs, ordering were left undefined)

---
 rdf3x/include/cts/plangen/Plan.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdf3x/include/cts/plangen/Plan.hpp b/rdf3x/include/cts/plangen/Plan.hpp
index b8232b0..0513918 100644
--- a/rdf3x/include/cts/plangen/Plan.hpp
+++ b/rdf3x/include/cts/plangen/Plan.hpp
@@ -52,6 +52,10 @@ struct Plan
     SLIBEXP void print(unsigned indent) const;
 
     void init() {
+        opArg = 0;
+        left = right = next = NULL;
+        cardinality = costs = 0;
+        ordering = ~0u;
         optional = false;
         subquery = NULL;
     }
-- 
2.43.0


From c3c3b27d0cc2a7a645098597a44e082265a56a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 46/64] fix: a MINUS binds only the variables of its left side

---
 rdf3x/src/cts/CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 308989e..0e7d5c0 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -207,8 +207,8 @@ static void collectVariables(const map<unsigned, Register*>& context, set<unsign
         case Plan::Singleton:
                                   break;
         case Plan::Minus:
+                                  //The right side does not bind any variable
                                   collectVariables(context, variables, plan->left);
-                                  collectVariables(context, variables, plan->right);
                                   break;
         case Plan::ValuesScan:
                                   for (auto v : ((QueryGraph::ValuesNode*) plan->left)->variables) {
-- 
2.43.0


From 6bbb73f13174a4d99843903a4db113117937ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 47/64] fix: compare the values of a repeated variable also in
 aggregated scans

---
 rdf3x/src/cts/CodeGen.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 0e7d5c0..8c526e0 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,18 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* compareRepeatedVariables(Runtime& runtime, const QueryGraph::Node& node, Operator* result, Register* subject, Register* predicate, Register* object, double cardinality)
+    // A variable that is repeated in a pattern must have the same value everywhere
+{
+    if (!node.constSubject && !node.constPredicate && node.subject == node.predicate && subject && predicate)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(predicate)), cardinality);
+    if (!node.constSubject && !node.constObject && node.subject == node.object && subject && object)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(object)), cardinality);
+    else if (!node.constPredicate && !node.constObject && node.predicate == node.object && predicate && object)
+        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(predicate), new Selection::Variable(object)), cardinality);
+    return result;
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -109,14 +121,7 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
             object, constObject,
             plan->cardinality);
 
-    // A variable that is repeated in the pattern must have the same value everywhere
-    if (!node.constSubject && !node.constPredicate && node.subject == node.predicate)
-        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(predicate)), plan->cardinality);
-    if (!node.constSubject && !node.constObject && node.subject == node.object)
-        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(object)), plan->cardinality);
-    else if (!node.constPredicate && !node.constObject && node.predicate == node.object)
-        result = new Selection(result, runtime, new Selection::Equal(new Selection::Variable(predicate), new Selection::Variable(object)), plan->cardinality);
-    return result;
+    return compareRepeatedVariables(runtime, node, result, subject, predicate, object, plan->cardinality);
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
@@ -135,11 +140,12 @@ static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsign
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //return runtime.getDifferentialIndex().createAggregatedScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return AggregatedIndexScan::create(runtime.getDatabase(), order,
+    Operator* result = AggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return compareRepeatedVariables(runtime, node, result, subject, predicate, object, plan->cardinality);
 }
 //---------------------------------------------------------------------------
 static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
-- 
2.43.0


From abd25cd3a33673d4755675d9aa9947d7dfa76756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 48/64] fix: NOT EXISTS sees all the variables it shares with
 the whole group

---
 rdf3x/src/cts/CodeGen.cpp    | 27 +++++++++++++++++++++++++++
 rdf3x/src/cts/QueryGraph.cpp |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 8c526e0..ab0286e 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -474,9 +474,36 @@ static Operator* translateHashGroupify(Runtime& runtime, const map<unsigned, Reg
     return new HashGroupify(tree, output, plan->cardinality);
 }
 //---------------------------------------------------------------------------
+static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::Filter& filter);
+//---------------------------------------------------------------------------
+static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::SubQuery& query)
+    // Collect all variables of a pattern used in a filter
+{
+    for (const auto &n : query.nodes) {
+        if (!n.constSubject) filterVariables.insert(n.subject);
+        if (!n.constPredicate) filterVariables.insert(n.predicate);
+        if (!n.constObject) filterVariables.insert(n.object);
+    }
+    for (const auto &n : query.valueNodes)
+        filterVariables.insert(n.variables.begin(), n.variables.end());
+    for (const auto &f : query.filters)
+        collectVariables(filterVariables, f);
+    for (const auto &q : query.optional)
+        collectVariables(filterVariables, q);
+    for (const auto &u : query.unions)
+        for (const auto &q : u)
+            collectVariables(filterVariables, q);
+    for (const auto &q : query.subqueries)
+        filterVariables.insert(q->projectionBegin(), q->projectionEnd());
+}
+//---------------------------------------------------------------------------
 static void collectVariables(set<unsigned>& filterVariables, const QueryGraph::Filter& filter)
     // Collect all query variables
 {
+    if (filter.subpattern)
+        collectVariables(filterVariables, *filter.subpattern);
+    if (filter.subquery)
+        filterVariables.insert(filter.subquery->projectionBegin(), filter.subquery->projectionEnd());
     if (filter.type == QueryGraph::Filter::Variable)
         filterVariables.insert(filter.id);
     if (filter.arg1)
diff --git a/rdf3x/src/cts/QueryGraph.cpp b/rdf3x/src/cts/QueryGraph.cpp
index 2b8de6f..4a53c73 100644
--- a/rdf3x/src/cts/QueryGraph.cpp
+++ b/rdf3x/src/cts/QueryGraph.cpp
@@ -146,6 +146,10 @@ bool QueryGraph::Filter::isApplicable(const std::set<unsigned>& variables) const
     if (arg1 && (!arg1->isApplicable(variables))) return false;
     if (arg2 && (!arg2->isApplicable(variables))) return false;
     if (arg3 && (!arg3->isApplicable(variables))) return false;
+    if (subpattern) {
+        //The pattern can share any variable with the rest of the query
+        return false;
+    }
     if (subquery) {
         //Check whether the subquery mentions all variables
         for(auto idx = subquery->projectionBegin();
-- 
2.43.0


From 392823ef60c2cff592e44fc707b18ac11b0170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 49/64] fix: NOT EXISTS over a pattern with an unknown term is
 true

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..7ff18ea 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -494,7 +494,14 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
 
     // Encode recursively
     output.filters.push_back(QueryGraph::Filter());
-    return encodeFilter(myself, dict, diffIndex, group, input, output.filters.back(), tempQueryDict, currentQueryGraph);
+    if (encodeFilter(myself, dict, diffIndex, group, input, output.filters.back(), tempQueryDict, currentQueryGraph))
+        return true;
+    if (input.type == SPARQLParser::Filter::Builtin_notexists) {
+        // The pattern can never match, the filter is always satisfied
+        output.filters.pop_back();
+        return true;
+    }
+    return false;
 }
 //---------------------------------------------------------------------------
 static bool encodeAssignment(SemanticAnalysis *myself,
-- 
2.43.0


From 4cef922ac8ea74f373d1fac11c8a718f2e78c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:37 +0000
Subject: [PATCH 50/64] fix: an inequality on an unbound variable is not true

---
 rdf3x/src/rts/Filter.cpp    | 8 ++++----
 rdf3x/src/rts/Selection.cpp | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/rdf3x/src/rts/Filter.cpp b/rdf3x/src/rts/Filter.cpp
index 03c98f1..85c28a8 100644
--- a/rdf3x/src/rts/Filter.cpp
+++ b/rdf3x/src/rts/Filter.cpp
@@ -60,8 +60,8 @@ uint64_t Filter::first()
    // Check if valid
    uint64_t value=filter->value;
    if (exclude) {
-      if ((value>=min)&&(value<=max)&&(valid[value-min]))
-         return next();
+      if ((value==UINT64_MAX)||((value>=min)&&(value<=max)&&(valid[value-min])))
+         return next(); // excluded, or not bound
       observedOutputCardinality+=count;
       return count;
    } else {
@@ -85,8 +85,8 @@ uint64_t Filter::next()
 
          // Check if valid
          uint64_t value=filter->value;
-         if ((value>=min)&&(value<=max)&&(valid[value-min]))
-            continue;
+         if ((value==UINT64_MAX)||((value>=min)&&(value<=max)&&(valid[value-min])))
+            continue; // excluded, or not bound
          observedOutputCardinality+=count;
          return count;
       }
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 8ce9026..2219541 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -365,7 +365,8 @@ void Selection::NotEqual::eval(Result& result)
 
     // Cheap case first
     if (l.hasId() && r.hasId()) {
-        result.setBoolean(l.id != r.id);
+        // (an unbound variable is an error, i.e., not true)
+        result.setBoolean(l.id != r.id && l.id != UINT64_MAX && r.id != UINT64_MAX);
         return;
     }
 
-- 
2.43.0


From 7da0716e360e3ce8a45a269ebe850f3fdf984c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:56 +0000
Subject: [PATCH 51/64] fix: keep the variable of a fully aggregated scan
 without order

---
 rdf3x/src/cts/CodeGen.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index ab0286e..8fb6d49 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -160,9 +160,11 @@ static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<u
     resolveScanVariable(runtime, context, projection, bindings, registers,
             0, node, subject, constSubject,
             (order != DBLayer::Order_Subject_Predicate_Object)
-            && (order != DBLayer::Order_Subject_Object_Predicate));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order != DBLayer::Order_Predicate_Subject_Object) && (order != DBLayer::Order_Predicate_Object_Subject));
-    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order != DBLayer::Order_Object_Subject_Predicate) && (order != DBLayer::Order_Object_Predicate_Subject));
+            && (order != DBLayer::Order_Subject_Object_Predicate)
+            && (order != DBLayer::Order_No_Order_SPO)
+            && (order != DBLayer::Order_No_Order_SOP));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 1, node, predicate, constPredicate, (order != DBLayer::Order_Predicate_Subject_Object) && (order != DBLayer::Order_Predicate_Object_Subject) && (order != DBLayer::Order_No_Order_PSO) && (order != DBLayer::Order_No_Order_POS));
+    resolveScanVariable(runtime, context, projection, bindings, registers, 2, node, object, constObject, (order != DBLayer::Order_Object_Subject_Predicate) && (order != DBLayer::Order_Object_Predicate_Subject) && (order != DBLayer::Order_No_Order_OSP) && (order != DBLayer::Order_No_Order_OPS));
 
     // And return the operator
     //if (runtime.hasDifferentialIndex())
-- 
2.43.0


From a0a495a186ab4ddd35a193ff1383367e5172aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 52/64] fix: ids of numbers keep the sign and the value, and an
 unbound value is no number

---
 include/trident/kb/dictmgmt.h    | 82 ++++++++++++++------------------
 rdf3x/src/rts/ResultsPrinter.cpp | 10 ++--
 2 files changed, 44 insertions(+), 48 deletions(-)

diff --git a/include/trident/kb/dictmgmt.h b/include/trident/kb/dictmgmt.h
index fe8beea..dc25ffe 100644
--- a/include/trident/kb/dictmgmt.h
+++ b/include/trident/kb/dictmgmt.h
@@ -23,6 +23,7 @@
 #ifndef DICTMGMT_H_
 #define DICTMGMT_H_
 
+#include <cstring>
 #include <trident/kb/consts.h>
 #include <trident/kb/statistics.h>
 
@@ -210,21 +211,34 @@ class DictMgmt {
         }
 
         /*** METHODS USED WHEN THE IDS ARE ACTUAL NUMBERS ***/
+        //The two most significant bits tell the type (both set: unbound). An
+        //integer is in the other 62 bits, a float is in the lower 32 bits.
         static bool isnumeric(uint64_t term) {
-            bool res = term & UINT64_C(0xC000000000000000); //check the two most significant bits are non-zero
-            return res;
+            uint64_t type = getType(term);
+            return type == DICTMGMT_INTEGER || type == DICTMGMT_FLOAT;
         }
 
-        static uint64_t getIntValue(uint64_t term) {
-            uint64_t raw = term & UINT64_C(0x3FFFFFFFFFFFFFFF);
-            return raw;
+        static int64_t getIntValue(uint64_t term) {
+            return (int64_t)(term << 2) >> 2;
         }
 
         static float getFloatValue(uint64_t term) {
-            float fv = *((float*)(((char*)&term+4)));
+            uint32_t raw = (uint32_t) term;
+            float fv;
+            memcpy(&fv, &raw, sizeof(float));
             return fv;
         }
 
+        static uint64_t fromInt(int64_t v) {
+            return ((uint64_t) v & UINT64_C(0x3FFFFFFFFFFFFFFF)) | DICTMGMT_INTEGER;
+        }
+
+        static uint64_t fromFloat(float v) {
+            uint32_t raw;
+            memcpy(&raw, &v, sizeof(float));
+            return raw | DICTMGMT_FLOAT;
+        }
+
         static void setFloatValue(uint64_t &term) {
             term |= DICTMGMT_FLOAT;
         }
@@ -234,8 +248,9 @@ class DictMgmt {
         }
 
         static string tostr(uint64_t term) {
-            uint64_t raw = term & UINT64_C(0x3FFFFFFFFFFFFFFF);
-            return to_string(raw);
+            if (getType(term) == DICTMGMT_FLOAT)
+                return to_string(getFloatValue(term));
+            return to_string(getIntValue(term));
         }
 
         static uint64_t getType(uint64_t term) {
@@ -243,48 +258,25 @@ class DictMgmt {
             return type;
         }
 
+        template<class A, class B> static int cmp(A a, B b) {
+            if (a < b) {
+                return -1;
+            } else if (a > b) {
+                return 1;
+            } else {
+                return 0;
+            }
+        }
+
         static int compare(uint64_t type1, uint64_t number1, uint64_t type2, uint64_t number2) {
             if (type1 == DICTMGMT_INTEGER && type2 == DICTMGMT_INTEGER) {
-                number1 = number1 & UINT64_C(0x3FFFFFFFFFFFFFFF);
-                number2 = number2 & UINT64_C(0x3FFFFFFFFFFFFFFF);
-                if (number1 < number2) {
-                    return -1;
-                } else if (number1 > number2) {
-                    return 1;
-                } else {
-                    return 0;
-                }
+                return cmp(getIntValue(number1), getIntValue(number2));
             } else if (type1 == DICTMGMT_INTEGER) {
-                number1 = number1 & UINT64_C(0x3FFFFFFFFFFFFFFF);
-                float n2 = *((float*)(((char*)&number2+4)));
-                if (number1 < n2) {
-                    return -1;
-                } else if (number1 > n2) {
-                    return 1;
-                } else {
-                    return 0;
-                }
+                return cmp(getIntValue(number1), getFloatValue(number2));
             } else if (type2 == DICTMGMT_INTEGER) {
-                float n1 = *((float*)(((char*)&number1+4)));
-                number2 = number2 & UINT64_C(0x3FFFFFFFFFFFFFFF);
-                if (n1 < number2) {
-                    return -1;
-                } else if (n1 > number2) {
-                    return 1;
-                } else {
-                    return 0;
-                }
+                return cmp(getFloatValue(number1), getIntValue(number2));
             } else { //both floats
-                float n1 = *((float*)(((char*)&number1+4)));
-                float n2 = *((float*)(((char*)&number2+4)));
-                if (n1 < n2) {
-                    return -1;
-                } else if (n1 > n2) {
-                    return 1;
-                } else {
-                    return 0;
-                }
-
+                return cmp(getFloatValue(number1), getFloatValue(number2));
             }
         }
 
diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..35b20c2 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -173,7 +173,8 @@ void formatJSONRow(const std::vector<std::string> &columns,
             fbinding.put("type", "literal");
             fbinding.put("value", "NULL");
         } else {
-            std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+            std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start)
+                : stringCache[*start].tostring(/*stringCache,*/ false);
             if (el[0] == '<' && el.size() > 2) {
                 fbinding.put("type", "uri");
                 fbinding.put("value", el.substr(1, el.size() - 2));
@@ -190,7 +191,8 @@ void formatJSONRow(const std::vector<std::string> &columns,
                 binding.put("type", "literal");
                 binding.put("value", "NULL");
             } else {
-                std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
+                std::string el = DictMgmt::isnumeric(*start) ? DictMgmt::tostr(*start)
+                : stringCache[*start].tostring(/*stringCache,*/ false);
                 if (el[0] == '<' && el.size() > 2) {
                     binding.put("type", "uri");
                     binding.put("value", el.substr(1, el.size() - 2));
@@ -307,7 +309,9 @@ uint64_t ResultsPrinter::first()
             for (vector<Register*>::const_iterator iter = output.begin(),
                     limit = output.end(); iter != limit; ++iter) {
                 uint64_t id = (*iter)->value;
-                if (DictMgmt::isnumeric(id)) {
+                if (!~id) {
+                    ss << "NULL";
+                } else if (DictMgmt::isnumeric(id)) {
                     ss << DictMgmt::tostr(id);
                 } else {
                     CacheEntry c;
-- 
2.43.0


From 787fab965262500f76f8cd06b68f7342a886ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 53/64] fix: comparisons in filters: both sides, numbers by
 value, unbound and malformed values

---
 rdf3x/include/rts/operator/Selection.hpp |  12 +-
 rdf3x/src/rts/Selection.cpp              | 328 +++++++++--------------
 2 files changed, 140 insertions(+), 200 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index d52ef47..c0829f5 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -21,6 +21,8 @@
 //---------------------------------------------------------------------------
 class Register;
 class Runtime;
+struct value;
+typedef struct value IdValue;
 //---------------------------------------------------------------------------
 /// Applies a number of selections
 class Selection : public Operator {
@@ -617,9 +619,13 @@ class Selection : public Operator {
         /// The predicate
         Predicate* predicate;
 
-        bool numeric(Result &v);
-        bool numLess(const Result &l, const Result &r);
-        bool isNumericComparison(Result &l, Result &r);
+        /// Get the value of a number or a time
+        bool numeric(Result &v, IdValue &val);
+        bool numLess(const IdValue &v1, const IdValue &v2, bool orEqual);
+        /// Is l = r?
+        bool equal(Result &l, Result &r);
+        /// Is l < r (or l <= r)?
+        bool compare(Result &l, Result &r, bool orEqual);
 
     public:
         /// Constructor
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index 2219541..54e7c7d 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <cassert>
 #include <cstdlib>
+#include <cerrno>
 #include <cstdio>
 #ifdef __GNUC__
 #if (__GNUC__>4)||((__GNUC__==4)&&(__GNUC_MINOR__>=9))
@@ -31,23 +32,38 @@
 //---------------------------------------------------------------------------
 using namespace std;
 
-int64_t _getLong(const std::string &s) {
-    auto pos = s.find_first_of('"',1);
-    std::string number;
-    if (pos != string::npos)
-        number = s.substr(1, pos-1);
-    else
-        number = s;
-    return std::stoll(number);
+// The lexical form of a stored term: a literal is kept with its quotes (and its type), an IRI without brackets
+static std::string _lexicalForm(const std::string &s) {
+    if (s.empty() || s[0] != '"')
+        return s;
+    auto pos = s.find_last_of('"');
+    return pos > 0 ? s.substr(1, pos - 1) : s;
 }
 
-double _getDouble(const std::string &s) {
-    std::string number = s.substr(1, s.find_first_of('"',1)-1);
-    return std::stod(number);
+static bool _getLong(const std::string &number, int64_t &v) {
+    char *end;
+    errno = 0;
+    v = strtoll(number.c_str(), &end, 10);
+    return !number.empty() && !*end && !errno;
 }
 
-int64_t _getTime(const std::string &s, Selection::NumType tp) {
-    std::string time = s.substr(1, s.find_first_of('"',1)-1);
+static bool _getDouble(const std::string &number, double &v) {
+    char *end;
+    v = strtod(number.c_str(), &end);
+    return !number.empty() && !*end;
+}
+
+// The operand of an arithmetic operator
+static double _getNumber(uint64_t flags, uint64_t id, const std::string &value) {
+    if ((flags & Selection::Result::idAvailable) && DictMgmt::isnumeric(id)) {
+        if (DictMgmt::getType(id) == DICTMGMT_INTEGER)
+            return DictMgmt::getIntValue(id);
+        return DictMgmt::getFloatValue(id);
+    }
+    return atof(_lexicalForm(value).c_str());
+}
+
+static bool _getTime(const std::string &time, Selection::NumType tp, int64_t &v) {
     int year;
     int month;
     int day;
@@ -55,18 +71,15 @@ int64_t _getTime(const std::string &s, Selection::NumType tp) {
     int min = 0;
     int sec = 0;
     if (tp == Selection::NumType::DATE) {
-	int retval = sscanf(time.c_str(), "%d-%d-%d", &year, &month, &day);
-	if (retval != 3) {
-	    throw 10;
-	}
+	if (sscanf(time.c_str(), "%d-%d-%d", &year, &month, &day) != 3)
+	    return false;
     } else {
-	int retval = sscanf(time.c_str(), "%d-%d-%dT%d:%d:%d", &year, &month, &day, &hour, &min, &sec);
-	if (retval != 6) {
-	    throw 10;
-	}
+	if (sscanf(time.c_str(), "%d-%d-%dT%d:%d:%d", &year, &month, &day, &hour, &min, &sec) != 6)
+	    return false;
     }
-    return ((int64_t) year << 48) + ((int64_t) month << 40) + ((int64_t) day << 32) + (hour << 24)
+    v = ((int64_t) year << 48) + ((int64_t) month << 40) + ((int64_t) day << 32) + (hour << 24)
 	+ (min << 16) + sec;
+    return true;
 }
 
 bool _endsWith(const std::string &s, const std::string &suffix) {
@@ -79,10 +92,11 @@ bool _endsWith(const std::string &s, const std::string &suffix) {
 Selection::NumType Selection::getNumType(std::string s) {
     std::string dbl = "^^<http://www.w3.org/2001/XMLSchema#double>";
     std::string flt = "^^<http://www.w3.org/2001/XMLSchema#float>";
+    std::string decimal = "^^<http://www.w3.org/2001/XMLSchema#decimal>";
     std::string integer = "^^<http://www.w3.org/2001/XMLSchema#integer>";
     std::string datetime = "^^<http://www.w3.org/2001/XMLSchema#dateTime>";
     std::string date = "^^<http://www.w3.org/2001/XMLSchema#date>";
-    if (_endsWith(s,dbl) || _endsWith(s,flt)) {
+    if (_endsWith(s,dbl) || _endsWith(s,flt) || _endsWith(s,decimal)) {
         return NumType::DECIMAL;
     } else if (_endsWith(s,integer)) {
         return NumType::INT;
@@ -94,50 +108,99 @@ Selection::NumType Selection::getNumType(std::string s) {
     return NumType::UNKNOWN;
 }
 
-bool Selection::numeric(Result &v) {
-    if (! (v.flags & Result::idAvailable)) {
-	return false;
-    }
-    auto r = runtime.valueMap.find(v.id);
-    if (r == runtime.valueMap.end()) {
-	IdValue val;
-	v.ensureString(this);
-	val.tp = getNumType(v.value);
-	if (val.tp == NumType::DECIMAL) {
-	    val.val.dv = _getDouble(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::INT) {
-	    val.val.iv = _getLong(v.value);
-	    runtime.valueMap[v.id] = val;
-	    return true;
-	} else if (val.tp == NumType::DATE || val.tp == NumType::DATETIME) {
-	    val.val.iv = _getTime(v.value, val.tp);
-	    runtime.valueMap[v.id] = val;
+bool Selection::numeric(Result &v, IdValue &val) {
+    if (!(v.flags & Result::idAvailable)) {
+	// A constant which is not in the dictionary or the result of an operation
+	if (v.flags & Result::booleanAvailable)
+	    return false;
+	val.tp = NumType::INT;
+	if (_getLong(v.value, val.val.iv))
 	    return true;
+	val.tp = NumType::DECIMAL;
+	return _getDouble(v.value, val.val.dv);
+    }
+    if (DictMgmt::isnumeric(v.id)) {
+	if (DictMgmt::getType(v.id) == DICTMGMT_INTEGER) {
+	    val.tp = NumType::INT;
+	    val.val.iv = DictMgmt::getIntValue(v.id);
+	} else {
+	    val.tp = NumType::DECIMAL;
+	    val.val.dv = DictMgmt::getFloatValue(v.id);
 	}
+	return true;
+    }
+    if (!~v.id)
 	return false;
+    auto r = runtime.valueMap.find(v.id);
+    if (r != runtime.valueMap.end()) {
+	val = r->second;
+	return true;
     }
-    return true;
+    v.ensureString(this);
+    std::string lexical = _lexicalForm(v.value);
+    bool known = false;
+    val.tp = getNumType(v.value);
+    if (val.tp == NumType::DECIMAL)
+	known = _getDouble(lexical, val.val.dv);
+    else if (val.tp == NumType::INT)
+	known = _getLong(lexical, val.val.iv);
+    else if (val.tp == NumType::DATE || val.tp == NumType::DATETIME)
+	known = _getTime(lexical, val.tp, val.val.iv);
+    if (known)
+	runtime.valueMap[v.id] = val;
+    return known;
+}
+
+static bool _isTime(const IdValue &v) {
+    return v.tp == Selection::NumType::DATE || v.tp == Selection::NumType::DATETIME;
 }
 
-bool Selection::isNumericComparison(Result &l, Result &r) {
-    return numeric(l) && numeric(r);
+template<class A, class B> static bool _less(A a, B b, bool orEqual) {
+    return orEqual ? a <= b : a < b;
 }
 
-bool Selection::numLess(const Result &l, const Result &r) {
-    IdValue v1 = runtime.valueMap[l.id];
-    IdValue v2 = runtime.valueMap[r.id];
+bool Selection::numLess(const IdValue &v1, const IdValue &v2, bool orEqual) {
     if (v1.tp != NumType::DECIMAL) {
 	if (v2.tp != NumType::DECIMAL) {
-	    return v1.val.iv < v2.val.iv;
+	    return _less(v1.val.iv, v2.val.iv, orEqual);
 	}
-	return v1.val.iv < v2.val.dv;
+	return _less(v1.val.iv, v2.val.dv, orEqual);
     }
     if (v2.tp != NumType::DECIMAL) {
-	return v1.val.dv < v2.val.iv;
+	return _less(v1.val.dv, v2.val.iv, orEqual);
     }
-    return v1.val.dv < v2.val.dv;
+    return _less(v1.val.dv, v2.val.dv, orEqual);
+}
+
+bool Selection::equal(Result &l, Result &r) {
+    // Cheap case first
+    if (l.hasId() && r.hasId()) {
+	if (l.id == r.id)
+	    return true;
+	if (!DictMgmt::isnumeric(l.id) && !DictMgmt::isnumeric(r.id))
+	    return false;
+    }
+
+    // Now compare for real
+    IdValue v1, v2;
+    if (numeric(l, v1) && numeric(r, v2) && _isTime(v1) == _isTime(v2))
+	return numLess(v1, v2, true) && numLess(v2, v1, true);
+    l.ensureString(this);
+    r.ensureString(this);
+    return l.value == r.value;
+}
+
+bool Selection::compare(Result &l, Result &r, bool orEqual) {
+    // An unbound value is an error
+    if ((l.hasId() && !~l.id) || (r.hasId() && !~r.id))
+	return false;
+    IdValue v1, v2;
+    if (numeric(l, v1) && numeric(r, v2) && _isTime(v1) == _isTime(v2))
+	return numLess(v1, v2, orEqual);
+    l.ensureString(this);
+    r.ensureString(this);
+    std::string s1 = _lexicalForm(l.value), s2 = _lexicalForm(r.value);
+    return orEqual ? s1 <= s2 : s1 < s2;
 }
 
 //---------------------------------------------------------------------------
@@ -152,7 +215,9 @@ void Selection::Result::ensureString(const Selection* selection)
     if (!(flags & stringAvailable)) {
         if (flags & idAvailable) {
             const char* start, *stop;
-            if ((~id) && (selection->runtime.getDatabase().lookupById(id, start, stop, type, subType))) {
+            if (DictMgmt::isnumeric(id)) {
+                value = DictMgmt::tostr(id);
+            } else if ((~id) && (selection->runtime.getDatabase().lookupById(id, start, stop, type, subType))) {
                 value = string(start, stop);
                 flags |= typeAvailable;
             } else {
@@ -337,17 +402,7 @@ void Selection::Equal::eval(Result& result)
     Result l, r;
     left->eval(l);
     right->eval(r);
-
-    // Cheap case first
-    if (l.hasId() && r.hasId()) {
-        result.setBoolean(l.id == r.id);
-        return;
-    }
-
-    // Now compare for real
-    l.ensureString(selection);
-    r.ensureString(selection);
-    result.setBoolean(l.value == r.value);
+    result.setBoolean(selection->equal(l, r));
 }
 //---------------------------------------------------------------------------
 string Selection::Equal::print(PlanPrinter& out)
@@ -363,17 +418,12 @@ void Selection::NotEqual::eval(Result& result)
     left->eval(l);
     right->eval(r);
 
-    // Cheap case first
-    if (l.hasId() && r.hasId()) {
-        // (an unbound variable is an error, i.e., not true)
-        result.setBoolean(l.id != r.id && l.id != UINT64_MAX && r.id != UINT64_MAX);
+    // An unbound variable is an error, i.e., not true
+    if ((l.hasId() && !~l.id) || (r.hasId() && !~r.id)) {
+        result.setBoolean(false);
         return;
     }
-
-    // Now compare for real
-    l.ensureString(selection);
-    r.ensureString(selection);
-    result.setBoolean(l.value != r.value);
+    result.setBoolean(!selection->equal(l, r));
 }
 //---------------------------------------------------------------------------
 string Selection::NotEqual::print(PlanPrinter& out)
@@ -388,59 +438,7 @@ void Selection::Less::eval(Result& result)
     Result l, r;
     left->eval(l);
     right->eval(r);
-
-    bool num1 =  DictMgmt::isnumeric(l.id);
-    bool num2 =  DictMgmt::isnumeric(r.id);
-
-    if (!num1 && !num2) {
-        if (selection->isNumericComparison(l,r)) {
-            result.setBoolean(selection->numLess(l,r));
-        } else {
-	    r.ensureString(selection);
-	    r.ensureString(selection);
-            result.setBoolean(l.value < r.value);
-        }
-    } else if (num1 && !num2) {
-        r.ensureString(selection);
-        //The comparison is numeric
-        auto tr = getNumType(r.value);
-        uint64_t t2;
-        uint64_t v2 = 0;
-        if (tr != NumType::DECIMAL) {
-            t2 = DICTMGMT_INTEGER;
-            v2 = _getLong(r.value);
-        } else {
-            t2 = DICTMGMT_FLOAT;
-            float v2_tmp1 = _getDouble(r.value);
-            uint32_t v2_tmp;
-	    memcpy(&v2_tmp, &v2_tmp1, sizeof(float));
-            v2 += v2_tmp;
-        }
-        int res = DictMgmt::compare(DictMgmt::getType(l.id), l.id, t2, v2);
-        result.setBoolean(res < 0);
-    } else if (!num1 && num2) {
-        //The comparison is numeric
-        l.ensureString(selection);
-        auto tl = getNumType(l.value);
-        uint64_t t1;
-        uint64_t v1 = 0;
-        if (tl != NumType::DECIMAL) {
-            t1 = DICTMGMT_INTEGER;
-            v1 = _getLong(l.value);
-        } else {
-            t1 = DICTMGMT_FLOAT;
-            float v1_tmp1 = _getDouble(l.value);
-            uint32_t v1_tmp;
-	    memcpy(&v1_tmp, &v1_tmp1, sizeof(float));
-            v1 += v1_tmp;
-        }
-        int res = DictMgmt::compare(t1, v1, DictMgmt::getType(r.id), r.id);
-        result.setBoolean(res < 0);
-    } else {
-        //Numbers can be int or float
-        int res = DictMgmt::compare(DictMgmt::getType(l.id), l.id, DictMgmt::getType(r.id), r.id);
-        result.setBoolean(res < 0);
-    }
+    result.setBoolean(selection->compare(l, r, false));
 }
 //---------------------------------------------------------------------------
 string Selection::Less::print(PlanPrinter& out)
@@ -452,74 +450,10 @@ string Selection::Less::print(PlanPrinter& out)
 void Selection::LessOrEqual::eval(Result& result)
     // Evaluate the predicate
 {
-    /*Result l, r;
-    left->eval(l);
-    right->eval(r);
-
-    l.ensureString(selection);
-    r.ensureString(selection);
-    if (isNumericComparison(l,r)) {
-        result.setBoolean(! numLess(r,l));
-    } else {
-        result.setBoolean(l.value <= r.value);
-    }*/
     Result l, r;
     left->eval(l);
     right->eval(r);
-
-    bool num1 =  DictMgmt::isnumeric(l.id);
-    bool num2 =  DictMgmt::isnumeric(r.id);
-    
-    if (!num1 && !num2) {
-        if (selection->isNumericComparison(l,r)) {
-            result.setBoolean(!selection->numLess(r,l));
-        } else {
-	    l.ensureString(selection);
-	    r.ensureString(selection);
-            result.setBoolean(l.value <= r.value);
-        }
-    } else if (num1 && !num2) {
-        //The comparison is numeric
-        r.ensureString(selection);
-        auto tr = getNumType(r.value);
-        uint64_t t2;
-        uint64_t v2 = 0;
-        if (tr != NumType::DECIMAL) {
-            t2 = DICTMGMT_INTEGER;
-            v2 = _getLong(r.value);
-        } else {
-            t2 = DICTMGMT_FLOAT;
-            float v2_tmp1 = _getDouble(r.value);
-            uint32_t v2_tmp;
-	    memcpy(&v2_tmp, &v2_tmp1, sizeof(float));
-            v2 += v2_tmp;
-        }
-        int res = DictMgmt::compare(DictMgmt::getType(l.id), l.id, t2, v2);
-        result.setBoolean(res <= 0);
-    } else if (!num1 && num2) {
-        l.ensureString(selection);
-        //The comparison is numeric
-        auto tl = getNumType(l.value);
-        uint64_t t1;
-        uint64_t v1 = 0;
-        if (tl != NumType::DECIMAL) {
-            t1 = DICTMGMT_INTEGER;
-            v1 = _getLong(l.value);
-        } else {
-            t1 = DICTMGMT_FLOAT;
-            float v1_tmp1 = _getDouble(l.value);
-            uint32_t v1_tmp;
-	    memcpy(&v1_tmp, &v1_tmp1, sizeof(float));
-            v1 += v1_tmp;
-        }
-        int res = DictMgmt::compare(t1, v1, DictMgmt::getType(r.id), r.id);
-        result.setBoolean(res <= 0);
-    } else {
-        //Numbers can be int or float
-        int res = DictMgmt::compare(DictMgmt::getType(l.id), l.id, DictMgmt::getType(r.id), r.id);
-        result.setBoolean(res <= 0);
-    }
-
+    result.setBoolean(selection->compare(l, r, true));
 }
 //---------------------------------------------------------------------------
 string Selection::LessOrEqual::print(PlanPrinter& out)
@@ -538,7 +472,7 @@ void Selection::Plus::eval(Result& result)
     l.ensureString(selection);
     r.ensureString(selection);
     stringstream s;
-    s << (atof(l.value.c_str()) + atof(r.value.c_str()));
+    s << (_getNumber(l.flags, l.id, l.value) + _getNumber(r.flags, r.id, r.value));
     result.setLiteral(s.str());
 }
 //---------------------------------------------------------------------------
@@ -558,7 +492,7 @@ void Selection::Minus::eval(Result& result)
     l.ensureString(selection);
     r.ensureString(selection);
     stringstream s;
-    s << (atof(l.value.c_str()) - atof(r.value.c_str()));
+    s << (_getNumber(l.flags, l.id, l.value) - _getNumber(r.flags, r.id, r.value));
     result.setLiteral(s.str());
 }
 //---------------------------------------------------------------------------
@@ -578,7 +512,7 @@ void Selection::Mul::eval(Result& result)
     l.ensureString(selection);
     r.ensureString(selection);
     stringstream s;
-    s << (atof(l.value.c_str())*atof(r.value.c_str()));
+    s << (_getNumber(l.flags, l.id, l.value)*_getNumber(r.flags, r.id, r.value));
     result.setLiteral(s.str());
 }
 //---------------------------------------------------------------------------
@@ -598,7 +532,7 @@ void Selection::Div::eval(Result& result)
     l.ensureString(selection);
     r.ensureString(selection);
     stringstream s;
-    s << (atof(l.value.c_str()) / atof(r.value.c_str()));
+    s << (_getNumber(l.flags, l.id, l.value) / _getNumber(r.flags, r.id, r.value));
     result.setLiteral(s.str());
 }
 //---------------------------------------------------------------------------
@@ -628,7 +562,7 @@ void Selection::Neg::eval(Result& result)
 
     i.ensureString(selection);
     stringstream s;
-    s << (-atof(i.value.c_str()));
+    s << (-_getNumber(i.flags, i.id, i.value));
     result.setLiteral(s.str());
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From 25b62c990f471335d74a997b5c047854c37344a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 54/64] fix: aggregates count the multiplicity of rows, keep
 the keys of a group and cope with unbound or missing values

---
 include/trident/sparql/aggrhandler.h         |  3 +-
 rdf3x/include/rts/operator/AggrFunctions.hpp |  2 +
 rdf3x/src/cts/CodeGen.cpp                    |  4 ++
 rdf3x/src/rts/AggrFunctions.cpp              | 34 ++++++++----
 src/trident/sparql/aggrhandler.cpp           | 55 ++++++++++----------
 5 files changed, 61 insertions(+), 37 deletions(-)

diff --git a/include/trident/sparql/aggrhandler.h b/include/trident/sparql/aggrhandler.h
index 44564fa..6fac1ea 100644
--- a/include/trident/sparql/aggrhandler.h
+++ b/include/trident/sparql/aggrhandler.h
@@ -30,11 +30,13 @@ class AggregateHandler {
             int64_t arg1_int, arg2_int; //various arguments used by the functions
             double arg1_dec, arg2_dec;
             bool arg1_bool, arg2_bool;
+            std::set<std::pair<int, uint64_t>> seen; //values of the group, for DISTINCT
 
             void reset() {
                 arg1_int = arg2_int = 0;
                 arg1_dec = arg2_dec = 0;
                 arg1_bool = arg2_bool = true;
+                seen.clear();
             }
         };
 
@@ -42,7 +44,6 @@ class AggregateHandler {
         unsigned varcount;
         std::map<FUNC,std::map<unsigned,unsigned>> assignments;
         bool distinct[FUNC::NFUNCS];
-        std::set<uint64_t> sets[FUNC::NFUNCS];
         uint64_t inputmask;
         std::vector<VarValue> varvalues;
         std::vector<FunctCall> executions;
diff --git a/rdf3x/include/rts/operator/AggrFunctions.hpp b/rdf3x/include/rts/operator/AggrFunctions.hpp
index 3e096e7..bee0a8f 100644
--- a/rdf3x/include/rts/operator/AggrFunctions.hpp
+++ b/rdf3x/include/rts/operator/AggrFunctions.hpp
@@ -15,6 +15,7 @@ class AggrFunctions : public Operator {
         DBLayer &dict;
         Operator *child;
         AggregateHandler hdl;
+        const bool noGroups;
         std::vector<Register*> groupKeys;
         std::vector<std::pair<unsigned,Register*>> varsToUpdate;
         std::vector<std::pair<unsigned,Register*>> varsToReturn;
@@ -23,6 +24,7 @@ class AggrFunctions : public Operator {
 
         void readKeys();
         void processGroup();
+        void finishGroup();
         bool sameKeyAsCurrent();
         void copyVars();
 
diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 8fb6d49..0ab94b7 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -716,6 +716,10 @@ static Operator* translateAggregates(Runtime& runtime,
     for(auto v : vars.first) {
         newprojection.insert(v);
     }
+    //The groups need their keys, also when they are not part of the result
+    for(auto v : groupkeys) {
+        newprojection.insert(v);
+    }
     //Create bindings for the output variables
     uint64_t slot = 0;
     const QueryGraph::ValuesNode& node = *reinterpret_cast<const QueryGraph::ValuesNode*>(&hdl);
diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 08f04a3..1492da7 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -12,7 +12,7 @@ AggrFunctions::AggrFunctions(DBLayer& db, Operator* child,
         const AggregateHandler &hdl,
         const std::vector<unsigned> &groupKeys,
         double expectedOutputCardinality) : Operator(expectedOutputCardinality),
-    dict(db), child(child), hdl(hdl) {
+    dict(db), child(child), hdl(hdl), noGroups(groupKeys.empty()) {
         for(unsigned v : groupKeys) {
             // assert(bindings.count(v));
 	    if (bindings.count(v)) {
@@ -45,18 +45,17 @@ void AggrFunctions::readKeys() {
 void AggrFunctions::copyVars() {
     for(uint8_t i = 0; i < varsToReturn.size(); ++i) {
         if (hdl.getValueType(varsToReturn[i].first)
+                == AggregateHandler::VarValue::TYPE::NUL) {
+            varsToReturn[i].second->value = UINT64_MAX;
+        } else if (hdl.getValueType(varsToReturn[i].first)
                 == AggregateHandler::VarValue::TYPE::INT) {
-            uint64_t val = hdl.getValueInt(varsToReturn[i].first);
-            val = val | DICTMGMT_INTEGER;
-            varsToReturn[i].second->value = val;
+            varsToReturn[i].second->value = DictMgmt::fromInt(
+                    hdl.getValueInt(varsToReturn[i].first));
         } else {
             assert(hdl.getValueType(varsToReturn[i].first)
                     == AggregateHandler::VarValue::TYPE::DEC);
-            double val = hdl.getValueDec(varsToReturn[i].first);
-            uint64_t uint_val = 0;
-            uint_val = uint_val | DICTMGMT_FLOAT;
-            *(float*)((char*)(&uint_val) + 4) = val;
-            varsToReturn[i].second->value = val;
+            varsToReturn[i].second->value = DictMgmt::fromFloat(
+                    hdl.getValueDec(varsToReturn[i].first));
         }
     }
 }
@@ -96,6 +95,8 @@ double __getDouble(const std::string &s) {
 void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
         uint64_t currentCount) {
     uint64_t value = var.second->value;
+    if (!~value)
+        return; //An unbound value does not take part
     if (!hdl.requiresNumber(var.first)) {
         hdl.updateVarSymbol(var.first, value, currentCount);
     } else {
@@ -139,6 +140,11 @@ void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
 }
 
 void AggrFunctions::processGroup() {
+    //The key values still are the ones of the previous group
+    for(uint8_t i = 0; i < currentGroupKeys.size(); ++i) {
+        groupKeys[i]->value = currentGroupKeys[i];
+    }
+
     //Add the current row
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
@@ -166,6 +172,10 @@ void AggrFunctions::processGroup() {
         }
     }
 
+    finishGroup();
+}
+
+void AggrFunctions::finishGroup() {
     //Add an empty row to tell the handler that the group is finished
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
@@ -178,6 +188,7 @@ void AggrFunctions::processGroup() {
 
 /// Produce the first tuple
 uint64_t AggrFunctions::first() {
+    observedOutputCardinality = 0;
     currentCount = child->first();
     if (currentCount) {
         //Read the first group
@@ -187,6 +198,11 @@ uint64_t AggrFunctions::first() {
         //Update the variables produced by the aggregated functions
         observedOutputCardinality++;
         return 1;
+    } else if (noGroups) {
+        //There are no rows: they are one group nevertheless
+        finishGroup();
+        observedOutputCardinality++;
+        return 1;
     } else {
         return 0;
     }
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 7db66ea..b15b2b5 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -4,6 +4,7 @@
 #include <kognac/logs.h>
 
 #include <assert.h>
+#include <string.h>
 #include <set>
 #include <cfloat>
 
@@ -32,6 +33,8 @@ void AggregateHandler::startUpdate() {
 void AggregateHandler::prepare() {
     executions.clear();
     varvalues.resize(64); //Max number of vars
+    for (auto &v : varvalues)
+        v.requiresNumber = false;
     for(auto &el : assignments) {
         FUNC id = el.first;
         for(auto &assignment : el.second) {
@@ -49,9 +52,7 @@ void AggregateHandler::prepare() {
 		call.arg1_dec = -DBL_MAX;
 	    }
             //Update the variables and mentions if they need to be numberic
-            if (id == COUNT)
-                varvalues[assignment.first].requiresNumber = false;
-            else
+            if (id != COUNT)
                 varvalues[assignment.first].requiresNumber = true;
             executions.push_back(call);
         }
@@ -135,12 +136,13 @@ AggregateHandler::VarValue::TYPE AggregateHandler::getValueType(
 }
 
 bool AggregateHandler::executeFunction(FunctCall &call) {
-    if (distinct[call.id] && varvalues[call.inputvar].type == VarValue::TYPE::SYMBOL) {
-        std::set<uint64_t>::iterator it = sets[call.id].find(varvalues[call.inputvar].v_int);
-        if (it != sets[call.id].end()) {
+    const VarValue &in = varvalues[call.inputvar];
+    if (distinct[call.id] && in.type != VarValue::TYPE::NUL) {
+        uint64_t v = in.v_int;
+        if (in.type == VarValue::TYPE::DEC)
+            memcpy(&v, &in.v_dec, sizeof(v));
+        if (!call.seen.insert(std::make_pair((int) in.type, v)).second)
             return false;
-        }
-        sets[call.id].insert(varvalues[call.inputvar].v_int);
     }
     switch (call.id) {
         case FUNC::COUNT:
@@ -177,6 +179,8 @@ bool AggregateHandler::execCount(FunctCall &call) {
 }
 
 bool AggregateHandler::execSum(FunctCall &call) {
+    //A row counts as often as it occurs
+    const uint64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
     //Get value of the var in input. If ~0lu, then return true and update the
     //output var
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
@@ -193,9 +197,9 @@ bool AggregateHandler::execSum(FunctCall &call) {
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += varvalues[call.inputvar].v_int * (int64_t) n;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += varvalues[call.inputvar].v_int * (double) n;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -203,37 +207,40 @@ bool AggregateHandler::execSum(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += varvalues[call.inputvar].v_dec * n;
         }
 	return false;
     }
 }
 
 bool AggregateHandler::execAvg(FunctCall &call) {
+    //A row counts as often as it occurs
+    const uint64_t n = distinct[call.id] ? 1 : varvalues[call.inputvar].v_count;
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_int == 0) {
 	    // No values
             varvalues[call.outputvar].v_int = 0;
             varvalues[call.outputvar].type = VarValue::TYPE::INT;
 	} else {
-	    if (call.arg1_bool) {
+	    if (call.arg1_bool && call.arg1_int % call.arg2_int == 0) {
 		varvalues[call.outputvar].v_int = call.arg1_int / call.arg2_int;
 		varvalues[call.outputvar].type = VarValue::TYPE::INT;
 	    } else {
-		varvalues[call.outputvar].v_dec = call.arg1_dec / call.arg2_int;
+		double sum = call.arg1_bool ? call.arg1_int : call.arg1_dec;
+		varvalues[call.outputvar].v_dec = sum / call.arg2_int;
 		varvalues[call.outputvar].type = VarValue::TYPE::DEC;
 	    }
 	}
 	return true;
     } else {
-	call.arg2_int++;
+	call.arg2_int += n;
         //Need to get the numerical value of the input
         if (varvalues[call.inputvar].type  == VarValue::TYPE::INT) {
             //Check the internal value
             if (call.arg1_bool) {
-                call.arg1_int += varvalues[call.inputvar].v_int;
+                call.arg1_int += varvalues[call.inputvar].v_int * (int64_t) n;
             } else {
-                call.arg1_dec += varvalues[call.inputvar].v_int;
+                call.arg1_dec += varvalues[call.inputvar].v_int * (double) n;
             }
         } else { //Dec
             if (call.arg1_bool) {
@@ -241,7 +248,7 @@ bool AggregateHandler::execAvg(FunctCall &call) {
                 call.arg1_dec = call.arg1_int;
                 call.arg1_bool = false;
             }
-            call.arg1_dec += varvalues[call.inputvar].v_dec;
+            call.arg1_dec += varvalues[call.inputvar].v_dec * n;
         }
 	return false;
     }
@@ -251,11 +258,8 @@ bool AggregateHandler::execAvg(FunctCall &call) {
 bool AggregateHandler::execMax(FunctCall &call) {
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_bool) {
-	    // No values yet. This is an error. How to deal with that? TODO!
-            LOG(ERRORL) << "No values for MAX";
-	    throw 10;
-	    // varvalues[call.outputvar].v_int = 0;
-            // varvalues[call.outputvar].type = VarValue::TYPE::INT;
+	    // No values: the result is not bound
+            varvalues[call.outputvar].type = VarValue::TYPE::NUL;
 	} else {
 	    if (call.arg1_bool) { //Int
 		varvalues[call.outputvar].v_int = call.arg1_int;
@@ -314,11 +318,8 @@ bool AggregateHandler::execMin(FunctCall &call) {
     // TODO: MIN and MAX should work for strings as well ...
     if (varvalues[call.inputvar].type  == VarValue::TYPE::NUL) {
 	if (call.arg2_bool) {
-	    // No values yet. This is an error. How to deal with that? TODO!
-            LOG(ERRORL) << "No values for MIN";
-	    throw 10;
-	    // varvalues[call.outputvar].v_int = 0;
-            // varvalues[call.outputvar].type = VarValue::TYPE::INT;
+	    // No values: the result is not bound
+            varvalues[call.outputvar].type = VarValue::TYPE::NUL;
 	} else {
 	    if (call.arg1_bool) { //Int
 		varvalues[call.outputvar].v_int = call.arg1_int;
-- 
2.43.0


From 4144f0f3b187ebe6c7a819c17906c765d32db1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 55/64] fix: term lists of permutations that are not stored
 count the triples of a key

---
 include/trident/iterators/reordertermitr.h | 11 ++++++-----
 src/trident/iterators/reordertermitr.cpp   | 14 +++++++-------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/trident/iterators/reordertermitr.h b/include/trident/iterators/reordertermitr.h
index b12582b..3c6efdf 100644
--- a/include/trident/iterators/reordertermitr.h
+++ b/include/trident/iterators/reordertermitr.h
@@ -30,23 +30,24 @@
 #include <inttypes.h>
 #include <vector>
 
-#include <google/dense_hash_set>
+#include <google/dense_hash_map>
 
 class ReOrderTermItr: public PairItr {
 private:
 
     Querier *q;
     PairItr *helper;
-    std::vector<uint64_t> keys;
+    //The keys, each with the number of triples it occurs in
+    std::vector<std::pair<uint64_t, uint64_t>> keys;
     size_t nextKeyIndex;
     int idx;
     bool initialized;
     size_t m_nextKeyIndex;
     size_t m_key;
 
-    void fillValuesO(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesO(google::dense_hash_map<uint64_t, uint64_t> &keys);
 
-    void fillValuesP(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesP(google::dense_hash_map<uint64_t, uint64_t> &keys);
 
     void fillValues();
 
@@ -68,7 +69,7 @@ public:
     }
 
 	LIBEXP int64_t getCount() {
-        return 1;
+        return keys[nextKeyIndex - 1].second;
     }
 
 	LIBEXP uint64_t getCardinality();
diff --git a/src/trident/iterators/reordertermitr.cpp b/src/trident/iterators/reordertermitr.cpp
index fef346c..959b316 100644
--- a/src/trident/iterators/reordertermitr.cpp
+++ b/src/trident/iterators/reordertermitr.cpp
@@ -21,25 +21,25 @@
 
 #include <trident/iterators/reordertermitr.h>
 
-void ReOrderTermItr::fillValuesO(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesO(google::dense_hash_map<uint64_t, uint64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
         uint64_t key = helper->getValue2();
-        keys.insert(key);
+        keys[key]++;
     }
 }
 
-void ReOrderTermItr::fillValuesP(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesP(google::dense_hash_map<uint64_t, uint64_t> &keys) {
     helper->ignoreSecondColumn();
     while (helper->hasNext()) {
         helper->next();
         uint64_t key = helper->getValue1();
-        keys.insert(key);
+        keys[key] += helper->getCount();
     }
 }
 
 void ReOrderTermItr::fillValues() {
-    google::dense_hash_set<uint64_t> keySet;
+    google::dense_hash_map<uint64_t, uint64_t> keySet;
     keySet.set_empty_key(0xFFFFFFFFFFFFFFFF);
     switch(idx) {
     case IDX_OSP:
@@ -56,7 +56,7 @@ void ReOrderTermItr::fillValues() {
     }
 
     for (auto v = keySet.begin(); v != keySet.end(); v++) {
-        keys.push_back(*v);
+        keys.push_back(std::make_pair(v->first, v->second));
     }
 
     initialized = true;
@@ -79,6 +79,6 @@ bool ReOrderTermItr::hasNext() {
 }
 
 void ReOrderTermItr::next() {
-    key = keys[nextKeyIndex];
+    key = keys[nextKeyIndex].first;
     nextKeyIndex++;
 }
-- 
2.43.0


From 404c0a964e7e8b691b3c91bb48a9dbc5691cf699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 56/64] fix: a merge join does not skip the rows of a side that
 an OPTIONAL keeps

---
 rdf3x/src/rts/MergeJoin.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/rts/MergeJoin.cpp b/rdf3x/src/rts/MergeJoin.cpp
index 801c3f0..be4c40d 100644
--- a/rdf3x/src/rts/MergeJoin.cpp
+++ b/rdf3x/src/rts/MergeJoin.cpp
@@ -23,8 +23,11 @@ MergeJoin::MergeJoin(Operator* left,Register* leftValue,const std::vector<Regist
     leftShadow.resize(leftTail.size()+2);
     rightShadow.resize(rightTail.size()+2);
 
-    left->addMergeHint(leftValue,rightValue);
-    right->addMergeHint(leftValue,rightValue);
+    // A side whose rows are kept without a match must not skip them
+    if (!rightOptional)
+        left->addMergeHint(leftValue,rightValue);
+    if (!leftOptional)
+        right->addMergeHint(leftValue,rightValue);
 }
 //---------------------------------------------------------------------------
 MergeJoin::~MergeJoin()
-- 
2.43.0


From 04671320d655ee7cd211f5dd369045c221a055f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 57/64] fix: values observed in one group do not restrict the
 rows of enclosing or sibling groups

---
 rdf3x/src/cts/CodeGen.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 0ab94b7..3a5d369 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1131,19 +1131,23 @@ static Operator* translatePlan(Runtime& runtime, const map<unsigned, Register*>&
     return result;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<map<unsigned, set<unsigned> > >& registerClasses, const QueryGraph& query, unsigned id);
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<map<unsigned, set<unsigned> > >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
     // Allocate registers
 {
+    // The variables of every group form classes of their own: what a join in one
+    // group observes says nothing about the rows of an enclosing or sibling group
+    size_t group = registerClasses.size();
+    registerClasses.emplace_back();
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
         const QueryGraph::Node& node = *iter;
         registers[&node] = id;
         if (!node.constSubject)
-            registerClasses[node.subject].insert(id + 0);
+            registerClasses[group][node.subject].insert(id + 0);
         if (!node.constPredicate)
-            registerClasses[node.predicate].insert(id + 1);
+            registerClasses[group][node.predicate].insert(id + 1);
         if (!node.constObject)
-            registerClasses[node.object].insert(id + 2);
+            registerClasses[group][node.object].insert(id + 2);
         id += 3;
     }
 
@@ -1158,7 +1162,7 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
         unsigned slot = 0;
         for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
+            registerClasses[group][*iter2].insert(id + slot);
         id += (*iter).output.size();
     }
 
@@ -1181,7 +1185,7 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
         QueryGraph::Node *n = (QueryGraph::Node*)&(*itr);
         registers[n] = id;
         for (auto v : itr->variables) {
-            registerClasses[v].insert(id++);
+            registerClasses[group][v].insert(id++);
         }
     }
     for(auto itr = query.filters.begin(); itr != query.filters.end(); ++itr) {
@@ -1195,15 +1199,17 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
     return id;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, vector<map<unsigned, set<unsigned> > >& registerClasses, const QueryGraph& query, unsigned id)
 {
     id = allocateRegisters(registers, registerClasses, query.getQuery(), id);
     //Also process the global functions
+    size_t group = registerClasses.size();
+    registerClasses.emplace_back();
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.c_getGlobalAssignments().begin(), limit = query.c_getGlobalAssignments().end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
         unsigned slot = 0;
         for (vector<unsigned>::const_iterator iter2 = (*iter).output.begin(), limit2 = (*iter).output.end(); iter2 != limit2; ++iter2, ++slot)
-            registerClasses[*iter2].insert(id + slot);
+            registerClasses[group][*iter2].insert(id + slot);
         id += (*iter).output.size();
     }
     if (!query.c_getAggredateHandler().empty()) {
@@ -1269,14 +1275,15 @@ void CodeGen::prepareRuntime(Runtime &runtime,
         const QueryGraph& query,
         std::map<const QueryGraph::Node*, unsigned> &registers)
 {
-    map<unsigned, set<unsigned> > registerClasses;
+    vector<map<unsigned, set<unsigned> > > registerClasses;
     unsigned registerCount = allocateRegisters(registers, registerClasses, query, 0);
     runtime.allocateRegisters(registerCount + 1);
     // Prepare domain information for join attributes
     {
         // Count the required number of domains
         unsigned domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (auto const &group : registerClasses)
+        for (map<unsigned, set<unsigned> >::const_iterator iter = group.begin(), limit = group.end(); iter != limit; ++iter) {
             // No join attribute?
             if ((*iter).second.size() < 2)
                 continue;
@@ -1287,7 +1294,8 @@ void CodeGen::prepareRuntime(Runtime &runtime,
 
         // And assign registers to domains
         domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+        for (auto const &group : registerClasses)
+        for (map<unsigned, set<unsigned> >::const_iterator iter = group.begin(), limit = group.end(); iter != limit; ++iter) {
             // No join attribute?
             if ((*iter).second.size() < 2)
                 continue;
-- 
2.43.0


From 5e9764c4f14b7cb5ed54fd45124ef5c67aa547bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 58/64] fix: text lookups into a buffer give the type of the
 term that was looked up

---
 src/layers/TridentLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..8757f02 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -32,6 +32,7 @@
 #include <cmath>
 #include <limits>
 #include <inttypes.h>
+#include <cstring>
 #include <set>
 
 bool TridentLayer::lookup(const std::string& text,
@@ -122,9 +123,9 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (size > 1 && output[0] == '<') {
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From 3f41cdfc06d1853be7d645b59a44797bf791e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 59/64] fix: a scan ends when its hint says that no further row
 can qualify

---
 src/layers/TridentLayer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 8757f02..cb76e19 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1089,6 +1089,12 @@ bool TridentScan::next() {
         uint64_t s = 0, p = 0, o = 0;
         if (a == DBLayer::AGGR_SKIP_LAST) {
             hint->next(s, p);
+            if (s == UINT64_MAX || p == UINT64_MAX) {
+                //No other row can qualify
+                q->releaseItr(itr);
+                itr = NULL;
+                return false;
+            }
             if (s > itr->getKey()) {
                 itr->gotoKey(s);
             } else if (s == itr->getKey()) {
@@ -1098,6 +1104,12 @@ bool TridentScan::next() {
             }
         } else if (a == DBLayer::AGGR_NO) {
             hint->next(s, p, o);
+            if (s == UINT64_MAX || p == UINT64_MAX) {
+                //No other row can qualify
+                q->releaseItr(itr);
+                itr = NULL;
+                return false;
+            }
             if (p > itr->getValue1())
                 itr->moveto(p, o);
         } else {
-- 
2.43.0


From f2beaf225b5c2abd40e5d7838d682199e24a31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:56 +0000
Subject: [PATCH 60/64] fix: scans with two columns skipped can be limited to a
 key

---
 include/layers/TridentLayer.hpp |  4 +++-
 src/layers/TridentLayer.cpp     | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/layers/TridentLayer.hpp b/include/layers/TridentLayer.hpp
index 755e99e..984e346 100644
--- a/include/layers/TridentLayer.hpp
+++ b/include/layers/TridentLayer.hpp
@@ -41,6 +41,7 @@ class TridentScan : public DBLayer::Scan {
         Querier *q;
         DBLayer::Hint *hint;
         size_t countHint;
+        bool oneKey;
 
     public:
         TridentScan(const int perm, const DBLayer::Aggr_t a,
@@ -48,7 +49,8 @@ class TridentScan : public DBLayer::Scan {
         itr(NULL),
         q(q),
         hint(hint),
-        countHint(0) {
+        countHint(0),
+        oneKey(false) {
         }
 
         uint64_t getValue1();
diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index cb76e19..f0b675a 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1080,6 +1080,8 @@ uint64_t TridentScan::getValue3() {
 }
 
 uint64_t TridentScan::getCount() {
+    if (oneKey)
+        return itr->getCardinality();
     return itr->getCount();
 }
 
@@ -1121,7 +1123,7 @@ bool TridentScan::next() {
         countHint = 0;
 
     assert(itr != NULL);
-    if (itr->hasNext()) {
+    if (!oneKey && itr->hasNext()) {
         itr->next();
         //cerr <<  "Type=" << itr->getTypeItr() << " " << itr->getKey() << " " << itr->getValue1() << endl;
         return true;
@@ -1134,6 +1136,7 @@ bool TridentScan::next() {
 
 bool TridentScan::first() {
     if (a == DBLayer::AGGR_SKIP_2LAST) {
+        oneKey = false;
         itr = q->getTermList(perm);
         bool resp = itr->hasNext();
         if (resp)
@@ -1151,11 +1154,15 @@ bool TridentScan::first() {
 }
 
 bool TridentScan::first(uint64_t el, bool constrained) {
-    if (a != DBLayer::Aggr_t::AGGR_NO)
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_LAST)
         throw 10; //Not supported
 
+    //With both other columns skipped, a given key is a single row
+    oneKey = a == DBLayer::Aggr_t::AGGR_SKIP_2LAST && constrained;
     if (constrained)
         itr = q->getPermuted(perm, el, -1, -1, true);
+    else if (a == DBLayer::Aggr_t::AGGR_SKIP_2LAST)
+        return first();
     else
         itr = q->getPermuted(perm, -1, -1, -1, false);
 
-- 
2.43.0


From 207679cc0809287e76bb635d9a959201c414c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:50 +0000
Subject: [PATCH 61/64] fix: StringBuffer loses or misreads terms that end
 exactly at a block boundary

A last block that was exactly full was never compressed (and would have been
uncompressed as an empty one), and reading a term that ends with a block went
on to the next block, which need not exist.
---
 src/trident/tree/stringbuffer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..fb78e68 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -380,7 +380,7 @@ void StringBuffer::uncompressBlock(int b) {
 
     char *uncompressedBuffer = factory.get();
     int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
+    if (b == sizeCompressedBlocks.size() - 1 && uncompressedSize % SB_BLOCK_SIZE != 0) {
         sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
     }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
@@ -455,7 +455,9 @@ void StringBuffer::get(int64_t pos, char* outputBuffer, int &size) {
         if (initialIdx != idxBlock) {
             char *baseTermBlock = getBlock(initialIdx);
             memcpy(outputBuffer, baseTermBlock + posPrefix, sizePrefix);
-            block = getBlock(idxBlock); // It could be that the block got offloaded
+            if (sizePrefix < size) {
+                block = getBlock(idxBlock); // It could be that the block got offloaded
+            }
         } else {
             memcpy(outputBuffer, block + posPrefix, sizePrefix);
         }
@@ -464,7 +466,7 @@ void StringBuffer::get(int64_t pos, char* outputBuffer, int &size) {
         outputBuffer += sizePrefix;
     }
 
-    if (start == SB_BLOCK_SIZE) {
+    if (start == SB_BLOCK_SIZE && sizeToCopy > 0) {
         start = 0;
         idxBlock++;
         block = getBlock(idxBlock);
@@ -582,8 +584,7 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
-- 
2.43.0


From 8275bb273ca7e02797c7f3587dac438a011ef86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:23 +0000
Subject: [PATCH 62/64] fix: closing a StringBuffer could wait forever for its
 compression thread

The destructor set the end marker and the thread set its end flag without
holding the lock of the condition they signal, so either notification could be
lost; the detached thread also used members after they were destroyed. Set the
marker under the lock and join the thread.
---
 include/trident/tree/stringbuffer.h |  8 --------
 src/trident/tree/stringbuffer.cpp   | 11 ++---------
 2 files changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/trident/tree/stringbuffer.h b/include/trident/tree/stringbuffer.h
index 2f956eb..6a2fe11 100644
--- a/include/trident/tree/stringbuffer.h
+++ b/include/trident/tree/stringbuffer.h
@@ -79,14 +79,6 @@ private:
     std::mutex _compressMutex;
     std::thread compressionThread;
 
-    //Used to check for termination
-    std::condition_variable compressTerm;
-    std::mutex _compressTerm;
-    bool threadRunning;
-    bool isThreadFinished() {
-        return !threadRunning;
-    }
-
     std::mutex sizeLock;
 
     int posBaseEntry;
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index fb78e68..c1e82e5 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -85,7 +85,6 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         addCache(0);
 
         //Start a compression thread
-        threadRunning = true;
         compressionThread = std::thread(
                                 std::bind(&StringBuffer::compressBlocks, this));
     }
@@ -173,7 +172,6 @@ void StringBuffer::addCache(int idx) {
 }
 
 void StringBuffer::compressBlocks() {
-    threadRunning = true;
     const int maxSize = LZ4_compressBound(SB_BLOCK_SIZE);
     char *compressedBuffer = new char[maxSize];
     while (true) {
@@ -220,8 +218,6 @@ void StringBuffer::compressBlocks() {
         fileLock.unlock();
     }
     delete[] compressedBuffer;
-    threadRunning = false;
-    compressTerm.notify_one();
 }
 
 void StringBuffer::setCurrentAsBaseEntry(int size) {
@@ -592,14 +588,11 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
-        lock.unlock();
-
-        compressionThread.detach();
         bufferToCompress = FINISH_THREAD;
+        lock.unlock();
         compressWait.notify_one();
 
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0


From 006db82f6a096dc10dfeb606390efd70562d3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:11 +0000
Subject: [PATCH 63/64] fix: terms with spaces added by updates are lost when
 the knowledge base is reopened

The reader of the update dictionary split the terms at spaces; the rest of such
a term was taken for the next number, so loading never ended.
---
 src/trident/kb/dictmgmt.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..21218d8 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -59,11 +59,15 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
             ifstream ifs;
             ifs.open(dirToStoreGUD + DIR_SEP + "gud");
             ifs >> gud_largestID;
-            while (!ifs.eof()) {
-                uint64_t id;
-                string term;
-                ifs >> id;
-                ifs >> term;
+            string line;
+            std::getline(ifs, line); //rest of the first line
+            while (std::getline(ifs, line)) {
+                //Each line is <id><tab><term>. The term can contain spaces
+                const size_t tab = line.find('\t');
+                if (tab == string::npos)
+                    continue;
+                uint64_t id = std::stoull(line.substr(0, tab));
+                string term = line.substr(tab + 1);
                 if (term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
-- 
2.43.0


From fb72b7e393ce5c03a4d00a2b42a57e73bf58664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:25 +0000
Subject: [PATCH 64/64] fix: a StringBuffer block can be read back cut off
 while the next one is compressed

The last compressed block was taken for the last, partly filled one, which is
not so while blocks are being written. The limit is only the capacity of the
buffer, so use that.
---
 src/trident/tree/stringbuffer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index c1e82e5..05212e7 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -375,13 +375,9 @@ void StringBuffer::uncompressBlock(int b) {
     }
 
     char *uncompressedBuffer = factory.get();
-    int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1 && uncompressedSize % SB_BLOCK_SIZE != 0) {
-        sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
-    }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
-                            length, sizeUncompressed);
+                            length, SB_BLOCK_SIZE);
     stats->incrNReadIndexBlocks();
     stats->addNReadIndexBytes(length);
     if (bytesUncompressed < 0) {
-- 
2.43.0

