From d37352d62950948909dc35b7926f0e21f72648a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 01/99] fix: VERIFY PROOF * must not say all proofs were
 verified when a proof proves something else

---
 src/mmveri.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..61befff 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -195,6 +195,7 @@ char verifyProof(long statemNum) {
             "\" to see the proof attempt.",NULL));
       }
       g_WrkProof.errorCount++;
+      returnFlag = 2; // An error occurred
     }
   }
 
-- 
2.43.0


From 9e2b5fafae393a56a3b2914c6782f1bf07268f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 02/99] fix: crash on an /EXPLICIT proof with missing target
 labels

---
 src/mmpars.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..9338ee3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2504,6 +2504,9 @@ char parseProof(long statemNum)
           m = g_WrkProof.RPNStackPtr - numReqHyp + k; // Stack position of hyp
           hypStepNum = g_WrkProof.RPNStack[m]; // Step number of hypothesis k
 
+          // A step with no target label (already reported) matches nothing
+          if (targetNmbr[hypStepNum] == 0) continue;
+
           // Temporarily zap the token's end with a null for string comparisons
           fbPtr = targetPntr[hypStepNum];
           zapSave = fbPtr[targetNmbr[hypStepNum]];
-- 
2.43.0


From 45d4565eed488c8baa5a5cde4de985cb501a6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 03/99] fix: compressed proof parser indexed its character
 table with a negative value for non-ASCII bytes

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9338ee3..39ef8e9 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3087,7 +3087,7 @@ char parseCompressedProof(long statemNum)
   breakFlag = 0;
   labelMapIndex = 0;
   while (1) {
-    switch (chrType[(long)(fbPtr[0])]) {
+    switch (chrType[(unsigned char)(fbPtr[0])]) {
       case 0: // "Letter" (i.e. A...T)
         if (!labelMapIndex) labelStart = fbPtr; // Save for error msg
 
-- 
2.43.0


From 0d5369283cbf4d1b341049c43087391011df2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 04/99] fix: compressed proof parser re-read the same letter
 after a stack underflow

---
 src/mmpars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 39ef8e9..5b96595 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3167,7 +3167,9 @@ char parseCompressedProof(long statemNum)
             g_WrkProof.RPNStack[g_WrkProof.RPNStackPtr] = g_WrkProof.numSteps;
             g_WrkProof.RPNStackPtr++;
             if (returnFlag < 3) returnFlag = 3;
-            continue;
+            g_WrkProof.numSteps++;
+            labelMapIndex = 0; // Reset it for next label
+            break;
           } // End if stack exhausted
 
           numReqHyp = g_Statement[stmt].numReqHyp;
-- 
2.43.0


From 8e1ea4832233cc6a7a51eaa2a8f15cf2188d78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 05/99] fix: integer overflow on a compressed proof with a long
 run of U...Y characters

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 5b96595..0675d19 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3188,7 +3188,8 @@ char parseCompressedProof(long statemNum)
         if (!labelMapIndex) {
           labelMapIndex = chrWeight[(long)(fbPtr[0])] + 1;
           labelStart = fbPtr; // Save label start for error msg
-        } else {
+        } else if (labelMapIndex < g_WrkProof.compressedPfNumLabels) {
+          // (A larger value is out of range whatever follows; don't overflow)
           labelMapIndex = labelMapIndex * digitsLen +
               chrWeight[(long)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
-- 
2.43.0


From 4b79738abde161ca78a5b35712d56fdbafcd8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 06/99] fix: do not rearrange the hypotheses of an /EXPLICIT
 proof that has errors

---
 src/mmpars.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 0675d19..681828e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2464,8 +2464,9 @@ char parseProof(long statemNum)
 
     // For proofs saved with /EXPLICIT, the user may have changed the order
     // of hypotheses.  First, get the subproofs for the hypotheses.  Then
-    // reassemble them in the right order.
-    if (explicitTargets == 1) {
+    // reassemble them in the right order.  (A proof with errors is not
+    // rearranged, since its labels and steps may not be consistent.)
+    if (explicitTargets == 1 && returnFlag < 2) {
       // nmbrString to rearrange proof then when done reassign to
       // g_WrkProof.proofString structure component.
       nmbrLet(&wrkProofString, g_WrkProof.proofString);
@@ -2597,7 +2598,7 @@ char parseProof(long statemNum)
     if (returnFlag < 3) returnFlag = 3;
   }
 
-  if (explicitTargets) {
+  if (explicitTargets && returnFlag < 2) {
     // Correct the local label refs in the rearranged proof
     for (step = 0; step < g_WrkProof.numSteps; step++) {
       // This is slow lookup with n^2 behavior, but should be ok since
@@ -2721,7 +2722,9 @@ char parseProof(long statemNum)
         } // if k<= -1000
       } // next step
     } while (subProofMoved);
+  } // if (explicitTargets && returnFlag < 2)
 
+  if (explicitTargets) {
     // Deallocate
     free_pntrString(targetPntr);
     free_nmbrString(targetNmbr);
-- 
2.43.0


From e31b5a1dca72f735c0c16d5c1366daf65c0e8e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 07/99] fix: out-of-bounds accesses on misplaced colons and
 equal signs in a proof, which were not always reported

---
 src/mmpars.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 681828e..f307219 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1897,6 +1897,7 @@ char parseProof(long statemNum)
   long numActiveHyp;
   char zapSave;
   flag labelFlag;
+  flag targetFlag = 0;
   char returnFlag = 0;
   nmbrString *nmbrTmpPtr;
   void *voidPtr; // bsearch returned value
@@ -2093,10 +2094,44 @@ char parseProof(long statemNum)
     if (tok < g_WrkProof.numTokens - 2) {
       if (((char *)((g_WrkProof.tokenSrcPtrPntr)[tok + 1]))[0] == '=') {
         explicitTargets = 1; // Flag that proof has explicit targets
-        continue;
+        if (fbPtr[0] != '=') {
+          targetFlag = 1;
+          continue;
+        }
+      }
+    }
+    if (fbPtr[0] == '=') { // Skip the = token
+      if (!targetFlag) {
+        if (!g_WrkProof.errorCount) {
+          sourceError(fbPtr, 1, statemNum, cat(
+              "The equal sign after proof step ",
+              str((double)(g_WrkProof.numSteps)),
+              " must be preceded by a target label and followed by a step.",
+              NULL));
+        }
+        if (returnFlag < 2) returnFlag = 2;
+        g_WrkProof.errorCount++;
+      }
+      targetFlag = 0;
+      continue;
+    }
+
+    // A colon must immediately follow a local label
+    if (fbPtr[0] == ':') {
+      i = ((char *)((g_WrkProof.tokenSrcPtrPntr)[tok - 1]))[0];
+      if (i == ':' || i == '=') {
+        if (!g_WrkProof.errorCount) {
+          sourceError(fbPtr, 1, statemNum, cat("The colon at proof step ",
+              str((double)(g_WrkProof.numSteps + 1)),
+              " must be preceded by a local label.", NULL));
+        }
+        if (returnFlag < 2) returnFlag = 2;
+        g_WrkProof.errorCount++;
+        fbPtr = "?";
+        g_WrkProof.tokenSrcPtrPntr[tok] = fbPtr;
+        g_WrkProof.tokenSrcPtrNmbr[tok] = 1; // Length
       }
     }
-    if (fbPtr[0] == '=') continue; // Skip the = token
 
     // Save pointer to source file vs. step for error messages
     g_WrkProof.stepSrcPtrNmbr[g_WrkProof.numSteps] =
@@ -2195,6 +2230,14 @@ char parseProof(long statemNum)
     g_WrkProof.localLabelPoolPtr = &g_WrkProof.localLabelPoolPtr[tokLength + 1];
   } // Next i
 
+  if (!g_WrkProof.numSteps) {
+    // There is no step at all (already reported); assume an unknown one
+    g_WrkProof.stepSrcPtrPntr[0] = "?";
+    g_WrkProof.stepSrcPtrNmbr[0] = 1; // Length
+    g_WrkProof.localLabelFlag[0] = 0;
+    g_WrkProof.numSteps = 1;
+  }
+
   // Collect all target labels in /EXPLICIT format.
   // I decided not to make targetPntr, targetNmbr part of the g_WrkProof
   // structure since other proof formats don't assign it, so we can't
@@ -2268,9 +2311,13 @@ char parseProof(long statemNum)
           k = m; // Larger step number
         }
         // Find the token - back up a step then move forward to loc label
-        fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
-        fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
-        fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        if (k > 0) {
+          fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
+          fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
+          fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        } else {
+          fbPtr = g_WrkProof.tokenSrcPtrPntr[0];
+        }
         if (!g_WrkProof.errorCount) {
           sourceError(fbPtr,
               proofTokenLen(fbPtr), statemNum,
-- 
2.43.0


From b8467ccad171e3103c5eb31f7a0626b67df49b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 08/99] fix: compressed label out of range read an
 uninitialized label map entry

---
 src/mmpars.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index f307219..d622e2b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3164,10 +3164,13 @@ char parseCompressedProof(long statemNum)
           }
           g_WrkProof.errorCount++;
           if (returnFlag < 2) returnFlag = 2;
-          labelMapIndex = 0; // Make it something legal to avoid side effects
+          // Treat it like an unknown step to avoid side effects (the label
+          // map may even be empty)
+          stmt = -(long)'?';
+        } else {
+          stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
         }
 
-        stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
         g_WrkProof.proofString[g_WrkProof.numSteps] = stmt;
 
         // Update stack
-- 
2.43.0


From 027777e4b43ff34333b6903ec68c8a109d8bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 09/99] fix: READ ended the program when a source has more than
 about 100 undeclared symbols

---
 src/mmpars.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index d622e2b..e9c168a 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1167,13 +1167,11 @@ void parseStatements(void) {
             undeclErrorCount++;
             tokenNum = g_mathTokens + undeclErrorCount;
             if (tokenNum >= g_MAX_MATHTOKENS) {
-              // There are current 100 places for bad tokens
-              print2(
-"?Error: The temporary space for holding bad tokens has run out, because\n");
-              print2(
-"there are too many errors.  Therefore we will force an \"out of memory\"\n");
-              print2("program abort:\n");
-              outOfMemory("#33 (too many errors)");
+              // There are initially 100 places for bad tokens; add some more
+              g_MAX_MATHTOKENS = g_MAX_MATHTOKENS + 1000;
+              g_MathToken = realloc(g_MathToken, (size_t)g_MAX_MATHTOKENS *
+                  sizeof(struct mathToken_struct));
+              if (!g_MathToken) outOfMemory("#33 (too many errors)");
             }
             g_MathToken[tokenNum].tokenName = "";
             let(&g_MathToken[tokenNum].tokenName, left(fbPtr,symbolLen));
-- 
2.43.0


From cb9017e0ad205ec2711e49000585cc5bc8bc4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 10/99] fix: READ accepted two active $f statements for a
 variable that no assertion uses

---
 src/mmpars.c | 68 +++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index e9c168a..1bb9062 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1412,6 +1412,36 @@ void parseStatements(void) {
           activeVarStack[g_MathToken[nmbrTmpPtr[i]].tmp].tmpFlag = 0;
         }
 
+        // Ensure the current Metamath spec is met:  "There may not be two
+        // active $f statements containing the same variable."  (Metamath
+        // book, p. 94).
+        if (type == f_ && g_Statement[stmt].mathStringLen == 2
+            && g_MathToken[(g_Statement[stmt].mathString)[1]].tokenType
+                == (char)var_) {
+          tokenNum = (g_Statement[stmt].mathString)[1];
+          for (i = 0; i < activeFHypStackPtr; i++) {
+            n = activeFHypStack[i].statemNum;
+            // If there was an earlier error, don't go out of bounds.
+            if (g_Statement[n].mathStringLen != 2) continue;
+            if ((g_Statement[n].mathString)[1] == tokenNum) {
+              // We found 2 $f's with the same variable
+              assignStmtFileAndLineNum(n);
+              sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+                  0, // tokenLen
+                  stmt,
+                  cat(
+                  "The variable \"", g_MathToken[tokenNum].tokenName,
+                "\" already appears in the earlier active \"$f\" statement \"",
+                  g_Statement[n].labelName, "\" on line ",
+                  str((double)(g_Statement[n].lineNum)),
+                  " in file \"",
+                  g_Statement[n].fileName,
+                  "\".", NULL));
+              break; // Optional: suppresses add'l error msgs for this stmt
+            }
+          } // next i ($f hyp scan)
+        }
+
         if (type == e_) {
           activeEHypStack[activeEHypStackPtr].varList = nmbrTmpPtr;
           activeEHypStackPtr++;
@@ -1729,8 +1759,7 @@ void parseStatements(void) {
       }
     }
 
-    // Ensure the current Metamath spec is met:  "There may
-    // not be be two active $f statements containing the same variable.  Each
+    // Ensure the current Metamath spec is met:  "Each
     // variable in a $e, $a, or $p statement must exist in an active $f
     // statement."  (Metamath book, p. 94).
     // This section of code is stand-alone and may be removed without side
@@ -1779,40 +1808,7 @@ void parseStatements(void) {
                   "\" does not appear in an active \"$f\" statement.", NULL));
             }
           } // next j (variable scan)
-        } else { // g_Statement[m].type == f_
-          // This block implements: "There may not be be two active $f
-          // statements containing the same variable" (Metamath book p. 94).
-          // Check for duplicate vars in active $f's
-
-          // This was already verified earlier; but if there was an error, don't
-          // cause memory violation by going out of bounds.
-          if (g_Statement[m].mathStringLen != 2) continue;
-          tokenNum = (g_Statement[m].mathString)[1];
-          // Scan all the mandatory $f's before this $f
-          for (k = 0; k < i; k++) {
-            n = (g_Statement[stmt].reqHypList)[k];
-            if (g_Statement[n].type != f_) continue; // Only check $f
-            // This was already verified earlier; but if there was an error, don't
-            // cause memory violation by going out of bounds.
-            if (g_Statement[n].mathStringLen != 2) continue;
-            if ((g_Statement[n].mathString)[1] == tokenNum) {
-              // We found 2 $f's with the same variable
-              assignStmtFileAndLineNum(n);
-              sourceError(g_Statement[m].mathSectionPtr, // fbPtr
-                  0, // tokenLen
-                  m, // stmt
-                  cat(
-                  "The variable \"", g_MathToken[tokenNum].tokenName,
-                "\" already appears in the earlier active \"$f\" statement \"",
-                  g_Statement[n].labelName, "\" on line ",
-                  str((double)(g_Statement[n].lineNum)),
-                  " in file \"",
-                  g_Statement[n].fileName,
-                  "\".", NULL));
-              break; // Optional: suppresses add'l error msgs for this stmt
-            }
-          } // next k ($f hyp scan)
-        } // if not $f else is $f
+        } // if not $f
       } // next i ($e hyp scan of this statement, or its $a/$p)
     } // if stmt is $a or $p
   } // Next stmt
-- 
2.43.0


From ade7499bf6f054056c531ac760b4d561de819149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 11/99] fix: READ accepted a $e statement with a variable that
 has no active $f

---
 src/mmpars.c | 93 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 40 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 1bb9062..3d85d22 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1412,6 +1412,28 @@ void parseStatements(void) {
           activeVarStack[g_MathToken[nmbrTmpPtr[i]].tmp].tmpFlag = 0;
         }
 
+        // Ensure the current Metamath spec is met:  "Each variable in a
+        // $e ... statement must exist in an active $f statement."  (Metamath
+        // book, p. 94).
+        if (type == e_) {
+          for (j = 0; j < reqVars; j++) {
+            for (i = 0; i < activeFHypStackPtr; i++) {
+              n = activeFHypStack[i].statemNum;
+              // If there was an earlier error, don't go out of bounds.
+              if (g_Statement[n].mathStringLen != 2) continue;
+              if ((g_Statement[n].mathString)[1] == nmbrTmpPtr[j]) break;
+            }
+            if (i == activeFHypStackPtr) {
+              sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+                  0, // tokenLen
+                  stmt,
+                  cat(
+                  "The variable \"", g_MathToken[nmbrTmpPtr[j]].tokenName,
+                  "\" does not appear in an active \"$f\" statement.", NULL));
+            }
+          }
+        }
+
         // Ensure the current Metamath spec is met:  "There may not be two
         // active $f statements containing the same variable."  (Metamath
         // book, p. 94).
@@ -1768,48 +1790,39 @@ void parseStatements(void) {
     // above, for faster speed and to get the pointer to the token for the
     // error message, but it would require a careful code analysis above.
     if (type == a_ || type == p_) {
-      // Scan each hypothesis (and the statement itself in last pass)
+      // Each hypothesis was already checked when it was declared
       reqHyps = nmbrLen(g_Statement[stmt].reqHypList);
-      for (i = 0; i <= reqHyps; i++) {
-        if (i < reqHyps) {
-          m = (g_Statement[stmt].reqHypList)[i];
-        } else {
-          m = stmt;
+      // This block implements: "Each variable in a ... $a, or $p
+      // statement must exist in an active $f statement" (Metamath
+      // book p. 94).
+      nmbrTmpPtr = g_Statement[stmt].mathString;
+      // Scan all the vars in the $a/$p
+      for (j = 0; j < g_Statement[stmt].mathStringLen; j++) {
+        tokenNum = nmbrTmpPtr[j];
+        // Ignore constants
+        if (g_MathToken[tokenNum].tokenType == (char)con_) continue;
+        p = 0; // Initialize flag that we found a $f with the variable
+        // Scan all the mandatory $f's
+        for (k = 0; k < reqHyps; k++) {
+          n = (g_Statement[stmt].reqHypList)[k];
+          if (g_Statement[n].type != f_) continue; // Only check $f
+          // This was already verified earlier; but if there was an
+          // error, don't cause memory violation by going out of bounds.
+          if (g_Statement[n].mathStringLen != 2) continue;
+          if ((g_Statement[n].mathString)[1] == tokenNum) {
+            p = 1; // Set flag that we found a $f with the variable
+            break;
+          }
+        } // next k ($f hyp scan)
+        if (!p) {
+          sourceError(g_Statement[stmt].mathSectionPtr, // fbPtr
+              0, // tokenLen
+              stmt, // stmt
+              cat(
+              "The variable \"", g_MathToken[tokenNum].tokenName,
+              "\" does not appear in an active \"$f\" statement.", NULL));
         }
-        if (g_Statement[m].type != f_) { // Check $e,$a,$p
-          // This block implements: "Each variable in a $e, $a, or $p
-          // statement must exist in an active $f statement" (Metamath
-          // book p. 94).
-          nmbrTmpPtr = g_Statement[m].mathString;
-          // Scan all the vars in the $e (i<reqHyps) or $a/$p (i=reqHyps)
-          for (j = 0; j < g_Statement[m].mathStringLen; j++) {
-            tokenNum = nmbrTmpPtr[j];
-            // Ignore constants
-            if (g_MathToken[tokenNum].tokenType == (char)con_) continue;
-            p = 0; // Initialize flag that we found a $f with the variable
-            // Scan all the mandatory $f's before this $e,$a,$p
-            for (k = 0; k < i; k++) {
-              n = (g_Statement[stmt].reqHypList)[k];
-              if (g_Statement[n].type != f_) continue; // Only check $f
-               // This was already verified earlier; but if there was an
-               // error, don't cause memory violation by going out of bounds.
-              if (g_Statement[n].mathStringLen != 2) continue;
-              if ((g_Statement[n].mathString)[1] == tokenNum) {
-                p = 1; // Set flag that we found a $f with the variable
-                break;
-              }
-            } // next k ($f hyp scan)
-            if (!p) {
-              sourceError(g_Statement[m].mathSectionPtr, // fbPtr
-                  0, // tokenLen
-                  m, // stmt
-                  cat(
-                  "The variable \"", g_MathToken[tokenNum].tokenName,
-                  "\" does not appear in an active \"$f\" statement.", NULL));
-            }
-          } // next j (variable scan)
-        } // if not $f
-      } // next i ($e hyp scan of this statement, or its $a/$p)
+      } // next j (variable scan)
     } // if stmt is $a or $p
   } // Next stmt
 
-- 
2.43.0


From b002465e6408e9e0ea96dd26aebe1c9fb5f59079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 12/99] fix: internal error 1708 when a statement uses a
 variable that is only declared in a later scope

---
 src/mmpars.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3d85d22..c56d17e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -934,6 +934,9 @@ void parseStatements(void) {
           g_MathToken[activeVarStack[activeVarStackPtr].tokenNum].active = 0;
           g_MathToken[activeVarStack[activeVarStackPtr].tokenNum].endStatement
               = stmt;
+          // Prevent stray pointers from erroneous statements that use it while
+          // it is not active
+          g_MathToken[activeVarStack[activeVarStackPtr].tokenNum].tmp = 0;
         }
 
         while (activeEHypStackPtr) {
-- 
2.43.0


From 4576ce2a586d8af5986ce86efc23a2e2e1dedf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 13/99] fix: internal error 1765 when a file includes the main
 source file

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index c56d17e..adf11dc 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5839,7 +5839,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      if (alreadyInclBy < 0) bug(1765);
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From d00f0ba5d39cfbcf4fd5949d57a1a19d1b2adf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 14/99] fix: inclusion markup of a file was ended by that of an
 included file whose name is a prefix

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index adf11dc..c5f912c 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5021,7 +5021,8 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
           let(&(*fileName), left(fbPtr, j));
         } else {
           // It's an End command
-          if (strncmp(*fileName, fbPtr, (size_t)j)) {
+          if ((long)strlen(*fileName) != j
+              || strncmp(*fileName, fbPtr, (size_t)j)) {
             // But the file name didn't match, so it's not a matching End.
             // Find end of comment and continue.
             goto GET_PASSED_END_OF_COMMENT;
-- 
2.43.0


From 9604b9e47dfbf585ff880f11c69a7ae04b66f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 15/99] fix: line numbers after repeated inclusions were off

---
 src/mmpars.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index c5f912c..dc4a29b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5680,13 +5680,14 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum - 1;
+          // .current_offset will be the white space before cmdPos2
+          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum
+              - countLines(newFileBuf + cmdPos2 - 2, 1);
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 - 1) + 1;
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos2 - 1, endPos2 - cmdPos2);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           // Call recursively to expand any includes in the included source.
@@ -5738,7 +5739,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // Get the parent line number up to the inclusion.
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum.
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
@@ -5802,7 +5803,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
@@ -5867,12 +5868,11 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 /* - 1 */);
+              + cmdPos2 - 1, endPos2 - cmdPos2);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5897,12 +5897,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
               + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
+              cmdPos2 - cmdPos1 - 1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5927,13 +5927,13 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
               + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              cmdPos2 - cmdPos1 - 1);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
-- 
2.43.0


From fc39c82d69a1da36f7bfbb04bee2120a732e5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 16/99] fix: SHOW PROOF /NO_REPEATED_STEPS and HTML pages hit
 bug 223

A local label on a step without hypotheses (which READ accepts) refers to a
step that is itself turned into a back-reference.
---
 src/mmcmds.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..15eaf6a 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -1434,7 +1434,13 @@ void typeProof(long statemNum,
   if (skipRepeatedSteps) {
     for (long step = 0; step < plen; step++) {
       long stmt = proof[step];
-      if (stmt < 0) continue;  // Unknown or label ref
+      if (stmt < 0) {  // Unknown or label ref
+        if (stmt <= -1000 && proof[-1000 - stmt] <= -1000) {
+          // The step referred to has itself become a back-reference
+          proof[step] = proof[-1000 - stmt];
+        }
+        continue;
+      }
       char type = g_Statement[stmt].type;
       if (type == f_ || type == e_  // It's a hypothesis
           || g_Statement[stmt].numReqHyp == 0) { // A statement w/ no hyp
-- 
2.43.0


From c51ecb1a39c2d333b3169018e75189a4725db017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 17/99] fix: SHOW PROOF /DETAILED_STEP named the step before
 the one a local label refers to

---
 src/mmcmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 15eaf6a..6b30f34 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2387,7 +2387,7 @@ void showDetailStep(long statemNum, long detailStep) {
     if (stmt <= -1000) {
       stmt = -1000 - stmt;
       // stmt is now the step number a local label refers to
-      let(&tmpStr, cat(tmpStr, "step ", str((double)stmt),
+      let(&tmpStr, cat(tmpStr, "step ", str((double)(stmt + 1)),
           " (via local label reference \"",
           str((double)(localLabelNames[stmt])), "\") to ", NULL));
     } else {
-- 
2.43.0


From d97ca22eb8075d29fbd8a06cd781d3b3fb00eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 18/99] fix: WRITE SOURCE reported success when the output
 could not be created

---
 src/mmcmds.c |  8 ++++++--
 src/mmpars.c | 10 ++++++++--
 src/mmpars.h |  2 +-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 6b30f34..70aaa06 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3766,11 +3766,15 @@ void writeSource(
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
-    writeSplitSource(&buffer, g_output_fn, noVersioningFlag, keepSplitsFlag);
+    if (writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
+        keepSplitsFlag)) {
+      goto RETURN_POINT;
+    }
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
-      print2("?Error trying to write \"%s\".\n", fp);
+      print2("?Error trying to write \"%s\".\n", fullOutput_fn);
+      goto RETURN_POINT;
     } else {
       fprintf(fp, "%s", buffer); // Write the non-split output file
       fclose(fp);
diff --git a/src/mmpars.c b/src/mmpars.c
index dc4a29b..3559cf8 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5257,7 +5257,8 @@ vstring writeSourceToBuffer(void) {
 // caller decide whether to say re-use fileBuf to create an unsplit version
 // of the .mm file in case the split version generation encounters an error.
 //                                     TODO ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
-/* flag(TODO) */ void writeSplitSource(vstring *fileBuf, const char *fileName,
+// Returns 1 if a file could not be written, 0 otherwise.
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag) {
   FILE *fp;
   vstring_def(tmpStr1);
@@ -5273,6 +5274,7 @@ vstring writeSourceToBuffer(void) {
   long endPos1;
   long endPos2;
   char cmdType;
+  flag errorFlag = 0;
   startOffset = 0;
   let(&fileNameWithPath, cat(g_rootDirectory, fileName, NULL));
   while (1) {
@@ -5338,6 +5340,7 @@ vstring writeSourceToBuffer(void) {
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
           print2("  Make sure any directories needed have been created.\n");
           print2("  Try WRITE SOURCE without / SPLIT to recover your work.\n");
+          errorFlag = 1;
           break;
         } else {
           print2("Writing \"%s\"...\n", fileNameWithPath);
@@ -5365,7 +5368,9 @@ vstring writeSourceToBuffer(void) {
       let(&(*fileBuf), cat(left(*fileBuf, cmdPos1 - 1), tmpStr1,
           right(*fileBuf, endPos2), NULL));
       // TODO: intercept error from deeper calls?
-      writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag);
+      if (writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag)) {
+        errorFlag = 1;
+      }
       continue;
     } else if (cmdType == 'I') {
       bug(1752); // Any real $[ $] should have been converted to comment.
@@ -5391,6 +5396,7 @@ vstring writeSourceToBuffer(void) {
   free_vstring(includeFn);
   free_vstring(includeBuf);
   free_vstring(fileNameWithPath);
+  return errorFlag;
 } // writeSplitSource
 
 // When "write source" does not have the "/split" qualifier, by default
diff --git a/src/mmpars.h b/src/mmpars.h
index bb22709..015252c 100644
--- a/src/mmpars.h
+++ b/src/mmpars.h
@@ -172,7 +172,7 @@ vstring writeSourceToBuffer(void);
    an unsplit source with $( Begin $[... etc. inclusions
   \note that *fileBuf is assigned to the empty string upon return, to
    conserve memory */
-void writeSplitSource(vstring *fileBuf, const char *fileName,
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag);
 
 /*! When "write source" does not have the "/split" qualifier, by default
-- 
2.43.0


From 541c8503a4f5d481de5d8e44874e7ecb62cfdc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 19/99] fix: WRITE SOURCE /SPLIT ignored /NO_VERSIONING

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3559cf8..0093ae7 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5334,7 +5334,7 @@ flag writeSplitSource(vstring *fileBuf, const char *fileName,
         }
       }
       if (writeFlag == 1) {
-        fp = fSafeOpen(fileNameWithPath, "w", 0 /* noVersioningFlag */);
+        fp = fSafeOpen(fileNameWithPath, "w", noVersioningFlag);
         if (fp == NULL) {
           // TODO: better error msg?  Abort and don't split?
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
-- 
2.43.0


From 78a0a081799e401155de7a50c40cfe77cd2c1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 20/99] fix: SAVE PROOF inserted the contributor tag into file
 inclusion markup

---
 src/metamath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..573a97c 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3762,6 +3762,13 @@ void command(int argc, char *argv[]) {
               memcpy(str3, g_Statement[outStatement].labelSectionPtr,
                   (size_t)(g_Statement[outStatement].labelSectionLen));
               i = rinstr(str3, "$)"); // The last "$)" occurrence
+              // File inclusion markup is not a description comment
+              j = rinstr(str3, "$(");
+              if (j != 0 && (!strncmp(str3 + j - 1, "$( Begin $[", 11)
+                  || !strncmp(str3 + j - 1, "$( End $[", 9)
+                  || !strncmp(str3 + j - 1, "$( Skip $[", 10))) {
+                i = 0;
+              }
               if (i != 0 // A description comment exists
                   && saveFlag) { // and we are saving the proof
                 // This isn't a perfect wrapping but we assume
-- 
2.43.0


From cc9c08fe4c6010cbbc5093813fb9e1357861852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 21/99] fix: converting tabs to spaces overran the string
 buffer

---
 src/mmvstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..0ccdf4f 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  if (untab_flag || tab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
@@ -560,7 +560,7 @@ temp_vstring edit(const char *sin, long control) {
       for (j = i; j < i + 8 - ((m - 1) & 7); j++) {
         sout[j - 1] = ' ';
       }
-      k = k + 8 - ((m - 1) & 7);
+      k = k + 7 - ((m - 1) & 7); // The tab was replaced
     }
   }
 
-- 
2.43.0


From fdca6f77291b233e1746c66146f88aeff9f4b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 22/99] fix: converting spaces to tabs read before the start of
 the string

---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 0ccdf4f..895bfb7 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -594,7 +594,7 @@ temp_vstring edit(const char *sin, long control) {
       // error message returns.
       m = i - 2;
 
-      while (sout[j - 1] == ' ' && j > i - 8) j--;
+      while (j > i - 8 && sout[j - 1] == ' ') j--;
       if (j <= m) {
         sout[j] = '\t';
         j = i;
-- 
2.43.0


From 770ee09b7ec4f8244c06331776f1dc8a1d0c8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 23/99] fix: WRITE SOURCE /FORMAT and /REWRAP lost comments
 next to a label or corrupted the label

---
 src/mmpars.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 0093ae7..a068ce6 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4107,6 +4107,11 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of ${, $}, $v, $c, $d cases
       case a_: // $a
       case p_: // $p
+        // Leave the label section alone if there is a comment between the
+        // label and the keyword
+        let(&str1, edit(labelSection, 2 + 4 /* discard all white space */));
+        if (!strcmp(right(str1, (long)strlen(str1) - 1), "$)")) break;
+
         // Get last $(
         commentStart = rinstr(labelSection,  "$(");
         // Get last $)
@@ -4150,7 +4155,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         if (nowrapHtml == 0) {
           // This strips off leading spaces before $( (start of comment).  Don't
           // do it for <HTML>, since spacing before $( is manual.
-          let(&labelSection, left(labelSection, pos));
+          let(&str1, edit(right(labelSection, pos + 1), 128 /* trailing */));
+          if (str1[0] != 0) {
+            // There is another comment on the same line; keep it
+            let(&labelSection, cat(left(labelSection, pos), str1, "\n", NULL));
+          } else {
+            let(&labelSection, left(labelSection, pos));
+          }
 
           if (reformatFlag == 2) {
             // If / REWRAP was specified, unwrap and rewrap the line
@@ -4223,6 +4234,11 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of $a, $p cases
       case e_: // $e
       case f_: // $f
+        // Leave the label section alone if there is a comment between the
+        // label and the keyword
+        let(&str1, edit(labelSection, 2 + 4 /* discard all white space */));
+        if (!strcmp(right(str1, (long)strlen(str1) - 1), "$)")) break;
+
         pos = rinstr(labelSection, g_Statement[stmt].labelName);
         let(&labelSection, left(labelSection, pos - 1));
         pos = rinstr(labelSection, "\n");
@@ -4232,7 +4248,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
         }
-        let(&labelSection, left(labelSection, pos));
+        let(&str1, edit(right(labelSection, pos + 1), 128 /* trailing */));
+        if (str1[0] != 0) {
+          // There is a comment on the same line as the label; keep it
+          let(&labelSection, cat(left(labelSection, pos), str1, "\n", NULL));
+        } else {
+          let(&labelSection, left(labelSection, pos));
+        }
         // If previous statement is $d or $e and there is no comment after it,
         // discard entire rest of label to get rid of redundant blank lines.
         if ((previousType == d_ || previousType == e_)
-- 
2.43.0


From 5ef0218312806cbd89cccc1700230f67a359fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 24/99] fix: WRITE SOURCE /REWRAP hit bug 1730 when a comment
 ends with a blank line

---
 src/mmpars.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index a068ce6..0f76873 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4478,6 +4478,10 @@ vstring rewrapComment(const char *comment1) {
   }
   let(&comment, edit(comment, 16 /* reduce spaces */));
 
+  // The "$)" may follow a blank line
+  length = (long)strlen(comment);
+  if (isspace((unsigned char)(comment[length - 3]))) comment[length - 3] = ' ';
+
   // Remove spaces and blank lines at end of comment
   while (1) {
     length = (long)strlen(comment);
-- 
2.43.0


From 4bd6bfa4a5a374f016acbc3205457806ecd03ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 25/99] fix: WRITE SOURCE /EXTRACT wrote sources that cannot be
 read back or with damaged comments

---
 src/mmcmds.c | 49 +++++++++++++++++++++++++++++++++----------------
 src/mmdata.c | 17 +++++++++++++++++
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 70aaa06..b9ed87f 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -6,6 +6,7 @@
 
 // mmcmds.c - assorted user commands
 
+#include <ctype.h>
 #include <string.h>
 #include <stdlib.h>
 #include <time.h>
@@ -3792,6 +3793,13 @@ void writeSource(
   return;
 } // writeSource
 
+// Write a string to a file, keeping it separated by white space from what
+// was written before.
+static void fputSeparated(vstring str, FILE *fp) {
+  if (!isspace((unsigned char)(str[0]))) fprintf(fp, "\n");
+  fprintf(fp, "%s", str);
+}
+
 // Get info for WRITE SOURCE ... / EXTRACT
 void writeExtractedSource(
     vstring extractLabelList, // EXTRACT argument provided by user
@@ -3943,11 +3951,12 @@ void writeExtractedSource(
   print2("Determining which $c and $v statements are needed...\n");
   for (stmt = 1; stmt <= g_statements; stmt++) {
     if (extractNeeded[stmt] == 'Y'
-        // All $a, $p, $f, $e
+        // All $a, $p, $f, $e, $d
         && (g_Statement[stmt].type == a_
              || g_Statement[stmt].type == p_
              || g_Statement[stmt].type == e_
              || g_Statement[stmt].type == f_
+             || g_Statement[stmt].type == d_
            )) {
       nmbrLet(&mstring, g_Statement[stmt].mathString);
       mtkns = g_Statement[stmt].mathStringLen;
@@ -4184,7 +4193,7 @@ void writeExtractedSource(
 
   fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
   if (fp == NULL) {
-    print2("?Error trying to write \"%s\".\n", fp);
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     goto EXTRACT_RETURN;
   }
 
@@ -4195,7 +4204,16 @@ void writeExtractedSource(
   memcpy(buf, g_Statement[1].labelSectionPtr,
       (size_t)(g_Statement[1].labelSectionLen));
   let(&buf, left(buf, instr(1, buf, "\n") - 1)); // This will not include the \n
-  let(&buf, right(edit(buf, 8 /* leading space */), 3)); // Take off $(
+  let(&buf, edit(buf, 8 /* leading space */));
+  if (!strncmp(buf, "$(", 2)) {
+    let(&buf, right(buf, 3)); // Take off $(
+    // Keep only the first comment
+    if (instr(1, buf, "$)") != 0) {
+      let(&buf, left(buf, instr(1, buf, "$)") + 1));
+    }
+  } else {
+    let(&buf, ""); // Not a comment
+  }
   j = (long)strlen(" Extracted from: ");
   if (!strcmp(left(buf, j), " Extracted from: ")) {
     // Prevent "Extracted from:" accumulation if sent through /EXTRACT again
@@ -4235,19 +4253,19 @@ void writeExtractedSource(
       freeTempAlloc();
       if (hugeHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &hugeHdrComment);
-        fprintf(fp, "%s", cat(hugeHdr, hugeHdrComment, hdrSuffix, NULL));
+        fputSeparated(cat(hugeHdr, hugeHdrComment, hdrSuffix, NULL), fp);
       }
       if (bigHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &bigHdrComment);
-        fprintf(fp, "%s", cat(bigHdr, bigHdrComment, hdrSuffix, NULL));
+        fputSeparated(cat(bigHdr, bigHdrComment, hdrSuffix, NULL), fp);
       }
       if (smallHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &smallHdrComment);
-        fprintf(fp, "%s", cat(smallHdr, smallHdrComment, hdrSuffix, NULL));
+        fputSeparated(cat(smallHdr, smallHdrComment, hdrSuffix, NULL), fp);
       }
       if (tinyHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &tinyHdrComment);
-        fprintf(fp, "%s", cat(tinyHdr, tinyHdrComment, hdrSuffix, NULL));
+        fputSeparated(cat(tinyHdr, tinyHdrComment, hdrSuffix, NULL), fp);
       }
     } // if header(s) needed
 
@@ -4263,7 +4281,7 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
-      fprintf(fp, "%s", buf);
+      fputSeparated(buf, fp);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
       if (stmt != g_statements + 1) {
@@ -4370,7 +4388,7 @@ void writeExtractedSource(
 void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     vstring *buf) // header comment
 {
-  long p1, p2, p3;
+  long p1, p2, p3, tildePos;
   vstring_def(label);
   vstring_def(newLabelWithTilde);
   vstring_def(restOfComment);
@@ -4396,11 +4414,11 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
   while (1) {
     p1 = instr(p1 + 1, *buf, "~");
     if (p1 == 0) break;
-    if (p1 - 2 >= 0) { // Prevent out-of-bounds access
-      if ((*buf)[p1 - 2] == '~') {
-        continue; // it is a ~~ escape; don't process
-      }
+    if ((*buf)[p1] == '~') {
+      p1++;
+      continue; // it is a ~~ escape; don't process
     }
+    tildePos = p1;
     while (1) {
       // Get beyond any whitespace between ~ and label
       if ((*buf)[p1 + 1] == 0) break; // end of string
@@ -4423,10 +4441,9 @@ void fixUndefinedLabels(vstring extractNeeded, // 'Y'/'N' list
     let(&newLabelWithTilde, cat(label,
         "\n ~ http://us.metamath.org/mpeuni/",
         label, ".html", NULL));
-    let(&(*buf), cat(left(*buf, p1 - 1), newLabelWithTilde, NULL));
+    let(&(*buf), cat(left(*buf, tildePos - 1), newLabelWithTilde, NULL));
     // Adjust pointer to go past the modified label
-    p1 = p1 + (long)strlen(newLabelWithTilde)
-          - ((long)strlen(label) + 2); // for "~ "
+    p1 = tildePos - 1 + (long)strlen(newLabelWithTilde);
     // Put newline if not at end of line - assumes no trailing spaces in .mm!
     // We do this to prevent too-long lines.  But if we're already at end
     // of line, we don't want to create a paragraph, so we don't add newline.
diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..d22d245 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -13,6 +13,7 @@
 */
 #include <stdarg.h>
 #include <stdlib.h>
+#include <ctype.h>
 #include <string.h>
 #include "mmvstr.h"
 #include "mmdata.h"
@@ -3041,6 +3042,15 @@ vstring getDescriptionAndLabel(long stmt) {
       (size_t)(g_Statement[stmt].labelSectionLen));
   p1 = rinstr(descriptionAndLabel, "$(");
   p2 = rinstr(descriptionAndLabel, "$)");
+  // Discard any comments between the label and the keyword
+  while (g_Statement[stmt].labelName[0] != 0 && p1 != 0 && p2 > p1
+      && (edit(right(descriptionAndLabel, p2 + 2),
+          2 + 4 /* discard all whitespace */))[0] == 0) {
+    let(&descriptionAndLabel, cat(left(descriptionAndLabel, p1 - 1),
+        right(descriptionAndLabel, p2 + 2), NULL));
+    p1 = rinstr(descriptionAndLabel, "$(");
+    p2 = rinstr(descriptionAndLabel, "$)");
+  }
   if (p1 == 0 || p2 == 0 || p2 < p1) {
     // The statement has no comment; just return the label and
     // surrounding spacing if any.
@@ -3072,6 +3082,13 @@ vstring getDescriptionAndLabel(long stmt) {
     dontUseComment = 1;
   }
 
+  // Remove the $t comment
+  p2 = instr(1, descriptionAndLabel, "$(") + 1;
+  while (isspace((unsigned char)(descriptionAndLabel[p2]))) p2++;
+  if (descriptionAndLabel[p2] == '$' && descriptionAndLabel[p2 + 1] == 't') {
+    dontUseComment = 1;
+  }
+
   if (dontUseComment == 1) {
     // Get everything that follows the comment
     p2 = rinstr(descriptionAndLabel, "$)");
-- 
2.43.0


From 985a18180ed55ce44a5996fc228287187818af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 26/99] fix: SHOW TRACE_BACK /COUNT_STEPS counted theorems
 whose expansion has 0 steps as unused, or recounted them

---
 src/mmcmds.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b9ed87f..4014b72 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3203,6 +3203,7 @@ double countSteps(long statemNum, flag essentialFlag)
     for (stmt = 1; stmt < g_statements + 1; stmt++) {
       stmtCount[stmt] = 0;
       stmtBigCount[stmt] = "";
+      stmtNodeCount[stmt] = 0; // At least 1 once it has been computed
       stmtUsage[stmt] = 0;
       stmtDist[stmt] = 0;
     }
@@ -3265,7 +3266,7 @@ double countSteps(long statemNum, flag essentialFlag)
         stepDistSum = stepDistSum + 1;
       }
     } else {
-      if (stmtCount[stmt] == 0) {
+      if (stmtNodeCount[stmt] == 0) {
         // It has not been computed yet - call this function recursively
         stepCount = stepCount + countSteps(stmt, essentialFlag);
       } else {
@@ -3307,7 +3308,7 @@ double countSteps(long statemNum, flag essentialFlag)
   // Assign step count to statement list
   stmtCount[statemNum] = stepCount;
 
-  if ((stmtBigCount[statemNum])[0] != 0) bug(264);
+  if (stmtNodeCount[statemNum] != 0) bug(264);
   let(&stmtBigCount[statemNum], stepBigCount);
 
   stmtNodeCount[statemNum] = stepNodeCount + 1;
@@ -3328,7 +3329,7 @@ double countSteps(long statemNum, flag essentialFlag)
     actualSteps2 = actualSteps; // Steps w/ single-use subtheorems eliminated
     actualSubTheorems2 = 0; // Multiple-use subtheorems only
     for (i = 1; i < statemNum; i++) {
-      if (g_Statement[i].type == (char)p_ && stmtCount[i] != 0) {
+      if (g_Statement[i].type == (char)p_ && stmtNodeCount[i] != 0) {
         actualSteps = actualSteps + stmtProofLen[i];
         actualSubTheorems++;
         if (stmtUsage[i] > 1) {
@@ -3368,7 +3369,7 @@ double countSteps(long statemNum, flag essentialFlag)
            str((double)actualSteps2), " steps.  ",
        "The proof would have ",
 
-       stepBigCount,
+       stepBigCount[0] == 0 ? "0" : stepBigCount,
        strlen(stepBigCount) < 6 ? ""
            : cat(" =~ ",
                  left(
-- 
2.43.0


From 2cb50d2e8081dfa619559c1b95f859e22ceeba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 27/99] fix: SHOW USAGE missed references after a comment
 containing ')' in a compressed proof

---
 src/mmcmds.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4014b72..3ec7222 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3608,18 +3608,8 @@ vstring traceUsage(long statemNum,
       if (fbPtr[0] == 0) { // The proof was never assigned
         continue; // Don't bother
       }
-      fbPtr = fbPtr + whiteSpaceLen(fbPtr); // Get past white space
-      if (fbPtr[0] == '(') { // "(" is flag for compressed proof
-        fbPtr2 = fbPtr;
-        while (fbPtr2[0] != ')') {
-          fbPtr2++;
-          if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
-        }
-      } else {
-        // A non-compressed proof; use whole proof
-        fbPtr2 = g_Statement[stmt].proofSectionPtr +
-            g_Statement[stmt].proofSectionLen;
-      }
+      fbPtr2 = g_Statement[stmt].proofSectionPtr +
+          g_Statement[stmt].proofSectionLen;
       zapSave = fbPtr2[0];
       fbPtr2[0] = 0; // Zap source for character string termination
       if (!instr(1, fbPtr, g_Statement[statemNum].labelName)) {
-- 
2.43.0


From f62ebc0a79877b519ba9ce6e70207ecdf9a9c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 28/99] fix: SHOW TRACE_BACK /TO leaked its filter

---
 src/mmcmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 3ec7222..6aa3b77 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2975,6 +2975,7 @@ void traceProofWork(long statemNum,
   free_nmbrString(essentialFlags);
   free_nmbrString(proof);
   free_nmbrString(statementList);
+  free_vstring(traceToFilter);
   free_vstring(str1);
   return;
 } // traceProofWork
-- 
2.43.0


From 87bb96ec716fd8c3f8aeca519c966f717bf0cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 29/99] fix: SEARCH did not match a $* at either end of the
 pattern to zero symbols

---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 573a97c..5f253ec 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5800,7 +5800,8 @@ void command(int argc, char *argv[]) {
             str3[p + s] = str1[p];
           }
         }
-        let(&str1, left(str3, q + s));
+        // (The space at each end lets a $* there match 0 tokens)
+        let(&str1, cat(" ", left(str3, q + s), " ", NULL));
 
         // Find single-character-match wildcard argument "$?"
         // (or "?" for convenience).  Use ASCII 3 for the exactly-1-char
@@ -5853,7 +5854,7 @@ void command(int argc, char *argv[]) {
         }
 
         // Add wildcards to beginning and end to match middle of any string
-        let(&str1, cat(chr(2), " ", str1, " ", chr(2), NULL));
+        let(&str1, cat(chr(2), str1, chr(2), NULL));
       } // End no COMMENTS switch
 
       for (i = 1; i <= g_statements; i++) {
-- 
2.43.0


From 94023b8e54ef1897846e7f8b0c473790268d98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 30/99] fix: SEARCH /COMMENTS glued the words at a line break
 together

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 5f253ec..1cdd901 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5868,6 +5868,10 @@ void command(int argc, char *argv[]) {
         if (n) { // COMMENTS switch
           free_vstring(str2);
           str2 = getDescription(i); // str2 must be deallocated here
+          for (p = 0; str2[p] != 0; p++) {
+            // A line break separates words like a space
+            if (str2[p] == '\n') str2[p] = ' ';
+          }
           // Strip linefeeds and reduce spaces; cvt to uppercase
           j = instr(1, edit(str2, 4 + 8 + 16 + 128 + 32), str1);
           if (!j) { // No match
-- 
2.43.0


From b65786cbe7850ae3b4cc6420b7147dcbfe114908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 31/99] fix: MATCH must put the unified proof on the UNDO
 stack, and nothing when no match was chosen

---
 src/metamath.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 1cdd901..f04ffda 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4291,6 +4291,7 @@ void command(int argc, char *argv[]) {
           continue;
         }
 
+        g_proofChangedFlag = 0;
         interactiveMatch(s - 1, maxEssential);
         n = nmbrLen(g_ProofInProgress.proof); // New proof length
         if (n != m) {
@@ -4308,10 +4309,10 @@ void command(int argc, char *argv[]) {
         }
 
         autoUnify(1);
-        g_proofChanged = 1; // Cumulative flag
-        // 1-Nov-2013 nm Why is g_proofChanged set unconditionally above?
-        // Do we need the processUndoStack() call?
-        processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        if (g_proofChangedFlag) {
+          g_proofChanged = 1; // Cumulative flag
+          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        }
 
         continue;
       } // End if MATCH STEP
@@ -4344,11 +4345,14 @@ void command(int argc, char *argv[]) {
         }
         if (k) {
           g_proofChangedFlag = 1; // Restore it
-          g_proofChanged = 1; // Cumulative flag
-          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
           print2("Steps %ld and above have been renumbered.\n", k);
         }
         autoUnify(1);
+        // Save the proof on the undo stack after autoUnify() has changed it
+        if (g_proofChangedFlag) {
+          g_proofChanged = 1; // Cumulative flag
+          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        }
 
         continue;
       } // End if MATCH ALL
-- 
2.43.0


From aace0feb9de15c7ca226700ac2162bf8fe513e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 32/99] fix: DELETE STEP must check the step number before
 using it

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index f04ffda..2e0fa9b 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5596,15 +5596,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From 5524e03c75010c059e12d64afa92536ab4db99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 33/99] fix: MATCH must assign the statement that was selected
 and reject answers naming several

---
 src/mmpfas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..263dfc4 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -182,7 +182,8 @@ void interactiveMatch(long step, long maxEssential)
         free_nmbrString(timeoutList);
         return;
       }
-      if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
+      if (instr(1, tmpStr2, " ")
+           || !instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
            cat(" ", tmpStr2, " ", NULL))) {
         print2("\"%s\" is not one of the choices.  Try again.\n", tmpStr2);
       } else {
@@ -210,7 +211,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From cf5ee7829b4e60b1d2397c3c7265f3023b5cf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 34/99] fix: UNDO and REDO after INITIALIZE ALL must keep the
 work variables of the restored proof reserved

---
 src/mmpfas.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 263dfc4..356d7fb 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3114,6 +3114,25 @@ void copyProofStruct(struct pip_struct *outProofStruct,
   return;
 } // copyProofStruct
 
+// Make sure that all dummy variables of a restored proof count as used, so
+// that they won't be handed out again.  (INITIALIZE ALL resets the counter.)
+static void reserveDummyVars(const struct pip_struct *proofStruct)
+{
+  long step, list, sym;
+  const nmbrString *mString; // Pointer only; not allocated
+  for (step = 0; step < nmbrLen(proofStruct->proof); step++) {
+    for (list = 0; list < 3; list++) {
+      mString = (nmbrString *)(list == 0 ? proofStruct->target[step]
+          : list == 1 ? proofStruct->source[step] : proofStruct->user[step]);
+      for (sym = 0; mString[sym] != -1; sym++) {
+        if (mString[sym] - g_mathTokens > g_pipDummyVars) {
+          g_pipDummyVars = mString[sym] - g_mathTokens;
+        }
+      }
+    }
+  }
+} // reserveDummyVars
+
 // Create an initial proof structure needed for the Proof Assistant, given
 // a starting proof.  Normally, proofStruct is the global g_ProofInProgress,
 // although we've made it an argument to help modularize the function.  There
@@ -3372,6 +3391,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr--;
       // Restore the version of the proof before that action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       break;
 
     case PUS_REDO:
@@ -3384,6 +3404,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr++;
       // Restore the last undo and print the message for its action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
       break;
-- 
2.43.0


From 9ea894444c68f3458368a25dbc2ef381a1616fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 35/99] fix: MINIMIZE_WITH doesn't use a step with work
 variables as proof of a hypothesis

---
 src/mmpfas.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 356d7fb..59f7025 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -640,6 +640,12 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
               if (indepKnownSteps[trialStep] != 'N') bug(1836);
               continue; // Don't use the step
             }
+          } else {
+            // What a step with dummy variables proves isn't known yet, so it
+            // can't be taken as a proof of the hypothesis
+            k = 0;
+            while (hypTestPtr[k] != -1 && hypTestPtr[k] <= g_mathTokens) k++;
+            if (hypTestPtr[k] != -1) continue; // Don't use the step
           }
         }
 
-- 
2.43.0


From d0b99fa51c42bc4725a6a9c2cc336f6c7e5463b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 36/99] fix: a theorem after the mathbox statement but before
 the first mathbox heading is not in a mathbox

---
 src/metamath.c | 38 ++++++++++++++++----------------------
 src/mmcmds.c   |  2 +-
 src/mmpfas.c   | 14 ++++++--------
 3 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 2e0fa9b..2f86d61 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4504,14 +4504,12 @@ void command(int argc, char *argv[]) {
 
       // See if it's in another mathbox; if so, let user know
       assignMathboxInfo();
-      if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-        if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-          printLongLine(cat("\"", g_Statement[k].labelName,
-                "\" is in the mathbox for ",
-                g_mathboxUser[getMathboxNum(k) - 1], ".",
-                NULL),
-              "", " ");
-        }
+      if (inDiffMathboxes(k, g_proveStatement)) {
+        printLongLine(cat("\"", g_Statement[k].labelName,
+              "\" is in the mathbox for ",
+              g_mathboxUser[getMathboxNum(k) - 1], ".",
+              NULL),
+            "", " ");
       }
 
       // Automatically display new unknown steps
@@ -4714,10 +4712,9 @@ void command(int argc, char *argv[]) {
 
       mathboxFlag = (switchPos("INCLUDE_MATHBOXES") != 0);
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5077,10 +5074,9 @@ void command(int argc, char *argv[]) {
       // "/ INCLUDE_MATHBOXES" is omitted.
 
       assignMathboxInfo(); // In case it hasn't been assigned yet
-      if (g_proveStatement > g_mathboxStmt) {
+      i = getMathboxNum(g_proveStatement);
+      if (i > 0) {
         // We're in a mathbox
-        i = getMathboxNum(g_proveStatement);
-        if (i <= 0) bug(1130);
         thisMathboxStartStmt = g_mathboxStart[i - 1];
       } else {
         thisMathboxStartStmt = g_mathboxStmt;
@@ -5451,14 +5447,12 @@ void command(int argc, char *argv[]) {
 
             // See if it's in another mathbox; if so, let user know
             assignMathboxInfo();
-            if (k > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-              if (k < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-                printLongLine(cat("\"", g_Statement[k].labelName,
-                      "\" is in the mathbox for ",
-                      g_mathboxUser[getMathboxNum(k) - 1], ".",
-                      NULL),
-                    "  ", " ");
-              }
+            if (inDiffMathboxes(k, g_proveStatement)) {
+              printLongLine(cat("\"", g_Statement[k].labelName,
+                    "\" is in the mathbox for ",
+                    g_mathboxUser[getMathboxNum(k) - 1], ".",
+                    NULL),
+                  "  ", " ");
             }
 
             prntStatus = 2; // Found one
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 6aa3b77..26b4dc2 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5261,7 +5261,7 @@ void verifyMarkup(vstring labelMatch,
           stmt = proof[step];
           if (stmt < 0) continue; // Local step or '?' step
           if (stmt == 0) bug(266);
-          if (stmt > g_mathboxStmt && stmt < g_mathboxStart[pmbox - 1]) {
+          if (stmt >= g_mathboxStart[0] && stmt < g_mathboxStart[pmbox - 1]) {
             // A statement in another mathbox is referenced
 
             // Eliminate duplicate error messages:
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 59f7025..9af7aec 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1877,14 +1877,12 @@ nmbrString *proveFloating(const nmbrString *mString, long statemNum, long maxEDe
       if (mathboxFlag != 0) { // Skip unless /INCLUDE_MATHBOXES was specified
         // See if it's in another mathbox; if so, let user know
         assignMathboxInfo();
-        if (stmt > g_mathboxStmt && g_proveStatement > g_mathboxStmt) {
-          if (stmt < g_mathboxStart[getMathboxNum(g_proveStatement) - 1]) {
-            printLongLine(cat("Used \"", g_Statement[stmt].labelName,
-                  "\" from the mathbox for ",
-                  g_mathboxUser[getMathboxNum(stmt) - 1], ".",
-                  NULL),
-                "  ", " ");
-          }
+        if (inDiffMathboxes(stmt, g_proveStatement)) {
+          printLongLine(cat("Used \"", g_Statement[stmt].labelName,
+                "\" from the mathbox for ",
+                g_mathboxUser[getMathboxNum(stmt) - 1], ".",
+                NULL),
+              "  ", " ");
         }
       }
 
-- 
2.43.0


From 098b25a15974993ad326092342f9b854acf22c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 37/99] fix: discouragement markers broken across unindented
 lines are recognized

---
 src/mmdata.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index d22d245..bb0f31d 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3115,6 +3115,7 @@ flag getMarkupFlag(long statemNum, flag mode) {
   static vstring_def(proofFlags); // Y if proof discouragement, else N
   static vstring_def(usageFlags); // Y if usage discouragement, else N
   vstring_def(str1);
+  long i;
 
   if (mode == RESET) { // Deallocate // Should be called by ERASE command
     free_vstring(commentSearchedFlags);
@@ -3154,7 +3155,10 @@ flag getMarkupFlag(long statemNum, flag mode) {
         bug(1393);
       }
       str1 = getDescription(statemNum); // str1 must be deallocated here
-      // Strip linefeeds and reduce spaces
+      // Change linefeeds to spaces and reduce spaces
+      for (i = 0; str1[i] != 0; i++) {
+        if (str1[i] == '\n') str1[i] = ' ';
+      }
       let(&str1, edit(str1, 4 + 8 + 16 + 128));
       if (instr(1, str1, g_proofDiscouragedMarkup)) {
         proofFlags[statemNum] = 'Y';
-- 
2.43.0


From b7d4699634fe2b7de3da8c7d0df778cfa4c415b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 38/99] fix: section headings, VERIFY MARKUP, $t errors and
 proof indentation use changed label sections safely

After SAVE PROOF (contributor tag) or WRITE SOURCE /FORMAT or /REWRAP the
label section of a statement no longer lies in the source buffer; pointer
differences across sections read or copied memory out of bounds.
---
 src/mmcmds.c |  7 +++---
 src/mmdata.c | 22 +++++++++---------
 src/mmwtex.c | 65 +++++++++++++++++++++++++++++++++++++---------------
 3 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 26b4dc2..a61c9ff 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4953,10 +4953,9 @@ void verifyMarkup(vstring labelMatch,
     // TODO - handle $[...$]
     // g_includeCalls is always nonzero now - but check
     // anyway; line numbers may be off if there are >1 files.
-    str1 = g_Statement[1].labelSectionPtr; // Start of input file
-    str2 = g_Statement[g_statements + 1].labelSectionPtr
-       // g_statements + 1 is dummy statement to hold text after last statement
-       + g_Statement[g_statements + 1].labelSectionLen; // End of input file
+    // (The label sections may have been changed by WRITE SOURCE.)
+    str1 = g_sourcePtr; // Start of input file
+    str2 = g_sourcePtr + g_sourceLen; // End of input file
     if (str2[0] != 0) bug(258); // Should be end of (giant) string
     if (str2[-1] != '\n') bug(259); // End of last line
     flen = str2 - str1; // Length of input file
diff --git a/src/mmdata.c b/src/mmdata.c
index bb0f31d..10532e7 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2983,23 +2983,23 @@ void free2DMatrix(long **matrix, size_t xsize /* , size_t ysize */)
 // Returns the amount of indentation of a statement label.  Used to
 // determine how much to indent a saved proof.
 long getSourceIndentation(long statemNum) {
-  char *fbPtr; // Source buffer pointer
-  char *startLabel;
+  const char *section; // Label section, followed by the keyword
+  long len, pos;
   long indentation = 0;
 
-  fbPtr = g_Statement[statemNum].mathSectionPtr;
-  if (fbPtr[0] == 0) return 0;
-  startLabel = g_Statement[statemNum].labelSectionPtr;
-  if (startLabel[0] == 0) return 0;
-  while (1) { // Go back to first line feed prior to the label
-    if (fbPtr <= startLabel) break;
-    if (fbPtr[0] == '\n') break;
-    if (fbPtr[0] == ' ') {
+  if (g_Statement[statemNum].mathSectionPtr[0] == 0) return 0;
+  if (g_Statement[statemNum].mathSectionPtr[0] == '\n') return 0;
+  section = g_Statement[statemNum].labelSectionPtr;
+  len = g_Statement[statemNum].labelSectionLen;
+  if (len == 0) return 0;
+  // (The keyword between the label and math sections is not a space.)
+  for (pos = len - 1; pos > 0; pos--) { // Go back to the line of the keyword
+    if (section[pos] == '\n') break;
+    if (section[pos] == ' ') {
       indentation++; // Space increments indentation
     } else {
       indentation = 0; // Non-space (i.e. a label character) resets back to 0
     }
-    fbPtr--;
   }
   return indentation;
 } // getSourceIndentation
diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..2674261 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -159,6 +159,20 @@ void eraseTexDefs(void) {
   return;
 } // eraseTexDefs
 
+// Print an error in the $t comment.  The comment is no longer in the source
+// buffer if the label section that holds it was changed by WRITE SOURCE.
+static void dollarTError(long stmt, // statement whose label section has it
+    long offset, // offset of the error in the label section
+    long tokLen, vstring errMsg) {
+  if (g_Statement[stmt].labelSectionChanged == 1) {
+    sourceError(g_Statement[stmt].labelSectionPtr + offset, tokLen, stmt,
+        errMsg);
+  } else {
+    rawSourceError(g_sourcePtr, g_Statement[stmt].labelSectionPtr + offset,
+        tokLen, errMsg);
+  }
+} // dollarTError
+
 // Returns 2 if there were severe parsing errors, 1 if there were warnings but
 // no errors, 0 if no errors or warnings.
 flag readTexDefs(
@@ -185,7 +199,7 @@ flag readTexDefs(
   static flag saveAltHtmlFlag = 1; // -1 to force 1st read
   flag warningFound = 0; // 1 if a warning was found
   // Pointer to label section of statement with the $t comment
-  char *dollarTStmtPtr = NULL;
+  long dollarTStmt = 0; // Statement with the $t comment in its labelSection
   // bsearch returned values for use in error-checking
   void *g_mathKeyPtr; // bsearch returned value for math symbol lookup
   void *texDefsPtr; // For binary search
@@ -248,7 +262,7 @@ flag readTexDefs(
       }
       let(&fileBuf, tmpPtr);
       tmpPtr[j] = zapChar;
-      dollarTStmtPtr = g_Statement[i].labelSectionPtr;
+      dollarTStmt = i;
       // break; // Continue to end to detect double $t
     }
     tmpPtr[j] = zapChar; // Restore the xxx.mm input file buffer
@@ -370,8 +384,8 @@ flag readTexDefs(
         for (i = 0; i < (fbPtr - fileBuf); i++) {
           if (fileBuf[i] == '\n') lineNum++;
         }
-        rawSourceError(/* fileBuf */ g_sourcePtr,
-            /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf), tokenLength,
+        dollarTError(dollarTStmt,
+            /* offset */ fbPtr - fileBuf, tokenLength,
             cat("Expected \"latexdef\", \"htmldef\", \"htmlvarcolor\",",
             " \"htmltitle\", \"htmlhome\", \"althtmldef\",",
             " \"exthtmltitle\", \"exthtmlhome\", \"exthtmllabel\",",
@@ -404,8 +418,8 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
-            /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
+          dollarTError(dollarTStmt,
+            /* offset */ fbPtr - fileBuf,
               tokenLength,
               "Expected a quoted string here.");
           free_vstring(fileBuf);
@@ -462,8 +476,8 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
-            /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
+          dollarTError(dollarTStmt,
+            /* offset */ fbPtr - fileBuf,
               tokenLength,
               "Expected the keyword \"as\" here.");
           free_vstring(fileBuf);
@@ -493,8 +507,8 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
-            /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
+          dollarTError(dollarTStmt,
+            /* offset */ fbPtr - fileBuf,
               tokenLength,
               "Expected a quoted string here.");
           free_vstring(fileBuf);
@@ -529,8 +543,8 @@ flag readTexDefs(
               if (fileBuf[i] == '\n') lineNum++;
             }
 
-            rawSourceError(/* fileBuf */ g_sourcePtr,
-                /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
+            dollarTError(dollarTStmt,
+                /* offset */ fbPtr - fileBuf,
                 tmpPtr2 - partialToken + 1 /* tokenLength on current line */,
                 "String should be on a single line.");
           }
@@ -555,8 +569,8 @@ flag readTexDefs(
               lineNum++;
             }
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
-            /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
+          dollarTError(dollarTStmt,
+            /* offset */ fbPtr - fileBuf,
               tokenLength, // lineNum, g_input_fn,
               "Expected \"+\" or \";\" here.");
           free_vstring(fileBuf);
@@ -4416,12 +4430,25 @@ flag getSectionHeadings(long stmt,
     pos3 = stmt;
   }
   if (pos3 == 0 || pos3 > stmt) bug(2241);
-  pos4 = (g_Statement[stmt].labelSectionPtr
-        - g_Statement[pos3].labelSectionPtr)
-        + g_Statement[stmt].labelSectionLen; // Length of the header area
+  // The sections are concatenated one by one because those changed by
+  // SAVE PROOF or WRITE SOURCE no longer point into the source buffer.
+  pos4 = 0; // Length of the header area
+  for (pos = pos3; pos <= stmt; pos++) {
+    pos4 = pos4 + g_Statement[pos].labelSectionLen;
+    if (pos < stmt) pos4 = pos4 + g_Statement[pos].mathSectionLen;
+  }
   let(&labelStr, space(pos4));
-  memcpy(labelStr, g_Statement[pos3].labelSectionPtr,
-      (size_t)(pos4));
+  pos4 = 0;
+  for (pos = pos3; pos <= stmt; pos++) {
+    memcpy(labelStr + pos4, g_Statement[pos].labelSectionPtr,
+        (size_t)(g_Statement[pos].labelSectionLen));
+    pos4 = pos4 + g_Statement[pos].labelSectionLen;
+    if (pos < stmt) {
+      memcpy(labelStr + pos4, g_Statement[pos].mathSectionPtr,
+          (size_t)(g_Statement[pos].mathSectionLen));
+      pos4 = pos4 + g_Statement[pos].mathSectionLen;
+    }
+  }
 
   pos = 0;
   pos2 = 0;
-- 
2.43.0


From 5ccf46476d6305252409d788b41b9fae1f08b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 39/99] fix: MINIMIZE_WITH does not use discouraged statements
 for syntax steps without /OVERRIDE

---
 src/metamath.c | 3 ++-
 src/mmpfas.c   | 6 ++++--
 src/mmpfas.h   | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 2f86d61..09bd5fc 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5168,7 +5168,8 @@ void command(int argc, char *argv[]) {
           nmbrLet(&nmbrTmp, g_ProofInProgress.proof);
           minimizeProof(k, // trial statement
               g_proveStatement, // statement being proved in MM-PA
-              (char)mayGrowFlag); // mayGrowFlag
+              (char)mayGrowFlag, // mayGrowFlag
+              (char)overrideFlag); // overrideFlag
 
           n = nmbrLen(g_ProofInProgress.proof); // New proof length
           if (!nmbrEq(nmbrTmp, g_ProofInProgress.proof)) {
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 9af7aec..2ebb8ae 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2019,13 +2019,15 @@ INLINE flag quickMatchFilter(long trialStmt, const nmbrString *mString,
 
 // Shorten proof by using specified statement.
 void minimizeProof(long repStatemNum, long prvStatemNum,
-    flag allowGrowthFlag)
+    flag allowGrowthFlag, flag overrideFlag)
 {
   // repStatemNum is the statement number we're trying to use
   // in the proof to shorten it.
   // prvStatemNum is the statement number we're proving.
   // allowGrowthFlag means to make the replacement when possible,
   // even if it doesn't shorten the proof length.
+  // overrideFlag means that statements with discouraged usage may be used
+  // (for the $f hypotheses; MINIMIZE_WITH has checked repStatemNum itself).
 
   long plen, step, mlen, sym, sublen;
   long startingPlen = 0;
@@ -2075,7 +2077,7 @@ void minimizeProof(long repStatemNum, long prvStatemNum,
             0, // noDistinct=0 OK since searchMethod=0 will only call proveFloating for $f's
             0, // searchMethod=0: call proveFloating only for $f's
             0, // improveDepth=0 OK since we call proveFloating only for $f's
-            2, // overrideFlag=2(silent) OK since MINIMIZE_WITH checked it
+            overrideFlag ? 2 : 0, // 2 is silent override
             1 // mathboxFlag=1 since MINIMIZE_WITH has checked it before here
             );
       }
diff --git a/src/mmpfas.h b/src/mmpfas.h
index 7d73a2c..9573a07 100644
--- a/src/mmpfas.h
+++ b/src/mmpfas.h
@@ -129,7 +129,8 @@ char quickMatchFilter(long trialStmt, const nmbrString *mString,
     long dummyVarFlag /*!< 0 if no dummy vars in mString */);
 
 /*! Shorten proof by using specified statement. */
-void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag);
+void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag,
+    flag overrideFlag /*!< 1 means discouraged statements may be used */);
 
 /*! Initialize g_ProofInProgress.source of the step, and .target of all
    hypotheses, to schemes using new dummy variables. */
-- 
2.43.0


From 6dd5fc0d7edab89fa1a3d414cf4ca659660585cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 40/99] fix: str() overflows its buffer for numbers of more
 than 49 characters

---
 src/mmvstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 895bfb7..4a9cea2 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -804,7 +804,7 @@ temp_vstring str(double f) {
   // the one after the decimal point are stripped; e.g., it returns 7.
   // instead of 7.000000000000000.
   long i;
-  temp_vstring s = tempAlloc(50);
+  temp_vstring s = tempAlloc(350); // "%f" may need up to 317 characters
   sprintf(s,"%f", f);
   if (strchr(s, '.') != 0) { // The string has a period in it
     for (i = (long)strlen(s) - 1; i > 0; i--) { // Scan string backwards
@@ -812,7 +812,7 @@ temp_vstring str(double f) {
       s[i] = 0; // Delete the trailing 0
     }
     if (s[i] == '.') s[i] = 0; // Delete trailing period
-/*E*/INCDB1(-(49 - (long)strlen(s)));
+/*E*/INCDB1(-(349 - (long)strlen(s)));
   }
   return s;
 } // str
-- 
2.43.0


From b01470ac5e07a48106396c3304e2957eb013a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 41/99] fix: TOOLS SUBSTITUTE treats the offered answer EACH as
 the first occurrence

---
 src/metamath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 09bd5fc..aa5130d 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1397,7 +1397,9 @@ void command(int argc, char *argv[]) {
           case SUBSTITUTE_MODE:
             let(&newstr, g_fullArg[3]); // The replacement string
             if (((vstring)(g_fullArg[4]))[0] == 'A' ||
-                ((vstring)(g_fullArg[4]))[0] == 'a') { // ALL
+                ((vstring)(g_fullArg[4]))[0] == 'a' || // ALL
+                ((vstring)(g_fullArg[4]))[0] == 'E' ||
+                ((vstring)(g_fullArg[4]))[0] == 'e') { // EACH
               q = -1;
             } else {
               q = (long)val(g_fullArg[4]);
-- 
2.43.0


From 304d010cded50d29133b7b2a9eed71532d489600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 42/99] fix: TOOLS SUBSTITUTE of \n loses a blank line that
 does not match

---
 src/metamath.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index aa5130d..fd81768 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -913,6 +913,7 @@ void command(int argc, char *argv[]) {
   flag cmdMode, changedFlag, outMsgFlag;
   double sum;
   vstring_def(bufferedLine);
+  flag bufferedLineFlag = 0; // 1 if bufferedLine (maybe blank) is pending
   vstring_def(tagStartMatch);  // For TAG command
   long tagStartCount = 0;      // For TAG command
   vstring_def(tagEndMatch);    // For TAG command
@@ -1430,13 +1431,15 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
-  
+        bufferedLineFlag = 0;
+
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (bufferedLineFlag) {
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
+            bufferedLineFlag = 0;
           } else {
             if (!linput(list1_fp, NULL, &str1)) break;
           }
@@ -1502,6 +1505,7 @@ void command(int argc, char *argv[]) {
                     free_vstring(bufferedLine);
                   } else {
                     k = 0; // No match - leave bufferedLine for next pass
+                    bufferedLineFlag = 1;
                   }
                 } else { // EOF reached
                   print2("Warning: file %s has an odd number of lines\n",
-- 
2.43.0


From 0754db2772d2d67767fa974745236d70b98b3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 43/99] fix: TOOLS reads before the start of a one-character
 file name

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index fd81768..23ecc2a 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1351,7 +1351,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 1 &&
+            list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1707,7 +1708,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 1 &&
+            list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From 56c1f7ec9508393ec1babde499d6ec557d69a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 44/99] fix: TOOLS NUMBER with an increment of 0 never ends

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 23ecc2a..c8d1819 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1884,6 +1884,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if (val(g_fullArg[4]) < 1) {
+          print2("?The increment must be greater than 0.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From 7569d6d04263ec581e65fa1bccbceccc9764a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 45/99] fix: TOOLS COUNT reports line 0 (and a line of another
 file) when all lines are empty

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index c8d1819..86157c8 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1909,6 +1909,7 @@ void command(int argc, char *argv[]) {
         p2 = 0;
         lines = 0;
         q = 0; // Longest line length
+        free_vstring(str4); // Longest line
         i = 0; // First longest line
         j = 0; // Number of longest lines
         sum = 0.0; // Sum of numeric content of lines
@@ -1917,7 +1918,7 @@ void command(int argc, char *argv[]) {
           lines++;
 
           // Longest line
-          if (q < (signed)(strlen(str1))) {
+          if (lines == 1 || q < (signed)(strlen(str1))) {
             q = (long)strlen(str1);
             let(&str4, str1);
             i = lines;
-- 
2.43.0


From 2981d966e26ccab122c1e8ea5fa7a63f3cb98a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 46/99] fix: linput() accesses memory before its buffer on a
 line that starts with NUL

---
 src/mmvstr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 4a9cea2..357e111 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -277,12 +277,13 @@ int linput(FILE *stream, const char* ask, vstring *target) {
   if (stream == NULL) stream = stdin;
   while (!eol_found && fgets(f, sizeof(f), stream))
   {
-    size_t endpos = strlen(f) - 1;
-    eol_found = (f[endpos] == '\n');
+    size_t endpos = strlen(f);
+    // (endpos is 0 if the line starts with a NUL character.)
+    eol_found = (endpos > 0 && f[endpos - 1] == '\n');
     // If the last line in the file has no newline, eol_found will be 0 here.
     // The fgets() above will return 0 and prevent another loop iteration.
     if (eol_found)
-      f[endpos] = 0; // The return string will have any newline stripped.
+      f[endpos - 1] = 0; // The return string will have any newline stripped.
     if (result)
       // Append additional parts of the line to *target.
       // The let() reallocates *target and copies the concatenation of the
-- 
2.43.0


From 42344af43609f9bbd50b43d5a4db153ba10560a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 47/99] fix: a file whose old version could not be renamed was
 overwritten without backup

---
 src/mminou.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..4546199 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1089,6 +1089,7 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
   vstring_def(newBakName);
   long v;
   long lastVersion; // Last version before gap
+  flag renameError = 0;
 
   if (!strcmp(mode, "r")) {
     fp = fopen(fileName, "r");
@@ -1162,17 +1163,29 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
           lastVersion--;
         }
 
-        for (v = lastVersion; v >= 1; v--) {
+        for (v = lastVersion; v >= 1 && !renameError; v--) {
           let(&bakName, cat(prefix, str((double)v), postfix, NULL));
           fp = fopen(bakName, "r");
           if (!fp) continue;
           fclose(fp);
           let(&newBakName, cat(prefix, str((double)v + 1), postfix, NULL));
-          rename(bakName /* old */, newBakName /* new */);
+          if (rename(bakName /* old */, newBakName /* new */) != 0) {
+            renameError = 1;
+          }
         }
       }
       let(&bakName, cat(prefix, str(1), postfix, NULL));
-      rename(fileName, bakName);
+      if (!renameError && rename(fileName, bakName) != 0) renameError = 1;
+      if (renameError) {
+        // Don't overwrite a file that couldn't be backed up
+        print2("?Sorry, couldn't rename the old version of the file \"%s\".\n",
+            fileName);
+        free_vstring(prefix);
+        free_vstring(postfix);
+        free_vstring(bakName);
+        free_vstring(newBakName);
+        return NULL;
+      }
 
       // printLongLine(cat("The file \"", fileName,
       //     "\" already exists.  The old file is being renamed to \"",
-- 
2.43.0


From fafac247a367d23554893f476c665b88e7e16dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 48/99] fix: versioning overwrote existing files that are not
 readable

---
 src/mminou.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 4546199..6951c68 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -12,6 +12,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdarg.h>
+#include <errno.h>
 #include <time.h>
 #include "mmvstr.h"
 #include "mmdata.h"
@@ -1079,6 +1080,16 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
   if (line1) free_vstring(line1);
 } // errorMessage()
 
+// Returns 1 if the file exists (even if it can't be read), 0 otherwise.
+static flag fileExists(const char *fileName) {
+  FILE *fp = fopen(fileName, "r");
+  if (fp) {
+    fclose(fp);
+    return 1;
+  }
+  return errno != ENOENT && errno != ENOTDIR;
+} // fileExists()
+
 // Opens files with error message; opens output files with
 // backup of previous version.   Mode must be "r" or "w" or "d" (delete).
 FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
@@ -1102,10 +1113,7 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
   if (!strcmp(mode, "w") || !strcmp(mode, "d")) {
     if (noVersioningFlag) goto skip_backup;
     // See if the file already exists.
-    fp = fopen(fileName, "r");
-
-    if (fp) {
-      fclose(fp);
+    if (fileExists(fileName)) {
 
 #define VERSIONS 9
       // The file exists. Rename it.
@@ -1137,37 +1145,27 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
 
       // See if the lowest version already exists.
       let(&bakName, cat(prefix, str(1), postfix, NULL));
-      fp = fopen(bakName, "r");
-      if (fp) {
-        fclose(fp);
+      if (fileExists(bakName)) {
         // The lowest version already exists; rename all to higher versions.
 
         // Find last version before gap, if any
         lastVersion = 0;
         for (v = 1; v <= VERSIONS; v++) {
           let(&bakName, cat(prefix, str((double)v), postfix, NULL));
-          fp = fopen(bakName, "r");
-          if (!fp) break; // Version gap found; skip rest of scan
-          fclose(fp);
+          if (!fileExists(bakName)) break; // Version gap found; skip rest of scan
           lastVersion = v;
         }
 
         // If there are no gaps before version VERSIONS, delete it.
         if (lastVersion == VERSIONS) {
           let(&bakName, cat(prefix, str((double)VERSIONS), postfix, NULL));
-          fp = fopen(bakName, "r");
-          if (fp) {
-            fclose(fp);
-            remove(bakName);
-          }
+          if (fileExists(bakName)) remove(bakName);
           lastVersion--;
         }
 
         for (v = lastVersion; v >= 1 && !renameError; v--) {
           let(&bakName, cat(prefix, str((double)v), postfix, NULL));
-          fp = fopen(bakName, "r");
-          if (!fp) continue;
-          fclose(fp);
+          if (!fileExists(bakName)) continue;
           let(&newBakName, cat(prefix, str((double)v + 1), postfix, NULL));
           if (rename(bakName /* old */, newBakName /* new */) != 0) {
             renameError = 1;
-- 
2.43.0


From 3191c3e74577248372bf54027f84c25746863f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 49/99] fix: mixing LaTeX and HTML commands crashed (bug 1118)
 or wrote the wrong kind of output

---
 src/metamath.c | 30 +++++++++++++++++++++++++-----
 src/mmwtex.c   | 11 +++++------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 86157c8..8ce6370 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2586,6 +2586,13 @@ void command(int argc, char *argv[]) {
         printTime = 1;
       }
 
+      if (g_texFileOpenFlag) {
+        // The HTML output would take over the file pointer of the LaTeX file
+        print2(
+    "?A LaTeX output file is open.  Use the CLOSE TEX command first.\n");
+        continue;
+      }
+
       g_htmlFlag = 1;
 
       // Declare flag to output statement lists only, for statement display in
@@ -3053,14 +3060,17 @@ void command(int argc, char *argv[]) {
         if (!g_texFileOpenFlag) {
           print2(
       "?You have not opened a %s file.  Use the OPEN TEX command first.\n",
-              g_htmlFlag ? "HTML" : "LaTeX");
+              "LaTeX");
           continue;
         }
 
-        if (!g_texDefsRead) {
+        // Other commands may have switched to HTML since OPEN TEX
+        g_htmlFlag = 0;
+        g_altHtmlFlag = 0;
+        if (!g_texDefsRead || 2 /* error */ == readTexDefs(0, 0)) {
           print2(
       "?Error: Cannot output %s because the $t command could not be read.\n",
-              g_htmlFlag ? "HTML" : "LaTeX");
+              "LaTeX");
           continue;
         }
       }
@@ -3583,8 +3593,16 @@ void command(int argc, char *argv[]) {
         if (!g_texFileOpenFlag) {
           print2(
      "?You have not opened a %s file.  Use the OPEN %s command first.\n",
-              g_htmlFlag ? "HTML" : "LaTeX",
-              g_htmlFlag ? "HTML" : "TEX");
+              "LaTeX", "TEX");
+          continue;
+        }
+        // Other commands may have switched to HTML since OPEN TEX
+        g_htmlFlag = 0;
+        g_altHtmlFlag = 0;
+        if (!g_texDefsRead || 2 /* error */ == readTexDefs(0, 0)) {
+          print2(
+      "?Error: Cannot output %s because the $t command could not be read.\n",
+              "LaTeX");
           continue;
         }
       }
@@ -6171,6 +6189,8 @@ void command(int argc, char *argv[]) {
       }
 
       // Open a TeX file
+      g_htmlFlag = 0; // An earlier command may have set it and then failed
+      g_altHtmlFlag = 0;
       let(&g_texFileName,g_fullArg[2]);
       if (switchPos("NO_HEADER")) {
         texHeaderFlag = 0;
diff --git a/src/mmwtex.c b/src/mmwtex.c
index 2674261..fd768fa 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5176,12 +5176,11 @@ flag writeBibliography(vstring bibFile,
       if (list1_fp == NULL) bug(2337);
     }
   }
-  if (!g_texDefsRead) {
-    g_htmlFlag = 1;
-    if (2 /* error */ == readTexDefs(errorsOnly, fileCheck)) {
-      errFlag = 2; // Error flag to recover input file
-      goto BIB_ERROR; // An error occurred
-    }
+  g_htmlFlag = 1;
+  // (Does nothing if the HTML definitions have been read already)
+  if (2 /* error */ == readTexDefs(errorsOnly, fileCheck)) {
+    errFlag = 2; // Error flag to recover input file
+    goto BIB_ERROR; // An error occurred
   }
 
   // Transfer the input file up to the special "<!-- #START# -->" comment
-- 
2.43.0


From 1bb84780d46a6ac30d039f8558d7c4cf967f8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 50/99] fix: TOOLS COPY left a temporary file and an open file
 behind when an input file was missing

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 8ce6370..a94d8fb 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2034,8 +2034,11 @@ void command(int argc, char *argv[]) {
           }
           fclose(list1_fp);
         }
-        if (j) continue; // One of the input files couldn't be opened
         fclose(list2_fp);
+        if (j) { // One of the input files couldn't be opened
+          remove(list2_ftmpname);
+          continue;
+        }
         print2("The output file \"%s\" has %ld lines.\n", g_fullArg[2], lines);
         fSafeRename(list2_ftmpname, g_fullArg[2]);
         continue;
-- 
2.43.0


From 18f4d85b21a00996acbdaba7354bf3d1bc6f7f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 51/99] fix: reading an empty file looked at the byte before
 its buffer; a file handle leaked when seeking fails

---
 src/mminou.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 6951c68..871fe56 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1322,6 +1322,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
     if (verbose) print2(
         "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
         fileName);
+    fclose(inputFp);
     return NULL;
   }
   fileBufSize = ftell(inputFp);
@@ -1427,7 +1428,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   }
 
   // Make sure the last line is not a partial line
-  if (fileBuf[(*charCount) - 1] != '\n') {
+  if ((*charCount) == 0 || fileBuf[(*charCount) - 1] != '\n') {
     if (verbose) print2(
         "?Warning: the last line in file \"%s\" is incomplete.\n",
         fileName);
-- 
2.43.0


From 134c4a0d1610e7a141810354f8ecdcb24e5193ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 52/99] fix: WRITE THEOREM_LIST stopped with bug 2333 when
 exthtmllabel is given but there are no mathboxes

---
 src/mmwtex.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index fd768fa..359df3b 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3805,9 +3805,13 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("&nbsp;Hilbert Space Explorer</A>\n");
 
       free_vstring(str3);
-      if (g_Statement[g_mathboxStmt].pinkNumber <= 0) bug(2333);
-      str3 = pinkRangeHTML(g_extHtmlStmt,
-         nmbrStmtNmbr[g_Statement[g_mathboxStmt].pinkNumber - 1]);
+      if (g_mathboxStmt > g_statements) { // There are no mathboxes
+        str3 = pinkRangeHTML(g_extHtmlStmt, nmbrStmtNmbr[assertions]);
+      } else {
+        if (g_Statement[g_mathboxStmt].pinkNumber <= 0) bug(2333);
+        str3 = pinkRangeHTML(g_extHtmlStmt,
+           nmbrStmtNmbr[g_Statement[g_mathboxStmt].pinkNumber - 1]);
+      }
       printLongLine(cat("<BR>(", str3, ")", NULL),
         " ", // Start continuation line with space
         "\""); // Don't break inside quotes e.g. "Arial Narrow"
@@ -3818,21 +3822,23 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("\n");
 
       // Mathbox stuff
-      print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
-      print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
-      print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
-      print2("&nbsp;Users' Mathboxes</A>\n");
-
-      free_vstring(str3);
-      str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
-      printLongLine(cat("<BR>(", str3, ")", NULL),
-        " ", // Start continuation line with space
-        "\""); // Don't break inside quotes e.g. "Arial Narrow"
+      if (g_mathboxStmt <= g_statements) {
+        print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
+        print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
+        print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
+        print2("&nbsp;Users' Mathboxes</A>\n");
+
+        free_vstring(str3);
+        str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
+        printLongLine(cat("<BR>(", str3, ")", NULL),
+          " ", // Start continuation line with space
+          "\""); // Don't break inside quotes e.g. "Arial Narrow"
 
-      print2("</TD>\n");
-      print2("\n");
-      print2("<TD WIDTH=10>&nbsp;</TD>\n");
-      print2("\n");
+        print2("</TD>\n");
+        print2("\n");
+        print2("<TD WIDTH=10>&nbsp;</TD>\n");
+        print2("\n");
+      }
 
       print2("</TR></TABLE></CENTER>\n");
     } // if (g_extHtmlStmt < g_mathboxStmt)
-- 
2.43.0


From f5aa47be0e3ad7482f0bcb342a35cedc966a2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 53/99] fix: the token number of "wff" found in one database
 was used for the next one after ERASE

---
 src/mmcmds.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index a61c9ff..6abd8e8 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -74,9 +74,9 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - set to -2 if not found.
+  // (Not static, since it is different after another READ.)
+  long wffToken = -1;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -1978,9 +1978,9 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
+      // Array index of the hard-coded token "wff" - set to -2 if not found.
+      // (Not static, since it is different after another READ.)
+      long wffToken = -1;
       // Look up the token "wff" (hard-coded) if we haven't found it before
       if (wffToken == -1) { // First time
         // In case it's not found because the user's source used a convention
-- 
2.43.0


From a2782c2e9852b2a96f65a9ed07d4bbc553ca723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 54/99] fix: SAVE PROOF marked the proof in progress as saved,
 or as changed

---
 src/metamath.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index a94d8fb..e9f6bb5 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3833,12 +3833,14 @@ void command(int argc, char *argv[]) {
 
           if (saveFlag) {
             g_sourceChanged = 1;
-            g_proofChanged = 0;
-            if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
-              // The UNDO stack may not be empty.
-              // UNDO stack empty no longer reliably indicates that
-              // proof hasn't changed.
-              proofSavedFlag = 1; 
+            if (pipFlag) {
+              g_proofChanged = 0;
+              if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
+                // The UNDO stack may not be empty.
+                // UNDO stack empty no longer reliably indicates that
+                // proof hasn't changed.
+                proofSavedFlag = 1;
+              }
             }
 
             // Add an initial \n which will go after the "$=" and the
-- 
2.43.0


From fcce9788952d38c55763df1f4a60fad36faf8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 55/99] fix: out-of-bounds reads after undeclared math symbols
 and empty math strings

---
 src/mmpars.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 0f76873..1fa7814 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1096,7 +1096,7 @@ void parseStatements(void) {
           for (; symbolLen > 0; symbolLen = 0) {
 
             // symbolLenExists means a symbol of this length was declared
-            if (!symbolLenExists[symbolLen]) continue;
+            if (symbolLen > maxSymbolLen || !symbolLenExists[symbolLen]) continue;
             wrkStrPtr[symbolLen] = 0; // Define end of trial token to look up
             g_mathKeyPtr = (void *)bsearch(wrkStrPtr, g_mathKey, (size_t)g_mathTokens,
                 sizeof(long), mathSrchCmp);
@@ -1180,6 +1180,10 @@ void parseStatements(void) {
             let(&g_MathToken[tokenNum].tokenName, left(fbPtr,symbolLen));
             g_MathToken[tokenNum].length = symbolLen;
             g_MathToken[tokenNum].tokenType = (char)var_;
+            g_MathToken[tokenNum].active = 0;
+            g_MathToken[tokenNum].scope = 0;
+            g_MathToken[tokenNum].statement = stmt; // First statement using it
+            g_MathToken[tokenNum].endStatement = g_statements;
             // Prevent stray pointers later
             g_MathToken[tokenNum].tmp = 0; // Location in active variable stack
             if (!activeVarStackPtr) { // Make a fictitious entry
@@ -1241,6 +1245,9 @@ void parseStatements(void) {
           if (!mathStringLen) {
             sourceError(fbPtr, 2, stmt,
                 "This statement type requires at least one math symbol.");
+            // Later code looks at the first symbol; give it the dummy token
+            wrkNmbrPtr[0] = g_mathTokens;
+            mathStringLen = 1;
           } else {
             if (type == f_ && mathStringLen < 2) {
               sourceError(fbPtr, 2, stmt,
-- 
2.43.0


From cbfe7f76aa2fdbceaa3694286fde68ec7689f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 56/99] fix: ERASE kept the number of dummy variables of the
 last proof assistant session

---
 src/mmcmds.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 6abd8e8..2317df1 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4560,6 +4560,7 @@ void eraseSource(void) // ERASE command
   free(g_IncludeCall); // Will be initialized in initBigArrays
   free(g_MathToken);
   g_dummyVars = 0; // For Proof Assistant
+  g_pipDummyVars = 0;
   free(g_sourcePtr);
   free(g_labelKey);
   free(g_mathKey);
-- 
2.43.0


From 6d8e5e78256970332010e2f7711df35865c40180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 57/99] fix: the scrolling prompt looped forever at the end of
 the input

---
 src/mminou.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 871fe56..5afd488 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -244,7 +244,13 @@ flag print2(const char* fmt, ...) {
         fflush(stdout);
 #endif
       }
-      c = (char)(getchar());
+      int ch = getchar();
+      if (ch == EOF) {
+        // No one is there to answer any more
+        localScrollMode = 0; // Continuous scroll
+        break;
+      }
+      c = (char)ch;
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -298,7 +304,9 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      do {
+        ch = getchar();
+      } while (ch != '\n' && ch != EOF);
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From 9a7645dda719515e3b467cb068929932b6ee797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 58/99] fix: WRITE SOURCE /EXTRACT printed bug 1505 when the
 screen width is less than 69

---
 src/mminou.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 5afd488..21b18fd 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -463,7 +463,8 @@ flag print2(const char* fmt, ...) {
   }
 
   // Check for lines too long
-  if (lineLen > g_screenWidth + 1) { // The +1 ignores \n
+  if (lineLen > g_screenWidth + 1 // The +1 ignores \n
+      && !g_outputToString /* not shown on the screen */ ) {
     // Warning:  Do not call bug(), because it calls print2.
     // If this bug occurs, the calling function should be fixed.
     printf("*** PROGRAM BUG #1505 (not serious, but please report it)\n");
-- 
2.43.0


From b46c455c911ea01f17b1cf6088e300e7e5af42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 59/99] fix: four messages were neither logged nor suppressed
 by SUBMIT /SILENT

---
 src/metamath.c | 2 +-
 src/mmpars.c   | 2 +-
 src/mmpfas.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index e9f6bb5..05558f4 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1286,7 +1286,7 @@ void command(int argc, char *argv[]) {
 
     if (cmdMatches("SUBMIT")) {
       if (g_commandFileNestingLevel == MAX_COMMAND_FILE_NESTING) {
-        printf("?The SUBMIT nesting level has been exceeded.\n");
+        print2("?The SUBMIT nesting level has been exceeded.\n");
         continue;
       }
       g_commandFilePtr[g_commandFileNestingLevel + 1] = fSafeOpen(g_fullArg[1], "r",
diff --git a/src/mmpars.c b/src/mmpars.c
index 1fa7814..b9ff3f3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5148,7 +5148,7 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
 
     if (i == 0) {
       // TODO: better error msg
-      printf("?End of comment not found\n");
+      print2("?End of comment not found\n");
       i = (long)strlen(fileBuf); // Slow, but this is a rare error
       fbPtr = fileBuf + i; // Points to null at end of fileBuf
     } else {
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 2ebb8ae..f34fcf8 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2583,7 +2583,7 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
   } // while (1)
 
   if (!unifCount) {
-    printf("The unification is not possible.  The proof has an error.\n");
+    print2("The unification is not possible.  The proof has an error.\n");
     returnValue = 0;
     goto returnPoint;
   }
-- 
2.43.0


From c2bb9ebb9ab08f217d14ae914b7d60609ee7f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:59 +0000
Subject: [PATCH 60/99] fix: "$( Begin $[" at the end of a file made READ
 access memory past the buffer

---
 src/mmpars.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index b9ff3f3..c0eeecd 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5081,7 +5081,9 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
         fbPtr = fbPtr + j;
         if (lookForEndMode == 0) {
           *cmdPos2 = fbPtr - fileBuf + 1
-            + ((*cmdType == 'B') ? 1 : 0); // after whitespace for 'B' (see above)
+            // after whitespace for 'B' (see above), if there is any
+            + ((*cmdType == 'B' && fbPtr[0] && !isgraph((unsigned char)fbPtr[0]))
+                ? 1 : 0);
           if (*cmdType == 'S') { // Skip command; we're done
             *endPos1 = 0;
             *endPos2 = 0;
@@ -5637,7 +5639,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     if (cmdType == 'E') {
       // TODO: Better error msg here or in getNextInclude
       print2("?Error: \"$( Begin $[...\" without matching \"$( End $[...\"\n");
-      startOffset = cmdPos2; // Get passed the bad "$( Begin $[..."
+      startOffset = cmdPos2 - 1; // Get passed the bad "$( Begin $[..."
       *errorFlag = 1;
       continue;
     }
-- 
2.43.0


From b8437e2b1b76708e03601512e1686729f2cd8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 61/99] fix: an error message about an empty line accessed the
 byte before the string

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 21b18fd..dac5276 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1007,7 +1007,7 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
 
   // Add a newline to line1 if there is none
   if (line) {
-    if (line[strlen(line) - 1] != '\n') {
+    if (!line[0] || line[strlen(line) - 1] != '\n') {
       let(&line1, line);
     } else {
       bug(1509);
-- 
2.43.0


From 0fb718737dcbf325e8c5ed06d6023c800ad4b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:03 +0000
Subject: [PATCH 62/99] fix: reading a file that contains a null character
 stopped with bug 1704

---
 src/mminou.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index dac5276..815726e 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1456,12 +1456,14 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   if ((*charCount) != i) {
     if (verbose) {
       print2(
-          "?Warning: the file \"%s\" is not an ASCII file.\n",
+          "?Sorry, the file \"%s\" is not an ASCII file.\n",
           fileName);
       print2(
           "Its size is %ld characters with null at character %ld.\n",
-          (*charCount), strlen(fileBuf));
+          (*charCount), i);
     }
+    free(fileBuf);
+    return NULL;
   }
 /*E*/db = db + i; // For memory usage tracking (ignore stuff after null)
 
-- 
2.43.0


From 592ce4bb07a9be752987753e833d67823ad960fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:22 +0000
Subject: [PATCH 63/99] fix: an input line longer than 1999 characters, or one
 with a null character, made the prompt access memory out of bounds

---
 src/mminou.c | 78 +++++++++++++---------------------------------------
 1 file changed, 19 insertions(+), 59 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 815726e..d4c84b5 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -758,6 +758,8 @@ vstring cmdInput(FILE *stream, const char *ask) {
   // New memory is allocated each time linput is called. This space must
   // be freed by the caller.
   vstring_def(g); // Always init vstrings to "" for let(&...) to work
+  char piece[CMD_BUFFER_SIZE];
+  flag gotInput;
   long i;
 
   while (1) { // For "B" backup loop
@@ -767,69 +769,27 @@ vstring cmdInput(FILE *stream, const char *ask) {
       fflush(stdout);
 #endif
     }
-    let(&g, space(CMD_BUFFER_SIZE)); // Allocate CMD_BUFFER_SIZE+1 bytes
-    if (g[CMD_BUFFER_SIZE]) bug(1520); // Bug in let() (improbable)
-    g[CMD_BUFFER_SIZE - 1] = 0; // For overflow detection
-    if (!fgets(g, CMD_BUFFER_SIZE, stream)) {
+    // Collect the line, which may be longer than one buffer.
+    free_vstring(g);
+    gotInput = 0;
+    while (fgets(piece, CMD_BUFFER_SIZE, stream)) {
+      gotInput = 1;
+      i = (long)strlen(piece); // (0 if the line starts with a null character)
+      if (i > 0 && piece[i - 1] == '\n') {
+        piece[i - 1] = 0; // Eliminate new-line character by zapping it
+        let(&g, cat(g, piece, NULL));
+        break;
+      }
+      let(&g, cat(g, piece, NULL));
+      // If the buffer isn't full, it is the last line of a file without
+      // new-line, or there is a null character, where we end the line.
+      if (i < CMD_BUFFER_SIZE - 1) break;
+    }
+    if (!gotInput) {
       // End of file
       free_vstring(g); // Deallocate memory
       return NULL;
     }
-    if (g[CMD_BUFFER_SIZE - 1]) {
-      // Detect input overflow
-      // Warning:  Don't call bug() - it calls print2 which may call this.
-      printf("***BUG #1508\n");
-#if __STDC__
-      fflush(stdout);
-#endif
-    }
-    i = (long)strlen(g);
-/*E*/db = db - (CMD_BUFFER_SIZE - i); // Adjust string usage to detect leaks.
-    // Detect operating system bug of inputting no characters.
-    if (!i) {
-      printf("***BUG #1507\n");
-#if __STDC__
-      fflush(stdout);
-#endif
-    } else {
-      // The last line in the file has no new-line
-      if (g[i - 1] != '\n') {
-        // Warning:  Don't call bug() - it calls print2 which may call this.
-        if (!feof(stream)) {
-          printf("***BUG #1525\n");
-#if __STDC__
-          fflush(stdout);
-#endif
-        }
-        // Add a new-line so processing below will behave correctly.
-        let(&g, cat(g, chr('\n'), NULL));
-/*E*/db = db + (CMD_BUFFER_SIZE - i); // Cancel extra piece of string
-        i++;
-      }
-    }
-
-    if (g[1]) {
-      i--;
-      if (g[i] != '\n') {
-        printf("***BUG #1519\n");
-#if __STDC__
-        fflush(stdout);
-#endif
-      }
-      g[i]=0; // Eliminate new-line character by zapping it
-/*E*/db = db - 1;
-    } else {
-      if (g[0] != '\n') {
-        printf("***BUG #1521\n");
-#if __STDC__
-        fflush(stdout);
-#endif
-      }
-      // Eliminate new-line by deallocating vstring space (if we just zap
-      // character [0], let() will later think g is an empty string constant
-      // and will never deallocate g).
-      free_vstring(g);
-    }
 
     // If user typed "B" (for back), go back to the back buffer to
     // let the user scroll through it.
-- 
2.43.0


From 21ebb857f343ec6e39bb565bd2d1726dd987643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:24 +0000
Subject: [PATCH 64/99] fix: with SET WIDTH below 11 the prompt was wrapped at
 a position before the string

---
 src/mminou.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index d4c84b5..59d4e61 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -857,9 +857,9 @@ vstring cmdInput1(const char *ask) {
   }
   // Allow 10 characters for answer
   if ((signed)(strlen(ask1)) > g_screenWidth - 10) {
-    p = g_screenWidth - 11;
-    while (ask1[p] != ' ' && p > 0) p--;
-    if (p) { // (Give up if no spaces)
+    p = g_screenWidth - 11; // (Negative on a very narrow screen)
+    while (p > 0 && ask1[p] != ' ') p--;
+    if (p > 0) { // (Give up if no spaces)
       print2("%s\n", left(ask1, p));
       let(&ask1, right(ask1, p + 1));
     }
-- 
2.43.0


From da0ccece97b56d827eeeace9e3b79806e4035b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 65/99] fix: LET with a dummy variable such as $999999999 used
 up memory; $0 was accepted

---
 src/mmpars.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index c0eeecd..afa72fc 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4645,6 +4645,9 @@ vstring rewrapComment(const char *comment1) {
   return comment;
 } // rewrapComment
 
+// Largest dummy variable number ("$nnn") that the user may type
+#define MAX_USER_DUMMY_VAR 30000
+
 // This is a general-purpose function to parse a math token string,
 // typically input by the user at the keyboard.  The statemNum is
 // needed to provide a context to determine which symbols are active.
@@ -4856,10 +4859,19 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
               } else {
                 memcpy(wrkStrPtr, fbPtr + 1, (size_t)i - 1);
                 wrkStrPtr[i - 1] = 0; // End of string
-                tokenNum = (long)(val(wrkStrPtr)) + g_mathTokens;
-                // See if dummy var has been declared; if not, declare it
-                if (tokenNum > g_pipDummyVars + g_mathTokens) {
-                  declareDummyVars(tokenNum - g_pipDummyVars - g_mathTokens);
+                if (val(wrkStrPtr) < 1 || val(wrkStrPtr) > MAX_USER_DUMMY_VAR) {
+                  errCount++;
+                  if (errCount <= 1) { // Print 1st error only
+                    sourceError(fbPtr, symbolLen, /* stmt */ 0,
+      "The number of this dummy variable is out of range.");
+                  }
+                  errorFlag = 1;
+                } else {
+                  tokenNum = (long)(val(wrkStrPtr)) + g_mathTokens;
+                  // See if dummy var has been declared; if not, declare it
+                  if (tokenNum > g_dummyVars + g_mathTokens) {
+                    declareDummyVars(tokenNum - g_dummyVars - g_mathTokens);
+                  }
                 }
               }
             } // End if fbPtr == '$'
-- 
2.43.0


From abf3e0227fbf7c73276a48064ee851dc43d69c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 66/99] fix: LET STEP with an empty math string made the
 unification read before the start of a string

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 05558f4..4c589f9 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4403,6 +4403,10 @@ void command(int argc, char *argv[]) {
         g_errorCount = 0;
         continue;
       }
+      if (cmdMatches("LET STEP") && nmbrLen(nmbrTmp) == 0) {
+        print2("?The math symbol string of a step must not be empty.\n");
+        continue;
+      }
 
       if (cmdMatches("LET VARIABLE")) {
         if (((vstring)(g_fullArg[2]))[0] != '$') {
-- 
2.43.0


From 686648ebf6447803db6eb07108c9d706ab554d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 67/99] fix: numbers too large for a long in commands were
 converted with undefined behavior

---
 src/mmvstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 357e111..421fd86 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -13,6 +13,7 @@ This is an emulation of the string functions available in VMS BASIC.
 
 #include <stdarg.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <time.h>
 #include "mmvstr.h"
@@ -724,6 +725,8 @@ double val(const char *s) {
         break;
     }
   }
+  // Keep the value in a range that can be converted to a long
+  if (!(v < (double)(LONG_MAX / 2))) v = (double)(LONG_MAX / 2);
   if (signFound) v = - v;
   return v;
   // return (atof(s));
-- 
2.43.0


From 3d003b7905b0b727d12fd3cda2241dbff4864500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:49 +0000
Subject: [PATCH 68/99] fix: WRITE THEOREM_LIST / THEOREMS_PER_PAGE 0 divided
 by zero

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 4c589f9..dbf1374 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2157,6 +2157,10 @@ void command(int argc, char *argv[]) {
       } else {
         theoremsPerPage = THEOREMS_PER_PAGE; // Use the default value
       }
+      if (theoremsPerPage < 1) {
+        print2("?The number of theorems per page must be at least 1.\n");
+        continue;
+      }
       showLemmas = (switchPos("SHOW_LEMMAS") != 0);
       noVersioning = (switchPos("NO_VERSIONING") != 0);
 
-- 
2.43.0


From 89e7a47fc58ec6544b7ee503823827c81c0cdd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 69/99] fix: WRITE THEOREM_LIST, WRITE BIBLIOGRAPHY, MARKUP and
 others took over the file of OPEN TEX, and CLOSE TEX crashed

---
 src/metamath.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index dbf1374..96d8268 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2107,6 +2107,17 @@ void command(int argc, char *argv[]) {
       continue;
     }
 
+    if (g_texFileOpenFlag && (cmdMatches("WRITE THEOREM_LIST")
+        || cmdMatches("WRITE BIBLIOGRAPHY")
+        || cmdMatches("WRITE RECENT_ADDITIONS")
+        || cmdMatches("MARKUP")
+        || (cmdMatches("SHOW STATEMENT") && switchPos("MNEMONICS")))) {
+      // The command would take over the file pointer of the LaTeX file
+      print2(
+    "?A LaTeX output file is open.  Use the CLOSE TEX command first.\n");
+      continue;
+    }
+
     if (cmdMatches("WRITE SOURCE")) {
       let(&g_output_fn, g_fullArg[2]);
 
-- 
2.43.0


From 56071249e2e6a7c181b4b8ee6b04ae539d675cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:44 +0000
Subject: [PATCH 70/99] fix: SET WIDTH 3 made the line breaking stop with bug
 1524

---
 src/metamath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 96d8268..7c70cdb 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6072,8 +6072,8 @@ void command(int argc, char *argv[]) {
     if (cmdMatches("SET WIDTH")) {
       s = (long)val(g_fullArg[2]); // Screen width value
 
-      // TODO: figure out why s=2 crashes program!
-      if (s < 3) s = 3; // Less than 3 may cause a segmentation fault
+      // printLongLine() needs at least 4 columns for all ways to break lines
+      if (s < 4) s = 4;
       i = g_screenWidth;
       g_screenWidth = s;
       print2("Screen width has been changed from %ld to %ld.\n",
-- 
2.43.0


From 0fd200025545bbc32cd8753db41fe7378f51d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:00 +0000
Subject: [PATCH 71/99] fix: VERIFY MARKUP while OPEN TEX is active made CLOSE
 TEX crash

---
 src/metamath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 7c70cdb..79c44d3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -900,6 +900,7 @@ void command(int argc, char *argv[]) {
   // Set when the first command line processed; used to exit shell
   // command line mode.
   flag commandProcessedFlag = 0;
+  FILE *saveTexFilePtr;
   FILE *list1_fp;
   FILE *list2_fp;
   FILE *list3_fp;
@@ -6400,6 +6401,7 @@ void command(int argc, char *argv[]) {
       l = switchPos("UNDERSCORE_SKIP") == 0;
       m = switchPos("MATHBOX_SKIP") == 0;
       n = switchPos("VERBOSE") != 0;
+      saveTexFilePtr = g_texFilePtr; // Used by OPEN TEX
       verifyMarkup(g_fullArg[2],
           (flag)i, // 1 = check date consistency
           (flag)j, // 1 = check top date
@@ -6407,6 +6409,7 @@ void command(int argc, char *argv[]) {
           (flag)l, // 1 = check labels for underscores
           (flag)m, // 1 = check mathbox cross-references
           (flag)n); // 1 = verbose mode
+      g_texFilePtr = saveTexFilePtr;
       continue;
     }
 
-- 
2.43.0


From 69c48e3ca9c44451afe08c3551a983f128d01cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:18 +0000
Subject: [PATCH 72/99] fix: "(Contributed by" without end at the start of a
 comment made VERIFY MARKUP access memory before the comment

---
 src/mmdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 10532e7..22af00c 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3511,7 +3511,7 @@ vstring getContrib(long stmtNum, char mode) {
         NULL), "    ", " ");
   }
 
-  if (cStart != 0 && description[cMid - 2] != ',') {
+  if (cStart != 0 && (cMid < 2 || description[cMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between contributor and date",
@@ -3520,7 +3520,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (rStart != 0 && description[rMid - 2] != ',') {
+  if (rStart != 0 && (rMid < 2 || description[rMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between reviser and date",
@@ -3529,7 +3529,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (sStart != 0 && description[sMid - 2] != ',') {
+  if (sStart != 0 && (sMid < 2 || description[sMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between proof shortener and date",
-- 
2.43.0


From fce2a8f8491ca996280450600777c5f9ff671f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:29 +0000
Subject: [PATCH 73/99] fix: on a screen narrower than a label the compressed
 proof format looped forever or accessed memory before a matrix

---
 src/mmdata.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 22af00c..a8d6f0e 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -1997,6 +1997,7 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
   long explUnassignedCount;
   nmbrString_def(explWorth);
   long explWidth;
+  long shortestLen;
   vstring_def(explIncluded);
 
   // Compression standard with all cap letters.
@@ -2193,6 +2194,19 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // far in the future.  Here we will just put the labels in the order
       // that will cause it to wrap at the desired place.
       explWidth = g_screenWidth - indentation - explOffset + 1;
+      if (explWidth < 0) explWidth = 0;
+      if (explOffset == 0) {
+        // A whole line is available; if even the shortest label doesn't fit
+        // (narrow screen), it has to be put on a line anyway.
+        shortestLen = 0;
+        for (j = 0; j < explLabels; j++) {
+          if (explWorth[j] > 0 && (shortestLen == 0
+              || explLabelLen[j] < shortestLen)) {
+            shortestLen = explLabelLen[j];
+          }
+        }
+        if (explWidth < shortestLen) explWidth = shortestLen;
+      }
 
       // Fill in the label list output line with labels that fit best.
       // The knapsack01() call below is always given the entire set of
-- 
2.43.0


From af5e2a5314c00d0d93130d248f41cec0293bcc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 74/99] fix: DBG with an unknown or empty math string read
 before the start of a table

---
 src/metamath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metamath.c b/src/metamath.c
index 79c44d3..db50d80 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4070,6 +4070,7 @@ void command(int argc, char *argv[]) {
       print2("DEBUGGING MODE IS FOR DEVELOPER'S USE ONLY!\n");
       print2("Argument:  %s\n", g_fullArg[1]);
       nmbrLet(&nmbrTmp, parseMathTokens(g_fullArg[1], g_proveStatement));
+      if (nmbrLen(nmbrTmp) == 0) continue; // Nothing to prove
       for (j = 0; j < 3; j++) {
         print2("Trying depth %ld\n", j);
         nmbrTmpPtr = proveFloating(nmbrTmp, g_proveStatement, j, 0, 0,
-- 
2.43.0


From f2c8141874fea845f1139b75053a940f53dd4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:06 +0000
Subject: [PATCH 75/99] fix: SAVE PROOF with SET WIDTH 4 stopped with bug 1128

---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index db50d80..0663741 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6074,8 +6074,9 @@ void command(int argc, char *argv[]) {
     if (cmdMatches("SET WIDTH")) {
       s = (long)val(g_fullArg[2]); // Screen width value
 
-      // printLongLine() needs at least 4 columns for all ways to break lines
-      if (s < 4) s = 4;
+      // printLongLine() needs at least 4 columns for all ways to break lines,
+      // SAVE PROOF one more
+      if (s < 5) s = 5;
       i = g_screenWidth;
       g_screenWidth = s;
       print2("Screen width has been changed from %ld to %ld.\n",
-- 
2.43.0


From 92e8491d64b8762017e9ff60858689ddf2fed37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 76/99] fix: SET UNDO with a huge number stopped with bug 1861

---
 src/metamath.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 0663741..cd6f400 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6151,8 +6151,14 @@ void command(int argc, char *argv[]) {
     }
 
     if (cmdMatches("SET UNDO")) {
+#define MAX_UNDOS 100000 // To prevent running out of memory
       s = (long)val(g_fullArg[2]); // Maximum UNDOs
       if (s < 0) s = 0; // Less than 0 UNDOs makes no sense
+      if (s > MAX_UNDOS) {
+        print2("?The maximum number of UNDOs may not exceed %ld.\n",
+            (long)MAX_UNDOS);
+        continue;
+      }
       // Reset the stack size if it changed
       if (processUndoStack(NULL, PUS_GET_SIZE, "", 0) != s) {
         print2(
-- 
2.43.0


From e12fdbe170fffa2983db839bd20d6188889c1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 77/99] fix: TOOLS BREAK with many separator characters
 overflowed the stack of temporary strings

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index cd6f400..4cfd6c2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1559,8 +1559,9 @@ void command(int argc, char *argv[]) {
               changedLines++;
               for (i = 0; i < (signed)(strlen(g_fullArg[2])); i++) {
                 p = 0;
+                char breakChar[2] = { ((vstring)(g_fullArg[2]))[i], 0 };
                 while (1) {
-                  p = instr(p + 1, str2, chr(((vstring)(g_fullArg[2]))[i]));
+                  p = instr(p + 1, str2, breakChar);
                   if (!p) break;
                   // Put spaces around special one-char tokens
                   let(&str2, cat(left(str2, p - 1), " ",
-- 
2.43.0


From a108960566c13f0d52eba56e2861802f98ecd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:41 +0000
Subject: [PATCH 78/99] fix: <HTML> in a comment in typewriter mode copied a
 string onto itself

---
 src/mmwtex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 359df3b..14623c5 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -991,12 +991,12 @@ vstring asciiToTt(vstring s) {
         case '<':
           // Leave in HTML tags (case must match)
           if (!strcmp(mid(ttstr, i + 1, 6), "<HTML>")) {
-            let(&ttstr, ttstr); // Purge stack to prevent overflow by 'mid'
+            free_vstring(tmp); // Purge stack to prevent overflow by 'mid'
             i = i + 6;
             break;
           }
           if (!strcmp(mid(ttstr, i + 1, 7), "</HTML>")) {
-            let(&ttstr, ttstr); // Purge stack to prevent overflow by 'mid'
+            free_vstring(tmp); // Purge stack to prevent overflow by 'mid'
             i = i + 7;
             break;
           }
-- 
2.43.0


From bbafac5ad9533fc0758e2e9d36eb74df36d9564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:51 +0000
Subject: [PATCH 79/99] fix: commands on a wrong proof whose steps could not be
 unified read before the start of a table

---
 src/mmpfas.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index f34fcf8..baa1d64 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -634,6 +634,9 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
           // Point to what we are testing hyp. against
           hypTestPtr = (g_ProofInProgress.target)[trialStep];
 
+          // The target of a step of a wrong proof may be empty; don't use it
+          if (hypTestPtr[0] == -1) continue;
+
           // Subproof step has dummy var.; don't use it
           if (!subProofFlag) {
             if (indepKnownSteps[trialStep] != 'Y') {
@@ -1943,6 +1946,8 @@ INLINE flag quickMatchFilter(long trialStmt, const nmbrString *mString,
   // could be computed once for speedup (it used to be when this code
   // was in g_proveStatement() ), but it doesn't seem too compute-intensive.
   mStringLen = nmbrLen(mString);
+  // A step of a wrong proof may be empty; no statement matches it
+  if (mStringLen == 0) return 0;
   firstSymbol = mString[0];
   if (g_MathToken[firstSymbol].tokenType != (char)con_) firstSymbol = 0;
   if (mStringLen > 1) {
-- 
2.43.0


From 92b740a76b5a3236b44e7bef5159bfd5ff28cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:56 +0000
Subject: [PATCH 80/99] fix: SHOW PROOF / LEMMON / START_COLUMN with a huge
 number stopped with bug 1527

---
 src/metamath.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4cfd6c2..0075725 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3573,8 +3573,16 @@ void command(int argc, char *argv[]) {
       if (i) reverseFlag = 1;
       i = switchPos("LEMMON");
       if (i) noIndentFlag = 1;
+#define MAX_START_COLUMN 10000 // To prevent running out of memory
       i = switchPos("START_COLUMN");
-      if (i) splitColumn = (long)val(g_fullArg[i + 1]);
+      if (i) {
+        splitColumn = (long)val(g_fullArg[i + 1]);
+        if (splitColumn > MAX_START_COLUMN) {
+          print2("?The start column may not exceed %ld.\n",
+              (long)MAX_START_COLUMN);
+          continue;
+        }
+      }
       i = switchPos("NO_REPEATED_STEPS");
       if (i) skipRepeatedSteps = 1;
 
-- 
2.43.0


From 8060f8042ef07c40666360094950ecb49b72e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 81/99] fix: a date with an enormous year overflowed in a
 comparison

---
 src/mmvstr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 421fd86..fbbc0c0 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -725,8 +725,9 @@ double val(const char *s) {
         break;
     }
   }
-  // Keep the value in a range that can be converted to a long
-  if (!(v < (double)(LONG_MAX / 2))) v = (double)(LONG_MAX / 2);
+  // Keep the value in a range that can be converted to a long and used in
+  // calculations (such as those with dates)
+  if (!(v < (double)(LONG_MAX / 1024))) v = (double)(LONG_MAX / 1024);
   if (signFound) v = - v;
   return v;
   // return (atof(s));
-- 
2.43.0


From fbe8333f640a58d0a264fc020a6353e69a5cbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 82/99] fix: SET WIDTH with a huge number stopped with bug 1527
 at the next separator line

---
 src/metamath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metamath.c b/src/metamath.c
index 0075725..0046fe2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6086,6 +6086,7 @@ void command(int argc, char *argv[]) {
       // printLongLine() needs at least 4 columns for all ways to break lines,
       // SAVE PROOF one more
       if (s < 5) s = 5;
+      if (s > 100000) s = 100000; // Larger lines may exceed the memory
       i = g_screenWidth;
       g_screenWidth = s;
       print2("Screen width has been changed from %ld to %ld.\n",
-- 
2.43.0


From 0a6fc11865e3c914587654ce04a1d2e5363c86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:13 +0000
Subject: [PATCH 83/99] fix: reading a directory instead of a file overflowed
 the size of the buffer

---
 src/mminou.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mminou.c b/src/mminou.c
index 59d4e61..dbbbadd 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -9,6 +9,7 @@
  * Implementation of basic input and output.
  */
 
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdarg.h>
@@ -1295,6 +1296,14 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
     return NULL;
   }
   fileBufSize = ftell(inputFp);
+  if (fileBufSize < 0 || fileBufSize == LONG_MAX) {
+    // "file" is a directory
+    if (verbose) print2(
+        "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
+        fileName);
+    fclose(inputFp);
+    return NULL;
+  }
 
   // Close and reopen the input file in text mode.
   // Text mode is needed for VAX, DOS, etc. with non-Unix end-of-lines.
-- 
2.43.0


From b9f567bcdc5e54e2b09533d0478d34cb6a253dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:42 +0000
Subject: [PATCH 84/99] fix: READ of a database with "$$(" wrote past the end
 of the statement array

---
 src/mmpars.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index afa72fc..58e0866 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -95,6 +95,11 @@ char *readRawSource(vstring fileBuf, long *size) {
       }
     }
     fbPtr++;
+    // Number of potential statements for malloc.  (Those in comments are
+    // counted too:  after a "$$(" parseKeywords() sees no comment.)
+    if (fbPtr[0] == '{' || fbPtr[0] == '}' || fbPtr[0] == '.') {
+      potentialStatements++;
+    }
     // If the character after '$' is not end of file (which
     // would be an error anyway, but detected elsewhere)
     if (fbPtr[0]) {
@@ -148,12 +153,6 @@ char *readRawSource(vstring fileBuf, long *size) {
         bug(1759);
 
         continue;
-
-      case '{':
-      case '}':
-      case '.':
-        potentialStatements++; // Number of potential statements for malloc
-        break;
     } // End switch fbPtr[0]
   } // End while
 
-- 
2.43.0


From 36d7fc63ff5884656dc3eb7a07db0df73acbb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:43 +0000
Subject: [PATCH 85/99] fix: at the end of input with a narrow screen and
 unsaved changes the program looped forever

---
 src/mminou.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index dbbbadd..8064e90 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -844,10 +844,13 @@ vstring cmdInput1(const char *ask) {
   // Warning: the calling program must deallocate the returned string.
   vstring_def(commandLn);
   vstring_def(ask1);
+  flag exitQuestion; // "Do you want to EXIT anyway (Y, N) <N>?"
   long p, i;
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
+  // (Must be determined before a narrow screen breaks up the question)
+  exitQuestion = !strncmp(ask1, "Do", 2);
   // Look for lines too long
   while ((signed)(strlen(ask1)) > g_screenWidth) {
     p = g_screenWidth - 1;
@@ -876,7 +879,7 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
+        if (!exitQuestion) {
           // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
           let(&commandLn, "EXIT");
         } else {
-- 
2.43.0


From dc44820dfe87a0f19d1ff67798723300fb03dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:06 +0000
Subject: [PATCH 86/99] fix: MINIMIZE_WITH on a proof with steps that cannot be
 unified stopped with bug 1807 and read before the start of a table

---
 src/mmpfas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index baa1d64..c40f270 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1379,7 +1379,8 @@ char checkStmtMatch(long statemNum, long step)
   flag firstSymbsAreConstsFlag;
 
   targetLen = nmbrLen((g_ProofInProgress.target)[step]);
-  if (!targetLen) bug(1807);
+  // The target of a step of a wrong proof may have been zapped
+  if (!targetLen) return 0;
 
   // If the statement is a hypothesis, just see if it unifies.
   if (g_Statement[statemNum].type == (char)e_ || g_Statement[statemNum].type ==
-- 
2.43.0


From e160a44671311717c9d4a3b3ee4ec494739379e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 87/99] fix: rearranging an /EXPLICIT proof copied steps not
 yet determined

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 58e0866..f865bc1 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2532,7 +2532,8 @@ char parseProof(long statemNum)
     if (explicitTargets == 1 && returnFlag < 2) {
       // nmbrString to rearrange proof then when done reassign to
       // g_WrkProof.proofString structure component.
-      nmbrLet(&wrkProofString, g_WrkProof.proofString);
+      // (The steps after this one have not been determined yet.)
+      nmbrLet(&wrkProofString, nmbrLeft(g_WrkProof.proofString, step + 1));
 
       nmbrTmpPtr = g_Statement[j].reqHypList;
       numReqHyp = g_Statement[j].numReqHyp;
-- 
2.43.0


From 487364180200e4a0181e3a87ba230fedebb2357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:11 +0000
Subject: [PATCH 88/99] fix: WRITE SOURCE / EXTRACT read before a string when
 $t is not in a comment

---
 src/mmcmds.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 2317df1..c8bcd46 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3989,13 +3989,19 @@ void writeExtractedSource(
       let(&dollarTCmt, left(tmpPtr, p2 + 1));
       // We need the above because rinstr doesn't have starting arg
       p1 = rinstr(dollarTCmt, "$(");
-      // Search backwards for non-space or beginning of string
-      p1--;
-      while (p1 != 0) {
-        if (dollarTCmt[p1 - 1] != ' ') break;
+      if (p1 == 0) {
+        // The $t is not inside of a comment (the source has an error)
+        dollarTStmt = 0;
+        let(&dollarTCmt, "");
+      } else {
+        // Search backwards for non-space or beginning of string
         p1--;
+        while (p1 != 0) {
+          if (dollarTCmt[p1 - 1] != ' ') break;
+          p1--;
+        }
+        let(&dollarTCmt, cat("\n", seg(dollarTCmt, p1 + 1, p2 + 1), NULL));
       }
-      let(&dollarTCmt, cat("\n", seg(dollarTCmt, p1 + 1, p2 + 1), NULL));
     }
     tmpPtr[j] = zapChar; // Restore the xxx.mm input file buffer
     if (dollarTStmt != 0) {
-- 
2.43.0


From a4c0045ba12e45598de7fb6786fc81f15d2f15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:16 +0000
Subject: [PATCH 89/99] fix: the names of undeclared symbols were never freed

---
 src/mmcmds.c | 7 +++++--
 src/mmdata.c | 1 +
 src/mmdata.h | 1 +
 src/mmpars.c | 1 +
 src/mmpfas.c | 6 ++++--
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index c8bcd46..764b30c 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4554,10 +4554,13 @@ void eraseSource(void) // ERASE command
 
   // g_MathToken[g_mathTokens].tokenName is assigned in
   // parseMathDecl() by let().  eraseSource() should free every g_MathToken and
-  // there are (g_mathTokens + g_dummyVars) tokens.
-  for (i = 0; i <= g_mathTokens + g_dummyVars; i++) {
+  // there are (g_mathTokens + g_dummyVars) tokens, or more if the source
+  // has undeclared symbols.
+  for (i = 0; i <= g_mathTokens + g_dummyVars
+      || i <= g_mathTokens + g_undeclaredTokens; i++) {
     free_vstring(g_MathToken[i].tokenName);
   }
+  g_undeclaredTokens = 0;
 
   memFreePoolPurge(0);
   g_errorCount = 0;
diff --git a/src/mmdata.c b/src/mmdata.c
index a8d6f0e..78be1c4 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -48,6 +48,7 @@ long *g_labelKey = NULL;
 struct mathToken_struct *g_MathToken;
 long *g_mathKey = NULL;
 long g_statements = 0, labels = 0, g_mathTokens = 0;
+long g_undeclaredTokens = 0; // Undeclared symbols (after g_mathTokens)
 
 struct includeCall_struct *g_IncludeCall = NULL;
 long g_includeCalls = -1; // For eraseSource() in mmcmds.c
diff --git a/src/mmdata.h b/src/mmdata.h
index adc46f9..6baeb9a 100644
--- a/src/mmdata.h
+++ b/src/mmdata.h
@@ -293,6 +293,7 @@ extern struct statement_struct *g_Statement;
 /*! \warning `mathToken[i]` is 0-based, not 1-based! */
 extern struct mathToken_struct *g_MathToken;
 extern long g_statements, /*labels,*/ g_mathTokens;
+extern long g_undeclaredTokens; /*!< number of undeclared symbols whose names are stored after g_mathTokens */
 
 extern long g_MAX_INCLUDECALLS;
 extern struct includeCall_struct *g_IncludeCall;
diff --git a/src/mmpars.c b/src/mmpars.c
index f865bc1..6b336e3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1168,6 +1168,7 @@ void parseStatements(void) {
             // stray pointer to active variable stack.
             undeclErrorCount++;
             tokenNum = g_mathTokens + undeclErrorCount;
+            g_undeclaredTokens = undeclErrorCount;
             if (tokenNum >= g_MAX_MATHTOKENS) {
               // There are initially 100 places for bad tokens; add some more
               g_MAX_MATHTOKENS = g_MAX_MATHTOKENS + 1000;
diff --git a/src/mmpfas.c b/src/mmpfas.c
index c40f270..8c284f9 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3069,8 +3069,10 @@ void declareDummyVars(long numNewVars)
         sizeof(struct mathToken_struct));
       if (!g_MathToken) outOfMemory("#10 (mathToken)");
     }
-    // Initialize vstring before let()
-    g_MathToken[g_mathTokens + g_dummyVars].tokenName = "";                         
+    // Initialize vstring before let() (unless it has the name of an
+    // undeclared symbol of a source with errors)
+    if (g_dummyVars > g_undeclaredTokens)
+      g_MathToken[g_mathTokens + g_dummyVars].tokenName = "";                         
     let(&g_MathToken[g_mathTokens + g_dummyVars].tokenName,
         cat("$", str((double)g_dummyVars), NULL));
     g_MathToken[g_mathTokens + g_dummyVars].length =
-- 
2.43.0


From 13f7e7f920354bf29aec13817ab3486823a6534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:17 +0000
Subject: [PATCH 90/99] fix: a line that has to be wrapped was not freed after
 printing

---
 src/mminou.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mminou.c b/src/mminou.c
index 8064e90..dd21e2a 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -378,6 +378,7 @@ flag print2(const char* fmt, ...) {
     } else {
       printLongLine(left(printBuffer, lineLen - 1), "", "");
     }
+    free(printBuffer);
     goto PRINT2_RETURN;
   }
 
-- 
2.43.0


From 4321c07cef53e3e3ae0855294a28005e3715d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:22 +0000
Subject: [PATCH 91/99] fix: the text of a proof's wrong stack was not freed

---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 6b336e3..c3b8250 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2659,6 +2659,7 @@ char parseProof(long statemNum)
           str((double)(g_WrkProof.numSteps))," (the last step), the ",
           tmpStrPtr,".  It should contain exactly one entry.",NULL));
     }
+    free_vstring(tmpStrPtr);
     g_WrkProof.errorCount++;
     if (returnFlag < 3) returnFlag = 3;
   }
@@ -3439,6 +3440,7 @@ char parseCompressedProof(long statemNum)
           str((double)(g_WrkProof.numSteps))," (the last step), the ",
           tmpStrPtr,".  It should contain exactly one entry.",NULL));
     }
+    free_vstring(tmpStrPtr);
     g_WrkProof.errorCount++;
    if (returnFlag < 3) returnFlag = 3;
   }
-- 
2.43.0


From c876ab30aa8981f6217011dedd992fd82289d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:28 +0000
Subject: [PATCH 92/99] fix: a source without statements, or with a failed
 inclusion, was not freed

---
 src/mmcmds.c | 5 +++--
 src/mmpars.c | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 764b30c..d8b1f06 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4495,8 +4495,9 @@ void eraseSource(void) // ERASE command
     g_wrkProofMaxSize = 0;
   }
 
-  if (g_statements == 0) {
-    // Already called
+  if (g_includeCalls < 0) {
+    // Already called, or no source has been read.  (A source that was read
+    // may have no statements.)
     memFreePoolPurge(0);
     return;
   }
diff --git a/src/mmpars.c b/src/mmpars.c
index c3b8250..22deb77 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -6158,8 +6158,9 @@ vstring readSourceAndIncludes(const char *inputFn /* input */, long *size /* out
       free_vstring(g_IncludeCall[i].source_fn);
       free_vstring(g_IncludeCall[i].included_fn);
       free_vstring(g_IncludeCall[i].current_includeSource);
-      g_includeCalls = -1; // For the eraseSource() function in mmcmds.c
     }
+    g_includeCalls = -1; // For the eraseSource() function in mmcmds.c
+    free_vstring(newFileBuf);
     return NULL;
   } else {
 /*D*/ // for (i=0; i<=g_includeCalls;i++)
-- 
2.43.0


From 09b84cde1e16a659dd6bcc68c1a804a8ff6e5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:33 +0000
Subject: [PATCH 93/99] fix: strings and arrays of WRITE THEOREM_LIST, WRITE
 BIBLIOGRAPHY and the page header were not freed

---
 src/mmwtex.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 14623c5..4ec9c3d 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1661,6 +1661,7 @@ void printTexHeader(flag texHeaderFlag)
 
   // Deallocate strings
   free_vstring(tmpStr);
+  free_vstring(localSandboxTitle);
 } // printTexHeader
 
 // Prints an embedded comment in LaTeX or HTML.  The commentPtr must point to the first
@@ -4338,7 +4339,13 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
   free_vstring(bigHdr);
   free_vstring(smallHdr);
   free_vstring(tinyHdr);
+  free_vstring(hugeHdrComment);
+  free_vstring(bigHdrComment);
+  free_vstring(smallHdrComment);
+  free_vstring(tinyHdrComment);
   free_vstring(hdrCommentMarker);
+  free_vstring(hdrCommentAnchor);
+  free_nmbrString(nmbrStmtNmbr);
   for (i = 0; i <= g_statements; i++) free_vstring(*(vstring *)(&pntrHugeHdr[i]));
   free_pntrString(pntrHugeHdr);
   for (i = 0; i <= g_statements; i++) free_vstring(*(vstring *)(&pntrBigHdr[i]));
@@ -4347,6 +4354,22 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
   free_pntrString(pntrSmallHdr);
   for (i = 0; i <= g_statements; i++) free_vstring(*(vstring *)(&pntrTinyHdr[i]));
   free_pntrString(pntrTinyHdr);
+  for (i = 0; i <= g_statements; i++) {
+    free_vstring(*(vstring *)(&pntrHugeHdrComment[i]));
+  }
+  free_pntrString(pntrHugeHdrComment);
+  for (i = 0; i <= g_statements; i++) {
+    free_vstring(*(vstring *)(&pntrBigHdrComment[i]));
+  }
+  free_pntrString(pntrBigHdrComment);
+  for (i = 0; i <= g_statements; i++) {
+    free_vstring(*(vstring *)(&pntrSmallHdrComment[i]));
+  }
+  free_pntrString(pntrSmallHdrComment);
+  for (i = 0; i <= g_statements; i++) {
+    free_vstring(*(vstring *)(&pntrTinyHdrComment[i]));
+  }
+  free_pntrString(pntrTinyHdrComment);
 } // writeTheoremList
 
 // This function extracts any section headers in the comment sections
@@ -5562,9 +5585,6 @@ flag writeBibliography(vstring bibFile,
     }
 
     print2("%ld table rows were written.\n", n);
-    // Deallocate string array
-    for (i = 0; i < lines; i++) free_vstring(*(vstring *)(&pntrTmp[i]));
-    free_pntrString(pntrTmp);
   }
 
  BIB_ERROR:
@@ -5583,6 +5603,15 @@ flag writeBibliography(vstring bibFile,
       }
     }
   }
+  // Deallocate strings
+  for (i = 0; i < pntrLen(pntrTmp); i++) free_vstring(*(vstring *)(&pntrTmp[i]));
+  free_pntrString(pntrTmp);
+  free_vstring(str1);
+  free_vstring(str2);
+  free_vstring(str3);
+  free_vstring(str4);
+  free_vstring(newstr);
+  free_vstring(oldstr);
   if (errFlag == 2) warnFlag = 2;
   return warnFlag;
 } // writeBibliography
-- 
2.43.0


From a3dd1dcbfbede0f1acf6f94dfb35a08ad9cdefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 94/99] fix: strings of WRITE SOURCE / EXTRACT and SHOW
 STATEMENT / HTML were not freed

---
 src/mmcmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index d8b1f06..05aeb36 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2134,6 +2134,7 @@ void typeProof(long statemNum,
           let(&tmpStr, cat(tmpStr, "<A HREF=\"",
               g_Statement[stmt].labelName, ".html\">",
               g_Statement[stmt].labelName, "</A>", tmpStr1, NULL));
+          free_vstring(tmpStr1);
         }
       }
       if (tmpStr[0]) {
@@ -4376,6 +4377,7 @@ void writeExtractedSource(
   free_vstring(mathTokenDeclared);
   free_vstring(undeclaredC);
   free_vstring(undeclaredV);
+  free_vstring(hdrSuffix);
   free_vstring(buf);
   return;
 } // getExtractionInfo
-- 
2.43.0


From 481bcd7cbf9f6583a51e2b272aad19a7da520616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:42 +0000
Subject: [PATCH 95/99] fix: the target labels of an /EXPLICIT proof were not
 freed

---
 src/mmdata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 78be1c4..6b7f9a8 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -1522,6 +1522,7 @@ temp_vstring nmbrCvtRToVString(const nmbrString *proof,
   free_vstring(tmpStr);
   free_nmbrString(localLabels);
   free_nmbrString(localLabelNames);
+  free_nmbrString(targetHyps);
 
   g_startTempAllocStack = saveTempAllocStack;
   g_nmbrStartTempAllocStack = nmbrSaveTempAllocStack;
-- 
2.43.0


From 5dcf0ab90798122d797246c09e76313592eb5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:52 +0000
Subject: [PATCH 96/99] fix: the echoed command was not freed when EXIT or
 ERASE asks a question

---
 src/metamath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 0046fe2..0ac9e1a 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1218,6 +1218,7 @@ void command(int argc, char *argv[]) {
               "Warning:  You have not saved changes to the proof of \"%s\".\n",
               g_Statement[g_proveStatement].labelName);
           if (switchPos("FORCE") == 0) {
+            free_vstring(str1);
             str1 = cmdInput1("Do you want to EXIT anyway (Y, N) <N>? ");
             if (str1[0] != 'y' && str1[0] != 'Y') {
               print2("Use SAVE NEW_PROOF to save the proof.\n");
@@ -1244,6 +1245,7 @@ void command(int argc, char *argv[]) {
         if (g_sourceChanged) {
           print2("Warning:  You have not saved changes to the source.\n");
           if (switchPos("FORCE") == 0) {
+            free_vstring(str1);
             str1 = cmdInput1("Do you want to EXIT anyway (Y, N) <N>? ");
             if (str1[0] != 'y' && str1[0] != 'Y') {
               print2("Use WRITE SOURCE to save the changes.\n");
@@ -6388,6 +6390,7 @@ void command(int argc, char *argv[]) {
     if (cmdMatches("ERASE")) {
       if (g_sourceChanged) {
         print2("Warning:  You have not saved changes to the source.\n");
+        free_vstring(str1);
         str1 = cmdInput1("Do you want to ERASE anyway (Y, N) <N>? ");
         if (str1[0] != 'y' && str1[0] != 'Y') {
           print2("Use WRITE SOURCE to save the changes.\n");
-- 
2.43.0


From fccb37a0307dbc6c3487d74d96d22bad84db9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:31 +0000
Subject: [PATCH 97/99] fix: IMPROVE ALL / 2 replaced known steps although /
 SUBPROOFS was not given

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 0ac9e1a..fa90d5e 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4933,7 +4933,7 @@ void command(int argc, char *argv[]) {
 
             // I think this is really too conservative, even
             // with the old algorithm, but keep it to imitate the old one.
-            if (improveAllIter == 1 || searchAlg == 1) {
+            if (improveAllIter == 1 || searchAlg == 1 || !searchUnkSubproofs) {
               // If the step is known and unified, don't do it, since nothing
               // would be accomplished.
               if (!proofStepUnk) {
-- 
2.43.0


From 8860a847bbee7ee54134e60c9b8246a068386ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:49 +0000
Subject: [PATCH 98/99] fix: WRITE THEOREM_LIST left a FONT and a table cell
 open in the page header

---
 src/mmwtex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 4ec9c3d..25171b5 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3379,7 +3379,10 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
         print2("<BR><A HREF=\"%s%s\">Unicode\n", altHtmlDir, outputFileName);
         print2("version</A>.</FONT></TD>\n");
       }
+    } else {
+      print2("</FONT></TD>\n");
     }
+    print2("</TR>\n");
 
     // Make breadcrumb font to match other pages
     print2("<TR>\n");
-- 
2.43.0


From beabdeb7409cbc3104dba4e4a5d117007a1d523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:23 +0000
Subject: [PATCH 99/99] fix: mmtheoremsall.html showed the characters < and >
 of descriptions as HTML

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index fa90d5e..33c60ff 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2910,7 +2910,7 @@ void command(int argc, char *argv[]) {
                   str1 = getDescription(i);
                   if (strlen(str1) > 29)
                     let(&str1, cat(left(str1, 26), "...", NULL));
-                  let(&str1, cat(str1, "</TD></TR>", NULL));
+                  let(&str1, cat(asciiToTt_temp(str1), "</TD></TR>", NULL));
                   printLongLine(str1, "", "\"");
                 }
                 // Close out the string now to prevent overflow
-- 
2.43.0

