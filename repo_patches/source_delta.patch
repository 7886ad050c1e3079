From 25fdb2928aab6ce6c6e4b99eee5987f2549e42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/52] fix: compute the term hash without signed overflow

---
 src/Globals.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Globals.c b/src/Globals.c
index 4babcd9..da536c9 100755
--- a/src/Globals.c
+++ b/src/Globals.c
@@ -41,12 +41,13 @@ HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces)
     HASH_TYPE hash = 0;
     for(int i=0; i<pieces; i++, data++)
     {
+        //additions and left shifts are done unsigned, signed ones are undefined on overflow
         hash ^= *data;
-        hash += ~(hash << 15);
+        hash = (HASH_TYPE) ((unsigned HASH_TYPE) hash + ~((unsigned HASH_TYPE) hash << 15));
         hash ^=  (hash >> 10);
-        hash +=  (hash << 3);
+        hash = (HASH_TYPE) ((unsigned HASH_TYPE) hash + ((unsigned HASH_TYPE) hash << 3));
         hash ^=  (hash >> 6);
-        hash += ~(hash << 11);
+        hash = (HASH_TYPE) ((unsigned HASH_TYPE) hash + ~((unsigned HASH_TYPE) hash << 11));
         hash ^=  (hash >> 16);
     }
     return hash;
-- 
2.43.0


From e18b9fddae86ea17484ed1c86543ac3b945a396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/52] fix: check the bounds of the term tree and of the
 tokens when parsing a compound

---
 src/Narsese.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..b2d79d1 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -328,9 +328,12 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(i1 < nt, "Parsing error: Term expected!");
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
+        assert(icop < nt, "Parsing error: Compound term is not closed!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
@@ -347,7 +350,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From 4f8cf4a361d2e17ad35d2f669a26ba1424a5d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 03/52] fix: make room for all the tokens the bracket
 replacement can yield

---
 src/Narsese.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index b2d79d1..226e13e 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,8 +247,8 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[REPLACEMENT_LEN+1]; //there cannot be more tokens than chars after the copula replacement
+    memset(tokens, 0, sizeof(tokens)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
-- 
2.43.0


From 77889e4d0b117cb675ac298eecfb13bd7f223763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/52] fix: parse dt= without overflowing a fixed buffer and
 reject a missing or unusable time

---
 src/Narsese.c | 20 +++++---------------
 src/Narsese.h |  1 +
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 226e13e..7bc1591 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -380,23 +380,13 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
-        {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
-            if(narsese[i] == ' ')
-            {
-                dt[i] = 0;
-                narsese = &narsese[i];
-                break;
-            }
-        }
-        *occurrenceTimeOffset = atof(dt);
+        char *dt_end = strchr(narsese, ' ');
+        assert(dt_end != NULL, "Parsing error: Space after dt=num required!");
+        *occurrenceTimeOffset = dt_end == &narsese[3] ? 0.0 : atof(&narsese[3]);
+        assert(*occurrenceTimeOffset >= -OCCURRENCE_TIME_OFFSET_MAX && *occurrenceTimeOffset <= OCCURRENCE_TIME_OFFSET_MAX, "Parsing error: dt out of bounds!");
+        narsese = dt_end;
     }
     //Handle the rest of the Narsese:
     char narseseInplace[NARSESE_LEN_MAX] = {0};
diff --git a/src/Narsese.h b/src/Narsese.h
index 29e2a3c..a913154 100755
--- a/src/Narsese.h
+++ b/src/Narsese.h
@@ -76,6 +76,7 @@ extern Atom SELF;
 #define DISJUNCTION '_'
 #define HAS_CONTINUOUS_PROPERTY ','
 #define SET_TERMINATOR '@'
+#define OCCURRENCE_TIME_OFFSET_MAX 1e15 //largest magnitude of dt=num, exactly representable as double and long
 
 //Methods//
 //-------//
-- 
2.43.0


From 2952b7ed1afa94b547107af2ed2bc5488b3dcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 05/52] fix: reject sentences with an unreadable truth value or
 without punctuation

---
 src/Narsese.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 7bc1591..bf5a989 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -407,20 +407,20 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
-        assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
+        assert(openingIdx >= 0, "Parsing error: Truth value opener not found!");
         double conf, freq;
         if(oldFormat && !hasComma)
         {
             conf = NAR_DEFAULT_CONFIDENCE;
-            sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
+            assert(sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq) == 1, "Parsing error: Truth value has to be a frequency!");
         }
         else
         {
-            sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
+            assert(sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf) == 2, "Parsing error: Truth value has to be a frequency and a confidence!");
         }
         destTv->frequency = freq;
         destTv->confidence = conf;
-        assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
+        assert(openingIdx >= 1 && narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
         narseseInplace[openingIdx-1] = 0; //cut it away for further parsing of term
     }
     //parse event marker, punctuation, and finally the term:
@@ -433,6 +433,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len >= punctuation_offset, "Parsing error: Punctuation is missing!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From 4b310813df05a8acd1b1ba10cae6a3b8789badbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/52] fix: reject input truth values outside their range

---
 src/NAR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..eed471f 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -55,6 +55,8 @@ void NAR_Cycles(int cycles)
 Event NAR_AddInput(Term term, char type, Truth truth, bool eternal, double occurrenceTimeOffset)
 {
     assert(initialized, "NAR not initialized yet, call NAR_INIT first!");
+    assert(truth.frequency >= 0.0 && truth.frequency <= 1.0, "Input frequency has to be within [0,1]!");
+    assert(truth.confidence >= 0.0 && (truth.confidence < 1.0 || (truth.confidence == 1.0 && MAX_CONFIDENCE == 1.0)), "Input confidence has to be within [0,1)!");
     Event ev = Event_InputEvent(term, type, truth, occurrenceTimeOffset, currentTime);
     if(eternal)
     {
-- 
2.43.0


From 5c98d12bdc8875f5fd9e1a54f78d8c8710ee16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 07/52] fix: check the operator index of *setopstdin

---
 src/Shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index d362c30..e81e004 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -396,8 +396,9 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = 0;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
-- 
2.43.0


From cad0066be141efb1f4ec3a0d66b132aca87c8f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 08/52] fix: reject commands with missing arguments instead of
 using uninitialised ones

---
 src/Shell.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index e81e004..99b5983 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -332,7 +332,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*space ", line, strlen("*space ")))
         {
-            int granularity;
+            int granularity = 0;
             char termname[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*space ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &granularity, (char*) &termname);
@@ -349,7 +349,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*setopname ", line, strlen("*setopname ")))
         {
             assert(concepts.itemsAmount == 0, "Operators can only be registered right after initialization / reset!");
-            int opID;
+            int opID = 0;
             char opname[ATOMIC_TERM_LEN_MAX+1] = {0};
             opname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setopname ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &opID, (char*) &opname);
@@ -374,8 +374,8 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setoparg ", line, strlen("*setoparg ")))
         {
-            int opID;
-            int opArgID;
+            int opID = 0;
+            int opArgID = 0;
             char argname[NARSESE_LEN_MAX+1] = {0};
             argname[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setoparg ")], "%d %d %" STR(NARSESE_LEN_MAX) "[^\n]", &opID, &opArgID, (char*) &argname);
@@ -386,7 +386,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*query ", line, strlen("*query ")))
         {
-            double threshold;
+            double threshold = -1.0;
             char narsese[NARSESE_LEN_MAX+1] = {0};
             narsese[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*query ")], "%lf %" STR(NARSESE_LEN_MAX) "[^\n]", &threshold, (char*) &narsese);
-- 
2.43.0


From 200a2cdcd2afcb66dc188f6e5b544fc0e5b4d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 09/52] fix: reject unclosed and oversized *stampimport lists

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index 99b5983..314f888 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end - start - 1 < (long) sizeof(substr), "Stamp import needs to be a list of evidential base ids in [ ]!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
-- 
2.43.0


From dbbdd6caac9a958133446b374bb1a1f18089e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 10/52] fix: reject value names longer than an atomic term in
 *setvalue

---
 src/Shell.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 314f888..86f94c1 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -312,22 +312,23 @@ int Shell_ProcessInput(char *line)
             sscanf(&line[strlen("*setvalue ")], "%lf %d %" STR(ATOMIC_TERM_LEN_MAX) "s", &value, &granularity, (char*) &termname);
             assert(granularity >= 1 && granularity <= 1000, "Granularity out of bounds or parameter order not respected!");
             char termname_ext[ATOMIC_TERM_LEN_MAX+1] = {0};
-            termname_ext[ATOMIC_TERM_LEN_MAX-1] = 0;
+            int termname_len = 0;
             const char* sep = termname[0] ? "_" : "";
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                termname_len = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                termname_len = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                termname_len = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
+            assert(termname_len < ATOMIC_TERM_LEN_MAX, "Value name too long!");
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
         else
-- 
2.43.0


From d22261d848f635e5be98a2ba13636139890dda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 11/52] fix: reject shell parameters and values that take truth
 values and priorities out of range

---
 src/Shell.c | 16 +++++++++++++---
 src/Shell.h |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 86f94c1..243c421 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -47,6 +47,15 @@ void Shell_NARInit()
     assert(false, "Shell_NARInit: Ran out of operators, add more there, or decrease OPERATIONS_MAX!");
 }
 
+//Set a parameter to the number in the string if there is one, it has to be in the given range
+static void Shell_SetParameter(char *string, double *parameter, double minimum, double maximum)
+{
+    double value = *parameter;
+    sscanf(string, "%lf", &value);
+    assert(value >= minimum && value <= maximum, "Parameter value out of bounds!");
+    *parameter = value;
+}
+
 int Shell_ProcessInput(char *line)
 {
     //trim string, for IRC etc. convenience
@@ -107,7 +116,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*anticipationconfidence=", line, strlen("*anticipationconfidence=")))
         {
-            sscanf(&line[strlen("*anticipationconfidence=")], "%lf", &ANTICIPATION_CONFIDENCE);
+            Shell_SetParameter(&line[strlen("*anticipationconfidence=")], &ANTICIPATION_CONFIDENCE, 0.0, 1.0);
         }
         else
         if(!strncmp("*decisionthreshold=", line, strlen("*decisionthreshold=")))
@@ -117,7 +126,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*similaritydistance=", line, strlen("*similaritydistance=")))
         {
-            sscanf(&line[strlen("*similaritydistance=")], "%lf", &Variable_similarity_distance);
+            Shell_SetParameter(&line[strlen("*similaritydistance=")], &Variable_similarity_distance, DBL_MIN, DBL_MAX);
         }
         else
         if(!strcmp(line,"*stats"))
@@ -300,7 +309,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*questionpriming=", line, strlen("*questionpriming=")))
         {
-            sscanf(&line[strlen("*questionpriming=")], "%lf", &QUESTION_PRIMING);
+            Shell_SetParameter(&line[strlen("*questionpriming=")], &QUESTION_PRIMING, 0.0, 1.0);
         }
         else
         if(!strncmp("*setvalue ", line, strlen("*setvalue ")))
@@ -311,6 +320,7 @@ int Shell_ProcessInput(char *line)
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setvalue ")], "%lf %d %" STR(ATOMIC_TERM_LEN_MAX) "s", &value, &granularity, (char*) &termname);
             assert(granularity >= 1 && granularity <= 1000, "Granularity out of bounds or parameter order not respected!");
+            assert(isfinite(value), "Value has to be a finite number!");
             char termname_ext[ATOMIC_TERM_LEN_MAX+1] = {0};
             int termname_len = 0;
             const char* sep = termname[0] ? "_" : "";
diff --git a/src/Shell.h b/src/Shell.h
index 013f844..5766d0f 100755
--- a/src/Shell.h
+++ b/src/Shell.h
@@ -40,6 +40,8 @@
 
 //References//
 //----------//
+#include <float.h>
+#include <math.h>
 #include "NAR.h"
 #include "Stats.h"
 
-- 
2.43.0


From 2a81cda8f4d339ba761cb9bc5116cba4793bc432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 12/52] fix: reject *babblingops amounts there is no operation
 to choose from

---
 src/Shell.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 243c421..35e5d11 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -255,7 +255,10 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*babblingops=", line, strlen("*babblingops=")))
         {
-            sscanf(&line[strlen("*babblingops=")], "%d", &BABBLING_OPS);
+            int babblingOps = BABBLING_OPS;
+            sscanf(&line[strlen("*babblingops=")], "%d", &babblingOps);
+            assert(babblingOps >= 1 && babblingOps <= OPERATIONS_MAX, "The amount of babbling operations can only be between 1 and OPERATIONS_MAX!");
+            BABBLING_OPS = babblingOps;
         }
         else
         if(!strncmp("*currenttime=", line, strlen("*currenttime=")))
-- 
2.43.0


From 6456b6eeba19ce451b09275535063959473cccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 13/52] fix: an absent atom has no value, instead of ending the
 program

---
 src/Narsese.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index bf5a989..ff211b0 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -853,8 +853,7 @@ void Narsese_setAtomValue(Atom atom, double value, char* measurementName)
 
 bool Narsese_hasAtomValue(Atom atom)
 {
-    assert(atom > 0, "Narsese_hasAtomValue: Atom was zero");
-    return Narsese_atomHasValue[(int) atom-1];
+    return atom > 0 && Narsese_atomHasValue[(int) atom-1];
 }
 
 double Narsese_getAtomValue(Atom atom)
-- 
2.43.0


From 8098e7dfb9be44ade61f8ed7f7dea78f92041c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 14/52] fix: keep the longest accepted goal sequence within the
 component array

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..91fe092 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -161,7 +161,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     {
         return false;
     }
-    Term componentGoalsTerm[MAX_SEQUENCE_LEN+1] = {0};
+    Term componentGoalsTerm[MAX_SEQUENCE_LEN+2] = {0}; //MAX_SEQUENCE_LEN+1 components before the last one
     Term cur_seq = selectedGoal->term;
     int i=0;
     for(; Narsese_copulaEquals(cur_seq.atoms[0], SEQUENCE); i++)
-- 
2.43.0


From 206281fc1c972c52b5190a52d6dedaefdd0c50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 15/52] fix: revision of truth values without any evidence is
 not NaN

---
 src/Inference.c | 2 +-
 src/Truth.c     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Inference.c b/src/Inference.c
index 9eb6c64..1688f2f 100755
--- a/src/Inference.c
+++ b/src/Inference.c
@@ -33,7 +33,7 @@
                 
 static double weighted_average(double a1, double a2, double w1, double w2)
 {
-    return (a1*w1+a2*w2)/(w1+w2);
+    return w1+w2 == 0.0 ? (a1+a2)/2.0 : (a1*w1+a2*w2)/(w1+w2);
 }
                 
 //{Event a., Event b.} |- Event (&/,a,b).
diff --git a/src/Truth.c b/src/Truth.c
index 1c06343..e9a3f39 100755
--- a/src/Truth.c
+++ b/src/Truth.c
@@ -61,6 +61,11 @@ Truth Truth_Revision(Truth v1, Truth v2)
             return v2;
         }
     }
+    //no evidence on either side, there is nothing to weight by
+    if(w == 0.0)
+    {
+        return (Truth) { .frequency = (f1 + f2) / 2.0, .confidence = 0.0 };
+    }
     //else normal revision
     return (Truth) { .frequency = MIN(1.0, (w1 * f1 + w2 * f2) / w), 
                      .confidence = MIN(MAX_CONFIDENCE, MAX(MAX(Truth_w2c(w), c1), c2)) };
-- 
2.43.0


From feaeba98b351ec5c9ae53bb1690d957dad7a529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 16/52] fix: do not substitute variables again inside of the
 terms a substitution inserted

---
 src/Variable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..51565f3 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -130,6 +130,7 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
 {
     assert(substitution.success, "A substitution from unsuccessful unification cannot be used to substitute variables!");
     *success = true;
+    Term result = general; //variables within the inserted terms are not to be substituted again
     for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
     {
         Atom general_atom = general.atoms[i];
@@ -137,13 +138,13 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
         assert(!is_variable || general_atom <= 27, "Variable_ApplySubstitute: Problematic variable encountered, only $1-$9, #1-#9 and ?1-?9 are allowed!");
         if(is_variable && substitution.map[(int) general_atom].atoms[0] != 0)
         {
-            if(!Term_OverrideSubterm(&general, i, &substitution.map[(int) general_atom]))
+            if(!Term_OverrideSubterm(&result, i, &substitution.map[(int) general_atom]))
             {
                 *success = false;
             }
         }
     }
-    return general;
+    return result;
 }
 
 //Search for variables which appear twice extensionally, if also appearing in the right side of the implication
-- 
2.43.0


From 8843b542991be9fe2c264b6e669fc8e8a894789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 17/52] fix: variable normalization does not capture already
 renamed variables

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 51565f3..65f2aef 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -447,7 +447,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From 691ad5acf2c545f9e7b74429b80f8335908a68a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 18/52] fix: do not look for a right child beyond the end of
 the term

---
 src/NAL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAL.c b/src/NAL.c
index 1fdf724..2cb22b9 100755
--- a/src/NAL.c
+++ b/src/NAL.c
@@ -280,7 +280,7 @@ static bool NAL_JunctionNotRightNested(Term *conclusionTerm)
         if(Narsese_copulaEquals(conclusionTerm->atoms[i], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i], DISJUNCTION))
         {
             int i_right_child = ((i+1)*2+1)-1;
-            if(i < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
+            if(i_right_child < COMPOUND_TERM_SIZE_MAX && (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
             {
                 return true;
             }
-- 
2.43.0


From 7b5ae6838f16f29e941a0769135f9085938f6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 19/52] fix: hash table deletion never removes an item with a
 different key

---
 src/HashTable.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/HashTable.c b/src/HashTable.c
index b11cffd..97dec91 100755
--- a/src/HashTable.c
+++ b/src/HashTable.c
@@ -82,14 +82,7 @@ void HashTable_Delete(HashTable *hashtable, void *key)
     HASH_TYPE keyhash = hashtable->hash(key) % hashtable->buckets;
     VMItem *item = hashtable->HT[keyhash];
     VMItem *previous = NULL;
-    //If there is only one item set HT[keyhash] to NULL and push back the VMItem to stack for recycling
-    if(item->next == NULL)
-    {
-        hashtable->HT[keyhash] = NULL;
-        Stack_Push(&hashtable->VMStack, item);
-        return;
-    }
-    //If there is more than 1 item, we have to remove the item from chain, relinking previous to next
+    //Remove the item from chain, relinking previous to next and pushing back the VMItem to stack for recycling
     for(; item!=NULL; previous=item, item=item->next)
     {
         //item found?
-- 
2.43.0


From 132db7964583db9705b8213b0306ae4987658a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 20/52] fix: keep the min-max heap property when popping an
 item in the middle

---
 src/PriorityQueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PriorityQueue.c b/src/PriorityQueue.c
index 29e1010..7b76e06 100755
--- a/src/PriorityQueue.c
+++ b/src/PriorityQueue.c
@@ -243,7 +243,11 @@ bool PriorityQueue_PopAt(PriorityQueue *queue, int i, void** returnItemAddress)
     Item item = at(i);
     swap(queue, i, queue->itemsAmount-1); 
     queue->itemsAmount--;
-    trickleDown(queue, i, true); //enforce minmax heap property
+    if(i < queue->itemsAmount)
+    {
+        bubbleUp(queue, i); //enforce minmax heap property, the last item can come from another branch
+        trickleDown(queue, i, isOnMaxLevel(i));
+    }
     if(returnItemAddress != NULL)
     {
         *returnItemAddress = item.address; 
-- 
2.43.0


From 0d98652467ef81fe458cc0cf2939bbcd7bace962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 21/52] fix: reject atoms the atom type cannot number anymore

---
 src/Narsese.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index ff211b0..f0ec08a 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -309,7 +309,7 @@ int Narsese_AtomicTermIndex(char *name)
     }
     if(ret_index == -1)
     {
-        assert(term_index < ATOMS_MAX, "Too many terms for NAR");
+        assert(term_index < ATOMS_MAX && (Atom) (term_index+1) == term_index+1, "Too many terms for NAR");
         ret_index = term_index+1;
         strncpy(Narsese_atomNames[term_index], name, ATOMIC_TERM_LEN_MAX-1);
         HashTable_Set(&HTatoms, (void*) Narsese_atomNames[term_index], (void*) ret_index);
-- 
2.43.0


From 1e915d724e8d53ae870250aac39fffeaea5cde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 22/52] fix: questions and *concepts cover the implications of
 the last operation too

---
 src/NAR.c   | 2 +-
 src/Shell.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index eed471f..286500a 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -189,7 +189,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
diff --git a/src/Shell.c b/src/Shell.c
index 35e5d11..665b120 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -205,7 +205,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From 467babb6b78e0b3901efd3c3d48b77750549fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 23/52] fix: no decision is made without a reason when the
 decision threshold is zero

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..3435e25 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -540,7 +540,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
             }
         }
     }
-    if(decision.desire < DECISION_THRESHOLD)
+    if(decision.reason == NULL || decision.desire < DECISION_THRESHOLD)
     {
         return (Decision) {0}; 
     }
-- 
2.43.0


From 3ad6b333d198bec9d9162d6ce15a8584b2c35caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 24/52] fix: negative outcomes are not judged by concepts which
 replaced a forgotten precondition

---
 src/Decision.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 3435e25..cd867d9 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -318,6 +318,10 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
             for(int j=0; j<c->precondition_beliefs[decision.operationID[0]].itemsAmount; j++)
             {
                 Implication imp = c->precondition_beliefs[decision.operationID[0]].array[j];
+                if(!Memory_ImplicationValid(&imp))
+                {
+                    continue;
+                }
                 Concept *prec = imp.sourceConcept;
                 if(prec->belief_spike.type != EVENT_TYPE_DELETED && currentTime - prec->belief_spike.occurrenceTime < EVENT_BELIEF_DISTANCE)
                 {
-- 
2.43.0


From 60256d44a9f62e34fe8639f7cbe5567d50d000cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 25/52] fix: term equality does not depend on struct padding

---
 src/Term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Term.c b/src/Term.c
index 65eed76..c2f589c 100755
--- a/src/Term.c
+++ b/src/Term.c
@@ -28,7 +28,7 @@ bool Term_Equal(Term *a, Term *b)
 {
     if(Term_Hash(a) == Term_Hash(b))
     {
-        return memcmp(a, b, sizeof(Term)) == 0;
+        return memcmp(a->atoms, b->atoms, TERM_ATOMS_SIZE) == 0; //not the padding of the struct
     }
     else
     {
-- 
2.43.0


From 03a863a0d781d6b30463849c9260e8317d7e2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 26/52] fix: reject times and evidence ids which collide with
 reserved values or overflow

---
 src/Shell.c | 11 +++++++++--
 src/Shell.h |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 665b120..f94272d 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -263,12 +263,18 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*currenttime=", line, strlen("*currenttime=")))
         {
-            sscanf(&line[strlen("*currenttime=")], "%ld", &currentTime);
+            long time = currentTime;
+            sscanf(&line[strlen("*currenttime=")], "%ld", &time);
+            assert(time >= 0 && time <= LONG_MAX/4, "Time out of bounds!");
+            currentTime = time;
         }
         else
         if(!strncmp("*stampid=", line, strlen("*stampid=")))
         {
-            sscanf(&line[strlen("*stampid=")], "%ld", &base);
+            long stampid = base;
+            sscanf(&line[strlen("*stampid=")], "%ld", &stampid);
+            assert(stampid >= 1 && stampid <= LONG_MAX/4, "Evidential base id out of bounds!");
+            base = stampid;
         }
         else
         if(!strncmp("*stampimport=[", line, strlen("*stampimport=[")))
@@ -428,6 +434,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*concurrent", line, strlen("*concurrent")))
         {
+            assert(currentTime > 0, "Time can't go back any further!");
             currentTime-=1;
         }
         else
diff --git a/src/Shell.h b/src/Shell.h
index 5766d0f..54d7b21 100755
--- a/src/Shell.h
+++ b/src/Shell.h
@@ -41,6 +41,7 @@
 //References//
 //----------//
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include "NAR.h"
 #include "Stats.h"
-- 
2.43.0


From 19bc6d2ddc2d9dd291aa7ed144fb2c713dfc9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 27/52] fix: no division by zero at time zero

---
 src/Cycle.c | 2 +-
 src/Stats.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 91fe092..4fdded3 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -705,7 +705,7 @@ void Cycle_Inference(long currentTime)
             long countConceptsMatchedNew = 0;
             //Adjust dynamic firing threshold: (proportional "self"-control)
             double conceptPriorityThresholdCurrent = conceptPriorityThreshold;
-            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
             double set_point = BELIEF_CONCEPT_MATCH_TARGET;
             double process_value = countConceptsMatchedAverage; 
             double error = process_value - set_point;
diff --git a/src/Stats.c b/src/Stats.c
index 529ae3d..29e4e2a 100755
--- a/src/Stats.c
+++ b/src/Stats.c
@@ -60,7 +60,7 @@ void Stats_Print(long currentTime)
     puts("Statistics\n----------");
     printf("countConceptsMatchedTotal:\t%ld\n", Stats_countConceptsMatchedTotal);
     printf("countConceptsMatchedMax:\t%ld\n", Stats_countConceptsMatchedMax);
-    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
     printf("countConceptsMatchedAverage:\t%ld\n", countConceptsMatchedAverage);
     printf("currentTime:\t\t\t%ld\n", currentTime);
     printf("total concepts:\t\t\t%d\n", concepts.itemsAmount);
-- 
2.43.0


From 626644feaab729d41235d29eb29bcfacd4ef5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 28/52] fix: reject step counts which do not fit instead of
 performing a different amount

---
 src/Shell.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index f94272d..b63e943 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -425,8 +425,9 @@ int Shell_ProcessInput(char *line)
         else
         if(strspn(line, "0123456789") && strlen(line) == strspn(line, "0123456789"))
         {
-            unsigned int steps;
-            sscanf(line, "%u", &steps);
+            unsigned long steps_requested = strtoul(line, NULL, 10);
+            assert(steps_requested <= INT_MAX, "Too many inference steps requested!");
+            unsigned int steps = steps_requested;
             printf("performing %u inference steps:\n", steps); fflush(stdout);
             NAR_Cycles(steps);
             printf("done with %u additional inference steps.\n", steps); fflush(stdout);
-- 
2.43.0


From 419f57519d763ffdc02a9940e05fa094548347fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 29/52] fix: a reset also clears the matching statistics and a
 pending imported stamp

---
 src/Cycle.c | 2 ++
 src/Event.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index 4fdded3..fa831da 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -50,6 +50,8 @@ void Cycle_INIT()
     conceptProcessID = 0;
     conceptProcessID2 = 0;
     conceptProcessID3 = 0;
+    Stats_countConceptsMatchedTotal = 0; //the firing threshold adaptation is relative to the time, which starts again as well
+    Stats_countConceptsMatchedMax = 0;
 }
 
 //doing inference within the matched concept, returning whether decisionMaking should continue
diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From ad5ec9e56b3fa96ab373d51dc81993d7eb79a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 30/52] fix: UDPNAR time steps of a second and more are waited
 for

---
 src/NetworkNAR/UDPNAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..99405cd 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -43,7 +43,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
         pthread_mutex_unlock(&nar_mutex);
         if(timestep >= 0)
         {
-            nanosleep((struct timespec[]){{0, timestep}}, NULL); //POSIX sleep for timestep nanoseconds
+            nanosleep((struct timespec[]){{timestep / 1000000000L, timestep % 1000000000L}}, NULL); //POSIX sleep for timestep nanoseconds
         }
     }
     return NULL;
-- 
2.43.0


From c514bb1f11af4d2ef99c94d8c854f5a636d1fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 31/52] fix: received datagrams are zero terminated

---
 src/NetworkNAR/UDP.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDP.c b/src/NetworkNAR/UDP.c
index 70c3749..9c4d240 100755
--- a/src/NetworkNAR/UDP.c
+++ b/src/NetworkNAR/UDP.c
@@ -45,7 +45,8 @@ void UDP_ReceiveData(int sockfd, char *buffer, int buffersize)
 {
     struct sockaddr_in address_other;
     socklen_t addr_size = sizeof(address_other);
-    recvfrom(sockfd, buffer, buffersize, 0, (struct sockaddr*)& address_other, &addr_size);
+    ssize_t received = recvfrom(sockfd, buffer, buffersize-1, 0, (struct sockaddr*)& address_other, &addr_size);
+    buffer[received > 0 ? received : 0] = 0; //datagrams don't have to be zero terminated
     IN_DEBUG( printf("//UDP Data received: %s\n", buffer); )
 }
 
-- 
2.43.0


From b252264ea25354b9e318aa1fa9dcaa76d8e9393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 32/52] fix: UDPNAR threads read their arguments before the
 start function returns

---
 src/NetworkNAR/UDPNAR.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 99405cd..6916f48 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -31,10 +31,10 @@ pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 
 void* Reasoner_Thread_Run(void* timestep_address)
 {
+    long timestep = *((long*) timestep_address); //needs to be read before UDPNAR_Start is allowed to return
     pthread_mutex_lock(&start_mutex);
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
-    long timestep = *((long*) timestep_address);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
     while(!Stopped)
     {
@@ -51,10 +51,10 @@ void* Reasoner_Thread_Run(void* timestep_address)
 
 void* Receive_Thread_Run(void *sockfd_address)
 {
+    int sockfd = *((int*) sockfd_address);
     pthread_mutex_lock(&start_mutex);
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
-    int sockfd = *((int*) sockfd_address);
     for(;;)
     {
         char buffer[NARSESE_LEN_MAX];
-- 
2.43.0


From 047a53959f826839e351bd4118840633309aed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 33/52] fix: no data race on the stop flag of UDPNAR

---
 src/NetworkNAR/UDPNAR.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 6916f48..7fbaadd 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -24,11 +24,27 @@
 
 #include "UDPNAR.h"
 
-volatile bool Stopped = false;
+static bool Stopped = false; //only accessed with stop_mutex locked
+pthread_mutex_t stop_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_cond_t start_cond = PTHREAD_COND_INITIALIZER;
 pthread_mutex_t start_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 
+static bool UDPNAR_IsStopped()
+{
+    pthread_mutex_lock(&stop_mutex);
+    bool ret = Stopped;
+    pthread_mutex_unlock(&stop_mutex);
+    return ret;
+}
+
+static void UDPNAR_SetStopped(bool stopped)
+{
+    pthread_mutex_lock(&stop_mutex);
+    Stopped = stopped;
+    pthread_mutex_unlock(&stop_mutex);
+}
+
 void* Reasoner_Thread_Run(void* timestep_address)
 {
     long timestep = *((long*) timestep_address); //needs to be read before UDPNAR_Start is allowed to return
@@ -36,7 +52,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
-    while(!Stopped)
+    while(!UDPNAR_IsStopped())
     {
         pthread_mutex_lock(&nar_mutex);
         NAR_Cycles(1);
@@ -59,7 +75,7 @@ void* Receive_Thread_Run(void *sockfd_address)
     {
         char buffer[NARSESE_LEN_MAX];
         UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX);
-        if(Stopped) //avoids problematic buffer states due to socket shutdown, most portable solution!
+        if(UDPNAR_IsStopped()) //avoids problematic buffer states due to socket shutdown, most portable solution!
         {
             break;
         }
@@ -100,7 +116,7 @@ void UDPNAR_Start(char *ip, int port, long timestep)
 void UDPNAR_Stop()
 {
     assert(Started, "UDPNAR not started, call UDPNAR_Start first!");
-    Stopped = true;
+    UDPNAR_SetStopped(true);
     shutdown(receiver_sockfd, SHUT_RDWR); //sufficient on Linux to get out of blocking ops on socket, insufficient on Mac
     close(receiver_sockfd); //sufficient on Mac to get out of blocking ops on socket, insufficient on Linux (hence, use both!)
     pthread_join(thread_reasoner, NULL);
-- 
2.43.0


From 87d393ba881d7463135f7f331015df990fb9bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 34/52] fix: UDPNAR can be started again after it was stopped

---
 src/NetworkNAR/UDPNAR.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 7fbaadd..a8da068 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -95,7 +95,8 @@ bool Started = false;
 int receiver_sockfd; 
 void UDPNAR_Start(char *ip, int port, long timestep)
 {
-    assert(!Stopped, "UDPNAR was already started!");
+    assert(!Started, "UDPNAR was already started!");
+    UDPNAR_SetStopped(false);
     Shell_NARInit();
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
     //Create reasoner thread and wait for its creation
@@ -121,5 +122,6 @@ void UDPNAR_Stop()
     close(receiver_sockfd); //sufficient on Mac to get out of blocking ops on socket, insufficient on Linux (hence, use both!)
     pthread_join(thread_reasoner, NULL);
     pthread_join(thread_receiver, NULL);
+    Started = false;
     Stats_Print(currentTime);
 }
-- 
2.43.0


From 8ee7e51249de8c0e12306335a52ad2fd5ce68dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 35/52] fix: reject input whose components would be dropped
 silently when parsing a term

---
 src/Narsese.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Narsese.c b/src/Narsese.c
index f0ec08a..639a1cb 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -334,6 +334,7 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     {
         int icop = i1+1;
         assert(icop < nt, "Parsing error: Compound term is not closed!");
+        assert(tokens_prefix[icop][0] != '(' && tokens_prefix[icop][0] != ')', "Parsing error: Compound term without copula!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
@@ -346,6 +347,8 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
         if(i2<nt)
         {
             buildBinaryTree(bintree, tokens_prefix, i2, tree_index*2+1, nt); //right child of tree index
+            int i3 = skipCompound(tokens_prefix, i2, nt);
+            assert(tokens_prefix[i2][0] == ')' || i3 >= nt || tokens_prefix[i3][0] == ')', "Parsing error: More than two components!");
         }
     }
     else
@@ -370,6 +373,7 @@ Term Narsese_Term(char *narsese)
     char** tokens_prefix = Narsese_PrefixTransform(narsese_expanded);
     int nt = 0; for(;tokens_prefix[nt] != NULL; nt++){}
     buildBinaryTree(&ret, tokens_prefix, 0, 1, nt);
+    assert(skipCompound(tokens_prefix, 0, nt) >= nt, "Parsing error: More input after the term!");
     Variable_Normalize(&ret);
     Term_Hash(&ret);
     return ret;
-- 
2.43.0


From eb648158df2003dc2e768ab68cb5c088bf380939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 36/52] fix: an implication is not stored under another concept
 when creating its source evicts its target

---
 src/Memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Memory.c b/src/Memory.c
index 47185b7..6b41e88 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -315,7 +315,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 sourceConceptTerm = subject;
             }
             Concept *source_concept = Memory_Conceptualize(&sourceConceptTerm, currentTime);
-            if(source_concept != NULL)
+            if(source_concept != NULL && Memory_FindConceptByTerm(&predicate) == target_concept) //creating the source concept can have evicted the target concept
             {
                 source_concept->usage = Usage_use(source_concept->usage, currentTime, eternalInput);
                 imp.sourceConceptId = source_concept->id;
-- 
2.43.0


From 9313f666660c640aa601a0a771b90f0446d0b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 37/52] fix: revision never yields less confidence than an
 input with more than MAX_CONFIDENCE

---
 src/Truth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Truth.c b/src/Truth.c
index e9a3f39..e1e8f7f 100755
--- a/src/Truth.c
+++ b/src/Truth.c
@@ -68,7 +68,7 @@ Truth Truth_Revision(Truth v1, Truth v2)
     }
     //else normal revision
     return (Truth) { .frequency = MIN(1.0, (w1 * f1 + w2 * f2) / w), 
-                     .confidence = MIN(MAX_CONFIDENCE, MAX(MAX(Truth_w2c(w), c1), c2)) };
+                     .confidence = MAX(MAX(MIN(MAX_CONFIDENCE, Truth_w2c(w)), c1), c2) };
 }
 
 Truth Truth_Deduction(Truth v1, Truth v2)
-- 
2.43.0


From 299ae46f2218671e98960bcba52dcd5734f5006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 38/52] fix: predictions are not made by implications whose
 concepts the previous predictions evicted

---
 src/Decision.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index cd867d9..038867a 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -563,6 +563,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
     for(int j=0; j<concepts.itemsAmount; j++)
     {
         Concept *postc = concepts.items[j].address;
+        long postc_id = postc->id;
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
@@ -594,9 +595,13 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                 valid_implications[k] = imp;
             }
         }
-        for(int h=0; h<k; h++)
+        for(int h=0; h<k && postc->id == postc_id; h++) //the concept creations below can evict postc
         {
             Implication imp = valid_implications[h]; //(&/,a,op) =/> b.
+            if(!Memory_ImplicationValid(&imp)) //as well as the precondition concept
+            {
+                continue;
+            }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
             if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
@@ -645,7 +650,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                             if(success2)
                             {
                                 Concept *c = Memory_Conceptualize(&result.term, currentTime);
-                                if(c != NULL && !Stamp_checkOverlap(&precondition->stamp, &imp.stamp))
+                                if(c != NULL && !Stamp_checkOverlap(&updated_precondition.stamp, &imp.stamp))
                                 {
                                     c->usage = Usage_use(c->usage, currentTime, false);
                                     if(Narsese_copulaEquals(imp.term.atoms[0], TEMPORAL_IMPLICATION))
-- 
2.43.0


From 19a2a2632a8eb85dc975eb28eb23f1cfba2f8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 39/52] fix: a precondition is not joined with an operation
 event of overlapping evidence

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index fa831da..b8624d4 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -433,7 +433,7 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                         if(!wasProcessed3 && prec->belief_spike.type != EVENT_TYPE_DELETED && prec->belief_spike.creationTime < currentTime && prec->belief_spike.occurrenceTime < opc->belief_spike.occurrenceTime &&
                            labs(prec->belief_spike.occurrenceTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE && labs(prec->lastSelectionTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE &&
                            !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], EQUIVALENCE) && !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], IMPLICATION) &&
-                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Memory_getOperationID(&prec->term))
+                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Stamp_checkOverlap(&prec->belief_spike.stamp, &opc->belief_spike.stamp) && !Memory_getOperationID(&prec->term))
                         {
                             bool success4;
                             Event seq_op_cur = Inference_BeliefIntersection(&prec->belief_spike, &opc->belief_spike, &success4);
-- 
2.43.0


From e849c53a755d76cd27febcdc410f2a660c3be1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 40/52] fix: an implication confirmed after its precondition
 was forgotten is usable again

---
 src/Memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Memory.c b/src/Memory.c
index 6b41e88..292d076 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -324,6 +324,9 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 Implication *revised = Table_AddAndRevise(Narsese_copulaEquals(event->term.atoms[0], IMPLICATION) ? &target_concept->implication_links : &target_concept->precondition_beliefs[opi], &imp);
                 if(revised != NULL)
                 {
+                    //the known entry might still refer to a precondition concept which was forgotten in the meantime
+                    revised->sourceConceptId = source_concept->id;
+                    revised->sourceConcept = source_concept;
                     bool wasRevised = revised->truth.confidence > event->truth.confidence || revised->truth.confidence == MAX_CONFIDENCE;
                     Memory_printAddedImplication(&event->stamp, &event->term, &imp.truth, event->occurrenceTimeOffset, priority, input, false, true);
                     if(wasRevised)
-- 
2.43.0


From 3383cbfa636d68f7579ea193c9ad573bd5c8d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 41/52] fix: no prediction is made from a precondition which
 occurs later than the operation (clock set back)

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 038867a..0ab6b10 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -604,7 +604,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
             }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
-            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
+            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED && precondition->occurrenceTime <= currentTime) //the clock can have been set back
             {
                 if(operationID > 0) //it's a real operation, check if the link's operation is the same
                 {
-- 
2.43.0


From c528ac3a122ba0e48655389b2bab6cc944b715e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 42/52] fix: anticipation considers every hypothesis once, also
 when its predictions create concepts

---
 src/Decision.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index 0ab6b10..916ad21 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -560,10 +560,23 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
 void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long currentTime)
 {
     assert(operationID >= 0 && operationID <= OPERATIONS_MAX, "Wrong operation id, did you inject an event manually?");
-    for(int j=0; j<concepts.itemsAmount; j++)
+    //the concept creations below change the order of the concepts queue, so go through the concepts as they are now
+    static Concept *postconditions[CONCEPTS_MAX];
+    static long postcondition_ids[CONCEPTS_MAX];
+    int postconditions_amount = concepts.itemsAmount;
+    for(int j=0; j<postconditions_amount; j++)
     {
-        Concept *postc = concepts.items[j].address;
-        long postc_id = postc->id;
+        postconditions[j] = concepts.items[j].address;
+        postcondition_ids[j] = postconditions[j]->id;
+    }
+    for(int j=0; j<postconditions_amount; j++)
+    {
+        Concept *postc = postconditions[j];
+        long postc_id = postcondition_ids[j];
+        if(postc->id != postc_id) //evicted by the creation of another one
+        {
+            continue;
+        }
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
-- 
2.43.0


From 1813d8fdd47f9d14f9b34881c53269e1b22b154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 43/52] fix: a question about an implication also considers the
 belief of the implication's own concept

---
 src/NAR.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index 286500a..6de64ab 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -159,11 +159,8 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             if(Narsese_copulaEquals(term.atoms[0], IMPLICATION))
             {
                 Term toCompare2 = Term_ExtractSubterm(&term, 2);
-                if(!Variable_Unify2(unused, &toCompare2, &c->term, true).success)
-                {
-                    goto Continue;
-                }
-                for(int j=0; j<c->implication_links.itemsAmount; j++)
+                bool matchesPredicate = Variable_Unify2(unused, &toCompare2, &c->term, true).success; //if not, c can still be the concept of the implication
+                for(int j=0; matchesPredicate && j<c->implication_links.itemsAmount; j++)
                 {
                     Implication *imp = &c->implication_links.array[j];
                     if(!Variable_Unify2(unused, &term, &imp->term, true).success)
-- 
2.43.0


From 7db196cf413d47e3e066cf64ccbe8bdb5e9db801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 44/52] fix: a tensed question about an implication compares
 projected truth, and answers with the occurrence time of the answer

---
 src/NAR.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index 6de64ab..0f37961 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -169,13 +169,16 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
                     }
                     if(queryCommand && Truth_Expectation(imp->truth) > answerTruthExpThreshold)
                     {
-                        NAR_PrintAnswer(imp->stamp, imp->term, imp->truth, answerOccurrenceTime, imp->creationTime);
+                        NAR_PrintAnswer(imp->stamp, imp->term, imp->truth, OCCURRENCE_ETERNAL, imp->creationTime);
                     }
-                    if(Truth_Expectation(imp->truth) >= Truth_Expectation(best_truth))
+                    if(Truth_Expectation(imp->truth) >= Truth_Expectation(tense ? best_truth_projected : best_truth)) //eternal, so it holds to the same degree at any time
                     {
                         best_stamp = imp->stamp;
                         best_truth = imp->truth;
+                        best_truth_projected = imp->truth;
                         best_term = imp->term;
+                        best_belief_concept = NULL;
+                        answerOccurrenceTime = OCCURRENCE_ETERNAL;
                         answerCreationTime = imp->creationTime;
                     }
                 }
-- 
2.43.0


From f6c64e0f7c9875805584c12023de9191a571c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 45/52] fix: anticipation creates no concept in restricted mode
 either

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 916ad21..df798c1 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -662,7 +662,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                             result.term = Variable_ApplySubstitute(result.term, subs, &success2);
                             if(success2)
                             {
-                                Concept *c = Memory_Conceptualize(&result.term, currentTime);
+                                Concept *c = RESTRICTED_CONCEPT_CREATION ? Memory_FindConceptByTerm(&result.term) : Memory_Conceptualize(&result.term, currentTime);
                                 if(c != NULL && !Stamp_checkOverlap(&updated_precondition.stamp, &imp.stamp))
                                 {
                                     c->usage = Usage_use(c->usage, currentTime, false);
-- 
2.43.0


From 328a6f24ca8b8c277310c1e5a9fcfc8ff2977808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 46/52] fix: wait for the server threads' start with a
 predicate, as the wait can return without a signal

---
 src/NetworkNAR/UDPNAR.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index a8da068..60366a4 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -29,6 +29,7 @@ pthread_mutex_t stop_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_cond_t start_cond = PTHREAD_COND_INITIALIZER;
 pthread_mutex_t start_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
+static bool thread_started = false; //only accessed with start_mutex locked
 
 static bool UDPNAR_IsStopped()
 {
@@ -49,6 +50,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
 {
     long timestep = *((long*) timestep_address); //needs to be read before UDPNAR_Start is allowed to return
     pthread_mutex_lock(&start_mutex);
+    thread_started = true;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
@@ -69,6 +71,7 @@ void* Receive_Thread_Run(void *sockfd_address)
 {
     int sockfd = *((int*) sockfd_address);
     pthread_mutex_lock(&start_mutex);
+    thread_started = true;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     for(;;)
@@ -101,13 +104,21 @@ void UDPNAR_Start(char *ip, int port, long timestep)
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
     //Create reasoner thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
+    thread_started = false;
     pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &timestep);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(!thread_started) //the wait can also return without a signal
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     //Create receive thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
+    thread_started = false;
     pthread_create(&thread_receiver, NULL, Receive_Thread_Run, &receiver_sockfd);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(!thread_started) //the wait can also return without a signal
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     puts("//UDPNAR started!");
     fflush(stdout);
-- 
2.43.0


From 49c5e1422af8099cac999fa06ffeef22986b7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 47/52] fix: respect printDerivations when starting the UDP
 server

---
 src/NetworkNAR/UDPNAR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 60366a4..5b2a69c 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -100,7 +100,9 @@ void UDPNAR_Start(char *ip, int port, long timestep)
 {
     assert(!Started, "UDPNAR was already started!");
     UDPNAR_SetStopped(false);
+    bool printDerivations = PRINT_DERIVATIONS; //set by the caller, while Shell_NARInit enables it for the shell
     Shell_NARInit();
+    PRINT_DERIVATIONS = printDerivations;
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
     //Create reasoner thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
-- 
2.43.0


From a77900513d0b909fcc60796872219cff44f145a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 48/52] fix: strip the newline from operation result products
 read from stdin

---
 src/Decision.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Decision.c b/src/Decision.c
index df798c1..c15b404 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -228,6 +228,7 @@ void Decision_Execute(long currentTime, Decision *decision)
             {
                 return;
             }
+            line[strcspn(line, "\n")] = 0; //the newline does not belong to the term
             Term specific_args = Narsese_Term(line);
             Term argpart = Term_ExtractSubterm(&decision->arguments[i], 2);
             feedback.subs = Variable_Unify(&argpart, &specific_args);
-- 
2.43.0


From 566f161a1045449e574cce5c11e0a9085c97538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 49/52] fix: recognize /2 image predicates in the term filter

---
 src/NAL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAL.c b/src/NAL.c
index 2cb22b9..a2e6285 100755
--- a/src/NAL.c
+++ b/src/NAL.c
@@ -238,7 +238,7 @@ static bool NAL_HOLStatementComponentHasInvalidInhOrSim(Term *conclusionTerm, bo
             return true;
         }
         bool SubjectIsImage =   Narsese_copulaEquals(  subject.atoms[0], INT_IMAGE1) || Narsese_copulaEquals(subject.atoms[0], INT_IMAGE2);
-        bool PredicateIsImage = Narsese_copulaEquals(predicate.atoms[0], EXT_IMAGE1) || Narsese_copulaEquals(subject.atoms[0], EXT_IMAGE2);
+        bool PredicateIsImage = Narsese_copulaEquals(predicate.atoms[0], EXT_IMAGE1) || Narsese_copulaEquals(predicate.atoms[0], EXT_IMAGE2);
         if(TERMS_WITH_VARS_AND_ATOMS_FILTER && !SubjectIsImage && !PredicateIsImage && !Narsese_copulaEquals(subject.atoms[0],   SET_ELEMT) && !Narsese_copulaEquals(predicate.atoms[0], SET_ELEMT) &&
            ((Variable_hasVariable(&subject,   true, true, false) && Narsese_HasSimpleAtom(&subject)) ||
             (Variable_hasVariable(&predicate, true, true, false) && Narsese_HasSimpleAtom(&predicate))))
-- 
2.43.0


From 034b7dc221886383d2026c5239c69d888e96bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:22 +0000
Subject: [PATCH 50/52] fix: reject motor babbling chances out of range

---
 src/Shell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index b63e943..875058b 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -313,7 +313,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*motorbabbling=", line, strlen("*motorbabbling=")))
         {
-            sscanf(&line[strlen("*motorbabbling=")], "%lf", &MOTOR_BABBLING_CHANCE);
+            Shell_SetParameter(&line[strlen("*motorbabbling=")], &MOTOR_BABBLING_CHANCE, 0.0, 1.0);
         }
         else
         if(!strncmp("*questionpriming=", line, strlen("*questionpriming=")))
-- 
2.43.0


From c9eac3d6e4ee674c73fbb9ab33c462fdb095c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:16 +0000
Subject: [PATCH 51/52] fix: compare the occurrence times of sequence goal
 components without truncation

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index b8624d4..caaa821 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -174,7 +174,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     }
     componentGoalsTerm[i] = cur_seq; //the last element at this point
     //2. Find first subgoal which isn't fulfilled
-    int lastComponentOccurrenceTime = -1;
+    long lastComponentOccurrenceTime = -1;
     Event newGoal = Inference_EventUpdate(selectedGoal, currentTime);
     int j=i;
     for(; j>=0; j--)
-- 
2.43.0


From aed695b6c2c71143ed7f64522f9cd6636ff1844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:12 +0000
Subject: [PATCH 52/52] fix: let the converter of printed input pass on
 questions, which have no truth value

---
 misc/Python/printed_narsese_to_input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/Python/printed_narsese_to_input.py b/misc/Python/printed_narsese_to_input.py
index 2cb10a0..e2f62d2 100644
--- a/misc/Python/printed_narsese_to_input.py
+++ b/misc/Python/printed_narsese_to_input.py
@@ -46,6 +46,9 @@ while True:
     if not s.startswith("Input: "):
         continue
     s = s.split("Input: ")[1]
+    if "frequency=" not in s: #a question has no truth value
+        print(s)
+        continue
     frequency = s.split("frequency=")[1].split(",")[0]
     confidence = floatPart(s.split("confidence=")[1])
     s = s.split(" occurrenceTime")[0].split(" Priority")[0]
-- 
2.43.0

