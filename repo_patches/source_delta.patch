From 86e95614e9302854e9c1c15ee4d6130b72a054de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 01/11] fix: Variable_Normalize no longer renames already
 renamed positions (variable capture)

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..5c07fe9 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -446,7 +446,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(atom == atom2 && !normalized[k])
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From d42fb59d7131ce343df48cae0c746f7f01801c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 02/11] fix: the equivalence copula is not a simple atom
 (variables were introduced in its place)

---
 src/Narsese.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..fc5e4ef 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -783,7 +783,7 @@ Term Narsese_GetPreconditionWithoutOp(Term *precondition)
 
 bool Narsese_IsSimpleAtom(Atom atom)
 {
-    return atom > 0 && (Narsese_atomNames[(int) atom - 1][0] == '^' ||
+    return atom > 0 && ((Narsese_atomNames[(int) atom - 1][0] == '^' && Narsese_atomNames[(int) atom - 1][1] != 0) || //operator, but not the equivalence copula
            (Narsese_atomNames[(int) atom - 1][0] >= 'a' && Narsese_atomNames[(int) atom - 1][0] <= 'z') ||
            (Narsese_atomNames[(int) atom - 1][0] >= 'A' && Narsese_atomNames[(int) atom - 1][0] <= 'Z') ||
            (Narsese_atomNames[(int) atom - 1][0] >= '0' && Narsese_atomNames[(int) atom - 1][0] <= '9'));
-- 
2.43.0


From aaca3336b35d61135c73fc0ce4c095a656f7ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 03/11] fix: keep 64-bit occurrence times when checking the
 order of fulfilled sequence goals

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..b8b0377 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -172,7 +172,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     }
     componentGoalsTerm[i] = cur_seq; //the last element at this point
     //2. Find first subgoal which isn't fulfilled
-    int lastComponentOccurrenceTime = -1;
+    long lastComponentOccurrenceTime = -1;
     Event newGoal = Inference_EventUpdate(selectedGoal, currentTime);
     int j=i;
     for(; j>=0; j--)
-- 
2.43.0


From 6979d02df7ce874be127e40fbbca0884a1e43739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 04/11] fix: abduction on the components of an intensional
 relation takes its frequency from the relation premise

---
 src/NAL.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NAL.h b/src/NAL.h
index 7418f9a..5080c69 100755
--- a/src/NAL.h
+++ b/src/NAL.h
@@ -154,10 +154,10 @@ R2( ((A * B) --> R), (C --> B), |-, ((A * C) --> R), Truth_Deduction )
 R2( ((A * B) --> R), (B --> C), |-, ((A * C) --> R), Truth_Induction )
 R2( ((A * B) --> R), (C <-> B), |-, ((A * C) --> R), Truth_Analogy )
 R2( (R --> (A * B)), (A --> C), |-, (R --> (C * B)), Truth_Deduction )
-R2( (R --> (A * B)), (C --> A), |-, (R --> (C * B)), Truth_Abduction )
+R2( (R --> (A * B)), (C --> A), |-, (R --> (C * B)), Truth_Induction )
 R2( (R --> (A * B)), (C <-> A), |-, (R --> (C * B)), Truth_Analogy )
 R2( (R --> (A * B)), (B --> C), |-, (R --> (A * C)), Truth_Deduction )
-R2( (R --> (A * B)), (C --> B), |-, (R --> (A * C)), Truth_Abduction )
+R2( (R --> (A * B)), (C --> B), |-, (R --> (A * C)), Truth_Induction )
 R2( (R --> (A * B)), (C <-> B), |-, (R --> (A * C)), Truth_Analogy )
 R2( ((A * B) --> R), ((C * B) --> R), |-, (A <-> C), Truth_Comparison )
 R2( ((A * B) --> R), ((A * C) --> R), |-, (B <-> C), Truth_Comparison )
-- 
2.43.0


From 9b3b10b449d10507cdf63ceb02ea38aca0e94d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 05/11] fix: answer questions about implications with the last
 registered operation too

---
 src/NAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..1d58e64 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -187,7 +187,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
-- 
2.43.0


From d244b18d1ab7103ba5ce793d380f0a8720c8bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 06/11] fix: reset also forgets a pending imported stamp

---
 src/Event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From 843d7d82af48ebf264d27ff5ed2d7cc0f29b6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 07/11] fix: refuse malformed Narsese instead of accessing
 memory out of bounds (nesting, brackets, empty terms, truth value, dt, atom
 capacity)

---
 src/Narsese.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index fc5e4ef..7c35efc 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,8 +247,8 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[2*NARSESE_LEN_MAX+1]; //there cannot be more than two tokens per char, as [ and { become an opener and a set copula
+    memset(tokens, 0, (2*NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
@@ -309,7 +309,7 @@ int Narsese_AtomicTermIndex(char *name)
     }
     if(ret_index == -1)
     {
-        assert(term_index < ATOMS_MAX, "Too many terms for NAR");
+        assert(term_index+1 < ATOMS_MAX, "Too many terms for NAR"); //the index is term_index+1, as 0 is no atom
         ret_index = term_index+1;
         strncpy(Narsese_atomNames[term_index], name, ATOMIC_TERM_LEN_MAX-1);
         HashTable_Set(&HTatoms, (void*) Narsese_atomNames[term_index], (void*) ret_index);
@@ -328,9 +328,11 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
+        assert(icop < nt, "Parsing error: Compound without content!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
@@ -347,7 +349,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
@@ -367,6 +368,7 @@ Term Narsese_Term(char *narsese)
     char *narsese_expanded = Narsese_Expand(narsese);
     char** tokens_prefix = Narsese_PrefixTransform(narsese_expanded);
     int nt = 0; for(;tokens_prefix[nt] != NULL; nt++){}
+    assert(nt > 0, "Parsing error: Empty term!");
     buildBinaryTree(&ret, tokens_prefix, 0, 1, nt);
     Variable_Normalize(&ret);
     Term_Hash(&ret);
@@ -378,18 +380,18 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
+    char dt[30] = {0};
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
         for(unsigned int i=0; i<strlen(narsese); i++)
         {
             if(i>=3)
             {
+                assert(i-3 < sizeof(dt)-1, "Parsing error: Time offset too long!");
                 dt[i-3] = narsese[i];
             }
             if(narsese[i] == ' ')
             {
-                dt[i] = 0;
                 narsese = &narsese[i];
                 break;
             }
@@ -415,6 +417,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
+        assert(openingIdx >= 1, "Parsing error: Truth value opener not found!");
         assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
         double conf, freq;
         if(oldFormat && !hasComma)
@@ -441,6 +444,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len >= punctuation_offset, "Parsing error: Punctuation missing!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From dfc989cd47b12c253ad27725be7c4c991973aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 08/11] fix: sentences with unreadable or inadmissible truth
 values are refused, confidence is limited to MAX_CONFIDENCE

---
 src/Narsese.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 7c35efc..e254664 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -420,17 +420,19 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         assert(openingIdx >= 1, "Parsing error: Truth value opener not found!");
         assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
         double conf, freq;
+        int scanned;
         if(oldFormat && !hasComma)
         {
             conf = NAR_DEFAULT_CONFIDENCE;
-            sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
+            scanned = 1 + sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
         }
         else
         {
-            sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
+            scanned = sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
         }
+        assert(scanned == 2 && freq >= 0.0 && freq <= 1.0 && conf >= 0.0 && conf <= 1.0, "Parsing error: Truth value has to consist of frequency and confidence between 0 and 1!");
         destTv->frequency = freq;
-        destTv->confidence = conf;
+        destTv->confidence = MIN(MAX_CONFIDENCE, conf);
         assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
         narseseInplace[openingIdx-1] = 0; //cut it away for further parsing of term
     }
-- 
2.43.0


From fa24a7caede62908f1fc7772707e5826cf83e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 09/11] fix: printing a term omitted the subterm at the deepest
 position

---
 src/Narsese.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index e254664..894d9f3 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -557,8 +557,8 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
     }
     int child1 = index*2;
     int child2 = index*2+1;
-    bool hasLeftChild = child1 < COMPOUND_TERM_SIZE_MAX && term->atoms[child1-1];
-    bool hasRightChild = child2 < COMPOUND_TERM_SIZE_MAX && term->atoms[child2-1] && !Narsese_copulaEquals(term->atoms[child2-1], SET_TERMINATOR);
+    bool hasLeftChild = child1 <= COMPOUND_TERM_SIZE_MAX && term->atoms[child1-1];
+    bool hasRightChild = child2 <= COMPOUND_TERM_SIZE_MAX && term->atoms[child2-1] && !Narsese_copulaEquals(term->atoms[child2-1], SET_TERMINATOR);
     bool isSingularProduct = Narsese_copulaEquals(atom, PRODUCT) && !hasRightChild;
     bool isNegation = Narsese_copulaEquals(atom, NEGATION);
     bool isFrequencyGreater = Narsese_copulaEquals(atom, SEQUENCE) && !hasRightChild;
@@ -602,7 +602,7 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
             fputs(" ", stdout);
         }
     }
-    if(child1 < COMPOUND_TERM_SIZE_MAX)
+    if(child1 <= COMPOUND_TERM_SIZE_MAX)
     {
         Narsese_PrintTermPrettyRecursive(term, child1);
     }
@@ -618,7 +618,7 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
             fputs(hasLeftChild ? " " : "", stdout);
         }
     }
-    if(child2 < COMPOUND_TERM_SIZE_MAX)
+    if(child2 <= COMPOUND_TERM_SIZE_MAX)
     {
         Narsese_PrintTermPrettyRecursive(term, child2);
     }
-- 
2.43.0


From 1c6cb2f71721089481ec415e82fe760b741836b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:30 +0000
Subject: [PATCH 10/11] fix: UDPNAR reads the timestep before its creator may
 return, and terminates received lines

---
 src/NetworkNAR/UDPNAR.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..c86d595 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -32,9 +32,9 @@ pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 void* Reasoner_Thread_Run(void* timestep_address)
 {
     pthread_mutex_lock(&start_mutex);
+    long timestep = *((long*) timestep_address); //read before UDPNAR_Start continues, as it lives on its stack
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
-    long timestep = *((long*) timestep_address);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
     while(!Stopped)
     {
@@ -57,8 +57,8 @@ void* Receive_Thread_Run(void *sockfd_address)
     int sockfd = *((int*) sockfd_address);
     for(;;)
     {
-        char buffer[NARSESE_LEN_MAX];
-        UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX);
+        char buffer[NARSESE_LEN_MAX] = {0}; //datagrams do not have to be 0-terminated
+        UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX-1);
         if(Stopped) //avoids problematic buffer states due to socket shutdown, most portable solution!
         {
             break;
-- 
2.43.0


From bdfaea6b535834054470c406156ce9cee40e8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:00 +0000
Subject: [PATCH 11/11] fix: shell commands with missing, out-of-range or
 overlong arguments accessed memory out of bounds or divided by zero

---
 src/Decision.c |  2 +-
 src/Shell.c    | 20 +++++++++++---------
 src/Stats.c    |  2 +-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..1254c00 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -277,7 +277,7 @@ static Decision Decision_MotorBabbling()
     {
         n_ops = i+1;
     }
-    if(n_ops > 0)
+    if(n_ops > 0 && BABBLING_OPS > 0)
     {
         decision.operationID[0] = 1+(myrand() % (MIN(BABBLING_OPS, n_ops)));
         IN_DEBUG (
diff --git a/src/Shell.c b/src/Shell.c
index d362c30..4a196d3 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end - start - 1 < (long) sizeof(substr), "Imported stamp has no end or is too long!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
@@ -315,24 +316,24 @@ int Shell_ProcessInput(char *line)
             const char* sep = termname[0] ? "_" : "";
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
         else
         if(!strncmp("*space ", line, strlen("*space ")))
         {
-            int granularity;
+            int granularity = -1;
             char termname[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*space ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &granularity, (char*) &termname);
@@ -349,7 +350,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*setopname ", line, strlen("*setopname ")))
         {
             assert(concepts.itemsAmount == 0, "Operators can only be registered right after initialization / reset!");
-            int opID;
+            int opID = -1;
             char opname[ATOMIC_TERM_LEN_MAX+1] = {0};
             opname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setopname ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &opID, (char*) &opname);
@@ -374,8 +375,8 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setoparg ", line, strlen("*setoparg ")))
         {
-            int opID;
-            int opArgID;
+            int opID = -1;
+            int opArgID = -1;
             char argname[NARSESE_LEN_MAX+1] = {0};
             argname[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setoparg ")], "%d %d %" STR(NARSESE_LEN_MAX) "[^\n]", &opID, &opArgID, (char*) &argname);
@@ -386,7 +387,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*query ", line, strlen("*query ")))
         {
-            double threshold;
+            double threshold = -1.0;
             char narsese[NARSESE_LEN_MAX+1] = {0};
             narsese[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*query ")], "%lf %" STR(NARSESE_LEN_MAX) "[^\n]", &threshold, (char*) &narsese);
@@ -396,8 +397,9 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = -1;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
diff --git a/src/Stats.c b/src/Stats.c
index 529ae3d..44c7ab5 100755
--- a/src/Stats.c
+++ b/src/Stats.c
@@ -60,7 +60,7 @@ void Stats_Print(long currentTime)
     puts("Statistics\n----------");
     printf("countConceptsMatchedTotal:\t%ld\n", Stats_countConceptsMatchedTotal);
     printf("countConceptsMatchedMax:\t%ld\n", Stats_countConceptsMatchedMax);
-    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+    long countConceptsMatchedAverage = currentTime == 0 ? 0 : Stats_countConceptsMatchedTotal / currentTime;
     printf("countConceptsMatchedAverage:\t%ld\n", countConceptsMatchedAverage);
     printf("currentTime:\t\t\t%ld\n", currentTime);
     printf("total concepts:\t\t\t%d\n", concepts.itemsAmount);
-- 
2.43.0

