From 08139f1ecc54d446224f18bf21ab06c13a228130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 01/62] fix: name check no longer runs off its table on names
 containing yy

Commas are skipped before the automaton is consulted, so the transition that
needed a comma between y and y could never be taken: the automaton jammed and
the verdict was read from before the start of the result table.
---
 bctables.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bctables.in b/bctables.in
index c090a8f..9e9b92d 100644
--- a/bctables.in
+++ b/bctables.in
@@ -50,7 +50,7 @@ Block MAIN
 
     State y
         APOS -> a
-        COMMA ; VOWEL|Y -> v
+        VOWEL|Y -> v
         CONS -> c
         -> nosplit.in
 
-- 
2.43.0


From 370bf862214d27c5b7128878973d08eb651ae370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:27 +0000
Subject: [PATCH 02/62] fix: end of file inside a comment no longer hangs the
 reader

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0042c2b..60b00d8 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed comment at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 7c95964f8f78bb6b595c7e558b8c00a3e88b1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 03/62] fix: report the true position of a word that follows a
 digit or colon

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 60b00d8..bcac60c 100644
--- a/lex1.c
+++ b/lex1.c
@@ -424,11 +424,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From 3a3d291a192aba7e3a22f3432bbe81abeadd4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 04/62] fix: zoi or la'o at end of file is reported instead of
 silently dropped

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index bcac60c..83823a8 100644
--- a/lex1.c
+++ b/lex1.c
@@ -460,7 +460,7 @@ parse_file(FILE *f)
 
 done:
 
-  if (zoi_data) {
+  if (zoi_data || zoi_delim_next) {
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
-- 
2.43.0


From 2de8af337b0b51f7b239c31b2e09f2686d0b8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:34 +0000
Subject: [PATCH 05/62] fix: record the elided ke'e after gi'e ke ... when vau
 is elided too

The production without free modifiers and without tail terms marked only VAU
as elided, so the ke'e was not shown and the 're' grammar's counterpart was
inconsistent with its siblings.
---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..031c235 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From dffd98fa8ffe497603eaf1e560eaa9ec3b69587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 06/62] fix: text ending in an incomplete tense no longer
 crashes

categorize_tenses dereferenced a null last_ok_token when the text ended in the
middle of something that could start a tense (na'e, se, fe'e, a number ...).
---
 categ.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/categ.c b/categ.c
index 4377bd1..4f9f0f7 100644
--- a/categ.c
+++ b/categ.c
@@ -379,9 +379,13 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
     }
     if (y == head) {
       /* Run to end of text */
-      insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
-      insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-      next_tok = last_ok_token->next->next; /* marker->next */
+      if (last_ok_token) {
+        insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
+        insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
+        next_tok = last_ok_token->next->next; /* marker->next */
+      } else {
+        next_tok = x->next; /* Incomplete tense at end of text */
+      }
     }
 
 next_outer_loop:
-- 
2.43.0


From 8001f3c1b320542e2dcb0c737a18966bdc6bc43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 07/62] fix: bu as the first word is reported instead of
 failing an assertion

---
 lex2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex2.c b/lex2.c
index 133f5f4..b2162c6 100644
--- a/lex2.c
+++ b/lex2.c
@@ -585,6 +585,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From 66abe859e9800e0436fb6f35c98a1ed80425ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 08/62] fix: an empty lo'u ... le'u quotation no longer fails
 an assertion

---
 lex2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index b2162c6..26a70be 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,7 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("") : build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From 63a60bd7f611fb43e1d8a7a7e6bb12eb52ee7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:58 +0000
Subject: [PATCH 09/62] fix: a lo'u ... le'u quotation may be part of a zei
 compound

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 26a70be..c7cb023 100644
--- a/lex2.c
+++ b/lex2.c
@@ -222,6 +222,10 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
       case N_ZO:
         len += 3 + strlen(y->data.zo.text);
         break;
+
+      case N_LOhU:
+        len += 10 + strlen(y->data.lohu.text);
+        break;
      
       case N_ZEI:
         /* Not particularly efficient, the strings get built again later for now! */
@@ -234,7 +238,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -277,6 +280,12 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zo.text);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u+");
+        strcat(result, y->data.lohu.text);
+        strcat(result, "+le'u");
+        break;
+
       case N_ZEI:
         strcat(result, y->data.zei.sep_with_zei);
         break;
@@ -287,7 +296,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From be499978598f7c021df43dfe22bba01095cf8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:22 +0000
Subject: [PATCH 10/62] fix: emphasis (ba'e) on a word followed by bu is kept

---
 lex2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index c7cb023..b10ff09 100644
--- a/lex2.c
+++ b/lex2.c
@@ -582,7 +582,7 @@ handle_bahe(void)
 static void
 handle_bu(void)
 {
-  TreeNode *x, *y, *nt;
+  TreeNode *x, *y, *z, *nt;
 
   for (x = toks.next;
        x != &toks;
@@ -665,6 +665,10 @@ handle_bu(void)
           break;
       }
 
+      /* Keep any BAhE that applied to the word, innermost after those on BU */
+      for (z = x; z->bahe; z = z->bahe) ;
+      z->bahe = y->bahe;
+
       /* Unlink y from the chain */
       y->prev->next = x;
       x->prev = y->prev;
-- 
2.43.0


From 43b3bb69d3a3fa03ec527585db541d979e251d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:42 +0000
Subject: [PATCH 11/62] fix: bridi tail joined by KE without shared tail terms
 used an uninitialised term vector

---
 terms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index af6a9cf..e8c879d 100644
--- a/terms.c
+++ b/terms.c
@@ -1343,11 +1343,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
-- 
2.43.0


From 2e578dd788db72bf8e09f83981402ce5222fade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:07 +0000
Subject: [PATCH 12/62] fix: term vectors and conversion chains of more than 20
 entries overflowed or aborted

---
 terms.c | 121 ++++++++++++++++++++++++++------------------------------
 1 file changed, 57 insertions(+), 64 deletions(-)

diff --git a/terms.c b/terms.c
index e8c879d..07237c8 100644
--- a/terms.c
+++ b/terms.c
@@ -19,8 +19,6 @@
 #include "cmavotab.h"
 /*}}}*/
 
-#define MAX_TERMS_IN_VECTOR 20
-
 /* Maximum argument position.  Even the most horrific abstraction or
    lujvo would be pushed to get this many args!!! */
 
@@ -48,7 +46,7 @@ typedef struct TermVectorEntry{
 
 typedef struct TermVector{
   int n_nodes;
-  TermVectorEntry nodes[MAX_TERMS_IN_VECTOR];
+  TermVectorEntry *nodes; /* n_nodes entries, not changed once built */
 } TermVector;
 
 /*+ Enumeration tags for the LinkConvEntry type. +*/
@@ -81,7 +79,7 @@ typedef struct {
   selbri3 KE'E BE links' constructions, which could recurse a lot. +*/
 typedef struct {
   int n;
-  LinkConvEntry e[MAX_TERMS_IN_VECTOR];
+  LinkConvEntry *e; /* n entries, not shared with other chains */
 } LinkConv;
 /*}}}*/
 /* Forward prototypes *//*{{{*/
@@ -93,6 +91,18 @@ static void process_selbri_3_args(TreeNode *s3, TermVector *pre, TermVector *pos
 static void tv_init(TermVector *tv)/*{{{*/
 {
   tv->n_nodes = 0;
+  tv->nodes = NULL;
+}
+/*}}}*/
+static void tv_append(TermVector *tv, TermType type, int pos, TreeNode *node)/*{{{*/
+{
+  TermVectorEntry *e;
+
+  tv->nodes = grow_array(TermVectorEntry, tv->n_nodes + 1, tv->nodes);
+  e = tv->nodes + tv->n_nodes++;
+  e->type = type;
+  e->pos = pos;
+  e->node = node;
 }
 /*}}}*/
 static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
@@ -101,15 +111,11 @@ static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
   int i, n1, n2;
   tn = s1->n_nodes + s2->n_nodes;
 
-  /* If this is exceeded, we'll need to reassess the design.  Really
-     ought to make the arrays dynamic but that incurs hassle of
-     releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
-
   n1 = s1->n_nodes;
   n2 = s2->n_nodes;
 
   r->n_nodes = tn;
+  r->nodes = tn ? new_array(TermVectorEntry, tn) : NULL;
 
   for (i=0; i<n1; i++) {
     r->nodes[i] = s1->nodes[i];
@@ -128,6 +134,7 @@ static void tv_reverse(TermVector *dest, TermVector *src)/*{{{*/
   assert(dest != src); /* Not designed to cope with this case */
 
   n = dest->n_nodes = src->n_nodes;
+  dest->nodes = n ? new_array(TermVectorEntry, n) : NULL;
 
   for (i=0; i<n; i++) {
     dest->nodes[i] = src->nodes[n-1-i];
@@ -137,51 +144,49 @@ static void lc_init(LinkConv *lc)/*{{{*/
 {
   /* Initialise a linkconv list to empty */
   lc->n = 0;
+  lc->e = NULL;
+}
+/*}}}*/
+static LinkConvEntry *lc_extend(LinkConv *lc)/*{{{*/
+{
+  /* Add an entry to the end of a linkconv chain */
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
+  return lc->e + lc->n++;
 }
 /*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  LinkConvEntry *e = lc_extend(lc);
 
-  lc->e[lc->n].data.se.conv = conv;
-  lc->e[lc->n].data.se.senode = senode;
-  lc->e[lc->n].type = LC_SE;
-  ++(lc->n);
+  e->data.se.conv = conv;
+  e->data.se.senode = senode;
+  e->type = LC_SE;
 }
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  LinkConvEntry *e = lc_extend(lc);
 
-  lc->e[lc->n].data.jai_tag.tag = tag;
-  lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
-  lc->e[lc->n].type = LC_TAG;
-  ++(lc->n);
-  
+  e->data.jai_tag.tag = tag;
+  e->data.jai_tag.inner_tu2 = inner_tu2;
+  e->type = LC_TAG;
 }
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
-
-  lc->e[lc->n].type = LC_JAI;
-  ++(lc->n);
-  
+  lc_extend(lc)->type = LC_JAI;
 }
 /*}}}*/
 static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
-     made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
-  lc->e[lc->n].data.links = new(TermVector);
+     made of the header of 'v'. */
+  LinkConvEntry *e = lc_extend(lc);
 
-  /* Deep structure copy */
-  *(lc->e[lc->n].data.links) = *v;
-  
-  lc->e[lc->n].type = LC_LINKS;
-  ++(lc->n);
+  e->data.links = new(TermVector);
+  *(e->data.links) = *v;
+  e->type = LC_LINKS;
 }
 /*}}}*/
 static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
@@ -191,7 +196,13 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   produce a local copy onto which extra terms can be appended, rather than to
   make a completely general copy.  */
   
-  *dest = *src;
+  int i;
+
+  dest->n = src->n;
+  dest->e = src->n ? new_array(LinkConvEntry, src->n) : NULL;
+  for (i=0; i<src->n; i++) {
+    dest->e[i] = src->e[i];
+  }
 }
 /*}}}*/
 static int recover_se_conv(TreeNode *x)/*{{{*/
@@ -327,9 +338,7 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
 
     switch (tc->data.nonterm.type) {
       case TERM_PLAIN_SUMTI:
-        vv.nodes[vv.n_nodes].type = TRM_POS;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        tv_append(&vv, TRM_POS, 0, t);
         break;
       case TERM_PLACED_SUMTI:
         {
@@ -337,22 +346,15 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
           tcc = child_ref(tc, 0);
           pos = recover_fa_conv(tcc);
           if (pos == 0) {
-            vv.nodes[vv.n_nodes].type = TRM_FAhI;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = 0;
+            tv_append(&vv, TRM_FAhI, 0, t);
           } else {            
-            vv.nodes[vv.n_nodes].type = TRM_FA;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = pos;
+            tv_append(&vv, TRM_FA, pos, t);
           }
-          vv.n_nodes++;
         }
         break;
       case TERM_TAGGED_SUMTI:
       case TAGGED_TERMSET:
-        vv.nodes[vv.n_nodes].type = TRM_TAG;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        tv_append(&vv, TRM_TAG, 0, t);
         break;
       case TERMSET:
         fprintf(stderr, "No place tagging for termset at line %d\n", t->start_line);
@@ -531,8 +533,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while (base < MAX_POS && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -664,7 +666,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -683,7 +685,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -1597,9 +1599,7 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
-          tv.nodes[tv.n_nodes].type = TRM_POS;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          tv_append(&tv, TRM_POS, 0, tm);
           break;
         case TERM_PLACED_SUMTI:
           {
@@ -1607,22 +1607,15 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
             tcc = child_ref(tc, 0);
             pos = recover_fa_conv(tcc);
             if (pos == 0) {
-              tv.nodes[tv.n_nodes].type = TRM_FAhI;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = 0;
+              tv_append(&tv, TRM_FAhI, 0, tm);
             } else {
-              tv.nodes[tv.n_nodes].type = TRM_FA;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = pos;
+              tv_append(&tv, TRM_FA, pos, tm);
             }
-            tv.n_nodes++;
           }
           break;
         case TERM_TAGGED_SUMTI:
         case TAGGED_TERMSET:
-          tv.nodes[tv.n_nodes].type = TRM_TAG;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          tv_append(&tv, TRM_TAG, 0, tm);
           break;
         case TERMSET:
           fprintf(stderr, "Termset at line %d ignored, place tagging will be faulty\n", tm->start_line);
-- 
2.43.0


From 295f337adac554870ce72a670e24b722db1645c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 13/62] fix: selbri outside any sumti or main selbri was
 glossed from an uninitialised flag

---
 properties.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties.c b/properties.c
index 72eb283..48ad6dc 100644
--- a/properties.c
+++ b/properties.c
@@ -145,6 +145,7 @@ prop_glosstype(TreeNode *x, int create)
   result = (XGlosstype *) fetch_conversion(x, NO, EX_GLOSSTYPE);
   if (!result && create) {
     result = (XGlosstype *) fetch_conversion(x, YES, EX_GLOSSTYPE);
+    result->in_selbri = 0;
     result->is_tertau = 0;
   }
 
-- 
2.43.0


From 119e0b21a60ba8d61083715fcb7e0d3f2636157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:33 +0000
Subject: [PATCH 14/62] fix: indicator scale word absent from the dictionary
 crashed the gloss (ui pei nai)

---
 output.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/output.c b/output.c
index dad7fd5..c3e1b2a 100644
--- a/output.c
+++ b/output.c
@@ -369,35 +369,37 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
 
   xci = prop_cai_indicator(x, NO);
   if (xci) {
+    trans = NULL;
     switch (xci->code) {
       case CC_CAI:
-        strcpy(buffer, translate("cai"));
+        trans = translate("cai");
         break;
       case CC_SAI:
-        strcpy(buffer, translate("sai"));
+        trans = translate("sai");
         break;
       case CC_RUhE:
-        strcpy(buffer, translate("ru'e"));
+        trans = translate("ru'e");
         break;
       case CC_CUhI:
-        strcpy(buffer, translate("cu'i"));
+        trans = translate("cu'i");
         break;
       case CC_RUhENAI:
-        strcpy(buffer, translate("ru'enai"));
+        trans = translate("ru'enai");
         break;
       case CC_SAINAI:
-        strcpy(buffer, translate("sainai"));
+        trans = translate("sainai");
         break;
       case CC_CAINAI:
-        strcpy(buffer, translate("cainai"));
+        trans = translate("cainai");
         break;
       case CC_PEI:
-        strcpy(buffer, translate("pei"));
+        trans = translate("pei");
         break;
       case CC_PEINAI:
-        strcpy(buffer, translate("peinai"));
+        trans = translate("peinai");
         break;
     }
+    strcpy(buffer, trans ? trans : "?");
     strcat(buffer, " ");
   } else {
     buffer[0] = 0;
-- 
2.43.0


From f89f208adb1a28f36ab656f351fd364c651e0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:46 +0000
Subject: [PATCH 15/62] fix: x1 place created by jai inherited the occupied
 mark of the place it replaced

---
 terms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terms.c b/terms.c
index 07237c8..aa2ca92 100644
--- a/terms.c
+++ b/terms.c
@@ -675,6 +675,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_TAG;
           place[1].valid = 1;
+          place[1].taken = 0;
           place[1].tag.tag = lc->e[i].data.jai_tag.tag;
           place[1].tag.inner_tu2 = lc->e[i].data.jai_tag.inner_tu2;
         }
@@ -694,6 +695,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_ORD;
           place[1].valid = 1;
+          place[1].taken = 0;
         }
         break;
 
-- 
2.43.0


From ea7f137415c4bfb9c1b399e26dbbf9d4f31a4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 16/62] fix: conversion of a grouped tanru was also applied to
 the gloss of a component modifying through bo

---
 conversion.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/conversion.c b/conversion.c
index 4fdac50..4e28d66 100644
--- a/conversion.c
+++ b/conversion.c
@@ -160,7 +160,6 @@ compute_tu2_conv(TreeNode *tu2, TreeNode *apply_to) {
         case TANRU_UNIT_2:
         case NAHE_TU2:
         case TANRU_UNIT_1:
-        case TANRU_UNIT:
         case SELBRI_6:
         case SELBRI_5: 
         case SELBRI_3:
@@ -178,6 +177,20 @@ compute_tu2_conv(TreeNode *tu2, TreeNode *apply_to) {
           x = x->parent;
           break;
           
+        case TANRU_UNIT:
+          /* A component modifying the one after its BO takes no part in
+             the conversions of the whole : these apply to the last one. */
+          if ((x->parent->data.nonterm.type == SELBRI_6) &&
+              (nch(x->parent) > 1)) {
+            XConversion *ext;
+            ext = prop_conversion(apply_to, YES);
+            ext->conv = places[1];
+            return;
+          } else {
+            x = x->parent;
+          }
+          break;
+
         case SELBRI_4:
           /* Depends on whether we're immediately below an outermost
              selbri_3 as to whether we close the conversion now or
-- 
2.43.0


From e2185aa6dc3bf10c067c2f28f44bcdc35e84a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:25 +0000
Subject: [PATCH 17/62] fix: an indicator or ba'e on se, jai, BAI or a zei
 compound changed the gloss of the word

---
 conversion.c | 10 +++++-----
 terms.c      |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/conversion.c b/conversion.c
index 4e28d66..2fb2fc1 100644
--- a/conversion.c
+++ b/conversion.c
@@ -71,7 +71,7 @@ conv_tag_se_bai(TreeNode *x)
       case SE_BAI:
         c1 = strip_attitudinal(nt->children[0]);
         assert(c1->data.cmavo.selmao == SE);
-        c2 = nt->children[1];
+        c2 = strip_attitudinal(nt->children[1]);
         conv = lookup_converted_place(c1);
         ext = prop_bai_conversion(c2, YES);
         ext->conv = conv;
@@ -82,7 +82,7 @@ conv_tag_se_bai(TreeNode *x)
         break;
 
       case BAI1:
-        c1 = nt->children[0];
+        c1 = strip_attitudinal(nt->children[0]);
         ext = prop_bai_conversion(c1, YES);
         ext->conv = 1;
         break;
@@ -309,7 +309,7 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
       case JAI_TU2:
         {
           TreeNode *cjai;
-          cjai = child_ref(x, 0);
+          cjai = strip_attitudinal(child_ref(x, 0));
           if (g != GS_NONE) {
             gt = prop_glosstype(cjai, YES);
             if (g == GS_MAIN_SELBRI || g == GS_JAI) {
@@ -498,7 +498,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                   {
                     TreeNode *cc;
                     cc = strip_attitudinal(c);
-                    if (cc->type == N_BRIVLA) {
+                    if (cc->type == N_BRIVLA || cc->type == N_ZEI) {
                       XGlosstype *gt;
                       gt = prop_glosstype(cc, YES);
                       gt->is_tertau = 1;
@@ -519,7 +519,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                     TreeNode *cc, *cjai;
                     XGlosstype *gt;
 
-                    cjai = child_ref(c, 0);
+                    cjai = strip_attitudinal(child_ref(c, 0));
                     gt = prop_glosstype(cjai, YES);
                     gt->is_tertau = 1;
 
diff --git a/terms.c b/terms.c
index aa2ca92..538decd 100644
--- a/terms.c
+++ b/terms.c
@@ -810,7 +810,7 @@ static void process_tanru_unit_2_args(TreeNode *tu2, TermVector *pre, TermVector
           TreeNode *se_child, *tu2_child;
 
           lc_copy(lc, &newlc);
-          se_child = child_ref(c1, 0);
+          se_child = strip_attitudinal(child_ref(c1, 0));
           tu2_child = find_nth_child(c1, 1, TANRU_UNIT_2);
           assert(tu2_child);
 
-- 
2.43.0


From 6773441f6104a7c5cc1e3df9d222345f89948908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 18/62] fix: sumti linked to a moi word was tagged with a
 reference to an unnumbered phrase (#0)

---
 terms.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/terms.c b/terms.c
index 538decd..0d38029 100644
--- a/terms.c
+++ b/terms.c
@@ -205,6 +205,17 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   }
 }
 /*}}}*/
+static int lc_has_links(const LinkConv *lc)/*{{{*/
+{
+  /* Are there any linked sumti in a link/conv vector? */
+  int i;
+
+  for (i=0; i<lc->n; i++) {
+    if (lc->e[i].type == LC_LINKS) return 1;
+  }
+  return 0;
+}
+/*}}}*/
 static int recover_se_conv(TreeNode *x)/*{{{*/
 {
   /* Turn se, te etc into 2..5 */
@@ -787,7 +798,8 @@ static void process_tanru_unit_2_args(TreeNode *tu2, TermVector *pre, TermVector
           tt.numbermoi.moi = moi;
           assign_places(pre, post, lc, &tt);
           if ((pre->n_nodes > 0) ||
-              (post->n_nodes > 0)) {
+              (post->n_nodes > 0) ||
+              lc_has_links(lc)) {
             xrb = prop_require_brac (norl, YES);
           }
         }
-- 
2.43.0


From 5d728fdb8f17bfc7229edff451791977bac9adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:37 +0000
Subject: [PATCH 19/62] fix: ke'a about the possessor in le/la descriptions
 referred to #0

---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index c3e1b2a..88fb3ab 100644
--- a/output.c
+++ b/output.c
@@ -60,6 +60,7 @@ static void add_bracketing_internal(TreeNode *x, int *seq)/*{{{*/
       case SUMTI_5A:
       case SUMTI_5B:
       case NAME_SUMTI_6:
+      case SUMTI_6:
         if (prop_require_brac(x, NO)) {
           y->number = ++*seq;
           y->brackets = BR_CEIL;
-- 
2.43.0


From 9932e91a52215ce3bb97c2880c6f3de290b0e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 20/62] fix: tense without a context (bare tense fragment with
 a parenthesis) lost its gloss

---
 output.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/output.c b/output.c
index 88fb3ab..8874d20 100644
--- a/output.c
+++ b/output.c
@@ -553,31 +553,32 @@ static void translate_time_offset (TreeNode *x, char *loj, char *eng)/*{{{*/
 
   if (ctx) {
     trans = translate_tense_in_context(loj, ctx->ctx);
-    if (trans) {
-      strcpy(eng, trans);
-    } else {
-      char engbuf[1024];
-      engbuf[0] = 0;
-      trans = translate(cmavo_table[pu->data.cmavo.code].cmavo);
-      strcat(engbuf, trans ? trans : "?");
-      if (nai) {
-        trans = translate(cmavo_table[nai->data.cmavo.code].cmavo);
-        strcat(engbuf, " ");
-        strcat(engbuf, trans ? trans : "?");
-      }
-      if (zi) {
-        trans = translate(cmavo_table[zi->data.cmavo.code].cmavo);
-        strcat(engbuf, " ");
-        strcat(engbuf, trans ? trans : "?");
-      }
-      strcpy(eng, engbuf);
-    }
   } else {
     fprintf(stderr, "No context found for tense cmavo at line %d column %d\n",
             x->start_line, x->start_column);
     trans = translate(loj);
   }
 
+  if (trans) {
+    strcpy(eng, trans);
+  } else {
+    char engbuf[1024];
+    engbuf[0] = 0;
+    trans = translate(cmavo_table[pu->data.cmavo.code].cmavo);
+    strcat(engbuf, trans ? trans : "?");
+    if (nai) {
+      trans = translate(cmavo_table[nai->data.cmavo.code].cmavo);
+      strcat(engbuf, " ");
+      strcat(engbuf, trans ? trans : "?");
+    }
+    if (zi) {
+      trans = translate(cmavo_table[zi->data.cmavo.code].cmavo);
+      strcat(engbuf, " ");
+      strcat(engbuf, trans ? trans : "?");
+    }
+    strcpy(eng, engbuf);
+  }
+
 }
 /*}}}*/
 static void translate_jai (TreeNode *x, char *eng)/*{{{*/
-- 
2.43.0


From 298df489aba5f8bd1bd6ffa692f54d58fe2a8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:53 +0000
Subject: [PATCH 21/62] fix: interval property in a jai tag was left out of the
 place tag

---
 output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/output.c b/output.c
index 8874d20..eb0fdfc 100644
--- a/output.c
+++ b/output.c
@@ -1267,6 +1267,8 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
     if ((what == SHOW_ENGLISH) ||
         (what == SHOW_BOTH)) {
       (drv->translation)(localtrans);
+    } else if (what == SHOW_TAG_TRANS) {
+      (drv->write_tag_text)("", "", localtrans, NO);
     }
 
   } else {
-- 
2.43.0


From eb64c65c5903832e56f7de2bfe0099d610eb2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 22/62] fix: modal after jai without a dictionary entry of its
 own was marked (CONV?) although not converted

---
 output.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/output.c b/output.c
index eb0fdfc..879cf76 100644
--- a/output.c
+++ b/output.c
@@ -221,6 +221,11 @@ static void translate_bai (TreeNode *x, char *eng)/*{{{*/
   }
 
   trans = translate(buffer);
+  if (!trans && xtc && xtc->ctx == TSC_JAITAG) {
+    /* No special form for jai, use the ordinary one */
+    *strchr(buffer, '@') = 0;
+    trans = translate(buffer);
+  }
   if (trans) {
     strcpy(eng, trans);
   } else {
-- 
2.43.0


From 2d6b4dab41323bb3adfeb79cbc5e7be8272a393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:08 +0000
Subject: [PATCH 23/62] fix: cai or nai after y, da'o, fu'e or fu'o was
 swallowed

---
 lex2.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index b10ff09..c2c6ed1 100644
--- a/lex2.c
+++ b/lex2.c
@@ -731,6 +731,18 @@ advance_indicator(TreeNode **x)
 }
 
 
+/*++++++++++++++++++++++++++++++
+  Only UI and CAI can be followed by NAI or CAI.
+  ++++++++++++++++++++++++++++++*/
+
+static int
+has_indicator_suffixes(TreeNode *x)
+{
+  return (x->type == N_CMAVO) &&
+         ((x->data.cmavo.selmao == UI) ||
+          (x->data.cmavo.selmao == CAI));
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Go through looking for all UI and CAI cmavo.  If a NAI immediately
   follows, pull the NAI onto the 'parent' cmavo as a property.  If a
@@ -750,7 +762,7 @@ pair_off_indicator_suffixes(void)
 
     y = x->next;
 
-    if (is_indicator_cmavo(x)) {
+    if (has_indicator_suffixes(x)) {
       if ((y != &toks) &&
           (y->type == N_CMAVO) &&
           (y->data.cmavo.selmao == NAI)) {
-- 
2.43.0


From 38b607db1231ed58454ab30c89cd65196b673833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 24/62] fix: compounds with long or many components, or ending
 in se, overran the translator's component table

---
 translate.c | 59 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/translate.c b/translate.c
index 092811f..08fcad7 100644
--- a/translate.c
+++ b/translate.c
@@ -27,16 +27,20 @@ static int bufptr=0;
 
 /* ================================================== */
 
+/* Place numbers run from 1 to 19, see terms.c */
+#define MAX_PLACES 20
+
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
-  int places[6];
+  char *text;
+  int places[MAX_PLACES];
 } Component;/*}}}*/
 
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static Component *split_into_comps(char *canon, int *ncomp);
+static void free_comps(Component *comp, int ncomp);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -59,7 +63,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
   char *canon;
   char *result;
@@ -70,9 +74,10 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
+    free_comps(comp, ncomp);
     return NULL;
   }
   result = GETBUF();
@@ -89,20 +94,21 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     }
   }
 
+  free_comps(comp, ncomp);
   return result;
 
 }/*}}}*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
-  Component comp[32];
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  comp = split_into_comps(canon, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -115,6 +121,7 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
       strcat(buffer, "?");
     }
   }   
+  free_comps(comp, n_comps);
   return buffer;
 }/*}}}*/
 char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
@@ -739,13 +746,14 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
   Take a string a+b+c and split it into an array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
   following component.
   */
 {
+  Component *comp;
   int i;
   int nc = 0;
   char buffer[65536];
@@ -753,8 +761,10 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
   int place = 0;
 
   strcpy(buffer, canon);
-  p = buffer;
-  while (*p) p++;
+  for (i=1, p=buffer; *p; p++) {
+    if (*p == '+') i++;
+  }
+  comp = new_array(Component, i);
   while (p > buffer) {
     while (p > buffer && *p != '+') p--;
     place = 0;
@@ -763,7 +773,8 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    /* The last component is itself even if it is se, te etc */
+    if (place > 0 && nc > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -772,19 +783,29 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       for (i=nc-1; i>=0; i--) {
         comp[i+1] = comp[i];
       }
-      for (i=1; i<=5; i++) {
+      for (i=0; i<MAX_PLACES; i++) {
         comp[0].places[i] = i;
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = new_string(q);
     }
     *p = 0;
   }
 
   *ncomp = nc;
+  return comp;
 
 }/*}}}*/
+static void free_comps(Component *comp, int ncomp)/*{{{*/
+{
+  int i;
+
+  for (i=0; i<ncomp; i++) {
+    Free(comp[i].text);
+  }
+  Free(comp);
+}/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
   char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
@@ -857,7 +878,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -869,7 +890,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
 
 #if 0
   {
@@ -887,7 +908,9 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
      mapped onto it, do a place switch */
   if (ncomp == 1) {
     int new_place = comp[0].places[place];
-    return adv_translate(comp[0].text, new_place, ctx);
+    trans = adv_translate(comp[0].text, new_place, ctx);
+    free_comps(comp, ncomp);
+    return trans;
 
   } else {
     /* Multiple components. Loop over precedence and try to match
@@ -898,11 +921,12 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 
     for (prec = 5; prec >= 0; prec--) {
       for (suffix = 1; suffix >= 0; suffix--) {
-        for (gather = 1; gather <= 2; gather++) {
+        for (gather = 1; gather <= 2 && gather < ncomp; gather++) {
           trans = lookup_template_match(prec, suffix, gather, canon, comp, ncomp, place, ctx);
           if (trans) {
             if (strcmp(trans, "-")) {
               /* didn't match */
+              free_comps(comp, ncomp);
               return trans;
             }
           } else {
@@ -913,6 +937,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
     }
   }
 
+  free_comps(comp, ncomp);
   return NULL;
 
 }/*}}}*/
-- 
2.43.0


From 75f546db223a0830d7a471041610136b39fa49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 25/62] fix: dictionary entry with an unknown class letter
 crashed the gloss

---
 translate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 08fcad7..8e17c3b 100644
--- a/translate.c
+++ b/translate.c
@@ -1013,7 +1013,8 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       w1n[0] = 0;
     }
 
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    trans = fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans);
+    strcpy(result, trans ? trans : "??");
 
     return result;
 
-- 
2.43.0


From b14d6b750df49a06e7d5314ef03748a29d0ece71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:55 +0000
Subject: [PATCH 26/62] fix: gloss of compounds with several nested patterns or
 many parts was overwritten while being built

---
 translate.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/translate.c b/translate.c
index 8e17c3b..b24ed8a 100644
--- a/translate.c
+++ b/translate.c
@@ -66,7 +66,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   Component *comp;
   int ncomp;
   char *canon;
-  char *result;
+  char result[65536]; /* not from GETBUF, glossing the components uses up many of those */
   char *trans;
   int i;
   int xplace;
@@ -80,7 +80,6 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     free_comps(comp, ncomp);
     return NULL;
   }
-  result = GETBUF();
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
@@ -95,7 +94,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   }
 
   free_comps(comp, ncomp);
-  return result;
+  return strcpy(GETBUF(), result);
 
 }/*}}}*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
@@ -711,11 +710,13 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 }/*}}}*/
 static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
 {
-  char *result = GETBUF();
+  /* Copies, because glossing the base uses up many of the GETBUF buffers */
+  char result[65536], pattern[65536];
   char *p, *q, *r;
   char *localtrans;
+  strcpy(pattern, trans);
   q = result;
-  p = trans;
+  p = pattern;
   while (*p) {
     if (*p == '%') {
       int place = *++p - '0';
@@ -729,7 +730,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
         default: 
           ctx = TCX_NOUN;
           if (show_dictionary_defects) {
-            fprintf(stderr, "Broken base context for %s\n", trans);
+            fprintf(stderr, "Broken base context for %s\n", pattern);
           }
           break;
       }
@@ -744,7 +745,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
     }
   }
   *q = 0;
-  return result;
+  return strcpy(GETBUF(), result);
 }/*}}}*/
 static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
-- 
2.43.0


From 8ee8cc1edb1aaad0ad38e824c0ec06a5a7d0b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 27/62] fix: redefining a place in the dictionary left its old
 qualifier form in force

---
 smujajgau.1 | 4 ++--
 smujajgau.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/smujajgau.1 b/smujajgau.1
index fc1b743..53a90a8 100644
--- a/smujajgau.1
+++ b/smujajgau.1
@@ -82,7 +82,7 @@ E @ Event @ X(s) @ being X @ X @ X
 To specify the dictionary entries, the lojban should take the form 'brivlaN',
 where brivla is the word and N is the place number.  One of
 the following may be suffixed to provide an override of the defaults
-in the table : n v a or t (for noun, verb, adjective, tag
+in the table : n v q or t (for noun, verb, qualifier, tag
 respectively.)
 
 As an example, 'nanmu' might have entries
@@ -123,7 +123,7 @@ dictionary as '*Mprefix+N' or '*M+suffixN' for prefix forms (e.g. nu+)
 and suffix forms (e.g. +zmadu) respectively.  M is the 'precedence' (5
 highest, 0 lowest), defining the order in which prefix v suffix
 matches will be attempted.  N is the place number as usual.  The
-letters n, v, a or t may be suffixed to define a particular form if
+letters n, v, q or t may be suffixed to define a particular form if
 required, as for normal definitions.
 
 The 'English' form is either a standard definition or a place
diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..3eba67a 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -7,7 +7,7 @@
   lojban:english
   
   and compiling them into a sorted database.  If the lojban is of the
-  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1a and X1t
+  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1q and X1t
   are deleted; they may be redefined by a later entry in the source
   dictionary.
 
@@ -404,7 +404,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvqt].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -412,7 +412,7 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "q", "t"};
   int i;
   for (i=0; i<4; i++) {
     strcpy(buffer, s);
-- 
2.43.0


From dbcd4d528a4f3fab8a53e4c85f2c92d8ace14eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 28/62] fix: the last character of a dictionary source without
 a final newline was lost

---
 smujajgau.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 3eba67a..d7c6b33 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -517,7 +517,8 @@ do_file(FILE *f)
   char *p, *q, *r;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    p = strchr(line, '\n');
+    if (p) *p = 0;
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From 3196dc3790c09aa98372beb8e8ebe4925abe8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 29/62] fix: a dictionary definition longer than 255 characters
 made the whole dictionary unreadable

---
 smujajgau.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index d7c6b33..43e11c7 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -67,6 +67,8 @@ static int transord = 0;
 static Trans **transac;
 
 #define MKL 256
+/* The lengths are written to the database as single bytes. */
+#define MAX_LEN 255
 static int wordlens[MKL];
 
 
@@ -113,10 +115,15 @@ add_defn(char *key, char *val)
 {
   Trans *new_trans;
   Link *new_link;
+
+  if (strlen(key) > MAX_LEN || strlen(val) > MAX_LEN) {
+    fprintf(stderr, "Definition of [%s] is too long, ignored\n", key);
+    return;
+  }
+
   new_trans = new(Trans);
   new_link = new(Link);
 
-
   new_trans->action = DEFINE;
   new_trans->key = new_string(key);
   new_trans->val = new_string(val);
-- 
2.43.0


From 574bfb5634a560636f0c6ef91d131af6b1f77e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 30/62] fix: a dictionary line without a word before the colon
 was read out of bounds

---
 smujajgau.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 43e11c7..78ea02f 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -446,7 +446,6 @@ handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
   int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
@@ -542,6 +541,8 @@ do_file(FILE *f)
     }
     if (!*p) {
       fprintf(stderr, "Line [%s] does not contain a colon\n", line);
+    } else if (q == src) {
+      fprintf(stderr, "Line [%s] does not contain a word\n", line);
     } else {
       *q = 0;
       p++;
-- 
2.43.0


From c06f0e85ee53d03cc9081eb181e1258dbe32ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 31/62] fix: entries of compounds with an apostrophe were not
 found under their parts

---
 smujajgau.c | 4 ++--
 translate.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 78ea02f..b2c9d40 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -484,10 +484,10 @@ handle_mapping(char *src, char *dest)
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha(*p)) p++;
+    while (isalpha(*p) || *p == '\'') p++;
     baselen = p - src;
 
-    if ((baselen >= 6) && defines_place) {
+    if ((baselen >= 6) && defines_place && baselen == len - 1) {
       strncpy(buffer, src, baselen);
       buffer[baselen] = 0;
       canon = canon_lujvo(buffer);
diff --git a/translate.c b/translate.c
index b24ed8a..34fc968 100644
--- a/translate.c
+++ b/translate.c
@@ -989,7 +989,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       int pos;
       p = buffer;
       q = trans+1;
-      while (isalpha(*q)) {
+      while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
       }
       *p = 0;
-- 
2.43.0


From b4ac8b86f46a481fe04953fd9bb6a442e666c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 32/62] fix: circular redirections in the dictionary made the
 gloss recurse without end

---
 translate.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 34fc968..8cceb7f 100644
--- a/translate.c
+++ b/translate.c
@@ -942,6 +942,9 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   return NULL;
 
 }/*}}}*/
+/* Longest chain of '@' entries that is followed */
+#define MAX_REDIRECTIONS 8
+
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *trans, *trans1;
@@ -994,8 +997,16 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       }
       *p = 0;
       if (isdigit(*q)) {
+        static int redirections = 0;
         pos = *q - '0';
-        return adv_translate(buffer, pos, ctx);
+        if (redirections >= MAX_REDIRECTIONS) {
+          /* Probably going round in circles */
+          return "??";
+        }
+        ++redirections;
+        trans = adv_translate(buffer, pos, ctx);
+        --redirections;
+        return trans;
       } else {
         if (show_dictionary_defects) {
           fprintf(stderr, "Error in dictionary entry for place %d of %s\n", place, w);
-- 
2.43.0


From bbf21057e6db4d5a1110d1db67b8725e286a5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 33/62] fix: a pattern with an incomplete %-form or redirection
 was read out of bounds

---
 translate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 8cceb7f..982b05c 100644
--- a/translate.c
+++ b/translate.c
@@ -718,7 +718,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   q = result;
   p = pattern;
   while (*p) {
-    if (*p == '%') {
+    if (*p == '%' && isdigit(p[1]) && p[2]) {
       int place = *++p - '0';
       char context = *++p;
       TransContext ctx;
@@ -851,6 +851,7 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     if (trans[0] == '@') {
       /* redirection to another form */
       int redir_place = trans[1] - '0';
+      if (!isdigit(trans[1])) return "??";
       return adv_translate(specific, redir_place, ctx);
     } else {
       /* Need to substitute % stuff. */
-- 
2.43.0


From b399690266001b1d3a72575c70396610cfceafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:36 +0000
Subject: [PATCH 34/62] fix: jvocuhadju overran its table when given a
 component of more than five letters

---
 jvocuhadju.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..82619f5 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,6 +717,10 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-- 
2.43.0


From fd394c338f9e63dd7b5a34a08d510cf672fdfeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:36 +0000
Subject: [PATCH 35/62] fix: lujvo validity test used an uninitialised flag

---
 lujvofns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lujvofns.c b/lujvofns.c
index 5206244..6062520 100644
--- a/lujvofns.c
+++ b/lujvofns.c
@@ -255,6 +255,7 @@ is_valid_lujvo(char *t)
   
   start_cvv = 0;
   had_rn_hyphen = 0;
+  final_ccv = 0;
   nrafsi = 0;
 
   for (;;) {
-- 
2.43.0


From 05e545f206934b501d63feeeb9f147feb94a94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 36/62] fix: blocked text output overran its buffers for many
 tags, long words and wide lines

---
 textblk.c | 219 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 133 insertions(+), 86 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..f850d6d 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,8 +19,6 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
-
 typedef enum {
   ST_OPEN,
   ST_TEXT,
@@ -30,33 +28,84 @@ typedef enum {
 
 static States state;
 
-/* Largest number of tags supported on a single sumti */
-#define MAX_TAGS 32
+/* A string that grows as text is appended to it */
+typedef struct {
+  char *s;
+  int len;
+  int size;
+} Text;
+
+/* Number of tag strings allocated, both for the block and for the line */
+static int max_tags = 0;
 
 /* Variables to hold block being built */
 static int tags_used;
-static char tag_text[MAX_TAGS][BUFFER_SIZE];
-static char loj_text[BUFFER_SIZE];
-static char eng_text[BUFFER_SIZE];
+static Text *tag_text;
+static Text loj_text;
+static Text eng_text;
 
 /* Variables to hold line being constructed */
 static int current_width; /* The width of the line buffer currently occupied */
-static char tag_line[MAX_TAGS][BUFFER_SIZE];
+static Text *tag_line;
 static int line_tags_used;
-static char loj_line[BUFFER_SIZE];
-static char eng_line[BUFFER_SIZE];
+static Text loj_line;
+static Text eng_line;
 
+static void *check_alloc(void *p)/*{{{*/
+{
+  if (!p) {
+    fprintf(stderr, "Out of memory\n");
+    exit(1);
+  }
+  return p;
+}
+/*}}}*/
+static void append_text(Text *t, char *src)/*{{{*/
+{
+  int n = strlen(src);
+
+  if (t->len + n + 1 > t->size) {
+    t->size = 2 * (t->len + n + 1);
+    t->s = (char *) check_alloc(realloc(t->s, t->size));
+  }
+  memcpy(t->s + t->len, src, n + 1);
+  t->len += n;
+}
+/*}}}*/
+static void set_text(Text *t, char *src)/*{{{*/
+{
+  t->len = 0;
+  append_text(t, src);
+}
+/*}}}*/
+static void need_tags(int n)/*{{{*/
+/* Make sure there are at least n tag strings */
+{
+  int i, old = max_tags;
+
+  if (n <= max_tags) return;
+  max_tags = 2 * n;
+  tag_text = (Text *) check_alloc(realloc(tag_text, max_tags * sizeof(Text)));
+  tag_line = (Text *) check_alloc(realloc(tag_line, max_tags * sizeof(Text)));
+  for (i=old; i<max_tags; i++) {
+    tag_text[i].s = tag_line[i].s = NULL;
+    tag_text[i].size = tag_line[i].size = 0;
+    set_text(&tag_text[i], "");
+    set_text(&tag_line[i], "");
+  }
+}
+/*}}}*/
 static void clear_line_buffer(void)/*{{{*/
 {
   int i;
 
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_line[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    set_text(&tag_line[i], "");
   }
   line_tags_used = 0;
 
-  loj_line[0] = 0;
-  eng_line[0] = 0;
+  set_text(&loj_line, "");
+  set_text(&eng_line, "");
 
   current_width = 0;
 }
@@ -66,11 +115,12 @@ static void initialise(void)/*{{{*/
   int i;
 
   state = ST_START;
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+  need_tags(2);
+  for (i=0; i<max_tags; i++) {
+    set_text(&tag_text[i], "");
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  set_text(&loj_text, "");
+  set_text(&eng_text, "");
   tags_used = 0;
 
   clear_line_buffer();
@@ -89,12 +139,12 @@ static void flush_line(void)/*{{{*/
   
   if (current_width == 0) return;
 
-  fputs(loj_line, stdout);
+  fputs(loj_line.s, stdout);
   fputs("\n", stdout);
-  fputs(eng_line, stdout);
+  fputs(eng_line.s, stdout);
   fputs("\n", stdout);
   for (i=0; i<line_tags_used; i++) {
-    fputs(tag_line[i], stdout);
+    fputs(tag_line[i].s, stdout);
     fputs("\n", stdout);
   }
   fputs("\n", stdout);
@@ -121,20 +171,16 @@ static void clear_eols(void)/*{{{*/
     pending_eols = 0;
   }
 }/*}}}*/
-static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
+static void append_to_width(char *src, Text *dbuf, int wid)/*{{{*/
 /* Append a string onto a buffer, and right pad with spaces to bring up
   to a specific width */
 {
-  int len, toadd, i;
-  char buffer[BUFFER_SIZE];
-  len = strlen(src);
-  toadd = wid - len;
-  for (i=0; i<toadd; i++) {
-    buffer[i] = ' ';
+  int toadd = wid - (int) strlen(src);
+
+  append_text(dbuf, src);
+  while (toadd-- > 0) {
+    append_text(dbuf, " ");
   }
-  buffer[toadd] = '\0';
-  strcat(dbuf, src);
-  strcat(dbuf, buffer);
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -142,16 +188,16 @@ static void flush_block(void)/*{{{*/
   int i;
   int max_len, len;
 
-  if (!loj_text[0] && !eng_text[0] && (tags_used == 0)) return; /* Nothing to flush */
+  if (!loj_text.len && !eng_text.len && (tags_used == 0)) return; /* Nothing to flush */
 
   /* Calculate width of block */
   max_len = 0;
-  len = strlen(loj_text);
+  len = loj_text.len;
   if (len > max_len) max_len = len;
-  len = strlen(eng_text);
+  len = eng_text.len;
   if (len > max_len) max_len = len;
   for (i=0; i<tags_used; i++) {
-    len = strlen(tag_text[i]);
+    len = tag_text[i].len;
     if (len > max_len) max_len = len;
   }
   
@@ -159,20 +205,20 @@ static void flush_block(void)/*{{{*/
     flush_line();
   }
 
-  append_to_width(loj_text, loj_line, max_len);
-  append_to_width(eng_text, eng_line, max_len);
+  append_to_width(loj_text.s, &loj_line, max_len);
+  append_to_width(eng_text.s, &eng_line, max_len);
 
   for (i=0; i<tags_used; i++) {
     if (i >= line_tags_used) {
-      append_to_width("", tag_line[i], current_width);
+      append_to_width("", &tag_line[i], current_width);
     }
-    append_to_width(tag_text[i], tag_line[i], max_len);
+    append_to_width(tag_text[i].s, &tag_line[i], max_len);
   }
 
   /* Space-pad the tag lines on words that don't generate enough
      tags. */
   for (i=tags_used; i<line_tags_used; i++) {
-    append_to_width("", tag_line[i], max_len);
+    append_to_width("", &tag_line[i], max_len);
   }
   
   current_width += max_len;
@@ -180,11 +226,11 @@ static void flush_block(void)/*{{{*/
   if (tags_used > line_tags_used) line_tags_used = tags_used;
 
   /* Clear the block buffers for the next lot */
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    set_text(&tag_text[i], "");
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  set_text(&loj_text, "");
+  set_text(&eng_text, "");
 
   tags_used = 0;
   
@@ -202,6 +248,22 @@ static void write_epilog(void)/*{{{*/
   flush_line();
   return;
 }/*}}}*/
+static void set_bracket_block(char *loj, char *eng, char *tag, int subscript)/*{{{*/
+/* Make the block be a bracket */
+{
+  char buffer[16];
+
+  set_text(&loj_text, loj);
+  append_text(&loj_text, " ");
+  set_text(&eng_text, eng);
+  append_text(&eng_text, " ");
+  set_text(&tag_text[0], tag);
+  append_text(&tag_text[0], " ");
+  sprintf(buffer, "%d ", subscript);
+  set_text(&tag_text[1], buffer);
+  tags_used = 2;
+}
+/*}}}*/
 static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
@@ -209,7 +271,7 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0] || tags_used > 0) {
+  if (loj_text.len || eng_text.len || tags_used > 0) {
     flush_block();
   }
 
@@ -249,17 +311,9 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac1, brac2, brac3, subscript);
   }
 
   state = ST_OPEN;
@@ -273,7 +327,7 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
@@ -311,17 +365,9 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket_block(brac1, brac2, brac3, subscript);
   }
 
   state = ST_CLOSE;
@@ -330,24 +376,24 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 static void write_lojban_text(char *text)/*{{{*/
 {
 
-  if (eng_text[0]) {
+  if (eng_text.len) {
     flush_block();
   }
 
   clear_eols();
 
-  strcat(loj_text, text);
-  strcat(loj_text, " ");
+  append_text(&loj_text, text);
+  append_text(&loj_text, " ");
 
 }/*}}}*/
 static void write_special(char *text)/*{{{*/
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "<-");
+    append_text(&eng_text, "<-");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "\"");
+    append_text(&eng_text, "\"");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"\"");
+    append_text(&eng_text, "\"");
   }
 }/*}}}*/
 static void write_translation(char *text)/*{{{*/
@@ -355,8 +401,8 @@ static void write_translation(char *text)/*{{{*/
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, text);
-    strcat(eng_text, " ");
+    append_text(&eng_text, text);
+    append_text(&eng_text, " ");
   }
 }
 /*}}}*/
@@ -366,7 +412,7 @@ static int first_tag;
 
 static void start_tags(void)/*{{{*/
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   clear_eols();
@@ -375,6 +421,7 @@ static void start_tags(void)/*{{{*/
 static void end_tags(void)/*{{{*/
 {
   tags_used++;
+  need_tags(tags_used);
 }/*}}}*/
 static void start_tag(void)/*{{{*/
 {
@@ -386,21 +433,21 @@ static void start_tag(void)/*{{{*/
 /*}}}*/
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  char buffer1[65536], buffer2[65536];
-
-  sprintf(buffer1, "%s%s ", brivla, place);
-  if (brac) {
-    sprintf(buffer2, "(%s) ", trans);
-  } else {
-    sprintf(buffer2, "%s ", trans);
-  }
-  strcat(tag_text[tags_used], buffer1);
-  strcat(tag_text[tags_used], buffer2);
+  Text *t;
+
+  need_tags(tags_used + 1);
+  t = &tag_text[tags_used];
+  append_text(t, brivla);
+  append_text(t, place);
+  append_text(t, brac ? " (" : " ");
+  append_text(t, trans);
+  append_text(t, brac ? ") " : " ");
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  strcat(tag_text[tags_used], t);
+  need_tags(tags_used + 1);
+  append_text(&tag_text[tags_used], t);
 }
 /*}}}*/
 
-- 
2.43.0


From 121ec6721547fd42da028a059b8c83805f68ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 37/62] fix: blocked output moved a word without gloss to the
 next line

---
 latexblk.c | 2 +-
 textblk.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/latexblk.c b/latexblk.c
index 89aa936..cfb03b4 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -308,7 +308,7 @@ static void
 write_lojban_text(char *text)
 {
 
-  if (eng_text[0]) {
+  if (eng_text[0] || (loj_text[0] && pending_eols > 0)) {
     flush_block();
   }
   clear_eols();
diff --git a/textblk.c b/textblk.c
index f850d6d..7f724cd 100644
--- a/textblk.c
+++ b/textblk.c
@@ -376,7 +376,7 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 static void write_lojban_text(char *text)/*{{{*/
 {
 
-  if (eng_text.len) {
+  if (eng_text.len || (loj_text.len && pending_eols > 0)) {
     flush_block();
   }
 
-- 
2.43.0


From 43f9b7c2445b4ee3dadb8d005056c3eb3c71aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 38/62] fix: HTML and LaTeX output did not escape special
 characters in all texts, and & < > hung the HTML output

---
 htmlout.c  | 16 +++++++++++++---
 latex.c    | 18 +++++++++++++-----
 latexblk.c | 22 +++++++++-------------
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..b72e989 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -224,8 +224,15 @@ write_close_bracket(BracketType type, int subscript)
 static char *
 make_htmlsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   char *p, *q;
+
+  /* At most 5 characters are written for each one */
+  buf = (char *) realloc(buf, 5 * strlen(s) + 1);
+  if (!buf) {
+    fprintf(stderr, "Out of memory\n");
+    exit(1);
+  }
   p = s;
   q = buf;
   while (*p) {
@@ -233,14 +240,17 @@ make_htmlsafe(char *s)
       case '&':
         strcpy(q, "&amp;");
         q += 5;
+        p++;
         break;
       case '<':
         strcpy(q, "&lt;");
         q += 4;
+        p++;
         break;
       case '>':
         strcpy(q, "&gt;");
         q += 4;
+        p++;
         break;
       default:
         *q++ = *p++;
@@ -273,7 +283,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>%s</B>", make_htmlsafe(text));
 
   state = ST_TEXT;
 }
@@ -387,7 +397,7 @@ write_tag_text(char *brivla, char *place, char *trans, int brac)
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  printf("%s", make_htmlsafe(t));
 }
 /*}}}*/
 
diff --git a/latex.c b/latex.c
index 815e344..01e5a44 100644
--- a/latex.c
+++ b/latex.c
@@ -260,8 +260,15 @@ latex_write_close_bracket(BracketType type, int subscript)
 char *
 make_texsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   char *p, *q;
+
+  /* At most 3 characters are written for each one */
+  buf = (char *) realloc(buf, 3 * strlen(s) + 1);
+  if (!buf) {
+    fprintf(stderr, "Out of memory\n");
+    exit(1);
+  }
   p = s;
   q = buf;
   while (*p) {
@@ -317,7 +324,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe(text));
 
   state = ST_TEXT;
 }
@@ -411,16 +418,17 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
+  printf("\\textsl{\\footnotesize{}%s", make_texsafe(brivla));
   if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
+    printf("%s (%s)}\n", place, make_texsafe(trans));
   } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
+    printf("%s %s}\n", place, make_texsafe(trans));
   }
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/latexblk.c b/latexblk.c
index cfb03b4..f644fe1 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -314,7 +314,7 @@ write_lojban_text(char *text)
   clear_eols();
 
   strcat(loj_text, " ");
-  strcat(loj_text, text);
+  strcat(loj_text, make_texsafe(text));
 
 }
 
@@ -411,28 +411,24 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  char buffer[65536];
-
-  if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
-  } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
-  }
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe(brivla));
+  strcat(tag_text, place);
+  strcat(tag_text, brac ? " (" : " ");
+  strcat(tag_text, make_texsafe(trans));
+  if (brac) {
+    strcat(tag_text, ")");
+  }
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  char buffer[65536];
-
-  sprintf(buffer, "%s", t);
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  strcat(tag_text, make_texsafe(t));
 }
 /*}}}*/
 
-- 
2.43.0


From 8fe61b8f90302ca01d3d06dcce48abf5e12f437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 39/62] fix: output overran its buffers for long quotes, names
 and numbers

---
 output.c | 97 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 24 deletions(-)

diff --git a/output.c b/output.c
index 879cf76..cb2b375 100644
--- a/output.c
+++ b/output.c
@@ -300,7 +300,7 @@ static void translate_koha (TreeNode *x, char *eng)/*{{{*/
   }
 }
 /*}}}*/
-static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
+static char *get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 {
   struct nonterm *nt;
   int i, n;
@@ -313,7 +313,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
     n = nt->nchildren;
     for (i=0; i<n; i++) {
       c = nt->children[i];
-      get_cmavo_text_inside_node_internal(c, sofar);
+      sofar = get_cmavo_text_inside_node_internal(c, sofar);
     }
   } else if (x->type == N_CMAVO) {
     selmao = x->data.cmavo.selmao;
@@ -327,25 +327,22 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 
       default:
         t = cmavo_table[x->data.cmavo.code].cmavo;
-        strcat(sofar, t);
+        sofar = extend_string(sofar, t);
         break;
     }
 
   } else if (x->type == N_BU) {
-    strcat(sofar, x->data.bu.word);
+    sofar = extend_string(sofar, x->data.bu.word);
   
   }
 
-  return;
+  return sofar;
 
 }
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
 {
-  static char buffer[1024];
-  buffer[0] = 0;
-  get_cmavo_text_inside_node_internal(x, buffer);
-  return buffer;
+  return get_cmavo_text_inside_node_internal(x, new_string(""));
 }
 /*}}}*/
 static void translate_other_cmavo (TreeNode *x, char *eng)/*{{{*/
@@ -784,7 +781,7 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
       
     case N_ZO:
       {
-        char buffer[1024];
+        char buffer[65536];
         sprintf(loj, "zo %s", x->data.zo.text);
         attempt_translation(x->data.zo.text, buffer);
         sprintf(eng, "\"%s\"", buffer);
@@ -1197,7 +1194,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 {
   char *cluster, *trans;
   char localtrans[65536];
-  char lojbuf[65536], lojbuf2[65536];
+  char *lojbuf;
   int i, n;
   TreeNode *c;
   struct nonterm *nt;
@@ -1206,8 +1203,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   ctx = prop_tense_ctx(x, NO);
 
   cluster = get_cmavo_text_inside_node(x);
-  strcpy(lojbuf, cluster);
-  strcpy(lojbuf2, cluster);
+  lojbuf = new_string(cluster);
 
   /* May eventually want context dependence here since many of the
      cases are tag/tense sorts of thing */
@@ -1229,22 +1225,22 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
       case TSC_OTHER:
         break;
       case TSC_TERM:
-        strcat(lojbuf, "@TERM");
+        lojbuf = extend_string(lojbuf, "@TERM");
         break;
       case TSC_NOUN:
-        strcat(lojbuf, "@NOUN");
+        lojbuf = extend_string(lojbuf, "@NOUN");
         break;
       case TSC_SELBRI:
-        strcat(lojbuf, "@SELBRI");
+        lojbuf = extend_string(lojbuf, "@SELBRI");
         break;
       case TSC_LINK:
-        strcat(lojbuf, "@LINK");
+        lojbuf = extend_string(lojbuf, "@LINK");
         break;
       case TSC_CONNECT:
-        strcat(lojbuf, "@CONNECT");
+        lojbuf = extend_string(lojbuf, "@CONNECT");
         break;
       case TSC_JAITAG:
-        strcat(lojbuf, "@JAI");
+        lojbuf = extend_string(lojbuf, "@JAI");
         break;
     }
   }
@@ -1253,9 +1249,12 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   if (!trans) {
     /* If no form with the @SELBRI etc tacked on, try to translate
        just the plain cluster without the contextual information added */
-    trans = translate(lojbuf2);
+    trans = translate(cluster);
   }
 
+  Free(lojbuf);
+  Free(cluster);
+
   if (trans) {
     strcpy(localtrans, trans);
     if ((what == SHOW_LOJBAN) ||
@@ -1286,9 +1285,47 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   }
 }
 /*}}}*/
+static int text_length(TreeNode *x)/*{{{*/
+/* Space for the text of a terminal token and for its gloss. */
+{
+  int len = 65536; /* longest gloss of a single word */
+  int i, n;
+
+  switch (x->type) {
+    case N_ZOI:
+      len += strlen(x->data.zoi.text) + 2 * strlen(x->data.zoi.term);
+      break;
+    case N_ZO:
+      len += strlen(x->data.zo.text);
+      break;
+    case N_LOhU:
+      len += strlen(x->data.lohu.text);
+      break;
+    case N_ZEI:
+      len += strlen(x->data.zei.sep_with_zei);
+      n = x->data.zei.nchildren;
+      for (i=0; i<n; i++) {
+        len += 1024; /* gloss of one component, looked up separately */
+      }
+      break;
+    case N_BU:
+      len += strlen(x->data.bu.word);
+      break;
+    case N_BRIVLA:
+      len += strlen(x->data.brivla.word);
+      break;
+    case N_CMENE:
+      len += strlen(x->data.cmene.word);
+      break;
+    default:
+      break;
+  }
+  return len;
+}
+/*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  char *loj, *eng;
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1413,6 +1450,10 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
       (drv->open_bracket)(x->data.zei.brackets, x->data.zei.number);
     }
 
+    loj = new_array(char, text_length(x));
+    eng = new_array(char, text_length(x));
+    loj[0] = eng[0] = 0;
+
     /* FIXME : Need to do lojban word and translation stuff here. */
     get_lojban_word_and_translation(x, loj, eng);
     switch (what) {
@@ -1445,15 +1486,21 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         break;
     }
 
+    Free(loj);
+    Free(eng);
+
     if (what == SHOW_BOTH || what == SHOW_LOJBAN || what == SHOW_LOJBAN_AND_INDICATORS) {
       (drv->close_bracket)(x->data.zei.brackets, x->data.zei.number);
     }
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
+    char *lojbuf;
 
-    lojbuf[0] = 0;
+    loj = new_array(char, text_length(x));
+    eng = new_array(char, text_length(x));
+    lojbuf = new_array(char, text_length(x));
+    loj[0] = eng[0] = lojbuf[0] = 0;
 
     get_lojban_word_and_translation(x, loj, eng);
     if (strchr("aeiou", loj[0])) {
@@ -1508,7 +1555,9 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         break;
     }
 
-
+    Free(loj);
+    Free(eng);
+    Free(lojbuf);
   }
 /*}}}*/
 }
-- 
2.43.0


From 54ff35a4a856f0bafb171bec066f4337b5a18879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 40/62] fix: lexer overran its buffers for long words and zoi
 delimiters, its stack for names with many la

---
 lex1.c | 79 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/lex1.c b/lex1.c
index 83823a8..4c226fa 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,13 +20,14 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+#define MAX_WORD 65536 /* Longest word, including the terminating zero */
+static char zoi_delim[MAX_WORD];
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
 extern int had_bad_tokens; /* in main.c */
 
-static int process_word(char *buf, int start_line, int start_column);
+static void process_word(char *buf, int start_line, int start_column);
 
 /*++++++++++++++++++++++++++++++
 
@@ -175,14 +176,17 @@ add_brivla_token(char *x, int start_line, int start_column, enum BrivlaType briv
 
 /*++++++++++++++++++++++++++++++++++++++
   Handle a single token that has a consonant at the end.  This is basically a
-  cmene, except that checks have to be done for embedded la, lai, doi.
+  cmene, except that checks have to be done for embedded la, lai, doi.  Return
+  what follows such a word (and advance *column to it), which still has to be
+  handled, or NULL.
   ++++++++++++++++++++++++++++++++++++++*/
 
-static void
-process_cmene(char *buf, int start_line, int start_column,
+static char *
+process_cmene(char *buf, int start_line, int *column,
               int is_bad, int can_split, char *ladoi, char *tail)
 {
   TreeNode *tok;
+  int start_column = *column;
 
   if (is_bad)  {
     char prefix[65536], labuf[8];
@@ -195,7 +199,8 @@ process_cmene(char *buf, int start_line, int start_column,
 
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
-    process_word(tail, start_line, start_column+len1+len2);
+    *column = start_column+len1+len2;
+    return tail;
   } else {
     tok = new_node();
     tok->start_line = start_line;
@@ -204,6 +209,7 @@ process_cmene(char *buf, int start_line, int start_column,
     tok->data.cmene.word = new_string(buf);
     add_token(tok);
   }
+  return NULL;
 }
 
 /*++++++++++++++++++++++++++++++++++++++
@@ -232,18 +238,19 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 
 /*++++++++++++++++++++++++++++++++++++++
   Handle a single word delimited by whitespace or periods.  Break it
-  into single words if necessary and handle each in turn.  Return 1 if
-  not EOF, or 0 if fa'o detected.
+  into single words if necessary and handle each in turn.  Return
+  the part of the word that still has to be handled (and advance *start_column
+  to it), or NULL if that's all of it.
 
   char *buf
   ++++++++++++++++++++++++++++++++++++++*/
 
-static int
-process_word(char *buf, int start_line, int start_column)
+static char *
+process_piece(char *buf, int start_line, int *start_column)
 {
-  char buf2[65536];
+  char buf2[MAX_WORD];
   TreeNode *tok;
-  char *word_starts[65536];
+  char *word_starts[MAX_WORD];
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -267,30 +274,30 @@ process_word(char *buf, int start_line, int start_column)
       }
       zoi_data = extend_string(zoi_data, buf);
     }
-    return 1;
+    return NULL;
   }
 
   if (zoi_delim_next) {
     strcpy(zoi_delim, buf);
     zoi_data = new_string("");
     zoi_delim_next = 0;
-    return 1;
+    return NULL;
   }
 
   if (!strcmp(buf, "zoi")) {
     strcpy(zoi_form, "zoi");
     zoi_delim_next = 1;
     zoi_start_line = start_line;
-    zoi_start_col = start_column;
-    return 1;
+    zoi_start_col = *start_column;
+    return NULL;
   }
 
   if (!strcmp(buf, "la'o")) {
     strcpy(zoi_form, "la'o");
     zoi_delim_next = 1;
     zoi_start_line = start_line;
-    zoi_start_col = start_column;
-    return 1;
+    zoi_start_col = *start_column;
+    return NULL;
   }
 
   /* Analyse word type */
@@ -299,7 +306,7 @@ process_word(char *buf, int start_line, int start_column)
   /* FIXME: Need to get morf_xtra info back here, to help with splitting bad
    * cmene */
   morf_type = morf_scan(buf, &pwe, &mx);
-  column = start_column;
+  column = *start_column;
   switch (morf_type) {
     case MT_BOGUS:
       fprintf(stderr, "Unrecognizable word '%s' at line %d column %d\n",
@@ -331,12 +338,11 @@ process_word(char *buf, int start_line, int start_column)
       add_brivla_token(*pwe, start_line, column, BVT_FUIVLA4);
       break;
     case MT_CMENE:
-      process_cmene(buf, start_line, column,
-                    mx.u.cmene.is_bad,
-                    mx.u.cmene.can_split,
-                    mx.u.cmene.ladoi,
-                    mx.u.cmene.tail);
-      break;
+      return process_cmene(buf, start_line, start_column,
+                           mx.u.cmene.is_bad,
+                           mx.u.cmene.can_split,
+                           mx.u.cmene.ladoi,
+                           mx.u.cmene.tail);
     case MT_CMAVOS:
       {
         char **pw;
@@ -357,7 +363,15 @@ process_word(char *buf, int start_line, int start_column)
       assert(0);
       break;
   }
-  return 1;
+  return NULL;
+}
+
+static void
+process_word(char *buf, int start_line, int start_column)
+{
+  while (buf) {
+    buf = process_piece(buf, start_line, &start_column);
+  }
 }
 
 #define CLOSE_TOKEN \
@@ -368,7 +382,7 @@ process_word(char *buf, int start_line, int start_column)
     p = buffer; \
   }
 
-#define SET_START if (new_tok) { new_tok = 0; start_line = line; start_column = column; }
+#define SET_START if (new_tok) { new_tok = too_long = 0; start_line = line; start_column = column; }
 
 /*++++++++++++++++++++++++++++++++++++++
   Parse an entire file through to the end.
@@ -379,7 +393,7 @@ process_word(char *buf, int start_line, int start_column)
 void
 parse_file(FILE *f)
 {
-  char buffer[65536]; /* buffer for words */
+  char buffer[MAX_WORD]; /* buffer for words */
   char *p;
   int c;
   int line;
@@ -387,6 +401,7 @@ parse_file(FILE *f)
   int start_line=1, start_column=0; /* These are only initialised to
                                        shut up the compiler */
   int new_tok;
+  int too_long = 0;
   int paren_depth = 0;
 
   zoi_delim[0] = 0;
@@ -451,7 +466,13 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
-            *p++ = c;
+            if (p < buffer + MAX_WORD - 1) {
+              *p++ = c;
+            } else if (!too_long) {
+              fprintf(stderr, "Word too long at line %d column %d\n",
+                      start_line, start_column);
+              had_bad_tokens = too_long = 1;
+            }
             break;
         }
       }
-- 
2.43.0


From 9fa0f1378afc074e20da1737ffa3c89096cc40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 41/62] fix: bracketed output ran out of stack for deeply
 nested text

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 661d06a..57a7a91 100644
--- a/tree.c
+++ b/tree.c
@@ -310,7 +310,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
+  static char buffer[65536 + 2]; /* static, as the nesting can be deep */
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
-- 
2.43.0


From e446c10f394a65b6298efd3e1a29a5c9fe0a8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 42/62] fix: parse traceback overran its table of reductions
 for deeply nested text

---
 tracebk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index 3a8a022..d2f671a 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,8 +17,9 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
+static Reduction *reductions=NULL;
 static int n_reductions=0;
+static int max_reductions=0;
 
 /* command line options in main.c */
 extern int show_backtrace;
@@ -52,6 +53,10 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
+  if (n_reductions == max_reductions) {
+    max_reductions += 1024;
+    reductions = grow_array(Reduction, max_reductions, reductions);
+  }
   reductions[n_reductions].rule = ruleno;
   reductions[n_reductions].state = stateno;
   n_reductions++;
-- 
2.43.0


From 521a406dd91d5030e31f9945158cfccc5b6de340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 43/62] fix: -w without an argument crashed

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 0ab9ae2..1741fe9 100644
--- a/main.c
+++ b/main.c
@@ -211,6 +211,10 @@ main (int argc, char **argv)
       } else {
         /* Get next argument */
         --argc, ++argv;
+        if (argc == 0) {
+          fprintf(stderr, "The -w option needs an argument\n");
+          exit(1);
+        }
         opt_output_width = atoi(*argv);
       }
     } else if (!strcmp(*argv, "--help")) {
-- 
2.43.0


From 565a00497ba9dc584814cd5e83c4f967db69e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:39 +0000
Subject: [PATCH 44/62] fix: elision report: a number with mai after a
 terminator hangs on it like other free modifiers

---
 categ.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/categ.c b/categ.c
index 4f9f0f7..b28fe96 100644
--- a/categ.c
+++ b/categ.c
@@ -810,7 +810,6 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
           case SOI:
           case COI:
           case DOI:
-          case PRIVATE_NUMBER_MAI:
           case TO:
           case XI:
             x->data.cmavo.followed_by_free = 1;
@@ -819,6 +818,9 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
             x->data.cmavo.followed_by_free = 0;
             break;
         }
+      } else if (y->type == N_MARKER &&
+                 y->data.marker.tok == PRIVATE_NUMBER_MAI) {
+        x->data.cmavo.followed_by_free = 1;
       } else {
         x->data.cmavo.followed_by_free = 0;
       }
-- 
2.43.0


From b9a3fbb39f62f8270125d6176af0178d0c7042e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 45/62] fix: elision report: the ku of na ku can not be left
 out

---
 elide.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..a5e0200 100644
--- a/elide.c
+++ b/elide.c
@@ -75,6 +75,9 @@ struct {
 static int prev_token_was_pa_etc = 0;
 static int cur_token_was_pa_etc = 0;
 
+/* The token most recently read into the tokbuf. */
+static int prev_value = 0;
+
 /*++++++++++++++++++++++++++++++++++++++
   Called to set a flag bit
   ++++++++++++++++++++++++++++++++++++++*/
@@ -676,6 +679,9 @@ yylex(void)
       is_elidable = token_is_elidable(tokbuf.buf[old_n].yylval, &is_boiveho);
       tokbuf.flags[old_n].boiveho = is_boiveho;
       tokbuf.flags[old_n].tok_is_number_marker = token_is_number_marker(tokbuf.buf[old_n].yylval);
+      /* The KU of NA KU is not a terminator */
+      if (prev_value == NA && tokbuf.buf[old_n].value == KU) is_elidable = 0;
+      prev_value = tokbuf.buf[old_n].value;
     } while (is_elidable);
 
     clear_conflicts();
-- 
2.43.0


From d8e65599a4b72de48479fbc620d08f2746dad541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 46/62] fix: elision report: notice every number a following
 number would merge with

---
 elide.c | 54 +++++++++++++++++++++++-------------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/elide.c b/elide.c
index a5e0200..3fe90d3 100644
--- a/elide.c
+++ b/elide.c
@@ -73,7 +73,6 @@ struct {
 
 /* Flag indicating that previous token was PA prior to tokens being read into the tokbuf. */ 
 static int prev_token_was_pa_etc = 0;
-static int cur_token_was_pa_etc = 0;
 
 /* The token most recently read into the tokbuf. */
 static int prev_value = 0;
@@ -482,13 +481,13 @@ elide_trace_shift(int yystate, int yychar)
            tokbuf.flags[tokbuf.n - 1].tok_is_number_marker);
 #endif
 
-    /* If non-elidable was a marker that precedes numbers, see whether first
-       elidable in the buffer is boi or ve'o, and whether this was preceded by
-       a token that would merge with the number if all the intervening
-       elidables were discarded.  If so, insert a synthetic conflict by
-       pretending that the marker is shiftable prior to the boi/ve'o.  This
-       will provide the required reporting later. */
-    if (tokbuf.flags[0].boiveho &&
+    /* If non-elidable was a marker that precedes numbers, see whether the
+       elidables in the buffer (boi or ve'o, or lo'o etc if boi itself is not
+       there) were preceded by a token that would merge with the number if all
+       the intervening elidables were discarded.  If so, insert a synthetic
+       conflict by pretending that the marker is shiftable prior to the first
+       of them.  This will provide the required reporting later. */
+    if (tokbuf.n > 1 &&
         prev_token_was_pa_etc &&
         tokbuf.flags[tokbuf.n - 1].tok_is_number_marker) {
         
@@ -645,11 +644,6 @@ yylex(void)
   } /* else ... */
 
 
-  /* Shift along the register to track whether we got a PA or a letter cmavo
-     right before starting a block of elidables */
-
-  prev_token_was_pa_etc = cur_token_was_pa_etc;
-
   /* Otherwise, build up a buffer of arbitrarily many elidables with a single
      non-elidable at the end.  Drain this buffer into the bison layer,
      performing shift-ability checks on the later tokens as each bison state is
@@ -664,6 +658,22 @@ yylex(void)
     return result;
     
   } else {
+    /* Remember whether we got a PA or a letter cmavo right before starting a
+       block of elidables */
+    switch (prev_value) {
+      case PA:
+      case BU:
+      case BY:
+      case LAU:
+      case TEI:
+      case FOI:
+        prev_token_was_pa_etc = 1;
+        break;
+      default:
+        prev_token_was_pa_etc = 0;
+        break;
+    }
+
     tokbuf.rp = tokbuf.n = 0;
     do {
       if (tokbuf.n == tokbuf.max) {
@@ -696,24 +706,6 @@ yylex(void)
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
 
-    if (tokbuf.rp == tokbuf.n) {
-      /* Single token, or non-elidable at end of tokbuf */
-      switch (result) {
-        case PA:
-        case BU:
-        case BY:
-        case LAU:
-        case TEI:
-        case FOI:
-          cur_token_was_pa_etc = 1;
-          break;
-        default:
-          cur_token_was_pa_etc = 0;
-          break;
-
-      }
-    }
-    
     return result;
 
   } 
-- 
2.43.0


From 61f389d74e4d9f979f19d686c8fcd9a52002a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 47/62] fix: bracketed text: show a la'o quotation with its own
 opening word

The default display printed every non-Lojban quotation with 'zoi', so a
la'o name was shown as if it had been a zoi quotation.
---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 57a7a91..6ce5560 100644
--- a/tree.c
+++ b/tree.c
@@ -434,7 +434,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From a1c47311a71d51d383c9b0f2a3142ff9f42ebf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 48/62] fix: tree displays: keep the intensity word after a CAI
 indicator

An indicator word from CAI can be followed by another CAI word which is
attached to it just as for UI, but the tree and bracketed displays only
showed its nai, so the second word was lost.
---
 tree.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/tree.c b/tree.c
index 6ce5560..cef64da 100644
--- a/tree.c
+++ b/tree.c
@@ -125,7 +125,7 @@ print_tree(TreeNode *x, int indent)
         } else {
           printf("CMAVO : %s [%s]\n", cmavo_table[code].cmavo,
                                       selmao_names[cmavo_table[code].ssm_code]);
-          if (cmavo_table[code].selmao == UI) {
+          if (cmavo_table[code].selmao == UI || cmavo_table[code].selmao == CAI) {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               show_indent(indent);
@@ -171,10 +171,6 @@ print_tree(TreeNode *x, int indent)
                   printf("CMAVO : nai [NAI]\n"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf("CMAVO : nai [NAI]\n");
-            }
           }
         }
       }
@@ -367,7 +363,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
         } else {
           int code = x->data.cmavo.code;
           printf("%s", cmavo_table[code].cmavo);
-          if (cmavo_table[code].selmao == UI) {
+          if (cmavo_table[code].selmao == UI || cmavo_table[code].selmao == CAI) {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               printf(" nai");
@@ -386,10 +382,6 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_PEINAI: printf(" pei"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf(" nai");
-            }
           }
         }
         if (do_glossing) {
-- 
2.43.0


From 3fdec3f4b50ba026503d98945119c7d207447f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 49/62] fix: vlatai -el printed [(null)] for a lujvo it could
 not take apart

---
 morf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/morf.c b/morf.c
index 7e2ecb9..44f82dc 100644
--- a/morf.c
+++ b/morf.c
@@ -664,7 +664,7 @@ MorfType morf_scan(char *s, char ***buf_end, struct morf_xtra *arg_xtra)/*{{{*/
         if (expand_lujvo) {
           char *canon;
           canon = canon_lujvo(pstart[-1]);
-          printf(" [%s]", canon);
+          if (canon) printf(" [%s]", canon);
         }
         break;
 
-- 
2.43.0


From f817b1fa285639cb9f2149730b8aa4fa61dae135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 50/62] fix: -bt named the rule after the one reduced (bison's
 internal rule numbers are one higher)

---
 add_trace_to_tabc.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/add_trace_to_tabc.pl b/add_trace_to_tabc.pl
index 3186075..37caaec 100644
--- a/add_trace_to_tabc.pl
+++ b/add_trace_to_tabc.pl
@@ -35,8 +35,8 @@ while (<>) {
         print "report_trace_shift(yychar);\n";
     } elsif (m{^\s*yyreduce\:}o) {
         print;
-        print "elide_trace_reduce(yystate, yyn);\n";
-        print "report_trace_reduce(yystate, yyn);\n";
+        print "elide_trace_reduce(yystate, yyn - 1);\n";
+        print "report_trace_reduce(yystate, yyn - 1);\n";
         
     } elsif (m{^\s*yyerrlab\:}o) {
         print;
-- 
2.43.0


From 790b2d153293a244a342de850783639d1f43bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 51/62] fix: with -re a missing selbri before gi'e was reported
 at line 1 column 1

---
 elide.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/elide.c b/elide.c
index 3fe90d3..976287e 100644
--- a/elide.c
+++ b/elide.c
@@ -629,6 +629,7 @@ yylex(void)
 {
   extern YYSTYPE yylval;
   extern YYLTYPE yylloc;
+  extern YYLTYPE full_yylloc; /* ditto, of the parser for the strict grammar */
   int result;
   int old_n;
   int is_elidable;
@@ -639,7 +640,7 @@ yylex(void)
     TokenType tok;
     yylex1(&tok);
     yylval = tok.yylval;
-    yylloc = tok.yylloc;
+    full_yylloc = yylloc = tok.yylloc;
     return tok.value;
   } /* else ... */
 
@@ -651,7 +652,7 @@ yylex(void)
 
   if (tokbuf.rp < tokbuf.n) {
     yylval = tokbuf.buf[tokbuf.rp].yylval;
-    yylloc = tokbuf.buf[tokbuf.rp].yylloc;
+    full_yylloc = yylloc = tokbuf.buf[tokbuf.rp].yylloc;
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
@@ -701,7 +702,7 @@ yylex(void)
 #endif
 
     yylval = tokbuf.buf[0].yylval;
-    yylloc = tokbuf.buf[0].yylloc;
+    full_yylloc = yylloc = tokbuf.buf[0].yylloc;
     result = tokbuf.buf[0].value;
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
-- 
2.43.0


From 8ee972e9d373a25ff39bef5020d070d1cae0e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 52/62] fix: the indentation of -bt's rules went to standard
 output

---
 tracebk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index d2f671a..38b9ef0 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -35,7 +35,7 @@ display_rule(int ruleno, int indent, int focus)
   unsigned short *rulerhs = require_elidables ? full_rulerhs : norm_rulerhs;
 
 
-  for (i=0; i<indent; i++) fputc(' ', stdout);
+  for (i=0; i<indent; i++) fputc(' ', stderr);
   fprintf(stderr, "Rule %d : %s <- ", ruleno, toknames[rulelhs[ruleno]]);
   for (i=0, j=ruleindex[ruleno]; j<ruleindex[ruleno+1]; i++, j++) {
     int rhs = rulerhs[j];
-- 
2.43.0


From ab9a013231f17d82dac76584d15df517fe393bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:29 +0000
Subject: [PATCH 53/62] fix: -bt showed a symbol in the place of an empty
 right-hand side

---
 output2table.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/output2table.pl b/output2table.pl
index 8257259..120f195 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -55,7 +55,7 @@ while (<>) {
 
     die "Unmatched rule [$_]" unless (defined $number);
 
-    if ($rhs =~ m{/\* empty \*/}) {
+    if ($rhs =~ m{/\* empty \*/|%empty}) {
         @r = ();
     } else {
         @r = split(/ /, $rhs);
-- 
2.43.0


From 09c953a522216f9b5bcfa811b21c95a2152d737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:29 +0000
Subject: [PATCH 54/62] fix: -bt read past the end of the rule table when it
 displayed the last rule

---
 output2table.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/output2table.pl b/output2table.pl
index 120f195..4ae834d 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -161,7 +161,7 @@ print "};\n";
 $n=0;
 $t = 0;
 print "static unsigned short ".$prefix."_ruleindex[] = {\n";
-for ($s=0;$s<=$#lhs;$s++) {
+for ($s=0;$s<=$#lhs+1;$s++) {
     print ", " unless ($n==0);
     printf "%d", $t;
     $n++;
-- 
2.43.0


From 4f0dbe79a858629cf39cef7ccbfec289179f2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:10 +0000
Subject: [PATCH 55/62] fix: cmafihe read before the start of a cluster that
 begins with an unknown vowel

---
 cm_gather.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..e2b3c13 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -193,7 +193,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiuo'", *e));
       }
     }
     if (bufout[0]) {
-- 
2.43.0


From 194e21cc46350912e6cd6b7d591b08668439cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 56/62] fix: cmafihe took the pause inside a cmavo cluster for
 part of the next cmavo

---
 cm_gather.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cm_gather.c b/cm_gather.c
index e2b3c13..629c13a 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -183,6 +183,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
         }
         strcat(bufout, t);
         pbuf += len;
+        if (*pbuf == '.') ++pbuf;
 #if DIAG
         fprintf(stderr, "Now looking at %s\n", pbuf);
 #endif
-- 
2.43.0


From d468c4efb09937fb27cb4ef4dab87d1f95178795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 57/62] fix: cmafihe cut cmavo containing y in two when it
 divided a cluster

---
 cm_gather.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index 629c13a..5442662 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -194,7 +194,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (e > pbuf && strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiouy'", *e));
       }
     }
     if (bufout[0]) {
@@ -203,7 +203,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
     strcat(bufout, "?");
     do {
       pbuf++;
-    } while (*pbuf && strchr("aeiou'", *pbuf));
+    } while (*pbuf && strchr("aeiouy'", *pbuf));
 
     if (*pbuf == '.') ++pbuf;
 
-- 
2.43.0


From 52dd32518922cef72946a6c3c4dc10b0a18b497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 58/62] fix: cmafihe glossed every later part of a lujvo as
 converted after an unlisted se-conversion

---
 cm_translate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..d3ca3fc 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -93,6 +93,7 @@ translate_comp(char *w, int *conversion)
       } else {
         strcat (result, "??");
       }
+      *conversion = 0;
       return result;
     }
   } else {
-- 
2.43.0


From babd4d8939335b1ed66fd63ff38afeaad5c21ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 59/62] fix: cmafihe began the gloss of a lujvo with a se-rafsi
 in front with a stray hyphen

---
 cm_translate.c | 40 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index d3ca3fc..ac584b1 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -38,22 +38,12 @@ translate(char *word)
 /* ================================================== */
 
 static void
-append_trans(char *trans, char *result, int initial)
+append_trans(char *trans, char *result)
 {
-  if (trans) {
-    if (initial) {
-      strcpy(result, trans);
-    } else {
-      strcat(result, "-");
-      strcat(result, trans);
-    }
-  } else {
-    if (initial) {
-      strcpy(result, "?");
-    } else {
-      strcat(result, "-?");
-    }
+  if (*result) {
+    strcat(result, "-");
   }
+  strcat(result, trans ? trans : "?");
 }
 
 
@@ -126,7 +116,7 @@ translate_lujvo(char *word)
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, initial);
+      append_trans(trans, result);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -137,17 +127,7 @@ translate_lujvo(char *word)
         strcpy(buf,"%");
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
-        if (trans) {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, trans);
-        } else {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, "?");
-        }
+        append_trans(trans, result);
         break;
       } else {
         /* Try to pull off leading rafsi component and process remainder */
@@ -170,7 +150,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -179,7 +159,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, initial);
+          append_trans(trans, result);
           w += 5; /* and go around again */
 
         } else {
@@ -193,7 +173,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -218,7 +198,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, initial);
+              append_trans(trans, result);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
-- 
2.43.0


From 5e31bebdc6295a66558a6ad45464f0ad89425740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 60/62] fix: cmafihe overran its buffers on the selma'o of a
 long cmavo cluster

---
 cm_gather.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index 5442662..e57c7db 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -135,10 +135,13 @@ try_cmavo_fragment(node *p)
 
 static char *
 translate_selmao(char *x) {
-  char buffer[64];
+  char *buffer = (char *) malloc(2+strlen(x));
+  char *result;
   strcpy(buffer, "+");
   strcat(buffer, x);
-  return translate(buffer);
+  result = translate(buffer);
+  free(buffer);
+  return result;
 }
 
 /* ================================================== */
@@ -223,7 +226,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -234,9 +236,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
-- 
2.43.0


From d8e1155f8b3adcf5dfb438b8121ed4dc4b6d35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 61/62] fix: cmafihe -b overran its line buffers on a long
 remark or a large width

---
 cm_output.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cm_output.c b/cm_output.c
index 5880bd5..ab10b2c 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,13 +19,13 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+/* The three lines of the block being built up, grown as required */
+static char *lines[3];
+static int line_alloc;
 static int width_used;
 
 /* ================================================== */
@@ -38,8 +38,8 @@ block_newline(void)
     printf("%s\n", lines[1]);
     printf("%s\n", lines[2]);
     printf("\n");
+    lines[0][0] = lines[1][0] = lines[2][0] = 0;
   }
-  lines[0][0] = lines[1][0] = lines[2][0] = 0;
   width_used = 0;
 }
 
@@ -78,9 +78,19 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
-  append_content(&lines[0][0], a1, l1, ml+1);
-  append_content(&lines[1][0], a2, l2, ml+1);
-  append_content(&lines[2][0], a3, l3, ml+1);
+  if (width_used + ml + 2 > line_alloc) {
+    int i;
+    int old_alloc = line_alloc;
+    line_alloc = width_used + ml + 512;
+    for (i=0; i<3; i++) {
+      lines[i] = (char *) realloc(lines[i], line_alloc);
+      if (old_alloc == 0) lines[i][0] = 0;
+    }
+  }
+
+  append_content(lines[0], a1, l1, ml+1);
+  append_content(lines[1], a2, l2, ml+1);
+  append_content(lines[2], a3, l3, ml+1);
   
   width_used += (ml + 1);
   return;
@@ -108,7 +118,6 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
-      lines[0][0] = lines[1][0] = lines[2][0] = 0;
       width_used = 0;
       break;
 #ifdef PLIST
-- 
2.43.0


From d24b499473a7a892bcd06c8a1d7a8d41b9d59a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 62/62] fix: cmafihe read past its arguments when -w came last

---
 cm_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cm_main.c b/cm_main.c
index e929ab0..90d4207 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -39,6 +39,10 @@ main (int argc, char **argv)
       ofmt = OF_PLIST;
 #endif 
     } else if (!strcmp(*argv, "-w")) {
+      if (argc == 1) {
+        fprintf(stderr, "The -w option requires a width\n");
+        exit(1);
+      }
       ++argv, --argc;
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
-- 
2.43.0

