From f0b8dfc4caf4404d374d65a0ebece1b102e5d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:52 +0000
Subject: [PATCH 001/121] fix: pd_copy keeps the component tag and uid of a
 0-crossing diagram

---
 src/pdcode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..5ff8802 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2723,7 +2723,12 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *unknot = pd_build_unknot(0);
+
+    unknot->comp[0].tag = pd->comp[0].tag;
+    unknot->uid = pd->uid;
+
+    return unknot;
 
   }
 
-- 
2.43.0


From 2206edb6ac63214b9cc1ac28e8688a176eb79300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:52 +0000
Subject: [PATCH 002/121] fix: deleting the loop of a 1-crossing diagram keeps
 the component tag

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..d90b7e0 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -464,7 +464,9 @@ pd_code_t *pd_R1_loopdeletion(pd_code_t *pd,pd_idx_t cr)
 
     if (pd->ncomps == 1 && pd->ncross == 1 && pd->nedges == 2 && pd->nfaces == 3) {
 
-      return pd_build_unknot(0);
+      pd_code_t *unknot = pd_build_unknot(0);
+      unknot->comp[0].tag = pd->comp[0].tag;
+      return unknot;
 
     } else {
 
-- 
2.43.0


From ed9cb5660b57f2baed97f91b2179f5ffc78cb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:52 +0000
Subject: [PATCH 003/121] fix: pd_connect_sum with a 0-crossing unknot read and
 wrote out of bounds

---
 src/pd_crossingmoves.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index d90b7e0..6f64fb7 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2300,6 +2300,15 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* The connect sum with a 0-crossing unknot (which has no crossings
+     to join edges to) is just a copy of the other summand. */
+
+  if (pdA->ncross == 0 || pdB->ncross == 0) {
+
+    return pd_copy(pdA->ncross == 0 ? pdB : pdA);
+
+  }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From 8a7f91f0411d6708a700c5fa7485ddb902c50871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 004/121] fix: pd_diagram_isotopic answers false for different
 tag sets instead of exiting

---
 src/pd_isomorphisms.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..d25da28 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,11 +2562,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* The tag sets don't match, so there are no diagram isotopies. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
+      *nisos = 0;
+      return NULL;
 
     }
 
-- 
2.43.0


From 98d91baec5c8dc5da794bfd57a64af825802c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 005/121] fix: pd_diagram_isotopic distinguishes the two
 directions of a 2-edge component

---
 src/pd_isomorphisms.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index d25da28..f62d8b1 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2476,6 +2476,27 @@ pd_edgemap_t **pd_build_oriented_edgemaps(pd_code_t *pdA,pd_code_t *pdB,pd_perm_
 
 }
 
+bool pdint_iso_preserves_edge_ends(pd_iso_t *iso,pd_code_t *pdA,pd_code_t *pdB)
+/* The cyclic order of edges around crossings doesn't determine the direction of
+   a component with only two edges. So we have to check separately that the
+   head (tail) of each edge of pdA maps to the head (tail) of its image in pdB. */
+{
+  pd_idx_t i;
+
+  if (pdA->ncross == 0) { return true; }
+
+  for(i=0;i<pdA->nedges;i++) {
+
+    pd_edge_t *eA = &(pdA->edge[i]), *eB = &(pdB->edge[iso->edgemap->perm->map[i]]);
+
+    if (iso->crossmap->perm->map[eA->head] != eB->head ||
+	iso->crossmap->perm->map[eA->tail] != eB->tail) { return false; }
+
+  }
+
+  return true;
+}
+
 pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int *nisos)
 /* Returns a buffer of 0, 1, or 2 diagram isotopies between pdA and pdB. */
 {
@@ -2636,7 +2657,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 	  new_iso->facemap  = pd_copy_facemap(facemaps[map]);
 
 	  assert(pd_diagram_isotopy_ok(new_iso,pdA,pdB)); /* Check ok-ness as we generate */
-	  pd_addto_container(isos,new_iso);
+
+	  if (pdint_iso_preserves_edge_ends(new_iso,pdA,pdB)) {
+	    pd_addto_container(isos,new_iso);
+	  } else {
+	    pd_free_iso(&new_iso);
+	  }
 
 	}
 
@@ -2662,7 +2688,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 	}
 
 	assert(pd_diagram_isotopy_ok(new_iso,pdA,pdB)); /* Check ok-ness as we generate */
-	pd_addto_container(isos,new_iso);
+
+	if (pdint_iso_preserves_edge_ends(new_iso,pdA,pdB)) {
+	  pd_addto_container(isos,new_iso);
+	} else {
+	  pd_free_iso(&new_iso);
+	}
 
       }
 
-- 
2.43.0


From 7a2d4cbf82d5a754ccde3097b9fddda7a2ee08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 006/121] fix: packing bits shifted 1 into the sign bit of an
 int

---
 src/pd_pack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..6e92e5e 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -71,10 +71,10 @@ unsigned int pd_packbits(unsigned int ncross,pd_signcross_t crtype)
 
 /* We now give code for unpacking a string of unsigned ints into bits and vice versa */
 
-#define SET_BIT(val, bitIndex)     val |= (1 << bitIndex)
-#define CLEAR_BIT(val, bitIndex)   val &= ~(1 << bitIndex)
-#define TOGGLE_BIT(val, bitIndex)  val ^= (1 << bitIndex)
-#define BIT_IS_SET(val, bitIndex) (val & (1 << bitIndex))
+#define SET_BIT(val, bitIndex)     val |= (1u << bitIndex)
+#define CLEAR_BIT(val, bitIndex)   val &= ~(1u << bitIndex)
+#define TOGGLE_BIT(val, bitIndex)  val ^= (1u << bitIndex)
+#define BIT_IS_SET(val, bitIndex) (val & (1u << bitIndex))
 
 unsigned int *pd_packbitstring(unsigned int *intform,unsigned int nints,unsigned int *packints)
 /* Convert a string of unsigned ints, each 1 or 0, into a
-- 
2.43.0


From 1d1398203a807695b534aa93832ed56927fc4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:01 +0000
Subject: [PATCH 007/121] fix: unpacking an unsigned diagram leaves its
 crossing signs unset

---
 src/pd_pack.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 6e92e5e..9d20290 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -264,6 +264,7 @@ void pd_crossing_bitdecode(unsigned int *bitcode,pd_idx_t cr, pd_code_t *pd,pd_s
     
   } else {
 
+    pd->cross[cr].sign = PD_UNSET_ORIENTATION;
     ofs = 0;
 
   }
@@ -419,10 +420,14 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   free(intstring);
   pd->nedges = 2*pd->ncross;
   
-  /* We should have (possibly signed) crossings and edges now,
-     and it should be ok to call pd_regenerate. */
-
-  pd_regenerate(pd);
+  /* We should have (possibly signed) crossings and edges now, so we
+     regenerate everything else. We can't call pd_regenerate, as this would
+     discard the (unpacked) edge orientations if the crossings are unsigned. */
+
+  pd_regenerate_crossings(pd);
+  pd_regenerate_comps(pd);
+  pd_regenerate_faces(pd);
+  pd_regenerate_hash(pd);
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From d2c3b0f23be3e5b975794d11e0a2510e8b02ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:01 +0000
Subject: [PATCH 008/121] fix: the 0-crossing unknot can be packed, unpacked
 and stored

---
 src/pd_pack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 9d20290..3c2ffee 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -303,6 +303,13 @@ unsigned int *pd_pack(pd_code_t *pd,unsigned int *packedlength)
   int k;
   bool crossings_consistent = true;
 
+  if (pd->ncross == 0) { /* The 0-crossing unknot has no crossings to encode. */
+
+    *packedlength = 1;
+    return calloc(1,sizeof(unsigned int));
+
+  }
+
   if (pd->cross[0].sign == PD_UNSET_ORIENTATION) {
 
     for(k=1;k<pd->ncross;k++) {
@@ -388,6 +395,8 @@ pd_code_t *pd_unpack(unsigned int *bitform)
   
   pd_idx_t ncross;
   pd_signcross_t crtype;
+
+  if (bitform[0] == 0) { return pd_build_unknot(0); }
   
   if ((int)(bitform[0]) > 0) {
 
-- 
2.43.0


From 4bf48f5258722aac7039503350528c4ccc245c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:57 +0000
Subject: [PATCH 009/121] fix: pd_diagram_isotopic exited when corresponding
 tags were in a different component order

---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index f62d8b1..b7bb7e8 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2596,6 +2596,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   /* We SHOULD have assembled a permutation of components. */
 
+  pd_regenerate_pcidx(comp_perm);
+
   if (!pd_perm_ok(comp_perm)) {
 
     pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-- 
2.43.0


From 7808a92bfbf127f01e1b4c564df932a85f47b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 010/121] fix: pd_read overran its hash buffer on a 32
 character hash

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5ff8802..1d1db77 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3154,7 +3154,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1); /* leave room for the 0 */
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
-- 
2.43.0


From 316492550dd39fe03945b493e13099e28b0a25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 011/121] fix: pd_read used unchecked crossing numbers from the
 file as array indices

---
 src/pdcode.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 1d1db77..7774caa 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3411,6 +3411,17 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    if (input_temp >= pd->ncross || input_temp3 >= pd->ncross ||
+	input_temp2 >= 4 || input_temp4 >= 4) {
+
+      pd_error(SRCLOC,
+	       "edge %d refers to a crossing or position which doesn't exist\n",pd,edge);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
     pd->edge[edge].tail = (pd_idx_t)(input_temp);
     pd->edge[edge].tailpos = (pd_pos_t)(input_temp2);
 
-- 
2.43.0


From 3d04608e15b8413d3a45f1765d732d3818da49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 012/121] fix: pd_comps_ok read past the edge buffer on a
 component with an illegal edge number

---
 src/pdcode.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 7774caa..7c4df08 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2384,6 +2384,13 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP contains illegal edge number (not < number of edges %d) in pd %PD",
+			pd,comp,pd->nedges);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
-- 
2.43.0


From 43dafdc56d8e2d006f09c7d2fa86224c61ccd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 013/121] fix: pd_faces_ok divided by zero on a face with no
 edges

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 7c4df08..f1d5b99 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2540,6 +2540,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"face %d of %d has no edges in pd %PD",pd,face,pd->nfaces);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
-- 
2.43.0


From 616b822bd891731c59cdc6aac78f370d9c772e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 014/121] fix: pd_comps_ok skipped the lowest tag when checking
 for illegal tags

---
 src/pdcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index f1d5b99..e1de4c1 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2425,9 +2425,9 @@ bool pd_comps_ok(pd_code_t *pd)
 
   qsort(tagset,pd->ncomps,sizeof(pd_tag_t),pd_tag_cmp);
 
-  for(i=1;i<pd->ncomps;i++) {
+  for(i=0;i<pd->ncomps;i++) {
 
-    if (tagset[i] == tagset[i-1]) {
+    if (i > 0 && tagset[i] == tagset[i-1]) {
 
       pd_idx_t compA, compB;
       bool Afound = false, Bfound = false;
-- 
2.43.0


From bc704fa45af784d692d87d0a45bc1aaaca387332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 015/121] fix: pd_read reports every truncated file as
 PD_BAD_FORMAT

---
 src/pdcode.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index e1de4c1..6c026f4 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3301,7 +3301,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
@@ -3452,6 +3452,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
@@ -3528,7 +3529,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     /* Skip whitespace until we find a character... */
 
     char testchar;
-    fscanf(infile," %c",&testchar);
+    if (fscanf(infile," %c",&testchar) != 1) {
+
+      pd_error(SRCLOC,"pdcode file ends after component %d\n",pd,comp);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
 
     if (testchar == 't') { /* for tag */
 
-- 
2.43.0


From 3d82188b8c97fe28fe12efc721786dfae42cd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 016/121] fix: pd_read returns NULL on a malformed diagram
 instead of aborting

---
 src/pdcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 6c026f4..5d141da 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3671,7 +3671,10 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
 }
 pd_code_t *pd_read(FILE *infile) {
-    return pd_read_err(infile, NULL);
+    int err = PD_NO_ERROR;
+    pd_code_t *pd = pd_read_err(infile, &err);
+    if (err != PD_NO_ERROR) { pd_code_free(&pd); } /* sets pd to NULL */
+    return pd;
 }
 
 pd_code_t *pd_read_KnotTheory(FILE *infile)
-- 
2.43.0


From 79d9d38be0c0b807c1a492d02a78e7c0dec23576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 017/121] fix: pd_read keeps the uid of a 0-crossing diagram

---
 src/pdcode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5d141da..bc588ec 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3310,6 +3310,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
+    outcode->uid = uid;
 
     /* Now we continue to scan until we see the letter p (a new pd-code) or feof. */
 
-- 
2.43.0


From 4ecb90db1e028e42fdb7130591820daafbc98bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:34 +0000
Subject: [PATCH 018/121] fix: pd_read rejects a diagram whose list of faces is
 incomplete

---
 src/pdcode.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index bc588ec..3a2df8b 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3132,6 +3132,39 @@ void pd_write_c(FILE *outfile, pd_code_t *pd, char *pdname)
 
 }
 
+static bool pdint_faces_complete(pd_code_t *pd)
+
+/* Checks that every edge occurs once on a face in each orientation, so that
+   the faces given really are all of the faces of the diagram (pd_faces_ok
+   only checks each face separately). Assumes that pd_ok passes. */
+
+{
+  bool complete = true;
+  pd_idx_t face,edge;
+  int *sides_seen = calloc(2*pd->nedges,sizeof(int));
+  assert(sides_seen != NULL);
+
+  for(face=0;face<pd->nfaces;face++) {
+
+    for(edge=0;edge<pd->face[face].nedges;edge++) {
+
+      sides_seen[2*pd->face[face].edge[edge] +
+		 (pd->face[face].orient[edge] == PD_POS_ORIENTATION ? 1 : 0)]++;
+
+    }
+
+  }
+
+  for(edge=0;edge<2*pd->nedges;edge++) {
+
+    if (sides_seen[edge] != 1) { complete = false; }
+
+  }
+
+  free(sides_seen);
+  return complete;
+}
+
 pd_code_t *pd_read_err(FILE *infile, int *err)
 
 /* Reads an (ASCII) pd code written by pd_write. Return a pointer if we succeed, NULL if we fail. */
@@ -3665,7 +3698,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  pd_err_check((pd_ok(pd) && pdint_faces_complete(pd)), err, PD_NOT_OK, pd);
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From b0a655e6bac8476c1b3609b8d52fba2df670da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 019/121] fix: pd_read overflowed its buffer sizes on an absurd
 number of crossings

---
 src/pdcode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 3a2df8b..3807baf 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3302,6 +3302,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      at least two more crossings than we see now (to prevent zero
      crossing diagrams from crashing everything). */
 
+  if (input_temp > PD_UNSET_IDX/2 - 1) { /* The number of edges couldn't be a pd_idx_t */
+
+    pd_error(SRCLOC,"pd code can't have %d crossings\n",NULL,(int)(input_temp));
+    pd_err_set(err, PD_BAD_FORMAT);
+    return NULL;
+
+  }
+
   if ((pd_idx_t)(input_temp) == 0) {
 
     /* If we're a zero-crossing unknot, there is one piece of
-- 
2.43.0


From c17dacce332754950d3b9ef65824a5faf326a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 020/121] fix: pd_read checks the size of a component before
 allocating it

---
 src/pdcode.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 3807baf..b971d12 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3533,11 +3533,6 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
     if (pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
@@ -3550,6 +3545,11 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
-- 
2.43.0


From cd8316d1da130421157bfd1e2b7be8a2f0b0d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:41 +0000
Subject: [PATCH 021/121] fix: pd_read_KnotTheory misread two-edge components
 and used unchecked edge numbers

The direction of components was guessed from edge numbers crossing by
crossing and then patched for some arrangements of two-edge components;
other arrangements came out inconsistent. Edge numbers from the file were
used as indices without a check. Propagate directions from the under
strands instead, and return NULL for text which isn't a link diagram.
---
 src/pdcode.c | 565 ++++++++++-----------------------------------------
 1 file changed, 107 insertions(+), 458 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index b971d12..e0f347e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3799,525 +3799,176 @@ ones we don't need.
   pd_code_t *pd = pd_code_new(crbuf_used+2);
   assert(pd != NULL);
 
-  pd_idx_t cr;
-
-  /* Now we're going to scan through and set crossings AND EDGES. */
-
-  for(cr=0;cr<crbuf_used;cr++) {
-
-    pd_idx_t j;
-    for(j=0;j<4;j++) {
-
-      pd->cross[cr].edge[j] = crbuf[cr].edge[j]-1;
-
-      if (j==0) { /* We're definitely going IN */
-
-	pd->edge[pd->cross[cr].edge[j]].head = cr;
-	pd->edge[pd->cross[cr].edge[j]].headpos = 0;
-
-      } else if (j==2) { /* We're definitely going OUT */
-
-	pd->edge[pd->cross[cr].edge[j]].tail = cr;
-	pd->edge[pd->cross[cr].edge[j]].tailpos = 2;
-
-      }
-
-      /* In positions 1 and 3 we don't know yet, and we'll have to
-	 use more information to figure out edge orientation. */
-
-    }
-
-    /* Determining sign is a lot trickier. Recall that the
-       convention used to determine sign is this:
-
-            ^
-            |
-       ----------->
-            |
-            |
-	    0
-
-     positive crossing
-     (upper tangent vector) x (lower tangent vector) points OUT of screen.
-     This is true when the edges in positions 1 and 3 are in the order 3 -> 1.
-
-            ^
-            |
-      0-----|----->
-            |
-            |
-
-     negative crossing
-     (upper tangent vector) x (lower tangent vector) points INTO screen.
-     This is true when the edges in positions 1 and 3 are in the order 1 -> 3.
-
-     The problem (and it's a large one) is that the edge numbers wrap
-     around at the end of the component.
-
-     So if pd->cross[cr].edge[3] and pd->cross[cr].edge[1] differ by
-     1, we know which way the strand is going -- it's going in the
-     "up" direction.
-
-     If they differ by more than one, the strand indices are wrapping
-     around, and the strand goes in the "down" direction.
-
-     For a 2 edge component, we're going to need a better algorithm:
-
-        If the two-edge component lies OVER the remainder of the link,
-	its' orientation is genuinely unspecified by the KnotTheory
-	data. In this case, we can assign either orientation to the
-	component, but must do so consistently.
-
-	If the two-edge component is Hopf-linked to the rest of the link,
-	it's orientation IS specified, but only by the crossing where it
-	goes UNDER.
-
-    */
-
-    if (pd->cross[cr].edge[3] - pd->cross[cr].edge[1] == 1) { // 1 -> 3
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else if (pd->cross[cr].edge[1] - pd->cross[cr].edge[3] == 1) { // 3 -> 1
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
-    } else if (pd->cross[cr].edge[1] > pd->cross[cr].edge[3]) { // 1 -> 3, wrapping
-
-      pd->cross[cr].sign = PD_NEG_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[1]].head = cr;
-      pd->edge[pd->cross[cr].edge[1]].headpos = 1;
-
-      pd->edge[pd->cross[cr].edge[3]].tail = cr;
-      pd->edge[pd->cross[cr].edge[3]].tailpos = 3;
-
-    } else { // 3 -> 1, wrapping
-
-      pd->cross[cr].sign = PD_POS_ORIENTATION;
-
-      pd->edge[pd->cross[cr].edge[3]].head = cr;
-      pd->edge[pd->cross[cr].edge[3]].headpos = 3;
-
-      pd->edge[pd->cross[cr].edge[1]].tail = cr;
-      pd->edge[pd->cross[cr].edge[1]].tailpos = 1;
-
-
-    }
-
-  }
+  pd_idx_t cr,edge,j;
 
   pd->ncross = crbuf_used;
   pd->nedges = 2*crbuf_used;
-  pd->nfaces = crbuf_used + 2;
-
-  /* We now search for two-edge components in the list. Unfortunately,
-     none of the existing "regenerate" codes are going to do the trick here,
-     because they all resort the crossings, losing the information we'll
-     need to correct our past errors (if any).
-  */
-
-  pd_idx_t crA, crB;
-
-  for(crA=0;crA<pd->ncross-1;crA++) {
-
-    for(crB=crA+1;crB<pd->ncross;crB++) {
-
-
-      /*       +------<--e2-----+
-	       |                |
-	       |0               |2
-	   1   |    3        3  |   1
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |2               |0
-	       |                |
-	       +------->--e1----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-
-      /*       +------->-e2-----+
-	       |                |
-	       |2               |0
-	   3   |    1        1  |   3
-	+-------------->---------------+
-	 crA   |                |   crB
-	       |0               |2
-	       |                |
-	       +-------<-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[1]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +------->-e2-----+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +-------<--e1----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |3               |3
-	   0   |    2        0  |   2
-	+------|------->--------|------+
-	 crA   |                |   crB
-	       |1               |1
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------->-e2----+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +-------<-e1-----+
-
-	   taken as default, instead of
-
-	       +----------------+
-	       |                |
-	       |1               |1
-	   2   |    0        2  |   0
-	+------|-------<--------|------+
-	 crA   |                |   crB
-	       |3               |3
-	       |                |
-	       +------->--------+
-
-	   which has the same pd code.
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[0]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
-
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
-
-      }
-
-      /*       +-------<---e2---+
-	       |                |
-	       |3               |2
-	   0   |    2        3  |   1
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |0
-	       |                |
-	       +------->---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2]) {
-
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
-
-	pd_idx_t e1, e2;
-
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
-
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  pd->nfaces = 0;
 
-      }
+  /* Each edge has to occur at exactly two places, which we number 4*crossing + position. */
 
-      /*       +------<---e2----+
-	       |                |
-	       |1               |2
-	   2   |    0        3  |   1
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |0
-	       |                |
-	       +------->--e1----+
+  int (*place)[2] = calloc(pd->nedges,sizeof(int[2]));
+  int *nplaces = calloc(pd->nedges,sizeof(int));
+  int *dir = calloc(4*pd->ncross,sizeof(int)); /* +1: edge goes in here, -1: edge goes out, 0: unknown */
+  int *todo = calloc(4*pd->ncross,sizeof(int));
+  bool *face_seen = calloc(4*pd->ncross,sizeof(bool));
+  int ntodo = 0,p;
+  bool corrupt = false;
 
-      */
+  assert(place != NULL && nplaces != NULL && dir != NULL && todo != NULL && face_seen != NULL);
 
-      if (pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[0]) {
+  for(cr=0;cr<pd->ncross && !corrupt;cr++) {
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+    for(j=0;j<4 && !corrupt;j++) {
 
-	pd_idx_t e1, e2;
+      edge = crbuf[cr].edge[j]-1;
 
-	e1 = pd->cross[crB].edge[0];
-	e2 = pd->cross[crB].edge[2];
+      if (edge >= pd->nedges || nplaces[edge] == 2) { corrupt = true; }
+      else {
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	pd->cross[cr].edge[j] = edge;
+	place[edge][nplaces[edge]++] = 4*cr + j;
 
       }
 
-      /*       +------->---e2---+
-	       |                |
-	       |1               |0
-	   2   |    0        1  |   3
-	+------|-------<---------------+
-	 crA   |                |   crB
-	       |3               |2
-	       |                |
-	       +-------<---e1---+
-
-      */
-
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[0]) {
+    }
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+  }
 
-	pd_idx_t e1, e2;
+  free(crbuf);
 
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
+  /* We work out the direction of the edges. Position 0 is definitely IN
+     and position 2 is definitely OUT. Since strands go straight through
+     crossings, this determines the direction of every component which goes
+     under anywhere. If a component always goes over, we use the order of the
+     edge numbers along a strand (they are consecutive, except where they wrap
+     around at the end of the component). The direction of a component with
+     only two edges which always goes over is genuinely unspecified by the
+     KnotTheory data, so we can assign either one. */
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  for(cr=0;cr<pd->ncross && !corrupt;cr++) {
 
-      }
+    dir[4*cr] = +1;  todo[ntodo++] = 4*cr;
+    dir[4*cr+2] = -1; todo[ntodo++] = 4*cr+2;
 
-      /*       +------>---e2----+
-	       |                |
-	       |3               |0
-	   0   |    2        1  |   3
-	+------|------->---------------+
-	 crA   |                |   crB
-	       |1               |2
-	       |                |
-	       +-------<--e1----+
+  }
 
-      */
+  for(cr=0;!corrupt;) {
 
-      if (pd->cross[crB].edge[0] == pd->cross[crA].edge[3] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[1] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2]) {
+    while (ntodo > 0) { /* Tell the other end of the edge and the other end of the strand. */
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+      p = todo[--ntodo];
+      edge = pd->cross[p/4].edge[p%4];
 
-	pd_idx_t e1, e2;
+      int next[2],k;
+      next[0] = (place[edge][0] == p) ? place[edge][1] : place[edge][0];
+      next[1] = (p - p%4) + (p%4 + 2)%4;
 
-	e1 = pd->cross[crB].edge[2];
-	e2 = pd->cross[crB].edge[0];
+      for(k=0;k<2;k++) {
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+	if (dir[next[k]] == 0) { dir[next[k]] = -dir[p]; todo[ntodo++] = next[k]; }
+	else if (dir[next[k]] != -dir[p]) { corrupt = true; }
 
       }
 
+    }
 
-      /*       +------<-e2------+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +------->-e1-----+
-
-      */
-
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
-
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+    while (cr < pd->ncross && dir[4*cr+1] != 0) { cr++; }
+    if (cr == pd->ncross) { break; }
 
-	pd_idx_t e1, e2;
+    /* The component through positions 1 and 3 is always over. Go around it until
+       we see consecutive edge numbers somewhere, looking in both directions. */
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+    int start = 4*cr+1, best = start;
+    p = start;
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+    do {
 
-      }
+      pd_idx_t in = pd->cross[p/4].edge[p%4], out = pd->cross[p/4].edge[(p%4 + 2)%4];
+      int q = (p - p%4) + (p%4 + 2)%4;
 
-      /*       +-------<--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +------->--e1----+
+      if (out == in + 1) { best = p; }
+      if (in == out + 1) { best = q; }
+      p = (place[out][0] == q) ? place[out][1] : place[out][0];
 
-      */
+      if (in == pd->cross[p/4].edge[(p%4 + 2)%4]) { break; } /* only two edges */
 
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+    } while (p != start && !(best != start));
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+    dir[best] = +1; todo[ntodo++] = best;
 
-	pd_idx_t e1, e2;
+  }
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+  /* Finally, KnotTheory only gives diagrams on the sphere, so the number
+     of faces has to be right. */
 
-	if (pd->edge[e1].head != crB) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crA) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  for(p=0;p<4*(int)(pd->ncross) && !corrupt;p++) {
 
+    int q = p;
+    if (!face_seen[p]) { pd->nfaces++; }
 
-      }
+    while (!face_seen[q]) {
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |1
-	   1   |    3        2  |   0
-	+--------------<--------|------+
-	 crA   |                |   crB
-	       |2               |3
-	       |                |
-	       +-------<--e1----+
+      face_seen[q] = true;
+      edge = pd->cross[q/4].edge[q%4];
+      q = (place[edge][0] == q) ? place[edge][1] : place[edge][0];
+      q = (q - q%4) + (q%4 + 3)%4;
 
-      */
-
-      if (pd->cross[crB].edge[1] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[3] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[2] == pd->cross[crA].edge[3]) {
+    }
 
-	pd->cross[crB].sign = PD_NEG_ORIENTATION;
-	pd->cross[crA].sign = PD_NEG_ORIENTATION;
+  }
 
-	pd_idx_t e1, e2;
+  if (corrupt || pd->nfaces != pd->ncross + 2) {
 
-	e1 = pd->cross[crB].edge[3];
-	e2 = pd->cross[crB].edge[1];
+    printf("pd_read_KnotTheory: File doesn't describe a link diagram.\n");
+    free(place); free(nplaces); free(dir); free(todo); free(face_seen);
+    pd_code_free(&pd);
+    return NULL;
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+  }
 
+  /* Now we can set edges and crossing signs. Recall that the
+     convention used to determine sign is this:
 
-      }
+            ^
+            |
+       ----------->
+            |
+            |
+	    0
 
-      /*       +------->--e2----+
-	       |                |
-	       |0               |3
-	   1   |    3        0  |   2
-	+-------------->--------|------+
-	 crA   |                |   crB
-	       |2               |1
-	       |                |
-	       +-------<--e1----+
+     positive crossing
+     (upper tangent vector) x (lower tangent vector) points OUT of screen.
+     This is true when the edges in positions 1 and 3 are in the order 3 -> 1.
 
-      */
+            ^
+            |
+      <-----------
+            |
+            |
+	    0
 
-      if (pd->cross[crB].edge[3] == pd->cross[crA].edge[0] &&
-	  pd->cross[crB].edge[1] == pd->cross[crA].edge[2] &&
-	  pd->cross[crB].edge[0] == pd->cross[crA].edge[3]) {
+     negative crossing
+     (upper tangent vector) x (lower tangent vector) points INTO screen.
+     This is true when the edges in positions 1 and 3 are in the order 1 -> 3. */
 
-	pd->cross[crB].sign = PD_POS_ORIENTATION;
-	pd->cross[crA].sign = PD_POS_ORIENTATION;
+  for(cr=0;cr<pd->ncross;cr++) {
 
-	pd_idx_t e1, e2;
+    pd->cross[cr].sign = (dir[4*cr+3] == +1) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
 
-	e1 = pd->cross[crB].edge[1];
-	e2 = pd->cross[crB].edge[3];
+    for(j=0;j<4;j++) {
 
-	if (pd->edge[e1].head != crA) { pd_reorient_edge(pd,e1,PD_NEG_ORIENTATION); }
-	if (pd->edge[e2].head != crB) { pd_reorient_edge(pd,e2,PD_NEG_ORIENTATION); }
+      edge = pd->cross[cr].edge[j];
 
-      }
+      if (dir[4*cr+j] == +1) { pd->edge[edge].head = cr; pd->edge[edge].headpos = j; }
+      else { pd->edge[edge].tail = cr; pd->edge[edge].tailpos = j; }
 
     }
 
   }
 
+  free(place); free(nplaces); free(dir); free(todo); free(face_seen);
+  pd->nfaces = 0;
 
   /* We can now detect everything else by regenerating... */
 
@@ -4338,14 +3989,12 @@ ones we don't need.
 
   }
 
-  /* We're done with the crossing buffer. */
-  free(crbuf);
-
   /* We now make a final check, then terminate... */
 
   if (!pd_ok(pd)) {
 
     printf("pd_read_KnotTheory: Regenerated PD does not pass pd_ok. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
     return NULL;
 
   }
-- 
2.43.0


From c13c2fb6ff14cfbfe4992d679c754e0af9e73175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:46 +0000
Subject: [PATCH 022/121] fix: pd_classify freed the caller's diagram,
 plc_classify leaked most of its own

---
 src/plcTopology.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..bfe82dd 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1549,7 +1549,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
+  pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
@@ -1643,7 +1643,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From b702e37c2281308d2ab8f6af371305c2b737f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:46 +0000
Subject: [PATCH 023/121] fix: classification read past the table of knot types
 and past an overlong HOMFLY

---
 src/plcTopology.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index bfe82dd..3426fd7 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1579,7 +1579,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   }
 
   if (homfly == NULL) { *nposs = 0; return NULL; }
-  strncpy(kt.homfly,homfly,MAXHOMFLY);
+  strncpy(kt.homfly,homfly,MAXHOMFLY-1);
   free(homfly);
 
   /* Now search for matching knottypes in ktdb */
@@ -1601,7 +1601,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (strcmp(kt.homfly,mlo->homfly)) { mlo++; }                           // if we don't match (we might if we went to the start of buffer)
   assert(!strcmp(kt.homfly,mlo->homfly));
 
-  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE]);mhi++);
+  for(mhi = ktmatch;mhi < &(ktdb[KTDBSIZE-1]) && !strcmp(kt.homfly,mhi->homfly);mhi++);
   if (strcmp(kt.homfly,mhi->homfly)) { mhi--; }
   assert(!strcmp(kt.homfly,mhi->homfly));
 
@@ -1672,7 +1672,7 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   if (homfly == NULL) { *nposs = 0; return NULL; }
-  strncpy(kt.homfly,homfly,MAXHOMFLY);
+  strncpy(kt.homfly,homfly,MAXHOMFLY-1);
   free(homfly);
 
   /* Now search for matching knottypes in ktdb */
@@ -1694,7 +1694,7 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   if (strcmp(kt.homfly,mlo->homfly)) { mlo++; }                           // if we don't match (we might if we went to the start of buffer)
   assert(!strcmp(kt.homfly,mlo->homfly));
 
-  for(mhi = ktmatch;!strcmp(kt.homfly,mhi->homfly) && mhi < &(ktdb[KTDBSIZE]);mhi++);
+  for(mhi = ktmatch;mhi < &(ktdb[KTDBSIZE-1]) && !strcmp(kt.homfly,mhi->homfly);mhi++);
   if (strcmp(kt.homfly,mhi->homfly)) { mhi--; }
   assert(!strcmp(kt.homfly,mhi->homfly));
 
-- 
2.43.0


From c0a8daaace1751b16ea53c2ab8e10ef39dc1ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:46 +0000
Subject: [PATCH 024/121] fix: plc_read_knottype freed a moved pointer and used
 a shifted table of knot counts

The number of prime factors was never set, the table of the number of
prime knots was off by one (5_3 was accepted, 0_1 rejected) and too
short for 19 crossings, and a knot type with ten factors was used after
it was freed.
---
 src/plcTopology.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 3426fd7..75b0699 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1727,11 +1727,22 @@ plc_knottype *plc_read_knottype(const char *kt)
   plc_knottype *working_kt;
   int pc = 0;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
+  char *tokens = working_copy, *tokenstate = NULL;
   strcpy(working_copy,kt);
-  int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
+  int maxind[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  while((primecomp = strtok_r(tokens,"#",&tokenstate)) != NULL) {
+
+    tokens = NULL;
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1747,8 +1758,8 @@ plc_knottype *plc_read_knottype(const char *kt)
       return NULL;
     }
 
-    if (working_kt->ind[pc] < 0 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
-      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <0 or >%d (the number of %d crossing prime knots).\n",primecomp,
+    if (working_kt->ind[pc] < 1 || working_kt->ind[pc] > maxind[working_kt->cr[pc]]) {
+      fprintf(stderr,"plc_read_knottype: Prime component type %s has index <1 or >%d (the number of %d crossing prime knots).\n",primecomp,
 	      maxind[working_kt->cr[pc]],working_kt->cr[pc]);
       free(working_copy);
       free(working_kt);
@@ -1757,17 +1768,17 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
-    
   }
 
   free(working_copy);
+
+  if (pc == 0) {
+    fprintf(stderr,"plc_read_knottype: Knot type has no prime components.\n");
+    free(working_kt);
+    return NULL;
+  }
+
+  working_kt->nf = pc;
   return working_kt;
 }
 
-- 
2.43.0


From 96ca85cc6caa661777590aedb3700a0e2c1a7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:46 +0000
Subject: [PATCH 025/121] fix: polynomial conversions overran buffers and lost
 an empty m^0 line

---
 src/polynomials.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 2592d96..e39a277 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -557,7 +557,13 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
      span in m and the span in l. */
 
   char *outbuf;
-  outbuf = calloc(lspan(sortPoly,nmonos)*mspan(sortPoly,nmonos)*256,sizeof(char));
+  /* A line runs from the lowest to the highest power of l, but always includes l^0. */
+  int lmax = 0, lmin = 0;
+  for(i=0;i<nmonos;i++) {
+    if (sortPoly[i].l > lmax) { lmax = sortPoly[i].l; }
+    if (sortPoly[i].l < lmin) { lmin = sortPoly[i].l; }
+  }
+  outbuf = calloc((lmax - lmin + 2)*(mspan(sortPoly,nmonos)+1)*16 + 16,sizeof(char));
   assert(outbuf != 0);
 
   monomial_t *mline;
@@ -585,7 +591,7 @@ char *polynomial_to_lmpoly(monomial_t *poly,int nmonos)
       int mcount = mline[0].m+1;
       for(;mcount<sortPoly[i].m;mcount++) { /* Add placeholder lines. */
 
-	sprintf(writebuf,"[0]N");strcat(outbuf,writebuf);
+	sprintf(writebuf,(mcount == 0) ? "[[0]]N" : "[0]N");strcat(outbuf,writebuf);
 
       }
 
@@ -649,7 +655,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   }
 
-  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t *));
+  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t));
   assert(homfly != NULL);
   homfly->mono = calloc(nterms,sizeof(monomial_t));
   assert(homfly->mono != NULL);
-- 
2.43.0


From 4644178fd9ab2b48b05cf753041a4fdd0bb241f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:26 +0000
Subject: [PATCH 026/121] fix: pd_homfly never returned for a 0-crossing
 diagram

---
 src/plcTopology.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 75b0699..e94fca5 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -194,7 +194,7 @@ char *pdcode_to_ccode(pd_code_t *pd)
 
 {
   char *ccode;
-  int   ccode_size = 256*pd->ncross;
+  int   ccode_size = 256*pd->ncross + 16;
 
   ccode = calloc(ccode_size,sizeof(char)); /* Get room for a big string */
 
@@ -287,6 +287,12 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   char *ccode;
   char *homfly_lmpoly;
 
+  if (pd->ncross == 0) { /* The crossing code is empty, and lmpoly can't read it. */
+
+    return lmpoly_to_latex("[[1]]N ");
+
+  }
+
   ccode = pdcode_to_ccode(pd);
 
   if (PD_VERBOSE) {
-- 
2.43.0


From 18eca34a68c00443b7950e1a58d7ea360ee59018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:26 +0000
Subject: [PATCH 027/121] fix: pd_homfly leaked the crossing code when lmpoly
 gave up

---
 src/plcTopology.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index e94fca5..1f9f23a 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -311,6 +311,7 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   }
 
   if (homfly_lmpoly == NULL) {
+      free(ccode);
       return NULL; // NULL signifies timeout or other error in plc_lmpoly
   }
 
-- 
2.43.0


From 737b883da98bd1cf3a87caf3e52e7497bd3263e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:51 +0000
Subject: [PATCH 028/121] fix: twist knots with an even number of twists had a
 clasp of the wrong sign

---
 src/pdcode_testcodes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdcode_testcodes.c b/src/pdcode_testcodes.c
index 7b22e88..44d1f10 100644
--- a/src/pdcode_testcodes.c
+++ b/src/pdcode_testcodes.c
@@ -79,13 +79,16 @@ pd_code_t *pd_build_twist_knot(pd_idx_t n)
     
   pd_regenerate(pd);
 
-  /* Now we have an edge list and can assign crossing signs. It turns
-     out that this is trivial as all the crossings have positive sign. */
+  /* Now we have an edge list and can assign crossing signs. If the
+     number of twists is odd, all the crossings have the same sign. If
+     it's even, the two strands of the clasp (crossings 0 and 1) run the
+     other way with respect to each other, and the clasp has the
+     opposite sign. */
 
   pd_idx_t k;
   for(k=0;k<pd->ncross;k++) { 
 
-    pd->cross[k].sign = PD_POS_ORIENTATION;
+    pd->cross[k].sign = (n % 2 == 0 && k < 2) ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION;
 
   }
 
-- 
2.43.0


From 5eb7d26ef04c7898b387a63c901eb94472b94214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:51 +0000
Subject: [PATCH 029/121] fix: pd_ok aborted on a face with an illegal edge
 orientation

---
 src/pdcode.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index e0f347e..8483cfe 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2566,6 +2566,22 @@ bool pd_faces_ok(pd_code_t *pd)
 
       }
 
+      /* Check that f->orient entries are legal. */
+
+      if (f->orient[edge] != PD_POS_ORIENTATION && f->orient[edge] != PD_NEG_ORIENTATION) {
+
+	return pd_error(SRCLOC,"Illegal orientation %d for edge %d of face %d in pd %PD",pd,
+			(int)(f->orient[edge]),edge,face);
+
+      }
+
+      if (f->orient[nxt_edge] != PD_POS_ORIENTATION && f->orient[nxt_edge] != PD_NEG_ORIENTATION) {
+
+	return pd_error(SRCLOC,"Illegal orientation %d for edge %d of face %d in pd %PD",pd,
+			(int)(f->orient[nxt_edge]),nxt_edge,face);
+
+      }
+
       /* Check that consecutive edges meet at vertex in left turn. */
 
       this = pd_oriented_edge(pd->edge[f->edge[edge]],f->orient[edge]);
-- 
2.43.0


From 446471e99f491f9fb697c461d9a27bba3181800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:41 +0000
Subject: [PATCH 030/121] fix: lmpoly's circuit scoring indexed its tables with
 a negative position

---
 src/pllmpoly02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index f8dab8b..995c45a 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -2068,7 +2068,7 @@ int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *sta
   }
   if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
   if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
-  if ((k=lngpos-lngsum)!= (m=0) && d!=0){
+  if ((k=lngpos-lngsum) > (m=0) && d!=0){ /* k<0 if a 2-crossing link was counted as h long */
    if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
    if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
    if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
-- 
2.43.0


From 4bb9dd39abbf46c32e2309185e51f45b2a3319ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 031/121] fix: pd_read_pdstor aborted on a file with a
 partially signed pd code

---
 src/pd_storage.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..0d8cd51 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -776,6 +776,23 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
 
     } else {
 
+      /* A pdstor can't hold a pd code where only some of the crossings are signed. */
+
+      pd_idx_t cr;
+
+      for(cr=1;cr<pd->ncross;cr++) {
+
+	if ((pd->cross[cr].sign == PD_UNSET_ORIENTATION) != (pd->cross[0].sign == PD_UNSET_ORIENTATION)) {
+
+	  if (PD_VERBOSE) { printf("pd_read_pdstor: Only some crossings of pd code %d have signs.\n",elt); }
+	  pd_code_free(&pd);
+	  pd_free_pdstor(&pdstor);
+	  return NULL;
+
+	}
+
+      }
+
       pd_addto_pdstor(pdstor,pd,eq);
 
     }
-- 
2.43.0


From a8e5db90b8425bcd6fd0acd557de6b4808451b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:36 +0000
Subject: [PATCH 032/121] fix: lmpoly's consistency check overran its buffer
 for a 250-crossing knot

---
 src/pllmpoly02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index 995c45a..d097c09 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1611,7 +1611,7 @@ int conchk(lmpoly_state_t *state)
 {
  register short i, j;
  int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2];
+ char str[20], local_cbuf[XCNT*2+1];
  vnum=vbrnch= 0;
  (state->lowx)= 1;
  i=top= (state->numcrs)*2;
-- 
2.43.0


From c278a352ec7aae79f178d8e71aa0308cd3a14e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:44 +0000
Subject: [PATCH 033/121] fix: plc_read sized its constraint table with %
 instead of /

A file whose constraints are numbered 9, 19 or 30 (and so on) overran the
table, and the entries added by growing it were never initialised.
---
 src/plCurve.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..59f867d 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1308,10 +1308,23 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+      size_t old_len = cst_list_len;
+      plc_constraint *new_list;
+      cst_list_len = 10*(((size_t)cst_num+11) / 10); /* Allocate by 10s */
       assert(cst_list->next == NULL);
-      cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
-      assert(cst_list != NULL);
+      new_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
+      if (new_list == NULL) {
+        plc_free(L);
+        free(cst_list);
+        free(comment);
+        *error_num = PLC_E_BAD_CST_NUM;
+        (void)snprintf(error_str,error_str_len,
+          "plc_read: Constraint number %d is too large.\n",cst_num);
+        return NULL;
+      }
+      cst_list = new_list;
+      memset(&cst_list[old_len],0,
+             (cst_list_len-old_len)*sizeof(plc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
-- 
2.43.0


From 3195887131f4e50bb33f56a90125f9eb88b6bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:44 +0000
Subject: [PATCH 034/121] fix: plc_read checks the constraint number given for
 a vertex

"# Cst: N" was used to index the constraint table unchecked, and two
neighbouring vertices naming one "Fixed" constraint failed an assertion.
---
 src/plCurve.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 59f867d..860058b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1444,9 +1444,22 @@ void plc_fix_wrap(plCurve * const L) {
             "plc_read: Bad numbers for constraint %d.\n",cst_num);
           return NULL;
         }
+        if (cst_num < 0 || cst_num >= (int)cst_list_len ||
+            (cst_num != 0 && cst_list[cst_num].kind == unconstrained)) {
+          plc_free(L);
+          assert(cst_list->next == NULL);
+          free(cst_list);
+          free(comment);
+          *error_num = PLC_E_BAD_CST_NUM;
+          (void)snprintf(error_str,error_str_len,
+            "plc_read: Vertex %d of component %d uses undefined constraint "
+            "%d.\n",j,i,cst_num);
+          return NULL;
+        }
       }
       free(comment);
-      if (cst_num != prev_cst_num) {
+      if (cst_num != prev_cst_num ||
+          (cst_num != 0 && cst_list[cst_num].kind == fixed)) {
         if (prev_cst_num != 0) {
           plc_set_constraint(L, i, prev_cst_vert, j - prev_cst_vert,
               cst_list[prev_cst_num].kind, cst_list[prev_cst_num].vect);
-- 
2.43.0


From adb20493308b016ec52da12ccbf3aac8eab28954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:05 +0000
Subject: [PATCH 035/121] fix: plc_read reports impossible vertex and color
 counts

A component with no vertices, or with a negative color count or more colors
than vertices, failed an assertion instead of being reported as an error.
---
 src/plCurve.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 860058b..8b0978c 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -42,6 +42,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 /* Utility routines */
@@ -1234,6 +1235,15 @@ void plc_fix_wrap(plCurve * const L) {
     }
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
+    if (nvarray[i] == 0 || nvarray[i] < -INT_MAX) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d can't have %d vertices.\n",i,nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
     nvarray[i] = abs(nvarray[i]);
   }
   /*@=loopexec@*/
@@ -1251,6 +1261,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CC;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Component %d can't have %d colors for %d vertices.\n",
+          i,ccarray[i],nvarray[i]);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
-- 
2.43.0


From b1afd6da9c5c7b58784d7d6afa65f14b575f53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:05 +0000
Subject: [PATCH 036/121] fix: plc_read quoted the comment it had just freed in
 two error messages

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8b0978c..115e1bc 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1321,10 +1321,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
@@ -1423,10 +1423,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From e4b0434b0252dd66957744cd570af474bc8a0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:05 +0000
Subject: [PATCH 037/121] fix: plc_read accepted files without the VECT keyword

fscanf returns 0 for " VECT " whether or not it matches, so only an empty
file was ever reported as PLC_E_NO_VECT.
---
 src/plCurve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 115e1bc..ce7217e 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1180,6 +1180,7 @@ void plc_fix_wrap(plCurve * const L) {
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
+  int keyword_end = -1;
 
   assert(file != NULL);
   assert(error_str_len > 0);
@@ -1187,7 +1188,7 @@ void plc_fix_wrap(plCurve * const L) {
   *error_num = 0;
 
   /* First, we check for the 'VECT' keyword. */
-  if (fscanf(file," VECT ") == EOF) {
+  if (fscanf(file," VECT%n ",&keyword_end) == EOF || keyword_end == -1) {
     *error_num = PLC_E_NO_VECT;
     (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't find VECT keyword.\n");
-- 
2.43.0


From e4731ffc7f2c93fa9e7bd1e2ae01cabcdb1e83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 038/121] fix: plc_write kept only six digits of constraint
 vectors

---
 src/plCurve.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index ce7217e..3edf3ad 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -870,13 +870,14 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile,
+          "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile, "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From a62627b5caf951f632d0a3b9bf5a740d1ffd10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 039/121] fix: plc_write cut off the constraint number of
 vertices with long coordinates

Three coordinates printed with %.16g can take 71 characters, leaving too
little of an 80 character buffer for " # Cst: <n>".
---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 3edf3ad..4ff6bb9 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -800,8 +800,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[128] = "";    /* So we can wrap the vertex lines */
+  char outstr2[128] = "";   /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
-- 
2.43.0


From e4955e0dad2ec94ce2322926625c4d5764a02eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 040/121] fix: plc_read ran off the end of a constraint line
 cut short by end of file

The position of the rest of the comment was computed from token lengths,
which also goes wrong when tokens are separated by more than one space.
---
 src/plCurve.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4ff6bb9..4438c5f 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1177,7 +1177,7 @@ void plc_fix_wrap(plCurve * const L) {
   int ds; /* Doubles scanned */
   /*@temp@*/ char *place;
   char *space = " ";
-  size_t parsed;
+  size_t parsed, comment_len;
   plc_constraint *cst_list;
   size_t cst_list_len = (size_t)2;
   int cst_num, prev_cst_num, prev_cst_vert;
@@ -1300,6 +1300,7 @@ void plc_fix_wrap(plCurve * const L) {
   while ((place = strcasestr(comment,"Constraint ")) != NULL) {
     /* Move the word "Constraint to the beginning of the string */
     memmove(comment,place,strlen(place)+1);
+    comment_len = strlen(comment);
     /* Now start tokenizing */
     place = strtok(comment, space); /* "Constraint" */
 #define place_not_null \
@@ -1313,6 +1314,11 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint line.\n"); \
       return NULL; \
     }
+/* Keep only what follows the token at place (if anything does). */
+#define drop_parsed \
+    parsed = (size_t)(place - comment) + strlen(place) + 1; \
+    if (parsed > comment_len) { parsed = comment_len; } \
+    memmove(comment,&comment[parsed],strlen(&comment[parsed])+1)
     place_not_null;
     parsed = strlen(place)+1;
     place = strtok(NULL, space); /* The constraint number */
@@ -1372,7 +1378,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
-      memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
+      drop_parsed;
     } else if (strcasestr(place,"Line") != NULL) {
       cst_list[cst_num].kind = line;
       if (sscanf(&comment[parsed],"%lf %lf %lf %lf %lf %lf",
@@ -1396,7 +1402,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
-      memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
+      drop_parsed;
     } else if (strcasestr(place,"Plane") != NULL) {
       cst_list[cst_num].kind = plane;
       if (sscanf(&comment[parsed],"%lf %lf %lf %lf",
@@ -1420,7 +1426,7 @@ void plc_fix_wrap(plCurve * const L) {
         place_not_null;
         parsed += strlen(place)+1;
       }
-      memmove(comment,&comment[parsed],strlen(&comment[parsed])+1);
+      drop_parsed;
     } else {
       plc_free(L);
       assert(cst_list->next == NULL);
-- 
2.43.0


From 077b1a951e13cf042ec8d9e1a635f39044c1532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 041/121] fix: plc_s counted an edge past the end of each
 earlier open component

The wraparound vertex after an open strand repeats the last edge, so the
arclength position of vertices on later components was too large.
---
 src/plCurve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4438c5f..22377de 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -45,6 +45,8 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <limits.h>
 #include <time.h>
 
+#define strand_edges(P) (((P).open) ? (P).nv-1 : (P).nv)
+
 /* Utility routines */
 static inline int intmin(const int a, const int b) {
   return (a <= b) ? a : b;
@@ -236,7 +238,7 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    for(v = 1;v <= strand_edges(L->cp[c]); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
@@ -1529,7 +1531,6 @@ void plc_fix_wrap(plCurve * const L) {
   return L;
 }
 
-#define strand_edges(P) (((P).open) ? (P).nv-1 : (P).nv)
 /*
  *   Return the total number of edges in plCurve.
  */
-- 
2.43.0


From 08b7a39d3e48f7eee4cbeb7bd826613089d021e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 042/121] fix: equal constraints on different components were
 joined into one run

A constraint ending at vertex k of one component absorbed the same constraint
starting at vertex k+1 of the next component.
---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 22377de..8ca28be 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -509,6 +509,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From ef616504aa6ace2ea21c78721a093cdae3a40488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 043/121] fix: plc_double_verts wrote colors to uncolored
 curves

It overran the (empty) color buffer of a curve without colors, and left the
colors of the last vertex's two descendants unset.
---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8ca28be..efaa964 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2436,9 +2436,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 16be12e905e3ae6b4c2149d3946565ea8c392c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 044/121] fix: adding or dropping a component left constraints
 on the wrong component

Constraints and quantifiers kept their old component numbers, and the curve
kept a symmetry group whose vertex maps no longer fit it (read out of bounds
when the curve was copied, symmetrized or freed).
---
 src/plCurve.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index efaa964..8782a00 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2086,6 +2086,8 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
                       const plc_vector * const vt,
            /*@null@*/ const plc_color * const clr) {
   plc_strand *cp;
+  plc_constraint *cst;
+  plc_vert_quant *quant;
 
   assert(L != NULL);
   assert(nv >= 1);
@@ -2095,6 +2097,16 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* The symmetries' vertex maps and the component numbers in the constraints
+     and quantifiers refer to the old numbering. */
+  plc_symmetry_group_free(&(L->G));
+  for (cst = L->cst; cst != NULL; cst = cst->next) {
+    if (cst->cmp >= add_as) { cst->cmp++; }
+  }
+  for (quant = L->quant; quant != NULL; quant = quant->next) {
+    if (quant->cmp >= add_as) { quant->cmp++; }
+  }
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2131,12 +2143,38 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
 
 void plc_drop_component(plCurve *L, const int cmp) {
   int cnt;
+  plc_constraint **pcst, *cst;
+  plc_vert_quant **pquant, *quant;
 
   assert(L != NULL);
   assert(cmp >= 0);
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The symmetries' vertex maps, the constraints and the quantifiers refer to
+     the old components: drop those for cmp and renumber the others. */
+  plc_symmetry_group_free(&(L->G));
+  for (pcst = &(L->cst); *pcst != NULL; ) {
+    cst = *pcst;
+    if (cst->cmp == cmp) {
+      *pcst = cst->next;
+      free(cst);
+    } else {
+      if (cst->cmp > cmp) { cst->cmp--; }
+      pcst = &(cst->next);
+    }
+  }
+  for (pquant = &(L->quant); *pquant != NULL; ) {
+    quant = *pquant;
+    if (quant->cmp == cmp) {
+      *pquant = quant->next;
+      free(quant);
+    } else {
+      if (quant->cmp > cmp) { quant->cmp--; }
+      pquant = &(quant->next);
+    }
+  }
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From 4e0b34515439afb0bbafbcd35a738b2a7516b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:21 +0000
Subject: [PATCH 045/121] fix: plc_delete_arc left more colors than vertices

The shortened strand kept all the old colors (so copying it failed an
assertion and colors no longer belonged to their vertices), the new second
half of a split strand lost its colors, and the result kept the symmetry
group of the uncut curve.
---
 src/plCurve.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8782a00..ac6d721 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2988,6 +2988,28 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
   }
 
     
+  /* Give strand s, now consisting of vertices start, start+1, ... of strand
+     old, the colors of those vertices. */
+
+  static void keep_colors(plc_strand *s, const plc_strand *old, int start)
+
+  {
+    int i;
+
+    if (old->cc == old->nv && old->cc > 1) { /* One color per vertex */
+
+      s->clr = realloc(s->clr,s->nv*sizeof(plc_color));
+      assert(s->clr != NULL);
+      for(i=0;i<s->nv;i++) { s->clr[i] = old->clr[(start + i) % old->nv]; }
+      s->cc = s->nv;
+
+    } else if (s->cc > s->nv) {
+
+      s->cc = s->nv;
+
+    }
+  }
+
   plCurve *plc_delete_arc(plCurve *L,int cp,int vt1, int vt2)
 
   /* Delete a subarc from a component of a plCurve between vt1 and vt2    */
@@ -3004,6 +3026,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
     newL = plc_copy(L);
     plc_remove_all_constraints(newL);  
+    plc_symmetry_group_free(&(newL->G)); /* The vertex maps won't fit newL */
 
     if (L->cp[cp].open) { /* We're going to split or truncate open component */
 
@@ -3031,6 +3054,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 	  }
 	  
 	  newL->cp[cp].nv = L->cp[cp].nv - (vt2+1);
+	  keep_colors(&newL->cp[cp],&L->cp[cp],vt2+1);
 	  plc_fix_wrap(newL);
 
 	  return newL;
@@ -3040,14 +3064,18 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
       } else if (vt2 >= L->cp[cp].nv-1) { /* Cut off the end of the component. */
 
 	newL->cp[cp].nv = vt1;
+	keep_colors(&newL->cp[cp],&L->cp[cp],0);
 	plc_fix_wrap(newL);
 
 	return newL;
 
       } else { /* vt1 > 0, vt2 < L->cp[cp].nv-1, and L->cp[cp].open == true */
 
-	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,0,&(L->cp[cp].vt[vt2+1]),NULL);
+	plc_add_component(newL,cp+1,L->cp[cp].nv-(vt2+1),true,
+			  L->cp[cp].cc == 1 ? 1 : 0,&(L->cp[cp].vt[vt2+1]),L->cp[cp].clr);
+	keep_colors(&newL->cp[cp+1],&L->cp[cp],vt2+1);
 	newL->cp[cp].nv = vt1;
+	keep_colors(&newL->cp[cp],&L->cp[cp],0);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3074,6 +3102,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	keep_colors(&newL->cp[cp],&L->cp[cp],vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
@@ -3090,6 +3119,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
 	}
 	newL->cp[cp].open = true;
+	keep_colors(&newL->cp[cp],&L->cp[cp],vt2+1);
 	plc_fix_wrap(newL);
 
 	return newL;
-- 
2.43.0


From 581bad706cfdd566f6052a8db3f8bffe787a43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:21 +0000
Subject: [PATCH 046/121] fix: plc_rotate distorted the curve unless the axis
 had length 1

The symmetry group was already rotated around the normalized axis.
---
 src/plCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index ac6d721..89c87e1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2632,6 +2632,8 @@ void plc_rotate(plCurve *link, plc_vector axis, double angle)
 {
   int vt,cp;
 
+  axis = plc_normalize_vect(axis,NULL);
+
   if (link->G != NULL) {
 
     plc_matrix A,Ainv,*TAinv;
-- 
2.43.0


From c116ca0bb3653352be1bf701ce3512e4e27adece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:21 +0000
Subject: [PATCH 047/121] fix: plc_random_rotate ignored an axis pointing along
 (0,0,-1)

---
 src/plCurve.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 89c87e1..1b2e833 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2862,7 +2862,21 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     plc_fix_wrap(link);
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // Otherwise, axis is already (0,0,1) (and we'll just leave things as is), or 
+  // it's (0,0,-1) and we rotate by pi around the x-axis
+
+  else if (zrand < 0) {
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+
+	link->cp[cp].vt[vt].c[1] = -link->cp[cp].vt[vt].c[1];
+	link->cp[cp].vt[vt].c[2] = -link->cp[cp].vt[vt].c[2];
+      }
+    }
+
+    plc_fix_wrap(link);
+  }
 }
 
 
-- 
2.43.0


From 05363b7d08bdf376f7f5b2f9c4de6fd9a897aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 048/121] fix: plc_dihedral_angles returned too many angles and
 could overrun its buffer

It computes two angles for each 4-tuple of vertices, but made room for
n(n-1)(n-2)(n-3)(n-4)/4 and padded the list with copies of the last ones;
asking for an odd number of angles wrote one past the end.
---
 src/plc_dihedrals.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..f67e095 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -41,6 +41,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 #include <time.h>
 
 #ifdef HAVE_GSL_GSL_COMBINATION_H
@@ -48,10 +49,9 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 
 float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 
-/* Return a buffer of (4 2) (n 4) dihedral angles given by taking all 4-tuples of vertices 
-   generated by gsl_combination.h and then taking each of the (4 2) possible pairs as the 
-   diagonal of the resulting quadrilateral. If ndihedrals is non-negative, will limit
-   to this number of dihedrals.
+/* Return a buffer of 2 (n 4) dihedral angles given by taking all 4-tuples of vertices 
+   generated by gsl_combination.h and then taking each of the 2 diagonals of the resulting 
+   quadrilateral. If ndihedrals is nonzero, will limit to this number of dihedrals.
 
    Since memory can very easily be an issue here, we return results in SINGLE precision.
    If we can't compute an angle, we return it in place as -1.0 to indicate that this is
@@ -61,7 +61,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
 {
   int n = L->cp[0].nv;
 
-  unsigned int max_ndihedrals = (n*(n-1)*(n-2)*(n-3)*(n-4))/4;
+  unsigned long long tuples = n < 4 ? 0 : (unsigned long long)(n)*(n-1)/2*(n-2)/3*(n-3)/4;
+  unsigned int max_ndihedrals = 2*tuples > UINT_MAX ? UINT_MAX : 2*tuples;
 
   if (*ndihedrals == 0) { 
 
@@ -107,6 +108,7 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+    if (i == *ndihedrals) { break; }
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From 8c1bd0246984daf6d088f935d1b3a762065f5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 049/121] fix: plc_whitten moved constraints to the wrong
 components

The inverse permutation was read from one past the end of the array, and
from whichever entry preceded the last mention of a component, which need not
be the component mapped to it.
---
 src/plwhitten.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..a1de411 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -77,13 +77,13 @@ int  perm(int permsize,int *perm,int ind)
   return ind;
 }
 
-int  iperm(int permsize,int *perm,int ind)
+int  iperm(int permsize,int *thisperm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=0;i<permsize/2;i++) {
     
-    if (perm[i] == ind) { return perm[i-1]; }
+    if (perm(permsize,thisperm,i) == ind) { return i; }
 
   }
 
-- 
2.43.0


From ff2b2cacd33a21de5509c0d9e16a4a6c328a7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 050/121] fix: plc_whitten misplaced constraints when reversing
 a component

Reversing one component moved the constraints of every component, to a run
of vertices one too early, and left the constraint list out of order.
---
 src/plwhitten.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index a1de411..dec9458 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
@@ -224,6 +224,27 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   plc_fix_wrap(L);
 
+  /* The list of constraints is kept in order of component and vertex. */
+
+  plc_constraint *sorted = NULL, **place;
+
+  while (L->cst != NULL) {
+
+    tc = L->cst;
+    L->cst = tc->next;
+
+    for(place = &sorted; *place != NULL && 
+	  ((*place)->cmp < tc->cmp || 
+	   ((*place)->cmp == tc->cmp && (*place)->vert < tc->vert));
+	place = &((*place)->next));
+
+    tc->next = *place;
+    *place = tc;
+
+  }
+
+  L->cst = sorted;
+
   /* We have now applied everything. */
 
 }
-- 
2.43.0


From 1dcc685bc28c5bd8782289cbff8c6eb97240b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 051/121] fix: plc_convert_from_spline could fail an assertion
 at the end of an open strand

Rounding can put the last sample just past the end of the strand.
---
 src/splines.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..2227ec0 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -586,6 +586,10 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* Search to make sure that slo and shi bracket our current s.*/
 
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1]; /* Rounding error */
+      }
+
       while (spL->cp[comp].svals[shi] <= s && 
           shi < ((L->cp[comp].open) ? spL->cp[comp].ns-1 : spL->cp[comp].ns)) {
         shi++;
-- 
2.43.0


From b2f25ffcb3999fd26da94c3526da55a05e7935a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 052/121] fix: plc_convert_from_spline read past the colors of
 a closed strand

---
 src/splines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 2227ec0..decc591 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -604,11 +604,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        int chi = shi % spL->cp[comp].ns; /* The closing edge ends at 0 */
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From efd095cb652ac98a2623960a067cc44fa9ddf12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:22 +0000
Subject: [PATCH 053/121] fix: plc_convert_from_spline let constraints run past
 the end of a strand

---
 src/splines.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index decc591..13f65c9 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -653,6 +653,9 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 	} else { /* Scale the length from the old resolution */
 
 	  cst->num_verts = ceil(((cst_shi-cst_slo)/s_max)*L->cp[comp].nv);
+	  if (cst->vert + cst->num_verts > L->cp[comp].nv) {
+	    cst->num_verts = L->cp[comp].nv - cst->vert;
+	  }
 	  
 	}	
 	
-- 
2.43.0


From 94308db157237768f4c13193cbd1f755444888fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:41 +0000
Subject: [PATCH 054/121] fix: plc_coordplanes_reflection_group did not build a
 group

The identity and three reflections are not closed under composition, so
symmetrizing over them did not give a symmetric curve, and failure to build
the last two elements went unnoticed, leaving NULL entries in the group.
---
 src/symmetries.c | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..8f35410 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -411,45 +411,38 @@ plc_symmetry_group *plc_reflection_group(plCurve *L,plc_vector axis)
 
 plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
-/* Creates reflections over the x-y, y-z, and z-x planes. */
+/* Creates the group generated by reflections over the x-y, y-z, and z-x planes. */
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
-  /* We now try to set up the group. */
+  /* We now try to set up the group: each element changes the signs of some coordinates. */
 
-  plc_matrix A;
-  plc_identity_matrix(&A);
-  build->sym[0] = plc_build_symmetry(&A,L);
+  int i,j;
+  bool ok = true;
 
-  plc_reflection_matrix(plc_build_vect(1,0,0),&A);
-  build->sym[1] = plc_build_symmetry(&A,L);
+  for(i=0;i<8;i++) {
 
-  plc_reflection_matrix(plc_build_vect(0,1,0),&A);
-  build->sym[2] = plc_build_symmetry(&A,L);
-  
-  plc_reflection_matrix(plc_build_vect(0,0,1),&A);
-  build->sym[3] = plc_build_symmetry(&A,L);
+    plc_matrix A;
+    plc_identity_matrix(&A);
 
-  /* All elements are their own inverses */
+    for(j=0;j<3;j++) { 
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+      if (i & (1 << j)) { A[j][j] = -1; }
 
-  /* We need to scan and make sure the builds succeeded. */
+    }
 
-  int i;
-  for(i=0;i<2;i++) {
+    build->sym[i] = plc_build_symmetry(&A,L);
+    if (build->sym[i] == NULL) { ok = false; }
 
-    if (build->sym[i] == NULL) {
+    build->inverse[i] = i; /* All elements are their own inverses */
 
-      plc_symmetry_group_free(&build);
-      return NULL;
+  }
 
-    }
+  /* We need to make sure the builds succeeded. */
 
-  }
+  if (!ok) { plc_symmetry_group_free(&build); }
 
   return build;
 
-- 
2.43.0


From bd6ee04bce62392b83cb6630148270fc114b5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:41 +0000
Subject: [PATCH 055/121] fix: plc_symmetrize left the wraparound vertices of
 closed strands behind

---
 src/symmetries.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index 8f35410..73cb036 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -506,6 +506,8 @@ void plc_symmetrize(plCurve *L)
 	  
   free(point_covered);
 
+  plc_fix_wrap(L); /* We changed vertices */
+
 }
 
 void plc_symmetrize_variation(plCurve *L,plc_vector *buffer)
-- 
2.43.0


From 1caa6dfb0a1bb69d2ba6c18a9050226380b699d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 056/121] fix: plc_random_equilateral_closed_polygon gave up
 after 10000 trials, fewer than needed for large n

---
 src/plcRandomPolygon.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..d96aad6 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -889,6 +889,7 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
   bool distances_ok;
   int i;
   int safety_check = 0;
+  int max_trials = 10000000; /* The expected number of trials grows like n^(3/2); about 2 x 10^4 for n = 3000. */
 
   assert(n <= 3000);
   if (n > 3000) {
@@ -929,15 +930,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < max_trials);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < max_trials);
 
-  assert(safety_check < 10000);
+  assert(safety_check < max_trials);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From 7e584aa5af52abc28aa806917951c830d453cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 057/121] fix: plc_loop_closure indexed its one-component
 closing arc by the component being closed

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index d96aad6..c88efee 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1240,7 +1240,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From 22c518b3caf4cde78de478fd512d6baf28139c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 058/121] fix: plc_loop_closure dereferenced NULL when no
 closing arc exists

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index c88efee..7fbf2ae 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1211,6 +1211,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: Can't generate an arc of %d edge(s) and length %g to close a gap of %g.\n",
+	    nEdges - (openL->cp[cp].nv-1),closureLength,ftc);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From e97d6eda812cbdeae956e796b557163945da2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 059/121] fix: plc_loop_closure refused, by roundoff, to
 replace a single edge deleted from a length 2 polygon

---
 src/plcRandomPolygon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 7fbf2ae..e27c70d 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1193,6 +1193,8 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   }
 
+  if (closureLength < ftc && closureLength > ftc - 1e-8) { closureLength = ftc; } /* Only roundoff error. */
+
   if (closureLength < ftc) {
 
     fprintf(stderr,"plc_loop_closure: Closure length %g too small to close gap of %g.\n",
-- 
2.43.0


From 32b9e5ddee4f44ff8a1bd896ddf88cc85188507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 060/121] fix: plc_is_sap reported every curve as self-avoiding

---
 src/plcRandomSap.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/plcRandomSap.c b/src/plcRandomSap.c
index 2894ed3..33ce6de 100644
--- a/src/plcRandomSap.c
+++ b/src/plcRandomSap.c
@@ -166,11 +166,11 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
 	      }
-	      
+
+	      return false;
+
 	    }
 	    
 	  }
@@ -183,14 +183,18 @@ bool plc_is_sap_internal(plCurve *L, bool verbose) {
 	  
 	  for(vt2=0;vt2<L->cp[cp2].nv;vt2++) {
 	    
-	     if (verbose) {
+	    if (plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]) < 1.0-1e-10) {
+
+	      if (verbose) {
 
 		printf("plc_is_sap: Squared distance between L->cp[%d].vt[%d] and L->cp[%d].vt[%d] is %g < %g\n",
 		       cp1,vt1,cp2,vt2,plc_sq_dist(L->cp[cp1].vt[vt1],L->cp[cp2].vt[vt2]),1.0-1e-10);
-		       
-		return false;
 
-	     }
+	      }
+
+	      return false;
+
+	    }
 
 	  }
 
-- 
2.43.0


From f3defca33288f377238aabc9a0ad2533fe1d88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 061/121] fix: plc_loop_closure misplaced the closing arc when
 the gap points almost exactly along -x

---
 src/plcRandomPolygon.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index e27c70d..25f6802 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1230,8 +1230,18 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   if (ok) {
 
     plc_vector r_axis,x_axis = {{1,0,0}};
+
+    /* The bisector of the arc's direction and the desired direction is badly conditioned
+       if they are nearly opposite. If they are more than a right angle apart, first turn the arc around. */
+
+    if (desiredFTCdir.c[0] < 0) {
+
+      plc_rotate(closureArc,plc_build_vect(0,1,0),pi);
+      x_axis = plc_build_vect(-1,0,0);
+
+    }
+
     r_axis = plc_normalize_vect(plc_vect_sum(desiredFTCdir,x_axis),&ok);
-    if (!ok) { r_axis = plc_build_vect(0,1,0); }
     plc_rotate(closureArc,r_axis,pi);
 
   }
-- 
2.43.0


From a0d370bb2903200347d867335ac60805e0d1941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 062/121] fix: octrope_minrad ignored edges which double back
 and lost precision near reversals and on small curves

---
 src/minrad.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/minrad.c b/src/minrad.c
index e3b2e11..6bea1d9 100755
--- a/src/minrad.c
+++ b/src/minrad.c
@@ -93,9 +93,17 @@ double octrope_minrad(plCurve *L,
       dot_prod = plc_M_dot(in,out);
       cross_prod_norm = plc_norm(plc_cross_prod(in,out));
       
-      rad = (normin*normout + dot_prod)/(2*cross_prod_norm);
+      if (dot_prod < 0) { /* Sharp turn: this form of the same quantity is 
+			     stable up to (and including) an exact reversal,
+			     where rad = 0. */
 
-      if (cross_prod_norm < 1e-12) { /* Presumably, cross_prod_norm == 0 */
+	rad = cross_prod_norm/(2*(normin*normout - dot_prod));
+
+      } else if (cross_prod_norm > 1e-12*normin*normout) {
+
+	rad = (normin*normout + dot_prod)/(2*cross_prod_norm);
+
+      } else { /* Presumably, cross_prod_norm == 0 */
 
 	continue;   /* We don't need to record this value, or indeed do 
 		       anything else with it, since rad = Inf or NaN. 
-- 
2.43.0


From 01ada19bb668a79d4aed9811323da617f1e649c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 063/121] fix: octrope() reported DBL_MAX as the shortest strut
 when none was under the cutoff

---
 src/octrope.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..00e242c 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1905,7 +1905,6 @@ void octrope(plCurve *L,
     num_struts = octrope_struts(L,strut_cutoff,strut_epsilon,strutlist,
                                 sl_size,&min_strutlength,mem,memsize);
  
-    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
     if (num_strut_ret != NULL) { *num_strut_ret = num_struts; }
 #ifdef DEBUG
     if (octrope_debug_level() > 0) {
@@ -1920,6 +1919,8 @@ void octrope(plCurve *L,
       octrope_struts(L,DBL_MAX,0,NULL,0,&min_strutlength,NULL,0);
 
     }
+
+    if (min_strut_ret != NULL) { *min_strut_ret = min_strutlength; }
       
   }
   
-- 
2.43.0


From 443d780b381e282e4222772479f6125a71755e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 064/121] fix: sort_oct read outside the array before checking
 its bounds

---
 src/octrope.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 00e242c..d64d51e 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -267,22 +267,22 @@ void sort_oct(varr *A,int l,int h)
     s = l-1; t = h; pivot_val[0] = A[t].oct[0]; pivot_val[1] = A[t].oct[1];
     for (;;) {
       s++;
-      while (o_l(A[s].oct,pivot_val) && s < h) { s++; }
+      while (s < h && o_l(A[s].oct,pivot_val)) { s++; }
       t--;
-      while (o_ge(A[t].oct,pivot_val) && t > l) { t--; }
+      while (t > l && o_ge(A[t].oct,pivot_val)) { t--; }
       if (s >= t) break;
       temp = A[s]; A[s] = A[t]; A[t] = temp;
     }
     temp = A[s]; A[s] = A[h]; A[h] = temp;
     t = s; 
     s--;
-    while (o_e(A[s].oct,pivot_val) && s > l) { s--; }
+    while (s > l && o_e(A[s].oct,pivot_val)) { s--; }
     if (l < s) {
       sort_oct(A,l,s);
     }
     s = t;
     s++;
-    while (o_e(A[s].oct,pivot_val) && s < h) { s++; }
+    while (s < h && o_e(A[s].oct,pivot_val)) { s++; }
     if (s < h) {
       sort_oct(A,s,h);
     }
-- 
2.43.0


From e197013de846b04716ef594225fdb959cc98c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 065/121] fix: octrope_strutfile_read accepted negative
 components and vertices and read out of bounds

---
 src/octrope.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index d64d51e..a556a06 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2192,7 +2192,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] < 0 || ts.component[0] >= L->nc ||
+        ts.component[1] < 0 || ts.component[1] >= L->nc) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2203,7 +2204,9 @@ void octrope_strutfile_read(plCurve *L,
 
     }
 
-    if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
+    if (ts.lead_vert[0] < 0 ||
+        ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
+        ts.lead_vert[1] < 0 ||
         ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
 
       octrope_error_num = 67;
-- 
2.43.0


From 670d900a74444e5a856f333dde76d3cd118be560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 066/121] fix: octrope_strutfile_write kept only six digits of
 each value

---
 src/octrope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index a556a06..0dafcde 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2337,7 +2337,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
   
   for(i=0;i<n_struts;i++) {
 
-    fprintf(file,"%d %d %d %d %16g %16g %16g %16g\n",
+    fprintf(file,"%d %d %d %d %.17g %.17g %.17g %.17g\n",
             strutlist[i].component[0],
             strutlist[i].component[1],
             strutlist[i].lead_vert[0],
@@ -2351,7 +2351,7 @@ void octrope_strutfile_write(int n_struts,octrope_strut *strutlist,
 
   for(i=0;i<n_mrloc;i++) {
 
-    fprintf(file,"%d %d %16g %16g \n",
+    fprintf(file,"%d %d %.17g %.17g \n",
             mrlist[i].component,
             mrlist[i].vert,
             mrlist[i].mr,
-- 
2.43.0


From 1d1a6ceab33cbcd26180b55e1355f01c53afd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:20 +0000
Subject: [PATCH 067/121] fix: segment-segment distances were wrong for short
 segments, taken as parallel by an absolute threshold

---
 src/octrope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 0dafcde..a37efb3 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1176,7 +1176,7 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
 
   //assert(fabs(D1) > 1e-10 && fabs(D2) > 1e-10);
 
-  if (denom < 1e-10) {
+  if (denom < 1e-10*D1*D2) {
 
     /* The situation is somewhat numerically unstable. The right thing to do is to repeat
        the calculation in long double to see if we can salvage things. */
@@ -1194,7 +1194,7 @@ void find_poca(plc_vector edgeA[2], plc_vector edgeB[2],
     
     Ldenom = LD1*LD2 - LR*LR;
     
-    if (Ldenom < 1e-25) {
+    if (Ldenom < 1e-25*LD1*LD2) {
       
       LT = 0; // We assume that the line segments are parallel. 
 	
-- 
2.43.0


From 7659e6cb7ca1eb9dba510cd6ee19f6a816f82d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 068/121] fix: spiral and teeth triangulations of a triangle
 wrote a chord into an empty array

---
 src/plcToricSymplecticTriangulation.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..1ebaa9d 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -47,7 +47,9 @@ tsmcmc_triangulation_t tsmcmc_spiral_triangulation(int nedges)
   int i,cd;
   for(i=0;i<nedges;i++) { vert_active[i] = true; }
 
-  for(cd=0,chordsys[cd].vt[0] = 0,i=0;cd < nedges-3;cd++) { 
+  if (nedges > 3) { chordsys[0].vt[0] = 0; }
+
+  for(cd=0,i=0;cd < nedges-3;cd++) { 
 
     /* Start assuming that chordsys[cd].vt[0] is set, and equal to i. */
     /* Scan forward until the next active vertex */
@@ -166,7 +168,13 @@ tsmcmc_triangulation_t tsmcmc_teeth_triangulation(int nedges)
   assert(chordsys != NULL);
   
   int chords_used;
-  chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+
+  if (nedges > 3) { /* A triangle has no chords at all. */
+
+    chordsys[0].vt[0] = nedges-1; chordsys[0].vt[1] = 1; /* We start by skipping vertex 0. */
+
+  }
+
   chords_used = 1;
 
   for(;chords_used < nedges-3;chords_used++) { 
-- 
2.43.0


From 3f6f16807037ff554a32a3f7da6c79d479e79415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 069/121] fix: embedding a polygon with a flat triangle could
 give vertices which are not numbers

---
 src/plcToricSymplecticTriangulation.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 1ebaa9d..355b692 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -652,9 +652,14 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
 
   }
   
-  double alpha;
+  double alpha, cosalpha;
 
-  alpha = acos((B*B + C*C - A*A)/(2.0*B*C));
+  cosalpha = (B*B + C*C - A*A)/(2.0*B*C);
+
+  if (cosalpha > 1.0)  { cosalpha = 1.0; }  /* Roundoff can take the cosine of a (nearly) */
+  if (cosalpha < -1.0) { cosalpha = -1.0; } /* flat triangle outside the domain of acos. */
+
+  alpha = acos(cosalpha);
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From 34c98086f4a3b6f067ad05620c9040e4875f3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 070/121] fix: embedding a polygon across a diagonal of length
 zero lost the edges beyond it

---
 src/plcToricSymplecticTriangulation.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 355b692..d9b28c9 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -710,8 +710,16 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
   frame[1] = plc_normalize_vect(frame[1],&ok);
   double PI = 3.141592653589793;
 
-  if (!ok) {
+  if (!ok) { /* The parent chord has length zero, so any direction normal to parent_normal will do. */
 
+    int small = 0;
+    if (fabs(parent_normal.c[1]) < fabs(parent_normal.c[small])) { small = 1; }
+    if (fabs(parent_normal.c[2]) < fabs(parent_normal.c[small])) { small = 2; }
+
+    plc_vector axis = {{0,0,0}};
+    axis.c[small] = 1.0;
+
+    frame[1] = plc_normalize_vect(plc_cross_prod(parent_normal,axis),NULL);
     current_normal = parent_normal;
 
   } else { /* Use the dihedral data. */
-- 
2.43.0


From 311649e33bbeca39a3d46609ebed4577d72a6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 071/121] fix: ips_sigma_estimator_with_gammas reported -1
 Gammas for three samples or fewer, and geyer_ips_value wrote past the end of
 an empty array

---
 src/geyer_estimators.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..9988e3b 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -127,9 +127,10 @@ double ips_sigma_estimator_with_gammas(double *zero_meaned_data, int m,
   if (Gammas != NULL) { 
     
     *Gammas = internal_Gammas;
-    *N = k-2; 
+    *N = done_flag ? k-2 : k-1; 
     /* Remember that k got incremented on the way out of the loop when we detected the first negative,
-       AND that we wanted to throw that one out. */
+       AND that we wanted to throw that one out. (If there was no negative one, there's nothing to 
+       throw out.) */
     
   } else { 
     
-- 
2.43.0


From cce1b74bcb2f346e828c88b13055e4f639283749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 072/121] fix: geyer_ips_value gave a NaN error for
 anticorrelated data and reported failure on constant data once the buffer had
 filled

---
 src/geyer_estimators.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 9988e3b..aa069c3 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -681,6 +681,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   if (gips->samples == 0) { 
 
     if (error != NULL) { *error = 0; } 
+    *ok = true;
     return 0;
 
   }
@@ -789,12 +790,16 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
     
   }
 
-  if (gips->Gamma[gips->N-1] < 0) { gips->N--; *ok = true; } /* The last Gamma was negative. */
+  if (gips->Gamma[gips->N-1] <= 0) { gips->N--; *ok = true; } /* The last Gamma was not positive. */
   else { *ok = false; } /* We computed all of the Gammas that we could, but they are still positive! */
   /* Now we can actually compute the estimator. */
 
   gips->sigma = -littlegamma[0]; 
   for(i=0;i<gips->N;i++) { gips->sigma += 2*gips->Gamma[i]; }
+
+  /* As in ips_sigma_estimator, far from convergence this sum can be negative. */
+
+  if (gips->sigma < 0) { gips->sigma = GIPS_MAX(littlegamma[0],0); }
   gips->sigma = sqrt(gips->sigma); 
   
   *error = 1.96 * gips->sigma / sqrt(gips->samples);
-- 
2.43.0


From 735376f2b4439b758ea277bfc0e1fbfa185b5828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 073/121] fix: the Mathematica forms of a configuration and of
 the run parameters overflowed fixed buffers

---
 src/plcToricSymplectic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..444af5d 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1050,7 +1050,7 @@ char    *tsmcmc_run_stats_MathematicaForm(tsmcmc_run_stats run_stats)
 char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 
 {
-  char *ret = calloc(1024,sizeof(char));
+  char *ret = calloc(1024 + strlen(run_params.logfile_name),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
@@ -1071,7 +1071,9 @@ char    *tsmcmc_run_params_MathematicaForm(tsmcmc_run_parameters run_params)
 char    *tsmcmc_configuration_MathematicaForm(tsmcmc_triangulation_t T,double *edge_lengths,double *diagonal_lengths,double *dihedral_angles)
 {
 
-  char *ret = calloc(2048,sizeof(char));
+  /* Each number takes at most 13 characters (as in -1.23457e-308) and its comma. */
+
+  char *ret = calloc(256 + 16*(T.nedges + 2*T.ndiags),sizeof(char));
   assert(ret != NULL);
 
   sprintf(ret,
-- 
2.43.0


From 74decdec11e57c60c47778f8dce83e9d0556d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 074/121] fix: the sample means logged by the expectation
 drivers were divided by the step number, not the number of samples, and each
 line leaked

---
 src/plcToricSymplectic.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 444af5d..ae27a31 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1206,8 +1206,9 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1360,11 +1361,11 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
     }
 
-    if (run_params.logfile != NULL && i%run_params.log_interval == 0 ) {
+    if (run_params.logfile != NULL && i%run_params.log_interval == 0 && i>run_params.burn_in) {
 
       char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
       fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-	      i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+	      i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples)));
       fflush(run_params.logfile);
       free(configuration);
 
@@ -1526,8 +1527,9 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 
 	char *configuration = tsmcmc_configuration_MathematicaForm(T,edge_lengths,diagonal_lengths,dihedral_angles);
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
-		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
+		i,configuration,ival,(double)(gips->sample_sum/(long double)(gips->samples)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
-- 
2.43.0


From d261dcfa50bcf2d03372b86a0d761caa6551bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 075/121] fix: confined expectations reported an error bar
 which the estimator had said was not usable

---
 src/plcToricSymplectic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index ae27a31..1f855d5 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1398,7 +1398,7 @@ double   tsmcmc_confined_equilateral_expectation(gsl_rng *rng,double integrand(p
 
   }
 
-  if (error != NULL) { *error = err; }
+  if (error != NULL) { if (ok) { *error = err; } else { *error = 1.0/0.0; } }
   geyer_ips_free(&gips);
   tsmcmc_triangulation_free(T);
 
-- 
2.43.0


From 3c8b81ec5a15deff8d0b50c1003f1b9548063dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:28 +0000
Subject: [PATCH 076/121] fix: a polygon with a triangle or a diagonal which is
 flat or zero up to roundoff could not be embedded again, crashing the chain

---
 src/plcToricSymplecticTriangulation.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index d9b28c9..0594fe3 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -607,8 +607,12 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
   /* We need first to check that the triangle inequalities hold in order to actually embed 
      the triangle. */
 
-  if (A < 0 || B < 0 || C < 0) { return false; }
-  if (A + B < C || B + C < A || C + A < B) { return false; }
+
+  /* The sides of a flat triangle may miss the (triangle) inequalities by roundoff. */
+
+  double slack = 1e-12*(1.0 + fabs(A) + fabs(B) + fabs(C));
+  if (A < -slack || B < -slack || C < -slack) { return false; }
+  if (A + B < C - slack || B + C < A - slack || C + A < B - slack) { return false; }
 
   /* Now we need to worry about various special cases. */
 
@@ -706,11 +710,11 @@ bool tsmcmc_embed_polygon_worker(plCurve *L,tsmcmc_triangulation_t T,
 							 T.triangles[tri].parent_type)]);
   /* Keep in mind that the parent chord is stored in reverse orientation. */
 
-  bool ok;
+  bool ok, short_parent = (plc_norm(frame[1]) < 1e-8); /* As in tsmcmc_triangle_from_edgelengths */
   frame[1] = plc_normalize_vect(frame[1],&ok);
   double PI = 3.141592653589793;
 
-  if (!ok) { /* The parent chord has length zero, so any direction normal to parent_normal will do. */
+  if (!ok || short_parent) { /* The parent chord has length zero, up to roundoff, so any direction normal to parent_normal will do. */
 
     int small = 0;
     if (fabs(parent_normal.c[1]) < fabs(parent_normal.c[small])) { small = 1; }
-- 
2.43.0


From 66ba64c6c2d173408abd1301088de51ef0cde9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:45 +0000
Subject: [PATCH 077/121] fix: polygons with short or flat triangles were
 embedded to only half precision, and edgepermute_step stopped the program on
 such polygons

---
 src/plcToricSymplecticTriangulation.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 0594fe3..8d76c5e 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -656,14 +656,16 @@ bool     tsmcmc_triangle_from_edgelengths(plc_vector *a, plc_vector *b, plc_vect
 
   }
   
-  double alpha, cosalpha;
+  /* We use the half-angle formula because the law of cosines loses half
+     of the digits of alpha if the triangle is nearly flat. Roundoff can make
+     the factors for a flat triangle slightly negative. */
 
-  cosalpha = (B*B + C*C - A*A)/(2.0*B*C);
+  double alpha, num, den;
 
-  if (cosalpha > 1.0)  { cosalpha = 1.0; }  /* Roundoff can take the cosine of a (nearly) */
-  if (cosalpha < -1.0) { cosalpha = -1.0; } /* flat triangle outside the domain of acos. */
+  num = (A - (B - C))*(A - (C - B));
+  den = (A + B + C)*((B + C) - A);
 
-  alpha = acos(cosalpha);
+  alpha = 2.0*atan2(sqrt(num > 0 ? num : 0),sqrt(den > 0 ? den : 0));
 
   *a = plc_build_vect(0,0,0);
   *b = plc_build_vect(C,0,0);
-- 
2.43.0


From 5532096e0e2a6e47ef7d717a8e5e3beddc89b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 078/121] fix: pd_code_from_plCurve projected the original
 curve on every attempt instead of the randomly rotated one, so its retries
 could never succeed

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 1f9f23a..dd8caf9 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1363,7 +1363,7 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 2. Perturb to make it crossing-clean. */
 
-    plCurve *genericL = make_zprojection_generic(rng,L);
+    plCurve *genericL = make_zprojection_generic(rng,workingL);
 
     if (pd_code_from_plCurve_verbose) {
 
-- 
2.43.0


From dce35854cf0e12a2c43b65874e66c1653c978591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 079/121] fix: failed projection attempts in
 pd_code_from_plCurve leaked their copies of the curve

---
 src/plcTopology.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index dd8caf9..4f38572 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -676,6 +676,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
     if (safe_radius < 1e-16) {
 
       fprintf(stderr,"plc_ccode: plCurve is numerically singular. Can't compute projection.\n");
+      plc_free(Lcopy);
       return NULL;
 
     }
@@ -750,6 +751,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
   if (projection_clean == false) {
 
     fprintf(stderr,"plc_ccode: Couldn't resolve singularities in %d passes. plCurve is probably singular.\n",attempt_counter);
+    plc_free(Lcopy);
     return NULL;
 
   }
@@ -875,6 +877,7 @@ crossing_container *findcrossings(plCurve *L) {
 	      fprintf(stderr,"plc_ccode: Unexpected error computing "
 		      "crossings for (supposedly) generic L.\n");
 	      crossing_container_free(&cc);
+	      plc_free(Lproj);
 	      return NULL;
 
 	    }
-- 
2.43.0


From 394821c41885664715f81e98a6404bd8c15a83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:24 +0000
Subject: [PATCH 080/121] fix: plc_classify and pd_classify reported
 two-crossing diagrams of the Hopf link as the unknot

---
 src/plcTopology.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 4f38572..f388264 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1559,6 +1559,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
+  bool isknot = (pdC->ncomps == 1);
   pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
@@ -1566,7 +1567,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   int Ncount = 0;
   for(cptr = strchr(ccode,'\n');cptr != NULL;cptr = strchr(cptr+1,'\n'),Ncount++);
 
-  if (Ncount == 3 || Ncount == 4) { /* 1 or 2 crossings, we know this must be the unknot */
+  if (Ncount == 3 || (Ncount == 4 && isknot)) { /* 1 or 2 crossings, we know this must be the unknot */
 
     ret = calloc(1,sizeof(plc_knottype));
     assert(ret != NULL);
@@ -1659,7 +1660,7 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   int Ncount = 0;
   for(cptr = strchr(ccode,'\n');cptr != NULL;cptr = strchr(cptr+1,'\n'),Ncount++);
 
-  if (Ncount == 3 || Ncount == 4) { /* 1 or 2 crossings, we know this must be the unknot */
+  if (Ncount == 3 || (Ncount == 4 && pdC->ncomps == 1)) { /* 1 or 2 crossings, we know this must be the unknot */
 
     ret = calloc(1,sizeof(plc_knottype));
     assert(ret != NULL);
-- 
2.43.0


From 40693191127bfc40ed90e746308a89db7bcca174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 081/121] fix: pd_code_from_plCurve refused small curves
 because its tolerances did not scale with the curve

---
 src/plcTopology.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index f388264..4a990fd 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1347,6 +1347,12 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
   pd_code_t  *pd = NULL;
   plc_vector new_axis = {{0,0,1}};
 
+  /* The tolerances used to detect a nongeneric projection are absolute,
+     so we work with a copy of L scaled to average edgelength 1. */
+
+  double length = plc_arclength(L,NULL);
+  if (length > 0) { plc_scale(workingL,plc_num_edges(L)/length); }
+
   for(attempt_number=0;attempt_number < 9 && !pd_created;attempt_number++) {
 
     /* Step 1. Rotate the whole thing randomly. */
-- 
2.43.0


From 9e964c40761a93ea58fad4f83129a015fcbe5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 082/121] fix: composing permutations in place or composing
 edge maps left a stale precomputed index, so the results failed pd_perm_ok
 and incremented wrongly

---
 src/pd_isomorphisms.c | 3 +++
 src/pd_perm.c         | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index b7bb7e8..994c065 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -771,6 +771,8 @@ pd_edgemap_t  *pd_compose_edgemaps(pd_edgemap_t *A,pd_edgemap_t *B)
 
   }
 
+  pd_regenerate_pcidx(AstarB->perm);
+
   return AstarB;
 
 }
@@ -782,6 +784,7 @@ void           pd_stareq_edgemap(pd_edgemap_t *A,pd_edgemap_t *B)
   AstarB = pd_compose_edgemaps(A,B);
   memcpy(A->perm->map,AstarB->perm->map,A->perm->n*sizeof(pd_idx_t));
   memcpy(A->orient,AstarB->orient,A->perm->n*sizeof(pd_or_t));
+  A->perm->pc_idx = AstarB->perm->pc_idx;
   pd_free_edgemap(&AstarB);
 }
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..80fa60b 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A);
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 2af7380529d99ba48654956889b67f7ee0d8605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:33 +0000
Subject: [PATCH 083/121] fix: pd_perm_ok read past the end of the precomputed
 permutations when the index was one too large

---
 src/pd_perm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 80fa60b..0a274e6 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -195,7 +195,7 @@ bool pd_perm_ok(void *permP)
 
   if (perm->n <= PD_MAX_PC_PERM) { /* Check perm->pc_idx legal. */
 
-    if (perm->pc_idx > pd_nperms(perm)) {
+    if (perm->pc_idx >= pd_nperms(perm)) {
 
       return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
 		      perm,perm->pc_idx,pd_nperms(perm));
-- 
2.43.0


From 859bd212f8b8785b87aaab3ffb99f0992cb7ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 084/121] fix: pd_ok leaked its bookkeeping arrays whenever it
 rejected a diagram

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 8483cfe..83ebdb0 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2153,6 +2153,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (!(pd->cross[cross].sign == PD_POS_ORIENTATION || pd->cross[cross].sign == PD_NEG_ORIENTATION || pd->cross[cross].sign == PD_UNSET_ORIENTATION)) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
 		      cross,pd->cross[cross].sign);
 
@@ -2164,6 +2165,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       if (!(edge < pd->nedges)) {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
 			pd,
 			cross,edge,pd->nedges);
@@ -2194,6 +2196,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       } else {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
 
       }
@@ -2207,6 +2210,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (pd_cross_cmp(&(pd->cross[cross]),&(pd->cross[cross-1])) < 0) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
 		      pd,cross-1,cross);
 
@@ -2452,6 +2456,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
 
     }
@@ -2471,6 +2476,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
 
     }
-- 
2.43.0


From 690667aef94a63b06f0c96dd12d15dfb355b49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 085/121] fix: the triangulation and embedding checks leaked
 memory whenever they rejected their input

---
 src/plcToricSymplecticTriangulation.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8d76c5e..0149fc2 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -416,6 +416,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
     if (!tsmcmc_chord_ok(T,T.triangles[i].parent_chord,T.triangles[i].parent_type)) { 
 
       printf("T.triangles[%d].parent chord not ok.\n",i);
+      free(daughterof);
       return false;
 
     }
@@ -425,6 +426,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       if (!tsmcmc_chord_ok(T,T.triangles[i].daughter_chord[j],T.triangles[i].daughter_type[j])) {
 	
 	printf("T.triangles[%d].daughter_chord[%d] not ok.\n",i,j);
+	free(daughterof);
 	return false;
 
       }
@@ -434,6 +436,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("T.triangles[%d].daughter_tri[%d] = %d illegal (<-1 or >T.ntri-1 = %d)\n",
 	       i,j,T.triangles[i].daughter_tri[j],T.ntri-1);
 
+	free(daughterof);
 	return false;
 
       }
@@ -444,6 +447,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 
 	  printf("Triangle %d is a daughter of BOTH triangle %d and triangle %d.\n",
 		 T.triangles[i].daughter_tri[j],i,daughterof[T.triangles[i].daughter_tri[j]]);
+	  free(daughterof);
 	  return false;
 	  
 	}
@@ -467,6 +471,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
+	free(daughterof);
 	return false;
 	
       } 
@@ -481,6 +486,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
+	free(daughterof);
 	return false;
 	
       } 
@@ -497,6 +503,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
       printf("daughter 1:"); tsmcmc_print_chord(T,T.triangles[i].daughter_chord[1],T.triangles[i].daughter_type[1]); printf("\n");
 
+      free(daughterof);
       return false;
 
     } 
@@ -514,6 +521,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
+	free(daughterof);
 	return false;
 	
       } 
@@ -529,6 +537,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
+	free(daughterof);
 	return false;
 	
       } 
@@ -549,6 +558,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	
 	printf("BOTH triangle %d and triangle %d don't appear as a daughter.\n",
 	       i,roottri);
+	free(daughterof);
 	return false;
 	
       } else {
@@ -1079,6 +1089,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 
       printf("tsmcmc_polygon_embedding_ok: edge %d has actual length %g != edge_lengths[%d] == %g\n",
 	     i,new_edge_lengths[i],i,edge_lengths[i]);
+      free(new_edge_lengths);
       return false; 
 
     }
@@ -1100,6 +1111,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
       
       printf("tsmcmc_polygon_embedding_ok: diagonal %d has actual length %g != diagonal_lengths[%d] == %g\n",
 	     i,new_diagonal_lengths[i],i,diagonal_lengths[i]);
+      free(new_diagonal_lengths);
       return false; 
       
     }
@@ -1123,6 +1135,8 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 	
 	printf("tsmcmc_polygon_embedding_ok: dihedral %d has angle %g != dihedral_angles[%d] == %g \n",
 	       i,new_dihedral_angles[i],i,dihedral_angles[i]);
+	free(new_dihedral_angles);
+	free(dihedral_defined);
 	return false; 
 	
       }
-- 
2.43.0


From dc1b1d11204ff55c3afba8296bcf85ed56ccc42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 086/121] fix: comparing diagrams whose tagged components have
 different lengths, and finding duplicate isomorphisms, edge maps or
 multi-indices, leaked memory

---
 src/pd_isomorphisms.c | 9 +++++++--
 src/pd_multidx.c      | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 994c065..dbbc731 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -560,13 +560,15 @@ bool pd_edgemaps_ok(unsigned int nedgemaps,pd_edgemap_t **edgemap_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "edgemap_buf contains\n"
 		      "%EDGEMAP == \n"
 		      "%EDGEMAP at positions %d, %d \n"
 		      "(sorted) emb_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      emb_copy[i],emb_copy[i+1],j,k,i,i+1);
+      free(emb_copy);
+      return false;
 
     }
 
@@ -2275,13 +2277,15 @@ bool      pd_isos_unique(unsigned int nisos,pd_iso_t **iso_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "iso_buf contains\n"
 		      "%ISO == \n"
 		      "%ISO at positions %d, %d \n"
 		      "(sorted) isobuf_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      isobuf_copy[i],isobuf_copy[i+1],j,k,i,i+1);
+      free(isobuf_copy);
+      return false;
 
     }
 
@@ -2619,6 +2623,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
       pd_free_perm((void **)(&comp_perm));
+      pd_free_container(&isos,pd_free_fake);
       *nisos = 0;
       return NULL;
 
diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..c35e03f 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -274,13 +274,15 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "multidx_buf contains\n"
 		      "%MULTIDX == \n"
 		      "%MULTIDX at positions %d, %d \n"
 		      "(sorted) mb_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      mb_copy[i],mb_copy[i+1],j,k,i,i+1);
+      free(mb_copy);
+      return false;
 
     }
 
-- 
2.43.0


From 7c3029b8de414d7b790871d93f37ef9f19700548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 087/121] fix: an R2 move which splits the diagram, and
 deleting every crossing or edge, leaked memory

---
 src/pd_crossingmoves.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6f64fb7..8df99d7 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -149,6 +149,7 @@ void pd_compacting_copy(void *source, size_t obj_size, size_t nobj,
     for(i=0;i<nobj;i++) {
       tidx[i] = PD_UNSET_IDX;
     }
+    free(uniquedeletions);
     return;
   }
 
@@ -1714,6 +1715,8 @@ v         |                     |         ^
         free(compstate);
         free(new_crossing_idx_A); free(new_crossing_idx_B);
         free(new_edge_idx_A); free(new_edge_idx_B);
+        free(A_crossings); free(B_crossings);
+        free(A_edges); free(B_edges);
 
         /* Finally, we return the results. */
 
-- 
2.43.0


From b4c0be76bec3a06c79d331384535c3c8bf282ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:00 +0000
Subject: [PATCH 088/121] fix: plc_resize_colorbuf leaked the empty color
 buffer of a component without colors

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 1b2e833..d6a209a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2215,6 +2215,7 @@ void plc_resize_colorbuf(plCurve *L,const int cp, const int cc)
     if (L->cp[cp].cc == 0) { /* There is no existing data, and we are adding some. */
 
       L->cp[cp].cc = cc;
+      free(L->cp[cp].clr); /* There may still be an (empty) buffer */
       L->cp[cp].clr = calloc(sizeof(plc_color),cc);
       assert(L->cp[cp].clr != NULL);
 
-- 
2.43.0


From 0a078adc518d498c9b521d688f17b5a35822c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:40 +0000
Subject: [PATCH 089/121] fix: searching a sorted buffer which has no elements
 yet passed a null pointer to bsearch

---
 src/pd_sortedbuf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pd_sortedbuf.c b/src/pd_sortedbuf.c
index 6cdafaf..fe23bc9 100644
--- a/src/pd_sortedbuf.c
+++ b/src/pd_sortedbuf.c
@@ -43,6 +43,7 @@ bool      pd_sortedbuf_contains(pd_idx_t *buf,pd_idx_t nelems,pd_idx_t i)
 /* Returns true if the buffer contains the number "i". */
 {
   // This is basically a wrapper for the C library bsearch function.
+  if (buf == NULL) { return false; } /* Nothing has been inserted yet. */
   pd_idx_t *pos = bsearch(&i,buf,(size_t)(nelems),sizeof(pd_idx_t),pd_idx_cmp);
   if (pos == NULL) { 
     return false;
-- 
2.43.0


From 9d3b8c5e128a36176a3362835e3e1873b275e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 090/121] fix: tangles containing a loop edge could miss some
 of their interior crossings and edges

---
 src/pd_tangles.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..e98bf65 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -1012,14 +1012,23 @@ void tangle_contents_worker(pd_code_t *pd,pd_tangle_t *t,
 
   pd_idx_t transverse_edge[2];
 
-  transverse_edge[0] = pd->cross[cr].edge[(pd->edge[edge].headpos+1)%4];
-  transverse_edge[1] = pd->cross[cr].edge[(pd->edge[edge].headpos+3)%4];
+  pd_pos_t transverse_pos[2];
 
-  if (pd->edge[transverse_edge[0]].tail == cr) {
+  transverse_pos[0] = (pd->edge[edge].headpos+1)%4;
+  transverse_pos[1] = (pd->edge[edge].headpos+3)%4;
+
+  transverse_edge[0] = pd->cross[cr].edge[transverse_pos[0]];
+  transverse_edge[1] = pd->cross[cr].edge[transverse_pos[1]];
+
+  /* A loop edge has its head AND tail at cr, so we need to check positions, too. */
+
+  if (pd->edge[transverse_edge[0]].tail == cr &&
+      pd->edge[transverse_edge[0]].tailpos == transverse_pos[0]) {
 
     tangle_contents_worker(pd,t,transverse_edge[0],depth+1);
 
-  } else if (pd->edge[transverse_edge[1]].tail == cr) {
+  } else if (pd->edge[transverse_edge[1]].tail == cr &&
+	     pd->edge[transverse_edge[1]].tailpos == transverse_pos[1]) {
 
     tangle_contents_worker(pd,t,transverse_edge[1],depth+1);
 
-- 
2.43.0


From 6fca8ae9a71788a4258e38cff4f16e41086ecf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:07 +0000
Subject: [PATCH 091/121] fix: pd_regenerate_tangle accepted boundary edges
 which don't separate their two faces, then aborted or looped

---
 src/pd_tangles.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index e98bf65..d518044 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -728,14 +728,16 @@ void pd_regenerate_tangle_err(pd_code_t *pd, pd_tangle_t *t, int *err)
     pd_idx_t pos_face,pfp,neg_face,nfp;
     pd_face_and_pos(pd,t->edge[i],&pos_face,&pfp,&neg_face,&nfp);
 
-    if (pos_face == t->face[i]) {
+    pd_idx_t next_face = t->face[(i+1)%t->nedges];
+
+    if (pos_face == t->face[i] && neg_face == next_face) {
       t->edge_bdy_or[i] = in;
-    } else if (neg_face == t->face[i]) {
+    } else if (neg_face == t->face[i] && pos_face == next_face) {
       t->edge_bdy_or[i] = out;
     } else {
       pd_error(SRCLOC,"edge e[%d] = %EDGE in tangle is "
-	       "not on face f[%d] = %FACE in pd\n",
-	       pd,i,t->edge[i],i,t->face[i]);
+	       "not between faces f[%d] = %FACE and f[%d] = %FACE in pd\n",
+	       pd,i,t->edge[i],i,t->face[i],(i+1)%t->nedges,next_face);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
           return;
-- 
2.43.0


From 0a772ee7b200381ee7e49bc0b76d51f2c0a6350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:07 +0000
Subject: [PATCH 092/121] fix: refusing a bad tangle leaked memory

---
 src/pd_tangles.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index d518044..a80ac4f 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -253,6 +253,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
       pd_error(SRCLOC,
 	       "edge %d occurs more than once in the edge list of %TANGLE",
 	       pd,scratch[i],t);
+      free(scratch);
       return false;
 
     }
@@ -286,6 +287,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     if (!pd_xor(pos_face[i] == t->face[i],neg_face[i] == t->face[i])) {
 
       pd_printf("edge t->edge[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],i,t->face[i]);
+      free(pos_face); free(neg_face);
       return false;
 
     }
@@ -293,6 +295,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     if (!pd_xor(pos_face[i] == t->face[(i+1)%t->nedges],neg_face[i] == t->face[(i+1)%t->nedges])) {
 
       pd_printf("edge t->e[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],(i+1)%(t->nedges),t->face[(i+1)%t->nedges]);
+      free(pos_face); free(neg_face);
       return false;
 
     }
@@ -639,6 +642,7 @@ void pd_regenerate_tangle_err(pd_code_t *pd, pd_tangle_t *t, int *err)
 	       "can't regenerate tangle %TANGLE when edge %d\n"
 	       "occurs more than once in the edge list\n",
 	       pd,t,scratch[i]);
+      free(scratch);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
           return;
-- 
2.43.0


From d3d80b6dfe1c150681fdc8538a95545e8a91ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:53 +0000
Subject: [PATCH 093/121] fix: pd_tangle_slide refused to slide a strand which
 crosses only one edge of the tangle

---
 src/pd_tangles.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index a80ac4f..a1648e4 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2260,17 +2260,15 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 
   /* First, we check the crossings involved in the overstrand. */
 
-  for(i=1;i<n-1;i++) {
+  for(i=0;i+1<n;i++) {
 
-    if (pd->edge[overstrand_edges[i]].tail == start_anchor ||
-	pd->edge[overstrand_edges[i]].head == start_anchor ) {
+    if (pd->edge[overstrand_edges[i]].head == start_anchor) {
 
       start_anchor_ok = false;
 
     }
 
-    if (pd->edge[overstrand_edges[i]].tail == end_anchor ||
-	pd->edge[overstrand_edges[i]].head == end_anchor) {
+    if (pd->edge[overstrand_edges[i]].head == end_anchor) {
 
       end_anchor_ok = false;
 
@@ -2417,6 +2415,22 @@ end_anchor   |                   |    +---start_anchor
 
   }
 
+  /* If the overstrand has only one crossing, there are no internal edges,
+     and we have to take the first and last edge off that crossing ourselves. */
+
+  if (n == 2) {
+
+    pd_edge_t *first = &(pd_working->edge[overstrand_edges[0]]);
+    pd_edge_t *last  = &(pd_working->edge[overstrand_edges[1]]);
+
+    pd_working->cross[first->head].edge[first->headpos] = PD_UNSET_IDX;
+    pd_working->cross[last->tail].edge[last->tailpos] = PD_UNSET_IDX;
+
+    first->head = PD_UNSET_IDX; first->headpos = PD_UNSET_POS;
+    last->tail  = PD_UNSET_IDX; last->tailpos  = PD_UNSET_POS;
+
+  }
+
   /* Step 3. We're now in the state:
 
 		  |  	   |
-- 
2.43.0


From 20b83fb19f3999d7fd8a635ac1fa64ed98f1c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:53 +0000
Subject: [PATCH 094/121] fix: pd_tangle_slide used a deleted edge when an edge
 ran from the far side of the tangle straight to the sliding strand

---
 src/pd_tangles.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index a1648e4..6d2aa3c 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2913,6 +2913,23 @@ end_anchor   | 	    Tangle     	 |
 
     */
 
+    /* If the complementary edge ran straight into one of the overstrand
+       crossings which we deleted, it has been spliced together with another
+       edge, and may have been renumbered. But we can still find it by looking
+       at the crossing inside the tangle. */
+
+    if (complementary_or[i] == in) {
+
+      pd_edge_t *ce = &(pd->edge[complementary_edges[i]]);
+      complementary_edges[i] = pd_working->cross[ce->head].edge[ce->headpos];
+
+    } else if (complementary_or[i] == out) {
+
+      pd_edge_t *ce = &(pd->edge[complementary_edges[i]]);
+      complementary_edges[i] = pd_working->cross[ce->tail].edge[ce->tailpos];
+
+    }
+
     pd_idx_t new_cross, new_edge;
     new_cross = pd_working->ncross;
     new_edge = pd_working->nedges;
-- 
2.43.0


From cba91f632e0d2750839e58e1befb53bc36844c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:53 +0000
Subject: [PATCH 095/121] fix: pd_tangle_slide wrote past the end of the edge
 list of a component which gained crossings

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 6d2aa3c..4151f6f 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3492,6 +3492,12 @@ end_anchor   | 	    Tangle     	 |
 
       pd_working->comp[i].edge[0] = pd_working->comp[i].edge[j];
 
+      /* The component may have gained edges, so make sure there's room. */
+
+      pd_working->comp[i].edge = realloc(pd_working->comp[i].edge,
+					 (pd_working->MAXEDGES+2)*sizeof(pd_idx_t));
+      assert(pd_working->comp[i].edge != NULL);
+
       pd_idx_t next_edge;
       pd_or_t  next_or;
 
-- 
2.43.0


From 825ea22ea91a480d919593060133152cf0686f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:53 +0000
Subject: [PATCH 096/121] fix: pd_tangle_slide didn't set the sign of the new
 crossing when there was only one

---
 src/pd_tangles.c | 64 ++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 51 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 4151f6f..23c9c44 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -3198,67 +3198,29 @@ end_anchor   | 	    Tangle     	 |
       pd_working->cross[pd->ncross+i-1].edge[pd_working->edge[new_edge].tailpos]
 	= new_edge;
 
-      /* Probably the hardest part here is to figure out the correct sign for
-	 the crossing. We know whether the new strand is supposed to go over or
-	 under, so the quickest way to do this is "guess and check". */
-
-      pd_working->cross[pd->ncross+i-1].sign = PD_POS_ORIENTATION;
-
-      pd_idx_t in_overstrand, out_overstrand;
-      pd_overstrand(pd_working,pd->ncross+i-1,&in_overstrand,&out_overstrand);
-
-      /* We now check and see if we got it wrong-- we were supposed to go under and
-	 went over, or we were supposed to go over and went under. */
-
-      if (!overstrand_goes_OVER &&
-	  (in_overstrand == new_edge || out_overstrand == new_edge)) {
-
-	pd_working->cross[pd->ncross+i-1].sign = PD_NEG_ORIENTATION;
-
-      }
-
-      if (overstrand_goes_OVER &&
-	  (in_overstrand != new_edge && out_overstrand != new_edge)) {
-
-	pd_working->cross[pd->ncross+i-1].sign = PD_NEG_ORIENTATION;
-
-      }
-
-      /* There's a sticky edge case here. If we're at the end of the
-	 new crossings, then we've already got another edge sewed to
-	 the end of the crossing at pd->ncross+i, and we can go ahead
-	 and assign a sign to the crossing now instead of waiting for
-	 next iteration of the loop. In fact, we have to, since we
-	 aren't going to get another loop iteration! */
-
-      if (i == ncomplementary_edges-1) {
-
-	 pd_working->cross[pd->ncross+i].sign = PD_POS_ORIENTATION;
-
-	 pd_idx_t in_overstrand, out_overstrand;
-	 pd_overstrand(pd_working,pd->ncross+i,&in_overstrand,&out_overstrand);
+      pd_working->nedges++;
 
-	 /* We now check and see if we got it wrong-- we were supposed to go under and
-	    went over, or we were supposed to go over and went under. */
+    }
 
-	 if (!overstrand_goes_OVER &&
-	     (in_overstrand == new_edge || out_overstrand == new_edge)) {
+    /* Probably the hardest part here is to figure out the correct sign for
+       the new crossings. We know whether the new strand is supposed to go over
+       or under, so the quickest way to do this is "guess and check". The new
+       strand enters each crossing at enter_pos. */
 
-	   pd_working->cross[pd->ncross+i].sign = PD_NEG_ORIENTATION;
+    for(i=0;i<ncomplementary_edges;i++) {
 
-	 }
+      pd_idx_t in_overstrand, out_overstrand;
 
-	 if (overstrand_goes_OVER &&
-	     (in_overstrand != new_edge && out_overstrand != new_edge)) {
+      pd_working->cross[pd->ncross+i].sign = PD_POS_ORIENTATION;
+      pd_overstrand(pd_working,pd->ncross+i,&in_overstrand,&out_overstrand);
 
-	   pd_working->cross[pd->ncross+i].sign = PD_NEG_ORIENTATION;
+      if (overstrand_goes_OVER !=
+	  (in_overstrand == pd_working->cross[pd->ncross+i].edge[enter_pos])) {
 
-	 }
+	pd_working->cross[pd->ncross+i].sign = PD_NEG_ORIENTATION;
 
       }
 
-      pd_working->nedges++;
-
     }
 
   }
-- 
2.43.0


From a15e8216e847a7761cdbb435a5e6d3dfe7ba7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:07 +0000
Subject: [PATCH 097/121] fix: pd_tangle_slide leaked memory when it refused a
 strand without anchor crossings

---
 src/pd_tangles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 23c9c44..8a551c6 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2300,6 +2300,9 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 	     "which is part of overstrand edges or interior to %TANGLE\n",
 	     pd,overstrand_edges[0],pd->edge[overstrand_edges[0]].tail,t);
     if (err) {
+          free(tangle_slide_edges);
+          free(complementary_edges);
+          free(complementary_or);
           pd_err_set(err, PD_TANGLE_ERROR);
           return;
       } else {
@@ -2321,6 +2324,9 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 	     "which is part of overstrand edges or interior to %TANGLE\n",
 	     pd,overstrand_edges[n-1],pd->edge[overstrand_edges[n-1]].tail,t);
     if (err) {
+        free(tangle_slide_edges);
+        free(complementary_edges);
+        free(complementary_or);
         pd_err_set(err, PD_TANGLE_ERROR);
         return;
     } else {
-- 
2.43.0


From db2c03e446c4164fb173e695120191622bb97e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 098/121] fix: pd_read_pdstor only refused a header with
 contradictory element counts when PD_VERBOSE was set

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 0d8cd51..453884e 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -742,10 +742,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From f40378d211a948640b6c1b4784cc5aa2af0d5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:17 +0000
Subject: [PATCH 099/121] fix: pd_display_pdstor dereferenced a null pointer
 when the pdstor was empty

---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index 453884e..09e83c4 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -542,6 +542,8 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; } /* The pdstor is empty. */
+
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
-- 
2.43.0


From 4affa5736e7bc6f55540e0e743194827b312a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:54 +0000
Subject: [PATCH 100/121] fix: pd_R3_triangle_flip leaked a copy of the diagram
 when it refused a face that is not a triangle

---
 src/pd_crossingmoves.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 8df99d7..7d0fe8e 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -1907,7 +1907,7 @@ pd_code_t *pd_R2_bigon_addition(pd_code_t *pd, pd_idx_t f,
 pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
 // Do an R3 move. Right now we're only going to worry about shadows...
 {
-    pd_code_t *ret = pd_copy(pd);
+    pd_code_t *ret = NULL;
     pd_idx_t ea[3], eb[3];
     pd_idx_t *e = pd->face[f].edge;
     int i;
@@ -1917,6 +1917,8 @@ pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
         return NULL;
     }
 
+    ret = pd_copy(pd);
+
     for (i = 0; i < 3; i++) {
         ea[i] = pd_previous_edge(pd, e[i]);
         eb[i] = pd_next_edge(pd, e[i]);
-- 
2.43.0


From f8e4d55b584f7fd8576fcdcd67b03b0a6ff04c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 101/121] fix: product_polynomial kept the monomials which
 cancelled, so the product differed from the same polynomial in standard form

---
 src/polynomials.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index e39a277..7696186 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -389,7 +389,16 @@ homfly_polynomial_t *product_polynomial(homfly_polynomial_t *pA, homfly_polynomi
   nFin++;
   free(rawProduct);
 
-  finishedProduct->nmonomials = nFin;
+  /* Terms which cancelled completely are not part of the polynomial's
+     standard form (see lmpoly_to_polynomial), so we drop them. */
+
+  for(i=0,k=0;i<nFin;i++) {
+    if (finishedProduct->mono[i].coeff != 0) {
+      finishedProduct->mono[k++] = finishedProduct->mono[i];
+    }
+  }
+
+  finishedProduct->nmonomials = k;
   return finishedProduct;
 
 }
-- 
2.43.0


From 86de33fa5192bcfe7b134ad561062423d1d6eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:22 +0000
Subject: [PATCH 102/121] fix: pd_map_isomorphic and pd_build_map_isomorphisms
 dereferenced a null pointer on diagrams without crossings

---
 src/pd_isomorphisms.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index dbbc731..015c747 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2867,7 +2867,9 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          /* A 0-crossing diagram has no crossmap, but always has a facemap. */
+
+          if(facemaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0


From 585d9925c3f2266888d166fb581c101bf916a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 103/121] fix: lmpoly_to_polynomial overran its buffer on
 polynomials with several rows and few powers of l

---
 src/polynomials.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 7696186..61e681f 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -159,10 +159,11 @@ homfly_polynomial_t *lmpoly_to_polynomial(char *lmout)
 
   /* We now have the initialmpower set up. */
   /* We need to count the actual number of monomials in the strings. This
-     is certainly overestimated the number of spaces in the initial string. */
+     is certainly overestimated by the number of spaces and N's in the initial
+     string (plus one), since every coefficient but the first follows one of them. */
 
-  int mono_count = 0;
-  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' '); }
+  int mono_count = 1;
+  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' ' || lmoutput[i] == 'N'); }
 
   /* Now we can create a buffer for the monomials themselves. */
 
-- 
2.43.0


From 6364e8b9eae383f9d2d5c791213e2e8acea35435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 104/121] fix: plc_lmpoly overran its table of powers (wrong
 polynomials or crashes) on links with many components

---
 src/pllmpoly02.c | 4630 +++++++++++++++++++++++-----------------------
 1 file changed, 2315 insertions(+), 2315 deletions(-)

diff --git a/src/pllmpoly02.c b/src/pllmpoly02.c
index d097c09..284d2e6 100644
--- a/src/pllmpoly02.c
+++ b/src/pllmpoly02.c
@@ -1,2315 +1,2315 @@
-/*          FAST VERSION       */
-/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
-/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
-/* Department of Mathematics */
-/* University of California */
-/* Santa Barbara, CA 93106 */
-/* there is a hard limit of 255 crossings in this program */
-
-#include <config.h>
-
-#ifdef HAVE_SIGNAL_H
-#include <signal.h>
-#endif
-
-#ifdef HAVE_SYS_TYPES_H
-#include <sys/types.h>
-#endif
-
-#ifdef HAVE_SYS_TIMES_H
-#include <sys/times.h>
-#endif
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#ifdef HAVE_UNISTD_H
-#include <unistd.h>
-#endif
-
-#ifdef HAVE_FCNTL_H
-#include <fcntl.h>
-#endif
-
-#include <string.h>
-#include <time.h>
-#include <assert.h>
-
-  /* values the USER needs to define!! */
-#define XCNT       250     /* maximum crossings in knot (at most 255) */
-#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
-#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
-
-
-/* system values -- it's best if these are not touched */
-#define EOFCHR       0     /* integer value of my "end of file" character */
-#define MAXBIL   32767     /* positive value where overflow warning triggers */
-
-#define MAXPOLY  12000     /* Maximum # of characters for output poly */
-
-/* globals */
-
-typedef struct state_struct {
-
-  int readpos;
-  int writepos;
-
-  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNT+1];
-  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
-  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
-  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
-  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
-
-} lmpoly_state_t;
-
-/* Prototypes for later functions */
-
-void mypause(int sig);
-int  ntc(long i,char *buf,lmpoly_state_t *state);
-int  conchk(lmpoly_state_t *state);
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
-void squish(short sqush,lmpoly_state_t *state);
-void sqush2(short n,short g, lmpoly_state_t *state);
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
-int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
-void delpow(lmpoly_state_t *state);
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
-int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
-int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
-
-int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
-
-/* Reads up to size characters from string, copying the results to buffer. */
-/* We keep a (global) count of our position in the string internally.      */
-/* Return the number of characters read, or 0 at the end of the string.    */
-/* We don't copy the terminating NULL from str. */
-
-{
-  int ctried,cread;
-
-  for(ctried=0,cread=0;ctried < size;ctried++) {
-
-    if (str[(state->readpos)] != 0) {
-
-      ((char *) buffer)[cread++] = str[(state->readpos)++];
-
-    }
-
-  }
-
-  return cread;
-}
-
-int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
-
-/*   Writes size characters from buffer to str. Returns the number of  */
-/*   characters written. We keep a static counter of where we are in   */
-/*   the string. */
-
-{
-  int ctried,cwrote;
-
-  for(ctried=0,cwrote=0;ctried < size;ctried++) {
-
-    str[(state->writepos)++] = buffer[cwrote++];
-
-    if ((state->writepos) > MAXPOLY-1) {
-
-      printf("lmpoly: Output polynomial larger than %d characters.\n",
-	     MAXPOLY);
-
-      exit(1);
-
-    }
-
-  }
-
-  return cwrote;
-}
-
-
-char *plc_lmpoly(char *code, int timeout)
-/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
-{
- register short i, j, k, h, m, n, *sp;
- register unsigned char *p, *c;
- int in = 0, out, stats, len, len2, pause();
- long lngi, *lp1, *lp2, kstrt, cmpval;
- short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
- unsigned char nbuf[82], *q, *s;
- //struct tms hi;
- char *outpoly;
-
- clock_t start,end;
- double  cpu_time_used;
-
- lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
- assert(state != NULL);
-
- start = clock();
-
- if (code == NULL) { free(state); return NULL; }
-
- /* It's possible that we'll be fed a code with only one crossing */
- /* This will crash the rest of the code, so we insert some stuff here */
- /* to catch this case and return [[0]]N for the unknot. --JHC */
-
- int newlinecount = 0;
- char *codeptr;
- for(codeptr = code;codeptr != NULL;) {
-
-   codeptr = strchr(codeptr,'\n');
-   if (codeptr != NULL) {
-     newlinecount++;
-     codeptr++;
-   }
-
-} /* Count newlines */
-
- if (newlinecount == 3) { /* Exactly one crossing */
-
-   outpoly = calloc(128,sizeof(char));
-   sprintf(outpoly,"[[1]]N ");
-   free(state);
-   return outpoly;
-
- }
-
-/* Now back to your regularly scheduled programming. */
-
- outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
- (state->readpos) = 0;  // Reset the globals
- (state->writepos) = 0;
-
- maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
- chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
- *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
- i= (short) *(state->sign);
- if (i< (lngi=0)){
-  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
-  if (maxcrs>127) maxcrs=127;
- }
- kstrt= 0x01020304;
- p= (unsigned char *) &kstrt;
- c= (unsigned char *) &lngi;
- *(c++)= *(p++);
- *(c++)= *(p++);
- *(c++)= *(p++);
- *c= *p;
- if (lngi!= 0x01020304){
-  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
- }
- *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
- (state->t)[0]=1;
- (state->t)[1]=2;
- (state->t)[2]=3;
- (state->t)[3]=4;
- lp1= (long *) (state->t);
- lp2= (long *) nbuf;
- *lp2= *lp1;
- if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
-  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
-  exit (1);
- }
- if (sizeof(lngi)== ((state->suplng)=2)){
-  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
-  cmpval= 10000;
-  chksiz= 20;
- }
- else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
- if (sizeof(lngi)== 8) (state->suplng)= 1;
-
- // if (argc<2){
- // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
- // exit (1);
- //}
-
- /* if ((out=open("lmknot.out",1))== -1){ */
-/*   if ((out=creat("lmknot.out",0644))== -1){ */
-/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
-/*    exit (1); */
-/*   } */
-/*  } */
-/*  else lseek (out,(long) 0,2); */
-/*  close (out); */
-
- *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
- stats= -1;
-
- /* This code appears to detect "restarts" and "stats", neither of which
-    we are currently implementing. */
-
- /* if (*argv[1]=='-'){
-  if (argc==2 && argv[1][1]=='r'){
-   (state->restrt)=1;
-   if (argv[1][2]=='s') stats= 0;
-  }
-  else if (argv[1][1]=='s'){
-   stats= 0;
-   ++argv;
-   --argc;
-  }
-  } */
-
-
- signal(SIGTERM,mypause); // Not sure what this does.
-
- lp1= state->plybuf;
- sp= (state->bilbuf);
- while (j<XCNT){
-  (state->poly)[j]= lp1;
-  (state->bilion)[j]= sp;
-  lp1+= 1+ 2* (XCNT- ++j);
-  sp+= 1+ 2* (XCNT-j);
- }
-NEWFIL:
-
- /* We comment out some "stats" code, since we won't display stats anyway. */
-
- /* if (stats>0){     // remove stats info for previous knot file
-  i= strlen(*argv);
-  c= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *c!='/') --c;
-  p=t;
-  while (*++c!=0) *(p++)= *c;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  close (stats);
-  unlink(t);
-  } */
- /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
-
- /* We also comment out some "restart" code since we aren't restarting */
-
- /*if ((state->restrt)!=0){           // if I am restarting an old calculation
-  if ((in=open("lmpoly.(state->restrt)",0))== -1){
-   write (1,"couldn't find restart file\n",27);
-   exit (0);
-  }
-  read (in,nbuf,82);
-  read (in,(state->cbuf),12);
-  *argv= (char *) (state->cbuf);
-  read (in,(state->buf),7);
-  (state->numcrs)= *(state->buf);
-  xpow= (short) (state->buf)[2];
-  ypow= (short) (state->buf)[1];
-  (state->numlps)= (short) (state->buf)[3];
-  (state->poslnk)= (short) (state->buf)[4];
-  (state->neglnk)= (short) (state->buf)[5];
-  if (((state->buf)[6]&1) !=0) ypow= -ypow;
-  if (((state->buf)[6]&2) !=0) xpow|= 512;
-  read (in,*(state->crsbuf),(state->numcrs)*8);
-  i= 0;
-  while (i!=(state->numcrs)){
-   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
-   (state->crsbuf)[i++][1]&=6;
-  }
-  p= (unsigned char *) &(state->lowx);
-  read (in,p,2);
-  p= (unsigned char *) &kstrt;
-  read (in,p,4);
-  p= (unsigned char *) &notbeg;
-  read (in,p,4);
-  read (in,(state->buf), (int) notbeg);
-  read (in,(char *) count,XCNT*4);
-  read (in,(char *) state->plybuf,4*XCNT*XCNT);
-  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
-  close (in);
-  in=0;
-  s= (state->cbuf)+14;
-  *s= EOFCHR;
- }
- else if ((in=open(*++argv,0))==-1){
-  write (1,"cannot open ",12);
-  write (1,*argv,strlen(*argv));
-  write (1,", skipping\n",11);
-  goto NEWFIL;
- }
- if (stats>=0){
-  i= strlen(*argv);
-  q= (unsigned char *) *argv+i-1;
-  if (i>11) i=11;
-  while (i--!=0 && *p!='/') --q;
-  p=t;
-  while (*++q!=0) *(p++)= *q;
-  *(p++)= '.';
-  *(p++)= 'l';
-  *p=0;
-  if ((stats=creat(t,0644)) <0) stats=0;
- }
- if ((state->restrt)!=0){
-  if (stats>0){
-   write (stats,nbuf,strlen(nbuf));
-   write (stats,"\n",1);
-  }
-  (state->restrt)=0;
-  goto STEP1; // restart file has set up all NEWNOT data already
- }
- */
-
- c = (state->cbuf);
-
- /* This code fragment copies the input file into a character buffer,
-    appending the EOF character to the end of the string. Instead, we
-    copy our input "code" buffer into the (state->cbuf) array.
-
-    Original code:
-
-    c[read(in,c,10240)]= EOFCHR;
-
- */
-
- int   mypos;
- for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
-   c[mypos] = code[mypos];
- }
- c[mypos]= EOFCHR;
-
- while (*c=='\n') ++c;
-
- s=c;
-NEWNOT:
- i= XCNT-1;
- while (i!=0 && (state->count)[i]==0) --i;
- if (*(state->count)!= ((state->numcrs)=0)){
-  if (stats>=0){
-   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
-   else lseek (out,(long) 0,2);
-  }
-/*   if (stats>=0 && out>0){ */
-/*    write (out,nbuf,strlen(nbuf)); */
-/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
-/*    lngi=0; */
-/*    while (i!=0){ */
-/*     write (out,t,ntc((long)(i+1),t,state)); */
-/*     write (out,"     ",5); */
-/*     write (out,t,ntc(count[i],t)+1,state); */
-/*     lngi+= count[i--]; */
-/*    } */
-/*    write (out,"\ntotal: ",8); */
-/*    write (out,t,ntc(lngi,t,state)+1); */
-/*    write (out,"run: ",5); */
-/*    times(&hi); */
-/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
-/*    write (out,t,ntc(lngi/100,t,state)); */
-/*    write (out,".",1); */
-/*    len= ntc(lngi%100,t,state); */
-/*    write (out,"0",2-len); */
-/*    write (out,t,len); */
-/*    write (out," s\n\n",4); */
-/*    kstrt= hi.tms_utime; */
-/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
-/*    close (out); */
-/*   } */
-  k= XCNT;
-  i=0;
-  while (k!=0 && i==0){
-   i= 2+ 2*(XCNT-k);
-   lp1= (state->poly)[--k];
-   sp= (state->bilion)[k];
-   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
-  }
-  if (i!=0){
-
-    /* Original code:
-
-       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
-
-       lseek (out,(long) 0,2);
-       write (out,nbuf,strlen(nbuf));
-       write (out,"\n",1); */
-
-    /* write out polynomial for knot just completed */
-
-    /* These lines would copy the first line of the crossing code into
-       the output. We don't need this, so we forget it */
-
-    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
-      strwrite(outpoly," ",1); */
-
-    /*
-    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
-    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
-    */
-
-    if ((state->count)[2]<0) {
-
-      printf("lmpoly: knot became inconsistent.\n");
-      exit(1);
-
-    }
-
-    if ((state->count)[1]!=0) {
-
-      printf("lmpoly: coefficient overflow error.\n");
-      exit(1);
-
-    }
-
-    len=m= -1;
-    while (m++<k || (state->lowx) <= 0){
-        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
-        n= XCNT-m-1;
-        j= n*2;
-        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
-        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
-        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
-            while (i<=j){
-                if (i==n) strwrite (outpoly,"[",1,state);
-                h=0;
-                lngi= (state->poly)[m][i];
-                if (lngi>=cmpval || lngi<= -cmpval){
-                    h= lngi/cmpval;
-                    lngi-= h* cmpval;
-                }
-                h+= (state->bilion)[m][i];
-                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
-                    if (h<0){
-                        lngi-= cmpval;
-                        ++h;
-                    }
-                    else {
-                        lngi+= cmpval;
-                        --h;
-                    }
-                }
-                if (h!=0){
-                    if (lngi<0) lngi= -lngi;
-                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
-                    len= ntc(lngi,(char *)(state->t),state);
-                    if (cmpval==10000) len2= 4-len;
-                    else len2= 9-len;
-                    strwrite (outpoly,"00000000",len2,state);
-                    strwrite (outpoly,(char *)(state->t),len,state);
-                }
-                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
-                if (i++ ==n) strwrite (outpoly,"]",1,state);
-                if (i<=j) strwrite (outpoly," ",1,state);
-            }
-            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
-            strwrite (outpoly,"N",1,state);
-        }
-        ++(state->lowx);
-    }
-  }
-  strwrite (outpoly," ",1,state);
-  /* close(out); */ /* We are done writing the polynomial, so return */
-  free(state);
-  return outpoly;
- }
- i= XCNT;
- while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
- c=s;
- *nbuf=0;                   /* Erase the nbuf string? */
- if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
-  /* Copy first line of 's' into nbuf */
-  p= nbuf;
-  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
-  *p= 0;
-  /* if (*c != EOFCHR && stats>0){ */
-/*    lseek (stats,(long) 0,0); */
-/*    write (stats,nbuf,strlen(nbuf)); */
-/*    write (stats,"\n",1); */
-/*   } */
- }
- if (*c=='\n') ++c;
- p= *(state->crsbuf);
- while (*c!='\n' && *c!=EOFCHR){
-  if ((state->numcrs)==maxcrs){
-    //write (1,"too many crossings in knot\n",27);
-    printf("lmpoly: too many crossings in knot\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  while (*c>='0' && *c<='9') ++c;
-  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
-  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
-  else if (*c==EOFCHR) --c;
-  else {
-    //write (1,"the format of this knot is unreadable, skipping file\n",53);
-    //close (in);
-    //goto NEWFIL;
-    printf("lmpoly: Could not parse input string.\n");
-    free(outpoly);
-    free(state);
-    return NULL;
-  }
-  ++c;
-  j=4;
-  while (j--!= (i=0) && *c!=EOFCHR){
-   while (*c>='0' && *c<='9'){
-    i*=10;
-    i+= *(c++)-0x30;
-   }
-   if (i==0){
-     //write (1,"the format of this knot is unreadable, skipping file\n",53);
-     //close (in);
-     //goto NEWFIL;
-     printf("lmpoly: Could not parse input string.\n");
-     free(outpoly);
-     free(state);
-     return NULL;
-   }
-   *(p++)= i-1;
-   if (*c!=EOFCHR){
-    if (*c<'a' || *c>'d'){
-      //write (1,"the format of this knot is unreadable, skipping file\n",53);
-      //close (in);
-      //goto NEWFIL;
-      printf("lmpoly: Could not parse input string.\n");
-      free(outpoly);
-      free(state);
-      return NULL;
-    }
-    *(p++)= (*(c++)-'a')*2;
-   }
-  }
-  ++(state->numcrs);
-  if (*c=='\n') ++c;
- }
- if (*c==EOFCHR){
-  c=(state->cbuf);
-  len=10240;
-  while (*s!=EOFCHR){
-   *(c++)= *(s++);
-   --len;
-  }
-  if (in!=0 && (i=read(in,c,len))!=0){
-   c[i]=EOFCHR;
-   c=(state->cbuf);
-   while (*c=='\n') ++c;
-   s=c;
-   goto NEWNOT;
-  }
-  *c= EOFCHR;
-  if (in!=0){
-   close (in);
-   in=0;
-  }
-  else goto NEWFIL;
-  if ((state->numcrs)<2) goto NEWFIL;
- }
- while (*c=='\n') ++c;
- s=c;
- lp1= *(state->poly);
- sp= *(state->bilion);
- lngi= XCNT*XCNT;
- while (--lngi!=0) *(lp1++)= *(sp++)= 0;
- (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
- if (conchk(state)!=0) exit(0);
- *(state->count)=1;
-STEP1:
- skflag=0;
-RESTRT:
- if ((state->restrt)!=0){
-   /* We don't include the restart functionality for now. */
-
-  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
-/*    write (out,nbuf,82); */
-/*    i= strlen(*argv)-11; */
-/*    if (i<0) i=0; */
-/*    write (out,*argv+i,12); */
-/*    *(state->cbuf)= (state->numcrs); */
-/*    if (ypow<0){ */
-/*     ypow= -ypow; */
-/*     (state->cbuf)[6]=1; */
-/*    } */
-/*    else (state->cbuf)[6]=0; */
-/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
-/*    (state->cbuf)[1]= ypow; */
-/*    (state->cbuf)[2]= xpow; */
-/*    (state->cbuf)[3]= (state->numlps); */
-/*    (state->cbuf)[4]= (state->poslnk); */
-/*    (state->cbuf)[5]= (state->neglnk); */
-/*    write (out,(state->cbuf),7); */
-/*    i= -1; */
-/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
-/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
-/*    p= (un(state->sign)ed char *) &(state->lowx); */
-/*    write (out,p,2); */
-/*    times(&hi); */
-/*    kstrt-= hi.tms_utime; */
-/*    p= (un(state->sign)ed char *) &kstrt; */
-/*    write (out,p,4); */
-/*    p= (unsigned char *) &notbeg; */
-/*    write (out,p,4); */
-/*    write (out,buf, (int) notbeg); */
-/*    write (out,(char *) count,XCNT*4); */
-/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
-/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
-/*    close (out); */
-/*    close (stats); */
-/*    exit(0); */
-/*   } */
-   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
-
-   printf("lmpoly: Warning! This version does not save"
-	  " restart info on quit.\n"
-	  "        Terminating run now.\n\n");
-   exit(0);
-   /*restrt=0; */
- }
-/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
-/* SECOND -- remove monogons (must recheck previous crossings) */
-/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
-/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
-/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
-/* bigon yanker MUST be completely thorough or loops can get lost later */
- *dspair=g= i= (state->numcrs);
- c=p= (state->crsbuf)[i];
- k=2;
- while (i--!=0){  /* loop through all crossings */
-  p-=8;
-  if (*p==i){
-   if (p[4]==i) ++(state->numlps);
-   else mrecon (p+4,p+(state->sign)[i],state);
-   squish (i,state);
-   goto STEP1;
-  }
-  else if (p[4]==i){
-    mrecon (p,p+((state->sign)[i]^4),state);
-    squish (i,state);
-   goto STEP1;
-  }
-   /* this bigon test checks that ka points to some mc, */
-    /* and kd to md, or kb to mb */
-  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
-   if ((j= *p) ==p[2]) k=6;
-   c= (state->crsbuf)[j];
-   if (p[4]==j) ++(state->numlps);
-   if (p[2]==p[6]) ++(state->numlps);
-   mrecon (p+4,c,state);
-   mrecon (p+k,c+k,state);
-   sqush2 (i,j,state);
-   goto STEP1;
-  }
-  (state->bstlst)[i]= 0;
- }
- if ((state->numcrs)<6) g=0;
-/* find very good and ok triples */
- while (g--!= (lngi=0)){
-  c-=8;
-  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
-  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
-  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
-   if ((m= *q) == (n= q[4])) m=n= -1;
-   if ((h= *p) == (k= p[4])) h=k= -1;
-   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
-   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
-   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
-   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
-  }
-  else {
-   h=0;       /* there is a ring through this crossing */
-   if (i!=j){
-    i= *c;   /* on over branch */
-    h=2;
-   }
-   else if (*c==c[4]){
-    ++(state->numlps); /* knot's a distant union with a 2-link */
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    sqush2 (g,i,state);
-    goto STEP1;
-   }
-   j=h;
-   c+=h;
-   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
-   else {
-    if ((state->sign)[g]==2) ++(state->neglnk);
-    else ++(state->poslnk);
-    j= h^2;
-   }
-   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
-   q= c+4;
-   if (*c==i){
-    if ((c[1]&4) ==0) c= p+4;
-    else c=p;
-   }
-   else if (*q==i){
-    if ((q[1]&4) ==0) q= p+4;
-    else q=p;
-   }
-   else mrecon (p,p+4,state);
-   mrecon (c,q,state);
-   sqush2 (g,i,state);
-   goto STEP1;
-  }
-  if (lngi!=0){
-   k= lngi;
-   *dspair=1;
-   if ((k&3)!=0){
-    if ((c[3]&c[7]&2)!=0){
-      triple((short) ((k&2)<<1),g,c,state);
-     goto STEP1;
-    }
-    if (((c[3]^c[7])&2)!=0){
-     if ((c[((k&2)<<1)|1]&2)==0){
-      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
-      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst)+i;
-      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-   if (k>3){
-    if (((c[1]|c[5])&2)==0){
-      triple((short) ((k&4)|2),g,c,state);
-     goto STEP1;
-    }
-    if (((c[1]^c[5])&2)!=0){
-     if ((c[(k&4)|3]&2)!=0){
-      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
-      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
-     }
-     else {
-      n=8;
-      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
-      sp= (state->bstlst) + c[4];
-      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
-      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
-     }
-    }
-    else {
-     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
-     else (state->bstlst)[g]-= 8;
-    }
-   }
-  }
- }
- /* circuit remover */
- j= (state->numcrs)-1;
- if (j<3) j= -1;
- else if (j<11){    /* <12 will blow up */
-  p= *(state->crsbuf)+1;
-  i=(state->numcrs);
-  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
-  if (i< (n=0)) j= -1;
-  else p= (state->crsbuf)[j]+5;   /* remove twists */
-  while (j>=0){
-   n^=4;
-   k= *(p--)^4;
-   if ((k&2) == 0){
-    c= (state->crsbuf)[*p]+k;
-    i= *c;
-    k= c[1]^4;
-    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
-      untwst ((short) *p,i,j,n,state);
-      squish (j,state);
-     goto STEP1;
-    }
-   }
-   if (n==0) --j;
-   p-=3;
-  }
- }
- g= (state->donlnk)[XCNT]= m= 0;
- while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
-  k=g;
-  do {
-   p= (state->crsbuf)[j]+k;
-   j= *p;
-   k= p[1]^4;
-   i= h;
-   p=(state->clist);
-   while (i--!=0 && *(p++) != j);
-   if (i>=0){
-    j= n;              /* circuit crosses itself */
-    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
-   }
-   else {
-    ++(state->tt)[k&2];
-    *p= j;
-    (state->t)[h++]= (k&2)^2;
-   }
-  } while (n!=j);
-  if (k != g) --(state->tt)[k&2];
-  else k= -1;
-  if (*(state->tt)==0 || (state->tt)[2]==0){
-    rmcir(h,j,k,state->t,0,state);
-   goto STEP1;
-  }
-  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
-  if (h==3){
-   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
-   (state->stc)[m++]=g;
-   (state->stc)[m++]=k^4;
-  }
-NXTCIR:
-  if (g==0) g= (state->sign)[j];
-  else {
-   --j;
-   g=0;
-  }
- }
-/* if knot is tiny, store polynomial coefficients and restart a stored knot */
- if ((state->numcrs)<6){
-  lngi= 1;
-  if ((state->numcrs)==0) --(state->numlps);
-  delpow(state);
-  if ((xpow&512)!=0){
-   lngi= -1;
-   xpow&=511;
-  }
-  if ((state->numcrs)==4){
-   c= *(state->crsbuf);
-   p= c+4;
-   if (*p==*c || c[2]==p[2]){
-    g= -3;
-    if (*p==p[2] && *c==c[2]) g= -4;
-   }
-   else {
-    g= 0;  /* 0 is flag for knot */
-    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    if (i!=16) g=2;     /* flag for 2 links   */
-   }
-  }
-  else if ((state->numcrs)==5){
-   n=10;
-   i=j= 0; /* step through knot, if don't get to end, it's a link */
-   do {
-    p= (state->crsbuf)[i]+j;
-    i= *p;
-    j= p[1]^4;
-    --n;
-   } while (i!=0 || j!=0);
-   if (n>0){
-    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
-    g=m= 1;      /* or tref + link */
-    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-    if (k>10 && k<30){
-     if (k>20){
-      while ((state->sign)[i]==6) ++i;
-     }
-     else {
-      while ((state->sign)[i]==2) ++i;
-     }
-     if (k==14 || k==26) goto FOURX;
-     c= (state->crsbuf)[i];
-     p= c+4;
-     if (*p==*c || p[2]==c[2]){
-      if (*p==p[2] && *c==c[2]) g=3;
-      else {
-       h=4;
-       if ((state->sign)[i]==6) m= -1;
-      }
-     }
-     else {
-      g=2;
-      j=0;
-      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
-      k= c[j];
-      if ((state->crsbuf)[k][j]!=i){
-       if ((state->sign)[i]==6) m= -1;
-      }
-      else if ((state->sign)[i]==2) m= -1;
-     }
-    }
-    if (g==1){
-     if (h==0 && (state->sign)[i]==2) m= -1;
-     i=j=k= 5;
-     c= state->t;
-     while (j!=0) c[--j]=0;
-     while (k--!=0){
-      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
-      p= (state->crsbuf)[k]; /* so find all fake bigons */
-      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
-      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
-     }
-     while (--i>=0 && c[i]!=0);
-     if (i>=0){
-FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
-      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
-      (state->numcrs)=4;
-      g= -3;  /* flag for 4 crossing 3 links */
-     }
-     else {
-      p= *(state->crsbuf);
-      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
-     }
-    }
-   }
-   else g= -1; /* it's a knot! */
-  }
-  i= (*(state->sign))/2 -2;
-  k= xpow;
-  n=ypow;
-  p= *(state->crsbuf);
-  if ((state->numcrs)==5){
-   if (g<0){ /* knots */
-    if (i>0){
-     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
-    }
-    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
-    if (g== -1){ /* knot five-two */
-      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
-      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
-      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
-    }
-    else { /* knot five-one */
-     k+=2;
-     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
-     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
-     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
-    }
-   }
-   else { /* links */
-    if (g==1){ /* trefoil + circle */
-     if (h!=0){
-       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
-       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
-       addin(lngi,(short)(n+m),k,-2,-2,state);
-       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
-     }
-     else {
-       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
-       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
-      k+=2;
-      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
-      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
-      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
-     }
-    }
-    else if (g==2){ /* 2 component link five-one */
-      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
-      addin((long)-lngi,(short)(n-m),k,-1,2,state);
-      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
-      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
-    }
-    else { /* trefoil and circle + circle */
-     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
-     m=1;
-     if (i<20){
-      m= -1;
-      i= 40-i;
-     }
-     j= k-2;
-     if (i!=30){
-       addin(lngi,(short)(n-m*4),j,-1,2,state);
-       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
-       addin((long)(5*lngi),n,j,0,0,state);
-       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
-      k+=2;
-      addin(lngi,n,k,-4,-2,state);
-      addin(lngi,(short)(n-m*2),k,0,0,state);
-     }
-     else {
-       addin(lngi,(short)(n-m*8),j,0,0,state);
-       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
-       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
-       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
-      k+=2;
-      addin(lngi,(short)(n-m*4),k,-5,-2,state);
-      addin(lngi,(short)(n-m*2),k,-3,-2,state);
-     }
-    }
-   }
-  }
-  else if ((state->numcrs)==4){
-   if (g==0){ /* knot 4-1 */
-     addin((long)-lngi,(short)(n-2),k,0,0,state);
-     addin((long)-lngi,n,k,-1,2,state);
-     addin((long)-lngi,(short)(n+2),k,0,0,state);
-   }
-   else if (g>0){
-    i=1;
-    if (*(state->crsbuf)[*p]==0){
-     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
-     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
-     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
-     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
-    }
-    else {
-     if (*(state->sign)==2) i= -1;
-     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
-     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
-     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
-    }
-   }
-   else if (g== -3){ /* 3 link */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
-      addin((long)(-2*lngi),n,k,-1,-2,state);
-      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
-      addin(lngi,n,(short)(k+2),0,0,state);
-    }
-    else {
-     j= k-2;
-     addin(lngi,(short)(n-2+i),j,0,0,state);
-     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
-     addin(lngi,(short)(n+2+i),j,0,0,state);
-     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
-    }
-   }
-   else { /* circle + circle  and  circle + circle */
-    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
-    i= 8- j/2;
-    if (i==0){
-      addin(lngi,(short)(n-3),--k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
-      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
-      addin(lngi,(short)(n+3),k,-1,-2,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1),k,0,0,state);
-     addin((long)-lngi,(short)(n+1),k,0,0,state);
-    }
-    else {
-     k-=3;
-     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
-     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
-     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
-     k+=2;
-     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
-     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
-     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
-     k+=2;
-     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
-     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
-    }
-   }
-  }
-  else if ((state->numcrs)==3){
-    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
-    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
-  }
-  else if ((state->numcrs)!=0){
-    addin(lngi,(short)(n-i),--k,-1,2,state);
-    addin(lngi,(short)(n-i*3),k,0,0,state);
-  }
-  else addin(lngi,n,k,0,0,state);
-  if ((state->notbeg)!=0){
-   (state->numcrs)= (state->buf)[(state->notbeg)-1];
-   (state->numlps)= (state->buf)[(state->notbeg)-4];
-   (state->poslnk)= (state->buf)[(state->notbeg)-5];
-   (state->neglnk)= (state->buf)[(state->notbeg)-6];
-   xpow= (state->buf)[(state->notbeg)-3];
-   ypow= (state->buf)[(state->notbeg)-2];
-   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
-   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
-   (state->notbeg)-= 8+ (state->numcrs)*8;
-   i=0;
-   p= *(state->crsbuf);
-   c= (state->buf)+(state->notbeg);
-   while (i!=(state->numcrs)){
-    j=4;
-    while (j--!=0){
-     *(p++)= *(c++);
-     *(p++)= *(c++)&6;
-    }
-    (state->sign)[i++]= (*(c-7))>>4;
-   }
-   if ((state->numcrs)>chksiz){
-    lp1= *(state->poly);
-    sp= *(state->bilion);
-    lngi= XCNT*XCNT;
-    while (lngi--!=0){
-     if (*lp1> cmpval){
-      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
-      *lp1-= cmpval;
-     }
-     else if (*lp1< -cmpval){
-      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
-      *lp1+= cmpval;
-     }
-     ++lp1;
-     ++sp;
-    }
-    /* if (stats>0){ */
-/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
-/*      lngi=0; */
-/*      i= XCNT-1; */
-/*      while (count[i]==0) --i; */
-/*      while (i!=0){ */
-/*       write (stats,t,ntc((long)(i+1),t),state); */
-/*       write (stats,"     ",5); */
-/*       write (stats,t,ntc(count[i],t)+1,state); */
-/*       lngi+= count[i--]; */
-/*      } */
-/*      write (stats,"\ntotal: ",8); */
-/*      write (stats,t,ntc(lngi,t,state)+1); */
-/*      write (stats,"\nbiggest stacked knots:\n",24); */
-/*      i=12; */
-/*      sp= (state->bstlst); */
-/*      while (i--!=0) sp[i]=0; */
-/*      lngi=notbeg-1; */
-/*      while (lngi>0){ */
-/*       k= (state->buf)[lngi]; */
-/*       sp[++i]= k; */
-/*       lngi-= k*8 + 8; */
-/*       if (i==10) i= -1; */
-/*      } */
-/*      k= 0; */
-/*      while (*sp!=0){ */
-/*       j= ntc((long) *(sp++),t,state); */
-/*       k+=j+1; */
-/*       write (stats,t,j); */
-/*       write (stats," ",1); */
-/*      } */
-/*      write (stats,"                                            ",44-k); */
-/*      write (stats,"\n",1); */
-/*     } */
-   }
-  }
-  else (state->numcrs)=0;
- }
- else {
-/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
-  k= (state->numcrs);
-  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
-  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
-  while (k--!=0){ /* it sometimes and remove the twists! */
-   n= (state->bstlst)[k];
-   p-=8;
-   j= *--c;
-   i= *p;
-   g= p[4];
-   if (g==p[j]){   /* good fake bigon behind me */
-    if (p[5]!=j){
-     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
-     mrecon (p+(j^4),c+ (p[j+1]^4),state);
-     mrecon (p,c+ (p[5]^4),state);
-     sqush2 (k,g,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon */
-     g=1;
-     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   j^=4;
-   if (p[j]==i){  /* good fake bigon ahead of me */
-    if (p[1]!=j){
-     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
-     mrecon (p+4,q+ (p[1]^4),state);
-     mrecon (p+ *c,q+ (p[j+1]^4),state);
-     sqush2 (k,i,state);
-     goto STEP1;
-    }
-    if (n>0) n= -4-n;
-    else n+= -8;
-   }
-   else if (p[j^4]==i){  /* bad fake bigon ahead */
-    if (n<0) n-= 8;
-    else if (n<8) n= 8;
-    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
-    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
-   }
-   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
-    if ((p[j+1]&2)!=0){
-     if (n<0) n-=12;
-     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
-    }
-    else { /* 0 branch has fake bigon (1 point) */
-     g=1;
-     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
-     if (n<0) n-=g;
-     else if (n>0) n+=g;
-    }
-   }
-   (state->bstlst)[k]=n;
-  }
-  c= (state->stc);
-  i= -8;
-  if (nopro==(state->numcrs)) m=0;
-  while (m>0){
-   m-=3;
-   n= *(c++);
-   g= *(c++);
-   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
-   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
-   k= p[*(c++)];
-   j= p[g];
-   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
-   else p= (state->crsbuf)[j]+(state->sign)[j];
-   if (*p==k) --i;
-   if (*sp<0) *sp+= i-4;
-   else if (*sp==0) *sp= 4-i;
-   else *sp= i- *sp;
-  }
-  i= nopro= (state->numcrs);
-  k=n= 0;
-  sp= (state->bstlst)+(state->numcrs);
-  while (i--!=0){
-   if (*--sp<n){
-    n= *sp;
-    j=i;
-   }
-   else if (*sp>k){
-    k= *sp;
-    m=i;
-   }
-  }
-  if (n==0){
-   if (k==0){
-    j= dspair[2];
-    nopro=0;
-   }
-   else j=m;
-  }
-  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
-  ypow += bust(j,xpow,ypow,state);
-  xpow^=512;
-  ++(state->count)[(state->numcrs)-1];
- }
- // This point must be reached fairly often, so we're going to put in the timeout code here.
- end = clock();
- cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
- if (timeout > 0 && cpu_time_used > timeout) {
-   free(outpoly);
-   free(state);
-   return NULL;
- }
- if ((state->numcrs)!=0) goto STEP1;
- goto NEWNOT;
-}
-
-void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
-/* short top, vnum, vbrnch;
-   unsigned char *ovundr;
-   int flag; */
-{
- register short i, j, k, h, m, n;
- register unsigned char *s, *c, *p;
- register long *lp1, *lp2;
- short g;
- if ((m=vbrnch) >=0){
-  i= vnum;
-  s= (state->crsbuf)[i];
-  k= s[m];
-  g= s[m|1];
-  if (m!=0) c= s+4;
-  else c= s+((state->sign)[i]^4);
-  p= (state->crsbuf)[k]+g;
-  h= *p= *c;
-  n= p[1]= c[1];
-  p= (state->crsbuf)[h]+n;
-  *p= k;
-  p[1]= g;
-  s[6]= s[4]= s[2]= *s= i;
- }
- else ++(state->numlps);
- s= (state->clist);
- j= -1;
- while (top-1 > (i=k= ++j)){
-  while (++i<top){
-   if (s[i] < s[k]) k=i;
-  }
-  if (k!=j){    /* order crossings in (state->clist) */
-   i= s[j];
-   s[j]= s[k];
-   s[k]=i;
-   m= ovundr[j];
-   ovundr[j]= ovundr[k];
-   ovundr[k]= m;
-  }
- }
-      /* relink */
- m= top;
- while (m--!=0){
-  i= s[m];
-  g= ovundr[m];
-  k= (state->crsbuf)[i][g];
-  j= (state->crsbuf)[i][g|1];
-  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
-  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
-  (state->crsbuf)[h][n]= k;
-  (state->crsbuf)[h][n|1]= j;
- }
- if (flag!=0) return;
-      /* squish crossings out of the list */
- i= *s;
- lp1= (long *) (state->crsbuf)[i];
- lp2=lp1+(state->suplng);
- p= (state->sign)+i;
- c=p+1;
- j= 0;
- k=1;
- while (++i!=(state->numcrs)){
-  if (s[k]== i){
-   lp2+= (state->suplng);
-   ++c;
-   if (++k==top) k=0;
-  }
-  else {
-   *(lp1++)= *(lp2++);
-   if ((state->suplng)==2) *(lp1++)= *(lp2++);
-   *(p++)= *(c++);
-  }
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->numcrs)-= top;
- k= (state->numcrs);
- c= (state->crsbuf)[k];
- while (k--!=0){
-  j=5;
-  while (--j!=0){
-   c-=2;
-   i=top;
-   s= (state->clist)+i;
-   while (i--!=0){
-    if (*c> *--s) --*c;
-   }
-  }
- }
- return;
-}
-
-int ntc(long i,char *buf,lmpoly_state_t *state)
-{
- long j;
- int r;
- char *p;
- p=buf;
- r=0;
- if (i<0){
-  i= -i;
-  r=1;
-  *(p++)= '-';
- }
- if (i>999999999) j=1000000000;
- else if (i>99999999) j=100000000;
- else if (i>9999999) j=10000000;
- else if (i>999999) j=1000000;
- else if (i>99999) j=100000;
- else if (i>9999) j=10000;
- else if (i>999) j=1000;
- else if (i>99) j=100;
- else if (i>9) j=10;
- else j=1;
- while (j!=0){
-  ++r;
-  *(p++)= (i/j)%10+0x30;
-  j/=10;
- }
- *p='\n';
- return (r);
-}
-
-void delpow(lmpoly_state_t *state)
-{
- register long *lp1, *lp2, *lsp, *osp;
- register short i, j, k, m, s, mpos;
- short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
- lp1=(state->b);
- if ((state->numlps)<4){
-  if ((state->numlps)==1){
-   *(lp1++)= -1;
-   *lp1= -1;
-  }
-  else if ((state->numlps)==3){
-   *(lp1++)= -1;
-   *(lp1++)= -3;
-   *(lp1++)= -3;
-   *lp1= -1;
-  }
-  else {
-   *(lp1++)= 1;
-   *(lp1++)= 2;
-   *lp1= 1;
-  }
- }
- else {
-  *lp1= 1;
-  (state->b)[1]= 4;
-  (state->b)[2]= 6;
-  k= (state->b)[3]= 4;
-  (state->b)[4]= 1;
-  while (k++!=(state->numlps)){
-   j=k;
-   (state->b)[j]=1;
-   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
-  }
-  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
- }
- *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
- osp= (state->b)+ (state->numlps)+1;
- if ((state->poslnk)>(state->neglnk)){
-  order[1]= (state->poslnk);
-  *order= (state->neglnk);
- }
- else {
-  order[1]= (state->neglnk);
-  *order= (state->poslnk);
-  mpos=2;
- }
- z=2;
- while (z--!=0){
-  numlnk=order[z];
-  mpos^=2;
-  while (numlnk--!=0){
-   m= ++mpow;
-   s=j=k= (state->numlps)+1;
-   u= *pstlen;
-   v= pstlen[1];
-   ++prslen[z];
-   *pstlen= x= *prslen;
-   pstlen[1]= y= prslen[1];
-   lp2= osp;
-   lp1= lp2+ j+ m;
-   if (z==0) lp1+= order[1];
-   osp= lp1;
-   while (j--!=0) *--lp1=0;
-   while (m--!=0){
-    i=j= s;
-    lsp= lp1;
-    if (mpos== (z|2) && y>0) *--lsp=0;
-    if (mpos!=0) lp1+=k;
-    else lp1+=i;
-    while (j--!=0) *--lp1-= *--lp2;
-    lp2+=i;
-    lp1= lsp;
-    *--lp1=0;
-    while (i--!=0) *--lp1= *--lp2;
-    lp1= lsp;
-    lsp= lp2;
-    lp2= lp1-1;
-    j=s;
-    while (j--!=0) *--lp1+= *--lp2;
-    --lp1;
-    if (x-->0) ++k;
-    if (y-->0){
-     ++k;
-     if (mpos==z) *--lp1=0;
-    }
-    if (u-->0) ++s;
-    if (v-->0) ++s;
-    lp2=lsp;
-   }
-  }
- }
-}
-
-void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
-/*short ypow, xpow;
-long kcoeff;
-int mult, reach;*/
-{
-  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
-  register short i, j, k, numlnk, loops;
-  i= (state->poslnk);
-  k= (state->neglnk);
-  numlnk= i+k;
-  loops= (state->numlps)+ numlnk;
-  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
-  xpow-=(state->lowx)+loops;
-  p=(state->b);
-  while (numlnk-->=0){
-    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
-    lp1= (state->poly)[xpow]+ ypow;
-    j= loops;
-    while (j-->=0){
-      addon= kcoeff* *(p++);
-      *lp1+= addon;
-      lp1+=2;
-      if (reach!=0){
-	*lp2+= mult*addon;
-	lp2+=2;
-      }
-    }
-    if (--i<0) --loops;
-    if (--k<0) --loops;
-    else ypow-=2;
-    xpow+=2;
-  }
-}
-
-void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
-/* short l, n, i, ex; */
-{
- register unsigned char *pl, *pn;
- register short g, h, m, k, d, e;
- short j;
- j= (state->sign)[i]; /* flip 3 crossing circuits */
- k= j^ex;
- ex^=4;
- m= j^ex;
- if ((state->sign)[l]-ex==2){
-  g= j^2;
-  h= g^4;
-  j= 6;
- }
- else {
-  h= j^2;
-  g= h^4;
-  j= 2;
- }
- pl= (state->crsbuf)[l];
- pn= (state->crsbuf)[n];
- d= pl[m];
- e= pl[m|1];
- pl[m]= pn[g];
- pl[m|1]= pn[g|1];
- if (d!=n){
-  pn[g]= d;
-  pn[g|1]= e;
- }
- else {
-  pn[g]= l;
-  pn[g|1]= k;
- }
- (state->crsbuf)[pl[m]][pl[m|1]]= l;
- (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
- d= pn[h];
- e= pn[h|1];
- pn[h]= pl[k];
- pn[h|1]= m= pl[k|1];
- if (d!=l){
-  pl[k]= d;
-  pl[k|1]= e;
- }
- else {
-  pl[k]= n;
-  pl[k|1]= g;
- }
- (state->crsbuf)[pn[h]][m]= n;
- (state->crsbuf)[pn[h]][m|1]= h;
- h= pn[g|1];
- (state->crsbuf)[pn[g]][h]= n;
- (state->crsbuf)[pn[g]][h|1]= g;
- d= pl[k];
- e= pl[k|1];
- (state->crsbuf)[d][e]= l;
- (state->crsbuf)[d][e|1]= k;
- pl[ex]= g= (state->crsbuf)[i][ex];
- pl[ex|1]= h= (state->crsbuf)[i][ex|1];
- (state->crsbuf)[g][h]= l;
- (state->crsbuf)[g][h|1]= ex;
- pn[j]= g= (state->crsbuf)[i][k];
- pn[j|1]= h= (state->crsbuf)[i][k|1];
- (state->crsbuf)[g][h]= n;
- (state->crsbuf)[g][h|1]= j;
-}
-
-int conchk(lmpoly_state_t *state)
-{
- register short i, j;
- int vnum, vbrnch, top;
- char str[20], local_cbuf[XCNT*2+1];
- vnum=vbrnch= 0;
- (state->lowx)= 1;
- i=top= (state->numcrs)*2;
- while (i>=0) local_cbuf[i--]=0;
- i=0;
- while (i!=top){
-  --(state->lowx);
-  while (local_cbuf[i]==0){
-   local_cbuf[i]=1;
-   i=vnum;
-   j=vbrnch;
-   vnum= (state->crsbuf)[i][j];
-   vbrnch= (state->crsbuf)[i][j|1];
-   if (vnum>=(state->numcrs)){
-    write (1,"error at crossing #",19);
-    write (1,str,ntc((long)(i+1),str,state));
-    write (1,", knot can't have a crossing #",30);
-    write (1,str,ntc((long)(vnum+1),str,state)+1);
-    return (1);
-   }
-   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
-    write (1,"the possible connection from branch ",36);
-    write (1,str,ntc((long)(i+1),str,state));
-    *str= 'a'+(j>>1);
-    write (1,str,1);
-    write (1," to branch ",11);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    *str= 'a'+(vbrnch>>1);
-    write (1,str,1);
-    write (1," is inconsistent\n",17);
-    return (1);
-   }
-   if (vbrnch==0){
-    write (1,"a-c part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   else if (vbrnch== ((state->sign)[vnum] & 6)){
-    write (1,"b-d part of crossing #",22);
-    write (1,str,ntc((long)(vnum+1),str,state));
-    write (1," is oriented backwards\n",23);
-    write (1,"with respect to crossing #",26);
-    write (1,str,ntc((long)(i+1),str,state)+1);
-    return (1);
-   }
-   i= (vnum<<1) + ((vbrnch>>1)&1);
-   vbrnch^=4;
-  }
-  i=0;
-  while (local_cbuf[i]!=0) ++i;
-  vnum= i/2;
-  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
-  else vbrnch=0;
- }
- return(0);
-}
-
-void mypause(int sig)
-{
-  //(state->restrt)=1;
- //signal(SIGTERM,pause);  /* pause is now a system function */
- signal(sig,mypause);
-}
-
-int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
-/* short tobust, xpow, ypow; */
-{
- register unsigned char *fastp, *c;
- register long *lp1, *lp2;
- register short i, j, m, k, l, n, *sp;
- unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
- int dir;
- //long lngi;
- bstcrs= (state->crsbuf)[tobust];
- fastp=(state->sign);
- c=tsign;
- lp2= (long *) *(state->crsbuf);
- lp1= (long *) ((state->buf)+(state->notbeg));
- j=0;
- while (j!=(state->numcrs)){
-  if (j==tobust) ++fastp;
-  *(c++)= *(fastp++);
-  inbuf[j++]= (unsigned char *) lp1;
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
- fastp= bstcrs;
- l= (state->sign)[tobust]/2;
- dir= 2-l;
- m= fastp[7-l];
- n= fastp[8-l];
- j= fastp[3*l-3];
- k= fastp[3*l-2];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- m= fastp[5-l];
- n= fastp[6-l];
- j= fastp[3-l];
- k= fastp[4-l];
- inbuf[j][k]= m;
- inbuf[j][k|1]= n;
- inbuf[m][n]= j;
- inbuf[m][n|1]= k;
- k= (state->numcrs)-1;
-     /* squish crossing out of the list (tsign has already been squished) */
- i= k-tobust;
- lp1= (long *) inbuf[tobust];
- lp2=lp1+(state->suplng);
- while (i--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
- }
-     /* renumber branch pointers (subtract 1 if the crossing was after) */
- (state->notbeg)+= (state->numcrs)*8;
- fastp= *inbuf;
- while (++i!=k){
-  fastp[1]|= tsign[i]<<4;
-  j=5;
-  while (--j!=0){
-   if (*fastp>=tobust) --*fastp;
-   fastp+=2;
-  }
- }
- fastp= (state->buf)+(state->notbeg)-7;
- *fastp= *(fastp-1)=0;
- if (ypow+dir<0){
-  *fastp=1;
-  (state->buf)[(state->notbeg)-2]= -ypow-dir;
- }
- else (state->buf)[(state->notbeg)-2]= ypow+dir;
- if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
- *++fastp= (state->neglnk);
- *++fastp= (state->poslnk);
- *++fastp= (state->numlps);
- *++fastp= xpow+1;
- (state->buf)[(state->notbeg)-1]= i;
- fastp= bstcrs;
- sp= (short *) fastp;
- j= *sp;
- *sp= sp[l];
- sp[l]= sp[2];
- sp[2]= sp[l^2];
- sp[l^2]= j;
- (state->sign)[tobust]^=4;
- (state->crsbuf)[*fastp][fastp[1]|1]=0;
- (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
- (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
- (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
- return (dir*2);
-}
-
-void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
-/*unsigned char *c, *p;*/
-{
- register short j, k, m, n;
- register unsigned char *ccb;
- k= *c;
- j= c[1];
- ccb= (state->crsbuf)[k]+j;
- n= *ccb= *p;
- m= ccb[1]= p[1];
- ccb= (state->crsbuf)[n]+m;
- *ccb= k;
- ccb[1]= j;
-}
-
-void squish(short sqush,lmpoly_state_t *state)
-/* short sqush; */
-{
- register short i, j, tosqsh;
- register unsigned char *p, *c;
- register long *lp1, *lp2;
-       /* squish crossing out of the list */
- tosqsh= sqush;
- j= --(state->numcrs)-tosqsh;
- lp1= (long *) (state->crsbuf)[tosqsh];
- lp2=lp1+(state->suplng);
- p= (state->sign)+tosqsh;
- c=p+1;
- while (j--!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- i= (state->numcrs);
- p= (state->crsbuf)[i];
- while (i--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=tosqsh) --*p;
-  }
- }
-}
-
-void sqush2(short n,short g,lmpoly_state_t *state)
-/* short n, g; */
-{
- long *lp1, *lp2;
- register unsigned char *p, *c;
- register short m, i, j;
-     /* squish crossings out of the list */
- i= n;
- m= g;
- if (m>i){
-  j=m;
-  m=i;
-  i=j;
- }
- lp1= (long *) (state->crsbuf)[m];
- lp2=lp1+(state->suplng);
- p=(state->sign)+m;
- c=p+1;
- j= i-m;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
- lp2+=(state->suplng);
- ++c;
- j= (state->numcrs)-i;
- (state->numcrs)-=2;
- while (--j!=0){
-  if ((state->suplng)==2) *(lp1++)= *(lp2++);
-  *(lp1++)= *(lp2++);
-  *(p++)= *(c++);
- }
-    /* renumber branch pointers (subtract 1 if the crossing was after) */
- p= (state->crsbuf)[(state->numcrs)];
- n= (state->numcrs);
- while (n--!=0){
-  j=5;
-  while (--j!=0){
-   p-=2;
-   if (*p>=i) --*p;
-   if (*p>=m) --*p;
-  }
- }
-}
-
-void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
-/*short m, i;
-  unsigned char *p; */
-{
- register unsigned char *crsi, *crsk;
- register short j, d, e, n, h, k;
- crsi= p;
- n= m^4;
- k= crsi[m];
- crsk= (state->crsbuf)[k];
- j= crsi[m|1];
- d= crsk[j]= crsi[n];
- e= crsk[j|1]= crsi[n|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- d= crsi[m]= crsk[j];
- e= crsi[m|1]= crsk[j|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= m;
- crsi[n]= k;
- crsi[n|1]= j;
- crsk[j]= i;
- crsk[j|1]= n;
- j^=2;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- n= crsk[j];
- h= crsk[j|1]^4;
- d= crsk[j]= (state->crsbuf)[n][h];
- e= crsk[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= k;
- (state->crsbuf)[d][e|1]= j;
- j=m^2;
- n= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[n][h];
- e= crsi[j|1]= (state->crsbuf)[n][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- j^=4;
- m= crsi[j];
- h= crsi[j|1]^4;
- d= crsi[j]= (state->crsbuf)[m][h];
- e= crsi[j|1]= (state->crsbuf)[m][h|1];
- (state->crsbuf)[d][e]= i;
- (state->crsbuf)[d][e|1]= j;
- sqush2(n,m,state);
-}
-
-int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
-/* short h, *bstlst, *dspair, *skflag; */
-{
- register short d, g, i, j, m, length, *q, *sp;
- register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
- short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
- sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
- lngsum= n= 0;
- if (*(state->tt) > (state->tt)[2]) n=2;
- else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
- vp= (state->clist);
- vertex=h;
- while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
- i= h-1;
- if ((h&1)!=(length=0)) vertex= (state->clist)[i];
- else {
-  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
-   d= (state->numcrs);             /* re-set it all to 0 */
-   while (d-->0) (state->donlnk)[d]= 0;
-   (state->donlnk)[XCNT]=1;
-  }
-  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
- }
- m=j= h/2;
- *sp= -1;
- p=state->t;
- while (j-->length){
-  i=2;
-  while (*q==1024){
-   ++q;
-   ++p;
-  }
-  d= *q;
-  if (*(p++)==0) i+= (state->sign)[d];
-  g= (state->crsbuf)[d][i&6];
-  sp= ++q;
-  while (*sp>=0 && *sp!=g) ++sp;
-  if (*sp<0) j= -10;
-  else if (*sp==vertex) length= -1;
-  else *sp= 1024;
- }
- if (j== -11){
-  d=h;
-  sp=q= (state->tt);
-  vp= (state->clist);
-  while (d-->0) *(sp++)= *(vp++);
-  length=0;
-  p=state->t;
-  while (m-->length){
-   i=6;
-   while (*q==1024){
-    ++q;
-    ++p;
-   }
-   d= *q;
-   if (*(p++)==0) i+= (state->sign)[d];
-   g= (state->crsbuf)[d][i&6];
-   sp= ++q;
-   while (*sp>=0 && *sp!=g) ++sp;
-   if (*sp<0) m= -10;
-   else if (*sp==vertex) length= -1;
-   else *sp= 1024;
-  }
-  j-=m;
- }
- if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
-  tp=p= state->t;
-  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
-  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
-  --p;                        /* of good crossings in a link from */
-  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
-  i=m= h-d;
-  while (m-->0){
-   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
-   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
-  }                         /* a different beginning crossing */
-  m=d;
-  vp= (state->clist);
-  while (m-->0){
-   (state->donlnk)[*vp]|= *tp+2;
-   *(sp++)= *vp;
-   *(vp++)= *(tp++);
-  }
-  p=state->t;
-  while (i-->0) *(p++)= *(tp++);
-  vp= (state->clist);
-  while (d-->0) *(p++)= *(vp++);
-  d=m= 0;
- }
- else {
-  sp= (state->tt);
-  vp= (state->clist);
-  i= h;
-  while (i-->0) *(sp++)= *(vp++);
- }
- p=state->t;
- g= h|1;         /* find the longest good string & put in "length" */
- (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
- (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
- while (++i<g){
-  if ((n^*(p++)) ==0) ++d;
-  else {
-   if (d>=length){
-    length=d;
-    k= i-d;
-   }
-   if (m+d>=lngsum){
-    lngsum= m+d+1;
-    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
-    else tp= p-2;
-    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
-    else badcrs= (state->tt)[i];
-   }
-   m=d;
-   d=0;
-  }
- }
- i= h/2;
- if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
-   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
-   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
- }
- if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
-  if (vertex>= (i1=0) && length==i){
-   m= k+i;
-   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
-   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
-   while (m>=k){           /* looping, allows me to skinny once per bust!   */
-    vp= (state->crsbuf)[(state->tt)[m]];
-    if ((state->t)[m]!=0) j=2;
-    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
-    else j=0;
-    m-=i;
-    if (k==0) d= (state->tt)[h-1];
-    else d=(state->tt)[k-1];
-   }
-  }
-  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
-  if (*skflag==0){
-   *skflag=1;
-   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
-  }
- }
- if (lngsum>=i){
-  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
-  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
-  if (j==0) ++d;    /* give one point for doing a skinny */
-  if (vertex>=0){
-   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
-   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
-   else if (lngsum+1==h) d+=4;
-  }
-  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
-  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
-  if ((k=lngpos-lngsum) > (m=0) && d!=0){ /* k<0 if a 2-crossing link was counted as h long */
-   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
-   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
-   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
-  }
-  if (lngpos+1 != g && d!=0){
-   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
-   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
-   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
-  }
-  if (d<6 && j==0){    /* min. one point for making skinny circuits */
-   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
-  }
-  else {
-   *dspair=1;
-   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
-   if (bstlst[badcrs]<0){
-    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
-   }
-   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
-  }
- }
- else {
-  k= h/4;
-  if (*dspair<k) k= *dspair;
-  m=1;
-  while (m++<k){
-   tp=state->t;
-   *(state->gapsto)=j= 0;
-   d= m+1;
-   while (--d>0){
-    while ((*(tp++)^n) ==0) ++j;
-    (state->gapsto)[d]= j++;
-   }
-   while (j<g){
-    while ((*(tp++)^n) ==0) ++j;
-    length= (j-(state->gapsto)[d]-i)*4 +2;
-    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
-     if (m<*dspair || length>dspair[1]) dspair[3]=0;
-     *dspair=m;
-     dspair[1]= length;
-     length=lngpos= 0;
-     if (d!=m) lngpos= d+1;
-     j1= j;
-     j2= (state->gapsto)[lngpos];
-     h=m;
-     while (h-->0){
-      if (++lngpos>m) lngpos=0;
-      vertex= (state->tt)[j2];
-      j3= (state->gapsto)[lngpos];
-      lngsum= j1-j3;
-      p= (state->crsbuf)[vertex];
-      i1= (state->sign)[vertex];
-      i2= p[i1];
-      i3= p[i1|1];
-      i1^=4;
-      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
-	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
-	/* According to wikipedia, the & should come first, so this is */
-	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
-       else lngsum= -10 -lngsum;
-      }
-      i2= p[i1];
-      i3= p[i1|1];
-      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
-	if ((p[1]^(i3&2)) !=0){  // The same is true here
-        if (lngsum<0) lngsum-=5;
-        else lngsum= -1 -lngsum;
-       }
-       else if (lngsum<0) lngsum-= 10;
-       else lngsum= -10 -lngsum;
-      }
-      if (lngsum<0){
-       if (length>lngsum){
-        length= lngsum;
-        badcrs= vertex;
-       }
-      }
-      else if (length>=0 && length<lngsum){
-       length= lngsum;
-       badcrs= vertex;
-      }
-      j1=j2;
-      j2=j3;
-     }
-     i1= dspair[3];
-     if (length<0){
-      if (i1>length){
-       dspair[2]= badcrs;
-       dspair[3]= length;
-      }
-     }
-     else if (i1>=0 && i1<length){
-      dspair[2]= badcrs;
-      dspair[3]= length;
-     }
-     k=0;
-    }
-    (state->gapsto)[d--]= j++;
-    if (d<0) d=m;
-   }
-  }
- }
- return(0);
-}
-
-int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
-/* short lencir, lngpos;
-   int twist; */
-{
- register short a, b, g, n, vnum, dir, *c;
- register unsigned char *p, *q, *cp;
- short i, j, k, m, last, f, v2; //*sp;
- vnum= -1;     /* assume circuit is a link */
- dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
- if ((lencir&1)!= (b=0)){
-  vnum= (state->tt)[lencir-1];                /* if not a link */
-  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
-    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
- }
- if (vnum>=0){
-  g=vnum;      /* SET DIR PROPERLY!! */
-  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
-   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
-   g= *p;
-   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
-   a=lencir;
-   c= (state->tt);
-   while (a>0 && *(c++)!=g) --a;
-   if (a>0){
-    if (*--c!=vnum){
-     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
-     else dir=b;
-    }
-    else {
-     g= *(state->tt);     /* no -- I ran back into the vertex again */
-     b=6;              /* trace the first left region of the circuit */
-     if (*(state->t)==0) b=(state->sign)[g]-2;
-     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
-     while (g!=vnum && g!=n){
-      p= (state->crsbuf)[g]+b;
-      g= *p;
-      b= (*(p+1)+2)&6;
-     }
-     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
-    }
-    b= -1;
-   }
-  }
-  if (twist!=0) dir^=4;
- }
- a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
- p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
- c= (state->tt)+lngpos;
- while (a-->0) *(p++)= *(c++);
- --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
- rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
- i=k= lngpos+j;
- if (vnum>=0){
-  --lencir;
-  if (lngpos==0 && twist==0) twist= -1;
- }
- else if (i==lencir) i=0;
- if (twist> (m=b= 0) && lngpos!=0){
-  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
-  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
-  f= (state->crsbuf)[vnum][b|1];
- }
- else {
-  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
-  f= 4;
-  if ((state->t)[i]==0) f= (state->sign)[last]^4;
- }
- if ((state->t)[--k]==0) m=4;
- while (j-->0){
-  if (i==lencir) i=0;
-  g=dir;
-  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
-  b= (state->sign)[vnum];
-  if ((state->t)[i++]==0) g+=b;
-  else b^=4;
-  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
-  *(p++)= n= (state->tt)[k--];  /* present n */
-  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
-  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
-  if (m==0){
-   a=0;
-   b=dir;
-  }
-  else b^=dir;
-  *p=a;
-  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
-  q[a+1]=f;
-  f= a^4;
-  g&=6;
-  cp= (state->crsbuf)[vnum]+g;
-  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
-  *(cp++)= last= n;
-  a= *cp;    /* reconnect vnum to n instead (insert n) */
-  *cp=b;
-  p= q+b;
-  *(p++)= vnum;   /* mutual from n to vnum */
-  *p=g;
-  b^=4;
-  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
-  *(p++)= n;
-  *p=b;
-  p= q+b;     /* mutual connect from n */
-  *(p++)= v2;
-  *p=a;
- }
- if (twist!=0){       /* reconnect the loose end properly */
-  vnum=(state->tt)[lencir];
-  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
-  if (twist>0){
-   p= (state->crsbuf)[vnum];
-   if (lngpos==0){
-    n= p[b^4];
-    b= p[b^5];
-    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
-   }
-   else {
-    n= (state->tt)[--i];
-    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
-   }
-   a= p[dir];
-   g= p[dir|1];
-   k= p[dir^5];
-   dir= p[dir^4];
-   (state->crsbuf)[a][g]= dir;
-   (state->crsbuf)[a][g|1]=k;
-   (state->crsbuf)[dir][k]=a;
-   (state->crsbuf)[dir][k|1]=g;
-  }
-  else twist=0;
- }
- else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
- if (twist==0) n= (state->tt)[i];
- (state->crsbuf)[last][f]= n;
- (state->crsbuf)[last][f|1]= b;
- (state->crsbuf)[n][b]= last;
- (state->crsbuf)[n][b|1]= f;
- if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
- return(1);
-}
+/*          FAST VERSION       */
+/* A load balanced calculation of the oriented polynomial  Ver 1.1f */
+/* Bruce Ewing and Kenneth C. Millett  (author: Ewing)    Feb 5, 01 */
+/* Department of Mathematics */
+/* University of California */
+/* Santa Barbara, CA 93106 */
+/* there is a hard limit of 255 crossings in this program */
+
+#include <config.h>
+
+#ifdef HAVE_SIGNAL_H
+#include <signal.h>
+#endif
+
+#ifdef HAVE_SYS_TYPES_H
+#include <sys/types.h>
+#endif
+
+#ifdef HAVE_SYS_TIMES_H
+#include <sys/times.h>
+#endif
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#ifdef HAVE_UNISTD_H
+#include <unistd.h>
+#endif
+
+#ifdef HAVE_FCNTL_H
+#include <fcntl.h>
+#endif
+
+#include <string.h>
+#include <time.h>
+#include <assert.h>
+
+  /* values the USER needs to define!! */
+#define XCNT       250     /* maximum crossings in knot (at most 255) */
+#define XCNTSQ   62500     /* YOU MUST CALCULATE XCNT SQUARED! */
+#define XCSQTR  187500     /* YOU MUST CALCULATE XCNTSQ times THREE! */
+
+
+/* system values -- it's best if these are not touched */
+#define EOFCHR       0     /* integer value of my "end of file" character */
+#define MAXBIL   32767     /* positive value where overflow warning triggers */
+
+#define MAXPOLY  12000     /* Maximum # of characters for output poly */
+
+/* globals */
+
+typedef struct state_struct {
+
+  int readpos;
+  int writepos;
+
+  long plybuf[XCNTSQ], *poly[XCNT], notbeg, count[XCNT], b[XCNTSQ];
+  unsigned char sign[XCNT], donlnk[XCNT+1], t[XCNT+2], crsbuf[XCNT+1][8];
+  unsigned char buf[XCSQTR], cbuf[10242], clist[XCNT+2], stc[XCNT*2];
+  short numcrs, numlps, poslnk, neglnk, lowx, restrt, gapsto[65];
+  short tt[XCNT+2], bstlst[XCNT], bilbuf[XCNTSQ], *bilion[XCNT], suplng;
+
+} lmpoly_state_t;
+
+/* Prototypes for later functions */
+
+void mypause(int sig);
+int  ntc(long i,char *buf,lmpoly_state_t *state);
+int  conchk(lmpoly_state_t *state);
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state);
+void squish(short sqush,lmpoly_state_t *state);
+void sqush2(short n,short g, lmpoly_state_t *state);
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state);
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state);
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state);
+int  tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state);
+void delpow(lmpoly_state_t *state);
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state);
+int  bust(short tobust,short xpow,short ypow,lmpoly_state_t *state);
+int  skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state);
+
+int strread(char *str,void *buffer,size_t size,lmpoly_state_t *state)
+
+/* Reads up to size characters from string, copying the results to buffer. */
+/* We keep a (global) count of our position in the string internally.      */
+/* Return the number of characters read, or 0 at the end of the string.    */
+/* We don't copy the terminating NULL from str. */
+
+{
+  int ctried,cread;
+
+  for(ctried=0,cread=0;ctried < size;ctried++) {
+
+    if (str[(state->readpos)] != 0) {
+
+      ((char *) buffer)[cread++] = str[(state->readpos)++];
+
+    }
+
+  }
+
+  return cread;
+}
+
+int strwrite(char *str,char *buffer,size_t size,lmpoly_state_t *state)
+
+/*   Writes size characters from buffer to str. Returns the number of  */
+/*   characters written. We keep a static counter of where we are in   */
+/*   the string. */
+
+{
+  int ctried,cwrote;
+
+  for(ctried=0,cwrote=0;ctried < size;ctried++) {
+
+    str[(state->writepos)++] = buffer[cwrote++];
+
+    if ((state->writepos) > MAXPOLY-1) {
+
+      printf("lmpoly: Output polynomial larger than %d characters.\n",
+	     MAXPOLY);
+
+      exit(1);
+
+    }
+
+  }
+
+  return cwrote;
+}
+
+
+char *plc_lmpoly(char *code, int timeout)
+/* This version takes a timeout in seconds. Returns NULL pointer if the computation takes too long. */
+{
+ register short i, j, k, h, m, n, *sp;
+ register unsigned char *p, *c;
+ int in = 0, out, stats, len, len2, pause();
+ long lngi, *lp1, *lp2, kstrt, cmpval;
+ short g, xpow, ypow, dspair[4], maxcrs, chksiz, nopro, skflag;
+ unsigned char nbuf[82], *q, *s;
+ //struct tms hi;
+ char *outpoly;
+
+ clock_t start,end;
+ double  cpu_time_used;
+
+ lmpoly_state_t *state = calloc(1,sizeof(lmpoly_state_t));
+ assert(state != NULL);
+
+ start = clock();
+
+ if (code == NULL) { free(state); return NULL; }
+
+ /* It's possible that we'll be fed a code with only one crossing */
+ /* This will crash the rest of the code, so we insert some stuff here */
+ /* to catch this case and return [[0]]N for the unknot. --JHC */
+
+ int newlinecount = 0;
+ char *codeptr;
+ for(codeptr = code;codeptr != NULL;) {
+
+   codeptr = strchr(codeptr,'\n');
+   if (codeptr != NULL) {
+     newlinecount++;
+     codeptr++;
+   }
+
+} /* Count newlines */
+
+ if (newlinecount == 3) { /* Exactly one crossing */
+
+   outpoly = calloc(128,sizeof(char));
+   sprintf(outpoly,"[[1]]N ");
+   free(state);
+   return outpoly;
+
+ }
+
+/* Now back to your regularly scheduled programming. */
+
+ outpoly = calloc(MAXPOLY,sizeof(char)); // Space for a large polynomial
+ (state->readpos) = 0;  // Reset the globals
+ (state->writepos) = 0;
+
+ maxcrs=XCNT;    /* maximum crossings in a knot, including all limits */
+ chksiz= 50;     /* knot size trigger where (state->bilion) is checked, stats printed */
+ *(state->sign)= 255;      /* do 3 tests on the machine to verify trick operation */
+ i= (short) *(state->sign);
+ if (i< (lngi=0)){
+  write (1,"unsigned char problem - can't calculate knot >127 crossings\n",60);
+  if (maxcrs>127) maxcrs=127;
+ }
+ kstrt= 0x01020304;
+ p= (unsigned char *) &kstrt;
+ c= (unsigned char *) &lngi;
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *(c++)= *(p++);
+ *c= *p;
+ if (lngi!= 0x01020304){
+  write (1,"long int pointer copy problem -- halt/restart won't work\n",57);
+ }
+ *nbuf= nbuf[1]= nbuf[2]= nbuf[3]= 0;
+ (state->t)[0]=1;
+ (state->t)[1]=2;
+ (state->t)[2]=3;
+ (state->t)[3]=4;
+ lp1= (long *) (state->t);
+ lp2= (long *) nbuf;
+ *lp2= *lp1;
+ if (*nbuf!=1 || nbuf[1]!=2 || nbuf[2]!=3 || nbuf[3]!=4){
+  write (1,"4 byte copy problem -- use PORTABLE PROGRAM version!\n",53);
+  exit (1);
+ }
+ if (sizeof(lngi)== ((state->suplng)=2)){
+  write(1,"halt/restart won't work, and watch for coefficient overflows\n",61);
+  cmpval= 10000;
+  chksiz= 20;
+ }
+ else cmpval= 1000000000;     /* how big a value fits in a poly memory slot? */
+ if (sizeof(lngi)== 8) (state->suplng)= 1;
+
+ // if (argc<2){
+ // write (1,"usage:  lmpoly -rs knotfile [knotfile ...]\n",43);
+ // exit (1);
+ //}
+
+ /* if ((out=open("lmknot.out",1))== -1){ */
+/*   if ((out=creat("lmknot.out",0644))== -1){ */
+/*    write (1,"fatal: cannot create output file 'lmknot.out'\n",46); */
+/*    exit (1); */
+/*   } */
+/*  } */
+/*  else lseek (out,(long) 0,2); */
+/*  close (out); */
+
+ *(state->count)= (state->restrt)= i= j= kstrt= nopro= 0;
+ stats= -1;
+
+ /* This code appears to detect "restarts" and "stats", neither of which
+    we are currently implementing. */
+
+ /* if (*argv[1]=='-'){
+  if (argc==2 && argv[1][1]=='r'){
+   (state->restrt)=1;
+   if (argv[1][2]=='s') stats= 0;
+  }
+  else if (argv[1][1]=='s'){
+   stats= 0;
+   ++argv;
+   --argc;
+  }
+  } */
+
+
+ signal(SIGTERM,mypause); // Not sure what this does.
+
+ lp1= state->plybuf;
+ sp= (state->bilbuf);
+ while (j<XCNT){
+  (state->poly)[j]= lp1;
+  (state->bilion)[j]= sp;
+  lp1+= 1+ 2* (XCNT- ++j);
+  sp+= 1+ 2* (XCNT-j);
+ }
+NEWFIL:
+
+ /* We comment out some "stats" code, since we won't display stats anyway. */
+
+ /* if (stats>0){     // remove stats info for previous knot file
+  i= strlen(*argv);
+  c= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *c!='/') --c;
+  p=t;
+  while (*++c!=0) *(p++)= *c;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  close (stats);
+  unlink(t);
+  } */
+ /* if (--argc==0) exit(0); */ /* This was the exit point for the program */
+
+ /* We also comment out some "restart" code since we aren't restarting */
+
+ /*if ((state->restrt)!=0){           // if I am restarting an old calculation
+  if ((in=open("lmpoly.(state->restrt)",0))== -1){
+   write (1,"couldn't find restart file\n",27);
+   exit (0);
+  }
+  read (in,nbuf,82);
+  read (in,(state->cbuf),12);
+  *argv= (char *) (state->cbuf);
+  read (in,(state->buf),7);
+  (state->numcrs)= *(state->buf);
+  xpow= (short) (state->buf)[2];
+  ypow= (short) (state->buf)[1];
+  (state->numlps)= (short) (state->buf)[3];
+  (state->poslnk)= (short) (state->buf)[4];
+  (state->neglnk)= (short) (state->buf)[5];
+  if (((state->buf)[6]&1) !=0) ypow= -ypow;
+  if (((state->buf)[6]&2) !=0) xpow|= 512;
+  read (in,*(state->crsbuf),(state->numcrs)*8);
+  i= 0;
+  while (i!=(state->numcrs)){
+   (state->sign)[i]= (state->crsbuf)[i][1]>>4;
+   (state->crsbuf)[i++][1]&=6;
+  }
+  p= (unsigned char *) &(state->lowx);
+  read (in,p,2);
+  p= (unsigned char *) &kstrt;
+  read (in,p,4);
+  p= (unsigned char *) &notbeg;
+  read (in,p,4);
+  read (in,(state->buf), (int) notbeg);
+  read (in,(char *) count,XCNT*4);
+  read (in,(char *) state->plybuf,4*XCNT*XCNT);
+  read (in,(char *) (state->bilbuf),2*XCNT*XCNT);
+  close (in);
+  in=0;
+  s= (state->cbuf)+14;
+  *s= EOFCHR;
+ }
+ else if ((in=open(*++argv,0))==-1){
+  write (1,"cannot open ",12);
+  write (1,*argv,strlen(*argv));
+  write (1,", skipping\n",11);
+  goto NEWFIL;
+ }
+ if (stats>=0){
+  i= strlen(*argv);
+  q= (unsigned char *) *argv+i-1;
+  if (i>11) i=11;
+  while (i--!=0 && *p!='/') --q;
+  p=t;
+  while (*++q!=0) *(p++)= *q;
+  *(p++)= '.';
+  *(p++)= 'l';
+  *p=0;
+  if ((stats=creat(t,0644)) <0) stats=0;
+ }
+ if ((state->restrt)!=0){
+  if (stats>0){
+   write (stats,nbuf,strlen(nbuf));
+   write (stats,"\n",1);
+  }
+  (state->restrt)=0;
+  goto STEP1; // restart file has set up all NEWNOT data already
+ }
+ */
+
+ c = (state->cbuf);
+
+ /* This code fragment copies the input file into a character buffer,
+    appending the EOF character to the end of the string. Instead, we
+    copy our input "code" buffer into the (state->cbuf) array.
+
+    Original code:
+
+    c[read(in,c,10240)]= EOFCHR;
+
+ */
+
+ int   mypos;
+ for(mypos = 0;code[mypos] != 0 && mypos < 10240-1;mypos++) {
+   c[mypos] = code[mypos];
+ }
+ c[mypos]= EOFCHR;
+
+ while (*c=='\n') ++c;
+
+ s=c;
+NEWNOT:
+ i= XCNT-1;
+ while (i!=0 && (state->count)[i]==0) --i;
+ if (*(state->count)!= ((state->numcrs)=0)){
+  if (stats>=0){
+   if ((out=open("lmknot.stats",1))== -1) out=creat("lmknot.stats",0644);
+   else lseek (out,(long) 0,2);
+  }
+/*   if (stats>=0 && out>0){ */
+/*    write (out,nbuf,strlen(nbuf)); */
+/*    write (out,"\n",1);     /\* write out statistics for knot just completed *\/ */
+/*    lngi=0; */
+/*    while (i!=0){ */
+/*     write (out,t,ntc((long)(i+1),t,state)); */
+/*     write (out,"     ",5); */
+/*     write (out,t,ntc(count[i],t)+1,state); */
+/*     lngi+= count[i--]; */
+/*    } */
+/*    write (out,"\ntotal: ",8); */
+/*    write (out,t,ntc(lngi,t,state)+1); */
+/*    write (out,"run: ",5); */
+/*    times(&hi); */
+/*    lngi= ((hi.tms_utime-kstrt)*5)/3; */
+/*    write (out,t,ntc(lngi/100,t,state)); */
+/*    write (out,".",1); */
+/*    len= ntc(lngi%100,t,state); */
+/*    write (out,"0",2-len); */
+/*    write (out,t,len); */
+/*    write (out," s\n\n",4); */
+/*    kstrt= hi.tms_utime; */
+/*    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40); */
+/*    close (out); */
+/*   } */
+  k= XCNT;
+  i=0;
+  while (k!=0 && i==0){
+   i= 2+ 2*(XCNT-k);
+   lp1= (state->poly)[--k];
+   sp= (state->bilion)[k];
+   while (--i!=0 && *lp1==0 && *(sp++)==0) ++lp1;
+  }
+  if (i!=0){
+
+    /* Original code:
+
+       if ((out= open("lmknot.out",1))<0) out=open("temp.out",1);
+
+       lseek (out,(long) 0,2);
+       write (out,nbuf,strlen(nbuf));
+       write (out,"\n",1); */
+
+    /* write out polynomial for knot just completed */
+
+    /* These lines would copy the first line of the crossing code into
+       the output. We don't need this, so we forget it */
+
+    /*strwrite(outpoly,(char *)(nbuf),strlen((char *)(nbuf)));
+      strwrite(outpoly," ",1); */
+
+    /*
+    if (count[2]<0) write (out,"program error: knot became inconsistent\n",40);
+    if (count[1]!=0) write (out,"coefficient overflow error: output BAD\n",39);
+    */
+
+    if ((state->count)[2]<0) {
+
+      printf("lmpoly: knot became inconsistent.\n");
+      exit(1);
+
+    }
+
+    if ((state->count)[1]!=0) {
+
+      printf("lmpoly: coefficient overflow error.\n");
+      exit(1);
+
+    }
+
+    len=m= -1;
+    while (m++<k || (state->lowx) <= 0){
+        if ((state->lowx)== (i=0)) strwrite (outpoly,"[",1,state);
+        n= XCNT-m-1;
+        j= n*2;
+        while (j!=n && (state->poly)[m][j]==0 && (state->bilion)[m][j]==0) --j;
+        while (i!=n && (state->poly)[m][i]==0 && (state->bilion)[m][i]==0) ++i;
+        if (len==0 || (state->lowx)>=0 || i!=j || (state->poly)[m][i]!=0 || (state->bilion)[m][i]!=0){
+            while (i<=j){
+                if (i==n) strwrite (outpoly,"[",1,state);
+                h=0;
+                lngi= (state->poly)[m][i];
+                if (lngi>=cmpval || lngi<= -cmpval){
+                    h= lngi/cmpval;
+                    lngi-= h* cmpval;
+                }
+                h+= (state->bilion)[m][i];
+                if (h*lngi <0){   /* (state->bilion) and poly are different signs */
+                    if (h<0){
+                        lngi-= cmpval;
+                        ++h;
+                    }
+                    else {
+                        lngi+= cmpval;
+                        --h;
+                    }
+                }
+                if (h!=0){
+                    if (lngi<0) lngi= -lngi;
+                    strwrite (outpoly,(char *)(state->t),ntc((long) h,(char *)(state->t),state),state);
+                    len= ntc(lngi,(char *)(state->t),state);
+                    if (cmpval==10000) len2= 4-len;
+                    else len2= 9-len;
+                    strwrite (outpoly,"00000000",len2,state);
+                    strwrite (outpoly,(char *)(state->t),len,state);
+                }
+                else strwrite (outpoly,(char *)(state->t),ntc(lngi,(char *)(state->t),state),state);
+                if (i++ ==n) strwrite (outpoly,"]",1,state);
+                if (i<=j) strwrite (outpoly," ",1,state);
+            }
+            if ((state->lowx)== (len=0)) strwrite (outpoly,"]",1,state);
+            strwrite (outpoly,"N",1,state);
+        }
+        ++(state->lowx);
+    }
+  }
+  strwrite (outpoly," ",1,state);
+  /* close(out); */ /* We are done writing the polynomial, so return */
+  free(state);
+  return outpoly;
+ }
+ i= XCNT;
+ while (i!=0) (state->count)[--i]=0; /* Erase the (state->count) buffer */
+ c=s;
+ *nbuf=0;                   /* Erase the nbuf string? */
+ if (*c!='1' || (*(c+1)!='+' && *(c+1)!='-')){
+  /* Copy first line of 's' into nbuf */
+  p= nbuf;
+  while (*c!='\n' && *c!= EOFCHR) *(p++)= *(c++);
+  *p= 0;
+  /* if (*c != EOFCHR && stats>0){ */
+/*    lseek (stats,(long) 0,0); */
+/*    write (stats,nbuf,strlen(nbuf)); */
+/*    write (stats,"\n",1); */
+/*   } */
+ }
+ if (*c=='\n') ++c;
+ p= *(state->crsbuf);
+ while (*c!='\n' && *c!=EOFCHR){
+  if ((state->numcrs)==maxcrs){
+    //write (1,"too many crossings in knot\n",27);
+    printf("lmpoly: too many crossings in knot\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  while (*c>='0' && *c<='9') ++c;
+  if (*c=='+') (state->sign)[(state->numcrs)]=6;      /* (state->sign)[] says what crossings are + or - */
+  else if (*c=='-') (state->sign)[(state->numcrs)]=2;
+  else if (*c==EOFCHR) --c;
+  else {
+    //write (1,"the format of this knot is unreadable, skipping file\n",53);
+    //close (in);
+    //goto NEWFIL;
+    printf("lmpoly: Could not parse input string.\n");
+    free(outpoly);
+    free(state);
+    return NULL;
+  }
+  ++c;
+  j=4;
+  while (j--!= (i=0) && *c!=EOFCHR){
+   while (*c>='0' && *c<='9'){
+    i*=10;
+    i+= *(c++)-0x30;
+   }
+   if (i==0){
+     //write (1,"the format of this knot is unreadable, skipping file\n",53);
+     //close (in);
+     //goto NEWFIL;
+     printf("lmpoly: Could not parse input string.\n");
+     free(outpoly);
+     free(state);
+     return NULL;
+   }
+   *(p++)= i-1;
+   if (*c!=EOFCHR){
+    if (*c<'a' || *c>'d'){
+      //write (1,"the format of this knot is unreadable, skipping file\n",53);
+      //close (in);
+      //goto NEWFIL;
+      printf("lmpoly: Could not parse input string.\n");
+      free(outpoly);
+      free(state);
+      return NULL;
+    }
+    *(p++)= (*(c++)-'a')*2;
+   }
+  }
+  ++(state->numcrs);
+  if (*c=='\n') ++c;
+ }
+ if (*c==EOFCHR){
+  c=(state->cbuf);
+  len=10240;
+  while (*s!=EOFCHR){
+   *(c++)= *(s++);
+   --len;
+  }
+  if (in!=0 && (i=read(in,c,len))!=0){
+   c[i]=EOFCHR;
+   c=(state->cbuf);
+   while (*c=='\n') ++c;
+   s=c;
+   goto NEWNOT;
+  }
+  *c= EOFCHR;
+  if (in!=0){
+   close (in);
+   in=0;
+  }
+  else goto NEWFIL;
+  if ((state->numcrs)<2) goto NEWFIL;
+ }
+ while (*c=='\n') ++c;
+ s=c;
+ lp1= *(state->poly);
+ sp= *(state->bilion);
+ lngi= XCNT*XCNT;
+ while (--lngi!=0) *(lp1++)= *(sp++)= 0;
+ (state->notbeg)=(state->numlps)=(state->poslnk)=(state->neglnk)= xpow= ypow= 0;
+ if (conchk(state)!=0) exit(0);
+ *(state->count)=1;
+STEP1:
+ skflag=0;
+RESTRT:
+ if ((state->restrt)!=0){
+   /* We don't include the restart functionality for now. */
+
+  /* if ((out=creat("lmpoly.restrt",0644))!= -1){ */
+/*    write (out,nbuf,82); */
+/*    i= strlen(*argv)-11; */
+/*    if (i<0) i=0; */
+/*    write (out,*argv+i,12); */
+/*    *(state->cbuf)= (state->numcrs); */
+/*    if (ypow<0){ */
+/*     ypow= -ypow; */
+/*     (state->cbuf)[6]=1; */
+/*    } */
+/*    else (state->cbuf)[6]=0; */
+/*    if ((xpow&512) !=0) (state->cbuf)[6]|= 2; */
+/*    (state->cbuf)[1]= ypow; */
+/*    (state->cbuf)[2]= xpow; */
+/*    (state->cbuf)[3]= (state->numlps); */
+/*    (state->cbuf)[4]= (state->poslnk); */
+/*    (state->cbuf)[5]= (state->neglnk); */
+/*    write (out,(state->cbuf),7); */
+/*    i= -1; */
+/*    while (++i!=(state->numcrs)) (state->crsbuf)[i][1]|= (state->sign)[i]<<4; */
+/*    write (out,*(state->crsbuf),(state->numcrs)*8); */
+/*    p= (un(state->sign)ed char *) &(state->lowx); */
+/*    write (out,p,2); */
+/*    times(&hi); */
+/*    kstrt-= hi.tms_utime; */
+/*    p= (un(state->sign)ed char *) &kstrt; */
+/*    write (out,p,4); */
+/*    p= (unsigned char *) &notbeg; */
+/*    write (out,p,4); */
+/*    write (out,buf, (int) notbeg); */
+/*    write (out,(char *) count,XCNT*4); */
+/*    write (out,(char *) state->plybufn,4*XCNT*XCNT); */
+/*    write (out,(char *) (state->bilbuf),2*XCNT*XCNT); */
+/*    close (out); */
+/*    close (stats); */
+/*    exit(0); */
+/*   } */
+   /*write (1,"couldn't create restart file 'lmpoly.restrt'\n",45);*/
+
+   printf("lmpoly: Warning! This version does not save"
+	  " restart info on quit.\n"
+	  "        Terminating run now.\n\n");
+   exit(0);
+   /*restrt=0; */
+ }
+/* FIRST -- remove figure 8 loops, 2 cases  "#-#d#c#b#a"  "#+#b#a#d#c" */
+/* SECOND -- remove monogons (must recheck previous crossings) */
+/* 4 cases  "#+#b#a????"  "#+????#d#c"  "#-#d????#a"  "#-??#c#b??" */
+/* THIRD -- remove bigons -- make sure loops don't get forgotten. */
+/* 2 cases "k?mcmb???? m???kbka??"  "k?mc????md  m?????kakd" */
+/* bigon yanker MUST be completely thorough or loops can get lost later */
+ *dspair=g= i= (state->numcrs);
+ c=p= (state->crsbuf)[i];
+ k=2;
+ while (i--!=0){  /* loop through all crossings */
+  p-=8;
+  if (*p==i){
+   if (p[4]==i) ++(state->numlps);
+   else mrecon (p+4,p+(state->sign)[i],state);
+   squish (i,state);
+   goto STEP1;
+  }
+  else if (p[4]==i){
+    mrecon (p,p+((state->sign)[i]^4),state);
+    squish (i,state);
+   goto STEP1;
+  }
+   /* this bigon test checks that ka points to some mc, */
+    /* and kd to md, or kb to mb */
+  if (p[1]==4 && ((*p==p[6] && p[7]==6) || (*p==p[2] && p[3]==2))){
+   if ((j= *p) ==p[2]) k=6;
+   c= (state->crsbuf)[j];
+   if (p[4]==j) ++(state->numlps);
+   if (p[2]==p[6]) ++(state->numlps);
+   mrecon (p+4,c,state);
+   mrecon (p+k,c+k,state);
+   sqush2 (i,j,state);
+   goto STEP1;
+  }
+  (state->bstlst)[i]= 0;
+ }
+ if ((state->numcrs)<6) g=0;
+/* find very good and ok triples */
+ while (g--!= (lngi=0)){
+  c-=8;
+  p= (state->crsbuf)[*c]+ ((c[1]^2)&2);
+  q= (state->crsbuf)[c[4]]+ ((c[5]^2)&2);
+  if ((i= c[2]) != (j= c[6]) && *c!=c[4]){
+   if ((m= *q) == (n= q[4])) m=n= -1;
+   if ((h= *p) == (k= p[4])) h=k= -1;
+   if ((h==i && k==j) || (j==h && k==i)) lngi=1;
+   if ((m==i && n==j) || (m==j && n==i)) lngi|=2;
+   if ((n==j || m==j) && (k==j || h==j)) lngi|=4;
+   if ((m==i || n==i) && (h==i || k==i)) lngi|=8;
+  }
+  else {
+   h=0;       /* there is a ring through this crossing */
+   if (i!=j){
+    i= *c;   /* on over branch */
+    h=2;
+   }
+   else if (*c==c[4]){
+    ++(state->numlps); /* knot's a distant union with a 2-link */
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    sqush2 (g,i,state);
+    goto STEP1;
+   }
+   j=h;
+   c+=h;
+   if ((state->sign)[g]!=(state->sign)[i]) ++(state->numlps); /* loose ring */
+   else {
+    if ((state->sign)[g]==2) ++(state->neglnk);
+    else ++(state->poslnk);
+    j= h^2;
+   }
+   p= (state->crsbuf)[i]+j;  /* only do one mrecon unless I HAVE to do 2 */
+   q= c+4;
+   if (*c==i){
+    if ((c[1]&4) ==0) c= p+4;
+    else c=p;
+   }
+   else if (*q==i){
+    if ((q[1]&4) ==0) q= p+4;
+    else q=p;
+   }
+   else mrecon (p,p+4,state);
+   mrecon (c,q,state);
+   sqush2 (g,i,state);
+   goto STEP1;
+  }
+  if (lngi!=0){
+   k= lngi;
+   *dspair=1;
+   if ((k&3)!=0){
+    if ((c[3]&c[7]&2)!=0){
+      triple((short) ((k&2)<<1),g,c,state);
+     goto STEP1;
+    }
+    if (((c[3]^c[7])&2)!=0){
+     if ((c[((k&2)<<1)|1]&2)==0){
+      if ((state->sign)[c[(k&2)<<1]]!=(state->sign)[g]) (state->bstlst)[i]= (state->bstlst)[j]= -19;
+      else (state->bstlst)[i]= (state->bstlst)[j]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&2)<<1]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst)+i;
+      if ((c[3]&2)!=0) sp= (state->bstlst)+j;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+   if (k>3){
+    if (((c[1]|c[5])&2)==0){
+      triple((short) ((k&4)|2),g,c,state);
+     goto STEP1;
+    }
+    if (((c[1]^c[5])&2)!=0){
+     if ((c[(k&4)|3]&2)!=0){
+      if ((state->sign)[c[(k&4)|2]]!=(state->sign)[g]) (state->bstlst)[*c]= (state->bstlst)[c[4]]= -19;
+      else (state->bstlst)[*c]= (state->bstlst)[c[4]]= 8;
+     }
+     else {
+      n=8;
+      if ((state->sign)[c[(k&4)|2]]==(state->sign)[g]) n= -8;
+      sp= (state->bstlst) + c[4];
+      if ((c[1]&2)!=0) sp= (state->bstlst)+ *c;
+      if (*sp==0 || (n<0 && n<*sp)) *sp= n;
+     }
+    }
+    else {
+     if ((state->bstlst)[g]>=0) (state->bstlst)[g]+= 8;
+     else (state->bstlst)[g]-= 8;
+    }
+   }
+  }
+ }
+ /* circuit remover */
+ j= (state->numcrs)-1;
+ if (j<3) j= -1;
+ else if (j<11){    /* <12 will blow up */
+  p= *(state->crsbuf)+1;
+  i=(state->numcrs);
+  while (i--!=0 && *p!=4) p+=8; /* only non-alternating (a to c) knots */
+  if (i< (n=0)) j= -1;
+  else p= (state->crsbuf)[j]+5;   /* remove twists */
+  while (j>=0){
+   n^=4;
+   k= *(p--)^4;
+   if ((k&2) == 0){
+    c= (state->crsbuf)[*p]+k;
+    i= *c;
+    k= c[1]^4;
+    if ((k&2) != 0 && (state->crsbuf)[i][k]==j){
+      untwst ((short) *p,i,j,n,state);
+      squish (j,state);
+     goto STEP1;
+    }
+   }
+   if (n==0) --j;
+   p-=3;
+  }
+ }
+ g= (state->donlnk)[XCNT]= m= 0;
+ while ((n=j) >= (*(state->tt)=(state->tt)[2]=h= 0)){
+  k=g;
+  do {
+   p= (state->crsbuf)[j]+k;
+   j= *p;
+   k= p[1]^4;
+   i= h;
+   p=(state->clist);
+   while (i--!=0 && *(p++) != j);
+   if (i>=0){
+    j= n;              /* circuit crosses itself */
+    goto NXTCIR; /* skip circuit, wait for a sub-piece that doesn't */
+   }
+   else {
+    ++(state->tt)[k&2];
+    *p= j;
+    (state->t)[h++]= (k&2)^2;
+   }
+  } while (n!=j);
+  if (k != g) --(state->tt)[k&2];
+  else k= -1;
+  if (*(state->tt)==0 || (state->tt)[2]==0){
+    rmcir(h,j,k,state->t,0,state);
+   goto STEP1;
+  }
+  if (tstcir(h,(state->bstlst),dspair,&skflag,state) !=0) goto RESTRT;
+  if (h==3){
+   (state->stc)[m++]=j; /* store vertex of 3 crossing circuit for (state->bstlst) later */
+   (state->stc)[m++]=g;
+   (state->stc)[m++]=k^4;
+  }
+NXTCIR:
+  if (g==0) g= (state->sign)[j];
+  else {
+   --j;
+   g=0;
+  }
+ }
+/* if knot is tiny, store polynomial coefficients and restart a stored knot */
+ if ((state->numcrs)<6){
+  lngi= 1;
+  if ((state->numcrs)==0) --(state->numlps);
+  delpow(state);
+  if ((xpow&512)!=0){
+   lngi= -1;
+   xpow&=511;
+  }
+  if ((state->numcrs)==4){
+   c= *(state->crsbuf);
+   p= c+4;
+   if (*p==*c || c[2]==p[2]){
+    g= -3;
+    if (*p==p[2] && *c==c[2]) g= -4;
+   }
+   else {
+    g= 0;  /* 0 is flag for knot */
+    i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    if (i!=16) g=2;     /* flag for 2 links   */
+   }
+  }
+  else if ((state->numcrs)==5){
+   n=10;
+   i=j= 0; /* step through knot, if don't get to end, it's a link */
+   do {
+    p= (state->crsbuf)[i]+j;
+    i= *p;
+    j= p[1]^4;
+    --n;
+   } while (i!=0 || j!=0);
+   if (n>0){
+    i=h= 0; /* 5 crossing 2 link  or twisted 3 link  or tref and 2 links */
+    g=m= 1;      /* or tref + link */
+    k= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+    if (k>10 && k<30){
+     if (k>20){
+      while ((state->sign)[i]==6) ++i;
+     }
+     else {
+      while ((state->sign)[i]==2) ++i;
+     }
+     if (k==14 || k==26) goto FOURX;
+     c= (state->crsbuf)[i];
+     p= c+4;
+     if (*p==*c || p[2]==c[2]){
+      if (*p==p[2] && *c==c[2]) g=3;
+      else {
+       h=4;
+       if ((state->sign)[i]==6) m= -1;
+      }
+     }
+     else {
+      g=2;
+      j=0;
+      if ((state->sign)[*c]!=(state->sign)[i]) j=4;
+      k= c[j];
+      if ((state->crsbuf)[k][j]!=i){
+       if ((state->sign)[i]==6) m= -1;
+      }
+      else if ((state->sign)[i]==2) m= -1;
+     }
+    }
+    if (g==1){
+     if (h==0 && (state->sign)[i]==2) m= -1;
+     i=j=k= 5;
+     c= state->t;
+     while (j!=0) c[--j]=0;
+     while (k--!=0){
+      j= (state->sign)[k]; /* trefs + circles have fake bigons at all crossings */
+      p= (state->crsbuf)[k]; /* so find all fake bigons */
+      if (p[1]==(j^4) && (*p==p[2] || *p==p[6])) c[k]=c[*p]= 1;
+      if (p[5]==j && p[4]==p[j]) c[k]=c[p[4]]= 1;
+     }
+     while (--i>=0 && c[i]!=0);
+     if (i>=0){
+FOURX: /* found twisted 3 link -- "squish" twist before making polynomial */
+      while (++i!=6) (state->sign)[i-1]= (state->sign)[i];
+      (state->numcrs)=4;
+      g= -3;  /* flag for 4 crossing 3 links */
+     }
+     else {
+      p= *(state->crsbuf);
+      if (n==4 || (n==8 && *p==p[4] && p[2]==p[6])) g=3;
+     }
+    }
+   }
+   else g= -1; /* it's a knot! */
+  }
+  i= (*(state->sign))/2 -2;
+  k= xpow;
+  n=ypow;
+  p= *(state->crsbuf);
+  if ((state->numcrs)==5){
+   if (g<0){ /* knots */
+    if (i>0){
+     if (*p==p[6] && p[2]==p[4] && p[10]==p[12]) g= -2;
+    }
+    else if (*p==p[2] && p[4]==p[6] && p[8]==p[10]) g= -2;
+    if (g== -1){ /* knot five-two */
+      addin(lngi,(short)(n-i*6),k,0,0,state);      /* the flags at the end of addin  */
+      addin(lngi,(short)(n-i*4),k,-1,2,state);     /* let you do two addins at once, */
+      addin((long)-lngi,(short)(n-i*2),k,-1,2,state);    /* for addins with equal ypows.   */
+    }
+    else { /* knot five-one */
+     k+=2;
+     addin((long)(-4*lngi),(short)(n-i*4),k,0,0,state);
+     addin((long)-lngi,(short)(n-i*6),k,-2,-2,state);
+     addin(lngi,(short)(n-i*4),(short)(k+2),3,-4,state);
+    }
+   }
+   else { /* links */
+    if (g==1){ /* trefoil + circle */
+     if (h!=0){
+       addin(lngi,(short)(n-m*3),++k,-1,-2,state);
+       addin((long)(3*lngi),(short)(n-m),k,-1,-2,state);
+       addin(lngi,(short)(n+m),k,-2,-2,state);
+       addin((long)-lngi,(short)(n-m),(short)(k+2),0,0,state);
+     }
+     else {
+       addin((long)-lngi,(short)(n-m*7),--k,0,0,state);
+       addin((long)(-3*lngi),(short)(n-m*5),k,0,0,state);
+      k+=2;
+      addin((long)(3*lngi),(short)(n-m*3),k,0,0,state);
+      addin((long)(2*lngi),(short)(n-m*5),k,0,0,state);
+      addin((long)-lngi,(short)(n-m*3),(short)(k+2),2,-4,state);
+     }
+    }
+    else if (g==2){ /* 2 component link five-one */
+      addin((long)-lngi,(short)(n+m),--k,-2,2,state);
+      addin((long)-lngi,(short)(n-m),k,-1,2,state);
+      addin(lngi,(short)(n+m*3),(short)(k+2),0,0,state);
+      addin((long)-lngi,(short)(n+m),(short)(k+4),0,0,state);
+    }
+    else { /* trefoil and circle + circle */
+     i= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3]+(state->sign)[4];
+     m=1;
+     if (i<20){
+      m= -1;
+      i= 40-i;
+     }
+     j= k-2;
+     if (i!=30){
+       addin(lngi,(short)(n-m*4),j,-1,2,state);
+       addin((long)(4*lngi),(short)(n-m*2),j,-1,2,state);
+       addin((long)(5*lngi),n,j,0,0,state);
+       addin((long)-lngi,(short)(n+m*2),k,-2,-2,state);
+      k+=2;
+      addin(lngi,n,k,-4,-2,state);
+      addin(lngi,(short)(n-m*2),k,0,0,state);
+     }
+     else {
+       addin(lngi,(short)(n-m*8),j,0,0,state);
+       addin((long)(5*lngi),(short)(n-m*4),j,0,0,state);
+       addin((long)(2*lngi),(short)(n-m*2),j,0,0,state);
+       addin((long)(-2*lngi),(short)(n-m*6),k,-2,-2,state);
+      k+=2;
+      addin(lngi,(short)(n-m*4),k,-5,-2,state);
+      addin(lngi,(short)(n-m*2),k,-3,-2,state);
+     }
+    }
+   }
+  }
+  else if ((state->numcrs)==4){
+   if (g==0){ /* knot 4-1 */
+     addin((long)-lngi,(short)(n-2),k,0,0,state);
+     addin((long)-lngi,n,k,-1,2,state);
+     addin((long)-lngi,(short)(n+2),k,0,0,state);
+   }
+   else if (g>0){
+    i=1;
+    if (*(state->crsbuf)[*p]==0){
+     if (*(state->sign)==6) i= -1; /* 2 link 4^2-1 */
+     addin((long)-lngi,(short)(n+i*3),--k,-1,2,state);
+     addin((long)-lngi,(short)(n+i*5),k,0,0,state);
+     addin((long)-lngi,(short)(n+i),(short)(k+2),0,0,state);
+    }
+    else {
+     if (*(state->sign)==2) i= -1;
+     addin((long)-lngi,(short)(n-i*5),--k,-1,2,state);
+     addin((long)-lngi,(short)(n-i*3),k,-3,2,state);
+     addin((long)-lngi,(short)(n-i*3),(short)(k+4),0,0,state);
+    }
+   }
+   else if (g== -3){ /* 3 link */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin((long)-lngi,(short)(n-2),k,-1,-2,state);
+      addin((long)(-2*lngi),n,k,-1,-2,state);
+      addin((long)-lngi,(short)(n+2),k,-1,-2,state);
+      addin(lngi,n,(short)(k+2),0,0,state);
+    }
+    else {
+     j= k-2;
+     addin(lngi,(short)(n-2+i),j,0,0,state);
+     addin((long)(2*lngi),(short)(n+i),j,-1,2,state);
+     addin(lngi,(short)(n+2+i),j,0,0,state);
+     addin(lngi,(short)(n+i/2),(short)(k+2),-2,-2,state);
+    }
+   }
+   else { /* circle + circle  and  circle + circle */
+    j= *(state->sign)+(state->sign)[1]+(state->sign)[2]+(state->sign)[3];
+    i= 8- j/2;
+    if (i==0){
+      addin(lngi,(short)(n-3),--k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n-1),k,-1,-2,state);
+      addin((long)(3*lngi),(short)(n+1),k,-1,-2,state);
+      addin(lngi,(short)(n+3),k,-1,-2,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1),k,0,0,state);
+     addin((long)-lngi,(short)(n+1),k,0,0,state);
+    }
+    else {
+     k-=3;
+     addin((long)-lngi,(short)(n-3+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n-1+i),k,0,0,state);
+     addin((long)(-3*lngi),(short)(n+1+i),k,0,0,state);
+     addin((long)-lngi,(short)(n+3+i),k,0,0,state);
+     k+=2;
+     addin((long)(2*lngi),(short)(n-2+(i*3)/4),k,0,0,state);
+     addin((long)(4*lngi),(short)(n+(i*3)/4),k,0,0,state);
+     addin((long)(2*lngi),(short)(n+2+(i*3)/4),k,0,0,state);
+     k+=2;
+     addin((long)-lngi,(short)(n-1+i/2),k,0,0,state);
+     addin((long)-lngi,(short)(n+1+i/2),k,0,0,state);
+    }
+   }
+  }
+  else if ((state->numcrs)==3){
+    addin((long)-lngi,(short)(n-i*4),k,0,0,state);
+    addin(lngi,(short)(n-i*2),(short)(k+2),-2,-2,state);
+  }
+  else if ((state->numcrs)!=0){
+    addin(lngi,(short)(n-i),--k,-1,2,state);
+    addin(lngi,(short)(n-i*3),k,0,0,state);
+  }
+  else addin(lngi,n,k,0,0,state);
+  if ((state->notbeg)!=0){
+   (state->numcrs)= (state->buf)[(state->notbeg)-1];
+   (state->numlps)= (state->buf)[(state->notbeg)-4];
+   (state->poslnk)= (state->buf)[(state->notbeg)-5];
+   (state->neglnk)= (state->buf)[(state->notbeg)-6];
+   xpow= (state->buf)[(state->notbeg)-3];
+   ypow= (state->buf)[(state->notbeg)-2];
+   if ((state->buf)[(state->notbeg)-7]!=0) ypow= -ypow;
+   if ((state->buf)[(state->notbeg)-8]!=0) xpow|= 512;
+   (state->notbeg)-= 8+ (state->numcrs)*8;
+   i=0;
+   p= *(state->crsbuf);
+   c= (state->buf)+(state->notbeg);
+   while (i!=(state->numcrs)){
+    j=4;
+    while (j--!=0){
+     *(p++)= *(c++);
+     *(p++)= *(c++)&6;
+    }
+    (state->sign)[i++]= (*(c-7))>>4;
+   }
+   if ((state->numcrs)>chksiz){
+    lp1= *(state->poly);
+    sp= *(state->bilion);
+    lngi= XCNT*XCNT;
+    while (lngi--!=0){
+     if (*lp1> cmpval){
+      if ((*sp)++ == MAXBIL) (state->count)[1]=1;
+      *lp1-= cmpval;
+     }
+     else if (*lp1< -cmpval){
+      if ((*sp)-- == -MAXBIL -1) (state->count)[1]=1;
+      *lp1+= cmpval;
+     }
+     ++lp1;
+     ++sp;
+    }
+    /* if (stats>0){ */
+/*      lseek (stats,(long)(strlen(nbuf)+1),0); */
+/*      lngi=0; */
+/*      i= XCNT-1; */
+/*      while (count[i]==0) --i; */
+/*      while (i!=0){ */
+/*       write (stats,t,ntc((long)(i+1),t),state); */
+/*       write (stats,"     ",5); */
+/*       write (stats,t,ntc(count[i],t)+1,state); */
+/*       lngi+= count[i--]; */
+/*      } */
+/*      write (stats,"\ntotal: ",8); */
+/*      write (stats,t,ntc(lngi,t,state)+1); */
+/*      write (stats,"\nbiggest stacked knots:\n",24); */
+/*      i=12; */
+/*      sp= (state->bstlst); */
+/*      while (i--!=0) sp[i]=0; */
+/*      lngi=notbeg-1; */
+/*      while (lngi>0){ */
+/*       k= (state->buf)[lngi]; */
+/*       sp[++i]= k; */
+/*       lngi-= k*8 + 8; */
+/*       if (i==10) i= -1; */
+/*      } */
+/*      k= 0; */
+/*      while (*sp!=0){ */
+/*       j= ntc((long) *(sp++),t,state); */
+/*       k+=j+1; */
+/*       write (stats,t,j); */
+/*       write (stats," ",1); */
+/*      } */
+/*      write (stats,"                                            ",44-k); */
+/*      write (stats,"\n",1); */
+/*     } */
+   }
+  }
+  else (state->numcrs)=0;
+ }
+ else {
+/* locate fake bigons, 0 branch bigons, and 3 cross circuits for (state->bstlst) */
+  k= (state->numcrs);
+  p= (state->crsbuf)[k]; /* only set k, other crossings will be set in their loops   */
+  c= (state->sign)+k;    /* If a tangle is added to the knot with twists, I can find */
+  while (k--!=0){ /* it sometimes and remove the twists! */
+   n= (state->bstlst)[k];
+   p-=8;
+   j= *--c;
+   i= *p;
+   g= p[4];
+   if (g==p[j]){   /* good fake bigon behind me */
+    if (p[5]!=j){
+     c= (state->crsbuf)[g];  /* wrong! twisted tangle ahead! remove twists! */
+     mrecon (p+(j^4),c+ (p[j+1]^4),state);
+     mrecon (p,c+ (p[5]^4),state);
+     sqush2 (k,g,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   if (p[j]==(state->crsbuf)[g][(state->sign)[g]^j^4] && (p[5]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon */
+     g=1;
+     if (p[5]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   j^=4;
+   if (p[j]==i){  /* good fake bigon ahead of me */
+    if (p[1]!=j){
+     q= (state->crsbuf)[i];  /* wrong! twisted tangle behind! remove twists! */
+     mrecon (p+4,q+ (p[1]^4),state);
+     mrecon (p+ *c,q+ (p[j+1]^4),state);
+     sqush2 (k,i,state);
+     goto STEP1;
+    }
+    if (n>0) n= -4-n;
+    else n+= -8;
+   }
+   else if (p[j^4]==i){  /* bad fake bigon ahead */
+    if (n<0) n-= 8;
+    else if (n<8) n= 8;
+    if ((state->bstlst)[i]<0) (state->bstlst)[i]-=8;     /* mutualize */
+    else if ((state->bstlst)[i]<8) (state->bstlst)[i]=8;
+   }
+   if (p[j]==(state->crsbuf)[i][(state->sign)[i]^j^4] && (p[1]&2)!=0 && nopro!=(state->numcrs)){
+    if ((p[j+1]&2)!=0){
+     if (n<0) n-=12;
+     else if (n>0) n= -8-n;  /* 0 branch has remov. bigon */
+    }
+    else { /* 0 branch has fake bigon (1 point) */
+     g=1;
+     if (p[1]==j) g=2;  /* bad fake bigon 1 point, good is 2 points */
+     if (n<0) n-=g;
+     else if (n>0) n+=g;
+    }
+   }
+   (state->bstlst)[k]=n;
+  }
+  c= (state->stc);
+  i= -8;
+  if (nopro==(state->numcrs)) m=0;
+  while (m>0){
+   m-=3;
+   n= *(c++);
+   g= *(c++);
+   p= (state->crsbuf)[n];  /* busting vertex of 3 cross circuit makes a removeable */
+   sp= (state->bstlst)+n;  /* + or - link on the 0 branch -- free 2 reduction */
+   k= p[*(c++)];
+   j= p[g];
+   if ((p[g|1]&2) != 0) p= (state->crsbuf)[j];
+   else p= (state->crsbuf)[j]+(state->sign)[j];
+   if (*p==k) --i;
+   if (*sp<0) *sp+= i-4;
+   else if (*sp==0) *sp= 4-i;
+   else *sp= i- *sp;
+  }
+  i= nopro= (state->numcrs);
+  k=n= 0;
+  sp= (state->bstlst)+(state->numcrs);
+  while (i--!=0){
+   if (*--sp<n){
+    n= *sp;
+    j=i;
+   }
+   else if (*sp>k){
+    k= *sp;
+    m=i;
+   }
+  }
+  if (n==0){
+   if (k==0){
+    j= dspair[2];
+    nopro=0;
+   }
+   else j=m;
+  }
+  else if (n>-14 && k>12) j=m; /* since exponential growth is 1.41^n */
+  ypow += bust(j,xpow,ypow,state);
+  xpow^=512;
+  ++(state->count)[(state->numcrs)-1];
+ }
+ // This point must be reached fairly often, so we're going to put in the timeout code here.
+ end = clock();
+ cpu_time_used = ((double)(end - start))/CLOCKS_PER_SEC;
+ if (timeout > 0 && cpu_time_used > timeout) {
+   free(outpoly);
+   free(state);
+   return NULL;
+ }
+ if ((state->numcrs)!=0) goto STEP1;
+ goto NEWNOT;
+}
+
+void rmcir(short top,short vnum,short vbrnch,unsigned char *ovundr,int flag,lmpoly_state_t *state)
+/* short top, vnum, vbrnch;
+   unsigned char *ovundr;
+   int flag; */
+{
+ register short i, j, k, h, m, n;
+ register unsigned char *s, *c, *p;
+ register long *lp1, *lp2;
+ short g;
+ if ((m=vbrnch) >=0){
+  i= vnum;
+  s= (state->crsbuf)[i];
+  k= s[m];
+  g= s[m|1];
+  if (m!=0) c= s+4;
+  else c= s+((state->sign)[i]^4);
+  p= (state->crsbuf)[k]+g;
+  h= *p= *c;
+  n= p[1]= c[1];
+  p= (state->crsbuf)[h]+n;
+  *p= k;
+  p[1]= g;
+  s[6]= s[4]= s[2]= *s= i;
+ }
+ else ++(state->numlps);
+ s= (state->clist);
+ j= -1;
+ while (top-1 > (i=k= ++j)){
+  while (++i<top){
+   if (s[i] < s[k]) k=i;
+  }
+  if (k!=j){    /* order crossings in (state->clist) */
+   i= s[j];
+   s[j]= s[k];
+   s[k]=i;
+   m= ovundr[j];
+   ovundr[j]= ovundr[k];
+   ovundr[k]= m;
+  }
+ }
+      /* relink */
+ m= top;
+ while (m--!=0){
+  i= s[m];
+  g= ovundr[m];
+  k= (state->crsbuf)[i][g];
+  j= (state->crsbuf)[i][g|1];
+  h= (state->crsbuf)[k][j]= (state->crsbuf)[i][g|4];
+  n= (state->crsbuf)[k][j|1]= (state->crsbuf)[i][g|5];
+  (state->crsbuf)[h][n]= k;
+  (state->crsbuf)[h][n|1]= j;
+ }
+ if (flag!=0) return;
+      /* squish crossings out of the list */
+ i= *s;
+ lp1= (long *) (state->crsbuf)[i];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+i;
+ c=p+1;
+ j= 0;
+ k=1;
+ while (++i!=(state->numcrs)){
+  if (s[k]== i){
+   lp2+= (state->suplng);
+   ++c;
+   if (++k==top) k=0;
+  }
+  else {
+   *(lp1++)= *(lp2++);
+   if ((state->suplng)==2) *(lp1++)= *(lp2++);
+   *(p++)= *(c++);
+  }
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->numcrs)-= top;
+ k= (state->numcrs);
+ c= (state->crsbuf)[k];
+ while (k--!=0){
+  j=5;
+  while (--j!=0){
+   c-=2;
+   i=top;
+   s= (state->clist)+i;
+   while (i--!=0){
+    if (*c> *--s) --*c;
+   }
+  }
+ }
+ return;
+}
+
+int ntc(long i,char *buf,lmpoly_state_t *state)
+{
+ long j;
+ int r;
+ char *p;
+ p=buf;
+ r=0;
+ if (i<0){
+  i= -i;
+  r=1;
+  *(p++)= '-';
+ }
+ if (i>999999999) j=1000000000;
+ else if (i>99999999) j=100000000;
+ else if (i>9999999) j=10000000;
+ else if (i>999999) j=1000000;
+ else if (i>99999) j=100000;
+ else if (i>9999) j=10000;
+ else if (i>999) j=1000;
+ else if (i>99) j=100;
+ else if (i>9) j=10;
+ else j=1;
+ while (j!=0){
+  ++r;
+  *(p++)= (i/j)%10+0x30;
+  j/=10;
+ }
+ *p='\n';
+ return (r);
+}
+
+void delpow(lmpoly_state_t *state)
+{
+ register long *lp1, *lp2, *lsp, *osp;
+ register short i, j, k, m, s, mpos;
+ short numlnk, mpow, u, v, x, y, z, order[2], prslen[2], pstlen[2];
+ lp1=(state->b);
+ if ((state->numlps)<4){
+  if ((state->numlps)==1){
+   *(lp1++)= -1;
+   *lp1= -1;
+  }
+  else if ((state->numlps)==3){
+   *(lp1++)= -1;
+   *(lp1++)= -3;
+   *(lp1++)= -3;
+   *lp1= -1;
+  }
+  else {
+   *(lp1++)= 1;
+   *(lp1++)= 2;
+   *lp1= 1;
+  }
+ }
+ else {
+  *lp1= 1;
+  (state->b)[1]= 4;
+  (state->b)[2]= 6;
+  k= (state->b)[3]= 4;
+  (state->b)[4]= 1;
+  while (k++!=(state->numlps)){
+   j=k;
+   (state->b)[j]=1;
+   while (--j!=0) (state->b)[j]+= (state->b)[j-1];
+  }
+  if (((state->numlps)&1)!=0) while (--k>=0) (state->b)[k]= -(state->b)[k];
+ }
+ *prslen= *pstlen= prslen[1]= pstlen[1]= mpos= mpow= 0;
+ osp= (state->b)+ (state->numlps)+1;
+ if ((state->poslnk)>(state->neglnk)){
+  order[1]= (state->poslnk);
+  *order= (state->neglnk);
+ }
+ else {
+  order[1]= (state->neglnk);
+  *order= (state->poslnk);
+  mpos=2;
+ }
+ z=2;
+ while (z--!=0){
+  numlnk=order[z];
+  mpos^=2;
+  while (numlnk--!=0){
+   m= ++mpow;
+   s=j=k= (state->numlps)+1;
+   u= *pstlen;
+   v= pstlen[1];
+   ++prslen[z];
+   *pstlen= x= *prslen;
+   pstlen[1]= y= prslen[1];
+   lp2= osp;
+   lp1= lp2+ j+ m;
+   if (z==0) lp1+= order[1];
+   osp= lp1;
+   while (j--!=0) *--lp1=0;
+   while (m--!=0){
+    i=j= s;
+    lsp= lp1;
+    if (mpos== (z|2) && y>0) *--lsp=0;
+    if (mpos!=0) lp1+=k;
+    else lp1+=i;
+    while (j--!=0) *--lp1-= *--lp2;
+    lp2+=i;
+    lp1= lsp;
+    *--lp1=0;
+    while (i--!=0) *--lp1= *--lp2;
+    lp1= lsp;
+    lsp= lp2;
+    lp2= lp1-1;
+    j=s;
+    while (j--!=0) *--lp1+= *--lp2;
+    --lp1;
+    if (x-->0) ++k;
+    if (y-->0){
+     ++k;
+     if (mpos==z) *--lp1=0;
+    }
+    if (u-->0) ++s;
+    if (v-->0) ++s;
+    lp2=lsp;
+   }
+  }
+ }
+}
+
+void addin(long kcoeff,short ypow,short xpow,int mult,int reach,lmpoly_state_t *state)
+/*short ypow, xpow;
+long kcoeff;
+int mult, reach;*/
+{
+  register long *lp1, *lp2 = NULL, addon, *p; // Added init for lp2, JC.
+  register short i, j, k, numlnk, loops;
+  i= (state->poslnk);
+  k= (state->neglnk);
+  numlnk= i+k;
+  loops= (state->numlps)+ numlnk;
+  ypow+= XCNT-xpow-1+(state->lowx)+ 2*(k-i);
+  xpow-=(state->lowx)+loops;
+  p=(state->b);
+  while (numlnk-->=0){
+    if (reach!=0) lp2= (state->poly)[xpow+reach]+ypow-reach;
+    lp1= (state->poly)[xpow]+ ypow;
+    j= loops;
+    while (j-->=0){
+      addon= kcoeff* *(p++);
+      *lp1+= addon;
+      lp1+=2;
+      if (reach!=0){
+	*lp2+= mult*addon;
+	lp2+=2;
+      }
+    }
+    if (--i<0) --loops;
+    if (--k<0) --loops;
+    else ypow-=2;
+    xpow+=2;
+  }
+}
+
+void untwst(short l,short n,short i,short ex,lmpoly_state_t *state)
+/* short l, n, i, ex; */
+{
+ register unsigned char *pl, *pn;
+ register short g, h, m, k, d, e;
+ short j;
+ j= (state->sign)[i]; /* flip 3 crossing circuits */
+ k= j^ex;
+ ex^=4;
+ m= j^ex;
+ if ((state->sign)[l]-ex==2){
+  g= j^2;
+  h= g^4;
+  j= 6;
+ }
+ else {
+  h= j^2;
+  g= h^4;
+  j= 2;
+ }
+ pl= (state->crsbuf)[l];
+ pn= (state->crsbuf)[n];
+ d= pl[m];
+ e= pl[m|1];
+ pl[m]= pn[g];
+ pl[m|1]= pn[g|1];
+ if (d!=n){
+  pn[g]= d;
+  pn[g|1]= e;
+ }
+ else {
+  pn[g]= l;
+  pn[g|1]= k;
+ }
+ (state->crsbuf)[pl[m]][pl[m|1]]= l;
+ (state->crsbuf)[pl[m]][pl[m|1]|1]= m;
+ d= pn[h];
+ e= pn[h|1];
+ pn[h]= pl[k];
+ pn[h|1]= m= pl[k|1];
+ if (d!=l){
+  pl[k]= d;
+  pl[k|1]= e;
+ }
+ else {
+  pl[k]= n;
+  pl[k|1]= g;
+ }
+ (state->crsbuf)[pn[h]][m]= n;
+ (state->crsbuf)[pn[h]][m|1]= h;
+ h= pn[g|1];
+ (state->crsbuf)[pn[g]][h]= n;
+ (state->crsbuf)[pn[g]][h|1]= g;
+ d= pl[k];
+ e= pl[k|1];
+ (state->crsbuf)[d][e]= l;
+ (state->crsbuf)[d][e|1]= k;
+ pl[ex]= g= (state->crsbuf)[i][ex];
+ pl[ex|1]= h= (state->crsbuf)[i][ex|1];
+ (state->crsbuf)[g][h]= l;
+ (state->crsbuf)[g][h|1]= ex;
+ pn[j]= g= (state->crsbuf)[i][k];
+ pn[j|1]= h= (state->crsbuf)[i][k|1];
+ (state->crsbuf)[g][h]= n;
+ (state->crsbuf)[g][h|1]= j;
+}
+
+int conchk(lmpoly_state_t *state)
+{
+ register short i, j;
+ int vnum, vbrnch, top;
+ char str[20], local_cbuf[XCNT*2+1];
+ vnum=vbrnch= 0;
+ (state->lowx)= 1;
+ i=top= (state->numcrs)*2;
+ while (i>=0) local_cbuf[i--]=0;
+ i=0;
+ while (i!=top){
+  --(state->lowx);
+  while (local_cbuf[i]==0){
+   local_cbuf[i]=1;
+   i=vnum;
+   j=vbrnch;
+   vnum= (state->crsbuf)[i][j];
+   vbrnch= (state->crsbuf)[i][j|1];
+   if (vnum>=(state->numcrs)){
+    write (1,"error at crossing #",19);
+    write (1,str,ntc((long)(i+1),str,state));
+    write (1,", knot can't have a crossing #",30);
+    write (1,str,ntc((long)(vnum+1),str,state)+1);
+    return (1);
+   }
+   if ((state->crsbuf)[vnum][vbrnch]!=i || ((state->crsbuf)[vnum][vbrnch|1])!=j){
+    write (1,"the possible connection from branch ",36);
+    write (1,str,ntc((long)(i+1),str,state));
+    *str= 'a'+(j>>1);
+    write (1,str,1);
+    write (1," to branch ",11);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    *str= 'a'+(vbrnch>>1);
+    write (1,str,1);
+    write (1," is inconsistent\n",17);
+    return (1);
+   }
+   if (vbrnch==0){
+    write (1,"a-c part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   else if (vbrnch== ((state->sign)[vnum] & 6)){
+    write (1,"b-d part of crossing #",22);
+    write (1,str,ntc((long)(vnum+1),str,state));
+    write (1," is oriented backwards\n",23);
+    write (1,"with respect to crossing #",26);
+    write (1,str,ntc((long)(i+1),str,state)+1);
+    return (1);
+   }
+   i= (vnum<<1) + ((vbrnch>>1)&1);
+   vbrnch^=4;
+  }
+  i=0;
+  while (local_cbuf[i]!=0) ++i;
+  vnum= i/2;
+  if ((i&1)!=0) vbrnch= (state->sign)[vnum] & 6;
+  else vbrnch=0;
+ }
+ return(0);
+}
+
+void mypause(int sig)
+{
+  //(state->restrt)=1;
+ //signal(SIGTERM,pause);  /* pause is now a system function */
+ signal(sig,mypause);
+}
+
+int bust(short tobust,short xpow,short ypow,lmpoly_state_t *state)
+/* short tobust, xpow, ypow; */
+{
+ register unsigned char *fastp, *c;
+ register long *lp1, *lp2;
+ register short i, j, m, k, l, n, *sp;
+ unsigned char *inbuf[XCNT], tsign[XCNT], *bstcrs;
+ int dir;
+ //long lngi;
+ bstcrs= (state->crsbuf)[tobust];
+ fastp=(state->sign);
+ c=tsign;
+ lp2= (long *) *(state->crsbuf);
+ lp1= (long *) ((state->buf)+(state->notbeg));
+ j=0;
+ while (j!=(state->numcrs)){
+  if (j==tobust) ++fastp;
+  *(c++)= *(fastp++);
+  inbuf[j++]= (unsigned char *) lp1;
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+ fastp= bstcrs;
+ l= (state->sign)[tobust]/2;
+ dir= 2-l;
+ m= fastp[7-l];
+ n= fastp[8-l];
+ j= fastp[3*l-3];
+ k= fastp[3*l-2];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ m= fastp[5-l];
+ n= fastp[6-l];
+ j= fastp[3-l];
+ k= fastp[4-l];
+ inbuf[j][k]= m;
+ inbuf[j][k|1]= n;
+ inbuf[m][n]= j;
+ inbuf[m][n|1]= k;
+ k= (state->numcrs)-1;
+     /* squish crossing out of the list (tsign has already been squished) */
+ i= k-tobust;
+ lp1= (long *) inbuf[tobust];
+ lp2=lp1+(state->suplng);
+ while (i--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+ }
+     /* renumber branch pointers (subtract 1 if the crossing was after) */
+ (state->notbeg)+= (state->numcrs)*8;
+ fastp= *inbuf;
+ while (++i!=k){
+  fastp[1]|= tsign[i]<<4;
+  j=5;
+  while (--j!=0){
+   if (*fastp>=tobust) --*fastp;
+   fastp+=2;
+  }
+ }
+ fastp= (state->buf)+(state->notbeg)-7;
+ *fastp= *(fastp-1)=0;
+ if (ypow+dir<0){
+  *fastp=1;
+  (state->buf)[(state->notbeg)-2]= -ypow-dir;
+ }
+ else (state->buf)[(state->notbeg)-2]= ypow+dir;
+ if ((xpow&512) ==0) (state->buf)[(state->notbeg)-8]=1;
+ *++fastp= (state->neglnk);
+ *++fastp= (state->poslnk);
+ *++fastp= (state->numlps);
+ *++fastp= xpow+1;
+ (state->buf)[(state->notbeg)-1]= i;
+ fastp= bstcrs;
+ sp= (short *) fastp;
+ j= *sp;
+ *sp= sp[l];
+ sp[l]= sp[2];
+ sp[2]= sp[l^2];
+ sp[l^2]= j;
+ (state->sign)[tobust]^=4;
+ (state->crsbuf)[*fastp][fastp[1]|1]=0;
+ (state->crsbuf)[fastp[2]][fastp[3]|1]=2;
+ (state->crsbuf)[fastp[4]][fastp[5]|1]=4;
+ (state->crsbuf)[fastp[6]][fastp[7]|1]=6;
+ return (dir*2);
+}
+
+void mrecon(unsigned char *c,unsigned char *p,lmpoly_state_t *state)
+/*unsigned char *c, *p;*/
+{
+ register short j, k, m, n;
+ register unsigned char *ccb;
+ k= *c;
+ j= c[1];
+ ccb= (state->crsbuf)[k]+j;
+ n= *ccb= *p;
+ m= ccb[1]= p[1];
+ ccb= (state->crsbuf)[n]+m;
+ *ccb= k;
+ ccb[1]= j;
+}
+
+void squish(short sqush,lmpoly_state_t *state)
+/* short sqush; */
+{
+ register short i, j, tosqsh;
+ register unsigned char *p, *c;
+ register long *lp1, *lp2;
+       /* squish crossing out of the list */
+ tosqsh= sqush;
+ j= --(state->numcrs)-tosqsh;
+ lp1= (long *) (state->crsbuf)[tosqsh];
+ lp2=lp1+(state->suplng);
+ p= (state->sign)+tosqsh;
+ c=p+1;
+ while (j--!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ i= (state->numcrs);
+ p= (state->crsbuf)[i];
+ while (i--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=tosqsh) --*p;
+  }
+ }
+}
+
+void sqush2(short n,short g,lmpoly_state_t *state)
+/* short n, g; */
+{
+ long *lp1, *lp2;
+ register unsigned char *p, *c;
+ register short m, i, j;
+     /* squish crossings out of the list */
+ i= n;
+ m= g;
+ if (m>i){
+  j=m;
+  m=i;
+  i=j;
+ }
+ lp1= (long *) (state->crsbuf)[m];
+ lp2=lp1+(state->suplng);
+ p=(state->sign)+m;
+ c=p+1;
+ j= i-m;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+ lp2+=(state->suplng);
+ ++c;
+ j= (state->numcrs)-i;
+ (state->numcrs)-=2;
+ while (--j!=0){
+  if ((state->suplng)==2) *(lp1++)= *(lp2++);
+  *(lp1++)= *(lp2++);
+  *(p++)= *(c++);
+ }
+    /* renumber branch pointers (subtract 1 if the crossing was after) */
+ p= (state->crsbuf)[(state->numcrs)];
+ n= (state->numcrs);
+ while (n--!=0){
+  j=5;
+  while (--j!=0){
+   p-=2;
+   if (*p>=i) --*p;
+   if (*p>=m) --*p;
+  }
+ }
+}
+
+void triple(short m,short i,unsigned char *p,lmpoly_state_t *state)
+/*short m, i;
+  unsigned char *p; */
+{
+ register unsigned char *crsi, *crsk;
+ register short j, d, e, n, h, k;
+ crsi= p;
+ n= m^4;
+ k= crsi[m];
+ crsk= (state->crsbuf)[k];
+ j= crsi[m|1];
+ d= crsk[j]= crsi[n];
+ e= crsk[j|1]= crsi[n|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ d= crsi[m]= crsk[j];
+ e= crsi[m|1]= crsk[j|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= m;
+ crsi[n]= k;
+ crsi[n|1]= j;
+ crsk[j]= i;
+ crsk[j|1]= n;
+ j^=2;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ n= crsk[j];
+ h= crsk[j|1]^4;
+ d= crsk[j]= (state->crsbuf)[n][h];
+ e= crsk[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= k;
+ (state->crsbuf)[d][e|1]= j;
+ j=m^2;
+ n= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[n][h];
+ e= crsi[j|1]= (state->crsbuf)[n][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ j^=4;
+ m= crsi[j];
+ h= crsi[j|1]^4;
+ d= crsi[j]= (state->crsbuf)[m][h];
+ e= crsi[j|1]= (state->crsbuf)[m][h|1];
+ (state->crsbuf)[d][e]= i;
+ (state->crsbuf)[d][e|1]= j;
+ sqush2(n,m,state);
+}
+
+int tstcir(short h,short *bstlst,short *dspair,short *skflag,lmpoly_state_t *state)
+/* short h, *bstlst, *dspair, *skflag; */
+{
+ register short d, g, i, j, m, length, *q, *sp;
+ register unsigned char *p, *tp = NULL, *vp; // Added init for tp. JC
+ short k = 0, n, lngsum, badcrs = 0, vertex, lngpos = 0, i1, i2, i3, j1, j2, j3;
+ sp=q= (state->tt);  /* # of overs and unders were passed in through *(state->tt) and [2] */
+ lngsum= n= 0;
+ if (*(state->tt) > (state->tt)[2]) n=2;
+ else if (*(state->tt) == (state->tt)[2]) lngsum=1;   /* need to test BOTH overs & unders */
+ vp= (state->clist);
+ vertex=h;
+ while (vertex-->0) *(sp++)= *(vp++);   /* make a working copy of (state->clist) */
+ i= h-1;
+ if ((h&1)!=(length=0)) vertex= (state->clist)[i];
+ else {
+  if ((state->donlnk)[XCNT]==0){   /* if my check-off list is now invalid */
+   d= (state->numcrs);             /* re-set it all to 0 */
+   while (d-->0) (state->donlnk)[d]= 0;
+   (state->donlnk)[XCNT]=1;
+  }
+  if (((state->donlnk)[(state->clist)[i]]&((state->t)[i]+2))!=0) return(0);
+ }
+ m=j= h/2;
+ *sp= -1;
+ p=state->t;
+ while (j-->length){
+  i=2;
+  while (*q==1024){
+   ++q;
+   ++p;
+  }
+  d= *q;
+  if (*(p++)==0) i+= (state->sign)[d];
+  g= (state->crsbuf)[d][i&6];
+  sp= ++q;
+  while (*sp>=0 && *sp!=g) ++sp;
+  if (*sp<0) j= -10;
+  else if (*sp==vertex) length= -1;
+  else *sp= 1024;
+ }
+ if (j== -11){
+  d=h;
+  sp=q= (state->tt);
+  vp= (state->clist);
+  while (d-->0) *(sp++)= *(vp++);
+  length=0;
+  p=state->t;
+  while (m-->length){
+   i=6;
+   while (*q==1024){
+    ++q;
+    ++p;
+   }
+   d= *q;
+   if (*(p++)==0) i+= (state->sign)[d];
+   g= (state->crsbuf)[d][i&6];
+   sp= ++q;
+   while (*sp>=0 && *sp!=g) ++sp;
+   if (*sp<0) m= -10;
+   else if (*sp==vertex) length= -1;
+   else *sp= 1024;
+  }
+  j-=m;
+ }
+ if (vertex< (length=lngsum=d=m= 0)){  /* if a link */
+  tp=p= state->t;
+  while ((n^*(p++))==0) ++d;  /* find first bad crossing and move it to the */
+  vp= (state->clist)+d;                /* front so that (state->clist) cannot break a string */
+  --p;                        /* of good crossings in a link from */
+  sp= (state->tt);                     /* (state->clist)[h-1] to (state->clist)[0] */
+  i=m= h-d;
+  while (m-->0){
+   (state->donlnk)[*vp]|= *(p++)+2;  /* also check off all list elements to assure */
+   *(sp++)= *(vp++);        /* this link never comes to tstcir again with */
+  }                         /* a different beginning crossing */
+  m=d;
+  vp= (state->clist);
+  while (m-->0){
+   (state->donlnk)[*vp]|= *tp+2;
+   *(sp++)= *vp;
+   *(vp++)= *(tp++);
+  }
+  p=state->t;
+  while (i-->0) *(p++)= *(tp++);
+  vp= (state->clist);
+  while (d-->0) *(p++)= *(vp++);
+  d=m= 0;
+ }
+ else {
+  sp= (state->tt);
+  vp= (state->clist);
+  i= h;
+  while (i-->0) *(sp++)= *(vp++);
+ }
+ p=state->t;
+ g= h|1;         /* find the longest good string & put in "length" */
+ (state->t)[g]= (state->t)[g-1];   /* also, the longest with only 1 bad crossing in "lngsum" */
+ (state->t)[g-1]= n^2;    /* badcrs is the bad crossing in lngsum */
+ while (++i<g){
+  if ((n^*(p++)) ==0) ++d;
+  else {
+   if (d>=length){
+    length=d;
+    k= i-d;
+   }
+   if (m+d>=lngsum){
+    lngsum= m+d+1;
+    if (d==0) tp= p-3;  /* tp points to a generic good crossing in lngsum */
+    else tp= p-2;
+    if (d!= (lngpos=i)) badcrs= (state->tt)[i-d-1];
+    else badcrs= (state->tt)[i];
+   }
+   m=d;
+   d=0;
+  }
+ }
+ i= h/2;
+ if (vertex>=0 && length>=i){ /* can this circuit untwist its vertex? */
+   if (k==0 && (*(state->t)^*p)!=0) return (skinny(1,h,(short) 0,state));
+   else if (k+length+1==h && ((state->t)[k]^*p)==0) return (skinny(1,h,i,state));
+ }
+ if (j==0 && length>=i){     /* circuit is not skinny, and can be skinnied */
+  if (vertex>= (i1=0) && length==i){
+   m= k+i;
+   *(p-1)= *p;     /* infinite loops happen when the loose strand is shared */
+   d= (state->tt)[m-1];        /* between 2 intersecting circuits -- skflag prevents */
+   while (m>=k){           /* looping, allows me to skinny once per bust!   */
+    vp= (state->crsbuf)[(state->tt)[m]];
+    if ((state->t)[m]!=0) j=2;
+    if (vp[j]==d || vp[j^4]==d) m=i1= -1;  /* possible inf. loop circuit! */
+    else j=0;
+    m-=i;
+    if (k==0) d= (state->tt)[h-1];
+    else d=(state->tt)[k-1];
+   }
+  }
+  if (i1== (j=0)) return (skinny(0,h,k,state)); /* OK to skinny it! */
+  if (*skflag==0){
+   *skflag=1;
+   return (skinny(0,h,k,state)); /* OK to do ONE skinny */
+  }
+ }
+ if (lngsum>=i){
+  if (lngsum == h-2) lngsum=h;   /* a link w/only 2 crossings vanishes! */
+  d= (lngsum-i)*8;  /* and find all the extra benefits of badcrs */
+  if (j==0) ++d;    /* give one point for doing a skinny */
+  if (vertex>=0){
+   if (lngpos==lngsum && (*tp^*p)!=0) d+=4;
+   else if (lngpos+1==h && (*tp^*p)==0) d+=4;
+   else if (lngsum+1==h) d+=4;
+  }
+  if (d==8 && length==lngsum-1) d=0; /* this is really just a fake bigon */
+  if (j==0 && d!=0 && (state->numcrs)+ 2*(i-lngsum)>11) d+=2;
+  if ((k=lngpos-lngsum) > (m=0) && d!=0){ /* k<0 if a 2-crossing link was counted as h long */
+   if ((state->t)[k]!=0) m= (state->sign)[(state->tt)[k]];
+   if ((state->crsbuf)[(state->tt)[k]][m] == (state->tt)[k-1]) ++d;
+   if (k!=1 && ((state->t)[k-2]^(state->t)[k-1])!=0) ++d;
+  }
+  if (lngpos+1 != g && d!=0){
+   if ((state->t)[lngpos]!= (m=0)) m= (state->sign)[(state->tt)[lngpos]];
+   if ((state->crsbuf)[(state->tt)[lngpos]][m] == (state->tt)[lngpos-1]) ++d;
+   if (lngpos+2 !=g && ((state->t)[lngpos+1]^(state->t)[lngpos])!=0) ++d;
+  }
+  if (d<6 && j==0){    /* min. one point for making skinny circuits */
+   if (bstlst[badcrs]==0) bstlst[badcrs]= *dspair= 1;
+  }
+  else {
+   *dspair=1;
+   (state->donlnk)[badcrs]=0;  /* from badcrs's perspective, link may be better */
+   if (bstlst[badcrs]<0){
+    if (bstlst[badcrs]> -8-d) bstlst[badcrs]= -8-d;
+   }
+   else if (bstlst[badcrs]<d) bstlst[badcrs]=d;
+  }
+ }
+ else {
+  k= h/4;
+  if (*dspair<k) k= *dspair;
+  m=1;
+  while (m++<k){
+   tp=state->t;
+   *(state->gapsto)=j= 0;
+   d= m+1;
+   while (--d>0){
+    while ((*(tp++)^n) ==0) ++j;
+    (state->gapsto)[d]= j++;
+   }
+   while (j<g){
+    while ((*(tp++)^n) ==0) ++j;
+    length= (j-(state->gapsto)[d]-i)*4 +2;
+    if (length>0 && (m<*dspair || (m== *dspair && length>=dspair[1]))){
+     if (m<*dspair || length>dspair[1]) dspair[3]=0;
+     *dspair=m;
+     dspair[1]= length;
+     length=lngpos= 0;
+     if (d!=m) lngpos= d+1;
+     j1= j;
+     j2= (state->gapsto)[lngpos];
+     h=m;
+     while (h-->0){
+      if (++lngpos>m) lngpos=0;
+      vertex= (state->tt)[j2];
+      j3= (state->gapsto)[lngpos];
+      lngsum= j1-j3;
+      p= (state->crsbuf)[vertex];
+      i1= (state->sign)[vertex];
+      i2= p[i1];
+      i3= p[i1|1];
+      i1^=4;
+      if ((state->crsbuf)[i2][(i3+i1)&6]== p[4]){
+	//if ((p[5]^i3&2) !=0) lngsum= -1 -lngsum;
+	/* According to wikipedia, the & should come first, so this is */
+	if ((p[5]^(i3&2)) !=0) lngsum= -1 -lngsum;
+       else lngsum= -10 -lngsum;
+      }
+      i2= p[i1];
+      i3= p[i1|1];
+      if ((state->crsbuf)[i2][(i3+i1)&6]== *p){
+	if ((p[1]^(i3&2)) !=0){  // The same is true here
+        if (lngsum<0) lngsum-=5;
+        else lngsum= -1 -lngsum;
+       }
+       else if (lngsum<0) lngsum-= 10;
+       else lngsum= -10 -lngsum;
+      }
+      if (lngsum<0){
+       if (length>lngsum){
+        length= lngsum;
+        badcrs= vertex;
+       }
+      }
+      else if (length>=0 && length<lngsum){
+       length= lngsum;
+       badcrs= vertex;
+      }
+      j1=j2;
+      j2=j3;
+     }
+     i1= dspair[3];
+     if (length<0){
+      if (i1>length){
+       dspair[2]= badcrs;
+       dspair[3]= length;
+      }
+     }
+     else if (i1>=0 && i1<length){
+      dspair[2]= badcrs;
+      dspair[3]= length;
+     }
+     k=0;
+    }
+    (state->gapsto)[d--]= j++;
+    if (d<0) d=m;
+   }
+  }
+ }
+ return(0);
+}
+
+int skinny(int twist,short lencir,short lngpos,lmpoly_state_t *state)
+/* short lencir, lngpos;
+   int twist; */
+{
+ register short a, b, g, n, vnum, dir, *c;
+ register unsigned char *p, *q, *cp;
+ short i, j, k, m, last, f, v2; //*sp;
+ vnum= -1;     /* assume circuit is a link */
+ dir= 6;       /* and I will be placing loose strand LEFT of fixed strand */
+ if ((lencir&1)!= (b=0)){
+  vnum= (state->tt)[lencir-1];                /* if not a link */
+  if (((state->t)[lencir-1]=(state->t)[lencir]) ==0) b= (state->sign)[vnum];
+    /* tstcir wrecks (state->t)[lencir-1] on non-links but saves a copy! */
+ }
+ if (vnum>=0){
+  g=vnum;      /* SET DIR PROPERLY!! */
+  while (b>=0){        /* if VERTEX is left of fixed strand, set dir RIGHT */
+   p=(state->crsbuf)[g]+b;  /* there is also a special case if I am untwisting */
+   g= *p;
+   b= *(p+1)^4;  /* walk out from the vertex -- do I run into the circuit? */
+   a=lencir;
+   c= (state->tt);
+   while (a>0 && *(c++)!=g) --a;
+   if (a>0){
+    if (*--c!=vnum){
+     if (b==0) dir= (state->sign)[*c]^4;     /* yes */
+     else dir=b;
+    }
+    else {
+     g= *(state->tt);     /* no -- I ran back into the vertex again */
+     b=6;              /* trace the first left region of the circuit */
+     if (*(state->t)==0) b=(state->sign)[g]-2;
+     n= (state->tt)[lencir-2];  /* does it connect to the other side of the circuit? */
+     while (g!=vnum && g!=n){
+      p= (state->crsbuf)[g]+b;
+      g= *p;
+      b= (*(p+1)+2)&6;
+     }
+     if (g==vnum) dir=2;  /* no -- vertex is left of fixed strand */
+    }
+    b= -1;
+   }
+  }
+  if (twist!=0) dir^=4;
+ }
+ a=j= lencir/2;   /* to move strand, remove it - then reinsert crossings by */
+ p= (state->clist);       /* hand.  Put moveable crossings in (state->clist) & call rmcir */
+ c= (state->tt)+lngpos;
+ while (a-->0) *(p++)= *(c++);
+ --(state->numlps);                   /* rmcir adds a (state->numlps) for fun */
+ rmcir (j,(short) 0,a,(state->t)+lngpos,1,state);
+ i=k= lngpos+j;
+ if (vnum>=0){
+  --lencir;
+  if (lngpos==0 && twist==0) twist= -1;
+ }
+ else if (i==lencir) i=0;
+ if (twist> (m=b= 0) && lngpos!=0){
+  if ((state->t)[lencir]==0) b= (state->sign)[vnum];
+  last= (state->crsbuf)[vnum][b];   /* set last properly if I am untwisting vertex */
+  f= (state->crsbuf)[vnum][b|1];
+ }
+ else {
+  last= (state->tt)[i];  /* set last to automatically hook up one of the bigon ends */
+  f= 4;
+  if ((state->t)[i]==0) f= (state->sign)[last]^4;
+ }
+ if ((state->t)[--k]==0) m=4;
+ while (j-->0){
+  if (i==lencir) i=0;
+  g=dir;
+  vnum= (state->tt)[i];   /* vnum is the crossing on the fixed strand */
+  b= (state->sign)[vnum];
+  if ((state->t)[i++]==0) g+=b;
+  else b^=4;
+  p= (state->crsbuf)[last]+f;  /* reconnect the loose end from the last loop to the */
+  *(p++)= n= (state->tt)[k--];  /* present n */
+  q= (state->crsbuf)[n];   /* n is the crossing on the loose strand - q points to it */
+  (state->sign)[n]= a= b^m;   /* this calculation for (state->sign)[n] is a 2 step trick */
+  if (m==0){
+   a=0;
+   b=dir;
+  }
+  else b^=dir;
+  *p=a;
+  q[a]= last;   /* reconnect last going FOREWARDS along loose strand from n */
+  q[a+1]=f;
+  f= a^4;
+  g&=6;
+  cp= (state->crsbuf)[vnum]+g;
+  v2= *cp;             /* v2 is one step out the dir branch of fixed strand */
+  *(cp++)= last= n;
+  a= *cp;    /* reconnect vnum to n instead (insert n) */
+  *cp=b;
+  p= q+b;
+  *(p++)= vnum;   /* mutual from n to vnum */
+  *p=g;
+  b^=4;
+  p= (state->crsbuf)[v2]+a;  /* insert n from v2 side */
+  *(p++)= n;
+  *p=b;
+  p= q+b;     /* mutual connect from n */
+  *(p++)= v2;
+  *p=a;
+ }
+ if (twist!=0){       /* reconnect the loose end properly */
+  vnum=(state->tt)[lencir];
+  if ((state->t)[lencir]!= (dir=b=0)) dir=b=(state->sign)[vnum];
+  if (twist>0){
+   p= (state->crsbuf)[vnum];
+   if (lngpos==0){
+    n= p[b^4];
+    b= p[b^5];
+    if ((state->t)[lencir]== (dir=0)) dir=(state->sign)[vnum];
+   }
+   else {
+    n= (state->tt)[--i];
+    if ((state->t)[i]== (b=0)) b=(state->sign)[n];
+   }
+   a= p[dir];
+   g= p[dir|1];
+   k= p[dir^5];
+   dir= p[dir^4];
+   (state->crsbuf)[a][g]= dir;
+   (state->crsbuf)[a][g|1]=k;
+   (state->crsbuf)[dir][k]=a;
+   (state->crsbuf)[dir][k|1]=g;
+  }
+  else twist=0;
+ }
+ else if ((state->t)[--i]== (b=0)) b= (state->sign)[(state->tt)[i]];
+ if (twist==0) n= (state->tt)[i];
+ (state->crsbuf)[last][f]= n;
+ (state->crsbuf)[last][f|1]= b;
+ (state->crsbuf)[n][b]= last;
+ (state->crsbuf)[n][b|1]= f;
+ if (twist!=0) squish(vnum,state); /* if I untwisted vertex, now eliminate it */
+ return(1);
+}
-- 
2.43.0


From 9b740fa7a0b785f19d5b3dd8865c594bae94a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 105/121] fix: splitpd crashed when the name of the input file
 did not contain .pdstor

---
 src/splitpd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/splitpd.c b/src/splitpd.c
index 4da1ea9..016bd69 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -207,7 +207,7 @@ int main(int argc,char *argv[])
 
   char *basename = strdup(file->basename[0]);
   char *extension_start = strstr(basename,".pdstor");
-  *extension_start = 0;
+  if (extension_start != NULL) { *extension_start = 0; }
  
   for(pd = pd_stor_firstelt(pdstor),
 	subpd = pd_new_pdstor();
-- 
2.43.0


From 617d119b3915e14dce6d909276e1e71703683899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 106/121] fix: splitpd divided by zero when asked for no pieces
 or for pieces of size zero

---
 src/splitpd.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/splitpd.c b/src/splitpd.c
index 016bd69..c76a080 100644
--- a/src/splitpd.c
+++ b/src/splitpd.c
@@ -173,11 +173,25 @@ int main(int argc,char *argv[])
   
   if (pieces->count > 0) {
 
+    if (pieces->ival[0] < 1) {
+
+      printf("splitpd: the number of pieces must be at least 1\n");
+      exit(1);
+
+    }
+
     subpdsize = ceil((float)(elts)/(float)(pieces->ival[0]));
     subpdcount = ceil((float)(elts)/(float)(subpdsize));
     
   } else if (size->count > 0) {
 
+    if (size->ival[0] < 1) {
+
+      printf("splitpd: the size of each piece must be at least 1\n");
+      exit(1);
+
+    }
+
     subpdsize = size->ival[0];
     subpdcount = ceil((float)(elts)/(float)(subpdsize));
 
-- 
2.43.0


From aff293e8f74d7bac39f9ea8d336e96cd9c4541da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 107/121] fix: orientedshadows processed only the first of its
 input files

---
 tools/orientedshadows.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index 7661680..0428a8d 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -379,9 +379,9 @@ int main(int argc,char *argv[]) {
     printf("\n"
 	   "Report (ISOMORPHISM)          \n"
 	   "--------------------------------\n");
-    for(i=1;i<10;i++) {
-      printf("%5d %2d-component link shadows\n",by_components[i],i);
-      maxtotal += pow(2.0,i)*by_components[i];
+    for(j=1;j<10;j++) {
+      printf("%5d %2d-component link shadows\n",by_components[j],j);
+      maxtotal += pow(2.0,j)*by_components[j];
     }
     printf("-----------------------------------\n\n");
     printf("total number of orientations: %g\n",maxtotal);
-- 
2.43.0


From 92dc0cb4d082be87f323ad67b94b2910f256e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 108/121] fix: orientedshadows wrote past its table of
 component counts for links of ten or more components

---
 tools/orientedshadows.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index 0428a8d..4c0c434 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -291,7 +291,7 @@ int main(int argc,char *argv[]) {
 
       }
 
-      by_components[inpd->ncomps]++;
+      if (inpd->ncomps < 10) { by_components[inpd->ncomps]++; }
 
       int i;
 
-- 
2.43.0


From 729e4c56c5cb09ed68d0cc51b17943924960f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 109/121] fix: processpdstor, orientedshadows, shadow2diagram
 and carbonizepd crashed on a damaged pd code in the input instead of
 reporting it

---
 src/carbonizepd.c       | 7 ++++++-
 tools/orientedshadows.c | 7 ++++++-
 tools/processpdstor.c   | 8 ++++++++
 tools/shadow2diagram.c  | 7 ++++++-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index d0dbc4a..d58b037 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -878,7 +878,12 @@ int main(int argc,char *argv[]) {
 
       }
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
 
       if (weakchecking->count == 0) { 
 
diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index 4c0c434..bf6da94 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -282,7 +282,12 @@ int main(int argc,char *argv[]) {
       pd_code_t *inpd;
       inpd = pd_read(in);
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
 
       if (!pd_ok(inpd)) {
 
diff --git a/tools/processpdstor.c b/tools/processpdstor.c
index 226a7f4..3170a53 100644
--- a/tools/processpdstor.c
+++ b/tools/processpdstor.c
@@ -365,6 +365,14 @@ int main(int argc,char *argv[]) {
 
       pd_code_t *inpd;
       inpd = pd_read(in);
+
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
+
       pd_uid_t inuid = inpd->uid;
       pd_idx_t incross = inpd->ncross;
 
diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index dccfcdd..881d7fc 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -302,7 +302,12 @@ int main(int argc,char *argv[]) {
       pd_code_t *inpd;
       inpd = pd_read(in);
 
-      assert(inpd != NULL);
+      if (inpd == NULL) {
+
+	printf("fail (couldn't read pd code %d)\n",j);
+	exit(1);
+
+      }
 
       if (!pd_ok(inpd)) {
 
-- 
2.43.0


From 013fe09a11d49878ef092ac55c2837929576eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 110/121] fix: shadow2diagram could not create its output file
 unless -o was given

---
 tools/shadow2diagram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index 881d7fc..4a6e71f 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -244,7 +244,7 @@ int main(int argc,char *argv[]) {
       }	
 	
       printf("opening output file %s...",ofname);
-      out = fopen(ofname,"rw");
+      out = fopen(ofname,"w");
 
       if (out == NULL) {
 
-- 
2.43.0


From 5a1e4002498e8518a0c519fcb3fa504c553c3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 111/121] fix: carbonizepd --weak-checking overran its buffer
 while reading the hash

---
 src/carbonizepd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index d58b037..4195981 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -47,7 +47,7 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
   /* pd   <hash> <uid> */ /* Remember that the hash is base64 encoded using a-zA-Z;: character set */
 
   unsigned long int input_temp,input_temp2,input_temp3,input_temp4;
-  char hash[PD_HASHSIZE];
+  char hash[PD_HASHSIZE+1];
   pd_uid_t uid;
 
   /* The first thing we do is spin through whitespace until we encounter a "p" */
-- 
2.43.0


From 25007ebb2c9475d7c8688505707ff01458ab2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 112/121] fix: orientedshadows wrote to a closed file when
 given -o and several input files

---
 tools/orientedshadows.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/tools/orientedshadows.c b/tools/orientedshadows.c
index bf6da94..6e27d80 100644
--- a/tools/orientedshadows.c
+++ b/tools/orientedshadows.c
@@ -199,6 +199,7 @@ int main(int argc,char *argv[]) {
   printf("orientedshadows operating on %d pdstor files\n",infile->count);
 
   FILE *out;
+  pd_stor_t *newpdstor = NULL;
 
   if (outfile->count != 0) {
 
@@ -274,7 +275,7 @@ int main(int argc,char *argv[]) {
     printf("expanding and generating new pdstor...\n");
     int j;
     int codes_added = 0;
-    pd_stor_t *newpdstor = pd_new_pdstor();
+    if (newpdstor == NULL) { newpdstor = pd_new_pdstor(); }
     int by_components[10] = {0,0,0,0,0,0,0,0,0,0};
 
     for(j=0;!feof(in);j++) {
@@ -370,14 +371,20 @@ int main(int argc,char *argv[]) {
     printf("done (added %d oriented shadows/%d unique).\n",
 	   codes_added,pds_nelts);
 
-    printf("writing %s...",ofname);
-    pd_write_pdstor(out,newpdstor);
-    printf("done\n");
+    fclose(in);
+
+    if (outfile->count == 0 || i == infile->count-1) { /* A single output file is written at the end. */
+
+      printf("writing %s...",ofname);
+      pd_write_pdstor(out,newpdstor);
+      printf("done\n");
+
+      printf("closing output file %s...",ofname);
+      fclose(out);
 
-    printf("closing output file %s...",ofname);
-    fclose(out);
+      pd_free_pdstor(&newpdstor);
 
-    pd_free_pdstor(&newpdstor);
+    }
 
     double maxtotal = 0;
     
-- 
2.43.0


From 25d0f1f32ccc1d89091c3fe2541216cfa9bd2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:02 +0000
Subject: [PATCH 113/121] fix: shadow2diagram stopped with an error on links
 whose shadow has no symmetry

---
 tools/shadow2diagram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/shadow2diagram.c b/tools/shadow2diagram.c
index 4a6e71f..68d2a25 100644
--- a/tools/shadow2diagram.c
+++ b/tools/shadow2diagram.c
@@ -340,7 +340,7 @@ int main(int argc,char *argv[]) {
       bool no_orientation_preserving_automorphisms = false;
       unsigned int nisos;
       pd_iso_t **isos = pd_build_isos(inpd,inpd,&nisos);
-      if (nisos == 1) {
+      if (nisos == 1 && inpd->ncomps == 1) { /* Links have partial reversals, too. */
 	no_orientation_preserving_automorphisms = true;
       }
       pd_free_isos(&nisos,&isos);
-- 
2.43.0


From ecbfc25ef98d349b8ea65ea5cd91d59f9fb8f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 114/121] fix: pd_reorient_component read out of bounds on the
 diagram without crossings

---
 src/pd_operations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_operations.c b/src/pd_operations.c
index 4f2d270..7d097fa 100644
--- a/src/pd_operations.c
+++ b/src/pd_operations.c
@@ -46,6 +46,8 @@ void pd_reorient_component(pd_code_t *pd, pd_idx_t cmp,pd_or_t orient)
   pd_check_notnull(SRCLOC,"pd",pd);
   pd_check_cmp(SRCLOC,pd,cmp);
 
+  if (pd->ncross == 0) { return; } /* The 0-crossing unknot is its own reverse. */
+
   if (orient == PD_NEG_ORIENTATION) {
 
     /* Several things need to happen in a proper component reversal:
-- 
2.43.0


From 4bc7b5c8d00af333c9fd474d6359b48f849c3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:39 +0000
Subject: [PATCH 115/121] fix: processpdstor --knottypes wrote the polynomial
 of a link and the next header on one line

---
 tools/processpdstor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/processpdstor.c b/tools/processpdstor.c
index 3170a53..4eeaf30 100644
--- a/tools/processpdstor.c
+++ b/tools/processpdstor.c
@@ -558,7 +558,7 @@ int main(int argc,char *argv[]) {
 
 		    char *homfly;
 		    homfly = pd_homfly_timeout(working_pd,120);
-		    fprintf(out,"%s",homfly);
+		    fprintf(out,"%s\n",homfly);
 		    free(homfly);
 
 		  }
@@ -634,7 +634,7 @@ int main(int argc,char *argv[]) {
 
 		    char *homfly;
 		    homfly = pd_homfly_timeout(thispd,120);
-		    fprintf(out,"%s",homfly);
+		    fprintf(out,"%s\n",homfly);
 		    free(homfly);
 
 		  }
-- 
2.43.0


From 4993f3b7d5d0d7998756f11e8367298e21cf6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:09 +0000
Subject: [PATCH 116/121] fix: carbonizepd --weak-checking refused hashes
 containing + or /, which pd_write writes

---
 src/carbonizepd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carbonizepd.c b/src/carbonizepd.c
index 4195981..7fa9e70 100644
--- a/src/carbonizepd.c
+++ b/src/carbonizepd.c
@@ -73,7 +73,7 @@ pd_code_t *pd_read_err_weak(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1026];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9;:] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
-- 
2.43.0


From 5874eb2bceb8c835d164703fc0e74ce468ab32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 117/121] fix: knottype --homfly printed an empty polynomial,
 --latex, --mathematica and --composite garbage

tools/polynomials.c defined the same functions as the library with another
interface, so the statically linked program's pd_homfly_timeout called the
wrong lmpoly_to_latex; the program now uses the library's polynomials.
---
 tools/Makefile.am   |   2 +-
 tools/knottype.c    | 227 ++++++++--------
 tools/polynomials.c | 611 --------------------------------------------
 tools/polynomials.h |  39 ---
 4 files changed, 121 insertions(+), 758 deletions(-)
 delete mode 100644 tools/polynomials.c
 delete mode 100644 tools/polynomials.h

diff --git a/tools/Makefile.am b/tools/Makefile.am
index 460642c..2b3c5bb 100644
--- a/tools/Makefile.am
+++ b/tools/Makefile.am
@@ -18,7 +18,7 @@ shadow2diagram_LDADD = ${top_builddir}/src/libplCurve.la
 shadow2diagram_LDFLAGS = -static
 shadow2diagram_CFLAGS = -I${top_srcdir}/src
 
-knottype_SOURCES = knottype.c polynomials.c polynomials.h ordie.h ordie.c mangle.c mangle.h
+knottype_SOURCES = knottype.c ordie.h ordie.c mangle.c mangle.h
 knottype_LDADD = ${top_builddir}/src/libplCurve.la
 knottype_LDFLAGS = -static
 knottype_CFLAGS = -I${top_srcdir}/src
diff --git a/tools/knottype.c b/tools/knottype.c
index 8239b41..dfc9db7 100755
--- a/tools/knottype.c
+++ b/tools/knottype.c
@@ -44,6 +44,21 @@ int    tmout = 30;
 
 gsl_rng *rng; /* The global random number generator */
 
+char *pdcode_to_ccode(pd_code_t *pd);        /* In plcTopology.c. */
+char *plc_lmpoly(char *ccode,int timeout);   /* In pllmpoly02.c. */
+
+char *raw_homfly(pd_code_t *pd,int timeout)
+/* The HOMFLY polynomial as lmpoly gives it, or NULL if it takes too long. */
+{
+  if (pd->ncross == 0) { return strdup("[[1]]N "); }
+
+  char *ccode = pdcode_to_ccode(pd);
+  char *raw = plc_lmpoly(ccode,timeout);
+  free(ccode);
+
+  return raw;
+}
+
 /****************************** Main procedure ********************************/
 
 int main(int argc,char *argv[])
@@ -125,8 +140,8 @@ int main(int argc,char *argv[])
  
   /* Now we have parsed the arguments and are ready to work. */
 
-  monomial *composite_poly = NULL;
-  int ncomposite_monos = 0;
+  homfly_polynomial_t *composite_poly = NULL;
+  bool composite_failed = false;
 
   if (timeout->count > 0) {
 
@@ -185,101 +200,112 @@ int main(int argc,char *argv[])
     }
     
     if (print_homfly->count > 0) {
-      
+
       char *chomfly;
 
       pd_code_t *core_pd = pd_code_from_plCurve(rng,core);
       chomfly = pd_homfly_timeout(core_pd,tmout);
-      pd_code_free(&core_pd);
-      
-      printf("Homfly polynomial:(%s)\n",chomfly);
-      
-      if (verbose->count > 0) {
-	
-	char *compare;
-	compare = lmpoly_check(chomfly);
-	printf("Homfly check     :(%s)\n",compare);
-	
-	if (strcmp(chomfly,compare)) {
-	  
-	  fprintf(stderr,"Homfly and check homfly DIFFERENT. Aborting run.\n");
-	  exit(1);
-	  
-	}
 
-	free(compare);
+      if (chomfly == NULL) {
+
+	printf("Unable to compute Homfly polynomial\n");
+
+      } else {
+
+	printf("Homfly polynomial:(%s)\n",chomfly);
+	free(chomfly);
 
       }
 
-      free(chomfly);
+      if (verbose->count > 0) {
 
-    }
+	char *raw,*compare;
 
-    if (latex->count > 0) {
+	raw = raw_homfly(core_pd,tmout);
 
-      char *chomfly, *converted;
+	if (raw != NULL) {
+
+	  compare = lmpoly_check(raw);
+	  printf("Homfly check     :(%s)\n",compare);
+
+	  if (strcmp(raw,compare)) {
+
+	    fprintf(stderr,"Homfly and check homfly DIFFERENT. Aborting run.\n");
+	    exit(1);
+
+	  }
+
+	  free(compare);
+	  free(raw);
+
+	}
+
+      }
 
-      pd_code_t *core_pd = pd_code_from_plCurve(rng,core);
-      chomfly = pd_homfly_timeout(core_pd,tmout);
       pd_code_free(&core_pd);
-      
-      converted = lmpoly_to_latex(chomfly);
-      printf("Homfly polynomial (latex): %s\n",converted);
-      free(converted);
-      free(chomfly);
 
     }
 
-    if (mathematica->count > 0) {
+    if (latex->count > 0 || mathematica->count > 0 || composite->count > 0) {
 
-      char *chomfly, *converted;
+      homfly_polynomial_t *poly;
+      char *raw, *converted;
 
       pd_code_t *core_pd = pd_code_from_plCurve(rng,core);
-      chomfly = pd_homfly_timeout(core_pd,tmout);
+      raw = raw_homfly(core_pd,tmout);
       pd_code_free(&core_pd);
-      
-      converted = lmpoly_to_mathematica(chomfly);
-      printf("Homfly polynomial (mathematica): %s\n",converted);
-      free(converted);
-      free(chomfly);
 
-    }     
-     
-    if (composite->count > 0) {
+      if (raw == NULL) {
 
-      if (infilenum == 0) {  /* At first, we just load the polynomial into composite_poly. */
+	printf("Unable to compute Homfly polynomial\n");
+	composite_failed = true;
 
-	char *chomfly;
+      } else {
 
-	pd_code_t *core_pd = pd_code_from_plCurve(rng,core);
-	chomfly = pd_homfly_timeout(core_pd,tmout);
-	pd_code_free(&core_pd);
-	
-	composite_poly = lmpoly_to_polynomial(chomfly,&ncomposite_monos);
-	free(chomfly);
+	poly = lmpoly_to_polynomial(raw);
+	free(raw);
+
+	if (latex->count > 0) {
 
-      } else { /* Afterwards, we take the product of the current homfly with the current composite_poly. */
+	  converted = poly_to_latex(poly);
+	  printf("Homfly polynomial (latex): %s\n",converted);
+	  free(converted);
+
+	}
+
+	if (mathematica->count > 0) {
+
+	  converted = poly_to_mathematica(poly);
+	  printf("Homfly polynomial (mathematica): %s\n",converted);
+	  free(converted);
+
+	}
 
-	monomial *product,*poly;
-	char *chomfly;
-	int poly_monos,product_monos;
+	if (composite->count > 0) {
 
-	pd_code_t *core_pd = pd_code_from_plCurve(rng,core);
-	chomfly = pd_homfly_timeout(core_pd,tmout);
-	pd_code_free(&core_pd);chomfly = pd_homfly_timeout(core_pd,tmout);
+	  if (composite_poly == NULL) {  /* At first, we just load the polynomial into composite_poly. */
 
-	poly = lmpoly_to_polynomial(chomfly,&poly_monos);
-	product = product_polynomial(poly,poly_monos,composite_poly,ncomposite_monos,&product_monos);
-	free(poly);
-	free(composite_poly);
+	    composite_poly = poly;
+	    poly = NULL;
 
-	composite_poly = product;
-	ncomposite_monos = product_monos;
+	  } else { /* Afterwards, we take the product of the current homfly with the current composite_poly. */
+
+	    homfly_polynomial_t *product;
+
+	    product = product_polynomial(poly,composite_poly);
+	    homfly_polynomial_free(&composite_poly);
+	    composite_poly = product;
+
+	  }
+
+	}
+
+	homfly_polynomial_free(&poly);
 
       }
 
     }
-	 
+
     if (classify->count > 0) {
 
       plc_knottype *kt;
@@ -404,51 +430,38 @@ int main(int argc,char *argv[])
   
   /* We now output the composite polynomial, if it exists. */
   
-  if (print_homfly->count > 0 && composite->count > 0) {
-    
-    char *chomfly;
-    chomfly = polynomial_to_lmpoly(composite_poly,ncomposite_monos);
-    printf("\nComposite Homfly polynomial:(%s)\n",chomfly);
-    
-    if (verbose->count > 0) {
-      
-      char *compare;
-      compare = lmpoly_check(chomfly);
-      printf("Composite Homfly check     :(%s)\n",compare);
-      
-      if (strcmp(chomfly,compare)) {
-	
-	fprintf(stderr,"Homfly and check homfly DIFFERENT. Aborting run.\n");
-	exit(1);
-	
-      }
-      
-      free(compare);
-      
-    }
-    
-    free(chomfly);
-    
-  }
-  
-  if (latex->count > 0) {
-    
-    char *converted;
-    converted = poly_to_latex(composite_poly,&ncomposite_monos);
-    printf("Composite Homfly polynomial (latex): %s\n",converted);
-    free(converted);
-    
-  }
-  
-  if (mathematica->count > 0) {
-    
+  if (composite_poly != NULL && !composite_failed) {
+
     char *converted;
-    converted = poly_to_mathematica(composite_poly,&ncomposite_monos);
-    printf("Composite Homfly polynomial (mathematica): %s\n",converted);
-    free(converted);
-    
+
+    if (print_homfly->count > 0) {
+
+      converted = poly_to_latex(composite_poly);
+      printf("\nComposite Homfly polynomial:(%s)\n",converted);
+      free(converted);
+
+    }
+
+    if (latex->count > 0) {
+
+      converted = poly_to_latex(composite_poly);
+      printf("Composite Homfly polynomial (latex): %s\n",converted);
+      free(converted);
+
+    }
+
+    if (mathematica->count > 0) {
+
+      converted = poly_to_mathematica(composite_poly);
+      printf("Composite Homfly polynomial (mathematica): %s\n",converted);
+      free(converted);
+
+    }
+
   }
-  
+
+  homfly_polynomial_free(&composite_poly);
+
   if (!QUIET) { printf("clearing memory..."); fflush(stdout); }
 
   gsl_rng_free(rng);
diff --git a/tools/polynomials.c b/tools/polynomials.c
deleted file mode 100644
index 0a7f543..0000000
--- a/tools/polynomials.c
+++ /dev/null
@@ -1,611 +0,0 @@
-/*************
-
-	polynomials.c : Procedures to convert the output of pllmpoly to a standard polynomial form and manipulate them. 
-
-
-***************/
-
-
-#include<polynomials.h>
-
-
-int monomial_cmp(const void *A,const void *B)
-{
-  monomial *a,*b;
-  a = (monomial *)(A);
-  b = (monomial *)(B);
-
-  if (a->m + a->l == b->m + b->l) {
-
-    if (a->l == b->l) {
-
-      return b->m - a->m;
-
-    } else {
-
-      return b->l - a->l;
-
-    }
-
-  } else {
-
-    return (b->m + b->l - a->m - a->l);
-
-  }
-
-}
- 
-
-int initiallpower(char start[]) 
-
-/* Reads forward in the string, counting blocks of stuff separated by whitespace until you get to a [ character. */
-
-{
-  int pwr=0;
-  int i;
-  
-  for(i=0;start[i] != '[' && start[i] != 0;i++) { 
-    
-    if (isspace(start[i])) {
-      for(;isspace(start[i]) && start[i] != 0;i++)
-	;
-    } /* Skip whitespace */
-    if (start[i] != '[' && start[i] != 0) {
-      for(;!isspace(start[i]) && start[i] != 0;i++)
-	;
-      pwr--;
-    } /* Skip number, count it. */
-    i--;
-
-  }
-  return pwr;
-}
-
-monomial *lmpoly_to_polynomial(char *lmout,int *nmonomials)
-
-/* We convert a polynomial in lmpoly's rather odd format 
-
-   [-1 0 -2 0 [0]]N[0]N1 0 [0]N
-
-   to an array of monomials. The way this works is that the numbers are coefficients
-   of monomials in the form l^i m^j. We determine i and j in the following way.
-
-   1) The row inside []'s ([1 0 [3] 0 1]) is the m^0 row.
-   2) Rows with a common power of m are delimited by N's.
-   3) Inside a row, the 0 power of n has the coefficient in brackets.
-
-   This gives rise to the following algorithm. 
-
-   a) Copy the string to a new buffer. 
-   b) Count N's until we find something enclosed by [ [ ] ]. 
-      This gives you the initial power of m.
-   c) Delete the extra brackets from the copy.
-   d) Now scan forward across the polynomial:
-
-         Every time you hit an N, increment the power of m. 
-	 Then scan forward to find the current power of l, 
-	 which is - the number of spaces until the next [.
-	 
-   e) Every time you read a number, add it to the polynomial and increment the l power.
-   
-*/
-
-{
-
-  /* Step a */
-
-  char *lmoutput;
-
-  lmoutput = calloc_or_die(strlen(lmout)+10,sizeof(char));
-  strcpy(lmoutput,lmout);
-
-  /* Step b */
- 
-  int i;
-  int depth = 0;
-  int start = 0,end = 0;
-  int itflag = false;
-  int initialmpower = 0;
-
-  /* First, we find the start [ and end ] of the middle section. */
-
-  for (i=0;lmoutput[i];i++) {
-
-    if (lmoutput[i] == '[') {
-
-      if (depth == 0) { start = i; depth++; }
-      else { itflag = true; }
-
-    }
-
-    if (lmoutput[i] == ']') { 
-
-      depth--; 
-
-      if (itflag && depth == 0) { 
-
-	end = i+1;
-	break;  /* Break the enclosing for loop. */
-
-      }
-
-    }
-
-    if (lmoutput[i] == 'N') { 
-
-      initialmpower--;
-
-    }
-
-  }
-
-  lmoutput[start] = ' ';
-  lmoutput[end] = ' ';
-
-  /* We now have the initialmpower set up. */
-  /* We need to count the actual number of monomials in the strings. This 
-     is certainly overestimated the number of spaces in the initial string. */
-
-  int mono_count = 0;
-  for(i=0;lmoutput[i];i++) { mono_count += (lmoutput[i] == ' '); }
-
-  /* Now we can create a buffer for the monomials themselves. */
-
-  monomial *output;
-  output = (monomial *)(calloc(mono_count,sizeof(monomial)));
-  
-  /* Now we're actually ready to read out some monomials. */
-
-  int mpower;
-  int lpower;
-
-  for(i=0,mpower = initialmpower,lpower=initiallpower(&(lmoutput[0])),mono_count=0;lmoutput[i];i++) {
-
-    if(lmoutput[i] == 'N') {
-
-      i++; /* Advance past the N to get initiallpower off on the right foot.*/
-      lpower=initiallpower(&(lmoutput[i])); mpower++;
-      i--; /* Return a step (we'll advance again in the loop increment) */
-
-    } else if (isspace(lmoutput[i]) || lmoutput[i] == ']' || lmoutput[i] == '[') { 
-
-    } else { /* We're at the lmoutput character of a coeff */
-
-      /* Process the coefficient with sscanf */
-
-      if (sscanf(&(lmoutput[i]),"%lf",&(output[mono_count].coeff)) != 1) {
-
-	fprintf(stderr,"Couldn't process string %s.\n",&(lmoutput[i]));
-	exit(1);
-
-      }
-
-      /* Advance the pointer to the next special char */
-
-      for(;!isspace(lmoutput[i]) && lmoutput[i] != '[' && lmoutput[i] != ']' && lmoutput[i] != 'N';i++)
-	;
-      i--;
-
-      /* We only record this if the coefficient was nonzero. */
-
-      if (output[mono_count].coeff != 0.0) {
-
-	/* And fill in the m and l powers */
-	
-	output[mono_count].m = mpower;
-	output[mono_count].l = lpower;
-	
-	mono_count++;
-
-      }
-      
-      /* Finally, increment the l power */
-
-      lpower++;
-
-    }
-
-  }
-
-  free(lmoutput);
-  *nmonomials = mono_count;
-
-  /* Now we put the monomials in standard form by sorting them by total degree, */
-  /* then l degree, then m degree */
-
-  qsort(output,mono_count,sizeof(monomial),monomial_cmp);
-
-  return output;
-
-}
-
-char *poly_to_mathematica(monomial *poly, int *nmonos)
-{
-
-  char *output;
-  output = calloc(128*(*nmonos) + 1,sizeof(char));
-  
-  int i;
-  for(i=0;i<(*nmonos);i++) {
-
-    char buffer[256];
-    
-    if (i > 0) { sprintf(buffer," + "); strcat(output,buffer); }
-
-    sprintf(buffer,"(%g)",poly[i].coeff); strcat(output,buffer);
-
-    if (poly[i].l != 0) { 
-      sprintf(buffer,"*l^(%d)",poly[i].l); strcat(output,buffer);
-    }
-
-    if (poly[i].m != 0) { 
-      sprintf(buffer,"*m^(%d)",poly[i].m); strcat(output,buffer);
-    }
-    
-    
-  }
-
-  return output;
-}
-
-char *poly_to_latex(monomial *poly, int *nmonos)
-{
-
-  char *output;
-  output = calloc(128*(*nmonos) + 1,sizeof(char));
-  
-  int i;
-  for(i=0;i<(*nmonos);i++) {
-
-    char buffer[256];
-    
-    if (i > 0) { 
-
-      if (poly[i].coeff > 0) { sprintf(buffer," + "); strcat(output,buffer); }
-      else { sprintf(buffer," - "); strcat(output,buffer); }
-
-    } else {
-
-      if (poly[i].coeff < 0) { sprintf(buffer,"-"); strcat(output,buffer); }
-
-    }
-
-    if (abs((int)(poly[i].coeff)) != 1) {
-      
-      sprintf(buffer,"%d",abs((int)(poly[i].coeff))); strcat(output,buffer);
-
-    }
-
-    if (poly[i].l != 0) { 
-      sprintf(buffer,"l^{%d}",poly[i].l); strcat(output,buffer);
-    }
-
-    if (poly[i].m != 0) { 
-      sprintf(buffer,"m^{%d}",poly[i].m); strcat(output,buffer);
-    }
-    
-    
-  }
-
-  return output;
-}
-
-char *lmpoly_to_mathematica(char *lmpoly_output)
-{
-  monomial *poly;
-  int nmonomials;
-  char *output;
-  
-  poly = lmpoly_to_polynomial(lmpoly_output,&nmonomials);
-  output = poly_to_mathematica(poly,&nmonomials);
-  free(poly);
-
-  return output;
-}
-
-char *lmpoly_to_latex(char *lmpoly_output)
-{
-  monomial *poly;
-  int nmonomials;
-  char *output;
-  
-  poly = lmpoly_to_polynomial(lmpoly_output,&nmonomials);
-  output = poly_to_latex(poly,&nmonomials);
-  free(poly);
-
-  return output;
-}
-
-monomial *product_polynomial(monomial *pA, int nA, monomial *pB, int nB, int *nProduct) 
-
-/* Compute the product of two polynomials. */
-
-{
-  monomial *rawProduct;
-  int nRaw;
-
-  nRaw = nA*nB;
-  rawProduct = calloc_or_die(nRaw,sizeof(monomial));
-
-  int i,j,k=0;
-
-  for(i=0;i<nA;i++) {
-    for(j=0;j<nB;j++,k++) {
-      rawProduct[k].coeff = pA[i].coeff * pB[j].coeff;
-      rawProduct[k].m = pA[i].m + pB[j].m;
-      rawProduct[k].l = pA[i].l + pB[j].l;
-    }
-  }
-
-  /* The product is now complete, but may have some duplicate entries. */
-  /* We put the rawProduct in standard form by sorting the monomials by total degree, */
-  /* then l degree, then m degree */
-
-  qsort(rawProduct,nRaw,sizeof(monomial),monomial_cmp);
-
-  /* Now we can scan the rawProduct entries; any entries with the same powers must be */
-  /* adjacent after sorting, so we need only read into a new array, advancing to a new */
-  /* monomial if the powers of m and n are different and adding coefficients if they are */
-  /* the same. */
-
-  monomial *finishedProduct;
-  finishedProduct = calloc_or_die(nRaw,sizeof(monomial));
-  int nFin = 0;
-
-  finishedProduct[0] = rawProduct[0];
-
-  for(nFin=0,i=1;i<nRaw;i++) {
-
-    if (rawProduct[i].m == finishedProduct[nFin].m && rawProduct[i].l == finishedProduct[nFin].l) {
-
-      finishedProduct[nFin].coeff += rawProduct[i].coeff;
-
-    } else {
-
-      nFin++;
-      finishedProduct[nFin] = rawProduct[i];
-
-    }
-
-  }
-
-  nFin++;
-  
-  free(rawProduct);
-
-  *nProduct = nFin;
-  return finishedProduct;
-
-}
-
-int lmpoly_cmp(const void *A,const void *B)
-{
-  monomial *a,*b;
-  a = (monomial *)(A);
-  b = (monomial *)(B);
-
-  if (a->m == b->m) {
-
-    return a->l - b->l;
-
-  } else {
-
-    return a->m - b->m;
-
-  }
-}
-
-int lspan(monomial *poly,int nmonos) {
-
-  int lowl = INT_MAX, hil = INT_MIN;
-  int i;
-
-  for(i=0;i<nmonos;i++) {
-
-    lowl = (poly[i].l < lowl) ? poly[i].l : lowl;
-    hil  = (poly[i].l > hil)  ? poly[i].l : hil;
-
-  }
-
-  return hil - lowl;
-}
-
-int mspan(monomial *poly,int nmonos) {
-
-  int lowm = INT_MAX, him = INT_MIN;
-  int i;
-
-  for(i=0;i<nmonos;i++) {
-
-    lowm = (poly[i].m < lowm) ? poly[i].m : lowm;
-    him  = (poly[i].m > him)  ? poly[i].m : him;
-
-  }
-
-  return him - lowm;
-}
-
-
-void write_lmpoly_lcoeff(char *buf,int coeff,int l)
-
-{
-  char writebuf[256];
-
-  if (l == 0) {
-    
-    sprintf(writebuf,"[%d] ",coeff); strcat(buf,writebuf);
-
-  } else {
-
-    sprintf(writebuf,"%d ",coeff); strcat(buf,writebuf);
-
-  }
-
-}
-    
-
-void write_lmpoly_mline(char *buf,monomial *mline,int nmonos)
-  
-/* Writes the line of coefficients to the buffer buf, surrounding 
-   the entire line with brackets if m == 0, the l == 0 coefficient
-   with a bracket, and terminating the line with an N. */
-
-{
-
-  /* First, if we end before the 0 power of l, add a last monomial
-     for the line to make sure that we seem to end at this power. */
-
-  if (mline[nmonos-1].l < 0) {
-
-    mline[nmonos].coeff = 0;
-    mline[nmonos].m = mline[0].m;
-    mline[nmonos].l = 0;
-
-    nmonos++;
-
-  }
-
-  /* Similarly, if the first l power is > 0, we need to add a fake starting entry. */
-
-  if (mline[0].l > 0) {
-
-    int i; for(i=nmonos;i>0;i--) { mline[i] = mline[i-1]; }
-    
-    mline[0].coeff = 0;
-    mline[0].m = mline[1].m;
-    mline[0].l = 0;
-
-    nmonos++;
-
-  }
-
-  /* Now initialize the line. */
-
-  char writebuf[256];
-
-  if (mline[0].m == 0) {
-
-    sprintf(writebuf,"["); strcat(buf,writebuf);
-
-  }
-
-  /* Now write the first coefficient */
-
-  write_lmpoly_lcoeff(buf,(int)(mline[0].coeff),(int)(mline[0].l));
-
-  int i;
-
-  for(i=1;i<nmonos;i++) {
-
-    /* Fill in any placeholders between the last power of l and us. */
-
-    int lpow = mline[i-1].l+1;
-    for(;lpow<mline[i].l;lpow++) { write_lmpoly_lcoeff(buf,0,lpow); }
-
-    /* Now actually write the coefficient */
-    
-    write_lmpoly_lcoeff(buf,(int)(mline[i].coeff),(int)(mline[i].l));
-
-  }    
-
-  /* This is a total hack, but we just wrote an extra space to buf. Kill it. */
-  buf[strlen(buf)-1] = 0;
-
-  if (mline[0].m == 0) {
-
-    sprintf(writebuf,"]"); strcat(buf,writebuf);
-
-  }
-  
-  sprintf(writebuf,"N"); strcat(buf,writebuf);
-
-}
-
-char *polynomial_to_lmpoly(monomial *poly,int nmonos)
-
-/* Returns a buffer giving the polynomial in the (slightly weird) lmpoly format */
-
-{
-  monomial *sortPoly;
-  int i;
-
-  sortPoly = calloc_or_die(nmonos+1,sizeof(monomial));
-  for(i=0;i<nmonos;i++) { sortPoly[i] = poly[i]; }
-  
-
-  qsort(sortPoly,nmonos,sizeof(monomial),lmpoly_cmp);
-
-  /* We now have a buffer in the sortpoly format. The size of the output string is funny;
-     it actually depends on the l and m power values. We can estimate it by computing the 
-     span in m and the span in l. */
-
-  char *outbuf;
-  outbuf = calloc_or_die(lspan(sortPoly,nmonos)*mspan(sortPoly,nmonos)*256,sizeof(char));
-
-  monomial *mline;
-  int lsize;
-  char writebuf[256];
-  
-  mline = calloc_or_die(nmonos+1,sizeof(monomial));
-  lsize = 1;
-  mline[0] = sortPoly[0];
-  
-  for(i=1;i<nmonos;i++) {
-
-    if (mline[lsize-1].m == sortPoly[i].m) { /* Part of the same line, push onto it. */
-
-      mline[lsize] = sortPoly[i];
-      lsize++;
-
-    } else { /* We have finished the line. */
-
-      /* First, we dispose of the past line. */
-
-      write_lmpoly_mline(outbuf,mline,lsize);
-
-      int mcount = mline[0].m+1;
-      for(;mcount<sortPoly[i].m;mcount++) { /* Add placeholder lines. */
-
-	sprintf(writebuf,"[0]N");strcat(outbuf,writebuf);
-
-      }
-
-      /* Now we start a new line */
-
-      mline[0] = sortPoly[i];
-      lsize = 1;
-
-    }
-
-  }
-
-  /* We have a last line, so write it. */
-  write_lmpoly_mline(outbuf,mline,lsize);
-
-  /* Now add a trailing space */
-  sprintf(writebuf," "); strcat(outbuf,writebuf);
-
-  free(mline);
-  free(sortPoly);
-
-  return outbuf;
-}
-
-
-char *lmpoly_check(char *lmpoly_output)
-
-/* This procedure, used for debugging, converts lmpoly to polynomial form and back. */
-
-{
-  
-  monomial *poly;
-  int nmonos;
-  char *cvtback;
-
-  poly = lmpoly_to_polynomial(lmpoly_output,&nmonos);
-  cvtback = polynomial_to_lmpoly(poly,nmonos);
-  free(poly);
-  
-  return cvtback;
-}
-  
diff --git a/tools/polynomials.h b/tools/polynomials.h
deleted file mode 100644
index d931477..0000000
--- a/tools/polynomials.h
+++ /dev/null
@@ -1,39 +0,0 @@
-/*****
-
-	polynomials.h : Definitions for the polynomials source file.
-
-
-********/
-#ifdef HAVE_CONFIG_H
-#include <config.h>
-#endif
-
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <stdbool.h>
-#include <ctype.h>
-#include <limits.h>
-
-#include"ordie.h"
-
-typedef struct monostruct {
-
-	double coeff;
-	int l;
-	int m;
-
-} monomial;
-
-monomial *lmpoly_to_polynomial(char *lmoutput,int *nmonomials);
-char     *lmpoly_to_mathematica(char *lmpoly_output);
-char     *lmpoly_to_latex(char *lmpoly_output);
-
-char *poly_to_mathematica(monomial *poly, int *nmonos);
-char *poly_to_latex(monomial *poly, int *nmonos);
-
-monomial *product_polynomial(monomial *pA, int nA, monomial *pB, int nB, int *nProduct);
-char     *polynomial_to_lmpoly(monomial *poly,int nmonos);
-
-char *lmpoly_check(char *lmpoly_output);
-
-- 
2.43.0


From 2e848ded2c5133271e4d95502ac345d01a676838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 118/121] fix: randompolygon -k kept polygons of other knot
 types when the classification was ambiguous

---
 src/plcrwalk.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/plcrwalk.c b/src/plcrwalk.c
index 3948b13..aafaf8d 100644
--- a/src/plcrwalk.c
+++ b/src/plcrwalk.c
@@ -541,15 +541,22 @@ int main(int argc, char *argv[]) {
 
 	  for (check = 0; check < nposs; check++) {
 
-	    if (thistype->cr[check] == searchtype->cr[check] &&
-		thistype->ind[check] == searchtype->ind[check]) {
+	    bool match = (thistype[check].nf == searchtype->nf);
+	    int fac;
 
-	      passes_knottype = true;
+	    for (fac = 0; match && fac < searchtype->nf; fac++) {
+
+	      match = (thistype[check].cr[fac] == searchtype->cr[fac] &&
+		       thistype[check].ind[fac] == searchtype->ind[fac]);
 
 	    }
 
+	    if (match) { passes_knottype = true; }
+
 	  }
 
+	  free(thistype);
+
 	}
 
       }
-- 
2.43.0


From 966bcb08c71b7992b3f413e1eb2405ed802f38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:46 +0000
Subject: [PATCH 119/121] fix: ropelength -q joined the infinite ropelength of
 one file to the value of the next

---
 src/ropelength.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ropelength.c b/src/ropelength.c
index 634aff1..757cfa9 100755
--- a/src/ropelength.c
+++ b/src/ropelength.c
@@ -200,7 +200,7 @@ int main(int argc,char *argv[]) {
     }
     if (thickness == 0) {
       if (q->count > 0) {
-	printf("inf");
+	printf("inf\n");
       } else {	
 	printf("%s:Ropelength: infinity  Thickness: %f\n",
 	       knotfiles->filename[filecnt], thickness);
-- 
2.43.0


From 507bccc5fe04bdbfa7bc9bacbd0b3e010059ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:16 +0000
Subject: [PATCH 120/121] fix: plcurvature aborted on an input file it could
 not open instead of reporting it

---
 src/plcurvature.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plcurvature.c b/src/plcurvature.c
index b497fce..061f87a 100755
--- a/src/plcurvature.c
+++ b/src/plcurvature.c
@@ -91,7 +91,10 @@ int main(int argc, char *argv[]) {
   }
 
   vectfile = fopen(filename->filename[0],"r");
-  assert(vectfile != NULL);
+  if (vectfile == NULL) {
+    fprintf(stderr,"plcurvature: Couldn't open file %s.\n",filename->filename[0]);
+    return(EXIT_FAILURE);
+  }
   L = plc_read(vectfile,&err_num,err_str,80);
   fclose(vectfile);
   if (err_num > 0) {
-- 
2.43.0


From 22d11a912eb4ede71e668a269d7a684483751141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:20 +0000
Subject: [PATCH 121/121] fix: pd_iso_consistent leaked a face when it refused
 a facemap

---
 src/pd_isomorphisms.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 015c747..b0e138a 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2210,13 +2210,15 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 				&(after_facemap_face->edge[0]),
 				nedges,iso->facemap->orient)) {
 
-      return pd_error(SRCLOC,
-		      "%FACEMAP takes %d -> %OR %d, but \n"
-		      "%EDGEMAP takes %FACEPTR -> %FACEPTR != %FACEPTR\n"
-		      "with orientation %OR.\n",
-		      NULL,iso->facemap,face,iso->facemap->orient,iso->facemap->perm->map[face],
-		      iso->edgemap,&(pdA->face[face]),&after_edgemap_face,
-		      after_facemap_face);
+      pd_error(SRCLOC,
+	       "%FACEMAP takes %d -> %OR %d, but \n"
+	       "%EDGEMAP takes %FACEPTR -> %FACEPTR != %FACEPTR\n"
+	       "with orientation %OR.\n",
+	       NULL,iso->facemap,face,iso->facemap->orient,iso->facemap->perm->map[face],
+	       iso->edgemap,&(pdA->face[face]),&after_edgemap_face,
+	       after_facemap_face,iso->facemap->orient);
+      free(after_edgemap_face.edge); free(after_edgemap_face.orient);
+      return false;
 
     }
 
-- 
2.43.0

