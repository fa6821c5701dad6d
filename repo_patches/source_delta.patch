From 07ce2a6ca722034e98e80198e0b8a2c7178abe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 01/73] fix: deleting a set passes its delete policy to the
 element destructor

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 9e70323..45df800 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2892,7 +2892,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 88ca5ff..ccf7d5e 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From 50c6345ae2add1e6f362dff166017dd91804f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 02/73] fix: adding the same element to a set again changes
 nothing

---
 release/cee.c | 2 ++
 set.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 45df800..49c8301 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2952,6 +2952,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return; /* already there */
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
diff --git a/set.c b/set.c
index ccf7d5e..a7932ee 100644
--- a/set.c
+++ b/set.c
@@ -111,6 +111,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return; /* already there */
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
-- 
2.43.0


From d472f69df9853ace07e70ef61b33b14df4fe022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 03/73] fix: removing an element from a set gives up the set's
 ownership of it

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 49c8301..a892c5b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3030,6 +3030,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index a7932ee..b46827d 100644
--- a/set.c
+++ b/set.c
@@ -189,6 +189,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From cc4ffc2bc479e14cc10ab76a892b18cc347a9fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 04/73] fix: a NULL set is an empty set, as documented

---
 release/cee.c | 4 ++++
 set.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index a892c5b..1886b12 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2937,11 +2937,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -2990,6 +2992,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3022,6 +3025,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index b46827d..33258d0 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -149,6 +151,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -181,6 +184,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From ed34ed2106674bf1a237b5cc9d006a8e4d72f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 05/73] fix: finding or removing in a NULL map returns NULL, as
 documented

---
 map.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index ee52dd6..16acd3e 100644
--- a/map.c
+++ b/map.c
@@ -152,7 +152,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -178,7 +178,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index 1886b12..33dec42 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2605,7 +2605,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2631,7 +2631,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
-- 
2.43.0


From 316031965fbb2bf8ceb6f1f641db6e96dce03995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 06/73] fix: a map's insertion-ordered key list neither owns
 the keys nor is collected before the map

---
 map.c         | 3 ++-
 release/cee.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index 16acd3e..aef8190 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
@@ -84,7 +85,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16); /* keys are owned by the tuples */
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 33dec42..c23ffac 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2521,6 +2521,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
@@ -2537,7 +2538,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16); /* keys are owned by the tuples */
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From 746ef7eff1dda03834c6d4b53acc48bf7324f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 07/73] fix: replacing a map value keeps the reference counts
 of the old, new and merged values right

---
 map.c         | 7 +++++--
 release/cee.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index aef8190..cc9c9a4 100644
--- a/map.c
+++ b/map.c
@@ -121,7 +121,8 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct S(header) *b = FIND_HEADER(m);
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  enum cee_del_policy dp[2] = { b->del_policies._.key, CEE_DP_NOOP }; /* t does not own the value yet */
+  t = cee_tuple_mk_e(b->cs.state, dp, key, value);
   oldp = musl_tsearch(b, t, b->_, S(cmp));
 
   if (oldp == NULL)
@@ -136,12 +137,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value; 
+      cee_incr_indegree(b->del_policies._.val, new_value); /* increase the rc of new value */
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
diff --git a/release/cee.c b/release/cee.c
index c23ffac..9482a49 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2574,7 +2574,8 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  enum cee_del_policy dp[2] = { b->del_policies._.key, CEE_DP_NOOP }; /* t does not own the value yet */
+  t = cee_tuple_mk_e(b->cs.state, dp, key, value);
   oldp = musl_tsearch(b, t, b->_, _cee_map_cmp);
 
   if (oldp == NULL)
@@ -2589,12 +2590,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value); /* increase the rc of new value */
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
-- 
2.43.0


From 02fe594fcb4a4755e1ecf745149f8cf7a30803f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 08/73] fix: garbage collection marks closures and what they
 reach

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 9482a49..5640170 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4097,6 +4097,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From bf3acc1814ec4fcd1be2393a967d2a37ff4a8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 09/73] fix: every garbage collection frees unreachable
 objects, not only every other one

---
 release/cee.c | 7 ++++---
 state.c       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 5640170..f1d4531 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4671,10 +4671,11 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   _cee_state_sweep(s, (enum cee_trace_action) mark);
 
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* 0 is the mark of the blocks allocated since, it is never used */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
 
diff --git a/state.c b/state.c
index a76f1cb..90db459 100644
--- a/state.c
+++ b/state.c
@@ -148,9 +148,10 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   S(sweep)(s, (enum cee_trace_action) mark);
   
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* 0 is the mark of the blocks allocated since, it is never used */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
-- 
2.43.0


From 7c5a6d68ccb42e398e766f05b1a5445fd16bfca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 10/73] fix: marking stops at blocks already marked, so cyclic
 graphs can be collected

---
 cee-common.c  | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cee-common.c b/cee-common.c
index effb658..a33ecaa 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -15,6 +15,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
   
   struct cee_sect * cs = FIND_SECT(p);
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK)
+    return; /* already marked */
   cs->trace(p, ta);
 }
 
diff --git a/release/cee.c b/release/cee.c
index f1d4531..3180161 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1247,6 +1247,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK)
+    return; /* already marked */
   cs->trace(p, ta);
 }
 
-- 
2.43.0


From 59aaaa213963ce19c92967c1221b29e19ebe21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 11/73] fix: a resized block is the tail of the trace chain, it
 has no successor

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..0f8a132 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -5,6 +5,7 @@
 static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL;
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
diff --git a/release/cee.c b/release/cee.c
index 3180161..205f08c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1390,6 +1390,7 @@ struct _cee_boxed_header {
  */
 static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -1805,6 +1806,7 @@ struct _cee_str_header {
  */
 static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2262,6 +2264,7 @@ struct _cee_dict_header {
  */
 static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2427,6 +2430,7 @@ struct _cee_map_header{
  */
 static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2811,6 +2815,7 @@ struct _cee_set_header {
  */
 static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3142,6 +3147,7 @@ struct _cee_stack_header {
  */
 static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3309,6 +3315,7 @@ struct _cee_tuple_header {
  */
 static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3437,6 +3444,7 @@ struct _cee_triple_header {
  */
 static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3558,6 +3566,7 @@ struct _cee_quadruple_header {
  */
 static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3679,6 +3688,7 @@ struct _cee_list_header {
  */
 static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3883,6 +3893,7 @@ struct _cee_tagged_header {
  */
 static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4031,6 +4042,7 @@ struct _cee_closure_header {
  */
 static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4149,6 +4161,7 @@ struct _cee_block_header {
  */
 static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4285,6 +4298,7 @@ struct _cee_n_tuple_header {
  */
 static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4419,6 +4433,7 @@ struct _cee_env_header {
  */
 static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
-- 
2.43.0


From 47fdc6661a8ade812eb9620f270eea0ee6e50439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/73] fix: an environment owns its outer environment and its
 variables

---
 env.c         | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ef49924 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,8 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer) cee_incr_indegree(dp[0], outer);
+  if (vars) cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 205f08c..9eeedb6 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4531,6 +4531,8 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer) cee_incr_indegree(dp[0], outer);
+  if (vars) cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From 9ce4c986e60ccc61dce2bcf4fb36b93363d0a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 13/73] fix: looking up a name goes on past an environment
 without variables

---
 env.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index ef49924..c243d78 100644
--- a/env.c
+++ b/env.c
@@ -71,7 +71,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
diff --git a/release/cee.c b/release/cee.c
index 9eeedb6..c9f7d09 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4544,7 +4544,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
-- 
2.43.0


From 4784773802c39eb29fa376494dcfd6897e0fff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 14/73] fix: iterating an empty list returns 0

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index c9f7d09..8516f37 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3861,7 +3861,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From 73f99ec9751d1c01c1c2057d982a89e6b286b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 15/73] fix: merging a list into itself terminates

---
 list.c        | 10 +++-------
 release/cee.c |  9 +++------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/list.c b/list.c
index 4be0a17..05391e4 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,9 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  size_t i, n = cee_list_size(src); /* dest and src may be the same list */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index 8516f37..68cee74 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3869,15 +3869,12 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  size_t i, n = cee_list_size(src); /* dest and src may be the same list */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 8fe75f6016a893e95647448bfd3c9f33402619a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 16/73] fix: define cee_get_rc, the declared name of the
 reference count query

---
 cee-common.c  | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index a33ecaa..2eb5587 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -85,7 +85,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint16_t cee_get_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/release/cee.c b/release/cee.c
index 68cee74..8e45e34 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1317,7 +1317,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint16_t cee_get_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
-- 
2.43.0


From 8fe77c30d35460f61f18ed61d4599e8a6cd1abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 17/73] fix: cee_str_mkv uses its copy of the argument list for
 measuring

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 8e45e34..26c855c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1918,7 +1918,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From 83dc38c40567d9e36595695bc25afe9f21624be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 18/73] fix: a string made from a counted buffer is
 NUL-terminated

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 26c855c..328988f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1905,6 +1905,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index df207c0..34df67d 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 3461778d5c84621931ccc90d8f8e2a077f9b2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 19/73] fix: cee_str_mk_e honours its size together with a
 format

---
 release/cee.c | 2 ++
 str.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 328988f..cd4fb0d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1967,6 +1967,8 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
diff --git a/str.c b/str.c
index 34df67d..6672ffb 100644
--- a/str.c
+++ b/str.c
@@ -126,6 +126,8 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
-- 
2.43.0


From 5e2c7243074789838adb57c7345fa6adaff8d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 20/73] fix: appending a character keeps room for the
 terminator when the string is full

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index cd4fb0d..0675ce2 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2030,15 +2030,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 6672ffb..843bba3 100644
--- a/str.c
+++ b/str.c
@@ -189,15 +189,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct S(header) * b = FIND_HEADER(str);
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 4cc534b4f61fb892bfeddc4fe657eda72c8550d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 21/73] fix: trimming handles strings made only of white space
 and drops the whole leading run

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 0675ce2..7a563b6 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2099,7 +2099,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -2114,7 +2114,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 843bba3..35128fd 100644
--- a/str.c
+++ b/str.c
@@ -258,7 +258,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -273,7 +273,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 6d03e709c89b0232a07e107e2e4ddb3dcf6a2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 22/73] fix: str_replace_all allocates enough for every
 replacement

---
 release/cee.c | 8 +++++---
 str.c         | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 7a563b6..92aab5b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2163,12 +2163,14 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  size_t max_len = orig_len;
+  if( old_len && new_len > old_len )
+    max_len += orig_len/old_len * (new_len - old_len);
+  char *new_str = malloc(max_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
diff --git a/str.c b/str.c
index 35128fd..c79f2f5 100644
--- a/str.c
+++ b/str.c
@@ -322,12 +322,14 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  size_t max_len = orig_len;
+  if( old_len && new_len > old_len )
+    max_len += orig_len/old_len * (new_len - old_len);
+  char  *new_str = malloc(max_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
-- 
2.43.0


From 47203efebd28acbd402f8ecd612a1d6e949719fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 23/73] fix: str_replace_all_ext allocates enough for every
 replacement

---
 release/cee.c | 11 +++--------
 str.c         | 13 +++----------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 92aab5b..a7bc275 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2192,8 +2192,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
-  char *old_needle, *new_needle;
+  size_t max_new_len = 1; /* the most bytes a byte of str becomes */
 
   struct pair *pairs, *used_pair = NULL;
   if( n_pairs <= 16 )
@@ -2210,25 +2209,21 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
 
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
 
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
+  size_t new_strlen = str_len * max_new_len;
 
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
diff --git a/str.c b/str.c
index c79f2f5..6f055ff 100644
--- a/str.c
+++ b/str.c
@@ -351,8 +351,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
-  char *old_needle, *new_needle;
+  size_t max_new_len = 1; /* the most bytes a byte of str becomes */
 
   struct pair *pairs, *used_pair = NULL;
   if( n_pairs <= 16 )
@@ -369,25 +368,19 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
     
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
-    
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len;
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
-- 
2.43.0


From c348675f32390924c0a532ff8895d53719a973b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 24/73] fix: chopping a string view by a view stops at its end
 and removes a trailing delimiter

---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..77ce77f 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // the delimiter does not occur
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From 0c357268883ddd6c0ea339049ee2c97eb970c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 25/73] fix: a dict applies its delete policy to its keys and
 values

---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index a7bc275..3d4918f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2333,8 +2333,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2352,10 +2352,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From 43421f6099ba3ee400d7df63dc0d2d79c797f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 26/73] fix: listing a container with the no-op policy does not
 touch its elements

---
 map.c         |  9 ++++++---
 release/cee.c | 15 ++++++++++-----
 set.c         |  6 ++++--
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/map.c b/map.c
index cc9c9a4..eb11ef8 100644
--- a/map.c
+++ b/map.c
@@ -229,7 +229,8 @@ static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct S(header) * b = FIND_HEADER(m);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  enum cee_del_policy dp = b->del_policies._.key == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, dp, n);
   musl_twalk(keys, b->_[0], S(get_key));
   return keys;
 }
@@ -237,7 +238,8 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct S(header) * b = FIND_HEADER(m);
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  enum cee_del_policy dp = b->del_policies._.key == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, dp, n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -262,7 +264,8 @@ static void S(get_value) (void * ctx, const void *nodep, const VISIT which, cons
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct S(header) *b = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  enum cee_del_policy dp = b->del_policies._.val == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *values = cee_list_mk_e(b->cs.state, dp, s);
   musl_twalk(values, b->_[0], S(get_value));
   return values;
 }
diff --git a/release/cee.c b/release/cee.c
index 3d4918f..6513d22 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2688,7 +2688,8 @@ static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which,
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  enum cee_del_policy dp = b->del_policies._.key == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, dp, n);
   musl_twalk(keys, b->_[0], _cee_map_get_key);
   return keys;
 }
@@ -2696,7 +2697,8 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  enum cee_del_policy dp = b->del_policies._.key == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, dp, n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -2721,7 +2723,8 @@ static void _cee_map_get_value (void * ctx, const void *nodep, const VISIT which
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  enum cee_del_policy dp = b->del_policies._.val == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *values = cee_list_mk_e(b->cs.state, dp, s);
   musl_twalk(values, b->_[0], _cee_map_get_value);
   return values;
 }
@@ -3029,7 +3032,8 @@ static void _cee_set_get_value (void * cxt, const void *nodep, const VISIT which
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  enum cee_del_policy dp = h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *values = cee_list_mk_e(h->cs.state, dp, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], _cee_set_get_value);
   return values;
@@ -3054,7 +3058,8 @@ struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, s
   struct _cee_set_header * h1 = (struct _cee_set_header *)((void *)((char *)(s1) - (__builtin_offsetof(struct _cee_set_header, _))));
   struct _cee_set_header * h2 = (struct _cee_set_header *)((void *)((char *)(s2) - (__builtin_offsetof(struct _cee_set_header, _))));
   if (h1->cmp == h2->cmp) {
-    struct cee_set * s0 = cee_set_mk(s, h1->cmp);
+    enum cee_del_policy dp = h1->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+    struct cee_set * s0 = cee_set_mk_e(s, dp, h1->cmp);
     struct cee_list * v1 = cee_set_values(s1);
     struct cee_list * v2 = cee_set_values(s2);
     int i;
diff --git a/set.c b/set.c
index 33258d0..303372e 100644
--- a/set.c
+++ b/set.c
@@ -177,7 +177,8 @@ static void S(get_value) (void * cxt, const void *nodep, const VISIT which, cons
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct S(header) * h = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  enum cee_del_policy dp = h->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+  struct cee_list *values = cee_list_mk_e(h->cs.state, dp, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], S(get_value));
   return values;
@@ -202,7 +203,8 @@ struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, s
   struct S(header) * h1 = FIND_HEADER(s1);
   struct S(header) * h2 = FIND_HEADER(s2);
   if (h1->cmp == h2->cmp) {
-    struct cee_set * s0 = cee_set_mk(s, h1->cmp);
+    enum cee_del_policy dp = h1->del_policy == CEE_DP_NOOP ? CEE_DP_NOOP : CEE_DP_DEL_RC;
+    struct cee_set * s0 = cee_set_mk_e(s, dp, h1->cmp);
     struct cee_list * v1 = cee_set_values(s1);
     struct cee_list * v2 = cee_set_values(s2);
     int i;
-- 
2.43.0


From de8f99586c2f7a57b21d1da44bc09553dc930cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 27/73] fix: the tokenizer never reads past the end of its
 buffer

---
 cee-json/release/cee-json.c | 72 +++++++++++++++++++++--------------
 cee-json/tokenizer.c        | 75 +++++++++++++++++++++++--------------
 2 files changed, 91 insertions(+), 56 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..3aaec7f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,18 +2105,18 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end) { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end) return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
   if (json_string_unescape(&unscp_str, &unscp_len, start, end-start)) {
     if (unscp_str == start) {
-      t->str = cee_str_mk_e(st, end-start+1, "%.*s", end-start, start);
+      t->str = cee_str_mk_e(st, end-start+1, "%.*s", (int)(end-start), start);
     }
     else {
       /* / @todo? create a cee_str func that takes ownership of string */
@@ -2128,10 +2128,17 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   }
   return false; /*  ill formed string */
 }
+/* the digits from p to the end of the buffer */
+static char * skip_digits(char * p, char * const buf_end) {
+  while (p < buf_end && isdigit((unsigned char)*p))
+    p++;
+  return p;
+}
 
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
-  char *end = start;
+  char *end = start, *digits;
+  char * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
   int offset_sign = 0;
@@ -2141,52 +2148,61 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  /* 2nd STEP: skips until a non digit char found */
+  digits = end;
+  end = skip_digits(digits, buf_end);
+  if (end == digits)
     return false;
 
-  /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
-    continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < buf_end && '.' == *end) {
+    digits = end + 1;
+    end = skip_digits(digits, buf_end);
+    if (end == digits)
       return false;
-    while (isdigit(*++end))
-      continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end))
+    digits = end;
+    end = skip_digits(digits, buf_end);
+    if (end == digits)
       return false;
-    while (isdigit(*++end))
-      continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
   else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
+  /* 5th STEP: convert string to number, from a copy as the buffer may not be null terminated */
   char *endptr=NULL;
+  char small[64], *copy = small;
+  size_t len = end - start;
+  if (len >= sizeof small)
+    copy = malloc(len + 1);
+  memcpy(copy, start, len);
+  copy[len] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(copy, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(copy, &endptr, 10);
   }
+  bool converted = endptr != copy;
+  if (copy != small)
+    free(copy);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2216,17 +2232,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2261,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..793de22 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,5 +1,6 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
+#include <string.h>
 #include <ctype.h>
 #include "cee.h"
 #include "cee-json.h"
@@ -179,11 +180,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,18 +362,18 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end) { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end) return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
   if (json_string_unescape(&unscp_str,  &unscp_len, start, end-start)) {
     if (unscp_str == start) {
-      t->str = cee_str_mk_e(st, end-start+1, "%.*s", end-start, start);
+      t->str = cee_str_mk_e(st, end-start+1, "%.*s", (int)(end-start), start);
     }
     else {
       /* / @todo? create a cee_str func that takes ownership of string */
@@ -385,9 +386,17 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+/* the digits from p to the end of the buffer */
+static char * skip_digits(char * p, char * const buf_end) {
+  while (p < buf_end && isdigit((unsigned char)*p))
+    p++;
+  return p;
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
-  char *end = start;
+  char *end = start, *digits;
+  char * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
   int offset_sign = 0;
@@ -397,52 +406,62 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
-    return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
-    continue;
+  digits = end;
+  end = skip_digits(digits, buf_end);
+  if (end == digits)
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (end < buf_end && '.' == *end) {
+    digits = end + 1;
+    end = skip_digits(digits, buf_end);
+    if (end == digits)
       return false;
-    while (isdigit(*++end)) 
-      continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (end < buf_end && ('e' == *end || 'E' == *end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (end < buf_end && ('+' == *end || '-' == *end))
       ++end;
-    if (!isdigit(*end)) 
+    digits = end;
+    end = skip_digits(digits, buf_end);
+    if (end == digits)
       return false;
-    while (isdigit(*++end))
-      continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
   else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
+  /* 5th STEP: convert string to number, from a copy as the buffer may not be null terminated */
   char *endptr=NULL;
+  char small[64], *copy = small;
+  size_t len = end - start;
+  if (len >= sizeof small)
+    copy = malloc(len + 1);
+  memcpy(copy, start, len);
+  copy[len] = '\0';
+
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(copy, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(copy, &endptr, 10);
   }
+  bool converted = endptr != copy;
+  if (copy != small)
+    free(copy);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +491,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +520,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From b94a1bfe5240d4ad2096c92a03b7f81367cf8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 28/73] fix: a string ending in the first half of a surrogate
 pair is rejected

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/tokenizer.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 3aaec7f..f31092c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2073,7 +2073,7 @@ second_iter:
 
   switch (state) {
   case UNESCAPING:
-      if (!utf8_validate(out_start, d))
+      if (second_surrogate_expected || !utf8_validate(out_start, d))
         goto return_err;
       else
       {
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 793de22..231ab0e 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -330,7 +330,7 @@ second_iter:
 
   switch (state) {
   case UNESCAPING:
-      if (!utf8_validate(out_start, d))
+      if (second_surrogate_expected || !utf8_validate(out_start, d))
         goto return_err;
       else
       {
-- 
2.43.0


From c120325b31b805c5293dac17c28f8664a9c91b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 29/73] fix: leading zeros are rejected in numbers with a
 fraction or exponent too

---
 cee-json/release/cee-json.c | 11 ++++-------
 cee-json/tokenizer.c        | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index f31092c..b2d5a4a 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2141,18 +2141,18 @@ static bool parse_number(struct tokenizer *t) {
   char * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
-  int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if ('-' == *end)
     ++end;
-    offset_sign = 1;
-  }
   /* 2nd STEP: skips until a non digit char found */
   digits = end;
   end = skip_digits(digits, buf_end);
   if (end == digits)
     return false;
+  /*  can't start with zero followed by n numbers (ex: 012, -023, 00.5) */
+  if ('0' == *digits && end - digits > 1)
+    return false;
 
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
@@ -2175,9 +2175,6 @@ static bool parse_number(struct tokenizer *t) {
     if (end == digits)
       return false;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number, from a copy as the buffer may not be null terminated */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 231ab0e..04e3f00 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -399,19 +399,19 @@ static bool parse_number(struct tokenizer *t) {
   char * const buf_end = t->buf_end;
 
   bool is_integer = true, is_exponent = false;
-  int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if ('-' == *end)
     ++end;
-    offset_sign = 1;
-  }
 
   /* 2nd STEP: skips until a non digit char found */
   digits = end;
   end = skip_digits(digits, buf_end);
   if (end == digits)
     return false;
+  /*  can't start with zero followed by n numbers (ex: 012, -023, 00.5) */
+  if ('0' == *digits && end - digits > 1)
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (end < buf_end && '.' == *end) {
@@ -433,9 +433,6 @@ static bool parse_number(struct tokenizer *t) {
     if (end == digits)
       return false;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number, from a copy as the buffer may not be null terminated */
-- 
2.43.0


From d498df1109bbe1c464852cc5cbefc85d39ecbe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 30/73] fix: integers beyond 64 signed bits are parsed as
 unsigned or double instead of saturating

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b2d5a4a..07de8d0 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2190,8 +2190,18 @@ static bool parse_number(struct tokenizer *t) {
     t->number.real = strtod(copy, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(copy, &endptr, 10);
+    if (ERANGE == errno && '-' != *copy) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(copy, &endptr, 10);
+    }
+    if (ERANGE == errno) { /* too large for both */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(copy, &endptr);
+    }
   }
   bool converted = endptr != copy;
   if (copy != small)
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 04e3f00..8d0e3fb 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -449,8 +450,18 @@ static bool parse_number(struct tokenizer *t) {
     t->number.real = strtod(copy, &endptr);
   }
   else {
+    errno = 0;
     t->type = NUMBER_IS_I64;
     t->number.i64 = strtoll(copy, &endptr, 10);
+    if (ERANGE == errno && '-' != *copy) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(copy, &endptr, 10);
+    }
+    if (ERANGE == errno) { /* too large for both */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(copy, &endptr);
+    }
   }
   bool converted = endptr != copy;
   if (copy != small)
-- 
2.43.0


From ea3c97e77e6ad99344df23cbe4c710bfb5f041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 31/73] fix: a comment before a NUL byte is not the end of the
 input

---
 cee-json/release/cee-json.c | 11 -----------
 cee-json/tokenizer.c        | 11 -----------
 2 files changed, 22 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 07de8d0..e9e6ade 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2266,17 +2266,6 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         if(parse_number(t))
           return tock_number;
         return tock_err;
-    case '/':
-        t->buf++;
-        if(check(t->buf, t->buf_end, "/", &t->buf)) {
-          while(t->buf < t->buf_end) {
-            c = t->buf[0];
-            if(c=='\0') return tock_eof;
-            if(c=='\n') return tock_err;
-            t->buf++;
-          }
-        }
-        return tock_err;
     default:
         return tock_err;
     }
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 8d0e3fb..c61e439 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -526,17 +526,6 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         if(parse_number(t))
           return tock_number;
         return tock_err;
-    case '/':
-        t->buf++;
-        if(check(t->buf, t->buf_end, "/", &t->buf)) {
-          while(t->buf < t->buf_end) {
-            c = t->buf[0];
-            if(c=='\0') return tock_eof;
-            if(c=='\n') return tock_err; 
-            t->buf++;
-          }
-        }
-        return tock_err;
     default:
         return tock_err;
     }
-- 
2.43.0


From 6c2fe70e82c8963fcd97d38b99230f5969431d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 32/73] fix: a comma must be followed by another element or
 member

---
 cee-json/parser.c           | 14 +++++++++-----
 cee-json/release/cee-json.c | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/cee-json/parser.c b/cee-json/parser.c
index 98f8cfa..cac3983 100644
--- a/cee-json/parser.c
+++ b/cee-json/parser.c
@@ -14,10 +14,12 @@ enum state_type {
   st_init = 0,
   st_object_or_array_or_value_expected = 0 ,
   st_object_key_or_close_expected,
+  st_object_key_expected,
   st_object_colon_expected,
   st_object_value_expected,
   st_object_close_or_comma_expected,
   st_array_value_or_close_expected,
+  st_array_value_expected,
   st_array_close_or_comma_expected,
   st_error,
   st_done
@@ -109,7 +111,8 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
           state = st_error;
         break;
     case st_object_key_or_close_expected:
-        if(c=='}') {
+    case st_object_key_expected:
+        if(c=='}' && state==st_object_key_or_close_expected) {
           state=TOPS;
           POP(sp);
         } 
@@ -172,7 +175,7 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
         break; }
     case st_object_close_or_comma_expected:
         if(c==',')
-          state=st_object_key_or_close_expected;
+          state=st_object_key_expected;
         else if(c=='}') {
           state=TOPS;
           POP(sp);
@@ -180,8 +183,9 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
         else
           state=st_error;
         break;
-    case st_array_value_or_close_expected: {
-        if(c==']') {
+    case st_array_value_or_close_expected:
+    case st_array_value_expected: {
+        if(c==']' && state==st_array_value_or_close_expected) {
           state=TOPS;
           POP(sp);
           break;
@@ -234,7 +238,7 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
           POP(sp);
         }
         else if(c==',')
-          state=st_array_value_or_close_expected;
+          state=st_array_value_expected;
         else
           state=st_error;
         break;
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e9e6ade..ed162e8 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1115,10 +1115,12 @@ enum state_type {
   st_init = 0,
   st_object_or_array_or_value_expected = 0 ,
   st_object_key_or_close_expected,
+  st_object_key_expected,
   st_object_colon_expected,
   st_object_value_expected,
   st_object_close_or_comma_expected,
   st_array_value_or_close_expected,
+  st_array_value_expected,
   st_array_close_or_comma_expected,
   st_error,
   st_done
@@ -1210,7 +1212,8 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
           state = st_error;
         break;
     case st_object_key_or_close_expected:
-        if(c=='}') {
+    case st_object_key_expected:
+        if(c=='}' && state==st_object_key_or_close_expected) {
           state=(enum state_type)(top->_[0]);
           do { result = (struct cee_tuple *)cee_stack_pop(sp); } while(0);
         }
@@ -1273,7 +1276,7 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
         break; }
     case st_object_close_or_comma_expected:
         if(c==',')
-          state=st_object_key_or_close_expected;
+          state=st_object_key_expected;
         else if(c=='}') {
           state=(enum state_type)(top->_[0]);
           do { result = (struct cee_tuple *)cee_stack_pop(sp); } while(0);
@@ -1281,8 +1284,9 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
         else
           state=st_error;
         break;
-    case st_array_value_or_close_expected: {
-        if(c==']') {
+    case st_array_value_or_close_expected:
+    case st_array_value_expected: {
+        if(c==']' && state==st_array_value_or_close_expected) {
           state=(enum state_type)(top->_[0]);
           do { result = (struct cee_tuple *)cee_stack_pop(sp); } while(0);
           break;
@@ -1335,7 +1339,7 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
           do { result = (struct cee_tuple *)cee_stack_pop(sp); } while(0);
         }
         else if(c==',')
-          state=st_array_value_or_close_expected;
+          state=st_array_value_expected;
         else
           state=st_error;
         break;
-- 
2.43.0


From 6c0135ae0756c68dbd86d33d1d179c10c7b13461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 33/73] fix: printing handles every depth the parser accepts

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/snprint.c          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index ed162e8..5d24d44 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1378,7 +1378,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1434,7 +1434,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -1553,7 +1553,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 1024); /* deeper than the parser goes */
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..2eeea00 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -187,7 +187,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 1024); /* deeper than the parser goes */
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From 50a282e70f8ff869419f39b71eda3483c323b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 34/73] fix: cee_json_snprint stays within the given size, and
 cee_json_asprint has room for the terminator

---
 cee-json/release/cee-json.c | 27 ++++++++++++++++++++++-----
 cee-json/snprint.c          | 28 +++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 5d24d44..cf02349 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1544,10 +1544,9 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * print to buf, if it is not NULL, and return how many bytes that takes without the terminating NUL
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
-     enum cee_json_fmt f) {
+static ssize_t print (struct cee_state *st, char *buf, struct cee_json *j, enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
   struct counter * ccnt;
@@ -1714,6 +1713,24 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
 }
 
 
+/*
+ * compute how many bytes are needed to serialize cee_json as a string,
+ * and print as many of them as fit in buf, which is always terminated
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+     enum cee_json_fmt f) {
+  size_t len = print(st, NULL, j, f);
+  if (buf && len < size)
+    print(st, buf, j, f);
+  else if (buf && size) {
+    char *all = malloc(len + 1);
+    print(st, all, j, f);
+    memcpy(buf, all, size - 1);
+    buf[size - 1] = '\0';
+    free(all);
+  }
+  return len;
+}
 /*
  * the memory allocated by this function is tracked by cee_state
  */
@@ -1722,10 +1739,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 2eeea00..00d03f6 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -178,10 +178,9 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * print to buf, if it is not NULL, and return how many bytes that takes without the terminating NUL
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
-			  enum cee_json_fmt f) {
+static ssize_t print (struct cee_state *st, char *buf, struct cee_json *j, enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
   struct counter * ccnt;
@@ -347,6 +346,25 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   return offset;
 }
 
+/*
+ * compute how many bytes are needed to serialize cee_json as a string,
+ * and print as many of them as fit in buf, which is always terminated
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+			  enum cee_json_fmt f) {
+  size_t len = print(st, NULL, j, f);
+  if (buf && len < size)
+    print(st, buf, j, f);
+  else if (buf && size) {
+    char *all = malloc(len + 1);
+    print(st, all, j, f);
+    memcpy(buf, all, size - 1);
+    buf[size - 1] = '\0';
+    free(all);
+  }
+  return len;
+}
+
 
 /*
  * the memory allocated by this function is tracked by cee_state
@@ -356,10 +374,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
-- 
2.43.0


From cda1ea62df667cf5452942485e332dbfdc0b0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 35/73] fix: doubles that are not finite print as JSON

---
 cee-json/release/cee-json.c | 19 +++++++++++++++++++
 cee-json/snprint.c          | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index cf02349..c173789 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1636,6 +1636,25 @@ static ssize_t print (struct cee_state *st, char *buf, struct cee_json *j, enum
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          double d = 0;
+          char number[32];
+          cee_json_to_doublex(cur_json, &d);
+          if (d != d) /* JSON has no NaN */
+            incr = snprintf(number, sizeof number, "null");
+          else if (d - d != 0) /* infinity: a number too large for a double */
+            incr = snprintf(number, sizeof number, d < 0 ? "-1e999" : "1e999");
+          else
+            incr = cee_boxed_snprint(number, sizeof number, cee_json_to_boxed(cur_json));
+          pad(&offset, buf, ccnt, f);
+          if (buf)
+            memcpy(buf + offset, number, incr);
+          offset += incr;
+          if (ccnt->more_siblings)
+            delimiter(&offset, buf, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 00d03f6..e14dc23 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -270,6 +270,25 @@ static ssize_t print (struct cee_state *st, char *buf, struct cee_json *j, enum
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          double d = 0;
+          char number[32];
+          cee_json_to_doublex(cur_json, &d);
+          if (d != d) /* JSON has no NaN */
+            incr = snprintf(number, sizeof number, "null");
+          else if (d - d != 0) /* infinity: a number too large for a double */
+            incr = snprintf(number, sizeof number, d < 0 ? "-1e999" : "1e999");
+          else
+            incr = cee_boxed_snprint(number, sizeof number, cee_json_to_boxed(cur_json));
+          pad(&offset, buf, ccnt, f);
+          if (buf)
+            memcpy(buf + offset, number, incr);
+          offset += incr;
+          if (ccnt->more_siblings)
+            delimiter(&offset, buf, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
-- 
2.43.0


From 20787985e84857987a4abb4ad1ad59d13efe1956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 36/73] fix: appending to a key turns any value, also an
 object, into an array

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c173789..b4f9b96 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -648,7 +648,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any value, also one without a state like true or null */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..46e41ec 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -424,7 +424,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any value, also one without a state like true or null */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From a726efa7864d361c94f0859f4006c7435782ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 37/73] fix: converting a key to an integer looks at the key's
 value

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b4f9b96..efc906e 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -575,12 +575,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
 
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
+    cee_del_e(CEE_DP_DEL_RC, old_val); /* unless something else holds it */
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 46e41ec..145e3ce 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -351,12 +351,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
   
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
+    cee_del_e(CEE_DP_DEL_RC, old_val); /* unless something else holds it */
     return true;
   }
   return false;
-- 
2.43.0


From 9aa310dd0096f56ddbbbd4756dd05e85c08e3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 38/73] fix: a decimal string beyond 64 bits is not converted
 to an integer

---
 cee-json/release/cee-json.c | 14 +++++---------
 cee-json/value.c            | 16 ++++++----------
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index efc906e..a0766d7 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -555,17 +555,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
+  char *end;
+  errno = 0;
+  long long i = strtoll(s, &end, 10);
+  if (end == s || *end || errno == ERANGE)
+    return 1;
     if (ip) *ip = i;
     return 0;
-  }
-  if (scanned > 1) {
-    return 1;
-  }
-  return 1;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
diff --git a/cee-json/value.c b/cee-json/value.c
index 145e3ce..dec0c05 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -331,17 +331,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end;
+  errno = 0;
+  long long i = strtoll(s, &end, 10);
+  if (end == s || *end || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
-- 
2.43.0


From df97ee52a2c32c00d4172152dd4d65f32b289c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 39/73] fix: concatenating an array with itself terminates

---
 cee-json/release/cee-json.c | 5 +++--
 cee-json/value.c            | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a0766d7..1f694bc 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -843,8 +843,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* src may be dest */
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index dec0c05..1a5b459 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -619,8 +619,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* src may be dest */
+  int i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
-- 
2.43.0


From a3ba0581cd721083280aa30e8c9059d9740bf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 40/73] fix: a member name given as a selector argument is used

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 1f694bc..c26ea7a 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1043,7 +1043,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index 1a5b459..9a30b15 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -819,7 +819,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From cf63377b440366c4ca8d2710638e9a03830c1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 41/73] fix: a selector ending in the middle of a step selects
 nothing

---
 cee-json/release/cee-json.c | 11 +++++++----
 cee-json/value.c            | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c26ea7a..6d4cbd4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -981,6 +981,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   } next = JSEL_INVALID; /* Type of the next selector. */
   char token[JSEL_MAX_TOKEN+1]; /* Current token. */
   int tlen; /* Current length of the token. */
+  bool given = true; /* The token has text, or an argument. */
   va_list ap;
 
   va_start(ap,fmt);
@@ -989,11 +990,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   while(1) {
     /* Our four special chars (plus the end of the string) signal the
      * end of the previous token and the start of the next one. */
-    if (tlen && (*p == '\0' || strchr(".[]:",*p))) {
+    if (next != JSEL_INVALID && (*p == '\0' || strchr(".[]:",*p))) {
+      if (!given) goto notfound;
       token[tlen] = '\0';
-      if (next == JSEL_INVALID) {
-        goto notfound;
-      } else if (next == JSEL_ARRAY) {
+      if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
         int idx = atoi(token); /* cee_json API index is int. */
         if ((o = cee_json_array_get(o,idx)) == NULL)
@@ -1018,6 +1018,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
+        given = true;
         if (tlen > JSEL_MAX_TOKEN) goto notfound;
         continue;
       } else {
@@ -1045,6 +1046,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
         memcpy(token+tlen,s,len);
         tlen += len;
+        given = true;
         p++;
         continue;
       }
@@ -1057,6 +1059,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
     else if (*p == ':') next = JSEL_TYPECHECK;
     else goto notfound;
     tlen = 0; /* A new token starts. */
+    given = false;
     p++; /* Token starts at next character. */
   }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index 9a30b15..db107a6 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -757,6 +757,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   } next = JSEL_INVALID;          /* Type of the next selector. */
   char token[JSEL_MAX_TOKEN+1];   /* Current token. */
   int tlen;                       /* Current length of the token. */
+  bool given = true;              /* The token has text, or an argument. */
   va_list ap;
   
   va_start(ap,fmt);
@@ -765,11 +766,10 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   while(1) {
     /* Our four special chars (plus the end of the string) signal the
      * end of the previous token and the start of the next one. */
-    if (tlen && (*p == '\0' || strchr(".[]:",*p))) {
+    if (next != JSEL_INVALID && (*p == '\0' || strchr(".[]:",*p))) {
+      if (!given) goto notfound;
       token[tlen] = '\0';
-      if (next == JSEL_INVALID) {
-        goto notfound;
-      } else if (next == JSEL_ARRAY) {
+      if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
         int idx = atoi(token); /* cee_json API index is int. */
         if ((o = cee_json_array_get(o,idx)) == NULL)
@@ -794,6 +794,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
+        given = true;
         if (tlen > JSEL_MAX_TOKEN) goto notfound;
         continue;
       } else {
@@ -821,6 +822,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
         memcpy(token+tlen,s,len);
         tlen += len;
+        given = true;
         p++;
         continue;
       }
@@ -833,6 +835,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
     else if (*p == ':') next = JSEL_TYPECHECK;
     else goto notfound;
     tlen = 0; /* A new token starts. */
+    given = false;
     p++; /* Token starts at next character. */
   }
 
-- 
2.43.0


From caf73e82426c3298cfad3d5065fca26668fc6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 42/73] fix: a selector index must be a number within the array

---
 cee-json/release/cee-json.c | 4 +++-
 cee-json/value.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6d4cbd4..bf30603 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -995,7 +995,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
       token[tlen] = '\0';
       if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        char *end;
+        long idx = strtol(token, &end, 10);
+        if (*end || idx < 0 || idx >= (long)cee_json_array_length(o)) goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
diff --git a/cee-json/value.c b/cee-json/value.c
index db107a6..c54ad72 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -771,7 +771,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
       token[tlen] = '\0';
       if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        char *end;
+        long idx = strtol(token, &end, 10);
+        if (*end || idx < 0 || idx >= (long)cee_json_array_length(o)) goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
-- 
2.43.0


From 503ef5a70a36719fef3ff9722e1340f2f86a92e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 43/73] fix: selector type check n covers all number types,
 unknown types match nothing

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/value.c            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bf30603..950877d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1005,8 +1005,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if ((o = cee_json_object_get(o,token)) == NULL)
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
+        if (!strchr("snoab!", token[0])) goto notfound;
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64 && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index c54ad72..e8eb073 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -781,8 +781,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         if ((o = cee_json_object_get(o,token)) == NULL)
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
+        if (!strchr("snoab!", token[0])) goto notfound;
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64 && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From 201e49d9ede8e0e27f9020dafe64d05c23873c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 44/73] fix: cee_json_escape_string writes all six bytes of a
 control character's escape

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/value.c            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 950877d..5c405e0 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1099,9 +1099,9 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        memcpy(dest+j, "\\u00", 4);
+        dest[j+4] = "01"[c >> 4], dest[j+5] = "0123456789abcdef"[c & 15];
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index e8eb073..e607abf 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -875,9 +875,9 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        memcpy(dest+j, "\\u00", 4);
+        dest[j+4] = "01"[c >> 4], dest[j+5] = "0123456789abcdef"[c & 15];
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From 63df32128b12812b710f6a39b1f8d4c70cf7a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 45/73] fix: loading a file honours force_eof, short reads and
 unreadable descriptors

---
 cee-json/release/cee-json.c | 13 +++++++++----
 cee-json/value.c            | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 5c405e0..c3f2c3b 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -856,14 +856,19 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, have = 0;
+  ssize_t n;
   char * b = malloc(size);
-  read(fd, b, size);
+  while( have < size && (n = read(fd, b + have, size - have)) > 0 )
+    have += n;
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, have, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index e607abf..46cfb23 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -632,14 +632,19 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  if( fstat(fd, &buf) ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = buf.st_size, have = 0;
+  ssize_t n;
   char * b = malloc(size);
-  read(fd, b, size);
+  while( have < size && (n = read(fd, b + have, size - have)) > 0 )
+    have += n;
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, have, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From 61098e6bea3ad436772abc1ca93ac78d791fdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 46/73] fix: saving continues after a partial write

---
 cee-json/release/cee-json.c |  7 ++++++-
 cee-json/value.c            | 13 +++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c3f2c3b..6e5dc5b 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -919,10 +919,15 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
+  size_t done = 0;
+  while( done < s ){
+    ssize_t n = write(fd, p + done, s - done);
+    if( n < 0 ){
     fprintf(stderr, "%s", strerror(errno));
     free(p);
     return false;
+    }
+    done += n;
   }
   free(p);
   return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index 46cfb23..3107708 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -695,10 +695,15 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  size_t done = 0;
+  while( done < s ){
+    ssize_t n = write(fd, p + done, s - done);
+    if( n < 0 ){
+      fprintf(stderr, "%s", strerror(errno));
+      free(p);
+      return false;
+    }
+    done += n;
   }
   free(p);
   return true;
-- 
2.43.0


From 0afdfe0934d92c14110710cd5ded13fe509460d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 47/73] fix: merging files releases everything on failure and
 refuses a first input that is not an object

---
 cee-json/cee_json_merge.c   | 63 +++++++++++++++++++------------------
 cee-json/release/cee-json.c | 59 +++++++++++++++++-----------------
 2 files changed, 63 insertions(+), 59 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..4e97926 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -4,45 +4,47 @@
 #include "cee-json.h"
 #endif
 
-int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
-
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
-    return 1;
+/* load one input, report on stderr when that fails */
+static struct cee_json * load_input(struct cee_state *state, char *path){
+  FILE *f = fopen(path, "r");
+  if( !f ){
+    fprintf(stderr, "fopen(%s): ", path);
+    perror(NULL);
+    return NULL;
   }
-  struct cee_state *state = cee_state_mk(100);
   int line = -1;
+  struct cee_json *j = cee_json_load_from_FILE(state, f, true, &line);
+  fclose(f);
+  if( j == NULL )
+    fprintf(stderr, "error at %s:%d\n", path, line);
+  return j;
+}
+
+int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
+  int failed = 1;
+  FILE *f_combined;
+  struct cee_state *state = cee_state_mk(100);
   struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+
+  j0 = load_input(state, json_files[0]);
+  if( j0 == NULL )
+    goto done;
+  if( !cee_json_to_object(j0) ){ /* it has no place for the list of inputs */
+    fprintf(stderr, "%s is not an object\n", json_files[0]);
+    goto done;
   }
 
   for( int i = 1; i < json_file_count; i++ ){
-    fn = fopen(json_files[i], "r");
-    if( !fn ){
-      snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
-      perror(perror_buf);
-      return 1;
-    }
-    line = -1;
-    jn = cee_json_load_from_FILE(state, fn, true, &line);
-    if( jn == NULL ){
-      fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
-    }
+    jn = load_input(state, json_files[i]);
+    if( jn == NULL )
+      goto done;
     cee_json_merge(j0, jn);
-    fclose(fn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -51,9 +53,10 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  failed = !cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
-  fclose(f0);
+
+done:
   cee_del(state);
-  return 0;
+  return failed;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6e5dc5b..e8091c5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2328,6 +2328,21 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     }
   }
 }
+/* load one input, report on stderr when that fails */
+static struct cee_json * load_input(struct cee_state *state, char *path){
+  FILE *f = fopen(path, "r");
+  if( !f ){
+    fprintf(stderr, "fopen(%s): ", path);
+    perror(NULL);
+    return NULL;
+  }
+  int line = -1;
+  struct cee_json *j = cee_json_load_from_FILE(state, f, true, &line);
+  fclose(f);
+  if( j == NULL )
+    fprintf(stderr, "error at %s:%d\n", path, line);
+  return j;
+}
 
 
 
@@ -2335,44 +2350,30 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
 
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
+  int failed = 1;
+  FILE *f_combined;
 
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
-    return 1;
-  }
   struct cee_state *state = cee_state_mk(100);
-  int line = -1;
   struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+  j0 = load_input(state, json_files[0]);
+  if( j0 == NULL )
+    goto done;
+  if( !cee_json_to_object(j0) ){ /* it has no place for the list of inputs */
+    fprintf(stderr, "%s is not an object\n", json_files[0]);
+    goto done;
   }
 
   for( int i = 1; i < json_file_count; i++ ){
-    fn = fopen(json_files[i], "r");
-    if( !fn ){
-      snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
-      perror(perror_buf);
-      return 1;
-    }
-    line = -1;
-    jn = cee_json_load_from_FILE(state, fn, true, &line);
-    if( jn == NULL ){
-      fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
-    }
+    jn = load_input(state, json_files[i]);
+    if( jn == NULL )
+      goto done;
     cee_json_merge(j0, jn);
-    fclose(fn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -2381,11 +2382,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  failed = !cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
-  fclose(f0);
+done:
   cee_del(state);
-  return 0;
+  return failed;
 }
 
 #endif
-- 
2.43.0


From 93e745c08cbd021ead13107ba45a0b972302b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 48/73] fix: a buffer that fails to parse does not leak its
 state

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e8091c5..8253c40 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -911,6 +911,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
     j = NULL;
+    cee_del(st); /* nobody else has it */
   }
   return j;
 }
diff --git a/cee-json/value.c b/cee-json/value.c
index 3107708..5b5b5c1 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -687,6 +687,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
     j = NULL;
+    cee_del(st); /* nobody else has it */
   }
   return j;
 }
-- 
2.43.0


From 6204a2f34e262b16a11c476d29297fd5dc4acc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 49/73] fix: converting a member to an integer freed a string
 that another container still held

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 8253c40..6040aeb 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -577,6 +577,7 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return true;
 
   if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    cee_incr_indegree(CEE_DP_DEL_RC, old_val);
     cee_json_object_set_i64(j, key, i64);
     cee_del_e(CEE_DP_DEL_RC, old_val); /* unless something else holds it */
     return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index 5b5b5c1..1256ff3 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -353,6 +353,7 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return true;
 
   if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    cee_incr_indegree(CEE_DP_DEL_RC, old_val);
     cee_json_object_set_i64(j, key, i64);
     cee_del_e(CEE_DP_DEL_RC, old_val); /* unless something else holds it */
     return true;
-- 
2.43.0


From 51c26c8bc84dcb6e0767f5c3a6e1129ba74b3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 50/73] fix: an integer that does not fit an int was returned
 as another number

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6040aeb..6ad5f65 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -394,7 +394,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index 1256ff3..f0f27c0 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -170,7 +170,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
-- 
2.43.0


From 37172a3ecf2be57f5558f2ea8ab4e801fcef7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 51/73] fix: an SQL select that fails while running looped
 forever; failed statements were left open

---
 sqlite3/cee-sqlite3.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..bf37a8d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,8 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          if( !sql_stmt_pp )
+            sqlite3_finalize(sql_stmt);
           return SQLITE_ERROR;
         }
       }
@@ -419,21 +421,18 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  if( rc != SQLITE_DONE && status && *status == NULL ){ /* an array has no place for an error */
+    accept_result(state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From c916f81331c0b32965cc3ca9dfe9289e2920d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 52/73] fix: upserts inserted a row when the lookup failed

---
 sqlite3/cee-sqlite3.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index bf37a8d..43d9744 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -259,7 +259,9 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
-  }else{
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
+  else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
     if( rc != SQLITE_DONE )
@@ -370,7 +372,9 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
                               sqlite3_total_changes(db));
-  }
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   return rc;
 }
 
-- 
2.43.0


From 93792bd6a66332de7923a4ae48bb51a612004e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 53/73] fix: SQL update and delete reported counts of other
 statements

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 43d9744..fbfa030 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -321,7 +321,7 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
@@ -371,7 +371,7 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
+                              sqlite3_changes(db));
   }else if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
-- 
2.43.0


From 30fa077a001ec852ef6e607b4befd95bc06c40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 54/73] fix: SQL inserts truncated row ids, and gave none
 without a status

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index fbfa030..f5e3330 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -268,7 +268,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -291,8 +291,8 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+  else{
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -593,7 +593,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From c883ec384a85e9422e61b4e94c2cc362d536d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 55/73] fix: JSON-driven SQL operations kept values and nulls
 of earlier inputs

---
 sqlite3/cee-sqlite3.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f5e3330..f6ab806 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -648,6 +648,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be int",
@@ -660,6 +661,7 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be int64",
@@ -672,6 +674,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
+          data[i].is_null = 0;
+          data[i].size = 0;
         }else{
           if( p->errors )
             cee_json_array_append_strf(p->errors, "'%s' should be text",
@@ -815,9 +819,15 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
   }
 
   /* populate aaa.data with the key/value pairs from json */
-  if( aaa.info )
+  struct cee_block *given = NULL;
+  size_t data_size = 0;
+  if( aaa.info ){
+    for( int i = 0; info[i].var_name; i++ )
+      data_size += sizeof *data;
+    given = cee_block_mk_nonzero(state, data_size + 1);
+    memcpy(given, data, data_size);
     cee_json_object_iterate(json, &aaa, populate_usage);
-  else {
+  }else{
     if( NULL != aaa.data )
       cee_segfault();
     aaa.info = cee_json_to_bind_info(json);
@@ -837,6 +847,12 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
 
   int rc = f (cs, aaa.info, data, stmts, status);
 
+  if( given ){
+    /* the values of this input are not those of the next one */
+    memcpy(data, given, data_size);
+    cee_del(given);
+  }
+
   struct cee_json *debug = cee_json_object_mk(state);
   if( stmts->update_template ){
     cee_json_object_set_strf(debug, "update", "%s", stmts->update_stmt_x);
-- 
2.43.0


From 23fc31f16d12a122d1df31c75ab503e58675c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 56/73] fix: a member of the wrong kind for an SQL text or blob
 field is an error, not a crash

---
 sqlite3/cee-sqlite3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f6ab806..e9f4de6 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -670,7 +670,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         }
         break;
       case CEE_SQLITE3_TEXT:
-        if( (data[i].value = cee_json_to_str(value)->_) ){
+        if( cee_json_to_str(value) ){
+          data[i].value = cee_json_to_str(value)->_;
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
@@ -685,7 +686,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
                                    info[i].col_name);
         return 1;
       }
-- 
2.43.0


From 38e68d4c89a25e7e23a7bdd490bd5c300dfb6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 57/73] fix: the JSON-driven SQL select ended the program when
 it was to return rows

---
 sqlite3/cee-sqlite3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index e9f4de6..86b6c4f 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -807,7 +807,6 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
   };
 
   struct cee_json *result = NULL;
-  accept_result(state, status, &result);
 
   aaa.errors = cee_json_array_mk(state, 1);
   aaa.unused = cee_json_array_mk(state, 10);
@@ -868,6 +867,10 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
     stmts->insert_stmt_x = NULL;
   }
 
+  /* rows are an array, which has no place for the following */
+  if( status && (*status == NULL || cee_json_to_object(*status)) )
+    accept_result(state, status, &result);
+
   if( result == NULL ) return rc;
   
   cee_json_object_set(debug, "used_keys", aaa.used);
-- 
2.43.0


From 718929809c8e32eaff4cf8c865ef232d04412275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 58/73] fix: the JSON-driven SQL insert needed a status

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 86b6c4f..61b24d8 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -913,7 +913,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From 9411b7a25619afd19c3193fbbf5ff4cae3488bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 59/73] fix: SQL selects under a key: no row crashed, an error
 dropped the status, a new status did not get the key

---
 sqlite3/cee-sqlite3.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 61b24d8..3898bc2 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -996,12 +996,15 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   int ret = cee_sqlite3_select1(cs, info, data, sql, &one);
 
   if( cee_json_select(one, ".error") && status ){
-    *status = one;
+    if( *status )
+      cee_json_object_append(*status, "error", cee_json_select(one, ".error"));
+    else
+      *status = one;
     return ret;
   }
 
   accept_result(cs->state, status, &result);
-  if( status ){
+  if( status && one ){
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
@@ -1031,12 +1034,9 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
     return ret;
   }
 
-  if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
-  }
+  accept_result(cs->state, status, &result);
+  if( status )
+    cee_json_object_append(*status, key, array);
   return ret;
 }
 
-- 
2.43.0


From a52277ea480db4edc3ee0699fa2aea6703b07d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 60/73] fix: fields taken from a JSON object all got its first
 member; large integers ended the program

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 3898bc2..45c1338 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1055,9 +1055,9 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
@@ -1072,6 +1072,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 26027d6bfba18ea5663d53d9e179a77b061faed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 61/73] fix: the next-integer query was cut to 127 characters,
 and needed a status to fail

---
 sqlite3/cee-sqlite3.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 45c1338..0eb65f4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1100,14 +1100,15 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  struct cee_str *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                                  int_column_name, from_clause);
 
   struct cee_json *input = NULL, *max_value = NULL;
-  cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
+  cee_sqlite3_select1(cs, NULL, NULL, qx->_, &input);
+  cee_del(qx);
   if( cee_json_select(input, ".error") ){
-    *status = input;
+    if( status )
+      *status = input;
     return -1;
   }
 
@@ -1120,7 +1121,8 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
     return 1;
   }
 
-  *status = input;
+  if( status )
+    *status = input;
   return -1;
 }
 
-- 
2.43.0


From 899b953b020e97b69f2a7811d94c3e6cd4bed2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 62/73] fix: bulk insert overran its fields with objects of 50
 members

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 0eb65f4..f01c0e1 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1130,7 +1130,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1187,6 +1187,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  one_ctx.info = (void *)cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                             * sizeof(struct cee_sqlite3_bind_info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
-- 
2.43.0


From 87466eab2c13e79769a71e33406e60e982c1bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 63/73] fix: SQL joins bound values of other elements when a
 member has not the kind of its field

---
 sqlite3/join.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..2b2d226 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,8 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( info[i].type == CEE_SQLITE3_INT64 ? cee_json_to_i64x(value, &item->i64)
+            : info[i].type != CEE_SQLITE3_INT || cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -40,6 +41,12 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "json key %s's value is a string",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
         break; /* switch */
       case CEE_JSON_NULL:
-- 
2.43.0


From 50ae3596f5b643b17048e813b1943940a1277635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 64/73] fix: SQL joins cut or overran a text member when the
 given datum has a size, and kept its null

---
 sqlite3/join.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index 2b2d226..358d861 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -30,6 +30,7 @@ static int join_one (void *ctx, void *elem, int idx) {
                                info[i].col_name, info[i].var_name);
       return 1; /* stop */
     }
+    item->is_null = 0;
     switch( value->t ){
       case CEE_JSON_I64:
         if( info[i].type == CEE_SQLITE3_INT64 ? cee_json_to_i64x(value, &item->i64)
@@ -48,6 +49,7 @@ static int join_one (void *ctx, void *elem, int idx) {
           return 1; /* stop */
         }
         item->value = cee_json_to_str(value)->_;
+        item->size = 0; /* not the size of the value given before */
         break; /* switch */
       case CEE_JSON_NULL:
         cee_json_object_set_strf(
-- 
2.43.0


From 70e5acd8b4cecdb00b0084ba6859e76a46fe4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 65/73] fix: the next integer after the largest int was the
 smallest

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f01c0e1..bcb9834 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -2,6 +2,7 @@
 #define _GNU_SOURCE
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <alloca.h>
 
 void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool transaction){
@@ -1114,7 +1115,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value < INT_MAX )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
-- 
2.43.0


From 656f146eb95d4877fc4c3212ca3ebcb9e4bc0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 66/73] fix: texts of database settings and paths overran the
 given buffer

---
 sqlite3/cee_dbm.c | 67 ++++++++++-------------------------------------
 1 file changed, 14 insertions(+), 53 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index d526b0e..540808b 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -84,20 +84,15 @@ int cee_dbm_db_info_load(char *start, size_t size, struct cee_dbm_db_info *info)
 #endif
 
 size_t cee_dbm_path_info_snprint(char *buf, size_t size, struct cee_dbm_path_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf+offset, size-offset, "schema_script_path:%s, ", s->schema_script_path);
-  offset += snprintf(buf+offset, size-offset, "data_script_path:%s, ", s->data_script_path);
-  offset += snprintf(buf+offset, size-offset, "db_file_path:%s, ", s->db_file_path);
-  return offset;
+  return snprintf(buf, size, "schema_script_path:%s, data_script_path:%s, db_file_path:%s, ",
+                  s->schema_script_path, s->data_script_path, s->db_file_path);
 }
 
 size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf, size, "db_kind:%s, ", s->kind);
-  offset += snprintf(buf+offset, size-offset, "create_version:%d, ", s->create_version);
-  offset += snprintf(buf+offset, size-offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
-  offset += snprintf(buf+offset, size-offset, "restore_db:%s, ", s->restore_db ? "true":"false");
-  return offset;
+  return snprintf(buf, size, "db_kind:%s, create_version:%d, recreate_db:%s, restore_db:%s, ",
+                  s->kind, s->create_version,
+                  s->recreate_db ? "true":"false",
+                  s->restore_db ? "true":"false");
 }
 
 static void replace_home_env(char path[128], char *home_dir){
@@ -326,51 +321,17 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
 
 
 void cee_dbm_path_info2str(struct cee_dbm_path_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "schema_script_path:%s, ",  info->schema_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "data_script_path:%s, ",  info->data_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "db_file_path:%s",  info->db_file_path);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size, "schema_script_path:%s, data_script_path:%s, db_file_path:%s",
+           info->schema_script_path, info->data_script_path, info->db_file_path);
 }
 
 void cee_dbm_db_info2str(struct cee_dbm_db_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "kind:%s, ",  info->kind);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "file:%s, ",  info->file);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "recreate_db:%s, ",
-               info->recreate_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "restore_db:%s, ",
-               info->restore_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "create_version:%d, ",
-               info->create_version);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "final_version:%d",
-               info->final_version);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size, "kind:%s, file:%s, recreate_db:%s, restore_db:%s, "
+           "create_version:%d, final_version:%d",
+           info->kind, info->file,
+           info->recreate_db ? "true":"false",
+           info->restore_db ? "true":"false",
+           info->create_version, info->final_version);
 }
 
 
-- 
2.43.0


From 4e5ed595e197007b5a91b82cc244722d97f8725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 67/73] fix: expanding $HOME overran a path that becomes too
 long, and replaced the beginning of a path with $HOME elsewhere

---
 sqlite3/cee_dbm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 540808b..a512405 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -97,9 +97,10 @@ size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *
 
 static void replace_home_env(char path[128], char *home_dir){
   char buf[128];
-  if( strstr(path, "$HOME") ){
-    int n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
-    memcpy(path, buf, n+1);
+  if( strncmp(path, "$HOME", strlen("$HOME")) == 0 ){
+    size_t n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
+    if( n < sizeof buf )
+      memcpy(path, buf, n+1);
   }
 }
 
-- 
2.43.0


From 18cb013bcab8b56e77f44aca38e09105b548788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 68/73] fix: a database that cannot be opened crashed on its
 error message or was leaked

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index bcb9834..319d64b 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -13,7 +13,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 9f3cb7b8307736860be32c6fa2dd6ca84e1d1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 69/73] fix: dropping all tables left the views, so a
 recreation that makes them again failed

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 319d64b..751a657 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -68,7 +68,7 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
 
 void cee_sqlite3_drop_all_tables(sqlite3 **db, char *db_file){
   char *stmt = "PRAGMA writable_schema = 1;\n"
-    "delete from sqlite_master where type in ('table', 'index', 'trigger');\n"
+    "delete from sqlite_master where type in ('table', 'index', 'trigger', 'view');\n"
     "PRAGMA writable_schema = 0;\n";
   cee_sqlite3_init_db(db, db_file, stmt, true);
 }
-- 
2.43.0


From 8c8f2e6db5dfdb6500b9a35d6ccac199b4e4fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 70/73] fix: a backup of a missing database left the log open

---
 sqlite3/cee_dbm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index a512405..7542684 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -359,6 +359,7 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   if( access(db_file, F_OK) != 0 ){
     snprintf(log, sizeof log, "%s does not exist", db_file);
     add_log(&log_cs, kind, "backup_failed", log);
+    sqlite3_close(log_cs.db);
     return false;
   }
 
-- 
2.43.0


From 021fe87bff9b657a8e3ffd6573297af0eb95cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 71/73] fix: creating the first database in a new directory was
 not logged

---
 sqlite3/cee_dbm.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 7542684..587e762 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -213,7 +213,6 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
   char log[256];
-  open_dbm_log(path_info, &log_cs.db);
 
   char db_script[128];
   char db_file[128], *kind = s->kind;
@@ -225,12 +224,10 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   else
     snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, s->file);
 
-  snprintf(log, sizeof log, "%s", db_file);
-  add_log(&log_cs, kind, "open", log);
-
+  /* the log database is kept in a directory that may have to be created */
   char *x, dir[128];
   if( (x = rindex(db_file, '/')) ){
-    snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
+    snprintf(dir, sizeof dir, "%.*s", (int)(x - db_file), db_file);
     //extern int mkdir_p(char *dir, mode_t mode);
     if( mkdir_p(dir, 0755) ){
       perror(dir);
@@ -238,6 +235,10 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
     }
   }
 
+  open_dbm_log(path_info, &log_cs.db);
+  snprintf(log, sizeof log, "%s", db_file);
+  add_log(&log_cs, kind, "open", log);
+
   snprintf(db_script, sizeof db_script, "%s/%s_create.%d.sql",
            path_info->schema_script_path, s->kind, s->create_version);
   if( access(db_file, F_OK) == 0 ){
-- 
2.43.0


From 2f1b205efda043920d11e274c957277bf42f806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 72/73] fix: reference counts wrapped at 65536 owners, freeing
 objects that are still owned

---
 cee-common.c  | 2 +-
 cee.h         | 4 ++--
 release/cee.c | 6 +++---
 release/cee.h | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index 2eb5587..c24e476 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -85,7 +85,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t cee_get_rc (void * p) {
+uint32_t cee_get_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/cee.h b/cee.h
index 22abddf..de3aba0 100644
--- a/cee.h
+++ b/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -700,7 +700,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
diff --git a/release/cee.c b/release/cee.c
index 6513d22..820676d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -98,7 +98,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -709,7 +709,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
@@ -1317,7 +1317,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t cee_get_rc (void * p) {
+uint32_t cee_get_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
diff --git a/release/cee.h b/release/cee.h
index 22abddf..de3aba0 100644
--- a/release/cee.h
+++ b/release/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -700,7 +700,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
-- 
2.43.0


From f06e184db870c7e52625a4c7c1a778a9cc75e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:01 +0000
Subject: [PATCH 73/73] fix: cee_dbm truncated the paths of databases and
 scripts to 127 characters

---
 sqlite3/cee_dbm.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 587e762..797d918 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -15,6 +15,12 @@
 #include <libgen.h>
 #include <time.h>
 
+/*
+ * a directory of struct cee_dbm_path_info can have 127 characters, the names
+ * of databases and scripts follow it: a truncated path denotes another file
+ */
+#define CEE_DBM_PATH_SIZE 4096
+
 /*
  *
  * the same as "mkdir -p <path>"
@@ -114,7 +120,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
                      struct cee_dbm_path_info *path_info,
                      char *db_kind, char *db_file,
                      sqlite3* (*open_db)(const char *db_file)){
-  char file[128];
+  char file[CEE_DBM_PATH_SIZE];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -126,7 +132,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
 void cee_dbm_attach_db(struct cee_sqlite3 *cs,
                        struct cee_dbm_path_info *path_info,
                        char *db_file, char *as_name){
-  char file[256];
+  char file[CEE_DBM_PATH_SIZE + 128];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -154,7 +160,7 @@ static int get_user_version(const char *db_file){
 
 
 void open_dbm_log(struct cee_dbm_path_info *path_info, sqlite3 **db){
-  char db_file[128];
+  char db_file[CEE_DBM_PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/cee_dbm_log.db", path_info->db_file_path);
   cee_sqlite3_init_db(db, db_file,
                       "create table if not exists log("
@@ -198,7 +204,7 @@ void my_apply_script(char *kind, const char *db_file, const char *script_file, s
 }
 
 bool cee_dbm_db_exist(struct cee_dbm_path_info *path_info, const char *db_file_){
-  char db_file[128];
+  char db_file[CEE_DBM_PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, db_file_);
   if( access(db_file, F_OK) == 0 )
     return true;
@@ -214,8 +220,8 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   struct cee_sqlite3 log_cs = {0};
   char log[256];
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[CEE_DBM_PATH_SIZE];
+  char db_file[CEE_DBM_PATH_SIZE], *kind = s->kind;
   bool is_new_db = false;
   int current_version, migrated_version;
 
@@ -225,7 +231,7 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
     snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, s->file);
 
   /* the log database is kept in a directory that may have to be created */
-  char *x, dir[128];
+  char *x, dir[CEE_DBM_PATH_SIZE];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", (int)(x - db_file), db_file);
     //extern int mkdir_p(char *dir, mode_t mode);
@@ -345,8 +351,8 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   char log[256];
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[2 * CEE_DBM_PATH_SIZE + 64];
+  char db_file[CEE_DBM_PATH_SIZE], *kind = s->kind;
   int current_version;
 
   if( db_file_ )
-- 
2.43.0

