From c38f26c8b45d460854808ff99e2db608cda1ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 001/102] fix: keep heap-reachable strings interned across a
 minor collection

The string table was swept before the write barrier and the old
generation were scanned, so every string that was not directly on the
stack lost its entry: equal texts were no longer identical and table
lookups by such a key failed.
---
 core/gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index d610985..24cb46b 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -160,8 +160,6 @@ static int potion_gc_minor(Potion *P, int sz) {
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
 
-  GC_MINOR_STRINGS();
-
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
@@ -174,6 +172,9 @@ static int potion_gc_minor(Potion *P, int sz) {
     scanptr = potion_mark_minor(P, scanptr);
   scanptr = 0;
 
+  // weak, so only after everything reachable is copied
+  GC_MINOR_STRINGS();
+
   sz += 2 * POTION_PAGESIZE;
   sz = max(sz, potion_birth_suggest(sz, M->old_lo, M->old_cur));
 
-- 
2.43.0


From 0fb223bd8324fa393f31e70ae364d2990f874ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 002/102] fix: table filter drops the rejected keys, not the
 bucket they had in the original

---
 core/table.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index cc4ed80..fda425d 100644
--- a/core/table.c
+++ b/core/table.c
@@ -275,8 +275,10 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
                                                       kh_val(PN, t, k));
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
-      if (!PN_TEST(ret))
-        kh_del(PN, t2, k);
+      if (!PN_TEST(ret)) { // the clone may be laid out differently
+        unsigned k2 = kh_get(PN, t2, kh_key(PN, t, k));
+        if (k2 != kh_end(t2)) kh_del(PN, t2, k2);
+      }
     }
   PN_TOUCH(t2);
   return (PN)t2;
-- 
2.43.0


From 3dda74deb2064b2a109fafb46b0a665ce6162e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 003/102] fix: push on a list with no capacity wrote past its
 storage

---
 core/table.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index fda425d..da50b72 100644
--- a/core/table.c
+++ b/core/table.c
@@ -313,8 +313,9 @@ PN potion_tuple_push(Potion *P, PN tuple, PN value) {
   vPN(Tuple) t = PN_GET_TUPLE(tuple);
   DBG_CHECK_TUPLE(t);
   if (t->len >= t->alloc) {
-    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len * 2)); // overalloc by 2 times
-    t->alloc = t->len * 2;
+    PN_SIZE alloc = t->len ? t->len * 2 : 3; // overalloc by 2 times
+    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * alloc);
+    t->alloc = alloc;
   }
   t->set[t->len] = value;
   t->len++;
-- 
2.43.0


From 412e9354d9dfd5dc0d24753658c5aab3f2044070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 004/102] fix: pop and shift on an empty list return nil
 instead of crashing

---
 core/table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index da50b72..59b76ea 100644
--- a/core/table.c
+++ b/core/table.c
@@ -563,6 +563,7 @@ PN potion_tuple_string(Potion *P, PN cl, PN self) {
 PN potion_tuple_pop(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[t->len - 1];
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
@@ -616,8 +617,9 @@ PN potion_tuple_unshift(Potion *P, PN cl, PN self, PN value) {
 PN potion_tuple_shift(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[0];
-  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len);
+  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len - 1);
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
   PN_TOUCH(self);
-- 
2.43.0


From 7d7e1bac7d90d4e5c916cab0eac46d9fed26b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 005/102] fix: list at and put with an index before the first
 element went out of bounds

---
 core/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 59b76ea..9d7af4d 100644
--- a/core/table.c
+++ b/core/table.c
@@ -369,7 +369,7 @@ PN potion_tuple_at(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(self);
   long i = PN_INT(index), len = PN_TUPLE_LEN(self);
   if (i < 0) i += len;
-  if (i >= len) return PN_NIL;
+  if (i < 0 || i >= len) return PN_NIL;
   return PN_TUPLE_AT(self, i);
 }
 
@@ -582,7 +582,7 @@ PN potion_tuple_put(Potion *P, PN cl, PN self, PN key, PN value) {
     DBG_CHECK_TUPLE(self);
     long i = PN_INT(key), len = PN_TUPLE_LEN(self);
     if (i < 0) i += len;
-    if (i < len) {
+    if (i >= 0 && i < len) {
       PN_TUPLE_AT(self, i) = value;
       PN_TOUCH(self);
       return self;
-- 
2.43.0


From b7e4ee278da272734f819301746d0860bf9e51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 006/102] fix: remove and delete of an index outside the list
 dropped its last element

---
 core/table.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/table.c b/core/table.c
index 9d7af4d..24811e3 100644
--- a/core/table.c
+++ b/core/table.c
@@ -673,12 +673,14 @@ PN potion_tuple_remove(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
+    long i = PN_INT(index);
     PN data = potion_tuple_clone(P, cl, self);
     t = PN_GET_TUPLE(data);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    if (i < 0) i += t->len;
+    if (i >= 0 && i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     //((struct PNFwd *)data)->ptr = (PN)t;
     PN_TOUCH(data);
     return data;
@@ -694,10 +696,12 @@ PN potion_tuple_delete(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    long i = PN_INT(index);
+    if (i < 0) i += t->len;
+    if (i >= 0 && i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     PN_TOUCH(self);
   }
   return self;
-- 
2.43.0


From 4765d741bbb98ccf6ffe30d58479b30b49347a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 007/102] fix: list slice copied elements from outside the list

---
 core/table.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 24811e3..7736e8f 100644
--- a/core/table.c
+++ b/core/table.c
@@ -423,10 +423,11 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     l = e - i;
     if (l < 0) { i = e; l = labs(l) + 1; }
     else l++;
-    if (l > t1->len) l = t1->len; // permit overshoots
   }
+  if (i < 0) { l += i; i = 0; }
+  if (l > t1->len - i) l = t1->len - i; // permit overshoots
   DBG_vt("; splice(i=%ld,len=%ld)\n", i, l);
-  if (!l || i >= t1->len) return PN_NIL;
+  if (l <= 0) return PN_NIL;
   NEW_TUPLE(t2, l);
   PN_MEMCPY_N(&t2->set[0], &t1->set[i], PN, l);
   t2->alloc = l;
-- 
2.43.0


From 4cb2eece29653fb347e4f85f93634b0528af05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 008/102] fix: list sort by identity skipped the element next
 to the pivot

---
 core/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index 7736e8f..5652af9 100644
--- a/core/table.c
+++ b/core/table.c
@@ -769,7 +769,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     // inclusively, by moving all elements less than pivot before
     // the pivot, and the equal or greater elements after it.
     if (cmp == PN_NIL) { // default: sort by uniq, not value
-      for (i=from; i < to-1; i++) { // from ≤ i < to
+      for (i=from; i < to; i++) { // from ≤ i < to
 	if (PN_UNIQ(GET(i)) <= PN_UNIQ(pivot)) { SWAP(i, index); index++; }
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
-- 
2.43.0


From babfa40aca5ded2956abed1e2726014a6ba5f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 009/102] fix: list sort put negative integers after the
 positive ones

---
 core/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/table.c b/core/table.c
index 5652af9..a84ddab 100644
--- a/core/table.c
+++ b/core/table.c
@@ -774,13 +774,13 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
       for (i=from; i < to; i++) {
-	if (GET(i) <= pivot) {
+	if ((long)GET(i) <= (long)pivot) {
 	  SWAP(i, index); index++;
 	}
       }
     } else if (cmp == PN_FALSE) { // sort by descending number
       for (i=from; i < to; i++) {
-	if (GET(i) > pivot) { SWAP(i, index); index++;
+	if ((long)GET(i) > (long)pivot) { SWAP(i, index); index++;
 	}
       }
     } else {
@@ -860,7 +860,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_TRUE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) > GET(j)) {
+	while (j > 0 && (long)GET(j-1) > (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
@@ -869,7 +869,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_FALSE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) < GET(j)) {
+	while (j > 0 && (long)GET(j-1) < (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From c24bec26d1544ecc612c317f07e70435251cf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 010/102] fix: list sort crashed on an empty list and with a
 comparison closure

---
 core/table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/table.c b/core/table.c
index a84ddab..d500721 100644
--- a/core/table.c
+++ b/core/table.c
@@ -786,7 +786,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     } else {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
+	if (PN_INT(c->method(P, cmp, P->lobby, GET(i), pivot)) <= 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -819,7 +819,7 @@ static PN potion_tuple_sort(Potion *P, PN cl,
   PN_SIZE len = PN_TUPLE_LEN(self);
   if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
-  potion_sort_internal(P, cl, data, 0, len-1, cmp);
+  if (len) potion_sort_internal(P, cl, data, 0, len-1, cmp);
   return data;
 }
  
@@ -851,7 +851,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
       c = PN_CLOSURE(cmp);
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && PN_INT(c->method(P, cl, cmp, GET(j-1), GET(j))) > 0) {
+	while (j > 0 && PN_INT(c->method(P, cmp, P->lobby, GET(j-1), GET(j))) > 0) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From a6fb9851fa89025a721838ce738495d88fafbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 011/102] fix: list cmp returned untagged values and compared
 the wrong elements

---
 core/table.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/table.c b/core/table.c
index d500721..b68e69c 100644
--- a/core/table.c
+++ b/core/table.c
@@ -893,9 +893,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
   DBG_CHECK_TYPE(self,PN_TTUPLE);
   switch (potion_type(value)) {
   case PN_TBOOLEAN: // false < () < true
-    return value == PN_FALSE ? -1 : 1;
+    return PN_NUM(value == PN_FALSE ? -1 : 1);
   case PN_TNIL:
-    return -1; //nil < () < (...)
+    return PN_NUM(-1); //nil < () < (...)
   case PN_TTUPLE: // recurse
     if(PN_TUPLE_LEN(self) && PN_TUPLE_LEN(value)) {
       PN cmp;
@@ -905,8 +905,8 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
 	{
 	  PN t1 = potion_tuple_clone(P,cl,self);
 	  PN t2 = potion_tuple_clone(P,cl,value);
-	  potion_tuple_pop(P,cl,t1);
-	  potion_tuple_pop(P,cl,t2);
+	  potion_tuple_shift(P,cl,t1);
+	  potion_tuple_shift(P,cl,t2);
 	  return potion_send(t1, PN_cmp, t2);
 	}
       else {
@@ -914,9 +914,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
       }
     }
     else {
-      if (PN_TUPLE_LEN(value)) return -1;
-      else if (PN_TUPLE_LEN(self)) return 1;
-      else return 0;
+      if (PN_TUPLE_LEN(value)) return PN_NUM(-1);
+      else if (PN_TUPLE_LEN(self)) return PN_NUM(1);
+      else return PN_ZERO;
     }
   default:
     potion_fatal("Invalid tuple cmp type");
-- 
2.43.0


From 498e17647ec586139a821ebc2e774e6d20e31299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 012/102] fix: map results were lost to a collection run by the
 mapped block

---
 core/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/table.c b/core/table.c
index b68e69c..c3d3647 100644
--- a/core/table.c
+++ b/core/table.c
@@ -111,6 +111,7 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      PN_TOUCH(t2);
     }
   PN_TOUCH(t2);
   return (PN)t2;
@@ -463,6 +464,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
+    PN_TOUCH(t);
   });
   return (PN)t;
 }
-- 
2.43.0


From 58778818293da5129b10c422eef73c43202b28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 013/102] fix: formatted strings were not interned, so equal
 strings compared unequal

---
 core/string.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index c246015..e455aa4 100644
--- a/core/string.c
+++ b/core/string.c
@@ -92,7 +92,12 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   vsnprintf(s->chars, len + 1, format, args);
   va_end(args);
   s->len = len;
-  return (PN)s;
+  PN exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
 }
 
 ///\memberof PNString
-- 
2.43.0


From 3328fb45a5cb233961980976bc3335e5fe6d0295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 014/102] fix: bytes clone did not copy the contents

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index e455aa4..8310207 100644
--- a/core/string.c
+++ b/core/string.c
@@ -360,6 +360,7 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
   vPN(Bytes) s = PN_ALLOC_N(PN_TBYTES, struct PNBytes, b->siz);
   s->siz = b->siz;
   s->len = b->len;
+  PN_MEMCPY_N(s->chars, b->chars, char, b->len + 1);
   return (PN)s;
 }
 
-- 
2.43.0


From 40436e013d50be96165f551f8500631f01763755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 015/102] fix: bytes append of itself read the storage it had
 just moved away

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index 8310207..43dda86 100644
--- a/core/string.c
+++ b/core/string.c
@@ -406,6 +406,7 @@ PN potion_bytes_append(Potion *P, PN cl, PN self, PN str) {
     s->siz = (PN_SIZE)siz;
   }
 
+  fstr = potion_fwd(str); // moved by the above if it is self
   PN_MEMCPY_N(s->chars + s->len, PN_STR_PTR(fstr), char, len);
   s->len += len;
   s->chars[s->len] = '\0';
-- 
2.43.0


From 8052557c091ad382ada739e82200572457418bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 016/102] fix: string ord with a negative index read before the
 string

---
 core/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 43dda86..4935e27 100644
--- a/core/string.c
+++ b/core/string.c
@@ -322,7 +322,7 @@ static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
   if (PN_STR_LEN(self) > 255) goto slow;
   else {
     long len = potion_cp_strlen_utf8(str);
-    if (len == PN_STR_LEN(self) && PN_INT(index) < len) {
+    if (len == PN_STR_LEN(self) && PN_INT(index) >= 0 && PN_INT(index) < len) {
       return PN_NUM(str[PN_INT(index)]);
     }
     else {
-- 
2.43.0


From fa7393b095453288bd7b9a11feb4053ee7691798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 017/102] fix: string slice, at, bytes and bytes each read
 storage a collection had moved

---
 core/string.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/core/string.c b/core/string.c
index 4935e27..bcfb073 100644
--- a/core/string.c
+++ b/core/string.c
@@ -240,6 +240,22 @@ inline static PN potion_str_slice_index(PN index, size_t len, int nilvalue) {
   return PN_NUM(corrected);
 }
 
+/// the len bytes from offset of string self. The allocation may move self,
+/// so take its storage only afterwards.
+static PN potion_str_sub(Potion *P, PN self, size_t offset, size_t len) {
+  PN exist = PN_NIL;
+  vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  s->len = (PN_SIZE)len;
+  PN_MEMCPY_N(s->chars, PN_STR_PTR(self) + offset, char, len);
+  s->chars[len] = '\0';
+  exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
+}
+
 ///\memberof PNString
 /// "slice" method. supports negative indices, and end<start
 ///\param start PNInteger
@@ -268,13 +284,15 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
   }
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_sub(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
 /// "bytes" method. Convert PNString to PNBytes
 static PN potion_str_bytes(Potion *P, PN cl, PN self) {
-  return potion_byte_str2(P, PN_STR_PTR(self), PN_STR_LEN(self));
+  vPN(Bytes) s = (struct PNBytes *)potion_bytes(P, PN_STR_LEN(self));
+  PN_MEMCPY_N(s->chars, PN_STR_PTR(self), char, PN_STR_LEN(self) + 1);
+  return (PN)s;
 }
 
 ///\memberof PNString
@@ -309,7 +327,7 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
   }
   startoffset = potion_utf8char_offset(str, start);
   endoffset = potion_utf8char_nextchar(str, startoffset);
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_sub(P, potion_fwd(self), startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
@@ -453,10 +471,11 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
   self = potion_fwd(self);
-  char *s = PN_STR_PTR(self);
   int i;
   for (i = 0; i < PN_STR_LEN(self); i++) {
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &s[i], 1));
+    char c = PN_STR_PTR(self)[i];
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
+    self = potion_fwd(self);
   }
   return PN_NIL;
 }
-- 
2.43.0


From 61b9bb2ba0b8aba0ec766e56528266a35f534d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 018/102] fix: string at the end index read past the
 terminating zero

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index bcfb073..d0f2141 100644
--- a/core/string.c
+++ b/core/string.c
@@ -169,6 +169,7 @@ static size_t potion_utf8char_offset(const char *s, size_t index) {
 /// returns byte position of next utf8 char after s[offset]
 static size_t potion_utf8char_nextchar(const char *s, size_t offset) {
   size_t i;
+  if (!s[offset]) return offset;
   for (i = offset+1; s[i]; i++)
     if ((s[i] & 0xC0) != 0x80)
       return i;
-- 
2.43.0


From 1b0276c62f9c59ff7990eb7ec8fc17a69c29c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 019/102] fix: string of a large double overflowed its buffer

---
 core/number.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index 2d674f9..bcbfd61 100644
--- a/core/number.c
+++ b/core/number.c
@@ -239,7 +239,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[340];
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -250,7 +250,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[340];
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-- 
2.43.0


From 5247057d4e88216ac9c01bc8b4ed47bbcf5a976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 020/102] fix: the JIT computed / % << >> in 32 bits and +
 without overflow check

---
 core/vm-x86.c | 55 +++++++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed3fc7c..d06d924 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -673,8 +673,9 @@ void potion_x86_setpath(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 void potion_x86_add(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_add, {
-    X86_PRE(); ASMS("\x8D\x44\x10\xFF"); // lea -1(%eax,%edx,1),%eax
-    ASM(0x70); ASM(2);                   // jo +2
+    X86_PRE(); ASM(0xFF); ASM(0xC8); // dec %eax
+    X86_PRE(); ASM(0x01); ASM(0xD0); // add %edx %eax, sets OF (lea does not)
+    ASM(0x70); ASM(2);               // jo [a]
   });
 }
 
@@ -701,26 +702,24 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_div(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_div, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99);		// cqo, sign-extend %rax into %rdx
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_rem(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_rem, {
-    ASMS("\xD1\xF8"	  	// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x12\x01");   // lea 0x1(%edx,%edx,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99);		// cqo, sign-extend %rax into %rdx
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x12\x01"); // lea 0x1(%rdx,%rdx,1),%rax
   });
 }
 
@@ -797,26 +796,22 @@ void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_bitl(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitl, {
-      ASMS("\xD1\xF8" 		// sar %eax
-	   "\xD1\xFA" 		// sar %edx
-	   "\x89\xD1" 		// mov %edx %ecx
-	   "\x89\xC2" 		// mov %eax %edx
-	   "\xD3\xE0"); 	// sal %cl %eax
-      ASM(0x70); ASM(6);        // jo +6
-      ASMS("\x8D\x44\x00\x01"); // lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xE0"); 	// sal %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_bitr(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitr, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA"		// sar %edx
-	 "\x89\xD1"		// mov %edx %ecx
-	 "\x89\xC2"		// mov %eax %edx
-	 "\xD3\xF8");		// sar %cl %eax
-    ASM(0x70); ASM(6);          // jo +6
-    ASMS("\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xF8"); 	// sar %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
-- 
2.43.0


From 39cc6d2d382ec084649429f5c8572b309968551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 021/102] fix: integer + - * ** methods wrapped around instead
 of becoming a double

---
 core/number.c | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/core/number.c b/core/number.c
index bcbfd61..cd79994 100644
--- a/core/number.c
+++ b/core/number.c
@@ -13,6 +13,9 @@
 #include "potion.h"
 #include "internal.h"
 
+/// does the long fit into the tagged integer range?
+#define PN_INT_FITS(z) ((z) >= PN_INT(LONG_MIN) && (z) <= PN_INT(LONG_MAX))
+
 /// new PNDouble (double)
 PN potion_double(Potion *P, double v) {
   vPN(Double) d = PN_ALLOC(PN_TNUMBER, struct PNDouble);
@@ -32,10 +35,20 @@ PN potion_strtod(Potion *P, char *str, int len) {
  \return PNNumber (PNInteger or PNDouble) */
 PN potion_num_pow(Potion *P, PN cl, PN self, PN sup) {
   double x = PN_DBL(self), y = PN_DBL(sup);
-  double z = pow(x, y);
-  if (PN_IS_INT(self) && PN_IS_INT(sup) && fabs(z) < INT_MAX)
-    return PN_NUM((int)z);
-  return potion_double(P, z);
+  if (PN_IS_INT(self) && PN_IS_INT(sup)) {
+    long b = PN_INT(self), n = PN_INT(sup), z = 1;
+    int over = 0;
+    if (n < 0)
+      return PN_NUM((int)pow(x, y));
+    while (n > 0 && !over) { // square and multiply, exact
+      if (n & 1) over = __builtin_smull_overflow(z, b, &z);
+      n >>= 1;
+      if (n > 0 && !over) over = __builtin_smull_overflow(b, b, &b);
+    }
+    if (!over && PN_INT_FITS(z))
+      return PN_NUM(z);
+  }
+  return potion_double(P, pow(x, y));
 }
 /**\memberof PNNumber
   "sqrt" as double
@@ -50,6 +63,22 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
   if (PN_IS_INT(self) && PN_IS_INT(num)) \
     return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
+// integer + - * whose result leaves the integer range becomes a double
+#define PN_INT_OVER(math_op, ov) ({ \
+  long _z; \
+  if (__builtin_s##ov##l_overflow(PN_INT(self), PN_INT(num), &_z) || !PN_INT_FITS(_z)) \
+    return potion_double(P, (double)PN_INT(self) math_op (double)PN_INT(num)); \
+  return PN_NUM(_z); })
+#define PN_NUM_MATH3(math_op, ov) \
+  DBG_CHECK_NUM(self); \
+  DBG_CHECK_NUM(num); \
+  if (PN_IS_INT(self) && PN_IS_INT(num)) \
+    PN_INT_OVER(math_op, ov); \
+  return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
+#define PN_INT_MATH3(math_op, ov) \
+  DBG_CHECK_INT(self); \
+  DBG_CHECK_INT(num); \
+  PN_INT_OVER(math_op, ov);
 #define PN_INT_MATH(math_op) \
   DBG_CHECK_INT(self); \
   DBG_CHECK_INT(num); \
@@ -64,7 +93,7 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(+)
+  PN_NUM_MATH3(+, add)
 }
 
 /**\memberof PNNumber
@@ -72,7 +101,7 @@ static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(-)
+  PN_NUM_MATH3(-, sub)
 }
 
 /**\memberof PNNumber
@@ -80,7 +109,7 @@ static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(*)
+  PN_NUM_MATH3(*, mul)
 }
 
 /**\memberof PNNumber
@@ -136,17 +165,17 @@ static PN potion_num_bitr(Potion *P, PN cl, PN self, PN num) {
   "+" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_add(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(+) }
+static PN potion_int_add(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH3(+, add) }
 /**\memberof PNInteger
   "-" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(-) }
+static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH3(-, sub) }
 /**\memberof PNInteger
   "*" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(*) }
+static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH3(*, mul) }
 /**\memberof PNInteger
   "/" method
  \param num PNInteger
-- 
2.43.0


From 88c1d0237aa6eaff95174ab25e4b62a9a6a259ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 022/102] fix: the interpreter truncated the results of ** to a
 C int

---
 core/vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 8c869ed..cb36c4b 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -750,8 +750,10 @@ reentry:
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
       CASE(DIV, PN_VM_MATH2(div, /))
       CASE(REM, PN_VM_MATH2(rem, %))
-      CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
-					    (double)PN_INT(reg[op.b]))))
+      CASE(POW,
+           PN_CHECK_NUM(reg[op.a]);
+           PN_CHECK_NUM(reg[op.b]);
+           reg[op.a] = potion_num_pow(P, PN_NIL, reg[op.a], reg[op.b]))
 #ifdef P2
       CASE(NOT, reg[op.a] = PN_ZERO == reg[op.a] ? PN_TRUE : PN_BOOL(!PN_TEST(reg[op.a])))
 #else
-- 
2.43.0


From dda8a0d153649f9e0062f5c80260a3a148a26a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 023/102] fix: the else branch ran too when the taken branch
 left a false temporary

---
 core/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 787668d..85f02d5 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -614,6 +614,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing if body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE); // the body may have used this register
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_elsif) {
         int jmp1 = PN_OP_LEN(f->asmb), jmp2; breg++;
@@ -626,6 +627,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing elsif body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE);
         PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
         PN_OP_AT(f->asmb, jmp2).b = (PN_OP_LEN(f->asmb) - jmp2) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_else) {
-- 
2.43.0


From 102a3eacd89f0917be02b0ee555ef01f77012acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 024/102] fix: a list receiving messages inside an expression
 lost the messages

---
 core/compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index 85f02d5..4d5da4b 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -185,7 +185,8 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   if (reg >= PN_INT(f->stack)) \
     f->stack = PN_NUM(reg + 1)
 #define PN_ARG(n, reg) \
-  if (PN_PART(t->a[n]) == AST_EXPR && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST) { \
+  if (PN_PART(t->a[n]) == AST_EXPR && PN_TUPLE_LEN(PN_S(t->a[n],0)) == 1 && \
+      PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST) {           \
     PN test = PN_S(PN_TUPLE_AT(PN_S(t->a[n],0), 0), 0);			\
     if (!PN_IS_NIL(test)) {						\
       DBG_c("expr (list %s) => %s\n", AS_STR(test), AS_STR(test));	\
-- 
2.43.0


From a1cb5d731e99fb41e1d70ba083af754d8b1d30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 025/102] fix: integer literals outside the integer range
 wrapped around

---
 core/syntax.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/syntax.y b/core/syntax.y
index c77bc0f..1accee2 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -195,7 +195,8 @@ immed = nil   { $$ = PN_NIL; }
       | true  { $$ = PN_TRUE; }
       | false { $$ = PN_FALSE; }
       | hex   { $$ = PN_NUM(PN_ATOI(yytext, yyleng, 16)) }
-      | dec   { if ($$ == YY_TINT) {
+      | dec   { if ($$ == YY_TINT && strtol(yytext, NULL, 10) <= PN_INT(LONG_MAX)
+                      && strtol(yytext, NULL, 10) >= PN_INT(LONG_MIN)) {
                   $$ = PN_NUM(PN_ATOI(yytext, yyleng, 10));
                 } else {
                   $$ = potion_strtod(P, yytext, yyleng);
-- 
2.43.0


From 7fac337e39cf421d6995a1a318527a14c57d3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 026/102] fix: calls with defaults corrupted the interpreter's
 frames, deep calls lost their last argument, locals kept old values

---
 core/vm.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index cb36c4b..1f90102 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -637,8 +637,8 @@ reentry:
 
   if (pos == 0) {
     reg[-1] = reg[0] = self;
-    //if (f->localsize)
-    //  memset((void*)locals, 0, sizeof(PN) * f->localsize);
+    if (f->localsize) // not the values an earlier call left there
+      memset((void*)locals, 0, sizeof(PN) * f->localsize);
     if (upc > 0 && upargs != NULL) {
       PN_SIZE i;
       for (i = 0; i < upc; i++) {
@@ -830,17 +830,9 @@ reentry:
                 }
               }
               reg[op.a] = potion_call(P, reg[op.a], op.b - op.a, reg + op.a + 1);
-            } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
-	      DBG_vt(" >stack");
-              PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i < op.b - op.a; i++)
-                PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
-              reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
-                cl->extra - 1, &cl->data[1]);
             } else {
-	      DBG_vt(" stack");
-              self = reg[op.a + 1];
-              args = &reg[op.a + 2];
+              vPN(Proto) callee = PN_PROTO(cl->data[0]);
+              PN_SIZE extra = 0; // registers needed for the defaults
               if (PN_IS_TUPLE(sig)) {
 		int arity = cl->arity;
 		PN err = potion_sig_check(P, cl, arity, numargs);
@@ -851,13 +843,29 @@ reentry:
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
-                  f->stack = PN_NUM(PN_INT(f->stack)+1);
+                  extra++;
                   op.b++;
                 }
               }
+              if (((reg - stack) + PN_INT(f->stack) + extra + callee->upvalsize + callee->localsize
+                   + PN_INT(callee->stack) + 24) >= STACK_MAX) {
+                PN argt;
+                DBG_vt(" >stack");
+                argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
+                for (i = 2; i <= op.b - op.a; i++)
+                  PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
+                cl = PN_CLOSURE(reg[op.a]);
+                reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
+                  cl->extra - 1, &cl->data[1]);
+                break;
+              }
+              DBG_vt(" stack");
+              self = reg[op.a + 1];
+              args = &reg[op.a + 2];
               upc = cl->extra - 1;
               upargs = &cl->data[1];
-              current = reg + PN_INT(f->stack) + 2;
+              current = reg + PN_INT(f->stack) + extra + 3;
+              current[-3] = (PN)extra;
               current[-2] = (PN)f;
               current[-1] = (PN)pos;
 
@@ -893,7 +901,7 @@ reentry:
           pos = (PN_SIZE)current[-1];
           op = PN_OP_AT(f->asmb, pos);
 
-          reg = current - (PN_INT(f->stack) + 2);
+          reg = current - (PN_INT(f->stack) + (PN_SIZE)current[-3] + 3);
           current = reg - (f->localsize + f->upvalsize + 1);
           reg[op.a] = val;
           pos++;
-- 
2.43.0


From e09dad33d29e5fddf05d2b0256eba6fbe6bc9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 027/102] fix: the JIT jumped wrongly or wrote outside its
 frame with more than 16 registers

---
 core/vm-x86.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index d06d924..f29cbfd 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -22,7 +22,7 @@ the x86 and x86_64 jit.
 #define X86_PRE_T 0
 #define X86_PRE()
 #define X86_POST()
-#define X86C(op32, op64, n, reg) op32+((reg)>15?(n)*3:0)
+#define X86C(op32, op64, n, reg) op32+((reg)>31?(n)*3:0)
 #ifdef DEBUG
 # define ASM_MOV_EBP(op, reg)				\
   if (reg > 31) {					\
@@ -38,7 +38,7 @@ the x86 and x86_64 jit.
 #define X86_PRE_T 1
 #define X86_PRE()  ASM(0x48)
 #define X86_POST() ASM(0x48); ASM(0x98)
-#define X86C(op32, op64, n, reg) op64+((reg)>31?(n)*3:0)
+#define X86C(op32, op64, n, reg) op64+((reg)>15?(n)*3:0)
 # ifdef DEBUG
 # define ASM_MOV_EBP(op, reg)				\
   if (reg > 15) {					\
@@ -918,7 +918,7 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 #else
   if (op.a + 2 > 15) {
     DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2); //!! +2 only XXX
-    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASM(RBP(op.a + 2)); ASM(0xff); ASM(0xff);
+    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASMI(RBPN(op.a + 2));
   } else {
     X86_PRE(); ASM(0x89); ASM(0x54); ASM(0xC5); ASM(RBP(op.a + 2)); // mov %rdx -A(%rbp,%rax,8)
   }
@@ -1008,7 +1008,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_PRE(); ASM(0x89); ASM(0x45); ASM(RBP(op.a)); 	// mov %rbp(A) %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 68787ae0a46f5f4863c2793c20210cfc9594e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 028/102] fix: the JIT clobbered %rbx of its caller when
 passing more than three arguments

---
 core/vm-x86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index f29cbfd..f847cec 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -397,15 +397,16 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
     break;
     default: // can only pass max 6 arg via regs, rest on stack
       if (out) {
-	X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	// via %r11: %rbx belongs to our caller
+	ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
 	if (argn == 6) {
-	  X86_PRE(); ASMS("\x89\x1c\x24");    // mov %rbx (%rsp)
+	  ASM(0x4c); ASMS("\x89\x1c\x24");    // mov %r11 (%rsp)
 	} else {
-	  X86_PRE(); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %rbx N(%rsp)
+	  ASM(0x4c); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	X86_PRE(); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
-	X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
+	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
   }
-- 
2.43.0


From de1494985c13230992d826781ddc68a5d8d62238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 029/102] fix: the JIT detached a captured variable from its
 closures when it was assigned, and skipped the write barrier

---
 core/vm-x86.c | 42 ++++++++++++++++++++++++++++--------------
 core/vm.c     |  4 ++--
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index f847cec..e832ee5 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -520,24 +520,37 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x89, op.a); 		     // a: mov %eax %esp(A)
 }
 
+// write a variable captured by closures, for setlocal and setupval
+static void potion_f_setref(Potion *P, PN ref, PN value) {
+  PN_DEREF(ref) = value;
+  PN_TOUCH(ref);
+}
+
 // if (PN_IS_REF(locals[op.b])) PN_DEREF(locals[op.b])  = reg[op.a];
 // else locals[op.b] = reg[op.a];
-void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs) {
+void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PN_HAS_UPVALS(up);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// mov %rsp(A) %rdx
+  int tag_a1 = 0, tag_a2 = 0, tag_a3 = 0, tag_b = 0;
   if (up) { // upvals need to be deref'd
     X86_MOV_RBP(0x8B, regs + op.b); 			// mov %rsp(B) %rax
-    ASMS("\xF6\xC0\x01" 				// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
+    ASMS("\xF6\xC0\x01"); 				// test 0x1 %al
+    TAG_JMPF(0x75, tag_a1); 				// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 			// jz a
+    TAG_JMPF(0x74, tag_a2); 				// jz a
     ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
-    ASM(0x75); ASM(X86C(3,4, 0,0)); 			// jnz a
-    X86_PRE(); ASM(0x89); ASM(0x50);
-               ASM(sizeof(struct PNObject)); 		// mov N(%rax) %rax
+    TAG_JMPF(0x75, tag_a3); 				// jnz a
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(regs + op.b, 1);
+    X86_ARGO(op.a, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_setref); 	// mov &potion_f_setref %rax
+    ASM(0xFF); ASM(0xD0); 				// callq %rax
+    TAG_JMPF(0xEB, tag_b); 				// jmp b, the local stays the ref
+    TAG_LABEL(tag_a1); TAG_LABEL(tag_a2); TAG_LABEL(tag_a3);
   }
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// a: mov %rdx %rsp(B)
+  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// a: mov %rsp(A) %rdx
+  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)	// mov %rdx %rsp(B)
+  if (up) { TAG_LABEL(tag_b); }				// b:
 }
 
 // reg[op.a] = PN_DEREF(upvals[op.b])
@@ -549,12 +562,13 @@ void potion_x86_getupval(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 }
 
 // PN_DEREF(upvals[op.b]) = reg[op.a]
-// TODO: place the upval in the write barrier (or have stack scanning handle weak refs)
-void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs) {
+void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 		// mov -A(%rbp) %edx
-  X86_MOV_RBP(0x8B, lregs + op.b); 				// mov %rsp(B) %rax
-  X86_PRE(); ASM(0x89); ASM(0x50); ASM(sizeof(struct PNObject));// mov %rdx %rax.data
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(lregs + op.b, 1);
+  X86_ARGO(op.a, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_f_setref); 		// mov &potion_f_setref %rax
+  ASM(0xFF); ASM(0xD0); 				// callq %rax
 }
 
 void potion_x86_global(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index 1f90102..e3cd24a 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -304,9 +304,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(SELF, (P, f, &asmb, pos, need))   // prepare an object method for calling
 						// R[a+1] := R[b]; R[a] := R[b][RK[c]]
       CASE_OP(GETLOCAL, (P, f, &asmb, pos, regs))// read a local into a register
-      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs))// write a register value into a local
+      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs, need))// write a register value into a local
       CASE_OP(GETUPVAL, (P, f, &asmb, pos, lregs))// read an upvalue (upper scope)
-      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs))// write to an upvalue
+      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs, need))// write to an upvalue
       CASE_OP(GLOBAL, (P, f, &asmb, pos, need))	 // returns a global (for get or set)
       CASE_OP(NEWTUPLE, (P, f, &asmb, pos, need))// create tuple
       CASE_OP(GETTUPLE, (P, f, &asmb, pos, need))// get tuple key (fast and unsafe)
-- 
2.43.0


From 63a592c4f0fbcad92589ac7146e53b72c5633c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 030/102] fix: the JIT took the defaults of a call from the
 wrong function and none for methods

---
 core/internal.h |   1 +
 core/vm-x86.c   | 101 +++++++++++++++---------------------------------
 core/vm.c       |  48 ++++++++++++++++++++---
 3 files changed, 75 insertions(+), 75 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index 9a6e537..acbb093 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -138,6 +138,7 @@ __attribute__ ((noinline)) void potion_esp(void **);
 
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
+PN potion_jit_call(Potion *, PN *, long);
 PN potion_vm_neq(Potion *, PN, PN);
 
 #endif
diff --git a/core/vm-x86.c b/core/vm-x86.c
index e832ee5..3cc1f8e 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -432,19 +432,16 @@ void potion_x86_stack(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 }
 
 void potion_x86_registers(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, long start) {
-  PN_HAS_UPVALS(up);
+  int argx, regs = PN_INT(f->stack);
   // (Potion *, self) in the first argument slot, self in the first register
   // DBG_v(";regs start %ld\n", start);
   X86_ARGI(start - 3, 0);
   X86_ARGI(start - 2, 1);
   X86_ARGI(start - 1, 2);
   X86_ARGI(0, 2);
-  // empty locals, since use of setlocal requires something there
-  if (up) {
-    int argx = 0, regs = PN_INT(f->stack);
-    for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
-      X86_MOVQ(regs + argx, PN_NIL);
-    }
+  // empty locals: nil until assigned, and setlocal requires something there
+  for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
+    X86_MOVQ(regs + argx, PN_NIL);
   }
 }
 
@@ -945,54 +942,35 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   int argc = op.b - op.a; // including self
-  int i, tag_a1, tag_a2, tag_b, tag_c, tag_d;
+  int i, tag_a1, tag_a2, tag_a3, tag_b, tag_c;
 
-  // check type of the closure
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)		// mov %rbp(A) %rax
+  // call closures which got all their arguments directly
+  X86_MOV_RBP(0x8B, op.a);				// mov %rbp(A) %rax
   ASM(0xF6); ASM(0xC0); ASM(0x01);			// test 0x1 %al
-  TAG_PREP(tag_a1);
-  ASM(0x75); ASM(X86C(56,68, 3,op.a));	 		// jnz [a]
+  TAG_JMPF(0x75, tag_a1);		 		// jnz [a]
   ASM(0xF7); ASM(0xC0); ASMI(PN_REF_MASK);		// test REFMASK %eax
-  TAG_PREP(tag_a2);
-  ASM(0x74); ASM(X86C(48,60, 5,op.a));			// jz [a]
-  X86_PRE(); ASM(0x83); ASM(0xE0); ASM(0xF8);		// and ~PRIMITIVE %rax
-
-  // if a class, pull out the constructor
-  ASM(0x81); ASM(0x38); ASMI(PN_TVTABLE);		// cmpq VTABLE (%eax)  # 0x25000a
-  TAG_PREP(tag_c);
-  ASM(0x75); ASM(X86C(13,20, 1, start-3));		// jnz [c]
-  X86_ARGO(start - 3, 0);				// mov &P 0(%esp)
-  X86_ARGO(op.a, 2);					// mov A 2(%esp)
-  X86_PRE(); ASM(0xB8); ASMN(potion_object_new);	// mov &potion_object_new %rax
-  ASM(0xFF); ASM(0xD0); 				// callq %rax
-  X86_MOV_RBP(0x89, op.a + 1); 			        // mov %rax local
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)		// mov %rbp(A) %rax
-  X86_PRE(); ASM(0x8B); ASM(0x40);
-    ASM((char *)&((struct PNVtable *)P->lobby)->ctor
-	- (char *)P->lobby); 				// mov N(%rax) %rax
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x45, op.a)		// mov %rax %rbp(A)
-
-  // check type of the closure
-  TAG_LABEL(tag_c);
-  ASM(0x81); ASM(0x38); ASMI(PN_TCLOSURE);	     // c: cmpq CLOSURE (%eax) # 0x250005
-  TAG_PREP(tag_d);
-  ASM(0x74); ASM(X86C(22,30, 2,op.a));			// jz [d]
-
-  // if not a closure, get the type's closure
-  X86_MOV_RBP(0x8B, op.a);
-  TAG_LABEL(tag_a1); TAG_LABEL(tag_a2);
-  X86_MOV_RBP(0x89, op.a + 1);
-  X86_ARGO(start - 3, 0);			     // a: mov &P 0(%esp)
-  X86_ARGO(op.a, 1);					// mov A 1(%esp)
-  X86_PRE(); ASM(0xB8); ASMN(potion_obj_get_call); 	// mov &potion_obj_get_call %rax
-  ASM(0xFF); ASM(0xD0); 			        // callq *%rax
-  TAG_PREP(tag_b);
-  ASM(0xEB); ASM(X86C(3,4, 1,op.a)); 		       	// jmp [b]
-
-  // get the closure's function
-  TAG_LABEL(tag_d);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)      // d: mov %rbp(A) %rax
-  //[b]: got the method, call it (first special slot from PNClosure)
+  TAG_JMPF(0x74, tag_a2);				// jz [a]
+  ASM(0x81); ASM(0x38); ASMI(PN_TCLOSURE);		// cmpl CLOSURE (%rax) # 0x250005
+  TAG_JMPF(0x75, tag_a3);				// jne [a]
+  ASM(0x81); ASM(0x78); ASM((char *)&((struct PNClosure *)P->lobby)->arity
+	- (char *)P->lobby); ASMI(argc - 1);		// cmpl argc-1 N(%rax)
+  TAG_JMPF(0x7E, tag_b);				// jle [b]
+
+  // otherwise find the method, the constructor or the defaults at run-time
+  TAG_LABEL(tag_a1); TAG_LABEL(tag_a2); TAG_LABEL(tag_a3);
+#if PN_SIZE_T != 8
+  ASM(0x8D); ASM_MOV_EBP(0x55, op.a)			// a: lea %ebp(A) %edx
+  ASMS("\x89\x54\x24\x04");				// mov %edx 4(%esp)
+  ASMS("\xC7\x44\x24\x08"); ASMI(argc);			// mov argc 8(%esp)
+#else
+  X86_ARGO(start - 3, 0);				// a: mov &P
+  X86_PRE(); ASM(0x8D); ASM_MOV_EBP(0x75, op.a)		// lea %rbp(A) %rsi
+  X86_ARGO_IMM(argc, 2);				// mov argc %rdx
+#endif
+  X86_PRE(); ASM(0xB8); ASMN(potion_jit_call);		// mov &potion_jit_call %rax
+  ASM(0xFF); ASM(0xD0); 				// callq *%rax
+  ASM(0xE9); TAG_PREP4(tag_c); ASMI(0);			// jmp [c]
+
   TAG_LABEL(tag_b);
   X86_PRE(); ASM(0x8B); ASM(0x40);
              ASM(sizeof(struct PNObject));	     // b: mov N(%rax) %rax
@@ -1005,25 +983,10 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
     DBG_t("%d[%d] ", op.a + i - 1, i);
     X86_ARGO(op.a + i - 1, i);				// mov regn, i(%esp)
   }
-  // fill in defaults, arity from protos[0], not f
-  if (!PN_IS_EMPTY(f->protos)) {
-    vPN(Proto) c = (vPN(Proto)) PN_TUPLE_AT(f->protos, 0);
-    int arity = c->arity;
-    if (arity && (argc-1 < arity)) {
-      for (i = argc+1; i <= arity+1; i++) { //2: [0,1],2,3
-	PN sig = potion_sig_at(P, c->sig, i-2);
-	if (sig && PN_TUPLE_LEN(sig) == 3) {
-	  DBG_t(":=*%s[%d] ", AS_STR(PN_TUPLE_AT(sig, 2)), i+1);
-	  X86_ARGO_IMM(PN_TUPLE_AT(sig, 2), i+1); 	// mov $value, i(%esp) - default
-	} else if (sig) {
-	  DBG_t("|0 ");                                 // mov 0, i(%esp) - optional
-	  char type = (char)(PN_TUPLE_LEN(sig) > 1
-			     ? PN_INT(PN_TUPLE_AT(sig,1)) : 0);
-	  X86_ARGO_IMM(type ? potion_type_default(type) : 0, i+1);
-	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
+  TAG_LABEL4(tag_c);
+  X86_MOV_RBP(0x89, op.a); 				// c: mov %rax -A(%rbp)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index e3cd24a..14ba63a 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -455,6 +455,46 @@ static PN potion_sig_check(Potion *P, struct PNClosure *cl, int arity, int numar
   return PN_NIL;
 }
 
+/// the default for one argument of a signature, or zero
+static PN potion_sig_default(PN s) {
+  if (PN_TUPLE_LEN(s) == 3) return PN_TUPLE_AT(s, 2);
+  return PN_TUPLE_LEN(s) > 1 ? potion_type_default(PN_INT(PN_TUPLE_AT(s, 1))) : PN_NIL;
+}
+
+/** OP_CALL for the jit, when the callee is no closure or misses arguments.
+    \param reg the jit register with the callee. the following are below it
+    \param argc number of arguments, including self */
+PN potion_jit_call(Potion *P, PN *reg, long argc) {
+  PN argv[15];
+  PN cl = reg[0];
+  int i;
+  for (i = 0; i < argc && i < 15; i++)
+    argv[i] = reg[-1 - i];
+  switch (PN_TYPE(cl)) {
+    case PN_TVTABLE:
+      argv[0] = potion_object_new(P, PN_NIL, cl);
+      cl = ((struct PNVtable *)reg[0])->ctor;
+      break;
+    case PN_TCLOSURE:
+      break;
+    default:
+      argv[0] = cl;
+      cl = potion_obj_get_call(P, cl);
+  }
+  if (!PN_IS_CLOSURE(cl))
+    return cl;
+  if (PN_IS_TUPLE(PN_CLOSURE(cl)->sig)) { // fill in defaults
+    int arity = PN_CLOSURE(cl)->arity;
+    PN err = potion_sig_check(P, PN_CLOSURE(cl), arity, argc - 1);
+    if (err) return err;
+    for (; argc <= arity && argc < 15; argc++) {
+      PN s = potion_sig_at(P, PN_CLOSURE(cl)->sig, argc - 1);
+      argv[argc] = s ? potion_sig_default(s) : PN_NIL;
+    }
+  }
+  return potion_call(P, cl, argc, argv);
+}
+
 PN potion_debug(Potion *P, struct PNProto *f, PN self, PN_OP op, PN* reg, PN* stack) {
   if (P->flags & EXEC_DEBUG) {
     PN ast;
@@ -823,9 +863,7 @@ reentry:
                 for (i=numargs; i < arity; i++) { // fill in defaults
                   PN s = potion_sig_at(P, sig, i);
                   if (s) // default or zero: && !filled by NAMED (?)
-                    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
-                      ? PN_TUPLE_AT(s, 2)
-                      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+                    reg[op.a + i + 2] = potion_sig_default(s);
                   op.b++;
                 }
               }
@@ -840,9 +878,7 @@ reentry:
                 for (i=numargs; i < arity; i++) { // fill in defaults. TODO compile-time
                   PN s = potion_sig_at(P, sig, i);
                   if (s) // default or zero: && !filled by NAMED (?)
-                    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
-		      ? PN_TUPLE_AT(s, 2)
-		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+                    reg[op.a + i + 2] = potion_sig_default(s);
                   extra++;
                   op.b++;
                 }
-- 
2.43.0


From 1e2185fb7fc9a86dd2d36b83510bae93cf43ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 031/102] fix: the JIT overflowed its jump tables and argument
 area, closures missed the write barrier

---
 core/vm-x86.c |  9 +++++++++
 core/vm.c     | 21 +++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 3cc1f8e..dc1cb31 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1017,6 +1017,11 @@ PN potion_f_protos(Potion *P, PN cl, PN i) {
   return (PN)c;
 }
 
+// the write barrier
+static void potion_f_touch(Potion *P, PN obj) {
+  PN_TOUCH(obj);
+}
+
 /* OP_PROTO */
 void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE *pos, long lregs, long start, long regs) {
   PN_OP op = PN_OP_AT(f->asmb, *pos);
@@ -1050,6 +1055,10 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
     n = sizeof(struct PNClosure) + (sizeof(PN) * (i + 1));
     if (n >= 0x80) { ASM(0x90); ASMI(n); }
     else { ASM(0x50); ASM(n); }
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(opp.a, 1);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_touch);	// mov &potion_f_touch %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
   });
 }
 
diff --git a/core/vm.c b/core/vm.c
index 14ba63a..dd8b895 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,15 +214,17 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
-#define JUMPS_MAX 1024
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
 PN_F potion_jit_proto(Potion *P, PN proto) {
   long regs = 0, lregs = 0, need = 0, rsp = 0, argx = 0, protoargs = 4;
   PN_SIZE pos;
-  PNJumps jmps[JUMPS_MAX]; size_t offs[JUMPS_MAX]; int jmpc = 0, jmpi = 0;
+  int jmpc = 0, jmpi = 0;
   vPN(Proto) f = (struct PNProto *)proto;
+  PN_SIZE oplen = PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP);
+  PNJumps *jmps = malloc((oplen + 1) * sizeof(PNJumps)); // at most one per op
+  size_t *offs = malloc((oplen + 1) * sizeof(size_t));
   long upc = PN_TUPLE_LEN(f->upvals);
   PNAsm * volatile asmb = potion_asm_new(P);
   u8 *fn;
@@ -250,6 +252,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     }
   }
 
+  // and so may calls of other functions
+  for (pos = 0; pos < oplen; pos++) {
+    PN_OP op = PN_OP_AT(f->asmb, pos);
+    if (op.code == OP_CALL && op.b - op.a + 2 > protoargs)
+      protoargs = op.b - op.a + 2;
+  }
+
   regs = PN_INT(f->stack);
   lregs = regs + PN_TUPLE_LEN(f->locals);
   need = lregs + upc + 3;
@@ -288,7 +297,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (upc > 0)
     target->upvals(P, f, &asmb, lregs, need, upc);
 
-  for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
+  for (pos = 0; pos < oplen; pos++) {
     offs[pos] = asmb->len;
     for (jmpi = 0; jmpi < jmpc; jmpi++) {
       if (jmps[jmpi].to == pos) {
@@ -362,6 +371,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 #endif
   PN_MEMCPY_N(fn, asmb->ptr, u8, asmb->len);
+  free(jmps);
+  free(offs);
 
   return f->jit = (PN_F)fn;
 }
@@ -962,10 +973,12 @@ reentry:
           if (op.code == OP_GETUPVAL) {
             cl->data[i+1] = upvals[op.b];
           } else if (op.code == OP_GETLOCAL) {
-            cl->data[i+1] = locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            PN ref = potion_ref(P, locals[op.b]);
+            cl->data[i+1] = locals[op.b] = ref;
           } else {
             fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
           }
+          PN_TOUCH(cl);
         });
         reg[areg] = (PN)cl;
       })
-- 
2.43.0


From 7d210ca2a019e5e41fa210ea950b0932af8ee20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 032/102] fix: programs of more than a few kilobytes crashed
 the parser when the gc ran

---
 core/syntax.y | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/syntax.y b/core/syntax.y
index 1accee2..02f2c43 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -11,6 +11,7 @@
 #include "internal.h"
 #include "asm.h"
 #include "ast.h"
+#include "gc.h"
 
 #undef PN_AST
 #undef PN_AST2
@@ -380,7 +381,19 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 
 %%
 
-PN potion_parse(Potion *P, PN code, char *filename) {
+/** The actions keep the nodes of the AST on the stack of the parser, where the
+    gc does not find them. So have enough space for the AST before, that it does
+    not need to run. An AST takes about 100 bytes per source byte. */
+static void potion_parse_reserve(Potion *P, PN_SIZE len) {
+  struct PNMemory *M = P->mem;
+  size_t need = (size_t)len * 1024 + 16 * POTION_PAGESIZE;
+  if (need > POTION_MAX_BIRTH_SIZE / 2) need = POTION_MAX_BIRTH_SIZE / 2;
+  if ((size_t)((char *)M->birth_storeptr - (char *)M->birth_cur) < need)
+    potion_garbagecollect(P, (int)need, 0);
+}
+
+PN potion_parse(Potion *P, PN volatile code, char *filename) {
+  potion_parse_reserve(P, PN_IS_STR(code) ? PN_STR_LEN(code) : ((struct PNBytes *)potion_fwd(code))->len);
   GREG *G = YY_NAME(parse_new)(P);
   int oldyypos = P->yypos;
   PN oldinput = P->input;
@@ -443,6 +456,7 @@ PN potion_sig(Potion *P, char *fmt) {
   if (fmt == NULL) return PN_NIL; // no signature, arg check off
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
 
+  potion_parse_reserve(P, strlen(fmt));
   GREG *G = YY_NAME(parse_new)(P);
   int oldyypos = P->yypos;
   PN oldinput = P->input;
-- 
2.43.0


From df467bad047c1e07cf213637eddf1c823dae3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 033/102] fix: <=> gave the negated difference, or true in the
 JIT, and cmp read doubles as integers

---
 core/internal.h |  1 +
 core/number.c   | 11 +++++++++--
 core/vm-x86.c   | 10 ++++++++--
 core/vm.c       |  9 +++++++--
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index acbb093..f831292 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -138,6 +138,7 @@ __attribute__ ((noinline)) void potion_esp(void **);
 
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
+PN potion_vm_cmp(Potion *, PN, PN);
 PN potion_jit_call(Potion *, PN *, long);
 PN potion_vm_neq(Potion *, PN, PN);
 
diff --git a/core/number.c b/core/number.c
index cd79994..072eab7 100644
--- a/core/number.c
+++ b/core/number.c
@@ -425,12 +425,19 @@ static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
 static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
   if (PN_IS_DBL(self)) {
     double d1 = ((struct PNDouble *)self)->value;
-    double d2 = PN_DBL(potion_send(PN_number, n));
+    double d2 = PN_DBL(potion_send(n, PN_number));
     return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
   } else {
     long n1, n2;
+    if (!PN_IS_INT(n)) {
+      n = potion_send(n, PN_number);
+      if (PN_IS_DBL(n)) {
+        double d1 = (double)PN_INT(self), d2 = PN_DBL(n);
+        return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
+      }
+    }
     n1 = PN_INT(self);
-    n2 = PN_IS_INT(n) ? PN_INT(n) : PN_INT(potion_send(PN_number, n));
+    n2 = PN_INT(n);
     return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
   }
 }
diff --git a/core/vm-x86.c b/core/vm-x86.c
index dc1cb31..4d34708 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -886,8 +886,14 @@ void potion_x86_not(Potion *P, struct PNProto * volatile f, PNAsm * volatile *as
   potion_x86_test_asm(P, f, asmp, pos, 1);
 }
 
-void potion_x86_cmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
-  potion_x86_test_asm(P, f, asmp, pos, 0);
+void potion_x86_cmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
+  PN_OP op = PN_OP_AT(f->asmb, pos);
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(op.a, 1);
+  X86_ARGO(op.b, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_vm_cmp);	// mov &potion_vm_cmp %rax
+  ASM(0xFF); ASM(0xD0);				// callq %rax
+  X86_MOV_RBP(0x89, op.a);			// mov %rax local
 }
 
 void potion_x86_testjmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, PNJumps *jmps, size_t *offs, int *jmpc) {
diff --git a/core/vm.c b/core/vm.c
index dd8b895..f491d31 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -347,7 +347,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(JMP, (P, f, &asmb, pos, jmps, offs, &jmpc)) // PC += sBx
       CASE_OP(TEST, (P, f, &asmb, pos))		// if not (R[a] <=> C) then PC++
       CASE_OP(NOT, (P, f, &asmb, pos))		// a = not b
-      CASE_OP(CMP, (P, f, &asmb, pos))
+      CASE_OP(CMP, (P, f, &asmb, pos, need))		// a = b <=> c
       CASE_OP(TESTJMP, (P, f, &asmb, pos, jmps, offs, &jmpc))
       CASE_OP(NOTJMP, (P, f, &asmb, pos, jmps, offs, &jmpc))
       CASE_OP(NAMED, (P, f, &asmb, pos, need))	// assign named args before a CALL
@@ -426,6 +426,11 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
                                        : potion_vm_neq(P, reg[op.a], reg[op.b]);
 
 /* we need that for the jit, too large to be inlined there */
+PN potion_vm_cmp(Potion *P, PN a, PN b) {
+  if (PN_IS_INT(a) && PN_IS_INT(b))
+    return a < b ? PN_NUM(-1) : a == b ? PN_ZERO : PN_NUM(1);
+  return potion_send(a, PN_cmp, b);
+}
 PN potion_vm_eq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(PN_DBL(a) == PN_DBL(b));
@@ -810,7 +815,7 @@ reentry:
 #else
       CASE(NOT, reg[op.a] = PN_BOOL(!PN_TEST(reg[op.a])))
 #endif
-      CASE(CMP, reg[op.a] = PN_NUM(PN_INT(reg[op.b]) - PN_INT(reg[op.a])))
+      CASE(CMP, reg[op.a] = potion_vm_cmp(P, reg[op.a], reg[op.b]))
       CASE(NEQ,
            DBG_t("\t; %s!=%s", STRINGIFY(reg[op.a]), STRINGIFY(reg[op.b]));
 	   PN_VM_CMP(0))
-- 
2.43.0


From cd52b9de0cea96e67cdd5332d5e7ef1347064923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 034/102] verification hook: VERIF_GC_STRESS collects at every
 n-th allocation

---
 core/internal.c | 11 +++++++++++
 core/potion.h   |  9 +++++++++
 core/syntax.y   | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/core/internal.c b/core/internal.c
index 8eca187..08e96cd 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -117,6 +117,10 @@ static void potion_init(Potion *P) {
   GC_PROTECT(P);
 }
 
+#ifdef VERIF_GC_STRESS
+long potion_gc_every = 0, potion_gc_count = 0, potion_gc_hold = 0;
+#endif
+
 Potion *potion_create(void *sp) {
   Potion *P = potion_gc_boot(sp); //zeros P
   P->vt = PN_TSTATE;
@@ -127,6 +131,13 @@ Potion *potion_create(void *sp) {
   P->fileno = -1;
   //P->flags = (Potion_Flags)EXEC_VM;
   potion_init(P);
+#ifdef VERIF_GC_STRESS
+  if (getenv("POTION_GC_EVERY")) {
+    char *every = getenv("POTION_GC_EVERY");
+    potion_gc_every = atol(every);
+    potion_gc_count = strchr(every, ',') ? atol(strchr(every, ',') + 1) : 0;
+  }
+#endif
   return P;
 }
 
diff --git a/core/potion.h b/core/potion.h
index d9b8c66..8985135 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -697,6 +697,11 @@ unsigned long potion_rand_int();
 double potion_rand_double();
 
 /// quick inline allocation
+#ifdef VERIF_GC_STRESS
+/// for verification builds: collect at every n-th allocation
+extern long potion_gc_every, potion_gc_count, potion_gc_hold;
+#endif
+
 static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   struct PNMemory *M = P->mem;
   struct PNObject *res = 0;
@@ -711,6 +716,10 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   assert(M);
   assert(M->birth_cur);
   assert(M->birth_storeptr);
+#ifdef VERIF_GC_STRESS
+  if (potion_gc_every && !potion_gc_hold && ++potion_gc_count % potion_gc_every == 0)
+    M->dirty = 1;
+#endif
   if (M->dirty || (char *)M->birth_cur + siz >= (char *)M->birth_storeptr - 2)
     potion_garbagecollect(P, siz + 4 * sizeof(double), 0);
   res = (struct PNObject *)M->birth_cur;
diff --git a/core/syntax.y b/core/syntax.y
index 02f2c43..80a6004 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -13,6 +13,12 @@
 #include "ast.h"
 #include "gc.h"
 
+#ifdef VERIF_GC_STRESS
+# define GC_STRESS_HOLD(n) potion_gc_hold += (n)
+#else
+# define GC_STRESS_HOLD(n)
+#endif
+
 #undef PN_AST
 #undef PN_AST2
 #undef PN_AST3
@@ -409,6 +415,7 @@ PN potion_parse(Potion *P, PN volatile code, char *filename) {
   G->filename = filename;
   P->fileno = PN_PUT(pn_filenames, PN_STR(filename));
 
+  GC_STRESS_HOLD(1);
   if (!YY_NAME(parse)(G) || ((struct PNSource *)(P->source))->part != AST_CODE) {
     vPN(Bytes) s = (vPN(Bytes)) code;
     YY_ERROR("** Syntax error");
@@ -416,6 +423,7 @@ PN potion_parse(Potion *P, PN volatile code, char *filename) {
     fprintf(stderr, "%s", s->chars);
     P->source = PN_NIL;
   }
+  GC_STRESS_HOLD(-1);
   YY_NAME(parse_free)(G);
 
   code = P->source;
@@ -469,8 +477,10 @@ PN potion_sig(Potion *P, char *fmt) {
   yydebug = P->flags;
 #endif
 
+  GC_STRESS_HOLD(1);
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
+  GC_STRESS_HOLD(-1);
   YY_NAME(parse_free)(G);
 
   out = P->source;
-- 
2.43.0


From a3d5fe62aa4f083195418157c51d1c3f9402f187 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 035/102] fix: collections while compiling or defining classes
 and methods lost parts of them

The compiler, class creation and method definition stored new objects into
objects that may be old already without the write barrier, the parser left
stale pointers in P, and the names of closures and protos were not traced.
---
 core/compile.c  | 26 +++++++++++++-----------
 core/gc.c       |  4 ++++
 core/internal.h |  6 ++++++
 core/objmodel.c | 54 ++++++++++++++++++++++++++++++++++---------------
 core/syntax.y   |  7 +++++--
 5 files changed, 67 insertions(+), 30 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 4d5da4b..32289b2 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -23,8 +23,10 @@
 #include <dlfcn.h>
 #endif
 
-#define PN_ASM1(ins, _a)     f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0)
-#define PN_ASM2(ins, _a, _b) f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b)
+/// assign to a field of a proto. evaluating the value may collect and move or age the proto
+#define PN_PROTO_SET(f, field, val) ({ PN pnv_ = (PN)(val); (f)->field = pnv_; PN_TOUCH(f); })
+#define PN_ASM1(ins, _a)     PN_PROTO_SET(f, asmb, potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0))
+#define PN_ASM2(ins, _a, _b) PN_PROTO_SET(f, asmb, potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b))
 
 const struct {
   const char *name;
@@ -227,7 +229,7 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
       if (numup != PN_NONE) { \
         up = f; \
         while (depth--) { \
-          up->upvals = PN_PUSH(up->upvals, name); \
+          PN_PROTO_SET(up, upvals, PN_PUSH(up->upvals, name)); \
 	  DBG_c("upvals %s =>\n", AS_STR(name)); \
           up = (struct PNProto *)up->source; \
         } \
@@ -1058,17 +1060,17 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   f = PN_ALLOC(PN_TPROTO, struct PNProto);
   f->source = source;
   f->stack = PN_NUM(1);
-  f->protos = PN_TUP0();
-  f->paths = PN_TUP0();
-  f->locals = PN_TUP0();
-  f->upvals = PN_TUP0();
-  f->values = PN_TUP0();
-  f->debugs = PN_TUP0();
   f->tree = self;
-  DBG_c("-- compile --\n");
-  f->sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
-  f->asmb = (PN)potion_asm_new(P);
   f->name = PN_NIL;
+  PN_PROTO_SET(f, protos, PN_TUP0());
+  PN_PROTO_SET(f, paths, PN_TUP0());
+  PN_PROTO_SET(f, locals, PN_TUP0());
+  PN_PROTO_SET(f, upvals, PN_TUP0());
+  PN_PROTO_SET(f, values, PN_TUP0());
+  PN_PROTO_SET(f, debugs, PN_TUP0());
+  DBG_c("-- compile --\n");
+  PN_PROTO_SET(f, sig, sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
+  PN_PROTO_SET(f, asmb, potion_asm_new(P));
 
   potion_source_asmb(P, f, NULL, 0, t, 0);
   PN_ASM1(OP_RETURN, 0);
diff --git a/core/gc.c b/core/gc.c
index 24cb46b..e8f19a6 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -436,6 +436,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNWeakRef *)ptr)->data);
     break;
     case PN_TCLOSURE:
+      GC_MINOR_UPDATE(((struct PNClosure *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNClosure *)ptr)->sig);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MINOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
@@ -483,6 +484,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TPROTO:
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->source);
+      GC_MINOR_UPDATE(((struct PNProto *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->sig);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->stack);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->paths);
@@ -542,6 +544,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNWeakRef *)ptr)->data);
     break;
     case PN_TCLOSURE:
+      GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->sig);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
@@ -600,6 +603,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TPROTO:
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->source);
+      GC_MAJOR_UPDATE(((struct PNProto *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->sig);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->stack);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->paths);
diff --git a/core/internal.h b/core/internal.h
index f831292..ed1a0d1 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -48,6 +48,12 @@ typedef unsigned char u8;
   } \
 })
 
+/// room for more types. P is in the protected area, which a minor gc does not scan
+#define PN_VTS_NEEDS(X) ({ \
+  PN_FLEX_NEEDS(X, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE); \
+  PN_TOUCH(P); \
+})
+
 #define PN_ATOI(X,N,B) ({ \
   char *Ap = X; \
   long Ai = 0; int Am = 1; \
diff --git a/core/objmodel.c b/core/objmodel.c
index a25e7cd..26179e3 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -191,27 +191,41 @@ PN potion_no_call(Potion *P, PN cl, PN self) {
 }
 
 void potion_add_metaclass(Potion *P, vPN(Vtable) vt) {
-  struct PNVtable *meta = vt->meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vPN(Vtable) meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  PN val;
+  vt->meta = meta;
+  PN_TOUCH(vt);
   meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
-  PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
-  PN_FLEX_SIZE(P->vts)++;
   meta->name = PN_NIL;
   meta->parent = PN_TVTABLE;
-  meta->methods = (struct PNTable *)potion_table_empty(P);
-  meta->ctor = PN_FUNC(potion_no_call, 0);
-  PN_VTABLE(meta->type) = (PN)meta;
   meta->meta = NULL;
+  PN_VTS_NEEDS(1);
+  PN_FLEX_SIZE(P->vts)++;
+  PN_VTABLE(meta->type) = (PN)meta;
   PN_TOUCH(P->vts);
+  // each of these may collect and age the vtable
+  val = potion_table_empty(P);
+  meta->methods = (struct PNTable *)val;
+  PN_TOUCH(meta);
+  val = PN_FUNC(potion_no_call, 0);
+  meta->ctor = val;
+  PN_TOUCH(meta);
 }
 /// create a non-user type, derived from self
 PN potion_type_new(Potion *P, PNType t, PN self) {
+  PN val;
   vPN(Vtable) vt = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
   vt->type = t;
   vt->name = PN_NIL;
   vt->parent = self ? ((struct PNVtable *)self)->type : 0;
-  vt->methods = (struct PNTable *)potion_table_empty(P);
-  vt->ctor = PN_FUNC(potion_no_call, 0);
   PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(P->vts);
+  val = potion_table_empty(P);
+  vt->methods = (struct PNTable *)val;
+  PN_TOUCH(vt);
+  val = PN_FUNC(potion_no_call, 0);
+  vt->ctor = val;
+  PN_TOUCH(vt);
   potion_add_metaclass(P, vt);
   return (PN)vt;
 }
@@ -219,6 +233,7 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
 PN potion_type_new2(Potion *P, PNType t, PN self, PN name) {
   vPN(Vtable) vt = (vPN(Vtable))potion_type_new(P, t, self);
   vt->name = name;
+  PN_TOUCH(vt);
   return (PN)vt;
 }
 /// sets the default call method of the PNVtable
@@ -253,7 +268,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   PN parent = ((!self || self == P->lobby) ? PN_VTABLE(PN_TOBJECT) : self);
   PN pvars = ((struct PNVtable *)parent)->ivars;
   PNType t = PN_FLEX_SIZE(P->vts) + PN_TNIL;
-  PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
+  PN_VTS_NEEDS(1);
   PN_FLEX_SIZE(P->vts)++;
   self = potion_type_new(P, t, parent);
   if (PN_IS_TUPLE(pvars)) {
@@ -266,8 +281,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   if (!PN_IS_CLOSURE(cl))
     cl = ((struct PNVtable *)parent)->ctor;
   ((struct PNVtable *)self)->ctor = cl;
-
-  PN_TOUCH(P->vts);
+  PN_TOUCH(self);
   return self;
 }
 
@@ -288,7 +302,7 @@ PNType potion_class_type(Potion *P, PN class) {
 }
 
 PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
-  struct PNVtable *vt = (struct PNVtable *)self;
+  vPN(Vtable) vt = (struct PNVtable *)self;
 #ifdef POTION_JIT_TARGET
   // TODO: allocate assembled instructions together into single pages
   // since many times these tables are <100 bytes.
@@ -299,6 +313,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
+  PN_TOUCH(vt);
   return self;
 }
 
@@ -348,14 +363,13 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   PN cl;
   vPN(Vtable) vt = (struct PNVtable *)self;
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
-  unsigned k = kh_put(PN, vt->methods, key, &ret);
-  PN_QUICK_FWD(struct PNTable *, vt->methods);
-  PN_TOUCH(vt->methods);
+  unsigned k;
 
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
       PN_PROTO(method)->name = key;
+      PN_TOUCH(method);
     }
     else
       cl = potion_closure_new(P, (PN_F)potion_getter_method, PN_NIL, 1);
@@ -365,8 +379,12 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   }
   else
     PN_CLOSURE(method)->name = key;
+  PN_TOUCH(method);
 
+  k = kh_put(PN, vt->methods, key, &ret);
+  PN_QUICK_FWD(struct PNTable *, vt->methods);
   kh_val(PN, vt->methods, k) = method;
+  PN_TOUCH(vt->methods);
   PN_TOUCH(self);
 
 #ifdef JIT_MCACHE
@@ -646,9 +664,13 @@ PN potion_lobby_say(Potion *P, PN cl, PN self) {
 static void potion_init_class_reference(Potion *P, PN name, PN vt) {
   char meta_str[strlen("<metaclass: >") + PN_STR_LEN(name) + 1];
   potion_send(P->lobby, PN_def, name, vt);
+  PN meta_name;
   ((struct PNVtable *)vt)->name = name;
+  PN_TOUCH(vt);
   sprintf(meta_str, "<metaclass: %s>", PN_STR_PTR(name));
-  ((struct PNVtable *)vt)->meta->name = potion_str(P, meta_str);
+  meta_name = potion_str(P, meta_str);
+  ((struct PNVtable *)vt)->meta->name = meta_name;
+  PN_TOUCH(((struct PNVtable *)vt)->meta);
 }
 
 void potion_define_global(Potion *P, PN name, PN val) {
diff --git a/core/syntax.y b/core/syntax.y
index 80a6004..3027ef9 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -407,6 +407,7 @@ PN potion_parse(Potion *P, PN volatile code, char *filename) {
   P->yypos = 0;
   P->input = code;
   P->source = PN_NIL;
+  GC_STRESS_HOLD(1);
   P->pbuf = potion_asm_new(P);
 #ifdef YY_DEBUG
   yydebug = P->flags;
@@ -415,7 +416,6 @@ PN potion_parse(Potion *P, PN volatile code, char *filename) {
   G->filename = filename;
   P->fileno = PN_PUT(pn_filenames, PN_STR(filename));
 
-  GC_STRESS_HOLD(1);
   if (!YY_NAME(parse)(G) || ((struct PNSource *)(P->source))->part != AST_CODE) {
     vPN(Bytes) s = (vPN(Bytes)) code;
     YY_ERROR("** Syntax error");
@@ -430,6 +430,9 @@ PN potion_parse(Potion *P, PN volatile code, char *filename) {
   P->source = oldsource;
   P->yypos = oldyypos;
   P->input = oldinput;
+  // not seen by the minor gc
+  P->pbuf = NULL;
+  P->line = PN_NIL;
   return code;
 }
 
@@ -470,6 +473,7 @@ PN potion_sig(Potion *P, char *fmt) {
   PN oldinput = P->input;
   PN oldsource = P->source;
   P->yypos = 0;
+  GC_STRESS_HOLD(1);
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
   P->pbuf = NULL;
@@ -477,7 +481,6 @@ PN potion_sig(Potion *P, char *fmt) {
   yydebug = P->flags;
 #endif
 
-  GC_STRESS_HOLD(1);
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
   GC_STRESS_HOLD(-1);
-- 
2.43.0


From a2b183a32f24ede89f11cfbf83f24aed0602305c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 036/102] fix: a collection during a query lost the callback of
 Database exec

The callback was kept in an untraced object.
---
 lib/buffile.c  |  1 +
 lib/database.c | 21 +++++----------------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index a596140..370a536 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -296,6 +296,7 @@ DLLEXPORT
 void Potion_Init_buffile(Potion *P) {
   PN ffile_vt = potion_type_new2(P, PN_TUSER, PN_VTABLE(PN_TFILE), PN_STR("BufFile"));
   potion_type_constructor_is(ffile_vt, PN_FUNC(potion_buffile_fopen, "path=S,mode=S"));
+  PN_TOUCH(ffile_vt);
   //potion_class_method(ffile_vt, "fd", potion_buffile_fdopen, "fd=N,mode=S");
   potion_method(P->lobby, "fopen", potion_buffile_fopen, "path=S,mode=S");
   potion_method(ffile_vt, "fdopen", potion_buffile_fdopen, "fd=N,mode=S");
diff --git a/lib/database.c b/lib/database.c
index 7ae9920..289af5d 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -18,17 +18,13 @@ struct PNDatabase {
   sqlite3 *db;
 };
 
+/// lives on the machine stack, where the gc finds and updates the closure
 struct PNCallback {
-  PN_OBJECT_HEADER;
-  PN_SIZE siz;
   Potion *P;
-  PN     cb;
+  PN volatile cb;
 };
 
-const int CallbackSize = sizeof(struct PNCallback) - sizeof(struct PNData);
-
 PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path);
-PN potion_callback(Potion *P, PN closure);
 
 static int
 potion_database_callback(void *callback, int argc, char **argv, char **azColName) {
@@ -72,13 +68,13 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
   char *zErrMsg = 0;
   int rc;
   struct PNDatabase *db = (struct PNDatabase *)self;
-  struct PNCallback *cb = (struct PNCallback*)potion_callback(P, callback);
+  struct PNCallback cb = { P, callback };
   if (db->db == NULL) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
   rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, cb, &zErrMsg);
+                    potion_database_callback, &cb, &zErrMsg);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
@@ -164,20 +160,13 @@ PN potion_sqlite_isopen(Potion *P, PN cl, PN self) {
   return db->db ? PN_TRUE : PN_FALSE;
 }
 
-PN potion_callback(Potion *P, PN closure) {
-  struct PNCallback *cb = (struct PNCallback *)potion_data_alloc(P, CallbackSize);
-  cb->siz = CallbackSize; // To help out GC
-  cb->P = P;
-  cb->cb = closure;
-  return (PN)cb;
-}
-
 void Potion_Init_database(Potion *P) {
   PN db_vt = potion_class(P, 0, 0, 0);
   PN_TDATABASE = potion_class_type(P, db_vt);
   potion_define_global(P, PN_STR("Database"), db_vt);
 
   potion_type_constructor_is(db_vt, PN_FUNC(potion_sqlite_new, "path=S"));
+  PN_TOUCH(db_vt);
   potion_method(db_vt, "exec", potion_sqlite_exec, "query=S|callback=o");
   potion_method(db_vt, "gettable", potion_sqlite_gettable, "query=S");
   potion_method(db_vt, "close", potion_sqlite_close, 0);
-- 
2.43.0


From d8b962bad02f2fe56e3726bc57244eb03745c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 037/102] fix: bytecode files lost constants, read past the
 buffer and loaded files did not run

Counts over 255, doubles (six digits only), buffers grown by the gc in the
middle of dumping or loading, and numbers read together with the bytes after
them. load of a .pnb parsed the bytecode as source.
---
 core/compile.c | 268 +++++++++++++++++++++++++++++--------------------
 core/load.c    |   4 +-
 core/number.c  |  10 +-
 3 files changed, 170 insertions(+), 112 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 32289b2..3360c8e 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -12,6 +12,7 @@
  * (c) 2014 perl11.org */
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <math.h>
 #include <ctype.h>
 #include "potion.h"
@@ -1116,155 +1117,204 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   return (PN)n;
 }
 
-#define READ_U8(ptr) ({u8 rpu = *ptr; ptr += sizeof(u8); rpu;})
-#define READ_PN(pn, ptr) ({PN rpn = *(PN *)ptr; ptr += pn; rpn;})
-#define READ_CONST(pn, ptr) ({ \
-    PN val = READ_PN(pn, ptr); \
-    if (PN_IS_PTR(val)) { \
-      if (val & 2) { \
-        size_t len = ((val ^ 2) >> 4) - 1; \
-        val = potion_strtod(P, (char *)ptr, len); \
-        ptr += len; \
-      } else { \
-        size_t len = (val >> 4) - 1; \
-        val = PN_STRN((char *)ptr, len); \
-        ptr += len; \
-      } \
-    } \
-    val; \
-  })
-
-#define READ_TUPLE(ptr) \
-  long i = 0, count = READ_U8(ptr); \
-  PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
-  for (; i < count; i++)
-#define READ_VALUES(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = READ_CONST(pn, ptr); \
-    tup; \
-  })
-#define READ_PROTOS(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = potion_proto_load(P, (PN)f, pn, &(ptr)); \
-    tup; \
-  })
-
-// TODO: this byte string is volatile, need to avoid using ptr
-PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
-  PN len = 0;
+/// bytecode reader. works on a copy outside of the gc, as loading allocates
+struct PNLoad {
+  u8 *ptr, *end;
+};
+
+static void potion_load_read(struct PNLoad *in, void *dst, size_t len) {
+  if ((size_t)(in->end - in->ptr) < len) { // truncated
+    PN_MEMZERO_N(dst, u8, len);
+    in->ptr = in->end;
+    return;
+  }
+  PN_MEMCPY_N(dst, in->ptr, u8, len);
+  in->ptr += len;
+}
+
+static PN potion_load_pn(struct PNLoad *in) {
+  PN pn;
+  potion_load_read(in, &pn, sizeof(PN));
+  return pn;
+}
+
+/// a byte, or 255 and the count as PN
+static PN_SIZE potion_load_count(struct PNLoad *in) {
+  u8 n;
+  potion_load_read(in, &n, sizeof(u8));
+  return n < 255 ? n : (PN_SIZE)potion_load_pn(in);
+}
+
+static PN potion_load_const(Potion *P, struct PNLoad *in) {
+  PN val = potion_load_pn(in);
+  if (PN_IS_PTR(val)) {
+    size_t len = (val >> 4) - 1;
+    u8 *str = in->ptr;
+    if ((size_t)(in->end - str) < len) len = in->end - str;
+    in->ptr += len;
+    if (val & 2)
+      return potion_strtod(P, (char *)str, len);
+    return PN_STRN((char *)str, len);
+  }
+  return val;
+}
+
+static PN potion_load_values(Potion *P, struct PNLoad *in) {
+  PN_SIZE i, count = potion_load_count(in);
+  volatile PN tup = PN_TUP0();
+  for (i = 0; i < count && in->ptr < in->end; i++) {
+    PN val = potion_load_const(P, in);
+    PN_PUSH(tup, val);
+  }
+  return tup;
+}
+
+static PN potion_proto_load(Potion *P, PN volatile up, struct PNLoad *in) {
+  PN_SIZE i, count;
+  PN len, source;
   PNAsm * volatile asmb = NULL;
   vPN(Proto) f = PN_ALLOC(PN_TPROTO, struct PNProto);
   // TODO extern protos
-  f->name = READ_CONST(pn, *ptr);
-  f->source = READ_CONST(pn, *ptr);
-  if (f->source == PN_NIL) f->source = up;
-  f->sig = READ_VALUES(pn, *ptr);
-  f->stack = READ_CONST(pn, *ptr);
-  f->values = READ_VALUES(pn, *ptr);
-  f->paths = READ_VALUES(pn, *ptr);
-  f->locals = READ_VALUES(pn, *ptr);
-  f->upvals = READ_VALUES(pn, *ptr);
-  f->protos = READ_PROTOS(pn, *ptr);
-  f->debugs = PN_TUP0();
-
-  len = READ_PN(pn, *ptr);
+  PN_PROTO_SET(f, name, potion_load_const(P, in));
+  source = potion_load_const(P, in);
+  PN_PROTO_SET(f, source, source == PN_NIL ? up : source);
+  PN_PROTO_SET(f, sig, potion_load_values(P, in));
+  PN_PROTO_SET(f, stack, potion_load_const(P, in));
+  PN_PROTO_SET(f, values, potion_load_values(P, in));
+  PN_PROTO_SET(f, paths, potion_load_values(P, in));
+  PN_PROTO_SET(f, locals, potion_load_values(P, in));
+  PN_PROTO_SET(f, upvals, potion_load_values(P, in));
+  PN_PROTO_SET(f, protos, PN_TUP0());
+  count = potion_load_count(in);
+  for (i = 0; i < count && in->ptr < in->end; i++) {
+    PN proto = potion_proto_load(P, (PN)f, in);
+    PN_PUSH(f->protos, proto);
+  }
+  PN_PROTO_SET(f, debugs, PN_TUP0());
+
+  len = potion_load_pn(in);
+  if ((size_t)(in->end - in->ptr) < len) len = in->end - in->ptr;
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
-  PN_MEMCPY_N(asmb->ptr, *ptr, u8, len);
+  potion_load_read(in, asmb->ptr, len);
   asmb->len = len;
 
-  f->asmb = (PN)asmb;
+  PN_PROTO_SET(f, asmb, asmb);
   f->localsize = PN_TUPLE_LEN(f->locals);
   f->upvalsize = PN_TUPLE_LEN(f->upvals);
   f->pathsize  = PN_TUPLE_LEN(f->paths);
-  *ptr += len;
   return (PN)f;
 }
 
 ///\memberof PNSource
 // TODO: "load" from a stream
 PN potion_source_load(Potion *P, PN cl, PN buf) {
-  u8 *ptr;
-  vPN(BHeader) h = (struct PNBHeader *)PN_STR_PTR(buf);
+  struct PNBHeader *h = (struct PNBHeader *)PN_STR_PTR(buf);
+  size_t len = PN_STR_LEN(buf);
+  struct PNLoad in;
+  u8 *copy;
+  PN proto;
   // check for compiled binary first
-  if ((size_t)PN_STR_LEN(buf) <= sizeof(struct PNBHeader) ||
+  if (len <= sizeof(struct PNBHeader) ||
       strncmp((char *)h->sig, POTION_SIG, 4) != 0)
     return PN_NIL;
 
-  ptr = h->proto;
-  return potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  if (!(copy = malloc(len))) potion_allocation_error();
+  PN_MEMCPY_N(copy, h, u8, len);
+  in.ptr = copy + sizeof(struct PNBHeader);
+  in.end = copy + len;
+  proto = potion_proto_load(P, PN_NIL, &in);
+  free(copy);
+  return proto;
 }
 
+/// bytecode writer, outside of the gc
+struct PNDump {
+  u8 *ptr;
+  size_t len, siz;
+};
+
 // TODO: switch to dump methods
-#define WRITE_U8(un, ptr) ({*ptr = (u8)un; ptr += sizeof(u8);})
-#define WRITE_PN(pn, ptr) ({*(PN *)ptr = pn; ptr += sizeof(PN);})
-#define WRITE_CONST(val, ptr) ({ \
-    if (PN_IS_STR(val)) { \
-      PN count = (PN_STR_LEN(val)+1) << 4; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(val), char, PN_STR_LEN(val)); \
-      ptr += PN_STR_LEN(val); \
-    } else if (PN_IS_DBL(val)) { \
-      PN str = potion_num_string(P, PN_NIL, val); \
-      PN count = ((PN_STR_LEN(str)+1) << 4) | 2; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(str), char, PN_STR_LEN(str)); \
-      ptr += PN_STR_LEN(str); \
-    } else { \
-      PN cval = (PN_IS_PTR(val) ? PN_NIL : val); \
-      WRITE_PN(cval, ptr); \
-    } \
-  })
-#define WRITE_TUPLE(tup, ptr) \
-  long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count, ptr); \
-  for (; i < count; i++)
-#define WRITE_VALUES(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) WRITE_CONST(PN_TUPLE_AT(tup, i), ptr); \
-  })
-#define WRITE_PROTOS(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) ptr += potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), \
-        out, (char *)ptr - PN_STR_PTR(out)); \
-  })
+static void potion_dump_write(struct PNDump *out, const void *src, size_t len) {
+  if (out->siz - out->len < len) {
+    out->siz = 2 * out->siz + len;
+    if (!(out->ptr = realloc(out->ptr, out->siz))) potion_allocation_error();
+  }
+  memcpy(out->ptr + out->len, src, len);
+  out->len += len;
+}
+
+static void potion_dump_pn(struct PNDump *out, PN pn) {
+  potion_dump_write(out, &pn, sizeof(PN));
+}
+
+static void potion_dump_count(struct PNDump *out, PN_SIZE count) {
+  u8 n = count < 255 ? (u8)count : 255;
+  potion_dump_write(out, &n, sizeof(u8));
+  if (n == 255) potion_dump_pn(out, (PN)count);
+}
+
+static void potion_dump_const(Potion *P, struct PNDump *out, PN val) {
+  if (PN_IS_STR(val)) {
+    potion_dump_pn(out, ((PN)PN_STR_LEN(val) + 1) << 4);
+    potion_dump_write(out, PN_STR_PTR(val), PN_STR_LEN(val));
+  } else if (PN_IS_DBL(val)) {
+    char str[40];
+    int len = snprintf(str, sizeof(str), "%.17g", PN_DBL(val)); // all the digits
+    potion_dump_pn(out, ((PN)(len + 1) << 4) | 2);
+    potion_dump_write(out, str, len);
+  } else
+    potion_dump_pn(out, PN_IS_PTR(val) ? PN_NIL : val);
+}
+
+static void potion_dump_values(Potion *P, struct PNDump *out, PN tup) {
+  PN_SIZE i, count = PN_IS_TUPLE(tup) ? PN_TUPLE_LEN(tup) : 0;
+  potion_dump_count(out, count);
+  for (i = 0; i < count; i++)
+    potion_dump_const(P, out, PN_TUPLE_AT(tup, i));
+}
 
 ///\memberof PNProto
-/// compile to bytecode
+/// compile to bytecode. does not allocate
 ///\param proto  PNProto
-///\param out    PNBytes output buffer
-///\param pos    long where to add at out
-///\return char* ptr - start
-long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
+///\param out    output buffer
+static void potion_proto_dumpbc(Potion *P, PN proto, struct PNDump *out) {
   vPN(Proto) f = (struct PNProto *)proto;
-  char *start = PN_STR_PTR(out) + pos;
-  u8 *ptr = (u8 *)start;
+  PN_SIZE i;
   //TODO extern (by name)
-  WRITE_CONST(f->name, ptr);
-  WRITE_CONST(f->source, ptr);
-  WRITE_VALUES(f->sig, ptr);
-  WRITE_CONST(f->stack, ptr);
-  WRITE_VALUES(f->values, ptr);
-  WRITE_VALUES(f->paths, ptr);
-  WRITE_VALUES(f->locals, ptr);
-  WRITE_VALUES(f->upvals, ptr);
-  WRITE_PROTOS(f->protos, ptr);
-  WRITE_PN(PN_FLEX_SIZE(f->asmb), ptr);
-  PN_MEMCPY_N(ptr, ((PNFlex *)f->asmb)->ptr, u8, PN_FLEX_SIZE(f->asmb));
-  ptr += PN_FLEX_SIZE(f->asmb);
-  return (char *)ptr - start;
+  potion_dump_const(P, out, f->name);
+  potion_dump_const(P, out, f->source);
+  potion_dump_values(P, out, f->sig);
+  potion_dump_const(P, out, f->stack);
+  potion_dump_values(P, out, f->values);
+  potion_dump_values(P, out, f->paths);
+  potion_dump_values(P, out, f->locals);
+  potion_dump_values(P, out, f->upvals);
+  potion_dump_count(out, PN_TUPLE_LEN(f->protos));
+  for (i = 0; i < PN_TUPLE_LEN(f->protos); i++)
+    potion_proto_dumpbc(P, PN_TUPLE_AT(f->protos, i), out);
+  potion_dump_pn(out, PN_FLEX_SIZE(f->asmb));
+  potion_dump_write(out, ((PNFlex *)f->asmb)->ptr, PN_FLEX_SIZE(f->asmb));
 }
 
 ///\memberof PNSource
 /// dump to bytecode
 // Low TODO: dump to a stream (if we have not enough memory)
 PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
-  PN pnb = potion_bytes(P, 8192);
+  PN pnb;
   struct PNBHeader h;
+  struct PNDump out = { NULL, 0, 0 };
   DBG_c("compile bc\n");
   PN_MEMCPY_N(h.sig, POTION_SIG, u8, 4);
   h.major = POTION_MAJOR;
   h.minor = POTION_MINOR;
   h.vmid = POTION_VMID;
   h.pn = (u8)sizeof(PN);
-  PN_MEMCPY(PN_STR_PTR(pnb), &h, struct PNBHeader); // coverity[uninit_use_in_call:FALSE]
-  PN_STR_LEN(pnb) = (long)sizeof(struct PNBHeader) +
-    potion_proto_dumpbc(P, proto, pnb, sizeof(struct PNBHeader));
+  potion_dump_write(&out, &h, sizeof(struct PNBHeader)); // coverity[uninit_use_in_call:FALSE]
+  potion_proto_dumpbc(P, proto, &out);
+  pnb = potion_bytes(P, out.len);
+  PN_MEMCPY_N(PN_STR_PTR(pnb), out.ptr, u8, out.len);
+  PN_STR_LEN(pnb) = out.len;
+  free(out.ptr);
   return pnb;
 }
 
diff --git a/core/load.c b/core/load.c
index 6736585..401c2c4 100644
--- a/core/load.c
+++ b/core/load.c
@@ -37,7 +37,9 @@ static PN potion_load_code(Potion *P, const char *filename) {
   if (read(fd, PN_STR_PTR(buf), stats.st_size) == stats.st_size) {
     PN_STR_PTR(buf)[stats.st_size] = '\0';
     code = potion_source_load(P, PN_NIL, buf);
-    if (!PN_IS_PROTO(code)) {
+    if (PN_IS_PROTO(code)) {
+      result = potion_run(P, code, POTION_JIT);
+    } else {
       result = potion_run(P, potion_send(
 	  potion_parse(P, buf, (char *)filename),
           PN_compile, potion_str(P, filename), PN_NIL),
diff --git a/core/number.c b/core/number.c
index 072eab7..bed5543 100644
--- a/core/number.c
+++ b/core/number.c
@@ -25,8 +25,14 @@ PN potion_double(Potion *P, double v) {
 
 /// Convert string to double
 PN potion_strtod(Potion *P, char *str, int len) {
-  char *ptr = str + len;
-  return potion_double(P, strtod(str, &ptr));
+  char small[256], *buf = small; // the number may be followed by other data
+  double d;
+  if (len >= (int)sizeof(small) && !(buf = malloc(len + 1))) potion_allocation_error();
+  PN_MEMCPY_N(buf, str, char, len);
+  buf[len] = '\0';
+  d = strtod(buf, NULL);
+  if (buf != small) free(buf);
+  return potion_double(P, d);
 }
 /**\memberof PNNumber
   "**" method.
-- 
2.43.0


From 4c6f60d3a09d846edd1817afa22b8b0c79cce636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 038/102] fix: the interpreter refused operators on objects
 which answer them

'a' + 'b' worked in the JIT only.
---
 core/vm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index f491d31..89dcdb6 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -377,12 +377,17 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   return f->jit = (PN_F)fn;
 }
 
+/* numbers, or an object answering the operator, as in the jit */
+#define PN_VM_CHECK(name)                                         \
+    if (PN_IS_NUM(reg[op.a]))                                     \
+      { PN_CHECK_NUM(reg[op.b]); }                                \
+    else if (!PN_IS_CLOSURE(potion_bind(P, reg[op.a], PN_##name)))\
+      { PN_CHECK_NUM(reg[op.a]); }
 #define PN_VM_MATH2(name, oper)                                   \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
     reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    PN_VM_CHECK(name)                                             \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
@@ -402,8 +407,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       reg[op.a] = PN_NUM((long)val);                              \
   }                                                               \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    PN_VM_CHECK(name)                                             \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 #else
-- 
2.43.0


From bfe7e526d6c83253beadf8dbf130c04fb6af0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 039/102] fix: list arguments before a closure with a signature
 were dropped

and a function called with a block got an extra nil argument
---
 core/compile.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 3360c8e..dede92d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -804,7 +804,9 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 #define LOAD_ARG() PN_ARG_TABLE(PN_S(t,1), breg, 1)
           if (arg) {
             u8 part1 = PN_PART(PN_S(t,1));
-            if (part1 == AST_VALUE || (part1 == AST_LIST && PN_S(t,2) == PN_NIL)) {
+            // the list is the signature of a block, but the arguments before a closure
+            if (part1 == AST_VALUE || (part1 == AST_LIST &&
+                 (PN_S(t,2) == PN_NIL || PN_PART(PN_S(t,2)) == AST_PROTO))) {
               LOAD_ARG();
             }
           }
@@ -838,10 +840,16 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             PN_ASM2(opcode, reg, num);
           if (call) {
             PN_ASM1(OP_SELF, ++breg);
-            PN_ARG_TABLE(PN_S(t,1), breg, 1);
+            if (PN_S(t,1) != PN_NIL || PN_S(t,2) == PN_NIL)
+              PN_ARG_TABLE(PN_S(t,1), breg, 1);
             if (PN_S(t,2) != PN_NIL) {
+              vPN(Source) t2 = PN_S_(t,2);
               breg++;
-              PN_BLOCK(breg, PN_S(t,2), PN_NIL);
+              if (t2->part == AST_PROTO) {
+                PN_BLOCK(breg, PN_S(t2,1), PN_S(t2,0));
+              } else {
+                PN_BLOCK(breg, PN_S(t,2), PN_NIL);
+              }
             }
             DBG_c("; call %d %d\n", reg, breg);
             PN_ASM2(OP_CALL, reg, breg);
-- 
2.43.0


From dedd8e98ae3fe7d03cea08f7f15afe818acb1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 040/102] fix: a sign before a parenthesised expression made a
 list of it

-(a + b) was 0 - (list), giving -0.0
---
 core/syntax.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index 3027ef9..8013094 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -139,8 +139,8 @@ power = e:expr
 
 expr = ( not a:expr           { a = PN_AST(NOT, a) }
        | wavy a:expr          { a = PN_AST(WAVY, a) }
-       | minus !minus a:atom  { a = PN_OP(AST_MINUS, PN_AST(VALUE, PN_ZERO), a) }
-       | plus !plus a:atom    { a = PN_OP(AST_PLUS, PN_AST(VALUE, PN_ZERO), a) }
+       | minus !minus a:atom  { a = PN_OP(AST_MINUS, PN_AST(VALUE, PN_ZERO), PN_AST(EXPR, PN_TUP(a))) }
+       | plus !plus a:atom    { a = PN_OP(AST_PLUS, PN_AST(VALUE, PN_ZERO), PN_AST(EXPR, PN_TUP(a))) }
        | mminus a:atom        { a = PN_OP(AST_INC, a, PN_NUM(-1) ^ 1) }
        | pplus a:atom         { a = PN_OP(AST_INC, a, PN_NUM(1) ^ 1) }
        | a:atom (pplus          { a = PN_OP(AST_INC, a, PN_NUM(1)) }
-- 
2.43.0


From 8b7e496c12fd6331863189b155715f8a0a2ca924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 041/102] fix: the interpreter and <=> compared integers as
 unsigned words

-1 < 0 was false
---
 core/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 89dcdb6..0c53fc7 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -419,7 +419,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 // TODO: support str1 < str2, or list1 < list2? (i.e. call the cmp method)
 #define PN_VM_NUMCMP(cmp)					  \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
-    reg[op.a] = PN_BOOL(reg[op.a] cmp reg[op.b]);		  \
+    reg[op.a] = PN_BOOL((long)reg[op.a] cmp (long)reg[op.b]);		  \
   else {                                                          \
     PN_CHECK_NUM(reg[op.a]);                                      \
     PN_CHECK_NUM(reg[op.b]);                                      \
@@ -432,7 +432,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 /* we need that for the jit, too large to be inlined there */
 PN potion_vm_cmp(Potion *P, PN a, PN b) {
   if (PN_IS_INT(a) && PN_IS_INT(b))
-    return a < b ? PN_NUM(-1) : a == b ? PN_ZERO : PN_NUM(1);
+    return (long)a < (long)b ? PN_NUM(-1) : a == b ? PN_ZERO : PN_NUM(1);
   return potion_send(a, PN_cmp, b);
 }
 PN potion_vm_eq(Potion *P, PN a, PN b) {
-- 
2.43.0


From 51d9d41bef8a7b4fb68fc4e8f885e03d41d8296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 042/102] fix: default values were taken for names and marks of
 a signature

potion_sig_find forgot that it just saw the mark of a default value, so a
string default counted as a parameter, and named arguments after it were
bound to the wrong one or overwrote other registers. A default of 58, the
mark itself, hid the parameter after it: f = (x:=58, y:=1) had one less.
---
 core/objmodel.c |  7 +++----
 core/syntax.y   | 10 ++++------
 core/vm.c       |  5 +++--
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 26179e3..41239a0 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -89,8 +89,7 @@ int potion_sig_arity(Potion *P, PN sig) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++; // names
-	// but not string default values
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) i++; // but not default values
       }
     }
     return count;
@@ -138,7 +137,7 @@ PN potion_sig_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) i++; // skip the default value
 	if (count == index) {
 	  result = potion_tuple_new(P, v);
 	  if (i+1 < t->len && PN_IS_INT((PN)t->set[i+1])) {
@@ -171,7 +170,7 @@ PN potion_sig_name_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) i++; // skip the default value
 	if (count == index)
 	  return v;
       }
diff --git a/core/syntax.y b/core/syntax.y
index 8013094..6fb6437 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -508,12 +508,10 @@ int potion_sig_find(Potion *P, PN cl, PN name)
     return -1;
 
   PN_TUPLE_EACH(sig, i, v, {
-    PN prev = PN_NIL;
-    if (v == name) return idx;
-    // count names, not string default values
-    if (PN_IS_STR(v) && !(PN_IS_INT(prev) && prev == PN_NUM(':')))
-      idx++;
-    prev = v;
+    // count names, not the default values
+    if (v == PN_NUM(':')) i++;
+    else if (v == name) return idx;
+    else if (PN_IS_STR(v)) idx++;
   });
   return -1;
 }
diff --git a/core/vm.c b/core/vm.c
index 0c53fc7..5b00187 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -281,8 +281,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     vPN(Tuple) t = (vPN(Tuple)) potion_fwd(f->sig);
     for (i=0; i < t->len; i++) {
       PN v = (PN)t->set[i];
-      // arg names, except string default
-      if (PN_IS_STR(v) && !(i>0 && PN_IS_INT(t->set[i-1]) && t->set[i-1] == PN_NUM(':'))) {
+      // arg names, except default values
+      if (v == PN_NUM(':')) i++;
+      else if (PN_IS_STR(v)) {
         PN_SIZE num = PN_GET(f->locals, v);
         if (num != PN_NONE)
           target->local(P, f, &asmb, regs + num, argx);
-- 
2.43.0


From 988bb9d74c91d145ca58dfee93945428bccd2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 043/102] fix: the collector followed the step of a prefix
 decrement as a pointer

++x and --x keep PN_NUM(1) ^ 1 and PN_NUM(-1) ^ 1 in the AST. The latter,
-2, is no immediate value, so a collection while compiling read through it.
---
 core/compile.c | 5 ++++-
 core/syntax.y  | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index dede92d..6aae826 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -538,6 +538,9 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       vPN(Source) lhs = t->a[0];
       PN_SIZE num = PN_UPVAL(PN_S(lhs,0));
       u8 opcode = OP_SETUPVAL;
+      PN step = PN_S(t,1); // postfix: 1 or -1, prefix: true or false
+      if (!PN_IS_INT(step))
+        step = step == PN_TRUE ? PN_NUM(1) : PN_NUM(-1);
       if (num == PN_NONE) {
         num = PN_PUT(f->locals, PN_S(lhs,0));
 	DBG_c("locals %s => %d\n", AS_STR(lhs->a[0]), (int)num);
@@ -552,7 +555,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         breg++;
         PN_ASM2(OP_MOVE, breg, reg);
       }
-      PN_ASM2(OP_LOADPN, breg + 1, (PN_S(t,1) | PN_FINTEGER));
+      PN_ASM2(OP_LOADPN, breg + 1, step);
       PN_ASM2(OP_ADD, breg, breg + 1);
       PN_ASM2(opcode, breg, num);
       PN_REG(f, breg + 1);
diff --git a/core/syntax.y b/core/syntax.y
index 6fb6437..fbe36b6 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -141,8 +141,8 @@ expr = ( not a:expr           { a = PN_AST(NOT, a) }
        | wavy a:expr          { a = PN_AST(WAVY, a) }
        | minus !minus a:atom  { a = PN_OP(AST_MINUS, PN_AST(VALUE, PN_ZERO), PN_AST(EXPR, PN_TUP(a))) }
        | plus !plus a:atom    { a = PN_OP(AST_PLUS, PN_AST(VALUE, PN_ZERO), PN_AST(EXPR, PN_TUP(a))) }
-       | mminus a:atom        { a = PN_OP(AST_INC, a, PN_NUM(-1) ^ 1) }
-       | pplus a:atom         { a = PN_OP(AST_INC, a, PN_NUM(1) ^ 1) }
+       | mminus a:atom        { a = PN_OP(AST_INC, a, PN_FALSE) }
+       | pplus a:atom         { a = PN_OP(AST_INC, a, PN_TRUE) }
        | a:atom (pplus          { a = PN_OP(AST_INC, a, PN_NUM(1)) }
                | mminus         { a = PN_OP(AST_INC, a, PN_NUM(-1)) })?) { a = PN_TUP(a) }
          (c:call { a = PN_PUSH(a, c) })*
-- 
2.43.0


From edf087ed3bd6de64c5f4133b6a363e9b55feed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 044/102] fix: unicode escapes at the limits of the UTF-8
 lengths

U+07FF and U+FFFF were written with one byte too many, U+10FFFF was refused
and U+DFFF accepted. U+00C0 and U+00C1 are letters; only the bytes C0 and C1
do not occur in UTF-8.
---
 core/syntax.y | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index fbe36b6..de99c41 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -292,13 +292,11 @@ escu        = esc 'u' < hexl hexl hexl hexl > {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) {  // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
   } else { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
@@ -312,18 +310,16 @@ escU       = esc 'U' '{' < hexl+ > '}' {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) {  // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+  } else if (code <= 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
+  } else if (code <= 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 18) | 0xf0;
     utfc[nbuf++] = ((code >> 12) & 0x3f) | 0x80;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
-- 
2.43.0


From afbd1e73e35e26a890e9970fd0286de20a0e9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 045/102] fix: ord decoded the whole rest of the string as one
 character

---
 core/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index d0f2141..112d017 100644
--- a/core/string.c
+++ b/core/string.c
@@ -212,7 +212,9 @@ static const uint8_t utf8d[] = {
 static unsigned long potion_utf8char_decode(const char *s) {
   unsigned char data, byte;
   unsigned long unic = 0;
-  while ((byte = *s++)) {
+  const char *p;
+  for (p = s; (byte = *p); p++) {
+    if (p > s && (byte & 0xC0) != 0x80) break; // the next character
     if (byte >= 0x80) {
       data = utf8d[ byte - 0x80 ];
       byte = (byte ^ (uint8_t)(data << 4));
-- 
2.43.0


From 31b1e3501f57de3b2b200159134dce080fc9c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 046/102] fix: string slice with an end before its start
 crashed, and far indices wrapped

---
 core/string.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/string.c b/core/string.c
index 112d017..3103b83 100644
--- a/core/string.c
+++ b/core/string.c
@@ -226,8 +226,8 @@ static unsigned long potion_utf8char_decode(const char *s) {
 
 /// helper function for potion_str_slice to fix index.
 inline static PN potion_str_slice_index(PN index, size_t len, int nilvalue) {
-  int i = PN_INT(index);
-  int corrected;
+  long i = PN_INT(index);
+  long corrected;
   if (PN_IS_NIL(index)) {
     corrected = nilvalue;
   } else if (i < 0) {
@@ -235,7 +235,7 @@ inline static PN potion_str_slice_index(PN index, size_t len, int nilvalue) {
     if (corrected < 0) {
       corrected = 0;
     }
-  } else if (i > len) {
+  } else if (i > (long)len) {
     corrected = len;
   } else {
     corrected = i;
@@ -280,13 +280,14 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
   else {
     DBG_CHECK_INT(end);
   }
-  if (end < start) {
+  if (PN_INT(start) >= 0 && PN_INT(end) >= 0 && end < start) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(start+end, len, len)));
   } else {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
   }
+  if (endoffset < startoffset) endoffset = startoffset;
   return potion_str_sub(P, self, startoffset, endoffset - startoffset);
 }
 
-- 
2.43.0


From b34ae534b55ffa021413de18e1b115d37ea44ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 047/102] fix: the collector took words of machine code being
 assembled for objects

---
 core/asm.c      | 30 ++++++++++++++++++++++++++++--
 core/asm.h      |  2 ++
 core/objmodel.c |  6 ++++--
 core/vm.c       |  3 ++-
 4 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/core/asm.c b/core/asm.c
index 46b4a9c..60305a5 100644
--- a/core/asm.c
+++ b/core/asm.c
@@ -17,6 +17,32 @@ PNAsm *potion_asm_new(Potion *P) {
   return asmb;
 }
 
+/// a buffer for machine code. It lies outside of the collected memory, because the
+/// types among the code look like objects to the collector, which is not precise.
+PNAsm *potion_asm_code_new(Potion *P) {
+  PNAsm *asmb = calloc(1, ASM_UNIT);
+  if (asmb == NULL) potion_allocation_error();
+  asmb->siz = ASM_UNIT - sizeof(PNAsm);
+  return asmb;
+}
+
+void potion_asm_code_free(PNAsm *asmb) {
+  free(asmb);
+}
+
+/// makes place for len more bytes
+static PNAsm *potion_asm_needs(Potion *P, PNAsm * volatile asmb, size_t len) {
+  if (asmb->vt == PN_TBYTES) {
+    PN_FLEX_NEEDS(len, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
+  } else if (asmb->siz < asmb->len + len) {
+    PN_SIZE siz = (asmb->len + len) * 2;
+    asmb = realloc(asmb, sizeof(PNAsm) + siz);
+    if (asmb == NULL) potion_allocation_error();
+    asmb->siz = siz;
+  }
+  return asmb;
+}
+
 PNAsm *potion_asm_clear(Potion *P, PNAsm * volatile asmb) {
   asmb->len = 0;
   PN_MEMZERO_N(asmb->ptr, u8, asmb->siz);
@@ -25,7 +51,7 @@ PNAsm *potion_asm_clear(Potion *P, PNAsm * volatile asmb) {
 
 PNAsm *potion_asm_put(Potion *P, PNAsm * volatile asmb, PN val, size_t len) {
   u8 *ptr;
-  PN_FLEX_NEEDS(len, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
+  asmb = potion_asm_needs(P, asmb, len);
   ptr = asmb->ptr + asmb->len;
 
   if (len == sizeof(u8))
@@ -56,7 +82,7 @@ PNAsm *potion_asm_op(Potion *P, PNAsm * volatile asmb, u8 ins, int _a, int _b) {
 
 PNAsm *potion_asm_write(Potion *P, PNAsm * volatile asmb, char *str, size_t len) {
   char *ptr;
-  PN_FLEX_NEEDS(len, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
+  asmb = potion_asm_needs(P, asmb, len);
   ptr = (char *)asmb->ptr + asmb->len;
   PN_MEMCPY_N(ptr, str, char, len);
   asmb->len += len;
diff --git a/core/asm.h b/core/asm.h
index 491067e..4e336cc 100644
--- a/core/asm.h
+++ b/core/asm.h
@@ -102,6 +102,8 @@ typedef struct {
 #define ASMS(cstr) *asmp = potion_asm_write(P, *asmp, cstr, sizeof(cstr)-1)
 
 PNAsm *potion_asm_new(Potion *);
+PNAsm *potion_asm_code_new(Potion *);
+void potion_asm_code_free(PNAsm *);
 PNAsm *potion_asm_clear(Potion *, PNAsm *);
 PNAsm *potion_asm_put(Potion *, PNAsm *, PN, size_t);
 PNAsm *potion_asm_op(Potion *, PNAsm *, u8, int, int);
diff --git a/core/objmodel.c b/core/objmodel.c
index 41239a0..3c274a4 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -305,10 +305,11 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #ifdef POTION_JIT_TARGET
   // TODO: allocate assembled instructions together into single pages
   // since many times these tables are <100 bytes.
-  PNAsm * volatile asmb = potion_asm_new(P);
+  PNAsm * volatile asmb = potion_asm_code_new(P);
   P->target.ivars(P, ivars, &asmb);
   vt->ivfunc = (PN_IVAR_FUNC)PN_ALLOC_FUNC(asmb->len);
   PN_MEMCPY_N(vt->ivfunc, asmb->ptr, u8, asmb->len);
+  potion_asm_code_free(asmb);
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
@@ -390,7 +391,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   // TODO: make JIT_MCACHE more flexible, store in fixed gc, see ivfunc TODO also
   // TODO: this is disabled until method weakrefs can be stored in fixed memory
   if (P->target.mcache != NULL) {
-    PNAsm * volatile asmb = potion_asm_new(P);
+    PNAsm * volatile asmb = potion_asm_code_new(P);
     P->target.mcache(P, vt, &asmb);
     if (asmb->len <= 4096) {
       if (vt->mcache == NULL)
@@ -400,6 +401,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
       potion_munmap(vt->mcache, 4096);
       vt->mcache = NULL;
     }
+    potion_asm_code_free(asmb);
   }
 #endif
   return method;
diff --git a/core/vm.c b/core/vm.c
index 5b00187..e9e544f 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -226,7 +226,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   PNJumps *jmps = malloc((oplen + 1) * sizeof(PNJumps)); // at most one per op
   size_t *offs = malloc((oplen + 1) * sizeof(size_t));
   long upc = PN_TUPLE_LEN(f->upvals);
-  PNAsm * volatile asmb = potion_asm_new(P);
+  PNAsm * volatile asmb = potion_asm_code_new(P);
   u8 *fn;
   PNTarget *target = &P->target;
   target->setup(P, f, &asmb);
@@ -372,6 +372,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 #endif
   PN_MEMCPY_N(fn, asmb->ptr, u8, asmb->len);
+  potion_asm_code_free(asmb);
   free(jmps);
   free(offs);
 
-- 
2.43.0


From 56ef4fe62969a01fe358b8344b6c82da24312816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 048/102] fix: sorting many equal elements exhausted the stack

---
 core/table.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/table.c b/core/table.c
index c3d3647..eb24012 100644
--- a/core/table.c
+++ b/core/table.c
@@ -759,7 +759,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
 #ifdef DEBUG
   if (PN_TTUPLE != PN_TYPE(self)) potion_fatal("Invalid type");
 #endif
-  if (from < to) {
+  while (from < to) {
     struct PNTuple *t = PN_GET_TUPLE(self);
     // which pivot? first is worst case if already sorted.
     // random, last, middle or best: median-of-3.
@@ -794,10 +794,17 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     }
     SWAP(index, to); // Move pivot element back to its final place
 
-    if (index > 0)
-      potion_sort_internal(P,cl,self, from, index-1, cmp);
-    potion_sort_internal(P,cl,self, index+1, to,   cmp);
     PN_TOUCH(self);
+    // recurse into the smaller part only, to bound the stack
+    if (index - from < to - index) {
+      if (index > from)
+        potion_sort_internal(P,cl,self, from, index-1, cmp);
+      from = index + 1;
+    } else {
+      potion_sort_internal(P,cl,self, index+1, to, cmp);
+      if (index == from) break;
+      to = index - 1;
+    }
   }
 }
  
-- 
2.43.0


From 28ca79ab4caf97b949daf4c7fbad3000b18d1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 049/102] fix: send passed no method name

---
 core/objmodel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 3c274a4..33aed0c 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -725,7 +725,7 @@ void potion_object_init(Potion *P) {
   potion_method(clo_vt, "minargs", potion_closure_minargs, 0);
   potion_method(ref_vt, "string", potion_ref_string, 0);
   potion_method(obj_vt, "forward", potion_object_forward, 0);
-  potion_method(obj_vt, "send", potion_object_send, 0);
+  potion_method(obj_vt, "send", potion_object_send, "method=S");
   potion_method(obj_vt, "string", potion_object_string, 0);
   potion_method(obj_vt, "size", potion_object_size, 0);
   potion_method(obj_vt, "subclass?", potion_object_subclass, "value=o");
-- 
2.43.0


From 19b36cf6d97db87053b21a4d9c3d8a9bb51d70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 050/102] fix: the write barrier of a grown list recorded its
 old place only

---
 core/potion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.h b/core/potion.h
index 8985135..c6dfa7c 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -228,7 +228,7 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
 #define PN_FUNC(f, s)   potion_closure_new(P, (PN_F)f, potion_sig(P, s), 0) ///<\memberof PNClosure
 #define PN_DEREF(x)     ((struct PNWeakRef *)(x))->data       ///<\memberof PNWeakRef
 #define PN_DATA(x)      ((struct PNData *)(x))->data          ///<\memberof PNData
-#define PN_TOUCH(x)     potion_gc_update(P, (PN)(x))
+#define PN_TOUCH(x)     potion_gc_update(P, potion_fwd((PN)(x)))
 #define PN_ALIGN(o, x)   (((((o) - 1) / (x)) + 1) * (x))
 
 #define PN_OBJECT_HEADER \
-- 
2.43.0


From 89450d25f5ff38dd5523209cc27779ed51fe09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 051/102] fix: methods sent from C to a small number lost their
 receiver

---
 core/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index e9e544f..cb460c6 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -167,7 +167,8 @@ PN potion_vm_proto(Potion *P, PN cl, PN self, ...) {
     va_list args;
     ary = PN_TUP0();
     va_start(args, self);
-    if (self < 10) {
+    // self is only a number of arguments when there are optional ones
+    if (self < 10 && arity > minargs) {
       numargs = self;
       self = 0;
     }
-- 
2.43.0


From 281db6d98a4d3004497bfb2e0b8a71ee8e0a02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 052/102] fix: the collector changed characters of a text on
 the stack it took for a pointer

---
 core/file.c   |  6 ++++--
 core/number.c | 11 ++++++-----
 lib/aio.c     |  2 +-
 lib/buffile.c |  2 +-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/file.c b/core/file.c
index 700bfb7..24df438 100644
--- a/core/file.c
+++ b/core/file.c
@@ -99,7 +99,9 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
   n = PN_INT(n);
   char buf[n];
-  int r = read(self->fd, buf, n);
+  int r;
+  memset(buf, 0, n); // no stale words the collector could take for pointers
+  r = read(self->fd, buf, n);
   if (r == -1) {
     return potion_io_error(P, "read");
     //perror("read");
@@ -181,7 +183,7 @@ PN potion_file_string(Potion *P, PN cl, pn_file self) {
   global "read" method, read next line from stdin via fgets()
   \return PNString or or PN_NIL */
 PN potion_lobby_read(Potion *P, PN cl, PN self) {
-  char line[1024];
+  char line[1024] = "";
   if (fgets(line, 1024, stdin) != NULL)
     return potion_str(P, line);
   return PN_NIL;
diff --git a/core/number.c b/core/number.c
index bed5543..03822a8 100644
--- a/core/number.c
+++ b/core/number.c
@@ -220,7 +220,7 @@ static PN potion_int_bitr(Potion *P, PN cl, PN self, PN num) {
   "string" method, stringify
  \return PNString */
 PN potion_int_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[40] = ""; // no stale words the collector could take for pointers
   sprintf(ints, "%ld", PN_INT(self));
   return potion_str(P, ints);
 }
@@ -274,7 +274,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[340];
+  char ints[340] = "";
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -285,7 +285,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[340];
+  char ints[340] = "";
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
@@ -366,9 +366,10 @@ static PN potion_int_step(Potion *P, PN cl, PN self, PN end, PN step, PN block)
   "chr" of int only, no UTF-8 multi-byte sequence yet.
  \return PNString one char <255 */
 static PN potion_int_chr(Potion *P, PN cl, PN self) {
-  char c = PN_INT(self);
+  char c[16] = ""; // no stale words the collector could take for pointers
+  c[0] = (char)PN_INT(self);
   DBG_CHECK_INT(self);
-  return PN_STRN(&c, 1);
+  return PN_STRN(c, 1);
 }
 /**\memberof PNNumber
   "number?"
diff --git a/lib/aio.c b/lib/aio.c
index bc4e4d9..2f4e21e 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1091,7 +1091,7 @@ aio_udp_recv_cb(uv_udp_t* handle, ssize_t nread, const uv_buf_t* buf,
     const struct sockaddr* addr, unsigned flags)
 {
   struct aio_udp_s* wrap = (struct aio_udp_s*)handle;
-  char ip[46];
+  char ip[46] = "";
   int port;
   struct sockaddr_in* addr_in = (struct sockaddr_in*)addr;
   vPN(Closure) cb = PN_CLOSURE(wrap->r.recv_cb);
diff --git a/lib/buffile.c b/lib/buffile.c
index 370a536..2cbcea6 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -140,7 +140,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
-  char line[1024];
+  char line[1024] = ""; // no stale words the collector could take for pointers
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
   return PN_NIL;
-- 
2.43.0


From 23483edbe18f48eeaa37e6dd6dc7406b16fa26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:55 +0000
Subject: [PATCH 053/102] fix: the place of a list turned into a table goes to
 the write barrier itself

---
 core/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index eb24012..4dab4bc 100644
--- a/core/table.c
+++ b/core/table.c
@@ -56,7 +56,7 @@ PN potion_table_cast(Potion *P, PN self) {
     ((struct PNFwd *)self)->fwd = POTION_FWD;
     ((struct PNFwd *)self)->siz = potion_type_size(P, (const struct PNObject *)self);
     ((struct PNFwd *)self)->ptr = (PN)t;
-    PN_TOUCH(self);
+    potion_gc_update(P, self); // the old place itself, which refers to the table
     self = (PN)t;
   }
   DBG_CHECK_TYPE(self,PN_TTABLE);
-- 
2.43.0


From 2e97eab762681f07620bec4f40cd2d21f430d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 054/102] fix: a moved continuation lost the last words of its
 stack

The length left out the saved registers, so the collector copied five words
too few and resuming put other data over the variables of potion's caller.
---
 core/callcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/callcc.c b/core/callcc.c
index 564ef22..f9980d4 100644
--- a/core/callcc.c
+++ b/core/callcc.c
@@ -125,7 +125,7 @@ PN potion_callcc(Potion *P, PN cl, PN self) {
     return 0;
   }
   cc = PN_ALLOC_N(PN_TCONT, struct PNCont, sizeof(PN) * (n + 3 + PN_SAVED_REGS));
-  cc->len = n + 3;
+  cc->len = n + 3 + PN_SAVED_REGS;
   cc->stack[0] = (PN)sp1;
   cc->stack[1] = (PN)sp2;
   cc->stack[2] = (PN)sp3;
-- 
2.43.0


From 59d90974b26009fe2b0399177916b6afbad8b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 055/102] fix: stale words of the stack inside an object were
 taken for objects

The collector copied whatever such a word pointed to, with a size read from
the middle of an object. It now knows where objects start.
---
 core/gc.c     | 19 ++++++++++++++++++-
 core/gc.h     |  6 ++++++
 core/potion.h | 13 +++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index e8f19a6..6c9b5b4 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -54,6 +54,12 @@ PN_SIZE potion_stack_len(Potion *P, _PN **p) {
   return esp < c ? c - esp : esp - c + 1;
 }
 
+// objects of the collected regions are only known by where they start
+#define IS_GC_OBJECT(v) \
+  (IS_GC_PROTECTED(v) ? 1 \
+   : IN_BIRTH_REGION(v) ? IS_GC_START(M->birth_map, M->birth_lo, v) \
+   : IN_OLDER_REGION(v) && IS_GC_START(M->old_map, M->old_lo, v))
+
 #define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || PN_TYPECHECK(PN_VTYPE(v))))
 
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
@@ -64,7 +70,7 @@ static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int
 
   while (n--) {
     v = *x;
-    if (IS_GC_PROTECTED(v) || IN_BIRTH_REGION(v) || IN_OLDER_REGION(v)) {
+    if (IS_GC_OBJECT(v)) {
       v = potion_fwd(v);
       switch (type) {
         case 0: // count only
@@ -130,6 +136,8 @@ static inline int NEW_BIRTH_REGION(struct PNMemory *M, void **wb, int sz) {
   DEL_BIRTH_REGION();
   SET_GEN(birth, newad, sz);
   SET_STOREPTR(5 + keeps);
+  free(M->birth_map);
+  M->birth_map = NEW_GC_MAP(sz);
   return sz;
 }
 
@@ -151,6 +159,8 @@ static int potion_gc_minor(Potion *P, int sz) {
     return POTION_NO_MEM;
 
   scanptr = (void *) M->old_cur;
+  M->copy_map = M->old_map;
+  M->copy_lo = (void *) M->old_lo;
   DBG_Gv(P,"running gc_minor "
 	"(young: %p -> %p = %ld) "
 	"(old: %p -> %p = %ld) "
@@ -225,6 +235,8 @@ static int potion_gc_major(Potion *P, int siz) {
   }
 
   M->old_cur = scanptr = newold + (sizeof(PN) * 2);
+  M->copy_map = NEW_GC_MAP(newoldsiz);
+  M->copy_lo = newold;
   DBG_G(P,"(new old: %p -> %p = %d)\n", newold, (char *)newold + newoldsiz, newoldsiz);
 
   potion_mark_stack(P, 2);
@@ -257,6 +269,8 @@ static int potion_gc_major(Potion *P, int siz) {
 
   M->old_lo = newold;
   M->old_hi = (char *)newold + newoldsiz;
+  free(M->old_map);
+  M->old_map = M->copy_map;
   M->majors++;
 
   newold = 0;
@@ -283,6 +297,7 @@ void potion_garbagecollect(Potion *P, int sz, int full) {
       return;
     }
     SET_GEN(old, page, gensz);
+    M->old_map = NEW_GC_MAP(gensz);
     full = 0;
   } else if ((char *) M->old_cur + sz + potion_birth_suggest(sz, M->old_lo, M->old_cur) +
       ((char *) M->birth_hi - (char *) M->birth_lo) > (char *) M->old_hi)
@@ -403,6 +418,7 @@ void *potion_gc_copy(Potion *P, struct PNObject *ptr) {
   }
   memcpy(dst, ptr, sz);
   P->mem->old_cur = (char *)dst + sz;
+  GC_SET_START(P->mem->copy_map, P->mem->copy_lo, dst);
 
   ((struct PNFwd *)ptr)->fwd = POTION_COPIED;
   ((struct PNFwd *)ptr)->siz = sz;
@@ -674,6 +690,7 @@ Potion *potion_gc_boot(void *sp) {
 
   SET_GEN(birth, page1, bootsz);
   SET_STOREPTR(4);
+  M->birth_map = NEW_GC_MAP(bootsz);
 
   // stack must be 16-byte aligned on amd64 SSE or __APPLE__, and 32-byte with AVX instrs.
   // at least amd64 atof() does SSE register return.
diff --git a/core/gc.h b/core/gc.h
index 444fb23..ce91fbe 100644
--- a/core/gc.h
+++ b/core/gc.h
@@ -31,6 +31,12 @@
   M->t##_hi = p + (s); \
   p = 0
 
+#define NEW_GC_MAP(sz)  ((unsigned char *)calloc(1, ((size_t)(sz) >> 6) + 1))
+
+#define IS_GC_START(map, lo, p) \
+  (!(map) || (((_PN)(p) & 7) == 0 && \
+    ((map)[((_PN)(p) - (_PN)(lo)) >> 6] >> ((((_PN)(p) - (_PN)(lo)) >> 3) & 7) & 1)))
+
 #define SET_STOREPTR(n) \
   M->birth_storeptr = (void *)(((void **)M->birth_hi) - (n))
 
diff --git a/core/potion.h b/core/potion.h
index c6dfa7c..7ac3383 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -681,6 +681,12 @@ struct PNMemory {
   /// the old region (TODO: consider making the old region common to all threads)
   volatile void *old_lo, *old_hi, *old_cur;
 
+  /// where objects start in these regions, a bit for every 8 bytes. words of the stack
+  /// which point elsewhere are no objects
+  unsigned char *birth_map, *old_map;
+  unsigned char *copy_map;  ///< of the region the collector copies to
+  void *copy_lo;
+
   volatile int collecting, dirty, pass, majors, minors;
   void *cstack;  ///< machine stack start
   void *protect; ///< end of protected memory
@@ -696,6 +702,12 @@ PN_SIZE potion_type_size(Potion *, const struct PNObject *);
 unsigned long potion_rand_int();
 double potion_rand_double();
 
+/// remember that an object starts at p
+#define GC_SET_START(map, lo, p) do { \
+    size_t _bit = (size_t)((char *)(p) - (char *)(lo)) >> 3; \
+    if (map) (map)[_bit >> 3] |= 1 << (_bit & 7); \
+  } while (0)
+
 /// quick inline allocation
 #ifdef VERIF_GC_STRESS
 /// for verification builds: collect at every n-th allocation
@@ -726,6 +738,7 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   res->vt = vt;
   res->uniq = (PNUniq)potion_rand_int();
   M->birth_cur = (char *)res + siz;
+  GC_SET_START(M->birth_map, M->birth_lo, res);
   return (void *)res;
 }
 
-- 
2.43.0


From 036bc002e7ffe864b9fbd727cb1bc4535720aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 056/102] fix: greg: yyleng in a predicate or error action was
 the size of the buffer

---
 tools/compile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index 9d7e359..b0f2eb0 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -257,7 +257,7 @@ static void Node_compile_c_ko(Node *node, int ko)
     case Predicate:
       pindent(); fprintf(output, "  yyText(G, G->begin, G->end);\n");
       begin(); nl();
-      define("yytext", "G->text"); define("yyleng", "G->textlen");
+      define("yytext", "G->text"); define("yyleng", "(G->end > G->begin ? G->end - G->begin : 0)");
       pindent(); fprintf(output, "  if (!(%s)) goto l%d;\n", node->action.text, ko);
       undef("yytext"); undef("yyleng");
       end(); nl();
@@ -272,7 +272,7 @@ static void Node_compile_c_ko(Node *node, int ko)
         label(eko);
         pindent(); fprintf(output, "  yyText(G, G->begin, G->end);\n");
         begin(); nl();
-        define("yytext", "G->text"); define("yyleng", "G->textlen");
+        define("yytext", "G->text"); define("yyleng", "(G->end > G->begin ? G->end - G->begin : 0)");
         pindent(); fprintf(output, "  %s;\n", node->error.text);
         undef("yytext"); undef("yyleng");
         end(); nl();
-- 
2.43.0


From 1d50dc31905af645aae403c62c5ac58eacd6b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 057/102] fix: greg: an empty match at the start of the input
 left the last text in yytext

---
 tools/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/compile.c b/tools/compile.c
index b0f2eb0..b57e8ea 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -777,7 +777,7 @@ YY_LOCAL(void) yyDone(GREG *G)\n\
   int pos;\n\
   for (pos= 0;  pos < G->thunkpos;  ++pos) {\n\
     yythunk *thunk= &G->thunks[pos];\n\
-    int yyleng= thunk->end ? yyText(G, thunk->begin, thunk->end) : thunk->begin;\n\
+    int yyleng= (thunk->end || !thunk->begin) ? yyText(G, thunk->begin, thunk->end) : thunk->begin;\n\
     yyprintfv((stderr, \"DO [%d] %s %d\", pos, thunk->name, thunk->begin));\n\
     yyprintfvTcontext(G->text);\n\
     yyprintfv((stderr, \"\\n\"));\n\
-- 
2.43.0


From b02b0f983cb5d2c98cde114fa66c6633c77c2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 058/102] fix: greg: the name of a class with quotes or
 non-ASCII bytes overflowed its buffer

---
 tools/compile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index b57e8ea..4bbc68d 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -103,11 +103,11 @@ static char *yyqq(char* s) {
   char *d = s;
   char *dst;
   int sl = 0, dl = 0;
-  while (*s++) {
+  for (; *s; s++) {
     dl++; sl++;
     if (*s==7||*s==8||*s==9||*s==11||*s==12||*s==13||*s==27||*s==34||*s==92||*s=='%') { dl++; } // escape with '\'
     else if (*s==10) { dl += 3; }        // \n\^J
-    else if (*(signed char *)s<32) { dl += 4; } // octal \000
+    else if (*(signed char *)s<32) { dl += 3; } // octal \000
   }
   if (dl == sl) return d;
   s = d;
@@ -136,7 +136,7 @@ static char *yyqq(char* s) {
     } else if (*s == 92) { // '\'
       *d++ = '\\'; *d++ = *s++;
     } else if (*(signed char *)s<32) {
-      sprintf(d,"\\%03o", *s); // octal \000
+      sprintf(d,"\\%03o", *(unsigned char *)s); // octal \000
       d += 4; s++;
     } else {
       *d++ = *s++;
-- 
2.43.0


From f618bfa2f82f103f3aea9f6b367afb71175e1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 059/102] fix: greg: \- in a class was a range and \000 ended
 it

---
 tools/compile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index 4bbc68d..9ff94db 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -165,17 +165,18 @@ static char *makeCharClass(unsigned char *cclass)
       memset(bits, 0, 32);
       set= charClassSet;
     }
-  while (0 != (c= readChar(&cclass)))
+  while (*cclass)
     {
-      if ('-' == c && *cclass && prev >= 0)
+      if ('-' == *cclass && cclass[1] && prev >= 0)
 	{
+	  ++cclass;
 	  for (c= readChar(&cclass); prev <= c; ++prev)
 	    set(bits, prev);
 	  prev= -1;
 	}
       else
   {
-    set(bits, prev= c);
+    set(bits, prev= readChar(&cclass));
   }
     }
 
-- 
2.43.0


From 70d24bc25bf9c31d180a668a6873b8b7bca522f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 060/102] fix: greg: quotes, line breaks, NUL and hex escapes
 of a literal were put into C as they are

---
 tools/compile.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index 9ff94db..f80018e 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -146,6 +146,23 @@ static char *yyqq(char* s) {
   return dst;
 }
 
+/* the literal as a C string, of which the quotes and escapes differ from ours */
+static char *makeCString(unsigned char *value)
+{
+  char *string= (char *)malloc(4 * strlen((char *)value) + 1);
+  char *ptr= string;
+  *ptr= 0;
+  while (*value)
+    {
+      int c= readChar(&value) & 255;
+      if (c < 32 || c > 126 || '"' == c || '\\' == c || '?' == c)
+	ptr += sprintf(ptr, "\\%03o", c);
+      else
+	ptr += sprintf(ptr, "%c", c);
+    }
+  return string;
+}
+
 static char *makeCharClass(unsigned char *cclass)
 {
   unsigned char	 bits[32];
@@ -226,7 +243,7 @@ static void Node_compile_c_ko(Node *node, int ko)
       {
 	pindent();
 	int len= strlen(node->string.value);
-	if (1 == len)
+	if (1 == len && ' ' <= node->string.value[0])
 	  {
 	    if ('\'' == node->string.value[0])
 	      fprintf(output, "  if (!yymatchChar(G, '\\'')) goto l%d;\n", ko);
@@ -237,7 +254,14 @@ static void Node_compile_c_ko(Node *node, int ko)
 	  if (2 == len && '\\' == node->string.value[0])
 	    fprintf(output, "  if (!yymatchChar(G, '%s')) goto l%d;\n", node->string.value, ko);
 	  else
-	    fprintf(output, "  if (!yymatchString(G, \"%s\")) goto l%d;\n", node->string.value, ko);
+	    {
+	      char *tmp= makeCString((unsigned char *)node->string.value);
+	      if (!strcmp(tmp, "\\000"))
+		fprintf(output, "  if (!yymatchChar(G, 0)) goto l%d;\n", ko);
+	      else
+		fprintf(output, "  if (!yymatchString(G, \"%s\")) goto l%d;\n", tmp, ko);
+	      YY_FREE(tmp);
+	    }
       }
       break;
 
-- 
2.43.0


From ac69825e0281586b92f45cff14d2a14816f8a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 061/102] fix: File.write wrote the tagged word of an integer

---
 core/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/file.c b/core/file.c
index 24df438..bc89498 100644
--- a/core/file.c
+++ b/core/file.c
@@ -125,7 +125,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
     else if (PN_IS_INT(obj)) {
-      tmp.l = PN_NUM(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
+      tmp.l = PN_INT(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
     }
     else if (PN_IS_BOOL(obj)) {
       tmp.c = (obj == PN_TRUE) ? 1 : 0; len = 1; ptr = (char *)&tmp.c;
-- 
2.43.0


From de4dfaa0cbdf08471e8685f3cd9e848301a556c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 062/102] fix: the path of a buffered file was lost at a
 collection

---
 lib/buffile.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 2cbcea6..bb0f758 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -9,6 +9,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <string.h>
 //#include <errno.h>
 #include "potion.h"
 
@@ -29,7 +30,7 @@ struct PNBufFile {
   PN_OBJECT_HEADER;
   PN_SIZE siz;
   FILE * file;
-  PN     path;
+  char * path; ///< a copy, as the gc does not look into it
 };
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
@@ -41,13 +42,15 @@ const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
   \returns opened PNBufFile or PNError */
 PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   FILE *file;
+  char *name;
   struct PNBufFile *self;
   if (!(file = fopen(PN_STR_PTR(path), PN_STR_PTR(modestr))))
     return potion_io_error(P, "open");
+  name = strdup(PN_STR_PTR(path));
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = path;
+  self->path = name;
   return (PN)self;
 }
 /**\memberof Lobby
@@ -61,7 +64,7 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   self->file = tmpfile(); // CID 32134
   if (!self->file)
     return potion_io_error(P, "tmpfile");
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 /**\memberof PNBufFile
@@ -76,7 +79,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
     return potion_io_error(P, "fdopen");
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 
@@ -97,7 +100,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = stream->path;
+  self->path = strdup(PN_STR_PTR(path));
   return (PN)self;
 }
 
@@ -118,7 +121,7 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 #endif
@@ -241,7 +244,7 @@ PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
   if (fileno(self->file) != -1) fclose(self->file);
-  if (!self->path || unlink(PN_STR_PTR(self->path))) {
+  if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
   return PN_TRUE;
@@ -279,8 +282,8 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   int fd = fileno(self->file), rv;
   char *buf;
   PN str;
-  if (self->path != PN_NIL && fd != -1) {
-    rv = asprintf(&buf, "<buffile %s fd: %d>", PN_STR_PTR(self->path), fd);
+  if (self->path && fd != -1) {
+    rv = asprintf(&buf, "<buffile %s fd: %d>", self->path, fd);
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-- 
2.43.0


From b685b6eb83f9f4cfe5cfcdc32b0a3276a1414818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 063/102] fix: a closed buffered file was used and closed again

---
 lib/buffile.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index bb0f758..53690eb 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -10,7 +10,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 #include <string.h>
-//#include <errno.h>
+#include <errno.h>
 #include "potion.h"
 
 #ifndef SANDBOX
@@ -33,6 +33,8 @@ struct PNBufFile {
   char * path; ///< a copy, as the gc does not look into it
 };
 typedef vPN(BufFile) pn_ffile;
+#define CHECK_OPEN(what) \
+  if (!self->file) { errno = EBADF; return potion_io_error(P, what); }
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 
 /**\memberof PNBufFile
@@ -94,7 +96,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) ||
+  if ((PN_TYPE(stream) != PN_TUSER) || !stream->file ||
      !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
     return potion_io_error(P, "freopen");
   }
@@ -130,12 +132,16 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   \c flush and \c close a PNBufFile.
   \return PNInteger (0 or EOF) */
 PN potion_buffile_fclose(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fclose(self->file));
+  CHECK_OPEN("fclose")
+  FILE *file = self->file;
+  self->file = NULL;
+  return PN_NUM(fclose(file));
 }
 /**\memberof PNBufFile
   \c read the next character from a PNBufFile
   \return PNInteger */
 PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgetc")
   return PN_NUM(fgetc(self->file));
 }
 /**\memberof PNBufFile
@@ -143,6 +149,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgets")
   char line[1024] = ""; // no stale words the collector could take for pointers
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
@@ -155,6 +162,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN("fread")
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -167,6 +175,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN("fwrite")
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
     size = potion_send(buf, PN_STR("length"));
     nitems = PN_NUM(1);
@@ -187,6 +196,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
   \param byte PNInteger
   \return PNInteger */
 PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
+  CHECK_OPEN("fputc")
   return PN_NUM(fputc(PN_INT(byte), self->file));
 }
 /**\memberof PNBufFile
@@ -194,6 +204,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
   \param str PNString or PNBytes
   \return PNInteger or PNError */
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
+  CHECK_OPEN("fputs")
   int r;
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
@@ -203,6 +214,7 @@ PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
    \c "fflush"
    \return true or PNError */
 PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fflush")
   if (fflush(self->file))
     return potion_io_error(P, "fflush");
   return PN_TRUE;
@@ -213,6 +225,7 @@ PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
   \param whence PNInteger
   \return true or PNError */
 PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
+  CHECK_OPEN("fseek")
   if (fseek(self->file, PN_INT(offset), PN_INT(whence)))
     return potion_io_error(P, "fseek");
   return PN_TRUE;
@@ -222,6 +235,7 @@ PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
    beginning of the file.
   \return PNInteger */
 PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftell")
   long r = ftell(self->file);
   if (r == -1)
     return potion_io_error(P, "ftell");
@@ -231,19 +245,21 @@ PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
    \c "feof" tests the end-of-file indicator for the stream.
    \return true or false */
 PN potion_buffile_feof(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("feof")
   int r = feof(self->file);
   return r ? PN_TRUE : PN_FALSE;
 }
 /**\memberof PNBufFile
    \c "fileno" \returns its integer file descriptor. */
 PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fileno")
   return PN_NUM(fileno(self->file));
 }
 /**\memberof PNBufFile
    \c "unlink" the PNBufFile. close it if open.
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
-  if (fileno(self->file) != -1) fclose(self->file);
+  if (self->file) { fclose(self->file); self->file = NULL; }
   if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
@@ -253,17 +269,20 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
 /**\memberof PNBufFile
    acquire for a thread ownership of a PNBufFile object */
 PN potion_buffile_flockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("flockfile")
   flockfile(self->file); return PN_TRUE;
 }
 /**\memberof PNBufFile
    non-blocking version of \see potion_buffile_flockfile().
   \returns 0 for success */
 PN potion_buffile_ftrylockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftrylockfile")
   return PN_NUM(ftrylockfile(self->file));
 }
 /**\memberof PNBufFile
    relinquish the ownership granted to the thread of a PNBufFile object */
 PN potion_buffile_funlockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("funlockfile")
   funlockfile(self->file); return PN_TRUE;
 }
 #endif
@@ -279,7 +298,7 @@ PN potion_buffile_fprintf(Potion *P, PN cl, pn_ffile self, PN fmt, ...) {
 /**\memberof PNBufFile
   \c "string" method. some internal descr */
 PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
-  int fd = fileno(self->file), rv;
+  int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
   if (self->path && fd != -1) {
@@ -287,7 +306,7 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-    rv = asprintf(&buf, "<closed buffile %p>", self->file);
+    rv = asprintf(&buf, "<closed buffile>");
   }
   if (rv == -1) potion_allocation_error();
   str = potion_str(P, buf);
-- 
2.43.0


From 949dc69beb3832f69a4ebce30f934413588691bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 064/102] fix: reading and writing buffered items went past the
 end of the buffer

---
 lib/buffile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/buffile.c b/lib/buffile.c
index 53690eb..10642e8 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -155,6 +155,14 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
     return potion_byte_str(P, line);
   return PN_NIL;
 }
+/// whether nitems of size lie within buf
+static int potion_buffile_fits(Potion *P, PN buf, PN size, PN nitems) {
+  long len = PN_IS_STR(buf) ? PN_STR_LEN(buf) : PN_TYPE(buf) == PN_TBYTES ? PN_INT(potion_send(buf, PN_STR("length"))) : -1;
+  long n = PN_INT(size), k = PN_INT(nitems);
+  if (n >= 0 && k >= 0 && (n == 0 ? len >= 0 : k <= len / n)) return 1;
+  errno = EINVAL;
+  return 0;
+}
 /**\memberof PNBufFile
   \c read nitems of size from the stream into the PNBytes buf
   \param buf PNBytes
@@ -163,6 +171,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   CHECK_OPEN("fread")
+  if (!potion_buffile_fits(P, buf, size, nitems)) return potion_io_error(P, "fread");
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -186,6 +195,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
     case PN_NIL:    return PN_NIL;
     default: return potion_type_error(P, buf);
   }
+  if (!potion_buffile_fits(P, buf, size, nitems)) return potion_io_error(P, "fwrite");
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
-- 
2.43.0


From 7a3ab32dbbba4fbaff415fdded9e5a00623dec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 065/102] fix: writing a string to a buffered file without a
 size failed

---
 lib/buffile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 10642e8..21c8510 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -185,7 +185,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   CHECK_OPEN("fwrite")
-  if (!size && (!nitems || PN_INT(nitems) == 1)) {
+  if ((!size || size == PN_ZERO) && (!nitems || PN_INT(nitems) == 1)) {
     size = potion_send(buf, PN_STR("length"));
     nitems = PN_NUM(1);
   }
-- 
2.43.0


From f3873092e73d533e109ecb2adfb8eb3e7c30c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 066/102] fix: loading a name with a dot changed the name

---
 core/load.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/core/load.c b/core/load.c
index 401c2c4..8b1e931 100644
--- a/core/load.c
+++ b/core/load.c
@@ -126,14 +126,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
     PN_SIZE prefix_len = PN_STR_LEN(prefix);
     char dirname[prefix_len + 1 + str_len + 1];
     char *str_pos = dirname + prefix_len + 1;
-    char *dot;
     const char *ext;
     memcpy(str_pos, str, str_len);
-    dot = memchr(str, '.', str_len);
-    if (dot == NULL)
-      dirname[sizeof(dirname) - 1] = '\0';
-    else
-      *dot = '\0';
+    dirname[sizeof(dirname) - 1] = '\0';
     memcpy(dirname, PN_STR_PTR(prefix), prefix_len);
     dirname[prefix_len] = '/';
     if (stat(dirname, &st) == 0 && S_ISREG(st.st_mode)) {
-- 
2.43.0


From 13f843d4e92c10e368cbaf5ddc015ed8346a95ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 067/102] fix: the extension of a file in a directory of its
 name was put at the wrong place

---
 core/load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/load.c b/core/load.c
index 8b1e931..5396b7c 100644
--- a/core/load.c
+++ b/core/load.c
@@ -145,9 +145,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
         file++;
       if (asprintf(&r, "%s/%s", dirname, file) == -1) potion_allocation_error();
       if (stat(r, &st) != 0 || !S_ISREG(st.st_mode)) {
-        int r_len = prefix_len + 1 + str_len * 2 + 1;
+        size_t r_len = strlen(r);
         if ((ext = find_extension(r)) == NULL) { free(r); r = NULL; continue; }
-        r = realloc(r, r_len + strlen(ext));
+        r = realloc(r, r_len + strlen(ext) + 1);
         if (r == NULL) potion_allocation_error();
         strcpy(r + r_len, ext);
       }
-- 
2.43.0


From 7d7f48cde8f1a9b4a170d54e837dc16574c479f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 068/102] fix: a shared object in a directory with a dot in its
 name was not loaded

---
 core/load.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/load.c b/core/load.c
index 5396b7c..35ed0ec 100644
--- a/core/load.c
+++ b/core/load.c
@@ -53,19 +53,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
 }
 
 static char *potion_initializer_name(Potion *P, const char *filename, PN_SIZE len) {
-  PN_SIZE ext_name_len = 0;
-  char *allocated_str, *ext_name, *func_name;
-  while (*(filename + ++ext_name_len) != '.' && ext_name_len <= len);
-  allocated_str = ext_name = malloc(ext_name_len + 1);
-  if (allocated_str == NULL) potion_allocation_error();
-  strncpy(ext_name, filename, ext_name_len);
-  ext_name[ext_name_len] = '\0';
-  ext_name += ext_name_len;
-  while (*--ext_name != '/' && ext_name >= allocated_str);
-  ext_name++;
-  if (asprintf(&func_name, "Potion_Init_%s", ext_name) == -1)
+  char *func_name;
+  const char *name = strrchr(filename, '/');
+  name = name ? name + 1 : filename;
+  if (asprintf(&func_name, "Potion_Init_%.*s", (int)strcspn(name, "."), name) == -1)
     potion_allocation_error();
-  free(allocated_str);
   return func_name;
 }
 
-- 
2.43.0


From ee6caed637a26d7b1f62cc25bfbd6e74d9f8e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 069/102] fix: loading a shared object gave a word that is no
 value

---
 core/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/load.c b/core/load.c
index 35ed0ec..f20f4db 100644
--- a/core/load.c
+++ b/core/load.c
@@ -82,7 +82,7 @@ static PN potion_load_dylib(Potion *P, const char *filename) {
   }
   free(init_func_name);
   func(P);
-  return PN_INT(handle);
+  return PN_NUM(handle);
 }
 
 static PN pn_loader_path;
-- 
2.43.0


From e5221bfd9b3f3634f7a1f0580543fd6a6b91d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 070/102] fix: a program with a string literal of 33 bytes
 crashed the compiler

---
 core/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index 6aae826..d77edf7 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -358,7 +358,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       PN_OP op; op.a = PN_S(t,0); // but 12bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
-      } else if (a != PN_NIL && PN_IS_PTR(a)
+      } else if (PN_TYPE((PN)a) == PN_TSOURCE
                  && PN_PART(a) == AST_LICK && PN_PART(a->a[0]) == AST_MSG) {
         vPN(Source) msg = a->a[0];
         PN tpl = PN_S(msg, 0);
-- 
2.43.0


From 2e206b542c5f5b2fe0ccef25ada2f5f6047c26a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 071/102] fix: the collector lost the message of an error
 object

---
 core/gc.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 6c9b5b4..8192e33 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -393,6 +393,9 @@ PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
     case PN_TFLEX:
       sz = sizeof(PNFlex) + ((PNFlex *)ptr)->siz;
     break;
+    case PN_TERROR:
+      sz = sizeof(struct PNError);
+    break;
     case PN_TCONT:
       sz = sizeof(struct PNCont) + (((struct PNCont *)ptr)->len * sizeof(PN));
     break;
@@ -515,6 +518,12 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     case PN_TTABLE:
       GC_MINOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->attr);
@@ -634,6 +643,12 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     case PN_TTABLE:
       GC_MAJOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->attr);
-- 
2.43.0


From 4b28ba86b834f9b18e92a2ae2a45c05c2dbb841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 072/102] fix: formatting text used pointers into objects the
 allocation may move

---
 core/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/string.c b/core/string.c
index 3103b83..5137a69 100644
--- a/core/string.c
+++ b/core/string.c
@@ -86,12 +86,16 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   va_start(args, format);
   len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
   va_end(args);
-  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
-
+  // the arguments may point into objects which an allocation moves
+  char *buf = malloc(len + 1);
+  if (!buf) potion_allocation_error();
   va_start(args, format);
-  vsnprintf(s->chars, len + 1, format, args);
+  vsnprintf(buf, len + 1, format, args);
   va_end(args);
+  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  PN_MEMCPY_N(s->chars, buf, char, len + 1);
   s->len = len;
+  free(buf);
   PN exist = potion_lookup_str(P, s->chars);
   if (exist == PN_NIL) {
     potion_add_str(P, (PN)s);
-- 
2.43.0


From 00432f9db4dc9f51942d819dfb24e88a0e7c52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 073/102] fix: the line editor hung on a terminal without a
 known width

---
 lib/readline/linenoise.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f66f676..d8e7fa3 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -367,7 +367,7 @@ static int getColumns(void) {
 #else
     struct winsize ws;
 
-    if (ioctl(1, TIOCGWINSZ, &ws) == -1) return 80;
+    if (ioctl(1, TIOCGWINSZ, &ws) == -1 || ws.ws_col == 0) return 80;
     return ws.ws_col;
 #endif
 }
@@ -381,12 +381,12 @@ static void refreshLine(int fd, const char *prompt, char *buf, size_t len, size_
 #endif
     size_t plen = strlen(prompt);
     
-    while((plen+pos) >= cols) {
+    while(pos > 0 && (plen+pos) >= cols) {
         buf++;
         len--;
         pos--;
     }
-    while (plen+len > cols) {
+    while (len > 0 && plen+len > cols) {
         len--;
     }
 
-- 
2.43.0


From 4febec526ca65f680674f4ac3f710d3924330f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 074/102] fix: control-d did not remove the last character

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index d8e7fa3..743a1b9 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -575,7 +575,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             }
             break;
         case 4:     /* ctrl-d, remove char at right of cursor */
-            if (len > 1 && pos < (len-1)) {
+            if (pos < len) {
                 memmove(buf+pos,buf+pos+1,len-pos);
                 len--;
                 buf[len] = '\0';
-- 
2.43.0


From 83a6fb7d4d15f75c541169e3d927d174fdd7831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 075/102] fix: an interrupted line stayed in the history of the
 line editor

---
 lib/readline/linenoise.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 743a1b9..d9f8249 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -551,6 +551,8 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             free(history[history_len]);
             return (int)len;
         case 3:     /* ctrl-c */
+            history_len--;
+            free(history[history_len]);
             errno = EAGAIN;
             return -1;
         case 127:   /* backspace */
-- 
2.43.0


From 3b3f34d8dc0cdc6ebb5af0d294c2f307e1e8f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 076/102] fix: the line editor misread the keys when they came
 in parts

---
 lib/readline/linenoise.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index d9f8249..43ed9aa 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -525,7 +525,8 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
     while(1) {
         char c;
         int nread;
-        char seq[2], seq2[2];
+        char seq[2], fin;
+        int params;
 
 #ifdef _WIN32
         nread = win32read(&c);
@@ -609,7 +610,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             goto up_down_arrow;
             break;
         case 27:    /* escape sequence */
-            if (read(fd,seq,2) == -1) break;
+            if (read(fd,seq,1) <= 0 || read(fd,seq+1,1) <= 0) break;
             if (seq[0] == 91 && seq[1] == 68) {
 left_arrow:
                 /* left arrow */
@@ -648,8 +649,8 @@ up_down_arrow:
                 }
             } else if (seq[0] == 91 && seq[1] > 48 && seq[1] < 55) {
                 /* extended escape */
-                if (read(fd,seq2,2) == -1) break;
-                if (seq[1] == 51 && seq2[0] == 126) {
+                for (params = 0; read(fd,&fin,1) > 0 && fin >= 32 && fin < 64; params++) ;
+                if (seq[1] == 51 && params == 0 && fin == 126) {
                     /* delete */
                     if (len > 0 && pos < len) {
                         memmove(buf+pos,buf+pos+1,len-pos-1);
-- 
2.43.0


From 37a9cb66fbc1a4d6ffc10329d5e5127333590c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 077/102] fix: shortening the history of the line editor kept
 the wrong entries

---
 lib/readline/linenoise.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 43ed9aa..744b3de 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -817,12 +817,13 @@ int linenoiseHistorySetMaxLen(int len) {
 
     if (len < 1) return 0;
     if (history) {
-        int tocopy = history_len;
+        int tocopy = history_len, j;
 
         newC = malloc(sizeof(char*)*len);
         if (newC == NULL) return 0;
         if (len < tocopy) tocopy = len;
-        memcpy(newC,history+(history_max_len-tocopy), sizeof(char*)*tocopy);
+        for (j = 0; j < history_len-tocopy; j++) free(history[j]);
+        memcpy(newC,history+(history_len-tocopy), sizeof(char*)*tocopy);
         free(history);
         history = newC;
     }
-- 
2.43.0


From bbe04785d49bd05cf703d2bbe805c35a99b74ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 078/102] fix: a completion and bytes past ascii ended the line

---
 lib/readline/linenoise.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 744b3de..3fb3c31 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -482,6 +482,7 @@ static int completeLine(int fd, const char *prompt, char *buf, size_t buflen, si
                     /* Update buffer and return */
                     if (i < lc.len) {
                         nwritten = snprintf(buf,buflen,"%s",lc.cvec[i]);
+                        if (nwritten > (int)buflen - 1) nwritten = (int)buflen - 1;
                         *len = *pos = nwritten;
                     }
                     stop = 1;
@@ -491,7 +492,7 @@ static int completeLine(int fd, const char *prompt, char *buf, size_t buflen, si
     }
 
     freeCompletions(&lc);
-    return c; /* Return last read character */
+    return (unsigned char)c; /* Return last read character */
 }
 
 void linenoiseClearScreen(void) {
@@ -539,9 +540,10 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
          * there was an error reading from fd. Otherwise it will return the
          * character that should be handled next. */
         if (c == 9 && completionCallback != NULL) {
-            c = completeLine(fd,prompt,buf,buflen,&len,&pos,cols);
+            int next = completeLine(fd,prompt,buf,buflen,&len,&pos,cols);
             /* Return on errors */
-            if (c < 0) return (int)len;
+            if (next < 0) return (int)len;
+            c = next;
             /* Read next character when 0 */
             if (c == 0) continue;
         }
-- 
2.43.0


From 887d650262520c6071e8542c375df27c692a7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 079/102] fix: every line read again appended the whole history
 file to the history

---
 lib/readline/readline.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 920d595..73df189 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -4,11 +4,14 @@
 #include "linenoise.h"
 
 PN pn_readline(Potion *P, PN cl, PN self, PN start) {
-  char *line = linenoise(PN_STR_PTR(start));
+  static int loaded = 0;
+  char *line;
   PN r;
+  if (!loaded) linenoiseHistoryLoad("history.txt");
+  loaded = 1;
+  line = linenoise(PN_STR_PTR(start));
   if (line == NULL) return PN_NIL;
 
-  linenoiseHistoryLoad("history.txt");
   linenoiseHistoryAdd(line);
   linenoiseHistorySave("history.txt");
   r = potion_str(P, line);
-- 
2.43.0


From dfbba3b42d22e912f48a2d3358e59bcce563dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 080/102] fix: without a prompt the cursor was shown one column
 off

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 3fb3c31..4156dca 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -401,7 +401,7 @@ static void refreshLine(int fd, const char *prompt, char *buf, size_t len, size_
     snprintf(seq,64,"\x1b[0K");
     if (write(fd,seq,strlen(seq)) == -1) return;
     /* Move cursor to original position. */
-    snprintf(seq,64,"\x1b[0G\x1b[%dC", (int)(pos+plen));
+    snprintf(seq,64,"\x1b[%dG", (int)(pos+plen)+1);
     if (write(fd,seq,strlen(seq)) == -1) return;
 #else
 
-- 
2.43.0


From 0d01d3db26cbe8185337b6d313992999eee2d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 081/102] fix: a line of full length came back from the history
 file with an empty one

---
 lib/readline/linenoise.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 4156dca..ac0e9a9 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -859,11 +859,11 @@ int linenoiseHistorySave(char *filename) {
  * on error -1 is returned. */
 int linenoiseHistoryLoad(char *filename) {
     FILE *fp = fopen(filename,"r");
-    char buf[LINENOISE_MAX_LINE];
+    char buf[LINENOISE_MAX_LINE+1]; /* a line, its newline and the nulterm */
     
     if (fp == NULL) return -1;
 
-    while (fgets(buf,LINENOISE_MAX_LINE,fp) != NULL) {
+    while (fgets(buf,sizeof(buf),fp) != NULL) {
         char *p;
         
         p = strchr(buf,'\r');
-- 
2.43.0


From f9e5bab1e4a6f503cc87865f65447be98b7c72f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 082/102] fix: libuv kept addresses of handles and callbacks
 the collector moved

---
 lib/aio.c | 69 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 2f4e21e..eb5f825 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -34,7 +34,7 @@ typedef struct aio_##T##_s aio_##T##_t; \
 struct aio_##T##_s {     \
   struct uv_##H##_s r;   \
   Potion *P;             \
-  struct PNClosure *cb;	 \
+  int cb; /* place in the list of callbacks */ \
 }
 //without
 #define DEF_AIO_HANDLE_WRAP(T) \
@@ -42,7 +42,7 @@ typedef struct aio_##T##_s aio_##T##_t; \
 struct aio_##T##_s {     \
   uv_##T##_t h;          \
   Potion *P;             \
-  struct PNClosure *cb;	 \
+  int cb; /* place in the list of callbacks */ \
 }
 typedef uv_buf_t aio_buf_t;
 DEF_AIO_CB_WRAP(write);
@@ -90,6 +90,33 @@ DEF_AIO_HANDLE_WRAP(rwlock);
 #undef DEF_AIO_HANDLE_WRAP
 #undef DEF_AIO_CB_WRAP1
 
+/* libuv keeps the addresses of handles and requests, so they are not on the heap
+   of the collector, which would move them. Their callbacks are in a list the collector sees. */
+static PN aio_callbacks(Potion *P) {
+  return potion_send(P->lobby, PN_STR("Aio_callbacks"));
+}
+static struct PNData *aio_data_alloc(Potion *P, int siz, PNType vt, int *cb) {
+  struct PNData *data = calloc(1, sizeof(struct PNData) + siz);
+  if (!data) potion_allocation_error();
+  data->vt = vt;
+  data->siz = siz;
+  PN cbs = aio_callbacks(P);
+  *cb = PN_TUPLE_LEN(cbs);
+  PN_PUSH(cbs, PN_NIL);
+  return data;
+}
+static void aio_cb_set(Potion *P, int i, PN cb) {
+  PN cbs = potion_fwd(aio_callbacks(P));
+  if (i < 0 || i >= PN_TUPLE_LEN(cbs)) return;
+  PN_TUPLE_AT(cbs, i) = cb;
+  PN_TOUCH(cbs);
+}
+static struct PNClosure *aio_cb_get(Potion *P, int i) {
+  PN cbs = aio_callbacks(P);
+  PN cb = i >= 0 && i < PN_TUPLE_LEN(cbs) ? PN_TUPLE_AT(cbs, i) : PN_NIL;
+  return PN_IS_CLOSURE(cb) ? PN_CLOSURE(cb) : NULL;
+}
+
 #ifndef SANDBOX
 /**\memberof Aio_fs_event
   The aio_fs_event callback will receive the following arguments:
@@ -100,7 +127,7 @@ DEF_AIO_HANDLE_WRAP(rwlock);
 static void
 aio_fs_event_cb(uv_fs_event_t* handle, const char* filename, int events, int status) {
   struct aio_fs_event_s* wrap = (struct aio_fs_event_s*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   char *data = (char*)(&wrap - sizeof(struct PNData) + sizeof(char*));
   if (cb) cb->method(wrap->P, (PN)cb, (PN)data, potion_str(wrap->P, filename),
 		     PN_NUM(events), PN_NUM(status));
@@ -114,9 +141,10 @@ static PN aio_error(Potion *P, char *name, int status) {
 
 #define DEF_AIO_NEW(T)                          \
   uv_##T##_t *handle;				\
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_##T##_t)); \
-  data->vt = aio_##T##_type;			\
+  int cb_at;                                    \
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_##T##_t), aio_##T##_type, &cb_at); \
   handle = (uv_##T##_t*)PN_DATA(data);          \
+  ((aio_##T##_t*)handle)->cb = cb_at;           \
   ((aio_##T##_t*)handle)->P = P
 #define DEF_AIO_NEW_LOOP(T)			\
   uv_loop_t* l;                                 \
@@ -132,7 +160,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 #define AIO_CB_SET(T,ARG)	\
   uv_##T##_cb T##_cb;		\
   if (PN_IS_CLOSURE(cb)) {	\
-    (ARG)->cb = PN_CLOSURE(cb); \
+    aio_cb_set(P, (ARG)->cb, cb); \
     T##_cb = aio_##T##_cb;	\
   }				\
   else if (PN_IS_FFIPTR(cb))    \
@@ -141,7 +169,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 #define AIO_CB_SET_CAST(T,ARG)  \
   uv_##T##_cb T##_cb;		\
   if (PN_IS_CLOSURE(cb)) {	\
-    ((aio_##T##_t*)ARG)->cb = PN_CLOSURE(cb); \
+    aio_cb_set(P, ((aio_##T##_t*)ARG)->cb, cb); \
     T##_cb = aio_##T##_cb;	\
   }				\
   else if (PN_IS_FFIPTR(cb))    \
@@ -199,14 +227,14 @@ static PN aio_error(Potion *P, char *name, int status) {
 //cb wrappers
 #define DEF_AIO_CB(T)				       \
   aio_##T##_t* wrap = (aio_##T##_t*)req;	       \
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);              \
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);              \
   PN data = (PN)((char*)wrap - sizeof(struct PNData)); \
   Potion *P = wrap->P;    \
   FATAL_AIO_TYPE(data,T); \
   if (cb) cb->method(P, (PN)cb, data, PN_NUM(status))
 #define DEF_AIO_CB_NOSTATUS(T)			       \
   aio_##T##_t* wrap = (aio_##T##_t*)req;	       \
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);              \
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);              \
   PN data = (PN)((char*)wrap - sizeof(struct PNData)); \
   Potion *P = wrap->P;    \
   FATAL_AIO_TYPE(data,T); \
@@ -215,7 +243,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 static void
 aio_getaddrinfo_cb(uv_getaddrinfo_t* req, int status, struct addrinfo* res) {
   aio_getaddrinfo_t* wrap = (aio_getaddrinfo_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,getaddrinfo);
@@ -235,10 +263,11 @@ static PN aio_tcp_new(Potion *P, PN cl, PN self, PN loop) {
   int r;
   uv_loop_t* l;
   uv_tcp_t *handle;
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_tcp_t));
-  data->vt = aio_tcp_type;
+  int cb_at;
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_tcp_t), aio_tcp_type, &cb_at);
   handle = (uv_tcp_t*)PN_DATA(data);
   ((aio_tcp_t*)handle)->P = P;
+  ((aio_tcp_t*)handle)->cb = cb_at;
   if (!loop) l = uv_default_loop();
   else if (PN_VTYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
@@ -259,10 +288,11 @@ static PN aio_udp_new(Potion *P, PN cl, PN self, PN loop) {
   int r;
   uv_loop_t* l;
   uv_udp_t *handle;
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_udp_t));
-  data->vt = aio_udp_type;
+  int cb_at;
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_udp_t), aio_udp_type, &cb_at);
   handle = (uv_udp_t*)PN_DATA(data);
   ((aio_udp_t*)handle)->P = P;
+  ((aio_udp_t*)handle)->cb = cb_at;
   if (!loop) l = uv_default_loop();
   else if (PN_VTYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
@@ -621,7 +651,7 @@ aio_async_cb(uv_async_t* req) {
 }
 static PN aio_async_new(Potion *P, PN cl, PN self, PN cb, PN loop) {
   DEF_AIO_NEW_LOOP(async);
-  AIO_CB_SET(async,(aio_tcp_t*)data);
+  AIO_CB_SET(async,(aio_async_t*)handle);
   int r = uv_async_init(l, handle, async_cb);
   if (r) return aio_error(P, "Aio_async", r);
   return (PN)data;
@@ -655,7 +685,7 @@ aio_connect_cb(uv_connect_t* req, int status) {
   DEF_AIO_CB(connect);
 #else
   aio_connect_t* wrap = (aio_connect_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   //FATAL_AIO_TYPE(data,connect); //=>
@@ -707,7 +737,7 @@ aio_signal_cb(uv_signal_t* req, int status) { //signum really
 static void
 aio_fs_poll_cb(uv_fs_poll_t* handle, int status, const uv_stat_t* prev, const uv_stat_t* curr) {
   aio_fs_poll_t* wrap = (aio_fs_poll_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   CHECK_AIO_TYPE(data,fs_poll);
@@ -721,7 +751,7 @@ aio_fs_poll_cb(uv_fs_poll_t* handle, int status, const uv_stat_t* prev, const uv
 static void
 aio_fs_cb(uv_fs_t* req) {
   aio_fs_t* wrap = (aio_fs_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,fs);
@@ -732,7 +762,7 @@ aio_fs_cb(uv_fs_t* req) {
 static void
 aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
   aio_stream_t* wrap = (aio_stream_t*)stream;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_STREAM(data);
@@ -1809,6 +1839,7 @@ DLLEXPORT
 void Potion_Init_aio(Potion *P) {
   PN aio_vt = potion_class(P, 0, 0, 0);
   aio_type = potion_class_type(P, aio_vt);
+  potion_define_global(P, PN_STR("Aio_callbacks"), potion_tuple_empty(P));
   potion_define_global(P, PN_STR("Aio"), aio_vt);
 #define DEF_AIO__VT(T,paren) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
-- 
2.43.0


From 5afb9efec9519ae5a8bf985a19e2c647594c0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 083/102] fix: walk of an event loop used the default loop as a
 handle

---
 lib/aio.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index eb5f825..7ad7813 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -770,19 +770,18 @@ aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
     cb->method(P, (PN)cb, (PN)data, PN_NUM(nread),
                potion_byte_str2(wrap->P, buf->base, buf->len));
 }
+struct aio_walk_arg { Potion *P; PN volatile cb; PN volatile arg; };
 static void
 aio_walk_cb(uv_handle_t* handle, void *arg) {
-  aio_handle_t* wrap = (aio_handle_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
-  PN data = (PN)((char*)wrap - sizeof(struct PNData));
-  Potion *P = wrap->P;
-  FATAL_AIO_TYPE(data,handle);
-  if (cb) cb->method(P, (PN)cb, (PN)data, (PN)arg);
+  struct aio_walk_arg *w = (struct aio_walk_arg *)arg;
+  PN data = (PN)((char*)handle - sizeof(struct PNData));
+  if (PN_IS_CLOSURE(w->cb))
+    PN_CLOSURE(w->cb)->method(w->P, w->cb, data, w->arg);
 }
 static void
 aio_close_cb(uv_handle_t* handle) {
   aio_handle_t* wrap = (aio_handle_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,handle);
@@ -830,9 +829,9 @@ aio_walk(Potion *P, PN cl, PN self, PN loop, PN cb, PN arg) {
     l = (uv_loop_t*)PN_DATA(loop);
   else return potion_type_error(P, loop);
 
-  AIO_CB_SET(walk,(aio_loop_t*)l);
-
-  uv_walk(l, walk_cb, (void *)arg);
+  // on the stack, where the collector finds them
+  struct aio_walk_arg w = { P, cb, arg };
+  uv_walk(l, aio_walk_cb, &w);
   return self;
 }
 
-- 
2.43.0


From 2f37b95ee5e163b8471d7ef24bf0520866ca336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 084/102] fix: a run of the loop that left handles active was
 reported as an error

---
 lib/aio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aio.c b/lib/aio.c
index 7ad7813..2ee03c0 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -817,7 +817,8 @@ aio_run(Potion *P, PN cl, PN self, PN loop, PN mode) {
   else return potion_type_error(P, loop);
   if (mode) PN_CHECK_TYPE(mode,PN_TNUMBER);
   int r = uv_run(l, mode ? (uv_run_mode)PN_INT(mode) : UV_RUN_DEFAULT);
-  return r ? aio_error(P, "run", r) : self;
+  // positive when it stopped with handles still active
+  return r < 0 ? aio_error(P, "run", r) : self;
 }
 ///\memberof Aio
 /// Walk the list of open handles.
-- 
2.43.0


From b817d9a8f07f59cf3ec6f6d47929fefbfa68d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:34 +0000
Subject: [PATCH 085/102] fix: instance variables of udp and process options
 were read uninitialised, and overran their list

---
 lib/aio.c | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 2ee03c0..3449714 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1847,7 +1847,8 @@ void Potion_Init_aio(Potion *P) {
   potion_define_global(P, PN_STR("Aio_" _XSTR(T)), aio_##T##_vt); \
   potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, 0)
 #define DEF_AIO_CTOR(T) \
-  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0));
+  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0)); \
+  PN_TOUCH(aio_##T##_vt);
 #define DEF_AIO_VT(T,paren) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
   aio_##T##_type = potion_class_type(P, aio_##T##_vt); \
@@ -1857,6 +1858,7 @@ void Potion_Init_aio(Potion *P) {
 #define DEF_AIO_GLOBAL_VT(T,paren,args) \
   DEF_AIO__VT(T,paren); \
   potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, args)); \
+  PN_TOUCH(aio_##T##_vt); \
   potion_method(P->lobby, "Aio_"_XSTR(T), aio_##T##_new, args)
 #define DEF_AIO_NUM_GLOBAL(name) \
   potion_define_global(P, PN_STR("AIO_"_XSTR(name)), PN_NUM(UV_##name))
@@ -1931,46 +1933,50 @@ void Potion_Init_aio(Potion *P) {
   DEF_AIO_VT(stream,aio);
   DEF_AIO_GLOBAL_VT(tcp,aio_stream,"|loop=o");
   //DEF_AIO_GLOBAL_VT(udp,aio_stream,"|loop=o");
-  PN udp_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
-  int i = 0;
-  vPN(Tuple) t = PN_GET_TUPLE(udp_ivars);
-  t->set[i++] = PN_STR("broadcast");
-  t->set[i++] = PN_STR("membership");
-  t->set[i++] = PN_STR("multicast_loop");
-  t->set[i++] = PN_STR("multicast_ttl");
-  t->set[i++] = PN_STR("ttl");
+  PN udp_ivars = potion_tuple_empty(P); //sorted list of path names
+  PN_PUSH(udp_ivars, PN_STR("broadcast"));
+  PN_PUSH(udp_ivars, PN_STR("membership"));
+  PN_PUSH(udp_ivars, PN_STR("multicast_loop"));
+  PN_PUSH(udp_ivars, PN_STR("multicast_ttl"));
+  PN_PUSH(udp_ivars, PN_STR("ttl"));
   PN aio_udp_vt = potion_class(P, 0, aio_stream_vt, udp_ivars);
   aio_udp_type = potion_class_type(P, aio_udp_vt);
   potion_define_global(P, PN_STR("Aio_udp"), aio_udp_vt);
   //potion_method(aio_udp_vt, "udp", aio_udp_new, 0);
   potion_type_call_is(aio_udp_vt, PN_FUNC(aio_udp_get, "key=S"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_callset_is(aio_udp_vt, PN_FUNC(aio_udp_set, "key=S,value=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_constructor_is(aio_udp_vt, PN_FUNC(aio_udp_new, "|loop=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_method(P->lobby, "Aio_udp", aio_udp_new, "|loop=o");
 
 #ifndef SANDBOX
-  PN po_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
-  t = PN_GET_TUPLE(po_ivars); i = 0;
-  t->set[i++] = PN_STR("args");
-  t->set[i++] = PN_STR("cwd");
-  t->set[i++] = PN_STR("env");
-  t->set[i++] = PN_STR("exit_cb");
-  t->set[i++] = PN_STR("flags");
-  t->set[i++] = PN_STR("gid");
-  t->set[i++] = PN_STR("stdio");
-  t->set[i++] = PN_STR("uid");
+  PN po_ivars = potion_tuple_empty(P); //sorted list of path names
+  PN_PUSH(po_ivars, PN_STR("args"));
+  PN_PUSH(po_ivars, PN_STR("cwd"));
+  PN_PUSH(po_ivars, PN_STR("env"));
+  PN_PUSH(po_ivars, PN_STR("exit_cb"));
+  PN_PUSH(po_ivars, PN_STR("flags"));
+  PN_PUSH(po_ivars, PN_STR("gid"));
+  PN_PUSH(po_ivars, PN_STR("stdio"));
+  PN_PUSH(po_ivars, PN_STR("uid"));
   PN aio_po_vt = potion_class(P, 0, aio_vt, po_ivars);
   aio_process_options_type = potion_class_type(P, aio_po_vt);
   potion_define_global(P, PN_STR("Aio_process_options"), aio_po_vt);
   potion_type_call_is(aio_po_vt, PN_FUNC(aio_process_options_get, "key=S"));
+  PN_TOUCH(aio_po_vt);
   potion_type_callset_is(aio_po_vt, PN_FUNC(aio_process_options_set, "key=S,value=o"));
+  PN_TOUCH(aio_po_vt);
   potion_type_constructor_is(aio_po_vt, PN_FUNC(aio_process_options, 0));
+  PN_TOUCH(aio_po_vt);
   potion_method(P->lobby, "Aio_process_options", aio_process_options, 0);
 
   PN aio_process_vt = potion_class(P, 0, aio_vt, 0); // with spawn as ctor
   aio_process_type = potion_class_type(P, aio_process_vt);
   potion_define_global(P, PN_STR("Aio_process"), aio_process_vt);
   potion_type_constructor_is(aio_process_vt, PN_FUNC(aio_spawn, "options=o|loop=o"));
+  PN_TOUCH(aio_process_vt);
   potion_method(P->lobby, "aio_spawn", aio_spawn, "options=o|loop=o");
   DEF_AIO_GLOBAL_VT(fs_event,aio,"|loop=o"); //"filename=S,cb=o,flags=N");
   DEF_AIO_GLOBAL_VT(fs_poll,aio,"|loop=o");
-- 
2.43.0


From fdb23f11d04a3c8de6db1dd9cc633ae957616113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:00 +0000
Subject: [PATCH 086/102] fix: hexadecimal literals beyond the integers wrapped
 around

---
 core/syntax.y | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index de99c41..e6690b8 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -201,7 +201,11 @@ value = i:immed - { $$ = PN_AST(VALUE, i) }
 immed = nil   { $$ = PN_NIL; }
       | true  { $$ = PN_TRUE; }
       | false { $$ = PN_FALSE; }
-      | hex   { $$ = PN_NUM(PN_ATOI(yytext, yyleng, 16)) }
+      | hex   { if (strtoul(yytext, NULL, 16) <= (unsigned long)PN_INT(LONG_MAX)) {
+                  $$ = PN_NUM(strtoul(yytext, NULL, 16));
+                } else {
+                  $$ = potion_strtod(P, yytext, yyleng);
+              } }
       | dec   { if ($$ == YY_TINT && strtol(yytext, NULL, 10) <= PN_INT(LONG_MAX)
                       && strtol(yytext, NULL, 10) >= PN_INT(LONG_MIN)) {
                   $$ = PN_NUM(PN_ATOI(yytext, yyleng, 10));
@@ -268,7 +272,7 @@ nil = "nil" !utfw
 true = "true" !utfw
 false = "false" !utfw
 hexl = [0-9A-Fa-f]
-hex = '0x' < hexl+ >
+hex = < '0x' hexl+ >
 # wrong x-1 parsing precedence, whitespace #75
 dec = < ('0' | '-'? [1-9][0-9]*) { $$ = YY_TINT; }
         ('.' [0-9]+ { $$ = YY_TDBL; })?
-- 
2.43.0


From 1ac35c2d951d4a14276e3d23aea3df5e747ff379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 087/102] fix: the index variable of a[k] was not captured from
 the enclosing function

---
 core/compile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index d77edf7..a948ddb 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -373,9 +373,14 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
         PN_ASM2(opcode, reg, num);
         if (PN_VTYPE(key) == PN_TSTRING) { // a[k] a variable
-          num = PN_PUT(f->locals, key);
-          DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
-          PN_ASM2(OP_GETLOCAL, reg+1, num);
+          opcode = OP_GETUPVAL;
+          num = PN_UPVAL(key);
+          if (num == PN_NONE) {
+            num = PN_PUT(f->locals, key);
+            DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
+            opcode = OP_GETLOCAL;
+          }
+          PN_ASM2(opcode, reg+1, num);
           num = reg+1;
           DBG_c("gettuple %d %d %s[%s]\n", reg, num, PN_STR_PTR(tpl), PN_STR_PTR(key));
           PN_ASM2(OP_GETTUPLE, reg, num | ASM_TPL_IMM);
-- 
2.43.0


From 39c0b6b365294c3c90e74b8273dbf06bffce2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 088/102] fix: a[i] with a negative or large constant index, or
 a key variable, read outside the element

---
 core/compile.c  |  2 +-
 core/internal.h |  1 +
 core/vm-x86.c   | 17 +++++++++--------
 core/vm.c       | 11 +++++++----
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index a948ddb..21fe4d6 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -393,7 +393,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
               num = PN_PUT(f->values, k);
               PN_ASM2(OP_LOADK, reg+1, num);
               DBG_c("values %ld => %d\n", PN_INT(k), (int)num);
-              num = reg + 1;
+              num = (reg + 1) | ASM_TPL_IMM;
               PN_REG(f, reg + 1);
             } else {
               num = PN_INT(k);
diff --git a/core/internal.h b/core/internal.h
index ed1a0d1..2cff886 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -145,6 +145,7 @@ __attribute__ ((noinline)) void potion_esp(void **);
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
 PN potion_vm_cmp(Potion *, PN, PN);
+PN potion_vm_at(Potion *, PN, PN);
 PN potion_jit_call(Potion *, PN *, long);
 PN potion_vm_neq(Potion *, PN, PN);
 
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 4d34708..7e81f70 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -591,15 +591,16 @@ void potion_x86_newtuple(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 // with immediate constant directly, and the indirect version uses R(B-1024)
 void potion_x86_gettuple(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_ARGO(op.a, 0);				// movq -A(%rbp), %rdi
-  X86_PRE(); ASM(0xB8); ASMN(potion_fwd);	// mov &potion_fwd, %rax
-  ASM(0xFF); ASM(0xD0);				// callq %rax
-  if (op.b & ASM_TPL_IMM) { // not immediate index. R(B-1024)
-    X86_PRE();ASM(0x8b);ASM_MOV_EBP(0x55,op.b-ASM_TPL_IMM); // mov -B-1024(%rbp) %rdx
-    X86_PRE();ASMS("\xd1\xea");                // shr %rdx,1
-    //ASM(0xcc);                  // displacement: 0x90 or 0xd0
-    X86_PRE();ASM(0x8b);ASM(0x44);ASM((5+PN_SIZE_T)<<4);ASM(0x10);// mov 0x10(%rax,%rdx,PN_SIZE_T),%rax
+  if (op.b & ASM_TPL_IMM) { // not immediate index. R(B-1024), may be negative
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(op.a, 1);
+    X86_ARGO(op.b - ASM_TPL_IMM, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_vm_at);	// mov &potion_vm_at, %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
   } else { // immediate index B
+    X86_ARGO(op.a, 0);				// movq -A(%rbp), %rdi
+    X86_PRE(); ASM(0xB8); ASMN(potion_fwd);	// mov &potion_fwd, %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
     X86_PRE();ASM(0xc7);ASM(0xc2);ASMI(op.b+2);         // mov B+$2, %rdx #PNTuple+2
     X86_PRE();ASM(0x8b);ASM(0x04);ASM((5+PN_SIZE_T)<<4);// mov (%rax,%rdx,PN_SIZE_T),%rax
   }
diff --git a/core/vm.c b/core/vm.c
index cb460c6..8b61b44 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -438,6 +438,10 @@ PN potion_vm_cmp(Potion *P, PN a, PN b) {
     return (long)a < (long)b ? PN_NUM(-1) : a == b ? PN_ZERO : PN_NUM(1);
   return potion_send(a, PN_cmp, b);
 }
+/* a[k], for a list or a table */
+PN potion_vm_at(Potion *P, PN a, PN k) {
+  return PN_TYPE(a) == PN_TTABLE ? potion_table_at(P, PN_NIL, a, k) : potion_tuple_at(P, PN_NIL, a, k);
+}
 PN potion_vm_eq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(PN_DBL(a) == PN_DBL(b));
@@ -788,10 +792,9 @@ reentry:
       CASE(NEWTUPLE,
            reg[op.a] = PN_TUP0())
       CASE(GETTUPLE, { /* fast unsafe version, not bound checked */
-          vPN(Tuple) tpl = (vPN(Tuple))potion_fwd(reg[op.a]);
-          DBG_CHECK_TUPLE(tpl);
-          long i = op.b & ASM_TPL_IMM ? PN_INT(reg[op.b - ASM_TPL_IMM]) : op.b;
-          reg[op.a] =  PN_TUPLE_AT(tpl, i);
+          reg[op.a] = op.b & ASM_TPL_IMM
+            ? potion_vm_at(P, reg[op.a], reg[op.b - ASM_TPL_IMM])
+            : PN_TUPLE_AT(reg[op.a], op.b);
       })
       CASE(SETTUPLE,
            reg[op.a] = PN_PUSH(reg[op.a], reg[op.b]))
-- 
2.43.0


From 22931e673c46ecb77e05bcd9d89a33f7d7316948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 089/102] fix: % of doubles was wrong when the quotient leaves
 the range of an int

---
 core/number.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/number.c b/core/number.c
index 03822a8..7a1a301 100644
--- a/core/number.c
+++ b/core/number.c
@@ -133,9 +133,7 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
   if (PN_IS_INT(self) && PN_IS_INT(num))
     return PN_NUM(PN_INT(self) % PN_INT(num));
-  double x = PN_DBL(self), y = PN_DBL(num);
-  int z = (int)(x / y);
-  return potion_double(P, x - (y * (double)z));
+  return potion_double(P, fmod(PN_DBL(self), PN_DBL(num)));
 }
 
 /**\memberof PNNumber
-- 
2.43.0


From 018e89855b637498add10e8591cbbf05a597589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:37 +0000
Subject: [PATCH 090/102] fix: abs of the smallest integer gave the negative
 number back

---
 core/number.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/number.c b/core/number.c
index 7a1a301..7aa2dd0 100644
--- a/core/number.c
+++ b/core/number.c
@@ -387,6 +387,16 @@ static PN potion_num_is_integer(Potion *P, PN cl, PN self) {
 static PN potion_num_is_double(Potion *P, PN cl, PN self) {
   return PN_IS_DBL(self) ? PN_TRUE : PN_FALSE;
 }
+/**\memberof PNInteger
+  "abs"
+ \return PNInteger, or PNDouble when it leaves the integer range */
+static PN potion_int_abs(Potion *P, PN cl, PN self) {
+  PN_CHECK_INT(self);
+  long z = labs(PN_INT(self));
+  if (!PN_INT_FITS(z))
+    return potion_double(P, (double)z);
+  return PN_NUM(z);
+}
 /**\memberof PNNumber
   "abs"
  \return PNInteger or PNDouble */
@@ -399,14 +409,7 @@ static PN potion_num_abs(Potion *P, PN cl, PN self) {
     else
       return self;
   }
-  return PN_NUM(labs(PN_INT(self)));
-}
-/**\memberof PNInteger
-  "abs"
- \return PNInteger */
-static PN potion_int_abs(Potion *P, PN cl, PN self) {
-  PN_CHECK_INT(self);
-  return PN_NUM(labs(PN_INT(self)));
+  return potion_int_abs(P, cl, self);
 }
 /**\memberof PNDouble
   "abs"
-- 
2.43.0


From e49c1c40e991cad44cc22ad9f9b12782c46546c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 091/102] fix: a method without parameters called with () had
 its result called, too

---
 core/asm.h      | 1 +
 core/compile.c  | 5 ++++-
 core/objmodel.c | 9 +++++++++
 core/potion.h   | 1 +
 core/vm-x86.c   | 5 +++--
 core/vm.c       | 4 +++-
 6 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/core/asm.h b/core/asm.h
index 4e336cc..1220637 100644
--- a/core/asm.h
+++ b/core/asm.h
@@ -15,6 +15,7 @@
 
 #define ASM_UNIT 512
 #define ASM_TPL_IMM 1024    // bitflag for immediate gettuple op.b value
+#define ASM_MSG_CALL 1024   // bitflag in the msg op.b value: a call without arguments follows
 
 /// record labels to be patched
 typedef struct {
diff --git a/core/compile.c b/core/compile.c
index 21fe4d6..ac381d7 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -803,7 +803,10 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             PN_ASM2(OP_LOADK, reg, num);
             PN_ASM2(OP_BIND, reg, breg);
           } else {
-            PN_ASM2(((PN_S(t,1) != PN_NIL || PN_S(t,2) != PN_NIL) ? OP_MSG : OP_BIND), reg, breg);
+            // x m (): call the method only once, not its result also
+            int flag = (arg && PN_S(t,2) == PN_NIL && PN_PART(PN_S(t,1)) == AST_LIST
+                        && PN_S(PN_S(t,1),0) == PN_NIL) ? ASM_MSG_CALL : 0;
+            PN_ASM2(call ? OP_MSG : OP_BIND, reg, breg | flag);
           }
           if (t->part == AST_QUERY && PN_S(t,1) != PN_NIL) {
             jmp = PN_OP_LEN(f->asmb);
diff --git a/core/objmodel.c b/core/objmodel.c
index 33aed0c..e305fce 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -446,6 +446,15 @@ PN potion_message(Potion *P, PN rcv, PN msg) {
   return cl;
 }
 
+/// the message of a call without arguments. a method is left to be called,
+/// of an attached value (a class, ...) the value is called.
+PN potion_message_call(Potion *P, PN rcv, PN msg) {
+  PN cl = potion_bind(P, rcv, msg);
+  if (PN_IS_CLOSURE(cl) && PN_CLOSURE(cl)->method == (PN_F)potion_getter_method)
+    return PN_CLOSURE(cl)->data[0];
+  return cl;
+}
+
 PN potion_lobby_methods(Potion *P, PN closure, PN self) {
   PNType t = PN_TYPE(self);
   if (!PN_TYPECHECK(t)) return PN_NIL;
diff --git a/core/potion.h b/core/potion.h
index 7ac3383..38c2fab 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -880,6 +880,7 @@ PN potion_call(Potion *, PN, PN_SIZE, PN * volatile);
 PN potion_lookup(Potion *, PN, PN, PN);
 PN potion_bind(Potion *, PN, PN);
 PN potion_message(Potion *, PN, PN);
+PN potion_message_call(Potion *, PN, PN);
 PN potion_closure_new(Potion *, PN_F, PN, PN_SIZE);
 PN potion_callcc(Potion *, PN, PN);
 PN potion_ref(Potion *, PN);
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 7e81f70..ab1f007 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -852,9 +852,10 @@ void potion_x86_bind(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_message(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_ARGO(start - 3, 0); 			// mov &P 0(%esp)           (0, 3)
-  X86_ARGO(op.b, 1); 	  			// mov B  1(%esp) - new env (7, 3)
+  PN_F message = (op.b & ASM_MSG_CALL) ? (PN_F)potion_message_call : (PN_F)potion_message;
+  X86_ARGO(op.b & ~ASM_MSG_CALL, 1); 		// mov B  1(%esp) - new env (7, 3)
   X86_ARGO(op.a, 2); 	  			// mov A  2(%esp)           (7, 3)
-  X86_PRE(); ASM(0xB8); ASMN(potion_message); 	// mov &potion_message %rax
+  X86_PRE(); ASM(0xB8); ASMN(message); 		// mov &potion_message %rax
   ASM(0xFF); ASM(0xD0); 			// callq %rax
   X86_MOV_RBP(0x89, op.a); 			// mov %rax local
 }
diff --git a/core/vm.c b/core/vm.c
index 8b61b44..6bf037e 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -853,7 +853,9 @@ reentry:
       CASE(BIND,
 	   reg[op.a] = potion_bind(P, reg[op.b], reg[op.a]))
       CASE(MSG,
-	   reg[op.a] = potion_message(P, reg[op.b], reg[op.a]))
+	   reg[op.a] = op.b & ASM_MSG_CALL
+             ? potion_message_call(P, reg[op.b - ASM_MSG_CALL], reg[op.a])
+             : potion_message(P, reg[op.b], reg[op.a]))
       CASE(JMP,
 	   pos += op.a)
       CASE(TEST,
-- 
2.43.0


From ca8bb7913f1796e3e2d82a5ddbde5b48688c09b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 092/102] fix: == of a list or table grown more than once since
 the last collection was false

The left side was followed only one step from its old place, the right side
to the end, so two variables holding the same list compared unequal.
---
 core/vm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 6bf037e..1da65de 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -446,8 +446,7 @@ PN potion_vm_eq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(PN_DBL(a) == PN_DBL(b));
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a == potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) == potion_fwd(b));
   } else {
     return PN_BOOL(a == b);
   }
@@ -457,8 +456,7 @@ PN potion_vm_neq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(((struct PNDouble *)a)->value != ((struct PNDouble *)b)->value);
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a != potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) != potion_fwd(b));
   } else {
     return PN_BOOL(a != b);
   }
-- 
2.43.0


From 3596e741039499e0c2f58cf4dad57cd06fd3a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:16 +0000
Subject: [PATCH 093/102] fix: File.write of bytes wrote twice their length

---
 core/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/file.c b/core/file.c
index bc89498..24b758d 100644
--- a/core/file.c
+++ b/core/file.c
@@ -136,7 +136,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = potion_send(obj, PN_STR("length")); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  len = PN_INT(potion_send(obj, PN_STR("length"))); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
-- 
2.43.0


From d707d84ba71c2067c91a60deff11651c41e7a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 094/102] fix: a callback moved the rest of the query being
 executed

---
 lib/database.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index 289af5d..ed90c21 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -7,6 +7,8 @@
 #include "potion.h"
 #include <sqlite3.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #define PN_ALLOC(V,T)        (T * volatile)potion_gc_alloc(P, V, sizeof(T))
 
@@ -73,8 +75,11 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
-  rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, &cb, &zErrMsg);
+  // the callback may allocate, which moves the string
+  char *sql = strdup(PN_STR_PTR(query));
+  if (!sql) potion_allocation_error();
+  rc = sqlite3_exec(db->db, sql, potion_database_callback, &cb, &zErrMsg);
+  free(sql);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
-- 
2.43.0


From 1b27b034b679e71916c44770df1d0dfb772f483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:24 +0000
Subject: [PATCH 095/102] fix: freopen left the stream it closed or took over
 in its old holder

---
 lib/buffile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 21c8510..ab11ab1 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -96,10 +96,17 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) || !stream->file ||
-     !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
+  if ((PN_TYPE(stream) != PN_TUSER) || !stream->file) {
+    errno = EBADF;
     return potion_io_error(P, "freopen");
   }
+  file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file);
+  stream->file = NULL; // closed, or self's from now on
+  if (!file)
+    return potion_io_error(P, "freopen");
+  if (self->file)
+    fclose(self->file);
+  free(self->path);
   self->siz = BufFileSize;
   self->file = file;
   self->path = strdup(PN_STR_PTR(path));
-- 
2.43.0


From 16584dcc40c76efa94a1a5f8490a183df5b6c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 096/102] fix: no string or bytes could be written to a stream

PN_CHECK_STRB refused everything: it wanted a string that has the type of bytes.
---
 core/potion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.h b/core/potion.h
index 38c2fab..527ea75 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -182,7 +182,7 @@ struct PNVtable;
 			  || (!PN_IS_PTR(p) && p > (_PN)P->mem->birth_hi))
 
 #define PN_CHECK_STR(obj)  if (!PN_IS_STR(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "String")
-#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) || (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
+#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) && (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
 #define PN_CHECK_NUM(obj)  if (!PN_IS_NUM(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Number")
 #define PN_CHECK_INT(obj)  if (!PN_IS_INT(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Integer")
 #define PN_CHECK_DBL(obj)  if (!PN_IS_DBL(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Double")
-- 
2.43.0


From c31f9e3fc56fa72af40f3b713eccd0bfbccd1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:44 +0000
Subject: [PATCH 097/102] fix: a stream read into a heap block that was too
 short and could move

The buffer of a read was a block of the collector with no room for its header and no
length, and the callback got all of it, and not the bytes read.
---
 lib/aio.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 3449714..868fe00 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -766,9 +766,10 @@ aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_STREAM(data);
+  PN bytes = nread > 0 ? potion_byte_str2(P, buf->base, nread) : potion_byte_str2(P, "", 0);
+  free(buf->base);
   if (cb)
-    cb->method(P, (PN)cb, (PN)data, PN_NUM(nread),
-               potion_byte_str2(wrap->P, buf->base, buf->len));
+    cb->method(P, (PN)cb, (PN)data, PN_NUM(nread), bytes);
 }
 struct aio_walk_arg { Potion *P; PN volatile cb; PN volatile arg; };
 static void
@@ -1096,11 +1097,11 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
   return r ? aio_error(P, "udp send6", r) : udp;
 }
 
+/// freed in the read callback: the collector would move it
 static void
 aio_alloc_cb(uv_handle_t* handle, size_t suggested_size, uv_buf_t *buf) {
-  aio_handle_t* wrap = (aio_handle_t*)handle;
-  struct PNBytes *b = potion_gc_alloc(wrap->P, PN_TBYTES, suggested_size);
-  *buf = uv_buf_init(b->chars, suggested_size);
+  char *base = malloc(suggested_size);
+  *buf = uv_buf_init(base, base ? suggested_size : 0);
 }
 
 /**\memberof Aio_udp
-- 
2.43.0


From 95db5f1a2a4f036a46fb8de920e5cefeda285154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 098/102] fix: receiving a datagram crashed

The callback was taken from a field libuv fills with its own, the handle from a wrong address, and
the bytes came from a block that could move; the port was in network order.
---
 lib/aio.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 868fe00..5c3ecfe 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1125,20 +1125,24 @@ aio_udp_recv_cb(uv_udp_t* handle, ssize_t nread, const uv_buf_t* buf,
   char ip[46] = "";
   int port;
   struct sockaddr_in* addr_in = (struct sockaddr_in*)addr;
-  vPN(Closure) cb = PN_CLOSURE(wrap->r.recv_cb);
-  char *data = (char*)(wrap - sizeof(struct PNData));
+  vPN(Closure) cb = aio_cb_get(wrap->P, wrap->cb);
+  PN data = (PN)((char*)wrap - sizeof(struct PNData));
+  if (!addr_in) { // no more datagrams for now
+    free(buf->base);
+    return;
+  }
   if (addr_in->sin_family == AF_INET6) {
     uv_ip6_name((struct sockaddr_in6*)addr, ip, 46);
-    port = ((struct sockaddr_in6*)addr)->sin6_port;
+    port = ntohs(((struct sockaddr_in6*)addr)->sin6_port);
   } else {
     uv_ip4_name(addr_in, ip, 46);
-    port = addr_in->sin_port;
+    port = ntohs(addr_in->sin_port);
   }
-  //TODO: maybe reuse PNBytes with buf structure
+  PN volatile bytes = nread > 0 ? potion_byte_str2(wrap->P, buf->base, nread) : potion_byte_str2(wrap->P, "", 0);
+  free(buf->base);
+  PN from = potion_byte_str(wrap->P, ip);
   if (cb)
-    cb->method(wrap->P, (PN)cb, (PN)data, PN_NUM(nread),
-	       potion_byte_str2(wrap->P, buf->base, buf->len),
-	       potion_byte_str(wrap->P, ip),
+    cb->method(wrap->P, (PN)cb, data, PN_NUM(nread), bytes, from,
 	       PN_NUM(port), PN_NUM(flags));
 }
 
-- 
2.43.0


From e4a83eebb43795375e430fffc3c2e9f0467c31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 099/102] fix: a datagram was sent with a wrong number of
 buffers

The count was the tagged number. bind without its flags took them from nowhere.
---
 lib/aio.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 5c3ecfe..81c3e9d 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1073,7 +1073,7 @@ aio_udp_send(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN po
   if (uv_ip4_addr(PN_STR_PTR(addr), PN_INT(port), &ip4))
     return aio_error(P, "ip_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip4, udp_send_cb);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip4, udp_send_cb);
   return r ? aio_error(P, "udp send", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1093,7 +1093,7 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
   if (uv_ip6_addr(PN_STR_PTR(addr), PN_INT(port), &ip6))
     return aio_error(P, "ip6_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip6, udp_send_cb);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip6, udp_send_cb);
   return r ? aio_error(P, "udp send6", r) : udp;
 }
 
@@ -2039,7 +2039,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_tcp_vt, "connect", aio_tcp_connect, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_tcp_vt, "connect6", aio_tcp_connect6, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_udp_vt, "open", aio_udp_open, "sockfd=N");
-  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N");
+  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N|flags:=0");
   potion_method(aio_udp_vt, "bind6", aio_udp_bind6, "addr=S,port=N|ipv6only:=0");
   potion_method(aio_udp_vt, "getsockname", aio_udp_getsockname, 0);
   potion_method(aio_udp_vt, "set_membership", aio_udp_set_membership, "mcaddr=S,ifaddr=S,memb=N");
-- 
2.43.0


From f341470c81c98277bd1a6b4cae9a2c8b68205e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 100/102] fix: bytes waiting to be written were moved by the
 collector

libuv keeps the address of what it cannot write at once.
---
 lib/aio.c | 58 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 81c3e9d..7433122 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -45,7 +45,18 @@ struct aio_##T##_s {     \
   int cb; /* place in the list of callbacks */ \
 }
 typedef uv_buf_t aio_buf_t;
-DEF_AIO_CB_WRAP(write);
+//what is written is copied until it is: the collector moves the strings
+#define DEF_AIO_WRITE_WRAP(T)		\
+typedef struct aio_##T##_s aio_##T##_t; \
+struct aio_##T##_s {     \
+  struct uv_##T##_s r;   \
+  Potion *P;             \
+  int cb; /* place in the list of callbacks */ \
+  char *base;            \
+}
+DEF_AIO_WRITE_WRAP(write);
+DEF_AIO_WRITE_WRAP(udp_send);
+#undef DEF_AIO_WRITE_WRAP
 DEF_AIO_CB_WRAP(connect);
 DEF_AIO_CB_WRAP(shutdown);
 DEF_AIO_CB_WRAP1(connection,stream,connection);
@@ -78,7 +89,6 @@ DEF_AIO_HANDLE_WRAP(tty);
 DEF_AIO_CB_WRAP(req);
 DEF_AIO_CB_WRAP1(tcp,tcp,read);
 DEF_AIO_CB_WRAP1(udp,udp,udp_recv);
-DEF_AIO_CB_WRAP(udp_send);
 DEF_AIO_HANDLE_WRAP(cpu_info);
 DEF_AIO_HANDLE_WRAP(interface_address);
 DEF_AIO_HANDLE_WRAP(sem);
@@ -675,8 +685,23 @@ static PN aio_rwlock_new(Potion *P, PN cl, PN self) {
   return (PN)data;
 }
 
+static int
+aio_buf_copy(char **base, PN buf, aio_buf_t *bufs) {
+  if (*base) return UV_EBUSY;
+  bufs->len = PN_STR_LEN(buf);
+  bufs->base = *base = malloc(bufs->len + 1);
+  if (!*base) return UV_ENOMEM;
+  memcpy(*base, PN_STR_PTR(buf), bufs->len);
+  return 0;
+}
+static void
+aio_buf_free(char **base) {
+  free(*base);
+  *base = NULL;
+}
 static void
 aio_write_cb(uv_write_t* req, int status) {
+  aio_buf_free(&((aio_write_t*)req)->base);
   DEF_AIO_CB(write);
 }
 static void
@@ -717,6 +742,7 @@ aio_connection_cb(uv_stream_t* req, int status) {
 }
 static void
 aio_udp_send_cb(uv_udp_send_t* req, int status) {
+  aio_buf_free(&((aio_udp_send_t*)req)->base);
   DEF_AIO_CB(udp_send);
 }
 static void
@@ -1065,15 +1091,16 @@ aio_udp_send(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN po
   aio_buf_t bufs;
   struct sockaddr_in ip4;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip4_addr(PN_STR_PTR(addr), PN_INT(port), &ip4))
     return aio_error(P, "ip_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip4, udp_send_cb);
+  int r = aio_buf_copy(&request->base, buf, &bufs);
+  if (r) return aio_error(P, "udp send", r);
+  r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip4, udp_send_cb);
+  if (r) aio_buf_free(&request->base);
   return r ? aio_error(P, "udp send", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1085,15 +1112,16 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
   aio_buf_t bufs;
   struct sockaddr_in6 ip6;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip6_addr(PN_STR_PTR(addr), PN_INT(port), &ip6))
     return aio_error(P, "ip6_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip6, udp_send_cb);
+  int r = aio_buf_copy(&request->base, buf, &bufs);
+  if (r) return aio_error(P, "udp send6", r);
+  r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip6, udp_send_cb);
+  if (r) aio_buf_free(&request->base);
   return r ? aio_error(P, "udp send6", r) : udp;
 }
 
@@ -1296,10 +1324,11 @@ aio_write(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN cb) {
   aio_write_t *request = AIO_DATA(write,req);
   aio_buf_t bufs;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
+  int r = aio_buf_copy(&request->base, buf, &bufs);
+  if (r) return aio_error(P, "write", r);
   AIO_CB_SET(write,request);
-  int r = uv_write(&request->r, &stm->r, &bufs, PN_INT(bufcnt), write_cb);
+  r = uv_write(&request->r, &stm->r, &bufs, PN_INT(bufcnt), write_cb);
+  if (r) aio_buf_free(&request->base);
   return r ? aio_error(P, "write", r) : stream;
 }
 ///\memberof Aio_stream
@@ -1366,10 +1395,11 @@ aio_write2(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN send_handl
   aio_buf_t bufs;
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
+  int r = aio_buf_copy(&request->base, buf, &bufs);
+  if (r) return aio_error(P, "write", r);
   AIO_CB_SET(write,request);
-  int r = uv_write2(&request->r, &stm->r, &bufs, PN_INT(bufcnt), &handle->r, write_cb);
+  r = uv_write2(&request->r, &stm->r, &bufs, PN_INT(bufcnt), &handle->r, write_cb);
+  if (r) aio_buf_free(&request->base);
   return r ? aio_error(P, "write", r) : stream;
 }
 /** \memberof Aio_stream
-- 
2.43.0


From f852a80fcf7206b031234f16519cbc31f1ed97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 101/102] fix: callbacks of a pipe were looked for where
 another stream keeps them

---
 lib/aio.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 7433122..52af53c 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -44,6 +44,17 @@ struct aio_##T##_s {     \
   Potion *P;             \
   int cb; /* place in the list of callbacks */ \
 }
+//streams are used through aio_stream_t, so all have the same layout
+#define DEF_AIO_STREAM_WRAP(T,F)	\
+typedef struct aio_##T##_s aio_##T##_t; \
+struct aio_##T##_s {     \
+  union {                \
+    struct uv_##T##_s F; \
+    union uv_any_handle any; \
+  };                     \
+  Potion *P;             \
+  int cb; /* place in the list of callbacks */ \
+}
 typedef uv_buf_t aio_buf_t;
 //what is written is copied until it is: the collector moves the strings
 #define DEF_AIO_WRITE_WRAP(T)		\
@@ -59,7 +70,6 @@ DEF_AIO_WRITE_WRAP(udp_send);
 #undef DEF_AIO_WRITE_WRAP
 DEF_AIO_CB_WRAP(connect);
 DEF_AIO_CB_WRAP(shutdown);
-DEF_AIO_CB_WRAP1(connection,stream,connection);
 DEF_AIO_CB_WRAP1(close,handle,close);
 //DEF_AIO_CB_WRAP(poll);
 DEF_AIO_CB_WRAP(timer);
@@ -81,13 +91,13 @@ DEF_AIO_CB_WRAP(getaddrinfo);
 DEF_AIO_CB_WRAP(signal);
 DEF_AIO_HANDLE_WRAP(handle);
 DEF_AIO_HANDLE_WRAP(loop);
-DEF_AIO_CB_WRAP(pipe);
+DEF_AIO_STREAM_WRAP(pipe,r);
 DEF_AIO_HANDLE_WRAP(stdio_container);
 DEF_AIO_HANDLE_WRAP(process_options);
-DEF_AIO_CB_WRAP1(stream,stream,read);
-DEF_AIO_HANDLE_WRAP(tty);
+DEF_AIO_STREAM_WRAP(stream,r);
+DEF_AIO_STREAM_WRAP(tty,h);
 DEF_AIO_CB_WRAP(req);
-DEF_AIO_CB_WRAP1(tcp,tcp,read);
+DEF_AIO_STREAM_WRAP(tcp,r);
 DEF_AIO_CB_WRAP1(udp,udp,udp_recv);
 DEF_AIO_HANDLE_WRAP(cpu_info);
 DEF_AIO_HANDLE_WRAP(interface_address);
@@ -99,6 +109,7 @@ DEF_AIO_HANDLE_WRAP(rwlock);
 #undef DEF_AIO_CB_WRAP
 #undef DEF_AIO_HANDLE_WRAP
 #undef DEF_AIO_CB_WRAP1
+#undef DEF_AIO_STREAM_WRAP
 
 /* libuv keeps the addresses of handles and requests, so they are not on the heap
    of the collector, which would move them. Their callbacks are in a list the collector sees. */
-- 
2.43.0


From 4e38ad14a16550aea666aee61d6e96cbde14db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 102/102] fix: a pipe was always one for handles, and its write
 took an argument it does not have

A pipe for handles cannot be listened to; sending a handle is write2.
---
 lib/aio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 52af53c..1ba7ad7 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -636,7 +636,7 @@ static PN aio_tty_new(Potion *P, PN cl, PN self, PN file, PN readable, PN loop)
 static PN aio_pipe_new(Potion *P, PN cl, PN self, PN ipc, PN loop) {
   DEF_AIO_NEW_LOOP(pipe);
   PN_CHECK_INT(ipc);
-  int r = uv_pipe_init(l, handle, PN_NUM(ipc));
+  int r = uv_pipe_init(l, handle, PN_INT(ipc));
   if (r) return aio_error(P, "Aio_pipe", r);
   return (PN)data;
 }
@@ -2101,7 +2101,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_pipe_vt, "connect", aio_pipe_connect, "req=o,name=S|connect_cb=&");
   potion_method(aio_pipe_vt, "start", aio_read_start, "cb=&");
   potion_method(aio_pipe_vt, "stop", aio_read_stop, 0);
-  potion_method(aio_pipe_vt, "write", aio_write2, "req=o,buf=b,bufcnt=N|write_cb=&");
+  potion_method(aio_pipe_vt, "write2", aio_write2, "req=o,buf=b,bufcnt=N,send_handle=o|write_cb=&");
   potion_method(aio_pipe_vt, "pending_instances", aio_pipe_pending_instances, "count=N");
 
 #ifndef SANDBOX
-- 
2.43.0

