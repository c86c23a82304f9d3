From f277b9ebbe4c102a96ba9bda58a1aa2e457fec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 01/75] fix: mdbx_replace_ex() left its on-stack cursor tracked
 on the EINVAL path

The early return for aliased old/new data skipped the untracking of the
temporary cursor, so txn->cursors[] kept a dangling pointer to the stack.
---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..4806efb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10922,8 +10922,10 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
       goto bailout;
   } else {
     /* в old_data буфер для сохранения предыдущего значения */
-    if (unlikely(new_data && old_data->iov_base == new_data->iov_base))
-      return LOG_IFERR(MDBX_EINVAL);
+    if (unlikely(new_data && old_data->iov_base == new_data->iov_base)) {
+      rc = MDBX_EINVAL;
+      goto bailout;
+    }
     MDBX_val present_data;
     rc = cursor_seek(&cx.outer, &present_key, &present_data, MDBX_SET_KEY).err;
     if (unlikely(rc != MDBX_SUCCESS)) {
-- 
2.43.0


From 26a8438855537f9f6f799e115fed35ebfcec45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 02/75] fix: mdbx_replace_ex() returned a dangling old value
 from a dirty large page

When the leaf page was spilled, but the value resides in a dirty (or spilled)
large page, the preserver was not called and old_data pointed to the page
which is freed while the value is being updated or deleted.
---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4806efb..6d4c4b2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10957,7 +10957,9 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
         }
       }
 
-      if (is_modifable(txn, page)) {
+      /* Leaf-страница может быть чистой или вытесненной (spilled), а сами данные при этом находиться
+       * в грязной large/overflow-странице, которая будет освобождена при обновлении/удалении. */
+      if (is_modifable(txn, page) || mdbx_is_dirty(txn, present_data.iov_base) == MDBX_RESULT_TRUE) {
         if (new_data && eq_fast(&present_data, new_data)) {
           /* если данные совпадают, то ничего делать не надо */
           *old_data = *new_data;
-- 
2.43.0


From 80e544c8650a474391507d65313efd5b48460bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 03/75] fix: MDBX_ALLDUPS without MDBX_CURRENT misplaced or did
 not replace values

With a single value stored in a plain node the documented replacement was not
done, i.e. the new value was added beside the old one. With several values the
insertion used the cursor position left by the deletion, which could be on the
next sibling page, so the key was inserted outside of its page's key range and
the b-tree order was broken.
---
 mdbx.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 6d4c4b2..ee2e897 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15130,15 +15130,23 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* nested subtree of DUPSORT-database with the same key, nothing to update */
         return (flags & MDBX_NODUPDATA) ? MDBX_KEYEXIST : MDBX_SUCCESS;
       }
-      if (inner_pointed(mc)) {
-        if (unlikely(flags & MDBX_ALLDUPS)) {
-          rc = cursor_del(mc, MDBX_ALLDUPS);
-          if (unlikely(rc != MDBX_SUCCESS))
-            return rc;
-          flags -= MDBX_ALLDUPS;
-          cASSERT0(mc, mc->top + 1 == mc->tree->height);
-          rc = (mc->top >= 0) ? MDBX_NOTFOUND : MDBX_NO_ROOT;
-        } else if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
+      if (mc->subcur && unlikely(flags & MDBX_ALLDUPS)) {
+        rc = cursor_del(mc, MDBX_ALLDUPS);
+        if (unlikely(rc != MDBX_SUCCESS))
+          return rc;
+        flags -= MDBX_ALLDUPS;
+        cASSERT0(mc, mc->top + 1 == mc->tree->height);
+        if (mc->top < 0)
+          rc = MDBX_NO_ROOT;
+        else {
+          /* После удаления курсор мог быть перемещен на соседнюю страницу,
+           * поэтому позицию для вставки требуется найти заново. */
+          rc = cursor_seek(mc, (MDBX_val *)key, &old_data, MDBX_SET).err;
+          if (unlikely(rc != MDBX_NOTFOUND))
+            return (rc == MDBX_SUCCESS) ? MDBX_PROBLEM : rc;
+        }
+      } else if (inner_pointed(mc)) {
+        if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
           old_data = *data;
           csr_t csr = cursor_seek(&mc->subcur->cursor, &old_data, nullptr, MDBX_SET_RANGE);
           if (unlikely(csr.exact)) {
-- 
2.43.0


From 7134f36c5abefa47d9d7a696e7fd2f13bc3506c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 04/75] fix: mdbx_put(MDBX_CURRENT) mistook a nested page or
 tree with one item for a multi-value

A key could hold the only value within a sub-page or a nested tree (after the
deletion of others or when the value is too long for a leaf node). This tripped
an assertion, and gave MDBX_EMULTIVAL for a single value.
---
 mdbx.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ee2e897..03faab2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10834,11 +10834,13 @@ int mdbx_put(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data, M
       /* LY: allows update (explicit overwrite) only for unique keys */
       node_t *node = page_node(cx.outer.pg[cx.outer.top], cx.outer.ki[cx.outer.top]);
       if (node_flags(node) & N_DUP) {
-        cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
-        rc = MDBX_EMULTIVAL;
-        if ((flags & MDBX_NOOVERWRITE) == 0) {
-          flags -= MDBX_CURRENT;
-          rc = cursor_del(&cx.outer, MDBX_ALLDUPS);
+        cASSERT0(txn, inner_pointed(&cx.outer));
+        if (cx.outer.subcur->nested_tree.items > 1) {
+          rc = MDBX_EMULTIVAL;
+          if ((flags & MDBX_NOOVERWRITE) == 0) {
+            flags -= MDBX_CURRENT;
+            rc = cursor_del(&cx.outer, MDBX_ALLDUPS);
+          }
         }
       }
     }
-- 
2.43.0


From 4120cf3d779690a5a4714b02dc172100f1f7911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 05/75] fix: mdbx_replace_ex(MDBX_CURRENT) asserted on a nested
 page or tree with one item

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 03faab2..3abd7fa 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10946,7 +10946,7 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
           /* disallow update/delete for multi-values */
           node_t *node = page_node(page, cx.outer.ki[cx.outer.top]);
           if (node_flags(node) & N_DUP) {
-            cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
+            cASSERT0(txn, inner_pointed(&cx.outer));
             if (cx.outer.subcur->nested_tree.items > 1) {
               rc = MDBX_EMULTIVAL;
               goto bailout;
-- 
2.43.0


From 500928b53f7962c1110ffe53c2a97a92a1fceba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 06/75] fix: updating the only value within a sub-page by
 MDBX_CURRENT|MDBX_ALLDUPS

The in-place update was recognized only for the exact MDBX_CURRENT flags, while
with MDBX_ALLDUPS it was treated as an addition to a growing sub-page. As a
result the value was not changed, or an error returned, or data get corrupted.
---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 3abd7fa..1730fe8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15423,6 +15423,10 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
           fp = old_data.iov_base;
           switch (flags) {
           default:
+            if (flags & MDBX_CURRENT) {
+              /* Обновление единственного значения на месте, без добавления. */
+              goto continue_subpage;
+            }
             growth = is_dupfix_leaf(fp) ? fp->dupfix_ksize : (node_size(data, nullptr) + sizeof(indx_t));
             if (page_room(fp) >= growth) {
               /* На текущей под-странице есть место для добавления элемента.
-- 
2.43.0


From 5b5c12cba74522a2579ea6da2929108f67c56d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 07/75] fix: MDBX_TO_EXACT_KEY_VALUE_* and MDBX_TO_PAIR_*
 returned a value other than the one found

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 1730fe8..916876f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16560,6 +16560,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (rc == MDBX_SUCCESS)
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN)
@@ -16613,6 +16615,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (rc == MDBX_SUCCESS)
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_PAIR_LESSER_THAN)
-- 
2.43.0


From 9acd82aa08f76574cd90e9ba73b3cb6cd34d35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 08/75] fix: MDBX_NEXT_MULTIPLE crashed on a fresh cursor and a
 single value, both *_MULTIPLE steps gave garbage for non-fixed values

---
 mdbx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 916876f..9339885 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16411,11 +16411,14 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
   case MDBX_NEXT_MULTIPLE:
     if (unlikely(!data))
       return MDBX_EINVAL;
-    if (unlikely(mc->subcur == nullptr))
+    if (unlikely((mc->tree->flags & MDBX_DUPFIXED) == 0))
       return MDBX_INCOMPATIBLE;
     rc = outer_next(mc, key, data, MDBX_NEXT_DUP);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
+    else if (!inner_pointed(mc))
+      /* a fresh cursor was moved to the first key, which has a single value */
+      return MDBX_SUCCESS;
     else {
     fetch_multiple:
       cASSERT0(mc, is_filled(mc) && inner_filled(mc));
@@ -16429,7 +16432,7 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
   case MDBX_PREV_MULTIPLE:
     if (unlikely(!data))
       return MDBX_EINVAL;
-    if (unlikely(mc->subcur == nullptr))
+    if (unlikely((mc->tree->flags & MDBX_DUPFIXED) == 0))
       return MDBX_INCOMPATIBLE;
     if (unlikely(!is_filled(mc) || !inner_filled(mc)))
       return MDBX_ENODATA;
-- 
2.43.0


From 79ba161bd02fe0eda3d9145cb3629dfce300ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 09/75] fix: mdbx_cursor_scan() by NEXT_DUP/PREV_DUP gave
 MDBX_ENODATA at the end of a single value

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 9339885..2ff08f2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6045,6 +6045,9 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          /* there is only one value */
+          return MDBX_RESULT_FALSE;
         rc = inner_next(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
@@ -6057,6 +6060,9 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          /* there is only one value */
+          return MDBX_RESULT_FALSE;
         rc = inner_prev(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
-- 
2.43.0


From 1613042f4d99b9e088c1e68ad4db0a4e6b939ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 10/75] fix: cursor lost its place at the end of data (skipped
 multi-values, read beyond the page end)

---
 mdbx.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2ff08f2..343013c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14935,7 +14935,7 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
   cASSERT0(mc, nkeys > 0);
 
   intptr_t ki = mc->ki[mc->top];
-  const uint8_t state = mc->flags & (z_after_delete | z_hollow | z_eof_hard | z_eof_soft);
+  const uint8_t state = mc->flags & (z_after_delete | z_hollow | z_eof_hard);
   if (likely(state == 0)) {
     cASSERT0(mc, ki < nkeys);
     if (!inner && op != (forward ? MDBX_NEXT_NODUP : MDBX_PREV_NODUP)) {
@@ -14943,6 +14943,7 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
       if (inner_pointed(mc)) {
         err = forward ? inner_next(&mc->subcur->cursor, data) : inner_prev(&mc->subcur->cursor, data);
         if (likely(err == MDBX_SUCCESS)) {
+          mc->flags &= ~z_eof_soft;
           get_key_optional(page_node(mp, ki), key);
           return MDBX_SUCCESS;
         }
@@ -14969,7 +14970,7 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
         if (ki < nkeys)
           goto bring;
       } else {
-        cASSERT0(mc, state & (z_eof_soft | z_eof_hard));
+        cASSERT0(mc, state & z_eof_hard);
         return MDBX_NOTFOUND;
       }
     } else if (state & z_eof_hard) {
@@ -16450,10 +16451,17 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
   case MDBX_NEXT_DUP:
   case MDBX_NEXT:
   case MDBX_NEXT_NODUP:
+  {
+    /* A step beyond the end leaves the cursor on the last item, but only if there was an item before the step. */
+    MDBX_cursor *const inner = &((cursor_couple_t *)mc)->inner.cursor;
+    const int outer_was_hard = mc->flags & z_eof_hard, inner_was_hard = inner->flags & z_eof_hard;
     rc = outer_next(mc, key, data, op);
-    mc->flags &= ~z_eof_hard;
-    ((cursor_couple_t *)mc)->inner.cursor.flags &= ~z_eof_hard;
+    if (likely(!outer_was_hard))
+      mc->flags &= ~z_eof_hard;
+    if (likely(!inner_was_hard))
+      inner->flags &= ~z_eof_hard;
     return rc;
+  }
 
   case MDBX_PREV_DUP:
   case MDBX_PREV:
-- 
2.43.0


From 0eff6be42797ecfa21c9bbe94243f9fd803d128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 11/75] fix: stale info of nested tree within other cursors
 after an update of a multi-value

The put through one cursor left stale nested-tree copies within other
cursors at the same key, so a following deletion via such a cursor dropped
the whole key or wrote a wrong number of items.
---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 343013c..05ed9e1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15731,6 +15731,12 @@ insert_node:;
         mc->subcur->nested_tree.mod_txnid = mc->txn->txnid;
         memcpy(db, &mc->subcur->nested_tree, sizeof(tree_t));
       }
+      /* Update the copies of nested tree's info within other cursors at the same key */
+      for (MDBX_cursor *m2 = mc->txn->cursors[cursor_dbi(mc)]; m2; m2 = m2->next) {
+        if (is_related(mc, m2) && m2->pg[mc->top] == mc->pg[mc->top] && m2->ki[mc->top] == mc->ki[mc->top] &&
+            inner_pointed(m2))
+          m2->subcur->nested_tree = mc->subcur->nested_tree;
+      }
       insert_data = (probe != (size_t)mc->subcur->nested_tree.items);
     }
     /* Increment count unless we just replaced an existing item. */
-- 
2.43.0


From ab61987d55b0761b7f4c6d20315a22c045a83098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 12/75] fix: repeated mdbx_cursor_del() after the last
 multi-value moved the outer cursor from the nested one

The step was done from the inner frame while the outer one went on with the
node got before the move, which damaged the data.
---
 mdbx.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 05ed9e1..b0ab24d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15858,10 +15858,13 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
 }
 
 __hot int cursor_del(MDBX_cursor *mc, unsigned flags) {
-  if (unlikely(!is_filled(mc))) {
-    if (!F_ISSET(mc->flags, z_inner | z_eof_hard))
-      return MDBX_ENODATA;
-    if (outer_next(cursor_outer(mc), nullptr, nullptr, MDBX_NEXT) != MDBX_SUCCESS)
+  if (unlikely(!is_filled(mc)))
+    return MDBX_ENODATA;
+  if (unlikely(inner_pointed(mc) && !is_filled(&mc->subcur->cursor)) &&
+      (flags & (MDBX_ALLDUPS | /* for compatibility */ MDBX_NODUPDATA)) == 0) {
+    /* The nested cursor is beyond the last value, so the following one is the first value of the next key.
+     * Such move should be done here, i.e. before getting the node which holds the value to be deleted. */
+    if (outer_next(mc, nullptr, nullptr, MDBX_NEXT_NODUP) != MDBX_SUCCESS)
       return MDBX_ENODATA;
   }
 
-- 
2.43.0


From 3412100e4094ec9661ca2a210d16abae40458202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 13/75] fix: page_split() mispositioned the cursor after a
 pure-right split of the parent page

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b0ab24d..b7d7703 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -34083,8 +34083,10 @@ __hot int page_split(MDBX_cursor *mc, const MDBX_val *const newkey, MDBX_val *co
       goto done;
 
     if (pure_right) {
-      for (intptr_t i = 0; i < mc->top; i++)
+      for (intptr_t i = 0; i < mc->top; i++) {
+        mc->pg[i] = mn->pg[i];
         mc->ki[i] = mn->ki[i];
+      }
     } else if (mc->ki[mc->top - 1] == 0) {
       for (intptr_t i = 2; i <= mc->top; ++i)
         if (mc->ki[mc->top - i]) {
-- 
2.43.0


From 1c899486e4974806194b5a47facc6d301f56655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 14/75] fix: hollow cursor ceased to be hollow after a deletion
 through another cursor

cursor_sibling_right() cleared the hollow state of a nested cursor while the
outer one remained hollow, so the following step tripped an assertion.
---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b7d7703..5b70e26 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16011,8 +16011,10 @@ del_key:
       continue;
     /* if m3 points past last node in page, find next sibling */
     if (m3->ki[top] >= nkeys) {
+      const int8_t hollow = m3->flags & z_hollow;
       rc = cursor_sibling_right(m3);
       if (rc == MDBX_NOTFOUND) {
+        m3->flags |= hollow;
         rc = MDBX_SUCCESS;
         continue;
       }
-- 
2.43.0


From 6652a37c6d2c292dc45de581bb26780525e82f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 15/75] fix: cursor at the end of data kept a dangling nested
 page after the values were moved into a tree

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 5b70e26..2a31d1b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15707,7 +15707,7 @@ insert_node:;
             continue;
           if (/* пропускаем незаполненные курсоры, иначе получится что у такого
                  курсора будет инициализирован вложенный, что антилогично и бесполезно. */
-              is_filled(m2) && m2->ki[mc->top] == mc->ki[mc->top]) {
+              (is_filled(m2) || inner_pointed(m2)) && m2->ki[mc->top] == mc->ki[mc->top]) {
             cASSERT0(m2, m2->subcur->cursor.clc == mx->cursor.clc);
             m2->subcur->nested_tree = mx->nested_tree;
             m2->subcur->cursor.pg[0] = mx->cursor.pg[0];
-- 
2.43.0


From f3efaddb036282e724954efbfc4af85667cd44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 16/75] fix: nested transaction missed that its parent has
 spilled pages

The flags of a parent were taken before the spilling for the nested one, so
a nested-of-nested transaction failed by MDBX_PROBLEM on pages spilled there.
---
 mdbx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2a31d1b..3a15e02 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40034,11 +40034,7 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
     return MDBX_INCOMPATIBLE;
   }
 
-  unsigned flags = parent->flags & (MDBX_TXN_SPILLS | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP);
-  if (readonly)
-    flags |= txn_ro_nested;
-
-  if (parent->env->options.spill_parent4child_denominator && (flags & txn_ro_nested) == 0) {
+  if (parent->env->options.spill_parent4child_denominator && !readonly) {
     /* Spill dirty-pages of parent to provide dirtyroom for child txn */
     int err =
         txn_spill(parent, nullptr, parent->wr.dirtylist->length / parent->env->options.spill_parent4child_denominator);
@@ -40047,6 +40043,11 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
   }
   tASSERT2(parent, audit_ex(parent, 0, false) == 0);
 
+  /* after the spilling above, which may set MDBX_TXN_SPILLS */
+  unsigned flags = parent->flags & (MDBX_TXN_SPILLS | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP);
+  if (readonly)
+    flags |= txn_ro_nested;
+
   MDBX_txn *const nested = txn_alloc(flags, parent->env);
   if (unlikely(!nested))
     return LOG_IFERR(MDBX_ENOMEM);
-- 
2.43.0


From b324fcacee2da69470273dbca0d56710988eee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 17/75] fix: drop of a table by a nested transaction leaves it
 dirty in the parent

nested_join() merged the DBI_CREAT/FRESH/DIRTY bits of the parent into the state
of a table dropped (and so closed) by the nested transaction, therefore the commit
of the parent wrote a record with an empty name into the main table.
---
 mdbx.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 3a15e02..2bbe2b6 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40195,12 +40195,15 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   eASSERT0(env, parent->n_dbi == nested->n_dbi);
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
-      eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) != 0 ||
+      eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY | DBI_OLDEN)) != 0 ||
                         (nested->dbi_state[dbi] | DBI_STALE) ==
                             (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
-      /* preserve parent's status */
-      const uint8_t state = nested->dbi_state[dbi] | (parent->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY));
+      /* preserve parent's status, unless the table was dropped by the nested txn */
+      const uint8_t state =
+          (nested->dbi_state[dbi] & DBI_OLDEN)
+              ? nested->dbi_state[dbi]
+              : nested->dbi_state[dbi] | (parent->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY));
       DEBUG("dbi %zu dbi-state %s 0x%02x -> 0x%02x", dbi, (parent->dbi_state[dbi] != state) ? "update" : "still",
             parent->dbi_state[dbi], state);
       parent->dbi_state[dbi] = state;
-- 
2.43.0


From 138afe483d2fdd5882cdf6c3af8894997c29ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 18/75] fix: ownership of the spilled list of a nested
 transaction

The list was left referenced by the nested transaction after it had been moved to
the parent, which is a double ownership after txn_nested_checkpoint(), and it leaked
on abort.
---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 2bbe2b6..3896d91 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -39923,6 +39923,9 @@ static void nested_merge(MDBX_txn *const parent, MDBX_txn *const nested, const s
       parent->wr.spilled.list = nested->wr.spilled.list;
       parent->wr.spilled.least_removed = nested->wr.spilled.least_removed;
     }
+    /* the nested txn may be restarted by txn_nested_checkpoint() */
+    nested->wr.spilled.list = nullptr;
+    nested->wr.spilled.least_removed = 0;
     tASSERT1(parent, txn_dpl_check(parent));
   }
 
@@ -40116,6 +40119,7 @@ static void nested_free(MDBX_txn *nested) {
 
   txn_dpl_free(nested);
   pnl_free(nested->wr.repnl);
+  pnl_free(nested->wr.spilled.list);
   osal_free(nested);
 
   tASSERT1(parent, txn_dpl_check(parent));
-- 
2.43.0


From 969b35ad13105985a37397b5c7f6b1c9010616f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 19/75] fix: mdbx_txn_rollback() of a nested transaction

The rolled back nested transaction was left with MDBX_TXN_FINISHED and unusable,
its dirty pages and page lists leaked, and the assertion refused ordinary nested
transactions at all.
---
 mdbx.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 3896d91..70337ad 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40307,7 +40307,6 @@ int txn_nested_fakero_end(MDBX_txn *nested) {
 }
 
 int txn_nested_rollback(MDBX_txn *nested) {
-  cASSERT0(nested, nested->flags & txn_ro_nested);
   cASSERT0(nested, rkl_empty(&nested->wr.gc.comeback));
   MDBX_txn *parent = nested->parent;
   if (unlikely(!parent || parent->nested != nested || parent->env != nested->env)) {
@@ -40320,13 +40319,26 @@ int txn_nested_rollback(MDBX_txn *nested) {
     return MDBX_BAD_TXN;
   }
 
-  const unsigned preserved_flags = nested->flags & txn_ro_nested;
+  const unsigned preserved_flags =
+      nested->flags & (txn_rw_begin_flags | txn_ro_nested | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP);
+  txn_dpl_clear(nested);
   int rc = nested_undo(nested);
-  if (likely(rc == MDBX_SUCCESS))
+  if (likely(rc == MDBX_SUCCESS)) {
+    /* release everything that will be re-created by nested_start() */
+    nested->flags = preserved_flags | (parent->flags & MDBX_TXN_SPILLS);
+    nested->wr.retired_pages = nullptr;
+    pnl_free(nested->wr.repnl);
+    nested->wr.repnl = nullptr;
+    pnl_free(nested->wr.spilled.list);
+    nested->wr.spilled.list = nullptr;
+    nested->wr.spilled.least_removed = 0;
+    nested->wr.loose_count = 0;
+    nested->wr.loose_pages = nullptr;
+    rkl_destroy(&nested->wr.gc.reclaimed);
+    rkl_destroy(&nested->wr.gc.ready4reuse);
     rc = nested_start(nested, parent);
-  if (likely(rc == MDBX_SUCCESS))
-    nested->flags |= preserved_flags;
-  else
+  }
+  if (unlikely(rc != MDBX_SUCCESS))
     txn_nested_abort(nested);
   return rc;
 }
-- 
2.43.0


From d94d9be5e1d35b5b8be930104dd07e92227dab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 20/75] fix: mdbx_dbi_open() succeeded for a table absent in
 the snapshot

With the handle opened by another transaction and MDBX_CREATE not given, the
result MDBX_NOTFOUND of tbl_fetch() was lost on the way through the slow path.
---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 70337ad..7a1a5e8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17758,7 +17758,10 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
     if (txn->dbi_state[slot] & DBI_STALE) {
       rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
-        /* таблица отсутствует, её нужно создавать (если запрос с MDBX_CREATE), либо освобождать слот. */
+        if (rc != MDBX_NOTFOUND || (user_flags & MDBX_CREATE) == 0)
+          /* таблица отсутствует в MVCC-снимке, но хендл может использоваться другими транзакциями. */
+          return rc;
+        /* таблица отсутствует, её нужно создавать. */
         goto slowpath_locking;
       }
       txn->dbi_state[slot] -= DBI_STALE;
-- 
2.43.0


From b7196b5192af4227d6d6b1e68c792ff4255f54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 21/75] fix: a failed mdbx_dbi_open() destroyed the handle in
 use

An attempt to open an already opened table with other flags (MDBX_INCOMPATIBLE),
etc, closed the valid handle, thus the changes made through it in the current
transaction were lost and a record with an empty name was written on commit.
---
 mdbx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7a1a5e8..eff8c0f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17534,11 +17534,12 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         rc = dbi_import(txn, slot);
       }
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        return rc;
 
       rc = dbi_bind(txn, slot, user_flags, keycmp, datacmp);
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        /* the handle is valid and may be in use (including dirty) with its actual flags and comparators */
+        return rc;
 
       if (unlikely((txn->dbi_state[slot] & DBI_STALE) == 0))
         goto done;
@@ -17565,7 +17566,6 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         goto create;
       }
 
-    gone:
       *defer_chain = dbi_close_locked(env, slot);
       return rc;
     }
-- 
2.43.0


From 4d522cbfb0ac12d3a5592bf528b0cbd31e12b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 22/75] fix: mdbx_dbi_open(MDBX_CREATE) with other flags for a
 not yet fetched table

The result of tbl_refresh() was checked the wrong way: an existing table was opened
as if there is no conflict of flags, and in the case of a dropped table the stale
data from a previous transaction was used.
---
 mdbx.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index eff8c0f..a6a929e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17402,10 +17402,18 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
     } else if ((user_flags & MDBX_CREATE) == 0)
       return /* FIXME: return extended info */ MDBX_INCOMPATIBLE;
     else {
+      uint8_t new_state = DBI_LINDO | DBI_VALID | DBI_CREAT | DBI_DIRTY;
       if (txn->dbi_state[dbi] & DBI_STALE) {
         eASSERT0(env, env->dbs_flags[dbi] & DB_VALID);
         int err = tbl_refresh(txn, dbi);
-        if (unlikely(err != MDBX_NOTFOUND))
+        if (err == MDBX_NOTFOUND) {
+          /* the table was dropped (by another process) */
+          memset(&txn->dbs[dbi], 0, sizeof(txn->dbs[dbi]));
+          txn->dbs[dbi].root = P_INVALID;
+          txn->dbs[dbi].flags = env->dbs_flags[dbi] & DB_PERSISTENT_FLAGS;
+          txn->dbi_state[dbi] = DBI_LINDO | DBI_VALID;
+          new_state = /* the record in MainDB will be created by dbi_open_locked() */ DBI_LINDO | DBI_VALID | DBI_STALE;
+        } else if (unlikely(err != MDBX_SUCCESS))
           return err;
       }
       eASSERT0(env, ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
@@ -17435,7 +17443,7 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
       env->dbs_flags[dbi] = db_flags | DB_VALID;
       atomic_store32(&env->dbi_seqs[dbi], seq, mo_AcquireRelease);
       txn->dbi_seqs[dbi] = seq;
-      txn->dbi_state[dbi] = DBI_LINDO | DBI_VALID | DBI_CREAT | DBI_DIRTY;
+      txn->dbi_state[dbi] = new_state;
       txn->flags |= MDBX_TXN_DIRTY;
       return MDBX_SUCCESS;
     }
-- 
2.43.0


From 9bf86891155ea0d590752a704c213d167c670641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 23/75] fix: loss of changes after a drop of a table in an
 aborted nested transaction

A table dropped or re-created by a nested transaction remained valid in its
parent, while the handle was closed: after an abort of the nested transaction
the parent's changes were lost, or a tree was stored under an empty name or a
name of another table. Also a failed mdbx_dbi_open() left the handle marked as
valid within the transaction.
---
 mdbx.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index a6a929e..413912a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -1797,6 +1797,7 @@ static inline bool dbi_foreach_step(const MDBX_txn *const txn, size_t *bitmap_it
 #define TXN_FOREACH_DBI_ALL(TXN, I) TXN_FOREACH_DBI_FROM(TXN, I, 0)
 #define TXN_FOREACH_DBI_USER(TXN, I) TXN_FOREACH_DBI_FROM(TXN, I, CORE_DBS)
 
+MDBX_INTERNAL void dbi_outdate_parents(MDBX_txn *txn, const size_t dbi);
 MDBX_INTERNAL int dbi_import(MDBX_txn *txn, const size_t dbi);
 MDBX_INTERNAL int dbi_gone(MDBX_txn *txn, const size_t dbi, const int rc);
 
@@ -6740,6 +6741,7 @@ __cold int mdbx_drop(MDBX_txn *txn, MDBX_dbi dbi, bool del) {
         cASSERT0(txn, txn->dbi_state[MAIN_DBI] & DBI_DIRTY);
         cASSERT0(txn, txn->flags & MDBX_TXN_DIRTY);
         txn->dbi_state[dbi] = DBI_LINDO | DBI_OLDEN;
+        dbi_outdate_parents(txn, dbi);
         rc = osal_fastmutex_acquire(&env->dbi_lock);
         if (likely(rc == MDBX_SUCCESS))
           return LOG_IFERR(dbi_close_release(env, dbi));
@@ -17368,6 +17370,16 @@ int dbi_update(MDBX_txn *txn, bool keep) {
   return MDBX_SUCCESS;
 }
 
+/* Mark a handle as invalid within the parent transactions, since it was closed or re-created by a nested one.
+ * Otherwise, after an abort of the nested transaction, the parent will use such handle with a wrong name or even for
+ * another table that has got the same slot. The table will be available after re-opening, because all parent's changes
+ * were stored into MainDB before the nested transaction was started. */
+void dbi_outdate_parents(MDBX_txn *txn, const size_t dbi) {
+  while ((txn = txn->parent) != nullptr)
+    if (dbi_state(txn, dbi) & DBI_VALID)
+      txn->dbi_state[dbi] = DBI_OLDEN | DBI_LINDO;
+}
+
 int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func keycmp, MDBX_cmp_func datacmp) {
   const MDBX_env *const env = txn->env;
   eASSERT0(env, dbi < txn->n_dbi && dbi < env->n_dbi);
@@ -17424,6 +17436,7 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
       /* Пересоздаём table если там пусто */
       if (unlikely(txn->cursors[dbi]))
         return MDBX_DANGLING_DBI;
+      dbi_outdate_parents(txn, dbi);
       env->dbs_flags[dbi] = DB_POISON;
       atomic_store32(&env->dbi_seqs[dbi], dbi_seq_next(env, dbi), mo_AcquireRelease);
 
@@ -17768,7 +17781,7 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
       if (unlikely(rc != MDBX_SUCCESS)) {
         if (rc != MDBX_NOTFOUND || (user_flags & MDBX_CREATE) == 0)
           /* таблица отсутствует в MVCC-снимке, но хендл может использоваться другими транзакциями. */
-          return rc;
+          return dbi_gone(txn, slot, rc);
         /* таблица отсутствует, её нужно создавать. */
         goto slowpath_locking;
       }
@@ -40048,6 +40061,13 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
     return MDBX_INCOMPATIBLE;
   }
 
+  if (!readonly && (parent->flags & MDBX_TXN_DIRTY)) {
+    /* Store the parent's changes of named tables into MainDB, see dbi_outdate_parents() */
+    int err = txn_basal_update_tbl_roots(parent);
+    if (unlikely(err != MDBX_SUCCESS))
+      return LOG_IFERR(err);
+  }
+
   if (parent->env->options.spill_parent4child_denominator && !readonly) {
     /* Spill dirty-pages of parent to provide dirtyroom for child txn */
     int err =
@@ -40211,6 +40231,7 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
       eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY | DBI_OLDEN)) != 0 ||
+                        (parent->dbi_state[dbi] & DBI_VALID) == 0 ||
                         (nested->dbi_state[dbi] | DBI_STALE) ==
                             (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
@@ -40286,7 +40307,9 @@ int txn_nested_checkpoint(MDBX_txn *nested, struct commit_timestamp *ts) {
   }
 
   unsigned flags = nested->flags & (txn_rw_begin_flags | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP | MDBX_TXN_RDONLY);
-  int rc = nested_join(nested, ts);
+  int rc = (nested->flags & MDBX_TXN_DIRTY) ? txn_basal_update_tbl_roots(nested) : MDBX_SUCCESS;
+  if (likely(rc == MDBX_SUCCESS))
+    rc = nested_join(nested, ts);
   if (likely(rc == MDBX_SUCCESS)) {
     nested->flags = flags | (parent->flags & MDBX_TXN_SPILLS);
     nested->wr.loose_count = 0;
-- 
2.43.0


From c9ade9e0283d2451a27233a7860be2e4cc2547e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 24/75] fix: handles which mismatch a re-created table

MDBX_DB_ACCEDE returned the handle with other flags and comparators than the
table has in the snapshot (then MDBX_CORRUPTED on use), and a handle of the
table re-created with other flags outlived an abort of the transaction.
---
 mdbx.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 413912a..88569ee 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17424,7 +17424,9 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
           txn->dbs[dbi].root = P_INVALID;
           txn->dbs[dbi].flags = env->dbs_flags[dbi] & DB_PERSISTENT_FLAGS;
           txn->dbi_state[dbi] = DBI_LINDO | DBI_VALID;
-          new_state = /* the record in MainDB will be created by dbi_open_locked() */ DBI_LINDO | DBI_VALID | DBI_STALE;
+          /* the record in MainDB will be created by dbi_open_locked(),
+           * but the handle must be closed if the transaction will be aborted */
+          new_state = DBI_LINDO | DBI_VALID | DBI_STALE | DBI_CREAT;
         } else if (unlikely(err != MDBX_SUCCESS))
           return err;
       }
@@ -17576,7 +17578,8 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
           ASSERT(rc == MDBX_SUCCESS);
         }
       } else {
-        rc = tbl_fetch(txn, &maindb_cx->outer, slot, &name, user_flags);
+        rc = tbl_fetch(txn, &maindb_cx->outer, slot, &name,
+                       (user_flags & MDBX_DB_ACCEDE) ? env->dbs_flags[slot] & DB_PERSISTENT_FLAGS : user_flags);
       }
 
       if (likely(rc == MDBX_SUCCESS))
@@ -17639,7 +17642,10 @@ create:
     if (unlikely(rc != MDBX_SUCCESS))
       goto bailout;
     dbi_state |= DBI_DIRTY | DBI_CREAT;
-  }
+  } else if (!(txn->flags & txn_ro_both) && txn->dbs[slot].mod_txnid == txn->txnid)
+    /* the table was (re)created or changed within this transaction, so the handle
+     * must not outlive an abort since could mismatch the actual table */
+    dbi_state |= DBI_CREAT;
 
   /* Got info, register DBI in this txn */
   const uint32_t seq = dbi_seq_next(env, slot);
@@ -17658,7 +17664,7 @@ create:
   } else {
     eASSERT0(env, env->dbs_flags[slot] == (DB_VALID | (user_flags & DB_PERSISTENT_FLAGS)) &&
                       env->dbs_flags[slot] == (DB_VALID | txn->dbs[slot].flags) &&
-                      txn->dbi_state[slot] == (DBI_LINDO | DBI_VALID | DBI_STALE));
+                      (txn->dbi_state[slot] & ~DBI_CREAT) == (DBI_LINDO | DBI_VALID | DBI_STALE));
   }
 
 done:
@@ -17777,7 +17783,9 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
 
     cASSERT0(txn, F_ISSET(txn->dbi_state[slot], DBI_LINDO | DBI_VALID));
     if (txn->dbi_state[slot] & DBI_STALE) {
-      rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
+      rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name,
+                     /* the handle has its own flags and comparators, which must match the table within the snapshot */
+                     (user_flags & MDBX_DB_ACCEDE) ? snap.flags & DB_PERSISTENT_FLAGS : user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
         if (rc != MDBX_NOTFOUND || (user_flags & MDBX_CREATE) == 0)
           /* таблица отсутствует в MVCC-снимке, но хендл может использоваться другими транзакциями. */
-- 
2.43.0


From d306ab67e92afe41e2a22aff72faf6c549f81fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 25/75] fix: mdbx_cursor_bunch_delete() with an unpositioned
 cursor

Instead of MDBX_ENODATA (as documented) it returned success, and in the case of
MDBX_DELETE_CURRENT_MULTIVAL_AFTER_EXCLUDING or MDBX_DELETE_AFTER_EXCLUDING has
removed data.
---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 88569ee..d28cbcb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6315,6 +6315,9 @@ int mdbx_cursor_bunch_delete(MDBX_cursor *mc, MDBX_bunch_action_t action, uint64
   if (unlikely(action < MDBX_DELETE_CURRENT_VALUE || action > MDBX_DELETE_WHOLE))
     return LOG_IFERR(MDBX_EINVAL);
 
+  if (unlikely(!is_pointed(mc) && action != MDBX_DELETE_WHOLE))
+    return LOG_IFERR(MDBX_ENODATA);
+
 #if MDBX_ENABLE_BUNCHES_REMOVAL
   cursor_couple_t couple;
   MDBX_cursor *axe = nullptr;
-- 
2.43.0


From dad8ea3378a30dd8524d88a00ace218695bc88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 26/75] fix: mdbx_cursor_delete_range() for an inverted range
 of multi-values

The result of comparing the nested positions was confused with the outer one, so
MDBX_SUCCESS was returned instead of MDBX_ENODATA and the value at the begin
cursor was removed if the end is included.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d28cbcb..d5107d4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -37278,7 +37278,7 @@ int tree_curoff_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_including)
 
     const intptr_t inner_level = tree_diff_level(&begin->subcur->cursor, &end->subcur->cursor);
     if (unlikely(inner_level < 0)) {
-      if (unlikely(level != MDBX_RESULT_TRUE))
+      if (unlikely(inner_level != MDBX_RESULT_TRUE))
         return MDBX_ENODATA;
       /* у вложенных dupsort-курсоров позиции тоже совпадают, нечего удалять */
       return end_including ? cutoff_leaf(begin, 0) : MDBX_SUCCESS;
-- 
2.43.0


From 25080ee853140122666fd64afcf3ebc5afe9ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 27/75] fix: a too strong assertion on spilling during removal
 of a range

---
 mdbx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d5107d4..2d7cb88 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36175,8 +36175,7 @@ static size_t spill_cursor_keep(const MDBX_txn *const txn, const MDBX_cursor *mc
       }
     } while (++i <= mc->top);
 
-    cASSERT0(txn, is_leaf(mp));
-    if (!inner_pointed(mc))
+    if (!is_leaf(mp) /* an intermediate state during removal of a range */ || !inner_pointed(mc))
       break;
     mc = &mc->subcur->cursor;
     if (is_subpage(mc->pg[0]))
-- 
2.43.0


From 56bec46eb34c91db0e960aaed18ecd4fc3d28b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 28/75] fix: cursors of different tables given to range
 functions

mdbx_cursor_delete_range(), mdbx_cursor_distance() and mdbx_cursor_distribute()
must return MDBX_EINVAL instead of treating positions in different trees as ones of a single tree.
---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2d7cb88..c9c1f61 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6496,7 +6496,7 @@ int mdbx_cursor_delete_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_incl
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple;
@@ -6553,7 +6553,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   const MDBX_cursor *ref = begin ? begin : end;
@@ -6563,7 +6563,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       rc = cursor_check_pure(iter = array[i]);
       if (unlikely(rc != MDBX_SUCCESS))
         return LOG_IFERR(rc);
-      if (unlikely(iter->txn != ref->txn && iter->tree != ref->tree))
+      if (unlikely(iter->txn != ref->txn || iter->tree != ref->tree))
         return LOG_IFERR(MDBX_EINVAL);
     }
   }
@@ -6627,7 +6627,7 @@ int mdbx_cursor_distance(const MDBX_cursor *begin, const MDBX_cursor *end, intpt
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple_opposite;
-- 
2.43.0


From 0771a3c4ce7ee901d6182b21e3fe91cad464aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 29/75] fix: sign of mdbx_estimate_distance() between
 multi-values of a single key

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index c9c1f61..c6cbcaf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10356,7 +10356,7 @@ __hot int mdbx_estimate_distance(const MDBX_cursor *first, const MDBX_cursor *la
   if (unlikely(dr.diff == 0) && inner_pointed(first)) {
     first = &first->subcur->cursor;
     last = &last->subcur->cursor;
-    rc = cursor_diff(first, last, &dr);
+    rc = cursor_diff(last, first, &dr);
     if (unlikely(rc != MDBX_SUCCESS))
       return LOG_IFERR(rc);
   }
-- 
2.43.0


From 7b7b70bbf20a50b5529921f9456085be9b01b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 30/75] fix: mdbx_cursor_distance(), mdbx_cursor_scroll() and
 mdbx_cursor_distribute() with multi-values

- the distance counted all values of the initial key regardless of the position inside it;
- scrolling mixed two meanings of the remaining amount, so it stopped at wrong positions
  or ran beyond the requested number of steps, and lost the state of a cursor at the end of data,
  or left a cursor on a branch page;
- mdbx_estimate_move() used an uninitialized nested tree and mdbx_estimate_distance()
  refused a position next to multi-values.
---
 mdbx.c | 105 ++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index c6cbcaf..2365a6c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6597,9 +6597,9 @@ int mdbx_cursor_scroll(MDBX_cursor *mc, intptr_t amount, unsigned deepness) {
     return LOG_IFERR(MDBX_ENODATA);
 
   if (amount > 0)
-    rc = cursor_scroll_forward(mc, amount, deepness);
+    rc = cursor_scroll_forward(mc, amount, (deepness < INT_MAX) ? deepness : INT_MAX);
   else if (amount < 0)
-    rc = cursor_scroll_backward(mc, -amount, deepness);
+    rc = cursor_scroll_backward(mc, -amount, (deepness < INT_MAX) ? deepness : INT_MAX);
 
   return LOG_IFERR(rc);
 }
@@ -6674,7 +6674,7 @@ int mdbx_cursor_distance(const MDBX_cursor *begin, const MDBX_cursor *end, intpt
   if (iter != &couple_opposite.outer)
     iter = cursor_clone_complete(iter, &couple_iter);
 
-  cdr_t tdr = cursor_distance(iter, end, deepness);
+  cdr_t tdr = cursor_distance(iter, end, (deepness < INT_MAX) ? deepness : INT_MAX);
   rc = tdr.err;
   if (likely(rc == MDBX_SUCCESS))
     *distance = (!negative) ? (intptr_t)tdr.distance : -(intptr_t)tdr.distance;
@@ -10352,8 +10352,7 @@ __hot int mdbx_estimate_distance(const MDBX_cursor *first, const MDBX_cursor *la
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
 
-  cASSERT0(first, dr.diff || inner_pointed(first) == inner_pointed(last));
-  if (unlikely(dr.diff == 0) && inner_pointed(first)) {
+  if (unlikely(dr.diff == 0) && inner_pointed(first) && inner_pointed(last)) {
     first = &first->subcur->cursor;
     last = &last->subcur->cursor;
     rc = cursor_diff(last, first, &dr);
@@ -10384,11 +10383,7 @@ __hot int mdbx_estimate_move(const MDBX_cursor *cursor, MDBX_val *key, MDBX_val
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
 
-  cursor_cpstk(cursor, &next.outer);
-  if (cursor->tree->flags & MDBX_DUPSORT) {
-    subcur_t *mx = &container_of(cursor, cursor_couple_t, outer)->inner;
-    cursor_cpstk(&mx->cursor, &next.inner.cursor);
-  }
+  cursor_copy_position(cursor, &next.outer);
 
   MDBX_val stub_data;
   if (data == nullptr) {
@@ -16843,6 +16838,28 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
   }
 
   /* запрошенный уровень предполагает учет mutivalues/дубликатов */
+  if (outer_diff_level == MDBX_RESULT_TRUE) {
+    /* обе позиции внутри multi-value одного ключа */
+    return inner_pointed(end) ? cursor_distance_at(&iter->subcur->cursor, &end->subcur->cursor,
+                                                   level - iter->tree->height)
+                              : tdr;
+  }
+
+  if (inner_pointed(iter)) {
+    /* дальше учитываются все multi-value начального ключа, поэтому вычитаем предшествующие начальной позиции */
+    cursor_couple_t couple;
+    cursor_clone_complete(iter, &couple);
+    tdr.err = inner_first(&couple.inner.cursor, nullptr);
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    cdr_t skip_tdr =
+        cursor_distance_at(&couple.inner.cursor, &iter->subcur->cursor, level - iter->tree->height);
+    tdr.err = skip_tdr.err;
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    tdr.distance -= skip_tdr.distance;
+  }
+
   while (iter->pg[iter->top] != end->pg[iter->top]) {
     cdr_t leaf_tdr = cursor_leaf_amount(iter->pg[iter->top], iter->ki[iter->top], page_numkeys(iter->pg[iter->top]));
     tdr.distance += leaf_tdr.distance;
@@ -16880,6 +16897,18 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
   return tdr;
 }
 
+/* Оставляет курсор на краю данных в согласованном состоянии после исчерпания данных при прокрутке,
+ * в том числе если прокрутка выполнялась по страницам ветвей. */
+static int scroll_beyond(MDBX_cursor *mc, bool forward) {
+  be_poor(mc);
+  int err = forward ? outer_last(mc, nullptr, nullptr) : outer_first(mc, nullptr, nullptr);
+  if (unlikely(err != MDBX_SUCCESS))
+    return err;
+  if (forward)
+    mc->flags |= z_eof_soft | z_eof_hard;
+  return MDBX_NOTFOUND;
+}
+
 static cdr_t cursor_forward_at(MDBX_cursor *iter, size_t amount, int level) {
   if (level < iter->top)
     iter->top = level;
@@ -16889,8 +16918,11 @@ static cdr_t cursor_forward_at(MDBX_cursor *iter, size_t amount, int level) {
   while (tdr.distance >= step) {
     tdr.distance -= step;
     tdr.err = cursor_sibling_right(iter);
-    if (unlikely(tdr.err != MDBX_SUCCESS))
+    if (unlikely(tdr.err != MDBX_SUCCESS)) {
+      if (tdr.err == MDBX_NOTFOUND && !is_inner(iter))
+        tdr.err = scroll_beyond(iter, true);
       return tdr;
+    }
     step = page_numkeys(iter->pg[iter->top]);
   }
 
@@ -16928,8 +16960,11 @@ static cdr_t cursor_backward_at(MDBX_cursor *iter, size_t amount, int level) {
   while (tdr.distance > iter->ki[iter->top]) {
     tdr.distance -= iter->ki[iter->top] + 1;
     tdr.err = cursor_sibling_left(iter);
-    if (unlikely(tdr.err != MDBX_SUCCESS))
+    if (unlikely(tdr.err != MDBX_SUCCESS)) {
+      if (tdr.err == MDBX_NOTFOUND && !is_inner(iter))
+        tdr.err = scroll_beyond(iter, false);
       return tdr;
+    }
   }
 
   ASSERT(tdr.distance <= iter->ki[iter->top]);
@@ -16973,19 +17008,22 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
-  }
+  } else
+    amount -= 1;
 
+  /* здесь и далее amount = количество элементов, которые нужно пропустить после текущего ключа */
   while (true) {
     if (++mc->ki[mc->top] >= page_numkeys(mc->pg[mc->top])) {
       err = cursor_sibling_right(mc);
       if (unlikely(err != MDBX_SUCCESS))
-        return err;
+        return (err == MDBX_NOTFOUND) ? scroll_beyond(mc, true) : err;
     }
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
-    if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_FIRST);
+    be_filled(mc);
+    if ((node_flags(node) & N_DUP) == 0) {
+      if (amount-- == 0)
+        return MDBX_SUCCESS;
       continue;
     }
 
@@ -16996,9 +17034,13 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       err = inner_first(&mc->subcur->cursor, nullptr);
       if (unlikely(err != MDBX_SUCCESS))
         return err;
-      return cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
-    }
-    amount -= mc->subcur->nested_tree.items;
+      cdr_t tdr = cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height);
+      if (likely(tdr.err != MDBX_NOTFOUND))
+        return tdr.err;
+      /* не хватило страниц вложенного дерева, если прокрутка выполняется по его ветвям */
+      amount = tdr.distance;
+    } else
+      amount -= mc->subcur->nested_tree.items;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
   }
@@ -17019,19 +17061,22 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
-  }
+  } else
+    amount -= 1;
 
+  /* здесь и далее amount = количество элементов, которые нужно пропустить перед текущим ключом */
   while (true) {
     if (mc->ki[mc->top]-- < 1) {
       err = cursor_sibling_left(mc);
       if (unlikely(err != MDBX_SUCCESS))
-        return err;
+        return (err == MDBX_NOTFOUND) ? scroll_beyond(mc, false) : err;
     }
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
-    if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_LAST);
+    be_filled(mc);
+    if ((node_flags(node) & N_DUP) == 0) {
+      if (amount-- == 0)
+        return MDBX_SUCCESS;
       continue;
     }
 
@@ -17042,9 +17087,13 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       err = inner_last(&mc->subcur->cursor, nullptr);
       if (unlikely(err != MDBX_SUCCESS))
         return err;
-      return cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
-    }
-    amount -= mc->subcur->nested_tree.items;
+      cdr_t tdr = cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height);
+      if (likely(tdr.err != MDBX_NOTFOUND))
+        return tdr.err;
+      /* не хватило страниц вложенного дерева, если прокрутка выполняется по его ветвям */
+      amount = tdr.distance;
+    } else
+      amount -= mc->subcur->nested_tree.items;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
   }
-- 
2.43.0


From 4618bdfb160a04ed84adea9c487458d2d4993d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 31/75] fix: too strong assertions on positions next to a page
 border in estimations

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2365a6c..6272989 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10253,7 +10253,7 @@ __hot static int cursor_diff(const MDBX_cursor *const __restrict x, const MDBX_c
      */
     nkeys = page_numkeys(y->pg[r->level]);
     r->diff = (nkeys - y->ki[r->level]) + x->ki[r->level];
-    ASSERT(r->diff > 0);
+    ASSERT(r->diff >= 0);
   }
 
   while (unlikely(r->diff == -1) && likely(r->level < depth)) {
@@ -10266,7 +10266,7 @@ __hot static int cursor_diff(const MDBX_cursor *const __restrict x, const MDBX_c
      */
     nkeys = page_numkeys(x->pg[r->level]);
     r->diff = -(nkeys - x->ki[r->level]) - y->ki[r->level];
-    ASSERT(r->diff < 0);
+    ASSERT(r->diff <= 0);
   }
 
   return MDBX_SUCCESS;
-- 
2.43.0


From 04f816582e86fbcbf0570eb059964cee6b13d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 32/75] fix: account every unopened table in the summary
 statistics

After the first already accounted table the rest of the leaf page was skipped.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6272989..b96772b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36802,8 +36802,8 @@ int tbl_stat_summary(const MDBX_txn *txn, MDBX_stat *st) {
         tree_t db;
         memcpy(&db, node_data(node), sizeof(db));
         tbl_stat_add(&db, st);
+      next:;
       }
-    next:
       err = cursor_sibling_right(&cx.outer);
     }
     if (unlikely(err != MDBX_NOTFOUND))
-- 
2.43.0


From f92b912b562fab8b3aa05a471389deddb49c5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 33/75] fix: never move the mapping while a write transaction
 is running

mdbx_env_set_geometry() inside a transaction moved the mapping when the upper
size was enlarged, leaving the transaction's cursors and dirty pages dangling.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b96772b..2ab40a7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20019,7 +20019,7 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
     }
 #else  /* Windows */
     lck_t *const lck = env->lck_mmap.lck;
-    if (mode == explicit_resize && limit_bytes != env->dxb_mmap.limit) {
+    if (mode == explicit_resize && limit_bytes != env->dxb_mmap.limit && !env->txn /* pages are used by a write txn */) {
       mresize_flags |= MDBX_MRESIZE_MAY_UNMAP | MDBX_MRESIZE_MAY_MOVE;
       if (lck) {
         int err = lck_rdt_lock(env) /* lock readers table until remap done */;
-- 
2.43.0


From 97987778c73e121ff19441409c7ef3305b21acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 34/75] fix: restore the file size when mdbx_env_set_geometry()
 fails inside a transaction

The file was already shrunk when extending the mapping failed, and the running
transaction then wrote beyond the end of the file.
---
 mdbx.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 2ab40a7..dbc3c85 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8275,8 +8275,16 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
 
       if (new_geo.now != current_geo->now || new_geo.upper != current_geo->upper) {
         rc = dxb_resize(env, current_geo->first_unallocated, new_geo.now, new_geo.upper, explicit_resize);
-        if (unlikely(rc != MDBX_SUCCESS))
+        if (unlikely(rc != MDBX_SUCCESS)) {
+          if (env->txn && env->dxb_mmap.base && bytes2pgno(env, env->dxb_mmap.current) < current_geo->now) {
+            /* the file was shrunk before the failure, but the running transaction relies on the former size */
+            int err =
+                dxb_resize(env, current_geo->first_unallocated, current_geo->now, current_geo->upper, implicit_grow);
+            if (unlikely(err != MDBX_SUCCESS))
+              env->txn->flags |= MDBX_TXN_ERROR;
+          }
           goto bailout;
+        }
       }
       if (env->txn) {
         env->txn->geo = new_geo;
-- 
2.43.0


From 49f70cbe2a4c2559a0b55945b0352167d38d5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 35/75] fix: null dereference after a failed commit in
 mdbx_txn_commit_embark_read()

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index dbc3c85..ee0723b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11405,7 +11405,7 @@ int mdbx_txn_commit_embark_read(MDBX_txn **ptxn, MDBX_commit_latency *latency) {
     if (likely(rc == MDBX_SUCCESS)) {
       rtxn->userctx = preserved_context;
       rtxn->signature = txn_signature;
-    } else {
+    } else if (rtxn) {
       txn_ro_free(rtxn);
       rtxn = nullptr;
     }
-- 
2.43.0


From b0d4f853cf5353f0b8e425b063a80f9fc4d34c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 36/75] fix: mdbx_env_set_geometry() must not cut off pages of
 committed snapshots

Inside a transaction which released pages at the end of the file an explicit
shrink removed pages of the recent committed snapshot, which then was lost by
an abort of the transaction. The last steady snapshot has to be kept as well.
---
 mdbx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index ee0723b..350a81a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -7986,7 +7986,12 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
     if (shrink_threshold < 0)
       shrink_threshold = pgno2bytes(env, pv2pages(geo->shrink_pv));
 
-    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, geo->first_unallocated));
+    /* the recent and the last steady snapshots should be kept intact, even if the current transaction needs less */
+    const pgno_t recent_used = meta_recent(env, &env->basal_txn->wr.troika).ptr_c->geometry.first_unallocated;
+    const pgno_t steady_used = meta_prefer_steady(env, &env->basal_txn->wr.troika).ptr_c->geometry.first_unallocated;
+    pgno_t largest_used = (geo->first_unallocated > recent_used) ? geo->first_unallocated : recent_used;
+    largest_used = (largest_used > steady_used) ? largest_used : steady_used;
+    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, largest_used));
     if ((size_t)size_upper < usedbytes) {
       rc = MDBX_MAP_FULL;
       goto bailout;
-- 
2.43.0


From 82d1ba4e009ff170e726012d56449cbaed14bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 37/75] fix: release the DBI slot when mdbx_dbi_open() with
 MDBX_CREATE fails

---
 mdbx.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 350a81a..da162cf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17689,13 +17689,15 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
 #endif /* MEMCHECK || ASAN */
   if (unlikely(rc != MDBX_SUCCESS)) {
     if (rc != MDBX_NOTFOUND || !(user_flags & MDBX_CREATE))
-      return rc;
+      goto bailout_slot;
   }
 
   /* Done here so we cannot fail after creating a new DB */
   clone = osal_malloc(dbi_namelen(name));
-  if (unlikely(!clone))
-    return MDBX_ENOMEM;
+  if (unlikely(!clone)) {
+    rc = MDBX_ENOMEM;
+    goto bailout_slot;
+  }
   memcpy(clone, name.iov_base, name.iov_len);
   name.iov_base = clone;
 
@@ -17750,6 +17752,12 @@ bailout:
     eASSERT0(env, name.iov_base == env->kvs[slot].name.iov_base);
   }
   return rc;
+
+bailout_slot:
+  /* release the slot taken above */
+  txn->dbi_state[slot] &= DBI_LINDO | DBI_OLDEN;
+  env->dbs_flags[slot] = 0;
+  return rc;
 }
 
 int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDBX_dbi *dbi, MDBX_cmp_func keycmp,
-- 
2.43.0


From af060285a4bfaf6c54f2fbc2309a196ae6e48b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 38/75] fix: mdbx_drop() of the main table must not lose named
 tables

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index da162cf..80d675a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36984,7 +36984,7 @@ int tree_cutoff_twig(MDBX_cursor *mc, const pgno_t pgno, size_t deep, txnid_t pa
 #endif /* NDEBUG */
       mc->tree->items -= page_numkeys(pgr.page);
     }
-    if (mc->tree->large_pages || mc->subcur) {
+    if (mc->tree->large_pages || mc->subcur || cursor_is_main(mc)) {
       tASSERT0(mc, !is_dupfix_leaf(pgr.page));
       const size_t leaf_nkeys = page_numkeys(pgr.page);
       for (size_t i = 0; i < leaf_nkeys; ++i) {
-- 
2.43.0


From ab1e64c257ae87809eb5d693be1601e6177f636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 39/75] fix: mdbx_dbi_rename() of a stale handle, after an
 abort, and to a too long name

---
 mdbx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 80d675a..740b4e1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6779,6 +6779,8 @@ __cold int mdbx_dbi_rename2(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *new_nam
 
   if (unlikely(dbi < CORE_DBS))
     return LOG_IFERR(MDBX_EINVAL);
+  if (unlikely(new_name->iov_len > txn->env->leaf_nodemax - NODESIZE - sizeof(tree_t)))
+    return LOG_IFERR(MDBX_EINVAL);
   rc = dbi_check(txn, dbi);
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
@@ -17902,6 +17904,13 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
   if (unlikely(pair.err != MDBX_SUCCESS))
     return pair;
 
+  if (txn->dbi_state[dbi] & DBI_STALE) {
+    /* the table's record will be copied from the txn->dbs[dbi] */
+    pair.err = tbl_refresh(txn, dbi);
+    if (unlikely(pair.err != MDBX_SUCCESS))
+      return pair;
+  }
+
   MDBX_env *const env = txn->env;
   MDBX_val old_name = env->kvs[dbi].name;
   if (env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &old_name) == 0 && MDBX_DEBUG < 1)
@@ -17936,6 +17945,9 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
     if (likely(pair.err == MDBX_SUCCESS)) {
       pair.defer = env->kvs[dbi].name.iov_base;
       env->kvs[dbi].name = new_name;
+      /* the handle must not outlive an abort, since it will refer to the non-existing name */
+      txn->dbi_state[dbi] |= DBI_CREAT;
+      dbi_outdate_parents(txn, dbi);
     } else
       txn->flags |= MDBX_TXN_ERROR;
   }
-- 
2.43.0


From a765d530d2da2c9a358e61d2536d433c292f0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 40/75] fix: mdbx_dbi_close() must refuse a handle which is
 dirty within an intermediate nested transaction

---
 mdbx.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 740b4e1..46b93ba 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6849,10 +6849,12 @@ int mdbx_dbi_close(MDBX_env *env, MDBX_dbi dbi) {
     if (unlikely(hazard != env->txn))
       continue;
     if (hazard != env->basal_txn && hazard && (hazard->flags & MDBX_TXN_FINISHED) == 0 &&
-        hazard->signature == txn_signature &&
-        (dbi_state(hazard, dbi) & (DBI_LINDO | DBI_DIRTY | DBI_CREAT)) > DBI_LINDO) {
-      rc = MDBX_DANGLING_DBI;
-      goto bailout;
+        hazard->signature == txn_signature) {
+      for (const MDBX_txn *scan = hazard; scan && scan != env->basal_txn; scan = scan->parent)
+        if ((dbi_state(scan, dbi) & (DBI_LINDO | DBI_DIRTY | DBI_CREAT)) > DBI_LINDO) {
+          rc = MDBX_DANGLING_DBI;
+          goto bailout;
+        }
     }
     osal_compiler_barrier();
     if (likely(hazard == env->txn))
-- 
2.43.0


From 9bc5e4c8d82b2c2f758c3d3d663f7496c485705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 41/75] fix: refuse table names of a wrong length when the main
 table has integer keys

---
 mdbx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 46b93ba..dd7a1d2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6779,11 +6779,13 @@ __cold int mdbx_dbi_rename2(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *new_nam
 
   if (unlikely(dbi < CORE_DBS))
     return LOG_IFERR(MDBX_EINVAL);
-  if (unlikely(new_name->iov_len > txn->env->leaf_nodemax - NODESIZE - sizeof(tree_t)))
-    return LOG_IFERR(MDBX_EINVAL);
   rc = dbi_check(txn, dbi);
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
+  if (unlikely(new_name->iov_len > txn->env->leaf_nodemax - NODESIZE - sizeof(tree_t)))
+    return LOG_IFERR(MDBX_EINVAL);
+  if (unlikely((txn->dbs[MAIN_DBI].flags & MDBX_INTEGERKEY) && new_name->iov_len != 4 && new_name->iov_len != 8))
+    return LOG_IFERR(MDBX_BAD_VALSIZE);
 
   rc = osal_fastmutex_acquire(&txn->env->dbi_lock);
   if (likely(rc == MDBX_SUCCESS)) {
@@ -17797,6 +17799,9 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
     return MDBX_EINVAL;
   if (unlikely(name->iov_len > txn->env->leaf_nodemax - NODESIZE - sizeof(tree_t)))
     return MDBX_EINVAL;
+  if (unlikely((txn->dbs[MAIN_DBI].flags & MDBX_INTEGERKEY) && name->iov_len != 4 && name->iov_len != 8))
+    /* neither could be compared with any existing name */
+    return MDBX_BAD_VALSIZE;
 
   cursor_couple_t cx;
   size_t fastpath_slot = 0;
-- 
2.43.0


From 6d41f28835ebe0e1e37200cfe4f45b52070a6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 42/75] fix: mdbx_dbi_open() in an older snapshot must not
 close a handle used by other transactions

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index dd7a1d2..1f933b0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17661,8 +17661,8 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         goto create;
       }
 
-      *defer_chain = dbi_close_locked(env, slot);
-      return rc;
+      /* the table is absent in the MVCC-snapshot, but the handle could be used by other transactions */
+      return dbi_gone(txn, slot, rc);
     }
   }
 
-- 
2.43.0


From a70ea3e927c071595fee63ee0283c4a15f931f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 43/75] fix: mdbx_enumerate_tables() must not use outdated
 trees of re-used handles

---
 mdbx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 1f933b0..b150cc9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6961,7 +6961,9 @@ __cold int mdbx_enumerate_tables(const MDBX_txn *txn, MDBX_table_enum_func func,
       if (env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[i].name))
         continue;
 
-      tree = dbi_dig(txn, i, &reside);
+      if (txn->dbi_seqs[i] == atomic_load32(&env->dbi_seqs[i], mo_AcquireRelease))
+        /* otherwise the slot was used for another table within the transaction */
+        tree = dbi_dig(txn, i, &reside);
       dbi = (MDBX_dbi)i;
       break;
     }
@@ -18000,8 +18002,9 @@ __cold const tree_t *dbi_dig(const MDBX_txn *txn, const size_t dbi, tree_t *fall
     if (state & DBI_LINDO)
       switch (state & (DBI_VALID | DBI_STALE | DBI_OLDEN)) {
       case DBI_VALID:
-      case DBI_OLDEN:
         return dig->dbs + dbi;
+      case DBI_OLDEN:
+        /* the handle was invalidated, but all changes are in the MainDB */
       case 0:
         return fallback;
       case DBI_VALID | DBI_STALE:
-- 
2.43.0


From 66d433aaac144679f3b1b1fd1725e784e8058db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 44/75] fix: two handles of one name, stale handles after
 mdbx_dbi_rename() and within parents of nested transactions

- refuse mdbx_dbi_rename() to a name which has an another open handle;
- the state of a renamed table cached by other transactions must not be used with the new name;
- a slot re-used for another table by a nested transaction must be outdated in the parents.
---
 mdbx.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b150cc9..13cd2d0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17316,6 +17316,7 @@ __noinline int dbi_import(MDBX_txn *txn, const size_t dbi) {
     eASSERT0(env, txn->dbi_seqs[dbi] != env->dbi_seqs[dbi].weak);
     if (unlikely(txn->cursors[dbi])) {
       /* хендл уже использовался в транзакции и остались висячие курсоры */
+      dbi_outdate_parents(txn, dbi);
       txn->dbi_seqs[dbi] = env->dbi_seqs[dbi].weak;
       txn->dbi_state[dbi] = DBI_OLDEN | DBI_LINDO;
       return MDBX_DANGLING_DBI;
@@ -17323,6 +17324,7 @@ __noinline int dbi_import(MDBX_txn *txn, const size_t dbi) {
     if (unlikely(txn->dbi_state[dbi] & (DBI_OLDEN | DBI_VALID))) {
       /* хендл уже использовался в транзакции, но был закрыт или переоткрыт,
        * висячих курсоров нет */
+      dbi_outdate_parents(txn, dbi);
       txn->dbi_seqs[dbi] = env->dbi_seqs[dbi].weak;
       txn->dbi_state[dbi] = DBI_OLDEN | DBI_LINDO;
       return MDBX_BAD_DBI;
@@ -17735,6 +17737,7 @@ create:
 
     env->kvs[slot].name = name;
     env->dbs_flags[slot] = txn->dbs[slot].flags | DB_VALID;
+    dbi_outdate_parents(txn, slot);
     txn->dbi_seqs[slot] = atomic_store32(&env->dbi_seqs[slot], seq, mo_AcquireRelease);
   } else {
     eASSERT0(env, env->dbs_flags[slot] == (DB_VALID | (user_flags & DB_PERSISTENT_FLAGS)) &&
@@ -17935,6 +17938,14 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
     return pair;
   }
 
+  for (size_t i = CORE_DBS; i < env->n_dbi; ++i)
+    if (i != dbi && (env->dbs_flags[i] & DB_VALID) &&
+        env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &env->kvs[i].name) == 0) {
+      /* two handles with the same name must not exist */
+      pair.err = MDBX_DANGLING_DBI;
+      return pair;
+    }
+
   pair.defer = osal_malloc(dbi_namelen(new_name));
   if (unlikely(!pair.defer)) {
     pair.err = MDBX_ENOMEM;
@@ -17957,6 +17968,9 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
       /* the handle must not outlive an abort, since it will refer to the non-existing name */
       txn->dbi_state[dbi] |= DBI_CREAT;
       dbi_outdate_parents(txn, dbi);
+      /* the cached state within other transactions corresponds to the table with the old name */
+      const uint32_t seq = dbi_seq_next(env, dbi);
+      txn->dbi_seqs[dbi] = atomic_store32(&env->dbi_seqs[dbi], seq, mo_AcquireRelease);
     } else
       txn->flags |= MDBX_TXN_ERROR;
   }
-- 
2.43.0


From 815c773c137e16ede094b68fba58442c49b3d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 45/75] fix: mdbx_drop() of a multi-value main table with
 nested trees

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 13cd2d0..90899ce 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -37020,7 +37020,7 @@ int tree_cutoff_twig(MDBX_cursor *mc, const pgno_t pgno, size_t deep, txnid_t pa
 #endif /* NDEBUG */
       mc->tree->items -= page_numkeys(pgr.page);
     }
-    if (mc->tree->large_pages || mc->subcur || cursor_is_main(mc)) {
+    if (mc->tree->large_pages || mc->subcur || (cursor_is_main(mc) && !is_inner(mc))) {
       tASSERT0(mc, !is_dupfix_leaf(pgr.page));
       const size_t leaf_nkeys = page_numkeys(pgr.page);
       for (size_t i = 0; i < leaf_nkeys; ++i) {
-- 
2.43.0


From 6a05bc350f82fbb7da95a46486419a86efdc8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 46/75] fix: mdbx_jsonInteger_from_key() returned INT64_MAX for
 the key of zero

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 90899ce..c0e135c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9310,7 +9310,7 @@ int64_t mdbx_jsonInteger_from_key(const MDBX_val v) {
   ASSERT(v.iov_len == 8);
   const uint64_t key = unaligned_peek_u64(2, v.iov_base);
   const uint64_t bias = UINT64_C(0x8000000000000000);
-  const uint64_t covalent = (key > bias) ? key - bias : bias - key - 1;
+  const uint64_t covalent = (key >= bias) ? key - bias : bias - key - 1;
   const int shift = IEEE754_DOUBLE_EXPONENTA_BIAS + 63 -
                     (IEEE754_DOUBLE_EXPONENTA_MAX & (int)(covalent >> IEEE754_DOUBLE_MANTISSA_SIZE));
   if (unlikely(shift < 1))
-- 
2.43.0


From 6166ebd640eb1bf1cd249109c9001242549ecbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 47/75] fix: overflow of MDBX_opt_sync_bytes values

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index c0e135c..9cef102 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9824,6 +9824,9 @@ __cold int mdbx_env_set_option(MDBX_env *env, const MDBX_option_t option, uint64
       return LOG_IFERR(MDBX_EPERM);
     if (unlikely(value > SIZE_MAX - 65536))
       return LOG_IFERR(MDBX_EINVAL);
+    if (value > pgno2bytes(env, MAX_PAGENO))
+      /* avoid overflow of the 32-bit counter of pages */
+      value = pgno2bytes(env, MAX_PAGENO);
     value = bytes2pgno(env, (size_t)value + env->ps - 1);
     if ((uint32_t)value != atomic_load32(&env->lck->autosync_threshold, mo_AcquireRelease) &&
         atomic_store32(&env->lck->autosync_threshold, (uint32_t)value, mo_Relaxed)
-- 
2.43.0


From 8d3c479a3a0ab60e5a63cda947670c3779030970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 48/75] fix: loss of the last steady point of MDBX_NOMETASYNC
 by power failures

A steady meta-page written with MDBX_NOMETASYNC stays unflushed, but
pages retired by such commit were re-used at once, subsequent non-steady
commits overwrote the last flushed meta-page, and commits of a single
page skipped the flush of the previous meta-page at all.
---
 mdbx.c | 52 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9cef102..5c7f592 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3149,6 +3149,7 @@ static inline txnid_t txnid_max(txnid_t a, txnid_t b) { return (a > b) ? a : b;
 
 MDBX_INTERNAL MDBX_cursor *gc_cursor_init(MDBX_txn *txn);
 MDBX_INTERNAL int gc_merge_loose(MDBX_txn *txn);
+MDBX_INTERNAL int gc_flush_steady(const MDBX_txn *txn, const txnid_t id);
 MDBX_NOTHROW_PURE_FUNCTION MDBX_INTERNAL const char *gc_check_keylen(size_t const key_len);
 MDBX_INTERNAL const char *gc_check_rowdata(const MDBX_txn *const txn, const MDBX_val data);
 
@@ -3291,6 +3292,12 @@ MDBX_INTERNAL txnid_t meta_txnid(const volatile meta_t *meta);
 MDBX_INTERNAL txnid_t recent_committed_txnid(const MDBX_env *env);
 MDBX_INTERNAL int meta_sync(const MDBX_env *env, const meta_ptr_t head);
 
+/* Возвращает true, если мета-страница указанной транзакции либо более поздней сброшена на диск.
+ * При отложенной синхронизации мета-страниц значение meta_sync_txnid сдвинуто на MDBX_NOMETASYNC_LAZY_xyz. */
+static inline bool meta_is_flushed(const MDBX_env *env, const txnid_t txnid) {
+  return (int32_t)(atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) - (uint32_t)txnid) >= 0;
+}
+
 MDBX_INTERNAL const char *durable_caption(const meta_t *const meta);
 MDBX_INTERNAL void meta_troika_dump(const MDBX_env *env, const troika_t *troika);
 
@@ -18183,7 +18190,7 @@ static int defrag_load_gc(dfc_t *dfc) {
             const meta_ptr_t recent = meta_recent(txn->env, &txn->wr.troika);
             ASSERT(recent.txnid > txn->env->gc.detent);
             meta_t meta = *recent.ptr_c;
-            rc = dxb_sync_locked(txn->env, txn->env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+            rc = dxb_sync_locked(txn->env, txn->env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
             if (unlikely(rc != MDBX_SUCCESS))
               break;
           }
@@ -18197,6 +18204,9 @@ static int defrag_load_gc(dfc_t *dfc) {
       }
       dfc->gc_retained_pages += pnl_size(glr.pnl);
     } else if (!gc_is_reclaimed(txn, id)) {
+      rc = gc_flush_steady(txn, id);
+      if (unlikely(rc != MDBX_SUCCESS))
+        break;
       rc = rkl_push(&txn->wr.gc.reclaimed, id);
       if (unlikely(rc != MDBX_SUCCESS))
         break;
@@ -21002,7 +21012,9 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
   rc = MDBX_RESULT_FALSE /* carry steady */;
   const uint64_t snap_unsynced_pages = atomic_load64(&env->lck->unsynced_pages, mo_Relaxed);
   if (snap_unsynced_pages) {
-    if (snap_unsynced_pages == 1 && (flags & MDBX_NOMETASYNC))
+    if (snap_unsynced_pages == 1 && (flags & MDBX_NOMETASYNC) && head.txnid == pending->unsafe_txnid &&
+        !meta_is_flushed(env, head.txnid))
+      /* there is no unsynced data, but only the last meta-page, which is subject to meta_sync() if requested */
       goto skip_lastmeta_sync;
 
     eASSERT0(env, ((flags ^ env->flags) & MDBX_WRITEMAP) == 0);
@@ -21146,6 +21158,8 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
       }
       if (unlikely(rc != MDBX_SUCCESS))
         goto fail;
+      if (flags & MDBX_NOMETASYNC)
+        env->lck->unsynced_pages.weak += 1;
     }
   } else {
     if (MDBX_ENABLE_PGOP_STAT)
@@ -21398,7 +21412,7 @@ retry:;
 
   /* LY: sync meta-pages if MDBX_NOMETASYNC enabled
    *     and someone was not synced above. */
-  if (atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) != (uint32_t)head.txnid)
+  if (!meta_is_flushed(env, head.txnid))
     rc = meta_sync(env, head);
 
 bailout:
@@ -22667,6 +22681,24 @@ bailout:
   return ret;
 }
 
+/* Страницы из GC-записи могут использоваться снимком, к которому БД откатится после аварии, если мета-страница более
+ * поздней steady-точки еще не сброшена на диск из-за MDBX_NOMETASYNC. Поэтому перед переработкой таких страниц нужно
+ * зафиксировать steady-точку на диске. */
+int gc_flush_steady(const MDBX_txn *txn, const txnid_t id) {
+  MDBX_env *const env = txn->env;
+  const meta_ptr_t steady = meta_prefer_steady(env, &txn->wr.troika);
+  if (likely(!steady.is_steady || meta_is_flushed(env, steady.txnid)))
+    return MDBX_SUCCESS;
+
+  for (unsigned n = 0; n < NUM_METAS; ++n) {
+    const meta_t *const meta = METAPAGE(env, n);
+    const txnid_t txnid = constmeta_txnid(meta);
+    if (txnid >= id && txnid < steady.txnid && meta_is_steady(meta))
+      return MDBX_SUCCESS;
+  }
+  return meta_sync(env, steady);
+}
+
 static txnid_t shapshot_oldest_force_rescan(MDBX_txn *const txn) {
   atomic_store32(&txn->env->lck->rdt_refresh_flag, true, mo_AcquireRelease);
   return mvcc_shapshot_oldest_rw(txn).oldest_txnid;
@@ -22856,6 +22888,10 @@ next_gc:
   }
   txn->flags &= ~txn_gc_drained;
 
+  ret.err = gc_flush_steady(txn, id);
+  if (unlikely(ret.err != MDBX_SUCCESS))
+    goto fail;
+
   /* Reading GC record */
   MDBX_val data;
   page_t *const mp = gc->pg[gc->top];
@@ -23089,7 +23125,7 @@ depleted_gc:
       env->lck->pgops.gc_prof.flushes += 1;
 #endif /* MDBX_ENABLE_PROFGC */
       meta_t meta = *recent.ptr_c;
-      ret.err = dxb_sync_locked(env, env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+      ret.err = dxb_sync_locked(env, env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
       DEBUG("gc-make-steady, rc %d", ret.err);
       eASSERT0(env, ret.err != MDBX_RESULT_TRUE);
       if (unlikely(ret.err != MDBX_SUCCESS))
@@ -39547,8 +39583,9 @@ int txn_basal_commit(MDBX_txn *txn, struct commit_timestamp *ts) {
   bool need_flush_for_nometasync = false;
   const meta_ptr_t head = meta_recent(env, &txn->wr.troika);
   const uint32_t meta_sync_txnid = atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed);
+  const meta_ptr_t steady = meta_prefer_steady(env, &txn->wr.troika);
   /* sync prev meta */
-  if (head.is_steady && meta_sync_txnid != (uint32_t)head.txnid) {
+  if (steady.is_steady && !meta_is_flushed(env, steady.txnid)) {
     /* Исправление унаследованного от LMDB недочета:
      *
      * Всё хорошо, если все процессы работающие с БД не используют WRITEMAP.
@@ -39577,10 +39614,11 @@ int txn_basal_commit(MDBX_txn *txn, struct commit_timestamp *ts) {
 #if defined(_WIN32) || defined(_WIN64)
         !env->ioring.overlapped_fd &&
 #endif
-        meta_sync_txnid == (uint32_t)head.txnid - txnid_dist)
+        /* Но в режимах без синхронизации данных такой фиксации не будет */
+        ((env->flags | txn->flags) & MDBX_SAFE_NOSYNC) == 0 && meta_sync_txnid == (uint32_t)head.txnid - txnid_dist)
       need_flush_for_nometasync = true;
     else {
-      int err = meta_sync(env, head);
+      int err = meta_sync(env, steady);
       if (unlikely(err != MDBX_SUCCESS)) {
         ERROR("txn-%s: error %d", "presync-meta", err);
         return err;
-- 
2.43.0


From c2f3645ef98a309d71f82c0900b79e8db50f4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 49/75] fix: defects of mdbx_env_defrag() leading to
 corruption, crashes, hangs and wrong results

- a dirty page was copied into the read-only mapping or was not subject
  to moving at all, when defragmentation was started within own write
  transaction which already made changes: commit these beforehand;
- moved but not committed pages broke the continuation of such transaction;
- an error of copy_file_range() was ignored;
- the internal transaction was left running (and the writer lock was kept)
  when the initialization failed or there was nothing to do;
- endless loop in case no progress with zero acceptable backlash;
- unsigned arithmetic and uncommitted changes in the pages_shrinked.
---
 mdbx.c | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5c7f592..e147928 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8688,6 +8688,13 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       rc = MDBX_BAD_TXN;
     if (unlikely(rc != MDBX_SUCCESS))
       return LOG_IFERR(rc);
+    if (txn->flags & MDBX_TXN_DIRTY) {
+      /* Dirty pages are not subject to moving, therefore the changes made should be committed before the first cycle,
+       * i.e. in the same way as at the end of each cycle. */
+      rc = txn_basal_checkpoint(txn, MDBX_TXN_NOMETASYNC, nullptr);
+      if (unlikely(rc != MDBX_SUCCESS))
+        return LOG_IFERR(rc);
+    }
   } else {
     rc = txn_basal_start(txn = env->basal_txn, MDBX_TXN_READWRITE | MDBX_TXN_NOWEAKING);
     if (unlikely(rc != MDBX_SUCCESS))
@@ -8703,15 +8710,22 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
                                                                                      : txn->env->maxgc_large1page;
 
   rc = defrag_init(&dfc, txn, defrag_atleast, time_atleast_dot16, defrag_enough, time_limit_dot16, preferred_batch);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    if (txn->userctx == &dfc)
+      txn_basal_end(txn, true);
+    defrag_destroy(&dfc);
     return LOG_IFERR(rc);
+  }
 
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  bool uncommitted_moves = false;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
     const pgno_t prev_stumble = dfc.stumble_pgno;
+    const pgno_t prev_allocated = txn->geo.first_unallocated;
     rc = defrag_cycle(&dfc);
+    uncommitted_moves = dfc.cycle_pages_moved != 0;
 
 #if MDBX_CHECKING > 1
     pnl_free(dfc.repnl_clone);
@@ -8724,7 +8738,10 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       break;
     }
 
-    dfc.stumble_retry = (dfc.stumble_pgno && dfc.stumble_pgno == prev_stumble) ? dfc.stumble_retry + 1 : 0;
+    const bool no_progress = dfc.stumble_pgno
+                                 ? dfc.stumble_pgno == prev_stumble
+                                 : !dfc.cycle_pages_moved && txn->geo.first_unallocated >= prev_allocated;
+    dfc.stumble_retry = no_progress ? dfc.stumble_retry + 1 : 0;
     if (dfc.stumble_retry > 3) {
       NOTICE("bailout since stucked (unable to move) at %u in a few retries", dfc.stumble_pgno);
       rc = txn->dbs[FREE_DBI].items ? MDBX_LAGGARD_READER : MDBX_RESULT_TRUE;
@@ -8749,15 +8766,28 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       dfc.stopping_reasons |= MDBX_defrag_error;
       break;
     }
+    uncommitted_moves = false;
+  }
+
+  if (txn && txn->userctx != &dfc && uncommitted_moves && (txn->flags & MDBX_TXN_ERROR) == 0) {
+    /* The moved pages are written directly and are neither dirty nor spilled from the point of view of the transaction,
+     * therefore these should be committed before the transaction will be continued by the caller. */
+    int err = txn_basal_checkpoint(txn, MDBX_TXN_NOMETASYNC, nullptr);
+    if (unlikely(MDBX_IS_ERROR(err))) {
+      dfc.txn = txn = nullptr;
+      dfc.stopping_reasons |= MDBX_defrag_error;
+      rc = err;
+    }
   }
 
   if (txn && txn->userctx == &dfc) {
     if ((txn->flags & MDBX_TXN_ERROR) == 0) {
-      if (defrag_score(&dfc, dfc.last_allocated = txn->geo.first_unallocated) > dfc.cycle_initial_score) {
+      if (defrag_score(&dfc, txn->geo.first_unallocated) > dfc.cycle_initial_score)
         rc = txn_basal_commit(txn, nullptr);
-        dfc.last_allocated = txn->geo.first_unallocated;
-      }
     }
+    /* the result must not take into account anything that has not been committed */
+    const troika_t troika = meta_tap(env);
+    dfc.last_allocated = meta_recent(env, &troika).ptr_c->geometry.first_unallocated;
     dfc.txn = nullptr;
     int err = txn_basal_end(txn, true);
     rc = (err != MDBX_SUCCESS && !MDBX_IS_ERROR(rc)) ? err : rc;
@@ -18050,7 +18080,7 @@ uint64_t defrag_result(dfc_t *dfc, MDBX_defrag_result_t *out, uint64_t now_cache
   memset(out, 0, sizeof(*out));
   if (dfc->txn)
     dfc->last_allocated = dfc->txn->geo.first_unallocated;
-  out->pages_shrinked = dfc->before_defrag - dfc->last_allocated;
+  out->pages_shrinked = (intptr_t)dfc->before_defrag - (intptr_t)dfc->last_allocated;
   out->pages_moved = dfc->cycle_pages_moved;
   out->pages_scheduled = dfc->cycle_pages_scheduled;
   out->pages_retained = dfc->gc_retained_pages;
@@ -18497,7 +18527,7 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
   const size_t di = ((txn->flags & MDBX_WRITEMAP) == 0 || MDBX_AVOID_MSYNC) ? txn_dpl_exist(txn, arc->key_or_pgno) : 0;
   if (di) {
     page_t *dst = txn->wr.dirtylist->items[di].ptr;
-    if (!MDBX_AVOID_MSYNC || (txn->flags & MDBX_WRITEMAP)) {
+    if (txn->flags & MDBX_WRITEMAP) {
       const page_t *const src = dst;
       dst = pgno2page(txn->env, arc->mapped);
       page_copy(dst, src, pgno2bytes(txn->env, npages));
@@ -18564,9 +18594,8 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
 #if MDBX_USE_COPYFILERANGE
         const ssize_t remainted = pgno2bytes(env, npages - i);
         const ssize_t copied = copy_file_range(env->dxb_mmap.fd, &off_src, env->dxb_mmap.fd, &off_dst, remainted, 0);
-        err = MDBX_SUCCESS;
         if (unlikely(copied != remainted))
-          err = (copied < 0) ? errno : MDBX_EIO;
+          return (copied < 0) ? errno : MDBX_EIO;
         break;
 #else
 #if MDBX_CHECKING > 1
-- 
2.43.0


From 45a8d8ac18ed0732a3690c0defc5dd553a25075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 50/75] fix: hot copies were empty, misplaced or never finished

- copies as-is got meta-pages of an empty database, without the geometry
  and the roots of the copied snapshot;
- the data of copies as-is to a pipe was shifted by the size of meta-pages;
- the root of the main table was wrong in compacted copies to a pipe;
- the sequence of the empty main table was lost in compacted copies;
- a compacting copy hung in case of a write error.
---
 mdbx.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index e147928..449c279 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4778,6 +4778,8 @@ __cold static THREAD_RESULT THREAD_CALL compacting_write_thread(void *arg) {
     osal_condpair_signal(&ctx->condpair, false);
   }
 bailout:
+  /* wake up the walking thread, including in case of an error */
+  osal_condpair_signal(&ctx->condpair, false);
   osal_condpair_unlock(&ctx->condpair);
   return (THREAD_RESULT)0;
 }
@@ -5059,6 +5061,9 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
+  meta->geometry = txn->geo;
+  meta->geometry.first_unallocated = NUM_METAS;
+  meta->trees.main = txn->dbs[MAIN_DBI];
 
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
@@ -5072,7 +5077,6 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
   if (txn->dbs[MAIN_DBI].root == P_INVALID) {
     /* When the DB is empty, handle it specially to
      * fix any breakage like page leaks from ITS#8174. */
-    meta->trees.main.flags = txn->dbs[MAIN_DBI].flags;
     compacting_fixup_meta(env, meta);
     if (dest_is_pipe) {
       if (flags & MDBX_CP_THROTTLE_MVCC)
@@ -5109,7 +5113,6 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
       return rc;
 
     meta->geometry.first_unallocated = txn->geo.first_unallocated - gc_npages;
-    meta->trees.main = txn->dbs[MAIN_DBI];
 
     ctx_t ctx;
     memset(&ctx, 0, sizeof(ctx));
@@ -5132,12 +5135,15 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
       if (dest_is_pipe) {
         if (!meta->trees.main.mod_txnid)
           meta->trees.main.mod_txnid = txn->txnid;
+        /* the root-page will be written last */
+        meta->trees.main.root = meta->geometry.first_unallocated - 1;
         compacting_fixup_meta(env, meta);
         if (flags & MDBX_CP_THROTTLE_MVCC)
           mdbx_txn_park(txn, false);
         rc = osal_write(fd, buffer, meta_bytes);
         if (likely(rc == MDBX_SUCCESS) && (flags & MDBX_CP_THROTTLE_MVCC) != 0)
           rc = mdbx_txn_unpark(txn, false);
+        meta->trees.main.root = txn->dbs[MAIN_DBI].root;
       }
       if (likely(rc == MDBX_SUCCESS))
         rc = compacting_walk_tree(&ctx, &meta->trees.main);
@@ -5211,6 +5217,9 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
+  meta->geometry = txn->geo;
+  meta->trees.gc = txn->dbs[FREE_DBI];
+  meta->trees.main = txn->dbs[MAIN_DBI];
 
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
@@ -5221,6 +5230,9 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     meta->canary.v = constmeta_txnid(meta);
   }
 
+  /* Update signature */
+  meta_sign_as_steady(meta);
+
   int rc = MDBX_SUCCESS;
   if (flags & MDBX_CP_THROTTLE_MVCC) {
     rc = mdbx_txn_park(txn, false);
@@ -5234,7 +5246,6 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     rc = osal_write(fd, buffer, meta_bytes);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
-    offset = 0;
   }
 
 #if MDBX_USE_COPYFILERANGE
-- 
2.43.0


From a95fddabba0f20073d0f05071fbf511013310944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 51/75] fix: opening cut off the last steady snapshot after an
 unclean shutdown

When the recent commit is weak and a preconfigured geometry differs, the file was
truncated to the needs of the recent snapshot only. This made the last steady
snapshot unusable and the opening failed with MDBX_CORRUPTED.
---
 mdbx.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 449c279..1b4c0ae 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20582,6 +20582,19 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
     env->geo_in_bytes.shrink = pgno_ceil2os_bytes(env, pv2pages(header.geometry.shrink_pv));
   }
 
+  if (lck_rc == MDBX_RESULT_TRUE && (env->flags & MDBX_RDONLY) == 0 && env->stuck_meta < 0 &&
+      !SIGN_IS_STEADY(header.unsafe_sign)) {
+    /* The last steady snapshot may be larger than the recent weak one and should be kept intact for a while */
+    const size_t granularity =
+        (env->ps > globals.sys_allocation_granularity) ? env->ps : globals.sys_allocation_granularity;
+    const uint64_t filesize = env->dxb_mmap.filesize & ~(uint64_t)(granularity - 1);
+    const size_t keep = (filesize < env->geo_in_bytes.upper) ? (size_t)filesize : env->geo_in_bytes.upper;
+    if (env->geo_in_bytes.now < keep) {
+      env->geo_in_bytes.now = keep;
+      header.geometry.now = bytes2pgno(env, keep);
+    }
+  }
+
   ENSURE_OBJ(env, env->geo_in_bytes.now >= allocated_bytes);
   if (!expected_filesize)
     expected_filesize = env->geo_in_bytes.now;
-- 
2.43.0


From 49d2352901d3a1f81af6f60db629047ee027b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 52/75] fix: crash of mdbx_env_close() with an unfinished
 nested transaction after a fatal error

---
 mdbx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 1b4c0ae..0905f10 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -7628,8 +7628,17 @@ __cold int mdbx_env_close_ex(MDBX_env *env, bool dont_sync) {
 #endif /* Windows */
   }
 
-  if (env->basal_txn && (MDBX_TXN_CHECKOWNER ? env->basal_txn->owner == osal_thread_self() : !!env->basal_txn->owner))
+  if (env->basal_txn && (MDBX_TXN_CHECKOWNER ? env->basal_txn->owner == osal_thread_self() : !!env->basal_txn->owner)) {
+    /* A nested transactions cannot be aborted by an user after a fatal error,
+     * but such transaction owns a part of the parent's resources. */
+    while (env->basal_txn->nested) {
+      MDBX_txn *nested = env->basal_txn->nested;
+      while (nested->nested)
+        nested = nested->nested;
+      txn_abort(nested, nullptr);
+    }
     lck_txn_unlock(env);
+  }
 
   eASSERT0(env, env->signature.weak == 0);
   rc = env_close(env, false) ? MDBX_PANIC : rc;
-- 
2.43.0


From 3f160e5490b58f76d9c16e79312116fc7558c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 53/75] fix: a failure of wiping steady points left an outdated
 one, the sync was skipped

---
 mdbx.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0905f10..0eca798 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27781,13 +27781,27 @@ static int meta_unsteady(MDBX_env *env, const txnid_t inclusive_upto, const pgno
 }
 
 __cold int meta_wipe_steady(MDBX_env *env, txnid_t inclusive_upto) {
-  int err = meta_unsteady(env, inclusive_upto, 0);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 1);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 2);
+  /* From the oldest to the newest, so that in case of a failure the remaining
+   * steady point is not older than pages which are already may be reused. */
+  int err = MDBX_SUCCESS;
+  bool wiped = false;
+  txnid_t done = 0;
+  for (size_t n = 0; n < NUM_METAS; ++n) {
+    pgno_t next = NUM_METAS;
+    for (pgno_t i = 0; i < NUM_METAS; ++i)
+      if (constmeta_txnid(METAPAGE(env, i)) > done &&
+          (next == NUM_METAS || constmeta_txnid(METAPAGE(env, i)) < constmeta_txnid(METAPAGE(env, next))))
+        next = i;
+    if (next == NUM_METAS)
+      break;
+    done = constmeta_txnid(METAPAGE(env, next));
+    err = meta_unsteady(env, inclusive_upto, next);
+    if (MDBX_IS_ERROR(err))
+      break;
+    wiped |= err == MDBX_RESULT_TRUE;
+  }
 
-  if (err == MDBX_RESULT_TRUE) {
+  if (likely(!MDBX_IS_ERROR(err)) && wiped) {
     err = MDBX_SUCCESS;
     if (!MDBX_AVOID_MSYNC && (env->flags & MDBX_WRITEMAP))
       err = dxb_msync(env, NUM_METAS, MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
-- 
2.43.0


From 32a7632d48228bb8aea773622c9b47c11982adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 54/75] fix: assertion failure on MDBX_TXN_TRY in checked
 builds

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 0eca798..29f2742 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -39478,7 +39478,7 @@ static int basal_start_locked(MDBX_txn *txn, unsigned flags) {
     return MDBX_EPERM;
 #endif /* Windows */
 
-  txn->flags = flags & ~txn_rw_already_locked;
+  txn->flags = flags & ~(txn_rw_already_locked | MDBX_TXN_TRY);
   txn->nested = nullptr;
   txn->wr.loose_pages = nullptr;
   txn->wr.loose_count = 0;
-- 
2.43.0


From d330e823dd76ed2ba2d9003d1e7dfefb5773f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 55/75] fix: mdbx_txn_amend() gave an unsigned transaction if
 no write transaction had been started in the environment before

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index 29f2742..7e470f0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11876,6 +11876,7 @@ int mdbx_txn_amend(MDBX_txn *rtxn, MDBX_txn **ptxn, MDBX_txn_flags_t flags, void
 
   if (!F_ISSET(flags, MDBX_TXN_RDONLY_PREPARE))
     txn_ro_free(rtxn);
+  env->basal_txn->signature = txn_signature;
   env->basal_txn->userctx = context;
   *ptxn = env->basal_txn;
   return MDBX_SUCCESS;
-- 
2.43.0


From 84cd071cdab6230048089e46b779e99e26b728ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 56/75] fix: a refused mdbx_txn_amend() left the read
 transaction parked

---
 mdbx.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7e470f0..cf600c3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11845,24 +11845,31 @@ int mdbx_txn_amend(MDBX_txn *rtxn, MDBX_txn **ptxn, MDBX_txn_flags_t flags, void
     return LOG_IFERR(MDBX_RESULT_TRUE);
 
   STATIC_ASSERT(MDBX_TXN_TRY != MDBX_TXN_PARKED);
+  bool unpark = false;
   if ((uint32_t)(flags & MDBX_TXN_TRY) == (uint32_t)(rtxn->flags & MDBX_TXN_PARKED)) {
     rc = txn_ro_park(rtxn, true);
     if (unlikely(rc != MDBX_SUCCESS))
       return LOG_IFERR(rc);
+    unpark = true;
   }
   rc = lck_txn_lock(env, (flags & MDBX_TXN_TRY) != 0);
-  if (unlikely(rc != MDBX_SUCCESS))
-    return LOG_IFERR(rc);
-
-  /* after the lock was acuired we re-check that there were no new commits */
-  if (recent_committed_txnid(env) != rtxn->txnid) {
-    lck_txn_unlock(env);
-    return LOG_IFERR(MDBX_RESULT_TRUE);
+  if (likely(rc == MDBX_SUCCESS)) {
+    /* after the lock was acuired we re-check that there were no new commits */
+    if (recent_committed_txnid(env) != rtxn->txnid) {
+      lck_txn_unlock(env);
+      rc = MDBX_RESULT_TRUE;
+    } else
+      rc = txn_basal_start(env->basal_txn, (flags & ~MDBX_TXN_RDONLY_PREPARE) | txn_rw_already_locked);
   }
-
-  rc = txn_basal_start(env->basal_txn, (flags & ~MDBX_TXN_RDONLY_PREPARE) | txn_rw_already_locked);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    /* don't leave parked a transaction which was running, but it could be ousted while waiting for the lock */
+    if (unpark && (rtxn->flags & MDBX_TXN_PARKED)) {
+      const int err = txn_ro_unpark(rtxn);
+      if (unlikely(err != MDBX_SUCCESS))
+        rc = err;
+    }
     return LOG_IFERR(rc);
+  }
 
   /* A paranoid check that changes will be made on top of the desired data snapshot */
   rc = MDBX_RESULT_TRUE;
-- 
2.43.0


From a0419c70a67beffcd4ef09dc9a636853d27de4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 57/75] fix: without sticky threads mdbx_env_sync(),
 mdbx_env_set_geometry() and others entered the critical section of each
 other, taking the lock of another thread for their own

---
 mdbx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cf600c3..7fccbc1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21304,8 +21304,11 @@ fail:
 
 MDBX_txn *env_owned_wrtxn(const MDBX_env *env) {
   if (likely(env->basal_txn)) {
-    const bool is_owned = (env->flags & MDBX_NOSTICKYTHREADS) ? (env->basal_txn->owner != 0)
-                                                              : (env->basal_txn->owner == osal_thread_self());
+    const size_t owner = env->basal_txn->owner;
+    /* without sticky threads a write transaction belongs to the whole process, but the lock taken by another thread
+     * without a transaction (i.e. inside of env_sync(), mdbx_env_set_geometry(), etc) does not */
+    const bool is_owned =
+        owner == osal_thread_self() || ((env->flags & MDBX_NOSTICKYTHREADS) && owner != 0 && env->txn != nullptr);
     if (is_owned)
       return env->txn ? env->txn : env->basal_txn;
   }
-- 
2.43.0


From 46481b18bac0380c89e114a7fd80f18b928b3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 58/75] fix: assertion failure on releasing a read transaction
 inherited through a fork in checked builds

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7fccbc1..c1a4078 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40696,9 +40696,9 @@ static void ro_slot_release(MDBX_txn *txn) {
   tASSERT0(txn, is_ro_txn(txn) && txn->ro.slot);
   reader_slot_t *slot = txn->ro.slot;
   MDBX_env *const env = txn->env;
-  eASSERT0(env, ro_slot_pid(slot) == osal_getpid());
-  eASSERT0(env, slot->txnid.weak >= SAFE64_INVALID_THRESHOLD);
+  /* the slot belongs to the parent process if the transaction was inherited through a fork() */
   if (ro_slot_pid(slot) == osal_getpid()) {
+    eASSERT0(env, slot->txnid.weak >= SAFE64_INVALID_THRESHOLD);
     safe64_reset(&slot->txnid, false);
     if ((env->flags & ENV_TXKEY) == 0)
       atomic_store32(&slot->pid, 0, mo_Relaxed);
-- 
2.43.0


From a601f9f1dc07833d415ff1b592215e103b1dda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 59/75] fix: closing an environment after the death of a writer
 failed with MDBX_EBADSIGN and left out the final sync

---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index c1a4078..e276969 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8464,6 +8464,9 @@ __cold int mdbx_reader_list(const MDBX_env *env, MDBX_reader_list_func func, voi
 __cold int mdbx_reader_check(MDBX_env *env, int *dead) {
   if (dead)
     *dead = 0;
+  int rc = check_env(env, true);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
   return LOG_IFERR(mvcc_cleanup_dead(env, false, dead));
 }
 
@@ -28470,10 +28473,7 @@ static bool pid_insert(mdbx_pid_t *list, mdbx_pid_t pid) {
 }
 
 __cold int mvcc_cleanup_dead(MDBX_env *env, int rdt_locked, int *dead) {
-  int rc = check_env(env, true);
-  if (unlikely(rc != MDBX_SUCCESS))
-    return rc;
-
+  int rc = MDBX_SUCCESS;
   eASSERT0(env, rdt_locked >= 0);
   lck_t *const lck = env->lck_mmap.lck;
   if (unlikely(lck == nullptr)) {
-- 
2.43.0


From 0ca1d9832af3690e1ad6bbad0b243699abd41e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:33 +0000
Subject: [PATCH 60/75] fix: assertion failure in checked builds on starting a
 transaction when the upper limit of size is less than 20 pages

---
 mdbx.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index e276969..c2de2a3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19511,10 +19511,11 @@ dpl_t *txn_dpl_reserve(MDBX_txn *txn, size_t size) {
 int txn_dpl_alloc(MDBX_txn *txn) {
   cASSERT0(txn, (txn->flags & txn_ro_flat) == 0);
   cASSERT0(txn, (txn->flags & MDBX_WRITEMAP) == 0 || MDBX_AVOID_MSYNC);
-  const size_t wanna =
-      ((txn->flags & txn_ro_nested) == 0)
-          ? ((txn->env->options.dp_initial < txn->geo.upper) ? txn->env->options.dp_initial : txn->geo.upper)
-          : /* minimal */ CURSOR_STACK_SIZE;
+  size_t wanna = ((txn->flags & txn_ro_nested) == 0)
+                     ? ((txn->env->options.dp_initial < txn->geo.upper) ? txn->env->options.dp_initial : txn->geo.upper)
+                     : /* minimal */ CURSOR_STACK_SIZE;
+  if (wanna < CURSOR_STACK_SIZE) /* the upper limit of a database size could be just a few pages */
+    wanna = CURSOR_STACK_SIZE;
 #if MDBX_CHECKING > 0
   if (txn->wr.dirtylist)
     /* обнуляем чтобы не сработал ассерт внутри dpl_reserve() */
-- 
2.43.0


From 7611489ae099df6067f2cd054c93badfcd448691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 61/75] fix: a commit could discard memory behind the mapping
 of the database, i.e. zero memory of the process

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index c2de2a3..6911289 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21003,7 +21003,10 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
 #if defined(MADV_DONTNEED) || defined(POSIX_MADV_DONTNEED)
       const size_t discard_edge_pgno = pgno_ceil2os_pgno(env, largest_pgno);
       if (prev_discarded_pgno >= discard_edge_pgno + env->madv_threshold) {
-        const size_t prev_discarded_bytes = pgno_ceil2os_bytes(env, prev_discarded_pgno);
+        /* due to the alignment prev_discarded_pgno may be beyond of the mapping */
+        size_t prev_discarded_bytes = pgno_ceil2os_bytes(env, prev_discarded_pgno);
+        if (prev_discarded_bytes > env->dxb_mmap.limit)
+          prev_discarded_bytes = env->dxb_mmap.limit;
         const size_t discard_edge_bytes = pgno2bytes(env, discard_edge_pgno);
         /* из-за выравнивания prev_discarded_bytes и discard_edge_bytes
          * могут быть равны */
-- 
2.43.0


From 594a30186d312e50d715b8274cc76c6845554264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 62/75] fix: the end of a read transaction poisoned pages of
 the running write transaction (builds with ASAN or Valgrind)

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 6911289..564d365 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20334,6 +20334,9 @@ void dxb_sanitize_tail(MDBX_env *env, MDBX_txn *txn) {
     } else if (env_owned_wrtxn(env)) {
       /* inside write-txn */
       last = meta_recent(env, &env->basal_txn->wr.troika).ptr_v->geometry.first_unallocated;
+      for (const MDBX_txn *scan = env->txn; scan; scan = scan->parent)
+        if (last < scan->geo.first_unallocated)
+          last = scan->geo.first_unallocated;
     } else if (env->flags & MDBX_RDONLY) {
       /* read-only mode, no write-txn, no wlock mutex */
       last = NUM_METAS;
-- 
2.43.0


From 8224b39fef668e500011a03fb0f5cfa0ff4b66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:46 +0000
Subject: [PATCH 63/75] fix: a refused put fixed the length of keys of an empty
 table with integer keys

---
 mdbx.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 564d365..d95d138 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15912,8 +15912,6 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
     } else
       return MDBX_BAD_VALSIZE;
 
-    if (unlikely(mc->clc->k.lmin != mc->clc->k.lmax))
-      mc->clc->k.lmin = mc->clc->k.lmax = key->iov_len;
   }
   if (mc->tree->flags & MDBX_INTEGERDUP) {
     if (data->iov_len == 8) {
@@ -15943,10 +15941,18 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
       }
     } else
       return MDBX_BAD_VALSIZE;
-    if (unlikely(mc->clc->v.lmin != mc->clc->v.lmax))
-      mc->clc->v.lmin = mc->clc->v.lmax = data->iov_len;
   }
-  return cursor_put(mc, key, data, flags);
+
+  const size_t key_len = key->iov_len, data_len = data->iov_len;
+  const int rc = cursor_put(mc, key, data, flags);
+  if (likely(rc == MDBX_SUCCESS)) {
+    /* the lengths should be fixed only by an accepted item, but not by a refused one */
+    if ((mc->tree->flags & MDBX_INTEGERKEY) && unlikely(mc->clc->k.lmin != mc->clc->k.lmax))
+      mc->clc->k.lmin = mc->clc->k.lmax = key_len;
+    if ((mc->tree->flags & MDBX_INTEGERDUP) && unlikely(mc->clc->v.lmin != mc->clc->v.lmax))
+      mc->clc->v.lmin = mc->clc->v.lmax = data_len;
+  }
+  return rc;
 }
 
 __hot int cursor_del(MDBX_cursor *mc, unsigned flags) {
-- 
2.43.0


From 1f9cdd74a738666b4dc1315cfecb9d13006a481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 64/75] fix: replacing one of several values (MDBX_CURRENT)
 deleted the current value even if the new one was refused because of
 MDBX_NODUPDATA or MDBX_APPENDDUP

---
 mdbx.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index d95d138..21d1dc3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15160,6 +15160,30 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
          * отличается, то вместо обновления требуется удаление и
          * последующая вставка. */
         if (mc->subcur->nested_tree.items > 1 || current_data.iov_len != data->iov_len) {
+          if (unlikely(flags & (MDBX_NODUPDATA | MDBX_APPENDDUP)) && !(flags & MDBX_ALLDUPS) &&
+              mc->subcur->nested_tree.items > 1 && mc->clc->v.cmp(data, &current_data) != 0) {
+            /* Вставка может быть отвергнута, это требуется проверить до удаления текущего значения. */
+            cursor_couple_t couple;
+            MDBX_cursor *const probe = &cursor_clone_complete(mc, &couple)->subcur->cursor;
+            MDBX_val other = *data;
+            if (flags & MDBX_APPENDDUP) {
+              err = inner_last(probe, &other);
+              if (likely(err == MDBX_SUCCESS) && eq_fast(&other, &current_data))
+                err = inner_prev(probe, &other);
+              if (unlikely(err != MDBX_SUCCESS))
+                return err;
+              if (unlikely(mc->clc->v.cmp(data, &other) < 0))
+                return MDBX_EKEYMISMATCH;
+            }
+            if (flags & MDBX_NODUPDATA) {
+              other = *data;
+              const csr_t csr = cursor_seek(probe, &other, nullptr, MDBX_SET);
+              if (csr.err == MDBX_SUCCESS)
+                return MDBX_KEYEXIST;
+              if (unlikely(csr.err != MDBX_NOTFOUND))
+                return csr.err;
+            }
+          }
           err = cursor_del(mc, flags & MDBX_ALLDUPS);
           if (unlikely(err != MDBX_SUCCESS))
             return err;
-- 
2.43.0


From 83fca53100acb40b687530a5677053e2e5e1cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 65/75] fix: crashes of the integrity checker on a broken page
 reference or a broken record of the list of free pages

---
 mdbx.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 21d1dc3..f550cb7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -13303,10 +13303,12 @@ __cold static int chk_handle_gc(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
       size_t number = (data->iov_len >= sizeof(pgno_t) && (size_t)data->iov_base % sizeof(pgno_t) == 0) ? *pnl : 0;
       if (number > PAGELIST_LIMIT)
         chk_object_issue(scope, "entry", txnid, "wrong idl length", "%" PRIuPTR, number);
-      else if ((number + 1) * sizeof(pgno_t) > data->iov_len) {
+      bool trimmed = false;
+      if ((number + 1) * sizeof(pgno_t) > data->iov_len) {
         chk_object_issue(scope, "entry", txnid, "trimmed idl", "%" PRIuSIZE " > %" PRIuSIZE " (corruption)",
                          (number + 1) * sizeof(pgno_t), data->iov_len);
         number = data->iov_len / sizeof(pgno_t) - 1;
+        trimmed = true;
       } else if (data->iov_len - (number + 1) * sizeof(pgno_t) >=
                  /* LY: allow gap up to two page. it is ok
                   * and better than shrink-and-retry inside gc_update() */
@@ -13357,9 +13359,9 @@ __cold static int chk_handle_gc(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
       if (tbl->cookie) {
         chk_line_end(chk_print(chk_line_begin(scope, MDBX_chk_details),
                                "transaction %" PRIaTXN ", %" PRIuSIZE " pages, maxspan %" PRIuSIZE "%s", txnid, number,
-                               pnl_maxspan(pnl), bad));
+                               (number && !trimmed) ? pnl_maxspan(pnl) : 0, bad));
         for (size_t span, i = 1; i <= number; i += span) {
-          span = pnl_scan_span(pnl, i);
+          span = trimmed ? 1 : pnl_scan_span(pnl, i);
           const size_t pgno = pnl[i];
           histogram_acc(span, &tbl->histogram.nested_height_or_gc_span_length);
           MDBX_chk_line_t *line = chk_line_begin(scope, MDBX_chk_extra);
@@ -41773,8 +41775,8 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
     }
   }
 
-  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp->txnid, err, nentries,
-                        payload_size, header_size, unused_size + align_bytes, parent_pgno);
+  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp ? mp->txnid : 0, err,
+                        nentries, payload_size, header_size, unused_size + align_bytes, parent_pgno);
   if (unlikely(rc != MDBX_SUCCESS))
     return rc;
 
@@ -41809,8 +41811,8 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
       const size_t npages = ((err = lp.err) == MDBX_SUCCESS) ? lp.page->pages : 1;
       const size_t pagesize = pgno2bytes(ctx->txn->env, npages);
       const size_t over_unused = pagesize - over_payload - over_header;
-      rc = ctx->visitor(large_pgno, npages, ctx->userctx, ctx->deep + 1, tbl, pagesize, page_large, lp.page->txnid, err,
-                        1, over_payload, over_header, over_unused, pgno);
+      rc = ctx->visitor(large_pgno, npages, ctx->userctx, ctx->deep + 1, tbl, pagesize, page_large,
+                        lp.page ? lp.page->txnid : 0, err, 1, over_payload, over_header, over_unused, pgno);
       if (unlikely(rc != MDBX_SUCCESS))
         return rc;
     } break;
-- 
2.43.0


From 3998f874b02be81c0ea45fbea2070ff1716599ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 66/75] fix: the integrity checker did not notice items which
 are out of range of the keys of parent branch pages

---
 mdbx.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index f550cb7..d13a6e7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -12970,6 +12970,28 @@ __cold static int chk_handle_kv(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
   return err ? err : chk_check_break(scope);
 }
 
+/* Проверяет что ключ в текущей позиции курсора попадает в диапазоны, задаваемые ключами branch-страниц,
+ * т.е. может быть найден посредством поиска от корня дерева. */
+__cold static bool chk_reachable(const MDBX_cursor *const mc, const MDBX_val *const key) {
+  const size_t last = page_numkeys(mc->pg[mc->top]) - 1;
+  if (mc->ki[mc->top] == 0 || mc->ki[mc->top] == last)
+    for (intptr_t level = 0; level < mc->top; ++level) {
+      const page_t *const mp = mc->pg[level];
+      const size_t i = mc->ki[level];
+      if (i > 0) {
+        const MDBX_val lo = get_key(page_node(mp, i));
+        if (unlikely(mc->clc->k.cmp(key, &lo) < 0))
+          return false;
+      }
+      if (i + 1 < page_numkeys(mp)) {
+        const MDBX_val hi = get_key(page_node(mp, i + 1));
+        if (unlikely(mc->clc->k.cmp(key, &hi) >= 0))
+          return false;
+      }
+    }
+  return true;
+}
+
 __cold static int chk_db(MDBX_chk_scope_t *const scope, MDBX_dbi dbi, MDBX_chk_table_t *tbl, chk_kv_visitor *handler) {
   MDBX_chk_internal_t *const chk = scope->internal;
   MDBX_chk_context_t *const usr = chk->usr;
@@ -13178,6 +13200,13 @@ __cold static int chk_db(MDBX_chk_scope_t *const scope, MDBX_dbi dbi, MDBX_chk_t
       prev_data = data;
     }
 
+    if ((chk->flags & MDBX_CHK_IGNORE_ORDER) == 0) {
+      if (!bad_key && !chk_reachable(cursor, &key))
+        chk_object_issue(scope, "entry", record_count, "key is out of range of the parent branch", nullptr);
+      if (!bad_data && inner_pointed(cursor) && !chk_reachable(&cursor->subcur->cursor, &data))
+        chk_object_issue(scope, "entry", record_count, "multi-value is out of range of the parent branch", nullptr);
+    }
+
     record_count++;
     histogram_acc(key.iov_len, &tbl->histogram.key_len);
     histogram_acc(data.iov_len, &tbl->histogram.val_len);
-- 
2.43.0


From 62e7a7f05532a88d802c6604ed334de3c1239933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 67/75] fix: the integrity checker did not notice wrong
 counters of nested trees of multi-values

---
 mdbx.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index d13a6e7..68a80eb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3701,6 +3701,10 @@ typedef struct walk_ctx {
   walk_func *visitor;
   MDBX_txn *txn;
   MDBX_cursor *cursor;
+  struct {
+    pgno_t branch_pages, leaf_pages;
+    uint64_t items;
+  } nested /* counters of the current dupsort sub-tree */;
 } walk_ctx_t;
 
 MDBX_INTERNAL int walk_tbl(walk_ctx_t *ctx, walk_tbl_t *tbl, pgno_t parent_page);
@@ -41691,6 +41695,15 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
 
   const page_type_t type = walk_page_type(mp);
   const size_t nentries = mp ? page_numkeys(mp) : 0;
+  if (err == MDBX_SUCCESS && tbl->nested) {
+    if (type == page_branch)
+      ctx->nested.branch_pages += 1;
+    else {
+      ctx->nested.leaf_pages += 1;
+      ctx->nested.items += nentries;
+    }
+  }
+
   size_t header_size = (mp && !is_dupfix_leaf(mp)) ? PAGEHDRSZ + mp->lower : PAGEHDRSZ;
   size_t payload_size = 0;
   size_t unused_size = (mp ? page_room(mp) : ctx->txn->env->ps - header_size) - payload_size;
@@ -41881,6 +41894,8 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
           ctx->cursor = &ctx->cursor->subcur->cursor;
           ctx->deep += 1;
           tbl->nested = &aligned_db;
+          ctx->nested.branch_pages = ctx->nested.leaf_pages = 0;
+          ctx->nested.items = 0;
           rc = walk_pgno(ctx, tbl, aligned_db.root, mp->txnid, pgno);
           tbl->nested = nullptr;
           ctx->deep -= 1;
@@ -41889,6 +41904,11 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
           ctx->cursor = &couple->outer;
           if (unlikely(rc != MDBX_SUCCESS))
             return rc;
+          if (unlikely(ctx->nested.items != aligned_db.items || ctx->nested.branch_pages != aligned_db.branch_pages ||
+                       ctx->nested.leaf_pages != aligned_db.leaf_pages || aligned_db.large_pages)) {
+            ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "wrong counters of the dupsort sub-tree");
+            err = MDBX_CORRUPTED;
+          }
         }
       }
       break;
-- 
2.43.0


From f65e778f017e8baed3743402f44335b008878f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 68/75] fix: corrupted records of the list of free pages were
 noticed only if logging of errors is enabled

---
 mdbx.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 68a80eb..882dc94 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8644,13 +8644,15 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
     txn->cursors[FREE_DBI] = &cx.outer;
     for (;;) {
       if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-        ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+        rc = MDBX_CORRUPTED;
+        ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
         break;
       }
 
       const glr_t glr = gc_row_pnl(txn, gc_data);
       if (unlikely(glr.err != MDBX_SUCCESS)) {
-        ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+        rc = glr.err;
+        ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
         break;
       }
 
@@ -18296,12 +18298,14 @@ static int defrag_load_gc(dfc_t *dfc) {
   int rc = outer_first(gc, &gc_key, &gc_data);
   while (rc == MDBX_SUCCESS) {
     if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+      rc = MDBX_CORRUPTED;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
       break;
     }
     const glr_t glr = gc_row_pnl(txn, gc_data);
     if (unlikely(glr.err != MDBX_SUCCESS)) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+      rc = glr.err;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
       break;
     }
     const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
@@ -18383,7 +18387,8 @@ static int defrag_clear_reclaimed(dfc_t *dfc) {
         if (unlikely(rc != MDBX_SUCCESS))
           break;
         if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-          ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+          rc = MDBX_CORRUPTED;
+          ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
           break;
         }
 
@@ -18497,12 +18502,14 @@ __cold static int defrag_gc_lookup_page(dfc_t *dfc, pgno_t pgno, txnid_t *id) {
   int rc = outer_first(gc, &gc_key, &gc_data);
   while (rc == MDBX_SUCCESS) {
     if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+      rc = MDBX_CORRUPTED;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
       break;
     }
     const glr_t glr = gc_row_pnl(txn, gc_data);
     if (unlikely(glr.err != MDBX_SUCCESS)) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+      rc = glr.err;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
       break;
     }
 
@@ -22874,7 +22881,8 @@ const char *gc_check_rowdata(const MDBX_txn *const txn, const MDBX_val data) {
 glr_t gc_row_pnl(const MDBX_txn *const txn, const MDBX_val data) {
   glr_t result = {.pnl = (const pgno_t *)data.iov_base, .err = MDBX_SUCCESS, .reason = gc_check_rowdata(txn, data)};
   if (unlikely(result.reason)) {
-    ERROR("%s/%d: %s", "MDBX_CORRUPTED", result.err = MDBX_CORRUPTED, result.reason);
+    result.err = MDBX_CORRUPTED;
+    ERROR("%s/%d: %s", "MDBX_CORRUPTED", result.err, result.reason);
     result.pnl = nullptr;
   }
   return result;
@@ -23018,7 +23026,8 @@ next_gc:
     goto depleted_gc;
   }
   if (unlikely(gc_check_keylen(key.iov_len))) {
-    ERROR("%s/%d: %s", "corrupted GC-record", ret.err = MDBX_CORRUPTED, gc_check_keylen(key.iov_len));
+    ret.err = MDBX_CORRUPTED;
+    ERROR("%s/%d: %s", "corrupted GC-record", ret.err, gc_check_keylen(key.iov_len));
     goto fail;
   }
 
@@ -23048,7 +23057,8 @@ next_gc:
 
   const glr_t glr = gc_row_pnl(txn, data);
   if (unlikely(glr.err != MDBX_SUCCESS)) {
-    ERROR("%s/%d: %s", "corrupted GC-record", ret.err = glr.err, glr.reason);
+    ret.err = glr.err;
+    ERROR("%s/%d: %s", "corrupted GC-record", ret.err, glr.reason);
     goto fail;
   }
 
-- 
2.43.0


From b1ff577efe95f46082b18702878e9ffdaa24b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 69/75] fix: a database of an incompatible version was reported
 as invalid if its page size differs from the system one

---
 mdbx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 882dc94..628e9fa 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20114,9 +20114,13 @@ __cold int dxb_read_header(MDBX_env *env, meta_t *dest, const int lck_exclusive,
 
     page_t *const page = (page_t *)buffer;
     meta_t *const meta = page_meta(page);
-    rc = meta_validate(env, meta, page, meta_number, &guess_pagesize);
-    if (rc != MDBX_SUCCESS)
+    const int err = meta_validate(env, meta, page, meta_number, &guess_pagesize);
+    if (err != MDBX_SUCCESS) {
+      if (rc != MDBX_VERSION_MISMATCH)
+        rc = err;
       continue;
+    }
+    rc = MDBX_SUCCESS;
 
     bool latch;
     if (env->stuck_meta >= 0)
-- 
2.43.0


From ddb1ec9bc7d7b05c93ef5d12461fab107d8b169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:12 +0000
Subject: [PATCH 70/75] fix: mdbx_gc_info hung inside a write transaction which
 has reclaimed pages and ignored the result of the user's callback

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 628e9fa..cc21276 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8658,7 +8658,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
 
       const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
       if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
-        continue;
+        goto next;
 
       const size_t len = pnl_size(glr.pnl);
       const bool is_reclaimable = id <= reclaiming_detent;
@@ -8675,16 +8675,18 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         if (iter_func) {
           rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
           if (rc != MDBX_RESULT_FALSE)
-            break;
+            goto done;
         }
       }
 
+    next:
       rc = outer_next(&cx.outer, &gc_key, &gc_data, MDBX_NEXT);
       if (rc != MDBX_SUCCESS) {
         rc = (rc == MDBX_NOTFOUND) ? MDBX_SUCCESS : rc;
         break;
       }
     }
+  done:
     txn->cursors[FREE_DBI] = cx.outer.next;
   }
   return LOG_IFERR(rc);
-- 
2.43.0


From 2a23ed627011b745c53aef275628ecf3d2fbf872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 71/75] fix: compacting copy of a damaged database crashed on
 recursion of tables or uneven depth, and estimation crashed on zero counters

---
 mdbx.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index cc21276..81fc969 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4731,6 +4731,7 @@ typedef struct compacting_context {
    * to fail the copy.  Not mutex-protected, expects atomic int. */
   volatile int error;
   mdbx_filehandle_t fd;
+  const tree_t *main;
 } ctx_t;
 
 __cold static int compacting_walk_tree(ctx_t *ctx, tree_t *tree);
@@ -4940,6 +4941,11 @@ __cold static int compacting_walk(ctx_t *ctx, MDBX_cursor *mc, pgno_t *const par
               }
             } else {
               cASSERT0(mc, (mc->flags & z_inner) == 0 && mc->subcur == 0);
+              if (unlikely(mc->tree != ctx->main)) {
+                ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "a table record inside a named table");
+                rc = MDBX_CORRUPTED;
+                goto bailout;
+              }
               cursor_couple_t *couple = container_of(mc, cursor_couple_t, outer);
               nested = &couple->inner.nested_tree;
               memcpy(nested, node_data(node), sizeof(tree_t));
@@ -4965,6 +4971,11 @@ __cold static int compacting_walk(ctx_t *ctx, MDBX_cursor *mc, pgno_t *const par
             goto bailout;
           }
           mc->ki[mc->top] = 0;
+          if (unlikely(is_branch(mp) == (mc->top + 1 == deep_limit))) {
+            ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "uneven depth of a b-tree");
+            rc = MDBX_CORRUPTED;
+            goto bailout;
+          }
           if (!is_branch(mp)) {
             mc->pg[mc->top] = mp;
             break;
@@ -5149,6 +5160,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
           rc = mdbx_txn_unpark(txn, false);
         meta->trees.main.root = txn->dbs[MAIN_DBI].root;
       }
+      ctx.main = &meta->trees.main;
       if (likely(rc == MDBX_SUCCESS))
         rc = compacting_walk_tree(&ctx, &meta->trees.main);
       if (ctx.write_len[ctx.head & 1])
@@ -10375,6 +10387,9 @@ __hot static ptrdiff_t estimate(const tree_t *tree, diff_t *const __restrict dr)
   if (btree_power < 0)
     return dr->diff;
 
+  if (unlikely(tree->leaf_pages == 0 || tree->branch_pages == 0 || dr->root_nkeys == 0))
+    return dr->diff /* the counters are corrupted */;
+
   ptrdiff_t estimated = (ptrdiff_t)tree->items * dr->diff / (ptrdiff_t)tree->leaf_pages;
   if (btree_power == 0)
     return estimated;
-- 
2.43.0


From 68426ceacc34bc18d4d1c33fdd03a8d102ae5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 72/75] fix: mdbx_replace with an empty present value looked at
 the next page

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 81fc969..0c12a4a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11074,7 +11074,8 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
 
       /* Leaf-страница может быть чистой или вытесненной (spilled), а сами данные при этом находиться
        * в грязной large/overflow-странице, которая будет освобождена при обновлении/удалении. */
-      if (is_modifable(txn, page) || mdbx_is_dirty(txn, present_data.iov_base) == MDBX_RESULT_TRUE) {
+      if (is_modifable(txn, page) ||
+          (present_data.iov_len && mdbx_is_dirty(txn, present_data.iov_base) == MDBX_RESULT_TRUE)) {
         if (new_data && eq_fast(&present_data, new_data)) {
           /* если данные совпадают, то ничего делать не надо */
           *old_data = *new_data;
-- 
2.43.0


From 0d6683b7005799ff090ae1b174d2ae5ed2f33c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 73/75] fix: validation of a page read beyond it if a key of a
 nested page is out of range

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0c12a4a..43cab1f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -32978,6 +32978,10 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
               const char *const sub_key = node_key(sub_node);
               const size_t sub_dsize = node_ds(sub_node);
               /* char *sub_data = node_data(sub_node); */
+              if (unlikely(end_of_subpage < sub_key + sub_ksize)) {
+                rc = bad_page(mp, "nested-node-key beyond (%zu) nested-page\n", sub_key + sub_ksize - end_of_subpage);
+                continue;
+              }
 
               if (unlikely(sub_ksize < v_clc.lmin || sub_ksize > v_clc.lmax))
                 rc = bad_page(mp,
@@ -32994,8 +32998,6 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
               }
               if (unlikely(sub_dsize != 0))
                 rc = bad_page(mp, "nested-node non-empty data size (%zu)\n", sub_dsize);
-              if (unlikely(end_of_subpage < sub_key + sub_ksize))
-                rc = bad_page(mp, "nested-node-key beyond (%zu) nested-page\n", sub_key + sub_ksize - end_of_subpage);
             }
           }
         }
-- 
2.43.0


From 22a46952ca8bd072ef002759eece16d813572a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 74/75] fix: wrong assertions in cached lookups (an empty
 value, a table higher than one page, a mapping not aligned to the page size)

---
 mdbx.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 43cab1f..5e0dd1a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -2152,8 +2152,9 @@ MDBX_NOTHROW_PURE_FUNCTION MDBX_MAYBE_UNUSED static inline const page_t *ptr2pag
                                                                                   const void *ptr) {
   eASSERT0(env,
            ptr_dist(ptr, env->dxb_mmap.base) >= 0 && (size_t)ptr_dist(ptr, env->dxb_mmap.base) < env->dxb_mmap.limit);
-  const uintptr_t mask = env->ps - 1;
-  return (page_t *)((uintptr_t)ptr & ~mask);
+  /* the base of a mapping may be not aligned to the page size */
+  const size_t mask = env->ps - (size_t)1;
+  return ptr_disp(env->dxb_mmap.base, ptr_dist(ptr, env->dxb_mmap.base) & ~mask);
 }
 
 MDBX_NOTHROW_PURE_FUNCTION static inline meta_t *page_meta(page_t *mp) { return (meta_t *)page2payload(mp); }
@@ -8924,14 +8925,14 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
       /* cache hit fast-path */
       data->iov_base = ptr_disp(txn->env->dxb_mmap.base, entry->offset);
       data->iov_len = entry->length;
-      tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+      tASSERT1(txn, !entry->length || is_inside_dxb_and_commited(txn, data->iov_base));
       return cache_result(MDBX_SUCCESS, MDBX_CACHE_HIT);
     }
 
     if (txn->txnid == entry->last_confirmed_txnid || txn->txnid == entry->trunk_txnid) {
       data->iov_base = nullptr;
       data->iov_len = 0;
-      tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+      tASSERT1(txn, !entry->length || is_inside_dxb_and_commited(txn, data->iov_base));
       return cache_result(MDBX_NOTFOUND, MDBX_CACHE_HIT);
     }
 
@@ -8983,12 +8984,12 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
   if (trunk_txnid <= entry->last_confirmed_txnid) {
     /* the corresponding table has not been changed since the last check. */
     cASSERT0(txn, (txn->dbi_state[dbi] & DBI_DIRTY) == 0);
-    cASSERT0(txn, trunk_txnid == entry->trunk_txnid);
+    cASSERT0(txn, trunk_txnid >= entry->trunk_txnid);
   confirmed:
     cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid <= entry->last_confirmed_txnid);
     data->iov_base = entry->offset ? ptr_disp(txn->env->dxb_mmap.base, entry->offset) : nullptr;
     data->iov_len = entry->length;
-    tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+    tASSERT1(txn, !entry->length || is_inside_dxb_and_commited(txn, data->iov_base));
     if (entry->last_confirmed_txnid == committed_snapshot_txnid)
       return cache_result(data->iov_base ? MDBX_SUCCESS : MDBX_NOTFOUND, MDBX_CACHE_HIT);
     entry->last_confirmed_txnid = committed_snapshot_txnid;
@@ -9136,7 +9137,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
     return cache_result(MDBX_SUCCESS, MDBX_CACHE_DIRTY);
   }
 
-  tASSERT0(txn, is_inside_dxb_and_commited(txn, data->iov_base));
+  tASSERT0(txn, !data->iov_len || is_inside_dxb_and_commited(txn, data->iov_base));
   cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid > entry->last_confirmed_txnid &&
                     trunk_txnid > entry->trunk_txnid);
   entry->offset = ptr_dist(data->iov_base, txn->env->dxb_mmap.base);
-- 
2.43.0


From e8f80111f3c30594fad6a089163b0377853be7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 75/75] fix: a cached lookup returned a deleted value or missed
 an existing one after deletion of the whole page with the key

---
 mdbx.c | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5e0dd1a..34a15c1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8894,9 +8894,17 @@ static inline MDBX_cache_result_t cache_fallback(const MDBX_txn *txn, MDBX_dbi d
   return result;
 }
 
-static inline bool is_afterlast(MDBX_cursor *mc, const page_t *mp, const MDBX_val *key) {
-  MDBX_val last = get_key(page_node(mp, page_numkeys(mp) - 1));
-  return mc->clc->k.cmp(key, &last) > 0;
+/* Checks whether the key is not between the first and the last keys of the page. Then the key could have been placed
+ * on a sibling page which is deleted now, i.e. without any change of the given page. */
+static inline bool is_outside_page(MDBX_cursor *mc, const page_t *mp, const MDBX_val *key) {
+  const size_t nkeys = page_numkeys(mp), first = is_branch(mp) /* the first key of branch-page is implicit */;
+  if (nkeys <= first)
+    return true;
+  MDBX_val edge = get_key(page_node(mp, nkeys - 1));
+  if (mc->clc->k.cmp(key, &edge) > 0)
+    return true;
+  edge = get_key(page_node(mp, first));
+  return mc->clc->k.cmp(key, &edge) < 0;
 }
 
 __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data,
@@ -9026,15 +9034,9 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
       if (!entry->offset) {
         /* Ключа не было и он не мог быть добавлен без изменения страницы. */
       notfound_elevate_trunk:
-        if (trunk_txnid > entry->trunk_txnid)
-          goto not_found;
-        for (intptr_t i = cx.outer.top - 1; i >= 0; --i) {
-          trunk_txnid = cx.outer.pg[i]->txnid;
-          if (trunk_txnid > entry->trunk_txnid)
-            goto not_found;
-        }
-        trunk_txnid = txn->dbs[dbi].mod_txnid ? txn->dbs[dbi].mod_txnid : txn->front_txnid;
-        cASSERT0(txn, trunk_txnid > entry->trunk_txnid);
+        /* Искомый ключ мог быть размещен на соседней странице, удаленной без изменения текущей страницы и ведущих
+         * к ней, кроме корневой. Поэтому об отсутствии ключа достоверно свидетельствует только версия корня. */
+        trunk_txnid = tbl_root_txnid(txn, dbi);
         goto not_found;
       }
       if (mp->txnid < entry->trunk_txnid) {
@@ -9045,7 +9047,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
 
       /* Искомый ключ больше или равен первому на этой странице и меньше следующего с родительской,
        * но может быть больше последнего ключа на этой странице. */
-      if (!is_afterlast(&cx.outer, mp, &aligned.key)) {
+      if (!is_outside_page(&cx.outer, mp, &aligned.key)) {
         /* Следовательно, если ключ не-больше последнего на этой страницы,
          * то он не мог быть изменен или удалён. */
         trunk_txnid = mp->txnid;
@@ -9090,7 +9092,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
     /* Искомый ключ больше или равен первому на этой странице и меньше следующего с родительской,
      * но может быть больше последнего ключа на этой странице. Страница не была обновлена после
      * последней проверки наличия ключа. */
-    if (!is_afterlast(&cx.outer, mp, &aligned.key)) {
+    if (!is_outside_page(&cx.outer, mp, &aligned.key)) {
       /* Следовательно, если ключ не-больше последнего на этой страницы,
        * то он не мог быть изменен или удалён. */
       trunk_txnid = mp->txnid;
@@ -9109,15 +9111,10 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
 
   sfr_t sfr = tree_search_foliage(&cx.outer, &aligned.key);
   if (!sfr.exact) {
+    /* Искомый ключ может быть размещен и вне текущей листовой страницы, в том числе в прошлом на соседней странице,
+     * которая удалена без изменения текущей. Поэтому об отсутствии ключа достоверно свидетельствует только версия корня. */
+    trunk_txnid = tbl_root_txnid(txn, dbi);
     cASSERT0(txn, !entry->offset || trunk_txnid > entry->trunk_txnid);
-    if (sfr.node)
-      /* Обновлять метку trunk_txnid можно только если искомый ключ должен был находится на текущей листовой странице,
-       * но не в случае когда он болмьше последнего. Тогда trunk_txnid будет связан с родительской страницей и при
-       * добавлении искомого ключа этом изменение можно будет отследить. Иначе trunk_txnid будет связан с текущей
-       * листовой страницей, которая может не измениться при добавлении искомого ключа, так как он больше последнего
-       * на этой странице и может быть добавлен в следующую страницу справа. Такое несоответствие может стать причиной
-       * пропуска изменений и/или выдачи неверного результата. */
-      trunk_txnid = mp->txnid;
     goto not_found;
   }
 
-- 
2.43.0

