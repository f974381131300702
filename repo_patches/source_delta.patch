From b70f5c9a28a30665cfea08bece6bc6d7a25d0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 01/11] fix: skip the tail past a failed block when recovery
 completes

If a block failed while the tail was in the middle of it, the tail was
left pointing into the failed block. Garbage collection then tried to
read metadata from the group which failed to program, so every later
gc, sync and write failed with E_ECC.
---
 dhara/journal.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..a57ad1f 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -768,7 +768,6 @@ static void finish_recovery(struct dhara_journal *j)
 		dhara_nand_mark_bad(j->nand,
 			j->recover_meta >> j->nand->log2_ppb);
 
-	/* Was the tail on this page? Skip it forward */
 	clear_recovery(j);
 }
 
@@ -776,6 +775,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		     dhara_error_t *err)
 {
 	const dhara_page_t old_head = j->head;
+	dhara_page_t new_tail = j->tail;
 	dhara_error_t my_err;
 	const size_t offset =
 		hdr_user_offset(j->head & ((1 << j->log2_ppc) - 1));
@@ -795,12 +795,21 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
+	/* If this checkpoint completes a recovery, then the failed block
+	 * no longer holds anything we need. If the tail was on that
+	 * block, skip it forward -- metadata there might be unreadable.
+	 */
+	if ((j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
+	    align_eq(new_tail, j->recover_root, j->nand->log2_ppb))
+		new_tail = next_block(j->nand,
+			new_tail >> j->nand->log2_ppb) << j->nand->log2_ppb;
+
 	/* We don't need to check for immediate recover, because that'll
 	 * never happen -- we're not block-aligned.
 	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
-	hdr_set_tail(j->page_buf, j->tail);
+	hdr_set_tail(j->page_buf, new_tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
@@ -809,6 +818,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
+	j->tail = new_tail;
 	j->root = old_head;
 	j->head = next_upage(j, j->head);
 
-- 
2.43.0


From 97c084058d0d5f2b052f81e08df896d0281af444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 02/11] fix: don't rescue pages from a block which holds none
 when another fails

If a page failed to program in the middle of a block which contained no
part of the journal, recovery worked on the wrong block. With an empty
journal (after clear, or deletion of the last sector) the recovery root
was DHARA_PAGE_NONE, so that the enumeration ran over non-existent pages
and ended in reads outside the chip, an endless loop, or marking bad a
non-existent block. After a power loss in the first checkpoint group of
a block, the root was still in the preceding (good) block, which was
then marked bad instead of the failed one.
---
 dhara/journal.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index a57ad1f..d53c1eb 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -647,6 +647,22 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 	return -1;
 }
 
+/* Begin (or restart) the enumeration of pages to be rescued from the
+ * failed block. If the failed block contains no part of the journal,
+ * there's nothing to enumerate, and all that's required is another
+ * checkpoint.
+ */
+static void start_enum(struct dhara_journal *j, dhara_page_t failed_page)
+{
+	if ((j->recover_root != DHARA_PAGE_NONE) &&
+	    align_eq(j->recover_root, failed_page, j->nand->log2_ppb))
+		j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
+	else
+		j->flags |= DHARA_JOURNAL_F_ENUM_DONE;
+
+	j->recover_next = failed_page & ~((1 << j->nand->log2_ppb) - 1);
+}
+
 static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 {
 	/* Mark the current head bad immediately, unless we're also
@@ -664,9 +680,7 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	 * destination enumeration to the newly found good
 	 * block.
 	 */
-	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
-	j->recover_next =
-		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+	start_enum(j, j->recover_next);
 
 	j->root = j->recover_root;
 }
@@ -740,11 +754,11 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	j->recover_root = j->root;
-	j->recover_next =
-		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+	start_enum(j, old_head);
 
 	/* Are we holding buffered metadata? Dump it first. */
-	if (!is_aligned(old_head, j->log2_ppc) &&
+	if (!(j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
+	    !is_aligned(old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
@@ -759,7 +773,7 @@ static void finish_recovery(struct dhara_journal *j)
 	 * block as bad.
 	 */
 	dhara_nand_mark_bad(j->nand,
-		j->recover_root >> j->nand->log2_ppb);
+		j->recover_next >> j->nand->log2_ppb);
 
 	/* If we had to dump metadata, and the page on which we
 	 * did this also went bad, mark it bad too.
@@ -800,7 +814,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 	 * block, skip it forward -- metadata there might be unreadable.
 	 */
 	if ((j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
-	    align_eq(new_tail, j->recover_root, j->nand->log2_ppb))
+	    align_eq(new_tail, j->recover_next, j->nand->log2_ppb))
 		new_tail = next_block(j->nand,
 			new_tail >> j->nand->log2_ppb) << j->nand->log2_ppb;
 
-- 
2.43.0


From 9aed509901f368c47135d5969e105ea14fe5f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 03/11] fix: don't report success when the first checkpoint of
 a block fails

With one user page per checkpoint group, the head may be block-aligned
while a checkpoint is programmed. Immediate recovery then returned
success, although the user page was left behind in the bad block.
---
 dhara/journal.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index d53c1eb..60b9357 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -818,17 +818,23 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		new_tail = next_block(j->nand,
 			new_tail >> j->nand->log2_ppb) << j->nand->log2_ppb;
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, new_tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		if (recover_from(j, my_err, err) < 0)
+			return -1;
+
+		/* If checkpoint groups hold a single user page, we may
+		 * still be block-aligned. There's nothing to recover in
+		 * that case, but the user page must be written again.
+		 */
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
-- 
2.43.0


From 45b6a28ceaf86c0a762a7e413bbc728b1264c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 04/11] fix: look for the next free page in the last checkpoint
 group itself

With one user page per checkpoint group, the search for the head started
in the group after the last one, and took the contents left over in the
next block from before its last erasure for part of the journal.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 60b9357..65ec650 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From f73fc243e85bce7fb241c337dce466d2ba767ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 05/11] fix: find the source of a sector copy after collecting
 garbage

Garbage collection may move the source sector and erase the block it was
found in, if the garbage collection ratio is large.
---
 dhara/map.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..dd093c5 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -394,18 +394,41 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 			  dhara_sector_t dst, dhara_error_t *err)
 {
-	dhara_error_t my_err;
-	dhara_page_t p;
+	for (;;) {
+		uint8_t meta[DHARA_META_SIZE];
+		dhara_error_t my_err;
+		dhara_page_t p;
+		const dhara_sector_t old_count = m->count;
 
-	if (dhara_map_find(m, src, &p, &my_err) < 0) {
-		if (my_err == DHARA_E_NOT_FOUND)
-			return dhara_map_trim(m, dst, err);
+		if (dhara_map_find(m, src, &p, &my_err) < 0) {
+			if (my_err == DHARA_E_NOT_FOUND)
+				return dhara_map_trim(m, dst, err);
 
-		dhara_set_error(err, my_err);
-		return -1;
+			dhara_set_error(err, my_err);
+			return -1;
+		}
+
+		if (prepare_write(m, dst, meta, err) < 0)
+			return -1;
+
+		/* The source might have just been moved by garbage
+		 * collection, and its old page erased.
+		 */
+		if (dhara_map_find(m, src, &p, err) < 0) {
+			m->count = old_count;
+			return -1;
+		}
+
+		if (!dhara_journal_copy(&m->journal, p, meta, &my_err))
+			break;
+
+		m->count = old_count;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
 	}
 
-	return dhara_map_copy_page(m, p, dst, err);
+	return 0;
 }
 
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
-- 
2.43.0


From 56a29fdc2b073ff0f5fa40607a4ecd3d5136eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 06/11] fix: don't dump metadata which isn't there when a block
 fails after resume

After resuming part-way through a checkpoint group in which nothing has
been written, the last page written is in an earlier group. If the block
then failed, its metadata was looked up in the empty dump, and the
contents of the map were lost.
---
 dhara/journal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 65ec650..4560d97 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -754,9 +754,12 @@ static int recover_from(struct dhara_journal *j,
 	j->recover_root = j->root;
 	start_enum(j, old_head);
 
-	/* Are we holding buffered metadata? Dump it first. */
+	/* Are we holding buffered metadata? Dump it first. Note that if
+	 * we've just resumed, we might be part-way through a checkpoint
+	 * group without having written anything there yet.
+	 */
 	if (!(j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
-	    !is_aligned(old_head, j->log2_ppc) &&
+	    align_eq(j->recover_root, old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From a6cd8af868d596369bba9b5f15193a6218a0c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 07/11] fix: check for a full journal again after skipping a
 bad block

---
 dhara/journal.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 4560d97..24f5fac 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -614,25 +614,27 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 /* Make sure the head pointer is on a ready-to-program page. */
 static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 {
-	const dhara_page_t next = next_upage(j, j->head);
 	int i;
 
-	/* We can't write if doing so would cause the head pointer to
-	 * roll onto the same block as the last-synced tail.
-	 */
-	if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
-	    !align_eq(next, j->head, j->nand->log2_ppb)) {
-		dhara_set_error(err, DHARA_E_JOURNAL_FULL);
-		return -1;
-	}
-
-	j->flags |= DHARA_JOURNAL_F_DIRTY;
-	if (!is_aligned(j->head, j->nand->log2_ppb))
-		return 0;
-
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
+		const dhara_page_t next = next_upage(j, j->head);
 		const dhara_block_t blk = j->head >> j->nand->log2_ppb;
 
+		/* We can't write if doing so would cause the head
+		 * pointer to roll onto the same block as the
+		 * last-synced tail. This needs to be checked again
+		 * whenever we've skipped a bad block.
+		 */
+		if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
+		    !align_eq(next, j->head, j->nand->log2_ppb)) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
+
+		j->flags |= DHARA_JOURNAL_F_DIRTY;
+		if (!is_aligned(j->head, j->nand->log2_ppb))
+			return 0;
+
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-- 
2.43.0


From a57f0c917ccfadd0eb7d76c1f7852ed33abd4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 08/11] fix: keep the journal clean when it refuses a page
 because it is full

---
 dhara/journal.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 24f5fac..2dc0ac2 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -631,12 +631,19 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->flags |= DHARA_JOURNAL_F_DIRTY;
-		if (!is_aligned(j->head, j->nand->log2_ppb))
+		/* Don't mark the journal dirty until we have somewhere
+		 * to write. Otherwise, if the journal turns out to be
+		 * full, dequeuing would never make space available.
+		 */
+		if (!is_aligned(j->head, j->nand->log2_ppb)) {
+			j->flags |= DHARA_JOURNAL_F_DIRTY;
 			return 0;
+		}
 
-		if (!dhara_nand_is_bad(j->nand, blk))
+		if (!dhara_nand_is_bad(j->nand, blk)) {
+			j->flags |= DHARA_JOURNAL_F_DIRTY;
 			return dhara_nand_erase(j->nand, blk, err);
+		}
 
 		j->bb_current++;
 		if (skip_block(j, err) < 0)
-- 
2.43.0


From 9dc014245219be3c745ca71e286dbaf75d9b57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 09/11] fix: don't return the head as the oldest page of an
 empty journal

---
 dhara/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 2dc0ac2..1b85361 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -543,8 +543,10 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 7435076a9ad59b077941c0f0e8fcc742745101eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:21 +0000
Subject: [PATCH 10/11] fix: don't list x as a primitive polynomial of degree
 one

---
 tools/gftool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/gftool.c b/tools/gftool.c
index 43388ff..6532460 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -213,6 +213,10 @@ static int is_primitive(poly_t p)
 	poly_t start;
 	int i;
 
+	/* Anything with no constant term is divisible by x */
+	if (!(p & 1))
+		return 0;
+
 	/* Choose a starting element */
 	for (i = 0; i < max_order; i++) {
 		r <<= 1;
-- 
2.43.0


From 4bcc24ce2dba9245ce53caf4c3150b3129886923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 11/11] fix: complete an abandoned recovery before adding
 anything else

If a read error made an operation give up while the pages of a failed
block were being rescued, the page in question was never enumerated
again, and later operations added data to the journal although the
recovery wasn't complete: unrelated sectors were lost at the next sync
or when the recovery was restarted.
---
 dhara/journal.c |  6 ++++++
 dhara/journal.h |  5 +++++
 dhara/map.c     | 21 +++++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index 1b85361..852745f 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -924,3 +924,9 @@ dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j)
 
 	return n;
 }
+
+void dhara_journal_restart_recoverable(struct dhara_journal *j)
+{
+	if (dhara_journal_in_recovery(j))
+		start_enum(j, j->recover_next);
+}
diff --git a/dhara/journal.h b/dhara/journal.h
index 6eb455b..c15b869 100644
--- a/dhara/journal.h
+++ b/dhara/journal.h
@@ -253,4 +253,9 @@ static inline int dhara_journal_in_recovery(const struct dhara_journal *j)
 
 dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j);
 
+/* Restart the enumeration of recoverable pages from the beginning, in
+ * case one of them couldn't be rewritten for any other reason.
+ */
+void dhara_journal_restart_recoverable(struct dhara_journal *j);
+
 #endif
diff --git a/dhara/map.c b/dhara/map.c
index dd093c5..d762516 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -289,6 +289,7 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
+				dhara_journal_restart_recoverable(&m->journal);
 				dhara_set_error(err, my_err);
 				return -1;
 			}
@@ -305,10 +306,24 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	return 0;
 }
 
+/* If an earlier operation had to give up in the middle of a recovery,
+ * it must be completed before anything else is added to the journal.
+ */
+static int resume_recovery(struct dhara_map *m, dhara_error_t *err)
+{
+	if (!dhara_journal_in_recovery(&m->journal))
+		return 0;
+
+	return try_recover(m, DHARA_E_RECOVER, err);
+}
+
 static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 {
 	int i;
 
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	if (dhara_journal_size(&m->journal) < dhara_map_capacity(m))
 		return 0;
 
@@ -508,6 +523,9 @@ int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 
 int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	while (!dhara_journal_is_clean(&m->journal)) {
 		dhara_page_t p = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
@@ -530,6 +548,9 @@ int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 
 int dhara_map_gc(struct dhara_map *m, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	if (!m->count)
 		return 0;
 
-- 
2.43.0

