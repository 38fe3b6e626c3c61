From 9b3a8d9571033ee4f9da7fc1705c5b1c4f105f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 01/23] fix: a table created with one bucket split the wrong
 bucket

With nbuckets == 1 the low mask came out as 0xffffffff, so the first
expansion split bucket 1 instead of bucket 0 and keys left in bucket 0
could no longer be found.
---
 filehash/ffdb_hash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..0ec26bd 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -612,7 +612,8 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* high mask and low mask value */
   hashp->hdr.max_bucket = hashp->hdr.high_mask = nbuckets - 1;
-  hashp->hdr.low_mask = (nbuckets >> 1) - 1;
+  /* a table of one bucket has no lower half: nothing but bucket 0 */
+  hashp->hdr.low_mask = (nbuckets > 1) ? (nbuckets >> 1) - 1 : 0;
 
   /* set hash version and flag */
   hashp->hdr.magic = FFDB_HASHMAGIC;
-- 
2.43.0


From a112fa73b63523cd53a3c6bebb38932f07146ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 02/23] fix: reject keys that cannot fit on an empty page

PAIRSIZE reserves sizeof(int) - 1 bytes for alignment but the key size
limit did not, so the three largest accepted key sizes were stored behind
an empty bucket page and never found again.
---
 filehash/ffdb_page.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..0d1a3b8 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -352,7 +352,7 @@ typedef struct _ffdb_data_header_
  * we are not dealing with the case that a single key cannot be fit
  * into a page
  */
-#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
+#define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t) - (sizeof(int) - 1))
 
 #define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
-- 
2.43.0


From 4b8734236db36f9f8af2429d1292e390d1342839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 03/23] fix: do not read past the end of the caller's data

When the last piece of a datum filled its page leaving no room for another
data header, a whole page was copied, up to 19 bytes more than the datum has.
---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..7325c4e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -722,8 +722,10 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	/* there is no space for another data */
 	HIGHEST_FREE(currpagep) = 0;
 	FIRST_DATA_POS(currpagep) = 0; 
-	/* we copy most of the rest of page */
+	/* we copy most of the rest of page, never more than what is left */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -856,7 +858,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       }
 
       /* check whether data will fit this page */
-      if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
+      if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD)
 	copylen = rlen;
       else 
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
-- 
2.43.0


From fa1f8e71d500e29026211ccd98ad73e82ce254dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 04/23] fix: replacing a huge datum by a small one kept the old
 high length bits

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 7325c4e..98caa70 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1721,7 +1721,7 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
+  if (hashp->hdr.version > FFDB_VERSION_5) {
     /* insert ncessary length information to offset */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
-- 
2.43.0


From 5117b1ed52982c96248741adb5b1e2c27fe2be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 05/23] fix: ffdb_get_config rejected valid configurations

The caller's config is an output, but its (uninitialised) index was compared
with the number of configuration pages before the lookup by number.
---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 0ec26bd..00de287 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1526,13 +1526,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From b767f0d9bc2eeaa78dfd0f89edce66aa7bfddad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 06/23] fix: sync and close report pages that could not be
 written

Both ignored the result of writing the cached pages (and close took a short
header write with errno 0 for success), so lost data was reported as saved.
---
 filehash/ffdb_hash.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 00de287..5b632ea 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -300,13 +300,15 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
@@ -1392,7 +1394,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
-- 
2.43.0


From e014ad1319ae01ef043d57a3849db1216680af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 07/23] fix: a page that cannot be read is an error, not an
 empty page

A failed read was ignored and whatever the buffer held was used as the page;
a short read could return 0 with no page. The unused buffer is freed too.
---
 filehash/ffdb_pagepool.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..f678581 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -723,7 +723,7 @@ static int
 _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
 			      unsigned int flags, void** mem)
 {
-  int status, nbytes;
+  int status, nbytes, ret;
   off_t off;
   struct _ffdb_hqh *head;
   ffdb_bkt_t* bp = 0;
@@ -764,12 +764,18 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    ret = errno ? errno : EIO;
+    --pgp->curcache;
+    free (bp);
+    return ret;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    ret = (nbytes < 0 && errno != 0) ? errno : EIO;
+    --pgp->curcache;
+    free (bp);
+    return ret;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From 24365b74547bbcc7b3d67ac0b5270f6d30b0cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 08/23] fix: open fails when the user or configuration pages
 cannot be read

The missing page was dereferenced.
---
 filehash/ffdb_hash.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5b632ea..3e75ff0 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -478,6 +478,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -510,6 +512,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -881,8 +885,16 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 ||
+      _ffdb_read_config_info (hashp) != 0) {
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
-- 
2.43.0


From 03cae9a6aa9ee0d1f62ec990c87acc38f6c6ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 09/23] fix: a page written to a file of the other byte order
 stayed swapped in the cache

The write filter converts the page in place; after a sync the next reader saw
the disk form of every page of a cross-endian database.
---
 filehash/ffdb_pagepool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index f678581..3c3c06e 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -283,6 +283,10 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
       ret = -1;
   }
 
+  /* The page stays in the cache: turn it back into its memory form */
+  if (pgp->pgout && pgp->pgin)
+    (pgp->pgin)(pgp->pgcookie, bp->pgno, bp->page);
+
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
 
-- 
2.43.0


From 5f7d9503489e15ec17b0aa91cb107b87cdab3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 10/23] fix: a refused overwrite left the key page pinned

A pinned page is never written by sync or close, so earlier changes to it
were lost, and every other thread waited for it for ever.
---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 3e75ff0..7e6f7d5 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1333,6 +1333,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From 582b37214c15c747be35dc901b5f95d131d77a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 11/23] fix: reading an empty datum left its data page pinned

The page was then skipped by sync and close and its changes were lost.
---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 98caa70..fe11490 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -486,6 +486,10 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     needfree = 1;
   }
   
+  /* Nothing to copy for an empty datum */
+  if (val->size == 0)
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+
   /* Now I am ready to copy */
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
-- 
2.43.0


From 4f81eda037d4d4eb0f30d9d8f92307b1dea8b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:14 +0000
Subject: [PATCH 12/23] fix: failed reads left pages pinned

A too small buffer, a failed allocation or a checksum error returned without
releasing the data page and the key page, which sync and close then skipped.
---
 filehash/ffdb_page.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index fe11490..ae25b11 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -1556,6 +1558,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2741,6 +2745,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 2434dd61dac9f1434a23032e89bf899f5d42ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:52 +0000
Subject: [PATCH 13/23] fix: close of a table without pages on its last level
 moved pages forever

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index ae25b11..20b9677 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2387,6 +2387,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* No data or overflow page allocated yet on the last level: nothing to move */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From baa2e057f09be2f0ff737adb74ee45a214713abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:51 +0000
Subject: [PATCH 14/23] fix: freed overflow pages kept their old content on
 disk

---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 20b9677..4c610e2 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1336,9 +1336,11 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
   if (addrtype == HASH_OVFL_PAGE) {
     _ffdb_free_ovflpage (hashp, pagep, isdoubling, &deleteit);
     if (deleteit) {
-      /* if this page need to be deleted */
+      /* if this page need to be deleted: the copy on disk must not look
+       * like a page in use any more, so it has to be written 
+       */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      return ffdb_put_page (hashp, pagep, HASH_DELETED_PAGE, 1);
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-- 
2.43.0


From e797608969e3a490fb6fec93b90e1c04a61dd587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:51 +0000
Subject: [PATCH 15/23] fix: a pair that could not be added to an overflow page
 was reported as stored

---
 filehash/ffdb_page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 4c610e2..8856fa7 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1832,7 +1832,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
-- 
2.43.0


From 06ae2a4a1c6313a8ec73853329a512558e23c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:51 +0000
Subject: [PATCH 16/23] fix: pages whose link to the next page changed were not
 written

---
 filehash/ffdb_page.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8856fa7..536594e 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -605,7 +605,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
     PREV_PGNO(cpagep) = pnum;
 
     /* Now free the old data page */
-    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 0);
+    ffdb_put_page (hashp, mem, HASH_DATA_PAGE, 1);
 
     /* update start value */
     start = HIGHEST_FREE(cpagep);
@@ -1320,7 +1320,7 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       PREV_PGNO (xpagep) = fpage;
 
       /* release the previous page */
-      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0); 
+      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
 }
-- 
2.43.0


From cc29f4bca996e059db003e39a29404f9fb7b916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:51 +0000
Subject: [PATCH 17/23] fix: cursor moves past either end of the database

---
 filehash/ffdb_page.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 536594e..de9c38b 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2797,6 +2797,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   unsigned char* ekdata;
   unsigned int   eksize;
 
+  /* A cursor that ran off either end, or failed, has no current item */
+  if ((flags == FFDB_NEXT || flags == FFDB_PREV) && !cursor->item.pagep)
+    return (cursor->item.status == ITEM_NO_MORE) ? FFDB_NOT_FOUND : -1;
+
   if (flags == FFDB_FIRST) {
     if (cursor->item.pagep) {
       /* need to release the previous page */
@@ -2813,11 +2817,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket >= hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
+      /* Get next bucket */
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2829,13 +2837,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2858,8 +2859,13 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     /* Skip empty buckets */
     while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
+      /* Get next bucket */
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2870,13 +2876,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
@@ -2976,6 +2975,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
 
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From a5904b58c354b79eb29b8260b57881e963bf2ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:46 +0000
Subject: [PATCH 18/23] fix: a page held twice by one thread was released at
 the first put

---
 filehash/ffdb_pagepool.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 3c3c06e..450fe66 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1250,6 +1250,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /**
+   * This thread may hold the page more than once, e.g. by a cursor. The page
+   * stays pinned and owned until the last one is gone
+   */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From fdf50775976b6e315836b5540385bbd434714a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 19/23] fix: a failed insert or replace left a data page pinned

When a further page of a large datum could not be obtained, the first data
page was never put back.
---
 filehash/ffdb_page.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index de9c38b..6c9c80c 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -703,6 +703,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
       currpagep = ffdb_get_page (hashp, currp, HASH_DATA_PAGE,FFDB_CREATE, &tp);
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate data page at %d\n", currp);
+	ffdb_put_page (hashp, cpagep, HASH_DATA_PAGE, 0);
 	return -1;
       }
       if (reuse)
@@ -860,6 +861,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate page %d to overwrite data\n",
 		 currp);
+	ffdb_put_page (hashp, mem, TYPE(mem), 0);
 	return -1;
       }
 
-- 
2.43.0


From ea8d07b33706d7636a870b36d002a6a00b856442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 20/23] fix: a failed bucket split was reported as success

The pairs of a page that could not be read, or that could not be added to
their bucket, were dropped silently.
---
 filehash/ffdb_page.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 6c9c80c..6f7a416 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1905,6 +1905,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
   int needovfl, reuse;
+  int status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1920,7 +1921,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -1985,12 +1986,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2009,6 +2010,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status = 0;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2039,9 +2041,9 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status |= _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
     }
     
     /* get next page number */
@@ -2053,12 +2055,18 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d while splitting bucket %d\n",
+		 nextpage, oldbucket);
+	status = -1;
+      }
+    }
     else
       break;
   }
-  return 0;
+  return status;
 }
 
 
-- 
2.43.0


From c494f817b535099b43fa9123efd7b0967a0cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 21/23] fix: user and configuration information could be set on
 a read only database

The change was accepted, seen by later reads, and lost at close.
---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 7e6f7d5..bad81ae 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1476,6 +1476,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* a read only database cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1525,6 +1531,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* a read only database cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1557,6 +1569,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* a read only database cannot be changed */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From 95246d7991e3ac2a7d3459b8090c030c9eeff0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:11 +0000
Subject: [PATCH 22/23] fix: pages that could not be moved at close or open
 were reported as moved

The header then claimed they had moved and close cut them off the file.
---
 filehash/ffdb_hash.c | 14 ++++++++++++--
 filehash/ffdb_page.c | 29 ++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index bad81ae..cd27d5c 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -266,7 +266,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   int save_errno = 0;
 
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = EIO;
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -958,7 +959,16 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * new insert is expected or some pages was moved previously
    */
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      ffdb_pagepool_close (hashp->mp);
+      close (hashp->fp);
+      free (hashp->fname);
+      free (hashp->split_buf);
+      free (hashp);
+      free (dbp);
+      errno = EIO;
+      return 0;
+    }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 6f7a416..fb7c8e7 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2242,13 +2242,15 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
  *
+ * @param failed set to 1 if not every page could be moved
+ *
  * @return last page number on the linked list after successful move. 
  * If there is no data pages being moved, INVALID_PGNO is returned
  */
 static pgno_t
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, int* failed)
 {
   pgno_t dlast, page, rpage, tp;
   pgno_t prevp, nextp;
@@ -2267,6 +2269,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
+      *failed = 1;
       return dlast;
     }
 
@@ -2290,6 +2293,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2319,6 +2323,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *failed = 1;
 	  return dlast;
 	}
 
@@ -2347,6 +2352,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2363,6 +2369,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*failed = 1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2393,6 +2400,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   pgno_t dlast, dfirst;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Find out how many pages are not used by reguler hash pages */
   num_unused = hashp->hdr.high_mask - hashp->hdr.max_bucket;
@@ -2439,14 +2447,17 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 
   /* move data pages first */
   _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
 
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &failed);
+
+  if (failed)
+    return -1;
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
@@ -2464,6 +2475,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
   pgno_t oldfirst, oldlast, newfirst, newlast;
   pgno_t lastdpage;
   unsigned int num_page_moved;
+  int failed = 0;
 
   /* Check whether any pages has been moved when the database is closed */
   if (hashp->hdr.num_moved_pages == 0)
@@ -2495,14 +2507,17 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
   /* Move data pages first */
   lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+				newfirst, newlast, &failed);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
   
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &failed);
+
+  if (failed)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
-- 
2.43.0


From 0a7b80e1feb5a4b2817b03ccb2afa2d7dd851524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 23/23] fix: unlink an emptied free list page from the next one

When the first page of a chained free list is handed out again, the next
page becomes the head of the list but kept pointing back to it. If that
page was then moved at close or open, the move overwrote the NEXT link of
the data or overflow page the old head had become, and data were lost.
---
 filehash/ffdb_page.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index fb7c8e7..75c1bdb 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -975,6 +975,20 @@ _ffdb_reuse_free_ovflpage (ffdb_htab_t* hashp)
       num = fpage;
       /* nextp could be INVALID_PGNO */
       hashp->hdr.free_pages[clevel] = nextp;
+
+      /* The next page heads the list now: it must not point back to a
+       * page that is going to be used for something else 
+       */
+      if (nextp != INVALID_PGNO) {
+	fpagep = ffdb_get_page (hashp, nextp, HASH_FREE_PAGE, 0, &tp);
+	if (!fpagep) {
+	  fprintf (stderr, "Fatal error: free map page at %d could not be found\n",
+		   nextp);
+	  abort ();
+	}
+	PREV_PGNO(fpagep) = INVALID_PGNO;
+	ffdb_put_page (hashp, fpagep, HASH_FREE_PAGE, 1);
+      }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Free map page %d contains no free pages, reuse it\n",
 	       fpage);
-- 
2.43.0

