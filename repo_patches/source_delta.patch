From 4d2d16dd6e7486a0b8324620d68b2999daa9ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 01/20] fix: index lookups must start at a record of the sorted
 index

bucket_seek() forgot the bucket table in front of the records, so a lookup
could read table entries as records and stop early, and a bucket offset below
the (smaller) prediction for a looked-up key gave a negative seek and an
assertion failure.  The record count is 40 bits wide.
---
 index.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..edc2612 100644
--- a/index.c
+++ b/index.c
@@ -357,7 +357,7 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
+	uint64_t nrec;
 	int64_t off;
 
 	AN(rec);
@@ -378,11 +378,13 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		if (off < 0)
+			off = 0;
 	} else {
-		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
+		off = 0;
 	}
+	AZ(fseeko(f, (1L << (nbucket + 3)) + off * 32, SEEK_SET));
 }
 
 /*
-- 
2.43.0


From a6788428b974e9a3a6c45ce60c2236c4febc1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 02/20] fix: index an object only once its silo is installed

A crash between the index insertion and link(2) left index entries which
refer to a silo that does not exist, and which would later refer to
somebody elses bytes when the silo number got reused.
---
 wsilo.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..cc9a8fd 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -468,13 +468,14 @@ Wsilo_Install(struct wsilo **slp)
 
 	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+	/* Only now that the silo exists, can the index refer to it. */
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -489,7 +490,8 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 	struct vsb *vsb;
 	ssize_t s;
 	int i, done = 0;
-	uint32_t sn;
+	uint32_t sn, idx, silo_no;
+	off_t hd_start;
 	struct aardwarc *aa;
 	const char *t;
 
@@ -561,8 +563,11 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
-	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
+	idx = sl->idx;
+	silo_no = sl->silo_no;
+	hd_start = sl->hd_start;
 	Wsilo_Install(&sl);
+	IDX_Insert(aa, id, idx, silo_no, hd_start, rid);
 }
 
 void
-- 
2.43.0


From 4d67b3d7825c7102bc7c26621e805fdba235486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 03/20] fix: retrieve objects whose segments share an ID with
 other records

IDs are derived from content, so two segments with the same content, or
a segment and an object with the same content, have the same ID, and the
8 digit prefix of the next segment can match ordinary objects as well.
Keep looking for the right record instead of giving up or asserting.
---
 getjob.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..92da06d 100644
--- a/getjob.c
+++ b/getjob.c
@@ -92,7 +92,7 @@ getjob_iter(void *priv, const char *key,
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -102,14 +102,23 @@ getjob_iter(void *priv, const char *key,
 			return (0);
 		}
 		if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG)) {
+			/*
+			 * Segments with the same content as an object
+			 * have the same ID: Keep looking for the object.
+			 */
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Not a continuation, ignore like other ambiguity */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -129,12 +138,16 @@ getjob_iter(void *priv, const char *key,
 		assert(im >= 0);
 		segno = im;
 		if (segno != gjs->segno + 1) {
+			/*
+			 * Segments with identical content have identical
+			 * IDs: Keep looking for the one we want.
+			 */
 			gj->err =
 			    "Index Inconsistency: "
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From 2a9dcc5627bb18d49246eaa03e7a761fa23c31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 04/20] fix: reserve enough header space for highly
 compressible segments

The digits reserved for Content-Length and WARC-Segment-Total-Length did
not cover what deflate can fit into a silo, so storing such an object
failed an assertion half way through committing its segments.
---
 segjob.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/segjob.c b/segjob.c
index 731f373..39846ed 100644
--- a/segjob.c
+++ b/segjob.c
@@ -43,6 +43,9 @@
 
 #include "aardwarc.h"
 
+/* The maximum compression ratio of deflate, see zlib's documentation */
+#define DEFLATE_MAX_RATIO	1032
+
 /*
  * A segment of an object
  */
@@ -125,12 +128,11 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
-	 * This also covers the case where data is already gzip'ed and
-	 * the C-L-G is longer than the C-L
+	 * Deflate compresses at most 1032:1, reserve space for what that
+	 * allows us to fit in a silo.
 	 */
-	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	im = sj->aa->silo_maxsize * (intmax_t)DEFLATE_MAX_RATIO;
+	Header_Set(sg->hdr, "Content-Length", "%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -141,8 +143,8 @@ segjob_newseg(struct segjob *sj)
 		Header_Set_Ref(sg->hdr, "WARC-Segment-Origin-ID", digest);
 
 		/* In case this becomes the last segment */
-		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		im += sj->size;
+		pad += Header_Len("WARC-Segment-Total-Length", "%jd", im);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From c100311117f808530e9a78e0d9fac1573af6ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 05/20] fix: do not store a truncated object when reading the
 input fails

---
 main_store.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_store.c b/main_store.c
index 79236b7..34094f8 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,10 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
-- 
2.43.0


From 882aa0b3089bf949015c5ae392fb6cc463f0282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 06/20] fix: audit of segmented objects

Keep searching while segments are found and stop when they are not,
rather than the other way around, which looped forever if a segment was
missing, and reported segments missing if the silos were listed out of
order.  An incomplete object does not stop the audit of the others.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..16df9b2 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From 4b60996efc6b49847cea7466895c022843399cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 07/20] fix: double free if the housekeeping snapshot cannot be
 opened

---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index edc2612..bf3f7bd 100644
--- a/index.c
+++ b/index.c
@@ -591,7 +591,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From 00aef4d6b889e62665f97fa54720629ec724915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 08/20] fix: check that all of the Aa length field is there
 before reading it

The missing parenthesis made the check accept anything which holds
just the fixed part of the header.
---
 gzip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gzip.c b/gzip.c
index ea632e9..d7483f7 100644
--- a/gzip.c
+++ b/gzip.c
@@ -130,7 +130,7 @@ Gzip_ReadAa(const void *p, size_t l)
 	int64_t len;
 
 	assert(Gzip_GoodAa(p, l));
-	xxxassert(l >= sizeof sizeof gzip_head + 8);
+	xxxassert(l >= sizeof gzip_head + 8);
 	len = (int64_t)le64dec((const uint8_t*)p + sizeof gzip_head);
 	assert(len > 0);
 	return (len);
-- 
2.43.0


From 00d67734cb383b64eb8be49d9b41282a45d131c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 09/20] fix: do not silently truncate gzip'ed output

Running out of data while copying a gzip'ed body must fail as loudly as
it does when the body is decompressed, and the length copied does not
fit an int.
---
 aardwarc.h | 2 +-
 rsilo.c    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..43a7eb3 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -207,7 +207,7 @@ void Rsilo_NextHeader(struct rsilo *);
 struct header *Rsilo_ReadHeader(struct rsilo *);
 uintmax_t Rsilo_ReadChunk(struct rsilo *, byte_iter_f *, void *);
 int64_t Rsilo_BodyLen(const struct rsilo *);
-int Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
+off_t Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
 off_t Rsilo_Tell(const struct rsilo *);
 void Rsilo_SkipCRNL(struct rsilo *rs);
 
diff --git a/rsilo.c b/rsilo.c
index 0f06b93..b69d201 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -224,7 +224,7 @@ Rsilo_NextHeader(struct rsilo *rs)
 
 /* Read a WARC body ---------------------------------------------------*/
 
-int
+off_t
 Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 {
 	int		ps = getpagesize();
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From 4b09d78d8edc3ec096d51236998da38ce8aeca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 10/20] fix: CRC of stitched gzip output with segments of more
 than 4GB

The length in the trailer of a gzip member is modulo 2^32, which is not
good enough for crc32_combine().
---
 aardwarc.h |  1 +
 getjob.c   |  5 ++++-
 gzip.c     | 17 ++++++++++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 43a7eb3..f20ffc6 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -110,6 +110,7 @@ void Gzip_WriteAa(int, int64_t);
 
 struct gzip_stitch;
 struct gzip_stitch * gzip_stitch_new(byte_iter_f *func, void *priv);
+void gzip_stitch_member(struct gzip_stitch *gs, off_t len);
 int gzip_stitch_feed(void *priv, const void *ptr, ssize_t len);
 int gzip_stitch_fini(struct gzip_stitch *gs);
 
diff --git a/getjob.c b/getjob.c
index 92da06d..c2a4072 100644
--- a/getjob.c
+++ b/getjob.c
@@ -270,9 +270,12 @@ GetJob_Iter(const struct getjob *gj, byte_iter_f *func, void *priv, int gzip)
 		(void)Rsilo_ReadGZChunk(gjs->rs, func, priv);
 	} else {
 		gs = gzip_stitch_new(func, priv);
-		VTAILQ_FOREACH(gjs, &gj->segs, list)
+		VTAILQ_FOREACH(gjs, &gj->segs, list) {
+			gzip_stitch_member(gs,
+			    Header_Get_Number(gjs->hdr, "Content-Length"));
 			if (Rsilo_ReadGZChunk(gjs->rs, gzip_stitch_feed, gs) == 0)
 				break;
+		}
 		(void)gzip_stitch_fini(gs);
 	}
 }
diff --git a/gzip.c b/gzip.c
index d7483f7..ea03111 100644
--- a/gzip.c
+++ b/gzip.c
@@ -228,6 +228,7 @@ struct gzip_stitch {
 	int			retval;
 	uint32_t		crc;
 	uint32_t		l_crc;
+	off_t			memberlen;
 	uint8_t			tailbuf[13];
 };
 
@@ -265,6 +266,19 @@ gzip_stitch_new(byte_iter_f *func, void *priv)
 	return(gs);
 }
 
+/*
+ * The gzip trailer only has the length modulo 2^32, but combining the
+ * CRC32's takes the actual length.
+ */
+
+void
+gzip_stitch_member(struct gzip_stitch *gs, off_t len)
+{
+
+	CHECK_OBJ_NOTNULL(gs, GZIP_STITCH_MAGIC);
+	gs->memberlen = len;
+}
+
 int
 gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 {
@@ -335,7 +349,8 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 			crc = le32dec(p + 5);
 			bytes = le32dec(p + 9);
 			gs->l_crc += bytes;
-			gs->crc = crc32_combine(gs->crc, crc, bytes);
+			assert(bytes == (uint32_t)gs->memberlen);
+			gs->crc = crc32_combine(gs->crc, crc, gs->memberlen);
 			gs->state = GZSTATE_OUTSIDE;
 			len -= 13;
 		}
-- 
2.43.0


From a06cc6c9f42ff58ebba86b6bef306887f4b393c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 11/20] fix: get must not report success if the output could
 not be written

---
 main_get.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_get.c b/main_get.c
index 306a2b5..88e0bc7 100644
--- a/main_get.c
+++ b/main_get.c
@@ -135,6 +135,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    of, strerror(errno));
+			exit(1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -163,6 +168,7 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (!hdr_only) {
 		GetJob_Iter(gj, get_iter, gp, zip);
+		AZ(fflush(gp->dst));
 
 		dig = SHA256_End(gp->sha256, NULL);
 		AN(dig);
-- 
2.43.0


From b909f33ce5140a3dd0b73b0fa2f5815d99c5f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 12/20] fix: housekeeping must not lose index entries on I/O
 errors

A full disk, or the sorted index failing to open or read, went unnoticed
and the truncated new index replaced the old one.
---
 index.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index bf3f7bd..7ca917f 100644
--- a/index.c
+++ b/index.c
@@ -340,13 +340,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
@@ -494,6 +494,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -516,8 +517,10 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 		bucket_skip(f1);
 		while (1) {
 			sz = fread(rec, 32, 1, f1);
-			if (sz == 0)
+			if (sz == 0) {
+				AZ(ferror(f1));
 				break;
+			}
 			assert(memcmp(rec, recl, 32) >= 0);
 			memcpy(recl, rec, 32);
 			assert(sz == 1);
-- 
2.43.0


From 0e9869fc72a18115483a3754f9ea6f2a52796afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 13/20] fix: store -i must accept identifiers with the prefix

IDX_Valid_Id() accepts them, but the prefix ended up in the identifier of
the record, cut to size, and Digest2Ident() aborted the commit.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 34094f8..b0ee1fa 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From 037696e74a5d933e04c6d47d62ea735d9d183648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 14/20] fix: audit silently stopped at the first silo it could
 not open

Silo numbers are not contiguous while other processes hold some of them,
everything after the first hole was never audited.
---
 main_audit.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 16df9b2..effd4ea 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,15 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *fn, ssize_t silono)
+{
+
+	if (audit_silo(priv, NULL, silono))
+		printf("ERROR: Cannot open silo %s\n", (const char *)fn);
+	return (0);
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +401,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,13 +428,11 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
-		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+		for (; argc > 0; argc--, argv++)
+			if (audit_silo(aa, *argv, -1))
+				printf("ERROR: Cannot open silo %s\n", *argv);
 	}
 
 	err = VSB_new_auto();
-- 
2.43.0


From e1c2170feaaffc40a6229e6ab8739f64591a51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 15/20] fix: Silo_Iter lost the failure of its callback

---
 silo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silo.c b/silo.c
index a99e7b1..27b3a28 100644
--- a/silo.c
+++ b/silo.c
@@ -109,5 +109,5 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 			retval = func(priv, VSB_data(vsb), u);
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From f24c141661925a9367505306254700d147028082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 16/20] fix: do not recurse forever when a relative silo
 directory does not exist

---
 wsilo.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index cc9a8fd..ead4e8d 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -89,10 +89,9 @@ silo_mkparentdir(const char *path)
 	p = strdup(path);
 	AN(p);
 	q = strrchr(p, '/');
-	if (q == p)
+	if (q == NULL || q == p)
 		return (0);
-	if (q != NULL)
-		*q = '\0';
+	*q = '\0';
 	i = stat(p, &st);
 	if (i < 0 && errno == ENOENT) {
 		i = silo_mkparentdir(p);
-- 
2.43.0


From 88f3e6b3cac38d2c52c6dfbd41a35432fdf09ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 17/20] fix: a silo directory which cannot be made ends the
 store instead of being retried forever

and one which somebody else made in the meantime is as good.
---
 wsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index ead4e8d..6fbc10d 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -98,7 +98,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
@@ -137,7 +137,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From b10d949a9b5540c7203bfa14f18713d481fd78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 18/20] fix: filter -s must look at all records whose
 identifiers share an index key

---
 main_filter.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..4a31879 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -109,7 +109,7 @@ static int v_matchproto_(idx_iter_f)
 filter_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
-	struct cand *c;
+	struct cand *c, *c2;
 	struct filt *fp;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
@@ -123,11 +123,13 @@ filter_iter(void *priv, const char *key,
 	strlcpy(fp->last, key, sizeof fp->last);
 	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
-	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
-		c = next_cand;
-		next_cand = VTAILQ_NEXT(c, sortlist);
+	for (c = next_cand; c != NULL && !strncmp(key, c->id, strlen(key));
+	    c = c2) {
+		c2 = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
+			/* The others may be other records with this key */
+			if (c == next_cand)
+				next_cand = c2;
 			c->found = 1;
 			VTAILQ_REMOVE(&sorted, c, sortlist);
 		}
-- 
2.43.0


From b127cc8a82aa39ef561e170918cbf898739e9a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 19/20] fix: filter must accept identifiers in upper case like
 get does

---
 main_filter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 4a31879..9e06f9b 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -140,7 +141,7 @@ filter_iter(void *priv, const char *key,
 static int
 read_file(const struct aardwarc *aa, FILE *fi)
 {
-	char buf[BUFSIZ], *p;
+	char buf[BUFSIZ], *p, *q;
 	struct cand *c1, *c2;
 	int retval = 0;
 	size_t sl;
@@ -168,6 +169,8 @@ read_file(const struct aardwarc *aa, FILE *fi)
 			exit(1);
 		}
 		p[aa->id_size] = '\0';
+		for (q = p; *q != '\0'; q++)
+			*q = tolower((unsigned char)*q);
 		if (strspn(p, "0123456789abcdefABCDEF") != strlen(p)) {
 			fprintf(stderr, "Non-hex characters in id: \"%s\"\n",
 			    buf);
-- 
2.43.0


From 4ebc7d89b395005613c5d1d00c1127a4505b4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 20/20] fix: a filter query cut short by the end of the
 connection must not stay in the queue

---
 main_stevedore.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..c5265db 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -330,13 +330,12 @@ input(int fd, void *priv, int revents)
 	case PROTO_FILTER:
 		ALLOC_OBJ(fp, FILTER_MAGIC);
 		AN(fp);
-		VTAILQ_INSERT_TAIL(&filter_queue, fp, list);
 		if (size != 0) {
 			assert(size >= g_aa->id_size && size <= 64);
 			j = 0;
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
 					FREE_OBJ(fp);
 					return;
@@ -346,6 +345,7 @@ input(int fd, void *priv, int revents)
 			fp->id[size] = '\n';
 			fp->id[size + 1L] = '\0';
 		}
+		VTAILQ_INSERT_TAIL(&filter_queue, fp, list);
 		if (filter_job == NULL)
 			start_filter();
 		break;
@@ -385,7 +385,7 @@ input(int fd, void *priv, int revents)
 			assert (size + 1UL < sizeof buf);
 			while (size > j) {
 				i = read(0, buf + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
 					return;
 				}
@@ -424,7 +424,7 @@ input(int fd, void *priv, int revents)
 				i = read(0, buf, size);
 			else
 				i = read(0, buf, sizeof buf);
-			if (i == 0)
+			if (i <= 0)
 				return;
 			size -= i;
 		}
-- 
2.43.0

