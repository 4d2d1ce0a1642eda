/* Contracts of segjob.c: storing an object in segments */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"

static struct {
	/* input of this call */
	uint64_t hpay, hseg, cons;	/* hashed (both digests), compressed */
	int64_t segbytes;		/* content of the current segment */
	/* current segment */
	int open, synced, ended, sep;
	int64_t space;			/* room left in its silo */
	const void *out; uint64_t p;	/* produced by deflate, not stored yet */
	int nopen, nclosed, nd;
} g;
static int64_t t_max;
static uint64_t L;
static char inb[1];
static char obuf[1];
#define BUFSZ (1024 * 1024)

static int vf_deflate(z_stream *zs, int flush);
#define deflate vf_deflate
static void vf_memcpy(void *d, const void *s, size_t n);
#define memcpy vf_memcpy
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Update
#undef SHA256_Init
#undef SHA256_End
#undef SHA256_Data
static void vf_sha_update(struct SHA256Context *c, const void *p, size_t n);
#define SHA256_Update(c, p, n) vf_sha_update((struct SHA256Context *)(c), p, n)

struct segjob; struct segment;
static struct segment *psegm;
static void segjob_newseg(struct segjob *sj);
static void segjob_finishseg(struct segjob *sj);
static int inv(struct segjob *sj, int64_t ilen, const char *ip);
static int inv2(void);
static int vf_cur(struct segjob *sj);
static int vf_hv(struct segjob *sj);
#undef VDEF_H_INCLUDED
#include SRC_segjob
#undef memcpy

static struct segment segm;
static struct segjob sjm;
static int64_t size0;
static int open0;
static struct aardwarc aa[1];

static int vf_deflate(z_stream *zs, int flush)
{
	CHECK(zs == sjm.gz && g.open && !g.ended, "deflate on the open segment");
	CHECK(g.p == 0, "earlier output was stored");
	CHECK(zs->next_out == (void *)obuf, "output goes to the space offered");
	CHECK(zs->avail_in == g.hpay - g.cons, "all data that was hashed is compressed, and nothing else");
	CHECK(zs->avail_in == 0 || zs->next_in == (void *)(inb + g.cons), "the input is compressed in order");
	CHECK((int64_t)zs->avail_out + 24 <= g.space && zs->avail_out + 24 <= BUFSZ, "room is kept for the record separator");
	CHECK(flush == Z_NO_FLUSH || flush == Z_PARTIAL_FLUSH || flush == Z_SYNC_FLUSH || flush == Z_FINISH, "flush mode");
	if (zs->avail_out == 0) return (Z_BUF_ERROR);
	CHECK(flush != Z_FINISH || g.synced, "the data is flushed to a byte boundary before the segment is finished");
#ifndef VF_PROOF
	ASSUME(g.nd++ < 3);
#endif
	uint64_t c = vf_range(0, zs->avail_in), p = vf_range(0, zs->avail_out);
	int full = p == zs->avail_out, done = !full || NDB();
	ASSUME(!done || c == zs->avail_in);
	ASSUME(full || flush != Z_FINISH || p == 10);
	ASSUME(done || flush == Z_NO_FLUSH || zs->avail_out < 2 * zs->avail_in + 256 * 1024);
	g.synced = flush == Z_SYNC_FLUSH && done;
	g.ended = flush == Z_FINISH && done;
	g.cons += c;
	g.p = p; g.out = zs->next_out;
	zs->next_in += c; zs->avail_in -= c;
	zs->next_out += p; zs->avail_out -= p;
	return (g.ended ? Z_STREAM_END : Z_OK);
}
static void vf_sha_update(struct SHA256Context *c, const void *p, size_t n)
{
	if (c == sjm.sha256_segment) {
		CHECK(p == inb + g.hseg, "the segment digest covers the input in order");
		g.hseg += n;
		g.segbytes += n;
	} else {
		CHECK(c == sjm.sha256_payload, "one of the two digests");
		CHECK(p == inb + g.hpay, "the payload digest covers the input in order");
		g.hpay += n;
	}
	CHECK(g.hpay <= L && g.hseg <= L, "only input is hashed");
}
void Wsilo_GetSpace(const struct wsilo *sl, void **p, ssize_t *l)
{
	CHECK(sl == (struct wsilo *)&segm && g.open, "the silo of the current segment");
	*p = obuf;
	*l = g.space > BUFSZ ? BUFSZ : g.space;
}
int Wsilo_Store(struct wsilo *sl, ssize_t l)
{
	CHECK(sl == (struct wsilo *)&segm && g.open, "the silo of the current segment");
	CHECK(l > 0 && l <= g.space && l <= BUFSZ, "never more than the space offered is stored");
	if (g.sep == 1) {
		CHECK(l == 24, "the whole record separator is stored");
		g.sep = 2;
	} else {
		CHECK(g.p == (uint64_t)l && g.sep == 0, "exactly what deflate produced is stored");
		g.p = 0;
	}
	g.space -= l;
	return (0);
}
static void vf_memcpy(void *d, const void *s, size_t n)
{
	CHECK(d == obuf && s == Gzip_crnlcrnl && n == 24 && g.space >= 24, "the record separator is written");
	CHECK(g.ended && g.p == 0 && g.sep == 0, "after all of the compressed data");
	g.sep = 1;
}
const uint8_t Gzip_crnlcrnl[24] = { 0x1f };

static void segjob_newseg(struct segjob *sj)
{
	CHECK(sj == &sjm && sj->cur_seg == NULL && !g.open, "a new segment follows a finished one");
	CHECK(g.hpay == g.cons, "no data is in between segments");
	memset(&segm, 0, sizeof segm);
	segm.magic = SEGMENT_MAGIC;
	segm.silo = (struct wsilo *)&segm;
	sj->gz_flag = 0;
	sj->gz->avail_in = 0;
	sj->gz->next_in = NULL;
	sj->cur_seg = &segm;
	g.open = 1; g.synced = g.ended = g.sep = 0; g.p = 0; g.segbytes = 0;
	g.space = vf_range(24, 1ULL << 50);
	ASSUME(g.space <= t_max);
	g.nopen++;
}
static void segjob_finishseg(struct segjob *sj)
{
	CHECK(sj == &sjm && sj->cur_seg == &segm && g.open, "the open segment is finished");
	CHECK(g.ended && g.p == 0 && g.sep == 2, "a finished segment is a complete gzip member and the separator");
	CHECK(g.cons == g.hpay && g.hpay == g.hseg, "all data given to the segment is in it");
	CHECK(segm.size == g.segbytes, "the segment knows the length of its content");
	sj->cur_seg = NULL;
	g.open = 0;
	g.nclosed++;
}
/* between iterations */
static int inv(struct segjob *sj, int64_t ilen, const char *ip)
{
	return ((sj == &sjm) & (sjm.magic == SEGJOB_MAGIC) & (ilen >= 0) & (g.hpay <= L) & ((uint64_t)ilen == L - g.hpay) &
	    (ip == inb + g.hpay) & (g.hseg == g.hpay) & (g.cons <= g.hpay) & (sjm.size == size0 + (int64_t)g.hpay) &
	    (sjm.gz->avail_in == g.hpay - g.cons) & ((sjm.gz->avail_in == 0) | (sjm.gz->next_in == (void *)(inb + g.cons))) &
	    (sjm.aa == aa) &
	    (L == 0 ? (g.nclosed == 0) & (g.nopen == 0) & (g.open == open0) & (sjm.gz->avail_in == 0) : (ilen > 0) | (sjm.gz->avail_in > 0)));
}
static int inv2(void)
{
	return (g.open ? (sjm.cur_seg == &segm) & (segm.magic == SEGMENT_MAGIC) & (segm.silo == (struct wsilo *)&segm) &
	    (segm.size == g.segbytes) & (g.p == 0) & !g.ended & (g.sep == 0) & (g.space <= t_max) & (g.space >= 24) &
	    ((sjm.gz_flag == 0) | (sjm.gz_flag == Z_PARTIAL_FLUSH)) & (g.segbytes >= 0) & (g.segbytes <= size0 + (int64_t)g.hpay)
	    : (sjm.cur_seg == NULL) & (sjm.gz->avail_in == 0));
}
static struct segment *cur(void) { return (g.open ? &segm : NULL); }
#if defined(H_FEED)
void harness(void)
{
	t_max = aa->silo_maxsize = vf_range(4096, 1ULL << 50);
	aa->magic = AARDWARC_MAGIC;
#ifdef VF_PROOF
	L = vf_range(0, 1ULL << 50);
#else
	L = vf_range(0, 300);
#endif
	psegm = &segm;
	sjm.magic = SEGJOB_MAGIC;
	sjm.aa = aa;
	g.open = NDB();
	sjm.size = size0 = vf_range(0, 1ULL << 55);
	g.segbytes = vf_range(0, 1ULL << 55);
	ASSUME(g.open ? g.segbytes <= size0 : size0 == 0);
	g.space = vf_range(24, 1ULL << 50);
	ASSUME(g.space <= t_max);
	sjm.gz_flag = NDB() ? Z_PARTIAL_FLUSH : 0;
	sjm.cur_seg = g.open ? &segm : NULL;
	segm.magic = SEGMENT_MAGIC;
	segm.silo = (struct wsilo *)&segm;
	segm.size = g.segbytes;
	open0 = g.open;
	SegJob_Feed(&sjm, inb, L);
	CHECK(g.hpay == L && g.hseg == L, "all input goes into the digests, once");
	CHECK(g.cons == L, "all input is compressed");
	CHECK(sjm.size == size0 + (int64_t)L, "the length of the object is counted");
	CHECK(g.p == 0, "all output is stored");
	if (L == 0)
		CHECK(sjm.cur_seg == NULL && !g.open && g.nclosed == 1 && g.nopen == !open0, "the end of the object finishes the segment");
	else {
		CHECK(g.open && sjm.cur_seg == &segm && segm.size == g.segbytes, "a segment is open for more");
		COVER("fed");
	}
	COVER("end");
}
#endif
uint64_t vf_nd_log;
