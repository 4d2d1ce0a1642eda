/* The bucket table of a sorted index file.
 * U(key) = (top 24 bits of the key) * nrec / 2^24, the predicted record number.
 * Table invariant: for every record R at number n(R) whose bucket B(R) is not 0,
 *	T[B(R)] <= n(R) - U(R)		(never start after it)
 *	T[B(R)] + U(last record) >= 0	(used to keep the minimum)
 */
#include "vf.h"
#define FF ((FILE *)(void *)&g_f)
static int g_f;
static struct { int64_t pos; int64_t j_val; int j_seen, h_seen; uint64_t h_val; uint64_t wn; int lost; } g;
#ifdef IOERR
#define FAIL() (NDB() && (g.lost = 1))
#else
#define FAIL() 0
#endif
static uint64_t g_j, g_nb;		/* witness bucket, number of buckets */
static unsigned g_bb;			/* file: header */
static uint64_t g_nrec;
static int64_t g_e;			/* file: table entry of the witness bucket */

static uint8_t g_hdr[8];		/* file: header, as bucket_write leaves it */
static void mkhdr(void) { be64enc(g_hdr, ((uint64_t)0x4161 << 48) | ((uint64_t)g_bb << 40) | g_nrec); }
#define HNREC (be64dec(g_hdr) & 0xffffffffffULL)
static int vf_fseeko(FILE *f, off_t o, int wh)
{
	CHECK(f == FF, "the index file");
	CHECK(wh == SEEK_SET, "model: SEEK_SET");
	if (FAIL()) return (-1);
	if (o < 0) { errno = EINVAL; return (-1); }
	g.pos = o;
	return (0);
}
static size_t vf_fread(void *p, size_t sz, size_t n, FILE *f)
{
	CHECK(f == FF && sz * n == 8, "table entries are eight bytes");
	if (g.pos == 0)
		memcpy(p, g_hdr, 8);
	else if ((uint64_t)g.pos == 8 * g_j)
		be64enc(p, (uint64_t)g_e);
	else
		be64enc(p, ND64());
	g.pos += 8;
	return (n);
}
static size_t vf_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
	CHECK(f == FF && sz * n == 8, "table entries are eight bytes");
	CHECK((uint64_t)g.pos == 8 * g.wn, "table written contiguously from the start");
	if (FAIL()) return (0);
	if (g.pos == 0) { g.h_seen++; g.h_val = be64dec(p); }
	if ((uint64_t)g.pos == 8 * g_j) { g.j_seen++; g.j_val = be64dec(p); }
	g.pos += 8;
	g.wn++;
	return (n);
}
static int vf_fflush(FILE *f) { (void)f; if (FAIL()) return (EOF); return (0); }
#define fseeko vf_fseeko
#define fread vf_fread
#define fwrite vf_fwrite
#define fflush vf_fflush
#undef VDEF_H_INCLUDED
#include SRC_index

#ifdef VF_PROOF
#define MAXBB 28
#define NREC 0xffffffffffULL
#else
#define MAXBB 3
#define NREC 15
#endif
#define U(k, nrec) ((((k) >> 40) * (nrec)) >> 24)

#ifdef H_UPDATE
void harness(void)
{
	struct bucket bp[1];
	uint8_t rec[32];
	uint64_t key, last, n, b, u, j;
	int64_t before, jbefore, exp;
	INIT_OBJ(bp, BUCKET_MAGIC);
	bp->bbucket = vf_range(2, MAXBB);
	bp->nbucket = 1ULL << bp->bbucket;
	bp->nrec = vf_range(1, NREC);
#ifdef VF_PROOF
	bp->buckets = malloc(8UL << bp->bbucket);
	ASSUME(bp->buckets != NULL);
	for (int i = 0; i < 4; i++) ((uint64_t *)(void *)rec)[i] = ND64();
#else
	bp->buckets = malloc(8UL << MAXBB);
	for (int i = 0; i < 1 << MAXBB; i++) bp->buckets[i] = ND64();
	for (int i = 0; i < 4; i++) ((uint64_t *)(void *)rec)[i] = ND64();
#endif
	key = be64dec(rec);
	b = key >> (64 - bp->bbucket);
	j = vf_range(0, bp->nbucket - 1);
	u = U(key, bp->nrec);
	n = vf_range(0, bp->nrec - 1);
	last = vf_range(0, NREC);
	/* lemma mul_div_mono (lemmas/Bucket.lean): last key <= key, so U(last) <= U(key) */
	ASSUME(last <= u);
	before = bp->buckets[b];
	jbefore = bp->buckets[j];
	ASSUME(before <= 1LL << 40);
	/* Table invariant.  U(last) + T >= 0 */
	ASSUME(before >= -(int64_t)last);
	bucket_update(bp, n, rec);
	exp = (int64_t)n - (int64_t)u;
	if (exp > before) exp = before;
	CHECK(b == 0 || bp->buckets[b] == exp, "bucket keeps the smallest (record number - prediction)");
	CHECK(b == 0 || bp->buckets[b] + (int64_t)u >= 0, "table invariant kept");
	CHECK(b == 0 || bp->buckets[b] <= (int64_t)n - (int64_t)u, "lookups of this record start no later than it");
	CHECK(j == b || bp->buckets[j] == jbefore, "no other bucket changes");
	COVER("end");
}
#endif
#ifdef H_NEW
void harness(void)
{
	struct bucket *bp;
	uint64_t est = vf_range(1, NREC);
	g_j = ND64();
	bp = bucket_new(est);
	CHECK(bp->bbucket >= 2 && bp->bbucket <= 28, "between 4 and 2^28 buckets: the table is a multiple of 32 bytes");
	CHECK(bp->nbucket == 1ULL << bp->bbucket, "number of buckets");
	CHECK(bp->nrec == est, "record estimate kept");
	ASSUME(g_j < bp->nbucket);
	CHECK(bp->buckets[g_j] == 1LL << 31, "an empty bucket never limits a lookup");
	COVER("end");
}
#endif
#ifdef H_WRITE
void harness(void)
{
	struct bucket bp[1];
	INIT_OBJ(bp, BUCKET_MAGIC);
	bp->bbucket = vf_range(2, MAXBB);
	bp->nbucket = g_nb = 1ULL << bp->bbucket;
	bp->nrec = vf_range(1, NREC);
	bp->buckets = malloc(8UL << bp->bbucket);
	ASSUME(bp->buckets != NULL);
	g_j = vf_range(1, bp->nbucket - 1);
	g_e = ND64();
	bp->buckets[g_j] = g_e;
	bucket_write(bp, FF);
	CHECK(!g.lost, "no I/O error goes unnoticed");
	CHECK(g.h_seen == 1 && g.h_val == (((uint64_t)0x4161 << 48) | ((uint64_t)bp->bbucket << 40) | bp->nrec), "header: magic, bucket exponent, record count");
	CHECK(g.j_seen == 1 && g.j_val == g_e, "every bucket is written at its place");
	CHECK(g.pos == 8LL << bp->bbucket, "position after the table is where records start");
	COVER("end");
}
#endif
#ifdef H_SEEK
void harness(void)
{
	uint8_t key[12];
	uint64_t k, w, nw, uk, uw;
	int64_t hdr;
	g_bb = vf_range(2, MAXBB);
	g_nrec = vf_range(1, NREC);
	hdr = 8LL << g_bb;
	mkhdr();
	for (int i = 0; i < 12; i++) key[i] = ND8();
	k = be64dec(key);
	w = ND64();			/* leading 64 bits of the witness record */
	nw = vf_range(0, g_nrec - 1);	/* its number */
	ASSUME(k <= w);
	g_j = k >> (64 - g_bb);
	ASSUME(w >> (64 - g_bb) == g_j);	/* prefix of >= 7 digits: same bucket */
	uk = U(k, HNREC);
	uw = U(w, HNREC);
	ASSUME(uk <= uw);		/* lemma mul_div_mono */
	g_e = ND64();			/* what bucket_update/bucket_write left there */
	ASSUME(g_j == 0 || (g_e <= (int64_t)nw - (int64_t)uw && g_e >= -(int64_t)g_nrec));
	bucket_seek(key, FF);
	CHECK(g.pos >= hdr, "a lookup starts at a record, not inside the bucket table");
	CHECK((g.pos - hdr) % 32 == 0, "a lookup starts on a record boundary");
	CHECK(g.pos <= hdr + 32 * (int64_t)nw, "a lookup starts no later than the first matching record");
	COVER("end");
	if (g_j == 0) COVER("first bucket");
}
#endif
#ifdef H_SEEKEMPTY
/* no matching record: any table entry the writer can have left (the initial
 * 2^31, or a difference of record numbers) */
void harness(void)
{
	uint8_t key[12];
	g_bb = vf_range(2, MAXBB);
	g_nrec = vf_range(1, NREC);
	mkhdr();
	for (int i = 0; i < 12; i++) key[i] = ND8();
	g_j = be64dec(key) >> (64 - g_bb);
	g_e = ND64();
	ASSUME(g_e <= 1LL << 40 && g_e >= -(int64_t)g_nrec);
	bucket_seek(key, FF);
	CHECK(g.pos >= 8LL << g_bb && (g.pos - (8LL << g_bb)) % 32 == 0, "a lookup starts at a record");
	COVER("end");
}
#endif
#ifdef H_SKIP
void harness(void)
{
	g_bb = vf_range(2, MAXBB);
	g_nrec = vf_range(1, NREC);
	mkhdr();
	bucket_skip(FF);
	CHECK(g.pos == 8LL << g_bb, "skipping the table leads to the first record");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
