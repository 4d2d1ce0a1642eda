/* Contract of idx_merge() (index.c): see the property "index-merge". */
#include "vf.h"

#define FILE_SORTED ((FILE *)(void *)&g_f1)
#define FILE_TMP    ((FILE *)(void *)&g_f2)
typedef struct { uint64_t w[4]; } rec_t;
#define LT(a,b) REC_LT(&(a), &(b))

#define PTMP(s) ((s)[0]=='t' && (s)[1]=='m' && (s)[2]=='p')
#define PSORTED(s) ((s)[0]=='s' && (s)[1]=='o' && (s)[2]=='r')
static int vf_errno_v; static int *vf_errno(void) { return (&vf_errno_v); }
#undef errno
#define errno (*vf_errno())
#ifdef IOERR
#define FAIL() (NDB() && (g.lost = 1))
#else
#define FAIL() 0
#endif
/* ---- ghost state ------------------------------------------------------ */
static struct {				/* mutable; part of every loop frame */
	uint64_t	i1;		/* records consumed from index.sorted */
	int64_t		pos1;
	rec_t		last1;		/* last record read from it */
	uint64_t	ck;		/* last chunk element looked at, plus one */
	rec_t		cur;		/* its value */
	uint64_t	out;		/* records written */
	rec_t		last;		/* last record written */
	int		wout;		/* witness written? */
	uint64_t	outw;		/* ... at this index first */
	int64_t		pos2;		/* write position in the tmp file */
	uint64_t	est;		/* estimate given to bucket_new */
	int		upd;		/* a record was announced to the buckets */
	rec_t		updrec;
	unsigned	bw;		/* bucket_write calls */
	int		open1, open2, renamed;
	int		lost, ferr;		/* an I/O operation failed */
} g;
static int g_f1, g_f2;			/* identities of the two streams */
static int g_exist;			/* index.sorted exists */
static unsigned g_bb1;			/* its header: bucket exponent */
static uint64_t g_n1;			/* its records */
static const uint8_t *g_chunk;		/* the sorted chunk */
static uint64_t g_n2;			/* records in the chunk */
static rec_t g_w;			/* the witness: an arbitrary record */
static int g_win1, g_win2;		/* is it in index.sorted / in the chunk? */
static uint64_t g_p1, g_p2;		/* ... at these indices */

/* The ghost copies keep the facts about the element they stand for */
#define INSTW(n, r, win, p)	((n) == 0 || ((win) ? ((n) - 1 < (p) ? !LT(g_w, r) : \
	(n) - 1 == (p) ? REC_EQ(&(r), &g_w) : !LT(r, g_w)) : !REC_EQ(&(r), &g_w)))
#define INST1(n, r)	INSTW(n, r, g_win1, g_p1)
#define INST2(n, r)	INSTW(n, r, g_win2, g_p2)

/* precondition of the file: sorted, contains w iff g_win1 (instances for record i) */
static void
rec1_arbitrary(rec_t *r)
{
	r->w[0] = ND64(); r->w[1] = ND64(); r->w[2] = ND64(); r->w[3] = ND64();
	if (g.i1 > 0)
		ASSUME(!LT(*r, g.last1));
	if (g_win1 && g.i1 == g_p1) ASSUME(REC_EQ(r, &g_w));
	if (g_win1 && g.i1 < g_p1) ASSUME(!LT(g_w, *r));
	if (g_win1 && g.i1 > g_p1) ASSUME(!LT(*r, g_w));
	if (!g_win1) ASSUME(!REC_EQ(r, &g_w));
}

/* precondition of the chunk: sorted, contains w iff g_win2.  Element k is only
 * looked at through peek(), which instantiates the quantified precondition. */
#define CH(k) (g_chunk + 32 * (k))
static const void *
peek(const void *vp)
{
#ifdef VF_PROOF
	const uint8_t *p = vp;
	uint64_t k;
	if (!__CPROVER_same_object(p, g_chunk))
		return (vp);
	k = (uint64_t)(p - g_chunk) / 32;
	CHECK(k < g_n2 && (uint64_t)(p - g_chunk) == 32 * k, "chunk access inside the chunk");
	if (k + 1 != g.ck) {
		rec_t r;
		CHECK(k >= g.ck, "model: chunk is walked forwards");
		r.w[0] = ND64(); r.w[1] = ND64(); r.w[2] = ND64(); r.w[3] = ND64();
		if (g.ck > 0) ASSUME(!LT(r, g.cur));
		if (g_win2 && k == g_p2) ASSUME(REC_EQ(&r, &g_w));
		if (g_win2 && k < g_p2) ASSUME(!LT(g_w, r));
		if (g_win2 && k > g_p2) ASSUME(!LT(r, g_w));
		if (!g_win2) ASSUME(!REC_EQ(&r, &g_w));
		g.cur = r;
		g.ck = k + 1;
	}
	return (&g.cur);
#else
	return (vp);
#endif
}

#ifndef VF_PROOF
static uint64_t b_tab[4], b_top[4];
#endif
/* ---- contract stubs --------------------------------------------------- */
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
	rec_t x, y;
	a = peek(a);
	b = peek(b);
	memcpy(&x, a, 32);
	memcpy(&y, b, 32);
	CHECK(n <= 32, "comparison stays inside the record");
	if (n < 32) {	/* compare a prefix only */
		for (unsigned i = 0; i < 4; i++) {
			uint64_t m = n >= 8 * i + 8 ? ~0ULL : n <= 8 * i ? 0 : ~(~0ULL >> (8 * (n - 8 * i)));
			x.w[i] &= __builtin_bswap64(m);
			y.w[i] &= __builtin_bswap64(m);
		}
	}
	a = &x;
	b = &y;
	return (REC_LT(a, b) ? -1 : REC_EQ(a, b) ? 0 : 1);
}

static FILE *
vf_fopen(const char *fn, const char *mode)
{
	if (mode[0] == 'r') {
		CHECK(PSORTED(fn), "merge reads index.sorted");
		CHECK(!g.open1, "opened once");
		errno = ENOENT;
		if (!g_exist) return (NULL);
		if (FAIL()) { errno = EMFILE; return (NULL); }
		g.open1 = 1; g.pos1 = 0;
		return (FILE_SORTED);
	}
	CHECK(mode[0] == 'w', "fopen mode");
	CHECK(PTMP(fn), "merge writes a private temporary file");
	CHECK(!g.open2, "opened once");
	if (FAIL()) return (NULL);
	g.open2 = 1; g.pos2 = 0;
	return (FILE_TMP);
}

#define HDR1	((int64_t)1 << (g_bb1 + 3))
#define SIZE1	(HDR1 + 32 * (int64_t)g_n1)

static int
vf_fseeko(FILE *f, off_t o, int whence)
{
	int64_t p = o;
	if (f == FILE_SORTED) {
		CHECK(g.open1, "stream open");
		if (whence == SEEK_END) p += SIZE1;
		if (whence == SEEK_CUR) p += g.pos1;
		if (p < 0) { errno = EINVAL; return (-1); }
		g.pos1 = p;
	} else {
		CHECK(f == FILE_TMP && g.open2, "stream open");
		if (FAIL()) return (-1);
		CHECK(whence == SEEK_SET, "model: SEEK_SET only on output");
		if (p < 0) { errno = EINVAL; return (-1); }
		g.pos2 = p;
	}
	return (0);
}

static off_t vf_ftello(FILE *f) { CHECK(f == FILE_SORTED, "ftello"); return (g.pos1); }
static int vf_fflush(FILE *f) { (void)f; if (FAIL()) return (EOF); return (0); }
static int vf_ferror(FILE *f) { return (f == FILE_SORTED && g.ferr); }


static int
vf_fclose(FILE *f)
{
	if (f == FILE_SORTED) { CHECK(g.open1, "close once"); g.open1 = 0; }
	else { CHECK(f == FILE_TMP && g.open2, "close once"); g.open2 = 0; if (FAIL()) return (EOF); }
	return (0);
}

static size_t
vf_fread(void *p, size_t sz, size_t n, FILE *f)
{
	uint64_t i;
	CHECK(f == FILE_SORTED && g.open1 && n == 1, "reads come from index.sorted");
	if (sz == 8) {
		CHECK(g.pos1 == 0, "header read at the start");
		be64enc(p, ((uint64_t)0x4161 << 48) | ((uint64_t)g_bb1 << 40) | g_n1);
		g.pos1 = 8;
		return (1);
	}
	CHECK(sz == 32, "whole records are read");
	CHECK(g.pos1 == HDR1 + 32 * (int64_t)g.i1, "every record of index.sorted is read, in order");
	if (g.i1 >= g_n1) return (0);
	if (FAIL()) { g.ferr = 1; return (0); }
	rec_t r;
	rec1_arbitrary(&r);
	g.last1 = r;
	memcpy(p, &r, 32);
	g.i1++;
	g.pos1 += 32;
	return (1);
}

static size_t
vf_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
	CHECK(f == FILE_TMP && g.open2 && n == 1, "writes go to the temporary file");
#ifndef VF_PROOF
	if (sz == 8) {	/* bucket table */
		CHECK(g.pos2 < 32, "bucket table fits its place");
		if (g.pos2 == 0) g.bw++;
		b_tab[g.pos2 / 8] = be64dec(p);
		g.pos2 += 8;
		return (1);
	}
	/* what the buckets say about this record is judged at the end */
#endif
	CHECK(sz == 32, "whole records are written");
	if (FAIL()) return (0);
	p = peek(p);
	CHECK(g.bw == 1, "header space is reserved before the first record");
	CHECK(g.pos2 % 32 == 0, "record aligned");
#ifdef VF_PROOF
	CHECK(g.upd == 1 && REC_EQ(p, &g.updrec), "bucket table is told about every record at its own number");
	g.upd = 0;
#endif
	if (g.out > 0)
		CHECK(!REC_LT(p, &g.last), "output is sorted");
#ifndef VF_PROOF
	if (g.out < 4) b_top[g.out] = be64dec(p);
#endif
	memcpy(&g.last, p, 32);
	if (REC_EQ(p, &g_w)) {
		CHECK(g_win1 || g_win2, "no record is invented");
		if (!g.wout) g.outw = g.out;
		g.wout = 1;
	}
	g.out++;
	g.pos2 += 32;
	return (1);
}

static int
vf_rename(const char *a, const char *b)
{
	CHECK(PTMP(a) && PSORTED(b), "tmp replaces index.sorted");
	CHECK(!g.open2 && !g.open1, "only complete, closed files are installed");
	CHECK(g.bw == 2, "bucket table written before installation");
	CHECK(g.out >= (g_n1 > g_n2 ? g_n1 : g_n2) || !g_exist || 1, "");
	CHECK(!(g_win1 || g_win2) || g.wout, "every record of index.sorted and of the chunk is in the output");
#ifndef VF_PROOF
	for (unsigned i = 0; i < 4; i++) {
		unsigned b = b_top[i] >> 62;
		uint64_t u = ((b_top[i] >> 40) * (b_tab[0] & 0xffffffffffULL)) >> 24;
		if (i < g.out && b > 0)
			CHECK((int64_t)(b_tab[b] + u) <= (int64_t)i, "the bucket table leads lookups to this record, or before it");
	}
#endif
	CHECK(!g.lost, "index.sorted is not replaced after an I/O error");
	CHECK(!g_exist || g.i1 == g_n1, "index.sorted read to its end");
	g.renamed++;
	return (0);
}
static pid_t vf_getpid(void) { return (4711); }

#ifdef VF_BOUNDED
static void *vf_calloc(size_t a, size_t b)
{
	static uint64_t mem[2][8];
	static int i;
	CHECK(a * b <= sizeof mem[0], "model: at most eight buckets");
	ASSUME(i < 2);
	return (mem[i++]);
}
#define calloc vf_calloc
#endif
#define memcmp vf_memcmp
#define fopen vf_fopen
#define fclose vf_fclose
#define fseeko vf_fseeko
#define ftello vf_ftello
#define fread vf_fread
#define fwrite vf_fwrite
#define fflush vf_fflush
#undef ferror
#define ferror vf_ferror
#define rename vf_rename
#define getpid vf_getpid
/* contract of idx_filename: names <dir>/index.<suffix>; here the suffix stands
 * for the whole name */
#include "vsb.h"
static struct vsb g_vsb[2];
static int g_nvsb;
#define VSB_data(v) ((v)->s_buf)
#define VSB_delete(v) ((void)(v))
struct aardwarc;
static struct vsb *idx_filename(const struct aardwarc *, const char *);
static int
vf_snprintf(char *b, size_t n, const char *f, ...)
{
	CHECK(f[0] == 't' && f[1] == 'm' && f[2] == 'p', "the temporary file is index.tmp.<pid>");
	CHECK(n > 4, "room");
	b[0] = 't'; b[1] = 'm'; b[2] = 'p'; b[3] = 0;
	return (3);
}
#define snprintf vf_snprintf
#ifdef VF_PROOF
/* contracts of the bucket functions (checked by unit idx_bucket) */
struct bucket;
static struct bucket *bucket_new(off_t est);
static void bucket_update(const struct bucket *bp, uint64_t n, const void *rec);
static void bucket_write(const struct bucket *bp, FILE *f);
static void bucket_skip(FILE *f);
#endif
#undef VDEF_H_INCLUDED
#include SRC_index
#undef fseeko
static struct vsb *idx_filename(const struct aardwarc *aa, const char *suff)
{
	struct vsb *v = &g_vsb[g_nvsb++];
	v->s_buf = (char*)suff;
	return (v);
}
#ifdef VF_PROOF
static struct bucket *bucket_new(off_t est)
{
	CHECK(est >= 0 && est <= 0xffffffffffLL, "bucket_new: record estimate in range");
	g.est = est;
	return ((struct bucket *)malloc(sizeof(struct bucket)));
}
static void bucket_update(const struct bucket *bp, uint64_t n, const void *rec)
{
	(void)bp;
	rec = peek(rec);
	CHECK(n == g.out, "bucket_update: record number counted from 0");
	CHECK(n < g.est, "bucket_update: estimate not below the number of records");
	CHECK(g.out == 0 || !REC_LT(rec, &g.last), "bucket_update: records announced in order");
	CHECK(g.upd == 0, "bucket_update: once per record");
	g.upd = 1;
	memcpy(&g.updrec, rec, 32);
}
static void bucket_write(const struct bucket *bp, FILE *f)
{
	(void)bp;
	CHECK(f == FILE_TMP && g.open2, "bucket_write: to the temporary file");
	CHECK(g.bw < 2, "bucket_write: before and after the records");
	g.bw++;
	if (g.bw == 1) g.pos2 = 32;
}
static void bucket_skip(FILE *f)
{
	CHECK(f == FILE_SORTED && g.open1, "bucket_skip: on index.sorted");
	g.pos1 = HDR1;
}
#endif

#ifndef MAXREC
#define MAXREC 2
#endif

void
harness(void)
{
	struct aardwarc aa[1];
	uint8_t *chunk;
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	aa->silo_dirname = "D";
	g_exist = NDB();
#ifdef VF_PROOF
	g_n1 = g_exist ? vf_range(0, 1ULL << 38) : 0;
	g_n2 = vf_range(1, 1ULL << 38);
	g_bb1 = vf_range(2, 28);
#else
	g_n1 = g_exist ? vf_range(0, MAXREC) : 0;
	g_n2 = vf_range(1, MAXREC);
	g_bb1 = 2;
#endif
	for (int i = 0; i < 4; i++) g_w.w[i] = ND64();
	g_win1 = NDB(); g_win2 = NDB();
	g_p1 = ND64(); g_p2 = ND64();
	ASSUME(!g_win1 || g_p1 < g_n1);
	ASSUME(!g_win2 || g_p2 < g_n2);
	#ifdef VF_PROOF
	chunk = vf_bytes(32 * g_n2);
#else
	chunk = vf_bytes(32 * MAXREC);
#endif
	g_chunk = chunk;
#ifndef VF_PROOF
	for (uint64_t k = 0; k < g_n2; k++) {
		if (g_win2 && k == g_p2) ASSUME(REC_EQ(CH(k), &g_w));
		if (!g_win2) ASSUME(!REC_EQ(CH(k), &g_w));
		if (k > 0) ASSUME(!REC_LT(CH(k), CH(k - 1)));
	}
#endif
	idx_merge(aa, chunk, 32 * (ssize_t)g_n2);
	CHECK(g.renamed == 1, "the merged file is installed exactly once");
	COVER("end");
}
uint64_t vf_nd_log;
