/* Housekeeping driver: idx_attempt_merge(), IDX_Resort(), idx_filename() */
#include "vf.h"
struct aardwarc;
#ifdef H_FILENAME
#include "vsbmodel.h"
#undef VDEF_H_INCLUDED
#include SRC_index
void harness(void)
{
	struct aardwarc aa[1];
	char d[4];
	static const char * const suff[4] = { SUFF_HOLD, SUFF_SORTED, SUFF_APPENDIX, SUFF_HOUSEKEEP };
	struct vsb *a, *b;
	unsigned i, j;
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	for (i = 0; i < 3; i++) { d[i] = ND8(); ASSUME(d[i] != 0); }
	d[3] = 0;
	aa->silo_dirname = d;
	i = vf_range(0, 3); j = vf_range(0, 3);
	ASSUME(i < j);
	a = idx_filename(aa, suff[i]);
	b = idx_filename(aa, suff[j]);
	CHECK(strcmp(VSB_data(a), VSB_data(b)), "the index files have distinct names");
	CHECK(!strncmp(VSB_data(a), d, 3) && VSB_data(a)[3] == '/' && strchr(VSB_data(a) + 4, '/') == NULL, "index files live in the silo directory");
	COVER("end");
}
#else
#include "vsb.h"
static struct {
	int app, hk;			/* appendix / housekeep directory entries */
	int same;			/* ... same file */
	uint64_t pos;			/* read position in housekeep, records */
	uint64_t chunk0, chunkn;	/* records of the chunk in memory */
	int sorted;
	int wmerged;			/* witness record merged */
	int isopen, closed, hkgone;
	int lock, unlocked, lockclosed;
	int attempts, last;
	int failed;
	int err;
} g;
static int g_app0, g_hk0, g_rderr, g_operr, g_linkerr;
static uint64_t g_n, g_p;		/* records in the file to be merged, witness index */
static size_t g_ss;
static struct vsb va[1], vh[1], vl[1];
static char na[] = "A", nh[] = "H", nl[] = "L";
static int *vf_errno(void) { return (&g.err); }
#undef errno
#define errno (*vf_errno())
static uint8_t *g_spc;
static int vf_link(const char *a, const char *b)
{
	CHECK(a == na && b == nh, "the appendix becomes the housekeeping snapshot");
	if (g.hk) { errno = EEXIST; return (-1); }
	if (!g.app) { errno = ENOENT; return (-1); }
	if (g_linkerr) { errno = EACCES; return (-1); }
	g.hk = 1; g.same = 1;
	return (0);
}
static int vf_unlink(const char *a)
{
	if (a == na) {
		CHECK(g.app && g.hk && g.same, "the appendix name goes only when its entries are in the snapshot");
		g.app = 0; g.same = 0;
	} else if (a == nh) {
		CHECK(g.hk && g.wmerged, "the snapshot goes only when every entry in it has been merged");
		CHECK(!g.failed, "the snapshot stays if it could not be read");
		g.hk = 0; g.hkgone = 1;
	} else {
		CHECK(a == nl && g.lock && !g.unlocked, "the housekeeping hold is released by its owner, once");
		g.unlocked = 1;
	}
	return (0);
}
static int vf_rename(const char *a, const char *b)
{
	(void)a; (void)b;
	CHECK(0, "rename(2) could replace an unmerged snapshot");
	return (0);
}
static int vf_open(const char *a, int fl, ...)
{
	if (a == nl) {
		CHECK((fl & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL), "housekeeping holds exclusively");
		if (g_operr) { errno = g_operr; return (-1); }
		g.lock = 1;
		return (4);
	}
	CHECK(a == nh && g.hk && !g.isopen && (fl & O_ACCMODE) == O_RDONLY, "the snapshot is read");
	CHECK((fl & O_TRUNC) == 0, "not truncated");
	if (g_operr) { errno = g_operr; g.failed = 1; return (-1); }
	g.isopen = 1;
	return (3);
}
static ssize_t vf_read(int fd, void *p, size_t n)
{
	uint64_t k;
	CHECK(fd == 3 && g.isopen && !g.closed && p == g_spc && n <= g_ss, "read into the sort buffer");
	CHECK((n & 31) == 0, "whole entries are read");
	if (g_rderr && NDB()) { errno = EIO; g.failed = 1; return (-1); }
	k = n / 32;
	if (k > g_n - g.pos) k = g_n - g.pos;
	g.chunk0 = g.pos; g.chunkn = k;
	g.pos += k;
	g.sorted = 0;
	return (32 * k);
}
static int vf_close(int fd)
{
	if (fd == 4) { CHECK(g.lock && !g.lockclosed, "hold closed once"); g.lockclosed = 1; }
	else { CHECK(fd == 3 && g.isopen && !g.closed, "snapshot closed once"); g.closed = 1; }
	return (0);
}
static void vf_qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	uint64_t x[4], y[4];
	int c;
	CHECK(b == g_spc && sz == 32 && n == g.chunkn, "the whole chunk is sorted");
	for (int i = 0; i < 4; i++) { x[i] = ND64(); y[i] = ND64(); }
	c = cmp(x, y);
	CHECK(REC_LT(x, y) ? c < 0 : REC_EQ(x, y) ? c == 0 : c > 0, "sorted as the merge expects");
	g.sorted = 1;
}
static void vf_free(void *p) { CHECK(p != NULL && p == g_spc, "sort buffer freed"); g_spc = NULL; }
static void *vf_malloc(size_t n);
static int vf_fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return (0); }
static int vf_memcmp(const void *a, const void *b, size_t n)
{ CHECK(n == 32, "compare whole entries"); return (REC_LT(a, b) ? -1 : REC_EQ(a, b) ? 0 : 1); }
#define memcmp vf_memcmp
#define link vf_link
#define unlink vf_unlink
#define rename vf_rename
#define open vf_open
#define read vf_read
#define close vf_close
#define qsort vf_qsort
#define free vf_free
#ifdef H_RESORT
#define malloc vf_malloc
static int idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc, const struct vsb *vsba, const struct vsb *vsbh);
static struct vsb *idx_filename(const struct aardwarc *, const char *);
#endif
#define fprintf vf_fprintf
#define VSB_data(v) ((v)->s_buf)
#define VSB_delete(v) ((void)(v))
static void idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len);
#undef VDEF_H_INCLUDED
#include SRC_index
#undef malloc
static uint8_t dummy[32];
static void idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
{
	(void)aa;
	CHECK(ptr == g_spc && len == (ssize_t)(32 * g.chunkn) && len > 0, "the whole chunk is merged");
	CHECK(g.sorted, "the chunk is sorted before it is merged");
	CHECK(g.isopen && g.hk, "merging happens while the snapshot exists");
	if (g_p >= g.chunk0 && g_p < g.chunk0 + g.chunkn) g.wmerged = 1;
}
static void setup(struct aardwarc *aa)
{
	memset(aa, 0, sizeof *aa);
	aa->magic = AARDWARC_MAGIC;
	g_ss = aa->index_sort_size = 32 * vf_range(128, 1ULL << 40);
	va->s_buf = na; vh->s_buf = nh; vl->s_buf = nl;
}
#ifdef H_ATTEMPT
void harness(void)
{
	struct aardwarc aa[1];
	int r;
	setup(aa);
#ifndef VF_PROOF
	ASSUME(g_ss <= 32 * 200);
#endif
	g_app0 = g.app = NDB(); g_hk0 = g.hk = NDB();
	g_rderr = NDB(); g_operr = NDB() ? EACCES : 0; g_linkerr = NDB();
#ifdef VF_PROOF
	g_n = vf_range(0, 1ULL << 58);
#else
	g_n = vf_range(0, 600);
#endif
	g_p = ND64();
	/* arbitrary witness entry of the file that gets merged; none if it is empty */
	if (g_n > 0) ASSUME(g_p < g_n); else g.wmerged = 1;
	g_spc = dummy;
	r = idx_attempt_merge(aa, dummy, va, vh);
	CHECK(g_spc == dummy, "the sort buffer remains with the caller");
	if (g_hk0) CHECK(g.app == g_app0, "an existing snapshot is merged first, the appendix stays");
	CHECK(g.app || g.hk || g.hkgone || !g_app0, "appendix entries stay reachable");
	if (g_hk0 || (g_app0 && !g_linkerr)) {
		if (!g.failed) {
			CHECK(g.hkgone && g.wmerged, "every entry was merged");
			CHECK(r == g_hk0, "tells if there is more to do");
		} else {
			CHECK(r < 0 && g.hk, "failure is reported and loses nothing");
		}
	} else
		CHECK(r <= 0, "nothing (more) to do");
	CHECK(g.isopen == g.closed, "closed");
	if (r == 1) COVER("again");
	if (r == -1) COVER("error");
	COVER("end");
}
static void *vf_malloc(size_t n) { (void)n; return (NULL); }
#else
static void *vf_malloc(size_t n)
{ CHECK(n == g_ss && g_spc == NULL, "sort buffer of the configured size"); if (g_rderr) return (NULL); g_spc = dummy; return (dummy); }
static struct vsb *idx_filename(const struct aardwarc *aa, const char *s)
{
	(void)aa;
	if (!strcmp(s, SUFF_HOLD)) return (vl);
	if (!strcmp(s, SUFF_APPENDIX)) return (va);
	CHECK(!strcmp(s, SUFF_HOUSEKEEP), "index file");
	return (vh);
}
static int idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc, const struct vsb *a, const struct vsb *b)
{
	(void)aa;
	CHECK(g.lock && !g.unlocked, "merging only while holding");
	CHECK(spc == g_spc && spc == dummy && a == va && b == vh, "the appendix is merged via the snapshot");
	g.attempts++;
#ifndef VF_PROOF
	ASSUME(g.attempts < 8);
#endif
	g.last = (int)vf_range(0, 2) - 1;
	return (g.last);
}
void harness(void)
{
	struct aardwarc aa[1];
	setup(aa);
	g_rderr = NDB(); g_operr = NDB() ? EEXIST : 0;
	g.last = 7;
	IDX_Resort(aa);
	CHECK(g.lock == (g_operr == 0) && g.unlocked == g.lock && g.lockclosed == g.lock, "the hold is taken and released");
	if (g.lock && !g_rderr) { CHECK(g.last <= 0, "merges until there is nothing left"); COVER("merged"); }
	CHECK(g_spc == NULL, "sort buffer released");
	COVER("end");
}
#endif
#endif
uint64_t vf_nd_log;
