/* IDX_Iter(): reports every matching entry of each index file, exactly as it
 * is recorded, and nothing else, until the callback says stop. */
#include "vf.h"
#define NF 3
static int g_id[NF];			/* stream identities: sorted, appendix, housekeep */
typedef struct { uint64_t w[4]; } rec_t;
#define REC(p) ((const uint8_t *)(const void *)(p))
/* constants of a run */
static int g_exist[NF];
static uint64_t g_n[NF];		/* records in each file */
static uint64_t g_s;			/* where bucket_seek leaves index.sorted */
static int g_wf;			/* the witness: an arbitrary entry of file g_wf ... */
static uint64_t g_wn;			/* ... at number g_wn */
static rec_t g_w;
static char g_key[66];			/* lookup key */
static unsigned g_kl;			/* its length */
static int g_haskey;
static uint8_t g_kb[16];		/* key as bytes, zero padded */
static char g_whex[25], g_wcont[9];
static int g_wmatch;
static struct {
	uint64_t	i[NF];		/* next record of each file */
	rec_t		last;		/* last record read */
	int		lastf;		/* ... from this file */
	int		fresh;		/* ... not yet reported */
	int		lastmatch;	/* ... and matching */
	int		visited;	/* witness reported */
	int		stopped;	/* the callback said stop */
	int		stopval;
	int		open[NF], seeked, opened[NF];
} g;
static const char hexd[] = "0123456789abcdef";
#define NIB(r, k) ((REC(r)[(k) / 2] >> ((k) & 1 ? 0 : 4)) & 15)
static char lc(char c) { return (c >= 'A' && c <= 'F' ? c + 32 : c); }
static char hexc(unsigned n) { return (n < 10 ? '0' + n : 'a' + n - 10); }
static unsigned hexv(char c) { c = lc(c); return (c <= '9' ? c - '0' : c - 'a' + 10); }

static int
matches(const rec_t *r)
{
	int ok = 1;
	for (unsigned k = 0; k < 24; k++)
		if (g_haskey && k < g_kl && NIB(r, k) != hexv(g_key[k])) ok = 0;
	return (ok);
}

static int which(FILE *f)
{
	int k;
	for (k = 0; k < NF; k++) if ((void *)f == (void *)&g_id[k]) return (k);
	CHECK(0, "a stream opened by this call");
	return (0);
}
static FILE *vf_fopen(const char *fn, const char *m)
{
	int k = fn[0] == 's' ? 0 : fn[0] == 'a' ? 1 : 2;
	CHECK(m[0] == 'r' && m[1] != '+', "index files are only read");
	CHECK(!g.opened[k], "every index file is visited once");
	g.opened[k] = 1;
	if (!g_exist[k]) return (NULL);
	g.open[k] = 1;
	return ((FILE *)(void *)&g_id[k]);
}
static int vf_fclose(FILE *f) { int k = which(f); CHECK(g.open[k], "closed once"); g.open[k] = 0; return (0); }
static size_t
vf_fread(void *p, size_t sz, size_t n, FILE *f)
{
	int k = which(f);
	rec_t r;
	CHECK(g.open[k], "open stream");
	CHECK(sz * n == 32 && (sz == 1 || n == 1), "whole entries are read");
	CHECK(k != 0 || g.seeked, "lookup position taken before reading");
	CHECK(!g.fresh || !g.lastmatch, "no matching entry is passed over");
	g.fresh = 0;
	if (g.i[k] >= g_n[k]) return (0);
	r.w[0] = ND64(); r.w[1] = ND64(); r.w[2] = ND64(); r.w[3] = ND64();
	if (k == 0 && g.lastf == 0) ASSUME(!REC_LT(&r, &g.last));
	if (k == g_wf) {
		if (g.i[k] == g_wn) ASSUME(REC_EQ(&r, &g_w));
		if (k == 0 && g.i[k] < g_wn) ASSUME(!REC_LT(&g_w, &r));
		if (k == 0 && g.i[k] > g_wn) ASSUME(!REC_LT(&r, &g_w));
	}
	ASSUME(!(REC(&r)[20] & 0x80));		/* offsets are below 2^63 */
	g.last = r; g.lastmatch = matches(&r); g.lastf = k; g.fresh = 1;
	g.i[k]++;
	memcpy(p, &r, 32);
	return (sz == 1 ? 32 : 1);
}
/* snprintf: "%0Nx" and "%0Njx" conversions only */
static int
vf_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	unsigned o = 0;
	va_start(ap, f);
	while (*f) {
		unsigned w = 0; int l = 0; uint64_t v;
		CHECK(*f == '%' && f[1] == '0', "hexadecimal, zero padded");
		for (f += 2; *f >= '0' && *f <= '9'; f++) w = w * 10 + *f - '0';
		for (; *f == 'j' || *f == 'l'; f++) l = 1;
		CHECK(*f == 'x', "hexadecimal, lower case");
		f++;
		if (l) v = va_arg(ap, uint64_t); else v = va_arg(ap, unsigned);
		CHECK(w == 16 || (w == 8 && v <= 0xffffffffU), "full width");
		for (unsigned k = w; k > 0; k--) {
			CHECK(o + k - 1 < n, "fits");
			b[o + k - 1] = hexc(v & 15);
			v >>= 4;
		}
		o += w;
	}
	CHECK(o < n, "fits");
	b[o] = 0;
	va_end(ap);
	return (o);
}
static int vf_strncasecmp(const char *a, const char *b, size_t n)
{
	for (unsigned k = 0; k < 25; k++) {
		if (k >= n) return (0);
		if (lc(a[k]) != lc(b[k])) return (lc(a[k]) < lc(b[k]) ? -1 : 1);
		if (!a[k]) return (0);
	}
	return (0);
}
static size_t vf_strlen(const char *a) { CHECK(a == g_key, "key length"); return (g_kl); }
static size_t vf_strspn(const char *a, const char *s) { (void)s; CHECK(a == g_key, "key is hexadecimal"); return (g_kl); }
static int
vf_memcmp(const void *a, const void *b, size_t n)
{
	const uint8_t *x = a, *y = b;
	for (unsigned k = 0; k < 32; k++) {
		if (k >= n) return (0);
		if (x[k] != y[k]) return (x[k] < y[k] ? -1 : 1);
	}
	return (0);
}
#define memcmp vf_memcmp
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define snprintf vf_snprintf
#define strncasecmp vf_strncasecmp
#define strlen vf_strlen
#define strspn vf_strspn
#include "vsb.h"
static struct vsb g_vsb[1];
#define VSB_data(v) ((v)->s_buf)
#define VSB_delete(v) ((void)(v))
struct aardwarc;
static struct vsb *idx_filename(const struct aardwarc *, const char *);
static void bucket_seek(const void *rec, FILE *f);
#undef VDEF_H_INCLUDED
#include SRC_index
static struct vsb *idx_filename(const struct aardwarc *aa, const char *suff)
{ (void)aa; g_vsb->s_buf = (char *)(uintptr_t)suff; return (g_vsb); }
/* contract of bucket_seek (units bucket_seek, bucket_seek_nomatch): leaves the
 * stream at a record not after the first one matching the zero padded key */
static void bucket_seek(const void *rec, FILE *f)
{
	CHECK((void *)f == (void *)&g_id[0] && g.open[0] && !g.seeked, "only index.sorted has a bucket table");
	for (unsigned k = 0; k < 12; k++)
		CHECK(REC(rec)[k] == g_kb[k], "position looked up for the key, zero padded");
	g.seeked = 1;
	g.i[0] = g_s;
}

static int
cb(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
{
	unsigned k;
	CHECK(priv == (void *)&g_s, "callback gets its argument");
	CHECK(!g.stopped, "a callback that said stop is not called again");
	CHECK(g.fresh, "every entry is reported at most once");
	CHECK(g.lastmatch, "only matching entries are reported");
	for (k = 0; k < 24; k++)
		CHECK(key[k] == hexc(NIB(&g.last, k)), "the entry's ID prefix is reported");
	CHECK(key[24] == 0, "the entry's ID prefix is reported");
	for (k = 0; k < 8; k++)
		CHECK(cont[k] == hexc(NIB(&g.last, 56 + k)), "the entry's next segment is reported");
	CHECK(cont[8] == 0, "the entry's next segment is reported");
	CHECK(flag == be32dec(REC(&g.last) + 12), "the entry's flags are reported");
	CHECK(silo == be32dec(REC(&g.last) + 16), "the entry's silo number is reported");
	CHECK((uint64_t)offset == be64dec(REC(&g.last) + 20), "the entry's offset is reported");
	g.fresh = 0;
	if (g.lastf == g_wf && g.i[g_wf] == g_wn + 1) g.visited = 1;
	g.stopval = NDI();
	if (g.stopval) g.stopped = 1;
	return (g.stopval);
}

#ifdef VF_PROOF
#define MAXN (1ULL << 40)
#else
#define MAXN 2
#endif

void harness(void)
{
	struct aardwarc aa[1];
	int r;
	unsigned k;
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	aa->silo_dirname = "D";
	aa->id_size = 64;
	g_haskey = NDB();
	g_kl = vf_range(1, 65);
	for (k = 0; k < 66; k++) {
		g_key[k] = ND8();
		if (k < g_kl)
			ASSUME((g_key[k] >= '0' && g_key[k] <= '9') || (g_key[k] >= 'a' && g_key[k] <= 'f') || (g_key[k] >= 'A' && g_key[k] <= 'F'));
		else if (k == g_kl)
			g_key[k] = 0;
	}
	for (k = 0; k < 24; k++)
		if (g_haskey && k < g_kl)
			g_kb[k / 2] |= hexv(g_key[k]) << (k & 1 ? 0 : 4);
	for (k = 0; k < NF; k++) {
		g_exist[k] = NDB();
		g_n[k] = g_exist[k] ? vf_range(0, MAXN) : 0;
	}
	for (k = 0; k < 4; k++) g_w.w[k] = ND64();
	g_wf = vf_range(0, NF - 1);
	g_wn = ND64();
	ASSUME(g_wn < g_n[g_wf] || g_n[g_wf] == 0);
	g_wmatch = g_n[g_wf] > 0 && matches(&g_w);
	g_s = vf_range(0, MAXN);
	ASSUME(g_s <= g_n[0]);
	ASSUME(g_wf != 0 || !g_wmatch || g_s <= g_wn);
	g.lastf = -1;
	r = IDX_Iter(aa, g_haskey ? g_key : NULL, cb, &g_s);
	CHECK(!g_wmatch || g.visited || g.stopped, "every matching entry is reported");
	CHECK(g.stopped ? r == g.stopval : r <= 0, "the callback's verdict is returned");
	CHECK(!g.open[0] && !g.open[1] && !g.open[2], "every stream is closed");
	COVER("end");
	if (g.stopped) COVER("stopped");
	if (g.visited && g_wf == 0) COVER("found in index.sorted");
	if (g.visited && g_wf == 2) COVER("found in the snapshot");
}
uint64_t vf_nd_log;
