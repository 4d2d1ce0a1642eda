/* Contracts of getjob.c: finding and delivering all segments of an object */
#include "vf.h"
#include "vsb.h"
struct header { const char *id, *org, *cl, *tl, *pd; int64_t clen, segno; int dead; const char *setcl, *setbd; };
struct rsilo { int dead; int64_t blen; int read; };
struct gzip_stitch;
static struct {
	int opened, hdrs, fail;
	int look; int found;	/* index lookups */
	const char *key;	/* next identifier to look up */
	int k;			/* segments done */
	int stop, cur;
	int stn, stm, stf;
	int msg, deleted, strd;
	int64_t sum;
	int ser, cloned; const char *kerr;
} g;
static struct rsilo rsw[2];
static struct header hw[2];
static struct header hcl;
static char contm[2][10], gjid[70];
static uint32_t t_silo; static int64_t t_off;
static struct vsb vm;
static char privm[4], stm[4];
static int t_n, t_gz;
static void *vf_calloc(size_t n, size_t s);
#ifdef H_DEL
static void vf_free(void *p);
#else
static void vf_free(void *p) { (void)p; }
#endif
static char *vf_strdup(const char *s);
#undef calloc
#define calloc vf_calloc
#undef free
#define free vf_free
#undef strdup
#define strdup vf_strdup
struct getjob; struct getjobseg;
static struct getjobseg *vf_win(void);
static int inv(const struct getjob *gj, struct getjobseg *gjs);
static int invsum(const struct getjob *gj, struct getjobseg *gjs, int64_t sum, int gzip);
static struct getjob *vf_gj(void);
static int invn(struct getjob *gj, const char *nid);
static int invd(struct getjob *gj);
static struct getjob *vf_del(void);
#ifdef H_NEW
void GetJob_Delete(struct getjob **pp);
#endif
#undef VDEF_H_INCLUDED
#include SRC_getjob
static struct aardwarc aam;
static struct getjob gjm;
static struct getjobseg segw[3];
static int nalloc;
static void *vf_calloc(size_t n, size_t s)
{
	(void)n; (void)s;
#ifdef H_NEW
	memset(&gjm, 0, sizeof gjm);
	return (&gjm);
#else
	CHECK(!nalloc, "one segment");
	nalloc++;
	memset(&segw[2], 0, sizeof segw[2]);
	return (&segw[2]);
#endif
}
static char *vf_strdup(const char *s) { g.strd++; return ((char *)(uintptr_t)s); }
struct rsilo *Rsilo_Open(struct aardwarc *a, const char *fn, uint32_t silo, int64_t off)
{
	CHECK(a == &aam && fn == NULL && silo == t_silo && off == t_off, "the record is read from the silo and offset the index says");
	g.opened++;
	return (&rsw[0]);
}
struct header *Rsilo_ReadHeader(struct rsilo *r) { CHECK(r == &rsw[0] && !r->dead, "its header"); g.hdrs++; return (&hw[0]); }
void Rsilo_Close(struct rsilo **r) { CHECK(*r != NULL && !(*r)->dead, "closed once"); (*r)->dead = 1; *r = NULL; }
void Header_Destroy(struct header **h) { CHECK(*h != NULL && !(*h)->dead, "freed once"); (*h)->dead = 1; *h = NULL; }
const char *Header_Get_Id(const struct header *h) { CHECK(!h->dead, "alive"); return (h->id); }
const char *Header_Get(const struct header *h, const char *n)
{
	CHECK(!h->dead, "alive");
	if (!strcmp(n, "WARC-Segment-Origin-ID")) return (h->org);
	if (!strcmp(n, "WARC-Segment-Total-Length")) return (h->tl);
	if (!strcmp(n, "WARC-Payload-Digest")) return (h->pd);
	if (!strcmp(n, "Content-Length")) return (h->cl);
	CHECK(0, "a field of segments");
	return (NULL);
}
intmax_t Header_Get_Number(const struct header *h, const char *n)
{
	CHECK(!h->dead, "alive");
	if (!strcmp(n, "WARC-Segment-Number")) return (h->segno);
	CHECK(!strcmp(n, "Content-Length"), "number");
#if defined(H_TOTAL) && defined(VF_PROOF)
	CHECK(h == &hw[g.cur] && g.k < t_n && !t_gz, "the lengths of all segments, in order");
	g.sum += h->clen; g.k++; g.cur = !g.cur;
#endif
	return (h->clen);
}
int VSB_printf(struct vsb *v, const char *f, ...)
{
	va_list ap;
	CHECK(v == &vm, "message");
	va_start(ap, f);
	CHECK(!strcmp(f, "%s") && va_arg(ap, const char *) != NULL, "a message");
	va_end(ap);
	g.msg++;
	return (0);
}
static int vf_func(void *p, const void *d, ssize_t n) { (void)p; (void)d; (void)n; return (0); }

#if defined(H_ITER)
static char lc(char c) { return (c >= 'A' && c <= 'Z' ? c + 32 : c); }
static int hexd(char c) { return ((c >= '0' && c <= '9') || (lc(c) >= 'a' && lc(c) <= 'f')); }
static int eqc(const char *a, const char *b, int n) { int ok = 1; for (int i = 0; i < 64; i++) if (i < n && lc(a[i]) != lc(b[i])) ok = 0; return (ok); }
void harness(void)
{
	static char hid[66], org[70], pfx[4] = "p:", cont[10];
	int first = NDB();
	int ids = vf_range(16, 64);
	unsigned n0 = vf_range(1, 1 << 30);
	aam.magic = AARDWARC_MAGIC; aam.id_size = ids; aam.prefix = pfx;
	gjm.magic = GETJOB_MAGIC; gjm.aa = &aam; gjm.vsb = &vm; gjm.id = gjid;
	for (int i = 0; i < 64; i++) {
		if (i >= ids) continue;
		gjid[i] = ND8(); hid[i] = ND8(); org[3 + i] = ND8();
		ASSUME(hexd(gjid[i]) && hexd(hid[i]) && hexd(org[3 + i]));
	}
	gjid[ids] = hid[ids] = org[ids + 4] = '\0';
	org[0] = '<'; org[1] = 'p'; org[2] = ':'; org[ids + 3] = '>';
	hw[0].id = hid;
	hw[0].org = NDB() ? org : NULL;
	hw[0].segno = vf_range(0, 1ULL << 31);
	uint32_t fl = ND32();
	t_silo = ND32(); t_off = vf_range(0, 1ULL << 60);
	VTAILQ_INIT(&gjm.segs);
	if (!first) { segw[0].magic = GETJOBSEG_MAGIC; segw[0].segno = n0; VTAILQ_INSERT_TAIL(&gjm.segs, &segw[0], list); }
	gjm.nsegs = first ? 0 : n0;
	static const char none[] = "none";
	gjm.err = none;
	int same = eqc(hid, gjid, ids), isorg = hw[0].org != NULL && eqc(org + 3, gjid, ids);
	/* the entry of a continuation segment: written together with its header (C08) */
	int wi = same && (fl & IDX_F_WARCINFO);
	int want = first ? same && !wi && (!(fl & IDX_F_SEGMENTED) || (fl & IDX_F_FIRSTSEG)) : isorg && hw[0].segno == (int64_t)n0 + 1;
	ASSUME(!(wi && want));
	int r = getjob_iter(&gjm, "key", fl, t_silo, t_off, cont);
	CHECK(r == want, "a record is used exactly if it is the object, or the next segment of it");
	if (r) {
		struct getjobseg *s = &segw[2];
		CHECK(nalloc == 1 && gjm.segs.vtqh_last == &s->list.vtqe_next && VTAILQ_FIRST(&gjm.segs) == (first ? s : &segw[0]), "it becomes the last segment");
		CHECK(s->rs == &rsw[0] && s->hdr == &hw[0] && !rsw[0].dead && !hw[0].dead, "with its silo and header");
		CHECK(s->idx_flag == fl && s->idx_cont == cont && s->segno == (first ? 1 : n0 + 1), "and what the index says about it");
		CHECK(gjm.nsegs == (first ? 1 : (int)n0 + 1), "segments are counted");
		if (first) COVER("first"); else COVER("next");
	} else {
		CHECK(rsw[0].dead && hw[0].dead, "closed and freed");
		CHECK(gjm.err != NULL, "reason");
		CHECK(nalloc == 0 && gjm.nsegs == (first ? 0 : (int)n0), "nothing added");
	}
	COVER("end");
}
#elif defined(H_NEW)
static int t_valid; static const char t_in[] = "in", t_nid[] = "nid", t_un[] = "00000000";
const char *IDX_Valid_Id(const struct aardwarc *a, const char *id, const char **n) { CHECK(a == &aam && id == t_in, "the identifier given"); if (t_valid) *n = t_nid; return (t_valid ? NULL : "bad"); }
/* the list after k segments: first and last one in slots 0 and 1 */
static void mkgj(int k)
{
	memset(&gjm, 0, sizeof gjm);
	gjm.magic = GETJOB_MAGIC; gjm.aa = &aam; gjm.vsb = &vm; gjm.id = t_nid; gjm.nsegs = k;
	gjm.err = "x";
	VTAILQ_INIT(&gjm.segs);
	if (k > 0) { memset(&segw[0], 0, sizeof segw[0]); segw[0].magic = GETJOBSEG_MAGIC; segw[0].segno = 1; segw[0].idx_cont = contm[0]; segw[0].idx_flag = IDX_F_SEGMENTED | IDX_F_FIRSTSEG; VTAILQ_INSERT_TAIL(&gjm.segs, &segw[0], list); }
	if (k > 1) { memset(&segw[1], 0, sizeof segw[1]); segw[1].magic = GETJOBSEG_MAGIC; segw[1].segno = k; segw[1].idx_cont = contm[1]; segw[1].idx_flag = IDX_F_SEGMENTED; VTAILQ_INSERT_TAIL(&gjm.segs, &segw[1], list); }
}
static struct getjob *vf_gj(void)
{
	int k = vf_range(0, 1 << 30);
	mkgj(k);
	g.k = g.look = k;
	g.key = k == 0 ? t_nid : k == 1 ? contm[0] : contm[1];
	return (&gjm);
}
static int invn(struct getjob *gj, const char *nid)
{
	return (gj == &gjm && gjm.magic == GETJOB_MAGIC && gjm.nsegs == g.k && nid == g.key && gjm.err != NULL && !g.msg && !g.deleted && g.look == g.k && gjm.id == t_nid && gjm.vsb == &vm &&
	    (g.k == 0) == (gjm.segs.vtqh_first == NULL) && (g.k == 0 || gjm.segs.vtqh_first == &segw[0]));
}
int IDX_Iter(const struct aardwarc *a, const char *key, idx_iter_f *f, void *priv)
{
	CHECK(a == &aam && f == getjob_iter && priv == &gjm, "the index is searched for segments of the object");
	CHECK(key == g.key, "for the identifier, or the prefix of the next segment's one");
	CHECK(!g.fail && !g.found, "the search ends at the last segment, or the first missing one");
	g.look++;
#ifndef VF_PROOF
	ASSUME(g.look <= 3);
#endif
	if (NDB()) { g.fail = 1; if (NDB()) gjm.err = "why"; return (NDB() ? 0 : -1); }
	struct getjobseg *s = &segw[g.k == 0 ? 0 : g.k == 1 ? 1 : 2];
	memset(s, 0, sizeof *s);
	s->magic = GETJOBSEG_MAGIC; s->segno = g.k + 1;
	s->idx_cont = g.k == 0 ? contm[0] : g.k == 1 ? contm[1] : gjid;
	int seg = NDB(), last = NDB();
	ASSUME(seg || g.k == 0);
	if (seg) s->idx_flag = IDX_F_SEGMENTED | (g.k == 0 ? IDX_F_FIRSTSEG : 0) | (last ? IDX_F_LASTSEG : 0);
	else s->idx_cont = (char *)(uintptr_t)t_un;
	s->idx_flag |= IDX_F_RESOURCE;
	g.found = !seg || last;
	VTAILQ_INSERT_TAIL(&gjm.segs, s, list);
	gjm.nsegs++;
	g.k++;
	g.key = s->idx_cont;
	return (1);
}
void GetJob_Delete(struct getjob **pp) { CHECK(*pp == &gjm && !g.deleted, "deleted once"); g.deleted = 1; *pp = NULL; }
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
	t_valid = NDB();
	g.key = t_nid;
	struct getjob *r = GetJob_New(&aam, t_in, &vm);
	if (r == NULL) {
		CHECK(g.msg == 1, "the reason is reported");
		CHECK(!t_valid || (g.fail && g.deleted), "given up only if a segment is missing");
		CHECK(t_valid || !g.look, "invalid identifiers are not looked up");
	} else {
		CHECK(r == &gjm && t_valid && g.found && !g.fail && !g.msg && !g.deleted, "all segments have been found");
		CHECK(gjm.nsegs == g.k && gjm.id == t_nid && gjm.aa == &aam, "the job");
		COVER("found");
	}
	COVER("end");
}
#else
/* current segment, number g.k of t_n, in slot g.cur */
static void mkseg(int x, int k)
{
	memset(&segw[x], 0, sizeof segw[x]);
	segw[x].magic = GETJOBSEG_MAGIC; segw[x].segno = k + 1; segw[x].rs = &rsw[x]; segw[x].hdr = &hw[x];
	rsw[x].read = 0; rsw[x].dead = 0; hw[x].dead = 0;
	rsw[x].blen = vf_range(1, 1ULL << 40);
	hw[x].clen = vf_range(1, 1ULL << 40);
}
static struct getjobseg *vf_win(void)
{
	int k = vf_range(0, t_n);
	g.k = k; g.cur = 0;
	g.sum = vf_range(0, 1ULL << 61);
	if (k == t_n) return (NULL);
	mkseg(0, k);
	if (k + 1 < t_n) { mkseg(1, k + 1); segw[0].list.vtqe_next = &segw[1]; }
	return (&segw[0]);
}
static int inv(const struct getjob *gj, struct getjobseg *gjs)
{
	return (gj == &gjm && g.k >= 0 && g.k <= t_n && !g.stop && gjs == (g.k < t_n ? &segw[g.cur] : NULL) && gjm.nsegs == t_n && gjm.magic == GETJOB_MAGIC &&
	    g.stn == (t_gz && t_n > 1) && g.stm == 0 && g.stf == 0 && (gjs == NULL || (gjs->segno == (unsigned)g.k + 1 && gjs->rs == &rsw[g.cur] && gjs->hdr == &hw[g.cur])));
}
static void donext(void) { g.k++; g.cur = !g.cur; }
static uint64_t rd(struct rsilo *r, byte_iter_f *f, void *p, int gz)
{
	CHECK(g.k < t_n && r == &rsw[g.cur] && !r->read, "segments are delivered in order, each once");
	CHECK(!g.stop, "nothing is delivered after the caller said stop");
	r->read = 1;
	if (gz && t_n > 1) {
		CHECK(f == gzip_stitch_feed && p == stm && g.stm == 1, "segments are stitched together");
		g.stm = 0;
	} else CHECK(f == vf_func && p == privm, "delivered to the caller");
	CHECK(gz == t_gz, "compressed only if asked for");
	donext();
	if (NDB()) { g.stop = 1; return (0); }
	return (vf_range(1, 1ULL << 62));
}
uintmax_t Rsilo_ReadChunk(struct rsilo *r, byte_iter_f *f, void *p) { return (rd(r, f, p, 0)); }
off_t Rsilo_ReadGZChunk(struct rsilo *r, byte_iter_f *f, void *p) { return (rd(r, f, p, 1)); }
int64_t Rsilo_BodyLen(const struct rsilo *r)
{
#if defined(H_TOTAL) && defined(VF_PROOF)
	CHECK(r == &rsw[g.cur] && g.k < t_n && t_gz, "the lengths of all segments, in order");
	g.sum += r->blen; donext();
#endif
	return (r->blen);
}
struct gzip_stitch *gzip_stitch_new(byte_iter_f *f, void *p) { CHECK(f == vf_func && p == privm && !g.stn && g.k == 0, "one stream for the caller"); g.stn++; return ((struct gzip_stitch *)stm); }
void gzip_stitch_member(struct gzip_stitch *gs, off_t n) { CHECK((void *)gs == stm && g.k < t_n && n == hw[g.cur].clen && !g.stm, "the length of each segment is announced"); g.stm = 1; }
int gzip_stitch_feed(void *p, const void *d, ssize_t n) { (void)p; (void)d; (void)n; return (0); }
int gzip_stitch_fini(struct gzip_stitch *gs) { CHECK((void *)gs == stm && !g.stf, "the stream is completed once"); CHECK(g.stop || g.k == t_n, "after all segments"); g.stf++; return (0); }
static void setup(void)
{
	aam.magic = AARDWARC_MAGIC;
	gjm.magic = GETJOB_MAGIC; gjm.aa = &aam;
#if defined(VF_PROOF) && !defined(T2)
	t_n = vf_range(1, 1 << 20);
#else
	t_n = vf_range(1, 2);
#endif
	gjm.nsegs = t_n;
	VTAILQ_INIT(&gjm.segs);
	mkseg(0, 0);
	VTAILQ_INSERT_TAIL(&gjm.segs, &segw[0], list);
	if (t_n > 1) { mkseg(1, 1); VTAILQ_INSERT_TAIL(&gjm.segs, &segw[1], list); }
}
#if defined(H_DELIVER)
void harness(void)
{
	t_gz = NDB();
	setup();
	GetJob_Iter(&gjm, vf_func, privm, t_gz ? 1 + NDB() : 0);
	CHECK(g.stop || g.k == t_n, "all segments are delivered, unless the caller says stop");
	CHECK(g.stn == g.stf && g.stn == (t_gz && t_n > 1), "segments of compressed output are stitched");
	if (g.k == t_n) COVER("all");
	COVER("end");
}
#elif defined(H_TOTAL)
static int invsum(const struct getjob *gj, struct getjobseg *gjs, int64_t sum, int gzip)
{
	return (gj == &gjm && !gzip == !t_gz && g.k >= 0 && g.k <= t_n && gjs == (g.k < t_n ? &segw[g.cur] : NULL) && gjm.magic == GETJOB_MAGIC && sum == g.sum && sum >= 0 && sum <= (int64_t)g.k << 40 &&
	    (gjs == NULL || (gjs->rs == &rsw[g.cur] && gjs->hdr == &hw[g.cur])));
}
void harness(void)
{
	t_gz = NDB();
	setup();
#ifdef VF_PROOF
	ASSUME(t_n <= 1 << 16);
	CHECK(GetJob_IsSegmented(&gjm) == (t_n > 1), "segmented");
	CHECK(GetJob_Header(&gjm, 1) == &hw[0] && GetJob_Header(&gjm, 0) == &hw[t_n > 1], "headers of first and last segment");
	CHECK(GetJob_TotalLength(&gjm, t_gz) == g.sum && g.k == t_n, "the total length is the sum over all segments");
#else
	int64_t want = (t_gz ? rsw[0].blen : hw[0].clen) + (t_n > 1 ? (t_gz ? rsw[1].blen : hw[1].clen) : 0);
	int64_t r = GetJob_TotalLength(&gjm, t_gz);
	CHECK(r == want, "the total length is the sum over all segments");
	CHECK(GetJob_IsSegmented(&gjm) == (t_n > 1), "segmented");
	CHECK(GetJob_Header(&gjm, 1) == &hw[0] && GetJob_Header(&gjm, 0) == &hw[t_n - 1], "headers of first and last segment");
#endif
	COVER("end");
}
#elif defined(H_DEL)
/* the segments left, g.k of t_n are gone: the first one is in slot g.cur */
static int t_fc, t_fs, t_fj;
static void vf_free(void *p)
{
	if (p == NULL) return;
	if (p == &gjm) { CHECK(g.k == t_n && gjm.segs.vtqh_first == NULL && !t_fj, "the job, when its segments are gone"); t_fj = 1; return; }
	CHECK(g.k < t_n, "a segment which is left");
	if (p == segw[g.cur].idx_cont || p == contm[g.cur]) { CHECK(!t_fc, "once"); t_fc = 1; return; }
	CHECK(p == &segw[g.cur], "the first segment");
	CHECK(t_fc && rsw[g.cur].dead && hw[g.cur].dead, "its silo is closed, its header and the rest of it freed");
	CHECK(gjm.segs.vtqh_first != &segw[g.cur], "and is not in the list");
	t_fc = 0; g.k++; g.cur = !g.cur;
}
static void mkdel(int x, int k) { mkseg(x, k); segw[x].idx_cont = contm[x]; VTAILQ_INSERT_TAIL(&gjm.segs, &segw[x], list); }
static struct getjob *vf_del(void)
{
	int k = vf_range(0, t_n);
	g.k = k; g.cur = 0; t_fc = 0; t_fj = 0;
	gjm.magic = GETJOB_MAGIC;
	VTAILQ_INIT(&gjm.segs);
	if (k < t_n) mkdel(0, k);
	if (k + 1 < t_n) mkdel(1, k + 1);
	return (&gjm);
}
static int invd(struct getjob *gj)
{
	return (gj == &gjm && gjm.magic == GETJOB_MAGIC && !t_fj && !t_fc && g.k >= 0 && g.k <= t_n && gjm.segs.vtqh_first == (g.k < t_n ? &segw[g.cur] : NULL));
}
void harness(void)
{
	setup();
	segw[0].idx_cont = contm[0]; segw[1].idx_cont = contm[1];
	struct getjob *p = &gjm;
	GetJob_Delete(&p);
	CHECK(p == NULL && t_fj == 1 && g.k == t_n, "everything is freed, exactly once");
	COVER("end");
}
#elif defined(H_HEADERS)
static char serm[4];
struct header *Header_Clone(const struct header *h) { CHECK(h == &hw[0] && !g.cloned, "of the first segment"); g.cloned++; hcl = *h; return (&hcl); }
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	const char *v;
	CHECK(h == &hcl, "the headers of the segments themselves are not modified");
	va_start(ap, f);
	CHECK(!strcmp(f, "%s"), "value"); v = va_arg(ap, const char *);
	va_end(ap);
	if (!strcmp(n, "Content-Length")) h->setcl = v;
	else if (!strcmp(n, "WARC-Block-Digest")) h->setbd = v;
	else CHECK(0, "only length and digest differ");
}
struct vsb *Header_Serialize(const struct header *h, int level)
{
	CHECK(level == -1 && !h->dead, "as text");
	g.ser++;
	if (t_n == 1) CHECK(h == &hw[0], "the header of the record");
	else {
		CHECK(h == &hcl, "the header of the first segment, adapted");
		CHECK(h->setcl == hw[1].tl && h->setbd == hw[0].pd, "with length and digest of the whole object");
	}
	return ((struct vsb *)serm);
}
void harness(void)
{
	setup();
	hw[1].tl = "123"; hw[0].pd = "sha256:x"; hw[0].tl = NULL;
	struct vsb *v = GetJob_Headers(&gjm);
	CHECK((void *)v == serm && g.ser == 1, "the headers");
	CHECK(!g.cloned || hcl.dead, "freed");
	COVER("end");
}
#endif
#endif
uint64_t vf_nd_log;
