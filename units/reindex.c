/* Contracts of main_reindex.c */
#include "vf.h"
#include "vsb.h"
struct header { int tag; };
static struct {
	int st, opens, closes, n, ins, segs, sort, freed;
	int need; int done[8], cont[8];
	int iters, call, bad;
} g;
static char rsm[4];
static int t_type, t_seg;
static int64_t t_segno, t_off;
static char t_id[4] = "id";
struct aardwarc; struct rsilo;
#ifdef H_SILO
static void got_seg(const struct aardwarc *aa, const struct header *hdr, uint32_t flg, off_t off, off_t segno, ssize_t silono);
static int invr(const struct rsilo *, ssize_t);
static unsigned long vf_strtoul(const char *s, char **e, int b);
#define strtoul vf_strtoul
#endif
static int vf_printf(const char *f, ...) { (void)f; return (0); }
#define printf vf_printf
#ifdef H_MAIN
static int vf_getopt(int c, char *const *v, const char *o) { (void)c; (void)v; (void)o; return (-1); }
#undef getopt
#define getopt vf_getopt
#undef optind
#define optind 1
static int silo_iter(void *, const void *, ssize_t);
static int reindex_iter(void *, const char *, uint32_t, uint32_t, int64_t, const char *);
static void dump_left(const struct aardwarc *);
static char **vf_argv(void);
static int vf_argc(void), invm(int, char **, int);
#endif
#ifdef H_REI
static void vf_free2(void *p);
#define free vf_free2
static int t_w1; static struct seg *vf_at(void);
static int invi(const struct seg *);
#endif
#ifdef H_SEG
static void vf_free(void *p);
static void *vf_calloc(size_t n, size_t l);
static char *vf_strdup(const char *s) { return ((char *)(uintptr_t)s); }
#undef strdup
#define strdup vf_strdup
#define free vf_free
#define calloc vf_calloc
#endif
#undef VDEF_H_INCLUDED
#include SRC_main_reindex
static struct aardwarc aam;
static struct header hm, hms[8];
#define RS ((struct rsilo *)rsm)
#if defined(H_SILO)
static const char *const types[5] = { "resource", "metadata", "warcinfo", "continuation", "conversion" };
static const uint32_t tflags[5] = { IDX_F_RESOURCE, IDX_F_METADATA, IDX_F_WARCINFO, 0, 0 };
static char t_fn[] = "d/17.gz";
static ssize_t t_silono, t_want;
static int t_have;
static void next(void)
{
	t_off = vf_range(0, INT64_MAX);
	t_type = vf_range(0, 4);
	t_seg = NDB();
	t_segno = vf_range(0, INT64_MAX);
}
struct rsilo *Rsilo_Open(struct aardwarc *aa, const char *fn, uint32_t no, int64_t off)
{
	CHECK(aa == &aam && fn == t_fn && no == (uint32_t)t_silono && off == 0 && !g.opens, "opens this silo at its start");
	if (!t_have) return (NULL);
	g.opens = 1;
	return (RS);
}
void Rsilo_Close(struct rsilo **r) { CHECK(*r == RS && g.st == 9 && !g.closes, "closed at the end"); g.closes = 1; *r = NULL; }
off_t Rsilo_Tell(const struct rsilo *r) { CHECK(r == RS && g.st <= 1, "where the record starts"); g.st = 1; return (t_off); }
struct header *Rsilo_ReadHeader(struct rsilo *r)
{
	CHECK(r == RS && g.st <= 1, "next header");
#ifdef VF_PROOF
	int end = NDB();
#else
	int end = NDB() || g.n >= 3;
#endif
	if (end) { g.st = 9; return (NULL); }
	g.st = 2;
	g.need = 1;
	return (&hm);
}
const char *Header_Get(const struct header *h, const char *n)
{
	CHECK(h == &hm && g.st == 2, "header of this record");
	CHECK(!strcmp(n, "WARC-Type"), "its type");
	return (types[t_type]);
}
intmax_t Header_Get_Number(const struct header *h, const char *n)
{
	CHECK(h == &hm && g.st == 2 && !strcmp(n, "WARC-Segment-Number"), "number of the segment");
	return (t_seg ? t_segno : -1);
}
const char *Header_Get_Id(const struct header *h) { CHECK(h == &hm, "identifier of this record"); return (t_id); }
void Header_Destroy(struct header **h) { CHECK(*h == &hm && g.st == 2, "the header"); *h = NULL; g.freed = 1; }
void Rsilo_NextHeader(struct rsilo *r) { CHECK(r == RS && g.st == 2, "on to the next record"); g.st = 0; if (g.n < 100) g.n++; CHECK(!g.need, "each record is entered in the index"); next(); }
void IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags, uint32_t silo, uint64_t offset, const char *cont)
{
	CHECK(aa == &aam && key == t_id && !t_seg && g.need, "each unsegmented record once");
	CHECK(flags == tflags[t_type] && silo == (uint32_t)t_want && offset == (uint64_t)t_off && cont == NULL, "with its type and where it is");
	g.need = 0;
}
static void got_seg(const struct aardwarc *aa, const struct header *hdr, uint32_t flg, off_t off, off_t segno, ssize_t silono)
{
	CHECK(aa == &aam && hdr == &hm && t_seg && g.need && flg == tflags[t_type] && off == t_off && segno == t_segno && silono == t_want, "each segment once, with its type, number and where it is");
	g.need = 0;
}
void IDX_Resort(const struct aardwarc *aa) { CHECK(aa == &aam && g.closes, "sorted at the end"); g.sort = 1; }
static int invr(const struct rsilo *rs, ssize_t silono) { return (rs == RS && g.st == 0 && g.opens && !g.closes && !g.need && !g.sort && silono == t_want && g.n >= 0 && g.n <= 100); }
static unsigned long vf_strtoul(const char *s, char **e, int b) { CHECK(s == t_fn + 2 && e == NULL && b == 10, "number from the file name"); return (17); }
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
	t_have = NDB();
	t_silono = NDB() ? -1 : (ssize_t)vf_range(0, UINT32_MAX);
	t_want = t_silono < 0 ? 17 : t_silono;
	next();
	int r = silo_iter(&aam, t_fn, t_silono);
	CHECK(r == (t_have ? 0 : -1), "a silo which cannot be opened is an error");
	if (t_have) CHECK(g.st == 9 && g.closes && g.sort, "all records were read and sorted");
	COVER("end");
}
#elif defined(H_REI)
#undef free
/* Leftover segments, any number of them: X is at an arbitrary place of the
 * list, P the last one kept in front of it, N the one behind it. */
static struct seg P, X, N, Z[2], *t_prev, *t_next;
static char t_key[17], t_oid[20], t_keyc[4];
static uint32_t t_flag;
static int t_w0, t_m, t_freed, t_ins; static unsigned t_ns;
static struct seg *t_x = &X;
static int zin[2], zm[2];
static void mkid(char *d, int same)
{
	for (int i = 0; i < 16; i++) d[i] = t_key[i];
	d[16] = 'x'; d[17] = 0;
	if (!same) { int k = vf_range(0, 15); d[k] = t_key[k] == 'a' ? 'b' : 'a'; }
}
static void mkseg(struct seg *s, char *id)
{
	memset(s, 0, sizeof *s);
	s->magic = SEG_MAGIC; s->id = id; s->flg = ND32(); s->off = ND64(); s->silono = ND32(); s->used = NDB(); s->parent = NULL;
}
static void vf_free2(void *p)
{
	if (p == NULL || p == (void *)t_oid) return;
#ifdef VF_PROOF
	CHECK(p == &X && t_ins, "only what has been entered is dropped");
	t_freed++;
#else
	for (int i = 0; i < 2; i++) if (p == &Z[i]) zin[i] |= 4;
#endif
}
void IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags, uint32_t silo, uint64_t offset, const char *cont)
{
	CHECK(aa == &aam, "index");
	CHECK(t_flag & IDX_F_SEGMENTED, "only for segments");
	CHECK(cont == t_keyc, "with the successor the index had");
#ifdef VF_PROOF
	CHECK(t_m && !t_ins && key == X.id && flags == X.flg && (ssize_t)silo == X.silono && offset == (uint64_t)X.off, "the segment which has this key, as it was met");
	t_ins++;
#else
	int hit = 0;
	for (int i = 0; i < 2; i++) if (key == Z[i].id && flags == Z[i].flg && (ssize_t)silo == Z[i].silono && offset == (uint64_t)Z[i].off && zm[i] && !(zin[i] & 2) && !hit) { zin[i] |= 2; hit = 1; }
	CHECK(hit, "the segment which has this key, as it was met");
#endif
}
static struct seg *vf_at(void)
{
	VTAILQ_INIT(&segs);
	t_prev = t_next = NULL;
	t_w0 = 1; t_ins = t_freed = 0;
	nsegs = t_ns = vf_range(1, UINT32_MAX);
	if (NDB()) { mkseg(&P, t_oid); t_prev = &P; VTAILQ_INSERT_TAIL(&segs, &P, list); }
	if (NDB()) return (NULL);
	t_m = NDB();
	mkid(t_oid, t_m);
	mkseg(&X, t_oid);
	VTAILQ_INSERT_TAIL(&segs, &X, list);
	if (NDB()) { mkseg(&N, t_oid); t_next = &N; VTAILQ_INSERT_TAIL(&segs, &N, list); }
	return (&X);
}
static int invi(const struct seg *s)
{
	if (!t_w0) return (s == VTAILQ_FIRST(&segs));
	if (!t_w1) return (1);
	CHECK(s == t_next, "goes on with the next one");
	struct seg *n = t_m ? t_next : &X;
	CHECK(t_ins == t_m && t_freed == t_m && nsegs == t_ns - t_m, "every segment with this key is entered and dropped, others are not");
	CHECK((t_prev ? t_prev->list.vtqe_next : segs.vtqh_first) == n, "others stay in the list");
	if (n) CHECK(n->list.vtqe_prev == (t_prev ? &t_prev->list.vtqe_next : &segs.vtqh_first), "in order");
	else CHECK(segs.vtqh_last == (t_prev ? &t_prev->list.vtqe_next : &segs.vtqh_first), "to its end");
	if (t_m) COVER("entered"); else COVER("kept");
	return (1);
}
void harness(void)
{
	aam.magic = AARDWARC_MAGIC; aam.id_size = 64;
	for (int i = 0; i < 16; i++) { t_key[i] = ND8(); ASSUME((t_key[i] >= '0' && t_key[i] <= '9') || (t_key[i] >= 'a' && t_key[i] <= 'f')); }
	t_flag = ND32();
	VTAILQ_INIT(&segs);
#ifdef VF_PROOF
	if (NDB()) { mkid(t_oid, NDB()); mkseg(&X, t_oid); VTAILQ_INSERT_TAIL(&segs, &X, list); }
#else
	static char zid0[20], zid1[20]; char *const zid[2] = { zid0, zid1 };
	int n = vf_range(0, 2);
	for (int i = 0; i < 2; i++) if (i < n) { zm[i] = NDB(); mkid(zid[i], zm[i]); mkseg(&Z[i], zid[i]); zin[i] = 1; VTAILQ_INSERT_TAIL(&segs, &Z[i], list); nsegs++; }
#endif
	int r = reindex_iter(&aam, t_key, t_flag, ND32(), ND64(), t_keyc);
	CHECK(r == 0, "the whole index is looked at");
#ifdef VF_PROOF
	if (!(t_flag & IDX_F_SEGMENTED)) CHECK(!t_w0, "other entries mean nothing here");
#else
	const struct seg *s = VTAILQ_FIRST(&segs);
	for (int i = 0; i < 2; i++) if (i < n) {
		int m = zm[i] && (t_flag & IDX_F_SEGMENTED);
		CHECK(zin[i] == (m ? 7 : 1), "every segment with this key is entered and dropped, others are not");
		if (!m) { CHECK(s == &Z[i], "others stay in the list"); s = VTAILQ_NEXT(s, list); }
	}
	CHECK(s == NULL, "nothing else");
#endif
	COVER("end");
}
#elif defined(H_SEG)
/* segments: 0..2 are those of one object, 3..4 of another, 5 is a single one */
static const char *const ids[6] = { "aaaaaaaaaaaaaaaa", "baaaaaaaaaaaaaaa", "caaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaab", "daaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaac" };
static const char *const orgs[6] = { NULL, "<p/aaaaaaaaaaaaaaaa>", "<p/aaaaaaaaaaaaaaaa>", NULL, "<p/aaaaaaaaaaaaaaab>", NULL };
static const int succ[6] = { 1, 2, -1, 4, -1, -1 }, nos[6] = { 1, 2, 3, 1, 2, 1 };
static struct seg sm[6];
static int nsm;
static void vf_free(void *p) { (void)p; }
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof sm[0] && nsm < 6, "a segment"); return (&sm[nsm++]); }
const char *Header_Get_Id(const struct header *h) { return (ids[h - hms]); }
const char *Header_Get(const struct header *h, const char *n)
{
	if (!strcmp(n, "WARC-Segment-Origin-ID")) return (orgs[h - hms]);
	CHECK(!strcmp(n, "WARC-Segment-Total-Length"), "only the last segment has the total length");
	return (succ[h - hms] < 0 ? "9" : NULL);
}
void IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags, uint32_t silo, uint64_t offset, const char *cont)
{
	int i = -1;
	CHECK(aa == &aam, "index");
	for (int j = 0; j < 6; j++) if (!strncmp(key, ids[j], 16)) i = j;
	CHECK(i >= 0 && !g.done[i], "each segment is entered once");
	ASSUME(i >= 0);
	g.done[i] = 1;
	CHECK(silo == 10U + i && offset == 100U * i, "where it is");
	CHECK(flags == (IDX_F_RESOURCE | IDX_F_SEGMENTED | (nos[i] == 1 ? IDX_F_FIRSTSEG : 0) | (succ[i] < 0 ? IDX_F_LASTSEG : 0)), "with its flags");
	if (succ[i] < 0) CHECK(cont == NULL, "the last segment is not continued");
	else {
		CHECK(cont != NULL, "others are");
		ASSUME(cont != NULL);
		CHECK(!strncmp(cont, ids[succ[i]], 16), "by the next one");
	}
}
static void one(int a, int b, int c, int d, int e, int f)
{
	int o[6] = { a, b, c, d, e, f }, have = 0;
	for (int i = 0; i < 6; i++) {
		if (o[i] < 0) continue;
		have |= 1 << o[i];
		got_seg(&aam, &hms[o[i]], IDX_F_RESOURCE, 100 * o[i], nos[o[i]], 10 + o[i]);
	}
	for (int i = 0; i < 6; i++) {
		int in = (have >> i) & 1;
		if (succ[i] >= 0 && !((have >> succ[i]) & 1)) in = 0;
		CHECK(g.done[i] == in, "a segment is entered exactly if it and its successor were seen");
	}
}
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
	aam.id_size = 16;
	aam.prefix = "p/";
	switch (vf_range(0, 17)) {
	case 0: one(0, 1, 2, -1, -1, -1); break;
	case 1: one(0, 2, 1, -1, -1, -1); break;
	case 2: one(1, 0, 2, -1, -1, -1); break;
	case 3: one(1, 2, 0, -1, -1, -1); break;
	case 4: one(2, 0, 1, -1, -1, -1); break;
	case 5: one(2, 1, 0, -1, -1, -1); break;
	case 6: one(0, 3, 1, 4, 2, 5); break;
	case 7: one(4, 2, 5, 1, 3, 0); break;
	case 8: one(3, 0, 4, 1, -1, 2); break;
	case 9: one(2, 4, 0, 3, 1, 5); break;
	case 10: one(5, 4, 3, 2, 1, 0); break;
	case 11: one(1, 4, 0, 3, 5, 2); break;
	case 12: one(0, 2, 4, -1, -1, -1); break;
	case 13: one(0, 1, 3, 5, -1, -1); break;
	case 14: one(1, 2, 4, -1, -1, -1); break;
	case 15: one(4, 1, 3, 2, -1, -1); break;
	case 16: one(3, 2, 1, 4, 0, 5); break;
	default: one(0, 4, 2, 3, 1, 5); break;
	}
	COVER("end");
}
#elif defined(H_MAIN)
static char **t_argv;
static int t_argc;
/* i silos named have been indexed */
static char **vf_argv(void) { g.n = vf_range(0, t_argc - 1); return (t_argv + 1 + g.n); }
static int vf_argc(void) { return (t_argc - 1 - g.n); }
static int invm(int argc, char **argv, int retval)
{
	return (g.n >= 0 && g.n < t_argc && argv == t_argv + 1 + g.n && argc == t_argc - 1 - g.n && g.opens == (t_argc == 1) && (retval != 0) == (g.bad != 0) && !g.iters && !g.sort);
}
static int silo_iter(void *p, const void *fn, ssize_t no)
{
	CHECK(p == &aam && fn == t_argv[1 + g.n] && no == -1, "the silo named");
	g.n++;
	int r = NDB() ? -1 : 0;
	g.bad |= r;
	return (r);
}
int Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
{
	CHECK(aa == &aam && func == silo_iter && priv == &aam && t_argc == 1 && !g.opens, "all silos there are");
	g.opens = 1;
	g.bad = NDB() ? -1 : 0;
	return (g.bad);
}
static int reindex_iter(void *a, const char *b, uint32_t c, uint32_t d, int64_t e, const char *f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; return (0); }
static void dump_left(const struct aardwarc *aa) { (void)aa; g.sort++; }
int IDX_Iter(const struct aardwarc *aa, const char *key, idx_iter_f *f, void *p)
{
	CHECK(aa == &aam && key == NULL && f == reindex_iter && p == &aam && nsegs > 0, "segments left over are looked up in the old index");
	g.iters++;
	if (NDB()) nsegs = 0;
	return (0);
}
void usage(const char *a, const char *b) { (void)a; (void)b; }
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
#ifdef VF_PROOF
	t_argc = vf_range(1, 1 << 24);
#else
	t_argc = vf_range(1, 3);
#endif
	t_argv = malloc((t_argc + 1) * sizeof *t_argv);
#ifndef VF_PROOF
	static char names[3][2] = { "r", "a", "b" };
	for (int i = 0; i < t_argc; i++) t_argv[i] = names[i];
#endif
	t_argv[t_argc] = NULL;
	unsigned n0 = nsegs = vf_range(0, 5);
	int r = main_reindex("aardwarc", &aam, t_argc, t_argv);
	CHECK((r != 0) == (g.bad != 0), "an unreadable silo makes the command fail");
	CHECK(t_argc == 1 ? g.opens && !g.n : g.n == t_argc - 1 && !g.opens, "all silos asked for are indexed");
	CHECK((n0 > 0) == (g.iters == 1) && (nsegs > 0) == (g.sort == 1), "segments left over are looked up and reported");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
