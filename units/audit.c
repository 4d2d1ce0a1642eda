/* Contracts of main_audit.c */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"
struct header { int tag; };
static struct {
	int err, fin, clr, prt, rep;
	int sha, upd; int64_t hashed; int hend;
	int st; int64_t n, good, bad; int isbad, r;
	int ins, hdrs, iter;
	int chunks, opens, closes, skip;
	int total, found; const void *order[4]; int norder;
} g;
/* header fields: NULL or a string */
static char h_block[80], h_len[4], h_seg[4], h_pay[80], h_tot[4], h_id[70], h_org[90];
static int has_block, has_len, has_seg, has_pay, has_tot, t_type;
static char t_dig[65], t_newid[65];
static const char *const types[5] = { "resource", "metadata", "warcinfo", "continuation", "conversion" };
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Init
#undef SHA256_Update
#undef SHA256_End
static void vf_init(void *c) { (void)c; g.sha = 1; g.hashed = 0; }
static void vf_update(void *c, const void *p, size_t n);
static char *vf_end(void *c, char *b)
{
	(void)c;
	CHECK(g.sha == 1, "digest of what was read");
	g.hend++;
	for (int i = 0; i < 65; i++) b[i] = t_dig[i];
	return (b);
}
#define SHA256_Init vf_init
#define SHA256_Update vf_update
#define SHA256_End vf_end
static struct vsb errm, serm;
static struct vsb *vf_vsb_new(struct vsb *a, char *b, int l, int fl) { (void)a; (void)b; (void)l; (void)fl; return (&errm); }
static int vf_vprintf(struct vsb *v, const char *f, ...) { (void)f; CHECK(v == &errm && !g.fin, "errors go to the report"); g.err = 1; return (0); }
static int vf_cat(struct vsb *v, const char *f) { (void)f; CHECK(v == &errm && !g.fin, "errors go to the report"); g.err = 1; return (0); }
static void vf_clear(struct vsb *v) { CHECK(v == &errm, "report"); g.err = 0; g.fin = 0; g.clr = 1; }
static int vf_finish(struct vsb *v) { if (v == &errm) { CHECK(!g.fin, "finished once"); g.fin = 1; } return (0); }
static char rdata[4] = "r";
static char *vf_data(const struct vsb *v) { if (v == &errm) CHECK(g.fin, "finished before it is printed"); return (rdata); }
static ssize_t vf_len(const struct vsb *v) { CHECK(v == &errm, "report"); return (g.err ? 5 : 0); }
#define VSB_new vf_vsb_new
#define VSB_printf vf_vprintf
#define VSB_cat vf_cat
#define VSB_clear vf_clear
#define VSB_finish vf_finish
#define VSB_data vf_data
#define VSB_len vf_len
#define VSB_destroy(p) (*(p) = NULL)
#define VSB_delete(p) ((void)(p))
/* a decimal number: "=" stands for the one which is right */
static int64_t t_num;
static int vf_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	CHECK(n > 20, "room for any number");
	(void)f;
	b[0] = va_arg(ap, intmax_t) == t_num ? '=' : '!';
	b[1] = 0;
	va_end(ap);
	return (1);
}
#define snprintf vf_snprintf
#ifdef H_MAIN
static void vf_out(const char *);
#endif
static int vf_printf(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
#ifdef H_MAIN
	vf_out(f);
#endif
	if (f[0] == '%' && f[1] == 's' && va_arg(ap, const char *) == rdata) g.prt = 1;
	va_end(ap);
	return (0);
}
static int vf_fprintf(FILE *fp, const char *f, ...) { (void)fp; (void)f; return (0); }
#define printf vf_printf
#ifdef H_MAIN
static int vf_getopt(int c, char *const *v, const char *o) { (void)c; (void)v; (void)o; return (-1); }
#undef getopt
#define getopt vf_getopt
#undef optind
#define optind 1
#endif
#define fprintf vf_fprintf
#define fflush(f) 0
static unsigned long vf_strtoul(const char *s, char **e, int base)
{
	unsigned long u = 0;
	int i = 0;
	(void)base;
	while (i < 3 && s[i] >= '0' && s[i] <= '9') u = u * 10 + (s[i++] - '0');
	*e = (char *)(uintptr_t)(s + i);
	return (u);
}
#define strtoul vf_strtoul
static char *vf_strdup(const char *s) { return ((char *)(uintptr_t)s); }
#undef strdup
#define strdup vf_strdup
static void vf_free(void *p) { (void)p; }
#define free vf_free
struct audit; struct aardwarc; struct vsb; struct rsilo;
#ifdef H_SILO
static int audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap);
static int64_t vf_off(void);
static int invs(int ngood, int tgood, int tbad, const struct rsilo *rs);
#endif
#ifdef H_PEND
static void audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0, struct audit *apn);
static void audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap);
#ifdef VF_PROOF
static struct audit *vf_first(void), *vf_do(void), *vf_apn(void), *vf_ap(void);
static int inv1st(const struct audit *), invdo(const struct audit *), invin(const struct audit *, const struct audit *, const struct audit *), vf_len_(void);
#endif
#endif
static void audit_report(FILE *fo, struct audit *ap);
#ifdef H_MAIN
static int audit_silo(struct aardwarc *aa, const char *fn, int no), audit_one_pending(struct aardwarc *aa, struct vsb *err);
static char **vf_argv(void);
static int vf_argc(void), inva(int, char **), invp(void), invl(const struct audit *);
static struct audit *vf_left(void);
static int vf_leftn(void);
#endif
static void *vf_calloc(size_t n, size_t l);
#define calloc vf_calloc
#undef VDEF_H_INCLUDED
#include SRC_main_audit
static struct aardwarc aam;
static struct audit am, am2[4];
static struct header hm, hms[4];
static char rsm[4];
#define RS ((struct rsilo *)rsm)
static char t_prefix[4] = "p/";
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof am, "a record"); memset(&am, 0, sizeof am); return (&am); }
static void audit_report(FILE *fo, struct audit *ap) { (void)fo; CHECK(ap->magic == AUDIT_MAGIC, "record"); g.rep++; }
#if !defined(H_PEND)
const char *Header_Get(const struct header *h, const char *n)
{
	CHECK(h == &hm, "header of this record");
	if (!strcmp(n, "WARC-Block-Digest")) return (has_block ? h_block : NULL);
	if (!strcmp(n, "WARC-Payload-Digest")) return (has_pay ? h_pay : NULL);
	if (!strcmp(n, "Content-Length")) return (has_len ? h_len : NULL);
	if (!strcmp(n, "WARC-Segment-Number")) return (has_seg ? h_seg : NULL);
	if (!strcmp(n, "WARC-Segment-Total-Length")) return (has_tot ? h_tot : NULL);
	if (!strcmp(n, "WARC-Type")) return (types[t_type]);
	CHECK(0, "a header field audit is about");
	return (NULL);
}
const char *Header_Get_Id(const struct header *h) { CHECK(h == &hm, "header of this record"); return (h_id); }
#endif
void Ident_Create(const struct aardwarc *a, const struct header *h, const char *d, char *id)
{
	CHECK(a == &aam && !memcmp(d, t_dig, 65), "the identifier follows from this digest");
	(void)h;
	for (int i = 0; i < 65; i++) id[i] = t_newid[i];
}
/* a digest header: missing, not sha256, the right one, or wrong in one place */
static int digest_hdr(char *h, int *has)
{
	unsigned k = vf_range(0, 63);
	uint8_t c = ND8();
	int alg = NDB();
	memcpy(h, "sha256:", 8);
	memcpy(h + 7, t_dig, 65);
	*has = NDB();
	h[7 + k] = c;
	if (!alg) h[3] = '5';
	return (*has && alg && c == (uint8_t)t_dig[k]);
}
static int num_hdr(char *h, int *has)
{
	int ok = NDB();
	*has = NDB();
	h[0] = ok ? '=' : '7';
	h[1] = 0;
	return (*has && ok);
}
static int ident(void)
{
	unsigned k = vf_range(0, 63);
	uint8_t c = ND8();
	for (int i = 0; i < 64; i++) h_id[i] = t_newid[i] = 'c';
	h_id[k] = c;
	h_id[64] = t_newid[64] = 0;
	return (c == 'c');
}
static void vf_update(void *c, const void *p, size_t n) { (void)c; CHECK(g.sha == 1 && p == (const void *)(rsm + 1), "hashes the data"); g.hashed += n; }
static void setup(void)
{
	aam.magic = AARDWARC_MAGIC;
	aam.prefix = t_prefix;
	aam.id_size = 64;
	for (int i = 0; i < 64; i++) t_dig[i] = 'a';
	t_dig[64] = 0;
}
#if defined(H_ONE)
void harness(void)
{
	setup();
	am.magic = AUDIT_MAGIC;
	am.hdr = &hm;
	g.sha = 1;
	int dig = digest_hdr(h_block, &has_block);
	am.sz = t_num = vf_range(0, INT64_MAX);
	int len = num_hdr(h_len, &has_len);
	am.o1 = vf_range(0, INT64_MAX);
	am.o2 = vf_range(am.o1, INT64_MAX);
	am.bodylen = vf_range(0, INT64_MAX);
	int gz = am.bodylen == am.o2 - am.o1;
	has_seg = NDB();
	for (int i = 0; i < 3; i++) h_seg[i] = ND8();
	h_seg[3] = 0;
	int segno = 0, i = 0;
	for (; i < 3 && h_seg[i] >= '0' && h_seg[i] <= '9'; i++) segno = segno * 10 + h_seg[i] - '0';
	int seg = !has_seg || (i > 0 && h_seg[i] == 0);
	int first = has_seg && h_seg[0] == '1' && h_seg[1] == 0;
	t_type = vf_range(0, 4);
	ignore_metadata_record_id = NDB();
	int id = ident() || first || (t_type == 1 && ignore_metadata_record_id);
	int r = audit_one(&aam, &errm, &am);
	CHECK(g.hend == 1, "the digest is made");
	CHECK(g.err == !(dig && len && gz && seg && id), "an error is reported exactly if digest, length, compressed length, segment number or identifier are wrong");
	CHECK(r == has_seg, "segments are kept for later");
	if (has_seg) CHECK(VTAILQ_FIRST(&segment_list) == &am && VTAILQ_NEXT(&am, list) == NULL, "segments are kept for later");
	else CHECK(VTAILQ_FIRST(&segment_list) == NULL, "others are not");
	if (has_seg && seg) CHECK(am.segment == segno, "with their number");
	COVER("end");
}
#elif defined(H_FINAL)
void harness(void)
{
	setup();
	am.magic = AUDIT_MAGIC;
	am.hdr = &hm;
	g.sha = 1;
	am.sz = t_num = vf_range(0, INT64_MAX);
	am2[0].magic = AUDIT_MAGIC;
	am2[0].hdr = &hm;
	am2[0].sz = vf_range(0, INT64_MAX);
	ASSUME(am2[0].sz != am.sz);
	int dig = digest_hdr(h_pay, &has_pay);
	int len = num_hdr(h_tot, &has_tot);
	int id = ident();
	audit_final_pending(&aam, &errm, &am, &am2[0]);
	CHECK(g.hend == 1, "the digest is made");
	CHECK(g.err == !(dig && len && id), "an error is reported exactly if digest, total length or identifier of a segmented object are wrong");
	COVER("end");
}
#elif defined(H_SILO)
static const char *t_fn;
static int t_nsilo;
static int64_t t_o0, t_o1, t_o2, t_b;
/* one record: 0 Tell o0, 1 header, 2 bodylen, 3 Tell o1, 4 read, 5 Tell o2, 6 skip, 7 audit */
static int t_have;
struct rsilo *Rsilo_Open(struct aardwarc *aa, const char *fn, uint32_t no, int64_t off)
{
	CHECK(aa == &aam && fn == t_fn && no == (uint32_t)t_nsilo && off == 0 && !g.opens, "opens this silo at its start");
	if (!t_have) return (NULL);
	g.opens = 1;
	return (RS);
}
void Rsilo_Close(struct rsilo **r) { CHECK(*r == RS && g.st == 9, "closed at the end"); g.closes++; *r = NULL; }
off_t Rsilo_Tell(const struct rsilo *r)
{
	CHECK(r == RS, "this silo");
	if (g.st == 0 || g.st == 1) { g.st = 1; return (t_o0); }
	if (g.st == 2 || g.st == 3) return (t_o1);
	CHECK(g.st == 4, "after the body");
	return (t_o2);
}
struct header *Rsilo_ReadHeader(struct rsilo *r)
{
	CHECK(r == RS && g.st <= 1, "next header");
#ifdef VF_PROOF
	int end = NDB();
#else
	int end = NDB() || g.n >= 3;
#endif
	if (end) { g.st = 9; return (NULL); }
	g.st = 2;
	return (&hm);
}
int64_t Rsilo_BodyLen(const struct rsilo *r) { CHECK(r == RS && (g.st == 2), "length according to the header of the body"); return (t_b); }
uintmax_t Rsilo_ReadChunk(struct rsilo *r, byte_iter_f *f, void *p)
{
	CHECK(r == RS && g.st == 2 && g.sha == 1 && g.hashed == 0 && p == &am && am.sz == 0, "reads the body, hashing it from its start");
	size_t a = vf_range(0, 1 << 30), b = vf_range(0, 1 << 30);
	CHECK(f(p, rsm + 1, a) == 0, "takes all of it");
	CHECK(f(p, rsm + 1, b) == 0, "takes all of it");
	CHECK(g.hashed == (int64_t)(a + b) && am.sz == (ssize_t)(a + b), "all of it is counted and hashed");
	g.st = 4;
	return (a + b);
}
void Rsilo_SkipCRNL(struct rsilo *r) { CHECK(r == RS && g.st == 4, "then skips the trailer"); g.st = 6; }
void Header_Destroy(struct header **h) { CHECK(*h == &hm, "the header"); *h = NULL; }
static int audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap)
{
	CHECK(aa == &aam && err == &errm && ap == &am && g.st == 6, "audits what was read");
	CHECK(g.clr && !g.err && !g.fin, "with an empty report");
	CHECK(ap->o0 == t_o0 && ap->o1 == t_o1 && ap->o2 == t_o2 && ap->bodylen == t_b && ap->hdr == &hm && ap->silo_fn == t_fn && ap->silo_no == t_nsilo, "with where it was");
	ASSUME(g.n < INT_MAX - 1);	/* records in a silo */
	g.n++;
	g.isbad = NDB();
	if (g.isbad) { g.err = 1; g.bad++; } else g.good++;
	g.prt = g.rep = 0;
	g.st = 0;
	t_o0 = vf_range(0, INT64_MAX);
	t_o1 = vf_range(0, INT64_MAX);
	t_o2 = vf_range(0, INT64_MAX);
	t_b = ND64();
	g.sha = 0;
	return (NDB());
}
static int invs(int ngood, int tgood, int tbad, const struct rsilo *rs)
{
	(void)ngood;
	if (rs != RS || g.st != 0 || g.opens != 1 || g.closes) return (0);
	if (g.n > 0 && g.isbad && !(g.prt && g.rep)) return (0);	/* what is wrong is shown */
	if (g.n < 0 || g.good < 0 || g.bad < 0 || g.n >= INT_MAX || g.good > g.n || g.bad > g.n || g.good + g.bad != g.n) return (0);
	return (g.good == tgood && g.bad == tbad && ngood >= 0 && ngood <= tgood);
}
void harness(void)
{
	setup();
	t_have = NDB();
	t_fn = NDB() ? "f" : NULL;
	t_nsilo = NDI();
	t_o0 = vf_range(0, INT64_MAX);
	t_o1 = vf_range(0, INT64_MAX);
	t_o2 = vf_range(0, INT64_MAX);
	t_b = ND64();
	int r = audit_silo(&aam, t_fn, t_nsilo);
	CHECK(r == (t_have ? 0 : -1), "tells whether there was a silo");
	if (t_have) CHECK(g.st == 9 && g.closes == 1, "all records were read");
	COVER("end");
}
#elif defined(H_ADD)
/* reads one segment again, into the digest of the whole object */
static int64_t t_o2, t_n;
static const char t_fn[] = "f";
struct rsilo *Rsilo_Open(struct aardwarc *aa, const char *fn, uint32_t no, int64_t off)
{
	CHECK(aa == &aam && fn == am2[0].silo_fn && no == (uint32_t)am2[0].silo_no && off == am2[0].o0, "opens the segment where it was found");
	g.opens++;
	return (RS);
}
struct header *Rsilo_ReadHeader(struct rsilo *r) { CHECK(r == RS && !g.st, "header first"); g.st = 1; return (&hm); }
uintmax_t Rsilo_ReadChunk(struct rsilo *r, byte_iter_f *f, void *p)
{
	CHECK(r == RS && g.st == 1 && p == &am, "reads the body into the digest of the object");
	size_t a = vf_range(0, 1 << 30), b = vf_range(0, 1 << 30);
	CHECK(f(p, rsm + 1, a) == 0 && f(p, rsm + 1, b) == 0, "takes all of it");
	t_n = a + b;
	g.st = 2;
	return (a + b);
}
off_t Rsilo_Tell(const struct rsilo *r) { CHECK(r == RS && g.st == 2, "after the body"); return (t_o2); }
void Rsilo_Close(struct rsilo **r) { CHECK(*r == RS && g.st == 2, "closed at the end"); g.closes++; *r = NULL; }
void harness(void)
{
	setup();
	g.sha = 1;
	am.magic = am2[0].magic = AUDIT_MAGIC;
	int64_t old = am.sz = vf_range(0, INT64_MAX / 2);
	am2[0].silo_fn = NDB() ? t_fn : NULL;
	am2[0].silo_no = NDI();
	am2[0].o0 = vf_range(0, INT64_MAX);
	t_o2 = am2[0].o2 = vf_range(0, INT64_MAX);
	audit_add_one_segment(&aam, &am, &am2[0]);
	CHECK(g.opens == 1 && g.closes == 1 && am.sz == old + t_n && g.hashed == t_n, "all bytes of the segment are counted and hashed");
	COVER("end");
}
#elif defined(H_PEND) && defined(VF_PROOF)
/*
 * The list of segments: the one a loop is at (C), the ones before (P) and after
 * it (N) in the list; the one at x, an arbitrary place, stands for all: whether
 * it is what is looked for is xm.  S:
 * looking for a first segment; T: looking for the next one of its object.
 */
static struct {
	int st, L, L0, pos, x, xm;
	int changed, norder, finals, bad;
	struct audit *ap0, *last, *ap;	/* first and last segment found; at the start of this pass */
} m;
enum { P, C, N, A, B };
static struct audit S[3], T[5];
static struct header SH[3], TH[5];
static const char *const orgs[9] = { NULL, "p/aa>", "<q/aa>", "<p/ab>", "<p/aa", "<p/aab>", "<p/a>", "p<p/aa>", "<p/aa>" };
static int torg[5], ttot[5];
#define sl(l, i) ((i) < m.pos ? &l[P] : (i) == m.pos ? &l[C] : &l[N])
static int idx(const struct audit *a) { for (int i = 0; i < 5; i++) if (a == &T[i]) return (i); return (0); }
static int hidx(const struct header *h) { for (int i = 0; i < 5; i++) if (h == &TH[i]) return (i); CHECK(0, "a header"); return (0); }
static int match(const struct audit *a, int segno) { int i = idx(a); return (a->segment == segno && torg[i] == 8); }
const char *Header_Get(const struct header *h, const char *n)
{
	int i = hidx(h);
	if (!strcmp(n, "WARC-Segment-Origin-ID")) return (orgs[torg[i]]);
	CHECK(!strcmp(n, "WARC-Segment-Total-Length"), "the last segment has the total length");
	return (ttot[i] ? "9" : NULL);
}
const char *Header_Get_Id(const struct header *h) { CHECK(h == &SH[C], "of the first segment"); return ("aa"); }
#define LINKS(l, h, all) do { \
	for (int i = 0; i < (all ? 5 : 3); i++) { \
		l[i].magic = AUDIT_MAGIC; \
		l[i].hdr = &h[i]; \
		l[i].segment = ND32(); \
		l[i].sz = l[i].gzsz = 7; \
		l[i].list.vtqe_next = NULL; \
		l[i].list.vtqe_prev = NULL; \
	} \
	VTAILQ_INIT(&segment_list); \
	if (m.pos > 0) VTAILQ_INSERT_TAIL(&segment_list, &l[P], list); \
	if (m.pos < m.L) VTAILQ_INSERT_TAIL(&segment_list, &l[C], list); \
	if (m.pos + 1 < m.L) VTAILQ_INSERT_TAIL(&segment_list, &l[N], list); \
} while (0)
/* is the list what it was, without the one at pos if gone */
#define linked(l, gone) linked_(&l[P], &l[C], &l[N], gone)
static int linked_(struct audit *p, struct audit *c, struct audit *n, int gone)
{
	struct audit *pv = m.pos > 0 ? p : NULL, *nx = m.pos + 1 < m.L ? n : NULL;
	struct audit *a = gone ? nx : c;
	int ok = (pv ? pv->list.vtqe_next : segment_list.vtqh_first) == a;
	ok = ok && (a == NULL || a->list.vtqe_prev == (pv ? &pv->list.vtqe_next : &segment_list.vtqh_first));
	ok = ok && (gone || (c->list.vtqe_next == nx && (nx == NULL || nx->list.vtqe_prev == &c->list.vtqe_next)));
	ok = ok && (pv == NULL || segment_list.vtqh_first == pv);
	return (ok && (nx != NULL || segment_list.vtqh_last == (!gone ? &c->list.vtqe_next : pv ? &pv->list.vtqe_next : &segment_list.vtqh_first)));
}
static struct audit *vf_first(void)
{
	m.pos = vf_range(0, m.L);
	LINKS(S, SH, 0);
	/* those before are not first segments */
	m.xm = NDB();
	ASSUME((m.x >= m.pos || !m.xm) && (m.x != m.pos || m.xm == (S[C].segment == 1)));
	m.st = 1;
	return (m.pos < m.L ? sl(S, m.pos) : NULL);
}
static int inv1st(const struct audit *a)
{
	if (m.st == 0) return (a == segment_list.vtqh_first);
	if (m.st == 1) { m.st = 2; return (1); }
	return (m.pos < m.L && S[C].segment != 1 && (m.x != m.pos || !m.xm) && linked(S, 0) && a == (m.pos + 1 < m.L ? sl(S, m.pos + 1) : NULL));
}
static int vf_len_(void) { return (m.L); }
static struct audit *vf_do(void)
{
	m.L0 = m.L = vf_range(0, 1 << 28);
	m.norder = vf_range(1, 1 << 28);
	m.x = vf_range(0, 1 << 28);
	m.pos = 0;
	m.changed = 0;
	LINKS(T, TH, 1);
	T[A].segment = m.norder;
	m.ap = m.last = m.norder == 1 ? m.ap0 : &T[A];
	m.st = 3;
	return (m.last);
}
static int invdo(const struct audit *ap)
{
	if (m.st == 2) {
		CHECK(m.norder == 1 && ap == m.ap0 && ap == sl(S, m.pos) && linked(S, 1), "the first segment is taken from the list");
		return (1);
	}
	if (m.st == 3) return (ap == m.last);
	/* another pass */
	return (m.st == 5 && m.changed && m.pos == m.L && ap == m.last && ap != NULL && ap->segment == m.norder && m.finals == 0);
}
static struct audit *vf_ap(void)
{
	m.changed = NDB();
	if (m.changed) {
		m.L = vf_range(0, m.L0 - 1);
		ASSUME(m.L0 > 0);
		m.norder = vf_range(1, 1 << 28);
	}
	m.pos = vf_range(0, m.L);
	LINKS(T, TH, 1);
	T[A].segment = m.norder;
	T[B].segment = m.norder;
	for (int i = 0; i < 5; i++) { torg[i] = vf_range(0, 8); ttot[i] = NDB(); }
	if (m.changed) m.last = &T[B]; else { m.last = m.ap; m.xm = NDB(); ASSUME((m.x >= m.pos || !m.xm) && (m.x != m.pos || m.pos >= m.L || m.xm == match(&T[C], m.norder + 1))); }
	m.st = 4;
	return (m.last);
}
static struct audit *vf_apn(void) { return (m.pos < m.L ? sl(T, m.pos) : NULL); }
static int invin(const struct audit *apn, const struct audit *ap, const struct audit *ap1)
{
	if (m.st == 3) return (apn == segment_list.vtqh_first && ap == m.ap && ap1 == m.ap);
	if (m.st == 4) { m.st = 5; return (ap == m.last && ap1 == m.ap); }
	struct audit *c = sl(T, m.pos), *nx = m.pos + 1 < m.L ? sl(T, m.pos + 1) : NULL;
	if (m.pos >= m.L || apn != nx || ap1 != m.ap || m.finals) return (0);
	if (m.st == 6)		/* one was added */
		return (c == m.last && ap == c && !ttot[idx(c)] && linked(T, 1));
	return (m.st == 5 && ap == m.last && !match(c, m.norder + 1) && (m.changed || m.x != m.pos || !m.xm) && linked(T, 0));
}
static void audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
{
	CHECK(aa == &aam && g.sha == 1, "into the digest of the object");
	if (m.norder == 0) {
		CHECK(m.st == 2 && ap == ap0 && ap == sl(S, m.pos) && ap->segment == 1 && ap->sz == 0 && ap->gzsz == 0, "the first segment first");
		m.norder = 1;
		m.ap0 = m.last = ap;
		return;
	}
	CHECK(m.st == 5 && ap0 == m.ap0 && ap == sl(T, m.pos) && match(ap, m.norder + 1), "segments are taken in order, each once, if they are of this object");
	m.norder++;
	m.last = ap;
	m.st = 6;
}
static void audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0, struct audit *apn)
{
	CHECK(aa == &aam && err == &errm && ap0 == m.ap0 && m.st == 6 && apn == m.last && ttot[idx(apn)], "judged once all segments have been read");
	CHECK(g.clr && !g.err && !g.fin, "with an empty report");
	CHECK(linked(T, 1) && !m.finals, "and taken from the list");
	m.finals++;
	g.err = m.bad = NDB();
}
void harness(void)
{
	setup();
	m.L = vf_range(0, 1 << 28);
	m.x = vf_range(0, 1 << 28);
	LINKS(S, SH, 0);
	int r = audit_one_pending(&aam, &errm);
	if (r == 0) {
		CHECK(m.norder == 0 && m.st == 2 && m.pos == m.L && (m.x >= m.L || !m.xm), "nothing to do without a first segment");
		COVER("none");
	} else if (m.finals) {
		CHECK(r == (m.bad ? -1 : 1), "the object is judged");
		if (m.bad) CHECK(g.prt && g.rep, "what is wrong is shown");
		COVER("final");
	} else {
		CHECK(r == -1 && m.st == 5 && m.pos == m.L && !m.changed && (m.x >= m.L || !m.xm), "an object is given up only if its next segment is not there");
		COVER("incomplete");
	}
	COVER("end");
}
#elif defined(H_PEND)
/* records: index 0..2 are segments 1..3 of the object, 3 is segment 2 of another */
static int nseg, lastmask, badfinal;
static const char *const orgs[4] = { NULL, "<p/aa>", "<p/aa>", "<p/ab>" };
const char *Header_Get(const struct header *h, const char *n)
{
	int i = h - hms;
	CHECK(i >= 0 && i < 4, "a header");
	if (!strcmp(n, "WARC-Segment-Origin-ID")) return (orgs[i]);
	CHECK(!strcmp(n, "WARC-Segment-Total-Length"), "the last segment has the total length");
	return ((lastmask >> i) & 1 ? "9" : NULL);
}
const char *Header_Get_Id(const struct header *h) { return (h == &hms[0] ? "aa" : h == &hms[1] ? "bb" : h == &hms[2] ? "cc" : "dd"); }
static void audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
{
	CHECK(aa == &aam && ap0 == &am2[0] && g.sha == 1, "into the digest of the object");
	CHECK(ap == &am2[g.norder], "segments are taken in order, each once");
	g.norder++;
}
static void audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0, struct audit *apn)
{
	CHECK(aa == &aam && err == &errm && ap0 == &am2[0] && g.norder == nseg && apn == &am2[nseg - 1], "judged once all segments have been read");
	CHECK(g.clr && !g.err && !g.fin, "with an empty report");
	g.found++;
	g.err = badfinal;
}
static void one(int n, int a, int b, int c, int d, int lastm)
{
	int ord[4] = { a, b, c, d }, left = 0, have = 0;
	nseg = n;
	lastmask = lastm;
	for (int i = 0; i < 4; i++) {
		am2[i].magic = AUDIT_MAGIC;
		am2[i].hdr = &hms[i];
		am2[i].segment = i == 3 ? 2 : i + 1;
	}
	for (int i = 0; i < 4; i++) if (ord[i] >= 0) { VTAILQ_INSERT_TAIL(&segment_list, &am2[ord[i]], list); left++; have |= 1 << ord[i]; }
	int full = have & 1;
	for (int i = 0; i < n; i++) if (!((have >> i) & 1)) full = 0;
	badfinal = NDB();
	int r = audit_one_pending(&aam, &errm);
	if (!(have & 1)) {
		CHECK(r == 0 && g.norder == 0, "nothing to do without a first segment");
		return;
	}
	if (!full) { CHECK(r == -1 && !g.found, "an incomplete object is an error"); return; }
	CHECK(g.found == 1 && r == (badfinal ? -1 : 1), "the object is judged");
	if (badfinal) CHECK(g.prt && g.rep, "what is wrong is shown");
	int now = 0;
	struct audit *x;
	VTAILQ_FOREACH(x, &segment_list, list) { now++; CHECK(x == &am2[3], "only segments of other objects are left"); }
	CHECK(now == left - n, "and all of those are left");
}
void harness(void)
{
	setup();
	unsigned s = vf_range(0, 20);
	switch (s) {
	case 0: one(3, 0, 1, 2, -1, 4); break;
	case 1: one(3, 0, 2, 1, -1, 4); break;
	case 2: one(3, 1, 0, 2, -1, 4); break;
	case 3: one(3, 1, 2, 0, -1, 4); break;
	case 4: one(3, 2, 0, 1, -1, 4); break;
	case 5: one(3, 2, 1, 0, -1, 4); break;
	case 6: one(3, 3, 0, 1, 2, 4); break;
	case 7: one(3, 0, 3, 1, 2, 12); break;
	case 8: one(3, 0, 1, 3, 2, 4); break;
	case 9: one(3, 2, 3, 1, 0, 4); break;
	case 10: one(2, 0, 1, -1, -1, 2); break;
	case 11: one(2, 1, 0, -1, -1, 2); break;
	case 12: one(2, 3, 1, 0, -1, 10); break;
	case 13: one(2, 0, 3, 1, -1, 2); break;
	case 14: one(3, 0, 2, 3, -1, 4); break;
	case 15: one(3, 0, 1, -1, -1, 4); break;
	case 16: one(2, 0, 3, -1, -1, 8); break;
	case 17: one(3, 1, 2, 3, -1, 4); break;
	case 18: one(2, 0, -1, -1, -1, 2); break;
	case 19: one(3, -1, -1, -1, -1, 4); break;
	default: one(3, 2, 1, 3, 0, 12); break;
	}
	COVER("end");
}
#elif defined(H_MAIN)
static char **t_argv;
static int t_argc, t_l;
static int vf_argc(void) { return (t_argc - 1 - g.n); }
/* n of the silos named have been audited */
static char **vf_argv(void) { return (t_argv + 1 + g.n); }
static int inva(int argc, char **argv)
{
	return (t_argc > 1 && g.n >= 0 && g.n < t_argc && argv == t_argv + 1 + g.n && argc == t_argc - 1 - g.n && !g.opens && g.err == g.isbad && !g.hend && !g.found && !g.total && !g.sha);
}
static int silosdone(void) { return (t_argc == 1 ? g.opens && g.n == 1 : g.n == t_argc - 1 && g.err == g.isbad); }
static int invp(void) { return (silosdone() && !g.hend && !g.found && !g.sha); }
/* found of the segments left have been reported; the next one is number found - sha of am2[] */
static struct audit *vf_left(void)
{
	memset(&am2, 0, sizeof am2);
	am2[0].magic = am2[1].magic = AUDIT_MAGIC;
	g.sha = g.found;
	if (g.found == t_l) return (NULL);
	if (g.found + 1 < t_l) am2[0].list.vtqe_next = &am2[1];
	return (&am2[0]);
}
static int vf_leftn(void) { return (t_l - g.found); }
static int invl(const struct audit *ap)
{
	int k = g.found - g.sha;
	return (g.hend == 1 && silosdone() && g.sha >= 0 && g.found >= g.sha && g.found <= t_l && (g.found == t_l ? ap == NULL : k < 2 && ap == &am2[k] && ap->magic == AUDIT_MAGIC));
}
static int audit_silo(struct aardwarc *aa, const char *fn, int no)
{
	CHECK(aa == &aam, "this archive");
	if (t_argc == 1) CHECK(fn == NULL && g.n == no, "the silo found");
	else CHECK(g.n < t_argc - 1 && fn == t_argv[1 + g.n] && no == -1, "the silo named");
	CHECK(g.err == g.isbad, "a silo which cannot be opened is reported");
	if (t_argc > 1) g.n++; else { CHECK(g.chunks == 1, "each silo once"); g.chunks = 2; }
	g.isbad = NDB();
	g.err = 0;
	return (g.isbad ? -1 : 0);
}
static void vf_out(const char *f) { if (f[0] == 'E') g.err = 1; if (f[0] == 'L') g.found++; }
int Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
{
	CHECK(aa == &aam && t_argc == 1 && g.n == 0, "all silos there are");
	g.opens = 1;
	/* any one of them */
	int i = g.n = vf_range(0, INT32_MAX);
	g.chunks = 1;
	int r = func(priv, "f", i);
	CHECK(r == 0 && g.chunks == 2, "each silo is audited, whatever happened to the others");
	CHECK(g.err == g.isbad, "a silo which cannot be opened is reported");
	g.n = 1;
	return (0);
}
static int audit_one_pending(struct aardwarc *aa, struct vsb *err)
{
	CHECK(aa == &aam && err == &errm && silosdone(), "segmented objects once all silos have been read");
	CHECK(!g.hend, "until there are none left");
	int r = (int)vf_range(0, 2) - 1;
	if (r == 0) g.hend = 1;
#ifndef VF_PROOF
	ASSUME(r == 0 || g.total++ < 2);
#endif
	return (r);
}
void usage(const char *a, const char *b) { (void)a; (void)b; }
void harness(void)
{
	setup();
#ifdef VF_PROOF
	t_argc = vf_range(1, 1 << 24);
	t_l = vf_range(0, 1 << 30);
	t_argv = malloc((t_argc + 1) * sizeof *t_argv);
#else
	static char names[3][2] = { "r", "a", "b" };
	t_argc = vf_range(1, 3);
	t_l = vf_range(0, 2);
	t_argv = malloc((t_argc + 1) * sizeof *t_argv);
	for (int i = 0; i < t_argc; i++) t_argv[i] = names[i];
#endif
	for (int i = 0; i < 2 && i < t_l; i++) { am2[i].magic = AUDIT_MAGIC; VTAILQ_INSERT_TAIL(&segment_list, &am2[i], list); }
	int r = main_audit("aardwarc", &aam, t_argc, t_argv);
	CHECK(r == 0 && g.hend == 1, "all segmented objects were audited");
	CHECK(silosdone(), "all silos asked for were audited");
	CHECK(g.found == t_l, "segments which belong to no object are reported");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
