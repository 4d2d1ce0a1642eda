/* Contracts of segjob.c: headers of segments, and how an object is committed */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"

/* Model of a header: the fields the segment code deals with, others summed up */
enum { F_BD, F_CL, F_SN, F_PD, F_TY, F_OI, F_TL, NFLD };
enum kind { K_NONE, K_DIG, K_NUM, K_LIT, K_REF };
struct fld { enum kind k; int64_t n; const char *p; int len; };
struct header { int64_t base; struct fld f[NFLD]; char *id; int64_t resv; int64_t tlmax; int destroyed; };
static char dig_empty[8], dig_seg[8], dig_pay[8], id_seg[4], id_pay[4];
static int t_reflen;
static const char *const fname[NFLD] = { "WARC-Block-Digest", "Content-Length", "WARC-Segment-Number",
    "WARC-Payload-Digest", "WARC-Type", "WARC-Segment-Origin-ID", "WARC-Segment-Total-Length" };

static struct {
	int npay, nseg, nfree;		/* digests taken */
	int clone, next, hdrn, ins, dfl, aa, shainit, fin, dend;
	int commits; int k;		/* segments committed */
	int aband, destroyed, feed;
	int idset; const char *iddig, *idin; struct header *idhdr;
	int d2i; const char *d2i_arg;
	int lookup; int cur; int gone[2];
} g;
static struct aardwarc *aa;
static struct header hw[3];
static char fakesilo[3][8];
#define MAXRATIO 1032

static int digits(int64_t n)
{
	int d = 1;
	if (n >= 10L) d = 2;
	if (n >= 100L) d = 3;
	if (n >= 1000L) d = 4;
	if (n >= 10000L) d = 5;
	if (n >= 100000L) d = 6;
	if (n >= 1000000L) d = 7;
	if (n >= 10000000L) d = 8;
	if (n >= 100000000L) d = 9;
	if (n >= 1000000000L) d = 10;
	if (n >= 10000000000L) d = 11;
	if (n >= 100000000000L) d = 12;
	if (n >= 1000000000000L) d = 13;
	if (n >= 10000000000000L) d = 14;
	if (n >= 100000000000000L) d = 15;
	if (n >= 1000000000000000L) d = 16;
	if (n >= 10000000000000000L) d = 17;
	if (n >= 100000000000000000L) d = 18;
	if (n >= 1000000000000000000L) d = 19;
	return (d);
}
static int isdig(const char *p) { return (p == dig_empty || p == dig_seg || p == dig_pay); }
static struct fld fmtval(const char *fmt, va_list ap)
{
	struct fld v;
	memset(&v, 0, sizeof v);
	if (!strcmp(fmt, "sha256:%s")) {
		v.k = K_DIG; v.p = va_arg(ap, const char *); v.len = 7 + 64;
		CHECK(isdig(v.p), "a digest follows sha256:");
	} else if (!strcmp(fmt, "%jd") || !strcmp(fmt, "%ju") || !strcmp(fmt, "%ld") || !strcmp(fmt, "%zd")) {
		v.k = K_NUM; v.n = va_arg(ap, intmax_t); v.len = digits(v.n);
		CHECK(v.n >= 0, "no negative number");
	} else if (!strcmp(fmt, "%d") || !strcmp(fmt, "%u")) {
		v.k = K_NUM; v.n = va_arg(ap, int); v.len = digits(v.n);
	} else {
		if (!strcmp(fmt, "%s")) fmt = va_arg(ap, const char *);
		CHECK(strchr(fmt, '%') == NULL, "a value");
		v.len = strlen(fmt);
		if (v.len == 1 && fmt[0] >= '0' && fmt[0] <= '9') { v.k = K_NUM; v.n = fmt[0] - '0'; }
		else { v.k = K_LIT; v.p = fmt; }
	}
	return (v);
}
static int fidx(const char *name)
{
	for (int i = 0; i < NFLD; i++)
		if (!strcasecmp(name, fname[i])) return (i);
	CHECK(0, "a header field of segments");
	return (0);
}
#define FLEN(h, i) ((h)->f[i].k == K_NONE ? 0 : (int64_t)strlen(fname[i]) + 4 + (h)->f[i].len)
static int64_t hlen(const struct header *h)
{
	return (h->base + FLEN(h, 0) + FLEN(h, 1) + FLEN(h, 2) + FLEN(h, 3) + FLEN(h, 4) + FLEN(h, 5) + FLEN(h, 6));
}
/* room the fields need which commit will still add */
static int64_t more(const struct header *h, int first, int64_t total)
{
	int64_t r = 0;
	if (first) {
		if (h->f[F_SN].k == K_NONE) r += 19 + 4 + 1;
		if (h->f[F_PD].k == K_NONE) r += 19 + 4 + 71;
	} else if (h->f[F_TL].k == K_NONE)
		r += 25 + 4 + digits(total);
	return (r);
}
struct wsilo;
struct aardwarc;
void Header_Set(struct header *hd, const char *name, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	hd->f[fidx(name)] = fmtval(fmt, ap);
	va_end(ap);
}
int Header_Len(const char *name, const char *fmt, ...)
{
	struct fld v;
	va_list ap;
	va_start(ap, fmt);
	v = fmtval(fmt, ap);
	va_end(ap);
	return (strlen(name) + 2 + v.len + 2);
}
void Header_Set_Ref(struct header *hd, const char *name, const char *ref)
{
	struct fld *f = &hd->f[fidx(name)];
	f->k = K_REF; f->p = ref; f->len = t_reflen;
}
const char *Header_Get_Id(const struct header *hd) { CHECK(hd->id != NULL, "identifier has been set"); return (hd->id); }
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Init
#undef SHA256_End
#undef SHA256_Data
#undef SHA256_Update
static void vf_sha_init(void *c);
static char *vf_sha_end(void *c, char *b);
static char *vf_sha_data(const void *p, size_t n, char *b);
#define SHA256_Init(c) vf_sha_init(c)
#define SHA256_End(c, b) vf_sha_end(c, b)
#define SHA256_Data(p, n, b) vf_sha_data(p, n, b)
#define SHA256_Update(c, p, n) ((void)(c), (void)(p), (void)(n))
static void *vf_calloc(size_t n, size_t s);
#undef calloc
#define calloc vf_calloc
static void vf_free(void *p);
#undef free
#define free vf_free
static int vf_deflateEnd(z_stream *z);
#undef deflateEnd
#define deflateEnd vf_deflateEnd
struct segjob; struct segment;
static struct segment *pseg0, *pseg1;
static struct segment *vf_win(struct segjob *sj);
static int inv(struct segjob *sj, struct segment *sg);
static struct segment *vf_list(struct segjob *sj);
static int invd(struct segjob *sj);
#ifndef NO_FEED
void SegJob_Feed(struct segjob *sj, const void *iptr, ssize_t ilen);
#endif
#if defined(H_COMMIT)
static void segjob_destroy(struct segjob *sj);
#endif
#undef VDEF_H_INCLUDED
#include SRC_segjob

static struct aardwarc aam;
static struct aardwarc *aa = &aam;
static struct segment segw[2];
static struct segjob sjm;
static int64_t t_total;

static void vf_sha_init(void *c)
{
	CHECK(c == sjm.sha256_segment || c == sjm.sha256_payload, "one of the digests");
	if (c == sjm.sha256_segment) g.shainit++;
#ifdef H_SNEW
	g.nseg += c == sjm.sha256_payload;
#endif
}
static char *vf_sha_end(void *c, char *b)
{
	CHECK(b == NULL, "allocated result");
	if (c == sjm.sha256_payload) { CHECK(!g.npay, "the payload digest is finished once"); g.npay = 1; return (dig_pay); }
	CHECK(c == sjm.sha256_segment && !g.nseg, "the segment digest is finished once");
	g.nseg = 1;
	return (dig_seg);
}
static char *vf_sha_data(const void *p, size_t n, char *b) { (void)p; (void)b; CHECK(n == 0, "digest of nothing"); return (dig_empty); }
static void *vf_calloc(size_t n, size_t s)
{
#ifdef H_SNEW
	CHECK(n * s == sizeof sjm, "allocates a job");
	memset(&sjm, 0, sizeof sjm);
	return (&sjm);
#else
	CHECK(n * s == sizeof(struct segment), "allocates a segment");
	memset(&segw[0], 0, sizeof segw[0]);
	return (&segw[0]);
#endif
}
static int had[2];
static void vf_free(void *p)
{
	g.nfree++;
#ifdef H_DESTROY
	for (int i = 0; i < 2; i++)
		if (p == &segw[i]) {
			CHECK(hw[i].destroyed == 1, "the header of a segment goes with it");
			CHECK(g.gone[i] == had[i], "a silo which was not committed is abandoned");
			CHECK(sjm.segments.vtqh_first != p, "off the list");
		}
	if (p == &sjm) g.destroyed = 1;
#endif
}
static int vf_deflateEnd(z_stream *z) { CHECK(z == sjm.gz, "the deflate state"); g.dend++; return (Z_OK); }
void Gzip_InitDeflate(z_stream *z) { CHECK(z == sjm.gz, "the deflate state"); g.dfl++; }
void Gzip_AddAa(z_stream *z) { CHECK(z == sjm.gz && g.dfl == 1, "the length field is added to the fresh gzip header"); g.aa++; }
struct header *Header_Clone(const struct header *h)
{
	CHECK(h == &hw[2], "segments carry the headers of the object");
	hw[0] = hw[2];
	g.clone++;
	return (&hw[0]);
}
void Header_Destroy(struct header **h) { (*h)->destroyed++; *h = NULL; }
struct wsilo *Wsilo_Next(struct aardwarc *a) { CHECK(a == aa, "archive"); g.next++; return ((struct wsilo *)fakesilo[0]); }
void Wsilo_Header(struct wsilo *sl, struct header *hd, int pad)
{
	CHECK(sl == (void *)fakesilo[0] && hd == &hw[0] && g.next == 1, "the header goes first in the silo");
	CHECK(pad >= 0, "padding");
	/* WARC-Padding: see unit ws_header */
	hd->resv = hlen(hd) + (pad > 0 ? pad + 6 : 0);
	g.hdrn++;
}
void Wsilo_Finish(struct wsilo *sl) { CHECK(sl == (void *)fakesilo[0] && g.dend == 1, "the silo is finished after the compression"); g.fin++; }
void Ident_Set(const struct aardwarc *a, struct header *h, const char *dig, const char *in)
{
	CHECK(a == aa && isdig(dig), "identifier from a digest");
	g.idset++; g.iddig = dig; g.idin = in; g.idhdr = h;
	h->id = dig == dig_pay ? id_pay : id_seg;
}
void Wsilo_Abandon(struct wsilo **p) 
{
	CHECK(*p == (void *)fakesilo[0] || *p == (void *)fakesilo[1], "abandons a silo");
	g.gone[*p == (void *)fakesilo[1]]++;
	*p = NULL;
	g.aband++;
}

#if defined(H_LIFE)
/* segjob_newseg() and segjob_finishseg(): the header of a segment */
void harness(void)
{
	aa->magic = AARDWARC_MAGIC;
	aa->silo_maxsize = vf_range(4096, 1ULL << 50);
	t_reflen = vf_range(18, 1100);
	sjm.magic = SEGJOB_MAGIC;
	sjm.aa = aa;
	sjm.hdr = &hw[2];
	hw[2].base = vf_range(1, 4096);
	static const char res[] = "resource";
	hw[2].f[F_TY].k = K_LIT; hw[2].f[F_TY].p = res; hw[2].f[F_TY].len = 8;
	static char ident[4];
	sjm.ident = NDB() ? ident : NULL;
	sjm.nseg = vf_range(0, 1 << 30);
	int64_t before = sjm.size = vf_range(0, 1ULL << 61);
	ASSUME(sjm.nseg == 0 ? before == 0 : before > 0);
	VTAILQ_INIT(&sjm.segments);
	if (sjm.nseg > 0) { segw[1].magic = SEGMENT_MAGIC; VTAILQ_INSERT_TAIL(&sjm.segments, &segw[1], list); }
	int n0 = sjm.nseg, fl = sjm.gz_flag = NDI();
	(void)fl;
	segjob_newseg(&sjm);
	struct segment *sg = sjm.cur_seg;
	struct header *h = &hw[0];
	CHECK(sg == &segw[0] && sjm.segments.vtqh_last == &sg->list.vtqe_next && sg->list.vtqe_next == NULL, "the new segment is the last one of the object");
	CHECK(sjm.nseg == n0 + 1 && sg->segno == n0 + 1, "segments are numbered from one");
	CHECK(VTAILQ_FIRST(&sjm.segments) == (n0 ? &segw[1] : sg), "the order of the segments is kept");
	CHECK(sg->hdr == h && g.clone == 1 && g.next == 1 && sg->silo == (void *)fakesilo[0] && g.hdrn == 1, "a fresh silo with the header in front");
	CHECK(g.dfl == 1 && g.aa == 1 && g.shainit == 1 && sjm.gz_flag == 0 && sg->size == 0, "compression and digest start afresh");
	CHECK(hw[2].f[F_BD].k == K_NONE && hw[2].f[F_SN].k == K_NONE, "the headers of the object are not modified");
	/* data is fed, see SegJob_Feed() */
	sg->size = vf_range(0, 1ULL << 61);
	ASSUME(sg->size <= aa->silo_maxsize * (int64_t)MAXRATIO);
	sjm.size = before + sg->size;
	int nf = g.nfree;
	(void)nf;
	segjob_finishseg(&sjm);
	CHECK(sjm.cur_seg == NULL, "no current segment");
	CHECK(g.dend == 1 && g.fin == 1, "compression and silo are finished, once");
	CHECK(h->f[F_BD].k == K_DIG && h->f[F_BD].p == dig_seg, "the block digest of the segment is that of its content");
	CHECK(h->f[F_CL].k == K_NUM && h->f[F_CL].n == sg->size, "the length of the segment is that of its content");
	CHECK(g.idset == 1 && g.idhdr == h && g.iddig == dig_seg && g.idin == (n0 ? NULL : sjm.ident), "the identifier is the one asked for, or made from the digest");
	if (n0) {
		CHECK(h->f[F_SN].k == K_NUM && h->f[F_SN].n == n0 + 1, "segment number");
		CHECK(h->f[F_TY].k == K_LIT && !strcmp(h->f[F_TY].p, "continuation"), "continuation segments say so");
		CHECK(h->f[F_OI].k == K_REF, "continuation segments refer to the first one");
		CHECK(h->f[F_PD].k == K_NONE, "no payload digest");
		COVER("continuation");
	} else {
		CHECK(h->f[F_SN].k == K_NONE && h->f[F_OI].k == K_NONE && h->f[F_PD].k == K_NONE, "an object of one segment has no segment headers");
		CHECK(h->f[F_TY].k == K_LIT && h->f[F_TY].p == res, "type of the object");
	}
	CHECK(h->f[F_TL].k == K_NONE, "total length not known yet");
	int64_t len = hlen(h) + (n0 ? 0 : 0), mx = len + more(h, n0 == 0, sjm.size);
	CHECK(mx + 5 <= h->resv, "the space reserved for the header always suffices");
	CHECK(len + 5 <= h->resv, "and leaves room for the padding header, or none is left");
	COVER("end");
}
#elif defined(H_SNEW)
const char *Header_Get(const struct header *h, const char *name)
{
	CHECK(h == &hw[2], "headers of the object");
	if (!strcmp(name, "Content-Type") || !strcmp(name, "WARC-Type") || !strcmp(name, "WARC-Date")) return ("x");
	return (NULL);
}
const char *IDX_Valid_Id(const struct aardwarc *a, const char *id, const char **n) { (void)a; (void)id; (void)n; return (NULL); }
void harness(void)
{
	static char ident[4];
	aa->magic = AARDWARC_MAGIC;
	const char *id = NDB() ? ident : NULL;
	struct segjob *sj = SegJob_New(aa, &hw[2], id);
	CHECK(sj == &sjm && sj->magic == SEGJOB_MAGIC && sj->aa == aa && sj->hdr == &hw[2] && sj->ident == id, "the job is for this object");
	CHECK(sj->nseg == 0 && sj->size == 0 && sj->cur_seg == NULL && VTAILQ_EMPTY(&sj->segments), "no segments yet");
	CHECK(g.nseg == 1, "the payload digest starts afresh");
	COVER("end");
}
#elif defined(H_DESTROY)
static void mk(int i)
{
	memset(&segw[i], 0, sizeof segw[i]);
	segw[i].magic = SEGMENT_MAGIC;
	segw[i].hdr = &hw[i]; segw[i].silo = NDB() ? (struct wsilo *)fakesilo[i] : NULL;
	had[i] = segw[i].silo != NULL;
	hw[i].destroyed = g.gone[i] = 0;
}
static struct segment *vf_list(struct segjob *sj)
{
	VTAILQ_INIT(&sj->segments);
#ifdef VF_PROOF
#define MAYBE NDB()
#else
#define MAYBE 1
#endif
	if (MAYBE) {
		mk(0);
		VTAILQ_INSERT_TAIL(&sj->segments, &segw[0], list);
		if (MAYBE) { mk(1); VTAILQ_INSERT_TAIL(&sj->segments, &segw[1], list); }
	}
	return (NULL);
}
static int invd(struct segjob *sj)
{
	struct segment *f = sjm.segments.vtqh_first;
	return (sj == &sjm && sjm.magic == SEGJOB_MAGIC && !g.destroyed &&
	    (f == NULL || ((f == &segw[0] || f == &segw[1]) && f->magic == SEGMENT_MAGIC)));
}
void harness(void)
{
	sjm.magic = SEGJOB_MAGIC;
	(void)vf_list(&sjm);
	segjob_destroy(&sjm);
	CHECK(g.destroyed == 1, "the job is freed");
#ifndef VF_PROOF
	CHECK(g.gone[0] == had[0] && g.gone[1] == had[1], "every silo which was not committed is abandoned");
#endif
	COVER("end");
}
#elif defined(H_COMMIT)
static char idtag[2][4];
static int t_n;
static char ret_id[4];
static int64_t t_lastmax;
void SegJob_Feed(struct segjob *sj, const void *iptr, ssize_t ilen)
{
	(void)iptr;
	CHECK(sj == &sjm && ilen == 0 && !g.feed, "the end of the object finishes the last segment");
	g.feed = 1;
}
static void segjob_destroy(struct segjob *sj)
{
	CHECK(sj == &sjm && !g.destroyed, "destroyed once");
	g.destroyed = 1;
	g.aband = segw[0].silo != NULL;
}
/* segment no. k+1 as segjob_finishseg() left it, in slot x */
static void mkseg(int x, int k)
{
	struct segment *s = &segw[x];
	struct header *h = &hw[x];
	memset(s, 0, sizeof *s); memset(h, 0, sizeof *h);
	s->magic = SEGMENT_MAGIC; s->segno = k + 1; s->hdr = h;
	s->silo = (struct wsilo *)fakesilo[x];
	h->base = vf_range(1, 4096);
	h->id = idtag[x];
	h->f[F_BD].k = K_DIG; h->f[F_BD].p = dig_seg; h->f[F_BD].len = 71;
	h->f[F_CL].k = K_NUM; h->f[F_CL].n = vf_range(0, 1ULL << 61); h->f[F_CL].len = digits(h->f[F_CL].n);
	if (k > 0) {
		h->f[F_SN].k = K_NUM; h->f[F_SN].n = k + 1; h->f[F_SN].len = digits(k + 1);
		h->f[F_OI].k = K_REF; h->f[F_OI].p = dig_empty; h->f[F_OI].len = t_reflen;
	} else
		h->id = id_seg;
	int64_t m = hlen(h) + more(h, k == 0, t_total);
	h->resv = vf_range(0, 1ULL << 40);
	ASSUME(h->resv >= m + 5);
}
static void pay(void)
{
	/* what precedes the loop did to the first one */
	hw[0].f[F_PD].k = K_DIG; hw[0].f[F_PD].p = dig_pay; hw[0].f[F_PD].len = 71;
	hw[0].id = id_pay;
}
static struct segment *vf_win(struct segjob *sj)
{
	(void)sj;
	int k = vf_range(0, t_n);
	g.k = g.commits = k; g.cur = 0;
	if (k == t_n) return (NULL);
	mkseg(0, k);
	if (k == 0) pay();
	if (k + 1 < t_n) { mkseg(1, k + 1); segw[0].list.vtqe_next = &segw[1]; }
	return (&segw[0]);
}
static int inv(struct segjob *sj, struct segment *sg)
{
	int ok = sj == &sjm && g.k == g.commits && g.k >= 0 && g.k <= t_n && g.npay == 1 && !g.destroyed;
	ok = ok && sg == (g.k < t_n ? &segw[g.cur] : NULL);
	if (ok && sg != NULL) {
		struct header *h = sg->hdr;
		ok = sg->magic == SEGMENT_MAGIC && sg->segno == g.k + 1 && h == &hw[g.cur] && sg->silo == (void *)fakesilo[g.cur] &&
		    h->f[F_BD].k == K_DIG && h->f[F_CL].k == K_NUM && h->f[F_TL].k == K_NONE &&
		    h->resv >= hlen(h) + more(h, g.k == 0, t_total) + 5;
		ok = ok && (g.k == 0 ? h->id == id_pay && h->f[F_PD].p == dig_pay : h->id == idtag[g.cur] && h->f[F_SN].n == g.k + 1);
	}
	return (ok);
}
void Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
{
	int k = g.commits, last = k + 1 == t_n;
	struct header *h = &hw[g.cur];
	CHECK(k < t_n && *slp == (void *)fakesilo[g.cur], "each segment is committed once, in order");
	CHECK(id == h->id, "a segment is indexed by its identifier");
	CHECK(h->f[F_BD].k == K_DIG && h->f[F_CL].k == K_NUM, "digest and length of the segment are in its header");
	if (t_n == 1) {
		CHECK(!segd && rid == NULL, "an object of one segment is not segmented");
		CHECK(h->f[F_SN].k == K_NONE && h->f[F_TL].k == K_NONE && h->f[F_OI].k == K_NONE, "and has no segment headers");
	} else {
		CHECK(segd, "segmented");
		CHECK(rid == (last ? NULL : hw[!g.cur].id), "the index entry leads to the next segment");
		CHECK(h->f[F_SN].k == K_NUM && h->f[F_SN].n == k + 1, "segment number");
		if (k == 0) {
			CHECK(h->f[F_PD].k == K_DIG && h->f[F_PD].p == dig_pay, "the first segment has the digest of the object");
			CHECK(h->id == id_pay, "the first segment has the identifier of the object");
			CHECK(h->f[F_OI].k == K_NONE, "the first segment is the origin");
		} else
			CHECK(h->f[F_OI].k == K_REF && (h->f[F_OI].p == id_pay || h->f[F_OI].p == hw[0].id && k == 1), "continuations refer to the first segment");
		if (last)
			CHECK(h->f[F_TL].k == K_NUM && h->f[F_TL].n == t_total, "the last segment has the length of the object");
		else
			CHECK(h->f[F_TL].k == K_NONE, "only the last segment has the length of the object");
	}
	CHECK(hlen(h) + 5 <= h->resv, "the final header fits the space reserved for it");
	*slp = NULL;
	g.commits++; g.k++; g.cur = !g.cur;
}
char *Digest2Ident(const struct aardwarc *a, const char *d)
{
	CHECK(a == aa, "archive");
	g.d2i++; g.d2i_arg = d;
	return (ret_id);
}
static struct vsb vsbm;
struct vsb *VSB_new(struct vsb *s, char *b, int n, int f) { (void)s; (void)b; (void)n; (void)f; return (&vsbm); }
struct getjob *GetJob_New(struct aardwarc *a, const char *id, struct vsb *v)
{
	(void)v;
	CHECK(a == aa && id == hw[0].id && !g.commits, "lookup of the object before it is committed");
	g.lookup++;
	return (NDB() ? (struct getjob *)ret_id : NULL);
}
static int t_found;
void GetJob_Delete(struct getjob **g2) { CHECK(*g2 != NULL, "found"); *g2 = NULL; t_found = 1; }
#undef fprintf
#define fprintf(...) 0
void harness(void)
{
	char *r;
	aa->magic = AARDWARC_MAGIC;
	t_reflen = vf_range(18, 1100);
	sjm.magic = SEGJOB_MAGIC;
	sjm.aa = aa;
#ifdef VF_PROOF
	t_n = vf_range(1, 1 << 30);
#else
	t_n = vf_range(1, 2);
#endif
	sjm.nseg = t_n;
	t_total = sjm.size = vf_range(1, 1ULL << 61);
	static char ident[4];
	sjm.ident = NDB() ? ident : NULL;
	VTAILQ_INIT(&sjm.segments);
	mkseg(0, 0);
	VTAILQ_INSERT_TAIL(&sjm.segments, &segw[0], list);
	if (t_n > 1) { mkseg(1, 1); VTAILQ_INSERT_TAIL(&sjm.segments, &segw[1], list); }
	r = SegJob_Commit(&sjm);
	CHECK(g.feed == 1, "the last segment was finished");
	CHECK(r == ret_id && g.d2i == 1, "the identifier of the object is returned");
	CHECK(g.d2i_arg == (t_n > 1 ? id_pay : id_seg), "that of the whole object");
	CHECK(g.lookup == 1, "duplicates are looked for");
	if (t_n > 1) CHECK(g.idset == 1 && g.iddig == dig_pay && g.idin == sjm.ident, "the object is identified by the digest of all of it, or as asked");
	else CHECK(g.idset == 0 && g.npay == 0, "one segment already has the right identifier");
	if (t_found) {
		CHECK(g.commits == 0 && g.destroyed == 1, "an object already in the archive is not stored again");
		COVER("duplicate");
	} else {
		CHECK(g.commits == t_n, "all segments are committed");
		if (t_n == 1) CHECK(g.destroyed == 1 && g.aband == 0, "nothing committed is abandoned");
		else COVER("segmented");
	}
	COVER("end");
}
#endif
uint64_t vf_nd_log;
