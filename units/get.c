/* Contracts of main_get.c: what is delivered is the object */
#include "vf.h"
#include "vsb.h"
struct header { const char *pd, *bd, *tl, *cl; };
static struct {
	int iter, opt, fl, msg, hdr, opened, sha, shad; int nd;
	uint64_t w, h; int printed; uint64_t pv; int deleted;
} g;
static char digm[65], refd[8 + 64], refb[8 + 64], t_tl[] = "T", t_cl[] = "C";
static uint64_t t_tlv, t_clv, t_len;
static int t_digok, t_zip, t_hdronly, t_found, t_quiet;
static char fo[4], fe[4], ff[4], dat[4];
static FILE *t_dst;
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Init
#undef SHA256_Update
#undef SHA256_End
static void vf_init(void *c) { (void)c; g.sha++; }
static void vf_upd(void *c, const void *p, size_t n) { (void)c; CHECK(p == dat, "the data delivered is hashed"); g.h += n; g.shad++; }
static char *vf_end(void *c, char *b) { (void)c; (void)b; return (digm); }
#define SHA256_Init vf_init
#define SHA256_Update vf_upd
#define SHA256_End vf_end
static size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
	CHECK(p == dat && f == t_dst && s == 1, "the data delivered is written to the output");
	if (NDB()) { uint64_t k = vf_range(0, n); g.w += k; return (k); }
	g.w += n;
	return (n);
}
static FILE *vf_fopen(const char *fn, const char *m) { CHECK(fn[0] == 'o' && m[0] == 'w', "output file"); if (NDB()) { return (NULL); } g.opened = 1; t_dst = (FILE *)ff; return ((FILE *)ff); }
static int t_flushok;
static int vf_fflush(FILE *f) { CHECK(f == t_dst, "the output"); g.fl = 1; return (t_flushok ? 0 : -1); }
static int vf_fclose(FILE *f) { CHECK(f == t_dst, "the output"); g.fl = 1; return (t_flushok ? 0 : -1); }
static int vf_fprintf(FILE *f, const char *s, ...) { (void)s; CHECK(f != t_dst || t_dst == (FILE *)fe, "messages do not go into the output"); g.msg++; return (0); }
static int vf_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	CHECK(!strcmp(f, "%ju") && n >= 21, "length");
	g.pv = va_arg(ap, uintmax_t); g.printed = 1;
	va_end(ap);
	b[0] = 'L'; b[1] = 0;
	return (1);
}
static int vf_strcmp(const char *a, const char *b)
{
	if (b == t_tl || b == t_cl) { const char *t = a; a = b; b = t; }
	if (a == t_tl || a == t_cl) {
		CHECK(b[0] == 'L' && g.printed, "the length delivered is compared");
		return ((a == t_tl ? t_tlv : t_clv) != g.pv);
	}
	CHECK(0, "comparison");
	return (0);
}
static int vf_getopt(int c, char **v, const char *o)
{
	(void)c; (void)v; (void)o;
#ifndef VF_PROOF
	ASSUME(g.opt++ < 4);
#endif
	switch (vf_range(0, 6)) {
	case 0: return ('h');
	case 1: t_hdronly = !t_hdronly; return ('n');
	case 2: t_quiet = !t_quiet; return ('q');
	case 3: t_zip = !t_zip; return ('z');
	case 4: optarg = "out"; return ('o');
	case 5: return ('?');
	default: optind = 0; return (-1);
	}
}
static void vf_exit(int c) { CHECK(c != 0, "giving up is reported"); ASSUME(0); }
static void *vf_calloc(size_t n, size_t s);
static void vf_free(void *p) { (void)p; }
#undef getopt
#define getopt vf_getopt
#define exit vf_exit
#define calloc vf_calloc
#define free vf_free
#define fwrite vf_fwrite
#define fopen vf_fopen
#define fflush vf_fflush
#define fclose vf_fclose
#define fprintf vf_fprintf
#undef snprintf
#define snprintf vf_snprintf
#define strcmp vf_strcmp
#undef stdout
#undef stderr
#define stdout ((FILE *)fo)
#define stderr ((FILE *)fe)
static int inv0(const char *of, int hdr_only, int quiet, int zip);
static const char *vf_of(void);
#undef VDEF_H_INCLUDED
#include SRC_main_get
#undef strcmp
static struct get gm;
static struct aardwarc aam;
static struct header hw[2];
static char gjm[4], idm[] = "id"; static struct vsb vm;
static void *vf_calloc(size_t n, size_t s) { CHECK(n * s == sizeof gm, "state"); memset(&gm, 0, sizeof gm); return (&gm); }
void usage(const char *a, const char *b) { (void)a; (void)b; }
static const char *vf_of(void) { t_hdronly = NDB(); t_quiet = NDB(); t_zip = NDB(); return (NDB() ? "out" : NULL); }
static int inv0(const char *of, int hdr_only, int quiet, int zip) { return (!hdr_only == !t_hdronly && !quiet == !t_quiet && !zip == !t_zip && (of == NULL || of[0] == 'o')); }
struct vsb *VSB_new(struct vsb *s, char *b, int n, int f) { (void)s; (void)b; (void)n; (void)f; return (&vm); }
int VSB_finish(struct vsb *v) { (void)v; return (0); }
char *VSB_data(const struct vsb *v) { (void)v; return (idm); }
void VSB_delete(struct vsb *v) { (void)v; }
void VSB_destroy(struct vsb **v) { *v = NULL; }
struct getjob *GetJob_New(struct aardwarc *a, const char *id, struct vsb *v) { CHECK(a == &aam && id == idm && v == &vm, "the object asked for"); return (t_found ? (struct getjob *)gjm : NULL); }
void GetJob_Delete(struct getjob **p) { CHECK((void *)*p == gjm, "the job"); *p = NULL; g.deleted++; }
const struct header *GetJob_Header(const struct getjob *p, int first) { (void)p; return (&hw[!first]); }
struct vsb *GetJob_Headers(const struct getjob *p) { (void)p; g.hdr++; return (&vm); }
const char *Header_Get(const struct header *h, const char *n)
{
	if (!strcmp(n, "WARC-Payload-Digest")) { CHECK(h == &hw[0], "of the first segment"); return (h->pd); }
	if (!strcmp(n, "WARC-Block-Digest")) return (h->bd);
	if (!strcmp(n, "WARC-Segment-Total-Length")) { CHECK(h == &hw[1], "of the last segment"); return (h->tl); }
	if (!strcmp(n, "Content-Length")) return (h->cl);
	CHECK(0, "field");
	return (NULL);
}
#if defined(H_ITER)
void harness(void)
{
	gm.magic = GET_MAGIC;
	gm.dst = t_dst = (FILE *)fo;
	int z = gm.zip = NDB();
	gm.len = vf_range(0, 1ULL << 62);
	uint64_t l0 = gm.len;
	ssize_t n = vf_range(1, 1 << 30);
	CHECK(get_iter(&gm, dat, n) == 0, "asks for more");
	CHECK(g.w == (uint64_t)n, "all of the data is written, or the command fails");
	CHECK(g.h == (z ? 0 : (uint64_t)n), "the digest covers what is written");
	CHECK(gm.len == l0 + n, "and its length is counted");
	COVER("end");
}
void GetJob_Iter(const struct getjob *p, byte_iter_f *f, void *priv, int gz) { (void)p; (void)f; (void)priv; (void)gz; }
#else
void GetJob_Iter(const struct getjob *p, byte_iter_f *f, void *priv, int gz)
{
	CHECK((void *)p == gjm && f == get_iter && priv == &gm && !gz == !t_zip, "the object is delivered, compressed if asked for");
	CHECK(gm.dst == t_dst && !gm.zip == !t_zip && gm.len == 0 && gm.magic == GET_MAGIC && g.sha == 1, "to the output");
	CHECK(!t_hdronly, "not when only headers are asked for");
	g.iter++;
	gm.len = t_len;
}
void harness(void)
{
	char *av[3] = { idm, idm, NULL };
	aam.magic = AARDWARC_MAGIC;
	aam.id_size = vf_range(16, 64);
	t_found = NDB(); t_flushok = NDB(); t_digok = 1;
	memcpy(refd, "sha256:", 7); memcpy(refb, "sha256:", 7);
	int seg = NDB();
	for (int i = 0; i < 64; i++) {
		digm[i] = ND8(); ASSUME(digm[i] != 0);
		char c = ND8(); ASSUME(c != 0);
		refd[7 + i] = refb[7 + i] = c;
		if (seg) refb[7 + i] = 'x';
		if (c != digm[i] && i < (int)aam.id_size) t_digok = 0;
	}
	hw[0].pd = seg ? refd : NULL; hw[0].bd = refb;
	hw[1].tl = seg ? t_tl : NULL; hw[1].cl = t_cl; hw[1].bd = refb;
	t_tlv = ND64(); t_clv = ND64(); t_len = ND64();
	t_dst = (FILE *)fo;
	int r = main_get("aardwarc", &aam, vf_range(0, 2), av);
	CHECK(r == 0 && t_found, "success only for an object that was found");
	CHECK(g.iter == !t_hdronly, "the object is delivered, once, unless only the headers are asked for");
	CHECK(g.hdr == !t_quiet, "headers are shown, unless asked not to");
	if (!t_hdronly) {
		CHECK(g.fl && t_flushok, "success only if all output was written");
		if (!t_zip) {
			CHECK(t_digok, "success only if the digest of what was delivered is the one recorded");
			CHECK(t_len == (seg ? t_tlv : t_clv), "success only if the length is the one recorded");
			COVER("checked");
		}
	}
	COVER("end");
}
#endif
uint64_t vf_nd_log;
