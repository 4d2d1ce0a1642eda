/* Contracts of warcinfo.c: the record at the front of each silo */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"
struct header { int type, ctype, fn, date; int64_t cl; const char *dig; char *id; int destroyed; };
static struct {
	int nb, fin, gz, adds, cfg;		/* body */
	int sha, idset, ser, del;
	int stage; int64_t stored; const void *pend; int64_t pendn; int cpy;
	int hdrs;
} g;
static int64_t t_blen, t_zlen, t_hlen, t_room;
static char bdata[4], zdata[4], hdata[4], spc[4], dig[4], idb[70];
static struct vsb bodym, serm;
static struct header hm;
#undef VSB_new_auto
struct vsb *VSB_new_auto(void) { CHECK(g.nb == 0, "one body"); g.nb = 1; return (&bodym); }
#define VSB_delete(v) ((void)(v))
#define VSB_destroy(v) ((void)(v))
int VSB_printf(struct vsb *v, const char *f, ...) { (void)f; CHECK(v == &bodym && !g.fin, "adds to the body"); g.adds++; return (0); }
int VSB_cat(struct vsb *v, const char *f) { (void)f; CHECK(v == &bodym && !g.fin, "adds to the body"); g.adds++; return (0); }
int VSB_finish(struct vsb *v) { CHECK(v == &bodym && !g.fin, "finished once"); g.fin = 1; bodym.s_buf = bdata; bodym.s_len = t_blen; return (0); }
char *VSB_data(const struct vsb *v) { CHECK(v == &serm || g.fin, "finished before it is used"); return (v->s_buf); }
ssize_t VSB_len(const struct vsb *v) { CHECK(v == &serm || g.fin, "finished before it is used"); return (v->s_len); }
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Data
static char *vf_sha(const void *p, size_t n, char *b)
{
	CHECK(p == bdata && (int64_t)n == t_blen && b == NULL && !g.gz, "the digest is that of the whole, uncompressed body");
	g.sha = 1;
	return (dig);
}
#define SHA256_Data(p, n, b) vf_sha(p, n, b)
static void vf_memcpy(void *d, const void *s, size_t n)
{
	CHECK(d == spc, "data is put in the space offered");
	g.pend = s; g.pendn = n; g.cpy++;
}
static void vf_free(void *p) { (void)p; }
static char *vf_strdup(const char *s) { CHECK(s == hm.id && s != NULL, "the identifier of the record"); return (idb); }
#undef strdup
#define memcpy vf_memcpy
#define free vf_free
#define strdup vf_strdup
#undef VDEF_H_INCLUDED
#include SRC_warcinfo
#undef memcpy
static struct aardwarc aam;
static struct wsilo *const ws = (struct wsilo *)spc;
static uint32_t t_no;
static const char t_base[] = "%08u.warc.gz", t_fn[] = "7";
struct header *Header_New(const struct aardwarc *a) { CHECK(a == &aam && !g.hdrs, "one header"); g.hdrs = 1; return (&hm); }
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	CHECK(h == &hm && !g.ser, "set before it is written");
	va_start(ap, f);
	if (!strcmp(n, "WARC-Filename")) { CHECK(f == t_base && va_arg(ap, uint32_t) == t_no, "file name of this silo"); h->fn = 1; }
	else if (!strcmp(n, "WARC-Type")) { CHECK(!strcmp(f, "warcinfo"), "type"); h->type = 1; }
	else if (!strcmp(n, "Content-Type")) { CHECK(!strcmp(f, "application/warc-fields"), "content type"); h->ctype = 1; }
	else if (!strcmp(n, "Content-Length")) h->cl = va_arg(ap, ssize_t);
	else if (!strcmp(n, "WARC-Block-Digest")) { CHECK(!strcmp(f, "sha256:%s"), "digest"); h->dig = va_arg(ap, const char *); }
	else CHECK(0, "a header field of warcinfo records");
	va_end(ap);
}
const char *Header_Get(const struct header *h, const char *n) { CHECK(h == &hm && !strcmp(n, "WARC-Filename"), "file name"); return (h->fn ? t_fn : NULL); }
void Header_Set_Date(struct header *h) { h->date = 1; }
const char *Header_Get_Id(const struct header *h) { return (h->id); }
void Header_Destroy(struct header **h) { (*h)->destroyed++; *h = NULL; }
void Ident_Set(const struct aardwarc *a, struct header *h, const char *d, const char *in)
{
	CHECK(a == &aam && h == &hm && d == dig && in == NULL && h->type, "the identifier is made from the body");
	h->id = idb; g.idset++;
}
struct vsb *Header_Serialize(const struct header *h, int level)
{
	CHECK(h == &hm && level == 0 && !h->destroyed, "header as stored");
	CHECK(h->type && h->ctype && h->fn && h->date && h->dig == dig && h->cl == t_blen && g.idset == 1, "all header fields are set before it is written");
	g.ser++;
	serm.s_buf = hdata; serm.s_len = t_hlen;
	return (&serm);
}
int Config_Iter(const struct config *c, const char *n, void *p, config_f *f) { (void)c; (void)n; (void)p; (void)f; g.cfg++; CHECK(!g.fin, "configured lines go into the body"); return (0); }
void Gzip_Vsb(struct vsb **v, int level) { CHECK(*v == &bodym && g.fin && !g.gz, "the body is compressed once"); (void)level; g.gz = 1; bodym.s_buf = zdata; bodym.s_len = t_zlen; }
void Wsilo_GetSpace(const struct wsilo *s, void **p, ssize_t *l) { CHECK(s == ws, "this silo"); *p = spc; *l = t_room - g.stored; g.pend = NULL; }
int Wsilo_Store(struct wsilo *s, ssize_t l)
{
	CHECK(s == ws && l == g.pendn && l <= t_room - g.stored, "what was put in the space is stored");
	if (g.stage == 0) CHECK(g.pend == hdata && l == t_hlen, "the header comes first, whole");
	if (g.stage == 1) CHECK(g.pend == zdata && l == t_zlen, "then the compressed body, whole");
	if (g.stage == 2) CHECK(g.pend == Gzip_crnlcrnl && l == 24, "then the record separator");
	CHECK(g.stage < 3, "and nothing else");
	g.stage++;
	g.stored += l;
	return (0);
}
const uint8_t Gzip_crnlcrnl[24] = { 0x1f };
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
	aam.silo_basename = (char *)(uintptr_t)t_base;
	t_no = ND32();
	t_blen = vf_range(1, 1 << 20); t_zlen = vf_range(1, 1 << 20); t_hlen = vf_range(1, 1 << 20);
	t_room = vf_range(1, 1ULL << 50);
	char *r = Warcinfo_New(&aam, ws, t_no);
	CHECK(r == idb, "the identifier of the record is returned");
	CHECK(g.stage == 3 && g.stored == t_hlen + t_zlen + 24, "the record is complete: header, body, separator");
	CHECK(hm.destroyed == 1 && g.cfg == 1 && g.sha == 1, "once");
	COVER("end");
}
uint64_t vf_nd_log;
