/* Contract of main_store(): exactly the input becomes the object */
#include "vf.h"
#include "vsb.h"
struct header { int ct, ty, date, ref; const char *ctv, *tyv, *refv; };
static struct {
	uint64_t got, fed;	/* bytes read, bytes handed on */
	ssize_t last; int eof, err;
	int nopen, cand;
	int job, commit, hdr, mime, look, out;
	int opts;
	const char *nid;
	int nd;
} g;
static char ibuf[8];
static const char t_mt[] = "m/x", t_i[] = "iiii", t_i2[] = "ii", t_r[] = "rrrr", t_d2i[] = "p/rrrr", t_res[] = "Resource", t_met[] = "metadata", t_bad[] = "bad";
static int vf_getopt(int argc, char **argv, const char *o);
static ssize_t vf_read(int fd, void *p, size_t n)
{
	CHECK(fd == g.cand && p == ibuf && n > 0 && n <= (1 << 24), "reads the input");
	CHECK(!g.eof && !g.err, "reading stops at the end");
	CHECK(g.fed == g.got, "everything read before has been stored");
#ifndef VF_PROOF
	ASSUME(g.nd++ < 4);
#endif
	int64_t r = (int64_t)vf_range(0, n + 1) - 1;
	if (r < 0) g.err = 1;
	else if (r == 0) g.eof = 1;
	else { ASSUME(g.got < (1ULL << 62)); g.got += r; }
	g.last = r;
	return (r);
}
static int vf_open(const char *fn, int fl, ...) { CHECK((fl & (O_ACCMODE | O_CREAT | O_TRUNC)) == O_RDONLY && fn[0] == 'f', "the input file is only read"); g.nopen++; if (NDB()) { errno = ENOENT; return (-1); } g.cand = 9; return (9); }
static void *vf_malloc(size_t n) { (void)n; return (ibuf); }
static void vf_free(void *p) { (void)p; }
static void vf_exit(int c)
{
	CHECK(c != 0, "giving up is reported");
	CHECK(!g.commit, "nothing is stored if the command gives up");
	COVER("exit");
	ASSUME(0);
}
static int vf_printf(const char *f, ...) { (void)f; CHECK(g.commit, "the identifier is reported only when the object is stored"); g.out++; return (0); }
static const char *vf_wt(int k);
static const char *vf_pick(int k) { int c = NDB(); return (k == 0 ? (c ? t_mt : "application/octet-stream") : c ? (k == 1 ? t_i : t_r) : NULL); }
#define malloc vf_malloc
#define free vf_free
#define exit vf_exit
#define open vf_open
#define read vf_read
#undef getopt
#define getopt vf_getopt
#define fprintf(...) ((void)0)
#define printf vf_printf
static int inv0(const char *wt, const char *mt, const char *i_arg, const char *r_arg);
static int inv1(ssize_t rlen, const char *p, int fd);
#undef VDEF_H_INCLUDED
#include SRC_main_store
#undef malloc
static struct aardwarc aam;
static struct header hm;
static char jobm[4], gjm[4], idm[4];
static struct vsb vm;
static const char *vf_wt(int k) { (void)k; uint64_t c = vf_range(0, 2); return (c == 0 ? NULL : c == 1 ? WT_RESOURCE : WT_METADATA); }
static int vf_getopt(int argc, char **argv, const char *o)
{
	(void)argc; (void)argv; (void)o;
#ifndef VF_PROOF
	ASSUME(g.opts++ < 5);
#endif
	switch (vf_range(0, 7)) {
	case 0: return ('h');
	case 1: optarg = (char *)(uintptr_t)t_i; return ('i');
	case 2: optarg = (char *)(uintptr_t)t_mt; return ('m');
	case 3: optarg = (char *)(uintptr_t)t_r; return ('r');
	case 4: { uint64_t c = vf_range(0, 2); optarg = (char *)(uintptr_t)(c == 0 ? t_res : c == 1 ? t_met : t_bad); return ('t'); }
	case 5: return ('?');
	default: optind = 0; return (-1);
	}
}
static int inv0(const char *wt, const char *mt, const char *i_arg, const char *r_arg)
{
	return ((wt == NULL || wt == WT_RESOURCE || wt == WT_METADATA) && mt != NULL && (i_arg == NULL || i_arg == t_i) && (r_arg == NULL || r_arg == t_r));
}
static int inv1(ssize_t rlen, const char *p, int fd)
{
	return (fd == g.cand && g.fed > 0 && p == ibuf && rlen > 0 && rlen == g.last && g.got == g.fed && !g.eof && !g.err && g.job == 1 && !g.commit && !g.out);
}
const char *usage_dummy;
void usage(const char *a, const char *e) { (void)a; (void)e; }
static int t_mimeok, t_iok, t_rok, t_rshort, t_rexists;
int Config_Find(const struct config *c, const char *n, const char *k, const char **p)
{ (void)c; CHECK(n[0] == 'r' ? !strcmp(n, "resource.mime-types") : !strcmp(n, "metadata.mime-types"), "list of mime types"); g.mime = 1 + (n[0] == 'm'); (void)k; *p = NULL; return (t_mimeok ? 0 : -1); }
int Config_Iter(const struct config *c, const char *n, void *p, config_f *f) { (void)c; (void)n; (void)p; (void)f; return (0); }
const char *IDX_Valid_Id(const struct aardwarc *a, const char *id, const char **n)
{
	CHECK(a == &aam && (id == t_i || id == t_r), "an identifier given");
	if (id == t_i) { if (n && t_iok) *n = t_i2; return (t_iok ? NULL : "bad"); }
	if (n && t_rok) *n = t_r;
	return (t_rok ? NULL : "bad");
}
char *Digest2Ident(const struct aardwarc *a, const char *d) { CHECK(a == &aam && d == t_r, "the reference"); return ((char *)(uintptr_t)t_d2i); }
struct header *Header_New(const struct aardwarc *a) { (void)a; g.hdr++; return (&hm); }
void Header_Set_Date(struct header *h) { h->date++; }
void Header_Destroy(struct header **h) { *h = NULL; }
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	const char *v;
	va_start(ap, f);
	v = strchr(f, '%') == NULL ? f : va_arg(ap, const char *);
	va_end(ap);
	CHECK(!g.job, "headers are set before the object is stored");
	if (!strcmp(n, "Content-Type")) { h->ct = 1; h->ctv = v; }
	else if (!strcmp(n, "WARC-Type")) { h->ty = 1; h->tyv = v; }
	else { CHECK(!strcmp(n, "WARC-Refers-To") && !strcmp(f, "<%s>"), "reference"); h->ref = 1; h->refv = v; }
}
struct vsb *VSB_new(struct vsb *s, char *b, int n, int f) { (void)s; (void)b; (void)n; (void)f; return (&vm); }
int VSB_finish(struct vsb *v) { (void)v; return (0); }
char *VSB_data(const struct vsb *v) { (void)v; return (idm); }
void VSB_destroy(struct vsb **v) { *v = NULL; }
struct getjob *GetJob_New(struct aardwarc *a, const char *id, struct vsb *v)
{
	(void)a; (void)v;
	CHECK(id == (t_rshort ? t_d2i : t_r), "the referenced object is looked up");
	g.look++;
	return (t_rexists ? (struct getjob *)gjm : NULL);
}
void GetJob_Delete(struct getjob **p) { *p = NULL; }
static const char *t_jobi;
struct segjob *SegJob_New(struct aardwarc *a, const struct header *h, const char *id)
{
	CHECK(a == &aam && h == &hm && !g.job, "one object");
	CHECK(h->date && h->ct && h->ty, "headers are set");
	CHECK(!strcmp(h->tyv, "resource") || !strcmp(h->tyv, "metadata"), "type of the object");
	int meta = h->tyv[0] == 'm';
	CHECK(h->ref == meta, "metadata, and nothing else, refers to another object");
	if (meta) CHECK(g.look == 1 && t_rexists && t_rok && h->refv == (t_rshort ? t_d2i : t_r), "which exists");
	CHECK(id == NULL || (meta && t_iok && id == t_i2), "a forced identifier is valid and for metadata only");
	CHECK(g.mime == 1 + meta && t_mimeok, "the mime type is among those configured");
	g.job = 1; t_jobi = id;
	return ((struct segjob *)jobm);
}
void SegJob_Feed(struct segjob *sj, const void *p, ssize_t n)
{
	CHECK(sj == (void *)jobm && g.job && !g.commit, "the job");
	CHECK(p == ibuf && n == g.last && n > 0 && g.fed + n == g.got, "exactly what was read goes into the object, in order");
	g.fed += n;
}
char *SegJob_Commit(struct segjob *sj)
{
	CHECK(sj == (void *)jobm && !g.commit, "committed once");
	CHECK(g.eof && !g.err, "only when the input ended, without a read error");
	CHECK(g.fed == g.got && g.fed > 0, "all of it has been stored");
	g.commit++;
	return (idm);
}
/* strlen(): of the reference */
static size_t vf_strlen2(const char *s) { return (s == t_r ? (t_rshort ? 4 : 10) : 4); }
void harness(void)
{
	static char fn[] = "file", dash[] = "-", a0[] = "store";
	char *av[4] = { a0, fn, fn, NULL };
	aam.magic = AARDWARC_MAGIC;
	t_mimeok = NDB(); t_iok = NDB(); t_rok = NDB(); t_rexists = NDB(); t_rshort = NDB();
	aam.id_size = t_rshort ? 4 : 3;
	int n = vf_range(0, 3);
	if (NDB()) av[1] = dash;
	av[0] = n ? av[1] : NULL;
	int r = main_store("aardwarc", &aam, n, av);
	CHECK(r == 0 && g.commit == 1 && g.out == 1, "success means the object was stored and its identifier reported");
	COVER("stored");
	COVER("end");
}
uint64_t vf_nd_log;
