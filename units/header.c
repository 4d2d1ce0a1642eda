/* Contracts of header.c: a header is a list of fields, sorted by name without
 * regard to case and without duplicates.  Names and values are opaque strings
 * with a rank (names) or an identity (values); strcasecmp() orders names by
 * their rank. */
#include "vf.h"
#include "vsb.h"
#include "miniobj.h"
#define NT 24
#ifdef VF_NATIVE
#define INPOOL(p, a)	((const char *)(p) >= (const char *)(a) && (const char *)(p) < (const char *)(a) + sizeof(a))
#define POFF(p, a)	((const char *)(p) - (const char *)(a))
#else
#define INPOOL(p, a)	(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(a))
#define POFF(p, a)	__CPROVER_POINTER_OFFSET(p)
#endif
static struct {
	int nt, nfree, tn, tv;
	int has; uint64_t pos, n, ins, m;	/* the field asked for; the others */
	int bank, w0, w1; uint64_t k; struct hfield *hf;
	unsigned out, off; int fin, z, lvl;
} g;
static char tk[NT][4];
static uint64_t trank[NT];	/* rank of a name or identity of a value */
static int tfreed[NT], tval[NT];
static int tok(const void *p)
{
	return (INPOOL(p, tk) ? (int)(POFF(p, tk) / sizeof tk[0]) : -1);
}
static char *newtok(uint64_t r, int val)
{
	CHECK(g.nt < NT, "harness: enough strings");
	ASSUME(g.nt < NT);
	int i = g.nt++;
	trank[i] = r;
	tval[i] = val;
	tfreed[i] = 0;
	tk[i][0] = val ? 'v' : 'n';
	tk[i][1] = 0;
	return (tk[i]);
}
static int vf_strcasecmp(const char *a, const char *b)
{
	int i = tok(a), j = tok(b);
	CHECK(i >= 0, "compares the name of a field");
	if (j < 0) return (trank[i] < 7 ? -1 : 1);		/* a literal, which it is not */
	CHECK(!tfreed[i] && !tfreed[j] && !tval[i] && !tval[j], "compares names which exist");
	return (trank[i] < trank[j] ? -1 : trank[i] > trank[j]);
}
static char *vf_strdup(const char *s)
{
	int i = tok(s);
	CHECK(i >= 0 && !tfreed[i], "copies a string which exists");
	ASSUME(i >= 0);
	return (newtok(trank[i], tval[i]));
}
static int vf_vasprintf(char **d, const char *f, va_list ap)
{
	CHECK(f[0] == '%' && f[1] == 's' && f[2] == 0, "the format given");
	*d = vf_strdup(va_arg(ap, const char *));
	return (1);
}
static char *vf_strchr(const char *s, int c) { (void)s; (void)c; return (NULL); }
static void vf_free(void *p);
static void *vf_calloc(size_t n, size_t l);
#undef isgraph
#define isgraph(c) ((c) > 32 && (c) < 127)
#define strcasecmp vf_strcasecmp
#if !defined(H_ID) && !defined(H_PARSE)
#undef strdup
#define strdup vf_strdup
#endif
#define vasprintf vf_vasprintf
#define free vf_free
#define calloc vf_calloc
#ifndef H_PARSE
#define strchr vf_strchr
#elif defined(VF_PROOF)
#undef strdup
#define strdup vf_pdup
#define strchr vf_pchr
#define strrchr vf_prchr
#define strcmp vf_pcmp
#define memcmp vf_pmemcmp
struct header;
static char *vf_line(void), *vf_pchr(const char *, int), *vf_prchr(const char *, int), *vf_pdup(const char *);
static int invline(const struct header *, const char *), vf_pcmp(const char *, const char *), vf_pmemcmp(const char *, const char *, size_t);
#endif
#if defined(H_PARSE) || defined(H_REF)
struct header;
void Header_Set(struct header *, const char *, const char *, ...);
#endif
#if defined(H_REF) && defined(VF_PROOF)
static size_t vf_strlen(const char *);
#define strlen vf_strlen
#endif
struct header; struct hfield;
#ifdef H_NUM
static char numb[20];
static const char *vf_num(void);
static int invnum(const char *, int64_t);
const char *Header_Get(const struct header *, const char *);
#endif
static struct hfield *vf_w0(struct header *), *vf_w1(struct header *);
static int inv0(const struct hfield *), inv1(struct header *, const struct hfield *, const struct hfield *);
static struct hfield *vf_wc(struct header *);
static int invc(const struct hfield *, struct header *), invdel(struct header *, const struct hfield *), invdes(struct header *);
static struct hfield *vf_wdel(struct header *), *vf_wdes(struct header *), *vf_wser(struct header *);
static int invser(const struct hfield *);
static struct vsb *vf_vsb_new(struct vsb *a, char *b, int l, int fl);
static int vf_cat(struct vsb *, const char *), vf_finish(struct vsb *), vf_putc(struct vsb *, int), vf_printf(struct vsb *, const char *, ...);
#define VSB_putc vf_putc
#define VSB_printf vf_printf
#define VSB_new vf_vsb_new
#define VSB_cat vf_cat
#define VSB_finish vf_finish
#undef VDEF_H_INCLUDED
#undef MINIOBJ_H_INCLUDED
#include SRC_header
static struct aardwarc aam;
static struct header hdm, hdc;
static int t_hdrfreed;
/* P, C and N: a field and its neighbours; F: a new field */
#define NN 11
static struct hfield nodes[NN];
#define P (&nodes[g.bank + 0])
#define C (&nodes[g.bank + 1])
#define N (&nodes[g.bank + 2])
#define E (&nodes[g.bank + 3])
#define X (&nodes[g.bank + 4])
#define F (&nodes[10])
static int nfreed[NN], nalloc;
static uint64_t npos[NN];
static uint64_t t_rn, t_val;
static char *t_name, *t_v;
static uint64_t rank(const struct hfield *f) { int i = tok(f->name); CHECK(i >= 0 && !tval[i] && !tfreed[i], "a field has a name"); return (i >= 0 ? trank[i] : 0); }
static uint64_t val(const struct hfield *f) { int i = tok(f->val); CHECK(i >= 0 && tval[i] && !tfreed[i], "a field has a value"); return (i >= 0 ? trank[i] : 0); }
static int nidx(const void *p)
{
	return (INPOOL(p, nodes) ? (int)(POFF(p, nodes) / sizeof nodes[0]) : -1);
}
static void vf_free(void *p)
{
	int i = tok(p), j = nidx(p);
	if (p == NULL) return;
	if (i >= 0) { CHECK(!tfreed[i], "strings are freed once"); tfreed[i] = 1; }
	else if (j >= 0) { CHECK(!nfreed[j], "fields are freed once"); nfreed[j] = 1; g.nfree++; }
	else { CHECK(p == &hdm && !t_hdrfreed, "only what is allocated is freed"); t_hdrfreed = 1; }
}
static void *vf_calloc(size_t n, size_t l)
{
#ifdef H_NEW
	if (n * l == sizeof hdm) return (&hdm);
	CHECK(n * l == aam.id_size + 1L, "room for an identifier");
	return (memset(malloc(n * l), 0, n * l));
#endif
#ifdef H_PARSE
	CHECK(n * l == sizeof hdm && !nalloc++, "one header");
	return (&hdm);
#endif
#ifdef H_CLONE
	if (!nalloc++) { CHECK(n * l == sizeof hdc, "a header is made"); return (&hdc); }
	if (nalloc == 2) { CHECK(n * l == aam.id_size + 1L, "room for an identifier"); return (memset(malloc(n * l), 0, n * l)); }
#endif
	CHECK(n * l == sizeof(struct hfield), "a field is made");
	nalloc++;
#if defined(H_CLONE) && !defined(VF_PROOF)
	CHECK(nalloc <= 6, "no more fields than there are");
	memset(&nodes[5 + nalloc / 2], 0, sizeof *F);
	return (&nodes[5 + nalloc / 2]);
#endif
	nfreed[10] = 0;
	memset(F, 0, sizeof *F);
	return (F);
}
/* rank of the field at a position of the list: sorted around the one asked for */
static uint64_t rank_at(uint64_t p, uint64_t ins, int has)
{
#ifndef VF_PROOF
	return (p < ins ? 100 + p : has && p == ins ? t_rn : 2000 + p);	/* only the order matters */
#endif
	uint64_t r = vf_range(8, UINT64_MAX - 8);
	if (p < ins) ASSUME(r < t_rn);
	else if (has && p == ins) ASSUME(r == t_rn);
	else ASSUME(r > t_rn);
	return (r);
}
static void fill(struct hfield *f, uint64_t p, uint64_t ins, int has)
{
	nfreed[nidx(f)] = 0;
	npos[nidx(f)] = p;
	f->magic = HFIELD_MAGIC;
	f->name = newtok(rank_at(p, ins, has), 0);
	f->val = newtok(vf_range(1, 1000), 1);
	if (nidx(f) % 5 == 1) { g.tn = tok(f->name); g.tv = tok(f->val); }
}
/* the neighbourhood of position k in a list of n fields */
static struct hfield *window(struct header *h, uint64_t k, uint64_t n, uint64_t ins, int has)
{
	void *first = NULL;
	struct hfield **pp;
	if (k > 0) {
		fill(P, k - 1, ins, has);
		P->list.vtqe_prev = k == 1 ? &h->hfields.vtqh_first : &X->list.vtqe_next;
		first = k == 1 ? P : X;
		pp = &P->list.vtqe_next;
	} else
		pp = &h->hfields.vtqh_first;
	X->list.vtqe_next = k > 1 ? P : NULL;
	h->hfields.vtqh_first = first;
	if (k < n) {
		fill(C, k, ins, has);
		*pp = C;
		C->list.vtqe_prev = pp;
		pp = &C->list.vtqe_next;
		if (k + 1 < n) {
			fill(N, k + 1, ins, has);
			*pp = N;
			N->list.vtqe_prev = pp;
			pp = &N->list.vtqe_next;
			if (k + 2 < n) {
				N->list.vtqe_next = E;
				pp = &E->list.vtqe_next;
				E->list.vtqe_next = NULL;
			}
		}
	}
	*pp = NULL;
	h->hfields.vtqh_last = pp;
	if (k + 2 < n) N->list.vtqe_next = E;
	return (k < n ? C : NULL);
}
/* is w linked between position k-1 and k of the window? */
static int linked(struct header *h, struct hfield *w, uint64_t k, uint64_t n)
{
	struct hfield **pp = k > 0 ? &P->list.vtqe_next : &h->hfields.vtqh_first;
	if (*pp != w || w->list.vtqe_prev != pp) return (0);
	if (k < n) return (w->list.vtqe_next == C && C->list.vtqe_prev == &w->list.vtqe_next);
	return (w->list.vtqe_next == NULL && h->hfields.vtqh_last == &w->list.vtqe_next);
}
static void setup(void)
{
	aam.magic = AARDWARC_MAGIC;
	hdm.magic = HEADER_MAGIC;
	hdm.aa = &aam;
#ifdef VF_PROOF
	t_rn = vf_range(16, UINT64_MAX - 16);
#else
	t_rn = 1000;
#endif
	t_val = vf_range(1, 1000);
	t_name = newtok(t_rn, 0);
	t_v = newtok(t_val, 1);
	/* n fields, ins of them sort before the one asked for */
	g.has = NDB();
#ifdef VF_PROOF
	g.n = vf_range(0, UINT64_MAX - 8);
#else
	g.n = vf_range(0, 2);
#endif
	ASSUME(!g.has || g.n > 0);
	g.m = g.n - g.has;
	g.ins = g.pos = vf_range(0, g.m);
	g.k = 0;
#ifdef VF_PROOF
	(void)window(&hdm, 0, g.n, g.ins, g.has);
#endif
}
/* any position of the search for the name */
static struct hfield *vf_w0(struct header *h)
{
	g.k = vf_range(0, g.n);
	g.w0 = 1;
	return (window(h, g.k, g.n, g.ins, g.has));
}
static int inv0(const struct hfield *hf)
{
	if (hf == NULL) return (!g.has);
	return (nidx(hf) >= 0 && (!g.has || npos[nidx(hf)] <= g.pos));
}
/* any position of the search for the place to put it */
static struct hfield *vf_w1(struct header *h)
{
	g.k = vf_range(0, g.m);
	g.w1 = 1;
	g.bank = 5;
	return (window(h, g.k, g.m, g.ins, 0));
}
static int inv1(struct header *h, const struct hfield *hf, const struct hfield *hf2)
{
	g.hf = (struct hfield *)(uintptr_t)hf;
	if (!g.w1) {
		/* before the search: the field is out of the list */
		if (g.has) {
			struct hfield **pp = g.k > 0 ? &P->list.vtqe_next : &h->hfields.vtqh_first;
			CHECK(hf == C && !nalloc, "the field is replaced");
			CHECK(*pp == (g.k + 1 < g.n ? N : NULL), "and was taken out of the list");
			if (g.k + 1 < g.n) CHECK(N->list.vtqe_prev == pp, "and was taken out of the list");
			else CHECK(h->hfields.vtqh_last == pp, "and was taken off the end of the list");
		} else
			CHECK(hf == F && nalloc == 1, "a new field is made");
		CHECK(rank(hf) == t_rn && val(hf) == t_val && !nfreed[nidx(hf)], "with its name and value");
		return (1);
	}
	if (hf2 == NULL) return (g.ins == g.m);
	return (nidx(hf2) >= 0 && npos[nidx(hf2)] <= g.ins);
}
static struct hfield *nth(struct header *h, unsigned i)
{
	struct hfield *f = h->hfields.vtqh_first;
	for (unsigned j = 0; j < i && f != NULL; j++) f = f->list.vtqe_next;
	return (f);
}
static struct vsb vs;
static struct vsb *vf_vsb_new(struct vsb *a, char *b, int l, int fl) { (void)a; (void)b; (void)l; (void)fl; g.out = 0; return (&vs); }
static char t_prefix[4] = "p", t_id[4] = "i";
#ifdef VF_PROOF
#define CUR (g.k < g.n ? C : NULL)
#else
#define CUR nth(&hdm, g.k)
#endif
/* what Header_Serialize() is to emit: literal text and strings, however they
 * are split into calls: 0 lit, 1 prefix, 2 id, 3 lit, per field: 4 name, 5 lit,
 * 6 value, 7 lit; then 8 lit, 9 end */
static const char *const lits[9] = { "WARC/1.1\r\nWARC-Record-ID: <", 0, 0, ">\r\n", 0, ": ", 0, "\r\n", "\r\n" };
static void nextpiece(void)
{
	g.out++;
	g.off = 0;
	if (g.out == 8) { g.out = 4; g.k++; }
	if (g.out == 4 && CUR == NULL) g.out = 8;
}
static void put_str(const char *s)
{
	const char *w = NULL;
	if (g.out == 1) w = t_prefix;
	if (g.out == 2) w = t_id;
	if (g.out == 4) w = CUR->name;
	if (g.out == 6) w = CUR->val;
	CHECK(w != NULL && s == w, "the right string in the right place");
	nextpiece();
}
static void put_ch(char c)
{
	CHECK(g.out < 9 && lits[g.out] != NULL, "text where text belongs");
	ASSUME(g.out < 9 && lits[g.out] != NULL);
	CHECK(lits[g.out][g.off] == c, "the right text");
	g.off++;
	if (lits[g.out][g.off] == 0) { if (g.out == 8) g.out = 9; else nextpiece(); }
}
static int isstr(const char *s) { return (s == t_prefix || s == t_id || tok(s) >= 0); }
static int vf_cat(struct vsb *v, const char *s)
{
	CHECK(v == &vs, "to the result");
	if (isstr(s)) put_str(s);
	else for (; *s; s++) put_ch(*s);
	return (0);
}
static int vf_putc(struct vsb *v, int c) { CHECK(v == &vs, "to the result"); put_ch(c); return (0); }
static int vf_printf(struct vsb *v, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	for (; *f; f++) {
		if (*f == '%' && f[1] == 's') { (void)vf_cat(v, va_arg(ap, const char *)); f++; }
		else put_ch(*f);
	}
	va_end(ap);
	return (0);
}
static int vf_finish(struct vsb *v) { CHECK(v == &vs, "finish"); g.fin++; return (0); }
void Gzip_Vsb(struct vsb **v, int lvl) { CHECK(*v == &vs && g.fin == 1 && g.out == 9, "compressed when complete"); g.z++; CHECK(lvl == g.lvl, "at the level asked for"); }
static void shape(unsigned n, int has, unsigned ins)
{
	setup();
	(void)n; (void)has; (void)ins;
#ifndef VF_PROOF
	g.n = n;
	g.has = has;
	g.m = n - has;
	g.ins = g.pos = ins;
	(void)window(&hdm, 0, g.n, g.ins, g.has);
#endif
}
#ifdef VF_PROOF
#define SHAPES(f) f(0, 0, 0)
#else
/* all lists of at most two fields, one by one */
#define SHAPES(f) do { \
	unsigned s = vf_range(0, 8); \
	if (s == 0) f(0, 0, 0); else if (s == 1) f(1, 0, 0); else if (s == 2) f(1, 0, 1); else if (s == 3) f(1, 1, 0); \
	else if (s == 4) f(2, 0, 0); else if (s == 5) f(2, 0, 1); else if (s == 6) f(2, 0, 2); else if (s == 7) f(2, 1, 0); else f(2, 1, 1); } while (0)
#endif
#if defined(H_SET)
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	Header_Set(&hdm, t_name, "%s", t_v);
#ifdef VF_PROOF
	CHECK(g.k == g.ins, "put where the order wants it");
	CHECK(linked(&hdm, g.hf, g.ins, g.m), "put in the list");
#else
	/* the list is sorted, has the field once and all others unchanged */
	unsigned cnt = 0, hit = 0;
	struct hfield **pp = &hdm.hfields.vtqh_first, *f;
	uint64_t last = 0;
	for (f = *pp; f != NULL; f = f->list.vtqe_next) {
		CHECK(cnt < 4, "list is finite"); ASSUME(cnt < 4);
		CHECK(f->list.vtqe_prev == pp, "list is linked backwards");
		pp = &f->list.vtqe_next;
		CHECK(!nfreed[nidx(f)], "fields in the list exist");
		CHECK(rank(f) > last, "fields are sorted and unique");
		last = rank(f);
		if (last == t_rn) { hit++; CHECK(val(f) == t_val, "the field has the new value"); }
		else CHECK(tok(f->val) >= 0 && !tfreed[tok(f->val)], "other fields keep their value");
		cnt++;
	}
	CHECK(hdm.hfields.vtqh_last == pp, "list ends where it says");
	CHECK(hit == 1, "the field is there once");
	CHECK(cnt == g.m + 1, "all other fields are kept");
#endif
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_GET)
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	const char *p = Header_Get(&hdm, t_name);
	CHECK((p != NULL) == g.has, "a field is found exactly if it is there");
	if (p != NULL) {
		CHECK(tok(p) >= 0 && tval[tok(p)], "its value");
#ifdef VF_PROOF
		CHECK(p == C->val && rank(C) == t_rn, "of the field with that name");
#else
		CHECK(p == nth(&hdm, g.pos)->val, "of the field with that name");
#endif
	}
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_SER)
static struct hfield *vf_wser(struct header *h)
{
	g.k = vf_range(0, g.n);
	struct hfield *f = window(h, g.k, g.n, g.ins, g.has);
	g.out = f != NULL ? 4 : 8;
	g.off = 0;
	return (f);
}
static int invser(const struct hfield *hf)
{
	if (hf == NULL) return (g.out == 8 && g.off == 0 && g.k == g.n);
	return (g.out == 4 && g.off == 0 && nidx(hf) >= 0 && npos[nidx(hf)] == g.k);
}
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	aam.prefix = t_prefix;
	hdm.warc_record_id = t_id;
	g.lvl = (int)vf_range(0, 10) - 1;
	CHECK(Header_Serialize(&hdm, g.lvl) == &vs, "the text is returned");
	CHECK(g.out == 9, "all of it was emitted");
	if (g.lvl == -1) CHECK(!g.fin && !g.z, "open for more");
	else CHECK(g.z == 1, "and compressed");
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_DEL)
static struct hfield *vf_wdel(struct header *h)
{
	g.w0 = 1;
	g.k = vf_range(0, g.n);
	if (!g.has || g.k <= g.pos) return (window(h, g.k, g.n, g.ins, g.has));
	struct hfield *f = window(h, g.k - 1, g.m, g.ins, 0);
	for (int i = 0; i < 5; i++) npos[i]++;
	return (f);
}
static int invdel(struct header *h, const struct hfield *hf)
{
	if (!g.w0) return (hf == h->hfields.vtqh_first);
	if (hf != NULL && !(nidx(hf) >= 0 && npos[nidx(hf)] == g.k + g.w1)) return (0);
	if (!g.w1) return (1);
	/* after one step */
	struct hfield **pp = g.k - (g.has && g.k > g.pos) > 0 ? &P->list.vtqe_next : &h->hfields.vtqh_first;
	if (g.has && g.k == g.pos) {
		CHECK(*pp == (g.k + 1 < g.n ? N : NULL), "the field is taken out of the list");
		if (g.k + 1 < g.n) CHECK(N->list.vtqe_prev == pp, "the field is taken out of the list");
		else CHECK(h->hfields.vtqh_last == pp, "the field is taken off the end of the list");
		CHECK(tfreed[g.tn] && tfreed[g.tv] && nfreed[1], "and freed with name and value");
	} else
		CHECK(*pp == C && C->list.vtqe_prev == pp && !nfreed[1] && !tfreed[g.tn] && !tfreed[g.tv], "all other fields stay");
	return (1);
}
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	Header_Delete(&hdm, t_name);
#ifndef VF_PROOF
	unsigned cnt = 0;
	struct hfield **pp = &hdm.hfields.vtqh_first, *f;
	for (f = *pp; f != NULL; f = f->list.vtqe_next) {
		CHECK(cnt < 4, "list is finite"); ASSUME(cnt < 4);
		CHECK(f->list.vtqe_prev == pp, "list is linked backwards");
		pp = &f->list.vtqe_next;
		CHECK(!nfreed[nidx(f)] && rank(f) != t_rn && val(f) != 0, "only others are left");
		cnt++;
	}
	CHECK(hdm.hfields.vtqh_last == pp, "list ends where it says");
	CHECK(cnt == g.m, "all other fields are kept");
	CHECK(g.nfree == g.has, "the field is freed");
#endif
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_DESTROY)
static struct hfield *vf_wdes(struct header *h)
{
	g.n = ND64();
	ASSUME(g.n < UINT64_MAX - 8);
	g.has = 0; g.ins = vf_range(0, g.n);
	g.w0 = 1; g.k = 0;
	return (window(h, 0, g.n, g.ins, 0));
}
static int invdes(struct header *h)
{
	if (g.w1) {
		CHECK(h->hfields.vtqh_first == (g.n > 1 ? N : NULL), "the first field is taken out");
		CHECK(g.n > 1 || h->hfields.vtqh_last == &h->hfields.vtqh_first, "the first field is taken out");
		CHECK(nfreed[1] && tfreed[g.tn] && tfreed[g.tv], "and freed");
	}
	return (!t_hdrfreed);
}
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	char *id = newtok(1, 1);
	struct header *h = &hdm;
	hdm.warc_record_id = NDB() ? id : NULL;
	int hasid = hdm.warc_record_id != NULL;
	Header_Destroy(&h);
	CHECK(h == NULL && t_hdrfreed, "gone");
	if (hasid) CHECK(tfreed[tok(id)], "with its identifier");
#ifndef VF_PROOF
	CHECK(g.nfree == (int)n, "and all its fields");
#else
	CHECK(g.n == 0, "and all its fields");
#endif
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_CLONE)
/* any step of the copy: both lists at the same place */
static struct hfield *vf_wc(struct header *h)
{
	(void)h;
	g.k = vf_range(0, g.n);
	struct hfield *f = window(&hdm, g.k, g.n, g.ins, g.has);
	struct hfield **pp = &hdc.hfields.vtqh_first;
	*pp = NULL;
	if (g.k > 0) { *pp = &nodes[5]; nodes[5].list.vtqe_prev = pp; pp = &nodes[5].list.vtqe_next; *pp = NULL; }
	hdc.hfields.vtqh_last = pp;
	g.w0 = 1;
	return (f);
}
static int invc(const struct hfield *hf, struct header *h)
{
	if (h != &hdc) return (0);
	if (!g.w0) return (hdc.hfields.vtqh_first == NULL && hdc.hfields.vtqh_last == &hdc.hfields.vtqh_first && hf == hdm.hfields.vtqh_first);
	if (hf != NULL && !(nidx(hf) >= 0 && npos[nidx(hf)] == g.k + g.w1)) return (0);
	if (!g.w1) return (1);
	struct hfield **pp = g.k > 0 ? &nodes[5].list.vtqe_next : &hdc.hfields.vtqh_first;
	CHECK(*pp == F && F->list.vtqe_prev == pp && hdc.hfields.vtqh_last == &F->list.vtqe_next && F->list.vtqe_next == NULL, "a field is added at the end of the copy");
	CHECK(F->magic == HFIELD_MAGIC && rank(F) == rank(C) && val(F) == val(C) && F->name != C->name && F->val != C->val, "with a copy of name and value");
	return (1);
}
static void body(unsigned n, int has, unsigned ins)
{
	shape(n, has, ins);
	char *id = newtok(77, 1);
	hdm.warc_record_id = id;
	aam.id_size = 16;
	struct header *h = Header_Clone(&hdm);
	CHECK(h == &hdc && h->magic == HEADER_MAGIC && h->aa == &aam, "a header");
	CHECK(h->warc_record_id != id && tok(h->warc_record_id) >= 0 && trank[tok(h->warc_record_id)] == 77, "with a copy of the identifier");
	CHECK(hdm.warc_record_id == id && g.nfree == 0, "the original is left alone");
#ifndef VF_PROOF
	struct hfield *f = hdm.hfields.vtqh_first, *c = hdc.hfields.vtqh_first;
	for (unsigned i = 0; i < n; i++) {
		CHECK(c != NULL && rank(c) == rank(f) && val(c) == val(f) && c != f && c->name != f->name && c->val != f->val, "same fields in the same order");
		ASSUME(c != NULL);
		f = f->list.vtqe_next; c = c->list.vtqe_next;
	}
	CHECK(c == NULL, "and no others");
#endif
}
void harness(void) { SHAPES(body); COVER("end"); }
#elif defined(H_NUM)
const char *Header_Get(const struct header *h, const char *n) { CHECK(h == &hdm && n == tk[0], "the field asked for"); return (g.has ? numb : NULL); }
/* any point of the conversion: the number so far, and what follows */
static const char *vf_num(void) { numb[0] = ND8(); numb[1] = ND8(); g.w0 = 1; g.k = vf_range(0, INT64_MAX / 10 - 1); return (numb); }
static int invnum(const char *p, int64_t r)
{
	if (!g.w0) return (p == numb && r == 0);
	if (!g.w1) return (p == numb && r == (int64_t)g.k);
	return (p == numb + 1 && numb[0] >= '0' && numb[0] <= '9' && r == (int64_t)g.k * 10 + (numb[0] - '0'));
}
void harness(void)
{
	hdm.magic = HEADER_MAGIC;
	g.has = NDB();
#ifdef VF_PROOF
	numb[0] = ND8();
#else
	unsigned l = vf_range(0, 3);
	int64_t v = 0; int bad = 0;
	for (unsigned i = 0; i < 3; i++) {
		numb[i] = i < l ? ND8() : 0;
		if (i >= l) continue;
		ASSUME(numb[i] != 0);
		if (numb[i] < '0' || numb[i] > '9') bad = 1;
		v = v * 10 + (numb[i] - '0');
	}
#endif
	intmax_t r = Header_Get_Number(&hdm, tk[0]);
#ifdef VF_PROOF
	if (!g.has) CHECK(r == -1, "no number");
	else if (numb[0] == 0) CHECK(r == (int64_t)g.k, "the number written there");
	else CHECK(r == -1 && (numb[0] < '0' || numb[0] > '9'), "something which is no number");
#else
	if (!g.has || bad) CHECK(r == -1, "no number");
	else CHECK(r == v, "the number written there");
#endif
	COVER("end");
}
#elif defined(H_ID)
void harness(void)
{
	static char in[70];
	hdm.magic = HEADER_MAGIC;
	hdm.aa = &aam;
	aam.id_size = vf_range(16, 64);
	unsigned l = vf_range(aam.id_size, 64);
	for (unsigned i = 0; i < 64; i++) { in[i] = i < l ? "0123456789abcdef"[ND8() & 15] : 0; }
	hdm.warc_record_id = NULL;
	Header_Set_Id(&hdm, in);
	unsigned k = vf_range(0, 63);
	const char *p = Header_Get_Id(&hdm);
	CHECK(p != in, "a copy");
	CHECK(p[aam.id_size] == 0, "of the configured length");
	if (k < aam.id_size) CHECK(p[k] == in[k], "of the identifier");
	COVER("end");
}
#elif defined(H_PARSE) && defined(VF_PROOF)
/* one line of the text: kind 0 the identifier, 1 a field, 2 the empty line */
static char text0[32];
static char *line;
static uint64_t l_nl, l_vl, l_pl, l_il, l_len;
static int l_kind, l_ver, l_seen, l_id;
static char idtok[4];
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	CHECK(h == &hdm && f[0] == '%' && f[1] == 's' && f[2] == 0, "the value is set as it is");
	const char *v = va_arg(ap, const char *);
	va_end(ap);
	CHECK(l_kind == 1 && !l_seen, "one field per line");
	CHECK(n == line && line[l_nl] == 0, "the name of the field");
	CHECK(v == line + l_nl + 2 && line[l_nl + 2 + l_vl] == 0, "the value of the field");
	l_seen = 1;
}
static char *vf_line(void)
{
	l_kind = (int)vf_range(0, 2);
	l_nl = l_kind == 0 ? 14 : vf_range(1, 1 << 20);
	l_vl = vf_range(0, 1 << 20);
	l_pl = vf_range(1, 1 << 20);
	l_il = vf_range(1, 64);
	if (l_kind == 0) l_vl = 1 + l_pl + l_il + 1;
	l_len = l_kind == 2 ? 0 : l_nl + 2 + l_vl;
	line = malloc(l_len + 3);
	ASSUME(line != NULL);
	ASSUME(line[l_len] == '\r' && line[l_len + 1] == '\n');
	if (l_kind == 2) ASSUME(line[2] == 0);
	else {
		ASSUME(line[l_nl] == ':' && line[l_nl + 1] == ' ' && line[0] != 0 && line[0] != '\r' && line[l_len + 2] != 0);
		if (l_kind == 0) ASSUME(line[16] == '<' && line[17 + l_pl - 1] == '/' && line[17 + l_pl + l_il] == '>');
	}
	l_seen = 0;
	g.w0 = 1;
	return (line);
}
static int invline(const struct header *h, const char *p)
{
	if (h != &hdm || hdm.magic != HEADER_MAGIC || hdm.aa != &aam) return (0);
	if (!g.w0) return (p == text0 + 10);
	if (!g.w1) return (p == line);
	if (l_kind == 0) CHECK(l_id, "the identifier is set");
	if (l_kind == 1) CHECK(l_seen, "the field is set");
	return (l_kind != 2 && p == line + l_len + 2);
}
static char *vf_pchr(const char *p, int c)
{
	if (c == '\n') { CHECK(p == text0, "first line"); return (text0 + 9); }
	if (c == '\r') { CHECK(p == line, "end of the line"); return (line + l_len); }
	if (c == ':') { CHECK(p == line && l_kind != 2 && line[l_len] == 0, "end of the name"); return (line + l_nl); }
	CHECK(c == '>' && p == line + 17 && l_kind == 0 && line[l_len] == 0, "end of the identifier");
	return (line + 17 + l_pl + l_il);
}
static char *vf_prchr(const char *p, int c)
{
	CHECK(c == '/' && p == line + 17 && l_kind == 0 && line[17 + l_pl + l_il] == 0, "end of the prefix");
	return (line + 17 + l_pl - 1);
}
static int vf_pcmp(const char *p, const char *q)
{
	if (p == line) { CHECK(line[l_nl] == 0 && l_kind != 2, "the name"); return (l_kind != 0); }
	CHECK(p == line + 17 && q == t_prefix && l_kind == 0 && line[17 + l_pl] == 0, "the prefix");
	return (0);
}
static int vf_pmemcmp(const char *p, const char *q, size_t n) { CHECK(p == text0 && n == 27, "version and identifier first"); return (q[7] != (l_ver ? '1' : '0')); }
static char *vf_pdup(const char *p)
{
	CHECK(l_kind == 0 && p == line + 17 + l_pl && line[17 + l_pl + l_il] == 0, "the identifier without the prefix");
	l_id = 1;
	return (idtok);
}
void harness(void)
{
	struct header *h;
	aam.magic = AARDWARC_MAGIC;
	aam.prefix = t_prefix;
	l_ver = NDB();
	text0[9] = '\n';
	text0[10] = 'W';
	h = Header_Parse(&aam, text0);
	CHECK(h == &hdm, "a header");
	CHECK(l_kind == 2, "all lines were taken");
	COVER("end");
}
#elif defined(H_PARSE)
static char text[96], copy[96];
static unsigned nf, f_n[2], f_nl[2], f_v[2], f_vl[2];
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	CHECK(h == &hdm && f[0] == '%' && f[1] == 's' && f[2] == 0, "the value is set as it is");
	const char *v = va_arg(ap, const char *);
	va_end(ap);
	CHECK(g.k < nf, "no more fields than there are");
	ASSUME(g.k < nf);
	for (unsigned i = 0; i < f_nl[g.k]; i++) CHECK(n[i] == copy[f_n[g.k] + i], "the name of the field");
	CHECK(n[f_nl[g.k]] == 0, "all of the name");
	for (unsigned i = 0; i < f_vl[g.k]; i++) CHECK(v[i] == copy[f_v[g.k] + i], "the value of the field");
	CHECK(v[f_vl[g.k]] == 0, "all of the value");
	g.k++;
}
static unsigned put(unsigned o, const char *s) { while (*s) { text[o] = copy[o] = *s++; o++; } return (o); }
static unsigned any(unsigned o, unsigned n, const char *not)
{
	while (n-- > 0) {
		char c = "x :</>;\n"[n % 8];
		if (*not == ':' && c == ':') c = 'a';
		if (*not == '/' && (c == '/' || c == '>')) c = 'b';
		text[o] = copy[o] = c;
		o++;
	}
	return (o);
}
static void parse(unsigned ver, unsigned n, unsigned nl, unsigned vl0, unsigned vl1)
{
	unsigned o = put(0, ver ? "WARC/1.1\r\n" : "WARC/1.0\r\n"), id;
	aam.magic = AARDWARC_MAGIC;
	aam.prefix = "p:/q/";
	nf = n;
	o = put(o, "WARC-Record-ID: <p:/q/");
	id = o;
	o = any(o, 2, "/>");
	o = put(o, ">\r\n");
	for (unsigned i = 0; i < n; i++) {
		f_n[i] = o; f_nl[i] = nl;
		o = any(o, nl, ":");
		o = put(o, ": ");
		f_v[i] = o; f_vl[i] = i ? vl1 : vl0;
		o = any(o, f_vl[i], "");
		o = put(o, "\r\n");
	}
	o = put(o, "\r\n");
	text[o] = 0;
	struct header *h = Header_Parse(&aam, text);
	CHECK(h == &hdm && h->magic == HEADER_MAGIC && h->aa == &aam, "a header");
	CHECK(h->warc_record_id[0] == copy[id] && h->warc_record_id[1] == copy[id + 1] && h->warc_record_id[2] == 0, "with the identifier without the prefix");
	CHECK(g.k == nf, "all fields are set");
}
void harness(void)
{
	unsigned s = vf_range(0, 4);
	if (s == 0) parse(0, 0, 1, 0, 0);
	else if (s == 1) parse(1, 1, 1, 3, 0);
	else if (s == 2) parse(1, 1, 2, 0, 0);
	else if (s == 3) parse(1, 2, 1, 2, 2);
	else parse(0, 2, 2, 1, 3);
	COVER("end");
}
#elif defined(H_REF)
static char ref[70];
static char t_pfx[8] = "p/";
/* what comes next of "<", the prefix, the identifier and ">" */
static int nx;
static unsigned t_r;
#ifdef VF_PROOF
static size_t t_len;	/* of the text which begins with the identifier */
static size_t vf_strlen(const char *s) { CHECK(s == ref, "length of the reference"); return (t_len); }
#endif
static void piece(const char *s, int prec)
{
#ifdef VF_PROOF
	if (nx == 1 && s == t_pfx && prec < 0) { nx = 2; return; }
	if (nx == 2 && s == ref && prec >= 0 && (unsigned)prec == aam.id_size) { nx = 3; return; }
#endif
	for (int i = 0; i < 64; i++) {
		if ((prec >= 0 && i >= prec) || s[i] == 0) break;
		if (nx == 1 && t_pfx[t_r] == 0) { nx = 2; t_r = 0; }
		if (nx == 2 && t_r == aam.id_size) nx = 3;
		char want = nx == 0 ? '<' : nx == 1 ? t_pfx[t_r] : nx == 2 ? ref[t_r] : '>';
		CHECK(nx < 4 && s[i] == want, "the identifier with the prefix in angle brackets");
		if (nx == 0 || nx == 3) nx++; else t_r++;
	}
}
void Header_Set(struct header *h, const char *n, const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	CHECK(h == &hdm && n == tk[0], "the field asked for");
	for (; *f; f++) {
		char lit[2] = { *f, 0 };
		if (*f != '%') { piece(lit, -1); continue; }
		f++;
		int prec = -1;
		if (*f == '.') { CHECK(f[1] == '*', "precision"); prec = va_arg(ap, int); f += 2; }
		CHECK(*f == 's', "conversion");
		piece(va_arg(ap, const char *), prec);
	}
	va_end(ap);
	CHECK(nx == 4, "the whole identifier with the prefix in angle brackets");
	g.k++;
}
static void one(unsigned n)
{
	aam.id_size = n;
	Header_Set_Ref(&hdm, tk[0], ref);
}
void harness(void)
{
	hdm.magic = HEADER_MAGIC;
	hdm.aa = &aam;
	aam.prefix = t_pfx;
#ifdef VF_PROOF
	unsigned n = vf_range(16, 64);
	t_len = vf_range(n, 1ULL << 60);
	one(n);
#else
	for (int i = 0; i < 64; i++) { ref[i] = ND8(); ASSUME(ref[i] != 0); }
	unsigned s = vf_range(0, 3);
	if (s == 0) one(16); else if (s == 1) one(17); else if (s == 2) one(63); else one(64);
#endif
	CHECK(g.k == 1, "set");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
