/* Contracts of main_filter.c: which of the given identifiers are stored */
#include "vf.h"
#include <getopt.h>
static struct { int n, lo, hi, pos[4], kept, chk[4], j, pass[4], done[4]; const char *last; } g;
static int t_s, t_n;
static int vf_slen(const char *s) { int n = 0; while (n < 8 && s[n]) n++; return (n); }
struct cand; struct filt; struct aardwarc;
static struct cand *vf_nc(void), *vf_c(void), *vf_nc2(void);
static int inv1(void), inv2(struct cand *);
static size_t vf_strlcpy(char *d, const char *s, size_t n) { CHECK(n >= 4, "fits"); for (int i = 0; i < 4; i++) { d[i] = s[i]; if (!s[i]) break; } return (0); }
#define strlcpy vf_strlcpy
#ifdef H_ITER
static int filter_s_check(const struct filt *fp, uint32_t silo, int64_t offset, const char *key);
#endif
#ifdef H_READ
static void *vf_calloc(size_t n, size_t l);
static char *vf_strdup(const char *s);
static char *vf_fgets(char *b, int n, FILE *f);
static void vf_exit(int c);
static int vf_fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return (0); }
static int vf_tolower(int c) { return (c >= 'A' && c <= 'Z' ? c + 32 : c); }
static int invread(int rv);
static size_t vf_strspn(const char *s, const char *a) { size_t n = 0; CHECK(a[0] == '0' && a[9] == '9' && a[15] == 'f' && (!a[16] || a[21] == 'F'), "harness: hex digits"); while (n < 8 && ((s[n] >= '0' && s[n] <= '9') || (s[n] >= 'a' && s[n] <= 'f') || (a[16] && s[n] >= 'A' && s[n] <= 'F'))) n++; return (n); }
#define strspn vf_strspn
#undef tolower
#define tolower vf_tolower
#undef strdup
#define strdup vf_strdup
#define calloc vf_calloc
#define free(p) (void)(p)
#define fgets vf_fgets
#define exit vf_exit
#define fprintf vf_fprintf
#endif
#ifdef H_MAIN
#include <stdarg.h>
static int read_file(const struct aardwarc *aa, FILE *fi);
#undef strdup
#define strdup(s) ((char *)(uintptr_t)(s))
static int vf_getopt(int c, char *const *v, const char *o);
static int filter_iter(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t offset, const char *cont);
static void vf_exit(int c);
static FILE *vf_fopen(const char *n, const char *m);
static int vf_fclose(FILE *f);
static int vf_fprintf(FILE *f, const char *s, ...);
static void *vf_calloc(size_t n, size_t l);
static void vf_qsort(void *b, size_t n, size_t l, int (*cmp)(const void *, const void *));
static int t_argc;
static char *vf_optarg;
#undef optind
#define optind 1
#define optarg vf_optarg
#define getopt vf_getopt
#define exit vf_exit
#define fopen vf_fopen
#define fclose vf_fclose
#define fprintf vf_fprintf
#define calloc vf_calloc
#define qsort vf_qsort
#define free(p) (void)(p)
#ifdef VF_PROOF
static struct {
	int r, s, v, of;			/* options */
	int in, std, sort, n;			/* files read */
	int st;					/* what has been done */
	int k;					/* elements done */
	int prt;
} m;
static struct cand *vf_col(struct cand **cp), *vf_rep(void), **vf_ins(struct cand **cp);
static char **vf_argv(void);
static int vf_argc(void), vf_left(void);
static int invopt(int, int, const char *), invarg(int, char **, int, int), invcol(const struct cand *, struct cand **, int), invins(struct cand **, int), invrep(const struct cand *), invfl(int, int);
#endif
#endif
#undef VDEF_H_INCLUDED
#include SRC_main_filter
static struct aardwarc aam;
static struct filt fm;
static uint32_t t_silo; static int64_t t_off;
static struct cand W[4];
static char idm[4][4], keym[4];
#ifdef H_READ
static char rsm_[4];
#endif
#if defined(H_ITER)
static int cls(const char *id) { int r = strncmp(id, keym, 2); return (r < 0 ? 0 : r > 0 ? 2 : 1); }
static void mkid(int w)
{
	for (int i = 0; i < 3; i++) { idm[w][i] = ND8(); ASSUME((idm[w][i] >= '8' && idm[w][i] <= '9') || idm[w][i] == 'a'); }
	idm[w][3] = 0;
	if (aam.id_size == 2) idm[w][2] = 0;
	W[w].magic = CAND_MAGIC; W[w].id = idm[w]; W[w].found = 0;
}
static int which(const struct cand *c) { for (int w = 0; w < 4; w++) if (c == &W[w]) return (w); return (-1); }
static int filter_s_check(const struct filt *fp, uint32_t silo, int64_t offset, const char *key)
{
	CHECK(fp == &fm && silo == t_silo && offset == t_off, "looks at the record the index names");
	for (int w = 0; w < 4; w++) if (key == idm[w]) {
		CHECK(cls(key) == 1, "only candidates with the key of the record are looked at");
		g.chk[w]++;
		return (g.pass[w] ? 0 : 1);
	}
	CHECK(0, "a candidate");
	return (1);
}
#ifdef VF_PROOF
/* An arbitrary element of the sorted list of n, its successor and predecessor */
static void mkpos(int w, int p)
{
	mkid(w);
	g.pos[w] = p;
	ASSUME(cls(idm[w]) == (p < g.lo ? 0 : p < g.hi ? 1 : 2));
	g.pass[w] = NDB();
}
static int posof(const struct cand *c) { int w = which(c); CHECK(c == NULL || w >= 0, "an element of the list"); return (c == NULL ? g.n : g.pos[w]); }
static struct cand *vf_nc(void)
{
	int p = vf_range(0, g.lo);
	if (p == g.n) return (NULL);
	mkpos(2, p);
	W[2].sortlist.vtqe_next = NULL;
	if (p + 1 < g.n) { mkpos(3, p + 1); W[2].sortlist.vtqe_next = &W[3]; }
	return (&W[2]);
}
static int inv1(void) { return (posof(next_cand) <= g.lo); }
/* W[1]: the element before c, if any; W[0]: the first one which was kept; W[2]: c; W[3]: after c */
static struct cand *vf_c(void)
{
	g.j = vf_range(g.lo, g.hi);
	g.kept = vf_range(0, g.j - g.lo);
	W[0].sortlist.vtqe_next = W[1].sortlist.vtqe_next = W[2].sortlist.vtqe_next = W[3].sortlist.vtqe_next = NULL;
	VTAILQ_INIT(&sorted);
	if (g.kept > 1) { mkpos(0, vf_range(g.lo, g.j)); ASSUME(g.pos[0] < g.j); VTAILQ_INSERT_TAIL(&sorted, &W[0], sortlist); }
	if (g.kept || g.lo > 0) {
		mkpos(1, g.kept ? vf_range(g.lo, g.j) : g.lo - 1); ASSUME(g.pos[1] < g.j && (g.kept < 2 || g.pos[0] < g.pos[1])); VTAILQ_INSERT_TAIL(&sorted, &W[1], sortlist);
	}
	g.done[2] = 0;
	g.chk[2] = 0;
	if (g.j == g.n) return (NULL);
	mkpos(2, g.j);
	VTAILQ_INSERT_TAIL(&sorted, &W[2], sortlist);
	if (g.j + 1 < g.n) { mkpos(3, g.j + 1); VTAILQ_INSERT_TAIL(&sorted, &W[3], sortlist); }
	g.done[2] = 1;
	return (&W[2]);
}
static struct cand *vf_nc2(void) { return (g.kept > 1 ? &W[0] : g.kept ? &W[1] : g.j == g.n ? NULL : &W[2]); }
static int inv2(struct cand *c)
{
	if (!g.done[2]) {	/* entry, or the havocked state */
		if (g.j == -1) return (posof(c) == g.lo && c == next_cand);
		return (1);
	}
	if (c == &W[2])
		return (next_cand == vf_nc2());
	/* after the step: c is the next one */
	int ok = g.j < g.hi && c == (g.j + 1 < g.n ? &W[3] : NULL);
	int want = !t_s || g.pass[2];
	struct cand *pv = g.kept || g.lo > 0 ? &W[1] : NULL;
	struct cand *nx = g.j + 1 < g.n ? &W[3] : NULL;
	ok = ok && W[2].found == want && (!t_s ? !g.chk[2] : g.chk[2] == 1);
	ok = ok && next_cand == (g.kept ? vf_nc2() : want ? nx : &W[2]);
	/* exactly this one is taken out */
	struct cand *after = want ? nx : &W[2];
	ok = ok && (pv ? pv->sortlist.vtqe_next : sorted.vtqh_first) == after && (after == NULL || after->sortlist.vtqe_prev == (pv ? &pv->sortlist.vtqe_next : &sorted.vtqh_first));
	ok = ok && (nx != NULL || sorted.vtqh_last == (!want ? &W[2].sortlist.vtqe_next : pv ? &pv->sortlist.vtqe_next : &sorted.vtqh_first));
	ok = ok && (pv == NULL || pv->found == 0) && (nx == NULL || nx->found == 0) && (g.kept < 2 || W[0].found == 0);
	return (ok);
}
#endif
void harness(void)
{
	aam.magic = AARDWARC_MAGIC; aam.id_size = NDB() ? 3 : 2;
	fm.magic = FILT_MAGIC; fm.aa = &aam;
	s_flag = t_s = NDB();
	t_silo = ND32(); t_off = ND64();
	for (int i = 0; i < 2; i++) {
		keym[i] = ND8(); ASSUME((keym[i] >= '8' && keym[i] <= '9') || keym[i] == 'a');
		if (NDB()) { fm.last[i] = ND8(); ASSUME((fm.last[i] >= '8' && fm.last[i] <= '9') || fm.last[i] == 'a'); }
	}
	ASSUME(fm.last[0] || !fm.last[1]); ASSUME(!fm.last[0] || fm.last[1]);
	VTAILQ_INIT(&sorted);
#ifdef VF_PROOF
	g.n = vf_range(0, 1 << 30);
	g.lo = vf_range(0, g.n);
	g.hi = vf_range(g.lo, g.n);
	if (g.n > 0) { mkpos(0, 0); VTAILQ_INSERT_TAIL(&sorted, &W[0], sortlist); }
	if (g.n > 0 && NDB()) {
		if (NDB()) next_cand = &W[0];
		else {
			/* everything before it is smaller than the last key */
			int p = vf_range(1, g.n - 1);
			mkpos(1, p);
			next_cand = &W[1];
			ASSUME(strcmp(keym, fm.last) < 0 || p <= g.lo);
		}
	}
	g.j = -1;
#else
	t_n = vf_range(0, 3);
	int p0 = vf_range(0, 4);
	for (int i = 0; i < 3; i++) if (i < t_n) {
		mkid(i);
		g.pass[i] = NDB();
		VTAILQ_INSERT_TAIL(&sorted, &W[i], sortlist);
		if (i) ASSUME(strcmp(idm[i - 1], idm[i]) <= 0);
		if (i == p0) next_cand = &W[i];
		if (i < p0 && p0 < t_n) ASSUME(strcmp(idm[i], fm.last) < 0);
	}
#endif
	int empty = VTAILQ_EMPTY(&sorted);
	int r = filter_iter(&fm, keym, ND32(), t_silo, t_off, NULL);
	CHECK(r == empty, "goes on while there is something to look for");
	if (!empty) {
		CHECK(!strcmp(fm.last, keym), "remembers where it is");
#ifdef VF_PROOF
		CHECK(g.j == g.hi, "every candidate with this key is looked at");
		CHECK(next_cand == vf_nc2(), "the next one is the first which is not smaller than this key");
#else
		struct cand *c = VTAILQ_FIRST(&sorted);
		int seen = 0;
		for (int i = 0; i < 3; i++) if (i < t_n) {
			int want = cls(idm[i]) == 1 && (!t_s || g.pass[i]);
			CHECK(W[i].found == want, "exactly the candidates with this key are found");
			if (next_cand == &W[i]) seen = 1;
			if (!want) {
				CHECK(c == &W[i], "the others remain, in order");
				CHECK(seen || next_cand == NULL || strcmp(idm[i], keym) < 0, "none which may be found later is passed");
				c = VTAILQ_NEXT(c, sortlist);
			} else
				CHECK(next_cand != &W[i], "what was found is gone");
		}
		CHECK(c == NULL, "the others remain");
#endif
	}
	COVER("end");
}
#elif defined(H_S)
struct header { int d; }; static struct header hm; static char rsm[4], hid[4]; static int st;
struct rsilo *Rsilo_Open(struct aardwarc *a, const char *fn, uint32_t silo, int64_t off)
{
	CHECK(a == &aam && fn == NULL && silo == t_silo && off == t_off && st == 0, "the record the index names");
	st = 1;
	return (NDB() ? NULL : (struct rsilo *)rsm);
}
struct header *Rsilo_ReadHeader(struct rsilo *r) { CHECK(r == (struct rsilo *)rsm && st == 1, "its header"); st = 2; return (NDB() ? NULL : &hm); }
const char *Header_Get_Id(const struct header *h) { CHECK(h == &hm && st >= 2, "its identifier"); return (hid); }
void Header_Destroy(struct header **h) { CHECK(*h == &hm && st == 2, "freed"); st |= 4; *h = NULL; }
void Rsilo_Close(struct rsilo **r) { CHECK(*r == (struct rsilo *)rsm && st >= 2 && !(st & 8), "closed"); st |= 8; *r = NULL; }
static char lc(char c) { return (c >= 'A' && c <= 'Z' ? c + 32 : c); }
void harness(void)
{
	aam.magic = AARDWARC_MAGIC; aam.id_size = 3;
	fm.magic = FILT_MAGIC; fm.aa = &aam;
	t_silo = ND32(); t_off = ND64();
	int same = 1;
	for (int i = 0; i < 3; i++) {
		hid[i] = ND8(); keym[i] = ND8();
		ASSUME((hid[i] >= '0' && hid[i] <= '9') || (lc(hid[i]) >= 'a' && lc(hid[i]) <= 'f'));
		ASSUME((keym[i] >= '0' && keym[i] <= '9') || (keym[i] >= 'a' && keym[i] <= 'f'));
		if (lc(hid[i]) != keym[i]) same = 0;
	}
	int r = filter_s_check(&fm, t_silo, t_off, keym);
	CHECK((r == 0) == same, "the record must have the identifier asked for, all of it");
	CHECK(st == 14, "all is freed");
	COVER("end");
}
#elif defined(H_READ)
/* g.n lines read; W[0] the last candidate before, W[1] the new one */
#define NL 6
static char line[NL + 2], lidm[4], t_lid[4]; static int t_len, t_nl, t_bad, t_off2, t_new, t_eof;
static struct cand *lastc; static int t_ret, t_n0;
static char lc(char c) { return (c >= 'A' && c <= 'Z' ? c + 32 : c); }
static int hex(char c) { return ((c >= '0' && c <= '9') || (lc(c) >= 'a' && lc(c) <= 'f')); }
static char okm[4][NL + 2]; static int nok;
static int t_calls;
static struct cand *vf_calloc1(void)
{
	CHECK(!t_new, "one candidate for a line");
	t_new = 1;
	g.j++;
	memset(&W[g.j & 3], 0, sizeof W[0]);
	return (&W[g.j & 3]);
}
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof(struct cand), "a candidate"); return (vf_calloc1()); }
static int t_sd;
static char *vf_strdup(const char *s)
{
	int w = g.j & 3;
	t_sd++;
	CHECK(t_sd <= 2 && t_new, "the line and the identifier");
	if (t_sd == 1) {
		int k = vf_slen(s);
		CHECK(k == t_len, "the whole line is kept");
		for (int i = 0; i < NL; i++) if (i < k) CHECK(s[i] == line[i], "as it was given");
		return (line);
	}
	for (int i = 0; i < 4; i++) { idm[w][i] = s[i]; if (!s[i]) break; }
	return (idm[w]);
}
static void vf_exit(int c)
{
	CHECK(c != 0 && t_bad, "only what is no identifier is refused");
	COVER("refused");
	ASSUME(0);
}
/* After a line: exactly one candidate more with the identifier of the line */
static void step(void)
{
	CHECK(!t_bad, "what is no identifier is refused");
	if (t_len > 0) {
		struct cand *c = &W[g.j & 3];
		CHECK(t_new && t_sd == 2, "a candidate");
		CHECK(c->magic == CAND_MAGIC && c->line == line && c->id == idm[g.j & 3] && !c->found, "with the line, not found yet");
		int w = g.j & 3;
		for (int i = 0; i < 3; i++) CHECK(idm[w][i] == lc(line[t_off2 + i]), "its identifier is that of the line, in lower case");
		CHECK(idm[w][3] == 0, "and nothing else");
		CHECK(VTAILQ_NEXT(c, list) == NULL && VTAILQ_NEXT(c, sortlist) == NULL, "at the end");
		CHECK(candidates.vtqh_last == &c->list.vtqe_next && sorted.vtqh_last == &c->sortlist.vtqe_next, "of both lists");
		CHECK(lastc ? lastc->list.vtqe_next == c && lastc->sortlist.vtqe_next == c : candidates.vtqh_first == c && sorted.vtqh_first == c, "after those before");
		if (lastc != NULL && strcmp(lastc->id, c->id) > 0) t_ret = 1;
		lastc = c;
		t_n0++;
	} else
		CHECK(!t_new, "empty lines are nothing");
}
static char *vf_fgets(char *b, int n, FILE *f)
{
	CHECK(f == (FILE *)rsm_ && n >= NL + 2 && !t_eof, "the file");
	if (t_calls) step();
	t_calls++;
#ifdef VF_PROOF
	if (NDB()) { t_eof = 1; t_calls = 0; return (NULL); }
#else
	if (t_calls > 2 || NDB()) { t_eof = 1; return (NULL); }
#endif
	t_new = t_sd = 0;
	t_nl = NDB();
	t_len = vf_range(0, NL);
	if (!t_nl) ASSUME(t_len > 0);
	for (int i = 0; i < NL; i++) if (i < t_len) {
		uint8_t c = ND8();
		ASSUME(c == 'p' || c == 'P' || c == ':' || c == '8' || c == 'a' || c == 'A' || c == 'g' || c == ' ');
		line[i] = b[i] = c;
	}
	line[t_len] = 0;
	b[t_len] = t_nl ? '\n' : 0;
	b[t_len + (t_nl ? 1 : 0)] = 0;
	t_off2 = t_len >= 2 && lc(line[0]) == 'p' && line[1] == ':' ? 2 : 0;
	t_bad = !t_nl || (t_len > 0 && (t_len - t_off2 < 3 || !hex(line[t_off2]) || !hex(line[t_off2 + 1]) || !hex(line[t_off2 + 2])));
	return (b);
}
#ifdef VF_PROOF
static int vf_rv(void)
{
	/* any number of candidates so far, W[0] the last one */
	VTAILQ_INIT(&candidates);
	VTAILQ_INIT(&sorted);
	lastc = NULL;
	g.j = 0;
	if (NDB()) {
		for (int i = 0; i < 3; i++) { idm[0][i] = ND8(); ASSUME(idm[0][i] == '8' || idm[0][i] == 'a'); }
		idm[0][3] = 0;
		W[0].magic = CAND_MAGIC; W[0].id = idm[0]; W[0].line = line;
		VTAILQ_INSERT_TAIL(&candidates, &W[0], list);
		VTAILQ_INSERT_TAIL(&sorted, &W[0], sortlist);
		lastc = &W[0];
	}
	t_calls = t_new = t_sd = 0;
	ncand = t_n0 = vf_range(0, 1 << 30);
	return (t_ret = NDB());
}
static int invread(int rv)
{
	if (t_calls) { step(); t_calls = 0; }
	return (ncand == t_n0 && rv == t_ret);
}
#endif
void harness(void)
{
	static char pfx[4] = "p:";
	aam.magic = AARDWARC_MAGIC; aam.id_size = 3; aam.prefix = pfx;
	VTAILQ_INIT(&candidates);
	VTAILQ_INIT(&sorted);
#ifndef VF_PROOF
	if (NDB()) {	/* from the file before */
		static char one[4] = "88a";
		W[0].magic = CAND_MAGIC; W[0].id = one; W[0].line = line;
		VTAILQ_INSERT_TAIL(&candidates, &W[0], list);
		VTAILQ_INSERT_TAIL(&sorted, &W[0], sortlist);
		lastc = &W[0];
	}
#endif
	int r = read_file(&aam, (FILE *)rsm_);
	CHECK(t_eof, "the whole file is read");
	CHECK(r == t_ret && ncand == t_n0, "the caller learns whether they are in order");
	COVER("end");
}
#elif defined(H_MAIN) && defined(VF_PROOF)
/*
 * N candidates, of which X, the one at an arbitrary place t_i of the list and
 * t_j when they have been sorted, stands for all.  W[2] and W[3] are the one a
 * loop is at, and the next one; W[1] the one before it.
 */
static int t_i, t_j, t_x;
static char **t_argv;
static FILE *t_fo;
static char fim[4], fom[4];
static struct cand X, **t_cp;
static struct cand *slot(int i, int at, int w) { return (i == at ? &X : &W[w]); }
static int vf_argc(void) { return (t_argc == 1 ? 0 : t_argc - 1 - m.in); }
static char f1[] = "f1", f2[] = "-";
static int dash(void) { return (m.in < t_argc - 1 && !strcmp(t_argv[1 + m.in], "-")); }
static char **vf_argv(void) { ASSUME(m.in >= 0 && m.in < t_argc + (t_argc == 1)); if (m.in < t_argc - 1) t_argv[1 + m.in] = NDB() ? f1 : f2; return (t_argc == 1 ? t_argv + 1 : t_argv + 1 + m.in); }
static int vf_left(void) { return (m.n - m.k); }
static int vf_getopt(int c, char *const *v, const char *o)
{
	CHECK(c == t_argc && v == t_argv && !strcmp(o, "ho:rsv"), "the options");
	switch (vf_range(0, 5)) {
	case 0: m.r = !m.r; return ('r');
	case 1: m.s = !m.s; return ('s');
	case 2: m.v = !m.v; return ('v');
	case 3: vf_optarg = (char *)(uintptr_t)"out"; m.of = 1; return ('o');
	case 4: return (t_x = '?');
	default: return (-1);
	}
}
static int invfl(int r, int v) { return ((m.r == 0 || m.r == 1) && (m.s == 0 || m.s == 1) && (m.v == 0 || m.v == 1) && r == m.r && s_flag == m.s && v == m.v); }
static int invopt(int r, int v, const char *of) { return (invfl(r, v) && (m.of ? of != NULL && of == vf_optarg : of == NULL) && !t_x && m.in == 0 && m.n == 0 && m.st == 0 && m.sort == 0 && m.std == 0); }
void usage(const char *a, const char *b) { (void)a; (void)b; }
static void vf_exit(int c) { CHECK(c != 0 && (t_x || (dash() && m.std)), "gives up only if something is wrong"); COVER("exit"); ASSUME(0); }
static FILE *vf_fopen(const char *n, const char *md)
{
	if (NDB()) { t_x = 1; return (NULL); }
	if (*md == 'w') { CHECK(m.of && n == vf_optarg, "the output file"); return (t_fo = (FILE *)fom); }
	CHECK(n == t_argv[1 + m.in] && strcmp(n, "-"), "the files named, in order");
	return ((FILE *)fim);
}
static int vf_fclose(FILE *f) { CHECK(f == (FILE *)fim, "the file"); return (0); }
static int read_file(const struct aardwarc *aa, FILE *fi)
{
	CHECK(aa == &aam, "the archive");
	if (t_argc == 1) CHECK(fi == stdin && m.in == 0, "standard input if no file is named");
	else {
		CHECK(m.in < t_argc - 1 && (dash() ? fi == stdin : fi == (FILE *)fim), "the files named, in order");
		if (dash()) { CHECK(!m.std, "standard input once"); m.std = 1; }
	}
	m.in++;
	m.n += vf_range(0, 1 << 20);
	ASSUME(m.n < 1 << 30);
	ncand = m.n;
	int r = NDB();
	m.sort |= r;
	return (r);
}
static int invarg(int argc, char **argv, int sd, int ns)
{
	return (m.in >= 0 && (t_argc == 1 ? m.in == 1 && argc == 0 && argv == t_argv + 1 : m.in < t_argc && argv == t_argv + 1 + m.in && argc == t_argc - 1 - m.in) && (sd == 0 || sd == 1) && sd == m.std && (ns == 0 || ns == 1) && ns == m.sort && m.n >= 0 && m.n < 1 << 30 && ncand == m.n && m.st == 0);
}
static void list(int k, int at, int all)
{
	memset(W, 0, sizeof W);
	VTAILQ_INIT(&candidates);
	if (all && k > 0) VTAILQ_INSERT_TAIL(&candidates, slot(0, at, 0), list);	/* the first one */
	if (k < m.n) VTAILQ_INSERT_TAIL(&candidates, slot(k, at, 2), list);
	if (k + 1 < m.n) VTAILQ_INSERT_TAIL(&candidates, slot(k + 1, at, 3), list);
}
static void *vf_calloc(size_t n, size_t l)
{
	if (m.in == 0) { memset(&fm, 0, sizeof fm); CHECK(n == 1 && l == sizeof fm, "state"); return (&fm); }
	CHECK(m.sort && n == (size_t)m.n && l == sizeof(struct cand *) && m.st == 0, "room for all candidates");
	t_cp = malloc(n * l);
	m.st = 1;
	m.k = 0;
	list(0, t_i, 0);
	return (t_cp);
}
static struct cand *vf_col(struct cand **cp)
{
	ASSUME(m.k >= 0 && m.k <= m.n);
	list(m.k, t_i, 1);
	if (m.k > t_i) cp[t_i] = &X;
	m.prt = m.k;
	return (m.k < m.n ? slot(m.k, t_i, 2) : NULL);
}
static int invcol(const struct cand *c, struct cand **cp, int ch)
{
	int d = ch - m.prt;		/* steps done from where the window is */
	if (m.st == 1) { m.st = 2; m.prt = 0; return (ch == 0 && cp == t_cp && c == candidates.vtqh_first); }
	return (m.st == 2 && cp == t_cp && ch >= 0 && ch <= m.n && d >= 0 && d <= 1 && c == (ch < m.n ? slot(ch, t_i, 2 + d) : NULL) && (ch <= t_i || t_i >= m.n || cp[t_i] == &X));
}
static void vf_qsort(void *b, size_t n, size_t l, int (*cmp)(const void *, const void *))
{
	CHECK(m.st == 2 && m.k == m.n && b == t_cp && n == (size_t)m.n && l == sizeof *t_cp && (t_i >= m.n || t_cp[t_i] == &X), "all candidates are sorted, each once");
	static char ida[4], idb[4];
	static struct cand a = { .magic = CAND_MAGIC, .id = ida }, c = { .magic = CAND_MAGIC, .id = idb };
	struct cand *pa = &a, *pc = &c;
	for (int i = 0; i < 3; i++) { ida[i] = ND8(); idb[i] = ND8(); }
	int r = cmp(&pa, &pc), w = strcmp(ida, idb);
	CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "by their identifiers");
	m.st = 3;
	m.k = 0;
	/* any order */
	if (t_i < m.n) { t_cp[t_i] = &W[0]; t_cp[t_j] = &X; }
}
/* the last one in the list is at k - 1, the next one to be inserted at k */
static struct cand **vf_ins(struct cand **cp)
{
	ASSUME(m.k >= 0 && m.k <= m.n);
	memset(W, 0, sizeof W);
	VTAILQ_INIT(&sorted);
	if (m.k > 0) VTAILQ_INSERT_TAIL(&sorted, slot(m.k - 1, t_j, 1), sortlist);
	if (m.k < m.n) cp[m.k] = slot(m.k, t_j, 2);
	if (t_j < m.n) cp[t_j] = &X;
	m.prt = m.k;
	m.st = 4;
	return (cp);
}
static int invins(struct cand **cp, int ch)
{
	if (m.st == 3) { m.st = 4; m.prt = 0; return (ch == 0 && cp == t_cp && sorted.vtqh_first == NULL && sorted.vtqh_last == &sorted.vtqh_first); }
	int d = ch - m.prt;
	if (m.st != 4 || cp != t_cp || ch < 0 || ch > m.n || d < 0 || d > 1) return (0);
	struct cand *pv = m.prt > 0 ? slot(m.prt - 1, t_j, 1) : NULL, *el = slot(m.prt, t_j, 2);
	if (d == 0) return (pv == NULL || sorted.vtqh_last == &pv->sortlist.vtqe_next);
	return ((pv != NULL ? pv->sortlist.vtqe_next : sorted.vtqh_first) == el && el->sortlist.vtqe_next == NULL && el->sortlist.vtqe_prev == (pv != NULL ? &pv->sortlist.vtqe_next : &sorted.vtqh_first) && sorted.vtqh_last == &el->sortlist.vtqe_next);
}
static int filter_iter(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t offset, const char *cont) { (void)priv; (void)key; (void)flag; (void)silo; (void)offset; (void)cont; return (0); }
int IDX_Iter(const struct aardwarc *aa, const char *key, idx_iter_f *f, void *p)
{
	CHECK(aa == &aam && key == NULL && f == filter_iter && p == &fm && fm.magic == FILT_MAGIC && fm.aa == &aam && m.st < 5, "the whole index is looked through once");
	CHECK(s_flag == m.s, "looking at the silos as asked");
	CHECK(t_argc == 1 ? m.in == 1 : m.in == t_argc - 1, "after all files were read");
	CHECK(m.sort ? m.st == 4 && m.k == m.n : m.st == 0 && sorted.vtqh_first == &W[0] && sorted.vtqh_last == &W[0].sortlist.vtqe_next, "the candidates are sorted and complete");
	if (m.sort) COVER("sorted"); else COVER("in order");
	m.st = 5;
	m.k = 0;
	list(0, t_i, 0);
	return (NDB());
}
static struct cand *vf_rep(void)
{
	ASSUME(m.k >= 0 && m.k <= m.n);
	list(m.k, t_i, 0);
	static char li[4], id[4];
	struct cand *c = candidates.vtqh_first;
	if (c != NULL) { c->magic = CAND_MAGIC; c->id = id; c->line = li; g.pass[0] = c->found = NDB(); g.last = li; }
	m.st = 6;
	m.prt = 0;
	return (NULL);
}
static int invrep(const struct cand *c)
{
	(void)c;
	if (m.st == 5) return (m.k == 0 && candidates.vtqh_first == (m.n > 0 ? slot(0, t_i, 2) : NULL));
	if (m.st == 6) { m.st = 7; return (1); }
	/* after one step */
	CHECK(m.prt == (m.v || g.pass[0] == m.r), "all that was asked for is reported, and nothing else");
	m.k++;
	return (m.st == 7 && m.k <= m.n && candidates.vtqh_first == (m.k < m.n ? slot(m.k, t_i, 3) : NULL));
}
static int vf_fprintf(FILE *f, const char *s, ...)
{
	va_list ap;
	if (m.st < 5) return (0);
	CHECK(f == t_fo, "to the output");
	CHECK(!m.prt, "each line once");
	va_start(ap, s);
	if (m.v) {
		CHECK(!strcmp(s, "%d %s\n"), "state and line");
		CHECK(va_arg(ap, int) == g.pass[0], "whether it is there");
	} else
		CHECK(!strcmp(s, "%s\n"), "the line");
	CHECK(va_arg(ap, const char *) == g.last, "exactly the lines asked for, in the order given");
	va_end(ap);
	m.prt = 1;
	return (1);
}
void harness(void)
{
	aam.magic = AARDWARC_MAGIC; aam.id_size = 16;
	t_fo = stdout;
	t_i = vf_range(0, 1 << 30); t_j = vf_range(0, 1 << 30);
	VTAILQ_INIT(&candidates);
	VTAILQ_INIT(&sorted);
	/* whatever is in the list which read_file() made */
	sorted.vtqh_first = &W[0]; sorted.vtqh_last = &W[0].sortlist.vtqe_next;
	t_argc = vf_range(1, 1 << 24);
	t_argv = malloc((t_argc + 1) * sizeof *t_argv);
	if (t_argc > 1) t_argv[1] = NDB() ? f1 : f2;
	int r = main_filter("aardwarc", &aam, t_argc, t_argv);
	CHECK(r == 0, "succeeds");
	CHECK(m.st == 7 && m.k == m.n, "all candidates are reported");
	COVER("end");
}
#elif defined(H_MAIN)
static int nopt, t_opt[3], t_cnt[3], t_in, t_files, t_sorted, t_iter, t_of, out, t_x;
static char *t_argv[5] = { "filter", NULL, NULL, NULL, NULL }; static char lines[4][4]; static struct cand *pm[4];
static FILE *t_fo;
static char fim[4], fom[4];
static int vf_getopt(int c, char *const *v, const char *o)
{
	CHECK(c == t_argc && v == t_argv && !strcmp(o, "ho:rsv"), "the options");
	if (nopt >= 2 || NDB()) return (-1);
	nopt++;
	unsigned k = vf_range(0, 4);
	if (k == 4) return (t_x = '?');
	if (k == 3) { vf_optarg = (char *)(uintptr_t)"out"; t_of = 1; return ('o'); }
	t_cnt[k] = !t_cnt[k];
	return (k == 0 ? 'r' : k == 1 ? 's' : 'v');
}
void usage(const char *a, const char *b) { (void)a; (void)b; }
static void vf_exit(int c) { CHECK(c != 0 && t_x, "gives up only if something is wrong"); COVER("exit"); ASSUME(0); }
static FILE *vf_fopen(const char *n, const char *m)
{
	if (NDB()) { t_x = 1; return (NULL); }
	if (*m == 'w') { CHECK(t_of && !strcmp(n, "out"), "the output file"); return (t_fo = (FILE *)fom); }
	CHECK(n == t_argv[1 + t_in] && strcmp(n, "-"), "the files named, in order");
	return ((FILE *)fim);
}
static int vf_fclose(FILE *f) { CHECK(f == (FILE *)fim, "the file"); return (0); }
static int read_file(const struct aardwarc *aa, FILE *fi)
{
	CHECK(aa == &aam, "the archive");
	if (t_argc == 1) CHECK(fi == stdin && t_in == 0, "standard input if no file is named");
	else CHECK(t_in < t_argc - 1 && (!strcmp(t_argv[1 + t_in], "-") ? fi == stdin : fi == (FILE *)fim), "the files named, in order");
	t_in++;
	int r = 0;
	for (int i = 0; i < 2; i++) if (g.n < 2 && i + t_argc < 3) {
		int w = g.n++;
		W[w].magic = CAND_MAGIC; W[w].id = idm[w]; W[w].line = lines[w];
		idm[w][0] = ND8(); ASSUME(idm[w][0] >= '8' && idm[w][0] <= '9');
		if (w > 0 && strcmp(idm[w - 1], idm[w]) > 0) r = 1;
		VTAILQ_INSERT_TAIL(&candidates, &W[w], list);
		VTAILQ_INSERT_TAIL(&sorted, &W[w], sortlist);
		ncand++;
	}
	return (r);
}
static void *vf_calloc(size_t n, size_t l) { if (n == 1) { memset(&fm, 0, sizeof fm); CHECK(l == sizeof fm, "state"); return (&fm); } CHECK(n == (size_t)g.n && l == sizeof(struct cand *), "room for all"); return (pm); }
static void vf_qsort(void *b, size_t n, size_t l, int (*cmp)(const void *, const void *))
{
	struct cand *t;
	CHECK(b == pm && n == (size_t)g.n && l == sizeof pm[0], "all of them");
	for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) if (i + 1 < g.n && cmp(&pm[i], &pm[i + 1]) > 0) { t = pm[i]; pm[i] = pm[i + 1]; pm[i + 1] = t; }
}
static int filter_iter(void *priv, const char *key, uint32_t flag, uint32_t silo, int64_t offset, const char *cont) { (void)priv; (void)key; (void)flag; (void)silo; (void)offset; (void)cont; return (0); }
int IDX_Iter(const struct aardwarc *aa, const char *key, idx_iter_f *f, void *p)
{
	CHECK(aa == &aam && key == NULL && f == filter_iter && p == &fm && fm.magic == FILT_MAGIC && fm.aa == &aam && !t_iter, "the whole index is looked through once");
	CHECK(s_flag == t_cnt[1], "looking at the silos as asked");
	t_iter = 1;
	CHECK(t_argc == 1 ? t_in == 1 : t_in == t_argc - 1, "after all files were read");
	struct cand *c = VTAILQ_FIRST(&sorted), *pv = NULL; int seen = 0;
	for (int i = 0; i < 4; i++) if (c != NULL) {
		CHECK(pv == NULL || strcmp(pv->id, c->id) <= 0, "the candidates are sorted");
		for (int w = 0; w < 3; w++) if (c == &W[w]) seen |= 1 << w;
		pv = c;
		c = VTAILQ_NEXT(c, sortlist);
	}
	CHECK(c == NULL && seen == (1 << g.n) - 1, "and complete");
	for (int w = 0; w < 3; w++) if (w < g.n) W[w].found = g.pass[w] = NDB();
	return (NDB());
}
static void skip(void) { while (out < g.n && !t_cnt[2] && g.pass[out] != t_cnt[0]) out++; }
static int vf_fprintf(FILE *f, const char *s, ...)
{
	va_list ap;
	if (!t_iter) return (0);
	CHECK(f == t_fo, "to the output");
	skip();
	CHECK(out < g.n, "nothing else is reported");
	va_start(ap, s);
	if (t_cnt[2]) {
		CHECK(!strcmp(s, "%d %s\n"), "state and line");
		CHECK(va_arg(ap, int) == g.pass[out], "whether it is there");
	} else
		CHECK(!strcmp(s, "%s\n"), "the line");
	CHECK(va_arg(ap, char *) == lines[out], "exactly the lines asked for, in the order given");
	va_end(ap);
	out++;
	return (1);
}
void harness(void)
{
	static char f1[] = "f1", f2[] = "-";
	aam.magic = AARDWARC_MAGIC; aam.id_size = 1;
	t_fo = stdout;
	VTAILQ_INIT(&candidates);
	VTAILQ_INIT(&sorted);
	t_argc = vf_range(1, 3);
	t_argv[1] = NDB() ? f1 : f2;
	t_argv[2] = f1;
	t_argv[t_argc] = NULL;
	int r = main_filter("aardwarc", &aam, t_argc, t_argv);
	CHECK(r == 0, "succeeds");
	skip();
	CHECK(t_iter && out == g.n, "all that was asked for is reported");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
