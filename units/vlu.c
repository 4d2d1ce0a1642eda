/* Contracts of vlu.c: a stream of bytes is split into lines, however it arrives */
#include "vf.h"
static struct { uint64_t a, e, n, calls; int stop, w0, w1, moved, rd; int64_t nfeed; } g;
static char *bufm; static uint64_t t_n, t_size;
struct vlu;
static char *vf_o(void), *vf_i(char *);
static int invo(const char *), invi(const char *, const char *);
static void *vf_calloc(size_t, size_t), *vf_malloc(size_t);
static void vf_free(void *);
static char *vf_strchr(const char *, int);
static void vf_memmove(void *, const void *, size_t), vf_memcpy(void *, const void *, size_t);
static ssize_t vf_read(int, void *, size_t);
#ifdef H_LINE
#define strchr vf_strchr
#define memmove vf_memmove
#else
static int LineUpProcess(struct vlu *);
#define calloc vf_calloc
#define malloc vf_malloc
#define free vf_free
#define read vf_read
#define memcpy vf_memcpy
#endif
static const char *vf_ptr(struct vlu *); static int vf_len(void), invf(struct vlu *, const char *, int, int);
#undef VDEF_H_INCLUDED
#include SRC_vlu
#undef memmove
#undef memcpy
#undef malloc
#undef strchr
static struct vlu vm;
static int t_freed, t_bfreed;
#ifdef H_LINE
static int term(char c) { return (c == '\n' || c == '\r'); }
/* The line at a ends at e: buf[e] ends it, or e is the end of what there is */
static char *vf_o(void)
{
	g.a = vf_range(0, t_n);
	g.e = vf_range(0, t_n);
	ASSUME(g.e >= g.a);
	if (g.e < t_n) { bufm[g.e] = NDB() ? '\n' : '\r'; }
	if (g.a < g.e) { bufm[g.a] = ND8(); ASSUME(bufm[g.a] != 0 && !term(bufm[g.a])); }
	g.w0 = 1;
	g.w1 = 0;
	return (bufm + g.a);
}
static int invo(const char *p)
{
	if (g.w0 == 0) { g.a = 0; return (p == bufm); }
	return (g.a <= t_n && p == bufm + g.a && !g.stop);
}
static char *vf_i(char *p)
{
	CHECK(p == bufm + g.a, "the line starts where the one before ended");
	uint64_t q = vf_range(0, t_n);
	ASSUME(q >= g.a && q <= g.e);
	if (q < g.e) { bufm[q] = ND8(); ASSUME(bufm[q] != 0 && !term(bufm[q])); }
	return (bufm + q);
}
static int invi(const char *p, const char *q) { return (p == bufm + g.a && q >= bufm + g.a && q <= bufm + g.e); }
static int line(void *priv, const char *p)
{
	CHECK(priv == &g && !g.stop, "callers data; not after it said stop");
	CHECK(p == bufm + g.a && g.e < t_n && bufm[g.e] == 0, "exactly the next line, ended");
	g.a = g.e + 1;
	g.calls++;
	return (g.stop = NDB());
}
static char *vf_strchr(const char *s, int c) { CHECK(s == bufm + g.a && c == 0 && bufm[t_n] == 0, "the end of what there is"); return (bufm + t_n); }
static void vf_memmove(void *d, const void *s, size_t n) { CHECK(d == bufm && s == bufm + g.a && n == t_n - g.a && g.e == t_n, "what is no complete line is kept"); g.moved = 1; }
void harness(void)
{
	t_size = vf_range(1, 1U << 30);
	t_n = vf_range(0, t_size - 1);
	bufm = malloc(t_size);
	ASSUME(bufm != NULL);
	vm.magic = LINEUP_MAGIC; vm.buf = bufm; vm.bufl = t_size - 1; vm.bufp = t_n; vm.func = line; vm.priv = &g;
	int r = LineUpProcess(&vm);
	CHECK(r == g.stop, "the caller learns what its function returned");
	if (!r) {
		CHECK(vm.bufp == t_n - g.a, "what is no complete line is kept");
		CHECK(g.moved == (g.a < t_n), "moved to the front");
		CHECK(bufm[vm.bufp] == 0 || !g.moved, "ended");
	}
	COVER("end");
}
#elif defined(H_ALL)
/* bounded: a whole stream in any pieces */
#define NS 5
static char sb[NS]; static int seen; static uint64_t pos;
static int vline(void *priv, const char *p)
{
	(void)priv;
	int i;
	for (i = 0; pos + i < t_n && sb[pos + i] != '\n' && sb[pos + i] != '\r'; i++)
		CHECK(p[i] == sb[pos + i], "the characters of the line");
	CHECK(pos + i < t_n && p[i] == 0, "exactly the line");
	pos += i + 1;
	seen++;
	return (0);
}
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 5, "the file");
	uint64_t k = vf_range(0, NS);
	ASSUME(k >= 1 && k <= n && k <= t_n - g.n);
	for (uint64_t i = 0; i < NS; i++) if (i < k) ((char *)b)[i] = sb[g.n + i];
	g.n += k;
	return (k);
}
void harness(void)
{
	static char b[NS + 2];
	t_n = vf_range(1, NS);
	for (int i = 0; i < NS; i++) { int k = vf_range(0, 2); sb[i] = k == 0 ? 'a' : k == 1 ? '\n' : '\r'; }
	vm.magic = LINEUP_MAGIC; vm.buf = b; vm.bufl = NS + 1; vm.func = vline; vm.priv = &g;
	for (int i = 0; i < NS; i++) if (g.n < t_n) CHECK(VLU_Fd(&vm, 5) == 0, "goes on");
	CHECK(g.n == t_n, "harness: all read");
	uint64_t last = 0;
	for (uint64_t i = 0; i < NS; i++) if (i < t_n && (sb[i] == '\n' || sb[i] == '\r')) last = i + 1;
	CHECK(pos == last, "every complete line is delivered");
	CHECK(vm.bufp == t_n - last, "the rest is kept");
	COVER("end");
}
#else
static char fbuf[4]; static const char *t_src;
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof vm, "a line splitter"); memset(&vm, 0, sizeof vm); return (NDB() ? NULL : &vm); }
static void *vf_malloc(size_t n) { CHECK(n == t_size, "a buffer of the size wanted"); return (NDB() ? NULL : (bufm = malloc(n))); }
static void vf_free(void *p) { if (p == &vm) { CHECK(!t_freed, "freed once"); t_freed = 1; } else if (p != NULL) { CHECK(p == bufm && !t_bfreed, "freed once"); t_bfreed = 1; } }
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 5 && b == bufm + t_n && n == t_size - 1 - t_n, "reads behind what there is, no more than fits");
	g.rd = vf_range(0, n + 1) - 1;
	return (g.rd);
}
static void vf_memcpy(void *d, const void *s, size_t n) { (void)d; (void)s; (void)n; CHECK(0, "not used"); }
static int LineUpProcess(struct vlu *l) { CHECK(l == &vm && l->bufp == t_n + g.rd && g.rd > 0, "all that was read is looked at"); g.calls++; return (g.stop = NDB() ? 7 : 0); }
void harness(void)
{
	int op = vf_range(0, 2);
	if (op == 0) {
		unsigned sz = vf_range(0, 1U << 20);
		t_size = sz ? sz : BUFSIZ;
		struct vlu *p = VLU_New((vlu_f *)harness, &g, sz);
		if (p != NULL) CHECK(p == &vm && vm.magic == LINEUP_MAGIC && vm.buf == bufm && vm.bufl == t_size - 1 && vm.bufp == 0 && vm.priv == &g && vm.func == (vlu_f *)harness, "an empty line splitter");
	} else {
		t_size = vf_range(2, 1U << 30);
		t_n = vf_range(0, t_size - 2);		/* lines which fit */
		bufm = malloc(t_size);
		ASSUME(bufm != NULL);
		vm.magic = LINEUP_MAGIC; vm.buf = bufm; vm.bufl = t_size - 1; vm.bufp = t_n;
		if (op == 1) {
			int r = VLU_Fd(&vm, 5);
			CHECK(g.rd > 0 ? r == g.stop && g.calls == 1 : r == (g.rd == 0 ? -2 : -1) && vm.bufp == t_n, "end and failures are told");
		} else {
			struct vlu *p = &vm;
			VLU_Destroy(&p);
			CHECK(p == NULL && t_freed && t_bfreed, "freed");
		}
	}
	COVER("end");
}
#endif
uint64_t vf_nd_log;
