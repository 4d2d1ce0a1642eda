/* Contracts of vsb.c: what is appended is in the string, in order, and ended */
#include "vf.h"
static struct { int nalloc, nfree; uint64_t n; int err, w0, w1; } g;
static int vf_errv;
static int *vf_errno(void) { return (&vf_errv); }
#undef errno
#define errno (*vf_errno())
static uint64_t gi; static int gv;		/* any position, and what is there */
static void *vf_malloc(size_t), *vf_realloc(void *, size_t);
static void vf_free(void *), vf_memcpy(void *, const void *, size_t);
static int vf_vsnprintf(char *, size_t, const char *, va_list);
#define malloc vf_malloc
#define realloc vf_realloc
#define free vf_free
#define memcpy vf_memcpy
#define vsnprintf vf_vsnprintf
struct vsb;
static const char *vf_str(struct vsb *);
static int invcat(struct vsb *, const char *);
static void VSB_put_byte(struct vsb *s, int c);
#undef VDEF_H_INCLUDED
#include SRC_vsb
#undef malloc
#undef free
#undef memcpy
#ifdef VF_PROOF
#define MAXSZ (1L << 40)
#else
#define MAXSZ 40
#endif
static struct vsb sm;
static char *obuf, *nbuf;		/* the buffer at first, and after it grew */
static ssize_t osize, nsize;
static int t_nomem;
static void *vf_malloc(size_t n)
{
	g.nalloc++;
	CHECK(n > 0 && n < 1UL << 60, "a reasonable amount of memory");
	if (NDB()) { t_nomem = 1; return (NULL); }
	if (n == sizeof sm && nbuf == (char *)&sm) { nbuf = NULL; return (&sm); }
	nsize = n;
	nbuf = malloc(n);
	ASSUME(nbuf != NULL);
	return (nbuf);
}
static void *vf_realloc(void *p, size_t n)
{
	CHECK(p == obuf && (sm.s_flags & VSB_DYNAMIC), "only what was allocated is reallocated");
	CHECK((ssize_t)n >= osize, "buffers only grow");
	void *q = vf_malloc(n);
	if (q != NULL && gi < (uint64_t)osize) ((char *)q)[gi] = ((char *)p)[gi];
	if (q != NULL) g.nfree++;
	return (q);
}
static void vf_free(void *p) { if (p != NULL) { CHECK(p == obuf || p == &sm, "only what was allocated is freed"); g.nfree++; } }
static char src[8]; static char *srcp; static uint64_t t_l, t_off;
/* only the byte at the position gi of the string is followed */
static void vf_memcpy(void *d, const void *s, size_t n)
{
	if (s == obuf) {
		CHECK(d == nbuf && n <= (size_t)osize && n <= (size_t)nsize && (int64_t)n >= sm.s_len, "all of the string is copied to the larger buffer");
		if (gi < n) nbuf[gi] = obuf[gi];
		return;
	}
	CHECK(s == srcp && n == t_l && (char *)d == sm.s_buf + sm.s_len && sm.s_len + (int64_t)n < sm.s_size, "appended at the end, inside the buffer");
	if (gi >= (uint64_t)sm.s_len && gi - sm.s_len < n) sm.s_buf[gi] = srcp[gi - sm.s_len];
}
static int vf_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
	(void)ap;
	CHECK(f == src && d == sm.s_buf + sm.s_len && n >= 1 && sm.s_len + (int64_t)n <= sm.s_size, "printed at the end, inside the buffer");
	if (g.err) { vf_errv = 5; return (-1); }
	if (gi >= (uint64_t)sm.s_len && gi - sm.s_len < t_l && gi - sm.s_len < n - 1) d[gi - sm.s_len] = srcp[0];
	return (t_l);
}
static int len0; static char *buf0;
static void setup(void)
{
	sm.magic = VSB_MAGIC;
	sm.s_size = osize = vf_range(1, MAXSZ);
	sm.s_len = vf_range(0, MAXSZ);
	ASSUME(sm.s_len < sm.s_size);
	sm.s_flags = (NDB() ? VSB_AUTOEXTEND : 0) | (NDB() ? VSB_DYNAMIC : 0) | (NDB() ? VSB_DYNSTRUCT : 0);
	sm.s_error = NDB() ? ENOMEM : 0;
	sm.s_buf = obuf = malloc(osize);
	ASSUME(obuf != NULL);
	gi = vf_range(0, 2 * MAXSZ);
	srcp = src;
	if (gi < (uint64_t)sm.s_len) {
		gv = vf_range(0, 127);
		obuf[gi] = gv;
	}
}
#if defined(H_APPEND)
void harness(void)
{
	setup();
	ssize_t l0 = sm.s_len; int e0 = sm.s_error, canext = sm.s_flags & VSB_AUTOEXTEND;
	int op = OP, r, c;
	if (op == 0) {
		t_l = 1;
		c = vf_range(0, 127);
		r = VSB_putc(&sm, c);
	} else {
#ifdef VF_PROOF
		t_l = vf_range(0, 1L << 30);
#else
		t_l = vf_range(0, 8);
#endif
		srcp = t_l <= 8 ? src : malloc(t_l);
		ASSUME(srcp != NULL);
		c = vf_range(0, 127);
		if (gi >= (uint64_t)l0 && gi - l0 < t_l) srcp[op == 1 ? gi - l0 : 0] = c;
		if (op == 1) r = VSB_bcat(&sm, srcp, t_l);
		else { g.err = NDB(); r = VSB_printf(&sm, src, 1); }
	}
	int room = (int64_t)t_l <= osize - l0 - 1;
	CHECK(sm.s_len >= 0 && sm.s_len < sm.s_size && (sm.s_buf == obuf ? sm.s_size == osize : sm.s_buf == nbuf && sm.s_size == nsize), "inside its buffer");
	CHECK((r == 0) == (sm.s_error == 0) && (r == 0 || r == -1), "failures are told and remembered");
	if (e0) CHECK(r && sm.s_len == l0 && sm.s_buf == obuf, "nothing more is appended after a failure");
	else if (r == 0 && !(op == 2 && t_nomem)) {
		CHECK(sm.s_len == l0 + (int64_t)t_l, "all of it is appended");
		if (gi < (uint64_t)sm.s_len) CHECK(sm.s_buf[gi] == (char)(gi < (uint64_t)l0 ? gv : c), "in order, and what was there stays");
		COVER("appended");
	} else
		CHECK(t_nomem || g.err || (!canext && (!room || (op == 2 && (int64_t)t_l == osize - l0 - 1) || op == 2)), "it does not fail without a reason");
	if (e0 == 0 && canext && !t_nomem && !g.err) CHECK(r == 0, "a string that may grow does");
	if (sm.s_buf != obuf) CHECK((sm.s_flags & VSB_DYNAMIC), "will be freed");
	COVER("end");
}
#elif defined(H_CAT)
static uint64_t t_fail;
static ssize_t l0;
static void VSB_put_byte(struct vsb *s, int c)
{
	CHECK(s == &sm && sm.s_error == 0 && g.n < t_l, "one character after the other");
	ASSUME(g.n < t_l);
	CHECK((char)c == srcp[g.n], "in order");
	if (g.n == t_fail) { sm.s_error = ENOMEM; return; }
	g.n++;
	sm.s_len++;
}
static const char *vf_str(struct vsb *s)
{
	CHECK(s == &sm, "this string");
	g.n = vf_range(0, t_l);
	sm.s_len = l0 + g.n;
	if (g.n < t_l) { srcp[g.n] = ND8(); ASSUME(srcp[g.n] != 0); }
	return (srcp + g.n);
}
static int invcat(struct vsb *s, const char *p) { return (s == &sm && g.n <= t_l && g.n <= t_fail && p == srcp + g.n && sm.s_error == 0 && sm.s_len == l0 + (int64_t)g.n); }
void harness(void)
{
	setup();
	l0 = sm.s_len;
	int e0 = sm.s_error;
#ifdef VF_PROOF
	t_l = vf_range(0, 1L << 40);
#else
	t_l = vf_range(0, 5);
#endif
	srcp = malloc(t_l + 1);
	ASSUME(srcp != NULL);
#ifndef VF_PROOF
	for (unsigned i = 0; i < 5; i++) if (i < t_l) { srcp[i] = ND8(); ASSUME(srcp[i] != 0); }
#endif
	srcp[t_l] = 0;
	if (t_l > 0) ASSUME(srcp[0] != 0);
	t_fail = NDB() ? ~0ULL : vf_range(0, t_l);
	int r = VSB_cat(&sm, srcp);
	if (e0) CHECK(r == -1 && g.n == 0, "nothing more is appended after a failure");
	else if (t_fail < t_l) CHECK(r == -1 && sm.s_error, "a failure is told");
	else CHECK(r == 0 && g.n == t_l, "all of the string is appended");
	COVER("end");
}
#elif defined(H_LIFE)
void harness(void)
{
	int op = vf_range(0, 2);
	if (op == 0) {
		setup();
		ssize_t l0 = sm.s_len; int e0 = sm.s_error;
		int r = VSB_finish(&sm);
		CHECK(sm.s_buf == obuf && obuf[l0] == 0, "the string is ended");
		CHECK((r == 0) == (e0 == 0) && sm.s_error == e0 && VSB_error(&sm) == e0, "whether all went well is told");
		if (gi < (uint64_t)l0) CHECK(obuf[gi] == (char)gv, "and what was there stays");
		CHECK(VSB_data(&sm) == obuf && VSB_len(&sm) == (e0 ? -1 : l0), "the text and its length");
		VSB_clear(&sm);
		CHECK(sm.s_len == 0 && !sm.s_error && !(sm.s_flags & VSB_FINISHED) && sm.s_buf == obuf, "empty again");
	} else if (op == 1) {
		setup();
		int fl = sm.s_flags;
		struct vsb *p = &sm;
		sm.s_flags |= NDB() ? VSB_FINISHED : 0;
		VSB_destroy(&p);
		CHECK(p == NULL && g.nfree == ((fl & VSB_DYNAMIC) != 0) + ((fl & VSB_DYNSTRUCT) != 0), "exactly what was allocated is freed");
	} else {
		nbuf = (char *)&sm;
		struct vsb *p = VSB_new(NULL, NULL, 0, VSB_AUTOEXTEND);
		if (p == NULL) CHECK(t_nomem, "only without memory");
		else CHECK(p == &sm && sm.magic == VSB_MAGIC && sm.s_len == 0 && !sm.s_error && sm.s_flags == (VSB_AUTOEXTEND | VSB_DYNAMIC | VSB_DYNSTRUCT) &&
		    sm.s_buf == nbuf && sm.s_size == nsize && sm.s_size >= 1, "an empty string which may grow");
		obuf = (char *)&sm;
	}
	COVER("end");
}
#endif
uint64_t vf_nd_log;
