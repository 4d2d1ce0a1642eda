/* Contracts of silo.c: names of silos, enumeration of silos */
#include "vf.h"
#define VSBM_N 3
#define VSBM_FIX2
#define VSBM_LEN 64
#ifdef H_ITER
#include "vsb.h"
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
struct aardwarc;
static struct {
	uint32_t next;		/* number expected next */
	int dir, need, ended, stopped, vis;
} g;
static struct vsb vs[1];
static struct { char c[4]; uint32_t no; int file; } nm;
#define VSB_new(a,b,c,d) (&vs[0])
#undef VSB_new_auto
#define VSB_new_auto() (nm.file = 2, &vs[0])
#define VSB_cat(v, s) 0
#define VSB_finish(v) 0
#define VSB_data(v) (nm.c)
#define VSB_delete(v) ((void)(v))
static void numpart(struct vsb *v, int lvl, unsigned num);
static int vf_stat(const char *p, struct stat *st)
{
	CHECK(p == nm.c, "stat of the name just built");
	CHECK(!g.ended, "the scan is over once a directory is missing");
	memset(st, 0, sizeof *st);
#ifndef VF_PROOF
	ASSUME(nm.no < 5);
#endif
	if (nm.file == 0) {
		ASSUME(nm.no != UINT32_MAX);	/* silo numbers are 32 bits */
		CHECK(!g.need, "every silo there is is visited");
		CHECK(nm.no == g.next || (nm.no == g.next + 1 && g.dir == 2), "numbers are tried in ascending order, none skipped");
		g.next = nm.no;
		g.dir = 1;
		int k = vf_range(0, 2);
		if (k == 1) { errno = ENOENT; g.ended = 1; return (-1); }
		if (k == 2) { errno = EACCES; return (-1); }
		st->st_mode = S_IFDIR;
		return (0);
	}
	CHECK(nm.file == 1 && g.dir == 1 && nm.no == g.next, "the silo of the directory just seen");
	g.dir = 2;
	int k = vf_range(0, 2);
	if (k == 0) { errno = ENOENT; return (-1); }
	if (k == 1) { st->st_mode = S_IFDIR; return (0); }
	st->st_mode = S_IFREG;
	g.need = 1;
	return (0);
}
#define stat(a, b) vf_stat(a, b)
struct vsb *Silo_Filename(const struct aardwarc *aa, unsigned number, int hold);
#undef VDEF_H_INCLUDED
#include SRC_silo
#undef stat
static void numpart(struct vsb *v, int lvl, unsigned num)
{ CHECK(v == vs && lvl == 0 && nm.file == 2, "directory part"); nm.no = num; nm.file = 0; }
struct vsb *Silo_Filename(const struct aardwarc *aa, unsigned number, int hold)
{ (void)aa; CHECK(!hold, "silos, not their hold files"); nm.no = number; nm.file = 1; return (&vs[0]); }
static int func(void *priv, const void *p, ssize_t n)
{
	CHECK(priv == &g && p == nm.c && nm.file == 1, "silo name and callers data handed on");
	CHECK(g.need && g.dir == 2 && (uint32_t)n == g.next, "exactly the silos which exist are visited");
	g.need = 0;
	g.vis = 1;
	int r = NDB();
	if (r) g.stopped = 1;
	return (r);
}
void harness(void)
{
	struct aardwarc aa[1];
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	aa->silo_dirname = "D/";
	int r = Silo_Iter(aa, func, &g);
	CHECK(r == g.stopped, "the caller learns what its function returned");
	CHECK(!g.need, "every silo there is is visited");
	CHECK(g.ended || g.stopped, "the scan ends at a missing directory or when told to");
	if (g.vis) COVER("visited");
	COVER("end");
}
#else
#include "vsbmodel.h"
static char dn[4] = "D/";
#ifdef VF_PROOF
/* Contract of numpart(v, lvl, n), see lemmas/SiloPath.lean: it appends
 * path(lvl, n), which is path(lvl + 1, n / 100) or, if n < 100, the level, and
 * below level 0 the last two digits of n. */
static int t_lvl; static uint32_t t_n;
static int st_calls; static uint32_t st_q;
static void numpart(struct vsb *v, int lvl, unsigned num);
#endif
#undef VDEF_H_INCLUDED
#include SRC_silo
static struct aardwarc aa[1];
#ifdef VF_PROOF
static void numpart(struct vsb *v, int lvl, unsigned num)
{
	st_calls++;
#ifdef H_PART
	CHECK(v == &vsbm_pool[0] && v->s_len == 0 && st_calls == 1, "the higher digits come first, once");
	CHECK(t_n >= 100, "higher digits only if there are any");
	CHECK(lvl == t_lvl + 1, "one level further for each pair of digits");
	CHECK((uint64_t)num * 100 <= t_n && t_n - (uint64_t)num * 100 < 100, "all but the last two digits are handed on");
#else
	CHECK(v->s_len == 2 && lvl == 0 && num == t_n && st_calls == 1, "the directory is made from the whole number");
#endif
	st_q = num;
	vsbm_putc(v, '@');
}
#endif
#ifdef H_PART
void harness(void)
{
	struct vsb *v = vsbm_new();
	int o;
	t_n = ND32();
	t_lvl = vf_range(0, 4);		/* 100^5 > 2^32 */
	numpart__body(v, t_lvl, t_n);
	CHECK((st_calls == 1) == (t_n >= 100), "higher digits if there are any");
	if (t_n >= 100) {
		CHECK(v->s_buf[0] == '@', "higher digits come first");
		o = 1;
	} else {
		CHECK(v->s_buf[0] == '0' + t_lvl && v->s_buf[1] == '/', "the name starts with the level");
		o = 2;
	}
	if (t_lvl > 0) {
		char a = v->s_buf[o], b = v->s_buf[o + 1];
		CHECK(a >= '0' && a <= '9' && b >= '0' && b <= '9' && v->s_buf[o + 2] == '/', "a pair of digits");
		CHECK(t_n - st_q * 100 == (uint32_t)((a - '0') * 10 + (b - '0')), "the last two digits");
		o += 3;
		COVER("pair");
	}
	CHECK(v->s_buf[o] == 0 && v->s_len == o, "nothing else");
	COVER("end");
}
#else
void harness(void)
{
	uint32_t n = ND32();
	int hold = NDB(), o;
#ifdef VF_PROOF
	t_n = n;
#endif
#ifndef VF_PROOF
	ASSUME(n < 25600);
#endif
	aa->magic = AARDWARC_MAGIC;
	aa->silo_dirname = dn;
	aa->silo_basename = "B%c";
	/* the base name is printed from the number, whatever its pattern is */
	struct vsb *v = Silo_Filename(aa, n, hold);
	CHECK(v->s_buf[0] == 'D' && v->s_buf[1] == '/', "the configured directory");
#ifdef VF_PROOF
	CHECK(v->s_buf[2] == '@' && st_calls == 1, "the directory part is made from the number");
	o = 3;
#else
	CHECK(v->s_buf[2] == (n < 100 ? '0' : n < 10000 ? '1' : '2') && v->s_buf[3] == '/', "the level");
	o = 4;
	for (uint32_t d = n < 10000 ? 100 : 10000; d > 1; d /= 100) {
		if (n < 100) break;
		CHECK(v->s_buf[o] == (char)('0' + n / d % 100 / 10) && v->s_buf[o + 1] == (char)('0' + n / d % 10) && v->s_buf[o + 2] == '/', "all but the last two digits, in pairs");
		o += 3;
	}
#endif
	CHECK(v->s_buf[o] == 'B' && v->s_buf[o + 1] == (char)n, "the name in the directory is printed from the whole number");
	if (hold)
		CHECK(!strcmp(v->s_buf + o + 2, ".hold"), "hold name of the same silo");
	else
		CHECK(v->s_len == o + 2 && v->s_buf[o + 2] == 0, "nothing else in the name");
	COVER("end");
}
#endif
#endif
uint64_t vf_nd_log;
