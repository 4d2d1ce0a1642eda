/* Contract of silo_mkparentdir: paths are tags, cut at their last slash */
#include "vf.h"
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
static struct { int st, made, rec, recok, end; } g;
static char path[4], dp[4];
static int t_slash;		/* 0: none, 1: only the first, 2: later */
static int t_st;		/* 0: a directory, 1: something else, 2: missing, 3: cannot be told */
static char *vf_strdup(const char *s) { CHECK(s == path, "the path given"); dp[0] = 'p'; dp[2] = '/'; return (dp); }
static char *vf_strrchr(const char *s, int c) { CHECK(s == dp && c == '/', "its last directory"); return (t_slash == 0 ? NULL : t_slash == 1 ? dp : dp + 2); }
static int vf_stat(const char *p, struct stat *st)
{
	CHECK(t_slash == 2 && p == dp && dp[2] == 0, "looks at the parent directory");
	if (t_st == 2) { errno = ENOENT; return (-1); }
	if (t_st == 3) { errno = EACCES; return (-1); }
	st->st_mode = t_st == 0 ? S_IFDIR : S_IFREG;
	return (0);
}
static int vf_mkdir(const char *p, mode_t m)
{
	CHECK(p == dp && dp[2] == 0 && t_st == 2 && g.recok && !g.made && (m & 0700) == 0700, "makes the missing directory, after its own parents");
	g.made = 1;
	switch (vf_range(0, 2)) {
	case 0: t_st = 0; return (0);
	case 1: errno = EEXIST; t_st = NDB(); return (-1);	/* somebody else did */
	}
	errno = EACCES;
	g.made = 2;
	return (-1);
}
#undef strdup
#define strdup vf_strdup
#define strrchr vf_strrchr
#define stat(a, b) vf_stat(a, b)
#define mkdir vf_mkdir
static void vf_free(void *p) { CHECK(p == dp, "frees its own"); }
#define free vf_free
static int silo_mkparentdir(const char *p);
#undef VDEF_H_INCLUDED
#include SRC_wsilo
#undef stat
static int silo_mkparentdir(const char *p)
{
	CHECK(t_slash == 2 && (p == dp || p == path) && dp[2] == 0 && t_st == 2 && !g.rec, "a missing directory, whose path is shorter than that of what it is made for");
	g.rec = 1;
	if (NDB()) { errno = EACCES; return (-1); }
	g.recok = 1;
	return (0);
}
void harness(void)
{
	t_slash = vf_range(0, 2);
	int s0 = t_st = vf_range(0, 3);
	int r = silo_mkparentdir__body(path);
	if (t_slash < 2) CHECK(r == 0 && !g.rec && !g.made, "the root and the current directory are there");
	else if (r == 0) CHECK(t_st == 0 || s0 == 3, "the directory exists");
	else CHECK(r < 0 && (s0 == 1 || (g.rec && !g.recok) || g.made == 2 || t_st == 1), "a directory which cannot be made is told");
	COVER("end");
}
uint64_t vf_nd_log;
