/* Contracts of aardwarc.c: the configuration and the silo number cache */
#include "vf.h"
#include "vsb.h"
static struct {
	int cfg, err, freed;
	int opened, fd, rd, wr, closed; uint8_t file[8]; int flags;
	int fin;
} g;
static int vf_errv;
static int *vf_errno(void) { return (&vf_errv); }
#undef errno
#define errno (*vf_errno())
struct config; struct aardwarc;
static char cfgm[4];
#define CFG ((struct config *)cfgm)
/* values given: NULL for those which are not there */
static char s_prefix[4], s_idlen[4], s_dir[4], s_max[4], s_base[4], s_sort[4];
static int has_prefix, has_idlen, has_dir, has_max, has_base, has_sort, t_fmt;
static uint64_t n_idlen, n_max, n_sort;
static int e_max, e_sort;
struct config *Config_Read(const char *fn);
static struct vsb errm;
#undef VSB_new_auto
static int vf_vprintf(struct vsb *v, const char *f, ...);
static int vf_cat(struct vsb *v, const char *s);
static struct vsb *vf_vsb_new(struct vsb *a, char *b, int l, int fl);
static int vf_finish(struct vsb *v);
static char *vf_data(const struct vsb *v);
#define VSB_new vf_vsb_new
#define VSB_new_auto() vf_vsb_new(NULL, NULL, 0, 0)
#define VSB_printf vf_vprintf
#define VSB_cat vf_cat
#define VSB_finish vf_finish
#define VSB_data vf_data
#define VSB_delete(p) ((void)(p))
#define VSB_destroy(p) (*(p) = NULL)
static unsigned long vf_strtoul(const char *s, char **e, int b) { CHECK(s == s_idlen && e == NULL && (b == 0 || b == 10), "length of the identifiers"); return (n_idlen); }
#define strtoul vf_strtoul
static const char *vf_fmtcheck(const char *f, const char *d) { return (t_fmt ? f : d); }
#undef fmtcheck
#define fmtcheck vf_fmtcheck
static char fname[8];
static int vf_open(const char *fn, int fl, ...);
static ssize_t vf_read(int fd, void *b, size_t n), vf_write(int fd, const void *b, size_t n);
static int vf_close(int fd) { CHECK(fd == 5 && g.opened && !g.closed, "closed once"); g.closed = 1; return (0); }
#define open vf_open
#define read vf_read
#define write vf_write
#define close vf_close
static void *vf_calloc(size_t, size_t);
static void vf_free(void *);
#define calloc vf_calloc
#define free vf_free
#undef VDEF_H_INCLUDED
#include SRC_aardwarc
#undef read
#undef write
static struct aardwarc aam;
static struct vsb vsm;
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof aam, "an archive"); memset(&aam, 0, sizeof aam); return (&aam); }
static void vf_free(void *p) { CHECK(p == &aam && !g.freed, "freed once"); g.freed = 1; vf_errv = 99; }
static struct vsb *vf_vsb_new(struct vsb *a, char *b, int l, int fl) { (void)a; (void)b; (void)l; (void)fl; return (&vsm); }
static int vf_vprintf(struct vsb *v, const char *f, ...) { (void)f; if (v == &errm) g.err = 1; else CHECK(v == &vsm && !g.fin, "name of the cache file"); return (0); }
static int vf_cat(struct vsb *v, const char *s) { (void)s; if (v == &errm) g.err = 1; return (0); }
static int vf_finish(struct vsb *v) { CHECK(v == &vsm, "name of the cache file"); g.fin = 1; return (0); }
static char *vf_data(const struct vsb *v) { CHECK(v == &vsm && g.fin, "name of the cache file"); return (fname); }
struct config *Config_Read(const char *fn) { CHECK(fn == s_idlen + 1, "the file named"); g.cfg = NDB(); vf_errv = 7; return (g.cfg ? CFG : NULL); }
int Config_Get(const struct config *c, const char *sec, const char **np, const char **ap)
{
	CHECK(c == CFG, "this configuration");
	const char *v = NULL;
	int has = 0;
	if (!strcmp(sec, "WARC-Record-ID")) {
		v = s_prefix; has = has_prefix;
		if (has && ap != NULL) *ap = has_idlen ? s_idlen : NULL;
	}
	else if (!strcmp(sec, "silo.directory")) { v = s_dir; has = has_dir; }
	else if (!strcmp(sec, "silo.max_size")) { v = s_max; has = has_max; }
	else if (!strcmp(sec, "silo.basename")) { v = s_base; has = has_base; }
	else if (!strcmp(sec, "index.sort_size")) { v = s_sort; has = has_sort; }
	else CHECK(0, "a known section");
	if (!has) { vf_errv = ENOENT; return (ENOENT); }
	if (np != NULL) *np = v;
	return (0);
}
const char *VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
{
	CHECK(rel == 0, "absolute numbers");
	if (p == s_max) { CHECK(has_max, "value"); if (e_max) return ("bad"); *r = n_max; return (NULL); }
	if (p == s_sort) { CHECK(has_sort, "value"); if (e_sort) return ("bad"); *r = n_sort; return (NULL); }
	if (!strcmp(p, "3.5G")) { CHECK(!has_max, "default"); *r = n_max; return (NULL); }
	CHECK(!strcmp(p, "10M") && !has_sort, "default");
	*r = n_sort;
	return (NULL);
}
static void str(char *s) { for (int i = 0; i < 3; i++) s[i] = ND8(); s[3] = 0; ASSUME(s[0] != 0); }
static int endslash(const char *s) { int l = s[1] == 0 ? 0 : s[2] == 0 ? 1 : 2; return (s[l] == '/'); }
static int slash(const char *s) { for (int i = 0; i < 3 && s[i]; i++) if (s[i] == '/') return (1); return (0); }
#if defined(H_NEW)
static int vf_open(const char *fn, int fl, ...) { (void)fn; (void)fl; return (-1); }
static ssize_t vf_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static ssize_t vf_write(int fd, const void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
void harness(void)
{
	has_prefix = NDB(); has_idlen = NDB(); has_dir = NDB(); has_max = NDB(); has_base = NDB(); has_sort = NDB(); t_fmt = NDB();
	str(s_prefix); str(s_dir); str(s_base);
	n_idlen = vf_range(0, UINT32_MAX);
	n_max = vf_range(0, INT64_MAX);
	n_sort = vf_range(0, INT64_MAX);
	if (!has_max) n_max = 3758096384;
	if (!has_sort) n_sort = 10485760;
	if (!has_base) t_fmt = 1;
	e_max = NDB(); e_sort = NDB();
	struct aardwarc *a = AardWARC_New(s_idlen + 1, &errm);
	int ok = g.cfg && has_prefix && endslash(s_prefix) && (!has_idlen || (n_idlen >= 64 && n_idlen <= 256 && n_idlen % 4 == 0)) &&
	    has_dir && endslash(s_dir) && !(has_max && e_max) && t_fmt && !(has_base && slash(s_base)) && !(has_sort && e_sort) && n_sort >= 4096;
	CHECK((a != NULL) == ok, "exactly the usable configurations are accepted");
	if (a == NULL) {
		CHECK(g.err && g.freed, "others are refused with a message");
		CHECK(g.cfg || vf_errv == 7, "errno tells why");
	} else {
		CHECK(a == &aam && a->magic == AARDWARC_MAGIC && !g.err && !g.freed && a->cfg == CFG, "an archive");
		CHECK(a->prefix == s_prefix && a->silo_dirname == s_dir, "prefix and directory as configured");
		CHECK(has_base ? a->silo_basename == s_base : !strcmp(a->silo_basename, "%08u.warc.gz"), "silo names as configured");
		CHECK(a->id_size == (has_idlen ? n_idlen / 4 : 32), "as many digits as configured");
		CHECK(a->silo_maxsize == (off_t)n_max, "maximum size of silos as configured");
		CHECK(a->index_sort_size >= 4096 && a->index_sort_size % 32 == 0 && a->index_sort_size <= (off_t)n_sort && a->index_sort_size > (off_t)n_sort - 32, "sort buffer as configured, in whole entries");
		CHECK(a->cache_first_non_silo == 0 && a->cache_first_space_silo == 0, "nothing known about silos");
	}
	COVER("end");
}
#elif defined(H_CACHE)
/* the file: written by one process and read by another, at any time */
static int vf_open(const char *fn, int fl, ...)
{
	CHECK(fn == fname && !g.opened, "the cache file");
	if (NDB()) return (-1);
	g.opened = 1;
	g.flags = fl;
	return (5);
}
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 5 && (g.flags & O_ACCMODE) == O_RDONLY && n >= 8, "reads the cache");
	int l = vf_range(0, 9) - 1;
	for (int i = 0; i < 8; i++) if (i < l) ((uint8_t *)b)[i] = g.file[i];
	return (g.rd = l);
}
static ssize_t vf_write(int fd, const void *b, size_t n)
{
	CHECK(fd == 5 && (g.flags & O_ACCMODE) == O_WRONLY && !(g.flags & O_EXCL) && n == 8, "writes both numbers");
	for (int i = 0; i < 8; i++) g.file[i] = ((const uint8_t *)b)[i];
	return (g.wr = 8);
}
void harness(void)
{
	static struct aardwarc a[1], b[1];
	a->magic = b->magic = AARDWARC_MAGIC;
	a->silo_dirname = b->silo_dirname = "d/";
	uint32_t x = a->cache_first_non_silo = ND32(), y = a->cache_first_space_silo = ND32();
	uint32_t ox = b->cache_first_non_silo = ND32(), oy = b->cache_first_space_silo = ND32();
	AardWARC_WriteCache(a);
	CHECK(g.opened == g.closed && (g.wr == 8) == g.opened, "written if it can be");
	int wr = g.opened;
	g.opened = g.closed = g.fin = 0;
	AardWARC_ReadCache(b);
	CHECK(g.opened == g.closed, "closed");
	if (g.opened && g.rd == 8 && wr) CHECK(b->cache_first_non_silo == x && b->cache_first_space_silo == y, "what was written is read");
	if (!g.opened || g.rd != 8) CHECK(b->cache_first_non_silo == ox && b->cache_first_space_silo == oy, "an incomplete cache is ignored");
	CHECK(a->cache_first_non_silo == x && a->cache_first_space_silo == y, "writing changes nothing");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
