/* IDX_Insert(): appends exactly one 32-byte entry, laid out as documented */
#include "vf.h"
static struct { int open, writes, closed; uint8_t rec[32]; } g;
static struct vsb *idx_filename_stub;
static int vf_open(const char *fn, int flags, ...)
{
	CHECK(fn[0] == 'a' && !strcmp(fn, "appendix"), "entries go to index.appendix");
	CHECK((flags & O_ACCMODE) == O_WRONLY || (flags & O_ACCMODE) == O_RDWR, "opened for writing");
	CHECK((flags & O_APPEND) != 0, "opened in append mode: existing entries are not overwritten");
	CHECK((flags & O_TRUNC) == 0, "existing entries are not truncated away");
	CHECK((flags & O_CREAT) != 0 && (flags & O_EXCL) == 0, "created if absent, usable if present");
	CHECK(!g.open, "opened once");
	g.open = 1;
	return (5);
}
static ssize_t vf_write(int fd, const void *p, size_t n)
{
	CHECK(fd == 5 && g.open && !g.closed, "written to the appendix");
	CHECK(n == 32, "one whole entry in one write");
	memcpy(g.rec, p, 32);
	g.writes++;
	return (n);
}
static int vf_close(int fd) { CHECK(fd == 5 && g.open && !g.closed, "closed once"); g.closed = 1; return (0); }
#define open vf_open
#define write vf_write
#define close vf_close
#include "vsb.h"
static struct vsb g_vsb[1];
#define VSB_data(v) ((v)->s_buf)
#define VSB_delete(v) ((void)(v))
struct aardwarc;
static struct vsb *idx_filename(const struct aardwarc *, const char *);
#undef VDEF_H_INCLUDED
#include SRC_index
static struct vsb *idx_filename(const struct aardwarc *aa, const char *suff)
{ (void)aa; g_vsb->s_buf = (char *)(uintptr_t)suff; return (g_vsb); }

static int nib(char c) { return (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10); }
static int ishex(char c) { return ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); }

void harness(void)
{
	struct aardwarc aa[1];
	char key[65], cont[65];
	unsigned l = vf_range(16, 64), cl = vf_range(8, 64), k, c;
	uint32_t fl = ND32(), si = ND32();
	uint64_t off = vf_range(0, INT64_MAX);
	int havecont = NDB();
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	aa->silo_dirname = "D";
	aa->id_size = vf_range(16, 64);
	for (unsigned i = 0; i < 65; i++) {
		key[i] = ND8(); cont[i] = ND8();
		if (i < l) ASSUME(ishex(key[i])); else if (i == l) key[i] = 0;
		if (i < cl) ASSUME(ishex(cont[i])); else if (i == cl) cont[i] = 0;
	}
	IDX_Insert(aa, key, fl, si, off, havecont ? cont : NULL);
	CHECK(g.writes == 1 && g.closed, "exactly one entry appended");
	k = vf_range(0, 23);
	CHECK(((g.rec[k / 2] >> (k & 1 ? 0 : 4)) & 15) == (k < l ? nib(key[k]) : 0), "entry carries the first 96 bits of the ID");
	CHECK(be32dec(g.rec + 12) == fl, "entry carries the flags");
	CHECK(be32dec(g.rec + 16) == si, "entry carries the silo number");
	CHECK(be64dec(g.rec + 20) == off, "entry carries the offset");
	c = vf_range(0, 7);
	CHECK(((g.rec[28 + c / 2] >> (c & 1 ? 0 : 4)) & 15) == (havecont ? nib(cont[c]) : 0), "entry carries the next segment's ID prefix");
	COVER("end");
}
uint64_t vf_nd_log;
