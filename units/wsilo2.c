/* Contracts of wsilo.c: header space, finishing a silo, finding a silo number */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"
struct aardwarc; struct header; struct wsilo;
static struct {
	int nw; int64_t wlen; int cpy, set, freed; int64_t pos; int aa; uint32_t next; int rc, got; int locked;
} g;
static char bufm[4];
static struct vsb hv;
static const char *t_type;
static int64_t t_pad;
#define VSB_len(v)	((v)->s_len)
#define VSB_data(v)	((v)->s_buf)
#define VSB_delete(v)	((void)(v))
static ssize_t vf_write(int fd, const void *p, size_t n)
{
	CHECK(fd == 6 && p == bufm, "the buffer is written to the hold");
	if (g.nw == 0) CHECK(g.cpy == 1 && n == (size_t)hv.s_len, "the header goes first, whole");
	else CHECK(g.nw == 1 && g.set == 1 && (int64_t)n == t_pad, "followed by the space reserved for more");
	g.nw++; g.wlen += n;
	return (n);
}
static void vf_memcpy(void *d, const void *s, size_t n)
{
	CHECK(d == bufm && s == hv.s_buf && n == (size_t)hv.s_len && g.nw == 0, "the header is copied to the buffer");
	g.cpy++;
}
static void vf_memset(void *d, int c, size_t n)
{
	(void)c;
	CHECK(d == bufm && (int64_t)n == t_pad && g.nw == 1, "reserved space is filled");
	g.set++;
}
static off_t vf_lseek(int fd, off_t o, int wh)
{
	CHECK(fd == 6, "the hold");
	if (wh == SEEK_SET) g.pos = o; else CHECK(0, "absolute position");
	return (o);
}
static void vf_free(void *p) { g.freed += p == bufm; }
void Gzip_WriteAa(int fd, int64_t len);
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
#define write vf_write
#define memcpy vf_memcpy
#define memset vf_memset
#define lseek vf_lseek
#define free vf_free
#ifdef H_NEXT
struct wsilo *Wsilo_New(struct aardwarc *aa, uint32_t silono);
static int inv(struct aardwarc *aa, uint32_t silono);
#endif
#undef VDEF_H_INCLUDED
#include SRC_wsilo
#undef memset
static struct aardwarc aa[1];
static struct wsilo sl[1];
const char *Header_Get(const struct header *hd, const char *n)
{ (void)hd; if (!strcmp(n, "WARC-Type")) return (t_type); return (NULL); }
struct vsb *Header_Serialize(const struct header *hd, int level) { (void)hd; CHECK(level == 0, "stored uncompressed, so its size is predictable"); return (&hv); }
int Header_Len(const char *n, const char *v, ...) { CHECK(n[0] == 'z' && n[1] == 0 && v[0] == '_' && v[1] == 0, "padding header"); return (6); }
void AardWARC_ReadCache(struct aardwarc *a) { a->cache_first_non_silo = g.next; g.rc++; }
void Gzip_WriteAa(int fd, int64_t len)
{
	CHECK(fd == 6 && g.pos == sl->hd_start + sl->hd_len, "the length field is that of the body's gzip member");
	CHECK(len == sl->hold_len - 24 - g.pos, "the length is that of the whole gzip member");
	g.aa++;
}
#if defined(H_HEADER)
void harness(void)
{
	aa->magic = AARDWARC_MAGIC; sl->magic = WSILO_MAGIC; sl->aa = aa; sl->hold_fd = 6;
	aa->silo_maxsize = vf_range(4096, 1ULL << 50);
	sl->buf_ptr = bufm; sl->buf_len = vf_range(1 << 17, 1 << 20);
	sl->hold_len = vf_range(1, 1ULL << 50);
	hv.s_len = vf_range(1, 1 << 16); hv.s_buf = (char *)&hv;
	int pad = vf_range(1, 4096);
	t_pad = pad + 6;
	ASSUME(sl->hold_len + hv.s_len + pad + 6 < aa->silo_maxsize);
	static const char met[] = "metadata", res[] = "resource", con[] = "continuation";
	int ty = vf_range(0, 3);
	t_type = ty == 0 ? NULL : ty == 1 ? met : ty == 2 ? res : con;
	sl->idx = ND32() & ~(IDX_F_METADATA | IDX_F_RESOURCE);
	uint32_t i0 = sl->idx;
	int64_t h0 = sl->hold_len;
	Wsilo_Header(sl, (struct header *)&hv, pad);
	CHECK(sl->hd == (struct header *)&hv, "the header is kept for the commit");
	CHECK(sl->hd_start == h0, "the record starts where the silo ended");
	CHECK(sl->hd_len == hv.s_len + pad + 6, "space is reserved for the padding asked for and its header");
	CHECK(g.nw == 2 && g.wlen == sl->hd_len && sl->hold_len == h0 + sl->hd_len, "all reserved space is written");
	CHECK(sl->idx == (i0 | (ty == 1 ? IDX_F_METADATA : 0) | (ty == 2 ? IDX_F_RESOURCE : 0)), "the index flags say what kind of record it is");
	COVER("end");
}
#elif defined(H_FINISH)
void harness(void)
{
	sl->magic = WSILO_MAGIC; sl->hold_fd = 6; sl->buf_ptr = bufm; sl->buf_len = 4;
	sl->hd_start = vf_range(1, 1ULL << 50);
	sl->hd_len = vf_range(1, 1 << 20);
	sl->hold_len = vf_range(1, 1ULL << 52);
	ASSUME(sl->hold_len > sl->hd_start + sl->hd_len + 24);
	g.pos = -1;
	Wsilo_Finish(sl);
	CHECK(g.aa == 1, "the length of the body is recorded");
	CHECK(sl->buf_ptr == NULL && sl->buf_len == 0 && g.freed == 1, "no more data can be stored");
	COVER("end");
}
#elif defined(H_NEXT)
struct wsilo *Wsilo_New(struct aardwarc *a, uint32_t no)
{
	CHECK(a == aa && g.rc == 1, "numbers start from the cached one");
	CHECK(no == g.next, "silo numbers are tried in order, none is left out");
	CHECK(!g.got, "only one silo is created");
#ifndef VF_PROOF
	ASSUME(++g.locked < 6);
#endif
	if (NDB()) { g.next++; return (NULL); }
	g.got = 1; sl->silo_no = no;
	return (sl);
}
static int inv(struct aardwarc *a, uint32_t silono) { return (a == aa && silono == g.next && !g.got && g.rc == 1); }
void harness(void)
{
	aa->magic = AARDWARC_MAGIC;
	uint32_t n0 = g.next = vf_range(0, 1U << 31);
	struct wsilo *p = Wsilo_Next(aa);
	(void)n0;
	CHECK(p == sl && g.got && p->silo_no == g.next, "the first free number is taken");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
