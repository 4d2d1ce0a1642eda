/* Contracts of rsilo.c: reading records */
#include "vf.h"
#include <zlib.h>
#include "vsb.h"
#ifndef PS
#define PS 4096
#endif
static struct {
	int64_t pos;			/* of the file */
	const char *rp; int64_t rn; int64_t ru;	/* last read: where, how much, how much of it is consumed */
	uint64_t in, out, dlv;		/* consumed, produced, delivered */
	const char *op; int64_t pend;	/* produced, not yet delivered */
	int ended, stop, inits, ends, fmt, aa, parsed; int nd;
	int open, closed, seeks;
} g;
static int64_t t_off, t_blen, t_size, t_hl, t_ol;
static const char *t_parsep;
static ssize_t vf_read(int fd, void *p, size_t n)
{
	CHECK(fd == 5 && g.open, "reads the silo");
#ifdef H_CHUNK
	CHECK(g.ru == g.rn, "input is used up before more is read");
#endif
#ifndef VF_PROOF
	ASSUME(g.nd++ < 4);
#endif
	int64_t left = g.pos < t_size ? t_size - g.pos : 0;
	int64_t r = vf_range(0, n < (uint64_t)left ? n : (uint64_t)left);
	ASSUME(r > 0 || left == 0);
#ifdef IOERR
	if (NDB()) return (-1);
#endif
	g.rp = p; g.rn = r; g.ru = 0;
	g.pos += r;
	return (r);
}
static off_t vf_lseek(int fd, off_t o, int wh)
{
	CHECK(fd == 5 && g.open, "seeks in the silo");
	CHECK(wh == SEEK_SET || wh == SEEK_CUR, "forwards or backwards from here, or absolute");
	g.pos = (wh == SEEK_SET ? 0 : g.pos) + o;
	g.seeks++;
	return (g.pos);
}
static int vf_open(const char *fn, int fl, ...) { (void)fn; CHECK((fl & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND)) == O_RDONLY, "silos are opened for reading only"); if (NDB()) return (-1); g.open = 1; g.pos = 0; return (5); }
static int vf_close(int fd) { CHECK(fd == 5 && g.open, "closed once"); g.open = 0; g.closed++; return (0); }
static int vf_getpagesize(void) { return (PS); }
static int vf_init(z_stream *z, int bits) { CHECK(bits == 15 + 32 || bits == 15 + 16, "gzip format"); (void)z; g.inits++; return (Z_OK); }
static int vf_end(z_stream *z) { (void)z; g.ends++; CHECK(g.ends == g.inits, "ended once"); return (Z_OK); }
static int vf_inflate(z_stream *z, int fl)
{
	(void)fl;
#ifndef VF_PROOF
	ASSUME(g.nd++ < 5);
#endif
	CHECK(g.inits == 1 && !g.ends && !g.ended, "inflate is active");
	CHECK(z->next_in == (void *)(g.rp + g.ru) && z->avail_in == g.rn - g.ru, "all that was read is inflated, in order");
	CHECK(g.pend == 0 && z->avail_out > 0, "earlier output has been delivered");
#ifdef H_HEAD
	/* a header: t_hl compressed, t_ol inflated bytes */
	uint64_t c, p; int e = t_hl <= z->avail_in && t_ol <= z->avail_out;
	c = e ? t_hl : z->avail_in; p = e ? t_ol : vf_range(0, z->avail_out);
#else
	uint64_t c = vf_range(0, z->avail_in), p = vf_range(0, z->avail_out);
	int e = NDB();
	ASSUME(e || p == z->avail_out || c == z->avail_in);
	ASSUME(g.out + p < (1ULL << 62) && g.in + c < (1ULL << 62));
#endif
	g.ru += c; g.in += c; g.out += p;
	g.op = (const char *)z->next_out; g.pend = p;
	z->next_in += c; z->avail_in -= c; z->total_in += c;
	z->next_out += p; z->avail_out -= p;
	g.ended = e;
	if (!e && c == 0 && p == 0) return (Z_BUF_ERROR);
	if (!e && NDB()) return (Z_DATA_ERROR);
	return (e ? Z_STREAM_END : Z_OK);
}
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
#define read vf_read
#define lseek vf_lseek
#define open vf_open
#define close vf_close
#define getpagesize vf_getpagesize
#undef inflateInit2
#define inflateInit2 vf_init
#define inflateEnd vf_end
#define inflate vf_inflate
struct rsilo; struct aardwarc; struct header;
static struct rsilo *prs;
static z_stream *pz;
static int invg(struct rsilo *rs, int64_t ll, int64_t sz);
static int invc(struct rsilo *rs);
static z_stream vf_zs(void); static int invz(z_stream *z);
static int vf_j(void);
#undef VDEF_H_INCLUDED
#include SRC_rsilo
#undef open
static struct aardwarc aam;
static struct rsilo rsm;
static struct header *const hdrp = (struct header *)&aam;
const uint8_t Gzip_crnlcrnl[24] = { 0x1f, 0x8b, 3, 4 };
static char privm[4];
static int64_t t_stopat;
static int t_eof;
/* the consumer */
static int vf_func(void *priv, const void *p, ssize_t n)
{
	CHECK(priv == privm && !g.stop, "the caller's function, until it says stop");
#ifdef H_GZ
	CHECK(p == g.rp && n == g.rn && n > 0, "exactly what was read is delivered");
	g.dlv += n;
#else
	CHECK(p == g.op && n == g.pend && n > 0, "exactly what was inflated is delivered, in order");
	g.dlv += n; g.pend = 0;
#endif
	if (NDB()) { g.stop = 1; return (1); }
	return (0);
}
int64_t Gzip_ReadAa(const uint8_t *p, size_t n)
{
	CHECK((const char *)p == g.rp + t_hl && (int64_t)n == g.rn - t_hl, "the length field is that of the member after the header");
	g.aa++;
	return (t_blen);
}
struct header *Header_Parse(const struct aardwarc *a, char *p)
{
	CHECK(a == &aam && p == g.op && p[t_ol] == 0, "the whole header is parsed, and nothing after it");
	g.parsed++;
	return (hdrp);
}
static struct vsb vm;
struct vsb *Silo_Filename(const struct aardwarc *a, unsigned no, int hold) { CHECK(a == &aam && !hold && no == 7, "the silo asked for"); return (&vm); }
#undef VSB_data
char *VSB_data(const struct vsb *v) { (void)v; return ("silo"); }
#undef VSB_delete
void VSB_delete(struct vsb *v) { (void)v; }
void VSB_destroy(struct vsb **v) { *v = NULL; }
static void setup(int where)
{
	aam.magic = AARDWARC_MAGIC;
	rsm.magic = RSILO_MAGIC; rsm.aa = &aam; rsm.silo_fd = 5; rsm.silo_where = where;
	g.open = 1;
	t_size = vf_range(0, 1ULL << 60);
	g.pos = t_off = vf_range(0, 1ULL << 60);
	t_blen = vf_range(1, 1ULL << 60);
}
#if defined(H_OPEN)
void harness(void)
{
	aam.magic = AARDWARC_MAGIC;
	t_off = vf_range(0, 1ULL << 60);
	struct rsilo *r = Rsilo_Open(&aam, NDB() ? "fn" : NULL, 7, t_off);
	if (r != NULL) {
		CHECK(g.open && g.pos == t_off && r->silo_where == RS_HEAD && r->silo_fd == 5, "reading starts at the offset of the record");
		CHECK(Rsilo_Tell(r) == t_off, "position");
		COVER("opened");
		Rsilo_Close(&r);
		CHECK(r == NULL && !g.open && g.closed == 1, "closed");
	} else CHECK(!g.open, "nothing left open");
	COVER("end");
}
#elif defined(H_HEAD)
void harness(void)
{
	setup(RS_HEAD);
	t_hl = vf_range(1, 2 * PS); t_ol = vf_range(1, 2 * PS);
	struct header *h = Rsilo_ReadHeader(&rsm);
	if (h == NULL) CHECK(g.pos == t_off && t_off >= t_size, "no header only at the end of the silo");
	else {
		CHECK(h == hdrp && g.parsed == 1, "the header is returned");
		CHECK(rsm.silo_where == RS_BODY && g.pos == t_off + t_hl, "the body follows the header");
		CHECK(rsm.silo_bodylen == t_blen && Rsilo_BodyLen(&rsm) == t_blen, "the length of the body is the one recorded");
		CHECK(g.ends == 1, "inflate is ended");
		COVER("header");
		Rsilo_NextHeader(&rsm);
		CHECK(g.pos == t_off + t_hl + t_blen + 24 && rsm.silo_where == RS_HEAD, "the next record follows body and separator");
	}
	COVER("end");
}
#elif defined(H_GZ)
static int invg(struct rsilo *rs, int64_t ll, int64_t sz)
{
	(void)sz;
	return (rs == &rsm && rsm.magic == RSILO_MAGIC && rsm.silo_fd == 5 && g.open && !g.stop && rsm.silo_bodylen > 0 && ll >= 0 && (uint64_t)ll == g.dlv &&
	    rsm.silo_bodylen == t_blen - ll && g.pos == t_off + ll && rsm.silo_where == RS_BODY);
}
void harness(void)
{
	setup(RS_BODY);
	rsm.silo_bodylen = t_blen;
	off_t r = Rsilo_ReadGZChunk(&rsm, vf_func, privm);
	if (g.stop) CHECK(r == 0, "stopping is reported");
	else {
		CHECK(r == t_blen && (int64_t)g.dlv == t_blen, "the whole compressed body is delivered, and nothing else");
		CHECK(g.pos == t_off + t_blen && rsm.silo_where == RS_CRLF, "the separator follows");
		COVER("all");
	}
	COVER("end");
}
#elif defined(H_CHUNK)
static z_stream vf_zs(void)
{
	z_stream z;
	memset(&z, 0, sizeof z);
	z.avail_in = vf_range(0, PS);
	if (z.avail_in > 0) z.next_in = (void *)(g.rp + g.ru);
	z.total_in = g.in;
	return (z);
}
static int invc(struct rsilo *rs)
{
	return (rs == &rsm && g.open && !g.stop && !g.ended && g.pend == 0 && g.dlv == g.out && g.inits == 1 && !g.ends &&
	    g.rn >= 0 && g.ru >= 0 && g.ru <= g.rn && g.rn <= PS && g.pos == t_off + (int64_t)g.in + g.rn - g.ru && g.in < (1ULL << 62) && g.out < (1ULL << 62));
}
static int invz(z_stream *z) { return (z->avail_in == g.rn - g.ru && z->total_in == g.in && (z->avail_in == 0 || z->next_in == (void *)(g.rp + g.ru))); }
void harness(void)
{
	setup(RS_BODY);
	rsm.silo_bodylen = t_blen;
	uint64_t r = Rsilo_ReadChunk(&rsm, vf_func, privm);
	CHECK(g.dlv == g.out && g.pend == 0, "all inflated data is delivered");
	CHECK(g.ends == 1, "inflate is ended");
	if (g.stop) CHECK(r == 0, "stopping is reported");
	else {
		CHECK(g.ended, "the body is delivered to its end");
		CHECK(r == g.in, "what was consumed is reported");
		CHECK(g.pos == t_off + (int64_t)g.in && rsm.silo_where == RS_CRLF, "the separator follows");
		COVER("all");
	}
	COVER("end");
}
#elif defined(H_CRNL)
static int t_match;
void harness(void)
{
	setup(RS_CRLF);
	Rsilo_SkipCRNL(&rsm);
	CHECK(g.pos == t_off + 24 && rsm.silo_where == RS_HEAD, "the next record follows the separator");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
