/* Contracts of gzip.c */
#include "vf.h"
#define ZLIB_CONST
#include <zlib.h>
#include "vsb.h"

static const uint8_t head[16] = { 0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 2, 3, 12, 0, 'A', 'a', 8, 0 };

static struct {
	/* deflate */
	int init, level, ended, sethead;
	uint64_t total;
	const void *in_p; uint64_t in_left;
	const void *out_p; uint64_t out_n;	/* produced, not yet kept */
	int fin, kept_before, calls;
	/* fd */
	int64_t rd, wr; uint8_t wbuf[8];
	/* stitch */
	int64_t epos; int tail3, comb, stop, fini;
	uint64_t comb_c1, comb_c2; int64_t comb_len;
	int deleted;
} g;

/* --- zlib ---------------------------------------------------------*/
static int vf_deflateInit2(z_stream *zs, int level, int method, int wb, int ml, int st)
{
	CHECK(method == Z_DEFLATED && wb == 16 + 15, "a gzip stream with the largest window");
	CHECK(ml >= 1 && ml <= 9 && st == Z_DEFAULT_STRATEGY, "deflate parameters");
	CHECK(zs->zalloc == NULL && zs->zfree == NULL && zs->opaque == NULL, "zlib's own allocator");
	CHECK(!g.init, "initialised once");
	g.init = 1; g.level = level;
	return (Z_OK);
}
#undef deflateInit2
#define deflateInit2 vf_deflateInit2
static int vf_deflateSetHeader(z_stream *zs, gz_headerp h)
{
	(void)zs;
	CHECK(g.init && g.total == 0, "the header is set before compression starts");
	CHECK(h->text == 0 && h->time == 0 && h->os == 3 && h->name == NULL && h->comment == NULL && h->hcrc == 0, "gzip header fields");
	CHECK(h->extra != NULL && h->extra_len == 12, "extra field with the length of the member");
	CHECK(h->extra[0] == 'A' && h->extra[1] == 'a' && h->extra[2] == 8 && h->extra[3] == 0, "Aa subfield of 8 bytes");
	g.sethead = 1;
	return (Z_OK);
}
#define deflateSetHeader vf_deflateSetHeader
static int vf_deflate(z_stream *zs, int flush)
{
	CHECK(g.init && g.sethead && !g.ended && !g.fin, "deflate on an open stream");
	CHECK(flush == Z_FINISH, "everything is compressed");
	CHECK(zs->next_in == g.in_p && zs->avail_in == g.in_left, "all of the input is compressed, in order");
	CHECK(zs->avail_out > 0, "room for output");
	CHECK(g.out_n == 0, "earlier output was kept");
	uint64_t c = vf_range(0, g.in_left), p = vf_range(1, zs->avail_out);
	int end = NDB();
#ifndef VF_PROOF
	if (g.calls++ == 70) end = 1;
#endif
	ASSUME(end || p == zs->avail_out);
	g.out_p = zs->next_out; g.out_n = p;
	ASSUME(!end || (c == g.in_left && g.total + p >= 24 + 10));
	ASSUME(g.total < 1ULL << 40);
	zs->next_in += c; zs->avail_in -= c; g.in_p = zs->next_in; g.in_left -= c;
	zs->avail_out -= p; zs->next_out += p;
	g.fin = end;
	return (end ? Z_STREAM_END : Z_OK);
}
#define deflate vf_deflate
static int vf_deflateEnd(z_stream *zs) { (void)zs; CHECK(g.init && g.fin && !g.ended, "stream ended once"); g.ended = 1; return (Z_OK); }
#define deflateEnd vf_deflateEnd
static unsigned long vf_crc32(unsigned long c, const Bytef *p, unsigned n) { CHECK(p == NULL && c == 0, "initial CRC"); return (0); }
#define crc32 vf_crc32
static uint32_t t_comb;
static unsigned long vf_combine(unsigned long a, unsigned long b, off_t l)
{
	g.comb++; g.comb_c1 = a; g.comb_c2 = b; g.comb_len = l;
	return (t_comb);
}
#define crc32_combine vf_combine

/* --- vsb ----------------------------------------------------------*/
static struct vsb v_in, v_out;
static uint8_t out_head[24];
static char in_data[1];
#undef VSB_new_auto
static struct vsb *vf_vsbnew(void) { v_out.s_len = 0; return (&v_out); }
#define VSB_new_auto() vf_vsbnew()
#define VSB_len(v) ((v)->s_len)
static void *vf_vsbdata(const struct vsb *v) { return (v == &v_in ? (void *)in_data : (void *)out_head); }
#define VSB_data(v) vf_vsbdata(v)
static int vf_vsbbcat(struct vsb *v, const void *p, ssize_t n)
{
	CHECK(v == &v_out && (g.out_n == 0 || p == g.out_p) && (uint64_t)n == g.out_n, "exactly what deflate produced is kept");
	v->s_len += n; g.total += n; g.out_n = 0;
	return (0);
}
#define VSB_bcat vf_vsbbcat
#define VSB_finish(v) 0
#define VSB_delete(v) (CHECK((v) == &v_in, "input is released"), g.deleted++)

/* --- files --------------------------------------------------------*/
static uint8_t f_head[16];
static ssize_t vf_read(int fd, void *p, size_t n)
{
	CHECK(fd == 5 && n == 16 && g.rd == 0 && g.wr == 0, "the header is read first");
	memcpy(p, f_head, 16);
	g.rd = 1;
	return (16);
}
static ssize_t vf_write(int fd, const void *p, size_t n)
{
	CHECK(fd == 5 && n == 8 && g.rd == 1 && g.wr == 0, "the length goes right after the header");
	memcpy(g.wbuf, p, 8);
	g.wr = 1;
	return (8);
}
#define read vf_read
#define write vf_write

#ifdef H_FEED
static int i_shape(const uint8_t *p, int64_t l), i_state(int64_t l), i_out(int64_t l), i_crc(int64_t l);
static const uint8_t *vf_p(int64_t l);
static int vf_havoc_gs(void);
#define memcpy(d, s, n) vf_memcpy((uint8_t *)(d), (const uint8_t *)(s), n)
static void vf_memcpy(uint8_t *d, const uint8_t *s, size_t n);
#endif
#undef VDEF_H_INCLUDED
#include SRC_gzip
#undef memcpy

static int good(const uint8_t *p)
{
	for (int i = 0; i < 16; i++)
		if (p[i] != head[i] && !(i == 8 && p[i] == 4)) return (0);
	return (1);
}
static uint64_t get64(const uint8_t *p)
{
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--) v = v << 8 | p[i];
	return (v);
}
static uint32_t get32(const uint8_t *p) { return (p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24); }

#if defined(H_READ)
void harness(void)
{
	size_t l = vf_range(0, 64);
	uint8_t *p = vf_bytes(l);
#ifndef VF_LOUD_OK
	ASSUME(l >= 24 && good(p) && (int64_t)get64(p + 16) > 0);
#endif
	int64_t r = Gzip_ReadAa(p, l);
	CHECK(l >= 24 && good(p), "only a complete header of ours is accepted");
	CHECK(r > 0 && (uint64_t)r == get64(p + 16), "the length recorded in the header is what is read");
	COVER("end");
}
#elif defined(H_WRITE)
void harness(void)
{
	int64_t len = ND64();
	for (int i = 0; i < 16; i++) f_head[i] = ND8();
#ifndef VF_LOUD_OK
	ASSUME(good(f_head) && len > 0);
#endif
	Gzip_WriteAa(5, len);
	CHECK(good(f_head), "only a header of ours is modified");
	CHECK(g.wr == 1 && get64(g.wbuf) == (uint64_t)len && len > 0, "the length is recorded in the header");
	COVER("end");
}
#elif defined(H_VSB)
void harness(void)
{
	struct vsb *v = &v_in;
	int level = NDB() ? 0 : 9;
	for (int i = 0; i < 16; i++) out_head[i] = head[i];
	out_head[8] = level == 9 ? 2 : 4;	/* zlib's idea of XFL */
	v_in.s_len = vf_range(0, UINT32_MAX);
	g.in_p = in_data; g.in_left = v_in.s_len;
	Gzip_Vsb(&v, level);
	CHECK(v == &v_out, "the compressed string is handed back");
	CHECK(g.fin && g.ended && g.in_left == 0, "all of it is compressed");
	CHECK(g.level == level, "at the wanted level");
	CHECK((uint64_t)v_out.s_len == g.total && g.out_n == 0, "all output is kept");
	CHECK(get64(out_head + 16) == g.total, "the length in the header is that of the whole member");
	CHECK(good(out_head), "the header is intact");
	CHECK(g.deleted == 1, "the input is released once");
	COVER("end");
}
#elif defined(H_INIT)
void harness(void)
{
	z_stream zs[1];
	Gzip_InitDeflate(zs);
	CHECK(g.init && zs->next_in == NULL && zs->avail_in == 0, "fresh stream");
	CHECK(g.level == 9 || g.level == 0 || g.level == 1, "a level whose header is recognised later");
	Gzip_AddAa(zs);
	CHECK(g.sethead, "length field reserved");
	CHECK(Gzip_crnlcrnl[0] == 0x1f && Gzip_crnlcrnl[1] == 0x8b && sizeof Gzip_crnlcrnl == 24, "record separator");
	COVER("end");
}
#else
static struct gzip_stitch gsm, *gs;
static uint8_t *buf, t[13];
static int64_t pos, t_len, L;
static int loudpos;
static int func(void *priv, const void *p, ssize_t n)
{
	CHECK(priv == &g && !g.stop, "handed to the caller, who is left alone after asking for it");
	CHECK(n >= 0, "sane length");
#if defined(H_FEED)
	if (n > 0) {
		if (p == gs->tailbuf) {
			CHECK(n == 3 && g.epos == L - 13 && !g.tail3, "what precedes the stop bit is passed on, after all else");
			CHECK(pos + t_len == L, "only once the whole member was seen");
			for (int i = 0; i < 3; i++) CHECK(gs->tailbuf[i] == t[i], "unchanged");
			g.tail3 = 1;
		} else {
			CHECK(g.epos >= pos && p == buf + (g.epos - pos), "compressed data is passed on in order");
			CHECK(g.epos + n <= L - 13, "without the tail of the member");
			g.epos += n;
		}
	}
#elif defined(H_FINI)
	CHECK(n == 13 && !g.fini, "one trailer");
	const uint8_t *q = p;
	CHECK(q[0] == 1 && q[1] == 0 && q[2] == 0 && q[3] == 0xff && q[4] == 0xff, "final empty stored block");
	CHECK(get32(q + 5) == (uint32_t)g.comb_c1 && get32(q + 9) == (uint32_t)g.comb_c2, "combined CRC and length");
	g.fini = 1;
#else
	CHECK(n == 10 && !g.fini, "one gzip header");
	const uint8_t *q = p;
	CHECK(q[0] == 0x1f && q[1] == 0x8b && q[2] == 8 && q[3] == 0, "gzip header without optional fields");
	g.fini = 1;
#endif
	int r = NDB();
	if (r) g.stop = 1;
	return (r);
}
#if defined(H_NEW)
void harness(void)
{
	gs = gzip_stitch_new(func, &g);
	CHECK(g.fini == 1 && gs->crc == 0 && gs->l_crc == 0 && gs->state == GZSTATE_OUTSIDE, "stitching starts outside of any member");
	CHECK(gs->retval == g.stop, "the caller's verdict is kept");
	CHECK(gs->func == func && gs->priv == &g, "output goes to the caller");
	off_t m = ND64();
	gzip_stitch_member(gs, m);
	CHECK(gs->memberlen == m, "length of the next member");
	COVER("end");
}
#elif defined(H_FINI)
void harness(void)
{
	ALLOC_OBJ(gs, GZIP_STITCH_MAGIC);
	ASSUME(gs != NULL);
	gs->func = func; gs->priv = &g;
	gs->crc = ND32(); gs->l_crc = ND32();
	gs->retval = NDB();
	int r0 = gs->retval;
	g.comb_c1 = gs->crc; g.comb_c2 = gs->l_crc;
	int r = gzip_stitch_fini(gs);
	CHECK(g.fini == !r0, "the trailer is written unless the caller gave up");
	CHECK(r == (r0 | g.stop), "verdict");
	COVER("end");
}
#else
static void vf_memcpy(uint8_t *d, const uint8_t *s, size_t n)
{
	int64_t o = d - gs->tailbuf, f = s - buf;
	CHECK(o >= 0 && o <= 13 && n <= (size_t)(13 - o), "the tail fits its buffer");
	CHECK(f >= 0 && f + (int64_t)n <= t_len, "and comes from this chunk");
	for (int i = 0; i < 13; i++)
		if (i >= o && i < o + (int64_t)n) {
#ifdef VF_PROOF
			gs->tailbuf[i] = pos + f == L - 13 + o ? t[i] : ND8();
#else
			gs->tailbuf[i] = s[i - o];
#endif
		}
}
static int64_t mlen;
static uint32_t c0, l0;
static int stored;
/* the state when at bytes of the member were seen */
static int inv(int64_t at)
{
	int n = at > L - 13 ? (int)(at - (L - 13)) : 0, ok, m = 1;
	for (int i = 0; i < 13; i++)
		m &= (i >= n) | (gs->tailbuf[i] == t[i]);
	ok = (gs->state == GZSTATE_INSIDE) & ((at < L - 13) | (at == 24));
	ok |= (gs->state == GZSTATE_TAIL) & (at >= L - 13) & m;
	ok &= (gs->gzlen == L - at) & (at >= 24);
	ok = (at == 0 || at == L) ? gs->state == GZSTATE_OUTSIDE : ok;
	return (ok & (gs->magic == GZIP_STITCH_MAGIC) & (gs->func == func) & (gs->priv == &g));
}
static int64_t clamp(int64_t at) { return (at < 24 ? 24 : at < L - 13 ? at : L - 13); }
/* progress within a chunk, l bytes of it left */
static int64_t at(int64_t l) { return (l > 0 ? pos + t_len - l : pos + t_len); }
static int i_shape(const uint8_t *p, int64_t l)
{ return (!g.stop & !gs->retval & (l <= t_len) & (l <= 0 ? 1 : (p == buf + (t_len - l)) & (at(l) < L))); }
static int i_state(int64_t l) { return (inv(at(l))); }
static int i_out(int64_t l) { return (g.epos == clamp(at(l))); }
static int i_crc(int64_t l)
{
	if (at(l) < L)
		return ((g.comb == 0) & (gs->crc == c0) & (gs->l_crc == l0) & !g.tail3);
	return ((g.tail3 == !stored) & (g.comb == 1) & (g.comb_c1 == c0) & (g.comb_c2 == get32(t + 5)) &
	    (g.comb_len == mlen) & (gs->crc == t_comb) & (gs->l_crc == l0 + get32(t + 9)));
}
static const uint8_t *vf_p(int64_t l) { ASSUME(l <= t_len); return (l >= 0 ? buf + (t_len - l) : gs->tailbuf); }
static int vf_havoc_gs(void)
{
	int k = vf_range(0, 2);
	gs->gzlen = ND64(); gs->crc = ND32(); gs->l_crc = ND32();
	for (int i = 0; i < 13; i++) gs->tailbuf[i] = ND8();
	gs->state = k == 0 ? GZSTATE_OUTSIDE : k == 1 ? GZSTATE_INSIDE : GZSTATE_TAIL;
	return (0);
}
void harness(void)
{
	gs = &gsm;
	gs->magic = GZIP_STITCH_MAGIC;
	gs->func = func; gs->priv = &g;
	mlen = vf_range(0, 1ULL << 60);
	c0 = ND32(); l0 = ND32();
	stored = NDB();
	t_comb = ND32();
#ifdef VF_PROOF
	L = vf_range(24 + 13, 1ULL << 50);
#else
	L = 24 + 13 + 1;
#endif
	pos = vf_range(0, L - 1);
	t_len = vf_range(0, L - pos);
#ifndef VF_PROOF
	ASSUME(pos == 0 || pos == 24 || pos == 25 || pos == 30);
	ASSUME(t_len == L - pos || t_len == 0 || t_len == 3 || t_len == 24 || t_len == 27);
	mlen &= 0xff; gs->gzlen = 0;
#endif
	/* a member starts with our header, all of it in one chunk */
	ASSUME(pos == 0 ? t_len >= 24 : pos >= 24);
	/* and ends with an empty final block and the gzip trailer */
	for (int i = 0; i < 13; i++) t[i] = ND8();
	if (stored) { t[0] = 1; t[1] = t[2] = 0; t[3] = t[4] = 0xff; }
	else { t[3] = 3; t[4] = 0; }
	ASSUME(get32(t + 9) == (uint32_t)mlen);
#ifdef VF_PROOF
	/* only the header is looked at, the tail is copied: see vf_memcpy() */
	static uint8_t hbuf[24];
	for (int i = 0; i < 24; i++) hbuf[i] = ND8();
	buf = hbuf;
#else
	buf = vf_bytes(40);
#endif
	if (pos == 0) {
		for (int i = 0; i < 16; i++) if (i != 8) ASSUME(buf[i] == head[i]);
		ASSUME(get64(buf + 16) == (uint64_t)L);
	}
	for (int i = 0; i < 13; i++) {
#ifdef VF_PROOF
		break;
#endif
		int64_t j = L - 13 + i;
		if (j >= pos && j < pos + t_len) ASSUME(buf[j - pos] == t[i]);
	}
	gs->crc = c0; gs->l_crc = l0; gs->memberlen = mlen;
	vf_havoc_gs();
	gs->crc = c0; gs->l_crc = l0; gs->gzlen = L - pos;
	ASSUME(inv(pos));
	g.epos = clamp(pos);
	int r0 = gs->retval = NDB();
	int r = gzip_stitch_feed(gs, buf, t_len);
	CHECK(r == (r0 | g.stop) && gs->retval == r, "the verdict of the caller is returned and kept");
	if (r0) CHECK(!g.stop && !g.tail3 && g.comb == 0, "nothing more once the caller gave up");
	if (r == 0) {
		pos += t_len;
		CHECK(g.epos == clamp(pos), "all compressed data of the chunk is passed on, without header and tail");
		CHECK(inv(pos), "state between chunks");
		if (pos == L) {
			CHECK(g.tail3 == !stored, "all but the stop bit of the tail is passed on");
			CHECK(g.comb == 1 && g.comb_c1 == c0 && g.comb_c2 == get32(t + 5) && g.comb_len == mlen && gs->crc == t_comb, "the CRC of the member is appended to the combined CRC");
			CHECK(gs->l_crc == l0 + get32(t + 9), "the length of the member is added");
			COVER("member done");
		} else
			CHECK(g.comb == 0 && gs->crc == c0 && gs->l_crc == l0 && !g.tail3, "trailer only at the end");
		COVER("fed");
	}
	COVER("end");
}
#endif
#endif
uint64_t vf_nd_log;
