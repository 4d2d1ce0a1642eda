/* Contracts of proto.c: a message which is sent is received */
#include "vf.h"
#include "vsb.h"
static struct { uint64_t n, m; int err, nw; uint8_t hdr[8]; const void *body; size_t blen; } g;
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
static ssize_t vf_writev(int fd, const struct iovec *iov, int n);
static ssize_t vf_read(int fd, void *b, size_t n);
#define writev vf_writev
#define read vf_read
#undef VDEF_H_INCLUDED
#include SRC_proto
#undef read
static uint8_t bdy[4]; static size_t t_len; static uint64_t t_eof;
static ssize_t vf_writev(int fd, const struct iovec *iov, int n)
{
	CHECK(fd == 4 && !g.nw, "one message in one piece");
	CHECK(n >= 1 && n <= 2 && iov[0].iov_len >= 1 && iov[0].iov_len <= 5, "a message head");
	for (unsigned i = 0; i < 5; i++) if (i < iov[0].iov_len) g.hdr[i] = ((const uint8_t *)iov[0].iov_base)[i];
	g.m = iov[0].iov_len;
	if (n == 2) { g.body = iov[1].iov_base; g.blen = iov[1].iov_len; }
	g.nw = 1;
	return (iov[0].iov_len + (n == 2 ? iov[1].iov_len : 0));
}
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 5 && n >= 1, "reads from the peer");
	if (g.n >= t_eof) { if (NDB()) return (0); return (-1); }
	CHECK(g.n + n <= g.m, "reads no further than the head of the message");
	uint64_t k = vf_range(1, 8);
	ASSUME(k <= n && k <= g.m - g.n);
	for (unsigned i = 0; i < 5; i++) if (i < k) ((uint8_t *)b)[i] = g.hdr[g.n + i];
	g.n += k;
	return (k);
}
void harness(void)
{
	unsigned cmd = vf_range(0, 7), c2 = 99, l2 = 99;
	t_len = vf_range(0, UINT32_MAX);
	proto_out(4, cmd, t_len ? bdy : NULL, t_len);
	CHECK(g.nw == 1, "sent");
	CHECK(t_len == 0 ? g.blen == 0 : g.body == bdy && g.blen == t_len, "the whole body follows the head");
	t_eof = vf_range(0, 6);
	int r = proto_in(5, &c2, &l2);
	if (t_eof >= g.m) {
		CHECK(r == 1 && c2 == cmd && l2 == t_len && g.n == g.m, "command and length arrive as sent, the body is next");
		COVER("arrived");
	} else
		CHECK(r == -1 || (r == 0 && t_eof == 0), "a truncated message is told from the end");
	COVER("end");
}
uint64_t vf_nd_log;
