/* Contracts of wsilo.c: space accounting, append, commit, install, create */
#include "vf.h"
static int *vf_errno(void) { static int e; return (&e); }
#undef errno
#define errno (*vf_errno())
#include <zlib.h>
#include "vsb.h"
struct aardwarc; struct header; struct wsilo;

/* silo path names are tags: (number, hold?) */
struct nm { char c[4]; uint32_t no; int hold; };
static struct nm nm_pool[4];
static struct vsb vsb_pool[4];
static struct vsb hdvsb[3];
#define NM(p) ((const struct nm *)(const void *)(p))

static struct {
	int nnames;
	int64_t size;			/* size of the target silo */
	int wr;				/* writev()s of object data */
	int64_t wr_at; uint64_t wr_len;
	int ins; const char *ins_id, *ins_cont; uint32_t ins_fl, ins_si; uint64_t ins_off; int ins_seq;
	int ins2; const char *ins2_id; uint32_t ins2_fl, ins2_si; uint64_t ins2_off; int ins2_seq;
	int seq;
	int lock, lock_made, lock_gone; int lock_gone_seq;
	int fds, fds_closed, fdh_closed;
	int stats;
	int linked, link_seq;
	int unl_hold, unl_seq;
	int closed_hold;
	int pw; uint64_t pw_len; int64_t pw_off; int pw_seq;
	int wcache;
	uint32_t wcache_first;
	int mkfail, openfail, nosize;
	int att; uint32_t att_last; int att_ok; int att_stop;
	int hset;
	int warcinfo;
	int written; int64_t written_len; const void *written_p;
} g;
static int t_exists, t_reg, t_wrok, t_wrok2, t_other;
static int64_t t_maxsize;
static uint32_t t_no;
static char t_map[8];
static int64_t t_hold_len;

#define VSB_len(v)	((v)->s_len)
#define VSB_data(v)	((v)->s_buf)
#define VSB_delete(v)	((void)(v))

static struct vsb *
vf_name(uint32_t no, int hold)
{
	struct vsb *v;
	ASSUME(g.nnames >= 0 && g.nnames < 4);
	v = &vsb_pool[g.nnames];
	nm_pool[g.nnames].no = no;
	nm_pool[g.nnames].hold = hold;
	v->s_buf = (char *)&nm_pool[g.nnames];
	v->s_len = 4;
	g.nnames++;
	return (v);
}
struct vsb *Silo_Filename(const struct aardwarc *aa, unsigned number, int hold)
{ (void)aa; return (vf_name(number, hold)); }

static int vf_stat(const char *p, struct stat *st)
{
	CHECK(!NM(p)->hold || t_no == NM(p)->no, "stat of the silo or its hold");
	if (NM(p)->hold) {
		if (t_other) { memset(st, 0, sizeof *st); return (0); }
		errno = ENOENT; return (-1);
	}
	CHECK(NM(p)->no == t_no, "stat of the target silo");
	if (!t_exists) { errno = ENOENT; return (-1); }
	memset(st, 0, sizeof *st);
	st->st_mode = (t_reg ? S_IFREG : S_IFDIR) | (t_wrok ? 0640 : 0440);
	st->st_size = g.size;
	return (0);
}
static int vf_fstat(int fd, struct stat *st)
{
	CHECK(fd == 8 && g.fds, "fstat of the opened target");
#ifdef IOERR
	if (NDB()) { g.nosize = 1; errno = EIO; return (-1); }
#endif
	memset(st, 0, sizeof *st);
	st->st_mode = S_IFREG | (t_wrok2 ? 0640 : 0440);
	st->st_size = g.size;
	return (0);
}
static int vf_open(const char *p, int fl, ...)
{
	if (NM(p)->hold) {
		CHECK((fl & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL), "the hold is taken exclusively");
		CHECK(NM(p)->no == t_no, "the hold of this silo");
#ifdef H_NEW
		if (NDB()) t_other = 1;		/* somebody else was faster */
#endif
		if (t_other) { errno = EEXIST; return (-1); }
#ifdef H_NEW
		if ((g.openfail = NDB())) { errno = EACCES; return (-1); }
#endif
		CHECK(!g.lock, "hold taken once");
		g.lock = 1; g.lock_made = 1;
		/* until we got the hold, somebody else may have appended */
		uint64_t more = vf_range(0, t_maxsize);
		if ((uint64_t)g.size + more <= (uint64_t)t_maxsize)
			g.size += more;
		return (7);
	}
	CHECK(NM(p)->no == t_no, "open of the target silo");
	CHECK((fl & O_ACCMODE) == O_WRONLY && (fl & O_APPEND), "installed silos are only ever appended to");
	CHECK(!(fl & (O_TRUNC | O_CREAT)), "installed silos are neither truncated nor created by appending");
	CHECK(g.lock, "installed silo opened for writing only while holding it");
#ifdef IOERR
	if (NDB()) { errno = EACCES; return (-1); }
#endif
	g.fds = 1;
	return (8);
}
static off_t vf_lseek(int fd, off_t o, int wh)
{
	CHECK(fd == 8 && o == 0, "position query on the target");
	if (wh == SEEK_END || g.wr) return (g.size);
	return (0);
}
static ssize_t vf_writev(int fd, const struct iovec *iov, int n)
{
	CHECK(fd == 8 && g.lock && g.fds && !g.fds_closed && !g.lock_gone, "data appended to the held, open target");
	CHECK(n == 2 && g.wr == 0, "the object is appended in one write");
	CHECK(!g.nosize, "the room in the silo is known");
	CHECK(iov[0].iov_base == hdvsb[0].s_buf && iov[0].iov_len == (size_t)hdvsb[0].s_len, "the record header comes first, whole");
	CHECK(iov[1].iov_base == (void *)(t_map + (uint64_t)g.pw_off), "followed by the held data after the reserved header space");
	CHECK(iov[1].iov_len == (uint64_t)(t_hold_len - g.pw_off), "all of it, up to the end of the held data");
	g.wr++;
	g.wr_at = g.size;
	g.wr_len = iov[0].iov_len + iov[1].iov_len;
#ifdef IOERR
	if (NDB()) {
		uint64_t s = ND64();
		if (s >= g.wr_len) { g.wr_len = 0; return (-1); }
		g.wr_len = s;
	}
#endif
	g.size += g.wr_len;
	return (g.wr_len);
}
static void *vf_mmap(void *a, size_t l, int pr, int fl, int fd, off_t o)
{
	CHECK(a == NULL && fd == 6 && o == 0 && (pr & PROT_READ), "the held data is mapped from its start");
	CHECK(l >= (uint64_t)t_hold_len, "all of the held data is mapped");
	(void)fl;
#ifdef IOERR
	if (NDB()) return (MAP_FAILED);
#endif
	return (t_map);
}
static int vf_munmap(void *a, size_t l) { (void)a; (void)l; return (0); }
static int vf_close(int fd)
{
	if (fd == 7) { CHECK(!g.fdh_closed, "hold closed once"); g.fdh_closed = 1; }
	else if (fd == 8) { CHECK(!g.fds_closed, "target closed once"); g.fds_closed = 1; }
	else { CHECK(fd == 6 && !g.closed_hold, "own hold closed once"); g.closed_hold = 1; }
	return (0);
}
static int vf_unlink(const char *p)
{
	CHECK(NM(p)->hold, "only hold files are ever removed, never a silo");
#ifdef H_APPEND
	CHECK(NM(p)->no == t_no && g.lock_made && !g.lock_gone, "only the hold we made is removed, once");
	g.lock_gone = 1; g.lock_gone_seq = ++g.seq;
#else
	CHECK(!g.unl_hold, "own hold removed once");
	g.unl_hold = 1; g.unl_seq = ++g.seq;
#endif
	return (0);
}
static int vf_link(const char *a, const char *b)
{
	CHECK(NM(a)->hold && !NM(b)->hold && NM(a)->no == NM(b)->no, "the hold is linked to its silo name");
	CHECK(!g.unl_hold && !g.linked, "the hold is linked before it is removed");
#ifdef IOERR
	if (NDB()) { errno = EEXIST; return (-1); }
#endif
	g.linked = 1; g.link_seq = ++g.seq;
	return (0);
}
static int vf_rename(const char *a, const char *b)
{
	(void)a; (void)b;
	CHECK(0, "rename(2) could replace an existing silo");
	return (0);
}
static ssize_t vf_pwrite(int fd, const void *p, size_t n, off_t o)
{
	CHECK(fd == 6, "header written to the own hold");
	CHECK(p == hdvsb[2].s_buf || p == hdvsb[1].s_buf, "the (uncompressed) header is written");
	CHECK(n == (size_t)(p == hdvsb[2].s_buf ? hdvsb[2].s_len : hdvsb[1].s_len), "the whole header is written");
	g.pw++; g.pw_len = n; g.pw_off = o; g.pw_seq = ++g.seq;
#ifdef IOERR
	if (NDB()) { g.pw_len = 0; return (-1); }
	if (NDB()) { g.pw_len = vf_range(0, n - 1); return (g.pw_len); }
#endif
	return (n);
}
static ssize_t vf_write(int fd, const void *p, size_t n)
{
	CHECK(fd == 6, "data goes to the own hold");
	g.written++; g.written_len = n; g.written_p = p;
#ifdef IOERR
	if (NDB()) { g.written_len = 0; return (-1); }
	if (NDB()) { g.written_len = vf_range(0, n - 1); return (g.written_len); }
#endif
	return (n);
}
static void vf_exit(int c)
{
	(void)c;
#ifdef H_NEW
	CHECK(c != 0 && (g.mkfail || g.openfail), "gives up only when it cannot make the silo, and says so");
#endif
	ASSUME(0);
}
static int vf_getpagesize(void) { return (4096); }
static int vf_fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return (0); }
#define stat(a, b) vf_stat(a, b)
#define fstat vf_fstat
#define open vf_open
#define lseek vf_lseek
#define writev vf_writev
#define mmap vf_mmap
#define munmap vf_munmap
#define close vf_close
#define unlink vf_unlink
#define link vf_link
#define rename vf_rename
#define pwrite vf_pwrite
#define write vf_write
#define exit vf_exit
#define getpagesize vf_getpagesize
#define fprintf vf_fprintf

void IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags, uint32_t silo, uint64_t offset, const char *cont)
{
	(void)aa;
	if (g.ins == 0) {
		g.ins_id = key; g.ins_fl = flags; g.ins_si = silo; g.ins_off = offset; g.ins_cont = cont; g.ins_seq = ++g.seq;
	} else {
		g.ins2_id = key; g.ins2_fl = flags; g.ins2_si = silo; g.ins2_off = offset; g.ins2_seq = ++g.seq;
	}
	g.ins++;
}
#ifdef H_MKDIR
#endif
#if defined(H_NEW)
static int silo_mkparentdir(const char *path);
#endif
#if defined(H_COMMIT)
static int silo_attempt_append(const struct wsilo *sl, uint32_t silono, const struct vsb *v2, const char *id);
void Wsilo_Install(struct wsilo **slp);
#endif
#if defined(H_COMMIT) || defined(H_INSTALL)
static void wsilo_delete(struct wsilo *sl);
#endif
#undef VDEF_H_INCLUDED
#include SRC_wsilo
#undef stat

void AardWARC_ReadCache(struct aardwarc *aa) { aa->cache_first_non_silo = ND32(); aa->cache_first_space_silo = ND32(); }
void AardWARC_WriteCache(const struct aardwarc *aa) { g.wcache++; g.wcache_first = aa->cache_first_non_silo; }

static const char hd_type[] = "resource";
static int hd_segd_first;
#ifndef H_HEADER
const char *Header_Get(const struct header *hd, const char *n)
{ (void)hd; if (!strcmp(n, "WARC-Segment-Number")) return (hd_segd_first ? "1" : "2"); return (hd_type); }
void Header_Set(struct header *hd, const char *n, const char *v, ...)
{
	(void)hd;
	CHECK(n[0] == 'z' && n[1] == 0 && v[0] == '%' && v[1] == 's' && v[2] == 0, "only the padding header is added at commit");
	va_list ap;
	va_start(ap, v);
	const char *s = va_arg(ap, const char *);
	va_end(ap);
#if !defined(VF_PROOF)
	int64_t l = strlen(s);
#else
	int64_t l = vf_range(0, 4096);		/* strlen(s) */
	ASSUME(l == g.written_len - __CPROVER_POINTER_OFFSET(s));
#endif
	hdvsb[2].s_len = hdvsb[1].s_len + 1 + 2 + l + 2;
	g.hset++;
}
struct vsb *Header_Serialize(const struct header *hd, int level)
{
	(void)hd;
	if (level == AA_COMPRESSION) return (&hdvsb[0]);
	CHECK(level == 0, "headers written in place are stored uncompressed");
	return (g.hset ? &hdvsb[2] : &hdvsb[1]);
}
#endif
int Header_Len(const char *n, const char *v, ...) { CHECK(n[0] == 'z' && v[0] == '_', "padding header"); return (6); }
char *Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
{
	(void)aa;
	CHECK(wsl->silo_no == silono && wsl->hold_len == 0, "the silo starts with its warcinfo record");
	CHECK(wsl->aa == aa && wsl->buf_ptr != NULL && wsl->hold_fd == 6 + (g.lock ? 1 : 0), "silo ready for writing");
	g.warcinfo++;
	return (malloc(1));
}

static struct aardwarc aa[1];
static struct wsilo sl[1];
static void setup(void)
{
	memset(aa, 0, sizeof aa);
	memset(sl, 0, sizeof sl);
	aa->magic = AARDWARC_MAGIC;
	sl->magic = WSILO_MAGIC;
	sl->aa = aa;
	t_maxsize = aa->silo_maxsize = vf_range(4096, 1ULL << 50);
	aa->cache_first_non_silo = ND32();
	aa->cache_first_space_silo = ND32();
	sl->hold_len = vf_range(0, aa->silo_maxsize);
	t_hold_len = sl->hold_len;
	sl->hold_fd = 6;
	sl->idx = ND32();
	sl->silo_no = ND32();
	t_exists = NDB(); t_reg = NDB(); t_wrok = NDB(); t_wrok2 = NDB(); t_other = NDB();
	g.size = vf_range(0, t_maxsize);
}

#if defined(H_SPACE)
static uint8_t buf[4];
void harness(void)
{
	void *p;
	ssize_t l, n;
	setup();
	sl->buf_ptr = (char *)buf;
	sl->buf_len = vf_range(1, 1 << 20);
	int64_t h0 = sl->hold_len;
	struct wsilo s0 = *sl;
	Wsilo_GetSpace(sl, &p, &l);
	CHECK(p == buf, "space is the silo's own buffer");
	CHECK(l >= 0 && l <= s0.buf_len, "space offered lies within the buffer");
	CHECK(h0 + l <= t_maxsize, "space offered never takes the silo beyond its maximum size");
	CHECK(l == s0.buf_len || h0 + l == t_maxsize, "all available space is offered");
	n = vf_range(1, 1 << 20);
	ASSUME(n <= l);
	CHECK(Wsilo_Store(sl, n) == 0, "store succeeds");
	CHECK(g.written == 1 && g.written_p == buf && g.written_len == n, "exactly the given bytes are written, once");
	CHECK(sl->hold_len == h0 + n, "the length of the silo counts every byte written");
	CHECK(sl->hold_len <= t_maxsize, "silo never exceeds its maximum size");
	COVER("end");
}
#elif defined(H_APPEND)
void harness(void)
{
	int r;
	int64_t s0;
	setup();
	t_no = vf_range(0, UINT32_MAX - 1);
	ASSUME(sl->silo_no > t_no);
	/* record: [reserved header][gzip'ed body][crnlcrnl] at hd_start */
	sl->hd_start = vf_range(1, 1ULL << 50);
	sl->hd_len = vf_range(1, 1 << 20);
	ASSUME(sl->hd_start + sl->hd_len + 24 < sl->hold_len);
	g.pw_off = sl->hd_start + sl->hd_len;
	hdvsb[0].s_len = vf_range(1, 1 << 20);
	hdvsb[0].s_buf = (char *)&hdvsb[0];
	ASSUME(g.size > 0);
	const char id[2] = "A";
	uint32_t fl = sl->idx;
	uint32_t c0 = aa->cache_first_non_silo;
	r = silo_attempt_append(sl, t_no, &hdvsb[0], id);
	if (r == 1) {
		CHECK(g.wr == 1, "success means the object was appended");
		CHECK((int64_t)g.wr_len == hdvsb[0].s_len + t_hold_len - g.pw_off, "success means all of it was appended");
		CHECK(g.size <= t_maxsize, "appending never takes a silo beyond its maximum size");
		CHECK(g.ins == 1 && g.ins_id == id && g.ins_si == t_no && g.ins_fl == fl && g.ins_cont == NULL, "the object is indexed in the silo it was appended to");
		CHECK((int64_t)g.ins_off == g.wr_at, "the index entry carries the offset the object was appended at");
		CHECK(t_exists && t_reg && t_wrok2 && !t_other, "only existing, writable, unheld silos are appended to");
	} else {
		CHECK(r == 0 || r == -1, "result");
		CHECK(g.wr == 0, "nothing was appended if the attempt failed");
		CHECK(g.ins == 0, "nothing was indexed if the attempt failed");
		CHECK(r == 0 || (t_exists && t_reg && !t_wrok), "the search for space stops only at a write protected silo");
	}
	CHECK(g.lock_made == g.lock_gone, "a hold taken is released");
	CHECK(g.lock_made == g.fdh_closed && g.fds == g.fds_closed, "files are closed");
	CHECK(!t_exists || !g.wcache || aa->cache_first_non_silo == c0 || (t_no == c0 && t_reg && aa->cache_first_non_silo == c0 + 1), "the cache advances past this silo only");
	CHECK(aa->cache_first_non_silo == c0 || (t_exists && t_reg), "the cache advances past existing silos only");
	if (r == 1) COVER("appended");
	COVER("end");
}
#elif defined(H_INSTALL)
static void wsilo_delete(struct wsilo *s)
{
	CHECK(s == sl, "the hold is released");
	CHECK(!g.unl_hold, "own hold removed once");
	g.unl_hold = 1; g.unl_seq = ++g.seq;
}
void harness(void)
{
	struct wsilo *p = sl;
	setup();
	uint32_t no = sl->silo_no, c0 = aa->cache_first_non_silo;
	char wid[2] = "W";
	t_no = no;
	sl->silo_fn = vf_name(no, 0);
	sl->hold_fn = vf_name(no, 1);
	sl->warcinfo_id = wid;
	Wsilo_Install(&p);
	CHECK(p == NULL, "handle taken");
	CHECK(g.linked == 1, "the silo is installed");
	CHECK(g.unl_hold == 1 && g.unl_seq > g.link_seq, "the hold is released after the silo is installed");
	CHECK(g.ins == 1 && g.ins_id == wid && g.ins_fl == IDX_F_WARCINFO && g.ins_si == no && g.ins_off == 0 && g.ins_cont == NULL, "the silo's warcinfo record is indexed");
	CHECK(g.ins_seq > g.link_seq, "the index refers to a silo only once it is installed");
	CHECK(aa->cache_first_non_silo == (c0 == no ? c0 + 1 : c0), "the cache advances past the installed silo only");
	COVER("end");
}
#elif defined(H_COMMIT)
static int silo_attempt_append(const struct wsilo *s, uint32_t silono, const struct vsb *v2, const char *id)
{
	(void)id;
	CHECK(s == sl && silono < sl->silo_no, "appending is attempted on lower numbered silos only");
	CHECK(v2 == &hdvsb[0], "appended with the current header, compressed");
	CHECK(!g.att_ok && !g.att_stop, "no attempt after one succeeded");
	g.att++;
	int r = (int)vf_range(0, 2) - 1;
	if (r == 1) {
		g.att_ok = 1;
		g.ins = 1; g.ins_id = id;
	}
	if (r == -1) g.att_stop = 1;
	return (r);
}
static void wsilo_delete(struct wsilo *s)
{
	CHECK(s == sl && !g.unl_hold, "the hold is released once");
	g.unl_hold = 1; g.unl_seq = ++g.seq;
}
void Wsilo_Install(struct wsilo **slp)
{
	CHECK(*slp == sl && !g.linked, "installed once");
	CHECK(g.pw == 1, "the header is in place before the silo is installed");
	*slp = NULL;
	g.linked = 1; g.link_seq = ++g.seq;
}
void harness(void)
{
	struct wsilo *p = sl;
	const char id[2] = "A", rid[2] = "R";
	int segd = NDB(), hasr = NDB();
	setup();
#ifndef VF_PROOF
	ASSUME(sl->silo_no <= 4 || aa->cache_first_space_silo + 4ULL >= sl->silo_no);
#endif
	hd_segd_first = NDB();
	ASSUME(segd || !hasr);
	sl->hd = (struct header *)&hdvsb[0];
	sl->hd_start = vf_range(1, 1ULL << 50);
	sl->hd_len = vf_range(1, 1 << 20);
	ASSUME(sl->hd_start + sl->hd_len + 24 < sl->hold_len);
	sl->idx &= ~(IDX_F_SEGMENTED | IDX_F_FIRSTSEG | IDX_F_LASTSEG);
	for (int i = 0; i < 3; i++) hdvsb[i].s_buf = (char *)&hdvsb[i];
	hdvsb[0].s_len = vf_range(1, 1 << 20);
	/* the space reserved when the header was first written suffices */
	#ifdef VF_PROOF
	int slack = vf_range(0, 4096);
#else
	int slack = vf_range(0, 12);
#endif
	ASSUME(slack == 0 || slack >= 5);
	hdvsb[1].s_len = sl->hd_len - slack;
	ASSUME(hdvsb[1].s_len > 0);
	g.written_len = slack - 1;
	uint32_t fl0 = sl->idx, no = sl->silo_no;
	int64_t hs = sl->hd_start, hl = sl->hd_len;
	Wsilo_Commit(&p, segd, id, hasr ? rid : NULL);
	CHECK(p == NULL, "handle taken");
	CHECK(g.ins == 1 && g.ins_id == id, "the object is indexed exactly once");
	CHECK(g.att_ok + g.linked == 1, "the object is either appended to a silo or installed as one, not both");
	if (g.att_ok) {
		CHECK(!segd && no > 0, "only unsegmented objects are appended");
		CHECK(g.unl_hold == 1, "the hold is released after appending");
		CHECK(g.pw == 0, "no header written");
		COVER("appended");
	} else {
		CHECK(!g.unl_hold, "the hold is not dropped");
		CHECK(g.pw == 1 && (int64_t)g.pw_len == hl && g.pw_off == hs, "the final header fills exactly the space reserved for it");
		CHECK(g.ins_si == no && g.ins_off == (uint64_t)hs, "indexed in the new silo at the record's offset");
		CHECK(g.ins_cont == (hasr ? rid : NULL), "index entry links to the next segment");
		CHECK(g.ins_fl == (fl0 | (segd ? IDX_F_SEGMENTED | (hd_segd_first ? IDX_F_FIRSTSEG : 0) | (hasr ? 0 : IDX_F_LASTSEG) : 0)), "segment flags");
		CHECK(g.ins_seq > g.link_seq && g.link_seq > 0, "the index refers to the object only once its silo is installed");
		COVER("installed");
	}
	COVER("end");
}
#elif defined(H_DELETE)
void harness(void)
{
	struct wsilo *p = malloc(sizeof *p);
	ASSUME(p != NULL);
	setup();
	*p = *sl;
	t_no = p->silo_no;
	p->silo_fn = vf_name(p->silo_no, 0);
	p->hold_fn = vf_name(p->silo_no, 1);
	Wsilo_Abandon(&p);
	CHECK(p == NULL && g.unl_hold == 1 && g.closed_hold == 1, "abandoning removes and closes the hold");
	CHECK(!g.linked && !g.ins && !g.wr && !g.pw && !g.written, "abandoning leaves no trace in the archive");
	COVER("end");
}
#elif defined(H_NEW)
static int silo_mkparentdir(const char *path)
{
	CHECK(!NM(path)->hold && NM(path)->no == t_no, "directory of the silo");
	return (g.mkfail = NDB() ? -1 : 0);
}
void harness(void)
{
	struct wsilo *p;
	setup();
	t_no = ND32();
	int busy = t_other, ex = t_exists;
	p = Wsilo_New(aa, t_no);
	CHECK(!g.mkfail && !g.openfail, "a store which cannot make the directory of a silo does not go on");
	CHECK(!ex || p == NULL, "an existing silo is never reopened for writing from scratch");
	CHECK(!busy || p == NULL, "a silo held by somebody else is not used");
	CHECK((p != NULL) == g.lock_made, "a silo is handed out exactly if its hold was taken");
	if (p != NULL) {
		CHECK(p->silo_no == t_no && p->hold_len == 0 && p->hd_start == 0, "fresh silo");
		CHECK(NM(p->silo_fn->s_buf)->no == t_no && !NM(p->silo_fn->s_buf)->hold, "silo name");
		CHECK(NM(p->hold_fn->s_buf)->no == t_no && NM(p->hold_fn->s_buf)->hold, "hold name");
		CHECK(g.warcinfo == 1, "each silo starts with one warcinfo record");
		COVER("new");
	}
	CHECK(!g.lock_gone && !g.unl_hold, "nothing removed");
	COVER("end");
}
#elif defined(H_NEXT)
#endif
uint64_t vf_nd_log;
