/* Contracts of main_stevedore.c: what arrives is handed to its job, complete
 * and in order, and the answers go back */
#include "vf.h"
#include <poll.h>
#include <sys/wait.h>
#include "vsb.h"
static struct { uint64_t rd, wr, last, pos, out, n, frees; int n0, n1, lost, del, ctl, ctlv, closed, sf, ss, sm, started, cnt, ended, dup, forked, exited, wk; uint8_t *base; int phase; } g;
static int t_cmd; static uint64_t t_size; static uint8_t t_v;
struct filter; struct job; struct vlu;
static struct filter *vf_fp(void), *vf_q0(void), *vf_q1(void);
static int invf(unsigned j), invd(unsigned size), invm(unsigned j, const uint8_t *buf), invx(unsigned size), invq0(void), invq1(unsigned n);
static unsigned vf_n(void), vf_j(const uint8_t *buf);
typedef int vf_line_f(void *, const char *);
typedef int vf_end_f(struct job *);
static ssize_t vf_read(int fd, void *b, size_t n), vf_write(int fd, const void *b, size_t n);
static int vf_close(int fd);
static void vf_exit(int c);
static void *vf_calloc(size_t n, size_t l);
static void vf_free(void *p);
static pid_t vf_fork(void), vf_wait4(pid_t p, int *st, int o, void *ru);
static int vf_pipe(int *p), vf_dup2(int a, int b);
#define read vf_read
#define write vf_write
#define close vf_close
#define exit vf_exit
#define calloc vf_calloc
#define free vf_free
#define fork vf_fork
#define wait4 vf_wait4
#define pipe vf_pipe
#define dup2 vf_dup2
#undef strdup
#define strdup(s) ((char *)(uintptr_t)(s))
#define fprintf(...) ((void)0)
#ifndef H_START
static struct job *job_start(vf_line_f *line, vf_end_f *eof, ...);
#endif
#ifdef H_INPUT
static void start_filter(void), start_store(void), start_meta(char *ref);
#endif
#ifdef H_LINES
static void start_filter(void);
#ifndef H_END
static void job_end(struct job *jp);
#endif
#endif
#undef VDEF_H_INCLUDED
#include SRC_main_stevedore
#undef read
#undef write
#undef close
#undef free
static struct aardwarc aam;
static struct job jm, jm2;
static struct filter fm[3];
void usage(const char *a, const char *b) { (void)a; (void)b; }
#ifdef VF_NATIVE
#define RW_OK(b, n) 1
#else
#define RW_OK(b, n) __CPROVER_rw_ok(b, n)
#endif
#ifdef H_INPUT
static uintptr_t t_ev; static int t_fj, t_sj, t_mj;
int proto_in(int fd, unsigned *cmd, unsigned *size)
{
	CHECK(fd == 0 && !g.phase, "reads a message");
	g.phase = 1;
	if (t_cmd < 0) return (t_cmd == -1 ? 0 : -1);
	*cmd = t_cmd; *size = t_size;
	return (1);
}
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 0 && g.phase == 1 && !g.lost, "reads the message");
	CHECK(n > 0 && n <= t_size - g.rd, "no byte of the next message");
	CHECK(g.wr == 0 || g.wr == g.rd, "what was read has been handed on");
#ifndef VF_PROOF
	ASSUME(++g.cnt <= 2);
#endif
	int64_t r = (int64_t)vf_range(0, n + 1) - 1;
	if (r <= 0) { g.lost = 1; return (r); }
	if (t_cmd == PROTO_FILTER) CHECK(b == fm[1].id + g.rd && g.rd + n <= sizeof fm[1].id, "into the query, where it goes on");
	else if (t_cmd == PROTO_META && !t_mj) {
		if (g.rd == 0) g.base = b;
		CHECK(b == g.base + g.rd && RW_OK(b, n), "into the buffer, where it goes on");
	} else {
		CHECK(RW_OK(b, n), "into the buffer");
		g.base = b;
		*(uint8_t *)b = t_v;
	}
	g.rd += r;
	g.last = r;
	return (r);
}
static ssize_t vf_write(int fd, const void *b, size_t n)
{
	CHECK(t_cmd == PROTO_DATA ? fd == 7 && store_job == &jm : t_cmd == PROTO_META && t_mj && fd == 9, "to the job of the object");
	CHECK(n == g.last && g.wr + n == g.rd, "exactly what was read, in order");
	CHECK(b == g.base && *(const uint8_t *)b == t_v, "the bytes of the object");
	g.wr += n;
	return (n);
}
static int vf_close(int fd)
{
	CHECK(!g.closed && t_size == 0 && fd == (t_cmd == PROTO_DATA ? 7 : 9), "the end of the object is told to its job");
	g.closed = 1;
	return (0);
}
static void vf_exit(int c) { CHECK(c != 0 && (g.lost || t_cmd == -2), "gives up only when the connection is lost"); 
#if !defined(H_META) || H_META == 1
	COVER("exit");
#endif
	ASSUME(0);
}
void proto_del_ev(uintptr_t *p) { CHECK(p == &stdin_ev && (t_cmd == -1 || g.lost), "stops to listen when the connection ends"); g.del = 1; *p = 0; }
void proto_ctl_ev(uintptr_t e, int en) { CHECK(e == t_ev && !g.ctl, "input"); g.ctl = 1; g.ctlv = en; }
void proto_send_msg(int fd, const char *f, ...) { (void)f; CHECK(fd == 1 && t_cmd > 3, "only what is unknown is refused"); }
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof(struct filter) && !g.n, "one query"); g.n = 1; memset(&fm[1], 0, sizeof fm[1]); return (&fm[1]); }
static void vf_free(void *p) { CHECK(p == &fm[1] && g.lost, "freed"); g.frees++; }
static int queued(void) { return (fm[0].list.vtqe_next == &fm[1] && fm[1].list.vtqe_next == NULL && filter_queue.vtqh_last == &fm[1].list.vtqe_next && fm[1].list.vtqe_prev == &fm[0].list.vtqe_next); }
static void start_filter(void) { CHECK(!t_fj && filter_job == NULL && queued() && !g.sf, "a filter is started when none is running"); g.sf = 1; }
static void start_store(void) { CHECK(!t_sj && !g.ss && g.rd == 0, "a store is started for a new object"); g.ss = 1; store_job = &jm; }
static void start_meta(char *ref)
{
	CHECK(!t_mj && !g.sm && g.rd == t_size, "a store is started for new metadata");
	if (t_size > 0) CHECK((uint8_t *)ref == g.base, "with the reference that was sent");
	CHECK(ref[t_size] == 0, "ended");
	g.sm = 1; meta_job = &jm2;
}
#ifdef VF_PROOF
static struct filter *vf_fp(void) { return (&fm[1]); }
static unsigned vf_j(const uint8_t *buf) { g.rd = vf_range(0, t_size); g.base = (uint8_t *)(uintptr_t)buf; return (g.rd); }
static int com(void) { return (!g.lost && g.phase == 1 && !g.del && !g.closed && !g.ctl && !g.frees && !g.sf && !g.sm && g.n == (t_cmd == PROTO_FILTER) && g.ss == (t_cmd == PROTO_DATA && !t_sj) && g.rd <= t_size); }
static int invf(unsigned j) { return (com() && g.rd == j && j <= t_size && g.wr == 0); }
static int invd(unsigned size) { return (com() && g.rd == g.wr && size == t_size - g.rd && g.rd <= t_size && !g.closed && !g.ctl); }
static int invm(unsigned j, const uint8_t *buf) { return (com() && g.rd == j && j <= t_size && g.wr == 0 && !g.sm && (g.rd == 0 || g.base == buf)); }
static int invx(unsigned size) { return (com() && size == t_size - g.rd && g.rd <= t_size && g.wr == 0); }
#endif
void harness(void)
{
	g_aa = &aam; aam.magic = AARDWARC_MAGIC;
	aam.id_size = vf_range(16, 64);
	t_ev = stdin_ev = vf_range(1, 1000);
	t_cmd = (int)vf_range(0, 9) - 2;
	t_fj = NDB(); t_sj = NDB();
#ifdef H_META
	t_cmd = PROTO_META; t_mj = H_META;
#else
	t_mj = 1;
	ASSUME(t_cmd != PROTO_META);
#endif
	ASSUME(t_cmd != PROTO_MSG);
	t_size = vf_range(0, UINT32_MAX);
	if (t_cmd == PROTO_FILTER) ASSUME(t_size == 0 || (t_size >= aam.id_size && t_size <= 64));
	if (t_cmd == PROTO_META && !t_mj) ASSUME(t_size <= 1024);
	if (t_cmd == PROTO_DATA && t_size == 0) ASSUME(t_sj);
#ifndef VF_PROOF
	ASSUME(t_size <= 64);
#endif
	t_v = ND8();
	jm.fd_to = 7; jm.magic = JOB_MAGIC; jm2.fd_to = 9; jm2.magic = JOB_MAGIC;
	filter_job = t_fj ? &jm : NULL;
	store_job = t_sj ? &jm : NULL;
	meta_job = t_mj ? &jm2 : NULL;
	VTAILQ_INIT(&filter_queue);
	VTAILQ_INSERT_TAIL(&filter_queue, &fm[0], list);	/* the last one of those which wait */
	fm[0].magic = FILTER_MAGIC;
	input(0, NULL, 0);
	CHECK(t_cmd >= 0 || g.del, "the end of the connection");
	if (t_cmd >= 0) {
		CHECK(g.lost || g.rd == t_size, "the whole message is read");
		CHECK(g.del == (g.lost && t_cmd <= 3), "listens on unless the connection is lost");
		CHECK(g.n == (t_cmd == PROTO_FILTER), "queries");
		if (t_cmd == PROTO_FILTER && !g.lost) {
			CHECK(queued() && fm[1].magic == FILTER_MAGIC && !g.frees, "the query is queued behind the others");
			if (t_size) CHECK(fm[1].id[t_size] == '\n' && fm[1].id[t_size + 1] == 0, "as a line with the identifier");
			else CHECK(fm[1].id[0] == 0, "the end of the queries is marked");
			CHECK(g.sf == !t_fj, "it is answered");
		} else
			CHECK(fm[0].list.vtqe_next == NULL && filter_queue.vtqh_last == &fm[0].list.vtqe_next && !g.sf, "nothing incomplete is queued");
		if (t_cmd == PROTO_DATA) {
			CHECK(g.wr == t_size, "all of it is stored");
			CHECK(g.ss == (!t_sj && t_size > 0), "a store for each object");
			CHECK(g.closed == (t_size == 0), "until the end is sent");
			CHECK(store_job == (t_size ? &jm : NULL) && (t_size || jm.fd_to == -1), "one object after the other");
			CHECK(g.ctl == (t_size == 0) && (!g.ctl || g.ctlv == 0), "waits until the object is stored");
		}
		if (t_cmd == PROTO_META && !g.lost) {
			CHECK(g.sm == !t_mj, "a store for each");
			if (t_mj) {
				CHECK(g.wr == t_size && g.closed == (t_size == 0), "all of it is stored");
				CHECK(meta_job == (t_size ? &jm2 : NULL) && (t_size || jm2.fd_to == -1), "until the end is sent");
			}
		}
		CHECK(t_cmd == PROTO_DATA || (store_job == (t_sj ? &jm : NULL) && !g.ss), "objects go on");
		CHECK(t_cmd == PROTO_META || (meta_job == (t_mj ? &jm2 : NULL) && !g.sm), "metadata goes on");
		if (!g.lost) COVER("message");
	}
	COVER("end");
}
static struct job *job_start(vf_line_f *line, vf_end_f *eof, ...) { (void)line; (void)eof; CHECK(0, "no other job"); return (NULL); }
static pid_t vf_fork(void) { return (-1); }
static pid_t vf_wait4(pid_t p, int *st, int o, void *ru) { (void)p; (void)st; (void)o; (void)ru; CHECK(0, "does not wait"); return (-1); }
static int vf_pipe(int *p) { (void)p; return (-1); }
static int vf_dup2(int a, int b) { (void)a; (void)b; return (-1); }
void proto_out(int fd, unsigned c, const void *p, size_t n) { (void)fd; (void)c; (void)p; (void)n; CHECK(0, "sends nothing"); }
#elif defined(H_FILTER)
/* the queue: fm[0] is the one at g.pos, fm[1] the one after it */
#ifdef VF_PROOF
#define ML 65
#else
#define ML 4
#endif
static uint64_t t_n;
static int t_len[3];
static void mkq(int w)
{
	memset(&fm[w], 0, sizeof fm[w]);
	fm[w].magic = FILTER_MAGIC;
	t_len[w] = NDB() ? 0 : vf_range(2, ML);
	if (t_len[w]) {
		/* the text of an identifier, ended by a line feed */
		for (int i = 0; i < ML; i++) if (i < t_len[w]) fm[w].id[i] = i == t_len[w] - 1 ? '\n' : 'a';
	}
	VTAILQ_INSERT_TAIL(&filter_queue, &fm[w], list);
}
static void mkqueue(void)
{
	VTAILQ_INIT(&filter_queue);
	g.frees = 0;
	if (g.pos < t_n) mkq(0);
	if (g.pos + 1 < t_n) mkq(1);
	g.last = g.pos;
}
/* the first of the queue is the one which comes next, and it is the first
 * of the two, or one has been taken out: then the second */
static int qok(void)
{
	struct filter *f = VTAILQ_FIRST(&filter_queue);
	if (g.pos == g.last) return (g.frees == 0 && f == (g.pos < t_n ? &fm[0] : NULL));
	return (g.pos == g.last + 1 && g.frees == 1 && f == (g.pos < t_n ? &fm[1] : NULL) && filter_queue.vtqh_last == (f ? &fm[1].list.vtqe_next : &filter_queue.vtqh_first));
}
#ifdef VF_PROOF
static struct filter *vf_q0(void) { g.pos = vf_range(0, t_n); mkqueue(); g.out = g.pos; return (NULL); }
static struct filter *vf_q1(void) { g.pos = vf_range(0, t_n); mkqueue(); return (NULL); }
static unsigned vf_n(void) { g.wr = vf_range(0, 40959); return (g.wr); }
static int invq0(void) { return (qok() && g.out == g.pos && !g.started && !g.closed && filter_job == NULL && g.wr == 0); }
static int invq1(unsigned n) { return (qok() && g.started == 1 && !g.closed && filter_job == &jm && jm.fd_to == 7 && n == g.wr && n < 40960 && (n > 0 || (g.pos < t_n && VTAILQ_FIRST(&filter_queue)->id[0] != 0))); }
#endif
void proto_out(int fd, unsigned c, const void *p, size_t n)
{
	(void)p;
	CHECK(fd == 1 && c == PROTO_FILTER && n == 0 && !g.started, "the end of the queries is answered");
	CHECK(g.out + 1 == g.pos, "after all before it");
	g.out++;
}
static void vf_free(void *p)
{
#ifdef VF_PROOF
	CHECK(p == &fm[0] && g.frees == 0, "each query is taken out once");
	g.frees = 1;
	g.pos++;
	if (g.started) CHECK(t_len[0] && g.phase == 1, "after it was asked");
	else CHECK(!t_len[0], "only ends are answered without asking");
	g.phase = 0;
#else
	CHECK(p == &fm[g.pos], "each query is taken out once, in order");
	CHECK(g.started ? t_len[g.pos] && g.phase == 1 : !t_len[g.pos], "after it was asked");
	g.pos++;
	g.phase = 0;
#endif
}
static ssize_t vf_write(int fd, const void *b, size_t n)
{
#ifdef VF_PROOF
	int w = 0;
#else
	int w = g.pos;
#endif
	CHECK(fd == 7 && g.started && !g.closed && g.phase == 0, "asks the filter");
	CHECK(b == fm[w].id && n == (size_t)t_len[w], "the query, a line");
	g.phase = 1;
	g.wr++;
	return (n);
}
static int vf_close(int fd) { CHECK(fd == 7 && g.started && !g.closed, "the end of the queries is told to the filter"); g.closed = 1; return (0); }
static struct job *job_start(vf_line_f *line, vf_end_f *eof, ...)
{
	va_list ap;
	CHECK(line == filter_line && eof == filter_end && !g.started, "one filter at a time");
	va_start(ap, eof);
	const char *a = va_arg(ap, const char *), *b = va_arg(ap, const char *), *c = va_arg(ap, const char *);
	va_end(ap);
	CHECK(a != NULL && !strcmp(a, "filter") && b != NULL && !strcmp(b, "-") && c == NULL, "which reads the queries");
	g.started = 1;
	jm.magic = JOB_MAGIC; jm.fd_to = 7; jm.filter_skip = 0;
	return (&jm);
}
void harness(void)
{
	g_aa = &aam;
#ifdef VF_PROOF
	t_n = vf_range(0, 1ULL << 40);
	mkqueue();
#else
	t_n = vf_range(0, 2);
	VTAILQ_INIT(&filter_queue);
	for (int w = 0; w < 2; w++) if ((uint64_t)w < t_n) mkq(w);
#endif
	start_filter();
	if (g.started) {
		CHECK(filter_job == &jm && g.closed && jm.fd_to == -1, "the filter is told all");
		CHECK(g.wr > 0 && jm.filter_skip == g.wr && g.wr <= 40960, "it is remembered how many are asked");
		struct filter *f = VTAILQ_FIRST(&filter_queue);
		CHECK(f == NULL || f->id[0] == 0 || g.wr == 40960, "up to the next end");
		CHECK((f == NULL) == (g.pos == t_n), "the others wait");
		COVER("started");
	} else
		CHECK(VTAILQ_EMPTY(&filter_queue) && g.pos == t_n && g.out == t_n && filter_job == NULL, "all is answered");
	COVER("end");
}
static ssize_t vf_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static void vf_exit(int c) { (void)c; ASSUME(0); }
static void *vf_calloc(size_t n, size_t l) { (void)n; (void)l; return (NULL); }
static pid_t vf_fork(void) { return (-1); }
static pid_t vf_wait4(pid_t p, int *st, int o, void *ru) { (void)p; (void)st; (void)o; (void)ru; return (-1); }
static int vf_pipe(int *p) { (void)p; return (-1); }
static int vf_dup2(int a, int b) { (void)a; (void)b; return (-1); }
int proto_in(int fd, unsigned *cmd, unsigned *size) { (void)fd; (void)cmd; (void)size; return (0); }
void proto_del_ev(uintptr_t *p) { (void)p; }
void proto_ctl_ev(uintptr_t e, int en) { (void)e; (void)en; }
void proto_send_msg(int fd, const char *f, ...) { (void)fd; (void)f; }
#elif defined(H_LINES)
static char lm[8]; static int t_op; static unsigned t_skip; static int t_st, t_q;
void proto_out(int fd, unsigned c, const void *p, size_t n)
{
	CHECK(fd == 1 && !g.out, "one answer");
	g.out++;
	switch (t_op) {
	case 0: CHECK(c == PROTO_FILTER && p == lm && n == aam.id_size, "the identifier which is missing"); break;
	case 1: CHECK(c == PROTO_FILTER && n == 4 && t_skip > 0, "how many are not missing");
		CHECK(be32dec(p) == t_skip, "all which were asked"); CHECK(!g.ended, "before what comes next"); break;
	case 2: CHECK(c == PROTO_DATA && p == lm && n == t_size, "the identifier it was stored as"); break;
	case 3: CHECK(c == PROTO_META && p == lm && n == t_size, "the identifier it was stored as"); break;
	default: CHECK(0, "no answer");
	}
}
void proto_ctl_ev(uintptr_t e, int en) { CHECK((t_op == 2 || t_op == 3) && e == 77 && en == 1 && g.out == 1, "listens for the next object"); g.ctl++; }
static void start_filter(void) { CHECK(t_op == 1 && t_q && filter_job == NULL && g.ended && !g.sf, "the queries which wait are asked next"); g.sf = 1; }
#ifdef H_END
static pid_t vf_wait4(pid_t p, int *st, int o, void *ru) { (void)o; (void)ru; CHECK(p == 42 && !g.cnt, "waits for the job"); g.cnt = 1; *st = t_st; return (p); }
static int t_vd, t_fr;
void VLU_Destroy(struct vlu **l) { CHECK(*l == (struct vlu *)lm && !t_vd, "freed"); t_vd = 1; *l = NULL; }
static void vf_free(void *p) { CHECK(p == &jm && t_vd && g.cnt, "freed"); t_fr++; }
#else
static pid_t vf_wait4(pid_t p, int *st, int o, void *ru) { (void)p; (void)st; (void)o; (void)ru; return (-1); }
static void job_end(struct job *jp) { CHECK(jp == &jm && !g.ended, "the job which ends"); g.ended = 1; }
static void vf_free(void *p) { (void)p; CHECK(0, "keeps it"); }
#endif
static struct job *job_start(vf_line_f *line, vf_end_f *eof, ...)
{
	va_list ap;
	CHECK(t_op == 4 ? line == store_line && eof == store_end : t_op == 5 && line == meta_line && eof == meta_end, "a store");
	CHECK(!g.started, "one");
	g.started = 1;
	va_start(ap, eof);
	static const char * const wants[] = { "store", "-", NULL }, * const wantm[] = { "store", "-t", "metadata", "-m", STOW_META, "-r", lm, "-", NULL };
	for (int i = 0; i < 9; i++) {
		const char *a = va_arg(ap, const char *), *w = t_op == 4 ? wants[i] : wantm[i];
		if (w == NULL) { CHECK(a == NULL, "no other arguments"); break; }
		CHECK(a != NULL && (w == lm ? a == lm : !strcmp(a, w)), "its arguments");
	}
	va_end(ap);
	if (t_op == 5) CHECK(strlen(lm) == (t_size > aam.id_size ? aam.id_size : t_size), "the reference, no longer than identifiers are");
	return (&jm);
}
void harness(void)
{
	g_aa = &aam; aam.magic = AARDWARC_MAGIC; aam.id_size = vf_range(2, 5);
	stdin_ev = 77;
	jm.magic = JOB_MAGIC; jm.fd_to = -1; jm.pid = 42; jm.vlu = (struct vlu *)lm;
	t_skip = jm.filter_skip = ND32();
	t_size = vf_range(0, 7);
	for (unsigned i = 0; i < 7; i++) if (i < t_size) lm[i] = 'a' + i;
	VTAILQ_INIT(&filter_queue);
	t_q = NDB();
	if (t_q) VTAILQ_INSERT_TAIL(&filter_queue, &fm[0], list);
#ifdef H_END
	t_op = 6;
	t_st = NDI();
	job_end(&jm);
	CHECK(t_st == 0 && g.cnt && t_fr == 1, "goes on only if the job succeeded");
#else
	t_op = vf_range(0, 5);
	if (t_op == 0) {
		static char l16[65];
		(void)l16;
		CHECK(1, "");
	}
	switch (t_op) {
	case 0: break;
	case 1: filter_job = &jm; filter_end(&jm); CHECK(g.ended && g.out == (t_skip != 0) && g.sf == t_q, "all queries are answered"); break;
	case 2: if (NDB()) { store_line(&jm, lm); CHECK(g.out == 1 && g.ctl == 1, "answered"); } else { store_end(&jm); CHECK(g.ended && !g.out, "ended"); } break;
	case 3: if (NDB()) { meta_line(&jm, lm); CHECK(g.out == 1 && g.ctl == 1, "answered"); } else { meta_end(&jm); CHECK(g.ended && !g.out, "ended"); } break;
	case 4: start_store(); CHECK(store_job == &jm && g.started && meta_job == NULL && filter_job == NULL, "started"); break;
	default: start_meta(lm); CHECK(meta_job == &jm && g.started && store_job == NULL && filter_job == NULL, "started"); break;
	}
#endif
	COVER("end");
}
static ssize_t vf_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static ssize_t vf_write(int fd, const void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static int vf_close(int fd) { (void)fd; return (-1); }
static void vf_exit(int c) { (void)c; ASSUME(0); }
static void *vf_calloc(size_t n, size_t l) { (void)n; (void)l; return (NULL); }
static pid_t vf_fork(void) { return (-1); }
static int vf_pipe(int *p) { (void)p; return (-1); }
static int vf_dup2(int a, int b) { (void)a; (void)b; return (-1); }
int proto_in(int fd, unsigned *cmd, unsigned *size) { (void)fd; (void)cmd; (void)size; return (0); }
void proto_del_ev(uintptr_t *p) { (void)p; }
void proto_send_msg(int fd, const char *f, ...) { (void)fd; (void)f; }
#else /* H_START: job_start, job_ev, filter_line */
static int t_child, t_open[8], t_na; static const char *t_a[4]; static char vlm[4], lm[72];
static int vf_pipe(int *p) { CHECK(g.n < 2, "two pipes"); p[0] = 10 + 2 * g.n; p[1] = 11 + 2 * g.n; t_open[2 * g.n] = t_open[2 * g.n + 1] = 1; g.n++; return (0); }
static pid_t vf_fork(void) { CHECK(g.n == 2 && !g.forked, "one job"); g.forked = 1; if (t_child) return (0); return (NDB() ? -1 : 42); }
static int vf_close(int fd) { CHECK(fd >= 10 && fd <= 13 && t_open[fd - 10], "one of the pipes"); t_open[fd - 10] = 0; return (0); }
static int vf_dup2(int a, int b) { CHECK(t_child && (b == 0 ? a == 10 : b == 1 && a == 13), "input and output of the job"); g.dup |= 1 << b; return (b); }
static void vf_exit(int c) { CHECK(t_child && g.started && c == 5, "the job ends with its status"); COVER("child"); ASSUME(0); }
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof jm, "a job"); memset(&jm, 0, sizeof jm); return (&jm); }
static void vf_free(void *p) { (void)p; }
int call_main(const char *a0, struct aardwarc *aa, int ac, char **av)
{
	CHECK(t_child && g.forked && a0 == lm && aa == &aam && g.dup == 3 && !t_open[1] && !t_open[2], "the job runs in its own process");
	CHECK(ac == t_na, "with its arguments");
	for (int i = 0; i < 3; i++) if (i < t_na) CHECK(av[i] == t_a[i], "each of them");
	g.started = 1;
	return (5);
}
static int lf(void *p, const char *l) { (void)p; (void)l; return (0); }
static int ef(struct job *j) { CHECK(j == &jm && g.del && g.ended, "told of the end, once nothing more comes"); g.sf++; return (0); }
struct vlu *VLU_New(vlu_f *f, void *p, unsigned n) { CHECK(f == lf && p == &jm && n >= 128, "lines of identifiers"); return ((struct vlu *)vlm); }
static int t_vr;
int VLU_Fd(struct vlu *v, int fd) { CHECK(v == (struct vlu *)vlm && fd == 12, "reads from the job"); g.ended = t_vr != 0; return (t_vr); }
static proto_ev_func_f *t_ef;
uintptr_t proto_add_ev(int fd, short ev, proto_ev_func_f *f, void *p) { CHECK(fd == 12 && ev == POLLIN && p == &jm && !t_child, "listens to the job"); t_ef = f; return (99); }
void proto_del_ev(uintptr_t *p) { CHECK(p == &jm.ev && *p == 99 && g.ended, "once it has ended"); g.del = 1; *p = 0; }
void proto_out(int fd, unsigned c, const void *p, size_t n) { CHECK(fd == 1 && c == PROTO_FILTER && p == lm && n == aam.id_size, "the identifier which is missing"); g.out++; }
void harness(void)
{
	g_a0 = lm; g_aa = &aam; aam.magic = AARDWARC_MAGIC;
	t_child = NDB();
	t_na = vf_range(1, 3);
	t_a[0] = "store"; t_a[1] = t_na > 1 ? "-" : NULL; t_a[2] = t_na > 2 ? "-x" : NULL; t_a[3] = NULL;
	t_vr = (int)vf_range(0, 3) - 2;
	if (NDB()) {
		aam.id_size = vf_range(16, 64);
		unsigned n = vf_range(aam.id_size, 64);
		for (unsigned i = 0; i < 64; i++) if (i < n) lm[i] = 'a';
		jm.magic = JOB_MAGIC; jm.filter_skip = ND32();
		int r = filter_line(&jm, lm);
		CHECK(r == 0 && g.out == 1 && jm.filter_skip == 0, "the missing one is told");
	} else {
		struct job *j = job_start(lf, ef, t_a[0], t_a[1], t_a[2], NULL);
		CHECK(!t_child && j == &jm && jm.magic == JOB_MAGIC && jm.pid == 42 && jm.fd_to == 11 && jm.fd_fm == 12 && jm.vlu == (struct vlu *)vlm && jm.func_end == ef, "a job which is listened to");
		CHECK(!t_open[0] && t_open[1] && t_open[2] && !t_open[3] && jm.ev == 99 && t_ef != NULL && !g.del, "its ends of the pipes are only its own");
		t_ef(12, &jm, POLLIN);
		CHECK(g.sf == (t_vr != 0) && g.del == (t_vr != 0), "the end of its output is the end of the job");
	}
	COVER("end");
}
static ssize_t vf_read(int fd, void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static ssize_t vf_write(int fd, const void *b, size_t n) { (void)fd; (void)b; (void)n; return (-1); }
static pid_t vf_wait4(pid_t p, int *st, int o, void *ru) { (void)p; (void)st; (void)o; (void)ru; return (-1); }
void proto_ctl_ev(uintptr_t e, int en) { (void)e; (void)en; }
void proto_send_msg(int fd, const char *f, ...) { (void)fd; (void)f; }
int proto_in(int fd, unsigned *cmd, unsigned *size) { (void)fd; (void)cmd; (void)size; return (0); }
#endif
uint64_t vf_nd_log;
