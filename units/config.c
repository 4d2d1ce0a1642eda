/* Contracts of config.c: sections with entries, found without regard to case */
#include "vf.h"
static struct {
	uint64_t ns, nf, ne, ef, k, j, calls; int hit, stop, w0, w1;
	int opened, closed, kind, rd; 
} g;
static int vf_errv;
static const char **vf_ap;
static int *vf_errno(void) { return (&vf_errv); }
#undef errno
#define errno (*vf_errno())
struct section; struct entry; struct config;
static int vf_strcasecmp(const char *a, const char *b), vf_strcmp(const char *a, const char *b);
static struct section *vf_ws(const struct config *);
static struct entry *vf_we(struct section *);
static int invs(const struct config *, const struct section *), inve(struct section *, const struct entry *), inve2(struct section *, const struct entry *);
#ifdef H_GET
#define strcasecmp vf_strcasecmp
#define strcmp vf_strcmp
#elif defined(H_PARSE) && defined(VF_PROOF)
static char *vf_strchr(const char *, int), *vf_line(struct config *), *vf_at(int);
static const char *vf_last(void);
static int vf_strcmp2(const char *, const char *);
static void *vf_calloc2(size_t, size_t);
static struct section *vf_cur(void);
static long long vf_rem(const char *);
static int invl(struct config *, const char *, const struct section *), inv_scan(const char *, const char *),
    inv_dup(const struct section *), inv_word(int, const char *);
#define strchr vf_strchr
#define strcmp vf_strcmp2
#define calloc vf_calloc2
#elif defined(H_READ)
static int vf_open(const char *fn, int fl, ...);
static ssize_t vf_read(int fd, void *b, size_t n);
static int vf_close(int fd), vf_fstat(int fd, struct stat *st);
#define open vf_open
#define read vf_read
#define close vf_close
#define fstat vf_fstat
static void *vf_malloc(size_t), *vf_calloc(size_t, size_t);
static void vf_free(void *);
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
static const unsigned char *vf_sp(const void *);
static int invp(const unsigned char *);
struct config; static const char *config_parse(struct config *);
#endif
#undef isspace
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#undef VDEF_H_INCLUDED
#include SRC_config
#undef read
#undef malloc
#undef calloc
#undef free
static struct config cfm;
#ifdef H_GET
static struct section secs[4];
static struct entry ents[4];
static char nsec[4][2], nent[4][2], aent[4][2], q_sec[2], q_name[2];
static uint64_t bs, be;		/* position of the first node there is */
/* Section bs+i and entry be+i of their lists are secs[i] and ents[i].  The
 * first of the name asked for is number nf, the first entry number ef. */
static int vf_strcasecmp(const char *a, const char *b)
{
	for (int i = 0; i < 4; i++) {
		if ((a == nsec[i] && b == q_sec) || (a == q_sec && b == nsec[i])) {
			uint64_t p = bs + i;
			return (p < g.nf ? 1 : p == g.nf ? 0 : NDB());
		}
		if ((a == nent[i] && b == q_name) || (a == q_name && b == nent[i])) {
			uint64_t p = be + i;
			return (p < g.ef ? 1 : p > g.ef ? NDB() : g.hit & 1);
		}
	}
	CHECK(0, "compares the name asked for with those there are");
	return (0);
}
static int vf_strcmp(const char *a, const char *b)
{
	CHECK(b[0] == '*' && b[1] == 0, "a star stands for any name");
	for (int i = 0; i < 4; i++)
		if (a == nent[i]) {
			uint64_t p = be + i;
			return (p < g.ef ? 1 : p > g.ef ? NDB() : (g.hit & 1) ? 0 : NDB());
		}
	CHECK(0, "compares the names there are");
	return (0);
}
static void fills(int i, uint64_t p)
{
	secs[i].magic = SECTION_MAGIC;
	secs[i].name = nsec[i];
	secs[i].nentry = p == g.nf ? g.ne : ND32();
	if (p == g.nf) {
		secs[i].entries.vtqh_first = g.ne > 0 ? &ents[0] : NULL;
		secs[i].list.vtqe_next = NULL;
	}
}
static void fille(int i) { ents[i].magic = ENTRY_MAGIC; ents[i].name = nent[i]; ents[i].arg = g.k & 4 ? NULL : aent[i]; if (NDB()) ents[i].arg = NULL; }
/* as many nodes as are needed from position p on */
static struct section *mks(uint64_t p)
{
	bs = p;
	for (int i = 0; i < 4; i++) if (p + i < g.ns) fills(i, p + i);
	for (int i = 0; i < 4; i++) secs[i].list.vtqe_next = i < 3 && p + i + 1 < g.ns ? &secs[i + 1] : NULL;
	return (p < g.ns ? &secs[0] : NULL);
}
static struct entry *mke(uint64_t p)
{
	be = p;
	for (int i = 0; i < 4; i++) fille(i);
	for (int i = 0; i < 4; i++) ents[i].list.vtqe_next = i < 3 && p + i + 1 < g.ne ? &ents[i + 1] : NULL;
	return (p < g.ne ? &ents[0] : NULL);
}
static struct section *vf_ws(const struct config *c) { CHECK(c == &cfm, "this configuration"); g.k = vf_range(0, g.ns); return (mks(g.k)); }
static int invs(const struct config *c, const struct section *s)
{
	(void)c;
	uint64_t p = g.w0 == 0 ? 0 : g.w1 ? g.k + 1 : g.k;
	g.w0 = 1;
	if (p > g.ns || p > g.nf) return (0);
	return (s == (p < g.ns ? &secs[p - bs] : NULL));
}
static struct entry *vf_we(struct section *s) { CHECK(s == &secs[g.nf - bs], "the section asked for"); g.j = vf_range(0, g.ne); g.w0 = 3; g.calls = g.j; g.stop = 0; return (mke(g.j)); }
static int inve(struct section *s, const struct entry *e)
{
	(void)s;
	uint64_t p = g.w0 != 3 ? 0 : g.w1 ? g.j + 1 : g.j;
	if (p > g.ne || p > g.ef) return (0);
	return (e == (p < g.ne ? &ents[p - be] : NULL));
}
static int inve2(struct section *s, const struct entry *e)
{
	(void)s;
	uint64_t p = g.w0 != 3 ? 0 : g.w1 ? g.j + 1 : g.j;
	if (p > g.ne || g.calls != p || g.stop) return (0);
	return (e == (p < g.ne ? &ents[p - be] : NULL));
}
static int iter(void *priv, const char *n, const char *a)
{
	CHECK(priv == &g && !g.stop, "callers data; no call after it said stop");
	CHECK(g.calls >= be && g.calls - be < 4 && g.calls < g.ne, "not more often than there are entries");
	ASSUME(g.calls >= be && g.calls - be < 4);
	CHECK(n == ents[g.calls - be].name && a == ents[g.calls - be].arg, "every entry once, in order");
	g.calls++;
	g.stop = NDB() ? NDI() : 0;
	return (g.stop);
}
void harness(void)
{
	const char *np = q_name, *ap = q_name;
	cfm.magic = CONFIG_MAGIC;
#ifdef VF_PROOF
	g.ns = vf_range(0, UINT32_MAX);
	g.ne = vf_range(0, UINT32_MAX);
#else
	g.ns = vf_range(0, 3);
	g.ne = vf_range(0, 3);
#endif
	g.nf = vf_range(0, g.ns);	/* ns: no such section */
	g.ef = vf_range(0, g.ne);
	g.hit = NDB();
	mke(0);
	cfm.nsection = g.ns;
	cfm.sections.vtqh_first = mks(0);
	int op = vf_range(0, 2), r, have = g.nf < g.ns;
	if (op == 0) {
		int wn = NDB(), wa = NDB();
		const char *n0 = nent[0], *a0 = ents[0].arg;
		r = Config_Get(&cfm, q_sec, wn ? &np : NULL, wa ? &ap : NULL);
		if (!have) CHECK(r == ENOENT, "a missing section is told");
		else if (g.ne != 1) CHECK(r == E2BIG, "not exactly one value is told");
		else if (wn && !wa && a0 != NULL) CHECK(r == E2BIG, "an unexpected argument is told");
		else CHECK(r == 0 && (!wn || np == n0) && (!wa || ap == a0), "name and argument of the entry");
		if (r) CHECK(vf_errv == r && np == q_name && ap == q_name, "nothing handed out otherwise");
	} else if (op == 1) {
		int wa = NDB();
		vf_ap = wa ? &ap : NULL;
		r = Config_Find(&cfm, q_sec, q_name, vf_ap);
		if (!have || g.ef >= g.ne) CHECK(r == ENOENT && ap == q_name, "a missing entry is told");
		else CHECK(r == 0 && (!wa || ap == ents[g.ef - be].arg), "argument of the first entry of that name");
	} else {
		r = Config_Iter(&cfm, q_sec, &g, iter);
		if (!have || g.ne == 0) CHECK(r == ENOENT && g.calls == 0, "a missing section is told");
		else if (g.stop) CHECK(r == g.stop, "the caller learns what its function returned");
		else CHECK(r == 0 && g.calls == g.ne, "every entry is visited");
	}
	COVER("end");
}
#elif defined(H_PARSE) && defined(VF_PROOF)
#undef strchr
/* A text of any length, at an arbitrary line of it, and before it any number of
 * sections.  The line is [lk, lE); its comment starts at lH, its last printing
 * character is at lL, its first at lW, its first word ends at lN, the second
 * starts at lA, the first colon is at lC.  What else is in it is arbitrary. */
static char *tx; static uint64_t tz, lk, lE, lH, lW, lN, lA, lL, lC, gx;
static int blank; static char bx;
static uint64_t ns, nent; static struct section secs[3], cur, nsec; static struct entry lent, nwent;
static char snam[4][2]; static uint64_t bs, nf;
static struct section **t_lastp; static struct entry **t_elastp; static int t_calls;
#define ISSP(c) isspace(c)
static void fact(uint64_t m)
{
	if (m >= lE) return;
	char c = tx[m];
	ASSUME(c != 0 && c != '\n');
	if (m == lH) ASSUME(c == '#');
	if (m >= lH) return;
	ASSUME(c != '#');
	if (blank) { ASSUME(ISSP(c)); return; }
	if (m < lC) ASSUME(c != ':');
	if (m == lC && lC <= lL) ASSUME(c == ':');
	if (m < lW || m > lL || m == lN || (m > lN && m < lA)) ASSUME(ISSP(c));
	if (m == lL || (m >= lW && m < lN) || m == lA) ASSUME(!ISSP(c));
}
static struct section *sec_at(uint64_t p) { return (p + 1 == ns ? &cur : &secs[p - bs]); }
static struct section *mks(uint64_t p)
{
	bs = p;
	for (int i = 0; i < 3; i++) {
		secs[i].magic = SECTION_MAGIC; secs[i].name = snam[i];
		secs[i].list.vtqe_next = p + i + 1 >= ns ? NULL : p + i + 2 == ns ? &cur : i < 2 ? &secs[i + 1] : NULL;
	}
	cur.list.vtqe_next = NULL;
	return (p >= ns ? NULL : sec_at(p));
}
/* everything before the line is arbitrary */
static char *vf_line(struct config *c)
{
	CHECK(c == &cfm, "this configuration");
	ns = vf_range(0, UINT32_MAX - 1); nent = vf_range(0, UINT32_MAX - 1);
	nf = vf_range(0, ns);		/* the section of the same name, ns: none */
	cfm.magic = CONFIG_MAGIC; cfm.nsection = ns;
	cfm.space = (u_char *)tx;
	cur.magic = SECTION_MAGIC; cur.name = snam[3]; cur.nentry = nent;
	lent.magic = ENTRY_MAGIC; lent.list.vtqe_next = NULL;
	cur.entries.vtqh_first = nent ? &lent : NULL;
	cur.entries.vtqh_last = t_elastp = nent ? &lent.list.vtqe_next : &cur.entries.vtqh_first;
	cfm.sections.vtqh_first = mks(0);
	cfm.sections.vtqh_last = t_lastp = ns ? &cur.list.vtqe_next : &cfm.sections.vtqh_first;
	t_calls = 0;
	lk = vf_range(0, tz); lE = vf_range(lk, tz); lH = vf_range(lk, lE);
	blank = NDB() || lH == lk;
	if (blank) lW = lN = lA = lL = lC = lH;
	else {
		lL = vf_range(lk, lH - 1); lW = vf_range(lk, lL); lN = vf_range(lW + 1, lL + 1);
		ASSUME(lN != lL);
		lA = lN < lL ? vf_range(lN + 1, lL) : lN;
		lC = vf_range(lW, lL + 1);
		ASSUME(lC < lN || lC >= lA);
	}
	if (lE < tz) ASSUME(tx[lE] == '\n');
	fact(lk); fact(lW); fact(lN); fact(lA); fact(lL); fact(lL + 1); fact(lH); fact(lC); fact(lC + 1);
	gx = vf_range(0, tz); fact(gx); bx = tx[gx];
	g.w0 = 1;
	return (tx + lk);
}
static struct section *vf_cur(void) { return (ns ? &cur : NULL); }
static long long vf_rem(const char *q) { return (tx + tz + 1 - q); }
/* The first place at or after s with c or the end of the string */
static char *vf_strchr(const char *s, int c)
{
	uint64_t o = s - tx, r = tz;
	CHECK(o >= lk && o <= lE, "looks in the line");
	char rc = 0, v;
#define T(x) if ((x) >= o && (x) < r) { v = tx[x]; if (v == (char)c || v == 0) { r = (x); rc = v; } }
	T(lC) T(lL + 1) T(lH) T(lE)
#undef T
	CHECK(r <= lE, "the line has been ended");
	CHECK(c == '\n' || c == '#' || c == ':' || c == 0, "characters with a meaning");
	return (rc == (char)c ? tx + r : NULL);
}
static int vf_strcmp2(const char *a, const char *b)
{
	uint64_t p = ns;
	if (a == tx + lk) { const char *t = a; a = b; b = t; }
	CHECK(b == tx + lk && tx[lC] == 0 && lC == lL, "compares the name in the line");
	for (int i = 0; i < 3; i++) if (a == snam[i]) p = bs + i;
	if (a == snam[3]) p = ns - 1;
	CHECK(p < ns, "with the names there are");
	return (p < nf ? 1 : p == nf ? 0 : NDB());
}
static void *vf_calloc2(size_t n, size_t l)
{
	CHECK(t_calls++ == 0, "one thing a line");
	CHECK(n * l == sizeof nsec || n * l == sizeof nwent, "a section or an entry");
	if (n * l == sizeof nsec) { memset(&nsec, 0, sizeof nsec); return (&nsec); }
	memset(&nwent, 0, sizeof nwent);
	return (&nwent);
}
#define SECT (!blank && lW == lk)
#define ENTL (!blank && lW > lk)
static int invl(struct config *c, const char *p, const struct section *sc)
{
	if (c != &cfm) return (0);
	if (g.w0 == 0) return (p == tx && sc == NULL && cfm.nsection == 0);
	if (g.w1 == 0) return (p == tx + lk && sc == (ns ? &cur : NULL));
	CHECK(p == tx + lE + (lE < tz), "goes on with the next line");
	if (gx < lk || gx > lE || (!blank && ((SECT && gx < lC) || (ENTL && ((gx >= lW && gx < lN) || (gx >= lA && gx <= lL))))))
		CHECK(tx[gx] == bx, "names, arguments, the lines before and the following ones stay as they are");
	if (SECT) {
		CHECK(lC == lL && nf == ns, "a section has one colon, at the end, and a name of its own");
		CHECK(sc == &nsec && nsec.magic == SECTION_MAGIC && nsec.name == tx + lk && tx[lC] == 0, "a section has the name in the line");
		CHECK(nsec.nentry == 0 && nsec.entries.vtqh_first == NULL && nsec.entries.vtqh_last == &nsec.entries.vtqh_first, "without entries");
		CHECK(*t_lastp == &nsec && cfm.sections.vtqh_last == &nsec.list.vtqe_next && nsec.list.vtqe_next == NULL, "the last one in the list");
		CHECK(cfm.nsection == ns + 1, "and counted");
		CHECK(cur.nentry == nent && *t_elastp == NULL, "other sections stay as they are");
		COVER("section");
	} else {
		CHECK(sc == (ns ? &cur : NULL) && *t_lastp == NULL && cfm.sections.vtqh_last == t_lastp && cfm.nsection == ns, "no new section");
		if (ENTL) {
			CHECK(ns > 0, "no entry without a section");
			CHECK(*t_elastp == &nwent && cur.entries.vtqh_last == &nwent.list.vtqe_next && nwent.list.vtqe_next == NULL, "the last entry of its section");
			CHECK(nwent.magic == ENTRY_MAGIC && cur.nentry == nent + 1, "and counted");
			CHECK(nwent.name == tx + lW && tx[lN] == 0, "the first word is the name");
			if (lN > lL) CHECK(nwent.arg == NULL, "no argument");
			else CHECK(nwent.arg == tx + lA && tx[lL + 1] == 0, "what follows, without the comment and blanks around it, is the argument");
			COVER("entry");
		} else
			CHECK(cur.nentry == nent && *t_elastp == NULL && t_calls == 0, "an empty line means nothing");
	}
	return (1);
}
static uint64_t lm;
static char *vf_at(int l)
{
	lm = l == 1 ? vf_range(lk, lH) : l == 3 ? vf_range(lk, lW) : l == 4 ? vf_range(lW, lN) : vf_range(lN + 1, lA);
	if (l == 1 || lm <= lL) fact(lm);
	return (tx + lm);
}
/* the last printing character in front of lm */
static const char *vf_last(void)
{
	if (blank || lm <= lW) return (NULL);
	if (lm > lL) return (tx + lL);
	return (tx + vf_range(lW, lm - 1));
}
static int inv_scan(const char *q, const char *r)
{
	if (q < tx + lk || q > tx + lH) return (0);
	if (blank || q <= tx + lW) return (r == NULL);
	if (q > tx + lL) return (r == tx + lL);
	return (r >= tx + lW && r < q);
}
static struct section *vf_ws(const struct config *c) { CHECK(c == &cfm, "this configuration"); g.k = vf_range(0, ns); return (mks(g.k)); }
static int inv_dup(const struct section *s)
{
	if (s == NULL) return (nf == ns);
	if (s == &cur) return (ns > 0 && nf >= ns - 1);
	for (int i = 0; i < 3; i++) if (s == &secs[i] && bs + i + 1 < ns) return (bs + i <= nf);
	return (0);
}
static int inv_word(int l, const char *q)
{
	if (l == 3) return (q >= tx + lk && q <= tx + lW);
	if (l == 4) return (q >= tx + lW && q <= tx + lN);
	return (lN < lL && q > tx + lN && q <= tx + lA);
}
void harness(void)
{
	tz = vf_range(0, 1UL << 40);
	tx = malloc(tz + 1);
	ASSUME(tx != NULL);
	tx[tz] = 0;
	cfm.magic = CONFIG_MAGIC;
	cfm.space = (u_char *)tx;
	VTAILQ_INIT(&cfm.sections);
	const char *e = config_parse(&cfm);
	if (e == NULL) CHECK(lk == tz, "the text is read to its end");
	else {
		CHECK(lk < tz && !blank, "an empty line is no error");
		if (SECT) CHECK(lC != lL || nf < ns, "a good section is accepted");
		else CHECK(ns == 0, "an entry in a section is accepted");
		COVER("refused");
	}
	COVER("end");
}
#elif defined(H_PARSE)
static const struct { const char *in, *err, *out; } T[] = {
	{ "a:\n\tb\n", NULL, "a:b;" },
	{ "# x\n\na:\n b c \n\td  e f\t\n\n#\nB:\n\tx#y z\n", NULL, "a:b=c;d=e f;B:x;" },
	{ "a:\nB:\n  q", NULL, "a:B:q;" },
	{ "a:  \r\n b\t1\r\n", NULL, "a:b=1;" },
	{ "a b:\n c\n", NULL, "a b:c;" },
	{ "", NULL, "" },
	{ "a\n b\n", "e", "" },
	{ "a: x\n", "e", "" },
	{ "a:b:\n", "e", "" },
	{ " x\na:\n", "e", "" },
	{ "a:\n x\nb:\na:\n y\n", "e", "a:x;b:" },
	{ "a: # c\n b # d", NULL, "a:b;" },
};
void harness(void)
{
	char o[40], b[64];
	int i = vf_range(0, sizeof T / sizeof T[0] - 1), n = 0, k;
	const struct section *s; const struct entry *e; const char *c;
	cfm.magic = CONFIG_MAGIC;
	VTAILQ_INIT(&cfm.sections);
#define DO(x) if (i == x) { strcpy(b, T[x].in); k = x; cfm.space = (u_char *)b; c = config_parse(&cfm); }
	DO(0) else DO(1) else DO(2) else DO(3) else DO(4) else DO(5) else DO(6) else DO(7) else DO(8) else DO(9) else DO(10) else DO(11) else return;
	CHECK((c != NULL) == (T[k].err != NULL), "a text which is no configuration is told from one which is");
	VTAILQ_FOREACH(s, &cfm.sections, list) {
		for (c = s->name; *c; c++) o[n++] = *c;
		o[n++] = ':';
		VTAILQ_FOREACH(e, &s->entries, list) {
			for (c = e->name; *c; c++) o[n++] = *c;
			if (e->arg) { o[n++] = '='; for (c = e->arg; *c; c++) o[n++] = *c; }
			o[n++] = ';';
		}
	}
	o[n] = 0;
	CHECK(!strcmp(o, T[k].out), "sections, names and arguments as written");
	COVER("end");
}
#elif defined(H_READ)
#define MAXF 4
static u_char *sp; static int t_freed, t_cfree, t_parsed; static size_t t_sz, t_bad;
static char fn[2];
static int vf_open(const char *f, int fl, ...) { CHECK(f == fn && (fl & O_ACCMODE) == O_RDONLY, "the file named"); vf_errv = ENOENT; g.opened = NDB(); return (g.opened ? 5 : -1); }
static int vf_close(int fd) { CHECK(fd == 5 && !g.closed, "closed once"); g.closed = 1; return (0); }
static int vf_fstat(int fd, struct stat *st) { CHECK(fd == 5, "the file"); memset(st, 0, sizeof *st); g.kind = NDB(); st->st_mode = g.kind ? S_IFREG : S_IFDIR; st->st_size = t_sz; return (0); }
static void *vf_malloc(size_t n) { CHECK(n == t_sz + 1, "room for the text and its end"); sp = malloc(n); ASSUME(sp != NULL); return (sp); }
static void *vf_calloc(size_t n, size_t l) { CHECK(n * l == sizeof cfm, "a configuration"); memset(&cfm, 0, sizeof cfm); return (&cfm); }
static void vf_free(void *p) { if (p == sp) { CHECK(!t_freed, "freed once"); t_freed = 1; } else { CHECK(p == &cfm && !t_cfree, "freed once"); t_cfree = 1; } vf_errv = 99; }
static int bad(u_char c) { return (c == 0 || c == 0xc0 || c == 0xc1 || c > 0xf4); }
static ssize_t vf_read(int fd, void *b, size_t n)
{
	CHECK(fd == 5 && b == sp && n == t_sz, "the whole file");
#ifndef VF_PROOF
	for (size_t i = 0; i < MAXF; i++) if (i < n) sp[i] = ND8();
	for (size_t i = 0; i < MAXF; i++) if (i < n && bad(sp[i]) && t_bad == t_sz) t_bad = i;
#endif
	g.rd = NDB();
	return (g.rd ? (ssize_t)n : (ssize_t)vf_range(0, n) - 1);
}
/* the byte at position k, the first bad one is at t_bad */
static const unsigned char *vf_sp(const void *cfg)
{
	(void)cfg;
	g.k = vf_range(0, t_sz);
	ASSUME(g.k <= t_bad);
	if (g.k < t_sz) { sp[g.k] = ND8(); ASSUME(bad(sp[g.k]) == (g.k == t_bad)); }
	g.w0 = 1;
	return (sp + g.k);
}
static int invp(const unsigned char *p)
{
	uint64_t k = g.w0 == 0 ? 0 : g.w1 ? g.k + 1 : g.k;
	return (k <= t_bad && k <= t_sz && p == sp + k);
}
static const char *config_parse(struct config *c)
{
	CHECK(c == &cfm && c->magic == CONFIG_MAGIC && c->space == sp && sp[t_sz] == 0, "the whole text, ended");
	CHECK(t_bad == t_sz, "a text with impossible bytes is refused");
	t_parsed++;
	return (NDB() ? "bad" : NULL);
}
void harness(void)
{
#ifdef VF_PROOF
	t_sz = vf_range(0, 1UL << 40);
	t_bad = vf_range(0, t_sz);
#else
	t_sz = vf_range(0, MAXF);
	t_bad = t_sz;
#endif
	struct config *c = Config_Read(fn);
	CHECK(g.opened == g.closed, "closed");
	if (!g.opened || !g.kind) { CHECK(c == NULL && vf_errv != 99, "what cannot be read is refused"); }
	else if (c == NULL) CHECK((!g.rd || t_bad < t_sz) && t_freed && t_cfree && vf_errv != 99, "refused with a reason, nothing left over");
	else CHECK(c == &cfm && t_parsed == 1 && t_bad == t_sz && !t_freed && !t_cfree, "a configuration which was read completely");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
