/* IDX_Valid_Id(): accepts exactly [prefix, any case] + id_size hex digits */
#include "vf.h"
#ifndef MAXL
#define MAXL 76
#endif
#ifndef MAXP
#define MAXP 8
#endif
#ifdef VF_PROOF
/* Strings of any length: the code only looks at them through string functions,
 * whose contracts are given over these ghost quantities. */
static const char *g_id, *g_pfx;
static size_t g_L, g_P;			/* lengths */
static int g_M;				/* prefix matches, ignoring case */
static size_t g_hex[2], g_sep[2];	/* spans from offset 0 and from offset P */
static int off(const char *a)
{
	CHECK(a == g_id || (g_P <= g_L && a == g_id + g_P), "model: tail of the ID");
	return (a == g_id ? 0 : 1);
}
static size_t vf_strlen(const char *a)
{
	if (a == g_pfx) return (g_P);
	return (off(a) ? g_L - g_P : g_L);
}
static int vf_strncasecmp(const char *a, const char *b, size_t n)
{
	CHECK(a == g_id && b == g_pfx && n == g_P, "the whole prefix is compared");
	return (g_M ? 0 : 1);
}
static size_t vf_spn(const char *a, const char *set, int want)
{
	int o = off(a);
	if (want) {
		CHECK(!strcmp(set, "0123456789abcdefABCDEF"), "the hexadecimal digits");
		return (g_hex[o]);
	}
	CHECK(!strcmp(set, ":/"), "model: URI separators");
	return (g_sep[o]);
}
#define strncasecmp vf_strncasecmp
#define strlen vf_strlen
#define strspn(a, s) vf_spn(a, s, 1)
#define strcspn(a, s) vf_spn(a, s, 0)
#undef VDEF_H_INCLUDED
#include SRC_index
void harness(void)
{
	struct aardwarc aa[1];
	const char *nid = NULL, *r;
	size_t st;
	int want = NDB(), ok;
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	aa->id_size = vf_range(16, 64);
	g_L = vf_range(0, 1UL << 40);
	g_P = vf_range(1, 1UL << 40);
	g_id = malloc(g_L + 1);
	g_pfx = malloc(g_P + 1);
	aa->prefix = g_pfx;
	g_M = NDB();
	ASSUME(!g_M || g_P <= g_L);
	for (int o = 0; o < 2; o++) {
		size_t n = o ? (g_P <= g_L ? g_L - g_P : 0) : g_L;
		g_hex[o] = ND64(); g_sep[o] = ND64();
		ASSUME(g_hex[o] <= n && g_sep[o] <= n);
		ASSUME(g_hex[o] < n || g_sep[o] == n);	/* digits are no separators */
		ASSUME(g_sep[o] >= g_hex[o]);
	}
	st = g_M ? 1 : 0;
	ok = (g_M ? g_L - g_P : g_L) == aa->id_size && g_hex[st] == aa->id_size;
	r = IDX_Valid_Id(aa, g_id, want ? &nid : NULL);
	CHECK((r == NULL) == !!ok, "accepted iff optional prefix plus exactly id_size hex digits");
	if (r == NULL && want)
		CHECK(nid == g_id + (g_M ? g_P : 0), "the digits after the prefix are handed back");
	if (r == NULL) COVER("accepted");
	if (r != NULL) COVER("rejected");
}
#else
static char lc(char c) { return (c >= 'A' && c <= 'Z' ? c + 32 : c); }
static int ishex(char c) { return ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); }
static int vf_strncasecmp(const char *a, const char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		if (lc(a[i]) != lc(b[i])) return (lc(a[i]) - lc(b[i]));
		if (!a[i]) return (0);
	}
	return (0);
}
static size_t vf_spn(const char *a, const char *set, int want)
{
	size_t i, j;
	for (i = 0; a[i]; i++) {
		int in = 0;
		for (j = 0; set[j]; j++) if (a[i] == set[j]) in = 1;
		if (in != want) break;
	}
	return (i);
}
static size_t vf_strlen(const char *a) { size_t i = 0; while (a[i]) i++; return (i); }
static int vf_strncmp(const char *a, const char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		if (a[i] != b[i]) return (a[i] - b[i]);
		if (!a[i]) return (0);
	}
	return (0);
}
static int vf_strcasecmp(const char *a, const char *b) { return (vf_strncasecmp(a, b, 1000)); }
#define strcasecmp vf_strcasecmp
#define strncmp vf_strncmp
#define strncasecmp vf_strncasecmp
#define strlen vf_strlen
#define strspn(a, s) vf_spn(a, s, 1)
#define strcspn(a, s) vf_spn(a, s, 0)
#undef isxdigit
#define isxdigit(c) ishex(c)
#undef VDEF_H_INCLUDED
#include SRC_index

void harness(void)
{
	struct aardwarc aa[1];
	char id[MAXL + 1], pfx[MAXP + 1];
	const char *nid = NULL, *r;
	unsigned l, p, i, start, ok;
	int want = NDB();
	memset(aa, 0, sizeof aa);
	aa->magic = AARDWARC_MAGIC;
	p = vf_range(1, MAXP);
	for (i = 0; i <= MAXP; i++) {
		pfx[i] = ND8();
		if (i < p) ASSUME(pfx[i] != 0); else if (i == p) pfx[i] = 0;
	}
	ASSUME(pfx[p - 1] == ':' || pfx[p - 1] == '/');	/* URI prefixes end so */
	l = vf_range(0, MAXL);
	for (i = 0; i <= MAXL; i++) {
		id[i] = ND8();
		if (i < l) ASSUME(id[i] != 0); else if (i == l) id[i] = 0;
	}
	aa->prefix = pfx;
	aa->id_size = vf_range(16, 64);
	start = 1;
	for (i = 0; i < MAXP; i++)
		if (i < p && (i >= l || lc(id[i]) != lc(pfx[i]))) start = 0;
	start = start ? p : 0;
	ok = l - start == aa->id_size;
	for (i = 0; i < MAXL; i++)
		if (i >= start && i < l && !ishex(id[i])) ok = 0;
	r = IDX_Valid_Id(aa, id, want ? &nid : NULL);
	CHECK((r == NULL) == !!ok, "accepted iff optional prefix plus exactly id_size hex digits");
	if (r == NULL && want)
		CHECK(nid == id + start, "the digits after the prefix are handed back");
	if (r == NULL) COVER("accepted");
	if (r != NULL) COVER("rejected");
}
#endif
uint64_t vf_nd_log;
