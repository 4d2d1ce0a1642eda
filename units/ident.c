/* Contracts of ident.c */
#include "vf.h"
#include "vsb.h"
#include "miniobj.h"
struct header { const char *type, *ref; char *id; };
static struct {
	int sha, upd; size_t tot; int nup;
	const void *p[6]; size_t n[6]; int end;
	int created; const char *cdig; int setid; const char *setarg;
	int valid, vsb, fin;
} g;
static char dig[65], refb[80];
static size_t t_rl;
static char out[66];
struct SHA256Context;
#include "sha256.h"
#undef SHA256_Init
#undef SHA256_Update
#undef SHA256_End
static void vf_init(void *c) { (void)c; g.sha = 1; g.tot = 0; g.nup = 0; }
static uint8_t t_hash[32];
/* the text hashed so far, compared with what it must be */
static char want(size_t i)
{
	if (i < t_rl) return (refb[i]);
	if (i == t_rl) return ('\n');
	if (i < t_rl + 1 + 64) return (dig[i - t_rl - 1]);
	return ('\n');
}
static void vf_update(void *c, const void *p, size_t n)
{
	(void)c;
	CHECK(g.sha == 1, "started");
#ifdef VF_PROOF
	/* the pieces are identified by where they are */
	if (g.nup == 0) CHECK(p == refb && n == t_rl, "first the reference");
	else if (g.nup == 2) CHECK(p == dig && n == 64, "then the digest of the content");
	else CHECK(g.nup < 4 && n == 1 && *(const char *)p == '\n', "each with a newline");
	g.nup++;
	g.tot += n;
	return;
#endif
	for (size_t i = 0; i < n; i++)
		CHECK(((const char *)p)[i] == want(g.tot + i), "the identifier of metadata is made of the reference, the digest and two newlines");
	g.tot += n;
	CHECK(g.tot <= t_rl + 66, "and nothing else");
}
static char *vf_end(void *c, char *b)
{
	(void)c;
	CHECK(g.tot == t_rl + 66, "all of it is hashed");
	g.end = 1;
	for (int i = 0; i < 64; i++) b[i] = "0123456789abcdef"[(t_hash[i / 2] >> (i & 1 ? 0 : 4)) & 15];
	b[64] = 0;
	return (b);
}
#define SHA256_Init vf_init
#define SHA256_Update vf_update
#define SHA256_End vf_end
#ifdef VF_PROOF
static size_t vf_strlen(const char *s) { CHECK(s == refb || s == dig, "length of the reference or the digest"); return (s == refb ? t_rl : 64); }
#define strlen vf_strlen
#endif
#ifdef H_SET
void Ident_Create(const struct aardwarc *aa, const struct header *hdr, const char *payload_digest, char *ident);
#endif
#undef VDEF_H_INCLUDED
#undef MINIOBJ_H_INCLUDED
#include SRC_ident
static struct aardwarc aam;
static struct header hm;
const char *Header_Get(const struct header *h, const char *n)
{
	CHECK(h == &hm, "header of the object");
	if (!strcmp(n, "WARC-Type")) return (h->type);
	if (!strcmp(n, "WARC-Refers-To")) return (h->ref);
	return (NULL);
}
void Header_Set_Id(struct header *h, const char *id) { CHECK(h == &hm, "header of the object"); g.setid++; g.setarg = id; if (g.created) CHECK(id[0] == 'c', "the identifier made"); }
const char *IDX_Valid_Id(const struct aardwarc *a, const char *id, const char **n) { (void)a; (void)id; (void)n; g.valid++; return (NULL); }
#if defined(H_CREATE)
void harness(void)
{
	static const char *const types[4] = { "resource", "continuation", "warcinfo", "metadata" };
	aam.magic = AARDWARC_MAGIC;
	aam.id_size = vf_range(16, 64);
	int ty = TYPE;
	hm.type = types[ty];
	for (int i = 0; i < 64; i++) { dig[i] = ND8(); ASSUME(dig[i] != 0); }
#if defined(REFLEN) && !defined(VF_PROOF)
	t_rl = REFLEN;
#elif defined(VF_PROOF)
	t_rl = vf_range(0, 1 << 20);
#else
	t_rl = 0;
#endif
#ifndef VF_PROOF
	for (size_t i = 0; i < t_rl; i++) { refb[i] = ND8(); ASSUME(refb[i] != 0); }
#endif
	if (ty == 3) for (int i = 0; i < 32; i++) t_hash[i] = ND8();
	hm.ref = ty == 3 ? refb : NULL;
	out[65] = 'x';
	unsigned k = vf_range(0, 63);
	Ident_Create(&aam, &hm, dig, out);
	CHECK(out[aam.id_size] == 0, "the identifier has the configured length");
	if (k < aam.id_size) {
		if (ty != 3) CHECK(out[k] == dig[k], "the identifier is made from the digest of the content");
		else CHECK(out[k] == "0123456789abcdef"[(t_hash[k / 2] >> (k & 1 ? 0 : 4)) & 15], "the identifier is made from reference and digest");
	}
	if (ty == 3) CHECK(g.end == 1, "hashed");
	CHECK(out[65] == 'x', "no more than the buffer is written");
	COVER("end");
}
#elif defined(H_SET)
void Ident_Create(const struct aardwarc *a, const struct header *h, const char *d, char *id)
{
	CHECK(a == &aam && h == &hm && d == dig, "made from this object");
	id[0] = 'c'; id[1] = 0; g.created++;
}
void harness(void)
{
	static char in[4] = "in";
	int has = NDB();
	aam.magic = AARDWARC_MAGIC;
	Ident_Set(&aam, &hm, dig, has ? in : NULL);
	CHECK(g.setid == 1, "the identifier is set");
	if (has) CHECK(g.setarg == in && !g.created, "to the one asked for");
	else CHECK(g.created == 1, "to one made from the content");
	COVER("end");
}
#endif
uint64_t vf_nd_log;
