/* Contract stub for the VSB string builder (its own contract is checked by the
 * vsb units): content is a NUL terminated concatenation of what was added. */
#ifndef VSBMODEL_H
#define VSBMODEL_H
#include "vsb.h"
#ifndef VSBM_N
#define VSBM_N 6
#endif
#ifndef VSBM_LEN
#define VSBM_LEN 48
#endif
static struct vsb vsbm_pool[VSBM_N];
static char vsbm_buf[VSBM_N][VSBM_LEN];
static int vsbm_used;

static struct vsb *
vsbm_new(void)
{
	struct vsb *v;
	ASSUME(vsbm_used < VSBM_N);
	v = &vsbm_pool[vsbm_used];
	v->s_buf = vsbm_buf[vsbm_used];
	v->s_len = 0;
	v->s_buf[0] = 0;
	vsbm_used++;
	return (v);
}

static void
vsbm_putc(struct vsb *v, char c)
{
	ASSUME(v->s_len < VSBM_LEN - 1);
	v->s_buf[v->s_len++] = c;
	v->s_buf[v->s_len] = 0;
}

static void
vsbm_num(struct vsb *v, uint64_t u, int width, char fill, unsigned base)
{
	char d[24];
	int n = 0;
#ifdef VSBM_FIX2
	if (width == 2 && fill == '0' && base == 10) {
		CHECK(u < 100, "number fits the two digits it is printed with");
		vsbm_putc(v, '0' + (unsigned)u / 10);
		vsbm_putc(v, '0' + (unsigned)u % 10);
		return;
	}
	if (width == 0 && base == 10) {
		CHECK(u < 10, "number is one digit");
		vsbm_putc(v, '0' + (unsigned)u);
		return;
	}
#endif
	do {
		unsigned k = u % base;
		d[n++] = k < 10 ? '0' + k : 'a' + k - 10;
		u /= base;
	} while (u);
	while (n < width)
		d[n++] = fill;
	while (n > 0)
		vsbm_putc(v, d[--n]);
}

static int
vsbm_vprintf(struct vsb *v, const char *f, va_list ap)
{
	const char *s;
	for (; *f; f++) {
		int width = 0, lng = 0;
		char fill = ' ';
		if (*f != '%') { vsbm_putc(v, *f); continue; }
		f++;
		if (*f == '0') { fill = '0'; f++; }
		while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
		while (*f == 'j' || *f == 'l' || *f == 'z') { lng = 1; f++; }
		if (*f == 's') {
			for (s = va_arg(ap, const char *); *s; s++)
				vsbm_putc(v, *s);
		} else if (*f == 'c') {
			vsbm_putc(v, va_arg(ap, int));
		} else if (*f == 'd' || *f == 'i') {
			int64_t i = lng ? va_arg(ap, int64_t) : va_arg(ap, int);
			if (i < 0) { vsbm_putc(v, '-'); i = -i; }
			vsbm_num(v, i, width, fill, 10);
		} else if (*f == 'u') {
			vsbm_num(v, lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned), width, fill, 10);
		} else if (*f == 'x') {
			vsbm_num(v, lng ? va_arg(ap, uint64_t) : va_arg(ap, unsigned), width, fill, 16);
		} else if (*f == '%') {
			vsbm_putc(v, '%');
		} else
			CHECK(0, "printf conversion known to the model");
	}
	return (0);
}

static int
vsbm_printf(struct vsb *v, const char *f, ...)
{
	va_list ap;
	int i;
	va_start(ap, f);
	i = vsbm_vprintf(v, f, ap);
	va_end(ap);
	return (i);
}

static int
vsbm_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list ap;
	struct vsb v[1];
	char t[VSBM_LEN];
	v->s_buf = t;
	v->s_len = 0;
	t[0] = 0;
	va_start(ap, f);
	vsbm_vprintf(v, f, ap);
	va_end(ap);
	for (ssize_t i = 0; i <= v->s_len && i < (ssize_t)n; i++)
		b[i] = t[i];
	if (v->s_len >= (ssize_t)n)
		b[n - 1] = 0;
	return (v->s_len);
}

static int vsbm_cat(struct vsb *v, const char *s) { while (*s) vsbm_putc(v, *s++); return (0); }
static int vsbm_bcat(struct vsb *v, const void *p, ssize_t n)
{ for (ssize_t i = 0; i < n; i++) vsbm_putc(v, ((const char *)p)[i]); return (0); }

#define VSB_new(a,b,c,d)	vsbm_new()
#undef VSB_new_auto
#define VSB_new_auto()		vsbm_new()
#define VSB_printf		vsbm_printf
#define VSB_vprintf		vsbm_vprintf
#define VSB_cat			vsbm_cat
#define VSB_bcat		vsbm_bcat
#define VSB_putc(v, c)		(vsbm_putc(v, c), 0)
#define VSB_finish(v)		0
#define VSB_data(v)		((v)->s_buf)
#define VSB_len(v)		((v)->s_len)
#define VSB_delete(v)		((void)(v))
#define VSB_destroy(p)		(*(p) = NULL)
#endif
