/* Native replay of a CBMC counterexample: nondeterministic choices come from
 * the trace, in order; a failed ASSUME means the trace does not apply. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

static FILE *vf_in;

uint64_t
vf_native_next(void)
{
	unsigned long long v;
	if (vf_in == NULL || fscanf(vf_in, "%llu", &v) != 1) {
		return (0);
	}
	return (v);
}

void
vf_native_assume(int ok, const char *s, const char *f, int l)
{
	if (!ok) {
		printf("VF-ASSUME-FAILED %s (%s:%d)\n", s, f, l);
		fflush(stdout);
		_Exit(3);
	}
}

void
vf_native_check(int ok, const char *s)
{
	if (!ok) {
		printf("VF-VIOLATION %s\n", s);
		fflush(stdout);
		_Exit(1);
	}
}

void
vf_native_fail(const char *why)
{
	printf("VF-END %s\n", why);
	fflush(stdout);
	_Exit(4);
}

void harness(void);

int
main(int argc, char **argv)
{
	vf_in = argc > 1 ? fopen(argv[1], "r") : NULL;
	harness();
	printf("VF-HELD\n");
	return (0);
}
