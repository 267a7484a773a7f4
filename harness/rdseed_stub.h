// Stand-in for the RDSEED instruction: real randomness with injected failures, so that the entropy
// path is exercised under the failures hardware shows under load (and the AMD all-ones defect).
#pragma once
#include <x86intrin.h>
#include <cstdlib>
#include <cstdint>
#include <sys/random.h>
static inline int vf_rdseed64_step(unsigned long long *p) {
	uint64_t b[2]; size_t got = 0;
	while (got < sizeof b) { ssize_t n = getrandom((char *)b + got, sizeof b - got, 0); if (n > 0) got += n; }
	static __thread unsigned bad; unsigned k = bad < 6 ? b[1] % 40 : 39; bad = k < 6 ? bad + 1 : 0; // at most six failures in a row: hardware recovers
	if (k < 4) { *p = 0; return 0; }            // no entropy available
	if (k == 4) { *p = ~0ULL; return 1; }       // defective hardware
	if (k == 5) { *p = 0; return 1; }
	*p = b[0]; return 1;
}
#define _rdseed64_step vf_rdseed64_step
