// Counts the basic blocks of the library that are executed (the library is compiled with
// -fsanitize-coverage=trace-pc-guard) and the bytes it copies: a measure of time without noise.
#include "bridge.h"
static uint64_t done, limit;
void work_limit(uint64_t n) {
	done = 0;
	limit = n;
}
uint64_t work_done() { return done; }
static inline void step(uint64_t n) {
	done += n;
	if (limit && done > limit) {
		uint64_t l = limit;
		limit = 0;
		fail("the library works out of proportion to its input: more than %llu steps", (unsigned long long)l);
	}
}
extern "C" {
#ifndef FUZZ_MAIN // libFuzzer has its own
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { step(1); }
#endif
void *__real___asan_memcpy(void *, const void *, size_t);
void *__real___asan_memmove(void *, const void *, size_t);
void *__real___asan_memset(void *, int, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) {
	step(n / 16);
	return __real___asan_memcpy(d, s, n);
}
void *__wrap___asan_memmove(void *d, const void *s, size_t n) {
	step(n / 16);
	return __real___asan_memmove(d, s, n);
}
void *__wrap___asan_memset(void *d, int c, size_t n) {
	step(n / 16);
	return __real___asan_memset(d, c, n);
}
}
