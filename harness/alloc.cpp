// Accounting of the library's allocations (linked with -Wl,--wrap=malloc,...).
#include "bridge.h"
#include <cstddef>
#include <sanitizer/asan_interface.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}

struct Slot {
	void *p;
	size_t n, cap;
};
static Slot *tab; // open addressing
static size_t cap, used;
static AllocStats st;
static size_t limit, refuse = (size_t)-1;
static unsigned char fill = 0xa5;
static void *const TOMB = (void *)1;

static size_t h(void *p) { return (size_t)mix64((uint64_t)(uintptr_t)p); }
static void put(void *p, size_t n, size_t c);
static void grow() {
	Slot *o = tab;
	size_t oc = cap;
	size_t live = 0;
	for (size_t i = 0; i < oc; i++)
		live += o[i].p && o[i].p != TOMB;
	cap = 1024;
	while (cap < live * 4)
		cap *= 2;
	tab = (Slot *)__real_calloc(cap, sizeof(Slot));
	used = 0;
	for (size_t i = 0; i < oc; i++)
		if (o[i].p && o[i].p != TOMB)
			put(o[i].p, o[i].n, o[i].cap);
	__real_free(o);
}
static void put(void *p, size_t n, size_t c) {
	if (used * 2 >= cap)
		grow();
	size_t i = h(p) & (cap - 1);
	while (tab[i].p && tab[i].p != TOMB)
		i = (i + 1) & (cap - 1);
	if (!tab[i].p)
		used++;
	tab[i].p = p;
	tab[i].n = n;
	tab[i].cap = c;
}
static bool take(void *p, size_t *n, size_t *c = nullptr) {
	if (!cap)
		return false;
	for (size_t i = h(p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1))
		if (tab[i].p == p) {
			*n = tab[i].n;
			if (c)
				*c = tab[i].cap;
			tab[i].p = TOMB;
			return true;
		}
	return false;
}
static void over(size_t n) {
	if (limit && st.live_bytes + n > limit)
		fail("the library allocates out of proportion: %zu bytes on top of %zu, limit %zu", n, st.live_bytes, limit);
}
static void added(void *p, size_t n, size_t c = 0) {
	put(p, n, c ? c : n);
	st.live++;
	st.live_bytes += n;
	if (st.live_bytes > st.peak)
		st.peak = st.live_bytes;
}
extern "C" void *__wrap_malloc(size_t n) {
	over(n);
	if (n > refuse)
		return nullptr;
	void *p = __real_malloc(n);
	if (p) {
		memset(p, fill, n < (64u << 20) ? n : 1u << 20);
		added(p, n);
	}
	return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
	over(a * b);
	void *p = __real_calloc(a, b);
	if (p)
		added(p, a * b);
	return p;
}
extern "C" void *__wrap_realloc(void *o, size_t n) {
	size_t old = 0, c = 0;
	over(n);
	if (!o)
		return __wrap_malloc(n);
	if (!take(o, &old, &c))
		return __real_realloc(o, n);
	st.live--;
	st.live_bytes -= old;
	if (n < 32768 || n < old) {
		void *p = __real_realloc(o, n);
		if (p) {
			if (n > old)
				memset((char *)p + old, fill, n - old);
			added(p, n);
		} else if (n)
			added(o, old, c);
		return p;
	}
	// large blocks grow geometrically (AddressSanitizer always copies), with the spare part poisoned
	if (c < n || c == old) {
		size_t nc = 2 * n;
		char *p = (char *)__real_malloc(nc);
		memcpy(p, o, old);
		__real_free(o);
		o = p;
		c = nc;
		ASAN_POISON_MEMORY_REGION(p + n, c - n);
	} else
		ASAN_UNPOISON_MEMORY_REGION((char *)o + old / 8 * 8, n - old / 8 * 8); // the rest stays poisoned
	memset((char *)o + old, fill, n - old);
	added(o, n, c);
	return o;
}
extern "C" void __wrap_free(void *p) {
	size_t n;
	size_t c;
	if (p && take(p, &n, &c)) {
		st.live--;
		st.live_bytes -= n;
		if (c > n)
			ASAN_UNPOISON_MEMORY_REGION(p, c);
	}
	__real_free(p);
}
extern "C" void *__wrap_reallocarray(void *o, size_t a, size_t b) { return b && a > (size_t)-1 / b ? nullptr : __wrap_realloc(o, a * b); }
extern "C" char *__wrap_strndup(const char *s, size_t n) {
	n = strnlen(s, n);
	char *p = (char *)__wrap_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
extern "C" char *__wrap_strdup(const char *s) { return __wrap_strndup(s, strlen(s)); }
AllocStats alloc_stats() { return st; }
void alloc_reset_peak() { st.peak = st.live_bytes; }
void alloc_set_limit(size_t l) { limit = l; }
void alloc_set_fill(unsigned char c) { fill = c; }
void alloc_set_refuse(size_t n) { refuse = n; }
