// Choice-sequence property testing engine: recorded choices, shrinking, crash isolation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef std::string Bytes;

struct Src {
	enum Mode { RANDOM, REPLAY, DATA } mode = RANDOM;
	uint64_t rs[2] = {1, 2};
	const uint64_t *rep = nullptr;
	size_t rep_n = 0, rep_i = 0;
	const uint8_t *dat = nullptr;
	size_t dat_n = 0, dat_i = 0;
	uint64_t hash = 0; // of the choices made so far

	void seed(uint64_t a, uint64_t b);
	uint64_t next();
	// the one primitive: a recorded choice in [0, n-1]; 0 is the simplest
	uint64_t below(uint64_t n);
	uint64_t u64(); // full range choice

	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
	bool flip() { return below(2) == 1; }
	template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[below(N)]; }
	// an integer of up to 8 bytes, biased towards the boundaries
	uint64_t interesting(int width);
	// arbitrary bytes; long runs are derived from one choice
	Bytes bytes(size_t n);
};

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ull);
inline uint64_t hash_str(const Bytes &b) { return hash_bytes(b.data(), b.size()); }

// case services
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char *name);                 // classification counter
void nontrivial(uint64_t h);                  // counts the case as non-trivial, distinct by h
void sample(const std::string &text);         // a written-out case for the evidence
bool want_sample();                           // whether a sample would be kept
void note_known(const char *text);            // a listed known finding was observed
#define CHECK(c, ...)                                                                              \
	do {                                                                                           \
		if (!(c))                                                                                  \
			fail(__VA_ARGS__);                                                                     \
	} while (0)

std::string hex(const Bytes &b, size_t max = 4000);
std::string shortstr(const std::string &s, size_t max = 300);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string first_diff(const std::string &a, const std::string &b);

struct Sub {
	const char *name;
	void (*fn)(Src &);
	uint64_t quick, thorough; // number of cases
	const char *rule;
	void (*init)(); // once per worker process
	bool fuzz;      // sensible as a libFuzzer target
};
struct Prop {
	const char *id;
	std::vector<Sub> subs;
};
Prop the_prop(); // defined once per check binary
