#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- choices

static const size_t MAX_CHOICES = 1 << 20;
static const int MAXWORKERS = 8;
static int NWORKERS = MAXWORKERS; // SML_WORKERS, for runs beside others
static bool no_shrink;
static const int CPU_LIMIT = 45;   // seconds of CPU time per case
static const int WALL_LIMIT = 120;  // seconds without progress

struct Shared {
	volatile uint64_t idx;      // case being run
	volatile uint64_t done;     // cases completed
	volatile uint64_t nchoice;  // choices recorded for the current case
	volatile uint64_t nhash;    // non-trivial hashes
	volatile int have_msg;
	char msg[8192];
	char stats[65536];
	uint64_t choice[MAX_CHOICES];
};
static Shared *sh;           // of this process
static uint64_t *hashes;     // of this process
static size_t hashes_cap;
static std::map<std::string, uint64_t> labels;
static std::vector<std::string> samples;
static std::set<std::string> knowns;
static bool case_sample;
static char workdir[512] = ".";

uint64_t mix64(uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 0x100000001b3ull;
	return mix64(h ^ n);
}
void Src::seed(uint64_t a, uint64_t b) {
	rs[0] = mix64(a ^ mix64(b));
	rs[1] = mix64(rs[0] + 77);
	if (!rs[0] && !rs[1])
		rs[0] = 1;
}
uint64_t Src::next() { // xorshift128+
	uint64_t s1 = rs[0], s0 = rs[1];
	rs[0] = s0;
	s1 ^= s1 << 23;
	rs[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
	return rs[1] + s0;
}
static uint64_t record(Src &s, uint64_t v) {
	s.hash = mix64(s.hash ^ v);
	if (sh && sh->nchoice < MAX_CHOICES)
		sh->choice[sh->nchoice++] = v;
	return v;
}
uint64_t Src::below(uint64_t n) {
	uint64_t v = 0;
	if (n > 1) {
		if (mode == RANDOM)
			v = (uint64_t)(((unsigned __int128)next() * n) >> 64);
		else if (mode == REPLAY) {
			if (rep_i < rep_n)
				v = std::min(rep[rep_i++], n - 1);
		} else {
			int need = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
			uint64_t x = 0;
			for (int i = 0; i < need && dat_i < dat_n; i++)
				x = x << 8 | dat[dat_i++];
			v = x % n;
		}
	} else
		return 0;
	return record(*this, v);
}
uint64_t Src::u64() {
	uint64_t v = 0;
	if (mode == RANDOM)
		v = next();
	else if (mode == REPLAY) {
		if (rep_i < rep_n)
			v = rep[rep_i++];
	} else
		for (int i = 0; i < 8 && dat_i < dat_n; i++)
			v = v << 8 | dat[dat_i++];
	return record(*this, v);
}
uint64_t Src::interesting(int width) {
	uint64_t mask = width >= 8 ? ~0ull : ((1ull << (8 * width)) - 1);
	switch (below(8)) {
	case 0: return below(16) & mask;
	case 1: return (0 - 1 - below(16)) & mask;
	case 2: return ((1ull << (8 * width - 1)) - 2 + below(5)) & mask; // around the sign bit
	case 3: { // around a power of two
		unsigned k = (unsigned)below(8 * width);
		return ((1ull << k) - 2 + below(5)) & mask;
	}
	case 4: { // negative of a power of two
		unsigned k = (unsigned)below(8 * width);
		return (0 - ((1ull << k) - 2 + below(5))) & mask;
	}
	case 5: { // short random, zero or sign extended
		unsigned k = 1 + (unsigned)below(8 * width);
		uint64_t v = u64() & (k >= 64 ? ~0ull : (1ull << k) - 1);
		return v & mask;
	}
	case 6: { // byte pattern
		uint64_t v = 0;
		static const uint8_t pat[] = {0x00, 0xff, 0x80, 0x7f, 0x01, 0x1b, 0x55, 0x12};
		for (int i = 0; i < width; i++)
			v = v << 8 | pick(pat);
		return v & mask;
	}
	default: return u64() & mask;
	}
}
Bytes Src::bytes(size_t n) {
	Bytes b(n, 0);
	if (n <= 24) {
		if (chance(1, 4)) {
			static const uint8_t pat[] = {0x00, 0x01, 0xff, 0x80, 0x1b, 0x1a, 0x76, 0x72};
			for (size_t i = 0; i < n; i++)
				b[i] = (char)pick(pat);
		} else
			for (size_t i = 0; i < n; i++)
				b[i] = (char)below(256);
	} else {
		uint64_t x = u64();
		for (size_t i = 0; i < n; i++) {
			if (i % 8 == 0 && x)
				x = mix64(x);
			b[i] = (char)(x >> (8 * (i % 8)));
		}
	}
	return b;
}

// ---------------------------------------------------------------- text

std::string strf(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	va_list ap2;
	va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, fmt, ap);
	std::string s((size_t)n, 0);
	vsnprintf(&s[0], (size_t)n + 1, fmt, ap2);
	va_end(ap);
	va_end(ap2);
	return s;
}
std::string hex(const Bytes &b, size_t max) {
	static const char d[] = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < b.size() && i < max; i++) {
		s += d[(uint8_t)b[i] >> 4];
		s += d[(uint8_t)b[i] & 15];
	}
	if (b.size() > max)
		s += strf("...(%zu bytes)", b.size());
	return s;
}
std::string shortstr(const std::string &s, size_t max) {
	return s.size() <= max ? s : s.substr(0, max) + strf("...(%zu)", s.size());
}
std::string first_diff(const std::string &a, const std::string &b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i])
		i++;
	size_t st = i > 40 ? i - 40 : 0;
	return strf("at %zu: expected ...%s  got ...%s", i, shortstr(a.substr(std::min(st, a.size())), 160).c_str(),
				shortstr(b.substr(std::min(st, b.size())), 160).c_str());
}

// ---------------------------------------------------------------- case services

#ifdef FUZZ_MAIN
static void dump_choices();
#endif
void fail(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (sh) {
		vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
		sh->have_msg = 1;
	}
	va_end(ap);
#ifdef FUZZ_MAIN
	fprintf(stderr, "ORACLE: %s\n", sh->msg);
	dump_choices();
#endif
	_exit(77);
}
void label(const char *name) { labels[name]++; }
void nontrivial(uint64_t h) {
	if (sh && sh->nhash < hashes_cap)
		hashes[sh->nhash++] = h;
	labels["(non-trivial)"]++;
}
bool want_sample() { return case_sample && samples.size() < 3; }
void sample(const std::string &t) {
	if (want_sample()) {
		samples.push_back(shortstr(t, 1500));
		case_sample = false;
	}
}
void note_known(const char *t) { knowns.insert(t); }

static std::string jesc(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			o += strf("\\%c", c);
		else if (c < 0x20 || c >= 0x7f)
			o += strf("\\u%04x", c);
		else
			o += (char)c;
	}
	return o + "\"";
}

// for the terminal and for the check's output: bytes that are not printable ASCII become \xNN
static std::string plain(const std::string &s) {
	std::string o;
	for (unsigned char c : s)
		if (c == '\n' || c == '\t' || (c >= 0x20 && c < 0x7f))
			o += (char)c;
		else
			o += strf("\\x%02x", c);
	return o;
}

// ---------------------------------------------------------------- workers

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=0:"
		   "handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=8";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));

static void child_setup() {
	int n = open("/dev/null", O_RDWR);
	dup2(n, 0);
	dup2(n, 1);
	dup2(n, 2);
	if (n > 2)
		close(n);
	signal(SIGPIPE, SIG_IGN);
	signal(SIGPROF, SIG_DFL);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (!getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur > 8 << 20) { // the usual one, so that a run does not depend on the machine
		rl.rlim_cur = 8 << 20;
		setrlimit(RLIMIT_STACK, &rl);
	}
	if (__sanitizer_set_report_path)
		__sanitizer_set_report_path(strf("%s/san", workdir).c_str());
}
static void arm_cpu(int sec) {
	struct itimerval tv = {{0, 0}, {sec, 0}};
	setitimer(ITIMER_PROF, &tv, nullptr);
}
static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static uint64_t seed_of(uint64_t seed, const Sub &sub, uint64_t idx) {
	return mix64(hash_bytes(sub.name, strlen(sub.name)) ^ mix64(seed)) + mix64(idx);
}
static void run_one(const Sub &sub, uint64_t seed, uint64_t idx) {
	Src s;
	s.seed(seed_of(seed, sub, idx), idx);
	sh->idx = idx;
	sh->nchoice = 0;
	case_sample = idx % 97 == 5;
	arm_cpu(CPU_LIMIT);
	sub.fn(s);
}
static void write_stats() {
	std::string o;
	for (auto &l : labels)
		o += strf("L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
	for (auto &k : knowns)
		o += "K " + k + "\n";
	for (auto &t : samples) {
		std::string e = "S " + jesc(t) + "\n";
		if (o.size() + e.size() < sizeof sh->stats)
			o += e;
	}
	memcpy(sh->stats, o.c_str(), std::min(o.size() + 1, sizeof sh->stats - 1));
}
static std::string take_report(pid_t pid) {
	std::string p = strf("%s/san.%d", workdir, (int)pid), out;
	if (FILE *f = fopen(p.c_str(), "r")) {
		char b[6000];
		size_t n = fread(b, 1, sizeof b, f);
		fclose(f);
		out.assign(b, n);
		unlink(p.c_str());
	}
	return out;
}
// a one-line summary of why a child ended
static std::string cause(pid_t pid, int st, Shared *s, bool hung) {
	std::string rep = take_report(pid);
	if (hung)
		return "the case did not finish (no progress)";
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && s->have_msg)
		return s->msg;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF)
		return strf("the case used more than %d s of CPU time", CPU_LIMIT);
	std::string line;
	size_t p = rep.find("ERROR: ");
	if (p == std::string::npos)
		p = rep.find("runtime error:");
	if (p != std::string::npos) {
		size_t b = rep.rfind('\n', p);
		b = b == std::string::npos ? 0 : b + 1;
		line = rep.substr(b, rep.find('\n', p) - b);
		// first frames inside the library
		size_t q = p, shown = 0;
		while ((q = rep.find("\n    #", q + 1)) != std::string::npos && shown < 4) {
			size_t e = rep.find('\n', q + 1);
			line += " |" + rep.substr(q + 5, std::min<size_t>(e - q - 5, 140));
			shown++;
		}
	}
	if (line.empty())
		line = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
	return line;
}
static void msleep(int ms) {
	struct timespec t = {ms / 1000, (ms % 1000) * 1000000L};
	nanosleep(&t, nullptr);
}
static bool wait_child(pid_t pid, int *st, double limit) {
	double t0 = now();
	int ms = 0;
	for (;;) {
		pid_t r = waitpid(pid, st, WNOHANG);
		if (r == pid)
			return true;
		if (now() - t0 > limit) {
			kill(pid, SIGKILL);
			waitpid(pid, st, 0);
			return false;
		}
		if (ms < 5)
			ms++;
		struct timespec t = {0, ms * 200000L};
		nanosleep(&t, nullptr);
	}
}
static Shared *new_shared() {
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (Shared *)p;
}

static Shared *rsh; // for replays
// runs one choice sequence in a fresh process; true if it fails
static bool fails(const Sub &sub, const std::vector<uint64_t> &c, std::string *why, std::vector<uint64_t> *used) {
	if (!rsh)
		rsh = new_shared();
	rsh->have_msg = 0;
	rsh->nchoice = 0;
	rsh->done = 0;
	pid_t pid = fork();
	if (pid == 0) {
		child_setup();
		sh = rsh;
		hashes_cap = 0;
		if (sub.init)
			sub.init();
		Src s;
		s.mode = Src::REPLAY;
		s.rep = c.data();
		s.rep_n = c.size();
		arm_cpu(CPU_LIMIT);
		sub.fn(s);
		rsh->done = 1;
		_exit(0);
	}
	int st = 0;
	bool ended = wait_child(pid, &st, WALL_LIMIT);
	if (used)
		used->assign(rsh->choice, rsh->choice + rsh->nchoice);
	if (ended && WIFEXITED(st) && WEXITSTATUS(st) == 0 && rsh->done == 1) {
		take_report(pid);
		return false;
	}
	std::string w = cause(pid, st, rsh, !ended);
	if (why)
		*why = w;
	return true;
}
// runs a sequence of cases in one fresh process; true if the last one fails
static bool fails_seq(const Sub &sub, uint64_t seed, const std::vector<uint64_t> &idx, std::string *why) {
	if (!rsh)
		rsh = new_shared();
	rsh->have_msg = 0;
	rsh->done = 0;
	pid_t pid = fork();
	if (pid == 0) {
		child_setup();
		sh = rsh;
		hashes_cap = 0;
		if (sub.init)
			sub.init();
		for (uint64_t i : idx) {
			run_one(sub, seed, i);
			rsh->done++;
		}
		_exit(0);
	}
	int st = 0;
	bool ended = wait_child(pid, &st, WALL_LIMIT + 0.1 * (double)idx.size());
	if (ended && WIFEXITED(st) && WEXITSTATUS(st) == 0 && rsh->done == idx.size()) {
		take_report(pid);
		return false;
	}
	std::string w = cause(pid, st, rsh, !ended);
	if (why)
		*why = w;
	return true;
}

static void shrink(const Sub &sub, std::vector<uint64_t> &c, std::string &why) {
	double t0 = now();
	int left = 4000;
	auto attempt = [&](const std::vector<uint64_t> &d) {
		if (left <= 0 || now() - t0 > 45)
			return false;
		left--;
		std::vector<uint64_t> used;
		std::string w;
		if (!fails(sub, d, &w, &used))
			return false;
		// keep what was really consumed, without trailing zeros
		std::vector<uint64_t> n = used.size() <= d.size() ? used : d;
		while (!n.empty() && n.back() == 0)
			n.pop_back();
		c = n;
		why = w;
		return true;
	};
	while (!c.empty() && c.back() == 0)
		c.pop_back();
	bool progress = true;
	while (progress && left > 0 && now() - t0 < 45) {
		progress = false;
		for (size_t w : {512, 128, 32, 16, 8, 4, 3, 2, 1}) {
			for (size_t i = 0; i + w <= c.size();) {
				std::vector<uint64_t> d(c);
				d.erase(d.begin() + (long)i, d.begin() + (long)(i + w));
				size_t before = c.size();
				if (attempt(d) && c.size() < before)
					progress = true;
				else
					i += w > 4 ? w / 2 : 1;
				if (left <= 0 || now() - t0 > 45)
					return;
			}
		}
		for (size_t w : {16, 4, 1})
			for (size_t i = 0; i + w <= c.size(); i += w) {
				std::vector<uint64_t> d(c);
				bool any = false;
				for (size_t k = i; k < i + w; k++) {
					any |= d[k] != 0;
					d[k] = 0;
				}
				if (any && attempt(d))
					progress = true;
			}
		for (size_t i = 0; i < c.size(); i++) {
			uint64_t lo = 0;
			while (i < c.size() && c[i] > lo) {
				std::vector<uint64_t> d(c);
				uint64_t mid = lo + (c[i] - lo) / 2;
				d[i] = mid;
				if (attempt(d))
					progress = true;
				else
					lo = mid + 1;
				if (left <= 0 || now() - t0 > 45)
					return;
			}
		}
	}
}

struct Result {
	uint64_t evaluations = 0, nontriv = 0;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	std::set<std::string> knowns;
	bool violated = false;
	std::string why, replay;
	int unreproduced = 0;
};

static void write_replay(const char *prop, const Sub &sub, const std::string &path, const std::string &why,
						 const std::vector<uint64_t> &c, uint64_t seed, const std::vector<uint64_t> &seq) {
	FILE *f = fopen(path.c_str(), "w");
	if (!f)
		return;
	fprintf(f, "property %s\nsub %s\nwhy %s\n", prop, sub.name, jesc(why).c_str());
	if (!seq.empty()) {
		fprintf(f, "seed %llu\ncases", (unsigned long long)seed);
		for (uint64_t i : seq)
			fprintf(f, " %llu", (unsigned long long)i);
	} else {
		fprintf(f, "choices");
		for (uint64_t i : c)
			fprintf(f, " %llu", (unsigned long long)i);
	}
	fprintf(f, "\n");
	fclose(f);
}

static Result run_sub(const char *prop, const Sub &sub, uint64_t seed, uint64_t count, const std::string &replay_path) {
	Result R;
	Shared *S[MAXWORKERS];
	uint64_t *H[MAXWORKERS];
	pid_t pid[MAXWORKERS];
	uint64_t last_idx[MAXWORKERS];
	double last_t[MAXWORKERS];
	size_t cap = (size_t)(count / NWORKERS + 16) * 2;
	std::vector<std::string> stats_done;
	auto start = [&](int w, uint64_t from) {
		S[w]->have_msg = 0;
		last_idx[w] = ~0ull;
		last_t[w] = now();
		pid[w] = fork();
		if (pid[w] < 0) {
			perror("fork");
			exit(2);
		}
		if (pid[w] == 0) {
			child_setup();
			sh = S[w];
			hashes = H[w];
			hashes_cap = cap;
			labels.clear();
			samples.clear();
			if (sub.init)
				sub.init();
			for (uint64_t i = from; i < count; i += NWORKERS) {
				run_one(sub, seed, i);
				sh->done++;
			}
			arm_cpu(0);
			write_stats();
			_exit(0);
		}
	};
	for (int w = 0; w < NWORKERS; w++) {
		S[w] = new_shared();
		H[w] = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		S[w]->done = 0;
		start(w, (uint64_t)w);
	}
	int alive = NWORKERS;
	auto stop_all = [&](int except) {
		for (int w = 0; w < NWORKERS; w++)
			if (w != except && pid[w] > 0) {
				kill(pid[w], SIGKILL);
				waitpid(pid[w], nullptr, 0);
				pid[w] = 0;
			}
	};
	while (alive > 0 && !R.violated) {
		bool any = false;
		for (int w = 0; w < NWORKERS && !R.violated; w++) {
			if (pid[w] <= 0)
				continue;
			int st = 0;
			bool hung = false;
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			if (r == 0) {
				if (S[w]->idx != last_idx[w]) {
					last_idx[w] = S[w]->idx;
					last_t[w] = now();
				} else if (now() - last_t[w] > WALL_LIMIT) {
					kill(pid[w], SIGKILL);
					waitpid(pid[w], &st, 0);
					hung = true;
				}
				if (!hung)
					continue;
			}
			any = true;
			pid_t p = pid[w];
			pid[w] = 0;
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				alive--;
				continue;
			}
			// a failing case: confirm it in fresh processes
			uint64_t idx = S[w]->idx;
			std::vector<uint64_t> c(S[w]->choice, S[w]->choice + S[w]->nchoice);
			std::string why = cause(p, st, S[w], hung);
			int ok = 0;
			for (int k = 0; k < 3; k++)
				if (fails(sub, c, &why, nullptr))
					ok++;
				else
					break;
			if (ok == 3) {
				stop_all(w);
				if (!no_shrink && why.find("did not finish") == std::string::npos && why.find("CPU time") == std::string::npos)
					shrink(sub, c, why);
				R.violated = true;
				R.why = why;
				R.replay = replay_path;
				write_replay(prop, sub, replay_path, why, c, seed, {});
				break;
			}
			// perhaps it depends on the cases before it
			std::vector<uint64_t> all;
			for (uint64_t i = idx % NWORKERS; i <= idx; i += NWORKERS)
				all.push_back(i);
			bool found = false;
			for (size_t k = 2;; k *= 4) {
				if (k > all.size())
					k = all.size();
				std::vector<uint64_t> seq(all.end() - (long)k, all.end());
				std::string w2;
				if (fails_seq(sub, seed, seq, &w2) && fails_seq(sub, seed, seq, &w2) && fails_seq(sub, seed, seq, &w2)) {
					stop_all(w);
					R.violated = found = true;
					R.why = w2 + " (depends on earlier cases in the same process)";
					R.replay = replay_path;
					write_replay(prop, sub, replay_path, R.why, {}, seed, seq);
					break;
				}
				if (k >= all.size())
					break;
			}
			if (found)
				break;
			R.unreproduced++;
			fprintf(stderr, "note: %s/%s case %llu ended once (%s) but does not reproduce\n", prop, sub.name,
					(unsigned long long)idx, why.c_str());
			if (R.unreproduced > 20) { // something is wrong with the environment
				alive--;
				continue;
			}
			start(w, idx + NWORKERS);
		}
		if (!any)
			msleep(3);
	}
	std::vector<uint64_t> hs;
	for (int w = 0; w < NWORKERS; w++) {
		R.evaluations += S[w]->done;
		for (uint64_t i = 0; i < S[w]->nhash; i++)
			hs.push_back(H[w][i]);
		char *line = strtok(S[w]->stats, "\n");
		for (; line; line = strtok(nullptr, "\n")) {
			if (line[0] == 'L') {
				char *e;
				uint64_t v = strtoull(line + 2, &e, 10);
				R.labels[e + 1] += v;
			} else if (line[0] == 'S' && R.samples.size() < 4)
				R.samples.push_back(line + 2);
			else if (line[0] == 'K')
				R.knowns.insert(line + 2);
		}
		munmap(S[w], sizeof(Shared));
		munmap(H[w], cap * 8);
	}
	std::sort(hs.begin(), hs.end());
	R.nontriv = (uint64_t)(std::unique(hs.begin(), hs.end()) - hs.begin());
	return R;
}

#ifndef FUZZ_MAIN

static int replay_file(const Prop &P, const char *path) {
	FILE *f = fopen(path, "r");
	if (!f) {
		perror(path);
		return 2;
	}
	std::string all;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0)
		all.append(b, n);
	fclose(f);
	std::string subname;
	uint64_t seed = 0;
	std::vector<uint64_t> c, seq;
	size_t i = 0;
	while (i < all.size()) {
		size_t e = all.find('\n', i);
		if (e == std::string::npos)
			e = all.size();
		std::string l = all.substr(i, e - i);
		i = e + 1;
		auto nums = [&](size_t off, std::vector<uint64_t> &v) {
			const char *p = l.c_str() + off;
			char *q;
			for (;;) {
				uint64_t x = strtoull(p, &q, 10);
				if (q == p)
					break;
				v.push_back(x);
				p = q;
			}
		};
		if (l.rfind("sub ", 0) == 0)
			subname = l.substr(4);
		else if (l.rfind("seed ", 0) == 0)
			seed = strtoull(l.c_str() + 5, nullptr, 10);
		else if (l.rfind("choices", 0) == 0)
			nums(7, c);
		else if (l.rfind("cases", 0) == 0)
			nums(5, seq);
	}
	for (auto &s : P.subs)
		if (subname == s.name) {
			std::string why;
			bool bad = seq.empty() ? fails(s, c, &why, nullptr) : fails_seq(s, seed, seq, &why);
			printf("%s/%s: %s%s\n", P.id, s.name, bad ? "FAILS: " : "passes", bad ? plain(why).c_str() : "");
			return bad ? 1 : 0;
		}
	fprintf(stderr, "no sub-check named %s in %s\n", subname.c_str(), P.id);
	return 2;
}

int main(int argc, char **argv) {
	uint64_t seed = 1;
	bool thorough = false;
	double scale = 1;
	const char *out = nullptr, *replay = nullptr, *only = nullptr;
	std::string rdir = ".";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") seed = strtoull(val(), nullptr, 10);
		else if (a == "--thorough") thorough = true;
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--sub") only = val();
		else if (a == "--scale") scale = atof(val());
		else if (a == "--replay-dir") rdir = val();
		else if (a == "--work") snprintf(workdir, sizeof workdir, "%s", val());
	}
	if (const char *e = getenv("SML_WORKERS"))
		NWORKERS = std::max(1, std::min(MAXWORKERS, atoi(e)));
	no_shrink = getenv("SML_NO_SHRINK") != nullptr;
	Prop P = the_prop();
	if (replay)
		return replay_file(P, replay);
	std::string json = "{\"subs\":[";
	bool violated = false, first = true;
	for (auto &s : P.subs) {
		if (only && strcmp(only, s.name))
			continue;
		double t0 = now();
		uint64_t count = (uint64_t)((double)(thorough ? s.thorough : s.quick) * scale);
		if (count < 1)
			count = 1;
		Result R = run_sub(P.id, s, seed, count, rdir + "/" + P.id + "-" + s.name + ".replay");
		if (!first)
			json += ",";
		first = false;
		json += strf("{\"sub\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"wall\":%.2f,\"unreproduced\":%d,\"rule\":%s,\"labels\":{",
					 s.name, (unsigned long long)R.evaluations, (unsigned long long)R.nontriv, now() - t0, R.unreproduced,
					 jesc(s.rule).c_str());
		bool f2 = true;
		for (auto &l : R.labels) {
			json += strf("%s%s:%llu", f2 ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second);
			f2 = false;
		}
		json += "},\"samples\":[";
		f2 = true;
		for (auto &t : R.samples) {
			json += (f2 ? "" : ",") + t;
			f2 = false;
		}
		json += "],\"known\":[";
		f2 = true;
		for (auto &t : R.knowns) {
			json += (f2 ? "" : ",") + jesc(t);
			f2 = false;
		}
		json += strf("],\"violation\":%s,\"replay\":%s}", R.violated ? jesc(R.why).c_str() : "null",
					 R.violated ? jesc(R.replay).c_str() : "null");
		fprintf(stderr, "%s/%s: %llu cases, %llu distinct non-trivial, %.1f s%s%s\n", P.id, s.name,
				(unsigned long long)R.evaluations, (unsigned long long)R.nontriv, now() - t0, R.violated ? " VIOLATED: " : "",
				R.violated ? plain(R.why).c_str() : "");
		if (R.violated) {
			violated = true;
			break;
		}
	}
	json += "]}\n";
	if (out) {
		FILE *f = fopen(out, "w");
		if (f) {
			fputs(json.c_str(), f);
			fclose(f);
		}
	}
	return violated ? 1 : 0;
}

#else

static const Sub *fuzz_sub;
static std::string fuzz_crash;
static void dump_choices() {
	Prop P = the_prop();
	write_replay(P.id, *fuzz_sub, fuzz_crash, sh->have_msg ? sh->msg : "sanitizer report or crash",
				 std::vector<uint64_t>(sh->choice, sh->choice + sh->nchoice), 0, {});
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	static Prop P = the_prop();
	const char *n = getenv("FUZZ_SUB");
	for (auto &s : P.subs)
		if (!n || !strcmp(n, s.name)) {
			fuzz_sub = &s;
			break;
		}
	if (!fuzz_sub) {
		fprintf(stderr, "no such sub-check\n");
		_exit(2);
	}
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	const char *c = getenv("FUZZ_CRASH");
	fuzz_crash = strf("%s.%d", c ? c : "fuzz-crash", (int)getpid());
	if (__sanitizer_set_death_callback)
		__sanitizer_set_death_callback(dump_choices);
	if (fuzz_sub->init)
		fuzz_sub->init();
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
	Src s;
	s.mode = Src::DATA;
	s.dat = d;
	s.dat_n = n;
	sh->nchoice = 0;
	sh->have_msg = 0;
	fuzz_sub->fn(s);
	return 0;
}
#endif
