// C20: generated transaction identifiers are well-formed and never repeat
#include "bridge.h"
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <pthread.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string open_fds() {
	std::vector<int> v;
	DIR *d = opendir("/proc/self/fd");
	if (!d)
		return "";
	int own = dirfd(d);
	while (dirent *e = readdir(d))
		if (e->d_name[0] != '.' && atoi(e->d_name) != own)
			v.push_back(atoi(e->d_name));
	closedir(d);
	std::sort(v.begin(), v.end());
	std::string r;
	for (int i : v)
		r += strf("%d ", i);
	return r;
}
static Bytes idof(const octet_string *t) {
	CHECK(t, "no identifier");
	CHECK(t->len == 16, "an identifier of %d bytes", t->len);
	Bytes b((const char *)t->str, 16);
	CHECK(((uint8_t)b[8] & 0xc0) == 0x80, "variant bits of %s", hex(b).c_str());
	CHECK(((uint8_t)b[6] & 0xf0) == 0x40, "version of %s", hex(b).c_str());
	return b;
}
static Bytes idof(const sml_message *m) {
	CHECK(m, "no message");
	CHECK(!m->group_id && !m->abort_on_error && !m->message_body && !m->crc, "a new message is not empty");
	return idof(m->transaction_id);
}
static void distinct(std::vector<Bytes> v, const char *what) {
	std::sort(v.begin(), v.end());
	for (size_t i = 1; i < v.size(); i++)
		CHECK(v[i] != v[i - 1], "the identifier %s appears twice (%s, %zu identifiers)", hex(v[i]).c_str(), what, v.size());
}
static bool fixed_bit(size_t i) { return (i >= 48 && i < 52) || i == 64 || i == 65; }
// every free bit varies; no two bytes are tied to each other or to the predecessor.
// Needs a few hundred identifiers: each bound is missed by chance with less than 2^-100.
static void random_looking(const std::vector<Bytes> &v) {
	if (v.size() < 300)
		return;
	auto bit = [](const Bytes &b, size_t i) { return (uint8_t)b[i / 8] >> (7 - i % 8) & 1; };
	for (size_t i = 0; i < 128; i++) {
		size_t n = 0, change = 0;
		for (size_t k = 0; k < v.size(); k++) {
			n += (size_t)bit(v[k], i);
			change += k && bit(v[k], i) != bit(v[k - 1], i);
		}
		if (fixed_bit(i))
			continue;
		// below 1/16 or above 15/16 of 300 fair coins
		CHECK(n > v.size() / 16 && n < v.size() - v.size() / 16, "bit %zu is set in %zu of %zu identifiers", i, n, v.size());
		CHECK(change > v.size() / 16 && change < v.size() - v.size() / 16, "bit %zu changes %zu times in %zu identifiers", i, change, v.size());
	}
	for (size_t i = 0; i < 16; i++)
		for (size_t j = 0; j < 16; j++) {
			size_t same = 0, cross = 0;
			for (size_t k = 0; k < v.size(); k++) {
				same += i < j && ((v[k][i] ^ v[k][j]) & 0x0f) == 0;
				cross += k && ((v[k][i] ^ v[k - 1][j]) & 0x0f) == 0;
			}
			CHECK(same < v.size() * 3 / 4, "bytes %zu and %zu agree in %zu of %zu identifiers", i, j, same, v.size());
			CHECK(cross < v.size() * 3 / 4, "byte %zu repeats byte %zu of the identifier before in %zu of %zu", i, j, cross, v.size());
		}
	if (v.size() >= 10000) { // each value of each byte but 6 and 8
		for (size_t i = 0; i < 16; i++) {
			if (i == 6 || i == 8)
				continue;
			std::vector<size_t> seen(256);
			for (auto &b : v)
				seen[(uint8_t)b[i]]++;
			for (int c = 0; c < 256; c++)
				CHECK(seen[(size_t)c] > 0, "byte %zu is never %02x in %zu identifiers", i, c, v.size());
		}
	}
}
// a mix of creating, using and freeing; every identifier is recorded
static void churn(Src &s, size_t n, std::vector<Bytes> &ids, bool use) {
	std::vector<std::pair<sml_message *, Bytes>> live;
	unsigned keep = 1 + (unsigned)s.below(40);
	unsigned mode = (unsigned)s.below(3);
	uint64_t r = s.u64();
	for (size_t i = 0; i < n; i++) {
		r = mix64(r + i);
		if (mode == 1 && r % 4 == 0) {
			octet_string *t = sml_octet_string_generate_uuid();
			ids.push_back(idof(t));
			sml_octet_string_free(t);
			continue;
		}
		sml_message *m = sml_message_init();
		ids.push_back(idof(m));
		live.push_back({m, ids.back()});
		if (use && r % 16 == 1) { // the identifier travels with the message and does not influence the next
			m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_REQUEST, sml_close_request_init());
			sml_buffer *b = sml_buffer_init(64);
			sml_message_write(m, b);
			Bytes w = bufbytes(b);
			CHECK(w.find(live.back().second) != Bytes::npos, "the written message %s lacks its identifier %s", hex(w, 60).c_str(), hex(live.back().second).c_str());
			sml_buffer *p = pbuf(w);
			sml_message *q = sml_message_parse(p);
			CHECK(q && q->transaction_id && Bytes((const char *)q->transaction_id->str, (size_t)q->transaction_id->len) == live.back().second,
				  "the parsed message has another identifier");
			sml_message_free(q);
			sml_buffer_free(p);
			sml_buffer_free(b);
		}
		while (live.size() > keep || (mode == 2 && !live.empty())) {
			size_t k = r % live.size();
			CHECK(Bytes((const char *)live[k].first->transaction_id->str, 16) == live[k].second, "an identifier changed while its message was alive");
			sml_message_free(live[k].first);
			live[k] = live.back();
			live.pop_back();
		}
	}
	for (auto &l : live) {
		CHECK(Bytes((const char *)l.first->transaction_id->str, 16) == l.second, "an identifier changed while its message was alive");
		sml_message_free(l.first);
	}
}
static void t_history(Src &s) {
	size_t n = 300 + s.below(600);
	LeakScope L;
	std::string fds = open_fds();
	std::vector<Bytes> ids;
	churn(s, n, ids, true);
	distinct(ids, "one thread");
	random_looking(ids);
	CHECK(open_fds() == fds, "open descriptors went from %s to %s", fds.c_str(), open_fds().c_str());
	L.check("messages");
	nontrivial(s.hash);
	sample(strf("%zu identifiers, last %s", ids.size(), hex(ids.back()).c_str()));
}
static void t_many(Src &s) {
	LeakScope L;
	std::string fds = open_fds();
	std::vector<Bytes> ids;
	churn(s, 100000 + s.below(40000), ids, false);
	distinct(ids, "one thread");
	random_looking(ids);
	CHECK(open_fds() == fds, "open descriptors went from %s to %s", fds.c_str(), open_fds().c_str());
	L.check("messages");
	nontrivial(s.hash);
	sample(strf("%zu identifiers, last %s", ids.size(), hex(ids.back()).c_str()));
}
#ifndef THREADS_ONLY
// systems without getrandom (the library may or may not use it)
static bool no_getrandom;
extern "C" {
ssize_t __real_getrandom(void *p, size_t n, unsigned f);
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) {
	if (no_getrandom) {
		errno = ENOSYS;
		return -1;
	}
	return __real_getrandom(p, n, f);
}
}
static void t_oldsystem(Src &s) {
	no_getrandom = true;
	t_history(s);
	no_getrandom = false;
}
// the process can open no file: still well-formed and fresh
static void t_nofile(Src &s) {
	LeakScope L;
	std::vector<Bytes> ids;
	churn(s, s.below(20), ids, false);
	struct rlimit old, none;
	getrlimit(RLIMIT_NOFILE, &old);
	none = old;
	none.rlim_cur = 0;
	setrlimit(RLIMIT_NOFILE, &none);
	size_t n = 300 + s.below(200);
	churn(s, n, ids, false);
	setrlimit(RLIMIT_NOFILE, &old);
	churn(s, s.below(20), ids, false);
	distinct(ids, "no descriptors left for a while");
	random_looking(ids);
	L.check("messages");
	nontrivial(s.hash);
	sample(strf("%zu identifiers, last %s", ids.size(), hex(ids.back()).c_str()));
}
// several processes, forked before or after the first identifier
static void t_forks(Src &s) {
	std::vector<Bytes> ids;
	bool first = s.flip();
	if (first)
		churn(s, 1 + s.below(30), ids, false);
	size_t np = 2 + s.below(3), per = 20 + s.below(200);
	std::vector<int> rd;
	std::vector<pid_t> pid;
	for (size_t k = 0; k < np; k++) {
		int p[2];
		if (pipe(p))
			abort();
		pid_t c = fork();
		if (c < 0)
			abort();
		if (c == 0) {
			close(p[0]);
			std::string out;
			for (size_t i = 0; i < per; i++) {
				sml_message *m = sml_message_init();
				if (!m || !m->transaction_id || m->transaction_id->len != 16)
					_exit(1);
				out.append((const char *)m->transaction_id->str, 16);
				sml_message_free(m);
			}
			size_t o = 0;
			while (o < out.size()) {
				ssize_t w = write(p[1], out.data() + o, out.size() - o);
				if (w <= 0)
					_exit(2);
				o += (size_t)w;
			}
			_exit(0);
		}
		close(p[1]);
		rd.push_back(p[0]);
		pid.push_back(c);
	}
	for (size_t k = 0; k < np; k++) {
		std::string in;
		char buf[4096];
		ssize_t r;
		while ((r = read(rd[k], buf, sizeof(buf))) > 0)
			in.append(buf, (size_t)r);
		close(rd[k]);
		int st = 0;
		waitpid(pid[k], &st, 0);
		CHECK(st == 0 && in.size() == per * 16, "a forked process failed (status %x)", st);
		for (size_t i = 0; i < per; i++) {
			octet_string t = {(unsigned char *)&in[i * 16], 16};
			ids.push_back(idof(&t));
		}
	}
	churn(s, 1 + s.below(30), ids, false);
	distinct(ids, "several processes");
	nontrivial(s.hash);
	label(first ? "forked after the first identifier" : "forked before");
	sample(strf("%zu processes with %zu identifiers each", np, per));
}
#endif
struct Job {
	size_t n;
	unsigned keep;
	std::vector<Bytes> ids;
};
static void *run(void *p) {
	Job *j = (Job *)p;
	std::vector<sml_message *> live;
	for (size_t i = 0; i < j->n; i++) {
		sml_message *m = sml_message_init();
		if (!m || !m->transaction_id || m->transaction_id->len != 16) {
			j->ids.push_back("");
			continue;
		}
		j->ids.push_back(Bytes((const char *)m->transaction_id->str, 16));
		live.push_back(m);
		if (live.size() > j->keep) {
			sml_message_free(live.front());
			live.erase(live.begin());
		}
	}
	for (auto m : live)
		sml_message_free(m);
	return nullptr;
}
static void t_threads(Src &s) {
	size_t n = 2 + s.below(4);
	std::vector<Job> jobs(n);
	std::vector<pthread_t> t(n);
	for (auto &j : jobs) {
		j.n = 50 + s.below(400);
		j.keep = (unsigned)s.below(4);
	}
	for (size_t i = 0; i < n; i++)
		if (pthread_create(&t[i], nullptr, run, &jobs[i]))
			abort();
	for (size_t i = 0; i < n; i++)
		pthread_join(t[i], nullptr);
	std::vector<Bytes> ids;
	for (auto &j : jobs)
		for (auto &b : j.ids) {
			octet_string x = {(unsigned char *)&b[0], (int)b.size()};
			ids.push_back(idof(&x));
		}
	distinct(ids, "several threads");
	nontrivial(s.hash);
	label(strf("%zu threads", n).c_str());
	sample(strf("%zu threads, %zu identifiers", n, ids.size()));
}
Prop the_prop() {
#ifdef THREADS_ONLY
	return {"C20", {{"threads", t_threads, 3000, 60000, "two to five threads creating and freeing messages under ThreadSanitizer; every case is non-trivial", nullptr, false}}};
#else
	return {"C20",
			{{"history", t_history, 6000, 120000, "300 to 900 messages created, written, parsed and freed in mixed order; every case is non-trivial", nullptr, false},
			 {"many", t_many, 24, 400, "100,000 or more identifiers in one process; every case is non-trivial", nullptr, false},
			 {"oldsystem", t_oldsystem, 2000, 40000, "as history, with getrandom failing; every case is non-trivial", nullptr, false},
			 {"nofile", t_nofile, 2000, 40000, "no descriptor can be opened for a while; every case is non-trivial", nullptr, false},
			 {"forks", t_forks, 1500, 30000, "identifiers of two to four forked processes and their parent; every case is non-trivial", nullptr, false}}};
#endif
}
