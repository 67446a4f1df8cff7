// C18, part two: several threads with their own files (built with ThreadSanitizer)
#include "bridge.h"
#include "mutate.h"
#include <atomic>
#include <pthread.h>
#include <algorithm>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>

extern "C" const char *__tsan_default_options() {
	return "exitcode=99:halt_on_error=1:report_thread_leaks=0:die_after_fork=0:history_size=2";
}
struct In {
	Bytes file;
	std::vector<std::pair<T, Bytes>> elements;
};
struct Job {
	std::vector<In> in;
	std::vector<std::string> alone, got;
	unsigned what;
	std::atomic<int> *go;
};
static thread_local std::string *heard;
static void receiver(unsigned char *b, size_t n) { *heard += " " + hex(Bytes((char *)b, n), (size_t)-1); }
static std::string work(const In &in, unsigned what) {
	const Bytes &b = in.file;
	sml_file *f = lparse_file(b);
	std::string d = ldump_file(f);
	if (what & 1) {
		size_t from = f->buf->cursor;
		sml_file_write(f);
		d += hex(bufbytes(f->buf, from), (size_t)-1);
	}
	if (what & 2 && b.size() < 20000) { // through a pipe
		int p[2];
		if (pipe(p))
			abort();
		int w = sml_transport_write(p[1], f);
		close(p[1]);
		std::vector<unsigned char> buf(60000);
		size_t r = sml_transport_read(p[0], buf.data(), buf.size());
		close(p[0]);
		d += strf(" %d ", w) + hex(Bytes((char *)buf.data(), r), (size_t)-1);
	}
	if (what & 32) { // output (where standard output is not ours)
		sml_file_print(f);
		std::vector<unsigned char> own(b.begin(), b.end());
		sml_hexdump(own.data(), own.size());
	}
	sml_file_free(f);
	if (what & 4) { // creation, conversion and comparison
		sml_message *m = sml_message_init();
		sml_message_free(m);
		std::string h = hex(b.substr(0, 300), (size_t)-1);
		h.erase(std::remove_if(h.begin(), h.end(), [](char c) { return !isxdigit((unsigned char)c); }), h.end());
		if (h.size() % 2 || h.empty())
			h += h.empty() ? "a0" : "0";
		std::string h2 = h;
		octet_string *o = sml_octet_string_init_from_hex(&h[0]), *o2;
		d += strf(" %d", sml_octet_string_cmp_with_hex(o, &h[0]));
		h2[h2.size() / 2] ^= 1;
		d += strf(" %d", sml_octet_string_cmp_with_hex(o, &h2[0]) != 0);
		o2 = sml_octet_string_init_from_hex(&h2[0]);
		d += strf(" %d ", sml_octet_string_cmp(o, o2) != 0) + hex(Bytes((char *)o->str, (size_t)o->len), (size_t)-1) + " " +
			 hex(Bytes((char *)o2->str, (size_t)o2->len), (size_t)-1);
		sml_octet_string_free(o);
		sml_octet_string_free(o2);
		sml_value *v = sml_value_init();
		v->type = SML_TYPE_OCTET_STRING;
		v->data.bytes = sml_octet_string_init((unsigned char *)b.data(), (int)b.size());
		char *t = nullptr;
		sml_value_to_strhex(v, &t, true);
		d += t ? t : "-";
		free(t);
		sml_value_free(v);
		v = sml_value_init();
		v->type = SML_TYPE_INTEGER | SML_TYPE_NUMBER_32;
		int32_t n = (int32_t)hash_str(b);
		v->data.int32 = sml_i32_init(n);
		d += strf(" %.17g", sml_value_to_double(v));
		sml_value_free(v);
		std::vector<unsigned char> own(b.begin(), b.end()); // a checksum over own bytes
		d += strf(" %x", sml_crc16_calculate(own.data(), (int)own.size()));
		o = sml_octet_string_generate_uuid();
		d += strf(" %d", o->len);
		sml_octet_string_free(o);
	}
	if (what & 8 && b.size() < 20000) { // listening to a stream with the file twice
		int p[2];
		if (pipe(p))
			abort();
		Bytes fr = frame(b) + frame(b);
		if (write(p[1], fr.data(), fr.size()) != (ssize_t)fr.size())
			abort();
		close(p[1]);
		heard = &d;
		sml_transport_listen(p[0], receiver);
		close(p[0]);
	}
	if (what & 16) { // element by element
		for (auto &x : in.elements) {
			sml_buffer *buf = pbuf(x.second);
			void *e = lparse_element(x.first, buf);
			d += strf(" %d ", buf->error);
			if (e && !buf->error) {
				d += ldump_element(x.first, e);
				sml_buffer *w = sml_buffer_init(64);
				lwrite_element(x.first, e, w);
				d += hex(bufbytes(w), (size_t)-1);
				sml_buffer_free(w);
			}
			if (e)
				lfree_element(x.first, e);
			sml_buffer_free(buf);
		}
	}
	return d;
}
static void *run(void *p) {
	Job *j = (Job *)p;
	j->go->fetch_sub(1, std::memory_order_relaxed);
	while (j->go->load(std::memory_order_relaxed) > 0)
		;
	for (auto &b : j->in)
		j->got.push_back(work(b, j->what));
	return nullptr;
}
static std::vector<Job> gen_jobs(Src &s, uint64_t &h, unsigned most, unsigned uses) {
	std::vector<Job> jobs(2 + s.below(3));
	for (auto &j : jobs) {
		j.what = (unsigned)s.below(uses);
		for (size_t k = 1 + s.below(most); k > 0; k--) {
			Bytes b;
			if (s.chance(1, 3))
				b = hostile_file(s);
			else {
				Gen g;
				g.wire = true;
				g.dzg = s.flip();
				b = gen_file(s, g, 3);
			}
			if (b.size() > 5000)
				b.resize(5000);
			j.in.push_back({b, {}});
			h = mix64(h ^ hash_str(b));
			for (size_t e = j.what & 16 ? 1 + s.below(8) : 0; e > 0; e--) {
				T t = ELEMENTS[s.below(ELEMENTS.size())];
				Gen g;
				g.wire = true;
				g.budget = 15;
				g.empty_oct = s.flip();
				Bytes x = s.chance(1, 4) ? hostile_element(s, t) : encode(gen(s, g, t));
				h = mix64(h ^ hash_str(x));
				j.in.back().elements.push_back({t, x});
			}
		}
	}
	return jobs;
}
static void start(std::vector<Job> &jobs) {
	std::atomic<int> go((int)jobs.size());
	std::vector<pthread_t> t(jobs.size());
	for (size_t i = 0; i < jobs.size(); i++) {
		jobs[i].go = &go;
		if (pthread_create(&t[i], nullptr, run, &jobs[i]))
			abort();
	}
	for (auto &x : t)
		pthread_join(x, nullptr);
}
static std::string compare(std::vector<Job> &jobs, bool &some) {
	for (size_t i = 0; i < jobs.size(); i++)
		for (size_t k = 0; k < jobs[i].in.size(); k++) {
			if (jobs[i].got[k] != jobs[i].alone[k])
				return strf("thread %zu of %zu: ", i, jobs.size()) + first_diff(jobs[i].alone[k], jobs[i].got[k]) + " | file " +
					   hex(jobs[i].in[k].file, 600);
			some |= jobs[i].alone[k].size() > 1 && jobs[i].alone[k][0] != ' '; // a file with messages
		}
	return "";
}
static void alone(std::vector<Job> &jobs) {
	for (auto &j : jobs)
		for (auto &b : j.in)
			j.alone.push_back(work(b, j.what));
}
static void t_threads(Src &s) {
	uint64_t h = 0;
	bool some = false;
	auto jobs = gen_jobs(s, h, 5, 32);
	alone(jobs);
	start(jobs);
	std::string bad = compare(jobs, some);
	CHECK(bad.empty(), "%s", bad.c_str());
	if (some)
		nontrivial(h);
	label(strf("%zu threads", jobs.size()).c_str());
}
// in a process that has not used the library before: initialisation at the first use races as well
static void t_first(Src &s) {
	uint64_t h = 0;
	auto jobs = gen_jobs(s, h, 2, 64);
	int p[2];
	if (pipe(p))
		abort();
	pid_t c = fork();
	if (!c) {
		bool some = false;
		if (dup2(open("/dev/null", O_WRONLY), 1) != 1)
			abort();
		start(jobs);
		alone(jobs);
		std::string r = compare(jobs, some);
		r.insert(0, 1, some ? '1' : '0');
		if (write(p[1], r.data(), std::min<size_t>(r.size(), 4000)) < 0)
			_exit(3);
		_exit(0);
	}
	close(p[1]);
	std::string r(5000, 0);
	ssize_t n = read(p[0], &r[0], r.size());
	close(p[0]);
	r.resize(n > 0 ? (size_t)n : 0);
	int st = 0;
	waitpid(c, &st, 0);
	CHECK(st == 0 && !r.empty(), "the process of the threads failed, status %x (data race, or crash)", st);
	CHECK(r.size() == 1, "%s", r.c_str() + 1);
	if (r[0] == '1')
		nontrivial(h);
	label(strf("%zu threads", jobs.size()).c_str());
}
Prop the_prop() {
	return {"C18", {{"threads", t_threads, 6000, 120000, "two to four threads parsing, writing, sending, receiving, converting and comparing their own files, elements and texts; non-trivial = messages are delivered", nullptr, false},
					{"first", t_first, 3000, 60000, "the same, and printing, in a new process whose first use of the library this is", nullptr, false}}};
}
