// C21: printed summaries and hex dumps reflect their input and change nothing
#include "bridge.h"
#include "mutate.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

// what is printed to standard output meanwhile
template <class F> static Bytes printed(F f) {
	static int mem = memfd_create("out", 0);
	fflush(stdout);
	if (mem < 0 || ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET))
		abort();
	int old = dup(1);
	if (old < 0 || dup2(mem, 1) < 0)
		abort();
	f();
	fflush(stdout);
	if (dup2(old, 1) < 0)
		abort();
	close(old);
	off_t n = lseek(mem, 0, SEEK_END);
	Bytes b((size_t)n, 0);
	if (pread(mem, &b[0], b.size(), 0) != (ssize_t)n)
		abort();
	return b;
}
static std::vector<Bytes> words(const Bytes &line) {
	std::vector<Bytes> v;
	Bytes w;
	for (char c : line + " ") {
		if (isalnum((unsigned char)c))
			w += c;
		else if (!w.empty()) {
			v.push_back(w);
			w.clear();
		}
	}
	return v;
}
static std::vector<Bytes> lines(const Bytes &t) {
	std::vector<Bytes> v;
	Bytes l;
	for (char c : t)
		if (c == '\n') {
			v.push_back(l);
			l.clear();
		} else
			l += c;
	CHECK(l.empty(), "the output does not end with a line break: %s", l.c_str());
	return v;
}
// the numbers in a line, as they are written
static std::vector<Bytes> numbers(const Bytes &line, bool hexa) {
	std::vector<Bytes> v;
	for (auto &w : words(line)) {
		bool ok = true;
		for (char c : w)
			ok &= hexa ? (isdigit((unsigned char)c) || (c >= 'A' && c <= 'F')) : !!isdigit((unsigned char)c);
		if (ok)
			v.push_back(w);
	}
	return v;
}
static void check_print(sml_file *f, const std::vector<uint32_t> &tags, size_t bytes) {
	std::string before = ldump_file(f);
	size_t cursor = f->buf->cursor;
	Bytes out = printed([&] { sml_file_print(f); });
	CHECK(ldump_file(f) == before && f->buf->cursor == cursor, "printing changed the file");
	auto l = lines(out);
	CHECK(l.size() == tags.size() + 1, "%zu lines for %zu messages: %s", l.size(), tags.size(), out.substr(0, 600).c_str());
	auto n = numbers(l[0], false);
	CHECK(n.size() == 2 && n[0] == std::to_string(tags.size()) && n[1] == std::to_string(bytes), "a file of %zu messages and %zu bytes is introduced as: %s", tags.size(),
		  bytes, l[0].c_str());
	for (size_t i = 0; i < tags.size(); i++) {
		auto m = numbers(l[i + 1], true);
		CHECK(!m.empty() && strtoul(m.back().c_str(), nullptr, 16) == tags[i], "message %zu of %zu, type %X, is listed as: %s", i, tags.size(), tags[i], l[i + 1].c_str());
	}
	Bytes again = printed([&] { sml_file_print(f); });
	CHECK(again == out, "printing again gives something else: %s", again.substr(0, 600).c_str());
}
static void t_file(Src &s) {
	LeakScope L;
	Gen g;
	std::vector<uint32_t> tags;
	sml_file *f;
	size_t bytes;
	if (s.flip()) { // built, perhaps written
		f = sml_file_init();
		g.budget = 60;
		for (size_t n = s.below(6); n > 0; n--) {
			Node m = gen_message(s, g);
			sml_file_add_message(f, lbuild_message(m));
			tags.push_back((uint32_t)m.c[3].c[0].v);
		}
		for (size_t n = s.below(3); n > 0; n--)
			sml_file_write(f);
		bytes = f->buf->cursor;
		label(bytes ? "built and written" : "built");
	} else {
		g.wire = true;
		Bytes b = s.chance(1, 4) ? hostile_file(s) : gen_file(s, g, 5);
		f = lparse_file(b);
		for (int i = 0; i < f->messages_len; i++)
			tags.push_back(*f->messages[i]->message_body->tag);
		bytes = f->buf->cursor;
		label("parsed");
	}
	check_print(f, tags, bytes);
	if (tags.size() > 1)
		nontrivial(hash_str(ldump_file(f)));
	sml_file_free(f);
	L.check("printing");
}
// many messages, around the widths of counters
static void t_many(Src &s) {
	LeakScope L;
	Gen g;
	static const size_t N[] = {9, 10, 99, 100, 127, 128, 255, 256, 257, 511, 999, 1000, 1024};
	size_t n = s.chance(1, 40) ? 32760 + s.below(33000) : s.pick(N) + s.below(3);
	std::vector<uint32_t> tags;
	sml_file *f = sml_file_init();
	Node kinds[4];
	for (auto &k : kinds) {
		g.budget = 20;
		k = gen_message(s, g);
	}
	for (size_t i = 0; i < n; i++) {
		const Node &m = kinds[mix64(i) % 4];
		sml_file_add_message(f, lbuild_message(m));
		tags.push_back((uint32_t)m.c[3].c[0].v);
	}
	if (s.flip())
		sml_file_write(f);
	check_print(f, tags, f->buf->cursor);
	nontrivial(s.hash);
	sml_file_free(f);
	L.check("printing");
}
static void t_hexdump(Src &s) {
	size_t len = s.chance(1, 2000) ? (s.flip() ? 65536 - 20 + s.below(40) : s.below(400000)) : s.chance(1, 8) ? s.below(3000) : s.below(40);
	Bytes b = s.bytes(std::min<size_t>(len, 4000));
	while (b.size() < len)
		b += b.substr(0, std::min(len - b.size(), b.size() - 1));
	LeakScope L;
	std::vector<unsigned char> v(b.begin(), b.end());
	v.shrink_to_fit();
	unsigned char none = 0;
	Bytes out = printed([&] { sml_hexdump(v.empty() ? &none : v.data(), v.size()); });
	CHECK(Bytes(v.begin(), v.end()) == b, "the bytes were changed");
	lines(out);
	Bytes got, want;
	for (unsigned char c : b)
		want += strf("%02X ", c);
	for (auto &w : words(out))
		got += w + " ";
	CHECK(got == want, "the hex dump of %s reads %s", hex(b, 200).c_str(), shortstr(out).c_str());
	L.check("hex dump");
	if (b.size() > 1)
		nontrivial(hash_str(b));
	label(b.empty() ? "empty" : b.size() <= 8 ? "one line" : "several lines");
	sample(strf("%s -> %s", hex(b, 30).c_str(), shortstr(out, 100).c_str()));
}
Prop the_prop() {
	return {"C21",
			{{"file", t_file, 100000, 2000000, "built, written and parsed files; non-trivial = at least two messages", nullptr, false},
			 {"many", t_many, 400, 10000, "files of 9 to 66000 messages; every case is non-trivial", nullptr, false},
			 {"hexdump", t_hexdump, 150000, 3000000, "byte strings of 0 to 3000, sometimes 400000 bytes; non-trivial = more than one byte", nullptr, false}}};
}
