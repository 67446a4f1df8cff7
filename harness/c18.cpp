// C18: parsing depends only on the bytes given and never on other parses
#include "bridge.h"
#include "mutate.h"

// fills stack memory below the current frame
static void __attribute__((noinline)) dirty_stack(unsigned char c) {
	volatile unsigned char a[60000];
	for (size_t i = 0; i < sizeof a; i += 1)
		a[i] = c;
}
static Bytes some_file(Src &s) {
	if (s.flip())
		return hostile_file(s);
	Gen g;
	g.wire = true;
	g.dzg = s.chance(1, 3);
	g.big = s.chance(1, 10) ? 10 : 0;
	return gen_file(s, g, 3);
}
static std::string parse_dump(const Bytes &b, bool write = false) {
	sml_file *f = lparse_file(b);
	std::string d = ldump_file(f);
	if (write) {
		size_t from = f->buf->cursor;
		sml_file_write(f);
		d += hex(bufbytes(f->buf, from), (size_t)-1);
	}
	sml_file_free(f);
	return d;
}
// the same bytes again, after other work and with other contents of uninitialised memory
static void t_repeat(Src &s) {
	Bytes b = some_file(s);
	alloc_set_fill(0xa5);
	dirty_stack(0xa5);
	std::string first = parse_dump(b, true);
	static const unsigned char fills[] = {0x00, 0xff, 0x01, 0x76};
	for (int i = 0; i < 3; i++) {
		if (s.flip()) {
			alloc_set_fill(0x5a);
			Bytes o = some_file(s);
			parse_dump(o, s.flip());
		}
		unsigned char c = s.pick(fills);
		alloc_set_fill(c);
		dirty_stack(c);
		std::string d = parse_dump(b, true);
		CHECK(d == first, "memory filled with %02x, parse %d: %s | file %s", c, i, first_diff(first, d).c_str(), hex(b, 600).c_str());
	}
	alloc_set_fill(0xa5);
	if (first.size() > 3) {
		nontrivial(hash_str(b));
		label("something delivered");
	}
}
// several files alive, parsed and freed in any order, in messages of other types too
static void t_alive(Src &s) {
	struct F {
		Bytes b;
		std::string alone;
		sml_file *f = nullptr;
	};
	size_t n = 2 + s.below(4);
	std::vector<F> v(n);
	for (auto &x : v) {
		x.b = some_file(s);
		x.alone = parse_dump(x.b);
	}
	LeakScope L;
	for (size_t k = 4 + s.below(24); k > 0; k--) {
		F &x = v[s.below(n)];
		if (!x.f) {
			x.f = lparse_file(x.b);
		} else if (s.flip()) {
			std::string d = ldump_file(x.f);
			CHECK(d == x.alone, "with other files alive: %s | file %s", first_diff(x.alone, d).c_str(), hex(x.b, 600).c_str());
		} else {
			if (s.flip())
				sml_file_write(x.f);
			sml_file_free(x.f);
			x.f = nullptr;
		}
	}
	size_t live = 0;
	for (auto &x : v)
		if (x.f) {
			live++;
			std::string d = ldump_file(x.f, false);
			sml_file_free(x.f);
		}
	L.check("several files");
	for (auto &x : v) {
		std::string d = parse_dump(x.b);
		CHECK(d == x.alone, "afterwards: %s | file %s", first_diff(x.alone, d).c_str(), hex(x.b, 600).c_str());
	}
	uint64_t h = 0;
	for (auto &x : v)
		h = hash_str(x.b) ^ mix64(h);
	if (live)
		nontrivial(h);
}
// element parsers on parts of buffers, interleaved
static void t_elements(Src &s) {
	struct E {
		T t;
		Bytes b;
		sml_buffer *buf;
		std::vector<T> seq;
		size_t at = 0;
		std::vector<void *> p;
		std::vector<std::string> want;
	};
	std::vector<E> v(2 + s.below(2));
	for (auto &x : v) {
		size_t n = 1 + s.below(5);
		for (size_t i = 0; i < n; i++) {
			Gen g;
			g.wire = true;
			g.dzg = s.chance(1, 3);
			g.budget = 30;
			T t = ELEMENTS[s.below(ELEMENTS.size())];
			x.seq.push_back(t);
			Bytes e = encode(gen(s, g, t));
			Dec d(e);
			x.want.push_back(dump(d.element(t)));
			x.b += e;
		}
		x.buf = pbuf(x.b);
	}
	for (bool more = true; more;) {
		std::vector<size_t> todo;
		for (size_t i = 0; i < v.size(); i++)
			if (v[i].at < v[i].seq.size())
				todo.push_back(i);
		more = !todo.empty();
		if (!more)
			break;
		E &x = v[todo[s.below(todo.size())]];
		x.p.push_back(lparse_element(x.seq[x.at], x.buf));
		CHECK(!sml_buf_has_errors(x.buf), "element %zu (%s) does not parse: %s", x.at, name_of(x.seq[x.at]), hex(x.b, 600).c_str());
		x.at++;
	}
	uint64_t h = 0;
	for (auto &x : v) {
		sml_buffer_free(x.buf); // what was parsed is independent of the buffer
		for (size_t i = 0; i < x.seq.size(); i++) {
			std::string d = ldump_element(x.seq[i], x.p[i]);
			CHECK(d == x.want[i], "element %zu (%s): %s | %s", i, name_of(x.seq[i]), first_diff(x.want[i], d).c_str(), hex(x.b, 600).c_str());
			if (x.p[i])
				lfree_element(x.seq[i], x.p[i]);
		}
		h = mix64(h ^ hash_str(x.b));
	}
	nontrivial(h);
}
// the input is only read, and not needed afterwards
static void t_input(Src &s) {
	Bytes b = some_file(s);
	std::string want = parse_dump(b);
	unsigned char *in = new unsigned char[b.size()];
	memcpy(in, b.data(), b.size());
	sml_file *f = sml_file_parse(in, b.size());
	CHECK(b.empty() || !memcmp(in, b.data(), b.size()), "parsing changed the input %s", hex(b, 600).c_str());
	if (s.flip()) {
		std::string d = ldump_file(f);
		CHECK(d == want, "%s", first_diff(want, d).c_str());
	}
	memset(in, (int)s.below(256), b.size());
	if (s.flip()) {
		delete[] in;
		in = nullptr;
	}
	std::string d = ldump_file(f);
	CHECK(d == want, "after the input was overwritten: %s | file %s", first_diff(want, d).c_str(), hex(b, 600).c_str());
	// nor does writing need or change it
	if (in)
		memcpy(in, b.data(), b.size());
	sml_file_write(f);
	CHECK(!in || b.empty() || !memcmp(in, b.data(), b.size()), "writing changed the input");
	d = ldump_file(f, false);
	sml_file_free(f);
	CHECK(!in || b.empty() || !memcmp(in, b.data(), b.size()), "freeing changed the input");
	delete[] in;
	if (f && want.size() > 3)
		nontrivial(hash_str(b));
}
// bytes behind the given length do not matter
static void t_surroundings(Src &s) {
	Bytes b = some_file(s);
	std::string want = parse_dump(b);
	for (int i = 0; i < 2; i++) {
		Bytes all = s.bytes(s.below(30)), tail = s.flip() ? tl_soup(s, s.below(60)) : Bytes(s.below(60), (char)s.below(256));
		size_t at = all.size();
		all += b + tail;
		unsigned char *in = new unsigned char[all.size() + 1];
		memcpy(in, all.data(), all.size());
		sml_file *f = sml_file_parse(in + at, b.size());
		std::string d = ldump_file(f);
		sml_file_free(f);
		delete[] in;
		CHECK(d == want, "with other bytes around it: %s | file %s", first_diff(want, d).c_str(), hex(b, 600).c_str());
	}
	if (want.size() > 3)
		nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C18",
			{{"repeat", t_repeat, 60000, 1200000, "the same bytes parsed and written four times with other work and memory contents in between; non-trivial = something is delivered", nullptr, true},
			 {"alive", t_alive, 40000, 800000, "several files alive at the same time; non-trivial = some are alive at the end", nullptr, false},
			 {"elements", t_elements, 60000, 1200000, "elements of several buffers parsed in turns; every case is non-trivial", nullptr, false},
			 {"input", t_input, 60000, 1200000, "input overwritten or released after the parse; non-trivial = something is delivered", nullptr, false},
			 {"surroundings", t_surroundings, 60000, 1200000, "other bytes before and behind the input; non-trivial = something is delivered", nullptr, false}}};
}
