// C04: serialisation emits the exact SML encoding of what was built
#include "bridge.h"
#include <algorithm>
#include "mutate.h"

// an output buffer of any size, dirty, with the cursor anywhere
static sml_buffer *dirty(Src &s, size_t expect, Bytes *before) {
	size_t n;
	switch (s.below(4)) {
	case 0: n = 512; break;
	case 1: n = s.below(8); break;
	case 2: n = expect > 4 ? expect - 4 + s.below(9) : s.below(9); break;
	default: n = s.below(2 * expect + 20);
	}
	sml_buffer *b = sml_buffer_init(n);
	uint8_t pat = (uint8_t)s.below(256);
	memset(b->buffer, pat, n);
	static const int how[] = {0, 0, 1, 2};
	switch (s.pick(how)) {
	case 0: b->cursor = 0; break;
	case 1: b->cursor = s.below(n + 1); break;
	default: b->cursor = n;
	}
	*before = Bytes((const char *)b->buffer, b->cursor);
	if (pat)
		label("dirty buffer");
	if (n - b->cursor < expect)
		label("output exceeds the buffer");
	return b;
}
static void verify(const char *what, sml_buffer *b, const Bytes &before, const Bytes &want) {
	CHECK(b->cursor <= b->buffer_len, "%s: cursor %zu beyond the buffer %zu", what, (size_t)b->cursor, (size_t)b->buffer_len);
	CHECK(!sml_buf_has_errors(b), "%s: writing raised an error", what);
	Bytes all((const char *)b->buffer, b->cursor);
	CHECK(all.size() >= before.size() && all.compare(0, before.size(), before) == 0, "%s: bytes before the start were changed", what);
	Bytes got = all.substr(before.size());
	CHECK(got == want, "%s: encoding differs %s", what, first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str());
}
static void t_element(Src &s) {
	Gen g;
	g.empty_oct = true;
	g.deep = true;
	g.budget = 60;
	g.big = s.chance(1, 3) ? 8 : 0;
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Node n = gen(s, g, t);
	Bytes want = encode(n), before;
	LeakScope L;
	sml_buffer *b = dirty(s, want.size(), &before);
	void *p = lbuild_element(t, n);
	lwrite_element(t, p, b);
	verify(name_of(t), b, before, want);
	// a second time behind the first
	if (s.chance(1, 4)) {
		Bytes b2 = bufbytes(b);
		lwrite_element(t, p, b);
		verify(name_of(t), b, b2, want);
	}
	if (p)
		lfree_element(t, p);
	sml_buffer_free(b);
	L.check(name_of(t));
	if (want.size() > 3)
		nontrivial(hash_str(want));
	label(name_of(t));
	if (want.size() > 3)
		sample(strf("%s %s -> %s", name_of(t), shortstr(dump(n), 400).c_str(), hex(want, 300).c_str()));
}
static void t_message(Src &s) {
	Gen g;
	g.empty_oct = true;
	g.deep = true;
	g.big = s.chance(1, 3) ? 10 : 0;
	Node m = gen_message(s, g);
	Bytes want = encode_message(m), before;
	LeakScope L;
	sml_buffer *b = dirty(s, want.size(), &before);
	sml_message *x = lbuild_message(m);
	sml_message_write(x, b);
	verify("message", b, before, want);
	CHECK(x->crc && *x->crc == crc_of_message(m, 0), "the message does not hold the checksum written");
	if (s.chance(1, 4)) {
		Bytes b2 = bufbytes(b);
		sml_message_write(x, b);
		verify("message", b, b2, want);
	}
	sml_message_free(x);
	sml_buffer_free(b);
	L.check("message");
	nontrivial(hash_str(want));
}
static void t_file(Src &s) {
	Gen g;
	g.empty_oct = true;
	g.deep = true;
	g.big = s.chance(1, 2) ? 8 : 0;
	size_t n = s.below(s.chance(1, 10) ? 40 : 5);
	LeakScope L;
	sml_file *f = sml_file_init();
	CHECK(f && f->messages_len == 0, "a new file is not empty");
	Bytes want;
	for (size_t i = 0; i < n; i++) {
		g.budget = 100 / (int)(1 + n / 4);
		Node m = gen_message(s, g);
		want += encode_message(m);
		sml_file_add_message(f, lbuild_message(m));
	}
	CHECK(f->messages_len == (int)n, "%d messages after adding %zu", (int)f->messages_len, n);
	if (f->buf->buffer_len)
		memset(f->buf->buffer, (int)s.below(256), f->buf->buffer_len);
	size_t from = f->buf->cursor;
	sml_file_write(f);
	Bytes got = bufbytes(f->buf, from);
	CHECK(got == want, "file encoding differs %s", first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str());
	sml_file_free(f);
	L.check("file");
	if (n)
		nontrivial(hash_str(want));
	label(want.size() > 512 ? "file over the initial 512 bytes" : "file within 512 bytes");
}
// strings and lists at and around every boundary of the length field
static void t_sizes(Src &s) {
	static const int at[] = {0, 15, 254, 256, 4093, 4096, 65532, 65536, 1048570};
	size_t i = s.below(s.chance(1, 20) ? 9 : 6);
	size_t n = (size_t)std::max<long>(0, at[i] - 5 + (long)s.below(11));
	T t;
	Node x;
	switch (s.below(4)) {
	case 0: t = T_PATH; break;
	case 1: t = T_SEQ_HEADER; break;
	case 2: t = T_OCT; break;
	default: t = T_TREE;
	}
	if (t == T_OCT)
		x = Node::oct(Bytes(n, (char)s.below(256)));
	else {
		if (n > 5000)
			n %= 5000;
		x = Node::list();
		Node e = t == T_PATH ? Node::oct("x") : Node::list({Node::absent(), Node::absent(), Node::absent()});
		x.c.assign(n, e);
		if (t == T_TREE)
			x = Node::list({Node::absent(), Node::absent(), n ? x : Node::absent()});
	}
	Bytes want = encode(x), before;
	LeakScope L;
	sml_buffer *b = dirty(s, want.size(), &before);
	void *p = lbuild_element(t, x);
	lwrite_element(t, p, b);
	verify(name_of(t), b, before, want);
	lfree_element(t, p);
	sml_buffer_free(b);
	L.check("sizes");
	nontrivial(hash_str(want.substr(0, 64)) ^ n);
	label(strf("about %d", at[i]).c_str());
}
// behind offsets that need more than 31 or 32 bits
static void t_far(Src &s) {
	Gen g;
	g.empty_oct = true;
	g.budget = 50;
	bool msg = s.chance(1, 3);
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Node n = msg ? gen_message(s, g) : gen(s, g, t);
	Bytes want = msg ? encode_message(n) : encode(n);
	LeakScope L;
	{
		Far f(s, want.size() + 8192, (unsigned char)s.below(256)); // never has to grow
		if (msg) {
			sml_message *x = lbuild_message(n);
			sml_message_write(x, &f.buf);
			sml_message_free(x);
		} else {
			void *p = lbuild_element(t, n);
			lwrite_element(t, p, &f.buf);
			if (p)
				lfree_element(t, p);
		}
		const char *what = msg ? "message" : name_of(t);
		CHECK(f.buf.cursor == f.at + want.size(), "%s at %zu: %zu bytes instead of %zu", what, f.at, (size_t)f.buf.cursor - f.at, want.size());
		Bytes got((const char *)f.buf.buffer + f.at, want.size());
		CHECK(got == want, "%s at %zu: encoding differs %s", what, f.at, first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str());
	}
	L.check("far");
	if (want.size() > 3)
		nontrivial(hash_str(want));
}
// any list beyond 8 and 16 bit counters
static void t_counts(Src &s) {
	Gen g;
	g.empty_oct = s.flip();
	std::string what;
	Node m = many_message(s, g, &what);
	label(what.c_str());
	Bytes want = encode_message(m), before;
	LeakScope L;
	sml_buffer *b = dirty(s, want.size(), &before);
	sml_message *x = lbuild_message(m);
	sml_message_write(x, b);
	verify("message", b, before, want);
	sml_message_free(x);
	sml_buffer_free(b);
	L.check("message");
	nontrivial(hash_str(want));
}
Prop the_prop() {
	return {"C04",
			{{"element", t_element, 250000, 5000000, "one element of any kind into a buffer of any size and content; non-trivial = more than 3 bytes", nullptr, true},
			 {"message", t_message, 80000, 1600000, "one message into any buffer; every case is non-trivial", nullptr, false},
			 {"file", t_file, 40000, 800000, "files built through the interface; non-trivial = at least one message", nullptr, false},
			 {"far", t_far, 60000, 1200000, "elements and messages around offsets of 2, 4, 6 and 8 GiB; non-trivial = more than 3 bytes", nullptr, false},
			 {"counts", t_counts, 120, 1600, "a message with a list of 248 to 135000 elements; every case is non-trivial", nullptr, false},
			 {"sizes", t_sizes, 12000, 200000, "strings and lists around every length field boundary; every case is non-trivial", nullptr, false}}};
}
