// C01: parsing arbitrary bytes is memory-safe, terminating and leak-free
#include "bridge.h"
#include <algorithm>
#include "mutate.h"

static size_t bound(size_t n) { return 128 * n + 65536; }

// steps (executed basic blocks) a parse may take; the present code needs about 13 per byte
static uint64_t steps(size_t n) { return 200 * n + 20000; }
template <class F> static auto bounded(size_t n, F f) -> decltype(f()) {
	alloc_reset_peak();
	alloc_set_limit(alloc_stats().live_bytes + bound(n));
	work_limit(steps(n));
	auto r = f();
	work_limit(0);
	alloc_set_limit(0);
	return r;
}
template <class F> static void bounded_free(size_t n, F f) {
	work_limit(steps(n));
	f();
	work_limit(0);
}

static void use_file(sml_file *f) {
	std::string d = ldump_file(f);
	sml_file_print(f);
	if (f->messages_len)
		nontrivial(hash_str(d));
}
static void t_file(Src &s) {
	Bytes b = hostile_file(s);
	LeakScope L;
	sml_file *f = bounded(b.size(), [&] { return lparse_file(b); });
	CHECK(f, "sml_file_parse returned no file");
	use_file(f);
	label(f->messages_len ? "some message delivered" : "nothing delivered");
	if (want_sample() && f->messages_len)
		sample(strf("%zu bytes: %s -> %d messages", b.size(), hex(b, 200).c_str(), f->messages_len));
	bounded_free(b.size(), [&] { sml_file_free(f); });
	L.check("file parse");
	fflush(stdout);
}
static void t_element(Src &s) {
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Bytes b = hostile_element(s, t);
	size_t at = s.chance(1, 4) ? s.below(8) : 0;
	b.insert(0, at, '\x01');
	LeakScope L;
	sml_buffer *buf = pbuf(b, at);
	void *p = bounded(b.size(), [&] { return lparse_element(t, buf); });
	CHECK(buf->cursor <= b.size(), "%s: the position %zu passed the end %zu", name_of(t), (size_t)buf->cursor, b.size());
	if (p && !sml_buf_has_errors(buf)) {
		std::string d = ldump_element(t, p);
		label("element delivered");
		nontrivial(hash_str(d) ^ (uint64_t)t);
	} else
		label(p ? "element with error" : sml_buf_has_errors(buf) ? "rejected" : "absent");
	if (p)
		bounded_free(b.size(), [&] { lfree_element(t, p); });
	sml_buffer_free(buf);
	L.check(name_of(t));
}
static void t_message(Src &s) {
	Bytes b = hostile_file(s);
	LeakScope L;
	sml_buffer *buf = pbuf(b);
	sml_message *m = bounded(b.size(), [&] { return sml_message_parse(buf); });
	CHECK(buf->cursor <= b.size(), "the position %zu passed the end %zu", (size_t)buf->cursor, b.size());
	if (m) {
		CHECK(!sml_buf_has_errors(buf), "a message was returned together with an error");
		std::string d = ldump_message(m);
		label("message delivered");
		nontrivial(hash_str(d));
		bounded_free(b.size(), [&] { sml_message_free(m); });
	}
	sml_buffer_free(buf);
	L.check("message parse");
}
// every single byte and every pair of bytes, and every single byte changed in a valid file
static void t_sweep(Src &s) {
	Gen g;
	g.wire = true;
	g.budget = 40;
	Node m = gen_message(s, g);
	Bytes b = encode_message(m);
	if (b.size() > 400)
		b.resize(400);
	uint8_t val = (uint8_t)s.below(256);
	bool trunc = s.flip();
	LeakScope L;
	for (size_t i = 0; i < b.size(); i++) {
		Bytes x = b;
		if (trunc)
			x.resize(i);
		else
			x[i] = (char)val;
		sml_file *f = bounded(x.size(), [&] { return lparse_file(x); });
		ldump_file(f);
		bounded_free(b.size(), [&] { sml_file_free(f); });
		L.check("byte sweep");
	}
	nontrivial(hash_str(b) ^ val);
	label(trunc ? "every truncation" : "every position overwritten");
}
struct Long {
	uint32_t tag;
	int skip;
	unsigned fields;
	const char *fill;
};
static const Long LONG[] = {
	{0x701, 4, 7, "\x77\x01\x01\x01\x01\x01\x01\x01"}, {0x701, 4, 7, "\x77\x80\x02\x01\x01\x01\x01\x01\x01"},
	{0x500, 3, 5, "\x01"}, {0x500, 3, 5, "\x02\x41"}, {0x500, 3, 5, "\x80\x02"}, {0x300, 7, 9, "\x01"},
	{0x300, 7, 9, "\x02\x41"}, {0x300, 6, 9, "\x01"}, {0x501, 1, 3, "\x02\x41"}, {0x500, 2, 5, "\x02\x41"},
	{0x501, 0, 3, "\x73\x01\x01\x01"}, {0x501, 0, 3, "\x73\x02\x41\x72\x62\x01\x62\x05\x01"}};
// a message up to a list of n elements
static Bytes long_head(const Long &k, size_t n) {
	Bytes b = "\x76\x01\x01\x01\x72";
	encode_to(b, Node::num(false, 4, k.tag));
	b += (char)(0x70 | k.fields);
	if (k.tag == 0x501 && !k.skip)
		b += "\x01\x01\x73\x01\x01"; // children of a tree
	b += Bytes((size_t)k.skip, '\x01');
	put_tl(b, 0x70, n);
	return b;
}
static void t_large(Src &s) {
	// tens to hundreds of kilobytes
	Bytes b;
	size_t n = 20000 + s.below(120000);
	switch (s.below(4)) {
	case 0: b = s.bytes(n); break;
	case 1: b = Bytes(n, (char)s.below(256)); break;
	case 2: { // repeated hostile piece
		Bytes p = hostile_file(s);
		if (p.empty())
			p = "\x76";
		while (b.size() < n)
			b += p;
		break;
	}
	default: { // one huge list
		auto &k = s.pick(LONG);
		label("large: one huge list");
		b = long_head(k, n);
		const char *f = k.fill;
		size_t cnt = std::min<size_t>(n, 15000);
		for (size_t i = 0; i < cnt; i++)
			b += f;
	}
	}
	LeakScope L;
	sml_file *f = bounded(b.size(), [&] { return lparse_file(b); });
	ldump_file(f);
	bounded_free(b.size(), [&] { sml_file_free(f); });
	L.check("large input");
	nontrivial(hash_str(b));
}
// lists of hundreds of thousands of elements, complete and cut off, and as many messages
static void put_crc(Bytes &b) {
	uint16_t c = ref_crc_x25_swapped(b);
	b += '\x63';
	b += (char)(c >> 8);
	b += (char)c;
}
static void t_long(Src &s) {
	size_t n = s.chance(1, 8) ? 600000 + s.below(900000) : 200000 + s.below(200000);
	Bytes b;
	bool whole = s.flip();
	if (s.chance(1, 8)) {
		Bytes one = "\x76\x02x\x01\x01\x72\x63\x02\x01\x71\x01";
		if (whole)
			put_crc(one);
		one += '\0';
		n /= 3;
		while (n--)
			b += one;
		label("many messages");
	} else {
		auto &k = s.pick(LONG);
		b = long_head(k, n);
		while (n--)
			b += k.fill;
		if (whole) {
			int after = (int)k.fields - k.skip - 1;
			if (k.tag == 0x501 && !k.skip)
				after = 0;
			b += Bytes((size_t)after, '\x01');
			put_crc(b);
			b += '\0';
		} else if (s.flip())
			b.resize(b.size() - 1 - s.below(20));
		label(strf("list in %x", k.tag).c_str());
	}
	LeakScope L;
	sml_file *f = bounded(b.size(), [&] { return lparse_file(b); });
	label(f->messages_len ? "delivered" : "not delivered");
	for (int i = 0; i < f->messages_len; i++)
		CHECK(f->messages[i]->message_body->data, "message %d of %d has no content", i, f->messages_len);
	bounded_free(b.size(), [&] { sml_file_free(f); });
	L.check("long input");
	nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C01",
			{{"file", t_file, 200000, 3000000, "hostile byte strings for sml_file_parse; non-trivial = a message was delivered, distinct by its content", nullptr, true},
			 {"element", t_element, 300000, 6000000, "hostile bytes for every element parser; non-trivial = an element was delivered", nullptr, true},
			 {"message", t_message, 100000, 2000000, "hostile bytes for sml_message_parse; non-trivial = a message was delivered", nullptr, true},
			 {"sweep", t_sweep, 8000, 120000, "all truncations, or one value at every position, of a valid message; every case is non-trivial", nullptr, false},
			 {"long", t_long, 32, 400, "lists of 200000 to 1500000 elements; every case is non-trivial", nullptr, false},
			 {"large", t_large, 3000, 40000, "inputs of 20 to 140 kB; every case is non-trivial", nullptr, false}}};
}
