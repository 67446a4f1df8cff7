// C19: each element parser consumes exactly its element or reports an error
#include "bridge.h"
#include "mutate.h"

static void t_legal(Src &s) {
	Gen g;
	g.wire = true;
	g.empty_oct = true;
	g.budget = 60;
	g.deep = s.chance(1, 20);
	g.big = s.chance(1, 6) ? 8 : 0;
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Node n = gen(s, g, t);
	Bytes e = encode(n);
	Bytes pre = s.flip() ? s.bytes(s.below(12)) : tl_soup(s, s.below(12)), post = s.flip() ? s.bytes(s.below(12)) : tl_soup(s, s.below(12));
	if (s.chance(1, 4)) { // the same element around it
		pre += e;
		post = e + post;
	}
	Bytes b = pre + e + post;
	LeakScope L;
	sml_buffer *buf = pbuf(b, pre.size());
	void *p = lparse_element(t, buf);
	CHECK(!sml_buf_has_errors(buf), "%s: well-formed element %s rejected (position %zu of %zu)", name_of(t), hex(e, 400).c_str(), pre.size(), b.size());
	CHECK(buf->cursor == pre.size() + e.size(), "%s: %s consumed %ld bytes instead of %zu", name_of(t), hex(e, 400).c_str(),
		  (long)buf->cursor - (long)pre.size(), e.size());
	Node v = view(t, n);
	std::string want = dump(v), got = ldump_element(t, p);
	CHECK(want == got, "%s: %s is read as %s", name_of(t), hex(e, 400).c_str(), first_diff(want, got).c_str());
	CHECK(Bytes((const char *)buf->buffer, b.size()) == b, "%s: parsing changed the buffer", name_of(t));
	if (n.k == Node::ABSENT)
		label("absent");
	if (p)
		lfree_element(t, p);
	sml_buffer_free(buf);
	L.check(name_of(t));
	if (e.size() > 3)
		nontrivial(hash_str(b));
	label(name_of(t));
	sample(strf("%s at %zu in %s", name_of(t), pre.size(), hex(b, 300).c_str()));
}
// a sequence of elements read one after another from one buffer
static void t_sequence(Src &s) {
	size_t n = 2 + s.below(8);
	std::vector<T> ts;
	std::vector<Node> v;
	std::vector<size_t> end;
	Bytes b;
	Gen g;
	g.wire = true;
	g.empty_oct = true;
	for (size_t i = 0; i < n; i++) {
		g.budget = 15;
		T t = ELEMENTS[s.below(ELEMENTS.size())];
		Node x = gen(s, g, t);
		ts.push_back(t);
		v.push_back(view(t, x));
		b += encode(x);
		end.push_back(b.size());
	}
	LeakScope L;
	sml_buffer *buf = pbuf(b);
	for (size_t i = 0; i < n; i++) {
		void *p = lparse_element(ts[i], buf);
		CHECK(!sml_buf_has_errors(buf) && buf->cursor == end[i], "element %zu (%s) of %s: position %zu instead of %zu, error %d", i, name_of(ts[i]),
			  hex(b, 400).c_str(), (size_t)buf->cursor, end[i], sml_buf_has_errors(buf));
		std::string want = dump(v[i]), got = ldump_element(ts[i], p);
		CHECK(want == got, "element %zu (%s) of %s: %s", i, name_of(ts[i]), hex(b, 400).c_str(), first_diff(want, got).c_str());
		if (p)
			lfree_element(ts[i], p);
	}
	sml_buffer_free(buf);
	L.check("sequence");
	nontrivial(hash_str(b));
}
static void judge(T t, const Bytes &b, size_t at) {
	Dec d(b, at);
	Node want = d.element(t);
	LeakScope L;
	sml_buffer *buf = pbuf(b, at);
	void *p = lparse_element(t, buf);
	bool err = sml_buf_has_errors(buf);
	CHECK(buf->cursor <= b.size(), "%s: position %zu beyond the end of %s", name_of(t), (size_t)buf->cursor, hex(b, 400).c_str());
	CHECK(err == d.err, "%s at %zu of %s: %s, but it is %s", name_of(t), at, hex(b, 400).c_str(), err ? "rejected" : "accepted",
		  d.err ? "malformed" : "well-formed");
	if (!err) {
		std::string w = dump(want), g = ldump_element(t, p);
		CHECK(w == g, "%s at %zu of %s: %s", name_of(t), at, hex(b, 400).c_str(), first_diff(w, g).c_str());
		CHECK(buf->cursor == d.cur, "%s at %zu of %s: position %zu instead of %zu", name_of(t), at, hex(b, 400).c_str(), (size_t)buf->cursor, d.cur);
	}
	if (p)
		lfree_element(t, p);
	sml_buffer_free(buf);
	L.check(name_of(t));
	label(err ? "rejected" : "accepted");
}
static void t_hostile(Src &s) {
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Bytes b = hostile_element(s, t);
	size_t at = s.chance(1, 4) ? s.below(8) : 0;
	b.insert(0, at, (char)s.below(256));
	judge(t, b, at);
	Dec d(b, at);
	d.element(t);
	if (d.err && b.size() - at > 3)
		nontrivial(hash_str(b) ^ (uint64_t)t);
}
// at offsets that need more than 31 or 32 bits
static void t_far(Src &s) {
	Gen g;
	g.wire = true;
	g.budget = 40;
	if (s.chance(1, 3)) { // a message
		Node m = gen_message(s, g);
		Bytes b = encode_message(m);
		LeakScope L;
		{
			Far f(s, b);
			sml_message *p = sml_message_parse(&f.buf);
			CHECK(p && !sml_buf_has_errors(&f.buf), "at %zu: message %s is not accepted", f.at, hex(b, 400).c_str());
			CHECK(f.buf.cursor == f.at + b.size(), "at %zu: message %s: position %zu", f.at, hex(b, 400).c_str(), (size_t)f.buf.cursor);
			std::string want = dump(view_message(m)), got = ldump_message(p, false);
			CHECK(want == got, "at %zu: message %s: %s", f.at, hex(b, 400).c_str(), first_diff(want, got).c_str());
			sml_message_free(p);
		}
		L.check("message");
		label("message");
		nontrivial(hash_str(b));
		return;
	}
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Bytes b = s.chance(1, 3) ? hostile_element(s, t) : encode(gen(s, g, t)) + s.bytes(s.below(4));
	Dec d(b, 0);
	Node want = d.element(t);
	LeakScope L;
	{
		Far f(s, b);
		void *p = lparse_element(t, &f.buf);
		bool err = sml_buf_has_errors(&f.buf);
		CHECK(err == d.err, "%s at %zu, %s: %s, but it is %s", name_of(t), f.at, hex(b, 400).c_str(), err ? "rejected" : "accepted",
			  d.err ? "malformed" : "well-formed");
		if (!err) {
			std::string w = dump(want), got = ldump_element(t, p);
			CHECK(w == got, "%s at %zu, %s: %s", name_of(t), f.at, hex(b, 400).c_str(), first_diff(w, got).c_str());
			CHECK(f.buf.cursor == f.at + d.cur, "%s at %zu, %s: position %zu instead of %zu", name_of(t), f.at, hex(b, 400).c_str(), (size_t)f.buf.cursor,
				  f.at + d.cur);
		}
		if (p)
			lfree_element(t, p);
	}
	L.check(name_of(t));
	if (b.size() > 3)
		nontrivial(hash_str(b) ^ (uint64_t)t);
}
static void t_truncate(Src &s) {
	Gen g;
	g.wire = true;
	g.budget = 30;
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Node n = gen(s, g, t);
	Bytes e = encode(n).substr(0, 500);
	for (size_t cut = 0; cut < e.size(); cut++) {
		LeakScope L;
		sml_buffer *buf = pbuf(e.substr(0, cut));
		void *p = lparse_element(t, buf);
		CHECK(sml_buf_has_errors(buf), "%s: %s cut to %zu bytes was accepted", name_of(t), hex(e, 400).c_str(), cut);
		CHECK(buf->cursor <= cut, "%s: position %zu beyond the end %zu", name_of(t), (size_t)buf->cursor, cut);
		if (p)
			lfree_element(t, p);
		sml_buffer_free(buf);
		L.check(name_of(t));
	}
	if (e.size() > 3)
		nontrivial(hash_str(e) ^ (uint64_t)t);
}
// the wrong parser for an element
static void t_cross(Src &s) {
	Gen g;
	g.wire = true;
	g.empty_oct = true;
	g.budget = 20;
	T a = ELEMENTS[s.below(ELEMENTS.size())];
	Bytes b = encode(gen(s, g, a)) + tl_soup(s, s.below(8));
	for (T t : ELEMENTS)
		judge(t, b, 0);
	nontrivial(hash_str(b));
}
static void t_raw(Src &s) {
	T t = ELEMENTS[s.below(ELEMENTS.size())];
	Bytes b;
	size_t n = s.below(120);
	for (size_t i = 0; i < n; i++)
		b += (char)s.below(256);
	judge(t, b, 0);
	Dec d(b, 0);
	d.element(t);
	if (!d.err)
		nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C19",
			{{"legal", t_legal, 300000, 6000000, "a well-formed element amid arbitrary bytes; non-trivial = more than 3 bytes", nullptr, true},
			 {"sequence", t_sequence, 60000, 1200000, "2 to 9 elements read in turn; every case is non-trivial", nullptr, false},
			 {"hostile", t_hostile, 400000, 8000000, "damaged elements against the independent decoder; non-trivial = malformed and over 3 bytes", nullptr, true},
			 {"far", t_far, 100000, 2000000, "elements and messages around offsets of 2, 4, 6 and 8 GiB; non-trivial = more than 3 bytes", nullptr, false},
			 {"truncate", t_truncate, 30000, 600000, "every truncation of an element; non-trivial = more than 3 bytes", nullptr, false},
			 {"cross", t_cross, 30000, 600000, "one element given to all parsers; every case is non-trivial", nullptr, false},
			 {"raw", t_raw, 100000, 2000000, "arbitrary bytes; non-trivial = accepted", nullptr, true}}};
}
