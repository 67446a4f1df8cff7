// C02: every well-formed SML file is decoded to exactly the content it encodes
#include "bridge.h"
#include <algorithm>
#include "mutate.h"

static void compare(const Bytes &b, const std::string &want) {
	sml_file *f = lparse_file(b);
	std::string got = ldump_file(f);
	sml_file_free(f);
	CHECK(got == want, "decoded content differs %s | file %s", first_diff(want, got).c_str(), hex(b, 600).c_str());
}
static void t_file(Src &s) {
	Gen g;
	g.wire = s.chance(3, 4);
	g.empty_oct = g.wire;
	g.deep = true;
	g.big = s.chance(1, 3) ? 12 : 0;
	std::vector<Node> m;
	std::vector<int> k;
	Bytes b = gen_file(s, g, s.chance(1, 8) ? 12 : 3, &m, nullptr, &k);
	b.insert(0, s.chance(1, 8) ? s.below(4) : 0, '\0');
	std::string want = expect_file(m, k);
	compare(b, want);
	size_t nodes = 0;
	for (auto &x : m) {
		nodes += count_nodes(x);
		label(strf("message %s", name_of(type_of_tag((uint32_t)x.c[3].c[0].v))).c_str());
	}
	label(m.empty() ? "empty file" : m.size() == 1 ? "one message" : "several messages");
	if (b.size() > 4000)
		label("file over 4000 bytes");
	if (nodes >= 12)
		nontrivial(hash_str(b));
	if (m.size() == 1)
		sample(strf("%s -> %s", hex(b, 300).c_str(), shortstr(want, 600).c_str()));
}
// one message kind, every field present in turn: all kinds get the same weight
static void t_fields(Src &s) {
	int kind = (int)s.below(14);
	Gen g;
	g.wire = true;
	g.budget = 60;
	Node m = gen_message_of(s, g, kind);
	const std::vector<T> *f = fields_of(MSG_T[kind]);
	// force a presence pattern: all, none, all but one, just one
	size_t n = f->size(), one = s.below(n);
	unsigned mode = (unsigned)s.below(4);
	for (size_t i = 0; i < n; i++) {
		if (!is_optional((*f)[i]))
			continue;
		bool want = mode == 0 || (mode == 2 && i != one) || (mode == 3 && i == one);
		Node &c = m.c[3].c[1].c[i];
		if (!want)
			c = Node::absent();
		else
			for (int k = 0; k < 200 && c.k == Node::ABSENT; k++)
				c = gen(s, g, (*f)[i]);
	}
	Bytes b = encode_message(m);
	compare(b, expect_file({m}, {0}));
	nontrivial(hash_str(b));
	static const char *const M[] = {"all fields present", "no field present", "one field absent", "one field present"};
	label(M[mode]);
}
// one size beyond every narrow counter
static void t_huge(Src &s) {
	Bytes b;
	std::vector<Node> m;
	std::vector<int> k;
	static const size_t sizes[] = {32767, 32768, 65535, 65536, 65537, 70000, 40000};
	size_t n = s.pick(sizes);
	auto path_msg = [&](Node path) {
		return Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
						   Node::list({Node::num(false, 4, 0x500), Node::list({Node::absent(), Node::absent(), Node::absent(), path, Node::absent()})})});
	};
	switch (s.below(5)) {
	case 4: { // long runs of zeros between a few messages
		label("long zero fill");
		Gen g;
		g.wire = true;
		b.assign(s.flip() ? s.below(2 * n) : 0, '\0');
		for (size_t c = 2 + s.below(4); c > 0; c--) {
			g.budget = 30;
			Node x = gen_message(s, g);
			m.push_back(x);
			k.push_back(0);
			b += encode_message(x);
			b.append(s.chance(1, 3) ? s.below(5) : s.flip() ? s.below(2000) : s.below(4 * n), '\0');
		}
		break;
	}
	case 0: { // many messages
		label("many messages");
		Node base = Node::list({Node::oct("tt"), Node::num(false, 1, 0), Node::num(false, 1, 0),
								Node::list({Node::num(false, 4, 0x201), Node::list({Node::absent()})})});
		for (size_t i = 0; i < n; i++) {
			base.c[0].b[0] = (char)i;
			base.c[0].b[1] = (char)(i >> 8);
			m.push_back(base);
			k.push_back(0);
			b += encode_message(base);
		}
		break;
	}
	case 1: { // long string
		label("long string");
		Node x = path_msg(Node::list({Node::oct("a")}));
		x.c[3].c[1].c[s.below(3)] = Node::oct(s.bytes(n * (1 + s.below(20))));
		m.push_back(x);
		k.push_back(0);
		b = encode_message(x);
		break;
	}
	case 2: { // long path
		label("long path");
		Node p = Node::list();
		for (size_t i = 0; i < n; i++)
			p.c.push_back(Node::oct(Bytes(1, (char)i)));
		Node x = path_msg(p);
		m.push_back(x);
		k.push_back(0);
		b = encode_message(x);
		break;
	}
	default: { // long value list
		label("long value list");
		Node l = Node::list();
		n = n / 2 + 1;
		for (size_t i = 0; i < n; i++)
			l.c.push_back(Node::list({Node::oct(Bytes(1, (char)i)), Node::absent(), Node::absent(), Node::absent(), Node::absent(),
									  Node::num(false, 4, i), Node::absent()}));
		Node x = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
							 Node::list({Node::num(false, 4, 0x701), Node::list({Node::absent(), Node::oct("s"), Node::absent(), Node::absent(),
																				 l, Node::absent(), Node::absent()})})});
		m.push_back(x);
		k.push_back(0);
		b = encode_message(x);
	}
	}
	compare(b, expect_file(m, k));
	nontrivial(hash_str(b));
}
// any list beyond 8 and 16 bit counters
static void t_counts(Src &s) {
	Gen g;
	g.wire = s.flip();
	std::string what;
	Node m = many_message(s, g, &what);
	Bytes b = encode_message(m);
	label(what.c_str());
	compare(b, expect_file({m}, {0}));
	nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C02",
			{{"file", t_file, 120000, 2400000, "files of 0 to 12 messages in permitted encodings; non-trivial = at least 12 elements, distinct by bytes", nullptr, true},
			 {"fields", t_fields, 120000, 2000000, "one message with a forced presence pattern; every case is non-trivial", nullptr, false},
			 {"counts", t_counts, 120, 1600, "a message with a list of 248 to 135000 elements; every case is non-trivial", nullptr, false},
			 {"huge", t_huge, 40, 320, "one dimension beyond 16 bit counters; every case is non-trivial", nullptr, false}}};
}
