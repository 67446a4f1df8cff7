// C06: structural faults stop the parse and are never misread as data
#include "bridge.h"
#include "mutate.h"
#include <algorithm>

static std::string lib(const Bytes &b) {
	LeakScope L;
	sml_file *f = lparse_file(b);
	std::string got = ldump_file(f);
	sml_file_free(f);
	L.check("damaged file");
	return got;
}
static std::string ref(const Bytes &b, bool *err) {
	Dec d(b);
	std::string r = dump_messages(d.file());
	*err = d.err;
	return r;
}
static void compare(const Bytes &b, const char *how) {
	bool err;
	std::string want = ref(b, &err), got = lib(b);
	CHECK(got == want, "%s: delivered content differs from the independent decoder %s | file %s", how, first_diff(want, got).c_str(),
		  hex(b, 800).c_str());
	label(err ? "stops at a fault" : "accepted throughout");
}
static void t_mutate(Src &s) {
	Gen g;
	g.wire = s.flip();
	g.empty_oct = g.wire;
	g.dzg = s.chance(1, 8);
	g.big = s.chance(1, 8) ? 10 : 0;
	std::vector<Node> m;
	std::vector<int> k;
	Bytes b = gen_file(s, g, 2, &m, nullptr, &k);
	std::string good = expect_file(m, k);
	size_t good_end = b.size();
	g.budget = 80;
	Node x = gen_message(s, g);
	std::string how;
	for (size_t j = 1 + (s.chance(1, 4) ? s.below(3) : 0); j > 0; j--)
		how += mutate_node(s, g, x) + "; ";
	MsgOpt o;
	o.crc = s.chance(1, 8);
	b += encode_message(x, o);
	std::vector<Node> tail;
	b += gen_file(s, g, 2, &tail);
	std::string got = lib(b);
	CHECK(g.dzg || got.compare(0, good.size(), good) == 0, "%s messages before the fault changed %s | file %s (fault at %zu)", how.c_str(),
		  first_diff(good, got).c_str(), hex(b, 800).c_str(), good_end);
	bool err;
	std::string want = ref(b, &err);
	CHECK(got == want, "%s delivered content differs from the independent decoder %s | file %s", how.c_str(),
		  first_diff(want, got).c_str(), hex(b, 800).c_str());
	label(err ? "stops at the fault" : "still legal");
	label(how.c_str());
	if (err) {
		nontrivial(hash_str(b));
		sample(strf("%s %s -> %s", how.c_str(), hex(b, 300).c_str(), shortstr(got, 200).c_str()));
	}
}
static void t_truncate(Src &s) {
	Gen g;
	g.wire = s.flip();
	g.budget = 40;
	size_t n = 1 + s.below(3);
	Bytes b;
	std::vector<size_t> end;
	std::vector<std::string> d;
	for (size_t i = 0; i < n; i++) {
		g.budget = 25;
		Node m = gen_message(s, g);
		b += encode_message(m);
		end.push_back(b.size());
		d.push_back(expect_file({m}, {0}));
		b.append(s.below(3), '\0');
	}
	if (b.size() > 1500)
		b.resize(1500);
	for (size_t cut = 0; cut <= b.size(); cut++) {
		std::string want;
		for (size_t i = 0; i < n; i++)
			if (end[i] <= cut)
				want += d[i];
		std::string got = lib(b.substr(0, cut));
		CHECK(got == want, "cut to %zu of %zu bytes: %s | file %s", cut, b.size(), first_diff(want, got).c_str(), hex(b, 800).c_str());
	}
	nontrivial(hash_str(b));
}
// choice tags: known ones of other contents, near misses and unknown ones, with and without the content
static void t_tags(Src &s) {
	Gen g;
	g.wire = s.flip();
	std::vector<Node> m;
	std::vector<int> k;
	Bytes b = gen_file(s, g, 1, &m, nullptr, &k);
	std::string good = expect_file(m, k);
	g.budget = 60;
	Node x;
	std::vector<Node *> tagged; // lists of tag and content
	for (int t = 0; t < 6; t++) {
		x = gen_message(s, g);
		tagged.assign(1, &x.c[3]);
		if (s.chance(1, 4))
			break;
		T kind = type_of_tag((uint32_t)x.c[3].c[0].v);
		std::vector<Node *> todo;
		if (kind == T_GPP_RES)
			todo.push_back(&x.c[3].c[1].c[2]);
		if (kind == T_SPP_REQ)
			todo.push_back(&x.c[3].c[1].c[4]);
		if (kind == T_ATTENTION)
			todo.push_back(&x.c[3].c[1].c[3]);
		while (!todo.empty()) {
			Node *n = todo.back();
			todo.pop_back();
			if (n->k != Node::LIST || n->c.size() != 3)
				continue;
			if (n->c[1].k == Node::LIST)
				tagged.push_back(&n->c[1]);
			for (auto &c : n->c[2].c)
				todo.push_back(&c);
		}
		if (tagged.size() > 1) {
			tagged.erase(tagged.begin());
			break;
		}
	}
	Node *n = tagged[s.below(tagged.size())];
	bool body = n == &x.c[3];
	Node &tag = n->c[0];
	uint64_t old = tag.v;
	switch (s.below(6)) {
	case 0: tag.v = body ? MSG_TAG[s.below(14)] : 1 + s.below(4); break;
	case 1: tag.v ^= 1ull << s.below(body ? 32 : 8); break;
	case 2: tag.v = body ? s.u64() & 0xffffffff : s.below(256); break;
	case 3: tag.v = s.below(body ? 0x1000 : 8); break;
	case 4: tag.v = body ? (uint64_t)(tag.v << 8) & 0xffffffff : tag.v + 4; break;
	default: break;
	}
	std::string how = tag.v == old ? "same tag" : body && type_of_tag((uint32_t)tag.v) != T_NONE ? "other known tag" : "other tag";
	switch (s.below(6)) {
	case 0:
		n->c.pop_back();
		n->dlen = 1;
		how += ", content missing";
		break;
	case 1:
		n->c[1] = Node::absent();
		how += ", content skipped";
		break;
	case 2:
		n->c[1] = Node::list();
		how += ", empty list as content";
		break;
	case 3: { // the content looks like the checksum
		n->c.pop_back();
		n->dlen = 1;
		if (body)
			n->c.push_back(Node::num(false, 2, crc_of_message(x, 0)));
		n->dlen = 0;
		how += ", checksum as content";
		break;
	}
	default: break;
	}
	b += encode_message(x);
	b += gen_file(s, g, 2);
	std::string got = lib(b);
	bool err;
	std::string want = ref(b, &err);
	CHECK(got.compare(0, good.size(), good) == 0 && got == want,
		  "%s (%llu for %llu): delivered content differs from the independent decoder %s | file %s", how.c_str(), (unsigned long long)tag.v,
		  (unsigned long long)old, first_diff(want, got).c_str(), hex(b, 800).c_str());
	label(how.c_str());
	if (err)
		nontrivial(hash_str(b));
}
static void t_bytes(Src &s) {
	Gen g;
	g.wire = s.flip();
	Bytes b = gen_file(s, g, 3);
	mutate_bytes(s, b, 1 + (int)s.below(4));
	compare(b, "byte damage");
	bool err;
	ref(b, &err);
	if (err)
		nontrivial(hash_str(b));
}
// arbitrary bytes made to carry correct checksums wherever the decoder looks for one
static void fix_checksums(Bytes &b) {
	for (int round = 0; round < 3; round++) {
		Dec d(b);
		bool changed = false;
		while (d.cur < b.size()) {
			if (b[d.cur] == 0) {
				d.cur++;
				continue;
			}
			size_t start = d.cur;
			Node m;
			bool ok = d.message(m);
			if (d.err)
				break;
			if (ok || d.cur < start + 3)
				continue;
			size_t at = d.cur - 3;
			if ((uint8_t)b[at] == 0x63) {
				uint16_t c = ref_crc_x25_swapped(b.substr(start, at - start));
				b[at + 1] = (char)(c >> 8);
				b[at + 2] = (char)c;
				changed = true;
				break;
			}
		}
		if (!changed)
			return;
	}
}
static void t_raw(Src &s) {
	Bytes b;
	size_t n = s.below(400);
	if (s.flip())
		b = "\x76";
	for (size_t i = 0; i < n; i++)
		b += (char)s.below(256);
	fix_checksums(b);
	compare(b, "raw bytes");
	Dec d(b);
	if (!d.file().empty())
		nontrivial(hash_str(b));
}
static void t_soup(Src &s) {
	Bytes b = hostile_file(s);
	fix_checksums(b);
	compare(b, "hostile bytes");
	Dec d(b);
	if (!d.file().empty())
		nontrivial(hash_str(b));
}
// one fault of every kind at every element of a message
static void t_everywhere(Src &s) {
	Gen g;
	g.wire = false;
	g.budget = 50;
	Node m = gen_message(s, g);
	std::vector<std::vector<size_t>> paths;
	// collect all positions
	struct W {
		static void walk(const Node &n, std::vector<size_t> &p, std::vector<std::vector<size_t>> &o) {
			o.push_back(p);
			for (size_t i = 0; i < n.c.size() && i < 30; i++) {
				p.push_back(i);
				walk(n.c[i], p, o);
				p.pop_back();
			}
		}
	};
	std::vector<size_t> p;
	W::walk(m, p, paths);
	unsigned kind = (unsigned)s.below(21);
	if (paths.size() > 120)
		paths.resize(120);
	for (auto &q : paths) {
		Node x = m, *n = &x;
		for (size_t i : q)
			n = &n->c[i];
		switch (kind) {
		case 0: n->xtype = 0x10; break;
		case 1: n->xtype = 0x20; break;
		case 2: n->xtype = 0x40; break;
		case 3: n->xtype = 0x70; break;
		case 4: n->xtype = 0x80; break;
		case 5: n->dlen = 1; break;
		case 6: n->dlen = -1; break;
		case 7: *n = Node::absent(); break;
		case 8: *n = Node::oct("zz"); break;
		case 9: *n = Node::num(false, 1, 1); break;
		case 10: *n = Node::num(true, 8, 1); break;
		case 11: *n = Node::list(); break;
		case 12: if (!n->c.empty()) n->c.pop_back(); break;
		case 13: n->c.push_back(Node::absent()); if (n->k != Node::LIST) continue; break;
		case 14: if (n->k == Node::NUM) n->nbytes = (uint8_t)(n->width + 1); else continue; break;
		case 15: n->as = 0x00; break;
		case 16: n->as = 0x70; break;
		case 17: n->as = 0x60; break;
		case 18: n->as = 0x50; break;
		case 19: n->as = 0x40; break;
		default: if (n->k == Node::OCT) n->xtype = 0x01; else n->xtype = 0x02; break;
		}
		compare(encode_message(x), strf("fault %u", kind).c_str());
	}
	nontrivial(hash_str(encode_message(m)) ^ kind);
}
Prop the_prop() {
	return {"C06",
			{{"mutate", t_mutate, 200000, 4000000, "structural mutation of one message among good ones, with correct checksum; non-trivial = the parse has to stop", nullptr, true},
			 {"truncate", t_truncate, 4000, 80000, "every truncation of a file; every case is non-trivial", nullptr, false},
			 {"tags", t_tags, 60000, 1200000, "choice tags that are wrong, unknown or without content; non-trivial = the parse has to stop", nullptr, false},
			 {"everywhere", t_everywhere, 16000, 200000, "one kind of fault at every element of a message; every case is non-trivial", nullptr, false},
			 {"bytes", t_bytes, 120000, 2400000, "byte level damage; non-trivial = the parse has to stop", nullptr, false},
			 {"soup", t_soup, 60000, 1200000, "hostile bytes with corrected checksums; non-trivial = something is delivered", nullptr, false},
			 {"raw", t_raw, 2000, 800000, "arbitrary bytes with corrected checksums; non-trivial = something is delivered", nullptr, true}}};
}
