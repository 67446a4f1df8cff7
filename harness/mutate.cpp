#include "mutate.h"
#include <algorithm>

const std::vector<T> ELEMENTS = {
	T_OCT, T_U8, T_U16, T_U32, T_U64, T_I8, T_I16, T_I32, T_I64, T_BOOL, T_VALUE, T_STATUS, T_TIME, T_VALLIST, T_PATH,
	T_TREE, T_PPV, T_PERIOD, T_TUPEL, T_HEADER, T_PENTRY, T_VENTRY, T_SEQ_HEADER, T_SEQ_PENTRY, T_SEQ_VENTRY,
	T_SEQ_PERIOD, T_OPEN_REQ, T_OPEN_RES, T_CLOSE_REQ, T_CLOSE_RES, T_PACK_REQ, T_PACK_RES, T_PLIST_REQ, T_PLIST_RES,
	T_GPP_REQ, T_GPP_RES, T_SPP_REQ, T_LIST_REQ, T_LIST_RES, T_ATTENTION, T_BODY};

static void all_nodes(Node &n, std::vector<Node *> &v) {
	v.push_back(&n);
	for (auto &c : n.c)
		all_nodes(c, v);
}
static Node rand_leaf(Src &s) {
	switch (s.below(7)) {
	case 0: return Node::absent();
	case 1: return Node::oct(s.bytes(s.below(5)));
	case 2: return Node::num(false, 1 << s.below(4), s.u64());
	case 3: return Node::num(true, 1 << s.below(4), s.u64());
	case 4: return Node::boolean(s.flip());
	case 5: return Node::list();
	default: {
		Node n = Node::list();
		for (size_t k = s.below(4); k > 0; k--)
			n.c.push_back(Node::num(false, 1, s.below(6)));
		return n;
	}
	}
}
std::string mutate_node(Src &s, Gen &g, Node &root) {
	std::vector<Node *> v;
	all_nodes(root, v);
	Node *n = v[s.below(v.size())];
	switch (s.below(15)) {
	case 0: // remove a child
		for (int k = 0; k < 5 && n->c.empty(); k++)
			n = v[s.below(v.size())];
		if (n->c.empty())
			break;
		n->c.erase(n->c.begin() + (long)s.below(n->c.size()));
		return "child removed";
	case 1: { // duplicate a child
		for (int k = 0; k < 5 && n->c.empty(); k++)
			n = v[s.below(v.size())];
		if (n->c.empty())
			break;
		size_t i = s.below(n->c.size());
		Node c = n->c[i];
		n->c.insert(n->c.begin() + (long)i, c);
		return "child duplicated";
	}
	case 2: *n = rand_leaf(s); return "node replaced";
	case 3: { // exchange two children
		for (int k = 0; k < 5 && n->c.size() < 2; k++)
			n = v[s.below(v.size())];
		if (n->c.size() < 2)
			break;
		size_t i = s.below(n->c.size()), j = s.below(n->c.size());
		std::swap(n->c[i], n->c[j]);
		return "children exchanged";
	}
	case 4: { // the announced length or count
		static const int d[] = {1, -1, 2, -2, 3, 7, 16, 100, 255, 4000, 65536, 1 << 20, 1 << 28, -16};
		n->dlen = s.pick(d);
		return "announced length changed";
	}
	case 5: { // the type
		static const uint8_t x[] = {0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80};
		n->xtype = s.pick(x);
		return "type changed";
	}
	case 6: // width or sign of a number
		for (int k = 0; k < 8 && n->k != Node::NUM; k++)
			n = v[s.below(v.size())];
		if (n->k != Node::NUM)
			break;
		if (s.flip()) {
			n->sgn = !n->sgn;
			return "signedness changed";
		}
		n->nbytes = (uint8_t)s.range(1, 11);
		return "number width changed";
	case 7: *n = Node::absent(); return "node made absent";
	case 8: { // an element from somewhere else in the message
		Node *o = v[s.below(v.size())];
		if (o->c.size() > 20)
			break;
		Node copy = *o;
		*n = copy;
		return "node copied from elsewhere";
	}
	case 9: // a different choice tag
		for (int k = 0; k < 8 && n->k != Node::NUM; k++)
			n = v[s.below(v.size())];
		if (n->k != Node::NUM)
			break;
		n->v = s.below(8);
		return "small number";
	case 13: { // the type, with the same length or count
		static const uint8_t x[] = {0x00, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70};
		n->as = s.pick(x);
		return "type replaced";
	}
	case 11: // a child is missing, but announced
		for (int k = 0; k < 5 && n->c.empty(); k++)
			n = v[s.below(v.size())];
		if (n->c.empty())
			break;
		n->c.erase(n->c.begin() + (long)s.below(n->c.size()));
		n->dlen = 1;
		return "announced child missing";
	case 12: // one bit of a number
		for (int k = 0; k < 8 && n->k != Node::NUM; k++)
			n = v[s.below(v.size())];
		if (n->k != Node::NUM)
			break;
		n->v ^= 1ull << s.below(8u * n->width);
		return "one bit of a number changed";
	case 10: n->tlpad = (uint8_t)(1 + s.below(12)); return "padded length field";
	default: // first byte arbitrary
		n->xtype = (uint8_t)s.range(1, 255);
		return "first byte changed";
	}
	n->xtype = 0x10;
	return "type changed";
}
void mutate_bytes(Src &s, Bytes &b, int times) {
	static const uint8_t hot[] = {0x00, 0x01, 0x02, 0x42, 0x52, 0x53, 0x55, 0x59, 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x69, 0x6f,
								  0x70, 0x71, 0x72, 0x73, 0x74, 0x76, 0x77, 0x7f, 0x80, 0x81, 0x8f, 0xe0, 0xef, 0xf0, 0xf1, 0xff,
								  0x1b, 0x1a, 0x12, 0x50, 0x40, 0xc0, 0xd2, 0xe5};
	for (int i = 0; i < times; i++) {
		if (b.empty()) {
			b = s.bytes(1 + s.below(4));
			continue;
		}
		size_t p = s.below(b.size());
		switch (s.below(8)) {
		case 0: b[p] = (char)(b[p] ^ (1 << s.below(8))); break;
		case 1: b[p] = (char)s.pick(hot); break;
		case 2: b.insert(p, 1, (char)s.pick(hot)); break;
		case 3: b.erase(p, 1 + s.below(8)); break;
		case 4: b.resize(p); break;
		case 5: { // copy a slice
			size_t n = 1 + s.below(16);
			b.insert(s.below(b.size() + 1), b.substr(p, n));
			break;
		}
		case 6: b[p] = (char)s.below(256); break;
		default: { // a long length field
			Bytes t(1, (char)(0x80 | (s.below(8) << 4) | s.below(16)));
			for (size_t k = s.below(10); k > 0; k--)
				t += (char)(0x80 | s.below(16));
			t += (char)s.below(16);
			b.replace(p, 1, t);
		}
		}
	}
}
Bytes tl_soup(Src &s, size_t n) {
	Bytes o;
	while (o.size() < n) {
		switch (s.below(9)) {
		case 0: o += '\x01'; break;
		case 1: {
			size_t l = s.below(8);
			put_tl(o, 0, l, (unsigned)s.below(3));
			o += s.bytes(l);
			break;
		}
		case 2: encode_to(o, Node::num(false, 1 << s.below(4), s.below(5))); break;
		case 3: encode_to(o, Node::num(true, 1 << s.below(4), s.u64())); break;
		case 4: o += (char)(0x70 | s.below(16)); break;
		case 5: encode_to(o, Node::boolean(s.flip())); break;
		case 6: o += (char)(0x60 | s.below(12)); break;
		case 7: o += (char)s.below(256); break;
		default:
			put_tl(o, 0x70, s.below(3) ? s.below(300) : s.u64() >> s.below(64), (unsigned)s.below(3));
			break;
		}
	}
	return o;
}
uint16_t crc_of_message(const Node &m, int kind) {
	Bytes o;
	put_tl(o, 0x70, 6, m.tlpad, m.dlen);
	for (auto &c : m.c)
		encode_to(o, c);
	return kind == 1 ? ref_crc_kermit(o) : ref_crc_x25_swapped(o);
}
Bytes gen_file(Src &s, Gen &g, int max_msgs, std::vector<Node> *msgs, std::vector<size_t> *at, std::vector<int> *kinds) {
	Bytes o;
	size_t n = s.below((uint64_t)max_msgs + 1);
	for (size_t i = 0; i < n; i++) {
		g.budget = 90 / (int)(1 + n / 3);
		Node m = gen_message(s, g);
		MsgOpt mo;
		mo.crc = g.wire && s.chance(1, 8) ? 1 : 0;
		if (g.wire)
			m.tlpad = s.chance(1, 16) ? (uint8_t)s.below(4) : 0;
		if (at)
			at->push_back(o.size());
		if (msgs)
			msgs->push_back(m);
		if (kinds)
			kinds->push_back(mo.crc);
		o += encode_message(m, mo);
		if (s.chance(1, 4))
			o.append(s.below(6), '\0');
	}
	return o;
}
std::string expect_file(const std::vector<Node> &msgs, const std::vector<int> &kinds) {
	std::string e;
	for (size_t i = 0; i < msgs.size(); i++) {
		dump_to(e, with_crc(view_message(msgs[i]), crc_of_message(msgs[i], kinds[i])));
		e += '\n';
	}
	return e;
}

static Bytes nest(Src &s) { // deep nesting of all kinds of containers
	Bytes o;
	size_t depth = s.flip() ? 1 + s.below(600) : 1 + s.below(20000);
	static const char *pat[] = {"\x73\x01\x01\x71", "\x71", "\x77\x01\x01\x01\x01\x01", "\x72\x62\x02", "\xf0\x01", "\x76"};
	const char *p = s.pick(pat);
	for (size_t i = 0; i < depth; i++)
		o += p;
	return o;
}
Bytes hostile_file(Src &s) {
	Gen g;
	g.wire = true;
	g.empty_oct = true;
	g.deep = true;
	g.dzg = s.chance(1, 4);
	g.big = s.chance(1, 6) ? 8 : 0;
	switch (s.below(10)) {
	case 0: label("hostile: random bytes"); return s.bytes(s.below(s.chance(1, 10) ? 20000 : 200));
	case 1: label("hostile: element soup"); return "\x76" + tl_soup(s, s.below(s.chance(1, 10) ? 3000 : 120));
	case 2: { // message header followed by soup
		label("hostile: message head and soup");
		Node m = gen_message(s, g);
		Bytes b = encode_message(m);
		b.resize(s.below(b.size() + 1));
		b += tl_soup(s, s.below(150));
		return b;
	}
	case 3: {
		label("hostile: deep nesting");
		Node m = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0)});
		static const uint32_t tag[] = {0x501, 0x600, 0x300, 0xff01, 0x701, 0x301, 0x401};
		Bytes b = "\x76";
		for (auto &c : m.c)
			encode_to(b, c);
		Bytes body = "\x72";
		encode_to(body, Node::num(false, 4, s.pick(tag)));
		body += (char)(0x70 | s.below(10));
		for (size_t k = s.below(9); k > 0; k--)
			body += '\x01';
		return b + body + nest(s) + tl_soup(s, s.below(40));
	}
	case 4: { // huge counts
		label("hostile: large counts");
		Node m = gen_message(s, g);
		std::vector<Node *> v;
		all_nodes(m, v);
		for (int k = 0; k < 3; k++) {
			Node *n = v[s.below(v.size())];
			static const int d[] = {1, 15, 256, 65536, 1 << 20, 0x7fffff00, -1, -2, 0x10000000};
			n->dlen = s.pick(d);
		}
		return encode_message(m);
	}
	case 5:
	case 6: { // structural mutations with correct checksum
		label("hostile: structural mutation");
		Bytes o;
		for (size_t k = 1 + s.below(3); k > 0; k--) {
			Node m = gen_message(s, g);
			for (size_t j = s.below(4); j > 0; j--)
				mutate_node(s, g, m);
			o += encode_message(m);
			o.append(s.below(3), '\0');
		}
		return o;
	}
	case 7: { // truncation, in a block of the exact size
		label("hostile: truncation");
		Bytes b = gen_file(s, g, 3);
		b.resize(s.below(b.size() + 1));
		return b;
	}
	default: {
		label("hostile: byte mutation");
		Bytes b = gen_file(s, g, 3);
		mutate_bytes(s, b, 1 + (int)s.below(6));
		return b;
	}
	}
}
Bytes hostile_element(Src &s, T t) {
	Gen g;
	g.wire = true;
	g.empty_oct = true;
	g.dzg = s.chance(1, 4);
	g.budget = 60;
	switch (s.below(8)) {
	case 0: return s.bytes(s.below(60));
	case 1: return tl_soup(s, s.below(60));
	case 2: return nest(s) + tl_soup(s, s.below(20));
	case 3: {
		Bytes b = encode(gen(s, g, t));
		b.resize(s.below(b.size() + 1));
		return b;
	}
	case 4: {
		Bytes b = encode(gen(s, g, t));
		mutate_bytes(s, b, 1 + (int)s.below(4));
		return b;
	}
	case 5: return encode(gen(s, g, t)) + tl_soup(s, s.below(20));
	default: {
		Node n = gen(s, g, t);
		for (size_t k = 1 + s.below(3); k > 0; k--)
			mutate_node(s, g, n);
		return encode(n);
	}
	}
}

static void find_lists(Src &s, Gen &g, T t, Node &n, std::vector<std::pair<Node *, T>> &v) {
	if (n.k == Node::ABSENT && t == T_TREE)
		for (int k = 0; k < 50 && n.k != Node::LIST; k++)
			n = gen(s, g, t);
	if (n.k != Node::LIST) {
		if (elem_of(t) != T_NONE)
			v.push_back({&n, elem_of(t)});
		return;
	}
	if (const std::vector<T> *f = fields_of(t)) {
		for (size_t i = 0; i < f->size() && i < n.c.size(); i++)
			find_lists(s, g, (*f)[i], n.c[i], v);
	} else if (elem_of(t) != T_NONE) {
		v.push_back({&n, elem_of(t)});
		for (auto &c : n.c)
			find_lists(s, g, elem_of(t), c, v);
	} else if (t == T_TREE && n.c.size() == 3) {
		v.push_back({&n.c[2], T_TREE});
	}
}
static bool number_leaf(Node &n, size_t i) {
	if (n.k == Node::OCT) {
		n.b = "i";
		for (; i; i >>= 8)
			n.b += (char)i;
		return true;
	}
	for (auto &c : n.c)
		if (number_leaf(c, i))
			return true;
	return false;
}
Node many_message(Src &s, Gen &g, std::string *what) {
	static const int kinds[] = {4, 5, 6, 7, 8, 9, 10, 12}; // with lists
	std::vector<std::pair<Node *, T>> v;
	Node m;
	int kind = 0;
	while (v.empty()) {
		kind = s.pick(kinds);
		g.budget = 20;
		m = gen_message_of(s, g, kind);
		find_lists(s, g, MSG_T[kind], m.c[3].c[1], v);
	}
	auto [list, e] = v[s.below(v.size())];
	static const size_t at[] = {256, 4096, 32768, 65536};
	size_t n = s.chance(1, 3) ? 65537 + s.below(70000) : s.pick(at) - 8 + s.below(16);
	std::vector<Node> some;
	int big = g.big; // nothing else is large
	g.big = 0;
	for (size_t k = 1 + s.below(4); k > 0; k--) {
		Node c = Node::of(Node::oct("x"), Node::absent(), Node::absent());
		for (int tries = 0; tries < 30; tries++) {
			g.budget = 8;
			Node x = gen(s, g, e);
			if ((e != T_TREE && tries == 29) || (count_nodes(x) <= 16 && (e != T_TREE || x.k == Node::LIST))) {
				c = x;
				break;
			}
		}
		if (g.full_path && e == T_OCT && c.k == Node::ABSENT)
			c = Node::oct("x");
		some.push_back(c);
	}
	*list = Node::list();
	list->c.reserve(n);
	for (size_t i = 0; i < n; i++) {
		list->c.push_back(some[i % some.size()]);
		number_leaf(list->c.back(), i);
	}
	g.big = big;
	*what = strf("%s in %s", name_of(e), name_of(MSG_T[kind]));
	return m;
}
