#include "model.h"
#include <algorithm>

static const std::vector<T> F_ENTRY = {T_OCT, T_STATUS, T_TIME, T_U8, T_I8, T_VALUE, T_OCT};
static const std::vector<T> F_HEADER = {T_OCT, T_U8, T_I8};
static const std::vector<T> F_PENTRY = {T_TIME, T_U64, T_SEQ_VENTRY, T_OCT};
static const std::vector<T> F_VENTRY = {T_VALUE, T_OCT};
static const std::vector<T> F_PERIOD = {T_OCT, T_U8, T_I8, T_VALUE, T_OCT};
static const std::vector<T> F_TUPEL = {T_OCT, T_TIME, T_U64, T_U8, T_I8, T_I64, T_U8, T_I8, T_I64, T_U8, T_I8, T_I64,
									   T_OCT, T_U8, T_I8, T_I64, T_U8, T_I8, T_I64, T_U8, T_I8, T_I64, T_OCT};
static const std::vector<T> F_OPEN_REQ = {T_OCT, T_OCT, T_OCT, T_OCT, T_OCT, T_OCT, T_U8};
static const std::vector<T> F_OPEN_RES = {T_OCT, T_OCT, T_OCT, T_OCT, T_TIME, T_U8};
static const std::vector<T> F_CLOSE = {T_OCT};
static const std::vector<T> F_PROF_REQ = {T_OCT, T_OCT, T_OCT, T_BOOL, T_TIME, T_TIME, T_PATH, T_OBJLIST, T_TREE};
static const std::vector<T> F_PACK_RES = {T_OCT, T_TIME, T_U32, T_PATH, T_SEQ_HEADER, T_SEQ_PENTRY, T_OCT, T_OCT};
static const std::vector<T> F_PLIST_RES = {T_OCT, T_TIME, T_U32, T_PATH, T_TIME, T_U64, T_SEQ_PERIOD, T_OCT, T_OCT};
static const std::vector<T> F_GPP_REQ = {T_OCT, T_OCT, T_OCT, T_PATH, T_OCT};
static const std::vector<T> F_GPP_RES = {T_OCT, T_PATH, T_TREE};
static const std::vector<T> F_SPP_REQ = {T_OCT, T_OCT, T_OCT, T_PATH, T_TREE};
static const std::vector<T> F_LIST_REQ = {T_OCT, T_OCT, T_OCT, T_OCT, T_OCT};
static const std::vector<T> F_LIST_RES = {T_OCT, T_OCT, T_OCT, T_TIME, T_VALLIST, T_OCT, T_TIME};
static const std::vector<T> F_ATTENTION = {T_OCT, T_OCT, T_OCT, T_TREE};

const std::vector<T> *fields_of(T t) {
	switch (t) {
	case T_ENTRY: return &F_ENTRY;
	case T_HEADER: return &F_HEADER;
	case T_PENTRY: return &F_PENTRY;
	case T_VENTRY: return &F_VENTRY;
	case T_PERIOD: return &F_PERIOD;
	case T_TUPEL: return &F_TUPEL;
	case T_OPEN_REQ: return &F_OPEN_REQ;
	case T_OPEN_RES: return &F_OPEN_RES;
	case T_CLOSE_REQ:
	case T_CLOSE_RES: return &F_CLOSE;
	case T_PACK_REQ:
	case T_PLIST_REQ: return &F_PROF_REQ;
	case T_PACK_RES: return &F_PACK_RES;
	case T_PLIST_RES: return &F_PLIST_RES;
	case T_GPP_REQ: return &F_GPP_REQ;
	case T_GPP_RES: return &F_GPP_RES;
	case T_SPP_REQ: return &F_SPP_REQ;
	case T_LIST_REQ: return &F_LIST_REQ;
	case T_LIST_RES: return &F_LIST_RES;
	case T_ATTENTION: return &F_ATTENTION;
	default: return nullptr;
	}
}
T type_of_tag(uint32_t tag) {
	for (int i = 0; i < 14; i++)
		if (MSG_TAG[i] == tag)
			return MSG_T[i];
	return T_NONE;
}
T elem_of(T t) {
	switch (t) {
	case T_VALLIST: return T_ENTRY;
	case T_PATH:
	case T_OBJLIST: return T_OCT;
	case T_SEQ_HEADER: return T_HEADER;
	case T_SEQ_PENTRY: return T_PENTRY;
	case T_SEQ_VENTRY: return T_VENTRY;
	case T_SEQ_PERIOD: return T_PERIOD;
	default: return T_NONE;
	}
}
const char *name_of(T t) {
	static const char *n[] = {"octet string", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "boolean", "value",
							  "status", "time", "value list", "tree path", "object list", "tree", "parameter value",
							  "period entry", "tupel entry", "list entry", "profile header entry",
							  "profile period entry", "value entry", "header list", "period list", "value entry list",
							  "period entry list", "open request", "open response", "close request", "close response",
							  "profile pack request", "profile pack response", "profile list request",
							  "profile list response", "get parameter request", "get parameter response",
							  "set parameter request", "list request", "list response", "attention response", "message body", "none"};
	return n[t];
}
bool is_optional(T t) { return t <= T_TUPEL; }

// ------------------------------------------------------------------ rendering

void dump_to(std::string &o, const Node &n) {
	switch (n.k) {
	case Node::ABSENT: o += '-'; break;
	case Node::OCT:
		o += '"';
		o += hex(n.b, (size_t)-1);
		o += '"';
		break;
	case Node::NUM: {
		char t[40];
		if (n.sgn)
			snprintf(t, sizeof t, "i%d=%lld", n.width, (long long)n.sv());
		else
			snprintf(t, sizeof t, "u%d=%llu", n.width, (unsigned long long)n.v);
		o += t;
		break;
	}
	case Node::BOOL: o += n.v ? "true" : "false"; break;
	case Node::LIST:
		o += '[';
		for (size_t i = 0; i < n.c.size(); i++) {
			if (i)
				o += ',';
			dump_to(o, n.c[i]);
		}
		o += ']';
	}
}
std::string dump(const Node &n) {
	std::string o;
	dump_to(o, n);
	return o;
}

// ------------------------------------------------------------------ generators

static unsigned hint_pad(Src &s, Gen &g) { return g.wire && s.chance(1, 12) ? 1 + (unsigned)s.below(4) : 0; }

static size_t gen_len(Src &s, Gen &g) {
	if (g.big && s.chance(1, (unsigned)g.big)) {
		static const int at[] = {15, 254, 4094, 270, 510, 1000, 3000, 4090};
		int a = s.pick(at);
		g.budget -= 10;
		return (size_t)(a - 3 + (int)s.below(8));
	}
	switch (s.below(4)) {
	case 0: return s.below(4);
	case 1: return 10 + s.below(9);
	default: return s.below(20);
	}
}
static Node gen_oct(Src &s, Gen &g) {
	size_t n = gen_len(s, g);
	if (n == 0 && !g.empty_oct)
		n = 1;
	Node x = Node::oct(s.bytes(n));
	x.tlpad = (uint8_t)hint_pad(s, g);
	if (x.b.empty() && g.wire && !x.tlpad)
		x.tlpad = 1; // the one byte form is the skipped marker
	return x;
}
static int significant(bool sgn, int width, uint64_t v) { // bytes needed
	for (int l = 1; l < width; l++) {
		int sh = 64 - 8 * l;
		uint64_t w = sgn ? (uint64_t)((int64_t)(v << sh) >> sh) : (v << sh) >> sh;
		if (width < 8)
			w &= (1ull << (8 * width)) - 1;
		if (w == v)
			return l;
	}
	return width;
}
static void hint_num(Src &s, Gen &g, Node &n, bool generic) {
	n.tlpad = (uint8_t)hint_pad(s, g);
	if (g.wire && n.width > 1 && s.chance(1, 3)) {
		int lo = significant(n.sgn, n.width, n.v);
		if (generic)
			lo = std::max(lo, n.width / 2 + 1);
		n.nbytes = (uint8_t)s.range(lo, n.width);
	}
}
static Node gen_num(Src &s, Gen &g, bool sgn, int width, bool generic) {
	Node n = Node::num(sgn, width, s.interesting(width));
	hint_num(s, g, n, generic);
	return n;
}
static const Bytes DZG_SERIAL("\x01\x00\x60\x01\x00\xff", 6), DZG_POWER("\x01\x00\x10\x07\x00\xff", 6);

static size_t gen_count(Src &s, Gen &g, int cheap) {
	if (g.budget <= 0)
		return s.below(2);
	if (g.big && cheap && s.chance(1, (unsigned)g.big)) {
		static const int at[] = {16, 16, 30, 255, 257};
		size_t n = (size_t)(s.pick(at) - 2 + (int)s.below(5));
		if (cheap > 1 && s.chance(1, 8))
			n = 4094 + s.below(5);
		g.budget -= (int)std::min<size_t>(n, 60);
		return n;
	}
	size_t n = s.below(8) < 6 ? s.below(4) : s.below(8);
	return n;
}

static Node gen_body(Src &s, Gen &g, int kind);
Node gen(Src &s, Gen &g, T t, int depth) {
	g.budget--;
	// the first choice decides about presence; 0 = absent is the simplest
	if (is_optional(t)) {
		if (!s.chance(3, 4) || (g.budget < -200 && s.chance(3, 4)))
			return Node::absent();
	}
	switch (t) {
	case T_OCT: return gen_oct(s, g);
	case T_U8: return gen_num(s, g, false, 1, false);
	case T_U16: return gen_num(s, g, false, 2, false);
	case T_U32: return gen_num(s, g, false, 4, false);
	case T_U64: return gen_num(s, g, false, 8, false);
	case T_I8: return gen_num(s, g, true, 1, false);
	case T_I16: return gen_num(s, g, true, 2, false);
	case T_I32: return gen_num(s, g, true, 4, false);
	case T_I64: return gen_num(s, g, true, 8, false);
	case T_BOOL: {
		Node n = Node::boolean(s.flip());
		n.tlpad = (uint8_t)hint_pad(s, g);
		if (g.wire && n.v && s.chance(1, 2))
			n.raw = (uint8_t)s.range(1, 255);
		if (!g.wire && n.v && s.chance(1, 4))
			n.nbytes = (uint8_t)s.range(1, 255);
		return n;
	}
	case T_VALUE:
		switch (s.below(4)) {
		case 0: return gen_oct(s, g);
		case 1: {
			Node n = Node::boolean(s.flip());
			if (g.wire && n.v && s.chance(1, 2))
				n.raw = (uint8_t)s.range(1, 255);
			return n;
		}
		default: {
			bool sgn = s.flip();
			return gen_num(s, g, sgn, 1 << s.below(4), true);
		}
		}
	case T_STATUS: return gen_num(s, g, false, 1 << s.below(4), true);
	case T_TIME: {
		Node ts = gen_num(s, g, false, 4, false);
		Node tag = s.chance(1, 8) ? gen_num(s, g, false, 1, false) : Node::num(false, 1, 1 + s.below(2));
		if (g.wire && s.chance(1, 16))
			tag = Node::absent();
		Node n = Node::list({tag, ts});
		n.tlpad = (uint8_t)hint_pad(s, g);
		if (g.wire && s.chance(1, 8)) {
			n.form = 1 + (uint8_t)s.below(2);
			if (n.form == 1 && n.c.size() > 1) {
				n.c[1].tlpad = 0;
				n.c[1].nbytes = 0;
				n.tlpad = 0;
			} else {
				Node l = Node::list({gen(s, g, T_U32), gen(s, g, T_I16), gen(s, g, T_I16)});
				n.c[1] = l;
			}
		}
		return n;
	}
	case T_VALLIST:
	case T_PATH:
	case T_OBJLIST:
	case T_SEQ_HEADER:
	case T_SEQ_PENTRY:
	case T_SEQ_VENTRY:
	case T_SEQ_PERIOD: {
		Node n = Node::list();
		n.tlpad = (uint8_t)hint_pad(s, g);
		T e = elem_of(t);
		int cheap = e == T_OCT ? 2 : e == T_PENTRY ? 0 : 1;
		size_t k = gen_count(s, g, cheap);
		// an empty value or object list has no representation of its own after parsing
		if (k == 0 && !g.wire && (t == T_VALLIST || t == T_OBJLIST))
			k = 1;
		bool many = k > 40;
		int save = g.big;
		if (many)
			g.big = 0;
		for (size_t i = 0; i < k; i++) {
			if (many && i > 3) { // repeat, the position matters more than the content
				Node c = n.c[i % 3];
				if (c.k == Node::OCT && c.b.size() >= 2) {
					c.b[0] = (char)i;
					c.b[1] = (char)(i >> 8);
				}
				n.c.push_back(c);
				continue;
			}
			Node c = gen(s, g, e, depth + 1);
			if (e == T_OCT && ((c.k == Node::ABSENT && !(g.wire || t == T_OBJLIST)) ||
							   (t == T_PATH && g.full_path && c.b.empty()))) {
				c = gen_oct(s, g);
				if (t == T_PATH && g.full_path && c.b.empty())
					c = Node::oct("p");
			}
			n.c.push_back(std::move(c));
		}
		g.big = save;
		return n;
	}
	case T_TREE: {
		Node name = gen(s, g, T_OCT), val = gen(s, g, T_PPV);
		Node kids = Node::absent();
		if (depth < 6 && s.chance(1, 2)) {
			kids = Node::list();
			kids.tlpad = (uint8_t)hint_pad(s, g);
			size_t k = gen_count(s, g, depth == 0 ? 1 : 0);
			if (k == 0 && !g.wire)
				kids = Node::absent();
			for (size_t i = 0; i < k; i++) {
				if (k > 40 && i > 3) {
					kids.c.push_back(kids.c[i % 3]);
					continue;
				}
				Node c = gen(s, g, T_TREE, depth + 1);
				if (c.k == Node::ABSENT && !g.wire)
					c = Node::of(Node::absent(), Node::absent(), Node::absent());
				kids.c.push_back(std::move(c));
			}
		}
		Node n = Node::of(std::move(name), std::move(val), std::move(kids));
		n.tlpad = (uint8_t)hint_pad(s, g);
		if (g.deep && depth == 0 && s.chance(1, 6)) { // wrap it into a deep chain
			size_t total = s.flip() ? 248 : 8 + s.below(100); // levels, the library accepts 256
			for (size_t i = 0; i < total; i++)
			{
				Node kids = Node::list(), up = Node::list();
				kids.c.push_back(std::move(n));
				up.c.push_back(i % 7 ? Node::absent() : Node::oct(Bytes(1, (char)i)));
				up.c.push_back(Node::absent());
				up.c.push_back(std::move(kids));
				n = std::move(up);
			}
			label("deep tree");
		}
		return n;
	}
	case T_PPV: {
		static const T alt[] = {T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		unsigned k = (unsigned)s.below(4);
		if (k == 2 && g.budget < 0)
			k = 0;
		Node tag = Node::num(false, 1, k + 1);
		tag.tlpad = (uint8_t)hint_pad(s, g);
		Node n = Node::of(std::move(tag), gen(s, g, alt[k]));
		n.tlpad = (uint8_t)hint_pad(s, g);
		return n;
	}
	case T_BODY: return gen_body(s, g, (int)s.below(14));
	default: {
		const std::vector<T> *f = fields_of(t);
		Node n = Node::list();
		n.tlpad = (uint8_t)hint_pad(s, g);
		for (T e : *f)
			n.c.push_back(gen(s, g, e, depth));
		if (t == T_ENTRY && g.dzg) {
			switch (s.below(8)) {
			case 0:
				n.c[0] = Node::oct(DZG_SERIAL);
				if (s.chance(2, 3)) { // of a meter with the deviation, or nearly so
					uint64_t no = s.flip() ? 41999000 + s.below(7002000) : 54999000 + s.below(4002000);
					Bytes v("\x0a\x01" "DZG\x00", 6);
					for (int i = 3; i >= 0; i--)
						v += (char)(no >> (8 * i));
					n.c[5] = Node::oct(v);
				}
				break;
			case 1:
			case 2:
			case 3:
				n.c[0] = Node::oct(DZG_POWER);
				if (s.chance(2, 3)) {
					int w = 1 + (int)s.below(2);
					n.c[5] = Node::num(true, w, w == 1 ? (uint64_t)(int64_t)(int8_t)s.interesting(1) : (uint64_t)(int64_t)(int16_t)s.interesting(2));
				}
				break;
			}
		}
		return n;
	}
	}
}
static Node gen_body(Src &s, Gen &g, int kind) {
	Node tag = Node::num(false, 4, MSG_TAG[kind]);
	hint_num(s, g, tag, false);
	Node data = gen(s, g, MSG_T[kind]);
	Node body = Node::of(std::move(tag), std::move(data));
	body.tlpad = (uint8_t)hint_pad(s, g);
	return body;
}
Node gen_message_of(Src &s, Gen &g, int kind) {
	Node tid = gen(s, g, T_OCT), grp = gen(s, g, T_U8), ab = gen(s, g, T_U8);
	Node body = gen_body(s, g, kind);
	return Node::of(std::move(tid), std::move(grp), std::move(ab), std::move(body));
}
Node gen_message(Src &s, Gen &g) { return gen_message_of(s, g, (int)s.below(14)); }

size_t count_nodes(const Node &n) {
	size_t k = 1;
	for (auto &c : n.c)
		k += count_nodes(c);
	return k;
}

static Node shallow(const Node &n) { // without the children
	Node r;
	r.k = n.k;
	r.sgn = n.sgn;
	r.width = n.width;
	r.v = n.v;
	r.b = n.b;
	return r;
}
Node view(T t, const Node &n) {
	Node r = shallow(n);
	if (n.k == Node::ABSENT)
		return r;
	switch (t) {
	case T_TIME:
		r.c = n.c;
		for (auto &c : r.c)
			c.tlpad = c.nbytes = 0;
		if (n.form == 1)
			r.c[0] = Node::num(false, 1, 1);
		else if (n.form == 2)
			r.c[1] = Node::absent();
		return r;
	case T_VALLIST:
	case T_OBJLIST:
	case T_PATH:
	case T_SEQ_HEADER:
	case T_SEQ_PENTRY:
	case T_SEQ_VENTRY:
	case T_SEQ_PERIOD: {
		if (n.c.empty() && (t == T_VALLIST || t == T_OBJLIST))
			return Node::absent();
		for (auto &c : n.c) {
			if (t == T_PATH && c.k == Node::ABSENT)
				continue;
			r.c.push_back(view(elem_of(t), c));
		}
		return r;
	}
	case T_TREE: {
		r.c.resize(3);
		r.c[0] = view(T_OCT, n.c[0]);
		r.c[1] = view(T_PPV, n.c[1]);
		if (n.c[2].k == Node::LIST) {
			Node k = Node::list();
			for (auto &c : n.c[2].c)
				if (c.k != Node::ABSENT)
					k.c.push_back(view(T_TREE, c));
			if (!k.c.empty())
				r.c[2] = std::move(k);
		}
		return r;
	}
	case T_PPV: {
		static const T alt[] = {T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		r.c.resize(2);
		r.c[0] = view(T_U8, n.c[0]);
		r.c[1] = view(alt[n.c[0].v - 1], n.c[1]);
		return r;
	}
	case T_BODY:
		r.c.resize(2);
		r.c[0] = view(T_U32, n.c[0]);
		r.c[1] = view(type_of_tag((uint32_t)n.c[0].v), n.c[1]);
		return r;
	default:
		if (const std::vector<T> *f = fields_of(t))
			for (size_t i = 0; i < f->size(); i++)
				r.c.push_back(view((*f)[i], n.c[i]));
		return r;
	}
}
Node view_message(const Node &m) {
	return Node::of(view(T_OCT, m.c[0]), view(T_U8, m.c[1]), view(T_U8, m.c[2]), view(T_BODY, m.c[3]));
}
Node normalize_empty(const Node &n) {
	if (n.k == Node::OCT && n.b.empty())
		return Node::absent();
	Node r = shallow(n);
	r.c.reserve(n.c.size());
	for (auto &c : n.c)
		r.c.push_back(normalize_empty(c));
	return r;
}
Node written(T t, const Node &n) {
	if (n.k == Node::ABSENT)
		return n;
	if (n.k == Node::OCT)
		return n.b.empty() ? Node::absent() : n;
	if (t == T_TIME)
		return n.c[1].k == Node::ABSENT ? Node::absent() : n;
	if (n.c.empty())
		return n;
	Node r = shallow(n);
	if (t == T_TREE) {
		r.c.push_back(written(T_OCT, n.c[0]));
		r.c.push_back(written(T_PPV, n.c[1]));
		r.c.push_back(shallow(n.c[2]));
		for (auto &c : n.c[2].c)
			r.c[2].c.push_back(written(T_TREE, c));
	} else if (t == T_PPV) {
		static const T alt[] = {T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		r.c.push_back(n.c[0]);
		r.c.push_back(written(alt[n.c[0].v - 1], n.c[1]));
	} else if (t == T_BODY) {
		r.c.push_back(n.c[0]);
		r.c.push_back(written(type_of_tag((uint32_t)n.c[0].v), n.c[1]));
	} else if (elem_of(t) != T_NONE) {
		for (auto &c : n.c)
			r.c.push_back(written(elem_of(t), c));
	} else if (const std::vector<T> *f = fields_of(t))
		for (size_t i = 0; i < f->size(); i++)
			r.c.push_back(written((*f)[i], n.c[i]));
	return r;
}
Node written_message(const Node &m) {
	Node r = m;
	r.c[0] = written(T_OCT, m.c[0]);
	r.c[3] = written(T_BODY, m.c[3]);
	return r;
}
void strip_hints(Node &n) {
	n.tlpad = n.nbytes = n.raw = n.form = n.xtype = 0;
	n.as = 1;
	n.dlen = 0;
	for (auto &c : n.c)
		strip_hints(c);
}

// ------------------------------------------------------------------ reference encoder

static uint16_t crc_bits(const Bytes &b, uint16_t r) { // reflected polynomial 0x1021
	for (unsigned char x : b)
		for (int i = 0; i < 8; i++) {
			bool bit = ((r ^ (x >> i)) & 1) != 0;
			r = (uint16_t)(r >> 1);
			if (bit)
				r ^= 0x8408;
		}
	return r;
}
uint16_t ref_crc_x25_swapped(const Bytes &b) {
	uint16_t r = (uint16_t)~crc_bits(b, 0xffff);
	return (uint16_t)((r << 8) | (r >> 8));
}
uint16_t ref_crc_kermit(const Bytes &b) { return crc_bits(b, 0); }

void put_tl(Bytes &o, unsigned type, uint64_t n, unsigned pad, int dlen) {
	n += (uint64_t)(int64_t)dlen;
	// smallest number of fields that holds the length (which, except for lists, counts the fields)
	unsigned k = 1;
	for (;; k++) {
		uint64_t total = type == 0x70 ? n : n + k;
		if (k >= 16 || (total >> (4 * k)) == 0)
			break;
	}
	k += pad;
	uint64_t total = type == 0x70 ? n : n + k;
	for (unsigned i = 0; i < k; i++) {
		unsigned sh = 4 * (k - 1 - i);
		unsigned nib = sh >= 64 ? 0 : (unsigned)(total >> sh) & 15;
		o += (char)((i == 0 ? type : 0) | (i + 1 < k ? 0x80 : 0) | nib);
	}
}
void encode_to(Bytes &o, const Node &n) {
	size_t at = o.size();
	auto type = [&](unsigned t) { return n.as == 1 ? t : (unsigned)n.as; };
	switch (n.k) {
	case Node::ABSENT: o += '\x01'; break;
	case Node::OCT:
		put_tl(o, type(0x00), n.b.size(), n.tlpad, n.dlen);
		o += n.b;
		break;
	case Node::BOOL:
		put_tl(o, type(0x40), 1, n.tlpad, n.dlen);
		o += n.v ? (char)(n.raw ? n.raw : 0xff) : '\0';
		break;
	case Node::NUM: {
		int w = n.nbytes ? n.nbytes : n.width;
		put_tl(o, type(n.sgn ? 0x50 : 0x60), (uint64_t)w, n.tlpad, n.dlen);
		uint64_t v = n.sgn ? (uint64_t)n.sv() : n.v;
		for (int i = w - 1; i >= 0; i--)
			o += (char)(i >= 8 ? (n.sgn && n.sv() < 0 ? 0xff : 0) : v >> (8 * i));
		break;
	}
	case Node::LIST:
		if (n.form == 1 && n.c.size() > 1) {
			encode_to(o, n.c[1]);
			break;
		}
		put_tl(o, type(0x70), n.c.size(), n.tlpad, n.dlen);
		for (auto &c : n.c)
			encode_to(o, c);
	}
	if (n.xtype)
		o[at] = (char)(o[at] ^ n.xtype);
}
Bytes encode(const Node &n) {
	Bytes o;
	encode_to(o, n);
	return o;
}
Bytes encode_message(const Node &m, const MsgOpt &opt, size_t *crc_at) {
	Bytes o;
	put_tl(o, 0x70, 6, m.tlpad, m.dlen);
	for (auto &c : m.c)
		encode_to(o, c);
	if (crc_at)
		*crc_at = o.size();
	uint16_t crc = opt.crc == 1 ? ref_crc_kermit(o) : ref_crc_x25_swapped(o);
	crc ^= opt.xor_crc;
	o += '\x63';
	o += (char)(crc >> 8);
	o += (char)crc;
	if (!opt.no_end)
		o += '\0';
	return o;
}
Node crc_node(uint16_t crc) { return Node::num(false, 2, crc); }
Node with_crc(const Node &m, uint16_t crc) {
	Node r = m;
	r.c.push_back(crc_node(crc));
	return r;
}
Bytes frame(const Bytes &p) {
	Bytes o("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8);
	o += p;
	unsigned pad = (unsigned)((4 - o.size() % 4) % 4);
	o.append(pad, '\0');
	o += Bytes("\x1b\x1b\x1b\x1b\x1a", 5);
	o += (char)pad;
	uint16_t crc = ref_crc_x25_swapped(o);
	o += (char)(crc >> 8);
	o += (char)crc;
	return o;
}

// ------------------------------------------------------------------ reference decoder

int Dec::type() {
	if (cur >= b.size()) {
		err = true;
		return -1;
	}
	return (uint8_t)b[cur] & 0x70;
}
// returns the payload length or element count, -1 with err if malformed
long long Dec::length() {
	if (cur >= b.size()) {
		err = true;
		return -1;
	}
	bool list = ((uint8_t)b[cur] & 0x70) == 0x70;
	long long l = 0, fields = 0;
	for (;;) {
		if (cur >= b.size()) {
			err = true;
			return -1;
		}
		uint8_t x = (uint8_t)b[cur++];
		fields++;
		l = l * 16 + (x & 15);
		if (l > 0x7fffffff) {
			err = true;
			return -1;
		}
		if (!(x & 0x80))
			break;
	}
	if (!list)
		l -= fields;
	if (l < 0)
		err = true;
	return l;
}
bool Dec::skipped() {
	if (cur >= b.size()) {
		err = true;
		return true;
	}
	if ((uint8_t)b[cur] == 0x01) {
		cur++;
		return true;
	}
	return false;
}
Node Dec::octet() {
	if (skipped())
		return Node::absent();
	if (type() != 0x00) {
		err = true;
		return Node::absent();
	}
	long long l = length();
	if (err || (unsigned long long)l > b.size() - cur) {
		err = true;
		return Node::absent();
	}
	Node n = Node::oct(b.substr(cur, (size_t)l));
	cur += (size_t)l;
	return n;
}
Node Dec::number(bool sgn, int width) {
	if (skipped())
		return Node::absent();
	if (type() != (sgn ? 0x50 : 0x60)) {
		err = true;
		return Node::absent();
	}
	long long l = length();
	if (err || l < 1 || l > width || (unsigned long long)l > b.size() - cur) {
		err = true;
		return Node::absent();
	}
	uint64_t v = sgn && ((uint8_t)b[cur] & 0x80) ? ~0ull : 0;
	for (int i = 0; i < l; i++)
		v = v << 8 | (uint8_t)b[cur++];
	return Node::num(sgn, width, v);
}
Node Dec::anynumber(bool sgn) {
	size_t at = cur;
	long long l = length();
	if (err || l < 1 || l > 8) {
		err = true;
		return Node::absent();
	}
	cur = at;
	return number(sgn, l <= 1 ? 1 : l <= 2 ? 2 : l <= 4 ? 4 : 8);
}
Node Dec::boolean() {
	if (skipped())
		return Node::absent();
	if (type() != 0x40 || length() != 1 || err || cur >= b.size()) {
		err = true;
		return Node::absent();
	}
	return Node::boolean(b[cur++] != 0);
}

static bool dzg_serial_affected(const Node &e) {
	if (e.c[0].k != Node::OCT || e.c[0].b != DZG_SERIAL || e.c[5].k != Node::OCT || e.c[5].b.size() != 10)
		return false;
	const Bytes &v = e.c[5].b;
	if (v.compare(0, 5, Bytes("\x0a\x01" "DZG", 5)) != 0)
		return false;
	uint64_t serial = 0;
	for (int i = 5; i < 10; i++)
		serial = serial * 256 + (uint8_t)v[(size_t)i];
	return (serial >= 42000000 && serial <= 48999999) || (serial >= 55000000 && serial <= 58999999);
}

Node Dec::element(T t, int depth) {
	if (err)
		return Node::absent();
	switch (t) {
	case T_OCT: return octet();
	case T_U8: return number(false, 1);
	case T_U16: return number(false, 2);
	case T_U32: return number(false, 4);
	case T_U64: return number(false, 8);
	case T_I8: return number(true, 1);
	case T_I16: return number(true, 2);
	case T_I32: return number(true, 4);
	case T_I64: return number(true, 8);
	case T_BOOL: return boolean();
	case T_VALUE:
		if (skipped())
			return Node::absent();
		switch (type()) {
		case 0x00: return octet();
		case 0x40: return boolean();
		case 0x50: return anynumber(true);
		case 0x60: return anynumber(false);
		default: err = true; return Node::absent();
		}
	case T_STATUS:
		if (skipped())
			return Node::absent();
		if (type() != 0x60) {
			err = true;
			return Node::absent();
		}
		return anynumber(false);
	case T_TIME: {
		if (skipped())
			return Node::absent();
		Node tag;
		if ((uint8_t)b[cur] == 0x65) // Holley: the bare seconds index
			return Node::list({Node::num(false, 1, 1), number(false, 4)});
		if (type() != 0x70 || length() != 2 || err) {
			err = true;
			return Node::absent();
		}
		tag = number(false, 1);
		if (err)
			return Node::absent();
		switch (type()) {
		case 0x60: {
			Node v = number(false, 4);
			return Node::list({tag, v});
		}
		case 0x70: // FROETEC: three values that are ignored
			if (length() != 3 || err) {
				err = true;
				return Node::absent();
			}
			element(T_U32);
			element(T_I16);
			element(T_I16);
			return Node::list({tag, Node::absent()});
		default: err = true; return Node::absent();
		}
	}
	case T_VALLIST:
	case T_PATH:
	case T_OBJLIST:
		if (skipped())
			return Node::absent();
		// fall through
	case T_SEQ_HEADER:
	case T_SEQ_PENTRY:
	case T_SEQ_VENTRY:
	case T_SEQ_PERIOD: {
		if (type() != 0x70) {
			err = true;
			return Node::absent();
		}
		long long n = length();
		Node r = Node::list();
		bool dzg = false;
		for (long long i = 0; i < n && !err; i++) {
			Node e;
			if (t == T_VALLIST) {
				// as the entry below, but remembering the first byte of the value
				if (type() != 0x70 || length() != 7 || err) {
					err = true;
					break;
				}
				e = Node::list();
				uint8_t vtl = 0;
				for (size_t k = 0; k < 7 && !err; k++) {
					if (k == 5 && cur < b.size())
						vtl = (uint8_t)b[cur];
					e.c.push_back(element(F_ENTRY[k], depth));
				}
				if (err)
					break;
				if (dzg_serial_affected(e))
					dzg = true;
				else if (dzg && e.c[0].k == Node::OCT && e.c[0].b == DZG_POWER && e.c[5].k == Node::NUM && e.c[5].sgn &&
						 (vtl & 0x8f) >= 1 && (vtl & 0x8f) <= 3)
					e.c[5].sgn = false;
			} else
				e = element(elem_of(t), depth);
			if (t == T_PATH && e.k == Node::ABSENT)
				continue;
			r.c.push_back(e);
		}
		if (err)
			return Node::absent();
		if (r.c.empty() && (t == T_VALLIST || t == T_OBJLIST))
			return Node::absent();
		return r;
	}
	case T_TREE: {
		if (skipped())
			return Node::absent();
		if (depth >= 256 || type() != 0x70 || length() != 3 || err) {
			err = true;
			return Node::absent();
		}
		Node r = Node::list();
		r.c.push_back(octet());
		r.c.push_back(element(T_PPV));
		r.c.push_back(Node::absent());
		if (err)
			return Node::absent();
		if (!skipped()) {
			if (type() != 0x70) {
				err = true;
				return Node::absent();
			}
			long long n = length();
			for (long long i = 0; i < n && !err; i++) {
				Node c = element(T_TREE, depth + 1);
				if (c.k != Node::ABSENT) {
					if (r.c[2].k == Node::ABSENT)
						r.c[2] = Node::list();
					r.c[2].c.push_back(std::move(c));
				}
			}
		}
		return err ? Node::absent() : r;
	}
	case T_BODY: {
		if (type() != 0x70 || length() != 2 || err) {
			err = true;
			return Node::absent();
		}
		Node tag = number(false, 4);
		if (err || tag.k != Node::NUM || type_of_tag((uint32_t)tag.v) == T_NONE) {
			err = true;
			return Node::absent();
		}
		Node v = element(type_of_tag((uint32_t)tag.v));
		return Node::list({tag, v});
	}
	case T_PPV: {
		if (skipped())
			return Node::absent();
		if (type() != 0x70 || length() != 2 || err) {
			err = true;
			return Node::absent();
		}
		Node tag = number(false, 1);
		static const T alt[] = {T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		if (err || tag.k != Node::NUM || tag.v < 1 || tag.v > 4) {
			err = true;
			return Node::absent();
		}
		Node v = element(alt[tag.v - 1]);
		return Node::list({tag, v});
	}
	default: {
		const std::vector<T> *f = fields_of(t);
		if (!f) {
			err = true;
			return Node::absent();
		}
		if (is_optional(t) && skipped())
			return Node::absent();
		if (type() != 0x70 || length() != (long long)f->size() || err) {
			err = true;
			return Node::absent();
		}
		Node r = Node::list();
		for (T e : *f) {
			r.c.push_back(element(e, depth));
			if (err)
				return Node::absent();
		}
		return r;
	}
	}
}

bool Dec::message(Node &m) {
	size_t start = cur;
	if (type() != 0x70 || length() != 6 || err) {
		err = true;
		return false;
	}
	Node tid = octet();
	Node grp = err ? Node() : number(false, 1);
	Node ab = err ? Node() : number(false, 1);
	if (err)
		return false;
	Node body = element(T_BODY);
	if (err)
		return false;
	size_t end = cur;
	if (b.size() - cur < 3) {
		err = true;
		return false;
	}
	Node crc = number(false, 2);
	if (err || crc.k != Node::NUM) {
		err = true;
		return false;
	}
	Bytes raw = b.substr(start, end - start);
	if (crc.v != ref_crc_x25_swapped(raw) && crc.v != ref_crc_kermit(raw))
		return false;
	if (cur >= b.size()) {
		err = true;
		return false;
	}
	if (b[cur] == 0)
		cur++;
	m = Node::of(tid, grp, ab, std::move(body), crc);
	return true;
}
std::vector<Node> Dec::file() {
	std::vector<Node> r;
	while (cur < b.size()) {
		if (b[cur] == 0) {
			cur++;
			continue;
		}
		Node m;
		if (message(m))
			r.push_back(m);
		if (err)
			break;
	}
	return r;
}
