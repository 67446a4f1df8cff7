// C14: meter workarounds apply exactly to the deviating meters and nothing else
#include "bridge.h"
#include "mutate.h"

static const Bytes SERIAL("\x01\x00\x60\x01\x00\xff", 6), POWER("\x01\x00\x10\x07\x00\xff", 6);

static Bytes serial_text(uint64_t n, int bytes = 5) {
	Bytes b("\x0a\x01" "DZG", 5);
	for (int i = bytes - 1; i >= 0; i--)
		b += (char)(n >> (8 * i));
	return b;
}
static bool affected(uint64_t n) { return (n >= 42000000 && n <= 48999999) || (n >= 55000000 && n <= 58999999); }
static uint64_t gen_serial(Src &s) {
	static const uint64_t at[] = {42000000, 48999999, 55000000, 58999999};
	switch (s.below(4)) {
	case 0: return s.pick(at) - 3 + s.below(7);
	case 1: return 42000000 + s.below(7000000);
	case 2: return 55000000 + s.below(4000000);
	default: break;
	}
	switch (s.below(4)) {
	case 0: return 49000000 + s.below(6000000);
	case 1: return 59000000 + s.below(41000000);
	case 2: return s.below(42000000);
	default: return s.u64() & 0xffffffffffull;
	}
}
struct Entry {
	Node e;       // as encoded
	Node want;    // as reported
	bool flips = false;
};
static Node entry(const Node &name, const Node &value) {
	return Node::of(name, Node::absent(), Node::absent(), Node::num(false, 1, 27), Node::num(true, 1, 0xfe), value, Node::absent());
}
static Node other_name(Src &s, const Bytes &of) {
	Bytes n = of;
	switch (s.below(5)) {
	case 0: n[s.below(6)] = (char)s.below(256); break;
	case 1: n += (char)s.below(3); break;
	case 2: n.resize(s.below(6)); break;
	case 3: n = Bytes("\x01\x00\x01\x08\x00\xff", 6); break;
	default: return Node::absent();
	}
	if (n == of)
		n[0] ^= 1;
	return n.empty() ? Node::absent() : Node::oct(n);
}
// a number with its shortest or a longer encoding, no leading length fields
static Node number(Src &s, bool sgn, int nbytes) {
	int w = nbytes == 1 ? 1 : nbytes == 2 ? 2 : nbytes <= 4 ? 4 : 8;
	uint64_t v = s.interesting(nbytes);
	int sh = 64 - 8 * nbytes;
	if (sgn)
		v = (uint64_t)((int64_t)(v << sh) >> sh);
	Node n = Node::num(sgn, w, v);
	n.nbytes = (uint8_t)nbytes;
	return n;
}
static bool announces(const Node &e) {
	if (e.c[0].k != Node::OCT || e.c[0].b != SERIAL || e.c[5].k != Node::OCT || e.c[5].b.size() != 10 ||
		e.c[5].b.compare(0, 5, serial_text(0), 0, 5) != 0)
		return false;
	uint64_t n = 0;
	for (int i = 5; i < 10; i++)
		n = n << 8 | (uint8_t)e.c[5].b[(size_t)i];
	return affected(n);
}
static Entry gen_entry(Src &s, bool &announced) {
	Entry r;
	Node v;
	switch (s.below(12)) {
	case 0: r.e = entry(Node::oct(SERIAL), Node::oct(serial_text(gen_serial(s)))); break;
	case 1: { // nearly a serial number of that kind
		Bytes t = serial_text(45000000 + s.below(1000));
		switch (s.below(4)) {
		case 0: t[s.below(5)] ^= (char)(1 << s.below(8)); break;
		case 1: t.resize(s.below(10)); break;
		case 2: t += (char)s.below(256); break;
		default: t = serial_text(45000000, 4); break;
		}
		r.e = entry(Node::oct(SERIAL), t.empty() ? Node::absent() : Node::oct(t));
		break;
	}
	case 2: r.e = entry(other_name(s, SERIAL), Node::oct(serial_text(45000000 + s.below(1000)))); break;
	case 3: r.e = entry(Node::oct(SERIAL), s.flip() ? number(s, s.flip(), 1 + (int)s.below(8)) : Node::boolean(s.flip())); break;
	case 4: r.e = entry(other_name(s, POWER), number(s, true, 1 + (int)s.below(2))); break;
	case 5: r.e = entry(Node::oct(POWER), number(s, true, 3 + (int)s.below(6))); break;
	case 6: r.e = entry(Node::oct(POWER), number(s, false, 1 + (int)s.below(8))); break;
	case 7:
		r.e = entry(Node::oct(POWER), s.flip() ? Node::oct(s.bytes(1 + s.below(3))) : s.flip() ? Node::boolean(s.flip()) : Node::absent());
		break;
	default: r.e = entry(Node::oct(POWER), number(s, true, 1 + (int)s.below(2))); break;
	}
	if (s.chance(1, 4)) { // fields that do not matter
		Gen g;
		r.e.c[1] = gen(s, g, T_STATUS);
		r.e.c[2] = gen(s, g, T_TIME);
		r.e.c[3] = gen(s, g, T_U8);
		r.e.c[4] = gen(s, g, T_I8);
		r.e.c[6] = gen(s, g, T_OCT);
	}
	r.want = view(T_ENTRY, r.e);
	if (announces(r.e))
		announced = true;
	else if (announced && r.e.c[0].k == Node::OCT && r.e.c[0].b == POWER && r.e.c[5].k == Node::NUM && r.e.c[5].sgn && r.e.c[5].nbytes <= 2) {
		r.want.c[5].sgn = false;
		r.flips = true;
	}
	return r;
}
static Node list_response(const Node &list) {
	return Node::of(Node::absent(), Node::oct("srv"), Node::absent(), Node::absent(), list, Node::absent(), Node::absent());
}
static Node message(const Node &data, uint32_t tag = 0x701) {
	return Node::of(Node::oct("tid"), Node::num(false, 1, 0), Node::num(false, 1, 0), Node::of(Node::num(false, 4, tag), data));
}
static void t_dzg(Src &s) {
	size_t lists = 1 + s.below(3);
	Bytes b;
	std::string want;
	bool flips = false, keeps = false;
	std::vector<Node> plain;
	for (size_t i = 0; i < lists; i++) {
		bool announced = false; // for each list anew
		size_t n = 1 + s.below(s.chance(1, 10) ? 40 : 6);
		Node enc = Node::list(), rep = Node::list();
		for (size_t k = 0; k < n; k++) {
			Entry e = gen_entry(s, announced);
			enc.c.push_back(e.e);
			rep.c.push_back(e.want);
			flips |= e.flips && (e.want.c[5].v >> (8 * e.want.c[5].width - 1));
			keeps |= !e.flips && e.want.c[5].k == Node::NUM && e.want.c[5].sgn && e.want.c[5].sv() < 0;
		}
		Node m = message(list_response(enc)), r = message(list_response(rep));
		b += encode_message(m);
		want += dump(with_crc(r, crc_of_message(m, 0))) + "\n";
	}
	LeakScope L;
	sml_file *f = lparse_file(b);
	std::string got = ldump_file(f);
	CHECK(got == want, "%s | file %s", first_diff(want, got).c_str(), hex(b, 600).c_str());
	sml_file_free(f);
	L.check("value lists");
	if (flips)
		label("a reading with the sign bit became unsigned");
	if (keeps)
		label("a negative value kept its sign");
	if (flips && keeps)
		nontrivial(hash_str(b));
	if (flips)
		sample(strf("%s -> %s", hex(b, 400).c_str(), shortstr(got, 300).c_str()));
}
static int64_t power_after(const Node &first, const Node &power, bool *uns) {
	Bytes b = encode_message(message(list_response(Node::of(first, power))));
	sml_file *f = lparse_file(b);
	CHECK(f->messages_len == 1, "not parsed: %s", hex(b).c_str());
	sml_get_list_response *r = (sml_get_list_response *)f->messages[0]->message_body->data;
	CHECK(r->val_list && r->val_list->next && r->val_list->next->value, "entries lost: %s", hex(b).c_str());
	sml_value *v = r->val_list->next->value;
	*uns = (v->type & SML_TYPE_FIELD) == SML_TYPE_UNSIGNED;
	int64_t x = (int64_t)sml_value_to_double(v);
	sml_file_free(f);
	return x;
}
// serial numbers around all limits, with readings of one and two bytes
static void t_serial(Src &s) {
	uint64_t n = gen_serial(s);
	bool aff = affected(n);
	int nb = 1 + (int)s.below(2);
	uint64_t v = s.below(nb == 1 ? 256 : 65536);
	Node p = Node::num(true, nb, v);
	bool uns;
	int64_t got = power_after(entry(Node::oct(SERIAL), Node::oct(serial_text(n))), entry(Node::oct(POWER), p), &uns);
	int64_t want = aff ? (int64_t)v : p.sv();
	CHECK(got == want && uns == aff, "serial number %llu, reading %s: got %lld (%s), not %lld", (unsigned long long)n, dump(p).c_str(), (long long)got,
		  uns ? "unsigned" : "signed", (long long)want);
	nontrivial(n * 65536 + v);
	label(aff ? "affected" : "not affected");
}
// all readings of two bytes
static void t_all(Src &s) {
	uint64_t part = s.below(256);
	bool aff = s.flip();
	for (uint64_t v = part * 256; v < part * 256 + 256; v++) {
		Node p = Node::num(true, 2, v);
		bool uns;
		int64_t got = power_after(entry(Node::oct(SERIAL), Node::oct(serial_text(aff ? 42000000 + v : 60000000 + v))), entry(Node::oct(POWER), p), &uns);
		CHECK(got == (aff ? (int64_t)v : p.sv()) && uns == aff, "reading %s of %s meter: %lld", dump(p).c_str(), aff ? "an affected" : "another", (long long)got);
	}
	nontrivial(part * 2 + aff);
}

// ---------------------------------------------------------------- times

struct TimeCase {
	Bytes enc;
	bool ok = false;
	Node want; // if ok
	const char *what = "";
};
static void num_to(Bytes &o, bool sgn, const Bytes &be) {
	put_tl(o, sgn ? 0x50 : 0x60, be.size());
	o += be;
}
static uint32_t be32(const Bytes &b) {
	uint32_t v = 0;
	for (uint8_t c : b)
		v = v << 8 | c;
	return v;
}
static TimeCase gen_time(Src &s) {
	TimeCase t;
	Bytes v4 = s.bytes(4), v = s.bytes(1 + s.below(4));
	unsigned tag = s.chance(1, 4) ? (unsigned)s.below(256) : 1 + (unsigned)s.below(2);
	auto i16 = [&](Bytes &o) { num_to(o, true, s.bytes(1 + s.below(2))); };
	switch (s.below(12)) {
	case 0:
	case 1:
		t.what = "bare seconds index";
		num_to(t.enc, false, v4);
		t.ok = true;
		t.want = Node::of(Node::num(false, 1, 1), Node::num(false, 4, be32(v4)));
		break;
	case 2:
	case 3:
		t.what = "list of three";
		t.enc = "\x72\x62";
		t.enc += (char)tag;
		t.enc += "\x73";
		num_to(t.enc, false, v);
		i16(t.enc);
		i16(t.enc);
		t.ok = true;
		t.want = Node::of(Node::num(false, 1, tag), Node::absent());
		break;
	case 4:
	case 5:
		t.what = "regular";
		t.enc = "\x72\x62";
		t.enc += (char)tag;
		num_to(t.enc, false, v);
		t.ok = true;
		t.want = Node::of(Node::num(false, 1, tag), Node::num(false, 4, be32(v)));
		break;
	case 6: { // bare numbers of other types and widths
		t.what = "other bare number";
		bool sgn = s.flip();
		size_t n = 1 + s.below(8);
		if (!sgn && n == 4)
			n = 3;
		num_to(t.enc, sgn, s.bytes(n));
		break;
	}
	case 7: { // second element a list of another size
		t.what = "list of other than three";
		size_t n = s.below(8);
		if (n == 3)
			n = 4;
		t.enc = "\x72\x62";
		t.enc += (char)tag;
		put_tl(t.enc, 0x70, n);
		for (size_t i = 0; i < n; i++)
			i ? i16(t.enc) : num_to(t.enc, false, v);
		break;
	}
	case 8: { // another number of elements
		t.what = "other outer count";
		size_t n = s.below(8);
		if (n == 2)
			n = 3;
		put_tl(t.enc, 0x70, n);
		t.enc += "\x62\x01";
		num_to(t.enc, false, v);
		for (size_t i = 2; i < n; i++)
			i16(t.enc);
		break;
	}
	case 9: { // list of three with wrong types
		t.what = "three elements of the wrong types";
		t.enc = "\x72\x62\x01\x73";
		size_t bad = s.below(3);
		for (size_t i = 0; i < 3; i++)
			if (i == bad)
				switch (s.below(4)) {
				case 0: t.enc += "\x02z"; break;
				case 1: num_to(t.enc, i == 0, s.bytes(1 + s.below(2))); break;
				case 2: num_to(t.enc, i != 0, s.bytes((i ? 3 : 5) + s.below(3))); break;
				default: t.enc += "\x42\x01"; break;
				}
			else
				num_to(t.enc, i != 0, s.bytes(1 + s.below(2)));
		break;
	}
	case 10: { // timestamp of another type
		t.what = "timestamp of the wrong type";
		t.enc = "\x72\x62";
		t.enc += (char)tag;
		switch (s.below(5)) {
		case 0: t.enc += "\x42\x01"; break;
		case 1: t.enc += "\x03zz"; break;
		case 2: num_to(t.enc, true, v); break;
		case 3: num_to(t.enc, false, s.bytes(5 + s.below(4))); break;
		default: t.enc += "\x01"; break;
		}
		break;
	}
	default: // something else altogether
		t.what = "no time at all";
		switch (s.below(3)) {
		case 0: t.enc = "\x42\x01"; break;
		case 1: {
			Bytes x = s.bytes(1 + s.below(6));
			put_tl(t.enc, 0, x.size());
			t.enc += x;
			break;
		}
		default: t.enc = "\x72\x63\x01\x00\x65"; t.enc.replace(3, 1, Bytes(1, '\0')); t.enc += v4; break; // tag of two bytes
		}
	}
	return t;
}
static void t_time(Src &s) {
	TimeCase t = gen_time(s);
	label(t.what);
	Bytes b = t.enc + s.bytes(s.below(8));
	LeakScope L;
	sml_buffer *buf = pbuf(b);
	sml_time *x = sml_time_parse(buf);
	if (t.ok) {
		CHECK(x && !sml_buf_has_errors(buf), "%s: rejected: %s", t.what, hex(b).c_str());
		CHECK(buf->cursor == t.enc.size(), "%s: position %zu behind %s", t.what, (size_t)buf->cursor, hex(t.enc).c_str());
		std::string got = ldump_element(T_TIME, x), want = dump(t.want);
		CHECK(got == want, "%s: %s reads as %s instead of %s", t.what, hex(t.enc).c_str(), got.c_str(), want.c_str());
		sml_buffer *o = sml_buffer_init(8);
		sml_time_write(x, o);
		Bytes w = bufbytes(o), ww = t.want.c[1].k == Node::ABSENT ? Bytes("\x01") : encode(t.want);
		CHECK(w == ww, "%s: %s is written as %s instead of %s", t.what, hex(t.enc).c_str(), hex(w).c_str(), hex(ww).c_str());
		sml_buffer_free(o);
	} else
		CHECK(sml_buf_has_errors(buf) && !x, "%s: accepted: %s", t.what, hex(b).c_str());
	if (x)
		sml_time_free(x);
	sml_buffer_free(buf);
	L.check("time");
	nontrivial(hash_str(t.enc));
}
static Node mark(size_t i) { return Node::oct(Bytes("#time-mark#") + (char)('0' + i)); }
// times at every place where the messages have one
static void t_places(Src &s) {
	TimeCase t[4];
	std::vector<Bytes> enc;
	bool bad = false;
	Node want[4];
	for (int i = 0; i < 4; i++) {
		do
			t[i] = gen_time(s);
		while (!t[i].ok && i > 0 && s.flip());
		want[i] = t[i].want;
	}
	Node data, rep, wr;
	uint32_t tag;
	size_t n = 0;
	auto mk = [&](const Node *w) { // builds the data with markers (null) or nodes
		n = 0;
		auto T = [&]() {
			size_t i = n++;
			return w ? w[i] : mark(i);
		};
		Node e1 = entry(Node::oct("abcdef"), Node::num(true, 2, 0x8025)), e2 = entry(Node::oct(POWER), Node::num(true, 1, 0x80));
		switch (tag) {
		case 0x101: return Node::of(Node::absent(), Node::absent(), Node::oct("r"), Node::oct("s"), T(), Node::num(false, 1, 1));
		case 0x701: {
			Node sens = T();
			e1.c[2] = T();
			e2.c[2] = T();
			Node gw = T();
			return Node::of(Node::absent(), Node::oct("srv"), Node::absent(), sens, Node::of(e1, e2), Node::absent(), gw);
		}
		default: {
			Node ppv = Node::of(Node::num(false, 1, 4), T());
			return Node::of(Node::oct("s"), Node::of(Node::oct("p1")), Node::of(Node::oct("n"), ppv, Node::absent()));
		}
		}
	};
	static const uint32_t tags[] = {0x701, 0x101, 0x501};
	tag = s.pick(tags);
	data = mk(nullptr);
	size_t used = n;
	for (size_t i = 0; i < used; i++) {
		enc.push_back(t[i].enc);
		bad |= !t[i].ok;
		label(t[i].what);
	}
	Node m = message(data, tag);
	Bytes b;
	{ // the message without its checksum
		uint16_t c;
		Bytes o;
		o = "\x76";
		for (auto &x : m.c)
			encode_to(o, x);
		for (size_t i = 0; i < used; i++) {
			Bytes mk2;
			encode_to(mk2, mark(i));
			o.replace(o.find(mk2), mk2.size(), enc[i]);
		}
		c = ref_crc_x25_swapped(o);
		b = o + Bytes("\x63") + (char)(c >> 8) + (char)c + Bytes(1, '\0');
		if (!bad) {
			rep = message(mk(want), tag);
			rep = with_crc(rep, c);
		}
	}
	Node good = message(Node::of(Node::oct("sig")), 0x200);
	Bytes g = encode_message(good);
	std::string gd = dump(with_crc(good, crc_of_message(good, 0))) + "\n";
	LeakScope L;
	sml_file *f = lparse_file(g + b + g);
	std::string got = ldump_file(f);
	std::string exp = bad ? gd : gd + dump(rep) + "\n" + gd;
	CHECK(got == exp, "%s | file %s", first_diff(exp, got).c_str(), hex(b, 600).c_str());
	if (!bad) { // written back
		Bytes w;
		size_t from = f->buf->cursor;
		sml_file_write(f);
		w = bufbytes(f->buf, from);
		for (size_t i = 0; i < 4; i++)
			if (want[i].c.size() > 1 && want[i].c[1].k == Node::ABSENT)
				want[i] = Node::absent();
		Bytes ww = g + encode_message(message(mk(want), tag)) + g;
		CHECK(w == ww, "written back: %s", first_diff(hex(ww, (size_t)-1), hex(w, (size_t)-1)).c_str());
	}
	sml_file_free(f);
	L.check("times in messages");
	label(bad ? "a message with an impossible time" : "a message with accepted times");
	nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C14",
			{{"dzg", t_dzg, 300000, 4000000, "value lists with and without serial number and readings in any order; non-trivial = one reading is corrected and one negative value is not", nullptr, true},
			 {"serial", t_serial, 400000, 6000000, "serial numbers around the limits; every case is non-trivial", nullptr, false},
			 {"all", t_all, 2048, 8192, "all two byte readings; every case is non-trivial", nullptr, false},
			 {"time", t_time, 500000, 8000000, "every form of a time; every case is non-trivial", nullptr, true},
			 {"places", t_places, 200000, 3000000, "times at the places where messages have them; every case is non-trivial", nullptr, false}}};
}
