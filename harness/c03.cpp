// C03: a message is delivered if and only if its checksum matches
#include "bridge.h"
#include <algorithm>
#include "mutate.h"

static std::string parse_dump(const Bytes &b) {
	LeakScope L;
	sml_file *f = lparse_file(b);
	std::string got = ldump_file(f);
	sml_file_free(f);
	L.check("file with dropped messages");
	return got;
}
// what should be reported of one message standing alone: +1 delivered, 0 dropped, -1 structure broken
static int judge(const Bytes &b, std::string *d) {
	Dec dec(b);
	Node m;
	if (dec.message(m)) {
		if (dec.cur != b.size())
			return -1;
		*d = dump(m) + "\n";
		return 1;
	}
	if (dec.err)
		return -1;
	// the rest must be the end marker alone, otherwise something follows the checksum
	return dec.cur + 1 == b.size() && b[dec.cur] == 0 ? 0 : -1;
}
static void t_subset(Src &s) {
	Gen g;
	g.wire = s.flip();
	g.budget = 60;
	size_t n = 1 + s.below(6);
	Bytes file;
	std::string want;
	int dropped = 0;
	for (size_t i = 0; i < n; i++) {
		Node m = gen_message(s, g);
		Bytes b;
		MsgOpt o;
		size_t crc_at = 0;
		std::string d;
		switch (s.below(6)) {
		case 0:
		case 1: b = encode_message(m, o); break;
		case 2: o.crc = 1; b = encode_message(m, o); label("Kermit checksum"); break;
		case 3: { // wrong checksum
			o.crc = (int)s.below(2);
			static const uint16_t x[] = {1, 0x8000, 0x0100, 0x0080, 0xffff, 0xff00, 0x00ff};
			o.xor_crc = s.flip() ? s.pick(x) : (uint16_t)s.range(1, 65535);
			b = encode_message(m, o);
			label("wrong checksum");
			break;
		}
		case 4: { // exchanged bytes
			b = encode_message(m, o, &crc_at);
			std::swap(b[crc_at + 1], b[crc_at + 2]);
			label("exchanged checksum bytes");
			break;
		}
		default: { // damaged content
			o.crc = s.chance(1, 4);
			b = encode_message(m, o, &crc_at);
			Bytes keep = b;
			int k;
			for (k = 0; k < 6; k++) {
				b = keep;
				for (size_t j = s.below(3) + 1; j > 0; j--)
					b[s.below(crc_at)] ^= (char)(1 << s.below(8));
				if (judge(b, &d) >= 0)
					break;
			}
			if (k == 6)
				b = keep;
			else
				label("damaged content");
		}
		}
		int j = judge(b, &d);
		CHECK(j >= 0, "harness: unexpected structure %s", hex(b).c_str());
		if (j)
			want += d;
		else
			dropped++;
		file += b;
		file.append(s.chance(1, 4) ? s.below(4) : 0, '\0');
	}
	std::string got = parse_dump(file);
	CHECK(got == want, "wrong set of messages %s | file %s", first_diff(want, got).c_str(), hex(file, 800).c_str());
	if (dropped)
		nontrivial(hash_str(file));
	label(dropped == 0 ? "none dropped" : dropped == (int)n ? "all dropped" : "some dropped");
	if (dropped)
		sample(strf("%s -> %s", hex(file, 400).c_str(), shortstr(want, 300).c_str()));
}
// messages made to have a given checksum
static void t_target(Src &s) {
	Gen g;
	g.budget = 30;
	Node m = gen_message(s, g);
	m.c[0] = Node::oct(Bytes(2, 0));
	int kermit = (int)s.below(2);
	static const uint16_t t[] = {0x0000, 0xffff, 0x0001, 0x0100, 0x00ff, 0xff00, 0x007f, 0x0080, 0x8000, 0x7fff, 0x6300, 0x0063};
	uint16_t want = s.flip() ? s.pick(t) : (uint16_t)s.below(65536);
	bool found = false;
	// two consecutive free bytes reach every checksum; search the linear function directly
	uint16_t base = crc_of_message(m, kermit), col[16];
	for (int i = 0; i < 16; i++) {
		m.c[0].b[0] = (char)(i < 8 ? 1 << i : 0);
		m.c[0].b[1] = (char)(i < 8 ? 0 : 1 << (i - 8));
		col[i] = crc_of_message(m, kermit) ^ base;
	}
	for (uint32_t x = 0; x < 65536 && !found; x++) {
		uint16_t c = base;
		for (int i = 0; i < 16; i++)
			if (x >> i & 1)
				c ^= col[i];
		if (c == want) {
			m.c[0].b[0] = (char)x;
			m.c[0].b[1] = (char)(x >> 8);
			found = true;
		}
	}
	CHECK(found && crc_of_message(m, kermit) == want, "harness: checksum %04x not reached", want);
	MsgOpt o;
	o.crc = kermit;
	Bytes b = encode_message(m, o);
	std::string exp = dump(with_crc(view_message(m), want)) + "\n";
	CHECK(parse_dump(b) == exp, "message with checksum %04x (%s) not delivered: %s", want, kermit ? "Kermit" : "SML", hex(b).c_str());
	if (want < 256) { // the checksum in its shortened form
		Bytes c = b.substr(0, b.size() - 4) + '\x62' + (char)want;
		c += '\0';
		CHECK(parse_dump(c) == exp, "message with shortened checksum %02x not delivered: %s", want, hex(c).c_str());
		label("shortened checksum");
	}
	// one bit wrong
	for (int i = 0; i < 16; i++) {
		o.xor_crc = (uint16_t)(1 << i);
		Bytes c = encode_message(m, o);
		std::string d;
		std::string e = judge(c, &d) == 1 ? d : "";
		CHECK(parse_dump(c) == e, "checksum %04x instead of %04x: expected %s", want ^ (1 << i), want, e.empty() ? "nothing" : "delivery");
	}
	nontrivial(hash_str(b));
}
// sml_message_parse itself: dropping is no error
static void t_single(Src &s) {
	Gen g;
	g.wire = s.flip();
	g.budget = 40;
	Node m = gen_message(s, g);
	MsgOpt o;
	o.crc = (int)s.below(2);
	if (s.flip())
		o.xor_crc = (uint16_t)s.range(1, 65535);
	Bytes msg = encode_message(m, o);
	std::string d;
	int j = judge(msg, &d);
	Bytes pre = s.bytes(s.below(6)), post = s.bytes(s.below(6));
	LeakScope L;
	sml_buffer *buf = pbuf(pre + msg + post, pre.size());
	sml_message *x = sml_message_parse(buf);
	CHECK(!sml_buf_has_errors(buf), "a checksum %s raised the error state: %s", j ? "match" : "mismatch", hex(msg).c_str());
	CHECK((x != nullptr) == (j == 1), "message %s although its checksum %s: %s", x ? "returned" : "not returned", j ? "matches" : "differs",
		  hex(msg).c_str());
	if (x) {
		std::string got = ldump_message(x) + "\n";
		CHECK(got == d, "content differs %s", first_diff(d, got).c_str());
		CHECK(buf->cursor == pre.size() + msg.size(), "position %zu instead of %zu", (size_t)buf->cursor, pre.size() + msg.size());
	}
	sml_message_free(x);
	sml_buffer_free(buf);
	L.check("message parse");
	nontrivial(hash_str(msg));
}
// every wrong checksum of one message
static void t_all(Src &s) {
	Gen g;
	g.budget = 4;
	Node m = gen_message_of(s, g, 2 + (int)s.below(2));
	size_t crc_at;
	Bytes b = encode_message(m, MsgOpt(), &crc_at);
	uint16_t c1 = crc_of_message(m, 0), c2 = crc_of_message(m, 1);
	uint32_t part = (uint32_t)s.below(16) * 4096;
	for (uint32_t x = part; x < part + 4096; x++) {
		b[crc_at + 1] = (char)(x >> 8);
		b[crc_at + 2] = (char)x;
		sml_file *f = lparse_file(b);
		int want = x == c1 || x == c2;
		CHECK(f->messages_len == want, "checksum %04x (correct are %04x and %04x): %d messages delivered", x, c1, c2, f->messages_len);
		sml_file_free(f);
	}
	nontrivial(hash_str(b) ^ part);
}
// long messages, of up to some tens of megabytes
static void t_long(Src &s) {
	static const size_t at[] = {4096, 65536, 1 << 20, 16 << 20};
	size_t n = s.chance(1, 3) ? s.below(20 << 20) : s.pick(at) - 40 + s.below(80);
	Node m = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
						 Node::list({Node::num(false, 4, 0x201), Node::list({Node::oct(s.bytes(16))})})});
	Bytes &x = m.c[3].c[1].c[0].b;
	while (x.size() < n)
		x += x;
	x.resize(n);
	for (size_t k = s.below(4); k > 0 && n; k--)
		x[s.below(n)] ^= (char)(1 + s.below(255));
	MsgOpt o;
	o.crc = (int)s.below(2);
	size_t crc_at;
	Bytes b = encode_message(m, o, &crc_at);
	bool whole = s.flip(), content = s.flip();
	if (!whole) {
		// one bit anywhere in the content, the last and the first bytes among them, or in the checksum
		size_t pos = content ? crc_at - 1 - (s.flip() ? s.below(n) : s.below(std::min<size_t>(n, 300) + 1)) : crc_at + 1 + s.below(2);
		b[pos] ^= (char)(1 << s.below(8));
	}
	std::string d;
	int j = judge(b, &d);
	if (j < 0)
		return;
	CHECK(j == whole, "harness: a bit changed and the checksum still matches");
	Gen g;
	Node e = gen_message_of(s, g, 3);
	std::string after = expect_file({e}, {0}), want = (j ? d : "") + after;
	std::string got = parse_dump(b + encode_message(e));
	CHECK(got == want, "a message with %zu bytes of content, %s: %s", n, j ? "undamaged" : "damaged", first_diff(want, got).c_str());
	nontrivial(mix64(n) ^ hash_str(b.substr(crc_at)));
	label(n < 65536 ? "less than 64 kB" : n < 16 << 20 ? "less than 16 MB" : "16 MB and more");
}
// hundreds to tens of thousands of messages, in runs of good and of damaged ones
static void t_many(Src &s) {
	struct M {
		Bytes b;
		std::string d;
	};
	std::vector<M> good, bad;
	Gen g;
	g.budget = 10;
	while (good.size() < 3 || bad.size() < 3) {
		Node m = gen_message_of(s, g, s.flip() ? 3 : (int)s.below(14));
		MsgOpt o;
		o.crc = (int)s.below(2);
		bool damage = bad.size() < good.size();
		if (damage)
			o.xor_crc = (uint16_t)s.range(1, 65535);
		M x;
		x.b = encode_message(m, o);
		int j = judge(x.b, &x.d);
		if (j == !damage)
			(damage ? bad : good).push_back(x);
	}
	size_t n = s.chance(1, 6) ? 30000 + s.below(60000) : 50 + s.below(s.flip() ? 1000 : 6000), dropped = 0, run = 0;
	Bytes file;
	std::string want;
	bool damaged = false;
	static const size_t RUN[] = {1, 3, 300, 70000};
	for (size_t i = 0; i < n; i++) {
		if (!run) {
			damaged = s.flip();
			run = 1 + s.below(s.pick(RUN));
		}
		run--;
		const std::vector<M> &from = damaged ? bad : good;
		const M &x = from[s.below(from.size())];
		file += x.b;
		if (damaged)
			dropped++;
		else
			want += x.d;
	}
	std::string got = parse_dump(file);
	CHECK(got == want, "wrong set of messages out of %zu with %zu damaged: %s", n, dropped, first_diff(want, got).c_str());
	nontrivial(hash_str(want) ^ n);
	label(dropped > 1000 ? "more than 1000 dropped" : dropped > 100 ? "more than 100 dropped" : "up to 100 dropped");
}
Prop the_prop() {
	return {"C03",
			{{"subset", t_subset, 120000, 2400000, "files in which a random set of messages is damaged; non-trivial = at least one message dropped", nullptr, true},
			 {"target", t_target, 4000, 80000, "messages constructed to have a given checksum, and all one-bit deviations; every case is non-trivial", nullptr, false},
			 {"single", t_single, 120000, 2000000, "one message amid other bytes through sml_message_parse; every case is non-trivial", nullptr, false},
			 {"long", t_long, 60, 1200, "a message of 4 kB to 20 MB, undamaged or with one bit changed; every judged case is non-trivial", nullptr, false},
			 {"many", t_many, 200, 4000, "files of 50 to 90000 messages, with runs of damaged ones; every case is non-trivial", nullptr, false},
			 {"all", t_all, 400, 4000, "4096 checksum values for one message; every case is non-trivial", nullptr, false}}};
}
