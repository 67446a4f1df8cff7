// C10: value conversion to double and to printable text is exact
#include "bridge.h"
#include <cmath>
#include <fenv.h>

// the nearest double, ties to even, by integer arithmetic
static double nearest(unsigned __int128 mag, bool neg) {
	if (!mag)
		return 0;
	int top = 127;
	while (!(mag >> top & 1))
		top--;
	double r;
	if (top <= 52)
		r = (double)(uint64_t)mag;
	else {
		int sh = top - 52;
		uint64_t q = (uint64_t)(mag >> sh);
		unsigned __int128 rest = mag - ((unsigned __int128)q << sh), half = (unsigned __int128)1 << (sh - 1);
		if (rest > half || (rest == half && (q & 1)))
			q++;
		r = ldexp((double)q, sh);
	}
	return neg ? -r : r;
}
static sml_value *value_of(Src &s, bool sgn, int w, uint64_t v) {
	sml_value *x;
	if (s.flip()) { // built
		x = sml_value_init();
		x->type = (u8)((sgn ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED) | w);
		x->data.uint8 = (u8 *)lbuild_element(sgn ? w == 1 ? T_I8 : w == 2 ? T_I16 : w == 4 ? T_I32 : T_I64
												: w == 1 ? T_U8 : w == 2 ? T_U16 : w == 4 ? T_U32 : T_U64,
											 Node::num(sgn, w, v));
	} else { // parsed
		sml_buffer *b = pbuf(encode(Node::num(sgn, w, v)));
		x = sml_value_parse(b);
		CHECK(x && x->type == ((sgn ? 0x50 : 0x60) | w), "harness: value not parsed");
		sml_buffer_free(b);
	}
	return x;
}
static void t_double(Src &s) {
	static const int W[] = {1, 2, 4, 8};
	bool sgn = s.flip();
	int w = s.pick(W);
	uint64_t v = s.interesting(w);
	if (w == 8 && s.chance(1, 3)) { // halfway cases
		int sh = 1 + (int)s.below(10);
		uint64_t q = (1ull << 52 | (s.u64() & ((1ull << 52) - 1)));
		v = (q << sh) + (1ull << (sh - 1)) + s.below(3) - 1;
		if (sgn)
			v = (v & 0x7fffffffffffffffull) * (s.flip() ? 1 : -1ull);
		label("near a halfway case");
	}
	Node n = Node::num(sgn, w, v);
	bool neg = sgn && n.sv() < 0;
	unsigned __int128 mag = neg ? (unsigned __int128)(-(__int128)n.sv()) : sgn ? (unsigned __int128)n.sv() : n.v;
	double want = nearest(mag, neg);
	LeakScope L;
	sml_value *x = value_of(s, sgn, w, v);
	double got = sml_value_to_double(x);
	CHECK(got == want, "%s converts to %.17g instead of %.17g", dump(n).c_str(), got, want);
	CHECK(sml_value_to_double(x) == want, "converting twice gives another result");
	sml_value_free(x);
	L.check("conversion to double");
	nontrivial(n.v ^ (uint64_t)(w * 2 + sgn) << 56);
	label(dump(Node::num(sgn, w, 0)).substr(0, 2).c_str());
	sample(strf("%s -> %.17g", dump(n).c_str(), got));
}
static void t_all16(Src &s) {
	bool sgn = s.flip();
	uint32_t part = (uint32_t)s.below(32) * 2048;
	LeakScope L;
	for (uint32_t v = part; v < part + 2048; v++) {
		sml_value *x = value_of(s, sgn, 2, v);
		double got = sml_value_to_double(x), want = sgn ? (int16_t)v : (uint16_t)v;
		CHECK(got == want, "%s converts to %g", sgn ? "i16" : "u16", got);
		sml_value_free(x);
		if (v < 256 || v % 256 == 0) {
			x = value_of(s, sgn, 1, v / (v < 256 ? 1 : 256));
			uint8_t b = (uint8_t)(v / (v < 256 ? 1 : 256));
			want = sgn ? (double)(int8_t)b : (double)b;
			CHECK(sml_value_to_double(x) == want, "%s 8 bit", sgn ? "signed" : "unsigned");
			sml_value_free(x);
		}
	}
	L.check("conversion");
	nontrivial(part * 2 + sgn);
}
static void t_other(Src &s) {
	LeakScope L;
	Node n;
	if (s.flip())
		n = Node::boolean(s.flip());
	else
		n = Node::oct(s.bytes(1 + s.below(30)));
	sml_value *x = (sml_value *)lbuild_element(T_VALUE, n);
	double d = sml_value_to_double(x);
	CHECK(d == 0, "the non-numeric value %s converts to %g", dump(n).c_str(), d);
	sml_value_free(x);
	L.check("conversion");
	nontrivial(hash_str(dump(n)));
}
static void t_text(Src &s) {
	Bytes b;
	size_t n = s.chance(1, 2000) ? s.below(200000) : s.chance(1, 20) ? s.below(3000) : s.below(24);
	switch (s.below(4)) {
	case 0: b = s.bytes(n); break;
	case 1: // mostly printable
		for (size_t i = 0; i < n; i++)
			b += (char)(s.chance(1, 12) ? s.below(256) : 0x21 + s.below(0x5a));
		break;
	case 2: { // boundary characters
		static const uint8_t c[] = {0x1f, 0x20, 0x21, 0x22, 0x79, 0x7a, 0x7b, 0x7c, 0x7e, 0x7f, 0x80, 0xff, 0x00, 'A', '0'};
		for (size_t i = 0; i < n; i++)
			b += (char)s.pick(c);
		break;
	}
	default: { // printable run, then anything
		size_t k = s.below(n + 1);
		for (size_t i = 0; i < k; i++)
			b += (char)(0x21 + s.below(0x5a));
		b += s.bytes(n - k);
	}
	}
	LeakScope L;
	sml_value *x = sml_value_init();
	x->type = SML_TYPE_OCTET_STRING;
	x->data.bytes = sml_octet_string_init((unsigned char *)b.data(), (int)b.size());
	for (int mixed = 0; mixed < 2; mixed++) {
		std::string want;
		size_t i = 0;
		if (mixed)
			while (i < b.size() && (uint8_t)b[i] >= 0x21 && (uint8_t)b[i] <= 0x7a)
				want += b[i++];
		for (; i < b.size(); i++)
			want += strf("%02x ", (uint8_t)b[i]);
		char *r = nullptr, *p = sml_value_to_strhex(x, &r, mixed);
		if (b.empty())
			CHECK(!p && !r, "an empty string yields text");
		else {
			CHECK(p && p == r, "no text for %s", hex(b, 100).c_str());
			CHECK(want == p, "%s mode: %s is rendered as '%s' instead of '%s'", mixed ? "mixed" : "plain", hex(b, 100).c_str(), p, want.c_str());
			free(p);
		}
		if (mixed && i < b.size())
			label("has a rest in hex");
	}
	CHECK(x->data.bytes->len == (int)b.size() && (b.empty() || !memcmp(x->data.bytes->str, b.data(), b.size())), "the value was changed");
	sml_value_free(x);
	// absent
	char *r = nullptr;
	CHECK(!sml_value_to_strhex(nullptr, &r, true) && !r, "no value yields text");
	x = sml_value_init();
	CHECK(!sml_value_to_strhex(x, &r, false) && !r, "an absent string yields text");
	sml_value_free(x);
	L.check("text");
	if (b.size() > 1)
		nontrivial(hash_str(b));
	sample(hex(b, 60));
}
static void t_bytes(Src &s) { // every byte value alone and behind a printable one
	LeakScope L;
	int mixed = (int)s.below(2);
	unsigned char lead = (unsigned char)(0x21 + s.below(0x5a));
	for (int c = 0; c < 256; c++)
		for (int two = 0; two < 2; two++) {
			unsigned char v[2] = {lead, (unsigned char)c};
			sml_value *x = sml_value_init();
			x->data.bytes = sml_octet_string_init(two ? v : v + 1, 1 + two);
			char *r = nullptr;
			sml_value_to_strhex(x, &r, mixed);
			std::string want;
			if (two)
				want = mixed ? std::string(1, (char)lead) : strf("%02x ", lead);
			want += mixed && c >= 0x21 && c <= 0x7a ? std::string(1, (char)c) : strf("%02x ", c);
			CHECK(r && want == r, "byte %02x is rendered as '%s'", c, r ? r : "(nothing)");
			free(r);
			sml_value_free(x);
		}
	L.check("text");
	nontrivial((uint64_t)mixed * 256 + lead);
}
// strings whose text is longer than 32 bit numbers can tell; there is no memory for the text
static void t_huge(Src &s) {
	static const size_t at[] = {715827882, 1431655765, 2147483647};
	size_t n = s.pick(at);
	n = s.flip() ? n - s.below(100) : std::min<size_t>(0x7fffffff, n + s.below(100));
	if (s.chance(1, 4))
		n = 700000000 + s.below(1447483648);
	bool mixed = s.flip();
	Repeated r(s.bytes(1 << 20), n);
	LeakScope L;
	octet_string o;
	o.str = r.p;
	o.len = (int)n;
	sml_value x;
	x.type = SML_TYPE_OCTET_STRING;
	x.data.bytes = &o;
	alloc_set_refuse(1u << 30);
	char *t = nullptr, *p = sml_value_to_strhex(&x, &t, mixed);
	alloc_set_refuse((size_t)-1);
	CHECK(!p && !t, "text for a string of %zu bytes in less than 1 GB of memory", n);
	L.check("text");
	nontrivial(n);
}
Prop the_prop() {
	return {"C10",
			{{"double", t_double, 1500000, 30000000, "integers of all types against exact rounding; every case is non-trivial", nullptr, true},
			 {"all16", t_all16, 1000, 10000, "2048 consecutive 16 bit values and 8 bit values; every case is non-trivial", nullptr, false},
			 {"other", t_other, 50000, 1000000, "strings and booleans; every case is non-trivial", nullptr, false},
			 {"text", t_text, 800000, 16000000, "strings in both modes; non-trivial = more than one byte", nullptr, true},
			 {"bytes", t_bytes, 4000, 40000, "all byte values alone and behind a printable character; distinct by mode and character", nullptr, false},
			 {"huge", t_huge, 64, 640, "strings of 0.7 to 2.1 GB, whose text does not fit into memory; every case is non-trivial", nullptr, false}}};
}
