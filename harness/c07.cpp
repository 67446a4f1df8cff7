// C07: numbers decode and encode with exact value, width and sign
#include "bridge.h"

static uint64_t mask(int w) { return w >= 8 ? ~0ull : (1ull << (8 * w)) - 1; }
static uint64_t extend(const Bytes &v, bool sgn) {
	uint64_t r = sgn && !v.empty() && ((uint8_t)v[0] & 0x80) ? ~0ull : 0;
	for (uint8_t x : v)
		r = r << 8 | x;
	return r;
}
static uint64_t load(const void *p, int w) {
	uint64_t v = 0;
	memcpy(&v, p, (size_t)w); // little endian host
	return v;
}
// the typed parser for an expected width
static void *typed(bool sgn, int w, sml_buffer *b) {
	switch (w | (sgn ? 16 : 0)) {
	case 1: return sml_u8_parse(b);
	case 2: return sml_u16_parse(b);
	case 4: return sml_u32_parse(b);
	case 8: return sml_u64_parse(b);
	case 17: return sml_i8_parse(b);
	case 18: return sml_i16_parse(b);
	case 20: return sml_i32_parse(b);
	case 24: return sml_i64_parse(b);
	default: return sml_number_parse(b, sgn ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED, w);
	}
}
static void decode_one(bool sgn, int w, unsigned type, unsigned pad, const Bytes &val, const Bytes &follow) {
	Bytes b;
	put_tl(b, type, val.size(), pad);
	b += val;
	size_t end = b.size();
	b += follow;
	sml_buffer *buf = pbuf(b);
	void *p = typed(sgn, w, buf);
	bool ok = type == (sgn ? 0x50u : 0x60u) && !val.empty() && (int)val.size() <= w;
	if (!ok) {
		CHECK(sml_buf_has_errors(buf) && !p, "expected %s%d, encoding %s: accepted", sgn ? "i" : "u", 8 * w, hex(b).c_str());
	} else {
		CHECK(p && !sml_buf_has_errors(buf), "expected %s%d, encoding %s: rejected", sgn ? "i" : "u", 8 * w, hex(b).c_str());
		uint64_t want = extend(val, sgn) & mask(w), got = load(p, w);
		CHECK(got == want, "expected %s%d, encoding %s: got %llx, not %llx", sgn ? "i" : "u", 8 * w, hex(b).c_str(),
			  (unsigned long long)got, (unsigned long long)want);
		CHECK(buf->cursor == end, "expected %s%d, encoding %s: position %zu", sgn ? "i" : "u", 8 * w, hex(b).c_str(), (size_t)buf->cursor);
	}
	if (p)
		sml_number_free(p);
	sml_buffer_free(buf);
}
static const int W4[] = {1, 2, 4, 8};
static Bytes be(uint64_t v, int n) {
	Bytes b;
	for (int i = n - 1; i >= 0; i--)
		b += (char)(i >= 8 ? 0 : v >> (8 * i));
	return b;
}
static void t_decode(Src &s) {
	bool sgn = s.flip();
	int w = s.chance(1, 6) ? (int)s.range(1, 8) : s.pick(W4);
	unsigned type = sgn ? 0x50 : 0x60;
	if (s.chance(1, 10))
		type = (unsigned)s.below(8) << 4;
	int n = (int)s.range(0, s.chance(1, 3) ? 12 : w);
	Bytes v = n <= 8 && n ? be(s.interesting(n), n) : s.bytes((size_t)n);
	unsigned pad = s.chance(1, 4) ? (unsigned)s.below(6) : 0;
	if (n == 0 && pad == 0 && type == 0x00)
		pad = 1; // otherwise the skipped marker
	LeakScope L;
	decode_one(sgn, w, type, pad, v, s.bytes(s.below(10)));
	L.check("number");
	if (type == (sgn ? 0x50u : 0x60u) && n && n <= w)
		nontrivial(hash_str(v) ^ (uint64_t)(w * 2 + sgn) ^ pad << 20);
	label(type != (sgn ? 0x50u : 0x60u) ? "other type" : n == 0 ? "empty" : n > w ? "too wide" : n < w ? "shortened" : "full width");
	sample(strf("%s%d from %s", sgn ? "i" : "u", 8 * w, hex(v).c_str()));
}
// all one and two byte encodings for every expected type
static void t_small(Src &s) {
	bool sgn = s.flip();
	int w = s.pick(W4);
	LeakScope L;
	for (int x = 0; x < 256; x++)
		decode_one(sgn, w, sgn ? 0x50 : 0x60, 0, be((uint64_t)x, 1), "");
	uint32_t part = (uint32_t)s.below(64) * 1024;
	for (uint32_t x = part; x < part + 1024; x++)
		decode_one(sgn, w, sgn ? 0x50 : 0x60, 0, be(x, 2), "\x01");
	L.check("numbers");
	nontrivial(part * 100 + (uint64_t)w * 2 + sgn);
}
static void t_truncated(Src &s) {
	bool sgn = s.flip();
	int w = s.pick(W4), n = (int)s.range(1, w);
	Bytes b;
	put_tl(b, sgn ? 0x50 : 0x60, (uint64_t)n, (unsigned)s.below(3));
	b += be(s.u64(), n);
	LeakScope L;
	for (size_t cut = 0; cut < b.size(); cut++) {
		sml_buffer *buf = pbuf(b.substr(0, cut));
		void *p = typed(sgn, w, buf);
		CHECK(!p && sml_buf_has_errors(buf), "%s cut to %zu bytes was accepted", hex(b).c_str(), cut);
		sml_buffer_free(buf);
	}
	L.check("truncated number");
	nontrivial(hash_str(b) ^ (uint64_t)w);
}
static void *init_num(bool sgn, int w, uint64_t v) {
	switch (w | (sgn ? 16 : 0)) {
	case 1: return sml_u8_init((u8)v);
	case 2: return sml_u16_init((u16)v);
	case 4: return sml_u32_init((u32)v);
	case 8: return sml_u64_init(v);
	case 17: return sml_i8_init((i8)v);
	case 18: return sml_i16_init((i16)v);
	case 20: return sml_i32_init((i32)v);
	default: return sml_i64_init((i64)v);
	}
}
static void t_encode(Src &s) {
	bool sgn = s.flip();
	int w = s.pick(W4);
	uint64_t v = s.interesting(w);
	LeakScope L;
	void *p = init_num(sgn, w, v);
	CHECK(p && load(p, w) == (v & mask(w)), "creating %s%d %llx stores something else", sgn ? "i" : "u", 8 * w, (unsigned long long)v);
	Bytes want;
	put_tl(want, sgn ? 0x50 : 0x60, (uint64_t)w);
	want += be(v, w);
	auto out = [&](auto fn, const char *what, const Bytes &exp) {
		sml_buffer *b = sml_buffer_init(s.below(20));
		memset(b->buffer, 0xee, b->buffer_len);
		fn(b);
		Bytes got = bufbytes(b);
		CHECK(got == exp, "%s of %s%d %llx: %s instead of %s", what, sgn ? "i" : "u", 8 * w, (unsigned long long)v, hex(got).c_str(), hex(exp).c_str());
		sml_buffer_free(b);
	};
	out([&](sml_buffer *b) {
		switch (w | (sgn ? 16 : 0)) {
		case 1: sml_u8_write((u8 *)p, b); break;
		case 2: sml_u16_write((u16 *)p, b); break;
		case 4: sml_u32_write((u32 *)p, b); break;
		case 8: sml_u64_write((u64 *)p, b); break;
		case 17: sml_i8_write((i8 *)p, b); break;
		case 18: sml_i16_write((i16 *)p, b); break;
		case 20: sml_i32_write((i32 *)p, b); break;
		default: sml_i64_write((i64 *)p, b); break;
		}
	}, "write", want);
	CHECK(load(p, w) == (v & mask(w)), "writing changed the number");
	sml_value *val = sml_value_init();
	val->type = (u8)((sgn ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED) | w);
	val->data.uint8 = (u8 *)p;
	out([&](sml_buffer *b) { sml_value_write(val, b); }, "value write", want);
	sml_value_free(val);
	if (!sgn) {
		sml_status *st = sml_status_init();
		st->type = (u8)(SML_TYPE_UNSIGNED | w);
		st->data.status8 = (u8 *)init_num(false, w, v);
		out([&](sml_buffer *b) { sml_status_write(st, b); }, "status write", want);
		sml_status_free(st);
	}
	L.check("number");
	nontrivial(v ^ (uint64_t)(w * 2 + sgn) << 50);
}
// general values and status words: smallest standard width
static void t_general(Src &s) {
	bool status = s.chance(1, 3), sgn = !status && s.flip();
	int n = (int)s.range(0, 12);
	unsigned type = sgn ? 0x50 : 0x60;
	if (s.chance(1, 8))
		type = (unsigned)s.below(8) << 4;
	Bytes v = n >= 1 && n <= 8 ? be(s.interesting(n), n) : s.bytes((size_t)n), b;
	unsigned pad = s.chance(1, 4) ? (unsigned)s.below(6) : 0;
	if (n == 0 && pad == 0 && type == 0)
		pad = 1;
	put_tl(b, type, (uint64_t)n, pad);
	b += v;
	size_t end = b.size();
	b += s.bytes(s.below(4));
	LeakScope L;
	sml_buffer *buf = pbuf(b);
	bool num = type == 0x60 || (type == 0x50 && !status);
	int w = n <= 1 ? 1 : n <= 2 ? 2 : n <= 4 ? 4 : 8;
	if (status) {
		sml_status *st = sml_status_parse(buf);
		if (num && n >= 1 && n <= 8) {
			CHECK(st && !sml_buf_has_errors(buf), "status %s rejected", hex(b).c_str());
			CHECK(st->type == (0x60 | w), "status %s has type %02x", hex(b).c_str(), st->type);
			CHECK(load(st->data.status8, w) == (extend(v, false) & mask(w)), "status %s has the wrong value", hex(b).c_str());
			CHECK(buf->cursor == end, "status %s: position", hex(b).c_str());
		} else
			CHECK(!st && sml_buf_has_errors(buf), "status %s accepted", hex(b).c_str());
		sml_status_free(st);
	} else {
		sml_value *x = sml_value_parse(buf);
		if (num && n >= 1 && n <= 8) {
			CHECK(x && !sml_buf_has_errors(buf), "value %s rejected", hex(b).c_str());
			CHECK(x->type == (type | (unsigned)w), "value %s has type %02x", hex(b).c_str(), x->type);
			uint64_t want = extend(v, type == 0x50) & mask(w), got = load(x->data.uint8, w);
			CHECK(got == want, "value %s is %llx instead of %llx", hex(b).c_str(), (unsigned long long)got, (unsigned long long)want);
			CHECK(buf->cursor == end, "value %s: position", hex(b).c_str());
		} else if (num)
			CHECK(!x && sml_buf_has_errors(buf), "value %s accepted", hex(b).c_str());
		else if (type == 0) {
			CHECK(x && x->type == SML_TYPE_OCTET_STRING && x->data.bytes && x->data.bytes->len == n, "string value %s", hex(b).c_str());
		} else if (type == 0x40 && n == 1) {
			CHECK(x && x->type == SML_TYPE_BOOLEAN && (*x->data.boolean == SML_BOOLEAN_TRUE) == (v[0] != 0), "boolean value %s", hex(b).c_str());
		} else
			CHECK(!x && sml_buf_has_errors(buf), "value %s accepted", hex(b).c_str());
		sml_value_free(x);
	}
	sml_buffer_free(buf);
	L.check(status ? "status" : "value");
	if (num && n >= 1 && n <= 8)
		nontrivial(hash_str(b) ^ status);
	label(strf("%s of %d bytes", status ? "status" : type == 0x50 ? "signed value" : type == 0x60 ? "unsigned value" : "other value", n).c_str());
}
static void t_boolean(Src &s) {
	LeakScope L;
	unsigned pad = (unsigned)s.below(4);
	Bytes follow = s.bytes(s.below(3));
	for (int x = 0; x < 256; x++) {
		Bytes b;
		put_tl(b, 0x40, 1, pad);
		b += (char)x;
		size_t end = b.size();
		b += follow;
		sml_buffer *buf = pbuf(b);
		sml_boolean *p = sml_boolean_parse(buf);
		CHECK(p && !sml_buf_has_errors(buf) && buf->cursor == end, "boolean %s rejected", hex(b).c_str());
		CHECK((*p != 0) == (x != 0), "boolean %s decodes to %d", hex(b).c_str(), *p);
		sml_boolean_free(p);
		sml_buffer_free(buf);
		// writing
		p = sml_boolean_init((u8)x);
		buf = sml_buffer_init(s.below(3));
		sml_boolean_write(p, buf);
		Bytes w = bufbytes(buf);
		CHECK(w.size() == 2 && w[0] == 0x42 && (w[1] != 0) == (x != 0), "boolean %d is written as %s", x, hex(w).c_str());
		CHECK((uint8_t)w[1] == (x ? 0xff : 0), "boolean %d is written as %s", x, hex(w).c_str());
		sml_boolean_free(p);
		sml_buffer_free(buf);
	}
	// every other type and length
	for (int tl = 0; tl < 256; tl++) {
		if (tl == 0x42 || tl == 0x01 || (tl & 0x80))
			continue;
		sml_buffer *buf = pbuf(Bytes(1, (char)tl) + Bytes(20, '\x01'));
		sml_boolean *p = sml_boolean_parse(buf);
		CHECK(!p && sml_buf_has_errors(buf), "first byte %02x accepted as a boolean", tl);
		sml_buffer_free(buf);
	}
	L.check("boolean");
	nontrivial(pad * 1000 + hash_str(follow));
}
// every single type-length byte, for every expected type
static void t_firstbyte(Src &s) {
	bool sgn = s.flip();
	int w = s.pick(W4);
	Bytes rest = s.bytes(24);
	LeakScope L;
	for (int tl = 0; tl < 128; tl++) {
		Bytes b = Bytes(1, (char)tl) + rest;
		sml_buffer *buf = pbuf(b);
		void *p = typed(sgn, w, buf);
		int n = (tl & 15) - 1;
		if (tl == 1)
			CHECK(!p && !sml_buf_has_errors(buf) && buf->cursor == 1, "the skipped marker was not taken as absent");
		else if ((tl & 0x70) == (sgn ? 0x50 : 0x60) && n >= 1 && n <= w) {
			CHECK(p && load(p, w) == (extend(rest.substr(0, (size_t)n), sgn) & mask(w)), "first byte %02x, then %s: wrong value", tl, hex(rest).c_str());
		} else
			CHECK(!p && sml_buf_has_errors(buf), "first byte %02x accepted for %s%d", tl, sgn ? "i" : "u", 8 * w);
		if (p)
			sml_number_free(p);
		sml_buffer_free(buf);
	}
	L.check("numbers");
	nontrivial(hash_str(rest) ^ (uint64_t)(w * 2 + sgn));
}
Prop the_prop() {
	return {"C07",
			{{"decode", t_decode, 1500000, 30000000, "encodings of 0 to 12 bytes for every expected type; non-trivial = a legal encoding, distinct by value and form", nullptr, true},
			 {"small", t_small, 4000, 20000, "all one byte and 1024 two byte encodings; every case is non-trivial", nullptr, false},
			 {"encode", t_encode, 800000, 16000000, "numbers, values and statuses created and written; every case is non-trivial", nullptr, false},
			 {"general", t_general, 1200000, 24000000, "values and statuses of 0 to 12 bytes; non-trivial = a legal number", nullptr, false},
			 {"truncated", t_truncated, 200000, 4000000, "every truncation of a number; every case is non-trivial", nullptr, false},
			 {"firstbyte", t_firstbyte, 50000, 1000000, "every first byte for one expected type; every case is non-trivial", nullptr, false},
			 {"boolean", t_boolean, 3000, 60000, "all boolean bytes and all first bytes; every case is non-trivial", nullptr, false}}};
}
