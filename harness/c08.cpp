// C08: type-length fields encode and decode as inverses for every length
#include "bridge.h"

static const unsigned TYPES[] = {0x00, 0x40, 0x50, 0x60, 0x70};
// an error is a raised error flag or a negative length
static long long get(const Bytes &b, size_t at, size_t *pos, unsigned *type, bool *err) {
	sml_buffer *buf = pbuf(b, at);
	int t = sml_buf_get_next_type(buf);
	bool terr = sml_buf_has_errors(buf);
	*type = (unsigned)t;
	CHECK(terr == (at >= b.size()), "type of %s at %zu: error state %d", hex(b, 40).c_str(), at, terr);
	CHECK(buf->cursor == at, "asking for the type moved the position");
	int l = sml_buf_get_next_length(buf);
	*pos = buf->cursor;
	*err = sml_buf_has_errors(buf) || l < 0;
	CHECK(*pos <= b.size(), "the position passed the end");
	sml_buffer_free(buf);
	return l;
}
static void roundtrip(Src &s, unsigned type, uint64_t len) {
	Bytes want;
	put_tl(want, type, len);
	size_t room = s.below(12), off = s.below(room + 1);
	uint8_t pat = (uint8_t)s.below(256);
	sml_buffer *buf = sml_buffer_init(room);
	memset(buf->buffer, pat, room);
	buf->cursor = off;
	sml_buf_set_type_and_length(buf, type, (unsigned)len);
	Bytes got((const char *)buf->buffer, buf->cursor);
	CHECK(buf->cursor <= buf->buffer_len, "cursor beyond the buffer");
	CHECK(got.substr(0, off) == Bytes(off, (char)pat), "bytes before the field were changed");
	CHECK(got.substr(off) == want, "type %02x length %llu in a buffer of %zu at %zu filled with %02x: %s instead of %s", type,
		  (unsigned long long)len, room, off, pat, hex(got.substr(off)).c_str(), hex(want).c_str());
	sml_buffer_free(buf);
	// and back
	size_t pos;
	unsigned t;
	bool err;
	Bytes pre = s.bytes(s.below(4)), post = s.bytes(s.below(4));
	long long l = get(pre + want + post, pre.size(), &pos, &t, &err);
	CHECK(!err && l == (long long)len && t == type && pos == pre.size() + want.size(),
		  "%s (type %02x, length %llu) is read as type %02x, length %lld, position %zu, error %d", hex(want).c_str(), type,
		  (unsigned long long)len, t, l, pos, err);
	if (want.size() > 1)
		nontrivial(hash_str(want));
	label(strf("%zu fields", want.size()).c_str());
}
static uint64_t maxlen(unsigned type) { return type == 0x70 ? 0x7fffffffull : 0x7fffffffull - 8; }
static void t_lengths(Src &s) {
	unsigned type = s.pick(TYPES);
	uint64_t len;
	switch (s.below(3)) {
	case 0: len = s.interesting(4); break;
	case 1: { // around the capacity of k fields, with and without the fields themselves
		unsigned k = 1 + (unsigned)s.below(7);
		len = (1ull << (4 * k)) - 12 + s.below(20);
		break;
	}
	default: len = s.u64() & ((1ull << (1 + s.below(31))) - 1);
	}
	if (len > maxlen(type))
		len = maxlen(type) - (len & 15);
	LeakScope L;
	roundtrip(s, type, len);
	L.check("length field");
	sample(strf("type %02x length %llu", type, (unsigned long long)len));
}
// all lengths below 70000 for one type
static void t_dense(Src &s) {
	unsigned type = s.pick(TYPES);
	uint64_t part = s.below(70) * 1000;
	LeakScope L;
	for (uint64_t l = part; l < part + 1000; l++)
		roundtrip(s, type, l);
	L.check("length fields");
}
// any sequence of length bytes
static void t_decode(Src &s) {
	Bytes b;
	size_t n = s.chance(1, 6) ? s.below(40) : s.below(12);
	bool zeros = s.flip();
	b += (char)((n ? 0x80 : 0) | (s.below(8) << 4) | (zeros ? 0 : s.below(16)));
	for (size_t i = 0; i < n; i++) {
		unsigned nib = zeros && i + s.below(10) < n ? 0 : (unsigned)s.below(16);
		// reserved type bits of continuation bytes are not looked at
		b += (char)((i + 1 < n ? 0x80 : 0) | nib | (s.chance(1, 8) ? s.below(8) << 4 : 0));
	}
	bool cut = s.chance(1, 5);
	if (cut)
		b.resize(s.below(b.size() + 1));
	Bytes pre = s.bytes(s.below(3)), post = cut ? "" : s.bytes(s.below(4));
	Bytes all = pre + b + post;
	// reference: digits in base 16, the count of fields is part of the length except for lists
	bool err = b.empty(), list = !b.empty() && ((uint8_t)b[0] & 0x70) == 0x70, done = false;
	unsigned long long l = 0;
	size_t used = 0;
	for (size_t i = 0; i < b.size() && !err && !done; i++) {
		l = l * 16 + ((uint8_t)b[i] & 15);
		used = i + 1;
		if (l > 0x7fffffff)
			err = true;
		done = !((uint8_t)b[i] & 0x80);
	}
	if (!done)
		err = true;
	long long want = (long long)l - (list ? 0 : (long long)used);
	if (want < 0)
		err = true;
	size_t pos;
	unsigned t;
	bool e;
	LeakScope L;
	long long got = get(all, pre.size(), &pos, &t, &e);
	L.check("length field");
	CHECK(e == err, "length field %s%s: %s instead of %s (length %lld)", hex(b).c_str(), cut ? " (cut off)" : "", e ? "error" : "accepted",
		  err ? "error" : "accepted", got);
	if (!err) {
		CHECK(got == want && pos == pre.size() + used, "length field %s is read as %lld with %zu bytes instead of %lld with %zu", hex(b).c_str(),
			  got, pos - pre.size(), want, used);
		CHECK(t == ((uint8_t)b[0] & 0x70u), "type of %s is read as %02x", hex(b).c_str(), t);
		nontrivial(hash_str(b));
	}
	label(err ? cut ? "cut off" : l > 0x7fffffff ? "not representable" : "too small" : used > 1 ? "several fields" : "one field");
}
// padded forms mean the same as the minimal form
static void t_padded(Src &s) {
	unsigned type = s.pick(TYPES);
	uint64_t len = s.interesting(4) & 0x3fffffff;
	unsigned pad = 1 + (unsigned)s.below(s.chance(1, 8) ? 200 : 12);
	if (len + 30 + pad > 0x7fffffff)
		len = 0x7fffffff - 300;
	Bytes b;
	put_tl(b, type, len, pad);
	if (b.size() > 16) { // put_tl has 64 bit totals, which is enough
		label("more than 16 fields");
	}
	size_t pos;
	unsigned t;
	bool err;
	LeakScope L;
	long long l = get(b, 0, &pos, &t, &err);
	L.check("length field");
	CHECK(!err && l == (long long)len && t == type && pos == b.size(), "padded field %s: type %02x, length %lld, position %zu, error %d",
		  hex(b).c_str(), t, l, pos, err);
	nontrivial(hash_str(b));
}
// the skipped marker and the end of the buffer
static void t_optional(Src &s) {
	Bytes b = s.bytes(s.below(4));
	if (s.flip() && !b.empty())
		b[s.below(b.size())] = '\x01';
	for (size_t at = 0; at <= b.size(); at++) {
		LeakScope L;
		sml_buffer *buf = pbuf(b, at);
		int r = sml_buf_optional_is_skipped(buf);
		if (at >= b.size())
			CHECK(sml_buf_has_errors(buf) && r != 0, "no error at the end of the buffer");
		else if (b[at] == 1)
			CHECK(r == 1 && buf->cursor == at + 1 && !sml_buf_has_errors(buf), "skipped marker not consumed");
		else
			CHECK(r == 0 && buf->cursor == at && !sml_buf_has_errors(buf), "byte %02x taken for the skipped marker", (uint8_t)b[at]);
		sml_buffer_free(buf);
		buf = sml_buffer_init(s.below(3));
		buf->cursor = s.below(buf->buffer_len + 1);
		size_t c = buf->cursor;
		sml_buf_optional_write(buf);
		CHECK(buf->cursor == c + 1 && buf->buffer[c] == 1, "skipped marker written wrongly");
		sml_buffer_free(buf);
		L.check("optional");
	}
	nontrivial(hash_str(b));
}
Prop the_prop() {
	return {"C08",
			{{"lengths", t_lengths, 1500000, 30000000, "random and boundary lengths written and read; non-trivial = more than one field", nullptr, true},
			 {"dense", t_dense, 1400, 14000, "1000 consecutive lengths below 70000; non-trivial = more than one field (several per case)", nullptr, false},
			 {"decode", t_decode, 2000000, 40000000, "arbitrary length fields, cut off or not; non-trivial = legal", nullptr, true},
			 {"padded", t_padded, 500000, 10000000, "zero padded forms; every case is non-trivial", nullptr, false},
			 {"optional", t_optional, 200000, 4000000, "skipped marker at every position; every case is non-trivial", nullptr, false}}};
}
