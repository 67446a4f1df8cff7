// C09: octet strings keep exact bytes through creation, hex, compare and wire
#include "bridge.h"

static Bytes content(Src &s) {
	switch (s.below(6)) {
	case 0: return Bytes();
	case 1: return Bytes(s.below(20), '\0');
	case 2: { // length field boundaries
		static const int at[] = {14, 253, 4092, 255, 65530, 40000};
		return s.bytes((size_t)(at[s.below(s.chance(1, 10) ? 6 : 2)] - 3 + (int)s.below(8)));
	}
	default: return s.bytes(s.below(24));
	}
}
static octet_string *make(const Bytes &b) {
	// from memory that is changed and released afterwards
	std::vector<unsigned char> v(b.begin(), b.end());
	v.shrink_to_fit();
	unsigned char none = 0;
	octet_string *s = sml_octet_string_init(v.empty() ? &none : v.data(), (int)v.size());
	for (auto &c : v)
		c = (unsigned char)~c;
	return s;
}
static void is(octet_string *s, const Bytes &b, const char *what) {
	CHECK(s, "%s: no string for %zu bytes", what, b.size());
	CHECK(s->len == (int)b.size(), "%s: length %d instead of %zu", what, s->len, b.size());
	CHECK(b.empty() || memcmp(s->str, b.data(), b.size()) == 0, "%s: bytes differ for %s", what, hex(b, 100).c_str());
}
static Bytes hextext(Src &s, const Bytes &b) {
	Bytes h;
	unsigned mode = (unsigned)s.below(3);
	for (uint8_t c : b)
		for (int k = 4; k >= 0; k -= 4) {
			unsigned d = c >> k & 15;
			bool up = mode == 0 || (mode == 2 && s.flip());
			h += (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10);
		}
	return h;
}
static void t_create(Src &s) {
	Bytes b = content(s);
	LeakScope L;
	octet_string *x = make(b);
	is(x, b, "creation");
	// wire
	sml_buffer *buf = sml_buffer_init(s.below(64));
	sml_octet_string_write(x, buf);
	Bytes w = bufbytes(buf), want;
	put_tl(want, 0, b.size());
	want += b;
	CHECK(w == want, "written as %s", hex(w, 200).c_str());
	is(x, b, "after writing");
	sml_buffer_free(buf);
	Bytes pad;
	put_tl(pad, 0, b.size(), b.empty() ? 1 + (unsigned)s.below(3) : (unsigned)s.below(4));
	pad += b;
	Bytes post = s.bytes(s.below(4));
	buf = pbuf(pad + post);
	octet_string *y = sml_octet_string_parse(buf);
	CHECK(!sml_buf_has_errors(buf) && buf->cursor == pad.size(), "parsing %s fails", hex(pad, 100).c_str());
	memset(buf->buffer, 0x5a, buf->buffer_len);
	sml_buffer_free(buf);
	is(y, b, "after parsing");
	CHECK(sml_octet_string_cmp(x, y) == 0 && sml_octet_string_cmp(y, x) == 0, "parsed string differs from the original");
	sml_octet_string_free(x);
	is(y, b, "after freeing the original");
	sml_octet_string_free(y);
	// skipped
	buf = pbuf(Bytes("\x01") + post);
	y = sml_octet_string_parse(buf);
	CHECK(!y && !sml_buf_has_errors(buf) && buf->cursor == 1, "absent string not recognised");
	sml_buffer_free(buf);
	buf = sml_buffer_init(2);
	sml_octet_string_write(nullptr, buf);
	CHECK(bufbytes(buf) == "\x01", "absent string is written as %s", hex(bufbytes(buf)).c_str());
	sml_buffer_free(buf);
	sml_octet_string_free(nullptr);
	L.check("octet string");
	if (b.size() > 1)
		nontrivial(hash_str(b));
	label(b.empty() ? "empty" : b.size() < 14 ? "short" : b.size() < 300 ? "medium" : "long");
	sample(hex(b, 100));
}
static void t_hex(Src &s) {
	Bytes b = content(s);
	Bytes h = hextext(s, b);
	LeakScope L;
	std::vector<char> text(h.begin(), h.end());
	text.push_back(0);
	octet_string *x = sml_octet_string_init_from_hex(text.data());
	CHECK(Bytes(text.data()) == h, "the text was changed");
	for (auto &c : text)
		c = 'f';
	is(x, b, "from hex");
	text.assign(h.begin(), h.end());
	text.push_back(0);
	CHECK(sml_octet_string_cmp_with_hex(x, text.data()) == 0, "differs from its own hex text %s", h.substr(0, 100).c_str());
	is(x, b, "after comparison");
	Bytes h2 = hextext(s, b);
	CHECK(sml_octet_string_cmp_with_hex(x, &h2[0]) == 0, "differs from another spelling %s", h2.substr(0, 100).c_str());
	// odd number of digits
	Bytes odd = h;
	if (s.flip() || odd.empty())
		odd += "0123456789abcdefABCDEF"[s.below(22)];
	else
		odd.pop_back();
	octet_string *y = sml_octet_string_init_from_hex(&odd[0]);
	CHECK(!y, "text with an odd number of digits was accepted");
	CHECK(sml_octet_string_cmp_with_hex(x, &odd[0]) != 0, "equal to text with an odd number of digits");
	// text of another string
	Bytes c = b;
	switch (s.chance(1, 100) ? 4 : s.below(4)) {
	case 4: c += Bytes(s.flip() ? 256 : 65536, (char)s.below(3)); break;
	case 0: c += (char)s.below(256); break;
	case 1: if (!c.empty()) c.pop_back(); break;
	case 2: if (!c.empty()) c[s.below(c.size())] ^= (char)(1 << s.below(8)); break;
	default: c = content(s);
	}
	Bytes hc = hextext(s, c);
	int r = sml_octet_string_cmp_with_hex(x, &hc[0]);
	CHECK((r == 0) == (c == b), "comparison of %s with text %s gives %d", hex(b, 100).c_str(), hc.substr(0, 200).c_str(), r);
	sml_octet_string_free(x);
	L.check("hex");
	if (b.size() > 1)
		nontrivial(hash_str(h));
}
// every pair of digits in every case
static void t_digits(Src &s) {
	static const char D[] = "0123456789abcdefABCDEF";
	LeakScope L;
	for (int i = 0; i < 22; i++)
		for (int j = 0; j < 22; j++) {
			auto val = [](int k) { return k < 16 ? k : k - 6; };
			char t[5] = {D[i], D[j], D[j], D[i], 0};
			octet_string *x = sml_octet_string_init_from_hex(t);
			CHECK(x && x->len == 2 && x->str[0] == (val(i) << 4 | val(j)) && x->str[1] == (val(j) << 4 | val(i)), "%s is decoded wrongly", t);
			sml_octet_string_free(x);
		}
	L.check("digits");
	nontrivial(s.below(1000000));
}
static void t_compare(Src &s) {
	Bytes a = content(s), b = a;
	switch (s.below(200)) {
	case 6: // lengths that differ by a multiple of 256 or 65536
		a = s.bytes(s.below(20));
		b = a + Bytes(s.flip() ? 256 : 65536, (char)s.below(3));
		if (s.flip())
			std::swap(a, b);
		break;
	default:
	switch (s.below(6)) {
	case 0: break;
	case 1: b += (char)s.below(3); break;
	case 2: if (!b.empty()) b.pop_back(); break;
	case 3: if (!b.empty()) b[s.below(b.size())] ^= (char)(1 << s.below(8)); break;
	case 4: { // difference behind a zero byte
		size_t n = 2 + s.below(12);
		a = s.bytes(n);
		a[s.below(n - 1)] = 0;
		b = a;
		b[n - 1] ^= (char)(1 + s.below(255));
		break;
	}
	default: b = content(s);
	}
	}
	LeakScope L;
	octet_string *x = make(a), *y = make(b);
	int r = sml_octet_string_cmp(x, y), q = sml_octet_string_cmp(y, x);
	CHECK((r == 0) == (a == b) && (q == 0) == (a == b), "comparison of %s and %s gives %d and %d", hex(a, 100).c_str(), hex(b, 100).c_str(), r, q);
	CHECK(sml_octet_string_cmp(x, x) == 0, "a string differs from itself");
	is(x, a, "after comparison");
	is(y, b, "after comparison");
	sml_octet_string_free(x);
	sml_octet_string_free(y);
	L.check("comparison");
	if (a.size() == b.size() && a.size() > 1)
		nontrivial(hash_str(a) ^ hash_str(b) * 3);
	label(a == b ? "equal" : a.size() == b.size() ? "equal length" : "different length");
}
// strings that do not fit the buffer
static void t_bounds(Src &s) {
	Bytes c = content(s).substr(0, 300), b;
	put_tl(b, 0, c.size(), (unsigned)s.below(3) + (c.empty() ? 1 : 0));
	size_t head = b.size();
	b += c;
	LeakScope L;
	for (size_t cut = 0; cut <= b.size(); cut++) {
		sml_buffer *buf = pbuf(b.substr(0, cut));
		octet_string *x = sml_octet_string_parse(buf);
		if (cut < b.size())
			CHECK(!x && sml_buf_has_errors(buf), "string %s cut to %zu bytes was accepted", hex(b, 60).c_str(), cut);
		else {
			CHECK(!sml_buf_has_errors(buf), "string at the end of the buffer rejected");
			is(x, c, "at the end");
		}
		sml_octet_string_free(x);
		sml_buffer_free(buf);
	}
	L.check("bounds");
	nontrivial(hash_str(b) ^ head);
}
// texts that are larger than a stack
static void t_long(Src &s) {
	size_t n = (size_t)1 << (10 + s.below(15)); // up to 16 MB
	n += s.below(n);
	Bytes b(n, 0), h;
	uint64_t x = s.u64();
	for (auto &c : b)
		c = (char)((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
	h.reserve(2 * n);
	for (unsigned char c : b) {
		h += "0123456789abcdef"[c >> 4];
		h += "0123456789ABCDEF"[c & 15];
	}
	LeakScope L;
	octet_string *o = sml_octet_string_init_from_hex(&h[0]);
	CHECK(o && o->len == (int)n && !memcmp(o->str, b.data(), n), "wrong bytes from a hex text of %zu digits", 2 * n);
	CHECK(sml_octet_string_cmp_with_hex(o, &h[0]) == 0, "differs from its own hex text of %zu digits", 2 * n);
	size_t i = s.below(2 * n);
	h[i] = h[i] == '7' ? '8' : '7';
	CHECK(sml_octet_string_cmp_with_hex(o, &h[0]) != 0, "equal to a hex text of %zu digits that differs in digit %zu", 2 * n, i);
	sml_octet_string_free(o);
	L.check("long hex text");
	label(n > 8000000 ? "more than 8 MB" : n > 65535 ? "more than 64 kB" : "less");
	nontrivial(x);
}
// texts longer than signed 32 bit numbers can tell (a binary without sanitizers)
[[maybe_unused]] static void t_huge(Src &s) {
	size_t n = (size_t)1 << 30, k = 1 << 18;
	n += s.flip() ? s.below(100) : s.below(400000000);
	Bytes b(k, 0), h;
	uint64_t x = s.u64();
	for (auto &c : b)
		c = (char)((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
	for (unsigned char c : b) {
		h += "0123456789abcdef"[c >> 4];
		h += "0123456789ABCDEF"[c & 15];
	}
	LeakScope L;
	Repeated r(h, 2 * n);
	octet_string *o = sml_octet_string_init_from_hex((char *)r.p);
	CHECK(o && o->len == (int)n, "no string of the right length from a hex text of %zu digits", 2 * n);
	for (size_t at = 0; at < n; at += k)
		CHECK(!memcmp(o->str + at, b.data(), std::min(k, n - at)), "wrong bytes from a hex text of %zu digits", 2 * n);
	sml_octet_string_free(o);
	L.check("huge hex text");
	nontrivial(n);
}
Prop the_prop() {
#ifdef HUGE_ONLY
	return {"C09", {{"huge", t_huge, 2, 16, "hex texts of more than 2 GiB; every case is non-trivial", nullptr, false}}};
#endif
	return {"C09",
			{{"create", t_create, 500000, 10000000, "creation, write and parse; non-trivial = more than one byte", nullptr, true},
			 {"hex", t_hex, 500000, 10000000, "creation from and comparison with hex text; non-trivial = more than one byte", nullptr, true},
			 {"compare", t_compare, 500000, 10000000, "pairs, mostly nearly equal; non-trivial = equal length above one", nullptr, false},
			 {"bounds", t_bounds, 20000, 400000, "every truncation of an encoded string; every case is non-trivial", nullptr, false},
			 {"digits", t_digits, 80, 800, "all pairs of hex digits in both cases (the same enumeration each time)", nullptr, false},
			 {"long", t_long, 240, 4000, "hex texts of 2 kB to 64 MB; every case is non-trivial", nullptr, false}}};
}
