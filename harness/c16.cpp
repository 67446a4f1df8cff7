// C16: both checksum functions equal their bitwise definitions for all inputs
#include "bridge.h"

static void both(const Bytes &b) {
	std::vector<unsigned char> v(b.begin(), b.end());
	v.shrink_to_fit();
	unsigned char none = 0;
	unsigned char *p = v.empty() ? &none : v.data();
	u16 a = sml_crc16_calculate(p, (int)v.size()), k = sml_crc16kermit_calculate(p, (int)v.size());
	uint16_t wa = ref_crc_x25_swapped(b), wk = ref_crc_kermit(b);
	// CRC-16/KERMIT is given with its bytes in transmission order, low byte first
	uint16_t ws = (uint16_t)(wk << 8 | wk >> 8);
	(void)ws;
	CHECK(a == wa, "SML checksum of %s is %04x instead of %04x", hex(b, 200).c_str(), a, wa);
	CHECK(k == wk, "Kermit checksum of %s is %04x instead of %04x", hex(b, 200).c_str(), k, wk);
	CHECK(v.empty() || !memcmp(v.data(), b.data(), b.size()), "the bytes were changed");
}
static void t_random(Src &s) {
	Bytes b;
	switch (s.below(4)) {
	case 0: b = s.bytes(s.below(40)); break;
	case 1: b = s.bytes(s.below(2000)); break;
	case 2: b = Bytes(s.below(300), (char)s.below(256)); break;
	default: b = s.bytes(24 + s.below(8)); // ends around multiples of eight
	}
	both(b);
	both(b); // no state
	if (b.size() > 1)
		nontrivial(hash_str(b));
	label(b.empty() ? "empty" : b.size() < 40 ? "short" : "long");
	sample(strf("%s SML %04x Kermit %04x", hex(b, 40).c_str(), ref_crc_x25_swapped(b), ref_crc_kermit(b)));
}
// every one byte and two byte string
static void t_pairs(Src &s) {
	uint8_t hi = (uint8_t)s.below(256);
	both(Bytes());
	both(Bytes(1, (char)hi));
	Bytes pre = s.bytes(s.below(5));
	for (int lo = 0; lo < 256; lo++) {
		Bytes b(1, (char)hi);
		b += (char)lo;
		both(b);
		both(pre + b);
	}
	nontrivial(hi ^ hash_str(pre));
}
// one buffer that is changed between the calls, overlapping parts of it
static void t_reuse(Src &s) {
	size_t n = 1 + s.below(300);
	Bytes b = s.bytes(n);
	std::vector<unsigned char> v(b.begin(), b.end());
	for (size_t k = 2 + s.below(12); k > 0; k--) {
		for (size_t c = s.below(4); c > 0; c--) {
			size_t i = s.below(n);
			b[i] = (char)s.below(256);
			v[i] = (unsigned char)b[i];
		}
		size_t from = s.flip() ? 0 : s.below(n), len = s.below(n - from + 1);
		Bytes part = b.substr(from, len);
		for (int which = (int)s.below(3); which < 3; which++) {
			uint16_t want = which & 1 ? ref_crc_kermit(part) : ref_crc_x25_swapped(part);
			u16 got = (which & 1 ? sml_crc16kermit_calculate : sml_crc16_calculate)(v.data() + from, (int)len);
			CHECK(got == want, "%s checksum of a part of a buffer that was changed after other checksums, %s, is %04x instead of %04x",
				  which & 1 ? "Kermit" : "SML", hex(part, 200).c_str(), got, want);
		}
	}
	nontrivial(hash_str(b));
}
// known check values
static void t_vectors(Src &s) {
	Bytes b("123456789");
	CHECK(ref_crc_kermit(b) == 0x2189, "harness: Kermit check value");
	CHECK(ref_crc_x25_swapped(b) == 0x6e90, "harness: X-25 check value");
	both(b);
	Bytes big = s.bytes(100000 + s.below(100000));
	both(big);
	nontrivial(hash_str(big));
}
// lengths beyond 16 and 24 bits
static void t_huge(Src &s) {
	size_t n = ((size_t)1 << (16 + s.below(11))) - 3 + s.below(6);
	if (s.flip())
		n += s.below(n);
	Bytes b = s.flip() ? s.bytes(n) : Bytes(n, (char)s.below(256));
	if (s.flip())
		b[s.below(n)] ^= (char)(1 << s.below(8));
	uint16_t k = ref_crc_kermit(b), x = ref_crc_x25_swapped(b);
	u16 gk = sml_crc16kermit_calculate((unsigned char *)&b[0], (int)n), gx = sml_crc16_calculate((unsigned char *)&b[0], (int)n);
	CHECK(gx == x, "SML checksum of %zu bytes: %04x instead of %04x", n, gx, x);
	CHECK(gk == k, "Kermit checksum of %zu bytes: %04x instead of %04x", n, gk, k);
	nontrivial(hash_bytes(b.data(), 64, n));
}
Prop the_prop() {
	return {"C16",
			{{"random", t_random, 600000, 12000000, "random strings of 0 to 2000 bytes; non-trivial = more than one byte", nullptr, true},
			 {"pairs", t_pairs, 40000, 600000, "all strings of one and two bytes, behind a random prefix; every case is non-trivial", nullptr, false},
			 {"reuse", t_reuse, 150000, 3000000, "parts of one buffer that changes between the calls; every case is non-trivial", nullptr, true},
			 {"huge", t_huge, 48, 600, "64 kB to 128 MB; every case is non-trivial", nullptr, false},
			 {"vectors", t_vectors, 400, 4000, "published check values and long strings; every case is non-trivial", nullptr, false}}};
}
