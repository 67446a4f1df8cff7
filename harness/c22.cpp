// C22: results do not depend on how the library was compiled
#include "stream.h"
#include "c22.h"
#include <dlfcn.h>

typedef void (*Run)(const Op *, std::string *);
extern "C" void variant_run_here(const Op *, std::string *);
static std::vector<std::pair<std::string, Run>> variants;

static void load() {
	if (!variants.empty())
		return;
	char exe[4000];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n <= 0)
		abort();
	exe[n] = 0;
	for (const char *v : {VARIANTS}) {
		std::string f = std::string(exe) + "-" + v + ".so";
		void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
		if (!h) {
			fprintf(stderr, "harness: %s\n", dlerror());
			abort();
		}
		Run r = (Run)dlsym(h, "variant_run");
		if (!r)
			abort();
		variants.push_back({v, r});
	}
}
static void compare(const Op &op, const char *what, const std::string &input) {
	std::string want;
	variant_run_here(&op, &want);
	for (auto &v : variants) {
		std::string got;
		v.second(&op, &got);
		CHECK(got == want, "%s: the library compiled as '%s' differs: %s | %s", what, v.first.c_str(), first_diff(want, got).c_str(), input.c_str());
	}
	if (want.size() > 12)
		nontrivial(hash_str(want) ^ hash_str(input));
	sample(strf("%s %s -> %s", what, shortstr(input, 200).c_str(), shortstr(want, 200).c_str()));
}
static void t_parse(Src &s) {
	Op op;
	Gen g;
	g.wire = true;
	g.dzg = s.chance(1, 3);
	switch (s.below(6)) {
	case 0:
		op.k = Op::FILE_;
		op.b = gen_file(s, g, 3);
		compare(op, "file", hex(op.b, 600));
		break;
	case 1:
		op.k = Op::FILE_;
		op.b = hostile_file(s);
		compare(op, "damaged file", hex(op.b, 600));
		break;
	case 2:
		op.k = Op::MESSAGE;
		op.at = s.below(8);
		op.b = s.bytes(op.at) + (s.flip() ? encode_message(gen_message(s, g)) : hostile_file(s));
		compare(op, "message", strf("at %zu of ", op.at) + hex(op.b, 600));
		break;
	default:
		op.k = Op::ELEMENT;
		op.t = ELEMENTS[s.below(ELEMENTS.size())];
		op.at = s.below(8);
		op.x[0] = s.below(600);
		g.budget = 40;
		op.b = s.bytes(op.at) + (s.flip() ? encode(gen(s, g, op.t)) + s.bytes(s.below(4)) : hostile_element(s, op.t));
		compare(op, name_of(op.t), strf("at %zu of ", op.at) + hex(op.b, 600));
	}
}
static void t_write(Src &s) {
	Op op;
	Gen g;
	g.budget = 60;
	g.big = s.chance(1, 20) ? 10 : 0;
	op.k = s.chance(1, 3) ? Op::SEND : Op::BUILD;
	op.x[0] = s.below(3);
	std::string what;
	for (size_t n = 1 + s.below(3); n > 0; n--) {
		op.ms.push_back(gen_message(s, g));
		what += dump(op.ms.back()) + " ";
	}
	compare(op, op.k == Op::SEND ? "sending" : "writing", shortstr(what, 1000));
}
static void t_values(Src &s) {
	Op op;
	std::string what;
	switch (s.below(6)) {
	case 0: {
		op.k = Op::VALUE;
		Node n;
		int w = 1 << s.below(4);
		if (s.chance(2, 3)) {
			bool sgn = s.flip();
			n = Node::num(sgn, w, s.interesting(w));
		} else
			n = Node::oct(s.bytes(1 + s.below(30)));
		what = dump(n);
		op.ms.push_back(n);
		break;
	}
	case 1:
		op.k = Op::STRINGS;
		op.b = s.bytes(s.below(20));
		op.b2 = s.flip() ? op.b : s.bytes(s.below(20));
		if (s.flip() && !op.b2.empty())
			op.b2[s.below(op.b2.size())] ^= (char)(1 << s.below(8));
		op.text = hex(s.flip() ? op.b : s.bytes(s.below(20)));
		if (s.chance(1, 3) && !op.text.empty()) // no hex digit
			op.text[s.below(op.text.size())] = (char)(1 + s.below(255));
		if (s.chance(1, 4))
			for (auto &c : op.text)
				c = (char)toupper((unsigned char)c);
		what = hex(op.b) + " " + hex(op.b2) + " " + op.text;
		break;
	case 2:
		op.k = Op::LENGTHS;
		op.at = s.below(4);
		op.b = s.bytes(op.at) + tl_soup(s, 1 + s.below(30));
		for (auto &x : op.x)
			x = s.u64() >> s.below(64);
		what = hex(op.b) + strf(" %llx %llx %llx", (unsigned long long)op.x[0], (unsigned long long)op.x[1], (unsigned long long)op.x[2]);
		break;
	case 3:
		op.k = Op::CRC;
		op.b = s.bytes(s.below(300));
		what = hex(op.b);
		break;
	default:
		op.k = Op::NUMBERS;
		op.x[0] = s.interesting(8);
		op.x[1] = s.below(20);
		what = strf("%llx", (unsigned long long)op.x[0]);
	}
	compare(op, "values", what);
}
static void t_stream(Src &s) {
	Op op;
	op.k = Op::RECEIVE;
	op.x[0] = 16 + s.below(s.flip() ? 200 : 3000);
	Stream S = gen_stream(s, op.x[0], 6, true);
	op.b = S.bytes;
	compare(op, "stream", strf("buffer of %llu, ", (unsigned long long)op.x[0]) + hex(op.b, 1000));
}
Prop the_prop() {
	return {"C22",
			{{"parse", t_parse, 120000, 2400000, "files, messages, elements, half of them damaged; non-trivial = a result beyond the error state", load, false},
			 {"write", t_write, 30000, 600000, "built files written or sent; every case is non-trivial", load, false},
			 {"values", t_values, 200000, 4000000, "conversions, strings, length fields, checksums, numbers; non-trivial = a result of some length", load, false},
			 {"stream", t_stream, 30000, 600000, "streams read with some buffer and listened to; non-trivial = something is delivered", load, false}}};
}
