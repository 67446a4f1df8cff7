// C12: the transport writer frames, pads and checksums every file correctly
#define STREAM_FAULTS
#include "stream.h"
#include <algorithm>

struct WScript {
	int fd = -1;
	std::vector<int> ops; // one per call: -1 all, >=0 at most so many bytes, <-1 -errno; afterwards everything is accepted
	size_t at = 0;
	bool failed = false;
	uint64_t calls = 0;
};
static WScript *ws;
extern "C" {
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n) {
	if (!ws || ws->fd != fd)
		return __real_write(fd, p, n);
	if (++ws->calls > 1000000)
		fail("endless writing");
	if (ws->at < ws->ops.size()) {
		int op = ws->ops[ws->at++];
		if (op < -1) {
			ws->failed = true;
			errno = -op;
			return -1;
		}
		if (op >= 0 && n > (size_t)op) {
			ws->failed = true;
			n = (size_t)op;
		}
	}
	return __real_write(fd, p, n);
}
}
static Bytes content_of(int fd) {
	off_t n = lseek(fd, 0, SEEK_END);
	Bytes b((size_t)n, 0);
	if (pread(fd, &b[0], (size_t)n, 0) != n)
		abort();
	return b;
}
static int target() {
	static int fd = -1;
	if (fd < 0)
		fd = memfd_create("out", 0);
	if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET))
		abort();
	return fd;
}
static Bytes payload_of(const std::vector<Node> &m) {
	Bytes p;
	for (auto x : m) {
		strip_hints(x);
		p += encode_message(x);
	}
	return p;
}
// aligned escape sequences inside the payload: listed as a known finding, made impossible here
static bool has_escape(const Bytes &p) { return aligned_escape(p); }
static void avoid(Node &n) {
	if (n.k == Node::OCT)
		std::replace(n.b.begin(), n.b.end(), '\x1b', '\x1c');
	else if (n.k == Node::NUM)
		for (int i = 0; i < n.width; i++)
			if ((n.v >> (8 * i) & 0xff) == 0x1b)
				n.v ^= 1ull << (8 * i);
	for (auto &c : n.c)
		avoid(c);
}
static void read_back(int fd, const Bytes &want, const std::string &dump, Src &s) {
	// with another file behind it
	lseek(fd, 0, SEEK_SET);
	size_t max = want.size() + 1 + s.below(40);
	std::vector<unsigned char> b(max);
	size_t r = sml_transport_read(fd, b.data(), max);
	CHECK(r == want.size(), "transport read returns %zu bytes of a frame of %zu: %s", r, want.size(), hex(want, 500).c_str());
	CHECK(!memcmp(b.data(), want.data(), r), "transport read returns other bytes than were written %s",
		  first_diff(hex(want, (size_t)-1), hex(Bytes((char *)b.data(), r), (size_t)-1)).c_str());
	sml_file *f = sml_file_parse(b.data() + 8, r - 16);
	std::string got = ldump_file(f);
	sml_file_free(f);
	CHECK(got == dump, "content changed on the way %s | frame %s", first_diff(dump, got).c_str(), hex(want, 500).c_str());
}
static std::string dump_of(const std::vector<Node> &m) {
	std::string d;
	for (auto &x : m) {
		Node v = view_message(x);
		d += dump(with_crc(v, crc_of_message(v, 0))) + "\n";
	}
	return d;
}
// prepares the messages, as they will be found on the wire
static std::vector<Node> gen_msgs(Src &s, size_t n, int big, bool parsed) {
	std::vector<Node> m;
	for (size_t i = 0; i < n; i++) {
		Gen g;
		g.wire = parsed;
		g.big = big;
		g.budget = 60;
		g.full_path = true;
		g.empty_oct = false;
		m.push_back(gen_message(s, g));
	}
	return m;
}
static std::vector<Node> on_wire(const std::vector<Node> &m) {
	std::vector<Node> w;
	for (auto &x : m) {
		Node y = written_message(view_message(normalize_empty(view_message(x))));
		w.push_back(y);
	}
	return w;
}
static void t_send(Src &s) {
	bool parsed = s.flip();
	size_t n = s.below(4);
	int big = s.chance(1, 4) ? 8 : 0;
	std::vector<Node> m = gen_msgs(s, n, big, parsed);
	LeakScope L;
	sml_file *f;
	std::vector<Node> w = on_wire(m);
	Bytes p = payload_of(w);
	if (has_escape(p)) {
		label("escape bytes replaced");
		for (auto &x : m)
			avoid(x);
		w = on_wire(m);
		p = payload_of(w);
		if (has_escape(p)) // a length field or checksum, practically never
			return;
	}
	if (parsed) {
		Bytes b;
		for (auto &x : m)
			b += encode_message(x) + Bytes(s.below(3), '\0');
		if (s.chance(1, 4)) { // behind them one that is cut off
			Gen g;
			g.budget = 20;
			Bytes x = encode_message(gen_message(s, g));
			b += x.substr(0, 1 + s.below(x.size() - 5));
			label("from a damaged file");
		}
		f = lparse_file(b);
	} else {
		f = sml_file_init();
		for (auto &x : m)
			sml_file_add_message(f, lbuild_message(x));
	}
	Bytes want = frame(p);
	int rounds = 1 + (int)s.below(3);
	for (int i = 0; i < rounds; i++) {
		int fd = target();
		int r = sml_transport_write(fd, f);
		Bytes got = content_of(fd);
		CHECK(got == want, "round %d: wrong frame %s | %s", i, first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str(), dump_of(w).substr(0, 800).c_str());
		CHECK(r == (int)want.size(), "round %d: %d reported for %zu bytes", i, r, want.size());
		if (i == 0)
			read_back(fd, want, dump_of(w), s);
	}
	sml_file_free(f);
	L.check("sending");
	label(strf("padding %u", (unsigned)(uint8_t)want[want.size() - 3]).c_str());
	label(parsed ? "parsed file" : "built file");
	if (n) {
		nontrivial(hash_str(want));
		sample(strf("%s", hex(want, 300).c_str()));
	}
}
static void t_faults(Src &s) {
	std::vector<Node> m = gen_msgs(s, s.below(3), 0, false);
	if (s.chance(1, 100)) { // more than would be sent in one piece by anyone who sends pieces
		Gen g;
		m.push_back(gen_message_of(s, g, 3));
		static const size_t at[] = {4096, 8192, 16384, 65536, 1 << 20};
		m.back().c[3].c[1].c[0] = Node::oct(Bytes(s.pick(at) * (1 + s.below(4)) + s.below(300), (char)s.below(256)));
		label("long file");
	}
	for (auto &x : m)
		avoid(x);
	std::vector<Node> w = on_wire(m);
	Bytes want = frame(payload_of(w));
	sml_file *f = sml_file_init();
	for (auto &x : m)
		sml_file_add_message(f, lbuild_message(x));
	int rounds = 1 + (int)s.below(3);
	for (int i = 0; i < rounds; i++) {
		WScript S;
		S.fd = target();
		size_t k = s.below(4);
		for (size_t j = 0; j < k; j++) {
			static const int e[] = {-EIO, -EINTR, -EAGAIN, -ENOSPC, -EPIPE, -EBADF, -EFBIG};
			switch (s.below(4)) {
			case 0: S.ops.push_back(s.pick(e)); break;
			case 1: S.ops.push_back(0); break;
			case 2: S.ops.push_back((int)want.size() - 1 - (int)s.below(std::min<size_t>(want.size() - 1, 12))); break;
			default: S.ops.push_back((int)s.below(want.size())); break;
			}
		}
		ws = &S;
		int r = sml_transport_write(S.fd, f);
		ws = nullptr;
		Bytes got = content_of(S.fd);
		CHECK(got.size() <= want.size() && !want.compare(0, got.size(), got), "what was accepted is not a part of the frame: %s instead of %s",
			  hex(got, 400).c_str(), hex(want, 400).c_str());
		bool all = got.size() == want.size();
		CHECK(r == (all ? (int)want.size() : 0), "%d reported, %zu of %zu bytes were accepted", r, got.size(), want.size());
		label(all ? "accepted" : got.empty() ? "nothing accepted" : "accepted in part");
		if (!all)
			nontrivial(hash_str(want) ^ hash_bytes(S.ops.data(), S.ops.size() * sizeof(int)) ^ (uint64_t)i);
	}
	sml_file_free(f);
}
// real descriptors that do not accept it
static void t_descriptors(Src &s) {
	std::vector<Node> m = gen_msgs(s, 1 + s.below(2), 0, false);
	for (auto &x : m)
		avoid(x);
	Bytes want = frame(payload_of(on_wire(m)));
	sml_file *f = sml_file_init();
	for (auto &x : m)
		sml_file_add_message(f, lbuild_message(x));
	int p[2], r;
	switch (s.below(6)) {
	case 0: r = sml_transport_write(-1, f); CHECK(r == 0, "%d reported for descriptor -1", r); break;
	case 1: {
		int fd = open("/dev/null", O_RDONLY);
		r = sml_transport_write(fd, f);
		close(fd);
		CHECK(r == 0, "%d reported for a descriptor that is read-only", r);
		break;
	}
	case 2: {
		int fd = open("/dev/full", O_WRONLY);
		r = fd < 0 ? 0 : sml_transport_write(fd, f);
		close(fd);
		CHECK(r == 0, "%d reported for a full device", r);
		break;
	}
	case 3: // nobody reads
		if (pipe(p))
			abort();
		close(p[0]);
		r = sml_transport_write(p[1], f);
		close(p[1]);
		CHECK(r == 0, "%d reported for a closed pipe", r);
		break;
	case 4: { // a pipe that has room for a part only
		if (pipe2(p, O_NONBLOCK))
			abort();
		Bytes fill(4096, 'f');
		size_t in = 0;
		ssize_t k;
		while ((k = write(p[1], fill.data(), fill.size())) > 0)
			in += (size_t)k;
		size_t room = s.below(want.size() + 2);
		std::vector<char> t(in + want.size() + 10);
		size_t out = 0;
		// pages are freed as a whole
		while (out < room && (k = read(p[0], t.data(), 4096)) > 0)
			out += (size_t)k;
		r = sml_transport_write(p[1], f);
		size_t have = 0;
		Bytes all;
		while ((k = read(p[0], t.data(), t.size())) > 0)
			all.append(t.data(), (size_t)k);
		have = all.size() - (in - out);
		CHECK(all.compare(in - out, have, want, 0, have) == 0, "other bytes");
		CHECK(r == (have == want.size() ? (int)want.size() : 0), "%d reported, %zu of %zu bytes were accepted", r, have, want.size());
		close(p[0]);
		close(p[1]);
		break;
	}
	default: { // a good pipe
		if (want.size() > 60000)
			break;
		if (pipe(p))
			abort();
		r = sml_transport_write(p[1], f);
		close(p[1]);
		std::vector<char> t(want.size() + 10);
		ssize_t k = read(p[0], t.data(), t.size());
		CHECK(r == (int)want.size() && k == r && !memcmp(t.data(), want.data(), (size_t)k), "%d reported, %zd bytes arrived of %zu", r, k, want.size());
		close(p[0]);
	}
	}
	sml_file_free(f);
	nontrivial(hash_str(want) ^ s.hash);
}
// every payload length, so every padding and buffer boundary
static void t_length(Src &s) {
	size_t len = s.chance(1, 40) ? 60000 + s.below(200000) : s.below(4000);
	Bytes str(len, 'a');
	for (size_t i = 0; i < len; i++)
		str[i] = (char)('a' + i % 23);
	Node m = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
						 Node::list({Node::num(false, 4, 0x200), Node::list({Node::oct(str)})})});
	std::vector<Node> w = on_wire({m});
	Bytes want = frame(payload_of(w));
	if (has_escape(payload_of(w)))
		return;
	bool parsed = s.flip();
	sml_file *f;
	if (parsed)
		f = lparse_file(encode_message(m));
	else {
		f = sml_file_init();
		sml_file_add_message(f, lbuild_message(m));
	}
	int fd = target();
	int r = sml_transport_write(fd, f);
	Bytes got = content_of(fd);
	CHECK(got == want, "string of %zu bytes: wrong frame %s", len, first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str());
	CHECK(r == (int)want.size(), "%d reported for %zu bytes", r, want.size());
	read_back(fd, want, dump_of(w), s);
	sml_file_free(f);
	label(strf("padding %u", (unsigned)(uint8_t)want[want.size() - 3]).c_str());
	nontrivial(len * 2 + parsed);
}
static void t_huge(Src &s) {
	static const size_t at[] = {1 << 20, 2 << 20, 16 << 20};
	size_t len = s.chance(1, 3) ? s.below(40 << 20) : s.pick(at) - 40 + s.below(80);
	Bytes str = s.bytes(999);
	std::replace(str.begin(), str.end(), '\x1b', 'x');
	while (str.size() < len)
		str += str;
	str.resize(len);
	Node m = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
						 Node::list({Node::num(false, 4, 0x200), Node::list({Node::oct(str)})})});
	std::vector<Node> w = on_wire({m});
	Bytes p = payload_of(w), want = frame(p);
	if (has_escape(p))
		return;
	sml_file *f = s.flip() ? lparse_file(p) : sml_file_init();
	if (!f->messages_len)
		sml_file_add_message(f, lbuild_message(m));
	for (int i = 0; i < 2; i++) {
		int fd = target();
		int r = sml_transport_write(fd, f);
		Bytes got = content_of(fd);
		if (got != want)
			fail("string of %zu bytes: wrong frame %s", len, first_diff(hex(want, (size_t)-1), hex(got, (size_t)-1)).c_str());
		CHECK(r == (int)want.size(), "%d reported for %zu bytes", r, want.size());
		if (!i && len < 3 << 20)
			read_back(fd, want, dump_of(w), s);
	}
	sml_file_free(f);
	if (ftruncate(target(), 0))
		abort();
	label(len < 16 << 20 ? "less than 16 MB" : "16 MB and more");
	nontrivial(len);
}
// listed finding: escape sequences in the payload are not escaped
static void t_known(Src &s) {
	Bytes str("aaaaa\x1b\x1b\x1b\x1b\x02\x02\x02\x02", 13);
	for (int shift = 0; shift < 4; shift++) {
		str.insert(0, 1, 'a');
		Node m = Node::list({Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
							 Node::list({Node::num(false, 4, 0x200), Node::list({Node::oct(str)})})});
		std::vector<Node> w = on_wire({m});
		if (!has_escape(payload_of(w)))
			continue;
		sml_file *f = sml_file_init();
		sml_file_add_message(f, lbuild_message(m));
		int fd = target();
		sml_transport_write(fd, f);
		sml_file_free(f);
		lseek(fd, 0, SEEK_SET);
		unsigned char b[512];
		size_t r = sml_transport_read(fd, b, sizeof b);
		bool ok = false;
		if (r) {
			f = sml_file_parse(b + 8, r - 16);
			ok = ldump_file(f) == dump_of(w);
			sml_file_free(f);
		}
		if (!ok)
			note_known("escape");
		nontrivial(1);
	}
}
Prop the_prop() {
	return {"C12",
			{{"send", t_send, 80000, 1600000, "built and parsed files, sent up to three times, read back and parsed; non-trivial = at least one message", nullptr, true},
			 {"faults", t_faults, 80000, 1600000, "short and failing writes; non-trivial = not everything was accepted", nullptr, false},
			 {"length", t_length, 40000, 400000, "every size of a file; every case is non-trivial", nullptr, false},
			 {"huge", t_huge, 32, 400, "files of up to 40 MB; every case is non-trivial", nullptr, false},
			 {"descriptors", t_descriptors, 20000, 200000, "descriptors that do not accept the frame; every case is non-trivial", nullptr, false},
			 {"known", t_known, 1, 1, "the listed finding", nullptr, false}}};
}
