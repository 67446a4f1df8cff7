// C11: the transport reader extracts exactly the framed file from any byte stream
#define STREAM_FAULTS
#include "stream.h"
#include <climits>
#include <sys/resource.h>

struct Reader {
	int fd = -1;
	Faults f;
	std::vector<Bytes> got;
	size_t max_len = 0;
	size_t nothing = 0; // reads that ended with neither a file nor the end of the stream
	unsigned char *buf = nullptr;
	Reader(int slot, const Bytes &b, size_t m) : max_len(m) {
		fd = f.fd = fd_with(b);
		faults[slot] = &f;
		buf = new unsigned char[m]; // the exact size, so that writing behind it is seen
		size_t n = m < 100000 ? m : 100000; // what is in it before does not matter
		for (size_t i = 0, k = (b.size() + m) % 4; i < n; i++)
			buf[i] = k == 0 ? 0x55 : k == 1 ? 0x1b : k == 2 ? (unsigned char)START[i % 8] : i < b.size() ? (unsigned char)b[i] : 0x01;
	}
	~Reader() {
		for (auto &x : faults)
			if (x == &f)
				x = nullptr;
		close(fd);
		delete[] buf;
	}
	void step() {
		size_t r = sml_transport_read(fd, buf, max_len);
		CHECK(r <= max_len, "%zu bytes reported for a buffer of %zu", r, max_len);
		if (r)
			got.push_back(Bytes((char *)buf, r));
		else if (!f.ended)
			nothing++;
	}
	// besides what match says, a read ends without a file only if there was a frame that cannot be delivered
	std::string match(const Stream &S, size_t available) {
		std::string bad = ::match(S, got, max_len, available);
		if (!bad.empty())
			return bad;
		size_t may = S.cut;
		bool optional;
		for (auto &f : S.frames)
			may += f.at < available && (!deliverable(f, max_len, available, &optional) || optional);
		if (nothing > may)
			return strf("%zu reads returned no file before the end of the stream, with %zu frames that cannot be delivered", nothing, may);
		return "";
	}
};
static size_t gen_len(Src &s) {
	switch (s.below(4)) {
	case 0: return 512;
	case 1: return 8096;
	case 2: return 16 + s.below(120);
	default: return 100 + s.below(2000);
	}
}
static void t_stream(Src &s) {
	size_t max_len = gen_len(s);
	Stream S = gen_stream(s, max_len, 6, true);
	LeakScope L;
	Reader R(0, S.bytes, max_len);
	gen_faults(s, R.f);
	size_t avail = S.bytes.size();
	if (s.chance(1, 4)) { // reading fails for good somewhere
		avail = s.below(avail + 1);
		R.f.fail_after = (long long)avail;
		static const int e[] = {EIO, EBADF, ENXIO, ECONNRESET};
		R.f.fail_errno = s.pick(e);
		label("read error");
	}
	size_t calls = 0;
	while (!R.f.ended) {
		R.step();
		CHECK(++calls <= S.bytes.size() + 16, "no progress after %zu reads of a stream of %zu bytes", calls, S.bytes.size());
	}
	std::string bad = R.match(S, avail);
	CHECK(bad.empty(), "buffer of %zu bytes: %s | stream %s", max_len, bad.c_str(), hex(S.bytes, 700).c_str());
	L.check("transport read");
	if (!R.got.empty()) {
		nontrivial(hash_str(S.bytes) ^ max_len);
		label(strf("%zu files delivered", R.got.size()).c_str());
		if (S.partial_start)
			label("noise like a start sequence, and a file");
		sample(strf("buffer %zu, stream %s -> %zu files", max_len, hex(S.bytes, 300).c_str(), R.got.size()));
	}
}
// a stream that arrives while it is read: waiting for it neither fails nor spins
static void t_live(Src &s) {
	size_t max_len = gen_len(s);
	Stream S = gen_stream(s, max_len, 4, true);
	Faults f;
	std::vector<unsigned char> buf(max_len);
	std::vector<Bytes> got;
	{
		Live l(s, S.bytes);
		f.fd = l.r;
		faults[0] = &f;
		for (size_t k = 0; !f.ended; k++) {
			size_t r = sml_transport_read(l.r, buf.data(), max_len);
			CHECK(r <= max_len, "%zu bytes reported for a buffer of %zu", r, max_len);
			if (r)
				got.push_back(Bytes((char *)buf.data(), r));
			CHECK(k <= S.bytes.size() + 16, "no progress");
		}
		faults[0] = nullptr;
		if (l.pauses)
			label("with a long pause");
	}
	std::string bad = match(S, got, max_len, S.bytes.size());
	CHECK(bad.empty(), "buffer of %zu bytes: %s | stream %s", max_len, bad.c_str(), hex(S.bytes, 700).c_str());
	CHECK(f.reads <= 3 * S.bytes.size() + 3000, "%llu reads for a stream of %zu bytes: waiting for input is not waited for", (unsigned long long)f.reads,
		  S.bytes.size());
	if (!got.empty())
		nontrivial(hash_str(S.bytes));
}
// every cut of a stream, and every way to fail at a byte
static void t_cut(Src &s) {
	size_t max_len = 16 + s.below(600);
	Stream S = gen_stream(s, max_len, 2, true);
	if (S.bytes.size() > 400)
		S.bytes.resize(400);
	bool error = s.flip();
	for (size_t cut = 0; cut <= S.bytes.size(); cut++) {
		Reader R(0, error ? S.bytes : S.bytes.substr(0, cut), max_len);
		if (error)
			R.f.fail_after = (long long)cut;
		for (size_t k = 0; !R.f.ended; k++) {
			R.step();
			CHECK(k <= S.bytes.size() + 16, "no progress");
		}
		std::string bad = R.match(S, cut);
		CHECK(bad.empty(), "%s after %zu of %zu bytes, buffer of %zu bytes: %s | stream %s", error ? "error" : "end", cut, S.bytes.size(), max_len,
			  bad.c_str(), hex(S.bytes, 700).c_str());
	}
	if (!S.frames.empty())
		nontrivial(hash_str(S.bytes) ^ max_len ^ (uint64_t)error);
}
// the same stream with different fragmentations gives the same results
static void t_two(Src &s) {
	size_t ma = gen_len(s), mb = gen_len(s);
	Stream A = gen_stream(s, ma, 4, true), B = gen_stream(s, mb, 4, true);
	Reader RA(0, A.bytes, ma), RB(1, B.bytes, mb);
	gen_faults(s, RA.f);
	gen_faults(s, RB.f);
	size_t calls = 0;
	while (!RA.f.ended || !RB.f.ended) {
		bool a = !RA.f.ended && (RB.f.ended || s.flip());
		(a ? RA : RB).step();
		CHECK(++calls <= A.bytes.size() + B.bytes.size() + 32, "no progress");
	}
	std::string bad = RA.match(A, A.bytes.size());
	CHECK(bad.empty(), "first of two streams, buffer of %zu bytes: %s | stream %s", ma, bad.c_str(), hex(A.bytes, 700).c_str());
	bad = RB.match(B, B.bytes.size());
	CHECK(bad.empty(), "second of two streams, buffer of %zu bytes: %s | stream %s", mb, bad.c_str(), hex(B.bytes, 700).c_str());
	if (!RA.got.empty() && !RB.got.empty())
		nontrivial(hash_str(A.bytes) ^ hash_str(B.bytes) * 3);
}
// files behind long noise
static void t_apart(Src &s) {
	size_t max_len = gen_len(s);
	Stream S;
	std::vector<size_t> keep;
	for (size_t n = 1 + s.below(2); n > 0; n--) {
		size_t from = S.bytes.size();
		S.bytes += gen_long_noise(s);
		Frame f = gen_frame(s, true, 4 * s.below(max_len / 4));
		f.at = S.bytes.size();
		keep.push_back(f.at);
		S.bytes += f.bytes;
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, S.bytes.size(), keep);
		f.bytes = S.bytes.substr(f.at);
		S.frames.push_back(f);
	}
	Reader R(0, S.bytes, max_len);
	for (size_t k = 0; !R.f.ended; k++) {
		R.step();
		CHECK(k <= S.bytes.size() / 8 + 16, "no progress after %zu reads of a stream of %zu bytes", k, S.bytes.size());
	}
	std::string bad = R.match(S, S.bytes.size());
	CHECK(bad.empty(), "buffer of %zu bytes, stream of %zu bytes: %s", max_len, S.bytes.size(), bad.c_str());
	nontrivial(mix64(S.bytes.size()) ^ hash_str(S.bytes.substr(0, 3000)));
}
// buffers of every size against one frame
static void t_size(Src &s) {
	Frame f = gen_frame(s, true);
	Frame g = gen_frame(s, true);
	Bytes noise;
	Stream S;
	bool p;
	S.bytes = gen_noise(s, &p);
	remove_starts(S.bytes, 0, S.bytes.size(), {});
	f.at = S.bytes.size();
	S.bytes += f.bytes;
	remove_starts(S.bytes, f.at + 1, S.bytes.size(), {});
	f.bytes = S.bytes.substr(f.at);
	g.at = S.bytes.size();
	S.bytes += g.bytes;
	remove_starts(S.bytes, f.at > 7 ? f.at - 7 : 0, S.bytes.size(), {f.at, g.at});
	f.bytes = S.bytes.substr(f.at, f.bytes.size());
	g.bytes = S.bytes.substr(g.at);
	S.frames = {f, g};
	size_t n = f.bytes.size();
	for (size_t m = 0; m <= n + 9; m++) {
		if (m > 40 && m + 20 < n && m % 7)
			continue;
		Reader R(0, S.bytes, m);
		if (m < 8) {
			R.step();
			CHECK(R.got.empty(), "a buffer of %zu bytes got a file of %zu bytes", m, R.got[0].size());
			continue;
		}
		for (size_t k = 0; !R.f.ended; k++) {
			R.step();
			CHECK(k <= S.bytes.size() + 16, "no progress with a buffer of %zu bytes", m);
		}
		std::string bad = R.match(S, S.bytes.size());
		CHECK(bad.empty(), "buffer of %zu bytes: %s | stream %s", m, bad.c_str(), hex(S.bytes, 700).c_str());
	}
	nontrivial(hash_str(S.bytes));
}
// start sequences behind every short prefix of escape and start bytes
static void t_prefix(Src &s) {
	Bytes fr = frame("abcd");
	unsigned n = 1 + (unsigned)s.below(12), x = (unsigned)s.below(1u << n);
	Bytes b;
	for (unsigned i = 0; i < n; i++)
		b += (x >> i & 1) ? '\x1b' : '\x01';
	Stream S;
	S.bytes = b + fr;
	remove_starts(S.bytes, 0, b.size(), {b.size()});
	Frame f;
	f.bytes = fr;
	f.at = b.size();
	S.frames = {f};
	Reader R(0, S.bytes, 64);
	while (!R.f.ended)
		R.step();
	std::string bad = R.match(S, S.bytes.size());
	CHECK(bad.empty(), "%s | stream %s", bad.c_str(), hex(S.bytes).c_str());
	nontrivial(hash_str(S.bytes));
}
// descriptor numbers beyond the size of an fd_set, and descriptors that cannot be read
static void t_descriptors(Src &s) {
	struct rlimit old, rl;
	getrlimit(RLIMIT_NOFILE, &old);
	rl = old;
	rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > 20000 ? 20000 : rl.rlim_max;
	setrlimit(RLIMIT_NOFILE, &rl);
	size_t max_len = gen_len(s);
	Stream S = gen_stream(s, max_len, 4, true);
	Faults f;
	std::vector<Bytes> got;
	unsigned kind = (unsigned)s.below(5);
	int fd = -1, low = -1;
	if (kind == 0) { // nothing to read
		static const int bad[] = {-1, 777, -5, 1023, 1024, 1500, INT_MIN, INT_MAX};
		fd = s.pick(bad);
		S.bytes.clear();
		S.frames.clear();
		label("invalid descriptor");
	} else {
		low = fd_with(S.bytes);
		int want = 1020 + (int)s.below(kind == 1 ? 12 : 18000);
		fd = want < (int)rl.rlim_cur ? dup2(low, want) : -1;
		if (fd < 0) {
			fd = low;
			low = -1;
		}
		label(fd >= 1024 ? "descriptor above 1023" : "descriptor below 1024");
	}
	f.fd = fd;
	faults[0] = &f;
	if (kind)
		gen_faults(s, f);
	std::vector<unsigned char> buf(max_len);
	for (size_t k = 0; !f.ended; k++) {
		size_t r = sml_transport_read(fd, buf.data(), max_len);
		CHECK(r <= max_len, "%zu bytes reported for a buffer of %zu", r, max_len);
		if (r)
			got.push_back(Bytes((char *)buf.data(), r));
		if (kind == 0)
			break;
		CHECK(k <= S.bytes.size() + 16, "no progress with descriptor %d", fd);
	}
	faults[0] = nullptr;
	if (kind)
		close(fd);
	if (low >= 0)
		close(low);
	setrlimit(RLIMIT_NOFILE, &old);
	std::string bad = match(S, got, max_len, S.bytes.size());
	CHECK(bad.empty(), "descriptor %d, buffer of %zu bytes: %s | stream %s", fd, max_len, bad.c_str(), hex(S.bytes, 700).c_str());
	if (!got.empty())
		nontrivial(hash_str(S.bytes) ^ (uint64_t)fd);
}
// buffers far larger than a stack
static void t_big(Src &s) {
	size_t max_len = (size_t)1 << (16 + s.below(11)); // up to 64 MB
	max_len -= s.below(9);
	Stream S = gen_stream(s, 400, 3, true, false);
	bool huge = s.chance(1, 200) && max_len > 10000000;
	if (huge) { // a file that needs the room
		Frame f;
		Bytes p = s.bytes(9000000);
		for (size_t i = 0; i + 4 <= p.size(); i += 4)
			if (!p.compare(i, 4, ESC))
				p[i] = 'y';
		f.bytes = frame(p);
		f.at = S.bytes.size();
		S.bytes += f.bytes;
		remove_starts(S.bytes, f.at > 7 ? f.at - 7 : 0, f.at, {});
		f.bytes = S.bytes.substr(f.at);
		S.frames.push_back(f);
	}
	for (auto &f : S.frames)
		if (f.k == Frame::GOOD && f.bytes.size() >= 400)
			return; // may hold start sequences that were left alone
	Reader R(0, S.bytes, max_len);
	for (size_t k = 0; !R.f.ended; k++) {
		R.step();
		CHECK(k <= S.bytes.size() + 16, "no progress");
	}
	std::string bad = R.match(S, S.bytes.size());
	CHECK(bad.empty(), "buffer of %zu bytes: %s | stream %s", max_len, bad.c_str(), hex(S.bytes, 700).c_str());
	if (!R.got.empty())
		nontrivial(hash_str(S.bytes) ^ max_len);
	label(max_len < 1000000 ? "buffer below 1 MB" : huge ? "buffer and file of several MB" : "buffer of several MB");
}
Prop the_prop() {
	return {"C11",
			{{"stream", t_stream, 150000, 3000000, "frames, damaged, oversized and cut frames in noise, fragmented and failing reads; non-trivial = a file was delivered", nullptr, true},
			 {"two", t_two, 40000, 800000, "two streams read in turns; non-trivial = both delivered files", nullptr, false},
			 {"live", t_live, 3000, 60000, "a stream that arrives piece by piece over a pipe or socket, blocking or not; non-trivial = a file was delivered", nullptr, false},
			 {"cut", t_cut, 2500, 50000, "every cut or error position of a stream; non-trivial = it has a frame", nullptr, false},
			 {"size", t_size, 4000, 80000, "two frames and every buffer size; every case is non-trivial", nullptr, false},
			 {"apart", t_apart, 64, 1024, "files behind up to megabytes of noise; every case is non-trivial", nullptr, false},
			 {"descriptors", t_descriptors, 20000, 400000, "high and invalid descriptor numbers; non-trivial = a file was delivered", nullptr, false},
			 {"big", t_big, 4000, 60000, "buffers of 64 kB to 64 MB; non-trivial = a file was delivered", nullptr, false},
			 {"prefix", t_prefix, 30000, 60000, "prefixes of escape and start bytes; every case is non-trivial", nullptr, false}}};
}
