// C13: listening delivers every framed file exactly once, in order, until the end
#define STREAM_FAULTS
#include "stream.h"

static const size_t LISTEN_BUF = 8096;
static std::vector<Bytes> got;
static Faults *cur;
static bool use_content;
static std::vector<std::string> content;

static void receiver(unsigned char *p, size_t n) {
	CHECK(n <= LISTEN_BUF, "%zu bytes delivered", n);
	got.push_back(Bytes((char *)p, n));
	CHECK(got.size() < 200000, "endless delivery");
	if (use_content) {
		CHECK(n >= 16, "a file of %zu bytes", n);
		sml_file *f = sml_file_parse(p + 8, n - 16);
		content.push_back(ldump_file(f));
		sml_file_free(f);
	}
	if (n % 3)
		memset(p, n % 3 == 1 ? 0xee : 0x1b, n);
	else
		for (size_t i = 0; i < n; i++)
			p[i] = (unsigned char)START[i % 8];
	// the buffer belongs to the receiver during the call
}
static void listen_to(int fd, Faults &f) {
	got.clear();
	content.clear();
	f.fd = fd;
	faults[0] = cur = &f;
	sml_transport_listen(fd, receiver);
	faults[0] = nullptr;
	CHECK(f.ended, "listening returned before the end of the stream");
}
static void t_stream(Src &s) {
	bool full = s.chance(1, 8);
	Stream S = gen_stream(s, full ? LISTEN_BUF : 200 + s.below(400), 8, false, full);
	Faults f;
	gen_faults(s, f);
	size_t avail = S.bytes.size();
	if (s.chance(1, 5)) {
		avail = s.below(avail + 1);
		f.fail_after = (long long)avail;
		static const int e[] = {EIO, EBADF, ENXIO, ECONNRESET};
		f.fail_errno = s.pick(e);
		label("read error");
	}
	use_content = false;
	LeakScope L;
	int fd = fd_with(S.bytes);
	listen_to(fd, f);
	close(fd);
	L.check("listening");
	std::string bad = match(S, got, LISTEN_BUF, avail);
	CHECK(bad.empty(), "%s | stream %s", bad.c_str(), hex(S.bytes, 700).c_str());
	bool optional;
	size_t good = 0, skipped = 0;
	for (auto &x : S.frames)
		(deliverable(x, LISTEN_BUF, avail, &optional) ? good : skipped)++;
	if (good && skipped)
		label("delivered files and skipped frames");
	if (good >= 2) {
		nontrivial(hash_str(S.bytes));
		sample(strf("stream %s -> %zu files", hex(S.bytes, 300).c_str(), got.size()));
	}
}
// many files, among them ones too large
static void t_large(Src &s) {
	Stream S;
	std::vector<size_t> keep;
	size_t n = 2 + s.below(12);
	bool p;
	for (size_t i = 0; i < n; i++) {
		size_t from = S.bytes.size();
		S.bytes += gen_noise(s, &p);
		size_t len;
		switch (s.below(4)) {
		case 0: len = LISTEN_BUF + 4 * (size_t)s.range(-6, 6); break;
		case 1: len = LISTEN_BUF + 4 * s.below(5000); break;
		case 2: len = 16 + 4 * s.below(2000); break;
		default: len = 16 + 4 * s.below(60);
		}
		Frame f = gen_frame(s, false, 0);
		Bytes pl = s.bytes(len - 16);
		for (size_t k = 0; k + 4 <= pl.size(); k += 4)
			if (!pl.compare(k, 4, ESC))
				pl[k] = 'x';
		f.bytes = frame(pl);
		f.at = S.bytes.size();
		keep.push_back(f.at);
		S.bytes += f.bytes;
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, S.bytes.size(), keep);
		f.bytes = S.bytes.substr(f.at);
		label(len > LISTEN_BUF ? "too large" : len + 24 > LISTEN_BUF ? "just fits" : "fits");
		S.frames.push_back(f);
	}
	Faults f;
	gen_faults(s, f);
	use_content = false;
	int fd = fd_with(S.bytes);
	listen_to(fd, f);
	close(fd);
	std::string bad = match(S, got, LISTEN_BUF, S.bytes.size());
	CHECK(bad.empty(), "%s", bad.c_str());
	nontrivial(hash_str(S.bytes));
}
// real files, parsed by the receiver
static void t_content(Src &s) {
	size_t n = 1 + s.below(6);
	Bytes stream;
	std::vector<std::string> want;
	std::vector<size_t> keep;
	bool p;
	for (size_t i = 0; i < n; i++) {
		Gen g;
		g.wire = true;
		std::vector<Node> m;
		std::vector<int> k;
		size_t from = stream.size();
		stream += gen_noise(s, &p);
		Bytes b = gen_file(s, g, 2, &m, nullptr, &k);
		while ((8 + b.size()) % 4 && s.flip())
			b += '\0';
		if (aligned_escape(b) || b.size() > 8000) {
			stream.resize(from);
			continue;
		}
		keep.push_back(stream.size());
		size_t at = stream.size();
		stream += frame(b);
		remove_starts(stream, from > 7 ? from - 7 : 0, at, keep);
		want.push_back(expect_file(m, k));
	}
	Faults f;
	gen_faults(s, f);
	use_content = true;
	LeakScope L;
	int fd = fd_with(stream);
	listen_to(fd, f);
	close(fd);
	L.check("listening and parsing");
	CHECK(content.size() == want.size(), "%zu of %zu files delivered | stream %s", content.size(), want.size(), hex(stream, 600).c_str());
	for (size_t i = 0; i < want.size(); i++)
		CHECK(content[i] == want[i], "file %zu: %s | stream %s", i, first_diff(want[i], content[i]).c_str(), hex(stream, 600).c_str());
	if (want.size() > 1)
		nontrivial(hash_str(stream));
}
// files that arrive while the listener waits
static void t_live(Src &s) {
	bool full = s.chance(1, 4);
	Stream S = gen_stream(s, full ? LISTEN_BUF : 200 + s.below(400), 6, false, full);
	Faults f;
	use_content = false;
	{
		Live l(s, S.bytes);
		listen_to(l.r, f);
		if (l.pauses)
			label("with a long pause");
	}
	std::string bad = match(S, got, LISTEN_BUF, S.bytes.size());
	CHECK(bad.empty(), "%s | stream %s", bad.c_str(), hex(S.bytes, 700).c_str());
	CHECK(f.reads <= 3 * S.bytes.size() + 3000, "%llu reads for a stream of %zu bytes: waiting for input is not waited for", (unsigned long long)f.reads,
		  S.bytes.size());
	if (!got.empty())
		nontrivial(hash_str(S.bytes));
}
// one stream of very many small files
static void t_many(Src &s) {
	size_t n = s.chance(1, 12) ? 65000 + s.below(60000) : 2000 + s.below(8000);
	Stream S;
	bool p;
	std::vector<Bytes> w;
	static const size_t RUN[] = {0, 20, 300, 3000};
	size_t run_at = s.below(n), run = s.pick(RUN);
	bool overlong = s.chance(1, 3);
	Bytes longer;
	if (overlong) {
		run = std::min<size_t>(run, 300);
		longer = START;
		while (longer.size() < LISTEN_BUF + 100)
			longer += "....";
		longer += ESC + Bytes("\x1a\0\0\0", 4);
	}
	for (size_t i = 0; i < n; i++) {
		if (i == run_at) // many in a row that cannot be delivered
			for (size_t k = 0; k < run; k++) {
				Bytes x = overlong ? longer : START + Bytes(4 * (k % 3), (char)k) + ESC + Bytes("\x03\0\0\0", 4);
				S.bytes += x;
			}
		Bytes b = Bytes((const char *)&i, 4) + Bytes(4 * (i % 5), (char)i);
		if (aligned_escape(b))
			b = "xxxx";
		w.push_back(frame(b));
		S.bytes += w.back();
		if (i % 16 == 3) {
			size_t from = S.bytes.size();
			S.bytes += gen_noise(s, &p);
			remove_starts(S.bytes, from - 7, S.bytes.size(), {});
		}
		if (i % 64 == 7) { // a damaged one
			Frame f = gen_damaged(s);
			size_t at = S.bytes.size();
			S.bytes += f.bytes;
			remove_starts(S.bytes, at > 7 ? at - 7 : 0, S.bytes.size(), {at});
		}
	}
	Faults f;
	use_content = false;
	int fd = fd_with(S.bytes);
	listen_to(fd, f);
	close(fd);
	CHECK(got.size() == w.size(), "%zu of %zu files delivered, with %zu frames in a row that cannot be", got.size(), w.size(), run);
	for (size_t i = 0; i < n; i++)
		CHECK(got[i] == w[i], "file %zu of %zu differs", i, n);
	nontrivial(hash_str(S.bytes));
	label(run == 0 ? "no run of bad frames" : overlong ? "run of overlong frames" : "run of damaged frames");
}
// files far apart
static void t_apart(Src &s) {
	Stream S;
	std::vector<size_t> keep;
	std::vector<Bytes> want;
	for (size_t n = 1 + s.below(3); n > 0; n--) {
		size_t from = S.bytes.size();
		S.bytes += gen_long_noise(s);
		Frame f = gen_frame(s, false, 16 + 4 * s.below(50));
		f.at = S.bytes.size();
		keep.push_back(f.at);
		S.bytes += f.bytes;
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, S.bytes.size(), keep);
		f.bytes = S.bytes.substr(f.at);
		S.frames.push_back(f);
	}
	Faults f;
	use_content = false;
	int fd = fd_with(S.bytes);
	listen_to(fd, f);
	close(fd);
	std::string bad = match(S, got, LISTEN_BUF, S.bytes.size());
	CHECK(bad.empty(), "in a stream of %zu bytes: %s", S.bytes.size(), bad.c_str());
	nontrivial(mix64(S.bytes.size()) ^ hash_str(S.bytes.substr(0, 3000)));
}
// a receiver that uses the library itself: reads on, listens to another stream, sends
static struct Nested {
	Src *s;
	int fd[2];
	const Stream *st[2];
	Faults *f[2];
	std::vector<Bytes> got[2];
	bool done = false; // the other stream was listened to
	size_t inner = 0, ahead = 0, sent = 0;
} *nest;
static void inner_receiver(unsigned char *p, size_t n) {
	nest->got[1].push_back(Bytes((char *)p, n));
	memset(p, 0x1b, n);
}
static void outer_receiver(unsigned char *p, size_t n) {
	Nested &N = *nest;
	Bytes mine((char *)p, n);
	N.got[0].push_back(mine);
	CHECK(N.got[0].size() < 10000, "endless delivery");
	switch (N.s->below(5)) {
	case 0: // the next file of the same stream
		for (size_t k = 1 + N.s->below(2); k > 0; k--) {
			std::vector<unsigned char> b(LISTEN_BUF);
			size_t r = sml_transport_read(N.fd[0], b.data(), b.size());
			CHECK(r <= b.size(), "%zu bytes read", r);
			if (r) {
				N.got[0].push_back(Bytes((char *)b.data(), r));
				N.ahead++;
			}
		}
		break;
	case 1:
		if (!N.done) {
			N.done = true;
			sml_transport_listen(N.fd[1], inner_receiver);
			CHECK(N.f[1]->ended, "listening to the other stream returned before its end");
			N.inner++;
		}
		break;
	case 2: {
		int p2[2];
		if (pipe(p2))
			abort();
		sml_file *x = sml_file_init();
		CHECK(sml_transport_write(p2[1], x) == 16, "sending an empty file");
		sml_file_free(x);
		close(p2[1]);
		Bytes e(17, 0);
		CHECK(read(p2[0], &e[0], 17) == 16 && e.substr(0, 16) == frame(""), "what was sent meanwhile: %s", hex(e).c_str());
		close(p2[0]);
		N.sent++;
		break;
	}
	default: break;
	}
	CHECK(!memcmp(p, mine.data(), n), "the delivered bytes changed during the call: %s instead of %s", hex(Bytes((char *)p, n), 300).c_str(), hex(mine, 300).c_str());
}
static void t_nested(Src &s) {
	Stream S[2];
	Faults f[2];
	Nested N;
	LeakScope L;
	N.s = &s;
	for (int i = 0; i < 2; i++) {
		S[i] = gen_stream(s, 200 + s.below(200), 8, false, false);
		gen_faults(s, f[i]);
		N.fd[i] = f[i].fd = fd_with(S[i].bytes);
		N.st[i] = &S[i];
		N.f[i] = faults[i] = &f[i];
	}
	nest = &N;
	sml_transport_listen(N.fd[0], outer_receiver);
	CHECK(f[0].ended, "listening returned before the end of the stream");
	for (int i = 0; i < 2; i++) {
		faults[i] = nullptr;
		close(N.fd[i]);
		std::string bad = i == 0 || N.done ? match(S[i], N.got[i], LISTEN_BUF, S[i].bytes.size()) : "";
		CHECK(bad.empty(), "%s stream (%zu nested, %zu read on, %zu sent): %s | stream %s", i ? "inner" : "outer", N.inner, N.ahead, N.sent, bad.c_str(),
			  hex(S[i].bytes, 700).c_str());
	}
	L.check("listening with a receiver that uses the library");
	if (N.inner + N.ahead + N.sent)
		nontrivial(hash_str(S[0].bytes));
	if (N.inner)
		label("listened to another stream");
	if (N.ahead)
		label("read on");
	if (N.sent)
		label("sent");
}
Prop the_prop() {
	return {"C13",
			{{"stream", t_stream, 120000, 2400000, "good, damaged and cut frames in noise, fragmented and failing reads; non-trivial = at least two files to deliver", nullptr, true},
			 {"large", t_large, 1600, 40000, "frames around and above the size of the receive buffer; every case is non-trivial", nullptr, false},
			 {"content", t_content, 40000, 800000, "real files parsed by the receiver; non-trivial = at least two files", nullptr, false},
			 {"live", t_live, 3000, 60000, "the same, arriving piece by piece over a pipe or socket, blocking or not; non-trivial = a file was delivered", nullptr, false},
			 {"nested", t_nested, 40000, 800000, "receivers that read on, listen to another stream or send; non-trivial = one did", nullptr, false},
			 {"apart", t_apart, 64, 1024, "files behind up to megabytes of noise; every case is non-trivial", nullptr, false},
			 {"many", t_many, 64, 1024, "thousands to a hundred thousand of files in one stream; every case is non-trivial", nullptr, false}}};
}
