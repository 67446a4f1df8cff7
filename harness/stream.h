// Byte streams with transport frames, for the checks of the transport layer.
#pragma once
#include "bridge.h"
#include "mutate.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/types.h>
#include <unistd.h>

static const Bytes ESC("\x1b\x1b\x1b\x1b", 4), START("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8);

// ---------------------------------------------------------------- the descriptor

// a real descriptor with the given content, then end of file
static int fd_with(const Bytes &b) {
	if (b.size() <= 60000) {
		int p[2];
		if (pipe(p))
			abort();
		if (!b.empty() && write(p[1], b.data(), b.size()) != (ssize_t)b.size())
			abort();
		close(p[1]);
		return p[0];
	}
	int fd = memfd_create("stream", 0);
	if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size() || lseek(fd, 0, SEEK_SET))
		abort();
	return fd;
}

#ifdef STREAM_FAULTS
// what the library's read and select calls do, per descriptor
struct Faults {
	int fd = -1;
	std::vector<int> script; // cycled: >0 at most so many bytes, -1 EINTR, -2 EAGAIN
	size_t at = 0, sel = 0;
	bool sel_eintr = false;
	unsigned slow = 0; // every so many times a wait with a time limit ends without input
	uint64_t waits = 0;
	long long fail_after = -1; // bytes until reading fails for good
	int fail_errno = EIO;
	long long given = 0;
	bool ended = false; // end of file or the failure was reported
	uint64_t storm_at = 0; // from this read on ...
	unsigned storm = 0;    // ... so many fail with
	int storm_errno = EAGAIN;
	uint64_t reads = 0;
};
static Faults *faults[4];
static Faults *faults_of(int fd) {
	for (auto *f : faults)
		if (f && f->fd == fd)
			return f;
	return nullptr;
}
extern "C" {
ssize_t __real_read(int, void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
ssize_t __wrap_read(int fd, void *p, size_t n) {
	Faults *f = faults_of(fd);
	if (!f)
		return __real_read(fd, p, n);
	f->reads++;
	if (f->reads > 20000000)
		fail("endless reading: 20000000 reads of a stream of %lld bytes", f->given);
	if (f->storm && f->reads > f->storm_at) {
		f->storm--;
		errno = f->storm_errno;
		return -1;
	}
	if (!f->script.empty()) {
		int op = f->script[f->at++ % f->script.size()];
		if (op < 0) {
			errno = op == -1 ? EINTR : EAGAIN;
			return -1;
		}
		if (n > (size_t)op)
			n = (size_t)op;
	}
	if (f->fail_after >= 0) {
		if (f->given >= f->fail_after) {
			f->ended = true;
			errno = f->fail_errno;
			return -1;
		}
		if ((long long)n > f->fail_after - f->given)
			n = (size_t)(f->fail_after - f->given);
	}
	ssize_t r = __real_read(fd, p, n);
	if (r > 0)
		f->given += r;
	if (r == 0 && n)
		f->ended = true;
	return r;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	for (auto *f : faults)
		if (f && r && n == f->fd + 1 && FD_ISSET(f->fd, r)) {
			if (f->sel_eintr && f->sel++ % 3 == 1) {
				errno = EINTR;
				return -1;
			}
			if (f->slow && t && (t->tv_sec || t->tv_usec) && ++f->waits % f->slow == 0) {
				FD_ZERO(r);
				t->tv_sec = t->tv_usec = 0;
				return 0;
			}
			break;
		}
	return __real_select(n, r, w, e, t);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	Faults *f = n == 1 ? faults_of(p->fd) : nullptr;
	if (f && f->sel_eintr && f->sel++ % 3 == 1) {
		errno = EINTR;
		return -1;
	}
	if (f && f->slow && t > 0 && ++f->waits % f->slow == 0) {
		p->revents = 0;
		return 0;
	}
	int r = __real_poll(p, n, t);
	if (f && r > 0 && (p->revents & POLLHUP) && !(p->revents & POLLIN))
		f->ended = true; // a reader may leave it at that
	return r;
}
}
static void gen_faults(Src &s, Faults &f) {
	size_t n = s.below(6);
	bool progress = false;
	for (size_t i = 0; i < n; i++) {
		static const int op[] = {4, 1, 2, 3, -1, -2, 5, 1000};
		f.script.push_back(s.pick(op));
		progress |= f.script.back() > 0;
	}
	if (n && !progress)
		f.script.push_back(1 + (int)s.below(4));
	f.sel_eintr = s.chance(1, 4);
	if (s.chance(1, 4))
		f.slow = 2 + (unsigned)s.below(6);
	if (s.chance(1, 40)) { // nothing arrives for long
		f.storm_at = s.below(60);
		static const unsigned len[] = {20, 70, 300, 1100, 5000};
		f.storm = s.pick(len);
		f.storm_errno = s.flip() ? EINTR : EAGAIN;
		label("many interrupted or would-block reads in a row");
	}
	if (n)
		label("with fragmented or interrupted reads");
}
#endif

// a stream that arrives over time, from another thread
struct Live {
	int r = -1, w = -1;
	int stdin_was = -1; // when r is descriptor 0
	Bytes data;
	std::vector<std::pair<size_t, unsigned>> pieces; // size, pause in front of it in microseconds
	bool pauses = false;
	pthread_t t;
	static void *run(void *p) {
		Live *l = (Live *)p;
		size_t at = 0, i = 0;
		while (at < l->data.size()) {
			auto pc = i < l->pieces.size() ? l->pieces[i++] : std::make_pair(l->data.size(), 0u);
			if (pc.second)
				usleep(pc.second);
			size_t n = std::min(pc.first, l->data.size() - at);
			while (n) {
				ssize_t k = write(l->w, l->data.data() + at, n);
				if (k <= 0)
					break; // the reader is gone
				at += (size_t)k;
				n -= (size_t)k;
			}
			if (n)
				break;
		}
		close(l->w);
		return nullptr;
	}
	Live(Src &s, const Bytes &b) : data(b) {
		int p[2];
		if (s.flip()) {
			if (socketpair(AF_UNIX, SOCK_STREAM, 0, p))
				abort();
			label("socket");
		} else {
			if (pipe(p))
				abort();
			label("pipe");
		}
		r = p[0];
		w = p[1];
		if (s.flip()) {
			fcntl(r, F_SETFL, O_NONBLOCK);
			label("non-blocking");
		}
		if (r > 0 && w > 0 && s.chance(1, 4)) { // as standard input
			stdin_was = fcntl(0, F_DUPFD, 3);
			if (stdin_was >= 0) {
				if (dup2(r, 0) != 0)
					abort();
				close(r);
				r = 0;
				label("standard input");
			}
		}
		size_t n = s.below(8), step = 1 + s.below(b.size() / 4 + 1);
		for (size_t i = 0; i < n; i++)
			pieces.push_back({1 + s.below(step), (unsigned)s.below(200)});
		if (n && s.chance(1, 4)) {
			pieces[s.below(n)].second = 40000;
			pauses = true;
		}
		signal(SIGPIPE, SIG_IGN);
		if (pthread_create(&t, nullptr, run, this))
			abort();
	}
	~Live() {
		if (stdin_was >= 0) {
			dup2(stdin_was, 0);
			close(stdin_was);
		} else
			close(r);
		pthread_join(t, nullptr);
	}
};

// ---------------------------------------------------------------- stream contents

struct Frame {
	Bytes bytes;
	enum K { GOOD, DAMAGED, CUT } k = GOOD;
	size_t at = 0; // offset in the stream
};
struct Stream {
	Bytes bytes;
	std::vector<Frame> frames;
	bool partial_start = false, cut = false; // cut: the last frame, not listed, has no end
};

static bool aligned_escape(const Bytes &b, size_t from = 0) {
	for (size_t i = from; i + 4 <= b.size(); i += 4)
		if (!b.compare(i, 4, ESC))
			return true;
	return false;
}
// bytes between frames; resembles frames and start sequences
static Bytes gen_noise(Src &s, bool *partial) {
	Bytes b;
	for (size_t k = s.below(4); k > 0; k--) {
		switch (s.below(9)) {
		case 0: b += s.bytes(s.below(20)); break;
		case 1: b.append(1 + s.below(9), '\x1b'); *partial = true; break;
		case 2: // an incomplete start sequence
			b.append(1 + s.below(6), '\x1b');
			b.append(s.below(4), '\x01');
			*partial = true;
			break;
		case 3: b.append(1 + s.below(9), '\x01'); break;
		case 4: b += ESC + Bytes(1, '\x1a') + s.bytes(3); break; // an end sequence
		case 5: b += Bytes(s.below(3), '\x1b') + Bytes("\x02"); break;
		case 6: b.append(s.below(40), '\0'); break;
		case 7: { // a start sequence with one byte changed
			Bytes x = START;
			x[s.below(8)] = (char)s.below(256);
			b += x;
			*partial = true;
			break;
		}
		default: // alternations
			for (size_t i = s.below(10); i > 0; i--)
				b += s.flip() ? '\x1b' : '\x01';
			*partial = true;
		}
	}
	return b;
}
// up to some megabytes of it
static Bytes gen_long_noise(Src &s) {
	static const size_t at[] = {4096, 8096, 65536, 100000, 1 << 20, 2000000};
	size_t n = s.chance(1, 3) ? s.below(3000000) : s.pick(at) + s.below(3000);
	Bytes b, piece;
	bool p;
	switch (s.below(4)) {
	case 0: piece = Bytes(1, (char)s.below(256)); break;
	case 1: piece = s.bytes(1 + s.below(300)); break;
	case 2: piece = Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01"); break;
	default:
		while (piece.size() < 40)
			piece += gen_noise(s, &p) + "x";
	}
	while (b.size() < n)
		b += piece;
	b.resize(n);
	return b;
}
static void remove_starts(Bytes &b, size_t from, size_t to, const std::vector<size_t> &keep) {
	// breaks every start sequence in [from, to) that is not meant to be there
	for (size_t i = from; i < to;) {
		i = b.find(START, i);
		if (i == Bytes::npos || i >= to)
			return;
		bool ok = false;
		for (size_t k : keep)
			ok |= k == i;
		if (!ok)
			b[i + 7] = '\x02';
		i++;
	}
}
// payload of a frame: a multiple of four bytes without an aligned escape sequence
static Bytes gen_payload(Src &s, bool tricky, size_t size_hint) {
	Bytes p;
	if (size_hint)
		p = s.bytes(size_hint);
	else
		switch (s.below(5)) {
		case 0: p = s.bytes(4 * s.below(8)); break;
		case 1: {
			Gen g;
			g.wire = s.flip();
			g.budget = 40;
			p = gen_file(s, g, 2);
			break;
		}
		case 2: p = s.bytes(s.below(500)); break;
		case 3: // rich in escape bytes
			for (size_t n = s.below(60); n > 0; n--) {
				static const char c[] = {'\x1b', '\x1b', '\x1b', '\x01', '\x1a', '\0', 'x'};
				p += s.pick(c);
			}
			break;
		default: break;
		}
	if (tricky && p.size() > 24 && s.flip()) {
		// an escape, end or start sequence that is not aligned
		static const char *const t[] = {"\x1b\x1b\x1b\x1b\x1a\x01\x02\x03", "\x1b\x1b\x1b\x1b\x01\x01\x01\x01",
										"\x1b\x1b\x1b\x1b\x1b\x1b\x1b"};
		Bytes x = s.pick(t);
		size_t i = 4 * s.below(p.size() / 4 - 4) + 1 + s.below(3);
		p.replace(i, x.size(), x);
	}
	while (p.size() % 4)
		p += '\0';
	for (size_t i = 0; i + 4 <= p.size(); i += 4)
		if (!p.compare(i, 4, ESC))
			p[i + s.below(4)] = 'y';
	return p;
}
static Frame gen_frame(Src &s, bool random_tail, size_t size_hint = 0) {
	Frame f;
	Bytes p = gen_payload(s, true, size_hint);
	f.bytes = frame(p);
	if (random_tail && s.chance(1, 3)) {
		Bytes t = s.bytes(3);
		f.bytes.replace(f.bytes.size() - 3, 3, t);
	} else if (s.chance(1, 3)) { // announce padding
		size_t n = s.below(4);
		if (p.size() >= 4) {
			for (size_t i = 0; i < n; i++)
				p[p.size() - 1 - i] = '\0';
			p.resize(p.size() - n);
			f.bytes = frame(p);
		}
	}
	return f;
}
static Frame gen_damaged(Src &s) {
	Frame f;
	f.k = Frame::DAMAGED;
	f.bytes = START + gen_payload(s, false, 0) + ESC;
	Bytes x = s.bytes(4);
	if (x[0] == 0x1a || x[0] == 0x01 || x[0] == 0x1b)
		x[0] = '\x02';
	f.bytes += x;
	if (s.flip())
		f.bytes += gen_payload(s, false, 0) + ESC + Bytes(1, '\x1a') + s.bytes(3);
	return f;
}
// max_len: frames around this size are made, and the ones that do not fit are kept free of start sequences
// breaks: whether frames beyond max_len may be broken off (only if that is the size of the reader's buffer)
static Stream gen_stream(Src &s, size_t max_len, size_t max_frames, bool random_tail, bool breaks = true) {
	Stream S;
	size_t n = s.below(max_frames + 1);
	std::vector<size_t> keep;
	for (size_t i = 0; i < n; i++) {
		size_t from = S.bytes.size();
		S.bytes += gen_noise(s, &S.partial_start);
		Frame f;
		switch (s.below(8)) {
		case 0: f = gen_damaged(s); label("frame: damaged"); break;
		case 1: { // around the size of the buffer
			long long p = (long long)max_len - 16 + s.range(-24, 24);
			p -= p % 4;
			f = gen_frame(s, random_tail, p > 0 ? (size_t)p : 0);
			label("frame: about the buffer size");
			break;
		}
		case 2: // much longer
			if (s.chance(1, 4)) {
				f = gen_frame(s, random_tail, 4 * (max_len / 4 + s.below(max_len / 2 + 50)));
				label("frame: longer than the buffer");
				if (breaks && s.flip()) { // and broken off, so that there is no end
					f.bytes.resize(std::max<size_t>(max_len + 32, 32) + s.below(9));
					if (s.flip())
						f.bytes.append(4 * s.below(max_len / 4), 'z');
					for (size_t k = 8; k + 4 <= f.bytes.size(); k += 4)
						if (!f.bytes.compare(k, 4, ESC))
							f.bytes[k] = 'y';
					f.k = Frame::DAMAGED;
					label("frame: longer than the buffer and broken off");
				}
				break;
			} // fall through
		default: f = gen_frame(s, random_tail);
		}
		f.at = S.bytes.size();
		S.bytes += f.bytes;
		keep.push_back(f.at);
		if (f.k == Frame::GOOD && f.bytes.size() < max_len)
			; // anything inside is part of it
		else
			remove_starts(S.bytes, f.at + 1, S.bytes.size(), keep);
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, f.at, keep);
		f.bytes = S.bytes.substr(f.at, f.bytes.size());
		S.frames.push_back(f);
	}
	size_t from = S.bytes.size();
	S.bytes += gen_noise(s, &S.partial_start);
	if (s.chance(1, 3) && n) { // the last frame is cut short
		Frame f = gen_frame(s, random_tail);
		f.bytes.resize(s.below(f.bytes.size()));
		keep.push_back(S.bytes.size());
		S.bytes += f.bytes;
		S.cut = true;
		label("frame: cut off by the end of the stream");
	}
	remove_starts(S.bytes, from > 7 ? from - 7 : 0, S.bytes.size(), keep);
	return S;
}
// the frames a reader with this buffer has to deliver; those of exactly the buffer size are optional
static bool deliverable(const Frame &f, size_t max_len, size_t available, bool *optional) {
	*optional = f.bytes.size() == max_len;
	return f.k == Frame::GOOD && f.bytes.size() <= max_len && f.at + f.bytes.size() <= available;
}
// compares what was delivered with what had to be
static std::string match(const Stream &S, const std::vector<Bytes> &got, size_t max_len, size_t available) {
	size_t g = 0;
	for (size_t i = 0; i < S.frames.size(); i++) {
		const Frame &f = S.frames[i];
		bool optional;
		if (!deliverable(f, max_len, available, &optional))
			continue;
		if (g < got.size() && got[g] == f.bytes)
			g++;
		else if (!optional)
			return g < got.size() ? strf("file %zu at offset %zu of %zu bytes: delivered %zu other bytes %s instead of %s", i, f.at, f.bytes.size(), got[g].size(),
										 hex(got[g], 300).c_str(), hex(f.bytes, 300).c_str())
								  : strf("file %zu at offset %zu of %zu bytes was not delivered: %s", i, f.at, f.bytes.size(), hex(f.bytes, 300).c_str());
	}
	if (g < got.size())
		return strf("%zu unexpected bytes were delivered: %s", got[g].size(), hex(got[g], 300).c_str());
	return "";
}
