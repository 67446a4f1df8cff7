// C17: the example server prints each reading correctly and survives any stream
#include "stream.h"
#include <cmath>
#include <getopt.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

extern "C" int sml_server_main(int argc, char **argv); // main() of the example

static const struct { int code; const char *name; } UNITS[] = {
#include "units.inc"
};
struct Run {
	std::string out;
	bool ok;
	std::string how;
};
static Run serve(const Bytes &stream, bool single, bool verbose) {
	static int in = memfd_create("in", 0), outf = memfd_create("out", 0);
	if (ftruncate(in, 0) || ftruncate(outf, 0))
		abort();
	lseek(in, 0, SEEK_SET);
	lseek(outf, 0, SEEK_SET);
	if (pwrite(in, stream.data(), stream.size(), 0) != (ssize_t)stream.size())
		abort();
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct itimerval tv = {{0, 0}, {20, 0}};
		setitimer(ITIMER_PROF, &tv, nullptr);
		dup2(in, 0);
		dup2(outf, 1);
		char name[] = "sml_server", s[] = "-s", v[] = "-v", dev[] = "-";
		char *argv[5];
		int argc = 0;
		argv[argc++] = name;
		if (single)
			argv[argc++] = s;
		if (verbose)
			argv[argc++] = v;
		argv[argc++] = dev;
		argv[argc] = nullptr;
		optind = 0;
		int r = sml_server_main(argc, argv);
		fflush(stdout);
		_exit(r);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	Run R;
	R.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	if (!R.ok)
		R.how = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 99 ? "sanitizer report" : strf("exit status %d", WEXITSTATUS(st));
	off_t n = lseek(outf, 0, SEEK_END);
	R.out.resize((size_t)n);
	if (n && pread(outf, &R.out[0], (size_t)n, 0) != n)
		abort();
	return R;
}
// an expected line: prefix, and a number to be compared with some tolerance, or plain text
struct Line {
	std::string text;         // everything, if exact
	std::string prefix, tail; // else
	bool exact = true;
	long double value = 0;
	int prec = 0;
};
static std::string magnitude(const Node &v) { // decimal digits of the absolute value
	unsigned __int128 a;
	if (v.sgn && v.sv() < 0)
		a = (unsigned __int128)(-(__int128)v.sv());
	else
		a = v.v;
	std::string d;
	do
		d.insert(d.begin(), (char)('0' + (int)(a % 10)));
	while (a /= 10);
	return d;
}
static bool usable(const Node &e) { // excludes what is listed as known findings
	const Node &v = e.c[5];
	if (v.k == Node::ABSENT)
		return true;
	if (e.c[0].k != Node::OCT || e.c[0].b.size() < 6)
		return false;
	if (v.k == Node::OCT && v.b.empty())
		return false;
	return v.k != Node::BOOL || v.v; // true is printed right
}
static bool expect_entry(const Node &e, Line &l) {
	const Node &v = e.c[5];
	if (v.k == Node::ABSENT)
		return false;
	const Bytes &o = e.c[0].b;
	std::string head = strf("%d-%d:%d.%d.%d*%d#", (uint8_t)o[0], (uint8_t)o[1], (uint8_t)o[2], (uint8_t)o[3], (uint8_t)o[4], (uint8_t)o[5]);
	if (v.k == Node::OCT) {
		std::string t;
		size_t i = 0;
		while (i < v.b.size() && (uint8_t)v.b[i] >= 0x21 && (uint8_t)v.b[i] <= 0x7a)
			t += v.b[i++];
		for (; i < v.b.size(); i++)
			t += strf("%02x ", (uint8_t)v.b[i]);
		l.text = head + t + "#";
		return true;
	}
	if (v.k == Node::BOOL) {
		l.text = head + (v.v ? "true" : "false") + "#";
		return true;
	}
	int scaler = e.c[4].k == Node::NUM ? (int)e.c[4].sv() : 0;
	std::string unit;
	if (e.c[3].k == Node::NUM)
		for (auto &u : UNITS)
			if ((uint64_t)u.code == e.c[3].v)
				unit = u.name;
	std::string d = magnitude(v), sign = v.sgn && v.sv() < 0 ? "-" : "";
	bool small = d.size() <= 14;
	l.prefix = head;
	l.tail = "#" + unit;
	if (scaler <= 0 && small) {
		std::string t = d;
		size_t k = (size_t)-scaler;
		if (k) {
			if (t.size() <= k)
				t.insert(0, k + 1 - t.size(), '0');
			t.insert(t.size() - k, ".");
		}
		l.text = head + sign + t + l.tail;
		return true;
	}
	if (scaler > 0 && (d == "0" || (small && d.size() + (size_t)scaler <= 15))) {
		l.text = head + sign + (d == "0" ? d : d + std::string((size_t)scaler, '0')) + l.tail;
		return true;
	}
	l.exact = false;
	l.prec = scaler < 0 ? -scaler : 0;
	l.value = (v.sgn ? (long double)v.sv() : (long double)v.v) * powl(10, scaler);
	return true;
}
static std::string cmp_line(const Line &l, const std::string &got) {
	if (l.exact)
		return l.text == got ? "" : strf("expected '%s', got '%s'", shortstr(l.text, 400).c_str(), shortstr(got, 400).c_str());
	if (got.compare(0, l.prefix.size(), l.prefix) != 0 || got.size() < l.prefix.size() + l.tail.size() ||
		got.compare(got.size() - l.tail.size(), l.tail.size(), l.tail) != 0)
		return strf("expected '%s...%s', got '%s'", l.prefix.c_str(), l.tail.c_str(), shortstr(got, 400).c_str());
	std::string num = got.substr(l.prefix.size(), got.size() - l.prefix.size() - l.tail.size());
	char *end;
	long double x = strtold(num.c_str(), &end);
	size_t dot = num.find('.'), dec = dot == std::string::npos ? 0 : num.size() - dot - 1;
	if (*end || num.find_first_not_of("-0123456789.") != std::string::npos)
		return strf("'%s' is no number", shortstr(num, 400).c_str());
	if ((int)dec != l.prec)
		return strf("'%s' has %zu decimals instead of %d", shortstr(num, 400).c_str(), dec, l.prec);
	long double tol = fabsl(l.value) * 4e-16L * 4;
	if (fabsl(x - l.value) > tol)
		return strf("'%s' instead of %.20Lg", shortstr(num, 400).c_str(), l.value);
	return "";
}
// compares the output; verbose output has other lines in between
static void check_output(const Run &R, const std::vector<std::vector<Line>> &lists, bool single, bool verbose, const Bytes &stream) {
	CHECK(R.ok, "the server ended with %s | stream %s", R.how.c_str(), hex(stream, 1500).c_str());
	std::vector<Line> want;
	for (auto &l : lists) {
		for (auto &x : l)
			want.push_back(x);
		if (single)
			break;
	}
	std::vector<std::string> got;
	size_t i = 0;
	while (i < R.out.size()) {
		size_t e = R.out.find('\n', i);
		CHECK(e != std::string::npos, "an incomplete line of output: %s", R.out.substr(i).c_str());
		std::string l = R.out.substr(i, e - i);
		i = e + 1;
		if (!verbose || l.find('#') != std::string::npos)
			got.push_back(l);
	}
	for (size_t k = 0; k < want.size() && k < got.size(); k++) {
		std::string bad = cmp_line(want[k], got[k]);
		CHECK(bad.empty(), "line %zu: %s | stream %s", k, bad.c_str(), hex(stream, 1500).c_str());
	}
	CHECK(got.size() == want.size(), "%zu lines instead of %zu: %s | stream %s", got.size(), want.size(),
		  shortstr(got.size() > want.size() ? got[want.size()] : want[got.size()].text, 400).c_str(), hex(stream, 1500).c_str());
}
static Node gen_entry(Src &s) {
	Gen g;
	g.wire = true;
	Node e = gen(s, g, T_ENTRY);
	e.c[0] = Node::oct(s.bytes(6 + (s.chance(1, 10) ? s.below(4) : 0)));
	if (s.chance(3, 4)) { // a plausible reading
		e.c[4] = s.chance(1, 8) ? Node::absent() : Node::num(true, 1, (uint64_t)s.range(-6, 5));
		e.c[3] = s.chance(1, 8) ? Node::absent() : Node::num(false, 1, s.below(256));
		if (s.chance(2, 3)) {
			bool sgn = s.flip();
			int w = 1 << s.below(4);
			e.c[5] = Node::num(sgn, w, s.interesting(w));
		}
	}
	if (!usable(e))
		e.c[5] = Node::boolean(true);
	return e;
}
static Node list_message(Src &s, const Node &list) {
	Gen g;
	g.wire = true;
	Node m = gen_message_of(s, g, 12);
	m.c[3].c[1].c[4] = list;
	return m;
}
static std::vector<Line> lines_of(const Node &list) {
	std::vector<Line> v;
	for (auto &e : list.c) {
		Line l;
		if (expect_entry(e, l))
			v.push_back(l);
	}
	return v;
}
static void t_readings(Src &s) {
	Bytes stream;
	std::vector<std::vector<Line>> lists;
	std::vector<size_t> keep;
	size_t files = 1 + s.below(4);
	bool p, neg = false;
	for (size_t i = 0; i < files; i++) {
		size_t from = stream.size();
		stream += gen_noise(s, &p);
		Bytes b;
		std::vector<std::vector<Line>> here;
		for (size_t k = 1 + s.below(3); k > 0; k--) {
			if (s.chance(1, 3)) {
				Gen g;
				g.wire = true;
				g.budget = 30;
				int kind = (int)s.below(13);
				if (kind == 12)
					kind = 13;
				b += encode_message(gen_message_of(s, g, kind)); // another kind of message
				continue;
			}
			Node list = Node::list();
			for (size_t j = 1 + s.below(6); j > 0; j--) {
				list.c.push_back(gen_entry(s));
				neg |= list.c.back().c[5].k == Node::NUM && list.c.back().c[5].sgn && list.c.back().c[5].sv() < 0;
			}
			MsgOpt o;
			o.crc = s.chance(1, 10) ? 2 : s.chance(1, 8);
			if (o.crc == 2)
				label("a message with a wrong checksum");
			else
				here.push_back(lines_of(list));
			Node m = list_message(s, list);
			if (o.crc == 2) // neither of the accepted checksums
				for (o.xor_crc = (uint16_t)(1 + s.below(65535)); (crc_of_message(m, 0) ^ o.xor_crc) == crc_of_message(m, 1);)
					o.xor_crc = o.xor_crc == 1 ? 2 : 1;
			b += encode_message(m, o);
			b.append(s.below(2), '\0');
		}
		if (aligned_escape(b) || b.size() > 8000) {
			stream.resize(from);
			continue;
		}
		keep.push_back(stream.size());
		size_t at = stream.size();
		stream += frame(b);
		remove_starts(stream, from > 7 ? from - 7 : 0, at, keep);
		lists.insert(lists.end(), here.begin(), here.end());
	}
	bool single = s.chance(1, 6), verbose = s.chance(1, 6);
	Run R = serve(stream, single, verbose);
	check_output(R, lists, single, verbose, stream);
	if (single)
		label("option -s");
	if (verbose)
		label("option -v");
	if (!lists.empty()) {
		nontrivial(hash_str(stream));
		sample(strf("%s -> %s", hex(stream, 300).c_str(), shortstr(R.out, 500).c_str()));
	}
	if (neg)
		label("negative readings");
}
// many numbers in one run: every scaler and unit
static void t_numbers(Src &s) {
	Node list = Node::list();
	Bytes stream;
	std::vector<std::vector<Line>> lists;
	for (int f = 0; f < 6; f++) {
		Node l = Node::list();
		for (int i = 0; i < 60; i++) {
			bool sgn = s.flip();
			int w = 1 << s.below(4);
			int sc = s.chance(1, 4) ? (int)s.range(-128, 127) : (int)s.range(-9, 6);
			Node v = Node::num(sgn, w, s.interesting(w));
			l.c.push_back(Node::of(Node::oct(s.bytes(6)), Node::absent(), Node::absent(), Node::num(false, 1, s.below(256)),
								   s.chance(1, 20) ? Node::absent() : Node::num(true, 1, (uint64_t)sc), v, Node::absent()));
		}
		Bytes b = encode_message(list_message(s, l));
		if (aligned_escape(b))
			continue;
		lists.push_back(lines_of(l));
		stream += frame(b);
	}
	Run R = serve(stream, false, false);
	check_output(R, lists, false, false, stream);
	nontrivial(hash_str(stream));
}
static std::vector<std::vector<Line>> expect_payload(const Bytes &payload, bool *excluded) {
	Dec d(payload);
	std::vector<std::vector<Line>> v;
	for (auto &m : d.file())
		if (m.c[3].c[0].v == 0x701) {
			const Node &l = m.c[3].c[1].c[4];
			for (auto &e : l.c)
				if (!usable(e))
					*excluded = true;
			if (*excluded)
				return v;
			v.push_back(lines_of(l));
		}
	return v;
}
// any stream: damaged payloads in frames, damaged frames, noise; the output is what an independent decoder finds
static void t_hostile(Src &s) {
	Stream S;
	std::vector<size_t> keep;
	std::vector<std::vector<Line>> lists;
	size_t n = 1 + s.below(8);
	bool p;
	for (size_t i = 0; i < n; i++) {
		size_t from = S.bytes.size();
		S.bytes += gen_noise(s, &p);
		Frame f;
		bool deliver = false;
		if (s.chance(1, 6))
			f = gen_damaged(s);
		else {
			Bytes b;
			switch (s.below(6)) {
			case 0: { // damaged value lists
				Gen g;
				g.wire = true;
				Node l = Node::list();
				for (size_t j = 1 + s.below(4); j > 0; j--)
					l.c.push_back(gen_entry(s));
				Node m = list_message(s, l);
				mutate_node(s, g, m);
				b = encode_message(m);
				break;
			}
			case 1: b = gen_payload(s, false, 0); break;
			default: b = hostile_file(s);
			}
			if (b.size() > 9000)
				b.resize(9000);
			while (b.size() % 4)
				b += '\0';
			for (size_t k = 0; k + 4 <= b.size(); k += 4)
				if (!b.compare(k, 4, ESC))
					b[k] = 'x';
			bool excl = false;
			auto l = expect_payload(b, &excl);
			if (excl) {
				label("excluded: known finding");
				S.bytes.resize(from);
				continue;
			}
			f.bytes = frame(b);
			if (f.bytes.size() + 4 > 8096 && f.bytes.size() < 8104) {
				S.bytes.resize(from);
				continue;
			}
			deliver = f.bytes.size() < 8096;
			if (deliver)
				lists.insert(lists.end(), l.begin(), l.end());
		}
		size_t at = S.bytes.size();
		S.bytes += f.bytes;
		keep.push_back(at);
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, deliver ? at : S.bytes.size(), keep);
	}
	if (s.chance(1, 3)) { // raw noise at the end
		size_t from = S.bytes.size();
		S.bytes += tl_soup(s, s.below(200));
		remove_starts(S.bytes, from > 7 ? from - 7 : 0, S.bytes.size(), keep);
	}
	Run R = serve(S.bytes, false, s.chance(1, 8));
	bool verbose = R.out.find("OBIS data") != std::string::npos;
	check_output(R, lists, false, verbose, S.bytes);
	nontrivial(hash_str(S.bytes));
	if (!lists.empty())
		label("something is printed");
}
// ---- devices and the command line
static double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static pid_t spawn_server(const std::vector<std::string> &args, int in, int out, int err, int not_in_child = -1) {
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct itimerval tv = {{0, 0}, {20, 0}};
		setitimer(ITIMER_PROF, &tv, nullptr);
		if (not_in_child >= 0)
			close(not_in_child);
		dup2(in, 0);
		dup2(out, 1);
		dup2(err, 2);
		std::vector<std::vector<char>> hold;
		std::vector<char *> argv;
		hold.emplace_back(std::vector<char>{'s', 'm', 'l', 0});
		for (auto &a : args)
			hold.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
		for (auto &h : hold)
			argv.push_back(h.data());
		argv.push_back(nullptr);
		optind = 0;
		int r = sml_server_main((int)argv.size() - 1, argv.data());
		fflush(stdout);
		_exit(r);
	}
	return p;
}
static std::string memfile(int fd) {
	std::string o((size_t)lseek(fd, 0, SEEK_END), 0);
	if (o.size() && pread(fd, &o[0], o.size(), 0) != (ssize_t)o.size())
		abort();
	return o;
}
static std::string status_text(int st) {
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return "";
	return WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 99 ? "sanitizer report" : strf("exit status %d", WEXITSTATUS(st));
}
// readings over a serial line: a pseudo terminal with any settings before
static void t_serial(Src &s) {
	std::vector<std::vector<Line>> lists;
	Bytes stream;
	std::vector<size_t> keep;
	bool p;
	for (size_t n = 1 + s.below(3); n > 0; n--) {
		size_t from = stream.size();
		stream += gen_noise(s, &p);
		Node list = Node::list();
		for (size_t j = 1 + s.below(5); j > 0; j--)
			list.c.push_back(gen_entry(s));
		if (s.flip()) // control characters and the like
			list.c.push_back(Node::of(Node::oct(s.bytes(6)), Node::absent(), Node::absent(), Node::absent(), Node::absent(),
									  Node::oct(s.bytes(1 + s.below(300))), Node::absent()));
		Bytes b = encode_message(list_message(s, list));
		if (aligned_escape(b) || b.size() > 8000) {
			stream.resize(from);
			continue;
		}
		keep.push_back(stream.size());
		size_t at = stream.size();
		stream += frame(b);
		remove_starts(stream, from > 7 ? from - 7 : 0, at, keep);
		lists.push_back(lines_of(list));
	}
	// the last reading is a number, after which the output is flushed
	Node last = Node::list({Node::of(Node::oct("\xfe\xfd\xfc\xfb\xfa\xf9"), Node::absent(), Node::absent(), Node::absent(), Node::absent(),
									 Node::num(false, 4, 123456789), Node::absent())});
	Bytes lb = encode_message(Node::of(Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
									   Node::of(Node::num(false, 4, 0x701), Node::of(Node::absent(), Node::oct("srv"), Node::absent(), Node::absent(), last,
																					 Node::absent(), Node::absent()))));
	stream += frame(lb);
	lists.push_back(lines_of(last));
	const std::string final_line = lists.back()[0].text + "\n";
	bool verbose = s.chance(1, 8);

	int master = posix_openpt(O_RDWR | O_NOCTTY);
	if (master < 0 || grantpt(master) || unlockpt(master)) {
		label("no pseudo terminal");
		if (master >= 0)
			close(master);
		return;
	}
	std::string dev = ptsname(master);
	int hold = open(dev.c_str(), O_RDWR | O_NOCTTY); // keeps the line up until the server has it
	CHECK(hold >= 0, "harness: cannot open %s", dev.c_str());
	struct termios t;
	tcgetattr(hold, &t);
	static const tcflag_t IF[] = {IGNBRK, BRKINT, PARMRK, ISTRIP, INLCR, IGNCR, ICRNL, IXON};
	static const tcflag_t LF[] = {ECHO, ECHONL, ISIG, IEXTEN};
	bool all = s.chance(1, 3);
	for (tcflag_t f : IF)
		t.c_iflag = all || s.flip() ? t.c_iflag | f : t.c_iflag & ~f;
	for (tcflag_t f : LF)
		t.c_lflag = all || s.flip() ? t.c_lflag | f : t.c_lflag & ~f;
	t.c_lflag |= ICANON; // cleared when the server has set up the line
	t.c_cflag = all || s.flip() ? t.c_cflag | CSTOPB | PARODD : t.c_cflag & ~(CSTOPB | PARODD);
	static const speed_t SP[] = {B38400, B300, B9600, B115200};
	speed_t sp = s.pick(SP);
	cfsetispeed(&t, sp);
	cfsetospeed(&t, sp);
	tcsetattr(hold, TCSANOW, &t);

	int in = open("/dev/null", O_RDONLY), out = memfd_create("out", 0), err = memfd_create("err", 0);
	std::vector<std::string> args;
	if (verbose)
		args.push_back("-v");
	args.push_back(dev);
	pid_t pid = spawn_server(args, in, out, err, master);
	int st = 0;
	bool ended = false;
	auto alive = [&] {
		if (!ended && waitpid(pid, &st, WNOHANG) == pid)
			ended = true;
		return !ended;
	};
	double deadline = now() + 8;
	while (alive() && now() < deadline) {
		tcgetattr(master, &t);
		if (!(t.c_lflag & ICANON))
			break;
		usleep(50);
	}
	bool raw = !(t.c_lflag & ICANON);
	close(hold);
	// the stream in pieces
	size_t at = 0;
	std::string echoed;
	fcntl(master, F_SETFL, O_NONBLOCK);
	size_t piece = s.flip() ? stream.size() : 1 + s.below(600);
	deadline = now() + 8;
	while (raw && alive() && now() < deadline) {
		char e[512];
		ssize_t r = read(master, e, sizeof e);
		if (r > 0)
			echoed.append(e, (size_t)r);
		if (at < stream.size()) {
			ssize_t w = write(master, stream.data() + at, std::min(piece, stream.size() - at));
			if (w > 0) {
				at += (size_t)w;
				deadline = now() + 8;
				continue;
			}
		} else {
			std::string o = memfile(out);
			if (o.size() >= final_line.size() && !o.compare(o.size() - final_line.size(), final_line.size(), final_line))
				break;
		}
		usleep(100);
	}
	bool running = alive();
	close(master); // the line goes down
	deadline = now() + 8;
	while (alive() && now() < deadline)
		usleep(100);
	bool killed = alive();
	if (killed) {
		kill(pid, SIGKILL);
		waitpid(pid, &st, 0);
	}
	Run R;
	R.out = memfile(out);
	R.how = killed ? "no end after the line went down" : status_text(st);
	std::string e = memfile(err);
	close(in);
	close(out);
	close(err);
	R.ok = R.how.empty();
	CHECK(raw, "the line is not set up: %s", shortstr(e).c_str());
	CHECK(running, "the server ended while the line was up: %s %s", R.how.c_str(), shortstr(e).c_str());
	CHECK(echoed.empty(), "the server's line sent back %zu bytes", echoed.size());
	CHECK(cfgetispeed(&t) == B9600 && cfgetospeed(&t) == B9600, "the speed of the line is not 9600 baud");
	CHECK(!(t.c_cflag & CSTOPB), "two stop bits");
	check_output(R, lists, false, verbose, stream);
	nontrivial(hash_str(stream));
	if (all)
		label("all line settings wrong before");
}
// the command line
static void t_usage(Src &s) {
	std::vector<std::string> args;
	bool help = false, bad = false, single = false, verbose = false;
	for (size_t n = s.below(4); n > 0 && !help && !bad; n--)
		switch (s.below(5)) {
		case 0: args.push_back("-v"); verbose = true; break;
		case 1: args.push_back("-s"); single = true; break;
		case 2: args.push_back("-sv"); single = verbose = true; break;
		case 3: args.push_back("-h"); help = true; break;
		default:
			args.push_back(std::string("-") + "abcxyzSVH012"[s.below(12)]);
			bad = true;
		}
	Node l1 = Node::list({gen_entry(s)}), l2 = Node::list({gen_entry(s)});
	Bytes a = encode_message(list_message(s, l1)), b = encode_message(list_message(s, l2));
	Bytes stream;
	std::vector<std::vector<Line>> lists;
	if (!aligned_escape(a)) {
		stream += frame(a);
		lists.push_back(lines_of(l1));
	}
	if (!aligned_escape(b)) {
		stream += frame(b);
		lists.push_back(lines_of(l2));
	}
	int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0), null = open("/dev/null", O_RDONLY);
	if (write(in, stream.data(), stream.size()) != (ssize_t)stream.size())
		abort();
	lseek(in, 0, SEEK_SET);
	int devices = 0;
	bool reads = true;
	switch (s.below(5)) {
	case 0: break; // no device
	case 1:
		args.push_back("-");
		args.push_back("-");
		devices = 2;
		break;
	case 2:
		args.push_back("/nonexistent/device");
		devices = 1;
		reads = false;
		break;
	case 3: // a file instead of a device
		args.push_back(strf("/proc/self/fd/%d", in));
		devices = 1;
		break;
	default:
		args.push_back("-");
		devices = 1;
		break;
	}
	bool file = devices == 1 && reads && args.back() != "-";
	pid_t pid = spawn_server(args, file ? null : in, out, err);
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	Run R;
	R.out = memfile(out);
	std::string e = memfile(err), what;
	for (auto &x : args)
		what += " " + x;
	close(in);
	close(out);
	close(err);
	close(null);
	nontrivial(hash_str(what + stream));
	if (help) {
		CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: %s", what.c_str(), status_text(st).c_str());
		CHECK(R.out.find("usage") != std::string::npos && R.out.find('#') == std::string::npos, "%s: no help: %s", what.c_str(), R.out.c_str());
		label("help");
	} else if (bad || devices != 1 || !reads) {
		CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1, "%s: %s instead of exit status 1", what.c_str(), status_text(st).c_str());
		CHECK(R.out.find('#') == std::string::npos, "%s: readings are printed: %s", what.c_str(), R.out.c_str());
		CHECK(!R.out.empty() || !e.empty(), "%s: no message", what.c_str());
		label("wrong use");
	} else {
		R.how = status_text(st);
		R.ok = R.how.empty();
		check_output(R, lists, single, verbose, stream);
		label(file ? "a file" : "standard input");
	}
}
// listed findings, each with a fixed input
static Bytes fixed(const Node &entry) {
	Node m = Node::of(Node::oct("t"), Node::num(false, 1, 0), Node::num(false, 1, 0),
					  Node::of(Node::num(false, 4, 0x701), Node::of(Node::absent(), Node::oct("srv"), Node::absent(), Node::absent(), Node::of(entry),
																	Node::absent(), Node::absent())));
	return frame(encode_message(m));
}
static void t_known(Src &) {
	auto E = [](const Node &name, const Node &v) {
		return Node::of(name, Node::absent(), Node::absent(), Node::absent(), Node::absent(), v, Node::absent());
	};
	Node name = Node::oct(Bytes("\x01\x00\x01\x08\x00\xff", 6));
	Run R = serve(fixed(E(Node::absent(), Node::num(false, 1, 5))), false, false);
	if (!R.ok)
		note_known("no-obis");
	R = serve(fixed(E(Node::oct("ab"), Node::num(false, 1, 5))), false, false);
	if (!R.ok)
		note_known("short-obis");
	Node empty = Node::oct("");
	empty.tlpad = 1;
	R = serve(fixed(E(name, empty)), false, false);
	if (!R.ok || R.out != "1-0:1.8.0*255##\n")
		note_known("empty-string");
	R = serve(fixed(E(name, Node::boolean(false))), false, false);
	if (!R.ok || R.out != "1-0:1.8.0*255#false#\n")
		note_known("boolean");
	nontrivial(1);
}
Prop the_prop() {
	return {"C17",
			{{"readings", t_readings, 20000, 400000, "files with value lists and other messages in noise, options -s and -v; non-trivial = a list is delivered", nullptr, false},
			 {"numbers", t_numbers, 3000, 60000, "360 readings per run with all scalers, units and widths; every case is non-trivial", nullptr, false},
			 {"hostile", t_hostile, 20000, 400000, "damaged payloads, frames and noise, compared with an independent decoder; every case is non-trivial", nullptr, false},
			 {"serial", t_serial, 3000, 40000, "readings over a pseudo terminal with any line settings before; non-trivial = there is a pseudo terminal", nullptr, false},
			 {"usage", t_usage, 3000, 40000, "options, wrong options, devices that do not exist, files as devices; every case is non-trivial", nullptr, false},
			 {"known", t_known, 1, 1, "the listed findings", nullptr, false}}};
}
