// C24: calling the library leaves the process it is part of as it was
#define STREAM_FAULTS
#include "stream.h"
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <termios.h>

extern "C" char **environ;
static volatile int signalled;
static void on_signal(int) { signalled = signalled + 1; }

// ---------------------------------------------------------------- the state of the process
static const int FDS = 48;
static std::string fd_state(int fd) {
	int a = fcntl(fd, F_GETFD), b = a < 0 ? -1 : fcntl(fd, F_GETFL);
	struct stat st;
	if (a < 0 || fstat(fd, &st))
		return "closed";
	return strf("open, flags %x %x, inode %llu:%llu", a, b, (unsigned long long)st.st_dev, (unsigned long long)st.st_ino);
}
struct State {
	std::vector<std::pair<std::string, std::string>> v;
	void add(const std::string &k, const std::string &x) { v.push_back({k, x}); }
};
static State observe() {
	State s;
	for (int fd = 0; fd < FDS; fd++)
		s.add(strf("descriptor %d", fd), fd_state(fd));
	s.add("position of standard input", strf("%lld", (long long)lseek(0, 0, SEEK_CUR)));
	sigset_t m;
	sigprocmask(SIG_SETMASK, nullptr, &m);
	std::string mask;
	for (int i = 1; i < 32; i++) {
		mask += sigismember(&m, i) ? '1' : '0';
		struct sigaction a;
		if (!sigaction(i, nullptr, &a))
			s.add(strf("disposition of signal %d", i), strf("%p %x", (void *)a.sa_handler, a.sa_flags));
	}
	s.add("blocked signals", mask);
	s.add("locale", setlocale(LC_ALL, nullptr));
	s.add("rounding mode", strf("%d", fegetround()));
#ifdef __SSE__
	s.add("floating point control", strf("%x", __builtin_ia32_stmxcsr() & ~0x3fu));
#endif
	std::string env;
	for (char **e = environ; e && *e; e++)
		env += std::string(*e) + "\n";
	s.add("environment", strf("%llx", (unsigned long long)hash_str(env)));
	char wd[4096];
	s.add("working directory", getcwd(wd, sizeof wd) ? wd : "none");
	mode_t u = umask(022);
	umask(u);
	s.add("umask", strf("%o", u));
	for (int w : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
		struct itimerval t;
		getitimer(w, &t);
		bool on = t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec || t.it_interval.tv_usec;
		s.add("interval timers", on ? "running" : "off");
	}
	for (int r : {RLIMIT_NOFILE, RLIMIT_STACK, RLIMIT_CORE, RLIMIT_DATA, RLIMIT_FSIZE}) {
		struct rlimit l;
		getrlimit((__rlimit_resource_t)r, &l);
		s.add("resource limits", strf("%llu %llu", (unsigned long long)l.rlim_cur, (unsigned long long)l.rlim_max));
	}
	errno = 0;
	s.add("child processes", waitpid(-1, nullptr, WNOHANG) < 0 && errno == ECHILD ? "none" : "some");
	struct stat st;
	s.add("threads", !stat("/proc/self/task", &st) ? strf("%d", (int)st.st_nlink - 2) : "unknown");
	return s;
}
static std::string difference(const State &a, const State &b) {
	for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++)
		if (a.v[i] != b.v[i])
			return a.v[i].first + " was " + a.v[i].second + ", is " + b.v[i].second;
	return "";
}

// ---------------------------------------------------------------- the standard streams of a case
static int out = -1, real_out, real_in;
static off_t out_size() {
	fflush(stdout);
	struct stat st;
	if (fstat(1, &st))
		return -1;
	return st.st_size;
}
static void streams_in() {
	static int in = -1;
	if (out < 0) {
		out = memfd_create("out", 0);
		in = memfd_create("in", 0);
		if (out < 0 || in < 0 || write(in, "input\n", 6) != 6)
			abort();
	}
	fflush(stdout);
	if (ftruncate(out, 0) || lseek(out, 0, SEEK_SET) || lseek(in, 0, SEEK_SET))
		abort();
	real_out = dup(1);
	real_in = dup(0);
	if (dup2(out, 1) != 1 || dup2(in, 0) != 0)
		abort();
}
static void streams_out() {
	fflush(stdout);
	if (real_out >= 0) {
		dup2(real_out, 1);
		close(real_out);
	}
	if (real_in >= 0) {
		dup2(real_in, 0);
		close(real_in);
	}
}

// ---------------------------------------------------------------- what the library is asked to do
static Bytes a_file(Src &s) {
	if (s.flip())
		return hostile_file(s);
	Gen g;
	g.wire = true;
	g.dzg = s.chance(1, 4);
	return gen_file(s, g, 3);
}
static sml_file *built(Src &s) {
	Gen g;
	g.full_path = true;
	sml_file *f = sml_file_init();
	for (size_t n = s.below(3); n > 0; n--)
		sml_file_add_message(f, lbuild_message(gen_message(s, g)));
	return f;
}
static size_t received;
static void receiver(unsigned char *p, size_t n) {
	received++;
	if (n >= 16 && n % 8 == 0)
		sml_file_free(sml_file_parse(p + 8, n - 16));
}
// a descriptor that the library may read from or write to, whose state has to survive
struct Lent {
	int fd;
	std::string was;
	explicit Lent(int fd) : fd(fd), was(fd_state(fd)) {}
	std::string check() {
		std::string is = fd_state(fd);
		return is == was ? "" : strf("the descriptor was %s, is %s", was.c_str(), is.c_str());
	}
};
static void reader_faults(Src &s, Faults &f, int fd, size_t size) {
	if (s.flip())
		gen_faults(s, f);
	if (s.chance(1, 3)) {
		f.fail_after = (long long)s.below(size + 1);
		static const int e[] = {EIO, EBADF, ENXIO, ECONNRESET};
		f.fail_errno = s.pick(e);
	}
	f.fd = fd;
	faults[0] = &f;
}
static int some_pipe_flags(Src &s, int fd) {
	if (s.flip())
		fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
	if (s.flip())
		fcntl(fd, F_SETFD, FD_CLOEXEC);
	return fd;
}
// one thing; returns what went wrong; printing: whether it may write to standard output
static std::string act(Src &s, std::string &what, bool &printing, bool &work) {
	printing = false;
	std::string bad;
	switch (s.below(11)) {
	case 0: {
		what = "parse, write and free a file";
		Bytes b = a_file(s);
		sml_file *f = lparse_file(b);
		if (f) {
			work = f->messages_len > 0;
			sml_file_write(f);
			sml_file_free(f);
		}
		break;
	}
	case 1: {
		what = "build and write a file";
		sml_file *f = built(s);
		work = f->messages_len > 0;
		sml_file_write(f);
		sml_file_free(f);
		break;
	}
	case 2: {
		what = "read from the transport";
		size_t max = 30 + s.below(600);
		Stream S = gen_stream(s, max, 3, true);
		Lent l(some_pipe_flags(s, fd_with(S.bytes)));
		l.was = fd_state(l.fd);
		Faults f;
		reader_faults(s, f, l.fd, S.bytes.size());
		unsigned char *buf = new unsigned char[max];
		while (sml_transport_read(l.fd, buf, max))
			work = true;
		if (s.chance(1, 4))
			sml_transport_read(l.fd, buf, s.below(9)); // refused
		delete[] buf;
		faults[0] = nullptr;
		bad = l.check();
		close(l.fd);
		break;
	}
	case 3: {
		what = "listen";
		Stream S = gen_stream(s, 300, 4, true);
		Lent l(some_pipe_flags(s, fd_with(S.bytes)));
		l.was = fd_state(l.fd);
		Faults f;
		reader_faults(s, f, l.fd, S.bytes.size());
		received = 0;
		sml_transport_listen(l.fd, receiver);
		work = received > 0;
		faults[0] = nullptr;
		bad = l.check();
		close(l.fd);
		break;
	}
	case 4: {
		what = "write to the transport";
		sml_file *f = built(s);
		int p[2] = {-1, -1};
		if (s.chance(1, 3)) {
			p[1] = memfd_create("sink", 0);
		} else if (s.flip() ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p))
			abort();
		some_pipe_flags(s, p[1]);
		if (p[0] >= 0 && s.chance(1, 3)) { // nobody reads
			close(p[0]);
			p[0] = -1;
			what += " that nobody reads";
		}
		sml_file_write(f);
		bool fits = f->buf->cursor < 30000;
		sml_file_free(f);
		if (fits) {
			Lent l(p[1]);
			Gen g;
			g.budget = 20;
			f = sml_file_init();
			sml_file_add_message(f, lbuild_message(gen_message(s, g)));
			work = sml_transport_write(p[1], f) > 0;
			sml_file_free(f);
			bad = l.check();
		}
		close(p[1]);
		if (p[0] >= 0)
			close(p[0]);
		break;
	}
	case 5: {
		what = "make identifiers";
		if (s.flip()) {
			octet_string *u = sml_octet_string_generate_uuid();
			work = u != nullptr;
			sml_octet_string_free(u);
		} else {
			sml_message *m = sml_message_init();
			work = m->transaction_id != nullptr;
			sml_message_free(m);
		}
		break;
	}
	case 6: {
		what = "convert a value";
		Gen g;
		Node n = gen(s, g, T_VALUE);
		sml_value *v = (sml_value *)lbuild_element(T_VALUE, n);
		if (v) {
			work = true;
			sml_value_to_double(v); // 0, and a word about it, for what is no number
			char *t = nullptr;
			if (v->type == SML_TYPE_OCTET_STRING)
				sml_value_to_strhex(v, &t, s.flip());
			free(t);
			sml_value_free(v);
		}
		sml_crc16_calculate((unsigned char *)"abc", (int)s.below(4));
		sml_crc16kermit_calculate((unsigned char *)"abc", (int)s.below(4));
		break;
	}
	case 7: {
		what = "parse an element";
		T t = ELEMENTS[s.below(ELEMENTS.size())];
		bool hostile = s.flip();
		Gen g;
		g.wire = true;
		sml_buffer *b = pbuf(hostile ? hostile_element(s, t) : encode(gen(s, g, t)));
		void *p = lparse_element(t, b);
		work = p != nullptr;
		if (p && hostile)
			lfree_element(t, p);
		else if (p) {
			sml_buffer *o = sml_buffer_init(64);
			lwrite_element(t, p, o);
			sml_buffer_free(o);
			lfree_element(t, p);
		}
		sml_buffer_free(b);
		break;
	}
	case 8: {
		what = "print";
		printing = true;
		sml_file *f = built(s);
		sml_file_print(f);
		sml_file_free(f);
		Bytes b = s.bytes(s.below(40));
		sml_hexdump((unsigned char *)&b[0], b.size());
		work = true;
		break;
	}
	case 9: { // what cannot be written is left out, with a word about it on standard error
		what = "write an unknown message type or choice";
		Gen g;
		g.budget = 20;
		sml_buffer *o = sml_buffer_init(64);
		if (s.flip()) {
			sml_message *m = lbuild_message(gen_message(s, g));
			u32 was = *m->message_body->tag;
			*m->message_body->tag = 0x999;
			sml_message_write(m, o);
			*m->message_body->tag = was;
			sml_message_free(m);
		} else {
			octet_string *o1 = sml_octet_string_init((unsigned char *)"x", 1);
			sml_proc_par_value *v = sml_proc_par_value_init();
			u8 tag = SML_PROC_PAR_VALUE_TAG_VALUE;
			v->tag = sml_u8_init((u8)(5 + s.below(200)));
			v->data.value = sml_value_init();
			v->data.value->type = SML_TYPE_OCTET_STRING;
			v->data.value->data.bytes = o1;
			sml_proc_par_value_write(v, o);
			*v->tag = tag;
			sml_proc_par_value_free(v);
		}
		sml_buffer_free(o);
		work = true;
		break;
	}
	default: { // a line of a terminal, as the serial lines of meters are
		what = "read from and write to a terminal";
		int m = s.chance(1, 4) ? posix_openpt(O_RDWR | O_NOCTTY) : -1;
		if (m < 0)
			break;
		const char *name = !grantpt(m) && !unlockpt(m) ? ptsname(m) : nullptr;
		int t = name ? open(name, O_RDWR | O_NOCTTY) : -1;
		if (t < 0) {
			close(m);
			break;
		}
		struct termios a, b;
		tcgetattr(t, &a);
		cfmakeraw(&a);
		a.c_cc[VMIN] = (unsigned char)(1 + s.below(200)); // input is passed on in larger pieces, if the reader allows
		a.c_cc[VTIME] = 1;
		static const speed_t speeds[] = {B9600, B300, B115200};
		cfsetspeed(&a, s.pick(speeds));
		tcsetattr(t, TCSANOW, &a);
		tcgetattr(t, &a);
		Lent l(t);
		Stream S = gen_stream(s, 400, 3, true, false);
		if (S.bytes.size() < 4000 && write(m, S.bytes.data(), S.bytes.size()) == (ssize_t)S.bytes.size()) {
			unsigned char buf[4096];
			std::vector<Bytes> got;
			size_t files = 0;
			for (auto &x : S.frames)
				files += x.k == Frame::GOOD;
			// a read may end without a file at a damaged frame; behind the last file there is no end to wait for
			for (int k = 0; k < 20 && got.size() < files; k++) {
				size_t r = sml_transport_read(t, buf, sizeof buf);
				if (r)
					got.push_back(Bytes((char *)buf, r));
			}
			bad = match(S, got, sizeof buf, S.bytes.size());
			work = !got.empty();
			sml_file *x = sml_file_init();
			sml_transport_write(t, x);
			sml_file_free(x);
			Bytes e(16, 0);
			if (bad.empty() && (read(m, &e[0], 16) != 16 || e != frame("")))
				bad = "sent over a terminal: " + hex(e);
		}
		if (bad.empty())
			bad = l.check();
		memset(&b, 0, sizeof b);
		tcgetattr(t, &b);
		if (bad.empty() && (a.c_iflag != b.c_iflag || a.c_oflag != b.c_oflag || a.c_cflag != b.c_cflag || a.c_lflag != b.c_lflag ||
							memcmp(a.c_cc, b.c_cc, sizeof a.c_cc) || cfgetospeed(&a) != cfgetospeed(&b) || cfgetispeed(&a) != cfgetispeed(&b)))
			bad = "the settings of the terminal changed";
		close(t);
		close(m);
		label("terminal");
	}
	}
	return bad;
}
static void init() {
	struct sigaction a;
	memset(&a, 0, sizeof a);
	a.sa_handler = on_signal;
	a.sa_flags = SA_RESTART;
	sigaction(SIGPIPE, &a, nullptr);
	sigaction(SIGUSR1, &a, nullptr);
	setenv("SML_SOME_VARIABLE", "1", 1);
	setenv("LC_ALL", "C.UTF-8", 1); // as users have it, with a program that has not asked for it
	setenv("LANG", "C.UTF-8", 1);
}
static void t_calls(Src &s) {
	static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	std::string log, bad;
	unsigned seed = (unsigned)s.below(1000);
	size_t n = 1 + s.below(8), did = 0;
	int rounding = s.chance(1, 4) ? s.pick(modes) : FE_TONEAREST;
	mode_t mask = umask(s.chance(1, 4) ? (mode_t)s.below(0100) : 022);
	sigset_t set, old;
	sigemptyset(&set);
	if (s.chance(1, 4))
		sigaddset(&set, 1 + (int)s.below(15));
	sigprocmask(SIG_BLOCK, &set, &old);
	streams_in();
	fesetround(rounding);
	State before = observe();
	srandom(seed);
	srand48((long)seed);
	off_t size = out_size();
	for (size_t i = 0; i < n && bad.empty(); i++) {
		std::string what;
		bool printing, work = false;
		bad = act(s, what, printing, work);
		did += work;
		log += (log.empty() ? "" : ", ") + what;
		if (work)
			label(what.c_str());
		off_t is = out_size();
		if (bad.empty() && !printing && is != size) {
			Bytes t((size_t)(is > size ? is - size : 0), 0);
			if (pread(out, &t[0], t.size(), size) < 0)
				t.clear();
			bad = strf("wrote to standard output: %s", t.c_str());
		}
		if (printing && is == size && bad.empty())
			bad = "printed nothing";
		size = is;
	}
	long r = random(), r48 = lrand48();
	State after = observe();
	fesetround(FE_TONEAREST);
	streams_out();
	sigprocmask(SIG_SETMASK, &old, nullptr);
	umask(mask);
	if (bad.empty())
		bad = difference(before, after);
	srandom(seed);
	srand48((long)seed);
#ifdef SML_NO_UUID_LIB
	if (bad.empty() && (r != random() || r48 != lrand48())) // libuuid draws from it
		bad = "the sequence of the random number generator of the process changed";
#else
	(void)r, (void)r48;
#endif
	CHECK(bad.empty(), "%s | after: %s", bad.c_str(), log.c_str());
	if (did >= 2) {
		nontrivial(hash_str(log) ^ s.hash);
		sample(log);
	}
}
Prop the_prop() {
	return {"C24",
			{{"calls", t_calls, 60000, 1000000, "one to eight uses of the library; non-trivial = at least two of them did something", init, false}}};
}
