// C15: every legal call history leaks nothing and keeps files writable
#include "bridge.h"
#include "mutate.h"
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
ssize_t __real_write(int, const void *, size_t);
static int sink = -2;
static Bytes sent;
static int accept_most = -1;
ssize_t __wrap_write(int fd, const void *p, size_t n) {
	if (fd != sink)
		return __real_write(fd, p, n);
	if (accept_most >= 0 && n > (size_t)accept_most)
		n = (size_t)accept_most;
	sent.append((const char *)p, n);
	return (ssize_t)n;
}
}

struct Msg {
	sml_message *p;
	Node n; // content as a view
};
struct File {
	sml_file *p = nullptr;
	std::vector<Msg> m;
	Bytes out; // what the output buffer holds up to its cursor
	int writes = 0, sends = 0, edits = 0;
	bool parsed = false;
};
struct Elem {
	T t;
	void *p;
	Node n;
};
struct World {
	std::vector<File> files;
	std::vector<Msg> loose; // messages that belong to no file
	std::vector<Elem> elems;
	std::vector<sml_buffer *> bufs;
	std::vector<Bytes> bufc;
	std::string log;
};

static Node norm(const Node &m) { return view_message(normalize_empty(view_message(m))); }
static Bytes bytes_of(const Node &n) {
	Node w = written_message(n);
	strip_hints(w);
	return encode_message(w);
}
static void set_gen(Gen &g) {
	g.full_path = true;
	g.empty_oct = false;
	g.budget = 25;
}
static Msg build(Src &s) {
	Gen g;
	set_gen(g);
	Msg m;
	static const int rich[] = {12, 9, 10}; // lists and trees, which can be edited
	Node n = s.flip() ? gen_message(s, g) : gen_message_of(s, g, s.pick(rich));
	m.p = lbuild_message(n);
	m.n = norm(n);
	return m;
}
static void check_out(const World &w, const File &f, const char *what) {
	Bytes got((const char *)f.p->buf->buffer, f.p->buf->cursor);
	CHECK(got == f.out, "%s: the output holds %zu bytes instead of %zu %s | history %s", what, got.size(), f.out.size(),
		  first_diff(hex(f.out, (size_t)-1), hex(got, (size_t)-1)).c_str(), w.log.c_str());
}
static void check_content(const World &w, const Msg &m, const char *what) {
	std::string got = ldump_message(m.p, false), want = dump(m.n);
	CHECK(got == want, "%s: content changed %s | history %s", what, first_diff(want, got).c_str(), w.log.c_str());
}
static octet_string *oct(const Bytes &b) { return sml_octet_string_init((unsigned char *)b.data(), (int)b.size()); }

static void edit(Src &s, World &w, Msg &m) {
	Gen g;
	set_gen(g);
	Node &data = m.n.c[3].c[1];
	uint32_t tag = (uint32_t)m.n.c[3].c[0].v;
	switch (s.below(8)) {
	case 0: { // transaction id
		Bytes t = s.bytes(1 + s.below(12));
		sml_octet_string_free(m.p->transaction_id);
		m.p->transaction_id = oct(t);
		m.n.c[0] = Node::oct(t);
		w.log += "tid ";
		return;
	}
	case 1: { // group, set or removed
		sml_number_free(m.p->group_id);
		m.p->group_id = nullptr;
		m.n.c[1] = Node::absent();
		if (s.chance(3, 4)) {
			uint8_t v = (uint8_t)s.below(256);
			m.p->group_id = sml_u8_init(v);
			m.n.c[1] = Node::num(false, 1, v);
		}
		w.log += "group ";
		return;
	}
	case 2: { // the body as a whole
		Node x = norm(gen_message(s, g));
		sml_message_body_free(m.p->message_body);
		u32 t = (u32)x.c[3].c[0].v;
		m.p->message_body = sml_message_body_init(t, lbuild_element(type_of_tag(t), x.c[3].c[1]));
		m.n.c[3] = x.c[3];
		w.log += "body ";
		return;
	}
	default: break;
	}
	if (tag == 0x701) {
		sml_get_list_response *r = (sml_get_list_response *)m.p->message_body->data;
		switch (s.below(4)) {
		case 0:
		case 1: { // append an entry
			Node e = view(T_ENTRY, normalize_empty(view(T_ENTRY, gen(s, g, T_ENTRY))));
			sml_list *x = (sml_list *)lbuild_element(T_ENTRY, e);
			if (!r->val_list) {
				r->val_list = x;
				data.c[4] = Node::of(e);
			} else {
				sml_list *l = r->val_list;
				while (l->next)
					l = l->next;
				sml_list_add(l, x);
				data.c[4].c.push_back(e);
			}
			w.log += "entry ";
			return;
		}
		case 2: { // another value
			if (!r->val_list)
				return;
			size_t i = s.below(data.c[4].c.size());
			sml_list *l = r->val_list;
			for (size_t k = 0; k < i; k++)
				l = l->next;
			if (l->value)
				sml_value_free(l->value);
			Node v = view(T_VALUE, gen(s, g, T_VALUE));
			l->value = (sml_value *)lbuild_element(T_VALUE, v);
			data.c[4].c[i].c[5] = v;
			w.log += "value ";
			return;
		}
		default: { // drop the list
			sml_list_free(r->val_list);
			r->val_list = nullptr;
			data.c[4] = Node::absent();
			w.log += "nolist ";
			return;
		}
		}
	}
	if (tag == 0x501 || tag == 0x600) {
		sml_tree **tree;
		sml_tree_path **path;
		size_t pi, ti;
		if (tag == 0x501) {
			sml_get_proc_parameter_response *r = (sml_get_proc_parameter_response *)m.p->message_body->data;
			tree = &r->parameter_tree;
			path = &r->parameter_tree_path;
			pi = 1, ti = 2;
		} else {
			sml_set_proc_parameter_request *r = (sml_set_proc_parameter_request *)m.p->message_body->data;
			tree = &r->parameter_tree;
			path = &r->parameter_tree_path;
			pi = 3, ti = 4;
		}
		if (s.flip()) {
			if (!*tree)
				return;
			Node x = view(T_TREE, normalize_empty(view(T_TREE, gen(s, g, T_TREE, 5))));
			if (x.k == Node::ABSENT)
				return;
			sml_tree_add_tree(*tree, (sml_tree *)lbuild_element(T_TREE, x));
			if (data.c[ti].c[2].k == Node::ABSENT)
				data.c[ti].c[2] = Node::list();
			data.c[ti].c[2].c.push_back(x);
			w.log += "tree ";
		} else {
			if (!*path)
				return;
			Bytes b = s.bytes(1 + s.below(8));
			sml_tree_path_add_path_entry(*path, oct(b));
			data.c[pi].c.push_back(Node::oct(b));
			w.log += "path ";
		}
		return;
	}
}
static void op(Src &s, World &w) {
	unsigned kind = (unsigned)s.below(20);
	auto some = [&]() -> File & { return w.files[s.below(w.files.size())]; };
	if (w.files.empty() && kind > 1 && kind < 14)
		kind = 0;
	switch (kind) {
	case 0: {
		if (w.files.size() >= 5)
			return;
		File f;
		f.p = sml_file_init();
		w.files.push_back(f);
		w.log += "init ";
		return;
	}
	case 1: { // parse, from a block that is gone afterwards
		if (w.files.size() >= 5)
			return;
		Gen g;
		g.wire = true;
		g.full_path = true;
		std::vector<Node> m;
		Bytes b = gen_file(s, g, 3, &m);
		bool cut = s.chance(1, 4) && !b.empty();
		if (cut) {
			b.resize(s.below(b.size()));
			label("file with an incomplete message");
		}
		File f;
		f.parsed = true;
		f.p = lparse_file(b);
		size_t n = (size_t)f.p->messages_len;
		CHECK(cut ? n <= m.size() : n == m.size(), "%zu of %zu messages | %s", n, m.size(), w.log.c_str());
		for (size_t i = 0; i < n; i++) {
			Msg x;
			x.p = f.p->messages[i];
			x.n = view_message(m[i]);
			f.m.push_back(x);
		}
		f.out = Bytes((const char *)f.p->buf->buffer, f.p->buf->cursor);
		CHECK(f.out == b.substr(0, f.out.size()), "the buffer of the parsed file differs from the input");
		w.files.push_back(f);
		w.log += cut ? "parse-cut " : "parse ";
		return;
	}
	case 2:
	case 3: {
		File &f = some();
		f.m.push_back(build(s));
		sml_file_add_message(f.p, f.m.back().p);
		w.log += "add ";
		return;
	}
	case 4:
	case 5:
	case 6: {
		File &f = some();
		sml_file_write(f.p);
		for (auto &m : f.m)
			f.out += bytes_of(m.n);
		f.writes++;
		w.log += "write ";
		check_out(w, f, "write");
		return;
	}
	case 7: {
		File &f = some();
		Bytes p;
		for (auto &m : f.m)
			p += bytes_of(m.n);
		Bytes fr = frame(p);
		sent.clear();
		accept_most = s.chance(1, 4) ? (int)s.below(fr.size()) : -1;
		sink = 777;
		int r = sml_transport_write(sink, f.p);
		sink = -2;
		CHECK(r == (accept_most < 0 ? (int)fr.size() : 0) || sent == fr, "%d reported for a frame of %zu bytes | history %s", r, fr.size(), w.log.c_str());
		CHECK(accept_most >= 0 || sent == fr, "other bytes sent %s | history %s", first_diff(hex(fr, (size_t)-1), hex(sent, (size_t)-1)).c_str(), w.log.c_str());
		accept_most = -1;
		// from here on the output holds the frame
		f.out = fr;
		f.sends++;
		w.log += "send ";
		check_out(w, f, "send");
		return;
	}
	case 8:
	case 9: {
		File &f = some();
		if (f.m.empty())
			return;
		Msg &m = f.m[s.below(f.m.size())];
		edit(s, w, m);
		f.edits++;
		check_content(w, m, "edit");
		return;
	}
	case 10: { // take a message out
		File &f = some();
		if (f.m.empty())
			return;
		size_t i = s.below(f.m.size());
		w.loose.push_back(f.m[i]);
		for (size_t k = i; k + 1 < f.m.size(); k++)
			f.p->messages[k] = f.p->messages[k + 1];
		f.p->messages_len--;
		f.m.erase(f.m.begin() + (long)i);
		w.log += "take ";
		return;
	}
	case 11: { // into another file, or freed
		if (w.loose.empty())
			return;
		Msg m = w.loose.back();
		w.loose.pop_back();
		if (s.flip()) {
			File &f = some();
			sml_file_add_message(f.p, m.p);
			f.m.push_back(m);
			w.log += "move ";
		} else {
			check_content(w, m, "loose message");
			sml_message_free(m.p);
			w.log += "free-message ";
		}
		return;
	}
	case 12: {
		size_t i = s.below(w.files.size());
		File &f = w.files[i];
		check_out(w, f, "before freeing");
		sml_file_free(f.p);
		w.files.erase(w.files.begin() + (long)i);
		w.log += "free ";
		return;
	}
	case 13: {
		File &f = some();
		for (auto &m : f.m)
			check_content(w, m, "inspection");
		sml_file_print(f.p);
		w.log += "inspect ";
		return;
	}
	case 14: // a message of its own
		if (w.loose.size() < 4) {
			w.loose.push_back(build(s));
			w.log += "message ";
		}
		return;
	case 15: { // an output buffer of the caller
		if (w.bufs.size() < 3) {
			w.bufs.push_back(sml_buffer_init(s.below(40)));
			w.bufc.push_back("");
		}
		size_t i = s.below(w.bufs.size());
		if (!w.loose.empty() && s.flip()) {
			Msg &m = w.loose[s.below(w.loose.size())];
			sml_message_write(m.p, w.bufs[i]);
			w.bufc[i] += bytes_of(m.n);
			w.log += "write-message ";
		} else if (!w.elems.empty()) {
			Elem &e = w.elems[s.below(w.elems.size())];
			lwrite_element(e.t, e.p, w.bufs[i]);
			Node x = written(e.t, e.n);
			strip_hints(x);
			w.bufc[i] += encode(x);
			w.log += "write-element ";
		}
		CHECK(bufbytes(w.bufs[i]) == w.bufc[i], "wrong bytes appended %s | history %s",
			  first_diff(hex(w.bufc[i], (size_t)-1), hex(bufbytes(w.bufs[i]), (size_t)-1)).c_str(), w.log.c_str());
		return;
	}
	case 16: { // an element of its own
		if (w.elems.size() >= 6)
			return;
		Elem e;
		e.t = ELEMENTS[s.below(ELEMENTS.size())];
		Gen g;
		set_gen(g);
		if (s.flip()) {
			Node n = gen(s, g, e.t);
			e.n = view(e.t, normalize_empty(view(e.t, n)));
			e.p = lbuild_element(e.t, e.n);
			w.log += strf("build:%s ", name_of(e.t));
		} else {
			g.wire = true;
			Node n = gen(s, g, e.t);
			Bytes b = encode(n);
			sml_buffer *buf = pbuf(b);
			e.p = lparse_element(e.t, buf);
			CHECK(!sml_buf_has_errors(buf), "%s does not parse: %s", name_of(e.t), hex(b).c_str());
			sml_buffer_free(buf);
			e.n = view(e.t, n);
			w.log += strf("parse:%s ", name_of(e.t));
		}
		w.elems.push_back(e);
		return;
	}
	case 17: {
		if (w.elems.empty())
			return;
		size_t i = s.below(w.elems.size());
		Elem e = w.elems[i];
		w.elems.erase(w.elems.begin() + (long)i);
		std::string got = ldump_element(e.t, e.p), want = dump(e.n);
		CHECK(got == want, "%s changed %s | history %s", name_of(e.t), first_diff(want, got).c_str(), w.log.c_str());
		if (e.p || e.t == T_OCT)
			lfree_element(e.t, e.p);
		w.log += strf("free:%s ", name_of(e.t));
		return;
	}
	case 18: { // damaged input in between
		Bytes b = hostile_file(s);
		if (b.size() > 2000)
			b.resize(2000);
		sml_file *f = lparse_file(b);
		if (s.flip()) {
			sml_file_write(f);
			sml_file_write(f);
		}
		sml_file_free(f);
		w.log += "hostile ";
		return;
	}
	default:
		if (!w.bufs.empty()) {
			sml_buffer_free(w.bufs.back());
			w.bufs.pop_back();
			w.bufc.pop_back();
			w.log += "free-buffer ";
		}
	}
}
static void finish(World &w) {
	for (auto &f : w.files) {
		check_out(w, f, "at the end");
		for (auto &m : f.m)
			check_content(w, m, "at the end");
		sml_file_write(f.p); // still writable
		for (auto &m : f.m)
			f.out += bytes_of(m.n);
		check_out(w, f, "write at the end");
		sml_file_free(f.p);
	}
	for (auto &m : w.loose)
		sml_message_free(m.p);
	for (auto &e : w.elems)
		if (e.p || e.t == T_OCT)
			lfree_element(e.t, e.p);
	for (auto *b : w.bufs)
		sml_buffer_free(b);
}
static void history(Src &s, size_t n) {
	LeakScope L;
	{
		World w;
		bool rich = false;
		for (size_t i = 0; i < n; i++) {
			op(s, w);
			for (auto &f : w.files)
				rich |= f.writes + f.sends >= 2 && (f.edits || f.parsed || f.writes * f.sends);
		}
		if (rich) {
			nontrivial(hash_str(w.log) ^ s.hash);
			sample(w.log);
		}
		finish(w);
		long leak = alloc_stats().live - L.live0;
		CHECK(leak == 0, "%ld block(s) leaked by the library | history %s", leak, w.log.c_str());
	}
	fflush(stdout);
}
static void t_history(Src &s) { history(s, 4 + s.below(40)); }
static void t_long(Src &s) { history(s, 400); }
// one file, written again and again: the output and the time stay in proportion
static void t_again(Src &s) {
	LeakScope L;
	Msg m = build(s);
	sml_file *f = sml_file_init();
	sml_file_add_message(f, m.p);
	Bytes one = bytes_of(m.n), all;
	size_t n = 20 + s.below(300);
	if (s.chance(1, 100)) { // to megabytes
		size_t to = s.chance(1, 10) ? 40 << 20 : s.below(5 << 20);
		n = to / (one.size() + 1) + 1;
		if (n > 200000)
			n = 200000;
		label("to megabytes");
	}
	sml_file_write(f); // the checksum is allocated now
	size_t live = (size_t)alloc_stats().live;
	all = one;
	for (size_t i = 0; i < n; i++) {
		sml_file_write(f);
		all += one;
		CHECK(f->buf->cursor == all.size(), "write %zu ends at %zu instead of %zu", i + 2, (size_t)f->buf->cursor, all.size());
	}
	if (bufbytes(f->buf) != all)
		fail("%zu writes: %s", n, first_diff(hex(all, (size_t)-1), hex(bufbytes(f->buf), (size_t)-1)).c_str());
	CHECK((size_t)alloc_stats().live == live, "%ld more blocks after %zu writes", alloc_stats().live - (long)live, n);
	sml_file_free(f);
	L.check("repeated writing");
	nontrivial(hash_str(one) ^ n);
}
// objects of which only some fields were ever set
static bool hollow(Src &s, T t, Node &n) {
	if (n.k != Node::LIST)
		return false;
	bool some = false;
	auto maybe = [&](T e, Node &c) {
		if (s.chance(1, 3)) {
			some |= c.k != Node::ABSENT && !is_optional(e);
			c = Node::absent();
		} else
			some |= hollow(s, e, c);
	};
	if (const std::vector<T> *f = fields_of(t)) {
		for (size_t i = 0; i < f->size(); i++)
			maybe((*f)[i], n.c[i]);
	} else if (elem_of(t) != T_NONE) {
		for (auto &c : n.c)
			some |= hollow(s, elem_of(t), c);
	} else if (t == T_TREE) {
		maybe(T_OCT, n.c[0]);
		maybe(T_PPV, n.c[1]);
		for (auto &c : n.c[2].c)
			some |= hollow(s, T_TREE, c);
	} else if (t == T_PPV) {
		static const T of[] = {T_NONE, T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		if (n.c[1].k != Node::ABSENT && s.chance(1, 3)) {
			n.c[1] = Node::absent();
			some = true;
		} else if (n.c[0].v < 5)
			some |= hollow(s, of[n.c[0].v], n.c[1]);
	} else if (t == T_TIME)
		for (int i = 0; i < 2; i++)
			if (s.chance(1, 4)) {
				n.c[i] = Node::absent();
				some = true;
			}
	return some;
}
static void t_partial(Src &s) {
	Gen g;
	g.budget = 60;
	g.empty_oct = s.flip();
	bool msg = s.flip();
	int kind = (int)s.below(14);
	T t = msg ? MSG_T[kind] : ELEMENTS[s.below(ELEMENTS.size())];
	if (t == T_BODY)
		t = T_LIST_RES;
	LeakScope L;
	Node n = gen(s, g, t);
	bool some = hollow(s, t, n);
	void *p = lbuild_element(t, n);
	if (!msg) {
		if (p)
			lfree_element(t, p);
	} else {
		sml_message *m = sml_message_init();
		m->message_body = sml_message_body_init(MSG_TAG[kind], p);
		if (s.flip())
			m->group_id = sml_u8_init(1);
		if (s.flip())
			m->abort_on_error = sml_u8_init(1);
		if (s.flip()) {
			sml_file *f = sml_file_init();
			sml_file_add_message(f, m);
			if (s.chance(1, 3))
				sml_file_add_message(f, sml_message_init());
			sml_file_free(f);
		} else
			sml_message_free(m);
	}
	L.check(strf("%s with some fields unset: %s", name_of(t), shortstr(dump(n), 300).c_str()).c_str());
	if (some)
		nontrivial(hash_str(dump(n)));
	label(name_of(t));
}
// freeing what was never made, and what was never filled
static void t_nothing(Src &s) {
	LeakScope L;
	for (T t : ELEMENTS)
		if (t != T_VALLIST || s.flip())
			lfree_element(t, nullptr);
	sml_message_free(nullptr);
	sml_file_free(nullptr);
	sml_buffer_free(nullptr);
	sml_message_free(sml_message_init());
	sml_file_free(sml_file_init());
	sml_buffer_free(sml_buffer_init(s.below(100)));
#define EMPTY(x) x##_free(x##_init())
	EMPTY(sml_attention_response);
	EMPTY(sml_close_request);
	EMPTY(sml_close_response);
	EMPTY(sml_get_list_request);
	EMPTY(sml_get_list_response);
	EMPTY(sml_get_proc_parameter_request);
	EMPTY(sml_get_proc_parameter_response);
	sml_get_profile_list_request_free(sml_get_profile_list_request_init());
	EMPTY(sml_get_profile_list_response);
	EMPTY(sml_get_profile_pack_request);
	EMPTY(sml_get_profile_pack_response);
	EMPTY(sml_open_request);
	EMPTY(sml_open_response);
	EMPTY(sml_set_proc_parameter_request);
	EMPTY(sml_list);
	EMPTY(sml_period_entry);
	EMPTY(sml_proc_par_value);
	EMPTY(sml_prof_obj_header_entry);
	EMPTY(sml_prof_obj_period_entry);
	EMPTY(sml_status);
	EMPTY(sml_time);
	EMPTY(sml_tree);
	EMPTY(sml_tree_path);
	EMPTY(sml_tupel_entry);
	EMPTY(sml_value_entry);
	EMPTY(sml_value);
	L.check("nothing");
	nontrivial(s.u64());
}
Prop the_prop() {
	return {"C15",
			{{"history", t_history, 60000, 1200000, "call histories over several files, messages, elements and buffers; non-trivial = a file written or sent twice that was also edited, parsed, or both written and sent", nullptr, true},
			 {"long", t_long, 1500, 30000, "histories of 400 calls; non-trivial as above", nullptr, false},
			 {"partial", t_partial, 150000, 3000000, "messages and elements of which some fields were never set; non-trivial = a mandatory one is missing", nullptr, true},
			 {"nothing", t_nothing, 200, 2000, "every kind of object empty, or never made; every case is non-trivial", nullptr, false},
			 {"again", t_again, 3000, 60000, "one file written 20 to 320 times; every case is non-trivial", nullptr, false}}};
}
