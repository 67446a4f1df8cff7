// C23: buffers grow without losing content, and building and writing take time and memory in proportion
#include "bridge.h"
#include "mutate.h"
#include <algorithm>

// ---------------------------------------------------------------- operations on buffers

struct Model {
	sml_buffer *b;
	Bytes is; // up to the cursor
	bool error = false; // from reading where there is nothing to read
};
static void same(const Model &m, const char *after) {
	CHECK(m.b->cursor == m.is.size(), "after %s the position is %zu instead of %zu", after, (size_t)m.b->cursor, m.is.size());
	CHECK(m.b->cursor <= m.b->buffer_len, "after %s the position %zu is behind the buffer of %zu", after, (size_t)m.b->cursor, (size_t)m.b->buffer_len);
	CHECK(!m.is.size() || !memcmp(m.b->buffer, m.is.data(), m.is.size()), "after %s the content differs %s", after,
		  first_diff(hex(m.is, (size_t)-1), hex(Bytes((const char *)m.b->buffer, m.is.size()), (size_t)-1)).c_str());
	CHECK(!!sml_buf_has_errors(m.b) == m.error, "after %s there is %s error", after, m.error ? "no" : "an");
}
static size_t size(Src &s) {
	switch (s.below(6)) {
	case 0: return 0;
	case 1: return s.below(2000);
	case 2: return s.chance(1, 10) ? s.below(100000) : s.below(8);
	default: return s.below(40);
	}
}
static void op(Src &s, Model &m, bool &grown) {
	size_t len = m.b->buffer_len;
	const char *what = "";
	switch (s.below(9)) {
	case 8: { // an error in reading does not keep what follows from being written
		if (!s.chance(1, 4))
			return;
		what = "reading at the end";
		m.b->cursor = m.b->buffer_len;
		sml_buf_get_next_type(m.b);
		m.b->cursor = m.is.size();
		m.error = true;
		break;
	}
	case 0: { // room, not used
		what = "reserving";
		size_t n = size(s);
		sml_buf_reserve(m.b, n);
		CHECK(m.b->buffer_len - m.b->cursor >= n, "%zu bytes reserved, but there is room for %zu", n, (size_t)(m.b->buffer_len - m.b->cursor));
		break;
	}
	case 1:
	case 2: { // room, used
		what = "writing into reserved room";
		Bytes x = s.bytes(size(s));
		sml_buf_reserve(m.b, x.size());
		CHECK(m.b->buffer_len - m.b->cursor >= x.size(), "%zu bytes reserved, but there is room for %zu", x.size(), (size_t)(m.b->buffer_len - m.b->cursor));
		if (!x.empty())
			memcpy(sml_buf_get_current_buf(m.b), x.data(), x.size());
		sml_buf_update_bytes_read(m.b, (int)x.size());
		m.is += x;
		break;
	}
	case 3:
		what = "writing the skipped marker";
		sml_buf_optional_write(m.b);
		m.is += '\x01';
		break;
	case 4: {
		what = "writing a length field";
		static const unsigned types[] = {SML_TYPE_OCTET_STRING, SML_TYPE_LIST};
		unsigned t = s.pick(types);
		uint64_t l = s.below(1 + s.below(70000));
		sml_buf_set_type_and_length(m.b, t, (unsigned)l);
		put_tl(m.is, t, l);
		break;
	}
	case 5: {
		what = "writing an element";
		Gen g;
		g.budget = 10;
		T t = ELEMENTS[s.below(ELEMENTS.size())];
		Node n = gen(s, g, t);
		void *p = lbuild_element(t, n);
		lwrite_element(t, p, m.b);
		if (p)
			lfree_element(t, p);
		m.is += encode(n);
		break;
	}
	case 6: { // back, as for writing a file again
		what = "going back";
		size_t to = s.below(m.is.size() + 1);
		m.b->cursor = to;
		m.is.resize(to);
		break;
	}
	default: { // what is in front of the position may be changed, and read
		what = "changing a byte";
		if (m.is.empty())
			break;
		size_t at = s.below(m.is.size());
		m.b->buffer[at] = (unsigned char)(m.is[at] ^= (char)(1 + s.below(255)));
		size_t cur = m.b->cursor;
		m.b->cursor = at;
		unsigned char c = sml_buf_get_current_byte(m.b);
		int t = sml_buf_get_next_type(m.b);
		CHECK(c == (unsigned char)m.is[at] && sml_buf_get_current_buf(m.b) == m.b->buffer + at && t == (c & 0x70) && m.b->cursor == at,
			  "reading byte %zu gives %02x (type %02x) instead of %02x", at, c, t, (unsigned char)m.is[at]);
		m.b->cursor = cur;
	}
	}
	grown |= m.b->buffer_len != len;
	same(m, what);
}
static void t_ops(Src &s) {
	LeakScope L;
	std::vector<Model> v;
	size_t n = 1 + s.below(3);
	for (size_t i = 0; i < n; i++) {
		size_t len = size(s);
		v.push_back({sml_buffer_init(len), Bytes(), false});
		CHECK(v[i].b->buffer_len >= len, "a new buffer of %zu bytes instead of %zu", (size_t)v[i].b->buffer_len, len);
		same(v[i], "creation");
	}
	bool grown = false;
	uint64_t h = 0;
	for (size_t k = s.below(s.chance(1, 4) ? 120 : 25); k > 0; k--) {
		op(s, v[s.below(n)], grown);
		for (auto &m : v)
			same(m, "an operation on another buffer");
	}
	for (auto &m : v) {
		h = mix64(h ^ hash_str(m.is));
		sml_buffer_free(m.b);
	}
	L.check("buffers");
	if (grown)
		nontrivial(h);
	label(strf("%zu buffers", n).c_str());
}

// ---------------------------------------------------------------- cost

// executed basic blocks; the present code needs less than 10 per byte
static uint64_t steps(size_t n) { return 150 * n + 20000; }
template <class F> static void bounded(size_t n, F f) {
	alloc_reset_peak();
	alloc_set_limit(alloc_stats().live_bytes + 8 * n + 65536);
	work_limit(steps(n));
	f();
	uint64_t w = work_done();
	work_limit(0);
	alloc_set_limit(0);
	if (n > 2000)
		label(w < 5 * n ? "less than 5 steps per byte" : w < 15 * n ? "5 to 15 steps per byte" : "more than 15 steps per byte");
}
static void t_cost(Src &s) {
	Gen g;
	g.deep = s.flip();
	g.big = 6;
	std::string what = "any message";
	Node m = s.chance(1, 3) ? many_message(s, g, &what) : gen_message(s, g);
	Bytes want = encode_message(m);
	LeakScope L;
	sml_file *f = sml_file_init();
	size_t n = want.size() < 2000 ? 1 + s.below(s.chance(1, 8) ? 4000000 / want.size() : 2000) : 1; // times this message
	std::vector<sml_message *> ms;
	for (size_t i = 0; i < n; i++)
		ms.push_back(lbuild_message(m));
	bounded(n * 16, [&] {
		for (auto *x : ms)
			sml_file_add_message(f, x);
	});
	size_t from = f->buf->cursor;
	bounded(n * want.size(), [&] { sml_file_write(f); });
	CHECK(f->buf->cursor - from == n * want.size(), "%zu bytes written instead of %zu", (size_t)f->buf->cursor - from, n * want.size());
	bounded(n * want.size(), [&] { sml_file_write(f); }); // into the buffer with the first copy
	bounded(n * want.size(), [&] { sml_file_free(f); });
	L.check("cost");
	if (n * want.size() > 1000)
		nontrivial(hash_str(want) ^ n);
	label(what.c_str());
}
// many small additions
static void t_add(Src &s) {
	size_t n = 1000 + s.below(100000);
	LeakScope L;
	switch (s.below(5)) {
	case 4: {
		label("messages");
		std::vector<sml_message *> v;
		sml_file *f = sml_file_init();
		for (size_t i = 0; i < n; i++)
			v.push_back(sml_message_init());
		bounded(16 * n, [&] {
			for (auto *o : v)
				sml_file_add_message(f, o);
		});
		CHECK(f->messages_len == (int)n, "%d messages instead of %zu", f->messages_len, n);
		for (size_t i = 0; i < n; i++)
			CHECK(f->messages[i] == v[i], "message %zu of %zu is another one", i, n);
		bounded(16 * n, [&] { sml_file_free(f); });
		break;
	}
	case 0: {
		label("sequence");
		std::vector<octet_string *> v;
		sml_sequence *q = sml_sequence_init((void (*)(void *))sml_octet_string_free);
		for (size_t i = 0; i < n; i++)
			v.push_back(sml_octet_string_init((unsigned char *)"x", 1));
		bounded(16 * n, [&] {
			for (auto *o : v)
				sml_sequence_add(q, o);
		});
		CHECK(q->elems_len == (int)n, "%d elements instead of %zu", q->elems_len, n);
		for (size_t i = 0; i < n; i++)
			CHECK(q->elems[i] == v[i], "element %zu of %zu is another one", i, n);
		bounded(16 * n, [&] { sml_sequence_free(q); });
		break;
	}
	case 1: {
		label("tree");
		std::vector<sml_tree *> v;
		sml_tree *t = sml_tree_init();
		for (size_t i = 0; i < n; i++)
			v.push_back(sml_tree_init());
		bounded(16 * n, [&] {
			for (auto *o : v)
				sml_tree_add_tree(t, o);
		});
		CHECK(t->child_list_len == (int)n, "%d children instead of %zu", t->child_list_len, n);
		for (size_t i = 0; i < n; i++)
			CHECK(t->child_list[i] == v[i], "child %zu of %zu is another one", i, n);
		bounded(16 * n, [&] { sml_tree_free(t); });
		break;
	}
	case 2: {
		label("path");
		std::vector<octet_string *> v;
		sml_tree_path *t = sml_tree_path_init();
		for (size_t i = 0; i < n; i++)
			v.push_back(sml_octet_string_init((unsigned char *)"x", 1));
		bounded(16 * n, [&] {
			for (auto *o : v)
				sml_tree_path_add_path_entry(t, o);
		});
		CHECK(t->path_entries_len == (int)n, "%d entries instead of %zu", t->path_entries_len, n);
		for (size_t i = 0; i < n; i++)
			CHECK(t->path_entries[i] == v[i], "entry %zu of %zu is another one", i, n);
		bounded(16 * n, [&] { sml_tree_path_free(t); });
		break;
	}
	default: {
		label("buffer");
		sml_buffer *b = sml_buffer_init(s.below(600));
		bounded(4 * n, [&] {
			for (size_t i = 0; i < n; i++)
				sml_octet_string_write(nullptr, b);
		});
		CHECK(bufbytes(b) == Bytes(n, '\x01'), "%zu skipped markers are written as something else", n);
		sml_buffer_free(b);
	}
	}
	L.check("additions");
	nontrivial(n);
}
// ---------------------------------------------------------------- millions

static size_t count(Src &s) {
	static const size_t at[] = {1 << 20, 1 << 21, 1 << 22};
	return s.flip() ? 1000000 + s.below(3500000) : s.pick(at) - 3 + s.below(6);
}
// the element that stands at place i, in its encoding
static Bytes unit_of(size_t i) { return Bytes{(char)0x04, (char)i, (char)(i >> 8), (char)(i >> 16)}; }
static octet_string *string_of(size_t i) {
	Bytes u = unit_of(i);
	return sml_octet_string_init((unsigned char *)&u[1], 3);
}
static void t_huge(Src &s) {
	size_t n = count(s);
	Bytes want, one;
	sml_buffer *b = sml_buffer_init(s.below(600));
	switch (s.below(5)) {
	case 0: {
		label("value list");
		sml_list *l = sml_list_init(), *p = l;
		put_tl(want, 0x70, n);
		for (size_t i = 0; i < n; i++) {
			if (i) {
				sml_list_add(p, sml_list_init());
				p = p->next;
			}
			p->obj_name = string_of(i);
			want += "\x77" + unit_of(i) + "\x01\x01\x01\x01\x01\x01";
		}
		sml_list_write(l, b);
		sml_list_free(l);
		CHECK(bufbytes(b) == want, "a list of %zu entries is written as something else", n);
		b->buffer_len = b->cursor;
		b->cursor = 0;
		l = sml_list_parse(b);
		size_t k = 0;
		for (p = l; p; p = p->next, k++)
			CHECK(p->obj_name && p->obj_name->len == 3 && !memcmp(p->obj_name->str, &unit_of(k)[1], 3), "entry %zu of %zu is another one", k, n);
		CHECK(k == n && b->cursor == want.size() && !sml_buf_has_errors(b), "%zu of %zu entries are read", k, n);
		sml_list_free(l);
		break;
	}
	case 1: {
		label("path");
		sml_tree_path *t = sml_tree_path_init();
		put_tl(want, 0x70, n);
		for (size_t i = 0; i < n; i++) {
			sml_tree_path_add_path_entry(t, string_of(i));
			want += unit_of(i);
		}
		sml_tree_path_write(t, b);
		sml_tree_path_free(t);
		CHECK(bufbytes(b) == want, "a path of %zu entries is written as something else", n);
		b->buffer_len = b->cursor;
		b->cursor = 0;
		t = sml_tree_path_parse(b);
		CHECK(t && t->path_entries_len == (int)n && b->cursor == want.size(), "%d of %zu entries are read", t ? t->path_entries_len : 0, n);
		for (size_t k = 0; k < n; k++)
			CHECK(t->path_entries[k]->len == 3 && !memcmp(t->path_entries[k]->str, &unit_of(k)[1], 3), "entry %zu of %zu is another one", k, n);
		sml_tree_path_free(t);
		break;
	}
	case 2: {
		label("tree");
		sml_tree *t = sml_tree_init();
		t->parameter_name = sml_octet_string_init((unsigned char *)"t", 1);
		want = "\x73\x02t\x01";
		put_tl(want, 0x70, n);
		for (size_t i = 0; i < n; i++) {
			sml_tree *c = sml_tree_init();
			c->parameter_name = string_of(i);
			sml_tree_add_tree(t, c);
			want += "\x73" + unit_of(i) + "\x01\x01";
		}
		sml_tree_write(t, b);
		sml_tree_free(t);
		CHECK(bufbytes(b) == want, "a tree of %zu children is written as something else", n);
		b->buffer_len = b->cursor;
		b->cursor = 0;
		t = sml_tree_parse(b);
		CHECK(t && t->child_list_len == (int)n && b->cursor == want.size(), "%d of %zu children are read", t ? t->child_list_len : 0, n);
		for (size_t k = 0; k < n; k++)
			CHECK(!memcmp(t->child_list[k]->parameter_name->str, &unit_of(k)[1], 3), "child %zu of %zu is another one", k, n);
		sml_tree_free(t);
		break;
	}
	case 3: {
		label("sequence");
		sml_sequence *q = sml_sequence_init((void (*)(void *))sml_octet_string_free);
		put_tl(want, 0x70, n);
		for (size_t i = 0; i < n; i++) {
			sml_sequence_add(q, string_of(i));
			want += unit_of(i);
		}
		sml_sequence_write(q, b, (void (*)(void *, sml_buffer *))sml_octet_string_write);
		sml_sequence_free(q);
		CHECK(bufbytes(b) == want, "a sequence of %zu strings is written as something else", n);
		b->buffer_len = b->cursor;
		b->cursor = 0;
		q = sml_sequence_parse(b, (void *(*)(sml_buffer *))sml_octet_string_parse, (void (*)(void *))sml_octet_string_free);
		CHECK(q && q->elems_len == (int)n && b->cursor == want.size(), "%d of %zu strings are read", q ? q->elems_len : 0, n);
		for (size_t k = 0; k < n; k++)
			CHECK(!memcmp(((octet_string *)q->elems[k])->str, &unit_of(k)[1], 3), "string %zu of %zu is another one", k, n);
		sml_sequence_free(q);
		break;
	}
	default: {
		label("messages");
		n /= 4;
		sml_file *f = sml_file_init();
		for (size_t i = 0; i < n; i++) {
			sml_message *m = sml_message_init();
			sml_octet_string_free(m->transaction_id);
			m->transaction_id = string_of(i);
			m->group_id = sml_u8_init(1);
			m->abort_on_error = sml_u8_init(0);
			sml_close_request *c = sml_close_request_init();
			m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_REQUEST, c);
			sml_file_add_message(f, m);
		}
		sml_file_write(f);
		size_t at = 0, len = f->buf->cursor;
		std::vector<unsigned char> wire(f->buf->buffer, f->buf->buffer + len);
		Bytes head;
		for (size_t i = 0; i < n; i++) {
			one = "\x76" + unit_of(i) + Bytes("\x62\x01\x62\x00\x72\x65\x00\x00\x02\x00\x71\x01", 12);
			one += encode(Node::num(false, 2, ref_crc_x25_swapped(one))) + Bytes(1, '\0');
			CHECK(at + one.size() <= len && !memcmp(&wire[at], one.data(), one.size()), "message %zu of %zu is written as something else", i, n);
			at += one.size();
		}
		CHECK(at == len, "%zu bytes behind the last of %zu messages", len - at, n);
		sml_file_free(f);
		f = sml_file_parse(wire.data(), len);
		CHECK(f->messages_len == (int)n, "%d of %zu messages are read", f->messages_len, n);
		for (size_t k = 0; k < n; k++)
			CHECK(!memcmp(f->messages[k]->transaction_id->str, &unit_of(k)[1], 3), "message %zu of %zu is another one", k, n);
		sml_file_free(f);
	}
	}
	sml_buffer_free(b);
	nontrivial(n);
}
Prop the_prop() {
#ifdef HUGE_ONLY
	return {"C23", {{"huge", t_huge, 24, 300, "lists, paths, trees and sequences of millions, files of hundreds of thousands; every case is non-trivial", nullptr, false}}};
#endif
	return {"C23",
			{{"ops", t_ops, 300000, 6000000, "histories of operations on one to three buffers; non-trivial = one had to grow, distinct by the content", nullptr, true},
			 {"cost", t_cost, 500, 12000, "files of one or many messages of up to a megabyte; non-trivial = more than 1000 bytes", nullptr, false},
			 {"add", t_add, 300, 4800, "1000 to 101000 additions to one object; every case is non-trivial", nullptr, false}}};
}
