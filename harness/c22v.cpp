// Runs one operation with the library this is linked with and describes the outcome.
// Part of the check itself and of each shared object with the library compiled otherwise.
#include "c22.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

static std::string *listened;
static void receiver(unsigned char *b, size_t n) { *listened += hex(Bytes((char *)b, n), (size_t)-1) + "\n"; }

static int memfd(const Bytes &b) {
	int fd = memfd_create("stream", 0);
	if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size() || lseek(fd, 0, SEEK_SET))
		abort();
	return fd;
}
static std::string bits(double d) {
	uint64_t x;
	memcpy(&x, &d, 8);
	return strf("%016llx", (unsigned long long)x);
}
static std::string file_outcome(const Bytes &b) {
	sml_file *f = lparse_file(b);
	std::string o = ldump_file(f);
	size_t from = f->buf->cursor;
	sml_file_write(f);
	Bytes w = bufbytes(f->buf, from);
	o += "written " + hex(w, (size_t)-1) + "\n";
	sml_file_free(f);
	f = lparse_file(w);
	o += ldump_file(f);
	sml_file_free(f);
	return o;
}
static sml_file *built(const std::vector<Node> &ms) {
	sml_file *f = sml_file_init();
	for (auto &m : ms)
		sml_file_add_message(f, lbuild_message(m));
	return f;
}

extern "C" __attribute__((visibility("default"))) void VARIANT_RUN(const Op *op, std::string *out) {
	std::string &o = *out;
	const Bytes &b = op->b;
	switch (op->k) {
	case Op::FILE_: o = file_outcome(b); break;
	case Op::ELEMENT: {
		sml_buffer *buf = pbuf(b, op->at);
		void *p = lparse_element(op->t, buf);
		int err = !!sml_buf_has_errors(buf);
		o = strf("error %d", err);
		if (!err)
			o += strf(" position %zu ", (size_t)buf->cursor) + ldump_element(op->t, p);
		if (!err && p) {
			sml_buffer *w = sml_buffer_init(op->x[0] % 600 + 1);
			lwrite_element(op->t, p, w);
			o += " written " + hex(bufbytes(w), (size_t)-1);
			sml_buffer_free(w);
		}
		if (p)
			lfree_element(op->t, p);
		sml_buffer_free(buf);
		break;
	}
	case Op::MESSAGE: {
		sml_buffer *buf = pbuf(b, op->at);
		sml_message *m = sml_message_parse(buf);
		o = strf("error %d ", !!sml_buf_has_errors(buf));
		if (m) {
			o += strf("position %zu ", (size_t)buf->cursor) + ldump_message(m);
			sml_message_free(m);
		}
		sml_buffer_free(buf);
		break;
	}
	case Op::BUILD: {
		sml_file *f = built(op->ms);
		for (uint64_t i = op->x[0] % 3 + 1; i > 0; i--)
			sml_file_write(f);
		o = hex(bufbytes(f->buf), (size_t)-1) + " " + ldump_file(f);
		sml_file_free(f);
		break;
	}
	case Op::VALUE: {
		sml_value *v = (sml_value *)lbuild_element(T_VALUE, op->ms[0]);
		if (op->ms[0].k != Node::OCT)
			o = bits(sml_value_to_double(v));
		for (int mixed = 0; mixed < 2 && op->ms[0].k == Node::OCT; mixed++) {
			char *r = nullptr, *p = sml_value_to_strhex(v, &r, mixed);
			o += p ? std::string(" '") + p + "'" : " none";
			free(p);
		}
		sml_value_free(v);
		break;
	}
	case Op::STRINGS: {
		octet_string *x = sml_octet_string_init((unsigned char *)b.data(), (int)b.size()), *y = sml_octet_string_init((unsigned char *)op->b2.data(), (int)op->b2.size());
		int c = sml_octet_string_cmp(x, y);
		std::vector<char> t(op->text.c_str(), op->text.c_str() + op->text.size() + 1);
		o = strf("compare %d, with hex %d", (c > 0) - (c < 0), sml_octet_string_cmp_with_hex(x, t.data()) == 0);
		octet_string *h = sml_octet_string_init_from_hex(t.data());
		o += h ? " from hex " + hex(Bytes((char *)h->str, (size_t)h->len), (size_t)-1) : " no string";
		sml_octet_string_free(x);
		sml_octet_string_free(y);
		sml_octet_string_free(h);
		break;
	}
	case Op::LENGTHS: {
		sml_buffer *buf = pbuf(b, op->at);
		for (int i = 0; i < 5 && buf->cursor < buf->buffer_len && !sml_buf_has_errors(buf); i++) {
			o += strf(" skipped %d", !!sml_buf_optional_is_skipped(buf));
			if (buf->cursor >= buf->buffer_len)
				break;
			int ty = sml_buf_get_next_type(buf);
			int l = sml_buf_get_next_length(buf);
			o += strf(" type %02x error %d", ty, !!sml_buf_has_errors(buf));
			if (!sml_buf_has_errors(buf))
				o += strf(" length %d position %zu", l, (size_t)buf->cursor);
		}
		sml_buffer_free(buf);
		buf = sml_buffer_init(op->x[1] % 40 + 1);
		for (int i = 0; i < 3; i++)
			sml_buf_set_type_and_length(buf, (unsigned)(op->x[0] >> (8 * i)) & 0x70, (unsigned)(op->x[2] >> (9 * i)) & 0x7fffffff);
		sml_buf_optional_write(buf);
		o += " written " + hex(bufbytes(buf), (size_t)-1);
		sml_buffer_free(buf);
		break;
	}
	case Op::CRC: {
		std::vector<unsigned char> v(b.begin(), b.end());
		o = strf("%04x %04x", sml_crc16_calculate(v.data(), (int)v.size()), sml_crc16kermit_calculate(v.data(), (int)v.size()));
		break;
	}
	case Op::NUMBERS: {
		static const int W[] = {1, 2, 4, 8};
		for (int i = 0; i < 8; i++) {
			int w = W[i / 2], ty = i & 1 ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED;
			void *p = sml_number_init(op->x[0], (unsigned char)ty, w);
			sml_buffer *buf = sml_buffer_init(1 + op->x[1] % 20);
			sml_number_write(p, (unsigned char)ty, w, buf);
			sml_number_write(nullptr, (unsigned char)ty, w, buf);
			o += hex(bufbytes(buf), (size_t)-1) + " " + hex(Bytes((char *)p, (size_t)w)) + " ";
			sml_number_free(p);
			sml_buffer_free(buf);
		}
		break;
	}
	case Op::RECEIVE: {
		int fd = memfd(b);
		size_t max = op->x[0];
		std::vector<unsigned char> buf(max);
		for (int i = 0; i < 1000; i++) {
			size_t n = sml_transport_read(fd, buf.data(), max);
			if (!n)
				break;
			o += hex(Bytes((char *)buf.data(), n), (size_t)-1) + "\n";
		}
		lseek(fd, 0, SEEK_SET);
		listened = &o;
		o += "listening\n";
		sml_transport_listen(fd, receiver);
		close(fd);
		break;
	}
	case Op::SEND: {
		sml_file *f = built(op->ms);
		int fd = memfd("");
		for (int i = 0; i < 2; i++)
			o += strf("%d ", (int)sml_transport_write(fd, f));
		sml_file_free(f);
		Bytes got((size_t)lseek(fd, 0, SEEK_END), 0);
		if (pread(fd, &got[0], got.size(), 0) != (ssize_t)got.size())
			abort();
		close(fd);
		o += hex(got, (size_t)-1);
		break;
	}
	}
}
