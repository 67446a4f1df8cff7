// Between libsml structures and the model, using public headers only.
#pragma once
#include "model.h"
#include <sml/sml_attention_response.h>
#include <sml/sml_boolean.h>
#include <sml/sml_close_request.h>
#include <sml/sml_close_response.h>
#include <sml/sml_crc16.h>
#include <sml/sml_file.h>
#include <sml/sml_get_list_request.h>
#include <sml/sml_get_list_response.h>
#include <sml/sml_get_proc_parameter_request.h>
#include <sml/sml_get_proc_parameter_response.h>
#include <sml/sml_get_profile_list_request.h>
#include <sml/sml_get_profile_list_response.h>
#include <sml/sml_get_profile_pack_request.h>
#include <sml/sml_get_profile_pack_response.h>
#include <sml/sml_list.h>
#include <sml/sml_message.h>
#include <sml/sml_number.h>
#include <sml/sml_octet_string.h>
#include <sml/sml_open_request.h>
#include <sml/sml_open_response.h>
#include <sml/sml_set_proc_parameter_request.h>
#include <sml/sml_shared.h>
#include <sml/sml_status.h>
#include <sml/sml_time.h>
#include <sml/sml_transport.h>
#include <sml/sml_tree.h>
#include <sml/sml_value.h>

// rendering of library structures, same format as dump()
std::string ldump_element(T t, const void *p);
std::string ldump_message(const sml_message *m, bool with_crc = true);
std::string ldump_file(const sml_file *f, bool with_crc = true); // one message per line
std::string dump_messages(const std::vector<Node> &m);           // same format from the model

// construction through the public interface
void *lbuild_element(T t, const Node &n);
sml_message *lbuild_message(const Node &m, bool init = true);
// parse, write, free by element type (single elements; T_ENTRY is not public)
bool has_public_parser(T t);
void *lparse_element(T t, sml_buffer *b);
void lwrite_element(T t, void *p, sml_buffer *b);
void lfree_element(T t, void *p);

// a buffer prepared for parsing exactly these bytes
sml_buffer *pbuf(const Bytes &b, size_t at = 0);
inline Bytes bufbytes(const sml_buffer *b, size_t from = 0) {
	return Bytes((const char *)b->buffer + from, b->cursor - from);
}
// a buffer of several GiB, nearly all of it untouched, with the bytes around an offset beyond 32 bit integers
struct Far {
	sml_buffer buf;
	size_t at, touched = 0;
	Far(Src &s, const Bytes &b);              // for parsing exactly these bytes
	Far(Src &s, size_t room, unsigned char c); // for writing, room before the end; filled with c
	~Far();
};
// parse from a heap block of exactly the right size (so that overreads are seen)
sml_file *lparse_file(const Bytes &b);

// allocation accounting (alloc.cpp)
struct AllocStats {
	long live;         // blocks allocated by the library and not yet freed
	size_t live_bytes; // their size
	size_t peak;       // highest live_bytes since reset_peak
};
AllocStats alloc_stats();
void alloc_reset_peak();
void work_limit(uint64_t steps); // likewise for executed basic blocks (only with work.cpp)
uint64_t work_done();
void alloc_set_limit(size_t peak_limit); // fail the case when exceeded, 0 = no limit
void alloc_set_fill(unsigned char pattern);
void alloc_set_refuse(size_t n); // malloc of more than n bytes finds no memory
// n bytes of memory (plus a terminating zero byte) that repeat the pattern, whose length must be a power of two of at
// least 4096, without occupying memory
struct Repeated {
	unsigned char *p;
	size_t n, mapped;
	Repeated(const Bytes &pattern, size_t n);
	~Repeated();
};
// scope that checks that everything allocated inside was freed
struct LeakScope {
	long live0;
	LeakScope() : live0(alloc_stats().live) {}
	void check(const char *what) {
		long n = alloc_stats().live - live0;
		CHECK(n == 0, "%ld block(s) leaked by the library (%s)", n, what);
	}
};
