// An SML data model that is independent of libsml: generic tree, schema tables,
// generators, reference encoder and reference decoder.
#pragma once
#include "engine.h"

// element types of the SML structures
enum T {
	T_OCT, T_U8, T_U16, T_U32, T_U64, T_I8, T_I16, T_I32, T_I64, T_BOOL, // optional primitives
	T_VALUE,   // optional: string, boolean or number of any width
	T_STATUS,  // optional unsigned of any width
	T_TIME,    // optional
	T_VALLIST, // optional list of T_ENTRY
	T_PATH,    // optional list of strings
	T_OBJLIST, // optional list of strings
	T_TREE, T_PPV, T_PERIOD, T_TUPEL,
	T_ENTRY, T_HEADER, T_PENTRY, T_VENTRY,                     // mandatory structs
	T_SEQ_HEADER, T_SEQ_PENTRY, T_SEQ_VENTRY, T_SEQ_PERIOD,    // mandatory sequences
	T_OPEN_REQ, T_OPEN_RES, T_CLOSE_REQ, T_CLOSE_RES, T_PACK_REQ, T_PACK_RES, T_PLIST_REQ, T_PLIST_RES,
	T_GPP_REQ, T_GPP_RES, T_SPP_REQ, T_LIST_REQ, T_LIST_RES, T_ATTENTION,
	T_BODY,                                                    // mandatory: tag and one of the messages
	T_NONE
};
static const T MSG_T[14] = {T_OPEN_REQ, T_OPEN_RES, T_CLOSE_REQ, T_CLOSE_RES, T_PACK_REQ, T_PACK_RES, T_PLIST_REQ,
							T_PLIST_RES, T_GPP_REQ, T_GPP_RES, T_SPP_REQ, T_LIST_REQ, T_LIST_RES, T_ATTENTION};
static const uint32_t MSG_TAG[14] = {0x100, 0x101, 0x200, 0x201, 0x300, 0x301, 0x400,
									 0x401, 0x500, 0x501, 0x600, 0x700, 0x701, 0xff01};
const std::vector<T> *fields_of(T t); // of a struct type, null otherwise
T type_of_tag(uint32_t tag);          // T_NONE if unknown
T elem_of(T t);                       // element type of a list type
const char *name_of(T t);
bool is_optional(T t);                // may be replaced by the skipped marker

struct Node {
	enum K : uint8_t { ABSENT, OCT, NUM, BOOL, LIST } k = ABSENT;
	bool sgn = false;   // NUM
	uint8_t width = 0;  // NUM: 1, 2, 4, 8
	uint64_t v = 0;     // NUM: two's complement in width bytes; BOOL: 0 or 1
	Bytes b;            // OCT
	std::vector<Node> c; // LIST
	// how to encode it, used by the non-canonical encoder only
	uint8_t tlpad = 0;  // additional leading zero length fields
	uint8_t nbytes = 0; // NUM: value bytes to use, 0 = width; BOOL: what stands for true in memory (0 = 0xff)
	uint8_t raw = 0;    // BOOL: the byte used for true (0 = 0xff)
	uint8_t form = 0;   // T_TIME: 1 = bare u32, 2 = three element list
	int dlen = 0;       // damage: added to the announced length or count
	uint8_t xtype = 0;  // damage: XORed into the first byte
	uint8_t as = 1;     // damage: type bits to use instead of the right ones, with the same length or count (1 = none)

	static Node absent() { return Node(); }
	static Node oct(const Bytes &s) {
		Node n;
		n.k = OCT;
		n.b = s;
		return n;
	}
	static Node num(bool sgn, int width, uint64_t v) {
		Node n;
		n.k = NUM;
		n.sgn = sgn;
		n.width = (uint8_t)width;
		n.v = width == 8 ? v : v & ((1ull << (8 * width)) - 1);
		return n;
	}
	static Node boolean(bool x) {
		Node n;
		n.k = BOOL;
		n.v = x;
		return n;
	}
	static Node list(std::vector<Node> c = {}) {
		Node n;
		n.k = LIST;
		n.c = std::move(c);
		return n;
	}
	template <class... A> static Node of(A &&...a) { // a list, moving from temporaries
		Node n;
		n.k = LIST;
		n.c.reserve(sizeof...(a));
		(n.c.push_back(std::forward<A>(a)), ...);
		return n;
	}
	int64_t sv() const { // signed value
		int sh = 64 - 8 * width;
		return (int64_t)(v << sh) >> sh;
	}
};

// text rendering, the common ground for comparisons
std::string dump(const Node &n);
void dump_to(std::string &o, const Node &n);

// ------------------------------------------------------------------ generators

struct Gen {
	bool wire = false;      // permitted encoding variations and odd but legal forms
	bool dzg = false;       // may produce DZG serial numbers and power readings
	bool empty_oct = false; // present but empty strings (wire form 80 02)
	int budget = 120;       // rough bound on the number of nodes
	int big = 0;            // 1/big chance for large sizes, 0 = never
	bool deep = false;      // sometimes very deep trees
	bool full_path = false; // no absent or empty path entries
};
Node gen(Src &s, Gen &g, T t, int depth = 0);
// a message: [transaction id, group, abort, [tag, data]]
Node gen_message(Src &s, Gen &g);
Node gen_message_of(Src &s, Gen &g, int kind);
// what a correct reader reports for a legally encoded element
Node view(T t, const Node &n);
Node view_message(const Node &n); // of a message without checksum
// as view, for what is built through the interface (empty strings are absent on the wire)
Node normalize_empty(const Node &n);
size_t count_nodes(const Node &n);
// what remains of a viewed element after writing it (and parsing that again)
Node written(T t, const Node &n);
Node written_message(const Node &n);

// ------------------------------------------------------------------ reference encoder

uint16_t ref_crc_x25_swapped(const Bytes &b);
uint16_t ref_crc_kermit(const Bytes &b);
void put_tl(Bytes &o, unsigned type, uint64_t len_or_count, unsigned pad = 0, int dlen = 0);
void encode_to(Bytes &o, const Node &n);
Bytes encode(const Node &n);
void strip_hints(Node &n); // back to the canonical encoding
struct MsgOpt {
	int crc = 0;        // 0 SML, 1 Kermit, 2 wrong
	uint16_t xor_crc = 0;
	bool no_end = false; // without the end marker
};
// encodes a message with checksum and end marker; offset_crc: position of the checksum element
Bytes encode_message(const Node &m, const MsgOpt &o = MsgOpt(), size_t *crc_at = nullptr);
Node with_crc(const Node &m, uint16_t crc); // message as dumped: [tid, grp, abort, [tag, data], crc]
Node crc_node(uint16_t crc);
// canonical transport frame
Bytes frame(const Bytes &payload);

// ------------------------------------------------------------------ reference decoder

struct Dec {
	const Bytes &b;
	size_t cur = 0;
	bool err = false;
	explicit Dec(const Bytes &x, size_t at = 0) : b(x), cur(at) {}
	Node element(T t, int depth = 0); // of the given type at the cursor, semantic view
	// true: delivered in msg; false: dropped or error (err)
	bool message(Node &msg);
	std::vector<Node> file();

  private:
	int type();
	long long length();
	bool skipped();
	Node number(bool sgn, int width);
	Node anynumber(bool sgn);
	Node octet();
	Node boolean();
};
