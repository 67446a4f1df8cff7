#include "bridge.h"
#include <sys/mman.h>
#include <unistd.h>

typedef std::string S;

static void d_oct(S &o, const octet_string *s) {
	if (!s) {
		o += '-';
		return;
	}
	CHECK(s->len >= 0, "octet string with negative length %d", s->len);
	CHECK(s->len == 0 || s->str, "octet string of length %d without bytes", s->len);
	o += '"';
	o += hex(Bytes((const char *)s->str, s->str ? (size_t)s->len : 0), (size_t)-1);
	o += '"';
}
static void d_num(S &o, const void *p, bool sgn, int w) {
	if (!p) {
		o += '-';
		return;
	}
	uint64_t v = 0;
	switch (w) {
	case 1: v = *(const u8 *)p; break;
	case 2: v = *(const u16 *)p; break;
	case 4: v = *(const u32 *)p; break;
	case 8: v = *(const u64 *)p; break;
	}
	dump_to(o, Node::num(sgn, w, v));
}
static void d_bool(S &o, const sml_boolean *b) { o += b ? (*b ? "true" : "false") : "-"; }
static void d_value(S &o, const sml_value *v) {
	if (!v) {
		o += '-';
		return;
	}
	switch (v->type) {
	case SML_TYPE_OCTET_STRING: d_oct(o, v->data.bytes); break;
	case SML_TYPE_BOOLEAN: d_bool(o, v->data.boolean); break;
	case 0x51: case 0x52: case 0x54: case 0x58: d_num(o, v->data.int8, true, v->type & 15); break;
	case 0x61: case 0x62: case 0x64: case 0x68: d_num(o, v->data.uint8, false, v->type & 15); break;
	default: o += strf("?value type %02x?", v->type);
	}
}
static void d_status(S &o, const sml_status *v) {
	if (!v) {
		o += '-';
		return;
	}
	switch (v->type) {
	case 0x61: case 0x62: case 0x64: case 0x68: d_num(o, v->data.status8, false, v->type & 15); break;
	default: o += strf("?status type %02x?", v->type);
	}
}
static void d_time(S &o, const sml_time *t) {
	if (!t) {
		o += '-';
		return;
	}
	o += '[';
	d_num(o, t->tag, false, 1);
	o += ',';
	d_num(o, t->data.timestamp, false, 4);
	o += ']';
}
static void d_path(S &o, const sml_tree_path *p) {
	if (!p) {
		o += '-';
		return;
	}
	o += '[';
	for (int i = 0; i < p->path_entries_len; i++) {
		if (i)
			o += ',';
		d_oct(o, p->path_entries[i]);
	}
	o += ']';
}
static void d_objlist(S &o, const sml_obj_req_entry_list *l) {
	if (!l) {
		o += '-';
		return;
	}
	o += '[';
	for (const sml_obj_req_entry_list *i = l; i; i = i->next) {
		if (i != l)
			o += ',';
		d_oct(o, i->object_list_entry);
	}
	o += ']';
}
static void d_entry(S &o, const sml_list *e) {
	o += '[';
	d_oct(o, e->obj_name); o += ',';
	d_status(o, e->status); o += ',';
	d_time(o, e->val_time); o += ',';
	d_num(o, e->unit, false, 1); o += ',';
	d_num(o, e->scaler, true, 1); o += ',';
	d_value(o, e->value); o += ',';
	d_oct(o, e->value_signature);
	o += ']';
}
static void d_vallist(S &o, const sml_list *l) {
	if (!l) {
		o += '-';
		return;
	}
	o += '[';
	for (const sml_list *i = l; i; i = i->next) {
		if (i != l)
			o += ',';
		d_entry(o, i);
	}
	o += ']';
}
static void d_period(S &o, const sml_period_entry *e) {
	if (!e) {
		o += '-';
		return;
	}
	o += '[';
	d_oct(o, e->obj_name); o += ',';
	d_num(o, e->unit, false, 1); o += ',';
	d_num(o, e->scaler, true, 1); o += ',';
	d_value(o, e->value); o += ',';
	d_oct(o, e->value_signature);
	o += ']';
}
static void d_tupel(S &o, const sml_tupel_entry *e) {
	if (!e) {
		o += '-';
		return;
	}
	o += '[';
	d_oct(o, e->server_id); o += ',';
	d_time(o, e->sec_index); o += ',';
	d_num(o, e->status, false, 8); o += ',';
#define TRIPLE(x) \
	d_num(o, e->unit_##x, false, 1); o += ','; \
	d_num(o, e->scaler_##x, true, 1); o += ','; \
	d_num(o, e->value_##x, true, 8); o += ','
	TRIPLE(pA);
	TRIPLE(R1);
	TRIPLE(R4);
	d_oct(o, e->signature_pA_R1_R4); o += ',';
	TRIPLE(mA);
	TRIPLE(R2);
	TRIPLE(R3);
	d_oct(o, e->signature_mA_R2_R3);
	o += ']';
}
static void d_ppv(S &o, const sml_proc_par_value *v) {
	if (!v) {
		o += '-';
		return;
	}
	o += '[';
	d_num(o, v->tag, false, 1);
	o += ',';
	switch (v->tag ? *v->tag : 0) {
	case 1: d_value(o, v->data.value); break;
	case 2: d_period(o, v->data.period_entry); break;
	case 3: d_tupel(o, v->data.tupel_entry); break;
	case 4: d_time(o, v->data.time); break;
	default: o += "?";
	}
	o += ']';
}
static void d_tree(S &o, const sml_tree *t) {
	if (!t) {
		o += '-';
		return;
	}
	o += '[';
	d_oct(o, t->parameter_name);
	o += ',';
	d_ppv(o, t->parameter_value);
	o += ',';
	if (t->child_list_len == 0)
		o += '-';
	else {
		o += '[';
		for (int i = 0; i < t->child_list_len; i++) {
			if (i)
				o += ',';
			d_tree(o, t->child_list[i]);
		}
		o += ']';
	}
	o += ']';
}
static void d_header(S &o, const sml_prof_obj_header_entry *e) {
	if (!e) {
		o += '-';
		return;
	}
	o += '[';
	d_oct(o, e->obj_name); o += ',';
	d_num(o, e->unit, false, 1); o += ',';
	d_num(o, e->scaler, true, 1);
	o += ']';
}
static void d_seq(S &o, const sml_sequence *q, T elem) {
	if (!q) {
		o += '-';
		return;
	}
	o += '[';
	for (int i = 0; i < q->elems_len; i++) {
		if (i)
			o += ',';
		o += ldump_element(elem, q->elems[i]);
	}
	o += ']';
}
static void d_ventry(S &o, const sml_value_entry *e) {
	if (!e) {
		o += '-';
		return;
	}
	o += '[';
	d_value(o, e->value);
	o += ',';
	d_oct(o, e->value_signature);
	o += ']';
}
static void d_pentry(S &o, const sml_prof_obj_period_entry *e) {
	if (!e) {
		o += '-';
		return;
	}
	o += '[';
	d_time(o, e->val_time); o += ',';
	d_num(o, e->status, false, 8); o += ',';
	d_seq(o, e->value_list, T_VENTRY); o += ',';
	d_oct(o, e->period_signature);
	o += ']';
}

static void d_body(S &o, const sml_message_body *b) {
	CHECK(b, "message without body delivered");
	CHECK(b->tag, "message without tag delivered");
	o += '[';
	d_num(o, b->tag, false, 4);
	o += ',';
	T t = type_of_tag(*b->tag);
	o += t == T_NONE ? S("-") : ldump_element(t, b->data);
	o += ']';
}
std::string ldump_element(T t, const void *p) {
	S o;
	switch (t) {
	case T_OCT: d_oct(o, (const octet_string *)p); return o;
	case T_U8: d_num(o, p, false, 1); return o;
	case T_U16: d_num(o, p, false, 2); return o;
	case T_U32: d_num(o, p, false, 4); return o;
	case T_U64: d_num(o, p, false, 8); return o;
	case T_I8: d_num(o, p, true, 1); return o;
	case T_I16: d_num(o, p, true, 2); return o;
	case T_I32: d_num(o, p, true, 4); return o;
	case T_I64: d_num(o, p, true, 8); return o;
	case T_BOOL: d_bool(o, (const sml_boolean *)p); return o;
	case T_VALUE: d_value(o, (const sml_value *)p); return o;
	case T_STATUS: d_status(o, (const sml_status *)p); return o;
	case T_TIME: d_time(o, (const sml_time *)p); return o;
	case T_VALLIST: d_vallist(o, (const sml_list *)p); return o;
	case T_PATH: d_path(o, (const sml_tree_path *)p); return o;
	case T_OBJLIST: d_objlist(o, (const sml_obj_req_entry_list *)p); return o;
	case T_TREE: d_tree(o, (const sml_tree *)p); return o;
	case T_BODY: d_body(o, (const sml_message_body *)p); return o;
	case T_PPV: d_ppv(o, (const sml_proc_par_value *)p); return o;
	case T_PERIOD: d_period(o, (const sml_period_entry *)p); return o;
	case T_TUPEL: d_tupel(o, (const sml_tupel_entry *)p); return o;
	case T_HEADER: d_header(o, (const sml_prof_obj_header_entry *)p); return o;
	case T_PENTRY: d_pentry(o, (const sml_prof_obj_period_entry *)p); return o;
	case T_VENTRY: d_ventry(o, (const sml_value_entry *)p); return o;
	case T_SEQ_HEADER: d_seq(o, (const sml_sequence *)p, T_HEADER); return o;
	case T_SEQ_PENTRY: d_seq(o, (const sml_sequence *)p, T_PENTRY); return o;
	case T_SEQ_VENTRY: d_seq(o, (const sml_sequence *)p, T_VENTRY); return o;
	case T_SEQ_PERIOD: d_seq(o, (const sml_sequence *)p, T_PERIOD); return o;
	default: break;
	}
	if (!p)
		return "-";
	o += '[';
#define M(type) const type *m = (const type *)p
#define C o += ','
	switch (t) {
	case T_OPEN_REQ: {
		M(sml_open_request);
		d_oct(o, m->codepage); C; d_oct(o, m->client_id); C; d_oct(o, m->req_file_id); C; d_oct(o, m->server_id); C;
		d_oct(o, m->username); C; d_oct(o, m->password); C; d_num(o, m->sml_version, false, 1);
		break;
	}
	case T_OPEN_RES: {
		M(sml_open_response);
		d_oct(o, m->codepage); C; d_oct(o, m->client_id); C; d_oct(o, m->req_file_id); C; d_oct(o, m->server_id); C;
		d_time(o, m->ref_time); C; d_num(o, m->sml_version, false, 1);
		break;
	}
	case T_CLOSE_REQ: {
		M(sml_close_request);
		d_oct(o, m->global_signature);
		break;
	}
	case T_CLOSE_RES: {
		M(sml_close_response);
		d_oct(o, m->global_signature);
		break;
	}
	case T_PACK_REQ:
	case T_PLIST_REQ: {
		M(sml_get_profile_pack_request);
		d_oct(o, m->server_id); C; d_oct(o, m->username); C; d_oct(o, m->password); C; d_bool(o, m->with_rawdata); C;
		d_time(o, m->begin_time); C; d_time(o, m->end_time); C; d_path(o, m->parameter_tree_path); C;
		d_objlist(o, m->object_list); C; d_tree(o, m->das_details);
		break;
	}
	case T_PACK_RES: {
		M(sml_get_profile_pack_response);
		d_oct(o, m->server_id); C; d_time(o, m->act_time); C; d_num(o, m->reg_period, false, 4); C;
		d_path(o, m->parameter_tree_path); C; d_seq(o, m->header_list, T_HEADER); C;
		d_seq(o, m->period_list, T_PENTRY); C; d_oct(o, m->rawdata); C; d_oct(o, m->profile_signature);
		break;
	}
	case T_PLIST_RES: {
		M(sml_get_profile_list_response);
		d_oct(o, m->server_id); C; d_time(o, m->act_time); C; d_num(o, m->reg_period, false, 4); C;
		d_path(o, m->parameter_tree_path); C; d_time(o, m->val_time); C; d_num(o, m->status, false, 8); C;
		d_seq(o, m->period_list, T_PERIOD); C; d_oct(o, m->rawdata); C; d_oct(o, m->period_signature);
		break;
	}
	case T_GPP_REQ: {
		M(sml_get_proc_parameter_request);
		d_oct(o, m->server_id); C; d_oct(o, m->username); C; d_oct(o, m->password); C;
		d_path(o, m->parameter_tree_path); C; d_oct(o, m->attribute);
		break;
	}
	case T_GPP_RES: {
		M(sml_get_proc_parameter_response);
		d_oct(o, m->server_id); C; d_path(o, m->parameter_tree_path); C; d_tree(o, m->parameter_tree);
		break;
	}
	case T_SPP_REQ: {
		M(sml_set_proc_parameter_request);
		d_oct(o, m->server_id); C; d_oct(o, m->username); C; d_oct(o, m->password); C;
		d_path(o, m->parameter_tree_path); C; d_tree(o, m->parameter_tree);
		break;
	}
	case T_LIST_REQ: {
		M(sml_get_list_request);
		d_oct(o, m->client_id); C; d_oct(o, m->server_id); C; d_oct(o, m->username); C; d_oct(o, m->password); C;
		d_oct(o, m->list_name);
		break;
	}
	case T_LIST_RES: {
		M(sml_get_list_response);
		d_oct(o, m->client_id); C; d_oct(o, m->server_id); C; d_oct(o, m->list_name); C; d_time(o, m->act_sensor_time); C;
		d_vallist(o, m->val_list); C; d_oct(o, m->list_signature); C; d_time(o, m->act_gateway_time);
		break;
	}
	case T_ATTENTION: {
		M(sml_attention_response);
		d_oct(o, m->server_id); C; d_oct(o, m->attention_number); C; d_oct(o, m->attention_message); C;
		d_tree(o, m->attention_details);
		break;
	}
	default: o += "?";
	}
	o += ']';
	return o;
}

std::string ldump_message(const sml_message *m, bool with_crc) {
	if (!m)
		return "(no message)";
	S o = "[";
	d_oct(o, m->transaction_id); o += ',';
	d_num(o, m->group_id, false, 1); o += ',';
	d_num(o, m->abort_on_error, false, 1); o += ',';
	d_body(o, m->message_body);
	if (with_crc) {
		o += ',';
		d_num(o, m->crc, false, 2);
	}
	o += ']';
	return o;
}
std::string ldump_file(const sml_file *f, bool with_crc) {
	S o;
	CHECK(f, "no file returned");
	CHECK(f->messages_len >= 0, "negative number of messages");
	for (int i = 0; i < f->messages_len; i++) {
		o += ldump_message(f->messages[i], with_crc);
		o += '\n';
	}
	return o;
}
std::string dump_messages(const std::vector<Node> &m) {
	S o;
	for (auto &x : m) {
		dump_to(o, x);
		o += '\n';
	}
	return o;
}

// ------------------------------------------------------------------ construction

static octet_string *b_oct(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	return sml_octet_string_init((unsigned char *)n.b.data(), (int)n.b.size());
}
static void *b_num(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	switch (n.width | (n.sgn ? 16 : 0)) {
	case 1: return sml_u8_init((u8)n.v);
	case 2: return sml_u16_init((u16)n.v);
	case 4: return sml_u32_init((u32)n.v);
	case 8: return sml_u64_init(n.v);
	case 17: return sml_i8_init((i8)n.v);
	case 18: return sml_i16_init((i16)n.v);
	case 20: return sml_i32_init((i32)n.v);
	default: return sml_i64_init((i64)n.v);
	}
}
static sml_boolean *b_bool(const Node &n) {
	return n.k == Node::ABSENT ? nullptr : sml_boolean_init((u8)(!n.v ? 0 : n.nbytes ? n.nbytes : 0xff));
}
static sml_value *b_value(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_value *v = sml_value_init();
	switch (n.k) {
	case Node::OCT:
		v->type = SML_TYPE_OCTET_STRING;
		v->data.bytes = b_oct(n);
		break;
	case Node::BOOL:
		v->type = SML_TYPE_BOOLEAN;
		v->data.boolean = b_bool(n);
		break;
	default:
		v->type = (u8)((n.sgn ? SML_TYPE_INTEGER : SML_TYPE_UNSIGNED) | n.width);
		v->data.uint8 = (u8 *)b_num(n);
	}
	return v;
}
static sml_status *b_status(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_status *s = sml_status_init();
	s->type = (u8)(SML_TYPE_UNSIGNED | n.width);
	s->data.status8 = (u8 *)b_num(n);
	return s;
}
static sml_time *b_time(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_time *t = sml_time_init();
	t->tag = (u8 *)b_num(n.c[0]);
	t->data.timestamp = (u32 *)b_num(n.c[1]);
	return t;
}
static sml_tree_path *b_path(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_tree_path *p = sml_tree_path_init();
	for (auto &c : n.c)
		sml_tree_path_add_path_entry(p, b_oct(c));
	return p;
}
static sml_obj_req_entry_list *b_objlist(const Node &n) {
	sml_obj_req_entry_list *head = nullptr, **pos = &head;
	for (auto &c : n.c) {
		sml_obj_req_entry_list *e = (sml_obj_req_entry_list *)malloc(sizeof *e);
		e->object_list_entry = b_oct(c);
		e->next = nullptr;
		*pos = e;
		pos = &e->next;
	}
	return head;
}
static sml_list *b_entry(const Node &n) {
	sml_list *e = sml_list_init();
	e->obj_name = b_oct(n.c[0]);
	e->status = b_status(n.c[1]);
	e->val_time = b_time(n.c[2]);
	e->unit = (u8 *)b_num(n.c[3]);
	e->scaler = (i8 *)b_num(n.c[4]);
	e->value = b_value(n.c[5]);
	e->value_signature = b_oct(n.c[6]);
	return e;
}
static sml_list *b_vallist(const Node &n) {
	sml_list *head = nullptr, *last = nullptr;
	for (auto &c : n.c) {
		sml_list *e = b_entry(c);
		if (last)
			sml_list_add(last, e);
		else
			head = e;
		last = e;
	}
	return head;
}
static sml_period_entry *b_period(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_period_entry *e = sml_period_entry_init();
	e->obj_name = b_oct(n.c[0]);
	e->unit = (u8 *)b_num(n.c[1]);
	e->scaler = (i8 *)b_num(n.c[2]);
	e->value = b_value(n.c[3]);
	e->value_signature = b_oct(n.c[4]);
	return e;
}
static sml_tupel_entry *b_tupel(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_tupel_entry *e = sml_tupel_entry_init();
	e->server_id = b_oct(n.c[0]);
	e->sec_index = b_time(n.c[1]);
	e->status = (u64 *)b_num(n.c[2]);
#define BTRIPLE(x, i) \
	e->unit_##x = (u8 *)b_num(n.c[i]); \
	e->scaler_##x = (i8 *)b_num(n.c[i + 1]); \
	e->value_##x = (i64 *)b_num(n.c[i + 2])
	BTRIPLE(pA, 3);
	BTRIPLE(R1, 6);
	BTRIPLE(R4, 9);
	e->signature_pA_R1_R4 = b_oct(n.c[12]);
	BTRIPLE(mA, 13);
	BTRIPLE(R2, 16);
	BTRIPLE(R3, 19);
	e->signature_mA_R2_R3 = b_oct(n.c[22]);
	return e;
}
static sml_proc_par_value *b_ppv(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_proc_par_value *v = sml_proc_par_value_init();
	v->tag = (u8 *)b_num(n.c[0]);
	switch (n.c[0].v) {
	case 1: v->data.value = b_value(n.c[1]); break;
	case 2: v->data.period_entry = b_period(n.c[1]); break;
	case 3: v->data.tupel_entry = b_tupel(n.c[1]); break;
	case 4: v->data.time = b_time(n.c[1]); break;
	}
	return v;
}
static sml_tree *b_tree(const Node &n) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_tree *t = sml_tree_init();
	t->parameter_name = b_oct(n.c[0]);
	t->parameter_value = b_ppv(n.c[1]);
	for (auto &c : n.c[2].c)
		sml_tree_add_tree(t, b_tree(c));
	return t;
}
static sml_prof_obj_header_entry *b_header(const Node &n) {
	sml_prof_obj_header_entry *e = sml_prof_obj_header_entry_init();
	e->obj_name = b_oct(n.c[0]);
	e->unit = (u8 *)b_num(n.c[1]);
	e->scaler = (i8 *)b_num(n.c[2]);
	return e;
}
static void f_header(void *p) { sml_prof_obj_header_entry_free((sml_prof_obj_header_entry *)p); }
static void f_pentry(void *p) { sml_prof_obj_period_entry_free((sml_prof_obj_period_entry *)p); }
static void f_ventry(void *p) { sml_value_entry_free((sml_value_entry *)p); }
static void f_period(void *p) { sml_period_entry_free((sml_period_entry *)p); }
static sml_sequence *b_seq(const Node &n, T elem) {
	if (n.k == Node::ABSENT)
		return nullptr;
	sml_sequence *q = sml_sequence_init(elem == T_HEADER   ? f_header
										: elem == T_PENTRY ? f_pentry
										: elem == T_VENTRY ? f_ventry
														   : f_period);
	for (auto &c : n.c)
		sml_sequence_add(q, lbuild_element(elem, c));
	return q;
}

static sml_message_body *b_body(const Node &n) {
	u32 tag = (u32)n.c[0].v;
	return sml_message_body_init(tag, lbuild_element(type_of_tag(tag), n.c[1]));
}
void *lbuild_element(T t, const Node &n) {
	switch (t) {
	case T_OCT: return b_oct(n);
	case T_U8: case T_U16: case T_U32: case T_U64: case T_I8: case T_I16: case T_I32: case T_I64: return b_num(n);
	case T_BOOL: return b_bool(n);
	case T_VALUE: return b_value(n);
	case T_STATUS: return b_status(n);
	case T_TIME: return b_time(n);
	case T_VALLIST: return b_vallist(n);
	case T_PATH: return b_path(n);
	case T_OBJLIST: return b_objlist(n);
	case T_TREE: return b_tree(n);
	case T_PPV: return b_ppv(n);
	case T_BODY: return b_body(n);
	case T_PERIOD: return b_period(n);
	case T_TUPEL: return b_tupel(n);
	case T_ENTRY: return b_entry(n);
	case T_HEADER: return b_header(n);
	case T_PENTRY: {
		sml_prof_obj_period_entry *e = sml_prof_obj_period_entry_init();
		e->val_time = b_time(n.c[0]);
		e->status = (u64 *)b_num(n.c[1]);
		e->value_list = b_seq(n.c[2], T_VENTRY);
		e->period_signature = b_oct(n.c[3]);
		return e;
	}
	case T_VENTRY: {
		sml_value_entry *e = sml_value_entry_init();
		e->value = b_value(n.c[0]);
		e->value_signature = b_oct(n.c[1]);
		return e;
	}
	case T_SEQ_HEADER: return b_seq(n, T_HEADER);
	case T_SEQ_PENTRY: return b_seq(n, T_PENTRY);
	case T_SEQ_VENTRY: return b_seq(n, T_VENTRY);
	case T_SEQ_PERIOD: return b_seq(n, T_PERIOD);
	case T_OPEN_REQ: {
		sml_open_request *m = sml_open_request_init();
		m->codepage = b_oct(n.c[0]);
		m->client_id = b_oct(n.c[1]);
		m->req_file_id = b_oct(n.c[2]);
		m->server_id = b_oct(n.c[3]);
		m->username = b_oct(n.c[4]);
		m->password = b_oct(n.c[5]);
		m->sml_version = (u8 *)b_num(n.c[6]);
		return m;
	}
	case T_OPEN_RES: {
		sml_open_response *m = sml_open_response_init();
		m->codepage = b_oct(n.c[0]);
		m->client_id = b_oct(n.c[1]);
		m->req_file_id = b_oct(n.c[2]);
		m->server_id = b_oct(n.c[3]);
		m->ref_time = b_time(n.c[4]);
		m->sml_version = (u8 *)b_num(n.c[5]);
		return m;
	}
	case T_CLOSE_REQ: {
		sml_close_request *m = sml_close_request_init();
		m->global_signature = b_oct(n.c[0]);
		return m;
	}
	case T_CLOSE_RES: {
		sml_close_response *m = sml_close_response_init();
		m->global_signature = b_oct(n.c[0]);
		return m;
	}
	case T_PACK_REQ:
	case T_PLIST_REQ: {
		sml_get_profile_pack_request *m = t == T_PACK_REQ ? sml_get_profile_pack_request_init()
														  : sml_get_profile_list_request_init();
		m->server_id = b_oct(n.c[0]);
		m->username = b_oct(n.c[1]);
		m->password = b_oct(n.c[2]);
		m->with_rawdata = b_bool(n.c[3]);
		m->begin_time = b_time(n.c[4]);
		m->end_time = b_time(n.c[5]);
		m->parameter_tree_path = b_path(n.c[6]);
		m->object_list = b_objlist(n.c[7]);
		m->das_details = b_tree(n.c[8]);
		return m;
	}
	case T_PACK_RES: {
		sml_get_profile_pack_response *m = sml_get_profile_pack_response_init();
		m->server_id = b_oct(n.c[0]);
		m->act_time = b_time(n.c[1]);
		m->reg_period = (u32 *)b_num(n.c[2]);
		m->parameter_tree_path = b_path(n.c[3]);
		m->header_list = b_seq(n.c[4], T_HEADER);
		m->period_list = b_seq(n.c[5], T_PENTRY);
		m->rawdata = b_oct(n.c[6]);
		m->profile_signature = b_oct(n.c[7]);
		return m;
	}
	case T_PLIST_RES: {
		sml_get_profile_list_response *m = sml_get_profile_list_response_init();
		m->server_id = b_oct(n.c[0]);
		m->act_time = b_time(n.c[1]);
		m->reg_period = (u32 *)b_num(n.c[2]);
		m->parameter_tree_path = b_path(n.c[3]);
		m->val_time = b_time(n.c[4]);
		m->status = (u64 *)b_num(n.c[5]);
		m->period_list = b_seq(n.c[6], T_PERIOD);
		m->rawdata = b_oct(n.c[7]);
		m->period_signature = b_oct(n.c[8]);
		return m;
	}
	case T_GPP_REQ: {
		sml_get_proc_parameter_request *m = sml_get_proc_parameter_request_init();
		m->server_id = b_oct(n.c[0]);
		m->username = b_oct(n.c[1]);
		m->password = b_oct(n.c[2]);
		m->parameter_tree_path = b_path(n.c[3]);
		m->attribute = b_oct(n.c[4]);
		return m;
	}
	case T_GPP_RES: {
		sml_get_proc_parameter_response *m = sml_get_proc_parameter_response_init();
		m->server_id = b_oct(n.c[0]);
		m->parameter_tree_path = b_path(n.c[1]);
		m->parameter_tree = b_tree(n.c[2]);
		return m;
	}
	case T_SPP_REQ: {
		sml_set_proc_parameter_request *m = sml_set_proc_parameter_request_init();
		m->server_id = b_oct(n.c[0]);
		m->username = b_oct(n.c[1]);
		m->password = b_oct(n.c[2]);
		m->parameter_tree_path = b_path(n.c[3]);
		m->parameter_tree = b_tree(n.c[4]);
		return m;
	}
	case T_LIST_REQ: {
		sml_get_list_request *m = sml_get_list_request_init();
		m->client_id = b_oct(n.c[0]);
		m->server_id = b_oct(n.c[1]);
		m->username = b_oct(n.c[2]);
		m->password = b_oct(n.c[3]);
		m->list_name = b_oct(n.c[4]);
		return m;
	}
	case T_LIST_RES: {
		sml_get_list_response *m = sml_get_list_response_init();
		m->client_id = b_oct(n.c[0]);
		m->server_id = b_oct(n.c[1]);
		m->list_name = b_oct(n.c[2]);
		m->act_sensor_time = b_time(n.c[3]);
		m->val_list = b_vallist(n.c[4]);
		m->list_signature = b_oct(n.c[5]);
		m->act_gateway_time = b_time(n.c[6]);
		return m;
	}
	case T_ATTENTION: {
		sml_attention_response *m = sml_attention_response_init();
		m->server_id = b_oct(n.c[0]);
		m->attention_number = b_oct(n.c[1]);
		m->attention_message = b_oct(n.c[2]);
		m->attention_details = b_tree(n.c[3]);
		return m;
	}
	default: return nullptr;
	}
}
sml_message *lbuild_message(const Node &n, bool) {
	sml_message *m = sml_message_init();
	sml_octet_string_free(m->transaction_id);
	m->transaction_id = b_oct(n.c[0]);
	m->group_id = (u8 *)b_num(n.c[1]);
	m->abort_on_error = (u8 *)b_num(n.c[2]);
	m->message_body = b_body(n.c[3]);
	return m;
}

// ------------------------------------------------------------------ by element type

bool has_public_parser(T t) {
	switch (t) {
	case T_OBJLIST: case T_ENTRY: case T_NONE: return false;
	default: return true;
	}
}
static void *p_header(sml_buffer *b) { return sml_prof_obj_header_entry_parse(b); }
static void *p_pentry(sml_buffer *b) { return sml_prof_obj_period_entry_parse(b); }
static void *p_ventry(sml_buffer *b) { return sml_value_entry_parse(b); }
static void *p_period(sml_buffer *b) { return sml_period_entry_parse(b); }
void *lparse_element(T t, sml_buffer *b) {
	switch (t) {
	case T_OCT: return sml_octet_string_parse(b);
	case T_U8: return sml_u8_parse(b);
	case T_U16: return sml_u16_parse(b);
	case T_U32: return sml_u32_parse(b);
	case T_U64: return sml_u64_parse(b);
	case T_I8: return sml_i8_parse(b);
	case T_I16: return sml_i16_parse(b);
	case T_I32: return sml_i32_parse(b);
	case T_I64: return sml_i64_parse(b);
	case T_BOOL: return sml_boolean_parse(b);
	case T_VALUE: return sml_value_parse(b);
	case T_STATUS: return sml_status_parse(b);
	case T_TIME: return sml_time_parse(b);
	case T_VALLIST: return sml_list_parse(b);
	case T_PATH: return sml_tree_path_parse(b);
	case T_TREE: return sml_tree_parse(b);
	case T_PPV: return sml_proc_par_value_parse(b);
	case T_BODY: return sml_message_body_parse(b);
	case T_PERIOD: return sml_period_entry_parse(b);
	case T_TUPEL: return sml_tupel_entry_parse(b);
	case T_HEADER: return sml_prof_obj_header_entry_parse(b);
	case T_PENTRY: return sml_prof_obj_period_entry_parse(b);
	case T_VENTRY: return sml_value_entry_parse(b);
	case T_SEQ_HEADER: return sml_sequence_parse(b, p_header, f_header);
	case T_SEQ_PENTRY: return sml_sequence_parse(b, p_pentry, f_pentry);
	case T_SEQ_VENTRY: return sml_sequence_parse(b, p_ventry, f_ventry);
	case T_SEQ_PERIOD: return sml_sequence_parse(b, p_period, f_period);
	case T_OPEN_REQ: return sml_open_request_parse(b);
	case T_OPEN_RES: return sml_open_response_parse(b);
	case T_CLOSE_REQ: return sml_close_request_parse(b);
	case T_CLOSE_RES: return sml_close_response_parse(b);
	case T_PACK_REQ: return sml_get_profile_pack_request_parse(b);
	case T_PLIST_REQ: return sml_get_profile_list_request_parse(b);
	case T_PACK_RES: return sml_get_profile_pack_response_parse(b);
	case T_PLIST_RES: return sml_get_profile_list_response_parse(b);
	case T_GPP_REQ: return sml_get_proc_parameter_request_parse(b);
	case T_GPP_RES: return sml_get_proc_parameter_response_parse(b);
	case T_SPP_REQ: return sml_set_proc_parameter_request_parse(b);
	case T_LIST_REQ: return sml_get_list_request_parse(b);
	case T_LIST_RES: return sml_get_list_response_parse(b);
	case T_ATTENTION: return sml_attention_response_parse(b);
	default: return nullptr;
	}
}
static void w_header(void *p, sml_buffer *b) { sml_prof_obj_header_entry_write((sml_prof_obj_header_entry *)p, b); }
static void w_pentry(void *p, sml_buffer *b) { sml_prof_obj_period_entry_write((sml_prof_obj_period_entry *)p, b); }
static void w_ventry(void *p, sml_buffer *b) { sml_value_entry_write((sml_value_entry *)p, b); }
static void w_period(void *p, sml_buffer *b) { sml_period_entry_write((sml_period_entry *)p, b); }
void lwrite_element(T t, void *p, sml_buffer *b) {
	switch (t) {
	case T_OCT: sml_octet_string_write((octet_string *)p, b); break;
	case T_U8: sml_u8_write((u8 *)p, b); break;
	case T_U16: sml_u16_write((u16 *)p, b); break;
	case T_U32: sml_u32_write((u32 *)p, b); break;
	case T_U64: sml_u64_write((u64 *)p, b); break;
	case T_I8: sml_i8_write((i8 *)p, b); break;
	case T_I16: sml_i16_write((i16 *)p, b); break;
	case T_I32: sml_i32_write((i32 *)p, b); break;
	case T_I64: sml_i64_write((i64 *)p, b); break;
	case T_BOOL: sml_boolean_write((sml_boolean *)p, b); break;
	case T_VALUE: sml_value_write((sml_value *)p, b); break;
	case T_STATUS: sml_status_write((sml_status *)p, b); break;
	case T_TIME: sml_time_write((sml_time *)p, b); break;
	case T_VALLIST: sml_list_write((sml_list *)p, b); break;
	case T_PATH: sml_tree_path_write((sml_tree_path *)p, b); break;
	case T_TREE: sml_tree_write((sml_tree *)p, b); break;
	case T_PPV: sml_proc_par_value_write((sml_proc_par_value *)p, b); break;
	case T_BODY: sml_message_body_write((sml_message_body *)p, b); break;
	case T_PERIOD: sml_period_entry_write((sml_period_entry *)p, b); break;
	case T_TUPEL: sml_tupel_entry_write((sml_tupel_entry *)p, b); break;
	case T_HEADER: sml_prof_obj_header_entry_write((sml_prof_obj_header_entry *)p, b); break;
	case T_PENTRY: sml_prof_obj_period_entry_write((sml_prof_obj_period_entry *)p, b); break;
	case T_VENTRY: sml_value_entry_write((sml_value_entry *)p, b); break;
	case T_SEQ_HEADER: sml_sequence_write((sml_sequence *)p, b, w_header); break;
	case T_SEQ_PENTRY: sml_sequence_write((sml_sequence *)p, b, w_pentry); break;
	case T_SEQ_VENTRY: sml_sequence_write((sml_sequence *)p, b, w_ventry); break;
	case T_SEQ_PERIOD: sml_sequence_write((sml_sequence *)p, b, w_period); break;
	case T_OPEN_REQ: sml_open_request_write((sml_open_request *)p, b); break;
	case T_OPEN_RES: sml_open_response_write((sml_open_response *)p, b); break;
	case T_CLOSE_REQ: sml_close_request_write((sml_close_request *)p, b); break;
	case T_CLOSE_RES: sml_close_response_write((sml_close_response *)p, b); break;
	case T_PACK_REQ: sml_get_profile_pack_request_write((sml_get_profile_pack_request *)p, b); break;
	case T_PLIST_REQ: sml_get_profile_list_request_write((sml_get_profile_pack_request *)p, b); break;
	case T_PACK_RES: sml_get_profile_pack_response_write((sml_get_profile_pack_response *)p, b); break;
	case T_PLIST_RES: sml_get_profile_list_response_write((sml_get_profile_list_response *)p, b); break;
	case T_GPP_REQ: sml_get_proc_parameter_request_write((sml_get_proc_parameter_request *)p, b); break;
	case T_GPP_RES: sml_get_proc_parameter_response_write((sml_get_proc_parameter_response *)p, b); break;
	case T_SPP_REQ: sml_set_proc_parameter_request_write((sml_set_proc_parameter_request *)p, b); break;
	case T_LIST_REQ: sml_get_list_request_write((sml_get_list_request *)p, b); break;
	case T_LIST_RES: sml_get_list_response_write((sml_get_list_response *)p, b); break;
	case T_ATTENTION: sml_attention_response_write((sml_attention_response *)p, b); break;
	default: break;
	}
}
void lfree_element(T t, void *p) {
	switch (t) {
	case T_OCT: sml_octet_string_free((octet_string *)p); break;
	case T_U8: case T_U16: case T_U32: case T_U64: case T_I8: case T_I16: case T_I32: case T_I64: sml_number_free(p); break;
	case T_BOOL: sml_boolean_free((sml_boolean *)p); break;
	case T_VALUE: sml_value_free((sml_value *)p); break;
	case T_STATUS: sml_status_free((sml_status *)p); break;
	case T_TIME: sml_time_free((sml_time *)p); break;
	case T_ENTRY:
	case T_VALLIST: sml_list_free((sml_list *)p); break;
	case T_PATH: sml_tree_path_free((sml_tree_path *)p); break;
	case T_TREE: sml_tree_free((sml_tree *)p); break;
	case T_PPV: sml_proc_par_value_free((sml_proc_par_value *)p); break;
	case T_BODY: sml_message_body_free((sml_message_body *)p); break;
	case T_PERIOD: sml_period_entry_free((sml_period_entry *)p); break;
	case T_TUPEL: sml_tupel_entry_free((sml_tupel_entry *)p); break;
	case T_HEADER: sml_prof_obj_header_entry_free((sml_prof_obj_header_entry *)p); break;
	case T_PENTRY: sml_prof_obj_period_entry_free((sml_prof_obj_period_entry *)p); break;
	case T_VENTRY: sml_value_entry_free((sml_value_entry *)p); break;
	case T_SEQ_HEADER: case T_SEQ_PENTRY: case T_SEQ_VENTRY: case T_SEQ_PERIOD: sml_sequence_free((sml_sequence *)p); break;
	case T_OPEN_REQ: sml_open_request_free((sml_open_request *)p); break;
	case T_OPEN_RES: sml_open_response_free((sml_open_response *)p); break;
	case T_CLOSE_REQ: sml_close_request_free((sml_close_request *)p); break;
	case T_CLOSE_RES: sml_close_response_free((sml_close_response *)p); break;
	case T_PACK_REQ: sml_get_profile_pack_request_free((sml_get_profile_pack_request *)p); break;
	case T_PLIST_REQ: sml_get_profile_list_request_free((sml_get_profile_pack_request *)p); break;
	case T_PACK_RES: sml_get_profile_pack_response_free((sml_get_profile_pack_response *)p); break;
	case T_PLIST_RES: sml_get_profile_list_response_free((sml_get_profile_list_response *)p); break;
	case T_GPP_REQ: sml_get_proc_parameter_request_free((sml_get_proc_parameter_request *)p); break;
	case T_GPP_RES: sml_get_proc_parameter_response_free((sml_get_proc_parameter_response *)p); break;
	case T_SPP_REQ: sml_set_proc_parameter_request_free((sml_set_proc_parameter_request *)p); break;
	case T_LIST_REQ: sml_get_list_request_free((sml_get_list_request *)p); break;
	case T_LIST_RES: sml_get_list_response_free((sml_get_list_response *)p); break;
	case T_ATTENTION: sml_attention_response_free((sml_attention_response *)p); break;
	default: break;
	}
}

sml_buffer *pbuf(const Bytes &b, size_t at) {
	sml_buffer *buf = sml_buffer_init(b.size());
	memcpy(buf->buffer, b.data(), b.size());
	buf->cursor = at;
	return buf;
}
static unsigned char *far_memory() {
	static unsigned char *m = [] {
		void *p = mmap(nullptr, (size_t)3 << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			abort();
		return (unsigned char *)p;
	}();
	return m;
}
static size_t far_offset(Src &s, size_t n) {
	static const size_t base[] = {(size_t)1 << 31, (size_t)1 << 32, (size_t)3 << 31, (size_t)1 << 33, ((size_t)1 << 32) + 65536};
	return s.pick(base) + 4 - s.below(n + 8);
}
Far::Far(Src &s, const Bytes &b) {
	buf = sml_buffer();
	buf.buffer = far_memory();
	at = far_offset(s, b.size());
	touched = b.size();
	memcpy(buf.buffer + at, b.data(), b.size());
	buf.buffer_len = at + b.size();
	buf.cursor = at;
}
Far::Far(Src &s, size_t room, unsigned char c) {
	buf = sml_buffer();
	buf.buffer = far_memory();
	at = far_offset(s, room);
	touched = room;
	memset(buf.buffer + at, c, room);
	buf.buffer_len = at + room;
	buf.cursor = at;
}
static int memory_with(const void *data, size_t n, size_t size) {
	int fd = memfd_create("memory", 0);
	if (fd < 0 || ftruncate(fd, (off_t)size))
		abort();
	void *p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (p == MAP_FAILED)
		abort();
	memcpy(p, data, n);
	munmap(p, size);
	return fd;
}
Repeated::Repeated(const Bytes &pattern, size_t n_) : n(n_) {
	size_t step = pattern.size();
	mapped = (n + step) / step * step;
	int fd = memory_with(pattern.data(), step, step), last = memory_with(pattern.data(), n % step, step);
	p = (unsigned char *)mmap(nullptr, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		abort();
	for (size_t at = 0; at < mapped; at += step)
		if (mmap(p + at, step, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, at + step == mapped ? last : fd, 0) == MAP_FAILED)
			abort();
	close(fd);
	close(last);
}
Repeated::~Repeated() { munmap(p, mapped); }
Far::~Far() { memset(buf.buffer + at, 0, touched); }
sml_file *lparse_file(const Bytes &b) {
	std::vector<unsigned char> copy(b.begin(), b.end());
	copy.shrink_to_fit();
	unsigned char dummy;
	return sml_file_parse(copy.empty() ? &dummy : copy.data(), copy.size());
}
