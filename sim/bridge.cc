#include "bridge.h"
extern "C" void *sim_malloc(size_t);
extern "C" void sim_free(void *);

static bool g_partial; // objects may lack anything
static void need(bool ok, const char *w) { if (!ok) throw BuildError{w}; }

octet_string *build_oct(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::OCT, "octets");
	return sml_octet_string_init((unsigned char *)n.s.data(), (int)n.s.size());
}
static void *build_num(const Node &n, Node::K k, int w) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == k && n.w == w, "number");
	int ty = k == Node::UNS ? SML_TYPE_UNSIGNED : SML_TYPE_INTEGER;
	return sml_number_init(n.n, ty, w);
}
static u8 *b_u8(const Node &n) { return (u8 *)build_num(n, Node::UNS, 1); }
static u32 *b_u32(const Node &n) { return (u32 *)build_num(n, Node::UNS, 4); }
static u64 *b_u64(const Node &n) { return (u64 *)build_num(n, Node::UNS, 8); }
static i8 *b_i8(const Node &n) { return (i8 *)build_num(n, Node::INT, 1); }
static i64 *b_i64(const Node &n) { return (i64 *)build_num(n, Node::INT, 8); }
static sml_boolean *b_bool(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::BOOL, "bool");
	return sml_boolean_init(n.n ? SML_BOOLEAN_TRUE : SML_BOOLEAN_FALSE);
}
static void shape(const Node &n, size_t k) { need(n.k == Node::LST && n.c.size() == k, "list size"); }
static sml_time *b_time(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	shape(n, 2);
	need(g_partial || n.c[1].k != Node::ABS, "time without value");
	sml_time *t = sml_time_init();
	t->tag = b_u8(n.c[0]);
	t->data.timestamp = b_u32(n.c[1]);
	return t;
}
static sml_value *b_value(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	sml_value *v = sml_value_init();
	switch (n.k) {
	case Node::OCT: v->type = SML_TYPE_OCTET_STRING; v->data.bytes = build_oct(n); break;
	case Node::BOOL: v->type = SML_TYPE_BOOLEAN; v->data.boolean = b_bool(n); break;
	case Node::UNS: v->type = SML_TYPE_UNSIGNED | n.w; v->data.uint8 = (u8 *)build_num(n, Node::UNS, n.w); break;
	case Node::INT: v->type = SML_TYPE_INTEGER | n.w; v->data.uint8 = (u8 *)build_num(n, Node::INT, n.w); break;
	default: need(false, "value");
	}
	return v;
}
static sml_status *b_status(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::UNS, "status");
	sml_status *s = sml_status_init();
	s->type = SML_TYPE_UNSIGNED | n.w;
	s->data.status8 = (u8 *)build_num(n, Node::UNS, n.w);
	return s;
}
static sml_tree_path *b_path(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::LST, "path");
	sml_tree_path *p = sml_tree_path_init();
	for (auto &k : n.c) { need(g_partial || k.k == Node::OCT, "path entry"); sml_tree_path_add_path_entry(p, build_oct(k)); }
	return p;
}
static sml_period_entry *b_period(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	shape(n, 5);
	sml_period_entry *p = sml_period_entry_init();
	p->obj_name = build_oct(n.c[0]);
	p->unit = b_u8(n.c[1]);
	p->scaler = b_i8(n.c[2]);
	p->value = b_value(n.c[3]);
	p->value_signature = build_oct(n.c[4]);
	return p;
}
static sml_tupel_entry *b_tupel(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	shape(n, 23);
	sml_tupel_entry *t = sml_tupel_entry_init();
	size_t i = 0;
	t->server_id = build_oct(n.c[i++]);
	t->sec_index = b_time(n.c[i++]);
	t->status = b_u64(n.c[i++]);
	t->unit_pA = b_u8(n.c[i++]); t->scaler_pA = b_i8(n.c[i++]); t->value_pA = b_i64(n.c[i++]);
	t->unit_R1 = b_u8(n.c[i++]); t->scaler_R1 = b_i8(n.c[i++]); t->value_R1 = b_i64(n.c[i++]);
	t->unit_R4 = b_u8(n.c[i++]); t->scaler_R4 = b_i8(n.c[i++]); t->value_R4 = b_i64(n.c[i++]);
	t->signature_pA_R1_R4 = build_oct(n.c[i++]);
	t->unit_mA = b_u8(n.c[i++]); t->scaler_mA = b_i8(n.c[i++]); t->value_mA = b_i64(n.c[i++]);
	t->unit_R2 = b_u8(n.c[i++]); t->scaler_R2 = b_i8(n.c[i++]); t->value_R2 = b_i64(n.c[i++]);
	t->unit_R3 = b_u8(n.c[i++]); t->scaler_R3 = b_i8(n.c[i++]); t->value_R3 = b_i64(n.c[i++]);
	t->signature_mA_R2_R3 = build_oct(n.c[i++]);
	return t;
}
static sml_proc_par_value *b_ppv(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	shape(n, 2);
	need((g_partial && n.c[0].k == Node::ABS) || (n.c[0].k == Node::UNS && n.c[0].n >= 1 && n.c[0].n <= 4), "ppv tag");
	sml_proc_par_value *p = sml_proc_par_value_init();
	if (n.c[0].k == Node::ABS) return p;
	p->tag = b_u8(n.c[0]);
	switch (n.c[0].n) {
	case 1: p->data.value = b_value(n.c[1]); break;
	case 2: p->data.period_entry = b_period(n.c[1]); break;
	case 3: p->data.tupel_entry = b_tupel(n.c[1]); break;
	case 4: p->data.time = b_time(n.c[1]); break;
	}
	return p;
}
static sml_tree *b_tree(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	shape(n, 3);
	sml_tree *t = sml_tree_init();
	t->parameter_name = build_oct(n.c[0]);
	t->parameter_value = b_ppv(n.c[1]);
	if (n.c[2].k != Node::ABS) {
		need(n.c[2].k == Node::LST, "children");
		for (auto &k : n.c[2].c) { need(g_partial || k.k == Node::LST, "child"); sml_tree_add_tree(t, b_tree(k)); }
	}
	return t;
}
sml_list *build_lentry(const Node &n) {
	if (g_partial && n.k == Node::ABS) return sml_list_init();
	shape(n, 7);
	sml_list *l = sml_list_init();
	l->obj_name = build_oct(n.c[0]);
	l->status = b_status(n.c[1]);
	l->val_time = b_time(n.c[2]);
	l->unit = b_u8(n.c[3]);
	l->scaler = b_i8(n.c[4]);
	l->value = b_value(n.c[5]);
	l->value_signature = build_oct(n.c[6]);
	return l;
}
static sml_list *b_vlist(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::LST, "val list");
	sml_list *first = nullptr, *last = nullptr;
	for (auto &k : n.c) {
		sml_list *e = build_lentry(k);
		if (!first) first = e; else sml_list_add(last, e);
		last = e;
	}
	return first;
}
static void f_hdr(void *p) { sml_prof_obj_header_entry_free((sml_prof_obj_header_entry *)p); }
static void f_pobj(void *p) { sml_prof_obj_period_entry_free((sml_prof_obj_period_entry *)p); }
static void f_vent(void *p) { sml_value_entry_free((sml_value_entry *)p); }
static void f_period(void *p) { sml_period_entry_free((sml_period_entry *)p); }
static void *b_hdr(const Node &n) {
	if (g_partial && n.k == Node::ABS) return nullptr;
	shape(n, 3);
	auto *e = sml_prof_obj_header_entry_init();
	e->obj_name = build_oct(n.c[0]); e->unit = b_u8(n.c[1]); e->scaler = b_i8(n.c[2]);
	return e;
}
static void *b_vent(const Node &n) {
	if (g_partial && n.k == Node::ABS) return nullptr;
	shape(n, 2);
	auto *e = sml_value_entry_init();
	e->value = b_value(n.c[0]); e->value_signature = build_oct(n.c[1]);
	return e;
}
static void *b_period_v(const Node &n) { return b_period(n); }
static sml_sequence *b_seq(const Node &n, void *(*mk)(const Node &), void (*fr)(void *)) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::LST, "sequence");
	sml_sequence *s = sml_sequence_init(fr);
	for (auto &k : n.c) sml_sequence_add(s, mk(k));
	return s;
}
static void *b_pobj(const Node &n) {
	if (g_partial && n.k == Node::ABS) return nullptr;
	shape(n, 4);
	auto *e = sml_prof_obj_period_entry_init();
	e->val_time = b_time(n.c[0]); e->status = b_u64(n.c[1]);
	e->value_list = b_seq(n.c[2], b_vent, f_vent);
	e->period_signature = build_oct(n.c[3]);
	return e;
}
static sml_obj_req_entry_list *b_objlist(const Node &n) {
	if (n.k == Node::ABS) return nullptr;
	need(n.k == Node::LST && !n.c.empty(), "object list");
	sml_obj_req_entry_list *first = nullptr, *last = nullptr;
	for (auto &k : n.c) { // no constructor in the API: the application allocates the nodes
		auto *e = (sml_obj_req_entry_list *)sim_malloc(sizeof(sml_obj_req_entry_list));
		e->object_list_entry = build_oct(k);
		e->next = nullptr;
		if (!first) first = e; else last->next = e;
		last = e;
	}
	return first;
}

sml_message_body *build_body(const Node &tb) {
	shape(tb, 2);
	need(tb.c[0].k == Node::UNS && tb.c[0].w == 4, "tag");
	uint32_t tag = (uint32_t)tb.c[0].n;
	const std::vector<T> *sc = body_schema(tag);
	need(sc, "unknown tag");
	const Node &b = tb.c[1];
	if (g_partial && b.k == Node::ABS) return sml_message_body_init(tag, nullptr);
	shape(b, sc->size());
	auto &c = b.c;
	void *data = nullptr;
	switch (tag) {
	case 0x100: { auto *m = sml_open_request_init(); data = m;
		m->codepage = build_oct(c[0]); m->client_id = build_oct(c[1]); m->req_file_id = build_oct(c[2]);
		m->server_id = build_oct(c[3]); m->username = build_oct(c[4]); m->password = build_oct(c[5]); m->sml_version = b_u8(c[6]); break; }
	case 0x101: { auto *m = sml_open_response_init(); data = m;
		m->codepage = build_oct(c[0]); m->client_id = build_oct(c[1]); m->req_file_id = build_oct(c[2]);
		m->server_id = build_oct(c[3]); m->ref_time = b_time(c[4]); m->sml_version = b_u8(c[5]); break; }
	case 0x200: { auto *m = sml_close_request_init(); data = m; m->global_signature = build_oct(c[0]); break; }
	case 0x201: { auto *m = sml_close_response_init(); data = m; m->global_signature = build_oct(c[0]); break; }
	case 0x300: case 0x400: {
		auto *m = tag == 0x300 ? sml_get_profile_pack_request_init() : (sml_get_profile_pack_request *)sml_get_profile_list_request_init();
		data = m;
		m->server_id = build_oct(c[0]); m->username = build_oct(c[1]); m->password = build_oct(c[2]);
		m->with_rawdata = b_bool(c[3]); m->begin_time = b_time(c[4]); m->end_time = b_time(c[5]);
		m->parameter_tree_path = b_path(c[6]); m->object_list = b_objlist(c[7]); m->das_details = b_tree(c[8]); break; }
	case 0x301: { auto *m = sml_get_profile_pack_response_init(); data = m;
		m->server_id = build_oct(c[0]); m->act_time = b_time(c[1]); m->reg_period = b_u32(c[2]);
		m->parameter_tree_path = b_path(c[3]); m->header_list = b_seq(c[4], b_hdr, f_hdr);
		m->period_list = b_seq(c[5], b_pobj, f_pobj); m->rawdata = build_oct(c[6]); m->profile_signature = build_oct(c[7]); break; }
	case 0x401: { auto *m = sml_get_profile_list_response_init(); data = m;
		m->server_id = build_oct(c[0]); m->act_time = b_time(c[1]); m->reg_period = b_u32(c[2]);
		m->parameter_tree_path = b_path(c[3]); m->val_time = b_time(c[4]); m->status = b_u64(c[5]);
		m->period_list = b_seq(c[6], b_period_v, f_period); m->rawdata = build_oct(c[7]); m->period_signature = build_oct(c[8]); break; }
	case 0x500: { auto *m = sml_get_proc_parameter_request_init(); data = m;
		m->server_id = build_oct(c[0]); m->username = build_oct(c[1]); m->password = build_oct(c[2]);
		m->parameter_tree_path = b_path(c[3]); m->attribute = build_oct(c[4]); break; }
	case 0x501: { auto *m = sml_get_proc_parameter_response_init(); data = m;
		m->server_id = build_oct(c[0]); m->parameter_tree_path = b_path(c[1]); m->parameter_tree = b_tree(c[2]); break; }
	case 0x600: { auto *m = sml_set_proc_parameter_request_init(); data = m;
		m->server_id = build_oct(c[0]); m->username = build_oct(c[1]); m->password = build_oct(c[2]);
		m->parameter_tree_path = b_path(c[3]); m->parameter_tree = b_tree(c[4]); break; }
	case 0x700: { auto *m = sml_get_list_request_init(); data = m;
		m->client_id = build_oct(c[0]); m->server_id = build_oct(c[1]); m->username = build_oct(c[2]);
		m->password = build_oct(c[3]); m->list_name = build_oct(c[4]); break; }
	case 0x701: { auto *m = sml_get_list_response_init(); data = m;
		m->client_id = build_oct(c[0]); m->server_id = build_oct(c[1]); m->list_name = build_oct(c[2]);
		m->act_sensor_time = b_time(c[3]); m->val_list = b_vlist(c[4]); m->list_signature = build_oct(c[5]); m->act_gateway_time = b_time(c[6]); break; }
	case 0xff01: { auto *m = sml_attention_response_init(); data = m;
		m->server_id = build_oct(c[0]); m->attention_number = build_oct(c[1]); m->attention_message = build_oct(c[2]); m->attention_details = b_tree(c[3]); break; }
	}
	return sml_message_body_init(tag, data);
}
std::vector<Bytes> *g_made_ids;
sml_message *build_msg(const Node &m) {
	shape(m, 4);
	sml_message *r = sml_message_init();
	if (g_made_ids && r->transaction_id) g_made_ids->push_back(Bytes((const char *)r->transaction_id->str, r->transaction_id->len));
	sml_octet_string_free(r->transaction_id);
	r->transaction_id = build_oct(m.c[0]);
	r->group_id = b_u8(m.c[1]);
	r->abort_on_error = b_u8(m.c[2]);
	r->message_body = build_body(m.c[3]);
	return r;
}

sml_message *build_partial(const Node &m) {
	g_partial = true;
	shape(m, 4);
	sml_message *r = sml_message_init();
	sml_octet_string_free(r->transaction_id);
	r->transaction_id = build_oct(m.c[0]);
	r->group_id = b_u8(m.c[1]);
	r->abort_on_error = b_u8(m.c[2]);
	if (m.c[3].k != Node::ABS) r->message_body = build_body(m.c[3]);
	g_partial = false;
	return r;
}

// ---------------------------------------------------------------- dump
Node dump_oct(const octet_string *o) {
	if (!o) return Node::abs();
	return Node::oct(Bytes((const char *)o->str, o->str ? o->len : 0));
}
template <class X> static Node d_u(const X *p) { return p ? Node::uns(sizeof(X), *p) : Node::abs(); }
template <class X> static Node d_i(const X *p) { return p ? Node::sint(sizeof(X), *p) : Node::abs(); }
static Node d_time(const sml_time *t) {
	if (!t) return Node::abs();
	Node n = Node::list({d_u(t->tag), d_u(t->data.timestamp)});
	n.mark = 1;
	return n;
}
static Node d_number(int type, const void *p) {
	int w = type & 15, k = type & 0x70;
	if (!p || (w != 1 && w != 2 && w != 4 && w != 8)) return Node::oct(strf("BAD-NUMBER-TYPE-%02x", type));
	uint64_t v = 0;
	memcpy(&v, p, w);
	return k == 0x60 ? Node::uns(w, v) : Node::sint(w, (int64_t)v);
}
static Node d_value(const sml_value *v) {
	if (!v) return Node::abs();
	switch (v->type & 0x70) {
	case 0x00: return v->data.bytes ? dump_oct(v->data.bytes) : Node::oct("");
	case 0x40: return v->data.boolean ? Node::boolean(*v->data.boolean != SML_BOOLEAN_FALSE) : Node::oct("NULL-BOOLEAN");
	case 0x50: case 0x60: return d_number(v->type, v->data.uint8);
	}
	return Node::oct(strf("BAD-VALUE-TYPE-%02x", v->type));
}
static Node d_status(const sml_status *s) {
	if (!s) return Node::abs();
	if ((s->type & 0x70) != 0x60) return Node::oct("BAD-STATUS");
	return d_number(s->type, s->data.status8);
}
static Node d_path(const sml_tree_path *p) {
	if (!p) return Node::abs();
	Node n = Node::list();
	for (int i = 0; i < p->path_entries_len; i++) n.c.push_back(dump_oct(p->path_entries[i]));
	return n;
}
static Node d_period(const sml_period_entry *p) {
	if (!p) return Node::abs();
	return Node::list({dump_oct(p->obj_name), d_u(p->unit), d_i(p->scaler), d_value(p->value), dump_oct(p->value_signature)});
}
static Node d_tupel(const sml_tupel_entry *t) {
	if (!t) return Node::abs();
	return Node::list({dump_oct(t->server_id), d_time(t->sec_index), d_u(t->status),
		d_u(t->unit_pA), d_i(t->scaler_pA), d_i(t->value_pA), d_u(t->unit_R1), d_i(t->scaler_R1), d_i(t->value_R1),
		d_u(t->unit_R4), d_i(t->scaler_R4), d_i(t->value_R4), dump_oct(t->signature_pA_R1_R4),
		d_u(t->unit_mA), d_i(t->scaler_mA), d_i(t->value_mA), d_u(t->unit_R2), d_i(t->scaler_R2), d_i(t->value_R2),
		d_u(t->unit_R3), d_i(t->scaler_R3), d_i(t->value_R3), dump_oct(t->signature_mA_R2_R3)});
}
static Node d_ppv(const sml_proc_par_value *p) {
	if (!p) return Node::abs();
	Node n = Node::list({d_u(p->tag), Node()});
	switch (p->tag ? *p->tag : 0) {
	case 1: n.c[1] = d_value(p->data.value); break;
	case 2: n.c[1] = d_period(p->data.period_entry); break;
	case 3: n.c[1] = d_tupel(p->data.tupel_entry); break;
	case 4: n.c[1] = d_time(p->data.time); break;
	default: n.c[1] = Node::oct("BAD-TAG");
	}
	return n;
}
static Node d_tree(const sml_tree *t) {
	if (!t) return Node::abs();
	Node n = Node::list({dump_oct(t->parameter_name), d_ppv(t->parameter_value), Node()});
	if (t->child_list && t->child_list_len > 0) {
		n.c[2] = Node::list();
		for (int i = 0; i < t->child_list_len; i++) n.c[2].c.push_back(d_tree(t->child_list[i]));
	}
	return n;
}
static Node d_vlist(const sml_list *l) {
	if (!l) return Node::abs();
	Node n = Node::list();
	for (; l; l = l->next)
		n.c.push_back(Node::list({dump_oct(l->obj_name), d_status(l->status), d_time(l->val_time), d_u(l->unit), d_i(l->scaler),
								  d_value(l->value), dump_oct(l->value_signature)}));
	return n;
}
static Node d_hdr(void *p) {
	auto *e = (sml_prof_obj_header_entry *)p;
	if (!e) return Node::abs();
	return Node::list({dump_oct(e->obj_name), d_u(e->unit), d_i(e->scaler)});
}
static Node d_vent(void *p) {
	auto *e = (sml_value_entry *)p;
	if (!e) return Node::abs();
	return Node::list({d_value(e->value), dump_oct(e->value_signature)});
}
static Node d_period_v(void *p) { return d_period((sml_period_entry *)p); }
static Node d_seq(const sml_sequence *s, Node (*d)(void *)) {
	if (!s) return Node::abs();
	Node n = Node::list();
	for (int i = 0; i < s->elems_len; i++) n.c.push_back(d(s->elems[i]));
	return n;
}
static Node d_pobj(void *p) {
	auto *e = (sml_prof_obj_period_entry *)p;
	if (!e) return Node::abs();
	return Node::list({d_time(e->val_time), d_u(e->status), d_seq(e->value_list, d_vent), dump_oct(e->period_signature)});
}
static Node d_objlist(const sml_obj_req_entry_list *l) {
	if (!l) return Node::abs();
	Node n = Node::list();
	for (; l; l = l->next) n.c.push_back(dump_oct(l->object_list_entry));
	return n;
}
Node dump_msg(const sml_message *m) {
	if (!m) return Node::oct("NULL-MESSAGE");
	Node r = Node::list({dump_oct(m->transaction_id), d_u(m->group_id), d_u(m->abort_on_error), Node::list({Node(), Node()})});
	const sml_message_body *b = m->message_body;
	if (!b) { r.c[3] = Node::oct("NULL-BODY"); return r; }
	if (!b->tag) { r.c[3] = Node::oct("NULL-TAG"); return r; }
	Node &o = r.c[3].c[1];
	r.c[3].c[0] = d_u(b->tag);
	if (!b->data) { o = body_schema(*b->tag) ? Node::oct("NULL-DATA") : Node::abs(); return r; }
	switch (*b->tag) {
	case 0x100: { auto *x = (sml_open_request *)b->data; o = Node::list({dump_oct(x->codepage), dump_oct(x->client_id), dump_oct(x->req_file_id), dump_oct(x->server_id), dump_oct(x->username), dump_oct(x->password), d_u(x->sml_version)}); break; }
	case 0x101: { auto *x = (sml_open_response *)b->data; o = Node::list({dump_oct(x->codepage), dump_oct(x->client_id), dump_oct(x->req_file_id), dump_oct(x->server_id), d_time(x->ref_time), d_u(x->sml_version)}); break; }
	case 0x200: o = Node::list({dump_oct(((sml_close_request *)b->data)->global_signature)}); break;
	case 0x201: o = Node::list({dump_oct(((sml_close_response *)b->data)->global_signature)}); break;
	case 0x300: case 0x400: { auto *x = (sml_get_profile_pack_request *)b->data;
		o = Node::list({dump_oct(x->server_id), dump_oct(x->username), dump_oct(x->password), x->with_rawdata ? Node::boolean(*x->with_rawdata != SML_BOOLEAN_FALSE) : Node::abs(),
			d_time(x->begin_time), d_time(x->end_time), d_path(x->parameter_tree_path), d_objlist(x->object_list), d_tree(x->das_details)}); break; }
	case 0x301: { auto *x = (sml_get_profile_pack_response *)b->data;
		o = Node::list({dump_oct(x->server_id), d_time(x->act_time), d_u(x->reg_period), d_path(x->parameter_tree_path), d_seq(x->header_list, d_hdr), d_seq(x->period_list, d_pobj), dump_oct(x->rawdata), dump_oct(x->profile_signature)}); break; }
	case 0x401: { auto *x = (sml_get_profile_list_response *)b->data;
		o = Node::list({dump_oct(x->server_id), d_time(x->act_time), d_u(x->reg_period), d_path(x->parameter_tree_path), d_time(x->val_time), d_u(x->status), d_seq(x->period_list, d_period_v), dump_oct(x->rawdata), dump_oct(x->period_signature)}); break; }
	case 0x500: { auto *x = (sml_get_proc_parameter_request *)b->data; o = Node::list({dump_oct(x->server_id), dump_oct(x->username), dump_oct(x->password), d_path(x->parameter_tree_path), dump_oct(x->attribute)}); break; }
	case 0x501: { auto *x = (sml_get_proc_parameter_response *)b->data; o = Node::list({dump_oct(x->server_id), d_path(x->parameter_tree_path), d_tree(x->parameter_tree)}); break; }
	case 0x600: { auto *x = (sml_set_proc_parameter_request *)b->data; o = Node::list({dump_oct(x->server_id), dump_oct(x->username), dump_oct(x->password), d_path(x->parameter_tree_path), d_tree(x->parameter_tree)}); break; }
	case 0x700: { auto *x = (sml_get_list_request *)b->data; o = Node::list({dump_oct(x->client_id), dump_oct(x->server_id), dump_oct(x->username), dump_oct(x->password), dump_oct(x->list_name)}); break; }
	case 0x701: { auto *x = (sml_get_list_response *)b->data; o = Node::list({dump_oct(x->client_id), dump_oct(x->server_id), dump_oct(x->list_name), d_time(x->act_sensor_time), d_vlist(x->val_list), dump_oct(x->list_signature), d_time(x->act_gateway_time)}); break; }
	case 0xff01: { auto *x = (sml_attention_response *)b->data; o = Node::list({dump_oct(x->server_id), dump_oct(x->attention_number), dump_oct(x->attention_message), d_tree(x->attention_details)}); break; }
	default: o = Node::abs();
	}
	return r;
}
std::vector<Node> dump_file(const sml_file *f) {
	std::vector<Node> v;
	for (int i = 0; i < f->messages_len; i++) v.push_back(dump_msg(f->messages[i]));
	return v;
}

// ---------------------------------------------------------------- inspection through the API
static void insp_value(sml_value *v, Hash &h) {
	if (!v) return;
	int k = v->type & 0x70;
	if (k == 0x50 || k == 0x60) { double d = sml_value_to_double(v); h.add(&d, sizeof d); }
	if (v->type == SML_TYPE_OCTET_STRING) {
		for (int mixed = 0; mixed < 2; mixed++) {
			char *s = nullptr;
			char *r = sml_value_to_strhex(v, &s, mixed);
			if (r) { h.add(r, strlen(r)); sim_free(r); }
		}
		if (v->data.bytes) h.addn((unsigned)sml_octet_string_cmp(v->data.bytes, v->data.bytes));
	}
}
void inspect_file(sml_file *f, Hash &h) {
	for (int i = 0; i < f->messages_len; i++) {
		sml_message *m = f->messages[i];
		if (!m || !m->message_body || !m->message_body->tag || !m->message_body->data) continue;
		if (*m->message_body->tag == SML_MESSAGE_GET_LIST_RESPONSE)
			for (sml_list *e = ((sml_get_list_response *)m->message_body->data)->val_list; e; e = e->next) insp_value(e->value, h);
		if (*m->message_body->tag == SML_MESSAGE_GET_PROFILE_LIST_RESPONSE) {
			sml_sequence *s = ((sml_get_profile_list_response *)m->message_body->data)->period_list;
			for (int k = 0; s && k < s->elems_len; k++) if (s->elems[k]) insp_value(((sml_period_entry *)s->elems[k])->value, h);
		}
	}
}
