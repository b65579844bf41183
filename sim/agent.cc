#include "agent.h"
#include <cerrno>
#include <fcntl.h>

bool is_op(const Op &l, const std::string &key) { return l[0] == key && l.size() >= 3; }

static Node parse_node(const std::string &t) {
	Node n;
	if (!from_text(t, n)) invalid("node text");
	return n;
}
static bool msg_shape(const Node &m) {
	if (m.k != Node::LST || m.c.size() != 4 || m.c[3].k != Node::LST || m.c[3].c.size() != 2) return false;
	if (m.c[3].c[0].k != Node::UNS || m.c[3].c[0].w != 4 || !body_schema((uint32_t)m.c[3].c[0].n)) return false;
	return true;
}
// op <name> <slot> ...
bool model_op(std::map<std::string, std::vector<Node>> &M, const Op &o) {
	const std::string &n = o[1], &sl = o[2];
	if (n == "new") { if (M.count(sl)) return false; M[sl]; return true; }
	if (n == "recvhex") {
		if (M.count(sl) || o.size() < 4) return false;
		Bytes b;
		if (!unhex(o[3], b)) return false;
		RefFile f = ref_parse(b);
		for (auto &m : f.msgs) { if (!msg_shape(m.m)) return false; M[sl].push_back(normalise(m.m)); }
		M[sl];
		return true;
	}
	if (n == "hex") return true;
	if (n == "line") { Bytes b; return o.size() >= 5 && unhex(o[4], b) && !b.empty(); }
	if (n == "partial") { Node m; return from_text(sl, m) && m.k == Node::LST && m.c.size() == 4; }
	if (!M.count(sl)) return false;
	auto &v = M[sl];
	size_t i = o.size() > 3 ? strtoul(o[3].c_str(), 0, 0) : 0;
	if (n == "free") { M.erase(sl); return true; }
	if (n == "send" || n == "recv" || n == "print") return true;
	if (n == "msg") { if (o.size() < 4) return false; Node m; if (!from_text(o[3], m) || !msg_shape(m)) return false; v.push_back(normalise(m)); return true; }
	if (n == "pop") { if (v.empty()) return false; v.pop_back(); return true; }
	if (i >= v.size() || o.size() < 5) return false;
	Node x;
	if (!from_text(o[4], x)) return false;
	if (n == "repl") { if (!msg_shape(x)) return false; v[i] = normalise(x); return true; }
	if (n == "body") { Node t = v[i]; t.c[3] = x; if (!msg_shape(t)) return false; v[i] = normalise(t); return true; }
	if (n == "grp") { if (x.k != Node::ABS && !(x.k == Node::UNS && x.w == 1)) return false; v[i].c[1] = x; return true; }
	if (n == "tid") { if (x.k != Node::OCT) return false; v[i].c[0] = normalise(x); return true; }
	if (n == "list") {
		if (v[i].c[3].c[0].n != 0x701 || x.k != Node::LST || x.c.size() != 7) return false;
		Node &l = v[i].c[3].c[1].c[4];
		if (l.k == Node::ABS) l = Node::list();
		l.c.push_back(normalise(x));
		return true;
	}
	return false;
}

bool model_has_esc(const std::vector<Node> &model) {
	Bytes p;
	for (auto &m : model) p += enc_msg(m);
	return has_aligned_esc(p);
}

void Agent::open() { sink_fd = W->add_fd(FD_SINK, 0, nullptr, &sink); }

void Agent::op(const Op &o) {
	const std::string &n = o[1], &sl = o[2];
	tracef("op %s %s\n", n.c_str(), sl.c_str());
	std::map<std::string, std::vector<Node>> M;
	for (auto &k : slots) M[k.first] = k.second.model;
	if (!model_op(M, o)) invalid("operation does not apply: " + n);
	try {
		if (n == "new") slots[sl].f = sml_file_init();
		else if (n == "recvhex") {
			Bytes b;
			unhex(o[3], b);
			unsigned char *p = (unsigned char *)malloc(b.size() ? b.size() : 1);
			memcpy(p, b.data(), b.size());
			Slot &x = slots[sl];
			x.f = sml_file_parse(p, b.size());
			free(p);
			x.loaded = true;
			std::vector<Node> got = normalised(dump_file(x.f));
			received.push_back(got);
			for (auto &m : got) transcript.add(to_text(m));
			if (check_recv) { std::string d = diff_nodes(M[sl], got); if (!d.empty()) violation("received-altered", d); }
		} else if (n == "hex") {
			Bytes b;
			octet_string *a = sml_octet_string_init_from_hex((char *)o[2].c_str());
			if (a) {
				transcript.add(Bytes((char *)a->str, a->str ? a->len : 0));
				if (o[2].size() % 2 == 0 && a->str) transcript.addn((unsigned)sml_octet_string_cmp_with_hex(a, (char *)o[2].c_str()));
				for (size_t k = 3; k < o.size() && a->str; k++) { // compared with other texts
					if (o[k].empty() || o[k].size() % 2) continue;
					transcript.addn(sml_octet_string_cmp_with_hex(a, (char *)o[k].c_str()) == 0);
					octet_string *q = sml_octet_string_init_from_hex((char *)o[k].c_str());
					if (!q || !q->str) violation("wrong-result", "a hexadecimal text of even length was not converted");
					transcript.addn(sml_octet_string_cmp(a, q) == 0);
					sml_octet_string_free(q);
				}
				sml_octet_string_free(a);
			}
		} else if (n == "line") { // line <schedule seed> <listen|read> <hex>: a line of its own, to its end
			Rng r((uint64_t)strtoll(o[2].c_str(), 0, 0));
			Scn sc;
			Stream st;
			if (!unhex(o[4], st.data)) invalid("hex");
			std::vector<size_t> hot;
			for (size_t p = 0; (p = st.data.find("\x1b\x1b\x1b\x1b", p)) != Bytes::npos; p += 4) hot.push_back(p);
			SchedOpt so;
			so.heavy = false;
			gen_schedule(r, sc, st.data.size(), hot, so);
			sc.add({"end", "eof", strf("%d", (int)r.below(5000))});
			build_line(sc, st, line);
			int fd = W->add_fd(FD_LINE, r.coin() ? O_NONBLOCK : 0, &line);
			auto cb = [&](unsigned char *b, size_t len) {
				Bytes f((char *)b, len);
				if (len < 16) violation("frame-altered", "a delivered frame is shorter than its marks");
				sml_file *x = sml_file_parse(b + 8, len - 16);
				std::vector<Node> got = dump_file(x);
				for (auto &m : got) transcript.add(to_text(m));
				received.push_back(got);
				sml_file_free(x);
				transcript.add(f);
				if (memcmp(f.data(), b, len)) transcript.add("changed while it was handled");
			};
			if (o[3] == "listen") listen_with(fd, cb);
			else {
				unsigned char *b = (unsigned char *)malloc(8096);
				while (!line.end_seen) { size_t k = sml_transport_read(fd, b, 8096); transcript.addn(k); if (k) cb(b, k); }
				free(b);
			}
			W->fds[fd] = SFd();
		} else if (n == "partial") sml_message_free(build_partial(parse_node(sl)));
		else if (n == "free") { sml_file_free(slots[sl].f); slots.erase(sl); }
		else if (n == "msg") sml_file_add_message(slots[sl].f, build_msg(parse_node(o[3])));
		else if (n == "print") { W->out.mode = 2; sml_file_print(slots[sl].f); W->out.visible.clear(); Hash h; inspect_file(slots[sl].f, h); transcript.addn(h.h); }
		else if (n == "send") { // outcomes of the successive write calls: full, short:<n>, err:<errno>; nomem:<k>[+]: no memory for the k-th allocation (and all later ones)
			bool faulty = false;
			uint64_t nomem = 0;
			bool nomem_on = false;
			unsigned long times = 0; // times:<k>: so often before, with nothing in its way
			sink.accepted.clear();
			sink.script.clear();
			sink.next = 0;
			sink.calls = 0;
			for (size_t i = 3; i < o.size(); i++) {
				if (o[i].compare(0, 6, "short:") == 0) { sink.script.push_back({1, strtol(o[i].c_str() + 6, 0, 0)}); faulty = true; }
				else if (o[i].compare(0, 4, "err:") == 0) { sink.script.push_back({2, strtol(o[i].c_str() + 4, 0, 0)}); faulty = true; }
				else if (o[i].compare(0, 6, "times:") == 0) times = strtoul(o[i].c_str() + 6, 0, 0);
				else if (o[i].compare(0, 6, "nomem:") == 0) { nomem = strtoul(o[i].c_str() + 6, 0, 0); nomem_on = o[i].back() == '+'; }
				else sink.script.push_back({0, 0});
			}
			pollute_stack((LG.fill ^ 0x3c) & 255);
			if (times > 100000) invalid("times");
			if (times) { // the first one that differs from the others is the one that counts
				std::vector<WOutcome> script;
				script.swap(sink.script);
				Bytes first;
				bool other = false;
				for (unsigned long k = 0; k < times && !other; k++) {
					sink.accepted.clear();
					sink.calls = 0;
					long ret = sml_transport_write(sink_fd, slots[sl].f);
					if (!k) first = sink.accepted;
					if (ret != (long)first.size() || sink.accepted != first) {
						tracef("  transmission %lu differs\n", k);
						sends.push_back({sink.accepted, ret, slots[sl].model, false, nsend});
						other = true;
					}
				}
				if (other) transcript.add("other");
				sink.accepted.clear();
				sink.calls = 0;
				sink.script.swap(script);
				sink.next = 0;
			}
			LG.tried = LG.refused = 0;
			LG.fail_at = nomem;
			LG.fail_on = nomem_on;
			long ret = sml_transport_write(sink_fd, slots[sl].f);
			LG.fail_at = 0;
			if (LG.refused) faulty = true;
			sends.push_back({sink.accepted, ret, slots[sl].model, faulty, nsend++});
			bytes_sent += sink.accepted.size();
			transcript.add(sink.accepted);
			transcript.addn(ret);
			W->log.add(sink.accepted);
			tracef("  sent %zu bytes, result %ld\n", sink.accepted.size(), ret);
			if (ret > 0 && is_complete_frame(sink.accepted)) last_frame = sink.accepted;
		} else if (n == "recv") { // recv <slot> <schedule seed>: the last transmission arrives at a receiver
			if (sends.empty() || sends.back().faulty) invalid("nothing to receive");
			if (last_frame.empty() || sends.back().accepted != last_frame) {
				if (check_recv) violation("not-deliverable", "what was sent is not a complete frame: " + brief(sends.back().accepted, 400));
				transcript.add("nothing to receive");
				return;
			}
			Rng r((uint64_t)(o.size() > 3 ? strtoll(o[3].c_str(), 0, 0) : 1));
			Scn sc;
			Stream st;
			st.data = last_frame;
			SchedOpt so;
			so.heavy = false;
			gen_schedule(r, sc, st.data.size(), {0, 4, 8, st.data.size() - 8, st.data.size() - 4}, so);
			sc.add({"end", "eof", strf("%d", (int)r.below(5000))});
			build_line(sc, st, line);
			int fd = W->add_fd(FD_LINE, r.coin() ? O_NONBLOCK : 0, &line);
			size_t max = st.data.size() + r.below(3);
			int cnt = 0;
			const std::vector<Node> want = sends.back().model;
			auto cb = [&](unsigned char *b, size_t len) {
				cnt++;
				if (Bytes((char *)b, len) != last_frame && check_recv) violation("frame-altered", "the receiver got other bytes than were sent");
				sml_file *f = sml_file_parse(b + 8, len - 16);
				std::vector<Node> got = dump_file(f);
				for (auto &m : got) transcript.add(to_text(m));
				received.push_back(got);
				sml_file_free(f);
				if (check_recv) {
					std::string d = diff_nodes(want, normalised(got));
					if (!d.empty()) violation("received-altered", d);
				}
			};
			bool listen = st.data.size() <= 8096 && r.coin();
			if (own_guard) {
				Received R = receive(fd, line, listen, max, cb);
				if (R.end != END_RETURN) violation("receive-stuck", "the receiver did not come to its end");
			} else if (listen) listen_with(fd, cb);
			else {
				unsigned char *b = (unsigned char *)malloc(max);
				while (!line.end_seen) { size_t k = sml_transport_read(fd, b, max); transcript.addn(k); if (k) cb(b, k); }
				free(b);
			}
			if (cnt != 1 && check_recv) violation("frame-lost", strf("one frame was sent, %d arrived", cnt));
			W->fds[fd] = SFd();
		} else {
			size_t i = o.size() > 3 ? strtoul(o[3].c_str(), 0, 0) : 0;
			sml_file *f = slots[sl].f;
			if (n == "pop") { sml_message_free(f->messages[f->messages_len - 1]); f->messages_len--; }
			else {
				if ((int)i >= f->messages_len) violation("message-missing", strf("the file has %d messages instead of %zu", f->messages_len, slots[sl].model.size()));
				sml_message *m = f->messages[i];
				Node x = parse_node(o[4]);
				if (n == "repl") { sml_message *q = build_msg(x); sml_message_free(m); f->messages[i] = q; }
				else if (n == "body") { sml_message_body *q = build_body(x); sml_message_body_free(m->message_body); m->message_body = q; }
				else if (n == "grp") { sml_number_free(m->group_id); m->group_id = x.k == Node::ABS ? nullptr : sml_u8_init(x.n); }
				else if (n == "tid") { octet_string *q = build_oct(x); sml_octet_string_free(m->transaction_id); m->transaction_id = q; }
				else if (n == "list") {
					sml_get_list_response *b = (sml_get_list_response *)m->message_body->data;
					sml_list *e = build_lentry(x);
					if (!b->val_list) b->val_list = e;
					else { sml_list *t = b->val_list; while (t->next) t = t->next; sml_list_add(t, e); }
				}
			}
		}
	} catch (BuildError &e) { invalid("cannot build: " + e.what); }
	if (n != "free" && n != "hex" && n != "partial" && n != "line") slots[sl].model = M[sl];
}
void Agent::free_all() {
	for (auto &k : slots) if (k.second.f) sml_file_free(k.second.f);
	slots.clear();
	sml_file_free(nullptr); // nothing to free
	sml_message_free(nullptr);
}
