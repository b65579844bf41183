// C06, C07, C12, C13: frames from one or two simulated lines, parsed inside the callback.
// Real: transport receiver, parser, value API, printer, writer. Simulated: descriptors, memory.
#include "exec.h"
#include <cerrno>
#include <fcntl.h>
#include <algorithm>

// numbers in list values and status fields lose their declared width when compressed
static bool same_loose(const Node &a, const Node &b) {
	if (a.k != b.k || a.s != b.s || a.n != b.n || a.c.size() != b.c.size()) return false;
	for (size_t i = 0; i < a.c.size(); i++) if (!same_loose(a.c[i], b.c[i])) return false;
	return true;
}

void exec_parse(const Scn &s) {
	std::string prop = s.get("prop");
	Stream st[2] = {build_stream(s), build_stream(s, "2")};
	new_world(s);
	static Line l[2];
	int fd[2];
	size_t total = 0, maxframe = 16;
	for (int i = 0; i < 2; i++) {
		build_line(s, st[i], l[i], i ? "2" : "");
		fd[i] = W->add_fd(FD_LINE, s.geti("nonblock", 0) ? O_NONBLOCK : 0, &l[i]);
		total += st[i].data.size();
		for (auto &p : st[i].pieces) maxframe = std::max(maxframe, p.len);
		W->log.add(st[i].data);
	}
	for (int i = 0; i < 2; i++) prior_connection(s, fd[i]);
	g_step_limit = g_steps + 300000 + 1500ull * total + 3000ull * s.L.size();
	g_step_what = "work not proportional to the input";
	bool two = !st[1].data.empty();
	int sinkfd = -1;
	static Sink sink;
	if (prop == "C07") sinkfd = W->add_fd(FD_SINK, 0, nullptr, &sink);
	bool expect_nodes = prop == "C12" || prop == "C13";
	if (prop != "C07")
		for (int i = 0; i < 2; i++)
			if (!st[i].clean_starts(0)) invalid("stray start mark");
	size_t idx[2] = {0, 0};
	std::vector<std::vector<const Piece *>> fr(2);
	for (int i = 0; i < 2; i++) for (auto &p : st[i].pieces) if (p.tag == 'F') fr[i].push_back(&p);
	uint64_t delivered = 0, dropped = 0, errors = 0, kermit = 0, fixed = 0;
	auto on_frame = [&](int line, unsigned char *b, size_t n) {
		if (n < 16) violation("not-a-frame", strf("delivered %zu bytes", n));
		Bytes payload((char *)b + 8, n - 16);
		if (prop != "C07") {
			if (idx[line] >= fr[line].size()) violation("frame-extra", "more frames than were sent");
			const Piece *p = fr[line][idx[line]++];
			if (st[line].data.substr(p->off, p->len) != Bytes((char *)b, n)) violation("frame-altered", "the frame differs from the one sent");
		}
		uint64_t live0 = LG.live.size();
		LG.reset_peak();
		uint64_t base = LG.bytes;
		pollute_stack(s.geti("fill", 0x5a));
		unsigned char *copy = nullptr; // an application may keep the file alone, in a block of exactly its size
		if (s.geti("exact", 0)) { copy = (unsigned char *)malloc(n - 16 ? n - 16 : 1); memcpy(copy, b + 8, n - 16); }
		sml_file *f = sml_file_parse(copy ? copy : b + 8, n - 16);
		if (!f) violation("no-file", "sml_file_parse returned NULL");
		RefFile ref = ref_parse(payload);
		std::vector<Node> want, got = dump_file(f);
		for (auto &m : ref.msgs) { want.push_back(m.m); kermit += m.kermit; }
		for (auto &m : got) W->log.add(to_text(m));
		delivered += got.size();
		dropped += ref.dropped;
		errors += ref.error;
		fixed += ref.power_fixed;
		std::string d = diff_nodes(want, got);
		if (prop == "C07") { // what is decoded is C06's and C12's business
			W->out.mode = 2;
			sml_file_print(f);
			W->out.visible.clear();
			Hash h;
			inspect_file(f, h);
			W->log.addn(h.h);
			sink = Sink();
			bool writable = true;
			for (auto &m : got) if (m.k != Node::LST || m.c[3].k != Node::LST) writable = false;
			if (!writable) violation("incomplete-message", "a delivered message has no body");
			sml_transport_write(sinkfd, f);
			sml_file_free(f);
			free(copy);
			uint64_t used = LG.peak - base;
			if (used > 65536 + 160 * n) violation("memory-use", strf("%llu bytes held for a frame of %zu bytes", (unsigned long long)used, n));
			(void)live0;
			return;
		}
		free(copy);
		if (!d.empty()) {
			std::string cls = want.size() == got.size() ? "message-altered" : got.size() < want.size() ? "message-lost" : "message-invented";
			violation(cls, d + " in frame " + brief(payload, 400));
		}
		if (expect_nodes) { // the reference decoder must itself agree with what was encoded
			const Piece *p = fr[line][idx[line] - 1];
			if (p->has_nodes) {
				bool ok = ref.msgs.size() == p->nodes.size() && !ref.error;
				for (size_t i = 0; ok && i < p->nodes.size(); i++) ok = same_loose(normalise(p->nodes[i]), normalise(want[i]));
				if (!ok) harness_error("reference decoder and encoder disagree: " + diff_nodes(normalised(p->nodes), normalised(want)));
				count("probe-expected-trees");
			}
		}
		sml_file_free(f);
	};
	RunEnd end = END_RETURN;
	if (!two) {
		Received R = receive(fd[0], l[0], maxframe <= 8096, maxframe, [&](unsigned char *b, size_t n) { on_frame(0, b, n); });
		end = R.end;
	} else {
		std::string ord = s.get("ord", "01");
		end = run_guarded([&]() {
			static unsigned char buf[8096];
			size_t k = 0;
			while (!l[0].end_seen || !l[1].end_seen) {
				int w = ord[k++ % ord.size()] == '1';
				if (l[w].end_seen) w = !w;
				size_t n = sml_transport_read(fd[w], buf, sizeof buf);
				if (n) on_frame(w, buf, n);
			}
		});
	}
	if (end == END_STUCK && (l[0].end && (!two || l[1].end))) violation("end-missed", "the receiver waits for ever");
	if (end == END_EXIT) violation("exit", "the library ended the process");
	if (prop != "C07")
		for (int i = 0; i < 2; i++)
			if (idx[i] != fr[i].size()) violation("frame-lost", strf("%zu of %zu frames arrived", idx[i], fr[i].size()));
	count("messages-delivered", delivered);
	count("messages-dropped-crc", dropped);
	count("files-with-structural-error", errors);
	count("messages-kermit", kermit);
	count("lists-corrected", fixed);
	g_sh->parts += delivered;
	g_sh->nontrivial = prop == "C06" ? dropped + errors + kermit > 0 && delivered > 0 : delivered > 0;
}

// ------------------------------------------------------------------------------ generation
static Node obis_entry(const char *name, const Node &unit, const Node &scaler, const Node &val) {
	return Node::list({Node::oct(Bytes(name, 6)), Node::abs(), Node::abs(), unit, scaler, val, Node::abs()});
}
static Bytes dzg_serial(Rng &r, bool &affected) {
	uint64_t v;
	affected = false;
	switch (r.below(7)) {
	case 0: v = r.range(42000000, 48999999); break;
	case 1: v = r.range(55000000, 58999999); break;
	case 2: { static const uint64_t e[] = {41999999, 42000000, 48999999, 49000000, 54999999, 55000000, 58999999, 59000000}; v = e[r.below(8)]; break; }
	case 3: v = r.range(49000000, 54999999); break;
	case 4: v = r.range(60000000, 99999999); break;
	case 5: v = r.range(42000000, 48999999) | (uint64_t)r.range(1, 255) << 32; break;
	default: v = r.next() & 0xffffffffffull;
	}
	Bytes b("\x0a\x01" "DZG", 5);
	for (int i = 4; i >= 0; i--) b += (char)(v >> (8 * i));
	switch (r.below(8)) {
	case 0: b[r.below(5)] ^= (char)(1 << r.below(8)); break;
	case 1: b.resize(9); break;
	case 2: b += (char)r.next(); break;
	default: break;
	}
	return b;
}
static const char SERIAL_OID[] = "\x01\x00\x60\x01\x00\xff", POWER_OID[] = "\x01\x00\x10\x07\x00\xff";
static Node power_value(Rng &r) {
	switch (r.below(10)) {
	case 0: return Node::oct(r.bytes(r.below(4)));
	case 1: return Node::boolean(r.coin());
	case 2: { static const int W[4] = {1, 2, 4, 8}; return Node::uns(W[r.below(4)], r.next()); }
	case 3: return Node::sint(4, (int64_t)r.next() >> r.below(64));
	case 4: return Node::sint(8, (int64_t)r.next() >> r.below(64));
	case 5: return Node::sint(1, (int64_t)r.next());
	default: return Node::sint(2, (int64_t)r.next() >> (48 + r.below(16)));
	}
}
// the fields around the value are there or not and have nothing to do with the correction
static void dress_entry(Rng &r, Node &e, GenOpt &o) {
	if (r.p(0.5)) return;
	Node x = gen_type(r, T_LENTRY, o, 1);
	for (int k : {1, 2, 3, 4, 6}) if (r.p(0.4)) e.c[k] = x.c[k];
}
static Node dzg_list(Rng &r, GenOpt &o) {
	Node m = gen_msg(r, 0x701, o);
	Node l = Node::list();
	int n = r.p(0.06) ? 10 + (int)r.below(35) : 2 + (int)r.below(6);
	for (int i = 0; i < n; i++) {
		bool a;
		switch (r.below(5)) {
		case 0: case 1: {
			Node e = obis_entry(SERIAL_OID, Node::abs(), Node::abs(), Node::oct(dzg_serial(r, a)));
			if (r.p(0.08)) { if (r.coin()) e.c[0].s[r.below(6)] ^= (char)(1 << r.below(8)); else e.c[0].s.resize(5 + r.below(3)); }
			dress_entry(r, e, o);
			l.c.push_back(e);
			break;
		}
		case 2: case 3: {
			Node e = obis_entry(POWER_OID, r.coin() ? Node::uns(1, 27) : Node::abs(), Node::sint(1, r.range(-3, 1)), power_value(r));
			if (r.p(0.1)) e.c[0].s[r.below(6)] ^= 1;
			if (r.p(0.1)) e.c[0].s.resize(5 + r.below(3));
			dress_entry(r, e, o);
			l.c.push_back(e);
			break;
		}
		default: l.c.push_back(gen_type(r, T_LENTRY, o, 1));
		}
	}
	m.c[3].c[1].c[4] = l;
	return m;
}
// a random node below n
static Node *pick_node(Rng &r, Node &n) {
	std::vector<Node *> v;
	std::function<void(Node &)> w = [&](Node &x) { v.push_back(&x); for (auto &k : x.c) w(k); };
	w(n);
	return v[r.below(v.size())];
}
static void tree_mutation(Rng &r, Node &m, GenOpt &o) {
	Node *n = pick_node(r, m);
	switch (r.below(8)) {
	case 0: *n = Node::abs(); break;
	case 1: *n = Node::oct(r.bytes(r.below(20))); break;
	case 2: *n = Node::boolean(r.coin()); break;
	case 3: { static const int W[4] = {1, 2, 4, 8}; *n = r.coin() ? Node::uns(W[r.below(4)], r.next()) : Node::sint(W[r.below(4)], (int64_t)r.next()); break; }
	case 4: *n = Node::list(); break;
	case 5: if (n->k == Node::LST) { if (r.coin() && !n->c.empty()) n->c.pop_back(); else n->c.push_back(gen_value(r, o)); } else *n = Node::abs(); break;
	case 6: { Node c = *pick_node(r, m); *n = c; break; }
	default: if (n->k == Node::LST && !n->c.empty()) { std::swap(n->c[r.below(n->c.size())], n->c[r.below(n->c.size())]); } else *n = gen_value(r, o); break;
	}
	if (n->k == Node::LST) n->mark = 0;
}
// Changes an encoded message element by element: elements are replaced, inserted, dropped, lists claim
// other counts, lengths wrap around. A drop is often paired with an insertion nearby, so that decoders
// that are lenient in one place find their way again later.
struct Tok { int type; size_t hdr; Bytes b; };
static std::vector<Tok> tokens_of(const Bytes &h) {
	std::vector<Tok> v;
	for (size_t i = 0; i < h.size();) {
		size_t st = i;
		uint64_t l = 0;
		int ty = (unsigned char)h[i] & 0x70;
		while (i < h.size()) { unsigned char x = h[i++]; l = (l << 4 | (x & 15)) & 0xffffff; if (!(x & 0x80)) break; }
		size_t hdr = i - st;
		if (ty != 0x70 && l > hdr) i = std::min(h.size(), st + (size_t)l);
		v.push_back({ty, hdr, h.substr(st, i - st)});
	}
	return v;
}
static Bytes odd_element(Rng &r) {
	switch (r.below(18)) {
	case 16: case 17: { // a scalar of a width it cannot have
		static const int ty[] = {0x40, 0x40, 0x50, 0x60};
		size_t n = r.coin() ? 2 + r.below(3) : 5 + r.below(12);
		return tl(ty[r.below(4)], n) + (r.coin() ? Bytes(n - 1, 0) + (char)r.below(5) : r.bytes(n));
	}
	case 0: case 1: case 2: case 3: return Bytes("\x01", 1);
	case 4: return enc(Node::uns(1, r.below(6)));
	case 5: return enc(Node::sint(1, (int64_t)r.next()));
	case 6: { static const int W[4] = {1, 2, 4, 8}; return r.coin() ? enc(Node::uns(W[r.below(4)], r.next())) : enc(Node::sint(W[r.below(4)], (int64_t)r.next())); }
	case 7: return enc(Node::boolean(r.coin()));
	case 8: return enc(Node::oct(r.bytes(r.below(20))));
	case 9: return tl(0x70, r.below(8));
	case 10: return tl((int)(r.below(8) << 4), r.below(3));
	case 11: return Bytes(1, (char)(0x40 + 0x10 * r.below(3) + 1)); // an empty boolean, integer or unsigned
	case 12: return Bytes("\x72\x62", 2) + (char)(1 + r.below(4)) + (r.coin() ? Bytes("\x65", 1) + r.bytes(4) : Bytes("\x01", 1));
	case 13: return Bytes(1, (char)(0x10 * (1 + r.below(3)) + 1 + r.below(2))) + Bytes(1, (char)r.next()); // reserved types
	case 14: return enc(Node::uns(4, r.next()));
	default: return tl(0, 2, 1) + r.bytes(2);
	}
}
static Bytes wrap_length(const Tok &t) { // the same length plus a multiple of 2^32 (or 2^31)
	uint64_t l = 0;
	for (size_t k = 0; k < t.hdr; k++) l = l << 4 | ((unsigned char)t.b[k] & 15);
	int n = 9; // type-length bytes
	if (t.type != 0x70) l += n - t.hdr;
	Bytes o;
	for (int k = n - 1; k >= 0; k--) {
		int nib = k == n - 1 ? 1 : (int)(l >> (4 * k)) & 15;
		o += (char)((k == n - 1 ? t.type : 0) | (k ? 0x80 : 0) | nib);
	}
	return o + t.b.substr(t.hdr);
}
static size_t some_token(Rng &r, const std::vector<Tok> &v) { // rare kinds of elements as often as common ones
	if (r.coin()) return 1 + r.below(v.size() - 1);
	std::map<int, std::vector<size_t>> kinds;
	for (size_t i = 1; i < v.size(); i++) if (!v[i].b.empty()) kinds[(unsigned char)v[i].b[0] & 0x7f].push_back(i);
	auto it = kinds.begin();
	std::advance(it, (long)r.below(kinds.size()));
	return it->second[r.below(it->second.size())];
}
static Bytes element_mutation(Rng &r, const Bytes &h) {
	std::vector<Tok> v = tokens_of(h);
	if (v.size() < 4) return h;
	std::vector<size_t> choice; // tags and data of two element lists: time stamps, parameter values
	for (size_t i = 1; i + 2 < v.size(); i++) if (v[i].b == "\x72") { choice.push_back(i); choice.push_back(i + 1); choice.push_back(i + 2); }
	int n = 1 + (int)r.below(2);
	while (n--) {
		size_t i = !choice.empty() && r.p(0.4) ? choice[r.below(choice.size())] : some_token(r, v);
		if (i >= v.size()) continue;
		int op = (int)r.below(10);
		int drift = 0; // elements too many
		switch (op) {
		case 0: v[i].b = odd_element(r); v[i].hdr = 1; v[i].type = -1; drift = (int)r.below(3) - 1; break;
		case 1: v.insert(v.begin() + i, Tok{-1, 1, odd_element(r)}); drift = 1; break;
		case 2: v.erase(v.begin() + i); drift = -1; break;
		case 3: if (v[i].type == 0x70) { int c = ((unsigned char)v[i].b.back() & 15) + (int)r.range(-2, 2); v[i].b.back() = (char)(((unsigned char)v[i].b.back() & 0xf0) | (c & 15)); } drift = (int)r.below(3) - 1; break;
		case 4: if (v[i].hdr && v[i].type >= 0) v[i].b = wrap_length(v[i]); break;
		case 5: case 6: { // an empty number before something that begins with a high bit
			std::vector<size_t> nums;
			for (size_t k = 1; k + 1 < v.size(); k++) if (v[k].type == 0x50 || v[k].type == 0x60) nums.push_back(k);
			if (nums.empty()) break;
			size_t k = nums[r.below(nums.size())];
			v[k].b = Bytes(1, (char)(v[k].type | 1));
			v[k].type = -1;
			if (v[k + 1].type == 0 && v[k + 1].hdr == 1 && v[k + 1].b.size() < 12) v[k + 1].b = tl(0, v[k + 1].b.size() - 1, 1) + v[k + 1].b.substr(1), v[k + 1].type = -1;
			else if (v[k + 1].type == 0x70 && v[k + 1].hdr == 1) v[k + 1].b = tl(0x70, (unsigned char)v[k + 1].b[0] & 15, 1), v[k + 1].type = -1;
			break;
		}
		case 8: { // another type, the length as it was
			if (r.coin()) { // rather a list
				std::vector<size_t> ls;
				for (size_t k = 1; k < v.size(); k++) if (v[k].type == 0x70 && v[k].hdr == 1) ls.push_back(k);
				if (!ls.empty()) i = ls[r.below(ls.size())];
			}
			if (v[i].type < 0 || v[i].hdr != 1 || v[i].b.empty()) break;
			static const int ty[] = {0, 0x40, 0x50, 0x60, 0x70};
			int t = ty[r.below(5)], l = ((unsigned char)v[i].b[0] & 15) + (v[i].type == 0x70 && t != 0x70) - (v[i].type != 0x70 && t == 0x70);
			if (l < 0 || l > 15) break;
			v[i].b[0] = (char)(t | l);
			if (r.p(v[i].type == 0x70 ? 0.2 : 0.5)) { // with content that would do
				v[i].b.resize(1);
				if (t != 0x70) v[i].b += r.bytes(l ? l - 1 : 0);
			}
			break;
		}
		case 9: { // an element is missing with all it contains
			size_t e = i, need = 1;
			while (need && e < v.size()) { need--; if (v[e].type == 0x70) for (size_t k = 0, c = 0; k < v[e].hdr; k++) { c = c << 4 | ((unsigned char)v[e].b[k] & 15); if (k + 1 == v[e].hdr) need += c; } e++; }
			v.erase(v.begin() + i, v.begin() + e);
			if (v.size() < 4) { Bytes o; for (auto &t : v) o += t.b; return o; }
			break;
		}
		default: { // the value of a choice, or its tag, left out or odd, and the surplus made up for
			if (choice.empty()) break;
			size_t k = choice[r.below(choice.size())];
			if (k + 1 >= v.size()) break;
			v[k].b = r.coin() ? Bytes("\x01", 1) : odd_element(r);
			v[k].type = -1;
			drift = 1;
		}
		}
		if (drift && r.p(0.75)) {
			size_t j = i + 1 + r.below(8);
			std::vector<size_t> absent;
			for (size_t k = i + 1; k < v.size() && k < i + 14; k++) if (v[k].b == "\x01") absent.push_back(k);
			if (drift > 0 && !absent.empty() && r.p(0.7)) j = absent[r.below(absent.size())];
			if (j < v.size()) { if (drift > 0) v.erase(v.begin() + j); else v.insert(v.begin() + j, Tok{-1, 1, odd_element(r)}); }
		}
		choice.clear();
	}
	Bytes o;
	for (auto &t : v) o += t.b;
	return o;
}
// A payload that ends inside an element, with enough zero bytes in front that the frame needs no padding:
// what follows the cut is the end of the payload itself.
static Bytes cut_message(Rng &r, const Bytes &b, size_t before) {
	std::vector<Tok> v = tokens_of(b);
	if (v.size() < 3) return b;
	size_t off = 0, k = some_token(r, v);
	for (size_t i = 0; i < k; i++) off += v[i].b.size();
	size_t in = r.p(0.35) ? 0 : r.p(0.5) ? v[k].hdr : r.below(v[k].b.size() + 1);
	size_t n = std::min(b.size(), off + in);
	return Bytes((4 - (before + n) % 4) % 4, 0) + b.substr(0, n);
}
static Bytes enc_head_foreign(const Node &m, EncChoice &c) {
	Bytes h = tl(0x70, 6, c.r->p(0.03) ? 1 : 0);
	for (auto &k : m.c) h += enc_foreign(k, c);
	return h;
}
static Bytes deep_tree(Rng &r, size_t bytes) { // parameter tree nested as deeply as it fits
	Bytes b("\x76\x05\x01\x02\x03\x04\x62\x00\x62\x00\x72\x65\x00\x00\x05\x01\x73\x01\x71\x02\x41", 21);
	bool open = r.coin();
	size_t n = (bytes - 40) / (open ? 4 : 5);
	for (size_t i = 0; i < n; i++) b += Bytes("\x73\x01\x01\x71", 4);
	b += Bytes("\x73\x01\x01\x01", 4);
	return b;
}
static Bytes hostile_msg(Rng &r, GenOpt &o) {
	EncChoice c{&r};
	switch (r.below(12)) {
	case 10: case 11: return seal(element_mutation(r, enc_head_foreign(gen_msg(r, ALL_TAGS[r.below(14)], o), c)));
	case 0: return r.bytes(1 + r.below(60));
	case 1: { // raw mutation of a valid head, checksum repaired
		Bytes h = enc_msg_head(gen_msg(r, ALL_TAGS[r.below(14)], o));
		int k = 1 + (int)r.below(4);
		for (int i = 0; i < k; i++) {
			size_t at = r.below(h.size());
			switch (r.below(5)) {
			case 0: h[at] = (char)r.next(); break;
			case 1: h[at] = (char)(h[at] ^ (1 << r.below(8))); break;
			case 2: h.erase(at, 1 + r.below(4)); break;
			case 3: h.insert(at, r.bytes(1 + r.below(4))); break;
			default: h.insert(at, Bytes("\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f", r.below(10) + 1)); break;
			}
			if (h.empty()) h = "v";
		}
		return seal(h, r.p(0.2), r.p(0.9));
	}
	case 2: { // length fields that lie
		Bytes h = enc_head_foreign(gen_msg(r, ALL_TAGS[r.below(14)], o), c);
		if (r.p(0.7)) { // the length of one element, its type unchanged
			std::vector<Tok> v = tokens_of(h);
			size_t k = some_token(r, v);
			if (r.coin()) { // rather a list
				std::vector<size_t> ls;
				for (size_t i = 1; i < v.size(); i++) if (v[i].type == 0x70) ls.push_back(i);
				if (!ls.empty()) k = ls[r.below(ls.size())];
			}
			size_t off = 0;
			for (size_t i = 0; i < k; i++) off += v[i].b.size();
			size_t rest = h.size() - off;
			uint64_t n;
			switch (r.below(6)) {
			case 0: n = rest + r.below(8); break;
			case 1: { static const uint64_t e[] = {127, 128, 255, 256, 4095, 4096, 65535, 65536, 0xfffff, 1u << 20, 1u << 24}; n = e[r.below(11)]; break; }
			case 2: n = 1ull << r.below(32); break;
			case 3: { static const uint64_t e[] = {0x7fffffff, 0x80000000u, 0xffffffff, 0x100000000ull, 0xfffffff0, 0x7ffffff0, 0x1fffffff, 0x20000000, 0x40000000, 0xffffffffffull}; n = e[r.below(10)]; break; }
			case 4: n = r.next() >> r.below(64); break;
			default: n = r.below(rest + 20); break;
			}
			int ty = v[k].type >= 0 ? v[k].type : 0;
			h = h.substr(0, off) + tl(ty, n, r.p(0.2) ? 1 : 0) + h.substr(off + v[k].hdr);
			return seal(h);
		}
		size_t at = r.below(h.size());
		static const char *big[] = {"\x8f\x8f\x8f\x0f", "\xff\xff\xff\xff\xff\xff\xff\x7f", "\xf8\x80\x80\x80\x80\x80\x80\x00", "\x87\x8f\x8f\x8f\x8f\x8f\x8f\x0f", "\x88\x80\x80\x80\x80\x80\x80\x00", "\xf0\x80\x80\x01", "\xe0\x0a", "\xd0\x0f", "\x80\x00", "\xf7\x8f\x8f\x8f\x8f\x8f\x8f\x0f"};
		Bytes x = big[r.below(10)];
		h.replace(at, r.coin() ? 1 : 0, x);
		return seal(h);
	}
	case 3: { // structure changed at will, lengths and checksum right
		Node m = gen_msg(r, ALL_TAGS[r.below(14)], o);
		int k = 1 + (int)r.below(3);
		for (int i = 0; i < k; i++) tree_mutation(r, m, o);
		if (m.k != Node::LST || m.c.size() != 4) m = gen_msg(r, ALL_TAGS[r.below(14)], o);
		return seal(enc_head_foreign(m, c), r.p(0.2));
	}
	case 4: { // unknown kinds, absent tags
		Node m = gen_msg(r, ALL_TAGS[r.below(14)], o);
		Bytes h = tl(0x70, 6);
		for (int i = 0; i < 3; i++) h += enc(m.c[i]);
		h += tl(0x70, 2);
		h += r.coin() ? Bytes("\x01", 1) : enc(Node::uns(4, r.next() >> (32 + r.below(20))));
		if (r.p(0.3)) h += enc(m.c[3].c[1]);
		return seal(h);
	}
	case 5: { // lists of nothing
		Node m = gen_msg(r, 0x701, o);
		Bytes h = tl(0x70, 6);
		for (int i = 0; i < 3; i++) h += enc(m.c[i]);
		h += Bytes("\x72\x63\x07\x01\x77\x01\x01\x01\x01", 9);
		size_t n = r.below(500);
		h += tl(0x70, r.coin() ? n : n * 3);
		for (size_t i = 0; i < n; i++) h += r.p(0.9) ? Bytes("\x77\x01\x01\x01\x01\x01\x01\x01", 8) : Bytes("\x77\x01\x62\x05\x01\x01\x01\x00\x01", 9);
		h += Bytes("\x01\x01", 2);
		return seal(h);
	}
	case 6: return seal(deep_tree(r, 100 + r.below(r.p(0.2) ? 7800 : 600)));
	case 7: { // many absent or empty messages
		Bytes b;
		size_t n = 1 + r.below(60);
		for (size_t i = 0; i < n; i++) b += seal(Bytes("\x76\x01\x01\x01\x72\x63\x02\x01\x71\x01", 10));
		return b;
	}
	default: return seal(enc_head_foreign(gen_msg(r, ALL_TAGS[r.below(14)], o), c), r.p(0.2));
	}
}

// Changes the transaction identifier so that the message's checksum looks like something else.
static void special_sum(Rng &r, Bytes &h, Node &m, bool kermit) {
	if (h.size() < 4 || m.c[0].k != Node::OCT) return;
	size_t n = m.c[0].s.size();
	if (n < 2 || n > 14 || h[1] != (char)(n + 1) || h.compare(2, n, m.c[0].s)) return;
	uint16_t want = r.p(0.25) ? (uint16_t)r.below(256) : r.p(0.8) ? special_crc(r) : (uint16_t)((unsigned char)h[h.size() - 2] << 8 | (unsigned char)h[h.size() - 1]);
	if (!solve2(h, n, [&](const Bytes &b) { return kermit ? crc_kermit(b) : crc_x25(b); }, want)) return;
	m.c[0].s = h.substr(2, n);
	count("probe-special-checksum");
}
// The checksum in another width or with a longer type-length field.
static Bytes seal_foreign(Rng &r, const Bytes &h, bool kermit = false, bool endbyte = true) {
	Bytes b = seal(h, kermit, endbyte);
	size_t at = h.size();
	if (b[at + 1] == 0 && r.coin()) { b.erase(at + 1, 1); b[at] = 0x62; count("probe-short-checksum"); }
	else if (r.p(0.02)) b.replace(at, 1, r.coin() ? Bytes("\xe0\x04", 2) : Bytes("\xe0\x80\x05", 3));
	return b;
}
// A message whose checksum is another, plausible function of it.
static Bytes wrong_sum(Rng &r, const Bytes &h0, bool km, const Bytes &right) {
	Bytes h = h0;
	auto f = [&](const Bytes &x) { return km ? crc_kermit(x) : crc_x25(x); };
	uint16_t q = f(h);
	size_t n = h.size();
	static const size_t cut[] = {16, 32, 64, 100, 127, 128, 250, 255, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4095, 4096};
	auto some_cut = [&]() { // rather one of the longest that make a difference
		int k = 17;
		while (k > 0 && (cut[k] >= n || r.p(0.3))) k--;
		return cut[k];
	};
	switch (r.p(n > 1000 ? 0.5 : 0) ? 5 + (int)r.below(3) : (int)r.below(12)) {
	case 0: q = (uint16_t)(q << 8 | q >> 8); break;
	case 1: q = (uint16_t)~q; break;
	case 2: { static const uint16_t e[] = {0, 0xffff, 0x00ff, 0xff00, 1, 0x8000, 0x1b1b}; q = e[r.below(7)]; break; }
	case 3: q = f(h.substr(0, n - 1 - r.below(std::min<size_t>(4, n - 1)))); break;
	case 4: q = f(h.substr(1 + r.below(std::min<size_t>(4, n - 1)))); break;
	case 5: case 6: q = f(h.substr(0, std::min(n, some_cut()))); break;
	case 7: q = f(h.substr(n - std::min(n, some_cut()))); break;
	case 8: q = f(h + Bytes("\x63", 1)); break;
	case 9: q = r.coin() ? (uint16_t)(q & 0xff00) : (uint16_t)(q & 0xff); break;
	case 10: { uint16_t s = 0; for (unsigned char c : h) s = (uint16_t)(s + c); q = s; break; }
	default: q = (uint16_t)(km ? crc_x25(h) : crc_kermit(h)); q = (uint16_t)(q << 8 | q >> 8);
	}
	if (r.coin() && n > 20) h[n - 1 - r.below(10)] = (char)r.next(); // and the content has been changed at its end
	count("probe-other-checksum");
	Bytes t = seal(h, km);
	size_t e = t.size() - 4; // 63 hi lo 00
	if (t.size() < 4 || (unsigned char)t[e] != 0x63) return right;
	t[e + 1] = (char)(q >> 8);
	t[e + 2] = (char)q;
	return t;
}
Scn gen_parse(const std::string &prop, Rng &r) {
	for (;;) {
		Scn s;
		s.add({"prop", prop});
		s.add({"kind", "parse"});
		if (r.p(0.3)) s.add({"nonblock", "1"});
		if (r.p(prop == "C07" ? 0.5 : 0.2)) s.add({"exact", "1"});
		gen_fdbase(r, s);
		gen_prior(r, s);
		bool huge = prop == "C12" && r.p(0.013);
		s.add({"fill", strf("%d", (int)(r.coin() ? 0xff : r.below(256)))});
		GenOpt o;
		o.p_abs = r.p(0.2) ? 0.05 : r.p(0.2) ? 0.8 : 0.35;
		o.max_oct = r.p(0.2) ? 80 : 16;
		o.edge_max = r.p(0.1) ? 5000 : 300;
		o.vendor_time = prop != "C06" || r.coin();
		int nl = prop == "C13" && r.p(0.4) ? 2 : 1;
		if (nl == 2) { Bytes ord; for (int i = 0; i < 8; i++) ord += r.coin() ? '1' : '0'; if (ord.find('0') == Bytes::npos || ord.find('1') == Bytes::npos) ord = "01"; s.add({"ord", ord}); }
		bool ok = true;
		for (int L = 0; L < nl; L++) {
			std::string id = L ? "2" : "";
			int nf = 1 + (int)r.below(prop == "C07" ? 3 : 4);
			bool storm = (prop == "C12" || prop == "C07") && !huge && r.p(0.05); // many frames with one message out of order each
			if (storm) { nf = 20 + (int)r.below(30); o.max_oct = r.p(0.35) ? 150 : 6; o.edge_max = 40; count("probe-element-storm"); }
			for (int f = 0; f < nf; f++) {
				if (r.p(0.15)) s.add({"s" + id, hex(rx_noise(r, 1 + r.below(30))), "N"});
				if (prop == "C07" && r.p(0.15)) {
					Bytes x = r.bytes(r.below(200));
					s.add({"s" + id, hex(r.coin() ? frame(x) : Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8) + x), "D"});
					continue;
				}
				s.add({"fr" + id});
				Bytes payload;
				std::vector<std::pair<size_t, size_t>> spans;
				int nm = 1 + (int)r.below(prop == "C06" ? 7 : 4);
				bool tiny = (prop == "C06" || prop == "C12") && r.p(0.006); // as many messages as fit
				if (tiny) { nm = r.coin() ? 600 : 250 + (int)r.below(200); count("probe-many-messages"); }
				if (huge) nm = 1 + (int)r.below(2);
				if (storm) nm = 1;
				for (int k = 0; k < nm; k++) {
					EncChoice c{&r};
					Bytes b;
					std::string node;
					if (prop == "C06") {
						Node m = tiny ? tiny_msg(r) : gen_msg(r, r.p(0.4) ? 0x701 : ALL_TAGS[r.below(14)], o);
						Bytes h = r.coin() ? enc_msg_head(m) : enc_head_foreign(m, c);
						bool km = r.p(0.2);
						if (r.p(0.05)) special_sum(r, h, m, km);
						b = seal_foreign(r, h, km, r.p(0.97));
						if (r.p(0.06)) {
							if (r.p(0.25) && h.size() > 8 && payload.size() < 200) { // in a long message
								GenOpt q = o;
								q.p_edge = 0.5;
								q.edge_max = 7000;
								Bytes g = enc_msg_head(gen_msg(r, ALL_TAGS[r.below(14)], q));
								if (g.size() < 7500) h = g;
							}
							b = wrong_sum(r, h, km, b);
						}
						if (r.p(0.25)) b += Bytes(r.below(5), 0);
						if (r.p(tiny ? 0.0005 : 0.04)) b = r.bytes(1 + r.below(40));
						if (r.p(tiny ? 0.0005 : 0.04)) b.resize(r.below(b.size()));
					} else if (storm) b = seal(element_mutation(r, r.coin() ? enc_msg_head(gen_msg(r, ALL_TAGS[r.below(14)], o)) : enc_head_foreign(gen_msg(r, ALL_TAGS[r.below(14)], o), c)));
					else if (prop == "C07") b = hostile_msg(r, o);
					else if (prop == "C13") {
						Node m = r.p(0.85) ? dzg_list(r, o) : gen_msg(r, ALL_TAGS[r.below(14)], o);
						bool kermit = r.p(0.3);
						c.p_compress = 0.3;
						Bytes h = r.coin() ? enc_msg_head(m) : enc_head_foreign(m, c);
						if (r.p(0.05)) special_sum(r, h, m, kermit);
						b = seal_foreign(r, h, kermit);
						if (r.p(0.08)) b[b.size() - 3] = (char)(b[b.size() - 3] ^ (1 << r.below(8)));
						if (r.p(0.04)) { uint16_t q = crc_kermit(h); b[b.size() - 3] = (char)q; b[b.size() - 2] = (char)(q >> 8); }
					} else { // C12
						Node m = tiny ? tiny_msg(r) : huge ? huge_msg(r, o) : gen_msg(r, r.p(0.5) ? 0x701 : ALL_TAGS[r.below(14)], o);
						if (huge) {
							b = seal_foreign(r, r.coin() ? enc_msg_head(m) : enc_head_foreign(m, c));
							if (has_aligned_esc(b)) { k--; continue; }
							count("probe-huge-message");
						} else if (r.p(tiny ? 0.0005 : 0.3)) { // a single element out of order
							if (!tiny && r.p(0.7)) m = gen_msg(r, ALL_TAGS[r.below(14)], o);
							b = seal(element_mutation(r, r.coin() ? enc_msg_head(m) : enc_head_foreign(m, c)));
						} else if (r.p(tiny ? 0.0005 : 0.2)) { // not legal: must be rejected or decoded as the reference does
							int q = 1 + (int)r.below(2);
							for (int i = 0; i < q; i++) tree_mutation(r, m, o);
							if (m.k != Node::LST || m.c.size() != 4) { k--; continue; }
							Bytes h = enc_head_foreign(m, c);
							if (r.p(0.3)) { size_t at = 1 + r.below(h.size() - 1); h[at] = (char)(h[at] ^ (1 << (4 + r.below(4)))); }
							b = seal(h);
						} else {
							if (r.p(0.15)) c.p_longtl = c.p_numlongtl = 0.6;
							Bytes h = enc_head_foreign(m, c);
							if (r.p(0.05)) special_sum(r, h, m, false);
							b = seal_foreign(r, h);
							node = to_text(m);
							RefFile rf = ref_parse(b);
							if (rf.power_fixed) { k--; continue; }
						}
						if (r.p(0.2)) b += Bytes(r.below(5), 0);
					}
					bool cut = prop != "C13" && r.p(tiny ? 0.0005 : huge ? 0 : storm ? 0.2 : 0.12);
					if (cut) { b = cut_message(r, b, payload.size()); node.clear(); }
					if (payload.size() + b.size() > (huge ? 400000 : 8000)) break;
					spans.push_back({payload.size(), b.size()});
					payload += b;
					if (node.empty()) s.add({"x" + id, hex(b)}); else s.add({"x" + id, hex(b), node});
					if (cut) break;
				}
				if (prop == "C06" && !payload.empty()) { // bytes changed on the way
					int nc = r.p(0.7) ? 1 + (int)r.below(3) : 0;
					for (int k = 0; k < nc; k++) {
						auto &sp = spans[r.below(spans.size())];
						size_t at = sp.first + (sp.second ? (r.p(0.3) && sp.second > 4 ? sp.second - 1 - r.below(4) : r.below(sp.second)) : 0);
						if (at >= payload.size()) continue;
						int x = r.coin() ? 1 << r.below(8) : 1 + (int)r.below(255);
						payload[at] = (char)(payload[at] ^ x);
						s.add({"c" + id, strf("%zu", at), strf("%d", x)});
						count("fault-byte-corrupted");
					}
				}
				if (has_aligned_esc(payload) || has_start(payload)) ok = false;
			}
			if (ok) repeat_frames(r, s, id);
		}
		if (!ok) continue;
		for (int L = 0; L < nl; L++) {
			std::string id = L ? "2" : "";
			Stream st = build_stream(s, id);
			if (prop != "C07" && !st.clean_starts(0)) ok = false;
			if (!huge) for (auto &p : st.pieces) if (p.len > 8096) ok = false;
			std::vector<size_t> hot;
			for (auto &p : st.pieces) { hot.push_back(p.off); hot.push_back(p.off + p.len - 1); }
			SchedOpt so;
			so.p_faults = 0.4;
			gen_schedule(r, s, st.data.size(), hot, so, id);
			gen_end(r, s, nl == 2 ? 1 : 1 + (int)r.below(2), id);
		}
		if (!ok) continue;
		return s;
	}
}
