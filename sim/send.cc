// C08-C11: an application builds, changes, sends, receives and frees files over faulty descriptors.
// Real: the whole library. Simulated: descriptors with scripted write results, lines, allocator.
#include "agent.h"
#include <functional>
#include <cerrno>
#include <fcntl.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// What a process that does nothing else sends for this model.
static Bytes fresh_send(const Scn &s, const std::vector<Node> &model, long &ret) {
	static const size_t CAP = 1 << 20;
	static unsigned char *shm = nullptr;
	if (!shm) shm = (unsigned char *)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(shm, 0, 32);
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) harness_error("fork");
	if (!p) {
		new_world(s);
		LG.fill = g_dirt = 0;
		Sink k;
		int fd = W->add_fd(FD_SINK, 0, nullptr, &k);
		try {
			sml_file *f = sml_file_init();
			for (auto &m : model) sml_file_add_message(f, build_msg(m));
			long r = sml_transport_write(fd, f);
			memcpy(shm + 8, &r, 8);
			uint64_t n = k.accepted.size();
			if (n + 32 > CAP) _exit(7);
			memcpy(shm + 16, &n, 8);
			memcpy(shm + 32, k.accepted.data(), n);
			shm[0] = 1;
		} catch (BuildError &e) { shm[0] = 2; }
		_exit(0);
	}
	int st;
	waitpid(p, &st, 0);
	if (shm[0] == 2) invalid("cannot build the model afresh");
	if (shm[0] != 1) violation("fresh-send-crashed", "building and sending the file on its own crashed");
	uint64_t n;
	memcpy(&ret, shm + 8, 8);
	memcpy(&n, shm + 16, 8);
	return Bytes((char *)shm + 32, n);
}

static void check_frame(const SendRec &x, size_t i, bool known) {
	bool whole = x.ret > 0;
	if (x.ret < 0) violation("write-result", strf("send %zu returned %ld", i, x.ret));
	if (x.ret > 0 && (size_t)x.ret != x.accepted.size()) violation("write-result", strf("send %zu returned %ld but %zu bytes were accepted", i, x.ret, x.accepted.size()));
	if (!whole && !x.faulty) violation("write-result", strf("send %zu failed although the descriptor accepts everything", i));
	if (whole) {
		std::vector<Node> got;
		std::string e = ref_check_frame(x.accepted, got);
		if (!e.empty()) violation("malformed", strf("send %zu: ", i) + e + ", frame " + brief(x.accepted, 600));
		if (known && has_aligned_esc(x.accepted.substr(8, x.accepted.size() - 16))) violation("unescaped", strf("send %zu: an escape mark within the content is not doubled, frame ", i) + brief(x.accepted, 600));
		std::string d = diff_nodes(normalised(x.model), normalised(got));
		if (!d.empty()) violation("sent-altered", strf("send %zu: ", i) + d);
	}
}

void exec_send(const Scn &s) {
	std::string prop = s.get("prop");
	g_step_limit = 2000000000;
	g_step_what = "sender";
	if (s.get("variant") == "listen") { // C08: a listener running over many frames, good and bad
		Stream st = build_stream(s);
		long again = s.geti("again", 0);
		if (again < 0 || again > 5000) invalid("again");
		Bytes once = st.data;
		for (; again > 0; again--) st.data += once;
		new_world(s);
		static Line l;
		build_line(s, st, l);
		int fd = W->add_fd(FD_LINE, 0, &l);
		int fds0 = W->open_fds();
		size_t live0 = LG.live.size(), n = 0;
		uint64_t bytes0 = LG.bytes;
		Received R = receive(fd, l, s.get("mode", "listen") == "listen", 8096, [&](unsigned char *b, size_t len) {
			n++;
			if (LG.live.size() != live0) violation("leak-between-frames", strf("%zu allocations are held when frame %zu arrives", LG.live.size() - live0, n));
			if (W->open_fds() != fds0) violation("descriptor-leak", strf("frame %zu arrives with %d descriptors open instead of %d", n, W->open_fds(), fds0));
			sml_file *f = sml_file_parse(b + 8, len - 16);
			Hash h;
			inspect_file(f, h);
			sml_file_free(f);
			if (LG.live.size() != live0 || LG.bytes != bytes0) violation("leak", strf("%lld bytes in %lld allocations remain after frame %zu was parsed and freed", (long long)(LG.bytes - bytes0), (long long)(LG.live.size() - live0), n));
		});
		if (R.end == END_EXIT) violation("exit", "exit");
		if (R.end == END_RETURN && (LG.live.size() != live0)) violation("leak", "allocations remain after the listener returned");
		if (W->open_fds() != fds0) violation("descriptor-leak", strf("%d descriptors open instead of %d", W->open_fds(), fds0));
		g_sh->parts += n;
		g_sh->nontrivial = n > 0;
		return;
	}
	// expected transmissions, by processes without history
	std::vector<Bytes> fresh;
	std::map<std::string, Bytes> cache;
	if (prop == "C10" || prop == "C11") {
		std::map<std::string, std::vector<Node>> M;
		W = nullptr;
		for (auto &l : s.L)
			if (is_op(l)) {
				if (!model_op(M, l)) invalid("operation does not apply: " + l[1]);
				if (l[1] == "send") {
					long ret;
					std::string key;
					for (auto &m : M[l[2]]) key += to_text(m) + ' ';
					auto it = cache.find(key);
					if (it == cache.end()) it = cache.emplace(key, fresh_send(s, M[l[2]], ret)).first;
					Bytes b = it->second;
					if (model_has_esc(M[l[2]]) && !s.geti("known", 0)) invalid("aligned escape mark in the payload");
					fresh.push_back(b);
				}
			}
	}
	new_world(s);
	load_entropy(s);
	Agent a;
	a.open();
	a.check_recv = prop == "C09";
	int fds0 = W->open_fds();
	size_t live0 = LG.live.size();
	uint64_t bytes0 = LG.bytes;
	std::map<std::string, std::pair<int, uint64_t>> flat; // sends of an unchanged file, memory after the last one
	for (auto &l : s.L) {
		if (!is_op(l)) continue;
		uint64_t before = LG.bytes;
		size_t nb = LG.live.size();
		a.op(l);
		if (l[1] == "send") {
			if (prop == "C09" && model_has_esc(a.sends.back().model) && !s.geti("known", 0)) invalid("aligned escape mark in the payload");
			if (prop == "C08") {
				auto &f = flat[l[2]];
				if (LG.refused) f.first = 0; // the transmission ended early
				else if (f.first++ >= 1 && (LG.bytes != before || LG.live.size() != nb))
					violation("resend-grows", strf("sending the unchanged file once more changed the memory held by %lld bytes", (long long)(LG.bytes - before)));
			}
		} else if (prop == "C08") {
			if (l[1] == "recv" || l[1] == "hex" || l[1] == "partial" || l[1] == "print") {
				if (LG.bytes != before || LG.live.size() != nb) violation("leak", strf("%lld bytes remain after operation %s", (long long)(LG.bytes - before), l[1].c_str()));
			} else { flat.erase(l[2]); }
		}
		if (W->open_fds() != fds0) violation("descriptor-leak", strf("%d descriptors open instead of %d after %s", W->open_fds(), fds0, l[1].c_str()));
	}
	bool faulty = false;
	for (size_t i = 0; i < a.sends.size(); i++) {
		auto &x = a.sends[i];
		faulty |= x.faulty;
		if (prop == "C10") {
			check_frame(x, i, s.geti("known", 0));
			if (x.ret == 0) {
				if (fresh[x.nth].compare(0, x.accepted.size(), x.accepted)) violation("not-a-prefix", strf("send %zu failed and what was written is not the beginning of the frame", i));
				if (x.accepted.size() == fresh[x.nth].size() && !x.accepted.empty()) violation("write-result", strf("send %zu reports failure although everything was accepted", i));
			}
		}
		if (prop == "C11") {
			if (x.ret > 0 && x.accepted != fresh[x.nth]) {
				size_t k = 0;
				while (k < x.accepted.size() && k < fresh[x.nth].size() && x.accepted[k] == fresh[x.nth][k]) k++;
				violation("history-dependent", strf("send %zu differs from a fresh send at byte %zu: %s instead of %s", i, k, brief(x.accepted.substr(k > 8 ? k - 8 : 0, 64), 200).c_str(), brief(fresh[x.nth].substr(k > 8 ? k - 8 : 0, 64), 200).c_str()));
			}
			if (x.ret <= 0 && !x.faulty) violation("history-dependent", strf("send %zu failed without any fault", i));
			if (x.ret <= 0 && fresh[x.nth].compare(0, x.accepted.size(), x.accepted)) violation("history-dependent", strf("the part of send %zu that was written differs from a fresh send", i));
		}
		if (prop == "C09" && x.ret <= 0) violation("write-result", strf("send %zu failed although the descriptor accepts everything", i));
	}
	if (prop == "C08") {
		a.free_all();
		if (LG.live.size() != live0 || LG.bytes != bytes0)
			violation("leak", strf("%lld bytes in %lld allocations remain after everything was freed", (long long)(LG.bytes - bytes0), (long long)(LG.live.size() - live0)));
	}
	g_sh->parts += a.sends.size();
	W->log.addn(a.transcript.h);
	if (prop == "C08") g_sh->nontrivial = LG.calls > 4;
	else if (prop == "C09") g_sh->nontrivial = !a.received.empty();
	else if (prop == "C10") g_sh->nontrivial = !a.sends.empty();
	else g_sh->nontrivial = a.sends.size() > 1 || faulty;
}

// ------------------------------------------------------------------------------ generation
static std::string outcome(Rng &r, size_t len) {
	static const int e[] = {EIO, ENOSPC, EPIPE, EAGAIN, EINTR, EBADF};
	switch (r.below(4)) {
	case 0: return strf("err:%d", e[r.below(6)]);
	case 1: return strf("short:%zu", (size_t)r.below(9));
	default: return strf("short:%zu", (size_t)r.below(len + 1));
	}
}
// a payload a meter may send, in a foreign encoding that the writer can represent
static Bytes foreign_file(Rng &r, GenOpt o, int n) {
	o.abs_seq = false;
	for (;;) {
		Bytes p;
		for (int i = 0; i < n; i++) {
			Node m = gen_msg(r, r.p(0.4) ? 0x701 : ALL_TAGS[r.below(14)], o);
			EncChoice c{&r};
			Bytes h = tl(0x70, 6);
			for (auto &k : m.c) h += enc_foreign(k, c);
			p += seal(h, r.p(0.2));
			if (r.p(0.2)) p += Bytes(r.below(4), 0);
		}
		if (r.p(0.12)) { // with a part in it that cannot be read
			Bytes q = enc_msg(gen_msg(r, ALL_TAGS[r.below(14)], o));
			if (r.coin()) q[r.below(q.size())] ^= (char)(1 << r.below(8));
			else if (r.coin()) q.resize(1 + r.below(q.size() - 1));
			else q = r.bytes(1 + r.below(30));
			if (r.coin()) p += q; else p = q + p;
			RefFile f = ref_parse(p);
			if (f.msgs.empty() && r.p(0.9)) continue;
			bool ok = !has_aligned_esc(p) && !has_start(p);
			for (auto &m : f.msgs) if (m.m.c[3].k != Node::LST || m.m.c[3].c.size() != 2 || m.m.c[3].c[1].k == Node::ABS) ok = false;
			if (!ok) continue;
			count("probe-forwarded-damaged");
			return p;
		}
		RefFile f = ref_parse(p);
		if (!f.error && f.msgs.size() == (size_t)n && !has_aligned_esc(p)) return p;
	}
}

Op gen_op_list(Rng &r, Scn &s, const std::string &prop, const std::string &key, int nops) {
	GenOpt o;
	o.p_abs = r.p(0.2) ? 0.05 : r.p(0.2) ? 0.85 : 0.35;
	o.max_oct = r.p(0.2) ? 120 : 14;
	o.edge_max = r.p(0.15) ? 7000 : r.p(0.3) ? 1000 : 300;
	if (r.p(0.1)) o.p_edge = 0.3;
	// such files cannot be read back by the library, so they are only sent
	if ((prop == "C10" || prop == "C11") && r.p(0.12)) { o.abs_seq = true; count("probe-unset-sequence"); }
	std::map<std::string, std::vector<Node>> M;
	std::map<std::string, size_t> size;
	size_t total = 0;
	bool last_ok = false;
	auto add = [&](Op l) {
		l.insert(l.begin(), key);
		if (!model_op(M, l)) return false;
		s.L.push_back(l);
		for (auto &t : l) total += t.size();
		if (l[1] != "recv") last_ok = false;
		return true;
	};
	auto size_of = [&](const std::string &f) { size_t n = 16; for (auto &m : M[f]) n += enc_msg(m).size(); return n; };
	auto rslot = [&]() { std::vector<std::string> v; for (auto &k : M) v.push_back(k.first); return v[r.below(v.size())]; };
	bool huge = key == "op" && prop != "C08" && r.p(0.01);
	auto rmsg = [&]() { if (huge && r.p(0.4)) { huge = false; count("probe-huge-message"); return to_text(huge_msg(r, o)); } return to_text(gen_msg(r, r.p(0.35) ? 0x701 : ALL_TAGS[r.below(14)], o)); };
	int next = 0;
	auto special = [&](const std::string &f) { // an identifier that gives the frame or its message a peculiar checksum
		std::vector<Node> v = M[f];
		if (v.empty()) return;
		size_t i = r.below(v.size());
		bool whole = r.coin();
		Bytes t = r.bytes(2 + r.below(8));
		if (!solve2(t, t.size() - 2, [&](const Bytes &b) {
			v[i].c[0] = Node::oct(b);
			if (!whole) return crc_x25(enc_msg_head(v[i]));
			Bytes p;
			for (auto &m : v) p += enc_msg(m);
			return frame_crc(p);
		}, special_crc(r))) return;
		if (add({"tid", f, strf("%zu", i), to_text(Node::oct(t))})) count("probe-special-checksum");
	};
	auto send = [&](const std::string &f) {
		if (r.p(0.06) && size_of(f) < 3000) special(f);
		if (model_has_esc(M[f])) return;
		Op l{"send", f};
		if (prop != "C09" && r.p(prop == "C10" ? 0.5 : 0.3)) {
			int k = 1 + (int)r.below(2);
			for (int i = 0; i < k; i++) l.push_back(outcome(r, size_of(f)));
		}
		if (prop != "C09" && r.p(0.12)) l.push_back(strf("nomem:%d%s", r.coin() ? 1 + (int)r.below(3) : 1 + (int)r.below(2 * M[f].size() + 4), r.coin() ? "+" : ""));
		bool good = l.size() == 2;
		if (add(l)) last_ok = good;
	};
	auto partial = [&]() {
		Node m = gen_msg(r, r.p(0.1) ? 0x701 : ALL_TAGS[r.below(14)], o);
		int k = r.p(0.1) ? 20 : 1 + (int)r.below(4);
		std::vector<Node *> v;
		while (k--) {
			v.clear();
			std::function<void(Node &, bool)> w = [&](Node &x, bool top) { if (!top && x.k != Node::ABS) v.push_back(&x); for (auto &c : x.c) w(c, false); };
			for (size_t i = 0; i < 3; i++) w(m.c[i], false);
			if (m.c[3].k != Node::ABS) { w(m.c[3].c[1], false); if (r.p(0.02)) v.push_back(&m.c[3]); }
			if (v.empty()) break;
			*v[r.below(v.size())] = Node::abs();
		}
		add({"partial", to_text(m)});
	};
	for (int i = 0; i < nops && total < 60000; i++) {
		if (prop == "C08" && r.p(0.15)) { partial(); continue; }
		if (M.empty()) {
			std::string f = strf("f%d", next++);
			if (prop != "C09" && r.p(0.3)) add({"recvhex", f, hex(foreign_file(r, o, 1 + (int)r.below(3)))});
			else {
				add({"new", f});
				int k = r.p(0.1) ? (int)r.below(40) : 1 + (int)r.below(3);
				if (r.p(0.03)) k = 0;
				bool tiny = key == "op" && prop != "C08" && r.p(0.004);
				if (tiny) { k = 250 + (int)r.below(50); count("probe-many-messages"); }
				for (int q = 0; q < k; q++) add({"msg", f, tiny ? to_text(tiny_msg(r)) : rmsg()});
			}
			continue;
		}
		std::string f = rslot();
		size_t n = M[f].size();
		std::string mi = strf("%zu", n ? (size_t)r.below(n) : 0);
		switch (r.below(16)) {
		case 0: case 1: case 2: case 3: send(f); break;
		case 4: if (last_ok && !o.abs_seq) add({"recv", f, strf("%llu", (unsigned long long)(r.next() & 0xffffff))}); else send(f); break;
		case 5: add({"msg", f, rmsg()}); break;
		case 6: if (n) add({"repl", f, mi, rmsg()}); break;
		case 7: if (n) { Node m; from_text(rmsg(), m); add({"body", f, mi, to_text(m.c[3])}); } break;
		case 8: if (n) add({"grp", f, mi, r.p(0.2) ? "_" : strf("u1:%d", (int)r.below(256))}); break;
		case 9: if (n) add({"tid", f, mi, to_text(Node::oct(r.bytes(1 + r.below(o.max_oct + 1))))}); break;
		case 10: if (n) add({"pop", f}); break;
		case 11: case 12: if (n) for (int q = (int)r.below(r.p(0.2) ? 20 : 4); q >= 0; q--) add({"list", f, mi, to_text(gen_type(r, T_LENTRY, o, 2))}); break;
		case 13: if (M.size() < 3) { std::string g = strf("f%d", next++); if (prop != "C09" && r.coin()) add({"recvhex", g, hex(foreign_file(r, o, 1 + (int)r.below(3)))}); else add({"new", g}); } break;
		case 14: if (M.size() > 1) add({"free", f}); break;
		default: if (prop == "C08") { if (r.coin()) {
			Op l{"hex", r.p(0.3) ? hex(r.bytes(r.below(20))) + "a" : r.p(0.9) ? hex(r.bytes(1 + r.below(20))) : "abc"};
			for (int k = (int)r.below(4); k > 0; k--) l.push_back(r.coin() ? hex(r.bytes(l[1].size() / 2 + 1)) : hex(r.bytes(1 + r.below(20))));
			add(l);
		} else add({"print", f}); } else send(f); break;
		}
	}
	std::string f;
	if (!M.empty()) { f = rslot(); send(f); if (last_ok && prop == "C09") add({"recv", f, strf("%llu", (unsigned long long)(r.next() & 0xffffff))}); }
	return {};
}

static size_t model_bytes(const Scn &s) {
	size_t n = 0;
	for (auto &l : s.L) for (auto &t : l) n += t.size();
	return n;
}
Scn gen_send(const std::string &prop, Rng &r) {
	for (;;) {
		Scn s;
		s.add({"prop", prop});
		s.add({"kind", "send"});
		s.add({"fill", strf("%d", (int)(r.coin() ? 0xff : r.below(256)))});
		s.add({"rnd", strf("%d", (int)r.below(100000))});
		if (prop == "C08" && r.p(0.45)) {
			Scn q = gen_parse(r.coin() ? "C07" : "C12", r);
			s.add({"variant", "listen"});
			for (auto &l : q.L) if (l[0] != "prop" && l[0] != "kind" && l[0] != "fill") s.L.push_back(l);
			if (r.p(0.01)) { // the same traffic many times over
				Stream st = build_stream(s);
				if (st.data.size() < 600) { s.add({"again", strf("%d", (int)r.range(100, 1200))}); count("probe-very-many-frames"); }
			}
			return s;
		}
		if (prop == "C09") { // one file at a time, every transmission is received
			int n = 1 + (int)r.below(3);
			gen_op_list(r, s, prop, "op", 4 + n * 5);
			bool any = false;
			for (auto &l : s.L) if (is_op(l) && l[1] == "recv") any = true;
			if (!any) continue;
			return s;
		}
		if (prop == "C08" && r.p(0.3)) gen_entropy(r, s, 1 + (long)r.below(20));
		gen_op_list(r, s, prop, "op", 5 + (int)r.below(14));
		if (r.p(0.015) && is_op(s.L.back()) && s.L.back()[1] == "send" && s.L.back().size() == 3) { // so often that a counter may overflow
			std::map<std::string, std::vector<Node>> M;
			for (auto &x : s.L) if (is_op(x)) model_op(M, x);
			size_t n = 0;
			for (auto &m : M[s.L.back()[2]]) n += enc_msg(m).size();
			if (n < 200) {
				bool most = n < 60 && r.p(0.1);
				s.L.back().push_back(strf("times:%d", most ? (int)r.range(65500, 66000) : (int)r.range(200, 1500)));
				count("probe-very-many-transmissions");
			}
		}
		if (r.p(0.02)) { // the last transmission over and over
			Op l;
			for (auto &x : s.L) if (is_op(x) && x[1] == "send") l = x;
			if (!l.empty() && s.L.back()[1] == "send" && model_bytes(s) < 3000) for (int k = 40 + (int)r.below(160); k > 0; k--) s.L.push_back(r.p(0.1) ? Op{l[0], l[1], l[2], outcome(r, 100)} : Op{l[0], l[1], l[2]});
		}
		return s;
	}
}
