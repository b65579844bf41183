// C17: several threads, each with its own descriptors and objects, under a seeded scheduler that may
// switch at every basic block of the library. Real: the whole library. Simulated: the scheduler, I/O.
#include "agent.h"
#include <algorithm>

static void run_agent(Agent &a, const std::vector<Op> &ops) {
	a.own_guard = false;
	for (auto &o : ops) a.op(o);
	a.free_all();
}

void exec_threads(const Scn &s) {
	int n = (int)s.geti("threads", 2);
	if (n < 1 || n > 8) invalid("threads");
	std::vector<std::vector<Op>> ops(n);
	for (int t = 0; t < n; t++) {
		std::string key = strf("op%d", t);
		for (auto &l : s.L) if (is_op(l, key)) { Op o = l; o[0] = "op"; ops[t].push_back(o); }
		if (ops[t].empty()) invalid("a thread without work");
	}
	std::vector<Slice> sl;
	for (auto &l : s.L) if (l[0] == "sl" && l.size() >= 3) {
		long rep = l.size() > 3 ? strtol(l[3].c_str(), 0, 0) : 1;
		for (long i = 0; i < rep && sl.size() < 200000; i++) sl.push_back({(uint32_t)strtoul(l[1].c_str(), 0, 0), (int)strtol(l[2].c_str(), 0, 0)});
	}
	uint32_t dflt = (uint32_t)s.geti("quantum", 5000);
	g_step_limit = 600000000;
	std::vector<uint64_t> alone(n);
	std::vector<std::vector<SendRec>> alone_sends(n);
	std::vector<std::vector<std::vector<Node>>> alone_recv(n);
	for (int t = 0; t < n; t++) {
		new_world(s);
		load_entropy(s);
		std::vector<Agent> a(1);
		a[0].open();
		run_threads({[&]() { run_agent(a[0], ops[t]); }}, {}, 0xffffffff);
		alone[t] = a[0].transcript.h;
		alone_sends[t] = a[0].sends;
		alone_recv[t] = a[0].received;
	}
	uint64_t before_steps = g_steps;
	new_world(s);
	load_entropy(s);
	std::vector<Bytes> ids;
	g_made_ids = &ids;
	size_t live0 = LG.live.size();
	uint64_t bytes0 = LG.bytes;
	std::vector<Agent> a(n);
	std::vector<std::function<void()>> bodies;
	for (int t = 0; t < n; t++) a[t].open();
	for (int t = 0; t < n; t++) bodies.push_back([&, t]() { run_agent(a[t], ops[t]); });
	int fds0 = W->open_fds();
	uint64_t sw0 = g_sh->switches;
	run_threads(bodies, sl, dflt, (int)s.geti("gp", 0), (uint64_t)s.geti("rnd", 1));
	for (int t = 0; t < n; t++) {
		W->log.addn(a[t].transcript.h);
		if (a[t].transcript.h == alone[t]) continue;
		std::string why = "its results differ";
		for (size_t i = 0; i < a[t].sends.size() && i < alone_sends[t].size(); i++)
			if (a[t].sends[i].accepted != alone_sends[t][i].accepted || a[t].sends[i].ret != alone_sends[t][i].ret) {
				why = strf("send %zu wrote %s instead of %s", i, brief(a[t].sends[i].accepted).c_str(), brief(alone_sends[t][i].accepted).c_str());
				break;
			}
		for (size_t i = 0; i < a[t].received.size() && i < alone_recv[t].size(); i++) {
			std::string d = diff_nodes(alone_recv[t][i], a[t].received[i]);
			if (!d.empty()) { why = strf("received file %zu: ", i) + d; break; }
		}
		violation("threads-interfere", strf("thread %d of %d: ", t, n) + why);
	}
	if (LG.live.size() != live0 || LG.bytes != bytes0) violation("threads-leak", strf("%zu allocations remain after all threads have freed their objects", LG.live.size() - live0));
	if (W->open_fds() != fds0) violation("threads-descriptors", strf("%d descriptors open instead of %d after all threads have finished", W->open_fds(), fds0));
	std::sort(ids.begin(), ids.end());
	for (size_t i = 0; i < ids.size(); i++) {
		if (ids[i].size() != 16) violation("threads-id", strf("a transaction identifier of %zu bytes", ids[i].size()));
		if (i && ids[i] == ids[i - 1]) violation("threads-id", "two messages got the transaction identifier " + hex(ids[i]));
	}
	(void)before_steps;
	g_sh->parts += n;
	g_sh->nontrivial = g_sh->switches - sw0 > (uint64_t)n + 1;
}

Scn gen_threads(Rng &r) {
	Scn s;
	s.add({"prop", "C17"});
	s.add({"kind", "threads"});
	s.add({"fill", strf("%d", (int)r.below(256))});
	s.add({"rnd", strf("%d", (int)r.below(100000))});
	int n = 2 + (int)r.below(r.p(0.2) ? 3 : 2);
	s.add({"threads", strf("%d", n)});
	// In some runs all threads do much the same at the same time, which is what shared state would show in.
	std::string focus = r.p(0.3) ? "C13" : r.p(0.15) ? "C12" : "";
	bool hexes = r.p(0.25);
	bool lines = r.p(0.3); // all of them begin with a line of their own
	for (int t = 0; t < n; t++) {
		Scn q;
		for (int k = hexes ? 1 + (int)r.below(6) : 0; k > 0; k--) {
			Op l{strf("op%d", t), "hex", hex(r.bytes(1 + r.below(r.p(0.2) ? 60 : 12)))};
			if (r.p(0.3)) l.push_back(hex(r.bytes(l[2].size() / 2)));
			s.L.push_back(l);
		}
		for (int k = lines ? 1 + (int)r.below(2) : 0; k > 0; k--) {
			Bytes b;
			Scn p = gen_parse(r.p(0.6) ? "C12" : r.coin() ? "C06" : "C13", r);
			b = build_stream(p).data;
			if (r.p(0.2)) b += rx_noise(r, 1 + r.below(40));
			if (b.empty() || b.size() > 3000) continue;
			s.L.push_back({strf("op%d", t), "line", strf("%d", (int)r.below(1000000)), r.p(0.7) ? "listen" : "read", hex(b)});
		}
		if (hexes && r.coin()) continue;
		if (lines && r.coin() && !s.L.empty() && s.L.back()[0] == strf("op%d", t)) continue;
		if (!focus.empty()) {
			int rounds = 1 + (int)r.below(3);
			for (int k = 0; k < rounds; k++) {
				Scn p = gen_parse(focus, r);
				Bytes pay;
				for (auto &l : p.L) if (l[0] == "x" && pay.size() < 1500) { Bytes b; unhex(l[1], b); pay += b; }
				std::map<std::string, std::vector<Node>> M;
				Op o{strf("op%d", t), "recvhex", strf("h%d", k), hex(pay)};
				if (pay.empty() || !model_op(M, o)) continue;
				s.L.push_back(o);
				if (r.p(0.3)) s.L.push_back({strf("op%d", t), "print", strf("h%d", k)});
				if (r.p(0.3) && !model_has_esc(M[strf("h%d", k)])) s.L.push_back({strf("op%d", t), "send", strf("h%d", k)});
			}
			if (!s.L.empty() && s.L.back()[0] == strf("op%d", t) && r.p(0.7)) continue;
		}
		do { q = Scn(); gen_op_list(r, q, "C09", strf("op%d", t), 3 + (int)r.below(6)); } while (q.L.empty());
		for (auto &l : q.L) s.L.push_back(l);
		if (r.p(0.5)) { // something it receives from elsewhere
			Scn p = gen_parse(r.coin() ? "C13" : "C12", r);
			int k = 0;
			Bytes pay;
			for (auto &l : p.L) if (l[0] == "x") { Bytes b; unhex(l[1], b); pay += b; }
			if (!pay.empty() && pay.size() < 6000) {
				std::map<std::string, std::vector<Node>> M;
				Op o{strf("op%d", t), "recvhex", strf("g%d", k), hex(pay)};
				if (model_op(M, o)) { s.L.push_back(o); if (r.coin()) s.L.push_back({strf("op%d", t), "print", strf("g%d", k)}); }
			}
		}
	}
	switch (r.below(4)) {
	case 0: s.add({"quantum", strf("%d", (int)r.range(1, 40))}); break;
	case 1: s.add({"quantum", strf("%d", (int)r.range(20, 3000))}); break;
	default: s.add({"quantum", strf("%d", (int)r.range(200, 20000))});
	}
	if (r.p(0.5)) s.add({"gp", strf("%d", (int)(r.coin() ? r.range(1, 10) : r.range(10, 60)))});
	int k = (int)r.below(300);
	int style = (int)r.below(3);
	for (int i = 0; i < k; i++) {
		uint64_t q = style == 0 ? 1 + r.below(30) : style == 1 ? 1 + r.below(1ull << r.below(14)) : 1 + r.below(5000);
		s.add({"sl", strf("%llu", (unsigned long long)q), strf("%d", (int)r.below(n))});
	}
	return s;
}
