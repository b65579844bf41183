// C01-C05: frames on a line. Real: sml_transport.c. Simulated: descriptors, arrival, faults, end.
#include "exec.h"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>

static std::vector<Bytes> expected_frames(const Stream &st) {
	std::vector<Bytes> v;
	for (auto &p : st.pieces) if (p.tag == 'F') v.push_back(st.data.substr(p.off, p.len));
	return v;
}
static void cmp_frames(const std::vector<Bytes> &want, const std::vector<Bytes> &got) {
	for (size_t i = 0; i < want.size() && i < got.size(); i++)
		if (want[i] != got[i]) {
			bool known = std::find(want.begin(), want.end(), got[i]) != want.end();
			bool later = std::find(got.begin(), got.end(), want[i]) != got.end();
			violation(!known ? "frame-altered" : later ? "frame-order" : "frame-lost", strf("delivery %zu: expected %s, got %s", i, brief(want[i]).c_str(), brief(got[i]).c_str()));
		}
	if (got.size() < want.size()) violation("frame-lost", strf("%zu of %zu frames delivered, first missing %s", got.size(), want.size(), brief(want[got.size()]).c_str()));
	if (got.size() > want.size()) violation("frame-extra", strf("%zu frames delivered instead of %zu, first surplus %s", got.size(), want.size(), brief(got[want.size()]).c_str()));
}
// frames delivered must have been on the line, complete, in order, without overlap
static void on_line(const Stream &st, const std::vector<Bytes> &got) {
	size_t p = 0;
	for (auto &g : got) {
		if (!is_complete_frame(g)) violation("not-a-frame", "delivered " + brief(g) + " which is not a complete frame");
		size_t at = st.data.find(g, p);
		if (at == Bytes::npos) violation("frame-invented", "delivered " + brief(g) + " which was not on the line at that place");
		p = at + g.size();
	}
}

void exec_rx(const Scn &s) {
	std::string prop = s.get("prop");
	Stream st = build_stream(s);
	bool listen = s.get("mode", "listen") == "listen";
	size_t max = listen ? 8096 : (size_t)s.geti("max", 8096);
	bool nonblock = s.geti("nonblock", 0);
	if (max > 200000) invalid("max");
	g_step_limit = 3000000 + 600ull * st.data.size() + 2000 * (uint64_t)s.L.size();
	for (auto &p : st.pieces)
		if (p.tag == 'F' && !is_complete_frame(st.data.substr(p.off, p.len)) && !s.geti("known", 0)) invalid("not a frame");
	auto run = [&](bool ideal, int calls = -1) {
		new_world(s);
		if (ideal) LG.fill = 0;
		static Line l;
		build_line(s, st, l, "", ideal);
		W->log.add(st.data);
		int fd = W->add_fd(FD_LINE, nonblock && !ideal ? O_NONBLOCK : 0, &l);
		if (!ideal) prior_connection(s, fd);
		pollute_stack(ideal ? 0x1b : 0x01);
		Received R = receive(fd, l, listen, max, nullptr, calls);
		if (W->fds[fd].type == FD_FREE) violation("descriptor-closed", "the receiver closed the caller's descriptor");
		W->fds[fd].type = FD_LINE;
		if (R.end == END_EXIT) violation("exit", "the receiver ended the process");
		if (R.end == END_STUCK && l.end) violation("end-missed", "the receiver waits for ever on a line that has ended");
		if (l.data.size() > st.data.size() && prop == "C04") { // revived: the listener must have left it alone
			for (auto &f : R.frames)
				if (f.size() <= l.data.size() && st.data.find(f) == Bytes::npos) violation("end-not-honoured", strf("after the end was reported the receiver went on and delivered %s", brief(f).c_str()));
			l.data.resize(st.data.size());
			l.arr.back().second = l.data.size();
			l.pos = std::min(l.pos, l.data.size());
		}
		if (listen && R.end == END_RETURN && !l.ended(W->now)) violation("listen-ended", strf("the listener returned at byte %zu of %zu, the line is still alive", l.pos, l.data.size()));
		if (listen && R.end == END_RETURN && !l.end_seen) violation("listen-ended", "the listener returned without having seen the end of the line");
		if (l.pos < l.data.size() && calls < 0) violation("not-consumed", strf("the receiver stopped at byte %zu of %zu", l.pos, l.data.size()));
		g_sh->parts += R.frames.size();
		return std::make_pair(R, l);
	};
	if (prop != "C01" && !st.clean_starts(st.damage_end())) invalid("start mark inside a frame or noise");

	if (prop == "C01") {
		auto a = run(true);
		uint64_t h = W->log.h;
		auto b = run(false);
		W->log.addn(h);
		g_sh->nontrivial = !a.first.frames.empty() && (!b.second.faults.empty() || b.second.arr.size() > 1);
		if (!listen) { // sequence of results, failures included
			size_t n = std::max(a.first.results.size(), b.first.results.size());
			for (size_t i = 0; i < n; i++) {
				Bytes x = i < a.first.results.size() ? a.first.results[i] : Bytes(), y = i < b.first.results.size() ? b.first.results[i] : Bytes();
				if (x != y) violation("timing-dependent", strf("call %zu returns %s at once and %s under this schedule", i, brief(x).c_str(), brief(y).c_str()));
			}
		}
		if (a.first.frames != b.first.frames) {
			size_t i = 0;
			while (i < a.first.frames.size() && i < b.first.frames.size() && a.first.frames[i] == b.first.frames[i]) i++;
			violation("timing-dependent", strf("frame %zu: %s without delays, %s under this schedule", i,
				i < a.first.frames.size() ? brief(a.first.frames[i]).c_str() : "none", i < b.first.frames.size() ? brief(b.first.frames[i]).c_str() : "none"));
		}
		return;
	}
	if (prop == "C02") {
		if (st.damaged()) { // what is delivered was on the line, and what came before the damage is delivered
			auto b = run(false);
			on_line(st, b.first.frames);
			std::vector<Bytes> want, got = b.first.frames;
			for (auto &p : st.pieces) { if (p.tag == 'D') break; if (p.tag == 'F' && p.len <= max) want.push_back(st.data.substr(p.off, p.len)); }
			if (got.size() > want.size()) got.resize(want.size());
			g_sh->nontrivial = !b.first.frames.empty();
			count("probe-damaged-line");
			cmp_frames(want, got);
			return;
		}
		std::vector<Bytes> want = expected_frames(st);
		for (auto &w : want) if (w.size() > max) invalid("frame too long");
		std::vector<Bytes> ref;
		for (auto &f : ref_frames(st.data, max).fr) ref.push_back(f.second);
		if (ref != want && !s.geti("known", 0)) harness_error("reference framer disagrees with the scenario");
		auto b = run(false);
		g_sh->nontrivial = want.size() > 0 && st.pieces.size() > 1;
		on_line(st, b.first.frames);
		cmp_frames(want, b.first.frames);
		return;
	}
	if (prop == "C03" || prop == "C04") {
		size_t bound = st.damaged() ? st.damage_end() + max : 0;
		std::vector<Bytes> want;
		for (auto &p : st.pieces)
			if (p.tag == 'F' && p.off >= bound && p.len <= max) want.push_back(st.data.substr(p.off, p.len));
		for (size_t i = 0; i < want.size(); i++)
			for (size_t k = 0; k < i; k++) if (want[i] == want[k]) invalid("equal frames");
		auto b = run(false);
		g_sh->nontrivial = prop == "C03" ? st.damaged() && !want.empty() : true;
		if (prop == "C04" && b.second.calls_after_end > 12) violation("end-not-honoured", strf("%d descriptor calls after the end was reported", b.second.calls_after_end));
		on_line(st, b.first.frames);
		std::vector<Bytes> got;
		for (auto &g : b.first.frames) if (std::find(want.begin(), want.end(), g) != want.end()) got.push_back(g);
		if (!st.damaged()) got = b.first.frames;
		count("frames-after-damage", st.damaged() ? want.size() : 0);
		cmp_frames(want, got);
		return;
	}
	if (prop == "C05") {
		if (listen || st.damaged()) invalid("C05 uses read");
		std::vector<Bytes> want;
		for (auto &p : st.pieces)
			if (p.tag == 'F') want.push_back(p.len <= max ? st.data.substr(p.off, p.len) : Bytes());
		int calls = max < 16 ? (int)want.size() : (int)want.size();
		if (calls == 0) invalid("nothing to read");
		auto b = run(false, calls);
		g_sh->nontrivial = 1;
		if (b.first.end == END_STUCK) violation("frame-lost", "the reader still waits although every frame has arrived");
		for (size_t i = 0; i < want.size(); i++) {
			const Bytes &g = b.first.results[i];
			if (want[i].empty()) count("probe-overlong-frame");
			if (want[i].size() == max) count("probe-exact-fit");
			if (max < 16) { if (!g.empty()) violation("result-for-tiny-buffer", strf("%zu bytes for a buffer of %zu", g.size(), max)); continue; }
			if (g != want[i]) {
				if (want[i].empty()) violation("overlong-not-refused", strf("frame %zu does not fit %zu bytes, yet the result is %s", i, max, brief(g).c_str()));
				violation(g.empty() ? "fitting-frame-refused" : "frame-altered", strf("call %zu with a buffer of %zu: expected %s (%zu bytes), got %s", i, max, brief(want[i]).c_str(), want[i].size(), brief(g).c_str()));
			}
		}
		return;
	}
	harness_error("unknown property " + prop);
}

// ------------------------------------------------------------------------------ generation
static Bytes small_sml(Rng &r) {
	GenOpt o;
	o.max_oct = 10;
	o.max_list = 2;
	o.depth = 1;
	Bytes p;
	int n = 1 + (int)r.below(3);
	for (int i = 0; i < n; i++) p += enc_msg(gen_msg(r, ALL_TAGS[r.below(14)], o));
	if (has_aligned_esc(p) || has_start(p)) return Bytes(8, 0x55);
	return p;
}
static Bytes some_frame(Rng &r, size_t limit, uint32_t uniq) {
	Bytes p;
	switch (r.below(6)) {
	case 0: p = Bytes(); break;
	case 1: p = small_sml(r); break;
	case 2: p = rx_payload(r, r.below(600)); break;
	default: p = rx_payload(r, r.below(60));
	}
	if (r.p(0.05)) p = rx_payload(r, limit > 40 ? limit - 16 - r.below(24) : limit);
	if (uniq) { Bytes u = strf("%04u", uniq); p = u + p; if (has_aligned_esc(p) || has_start(p)) p = u; }
	while (p.size() + 16 + 3 > limit && p.size() >= 4) p.resize(p.size() > 64 ? p.size() - 32 : p.size() - 1);
	if (p.size() + 19 > limit) p.clear();
	if (r.p(0.04)) { // exactly full
		Bytes q = rx_payload(r, (limit - 16) / 4 * 4);
		if (uniq) q = strf("%04u", uniq) + (q.size() > 4 ? q.substr(4) : "");
		if (q.size() + 16 <= limit && !has_aligned_esc(q) && !has_start(q)) p = q;
	}
	if (limit >= 64 && r.p(0.03)) { // a size at which a counter or a block may end
		static const size_t sizes[] = {64, 128, 256, 512, 1000, 1024, 2000, 2048, 3000, 4000, 4096, 5000, 6000, 6144, 7168, 8000, 8092, 8096, 8192, 16384, 32768, 65536};
		int k = (int)r.below(22);
		while (k && sizes[k] > limit) k = (int)r.below(k);
		size_t n = sizes[k] + 4 * r.below(3) - 4;
		Bytes u = uniq ? Bytes(strf("%04u", uniq)) : Bytes();
		if (n <= limit && n >= 20 + u.size()) {
			Bytes q = u + rx_payload(r, n - 16 - u.size());
			if (!has_aligned_esc(q) && !has_start(q)) { p = q; count("probe-round-frame"); }
		}
	}
	if (r.p(0.04) && p.size() > 6) { count("probe-special-checksum"); return special_frame(r, p); }
	return frame(p);
}
static Bytes some_noise(Rng &r) {
	if (r.p(0.015)) { // as long as a counter may be limited to
		static const size_t round[] = {200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8000, 8096, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 100000};
		size_t n = round[r.below(21)];
		count("probe-round-noise");
		return rx_noise(r, r.coin() ? n - r.below(13) : n + r.below(4));
	}
	switch (r.below(8)) {
	case 0: return Bytes(1 + r.below(9), 0x1b);
	case 1: return Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01", 4 + r.below(4));
	case 2: return Bytes(1 + r.below(20), 0x01);
	case 3: return Bytes(1 + r.below(8), 0);
	case 4: return rx_noise(r, 1 + r.below(12)) + Bytes(1 + r.below(7), 0x1b);
	case 5: return rx_noise(r, 1 + r.below(400));
	default: return rx_noise(r, 1 + r.below(20));
	}
}
// a damaged frame: what the line noise, a reset or a foreign sender makes of it
static Bytes damage(Rng &r, const Bytes &f0, size_t max) {
	Bytes f = f0;
	int n = 1 + (int)r.below(2);
	for (int k = 0; k < n; k++) {
		size_t at = r.p(0.3) ? r.below(std::min<size_t>(12, f.size())) : r.p(0.4) && f.size() > 12 ? f.size() - 1 - r.below(12) : r.below(f.size() + 1);
		if (at > f.size()) at = f.size();
		switch (r.below(8)) {
		case 0: count("damage-truncated"); f.resize(at); if (f.empty()) f = "\x1b"; break;
		case 1: count("damage-lost-bytes"); f.erase(at, 1 + r.below(5)); if (f.empty()) f = "\x1b"; break;
		case 2: count("damage-inserted"); f.insert(at, r.bytes(1 + r.below(5))); break;
		case 3: { count("damage-duplicated"); size_t l = 1 + r.below(12); f.insert(at, f.substr(at, l)); break; }
		case 4: count("damage-bitflip"); if (at < f.size()) f[at] = (char)(f[at] ^ (1 << r.below(8))); break;
		case 5: count("damage-unknown-escape"); { size_t a = f.size() > 8 ? 8 + (at % (f.size() - 8)) / 4 * 4 : f.size(); f.insert(a, Bytes("\x1b\x1b\x1b\x1b", 4) + (r.coin() ? Bytes("\x02\x00\x00\x00", 4) : r.coin() ? Bytes("\x1b\x1b\x1b\x1b", 4) : r.bytes(4))); break; }
		case 6: { count("damage-overlong"); size_t l = max + r.below(40); f = f.substr(0, 8) + rx_payload(r, l) + f.substr(std::min<size_t>(8, f.size())); break; }
		default: count("damage-no-end"); if (f.size() > 24) f.resize(8 + r.below(f.size() - 8)); else f.resize(8); break;
		}
	}
	return f;
}

Scn gen_rx(const std::string &prop, Rng &r) {
	for (;;) {
		Scn s;
		s.add({"prop", prop});
		s.add({"kind", "rx"});
		bool listen = prop == "C05" ? false : r.p(0.5);
		size_t max = 8096;
		if (!listen) {
			static const size_t ms[] = {16, 17, 20, 24, 31, 32, 40, 64, 100, 256, 300, 1024, 8096};
			max = ms[r.below(13)];
			if (r.p(0.2)) max = 16 + r.below(600);
			if ((prop == "C03" || prop == "C04") && max < 40) max += 40;
		}
		bool huge = !listen && (prop == "C01" || prop == "C02") && r.p(0.008); // a reader with a buffer beyond 64 KiB
		if (huge) max = 65500 + r.below(3000);
		Bytes data;
		std::vector<size_t> hot;
		std::vector<std::vector<std::string>> pl;
		size_t flen0 = 0;
		Bytes last_cut;
		Bytes prev;
		auto add = [&](Bytes b, const char *t) {
			if (b.empty()) return;
			if (prop != "C03" && prop != "C04" && *t == 'F') { // now and then the previous frame again
				if (!prev.empty() && r.p(0.06)) { b = prev; count("probe-frame-repeated"); }
				prev = b;
				if (prop == "C02" && r.p(0.0003)) { // so often that any counter wraps
					size_t k = r.p(0.4) ? 66000 : r.coin() ? 33000 : 300 + r.below(5000);
					b = frame(Bytes());
					pl.push_back({"s", hex(b), "F", strf("%zu", k)});
					for (; k > 0; k--) data += b;
					hot.push_back(data.size());
					count("probe-very-many-frames");
					return;
				}
			}
			for (size_t h : {data.size(), data.size() + 4, data.size() + 8, data.size() + b.size() - 8, data.size() + b.size() - 4}) hot.push_back(h > data.size() + b.size() ? data.size() : h);
			data += b;
			pl.push_back({"s", hex(b), t});
		};
		uint32_t uniq = 1;
		int end = -1;
		if (prop == "C05") {
			// frames around the buffer size
			int n = 1 + (int)r.below(4);
			size_t base = r.p(0.1) ? 2000 + r.below(7000) : r.below(120);
			if (r.p(0.012)) { base = (size_t)(r.p(0.2) ? 131072 : 65536) - 40 + r.below(60); n = 1 + (int)r.below(2); count("probe-beyond-64k"); }
			if (r.p(0.1)) { static const size_t sizes[] = {128, 256, 512, 1000, 1024, 2000, 2048, 3000, 4000, 4096, 5000, 6000, 8000, 8096, 8192, 16384}; base = sizes[r.below(16)] + 4 * r.below(3) - 20; count("probe-round-frame"); }
			flen0 = frame(Bytes(base, 1)).size();
			if (r.p(0.15)) max = r.below(16);
			else if (r.p(0.7)) { long d = (long)r.below(20) - 9; max = (size_t)std::max(0l, (long)flen0 + d); if (r.p(0.3)) max = flen0; }
			for (int i = 0; i < n; i++) {
				if (r.p(0.3)) add(some_noise(r), "N");
				size_t l = i == 0 || r.p(0.5) ? base : r.below(base * 2 + 40);
				Bytes p = rx_payload(r, l);
				add(frame(p), "F");
			}
			end = r.p(0.3) ? 0 : -1;
		} else if (prop == "C03" || (prop == "C04" && r.p(0.4)) || (prop == "C02" && max >= 40 && r.p(0.12))) {
			int pre = (int)r.below(3);
			for (int i = 0; i < pre; i++) { if (r.coin()) add(some_noise(r), "N"); add(some_frame(r, std::min<size_t>(max, 400), uniq++), "F"); }
			int d = 1 + (int)r.below(3);
			if (r.p(0.12)) for (int k = 10 + (int)r.below(r.p(0.3) ? 300 : 40); k > 0; k--) { // nothing but short damage for a while
				add(damage(r, frame(rx_payload(r, r.below(12))), 20), "D");
				if (r.p(0.1)) add(some_noise(r), "N");
			}
			if (r.p(0.012)) { // the same damage over and over
				Bytes b;
				switch (r.below(5)) {
				case 0: b = Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01\x1b\x1b\x1b\x1b\x02\x00\x00\x00", 16); break;
				case 1: b = frame(rx_payload(r, r.below(12))); b.resize(8 + r.below(b.size() - 8)); break;
				case 2: if (max <= 300) { b = Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8) + rx_payload(r, max + r.below(9)); break; } // fall through
				default: b = damage(r, frame(rx_payload(r, r.below(12))), 20);
				}
				long k = r.p(0.25) ? 66000 : r.coin() ? r.range(1000, 5000) : r.range(90, 1000);
				if (b.size() * k > 2200000) k = 2200000 / b.size();
				pl.push_back({"s", hex(b), "D", strf("%ld", k)});
				for (; k > 0; k--) data += b;
				hot.push_back(data.size());
				count("probe-very-many-damages");
			}
			for (int i = 0; i < d; i++) {
				add(damage(r, some_frame(r, std::min<size_t>(max, 300), uniq++), r.p(0.5) ? max : 40), "D");
				if (i + 1 < d && r.coin()) add(some_frame(r, std::min<size_t>(max, 200), uniq++), "F");
			}
			// undamaged traffic for one reader buffer, then the frames that must arrive
			size_t from = data.size();
			int style = (int)r.below(3);
			while (data.size() < from + max) {
				size_t left = from + max - data.size();
				if (style == 0 || (style == 1 && r.coin())) add(rx_noise(r, std::min<size_t>(left, 1 + r.below(left > 900 ? 900 : left))), "N");
				else add(frame(strf("%04u", uniq++) + rx_payload(r, std::min<size_t>(max > 40 ? max - 40 : 0, r.below(left > 3000 ? 2000 : 200)) / 4 * 4)), "F");
				if (pl.size() > 1200) break;
			}
			int n = 1 + (int)r.below(4);
			for (int i = 0; i < n; i++) { if (r.coin()) add(some_noise(r), "N"); add(some_frame(r, std::min<size_t>(max, 500), uniq++), "F"); }
			end = prop == "C04" ? -1 : (int)r.below(3);
		} else {
			int n = 1 + (int)r.below(r.p(0.1) ? 25 : 6);
			if (r.p(0.02)) for (int k = 100 + (int)r.below(500); k > 0; k--) { Bytes q = prop == "C04" ? strf("%04u", uniq++) : rx_payload(r, r.below(9)); if (q.size() + 19 <= max) add(frame(q), "F"); }
			if (huge) { add(frame(rx_payload(r, std::min<size_t>(max - 20, 65490 + r.below(60)))), "F"); count("probe-beyond-64k"); n = 1 + (int)r.below(3); }
			for (int i = 0; i < n; i++) {
				if (r.p(0.5)) add(some_noise(r), "N");
				if (prop == "C01" && r.p(0.15)) add(damage(r, some_frame(r, std::min<size_t>(max, 200), 0), r.p(0.2) ? max : 40), "D");
				add(some_frame(r, huge ? 300 : max, prop == "C04" ? uniq++ : 0), "F");
			}
			if (r.p(0.4)) add(some_noise(r), "N");
			if (prop == "C04" && r.p(0.7)) { // the end cuts a frame short
				Bytes f = some_frame(r, max, uniq++);
				size_t cut = r.p(0.4) ? f.size() - 1 - r.below(std::min<size_t>(f.size() - 1, 9)) : 1 + r.below(f.size() - 1);
				add(f.substr(0, cut), "N");
				last_cut = f;
			}
		}
		// validity: frames intact as tagged, no other start marks
		Scn probe = s;
		for (auto &l : pl) probe.L.push_back(l);
		Stream st = build_stream(probe);
		bool cutpiece = prop == "C04";
		if (cutpiece) { // a cut frame at the very end is start-marked noise
			Stream t = st;
			if (!t.pieces.empty() && t.pieces.back().tag == 'N' && t.data.compare(t.pieces.back().off, 8, Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8)) == 0) {
				pl.back()[2] = "P"; // partial
				st.pieces.back().tag = 'P';
			}
		}
		if (prop != "C01" && !st.clean_starts(st.damage_end())) continue;
		if (prop == "C01" && !st.clean_starts(st.data.size())) continue;
		if (prop == "C02") {
			bool ok = true;
			for (auto &p : st.pieces) if (p.tag == 'F' && p.len > max) ok = false;
			if (!ok) continue;
		}
		s.add({"mode", listen ? "listen" : "read"});
		if (!listen) s.add({"max", strf("%zu", max)});
		gen_fdbase(r, s);
		gen_prior(r, s);
		bool nb = r.p(0.4);
		if (nb) s.add({"nonblock", "1"});
		s.add({"fill", strf("%d", (int)(r.coin() ? 0x1b : r.below(256)))});
		for (auto &l : pl) s.L.push_back(l);
		SchedOpt o;
		gen_schedule(r, s, data.size(), hot, o);
		gen_end(r, s, end);
		if (prop == "C04" && s.L.back().size() == 3 && r.p(0.4)) { // the line comes back after its end was reported
			Bytes m;
			if (!pl.empty() && pl.back()[2] == "P" && r.coin()) { // with what the cut frame lacked
				Bytes cut;
				unhex(pl.back()[1], cut);
				m = last_cut.substr(cut.size());
			}
			for (int k = (int)r.below(3); k >= 0; k--) m += some_frame(r, 120, uniq++);
			s.L.back().push_back(hex(m));
		}
		return s;
	}
}
