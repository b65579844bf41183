#include "exec.h"
#include <cerrno>
#include <fcntl.h>
#include <algorithm>
#include <unordered_set>

size_t Stream::damage_end() const {
	size_t e = 0;
	for (auto &p : pieces) if (p.tag == 'D') e = p.off + p.len;
	return e;
}
bool Stream::damaged() const {
	for (auto &p : pieces) if (p.tag == 'D') return true;
	return false;
}
bool Stream::clean_starts(size_t from) const {
	static const Bytes START("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8);
	size_t i = from >= 7 ? from - 7 : 0;
	std::unordered_set<size_t> at;
	for (auto &x : pieces) if (x.tag == 'F' || x.tag == 'P') at.insert(x.off);
	for (;;) {
		size_t p = data.find(START, i);
		if (p == Bytes::npos) return true;
		bool ok = p + 8 <= from;
		if (at.count(p)) ok = true;
		if (!ok) return false;
		i = p + 1;
	}
}

// Stream lines:  s <hex> <tag>                     raw bytes; tag F intact frame, N noise, D damaged
//                fr                                begins a frame made of the following x / c lines
//                x <hex> [node]                    message bytes (and the message they encode)
//                c <offset> <xor>                  changes one byte of the frame's payload
Stream build_stream(const Scn &s, const std::string &id) {
	Stream o;
	Bytes payload;
	bool open = false;
	std::vector<Node> nodes;
	bool has_nodes = true;
	std::vector<std::pair<size_t, int>> ch;
	auto flush = [&]() {
		if (!open) return;
		open = false;
		for (auto &c : ch) if (c.first < payload.size()) payload[c.first] = (char)((unsigned char)payload[c.first] ^ c.second);
		if (has_aligned_esc(payload) || has_start(payload)) invalid("payload contains an escape mark");
		Bytes f = frame(payload);
		o.pieces.push_back({o.data.size(), f.size(), 'F', nodes, has_nodes && ch.empty()});
		o.data += f;
		payload.clear();
		nodes.clear();
		ch.clear();
		has_nodes = true;
	};
	for (auto &l : s.L) {
		if (l[0] == "x" + id || l[0] == "c" + id) {
			if (!open) continue;
			if (l[0][0] == 'x') {
				Bytes b;
				if (l.size() < 2 || !unhex(l[1], b)) invalid("hex");
				payload += b;
				Node n;
				if (l.size() > 2 && from_text(l[2], n)) nodes.push_back(n); else has_nodes = false;
			} else if (l.size() > 2) ch.push_back({strtoul(l[1].c_str(), 0, 0), (int)strtol(l[2].c_str(), 0, 0) & 255});
			continue;
		}
		if (l[0] == "s" + id || l[0] == "fr" + id) flush();
		if (l[0] == "fr" + id) open = true;
		if (l[0] == "s" + id) {
			Bytes b;
			if (l.size() < 2 || !unhex(l[1], b)) invalid("hex");
			char t = l.size() > 2 ? l[2][0] : 'N';
			if (b.empty()) continue;
			long rep = l.size() > 3 ? strtol(l[3].c_str(), 0, 0) : 1;
			if (rep < 0 || rep > 200000) invalid("repetitions");
			for (; rep > 0; rep--) {
				o.pieces.push_back({o.data.size(), b.size(), t, {}, false});
				o.data += b;
			}
		}
	}
	flush();
	return o;
}

void build_line(const Scn &s, const Stream &st, Line &l, const std::string &id, bool ideal) {
	l = Line();
	l.data = st.data;
	int64_t t = 0;
	size_t n = 0;
	if (ideal) l.arr.push_back({0, st.data.size()});
	else {
		for (auto &x : s.L)
			if (x[0] == "a" + id && x.size() >= 3) { // a <delay> <bytes> [repeat]
				int64_t d = strtoll(x[1].c_str(), 0, 0);
				size_t k = strtoul(x[2].c_str(), 0, 0);
				long rep = x.size() > 3 ? strtol(x[3].c_str(), 0, 0) : 1;
				if (d < 0 || d > 10000000000000ll) invalid("delay");
				for (long i = 0; i < rep && n < st.data.size(); i++) {
					t += d;
					n += k;
					l.arr.push_back({t, std::min(n, st.data.size())});
				}
			}
		if (n < st.data.size()) l.arr.push_back({t, st.data.size()});
		for (auto &x : s.L)
			if (x[0] == "f" + id && x.size() >= 4) { // f <offset> sel|read <kind> [arg]
				Fault f{};
				f.off = strtoull(x[1].c_str(), 0, 0);
				f.call = x[2] == "sel" ? C_SEL : C_READ;
				f.kind = x[3] == "eintr" ? F_EINTR : x[3] == "eagain" ? F_EAGAIN : x[3] == "spur" ? F_SPUR : F_SHORT;
				f.arg = x.size() > 4 ? strtol(x[4].c_str(), 0, 0) : 1;
				l.faults.push_back(f);
			}
	}
	for (auto &x : s.L)
		if (x[0] == "end" + id && x.size() >= 2) {
			int64_t d = x.size() > 2 && !ideal ? strtoll(x[2].c_str(), 0, 0) : 0;
			if (x[1] == "never") l.end = 0;
			else if (x[1] == "eof") l.end = 1;
			else { l.end = 2; l.end_errno = (int)strtol(x[1].c_str(), 0, 0); if (l.end_errno <= 0 || l.end_errno == EINTR || l.end_errno == EAGAIN) invalid("errno"); }
			l.end_time = t + d;
			if (x.size() > 3 && !ideal && l.end && l.end_errno != EBADF && !unhex(x[3], l.revive)) invalid("hex");
		}
}

void repeat_frames(Rng &r, Scn &s, const std::string &id) {
	if (!r.p(0.1)) return;
	std::vector<size_t> at;
	for (size_t i = 0; i < s.L.size(); i++) if (s.L[i][0] == "fr" + id) at.push_back(i);
	if (at.empty()) return;
	size_t b = at[r.below(at.size())], e = b + 1;
	while (e < s.L.size() && (s.L[e][0] == "x" + id || s.L[e][0] == "c" + id)) e++;
	if (e == b + 1) return;
	std::vector<std::vector<std::string>> g(s.L.begin() + b, s.L.begin() + e);
	for (int k = r.p(0.1) ? 10 : 1; k > 0; k--) s.L.insert(s.L.begin() + e, g.begin(), g.end());
	count("probe-frame-repeated");
}

void gen_fdbase(Rng &r, Scn &s) {
	static const int b[] = {0, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1020};
	if (r.p(0.12)) s.add({"fdbase", strf("%d", b[r.below(19)])});
}
void gen_end(Rng &r, Scn &s, int kind, const std::string &id) {
	static const int errs[] = {EIO, EBADF, ENXIO, ECONNRESET, ENODEV, EINVAL, ETIMEDOUT, ENOTCONN, EHOSTUNREACH, ENETDOWN, ECONNABORTED, ECONNREFUSED, EPIPE, EPERM, EISDIR, EPROTO, EOVERFLOW, ESTALE, ENODATA, EREMOTEIO, ENOLINK, ESHUTDOWN, ENETRESET, EACCES, EILSEQ, EBADMSG, ENOTTY, ENOTSOCK, EFAULT};
	if (kind < 0) kind = (int)r.below(3);
	std::string d = strf("%lld", (long long)(r.coin() ? 0 : r.range(1, 5000000)));
	if (kind == 0) s.add({"end" + id, "never"});
	else if (kind == 1) s.add({"end" + id, "eof", d});
	else s.add({"end" + id, strf("%d", errs[r.coin() ? r.below(6) : r.below(sizeof errs / sizeof *errs)]), d});
}

void gen_schedule(Rng &r, Scn &s, size_t n, const std::vector<size_t> &hot, const SchedOpt &o, const std::string &id) {
	auto delay = [&]() -> long long {
		switch (r.below(5)) {
		case 0: return 0;
		case 1: return r.range(1, 100);
		case 2: return 1042; // one byte at 9600 baud
		case 3: return r.range(1000, 2000000);
		default:
			if (r.p(0.012)) { count("probe-months-of-silence"); return r.range(1000000000000ll, 6000000000000ll); }
			return r.p(0.1) ? r.range(10000000, 90000000000ll) : r.range(1, 10000);
		}
	};
	auto A = [&](long long d, size_t k, size_t rep = 1) {
		if (rep > 2) d %= 90000000001ll;
		if (rep > 1) s.add({"a" + id, strf("%lld", d), strf("%zu", k), strf("%zu", rep)});
		else s.add({"a" + id, strf("%lld", d), strf("%zu", k)});
	};
	switch (r.below(6)) {
	case 0: break; // everything at once
	case 1: A(delay(), 1, n); break;
	case 2: A(delay(), r.range(2, 17), n); break;
	case 3: { // cut around the hot offsets
		std::vector<size_t> c;
		for (size_t h : hot) if (r.p(hot.size() > 40 ? 0.2 : 0.6)) c.push_back(h + r.below(17));
		std::sort(c.begin(), c.end());
		size_t at = 0;
		for (size_t x : c) if (x > at && x < n) { A(delay(), x - at); at = x; }
		A(delay(), n - at);
		break;
	}
	case 4: { // random blocks
		size_t at = 0;
		while (at < n) { size_t k = (1 + r.below(r.coin() ? 8 : 300)) * (n > 20000 ? 50 : 1); A(delay(), k); at += k; }
		break;
	}
	default: { // bunched: big block, then single bytes
		size_t at = 0;
		while (at < n) {
			size_t k = 1 + r.below(n);
			A(delay(), k);
			at += k;
			if (at < n) { size_t m = 1 + r.below(20); A(delay(), 1, m); at += m; }
		}
	}
	}
	if (r.p(o.p_faults)) {
		int cnt = r.p(0.2) && o.heavy ? 20 + (int)r.below(120) : 1 + (int)r.below(8);
		unsigned kinds = 1 + (unsigned)r.below(31); // swarm: subset of kinds
		std::vector<std::pair<size_t, std::vector<std::string>>> fs;
		for (int i = 0; i < cnt; i++) {
			size_t off = !hot.empty() && r.p(0.7) ? hot[r.below(hot.size())] + r.below(12) : r.below(n + 1);
			int k = (int)r.below(5);
			if (!(kinds >> k & 1)) continue;
			std::string so = strf("%zu", off);
			if (k == 0) fs.push_back({off, {"f" + id, so, "sel", "eintr"}});
			else if (k == 1) fs.push_back({off, {"f" + id, so, "read", "eintr"}});
			else if (k == 2) fs.push_back({off, {"f" + id, so, "read", "eagain"}});
			else if (k == 3) fs.push_back({off, {"f" + id, so, "sel", "spur"}});
			else fs.push_back({off, {"f" + id, so, "read", "short", strf("%d", (int)r.range(1, 3))}});
		}
		if (o.heavy && r.p(0.06)) { // the same thing many times over at one place
			size_t off = !hot.empty() && r.coin() ? hot[r.below(hot.size())] + r.below(12) : r.below(n + 1);
			static const char *K[4][2] = {{"sel", "eintr"}, {"read", "eintr"}, {"read", "eagain"}, {"sel", "spur"}};
			auto &k = K[r.below(4)];
			for (int i = 50 + (int)r.below(350); i > 0; i--) fs.push_back({off, {"f" + id, strf("%zu", off), k[0], k[1]}});
		}
		std::stable_sort(fs.begin(), fs.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
		for (auto &f : fs) s.L.push_back(f.second);
	}
}

static Bytes adversarial(Rng &r, size_t len) {
	Bytes b;
	bool plain = r.p(0.25);
	while (b.size() < len) {
		if (plain) { b += (char)r.next(); continue; }
		switch (r.below(10)) {
		case 0: b.append(1 + r.below(3), 0x1b); break;
		case 1: b.append(4 + r.below(5), 0x1b); break;
		case 2: b.append(1 + r.below(8), 0x01); break;
		case 3: b += (char)0x1a; break;
		case 4: b.append(1 + r.below(4), 0); break;
		case 5: b += "\x1b\x1b\x1b\x1b\x1a"; break;
		case 6: b += "\x1b\x1b\x1b\x1b\x01\x01\x01"; break;
		default: b += r.bytes(1 + r.below(6));
		}
	}
	b.resize(len);
	return b;
}
Bytes rx_payload(Rng &r, size_t len) {
	Bytes b = adversarial(r, len);
	for (int k = 0; k < 10000; k++) {
		bool bad = false;
		for (size_t i = 0; i + 4 <= b.size(); i += 4)
			if (!memcmp(b.data() + i, "\x1b\x1b\x1b\x1b", 4)) { b[i + r.below(4)] = (char)(r.next() | 0x40); bad = true; }
		size_t p = b.find(Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8));
		if (p != Bytes::npos) { b[p + 4 + r.below(4)] = 0x77; bad = true; }
		if (!bad) return b;
	}
	return Bytes(len, 0x55);
}
Bytes rx_noise(Rng &r, size_t len) {
	Bytes b = adversarial(r, len);
	for (;;) {
		size_t p = b.find(Bytes("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8));
		if (p == Bytes::npos) return b;
		b[p + 4 + r.below(4)] = 0x77;
	}
}

World *new_world(const Scn &s) {
	delete W;
	W = new World;
	LG.fill = (int)(s.geti("fill", 0xA5) & 255);
	g_dirt = (unsigned char)(LG.fill ^ 0x3c);
	W->fds[0].type = FD_NULL;
	W->fds[1].type = FD_STDOUT;
	W->fds[2].type = FD_STDERR;
	W->fd_base = (int)s.geti("fdbase", 3);
	if (W->fd_base < 0 || W->fd_base > 1023 || W->fd_base == 1 || W->fd_base == 2) invalid("fdbase");
	if (!W->fd_base) W->fds[0] = SFd();
	W->rnd = Rng((uint64_t)s.geti("rnd", 5));
	return W;
}

static FrameCb g_cb[16];
static void the_callback(unsigned char *b, size_t n) { g_cb[current_thread()](b, n); }
void listen_with(int fd, const FrameCb &cb) {
	g_cb[current_thread()] = cb;
	sml_transport_listen(fd, the_callback);
}

Received receive(int fd, Line &l, bool listen, size_t max, const FrameCb &cb, int calls) {
	Received R;
	auto take = [&](unsigned char *b, size_t n) {
		if (n > max) violation("overlong-result", strf("%zu bytes reported for a buffer of %zu", n, max));
		R.frames.push_back(Bytes((char *)b, n));
		W->log.add(R.frames.back());
		tracef("  delivered %zu bytes: %s\n", n, brief(R.frames.back()).c_str());
		if (cb) cb(b, n);
	};
	if (listen) max = 8096;
	R.end = run_guarded([&]() {
		if (listen) { listen_with(fd, take); return; }
		unsigned char *b = (unsigned char *)malloc(max ? max : 1); // ASan-checked, exact size
		if (max == 0) { free(b); b = (unsigned char *)malloc(1) + 1; }
		memset(b, 0xEE, max);
		int idle = 0;
		while (calls < 0 ? !l.end_seen : (int)R.results.size() < calls) {
			int before = W->read_calls + W->sel_calls;
			size_t n = sml_transport_read(fd, b, max);
			tracef("  read -> %zu\n", n);
			W->log.addn(n);
			if (n) take(b, n);
			R.results.push_back(n ? R.frames.back() : Bytes());
			if (W->read_calls + W->sel_calls == before && ++idle > 3 && calls < 0) violation("no-reading", "sml_transport_read returns without looking at the line");
		}
	});
	return R;
}

void prior_connection(const Scn &s, int fd) { // prior <listen|read> <eof|err> <hex>
	for (auto &o : s.L) {
		if (o[0] != "prior" || o.size() < 4) continue;
		Line p;
		if (!unhex(o[3], p.data)) invalid("prior");
		p.arr = {{0, p.data.size()}};
		p.end = o[2] == "err" ? 2 : 1;
		p.end_errno = EIO;
		Line *l = W->fds[fd].line;
		W->fds[fd].line = &p;
		uint64_t before = g_steps, limit = g_step_limit;
		g_step_limit = g_steps + 3000000 + 600ull * p.data.size();
		receive(fd, p, o[1] == "listen", 8096);
		g_step_limit = limit == ~0ull ? limit : limit + (g_steps - before);
		W->fds[fd].type = FD_LINE; // the number is given out again
		W->fds[fd].line = l;
		W->now = 0;
		W->spin = W->naps = W->read_calls = W->sel_calls = W->block_count = 0;
		count("probe-prior-connection");
	}
}
void gen_prior(Rng &r, Scn &s) {
	if (!r.p(0.12)) return;
	for (int k = r.p(0.8) ? 1 : 2; k > 0; k--) {
		Bytes b;
		for (int q = (int)r.below(3); q > 0; q--) b += frame(rx_payload(r, r.below(60)));
		Bytes f = frame(rx_payload(r, r.p(0.1) ? 5000 : r.below(120)));
		switch (r.below(4)) { // it ended within a frame, mostly
		case 0: b += f; break;
		case 1: b += f.substr(0, r.below(std::min<size_t>(f.size(), 24))); break;
		default: b += f.substr(0, r.below(f.size()));
		}
		if (r.p(0.2)) b += rx_noise(r, r.below(20));
		s.add({"prior", r.coin() ? "listen" : "read", r.coin() ? "eof" : "err", hex(b)});
	}
}

std::string brief(const Bytes &b, size_t n) {
	if (b.size() <= n) return hex(b);
	return hex(b.substr(0, n / 2)) + ".." + hex(b.substr(b.size() - n / 2)) + strf("(%zu)", b.size());
}
std::vector<Node> normalised(const std::vector<Node> &v) {
	std::vector<Node> o;
	for (auto &n : v) o.push_back(normalise(n));
	return o;
}
static std::string where(const Node &a, const Node &b, std::string path) {
	if (a.k == Node::LST && b.k == Node::LST && a.c.size() == b.c.size()) {
		for (size_t i = 0; i < a.c.size(); i++)
			if (a.c[i] != b.c[i]) return where(a.c[i], b.c[i], path + strf(".%zu", i));
	}
	std::string x = to_text(a), y = to_text(b);
	if (x.size() > 200) x = x.substr(0, 200) + "..";
	if (y.size() > 200) y = y.substr(0, 200) + "..";
	return path + ": expected " + x + ", got " + y;
}
std::string diff_nodes(const std::vector<Node> &w, const std::vector<Node> &g) {
	for (size_t i = 0; i < w.size() && i < g.size(); i++)
		if (w[i] != g[i]) return strf("message %zu ", i) + where(w[i], g[i], "field ");
	if (w.size() != g.size()) return strf("expected %zu messages, got %zu", w.size(), g.size());
	return "";
}
