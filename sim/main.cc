// simrun: generates, executes, replays and minimises scenarios. Every scenario is executed in a child
// process of its own; the parent never enters library code.
#include "exec.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef VARIANT
#define VARIANT "uuid"
#endif
extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_malloc_fill_size=0:quarantine_size_mb=4:print_legend=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=77"; }

void execute(const Scn &s) {
	std::string k = s.get("kind");
	if (k == "rx") exec_rx(s);
	else if (k == "parse") exec_parse(s);
	else if (k == "send") exec_send(s);
	else if (k == "tool") exec_tool(s);
	else if (k == "threads") exec_threads(s);
	else if (k == "ids") exec_ids(s);
	else harness_error("unknown kind " + k);
}
Scn generate(const std::string &prop, uint64_t seed, uint64_t i) {
	Hash h;
	h.add(prop);
	Rng r(mix64(mix64(seed, h.h), i));
	gen_reset();
	Scn s;
	if (prop <= "C05") s = gen_rx(prop, r);
	else if (prop == "C06" || prop == "C07" || prop == "C12" || prop == "C13") s = gen_parse(prop, r);
	else if (prop == "C08" && r.p(0.25)) s = gen_tool(prop, r);
	else if (prop >= "C08" && prop <= "C11") s = gen_send(prop, r);
	else if (prop >= "C14" && prop <= "C16") s = gen_tool(prop, r);
	else if (prop == "C17") { s = gen_threads(r); bool nu = !strcmp(VARIANT, "nouuid"); s.add({"build", nu ? "threads-nouuid" : "threads"}); if (nu && r.coin()) gen_entropy(r, s, 1 + (long)r.below(20)); }
	else if (prop == "C18") { s = gen_ids(r); s.add({"build", VARIANT}); }
	else { fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(2); }
	if (prop == "C08" && !strcmp(VARIANT, "nouuid")) s.add({"build", VARIANT});
	return s;
}

// ------------------------------------------------------------------------------ one run in a child
static int g_errfd = -1;
static std::string g_errtext;
static void reset_shared() {
	size_t edges = sizeof g_sh->edges;
	memset(g_sh, 0, offsetof(Shared, edges));
	memset(g_sh->edges, 0, edges);
}
// leaves status, class, message in g_sh
static void run_child(const Scn &s, bool show = false) {
	g_sh->status = ST_RUNNING;
	if (g_errfd < 0) {
		g_errfd = memfd_create("simrun-stderr", 0);
		if (g_errfd < 0) { perror("memfd_create"); exit(2); }
	}
	if (ftruncate(g_errfd, 0)) {}
	lseek(g_errfd, 0, SEEK_SET);
	fflush(stdout);
	fflush(stderr);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (!p) {
		if (!show) dup2(g_errfd, 2);
		alarm(300);
		execute(s);
		g_sh->status = ST_OK;
		if (W) { g_sh->loghash = W->log.h; g_sh->simtime += W->now; }
		g_sh->steps = g_steps;
		_exit(0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0) {}
	g_errtext.clear();
	if (!show) {
		char buf[20000];
		ssize_t n = pread(g_errfd, buf, sizeof buf, 0);
		if (n > 0) g_errtext.assign(buf, n);
	}
	if (g_sh->status != ST_RUNNING) return;
	// ended without a verdict: a crash of the code under test, or of the harness
	std::string cls, msg;
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
		g_sh->status = ST_HARNESS;
		cls = "harness";
		msg = strf("the run was ended by signal %d", WTERMSIG(st));
	} else {
		g_sh->status = ST_VIOLATION;
		cls = "crash";
		size_t a = g_errtext.find("AddressSanitizer: "), b = g_errtext.find("runtime error: ");
		if (a != std::string::npos) { a += 18; cls += "-" + g_errtext.substr(a, g_errtext.find_first_of(" \n", a) - a); }
		else if (b != std::string::npos) { b += 15; std::string t = g_errtext.substr(b, g_errtext.find('\n', b) - b); cls += "-undefined"; msg = t; }
		else if (WIFSIGNALED(st)) cls += strf("-signal-%d", WTERMSIG(st));
		else cls += strf("-exit-%d", WEXITSTATUS(st));
		if (cls.find("out-of-memory") != std::string::npos || cls.find("allocation-size") != std::string::npos) cls = "crash-memory";
		if (msg.empty()) {
			size_t e = g_errtext.find("ERROR:");
			msg = g_errtext.substr(e == std::string::npos ? 0 : e, 1500);
		}
	}
	snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls.c_str());
	snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
}
static std::string one_line(std::string s) {
	for (auto &c : s) if (c == '\n' || c == '\r') c = ' ';
	return s;
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string read_file(const std::string &p) {
	FILE *f = fopen(p.c_str(), "r");
	if (!f) { fprintf(stderr, "cannot read %s\n", p.c_str()); exit(2); }
	std::string s;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}
static void write_file(const std::string &p, const std::string &s) {
	FILE *f = fopen(p.c_str(), "w");
	if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); exit(2); }
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}

// ------------------------------------------------------------------------------ minimisation
struct Shrinker {
	std::string cls;
	int tries = 0, max_tries = 2500;
	double deadline;
	Scn best;
	bool ok(const Scn &s) {
		if (tries >= max_tries || now_s() > deadline) return false;
		tries++;
		reset_shared();
		run_child(s);
		if (g_sh->status == ST_VIOLATION && cls == g_sh->cls) { best = s; return true; }
		return false;
	}
	static bool fixed(const std::vector<std::string> &l) { return l[0] == "prop" || l[0] == "kind" || l[0] == "build"; }
	bool lines() {
		bool any = false;
		for (size_t k = std::max<size_t>(best.L.size() / 2, 1);; k = k / 2) {
			for (size_t i = 0; i < best.L.size();) {
				Scn t;
				bool some = false;
				for (size_t j = 0; j < best.L.size(); j++)
					if (j >= i && j < i + k && !fixed(best.L[j])) some = true; else t.L.push_back(best.L[j]);
				if (some && ok(t)) any = true; else i += k;
			}
			if (k <= 1) break;
		}
		return any;
	}
	bool try_token(size_t i, size_t j, const std::string &v) {
		if (best.L[i][j] == v) return false;
		Scn t = best;
		t.L[i][j] = v;
		return ok(t);
	}
	bool node_token(size_t i, size_t j) {
		bool any = false;
		for (bool again = true; again;) {
			again = false;
			Node n;
			if (!from_text(best.L[i][j], n)) return any;
			std::vector<Node *> v;
			std::function<void(Node &)> w = [&](Node &x) { v.push_back(&x); for (auto &k : x.c) w(k); };
			w(n);
			auto restore = [&](size_t q, const Node &x) { *v[q] = x; v.clear(); w(n); }; // the copies live elsewhere
			for (size_t q = 1; q < v.size() && !again; q++) {
				Node save = *v[q];
				auto attempt = [&](const Node &x) { if (x == save) return false; *v[q] = x; bool r = try_token(i, j, to_text(n)); if (!r) restore(q, save); return r; };
				if (save.k == Node::ABS) continue;
				if (attempt(Node::abs())) { again = true; break; }
				if (save.k == Node::LST) for (size_t z = 0; z < save.c.size() && !again; z++) { Node x = save; x.c.erase(x.c.begin() + z); if (attempt(x)) again = true; }
				if (again) break;
				if (save.k == Node::OCT && save.s.size() > 1) { if (attempt(Node::oct(save.s.substr(0, save.s.size() / 2))) || attempt(Node::oct(save.s.substr(0, save.s.size() - 1)))) { again = true; break; } }
				if ((save.k == Node::UNS || save.k == Node::INT) && save.n > 1) { Node x = save; x.n = 1; if (attempt(x)) { again = true; break; } }
			}
			any |= again;
		}
		return any;
	}
	bool hex_token(size_t i, size_t j, bool align) {
		bool any = false;
		for (size_t k = 256; k >= 1; k /= 2) {
			if (align && k < 4) break;
			for (size_t at = 0;;) {
				Bytes b;
				if (!unhex(best.L[i][j], b) || b.size() <= at) break;
				if (b.size() <= k) { at += k; continue; }
				Bytes t = b;
				t.erase(at, k);
				if (try_token(i, j, hex(t))) any = true; else at += k;
			}
		}
		Bytes b;
		unhex(best.L[i][j], b);
		for (size_t at = 0; at < b.size() && b.size() <= 200; at++) {
			if (b[at] == 0) continue;
			Bytes t = b;
			t[at] = 0;
			if (try_token(i, j, hex(t))) { any = true; b = t; }
		}
		return any;
	}
	bool tokens() {
		bool any = false;
		for (size_t i = 0; i < best.L.size(); i++) {
			if (fixed(best.L[i])) continue;
			for (size_t j = 1; j < best.L[i].size(); j++) {
				const std::string v = best.L[i][j];
				const std::string &key = best.L[i][0];
				Node n;
				bool stream = key[0] == 's' && (key == "s" || key == "s2");
				if (((key[0] == 'x' || stream) && j == 1) || (key.compare(0, 2, "op") == 0 && best.L[i][1] == "recvhex" && j == 3)) { any |= hex_token(i, j, false); continue; }
				if (key.compare(0, 2, "op") == 0 && (v[0] == '(' || v[0] == '[' || v[0] == '{')) { any |= node_token(i, j); continue; }
				if (v.size() > 4 && key.compare(0, 2, "op") == 0 && from_text(v, n) && n.k == Node::LST) { any |= node_token(i, j); continue; }
				char *e;
				long long x = strtoll(v.c_str(), &e, 10);
				if (*e == 0 && !v.empty()) {
					if (x > 1) { if (try_token(i, j, "0") || try_token(i, j, "1")) { any = true; continue; } for (long long y = x / 2; y > 1; y /= 2) if (try_token(i, j, strf("%lld", x - y))) { any = true; x -= y; } }
				}
			}
		}
		return any;
	}
	void go() {
		for (int k = 0; k < 4; k++) {
			bool a = lines();
			bool b = tokens();
			if ((!a && !b) || tries >= max_tries || now_s() > deadline) break;
		}
	}
};

static std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c > 0x7e) o += strf("\\u%04x", c);
		else o += (char)c;
	}
	return o + "\"";
}

int main(int argc, char **argv) {
	// the same addresses every time, so that code which depends on them still replays
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
		execv("/proc/self/exe", argv);
		personality(pers);
	}
	std::vector<std::string> a(argv + 1, argv + argc);
	auto opt = [&](const std::string &k, const std::string &d) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == k) return a[i + 1]; return d; };
	g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }
	if (a.empty()) { fprintf(stderr, "simrun gen|run|batch|shrink\n"); return 2; }
	if (a[0] == "gen") {
		printf("%s", generate(a[1], strtoull(a[2].c_str(), 0, 0), strtoull(a[3].c_str(), 0, 0)).text().c_str());
		return 0;
	}
	if (a[0] == "run") { // run FILE [-v] [-s]: -v event trace, -s report of a crash
		bool v = std::find(a.begin(), a.end(), "-v") != a.end(), sh = std::find(a.begin(), a.end(), "-s") != a.end();
		Scn s = Scn::parse(read_file(a[1]));
		reset_shared();
		g_trace = v;
		run_child(s, v || sh);
		static const char *names[] = {"RUNNING", "OK", "VIOLATION", "INVALID", "HARNESS"};
		printf("%s class=%s log=%016llx steps=%llu simtime_us=%llu nontrivial=%d %s\n", names[g_sh->status], g_sh->cls[0] ? g_sh->cls : "-", (unsigned long long)g_sh->loghash, (unsigned long long)g_sh->steps,
			(unsigned long long)g_sh->simtime, g_sh->nontrivial, one_line(g_sh->msg).c_str());
		return g_sh->status == ST_OK ? 0 : g_sh->status == ST_VIOLATION ? 1 : 2;
	}
	if (a[0] == "shrink") { // shrink IN OUT
		Shrinker k;
		k.best = Scn::parse(read_file(a[1]));
		k.deadline = now_s() + atof(opt("--seconds", "60").c_str());
		reset_shared();
		run_child(k.best);
		if (g_sh->status != ST_VIOLATION) { fprintf(stderr, "not a violation\n"); return 2; }
		k.cls = g_sh->cls;
		size_t n0 = k.best.L.size(), b0 = k.best.text().size();
		k.go();
		write_file(a[2], k.best.text());
		printf("minimised %zu lines, %zu bytes to %zu lines, %zu bytes in %d executions\n", n0, b0, k.best.L.size(), k.best.text().size(), k.tries);
		return 0;
	}
	if (a[0] == "batch") { // batch PROP --seed S --start I --step K --count N --seconds T --out FILE --fail PREFIX
		std::string prop = a[1], out = opt("--out", "/dev/stdout"), failp = opt("--fail", "");
		uint64_t seed = strtoull(opt("--seed", "1").c_str(), 0, 0), start = strtoull(opt("--start", "0").c_str(), 0, 0), step = strtoull(opt("--step", "1").c_str(), 0, 0), cnt = strtoull(opt("--count", "100").c_str(), 0, 0);
		double t0 = now_s(), tmax = atof(opt("--seconds", "1e9").c_str());
		uint64_t runs = 0, ok = 0, inval = 0, harness = 0, nontriv = 0, simtime = 0, steps = 0, switches = 0, parts = 0, worst = 0, last = 0;
		std::map<std::string, uint64_t> cnts;
		std::set<uint64_t> logs;
		static unsigned char edges[65536];
		std::vector<std::string> fails;
		std::set<std::string> classes;
		std::string harness_msg, sample, invalid_msg;
		for (uint64_t k = 0; k < cnt; k++) {
			if (now_s() - t0 > tmax) break;
			uint64_t i = start + k * step;
			reset_shared();
			Scn s = generate(prop, seed, i);
			run_child(s);
			runs++;
			last = i;
			simtime += g_sh->simtime;
			steps += g_sh->steps;
			switches += g_sh->switches;
			parts += g_sh->parts;
			worst = std::max<uint64_t>(worst, g_sh->steps);
			for (int c = 0; c < g_sh->ncounters; c++) cnts[g_sh->counters[c].name] += g_sh->counters[c].n;
			for (size_t e = 0; e < sizeof edges; e++) edges[e] |= g_sh->edges[e];
			if (g_sh->status == ST_OK) {
				ok++;
				if (g_sh->nontrivial) { nontriv++; logs.insert(g_sh->loghash); if (sample.empty() && s.text().size() < 1500) sample = strf("seed=%llu index=%llu: ", (unsigned long long)seed, (unsigned long long)i) + s.text(); }
			} else if (g_sh->status == ST_INVALID) { inval++; if (invalid_msg.empty()) invalid_msg = strf("index %llu: %s", (unsigned long long)i, g_sh->msg); }
			else if (g_sh->status == ST_HARNESS) { harness++; if (harness_msg.empty()) harness_msg = strf("index %llu: %s", (unsigned long long)i, g_sh->msg); if (harness > 5) break; }
			else {
				std::string c = g_sh->cls;
				if (classes.insert(c).second && !failp.empty()) {
					std::string f = failp + strf("-%llu.scn", (unsigned long long)i);
					write_file(f, s.text());
					fails.push_back(strf("{\"index\":%llu,\"class\":%s,\"message\":%s,\"file\":%s}", (unsigned long long)i, jstr(c).c_str(), jstr(g_sh->msg).c_str(), jstr(f).c_str()));
				} else if (failp.empty()) fails.push_back(strf("{\"index\":%llu,\"class\":%s,\"message\":%s}", (unsigned long long)i, jstr(c).c_str(), jstr(g_sh->msg).c_str()));
				if (classes.size() >= 4 || fails.size() >= 20) break;
				if (opt("--stop", "1") == "1") break;
			}
		}
		std::string es;
		for (size_t e = 0; e < sizeof edges; e++) if (edges[e]) { es += strf("%zu ", e); }
		std::string j = "{";
		j += strf("\"runs\":%llu,\"ok\":%llu,\"invalid\":%llu,\"harness\":%llu,\"nontrivial\":%llu,\"simtime_us\":%llu,\"steps\":%llu,\"switches\":%llu,\"parts\":%llu,\"worst_steps\":%llu,\"last\":%llu,\"seconds\":%.3f",
			(unsigned long long)runs, (unsigned long long)ok, (unsigned long long)inval, (unsigned long long)harness, (unsigned long long)nontriv, (unsigned long long)simtime, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)parts, (unsigned long long)worst, (unsigned long long)last, now_s() - t0);
		j += ",\"harness_message\":" + jstr(harness_msg) + ",\"invalid_message\":" + jstr(invalid_msg) + ",\"sample\":" + jstr(sample) + ",\"counters\":{";
		bool first = true;
		for (auto &c : cnts) { j += strf("%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long)c.second); first = false; }
		j += "},\"logs\":[";
		first = true;
		for (auto h : logs) { j += strf("%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
		j += "],\"edges\":\"" + es + "\",\"failures\":[";
		for (size_t i = 0; i < fails.size(); i++) j += (i ? "," : "") + fails[i];
		j += "]}\n";
		write_file(out, j);
		return 0;
	}
	fprintf(stderr, "unknown mode\n");
	return 2;
}
