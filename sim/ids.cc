// C18: transaction identifiers under entropy faults. Real: message creation and the identifier
// generator in the build variant of this binary. Simulated: entropy device, UUID library, rand().
#include "agent.h"
#include <cerrno>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

// A working source whose 16-byte blocks differ in one byte only: an identifier that drops, overwrites
// or repeats any part of the entropy it was given repeats at once. Blocks count from `first`.
static void near_entropy(const Scn &s, uint64_t first) {
	int at = (int)s.geti("near", -1);
	if (at < 0) return;
	if (at > 15) invalid("near");
	Rng r((uint64_t)s.geti("rnd", 5) + 77);
	Bytes base = r.bytes(16);
	int start = (int)r.below(256), lim = at == 6 ? 16 : at == 8 ? 64 : 256;
	uint64_t pos = first * 16;
	W->entropy = [=](size_t n) mutable {
		Bytes o;
		for (size_t i = 0; i < n; i++, pos++) {
			int v = (unsigned char)base[pos % 16];
			if ((int)(pos % 16) == at) v = lim == 256 ? (int)((start + pos / 16) & 255) : (int)((start + pos / 16) % lim);
			o += (char)v;
		}
		return o;
	};
}

void load_entropy(const Scn &s) {
	for (auto &l : s.L) {
		if (l[0] == "eo" && l.size() > 1) W->ent_open.push_back(atoi(l[1].c_str()));
		if (l[0] == "ef" && l.size() > 2) W->ent_after = {atoi(l[1].c_str()), strtol(l[2].c_str(), 0, 0)};
		if (l[0] == "er" && l.size() > 2) { // er <kind> <arg> [repeat]
			long rep = l.size() > 3 ? strtol(l[3].c_str(), 0, 0) : 1;
			for (long i = 0; i < rep && W->ent_read.size() < 100000; i++) W->ent_read.push_back({atoi(l[1].c_str()), strtol(l[2].c_str(), 0, 0)});
		}
	}
}
void gen_entropy(Rng &r, Scn &s, long n) {
	int oe = r.coin() ? (int)r.below(n) : 0;
	static const int e[] = {ENOENT, EMFILE, EACCES, ENFILE, EINTR};
	bool all_open_fail = r.p(0.1);
	for (int i = 0; i < (all_open_fail ? (int)n + 50 : oe); i++) s.add({"eo", strf("%d", all_open_fail || r.p(0.3) ? e[r.below(5)] : 0)});
	int nr = (int)r.below(2 * n + 1);
	unsigned kinds = 1 + (unsigned)r.below(15);
	for (int i = 0; i < nr; i++) {
		int k = (int)r.below(4);
		if (!(kinds >> k & 1)) k = 0;
		static const int re[] = {EINTR, EAGAIN, EIO, EBADF};
		if (k == 0) s.add({"er", "0", "0"});
		else if (k == 1) s.add({"er", "1", strf("%d", (int)r.range(1, 15))});
		else if (k == 2) s.add({"er", "2", strf("%d", r.p(0.6) ? EINTR : re[r.below(4)])});
		else s.add({"er", "3", "0"});
	}
	if (r.p(0.1)) s.add({"er", "2", strf("%d", r.coin() ? EINTR : EIO), strf("%d", (int)r.range(10, 100))});
	if (r.p(0.08)) { // from then on the source is broken
		static const int fe[] = {EIO, EBADF, ENODEV};
		if (r.coin()) s.add({"ef", "3", "0"}); else s.add({"ef", "2", strf("%d", fe[r.below(3)])});
	}
}

static std::vector<Bytes> create(const Scn &s, int fill, uint64_t first = 0, bool other = false) {
	new_world(s);
	if (other) W->rnd = Rng((uint64_t)s.geti("rnd", 5) + 0x5bd1e995);
	near_entropy(s, first);
	LG.fill = fill;
	load_entropy(s);
	int taken = (int)s.geti("taken", 0); // descriptors that are in use already
	W->fd_limit = (int)s.geti("fdlimit", 1024);
	if (W->fd_limit < 4 || W->fd_limit > 1024) invalid("fdlimit");
	for (int i = 0; i < taken; i++) W->add_fd(FD_NULL, 0);
	int fds0 = W->open_fds();
	long n = s.geti("n", 10);
	int keep = (int)s.geti("keep", 0);
	std::vector<Bytes> ids;
	std::vector<sml_message *> live;
	g_step_limit = 3000000 + 100000ull * n;
	for (long i = 0; i < n; i++) {
		pollute_stack(fill);
		sml_message *m = sml_message_init();
		if (!m) violation("no-message", "sml_message_init returned NULL");
		if (!m->transaction_id) violation("no-identifier", strf("message %ld has no transaction identifier", i));
		if (m->transaction_id->len != 16 || !m->transaction_id->str) violation("identifier-length", strf("the identifier of message %ld has %d bytes", i, m->transaction_id->len));
		ids.push_back(Bytes((char *)m->transaction_id->str, 16));
		W->log.add(ids.back());
		if (W->open_fds() != fds0) violation("descriptor-leak", strf("%d descriptors open instead of %d after message %ld", W->open_fds(), fds0, i));
		if (keep) live.push_back(m); else sml_message_free(m);
	}
	for (auto *m : live) sml_message_free(m);
	return ids;
}

// The same in a process of its own, as identifiers may differ from process to process and within one.
struct Created { std::vector<Bytes> ids; uint64_t drawn, log; };
static Created create_apart(const Scn &s, int fill, uint64_t first, long n, bool other = false) {
	size_t cap = (size_t)n * 16 + 64;
	unsigned char *shm = (unsigned char *)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) harness_error("mmap");
	pid_t p = fork();
	if (p < 0) harness_error("fork");
	if (!p) {
		std::vector<Bytes> v = create(s, fill, first, other);
		uint64_t h[4] = {1, v.size(), W->ent_drawn, W->log.h};
		for (size_t i = 0; i < v.size(); i++) memcpy(shm + 64 + 16 * i, v[i].data(), 16);
		memcpy(shm, h, sizeof h);
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0) {}
	if (g_sh->status != ST_RUNNING) _exit(0); // the verdict has been written
	uint64_t h[4];
	memcpy(h, shm, sizeof h);
	if (h[0] != 1) { // it crashed, so does this run
		if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
		_exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 70);
	}
	Created c;
	for (size_t i = 0; i < h[1]; i++) c.ids.push_back(Bytes((char *)shm + 64 + 16 * i, 16));
	c.drawn = h[2];
	c.log = h[3];
	munmap(shm, cap);
	return c;
}

void exec_ids(const Scn &s) {
	long n = s.geti("n", 10);
	if (n < 1 || n > 100000) invalid("n");
	bool near = !s.get("near").empty();
	new_world(s);
	Created B = create_apart(s, 0xee, 0, n), C;
	bool works = !near && s.get("fdlimit").empty(); // the source works throughout, slowly perhaps
	for (auto &l : s.L) if (l[0] == "eo" || l[0] == "ef" || (l[0] == "er" && l.size() > 2 && l[1] != "0" && l[1] != "1" && !(l[1] == "2" && atoi(l[2].c_str()) == EINTR))) works = false;
	if (works) C = create_apart(s, 0x11, 0, n, true);
	if (near) C = create_apart(s, 0x11, (uint64_t)n, n);
	std::vector<Bytes> a = create(s, 0x11), &b = B.ids, &c = C.ids;
	W->log.addn(B.log);
	// Same entropy outcomes, other garbage in stack and heap: any difference is uninitialised memory.
	for (size_t i = 0; i < a.size(); i++)
		if (a[i] != b[i]) violation("uninitialised", strf("identifier %zu depends on uninitialised memory: %s or %s", i, hex(a[i]).c_str(), hex(b[i]).c_str()));
	std::set<Bytes> seen;
	bool spent = near && W->ent_drawn > 16 * (uint64_t)n;
	for (size_t i = 0; i < a.size() && !spent; i++)
		if (!seen.insert(a[i]).second) {
			size_t k = 0;
			while (a[k] != a[i]) k++;
			violation("identifier-repeated", strf("messages %zu and %zu both got %s", k, i, hex(a[i]).c_str()));
		}
	if (near) { // another process, another part of the entropy, everything else alike
		bool plain = !spent && C.drawn <= 16 * (uint64_t)n; // whoever draws more than needed sees the blocks out of step
		W->log.addn(C.log);
		if (plain) for (size_t i = 0; i < c.size(); i++)
			if (!seen.insert(c[i]).second) violation("identifier-repeated", strf("message %zu of a second process got %s, which the first one used or which it used itself", i, hex(c[i]).c_str()));
		count("probe-near-entropy");
	}
	if (works) { // another process that gets other output from the source
		W->log.addn(C.log);
		for (size_t i = 0; i < c.size(); i++)
			if (!seen.insert(c[i]).second) violation("identifier-repeated", strf("message %zu of a second process got %s, though the source gave each process something else", i, hex(c[i]).c_str()));
		count("probe-two-processes");
	}
	g_sh->parts += a.size();
	g_sh->nontrivial = a.size() > 1;
	if (W->ent_read_i || W->ent_open_i) count("probe-entropy-device-used");
}

Scn gen_ids(Rng &r) {
	Scn s;
	s.add({"prop", "C18"});
	s.add({"kind", "ids"});
	s.add({"rnd", strf("%d", (int)r.below(1000000000))});
	if (r.p(0.15)) {
		int at = (int)r.below(16);
		s.add({"near", strf("%d", at)});
		s.add({"n", strf("%d", (int)r.range(2, at == 6 ? 8 : at == 8 ? 32 : 120))});
		if (r.coin()) s.add({"keep", "1"});
		if (r.p(0.4)) for (int k = 1 + (int)r.below(20); k > 0; k--) {
			if (r.p(0.3)) s.add({"er", "0", "0"});
			else if (r.p(0.2)) s.add({"er", "2", strf("%d", EINTR)});
			else s.add({"er", "1", strf("%d", r.p(0.3) ? 15 : (int)r.range(1, 15))});
		}
		return s;
	}
	long n = r.p(0.002) ? r.range(65530, 70000) : r.p(0.03) ? r.range(500, 3000) : r.p(0.1) ? r.range(200, 600) : r.range(2, 40);
	s.add({"n", strf("%ld", n)});
	if (r.coin()) s.add({"keep", "1"});
	if (r.p(0.25)) { // a nearly full descriptor table
		int lim = (int)r.range(4, 40);
		s.add({"fdlimit", strf("%d", lim)});
		s.add({"taken", strf("%d", (int)r.range(0, lim))});
	}
	if (n > 60000 && r.p(0.7)) { // an entropy source that never works
		static const int fe[] = {EIO, EBADF, ENODEV};
		if (r.coin()) s.add({"ef", "3", "0"}); else s.add({"ef", "2", strf("%d", fe[r.below(3)])});
		return s;
	}
	if (r.p(0.25)) return s;
	gen_entropy(r, s, n);
	return s;
}
