#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cmath>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

Shared *g_sh;
World *W;
Ledger LG;
bool g_trace;
int g_exit_code;
uint64_t g_steps, g_step_limit = ~0ull;
const char *g_step_what = "work";
static uint32_t g_quantum;
static void sched_preempt();
static bool g_mt;

void tracef(const char *fmt, ...) {
	if (!g_trace) return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
}
static void finish(int st, const std::string &cls, const std::string &msg) {
	g_sh->status = st;
	snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls.c_str());
	snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
	if (W) { g_sh->loghash = W->log.h; g_sh->simtime += W->now; }
	g_sh->steps = g_steps;
	_exit(st == ST_OK ? 0 : 10 + st);
}
void violation(const std::string &cls, const std::string &msg) { finish(ST_VIOLATION, cls, msg); abort(); }
void invalid(const std::string &msg) { finish(ST_INVALID, "invalid", msg); abort(); }
void harness_error(const std::string &msg) { finish(ST_HARNESS, "harness", msg); abort(); }
void count(const char *name, uint64_t n) {
	for (int i = 0; i < g_sh->ncounters; i++)
		if (!strcmp(g_sh->counters[i].name, name)) { g_sh->counters[i].n += n; return; }
	if (g_sh->ncounters < 128) {
		Counter &c = g_sh->counters[g_sh->ncounters++];
		snprintf(c.name, sizeof c.name, "%s", name);
		c.n = n;
	}
}

// ------------------------------------------------------------------ instrumentation callbacks
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t n;
	if (a == b || *a) return;
	for (uint32_t *p = a; p < b; p++) *p = ++n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (g_sh && *g < sizeof g_sh->edges) g_sh->edges[*g] = 1;
	if (++g_steps > g_step_limit) violation("hang", strf("more than %llu basic blocks executed (%s)", (unsigned long long)g_step_limit, g_step_what));
	if (g_quantum && --g_quantum == 0) sched_preempt();
}
// Loads and stores of the library (build variant "threads" only): every access outside the stack is a
// point where the scheduler may switch; accesses to static variables get a probability of their own.
extern char __data_start, _end;
static int g_gp;
static Rng g_grng{1};
static void mem_access(const void *p, const char *frame) {
	if (!g_quantum) return;
	const char *c = (const char *)p;
	if (c >= &__data_start && c < &_end) {
		if (g_gp && (int)g_grng.below(100) < g_gp) { count("sched-static-access"); sched_preempt(); return; }
	} else if (c > frame - 4096 && c < frame + 400000) return;
	if (--g_quantum == 0) sched_preempt();
}
#define ACC(n, t) \
	extern "C" void __sanitizer_cov_load##n(t *p) { mem_access(p, (char *)__builtin_frame_address(0)); } \
	extern "C" void __sanitizer_cov_store##n(t *p) { mem_access(p, (char *)__builtin_frame_address(0)); }
ACC(1, uint8_t) ACC(2, uint16_t) ACC(4, uint32_t) ACC(8, uint64_t) ACC(16, __int128)
__attribute__((noinline)) void pollute_stack(int byte) {
	g_dirt = (unsigned char)byte;
	volatile unsigned char b[24000];
	for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)byte;
	asm volatile("" ::: "memory");
}

// ------------------------------------------------------------------ lines and the clock
size_t Line::arrived(int64_t now) const {
	auto it = std::upper_bound(arr.begin(), arr.end(), now, [](int64_t t, const std::pair<int64_t, size_t> &x) { return t < x.first; });
	size_t a = it == arr.begin() ? 0 : (it - 1)->second;
	return a > data.size() ? data.size() : a;
}
int64_t Line::next_event(int64_t now) const {
	auto it = std::upper_bound(arr.begin(), arr.end(), now, [](int64_t t, const std::pair<int64_t, size_t> &x) { return t < x.first; });
	if (it != arr.end()) return it->first;
	if (end && end_time > now) return end_time;
	return -1;
}
int World::open_fds() const {
	int n = 0;
	for (auto &f : fds) n += f.type != FD_FREE;
	return n;
}
int World::add_fd(FdType t, int flags, Line *l, Sink *s, Tty *y, int min) {
	for (int i = min < 0 ? fd_base : min; i < fd_limit && i < 1024; i++)
		if (fds[i].type == FD_FREE) { fds[i] = SFd(); fds[i].type = t; fds[i].flags = flags; fds[i].line = l; fds[i].sink = s; fds[i].tty = y; return i; }
	return -1;
}
void World::log_ev(int kind, int64_t a, int64_t b) {
	log.addn((uint64_t)kind << 32 | (uint32_t)current_thread());
	log.addn(a);
	log.addn(b);
	tracef("  t=%-10lld thr=%d ev=%d a=%lld b=%lld\n", (long long)now, current_thread(), kind, (long long)a, (long long)b);
}
enum { EV_SEL = 1, EV_READ, EV_WRITE, EV_OPEN, EV_CLOSE, EV_JUMP, EV_PREEMPT, EV_IOCTL, EV_ENT, EV_EXIT, EV_STUCK };

static jmp_buf g_jmp;
static bool g_jmp_set;
static RunEnd g_end;
extern "C" void __asan_handle_no_return(void) __attribute__((weak));
RunEnd run_guarded(const std::function<void()> &f) {
	g_end = END_RETURN;
	if (setjmp(g_jmp) == 0) {
		g_jmp_set = true;
		f();
	}
	g_jmp_set = false;
	return g_end;
}
[[noreturn]] static void leave(RunEnd e) {
	if (!g_jmp_set || g_mt) violation("unexpected-end", e == END_EXIT ? "the program called exit" : "everything waits for ever");
	g_end = e;
	if (__asan_handle_no_return) __asan_handle_no_return();
	longjmp(g_jmp, 1);
}

// ------------------------------------------------------------------ threads
struct Thr {
	pthread_t th;
	sem_t sem;
	std::function<void()> body;
	bool done = false;
	std::function<bool()> wait; // empty: runnable
	int64_t deadline = -1;
};
static std::vector<Thr *> g_thr;
static int g_cur;
static std::vector<Slice> g_slices;
static size_t g_slice_i;
static uint32_t g_dflt;
static sem_t g_main_sem;
int current_thread() { return g_mt ? g_cur : 0; }

static bool runnable(Thr *t) {
	if (t->done) return false;
	if (!t->wait) return true;
	if (t->wait()) return true;
	return t->deadline >= 0 && W->now >= t->deadline;
}
static int64_t next_event_all(int64_t dl) {
	int64_t best = dl > W->now ? dl : -1;
	for (auto &f : W->fds)
		if (f.type != FD_FREE && f.line) {
			int64_t e = f.line->next_event(W->now);
			if (e >= 0 && (best < 0 || e < best)) best = e;
		}
	return best;
}
static void give_to(int t) {
	int me = g_cur;
	if (t == me) return;
	g_sh->switches++;
	g_cur = t;
	sem_post(&g_thr[t]->sem);
	while (sem_wait(&g_thr[me]->sem)) {}
}
static void set_quantum() {
	if (g_slice_i < g_slices.size()) g_quantum = g_slices[g_slice_i].quantum; else g_quantum = g_dflt;
	if (!g_quantum) g_quantum = 1;
}
static int pick_next(int want) {
	int n = (int)g_thr.size();
	for (int k = 0; k < n; k++) {
		int t = (want + k) % n;
		if (runnable(g_thr[t])) return t;
	}
	return -1;
}
static void sched_preempt() {
	int want;
	if (g_slice_i < g_slices.size()) want = g_slices[g_slice_i++].thread; else want = g_cur + 1;
	int t = pick_next(((want % (int)g_thr.size()) + (int)g_thr.size()) % (int)g_thr.size());
	set_quantum();
	if (t < 0) t = g_cur;
	if (t != g_cur) { W->log_ev(EV_PREEMPT, t, g_steps); count("sched-preempt"); }
	give_to(t);
}
// Wait until cond holds or the deadline (absolute, -1 none) passes.
static void block_until(const std::function<bool()> &cond, int64_t deadline = -1) {
	if (!g_mt) {
		while (!cond() && !(deadline >= 0 && W->now >= deadline)) {
			W->block_count++;
			if (W->on_block) W->on_block();
			int64_t e = next_event_all(deadline);
			if (e < 0) { W->log_ev(EV_STUCK, 0); leave(END_STUCK); }
			if (e != deadline || e - W->now >= 1000) W->spin = 0;
			W->now = e;
			W->log_ev(EV_JUMP, e);
		}
		return;
	}
	Thr *me = g_thr[g_cur];
	while (!cond() && !(deadline >= 0 && W->now >= deadline)) {
		me->wait = cond;
		me->deadline = deadline;
		int t = pick_next((g_cur + 1) % (int)g_thr.size());
		if (t < 0) {
			int64_t dl = -1;
			for (auto *x : g_thr) if (!x->done && x->deadline > W->now && (dl < 0 || x->deadline < dl)) dl = x->deadline;
			int64_t e = next_event_all(dl);
			if (e < 0) violation("deadlock", "all threads wait for ever");
			W->now = e;
			W->spin = 0;
			W->log_ev(EV_JUMP, e);
			me->wait = nullptr;
			continue;
		}
		if (t != g_cur) { count("sched-block-switch"); set_quantum(); give_to(t); }
		me->wait = nullptr;
	}
	me->wait = nullptr;
	me->deadline = -1;
}
static void *thr_main(void *p) {
	Thr *t = (Thr *)p;
	while (sem_wait(&t->sem)) {}
	t->body();
	t->done = true;
	int n = pick_next((g_cur + 1) % (int)g_thr.size());
	while (n < 0) {
		bool left = false;
		int64_t dl = -1;
		for (auto *x : g_thr) if (!x->done) { left = true; if (x->deadline > W->now && (dl < 0 || x->deadline < dl)) dl = x->deadline; }
		if (!left) { g_quantum = 0; sem_post(&g_main_sem); return 0; }
		int64_t e = next_event_all(dl);
		if (e < 0) violation("deadlock", "all remaining threads wait for ever");
		W->now = e;
		n = pick_next((g_cur + 1) % (int)g_thr.size());
	}
	g_cur = n;
	g_sh->switches++;
	set_quantum();
	sem_post(&g_thr[n]->sem);
	return 0;
}
void run_threads(std::vector<std::function<void()>> bodies, const std::vector<Slice> &slices, uint32_t dflt, int static_percent, uint64_t seed) {
	g_thr.clear();
	g_gp = static_percent;
	g_grng = Rng(seed);
	g_slices = slices;
	g_slice_i = 0;
	g_dflt = dflt;
	sem_init(&g_main_sem, 0, 0);
	for (auto &b : bodies) {
		Thr *t = new Thr;
		t->body = b;
		sem_init(&t->sem, 0, 0);
		g_thr.push_back(t);
	}
	g_mt = true;
	g_cur = 0;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 4 << 20);
	for (auto *t : g_thr) if (pthread_create(&t->th, &at, thr_main, t)) harness_error("pthread_create");
	set_quantum();
	sem_post(&g_thr[0]->sem);
	while (sem_wait(&g_main_sem)) {}
	for (auto *t : g_thr) pthread_join(t->th, 0);
	g_quantum = 0;
	g_mt = false;
	g_cur = 0;
}

// ------------------------------------------------------------------ serial port line discipline
static void tty_feed(SFd &f) {
	Tty &t = *f.tty;
	Line &l = *f.line;
	size_t a = l.arrived(W->now);
	tcflag_t i = t.tio.c_iflag, lf = t.tio.c_lflag, cf = t.tio.c_cflag;
	auto cc = [&](int k) { return (int)t.tio.c_cc[k]; };
	for (; t.fed < a; t.fed++) {
		int c = (unsigned char)l.data[t.fed];
		if (!(cf & CREAD)) continue;
		if (cfgetispeed(&t.tio) != B9600 || (cf & PARENB)) c ^= 0x55; // garbage at another speed or with parity
		switch (cf & CSIZE) { case CS5: c &= 0x1f; break; case CS6: c &= 0x3f; break; case CS7: c &= 0x7f; break; }
		if (i & ISTRIP) c &= 0x7f;
		if ((i & IUCLC) && (lf & IEXTEN) && c >= 'A' && c <= 'Z') c += 32;
		bool lit = t.lnext;
		t.lnext = false;
		if (!lit) {
			if (i & IXON) { if (c == cc(VSTOP) || c == cc(VSTART)) continue; }
			if ((lf & ISIG) && (c == cc(VINTR) || c == cc(VQUIT) || c == cc(VSUSP)) && c) continue;
			if (c == '\r') { if (i & IGNCR) continue; if (i & ICRNL) c = '\n'; }
			else if (c == '\n' && (i & INLCR)) c = '\r';
			if ((lf & IEXTEN) && (lf & ICANON) && c == cc(VLNEXT)) { t.lnext = true; continue; }
		}
		Bytes put(1, (char)c);
		if ((i & PARMRK) && !(i & ISTRIP) && c == 0xff) put = "\xff\xff";
		if ((lf & ECHO) || ((lf & ECHONL) && (lf & ICANON) && c == '\n')) t.echoed += put;
		if (lf & ICANON) {
			if (!lit && c == cc(VERASE)) { if (!t.canon.empty()) t.canon.pop_back(); continue; }
			if (!lit && c == cc(VKILL)) { t.canon.clear(); continue; }
			if (!lit && c == cc(VEOF)) { t.ready += t.canon; t.canon.clear(); continue; }
			t.canon += put;
			if (c == '\n' || c == cc(VEOL)) { t.ready += t.canon; t.canon.clear(); }
		} else t.ready += put;
	}
	if (!(lf & ICANON) && !t.canon.empty()) { t.ready += t.canon; t.canon.clear(); }
}
static size_t avail(SFd &f) {
	if (f.type == FD_TTY) { tty_feed(f); return f.tty->ready.size(); }
	return f.line->arrived(W->now) - f.line->pos;
}
static bool readable(SFd &f) {
	switch (f.type) {
	case FD_LINE: return avail(f) > 0 || f.line->ended(W->now);
	case FD_TTY: {
		size_t a = avail(f);
		if (f.line->ended(W->now)) return true;
		size_t need = 1;
		if (!(f.tty->tio.c_lflag & ICANON) && f.tty->tio.c_cc[VTIME] == 0 && f.tty->tio.c_cc[VMIN] > 1) need = f.tty->tio.c_cc[VMIN];
		return a >= need;
	}
	case FD_RANDOM: case FD_NULL: return true;
	default: return false;
	}
}
static SFd *getfd(int fd) {
	if (fd < 0 || fd >= 1024 || W->fds[fd].type == FD_FREE) return nullptr;
	return &W->fds[fd];
}
static Fault *next_fault(Line *l, Call c) {
	size_t &i = l->next_fault[c];
	while (i < l->faults.size() && (l->faults[i].fired || l->faults[i].call != c)) i++;
	if (i == l->faults.size()) return nullptr;
	return l->pos >= l->faults[i].off ? &l->faults[i] : nullptr;
}
static void fire(Fault *f) {
	f->fired = true;
	static const char *k[] = {"eintr", "eagain", "spurious", "short", "slow"};
	count(strf("fault-%s-%s", f->call == C_SEL ? "select" : "read", k[f->kind]).c_str());
}
static void spin_tick() {
	if (++W->spin > W->spin_limit) violation("spin", strf("%d descriptor calls without any progress", W->spin));
}
static void after_end(SFd &f) {
	Line *l = f.line;
	if (l->end_seen && ++l->calls_after_end > 60) violation("end-not-honoured", "keeps using the descriptor after its end was reported");
}
// When a wait of this length ends. Code that wakes up again and again while nothing happens is held up
// until the next event once it has done so often enough (a wait may always take longer than asked for).
static int64_t wait_deadline(int64_t timeout) {
	if (timeout < 1000) return timeout < 0 ? -1 : W->now + timeout;
	if (W->naps < 1000 || g_mt) return W->now + timeout;
	int64_t e = next_event_all(-1);
	if (e < 0) return -1; // ready now, or never
	return e > W->now + timeout ? e : W->now + timeout;
}
static void timed_out() {
	W->naps++;
	if (g_step_limit != ~0ull) g_step_limit += 300;
}
// readiness of a set of descriptors with the select-side faults; -1 EINTR, 0 not ready, 1 ready
static int poll_ready(SFd *f) {
	if (f->line) {
		after_end(*f);
		Fault *x = next_fault(f->line, C_SEL);
		if (x && x->kind == F_EINTR) { fire(x); return -1; }
		if (x && x->kind == F_SPUR && !readable(*f)) { fire(x); return 1; }
	}
	return readable(*f);
}

static int do_select(int nfds, fd_set *r, fd_set *w, fd_set *e, int64_t timeout) {
	W->sel_calls++;
	spin_tick();
	fd_set in;
	FD_ZERO(&in);
	if (r) in = *r;
	int64_t dl = wait_deadline(timeout);
	bool eintr = false;
	auto scan = [&](fd_set *out) {
		int n = 0;
		FD_ZERO(out);
		for (int i = 0; i < nfds && i < 1024; i++) {
			if (!FD_ISSET(i, &in)) continue;
			SFd *f = getfd(i);
			if (!f) continue;
			int x = poll_ready(f);
			if (x < 0) { eintr = true; return 0; }
			if (x) { FD_SET(i, out); n++; }
		}
		return n;
	};
	for (int i = 0; i < nfds && i < 1024; i++)
		if (FD_ISSET(i, &in)) {
			SFd *f = getfd(i);
			if (!f || (f->line && f->line->end == 2 && f->line->end_errno == EBADF && f->line->ended(W->now) && avail(*f) == 0)) {
				if (f && f->line) { after_end(*f); f->line->end_seen = true; }
				W->log_ev(EV_SEL, -EBADF);
				errno = EBADF;
				return -1;
			}
		}
	int n = 0;
	fd_set got;
	FD_ZERO(&got);
	block_until([&]() { n = scan(&got); return eintr || n > 0; }, dl);
	if (eintr) { W->log_ev(EV_SEL, -EINTR); errno = EINTR; return -1; }
	if (!n && timeout >= 1000) timed_out();
	int wn = 0;
	if (w) for (int i = 0; i < nfds && i < 1024; i++) wn += FD_ISSET(i, w) ? 1 : 0;
	if (r) *r = got;
	if (e) FD_ZERO(e);
	W->log_ev(EV_SEL, n + wn);
	return n + wn;
}

extern "C" {
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	return do_select(n, r, w, e, tv ? tv->tv_sec * 1000000ll + tv->tv_usec : -1);
}
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
	return do_select(n, r, w, e, ts ? ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 : -1);
}
static int do_poll(struct pollfd *p, nfds_t n, int64_t timeout) {
	W->sel_calls++;
	spin_tick();
	int64_t dl = wait_deadline(timeout);
	bool eintr = false;
	int cnt = 0;
	block_until([&]() {
		cnt = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			if (p[i].fd < 0) continue;
			SFd *f = getfd(p[i].fd);
			if (!f) { p[i].revents = POLLNVAL; cnt++; continue; }
			short rv = 0;
			if (p[i].events & POLLIN) {
				int x = poll_ready(f);
				if (x < 0) { eintr = true; return true; }
				if (x) rv |= POLLIN;
				if (f->line && f->line->ended(W->now)) rv |= f->line->end == 1 ? POLLHUP : POLLERR | POLLHUP; // also while data is left
			}
			if (p[i].events & POLLOUT) rv |= POLLOUT;
			p[i].revents = rv;
			if (rv) cnt++;
		}
		return cnt > 0;
	}, dl);
	if (eintr) { W->log_ev(EV_SEL, -EINTR); errno = EINTR; return -1; }
	if (!cnt && timeout >= 1000) timed_out();
	W->log_ev(EV_SEL, cnt);
	return cnt;
}
int sim_poll(struct pollfd *p, nfds_t n, int ms) { return do_poll(p, n, ms < 0 ? -1 : ms * 1000ll); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) {
	return do_poll(p, n, ts ? ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 : -1);
}

static Bytes entropy_bytes(size_t n) { W->ent_drawn += n; return W->entropy ? W->entropy(n) : W->rnd.bytes(n); }
ssize_t sim_read(int fd, void *buf, size_t n) {
	SFd *f = getfd(fd);
	W->read_calls++;
	if (!f) { W->log_ev(EV_READ, -EBADF); errno = EBADF; return -1; }
	if (f->type == FD_RANDOM) {
		EntropyOutcome o = W->ent_after;
		if (W->ent_read_i < W->ent_read.size()) o = W->ent_read[W->ent_read_i++];
		size_t k = n;
		if (o.kind == 2) { count(strf("fault-entropy-errno-%ld", o.arg).c_str()); errno = (int)o.arg; W->log_ev(EV_ENT, -o.arg); return -1; }
		if (o.kind == 3) { count("fault-entropy-eof"); W->log_ev(EV_ENT, 0); return 0; }
		if (o.kind == 1 && (size_t)o.arg < n) { k = o.arg; count("fault-entropy-short"); }
		Bytes b = entropy_bytes(k);
		memcpy(buf, b.data(), k);
		W->log_ev(EV_ENT, k);
		return k;
	}
	if (f->type == FD_NULL) return 0;
	if (f->type != FD_LINE && f->type != FD_TTY) { W->log_ev(EV_READ, -EBADF); errno = EBADF; return -1; }
	Line *l = f->line;
	spin_tick();
	after_end(*f);
	if (n == 0) return 0;
	bool gone = l->end == 2 && l->end_errno == EBADF && l->ended(W->now) && avail(*f) == 0;
	Fault *x = gone || l->end_seen ? nullptr : next_fault(l, C_READ); // an end is no transient condition
	long lim = -1;
	if (x) {
		if (x->kind == F_EINTR) { fire(x); W->log_ev(EV_READ, -EINTR); errno = EINTR; return -1; }
		if (x->kind == F_EAGAIN && (f->flags & O_NONBLOCK)) { fire(x); W->log_ev(EV_READ, -EAGAIN); errno = EAGAIN; return -1; }
		if (x->kind == F_EAGAIN) x->fired = true; // does not happen on a blocking descriptor
		if (x->kind == F_SHORT && n > 1) { fire(x); lim = x->arg < 1 ? 1 : x->arg; }
	}
	if (avail(*f) == 0 && !l->ended(W->now)) {
		if (f->type == FD_TTY && !(f->tty->tio.c_lflag & ICANON) && f->tty->tio.c_cc[VMIN] == 0 && f->tty->tio.c_cc[VTIME] == 0) {
			W->log_ev(EV_READ, 0);
			return 0; // polling read: "no data" looks like the end of the file
		}
		if (f->flags & O_NONBLOCK) { count("read-would-block"); W->log_ev(EV_READ, -EAGAIN); errno = EAGAIN; return -1; }
		block_until([&]() { return avail(*f) > 0 || l->ended(W->now); });
	}
	size_t a = avail(*f);
	if (a == 0) {
		l->end_seen = true;
		Bytes more;
		more.swap(l->revive);
		if (!more.empty()) { // the error was reported once, or somebody appended to the file
			count("fault-line-revived");
			l->data += more;
			l->arr.push_back({W->now, l->data.size()});
		}
		if (l->end == 2) { W->log_ev(EV_READ, -l->end_errno); errno = l->end_errno; return -1; }
		W->log_ev(EV_READ, 0);
		return 0;
	}
	size_t k = n < a ? n : a;
	if (lim > 0 && (size_t)lim < k) k = lim;
	if (f->type == FD_TTY) {
		memcpy(buf, f->tty->ready.data(), k);
		f->tty->ready.erase(0, k);
	} else memcpy(buf, l->data.data() + l->pos, k);
	l->pos += k;
	W->spin = 0;
	W->log_ev(EV_READ, k);
	return k;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t) { (void)fd; (void)b; (void)n; errno = ESPIPE; return -1; }
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
	if (c < 1) return 0;
	return sim_read(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t sim_recv(int fd, void *b, size_t n, int flags) { (void)flags; return sim_read(fd, b, n); }

static void out_write(const char *p, size_t n);
ssize_t sim_write(int fd, const void *buf, size_t n) {
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	volatile unsigned char touch = 0;
	for (size_t i = 0; i < n; i++) touch ^= ((const unsigned char *)buf)[i];
	if (f->type == FD_STDOUT) { W->out.visible.append((const char *)buf, n); return n; }
	if (f->type == FD_STDERR) { W->err.append((const char *)buf, n); return n; }
	if (f->type == FD_TTY || f->type == FD_NULL) return n;
	if (f->type != FD_SINK) { errno = EBADF; return -1; }
	Sink *s = f->sink;
	s->calls++;
	if (s->calls > 100000) violation("spin", "write called 100000 times");
	WOutcome o{0, 0};
	if (s->next < s->script.size()) o = s->script[s->next++];
	if (o.kind == 2) { count(strf("fault-write-errno-%ld", o.arg).c_str()); W->log_ev(EV_WRITE, -o.arg); errno = (int)o.arg; return -1; }
	size_t k = n;
	if (o.kind == 1 && (size_t)o.arg < n) { k = o.arg; count("fault-write-short"); }
	s->accepted.append((const char *)buf, k);
	W->log_ev(EV_WRITE, k);
	return k;
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
	Bytes b;
	for (int i = 0; i < c; i++) b.append((const char *)v[i].iov_base, v[i].iov_len);
	return sim_write(fd, b.data(), b.size());
}
ssize_t sim_send(int fd, const void *b, size_t n, int flags) { (void)flags; return sim_write(fd, b, n); }

int sim_open(const char *path, int flags, ...) {
	W->log_ev(EV_OPEN, flags);
	if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
		int e = 0;
		if (W->ent_open_i < W->ent_open.size()) e = W->ent_open[W->ent_open_i++];
		if (e) { count(strf("fault-entropy-open-%d", e).c_str()); errno = e; return -1; }
		int fd = W->add_fd(FD_RANDOM, flags);
		if (fd < 0) { count("fault-fd-table-full"); errno = EMFILE; }
		return fd;
	}
	if (!strcmp(path, "/dev/null")) {
		int fd = W->add_fd(FD_NULL, flags);
		if (fd < 0) errno = EMFILE;
		return fd;
	}
	for (auto &d : W->devs)
		if (d.path == path) {
			d.opens++;
			if (d.open_errno) { count("fault-open-failed"); errno = d.open_errno; return -1; }
			int fd = W->add_fd(d.type, flags, d.line, nullptr, d.tty);
			if (fd < 0) errno = EMFILE;
			return fd;
		}
	errno = ENOENT;
	return -1;
}
int sim_openat(int, const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_close(int fd) {
	SFd *f = getfd(fd);
	W->log_ev(EV_CLOSE, fd);
	if (!f) { count("close-of-closed"); errno = EBADF; return -1; }
	*f = SFd();
	return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	switch (cmd) {
	case F_GETFL: return f->flags;
	case F_SETFL: f->flags = (int)arg; return 0;
	case F_GETFD: case F_SETFD: return 0;
	}
	errno = EINVAL;
	return -1;
}
int sim_isatty(int fd) {
	SFd *f = getfd(fd);
	if (f && f->type == FD_TTY) return 1;
	errno = ENOTTY;
	return 0;
}
int sim_tcgetattr(int fd, struct termios *t) {
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->type != FD_TTY) { errno = ENOTTY; return -1; }
	if (f->tty->attr_errno) { errno = f->tty->attr_errno; return -1; }
	*t = f->tty->tio;
	return 0;
}
int sim_tcsetattr(int fd, int, const struct termios *t) {
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->type != FD_TTY) { errno = ENOTTY; return -1; }
	tty_feed(*f);
	f->tty->tio = *t;
	f->tty->tcsetattr_calls++;
	Hash h;
	h.add(t, sizeof(tcflag_t) * 4);
	W->log_ev(EV_IOCTL, h.h);
	return 0;
}
int sim_tcflush(int fd, int q) {
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	if (f->type != FD_TTY) { errno = ENOTTY; return -1; }
	if (q == TCIFLUSH || q == TCIOFLUSH) { tty_feed(*f); f->tty->ready.clear(); f->tty->canon.clear(); }
	return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	W->log_ev(EV_IOCTL, (int64_t)req);
	if (req == FIONREAD && f->line) { *(int *)arg = (int)avail(*f); return 0; }
	if (f->type != FD_TTY) { errno = ENOTTY; return -1; }
	Tty *t = f->tty;
	if (t->modem_errno && (req == TIOCMGET || req == TIOCMSET || req == TIOCMBIS || req == TIOCMBIC)) { errno = t->modem_errno; return -1; }
	switch (req) {
	case TIOCMGET: *(int *)arg = t->modem; return 0;
	case TIOCMSET: t->modem = *(int *)arg; return 0;
	case TIOCMBIS: t->modem |= *(int *)arg; return 0;
	case TIOCMBIC: t->modem &= ~*(int *)arg; return 0;
	case TIOCEXCL: case TIOCNXCL: return 0;
	}
	errno = EINVAL;
	return -1;
}
int sim_fstat(int fd, struct stat *st) {
	SFd *f = getfd(fd);
	if (!f) { errno = EBADF; return -1; }
	memset(st, 0, sizeof *st);
	st->st_mode = f->type == FD_TTY || f->type == FD_RANDOM ? S_IFCHR | 0600 : S_IFIFO | 0600;
	return 0;
}

// ------------------------------------------------------------------ memory
static void *ledger_new(size_t n, bool zero) {
	if (LG.fail_at && (++LG.tried == LG.fail_at || (LG.fail_on && LG.tried > LG.fail_at))) {
		LG.refused++;
		count("fault-no-memory");
		errno = ENOMEM;
		return nullptr;
	}
	if (n > (1ull << 28) || LG.bytes + n > (1ull << 29)) violation("memory-exhausted", strf("allocation of %zu bytes while %llu are held", n, (unsigned long long)LG.bytes));
	void *p = malloc(n ? n : 1);
	if (!p) harness_error("out of memory");
	memset(p, zero ? 0 : LG.fill, n ? n : 1);
	LG.live[p] = n;
	LG.bytes += n;
	LG.total += n;
	LG.calls++;
	if (LG.bytes > LG.peak) LG.peak = LG.bytes;
	return p;
}
void *sim_malloc(size_t n) { return ledger_new(n, false); }
void *sim_calloc(size_t a, size_t b) { return ledger_new(a * b, true); }
void sim_free(void *p) {
	if (!p) return;
	auto it = LG.live.find(p);
	if (it == LG.live.end()) violation("bad-free", "free of a pointer that is not allocated");
	LG.bytes -= it->second;
	memset(p, 0xDF, it->second);
	LG.live.erase(it);
	free(p);
}
void *sim_realloc(void *p, size_t n) { // always moves
	if (!p) return sim_malloc(n);
	auto it = LG.live.find(p);
	if (it == LG.live.end()) violation("bad-free", "realloc of a pointer that is not allocated");
	if (!n) { sim_free(p); return nullptr; }
	size_t o = it->second;
	void *q = ledger_new(n, false);
	if (!q) return nullptr;
	memcpy(q, p, o < n ? o : n);
	sim_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)sim_malloc(n + 1); if (r) memcpy(r, s, n), r[n] = 0; return r; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void **p, size_t, size_t n) { *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
int sim_vasprintf(char **o, const char *fmt, va_list ap) {
	char *t = nullptr;
	int n = vasprintf(&t, fmt, ap);
	if (n >= 0) { *o = sim_strdup(t); free(t); }
	return n;
}
int sim_asprintf(char **o, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vasprintf(o, fmt, ap);
	va_end(ap);
	return n;
}

// ------------------------------------------------------------------ standard streams
static void out_flush() { W->out.visible += W->out.pending; W->out.pending.clear(); }
static void out_write(const char *p, size_t n) {
	Out &o = W->out;
	o.pending.append(p, n);
	if (o.mode == 2) out_flush();
	else if (o.mode == 1) {
		size_t k = o.pending.rfind('\n');
		if (k != Bytes::npos) { o.visible += o.pending.substr(0, k + 1); o.pending.erase(0, k + 1); }
	}
	while (o.pending.size() > o.cap) { o.visible += o.pending.substr(0, o.cap); o.pending.erase(0, o.cap); }
}
// streams on simulated descriptors, with the buffering of stdio
struct SimFile { int fd; bool eof = false, err = false, nobuf = false; Bytes buf; };
static std::unordered_map<void *, SimFile *> g_files;
static SimFile *simfile(FILE *f) { auto i = g_files.find(f); return i == g_files.end() ? nullptr : i->second; }
static void f_write(FILE *f, const char *p, size_t n) {
	if (SimFile *s = simfile(f)) { sim_write(s->fd, p, n); return; }
	if (f == stdout) out_write(p, n);
	else if (f == stderr) { W->err.append(p, n); if (W->err.size() > 1u << 20) W->err.erase(0, W->err.size() / 2); }
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
	char *t = nullptr;
	int n = vasprintf(&t, fmt, ap);
	if (n >= 0) { f_write(f, t, n); free(t); }
	return n;
}
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	char *t = nullptr;
	int n = vasprintf(&t, fmt, ap);
	va_end(ap);
	if (n >= 0) { sim_write(fd, t, n); free(t); }
	return n;
}
int sim_puts(const char *s) { f_write(stdout, s, strlen(s)); f_write(stdout, "\n", 1); return 1; }
int sim_fputs(const char *s, FILE *f) { f_write(f, s, strlen(s)); return 1; }
int sim_putchar(int c) { char x = (char)c; f_write(stdout, &x, 1); return c; }
int sim_fputc(int c, FILE *f) { char x = (char)c; f_write(f, &x, 1); return c; }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { f_write(f, (const char *)p, a * b); return b; }
int sim_fflush(FILE *f) { if (!f || f == stdout) out_flush(); return 0; }
FILE *sim_fdopen(int fd, const char *) {
	if (!getfd(fd)) { errno = EBADF; return nullptr; }
	SimFile *s = new SimFile{fd};
	g_files[s] = s;
	return (FILE *)s;
}
FILE *sim_fopen(const char *path, const char *mode) {
	int fd = sim_open(path, strchr(mode, '+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY);
	return fd < 0 ? nullptr : sim_fdopen(fd, mode);
}
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) {
	SimFile *s = simfile(f);
	if (!s || !a) return 0;
	size_t want = a * b, got = 0;
	while (got < want) {
		if (s->buf.empty()) {
			static char t[4096];
			ssize_t n = sim_read(s->fd, t, s->nobuf ? want - got : sizeof t);
			if (n == 0) { s->eof = true; break; }
			if (n < 0) { s->err = true; break; }
			s->buf.assign(t, n);
		}
		size_t k = std::min(want - got, s->buf.size());
		memcpy((char *)p + got, s->buf.data(), k);
		s->buf.erase(0, k);
		got += k;
	}
	return got / a;
}
int sim_fgetc(FILE *f) { unsigned char c; return sim_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_fileno(FILE *f) { SimFile *s = simfile(f); return s ? s->fd : fileno(f); }
int sim_feof(FILE *f) { SimFile *s = simfile(f); return s ? s->eof : 0; }
int sim_ferror(FILE *f) { SimFile *s = simfile(f); return s ? s->err : 0; }
void sim_clearerr(FILE *f) { if (SimFile *s = simfile(f)) s->eof = s->err = false; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_fclose(FILE *f) { if (SimFile *s = simfile(f)) { int r = sim_close(s->fd); g_files.erase(f); delete s; return r; } if (f == stdout) out_flush(); return 0; }
void sim_perror(const char *s) { f_write(stderr, s, strlen(s)); f_write(stderr, "\n", 1); }
int sim_setvbuf(FILE *f, char *, int mode, size_t n) {
	if (SimFile *s = simfile(f)) { s->nobuf = mode == _IONBF; return 0; }
	if (f == stdout) { W->out.mode = mode == _IONBF ? 2 : mode == _IOLBF ? 1 : 0; if (mode == _IOFBF && n) W->out.cap = n; }
	return 0;
}
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void sim_setlinebuf(FILE *f) { sim_setvbuf(f, 0, _IOLBF, 0); }
[[noreturn]] void sim_exit(int c) { W->log_ev(EV_EXIT, c); out_flush(); g_exit_code = c; leave(END_EXIT); }
[[noreturn]] void sim__exit(int c) { W->log_ev(EV_EXIT, c); g_exit_code = c; W->out.pending.clear(); leave(END_EXIT); }
[[noreturn]] void sim_abort() { violation("abort", "abort() called"); }

// ------------------------------------------------------------------ time
time_t sim_time(time_t *t) { time_t v = 1700000000 + W->now / 1000000; if (t) *t = v; return v; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = 1700000000 + W->now / 1000000; ts->tv_nsec = W->now % 1000000 * 1000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = 1700000000 + W->now / 1000000; tv->tv_usec = W->now % 1000000; return 0; }
clock_t sim_clock() { return (clock_t)W->now; }
static void sim_wait(int64_t us) {
	spin_tick();
	block_until([]() { return false; }, wait_deadline(us > 0 ? us : 1));
	if (us >= 1000) timed_out();
	count("sleep");
}
unsigned sim_sleep(unsigned s) { sim_wait(s * 1000000ll); return 0; }
int sim_usleep(useconds_t u) { sim_wait(u); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { sim_wait(a->tv_sec * 1000000ll + a->tv_nsec / 1000); return 0; }
int sim_sched_yield() { if (g_mt) sched_preempt(); return 0; }

// ------------------------------------------------------------------ randomness
int sim_rand() { W->rand_calls++; return (int)(W->rnd.next() & 0x7fffffff); }
long sim_random() { return sim_rand(); }
void sim_srand(unsigned s) { W->rnd = Rng(s); }
uint32_t sim_arc4random() { return (uint32_t)W->rnd.next(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) {
	EntropyOutcome o = W->ent_after;
	if (W->ent_read_i < W->ent_read.size()) o = W->ent_read[W->ent_read_i++];
	if (o.kind == 3) o = {2, EIO}; // getrandom knows no end
	if (o.kind == 2) { count(strf("fault-entropy-errno-%ld", o.arg).c_str()); errno = (int)o.arg; return -1; }
	if (o.kind == 1 && (size_t)o.arg < n) { n = o.arg; count("fault-entropy-short"); }
	Bytes x = entropy_bytes(n);
	memcpy(b, x.data(), n);
	return n;
}
pid_t sim_getpid() { return 4321; } // the same in every run, also where two processes are compared
pid_t sim_getppid() { return 1; }
pid_t sim_gettid() { return 4321 + current_thread(); }
pthread_t sim_pthread_self() { return (pthread_t)(0x7f0000001000 + 0x1000 * current_thread()); }
long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) {
	switch (nr) {
	case SYS_getrandom: return sim_getrandom((void *)a, (size_t)b, (unsigned)c);
	case SYS_getpid: return sim_getpid();
	case SYS_getppid: return sim_getppid();
	case SYS_gettid: return sim_gettid();
	default: return syscall(nr, a, b, c, d, e, f);
	}
}
int sim_getentropy(void *b, size_t n) {
	Bytes x = entropy_bytes(n);
	memcpy(b, x.data(), n);
	return 0;
}
void sim_uuid_generate(unsigned char *u) {
	Bytes x = entropy_bytes(16);
	memcpy(u, x.data(), 16);
	u[6] = (u[6] & 0x0f) | 0x40;
	u[8] = (u[8] & 0x3f) | 0x80;
	W->log_ev(EV_ENT, 16);
}
void sim_uuid_generate_random(unsigned char *u) { sim_uuid_generate(u); }
void sim_uuid_generate_time(unsigned char *u) { sim_uuid_generate(u); }
int sim_uuid_generate_time_safe(unsigned char *u) { sim_uuid_generate(u); return 0; }
void sim_uuid_clear(unsigned char *u) { memset(u, 0, 16); }

// ------------------------------------------------------------------ locks (if the library ever takes any)
static std::map<void *, std::pair<int, int>> g_locks; // owner+1, depth
int sim_pthread_mutex_lock(void *m) {
	int me = current_thread() + 1;
	auto &l = g_locks[m];
	if (l.first == me) violation("deadlock", "a thread locks a mutex it already holds");
	block_until([m]() { return g_locks[m].first == 0; });
	g_locks[m] = {me, 1};
	return 0;
}
int sim_pthread_mutex_trylock(void *m) {
	if (g_locks[m].first) return EBUSY;
	g_locks[m] = {current_thread() + 1, 1};
	return 0;
}
int sim_pthread_mutex_unlock(void *m) { g_locks[m] = {0, 0}; return 0; }
int sim_pthread_mutex_init(void *m, const void *) { g_locks[m] = {0, 0}; return 0; }
int sim_pthread_mutex_destroy(void *) { return 0; }
int sim_pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
} // extern "C"
