// The simulated world: descriptors, lines with arrival schedules, serial ports, clock, allocator
// ledger, standard output, entropy, threads under a baton scheduler. Library objects are linked
// against the sim_* entry points (see seams.txt); nothing else of them is changed.
#pragma once
#include "base.h"
#include <csetjmp>
#include <functional>
#include <termios.h>
#include <unordered_map>
#include <map>

// --- result of one run, in memory shared with the parent --------------------------------------
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INVALID = 3, ST_HARNESS = 4 };
struct Counter { char name[32]; uint64_t n; };
struct Shared {
	int status;
	int nontrivial;
	char cls[96];
	char msg[3000];
	uint64_t loghash, edgehash, simtime, steps, switches, parts;
	int ncounters;
	Counter counters[128];
	int nedges;
	unsigned char edges[65536];
};
extern Shared *g_sh;
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void invalid(const std::string &msg);
[[noreturn]] void harness_error(const std::string &msg);
void count(const char *name, uint64_t n = 1);
extern bool g_trace;
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// --- lines ----------------------------------------------------------------------------------------
enum Call { C_SEL, C_READ };
enum FaultKind { F_EINTR, F_EAGAIN, F_SPUR, F_SHORT, F_SLOW };
struct Fault { uint64_t off; Call call; FaultKind kind; long arg; bool fired = false; };
struct Line {
	Bytes data;
	std::vector<std::pair<int64_t, size_t>> arr; // (absolute time, cumulative bytes)
	int end = 0;                                  // 0 never, 1 end of file, 2 permanent error
	int end_errno = 0;
	int64_t end_time = 0;
	std::vector<Fault> faults;
	size_t next_fault[2] = {0, 0};
	size_t pos = 0;
	bool end_seen = false;
	int calls_after_end = 0;
	Bytes revive;                                 // what the line delivers after its end was reported once
	size_t arrived(int64_t now) const;
	bool ended(int64_t now) const { return end && now >= end_time && arrived(now) == data.size(); }
	int64_t next_event(int64_t now) const; // -1: none
};
struct Tty {
	struct termios tio;
	int modem = 0;
	size_t fed = 0;    // line bytes already through the line discipline
	Bytes canon;       // unfinished line in canonical mode
	Bytes ready;       // bytes a read would return
	Bytes echoed;      // bytes sent back to the meter
	bool lnext = false;
	int attr_errno = 0, modem_errno = 0;
	int tcsetattr_calls = 0;
};
struct WOutcome { int kind; long arg; }; // 0 full, 1 short(arg), 2 error(arg)
struct Sink { Bytes accepted; std::vector<WOutcome> script; size_t next = 0; int calls = 0; };
enum FdType { FD_FREE, FD_LINE, FD_TTY, FD_SINK, FD_RANDOM, FD_STDOUT, FD_STDERR, FD_NULL };
struct SFd { FdType type = FD_FREE; int flags = 0; Line *line = nullptr; Tty *tty = nullptr; Sink *sink = nullptr; };
struct Device { std::string path; FdType type; Line *line = nullptr; Tty *tty = nullptr; int open_errno = 0; int opens = 0; };
struct EntropyOutcome { int kind; long arg; }; // read of the entropy device: 0 ok, 1 short, 2 errno, 3 eof

struct Out { Bytes visible, pending; int mode = 0; size_t cap = 4096; };

struct World {
	int64_t now = 0;
	SFd fds[1024];
	int fd_limit = 1024, fd_base = 3; // descriptors from fd_base on are handed out
	std::vector<Device> devs;
	Out out;
	Bytes err;
	std::vector<EntropyOutcome> ent_read;
	std::vector<int> ent_open; // errno per open of the entropy device, 0 = ok
	size_t ent_read_i = 0, ent_open_i = 0;
	EntropyOutcome ent_after{0, 0}; // what every further read meets
	uint64_t ent_drawn = 0;
	std::function<Bytes(size_t)> entropy; // the bytes of the entropy source
	Rng rnd{7};
	uint64_t rand_calls = 0;
	Hash log;
	int spin = 0, spin_limit = 2000, naps = 0;
	int read_calls = 0, sel_calls = 0, block_count = 0;
	std::function<void()> on_block; // called whenever the only thread is about to wait
	bool stop_when_stuck = true;
	int open_fds() const;
	int add_fd(FdType t, int flags, Line *l = nullptr, Sink *s = nullptr, Tty *y = nullptr, int min = -1);
	void log_ev(int kind, int64_t a, int64_t b = 0);
};
extern World *W;
enum RunEnd { END_RETURN, END_STUCK, END_EXIT };
// Runs f; longjmps out when the program waits for ever (END_STUCK) or exits (END_EXIT).
RunEnd run_guarded(const std::function<void()> &f);
extern int g_exit_code;

// --- allocation ledger ---------------------------------------------------------------------------
struct Ledger {
	std::unordered_map<void *, size_t> live;
	uint64_t bytes = 0, peak = 0, total = 0, calls = 0;
	int fill = 0xA5;
	uint64_t fail_at = 0, tried = 0, refused = 0; // allocation number fail_at (and all later ones, if fail_on) gets no memory
	bool fail_on = false;
	void reset_peak() { peak = bytes; }
};
extern Ledger LG;
extern "C" {
void *sim_malloc(size_t n);
void sim_free(void *p);
}

// --- work bound -----------------------------------------------------------------------------------
extern uint64_t g_steps, g_step_limit;
extern const char *g_step_what;
void pollute_stack(int byte);
extern "C" unsigned char g_dirt; // what dead stack is filled with, see dirty.cc

// --- threads --------------------------------------------------------------------------------------
struct Slice { uint32_t quantum; int thread; };
void run_threads(std::vector<std::function<void()>> bodies, const std::vector<Slice> &slices, uint32_t dflt, int static_percent = 0, uint64_t seed = 1);
int current_thread();
