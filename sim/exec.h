// Scenario generators and executors, one family per source file.
#pragma once
#include "bridge.h"
#include "world.h"

// --- a line described by a scenario ------------------------------------------------------------
struct Piece { size_t off, len; char tag; std::vector<Node> nodes; bool has_nodes; };
struct Stream {
	Bytes data;
	std::vector<Piece> pieces;
	size_t damage_end() const; // end of the last piece tagged D, 0 if none
	bool damaged() const;
	// true if start marks appear (at or after `from`) only where pieces tagged F begin
	bool clean_starts(size_t from) const;
};
Stream build_stream(const Scn &s, const std::string &id = "");
// arrival schedule, faults and end of the line
void build_line(const Scn &s, const Stream &st, Line &l, const std::string &id = "", bool ideal = false);
struct SchedOpt { double p_faults = 0.7; bool nonblock = false; bool heavy = true; int end = -1; };
// appends schedule lines for a line of n bytes; hot: offsets worth splitting and faulting at
void gen_schedule(Rng &r, Scn &s, size_t n, const std::vector<size_t> &hot, const SchedOpt &o, const std::string &id = "");
void gen_fdbase(Rng &r, Scn &s); // which descriptor numbers are in use
void repeat_frames(Rng &r, Scn &s, const std::string &id = ""); // a frame that comes again
void gen_end(Rng &r, Scn &s, int kind, const std::string &id = ""); // 0 never, 1 eof, 2 error, -1 any
Bytes rx_payload(Rng &r, size_t len); // frame content without aligned escape and start marks
Bytes rx_noise(Rng &r, size_t len);   // bytes without a start mark

World *new_world(const Scn &s);
typedef std::function<void(unsigned char *, size_t)> FrameCb;
// Receives on fd. mode listen: sml_transport_listen; mode read: sml_transport_read in a loop with a
// heap buffer of exactly max bytes until the line has ended.
struct Received { std::vector<Bytes> frames; std::vector<Bytes> results; RunEnd end; };
Received receive(int fd, Line &l, bool listen, size_t max, const FrameCb &cb = nullptr, int calls = -1);
// an earlier connection with this descriptor number: it delivered something and ended
void prior_connection(const Scn &s, int fd);
void gen_prior(Rng &r, Scn &s);
// without the guarding longjmp, for use inside threads
void listen_with(int fd, const FrameCb &cb);

std::string brief(const Bytes &b, size_t n = 48);
std::string diff_nodes(const std::vector<Node> &want, const std::vector<Node> &got);
std::vector<Node> normalised(const std::vector<Node> &v);

void exec_rx(const Scn &s);
void exec_parse(const Scn &s);
void exec_send(const Scn &s);
void exec_tool(const Scn &s);
void exec_threads(const Scn &s);
void exec_ids(const Scn &s);
void load_entropy(const Scn &s);
void gen_entropy(Rng &r, Scn &s, long n);
void execute(const Scn &s);

Scn gen_rx(const std::string &prop, Rng &r);
Scn gen_parse(const std::string &prop, Rng &r);
Scn gen_send(const std::string &prop, Rng &r);
Scn gen_tool(const std::string &prop, Rng &r);
Scn gen_threads(Rng &r);
Scn gen_ids(Rng &r);
Scn generate(const std::string &prop, uint64_t seed, uint64_t i);
