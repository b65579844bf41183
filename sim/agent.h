// An application using libsml: keeps files, builds, changes, sends, receives and frees them.
// The model of every file is kept beside it as plain nodes.
#pragma once
#include "exec.h"
struct Slot { sml_file *f = nullptr; std::vector<Node> model; bool loaded = false; };
struct SendRec { Bytes accepted; long ret; std::vector<Node> model; bool faulty; size_t nth; };
typedef std::vector<std::string> Op;
struct Agent {
	std::map<std::string, Slot> slots;
	Bytes last_frame; // last completely accepted transmission
	std::vector<SendRec> sends;
	std::vector<std::vector<Node>> received;
	Hash transcript;
	Sink sink;
	Line line;
	int sink_fd = -1;
	bool check_recv = false;   // compare what is received with what was sent
	bool own_guard = true;     // use run_guarded around receiving (not inside threads)
	uint64_t bytes_sent = 0;
	size_t nsend = 0;
	void open();
	void op(const Op &o);
	void free_all();
};
// Applies an operation to models only. Returns false if it does not apply.
bool model_op(std::map<std::string, std::vector<Node>> &m, const Op &o);
// whether the payload of this file contains an aligned escape mark (a known limitation, see DESIGN.md)
bool model_has_esc(const std::vector<Node> &model);
bool is_op(const Op &l, const std::string &key = "op");
Op gen_op_list(Rng &r, Scn &s, const std::string &prop, const std::string &key, int nops); // appends lines
