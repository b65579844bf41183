// Generic SML tree, its text form, encoders and the independent reference decoder.
#pragma once
#include "base.h"
#include <functional>

struct Node {
	enum K { ABS, OCT, BOOL, UNS, INT, LST } k = ABS;
	Bytes s;           // OCT
	uint64_t n = 0;    // BOOL / UNS / INT (two's complement)
	int w = 0;         // decoded width in bytes for UNS / INT
	std::vector<Node> c;
	uint8_t mark = 0;   // 1: a time stamp (not part of equality)
	static Node abs() { return Node(); }
	static Node oct(const Bytes &b) { Node x; x.k = OCT; x.s = b; return x; }
	static Node boolean(bool b) { Node x; x.k = BOOL; x.n = b; return x; }
	static Node uns(int w, uint64_t v) {
		Node x; x.k = UNS; x.w = w;
		x.n = w == 8 ? v : v & ((1ull << (8 * w)) - 1);
		return x;
	}
	static Node sint(int w, int64_t v) {
		Node x; x.k = INT; x.w = w;
		if (w < 8) { int sh = 64 - 8 * w; v = (int64_t)((uint64_t)v << sh) >> sh; }
		x.n = (uint64_t)v;
		return x;
	}
	static Node list(std::vector<Node> v = {}) { Node x; x.k = LST; x.c = std::move(v); return x; }
	bool operator==(const Node &o) const {
		return k == o.k && s == o.s && n == o.n && w == o.w && c == o.c;
	}
	bool operator!=(const Node &o) const { return !(*this == o); }
};

std::string to_text(const Node &n);
bool from_text(const std::string &t, Node &out);

// Schema types. A message is LIST[ OCT tid, U8 group, U8 abort, LIST[ U32 tag, body ] ].
enum T {
	T_OCT, T_U8, T_U16, T_U32, T_U64, T_I8, T_I64, T_BOOL, T_TIME, T_STATUS, T_VALUE, T_PATH, T_TREE,
	T_PPV, T_PERIOD, T_TUPEL, T_VLIST, T_LENTRY, T_OBJLIST, T_SEQ_HDR, T_SEQ_POBJ, T_SEQ_VENT,
	T_SEQ_PERIOD, T_HDR, T_POBJ, T_VENT
};
extern const uint32_t ALL_TAGS[14];
const std::vector<T> *body_schema(uint32_t tag); // null: unknown tag

// --- encoding ---------------------------------------------------------------
// Canonical: shortest type-length field, numbers in their full width.
Bytes enc(const Node &n);
struct EncChoice { // freedom a foreign meter has; all decisions drawn from r
	Rng *r;
	double p_compress = 0.5; // drop redundant leading number bytes
	double p_longtl = 0.1;   // more type-length bytes than necessary
	double p_numlongtl = 0.05;
	double p_emptylong = 0.3; // empty string as a two byte type-length field
	bool in_list_power = false;
};
Bytes enc_foreign(const Node &n, EncChoice &c);
Bytes tl(int type, uint64_t len, int extra = 0); // extra: additional TL bytes
// Body text without checksum: message list header up to and including the body.
Bytes enc_msg_head(const Node &msg);
Bytes seal(const Bytes &head, bool kermit = false, bool endbyte = true); // adds checksum and end
Bytes enc_msg(const Node &msg);
// Chooses b[at], b[at+1] so that crc(b) is `want`; crc must be linear up to a constant.
bool solve2(Bytes &b, size_t at, const std::function<uint16_t(const Bytes &)> &crc, uint16_t want);
uint16_t frame_crc(const Bytes &payload);
uint16_t special_crc(Rng &r); // values that look like something else
Bytes special_frame(Rng &r, const Bytes &payload); // last two bytes changed so that the checksum is special
Bytes frame(const Bytes &payload); // transport frame with zero padding and checksum
bool has_aligned_esc(const Bytes &payload);
bool has_start(const Bytes &b); // contains the start mark at any position

// --- reference decoding -------------------------------------------------------
struct RefMsg { Node m; bool kermit; Bytes raw; };
struct RefFile {
	std::vector<RefMsg> msgs; // the delivered ones
	int dropped = 0;          // structurally fine, wrong checksum
	bool error = false;       // ended by a structural error
	size_t error_at = 0;
	size_t consumed = 0;
	bool bad_end = false;     // some delivered message lacks its end-of-message byte
	bool power_fixed = false; // the DZG correction changed a value
};
RefFile ref_parse(const Bytes &payload);
// Strict check of an emitted frame; "" or a description of what is malformed.
std::string ref_check_frame(const Bytes &f, std::vector<Node> &msgs);
// Empty octet strings have no standard encoding of their own: same as absent.
Node normalise(const Node &n);

// Reference framer: the frames that an ideal receiver finds. limit: reader buffer size.
struct RefFrames { std::vector<std::pair<size_t, Bytes>> fr; };
RefFrames ref_frames(const Bytes &line, size_t limit);
bool is_complete_frame(const Bytes &f);

// --- generation -----------------------------------------------------------------
struct GenOpt {
	double p_abs = 0.35;
	int max_oct = 24;   // typical maximal string length
	int max_list = 4;
	int depth = 3;
	double p_edge = 0.05;     // string lengths / list counts at type-length boundaries
	int edge_max = 300;
	bool vendor_time = false; // also the FROETEC form (represented as tag + absent value)
	bool abs_seq = false;     // lists of a profile may be left unset (only programs that build files do that)
};
Node gen_type(Rng &r, T t, GenOpt &o, int depth);
Node gen_msg(Rng &r, uint32_t tag, GenOpt &o);
Node tiny_msg(Rng &r);                // as small as a message can be
Node huge_msg(Rng &r, GenOpt &o);     // a string, list or tree beyond every usual size
void gen_reset();
Node gen_value(Rng &r, GenOpt &o);
