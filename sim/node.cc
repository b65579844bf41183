#include "node.h"
#include <cstdarg>

std::string strf(const char *fmt, ...) {
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < (int)sizeof buf) return std::string(buf, n < 0 ? 0 : n);
	std::string s(n + 1, 0);
	va_start(ap, fmt);
	vsnprintf(&s[0], n + 1, fmt, ap);
	va_end(ap);
	s.resize(n);
	return s;
}

std::string Scn::text() const {
	std::string o;
	for (auto &l : L) {
		for (size_t i = 0; i < l.size(); i++) { if (i) o += ' '; o += l[i].empty() ? "-" : l[i]; }
		o += '\n';
	}
	return o;
}
Scn Scn::parse(const std::string &t) {
	Scn s;
	size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i);
		if (e == std::string::npos) e = t.size();
		std::vector<std::string> l;
		size_t j = i;
		if (t[i] != '#') {
			while (j < e) {
				while (j < e && t[j] == ' ') j++;
				size_t k = j;
				while (k < e && t[k] != ' ') k++;
				if (k > j) l.push_back(t.substr(j, k - j));
				j = k;
			}
			if (!l.empty()) s.L.push_back(l);
		}
		i = e + 1;
	}
	return s;
}

// ---------------------------------------------------------------- text form
static void tt(const Node &n, std::string &o) {
	switch (n.k) {
	case Node::ABS: o += '_'; break;
	case Node::OCT: o += 'x'; o += hex(n.s); break;
	case Node::BOOL: o += n.n ? "b1" : "b0"; break;
	case Node::UNS: o += strf("u%d:%llu", n.w, (unsigned long long)n.n); break;
	case Node::INT: o += strf("i%d:%lld", n.w, (long long)n.n); break;
	case Node::LST:
		o += n.mark == 1 ? "t[" : "[";
		for (size_t i = 0; i < n.c.size(); i++) { if (i) o += ','; tt(n.c[i], o); }
		o += ']';
		break;
	}
}
std::string to_text(const Node &n) { std::string o; tt(n, o); return o; }

static bool ft(const std::string &t, size_t &i, Node &n, int depth = 0) {
	if (i >= t.size() || depth > 5000) return false;
	n = Node();
	char ch = t[i];
	if (ch == '_') { i++; return true; }
	if (ch == 'x') {
		size_t j = ++i;
		while (j < t.size() && hexval(t[j]) >= 0) j++;
		n.k = Node::OCT;
		if ((j - i) % 2) return false;
		if (j > i && !unhex(t.substr(i, j - i), n.s)) return false;
		i = j;
		return true;
	}
	if (ch == 'b') {
		if (i + 1 >= t.size()) return false;
		n = Node::boolean(t[i + 1] == '1');
		i += 2;
		return true;
	}
	if (ch == 'u' || ch == 'i') {
		char *e;
		if (i + 3 >= t.size() || t[i + 2] != ':') return false;
		int w = t[i + 1] - '0';
		if (w != 1 && w != 2 && w != 4 && w != 8) return false;
		const char *b = t.c_str() + i + 3;
		if (ch == 'u') n = Node::uns(w, strtoull(b, &e, 10));
		else n = Node::sint(w, strtoll(b, &e, 10));
		if (e == b) return false;
		i += 3 + (e - b);
		return true;
	}
	uint8_t mark = 0;
	if (ch == 't') { mark = 1; ch = ++i < t.size() ? t[i] : 0; }
	if (ch != '[') return false;
	n.k = Node::LST;
	n.mark = mark;
	i++;
	if (i < t.size() && t[i] == ']') { i++; return true; }
	for (;;) {
		Node k;
		if (!ft(t, i, k, depth + 1)) return false;
		n.c.push_back(std::move(k));
		if (i >= t.size()) return false;
		if (t[i] == ',') { i++; continue; }
		if (t[i] == ']') { i++; return true; }
		return false;
	}
}
bool from_text(const std::string &t, Node &out) {
	size_t i = 0;
	return ft(t, i, out) && i == t.size();
}

// ---------------------------------------------------------------- schema
const uint32_t ALL_TAGS[14] = {0x100, 0x101, 0x200, 0x201, 0x300, 0x301, 0x400,
							   0x401, 0x500, 0x501, 0x600, 0x700, 0x701, 0xff01};
const std::vector<T> *body_schema(uint32_t tag) {
	static const std::vector<T>
		oreq{T_OCT, T_OCT, T_OCT, T_OCT, T_OCT, T_OCT, T_U8},
		ores{T_OCT, T_OCT, T_OCT, T_OCT, T_TIME, T_U8}, close{T_OCT},
		prreq{T_OCT, T_OCT, T_OCT, T_BOOL, T_TIME, T_TIME, T_PATH, T_OBJLIST, T_TREE},
		ppres{T_OCT, T_TIME, T_U32, T_PATH, T_SEQ_HDR, T_SEQ_POBJ, T_OCT, T_OCT},
		plres{T_OCT, T_TIME, T_U32, T_PATH, T_TIME, T_U64, T_SEQ_PERIOD, T_OCT, T_OCT},
		gpreq{T_OCT, T_OCT, T_OCT, T_PATH, T_OCT}, gpres{T_OCT, T_PATH, T_TREE},
		spreq{T_OCT, T_OCT, T_OCT, T_PATH, T_TREE}, glreq{T_OCT, T_OCT, T_OCT, T_OCT, T_OCT},
		glres{T_OCT, T_OCT, T_OCT, T_TIME, T_VLIST, T_OCT, T_TIME}, att{T_OCT, T_OCT, T_OCT, T_TREE};
	switch (tag) {
	case 0x100: return &oreq;
	case 0x101: return &ores;
	case 0x200: case 0x201: return &close;
	case 0x300: case 0x400: return &prreq;
	case 0x301: return &ppres;
	case 0x401: return &plres;
	case 0x500: return &gpreq;
	case 0x501: return &gpres;
	case 0x600: return &spreq;
	case 0x700: return &glreq;
	case 0x701: return &glres;
	case 0xff01: return &att;
	}
	return nullptr;
}

static const std::vector<T> S_LENTRY{T_OCT, T_STATUS, T_TIME, T_U8, T_I8, T_VALUE, T_OCT};
static const std::vector<T> S_PERIOD{T_OCT, T_U8, T_I8, T_VALUE, T_OCT};
static const std::vector<T> S_HDR{T_OCT, T_U8, T_I8};
static const std::vector<T> S_POBJ{T_TIME, T_U64, T_SEQ_VENT, T_OCT};
static const std::vector<T> S_VENT{T_VALUE, T_OCT};
static const std::vector<T> S_TUPEL{T_OCT, T_TIME, T_U64, T_U8, T_I8, T_I64, T_U8, T_I8,
									T_I64, T_U8, T_I8, T_I64, T_OCT, T_U8, T_I8, T_I64,
									T_U8, T_I8, T_I64, T_U8, T_I8, T_I64, T_OCT};

// ---------------------------------------------------------------- encoding
Bytes tl(int type, uint64_t len, int extra) {
	int k = 1;
	uint64_t v = len;
	for (;; k++) {
		v = type == 0x70 ? len : len + k;
		if (k >= 16 || v < (1ull << (4 * k))) break;
	}
	if (extra) {
		k += extra;
		v = type == 0x70 ? len : len + k;
	}
	Bytes o;
	for (int i = k - 1; i >= 0; i--) {
		int b = 4 * i < 64 ? (v >> (4 * i)) & 15 : 0;
		if (i == k - 1) b |= type;
		if (i) b |= 0x80;
		o += (char)b;
	}
	return o;
}
static Bytes be(uint64_t v, int w) {
	Bytes o;
	for (int i = w - 1; i >= 0; i--) o += (char)(v >> (8 * i));
	return o;
}
static void encr(const Node &n, Bytes &o) {
	switch (n.k) {
	case Node::ABS: o += (char)1; break;
	case Node::OCT: o += tl(0, n.s.size()); o += n.s; break;
	case Node::BOOL: o += (char)0x42; o += (char)(n.n ? 0xff : 0); break;
	case Node::UNS: o += (char)(0x60 | (n.w + 1)); o += be(n.n, n.w); break;
	case Node::INT: o += (char)(0x50 | (n.w + 1)); o += be(n.n, n.w); break;
	case Node::LST: o += tl(0x70, n.c.size()); for (auto &k : n.c) encr(k, o); break;
	}
}
Bytes enc(const Node &n) { Bytes o; encr(n, o); return o; }

static int min_width(const Node &n) {
	int w = n.w;
	while (w > 1) {
		uint64_t top = (n.n >> (8 * (w - 1))) & 0xff;
		if (n.k == Node::UNS) { if (top) break; }
		else {
			uint64_t nx = (n.n >> (8 * (w - 2))) & 0x80;
			if (!((top == 0 && !nx) || (top == 0xff && nx))) break;
		}
		w--;
	}
	return w;
}
static void encf(const Node &n, Bytes &o, EncChoice &c) {
	Rng &r = *c.r;
	int extra = r.p(c.p_longtl) ? (int)r.range(1, 3) : 0;
	if (n.k == Node::LST && n.mark == 1 && n.c.size() == 2) { // time stamp: vendor forms
		if (n.c[1].k == Node::ABS) { // list of three, value not representable
			o += (char)0x72;
			encf(n.c[0], o, c);
			o += (char)0x73;
			encf(Node::uns(4, r.next() >> r.below(60)), o, c);
			encf(Node::sint(2, (int64_t)r.next() >> (48 + r.below(12))), o, c);
			if (r.p(0.2)) o += (char)1; else encf(Node::sint(2, (int64_t)r.next()), o, c);
			return;
		}
		if (n.c[0] == Node::uns(1, 1) && n.c[1].k == Node::UNS && r.p(0.3)) { // bare index
			o += (char)0x65;
			o += be(n.c[1].n, 4);
			return;
		}
	}
	switch (n.k) {
	case Node::ABS: o += (char)1; break;
	case Node::OCT:
		if (n.s.empty()) o += tl(0, 0, extra ? extra : 1); else { o += tl(0, n.s.size(), extra); o += n.s; }
		break;
	case Node::BOOL: o += (char)0x42; o += (char)(n.n ? (r.p(0.4) ? 0xff : r.coin() ? 1 << r.below(8) : r.range(1, 255)) : 0); break;
	case Node::UNS: case Node::INT: {
		int w = n.w;
		if (r.p(c.p_compress)) {
			int m = min_width(n);
			if (c.in_list_power) m = n.w; // generator handles it itself
			w = r.p(0.7) ? m : (int)r.range(m, n.w);
		}
		// the decoded width is a power of two: stay above the next lower one when the
		// width is part of the value (list values); callers mark those by w as decoded
		int e = r.p(c.p_numlongtl) ? 1 : 0;
		o += tl(n.k == Node::UNS ? 0x60 : 0x50, w, e);
		o += be(n.n, w);
		break;
	}
	case Node::LST: o += tl(0x70, n.c.size(), extra); for (auto &k : n.c) encf(k, o, c); break;
	}
}
Bytes enc_foreign(const Node &n, EncChoice &c) { Bytes o; encf(n, o, c); return o; }

Bytes seal(const Bytes &head, bool kermit, bool endbyte) {
	Bytes o = head;
	uint16_t c = kermit ? crc_kermit(head) : crc_x25(head);
	o += (char)0x63;
	o += (char)(c >> 8);
	o += (char)c;
	if (endbyte) o += (char)0;
	return o;
}
// A message has six elements on the wire: the four of our node, checksum, end of message.
Bytes enc_msg_head(const Node &m) {
	Bytes h;
	h += (char)0x76;
	for (auto &k : m.c) h += enc(k);
	return h;
}
Bytes enc_msg(const Node &m) { return seal(enc_msg_head(m)); }

bool solve2(Bytes &b, size_t at, const std::function<uint16_t(const Bytes &)> &crc, uint16_t want) {
	b[at] = b[at + 1] = 0;
	uint16_t c0 = crc(b), d[16];
	for (int i = 0; i < 16; i++) {
		Bytes q = b;
		q[at + i / 8] = (char)(1 << i % 8);
		d[i] = crc(q) ^ c0;
	}
	for (unsigned k = 0; k < 65536; k++) {
		uint16_t c = c0;
		for (int i = 0; i < 16; i++) if (k >> i & 1) c ^= d[i];
		if (c != want) continue;
		b[at] = (char)k;
		b[at + 1] = (char)(k >> 8);
		return crc(b) == want;
	}
	return false;
}
uint16_t special_crc(Rng &r) {
	static const uint16_t C[] = {0, 0xffff, 0x1b1b, 0x1a1b, 0x1b1a, 0x0101, 0x001b, 0x1b00, 0x0001, 0x8000, 0x7676, 0x0063};
	return C[r.below(12)];
}
uint16_t frame_crc(const Bytes &p) { Bytes f = frame(p); return (uint16_t)((unsigned char)f[f.size() - 2] << 8 | (unsigned char)f[f.size() - 1]); }
Bytes special_frame(Rng &r, const Bytes &payload) {
	Bytes q = payload;
	if (q.size() < 2 || !solve2(q, q.size() - 2, frame_crc, special_crc(r)) || has_aligned_esc(q) || has_start(q)) return frame(payload);
	return frame(q);
}
Bytes frame(const Bytes &payload) {
	Bytes f("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8);
	f += payload;
	int pad = (4 - payload.size() % 4) % 4;
	f.append(pad, 0);
	f += "\x1b\x1b\x1b\x1b\x1a";
	f += (char)pad;
	uint16_t c = crc_x25(f);
	f += (char)(c >> 8);
	f += (char)c;
	return f;
}
bool has_aligned_esc(const Bytes &p) {
	for (size_t i = 0; i + 4 <= p.size(); i += 4)
		if (!memcmp(p.data() + i, "\x1b\x1b\x1b\x1b", 4)) return true;
	return false;
}
static const Bytes START("\x1b\x1b\x1b\x1b\x01\x01\x01\x01", 8);
bool has_start(const Bytes &b) { return b.find(START) != Bytes::npos; }

RefFrames ref_frames(const Bytes &line, size_t limit) {
	RefFrames o;
	size_t i = 0;
	for (;;) {
		size_t st = line.find(START, i);
		if (st == Bytes::npos) return o;
		size_t len = 8;
		bool done = false;
		while (!done) {
			if (len + 8 > limit) { done = true; break; } // does not fit
			if (st + len + 4 > line.size()) return o;
			bool esc = !memcmp(line.data() + st + len, "\x1b\x1b\x1b\x1b", 4);
			len += 4;
			if (esc) {
				if (st + len + 4 > line.size()) return o;
				bool end = (unsigned char)line[st + len] == 0x1a;
				len += 4;
				if (end) o.fr.push_back({st, line.substr(st, len)});
				done = true;
			}
		}
		i = st + len;
	}
}
bool is_complete_frame(const Bytes &f) {
	if (f.size() < 16 || f.size() % 4 || f.compare(0, 8, START)) return false;
	for (size_t i = 8; i + 8 <= f.size(); i += 4)
		if (!memcmp(f.data() + i, "\x1b\x1b\x1b\x1b", 4)) return i + 8 == f.size() && (unsigned char)f[i + 4] == 0x1a;
	return false;
}

Node normalise(const Node &n) {
	if (n.k == Node::OCT && n.s.empty()) return Node::abs();
	Node r = n;
	for (auto &k : r.c) k = normalise(k);
	return r;
}

// ---------------------------------------------------------------- reference decoder
namespace {
struct RP {
	const Bytes &b;
	size_t i = 0;
	bool power_fixed = false;
	bool strict = false; // as the standard writes it: the type in the first type-length byte only
	explicit RP(const Bytes &x) : b(x) {}
	bool have(size_t n) const { return i + n <= b.size(); }
	int cur() const { return (unsigned char)b[i]; }
	// type-length field: true and (type, len) with len = payload length / element count
	bool tlf(int &type, int64_t &len) {
		if (!have(1)) return false;
		type = cur() & 0x70;
		uint64_t v = 0;
		int k = 0;
		for (;;) {
			if (!have(1)) return false;
			int x = cur();
			if (strict && k && (x & 0x70)) return false;
			v = v << 4 | (x & 15);
			if (v > (1u << 27)) return false;
			i++;
			k++;
			if (!(x & 0x80)) break;
		}
		len = type == 0x70 ? (int64_t)v : (int64_t)v - k;
		return len >= 0;
	}
	bool list(int64_t want) {
		int t; int64_t l;
		return tlf(t, l) && t == 0x70 && l == want;
	}
	bool skip(bool &err) {
		err = !have(1);
		if (err) return false;
		if (cur() == 1) { i++; return true; }
		return false;
	}
	bool num(int type, int max, Node &o) {
		int t; int64_t l;
		if (!tlf(t, l) || t != type || l > max || !have(l) || !have(1)) return false;
		uint64_t v = 0;
		for (int k = 0; k < l; k++) v = v << 8 | (unsigned char)b[i + k];
		if (type == 0x50) {
			if (l > 0 && l < 8 && (v >> (8 * l - 1)) & 1) v |= ~0ull << (8 * l);
			o = Node::sint(max, (int64_t)v);
		} else o = Node::uns(max, v);
		i += l;
		return true;
	}
	static int up(int64_t l) { int m = 1; while (m < l) m <<= 1; return m; }
	bool fields(const std::vector<T> &s, Node &o) {
		o = Node::list();
		for (T t : s) {
			Node k;
			if (!parse(t, k)) return false;
			o.c.push_back(std::move(k));
		}
		return true;
	}
	bool seq(T elem, Node &o, bool keep_abs) {
		int t; int64_t l;
		if (!tlf(t, l) || t != 0x70) return false;
		o = Node::list();
		for (int64_t k = 0; k < l; k++) {
			Node e;
			if (!parse(elem, e)) return false;
			if (e.k == Node::ABS && !keep_abs) continue;
			o.c.push_back(std::move(e));
		}
		return true;
	}
	bool parse(T t, Node &o) {
		bool err;
		switch (t) { // everything but these may be left out with a single 0x01
		case T_LENTRY: case T_HDR: case T_POBJ: case T_VENT:
		case T_SEQ_HDR: case T_SEQ_POBJ: case T_SEQ_VENT: case T_SEQ_PERIOD:
			if (!strict) break; // a program may leave them unset, the library only reads them when present
			[[fallthrough]];
		default:
			if (skip(err)) { o = Node::abs(); return true; }
			if (err) return false;
		}
		switch (t) {
		case T_OCT: {
			int ty; int64_t l;
			if (!tlf(ty, l) || ty != 0 || (size_t)l >= b.size() - i) return false;
			o = Node::oct(b.substr(i, l));
			i += l;
			return true;
		}
		case T_U8: return num(0x60, 1, o);
		case T_U16: return num(0x60, 2, o);
		case T_U32: return num(0x60, 4, o);
		case T_U64: return num(0x60, 8, o);
		case T_I8: return num(0x50, 1, o);
		case T_I64: return num(0x50, 8, o);
		case T_BOOL: {
			int ty; int64_t l;
			if (!tlf(ty, l) || ty != 0x40 || l != 1 || !have(1)) return false;
			o = Node::boolean(b[i] != 0);
			i++;
			return true;
		}
		case T_TIME: {
			o = Node::list({Node::uns(1, 1), Node::abs()});
			o.mark = 1;
			if (cur() != 0x65) {
				if (!list(2) || !parse(T_U8, o.c[0])) return false;
			}
			if (!have(1)) return false;
			if ((cur() & 0x70) == 0x60) return num(0x60, 4, o.c[1]);
			if ((cur() & 0x70) == 0x70) {
				Node d;
				if (!list(3) || !parse(T_U32, d)) return false;
				for (int k = 0; k < 2; k++) {
					if (skip(err)) continue;
					if (err || !num(0x50, 2, d)) return false;
				}
				return true;
			}
			return false;
		}
		case T_STATUS: case T_VALUE: {
			int ty = cur() & 0x70;
			if (ty == 0x60 || (ty == 0x50 && t == T_VALUE)) {
				size_t at = i;
				int64_t l; int q;
				if (!tlf(q, l) || l > 8) return false;
				i = at;
				return num(ty, up(l), o);
			}
			if (t == T_STATUS) return false;
			if (ty == 0) return parse(T_OCT, o);
			if (ty == 0x40) return parse(T_BOOL, o);
			return false;
		}
		case T_PATH: return seq(T_OCT, o, false);
		case T_TREE: {
			o = Node::list({Node(), Node(), Node()});
			if (!list(3) || !parse(T_OCT, o.c[0]) || !parse(T_PPV, o.c[1])) return false;
			if (skip(err)) return true;
			if (err || !seq(T_TREE, o.c[2], false)) return false;
			if (o.c[2].c.empty()) o.c[2] = Node::abs();
			return true;
		}
		case T_PPV: {
			o = Node::list({Node(), Node()});
			if (!list(2) || !parse(T_U8, o.c[0]) || o.c[0].k == Node::ABS) return false;
			static const T k[5] = {T_OCT, T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
			if (o.c[0].n < 1 || o.c[0].n > 4) return false;
			return parse(k[o.c[0].n], o.c[1]);
		}
		case T_PERIOD: return list(5) && fields(S_PERIOD, o);
		case T_TUPEL: return list(23) && fields(S_TUPEL, o);
		case T_HDR: return list(3) && fields(S_HDR, o);
		case T_POBJ: return list(4) && fields(S_POBJ, o);
		case T_VENT: return list(2) && fields(S_VENT, o);
		case T_SEQ_HDR: return seq(T_HDR, o, true);
		case T_SEQ_POBJ: return seq(T_POBJ, o, true);
		case T_SEQ_VENT: return seq(T_VENT, o, true);
		case T_SEQ_PERIOD: return seq(T_PERIOD, o, true);
		case T_OBJLIST:
			if (!seq(T_OCT, o, true)) return false;
			if (o.c.empty()) o = Node::abs();
			return true;
		case T_LENTRY: { // used through T_VLIST
			int x;
			return lentry(o, x);
		}
		case T_VLIST: {
			int ty; int64_t l;
			if (!tlf(ty, l) || ty != 0x70) return false;
			o = Node::list();
			bool affected = false;
			for (int64_t k = 0; k < l; k++) {
				Node e;
				int vlen;
				if (!lentry(e, vlen)) return false;
				if (affected_meter(e)) affected = true;
				else if (affected && e.c[0].k == Node::OCT && e.c[0].s == Bytes("\x01\x00\x10\x07\x00\xff", 6) &&
						 e.c[5].k == Node::INT && vlen <= 2) {
					e.c[5] = Node::uns(e.c[5].w, e.c[5].n);
					power_fixed = true;
				}
				o.c.push_back(std::move(e));
			}
			if (o.c.empty()) o = Node::abs();
			return true;
		}
		}
		return false;
	}
	// one list entry; vlen: number of value bytes on the wire if its type-length field is one
	// byte long, otherwise a large number
	bool lentry(Node &o, int &vlen) {
		vlen = 99;
		if (!list(7)) return false;
		o = Node::list();
		for (T t : S_LENTRY) {
			if (t == T_VALUE) {
				if (!have(1)) return false;
				if (!(cur() & 0x80)) vlen = (cur() & 15) - 1;
			}
			Node k;
			if (!parse(t, k)) return false;
			o.c.push_back(std::move(k));
		}
		return true;
	}
	static bool affected_meter(const Node &e) {
		if (e.c[0].k != Node::OCT || e.c[0].s != Bytes("\x01\x00\x60\x01\x00\xff", 6)) return false;
		if (e.c[5].k != Node::OCT || e.c[5].s.size() != 10) return false;
		if (e.c[5].s.compare(0, 5, Bytes("\x0a\x01" "DZG", 5))) return false;
		uint64_t v = 0;
		for (int k = 5; k < 10; k++) v = v << 8 | (unsigned char)e.c[5].s[k];
		return (v >= 42000000 && v <= 48999999) || (v >= 55000000 && v <= 58999999);
	}
};
} // namespace

RefFile ref_parse(const Bytes &p) {
	RefFile f;
	RP r(p);
	while (r.i < p.size()) {
		if (p[r.i] == 0) { r.i++; continue; }
		size_t st = r.i;
		f.error_at = st;
		Node m = Node::list({Node(), Node(), Node(), Node::list({Node(), Node()})});
		bool ok = r.list(6) && r.parse(T_OCT, m.c[0]) && r.parse(T_U8, m.c[1]) && r.parse(T_U8, m.c[2]) &&
				  r.list(2) && r.parse(T_U32, m.c[3].c[0]) && m.c[3].c[0].k != Node::ABS;
		if (ok) {
			const std::vector<T> *s = body_schema((uint32_t)m.c[3].c[0].n);
			if (s) ok = r.list(s->size()) && r.fields(*s, m.c[3].c[1]);
		}
		size_t bodyend = r.i;
		Node crc;
		ok = ok && p.size() - r.i >= 3 && r.parse(T_U16, crc) && crc.k != Node::ABS;
		if (!ok) { f.error = true; break; }
		Bytes head = p.substr(st, bodyend - st);
		bool x = crc.n == crc_x25(head), k = crc.n == crc_kermit(head);
		if (!x && !k) { f.dropped++; continue; }
		if (r.i >= p.size()) { f.error = true; break; }
		if (p[r.i] == 0) r.i++; else f.bad_end = true;
		f.msgs.push_back({m, !x && k, p.substr(st, r.i - st)});
	}
	f.consumed = r.i;
	f.power_fixed = r.power_fixed;
	return f;
}

std::string ref_check_frame(const Bytes &f, std::vector<Node> &msgs) {
	msgs.clear();
	if (f.size() < 16) return strf("frame of %zu bytes is too short", f.size());
	if (f.compare(0, 8, START)) return "start mark missing";
	if (f.size() % 4) return "length is not a multiple of four";
	if (f.compare(f.size() - 8, 5, "\x1b\x1b\x1b\x1b\x1a")) return "end mark missing";
	unsigned pad = (unsigned char)f[f.size() - 3];
	if (pad > 3) return strf("padding count %u", pad);
	uint16_t c = crc_x25(f.substr(0, f.size() - 2));
	uint16_t g = (uint16_t)((unsigned char)f[f.size() - 2] << 8 | (unsigned char)f[f.size() - 1]);
	if (c != g) return strf("frame checksum %04x instead of %04x", g, c);
	Bytes p = f.substr(8, f.size() - 16);
	if (p.size() < pad) return "padding count exceeds content";
	for (unsigned i = 0; i < pad; i++)
		if (p[p.size() - 1 - i]) return "padding is not zero";
	p.resize(p.size() - pad);
	// every message must be complete and standard
	RP r(p);
	r.strict = true;
	while (r.i < p.size()) {
		size_t st = r.i;
		Node m = Node::list({Node(), Node(), Node(), Node::list({Node(), Node()})});
		if (!(r.list(6) && r.parse(T_OCT, m.c[0]) && r.parse(T_U8, m.c[1]) && r.parse(T_U8, m.c[2]) && r.list(2) &&
			  r.parse(T_U32, m.c[3].c[0]) && m.c[3].c[0].k != Node::ABS))
			return strf("message %zu: bad header near byte %zu", msgs.size(), r.i);
		const std::vector<T> *s = body_schema((uint32_t)m.c[3].c[0].n);
		if (!s) return strf("message %zu: unknown kind", msgs.size());
		if (!(r.list(s->size()) && r.fields(*s, m.c[3].c[1])))
			return strf("message %zu: body cannot be decoded near byte %zu", msgs.size(), r.i);
		size_t e = r.i;
		Node crc;
		if (!r.parse(T_U16, crc) || crc.k == Node::ABS) return strf("message %zu: no checksum", msgs.size());
		if (crc.n != crc_x25(p.substr(st, e - st))) return strf("message %zu: wrong checksum", msgs.size());
		if (r.i >= p.size() || p[r.i] != 0) return strf("message %zu: no end-of-message byte", msgs.size());
		r.i++;
		msgs.push_back(m);
	}
	return "";
}

// ---------------------------------------------------------------- generation
// What the scenario has used so far: meters repeat themselves, so some values come again.
static std::vector<Bytes> used_octets;
static std::vector<uint64_t> used_nums;
static std::vector<Node> used_msgs;
void gen_reset() { used_octets.clear(); used_nums.clear(); used_msgs.clear(); }
static Bytes new_octets(Rng &r, GenOpt &o);
static Bytes gen_octets(Rng &r, GenOpt &o) {
	if (!used_octets.empty() && r.p(0.06)) {
		Bytes b = used_octets[r.below(used_octets.size())];
		if ((int)b.size() <= o.max_oct) return b;
	}
	Bytes b = new_octets(r, o);
	if (used_octets.size() < 8) used_octets.push_back(b); else used_octets[r.below(8)] = b;
	return b;
}
static Bytes new_octets(Rng &r, GenOpt &o) {
	size_t n;
	if (r.p(o.p_edge)) {
		static const int edges[] = {0, 1, 2, 3, 12, 13, 14, 15, 16, 17, 29, 30, 31, 60, 61, 126, 127, 128, 200, 252, 253,
									254, 255, 256, 257, 258, 300, 1000, 2047, 4090, 4091, 4092, 4093, 4094, 4095, 4096,
									4097, 5000, 7000};
		do n = edges[r.below(sizeof edges / sizeof *edges)];
		while ((int)n > o.edge_max);
	} else n = r.below(o.max_oct + 1);
	switch (r.below(8)) {
	case 0: return Bytes(n, (char)r.next());
	case 1: { Bytes b = r.bytes(n); for (auto &c : b) c = "\x1b\x01\x1a\x00\x76\x63\xff\x80"[(unsigned char)c & 7]; return b; }
	case 2: case 3: { Bytes b = r.bytes(n); for (auto &c : b) c = 0x20 + (unsigned char)c % 0x5f; return b; }
	default: return r.bytes(n);
	}
}
static uint64_t new_num(Rng &r, int w);
static uint64_t gen_num(Rng &r, int w) {
	uint64_t m = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
	if (!used_nums.empty() && r.p(0.05)) return used_nums[r.below(used_nums.size())] & m;
	uint64_t v = new_num(r, w);
	if (used_nums.size() < 4) used_nums.push_back(v); else used_nums[r.below(4)] = v;
	return v;
}
static uint64_t new_num(Rng &r, int w) {
	uint64_t m = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
	switch (r.below(6)) {
	case 0: return r.below(4) & m;
	case 1: return (0 - (r.below(4) + 1)) & m;
	case 2: { int b = (int)r.below(8 * w); return ((1ull << b) - r.below(2)) & m; }
	case 3: { int b = (int)r.below(8 * w); return (0 - ((1ull << b) + r.below(2))) & m; }
	case 4: return (r.next() >> r.below(64)) & m;
	default: return r.next() & m;
	}
}
static int count(Rng &r, GenOpt &o) {
	if (r.p(o.p_edge)) {
		static const int e[] = {0, 1, 14, 15, 16, 17, 18, 31, 32, 40, 64, 127, 128, 129, 255, 256, 257};
		int n;
		do n = e[r.below(sizeof e / sizeof *e)];
		while (n > o.edge_max / 4);
		return n;
	}
	return (int)r.below(o.max_list + 1);
}
Node gen_value(Rng &r, GenOpt &o) {
	static const int W[4] = {1, 2, 4, 8};
	switch (r.below(5)) {
	case 0: { Bytes b = gen_octets(r, o); return Node::oct(b); }
	case 1: return Node::boolean(r.coin());
	case 2: case 3: { int w = W[r.below(4)]; return Node::sint(w, (int64_t)gen_num(r, w)); }
	default: { int w = W[r.below(4)]; return Node::uns(w, gen_num(r, w)); }
	}
}
static Bytes gen_obis(Rng &r) {
	static const char *k[] = {"\x01\x00\x01\x08\x00\xff", "\x01\x00\x02\x08\x00\xff", "\x01\x00\x10\x07\x00\xff",
							  "\x01\x00\x60\x01\x00\xff", "\x81\x81\xc7\x82\x03\xff", "\x01\x00\x00\x00\x09\xff"};
	if (r.p(0.75)) return Bytes(k[r.below(6)], 6);
	return r.bytes(r.p(0.8) ? 6 : r.below(9));
}
static Node gfields(Rng &r, const std::vector<T> &s, GenOpt &o, int d) {
	Node n = Node::list();
	for (T t : s) n.c.push_back(gen_type(r, t, o, d));
	return n;
}
Node gen_type(Rng &r, T t, GenOpt &o, int d) {
	bool can_abs = true;
	switch (t) {
	case T_LENTRY: case T_HDR: case T_POBJ: case T_VENT: can_abs = false; break;
	case T_SEQ_HDR: case T_SEQ_POBJ: case T_SEQ_VENT: case T_SEQ_PERIOD: can_abs = o.abs_seq; break;
	default: break;
	}
	if (can_abs && (r.p(o.p_abs) || d <= 0)) return Node::abs();
	Node n = Node::list();
	switch (t) {
	case T_OCT: return Node::oct(gen_octets(r, o));
	case T_U8: return Node::uns(1, gen_num(r, 1));
	case T_U16: return Node::uns(2, gen_num(r, 2));
	case T_U32: return Node::uns(4, gen_num(r, 4));
	case T_U64: return Node::uns(8, gen_num(r, 8));
	case T_I8: return Node::sint(1, (int64_t)gen_num(r, 1));
	case T_I64: return Node::sint(8, (int64_t)gen_num(r, 8));
	case T_BOOL: return Node::boolean(r.coin());
	case T_TIME:
		n.mark = 1;
		n.c = {Node::uns(1, 1 + r.below(2)), Node::uns(4, gen_num(r, 4))};
		if (o.vendor_time && r.p(0.15)) n.c[1] = Node::abs();
		return n;
	case T_STATUS: { static const int W[4] = {1, 2, 4, 8}; int w = W[r.below(4)]; return Node::uns(w, gen_num(r, w)); }
	case T_VALUE: return gen_value(r, o);
	case T_PATH: { int k = count(r, o); for (int i = 0; i < k; i++) { Bytes b = gen_octets(r, o); if (b.empty()) b = "p"; n.c.push_back(Node::oct(b)); } return n; }
	case T_TREE: {
		n.c = {gen_type(r, T_OCT, o, d), gen_type(r, T_PPV, o, d), Node::abs()};
		if (d > 1 && r.p(0.5)) {
			int k = 1 + (int)r.below(d > 2 ? 3 : 2);
			if (r.p(o.p_edge)) k = 14 + (int)r.below(5);
			Node l = Node::list();
			for (int i = 0; i < k; i++) { Node s = gen_type(r, T_TREE, o, d - 1); if (s.k != Node::ABS) l.c.push_back(s); }
			if (!l.c.empty()) n.c[2] = l;
		}
		return n;
	}
	case T_PPV: {
		int tag = 1 + (int)r.below(4);
		static const T k[5] = {T_OCT, T_VALUE, T_PERIOD, T_TUPEL, T_TIME};
		Node v = gen_type(r, k[tag], o, d);
		n.c = {Node::uns(1, tag), v};
		return n;
	}
	case T_PERIOD: return gfields(r, S_PERIOD, o, d);
	case T_TUPEL: return gfields(r, S_TUPEL, o, d);
	case T_HDR: return gfields(r, S_HDR, o, d);
	case T_POBJ: return gfields(r, S_POBJ, o, d);
	case T_VENT: return gfields(r, S_VENT, o, d);
	case T_LENTRY: {
		n = gfields(r, S_LENTRY, o, d);
		if (!r.p(0.05)) n.c[0] = Node::oct(gen_obis(r));
		if (n.c[4].k == Node::INT && r.p(0.8)) n.c[4] = Node::sint(1, r.range(-4, 4));
		if (n.c[3].k == Node::UNS && r.p(0.7)) n.c[3] = Node::uns(1, 27 + r.below(10));
		return n;
	}
	case T_SEQ_HDR: { int k = count(r, o); for (int i = 0; i < k; i++) n.c.push_back(gen_type(r, T_HDR, o, d)); return n; }
	case T_SEQ_POBJ: { int k = count(r, o); for (int i = 0; i < k; i++) n.c.push_back(gen_type(r, T_POBJ, o, d)); return n; }
	case T_SEQ_VENT: { int k = count(r, o); for (int i = 0; i < k; i++) n.c.push_back(gen_type(r, T_VENT, o, d)); return n; }
	case T_SEQ_PERIOD: { int k = count(r, o); for (int i = 0; i < k; i++) { Node e = gen_type(r, T_PERIOD, o, d); n.c.push_back(e); } return n; }
	case T_OBJLIST: { int k = count(r, o); for (int i = 0; i < k; i++) n.c.push_back(gen_type(r, T_OCT, o, d)); if (n.c.empty()) return Node::abs(); return n; }
	case T_VLIST: { int k = count(r, o) + (r.p(0.5) ? 2 : 0); for (int i = 0; i < k; i++) if (i && r.p(0.06)) { n.c.push_back(n.c[r.below(i)]); if (r.coin()) n.c.back().c[5] = gen_value(r, o); } else n.c.push_back(gen_type(r, T_LENTRY, o, d)); if (n.c.empty()) return Node::abs(); return n; }
	}
	return n;
}
Node gen_msg(Rng &r, uint32_t tag, GenOpt &o) {
	static bool vendor;
	if (vendor != o.vendor_time) used_msgs.clear();
	vendor = o.vendor_time;
	if (!used_msgs.empty() && r.p(0.04)) {
		Node u = used_msgs[r.below(used_msgs.size())];
		if (u.c[3].c[0].n == tag) return u;
	}
	Node m = Node::list({Node::oct(r.bytes(r.p(0.8) ? 16 : 1 + r.below(20))), gen_type(r, T_U8, o, 1), gen_type(r, T_U8, o, 1),
						 Node::list({Node::uns(4, tag), Node()})});
	m.c[3].c[1] = gfields(r, *body_schema(tag), o, o.depth);
	if (!used_msgs.empty() && r.p(0.1)) { // an identifier that has been used
		const Node &u = used_msgs[r.below(used_msgs.size())];
		m.c[0] = u.c[0];
		if (r.coin()) m.c[1] = u.c[1];
	}
	if (used_msgs.size() < 3) used_msgs.push_back(m); else used_msgs[r.below(3)] = m;
	return m;
}
Node tiny_msg(Rng &r) {
	return Node::list({Node::oct(r.bytes(1 + r.below(2))), Node::uns(1, r.below(256)), Node::uns(1, 0),
					   Node::list({Node::uns(4, r.coin() ? 0x201 : 0x200), Node::list({Node::abs()})})});
}
Node huge_msg(Rng &r, GenOpt &o) {
	Node m;
	static const size_t L[] = {255, 256, 257, 1000, 2047, 2048, 4094, 4095, 4096, 4097, 5000};
	size_t k = L[r.below(11)];
	switch (r.below(8)) {
	case 6: case 7: { // a long list within a profile
		static const size_t K[] = {100, 127, 128, 129, 200, 255, 256, 257, 600, 1000, 2049};
		static const struct { uint32_t tag; int at; T el; } P[] = {{0x300, 6, T_OCT}, {0x300, 7, T_OCT}, {0x400, 7, T_OCT}, {0x301, 3, T_OCT}, {0x301, 4, T_HDR}, {0x301, 5, T_POBJ}, {0x301, -1, T_VENT}, {0x401, 3, T_OCT}, {0x401, 6, T_PERIOD}, {0x401, 6, T_PERIOD}, {0x500, 3, T_OCT}, {0x600, 3, T_OCT}};
		auto &p = P[r.below(12)];
		m = gen_msg(r, p.tag, o);
		GenOpt q = o;
		q.p_abs = 0.8;
		q.p_edge = 0;
		q.max_oct = 3;
		q.max_list = 1;
		Node l = Node::list();
		for (size_t i = K[r.below(11)]; i > 0; i--) {
			Node e = gen_type(r, p.el, q, 2);
			if (p.el == T_OCT && (e.k == Node::ABS || e.s.empty())) e = Node::oct("q");
			l.c.push_back(e);
		}
		if (p.at >= 0) m.c[3].c[1].c[p.at] = l;
		else { // the values of one object
			Node ob;
			do ob = gen_type(r, T_POBJ, q, 2); while (ob.c.size() < 4);
			ob.c[2] = l;
			m.c[3].c[1].c[5] = Node::list({ob});
		}
		break;
	}
	case 0: case 1: { // a long string somewhere
		static const size_t S[] = {4092, 4093, 4095, 8191, 16383, 32766, 32767, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 100000};
		m = gen_msg(r, ALL_TAGS[r.below(14)], o);
		std::vector<Node *> v;
		std::function<void(Node &)> walk = [&](Node &x) { if (x.k == Node::OCT) v.push_back(&x); for (auto &c : x.c) walk(c); };
		walk(m);
		Bytes b = r.bytes(S[r.below(18)]);
		for (auto &c : b) if (c == 0x1b) c = 0x1a;
		v[r.below(v.size())]->s = b;
		break;
	}
	case 2: { // a long list
		m = gen_msg(r, 0x701, o);
		Node l = Node::list();
		for (size_t i = 0; i < k; i++) l.c.push_back(Node::list({Node::oct(r.bytes(1 + r.below(2))), Node(), Node(), Node(), Node(), Node::uns(1, r.next()), Node()}));
		m.c[3].c[1].c[4] = l;
		break;
	}
	case 3: { // a long path
		m = gen_msg(r, 0x501, o);
		Node l = Node::list();
		for (size_t i = 0; i < k; i++) l.c.push_back(Node::oct(r.bytes(1)));
		m.c[3].c[1].c[1] = l;
		break;
	}
	default: { // a broad or a deep tree
		m = gen_msg(r, 0x501, o);
		auto leaf = [&]() { return Node::list({Node::oct(r.bytes(1)), r.coin() ? Node() : Node::list({Node::uns(1, 1), Node::uns(1, r.next())}), Node()}); };
		Node t = leaf();
		if (r.coin()) { Node l = Node::list(); for (size_t i = 0; i < k; i++) l.c.push_back(leaf()); t.c[2] = l; }
		else for (int i = 4 + (int)r.below(r.coin() ? 12 : 120); i > 0; i--) {
			Node u = leaf();
			u.c[2] = Node::list({t});
			if (r.p(0.2)) u.c[2].c.insert(r.coin() ? u.c[2].c.begin() : u.c[2].c.end(), leaf());
			t = u;
		}
		m.c[3].c[1].c[2] = t;
	}
	}
	return m;
}
