// C14-C16: the command-line reader, main() included, over a simulated serial port, pipe or standard
// input. Real: examples/sml_server.c and the library. Simulated: descriptors, termios, stdio.
#include "exec.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <fcntl.h>
#include <sys/ioctl.h>

extern "C" int sml_server_main(int argc, char **argv);

static const std::map<int, const char *> UNITS = {
	{1, "a"}, {2, "mo"}, {3, "wk"}, {4, "d"}, {5, "h"}, {6, "min."}, {7, "s"}, {8, "\u00b0"}, {9, "\u00b0C"}, {10, "currency"},
	{11, "m"}, {12, "m/s"}, {13, "m\u00b3"}, {14, "m\u00b3"}, {15, "m\u00b3/h"}, {16, "m\u00b3/h"}, {17, "m\u00b3/d"}, {18, "m\u00b3/d"},
	{19, "l"}, {20, "kg"}, {21, "N"}, {22, "Nm"}, {23, "Pa"}, {24, "bar"}, {25, "J"}, {26, "J/h"}, {27, "W"}, {28, "VA"}, {29, "var"},
	{30, "Wh"}, {31, "VAh"}, {32, "varh"}, {33, "A"}, {34, "C"}, {35, "V"}, {36, "V/m"}, {37, "F"}, {38, "\u03a9"}, {39, "\u03a9m\u00b2/m"},
	{40, "Wb"}, {41, "T"}, {42, "A/m"}, {43, "H"}, {44, "Hz"}, {45, "1/(Wh)"}, {46, "1/(varh)"}, {47, "1/(VAh)"}, {48, "V\u00b2h"},
	{49, "A\u00b2h"}, {50, "kg/s"}, {51, "S, mho"}, {52, "K"}, {53, "1/(V\u00b2h)"}, {54, "1/(A\u00b2h)"}, {55, "1/m\u00b3"}, {56, "%"},
	{57, "Ah"}, {60, "Wh/m\u00b3"}, {61, "J/m\u00b3"}, {62, "Mol %"}, {63, "g/m\u00b3"}, {64, "Pa s"}, {253, "(reserved)"},
	{254, "(other)"}, {255, "(unitless)"}};

struct Want { // one expected line
	Bytes head, tail;   // everything but the number; for the others head is the whole line
	bool numeric = false;
	std::string digits; // exact decimal text
	bool exact = true;  // compare digit for digit
	int prec = 0;
	size_t frame_end = 0;
	Bytes also;         // accepted as well (a known finding)
};
static std::string decimal(const Node &v, int scaler, bool &exact) {
	bool neg = v.k == Node::INT && (int64_t)v.n < 0;
	uint64_t m = neg ? 0 - v.n : v.n;
	std::string d = strf("%llu", (unsigned long long)m);
	exact = m <= 1000000000000000ull;
	if (scaler >= 0) {
		if (m) d += std::string(scaler, '0');
		if (d.size() > 16) exact = false;
	} else {
		size_t k = (size_t)-scaler;
		if (d.size() <= k) d = std::string(k + 1 - d.size(), '0') + d;
		d.insert(d.size() - k, ".");
	}
	return (neg ? "-" : "") + d;
}
static void want_lines(const Node &m, size_t frame_end, std::vector<Want> &out, bool known) {
	const Node &l = m.c[3].c[1].c[4];
	if (l.k != Node::LST) return;
	for (auto &e : l.c) {
		const Node &name = e.c[0], &v = e.c[5];
		if (name.k != Node::OCT || name.s.size() < 6 || v.k == Node::ABS) continue;
		auto b = [&](int i) { return (int)(unsigned char)name.s[i]; };
		Want w;
		w.frame_end = frame_end;
		w.head = strf("%d-%d:%d.%d.%d*%d#", b(0), b(1), b(2), b(3), b(4), b(5));
		if (v.k == Node::OCT) {
			bool text = true;
			for (unsigned char c : v.s) {
				text = text && c > 0x20 && c < 0x7b;
				w.head += text ? std::string(1, (char)c) : strf("%02x ", c);
			}
			w.head += "#";
		} else if (v.k == Node::BOOL) {
			if (!v.n && !known) w.also = w.head + "true#";
			w.head += v.n ? "true#" : "false#";
		}
		else if (v.k == Node::UNS || v.k == Node::INT) {
			w.numeric = true;
			int sc = e.c[4].k == Node::ABS ? 0 : (int)(int64_t)e.c[4].n;
			w.prec = sc < 0 ? -sc : 0;
			w.digits = decimal(v, sc, w.exact);
			w.tail = "#";
			if (e.c[3].k == Node::UNS) { auto u = UNITS.find((int)e.c[3].n); if (u != UNITS.end()) w.tail += u->second; }
		} else continue;
		out.push_back(w);
	}
}
// Known findings of the program, kept out of the search and shown by scenarios of their own:
// it crashes on a reading without a complete OBIS code ...
static bool nameless_reading(const RefFile &f) {
	for (auto &m : f.msgs) {
		if (m.m.c[3].c[0].n != 0x701 || m.m.c[3].c[1].k != Node::LST) continue;
		const Node &l = m.m.c[3].c[1].c[4];
		if (l.k == Node::LST) for (auto &e : l.c) if (e.c[5].k != Node::ABS && (e.c[0].k != Node::OCT || e.c[0].s.size() < 6)) return true;
	}
	return false;
}
static bool nameless_reading(const Stream &st) {
	for (auto &f : ref_frames(st.data, 8096).fr) if (nameless_reading(ref_parse(f.second.substr(8, f.second.size() - 16)))) return true;
	return false;
}
// ... and it leaves CREAD, VMIN and VTIME of the port as they were.
static bool deaf_port(const struct termios &t) {
	return !(t.c_cflag & CREAD) || !t.c_cc[VMIN] || (t.c_cc[VMIN] > 1 && !t.c_cc[VTIME]);
}
static bool line_matches(const Want &w, const Bytes &l) {
	if (!w.numeric) return l == w.head || (!w.also.empty() && l == w.also);
	if (l.size() < w.head.size() + w.tail.size() || l.compare(0, w.head.size(), w.head) || l.compare(l.size() - w.tail.size(), w.tail.size(), w.tail)) return false;
	std::string n = l.substr(w.head.size(), l.size() - w.head.size() - w.tail.size());
	if (w.exact) return n == w.digits;
	size_t i = n[0] == '-', k = n.find('.');
	if (n.find_first_not_of("0123456789.", i) != std::string::npos) return false;
	if (w.prec == 0 ? k != std::string::npos : k == std::string::npos || n.size() - k - 1 != (size_t)w.prec) return false;
	double a = strtod(n.c_str(), 0), b = strtod(w.digits.c_str(), 0);
	return fabs(a - b) <= 1e-14 * fabs(b);
}
static std::string want_text(const Want &w) { return w.numeric ? w.head + w.digits + w.tail : w.head; }
static std::vector<Bytes> split_lines(const Bytes &b, Bytes &rest) {
	std::vector<Bytes> v;
	size_t i = 0, k;
	while ((k = b.find('\n', i)) != Bytes::npos) { v.push_back(b.substr(i, k - i)); i = k + 1; }
	rest = b.substr(i);
	return v;
}
static bool is_reading(const Bytes &l) { // digits-digits:...
	size_t i = 0;
	while (i < l.size() && isdigit((unsigned char)l[i])) i++;
	return i > 0 && i < l.size() && l[i] == '-' && l.find('#') != Bytes::npos;
}

void exec_tool(const Scn &s) {
	bool known = s.geti("known", 0);
	std::string prop = s.get("prop"), dev = s.get("dev", "fifo"), path = "/dev/ttySIM0";
	Stream st = build_stream(s);
	new_world(s);
	static Line l;
	static Tty tty;
	build_line(s, st, l);
	W->log.add(st.data);
	g_step_limit = 2000000 + 3000ull * st.data.size() + 3000ull * s.L.size();
	bool stdin_used = dev == "stdin" || dev == "stdin-tty";
	memset(&tty.tio, 0, sizeof tty.tio);
	cfsetispeed(&tty.tio, B9600);
	cfsetospeed(&tty.tio, B9600);
	tty.tio.c_cflag |= CS8 | CREAD;
	tty.tio.c_cc[VMIN] = 1;
	for (auto &x : s.L) {
		if (x[0] == "tio" && x.size() >= 8) {
			tty.tio.c_iflag = strtoul(x[1].c_str(), 0, 0);
			tty.tio.c_oflag = strtoul(x[2].c_str(), 0, 0);
			tty.tio.c_cflag = strtoul(x[3].c_str(), 0, 0) & ~(tcflag_t)(CBAUD | CIBAUD);
			tty.tio.c_lflag = strtoul(x[4].c_str(), 0, 0);
			Bytes cc;
			if (!unhex(x[5], cc)) invalid("cc");
			for (size_t i = 0; i < cc.size() && i < NCCS; i++) tty.tio.c_cc[i] = (cc_t)cc[i];
			cfsetospeed(&tty.tio, strtoul(x[6].c_str(), 0, 0));
			cfsetispeed(&tty.tio, strtoul(x[7].c_str(), 0, 0));
		}
	}
	if (!known && nameless_reading(st)) invalid("a reading without a complete name");
	if (!known && dev == "tty" && deaf_port(tty.tio)) invalid("a port that is deaf beforehand");
	tty.modem = (int)s.geti("modem", 0);
	tty.modem_errno = (int)s.geti("modem_errno", 0);
	struct termios tio0 = tty.tio;
	int open_errno = 0;
	if (dev.compare(0, 4, "err:") == 0) { open_errno = atoi(dev.c_str() + 4); if (open_errno <= 0) invalid("errno"); }
	bool is_tty = dev == "tty" || dev == "stdin-tty" || open_errno;
	if (is_tty) for (auto &a : l.arr) a.first += 1; // the meter sends after the port is open
	if (is_tty) l.end_time += 1;
	if (stdin_used) { W->fds[0] = SFd(); W->fds[0].type = is_tty ? FD_TTY : FD_LINE; W->fds[0].line = &l; W->fds[0].tty = is_tty ? &tty : nullptr; path = "-"; }
	else if (dev != "none") {
		Device d;
		d.path = path;
		d.type = is_tty ? FD_TTY : FD_LINE;
		d.line = &l;
		d.tty = &tty;
		d.open_errno = open_errno;
		W->devs.push_back(d);
	} else open_errno = ENOENT;
	std::vector<std::string> args{"sml_server"};
	for (auto &x : s.L) if (x[0] == "opt") for (size_t i = 1; i < x.size(); i++) args.push_back(x[i]);
	args.push_back(path);
	bool single = false, verbose = false;
	for (auto &a : args) if (a.size() > 1 && a[0] == '-') for (char c : a) { single |= c == 's'; verbose |= c == 'v'; }

	// what has to be printed
	bool model = s.geti("hostile", 0) == 0;
	size_t damage_end = model ? st.damage_end() : 0; // readings are due a buffer's length after the last damage
	std::vector<Want> want;
	size_t single_end = ~(size_t)0;
	if (model) {
		if (!st.clean_starts(damage_end) || (damage_end && (prop != "C15" || single))) invalid("damaged stream");
		for (auto &p : st.pieces) {
			if (p.tag != 'F' || (damage_end && p.off < damage_end + 8096)) continue;
			if (p.len > 8096) invalid("frame too long");
			for (auto &m : ref_parse(st.data.substr(p.off + 8, p.len - 16)).msgs) {
				if (m.m.c[3].c[0].n != 0x701) continue;
				want_lines(m.m, p.off + p.len, want, known);
				if (single && single_end == ~(size_t)0) { single_end = p.off + p.len; break; }
			}
			if (single_end != ~(size_t)0) break;
		}
	}
	size_t numeric = 0;
	for (auto &w : want) numeric += w.numeric;
	size_t boundaries = 0;
	uint64_t first_held = 0;
	auto compare = [&](const Bytes &text, bool complete, size_t upto, const char *when) {
		Bytes rest;
		std::vector<Bytes> v = split_lines(text, rest);
		if (verbose) v.erase(std::remove_if(v.begin(), v.end(), [](const Bytes &x) { return !is_reading(x); }), v.end());
		if (damage_end && v.size() > want.size()) v.erase(v.begin(), v.end() - want.size()); // and whatever came before
		size_t need = 0;
		for (size_t i = 0; i < want.size(); i++) if (want[i].frame_end <= upto && (complete || want[i].numeric)) need = i + 1;
		for (size_t i = 0; i < v.size() && i < want.size(); i++)
			if (!line_matches(want[i], v[i])) violation("wrong-line", strf("line %zu: expected '%s', printed '%s'", i + 1, want_text(want[i]).c_str(), v[i].substr(0, 300).c_str()));
		if (v.size() > want.size()) violation("surplus-line", strf("printed '%s', which is no reading that was received", v[want.size()].substr(0, 300).c_str()));
		if (v.size() < need) {
			violation(complete ? "line-missing" : "held-back", strf("%s only %zu of %zu lines are visible; missing '%s'", when, v.size(), need, want_text(want[v.size()]).c_str()));
		}
		if (complete && !rest.empty()) violation("partial-line", "the output ends with '" + rest.substr(0, 200) + "'");
	};
	W->on_block = [&]() {
		if (prop == "C08") {} else if (model && damage_end) {} else if (model && prop != "C16") compare(W->out.visible, false, l.arrived(W->now), "while the reader waits");
		Bytes rest;
		if (!model && prop != "C08") for (auto &x : split_lines(W->out.pending, rest)) // a complete numeric line still in the program's buffer
			if (is_reading(x)) {
				size_t a = x.find('#'), b = x.find('#', a + 1);
				std::string n = b == Bytes::npos ? "" : x.substr(a + 1, b - a - 1);
				if (b != Bytes::npos && b + 1 < x.size() && !n.empty() && n.find_first_not_of("-.0123456789") == std::string::npos)
					violation("held-back", "the reader waits with an unwritten reading '" + x.substr(0, 200) + "'");
			}
		for (auto &p : st.pieces)
			if (p.tag == 'F' && l.pos == p.off + p.len) {
				if (++boundaries == 2) first_held = LG.bytes;
				else if (boundaries > 2 && prop == "C08" && LG.bytes != first_held) violation("leak", strf("%lld bytes more are held after another frame", (long long)(LG.bytes - first_held)));
			}
	};
	std::vector<char *> argv;
	for (auto &a : args) argv.push_back((char *)a.c_str());
	argv.push_back(nullptr);
	int code = -1;
	int fds0 = W->open_fds();
	pollute_stack((int)s.geti("fill", 0x5a) & 255);
	RunEnd e = run_guarded([&]() { code = sml_server_main((int)argv.size() - 1, argv.data()); });
	W->on_block = nullptr;
	if (e == END_RETURN) { W->out.visible += W->out.pending; W->out.pending.clear(); }
	if (e == END_EXIT) code = g_exit_code;
	Bytes all = W->out.visible + (e == END_STUCK ? W->out.pending : Bytes());
	W->log.add(all);
	W->log.addn(code);
	tracef("exit %d, end %d, output:\n%s\n", code, (int)e, all.substr(0, 4000).c_str());

	if (prop == "C08") {
		if (e == END_RETURN && W->open_fds() > fds0) violation("descriptor-leak", "descriptors remain open");
		g_sh->parts += boundaries;
		g_sh->nontrivial = boundaries > 2;
		return;
	}
	if (open_errno) {
		g_sh->nontrivial = 1;
		if (e == END_STUCK) violation("reads-without-port", "the reader waits although its port could not be opened");
		if (code == 0) violation("exit-status", "exit status 0 although the port could not be opened");
		if (W->read_calls) violation("reads-without-port", "the reader reads although its port could not be opened");
		if (W->err.empty()) violation("no-message", "no error message although the port could not be opened");
		return;
	}
	bool ends_early = single && (model ? single_end != ~(size_t)0 : true);
	if (e == END_STUCK && l.end) violation("end-missed", "the reader waits for ever on a line that has ended");
	if (e == END_STUCK && model && ends_early && l.arrived(W->now) >= single_end) violation("single-mode", "the reader goes on after the first list response");
	if (e != END_STUCK && code != 0) violation("exit-status", strf("exit status %d", code));
	if (e != END_STUCK && !ends_early && !l.ended(W->now)) violation("stopped-early", strf("the reader stopped at byte %zu of %zu, the line is still alive", l.pos, l.data.size()));
	if (e != END_STUCK && !ends_early && l.pos < l.data.size() && !is_tty) violation("stopped-early", strf("the reader stopped at byte %zu of %zu", l.pos, l.data.size()));
	if (model) compare(all, true, ~(size_t)0, "at the end");
	if (dev == "tty") {
		const struct termios &t = tty.tio;
		if (!tty.echoed.empty()) violation("echo", "bytes are sent back to the meter");
		if ((t.c_cflag & CSIZE) != CS8 || (t.c_cflag & (PARENB | CSTOPB))) violation("not-8n1", strf("c_cflag is %o", t.c_cflag));
		if (cfgetispeed(&t) != B9600 || cfgetospeed(&t) != B9600) violation("speed", "the port does not run at 9600 baud");
		if (t.c_lflag & (ICANON | ECHO | ISIG)) violation("not-raw", strf("c_lflag is %o", t.c_lflag));
		if (!tty.modem_errno && !(tty.modem & TIOCM_RTS)) violation("rts", "RTS is not asserted");
		if (!tty.modem_errno && ((tty.modem ^ (int)s.geti("modem", 0)) & ~TIOCM_RTS)) violation("modem-lines", strf("control lines changed from %x to %x", (int)s.geti("modem", 0), tty.modem));
	}
	if (stdin_used) {
		if (tty.tcsetattr_calls || memcmp(&tio0, &tty.tio, sizeof tio0) || tty.modem != (int)s.geti("modem", 0)) violation("stdin-settings", "the settings of standard input were changed");
	}
	g_sh->parts += want.size();
	count("lines-printed", want.size());
	g_sh->nontrivial = prop == "C15" ? !model || numeric > 0 : !want.empty();
}

// ------------------------------------------------------------------------------ generation
static Bytes obis_name(Rng &r) {
	static const char *n[] = {"\x01\x00\x01\x08\x00\xff", "\x01\x00\x02\x08\x00\xff", "\x01\x00\x10\x07\x00\xff", "\x81\x81\xc7\x82\x03\xff", "\x01\x00\x60\x01\x00\xff", "\x00\x00\x00\x00\x00\x00"};
	if (r.p(0.6)) return Bytes(n[r.below(6)], 6);
	return r.bytes(6);
}
static Node reading(Rng &r, bool odd, bool control) {
	Node name = Node::oct(obis_name(r));
	bool nameless = odd && r.p(0.3);
	if (nameless) { static const int L[] = {0, 1, 3, 5, 7, 8, 15, 20}; name = r.p(0.3) ? Node::abs() : Node::oct(r.bytes(L[r.below(8)])); }
	Node unit = r.p(0.25) ? Node::abs() : Node::uns(1, r.p(0.6) ? 27 + r.below(10) : r.below(256));
	Node scaler = r.p(0.25) ? Node::abs() : Node::sint(1, r.p(0.85) ? r.range(-6, 4) : r.range(-128, 127));
	Node v;
	static const int Wd[4] = {1, 2, 4, 8};
	int sel = (int)r.below(10);
	if (control) sel = r.p(0.8) ? 7 : (int)r.below(7);
	if (sel < 4) {
		int w = Wd[r.below(4)];
		uint64_t x = r.next() >> r.below(64);
		if (r.p(0.1)) x = r.coin() ? ~0ull : 1ull << (8 * w - 1);
		v = Node::uns(w, x);
	} else if (sel < 7) {
		int w = Wd[r.below(4)];
		int64_t x = (int64_t)r.next() >> r.below(64);
		if (r.p(0.1)) x = r.coin() ? -1 : (int64_t)(1ull << (8 * w - 1));
		v = Node::sint(w, x);
	} else if (sel < 9) {
		Bytes b;
		int n = r.p(0.1) ? (int)r.below(200) : (int)r.below(20);
		if (n == 0 && !odd) n = 1;
		static const unsigned char ctl[] = {3, 4, 0x0a, 0x0d, 0x11, 0x13, 0x12, 0x15, 0x16, 0x17, 0x1a, 0x1c, 0x7f, 0xff, 0, 8, 0x41, 0x61, 0x80, 0x20, 0x21, 0x7a, 0x7b, 0x7e};
		for (int i = 0; i < n; i++) b += control ? (char)ctl[r.below(sizeof ctl)] : r.p(0.8) ? (char)(0x20 + r.below(0x60)) : (char)r.next();
		if (b == Bytes() && r.coin()) v = Node::abs(); else v = Node::oct(b);
	} else v = Node::boolean(r.coin());
	if ((odd && r.p(0.15)) || (nameless && (name.k == Node::ABS || name.s.size() < 6))) v = Node::abs();
	Node e = Node::list({name, Node::abs(), Node::abs(), unit, scaler, v, Node::abs()});
	if (r.p(0.2)) e.c[1] = Node::uns(Wd[r.below(4)], r.next());
	if (r.p(0.15)) e.c[6] = Node::oct(r.bytes(1 + r.below(8)));
	return e;
}
static Node list_msg(Rng &r, GenOpt &o, bool odd, bool control) {
	Node m = gen_msg(r, 0x701, o);
	if (r.p(0.06)) { m.c[3].c[1].c[4] = Node::abs(); return m; }
	Node l = Node::list();
	int n = r.p(0.1) ? (int)r.below(30) : 1 + (int)r.below(6);
	if (r.p(0.04)) n = 0;
	for (int i = 0; i < n; i++) l.c.push_back(reading(r, odd, control));
	m.c[3].c[1].c[4] = l;
	return m;
}
static void gen_tio(Rng &r, Scn &s) {
	tcflag_t i = 0, o = 0, c = 0, l = 0;
	Bytes cc(19, 0);
	static const unsigned char dflt[] = {3, 0x1c, 0x7f, 0x15, 4, 0, 1, 0, 0x11, 0x13, 0x1a, 0, 0x12, 0x0f, 0x17, 0x16, 0, 0, 0};
	for (size_t k = 0; k < cc.size(); k++) cc[k] = (char)dflt[k];
	switch (r.below(4)) {
	case 0: i = ICRNL | IXON | IMAXBEL; o = OPOST | ONLCR; c = CS8 | CREAD | HUPCL; l = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN; break;
	case 1: c = CS8 | CREAD | CLOCAL; break;
	case 2: i = (tcflag_t)r.below(1u << 15); o = (tcflag_t)r.below(1u << 15); c = (tcflag_t)(r.below(1u << 15)) & (CSIZE | CSTOPB | CREAD | PARENB | PARODD | HUPCL | CLOCAL); l = (tcflag_t)r.below(1u << 16); break;
	default: i = ISTRIP | INPCK | IXON | PARMRK; c = CS7 | PARENB | CREAD | CLOCAL | (r.coin() ? CSTOPB : 0); l = r.coin() ? ICANON | ECHO | ECHONL : 0; break;
	}
	if (r.p(0.3)) { static const tcflag_t f[] = {IGNBRK, BRKINT, IGNPAR, PARMRK, INPCK, ISTRIP, INLCR, IGNCR, ICRNL, IXON, IXANY, IXOFF}; i ^= f[r.below(12)]; }
	if (r.p(0.4)) { cc[VMIN] = (char)(r.coin() ? 0 : r.below(256)); cc[VTIME] = (char)(r.coin() ? 0 : r.below(30)); }
	if (r.p(0.2)) for (auto &x : cc) if (r.p(0.3)) x = (char)r.next();
	static const speed_t sp[] = {B300, B1200, B2400, B4800, B9600, B19200, B115200, B0, B50};
	if (!(c & CREAD)) c |= CREAD;
	if (!cc[VMIN]) cc[VMIN] = 1;
	if ((unsigned char)cc[VMIN] > 1 && !cc[VTIME]) cc[VTIME] = (char)(1 + r.below(30));
	speed_t os = sp[r.below(9)], is = r.p(0.9) ? os : sp[r.below(9)];
	s.add({"tio", strf("%u", i), strf("%u", o), strf("%u", c), strf("%u", l), hex(cc), strf("%u", os), strf("%u", is)});
	s.add({"modem", strf("%u", (unsigned)(r.below(0x200)) << 1)});
	if (r.p(0.1)) s.add({"modem_errno", strf("%d", r.coin() ? ENOTTY : EINVAL)});
}

Scn gen_tool(const std::string &prop, Rng &r) {
	for (;;) {
		Scn s;
		s.add({"prop", prop});
		s.add({"kind", "tool"});
		s.add({"fill", strf("%d", (int)(r.coin() ? 0xff : r.below(256)))});
		std::string dev = r.p(0.4) ? "tty" : r.coin() ? "fifo" : "stdin";
		if (prop == "C16") {
			dev = r.p(0.75) ? "tty" : r.p(0.4) ? "stdin-tty" : r.p(0.7) ? "err:" + std::to_string(std::vector<int>{EACCES, ENOENT, EBUSY, EIO, EMFILE, ENXIO, EINTR}[r.below(7)]) : "none";
		}
		s.add({"dev", dev});
		bool single = prop == "C08" ? false : r.p(prop == "C14" ? 0.25 : 0.05), verbose = r.p(0.15);
		if (single && verbose) { if (r.coin()) s.add({"opt", "-sv"}); else s.add({"opt", "-v", "-s"}); }
		else if (single) s.add({"opt", "-s"});
		else if (verbose) s.add({"opt", "-v"});
		if (dev == "stdin-tty") { // whatever it is set to, it stays; usable settings so that readings arrive
			s.add({"tio", "0", strf("%d", (int)r.below(8)), strf("%u", (unsigned)(CS8 | CREAD | CLOCAL)), "0", "031c7f15040001001113", strf("%u", (unsigned)B9600), strf("%u", (unsigned)B9600)});
			s.add({"modem", strf("%u", (unsigned)(r.below(0x200)) << 1)});
		} else if (prop == "C16" || (dev == "tty" && r.p(0.3))) gen_tio(r, s);
		GenOpt o;
		o.max_oct = 12;
		o.depth = 2;
		bool ok = true;
		bool hostile = prop == "C15" && r.p(0.5);
		if (hostile && r.p(0.6)) {
			s.add({"hostile", "1"});
			Scn q = gen_parse("C07", r);
			for (auto &x : q.L) if (x[0] != "prop" && x[0] != "kind" && x[0] != "fill" && x[0] != "nonblock") s.L.push_back(x);
			if (nameless_reading(build_stream(s))) continue;
			return s;
		}
		int nf = 1 + (int)r.below(r.p(0.1) ? 12 : 4);
		if (prop == "C08") nf += 3;
		bool storm = prop == "C15" && !single && !hostile && r.p(0.12);
		if (storm) { // a time of damage, then undamaged noise or frames for the length of the receiver's buffer
			for (int k = 1 + (int)r.below(r.coin() ? 5 : 80); k > 0; k--) {
				Bytes d = frame(rx_payload(r, r.below(20)));
				if (r.coin()) d.resize(1 + r.below(d.size())); else d.insert(8, Bytes("\x1b\x1b\x1b\x1b\x02", 5) + r.bytes(3));
				s.add({"s", hex(d), "D"});
			}
			for (size_t n = 0; n < 8096;) { size_t k = 1 + r.below(3000); s.add({"s", hex(rx_noise(r, k)), "N"}); n += k; }
		}
		for (int f = 0; f < nf; f++) {
			if (r.p(0.3)) s.add({"s", hex(rx_noise(r, 1 + r.below(30))), "N"});
			s.add({"fr"});
			Bytes payload;
			std::vector<std::pair<size_t, size_t>> spans;
			int nm = 1 + (int)r.below(4);
			for (int k = 0; k < nm; k++) {
				Node m = r.p(prop == "C16" ? 1 : 0.7) ? list_msg(r, o, prop != "C16", prop == "C16") : gen_msg(r, ALL_TAGS[r.below(14)], o);
				EncChoice c{&r};
				Bytes h;
				if (r.coin()) h = enc_msg_head(m);
				else { h = tl(0x70, 6); for (auto &x : m.c) h += enc_foreign(x, c); }
				Bytes b = seal(h, r.p(0.1));
				if (payload.size() + b.size() > 7900) break;
				spans.push_back({payload.size(), b.size()});
				payload += b;
				s.add({"x", hex(b)});
			}
			if (prop != "C16" && !payload.empty() && r.p(0.2)) {
				auto &sp = spans[r.below(spans.size())];
				size_t at = sp.first + r.below(sp.second);
				int x = 1 << r.below(8);
				payload[at] = (char)(payload[at] ^ x);
				s.add({"c", strf("%zu", at), strf("%d", x)});
				count("fault-byte-corrupted");
			}
			if (has_aligned_esc(payload) || has_start(payload)) ok = false;
		}
		if (!ok) continue;
		repeat_frames(r, s);
		if (r.p(0.2)) s.add({"s", hex(rx_noise(r, 1 + r.below(30))), "N"});
		Stream st = build_stream(s);
		if (!st.clean_starts(st.damage_end()) || nameless_reading(st)) continue;
		std::vector<size_t> hot;
		for (auto &p : st.pieces) { if (p.len > 8096) ok = false; hot.push_back(p.off); hot.push_back(p.off + p.len - 1); hot.push_back(p.off + p.len); }
		if (!ok) continue;
		SchedOpt so;
		if (prop == "C08") { // arrivals that end with the frames, so that the reader waits in between
			size_t at = 0;
			for (auto &p : st.pieces) { s.add({"a", strf("%d", (int)r.range(1, 2000000)), strf("%zu", p.off + p.len - at)}); at = p.off + p.len; }
		} else gen_schedule(r, s, st.data.size(), hot, so);
		gen_end(r, s, r.p(0.3) ? 0 : -1);
		return s;
	}
}
