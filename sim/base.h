// Shared helpers of the simulator: bytes, hex, PRNG, checksums, scenario text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef std::string Bytes; // byte strings; std::string is a convenient value type

struct Rng { // splitmix64-seeded xorshift*; every random choice of a run comes from one of these
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
	bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
	bool coin() { return next() & 1; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	Bytes bytes(size_t n) {
		Bytes b(n, 0);
		for (auto &c : b) c = (char)next();
		return b;
	}
};

inline uint64_t mix64(uint64_t a, uint64_t b) {
	Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
	return r.next();
}

struct Hash { // FNV-1a 64 for event logs
	uint64_t h = 1469598103934665603ull;
	void add(const void *p, size_t n) {
		const unsigned char *c = (const unsigned char *)p;
		for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
	}
	void add(const Bytes &b) { add(b.data(), b.size()); addn(b.size()); }
	void addn(uint64_t v) { add(&v, 8); }
};

inline std::string hex(const Bytes &b) {
	static const char *d = "0123456789abcdef";
	std::string s;
	s.reserve(b.size() * 2);
	for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; }
	return s;
}
inline int hexval(char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
inline bool unhex(const std::string &s, Bytes &out) {
	out.clear();
	if (s == "-") return true;
	if (s.size() % 2) return false;
	for (size_t i = 0; i < s.size(); i += 2) {
		int a = hexval(s[i]), b = hexval(s[i + 1]);
		if (a < 0 || b < 0) return false;
		out += (char)(a << 4 | b);
	}
	return true;
}

// Independent (bitwise) checksum implementations, not shared with the library.
inline uint16_t crc_reflected(uint16_t init, const Bytes &b) {
	uint16_t c = init;
	for (unsigned char x : b) {
		c ^= x;
		for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ 0x8408 : c >> 1;
	}
	return c;
}
inline uint16_t crc_x25(const Bytes &b) { // value as transmitted, first byte in the high half
	uint16_t c = crc_reflected(0xffff, b) ^ 0xffff;
	return (uint16_t)((c << 8) | (c >> 8));
}
inline uint16_t crc_kermit(const Bytes &b) { return crc_reflected(0, b); }

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// A scenario is a list of lines of tokens. It holds every decision of a run.
struct Scn {
	std::vector<std::vector<std::string>> L;
	void add(std::initializer_list<std::string> l) { L.emplace_back(l); }
	std::string text() const;
	static Scn parse(const std::string &t);
	std::string get(const std::string &key, const std::string &def = "") const {
		for (auto &l : L) if (l[0] == key) return l.size() > 1 ? l[1] : "";
		return def;
	}
	long long geti(const std::string &key, long long def) const {
		std::string s = get(key, "");
		return s.empty() ? def : strtoll(s.c_str(), 0, 0);
	}
};
