// Trace and scenario helpers shared by all harnesses.
#pragma once
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <mpi.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>

namespace vt {

/// TLC's integers are 32 bit: everything numeric in a trace is clipped to this range.
inline long clip(double x) {
	if (std::isnan(x)) return 2000000000;
	if (x > 1999999999.0) return 1999999999;
	if (x < -1999999999.0) return -1999999999;
	return std::lround(x);
}
/// value * scale, rounded to the nearest integer
inline long fix(double x, double scale) { return clip(x * scale); }
/// the exact bits of a double, as a string (an opaque token for the specification)
inline std::string bits(double x) {
	if (x == 0) x = 0.0; // -0 is 0
	uint64_t u; std::memcpy(&u, &x, 8);
	char b[20]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long) u);
	return b;
}
/// a real number for module Real (exact)
inline std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
struct Fnv {
	uint64_t h = 1469598103934665603ULL;
	void add(const void* p, size_t n) { auto c = (const unsigned char*) p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } }
	void add(double x) { if (x == 0) x = 0.0; add(&x, 8); }
	void add(const std::string& s) { add(s.data(), s.size()); }
	std::string str() const { char b[20]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long) h); return b; }
};

class Ev;
class Trace {
	FILE* f = nullptr;
	bool held = false; std::string kept;
public:
	long scn = -1; ///< number of the scenario (field s of every event)
	void open(const std::string& path, bool root = false) { if (root) { int r = 0; MPI_Comm_rank(MPI_COMM_WORLD, &r); if (r > 0) { if (std::getenv("VT_SCN")) scn = std::atol(std::getenv("VT_SCN")) - 1; return; } } f = std::fopen(path.c_str(), std::getenv("VT_APPEND") ? "a" : "w"); if (std::getenv("VT_SCN")) scn = std::atol(std::getenv("VT_SCN")) - 1; if (!f) { std::perror(path.c_str()); _exit(3); } }
	void line(const std::string& s) { if (held) { kept += s; kept += '\n'; return; } if (!f) return; std::fputs(s.c_str(), f); std::fputc('\n', f); std::fflush(f); }
	bool on() const { return f != nullptr; }
	/// events of all processes: kept from hold() on, written by process 0 in the order of the processes at merge()
	void hold() { held = true; kept.clear(); }
	void merge() {
		held = false; int n = 1, r = 0; MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
		int len = kept.size(); std::vector<int> lens(n), at(n); MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
		long tot = 0; for (int i = 0; i < n; i++) { at[i] = tot; tot += lens[i]; }
		std::string all(r == 0 ? tot : 0, ' '); MPI_Gatherv(&kept[0], len, MPI_CHAR, r == 0 ? &all[0] : nullptr, lens.data(), at.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
		if (r == 0 && f) { std::fputs(all.c_str(), f); std::fflush(f); }
		kept.clear();
	}
};
inline Trace& trace() { static Trace t; return t; }

inline std::string esc(const std::string& s) {
	std::string r;
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char) c < 32 || (unsigned char) c > 126) r += '?';
		else r += c;
	}
	return r;
}

/// One event: Ev("Name").k("field", value)...   written when it goes out of scope.
class Ev {
	std::string s;
	void key(const char* k) { s += ",\""; s += k; s += "\":"; }
public:
	explicit Ev(const std::string& e) { s = "{\"e\":\"" + e + "\""; if (trace().scn >= 0) s += ",\"s\":" + std::to_string(trace().scn); }
	Ev& k(const char* n, long v) { key(n); s += std::to_string(v); return *this; }
	Ev& k(const char* n, int v) { return k(n, (long) v); }
	Ev& k(const char* n, unsigned v) { return k(n, (long) v); }
	Ev& k(const char* n, size_t v) { return k(n, (long) std::min<size_t>(v, 1999999999)); }
	Ev& k(const char* n, bool v) { key(n); s += v ? "true" : "false"; return *this; }
	Ev& k(const char* n, const std::string& v) { key(n); s += "\"" + esc(v) + "\""; return *this; }
	Ev& k(const char* n, const char* v) { return k(n, std::string(v)); }
	template<class T> Ev& k(const char* n, const std::vector<T>& v) { key(n); s += arr(v); return *this; }
	static std::string one(long v) { return std::to_string(v); }
	static std::string one(int v) { return std::to_string(v); }
	static std::string one(const std::string& v) { return "\"" + esc(v) + "\""; }
	template<class T> static std::string one(const std::vector<T>& v) { return arr(v); }
	template<class T> static std::string arr(const std::vector<T>& v) {
		std::string r = "["; bool first = true;
		for (const auto& x : v) { if (!first) r += ","; first = false; r += one(x); }
		return r + "]";
	}
	Ev& raw(const char* n, const std::string& json) { key(n); s += json; return *this; }
	~Ev() { trace().line(s + "}"); }
};

typedef boost::property_tree::ptree Json;
/// scenario file: one JSON object per line
inline std::vector<Json> scenarios(const std::string& path) {
	std::ifstream in(path);
	std::vector<Json> r; std::string l;
	while (std::getline(in, l)) { if (l.empty()) continue; std::istringstream is(l); Json j; boost::property_tree::read_json(is, j); r.push_back(j); }
	return r;
}
inline long geti(const Json& j, const char* k, long d = 0) { return j.get<long>(k, d); }
inline double getd(const Json& j, const char* k, double d = 0) { return j.get<double>(k, d); }
inline std::string gets(const Json& j, const char* k, const std::string& d = "") { return j.get<std::string>(k, d); }
inline bool getb(const Json& j, const char* k, bool d = false) { return j.get<bool>(k, d); }
inline std::vector<double> getv(const Json& j, const char* k) {
	std::vector<double> r; auto c = j.get_child_optional(k);
	if (c) for (auto& x : *c) r.push_back(x.second.get_value<double>());
	return r;
}
inline std::vector<std::string> getsv(const Json& j, const char* k) {
	std::vector<std::string> r; auto c = j.get_child_optional(k);
	if (c) for (auto& x : *c) r.push_back(x.second.get_value<std::string>());
	return r;
}

/// leave without running static destructors (MPI is finalized too late there)
[[noreturn]] inline void done(int rc = 0) {
	std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
	int n = 1; MPI_Comm_size(MPI_COMM_WORLD, &n);
	if (n > 1) MPI_Finalize(); // mpirun insists on it
	_exit(rc);
}

} // namespace vt
