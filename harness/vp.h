// Shared by the drivers: ndjson event writer and scenario reader.
#ifndef VP_H
#define VP_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
namespace vp {
static FILE * out = NULL;
static int scn = -1;
struct Ev {
	std::string s;
	explicit Ev(const char * ev) { s = "{\"ev\":\""; s += ev; s += "\",\"scn\":" + std::to_string(scn); }
	Ev & raw(const char * k, const std::string & v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
	Ev & chars(const char * k, const std::string & v) { std::string q = "["; for (size_t n = 0; n < v.size(); n++) { if (n) q += ","; q += "\""; q += v[n]; q += "\""; } return raw(k, q + "]"); }
	Ev & i(const char * k, long long v) { return raw(k, std::to_string(v)); }
	Ev & b(const char * k, bool v) { return raw(k, v ? "true" : "false"); }
	Ev & str(const char * k, const std::string & v) {
		std::string q = "\"";
		for (unsigned char c : v) {
			char t[8];
			if (c == '"' || c == '\\') { q += '\\'; q += c; }
			else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); q += t; }
			else q += c;
		}
		return raw(k, q + "\"");
	}
	template <class V> Ev & arr(const char * k, const V & v) {
		std::string q = "[";
		for (size_t n = 0; n < v.size(); n++) { if (n) q += ","; q += std::to_string(v[n]); }
		return raw(k, q + "]");
	}
	void emit() { s += "}\n"; fputs(s.c_str(), out); fflush(out); }
};
inline std::vector<std::string> words(const std::string & l) {
	std::vector<std::string> w; std::istringstream is(l); std::string t; while (is >> t) w.push_back(t); return w;
}
inline std::vector<std::string> readlines(const char * f) {
	std::vector<std::string> v; std::ifstream in(f); std::string l; while (std::getline(in, l)) v.push_back(l); return v;
}
inline std::string unhex(const std::string & h) {
	std::string r; if (h == "-") return r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), NULL, 16);
	return r;
}
}
#endif
