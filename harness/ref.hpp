// Reference definitions shared by harnesses, written from the MQTT specification.
#pragma once
#include "mqtt.hpp"
inline std::vector<Bytes> levels(const Bytes &s) { std::vector<Bytes> r(1); for (char c : s) if (c == '/') r.emplace_back(); else r.back().push_back(c); return r; }
inline bool refMatch(const Bytes &filter, const Bytes &topic) {
    auto f = levels(filter), t = levels(topic); if (!topic.empty() && topic[0] == '$' && (f[0] == "+" || f[0] == "#")) return false;
    for (size_t i = 0; i < f.size(); i++) { if (f[i] == "#") return true; if (i >= t.size()) return false; if (f[i] == "+") continue; if (f[i] != t[i]) return false; }
    return f.size() == t.size(); }
inline bool refValidFilter(const Bytes &s) { if (s.empty()) return false; auto l = levels(s); for (size_t i = 0; i < l.size(); i++) { bool w = false; for (char c : l[i]) if (c == '+' || c == '#') w = true; if (w && l[i].size() != 1) return false; if (l[i] == "#" && i + 1 != l.size()) return false; } return true; }
// a level of one symbolic character
inline char symLevel(const char *name, bool wild) { char c; fsx_symbolic(&c, 1, name); if (wild) fsx_assume(c == 'a' || c == 'b' || c == '+' || c == '#'); else fsx_assume(c == 'a' || c == 'b'); return c; }
inline Bytes symPath(const char *name, unsigned n, bool wild) { Bytes r; for (unsigned i = 0; i < n; i++) { if (i) r += '/'; r += symLevel(name, wild); if (wild && i + 1 < n) fsx_assume(r.back() != '#'); } return r; }
