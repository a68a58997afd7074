// C07: admission of topic names and filters.
#include "mqtt.hpp"
#include "utils.h"
#include "threadlocalutils.h"
static bool refFilter(const Bytes &s) { // '#' alone in the last level, '+' alone in a level
    size_t st = 0, n = s.size(); for (size_t i = 0; i <= n; i++) if (i == n || s[i] == '/') { for (size_t k = st; k < i; k++) { if (s[k] == '+' && i - st != 1) return false; if (s[k] == '#' && (i - st != 1 || i != n)) return false; } st = i + 1; } return true; }
static bool refWild(const Bytes &s) { for (char c : s) if (c == '+' || c == '#') return true; return false; }
#ifndef N
#define N 7
#endif
extern "C" void fsx_funcs() {
    unsigned n = fsx_choice("len", N + 1); Bytes s = symBytes("s", n);
    CHECK(isValidSubscribePath(s) == refFilter(s), "filter accepted exactly when well-formed");
    CHECK(isValidPublishPath(s) == (n > 0 && !refWild(s)), "topic accepted exactly when non-empty without wildcards");
    bool slash = false; for (char c : s) if (c == '/') slash = true;
    CHECK(isValidShareName(s) == (n > 0 && !refWild(s) && !slash), "share name non-empty without wildcards or slashes");
    CHECK(containsDangerousCharacters(s) == refWild(s), "wildcards detected"); COVER(refFilter(s) ? "valid filter" : "invalid filter"); }
// splitting into levels, across 16-byte blocks
extern "C" void fsx_split() {
    static const unsigned offs[] = {0, 5, 13, 14, 15, 16, 29, 30, 31}; unsigned off = offs[fsx_choice("offset", 9)], after = fsx_choice("after", 3) * 8; Bytes s(off, 'a'); s += symBytes("w", 4); s += Bytes(after, 'b');
    auto v = splitTopic(s); SimdUtils u; auto v2 = u.splitTopic(s); std::vector<Bytes> ref(1); for (char c : s) if (c == '/') ref.emplace_back(); else ref.back().push_back(c);
    CHECK(v.size() == ref.size() && v2.size() == ref.size(), "number of levels"); for (size_t i = 0; i < ref.size(); i++) CHECK(v[i] == ref[i] && v2[i] == ref[i], "level text"); if (ref.size() > 2) COVER("several levels"); }
// through the real SUBSCRIBE path
#ifndef M
#define M 3
#endif
extern "C" void fsx_subscribe() {
    World w; w.start(); Conn c; ConnOpt o; o.ver = fsx_choice("version", 2) ? V5 : V311; c.connect(w, o); unsigned n = fsx_choice("len", M + 1); Bytes f = symBytes("f", n); for (char ch : f) fsx_assume(ch >= 0x20 && ch < 0x7f);
    c.send(mkSubscribe(c.ver, 7, {{f, 0}})); auto r = c.take(); bool ok = n > 0 && refFilter(f);
    bool granted = c.isOpen() && countType(r, T_SUBACK) == 1 && firstType(r, T_SUBACK)->codes.size() == 1 && (unsigned char)firstType(r, T_SUBACK)->codes[0] <= 2; CHECK(granted == ok, "subscription admitted exactly when the filter is well-formed");
    CHECK(subTopics(w, "c").size() == (ok ? 1 : 0), "an inadmissible filter leaves no subscription"); COVER(ok ? "admitted" : "refused"); }
extern "C" void fsx_share() {
    World w; w.start(); Conn c; ConnOpt o; c.connect(w, o); unsigned a = fsx_choice("name len", 3), b = fsx_choice("filter len", 4); Bytes nm = symBytes("name", a), f = symBytes("filter", b); for (char ch : nm) fsx_assume(ch >= 0x20 && ch < 0x7f && ch != '/'); for (char ch : f) fsx_assume(ch >= 0x20 && ch < 0x7f); bool sep = b > 0 || fsx_choice("slash", 2);
    Bytes full = "$share/" + nm + (sep ? "/" : "") + f; c.send(mkSubscribe(c.ver, 7, {{full, 0}})); auto r = c.take(); bool ok = a > 0 && !refWild(nm) && b > 0 && refFilter(f);
    bool granted = c.isOpen() && countType(r, T_SUBACK) == 1 && (unsigned char)firstType(r, T_SUBACK)->codes[0] <= 2; CHECK(granted == ok, "shared subscription admitted exactly when name and filter are well-formed"); CHECK(subTopics(w, "c").size() == (ok ? 1 : 0), "an inadmissible shared filter leaves no subscription"); COVER(ok ? "admitted" : "refused"); }
extern "C" void fsx_publish() {
    World w; w.start(); Conn c; ConnOpt o; o.ver = fsx_choice("version", 2) ? V5 : V311; c.connect(w, o); Conn s; ConnOpt o2; o2.id = "s"; s.connect(w, o2); s.send(mkSubscribe(V5, 1, {{"#", 0}})); s.take();
    unsigned n = fsx_choice("len", M + 1); Bytes t = symBytes("t", n); for (char ch : t) fsx_assume(ch >= 0x20 && ch < 0x7f && ch != '$'); unsigned qos = fsx_choice("qos", 2); c.send(mkPublish(c.ver, t, "x", qos, 5, fsx_choice("retain", 2))); auto r = c.take(); auto d = s.take();
    bool ok = n > 0 && !refWild(t); CHECK(countType(d, T_PUBLISH) == (ok ? 1 : 0), "published exactly when the topic is well-formed"); if (ok) { CHECK(firstType(d, T_PUBLISH)->topic == t, "delivered under its own topic"); CHECK(c.isOpen(), "well-formed publish keeps the connection"); } else CHECK(!c.isOpen() || (qos && countType(r, T_PUBACK) == 1 && firstType(r, T_PUBACK)->rc >= 0x80), "malformed publish is refused"); CHECK(ok || w.store()->retainedMessageCount == 0, "malformed topic is not retained"); COVER(ok ? "admitted" : "refused"); }
