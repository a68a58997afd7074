// C08: answers and effects of SUBSCRIBE and UNSUBSCRIBE.
#include "ref.hpp"
struct Sub { Bytes f; unsigned opt; uint32_t id; };
static void put(std::vector<Sub> &v, const Sub &s) { for (auto &x : v) if (x.f == s.f) { x = s; return; } v.push_back(s); }
static void del(std::vector<Sub> &v, const Bytes &f) { for (size_t i = 0; i < v.size(); i++) if (v[i].f == f) { v.erase(v.begin() + i); return; } }
static unsigned symOpt(int ver, bool handling = true) { unsigned char o; fsx_symbolic(&o, 1, "options"); fsx_assume(ver == V5 ? ((o & 3) != 3) & ((o & 0x30) != 0x30) & (o < (handling ? 64 : 16)) : o < 3); return o; }
static unsigned symPid() { uint16_t p; fsx_symbolic(&p, 2, "packet id"); fsx_assume(p != 0); return p; }
static int verOf(unsigned i) { return i == 0 ? V5 : i == 1 ? V311 : V31; }
static void compare(World &w, const Bytes &id, const std::vector<Sub> &want, int ver) {
    auto m = w.store()->getSubscriptions(); size_t n = 0; for (auto &p : m) for (auto &s : p.second) if (s.clientId == id) { n++; bool found = false; for (auto &x : want) if (x.f == p.first) { found = true; CHECK(s.qos == (x.opt & 3), "subscription has the requested QoS"); if (ver == V5) { CHECK((((unsigned)s.noLocal << 2 | (unsigned)s.retainAsPublished << 3) ^ (x.opt & 12)) == 0, "subscription has the requested options"); CHECK(s.subscriptionidentifier == x.id, "subscription has the requested identifier"); } } CHECK(found, "no subscription that was not requested"); } CHECK(n == want.size(), "every requested subscription exists once"); }
#ifndef NF
#define NF 2
#endif
// any sequence of requests: one answer each, the subscriptions as requested
extern "C" void fsx_requests() {
    int ver = verOf(fsx_choice("version", 3)); World w; w.start(); Conn c; ConnOpt o; o.ver = ver; o.id = "c"; c.connect(w, o); std::vector<Sub> want; CHECK(c.isOpen(), "connected");
    for (int r = 0; r < NF; r++) { unsigned pid = symPid(); bool un = r > 0 && fsx_choice("unsubscribe", 2); unsigned n = r == 0 ? 2 : 1 + fsx_choice("filters", 2);
        if (!un) { std::vector<Filt> fs; uint32_t id = 0; Props p; if (ver == V5 && fsx_choice("id", 2)) { fsx_symbolic(&id, 4, "subscription id"); fsx_assume(id > 0 && id <= 16383); p.var(11, id); } for (unsigned i = 0; i < n; i++) { Bytes f(1, symLevel("f", true)); fsx_assume(f[0] != '#'); unsigned op = symOpt(ver, i + r == 0); fs.push_back({f, op}); put(want, {f, op, id}); }
            c.send(mkSubscribe(ver, pid, fs, p)); auto a = c.take(); CHECK(countType(a, T_SUBACK) == 1 && a.size() == 1, "exactly one SUBACK"); CHECK(a[0].pid == pid, "SUBACK carries the packet identifier"); CHECK(a[0].codes.size() == n, "one result per filter"); for (unsigned i = 0; i < n && i < a[0].codes.size(); i++) CHECK((unsigned char)a[0].codes[i] == (fs[i].opt & 3), "granted QoS in request order"); COVER("subscribed"); }
        else { std::vector<Bytes> fs; for (unsigned i = 0; i < n; i++) { Bytes f(1, symLevel("u", true)); fs.push_back(f); del(want, f); } c.send(mkUnsubscribe(ver, pid, fs)); auto a = c.take(); CHECK(countType(a, T_UNSUBACK) == 1 && a.size() == 1, "exactly one UNSUBACK"); CHECK(a[0].pid == pid, "UNSUBACK carries the packet identifier"); if (ver == V5) CHECK(a[0].codes.size() == n, "one result per filter"); COVER("unsubscribed"); }
        compare(w, "c", want, ver); }
}
// shared and plain subscriptions on the same filter are separate
extern "C" void fsx_shared() {
    World w; w.start(); Conn c; ConnOpt o; c.connect(w, o); char l = symLevel("f", true); Bytes f(1, l); char g; fsx_symbolic(&g, 1, "share"); fsx_assume(g >= 'g' && g <= 'h'); Bytes sh = Bytes("$share/") + g + "/" + f; c.send(mkSubscribe(V5, 5, {{f, 1}, {sh, 2}})); auto a = c.take(); CHECK(a.size() == 1 && a[0].codes.size() == 2 && a[0].codes[0] == 1 && a[0].codes[1] == 2, "both granted"); unsigned which = fsx_choice("remove", 3); if (which == 1) c.send(mkUnsubscribe(V5, 6, {f})); if (which == 2) c.send(mkUnsubscribe(V5, 6, {sh}));
    bool plain = false, shared = false; for (auto &s : subsOf(w, "c")) { if (s.shareName.empty()) plain = true; else { shared = true; CHECK(s.shareName == Bytes(1, g), "share name"); } } CHECK(plain == (which != 1) && shared == (which != 2), "removing one leaves the other"); COVER("separate");
    Conn p; o.id = "p"; p.connect(w, o); c.take(); p.send(mkPublish(V5, "a", "m", 1, 1)); CHECK(countType(c.take(), T_PUBLISH) == ((f != "b") ? (int)plain + (int)shared : 0), "deliveries"); }
// requests that are not well-formed change nothing and close the connection
extern "C" void fsx_malformed() {
    int ver = verOf(fsx_choice("version", 3)); World w; w.start(); Conn c; ConnOpt o; o.ver = ver; c.connect(w, o); unsigned kind = fsx_choice("kind", 5); unsigned char op; fsx_symbolic(&op, 1, "options"); uint16_t pid; fsx_symbolic(&pid, 2, "pid");
    if (kind == 0) { fsx_assume(pid != 0); bool bad = (op & 3) == 3 || (ver == V5 ? (op & 0x30) == 0x30 : op > 2); if (ver == V5) fsx_assume(!(op & 0xC0)); c.send(mkSubscribe(ver, pid, {{"a", op}})); CHECK(c.isOpen() == !bad, "options byte admitted exactly when valid"); CHECK(subsOf(w, "c").size() == (bad ? 0 : 1), "subscribed exactly when valid"); if (bad) COVER("bad options"); }
    else if (kind == 1) { fsx_assume(op < 3); c.send(mkSubscribe(ver, pid, {{"a", op}})); CHECK(c.isOpen() == (pid != 0), "packet identifier 0 refused"); CHECK(subsOf(w, "c").size() == (pid ? 1 : 0), "subscribed exactly when valid"); if (!pid) COVER("pid 0"); }
    else if (kind == 2) { fsx_assume(pid != 0); c.send(fsx_choice("un", 2) ? mkUnsubscribe(ver, pid, {}) : mkSubscribe(ver, pid, {})); CHECK(!c.isOpen(), "a request without filters closes the connection"); }
    else if (kind == 3) { fsx_assume(op < 3 && pid != 0); unsigned char fl; fsx_symbolic(&fl, 1, "flags"); fsx_assume(fl < 16); Bytes s = mkSubscribe(ver, pid, {{"a", op}}); s[0] = (char)(0x80 | fl); c.send(s); CHECK(c.isOpen() == (fl == 2), "reserved header flags"); CHECK(subsOf(w, "c").size() == (fl == 2 ? 1 : 0), "subscribed exactly when valid"); }
    else { fsx_assume(op < 3 && pid != 0); Bytes s = mkSubscribe(ver, pid, {{"a", op}, {"bc", op}}); Bytes body = s.substr(2); size_t cut = fsx_choice("cut", body.size()); c.send(fixedPkt(0x82, body.substr(0, cut))); size_t whole = 2 + (ver == V5 ? 1 : 0) + 4; CHECK(c.isOpen() == (cut == whole), "a truncated request closes the connection"); CHECK(subsOf(w, "c").size() == (cut == whole ? 1 : 0), "nothing subscribed by a truncated request"); COVER("truncated"); } }
