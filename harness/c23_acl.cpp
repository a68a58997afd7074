// C23: what the access file grants.
#include "ref.hpp"
#include "flashmq_plugin.h"
#ifndef RULES
#define RULES 2
#endif
enum { G_DENY, G_READ, G_WRITE, G_RW };
struct Rule { int sect; /* 0 general, 1 user "u", 2 user "v", 3 pattern */ int grant; Bytes filter; };
static bool lvl(const Bytes &f, const Bytes &t, const Rule &r, const Bytes &user, const Bytes &client) { if (r.sect == 3 && f == "%u") return !user.empty() && t == user; if (r.sect == 3 && f == "%c") return t == client; return f == "+" || f == t; }
static bool matches(const Rule &r, const Bytes &topic, const Bytes &user, const Bytes &client) { auto f = levels(r.filter), t = levels(topic); for (size_t i = 0; i < f.size(); i++) { if (f[i] == "#") return true; if (i >= t.size() || !lvl(f[i], t[i], r, user, client)) return false; } return f.size() == t.size(); }
static bool granted(const std::vector<Rule> &rs, const Bytes &topic, const Bytes &user, const Bytes &client, int want) { bool yes = false; for (auto &r : rs) { bool mine = r.sect == 3 || (user.empty() ? r.sect == 0 : user == (r.sect == 1 ? "u" : r.sect == 2 ? "v" : "")); if (!mine || !matches(r, topic, user, client)) continue; if (r.grant == G_DENY) return false; if (r.grant == want || r.grant == G_RW) yes = true; } return yes; }
static Bytes text(const std::vector<Rule> &rs) { static const char *G[] = {"deny ", "read ", "write ", "readwrite "}; Bytes s = "# rules\n\n"; int cur = 0; for (int pass = 0; pass < 3; pass++) { for (auto &r : rs) { if (r.sect == 3 ? pass != 1 : r.sect != pass) continue; if (r.sect < 3 && r.sect != cur) { s += Bytes("user ") + (r.sect == 1 ? "u" : "v") + "\n"; cur = r.sect; } s += Bytes(r.sect == 3 ? "pattern " : "topic ") + G[r.grant] + r.filter + "\n"; } } return s; }
static void aclFile(World &w, const Bytes &s) { env_file_put("acl", s.data(), s.size()); w.settings.mosquittoAclFile = "acl"; }
// what client "c" may do with a topic, seen from outside
struct Probe { World &w; Conn c; Bytes user; bool ready = false; unsigned pid = 1;
    Probe(World &ww, const Bytes &u) : w(ww), user(u) { ConnOpt o; o.id = "c"; o.hasUser = !u.empty(); o.user = u; c.connect(w, o); CHECK(c.isOpen(), "connected"); c.send(mkSubscribe(V5, pid++, {{"#", 0}})); c.take(); }
    bool mayRead(const Bytes &t) { w.use(0); flashmq_publish_message(t, 0, false, "r", 0); w.pump(); auto r = c.take(); bool got = false; for (auto &p : r) { CHECK(p.type == T_PUBLISH && p.topic == t, "only that"); got = true; } return got; }
    bool mayWrite(const Bytes &t) { c.send(mkPublish(V5, t, "w", 1, pid++)); auto r = c.take(); const OutPkt *a = firstType(r, T_PUBACK); CHECK(a, "answered"); CHECK(a->rc == 0 || a->rc == 0x10 || a->rc == 0x87, "accepted or not authorized"); return a->rc != 0x87; } };
static Bytes symTopic(const char *n, int max, const char *set) { Bytes r; int k = 1 + fsx_choice("topic levels", max); for (int i = 0; i < k; i++) { if (i) r += '/'; char x; fsx_symbolic(&x, 1, n); bool in = false; for (const char *s = set; *s; s++) in |= x == *s; fsx_assume(in); r += x; } return r; }
static Bytes anyFilter(int max) { Bytes r; int k = 1 + fsx_choice("filter levels", max); for (int i = 0; i < k; i++) { if (i) r += '/'; switch (fsx_choice("level", i + 1 == k ? 5 : 4)) { case 0: r += "+"; break; case 1: r += "%u"; break; case 2: r += "%c"; break; case 3: { char x; fsx_symbolic(&x, 1, "filter"); fsx_assume((x == 'a') | (x == 'u') | (x == 'c')); r += x; break; } default: r += "#"; } } return r; }
static void decide(World &w, const std::vector<Rule> &rs, const Bytes &user, const Bytes &topic) { aclFile(w, text(rs)); w.start(); Probe p(w, user); bool rd = granted(rs, topic, user, "c", G_READ), wr = granted(rs, topic, user, "c", G_WRITE); CHECK(p.mayRead(topic) == rd, rd ? "reading is granted" : "reading is denied"); CHECK(p.mayWrite(topic) == wr, wr ? "writing is granted" : "writing is denied"); if (rd) COVER("read"); if (wr) COVER("write"); if (!rd && !wr) COVER("neither"); }
static const char *U[] = {"", "u", "v", "x"};
// one rule of any kind, any filter
extern "C" void fsx_one() { World w; Rule r; r.sect = fsx_choice("section", 4); r.grant = fsx_choice("grant", 4); r.filter = anyFilter(2); Bytes user = U[fsx_choice("user", 4)]; Bytes topic = symTopic("topic", 2, "auc"); decide(w, {r}, user, topic); }
// several rules with overlapping filters
extern "C" void fsx_rules() { World w; std::vector<Rule> rs; static const char *F[] = {"a", "#", "+/a", "a/#", "%u/+"}; for (int i = 0; i < RULES; i++) { Rule r; r.sect = fsx_choice("section", 4); r.grant = fsx_choice("grant", 4); r.filter = F[fsx_choice("filter", 5)]; rs.push_back(r); } Bytes user = U[fsx_choice("user", 2)]; Bytes topic = symTopic("topic", 2, "au"); decide(w, rs, user, topic); }
// names of users and clients are compared whole, and place holders stand only for them
extern "C" void fsx_names() { World w; Bytes user = symBytes("user", 1 + fsx_choice("user length", 2)); for (char x : user) fsx_assume((x == 'u') | (x == 'v') | (x == '%')); Bytes topic = symBytes("topic", 1 + fsx_choice("topic length", 2)); for (char x : topic) fsx_assume((x == 'u') | (x == 'v') | (x == '%') | (x == 'c')); int kind = fsx_choice("pattern", 3); Rule r{3, G_RW, kind == 0 ? "%u" : kind == 1 ? "%c" : "%u/%c"}; if (kind == 2) topic += fsx_choice("second level", 2) ? "/c" : "/%c"; w.settings.allowUnsafeUsernameChars = true; decide(w, {r, Rule{1, G_READ, "u"}}, user, topic); }
// how lines may be written
extern "C" void fsx_format() { World w; static const char *T[] = {"topic readwrite a/b\n", "topic a/b\n", "TOPIC ReadWrite a/b", "  topic   readwrite   a/b  \r\n", "# topic deny a/b\ntopic a/b\n", "\n\ntopic read a/b\ntopic write a/b\n", "user u\ntopic a/b\nuser v\n", "user v\ntopic deny #\nuser u\ntopic a/b\n", "topic deny a/b\nuser u\ntopic a/b\n", "user u\npattern a/b\n"}; int k = fsx_choice("file", 10); aclFile(w, T[k]); w.start(); Bytes user = k >= 6 ? "u" : ""; Probe p(w, user); CHECK(p.mayRead("a/b") && p.mayWrite("a/b"), "granted"); CHECK(!p.mayRead("a/c") && !p.mayWrite("a"), "nothing else"); COVER("format"); }
// a file that is not understood grants nothing, and does not replace the one before
extern "C" void fsx_broken() { World w; Bytes good = "topic read a\n", f = "topic read a\ntopic write b\npattern deny d\n"; size_t at = fsx_choice("position", 2) ? 13 + fsx_choice("character", 11) : 27 + fsx_choice("character", 12); char x; fsx_symbolic(&x, 1, "instead"); fsx_assume(x != f[at]); fsx_assume((x | 32) != f[at] || f[at] == ' '); /* another letter case means the same */ fsx_assume((x != ' ') & (x != '\t') & (x != '\r') & (x != '\n') & (x != '\v') & (x != '\f')); bool before = fsx_choice("a good file before", 2); f[at] = x; bool comment = (at == 13 || at == 27) && x == '#'; if (comment) return; if (before) { aclFile(w, good); env_file_set_mtime("acl", 5000); } else aclFile(w, f); w.start(); Probe p(w, ""); if (before) { CHECK(p.mayRead("a"), "granted before"); env_file_put("acl", f.data(), f.size()); env_file_set_mtime("acl", 6000); w.use(0); w.td[0]->queuePasswdFileReload(); w.pump(); } CHECK(p.mayRead("a") == before, "the file before counts, or nothing"); CHECK(!p.mayWrite("b"), "nothing from the broken file"); COVER("broken"); }
// changes take effect for connected clients, with the next reload
extern "C" void fsx_reload() { World w; Rule r1{0, 1 + (int)fsx_choice("before", 3), "a"}, r2{0, 1 + (int)fsx_choice("after", 3), fsx_choice("same topic", 2) ? "a" : "b"}; Bytes f = text({r1}); aclFile(w, f); env_file_set_mtime("acl", 5000); w.start(2); Probe p(w, ""); std::vector<Rule> rs{r1}; auto same = [&] { for (const char *t : {"a", "b"}) { CHECK(p.mayRead(t) == granted(rs, t, "", "c", G_READ), "reading as in the file"); CHECK(p.mayWrite(t) == granted(rs, t, "", "c", G_WRITE), "writing as in the file"); } }; same(); f = text({r2}); env_file_put("acl", f.data(), f.size()); env_file_set_mtime("acl", 6000); for (auto &t : w.td) t->queuePasswdFileReload(); w.pump(); rs = {r2}; same(); COVER("reload"); }
// without a file that can be read nothing is granted; without the setting everything
extern "C" void fsx_missing() { World w; bool set = fsx_choice("configured", 2); if (set) w.settings.mosquittoAclFile = "acl"; w.start(); Probe p(w, ""); Bytes t = symTopic("topic", 2, "ab"); CHECK(p.mayRead(t) == !set && p.mayWrite(t) == !set, "a missing file grants nothing"); COVER("missing"); }
// a will needs write access when it is registered and when it is published
extern "C" void fsx_will() { World w; int g = fsx_choice("grant", 4), sect = fsx_choice("pattern", 2) ? 3 : 1; std::vector<Rule> rs{{sect, g, sect == 3 ? "%u/w" : "u/w"}, {2, G_READ, "#"}}; aclFile(w, text(rs)); w.start(); Conn x; ConnOpt xo; xo.id = "x"; xo.hasUser = true; xo.user = "v"; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 0}})); x.take(); Conn c; ConnOpt o; o.id = "c"; o.hasUser = true; o.user = "u"; o.will = true; o.willTopic = "u/w"; o.willPayload = symBytes("will", 1); c.connect(w, o); c.drop(); x.poll(); auto r = x.take(); bool wr = g == G_WRITE || g == G_RW; CHECK(r.size() == (wr ? 1u : 0u), wr ? "the will is published" : "the will is not published"); if (wr) CHECK(r[0].payload == o.willPayload, "as given"); COVER("will"); }
