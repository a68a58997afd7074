// C26: how long a session lives. Times in whole seconds.
#include "ref.hpp"
#define NS 1000000000ll
static int64_t g_now;
static uint32_t symU32(const char *n, uint32_t max) { uint32_t v; fsx_symbolic(&v, 4, n); fsx_assume(v <= max); return v; }
static void wait(const char *n) { uint32_t s; fsx_symbolic(&s, 4, n); s = (s & 0xfffff) + 1; env_steady_ns += (int64_t)s * NS; env_system_ns += (int64_t)s * NS; g_now += s; }
static void cleanup(World &w) { w.td[0]->queueRemoveExpiredSessions(); w.pump(); }
struct M { bool exists = false, online = false, never = false; int64_t exp = 0, since = 0; bool due() const { return (g_now - since) >= exp; } };
static void sweep(World &w, M &m) { cleanup(w); if (m.exists && !m.online && m.due()) { m.exists = false; COVER("removed"); } }
// the interval in effect, as the broker reports it
static int64_t effective(const OutPkt &a, uint32_t asked, uint32_t cap) { uint32_t most = cap ? cap : 0xffffffffu; const Prop *p = a.prop(17); uint32_t v = p ? p->num : asked; CHECK(v == (asked < most ? asked : most), "the interval in effect is what was asked within the configured limit"); return v; }
static void history(int rounds, uint32_t cap) {
    World w; w.settings.expireSessionsAfterSeconds = cap; w.start(); M m; Conn c; g_now = 0;
    for (int k = 0; k < rounds; k++) {
        bool v5 = fsx_choice("version", 2) == 0; ConnOpt o; o.id = "c"; o.ver = v5 ? V5 : V311; o.clean = false; uint32_t e = 0; if (v5) { if (fsx_choice("expiry given", 2)) { e = symU32("expiry", 0xffffffffu); o.props.four(17, e); } } else e = 0xffffffffu; c = Conn(); OutPkt a = c.connect(w, o); CHECK(a.rc == 0, "admitted"); bool unknown = m.exists && m.due(); if (!unknown) CHECK(a.sessionPresent == m.exists, "a session lives until its interval has passed"); if (m.exists && !unknown) COVER("resumed");
        m.exp = v5 ? effective(a, e, cap) : (int64_t)(cap ? cap : 0xffffffffu); m.exists = true; m.online = true; bool ends = v5 && m.exp == 0;
        if (k > 0 && fsx_choice("cleanup", 2)) { wait("connected for"); sweep(w, m); CHECK(c.isOpen(), "a cleanup does not concern connections"); c.send(mkPing()); CHECK(countType(c.take(), T_PINGRESP) == 1, "nor sessions in use"); }
        int how = fsx_choice("end", rounds > 1 ? 3 : 4); if (how == 1) c.send(mkDisconnect(c.ver)); if (how >= 2) { if (!v5) continue; uint32_t n = symU32("new expiry", 0xffffffffu); bool bad = m.exp == 0 && n > 0; c.send(mkDisconnect(V5, how == 2 ? 0 : 4, Props().four(17, n))); auto r = c.take(); if (bad) { CHECK(!c.isOpen() && countType(r, T_DISCONNECT) == 1 && r.back().rc == 0x82, "an interval of zero cannot be changed"); COVER("refused"); } else { CHECK(!c.isOpen() && r.empty(), "disconnected"); uint32_t most = cap ? cap : 0xffffffffu; m.exp = n < most ? n : most; } } c.drop(); CHECK(!c.isOpen(), "closed"); m.online = false; m.since = g_now; if (ends) m.exists = false;
        if (fsx_choice("wait", 2)) { wait("away for"); if (fsx_choice("swept", 2)) sweep(w, m); } }
    ConnOpt o; o.id = "c"; o.clean = false; bool unknown = m.exists && m.due(), was = m.exists; OutPkt a = Conn().connect(w, o); if (!unknown) CHECK(a.sessionPresent == was, "a session lives until its interval has passed"); COVER(was && !unknown ? "alive" : "ended"); }
extern "C" void fsx_history() { history(ROUNDS, 0); }
extern "C" void fsx_limit() { history(1, symU32("configured", 0xffffffffu)); }
// nothing of a removed session is left: no message is queued or delivered for it, and its subscription is gone
extern "C" void fsx_gone() {
    World w; w.start(); Conn c, p, d; ConnOpt o; o.id = "c"; uint32_t e = symU32("expiry", 0xffffffffu); fsx_assume(e > 0); o.props.four(17, e); bool shared = fsx_choice("shared", 2); c.connect(w, o); c.send(mkSubscribe(V5, 1, {{shared ? "$share/g/t" : "t", 1}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); if (shared) { po.id = "d"; d.connect(w, po); d.send(mkSubscribe(V5, 1, {{"$share/g/t", 0}})); d.take(); } c.drop(); p.send(mkPublish(V5, "t", "before", 1, 1)); p.take(); g_now = 0; wait("away for"); int64_t away = g_now; cleanup(w); p.send(mkPublish(V5, "t", "after", 1, 2)); p.send(mkPublish(V5, "t", "again", 1, 3)); CHECK(countType(p.take(), T_PUBACK) == 2, "accepted"); o.clean = false; c = Conn(); OutPkt a = c.connect(w, o); auto r = c.take(); bool alive = away < (int64_t)e; CHECK(a.sessionPresent == alive, "alive until the interval has passed");
    int got = countType(r, T_PUBLISH); if (shared) { int g2 = countType(d.take(), T_PUBLISH); CHECK(alive ? got + g2 == 3 : got == 0 && g2 >= 2, "a share serves each message once, and does not count on sessions that are gone"); COVER(alive ? "shared alive" : "shared gone"); } else { CHECK(got == (alive ? 3 : 0), "its pending messages live as long as the session"); p.send(mkPublish(V5, "t", "later", 0)); CHECK(countType(c.take(), T_PUBLISH) == (alive ? 1 : 0), "and so does its subscription"); COVER(alive ? "alive" : "gone"); } }
