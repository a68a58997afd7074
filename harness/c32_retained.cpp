// C32: retained messages saved and loaded are as they were. The same history is run with and without a restart of the server.
#include "ref.hpp"
#include "retainedmessagesdb.h"
static uint32_t symT(const char *n, int bits) { uint32_t v; fsx_symbolic(&v, 4, n); return v & ((1u << bits) - 1); }
static int64_t g_s0, g_y0; static bool g_late; static std::vector<std::shared_ptr<SubscriptionStore>> g_old; static std::vector<World *> g_worlds; static uint32_t g_ceil;
static World *fresh() { globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); { auto l = globals->threadDatas.lock(); l->clear(); } World *w = new World(); w->settings.expireRetainedMessagesAfterSeconds = std::chrono::seconds(g_ceil); w->settings.maxStringLength = 65535; w->start(); g_worlds.push_back(w); return w; }
static void rewindClock() { static bool first = true; if (first) { g_s0 = env_steady_ns; g_y0 = env_system_ns; first = false; } env_steady_ns = g_s0; env_system_ns = g_y0 + (g_late ? 600000000 * 1000000000ll : 0); }
static World *restart(World *w, uint32_t gap, std::vector<Conn *> cs, bool bg = false) {
    w->use(0); w->store()->saveRetainedMessages("retained.db", bg); CHECK(env_file_exists("retained.db"), "saved"); w->advance(gap); env_steady_ns -= 500000000000ll; World *n = fresh(); n->store()->loadRetainedMessages("retained.db"); COVER("restarted"); return n; }
static void same(const std::vector<OutPkt> &a, const std::vector<OutPkt> &b) { CHECK(a.size() == b.size(), "the same messages are there"); for (auto &x : a) { const OutPkt *y = nullptr; for (auto &z : b) if (z.topic == x.topic) y = &z; CHECK(y != nullptr, "the same topics"); CHECK(x.flags == y->flags && x.payload == y->payload, "the same message"); CHECK(x.props.size() == y->props.size(), "the same number of properties"); for (size_t k = 0; k < x.props.size(); k++) CHECK((x.props[k].id == y->props[k].id) & (x.props[k].num == y->props[k].num) && x.props[k].s == y->props[k].s && x.props[k].s2 == y->props[k].s2, "the same properties"); } }
struct In { int what, qos, ver, n, twice, rv; uint32_t ex, t1, gap; Bytes pay, topic, pad; };
static std::vector<OutPkt> run(const In &m, bool re) {
    rewindClock(); World *w = fresh(); Conn p, s; ConnOpt po; po.id = "p"; po.ver = m.ver; p.connect(*w, po); Props pp; if (m.ver == V5) { if (m.what & 1) pp.four(2, m.ex); if (m.what & 2) pp.str(8, "r").str(9, Bytes("\0c", 2)).byte(1, 1); if (m.what & 4) pp.str(3, "ct").pair(38, "k", "v").pair(38, "k", m.pad); }
    static const char *T[] = {"", "b", "b/c", "b/$x", "/", "b//d"}; std::vector<Bytes> pubs; for (int i = 0; i < m.n; i++) { Bytes t = i ? Bytes(T[i]) : m.topic; Bytes pl = i ? Bytes(1, 'a' + i) : m.pay; unsigned q = i ? i % 3 : m.qos; p.send(mkPublish(m.ver, t, pl, q, 3 + i, true, false, i ? Props() : pp)); if (q == 2) p.send(mkAck(T_PUBREL, 3 + i)); } p.take(); if (m.twice == 1) { p.send(mkPublish(m.ver, "b", "", 0, 0, true)); } else if (m.twice == 2) { p.send(mkPublish(m.ver, "b", "other", 1, 9, true)); p.take(); }
    w->advance(m.t1); if (re) w = restart(w, m.gap, {&p}); else w->advance(m.gap); w->use(0); ConnOpt so; so.id = "s"; so.ver = m.rv; s.connect(*w, so); s.send(mkSubscribe(m.rv, 1, {{"#", 2}})); std::vector<OutPkt> r; for (auto &x : s.take()) if (x.type == T_PUBLISH) r.push_back(x);
    // and it is there to be replaced and removed
    w->use(0); size_t n = w->store()->getRetainedMessageCount(); OutPkt cnt; cnt.topic = "count of retained messages"; cnt.payload = std::to_string(n); r.push_back(cnt); if (n > 0) COVER("messages"); Conn q; ConnOpt qo; qo.id = "q"; q.connect(*w, qo); q.send(mkPublish(V5, "b", "newer", 0, 0, true)); Conn z; ConnOpt zo; zo.id = "z"; zo.ver = V311; z.connect(*w, zo); z.send(mkSubscribe(V311, 1, {{"b", 2}})); auto v = z.take(); CHECK(countType(v, T_PUBLISH) == 1 && firstType(v, T_PUBLISH)->payload == "newer", "replaced"); return r; }
extern "C" void fsx_messages() {
    In m; g_late = fsx_choice("after 2038", 2); g_ceil = fsx_choice("limit", 2) ? 1000 : 0x7fffffff; m.ver = fsx_choice("version", 2) ? V311 : V5; m.what = m.ver == V5 ? fsx_choice("properties", 8) : 0; m.qos = fsx_choice("qos", 3); m.n = 1 + fsx_choice("others", 2) * 5; m.twice = m.n > 1 ? fsx_choice("second", 3) : 0; m.rv = fsx_choice("receiver", 2) ? V311 : V5; m.ex = m.what & 1 ? 1 + symT("expiry", 12) : 0; m.t1 = symT("before", 10); m.gap = symT("down", 10); if (m.what & 1) fsx_assume((m.ex != m.t1) & (m.ex != m.t1 + m.gap)); if (g_ceil == 1000) fsx_assume((m.t1 != 1000) & (m.t1 + m.gap != 1000)); m.pay = m.what & 2 ? Bytes("p") : symBytes("payload", 1); Bytes c = symBytes("topic", 1); fsx_assume((c[0] >= 0x21) & (c[0] < 0x7f) & (c[0] != '+') & (c[0] != '#') & (c[0] != '$') & (c[0] != '/')); m.topic = "t/" + c; m.pad = "w";
    same(run(m, false), run(m, true)); }
// sizes of topics, payloads and properties around the steps of their length fields
extern "C" void fsx_sizes() {
    static const int S[] = {0, 1, 127, 128, 300, 16383, 16384, 65535, 70000}; In m; g_late = false; g_ceil = 0x7fffffff; m.ver = V5; m.what = 4; m.qos = fsx_choice("qos", 2); m.n = 2; m.twice = 0; m.rv = V5; m.ex = 0; m.t1 = m.gap = 7; int which = fsx_choice("which", 3), sz = S[fsx_choice("size", 9)]; m.pay = Bytes("p") + Bytes(which == 0 ? sz : 0, 'x'); m.topic = "t" + Bytes(which == 1 ? (sz > 60000 ? 60000 : sz) : 1, 'y'); m.pad = Bytes(which == 2 ? (sz > 65535 ? 65535 : sz) : 0, 'z'); same(run(m, false), run(m, true)); }
// who sent it, and the file's own times
extern "C" void fsx_sender() {
    rewindClock(); g_ceil = 0x7fffffff; World *w = fresh(); Bytes id = symBytes("client id", 2), user = symBytes("user", 2); { RetainedMessagesDB db("retained.db"); db.openWrite(); Publish p("t", "x", fsx_choice("qos", 3)); p.client_id = id; p.username = user; std::vector<RetainedMessage> v; v.emplace_back(p); Publish p2("u", "y", 0); v.emplace_back(p2); db.saveData(v); } RetainedMessagesDB db("retained.db"); db.openRead(); auto a = db.readData(1), b = db.readData(1000), c = db.readData(1000); CHECK(a.size() == 1 && b.size() == 1 && c.empty(), "in parts"); CHECK(a.front().publish.client_id == id && a.front().publish.username == user && a.front().publish.topic == "t" && b.front().publish.topic == "u", "sender"); COVER("sender"); }
// messages of the largest size that is accepted
extern "C" void fsx_largest() {
    static const int S[] = {64, 127, 128, 129, 130, 200}; int lim = S[fsx_choice("limit", 6)], ver = fsx_choice("version", 2) ? V311 : V5, qos = fsx_choice("qos", 2); rewindClock(); g_ceil = 0x7fffffff; globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); World *w = new World(); w->settings.maxPacketSize = lim; w->start(); Conn p, q; ConnOpt po; po.id = "p"; po.ver = ver; p.connect(*w, po); ConnOpt qo; qo.id = "q"; qo.ver = V5; qo.clean = false; qo.props.four(17, 1000); q.connect(*w, qo); q.send(mkSubscribe(V5, 1, {{"#", 1}}, Props().var(11, 300))); q.drop();
    Bytes pk; int n = 0; do { n++; pk = mkPublish(ver, "t", Bytes(n, 'x'), qos, 3, true); } while (mkPublish(ver, "t", Bytes(n + 1, 'x'), qos, 3, true).size() <= (size_t)lim); p.send(pk); CHECK(p.isOpen(), "accepted"); w->use(0); CHECK(w->store()->getRetainedMessageCount() == 1, "accepted"); w->store()->saveRetainedMessages("retained.db", false); w->store()->saveSessionsAndSubscriptions("sessions.db");
    globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); { auto l = globals->threadDatas.lock(); l->clear(); } World *x = new World(); x->settings.maxPacketSize = lim; x->start(); bool ok = true; try { x->store()->loadRetainedMessages("retained.db"); x->store()->loadSessionsAndSubscriptions("sessions.db"); } catch (std::exception &) { ok = false; } CHECK(ok, "the server starts again"); CHECK(x->store()->getRetainedMessageCount() == 1 && x->store()->getSessionCount() == 1, "loaded"); Conn s; ConnOpt so; so.id = "s"; so.ver = V311; s.connect(*x, so); s.send(mkSubscribe(V311, 1, {{"t", 1}})); auto v = s.take(); auto *g = firstType(v, T_PUBLISH); CHECK(g && g->payload == Bytes(n, 'x'), "the same message"); if (qos) { x->use(0); auto ss = x->store()->lockSession("q"); CHECK(ss && ss->qos.lock()->getQueuedCount() == 1, "the queued message"); } COVER("largest"); }
