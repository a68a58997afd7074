// C31: sessions saved and loaded are as they were. The same history is run twice, once with a restart of the server at a
// moment at which the other run merely loses all connections; afterwards both must show the same.
#include "ref.hpp"
static uint32_t symU32(const char *n, uint32_t max) { uint32_t v; fsx_symbolic(&v, 4, n); fsx_assume(v <= max); return v; }
static uint32_t symT(const char *n, int bits) { uint32_t v; fsx_symbolic(&v, 4, n); return v & ((1u << bits) - 1); }
static int64_t g_s0, g_y0; static std::vector<std::shared_ptr<SubscriptionStore>> g_old; static std::vector<World *> g_worlds;
struct Hist { std::vector<OutPkt> pk; void add(std::vector<OutPkt> v) { for (auto &p : v) pk.push_back(p); } };
struct Rest { bool restart; uint32_t gap; bool clean; };
static World *fresh(void (*cfg)(Settings &)) { globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); { auto l = globals->threadDatas.lock(); l->clear(); } World *w = new World(); if (cfg) cfg(w->settings); w->start(); g_worlds.push_back(w); return w; }
// the moment of the restart: connections are lost, with or without the server's own orderly end
static World *restart(World *w, const Rest &r, std::vector<Conn *> cs, void (*cfg)(Settings &)) {
    if (!r.restart) { for (auto c : cs) if (c->isOpen()) c->drop(); w->advance(r.gap); return w; }
    w->use(0); if (r.clean) { w->td[0]->queueSendWills(); w->pump(); w->td[0]->queueSendDisconnects(); w->pump(); }
    w->store()->saveSessionsAndSubscriptions("sessions.db"); CHECK(env_file_exists("sessions.db"), "saved"); w->use(0); w->advance(r.gap); env_steady_ns -= 500000000000ll; // another boot of the machine: another monotonic clock
    World *n = fresh(cfg); n->store()->loadSessionsAndSubscriptions("sessions.db"); COVER("restarted"); return n; }
static void same(const Hist &a, const Hist &b) { CHECK(a.pk.size() == b.pk.size(), "the same packets follow"); for (size_t i = 0; i < a.pk.size(); i++) { auto &x = a.pk[i], &y = b.pk[i]; CHECK(x.type == y.type && x.flags == y.flags && x.rc == y.rc && x.sessionPresent == y.sessionPresent && x.hasPid == y.hasPid && x.codes == y.codes && x.topic == y.topic && x.payload == y.payload, "the same packet"); if (x.hasPid) CHECK(x.pid == y.pid, "the same packet identifier"); CHECK(x.props.size() == y.props.size(), "the same number of properties"); for (size_t k = 0; k < x.props.size(); k++) CHECK((x.props[k].id == y.props[k].id) & (x.props[k].num == y.props[k].num) && x.props[k].s == y.props[k].s && x.props[k].s2 == y.props[k].s2, "the same properties"); } }
static bool g_late; // after 2038
static void rewindClock() { static bool first = true; if (first) { g_s0 = env_steady_ns; g_y0 = env_system_ns; first = false; } env_steady_ns = g_s0; env_system_ns = g_y0 + (g_late ? 600000000 * 1000000000ll : 0); }
static Bytes client(Hist &h, Conn &c, World &w, const ConnOpt &o) { c = Conn(); auto a = c.connect(w, o); h.pk.push_back(a); h.add(c.take()); return Bytes(); }
// messages that wait for a client, in every state of their delivery
struct MsgIn { int sver, qos, what, dupe, online, acks, back; uint32_t ex, sid, t1, gap; bool clean; Bytes pay; };
static Hist messages(const MsgIn &m, bool re) {
    rewindClock(); World *w = fresh(nullptr); Hist h; Conn s, p; ConnOpt so; so.id = "s"; so.ver = m.sver; so.clean = false; if (so.ver == V5) so.props.four(17, 100000); s.connect(*w, so); Props sp; if (m.sid) sp.var(11, m.sid); s.send(mkSubscribe(so.ver, 1, {{"t/+", 2}}, sp)); s.take(); if (!m.online) s.drop();
    ConnOpt po; po.id = "p"; p.connect(*w, po); Props pp; if (m.what == 1) pp.four(2, m.ex); else if (m.what == 2) pp.str(8, "r").str(9, Bytes("\0c", 2)); else if (m.what == 3) pp.byte(1, 1).str(3, "ct"); else if (m.what == 4) pp.pair(38, "k", "v").pair(38, "k", "w"); else if (m.what == 5) pp.four(2, 100000).str(8, "r").str(9, "c").byte(1, 1).str(3, "ct").pair(38, "k", "v");
    for (int i = 0; i < 2; i++) { unsigned q = i ? 3 - m.qos : m.qos; p.send(mkPublish(V5, i ? "t/b" : "t/a", i ? Bytes("second") : m.pay, q, 3 + i, false, false, i ? Props() : pp)); if (q == 2) p.send(mkAck(T_PUBREL, 3 + i)); p.take(); }
    if (m.online) { auto v = s.take(); for (auto &x : v) if (x.type == T_PUBLISH) { bool first = x.topic == "t/a"; if (first ? m.acks & 1 : m.acks & 2) { if (x.qos() == 1) s.send(mkAck(T_PUBACK, x.pid)); else { s.send(mkAck(T_PUBREC, x.pid)); if (m.acks & 4) s.send(mkAck(T_PUBCOMP, x.pid)); } } } if (m.dupe) { s.send(mkPublish(so.ver, "x", "in", 2, 9)); } s.take(); }
    w->advance(m.t1); w = restart(w, {re, m.gap, m.clean}, {&s, &p}, nullptr); w->use(0); s = Conn(); if (m.back) so.ver = so.ver == V5 ? V311 : V5, so.props = Props(); Conn ob; ConnOpt oo; oo.id = "ob"; oo.keepalive = 60000; ob.connect(*w, oo); ob.send(mkSubscribe(V5, 1, {{"x", 2}})); ob.take(); client(h, s, *w, so);
    // what goes on from there
    for (size_t i = 0, n = h.pk.size(); i < n; i++) { OutPkt x = h.pk[i]; if (x.type == T_PUBLISH) { s.send(mkAck(x.qos() == 1 ? T_PUBACK : T_PUBREC, x.pid)); } else if (x.type == T_PUBREL) s.send(mkAck(T_PUBCOMP, x.pid)); h.add(s.take()); }
    if (m.dupe) { s.send(mkPublish(so.ver, "x", "in", 2, 9, false, true)); s.send(mkAck(T_PUBREL, 9)); h.add(s.take()); h.add(ob.take()); }
    p = Conn(); p.connect(*w, po); p.send(mkPublish(V5, "t/c", "new", 1, 3)); p.take(); s.poll(); h.add(s.take()); if (countType(h.pk, T_PUBLISH) > 1) COVER("pending"); return h; }
extern "C" void fsx_messages() {
    MsgIn m; m.sver = fsx_choice("version", 2) ? V311 : V5; m.qos = 1 + fsx_choice("qos", 2); m.what = fsx_choice("properties", 6); m.online = fsx_choice("online", 2); m.acks = m.online ? fsx_choice("acknowledged", 6) : 0; m.dupe = m.online ? fsx_choice("incoming", 2) : 0; m.back = fsx_choice("other version", 2); m.ex = m.what == 1 ? 1 + symT("expiry", 12) : 0; m.sid = m.sver == V5 && fsx_choice("with identifier", 2) ? 1 + symU32("identifier", 268435454) : 0; m.t1 = symT("before", 10); m.gap = symT("down", 10); if (m.what == 1) fsx_assume((m.ex != m.t1) & (m.ex != m.t1 + m.gap)); m.clean = fsx_choice("orderly", 2); m.pay = m.what == 3 || m.what == 5 ? Bytes("p") : symBytes("payload", 1);
    Hist a = messages(m, false), b = messages(m, true); same(a, b); }
// subscriptions and their options
struct SubIn { int ver, form[2]; uint8_t opt[2]; uint32_t sid[2]; bool clean; };
static const char *FORM[] = {"a", "+/b", "#", "$share/g/a", "$share/h/+/b", "c/b", ""};
static Hist subscriptions(const SubIn &m, bool re) {
    rewindClock(); World *w = fresh(nullptr); Hist h; Conn s, p; ConnOpt so; so.id = "s"; so.ver = m.ver; so.clean = false; if (so.ver == V5) so.props.four(17, 100000); s.connect(*w, so); ConnOpt eo; eo.id = "gone"; Conn e; e.connect(*w, eo); e.send(mkSubscribe(V5, 1, {{"a", 1}})); for (int i = 0; i < 2; i++) { if (!*FORM[m.form[i]]) continue; Props sp; if (m.sid[i]) sp.var(11, m.sid[i]); s.send(mkSubscribe(m.ver, 1 + i, {{FORM[m.form[i]], m.opt[i]}}, sp)); } s.take();
    w = restart(w, {re, 5, m.clean}, {&s, &e}, nullptr); client(h, s, *w, so); ConnOpt po; po.id = "p"; p.connect(*w, po); int id = 1; for (Conn *c : {&p, &s}) { for (auto t : {"a", "c/b"}) { c->send(mkPublish(c->ver, t, t, 2, ++id, true)); c->send(mkAck(T_PUBREL, id)); } c->take(); s.poll(); h.add(s.take()); }
    auto subs = subTopics(*w, "gone"); CHECK(subs.empty() && !w->store()->lockSession("gone"), "a session that ended is gone"); COVER("compared"); return h; }
extern "C" void fsx_subscriptions() {
    SubIn m; m.ver = fsx_choice("version", 2) ? V311 : V5; for (int i = 0; i < 2; i++) { static const int SECOND[] = {6, 1, 3, 5}; m.form[i] = i == 0 ? fsx_choice("form", 6) : SECOND[fsx_choice("second form", 4)]; uint8_t q; fsx_symbolic(&q, 1, "qos"); fsx_assume(q <= 2); bool sh = m.form[i] == 3 || m.form[i] == 4; m.opt[i] = m.ver == V5 && i == 0 ? q | (sh ? 0 : fsx_choice("no local", 2) << 2) | fsx_choice("retain as published", 2) << 3 : q; m.sid[i] = m.ver == V5 && (i || fsx_choice("with identifier", 2)) ? 1 + symU32("identifier", 268435454) : 0; } if (m.form[0] == m.form[1]) return; m.clean = fsx_choice("orderly", 2);
    Hist a = subscriptions(m, false), b = subscriptions(m, true); same(a, b); }
// how long sessions and delayed wills last
struct LifeIn { int ver; bool clean, online, orderly, will; uint32_t expiry, cap, delay, wex, t0, t1, gap, t2; bool hasEx; };
static uint32_t g_cap; static void cfgLife(Settings &s) { s.expireSessionsAfterSeconds = g_cap; }
static Hist lifetimes(const LifeIn &m, bool re) {
    rewindClock(); g_cap = m.cap; World *w = fresh(cfgLife); Hist h; Conn s, ob; ConnOpt so; so.id = "s"; so.ver = m.ver; so.clean = m.clean; so.keepalive = 60000; if (m.ver == V5) so.props.four(17, m.expiry); if (m.will) { so.will = true; so.willTopic = "w"; so.willPayload = "gone"; so.willQos = 1; so.willRetain = true; so.willProps.four(24, m.delay).pair(38, "k", "v"); if (m.hasEx) so.willProps.four(2, m.wex); } CHECK(s.connect(*w, so).rc == 0, "admitted"); s.send(mkSubscribe(m.ver, 1, {{"a", 1}})); s.take(); w->advance(m.t0);
    if (!m.online) { s.drop(); w->advance(m.t1); } w = restart(w, {re, m.gap, m.orderly}, {&s}, cfgLife); ConnOpt oo; oo.id = "ob"; oo.keepalive = 60000; ob.connect(*w, oo); ob.send(mkSubscribe(V5, 1, {{"w", 2}})); ob.take(); w->advance(m.t2); w->use(0); w->td[0]->queueSendingQueuedWills(); w->pump(); w->td[0]->queueRemoveExpiredSessions(); w->pump(); w->advance(1); w->td[0]->queueSendingQueuedWills(); w->pump(); h.add(ob.take()); if (countType(h.pk, T_PUBLISH)) COVER("will"); so.will = false; so.clean = false; client(h, s, *w, so); if (h.pk.back().sessionPresent) COVER("resumed"); else COVER("new"); return h; }
extern "C" void fsx_lifetime() {
    g_late = fsx_choice("after 2038", 2); LifeIn m; m.ver = fsx_choice("version", 2) ? V311 : V5; m.clean = fsx_choice("clean start", 2); m.online = fsx_choice("online", 2); m.orderly = fsx_choice("orderly", 2); m.will = false; m.expiry = symU32("expiry", 0xffffffff); m.cap = 1 + symU32("limit", 0xfffffffe); m.t0 = 10; m.t1 = symT("before", 17); m.gap = symT("down", 31); m.t2 = 100; m.delay = 0; m.hasEx = false; m.wex = 0;
    Hist a = lifetimes(m, false), b = lifetimes(m, true); same(a, b); }
extern "C" void fsx_wills() {
    LifeIn m; m.ver = V5; m.clean = false; m.online = fsx_choice("online", 2); m.orderly = fsx_choice("orderly", 2); m.will = true; m.expiry = 1000000; m.cap = 1000000; m.t0 = symT("connected", 17); m.t1 = symT("before", 17); m.gap = symT("down", 17); m.t2 = symT("after", 17); m.delay = 1 + symT("delay", 18); m.hasEx = fsx_choice("will expires", 2); m.wex = m.hasEx ? 1 + symT("will expiry", 10) : 0;
    Hist a = lifetimes(m, false), b = lifetimes(m, true); same(a, b); }
