// C24: what the access check denies has no effect.
#include "plug.hpp"
static const AuthResult NO[] = {AuthResult::acl_denied, AuthResult::login_denied, AuthResult::error, AuthResult::server_not_available, AuthResult::auth_method_not_supported, AuthResult::acl_denied};
static int g_no; static bool g_wrong; static AuthResult no() { if (g_no == 5) throw std::runtime_error("no"); return NO[g_no]; }
static bool (*g_deny)(const AclQ &);
static Bytes g_topic, g_payload; static std::vector<Bytes> g_asked;
static AuthResult acl(const AclQ &q) { if (q.sub != levels(q.topic)) g_wrong = true; if (q.client.empty() && q.access == AclAccess::read) g_wrong = true; return g_deny && g_deny(q) ? no() : AuthResult::success; }
static void plugin(World &w) { usePlugin(w, 1 + fsx_choice("plugin version", 5)); pl_acl = acl; g_no = fsx_choice("denied how", 6); }
static Conn client(World &w, const Bytes &id, int ver = V5, bool persistent = false) { Conn c; ConnOpt o; o.id = id; o.ver = ver; if (persistent) { o.clean = ver == V5; if (ver == V5) o.props.four(17, 1000); } c.connect(w, o); return c; }
static bool denyWriteT(const AclQ &q) { return q.access == AclAccess::write && q.topic == "t"; }
// publishing
extern "C" void fsx_publish() {
    World w; plugin(w); bool second = fsx_choice("something retained before", 2); w.start(); Conn x = client(w, "x"); x.send(mkSubscribe(V5, 1, {{"#", 2}})); x.take(); Bytes pl = symBytes("payload", 2); int ver = fsx_choice("version", 2) ? V5 : V311; Conn p = client(w, "p", ver); if (second) { p.send(mkPublish(ver, "t", "old", 0, 0, true)); x.take(); } g_deny = denyWriteT; unsigned q = fsx_choice("qos", 3); bool ret = fsx_choice("retain", 2), empty = fsx_choice("empty", 2); uint16_t id; fsx_symbolic(&id, 2, "id"); fsx_assume(id != 0); p.send(mkPublish(ver, "t", empty ? Bytes() : pl, q, q ? id : 0, ret) + mkPublish(ver, "u", "other", 0)); auto r = p.take(); x.poll(); auto d = x.take(); CHECK(d.size() == 1 && d[0].topic == "u", "a denied message is not delivered, and the next one is"); if (q == 0) CHECK(r.empty(), "nothing to answer"); else { CHECK(r.size() == 1 && r[0].type == (q == 1 ? T_PUBACK : T_PUBREC) && r[0].pid == id, "answered"); if (ver == V5) CHECK(r[0].rc >= 0x80, "with a refusal"); } CHECK(p.isOpen(), "the publisher stays");
    if (q == 2 && ver == V311) { p.send(mkAck(T_PUBREL, id)); auto c = p.take(); CHECK(c.size() == 1 && c[0].type == T_PUBCOMP && c[0].pid == id, "completed"); x.poll(); CHECK(x.take().empty(), "still not delivered"); } if (q == 2 && ver == V5) { /* a refused identifier is free again */ g_deny = nullptr; p.send(mkPublish(ver, "v", pl, 2, id)); x.poll(); auto e = x.take(); CHECK(e.size() == 1 && e[0].payload == pl, "the identifier is free again"); p.take(); }
    g_deny = nullptr; Conn y = client(w, "y"); y.send(mkSubscribe(V5, 1, {{"t", 0}})); auto s = y.take(); const OutPkt *m = firstType(s, T_PUBLISH); CHECK(second ? m && m->payload == "old" : !m, "what is retained did not change"); CHECK(!g_wrong, "asked properly"); COVER("publish"); }
static unsigned g_which; static bool denySub(const AclQ &q) { if (q.access != AclAccess::subscribe) return false; if (q.share != (q.topic == "c/d" ? "g" : "") && pl_version >= 4) g_wrong = true; return q.topic == "a" ? g_which & 1 : q.topic == "b/+" ? g_which & 2 : q.topic == "c/d" ? g_which & 4 : false; }
// subscribing: any subset of three filters is denied
extern "C" void fsx_subscribe() {
    World w; plugin(w); w.start(); Conn p = client(w, "p"); p.send(mkPublish(V5, "a", "ra", 0, 0, true) + mkPublish(V5, "b/x", "rb", 0, 0, true)); int ver = fsx_choice("version", 2) ? V5 : V311; Conn c = client(w, "c", ver); bool had = fsx_choice("subscribed before", 2); if (had) { c.send(mkSubscribe(ver, 9, {{"a", 1}})); c.take(); } g_which = fsx_choice("denied", 8); g_deny = denySub; Bytes pl = symBytes("payload", 1); c.send(mkSubscribe(ver, 2, {{"a", 0}, {"b/+", 2}, {"$share/g/c/d", 1}})); auto r = c.take(); const OutPkt *s = firstType(r, T_SUBACK); CHECK(s && s->pid == 2 && s->codes.size() == 3, "one answer"); for (int i = 0; i < 3; i++) { unsigned char k = s->codes[i]; CHECK(g_which >> i & 1 ? k >= 0x80 : k == (i == 0 ? 0 : i == 1 ? 2 : 1), "a refusal exactly for what was denied"); } int ra = 0, rb = 0; for (auto &x : r) if (x.type == T_PUBLISH) { if (x.topic == "a") ra++; else rb++; } CHECK(ra == !(g_which & 1) && rb == !(g_which & 2), "retained messages exactly for what was admitted"); p.send(mkPublish(V5, "a", pl) + mkPublish(V5, "b/x", pl) + mkPublish(V5, "c/d", pl)); auto d = c.take(); Bytes got; for (auto &x : d) if (x.type == T_PUBLISH) got += x.topic[0]; Bytes want; if (had || !(g_which & 1)) want += 'a'; if (!(g_which & 2)) want += 'b'; if (!(g_which & 4)) want += 'c'; CHECK(got == want, "messages exactly for what was admitted, now or before"); CHECK(!g_wrong, "asked properly"); COVER("subscribe"); }
static bool denyRead(const AclQ &q) { return q.access == AclAccess::read && q.client == "r" && q.topic == "t"; }
// receiving: live, retained, while away, in a share
extern "C" void fsx_read() {
    World w; plugin(w); w.start(); int ver = fsx_choice("version", 2) ? V5 : V311; Bytes pl = symBytes("payload", 1); int how = fsx_choice("how", 4); unsigned q = fsx_choice("qos", 3); bool shared = how == 3; Conn r = client(w, "r", ver, how == 2), o = client(w, "o"), p = client(w, "p"); g_deny = denyRead; if (how == 1) p.send(mkPublish(V5, "t", pl, q, q, true) + mkPublish(V5, "t/u", pl, q, q ? 7 : 0, true)); r.send(mkSubscribe(ver, 1, {{shared ? "$share/g/t" : "t", 2}, {"t/u", 2}})); auto s = r.take(); CHECK(countType(s, T_SUBACK) == 1, "subscribed"); if (how == 1) { CHECK(countType(s, T_PUBLISH) == 1 && firstType(s, T_PUBLISH)->topic == "t/u", "a retained message only with read access"); COVER("retained"); return; } o.send(mkSubscribe(V5, 1, {{shared ? "#" : "+", 0}})); o.take(); if (how == 2) r.drop(); p.send(mkPublish(V5, "t", pl, q, q ? 1 : 0) + mkPublish(V5, "t/u", pl, 1, 2)); if (how == 2) { g_deny = nullptr; ConnOpt ro; ro.id = "r"; ro.ver = ver; ro.clean = false; if (ver == V5) ro.props.four(17, 1000); r = Conn(); r.connect(w, ro); } auto d = r.take(); CHECK(countType(d, T_PUBLISH) == 1 && firstType(d, T_PUBLISH)->topic == "t/u", "a message only with read access"); auto e = o.take(); CHECK(countType(e, T_PUBLISH) == (shared ? 2 : 1), "others get theirs"); CHECK(r.isOpen() && p.isOpen() && o.isOpen(), "everybody stays"); CHECK(!g_wrong, "asked properly"); COVER(how == 2 ? "away" : shared ? "shared" : "live"); }
static int g_acc; static bool denyWill(const AclQ &q) { return q.topic == "w" && ((g_acc == 0 && q.access == AclAccess::register_will) || (g_acc == 1 && q.access == AclAccess::write) || (g_acc == 2 && q.access == AclAccess::read && q.client == "x")); }
// wills: denied at registration, when published, or for the receiver
extern "C" void fsx_will() {
    World w; plugin(w); w.start(); g_acc = fsx_choice("access", 4); int ver = fsx_choice("version", 2) ? V5 : V311; Conn x = client(w, "x"), y = client(w, "y"); for (Conn *k : {&x, &y}) { k->send(mkSubscribe(V5, 1, {{"#", 1}})); k->take(); } g_deny = denyWill; ConnOpt o; o.id = "c"; o.ver = ver; o.will = true; o.willTopic = "w"; o.willPayload = symBytes("will", 1); o.willQos = fsx_choice("qos", 2); o.willRetain = fsx_choice("retain", 2); bool delay = ver == V5 && fsx_choice("delay", 2); if (delay) { o.willProps.four(24, 5); o.props.four(17, 100); } Conn c; auto a = c.connect(w, o); CHECK(a.rc == 0, "the login itself is not refused"); c.drop(); if (delay) { w.advance(6); w.td[0]->queueSendingQueuedWills(); } w.pump(); auto rx = x.take(), ry = y.take(); int nx = countType(rx, T_PUBLISH), ny = countType(ry, T_PUBLISH); CHECK(ny == (g_acc >= 2), "a denied will is not published"); CHECK(nx == (g_acc == 3), "and not received without read access"); if (ny) CHECK(firstType(ry, T_PUBLISH)->payload == o.willPayload, "as given"); g_deny = nullptr; Conn z = client(w, "z"); z.send(mkSubscribe(V5, 1, {{"w", 0}})); CHECK(countType(z.take(), T_PUBLISH) == (g_acc >= 2 && o.willRetain), "nor retained"); CHECK(!g_wrong, "asked properly"); COVER(g_acc == 3 ? "published" : "denied"); }
static AuthResult g_special; static AuthResult special(const AclQ &q) { return q.access == AclAccess::write && q.topic == "t" && q.client == "p" ? g_special : AuthResult::success; }
// answers that admit with a restriction
extern "C" void fsx_restricted() {
    World w; usePlugin(w, 5); pl_acl = special; g_special = fsx_choice("answer", 2) ? AuthResult::success_without_setting_retained : AuthResult::success_but_drop_publish; w.start(); bool drop = g_special == AuthResult::success_but_drop_publish; Conn x = client(w, "x"), away = client(w, "a", V5, true), p = client(w, "p"); x.send(mkSubscribe(V5, 1, {{"t", 0}})); x.take(); away.send(mkSubscribe(V5, 1, {{"t", 1}})); away.take(); away.drop(); Bytes pl = symBytes("payload", 1); unsigned q = fsx_choice("qos", 3); p.send(mkPublish(V5, "t", pl, q, q, fsx_choice("retain", 2))); auto a = p.take(); if (q) CHECK(a.size() == 1 && a[0].rc < 0x80, "accepted"); auto r = x.take(); CHECK(r.size() == (drop ? 0u : 1u), "delivered unless dropped"); ConnOpt o; o.id = "a"; o.clean = false; o.props.four(17, 1000); away = Conn(); away.connect(w, o); CHECK(countType(away.take(), T_PUBLISH) == (!drop && q ? 1 : 0), "queued unless dropped"); Conn z = client(w, "z"); z.send(mkSubscribe(V5, 1, {{"t", 0}})); CHECK(countType(z.take(), T_PUBLISH) == 0, "not retained"); COVER(drop ? "dropped" : "not retained"); }
static AuthResult g_subspecial; static AuthResult subspecial(const AclQ &q) { return q.access == AclAccess::subscribe && q.topic == "t" ? g_subspecial : AuthResult::success; }
extern "C" void fsx_restricted_subscribe() {
    World w; usePlugin(w, 5); pl_acl = subspecial; bool drop = fsx_choice("answer", 2); g_subspecial = drop ? AuthResult::success_but_drop : AuthResult::success_without_retained_delivery; w.start(); Conn p = client(w, "p"), c = client(w, "c"); Bytes pl = symBytes("payload", 2); p.send(mkPublish(V5, "t", pl, 0, 0, true) + mkPublish(V5, "u", "u", 0, 0, true)); c.send(mkSubscribe(V5, 1, {{"t", 1}, {"u", 1}})); auto r = c.take(); CHECK(firstType(r, T_SUBACK) && firstType(r, T_SUBACK)->codes == Bytes("\1\1", 2), "accepted"); CHECK(countType(r, T_PUBLISH) == 1 && firstType(r, T_PUBLISH)->topic == "u", "without its retained messages"); p.send(mkPublish(V5, "t", pl) + mkPublish(V5, "u", pl)); CHECK(countType(c.take(), T_PUBLISH) == (drop ? 1 : 2), "subscribed unless dropped"); COVER(drop ? "dropped" : "not retained"); }
