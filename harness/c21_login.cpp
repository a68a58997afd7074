// C21: before (and without) a successful login nothing happens.
#include "plug.hpp"
static void watch(World &w, Conn &x) { ConnOpt o; o.id = "x"; o.props.four(17, 1000); x.connect(w, o); x.send(mkSubscribe(V5, 1, {{"#", 1}})); x.take(); }
static Bytes anyPacket(int ver) { Bytes pl = symBytes("payload", 1); uint16_t id; fsx_symbolic(&id, 2, "id"); fsx_assume(id != 0);
    switch (fsx_choice("packet", 14)) { case 0: return mkPublish(ver, "t", pl); case 1: return mkPublish(ver, "t", pl, 1, id, true); case 2: return mkPublish(ver, "t", pl, 2, id); case 3: return mkSubscribe(ver, id, {{"#", 1}}); case 4: return mkUnsubscribe(ver, id, {"#"}); case 5: return mkAck(T_PUBACK, id); case 6: return mkAck(T_PUBREC, id); case 7: return mkAck(T_PUBREL, id); case 8: return mkAck(T_PUBCOMP, id); case 9: return mkPing(); case 10: return mkDisconnect(ver); case 11: return mkAuth(0x18, Props().str(21, "m")); case 12: { Bytes b = fixedPkt(0x20, ver == V5 ? Bytes("\0\0\0", 3) : Bytes("\0\0", 2)); return b; } default: { Bytes b = fixedPkt(0x90, pl + pl + pl); return b; } } }
static void nothing(World &w, Conn &x, const Bytes &id) { x.poll(); auto r = x.take(); CHECK(r.empty(), "nothing is published without a login"); CHECK(!w.store()->lockSession(id), "no session without a login"); CHECK(subsOf(w, id).empty(), "no subscription without a login"); Conn y; ConnOpt yo; yo.id = "y"; y.connect(w, yo); y.send(mkSubscribe(V5, 1, {{"#", 0}})); CHECK(countType(y.take(), T_PUBLISH) == 0, "nothing is retained without a login"); }
extern "C" void fsx_before() {
    World w; w.start(); Conn x; watch(w, x); Conn c; c.open(w, V5); int n = 1 + fsx_choice("how many", 2); Bytes all; for (int i = 0; i < n; i++) all += anyPacket(V5); c.send(all); for (auto &o : c.take()) CHECK(o.type == T_DISCONNECT || o.type == T_CONNACK, "no answer but a refusal"); nothing(w, x, "c"); CHECK(x.isOpen(), "others stay"); if (c.isOpen()) { c.send(mkConnect(ConnOpt())); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc == 0, "a later login is still possible"); x.poll(); CHECK(x.take().empty(), "earlier packets stay without effect"); CHECK(subsOf(w, "c").empty(), "earlier packets stay without effect (subscription)"); COVER("logged in later"); } else COVER("closed"); }
static AuthResult g_result; static AuthResult login(const std::string &c, const std::string &, const std::string &) { return c == "c" ? g_result : AuthResult::success; }
// a refused login, with packets sent along in the same read or later; a will is not registered
extern "C" void fsx_refused() {
    World w; usePlugin(w); pl_login = login; unsigned k = fsx_choice("result", 6); static const AuthResult R[] = {AuthResult::login_denied, AuthResult::acl_denied, AuthResult::error, AuthResult::server_not_available, AuthResult::auth_method_not_supported, AuthResult::async}; g_result = R[k]; w.start(); Conn x; watch(w, x); int ver = fsx_choice("version", 2) ? V5 : V311; ConnOpt o; o.ver = ver; o.hasUser = true; o.user = "u"; o.hasPass = true; o.pass = "p"; o.will = true; o.willTopic = "w"; o.willPayload = "gone"; Bytes more = anyPacket(ver); Conn c; c.open(w, ver); /* AUTH cannot follow at once: the version is not known until the CONNECT is handled */ if ((unsigned char)more[0] != 0xF0 && fsx_choice("same read", 2)) c.send(mkConnect(o) + more); else { c.send(mkConnect(o)); c.send(more); }
    auto r = c.take(); if (g_result != AuthResult::async) { CHECK(!r.empty() && r[0].type == T_CONNACK && r[0].rc != 0 && !r[0].sessionPresent, "refused"); CHECK(!c.isOpen(), "and closed"); COVER("refused"); } else { for (auto &q : r) CHECK(q.type != T_CONNACK || q.rc != 0, "not admitted yet"); COVER("undecided"); } c.drop(); w.advance(5); w.pump(); nothing(w, x, "c"); }
// an asynchronous decision: what was sent meanwhile takes effect once, and only after admission
extern "C" void fsx_async() {
    World w; usePlugin(w); pl_login = login; g_result = AuthResult::async; w.start(); Conn x; watch(w, x); ConnOpt o; o.hasUser = true; o.user = "u"; Conn c; c.open(w, V5); c.send(mkConnect(o)); Bytes pl = symBytes("payload", 2); c.send(mkPublish(V5, "t", pl.substr(0, 1), 1, 3) + mkSubscribe(V5, 4, {{"s", 0}})); c.send(mkPublish(V5, "t", pl.substr(1, 1), 0)); CHECK(c.take().empty(), "no answer yet"); x.poll(); CHECK(x.take().empty(), "nothing published yet"); CHECK(subsOf(w, "c").empty(), "nothing subscribed yet"); bool ok = fsx_choice("admit", 2); flashmq_continue_async_authentication_v4(pl_client, ok ? AuthResult::success : AuthResult::login_denied, "", "", 0); w.pump(); auto r = c.take(); x.poll(); auto px = x.take();
    if (ok) { CHECK(r.size() == 3 && r[0].type == T_CONNACK && r[0].rc == 0 && countType(r, T_PUBACK) == 1 && countType(r, T_SUBACK) == 1, "everything is answered after admission"); CHECK(px.size() == 2 && px[0].payload == pl.substr(0, 1) && px[1].payload == pl.substr(1, 1), "published once, in order"); CHECK(subsOf(w, "c").size() == 1, "subscribed"); COVER("admitted"); } else { CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc != 0 && !c.isOpen(), "refused"); CHECK(px.empty(), "nothing published"); CHECK(subsOf(w, "c").empty(), "nothing subscribed"); CHECK(!w.store()->lockSession("c"), "no session"); COVER("refused"); } }
// a second login attempt on the same connection
extern "C" void fsx_second() {
    World w; w.start(); Conn x; watch(w, x); x.drop(); ConnOpt o; o.id = "c"; Conn c; c.connect(w, o); c.send(mkSubscribe(V5, 1, {{"q", 0}})); c.take(); ConnOpt o2; o2.id = fsx_choice("whose", 2) ? "x" : "c"; o2.ver = fsx_choice("version", 2) ? V5 : V311; o2.clean = fsx_choice("clean", 2); Bytes pl = symBytes("payload", 1); c.send(mkConnect(o2) + mkPublish(V5, "t", pl, 1, 1)); auto r = c.take(); CHECK(!c.isOpen(), "a second login attempt closes the connection"); CHECK(countType(r, T_CONNACK) == 0 && countType(r, T_PUBACK) == 0, "and is not answered as one"); CHECK(subsOf(w, "x").size() == 1, "the other session keeps its subscription"); ConnOpt xo; xo.id = "x"; xo.clean = false; xo.props.four(17, 1000); Conn x2; auto ca = x2.connect(w, xo); CHECK(ca.sessionPresent, "the other session is still there"); CHECK(x2.take().empty(), "and nothing was published"); COVER("second"); }
