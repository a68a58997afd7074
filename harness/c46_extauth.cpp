// C46: extended authentication (CONNECT with an authentication method, AUTH packets, plugin answers now or later).
#include "plug.hpp"
#ifndef OPS
#define OPS 3
#endif
struct Call { ExtendedAuthStage stage; Bytes method, data; };
static std::vector<Call> calls; static int answered; static Bytes ret; static bool badUser;
static const AuthResult A[] = {AuthResult::success, AuthResult::auth_continue, AuthResult::login_denied, AuthResult::error, AuthResult::async, AuthResult::acl_denied, AuthResult::server_not_available, AuthResult::auth_method_not_supported};
static const unsigned RC[] = {0, 0x18, 0x87, 0x80, 0, 0x87, 0x88, 0x8C};
static AuthResult ext(ExtendedAuthStage st, const Bytes &m, const Bytes &d, Bytes &r, Bytes &user) {
    calls.push_back({st, m, d}); unsigned k = fsx_choice("plugin", 7); if (k >= 5) { if (k == 6) { answered = 3; throw std::runtime_error("plugin"); } k = 5 + fsx_choice("other refusal", 3); } answered = k; r = ret; user = "known"; return A[k]; }
static AuthResult acl(const AclQ &q) { if (q.client == "c" && q.user != "known") badUser = true; return AuthResult::success; }
static Bytes letter(const char *n) { Bytes b = symBytes(n, 1); fsx_assume((b[0] >= 'A') & (b[0] <= 'Z')); return b; }
struct Sim { World w; Conn x, c; Bytes m, r; bool in = false, pend = false, defer = false, open = true, everIn = false; std::vector<int> held; Bytes heldPay; size_t ncalls = 0; };
// what the client must see after the plugin answered k
static void expectAnswer(Sim &s, int k, std::vector<OutPkt> got, const Bytes &payNow = Bytes()) {
    if (A[k] == AuthResult::async) { CHECK(got.empty(), "an undecided exchange isn't answered"); s.pend = s.defer = true; COVER("undecided"); return; }
    CHECK(!got.empty(), "the plugin's answer reaches the client"); OutPkt &p = got[0]; auto carries = [&](const OutPkt &p) { const Prop *a = p.prop(21), *d = p.prop(22); CHECK(a && a->s == s.m, "the answer names the method"); CHECK(d && d->s == s.r, "the answer carries the plugin's data"); };
    if (A[k] == AuthResult::auth_continue) { CHECK(got.size() == 1 && p.type == T_AUTH && p.rc == 0x18, "the exchange continues with an AUTH packet"); carries(p); COVER(s.in ? "continued re-authentication" : "continued"); return; }
    if (A[k] == AuthResult::success) {
        if (s.in) { CHECK(got.size() == 1 && p.type == T_AUTH && p.rc == 0, "re-authentication ends with an AUTH packet"); carries(p); COVER("re-authenticated"); return; }
        CHECK(p.type == T_CONNACK && p.rc == 0, "success is told by CONNACK"); carries(p); s.in = s.everIn = true; COVER("admitted"); int subs = 0; for (int h : s.held) subs += h; CHECK(countType(got, T_SUBACK) == subs && got.size() == 1u + subs, "what was kept meanwhile is answered"); auto px = s.x.take(); s.x.poll(); Bytes seen; for (auto &q : px) seen += q.payload; CHECK(seen == s.heldPay, "what was kept meanwhile is published, once and in order"); if (!s.held.empty()) COVER("kept packets"); s.held.clear(); s.heldPay.clear(); s.defer = false; return; }
    CHECK(got.size() == 1 && p.type == (s.in ? T_DISCONNECT : T_CONNACK) && p.rc == RC[k], "a refusal is told with its reason"); CHECK(!s.c.isOpen(), "a refusal ends the connection"); s.open = false; COVER(s.in ? "re-authentication refused" : "refused"); }
static void closedNow(Sim &s, const std::vector<OutPkt> &got) { CHECK(!s.c.isOpen(), "a packet out of order ends the connection"); for (auto &p : got) CHECK((p.type == T_DISCONNECT || p.type == T_CONNACK) && p.rc != 0, "no answer but a refusal"); s.open = false; COVER("out of order"); }
static void start(Sim &s) {
    usePlugin(s.w); pl_ext = ext; pl_acl = acl; s.w.start(); ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; s.x.connect(s.w, xo); s.x.send(mkSubscribe(V5, 1, {{"t", 0}, {"w", 0}})); s.x.take();
    s.m = letter("method"); s.r = ret = symBytes("answer data", 1); }
extern "C" void fsx_exchange() {
    Sim s; start(s); Bytes d = symBytes("data", 1); ConnOpt o; o.props.str(21, s.m).str(22, d); o.will = true; o.willTopic = "w"; o.willPayload = "W"; s.c.open(s.w, V5); s.c.send(mkConnect(o));
    CHECK(calls.size() == 1 && calls[0].stage == ExtendedAuthStage::Auth && calls[0].method == s.m && calls[0].data == d, "the plugin is asked with the client's method and data"); s.ncalls = 1; expectAnswer(s, answered, s.c.take()); bool willSeen = false, dropped = false;
    for (int i = 0; i < OPS && s.open; i++) {
        unsigned op = fsx_choice("op", 8);
        if (op <= 1) { Bytes m2 = letter("method of AUTH"), d2 = symBytes("data of AUTH", 1); bool same = m2 == s.m; s.c.send(mkAuth(op == 0 ? 0x18 : 0x19, Props().str(21, m2).str(22, d2))); auto got = s.c.take();
            if (!same || (op == 1 && !s.in)) { CHECK(calls.size() == s.ncalls, "the plugin isn't asked about a wrong step"); closedNow(s, got); COVER(same ? "re-authentication before admission" : "another method"); continue; }
            CHECK(calls.size() == ++s.ncalls, "the plugin is asked about every step, once"); Call &c = calls.back(); CHECK(c.stage == (op == 0 ? ExtendedAuthStage::Continue : ExtendedAuthStage::Reauth) && c.method == s.m && c.data == d2, "the plugin is asked with the stage, method and data"); expectAnswer(s, answered, got); }
        else if (op == 2) { uint8_t rc; fsx_symbolic(&rc, 1, "reason"); fsx_assume((rc != 0x18) & (rc != 0x19)); s.c.send(mkAuth(rc, Props().str(21, s.m))); closedNow(s, s.c.take()); }
        else if (op == 3) { s.c.send(mkAuth(0x18, fsx_choice("data only", 2) ? Props().str(22, "D") : Props())); closedNow(s, s.c.take()); }
        else if (op == 4) { s.c.send(mkSubscribe(V5, 5, {{"s", 1}})); auto got = s.c.take(); if (s.in) CHECK(got.size() == 1 && got[0].type == T_SUBACK, "after admission, packets are handled"); else { CHECK(got.empty() && subsOf(s.w, "c").empty(), "no packet is handled before admission"); if (s.defer) s.held.push_back(1); COVER("packet before admission"); } }
        else if (op == 5) { Bytes pl = symBytes("payload", 1); s.c.send(mkPublish(V5, "t", pl)); CHECK(s.c.take().empty(), "no answer"); auto px = s.x.take(); if (s.in) CHECK(px.size() == 1 && px[0].payload == pl, "after admission, messages are published"); else { CHECK(px.empty(), "nothing is published before admission"); if (s.defer) { s.held.push_back(0); s.heldPay += pl; } } }
        else if (op == 6) { if (!s.pend) fsx_assume(false); unsigned k = fsx_choice("late answer", 4); s.pend = false; flashmq_continue_async_authentication_v4(pl_client, A[k], s.m, s.r, 0); s.w.pump(); COVER("answered later"); expectAnswer(s, k, s.c.take()); }
        else { bool again = fsx_choice("connect again", 2); if (again) { s.c.send(mkConnect(o)); closedNow(s, s.c.take()); } else { s.c.drop(); dropped = true; s.open = false; COVER("gone"); } CHECK(calls.size() == s.ncalls, "a second CONNECT isn't passed to the plugin"); }
        CHECK(calls.size() == s.ncalls, "the plugin isn't asked for anything else"); CHECK(!!s.w.store()->lockSession("c") == (s.in && s.open) || (s.everIn && !s.open), "a session exists only after admission"); }
    if (!s.open) { if (s.pend) { flashmq_continue_async_authentication_v4(pl_client, AuthResult::success, s.m, s.r, 0); s.w.pump(); CHECK(s.c.take().empty(), "a late answer for a closed connection has no effect"); CHECK(s.everIn || !s.w.store()->lockSession("c"), "nor does it make a session"); COVER("late answer for nobody"); }
        auto px = s.x.take(); int wills = 0; for (auto &p : px) { CHECK(p.topic == "w" && p.payload == "W", "nothing else is published"); wills++; } CHECK(wills == (s.everIn ? 1 : 0), "the will is published exactly when the client was admitted"); if (wills) COVER("will"); (void)willSeen; (void)dropped; }
    CHECK(!badUser, "the user is the one the plugin named"); CHECK(s.x.isOpen(), "others stay"); }
// sessions made or ended by other connections while the exchange is going on
extern "C" void fsx_session() {
    Sim s; start(s); s.w.settings.expireSessionsAfterSeconds = 1000; bool before = fsx_choice("session before", 2), clean = fsx_choice("clean", 2); unsigned meanwhile = fsx_choice("meanwhile", 5); bool has = false; Conn y; ConnOpt yo; yo.id = "c"; yo.clean = false; yo.props.four(17, 100); yo.hasUser = true; yo.user = "known";
    if (before) { y.connect(s.w, yo); y.send(mkSubscribe(V5, 1, {{"s", 1}})); y.drop(); y = Conn(); has = true; }
    ConnOpt o; o.clean = clean; o.props.four(17, 100).str(21, s.m); s.c.open(s.w, V5); answered = -1; s.c.send(mkConnect(o)); fsx_assume((answered == 4) | (answered == 1)); bool later = answered == 4; s.c.take(); auto mine = pl_client;
    if (meanwhile == 1 || meanwhile == 2) { auto a = y.connect(s.w, yo); CHECK(a.rc == 0 && a.sessionPresent == has, "the other connection takes the session"); y.send(mkSubscribe(V5, 1, {{"s", 1}})); y.take(); if (meanwhile == 2) y.drop(); has = true; COVER("made meanwhile"); }
    if (meanwhile == 3) { ConnOpt e; e.id = "c"; e.hasUser = true; e.user = "known"; y.connect(s.w, e); y.drop(); has = false; COVER("ended meanwhile"); }
    if (meanwhile == 4) { s.w.advance(200); s.w.store()->removeExpiredSessionsClients(); has = false; COVER("expired meanwhile"); }
    if (!s.c.isOpen()) return; if (later) { flashmq_continue_async_authentication_v4(mine, AuthResult::success, s.m, "", 0); s.w.pump(); } else { answered = -1; s.c.send(mkAuth(0x18, Props().str(21, s.m))); fsx_assume(answered == 0); }
    auto r = s.c.take(); CHECK(!r.empty() && r[0].type == T_CONNACK && r[0].rc == 0, "admitted"); CHECK(r[0].sessionPresent == (has && !clean), "the CONNACK tells about the session as it is then"); CHECK(subsOf(s.w, "c").size() == (has && !clean ? 1u : 0u), "and the session is the one it tells about"); CHECK(s.w.store()->lockSession("c") != nullptr, "a session"); COVER(has && !clean ? "present" : "not present");
    if (meanwhile == 1) { auto q = y.take(); CHECK(!y.isOpen() && q.size() == 1 && q[0].type == T_DISCONNECT && q[0].rc == 0x8E, "the other connection is taken over"); COVER("taken over"); } }
// clients that never named a method
extern "C" void fsx_nomethod() {
    Sim s; start(s); int ver = fsx_choice("version", 2) ? V5 : V311; ConnOpt o; o.ver = ver; s.c.open(s.w, ver); bool login = fsx_choice("logged in", 2); if (login) { s.c.send(mkConnect(o)); s.c.take(); } uint8_t rc; fsx_symbolic(&rc, 1, "reason"); Props p; unsigned k = fsx_choice("properties", 3); if (k) p.str(21, k == 1 ? Bytes() : s.m); bool shortest = fsx_choice("no body", 2); s.c.send(shortest ? fixedPkt(0xF0, "") : mkAuth(rc, p)); CHECK(calls.empty(), "the plugin isn't asked"); auto got = s.c.take(); CHECK(!s.c.isOpen(), "AUTH without a method in CONNECT ends the connection"); for (auto &q : got) CHECK(q.type == T_DISCONNECT || q.type == T_CONNACK, "no answer but a refusal"); if (!login) CHECK(!s.w.store()->lockSession("c"), "no session"); COVER(login ? "after" : "before"); }
// no plugin, or one that cannot do this
extern "C" void fsx_unsupported() {
    World w; bool pl = fsx_choice("plugin", 2); if (pl) { usePlugin(w); env_plugin_symbol("flashmq_plugin_extended_auth", nullptr); } w.start(); ConnOpt o; o.props.str(21, letter("method")).str(22, symBytes("data", 2)); bool user = fsx_choice("user", 2); if (user) { o.hasUser = true; o.user = "u"; } Conn c; c.open(w, V5); c.send(mkConnect(o)); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc == 0x8C && !c.isOpen(), "an unknown method is refused"); CHECK(!w.store()->lockSession("c"), "no session"); COVER("refused"); }
// very many packets before the decision
extern "C" void fsx_burst() {
    Sim s; start(s); ConnOpt o; o.props.str(21, s.m); s.c.open(s.w, V5); answered = -1; s.c.send(mkConnect(o)); fsx_assume(answered == 4); unsigned n = 62 + fsx_choice("packets", 8); Bytes b; for (unsigned i = 0; i < n; i++) b += mkPing(); s.c.send(b); if (s.c.isOpen()) { CHECK(n <= 66, "kept packets are limited"); flashmq_continue_async_authentication_v4(pl_client, AuthResult::success, s.m, s.r, 0); s.w.pump(); auto r = s.c.take(); CHECK((unsigned)countType(r, T_PINGRESP) == n && r[0].type == T_CONNACK, "every kept packet is answered"); COVER("kept"); } else { CHECK(n >= 64, "a reasonable number is kept"); CHECK(!s.w.store()->lockSession("c"), "no session"); COVER("too many"); } }
