// C11: retained messages.
#include "ref.hpp"
struct Ret { Bytes topic, payload; unsigned qos; };
static void put(std::vector<Ret> &v, const Ret &r) { for (size_t i = 0; i < v.size(); i++) if (v[i].topic == r.topic) { if (r.payload.empty()) v.erase(v.begin() + i); else v[i] = r; return; } if (!r.payload.empty()) v.push_back(r); }
// what a new subscription gets, given the latest retained messages
static void expectSet(const std::vector<OutPkt> &got, const std::vector<Ret> &m, const Bytes &filter, unsigned maxq) {
    size_t want = 0; for (auto &r : m) if (refMatch(filter, r.topic)) { want++; int n = 0; for (auto &d : got) if (d.type == T_PUBLISH && d.topic == r.topic) { n++; CHECK(d.payload == r.payload, "the latest retained payload"); CHECK(d.retain(), "flagged as retained"); CHECK(d.qos() == (r.qos < maxq ? r.qos : maxq), "QoS"); } CHECK(n == 1, "each matching retained message exactly once"); }
    CHECK((size_t)countType(got, T_PUBLISH) == want, "nothing but the matching retained messages"); if (want) COVER("received"); else COVER("nothing"); }
#ifndef SETS
#define SETS 2
#endif
// any sequence of retained publishes and removals, then any filter
extern "C" void fsx_sets() {
    World w; w.start(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(w, o); o.id = "s"; s.connect(w, o); std::vector<Ret> m; unsigned shape = fsx_choice("shape", 2);
    for (int i = 0; i < SETS; i++) { unsigned k = fsx_choice("kind", 4); Bytes t = symPath("t", k & 1 ? 2 : 1, false); Bytes pay = k & 2 ? Bytes() : symBytes("payload", 1); unsigned q = i == 0 ? 2 : 1; p.send(mkPublish(V5, t, pay, q, 100 + i, true)); put(m, {t, pay, q}); if (i == 0 && fsx_choice("plain", 2)) p.send(mkPublish(V5, t, "not retained")); }
    if (fsx_choice("maintenance", 2)) { w.use(0); w.store()->expireRetainedMessages(); w.advance(10); w.store()->expireRetainedMessages(); }
    s.take(); Bytes f = symPath("f", 1 + shape, true); unsigned mq = fsx_choice("max qos", 3); s.send(mkSubscribe(V5, 1, {{f, mq}})); auto r = s.take(); CHECK(countType(r, T_SUBACK) == 1, "subscribed"); expectSet(r, m, f, mq); }
// deeper topics and filters
extern "C" void fsx_levels() {
    World w; w.start(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(w, o); o.id = "s"; s.connect(w, o); std::vector<Ret> m; unsigned a = 1 + fsx_choice("topic levels", 3); const char *fixed[4] = {"a/b/a", "a", "b/b", "a/b"}; for (int i = 0; i < 4; i++) { p.send(mkPublish(V5, fixed[i], "r", 0, 0, true)); put(m, {fixed[i], "r", 0}); } Bytes t = symPath("t", a, false); p.send(mkPublish(V5, t, "new", 0, 0, true)); put(m, {t, "new", 0}); Bytes f = symPath("f", 1 + fsx_choice("filter levels", 3), true); s.send(mkSubscribe(V5, 1, {{f, 0}})); expectSet(s.take(), m, f, 0); }
// retain handling, new and existing subscriptions, shared subscriptions
extern "C" void fsx_handling() {
    World w; w.start(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(w, o); o.id = "s"; s.connect(w, o); unsigned char op; fsx_symbolic(&op, 1, "options"); fsx_assume((op & 3) < 3 && (op & 0x30) != 0x30 && op < 64); unsigned before = fsx_choice("before", 4); bool shared = fsx_choice("shared", 2); if (shared) fsx_assume(!(op & 4)); Bytes f = shared ? "$share/g/a" : "a";
    if (before == 1) s.send(mkSubscribe(V5, 1, {{f, 0}})); if (before == 2) { s.send(mkSubscribe(V5, 1, {{f, 0}})); s.send(mkUnsubscribe(V5, 2, {f})); } if (before == 3) s.send(mkSubscribe(V5, 1, {{"+", 0}})); s.take(); p.send(mkPublish(V5, "a", "keep", 1, 9, true)); auto live = s.take(); CHECK(countType(live, T_PUBLISH) == (before == 1 || before == 3 ? 1 : 0), "live delivery"); for (auto &d : live) CHECK(!d.retain(), "live deliveries are not flagged as retained");
    s.send(mkSubscribe(V5, 5, {{f, op}})); auto r = s.take(); unsigned rh = op >> 4 & 3; bool isNew = before != 1; bool want = !shared && (rh == 0 || (rh == 1 && isNew)); CHECK(countType(r, T_PUBLISH) == (want ? 1 : 0), "retained message sent as retain handling asks, never to a shared subscription"); if (want) { CHECK(firstType(r, T_PUBLISH)->retain() && firstType(r, T_PUBLISH)->payload == "keep", "flagged and complete"); COVER("sent"); } else COVER("not sent"); }
// more retained messages than the client can take at once: all of them, eventually, once each
extern "C" void fsx_quota() {
    World w; w.start(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(w, o); o.id = "s"; unsigned rm = fsx_range("receive maximum", 1, 4); o.props.two(33, rm); s.connect(w, o); const char *t[3] = {"a/1", "a/2", "b/3"}; for (int i = 0; i < 3; i++) p.send(mkPublish(V5, t[i], Bytes(1, 'x' + i), 1, 10 + i, true)); s.send(mkSubscribe(V5, 1, {{"#", 1}})); int seen[3] = {0, 0, 0}; int open = 0;
    for (int round = 0; round < 5; round++) { auto r = s.take(); std::vector<unsigned> ids; for (auto &d : r) if (d.type == T_PUBLISH) { open++; CHECK(open <= (int)rm, "within the receive maximum"); for (int i = 0; i < 3; i++) if (d.topic == t[i]) { seen[i]++; CHECK(d.payload == Bytes(1, 'x' + i) && d.retain(), "complete and flagged"); } ids.push_back(d.pid); } for (unsigned id : ids) { s.send(mkAck(T_PUBACK, id)); open--; } env_advance_ms(60); w.pump(); s.poll(); }
    for (int i = 0; i < 3; i++) CHECK(seen[i] == 1, "every retained message exactly once"); COVER("all"); }
// some messages on nested topics have expired, others not
extern "C" void fsx_expiring() {
    World w; w.start(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(w, o); o.id = "s"; s.connect(w, o); std::vector<Ret> m; unsigned mask = fsx_choice("expiring", 16); const char *topics[4] = {"a", "a/b", "a/b/c", "d"}; uint32_t exp; fsx_symbolic(&exp, 4, "expiry"); fsx_assume(exp >= 1 && exp <= 1000);
    for (int i = 0; i < 4; i++) { Props pr; if (mask >> i & 1) pr.four(2, exp); p.send(mkPublish(V5, topics[i], Bytes(1, 'p' + i), 1, 10 + i, true, false, pr)); if (!(mask >> i & 1)) put(m, {topics[i], Bytes(1, 'p' + i), 1}); }
    w.advance(1002); if (fsx_choice("maintenance", 2)) { w.use(0); w.store()->expireRetainedMessages(); } s.take(); Bytes f = symPath("f", 1 + fsx_choice("filter levels", 3), true); s.send(mkSubscribe(V5, 1, {{f, 1}})); expectSet(s.take(), m, f, 1); }
