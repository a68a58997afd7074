// C06: who receives a message.
#include "ref.hpp"
static void run(const std::vector<Bytes> &fs, const Bytes &topic) {
    World w; w.start(); Conn s; ConnOpt o; o.id = "s"; s.connect(w, o); Conn p; ConnOpt o2; o2.id = "p"; p.connect(w, o2); unsigned pid = 1;
    for (auto &f : fs) { s.send(mkSubscribe(V5, pid++, {{f, 0}})); } s.take(); p.send(mkPublish(V5, topic, "m")); auto d = s.take();
    if (topic[0] == '$') { CHECK(countType(d, T_PUBLISH) == 0, "topics starting with $ are reserved for the server itself"); CHECK(p.isOpen(), "and the publisher is not punished"); w.serverPublish(topic, "m"); d = s.take(); COVER("server topic"); } int n = 0; for (auto &f : fs) if (refMatch(f, topic)) n++;
    int got = countType(d, T_PUBLISH); CHECK((got > 0) == (n > 0), "delivered if and only if a filter matches"); if (fs.size() == 1) CHECK(got <= 1, "one subscription, one delivery"); if (got) CHECK(firstType(d, T_PUBLISH)->topic == topic && firstType(d, T_PUBLISH)->payload == "m", "topic and payload");
    CHECK(countType(p.take(), T_PUBLISH) == 0, "nobody else receives it"); COVER(n ? "match" : "no match"); }
#ifndef FL
#define FL 3
#define TL 3
#endif
// every filter and topic text over a small alphabet
extern "C" void fsx_text() {
    unsigned a = 1 + fsx_choice("filter len", FL), b = 1 + fsx_choice("topic len", TL); Bytes f = symBytes("filter", a), t = symBytes("topic", b); for (char c : f) fsx_assume(c == 'a' || c == '/' || c == '+' || c == '#' || c == '$'); for (char c : t) fsx_assume(c == 'a' || c == '/' || c == '$' || c == 'b'); fsx_assume(refValidFilter(f)); run({f}, t); }
#ifndef DEPTH
#define DEPTH 4
#endif
// every combination of levels, up to DEPTH levels
extern "C" void fsx_levels() { unsigned a = 1 + fsx_choice("filter levels", DEPTH), b = 1 + fsx_choice("topic levels", DEPTH); Bytes f = symPath("f", a, true), t = symPath("t", b, false); run({f}, t); }
extern "C" void fsx_two() { unsigned a = 1 + fsx_choice("f1 levels", 2), a2 = 1 + fsx_choice("f2 levels", 2), b = 1 + fsx_choice("topic levels", 2); Bytes f = symPath("f", a, true), f2 = symPath("g", a2, true), t = symPath("t", b, false); run({f, f2}, t); }
// any history of subscribing and unsubscribing
#ifndef OPS
#define OPS 4
#endif
extern "C" void fsx_history() {
    World w; w.start(); Conn s; ConnOpt o; o.id = "s"; s.connect(w, o); Conn s2; o.id = "s2"; s2.connect(w, o); Conn p; ConnOpt o2; o2.id = "p"; p.connect(w, o2);
    Bytes fs[3]; fs[0] = symPath("f", 1, true); fs[1] = Bytes("a/") + symLevel("g", true); fs[2] = "a"; std::vector<Bytes> act, act2; unsigned pid = 1;
    auto add = [](std::vector<Bytes> &v, const Bytes &f) { for (auto &x : v) if (x == f) return; v.push_back(f); }; auto del = [](std::vector<Bytes> &v, const Bytes &f) { for (size_t i = 0; i < v.size(); i++) if (v[i] == f) { v.erase(v.begin() + i); return; } };
    for (int i = 0; i < OPS; i++) { unsigned op = fsx_choice("op", 5), k = op < 4 ? fsx_choice("filter", 3) : 0; if (op == 0) { s.send(mkSubscribe(V5, pid++, {{fs[k], 0}})); add(act, fs[k]); } else if (op == 1) { s.send(mkUnsubscribe(V5, pid++, {fs[k]})); del(act, fs[k]); } else if (op == 2) { s2.send(mkSubscribe(V5, pid++, {{fs[k], 0}})); add(act2, fs[k]); } else if (op == 3) { s2.send(mkUnsubscribe(V5, pid++, {fs[k]})); del(act2, fs[k]); } else break; }
    s.take(); s2.take(); Bytes t = fsx_choice("topic levels", 2) ? Bytes("a/") + symLevel("t", false) : Bytes(1, symLevel("t", false)); p.send(mkPublish(V5, t, "m")); auto d = s.take(), d2 = s2.take(); int n = 0, n2 = 0; for (auto &f : act) if (refMatch(f, t)) n++; for (auto &f : act2) if (refMatch(f, t)) n2++;
    CHECK((countType(d, T_PUBLISH) > 0) == (n > 0), "first client receives it exactly when one of its active filters matches"); CHECK((countType(d2, T_PUBLISH) > 0) == (n2 > 0), "second client receives it exactly when one of its active filters matches"); if (n) COVER("first"); if (n2) COVER("second"); }
// maintenance of the subscription tree leaves live subscriptions alone
extern "C" void fsx_purge() {
    World w; w.start(); Conn s; ConnOpt o; o.id = "s"; s.connect(w, o); Conn x; o.id = "x"; x.connect(w, o); Conn p; o.id = "p"; p.connect(w, o); Bytes f = symPath("f", 1 + fsx_choice("levels", 2), true), g = symPath("g", 1 + fsx_choice("levels2", 2), true); s.send(mkSubscribe(V5, 1, {{f, 0}})); x.send(mkSubscribe(V5, 1, {{g, 0}}));
    bool unsub = fsx_choice("unsubscribe", 2), drop = !unsub && fsx_choice("drop", 2); if (unsub) x.send(mkUnsubscribe(V5, 2, {g})); if (drop) x.drop(); w.advance(5000); w.store()->removeExpiredSessionsClients(); for (int i = 0; i < 3; i++) { w.store()->purgeSubscriptionTree(); w.advance(5000); }
    s.take(); x.take(); Bytes t = symPath("t", 1 + fsx_choice("topic levels", 2), false); p.send(mkPublish(V5, t, "m")); CHECK((countType(s.take(), T_PUBLISH) > 0) == refMatch(f, t), "subscription survives maintenance"); if (!unsub && !drop) CHECK((countType(x.take(), T_PUBLISH) > 0) == refMatch(g, t), "other subscription survives"); COVER("purged");
    s.send(mkSubscribe(V5, 9, {{g, 0}})); s.take(); p.send(mkPublish(V5, t, "m2")); CHECK((countType(s.take(), T_PUBLISH) > 0) == (refMatch(f, t) || refMatch(g, t)), "subscribing again after maintenance works"); }
