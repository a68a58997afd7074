// C15: a QoS 2 publish is passed on once, until released.
#include "ref.hpp"
#ifndef OPS
#define OPS 3
#endif
extern "C" void fsx_once() {
    World w; w.start(); Conn s; ConnOpt so; so.id = "s"; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", 0}})); s.take(); int ver = fsx_choice("version", 2) ? V5 : V311; bool pers = fsx_choice("persistent", 2); ConnOpt po; po.ver = ver; po.id = "p"; po.clean = ver == V5 ? true : !pers; if (ver == V5 && pers) po.props.four(17, 1000); Conn p; p.connect(w, po); if (ver == V5) po.clean = false;
    std::vector<uint16_t> held; auto find = [&](uint16_t id) { size_t i = 0; while (i < held.size() && held[i] != id) i++; return i; };
    for (int i = 0; i < OPS; i++) { unsigned op = fsx_choice("op", 3);
        if (op < 2) { uint16_t id; fsx_symbolic(&id, 2, "id"); fsx_assume(id != 0); size_t k = find(id);
            if (op == 0) { Bytes pl = symBytes("payload", 1); Bytes b = mkPublish(ver, "t", pl, 2, id); unsigned char d; fsx_symbolic(&d, 1, "dup"); fsx_assume(d <= 1); b[0] |= d << 3; p.send(b); auto a = p.take(); CHECK(a.size() == 1 && a[0].type == T_PUBREC && a[0].pid == id && a[0].rc < 0x80, "a QoS 2 publish is answered with PUBREC"); s.poll(); auto r = s.take(); if (k == held.size()) { CHECK(r.size() == 1 && r[0].type == T_PUBLISH && r[0].payload == pl && !r[0].dup(), "a new message is passed on"); held.push_back(id); COVER("passed on"); } else { CHECK(r.empty(), "a repeated message is passed on again"); COVER("repeated"); } }
            else { p.send(mkAck(T_PUBREL, id)); auto a = p.take(); CHECK(a.size() == 1 && a[0].type == T_PUBCOMP && a[0].pid == id, "a release is answered with PUBCOMP"); if (ver == V5) CHECK(a[0].rc == (k == held.size() ? 0x92 : 0), "release answer"); if (k < held.size()) { held.erase(held.begin() + k); COVER("released"); } else COVER("nothing to release"); CHECK((s.poll(), s.take().empty()), "a release delivers nothing"); } }
        else { p.drop(); p = Conn(); auto a = p.connect(w, po); CHECK(a.rc == 0 && a.sessionPresent == pers, "connected again"); if (!pers) held.clear(); COVER("reconnected"); } } }
// publishes repeated within one read, and taken over by a second connection of the same client
extern "C" void fsx_burst() {
    World w; w.start(); Conn s; ConnOpt so; so.id = "s"; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", 0}})); s.take(); ConnOpt po; po.id = "p"; po.props.four(17, 1000); Conn p; p.connect(w, po); po.clean = false; uint16_t a, b; fsx_symbolic(&a, 2, "id"); fsx_symbolic(&b, 2, "other id"); fsx_assume((a != 0) & (b != 0)); Bytes pl = symBytes("payload", 3); auto one = [&](uint16_t id, int i) { return mkPublish(V5, "t", pl.substr(i, 1), 2, id, false, i > 0); };
    unsigned how = fsx_choice("how", 3); if (how == 0) p.send(one(a, 0) + one(b, 1) + mkAck(T_PUBREL, a) + one(a, 2)); else if (how == 1) { p.send(one(a, 0)); Conn p2; p2.connect(w, po); p2.send(one(b, 1) + mkAck(T_PUBREL, a) + one(a, 2)); } else { p.feed(one(a, 0)); p.feed(mkDisconnect(V5)); w.pump(); Conn p2; p2.connect(w, po); p2.send(one(b, 1) + mkAck(T_PUBREL, a) + one(a, 2)); }
    s.poll(); auto r = s.take(); Bytes want = pl.substr(0, 1); if (b != a) want += pl[1]; want += pl[2]; CHECK(r.size() == want.size(), "each message once"); for (size_t i = 0; i < r.size(); i++) CHECK(r[i].payload == want.substr(i, 1), "in order"); COVER(b == a ? "same" : "different"); }
// what repeats is not stored as retained either
extern "C" void fsx_retained() {
    World w; w.start(); ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); uint16_t a, b; fsx_symbolic(&a, 2, "id"); fsx_symbolic(&b, 2, "other id"); fsx_assume((a != 0) & (b != 0)); Bytes pl = symBytes("payload", 2); p.send(mkPublish(V5, "t", pl.substr(0, 1), 2, a, true)); p.send(mkPublish(V5, "t", pl.substr(1, 1), 2, b, true, true)); Conn s; ConnOpt so; so.id = "s"; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", 0}})); auto r = s.take(); auto m = firstType(r, T_PUBLISH); CHECK(m && m->payload == (a == b ? pl.substr(0, 1) : pl.substr(1, 1)), "a repeated message changes nothing"); COVER("retained"); }
