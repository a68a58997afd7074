// C20: topic aliases in both directions.
#include "ref.hpp"
#ifndef OPS
#define OPS 3
#endif
extern "C" void fsx_incoming() {
    World w; unsigned max = fsx_choice("server maximum", 3) * 2; if (max == 4) max = 65535; w.settings.maxIncomingTopicAliasValue = max; w.start(); Conn s; ConnOpt so; so.id = "s"; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"#", 0}})); s.take(); ConnOpt po; po.id = "p"; Conn p; auto ca = p.connect(w, po); auto pr = ca.prop(34); CHECK((pr ? pr->num : 0) == max, "announced maximum"); std::vector<std::pair<uint16_t, Bytes>> map; static const char *T[] = {"", "a", "b/c"};
    for (int i = 0; i < OPS; i++) { bool has = fsx_choice("with alias", 2); uint16_t al = 0; Props pp; if (has) { fsx_symbolic(&al, 2, "alias"); fsx_assume((al <= 3) | (al >= 65534)); pp.two(35, al); } Bytes t = T[fsx_choice("topic", 3)], pl = symBytes("payload", 1); unsigned qos = i & 1; p.send(mkPublish(V5, t, pl, qos, 9, false, false, pp)); size_t k = 0; while (k < map.size() && map[k].first != al) k++; bool ok = has ? al != 0 && (t.empty() ? k < map.size() : al <= max) : !t.empty(); s.poll(); auto r = s.take(); auto a = p.take();
        if (!ok) { CHECK(r.empty(), "nothing is published with a bad alias"); CHECK(!p.isOpen(), "the connection closes"); auto d = firstType(a, T_DISCONNECT); CHECK(d && d->rc >= 0x80, "with an error"); if (has) CHECK(d->rc == 0x94, "topic alias invalid"); COVER("refused"); p = Conn(); p.connect(w, po); map.clear(); continue; }
        if (has && !t.empty()) { if (k < map.size()) { map[k].second = t; COVER("reassigned"); } else map.emplace_back(al, t); } Bytes want = t.empty() ? map[k].second : t; if (t.empty()) COVER("by alias"); CHECK(p.isOpen() && r.size() == 1 && r[0].topic == want && r[0].payload == pl, "published to the topic the alias stands for"); CHECK(!r[0].prop(35), "the sender's alias is not passed on"); if (qos) CHECK(a.size() == 1 && a[0].type == T_PUBACK && a[0].rc < 0x80, "acknowledged"); } }
// aliases of one connection mean nothing on another, or after reconnecting
extern "C" void fsx_scope() {
    World w; w.start(); Conn s; ConnOpt so; so.id = "s"; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"#", 0}})); s.take(); ConnOpt po; po.id = "p"; po.props.four(17, 100); Conn p; p.connect(w, po); uint16_t al, al2; fsx_symbolic(&al, 2, "alias"); fsx_symbolic(&al2, 2, "other alias"); fsx_assume((al > 0) & (al <= 4) & (al2 <= 5) & (al <= w.settings.maxIncomingTopicAliasValue)); Props a1, a2; a1.two(35, al); a2.two(35, al2); p.send(mkPublish(V5, "x", "1", 0, 0, false, false, a1)); s.poll(); CHECK(s.take().size() == 1, "published"); Conn c; po.clean = false; if (fsx_choice("same client", 2)) p.drop(); else po.id = "q"; c.connect(w, po); c.send(mkPublish(V5, "", "2", 0, 0, false, false, a2)); s.poll(); CHECK(s.take().empty() && !c.isOpen(), "unknown alias"); COVER("scope"); }
extern "C" void fsx_outgoing() {
    World w; w.settings.maxOutgoingTopicAliasValue = fsx_choice("server limit", 2) ? 65535 : 2; w.start(); ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); uint16_t max; fsx_symbolic(&max, 2, "client maximum"); ConnOpt so; so.id = "s"; so.props.two(34, max); bool tight = fsx_choice("small packets", 2); if (tight) so.props.four(39, 70); bool pers = fsx_choice("persistent", 2); if (pers) so.props.four(17, 100); Conn s; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"#", 1}})); s.take(); std::vector<std::pair<uint16_t, Bytes>> map; static const char *T[] = {"a", "b/c", "d"};
    for (int i = 0; i < OPS + 1; i++) { Bytes t = T[fsx_choice("topic", 3)], pl = symBytes("payload", 1); bool big = tight && fsx_choice("big", 2); if (big) pl += Bytes(80, 'x'); unsigned qos = i & 1; p.send(mkPublish(V5, t, pl, qos, 5)); p.take(); s.poll(); auto r = s.take(); if (big) { CHECK(r.empty(), "too large"); COVER("dropped"); continue; } CHECK(r.size() == 1 && r[0].type == T_PUBLISH && r[0].payload == pl, "delivered"); Bytes got = r[0].topic; if (auto a = r[0].prop(35)) { CHECK((a->num != 0) & (a->num <= max), "alias within the client's maximum"); size_t k = 0; while (k < map.size() && map[k].first != a->num) k++; if (got.empty()) { CHECK(k < map.size(), "an alias is introduced with its topic"); if (k < map.size()) got = map[k].second; COVER("alias used"); } else { if (k < map.size()) map[k].second = got; else map.emplace_back(a->num, got); COVER("alias set"); } } else COVER("no alias"); CHECK(got == t, "the topic the receiver understands"); if (qos) { s.send(mkAck(T_PUBACK, r[0].pid)); s.take(); } if (i == 1 && pers && fsx_choice("reconnect", 2)) { s.drop(); so.clean = false; s = Conn(); s.connect(w, so); s.take(); map.clear(); COVER("reconnected"); } } }
