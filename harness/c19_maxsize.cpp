// C19: the packet size limit of a client.
#include "ref.hpp"
extern "C" void fsx_live() {
    World w; w.start(); ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); bool pers = fsx_choice("persistent", 2); unsigned m = fsx_range("maximum packet size", 50, 90), qos = fsx_choice("qos", 3); ConnOpt so; so.id = "s"; so.props.four(39, m); so.props.two(33, 1); if (pers) so.props.four(17, 1000); Conn s; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", qos}})); s.take(); unsigned pid = 0;
    for (int i = 0; i < 3; i++) { unsigned len = fsx_choice("length", 3) * 22 + 20; bool prop = fsx_choice("properties", 2); Bytes pl(len, 'x'); Bytes one = symBytes("payload", 1); pl += one; Props pp; if (prop) pp.pair(38, "k", "v"); p.send(mkPublish(V5, "t", pl, qos, 1 + i, false, false, pp)); if (qos == 2) p.send(mkAck(T_PUBREL, 1 + i)); p.take(); size_t size = mkPublish(V5, "t", pl, qos, 1, false, false, pp).size();
        s.poll(); auto r = s.take(); if (size <= m) { CHECK(r.size() == 1 && r[0].type == T_PUBLISH && r[0].payload == pl, "a message that fits is delivered"); COVER("fits"); if (qos) { CHECK(r[0].pid != 0, "identifier"); s.send(mkAck(qos == 1 ? T_PUBACK : T_PUBREC, r[0].pid)); if (qos == 2) s.send(mkAck(T_PUBCOMP, r[0].pid)); s.take(); } } else { CHECK(r.empty(), "a message that does not fit is not sent"); COVER("does not fit"); } }
    CHECK(s.biggest <= m, "largest packet"); (void)pid; }
// retained, resent and will messages, and answers of the server
extern "C" void fsx_other() {
    World w; w.start(); ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); unsigned m = fsx_range("maximum packet size", 2, 100), what = fsx_choice("what", 4); Bytes small(10, 's'), big(60, 'b'); ConnOpt so; so.id = "s"; so.props.four(17, 1000); Conn s;
    if (what == 0) { p.send(mkPublish(V5, "a", small, 1, 1, true)); p.send(mkPublish(V5, "b", big, 1, 2, true)); } else { s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"#", 1}})); s.drop(); so.clean = false; if (what == 1) { p.send(mkPublish(V5, "b", big, 1, 2)); p.send(mkPublish(V5, "a", small, 1, 1)); } if (what == 2) { ConnOpt wo; wo.id = "w"; wo.will = true; wo.willTopic = "b"; wo.willPayload = big; wo.willQos = 1; Conn c; c.connect(w, wo); c.drop(); wo.willTopic = "a"; wo.willPayload = small; c = Conn(); c.connect(w, wo); c.drop(); } }
    so.props = Props(); so.props.four(17, 1000); so.props.four(39, m); so.props.two(33, 2); s = Conn(); s.open(w, V5); s.send(mkConnect(so)); if (what == 0) s.send(mkSubscribe(V5, 1, {{"#", 1}})); if (what == 3) { s.send(mkPublish(V5, "t", small, 1, 7)); s.send(mkPublish(V5, "t", big, 2, 8)); s.send(mkAck(T_PUBREL, 77)); s.send(mkUnsubscribe(V5, 5, {"a", "b", "c"})); s.send(mkPing()); Bytes bad = mkConnect(so); s.send(bad); }
    auto r = s.take(); CHECK(s.biggest <= m, "no packet larger than the client allows"); CHECK(s.leftover() == 0, "whole packets"); if (what < 3) { size_t ssz = mkPublish(V5, "a", small, 1, 1).size(), bsz = mkPublish(V5, "b", big, 1, 1).size(); int na = 0, nb = 0; for (auto &o : r) if (o.type == T_PUBLISH) { if (o.topic == "a") na++; else nb++; } size_t x = what == 0 ? 5 : 0; /* retained messages may get an expiry interval */ CHECK(na == (ssz <= m) || (na == 0 && ssz + x > m), "the small message is delivered when it fits"); CHECK(nb == (bsz <= m) || (nb == 0 && bsz + x > m), "the big message is delivered when it fits"); if (na && !nb) COVER("one of two"); if (nb) COVER("both"); } else COVER("answers"); }
// the messages of another receiver are unaffected
extern "C" void fsx_others() {
    World w; w.start(); ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); unsigned m = fsx_range("maximum packet size", 50, 90), qos = fsx_choice("qos", 3); ConnOpt so; so.id = "s"; so.props.four(39, m); Conn s; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", qos}})); s.take(); ConnOpt oo; oo.id = "o"; Conn o; o.connect(w, oo); o.send(mkSubscribe(V5, 1, {{"t", qos}})); o.take(); bool first = fsx_choice("first", 2); (void)first; Bytes pl(60, 'x'); p.send(mkPublish(V5, "t", pl, qos, 1)); s.poll(); o.poll(); auto r = o.take(); CHECK(r.size() == 1 && r[0].payload == pl, "others get the message"); auto rs = s.take(); CHECK((rs.size() == 1) == (mkPublish(V5, "t", pl, qos, 1).size() <= m), "within the limit"); CHECK(p.isOpen() && s.isOpen(), "no connection suffers"); COVER(rs.empty() ? "dropped" : "delivered"); }
