// A receiver of QoS messages and a reference model of its session: what must be in flight, with which identifiers, in which order.
#pragma once
#include "ref.hpp"
struct Ex { unsigned id; unsigned n; Bytes pay; unsigned qos; bool rel; bool sent; }; // n: message number; rel: confirmed with PUBREC, waiting for PUBCOMP; id 0: not yet seen on the wire
struct Flow {
    World w; Conn p, s; ConnOpt so; bool persistent; int rm, quota; bool online = false; std::vector<Ex> q; unsigned n = 0; unsigned lastId = 0; unsigned pver = V5; size_t maxPending = 0xffff;
    void start(bool pers, int receiveMax, int ver = V5) { persistent = pers; rm = receiveMax; w.start(); ConnOpt po; po.id = "p"; p.connect(w, po); so.id = "s"; so.ver = ver; so.clean = true; reconnect(receiveMax, true); s.send(mkSubscribe(ver, 1, {{"t", 2}})); auto r = s.take(); CHECK(countType(r, T_SUBACK) == 1, "subscribed"); }
    bool idInUse(unsigned id, unsigned except) { bool r = false; for (auto &e : q) if (e.n != except) r |= e.id == id; return r; }
    // one PUBLISH the receiver got: it must be that of exchange e
    void expectPublish(const OutPkt &o, Ex &e, bool again) {
        CHECK(o.type == T_PUBLISH && o.topic == "t" && o.payload == e.pay, "messages arrive complete and in order"); CHECK(o.qos() == e.qos, "with the QoS of the subscription"); CHECK(o.pid != 0, "packet identifier is not zero");
        if (e.id) CHECK(o.pid == e.id, "a resent message keeps its packet identifier"); else CHECK(!idInUse(o.pid, e.n), "packet identifier of another unfinished exchange");
        if (again && e.sent) { if (!o.dup()) COVER("KF:C14-no-dup"); } else CHECK(!o.dup(), "no duplicate flag on a first delivery"); e.id = o.pid; e.sent = true; lastId = o.pid; }
    void publish(unsigned qos) {
        unsigned k = n++; Bytes pl = symBytes("payload", 1); p.send(mkPublish(V5, "t", pl, qos, 100 + k)); auto a = p.take(); CHECK(countType(a, qos == 1 ? T_PUBACK : T_PUBREC) == 1, "the publisher is answered, whatever the receiver does"); if (qos == 2) { p.send(mkAck(T_PUBREL, 100 + k)); p.take(); }
        s.poll(); auto r = online ? s.take() : std::vector<OutPkt>(); bool room = quota > 0 && (online || persistent); if (!room) { CHECK(r.empty(), "nothing is sent beyond the receive maximum"); COVER("no room"); return; }
        quota--; q.push_back({0, k, pl, qos, false, false}); if (online) { CHECK(r.size() == 1, "a message for which there is a place is sent at once"); expectPublish(r[0], q.back(), false); COVER("sent"); } else COVER("queued"); }
    void finish(size_t i) { q.erase(q.begin() + i); if (quota < rm) quota++; }
    // kind 0 PUBACK, 1 PUBREC, 2 PUBREC with an error, 3 PUBCOMP; any identifier
    void ackSym(int kind) { uint16_t id; fsx_symbolic(&id, 2, "ack id"); fsx_assume(id != 0); size_t i = 0; while (i < q.size() && q[i].id != id) i++; ack(kind, i, id); }
    void ack(int kind, size_t i, unsigned unknownId) {
        bool known = i < q.size() && q[i].id; unsigned id = known ? q[i].id : unknownId; bool v5 = s.ver == V5;
        if (known && !q[i].rel && ((kind == 0) != (q[i].qos == 1)) && kind != 3) return; // an answer of the wrong kind from the receiver: anything may happen to that exchange
        if (known && q[i].rel && kind == 2) return; if (kind == 2 && !v5) return;
        s.send(kind == 0 ? mkAck(T_PUBACK, id) : kind == 1 ? mkAck(T_PUBREC, id) : kind == 2 ? mkAckRc(T_PUBREC, id, 0x97) : mkAck(T_PUBCOMP, id)); CHECK(s.isOpen(), "the connection goes on"); auto r = s.take();
        if (kind == 1) { CHECK(r.size() == 1 && r[0].type == T_PUBREL && r[0].pid == id, "PUBREC is answered with PUBREL"); if (v5 && known && !q[i].rel) CHECK(r[0].rc == 0, "PUBREL of a known identifier"); if (v5 && !known) CHECK(r[0].rc == 0x92, "PUBREL of an unknown identifier says so"); } else CHECK(r.empty(), "no further answer");
        if (!known) { COVER("unknown"); return; }
        if (kind == 1) { q[i].rel = true; COVER("released"); } else if (kind == 0 && !q[i].rel) { finish(i); COVER("acknowledged"); } else if (kind == 2) { finish(i); COVER("refused"); } else if (kind == 3 && q[i].rel) { finish(i); COVER("completed"); } }
    void drop(bool clean) { if (!online) return; if (clean && !so.clean && s.ver != V5) clean = true; if (clean) { s.feed(mkDisconnect(s.ver)); w.pump(); s.drop(); } else s.drop(); online = false; if (!persistent) q.clear(); }
    void reconnect(int receiveMax, bool first = false) {
        rm = receiveMax; so.props = Props(); if (so.ver == V5) { so.props.two(33, rm); if (persistent) so.props.four(17, 1000); } if (so.ver != V5) { so.clean = !persistent; rm = 0xffff; } s = Conn(); s.open(w, so.ver); s.send(mkConnect(so)); auto r = s.take(); CHECK(!r.empty() && r[0].type == T_CONNACK && r[0].rc == 0, "connected"); online = true; bool had = !first && persistent; CHECK(r[0].sessionPresent == had, "session present"); so.clean = so.ver == V5 ? false : so.clean; quota = rm; size_t j = 1;
        if (!had) { q.clear(); CHECK(r.size() == 1, "nothing else"); return; }
        for (size_t i = 0; i < q.size();) { if (q[i].rel) { i++; continue; } if (quota <= 0) { q.erase(q.begin() + i); COVER("dropped at reconnect"); continue; } quota--; CHECK(j < r.size(), "every unacknowledged message is resent"); expectPublish(r[j++], q[i], true); i++; COVER("resent"); }
        size_t rels = 0; for (auto &e : q) if (e.rel) { rels++; int c = 0; for (size_t k = j; k < r.size(); k++) if (r[k].type == T_PUBREL && r[k].pid == e.id) c++; CHECK(c == 1, "the release is repeated"); COVER("release repeated"); } CHECK(r.size() == j + rels, "nothing else is sent on reconnect"); }
    // everything still unfinished can be finished, and afterwards all places are free
    void drain() { if (!online) reconnect(2); for (int g = 0; g < 20 && !q.empty(); g++) { if (q[0].rel) ack(3, 0, 0); else if (q[0].qos == 1) ack(0, 0, 0); else ack(1, 0, 0); } CHECK(q.empty(), "drained"); for (int i = 0; i < 2; i++) publish(1); COVER("drained"); }
};
