// C25: one connection per client identifier, with the right session.
#include "plug.hpp"
struct Ses { bool exists = false, sub = false; std::vector<Bytes> pend; bool ends = false; };
static Bytes lastDisc(std::vector<OutPkt> &v, int ver) { (void)ver; Bytes r; for (auto &o : v) if (o.type == T_DISCONNECT) r += (char)o.rc; return r; }
static void gone(Conn &c) { auto r = c.take(); CHECK(!c.isOpen(), "the older connection ends"); if (c.ver == V5) { CHECK(lastDisc(r, V5) == Bytes("\x8e"), "and is told why"); CHECK(r.back().type == T_DISCONNECT, "as the last thing"); } }
// histories of one identifier
extern "C" void fsx_history() {
    World w; w.start(THREADS); Conn p; ConnOpt po; po.id = "p"; p.connect(w, po); Conn d; po.id = "d"; d.connect(w, po); d.send(mkSubscribe(V5, 1, {{"t", 0}})); d.take(); Ses s; Conn c; bool on = false; unsigned pid = 1, kicked = 0;
    for (int k = 0; k < OPS; k++) {
        int op = k == 0 ? 0 : fsx_choice("op", 4);
        if (op == 0) { // connect
            int vi = fsx_choice("version", 3); ConnOpt o; o.id = "c"; o.ver = vi == 0 ? V5 : vi == 1 ? V311 : V31; o.clean = fsx_choice("clean", 2); bool keep = o.ver == V5 ? fsx_choice("keep", 2) : !o.clean; if (o.ver == V5 && keep) o.props.four(17, 100); bool resumed = s.exists && !s.ends && !o.clean; Conn old = c; bool was = on; c = Conn(); c.open(w, o.ver, THREADS > 1 ? fsx_choice("thread", THREADS) : 0); c.send(mkConnect(o)); auto r = c.take(); CHECK(!r.empty() && r[0].type == T_CONNACK && r[0].rc == 0, "admitted"); CHECK(r[0].sessionPresent == (resumed && o.ver != V31), "the session-present flag tells whether a session was resumed"); if (was) { old.w = &w; gone(old); kicked++; COVER(resumed ? "taken over" : "replaced"); }
            if (!resumed) { s = Ses(); CHECK(r.size() == 1, "nothing of an earlier session is delivered"); } else { CHECK(r.size() == 1 + s.pend.size(), "the pending messages are delivered"); for (size_t i = 0; i < s.pend.size(); i++) CHECK(r[i + 1].type == T_PUBLISH && r[i + 1].payload == s.pend[i], "in order"); if (!s.pend.empty()) COVER("pending delivered"); }
            for (size_t i = 1; i < r.size(); i++) c.send(mkAck(T_PUBACK, r[i].pid)); CHECK(c.take().empty(), "acknowledged"); s.pend.clear(); s.exists = true; s.ends = !keep; on = true; }
        else if (op == 1) { if (!on) continue; c.send(mkSubscribe(c.ver, 1, {{"t", 1}})); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_SUBACK, "subscribed"); s.sub = true; }
        else if (op == 2) { if (!on) continue; if (fsx_choice("properly", 2)) c.send(mkDisconnect(c.ver)); c.drop(); CHECK(!c.isOpen(), "closed"); on = false; if (s.ends) s = Ses(); }
        else { Bytes pl = symBytes("payload", 1); p.send(mkPublish(V5, "t", pl, 1, pid++)); CHECK(countType(p.take(), T_PUBACK) == 1, "accepted"); CHECK(countType(d.take(), T_PUBLISH) == 1, "other clients are not concerned"); if (on) { auto r = c.take(); CHECK(r.size() == (s.sub ? 1u : 0u), "delivered exactly to what is subscribed"); if (s.sub) { CHECK(r[0].type == T_PUBLISH && r[0].payload == pl, "as published"); if (fsx_choice("acknowledged", 2)) { c.send(mkAck(T_PUBACK, r[0].pid)); c.take(); } else s.pend.push_back(pl); } } else if (s.exists && s.sub) s.pend.push_back(pl); } }
    // whatever the history, the identifier still has one connection and one session
    ConnOpt o; o.id = "c"; o.ver = V5; o.clean = false; o.props.four(17, 100); bool resumed = s.exists && !s.ends; Conn n; n.open(w, V5, 0); n.send(mkConnect(o)); auto r = n.take(); CHECK(r.size() == 1 + (resumed ? s.pend.size() : 0) && r[0].sessionPresent == resumed, "finally resumed"); if (on) gone(c); p.send(mkPublish(V5, "t", "end", 0)); r = n.take(); CHECK(countType(r, T_PUBLISH) == (resumed && s.sub), "delivered once"); CHECK(d.isOpen() && p.isOpen(), "others stay"); COVER("end"); }
// identifiers are compared exactly
extern "C" void fsx_ids() {
    World w; w.start(); Bytes a = symBytes("first id", 2), b = symBytes("second id", 2); for (Bytes *x : {&a, &b}) for (char k : *x) fsx_assume((k > 0x20) & (k < 0x7f) & (k != '+') & (k != '#') & (k != '/')); int la = 1 + fsx_choice("first length", 2), lb = 1 + fsx_choice("second length", 2); a.resize(la); b.resize(lb); Conn x, y; ConnOpt o; o.id = a; o.props.four(17, 100); CHECK(x.connect(w, o).rc == 0, "first"); x.send(mkSubscribe(V5, 1, {{"t", 0}})); x.take(); o.id = b; o.clean = false; bool same = a == b; CHECK(y.connect(w, o).sessionPresent == same, "a session is that of exactly this identifier"); CHECK(x.isOpen() == !same, "an older connection ends exactly when the identifier is the same"); COVER(same ? "same" : "different"); }
static AuthResult any(const std::string &, const std::string &, const std::string &) { return AuthResult::success; }
// another user's session is neither taken over nor disturbed
extern "C" void fsx_user() {
    World w; usePlugin(w); pl_login = any; w.start(); bool off = fsx_choice("offline", 2); Bytes u1 = symBytes("user", 1), u2 = symBytes("user", 1); for (Bytes *x : {&u1, &u2}) fsx_assume(((*x)[0] > 0x20) & ((*x)[0] < 0x7f) & ((*x)[0] != '+') & ((*x)[0] != '#') & ((*x)[0] != '/')); Conn x, p; ConnOpt o; o.id = "c"; o.hasUser = o.hasPass = true; o.user = u1; o.pass = "x"; o.props.four(17, 100); bool anon = fsx_choice("anonymous second", 2); CHECK(x.connect(w, o).rc == 0, "first"); x.send(mkSubscribe(V5, 1, {{"t", 1}})); x.take(); if (off) x.drop(); ConnOpt po; po.id = "p"; p.connect(w, po); int ver = fsx_choice("version", 2) ? V5 : V311; ConnOpt q; q.id = "c"; q.ver = ver; q.clean = fsx_choice("clean", 2); if (!anon) { q.hasUser = q.hasPass = true; q.user = u2; q.pass = "y"; } q.will = true; q.willTopic = "t"; q.willPayload = "will"; Conn y; y.open(w, ver, 0); y.send(mkConnect(q)); auto r = y.take(); bool same = !anon && u1 == u2;
    if (same) { CHECK(!r.empty() && r[0].rc == 0, "the same user may"); CHECK(off || !x.isOpen(), "and the older connection ends"); COVER("same user"); return; }
    CHECK(!y.isOpen(), "another user is refused"); for (auto &k : r) CHECK(k.type != T_PUBLISH && !(k.type == T_CONNACK && k.rc == 0), "without getting anything"); CHECK(off || x.isOpen(), "the first connection stays"); p.send(mkPublish(V5, "t", "m", 1, 1)); if (off) { o.clean = false; x = Conn(); CHECK(x.connect(w, o).sessionPresent, "its session stays"); } r = x.take(); CHECK(countType(r, T_PUBLISH) == 1 && firstType(r, T_PUBLISH)->payload == "m", "with its subscription, and without the will of who was refused"); COVER("other user"); }
// packets of the older connection that are handled after the takeover, and its end, do not touch the session of the new one
extern "C" void fsx_late() {
    World w; w.start(); Conn ob; ConnOpt oo; oo.id = "o"; ob.connect(w, oo); ob.send(mkSubscribe(V5, 1, {{"w/#", 0}})); ob.take(); Conn y; int ver = fsx_choice("version", 2) ? V5 : V311; y.open(w, ver, 0); Conn x; ConnOpt o; o.id = "c"; o.clean = false; o.ver = fsx_choice("first version", 2) ? V5 : V311; if (o.ver == V5) o.props.four(17, 100); bool w1 = fsx_choice("first will", 2); if (w1) { o.will = true; o.willTopic = "w/1"; o.willPayload = "1"; } CHECK(x.connect(w, o).rc == 0, "first"); x.send(mkSubscribe(o.ver, 1, {{"t", 1}})); x.take();
    ConnOpt q; q.id = "c"; q.ver = ver; q.clean = fsx_choice("clean", 2); bool keep = ver == V5 ? fsx_choice("keep", 2) : !q.clean; if (ver == V5 && keep) q.props.four(17, 100); q.will = true; q.willTopic = "w/2"; q.willPayload = "2"; bool delay = ver == V5 && fsx_choice("delay", 2); if (delay) q.willProps.four(24, 10); int late = fsx_choice("late", 6); Bytes lp; if (late == 1) lp = mkDisconnect(o.ver); if (late == 2) lp = o.ver == V5 ? mkDisconnect(V5, 0, Props().four(17, 0)) : mkDisconnect(o.ver); if (late == 3) lp = mkDisconnect(V5, 4); if (late == 4) lp = mkPublish(o.ver, "w/3", "3"); if (late == 5) lp = Bytes("\x00\x00", 2);
    if (late == 3 && o.ver != V5) return;
    y.feed(mkConnect(q)); if (late) x.feed(lp); w.pump(); auto r = y.take(); CHECK(r.size() == 1 && r[0].rc == 0 && r[0].sessionPresent == !q.clean, "taken over"); w.pump(); CHECK(!x.isOpen(), "the older connection ends"); auto e = ob.take(); int n1 = 0, n2 = 0; for (auto &k : e) if (k.type == T_PUBLISH) { n1 += k.topic == "w/1"; n2 += k.topic == "w/2"; } CHECK(n2 == 0, "the new connection's will is not published"); bool proper = late == 1 || late == 2; CHECK(proper ? n1 <= w1 : n1 == w1, "the old one's is, unless it disconnected properly");
    CHECK(y.isOpen(), "the new connection stays"); bool kick = fsx_choice("then", 2);
    if (kick) { Conn z; ConnOpt zo; zo.id = "c"; zo.clean = false; bool pres = z.connect(w, zo).sessionPresent; CHECK(pres == keep, "the session of the new connection is as it asked"); CHECK(!y.isOpen(), "the identifier still has one connection"); COVER("third"); return; }
    if (ver == V5) y.send(mkDisconnect(V5, 4)); y.drop(); if (delay && keep) { ob.poll(); CHECK(countType(ob.take(), T_PUBLISH) == 0, "delayed"); } w.advance(11); w.td[0]->queueSendingQueuedWills(); w.td[0]->queueRemoveExpiredSessions(); w.pump(); e = ob.take(); n2 = 0; for (auto &k : e) if (k.type == T_PUBLISH) n2 += k.topic == "w/2"; CHECK(n2 == 1, "the will of the new connection is published once when that is lost"); Conn z; ConnOpt zo; zo.id = "c"; zo.clean = false; CHECK(z.connect(w, zo).sessionPresent == keep, "its session lives as it asked"); COVER("lost"); }
