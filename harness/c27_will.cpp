// C27: when a will is published. Times in whole seconds.
#include "ref.hpp"
#define NS 1000000000ll
static int64_t g_now;
static uint32_t symU32(const char *n, uint32_t max) { uint32_t v; fsx_symbolic(&v, 4, n); fsx_assume(v <= max); return v; }
static void wait(const char *n) { uint32_t s; fsx_symbolic(&s, 4, n); s = (s & 0xfffff) + 1; env_steady_ns += (int64_t)s * NS; env_system_ns += (int64_t)s * NS; g_now += s; }
struct W { int round; int64_t due; }; // published at the first sweep from then on
static std::vector<W> g_q; static int g_due;
// what the observer got must be exactly what is due; what is in reach of a sweep depends on which sweep ran
static void expectWill(Conn &ob, int round, bool must) { ob.poll(); auto r = ob.take(); int n = 0; for (auto &o : r) if (o.type == T_PUBLISH) { n++; CHECK(round >= 0 && o.payload == Bytes(1, 'a' + round) && o.topic == "w", "only the will that is due"); } CHECK(n == (must ? 1 : 0), must ? "the will is published once" : "no will is published"); if (must) COVER("published"); else COVER("not published"); }
enum { DROP, PROPER, WITHWILL, ERRORED, TAKEOVER, KEEPALIVE, RESET, NKINDS };
// one client: any kinds of end, delays and intervals, sweeps and reconnects at any times
extern "C" void fsx_history() {
    World w; w.start(); Conn ob; ConnOpt oo; oo.id = "o"; oo.keepalive = 60000; ob.connect(w, oo); ob.send(mkSubscribe(V5, 1, {{"w", 0}})); ob.take(); g_now = 0; Conn c; bool on = false; int pendRound = -1; int64_t pendDue = 0; // the will waiting to be published
    bool willNow = false; int64_t delayNow = 0, expNow = 0;
    for (int k = 0; k < ROUNDS; k++) {
        ConnOpt o; o.id = "c"; o.ver = fsx_choice("version", 2) ? V311 : V5; bool v5 = o.ver == V5; o.clean = fsx_choice("clean", 2); uint32_t e = 0, d = 0; bool will = k == 0 || fsx_choice("will", 2); if (will) { o.will = true; o.willTopic = "w"; o.willPayload = Bytes(1, 'a' + k); if (v5 && fsx_choice("delay", 2)) { d = symU32("will delay", 0xffffffffu); o.willProps.four(24, d); } } if (v5 && fsx_choice("expiry", 2)) { e = symU32("expiry", 1000000000); o.props.four(17, e); } if (!v5) e = o.clean ? 0 : 1209600; o.keepalive = 10;
        // connecting again, taking over or not: a will that waits is not published any more, one without delay is
        c = Conn(); OutPkt a = c.connect(w, o); CHECK(a.rc == 0, "admitted"); if (on && willNow) { if (delayNow == 0) expectWill(ob, k - 1, true); else { ob.poll(); auto r = ob.take(); CHECK(countType(r, T_PUBLISH) <= 1, "at most once"); for (auto &x : r) if (x.type == T_PUBLISH) CHECK(x.payload == Bytes(1, 'a' + k - 1) && o.clean, "a delayed will is at most published if the session it belongs to ends"); } } else expectWill(ob, -1, false); pendRound = -1; on = true; willNow = will; delayNow = d; expNow = e; bool ends = e == 0;
        int how = fsx_choice("end", k ? 3 : NKINDS); if (k && how == 2) how = ERRORED; bool lost = true; if (how == TAKEOVER) { if (k == ROUNDS - 1) return; continue; }
        if (how == PROPER) { c.send(mkDisconnect(o.ver)); lost = false; } if (how == WITHWILL) { if (!v5) return; c.send(mkDisconnect(V5, 4)); } if (how == ERRORED) c.send(Bytes("\x00\x00", 2)); if (how == RESET) { env_peer_reset(c.fd); w.pump(); } if (how == KEEPALIVE) { env_steady_ns += 17 * NS; env_system_ns += 17 * NS; g_now += 17; w.td[0]->queueDoKeepAliveCheck(); w.pump(); } c.drop(); w.pump(); CHECK(!c.isOpen(), "closed"); on = false; bool w1 = will && lost;
        if (w1 && (d == 0 || ends)) { expectWill(ob, k, true); w1 = false; } else expectWill(ob, -1, false); if (w1) { pendRound = k; pendDue = g_now + (d < e ? d : e); }
        if (fsx_choice("wait", 2)) { wait("away for"); bool sess = g_now - (pendDue - (d < e ? d : e)) >= (int64_t)e; (void)sess; w.td[0]->queueSendingQueuedWills(); w.td[0]->queueRemoveExpiredSessions(); w.pump(); if (pendRound >= 0 && g_now >= pendDue) { expectWill(ob, pendRound, true); pendRound = -1; COVER("delayed"); } else expectWill(ob, -1, false); } }
    // in the end everything due is published, and nothing else
    if (on) { c.send(mkDisconnect(c.ver)); c.drop(); expectWill(ob, -1, false); } env_steady_ns += 5000000000ll * NS; w.td[0]->queueSendingQueuedWills(); w.td[0]->queueRemoveExpiredSessions(); w.pump(); if (pendRound >= 0) { expectWill(ob, pendRound, true); COVER("finally"); } else expectWill(ob, -1, false); w.td[0]->queueSendingQueuedWills(); w.pump(); expectWill(ob, -1, false); }
// the content of a will: QoS, retain and properties as given
extern "C" void fsx_content() {
    World w; w.start(); Conn ob, ob3; ConnOpt oo; oo.id = "o"; ob.connect(w, oo); ob.send(mkSubscribe(V5, 1, {{"#", 2 | 8}})); ob.take(); oo.id = "o3"; oo.ver = V311; ob3.connect(w, oo); ob3.send(mkSubscribe(V311, 1, {{"#", 2}})); ob3.take(); ConnOpt o; o.id = "c"; int ver = fsx_choice("version", 3); o.ver = ver == 0 ? V5 : ver == 1 ? V311 : V31; o.will = true; o.willQos = fsx_choice("qos", 3); o.willRetain = fsx_choice("retain", 2); o.willTopic = "w/" + symBytes("topic", 1); fsx_assume((o.willTopic[2] > 0x20) & (o.willTopic[2] < 0x7f) & (o.willTopic[2] != '+') & (o.willTopic[2] != '#')); o.willPayload = symBytes("payload", fsx_choice("length", 3)); Bytes ct = "ct", co = symBytes("correlation", 2), rt = "re", uk = "k", uv = "v"; uint32_t me = symU32("expiry", 0xffffffffu); fsx_assume(me > 0); unsigned pf = 0; int props = fsx_choice("properties", 3); bool v5 = o.ver == V5; if (props && !v5) return; if (props >= 1) { o.willProps.four(2, me).str(3, ct).str(8, rt).str(9, co).pair(38, uk, uv); } if (props == 2) { pf = 1; o.willProps.byte(1, 1); for (char k : o.willPayload) fsx_assume((k >= 0x20) & (k < 0x7f)); }
    Conn c; CHECK(c.connect(w, o).rc == 0, "admitted"); c.drop(); w.pump(); auto r = ob.take(), r3 = ob3.take(); CHECK(r.size() == 1 && r3.size() == 1, "published once to each"); for (OutPkt *m : {&r[0], &r3[0]}) CHECK(m->type == T_PUBLISH && m->topic == o.willTopic && m->payload == o.willPayload && m->qos() == o.willQos && !m->dup(), "as given"); CHECK(r[0].retain() == o.willRetain && !r3[0].retain(), "retain as the subscription asks");
    if (props) { const OutPkt &m = r[0]; CHECK(m.prop(2) && m.prop(2)->num == me && m.prop(3) && m.prop(3)->s == ct && m.prop(8) && m.prop(8)->s == rt && m.prop(9) && m.prop(9)->s == co && m.count(38) == 1 && m.prop(38)->s == uk && m.prop(38)->s2 == uv, "with its properties"); if (pf) CHECK(m.prop(1) && m.prop(1)->num == 1, "and format"); } else CHECK(r[0].props.empty(), "without properties");
    Conn late; oo = ConnOpt(); oo.id = "l"; late.connect(w, oo); late.send(mkSubscribe(V5, 1, {{"w/+", 0}, {"w/+/#", 0}})); auto l = late.take(); bool slash = o.willTopic[2] == '/'; (void)slash; int n = 0; for (auto &x : l) if (x.type == T_PUBLISH) { n++; CHECK(x.topic == o.willTopic && x.payload == o.willPayload && x.retain(), "the retained will"); } CHECK(o.willRetain && !o.willPayload.empty() ? n >= 1 : n == 0, "retained exactly when asked"); COVER("content"); }
// no will of a connection that was not admitted, and none when wills are switched off
extern "C" void fsx_none() {
    World w; int why = fsx_choice("why", 3); if (why == 0) w.settings.willsEnabled = false; if (why == 1) w.settings.allowAnonymous = false; w.start(); w.use(0); Conn ob; std::vector<OutPkt> r; ConnOpt oo; oo.id = "o"; if (why != 1) { ob.connect(w, oo); ob.send(mkSubscribe(V5, 1, {{"#", 0}})); ob.take(); } ConnOpt o; o.id = "c"; o.ver = fsx_choice("version", 2) ? V311 : V5; o.will = true; o.willTopic = "w"; o.willPayload = symBytes("payload", 1); o.willRetain = true; if (o.ver == V5 && fsx_choice("delay", 2)) { o.willProps.four(24, 5); o.props.four(17, 100); } Bytes b = mkConnect(o); Conn c; c.open(w, o.ver, 0); if (why == 2) { size_t cut = 1 + fsx_choice("cut", 20); if (cut >= b.size()) return; c.feed(b.substr(0, b.size() - cut)); } else c.feed(b); w.pump(); c.poll(); c.take(); c.drop(); w.advance(6); w.td[0]->queueSendingQueuedWills(); w.pump(); if (why != 1) { ob.poll(); CHECK(countType(ob.take(), T_PUBLISH) == 0, "no will"); } std::vector<std::string> none; (void)none; CHECK(w.store()->getRetainedMessageCount() == 0, "nor a retained one"); COVER("none"); }
