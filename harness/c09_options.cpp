// C09: what a delivery looks like.
#include "ref.hpp"
static int verOf(unsigned i) { return i == 0 ? V5 : V311; }
static void deliveryProps(const OutPkt &d, const Props &sent, int pv, int sv, uint32_t sid, bool full, const Bytes &ct, const Bytes &rt, const Bytes &cd, unsigned pf, const Bytes &uk, const Bytes &uv) {
    if (sv != V5) { CHECK(d.props.empty(), "no properties before MQTT 5"); return; }
    if (sid) CHECK(d.prop(11) && d.prop(11)->num == sid && d.count(11) == 1, "the subscription identifier of the matching subscription"); else CHECK(!d.prop(11), "no subscription identifier unless one was given");
    if (pv == V5 && full) { CHECK(d.prop(3) && d.prop(3)->s == ct, "content type unchanged"); CHECK(d.prop(8) && d.prop(8)->s == rt, "response topic unchanged"); CHECK(d.prop(9) && d.prop(9)->s == cd, "correlation data unchanged"); CHECK((d.prop(1) ? d.prop(1)->num : 0) == pf, "payload format unchanged"); CHECK(d.count(38) == 2, "every user property"); int k = 0; for (auto &p : d.props) if (p.id == 38) { CHECK(p.s == (k ? Bytes("k2") : uk) && p.s2 == (k ? Bytes("v2") : uv), "user properties unchanged and in order"); k++; } }
    else CHECK(!d.prop(3) && !d.prop(8) && !d.prop(9) && !d.prop(38), "no properties invented"); }
// one subscription, one publish, everything symbolic
extern "C" void fsx_delivery() {
    int sv = verOf(fsx_choice("subscriber version", 2)), pv = verOf(fsx_choice("publisher version", 2)); bool own = sv == pv && fsx_choice("own", 2); World w; w.start(); Conn s, p; ConnOpt o; o.ver = sv; o.id = "s"; s.connect(w, o); if (!own) { o.ver = pv; o.id = "p"; p.connect(w, o); }
    unsigned char op; fsx_symbolic(&op, 1, "options"); fsx_assume((op & 3) < 3); if (sv == V5) fsx_assume((op & 0x30) != 0x30 && !(op & 0xC0)); else fsx_assume(op < 3); uint32_t sid = 0; Props sp; if (sv == V5 && fsx_choice("sub id", 2)) { fsx_symbolic(&sid, 4, "subscription id"); fsx_assume(sid >= 1 && sid <= 268435455); sp.var(11, sid); } s.send(mkSubscribe(sv, 1, {{"t/+", op}}, sp)); s.take();
    unsigned q = fsx_choice("qos", 3); bool ret = fsx_choice("retain", 2), dup = q && fsx_choice("dup", 2); Bytes pay = symBytes("payload", 2), ct = "ct", rt = "re", cd = symBytes("corr", 2), uk = "k", uv = "v"; ct[1] = 'a' + (symBytes("ct", 1)[0] & 7); uv[0] = 'a' + (symBytes("uv", 1)[0] & 7); unsigned pf = symBytes("pf", 1)[0] & 1; bool full = pv == V5 && fsx_choice("properties", 2); if (full && pf) fsx_assume(pay[0] >= ' ' && pay[0] < 127 && pay[1] >= ' ' && pay[1] < 127); Props pp; if (full) pp.byte(1, pf).str(3, ct).str(8, rt).str(9, cd).pair(38, uk, uv).pair(38, "k2", "v2");
    Conn &from = own ? s : p; from.send(mkPublish(pv, "t/x", pay, q, q ? 77 : 0, ret, dup, pp)); auto r = s.take(); auto a = own ? r : p.take(); if (q == 1) CHECK(countType(a, T_PUBACK) == 1 && firstType(a, T_PUBACK)->pid == 77, "acknowledged"); if (q == 2) CHECK(countType(a, T_PUBREC) == 1 && firstType(a, T_PUBREC)->pid == 77, "acknowledged");
    bool nl = sv == V5 && (op & 4), rap = sv == V5 && (op & 8); int n = countType(r, T_PUBLISH); CHECK(n == (own && nl ? 0 : 1), "no-local suppresses exactly a client's own messages"); if (!n) { COVER("no local"); return; }
    const OutPkt &d = *firstType(r, T_PUBLISH); unsigned want = (op & 3) < q ? (op & 3) : q; CHECK(d.qos() == want, "the lower of the two QoS"); CHECK(d.retain() == (rap && ret), "retain flag follows retain-as-published"); CHECK(!d.dup(), "a first delivery is not flagged duplicate"); CHECK(d.topic == "t/x" && d.payload == pay, "topic and payload unchanged"); deliveryProps(d, pp, pv, sv, sid, full, ct, rt, cd, pf, uk, uv); COVER("delivered"); if (want) COVER("with id"); }
// the same message delivered through several subscriptions and to several clients
extern "C" void fsx_many() {
    World w; w.start(); Conn s, x, p; ConnOpt o; o.id = "s"; s.connect(w, o); o.id = "x"; int xv = verOf(fsx_choice("other version", 2)); o.ver = xv; x.connect(w, o); o.ver = V5; o.id = "p"; p.connect(w, o); unsigned char o1, o2, o3; fsx_symbolic(&o1, 1, "o1"); fsx_symbolic(&o2, 1, "o2"); fsx_symbolic(&o3, 1, "o3"); fsx_assume(o1 < 16 && (o1 & 3) < 3 && o2 < 16 && (o2 & 3) < 3 && (o3 & 3) < 3 && o3 < 3); uint32_t id1 = fsx_choice("id1", 2) ? 5 : 0, id2 = fsx_choice("id2", 2) ? 300 : 0;
    Props a, b; if (id1) a.var(11, id1); if (id2) b.var(11, id2); s.send(mkSubscribe(V5, 1, {{"t", o1}}, a)); s.send(mkSubscribe(V5, 2, {{"+", o2}}, b)); x.send(mkSubscribe(xv, 1, {{"#", o3}})); s.take(); x.take(); unsigned q = fsx_choice("qos", 3); bool ret = fsx_choice("retain", 2); p.send(mkPublish(V5, "t", "m", q, q ? 9 : 0, ret)); auto r = s.take(), rx = x.take(); CHECK(r.size() == 2 && rx.size() == 1, "one delivery per subscription");
    auto fits = [&](const OutPkt &d, unsigned op, uint32_t id) { unsigned want = (op & 3) < q ? (op & 3) : q; bool idok = id ? d.prop(11) && d.prop(11)->num == id && d.count(11) == 1 : !d.prop(11); return d.qos() == want && d.retain() == (ret && (op & 8)) && idok && d.topic == "t" && d.payload == "m"; };
    if (r.size() == 2) { bool ok = (fits(r[0], o1, id1) && fits(r[1], o2, id2)) || (fits(r[1], o1, id1) && fits(r[0], o2, id2)); CHECK(ok, "each delivery follows its own subscription"); if (r[0].qos() && r[1].qos()) CHECK(r[0].pid != r[1].pid, "distinct packet identifiers"); } if (rx.size() == 1) CHECK(fits(rx[0], o3, 0), "the other client's delivery follows its own subscription"); COVER("three"); }
// a queued message delivered later still follows the subscription it was queued for
extern "C" void fsx_queued() {
    World w; w.start(); Conn s, p; ConnOpt o; o.id = "s"; o.clean = true; o.props.four(17, 1000); s.connect(w, o); ConnOpt po; po.id = "p"; p.connect(w, po); unsigned char op; fsx_symbolic(&op, 1, "options"); fsx_assume(op < 16 && (op & 3) < 3); uint32_t sid = 0; Props sp; if (fsx_choice("sub id", 2)) { fsx_symbolic(&sid, 4, "subscription id"); fsx_assume(sid >= 1 && sid <= 268435455); sp.var(11, sid); } s.send(mkSubscribe(V5, 1, {{"t", op}}, sp)); s.drop();
    unsigned q = 1 + fsx_choice("qos", 2), kind = fsx_choice("kind", 2); bool ret = fsx_choice("retain", 2); Bytes pay = symBytes("payload", 2); if (kind == 0) p.send(mkPublish(V5, "t", pay, q, 9, ret)); else { ConnOpt wo; wo.id = "w"; wo.will = true; wo.willQos = q; wo.willRetain = ret; wo.willTopic = "t"; wo.willPayload = pay; Conn wc; wc.connect(w, wo); wc.drop(); w.pump(); }
    unsigned want = (op & 3) < q ? (op & 3) : q; o.clean = false; Conn s2; s2.connect(w, o); auto r = s2.take(); int n = countType(r, T_PUBLISH); (void)n; auto all = r; const OutPkt *d = nullptr; for (auto &x : all) if (x.type == T_PUBLISH) d = &x; CHECK((d != nullptr) == (want > 0), "queued exactly when QoS>0"); if (!d) return; CHECK(d->qos() == want, "QoS"); CHECK(d->retain() == (ret && (op & 8)), "retain flag"); CHECK(d->topic == "t" && d->payload == pay, "topic and payload"); if (sid) CHECK(d->prop(11) && d->prop(11)->num == sid && d->count(11) == 1, "subscription identifier kept"); else CHECK(!d->prop(11), "no identifier"); COVER(kind ? "queued will" : "queued publish"); }
// one publish to three clients of any version, with or without subscription identifier and topic aliases: no delivery influences another
extern "C" void fsx_mix() {
    int pv = verOf(fsx_choice("publisher version", 2)); World w; w.start(); Conn p, s[3]; ConnOpt o; o.ver = pv; o.id = "p"; p.connect(w, o); unsigned char ops[3]; unsigned kind[3]; for (int i = 0; i < 3; i++) { unsigned k = kind[i] = fsx_choice("subscriber", 4); ConnOpt so; so.id = Bytes(1, 's') + (char)('0' + i); so.ver = k == 0 ? V311 : V5; if (k == 3) so.props.two(34, 5); s[i].connect(w, so); fsx_symbolic(&ops[i], 1, "options"); fsx_assume(ops[i] < 3); Props sp; if (k == 2) sp.var(11, 7 + i); s[i].send(mkSubscribe(so.ver, 1, {{i == 1 ? "t/x" : "t/+", ops[i]}}, sp)); s[i].take(); }
    unsigned q = fsx_choice("qos", 3); bool full = pv == V5 && fsx_choice("properties", 2); Bytes pay = symBytes("payload", 2); Props pp; if (full) pp.str(3, "ct").str(8, "re").str(9, "cd").pair(38, "k", "v").pair(38, "k2", "v2"); bool alias = pv == V5 && fsx_choice("alias", 2); if (alias) { Props ap; ap.two(35, 1); p.send(mkPublish(pv, "t/x", "first", 0, 0, false, false, ap)); for (auto &c : s) c.take(); pp.two(35, 1); }
    p.send(mkPublish(pv, alias ? "" : "t/x", pay, q, q ? 77 : 0, false, false, pp)); for (int i = 0; i < 3; i++) { auto r = s[i].take(); CHECK(r.size() == 1 && r[0].type == T_PUBLISH, "one delivery each"); if (r.size() != 1) continue; const OutPkt &d = r[0]; unsigned want = ops[i] < q ? ops[i] : q; CHECK(d.qos() == want, "the lower of the two QoS"); CHECK(d.payload == pay, "payload unchanged"); if (kind[i] == 3 && alias) CHECK(d.topic == "" && d.prop(35) && d.prop(35)->num == 1, "topic by alias"); else CHECK(d.topic == "t/x", "topic unchanged"); if (kind[i] != 3) CHECK(!d.prop(35), "no alias for a client that did not ask"); CHECK(!d.retain() && !d.dup(), "flags"); Props np; if (kind[i] == 0) CHECK(d.props.empty(), "no properties"); else { if (kind[i] == 2) CHECK(d.prop(11) && d.prop(11)->num == 7u + i, "own subscription identifier"); else CHECK(!d.prop(11), "no identifier"); CHECK((d.count(38) == 2) == full && (d.prop(3) != nullptr) == full && (d.prop(8) != nullptr) == full && (d.prop(9) != nullptr) == full, "properties unchanged"); } } COVER("mixed"); }
