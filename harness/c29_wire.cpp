// C29: every packet sent is well-formed (the decoder of mqtt.hpp checks that for whatever arrives) and says what it should.
#include "plug.hpp"
#include "mqttpacket.h"
static Bytes txt(const char *n, size_t k) { Bytes b = symBytes(n, k); for (char x : b) fsx_assume((x >= 0x21) & (x < 0x7f) & (x != '+') & (x != '#') & (x != '$') & (x != '/')); return b; }
static uint32_t symU32(const char *n, uint32_t max) { uint32_t v; fsx_symbolic(&v, 4, n); fsx_assume(v <= max); return v; }
static size_t varLen(size_t n) { return n < 128 ? 1 : n < 16384 ? 2 : n < 2097152 ? 3 : 4; }
// a message with any properties, its packet and its property section of sizes around the steps of their length fields
extern "C" void fsx_publish() {
    World w; w.settings.maxStringLength = 65535; w.start(); int path = fsx_choice("path", 4); int pv = fsx_choice("publisher", 2) ? V311 : V5, rv = fsx_choice("receiver", 2) ? V311 : V5; unsigned qos = path == 2 ? fsx_choice("qos", 2) * 2 : path == 1 ? 1 + fsx_choice("qos", 2) : fsx_choice("qos", 3); int what = pv == V5 ? fsx_choice("properties", 8) : 0; bool sid = rv == V5 && fsx_choice("with identifier", 2);
    Conn p, r; ConnOpt ro; ro.id = "r"; ro.ver = rv; ro.clean = false; if (rv == V5) { ro.props.four(17, 1000).two(34, 3); } uint32_t id = sid ? 1 + symU32("identifier", 268435454) : 0; Props sp; if (sid) sp.var(11, id);
    Bytes topic = "t" + txt("topic", 1); Props pp; Bytes ct, rt, co, uk, uv; uint32_t ex = 0; bool pf = false, has[8] = {}; for (int i = 1; i < 7; i++) has[i] = what == i || what == 7; if (what == 7) for (int i = 0; i < 1; i++) has[0] = true;
    if (has[1]) { ct = txt("content type", 2); pp.str(3, ct); } if (has[2]) { rt = "r" + txt("response", 1); pp.str(8, rt); } if (has[3]) { co = symBytes("correlation", 2); pp.str(9, co); } if (has[4]) { ex = 1 + symU32("expiry", 0xfffffffe); pp.four(2, ex); } if (has[5]) { pf = true; pp.byte(1, 1); } if (has[6]) { uk = txt("key", 1); uv = txt("value", 1); pp.pair(38, uk, uv).pair(38, uk, uv); }
    // pads, as one more user property and as payload, so that the sizes at the receiver are the ones wanted
    Bytes pay = symBytes("payload", fsx_choice("payload", 3)); if (pf) for (char x : pay) fsx_assume((x >= 0x21) & (x < 0x7f)); size_t own = pp.b.size() + (sid ? 1 + varLen(0) : 0), padded = 0; (void)own; Bytes pad; static const size_t TP[] = {0, 126, 127, 128, 129, 16383, 16384}; static const size_t TR[] = {0, 127, 128, 16383, 16384, 70000};
    if (what == 7 || what == 6) { size_t t = TP[fsx_choice("property size", 7)]; if (t > pp.b.size() + 6) { pad = Bytes(t - pp.b.size() - 5, 'z'); pp.pair(38, "", pad); padded = 1; } }
    if (path == 2 && pay.empty()) return; /* clears the retained message */
    size_t fix = 2 + topic.size() + (qos ? 2 : 0) + (rv == V5 ? pp.b.size() + varLen(pp.b.size()) : 0); size_t t = TR[fsx_choice("packet size", 6)]; if (t > fix + pay.size()) pay += Bytes(t - fix - pay.size(), 'y');
    auto sub = [&] { r.send(mkSubscribe(rv, 1, {{"+", 2}}, sp)); }; r.connect(w, ro); if (path != 2) sub(); r.take(); if (path == 1) r.drop(); ConnOpt po; po.id = "p"; po.ver = pv; if (path == 3) { po.will = true; po.willQos = qos; po.willTopic = topic; po.willPayload = pay; po.willProps = pp; if (pay.size() > 60000) return; } CHECK(p.connect(w, po).rc == 0, "the publisher is admitted"); if (path == 3) p.drop(); else { p.send(mkPublish(pv, topic, pay, qos, 7, path == 2, false, pp)); if (qos == 2) p.send(mkAck(T_PUBREL, 7)); }
    if (path == 1) { ro.clean = false; r = Conn(); r.connect(w, ro); } if (path == 2) sub(); r.poll(); auto v = r.take(); const OutPkt *m = firstType(v, T_PUBLISH); CHECK(m && countType(v, T_PUBLISH) == 1, "delivered once"); CHECK(m->topic == topic && m->payload == pay && m->qos() == qos && m->retain() == (path == 2), "as published");
    if (rv == V5) { CHECK(bool(m->prop(3)) == has[1] && bool(m->prop(8)) == has[2] && bool(m->prop(9)) == has[3] && (bool(m->prop(2)) == has[4] || (path == 2 && m->prop(2)->num == 0x7fffffff)) && bool(m->prop(1)) == has[5] && m->count(38) == (has[6] ? 2 : 0) + (int)padded && m->count(11) == (sid ? 1 : 0), "exactly its properties"); if (has[1]) CHECK(m->prop(3)->s == ct, "content type"); if (has[2]) CHECK(m->prop(8)->s == rt, "response topic"); if (has[3]) CHECK(m->prop(9)->s == co, "correlation data"); if (has[4]) CHECK(m->prop(2)->num == (path == 2 && ex > 0x7fffffff ? 0x7fffffff : ex), "expiry"); if (has[5]) CHECK(m->prop(1)->num == 1, "format"); if (sid) CHECK(m->prop(11)->num == id, "identifier");
        int k = 0; for (auto &x : m->props) if (x.id == 38) { if (has[6] && k < 2) CHECK(x.s == uk && x.s2 == uv, "user property"); else CHECK(x.s.empty() && x.s2 == pad, "long user property"); k++; } COVER("to MQTT 5"); } else { CHECK(m->total - m->payload.size() - topic.size() - (qos ? 2 : 0) <= 7, "nothing else in it"); COVER("to MQTT 3"); } }
// answers to many filters at once
extern "C" void fsx_answers() {
    World w; w.settings.maxQosMsgPendingPerClient = 100; w.settings.minimumWildcardSubscriptionDepth = 1; w.settings.wildcardSubscriptionDenyMode = WildcardSubscriptionDenyMode::DenyAll; w.start(); Conn c; ConnOpt o; o.ver = fsx_choice("version", 2) ? V311 : V5; bool v5 = o.ver == V5; c.connect(w, o); uint16_t pid; fsx_symbolic(&pid, 2, "packet id"); fsx_assume(pid != 0); static const int NS[] = {1, 2, 3, 124, 125, 126, 127}; int n = NS[fsx_choice("filters", 7)]; std::vector<Filt> f; std::vector<Bytes> u; Bytes want, uwant; int bad = fsx_choice("refused one", 3); if (bad >= n) return; uint8_t q; fsx_symbolic(&q, 1, "qos"); fsx_assume(q <= 2);
    for (int i = 0; i < n; i++) { bool b = i == bad; unsigned opt = i == 0 ? q : i % 3; f.push_back({b ? Bytes("+/a") : "f/" + std::to_string(i), opt}); want += b ? (char)(v5 ? 0x87 : 0x80) : (char)opt; } c.send(mkSubscribe(o.ver, pid, f)); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_SUBACK && r[0].pid == pid && r[0].codes == want, "one code per filter, in order");
    for (int i = 0; i < n; i++) { u.push_back(i % 2 ? "f/" + std::to_string(i) : "g/" + std::to_string(i)); } c.send(mkUnsubscribe(o.ver, pid, u)); r = c.take(); CHECK(r.size() == 1 && r[0].type == T_UNSUBACK && r[0].pid == pid && r[0].codes.size() == (v5 ? (size_t)n : 0), "one code per filter"); COVER("answered"); }
// the answer to a login says what holds for this server
extern "C" void fsx_connack() {
    World w; w.settings.maxQosMsgPendingPerClient = 1 + symU32("pending", 65534); w.settings.maxIncomingTopicAliasValue = symU32("aliases", 65535); w.settings.maxPacketSize = 1000 + symU32("packet", 268435455 - 1000); w.settings.expireSessionsAfterSeconds = 1 + symU32("sessions", 0xfffffffe); w.settings.subscriptionIdentifierEnabled = fsx_choice("identifiers", 2); int rm = fsx_choice("retained", 5); static const RetainedMessagesMode M[] = {RetainedMessagesMode::Enabled, RetainedMessagesMode::EnabledWithoutPersistence, RetainedMessagesMode::EnabledWithoutRetaining, RetainedMessagesMode::Downgrade, RetainedMessagesMode::Drop}; w.settings.retainedMessagesMode = M[rm]; w.start(); uint16_t ka; fsx_symbolic(&ka, 2, "keep-alive"); bool anon = fsx_choice("no id", 2); ConnOpt o; o.keepalive = ka; o.clean = true; o.id = anon ? Bytes() : Bytes("c"); uint32_t ex = symU32("expiry", 0xffffffff); bool he = fsx_choice("gives expiry", 2); if (he) o.props.four(17, ex); Conn c; auto a = c.connect(w, o);
    CHECK(a.type == T_CONNACK && a.rc == 0 && !a.sessionPresent, "admitted"); auto num = [&](unsigned id, uint32_t absent) { auto p = a.prop(id); return p ? p->num : absent; }; uint32_t cap = w.settings.expireSessionsAfterSeconds; uint32_t want = he ? (ex < cap ? ex : cap) : 0; CHECK(num(17, he ? ex : 0) == want, "session expiry"); CHECK(num(33, 65535) == w.settings.maxQosMsgPendingPerClient, "receive maximum"); CHECK(num(34, 0) == w.settings.maxIncomingTopicAliasValue, "topic alias maximum"); CHECK(num(39, 0xffffffff) == w.settings.maxPacketSize, "packet size"); CHECK(num(41, 1) == (w.settings.subscriptionIdentifierEnabled ? 1u : 0u), "subscription identifiers"); CHECK(num(37, 1) == (rm < 2 ? 1u : 0u), "retain available"); CHECK(num(36, 2) == 2, "maximum QoS"); CHECK(num(19, ka) == (ka < 5 ? 5u : ka), "keep-alive"); CHECK(bool(a.prop(18)) == anon, "assigned identifier exactly when none was given"); if (anon) { CHECK(!a.prop(18)->s.empty() && bool(w.store()->lockSession(a.prop(18)->s)), "and it is the one in use"); COVER("assigned"); } COVER("answer"); }
// what the server sends when it acts as a client (bridge), read by the server
static void deliver(Conn &c, const MqttPacket &p) { CirBuf b(1 << 10); b.ensureFreeSpace(p.getSizeIncludingNonPresentHeader()); p.readIntoBuf(b); Bytes s; while (b.usedBytes()) { size_t n = b.maxReadSize(); s.append(b.tailPtr(), n); b.advanceTail(n); } CHECK(s.size() == p.getSizeIncludingNonPresentHeader(), "the size calculated beforehand is the size written"); c.send(s); }
static Bytes g_user, g_pw; static AuthResult login(const std::string &, const std::string &u, const std::string &p) { g_user = u; g_pw = p; return AuthResult::success; }
extern "C" void fsx_client() {
    bool part = fsx_choice("part", 2); auto L = [part](const char *n, unsigned k) { return part ? 0 : fsx_choice(n, k); }; auto S = [part](const char *n, unsigned k) { return part ? fsx_choice(n, k) : 0; };
    World w; w.settings.allowAnonymous = false; usePlugin(w); pl_login = login; w.start(); Conn ob; ConnOpt oo; oo.id = "o"; oo.hasUser = true; oo.user = "o"; ob.connect(w, oo); ob.send(mkSubscribe(V5, 1, {{"#", 2 | 8}})); ob.take(); int ver = fsx_choice("version", 3); bool v5 = ver == 0; Bytes id = txt("id", 2), user = txt("user", 1 + L("user length", 2)), pw = symBytes("password", L("password length", 3)); Connect k(ver == 0 ? ProtocolVersion::Mqtt5 : ver == 1 ? ProtocolVersion::Mqtt311 : ProtocolVersion::Mqtt31, id); bool clean = L("clean", 2); k.clean_start = clean; k.username = user; bool hp = L("has password", 2); if (hp) k.password = pw; k.keepalive = 100; uint32_t ex = 0; if (v5) { ex = symU32("expiry", 1000000); k.sessionExpiryInterval = ex; k.maxIncomingTopicAliasValue = L("aliases", 2) * 5; } k.bridgeProtocolBit = fsx_choice("bridge bit", 2); bool brg = k.bridgeProtocolBit && !v5; /* the MQTT 3 convention for bridges */
    bool will = L("will", 2); Bytes wp = symBytes("will payload", 1), uv = Bytes(L("long", 2) ? 200 : 1, 'v'); unsigned wq = 0; bool wr = false; if (will) { wq = L("will qos", 3); wr = L("will retain", 2); k.will = std::make_shared<WillPublish>(); k.will->topic = "w"; k.will->payload = wp; k.will->qos = wq; k.will->retain = wr; if (v5) { k.will->contentType = "x"; k.will->addUserProperty("k", std::string(uv)); } }
    Conn c; c.open(w, ver == 0 ? V5 : V311); deliver(c, MqttPacket(k)); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc == 0, "read as a login"); CHECK(g_user == user && g_pw == (hp ? pw : Bytes()), "user and password"); auto s = w.store()->lockSession(id); CHECK(bool(s), "identifier"); if (v5 && r[0].prop(17)) CHECK(r[0].prop(17)->num == ex, "session expiry");
    // its subscription
    unsigned q = S("qos", 3); bool nl = v5 && S("no local", 2), rap = v5 && S("retain as published", 2); Subscribe sb("s/" + txt("filter", 1), q); sb.noLocal = nl; sb.retainAsPublished = rap; sb.retainHandling = RetainHandling::DoNotSendRetainedMessages; Subscribe s2("s2", 1); uint16_t pid; fsx_symbolic(&pid, 2, "packet id"); fsx_assume(pid != 0); std::vector<Subscribe> sl{sb, s2}; uint32_t sid = v5 ? symU32("identifier", 268435455) : 0; deliver(c, MqttPacket(c.ver == V5 ? ProtocolVersion::Mqtt5 : ProtocolVersion::Mqtt311, pid, sid, sl)); r = c.take(); CHECK(r.size() == 1 && r[0].type == T_SUBACK && r[0].pid == pid && r[0].codes == Bytes(1, (char)q) + Bytes(1, 1), "read as a subscription"); auto subs = subsOf(w, id); CHECK(subs.size() == 2, "two subscriptions"); bool found = false; auto tops = subTopics(w, id); for (size_t i = 0; i < tops.size(); i++) if (tops[i] == sb.topic) { found = true; CHECK(subs[i].qos == q && subs[i].noLocal == (nl || brg) && subs[i].retainAsPublished == (rap || brg), "with its options"); } CHECK(found, "its filter");
    c.drop(); ob.poll(); auto o = ob.take(); if (!will) CHECK(countType(o, T_PUBLISH) == 0, "no will"); else { const OutPkt *m = firstType(o, T_PUBLISH); CHECK(m && m->topic == "w" && m->payload == wp && m->qos() == wq && m->retain() == wr, "its will"); if (v5) CHECK(m->prop(3) && m->prop(3)->s == "x" && m->count(38) == 1 && m->prop(38)->s2 == uv, "with properties"); COVER("will"); } COVER("client"); }
