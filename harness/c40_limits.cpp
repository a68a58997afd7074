// C40: configured limits, for every limit value and request within the bounds.
#include "ref.hpp"
#ifndef STEPS
#define STEPS 3
#endif
static void watch(World &w, Conn &x, unsigned opt = 2) { ConnOpt o; o.id = "x"; o.keepalive = 60000; x.connect(w, o); x.send(mkSubscribe(V5, 1, {{"t/#", opt}})); x.take(); }
static void gone(Conn &c) { CHECK(!c.isOpen(), "the connection is closed"); }
static unsigned g_max; static bool g_dropMode; static void listener(Client &c) { c.setMaxQos(g_max); c.setMqtt3QoSExceedAction(g_dropMode ? Mqtt3QoSExceedAction::Drop : Mqtt3QoSExceedAction::Disconnect); }
// max_qos of the server or of the listener
extern "C" void fsx_qos() {
    World w; g_max = fsx_choice("max qos", 3); g_dropMode = fsx_choice("drop", 2); bool byListener = fsx_choice("of the listener", 2); if (!byListener) { w.settings.maxQos = g_max; w.settings.mqtt3QoSExceedAction = g_dropMode ? Mqtt3QoSExceedAction::Drop : Mqtt3QoSExceedAction::Disconnect; } w.start(); Conn x; watch(w, x, 2);
    if (byListener) w.onOpen = listener; int ver = fsx_choice("version", 3) + 3; ConnOpt o; o.ver = ver; Conn c; unsigned what = fsx_choice("request", 3), q = fsx_choice("qos", 3); Bytes pl = symBytes("payload", 1); bool over = q > g_max, dropped = over && ver < V5 && g_dropMode, closes = over && !dropped; bool ret = fsx_choice("retain", 2);
    if (what == 0) { auto a = c.connect(w, o); CHECK(a.rc == 0, "login"); if (ver == V5) { const Prop *p = a.prop(36); CHECK(g_max < 2 ? p && p->num == g_max : !p, "the CONNACK tells the maximum QoS"); }
        c.send(mkPublish(ver, "t/a", pl, q, 7, ret)); auto r = c.take(); x.poll(); auto px = x.take(); unsigned xq = byListener ? 2 : g_max;
        if (closes) { gone(c); CHECK(px.empty(), "too high a QoS isn't published"); if (ver == V5) CHECK(r.size() == 1 && r[0].type == T_DISCONNECT && r[0].rc == 0x9B, "QoS not supported"); else CHECK(r.empty(), "no acknowledgement"); COVER("closed"); }
        else { CHECK(c.isOpen(), "stays open"); CHECK(px.size() == (dropped ? 0u : 1u), "published, or dropped"); if (!dropped) CHECK(px[0].payload == pl && px[0].qos() == std::min(q, xq), "with its payload and QoS"); if (q == 0) CHECK(r.empty(), "no acknowledgement of QoS 0"); if (q == 1) CHECK(r.size() == 1 && r[0].type == T_PUBACK && r[0].pid == 7, "acknowledged"); if (q == 2) { CHECK(r.size() == 1 && r[0].type == T_PUBREC && r[0].pid == 7, "received"); c.send(mkAck(T_PUBREL, 7)); r = c.take(); CHECK(r.size() == 1 && r[0].type == T_PUBCOMP && r[0].rc == 0, "completed"); } COVER(dropped ? "dropped" : "published"); }
        Conn l; ConnOpt lo; lo.id = "l"; l.connect(w, lo); l.send(mkSubscribe(V5, 2, {{"t/#", 2}})); CHECK(countType(l.take(), T_PUBLISH) == (ret && !over ? 1 : 0), "retained exactly when accepted"); }
    else if (what == 1) { o.will = true; o.willTopic = "t/w"; o.willPayload = pl; o.willQos = q; o.willRetain = ret; auto a = c.connect(w, o); if (closes) { gone(c); CHECK(a.type != T_CONNACK || a.rc != 0, "a will with too high a QoS isn't accepted"); if (ver == V5) CHECK(a.type == T_CONNACK ? a.rc == 0x9B : a.type == T_DISCONNECT && a.rc == 0x9B, "QoS not supported"); CHECK(!w.store()->lockSession("c"), "no session"); } else CHECK(a.rc == 0 && c.isOpen(), "login"); c.drop(); auto px = x.take(); CHECK(px.size() == (over ? 0u : 1u), "the will is published exactly when it was accepted"); if (!over) CHECK(px[0].payload == pl, "the will"); COVER(over ? "will refused" : "will"); }
    else { c.connect(w, o); c.send(mkSubscribe(ver, 3, {{"t/#", q}})); auto r = c.take(); unsigned g = std::min(q, g_max); CHECK(r.size() == 1 && r[0].type == T_SUBACK && r[0].codes.size() == 1 && (unsigned char)r[0].codes[0] == g, "granted at most the maximum"); w.onOpen = nullptr; if (!byListener) { w.settings.maxQos = 2; } Conn p; ConnOpt po; po.id = "p"; p.connect(w, po); unsigned pq = fsx_choice("published with", 3); p.send(mkPublish(V5, "t/a", pl, pq, 9)); auto m = c.take(); CHECK(m.size() == 1 && m[0].type == T_PUBLISH && m[0].payload == pl && m[0].qos() == std::min(g, pq), "received with at most that"); COVER("subscribed"); }
    CHECK(x.isOpen(), "others stay"); }
// retained_messages_mode
extern "C" void fsx_mode() {
    World w; unsigned m = fsx_choice("mode", 6); static const RetainedMessagesMode M[] = {RetainedMessagesMode::Enabled, RetainedMessagesMode::EnabledWithoutPersistence, RetainedMessagesMode::EnabledWithoutRetaining, RetainedMessagesMode::Downgrade, RetainedMessagesMode::Drop, RetainedMessagesMode::DisconnectWithError}; w.settings.retainedMessagesMode = M[m]; w.start(); bool rap = fsx_choice("retain as published", 2); Conn x; watch(w, x, rap ? 8 : 0); int ver = fsx_choice("version", 2) ? V5 : V311; ConnOpt o; o.ver = ver; Conn c; Bytes pl = symBytes("payload", 1); bool will = fsx_choice("will", 2), ret = fsx_choice("retain", 2); unsigned q = fsx_choice("qos", 3); std::vector<OutPkt> r; OutPkt a; bool refuse = ret && m == 5;
    if (will) { o.will = true; o.willTopic = "t/a"; o.willPayload = pl; o.willQos = q; o.willRetain = ret; a = c.connect(w, o); if (refuse) { gone(c); CHECK(a.type != T_CONNACK || a.rc != 0, "refused"); } else { CHECK(a.rc == 0 && c.isOpen(), "login"); } c.drop(); }
    else { a = c.connect(w, o); CHECK(a.rc == 0, "login"); c.send(mkPublish(ver, "t/a", pl, q, 5, ret)); r = c.take(); if (refuse) { gone(c); if (ver == V5) CHECK(r.size() == 1 && r[0].type == T_DISCONNECT && r[0].rc == 0x9A, "retain not supported"); COVER("refused"); } else { CHECK(c.isOpen(), "stays open"); CHECK(r.size() == (q ? 1u : 0u), "acknowledged"); if (q) CHECK(r[0].rc == 0 && r[0].pid == 5 && r[0].type == (q == 1 ? T_PUBACK : T_PUBREC), "acknowledged"); } }
    if (ver == V5 && a.type == T_CONNACK && a.rc == 0) { const Prop *p = a.prop(37); CHECK(m <= 1 ? !p || p->num == 1 : p && p->num == 0, "the CONNACK tells whether retaining is available"); }
    auto px = x.take(); bool live = !(ret && m >= 4); CHECK(px.size() == (live ? 1u : 0u), "delivered as the mode says"); if (live) { CHECK(px[0].payload == pl && px[0].topic == "t/a", "unchanged"); CHECK(px[0].retain() == (rap && ret && m <= 2), "with the retain flag as the mode says"); COVER("delivered"); } else COVER("not delivered");
    Conn l; ConnOpt lo; lo.id = "l"; l.connect(w, lo); l.send(mkSubscribe(V5, 2, {{"t/#", 0}})); auto lr = l.take(); bool kept = ret && m <= 1; CHECK(countType(lr, T_PUBLISH) == (kept ? 1 : 0), "retained exactly when the mode says so"); if (kept) { CHECK(firstType(lr, T_PUBLISH)->payload == pl, "its payload"); COVER("retained"); } CHECK(x.isOpen() && l.isOpen(), "others stay"); }
// minimum_wildcard_subscription_depth
extern "C" void fsx_wildcards() {
    World w; unsigned d = fsx_choice("minimum", 5); bool only = fsx_choice("retained only", 2), share = fsx_choice("shared", 2); w.settings.minimumWildcardSubscriptionDepth = d; w.settings.wildcardSubscriptionDenyMode = only ? WildcardSubscriptionDenyMode::DenyRetainedOnly : WildcardSubscriptionDenyMode::DenyAll; w.start(); Conn p; ConnOpt po; po.id = "p"; p.connect(w, po); unsigned n = 1 + fsx_choice("levels", 3); Bytes f, t; unsigned first = 99; bool pound = false; for (unsigned i = 0; i < n; i++) { unsigned k = fsx_choice("level", i + 1 == n ? 3 : 2); if (i) { f += "/"; t += "/"; } f += k == 0 ? "a" : k == 1 ? "+" : "#"; t += "a"; if (k && first == 99) first = i; pound |= k == 2; } (void)pound; p.send(mkPublish(V5, t, "R", 0, 0, true));
    int ver = fsx_choice("version", 3) + 3; Conn c; ConnOpt o; o.ver = ver; c.connect(w, o); c.send(mkSubscribe(ver, 3, {{share ? "$share/g/" + f : f, 1}, {"other", 0}})); auto r = c.take(); bool broad = d && first < d; CHECK(!r.empty() && r[0].type == T_SUBACK && r[0].codes.size() == 2, "every filter is answered"); unsigned code = (unsigned char)r[0].codes[0]; CHECK((unsigned char)r[0].codes[1] == 0, "the other one is granted");
    if (broad && !only) { CHECK(ver == V31 ? code == 1 : ver == V311 ? code == 0x80 : code == 0x87, "too broad a filter is refused"); COVER("refused"); } else CHECK(code == 1, "a filter within the limit is granted"); CHECK(countType(r, T_PUBLISH) == ((broad || share) ? 0 : 1), "retained messages only for a filter within the limit"); if (broad && only) COVER("no retained messages"); if (!broad && first < 99) COVER("wildcard granted");
    p.send(mkPublish(V5, t, "L", 0, 0)); CHECK(countType(c.take(), T_PUBLISH) == ((broad && !only) ? 0 : 1), "messages exactly for granted filters"); p.send(mkPublish(V5, "other", "L", 0, 0)); CHECK(countType(c.take(), T_PUBLISH) >= 1, "and for the other filter"); CHECK(subsOf(w, "c").size() == ((broad && !only) ? 1u : 2u), "subscriptions exactly for granted filters"); }
// retained_messages_node_creation_limit and its depth
extern "C" void fsx_nodes() {
    World w; unsigned L = fsx_choice("limit", 5), D = fsx_choice("depth", 3); bool reject = !fsx_choice("log only", 2); w.settings.retainedMessagesNodeCreationLimit = L; w.settings.retainedMessagesNodeCreationLimitEnforcementDepth = D; w.settings.retainedMessagesNodeCreationLimitEnforcementMode = reject ? RetainedMessagesNodeCreationLimitEnforcementMode::Reject : RetainedMessagesNodeCreationLimitEnforcementMode::Log; w.start(); Conn x; ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 0}})); x.take(); Conn c; ConnOpt o; c.connect(w, o);
    static const char *T[] = {"a", "a/a", "a/b", "b", "b/a", "a/a/a", "a/a/b"}; std::vector<Bytes> nodes; std::vector<std::pair<Bytes, Bytes>> kept; auto has = [&](const Bytes &n) { for (auto &x : nodes) if (x == n) return true; return false; };
    for (int i = 0; i < STEPS; i++) { Bytes t = T[fsx_choice("topic", 7)]; bool remove = i && fsx_choice("remove", 2); Bytes pl = remove ? Bytes() : symBytes("payload", 1); c.send(mkPublish(V5, t, pl, 0, 0, true)); auto px = x.take(); CHECK(px.size() == 1 && px[0].payload == pl && px[0].topic == t, "always delivered to those who are there"); CHECK(c.isOpen() && c.take().empty(), "the publisher isn't bothered");
        Bytes path, enf; bool haveEnf = false, ok = true; unsigned lv = 0; size_t pos = 0; while (ok && pos <= t.size()) { size_t e = t.find('/', pos); if (e == Bytes::npos) e = t.size(); if (!haveEnf && lv >= D) { haveEnf = true; enf = path; } Bytes next = path.empty() ? t.substr(pos, e - pos) : path + "/" + t.substr(pos, e - pos); if (!has(next)) { unsigned below = 0; for (auto &n : nodes) if (enf.empty() || n.compare(0, enf.size() + 1, enf + "/") == 0) below++; if (haveEnf && reject && below >= L) ok = false; else nodes.push_back(next); } path = next; lv++; pos = e + 1; }
        if (ok) { for (size_t k = 0; k < kept.size(); k++) if (kept[k].first == t) { kept.erase(kept.begin() + k); COVER(remove ? "removed" : "replaced"); break; } if (!remove) kept.push_back({t, pl}); } else COVER("rejected");
        Conn l; ConnOpt lo; lo.id = "l"; l.connect(w, lo); l.send(mkSubscribe(V5, 2, {{"#", 0}})); auto r = l.take(); CHECK(countType(r, T_PUBLISH) == (int)kept.size(), "retained exactly within the limit"); for (auto &k : kept) { int n = 0; for (auto &q : r) if (q.type == T_PUBLISH && q.topic == k.first) { n++; CHECK(q.payload == k.second, "the last accepted message"); } CHECK(n == 1, "each one"); } l.drop(); } CHECK(x.isOpen(), "others stay"); }
// retained_message_max_payload_size
extern "C" void fsx_payload() {
    World w; unsigned P = fsx_choice("limit", 4); w.settings.retainedMessageMaxPayloadSize = P; w.start(); Conn x; watch(w, x, 0); Conn c; ConnOpt o; o.ver = fsx_choice("version", 2) ? V5 : V311; c.connect(w, o); Bytes cur; for (int i = 0; i < STEPS; i++) { Bytes pl = symBytes("payload", fsx_choice("length", 5)); bool will = i + 1 == STEPS && fsx_choice("will", 2); if (will) { c.drop(); c = Conn(); o.will = true; o.willTopic = "t/a"; o.willPayload = pl; o.willRetain = true; c.connect(w, o); c.drop(); } else c.send(mkPublish(o.ver, "t/a", pl, 0, 0, true)); auto px = x.take(); CHECK(px.size() == 1 && px[0].payload == pl, "delivered whatever its size"); if (pl.size() <= P) cur = pl; else COVER("too large"); Conn l; ConnOpt lo; lo.id = "l"; l.connect(w, lo); l.send(mkSubscribe(V5, 2, {{"t/#", 0}})); auto r = l.take(); const OutPkt *q = firstType(r, T_PUBLISH); CHECK(cur.empty() ? !q : q && q->payload == cur, "the last message within the limit is retained"); l.drop(); COVER(cur.empty() ? "none" : "kept"); } }
// max_string_length: each string of each packet
extern "C" void fsx_strings() {
    World w; unsigned L = 4 + fsx_choice("limit", 2); w.settings.maxStringLength = L; w.start(); Conn x; ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 0}})); x.take(); unsigned n = L - 1 + fsx_choice("length", 3); Bytes s = symBytes("string", n); for (unsigned i = 0; i < n; i++) fsx_assume((s[i] >= 'a') & (s[i] <= 'z')); bool over = n > L; unsigned where = fsx_choice("where", 17); Conn c; ConnOpt o; o.keepalive = 100; bool atConnect = where < 8; int expect = 0; bool closed; o.will = where >= 2 && where < 7; o.willTopic = "w"; o.willPayload = "W";
    switch (where) { case 0: o.id = s; break; case 1: o.hasUser = true; o.user = s; break; case 2: o.willTopic = s; break; case 3: o.willProps.str(3, s); break; case 4: o.willProps.str(8, s); break; case 5: o.willProps.str(9, s); break; case 6: o.willProps.pair(38, s, "v"); break; case 7: o.props.pair(38, "k", s); break; }
    if (where == 1) w.settings.allowAnonymous = true; auto a = c.connect(w, o); if (atConnect) { if (where == 1) { if (over) { gone(c); COVER("refused"); } return; } CHECK(over ? !c.isOpen() && (a.type != T_CONNACK || a.rc != 0) : c.isOpen() && a.type == T_CONNACK && a.rc == 0, "accepted exactly within the limit"); CHECK(!!w.store()->lockSession(where == 0 ? s : Bytes("c")) == !over, "a session exactly within the limit"); c.drop(); CHECK(countType(x.take(), T_PUBLISH) == (o.will && !over ? 1 : 0), "the will exactly within the limit"); COVER(over ? "refused" : "accepted"); return; }
    CHECK(a.rc == 0, "login"); switch (where) { case 8: c.send(mkPublish(V5, s, "P")); expect = 1; break; case 9: c.send(mkPublish(V5, "t", "P", 0, 0, false, false, Props().str(3, s))); expect = 1; break; case 10: c.send(mkPublish(V5, "t", "P", 0, 0, false, false, Props().str(8, s))); expect = 1; break; case 11: c.send(mkPublish(V5, "t", "P", 0, 0, false, false, Props().str(9, s))); expect = 1; break; case 12: c.send(mkPublish(V5, "t", "P", 0, 0, false, false, Props().pair(38, s, "v"))); expect = 1; break; case 13: c.send(mkSubscribe(V5, 1, {{s, 0}})); break; case 14: c.send(mkSubscribe(V5, 1, {{"q", 0}}, Props().pair(38, "k", s))); break; case 15: c.send(mkUnsubscribe(V5, 1, {s})); break; case 16: c.send(mkUnsubscribe(V5, 1, {"q"}, Props().pair(38, s, "v"))); break; }
    closed = !c.isOpen(); CHECK(closed == over, "accepted exactly within the limit"); auto r = c.take(); if (where >= 13) CHECK(countType(r, where < 15 ? T_SUBACK : T_UNSUBACK) == (over ? 0 : 1), "answered exactly within the limit"); CHECK(countType(x.take(), T_PUBLISH) == (over ? 0 : expect), "published exactly within the limit"); if (where == 13 || where == 14) CHECK(subsOf(w, "c").size() == (over ? 0u : 1u), "subscribed exactly within the limit"); CHECK(x.isOpen(), "others stay"); COVER(over ? "refused" : "accepted"); }
// max_topic_split_depth
extern "C" void fsx_levels() {
    World w; unsigned D = 1 + fsx_choice("limit", 4); w.settings.maxTopicSplitDepth = D; w.start(); Conn x; ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 0}})); x.take(); unsigned n = 1 + fsx_choice("levels", 5); Bytes t; for (unsigned i = 0; i < n; i++) { if (i) t += "/"; Bytes l = symBytes("level", fsx_choice("length", 2)); for (char ch : l) fsx_assume((ch >= 'a') & (ch <= 'z')); t += l; } if (t.empty()) return; bool over = n > D; Conn c; ConnOpt o; o.ver = fsx_choice("version", 2) ? V5 : V311; unsigned where = fsx_choice("where", 4); if (where == 3) { o.will = true; o.willTopic = t; o.willPayload = "W"; } auto a = c.connect(w, o);
    if (where == 3) { c.drop(); CHECK(countType(x.take(), T_PUBLISH) == (over ? 0 : 1), "a will exactly within the limit"); CHECK(x.isOpen(), "others stay"); COVER(over ? "refused" : "accepted"); return; } CHECK(a.rc == 0, "login"); if (where == 0) c.send(mkPublish(o.ver, t, "P", 0, 0, true)); else if (where == 1) c.send(mkSubscribe(o.ver, 1, {{t, 0}})); else { c.send(mkUnsubscribe(o.ver, 1, {t})); }
    CHECK(c.isOpen() == !over, "accepted exactly within the limit"); auto r = c.take(); if (where == 0) CHECK(countType(x.take(), T_PUBLISH) == (over ? 0 : 1), "published exactly within the limit"); if (where == 1) { CHECK(countType(r, T_SUBACK) == (over ? 0 : 1), "answered exactly within the limit"); CHECK(subsOf(w, "c").size() == (over ? 0u : 1u), "subscribed exactly within the limit"); } if (where == 2) CHECK(countType(r, T_UNSUBACK) == (over ? 0 : 1), "answered exactly within the limit"); CHECK(x.isOpen(), "others stay"); COVER(over ? "refused" : "accepted"); }
