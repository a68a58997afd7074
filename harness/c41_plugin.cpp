// C41: plugin functions that fail, and plugin functions that change messages and subscriptions.
#include "plug.hpp"
static int g_hook; static unsigned g_how; static bool g_armed; static int g_calls;
static void fail() { g_calls++; throw std::runtime_error("plugin"); }
static AuthResult login(const Bytes &c, const Bytes &, const Bytes &) { if (g_hook == 0 && c == "c") { g_calls++; if (g_how == 0) throw std::runtime_error("plugin"); static const AuthResult R[] = {AuthResult::error, AuthResult::login_denied, AuthResult::acl_denied, AuthResult::server_not_available}; return R[g_how - 1]; } return AuthResult::success; }
static bool pub(Pub &p) { if (g_hook == 1 && p.client == "c") fail(); return false; }
static bool sub(const Bytes &c, Bytes &, uint8_t &) { if (g_hook == 2 && c == "c") fail(); return false; }
static void unsub(const Bytes &c, const Bytes &) { if (g_hook == 3 && c == "c") fail(); }
static void left(const Bytes &c) { if (g_hook == 4 && c == "c") fail(); }
static void periodic() { if (g_hook == 5 && g_armed) fail(); }
static void init(bool reload) { if (g_hook == 6 && g_armed && reload) fail(); }
// a failing function: the others don't notice, and where it decides something, the answer is no
extern "C" void fsx_failing() {
    World w; unsigned pv = 1 + fsx_choice("plugin version", 5); usePlugin(w, pv); pl_login = login; pl_pub = pub; pl_sub = sub; pl_unsub = unsub; pl_gone = left; pl_periodic = periodic; pl_init = init; g_hook = fsx_choice("function", 7); g_how = g_hook == 0 ? fsx_choice("how", 5) : 0; w.start(); int ver = fsx_choice("version", 2) ? V5 : V311; Conn x; ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 0}})); x.take(); Bytes pl = symBytes("payload", 1); Conn c; ConnOpt o; o.ver = ver; o.hasUser = true; o.user = "u"; auto a = c.connect(w, o);
    if (g_hook == 0) { CHECK(a.type == T_CONNACK && a.rc != 0 && !c.isOpen(), "a failing login check refuses"); CHECK(!w.store()->lockSession("c"), "no session"); CHECK(g_calls == 1, "asked once"); COVER("login"); }
    else { CHECK(a.rc == 0, "login");
        if (g_hook == 1) { c.send(mkPublish(ver, "t", pl, 1, 4)); auto r = c.take(), px = x.take(); CHECK(g_calls == 1, "called"); CHECK(c.isOpen() && r.size() == 1 && r[0].type == T_PUBACK, "the exchange goes on"); CHECK(px.size() == 1 && px[0].topic == "t" && px[0].payload == pl, "an unchanged message is handled as it is"); COVER("publish"); }
        if (g_hook == 2) { c.send(mkSubscribe(ver, 4, {{"s", 1}, {"r", 0}})); auto r = c.take(); CHECK(g_calls == 2, "called"); CHECK(c.isOpen() && r.size() == 1 && r[0].type == T_SUBACK && r[0].codes.size() == 2 && r[0].codes[0] == 1 && r[0].codes[1] == 0, "an unchanged subscription is handled as it is"); COVER("subscribe"); }
        if (g_hook == 3) { c.send(mkSubscribe(ver, 4, {{"s", 1}})); c.take(); c.send(mkUnsubscribe(ver, 5, {"s"})); auto r = c.take(); CHECK(g_calls == (pv >= 4 ? 1 : 0), "called"); CHECK(c.isOpen() && r.size() == 1 && r[0].type == T_UNSUBACK && subsOf(w, "c").empty(), "unsubscribed"); COVER("unsubscribe"); }
        if (g_hook == 4) { unsigned k = fsx_choice("leaves", 3); if (k == 0) c.drop(); else if (k == 1) c.send(mkDisconnect(ver)); else { Conn c2; c2.connect(w, o); CHECK(c2.isOpen(), "taken over"); } w.pump(); CHECK(g_calls == 1, "told once"); CHECK(!c.isOpen(), "closed"); COVER("disconnect"); }
        if (g_hook == 5) { g_armed = true; w.td[0]->queuepluginPeriodicEvent(); w.pump(); CHECK(g_calls >= 1, "called"); COVER("periodic"); }
        if (g_hook == 6) { /* the virtual worker initialises the plugin again in each turn, so the reload and what follows it happen in one */ Conn d; d.open(w, V5); ConnOpt dopt; dopt.id = "d"; dopt.hasUser = true; dopt.user = "u"; g_armed = true; c.feed(mkPublish(ver, "t", pl, 1, 4)); d.feed(mkConnect(dopt)); w.td[0]->queueReload(w.settings); w.pump(); CHECK(g_calls == 1, "called"); auto r = c.take(), dr = d.take(); CHECK(x.take().empty(), "nothing is allowed when the plugin doesn't work"); CHECK(r.size() == 1 && r[0].type == T_PUBACK && (ver != V5 || r[0].rc == 0x87), "refused"); CHECK(!dr.empty() && dr[0].rc != 0 && !d.isOpen(), "nobody logs in when the plugin doesn't work"); CHECK(!w.store()->lockSession("d"), "no session"); COVER("reload"); } }
    g_armed = false; Conn y; ConnOpt yo; yo.id = "y"; yo.hasUser = true; yo.user = "u"; auto ya = y.connect(w, yo); CHECK(ya.rc == 0, "others log in"); x.take(); y.send(mkPublish(V5, "o", pl, 1, 9)); CHECK(countType(y.take(), T_PUBACK) == 1, "others publish"); auto px = x.take(); CHECK(px.size() == 1 && px[0].topic == "o" && px[0].payload == pl, "others receive"); y.send(mkSubscribe(V5, 3, {{"q", 0}})); y.send(mkUnsubscribe(V5, 4, {"q"})); auto yr = y.take(); CHECK(countType(yr, T_SUBACK) == 1 && countType(yr, T_UNSUBACK) == 1, "others subscribe"); CHECK(x.isOpen(), "others stay"); }
// changed messages
static Bytes n_topic; static bool c_topic, c_qos, c_retain, c_props; static unsigned n_qos; static bool n_retain; static Bytes n_val; static Bytes aclTopic; static int changes, writes;
static bool change(Pub &p) {
    if (p.client != "c" || p.payload != "change") return false; changes++; if (c_topic) p.topic = n_topic; if (c_qos) p.qos = n_qos; if (c_retain) p.retain = n_retain; if (c_props) { if (p.corr) *p.corr = n_val; if (p.resp) *p.resp = n_val; if (p.ctype) *p.ctype = n_val; if (p.up) p.up->push_back({"k2", n_val}); } return c_topic || c_qos || c_props; }
static AuthResult seen(const AclQ &q) { if (q.access == AclAccess::write && q.client == "c" && q.payload == "change") { writes++; aclTopic = q.topic; } return AuthResult::success; }
extern "C" void fsx_change() {
    World w; unsigned pv = fsx_choice("plugin version", 2) ? 5 : 2; usePlugin(w, pv); pl_pub = change; pl_acl = seen; w.start(); int ver = fsx_choice("version", 2) ? V5 : V311; n_topic = symBytes("new topic", 1); fsx_assume((n_topic[0] >= 'a') & (n_topic[0] <= 'z')); n_val = symBytes("new value", 1); fsx_assume((n_val[0] >= 'a') & (n_val[0] <= 'z')); c_topic = fsx_choice("changes topic", 2); c_qos = fsx_choice("changes qos", 2); n_qos = c_qos ? fsx_choice("new qos", 3) : 0; c_retain = fsx_choice("changes retain", 2); n_retain = c_retain ? fsx_choice("new retain", 2) : 0; c_props = ver == V5 && fsx_choice("changes properties", 2);
    Conn x, z; ConnOpt xo; xo.id = "x"; xo.keepalive = 60000; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"#", 2 | 8}})); x.take(); ConnOpt zo; zo.id = "z"; zo.ver = V311; z.connect(w, zo); z.send(mkSubscribe(V311, 1, {{"+", 2}})); z.take(); Conn c; ConnOpt o; o.ver = ver; c.connect(w, o);
    unsigned q = fsx_choice("qos", 3); bool ret = fsx_choice("retain", 2), alias = ver == V5 && fsx_choice("alias", 2); Props p; if (alias) p.two(35, 3); if (ver == V5) p.pair(38, "k", "v").str(9, "cc"); c.send(mkPublish(ver, "T", "change", q, 6, ret, false, p)); auto r = c.take(), px = x.take(), pz = z.take(); unsigned eq = c_qos ? n_qos : q; bool er = c_retain ? n_retain : ret; Bytes et = c_topic ? n_topic : Bytes("T");
    CHECK(changes == 1, "asked once"); CHECK(writes == 1 && aclTopic == et, "the permission is that of the changed message"); CHECK(r.size() == (q ? 1u : 0u), "the publisher's exchange goes on as it began"); if (q) CHECK(r[0].type == (q == 1 ? T_PUBACK : T_PUBREC) && r[0].pid == 6 && r[0].rc == 0, "acknowledged as it was sent"); if (q == 2) { c.send(mkAck(T_PUBREL, 6)); auto r2 = c.take(); CHECK(r2.size() == 1 && r2[0].type == T_PUBCOMP, "completed"); }
    auto same = [&](const OutPkt &m, bool v5) { CHECK(m.topic == et && m.payload == "change" && m.qos() == eq, "the changed message is delivered"); if (v5) { CHECK(m.retain() == er, "with the changed retain flag"); if (ver == V5) { const Prop *co = m.prop(9), *re = m.prop(8), *ct = m.prop(3); bool full = c_props && pv == 5; CHECK(co && co->s == (full ? n_val : Bytes("cc")), "correlation data"); CHECK(full ? re && re->s == n_val : !re, "response topic"); CHECK(full ? ct && ct->s == n_val : !ct, "content type"); CHECK(m.count(38) == (c_props ? 2 : 1), "user properties"); int i = 0; for (auto &u : m.props) if (u.id == 38) { CHECK(i == 0 ? u.s == "k" && u.s2 == "v" : u.s == "k2" && u.s2 == n_val, "user property"); i++; } } else for (auto &u : m.props) CHECK(u.id == 2, "no properties"); } };
    CHECK(px.size() == 1 && pz.size() == 1, "delivered once to each"); same(px[0], true); same(pz[0], false); CHECK(!pz[0].retain(), "not as a retained message"); COVER("changed");
    Conn l; ConnOpt lo; lo.id = "l"; l.connect(w, lo); l.send(mkSubscribe(V5, 2, {{"#", 2}})); auto lr = l.take(); CHECK(countType(lr, T_PUBLISH) == (er ? 1 : 0), "retained exactly when the changed message says so"); if (er) { same(*firstType(lr, T_PUBLISH), true); COVER("retained"); } l.drop();
    // the next ones are not affected
    if (alias) { c.send(mkPublish(ver, "", "asis", 0, 0, false, false, Props().two(35, 3))); px = x.take(); CHECK(px.size() == 1 && px[0].topic == "T" && px[0].payload == "asis", "the alias still means the publisher's topic"); COVER("alias"); } else { c.send(mkPublish(ver, "T", "asis", 1, 8)); px = x.take(); CHECK(px.size() == 1 && px[0].topic == "T" && px[0].payload == "asis" && px[0].qos() == 1 && !px[0].retain(), "other messages are not changed"); } Conn y; ConnOpt yo; yo.id = "y"; y.connect(w, yo); y.send(mkPublish(V5, "T", "change", 1, 8)); px = x.take(); CHECK(px.size() == 1 && px[0].topic == "T" && px[0].qos() == 1, "other clients' messages are not changed"); CHECK(changes == 1 && x.isOpen() && z.isOpen() && c.isOpen(), "everybody stays"); }
// changed subscriptions
static Bytes s_to; static bool s_topic, s_qos; static unsigned s_q; static int subCalls;
static bool changeSub(const Bytes &c, Bytes &t, uint8_t &q) { if (c == "c") subCalls++; if (c != "c" || t != "S") return false; if (s_topic) t = s_to; if (s_qos) q = s_q; return s_topic || s_qos; }
extern "C" void fsx_subscription() {
    World w; usePlugin(w); pl_sub = changeSub; w.start(); Bytes n = symBytes("new filter", 1); fsx_assume((n[0] >= 'a') & (n[0] <= 'z')); unsigned form = fsx_choice("form", 4); s_to = form == 0 ? n : form == 1 ? n + "/+" : form == 2 ? Bytes("#") : "$share/g/" + n; s_topic = fsx_choice("changes filter", 2); s_qos = fsx_choice("changes qos", 2); s_q = s_qos ? fsx_choice("new qos", 3) : 0; unsigned q = fsx_choice("qos", 3), place = fsx_choice("place", 2); int ver = fsx_choice("version", 2) ? V5 : V311; Conn p; ConnOpt po; po.id = "p"; p.connect(w, po); p.send(mkPublish(V5, "S", "rS", 2, 1, true)); p.send(mkPublish(V5, n, "rn", 2, 2, true)); p.send(mkPublish(V5, "O", "rO", 2, 3, true)); p.take();
    Conn c; ConnOpt o; o.ver = ver; c.connect(w, o); std::vector<Filt> fs = {{"S", q}, {"O", 1}}; if (place) std::swap(fs[0], fs[1]); c.send(mkSubscribe(ver, 7, fs)); auto r = c.take(); unsigned eq = s_qos ? s_q : q; Bytes ef = s_topic ? s_to : Bytes("S"); CHECK(subCalls == 2, "asked about each filter once"); const OutPkt *sa = firstType(r, T_SUBACK); CHECK(sa && sa->codes.size() == 2 && (unsigned char)sa->codes[place] == eq && (unsigned char)sa->codes[1 - place] == 1, "granted as changed, the other as requested");
    int rS = 0, rn = 0, rO = 0; for (auto &m : r) if (m.type == T_PUBLISH) { rS += m.payload == "rS"; rn += m.payload == "rn"; rO += m.payload == "rO"; } bool all = s_topic && form == 2; CHECK(rS == ((!s_topic || all) ? 1 : 0) && rn == (((s_topic && form == 0) || all) ? 1 : 0) && rO == (all ? 2 : 1), "retained messages of the changed filter");
    auto st = subTopics(w, "c"); CHECK(st.size() == 2, "two subscriptions"); p.send(mkPublish(V5, "S", "S", 2, 4)); auto m = c.take(); CHECK(m.size() == ((!s_topic || all) ? 1u : 0u), "the original filter counts only if it wasn't changed"); if (!m.empty()) CHECK(m[0].qos() == eq, "with the changed QoS"); p.send(mkAck(T_PUBREL, 4)); p.take(); p.send(mkPublish(V5, n, "n", 2, 5)); m = c.take(); CHECK(m.size() == ((s_topic && form != 1) ? 1u : 0u), "the changed filter counts"); if (!m.empty()) { CHECK(m[0].qos() == eq, "with the changed QoS"); COVER("changed"); } Conn y; ConnOpt yo; yo.id = "y"; y.connect(w, yo); y.send(mkSubscribe(V5, 2, {{"S", 1}})); auto yr = y.take(); CHECK(countType(yr, T_PUBLISH) == 1 && firstType(yr, T_SUBACK)->codes[0] == 1, "other clients' subscriptions are not changed"); CHECK(c.isOpen() && y.isOpen(), "everybody stays"); if (!s_topic && !s_qos) COVER("not changed"); }
