// C10: shared subscriptions.
#include "ref.hpp"
#ifndef OPS
#define OPS 2
#endif
#ifndef MEM
#define MEM 2
#endif
extern "C" void fsx_groups() {
    World w; w.settings.sharedSubscriptionTargeting = (SharedSubscriptionTargeting)fsx_choice("targeting", 3); w.start(); const char *ids[3] = {"m0", "m1", "m2"}; Conn m[3], n, p; bool live[3] = {true, true, MEM > 2}, online[3] = {true, true, MEM > 2}, other = true; ConnOpt o; o.clean = false; o.props.four(17, 100000); char f = symLevel("f", true); Bytes filt = Bytes("$share/g/") + f;
    for (int i = 0; i < MEM; i++) { o.id = ids[i]; m[i].connect(w, o); m[i].send(mkSubscribe(V5, 1, {{filt, 1}})); m[i].take(); } ConnOpt po; po.id = "n"; n.connect(w, po); n.send(mkSubscribe(V5, 1, {{Bytes(1, f), 0}})); n.take(); po.id = "p"; if (fsx_choice("sender", 2)) po.id = "zz9"; p.connect(w, po); m[0].send(mkSubscribe(V5, 2, {{"$share/h/a", 1}})); m[0].take();
    for (int k = 0; k < OPS; k++) { unsigned op = fsx_choice("op", 6); int i = op == 5 ? 0 : fsx_choice("member", MEM); if (op == 0) { if (online[i]) { m[i].send(mkUnsubscribe(V5, 3, {filt})); live[i] = false; } } else if (op == 1) { m[i].drop(); online[i] = false; } else if (op == 2) { m[i].drop(); Conn t; ConnOpt to; to.id = ids[i]; to.clean = true; t.connect(w, to); t.drop(); live[i] = online[i] = false; if (i == 0) other = false; } else if (op == 3) { if (online[i]) { m[i].send(mkSubscribe(V5, 4, {{filt, 1}})); live[i] = true; } } else if (op == 4) { p.send(mkPublish(V5, "q", "x", 1, 50 + k)); } else { w.advance(100); w.store()->removeExpiredSessionsClients(); w.store()->purgeSubscriptionTree(); w.advance(4000); w.store()->purgeSubscriptionTree(); } }
    for (int i = 0; i < MEM; i++) if (online[i]) m[i].take(); n.take(); char tc = symLevel("t", false); Bytes t(1, tc); int nl = 0; for (bool b : live) nl += b; bool hit = refMatch(Bytes(1, f), t);
    for (int k = 0; k < 2; k++) { char tag = '0' + k; p.send(mkPublish(V5, t, Bytes("x") + tag, 1, 10 + k)); }
    auto pa = p.take(); CHECK(countType(pa, T_PUBACK) >= 2, "publishes acknowledged"); int got[2] = {0, 0}, goth[2] = {0, 0}; CHECK(countType(n.take(), T_PUBLISH) == (hit ? 2 : 0), "non-members are unaffected");
    for (int i = 0; i < MEM; i++) { std::vector<OutPkt> r; bool has = online[i] || live[i] || (i == 0 && other); if (!has) continue; if (online[i]) r = m[i].take(); else { ConnOpt ro; ro.id = ids[i]; ro.clean = false; Conn c2; c2.connect(w, ro); r = c2.take(); } int mine[2] = {0, 0}; for (auto &d : r) if (d.type == T_PUBLISH && d.payload.size() == 2 && d.payload[0] == 'x') { mine[d.payload[1] - '0']++; } for (int k = 0; k < 2; k++) { int h = i == 0 && other && tc == 'a' ? 1 : 0; goth[k] += h; got[k] += mine[k] - h; if (!live[i]) CHECK(mine[k] == h, "members removed are never chosen"); else CHECK(mine[k] == h || mine[k] == h + 1, "one copy per group"); } }
    for (int k = 0; k < 2; k++) CHECK(got[k] == (hit && nl ? 1 : 0), "exactly one live member of the group receives it, none if there is none"); if (nl && hit) COVER("delivered"); if (!nl) COVER("no member"); }
// a group keeps its members through maintenance; a member with a no-local option is refused
extern "C" void fsx_refuse() { World w; w.start(); Conn c; ConnOpt o; c.connect(w, o); unsigned char op; fsx_symbolic(&op, 1, "options"); fsx_assume((op & 3) < 3 && (op & 0x30) != 0x30 && op < 64); c.send(mkSubscribe(V5, 1, {{"$share/g/a", op}})); CHECK(c.isOpen() == !(op & 4), "no-local on a shared subscription is a protocol error"); CHECK(subsOf(w, "c").size() == ((op & 4) ? 0 : 1), "subscribed exactly when allowed"); COVER("done"); }
