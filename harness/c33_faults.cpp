// C33: saving fails or stops at any file operation; the state file is the complete old or the complete new one.
#include "ref.hpp"
#include "persistencefunctions.h"
static std::vector<std::shared_ptr<SubscriptionStore>> g_old; static std::vector<World *> g_worlds;
static World *fresh() { globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); { auto l = globals->threadDatas.lock(); l->clear(); } World *w = new World(); w->settings.storageDir = "d"; w->start(); g_worlds.push_back(w); return w; }
static const char *FILES[] = {"d/retained.db", "d/sessions.db", "d/bridgenames.db"};
static Bytes content(const char *p) { return env_file_exists(p) ? Bytes((const char *)env_file_data(p), env_file_size(p)) : Bytes("(none)"); }
static std::list<BridgeInfoForSerializing> g_bridges;
static void save(World *w, bool bg) { w->use(0); saveState(w->settings, g_bridges, bg); }
static Conn g_p, g_s;
static void state(World *w, int v) { if (v == 1) { ConnOpt o; o.id = "p"; g_p.connect(*w, o); ConnOpt so; so.id = "s"; so.props.four(17, 1000); so.clean = false; g_s.connect(*w, so); g_s.send(mkSubscribe(V5, 1, {{"t", 1}})); g_s.drop(); } Bytes x = v == 1 ? "one" : "another"; g_p.send(mkPublish(V5, "t", x, 1, 3 + v, true)); if (v == 2) g_p.send(mkPublish(V5, "u", x, 0, 0, true)); g_p.take(); BridgeInfoForSerializing b; b.prefix = "b"; b.clientId = x; g_bridges = {b}; }
// the new state as one that had no fault would have written it
static void versions(World *w, int f, Bytes &before, Bytes &after, bool first, int &ops) { state(w, 1); if (!first) save(w, false); before = content(FILES[f]); state(w, 2); Bytes keep[3]; for (int i = 0; i < 3; i++) keep[i] = content(FILES[i]); int o = env_fs_ops; save(w, true); ops = env_fs_ops - o; after = content(FILES[f]); for (int i = 0; i < 3; i++) { if (first) env_file_remove(FILES[i]); else env_file_put(FILES[i], keep[i].data(), keep[i].size()); } }
static int loads(const char *, int f) { World *n = fresh(); try { if (f == 0) n->store()->loadRetainedMessages(FILES[0]); else if (f == 1) n->store()->loadSessionsAndSubscriptions(FILES[1]); else { auto b = loadBridgeInfo(n->settings); } } catch (std::exception &) { return -1; } if (f == 0) return (int)n->store()->getRetainedMessageCount(); if (f == 1) { auto s = n->store()->lockSession("s"); return s ? (int)s->qos.lock()->getQueuedCount() : 0; } return 1; }
static void judge(int f, const Bytes &before, const Bytes &after) { Bytes now = content(FILES[f]); CHECK(now == before || now == after, "the file is the complete old or the complete new one"); if (now == after) COVER("new"); else COVER("old"); if (now != Bytes("(none)")) CHECK(loads(FILES[f], f) == (f == 2 ? 1 : now == after ? 2 : 1), "and it loads"); }
extern "C" void fsx_errors() {
    int f = fsx_choice("file", 3); bool first = fsx_choice("first save", 2); World *w = fresh(); Bytes before, after; int ops; versions(w, f, before, after, first, ops); int k = fsx_choice("failing operation", 160); if (k >= ops) return; env_fs_fail_on = fsx_choice("lasting", 2); env_fs_short = fsx_choice("partial", 2) * 3; env_fs_fail_errno = 28; env_fs_fail_at = env_fs_ops + k; save(w, fsx_choice("in background", 2)); env_fs_fail_at = -1; judge(f, before, after); COVER("failed");
    // the server goes on, and the next save succeeds
    g_worlds[0]->use(0); globals->subscriptionStore = g_old[0]; Conn c; ConnOpt o; o.id = "c"; CHECK(c.connect(*w, o).rc == 0, "the server goes on"); c.drop(); save(w, false); if (f != 1) CHECK(content(FILES[f]) == after, "the next save succeeds"); }
extern "C" void fsx_crash() {
    int f = fsx_choice("file", 3); bool first = fsx_choice("first save", 2); World *w = fresh(); Bytes before, after; int ops; versions(w, f, before, after, first, ops); int k = fsx_choice("operation", 160); if (k > ops) return; env_fs_crash_at = env_fs_ops + k; save(w, true); if (k == ops) env_file_exists("x"), env_fs_crash_at = -1; if (env_fs_crashed()) env_fs_restore(fsx_choice("what was not synced is lost", 2)); judge(f, before, after); COVER("stopped"); }
extern "C" void fsx_reading() {
    int f = fsx_choice("file", 3); World *w = fresh(); state(w, 1); save(w, false); Bytes before = content(FILES[f]); int o = env_fs_ops; CHECK(loads(FILES[f], f) == 1, "loads"); int ops = env_fs_ops - o, k = fsx_choice("failing operation", 100); if (k >= ops) return; env_fs_fail_on = fsx_choice("lasting", 2); env_fs_fail_errno = 5; env_fs_fail_at = env_fs_ops + k; int r = loads(FILES[f], f); env_fs_fail_at = -1; CHECK(content(FILES[f]) == before, "a file that could not be read is left alone"); CHECK(r <= 1, "nothing is invented"); COVER("read"); CHECK(loads(FILES[f], f) == 1, "and loads later"); }
