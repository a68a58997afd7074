// C34: state files that are damaged, cut off, longer than they were, or that have a correct digest over nonsense.
#include "ref.hpp"
#include "persistencefunctions.h"
static std::vector<std::shared_ptr<SubscriptionStore>> g_old; static std::vector<World *> g_worlds;
static World *fresh() { globals->subscriptionStore = std::make_shared<SubscriptionStore>(); g_old.push_back(globals->subscriptionStore); { auto l = globals->threadDatas.lock(); l->clear(); } World *w = new World(); w->settings.storageDir = "d"; w->start(); g_worlds.push_back(w); return w; }
static const char *FILES[] = {"d/retained.db", "d/sessions.db", "d/bridgenames.db"}; static const char *CORRUPT[] = {"d/retained.db.corrupt.", "d/sessions.db.corrupt.", "d/bridgenames.db.corrupt."};
static Bytes content(const char *p) { return Bytes((const char *)env_file_data(p), env_file_size(p)); }
static const size_t HDR = 96; static int g_kind;
// a file as the server writes it
static Bytes made(int f, int kind) {
    g_kind = kind;     World *w = fresh(); Conn p, s; ConnOpt o; o.id = "p"; p.connect(*w, o);
    if (f == 0) { p.send(mkPublish(V5, "t/a", "one", kind ? 1 : 0, 3, true, false, kind ? Props().four(2, 900).pair(38, "k", "v") : Props())); p.send(mkPublish(V5, "u", "two", 0, 0, true)); }
    if (f == 1) { ConnOpt so; so.id = "s"; so.props.four(17, 1000); so.clean = false; if (kind == 2) so.will = true, so.willTopic = "wt", so.willPayload = "w", so.willProps.four(24, 500); s.connect(*w, so); s.send(mkSubscribe(V5, 1, {{"t/+", 2}})); if (kind == 1) { s.send(mkPublish(V5, "x", "in", 2, 9)); p.send(mkPublish(V5, "t/b", "online", 2, 4)); auto v = s.take(); for (auto &x : v) if (x.type == T_PUBLISH) s.send(mkAck(T_PUBREC, x.pid)); } s.drop(); if (kind != 2) p.send(mkPublish(V5, "t/a", "one", 1, 3, false, false, kind == 1 ? Props().four(2, 900) : Props())); }
    p.take(); std::list<BridgeInfoForSerializing> b; if (f == 2) { BridgeInfoForSerializing i; i.prefix = "br"; i.clientId = "br_x"; b = {i}; i.prefix = "b2"; i.clientId = "b2_y"; b.push_back(i); } w->use(0); saveState(w->settings, b, false); return content(FILES[f]); }
static Bytes digest(const Bytes &c) { unsigned char out[64]; unsigned n; EVP_MD_CTX *x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha512(), nullptr); EVP_DigestUpdate(x, c.data() + HDR, c.size() - HDR); EVP_DigestFinal_ex(x, out, &n); EVP_MD_CTX_free(x); return Bytes((const char *)out, 64); }
// what a server that starts with it gets: -1 for an error
static int loads(int f, World **wp = nullptr) { World *n = fresh(); if (wp) *wp = n; try { if (f == 0) n->store()->loadRetainedMessages(FILES[0]); else if (f == 1) n->store()->loadSessionsAndSubscriptions(FILES[1]); else { std::list<BridgeConfig> l; BridgeConfig bc; bc.clientidPrefix = "br"; bc.useSavedClientId = true; l.push_back(bc); auto r = loadBridgeInfo(n->settings); return 2; } } catch (std::exception &) { return -1; } return f == 0 ? (int)n->store()->getRetainedMessageCount() : (int)n->store()->getSessionCount(); }
static void refused(int f, const Bytes &c, bool aside) { World *w; CHECK(loads(f, &w) == -1, "refused"); CHECK(w->store()->getRetainedMessageCount() == 0 && w->store()->getSessionCount() == 0 && w->store()->getSubscriptionCount() == 0, "nothing of it is loaded"); size_t n; unsigned char *d = env_file_like(CORRUPT[f], &n); if (aside) { CHECK(!env_file_exists(FILES[f]), "set aside"); CHECK(d && n == c.size() && memcmp(d, c.data(), n) == 0, "as it was"); int r = loads(f); CHECK(r == 0 || (f == 2 && r == 2), "the next start does not see it"); } COVER("refused"); }
extern "C" void fsx_damaged() {
    int f = fsx_choice("file", 3); Bytes c = made(f, f == 1), was = c; int how = fsx_choice("how", 4);
    if (how == 0) { size_t at = 32 + 8 * fsx_choice("where", 60); if (at + 8 > c.size()) return; fsx_symbolic(&c[at], 8, "bytes"); bool same = true; for (int i = 0; i < 8; i++) same &= c[at + i] == was[at + i]; fsx_assume(!same); }
    else if (how == 1) { size_t n = 4 * fsx_choice("length", 120) + fsx_choice("length bits", 4); if (n >= c.size()) return; c.resize(n); env_file_put(FILES[f], c.data(), c.size()); refused(f, c, n >= HDR); return; }
    else if (how == 2) { int n = 1 + fsx_choice("more", 12); size_t o = c.size(); c.resize(o + n); fsx_symbolic(&c[o], n, "bytes"); }
    else { size_t a = 32 + fsx_choice("first", 10) * 9, b = HDR + fsx_choice("second", 20) * 5; if (a + 2 > c.size() || b + 2 > c.size() || b < a + 2) return; fsx_symbolic(&c[a], 2, "bytes"); fsx_symbolic(&c[b], 2, "bytes2"); bool same = (c[a] == was[a]) & (c[a + 1] == was[a + 1]) & (c[b] == was[b]) & (c[b + 1] == was[b + 1]); fsx_assume(!same); }
    env_file_put(FILES[f], c.data(), c.size()); refused(f, c, true); }
// a correct digest over content that makes no sense: at worst an error
static void nonsense(int f, Bytes c) {
    Bytes d = digest(c); memcpy(&c[32], d.data(), 64); env_file_put(FILES[f], c.data(), c.size()); World *w; int r = loads(f, &w); if (r < 0) { COVER("error"); return; } COVER("loaded");
    w->use(0); Conn p, s; ConnOpt o; o.id = "p2"; CHECK(p.connect(*w, o).rc == 0, "the server works"); p.send(mkSubscribe(V5, 1, {{"q/#", 1}})); p.send(mkPublish(V5, "q/r", "x", 1, 3)); auto v = p.take(); bool got = false; for (auto &x : v) got |= x.type == T_PUBLISH && x.topic == "q/r" && x.payload == "x"; CHECK(got, "the server works"); if (f == 1 && g_kind == 1) return; ConnOpt so; so.id = "s"; so.clean = false; so.props.four(17, 1000); s.connect(*w, so); v = s.take(); for (auto &x : v) if (x.type == T_PUBLISH && x.qos() == 1) s.send(mkAck(T_PUBACK, x.pid)); else if (x.type == T_PUBREL) s.send(mkAck(T_PUBCOMP, x.pid)); s.take(); }
static bool window(int f, Bytes &c, int width) { size_t at = HDR + (f == 0 ? 0 : 0) + width * fsx_choice("where", 100); if (at + width > c.size()) return false; if (f == 0 && at >= HDR + 12 && at < HDR + 12 + 64) return false; if (f == 1 && at >= HDR + 12 && at + width <= HDR + 12 + 32) return false; fsx_symbolic(&c[at], width, "bytes"); return true; }
extern "C" void fsx_nonsense() { int f = fsx_choice("file", 3); int kind = f == 0 ? fsx_choice("kind", 2) : f == 1 ? fsx_choice("kind", 3) : 0; Bytes c = made(f, kind); if (!window(f, c, 4)) return; nonsense(f, c); }
extern "C" void fsx_cutoff() { int f = fsx_choice("file", 3); int kind = f == 0 ? fsx_choice("kind", 2) : f == 1 ? fsx_choice("kind", 3) : 0; Bytes c = made(f, kind); size_t n = HDR + 4 * fsx_choice("length", 100) + fsx_choice("length bits", 4); if (n >= c.size()) return; c.resize(n); nonsense(f, c); }
extern "C" void fsx_versions() { int f = fsx_choice("file", 3); int kind = f == 0 ? fsx_choice("kind", 2) : f == 1 ? fsx_choice("kind", 3) : 0; Bytes c = made(f, kind); static const int LAST[] = {18, 17, 13}; uint8_t v; fsx_symbolic(&v, 1, "version"); c[LAST[f]] = (char)v; nonsense(f, c); }
