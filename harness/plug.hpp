// A plugin whose answers the harness decides. Loaded through the real plugin loader.
#pragma once
#include "ref.hpp"
#include "flashmq_plugin.h"
typedef const std::vector<std::pair<std::string, std::string>> *UP; typedef std::unordered_map<std::string, std::string> Opts; typedef std::optional<std::string> OS;
struct AclQ { AclAccess access; const std::string &client, &user, &topic; const std::vector<std::string> &sub; const std::string &share; std::string_view payload; unsigned qos; bool retain; };
struct Pub { std::string &topic; uint8_t &qos; bool &retain; OS *corr, *resp, *ctype; std::vector<std::pair<std::string, std::string>> *up; std::string_view payload; const std::string &client; };
inline AuthResult (*pl_login)(const std::string &, const std::string &, const std::string &) = nullptr; // client, user, password
inline AuthResult (*pl_acl)(const AclQ &) = nullptr;
inline AuthResult (*pl_ext)(ExtendedAuthStage, const std::string &, const std::string &, std::string &, std::string &) = nullptr; // stage, method, data, returned data, user
inline bool (*pl_pub)(Pub &) = nullptr; inline bool (*pl_sub)(const std::string &, std::string &, uint8_t &) = nullptr;
inline void (*pl_unsub)(const std::string &, const std::string &) = nullptr; inline void (*pl_gone)(const std::string &) = nullptr; inline void (*pl_init)(bool) = nullptr; inline void (*pl_periodic)() = nullptr;
inline int pl_version = 5; inline std::weak_ptr<Client> pl_client;
inline int plVersion() { return pl_version; } inline void plAlloc(void **p, Opts &) { *p = nullptr; } inline void plFree(void *, Opts &) {} inline void plInit(void *, Opts &, bool r) { if (pl_init) pl_init(r); } inline void plDeinit(void *, Opts &, bool) {}
inline AuthResult plLogin(void *, const std::string &c, const std::string &u, const std::string &p, UP, const std::weak_ptr<Client> &cl) { pl_client = cl; return pl_login ? pl_login(c, u, p) : AuthResult::success; }
inline AuthResult plAclAny(const AclQ &q) { return pl_acl ? pl_acl(q) : AuthResult::success; }
inline const std::string plNone;
inline AuthResult plAcl5(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &s, const std::string &sh, std::string_view pay, const uint8_t q, const bool r, const OS &, const OS &, const OS &, const std::optional<std::chrono::time_point<std::chrono::steady_clock>>, UP) { return plAclAny({a, c, u, t, s, sh, pay, q, r}); }
inline AuthResult plAcl4(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &s, const std::string &sh, std::string_view pay, const uint8_t q, const bool r, const OS &, const OS &, UP) { return plAclAny({a, c, u, t, s, sh, pay, q, r}); }
inline AuthResult plAcl3(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &s, std::string_view pay, const uint8_t q, const bool r, const OS &, const OS &, UP) { return plAclAny({a, c, u, t, s, plNone, pay, q, r}); }
inline AuthResult plAcl2(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &s, std::string_view pay, const uint8_t q, const bool r, UP) { return plAclAny({a, c, u, t, s, plNone, pay, q, r}); }
inline AuthResult plAcl1(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &s, const uint8_t q, const bool r, UP) { return plAclAny({a, c, u, t, s, plNone, std::string_view(), q, r}); }
inline AuthResult plExt(void *, const std::string &, ExtendedAuthStage st, const std::string &m, const std::string &d, UP, std::string &ret, std::string &user, const std::weak_ptr<Client> &cl) { pl_client = cl; return pl_ext ? pl_ext(st, m, d, ret, user) : AuthResult::success; }
inline bool plSub(void *, const std::string &c, std::string &t, const std::vector<std::string> &, uint8_t &q, UP) { return pl_sub ? pl_sub(c, t, q) : false; }
inline bool plPubAny(Pub &&p) { return pl_pub ? pl_pub(p) : false; }
inline bool plPub5(void *, const std::string &c, std::string &t, const std::vector<std::string> &, std::string_view pay, uint8_t &q, bool &r, OS &co, OS &re, OS &ct, std::vector<std::pair<std::string, std::string>> *up) { return plPubAny({t, q, r, &co, &re, &ct, up, pay, c}); }
inline bool plPub3(void *, const std::string &c, std::string &t, const std::vector<std::string> &, std::string_view pay, uint8_t &q, bool &r, const OS &, const OS &, std::vector<std::pair<std::string, std::string>> *up) { return plPubAny({t, q, r, nullptr, nullptr, nullptr, up, pay, c}); }
inline bool plPub2(void *, const std::string &c, std::string &t, const std::vector<std::string> &, std::string_view pay, uint8_t &q, bool &r, std::vector<std::pair<std::string, std::string>> *up) { return plPubAny({t, q, r, nullptr, nullptr, nullptr, up, pay, c}); }
inline bool plPub1(void *, const std::string &c, std::string &t, const std::vector<std::string> &, uint8_t &q, bool &r, std::vector<std::pair<std::string, std::string>> *up) { return plPubAny({t, q, r, nullptr, nullptr, nullptr, up, std::string_view(), c}); }
inline void plUnsub(void *, const std::weak_ptr<Session> &, const std::string &c, const std::string &, const std::string &t, const std::vector<std::string> &, const std::string &, UP) { if (pl_unsub) pl_unsub(c, t); }
inline void plGone(void *, const std::string &c) { if (pl_gone) pl_gone(c); } inline void plPeriodic(void *) { if (pl_periodic) pl_periodic(); }
// call before World::start()
inline void usePlugin(World &w, int version = 5) {
    pl_version = version; auto s = [](const char *n, auto f) { env_plugin_symbol(n, (void *)f); };
    s("flashmq_plugin_version", plVersion); s("flashmq_plugin_allocate_thread_memory", plAlloc); s("flashmq_plugin_deallocate_thread_memory", plFree); s("flashmq_plugin_init", plInit); s("flashmq_plugin_deinit", plDeinit); s("flashmq_plugin_login_check", plLogin); s("flashmq_plugin_extended_auth", plExt); s("flashmq_plugin_alter_subscription", plSub); s("flashmq_plugin_client_disconnected", plGone); s("flashmq_plugin_periodic_event", plPeriodic); s("flashmq_plugin_on_unsubscribe", plUnsub);
    if (version == 5) { s("flashmq_plugin_acl_check", plAcl5); s("flashmq_plugin_alter_publish", plPub5); } else if (version == 4) { s("flashmq_plugin_acl_check", plAcl4); s("flashmq_plugin_alter_publish", plPub3); } else if (version == 3) { s("flashmq_plugin_acl_check", plAcl3); s("flashmq_plugin_alter_publish", plPub3); } else if (version == 2) { s("flashmq_plugin_acl_check", plAcl2); s("flashmq_plugin_alter_publish", plPub2); } else { s("flashmq_plugin_acl_check", plAcl1); s("flashmq_plugin_alter_publish", plPub1); }
    env_file_put("/plugin.so", "x", 1); w.settings.pluginPath = "/plugin.so"; w.loader = std::make_shared<PluginLoader>(); w.loader->loadPlugin("/plugin.so"); }
