// C22: who is admitted.
#include "plug.hpp"
#include <openssl/evp.h>
#include <fstream>
static Bytes b64(const Bytes &s) { std::vector<unsigned char> o(4 * s.size() + 8); int n = EVP_EncodeBlock(o.data(), (const unsigned char *)s.data(), s.size()); return Bytes((char *)o.data(), n); }
static Bytes sha(const Bytes &pw, const Bytes &salt) { unsigned char md[EVP_MAX_MD_SIZE]; unsigned n; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_sha512(), nullptr); Bytes s = pw + salt; EVP_DigestUpdate(c, s.data(), s.size()); EVP_DigestFinal_ex(c, md, &n); EVP_MD_CTX_free(c); return Bytes((char *)md, 64); }
static Bytes kdf(const Bytes &pw, const Bytes &salt, int iter) { unsigned char md[EVP_MAX_MD_SIZE]; PKCS5_PBKDF2_HMAC(pw.data(), pw.size(), (const unsigned char *)salt.data(), salt.size(), iter, EVP_sha512(), 64, md); return Bytes((char *)md, 64); }
static Bytes line(const Bytes &user, const Bytes &pw, bool pbkdf, const Bytes &salt = "salt01", int iter = 101) { return user + (pbkdf ? ":$7$" + std::to_string(iter) + "$" : ":$6$") + b64(salt) + "$" + b64(pbkdf ? kdf(pw, salt, iter) : sha(pw, salt)) + "\n"; }
static void passwd(World &w, const Bytes &content) { env_file_put("passwd", content.data(), content.size()); w.settings.mosquittoPasswordFile = "passwd"; }
static AuthResult g_res; static bool g_throw; static int g_asked; static Bytes g_user, g_pw;
static AuthResult login(const std::string &, const std::string &u, const std::string &p) { g_asked++; g_user = u; g_pw = p; if (g_throw) throw std::runtime_error("no"); return g_res; }
static AllowListenerAnonymous g_over; static void opened(Client &c) { c.setAllowAnonymousOverride(g_over); }
static void outcome(World &w, Conn &c, const OutPkt &a, bool admit, const char *msg) {
    CHECK(a.type == T_CONNACK, "the login is answered"); CHECK((a.rc == 0) == admit, msg); CHECK(c.isOpen() == admit, "refused clients are disconnected"); CHECK(bool(w.store()->lockSession("c")) == admit, "a session exactly for the admitted"); if (!admit) CHECK(c.ver == V5 ? a.rc >= 0x80 : a.rc >= 1 && a.rc <= 5, "the answer says so"); }
// every combination of password file, plugin answer, anonymous settings and what the client gives
extern "C" void fsx_matrix() {
    World w; int pwf = fsx_choice("password file", 3), pl = fsx_choice("plugin", 7), over = fsx_choice("listener", 3); bool anon = fsx_choice("anonymous", 2), zero = fsx_choice("empty user is anonymous", 2); w.settings.allowAnonymous = anon; w.settings.zeroByteUsernameIsAnonymous = zero; g_over = over == 0 ? AllowListenerAnonymous::None : over == 1 ? AllowListenerAnonymous::Yes : AllowListenerAnonymous::No; w.onOpen = opened; Bytes right = "pw";
    if (pwf) passwd(w, "# nothing\n\nother:$6$c2FsdA==$bm9wZQ==\n" + line("u", right, pwf == 2)); static const AuthResult R[] = {AuthResult::success, AuthResult::login_denied, AuthResult::acl_denied, AuthResult::error, AuthResult::server_not_available}; if (pl) { usePlugin(w); pl_login = login; g_throw = pl == 6; if (pl < 6) g_res = R[pl - 1]; } w.start();
    ConnOpt o; o.ver = fsx_choice("version", 2) ? V5 : V311; int u = fsx_choice("user", 4); o.hasUser = u > 0; o.user = u < 2 ? "" : u == 2 ? "u" : "v"; o.hasPass = fsx_choice("gives a password", 2); if (o.hasPass && !o.hasUser && o.ver != V5) return; if (o.hasPass) { o.pass = symBytes("password", 2); for (char x : o.pass) fsx_assume((x >= 'a') & (x <= 'z')); }
    Conn c; auto a = c.connect(w, o); bool any = over == 0 ? anon : over == 1; bool noName = u == 0 || (u == 1 && zero); bool known = pwf && u == 2, match = o.hasPass && o.pass == right; bool admit, asked = false;
    if (u == 1 && !zero) admit = false; else if (noName && any) admit = true; else if (known && match) admit = true; else if (pwf && !known && any) admit = true; else if (pl) { asked = true; admit = pl == 1; } else admit = any && !known;
    outcome(w, c, a, admit, admit ? "admitted" : "refused"); CHECK(g_asked == (asked ? 1 : 0), "the plugin is asked exactly when it is to decide"); if (asked) { CHECK(g_user == (noName ? Bytes() : o.user) && g_pw == o.pass, "with the name and password the client gave"); CHECK(c.ver != V5 || admit || (pl == 5 ? a.rc == 0x88 : pl == 2 || pl == 3 ? a.rc == 0x87 || a.rc == 0x86 : true), "the code fits the plugin's answer"); } if (admit) COVER("admitted"); else COVER("refused"); }
// several logins in a row: each is judged by itself
extern "C" void fsx_sequence() {
    World w; w.settings.allowAnonymous = fsx_choice("anonymous", 2); Bytes pu = "ab", pv = "cd"; bool k = fsx_choice("kind", 2); passwd(w, line("u", pu, k, "saltsa") + line("v", pv, !k, "tlastl", 7)); w.start();
    for (int i = 0; i < 3; i++) { ConnOpt o; o.id = "c"; int u = fsx_choice("user", 2); o.hasUser = true; o.user = u ? "v" : "u"; o.hasPass = true; o.pass = symBytes("password", 1 + fsx_choice("length", 2)); Conn c; auto a = c.connect(w, o); bool ok = o.pass == (u ? pv : pu); outcome(w, c, a, ok, ok ? "the right password" : "the wrong password"); if (ok) { COVER("right"); c.send(mkDisconnect(V5)); } else COVER("wrong"); if (c.isOpen()) c.drop(); } }
// password and stored password of any length, sharing characters
extern "C" void fsx_password() {
    World w; w.settings.allowAnonymous = true; Bytes right = symBytes("right", fsx_choice("right length", 4)), given = symBytes("given", fsx_choice("given length", 4)); bool k = fsx_choice("kind", 2); passwd(w, line("u", right, k)); w.start(); ConnOpt o; o.id = "c"; o.hasUser = true; o.user = "u"; o.hasPass = true; o.pass = given; Conn c; auto a = c.connect(w, o); /* what follows the password in the digest is the salt */ bool ok = right == given; outcome(w, c, a, ok, "exactly the right password"); if (ok) COVER("right"); else COVER("wrong"); }
// user names are compared whole
extern "C" void fsx_user() {
    World w; w.settings.allowAnonymous = false; Bytes user = symBytes("user", 1 + fsx_choice("length", 3)); for (char x : user) fsx_assume((x >= 'a') & (x <= 'c')); passwd(w, line("ab", "pw", 0)); w.start(); ConnOpt o; o.id = "c"; o.hasUser = true; o.user = user; o.hasPass = true; o.pass = "pw"; Conn c; auto a = c.connect(w, o); bool ok = user == "ab"; outcome(w, c, a, ok, "exactly the listed user"); if (ok) COVER("listed"); else COVER("not listed"); }
// a damaged line never admits anybody, and does not spoil the lines around it
extern "C" void fsx_damaged() {
    World w; w.settings.allowAnonymous = false; bool k = fsx_choice("kind", 2); Bytes l = line("u", "pw", k), orig = l; size_t at = fsx_choice("position", 20); char x; fsx_symbolic(&x, 1, "instead"); size_t pos = at < 16 ? at : l.size() - 5 - (at - 16) * 20; fsx_assume(x != l[pos]); l[pos] = x; passwd(w, line("aa", "first", 0) + l + line("zz", "last", 1)); w.start(); ConnOpt o; o.id = "c"; o.hasUser = true; o.user = "u"; o.hasPass = true; o.pass = "pw"; { Conn c; auto a = c.connect(w, o); outcome(w, c, a, false, "a damaged line does not admit its user"); } o.user = "zz"; o.pass = "last"; { Conn c; auto a = c.connect(w, o); outcome(w, c, a, true, "the lines around it still count"); c.drop(); } o.user = "aa"; o.pass = "last"; { Conn c; auto a = c.connect(w, o); outcome(w, c, a, false, "and only with their own password"); } COVER("damaged"); }
// the file changes while the server runs
extern "C" void fsx_reload() {
    World w; w.settings.allowAnonymous = fsx_choice("anonymous", 2); passwd(w, line("u", "old", 0) + line("v", "vv", 1)); env_file_set_mtime("passwd", 5000); w.start(); auto tryLogin = [&](const Bytes &u, const Bytes &p) { ConnOpt o; o.id = "c"; o.hasUser = true; o.user = u; o.hasPass = true; o.pass = p; Conn c; auto a = c.connect(w, o); bool in = a.rc == 0; if (c.isOpen()) { c.send(mkDisconnect(V5)); } return in; };
    CHECK(tryLogin("u", "old") && tryLogin("v", "vv"), "before the change"); Bytes now = symBytes("new password", 2); for (char x : now) fsx_assume((x >= 'a') & (x <= 'd')); int what = fsx_choice("what", 3); if (what == 0) { Bytes f = line("u", now, 1); env_file_put("passwd", f.data(), f.size()); env_file_set_mtime("passwd", 6000); } else if (what == 1) env_file_remove("passwd"); else { Bytes f = line("u", now, 0) + "broken\n"; env_file_put("passwd", f.data(), f.size()); env_file_set_mtime("passwd", 6000); }
    w.use(0); w.td[0]->queuePasswdFileReload(); w.pump(); if (what == 1) { CHECK(tryLogin("u", "old") && !tryLogin("u", "new"), "without a file the last one counts"); COVER("removed"); } else { CHECK(!tryLogin("u", "old"), "the old password no longer counts"); CHECK(tryLogin("u", now), "the new one does"); CHECK(tryLogin("v", "vv") == w.settings.allowAnonymous, "a removed user is unknown"); COVER("changed"); } }
// a password file that cannot be read admits nobody by name
extern "C" void fsx_missing() {
    World w; w.settings.allowAnonymous = fsx_choice("anonymous", 2); w.settings.mosquittoPasswordFile = "passwd"; w.start(); ConnOpt o; o.id = "c"; o.hasUser = fsx_choice("gives a name", 2); o.user = "u"; o.hasPass = fsx_choice("gives a password", 2); o.pass = symBytes("password", 1); Conn c; auto a = c.connect(w, o); outcome(w, c, a, w.settings.allowAnonymous && !o.hasUser, "nobody by name"); COVER("missing"); }
