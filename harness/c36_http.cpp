// C36: a connection becomes a WebSocket only after a complete, proper request for MQTT.
#include "ws.hpp"
#include "plug.hpp"
#include <openssl/evp.h>
#ifndef FREE
#define FREE 4
#endif
static Bytes accept(const Bytes &key) { unsigned char md[EVP_MAX_MD_SIZE]; unsigned n; EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_sha1(), nullptr); Bytes s = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; EVP_DigestUpdate(c, s.data(), s.size()); EVP_DigestFinal_ex(c, md, &n); EVP_MD_CTX_free(c); unsigned char out[64]; int k = EVP_EncodeBlock(out, md, n); return Bytes((char *)out, k); }
static bool has(const Bytes &h, const Bytes &x) { return h.find(x) != Bytes::npos; }
static Bytes lower(Bytes s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static void usable(WsConn &c, bool yes) { size_t before = env_out_len(c.fd); ConnOpt o; o.id = "a"; if (!c.isOpen()) { CHECK(!yes, "refused"); return; } if (yes) { c.raw(wsFrame(0x82, mkConnect(o), Bytes())); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc == 0, "and carries MQTT"); } else { c.raw(mkConnect(o)); c.raw(wsFrame(0x82, mkConnect(o), Bytes())); CHECK(!c.upgraded && !globals->subscriptionStore->lockSession("a"), "never treated as MQTT"); (void)before; } }
// one header line missing, doubled, renamed, with another value, in another letter case, in another place
extern "C" void fsx_request() {
    World w; w.start(); WsConn c; c.open(w, V5); Bytes L[7] = {"GET /mqtt HTTP/1.1", "Host: h", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Protocol: mqtt"}; Bytes key = "dGhlIHNhbXBsZSBub25jZQ==", proto = "mqtt"; int line = fsx_choice("line", 7), what = fsx_choice("change", 8); bool ok = true; Bytes &l = L[line]; size_t colon = l.find(": ");
    switch (what) { case 0: break; case 1: /* missing */ l = ""; ok = line == 1; break;
    case 2: if (line == 0) { static const char *B[] = {"POST /mqtt HTTP/1.1", "GET /mqtt", "GET", "GET  HTTP/1.1 x y", "get /mqtt HTTP/1.1", "GETX /mqtt HTTP/1.1", "PRI * HTTP/2.0"}; l = B[fsx_choice("request line", 7)]; ok = false; } else { l = l.substr(0, colon); ok = false; } break;
    case 3: if (line == 0) return; /* letter case of names, blanks around the value */ l = lower(l.substr(0, colon)) + ":  " + l.substr(colon + 2) + " "; break;
    case 4: if (line < 2) return; /* another name: one character differs */ { char x; fsx_symbolic(&x, 1, "character"); fsx_assume((x >= 'a') & (x <= 'z')); char o = l[0] | 32; fsx_assume(x != o); l[0] = x; ok = false; } break;
    case 5: if (line < 2 || line == 4) return; if (line == 5) { unsigned v = 1 + fsx_choice("version", 20); l = "Sec-WebSocket-Version: " + std::to_string(v); ok = v == 13; } else { Bytes v = symBytes("value", 3); for (char x : v) fsx_assume((x >= 'a') & (x <= 'z')); l = l.substr(0, colon + 2) + v; ok = false; } break;
    case 6: if (line == 0) return; std::swap(L[line], L[line == 1 ? 2 : 1]); break;
    default: if (line == 6) { static const char *P[] = {"mqttv3.1", "chat, mqtt", "mqtt, chat"}; int k = fsx_choice("protocols", 3); l = Bytes("Sec-WebSocket-Protocol: ") + P[k]; if (k == 0) proto = P[0]; } else if (line == 2) l = "Upgrade: h2c, websocket"; else if (line == 3) l = "Connection: keep-alive, Upgrade"; else if (line == 4) { key = symBytes("key", 4); for (char x : key) fsx_assume((x > 0x20) & (x < 0x7f)); l = "Sec-WebSocket-Key: " + key; } else return; }
    Bytes eol = fsx_choice("end of line", 2) ? "\r\n" : "\n", r; for (auto &x : L) if (!x.empty()) r += x + eol; r += eol; c.raw(r); if (ok) { CHECK(c.upgraded && c.isOpen(), "a proper request is granted"); CHECK(has(c.head, "Sec-WebSocket-Accept: " + accept(key) + "\r\n"), "with the digest of its key"); CHECK(has(c.head, "Sec-WebSocket-Protocol: " + proto + "\r\n"), "and the protocol it asked for"); CHECK(c.used == env_out_len(c.fd), "nothing else"); COVER("granted"); } else { CHECK(!c.upgraded, "not granted"); CHECK(c.head.substr(0, 12) == "HTTP/1.1 400", "answered with an error"); w.pump(); CHECK(!c.isOpen(), "and closed"); COVER("refused"); } usable(c, ok); }
// nothing before the request is complete, wherever it is cut
extern "C" void fsx_prefix() { World w; w.start(); WsConn c; c.open(w, V5); Bytes q = wsRequest(); size_t n = fsx_choice("cut", q.size()); c.raw(q.substr(0, n)); CHECK(env_out_len(c.fd) == 0 && c.isOpen(), "no answer before the request is complete"); c.raw(q.substr(n)); CHECK(c.upgraded, "granted then"); usable(c, true); COVER("prefix"); }
// arbitrary bytes
extern "C" void fsx_any() {
    World w; w.start(); WsConn c; c.open(w, V5); int shape = fsx_choice("shape", 6); Bytes x = symBytes("bytes", FREE), q = wsRequest(); Bytes r; bool mayUpgrade = false; switch (shape) { case 0: r = x; break; case 1: r = x + "\r\n\r\n"; break; case 2: r = "GET " + x + "\r\n\r\n"; break; case 3: r = q.substr(0, q.size() - 2) + x + "\r\n\r\n"; mayUpgrade = true; break; case 4: r = q; r.replace(4, FREE, x); mayUpgrade = true; break; default: r = "GET / HTTP/1.1\r\nSec-WebSocket-Protocol: " + x + "\r\n\r\n"; } c.feed(r); w.pump(); c.poll(); if (!mayUpgrade) { CHECK(!c.upgraded, "not a websocket request"); usable(c, false); COVER("refused"); } else if (c.upgraded) { COVER("granted"); } else COVER("not granted"); }
// MQTT sent to a WebSocket listener, and a request that never ends
extern "C" void fsx_other() { World w; w.start(); WsConn c; c.open(w, V5); if (fsx_choice("which", 2)) { ConnOpt o; o.id = "a"; c.raw(mkConnect(o)); CHECK(!c.upgraded, "not MQTT"); CHECK(!w.store()->lockSession("a"), "not MQTT (session)"); COVER("mqtt"); } else { Bytes q = "GET / HTTP/1.1\r\n"; for (int i = 0; i < 90 && c.isOpen(); i++) { q = "X-Long: "; q += Bytes(92, 'x'); q += "\r\n"; c.raw(q); } CHECK(!c.isOpen(), "an endless request is refused"); COVER("endless"); } }
// X-Real-IP counts only when it comes from a configured proxy
static struct sockaddr_storage seen; static AuthResult login(const std::string &, const std::string &, const std::string &) { socklen_t n = sizeof seen; flashmq_get_client_address_v4(pl_client, nullptr, (sockaddr *)&seen, &n); return AuthResult::success; }
extern "C" void fsx_realip() {
    World w; usePlugin(w); pl_login = login; int net = fsx_choice("proxies", 5); static const char *N[] = {"10.0.0.0/8", "10.0.0.1/32", "10.0.0.0/32", "11.0.0.0/8"}; if (net < 4) w.settings.setRealIpFrom.emplace_back(Bytes(N[net])); w.start(); WsConn c; c.open(w, V5); Bytes q = wsRequest(); static const char *A[] = {"1.2.3.4", "nonsense", "::5", "1.2.3.4.5"}; int a = fsx_choice("address", 4); q.insert(q.size() - 2, Bytes("X-Real-IP: ") + A[a] + "\r\n"); c.raw(q); CHECK(c.upgraded, "upgraded"); ConnOpt o; o.id = "a"; o.hasUser = true; o.user = "u"; c.raw(wsFrame(0x82, mkConnect(o), Bytes())); auto r = c.take(); CHECK(r.size() == 1 && r[0].rc == 0, "logged in"); bool trust = net < 2; auto *v4 = (sockaddr_in *)&seen; auto *v6 = (sockaddr_in6 *)&seen; if (trust && a == 0) CHECK(seen.ss_family == AF_INET && ntohl(v4->sin_addr.s_addr) == 0x01020304, "the stated address"); else if (trust && a == 2) CHECK(seen.ss_family == AF_INET6 && v6->sin6_addr.s6_addr[15] == 5 && v6->sin6_addr.s6_addr[0] == 0, "the stated IPv6 address"); else CHECK(seen.ss_family == AF_INET && ntohl(v4->sin_addr.s_addr) == 0x0a000001, "the connection's own address"); COVER("real ip"); }
