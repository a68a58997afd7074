// C37: the proxy header decides the client's address, or the connection closes.
#include "plug.hpp"
#include "haproxy.h"
static int logins; static struct sockaddr_storage seen; static Bytes seenUser;
static AuthResult login(const std::string &, const std::string &u, const std::string &) { logins++; socklen_t n = sizeof seen; memset(&seen, 0, sizeof seen); flashmq_get_client_address_v4(pl_client, nullptr, (sockaddr *)&seen, &n); seenUser = u; return AuthResult::success; }
static const Bytes SIG("\r\n\r\n\0\r\nQUIT\n", 12);
static Bytes hdr(unsigned vc, unsigned fam, unsigned len) { Bytes h = SIG; p8(h, vc); p8(h, fam); p16(h, len); return h; }
static Bytes login1() { ConnOpt o; o.id = "c"; o.hasUser = true; o.user = "u"; return mkConnect(o); }
static bool addrIs(int fam, const Bytes &src, const Bytes &port) { if (seen.ss_family != (fam == 1 ? AF_INET : AF_INET6)) return false; if (fam == 1) { auto *a = (sockaddr_in *)&seen; return !memcmp(&a->sin_addr, src.data(), 4) & !memcmp(&a->sin_port, port.data(), 2); } auto *a = (sockaddr_in6 *)&seen; return !memcmp(&a->sin6_addr, src.data(), 16) & !memcmp(&a->sin6_port, port.data(), 2); }
// the first 16 bytes: any version, command, family, protocol and length
extern "C" void fsx_header() {
    World w; usePlugin(w); pl_login = login; w.start(); Conn c; c.w = &w; c.fd = w.open(0, ConnectionProtocol::Mqtt, HaProxyMode::On); unsigned char v[2]; fsx_symbolic(v, 2, "version and family"); static const unsigned L[] = {0, 3, 11, 12, 15, 35, 36, 39, 215, 216, 219}; unsigned len = L[fsx_choice("length", 11)]; int badSig = fsx_choice("signature", 14); Bytes h = hdr(v[0], v[1], len); if (badSig < 12) { char x; fsx_symbolic(&x, 1, "signature byte"); fsx_assume(x != SIG[badSig]); h[badSig] = x; } else if (badSig == 13) { /* the signature is right but the header comes in two pieces */ }
    Bytes body = symBytes("addresses", len); unsigned alen = len; unsigned pre = v[1] >> 4, preNeed = pre == 1 ? 12 : pre == 2 ? 36 : pre == 3 ? 216 : 0; fsx_assume((pre > 3) | (preNeed >= len) | (preNeed + 3 == len)); /* what is beyond the addresses is one empty extension */ for (unsigned k : {0u, 12u, 36u, 216u}) if (len == k + 3) { body[k] = 4; body[k + 1] = body[k + 2] = 0; alen = k; }
    if (badSig == 13) { c.feed(h.substr(0, 9)); w.pump(); c.feed(h.substr(9) + body + login1()); } else if (fsx_choice("login in the same segment", 2)) c.feed(h + body + login1()); else { c.feed(h + body); w.pump(); c.feed(login1()); } w.pump(); auto r = c.take(); CHECK(logins == (int)countType(r, T_CONNACK), "admitted or closed"); for (int i = 0; i < 3; i++) w.pump();
    unsigned ver = v[0] >> 4, cmd = v[0] & 15, fam = v[1] >> 4, prot = v[1] & 15; unsigned need = fam == 1 ? 12 : fam == 2 ? 36 : fam == 3 ? 216 : 0; bool good = (badSig == 12) & (ver == 2) & (cmd == 1) & ((fam == 1) | (fam == 2)) & ((prot == 1) | (prot == 2)) & (len >= need);
    if (good && len == need) { CHECK(logins == 1 && addrIs(fam, body.substr(0, fam == 1 ? 4 : 16), body.substr(fam == 1 ? 8 : 32, 2)), "the address is the one in the header"); COVER("admitted"); }
    else if (good && alen == need) { CHECK(logins == 1 && addrIs(fam, body.substr(0, fam == 1 ? 4 : 16), body.substr(fam == 1 ? 8 : 32, 2)), "the address is the one in the header, extensions or not"); COVER("with extension"); }
    else if (!good) { bool local = (badSig == 12) & (ver == 2) & (cmd <= 1) & (fam <= 3) & ((cmd == 0) | (prot == 0)) & (len >= need); if (local) { CHECK(!c.isOpen() || seen.ss_family == AF_INET || !logins, "a local connection has no other address"); COVER("local"); } else { CHECK(logins == 0, "a malformed header is never accepted"); CHECK(!c.isOpen(), "and closes the connection"); COVER("refused"); } } }
// a header that is cut short
extern "C" void fsx_short() { World w; usePlugin(w); pl_login = login; w.start(); Conn c; c.w = &w; c.fd = w.open(0, ConnectionProtocol::Mqtt, HaProxyMode::On); bool v6 = fsx_choice("family", 2); Bytes h = hdr(0x21, v6 ? 0x21 : 0x11, v6 ? 36 : 12) + symBytes("addresses", v6 ? 36 : 12); size_t n = fsx_choice("bytes", v6 ? 52 : 28); c.feed(h.substr(0, n)); if (fsx_choice("end", 2)) { c.drop(); } else { w.pump(); if (n) CHECK(!c.isOpen(), "a short header closes the connection"); } CHECK(logins == 0, "no login"); COVER("short"); }
// reference for the extension fields
struct Tlv { unsigned type; Bytes v; };
static bool refTlv(const Bytes &b, std::vector<Tlv> &out, int depth) { size_t i = 0; while (i < b.size()) { if (b.size() - i < 3) return false; unsigned t = (unsigned char)b[i]; size_t n = (unsigned char)b[i + 1] << 8 | (unsigned char)b[i + 2]; i += 3; if (n > b.size() - i) return false; for (auto &x : out) if (x.type == t) return false; out.push_back({t, b.substr(i, n)}); i += n; if (t == 0x20) { if (depth > 0 || n < 5) return false; std::vector<Tlv> sub; if (!refTlv(out.back().v.substr(5), sub, 1)) return false; for (auto &x : sub) if ((x.type == 0x21 || x.type == 0x22)) { /* text */ for (char c : x.v) if ((unsigned char)c >= 0x80 || (unsigned char)c < 0x20 || c == 0x7f) return false; } } } return true; }
static const Tlv *find(const std::vector<Tlv> &v, unsigned t) { for (auto &x : v) if (x.type == t) return &x; return nullptr; }
static void text(const Bytes &b) { for (char c : b) fsx_assume((unsigned char)c < 0x7f); }
// any extension bytes of up to EXT: parsed exactly or the connection closes
#ifndef EXT
#define EXT 7
#endif
extern "C" void fsx_tlv() { World w; usePlugin(w); pl_login = login; w.start(); Conn c; c.w = &w; c.fd = w.open(0, ConnectionProtocol::Mqtt, HaProxyMode::On); size_t n = fsx_choice("extension bytes", EXT + 1); Bytes ext = symBytes("extensions", n); for (size_t i = 0; i < n; i++) { unsigned char x = ext[i]; fsx_assume(x < 4 || x == 0x20); } Bytes addr = symBytes("addresses", 12); size_t cut = fsx_choice("cut", n + 1); c.feed(hdr(0x21, 0x11, 12 + n) + addr + ext.substr(0, cut)); if (cut < n) { w.pump(); CHECK(c.isOpen(), "waits for the rest"); c.feed(ext.substr(cut)); } w.pump(); if (c.isOpen()) { c.feed(login1()); w.pump(); c.take(); } std::vector<Tlv> want; bool ok = refTlv(ext, want, 0); CHECK(logins == (ok ? 1 : 0), "extensions are well-formed, or the connection closes"); CHECK(c.isOpen() == ok, "extensions are well-formed, or the connection closes (socket)"); if (ok) { CHECK(addrIs(1, addr.substr(0, 4), addr.substr(8, 2)), "address"); COVER("accepted"); } else COVER("refused"); }
// the certificate name stated by the proxy becomes the user name
extern "C" void fsx_cn() {
    World w; usePlugin(w); pl_login = login; w.settings.allowAnonymous = false; w.start(); bool ask = fsx_choice("mode", 2); Conn c; c.w = &w; c.fd = w.open(0, ConnectionProtocol::Mqtt, ask ? HaProxyMode::HaProxyClientVerficiationWithAuthn : HaProxyMode::HaProxyClientVerification); Bytes sub; int fields = fsx_choice("fields", 4); Bytes cn; Bytes ver = symBytes("version", 1); text(ver); fsx_assume((unsigned char)ver[0] >= 0x20); if (fields & 1) { p8(sub, 0x21); p16(sub, 1); sub += ver; } if (fields & 2) { size_t n = fsx_choice("name length", 4); cn = symBytes("name", n); text(cn); for (char x : cn) fsx_assume((unsigned char)x >= 0x20); p8(sub, 0x22); p16(sub, n); sub += cn; }
    Bytes ssl = symBytes("client and verify", 5) + sub, ext; int where = fsx_choice("where", 3); auto other = [&] { p8(ext, 0x01); p16(ext, 2); ext += symBytes("alpn", 2); }; if (where == 1) other(); p8(ext, 0x20); p16(ext, ssl.size()); ext += ssl; if (where == 2) other(); c.feed(hdr(0x21, 0x11, 12 + ext.size()) + symBytes("addresses", 12) + ext); w.pump(); bool named = (fields & 2) && !cn.empty(); CHECK(c.isOpen(), "a well-formed header"); ConnOpt o; o.id = "c"; o.hasUser = true; o.user = "u"; c.send(mkConnect(o)); auto r = c.take(); if (named) { CHECK(r.size() == 1 && r[0].type == T_CONNACK && r[0].rc == 0, "admitted"); CHECK(logins == (ask ? 1 : 0), "asked or not"); if (ask) CHECK(seenUser == cn, "with the certificate's name"); auto s = w.store()->lockSession("c"); CHECK(s && s->getUsername() == cn, "the user is the certificate's name"); COVER("named"); } else { CHECK(countType(r, T_CONNACK) == 0 || r[0].rc != 0, "not without a name"); CHECK(!c.isOpen(), "and closed"); CHECK(logins == 0, "not asked"); COVER("no name"); } }
// the decoder itself: exactly the fields present
extern "C" void fsx_fields() {
    int k = fsx_choice("sub fields", 5); Bytes sub; Bytes v = symBytes("value", 2); text(v); for (char x : v) fsx_assume((unsigned char)x >= 0x20); bool hv = k == 1 || k == 3, hn = k == 2 || k == 3; if (hv) { p8(sub, 0x21); p16(sub, 1); sub += v[0]; } if (hn) { p8(sub, 0x22); p16(sub, 1); sub += v[1]; } if (k == 4) { p8(sub, 0x23); p16(sub, 1); sub += v[0]; } Bytes five = symBytes("client and verify", 5), ext; p8(ext, 0x20); p16(ext, five.size() + sub.size()); ext += five + sub; std::vector<unsigned char> data(ext.begin(), ext.end()); int rc = 0; auto m = read_ha_proxy_pp2_tlv(data, rc); CHECK(m.size() == 1 && m.count(0x20), "one field"); auto &s = std::get<HaProxySslData>(m.at(0x20)); const unsigned char *f = (const unsigned char *)five.data(); CHECK(s.client == f[0], "client bits"); CHECK(s.verify == ((uint32_t)f[1] << 24 | f[2] << 16 | f[3] << 8 | f[4]), "verification result"); CHECK(s.ssl_version.has_value() == hv && (!hv || *s.ssl_version == v.substr(0, 1)), "version"); CHECK(s.ssl_cn.has_value() == hn && (!hn || *s.ssl_cn == v.substr(1, 1)), "name"); COVER("fields"); }
