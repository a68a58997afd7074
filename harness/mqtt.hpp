// Drives the real worker loop (do_thread_work) with virtual sockets, clocks and files, and decodes what the broker writes
// with an independent MQTT decoder.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <cstring>
#include <sys/epoll.h>
#include <netinet/in.h>
#include "fsx.h"
#include "env.h"
#include "threaddata.h"
#include "threadloop.h"
#include "threadglobals.h"
#include "client.h"
#include "session.h"
#include "settings.h"
#include "pluginloader.h"
#include "globals.h"
#include "subscriptionstore.h"

typedef std::string Bytes;
enum { T_CONNECT = 1, T_CONNACK, T_PUBLISH, T_PUBACK, T_PUBREC, T_PUBREL, T_PUBCOMP, T_SUBSCRIBE, T_SUBACK, T_UNSUBSCRIBE, T_UNSUBACK, T_PINGREQ, T_PINGRESP, T_DISCONNECT, T_AUTH };
enum { V31 = 3, V311 = 4, V5 = 5 };

// ---------- building packets ----------
inline void p8(Bytes &b, unsigned v) { b.push_back((char)v); }
inline void p16(Bytes &b, unsigned v) { p8(b, v >> 8); p8(b, v); }
inline void p32(Bytes &b, uint32_t v) { p16(b, v >> 16); p16(b, v); }
inline void pvar(Bytes &b, uint32_t v) { do { unsigned d = v % 128; v /= 128; p8(b, d | (v ? 128 : 0)); } while (v); }
inline void pstr(Bytes &b, const Bytes &s) { p16(b, s.size()); b.append(s); }
inline Bytes fixedPkt(unsigned first, const Bytes &body) { Bytes r; p8(r, first); pvar(r, body.size()); r.append(body); return r; }
inline Bytes symBytes(const char *name, size_t n) { Bytes b(n, '\0'); if (n) fsx_symbolic(&b[0], n, name); return b; }
struct Props { Bytes b; Props &byte(int id, unsigned v) { p8(b, id); p8(b, v); return *this; } Props &two(int id, unsigned v) { p8(b, id); p16(b, v); return *this; } Props &four(int id, uint32_t v) { p8(b, id); p32(b, v); return *this; } Props &var(int id, uint32_t v) { p8(b, id); pvar(b, v); return *this; } Props &str(int id, const Bytes &s) { p8(b, id); pstr(b, s); return *this; } Props &pair(int id, const Bytes &k, const Bytes &v) { p8(b, id); pstr(b, k); pstr(b, v); return *this; } };
inline void pprops(Bytes &b, int ver, const Props &p) { if (ver == V5) { pvar(b, p.b.size()); b.append(p.b); } }
struct ConnOpt { int ver = V5; Bytes id = "c"; bool clean = true; unsigned keepalive = 0; Props props; bool will = false; unsigned willQos = 0; bool willRetain = false; Bytes willTopic, willPayload; Props willProps; bool hasUser = false, hasPass = false; Bytes user, pass; };
inline Bytes mkConnect(const ConnOpt &o) {
    Bytes b; if (o.ver == V31) pstr(b, "MQIsdp"); else pstr(b, "MQTT"); p8(b, o.ver);
    unsigned fl = (o.clean ? 2 : 0) | (o.will ? 4 | o.willQos << 3 | (o.willRetain ? 32 : 0) : 0) | (o.hasPass ? 64 : 0) | (o.hasUser ? 128 : 0); p8(b, fl); p16(b, o.keepalive); pprops(b, o.ver, o.props);
    pstr(b, o.id); if (o.will) { pprops(b, o.ver, o.willProps); pstr(b, o.willTopic); pstr(b, o.willPayload); } if (o.hasUser) pstr(b, o.user); if (o.hasPass) pstr(b, o.pass); return fixedPkt(0x10, b); }
inline Bytes mkPublish(int ver, const Bytes &topic, const Bytes &payload, unsigned qos = 0, unsigned pid = 0, bool retain = false, bool dup = false, const Props &p = Props()) {
    Bytes b; pstr(b, topic); if (qos) p16(b, pid); pprops(b, ver, p); b.append(payload); return fixedPkt(0x30 | (dup ? 8 : 0) | qos << 1 | (retain ? 1 : 0), b); }
struct Filt { Bytes f; unsigned opt; };
inline Bytes mkSubscribe(int ver, unsigned pid, const std::vector<Filt> &fs, const Props &p = Props()) { Bytes b; p16(b, pid); pprops(b, ver, p); for (auto &f : fs) { pstr(b, f.f); p8(b, f.opt); } return fixedPkt(0x82, b); }
inline Bytes mkUnsubscribe(int ver, unsigned pid, const std::vector<Bytes> &fs, const Props &p = Props()) { Bytes b; p16(b, pid); pprops(b, ver, p); for (auto &f : fs) pstr(b, f); return fixedPkt(0xA2, b); }
inline Bytes mkAck(int type, unsigned pid) { Bytes b; p16(b, pid); return fixedPkt(type << 4 | (type == T_PUBREL ? 2 : 0), b); }
inline Bytes mkAckRc(int type, unsigned pid, unsigned rc) { Bytes b; p16(b, pid); p8(b, rc); return fixedPkt(type << 4 | (type == T_PUBREL ? 2 : 0), b); }
inline Bytes mkPing() { return fixedPkt(0xC0, ""); }
inline Bytes mkDisconnect(int ver, unsigned rc = 0, const Props &p = Props()) { Bytes b; if (ver == V5 && (rc || !p.b.empty())) { p8(b, rc); if (!p.b.empty()) pprops(b, ver, p); } return fixedPkt(0xE0, b); }
inline Bytes mkAuth(unsigned rc, const Props &p) { Bytes b; p8(b, rc); pprops(b, V5, p); return fixedPkt(0xF0, b); }

// ---------- decoding what the broker sends ----------
struct Prop { unsigned id; uint32_t num; Bytes s, s2; };
struct OutPkt {
    unsigned type = 0, flags = 0; size_t total = 0; Bytes body; bool ok = false; const char *why = "";
    unsigned pid = 0; bool hasPid = false; unsigned rc = 0; Bytes topic, payload; std::vector<Prop> props; Bytes codes; bool sessionPresent = false;
    unsigned qos() const { return flags >> 1 & 3; } bool retain() const { return flags & 1; } bool dup() const { return flags >> 3 & 1; }
    const Prop *prop(unsigned id) const { for (auto &p : props) if (p.id == id) return &p; return nullptr; }
    int count(unsigned id) const { int n = 0; for (auto &p : props) if (p.id == id) n++; return n; }
};
struct Rd { const unsigned char *p; size_t n, i = 0; bool bad = false; unsigned u8() { if (i >= n) { bad = true; return 0; } return p[i++]; } unsigned u16() { unsigned a = u8(); return a << 8 | u8(); } uint32_t u32() { uint32_t a = u16(); return a << 16 | u16(); } uint32_t var() { uint32_t v = 0; for (int k = 0; k < 4; k++) { unsigned b = u8(); v |= (b & 127) << (7 * k); if (!(b & 128)) return v; } bad = true; return 0; } Bytes raw(size_t k) { if (k > n - i) { bad = true; return Bytes(); } Bytes r((const char *)p + i, k); i += k; return r; } Bytes str() { unsigned k = u16(); return raw(k); } size_t left() const { return n - i; } };
// property id -> value kind (1 byte, 2 two byte, 4 four byte, 5 varint, 6 string/binary, 7 pair), and the packets it may appear in (bit per packet type; bit 0: will)
inline int propKind(unsigned id) { switch (id) { case 1: case 23: case 25: case 36: case 37: case 40: case 41: case 42: return 1; case 19: case 33: case 34: case 35: return 2; case 2: case 17: case 24: case 39: return 4; case 11: return 5; case 3: case 8: case 9: case 18: case 21: case 22: case 26: case 28: case 31: return 6; case 38: return 7; } return 0; }
inline bool propAllowed(unsigned id, unsigned type) { // server to client packets
    switch (type) {
    case T_CONNACK: return id == 17 || id == 18 || id == 19 || id == 21 || id == 22 || id == 26 || id == 28 || id == 31 || id == 33 || id == 34 || id == 36 || id == 37 || id == 38 || id == 39 || id == 40 || id == 41 || id == 42;
    case T_PUBLISH: return id == 1 || id == 2 || id == 3 || id == 8 || id == 9 || id == 11 || id == 35 || id == 38;
    case T_PUBACK: case T_PUBREC: case T_PUBREL: case T_PUBCOMP: case T_SUBACK: case T_UNSUBACK: return id == 31 || id == 38;
    case T_DISCONNECT: return id == 28 || id == 31 || id == 38; case T_AUTH: return id == 21 || id == 22 || id == 31 || id == 38; }
    return false; }
inline bool rdProps(Rd &r, OutPkt &o) {
    uint32_t len = r.var(); if (r.bad || len > r.left()) { o.why = "property length"; return false; } size_t end = r.i + len;
    while (r.i < end && !r.bad) { Prop p; p.id = r.var(); p.num = 0; switch (propKind(p.id)) { case 1: p.num = r.u8(); break; case 2: p.num = r.u16(); break; case 4: p.num = r.u32(); break; case 5: p.num = r.var(); break; case 6: p.s = r.str(); break; case 7: p.s = r.str(); p.s2 = r.str(); break; default: o.why = "unknown property"; return false; }
        if (!propAllowed(p.id, o.type)) { o.why = "property not allowed in this packet"; return false; } if (p.id != 38 && p.id != 11 && o.prop(p.id)) { o.why = "property repeated"; return false; } o.props.push_back(p); }
    if (r.bad || r.i != end) { o.why = "properties overrun"; return false; } return true; }
// 0: incomplete, otherwise bytes consumed; o.ok says whether the packet is well-formed for a server to send
inline size_t decodeOut(const unsigned char *p, size_t n, int ver, OutPkt &o) {
    Rd r{p, n}; if (n < 2) return 0; unsigned h = r.u8(); o.type = (unsigned)fsx_concretize(h >> 4); o.flags = h & 15; uint32_t len = 0; int k = 0; while (true) { if (r.i >= n) return 0; unsigned b = (unsigned)fsx_concretize(r.u8()); len |= (b & 127) << (7 * k); k++; if (!(b & 128)) { if (k > 1 && b == 0) { o.why = "remaining length not minimal"; o.total = r.i + len; return n; } break; } if (k == 4) { o.why = "remaining length too long"; return n; } }
    if (r.left() < len) return 0; o.total = r.i + len; o.body = Bytes((const char *)p + r.i, len); Rd b{(const unsigned char *)o.body.data(), len}; bool v5 = ver == V5;
    auto done = [&](bool ok, const char *w = "") { o.ok = ok && !b.bad && b.left() == 0; if (!o.ok && !*o.why) o.why = *w ? w : "body length"; return o.total; };
    switch (o.type) {
    case T_CONNACK: { unsigned f = b.u8(); o.rc = b.u8(); o.sessionPresent = f & 1; if (v5 && !rdProps(b, o)) return done(false); return done(o.flags == 0 && (f & 0xfe) == 0, "connack flags"); }
    case T_PUBLISH: { o.topic = b.str(); if (o.qos() == 3) return done(false, "publish qos 3"); if (o.qos() > 0) { o.pid = b.u16(); o.hasPid = true; if (o.pid == 0) return done(false, "packet id 0"); } else if (o.dup()) return done(false, "dup on qos 0"); if (v5 && !rdProps(b, o)) return done(false); o.payload = b.raw(b.left()); return done(true); }
    case T_PUBACK: case T_PUBREC: case T_PUBREL: case T_PUBCOMP: { o.pid = b.u16(); o.hasPid = true; if (v5 && b.left()) o.rc = b.u8(); if (v5 && b.left() && !rdProps(b, o)) return done(false); return done(o.flags == (o.type == T_PUBREL ? 2u : 0u), "flags"); }
    case T_SUBACK: case T_UNSUBACK: { o.pid = b.u16(); o.hasPid = true; if (v5 && !rdProps(b, o)) return done(false); if (v5 || o.type == T_SUBACK) o.codes = b.raw(b.left()); return done(o.flags == 0, "flags"); }
    case T_PINGRESP: return done(o.flags == 0, "flags");
    case T_DISCONNECT: if (!v5) return done(false, "server disconnect before v5"); if (b.left()) o.rc = b.u8(); if (b.left() && !rdProps(b, o)) return done(false); return done(o.flags == 0, "flags");
    case T_AUTH: if (!v5) return done(false, "auth before v5"); if (b.left()) o.rc = b.u8(); if (b.left() && !rdProps(b, o)) return done(false); return done(o.flags == 0, "flags");
    default: return done(false, "packet type a server never sends"); } }

// ---------- the world: worker threads, clients ----------
struct Conn;
struct World {
    void (*onOpen)(Client &) = nullptr; // the listener's settings for a new client
    Settings settings; std::shared_ptr<PluginLoader> loader; std::vector<std::shared_ptr<ThreadData>> td; int cur = -1;
    World() { settings.allowAnonymous = true; settings.clientInitialBufferSize = 128; }
    void start(int threads = 1) { if (!loader) loader = std::make_shared<PluginLoader>(); for (int i = 0; i < threads; i++) { td.push_back(std::make_shared<ThreadData>(i, settings, loader, std::weak_ptr<MainApp>())); auto l = globals->threadDatas.lock(); l->push_back(td.back()); } use(0); }
    void use(int i) { ThreadGlobals::assignThreadData(td[i]); ThreadGlobals::assignSettings(&td[i]->settingsLocalCopy); cur = i; }
    void pumpOne(int i) { use(i); env_epoll_calls = 0; try { do_thread_work(std::shared_ptr<ThreadData>(td[i])); } catch (EpollExit &) {} }
    void pump() { for (size_t r = 0; r < (td.size() > 1 ? 2 : 1); r++) for (size_t i = 0; i < td.size(); i++) pumpOne(i); }
    std::shared_ptr<SubscriptionStore> store() { return globals->subscriptionStore; }
    void serverPublish(const Bytes &topic, const Bytes &payload, unsigned qos = 0) { use(0); Publish p(topic, payload, qos); td[0]->publishWithAcl(p, true); pump(); }
    void advance(int64_t sec) { env_advance_ms(sec * 1000); }
    int open(int t = 0, ConnectionProtocol proto = ConnectionProtocol::Mqtt, HaProxyMode ha = HaProxyMode::Off) {
        int fd = env_socket(); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(4000); a.sin_addr.s_addr = htonl(0x0a000001);
        auto c = std::make_shared<Client>(ClientType::Normal, fd, td[t], FmqSsl(), proto, ha, (struct sockaddr *)&a, settings); if (onOpen) onOpen(*c); td[t]->giveClient(std::move(c)); pump(); return fd; }
};
struct Conn {
    World *w = nullptr; int fd = -1; int ver = V5; size_t used = 0; std::vector<OutPkt> pk; bool malformed = false; const char *why = ""; size_t biggest = 0;
    void open(World &ww, int v, int t = 0) { w = &ww; ver = v; fd = ww.open(t); }
    void feed(const Bytes &b) { if (env_is_open(fd)) env_feed(fd, b.data(), b.size()); }
    void send(const Bytes &b) { feed(b); w->pump(); poll(); }
    void poll() { while (used < env_out_len(fd)) { OutPkt o; size_t k = decodeOut(env_out(fd) + used, env_out_len(fd) - used, ver, o); if (!k) break; if (!o.ok) { malformed = true; why = o.why; } fsx_assert(o.ok, "C29: broker sent a malformed packet"); if (k > biggest) biggest = k; used += k; pk.push_back(o); } }
    size_t leftover() const { return env_out_len(fd) - used; }
    std::vector<OutPkt> take() { poll(); std::vector<OutPkt> r; r.swap(pk); return r; }
    bool isOpen() const { return env_is_open(fd); }
    void drop() { if (isOpen()) env_peer_close(fd); w->pump(); }
    OutPkt connect(World &ww, const ConnOpt &o, int t = 0) { open(ww, o.ver, t); send(mkConnect(o)); OutPkt x; if (!pk.empty()) { x = pk[0]; pk.erase(pk.begin()); } return x; /* what follows the CONNACK stays for take() */ }
};
inline int countType(const std::vector<OutPkt> &v, unsigned t) { int n = 0; for (auto &p : v) if (p.type == t) n++; return n; }
inline const OutPkt *firstType(const std::vector<OutPkt> &v, unsigned t) { for (auto &p : v) if (p.type == t) return &p; return nullptr; }
// active subscriptions of a client, as the broker itself enumerates them
inline std::vector<SubscriptionForSerializing> subsOf(World &w, const Bytes &id) { std::vector<SubscriptionForSerializing> r; auto m = w.store()->getSubscriptions(); for (auto &p : m) for (auto &s : p.second) if (s.clientId == id) r.push_back(s); return r; }
inline std::vector<Bytes> subTopics(World &w, const Bytes &id) { std::vector<Bytes> r; auto m = w.store()->getSubscriptions(); for (auto &p : m) for (auto &s : p.second) if (s.clientId == id) r.push_back(p.first); return r; }
#define COVER(x) fsx_cover(x)
#define CHECK(c, m) fsx_assert((c), m)
