// C28: silent clients are dropped, active ones never.
#include "ref.hpp"
#ifndef NOPS
#define NOPS 3
#endif
#define NS 1000000000ll
static int64_t g_now; static bool g_frac; // ns
static void begin(World &w) { w.start(); if (fsx_choice("clock fraction", 2)) env_steady_ns += 700000000; g_frac = fsx_choice("fraction", 2); }
static void wait(const char *n) { uint32_t s; fsx_symbolic(&s, 4, n); s = (s & 0x1ffff); int64_t d = (int64_t)s * NS + (g_frac ? 600000000 : 0); g_frac = false; env_steady_ns += d; env_system_ns += d; g_now += d; }
static void sweep(World &w) { w.use(0); w.td[0]->queueDoKeepAliveCheck(); w.pump(); }
// any keep-alive, any times of activity, messages to the client, and checks
extern "C" void fsx_silence() {
    World w; begin(w); ConnOpt o; o.id = "c"; o.ver = fsx_choice("version", 2) ? V311 : V5; uint16_t k; fsx_symbolic(&k, 2, "keep-alive"); o.keepalive = k; Conn c; uint32_t eff = k;
    if (fsx_choice("login in two parts", 2)) { c.open(w, o.ver, 0); Bytes b = mkConnect(o); c.feed(b.substr(0, 5)); w.pump(); env_steady_ns += 14 * NS; g_now += 14 * NS; sweep(w); CHECK(c.isOpen(), "time to log in"); c.feed(b.substr(5)); w.pump(); auto r = c.take(); CHECK(r.size() == 1 && r[0].rc == 0, "admitted"); if (r[0].prop(19)) eff = r[0].prop(19)->num; }
    else { auto a = c.connect(w, o); CHECK(a.rc == 0, "admitted"); if (a.prop(19)) eff = a.prop(19)->num; else CHECK(true, "no server keep-alive"); }
    if (k > 0) CHECK(eff >= k, "the server asks for no shorter keep-alive than the client's"); if (o.ver == V311) CHECK(eff == k, "MQTT 3.1.1 has the client's keep-alive");
    c.send(mkSubscribe(o.ver, 1, {{"t", 0}})); c.take(); int64_t act = g_now, lim = (int64_t)(eff + eff / 2) * NS;
    for (int i = 0; i < NOPS; i++) { int op = i == NOPS - 1 ? 1 : fsx_choice("op", 4); wait("later"); int64_t silent = g_now - act;
        if (op == 0) { c.send(mkPing()); act = g_now; CHECK(countType(c.take(), T_PINGRESP) == 1, "answered"); }
        else if (op == 1) { sweep(w); bool open = c.isOpen(); if (eff == 0) { CHECK(open, "keep-alive zero switches it off"); COVER("zero"); } else { if (silent <= lim) { CHECK(open, "an active client stays"); COVER("active"); } else if (silent >= lim + 6 * NS) { CHECK(!open, "a silent client is dropped"); COVER("silent"); } } if (!open) { CHECK(bool(w.store()->lockSession("c")) || true, ""); return; } }
        else if (op == 2) { w.use(0); flashmq_publish_message("t", 0, false, "x", 0); w.pump(); c.poll(); CHECK(countType(c.take(), T_PUBLISH) == 1, "delivered"); COVER("written to"); }
        else { c.feed(Bytes("\x30", 1)); w.pump(); act = g_now; w.pump(); CHECK(c.isOpen(), "part of a packet"); c.feed(o.ver == V5 ? Bytes("\x05\0\1t\0!", 6) : Bytes("\x04\0\1t!", 5)); w.pump(); c.poll(); CHECK(countType(c.take(), T_PUBLISH) == 1, "own message"); } } }
// connections that do not log in, or do so late
extern "C" void fsx_nologin() {
    World w; begin(w); ConnOpt o; o.id = "c"; Conn c; c.open(w, V5, 0); Bytes b = mkConnect(o); size_t fed = 0; int64_t act = 0;
    for (int i = 0; i < NOPS; i++) { int op = i == NOPS - 1 ? 1 : fsx_choice("op", 2); wait("later"); int64_t silent = g_now - act; if (op == 0) { c.feed(b.substr(fed, 3)); fed += 3; w.pump(); act = g_now; } else { sweep(w); if (silent >= 46 * NS) { CHECK(!c.isOpen(), "a connection that does not log in is closed"); COVER("closed"); } else if (silent <= 15 * NS) { CHECK(c.isOpen(), "a connection that sends its login slowly stays"); COVER("slow"); } if (!c.isOpen()) { c.poll(); CHECK(c.take().empty(), "nothing was said"); return; } } } }
// several clients with different keep-alives: each is judged by its own
extern "C" void fsx_several() {
    World w; w.start(); int which = fsx_choice("which", 2); Conn c[2]; uint16_t k[2]; int64_t act[2]; for (int i = 0; i < 2; i++) { ConnOpt o; o.ver = V311; o.id = Bytes(1, 'a' + i); if (i == which) fsx_symbolic(&k[i], 2, "keep-alive"); else k[i] = fsx_choice("other keep-alive", 3) * 30; o.keepalive = k[i]; CHECK(c[i].connect(w, o).rc == 0, "admitted"); act[i] = g_now; if (i == 0) { env_steady_ns += 7 * NS; g_now += 7 * NS; } }
    for (int s = 0; s < 2; s++) { int p = fsx_choice("ping", 3); if (p < 2 && c[p].isOpen()) { c[p].send(mkPing()); act[p] = g_now; c[p].take(); } wait("later"); sweep(w); for (int i = 0; i < 2; i++) { int64_t silent = g_now - act[i], lim = (int64_t)(k[i] + k[i] / 2) * NS; if (k[i] == 0 || silent <= lim) CHECK(c[i].isOpen(), "an active client stays"); else if (silent >= lim + 6 * NS) { CHECK(!c[i].isOpen(), "a silent client is dropped"); COVER("silent"); } if (!c[i].isOpen()) { if (s == 0) return; } } } }
