// C01: arbitrary bytes from a peer. The engine itself reports any access outside an object or to freed memory, aborts and endless loops; the harness checks that everybody else is unharmed.
#include "ref.hpp"
#ifndef NP
#define NP 6
#endif
#ifndef LEN
#define LEN 5
#endif
static void others(World &w, Conn &x) { if (!x.w) return; x.take(); Conn y; ConnOpt o; o.id = "another observer"; auto a = y.connect(w, o); CHECK(a.type == T_CONNACK && a.rc == 0, "others can still log in"); y.send(mkPublish(V5, "o/k", "fine", 1, 9)); CHECK(countType(y.take(), T_PUBACK) == 1, "others can still publish"); auto r = x.take(); bool got = false; for (auto &p : r) got |= p.type == T_PUBLISH && p.payload == "fine"; CHECK(got && x.isOpen(), "others still receive"); }
static void watch(World &w, Conn &x) { ConnOpt o; o.id = "the observer"; o.keepalive = 60000; x.connect(w, o); x.send(mkSubscribe(V5, 1, {{"o/k", 0}})); x.take(); }
static void finish(World &w, Conn &c, Conn &x) { COVER(c.isOpen() ? "survived" : "closed"); c.drop(); w.advance(20000); w.td[0]->queueSendingQueuedWills(); w.td[0]->queueRemoveExpiredSessions(); w.pump(); others(w, x); }
// one packet of any type with any flags and any body, before or after login
extern "C" void fsx_packet() {
    World w; w.start(); Conn x; watch(w, x); unsigned state = fsx_choice("state", 4); int ver = state == 2 ? V311 : state == 3 ? V31 : V5; Conn c; ConnOpt o; o.ver = ver; if (state == 0) c.open(w, V5); else { c.connect(w, o); c.send(mkSubscribe(ver, 1, {{"s", 2}})); c.take(); }
    unsigned type = fsx_choice("type", 16); uint8_t fl; fsx_symbolic(&fl, 1, "flags"); unsigned n = fsx_choice("length", LEN + 1); Bytes b; p8(b, type << 4 | (fl & 15)); p8(b, n); b += symBytes("body", n); c.send(b); finish(w, c, x); }
// a well-formed beginning, then arbitrary bytes in the properties and in the rest (lengths included)
static Bytes tail(const char *props, unsigned np, const char *rest, unsigned nr) { return symBytes(props, np) + symBytes(rest, nr); }
extern "C" void fsx_connect() {
    World w; w.start(); Conn x; watch(w, x); unsigned ver = 3 + fsx_choice("version", 3); Conn c; c.open(w, ver); Bytes b; pstr(b, ver == V31 ? "MQIsdp" : "MQTT"); p8(b, ver); uint8_t fl; fsx_symbolic(&fl, 1, "flags"); p8(b, fl); b += symBytes("keep alive", 2); unsigned form = fsx_choice("form", 3); unsigned np = form == 0 ? fsx_choice("property bytes", NP + 1) : 0;
    if (ver == V5) { if (form == 0) { uint8_t pl; fsx_symbolic(&pl, 1, "property length"); p8(b, pl); b += symBytes("properties", np); } else p8(b, 0); } if (form == 0) { pstr(b, "c"); if (fl & 4) { if (ver == V5) p8(b, 0); pstr(b, "w"); pstr(b, "W"); } if (fl & 128) pstr(b, "u"); if (fl & 64) pstr(b, "p"); }
    else if (form == 1) b += symBytes("rest", fsx_choice("length", LEN + 1)); else { pstr(b, "c"); if (ver == V5) { uint8_t pl; fsx_symbolic(&pl, 1, "will property length"); p8(b, pl); } b += symBytes("will", fsx_choice("length", LEN + 1)); } c.send(fixedPkt(0x10, b)); finish(w, c, x); }
extern "C" void fsx_properties() {
    World w; w.settings.expireSessionsAfterSeconds = 100000; w.start(); Conn x; watch(w, x); unsigned k = fsx_choice("packet", 9); Conn c; ConnOpt o; o.props.two(34, 3); if (k == 8) o.props.str(21, "m"); o.hasUser = false; c.connect(w, o); if (k != 8) { c.send(mkSubscribe(V5, 1, {{"s", 2}})); c.take(); } uint8_t pl, pl2; fsx_symbolic(&pl, 1, "property length"); Bytes pr = symBytes("properties", fsx_choice("property bytes", NP + 1)), b; unsigned first = 0; (void)pl2;
    switch (k) { case 0: { uint8_t fl; fsx_symbolic(&fl, 1, "flags"); first = 0x30 | (fl & 15); pstr(b, fsx_choice("topic", 2) ? "s" : ""); if (fl & 6) p16(b, 7); p8(b, pl); b += pr; b += symBytes("payload", 1); break; } case 1: first = 0x82; p16(b, 7); p8(b, pl); b += pr; pstr(b, "s"); b += symBytes("options", 1); break; case 2: first = 0xA2; p16(b, 7); p8(b, pl); b += pr; pstr(b, "s"); break; case 3: first = 0x40; p16(b, 7); b += symBytes("reason", 1); p8(b, pl); b += pr; break; case 4: first = 0x50; p16(b, 7); b += symBytes("reason", 1); p8(b, pl); b += pr; break; case 5: first = 0x62; p16(b, 7); b += symBytes("reason", 1); p8(b, pl); b += pr; break; case 6: first = 0x70; p16(b, 7); b += symBytes("reason", 1); p8(b, pl); b += pr; break; case 7: first = 0xE0; b += symBytes("reason", 1); p8(b, pl); b += pr; break; case 8: first = 0xF0; b += symBytes("reason", 1); p8(b, pl); b += pr; break; }
    c.send(fixedPkt(first, b)); finish(w, c, x); }
// SUBSCRIBE and UNSUBSCRIBE with arbitrary filters, shared ones included
extern "C" void fsx_filters() {
    World w; w.start(); Conn x; watch(w, x); int ver = fsx_choice("version", 2) ? V5 : V311; Conn c; ConnOpt o; o.ver = ver; c.connect(w, o); bool un = fsx_choice("unsubscribe", 2); Bytes pre = fsx_choice("shared", 2) ? "$share" : ""; Bytes b; p16(b, 7); if (ver == V5) p8(b, 0); uint8_t len; fsx_symbolic(&len, 1, "filter length"); unsigned n = fsx_choice("bytes", LEN + 1); p8(b, 0); p8(b, len); b += pre + symBytes("filter", n); if (!un) b += symBytes("options", 1); c.send(fixedPkt(un ? 0xA2 : 0x82, b)); c.take(); if (c.isOpen()) { c.send(mkPublish(ver, "s/t", "P", 1, 8)); c.take(); } finish(w, c, x); }
