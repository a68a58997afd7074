// C35: MQTT over WebSocket frames is the same as MQTT over a plain connection.
#include "ws.hpp"
static Bytes session(const Bytes &pl) { ConnOpt o; o.id = "a"; return mkConnect(o) + mkSubscribe(V5, 1, {{"t", 0}}) + mkPublish(V5, "t", pl, 1, 2); }
static void expectSession(WsConn &c, const Bytes &pl, const char *what) { auto r = c.take(); CHECK(r.size() == 4 && r[0].type == T_CONNACK && r[1].type == T_SUBACK, what); int np = 0, na = 0; for (auto &o : r) { if (o.type == T_PUBLISH && o.topic == "t" && o.payload == pl) np++; if (o.type == T_PUBACK && o.pid == 2) na++; } CHECK(np == 1 && na == 1, what); CHECK(c.isOpen(), "still open"); }
// split into frames and into segments, masked or not, empty frames and pings in between
extern "C" void fsx_frames() {
    World w; w.start(); WsConn c; c.open(w, V5); c.upgrade(); Bytes pl = symBytes("payload", 2); Bytes s = session(pl); Bytes raw; size_t pings = 0; Bytes pp = symBytes("ping", 2); size_t f = fsx_choice("frame end", 12) * s.size() / 11; int between = fsx_choice("between", 4); Bytes k1 = symKey(), k2 = symKey(); raw += wsFrame(0x82, s.substr(0, f), k1); if (between == 1) raw += wsFrame(0x82, "", k1); if (between == 2) { raw += wsFrame(0x89, pp, k2); pings = 1; } if (between == 3) raw += wsFrame(0x8A, pp, k2); raw += wsFrame(0x82, s.substr(f), k2);
    size_t cut = fsx_choice("cut", raw.size() + 1); bool wake = fsx_choice("woken in between", 2); c.feed(raw.substr(0, cut)); if (wake) w.pump(); c.feed(raw.substr(cut)); w.pump(); c.poll(); expectSession(c, pl, "the bytes of the frames, whatever the framing"); CHECK(c.pongs.size() == pings && (!pings || c.pongs[0] == pp), "a ping is answered with its payload"); COVER("frames"); }
// byte by byte
extern "C" void fsx_drip() { World w; w.start(); WsConn c; c.open(w, V5); Bytes q = wsRequest(); for (char x : q) c.feed(Bytes(1, x)); w.pump(); c.poll(); CHECK(c.upgraded, "upgraded"); Bytes pl = symBytes("payload", 2), k = symKey(); size_t per = 1 + fsx_choice("frame size", 3) * 4; Bytes s = session(pl), raw; for (size_t i = 0; i < s.size(); i += per) raw += wsFrame(0x82, s.substr(i, per), k); for (char x : raw) { c.feed(Bytes(1, x)); if (fsx_choice("each alone", 1) == 0) w.pump(); } w.pump(); expectSession(c, pl, "byte by byte"); COVER("drip"); }
// every first byte and every length code
extern "C" void fsx_control() {
    World w; w.start(); WsConn c; c.open(w, V5); c.upgrade(); Bytes pl = symBytes("payload", 1); c.raw(wsFrame(0x82, session(pl), symBytes("key", 4))); c.take(); size_t n = fsx_choice("bytes", 5); Bytes body = symBytes("body", n), key = symKey(); unsigned char first; fsx_symbolic(&first, 1, "first byte"); if ((first & 15) == 2) { body = mkPing(); n = 2; } int form = fsx_choice("length form", 3); c.raw(wsFrame(first, body, key, form)); unsigned op = first & 15, rsv = first & 0x70; auto r = c.take();
    if ((rsv != 0) | (op == 0) | (op == 1) | ((op > 2) & (op < 8)) | (op > 10)) { CHECK(!c.isOpen(), "other frames close the connection"); CHECK(countType(r, T_PINGRESP) == 0 && c.pongs.empty(), "and have no effect"); COVER("closed"); return; }
    if (op == 8) { CHECK(!c.isOpen(), "a close frame ends it"); COVER("close frame"); return; } CHECK(c.isOpen(), "stays open"); if (op == 2) { CHECK(r.size() == 1 && r[0].type == T_PINGRESP, "binary data"); COVER("binary"); } if (op == 9) { CHECK(c.pongs.size() == 1 && c.pongs[0] == body && r.empty(), "a ping is answered with its payload"); COVER("ping"); } if (op == 10) { CHECK(c.pongs.empty() && r.empty(), "a pong is ignored"); COVER("pong"); } c.raw(wsFrame(0x82, mkPing(), key)); r = c.take(); CHECK(r.size() == 1 && r[0].type == T_PINGRESP, "and it goes on"); }
// payload sizes around the length encodings, in and out
extern "C" void fsx_sizes() {
    World w; w.start(); WsConn c; c.open(w, V5); c.upgrade(); static const size_t S[] = {100, 113, 114, 115, 116, 117, 118, 119, 120, 125, 126, 127, 128, 130, 250, 65500, 65526, 65527, 65530, 65535, 65536}; size_t n = S[fsx_choice("size", sizeof S / sizeof *S)]; Bytes e = n < 1000 ? symBytes("edge", 2) : Bytes("ab"), key = n < 1000 ? symBytes("key", 4) : Bytes(); Bytes pl(n, 'x'); pl[0] = e[0]; pl[n - 1] = e[1]; c.raw(wsFrame(0x82, session("z"), key)); c.take(); Bytes pub = mkPublish(V5, "t", pl); int form = fsx_choice("length form", 3); if (form == 1 && pub.size() > 65535) return; size_t cut = fsx_choice("cut", n < 1000 ? 12 : 1); if (n > 1000 && form) return; Bytes f = wsFrame(0x82, pub, n < 1000 ? key : Bytes(), form); c.feed(f.substr(0, cut)); w.pump(); c.feed(f.substr(cut)); w.pump(); auto r = c.take(); CHECK(r.size() == 1 && r[0].type == T_PUBLISH && r[0].payload == pl, "any size, both ways"); COVER("sizes"); }
// what the socket accepts per write does not matter
extern "C" void fsx_out() {
    World w; w.start(); WsConn c; c.open(w, V5); c.upgrade(); Bytes key = symBytes("key", 4); c.raw(wsFrame(0x82, session("z"), key)); c.take(); Conn p; ConnOpt o; o.id = "p"; p.connect(w, o); env_set_write_cap(c.fd, 0); Bytes pp = symBytes("ping", 2); std::vector<Bytes> want; int n = 2; for (int i = 0; i < n; i++) { size_t len = fsx_choice("size", 3) * 60 + 1; Bytes pl(len, 'a' + i); pl[0] = symBytes("payload", 1)[0]; want.push_back(pl); p.send(mkPublish(V5, "t", pl)); env_add_write_cap(c.fd, fsx_choice("accepted", 5) * 7); w.pump(); if (i == 0) { c.feed(wsFrame(0x89, pp, key)); w.pump(); } c.poll(); } int mx = fsx_choice("largest write", 3); if (mx) env_set_write_max(c.fd, mx * 11); env_set_write_cap(c.fd, SIZE_MAX); for (int i = 0; i < 3; i++) w.pump(); auto r = c.take(); CHECK(r.size() == want.size(), "everything arrives"); for (size_t i = 0; i < r.size(); i++) CHECK(r[i].payload == want[i], "in order and intact"); CHECK(c.pongs.size() == 1 && c.pongs[0] == pp, "the pong too"); CHECK(c.used == env_out_len(c.fd) && c.mused == c.mqtt.size(), "and nothing else"); COVER("out"); }
// everything sent before the peer closes its side is received
extern "C" void fsx_fin() {
    World w; w.start(); Conn x; ConnOpt o; o.id = "x"; x.connect(w, o); x.send(mkSubscribe(V5, 1, {{"t", 0}, {"w", 0}})); x.take(); WsConn c; c.open(w, V5); c.upgrade(); ConnOpt a; a.id = "a"; a.will = true; a.willTopic = "w"; a.willPayload = "lost"; Bytes key = symKey(); c.raw(wsFrame(0x82, mkConnect(a), key)); c.take(); Bytes e = symBytes("edge", 2); int n = 1 + fsx_choice("messages", 3); size_t len = 1 + fsx_choice("size", 4) * 70; bool one = fsx_choice("in one frame", 2); Bytes s, raw; for (int i = 0; i < n; i++) { Bytes pl(len, 'x'); pl[0] = e[0]; Bytes m = mkPublish(V5, "t", pl); if (one) s += m; else raw += wsFrame(0x82, m, key); } bool bye = fsx_choice("says goodbye", 2); if (bye) { if (one) s += mkDisconnect(V5); else raw += wsFrame(0x82, mkDisconnect(V5), key); } if (one) raw += wsFrame(0x82, s, key); if (fsx_choice("close frame", 2)) raw += wsFrame(0x88, Bytes("\x03\xe8", 2), key); c.feed(raw); env_peer_close(c.fd); w.pump(); x.poll(); auto r = x.take(); int np = 0, nw = 0; for (auto &q : r) { if (q.topic == "t") { np++; CHECK(q.payload.size() == len && q.payload[0] == e[0], "intact"); } if (q.topic == "w") nw++; } CHECK(np == n, "everything sent before the end is received"); CHECK(nw == (bye ? 0 : 1), "and the goodbye is"); CHECK(!c.isOpen(), "closed"); COVER("fin"); }
// pings in a row while the socket accepts nothing
extern "C" void fsx_pings() {
    World w; w.settings.clientMaxWriteBufferSize = 1024; w.start(); WsConn c; c.open(w, V5); c.upgrade(); Bytes key = symBytes("key", 4); c.raw(wsFrame(0x82, session("z"), key)); c.take(); env_set_write_cap(c.fd, 0); std::vector<Bytes> want; int n = 3; for (int i = 0; i < n; i++) { static const size_t S[] = {0, 1, 53, 115, 116, 117, 125, 241}; Bytes b(S[fsx_choice("size", 8)], 'x'); if (!b.empty()) b[0] = symBytes("ping", 1)[0]; want.push_back(b); c.raw(wsFrame(0x89, b, key)); } env_set_write_cap(c.fd, SIZE_MAX); w.pump(); w.pump(); c.poll(); CHECK(c.isOpen(), "open"); CHECK(c.pongs.size() == want.size(), "each ping is answered"); for (size_t i = 0; i < c.pongs.size() && i < want.size(); i++) CHECK(c.pongs[i] == want[i], "with its payload"); COVER("pings"); }
// a frame that announces length zero in the long form
extern "C" void fsx_zero() { World w; w.start(); WsConn c; c.open(w, V5); c.upgrade(); Bytes key = symKey(); int form = 1 + fsx_choice("form", 2); Bytes pl = symBytes("payload", 1); c.raw(wsFrame(0x82, "", key, form) + wsFrame(0x82, session(pl), key)); expectSession(c, pl, "an empty frame is empty in every length form"); COVER("zero"); }
// the answer to the handshake reaches the peer whole, whatever the socket accepts at first
extern "C" void fsx_answer() { World w; w.start(); WsConn c; c.open(w, V5); size_t cap = fsx_choice("accepted at first", 6) * 40; env_set_write_cap(c.fd, cap); int mx = fsx_choice("largest write", 3); if (mx) env_set_write_max(c.fd, mx * 50); c.feed(wsRequest()); w.pump(); env_set_write_cap(c.fd, SIZE_MAX); w.pump(); w.pump(); c.poll(); CHECK(c.upgraded, "upgraded"); CHECK(c.used == env_out_len(c.fd), "and nothing else was sent"); size_t h = 0; for (char x : c.head) { h += x == '\n'; CHECK((x >= 0x20 && x < 0x7f) || x == '\r' || x == '\n', "nothing but the answer"); } CHECK(h == 6, "the whole answer"); Bytes pl = symBytes("payload", 1); c.raw(wsFrame(0x82, session(pl), Bytes())); expectSession(c, pl, "then it works"); COVER("answer"); }
