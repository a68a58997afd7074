// C30: what the socket receives are whole packets, each once, in order, whatever amounts it accepts.
#include "mqtt.hpp"
#ifndef OPS
#define OPS 4
#endif
struct Want { unsigned type; unsigned qos; Bytes pl; bool mayDrop; };
// any mixture of messages, pings and partial writes
extern "C" void fsx_writes() {
    World w; w.settings.clientInitialBufferSize = 64; w.settings.clientMaxWriteBufferSize = 256; w.start(); int ver = fsx_choice("version", 2) ? V5 : V311; Conn c, p; ConnOpt o; o.id = "c"; o.ver = ver; o.clean = true; c.connect(w, o); c.send(mkSubscribe(ver, 1, {{"t", 1}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); size_t base = c.used; env_set_write_cap(c.fd, 0); std::vector<Want> want; size_t queued = 0;
    Bytes mark = symBytes("mark", OPS); int mx = fsx_choice("largest write", 3);
    if (mx) env_set_write_max(c.fd, mx == 1 ? 1 : 37);
    for (int i = 0; i < OPS; i++) { switch (fsx_choice("op", 5)) {
        case 0: case 1: case 2: { static const size_t L[] = {1, 60, 150}; int k = fsx_choice("size", 3), q = fsx_choice("qos", 2); Bytes pl(L[k], (char)('a' + i)); pl[0] = mark[i]; pl[L[k] - 1] = mark[i]; size_t total = 2 + (L[k] > 110) + 3 + (q ? 2 : 0) + (ver == V5) + L[k]; size_t out = env_out_len(c.fd) - base; bool room = queued - out + total + 8 <= 256; want.push_back({T_PUBLISH, (unsigned)q, pl, q == 0 && !room}); p.send(mkPublish(V5, "t", pl, q, q ? 10 + i : 0)); queued += total; break; }
        case 3: c.feed(mkPing()); w.pump(); want.push_back({T_PINGRESP, 0, "", false}); queued += 2; break;
        default: { static const size_t A[] = {1, 3, 70, 200}; env_add_write_cap(c.fd, A[fsx_choice("accepted", 4)]); w.pump(); } } CHECK(c.isOpen(), "the slow reader stays"); }
    env_set_write_cap(c.fd, SIZE_MAX); for (int i = 0; i < 3; i++) w.pump(); auto r = c.take(); CHECK(c.leftover() == 0, "whole packets only"); CHECK((env_epoll_mask(c.fd) & EPOLLOUT) == 0, "nothing is left to write");
    size_t j = 0; for (auto &x : want) { if (j < r.size() && r[j].type == x.type && (x.type != T_PUBLISH || (r[j].qos() == x.qos && r[j].payload == x.pl))) { j++; COVER("received"); } else { CHECK(x.mayDrop, "nothing is lost but a QoS 0 message for which there is no room"); COVER("dropped"); } } CHECK(j == r.size(), "nothing more, and in order");
    // afterwards everything works as before
    p.send(mkPublish(V5, "t", "end")); auto e = c.take(); CHECK(e.size() == 1 && e[0].payload == "end", "later messages arrive"); }
// a message, any amount accepted, another message and a ping, any amount accepted, a third message
extern "C" void fsx_amounts() {
    World w; w.settings.clientInitialBufferSize = 32; w.settings.clientMaxWriteBufferSize = 128; w.start(); Conn c, p; ConnOpt o; o.id = "c"; c.connect(w, o); c.send(mkSubscribe(V5, 1, {{"t", 1}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); env_set_write_cap(c.fd, 0); Bytes m = symBytes("mark", 3); unsigned char a[2]; fsx_symbolic(a, 2, "accepted"); size_t l1 = fsx_choice("first size", 2) ? 40 : 5, l2 = fsx_choice("second size", 3) * 30; std::vector<Bytes> want; unsigned q = fsx_choice("qos", 2);
    auto msg = [&](int i, size_t len) { Bytes pl(len, 'a' + i); if (len) { pl[0] = m[i]; pl[len - 1] = m[i]; } want.push_back(pl); p.send(mkPublish(V5, "t", pl, q, q ? i + 1 : 0)); };
    msg(0, l1); size_t t1 = env_out_len(c.fd); fsx_assume(a[0] <= l1 + 9); env_add_write_cap(c.fd, (size_t)fsx_concretize(a[0])); w.pump(); CHECK(env_out_len(c.fd) == t1 + a[0] || (env_out_len(c.fd) - t1 == l1 + (q ? 8 : 6)), "as much as the socket takes"); msg(1, l2); c.feed(mkPing()); w.pump(); fsx_assume(a[1] <= l2 + 20); env_add_write_cap(c.fd, (size_t)fsx_concretize(a[1])); w.pump(); msg(2, 3); env_set_write_cap(c.fd, SIZE_MAX); w.pump(); auto r = c.take(); CHECK(c.leftover() == 0, "whole packets"); CHECK(r.size() == 4 && r[2].type == T_PINGRESP, "all of them, in order"); CHECK(r[0].payload == want[0] && r[1].payload == want[1] && r[3].payload == want[2], "unharmed"); COVER("amounts"); }
// a stall of the socket, then the goodbye of the server: what was queued comes first, and the connection ends only when it is written
extern "C" void fsx_goodbye() {
    World w; w.start(); Conn c, p; ConnOpt o; o.id = "c"; c.connect(w, o); c.send(mkSubscribe(V5, 1, {{"t", 0}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); env_set_write_cap(c.fd, 0); Bytes pl = symBytes("payload", 3); p.send(mkPublish(V5, "t", pl)); int why = fsx_choice("why", 2); if (why == 0) { /* taken over */ Conn d; d.connect(w, o); } else c.send(mkPublish(V5, "t", "x", 3)); unsigned char a; fsx_symbolic(&a, 1, "accepted"); fsx_assume(a <= 20); size_t n = (size_t)fsx_concretize(a); for (size_t i = 0; i < n; i++) { env_add_write_cap(c.fd, 1); w.pump(); } env_set_write_cap(c.fd, SIZE_MAX); w.pump(); w.pump(); c.poll(); CHECK(c.leftover() == 0, "whole packets"); auto r = c.take(); CHECK(!c.isOpen(), "closed at last"); if (why == 0) { CHECK(r.size() >= 1 && r[0].type == T_PUBLISH && r[0].payload == pl, "the message first"); CHECK(r.size() == 2 && r[1].type == T_DISCONNECT && r[1].rc == 0x8e, "then the reason"); COVER("taken over"); } else COVER("error"); }
// the socket reports an error while data is waiting
extern "C" void fsx_error() {
    World w; w.start(); Conn c, p, x; ConnOpt o; o.id = "c"; o.props.four(17, 1000); c.connect(w, o); c.send(mkSubscribe(V5, 1, {{"t", 1}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); ConnOpt xo; xo.id = "x"; x.connect(w, xo); x.send(mkSubscribe(V5, 1, {{"t", 1}})); x.take(); static const int E[] = {EPIPE, ECONNRESET, EINTR, EAGAIN, ENOBUFS}; int k = fsx_choice("error", 3); Bytes pl = symBytes("payload", 2); env_set_write_cap(c.fd, fsx_choice("accepted", 6)); p.send(mkPublish(V5, "t", pl, 1, 1)); env_write_error(c.fd, E[k == 2 ? 4 : k]); env_set_write_cap(c.fd, SIZE_MAX); w.pump(); w.pump(); CHECK(!c.isOpen(), "a failed connection is closed"); CHECK(p.isOpen() && x.isOpen(), "only that one"); p.take(); auto rx = x.take(); CHECK(rx.size() == 1 && rx[0].payload == pl, "the others get the message"); p.send(mkPublish(V5, "t", "two", 1, 2)); CHECK(countType(p.take(), T_PUBACK) == 1, "publishing goes on"); ConnOpt o2 = o; o2.clean = false; Conn c2; auto a = c2.connect(w, o2); CHECK(a.sessionPresent, "the session is kept"); auto r = c2.take(); CHECK(r.size() == 2 && r[0].payload == pl && r[1].payload == "two", "and sends the messages again"); COVER("error"); }
// many small packets around the end of the buffer: growth and wrap-around with data waiting
extern "C" void fsx_wrap() {
    World w; w.settings.clientInitialBufferSize = 64; w.start(); Conn c, p; ConnOpt o; o.id = "c"; c.connect(w, o); c.send(mkSubscribe(V5, 1, {{"t", 0}})); c.take(); ConnOpt po; po.id = "p"; p.connect(w, po); size_t skew = fsx_choice("skew", 8) * 9; if (skew) { p.send(mkPublish(V5, "t", Bytes(skew, 's'))); CHECK(c.take().size() == 1, "first"); } env_set_write_cap(c.fd, 0); unsigned char a; fsx_symbolic(&a, 1, "accepted"); fsx_assume((a >= 1) & (a <= 60)); Bytes m = symBytes("mark", 6); std::vector<Bytes> want; for (int i = 0; i < 6; i++) { size_t len = i == 3 ? 1 + fsx_choice("length", 8) * 25 : 12; Bytes pl(len, 'a' + i); pl[len - 1] = m[i]; pl[0] = m[i]; want.push_back(pl); p.send(mkPublish(V5, "t", pl)); env_add_write_cap(c.fd, i == 2 ? (size_t)fsx_concretize(a) : 0); w.pump(); } env_set_write_cap(c.fd, SIZE_MAX); w.pump(); auto r = c.take(); CHECK(r.size() == 6, "all of them"); for (int i = 0; i < 6; i++) CHECK(r[i].payload == want[i], "in order, unharmed"); COVER("wrap"); }
