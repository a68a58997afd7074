// C03: the packets acted upon do not depend on how the stream is split over reads.
#include "ref.hpp"
struct Seen { std::vector<OutPkt> a, b; bool open; };
static bool same(const std::vector<OutPkt> &x, const std::vector<OutPkt> &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (x[i].type != y[i].type || x[i].flags != y[i].flags || x[i].body != y[i].body) return false; return true; }
static Seen play(const Bytes &stream, const std::vector<size_t> &cuts, bool pumpBetween) {
    World w; w.start(); Seen r; { Conn o; ConnOpt oo; oo.id = "obs"; o.connect(w, oo); o.send(mkSubscribe(V5, 1, {{"#", 0}})); o.take(); Conn c; c.open(w, V5); size_t at = 0; for (size_t k : cuts) { if (k > at) { c.feed(stream.substr(at, k - at)); at = k; if (pumpBetween) w.pump(); } } c.feed(stream.substr(at)); w.pump(); c.poll(); r.a = c.take(); r.b = o.take(); r.open = c.isOpen(); }
    { auto l = globals->threadDatas.lock(); l->clear(); } globals->subscriptionStore = std::make_shared<SubscriptionStore>(); return r; }
static Bytes conn() { ConnOpt o; o.id = "c"; return mkConnect(o); }
#ifndef CUTS
#define CUTS 2
#endif
// a whole conversation with arbitrary contents, cut at arbitrary places
extern "C" void fsx_conversation() {
    Bytes payload = symBytes("payload", 2); char tc; fsx_symbolic(&tc, 1, "topic"); fsx_assume(tc >= 'a' && tc <= 'z'); Bytes s = conn(); unsigned kind = fsx_choice("kind", 4);
    if (kind == 0) s += mkPublish(V5, Bytes(1, tc), payload, 1, 3) + mkPing(); else if (kind == 1) s += mkSubscribe(V5, 9, {{Bytes("q/") + tc, 1}}) + mkPublish(V5, Bytes("q/") + tc, payload); else if (kind == 2) { Bytes big(130, 'x'); big[129] = payload[0]; s += mkPublish(V5, Bytes(1, tc), big) + mkPing(); } else s += mkPublish(V5, "d/1", payload) + mkDisconnect(V5) + mkPublish(V5, "d/2", payload);
    Seen one = play(s, {}, false); std::vector<size_t> cuts; size_t last = 0; for (int i = 0; i < CUTS; i++) { size_t k = fsx_choice("cut", s.size()); if (k < last) fsx_stop(); last = k; cuts.push_back(k); } Seen two = play(s, cuts, fsx_choice("between", 2));
    CHECK(one.open == two.open, "connection outcome does not depend on segmentation"); if (kind != 3) CHECK(same(one.a, two.a), "answers do not depend on segmentation"); CHECK(same(one.b, two.b), "published messages do not depend on segmentation"); if (kind == 0) CHECK(one.b.size() == 1 && one.b[0].payload == payload && countType(one.a, T_PUBACK) == 1 && countType(one.a, T_PINGRESP) == 1, "every packet acted on once"); if (kind == 2) CHECK(one.b.size() == 1 && countType(one.a, T_PINGRESP) == 1, "large packet acted on once"); if (kind == 3) CHECK(one.b.size() == 1 && one.b[0].topic == "d/1" && !one.open, "nothing acted on after the end"); COVER("played"); }
// nothing is acted on before a packet is complete
extern "C" void fsx_prefix() {
    World w; w.start(); Conn o; ConnOpt oo; oo.id = "obs"; o.connect(w, oo); o.send(mkSubscribe(V5, 1, {{"#", 0}})); o.take(); Conn c; ConnOpt co; c.connect(w, co); Bytes pk = mkPublish(V5, "t", symBytes("payload", 3), 1, 7); size_t n = fsx_choice("bytes", pk.size() + 1);
    c.send(pk.substr(0, n)); auto d = o.take(); auto r = c.take(); bool whole = n == pk.size(); CHECK(countType(d, T_PUBLISH) == (whole ? 1 : 0) && countType(r, T_PUBACK) == (whole ? 1 : 0), "acted on exactly when complete"); CHECK(c.isOpen(), "an incomplete packet keeps the connection open"); if (!whole) { c.send(pk.substr(n)); CHECK(countType(o.take(), T_PUBLISH) == 1 && countType(c.take(), T_PUBACK) == 1, "acted on once completed"); } COVER("done"); }
// the length limit, for any announced length
extern "C" void fsx_oversize() {
    World w; w.settings.maxPacketSize = 1000; w.start(); Conn c; ConnOpt co; c.connect(w, co); Bytes h = symBytes("len", 4); Bytes s = Bytes("\xC0", 1) + h; c.send(s); uint64_t len = 0; unsigned k = 0; bool bad = true; for (; k < 4; k++) { unsigned char b = h[k]; len |= (uint64_t)(b & 127) << (7 * k); if (!(b & 128)) { bad = false; break; } } if (bad) { CHECK(!c.isOpen(), "malformed length closes"); COVER("malformed"); return; }
    uint64_t total = 2 + k + len; if (total > 1000) { CHECK(!c.isOpen(), "too large a length closes"); CHECK(countType(c.take(), T_PINGRESP) == 0, "not acted on"); COVER("too large"); } else if (total > 5) { CHECK(c.isOpen(), "a length within the limit keeps the connection open"); COVER("within"); } }
// many bytes at once, more than the receive buffer holds
extern "C" void fsx_burst() {
    World w; w.settings.clientInitialBufferSize = 128; w.start(); Conn o; ConnOpt oo; oo.id = "obs"; o.connect(w, oo); o.send(mkSubscribe(V5, 1, {{"#", 0}})); o.take(); Conn c; ConnOpt co; c.connect(w, co); Bytes all; Bytes tags = symBytes("tags", 6); unsigned sz[3] = {0, 20, 60}; unsigned z = sz[fsx_choice("size", 3)]; for (int i = 0; i < 6; i++) all += mkPublish(V5, "t", Bytes(z, 'p') + tags[i]); size_t cut = fsx_choice("cut", 8) * all.size() / 8; if (cut) c.feed(all.substr(0, cut)); c.feed(all.substr(cut)); w.pump(); auto d = o.take(); CHECK(countType(d, T_PUBLISH) == 6, "all packets acted on once"); for (int i = 0; i < 6; i++) CHECK(d[i].payload == Bytes(z, 'p') + tags[i], "in order with their contents"); COVER("burst"); }
// packets whose length takes one to three bytes, cut at the start and at the end
extern "C" void fsx_sizes() {
    static const size_t lens[5] = {127, 128, 129, 16383, 16384}; World w; w.start(); Conn o; ConnOpt oo; oo.id = "obs"; o.connect(w, oo); o.send(mkSubscribe(V5, 1, {{"#", 0}})); o.take(); Conn c; ConnOpt co; c.connect(w, co); size_t n = lens[fsx_choice("remaining length", 5)]; Bytes tags = symBytes("tags", 3); Bytes body = Bytes(n - 4 - 3, 'p') + tags; Bytes pk = mkPublish(V5, "t", body); unsigned k = fsx_choice("cut", 12); size_t cut = k < 6 ? k : pk.size() - (k - 5); bool more = fsx_choice("more", 2);
    c.send(pk.substr(0, cut)); CHECK(countType(o.take(), T_PUBLISH) == 0, "not acted on before it is complete"); c.send(pk.substr(cut) + (more ? mkPublish(V5, "u", tags) : Bytes())); auto d = o.take(); CHECK(d.size() == (more ? 2u : 1u) && d[0].payload == body && d[0].topic == "t", "acted on once, complete"); if (more) CHECK(d[1].topic == "u" && d[1].payload == tags, "and so is the next packet"); CHECK(c.isOpen(), "the connection stays open"); COVER("cut"); }
