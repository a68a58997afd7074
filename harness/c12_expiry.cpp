// C12: message expiry.
#include "ref.hpp"
#define NS 1000000000ll
static void symAdvance(uint32_t s) { env_steady_ns += (int64_t)s * NS; env_system_ns += (int64_t)s * NS; }
static void check(const OutPkt *d, uint32_t e, uint32_t waited, const char *what) {
    (void)what; if (waited > e) { CHECK(!d, "a message is not delivered after its expiry interval"); COVER("expired"); return; } if (waited == e && !d) return;
    CHECK(d != nullptr, "a message is delivered before its expiry interval has passed"); CHECK(d->prop(2) && d->prop(2)->num == e - waited, "the interval carried is the original minus the waiting time"); COVER("delivered"); }
static const OutPkt *byPayload(const std::vector<OutPkt> &v, const Bytes &p) { for (auto &d : v) if (d.type == T_PUBLISH && d.payload == p) return &d; return nullptr; }
static uint32_t symSeconds(const char *n) { uint32_t v; fsx_symbolic(&v, 4, n); fsx_assume(v <= 1000000); return v; }
// queued for an offline client
extern "C" void fsx_queued() {
    World w; w.start(); Conn s, p; ConnOpt o; o.id = "s"; o.props.four(17, 0xffffffff); s.connect(w, o); ConnOpt po; po.id = "p"; p.connect(w, po); s.send(mkSubscribe(V5, 1, {{"t", 1}})); s.drop(); uint32_t e; fsx_symbolic(&e, 4, "expiry"); fsx_assume(e > 0); Props pp; pp.four(2, e); p.send(mkPublish(V5, "t", "m1", 1, 1, false, false, pp)); uint32_t t1 = symSeconds("wait"); symAdvance(t1);
    bool more = fsx_choice("more", 2); if (more) p.send(mkPublish(V5, "t", "m2", 1, 2)); o.clean = false; Conn s2; CHECK(s2.connect(w, o).sessionPresent, "session kept"); auto r = s2.take(); check(byPayload(r, "m1"), e, t1, "queued"); if (more) CHECK(byPayload(r, "m2") && !byPayload(r, "m2")->prop(2), "a message without expiry is delivered without one"); }
// retained
extern "C" void fsx_retained() {
    World w; uint32_t ceil = 0x7fffffff; if (fsx_choice("limit", 2)) { fsx_symbolic(&ceil, 4, "configured"); fsx_assume(ceil > 0 && ceil <= 0x7fffffff); } w.settings.expireRetainedMessagesAfterSeconds = std::chrono::seconds(ceil); w.start(); Conn s, p; ConnOpt o; o.id = "s"; s.connect(w, o); o.id = "p"; p.connect(w, o); uint32_t e; fsx_symbolic(&e, 4, "expiry"); fsx_assume(e > 0); Props pp; pp.four(2, e); p.send(mkPublish(V5, "t", "m", 0, 0, true, false, pp)); uint32_t t1 = symSeconds("wait"); symAdvance(t1); if (fsx_choice("maintenance", 2)) { w.use(0); w.store()->expireRetainedMessages(); } s.send(mkSubscribe(V5, 1, {{"#", 0}})); auto r = s.take(); check(byPayload(r, "m"), e < ceil ? e : ceil, t1, "retained"); }
// a message delivered at once, and again after a reconnect
extern "C" void fsx_resend() {
    World w; w.start(); Conn s, p; ConnOpt o; o.id = "s"; o.props.four(17, 0xffffffff); s.connect(w, o); ConnOpt po; po.id = "p"; p.connect(w, po); s.send(mkSubscribe(V5, 1, {{"t", 1}})); s.take(); uint32_t e; fsx_symbolic(&e, 4, "expiry"); fsx_assume(e > 0); Props pp; pp.four(2, e); p.send(mkPublish(V5, "t", "m", 1, 1, false, false, pp)); auto r = s.take(); check(byPayload(r, "m"), e, 0, "direct"); s.drop(); uint32_t t1 = symSeconds("wait"); symAdvance(t1); o.clean = false; Conn s2; s2.connect(w, o); r = s2.take(); check(byPayload(r, "m"), e, t1, "resent"); }
// a will's interval starts when the will is published
extern "C" void fsx_will() {
    World w; w.start(); Conn s, s3, p; ConnOpt o; o.id = "s"; o.props.four(17, 0xffffffff); s.connect(w, o); s.send(mkSubscribe(V5, 1, {{"t", 1}})); s.take(); bool off = fsx_choice("offline", 2); if (off) s.drop(); uint32_t e; fsx_symbolic(&e, 4, "expiry"); fsx_assume(e > 0); ConnOpt wo; wo.id = "w"; wo.will = true; wo.willTopic = "t"; wo.willPayload = "will"; wo.willQos = 1; wo.willProps.four(2, e); p.connect(w, wo); uint32_t before = symSeconds("connected"); symAdvance(before); p.drop(); w.pump();
    if (!off) { auto r = s.take(); check(byPayload(r, "will"), e, 0, "will"); } else { uint32_t t1 = symSeconds("wait"); symAdvance(t1); o.clean = false; Conn s2; s2.connect(w, o); auto r = s2.take(); check(byPayload(r, "will"), e, t1, "queued will"); } COVER("will"); }
