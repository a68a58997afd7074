// C18: the store of pending messages, against a list.
#include "ref.hpp"
#include "qospacketqueue.h"
#ifndef OPS
#define OPS 4
#endif
// identifiers that share hash buckets and some that do not
static bool small(uint16_t id) { return (id <= 2) | (id == 14) | (id == 27) | (id == 65535); }
struct Rq { uint16_t id; size_t bytes; int n; bool exp; uint32_t at; };
extern "C" void fsx_queue() {
    QoSPublishQueue q; std::vector<Rq> ref; uint32_t now = 0; bool useExp = fsx_choice("expiring", 2);
    auto check = [&]() { CHECK(q.size() == ref.size(), "number of pending messages"); size_t b = 0; for (auto &r : ref) b += r.bytes; CHECK(q.getByteSize() == b, "bytes pending"); auto t = q.getTail(); for (auto &r : ref) { CHECK(t != nullptr, "message missing"); CHECK(t->getPacketId() == r.id && t->getPublish().payload.size() && t->getPublish().payload[0] == 'A' + r.n, "message in its place"); t = t->next.lock(); } CHECK(!t, "no further message"); };
    for (int i = 0; i < OPS; i++) { unsigned op = fsx_choice("op", useExp ? 3 : 2);
        if (op == 0) { uint16_t id; fsx_symbolic(&id, 2, "id"); bool dup = false; for (auto &r : ref) dup |= r.id == id; fsx_assume((id != 0) & small(id) & !dup); unsigned len = fsx_choice("length", 2); Publish p("top", Bytes(1, 'A' + i) + Bytes(len * 5, 'x'), 1); Rq r{id, 4 + len * 5, i, false, 0}; if (useExp) { r.exp = true; uint32_t e; fsx_symbolic(&e, 4, "expiry"); fsx_assume(e > 0 && e < 1000); p.setExpireAfter(e); r.at = now + e; } q.queuePublish(std::move(p), id, std::optional<std::string>()); ref.push_back(r); COVER("filed"); }
        else if (op == 1) { uint16_t id; fsx_symbolic(&id, 2, "erase id"); fsx_assume(small(id)); bool r = q.erase(id); size_t k = 0; while (k < ref.size() && ref[k].id != id) k++; CHECK(r == (k < ref.size()), "erase says whether it was there"); if (r) { ref.erase(ref.begin() + k); COVER("erased"); } else COVER("not there"); }
        else { uint32_t d; fsx_symbolic(&d, 4, "wait"); fsx_assume(d < 2000); now += d; env_advance_ms((int64_t)d * 1000); auto gone = q.clearExpiredMessages(); size_t left = 0; std::vector<Rq> keep; for (auto &r : ref) if (r.exp && r.at <= now) { if (r.at == now) { bool in = false; for (auto g : gone) if (g == r.id) { in = true; break; } if (!in) { keep.push_back(r); continue; } } bool in = false; for (auto g : gone) if (g == r.id) { in = true; break; } CHECK(in, "an expired message stays"); left++; } else keep.push_back(r); CHECK(gone.size() == left, "only expired messages are removed"); ref.swap(keep); COVER("cleared"); }
        check(); }
    for (size_t i = ref.size(); i-- > 0;) { CHECK(q.erase(ref[i].id), "every message can be erased"); ref.erase(ref.begin() + i); check(); } }
// the limits on messages and bytes for a client that is away
extern "C" void fsx_limits() {
    World w; unsigned maxn = fsx_range("message limit", 1, 5), maxb = fsx_range("byte limit", 1, 40); w.settings.maxQosMsgPendingPerClient = maxn; w.settings.maxQosBytesPendingPerClient = maxb; w.start(); ConnOpt so; so.id = "s"; so.props.four(17, 1000); Conn s; s.connect(w, so); s.send(mkSubscribe(V5, 1, {{"t", 1}})); s.take(); unsigned rm = 65535; if (fsx_choice("own limit", 2)) { rm = fsx_range("receive maximum", 1, 5); so.props.two(33, rm); s.drop(); so.clean = false; s = Conn(); s.connect(w, so); } s.drop(); so.clean = false;
    ConnOpt po; po.id = "p"; Conn p; p.connect(w, po); unsigned bytes = 0, count = 0; std::vector<Bytes> want; for (int i = 0; i < OPS; i++) { unsigned len = 1 + 9 * fsx_choice("length", 2); Bytes pl(len, 'a' + i); p.send(mkPublish(V5, "t", pl, 1, 1 + i)); CHECK(countType(p.take(), T_PUBACK) == 1, "the publisher gets its answer"); if ((bytes < maxb || count == 0) && count < maxn && count < rm) { bytes += 1 + len; count++; want.push_back(pl); COVER("kept"); } else COVER("dropped"); }
    so.props = Props(); so.props.four(17, 1000); s = Conn(); s.open(w, V5); s.send(mkConnect(so)); auto r = s.take(); size_t j = 0; for (auto &o : r) if (o.type == T_PUBLISH) { CHECK(j < want.size() && o.payload == want[j], "messages kept within the limits, in order"); j++; } CHECK(j == want.size(), "every message within the limits"); }
