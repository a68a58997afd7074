// C13: the set of used identifiers, and choosing the next one.
#include "mqtt.hpp"
#include "usedids.h"
#ifndef IOPS
#define IOPS 2
#endif
// any operations on up to 12 identifiers in use, against a plain list; both representations
extern "C" void fsx_set() {
    unsigned base = fsx_choice("in use", 3), top = base ? 511 : 65535; uint16_t x; fsx_symbolic(&x, 2, "probe"); fsx_assume((x > 0) & (x <= top)); bool in = false; UsedIds u; for (unsigned i = 0; i < (base == 2 ? 9u : base == 1 ? 8u : 0u); i++) { uint16_t id = 100 + i * 37; u.insert(id); in |= id == x; }
    for (int i = 0; i < IOPS; i++) { uint16_t id; fsx_symbolic(&id, 2, "id"); fsx_assume((id > 0) & (id <= top)); if (fsx_choice("op", 2)) { u.insert(id); in |= id == x; } else { u.erase(id); in &= id != x; } }
    bool c = u.contains(x); CHECK(c == in, "an identifier is in use exactly when it was claimed and not released"); COVER(c ? "in use" : "free"); if (base == 2) COVER("many"); }
// (almost) all identifiers in use: choosing one terminates and finds the free one
extern "C" void fsx_full() {
    World w; w.settings.maxQosMsgPendingPerClient = 0xffff; w.start(); auto s = std::make_shared<Session>("c", "u", std::optional<std::string>()); s->setSessionProperties(0xffff, 100, false, ProtocolVersion::Mqtt5);
    for (int i = 0; i < 65535; i++) { auto id = s->getNextPacketIdLocked(); if (!id) { CHECK(false, "an identifier is available"); return; } if (i == 0 || i == 40000 || i == 65534) CHECK(*id == i + 1, "identifiers are handed out in order"); }
    CHECK(!s->getNextPacketIdLocked(), "no place left"); s->setSessionProperties(0xffff, 100, false, ProtocolVersion::Mqtt5); // a reconnect: places are available again, identifiers are not
    CHECK(!s->getNextPacketIdLocked(), "no identifier left"); unsigned k = fsx_choice("freed", 5); uint16_t f[5] = {1, 2, 64, 40000, 65535}; s->increaseFlowControlQuotaLocked(f[k]); auto id = s->getNextPacketIdLocked(); CHECK(id && *id == f[k], "the only free identifier is found"); CHECK(!s->getNextPacketIdLocked(), "and only once"); COVER("full"); }
// the counter passes 65535 while some identifiers are still in use
extern "C" void fsx_wrap() {
    World w; w.settings.maxQosMsgPendingPerClient = 0xffff; w.start(); auto s = std::make_shared<Session>("c", "u", std::optional<std::string>()); s->setSessionProperties(0xffff, 100, false, ProtocolVersion::Mqtt5); std::vector<uint16_t> used; uint16_t start; fsx_symbolic(&start, 2, "counter"); unsigned keep = 1 + fsx_choice("kept", 3); { auto q = s->qos.lock(); q->loadNextPacketId(start); }
    for (int i = 0; i < 5; i++) { auto id = s->getNextPacketIdLocked(); CHECK(id.has_value(), "available"); CHECK(*id != 0, "not zero"); for (auto u : used) CHECK(*id != u, "in use by another exchange"); used.push_back(*id); } for (unsigned i = 0; i < keep; i++) { s->increaseFlowControlQuotaLocked(used.front()); used.erase(used.begin()); }
    { auto q = s->qos.lock(); q->nextPacketId = start - 2; } for (int i = 0; i < 4; i++) { auto id = s->getNextPacketIdLocked(); CHECK(id.has_value(), "available"); CHECK(*id != 0, "not zero"); for (auto u : used) CHECK(*id != u, "in use by another exchange"); used.push_back(*id); } COVER("wrapped"); }
