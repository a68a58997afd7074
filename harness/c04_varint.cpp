// C04: variable byte integers.
#include "mqtt.hpp"
#include "variablebyteint.h"
#include "mqttpacket.h"
#include "utils.h"
// every 32-bit value: refused exactly above the maximum, otherwise shortest form that decodes to itself
extern "C" void fsx_varint() {
    uint32_t v = fsx_sym<uint32_t>("value"); VariableByteInt vbi; bool thrown = false;
    try { vbi = v; } catch (std::exception &) { thrown = true; }
    CHECK(thrown == (v > 268435455u), "exactly the values above 268435455 are refused");
    if (thrown) { COVER("refused"); return; }
    uint32_t w = 0, len = (uint32_t)fsx_concretize(vbi.getLen()); CHECK(len >= 1 && len <= 4, "one to four bytes"); CHECK(vbi.size() == len && vbi.end() - vbi.begin() == (long)len, "size agrees");
    for (uint32_t i = 0; i < len; i++) { unsigned char b = vbi.data()[i]; w |= (uint32_t)(b & 127) << (7 * i); CHECK((b >= 128) == (i + 1 < len), "continuation bit on all bytes but the last"); }
    CHECK(w == v, "decodes back to the value"); CHECK(len == 1 || vbi.data()[len - 1] != 0, "shortest form");
    CirBuf cb(16); vbi.readIntoBuf(cb); CHECK(cb.usedBytes() == len, "bytes written to the buffer"); for (uint32_t i = 0; i < len; i++) CHECK(cb.peakAhead(i) == vbi.data()[i], "buffer has the encoded bytes");
    fsx_obs("bytes", vbi.data(), len); COVER(len == 1 ? "1 byte" : len == 2 ? "2 bytes" : len == 3 ? "3 bytes" : "4 bytes"); }
// what the packet parser decodes: every sequence of n bytes (n up to 6)
extern "C" void fsx_decode() {
    World w; w.start(); Conn c; c.open(w, V5); auto cl = w.td[0]->getClient(c.fd);
    unsigned n = fsx_choice("len", 7); Bytes s = symBytes("b", n); std::vector<char> v; v.push_back((char)0xC0); v.push_back(0); for (char x : s) v.push_back(x);
    MqttPacket p(std::move(v), 2, cl); bool thrown = false; size_t got = 0; try { got = p.decodeVariableByteIntAtPos(); } catch (ProtocolError &) { thrown = true; }
    size_t ref = 0; bool bad = true; size_t used = 0; for (unsigned i = 0; i < 4 && i < n; i++) { unsigned char b = s[i]; ref |= (size_t)(b & 127) << (7 * i); if (!(b & 128)) { bad = false; used = i + 1; break; } }
    CHECK(thrown == bad, "refused exactly when cut off or longer than four bytes"); if (thrown) { COVER("refused"); return; }
    CHECK(got == ref, "decoded value"); CHECK(p.pos == 2 + used, "position after the integer"); if (used == 4) COVER("four bytes"); fsx_obs_u64("value", got); }
// encode then decode through the packet code paths (writeVariableByteInt / decodeVariableByteIntAtPos)
extern "C" void fsx_roundtrip() {
    World w; w.start(); Conn c; c.open(w, V5); auto cl = w.td[0]->getClient(c.fd);
    uint32_t x = fsx_sym<uint32_t>("value"); fsx_assume(x <= 268435455u); VariableByteInt vbi(x); std::vector<char> v(2 + vbi.getLen() + 3); v[0] = (char)0xC0; unsigned char mark = 0x5a; for (size_t i = 2; i < v.size(); i++) v[i] = mark;
    MqttPacket p(std::move(v), 2, cl); p.writeVariableByteInt(vbi); size_t end = p.pos; p.pos = 2; CHECK(p.decodeVariableByteIntAtPos() == x, "reads back what was written"); CHECK(p.pos == end, "same length"); COVER("round trip"); }
// fixed header: remaining length of a packet in the receive buffer, every header byte sequence
extern "C" void fsx_header() {
    World w; w.start(); Conn c; c.open(w, V5); auto cl = w.td[0]->getClient(c.fd); bool auth = fsx_choice("authenticated", 2); cl->authenticated = auth;
    uint32_t lim = fsx_sym<uint32_t>("limit"); fsx_assume(lim >= 2); const_cast<uint32_t &>(cl->maxIncomingPacketSize) = lim;
    unsigned n = fsx_choice("have", 8); Bytes s; if (n) { s = symBytes("h", n); unsigned char t = s[0]; fsx_assume(t == 0xC0); }
    CirBuf cb(16); if (n) cb.write(s.data(), s.size()); std::vector<MqttPacket> q; int thrown = 0; ReasonCodes rc = ReasonCodes::Success; unsigned n0 = n;
    try { MqttPacket::bufferToMqttPackets(cb, q, cl); } catch (ProtocolError &e) { thrown = 1; rc = e.reasonCode; }
    // reference
    size_t pos = 0; size_t pkts = 0; bool bad = false; uint64_t l = lim < ABSOLUTE_MAX_PACKET_SIZE ? lim : ABSOLUTE_MAX_PACKET_SIZE;
    while (n - pos >= 2) { uint64_t len = 0; unsigned k = 0; bool cut = false, done = false; while (!done) { if (k == 4) { bad = true; break; } if (pos + 1 + k >= n) { cut = true; break; } unsigned char b = s[pos + 1 + k]; len |= (uint64_t)(b & 127) << (7 * k); k++; done = !(b & 128); }
        if (bad || cut) break; uint64_t total = 1 + k + len; if ((!auth && total >= 1024 * 1024) || total > l) { bad = true; break; } if (total > n - pos) break; unsigned char t = s[pos]; if (t != 0xC0) { fsx_stop(); } pos += (size_t)fsx_concretize(total); pkts++; }
    CHECK((thrown != 0) == bad, "refused exactly when the length is malformed or too large"); if (thrown) { COVER("refused"); return; }
    CHECK(q.size() == pkts, "packets recognised exactly when complete"); CHECK(cb.usedBytes() == n0 - pos, "incomplete bytes stay in the buffer"); for (size_t i = 0, o = 0; i < q.size(); i++) { for (size_t k = 0; k < q[i].bites.size(); k++) CHECK(q[i].bites[k] == s[o + k], "packet bytes"); o += q[i].bites.size(); }
    if (pkts) COVER("complete packet"); }
