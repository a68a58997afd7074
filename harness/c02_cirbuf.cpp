// C02: connection buffers.
#include "fsx.h"
#include "cirbuf.h"
#include <string>
#include <cstring>
#include <stdexcept>
#define CHECK(c, m) fsx_assert((c), m)
// the space arithmetic, for every power-of-two capacity and every head/tail
extern "C" void fsx_arith() {
    unsigned k = fsx_range("log2", 1, 31); uint32_t size = 1u << k, h = fsx_sym<uint32_t>("head"), t = fsx_sym<uint32_t>("tail"); fsx_assume(h < size && t < size);
    CirBuf b(2); b.size = size; b.head = h; b.tail = t; uint32_t used = b.usedBytes(), fr = b.freeSpace(), mw = b.maxWriteSize(), mr = b.maxReadSize(); uint64_t ref = h >= t ? h - t : (uint64_t)h + size - t;
    CHECK(used == ref, "used bytes"); CHECK((uint64_t)used + fr + 1 == size, "free space is the rest but one"); CHECK(mw <= fr && (uint64_t)h + mw <= size, "contiguous write stays inside"); CHECK((mw > 0) == (fr > 0), "room to write when there is space"); CHECK(mr <= used && (uint64_t)t + mr <= size, "contiguous read stays inside"); CHECK((mr > 0) == (used > 0), "bytes to read when there are any");
    uint32_t n = fsx_sym<uint32_t>("n"); bool thr = false; try { b.advanceHead(n); } catch (std::exception &) { thr = true; } CHECK(thr == (n > fr), "head never passes tail"); if (!thr) CHECK(b.usedBytes() == used + n && b.tail == t, "advancing the head adds bytes");
    uint32_t u2 = b.usedBytes(), m = fsx_sym<uint32_t>("m"); thr = false; try { b.advanceTail(m); } catch (std::exception &) { thr = true; } CHECK(thr == (m > u2), "tail never passes head"); if (!thr) CHECK(b.usedBytes() == u2 - m, "advancing the tail removes bytes");
    b.size = 2; b.head = b.tail = 0; fsx_cover("done"); }
static std::string content(CirBuf &b) { std::string r; for (uint32_t i = 0; i < b.usedBytes(); i++) r.push_back(b.peakAhead(i)); return r; }
static void same(CirBuf &b, const std::string &ref) { CHECK(b.usedBytes() == ref.size(), "byte count"); for (size_t i = 0; i < ref.size(); i++) CHECK(b.peakAhead(i) == ref[i], "byte content and order"); CHECK(b.head < b.getCapacity() && b.tail < b.getCapacity(), "indices inside the buffer"); CHECK(b.freeSpace() == b.getCapacity() - ref.size() - 1, "free space"); }
#ifndef NOPS
#define NOPS 2
#endif
// any operation sequence from any starting position, against a plain queue of bytes
extern "C" void fsx_ops() {
    uint32_t size = 2u << fsx_choice("log2", 3); CirBuf b(size); uint32_t start = fsx_choice("start", size); b.head = b.tail = start; std::string ref; unsigned fill = fsx_choice("fill", size);
    std::string data(40, 0); fsx_symbolic(&data[0], data.size(), "data"); size_t nx = 0;
    if (fill) { b.write(data.data(), fill); ref.append(data, 0, fill); nx = fill; } same(b, ref); bool primed = false;
    for (int i = 0; i < NOPS; i++) {
        unsigned op = fsx_choice("op", 10), cap0 = b.getCapacity();
        switch (op) {
        case 0: { unsigned n = fsx_choice("n", 6) * 2 + 1; b.write(data.data() + nx, n); ref.append(data, nx, n); nx += n; break; }
        case 1: b.write((uint8_t)data[nx]); ref.push_back(data[nx]); nx++; break;
        case 2: b.write((uint8_t)data[nx], (uint8_t)data[nx + 1]); ref.append(data, nx, 2); nx += 2; break;
        case 3: { unsigned n = fsx_choice("n", 9); auto v = b.readToVector(n); size_t e = n < ref.size() ? n : ref.size(); CHECK(v.size() == e, "bytes returned"); for (size_t k = 0; k < e; k++) CHECK(v[k] == ref[k], "bytes come out in order"); ref.erase(0, e); break; }
        case 4: { auto v = b.peekAllToVector(); CHECK(v.size() == ref.size(), "peek size"); for (size_t k = 0; k < v.size(); k++) CHECK(v[k] == ref[k], "peek content"); break; }
        case 5: { unsigned n = fsx_choice("n", 4) * 5; bool lim = fsx_choice("lim", 2); size_t mx = lim ? 16 : UINT_MAX; b.ensureFreeSpace(n, mx); CHECK(b.freeSpace() >= n || b.getCapacity() >= mx, "space made as far as the limit allows"); CHECK(!lim || b.getCapacity() <= (cap0 > 16 ? cap0 : 16), "capacity limit kept"); if (b.getCapacity() != cap0) primed = false; break; }
        case 6: { unsigned n = fsx_choice("n", 3); const char *p = data.data() + nx; b.writerange(p, p + n * 3); ref.append(data, nx, n * 3); nx += n * 3; break; }
        case 7: { // the way the read loop uses it: fill the contiguous space, commit
            unsigned n = b.maxWriteSize(); if (n > 3) n = 3; memcpy(b.headPtr(), data.data() + nx, n); b.advanceHead(n); ref.append(data, nx, n); nx += n; break; }
        case 8: { unsigned n = b.maxReadSize(); for (unsigned k = 0; k < n; k++) CHECK(b.tailPtr()[k] == ref[k], "contiguous read"); b.advanceTail(n); ref.erase(0, n); break; }
        case 9: b.resetCapacityIfEligable(4); b.resetCapacityIfEligable(4); if (ref.empty()) { CHECK(b.getCapacity() == 4, "shrinks when empty"); fsx_cover("shrunk"); } else { CHECK(b.getCapacity() == cap0, "never shrinks with data in it"); } break;
        }
        if (b.getCapacity() > cap0) fsx_cover("grown"); same(b, ref); }
    if (b.head < b.tail) fsx_cover("wrapped"); fsx_obs("content", content(b).data(), ref.size()); }
// the 2 GB limit: growing beyond it is refused and leaves the content alone
extern "C" void fsx_limit() {
    CirBuf b(4); b.write('a', 'b'); unsigned f = 1u << fsx_range("f", 30, 31); bool thr = false; try { b.doubleCapacity(f); } catch (std::exception &) { thr = true; } CHECK(thr, "growth beyond 2 GB refused"); CHECK(b.usedBytes() == 2 && b.peakAhead(0) == 'a' && b.peakAhead(1) == 'b' && b.getCapacity() == 4, "content unharmed"); fsx_cover("refused"); }
