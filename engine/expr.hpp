// Hash-consed bit-vector expressions (width 1..64) over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

namespace fsx {

enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
                      K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT };

struct VarSet { std::vector<uint16_t> v; uint32_t id; bool has(uint16_t x) const { return std::binary_search(v.begin(), v.end(), x); } };

struct Dom { // set of values of one byte variable
    uint64_t w[4];
    static Dom full() { Dom d; for (auto &x : d.w) x = ~0ull; return d; }
    static Dom none() { Dom d; for (auto &x : d.w) x = 0; return d; }
    bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    unsigned count() const { unsigned n = 0; for (auto x : w) n += __builtin_popcountll(x); return n; }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    unsigned first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return 256; }
    Dom operator&(const Dom &o) const { Dom d; for (int i = 0; i < 4; i++) d.w[i] = w[i] & o.w[i]; return d; }
    Dom andNot(const Dom &o) const { Dom d; for (int i = 0; i < 4; i++) d.w[i] = w[i] & ~o.w[i]; return d; }
    bool operator==(const Dom &o) const { return !memcmp(w, o.w, sizeof w); }
};

struct Expr {
    Kind kind; uint8_t width; uint32_t id; uint64_t val; // val: constant, variable index, or extract offset
    Expr *a, *b, *c; const VarSet *vs;
    mutable uint64_t epoch; mutable uint64_t ev; mutable Dom *tt; mutable void *z3;
    uint64_t hash;
    bool isConst() const { return kind == K_CONST; }
};
typedef Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

struct ExprPool {
    std::vector<E> table; size_t count = 0; uint32_t nextId = 1;
    std::vector<char *> blocks; size_t blockUsed = 0;
    std::vector<VarSet *> vsets; std::unordered_map<uint64_t, std::vector<VarSet *>> vsIndex; std::unordered_map<uint64_t, const VarSet *> unionCache;
    const VarSet *emptyVs;
    ExprPool() { table.resize(1 << 16); emptyVs = internVs({}); }
    const VarSet *internVs(std::vector<uint16_t> v) {
        uint64_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 1099511628211ull;
        auto &l = vsIndex[h]; for (auto *s : l) if (s->v == v) return s;
        auto *s = new VarSet{std::move(v), (uint32_t)vsets.size()}; vsets.push_back(s); l.push_back(s); return s;
    }
    const VarSet *vsUnion(const VarSet *a, const VarSet *b) {
        if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
        if (a->id > b->id) std::swap(a, b);
        uint64_t k = ((uint64_t)a->id << 32) | b->id; auto it = unionCache.find(k); if (it != unionCache.end()) return it->second;
        std::vector<uint16_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
        return unionCache[k] = internVs(std::move(r));
    }
    E alloc() {
        const size_t per = 4096; if (blocks.empty() || blockUsed == per) { blocks.push_back((char *)malloc(sizeof(Expr) * per)); blockUsed = 0; }
        return (E)(blocks.back() + sizeof(Expr) * blockUsed++);
    }
    E mk(Kind k, unsigned w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
        uint64_t h = k * 0x9E3779B97F4A7C15ull ^ w * 0xC2B2AE3D27D4EB4Full ^ val * 0x165667B19E3779F9ull;
        if (a) h = (h ^ a->id) * 0xff51afd7ed558ccdull; if (b) h = (h ^ (h >> 29) ^ b->id) * 0xc4ceb9fe1a85ec53ull; if (c) h = (h ^ (h >> 31) ^ c->id) * 0x9FB21C651E98DF25ull;
        h ^= h >> 32;
        size_t m = table.size() - 1;
        for (size_t i = h & m;; i = (i + 1) & m) {
            E e = table[i];
            if (!e) break;
            if (e->hash == h && e->kind == k && e->width == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
        }
        if ((count + 1) * 2 > table.size()) {
            std::vector<E> nt(table.size() * 2); size_t mm = nt.size() - 1;
            for (E e : table) if (e) { size_t i = e->hash & mm; while (nt[i]) i = (i + 1) & mm; nt[i] = e; }
            table.swap(nt); m = mm;
        }
        E e = alloc(); e->kind = k; e->width = w; e->id = nextId++; e->val = val; e->a = a; e->b = b; e->c = c; e->epoch = 0; e->ev = 0; e->tt = nullptr; e->z3 = nullptr; e->hash = h;
        const VarSet *vs = emptyVs; if (k == K_VAR) vs = internVs({(uint16_t)val});
        if (a) vs = vsUnion(vs, a->vs); if (b) vs = vsUnion(vs, b->vs); if (c) vs = vsUnion(vs, c->vs); e->vs = vs;
        size_t i = h & m; while (table[i]) i = (i + 1) & m; table[i] = e; count++;
        return e;
    }
};
extern ExprPool pool;

inline E mkC(uint64_t v, unsigned w) { return pool.mk(K_CONST, w, v & maskw(w)); }
inline E mkVar(unsigned idx) { return pool.mk(K_VAR, 8, idx); }

uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
bool exactUnsigned(E e); bool signedTerms(E e, std::vector<std::pair<E, int64_t>> &t, int64_t &k); bool signedNonNeg(E e); // the unsigned value of a sum is the sum of the values: nothing wraps
E mkNot(E a); // boolean negation (width 1)
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
std::string show(E e, int depth = 6);

} // namespace fsx
