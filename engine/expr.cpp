#include "expr.hpp"
namespace fsx {
ExprPool pool;

uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w); a &= m; b &= m; int64_t sa = sextw(a, w), sb = sextw(b, w);
    switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: return !b ? (sa < 0 ? 1 : m) : (sb == -1 ? (uint64_t)(0 - (uint64_t)sa) & m : (uint64_t)(sa / sb) & m);
    case K_SREM: return !b ? a : (sb == -1 ? 0 : (uint64_t)(sa % sb) & m);
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return b >= w ? (sa < 0 ? m : 0) : (uint64_t)(sa >> b) & m;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b; case K_SLT: return sa < sb; case K_SLE: return sa <= sb;
    default: abort();
    }
}
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static uint64_t smear(uint64_t x) { return x ? ~0ull >> __builtin_clzll(x) : 0; }
// bits that may be nonzero
static uint64_t maybeOnes(E e, int d = 4) {
    uint64_t m = maskw(e->width);
    switch (e->kind) {
    case K_CONST: return e->val;
    case K_ZEXT: return d ? maybeOnes(e->a, d - 1) : maskw(e->a->width);
    case K_CONCAT: return d ? (maybeOnes(e->a, d - 1) << e->b->width) | maybeOnes(e->b, d - 1) : m;
    case K_AND: return d ? maybeOnes(e->a, d - 1) & maybeOnes(e->b, d - 1) : m;
    case K_OR: case K_XOR: return d ? maybeOnes(e->a, d - 1) | maybeOnes(e->b, d - 1) : m;
    case K_ITE: return d ? maybeOnes(e->b, d - 1) | maybeOnes(e->c, d - 1) : m;
    case K_ADD: if (d) { unsigned __int128 t = (unsigned __int128)smear(maybeOnes(e->a, d - 1)) + smear(maybeOnes(e->b, d - 1)); if (t <= m) return smear((uint64_t)t); } return m;
    default: return m;
    }
}
E mkNot(E a) {
    if (a->isConst()) return mkC(!a->val, 1);
    if (a->kind == K_XOR && a->b->isConst() && a->b->val == 1) return a->a;
    if (a->kind == K_ULT) return mkBin(K_ULE, a->b, a->a);
    if (a->kind == K_ULE) return mkBin(K_ULT, a->b, a->a);
    if (a->kind == K_SLT) return mkBin(K_SLE, a->b, a->a);
    if (a->kind == K_SLE) return mkBin(K_SLT, a->b, a->a);
    return pool.mk(K_XOR, 1, 0, a, mkC(1, 1));
}
static bool boolConstArms(E e) { return e->kind == K_ITE && e->b->isConst() && e->c->isConst(); }

// ---- linear forms over the integers: e = K + sum(coef * atom) modulo 2^w; exact when the range fits ----
typedef __int128 I;
struct Lin { I k = 0; std::vector<std::pair<E, I>> t; bool ok = true; };
static const I LIM = (I)1 << 60; // 7 terms of 2^60 * 2^64 stay within 128 bits
static const I KLIM = (I)1 << 100;
static bool zextLin(Lin &l, E a, unsigned w, I c, int d);
static void linAdd(Lin &l, E e, I c, int d) {
    if (c > LIM || c < -LIM) l.ok = false;
    if (!l.ok) return; unsigned w = e->width;
    if (e->kind == K_CONST) { l.k += c * sextw(e->val, w); }
    else if (d && e->kind == K_ADD) { linAdd(l, e->a, c, d - 1); linAdd(l, e->b, c, d - 1); }
    else if (d && e->kind == K_SUB) { linAdd(l, e->a, c, d - 1); linAdd(l, e->b, -c, d - 1); }
    else if (d && e->kind == K_MUL && e->b->isConst()) { linAdd(l, e->a, c * sextw(e->b->val, w), d - 1); }
    else if (d && e->kind == K_ZEXT && e->a->kind == K_ADD && zextLin(l, e->a, e->width, c, d - 1)) {}
    else { for (auto &p : l.t) if (p.first == e) { p.second += c; goto done; } l.t.push_back({e, c}); if (l.t.size() > 6) l.ok = false; }
done:
    if (l.k > KLIM || l.k < -KLIM) l.ok = false; for (auto &p : l.t) if (p.second > LIM || p.second < -LIM) l.ok = false;
}
static Lin lin(E e) { Lin l; linAdd(l, e, 1, 8); l.t.erase(std::remove_if(l.t.begin(), l.t.end(), [](auto &p) { return p.second == 0; }), l.t.end()); return l; }
static bool linRange(const Lin &l, bool sgn, I &lo, I &hi); static bool fits(I lo, I hi, unsigned w, bool sgn); static Lin lin(E e);
static void atomRange(E e, bool sgn, I &lo, I &hi, int d = 0) {
    if (sgn && e->kind == K_ITE && d < 3) { // the range of either arm
        auto arm = [&](E x, I &l, I &h) { if (x->isConst()) { l = h = sextw(x->val, x->width); return; } if (x->kind == K_ADD || x->kind == K_SUB || x->kind == K_MUL) { Lin q = lin(x); if (d < 1 && linRange(q, true, l, h) && fits(l, h, x->width, true)) return; } atomRange(x, true, l, h, d + 1); };
        I l2, h2; arm(e->b, lo, hi); arm(e->c, l2, h2); lo = std::min(lo, l2); hi = std::max(hi, h2); return; }
    unsigned w = e->width; uint64_t mo = maybeOnes(e); lo = 0;
    if (e->kind == K_SEXT) { unsigned aw = e->a->width; if (!sgn) { lo = 0; hi = maskw(w); return; } lo = -((I)1 << (aw - 1)); hi = ((I)1 << (aw - 1)) - 1; return; }
    if (!(mo >> (w - 1) & 1) || !sgn) { hi = mo; for (int b = 0; b < 64; b++) if (mo >> b & 1) hi |= ((I)1 << b) - 1; return; }
    lo = -((I)1 << (w - 1)); hi = ((I)1 << (w - 1)) - 1;
}
static bool linRange(const Lin &l, bool sgn, I &lo, I &hi) {
    if (!l.ok) return false; lo = hi = l.k;
    for (auto &p : l.t) { I a, b; atomRange(p.first, sgn, a, b); if (p.second > 0) { lo += a * (p.second); hi += b * p.second; } else { lo += b * p.second; hi += a * p.second; } }
    return true;
}
static bool fits(I lo, I hi, unsigned w, bool sgn) { return sgn ? lo >= -((I)1 << (w - 1)) && hi < ((I)1 << (w - 1)) : lo >= 0 && hi < ((I)1 << w); }
// zext(a + ...): the terms of the narrower sum, widened, when that sum cannot wrap
static bool zextLin(Lin &l, E a, unsigned w, I c, int d) {
    if (a->width < 16) return false; Lin x; linAdd(x, a, 1, d); I lo, hi; if (!linRange(x, false, lo, hi) || !fits(lo, hi, a->width, false)) return false;
    for (auto &p : x.t) if (p.second < 0 || p.first->kind == K_SEXT) return false; if (x.k < 0) return false;
    for (auto &p : x.t) linAdd(l, mkZExt(p.first, w), c * p.second, 0); l.k += c * x.k; return true; }
static E linBuild(const Lin &l, unsigned w) {
    E r = nullptr; for (auto &p : l.t) { E x = mkBin(K_MUL, p.first, mkC((uint64_t)p.second, w)); r = r ? mkBin(K_ADD, r, x) : x; }
    E k = mkC((uint64_t)l.k, w); return r ? mkBin(K_ADD, r, k) : k; }
static I igcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static I ifloor(I a, I b) { I q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
static bool linear(E e) { return e->kind == K_ADD || e->kind == K_SUB || (e->kind == K_MUL && e->b->isConst()); }
bool exactUnsigned(E e) { // no wrap at this operator, its operands taken as exact
    unsigned w = e->width; I la, ha, lb, hb; Lin x = lin(e->a), y = lin(e->b); if (e->kind == K_MUL) { if (!e->b->isConst()) return false; atomRange(e->a, false, la, ha); I l2, h2; if (linRange(x, false, l2, h2) && fits(l2, h2, w, false)) { la = l2; ha = h2; } return ha <= ((I)1 << 62) && fits(0, ha * (I)e->b->val, w, false) && e->b->val < (1ull << 62); }
    auto rng = [&](E q, Lin &l, I &lo, I &hi) { atomRange(q, false, lo, hi); I a, b; if (q->kind != K_CONST && linRange(l, false, a, b) && fits(a, b, w, false)) { lo = a; hi = b; } else if (q->kind == K_CONST) lo = hi = q->val; };
    rng(e->a, x, la, ha); rng(e->b, y, lb, hb); return e->kind == K_ADD ? fits(la + lb, ha + hb, w, false) : fits(la - hb, ha - lb, w, false); }
// the signed value of e as an integer sum k + sum(coef * signed value of term), when that sum cannot leave the range
bool signedTerms(E e, std::vector<std::pair<E, int64_t>> &t, int64_t &k) { Lin l = lin(e); I lo, hi; if (!linRange(l, true, lo, hi) || !fits(lo, hi, e->width, true) || l.k >= ((I)1 << 62) || l.k <= -((I)1 << 62)) return false; k = (int64_t)l.k; for (auto &p : l.t) t.push_back({p.first, (int64_t)p.second}); return true; }
bool signedNonNeg(E e) { return !(maybeOnes(e) >> (e->width - 1) & 1); }
// nullptr: nothing gained
static E linSimplify(Kind k, E a, E b) {
    unsigned w = a->width; static bool busy = false; if (w < 20 || busy) return nullptr;
    switch (k) {
    case K_SUB: if (!linear(a) && !linear(b)) return nullptr; { Lin x = lin(a), y = lin(b), z; z = x; z.ok = x.ok && y.ok; if (!z.ok) return nullptr; z.k -= y.k; size_t before = x.t.size() + y.t.size() + (x.k ? 1 : 0) + (y.k ? 1 : 0); for (auto &p : y.t) { bool f = false; for (auto &q : z.t) if (q.first == p.first) { q.second -= p.second; f = true; } if (!f) z.t.push_back({p.first, -p.second}); }
        z.t.erase(std::remove_if(z.t.begin(), z.t.end(), [](auto &p) { return p.second == 0; }), z.t.end()); if (z.t.size() + (z.k ? 1 : 0) >= before) return nullptr; for (auto &p : z.t) if (p.second < 0) { // keep subtraction readable: positives minus negatives
            Lin pos, neg; pos.k = z.k; for (auto &q : z.t) if (q.second > 0) pos.t.push_back(q); else neg.t.push_back({q.first, -q.second}); E pe = linBuild(pos, w), ne = linBuild(neg, w); if (pe == a && ne == b) return nullptr; busy = true; E r = mkBin(K_SUB, pe, ne); busy = false; return r; }
        return linBuild(z, w); }
    case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: {
        if (!b->isConst() || !linear(a)) return nullptr; bool sg = k == K_SDIV || k == K_SREM; I c = sg ? (I)sextw(b->val, w) : (I)b->val; if (c < 2 && c > -2) return nullptr; Lin l = lin(a); I lo, hi; if (!linRange(l, sg, lo, hi) || !fits(lo, hi, w, sg)) return nullptr;
        for (auto &p : l.t) if (p.second % c) return nullptr; if ((lo < 0 || c < 0) && l.k % c) return nullptr;
        if (k == K_UREM || k == K_SREM) return c < 0 ? mkC(0, w) : mkC((uint64_t)(((l.k % c) + c) % c), w); l.k = ifloor(l.k, c); for (auto &p : l.t) p.second /= c; return linBuild(l, w); }
    case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_EQ: {
        if (!linear(a) && !linear(b)) return nullptr; Lin x = lin(a), y = lin(b); if (!x.ok || !y.ok || (x.t.empty() && y.t.empty())) return nullptr; I lo, hi, lo2, hi2; bool sg = false; bool good = false;
        for (int t = 0; t < 2 && !good; t++) { sg = k == K_EQ ? t : (k == K_SLT || k == K_SLE); good = linRange(x, sg, lo, hi) && linRange(y, sg, lo2, hi2) && fits(lo, hi, w, sg) && fits(lo2, hi2, w, sg); } if (!good) return nullptr;
        Lin z = x; z.k -= y.k; for (auto &p : y.t) { bool f = false; for (auto &q : z.t) if (q.first == p.first) { q.second -= p.second; f = true; } if (!f) z.t.push_back({p.first, -p.second}); }
        z.t.erase(std::remove_if(z.t.begin(), z.t.end(), [](auto &p) { return p.second == 0; }), z.t.end()); I zl, zh; if (!linRange(z, sg, zl, zh)) return nullptr; // z (<, <=, ==) 0
        if (k == K_ULT || k == K_SLT) { if (zh < 0) return mkC(1, 1); if (zl >= 0) return mkC(0, 1); } else if (k != K_EQ) { if (zh <= 0) return mkC(1, 1); if (zl > 0) return mkC(0, 1); } else if (zl > 0 || zh < 0) return mkC(0, 1);
        if (sg) for (auto &p : z.t) { I al, ah; atomRange(p.first, true, al, ah); if (al < 0) return nullptr; }
        I g = 0; for (auto &p : z.t) g = igcd(g, p.second); if (!g) return nullptr; I rhs = -z.k; // sum < rhs
        if (k == K_EQ) { if (rhs % g) return mkC(0, 1); rhs /= g; } else if (k == K_ULT || k == K_SLT) rhs = -ifloor(-rhs, g); else rhs = ifloor(rhs, g);
        Lin L, R; for (auto &p : z.t) { p.second /= g; if (p.second > 0) L.t.push_back(p); else R.t.push_back({p.first, -p.second}); } if (rhs > 0) R.k = rhs; else L.k = -rhs;
        I ll, lh, rl, rh; if (!linRange(L, false, ll, lh) || !linRange(R, false, rl, rh) || !fits(ll, lh, w, false) || !fits(rl, rh, w, false)) return nullptr;
        // the same comparison gets the same form whatever the order and width it was written in
        unsigned W = 8; while (W < w && ((lh >> W) || (rh >> W))) W++; for (Lin *q : {&L, &R}) for (auto &p : q->t) W = std::max<unsigned>(W, p.first->kind == K_ZEXT ? p.first->a->width : w);
        for (Lin *q : {&L, &R}) { if (W < w) for (auto &p : q->t) p.first = mkZExt(p.first->a, W); std::sort(q->t.begin(), q->t.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; }); }
        E le = linBuild(L, W), re = linBuild(R, W); if (le == a && re == b && (k == K_ULT || k == K_ULE || k == K_EQ)) return nullptr;
        Kind nk = k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k; busy = true; E r = mkBin(nk, le, re); busy = false; return r; }
    default: return nullptr; }
}

E mkBin(Kind k, E a, E b) {
    unsigned w = a->width; assert(a->width == b->width);
    if (a->isConst() && b->isConst()) return mkC(foldBin(k, w, a->val, b->val), isCmp(k) ? 1 : w);
    uint64_t m = maskw(w);
    switch (k) {
    case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR: case K_EQ:
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); break;
    default: break;
    }
    switch (k) {
    case K_ADD:
        if (b->isConst()) { if (!b->val) return a;
            if (a->kind == K_ADD && a->b->isConst()) return mkBin(K_ADD, a->a, mkC(a->b->val + b->val, w));
            if (boolConstArms(a)) return mkIte(a->a, mkC(a->b->val + b->val, w), mkC(a->c->val + b->val, w)); }
        break;
    case K_SUB:
        if (a == b) return mkC(0, w);
        if (b->isConst()) return mkBin(K_ADD, a, mkC(0 - b->val, w));
        break;
    case K_MUL:
        if (b->isConst()) { if (!b->val) return b; if (b->val == 1) return a; if (!(b->val & (b->val - 1))) return mkBin(K_SHL, a, mkC(__builtin_ctzll(b->val), w)); }
        break;
    case K_UDIV: if (b->isConst()) { if (b->val == 1) return a; if (b->val && !(b->val & (b->val - 1))) return mkBin(K_LSHR, a, mkC(__builtin_ctzll(b->val), w)); } break;
    case K_UREM: if (b->isConst()) { if (b->val == 1) return mkC(0, w); if (b->val && !(b->val & (b->val - 1))) return mkBin(K_AND, a, mkC(b->val - 1, w)); } break;
    case K_AND:
        if (a == b) return a;
        if (b->isConst()) { if (!b->val) return b; if (b->val == m) return a;
            uint64_t mo = maybeOnes(a); if (!(mo & b->val)) return mkC(0, w); if (!(mo & ~b->val)) return a;
            if (!(b->val & (b->val + 1))) { unsigned n = __builtin_popcountll(b->val); return mkZExt(mkExtract(a, 0, n), w); }
            if (a->kind == K_AND && a->b->isConst()) return mkBin(K_AND, a->a, mkC(a->b->val & b->val, w));
            if (a->kind == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkC(b->val >> a->b->width, a->a->width)), mkBin(K_AND, a->b, mkC(b->val, a->b->width)));
            if (a->kind == K_ZEXT) return mkZExt(mkBin(K_AND, a->a, mkC(b->val, a->a->width)), w);
            if (boolConstArms(a)) return mkIte(a->a, mkC(a->b->val & b->val, w), mkC(a->c->val & b->val, w)); }
        if (w == 1) { if (a == mkNot(b)) return mkC(0, 1); }
        break;
    case K_OR:
        if (a == b) return a;
        if (b->isConst()) { if (!b->val) return a; if (b->val == m) return b;
            if (boolConstArms(a)) return mkIte(a->a, mkC(a->b->val | b->val, w), mkC(a->c->val | b->val, w)); }
        if (w == 1) { if (a == mkNot(b)) return mkC(1, 1); break; }
        if (!(maybeOnes(a) & maybeOnes(b))) { // disjoint: try to form a concat
            for (int t = 0; t < 2; t++, std::swap(a, b)) {
                uint64_t mo = maybeOnes(b); if (!mo) return a;
                unsigned lo = 64 - __builtin_clzll(mo); // b lives in bits [0,lo)
                if (lo < w && !(maybeOnes(a) & maskw(lo))) {
                    return mkConcat(mkExtract(a, lo, w - lo), mkExtract(b, 0, lo));
                }
            }
        }
        break;
    case K_XOR:
        if (a == b) return mkC(0, w);
        if (b->isConst()) { if (!b->val) return a; if (w == 1) return mkNot(a);
            if (a->kind == K_XOR && a->b->isConst()) return mkBin(K_XOR, a->a, mkC(a->b->val ^ b->val, w)); 
            if (boolConstArms(a)) return mkIte(a->a, mkC(a->b->val ^ b->val, w), mkC(a->c->val ^ b->val, w)); }
        break;
    case K_SHL: if (b->isConst()) { if (!b->val) return a; if (b->val >= w) return mkC(0, w); return mkConcat(mkExtract(a, 0, w - b->val), mkC(0, b->val)); } break;
    case K_LSHR: if (b->isConst()) { if (!b->val) return a; if (b->val >= w) return mkC(0, w); return mkZExt(mkExtract(a, b->val, w - b->val), w); } break;
    case K_ASHR: if (b->isConst()) { if (!b->val) return a; uint64_t s = b->val >= w ? w - 1 : b->val; return mkSExt(mkExtract(a, s, w - s), w); } break;
    case K_EQ:
        if (a == b) return mkC(1, 1);
        if (b->isConst()) {
            if (w == 1) return b->val ? a : mkNot(a);
            switch (a->kind) {
            case K_ZEXT: if (b->val & ~maskw(a->a->width)) return mkC(0, 1); return mkEq(a->a, mkC(b->val, a->a->width));
            case K_SEXT: { uint64_t t = b->val & maskw(a->a->width); if (((uint64_t)sextw(t, a->a->width) & m) != b->val) return mkC(0, 1); return mkEq(a->a, mkC(t, a->a->width)); }
            case K_CONCAT: return mkBin(K_AND, mkEq(a->a, mkC(b->val >> a->b->width, a->a->width)), mkEq(a->b, mkC(b->val, a->b->width)));
            case K_ADD: if (a->b->isConst()) return mkEq(a->a, mkC(b->val - a->b->val, w)); break;
            case K_XOR: if (a->b->isConst()) return mkEq(a->a, mkC(b->val ^ a->b->val, w)); break;
            case K_SUB: if (!b->val) return mkEq(a->a, a->b); if (a->a->isConst()) return mkEq(a->b, mkC(a->a->val - b->val, w)); break;
            case K_ITE:
                if (a->b->isConst() || a->c->isConst()) {
                    E x = mkEq(a->b, b), y = mkEq(a->c, b); return mkIte(a->a, x, y);
                }
                break;
            default: break;
            }
            if (b->val & ~maybeOnes(a)) return mkC(0, 1);
        }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
            unsigned mw = std::max(a->a->width, b->a->width); return mkEq(mkZExt(a->a, mw), mkZExt(b->a, mw)); }
        if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->width == b->b->width) return mkBin(K_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
        break;
    case K_ULT:
        if (a == b) return mkC(0, 1);
        if (b->isConst() && b->val == 0) return mkC(0, 1);
        if (b->isConst() && b->val == 1) return mkEq(a, mkC(0, w));
        if (a->isConst() && a->val == m) return mkC(0, 1);
        if (a->isConst() && a->val == 0) return mkNot(mkEq(b, mkC(0, w)));
        if (a->kind == K_ZEXT && b->kind == K_ZEXT) { unsigned mw = std::max(a->a->width, b->a->width); if (mw < w) return mkBin(K_ULT, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
        if (a->kind == K_ZEXT && b->isConst()) { if (b->val > maskw(a->a->width)) return mkC(1, 1); return mkBin(K_ULT, a->a, mkC(b->val, a->a->width)); }
        if (b->kind == K_ZEXT && a->isConst()) { if (a->val >= maskw(b->a->width)) return mkC(0, 1); return mkBin(K_ULT, mkC(a->val, b->a->width), b->a); }
        if (b->isConst() && maybeOnes(a) < b->val) return mkC(1, 1);
        if (boolConstArms(a) && b->isConst()) return mkIte(a->a, mkC(a->b->val < b->val, 1), mkC(a->c->val < b->val, 1));
        if (boolConstArms(b) && a->isConst()) return mkIte(b->a, mkC(a->val < b->b->val, 1), mkC(a->val < b->c->val, 1));
        break;
    case K_ULE:
        if (a == b) return mkC(1, 1);
        if (b->isConst()) { if (b->val == m) return mkC(1, 1); return mkBin(K_ULT, a, mkC(b->val + 1, w)); }
        if (a->isConst()) { if (!a->val) return mkC(1, 1); return mkBin(K_ULT, mkC(a->val - 1, w), b); }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT) { unsigned mw = std::max(a->a->width, b->a->width); if (mw < w) return mkBin(K_ULE, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
        break;
    case K_SLT: case K_SLE: {
        if (a == b) return mkC(k == K_SLE, 1);
        uint64_t sb = 1ull << (w - 1);
        if (!((maybeOnes(a) | maybeOnes(b)) & sb)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (b->isConst() && b->val == 0 && k == K_SLT && a->kind == K_SEXT) return mkBin(K_SLT, a->a, mkC(0, a->a->width));
        if (a->kind == K_SEXT && b->isConst()) { unsigned aw = a->a->width; int64_t bv = sextw(b->val, w); int64_t lo = -(1ll << (aw - 1)), hi = (1ll << (aw - 1)) - 1;
            if (k == K_SLT) { if (bv > hi) return mkC(1, 1); if (bv <= lo) return mkC(0, 1); } else { if (bv >= hi) return mkC(1, 1); if (bv < lo) return mkC(0, 1); }
            return mkBin(k, a->a, mkC((uint64_t)bv, aw)); }
        if (b->kind == K_SEXT && a->isConst()) { unsigned bw = b->a->width; int64_t av = sextw(a->val, w); int64_t lo = -(1ll << (bw - 1)), hi = (1ll << (bw - 1)) - 1;
            if (k == K_SLT) { if (av < lo) return mkC(1, 1); if (av >= hi) return mkC(0, 1); } else { if (av <= lo) return mkC(1, 1); if (av > hi) return mkC(0, 1); }
            return mkBin(k, mkC((uint64_t)av, bw), b->a); }
        if (!(maybeOnes(a) & sb) && b->isConst() && (b->val & sb)) return mkC(0, 1);
        if (!(maybeOnes(b) & sb) && a->isConst() && (a->val & sb)) return mkC(1, 1);
        break; }
    default: break;
    }
    if (E r = linSimplify(k, a, b)) return r;
    return pool.mk(k, isCmp(k) ? 1 : w, 0, a, b);
}
E mkIte(E c, E a, E b) {
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    if (c->kind == K_XOR && c->width == 1 && c->b->isConst()) return mkIte(c->a, b, a);
    if (a->width == 1) {
        if (a->isConst()) return a->val ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
        if (b->isConst()) return b->val ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    }
    if (c->kind == K_ULT && c->a == a && c->b == b && b->isConst() && b->val == maskw(b->width)) return a;
    if (a->kind == K_ITE && a->a == c) a = a->b;
    if (b->kind == K_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkZExt(mkIte(c, a->a, b->a), a->width);
    if (a->kind == K_ZEXT && b->isConst() && b->val <= maskw(a->a->width)) return mkZExt(mkIte(c, a->a, mkC(b->val, a->a->width)), a->width);
    if (b->kind == K_ZEXT && a->isConst() && a->val <= maskw(b->a->width)) return mkZExt(mkIte(c, mkC(a->val, b->a->width), b->a), b->width);
    return pool.mk(K_ITE, a->width, 0, c, a, b);
}
E mkZExt(E a, unsigned w) {
    if (a->width == w) return a; assert(w > a->width);
    if (a->isConst()) return mkC(a->val, w);
    if (a->kind == K_ZEXT) a = a->a;
    if (a->kind == K_CONCAT && a->a->isConst() && !a->a->val) return mkZExt(a->b, w);
    return pool.mk(K_ZEXT, w, 0, a);
}
E mkSExt(E a, unsigned w) {
    if (a->width == w) return a; assert(w > a->width);
    if (a->isConst()) return mkC((uint64_t)sextw(a->val, a->width), w);
    if (a->kind == K_ZEXT && a->a->width < a->width) return mkZExt(a->a, w);
    if (a->kind == K_SEXT) a = a->a;
    if (!(maybeOnes(a) >> (a->width - 1) & 1)) return mkZExt(a, w);
    if (boolConstArms(a)) return mkIte(a->a, mkC((uint64_t)sextw(a->b->val, a->width), w), mkC((uint64_t)sextw(a->c->val, a->width), w));
    return pool.mk(K_SEXT, w, 0, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
    if (w == a->width) return a; assert(off + w <= a->width);
    switch (a->kind) {
    case K_CONST: return mkC(a->val >> off, w);
    case K_EXTRACT: return mkExtract(a->a, off + a->val, w);
    case K_ZEXT: if (off >= a->a->width) return mkC(0, w); if (off + w <= a->a->width) return mkExtract(a->a, off, w); return mkZExt(mkExtract(a->a, off, a->a->width - off), w);
    case K_SEXT: if (off + w <= a->a->width) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break;
    case K_CONCAT: { unsigned lw = a->b->width; if (off >= lw) return mkExtract(a->a, off - lw, w); if (off + w <= lw) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
    case K_AND: case K_OR: case K_XOR: return mkBin(a->kind, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD: case K_SUB: case K_MUL: if (off == 0) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case K_ITE: if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
    default: break;
    }
    if (!((maybeOnes(a) >> off) & maskw(w))) return mkC(0, w);
    return pool.mk(K_EXTRACT, w, off, a);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width; assert(w <= 64);
    if (hi->isConst() && lo->isConst()) return mkC((hi->val << lo->width) | lo->val, w);
    if (hi->isConst() && !hi->val) return mkZExt(lo, w);
    if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->width) return mkExtract(hi->a, lo->val, w);
    if (hi->kind == K_EXTRACT && hi->val >= lo->width && mkExtract(hi->a, hi->val - lo->width, lo->width) == lo) return mkExtract(hi->a, hi->val - lo->width, w);
    if (lo->kind == K_EXTRACT && lo->val + w <= lo->a->width && mkExtract(lo->a, lo->val + lo->width, hi->width) == hi) return mkExtract(lo->a, lo->val, w);
    if (hi->kind == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->kind == K_ITE && lo->kind == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT && lo->a->kind == K_EXTRACT && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->width) return mkConcat(mkExtract(hi->a, lo->a->val, hi->width + lo->a->width), lo->b);
    return pool.mk(K_CONCAT, w, 0, hi, lo);
}
static const char *kn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat"};
std::string show(E e, int d) {
    char buf[64];
    if (e->kind == K_CONST) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->width); return buf; }
    if (e->kind == K_VAR) { snprintf(buf, sizeof buf, "v%llu", (unsigned long long)e->val); return buf; }
    if (!d) return "...";
    std::string s = "("; s += kn[e->kind]; if (e->kind == K_EXTRACT) { snprintf(buf, sizeof buf, "[%llu+%u]", (unsigned long long)e->val, e->width); s += buf; }
    if (e->kind == K_ZEXT || e->kind == K_SEXT) { snprintf(buf, sizeof buf, "%u", e->width); s += buf; }
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
    return s + ")";
}
} // namespace fsx
