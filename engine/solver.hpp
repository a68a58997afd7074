// Feasibility queries: byte-domain propagation in front of Z3 (QF_BV).
#pragma once
#include "state.hpp"
#include <z3++.h>
#include <chrono>

namespace fsx {

enum Tri { NO = 0, YES = 1, UNKNOWN = 2 };

struct Solver {
    z3::context ctx; z3::solver s; std::vector<z3::expr> vars;
    uint64_t epochCounter = 1; uint64_t nQueries = 0, nZ3 = 0, nCache = 0, nDom = 0, nModel = 0, nUnknown = 0, nAssertZ3 = 0; double z3Time = 0, z3Max = 0;
    unsigned timeoutMs = 20000; uint64_t z3Count = 0;
    struct CacheEnt { Tri r; std::vector<std::pair<uint16_t, uint8_t>> m; };
    std::map<std::vector<uint32_t>, CacheEnt> cache;
    std::vector<std::vector<std::pair<uint16_t, uint8_t>>> recent; size_t recentPos = 0;

    Solver() : s(ctx, "QF_BV") { setParams(); }
    void setParams() { z3::params p(ctx); p.set("timeout", timeoutMs); s.set(p); }
    static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    uint64_t eval(E e, const uint8_t *m, uint64_t ep) {
        if (e->kind == K_CONST) return e->val;
        if (e->kind == K_VAR) return m[e->val];
        if (e->epoch == ep) return e->ev;
        uint64_t r;
        switch (e->kind) {
        case K_ITE: r = eval(e->a, m, ep) ? eval(e->b, m, ep) : eval(e->c, m, ep); break;
        case K_ZEXT: r = eval(e->a, m, ep); break;
        case K_SEXT: r = (uint64_t)sextw(eval(e->a, m, ep), e->a->width) & maskw(e->width); break;
        case K_EXTRACT: r = (eval(e->a, m, ep) >> e->val) & maskw(e->width); break;
        case K_CONCAT: r = (eval(e->a, m, ep) << e->b->width) | eval(e->b, m, ep); break;
        default: r = foldBin(e->kind, e->a->width, eval(e->a, m, ep), eval(e->b, m, ep));
        }
        e->epoch = ep; e->ev = r; return r;
    }
    uint64_t evalState(State &st, E e) { if (!st.epoch) st.epoch = ++epochCounter; return eval(e, st.model.data(), st.epoch); }
    uint64_t val(State &st, const SV &v) { return v.e ? evalState(st, v.e) : v.c; }

    const z3::expr &conv(E e) {
        if (e->z3) return *(z3::expr *)e->z3;
        auto B = [&](E x) -> z3::expr { // boolean view of a width-1 expression
            return convBool(x);
        };
        z3::expr r(ctx);
        switch (e->kind) {
        case K_CONST: r = ctx.bv_val((uint64_t)e->val, e->width); break;
        case K_VAR: { char b[24]; snprintf(b, sizeof b, "v%u", (unsigned)e->val); r = ctx.bv_const(b, 8); break; }
        case K_ADD: r = conv(e->a) + conv(e->b); break; case K_SUB: r = conv(e->a) - conv(e->b); break; case K_MUL: r = conv(e->a) * conv(e->b); break;
        case K_UDIV: r = z3::udiv(conv(e->a), conv(e->b)); break; case K_SDIV: r = conv(e->a) / conv(e->b); break;
        case K_UREM: r = z3::urem(conv(e->a), conv(e->b)); break; case K_SREM: r = z3::srem(conv(e->a), conv(e->b)); break;
        case K_AND: r = conv(e->a) & conv(e->b); break; case K_OR: r = conv(e->a) | conv(e->b); break; case K_XOR: r = conv(e->a) ^ conv(e->b); break;
        case K_SHL: r = z3::shl(conv(e->a), conv(e->b)); break; case K_LSHR: r = z3::lshr(conv(e->a), conv(e->b)); break; case K_ASHR: r = z3::ashr(conv(e->a), conv(e->b)); break;
        case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = z3::ite(convBool(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1)); break;
        case K_ITE: r = z3::ite(B(e->a), conv(e->b), conv(e->c)); break;
        case K_ZEXT: r = z3::zext(conv(e->a), e->width - e->a->width); break; case K_SEXT: r = z3::sext(conv(e->a), e->width - e->a->width); break;
        case K_EXTRACT: r = conv(e->a).extract(e->val + e->width - 1, e->val); break;
        case K_CONCAT: r = z3::concat(conv(e->a), conv(e->b)); break;
        }
        e->z3 = new z3::expr(r); return *(z3::expr *)e->z3;
    }
    z3::expr convBool(E e) {
        assert(e->width == 1);
        switch (e->kind) {
        case K_CONST: return ctx.bool_val(e->val != 0);
        case K_EQ: if (e->a->width == 1) return convBool(e->a) == convBool(e->b); return conv(e->a) == conv(e->b);
        case K_ULT: return z3::ult(conv(e->a), conv(e->b)); case K_ULE: return z3::ule(conv(e->a), conv(e->b));
        case K_SLT: return z3::slt(conv(e->a), conv(e->b)); case K_SLE: return z3::sle(conv(e->a), conv(e->b));
        case K_AND: return convBool(e->a) && convBool(e->b); case K_OR: return convBool(e->a) || convBool(e->b);
        case K_XOR: if (e->b->isConst()) return e->b->val ? !convBool(e->a) : convBool(e->a); return convBool(e->a) != convBool(e->b);
        case K_ITE: return z3::ite(convBool(e->a), convBool(e->b), convBool(e->c));
        default: return conv(e) == ctx.bv_val(1, 1);
        }
    }
    const Dom &truth(E c) { // c depends on exactly one variable
        if (c->tt) return *c->tt;
        Dom *d = new Dom(Dom::none()); uint16_t x = c->vs->v[0]; static std::vector<uint8_t> tmp; tmp.resize(std::max<size_t>(tmp.size(), x + 1));
        for (unsigned i = 0; i < 256; i++) { tmp[x] = i; if (eval(c, tmp.data(), ++epochCounter)) d->set(i); }
        c->tt = d; return *d;
    }
    void freeVars(State &st, E c, std::vector<uint16_t> &out) { out.clear(); for (auto x : c->vs->v) if (st.doms[x].count() > 1) out.push_back(x); }
    Dom truthUnder(State &st, E c, uint16_t x) {
        if (c->vs->v.size() == 1) return truth(c);
        Dom d = Dom::none(); uint8_t old = st.model[x];
        for (unsigned i = 0; i < 256; i++) if (st.doms[x].has(i)) { st.model[x] = i; if (eval(c, st.model.data(), ++epochCounter)) d.set(i); }
        st.model[x] = old; st.epoch = 0; return d;
    }
    bool checkModel(State &st, const std::vector<uint8_t> &m) { uint64_t ep = ++epochCounter; for (auto c : st.multi) if (!eval(c, m.data(), ep)) return false; return true; }

    // Is pc && c satisfiable? On YES, `m` holds a satisfying model.
    Tri feasible(State &st, E c, std::vector<uint8_t> &m, bool forceZ3 = false) {
        nQueries++;
        if (c->isConst()) { m = st.model; return c->val ? YES : NO; }
        if (!forceZ3) {
            if (evalState(st, c)) { m = st.model; nModel++; return YES; }
            std::vector<uint16_t> fv; freeVars(st, c, fv);
            if (fv.empty()) { nDom++; return NO; }
            if (fv.size() == 1) {
                uint16_t x = fv[0]; Dom d = st.doms[x] & truthUnder(st, c, x);
                if (d.empty()) { nDom++; return NO; }
                bool inMulti = false; for (auto k : st.multi) if (k->vs->has(x)) { inMulti = true; break; }
                if (!inMulti) { m = st.model; m[x] = d.first(); nDom++; return YES; }
                int tries = 0; m = st.model;
                for (unsigned i = 0; i < 256 && tries < 6; i++) if (d.has(i)) {
                    m[x] = i; tries++; uint64_t ep = ++epochCounter; bool ok = true;
                    for (auto k : st.multi) if (k->vs->has(x) && !eval(k, m.data(), ep)) { ok = false; break; }
                    if (ok) { nModel++; return YES; }
                }
            }
        }
        return slow(st, c, m, forceZ3);
    }
    Tri slow(State &st, E c, std::vector<uint8_t> &m, bool force) {
        // slice
        std::vector<char> inS(st.doms.size(), 0); std::vector<uint16_t> work;
        auto addVars = [&](E e) { for (auto x : e->vs->v) if (!inS[x]) { inS[x] = 1; if (st.doms[x].count() > 1) work.push_back(x); } };
        addVars(c); std::vector<E> sl; std::vector<char> used(st.multi.size(), 0);
        while (!work.empty()) { uint16_t x = work.back(); work.pop_back(); for (size_t i = 0; i < st.multi.size(); i++) if (!used[i] && st.multi[i]->vs->has(x)) { used[i] = 1; sl.push_back(st.multi[i]); addVars(st.multi[i]); } }
        std::vector<uint32_t> key; for (auto e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(c->id); key.push_back(0);
        for (size_t x = 0; x < inS.size(); x++) if (inS[x] && !(st.doms[x] == Dom::full())) { key.push_back(x); for (auto w : st.doms[x].w) { key.push_back((uint32_t)w); key.push_back((uint32_t)(w >> 32)); } }
        auto it = cache.find(key);
        if (it != cache.end()) { nCache++; m = st.model; for (auto &p : it->second.m) m[p.first] = p.second; return it->second.r; }
        if (!force) for (auto &r : recent) { // counterexample cache
            m = st.model; for (auto &p : r) if (p.first < m.size() && inS[p.first] && st.doms[p.first].has(p.second)) m[p.first] = p.second;
            uint64_t ep = ++epochCounter; if (!eval(c, m.data(), ep)) continue; bool ok = true; for (auto k : sl) if (!eval(k, m.data(), ep)) { ok = false; break; }
            if (ok) { nModel++; return YES; }
        }
        double t0 = now();
        if (linearQuery(st, c, sl, inS)) {
            CacheEnt le; if (solveInt(st, c, sl, inS, le)) { nZ3++; nInt++; m = st.model; for (auto &p : le.m) m[p.first] = p.second; if (le.r == YES) { if (recent.size() < 24) recent.push_back(le.m); else recent[recentPos++ % 24] = le.m; } double dt = now() - t0; z3Time += dt; z3Max = std::max(z3Max, dt); cache[key] = le;
                if (le.r == YES) { uint64_t ep = ++epochCounter; if (!eval(c, m.data(), ep) || !checkModel(st, m)) { fprintf(stderr, "fsx: internal: integer model does not satisfy query\n"); abort(); } } return le.r; } }
        if (++z3Count % 2000 == 0) { s = z3::solver(ctx, "QF_BV"); setParams(); }
        s.push();
        for (size_t x = 0; x < inS.size(); x++) if (inS[x]) s.add(domExpr(x, st.doms[x]));
        for (auto k : sl) s.add(convBool(k)); s.add(convBool(c));
        CacheEnt ent; z3::check_result cr = z3::unknown; try { cr = s.check(); } catch (z3::exception &) { cr = z3::unknown; }
        nZ3++;
        if (cr == z3::sat) {
            z3::model zm = s.get_model(); ent.r = YES; m = st.model;
            for (size_t x = 0; x < inS.size(); x++) if (inS[x]) { z3::expr v = zm.eval(conv(mkVar(x)), true); uint64_t n = 0; Z3_get_numeral_uint64(ctx, v, &n); m[x] = (uint8_t)n; ent.m.push_back({(uint16_t)x, (uint8_t)n}); }
            if (recent.size() < 24) recent.push_back(ent.m); else recent[recentPos++ % 24] = ent.m;
            } else if (cr == z3::unsat) ent.r = NO; else { ent.r = UNKNOWN; nUnknown++; if (getenv("FSX_DUMPQ")) { for (auto e : sl) fprintf(stderr, "  pc %s\n", show(e, 12).c_str()); fprintf(stderr, "  unknown %s\n", show(c, 12).c_str()); } }
        s.pop(); double dt = now() - t0; z3Time += dt; z3Max = std::max(z3Max, dt);
        cache[key] = ent;
        if (ent.r == YES) { uint64_t ep = ++epochCounter; if (!eval(c, m.data(), ep) || !checkModel(st, m)) { fprintf(stderr, "fsx: internal: z3 model does not satisfy query\n"); abort(); } }
        return ent.r;
    }
    // ---- sums and comparisons of times: decided over the integers, which bit-blasting is bad at ----
    uint64_t nInt = 0;
    bool intVal(E e, z3::expr *out) { // exact unsigned value of e as an integer term
        auto put = [&](const z3::expr &x) { if (out) *out = x; return true; }; auto num = [&](uint64_t v) { return ctx.int_val((uint64_t)v); }; z3::expr a(ctx), b(ctx), d(ctx); z3::expr *pa = out ? &a : nullptr, *pb = out ? &b : nullptr;
        switch (e->kind) {
        case K_CONST: return !out || put(num(e->val)); case K_VAR: { if (!out) return true; char n[24]; snprintf(n, sizeof n, "i%u", (unsigned)e->val); return put(ctx.int_const(n)); }
        case K_ZEXT: return intVal(e->a, out);
        case K_CONCAT: if (!intVal(e->a, pa) || !intVal(e->b, pb)) return false; return !out || put(a * num(1ull << e->b->width) + b);
        case K_EXTRACT: if (e->a->kind != K_VAR || !intVal(e->a, pa)) return false; return !out || put(z3::mod(a / num(1ull << e->val), num(1ull << e->width)));
        case K_ADD: case K_MUL: case K_SUB: if (e->kind == K_MUL && !e->b->isConst()) return false; if (!exactUnsigned(e)) return false; if (!intVal(e->a, pa) || !intVal(e->b, pb)) return false; return !out || put(e->kind == K_ADD ? a + b : e->kind == K_SUB ? a - b : a * b);
        case K_UDIV: if (!e->b->isConst() || !e->b->val || !intVal(e->a, pa)) return false; return !out || put(a / num(e->b->val));
        case K_ITE: { bool ar = false; if (!intBool(e->a, out ? &d : nullptr, ar) || !intVal(e->b, pa) || !intVal(e->c, pb)) return false; return !out || put(z3::ite(d, a, b)); }
        default: return false; } }
    bool intSVal(E e, z3::expr *out) { // exact signed value
        z3::expr a(ctx), b(ctx), d(ctx); z3::expr *pa = out ? &a : nullptr, *pb = out ? &b : nullptr;
        if (e->kind == K_CONST) { if (out) *out = ctx.int_val((int64_t)sextw(e->val, e->width)); return true; }
        if (e->kind == K_ITE) { bool ar = false; if (!intBool(e->a, out ? &d : nullptr, ar) || !intSVal(e->b, pa) || !intSVal(e->c, pb)) return false; if (out) *out = z3::ite(d, a, b); return true; }
        if (e->kind == K_ADD || e->kind == K_SUB || e->kind == K_MUL) { std::vector<std::pair<E, int64_t>> t; int64_t k = 0; if (!signedTerms(e, t, k)) return false; z3::expr r = ctx.int_val(k); for (auto &p : t) { if (p.first == e || !intSVal(p.first, pa)) return false; if (out) r = r + a * ctx.int_val(p.second); } if (out) *out = r; return true; }
        if (e->kind == K_SDIV && e->b->isConst() && sextw(e->b->val, e->width) > 1) { if (!intSVal(e->a, pa)) return false; if (out) { z3::expr c = ctx.int_val((int64_t)e->b->val); *out = z3::ite(a >= 0, a / c, -((-a) / c)); } return true; }
        return signedNonNeg(e) && intVal(e, out); }
    bool intBool(E e, z3::expr *out, bool &arith) {
        auto put = [&](const z3::expr &x) { if (out) *out = x; return true; }; z3::expr a(ctx), b(ctx); z3::expr *pa = out ? &a : nullptr, *pb = out ? &b : nullptr;
        switch (e->kind) {
        case K_CONST: return !out || put(ctx.bool_val(e->val != 0));
        case K_EQ: case K_ULT: case K_ULE: if (e->a->width == 1) return false; if (e->a->kind == K_ADD || e->b->kind == K_ADD) arith = true; if (!intVal(e->a, pa) || !intVal(e->b, pb)) return false; return !out || put(e->kind == K_EQ ? a == b : e->kind == K_ULT ? a < b : a <= b);
        case K_SLT: case K_SLE: if (e->a->width == 1) return false; arith = true; if (!intSVal(e->a, pa) || !intSVal(e->b, pb)) return false; return !out || put(e->kind == K_SLT ? a < b : a <= b);
        case K_AND: case K_OR: if (e->width != 1 || !intBool(e->a, pa, arith) || !intBool(e->b, pb, arith)) return false; return !out || put(e->kind == K_AND ? a && b : a || b);
        case K_XOR: if (e->width != 1 || !e->b->isConst() || !intBool(e->a, pa, arith)) return false; return !out || put(e->b->val ? !a : a);
        default: return false; } }
    bool linearQuery(State &st, E c, std::vector<E> &sl, std::vector<char> &inS) { bool arith = false; if (!intBool(c, nullptr, arith)) return false; for (auto k : sl) if (!intBool(k, nullptr, arith)) return false; return arith; }
    bool solveInt(State &st, E c, std::vector<E> &sl, std::vector<char> &inS, CacheEnt &ent) {
        z3::solver q(ctx, "QF_LIA"); z3::params p(ctx); p.set("timeout", timeoutMs / 4); q.set(p); bool ar = false; z3::expr t(ctx);
        for (size_t x = 0; x < inS.size(); x++) if (inS[x]) { z3::expr v(ctx); intVal(mkVar(x), &v); q.add(v >= 0 && v <= 255); const Dom &d = st.doms[x]; if (!(d == Dom::full())) { z3::expr r = ctx.bool_val(false); for (unsigned i = 0; i < 256;) { if (!d.has(i)) { i++; continue; } unsigned j = i; while (j < 255 && d.has(j + 1)) j++; r = r || (v >= (int)i && v <= (int)j); i = j + 1; } q.add(r); } }
        for (auto k : sl) { intBool(k, &t, ar); q.add(t); } intBool(c, &t, ar); q.add(t); z3::check_result cr = z3::unknown; try { cr = q.check(); } catch (z3::exception &) { cr = z3::unknown; }
        if (cr == z3::unknown) return false; if (cr == z3::unsat) { ent.r = NO; return true; }
        z3::model zm = q.get_model(); ent.r = YES; for (size_t x = 0; x < inS.size(); x++) if (inS[x]) { z3::expr v(ctx); intVal(mkVar(x), &v); z3::expr r = zm.eval(v, true); uint64_t n = 0; Z3_get_numeral_uint64(ctx, r, &n); ent.m.push_back({(uint16_t)x, (uint8_t)n}); }
        return true; }
    z3::expr domExpr(unsigned x, const Dom &d) {
        z3::expr v = conv(mkVar(x)); if (d == Dom::full()) return ctx.bool_val(true);
        z3::expr r = ctx.bool_val(false);
        for (unsigned i = 0; i < 256;) { if (!d.has(i)) { i++; continue; } unsigned j = i; while (j < 255 && d.has(j + 1)) j++; r = r || (i == j ? v == ctx.bv_val(i, 8) : (z3::uge(v, ctx.bv_val(i, 8)) && z3::ule(v, ctx.bv_val(j, 8)))); i = j + 1; }
        return r;
    }
    // Adds c, which the state's model must satisfy.
    void add(State &st, E c) {
        if (c->isConst()) return;
        if (c->kind == K_AND && c->width == 1) { add(st, c->a); add(st, c->b); return; }
        std::vector<uint16_t> fv; freeVars(st, c, fv);
        if (fv.empty()) return;
        if (fv.size() == 1) { restrict(st, fv[0], truthUnder(st, c, fv[0])); return; }
        for (auto k : st.multi) if (k == c) return;
        st.multi.push_back(c);
    }
    void restrict(State &st, uint16_t x, const Dom &d) {
        Dom n = st.doms[x] & d; if (n == st.doms[x]) return; st.doms[x] = n;
        if (n.count() != 1) return;
        for (size_t i = 0; i < st.multi.size();) {
            E k = st.multi[i]; if (!k->vs->has(x)) { i++; continue; }
            std::vector<uint16_t> fv; freeVars(st, k, fv);
            if (fv.size() > 1) { i++; continue; }
            st.multi.erase(st.multi.begin() + i);
            if (fv.size() == 1) { restrict(st, fv[0], truthUnder(st, k, fv[0])); i = 0; }
        }
    }
};

} // namespace fsx
