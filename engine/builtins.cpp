#include "engine.hpp"
#include <cmath>
using namespace llvm;
namespace fsx {
static void setRet(State &st, Engine &e, const Inst &I, SV v, int i = 0) { if (I.dst >= 0) e.top(st).regs[I.dst + i] = v; }
static SV C(uint64_t v) { SV s; s.c = v; return s; }
#define BI(name) static BR name(Engine &en, State &st, const Inst &I, CallInfo &ci, SV *a, int n)
#define CONC(i, why) do { en.concArg(st, I, ci, a, i, why); } while (0)

static BR doCopy(Engine &en, State &st, const Inst &I, CallInfo &ci, SV *a) {
    CONC(0, "memcpy dst"); CONC(1, "memcpy src"); CONC(2, "memcpy size"); uint64_t n = a[2].c; if (!n) return B_DONE;
    if (n > (1u << 30)) { en.violation(st, "out-of-bounds", "copy of " + std::to_string(n) + " bytes"); return B_DEAD; }
    MemObj *s, *d; uint32_t so, dof; if (!en.checkMem(st, a[1].c, n, false, "memory copy (source)", s, so)) return B_DEAD; if (!en.checkMem(st, a[0].c, n, true, "memory copy (destination)", d, dof)) return B_DEAD;
    if (st.th.size() > 1 && en.raceCheck) { for (uint64_t k = 0; k < n; k += 8) { en.raceAccess(st, a[1].c + k, 8, false); en.raceAccess(st, a[0].c + k, 8, true); } }
    s = en.obj(st, a[1].c >> 32, false); // may have been cloned by the write access
    if (!s->nsym && !d->nsym) { memmove(d->data + dof, s->data + so, n); return B_DONE; }
    std::vector<E> t(n); for (uint64_t i = 0; i < n; i++) t[i] = s->nsym ? s->sym[so + i] : nullptr;
    memmove(d->data + dof, s->data + so, n); for (uint64_t i = 0; i < n; i++) { if (t[i]) d->setSym(dof + i, t[i]); else if (d->sym && d->sym[dof + i]) { d->sym[dof + i] = nullptr; d->nsym--; } }
    return B_DONE;
}
static BR doSet(Engine &en, State &st, const Inst &I, CallInfo &ci, SV *a) {
    CONC(0, "memset dst"); CONC(2, "memset size"); uint64_t n = a[2].c; if (!n) return B_DONE; if (n > (1u << 30)) { en.violation(st, "out-of-bounds", "memset size"); return B_DEAD; }
    MemObj *d; uint32_t o; if (!en.checkMem(st, a[0].c, n, true, "memset", d, o)) return B_DEAD;
    if (a[1].e) { E b = a[1].e->width > 8 ? mkExtract(a[1].e, 0, 8) : a[1].e; for (uint64_t i = 0; i < n; i++) d->setSym(o + i, b); }
    else { memset(d->data + o, (int)a[1].c, n); if (d->nsym) for (uint64_t i = 0; i < n; i++) if (d->sym[o + i]) { d->sym[o + i] = nullptr; d->nsym--; } }
    return B_DONE;
}
BI(b_memcpy) { BR r = doCopy(en, st, I, ci, a); if (r == B_DONE) setRet(st, en, I, a[0]); return r; }
BI(b_memset) { BR r = doSet(en, st, I, ci, a); if (r == B_DONE) setRet(st, en, I, a[0]); return r; }
static BR doCmp(Engine &en, State &st, const Inst &I, CallInfo &ci, SV *a, bool eqOnly) {
    CONC(0, "memcmp"); CONC(1, "memcmp"); CONC(2, "memcmp size"); std::vector<SV> x, y; if (!en.readBytes(st, a[0].c, a[2].c, x) || !en.readBytes(st, a[1].c, a[2].c, y)) return B_DEAD;
    E diff = mkC(0, 1); E r = mkC(0, 32);
    if (eqOnly) { for (size_t i = 0; i < x.size(); i++) { if (!x[i].e && !y[i].e) { if (x[i].c != y[i].c) { diff = mkC(1, 1); break; } continue; } diff = mkBin(K_OR, diff, mkNot(mkEq(en.toE(x[i], 8), en.toE(y[i], 8)))); } r = mkZExt(diff, 32); }
    else for (int i = (int)x.size() - 1; i >= 0; i--) {
        if (!x[i].e && !y[i].e) { if (x[i].c != y[i].c) r = mkC(x[i].c < y[i].c ? 0xffffffffu : 1, 32); continue; }
        E p = en.toE(x[i], 8), q = en.toE(y[i], 8); r = mkIte(mkEq(p, q), r, mkIte(mkBin(K_ULT, p, q), mkC(0xffffffffu, 32), mkC(1, 32)));
    }
    setRet(st, en, I, Engine::fromE(r)); return B_DONE;
}
BI(b_memcmp) { return doCmp(en, st, I, ci, a, false); }
BI(b_bcmp) { return doCmp(en, st, I, ci, a, true); }
BI(b_malloc) { CONC(0, "malloc size"); if (a[0].c > (1ull << 31)) { setRet(st, en, I, C(0)); return B_DONE; } setRet(st, en, I, C(en.alloc(st, a[0].c, I.I))); return B_DONE; }
BI(b_new) { CONC(0, "new size"); if (a[0].c >= (1ull << 31)) { en.violation(st, "huge-allocation", "allocation of " + std::to_string(a[0].c) + " bytes"); return B_DEAD; } setRet(st, en, I, C(en.alloc(st, a[0].c, I.I))); return B_DONE; }
BI(b_calloc) { CONC(0, "calloc"); CONC(1, "calloc"); uint64_t sz = a[0].c * a[1].c; uint64_t p = en.alloc(st, sz, I.I); MemObj *o = en.obj(st, p >> 32, true); memset(o->data, 0, sz); setRet(st, en, I, C(p)); return B_DONE; }
BI(b_free) {
    CONC(0, "free"); if (!a[0].c) return B_DONE; uint32_t id = a[0].c >> 32; MemObj *o = en.obj(st, id, false);
    if (!o || o->kind == OK_FREED) { en.violation(st, "double-free", "free of an object that is not live"); return B_DEAD; }
    if (o->kind != OK_HEAP || (uint32_t)a[0].c) { en.violation(st, "invalid-free", "free of a pointer that is not the start of a heap object"); return B_DEAD; }
    st.heapBytes -= o->size; en.freedMark->rc++; st.heap.put(id, en.freedMark); return B_DONE;
}
BI(b_realloc) {
    CONC(0, "realloc"); CONC(1, "realloc"); if (a[1].c > (1ull << 31)) { setRet(st, en, I, C(0)); return B_DONE; } uint64_t old = a[0].c; uint64_t p = en.alloc(st, a[1].c, I.I);
    if (old) { MemObj *o; uint32_t off; if (!en.checkMem(st, old, 1, false, "realloc", o, off)) return B_DEAD; uint64_t k = std::min<uint64_t>(o->size, a[1].c); std::vector<SV> b; en.readBytes(st, old, k, b); en.writeBytes(st, p, b); en.freedMark->rc++; st.heap.put(old >> 32, en.freedMark); }
    setRet(st, en, I, C(p)); return B_DONE;
}
BI(b_abort) { en.violation(st, "abort", "process aborts (" + ci.name + ")"); return B_DEAD; }
BI(b_terminate) { en.violation(st, "terminate", "std::terminate is called"); return B_DEAD; }
BI(b_nop) { if (I.dst >= 0) for (unsigned i = 0; i < ci.retSlots; i++) setRet(st, en, I, C(0), i); return B_DONE; }
// text that only goes into the log: an empty std::string
BI(b_emptystr) { CONC(0, "string"); std::vector<SV> b(17); uint64_t d = a[0].c + 16; for (int i = 0; i < 8; i++) b[i].c = (d >> (8 * i)) & 255; return en.writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
BI(b_one) { setRet(st, en, I, C(1)); return B_DONE; }
BI(b_ret0) { setRet(st, en, I, a[0]); return B_DONE; }
BI(b_assertfail) { std::string s; if (!a[0].e) en.readCStr(st, a[0].c, s); en.violation(st, "assertion", "assert(" + s + ") fails"); return B_DEAD; }
// exceptions: 64 byte header {typeinfo, destructor}
BI(b_exalloc) { CONC(0, "exception size"); uint64_t p = en.alloc(st, a[0].c + 64, I.I); MemObj *o = en.obj(st, p >> 32, true); memset(o->data, 0, 64); setRet(st, en, I, C(p + 64)); return B_DONE; }
BI(b_throw) { MemObj *o = en.obj(st, a[0].c >> 32, true); if (!o) return B_DEAD; memcpy(o->data, &a[1].c, 8); memcpy(o->data + 8, &a[2].c, 8); st.th[st.cur].uncaught++; return en.unwind(st, a[0].c) ? B_CALLED : B_DEAD; }
BI(b_begincatch) { st.th[st.cur].caught.push_back({a[0].c, false}); st.th[st.cur].uncaught--; setRet(st, en, I, a[0]); return B_DONE; }
BI(b_endcatch) {
    auto &c = st.th[st.cur].caught; if (c.empty()) return B_DONE; Caught k = c.back(); c.pop_back(); if (k.rethrown) return B_DONE; for (auto &x : c) if (x.exc == k.exc) return B_DONE;
    MemObj *o = en.obj(st, k.exc >> 32, false); if (!o || o->kind == OK_FREED) return B_DONE; uint64_t d; memcpy(&d, o->data + 8, 8); uint64_t rc; memcpy(&rc, o->data + 16, 8); if (rc) return B_DONE; if (!d) return B_DONE;
    uint32_t id = (d >> 32) - 0x20000000u; if (id >= en.fnById.size()) return B_DONE; FuncCode *f = en.fnById[id]; if (f->F->isDeclaration()) return B_DONE; SV x; x.c = k.exc; return en.pushFrame(st, f, &x, 1, true) ? B_CALLED : B_DEAD;
}
BI(b_rethrow) { auto &c = st.th[st.cur].caught; if (c.empty()) { en.violation(st, "terminate", "rethrow without exception"); return B_DEAD; } c.back().rethrown = true; st.th[st.cur].uncaught++; return en.unwind(st, c.back().exc) ? B_CALLED : B_DEAD; }
BI(b_uncaught) { setRet(st, en, I, C(st.th[st.cur].uncaught)); return B_DONE; }
BI(b_uncaughtb) { setRet(st, en, I, C(st.th[st.cur].uncaught > 0)); return B_DONE; }
BI(b_curexc) { // std::exception_ptr current_exception(): sret pointer
    auto &c = st.th[st.cur].caught; uint64_t v = c.empty() ? 0 : c.back().exc; if (v) { MemObj *o = en.obj(st, v >> 32, true); o->data[16] = 1; } std::vector<SV> b(8); for (int i = 0; i < 8; i++) b[i].c = (v >> (8 * i)) & 255; return en.writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
BI(b_rethrowptr) { std::vector<SV> b; if (!en.readBytes(st, a[0].c, 8, b)) return B_DEAD; uint64_t v = 0; for (int i = 0; i < 8; i++) v |= b[i].c << (8 * i); st.th[st.cur].uncaught++; return en.unwind(st, v) ? B_CALLED : B_DEAD; }
BI(b_guardacq) { std::vector<SV> b; if (!en.readBytes(st, a[0].c, 1, b)) return B_DEAD; setRet(st, en, I, C(b[0].c ? 0 : 1)); return B_DONE; }
BI(b_guardrel) { std::vector<SV> b(1); b[0].c = 1; return en.writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
BI(b_dyncast) {
    CONC(0, "dynamic_cast"); if (!a[0].c) { setRet(st, en, I, C(0)); return B_DONE; } std::vector<SV> b; auto rd = [&](uint64_t ad) { uint64_t v = 0; if (!en.readBytes(st, ad, 8, b)) return v; for (int i = 0; i < 8; i++) v |= b[i].c << (8 * i); return v; };
    uint64_t vp = rd(a[0].c); int64_t top = rd(vp - 16); uint64_t ti = rd(vp - 8); uint32_t id = (ti >> 32) - 0x10000000u, di = (a[2].c >> 32) - 0x10000000u;
    bool ok = id < en.gvs.size() && di < en.gvs.size() && en.isDerived(en.gvs[id], en.gvs[di]); setRet(st, en, I, C(ok ? a[0].c + top : 0)); return B_DONE; }
// ---- harness API ----
BI(b_symbolic) {
    CONC(0, "ptr"); CONC(1, "n"); std::string name; en.readCStr(st, a[2].c, name); uint64_t cnt = a[1].c; auto in = std::make_shared<Input>(); in->name = name; in->kind = 0; in->val = 0; std::vector<SV> b(cnt);
    for (uint64_t i = 0; i < cnt; i++) { uint16_t v = st.doms.size(); st.doms.push_back(Dom::full()); st.model.push_back(0); b[i].e = mkVar(v); } st.epoch = 0; in->bytes = b; st.inputs.push_back(in); return en.writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
BI(b_choice) { // unsigned fsx_choice(const char* name, unsigned n)
    std::string name; en.readCStr(st, a[0].c, name); CONC(1, "n"); uint64_t k = a[1].c; auto it = en.fixed.find(name); auto mk = [&](State &s, uint64_t v) { auto in = std::make_shared<Input>(); in->name = name; in->kind = 1; in->val = v; s.inputs.push_back(in); setRet(s, en, I, C(v)); };
    bool first = true; if (it != en.fixed.end()) for (auto &i : st.inputs) if (i->kind == 1 && i->name == name) { first = false; break; } // a shard fixes the first choice of that name
    if (it != en.fixed.end() && first) { mk(st, it->second); return it->second < k ? B_DONE : B_DEAD; } if (!k) return B_DEAD;
    for (uint64_t v = k - 1; v >= 1; v--) { auto s2 = en.fork(st); mk(*s2, v); en.finishCall(*s2, en.top(*s2), I, ci, nullptr); en.work.push_back(std::move(s2)); }
    mk(st, 0); return B_DONE; }
BI(b_assume) {
    en.assumes++; SV c = a[0]; if (!c.e) { if (!(c.c & 1) && !c.c) { en.infeasible++; return B_DEAD; } return B_DONE; } E e = c.e->width == 1 ? c.e : mkNot(mkEq(c.e, mkC(0, c.e->width)));
    std::vector<uint8_t> m; Tri t = en.sol.feasible(st, e, m); if (t != YES) { if (t == UNKNOWN) en.incon(st, "solver timeout in assume"); en.infeasible++; return B_DEAD; } st.model = m; st.epoch = 0; en.sol.add(st, e); return B_DONE; }
BI(b_assert) { // fsx_assert(cond, "message")
    std::string msg; en.readCStr(st, a[1].c, msg); en.asserts++; en.assertSites[msg]++; SV c = a[0];
    if (!c.e) { if (!c.c) { en.violation(st, "assert", msg); return B_DEAD; } en.assertsConst++; return B_DONE; }
    E e = c.e->width == 1 ? c.e : mkNot(mkEq(c.e, mkC(0, c.e->width))); std::vector<uint8_t> m; en.assertsSolver++; Tri t = en.sol.feasible(st, mkNot(e), m, true);
    if (t == UNKNOWN) { en.incon(st, "solver timeout in assertion: " + msg); return B_DONE; }
    if (t == YES) { en.violation(st, "assert", msg, &m); Tri t2 = en.sol.feasible(st, e, m); if (t2 != YES) return B_DEAD; st.model = m; st.epoch = 0; en.sol.add(st, e); }
    return B_DONE; }
BI(b_cover) { std::string msg; en.readCStr(st, a[0].c, msg); auto it = en.coverIdx.find(msg); int id; if (it == en.coverIdx.end()) { id = en.coverNames.size(); en.coverNames.push_back(msg); en.coverIdx[msg] = id; } else id = it->second; for (int x : *st.cover) if (x == id) return B_DONE; auto v = std::make_shared<std::vector<int>>(*st.cover); v->push_back(id); st.cover = v; return B_DONE; }
BI(b_obs) { std::string name; en.readCStr(st, a[0].c, name); CONC(1, "obs"); CONC(2, "obs"); auto o = std::make_shared<Obs>(); o->name = name; if (!en.readBytes(st, a[1].c, a[2].c, o->bytes)) return B_DEAD; st.obs.push_back(o); return B_DONE; }
BI(b_obsu) { std::string name; en.readCStr(st, a[0].c, name); auto o = std::make_shared<Obs>(); o->name = name; o->bytes.resize(8); for (int i = 0; i < 8; i++) { if (a[1].e) { E x = mkExtract(a[1].e, 8 * i, 8); o->bytes[i] = Engine::fromE(x); } else o->bytes[i].c = (a[1].c >> (8 * i)) & 255; } st.obs.push_back(o); return B_DONE; }
BI(b_stop) { en.finish(st, "stop"); return B_DEAD; }
BI(b_conc) { CONC(0, "fsx_concretize"); setRet(st, en, I, a[0]); return B_DONE; }
BI(b_issym) { setRet(st, en, I, C(a[0].e != nullptr)); return B_DONE; }
BI(b_valid) { // is [p,p+n) inside a live object
    CONC(0, "ptr"); CONC(1, "n"); MemObj *o = en.obj(st, a[0].c >> 32, false); bool ok = o && o->kind != OK_FREED && (uint64_t)(uint32_t)a[0].c + a[1].c <= o->size; setRet(st, en, I, C(ok)); return B_DONE; }
BI(b_print) { std::string s; en.readCStr(st, a[0].c, s); fprintf(stderr, "fsx_print: %s", s.c_str()); for (int i = 1; i < n; i++) { if (a[i].e) fprintf(stderr, " %s(=%llu)", show(a[i].e).c_str(), (unsigned long long)en.sol.evalState(st, a[i].e)); else fprintf(stderr, " %llu", (unsigned long long)a[i].c); } fprintf(stderr, "\n"); return B_DONE; }
BI(b_exit) { en.finish(st, "exit"); return B_DEAD; }
BI(b_live) { setRet(st, en, I, C(st.heapBytes)); return B_DONE; }
// ---- threads and locks ----
static void vcJoin(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static BR sched(Engine &en, State &st) { if (st.th.size() > 1 && !st.th[st.cur].schedPassed) { int c = st.cur; if (!en.threadYield(st, false)) return B_DEAD; if (st.cur != c) return B_RETRY; } st.th[st.cur].schedPassed = false; return B_DONE; }
static BR blockOn(Engine &en, State &st, uint64_t addr) { st.th[st.cur].blockedOn = addr; return en.threadYield(st, true) ? B_RETRY : B_DEAD; }
static void wake(State &st, uint64_t addr) { for (auto &t : st.th) if (t.blockedOn == addr) t.blockedOn = 0; }
static BR lockImpl(Engine &en, State &st, const Inst &I, uint64_t addr, bool excl, bool tryOnly) {
    BR r = sched(en, st); if (r != B_DONE) return r; auto &h = st.locks[addr]; int me = st.cur; bool busy = false, self = false;
    for (int o : h) { if (o < 0) { busy = true; if (-1 - o == me) self = true; } else { if (excl) { busy = true; } if (o == me) self = true; } }
    if (self && !tryOnly && (excl || busy)) { en.violation(st, "deadlock", "thread locks a lock it already holds"); return B_DEAD; }
    if (self && !excl && !busy && !tryOnly) { en.violation(st, "deadlock", "recursive read lock (undefined for shared_mutex)"); return B_DEAD; }
    if (busy) { if (tryOnly) { setRet(st, en, I, C(16)); return B_DONE; } st.th[st.cur].schedPassed = true; return blockOn(en, st, addr); }
    h.push_back(excl ? -1 - me : me); auto it = st.lockVc.find(addr); if (it != st.lockVc.end()) vcJoin(st.th[me].vc, it->second); setRet(st, en, I, C(0)); return B_DONE;
}
BI(b_lock) { return lockImpl(en, st, I, a[0].c, true, false); }
BI(b_trylock) { return lockImpl(en, st, I, a[0].c, true, true); }
BI(b_rdlock) { return lockImpl(en, st, I, a[0].c, false, false); }
BI(b_tryrdlock) { return lockImpl(en, st, I, a[0].c, false, true); }
BI(b_unlock) {
    BR r = sched(en, st); if (r != B_DONE) return r; auto &h = st.locks[a[0].c]; int me = st.cur; bool ok = false; for (size_t i = 0; i < h.size(); i++) if (h[i] == me || h[i] == -1 - me) { h.erase(h.begin() + i); ok = true; break; }
    if (!ok) { en.violation(st, "lock-discipline", "unlock of a lock not held by this thread"); return B_DEAD; }
    auto &v = st.th[me].vc; if (v.size() <= (size_t)me) v.resize(me + 1); vcJoin(st.lockVc[a[0].c], v); v[me]++; wake(st, a[0].c); setRet(st, en, I, C(0)); return B_DONE; }
BI(b_held) { // fsx_lock_held(addr): 0 none, 1 shared by me, 2 exclusively by me, 3 other
    auto it = st.locks.find(a[0].c); uint64_t r = 0; if (it != st.locks.end()) for (int o : it->second) { if (o == st.cur) r = 1; else if (o == -1 - st.cur) r = 2; else if (!r) r = 3; } setRet(st, en, I, C(r)); return B_DONE; }
BI(b_nlocks) { uint64_t c = 0; for (auto &p : st.locks) for (int o : p.second) if (o == st.cur || o == -1 - st.cur) c++; setRet(st, en, I, C(c)); return B_DONE; }
BI(b_spawn) { // fsx_spawn(fn, arg)
    uint32_t id = (a[0].c >> 32) - 0x20000000u; if (id >= en.fnById.size()) return B_DEAD; FuncCode *f = en.fnById[id]; int me = st.cur; int t = st.th.size(); st.th.emplace_back(); st.stacks.emplace_back(); st.th[t].vc = st.th[me].vc; if (st.th[me].vc.size() <= (size_t)me) st.th[me].vc.resize(me + 1); st.th[t].vc = st.th[me].vc; st.th[t].vc.resize(t + 1); st.th[t].vc[t] = 1; st.th[me].vc[me]++;
    st.cur = t; bool ok = en.pushFrame(st, f, &a[1], 1, true); st.cur = me; if (!ok) return B_DEAD; setRet(st, en, I, C(t)); return B_DONE; }
BI(b_joinall) { int me = st.cur; for (size_t i = 0; i < st.th.size(); i++) if ((int)i != me && !st.th[i].done) { // block until others are done: run another thread
            bool any = false; for (size_t j = 0; j < st.th.size(); j++) if ((int)j != me && !st.th[j].done && !st.th[j].blockedOn) any = true; if (!any) { en.violation(st, "deadlock", "no runnable thread"); return B_DEAD; } return en.threadYield(st, true) ? B_RETRY : B_DEAD; }
    for (auto &t : st.th) vcJoin(st.th[me].vc, t.vc); while (st.th.size() > 1) { st.th.pop_back(); st.stacks.pop_back(); } st.shadow.clear(); return B_DONE; }
BI(b_hash) { CONC(1, "hash length"); setRet(st, en, I, C(a[1].c)); return B_DONE; }
BI(b_tid) { setRet(st, en, I, C(st.cur + 1)); return B_DONE; }

void Engine::regBuiltins() {
    auto R = [&](Builtin b, std::initializer_list<const char *> l) { for (auto s : l) builtins[s] = b; };
    R(b_memcpy, {"memcpy", "memmove"}); R(b_memset, {"memset"}); R(b_memcmp, {"memcmp"}); R(b_bcmp, {"bcmp"});
    R(b_malloc, {"malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}); R(b_new, {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}); R(b_calloc, {"calloc"}); R(b_realloc, {"realloc"});
    R(b_free, {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"});
    R(b_abort, {"abort", "__cxa_pure_virtual", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}); R(b_terminate, {"_ZSt9terminatev", "__clang_call_terminate"}); R(b_assertfail, {"__assert_fail"}); R(b_exit, {"exit", "_exit"});
    R(b_exalloc, {"__cxa_allocate_exception"}); R(b_throw, {"__cxa_throw"}); R(b_begincatch, {"__cxa_begin_catch"}); R(b_endcatch, {"__cxa_end_catch"}); R(b_rethrow, {"__cxa_rethrow"}); R(b_ret0, {"__cxa_get_exception_ptr"}); R(b_nop, {"__cxa_free_exception", "__cxa_atexit", "__cxa_thread_atexit", "__dso_handle", "_ZNSt13exception_ptrD1Ev", "atexit"});
    R(b_uncaught, {"_ZSt19uncaught_exceptionsv"}); R(b_uncaughtb, {"_ZSt18uncaught_exceptionv"}); R(b_curexc, {"_ZSt17current_exceptionv"}); R(b_rethrowptr, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}); R(b_nop, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"});
    R(b_guardacq, {"__cxa_guard_acquire"}); R(b_guardrel, {"__cxa_guard_release"}); R(b_nop, {"__cxa_guard_abort"}); R(b_dyncast, {"__dynamic_cast"});
    R(b_symbolic, {"fsx_symbolic"}); R(b_choice, {"fsx_choice"}); R(b_assume, {"fsx_assume"}); R(b_assert, {"fsx_assert"}); R(b_cover, {"fsx_cover"}); R(b_obs, {"fsx_obs"}); R(b_obsu, {"fsx_obs_u64"}); R(b_stop, {"fsx_stop"}); R(b_conc, {"fsx_concretize"}); R(b_issym, {"fsx_is_symbolic"}); R(b_valid, {"fsx_valid"}); R(b_print, {"fsx_print"}); R(b_one, {"fsx_in_engine"}); R(b_live, {"fsx_live_heap"});
    R(b_lock, {"pthread_mutex_lock"}); R(b_trylock, {"pthread_mutex_trylock"}); R(b_unlock, {"pthread_mutex_unlock", "pthread_rwlock_unlock"}); R(b_rdlock, {"pthread_rwlock_rdlock"}); R(b_lock, {"pthread_rwlock_wrlock"}); R(b_trylock, {"pthread_rwlock_trywrlock"}); R(b_tryrdlock, {"pthread_rwlock_tryrdlock"}); R(b_held, {"fsx_lock_held"}); R(b_nlocks, {"fsx_locks_held"});
    R(b_nop, {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"});
    R(b_emptystr, {"_ZNK6Client22getKeepAliveInfoStringB5cxx11Ev"});
    R(b_spawn, {"fsx_spawn"}); R(b_joinall, {"fsx_join_all"}); R(b_tid, {"pthread_self", "fsx_thread"}); R(b_hash, {"_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm"});
}
// ---- LLVM intrinsics ----
static SV mapBool(E e) { return Engine::fromE(e); }
BR Engine::intrinsic(State &st, const Inst &I, CallInfo &ci, SV *a, int n) {
    unsigned w = ci.w; Engine &en = *this; Frame &f = top(st);
    auto el = [&](int arg, int i) -> SV { return a[arg * ci.vn + i]; };
    auto each = [&](auto fn) { for (unsigned i = 0; i < ci.retSlots; i++) f.regs[I.dst + i] = fn(i); };
    auto T = [&](const SV &v) { return toE(v, w); };
    switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return doCopy(en, st, I, ci, a);
    case Intrinsic::memset: case Intrinsic::memset_inline: return doSet(en, st, I, ci, a);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: setRet(st, en, I, a[0]); 
        if (ci.iid == Intrinsic::threadlocal_address && st.cur > 0) { // per-thread copy
            uint64_t g = a[0].c; std::vector<uint64_t> key; static std::map<std::pair<int, uint64_t>, int> dummy; (void)dummy; uint32_t gi = (g >> 32) - 0x10000000u; uint32_t id = gvs.size() + (uint32_t)gi * 8 + st.cur; MemObj *o = st.glob.get(id);
            if (!o) { const GlobalVariable *gv = gvs[gi]; uint64_t sz = DL->getTypeAllocSize(gv->getValueType()); o = MemObj::make(sz, OK_GLOBAL, gv); memset(o->data, 0, sz); if (gv->hasInitializer()) writeConst(st, o, 0, gv->getInitializer()); st.glob.put(id, o); }
            setRet(st, en, I, C((uint64_t)(0x10000000u + id) << 32 | (uint32_t)g)); }
        return B_DONE;
    case Intrinsic::umin: each([&](int i) { SV x = el(0, i), y = el(1, i); if (!x.e && !y.e) return C(std::min(x.c, y.c)); return fromE(mkIte(mkBin(K_ULT, T(x), T(y)), T(x), T(y))); }); return B_DONE;
    case Intrinsic::umax: each([&](int i) { SV x = el(0, i), y = el(1, i); if (!x.e && !y.e) return C(std::max(x.c, y.c)); return fromE(mkIte(mkBin(K_ULT, T(x), T(y)), T(y), T(x))); }); return B_DONE;
    case Intrinsic::smin: each([&](int i) { SV x = el(0, i), y = el(1, i); return fromE(mkIte(mkBin(K_SLT, T(x), T(y)), T(x), T(y))); }); for (unsigned i = 0; i < ci.retSlots; i++) {} return B_DONE;
    case Intrinsic::smax: each([&](int i) { SV x = el(0, i), y = el(1, i); return fromE(mkIte(mkBin(K_SLT, T(x), T(y)), T(y), T(x))); }); return B_DONE;
    case Intrinsic::abs: each([&](int i) { SV x = el(0, i); return fromE(mkIte(mkBin(K_SLT, T(x), mkC(0, w)), mkBin(K_SUB, mkC(0, w), T(x)), T(x))); }); return B_DONE;
    case Intrinsic::uadd_sat: each([&](int i) { E s = mkBin(K_ADD, T(el(0, i)), T(el(1, i))); return fromE(mkIte(mkBin(K_ULT, s, T(el(0, i))), mkC(~0ull, w), s)); }); return B_DONE;
    case Intrinsic::usub_sat: each([&](int i) { E x = T(el(0, i)), y = T(el(1, i)); return fromE(mkIte(mkBin(K_ULT, x, y), mkC(0, w), mkBin(K_SUB, x, y))); }); return B_DONE;
    case Intrinsic::bswap: each([&](int i) { SV x = el(0, i); E e = T(x); E r = nullptr; for (unsigned b = 0; b < w / 8; b++) { E y = mkExtract(e, b * 8, 8); r = r ? mkConcat(r, y) : y; } return fromE(r); }); return B_DONE;
    case Intrinsic::fshl: case Intrinsic::fshr: { CONC(2, "fsh"); unsigned s = a[2].c % w; E x = T(a[0]), y = T(a[1]); E r; if (ci.iid == Intrinsic::fshl) r = s ? mkBin(K_OR, mkBin(K_SHL, x, mkC(s, w)), mkBin(K_LSHR, y, mkC(w - s, w))) : x; else r = s ? mkBin(K_OR, mkBin(K_SHL, x, mkC(w - s, w)), mkBin(K_LSHR, y, mkC(s, w))) : y; setRet(st, en, I, fromE(r)); return B_DONE; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: each([&](int i) { SV x = el(0, i); if (!x.e) { uint64_t v = x.c & maskw(w); return C(ci.iid == Intrinsic::ctpop ? __builtin_popcountll(v) : !v ? w : ci.iid == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v)); }
            E r; if (ci.iid == Intrinsic::ctpop) { r = mkC(0, w); for (unsigned b = 0; b < w; b++) r = mkBin(K_ADD, r, mkZExt(mkExtract(x.e, b, 1), w)); } else { r = mkC(w, w); if (ci.iid == Intrinsic::cttz) for (int b = w - 1; b >= 0; b--) r = mkIte(mkExtract(x.e, b, 1), mkC(b, w), r); else for (unsigned b = 0; b < w; b++) r = mkIte(mkExtract(x.e, b, 1), mkC(w - 1 - b, w), r); } return fromE(r); }); return B_DONE;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        SV r, o; if (ci.iid == Intrinsic::umul_with_overflow || ci.iid == Intrinsic::smul_with_overflow) {
            if (w <= 32) { bool sg = ci.iid == Intrinsic::smul_with_overflow; E x = sg ? mkSExt(T(a[0]), 64) : mkZExt(T(a[0]), 64), y = sg ? mkSExt(T(a[1]), 64) : mkZExt(T(a[1]), 64); E p = mkBin(K_MUL, x, y); E lo = mkExtract(p, 0, w); r = fromE(lo); o = fromE(mkNot(mkEq(p, sg ? mkSExt(lo, 64) : mkZExt(lo, 64)))); }
            else if (!a[1].e && a[1].c && ci.iid == Intrinsic::umul_with_overflow) { r = bin(K_MUL, w, a[0], a[1]); o = bin(K_ULT, w, C(maskw(w) / (a[1].c & maskw(w))), a[0]); }
            else { CONC(0, "mul"); CONC(1, "mul"); if (ci.iid == Intrinsic::umul_with_overflow) { unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; r.c = (uint64_t)p; o.c = (p >> 64) != 0; } else { __int128 p = (__int128)(int64_t)a[0].c * (int64_t)a[1].c; r.c = (uint64_t)p; o.c = p != (int64_t)p; } } }
        else if (ci.iid == Intrinsic::uadd_with_overflow) { r = bin(K_ADD, w, a[0], a[1]); o = bin(K_ULT, w, r, a[0]); }
        else if (ci.iid == Intrinsic::usub_with_overflow) { r = bin(K_SUB, w, a[0], a[1]); o = bin(K_ULT, w, a[0], a[1]); }
        else { bool add = ci.iid == Intrinsic::sadd_with_overflow; r = bin(add ? K_ADD : K_SUB, w, a[0], a[1]); SV z = C(0); SV sa = bin(K_SLT, w, a[0], z), sb = bin(K_SLT, w, a[1], z), sr = bin(K_SLT, w, r, z); SV same = bin(K_EQ, 1, sa, sb); if (!add) same = bin(K_XOR, 1, same, C(1)); o = bin(K_AND, 1, same, bin(K_XOR, 1, bin(K_EQ, 1, sa, sr), C(1))); }
        setRet(st, en, I, r, 0); setRet(st, en, I, o, 1); return B_DONE; }
    case Intrinsic::objectsize: setRet(st, en, I, C(~0ull)); return B_DONE;
    case Intrinsic::is_constant: setRet(st, en, I, C(0)); return B_DONE;
    case Intrinsic::eh_typeid_for: { uint32_t id = (a[0].c >> 32) - 0x10000000u; setRet(st, en, I, C(id < gvs.size() ? tiId(gvs[id]) : 0)); return B_DONE; }
    case Intrinsic::stacksave: setRet(st, en, I, C(0)); return B_DONE; case Intrinsic::stackrestore: return B_DONE;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(st, "trap", "trap instruction reached"); return B_DEAD;
    case Intrinsic::vastart: { // all variable arguments live in an overflow area
        uint64_t cnt = f.va.size(); uint64_t p = alloc(st, cnt * 8 + 8, I.I); MemObj *o = obj(st, p >> 32, true); memset(o->data, 0, o->size); for (uint64_t i = 0; i < cnt; i++) storeScalar(st, o, i * 8, 64, f.va[i].e ? fromE(mkZExt(f.va[i].e, 64)) : f.va[i]);
        std::vector<SV> b(24); auto put = [&](int off, uint64_t v, int k) { for (int i = 0; i < k; i++) b[off + i].c = (v >> (8 * i)) & 255; }; put(0, 48, 4); put(4, 304, 4); put(8, p, 8); put(16, 0, 8); return writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
    case Intrinsic::vaend: return B_DONE;
    case Intrinsic::vacopy: { std::vector<SV> b; if (!readBytes(st, a[1].c, 24, b)) return B_DEAD; return writeBytes(st, a[0].c, b) ? B_DONE : B_DEAD; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: { Kind k = ci.iid == Intrinsic::vector_reduce_or ? K_OR : ci.iid == Intrinsic::vector_reduce_and ? K_AND : ci.iid == Intrinsic::vector_reduce_add ? K_ADD : K_XOR; SV r = a[0]; for (unsigned i = 1; i < ci.vn; i++) r = bin(k, w, r, a[i]); setRet(st, en, I, r); return B_DONE; }
    case Intrinsic::x86_sse2_pmovmskb_128: { bool sym = false; uint64_t m = 0; for (int i = 0; i < 16; i++) { if (a[i].e) sym = true; else m |= ((a[i].c >> 7) & 1) << i; } if (!sym) { setRet(st, en, I, C(m)); return B_DONE; } E e = nullptr; for (int i = 15; i >= 0; i--) { E b = mkExtract(T(a[i]), 7, 1); e = e ? mkConcat(e, b) : b; } setRet(st, en, I, fromE(mkZExt(e, 32))); return B_DONE; }
    case Intrinsic::x86_sse42_pcmpestri128: case Intrinsic::x86_sse42_pcmpestric128: case Intrinsic::x86_sse42_pcmpestriz128: case Intrinsic::x86_sse42_pcmpestris128: case Intrinsic::x86_sse42_pcmpestrio128: case Intrinsic::x86_sse42_pcmpestria128: {
        // args: <16 x i8> A, i32 la, <16 x i8> B, i32 lb, i8 imm
        CONC(16, "pcmpestr length"); CONC(33, "pcmpestr length"); int la = std::min(16, std::abs((int)a[16].c)), lb = std::min(16, std::abs((int)a[33].c)); unsigned imm = a[34].c; if (imm & 3) { incon(st, "pcmpestri element type"); return B_DEAD; }
        unsigned agg = (imm >> 2) & 3; bool neg = imm & 16, maskedNeg = imm & 32, msb = imm & 64; E res[16];
        auto A = [&](int i) { return toE(a[i], 8); }; auto B = [&](int j) { return toE(a[17 + j], 8); };
        for (int j = 0; j < 16; j++) { E r = mkC(0, 1);
            if (agg == 0) { if (j < lb) for (int i = 0; i < la; i++) r = mkBin(K_OR, r, mkEq(A(i), B(j))); }
            else if (agg == 1) { if (j < lb) for (int i = 0; i + 1 < la; i += 2) r = mkBin(K_OR, r, mkBin(K_AND, mkBin(K_ULE, A(i), B(j)), mkBin(K_ULE, B(j), A(i + 1)))); }
            else if (agg == 2) { if (j < la && j < lb) r = mkEq(A(j), B(j)); else r = mkC(j >= la && j >= lb, 1); }
            else { r = mkC(1, 1); for (int i = 0; i < la && i + j < 16; i++) { E x = i + j < lb ? mkEq(A(i), B(i + j)) : mkC(0, 1); r = mkBin(K_AND, r, x); } }
            if (neg && (!maskedNeg || j < lb)) r = mkNot(r); res[j] = r; }
        E any = mkC(0, 1); for (auto r : res) any = mkBin(K_OR, any, r); E idx = mkC(16, 32); if (msb) { for (int j = 0; j < 16; j++) idx = mkIte(res[j], mkC(j, 32), idx); } else for (int j = 15; j >= 0; j--) idx = mkIte(res[j], mkC(j, 32), idx);
        if (ci.iid == Intrinsic::x86_sse42_pcmpestri128) setRet(st, en, I, fromE(idx)); else if (ci.iid == Intrinsic::x86_sse42_pcmpestric128) setRet(st, en, I, mapBool(mkZExt(any, 32))); else if (ci.iid == Intrinsic::x86_sse42_pcmpestriz128) setRet(st, en, I, C(lb < 16)); else if (ci.iid == Intrinsic::x86_sse42_pcmpestris128) setRet(st, en, I, C(la < 16)); else if (ci.iid == Intrinsic::x86_sse42_pcmpestrio128) setRet(st, en, I, mapBool(mkZExt(res[0], 32))); else { incon(st, "pcmpestria"); return B_DEAD; }
        return B_DONE; }
    default: incon(st, "unsupported intrinsic " + ci.name); if (verbose) fprintf(stderr, "fsx: intrinsic %s at %s\n", ci.name.c_str(), stack(st).c_str()); return B_DEAD;
    }
}
} // namespace fsx
