#include <functional>
#include "engine.hpp"
#include <cmath>
using namespace llvm;
namespace fsx {
static inline int32_t opAt(int32_t o, int i) { return o >= 0 ? o + i : o - i; }
std::string jstr(const std::string &s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
Engine::Engine(Module *m) : M(m), DL(&m->getDataLayout()) { freedMark = MemObj::make(0, OK_FREED, nullptr); regBuiltins(); for (auto &g : M->globals()) { gvIds[&g] = gvs.size(); gvs.push_back(&g); } }

std::unique_ptr<State> Engine::initial() {
    auto st = std::make_unique<State>(); st->stacks.resize(1); st->th.resize(1); st->cover = std::make_shared<std::vector<int>>();
    for (size_t i = 0; i < gvs.size(); i++) {
        const GlobalVariable *g = gvs[i]; uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64; if (!g->hasInitializer() && sz < 64) sz = 64;
        MemObj *o = MemObj::make(sz, OK_GLOBAL, g); memset(o->data, 0, sz); if (g->hasInitializer()) writeConst(*st, o, 0, g->getInitializer()); o->ro = g->isConstant() && g->hasInitializer(); st->glob.put(i, o);
    }
    return st;
}
std::unique_ptr<State> Engine::fork(State &st) { forks++; st.forks++; auto &I = top(st).fn->code[top(st).pc]; I.forks++; auto n = std::make_unique<State>(st); n->epoch = 0; return n; }
std::string Engine::where(State &st, int depth) {
    auto &fr = st.th[st.cur].fr; if ((int)fr.size() <= depth) return "?"; Frame &f = fr[fr.size() - 1 - depth];
    std::string s = f.fn->dname; size_t p = s.find('('); if (p != std::string::npos && p > 8 && s.compare(0, 8, "operator")) s = s.substr(0, p); if (s.size() > 120) s = s.substr(0, 120);
    if (f.pc < f.fn->code.size()) { const Instruction *I = f.fn->code[f.pc].I; if (I) if (auto &dl = I->getDebugLoc()) { std::string fn = dl->getFilename().str(); size_t q = fn.rfind('/'); if (q != std::string::npos) fn = fn.substr(q + 1); s += " " + fn + ":" + std::to_string(dl.getLine()); } }
    return s;
}
std::string Engine::stack(State &st) { std::string s; int n = std::min<size_t>(14, st.th[st.cur].fr.size()); for (int i = 0; i < n; i++) s += (i ? " <- " : "") + where(st, i); return s; }
void Engine::incon(State &st, const std::string &why) { inconcl++; inconclNotes[why]++; (void)st; }
std::string Engine::inputsJson(State &st, const std::vector<uint8_t> &model) {
    std::string s = "["; bool first = true; uint64_t ep = ++sol.epochCounter;
    for (auto &i : st.inputs) { if (!first) s += ","; first = false; s += "[" + jstr(i->name) + "," + std::to_string(i->kind) + ",\""; char b[4];
        if (i->kind == 1) { for (int k = 0; k < 8; k++) { snprintf(b, 4, "%02x", (unsigned)((i->val >> (8 * k)) & 255)); s += b; } }
        else for (auto &v : i->bytes) { uint64_t x = v.e ? sol.eval(v.e, model.data(), ep) : v.c; snprintf(b, 4, "%02x", (unsigned)x & 255); s += b; }
        s += "\"]"; }
    return s + "]";
}
std::string Engine::obsJson(State &st) {
    std::string s = "["; bool first = true;
    for (auto &i : st.obs) { if (!first) s += ","; first = false; s += "[" + jstr(i->name) + ",\""; char b[4]; for (auto &v : i->bytes) { snprintf(b, 4, "%02x", (unsigned)sol.val(st, v) & 255); s += b; } s += "\"]"; }
    return s + "]";
}
void Engine::violation(State &st, const std::string &kind, const std::string &msg, const std::vector<uint8_t> *model) {
    std::string w = where(st); std::string key = kind + "|" + msg + "|" + w; int &n = violKeys[key]; n++;
    if (n > 2 || (int)viols.size() >= maxViol * 3) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = w; v.stack = stack(st); v.sched = st.sched; std::vector<uint8_t> m = model ? *model : st.model; uint64_t ep = ++sol.epochCounter;
    for (auto &i : st.inputs) { std::vector<uint8_t> b; if (i->kind == 1) for (int k = 0; k < 8; k++) b.push_back(i->val >> (8 * k)); else for (auto &x : i->bytes) b.push_back(x.e ? sol.eval(x.e, m.data(), ep) : x.c); v.inputs.push_back({i->name, {i->kind, b}}); }
    if (verbose) fprintf(stderr, "fsx: VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), v.stack.c_str());
    viols.push_back(v);
}
void Engine::finish(State &st, const char *how) {
    paths++; for (int c : *st.cover) coverHits[coverNames[c]]++;
    if (samples) { // reservoir sample of completed paths
        std::string j; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; uint64_t r = rng % paths;
        if (sampleJson.size() < samples || r < samples) { j = "{\"inputs\":" + inputsJson(st, st.model) + ",\"obs\":" + obsJson(st) + ",\"end\":" + jstr(how) + "}"; if (sampleJson.size() < samples) sampleJson.push_back(j); else sampleJson[r] = j; }
    }
}

// ---- memory ----
uint64_t Engine::alloc(State &st, uint64_t size, const void *site) { uint32_t id = st.nextHeap++; MemObj *o = MemObj::make(size, OK_HEAP, site); st.heap.put(id, o); st.heapBytes += size; return (uint64_t)id << 32; }
MemObj *Engine::obj(State &st, uint32_t id, bool write) {
    if (id < 0x10000000u) return write ? st.heap.get(id) ? st.heap.wr(id) : nullptr : st.heap.get(id);
    if (id < 0x20000000u) { uint32_t i = id - 0x10000000u; return write ? st.glob.wr(i) : st.glob.get(i); }
    if (id >= 0x40000000u) { uint32_t t = (id - 0x40000000u) >> 22, i = (id - 0x40000000u) & 0x3fffff; if (t >= st.stacks.size()) return nullptr; MemObj *o = st.stacks[t].get(i); return write && o ? st.stacks[t].wr(i) : o; }
    return nullptr;
}
bool Engine::checkMem(State &st, uint64_t addr, uint64_t size, bool write, const char *what, MemObj *&o, uint32_t &off) {
    uint32_t id = addr >> 32; off = (uint32_t)addr; o = obj(st, id, write);
    if (!o || o->kind == OK_FREED) {
        if (!size) return true;
        std::string k = addr < 4096 || id == 0 ? "null-deref" : (id < st.nextHeap && id < 0x10000000u) ? "use-after-free" : "wild-pointer"; violation(st, k, std::string(what)); return false;
    }
    if ((uint64_t)off + size > o->size) { if (!size) return true; violation(st, "out-of-bounds", std::string(what) + " at offset " + std::to_string(off) + " size " + std::to_string(size) + " of object of " + std::to_string(o->size) + " bytes"); return false; }
    if (write && o->ro) { violation(st, "write-to-const", what); return false; }
    return true;
}
SV Engine::loadScalar(State &st, MemObj *o, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8; SV r; const uint8_t *p = o->data + off;
    if (!o->nsym) { 
      conc: switch (n) { case 1: r.c = *p; break; case 2: { uint16_t x; memcpy(&x, p, 2); r.c = x; break; } case 4: { uint32_t x; memcpy(&x, p, 4); r.c = x; break; } case 8: { uint64_t x; memcpy(&x, p, 8); r.c = x; break; } default: r.c = 0; memcpy(&r.c, p, n); }
        if (w & 7) r.c &= maskw(w); return r; }
    bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { any = true; break; }
    if (!any) goto conc;
    E e = nullptr; for (int i = n - 1; i >= 0; i--) { E b = o->sym[off + i] ? o->sym[off + i] : mkC(p[i], 8); e = e ? mkConcat(e, b) : b; }
    if (e->width != w) e = mkExtract(e, 0, w);
    return fromE(e);
}
void Engine::storeScalar(State &st, MemObj *o, uint32_t off, unsigned w, const SV &v) {
    unsigned n = (w + 7) / 8; uint8_t *p = o->data + off;
    if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(p, &c, n); if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->nsym--; } return; }
    E e = v.e; if (e->width != n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (b->isConst()) o->setConc(off + i, b->val); else o->setSym(off + i, b); }
}
bool Engine::readBytes(State &st, uint64_t addr, uint64_t n, std::vector<SV> &out) {
    out.clear(); if (!n) return true; MemObj *o; uint32_t off; if (!checkMem(st, addr, n, false, "read", o, off)) return false;
    out.resize(n); for (uint64_t i = 0; i < n; i++) out[i] = loadByte(o, off + i); return true;
}
bool Engine::writeBytes(State &st, uint64_t addr, const std::vector<SV> &v) {
    if (v.empty()) return true; MemObj *o; uint32_t off; if (!checkMem(st, addr, v.size(), true, "write", o, off)) return false;
    for (size_t i = 0; i < v.size(); i++) { if (v[i].e) o->setSym(off + i, v[i].e); else o->setConc(off + i, v[i].c); } return true;
}
bool Engine::readCStr(State &st, uint64_t addr, std::string &out) { out.clear(); MemObj *o; uint32_t off; if (!checkMem(st, addr, 1, false, "string", o, off)) return false; while (off < o->size && o->data[off]) out += o->data[off++]; return true; }

// ---- branching ----
bool Engine::branchOn(State &st, E c, bool &res) {
    if (c->isConst()) { res = c->val; return true; }
    bool cur = sol.evalState(st, c); E other = cur ? mkNot(c) : c; std::vector<uint8_t> m; Tri t = sol.feasible(st, other, m);
    if (t == UNKNOWN) { incon(st, "solver timeout at " + where(st)); t = NO; }
    if (t == YES) { auto n = fork(st); n->model = m; sol.add(*n, other); work.push_back(std::move(n)); }
    sol.add(st, cur ? c : mkNot(c)); res = cur; return true;
}
bool Engine::concretizeSlot(State &st, SV &slot, const char *why) {
    if (!slot.e) return true; E e = slot.e; uint64_t v = sol.evalState(st, e); E eq = mkEq(e, mkC(v, e->width)); std::vector<uint8_t> m; Tri t = sol.feasible(st, mkNot(eq), m);
    if (t == UNKNOWN) { incon(st, std::string("solver timeout concretizing ") + why + " at " + where(st)); t = NO; }
    if (t == YES) { auto n = fork(st); n->model = m; sol.add(*n, mkNot(eq)); work.push_back(std::move(n)); concretized++; }
    sol.add(st, eq); slot.e = nullptr; slot.c = v; return true;
}
SV Engine::bin(Kind k, unsigned w, SV a, SV b) {
    if (!a.e && !b.e) { SV r; r.c = foldBin(k, w, a.c, b.c); return r; }
    return fromE(mkBin(k, toE(a, w), toE(b, w)));
}
void Engine::jump(State &st, Frame &f, uint32_t eid) {
    const Edge &e = edges[eid]; size_t n = e.mv.size();
    if (n == 1) f.regs[e.mv[0].first] = get(f, e.mv[0].second);
    else if (n) { SV tmpb[32]; std::vector<SV> big; SV *t = tmpb; if (n > 32) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(f, e.mv[i].second); for (size_t i = 0; i < n; i++) f.regs[e.mv[i].first] = t[i]; }
    f.pc = e.target;
}
bool Engine::pushFrame(State &st, FuncCode *fn, SV *args, uint32_t n, bool discard) {
    if (!fn->decoded) decode(fn); fn->executed = true; Thread &t = st.th[st.cur];
    if (t.fr.size() > 1500) { violation(st, "stack-overflow", "recursion deeper than 1500 frames"); return false; }
    Frame f; f.fn = fn; f.nregs = fn->nregs; f.regs = (SV *)calloc(fn->nregs + 1, sizeof(SV)); f.stackBase = t.stackTop; f.discard = discard;
    for (uint32_t i = 0; i < std::min(n, fn->fixedArgSlots); i++) f.regs[i] = args[i];
    if (fn->vararg) for (uint32_t i = fn->fixedArgSlots; i < n; i++) f.va.push_back(args[i]);
    if (trace) fprintf(stderr, "%*s> %s\n", (int)t.fr.size(), "", fn->dname.substr(0, 150).c_str());
    t.fr.push_back(std::move(f)); return true;
}
void Engine::popFrame(State &st) {
    Thread &t = st.th[st.cur]; uint32_t base = t.fr.back().stackBase; while (t.stackTop > base) { t.stackTop--; st.stacks[st.cur].put(t.stackTop, nullptr); } t.fr.pop_back();
}
// ---- exceptions ----
const GlobalVariable *Engine::excTI(State &st, uint64_t exc) { MemObj *o = obj(st, exc >> 32, false); if (!o || o->kind == OK_FREED) return nullptr; uint64_t a; memcpy(&a, o->data, 8); uint32_t id = (a >> 32) - 0x10000000u; return id < gvs.size() ? gvs[id] : nullptr; }
static const char *extBases[][2] = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error"}};
bool Engine::isDerived(const GlobalVariable *t, const GlobalVariable *b) {
    if (!t) return false; if (t == b) return true;
    if (t->getName() == b->getName()) return true;
    if (!t->hasInitializer()) { for (auto &p : extBases) if (t->getName() == p[0]) { if (b->getName() == p[1]) return true; for (auto &q : extBases) if (!strcmp(q[0], p[1])) { if (b->getName() == q[1]) return true; for (auto &r : extBases) if (!strcmp(r[0], q[1]) && b->getName() == r[1]) return true; } } return false; }
    auto *s = dyn_cast<ConstantStruct>(t->getInitializer()); if (!s) return false;
    for (unsigned i = 2; i < s->getNumOperands(); i++) if (auto *g = dyn_cast<GlobalVariable>(s->getOperand(i)->stripPointerCasts())) if (isDerived(g, b)) return true;
    return false;
}
// does the call in `fn` at ci catch? returns 2: catch, 1: cleanup, 0: none
int Engine::landing(State &st, FuncCode *fn, CallInfo &ci, uint64_t exc, LPInfo *&lp, uint64_t &sel) {
    if (!ci.invoke) return 0; uint32_t pc = edges[ci.eUnwind].target; Inst &I = fn->code[pc]; if (I.op != O_LPAD) return 0; lp = &lpads[I.x]; const GlobalVariable *ti = excTI(st, exc);
    for (auto &c : lp->cl) { if (c.filter) { sel = 0; return 2; } if (!c.ti) { sel = 0x7fff; return 2; } if (isDerived(ti, c.ti)) { sel = tiId(c.ti); return 2; } }
    sel = 0; return lp->cleanup ? 1 : 0;
}
bool Engine::unwind(State &st, uint64_t exc) { // current frame's pc is at a call/invoke from which the exception emerges
    Thread &t = st.th[st.cur]; bool found = false; LPInfo *lp; uint64_t sel;
    for (int i = t.fr.size() - 1; i >= 0; i--) { Frame &f = t.fr[i]; Inst &I = f.fn->code[f.pc]; if (I.op != O_CALL) continue; if (landing(st, f.fn, *calls[I.x], exc, lp, sel) == 2) { found = true; break; } }
    if (!found) { auto *ti = excTI(st, exc); std::string n = ti ? llvm::demangle(ti->getName().str()) : "?"; violation(st, "uncaught-exception", "exception reaches std::terminate: " + n); return false; }
    while (true) {
        Frame &f = t.fr.back(); Inst &I = f.fn->code[f.pc]; int r = I.op == O_CALL ? landing(st, f.fn, *calls[I.x], exc, lp, sel) : 0;
        if (r) { t.lpExc = exc; t.lpSel = sel; jump(st, f, calls[I.x]->eUnwind); return true; }
        popFrame(st);
    }
}
// ---- main loop ----
void Engine::run(std::unique_ptr<State> s0) {
    work.push_back(std::move(s0)); uint64_t cnt = 0;
    while (!work.empty()) {
        auto st = std::move(work.back()); work.pop_back();
        while (step(*st)) { insts++; st->insts++; if (prof && !(insts & 63)) { auto &t = st->th[st->cur]; std::string k = top(*st).fn->dname.substr(0, 70); profSelf[k]++; for (size_t i = 0; i < t.fr.size(); i++) profCum[t.fr[i].fn->dname.substr(0, 70)]++; }
            if (st->insts > maxInsts) { violation(*st, "no-termination", "more than " + std::to_string(maxInsts) + " instructions on one path"); break; }
            if ((++cnt & 0xfff) == 0 && deadline && Solver::now() > deadline) { timedOut = true; inconclNotes["deadline reached with " + std::to_string(work.size() + 1) + " unexplored states"]++; return; } }
        st.reset();
        if ((int)viols.size() >= maxViol || paths >= maxPaths) { if (!work.empty()) info["stopped_early"] = "violations found"; return; }
        if (deadline && Solver::now() > deadline && !work.empty()) { timedOut = true; inconclNotes["deadline reached with " + std::to_string(work.size()) + " unexplored states"]++; return; }
    }
}
static double asD(uint64_t c, unsigned w) { if (w == 32) { uint32_t x = c; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t ofD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

bool Engine::addrOk(State &st, SV &s, uint64_t size, bool write) {
    // symbolic address: first decide whether it can leave its object, then pick values
    E e = s.e; uint64_t v = sol.evalState(st, e); MemObj *o; uint32_t id = v >> 32; o = obj(st, id, false);
    if (o && o->kind != OK_FREED) {
        uint64_t base = (uint64_t)id << 32; E hi = mkBin(K_ULE, mkC(base, 64), e); E off = mkBin(K_SUB, e, mkC(base, 64)); E in = o->size >= size ? mkBin(K_ULE, off, mkC(o->size - size, 64)) : mkC(0, 1); (void)hi;
        std::vector<uint8_t> m; Tri t = sol.feasible(st, mkNot(in), m);
        if (t == YES) { State &x = st; uint64_t ep = ++sol.epochCounter; uint64_t bad = sol.eval(e, m.data(), ep); if ((bad >> 32) == id || (bad >> 32) == id - 1 || (bad >> 32) == 0) { violation(x, "out-of-bounds", std::string(write ? "store" : "load") + " with input-dependent address", &m); } 
            else { auto n = fork(st); n->model = m; sol.add(*n, mkNot(in)); work.push_back(std::move(n)); }
            bool sat = sol.evalState(st, in); if (!sat) { Tri t2 = sol.feasible(st, in, m); if (t2 != YES) return false; st.model = m; st.epoch = 0; } sol.add(st, in); }
        else if (t == UNKNOWN) incon(st, "solver timeout on address at " + where(st));
    }
    return true;
}
bool Engine::step(State &st) {
    Thread &T = st.th[st.cur]; Frame &f = T.fr.back(); Inst &I = f.fn->code[f.pc];
#define SETN(i, v) f.regs[I.dst + (i)] = (v)
    switch (I.op) {
    case O_NOP: f.pc++; return true;
    case O_MOVE: for (int i = 0; i < I.n; i++) SETN(i, get(f, opAt(I.a, i))); f.pc++; return true;
    case O_INSERT: { SV t[64]; for (int i = 0; i < I.n; i++) t[i] = get(f, opAt(I.a, i)); for (unsigned i = 0; i < I.y; i++) t[I.x + i] = get(f, opAt(I.b, i)); for (int i = 0; i < I.n; i++) SETN(i, t[i]); f.pc++; return true; }
    case O_BIN: {
        for (int i = 0; i < I.n; i++) {
            SV a = get(f, opAt(I.a, i)), b = get(f, opAt(I.b, i));
            if (I.k >= K_UDIV && I.k <= K_SREM) {
                if (b.e) { bool z; branchOn(st, mkEq(b.e, mkC(0, I.w)), z); if (z) { violation(st, "division-by-zero", "divisor can be zero"); return false; } }
                else if (!(b.c & maskw(I.w))) { violation(st, "division-by-zero", "divisor is zero"); return false; }
            }
            SETN(i, bin((Kind)I.k, I.w, a, b));
        }
        f.pc++; return true; }
    case O_CMP: for (int i = 0; i < I.n; i++) { SV r = bin((Kind)I.k, I.w, get(f, opAt(I.a, i)), get(f, opAt(I.b, i))); if (I.fl) { if (r.e) r = fromE(mkNot(r.e)); else r.c = !r.c; } SETN(i, r); } f.pc++; return true;
    case O_ZEXT: for (int i = 0; i < I.n; i++) { SV a = get(f, opAt(I.a, i)); if (a.e) a = fromE(mkZExt(a.e, I.w)); else a.c &= maskw(I.w2); SETN(i, a); } f.pc++; return true;
    case O_SEXT: for (int i = 0; i < I.n; i++) { SV a = get(f, opAt(I.a, i)); if (a.e) a = fromE(mkSExt(a.e, I.w)); else a.c = (uint64_t)sextw(a.c & maskw(I.w2), I.w2) & maskw(I.w); SETN(i, a); } f.pc++; return true;
    case O_TRUNC: for (int i = 0; i < I.n; i++) { SV a = get(f, opAt(I.a, i)); if (a.e) a = fromE(mkExtract(a.e, 0, I.w)); else a.c &= maskw(I.w); SETN(i, a); } f.pc++; return true;
    case O_WBIN: {
        SV a0 = get(f, I.a), a1 = get(f, opAt(I.a, 1)), b0 = get(f, I.b), b1 = get(f, opAt(I.b, 1)), r0, r1;
        if (I.k == K_AND || I.k == K_OR || I.k == K_XOR) { r0 = bin((Kind)I.k, 64, a0, b0); r1 = bin((Kind)I.k, 64, a1, b1); }
        else if ((I.k == K_SHL || I.k == K_LSHR) && !b0.e && b0.c < 128) {
            unsigned s = b0.c; auto K = [](uint64_t v) { SV x; x.c = v; return x; };
            if (I.k == K_LSHR) { if (s >= 64) { r0 = bin(K_LSHR, 64, a1, K(s - 64)); r1 = K(0); } else if (!s) { r0 = a0; r1 = a1; } else { r0 = bin(K_OR, 64, bin(K_LSHR, 64, a0, K(s)), bin(K_SHL, 64, a1, K(64 - s))); r1 = bin(K_LSHR, 64, a1, K(s)); } }
            else { if (s >= 64) { r1 = bin(K_SHL, 64, a0, K(s - 64)); r0 = K(0); } else if (!s) { r0 = a0; r1 = a1; } else { r1 = bin(K_OR, 64, bin(K_SHL, 64, a1, K(s)), bin(K_LSHR, 64, a0, K(64 - s))); r0 = bin(K_SHL, 64, a0, K(s)); } }
        } else {
            for (int32_t o : {I.a, opAt(I.a, 1), I.b, opAt(I.b, 1)}) if (o >= 0) concretizeSlot(st, f.regs[o], "i128");
            unsigned __int128 a = ((unsigned __int128)get(f, opAt(I.a, 1)).c << 64) | get(f, I.a).c, b = ((unsigned __int128)get(f, opAt(I.b, 1)).c << 64) | get(f, I.b).c, r = 0;
            switch (I.k) { case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break; case K_UDIV: r = b ? a / b : 0; break; case K_UREM: r = b ? a % b : 0; break; case K_SDIV: r = b ? (__int128)a / (__int128)b : 0; break; case K_SREM: r = b ? (__int128)a % (__int128)b : 0; break; case K_ASHR: r = (__int128)a >> (b & 127); break; default: incon(st, "i128 op"); return false; }
            r0.c = (uint64_t)r; r1.c = r >> 64;
        }
        SETN(0, r0); SETN(1, r1); f.pc++; return true; }
    case O_WCMP: {
        SV a0 = get(f, I.a), a1 = get(f, opAt(I.a, 1)), b0 = get(f, I.b), b1 = get(f, opAt(I.b, 1)); SV eq1 = bin(K_EQ, 64, a1, b1), r;
        if (I.k == K_EQ) r = bin(K_AND, 1, eq1, bin(K_EQ, 64, a0, b0));
        else { Kind hk = I.k == K_ULE ? K_ULT : I.k == K_SLE ? K_SLT : (Kind)I.k; Kind lk = (I.k == K_ULE || I.k == K_SLE) ? K_ULE : K_ULT; r = bin(K_OR, 1, bin(hk, 64, a1, b1), bin(K_AND, 1, eq1, bin(lk, 64, a0, b0))); }
        if (I.fl) { if (r.e) r = fromE(mkNot(r.e)); else r.c = !r.c; }
        SETN(0, r); f.pc++; return true; }
    case O_WZEXT: { SV a = get(f, I.a); SV h; unsigned w = I.w2; if (I.k) { if (w < 64) { if (a.e) a = fromE(mkSExt(a.e, 64)); else a.c = (uint64_t)sextw(a.c, w); } SV s63; s63.c = 63; h = bin(K_ASHR, 64, a, s63); } else if (a.e && w < 64) a = fromE(mkZExt(a.e, 64)); SETN(0, a); SETN(1, h); f.pc++; return true; }
    case O_FBIN: case O_FCMP: case O_FNEG: case O_FCAST: {
        int na = I.op == O_FBIN || I.op == O_FCMP ? 2 : 1; int cnt = I.n ? I.n : 1;
        for (int i = 0; i < cnt; i++) { int32_t oa = opAt(I.a, i), ob = opAt(I.b, i); if (oa >= 0) concretizeSlot(st, f.regs[oa], "float"); if (na == 2 && ob >= 0) concretizeSlot(st, f.regs[ob], "float");
            SV r; uint64_t ac = get(f, oa).c, bc = na == 2 ? get(f, ob).c : 0;
            if (I.op == O_FBIN) { double a = asD(ac, I.w), b = asD(bc, I.w), d = 0; switch (I.k) { case 0: d = a + b; break; case 1: d = a - b; break; case 2: d = a * b; break; case 3: d = a / b; break; case 4: d = fmod(a, b); break; } r.c = ofD(d, I.w); }
            else if (I.op == O_FNEG) r.c = ofD(-asD(ac, I.w), I.w);
            else if (I.op == O_FCMP) { double a = asD(ac, I.w), b = asD(bc, I.w); bool un = std::isnan(a) || std::isnan(b); int p = I.k; bool v = (p & 8 && un) || (!un && ((p & 1 && a == b) || (p & 2 && a > b) || (p & 4 && a < b))); r.c = v; }
            else switch (I.x) {
                case Instruction::FPExt: case Instruction::FPTrunc: r.c = ofD(asD(ac, I.w2), I.w); break;
                case Instruction::FPToUI: r.c = (uint64_t)asD(ac, I.w2) & maskw(I.w); break; case Instruction::FPToSI: r.c = (uint64_t)(int64_t)asD(ac, I.w2) & maskw(I.w); break;
                case Instruction::UIToFP: r.c = ofD((double)(ac & maskw(I.w2)), I.w); break; case Instruction::SIToFP: r.c = ofD((double)sextw(ac, I.w2), I.w); break; }
            SETN(i, r); }
        f.pc++; return true; }
    case O_BITCAST: {
        std::vector<SV> bytes; // via bits when element widths are < 8
        if (I.w < 8 || I.w2 < 8) { // <N x i1> <-> iN and the like
            if (I.w2 == 1 && I.n == 1) { E e = nullptr; for (int i = I.x - 1; i >= 0; i--) { E b = toE(get(f, opAt(I.a, i)), 1); e = e ? mkConcat(e, b) : b; } SETN(0, fromE(e)); }
            else if (I.w == 1 && I.x == 1) { SV a = get(f, I.a); for (int i = 0; i < I.n; i++) { SV r; if (a.e) r = fromE(mkExtract(a.e, i, 1)); else r.c = (a.c >> i) & 1; SETN(i, r); } }
            else { incon(st, "bitcast"); return false; }
        } else {
            for (unsigned i = 0; i < I.x; i++) { SV a = get(f, opAt(I.a, i)); for (int b = 0; b < I.w2 / 8; b++) { SV r; if (a.e) r = fromE(mkExtract(a.e, b * 8, 8)); else r.c = (a.c >> (8 * b)) & 255; bytes.push_back(r); } }
            size_t p = 0; for (int i = 0; i < I.n; i++) { int nb = I.w / 8; bool any = false; for (int b = 0; b < nb; b++) if (bytes[p + b].e) any = true; SV r; if (!any) { for (int b = 0; b < nb; b++) r.c |= bytes[p + b].c << (8 * b); } else { E e = nullptr; for (int b = nb - 1; b >= 0; b--) { E x = toE(bytes[p + b], 8); e = e ? mkConcat(e, x) : x; } r = fromE(e); } p += nb; SETN(i, r); }
        }
        f.pc++; return true; }
    case O_SHUFFLE: { auto &m = shuffles[I.x]; std::vector<SV> t(m.size()); for (size_t i = 0; i < m.size(); i++) { if (m[i] < 0) continue; t[i] = (unsigned)m[i] < I.y ? get(f, opAt(I.a, m[i])) : get(f, opAt(I.b, m[i] - I.y)); } for (size_t i = 0; i < m.size(); i++) SETN(i, t[i]); f.pc++; return true; }
    case O_EXTRACTEL: { if (I.b >= 0) concretizeSlot(st, f.regs[I.b], "vector index"); uint64_t ix = get(f, I.b).c; SETN(0, ix < I.x ? get(f, opAt(I.a, ix)) : SV()); f.pc++; return true; }
    case O_INSERTEL: { if (I.c >= 0) concretizeSlot(st, f.regs[I.c], "vector index"); uint64_t ix = get(f, I.c).c; SV v = get(f, I.b); SV t[64]; for (int i = 0; i < I.n; i++) t[i] = get(f, opAt(I.a, i)); if (ix < I.n) t[ix] = v; for (int i = 0; i < I.n; i++) SETN(i, t[i]); f.pc++; return true; }
    case O_SELECT: {
        if (I.fl) { for (int i = 0; i < I.n; i++) { SV c = get(f, opAt(I.a, i)), a = get(f, opAt(I.b, i)), b = get(f, opAt(I.c, i)); SV r; if (!c.e) r = (c.c & 1) ? a : b; else r = fromE(mkIte(c.e, toE(a, I.w), toE(b, I.w))); SETN(i, r); } f.pc++; return true; }
        SV c = get(f, I.a);
        if (c.e) { // pointers: fork; integers: if-then-else
            Layout *L = layoutTab[I.x]; bool ptr = false, diff = false; for (int i = 0; i < I.n; i++) { SV a = get(f, opAt(I.b, i)), b = get(f, opAt(I.c, i)); if (a.e != b.e || (!a.e && a.c != b.c)) { diff = true; if (L->l[i].isPtr || L->fp) ptr = true; } }
            if (diff && ptr) { bool r; branchOn(st, c.e, r); c.e = nullptr; c.c = r; }
            else { for (int i = 0; i < I.n; i++) { SV a = get(f, opAt(I.b, i)), b = get(f, opAt(I.c, i)); SETN(i, !diff ? a : (a.e == b.e && (a.e || a.c == b.c)) ? a : fromE(mkIte(c.e, toE(a, L->l[i].w), toE(b, L->l[i].w)))); } f.pc++; return true; }
        }
        { SV t[64]; for (int i = 0; i < I.n; i++) t[i] = get(f, opAt((c.c & 1) ? I.b : I.c, i)); for (int i = 0; i < I.n; i++) SETN(i, t[i]); }
        f.pc++; return true; }
    case O_LOAD: {
        SV p = get(f, I.a); Layout *L = layoutTab[I.x];
        if (p.e) {
            if (!addrOk(st, p, L->size, false)) return false;
            // table lookup: enumerate feasible values; small tables become if-then-else chains
            uint64_t v = sol.evalState(st, p.e); MemObj *o = obj(st, v >> 32, false);
            std::vector<uint16_t> fv; sol.freeVars(st, p.e, fv);
            if (o && o->kind != OK_FREED && I.n == 1 && !L->l[0].isPtr && fv.size() == 1 && !L->wide) {
                uint16_t x = fv[0]; uint8_t old = st.model[x]; struct R { unsigned a, b; SV v; }; std::vector<R> runs; bool ok = true;
                for (unsigned i = 0; i < 256 && ok; i++) if (st.doms[x].has(i)) { st.model[x] = i; uint64_t ad = sol.eval(p.e, st.model.data(), ++sol.epochCounter); if ((ad >> 32) != (v >> 32) || (uint32_t)ad + L->size > o->size) { continue; } // excluded by the bounds constraint
                        SV b = loadScalar(st, o, (uint32_t)ad, L->l[0].w); if (!runs.empty() && runs.back().v.e == b.e && (b.e || runs.back().v.c == b.c)) runs.back().b = i; else runs.push_back({i, i, b}); if (runs.size() > 40) ok = false; }
                st.model[x] = old; st.epoch = 0;
                if (ok && !runs.empty()) { E var = mkVar(x); E e = toE(runs.back().v, L->l[0].w); for (int i = (int)runs.size() - 2; i >= 0; i--) e = mkIte(mkBin(K_ULE, var, mkC(runs[i].b, 8)), toE(runs[i].v, L->l[0].w), e); SETN(0, fromE(e)); f.pc++; return true; }
            }
            // constant tables of bytes (digit pairs of std::to_string and the like): search tree over all offsets; the bounds are already on the path
            if (o && o->kind == OK_GLOBAL && o->ro && !o->nsym && o->size > 48 && o->size <= 512 && I.n == 1 && !L->l[0].isPtr && !L->wide && L->l[0].w == 8 && L->size == 1) {
                std::function<E(uint32_t, uint32_t)> tree = [&](uint32_t a, uint32_t b) -> E { uint32_t i = a; while (i < b && o->data[i] == o->data[a]) i++; if (i == b) return mkC(o->data[a], 8); uint32_t m = (a + b) / 2; return mkIte(mkBin(K_ULT, p.e, mkC((v & ~0xffffffffull) + m, 64)), tree(a, m), tree(m, b)); };
                SETN(0, fromE(tree(0, o->size))); f.pc++; return true; }
            // small arrays of integers indexed by a wider expression: chain over distinct feasible addresses, up to 64
            if (o && o->kind != OK_FREED && I.n == 1 && !L->l[0].isPtr && !L->wide && o->size <= 4096) {
                std::vector<uint64_t> ads; E ex = p.e; std::vector<uint8_t> m; E ne = mkC(1, 1); bool ok = true; std::vector<uint8_t> saved = st.model;
                uint64_t cur = v; while (true) { ads.push_back(cur); if (ads.size() > 48) { ok = false; break; } ne = mkBin(K_AND, ne, mkNot(mkEq(ex, mkC(cur, 64)))); Tri t = sol.feasible(st, ne, m); if (t == NO) break; if (t == UNKNOWN) { ok = false; break; } cur = sol.eval(ex, m.data(), ++sol.epochCounter); if ((cur >> 32) != (v >> 32)) { ok = false; break; } }
                if (ok) { E e = toE(loadScalar(st, o, (uint32_t)ads[0], L->l[0].w), L->l[0].w); for (size_t i = 1; i < ads.size(); i++) e = mkIte(mkEq(ex, mkC(ads[i], 64)), toE(loadScalar(st, o, (uint32_t)ads[i], L->l[0].w), L->l[0].w), e); SETN(0, fromE(e)); f.pc++; return true; }
            }
            concretizeSlot(st, f.regs[I.a], "load address"); p = f.regs[I.a];
        }
        MemObj *o; uint32_t off; if (!checkMem(st, p.c, L->size, false, "load", o, off)) return false;
        if (st.th.size() > 1 && raceCheck) { if (I.fl) { if (!T.schedPassed && !threadYield(st, false)) return false; } else raceAccess(st, p.c, L->size, false); o = obj(st, p.c >> 32, false); }
        for (int i = 0; i < I.n; i++) SETN(i, loadScalar(st, o, off + L->l[i].off, L->l[i].w)); f.pc++; return true; }
    case O_STORE: {
        SV p = get(f, I.b); Layout *L = layoutTab[I.x];
        if (p.e) { if (!addrOk(st, p, L->size, true)) return false; concretizeSlot(st, f.regs[I.b], "store address"); p = f.regs[I.b]; }
        MemObj *o; uint32_t off; if (!checkMem(st, p.c, L->size, true, "store", o, off)) return false;
        if (st.th.size() > 1 && raceCheck && !I.fl) raceAccess(st, p.c, L->size, true);
        for (int i = 0; i < I.n; i++) storeScalar(st, o, off + L->l[i].off, L->l[i].w, get(f, opAt(I.a, i))); f.pc++; return true; }
    case O_ALLOCA: {
        if (I.a >= 0) concretizeSlot(st, f.regs[I.a], "alloca"); uint64_t sz = (uint64_t)I.x * get(f, I.a).c; uint32_t i = T.stackTop++; st.stacks[st.cur].put(i, MemObj::make(sz, OK_STACK, I.I)); SV r; r.c = (uint64_t)(0x40000000u + ((uint32_t)st.cur << 22) + i) << 32; SETN(0, r); f.pc++; return true; }
    case O_GEP: {
        GepInfo &g = geps[I.x]; SV b = get(f, I.a); uint64_t add = g.off; E ee = nullptr;
        for (auto &t : g.t) { SV v = get(f, t.r); if (v.e) { E x = v.e; if (t.w < 64) x = mkSExt(x, 64); x = mkBin(K_MUL, x, mkC(t.scale, 64)); ee = ee ? mkBin(K_ADD, ee, x) : x; } else add += (uint64_t)sextw(v.c, t.w) * (uint64_t)t.scale; }
        if (!ee && !b.e) { b.c += add; } else { E x = toE(b, 64); if (add) x = mkBin(K_ADD, x, mkC(add, 64)); if (ee) x = mkBin(K_ADD, x, ee); b = fromE(x); }
        SETN(0, b); f.pc++; return true; }
    case O_BR: jump(st, f, I.x); return true;
    case O_CONDBR: {
        SV c = get(f, I.a); if (!c.e) { jump(st, f, (c.c & 1) ? I.x : I.y); return true; }
        bool cur = sol.evalState(st, c.e); E nc = mkNot(c.e); E other = cur ? nc : c.e; std::vector<uint8_t> m; Tri t = sol.feasible(st, other, m);
        if (t == UNKNOWN) { incon(st, "solver timeout at " + where(st)); t = NO; }
        if (t == YES) { auto n = fork(st); n->model = m; sol.add(*n, other); jump(*n, top(*n), cur ? I.y : I.x); work.push_back(std::move(n)); sol.add(st, cur ? c.e : nc); }
        jump(st, f, cur ? I.x : I.y); return true; }
    case O_SWITCH: {
        SV c = get(f, I.a); SwitchInfo &s = switches[I.x];
        if (!c.e) { for (auto &p : s.cases) if (p.first == (c.c & maskw(I.w))) { jump(st, f, p.second); return true; } jump(st, f, s.def); return true; }
        std::map<uint32_t, E> conds; E none = mkC(1, 1); for (auto &p : s.cases) { E q = mkEq(c.e, mkC(p.first, I.w)); none = mkBin(K_AND, none, mkNot(q)); if (p.second == s.def) continue; auto it = conds.find(p.second); if (it == conds.end()) conds[p.second] = q; else it->second = mkBin(K_OR, it->second, q); }
        { E d = none; for (auto &p : s.cases) if (p.second == s.def) d = mkBin(K_OR, d, mkEq(c.e, mkC(p.first, I.w))); conds[s.def] = d; }
        uint32_t mine = ~0u; for (auto &p : conds) if (sol.evalState(st, p.second)) { mine = p.first; break; }
        for (auto &p : conds) { if (p.first == mine) continue; std::vector<uint8_t> m; Tri t = sol.feasible(st, p.second, m); if (t == UNKNOWN) { incon(st, "solver timeout at " + where(st)); continue; } if (t == YES) { auto n = fork(st); n->model = m; sol.add(*n, p.second); jump(*n, top(*n), p.first); work.push_back(std::move(n)); } }
        sol.add(st, conds[mine]); jump(st, f, mine); return true; }
    case O_RET: {
        SV t[64]; int n = I.n; for (int i = 0; i < n; i++) t[i] = get(f, opAt(I.a, i)); bool disc = f.discard; popFrame(st);
        if (T.fr.empty()) { T.done = true; if (st.cur == 0) { finish(st, "return"); return false; } return threadYield(st, true); }
        Frame &c = T.fr.back(); Inst &CI = c.fn->code[c.pc]; CallInfo &ci = *calls[CI.x]; return finishCall(st, c, CI, ci, disc ? nullptr : t); }
    case O_LPAD: { SV a, b; a.c = T.lpExc; b.c = T.lpSel; SETN(0, a); SETN(1, b); f.pc++; return true; }
    case O_RESUME: { uint64_t exc = get(f, I.a).c; popFrame(st); if (T.fr.empty()) { violation(st, "uncaught-exception", "resume out of thread"); return false; } return unwind(st, exc); }
    case O_UNREACHABLE: violation(st, "unreachable", "control reaches code the compiler proved unreachable"); return false;
    case O_ATOMICRMW: {
        if (I.a >= 0) concretizeSlot(st, f.regs[I.a], "atomic address"); SV p = get(f, I.a); if (st.th.size() > 1 && !T.schedPassed) { if (!threadYield(st, false)) return false; if (&st.th[st.cur] != &T) return true; } T.schedPassed = false;
        MemObj *o; uint32_t off; if (!checkMem(st, p.c, (I.w + 7) / 8, true, "atomic", o, off)) return false; SV old = loadScalar(st, o, off, I.w), v = get(f, I.b), nv;
        switch (I.k) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = bin(K_ADD, I.w, old, v); break; case AtomicRMWInst::Sub: nv = bin(K_SUB, I.w, old, v); break; case AtomicRMWInst::And: nv = bin(K_AND, I.w, old, v); break; case AtomicRMWInst::Or: nv = bin(K_OR, I.w, old, v); break; case AtomicRMWInst::Xor: nv = bin(K_XOR, I.w, old, v); break; default: incon(st, "atomicrmw kind"); return false; }
        storeScalar(st, o, off, I.w, nv); SETN(0, old); f.pc++; return true; }
    case O_CMPXCHG: {
        if (I.a >= 0) concretizeSlot(st, f.regs[I.a], "atomic address"); SV p = get(f, I.a); if (st.th.size() > 1 && !T.schedPassed) { if (!threadYield(st, false)) return false; if (&st.th[st.cur] != &T) return true; } T.schedPassed = false;
        MemObj *o; uint32_t off; if (!checkMem(st, p.c, (I.w + 7) / 8, true, "atomic", o, off)) return false; SV old = loadScalar(st, o, off, I.w), cm = get(f, I.b), nv = get(f, I.c); SV eq = bin(K_EQ, I.w, old, cm);
        if (eq.e) { bool r; branchOn(st, eq.e, r); eq.e = nullptr; eq.c = r; o = obj(st, p.c >> 32, true); }
        if (eq.c) storeScalar(st, o, off, I.w, nv); SETN(0, old); SETN(1, eq); f.pc++; return true; }
    case O_CALL: return execCall(st, f, I);
    default: { std::string s; raw_string_ostream os(s); I.I->print(os); incon(st, "unsupported instruction " + os.str().substr(0, 160)); if (verbose) fprintf(stderr, "fsx: unsupported %s at %s\n", s.c_str(), stack(st).c_str()); return false; }
    }
}
bool Engine::finishCall(State &st, Frame &f, const Inst &I, CallInfo &ci, const SV *ret) {
    if (ret && I.dst >= 0) for (unsigned i = 0; i < ci.retSlots; i++) f.regs[I.dst + i] = ret[i];
    if (ci.invoke) jump(st, f, ci.eNormal); else f.pc++;
    return true;
}
bool Engine::execCall(State &st, Frame &f, Inst &I) {
    CallInfo &ci = *calls[I.x]; FuncCode *fn = ci.fn; Builtin bi = ci.bi;
    if (ci.indirect) {
        if (ci.callee >= 0) concretizeSlot(st, f.regs[ci.callee], "callee"); uint64_t a = get(f, ci.callee).c; uint32_t id = (a >> 32) - 0x20000000u;
        if ((uint32_t)a || (a >> 32) < 0x20000000u || id >= fnById.size()) { violation(st, a < 4096 ? "null-deref" : "bad-call", "indirect call to invalid address"); return false; }
        fn = fnById[id]; auto it = builtins.find(fn->name); if (it != builtins.end()) { bi = it->second; } else if (fn->F->isDeclaration()) { incon(st, "unsupported external function " + fn->dname); if (verbose) fprintf(stderr, "fsx: external %s at %s\n", fn->name.c_str(), stack(st).c_str()); return false; }
    }
    SV abuf[64]; std::vector<SV> big; SV *args = abuf; if (ci.nargSlots > 64) { big.resize(ci.nargSlots); args = big.data(); }
    int n = 0; for (auto &d : ci.args) for (int i = 0; i < d.n; i++) args[n++] = get(f, opAt(d.op, i));
    if (fn && !bi) {
        // byval copies
        int k = 0; bool anyBv = false; for (auto &d : ci.args) if (d.byval) anyBv = true;
        if (anyBv) for (auto &d : ci.args) { if (d.byval) { std::vector<SV> b; if (args[k].e) { concretizeSlot(st, f.regs[d.op], "byval"); args[k] = f.regs[d.op]; } if (!readBytes(st, args[k].c, d.byval, b)) return false; uint64_t a = alloc(st, d.byval, I.I); writeBytes(st, a, b); args[k].c = a; } k += d.n; }
        return pushFrame(st, fn, args, n, false);
    }
    BR r;
    if (bi) r = bi(*this, st, I, ci, args, n);
    else if (ci.iid) r = intrinsic(st, I, ci, args, n);
    else { incon(st, "unsupported external function " + (ci.name == "asm" ? std::string("inline asm") : llvm::demangle(ci.name))); if (verbose) fprintf(stderr, "fsx: external %s at %s\n", ci.name.c_str(), stack(st).c_str()); return false; }
    if (r == B_DEAD) return false;
    if (r == B_CALLED || r == B_RETRY) return true;
    return finishCall(st, top(st), I, ci, nullptr);
}
bool Engine::concArg(State &st, const Inst &I, CallInfo &ci, SV *args, int i, const char *why) {
    if (!args[i].e) return true; int k = 0; for (auto &d : ci.args) { if (i < k + d.n) { int32_t o = opAt(d.op, i - k); if (o >= 0) { Frame &f = top(st); concretizeSlot(st, f.regs[o], why); args[i] = f.regs[o]; } return true; } k += d.n; }
    return true;
}
// ---- threads ----
// At a scheduling point. Non-blocking: may fork states in which another runnable thread continues. Blocking: current thread cannot continue.
bool Engine::threadYield(State &st, bool blocking) {
    std::vector<int> others; for (size_t i = 0; i < st.th.size(); i++) if ((int)i != st.cur && !st.th[i].done && !st.th[i].blockedOn) others.push_back(i);
    if (!blocking) {
        st.th[st.cur].schedPassed = true; if (st.preempt >= preemptBound) return true;
        for (int o : others) { auto n = fork(st); n->th[n->cur].schedPassed = false; n->cur = o; n->preempt++; n->sched.push_back({(int)n->insts, o}); work.push_back(std::move(n)); }
        return true;
    }
    if (others.empty()) { bool all = true; for (auto &t : st.th) if (!t.done) all = false; if (all) { finish(st, "threads done"); return false; } violation(st, "deadlock", "no runnable thread"); return false; }
    for (size_t k = 1; k < others.size(); k++) { auto n = std::make_unique<State>(st); forks++; n->epoch = 0; n->cur = others[k]; n->sched.push_back({(int)n->insts, others[k]}); work.push_back(std::move(n)); }
    st.cur = others[0]; st.sched.push_back({(int)st.insts, others[0]}); return true;
}
void Engine::raceAccess(State &st, uint64_t addr, uint64_t n, bool write) {
    uint32_t id = addr >> 32; if (id >= 0x40000000u && ((id - 0x40000000u) >> 22) == (uint32_t)st.cur) return;
    MemObj *o = obj(st, id, false); if (o && o->ro) return;
    Thread &t = st.th[st.cur]; uint64_t key = addr & ~7ull; uint32_t me = t.vc.size() > (size_t)st.cur ? t.vc[st.cur] : 0; auto &a = st.shadow[key | 0];
    auto hb = [&](int th, uint32_t c) { return th == st.cur || (t.vc.size() > (size_t)th && t.vc[th] >= c); };
    if (a.wt >= 0 && !hb(a.wt, a.wc)) violation(st, "data-race", write ? "write not ordered after another thread's write" : "read not ordered after another thread's write");
    if (write) { for (auto &p : a.rd) if (!hb(p.first, p.second)) { violation(st, "data-race", "write not ordered after another thread's read"); break; } a.rd.clear(); a.wt = st.cur; a.wc = me; } else a.rd[st.cur] = me;
}
} // namespace fsx
