// Symbolic machine state: copy-on-write memory, frames, threads, path condition.
#pragma once
#include "expr.hpp"
#include <set>
#include <map>
#include <memory>

namespace fsx {

struct SV { uint64_t c = 0; E e = nullptr; };

struct MemObj {
    uint32_t rc; uint32_t size; uint8_t kind; uint8_t ro; uint16_t pad; const void *site; uint8_t *data; E *sym; uint32_t nsym;
    static MemObj *make(uint32_t size, uint8_t kind, const void *site) {
        MemObj *o = new MemObj; o->rc = 1; o->size = size; o->kind = kind; o->ro = 0; o->site = site; o->data = (uint8_t *)malloc(size ? size : 1); memset(o->data, 0xAB, size); o->sym = nullptr; o->nsym = 0; return o;
    }
    MemObj *clone() const {
        MemObj *o = new MemObj(*this); o->rc = 1; o->data = (uint8_t *)malloc(size ? size : 1); memcpy(o->data, data, size);
        if (sym && nsym) { o->sym = (E *)malloc(sizeof(E) * size); memcpy(o->sym, sym, sizeof(E) * size); } else { o->sym = nullptr; o->nsym = 0; }
        return o;
    }
    void unref() { if (--rc == 0) { free(data); free(sym); delete this; } }
    void needSym() { if (!sym) { sym = (E *)calloc(size, sizeof(E)); nsym = 0; } }
    void setSym(uint32_t i, E e) { needSym(); if (!sym[i]) nsym++; sym[i] = e; }
    void setConc(uint32_t i, uint8_t v) { data[i] = v; if (sym && sym[i]) { sym[i] = nullptr; nsym--; } }
};
enum { OK_HEAP = 1, OK_STACK = 2, OK_GLOBAL = 3, OK_FREED = 4 };

struct Chunk { uint32_t rc; uint32_t live; MemObj *o[64]; };

struct Table {
    std::vector<Chunk *> ch;
    Table() {}
    Table(const Table &t) : ch(t.ch) { for (auto *c : ch) if (c) c->rc++; }
    Table(Table &&t) noexcept : ch(std::move(t.ch)) { t.ch.clear(); }
    Table &operator=(const Table &) = delete;
    ~Table() { for (auto *c : ch) drop(c); }
    static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto *o : c->o) if (o) o->unref(); delete c; } }
    MemObj *get(uint32_t i) const { size_t k = i >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[i & 63]; }
    Chunk *wrChunk(size_t k) {
        if (k >= ch.size()) ch.resize(k + 1);
        Chunk *c = ch[k];
        if (!c) { c = new Chunk; c->rc = 1; c->live = 0; memset(c->o, 0, sizeof c->o); ch[k] = c; }
        else if (c->rc > 1) { Chunk *n = new Chunk(*c); n->rc = 1; for (auto *o : n->o) if (o) o->rc++; c->rc--; ch[k] = c = n; }
        return c;
    }
    void put(uint32_t i, MemObj *o) { Chunk *c = wrChunk(i >> 6); MemObj *&p = c->o[i & 63]; if (p) { p->unref(); c->live--; } p = o; if (o) c->live++; if (!c->live) { drop(c); ch[i >> 6] = nullptr; } }
    MemObj *wr(uint32_t i) { Chunk *c = wrChunk(i >> 6); MemObj *&o = c->o[i & 63]; if (!o) return nullptr; if (o->rc > 1) { MemObj *n = o->clone(); o->rc--; o = n; } return o; }
};

struct FuncCode;
struct Frame {
    FuncCode *fn = nullptr; uint32_t pc = 0; uint32_t nregs = 0; SV *regs = nullptr; uint32_t stackBase = 0; bool discard = false; std::vector<SV> va;
    Frame() {}
    Frame(const Frame &o) : fn(o.fn), pc(o.pc), nregs(o.nregs), stackBase(o.stackBase), discard(o.discard), va(o.va) { regs = (SV *)malloc(sizeof(SV) * (nregs + 1)); memcpy((void *)regs, o.regs, sizeof(SV) * nregs); }
    Frame(Frame &&o) noexcept : fn(o.fn), pc(o.pc), nregs(o.nregs), regs(o.regs), stackBase(o.stackBase), discard(o.discard), va(std::move(o.va)) { o.regs = nullptr; }
    Frame &operator=(const Frame &) = delete;
    Frame &operator=(Frame &&o) noexcept { free(regs); fn = o.fn; pc = o.pc; nregs = o.nregs; regs = o.regs; stackBase = o.stackBase; discard = o.discard; va = std::move(o.va); o.regs = nullptr; return *this; }
    ~Frame() { free(regs); }
};

struct Caught { uint64_t exc; bool rethrown; };
struct Thread {
    std::vector<Frame> fr; std::vector<Caught> caught; int uncaught = 0; uint64_t lpExc = 0, lpSel = 0; uint32_t stackTop = 0;
    bool done = false; bool schedPassed = false; uint64_t blockedOn = 0; // 0: runnable
    std::vector<uint32_t> vc; // vector clock
};

struct Input { std::string name; int kind; std::vector<SV> bytes; uint64_t val; }; // kind 0: symbolic bytes, 1: choice
struct Obs { std::string name; std::vector<SV> bytes; };

struct State {
    Table heap, glob; std::vector<Table> stacks; uint32_t nextHeap = 1;
    std::vector<Thread> th; int cur = 0; int preempt = 0;
    std::vector<E> multi; std::vector<Dom> doms; std::vector<uint8_t> model; uint64_t epoch = 0;
    std::vector<std::shared_ptr<Input>> inputs; std::vector<std::shared_ptr<Obs>> obs;
    std::shared_ptr<std::vector<int>> cover; uint64_t insts = 0; uint32_t forks = 0; uint64_t heapBytes = 0;
    std::map<uint64_t, std::vector<int>> locks; // addr -> {mode/owner list}: -1-owner for exclusive, owner for shared
    std::map<uint64_t, std::vector<uint32_t>> lockVc;
    struct Access { int wt = -1; uint32_t wc = 0; std::map<int, uint32_t> rd; const void *wsite = nullptr; };
    std::map<uint64_t, Access> shadow;
    std::vector<std::pair<int, int>> sched;
    bool inconclusive = false; std::string note;
};

} // namespace fsx
