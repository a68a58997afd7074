#pragma once
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

namespace fsx {

enum Opc : uint16_t { O_BIN, O_CMP, O_FCMP, O_FBIN, O_FNEG, O_ZEXT, O_SEXT, O_TRUNC, O_FCAST, O_MOVE, O_INSERT, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_BR, O_CONDBR, O_SWITCH,
    O_RET, O_CALL, O_LPAD, O_RESUME, O_UNREACHABLE, O_BITCAST, O_SHUFFLE, O_EXTRACTEL, O_INSERTEL, O_ATOMICRMW, O_CMPXCHG, O_FREEZE, O_WBIN, O_WCMP, O_WZEXT, O_NOP, O_UNSUP };

struct Leaf { uint32_t off; uint8_t w; uint8_t isPtr; };
struct Layout { std::vector<Leaf> l; uint32_t size; bool wide = false; bool fp = false; };
struct Inst { uint16_t op; uint16_t n = 1; uint8_t w = 0, w2 = 0, k = 0, fl = 0; int32_t dst = -1, a = 0, b = 0, c = 0; uint32_t x = 0, y = 0; const llvm::Instruction *I = nullptr; uint32_t forks = 0; };
struct Edge { uint32_t target; uint32_t n; std::vector<std::pair<int32_t, int32_t>> mv; };
struct GepTerm { int32_t r; int64_t scale; uint8_t w; };
struct GepInfo { int64_t off; std::vector<GepTerm> t; };
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct Engine; struct CallInfo;
enum BR { B_DONE, B_CALLED, B_DEAD, B_RETRY };
typedef BR (*Builtin)(Engine &, State &, const Inst &, CallInfo &, SV *args, int n);
struct ArgD { int32_t op; uint16_t n; uint32_t byval; };
struct CallInfo { FuncCode *fn = nullptr; Builtin bi = nullptr; std::string name; int32_t callee = 0; bool indirect = false; std::vector<ArgD> args; uint32_t nargSlots = 0; uint32_t retSlots = 0; bool invoke = false; uint32_t eNormal = 0, eUnwind = 0; unsigned iid = 0; uint8_t w = 0; uint16_t vn = 1; };
struct LPClause { bool filter; const llvm::GlobalVariable *ti; };
struct LPInfo { bool cleanup; std::vector<LPClause> cl; };

struct FuncCode {
    const llvm::Function *F; std::string name, dname; bool decoded = false; std::vector<Inst> code; uint32_t nregs = 0; std::vector<std::pair<int, int>> argSlots; // slot, n
    bool executed = false; uint32_t fixedArgSlots = 0; bool vararg = false; std::string file; unsigned line = 0;
};

struct Violation { std::string kind, msg, where, stack; std::vector<std::pair<std::string, std::pair<int, std::vector<uint8_t>>>> inputs; std::vector<std::pair<int,int>> sched; };

struct Engine {
    llvm::Module *M; const llvm::DataLayout *DL; Solver sol;
    std::map<const llvm::Function *, FuncCode *> fcs; std::vector<FuncCode *> fnById; std::map<const llvm::Function *, uint32_t> fnIds;
    std::map<const llvm::GlobalVariable *, uint32_t> gvIds; std::vector<const llvm::GlobalVariable *> gvs;
    std::vector<SV> consts; std::map<std::pair<uint64_t, uint64_t>, int> constIdx; std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<SwitchInfo> switches; std::vector<CallInfo *> calls; std::vector<LPInfo> lpads; std::vector<std::vector<int>> shuffles;
    std::map<llvm::Type *, Layout *> layouts; std::vector<Layout *> layoutTab; std::map<Layout *, uint32_t> layoutIdx;
    std::map<const llvm::GlobalVariable *, int> tiIds; std::map<int, const llvm::GlobalVariable *> tiById;
    std::vector<std::unique_ptr<State>> work; // pending states
    std::map<std::string, Builtin> builtins;
    std::map<std::string, uint64_t> fixed; // fixed choices
    // options
    uint64_t maxInsts = 30000000; double deadline = 0; int maxViol = 4; unsigned maxConc = 600; unsigned samples = 6; uint64_t seed = 1; int preemptBound = 2; bool verbose = false; uint64_t maxPaths = ~0ull; std::string traceFn; bool trace = false; bool raceCheck = true;
    // stats
    bool prof = false; std::map<std::string, uint64_t> profSelf, profCum;
    uint64_t paths = 0, infeasible = 0, forks = 0, insts = 0, asserts = 0, assertsConst = 0, assertsSolver = 0, assumes = 0, inconcl = 0, concretized = 0; std::map<std::string, uint64_t> assertSites, coverHits, inconclNotes; std::map<std::string, std::string> assertWhere;
    std::vector<Violation> viols; std::map<std::string, int> violKeys; std::vector<std::string> coverNames; std::map<std::string, int> coverIdx; bool timedOut = false; std::vector<std::string> sampleJson; uint64_t rng = 88172645463325252ull; std::map<std::string,std::vector<std::string>> labels; std::map<std::string, std::string> info;
    MemObj *freedMark;

    Engine(llvm::Module *m); void regBuiltins();
    // types & constants
    Layout *layout(llvm::Type *t); int constSlots(const llvm::Constant *c); void flattenConst(const llvm::Constant *c, std::vector<SV> &out); uint64_t constAddr(const llvm::Constant *c); int addConst(const SV *v, size_t n);
    void writeConst(State &st, MemObj *o, uint64_t off, const llvm::Constant *c);
    FuncCode *fc(const llvm::Function *f); void decode(FuncCode *f);
    // state
    std::unique_ptr<State> initial(); std::unique_ptr<State> fork(State &st);
    uint64_t alloc(State &st, uint64_t size, const void *site); bool isFreed(State &st, uint32_t id);
    MemObj *obj(State &st, uint32_t id, bool write);
    // execution
    void run(std::unique_ptr<State> st); bool step(State &st); // false: state finished
    Frame &top(State &st) { return st.th[st.cur].fr.back(); }
    SV get(Frame &f, int32_t op) { return op >= 0 ? f.regs[op] : consts[-1 - op]; }
    E toE(const SV &v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
    static SV fromE(E e) { SV s; if (e->isConst()) s.c = e->val; else s.e = e; return s; }
    void jump(State &st, Frame &f, uint32_t edge);
    bool pushFrame(State &st, FuncCode *fn, SV *args, uint32_t n, bool discard); void popFrame(State &st);
    bool concretizeSlot(State &st, SV &slot, const char *why); // concretizes (forking); slot must live in the state
    bool concArg(State &st, const Inst &I, CallInfo &ci, SV *args, int i, const char *why);
    bool branchOn(State &st, E c, bool &res); // forks at the current pc so that the other side re-executes; adds constraint
    bool checkMem(State &st, uint64_t addr, uint64_t size, bool write, const char *what, MemObj *&o, uint32_t &off);
    bool addrOk(State &st, SV &slot, uint64_t size, bool write); // concretize/verify symbolic address
    SV loadScalar(State &st, MemObj *o, uint32_t off, unsigned w); void storeScalar(State &st, MemObj *o, uint32_t off, unsigned w, const SV &v);
    SV loadByte(MemObj *o, uint32_t off) { SV s; if (o->sym && o->sym[off]) s.e = o->sym[off]; else s.c = o->data[off]; return s; }
    bool readBytes(State &st, uint64_t addr, uint64_t n, std::vector<SV> &out); bool readCStr(State &st, uint64_t addr, std::string &out); bool writeBytes(State &st, uint64_t addr, const std::vector<SV> &v);
    SV bin(Kind k, unsigned w, SV a, SV b);
    bool unwind(State &st, uint64_t exc); bool isDerived(const llvm::GlobalVariable *t, const llvm::GlobalVariable *b); int tiId(const llvm::GlobalVariable *g); int landing(State &st, FuncCode *fn, CallInfo &ci, uint64_t exc, LPInfo *&lp, uint64_t &sel); const llvm::GlobalVariable *excTI(State &st, uint64_t exc);
    void violation(State &st, const std::string &kind, const std::string &msg, const std::vector<uint8_t> *model = nullptr);
    void finish(State &st, const char *how); void incon(State &st, const std::string &why);
    std::string where(State &st, int depth = 0); std::string stack(State &st); std::string inputsJson(State &st, const std::vector<uint8_t> &model); std::string obsJson(State &st);
    bool threadYield(State &st, bool blocking); void raceAccess(State &st, uint64_t addr, uint64_t n, bool write);
    bool execCall(State &st, Frame &f, Inst &I); bool finishCall(State &st, Frame &f, const Inst &I, CallInfo &ci, const SV *ret);
    BR intrinsic(State &st, const Inst &I, CallInfo &ci, SV *args, int n);
    std::string report(double wall);
};
std::string jstr(const std::string &s);
} // namespace fsx
