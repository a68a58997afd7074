#include "engine.hpp"
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm; using namespace fsx;
std::string Engine::report(double wall) {
    std::string s = "{"; auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, v == (uint64_t)v ? "%.0f" : "%.3f", v); s += std::string("\"") + k + "\":" + b + ","; };
    num("paths", paths); num("forks", forks); num("infeasible", infeasible); num("instructions", insts); num("asserts", asserts); num("asserts_folded", assertsConst); num("asserts_solver", assertsSolver); num("assumes", assumes); num("inconclusive", inconcl); num("concretizations", concretized); num("queries", sol.nQueries); num("z3_queries", sol.nZ3); num("cache_hits", sol.nCache); num("model_hits", sol.nModel); num("domain_decided", sol.nDom); num("z3_time", sol.z3Time); num("z3_max", sol.z3Max); num("solver_unknown", sol.nUnknown); num("wall", wall); num("exprs", pool.count); num("pending", work.size()); num("timed_out", timedOut);
    auto mp = [&](const char *k, std::map<std::string, uint64_t> &m) { s += std::string("\"") + k + "\":{"; bool f = true; for (auto &p : m) { if (!f) s += ","; f = false; s += jstr(p.first) + ":" + std::to_string(p.second); } s += "},"; };
    mp("assert_sites", assertSites); mp("cover", coverHits); mp("inconclusive_notes", inconclNotes);
    s += "\"functions\":["; bool f1 = true; for (auto *f : fnById) if (f->executed) { if (!f1) s += ","; f1 = false; std::string d = f->dname; s += "[" + jstr(d.substr(0, 240)) + "," + jstr(f->file) + "]"; } s += "],";
    s += "\"violations\":["; bool f2 = true; for (auto &v : viols) { if (!f2) s += ","; f2 = false; s += "{\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"where\":" + jstr(v.where) + ",\"stack\":" + jstr(v.stack) + ",\"inputs\":["; bool f3 = true; for (auto &i : v.inputs) { if (!f3) s += ","; f3 = false; s += "[" + jstr(i.first) + "," + std::to_string(i.second.first) + ",\""; char b[4]; for (auto x : i.second.second) { snprintf(b, 4, "%02x", x); s += b; } s += "\"]"; } s += "],\"sched\":["; bool f4 = true; for (auto &p : v.sched) { if (!f4) s += ","; f4 = false; s += "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; } s += "]}"; } s += "],";
    s += "\"samples\":["; bool f5 = true; for (auto &x : sampleJson) { if (!f5) s += ","; f5 = false; s += x; } s += "]}";
    return s;
}
int main(int argc, char **argv) {
    std::string file, out; double timeout = 0; std::string entry = "fsx_main"; size_t memGb = 6; LLVMContext ctx; SMDiagnostic err; uint64_t maxInsts = 0; std::map<std::string, uint64_t> fixed; bool verbose = false, trace = false; unsigned samples = 6; uint64_t seed = 1; int preempt = 2; int maxViol = 3; bool hot = false; unsigned qt = 20000; uint64_t maxPaths = 0; bool norace = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); }; if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--max-insts") maxInsts = atoll(nx().c_str()); else if (a == "--fix") { std::string s = nx(); auto p = s.find('='); fixed[s.substr(0, p)] = atoll(s.c_str() + p + 1); } else if (a == "-v") verbose = true; else if (a == "--trace") trace = true; else if (a == "--samples") samples = atoi(nx().c_str()); else if (a == "--seed") seed = atoll(nx().c_str()); else if (a == "--preempt") preempt = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = atoi(nx().c_str()); else if (a == "--hot") hot = true; else if (a == "--mem") memGb = atoi(nx().c_str()); else if (a == "--query-timeout") qt = atoi(nx().c_str()); else if (a == "--max-paths") maxPaths = atoll(nx().c_str()); else if (a == "--no-race") norace = true; else file = a; }
    rlimit rl{memGb << 30, memGb << 30}; setrlimit(RLIMIT_AS, &rl); rlimit sk; getrlimit(RLIMIT_STACK, &sk);
    auto M = parseIRFile(file, err, ctx); if (!M) { err.print("fsx", errs()); return 2; }
    double t0 = Solver::now(); Engine en(M.get()); en.verbose = verbose; en.prof = hot; en.trace = trace; en.fixed = fixed; en.samples = samples; en.rng ^= seed * 0x9E3779B97F4A7C15ull; en.preemptBound = preempt; en.maxViol = maxViol; if (maxInsts) en.maxInsts = maxInsts; if (timeout) en.deadline = t0 + timeout; en.sol.timeoutMs = qt; en.sol.setParams(); if (maxPaths) en.maxPaths = maxPaths; en.raceCheck = !norace;
    for (auto &f : *M) if (!f.isIntrinsic()) en.fc(&f);
    auto st = en.initial();
    // global constructors run first, then the entry point: build a call list
    std::vector<std::pair<uint64_t, Function *>> ctors; if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Function *mf = M->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "fsx: no entry %s\n", entry.c_str()); return 2; }
    for (auto &c : ctors) { unsigned s0 = en.samples; en.samples = 0; en.pushFrame(*st, en.fc(c.second), nullptr, 0, true); // run concretely
        while (true) { bool r = en.step(*st); if (!r) break; en.insts++; } en.samples = s0;
        if (!st->th[0].fr.empty() || !en.viols.empty() || en.inconcl) { fprintf(stderr, "fsx: static initialiser %s failed\n", c.second->getName().str().c_str()); for (auto &p : en.inconclNotes) fprintf(stderr, "  %s\n", p.first.c_str()); for (auto &v : en.viols) fprintf(stderr, "  %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.stack.c_str()); return 2; }
        st->th[0].done = false; }
    en.paths = 0; en.coverHits.clear(); st->insts = 0;
    en.pushFrame(*st, en.fc(mf), nullptr, 0, true); en.run(std::move(st));
    std::string rep = en.report(Solver::now() - t0); if (out.empty()) puts(rep.c_str()); else { std::ofstream o(out); o << rep << "\n"; }
    if (hot) { for (auto *m : {&en.profSelf, &en.profCum}) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : *m) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); fprintf(stderr, "--\n"); for (size_t i = 0; i < v.size() && i < 40; i++) fprintf(stderr, "%6.2f%% %s\n", v[i].first * 6400.0 / en.insts, v[i].second.c_str()); } std::vector<std::pair<uint32_t, std::string>> h; for (auto *f : en.fnById) for (auto &i : f->code) if (i.forks) { std::string w; raw_string_ostream os(w); if (auto &dl = i.I->getDebugLoc()) os << dl->getFilename() << ":" << dl.getLine() << " "; os << f->dname.substr(0, 100); h.push_back({i.forks, os.str()}); } std::sort(h.rbegin(), h.rend()); for (size_t i = 0; i < h.size() && i < 40; i++) fprintf(stderr, "%8u %s\n", h[i].first, h[i].second.c_str()); }
    fflush(stdout); _exit(en.viols.empty() ? (en.inconcl || en.timedOut ? 3 : 0) : 1);
}
