// Native runtime: runs a harness against the real, compiled code with concrete inputs from a file.
// usage: h.native ENTRY INPUTS [OBS-OUT]    exit 0: ran to the end, 77: an assertion of the harness failed, 78: assumption not met / inputs do not fit
#include "fsx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <unistd.h>
#include <thread>
extern "C" { FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); int __real_fflush(FILE *); void *__real_dlsym(void *, const char *); }
#define fopen __real_fopen
#define fclose __real_fclose
#define fflush __real_fflush
#define dlsym __real_dlsym
struct In { std::string name; int kind; std::vector<unsigned char> b; };
static std::vector<In> ins; static size_t nextIn = 0; static FILE *obsF = nullptr; static bool failed = false; static std::string wanted;
static void done(int rc) { if (obsF) fclose(obsF); fflush(stdout); fflush(stderr); _exit(failed ? 77 : rc); }
static std::vector<unsigned char> take(const char *name, int kind, size_t n) {
    if (nextIn >= ins.size()) { return std::vector<unsigned char>(n, 0); } // past the recorded inputs: the engine had stopped here
    In &i = ins[nextIn++]; if (i.name != name || i.kind != kind || i.b.size() != n) { fprintf(stderr, "MISMATCH: harness asks %s kind %d size %zu, file has %s kind %d size %zu\n", name, kind, n, i.name.c_str(), i.kind, i.b.size()); done(78); }
    return i.b; }
extern "C" {
void fsx_symbolic(void *p, size_t n, const char *name) { auto b = take(name, 0, n); memcpy(p, b.data(), n); }
unsigned fsx_choice(const char *name, unsigned n) { auto b = take(name, 1, 8); uint64_t v; memcpy(&v, b.data(), 8); if (v >= n) done(78); return (unsigned)v; }
void fsx_assume(bool c) { if (!c) { fprintf(stderr, "ASSUMPTION not met\n"); done(78); } }
void fsx_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "ASSERT-FAIL %s\n", m); failed = true; if (m == wanted || wanted.empty()) done(77); } }
void fsx_cover(const char *l) { if (obsF) fprintf(obsF, "cover %s\n", l); }
void fsx_obs(const char *name, const void *p, size_t n) { if (!obsF) return; fprintf(obsF, "obs %s ", name); for (size_t i = 0; i < n; i++) fprintf(obsF, "%02x", ((const unsigned char *)p)[i]); fprintf(obsF, "\n"); }
void fsx_obs_u64(const char *name, uint64_t v) { fsx_obs(name, &v, 8); }
void fsx_stop() { done(0); abort(); }
uint64_t fsx_concretize(uint64_t v) { return v; }
bool fsx_is_symbolic(uint64_t) { return false; }
bool fsx_valid(const void *, size_t) { return true; }
void fsx_print(const char *s, ...) { }
bool fsx_in_engine() { return false; }
uint64_t fsx_live_heap() { return 0; }
int fsx_spawn(void (*)(void *), void *) { fprintf(stderr, "threads cannot be replayed natively\n"); done(78); return 0; }
void fsx_join_all() {}
int fsx_lock_held(const void *) { return 0; }
int fsx_locks_held() { return 0; }
int fsx_thread() { return 1; }
}
int main(int argc, char **argv) {
    if (argc < 3) return 2; FILE *f = fopen(argv[2], "r"); if (!f) return 2; char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) { std::string s(line, n); while (!s.empty() && (s.back() == '\n')) s.pop_back(); if (s.rfind("want ", 0) == 0) wanted = s.substr(5); if (s.rfind("in\t", 0) != 0) continue; size_t a = s.find('\t', 3), b = s.find('\t', a + 1); In i; i.name = s.substr(3, a - 3); i.kind = atoi(s.substr(a + 1, b - a - 1).c_str()); std::string h = s.substr(b + 1); for (size_t k = 0; k + 1 < h.size(); k += 2) i.b.push_back((unsigned char)strtol(h.substr(k, 2).c_str(), nullptr, 16)); ins.push_back(i); }
    fclose(f); if (argc > 3) obsF = fopen(argv[3], "w"); if (wanted == "*") wanted = "\x01";
    char dir[] = "/tmp/fsxreplayXXXXXX"; if (getenv("FSX_SCRATCH")) { if (chdir(getenv("FSX_SCRATCH"))) return 2; } (void)dir;
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    e(); done(0);
}
