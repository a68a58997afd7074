// Harness API. In the engine these are builtins; natively (replay) they read the counterexample file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void fsx_symbolic(void *p, size_t n, const char *name);      // n arbitrary bytes
unsigned fsx_choice(const char *name, unsigned n);           // 0..n-1, explored exhaustively as separate paths
void fsx_assume(bool c);
void fsx_assert(bool c, const char *msg);
void fsx_cover(const char *label);                           // reachability witness
void fsx_obs(const char *name, const void *p, size_t n);     // observation compared against the native run
void fsx_obs_u64(const char *name, uint64_t v);
[[noreturn]] void fsx_stop();                                // end of this path
uint64_t fsx_concretize(uint64_t v);
bool fsx_is_symbolic(uint64_t v);
bool fsx_valid(const void *p, size_t n);
void fsx_print(const char *s, ...);
bool fsx_in_engine();
uint64_t fsx_live_heap();
int fsx_spawn(void (*fn)(void *), void *arg);
void fsx_join_all();
int fsx_lock_held(const void *m);
int fsx_locks_held();
int fsx_thread();
void fsx_main();
}
template <typename T> inline T fsx_sym(const char *name) { T v; fsx_symbolic(&v, sizeof v, name); return v; }
inline uint32_t fsx_range(const char *name, uint32_t lo, uint32_t hi) { uint32_t v = 0; fsx_symbolic(&v, hi < 256 ? 1 : hi < 65536 ? 2 : 4, name); fsx_assume(v >= lo && v <= hi); return v; }
