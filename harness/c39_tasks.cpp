// C39: delayed tasks run once, in order of time, not early, and not after being cancelled.
#include "mqtt.hpp"
#include "queuedtasks.h"
#include "flashmq_public.h"
#ifndef OPS
#define OPS 4
#endif
struct T { uint32_t id; int64_t due, interval; bool repeat, alive; int act, arg; };
static std::vector<T> ts; static std::vector<int> ran; static int64_t nowMs; static QueuedTasks *qt; static bool viaApi; static int depth;
static void add(int64_t delay, bool repeat, int act, int arg);
static void cancel(size_t i) { if (viaApi) flashmq_remove_task(ts[i].id); else qt->eraseTask(ts[i].id); ts[i].alive = false; }
static void body(int i) { ran.push_back(i); CHECK(ts[i].alive, "a task that was cancelled or already ran does not run"); CHECK(nowMs >= ts[i].due, "not before its time"); if (ts[i].repeat) ts[i].due = nowMs + ts[i].interval; else ts[i].alive = false;
    int act = ts[i].act, arg = ts[i].arg; if (act == 1 && ts.size() < 6) { add(arg, false, 0, 0); COVER("adds"); } else if (act == 2 && (size_t)arg < ts.size()) { cancel(arg); COVER("cancels"); } else if (act == 3) { COVER("throws"); throw std::runtime_error("from a task"); } }
static void add(int64_t delay, bool repeat, int act, int arg) { int i = ts.size(); ts.push_back({0, nowMs + delay, delay, repeat, true, act, arg}); auto f = [i] { body(i); }; uint32_t id = viaApi ? flashmq_add_task(f, delay) : qt->addTask(f, delay, repeat); for (int k = 0; k < i; k++) if (ts[k].alive) CHECK(ts[k].id != id, "task identifiers are distinct"); ts[i].id = id; }
static void run(World *w) {
    // which must run, in this order, unless an earlier one of the same run cancels it
    std::vector<T> before = ts; std::vector<int> want; for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive && ts[i].due <= nowMs) { size_t k = want.size(); want.push_back(i); while (k > 0 && before[want[k - 1]].due > before[i].due) { std::swap(want[k], want[k - 1]); k--; } }
    ran.clear(); if (w) { w->pump(); } else qt->performAll();
    std::vector<char> gone(before.size(), 0); std::vector<int> cnt(before.size(), 0); int64_t last = 0; size_t n = 0; for (int x : ran) if ((size_t)x < before.size()) { CHECK(before[x].alive & (before[x].due >= last), "due tasks run in order of time"); last = before[x].due; cnt[x]++; n++; if (before[x].act == 2 && (size_t)before[x].arg < before.size()) gone[before[x].arg] = 1; else if (!w) CHECK(before[x].due <= nowMs, "only due ones"); }
    for (int i : want) CHECK(cnt[i] == 1 || (gone[i] && cnt[i] == 0), "every due task runs once"); if (n) COVER("ran"); else COVER("nothing due"); if (n < want.size()) COVER("cancelled in the same run"); }
static void history(World *w) {
    for (int i = 0; i < OPS; i++) { int op = i == 0 ? 0 : fsx_choice("op", 4);
        if (op == 0) { if (ts.size() >= 3) continue; uint16_t d; fsx_symbolic(&d, 2, "delay"); if (w) fsx_assume(d > 0); bool rep = !w && fsx_choice("repeat", 2); if (rep) fsx_assume(d > 0); int act = fsx_choice("what it does", 4); int arg = 0; if (act == 1) arg = 1 + fsx_choice("delay of new task", 2) * 500; else if (act == 2) arg = fsx_choice("cancels which", 3); add(d, rep, act, arg); }
        else if (op == 1) { cancel(fsx_choice("which", ts.size())); COVER("cancelled"); }
        else if (op == 2) { uint16_t d; fsx_symbolic(&d, 2, "time passes"); nowMs += d; env_advance_ms(d); run(w); }
        else run(w); }
    for (auto &t : ts) if (t.repeat && t.alive) cancel(&t - &ts[0]); nowMs += 70000; env_advance_ms(70000); run(w); nowMs += 70000; env_advance_ms(70000); run(w); for (auto &t : ts) CHECK(!t.alive, "every task that was not cancelled ran"); }
extern "C" void fsx_history() { QueuedTasks q; qt = &q; World w; w.start(); /* logger etc. */ history(nullptr); CHECK(q.getTaskCount() == 0, "nothing is left behind"); CHECK(q.getTimeTillNext() == 0xffffffffu, "nothing left to wait for"); }
// through the worker thread's loop and the plugin interface
extern "C" void fsx_loop() { World w; w.start(); viaApi = true; history(&w); }
// how long the loop may sleep: never past the next task
extern "C" void fsx_wait() { QueuedTasks q; uint32_t a, b; fsx_symbolic(&a, 4, "first delay"); fsx_symbolic(&b, 4, "second delay"); int n = 0; q.addTask([&] { n++; }, a); q.addTask([&] { n++; }, b); uint32_t m = a < b ? a : b; CHECK(q.getTimeTillNext() == m, "time until the next task"); uint32_t t; fsx_symbolic(&t, 4, "time passes"); env_advance_ms(t); uint32_t left = t >= m ? 0 : m - t; CHECK(q.getTimeTillNext() == left, "time left"); q.performAll(); CHECK(n == (t >= a) + (t >= b), "the due ones ran"); COVER("waited"); }
