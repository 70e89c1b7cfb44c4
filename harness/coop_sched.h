// The scheduler behind coop.h: who runs next is an input of the check.
#pragma once
#include "sx.h"
#include <vector>
namespace sxt {
enum { RUN, LOCK, COND, JOIN, DONE };
struct T { int st; void *on; int eng; std::function<void()> f; bool woken; };
static std::vector<T *> ts;
static int cur = 0, budget = 0; static uint64_t points = 0, when = 0, maxPoints = 0;
static bool on = false;
static void init(int preemptions, uint64_t pts) { if (ts.empty()) ts.push_back(new T{RUN, nullptr, 0, nullptr, false}); budget = preemptions; maxPoints = pts; if (budget > 0) when = sx_range("preempt", 0, pts); on = true; }
static void go(int k) { if (k == cur) return; cur = k; sx_thread_switch(ts[k]->eng); }
static void next(bool forced) {
    std::vector<int> r; for (unsigned i = 0; i < ts.size(); i++) if (ts[i]->st == RUN) r.push_back((int)i);
    if (r.empty()) { SX_ASSERT(false, "threads: some thread can always go on"); sx_stop(); }
    if (forced) { int k = 0; if (r.size() > 1) k = (int)sx_concretize(sx_range("next", 0, r.size() - 1)); go(r[k]); return; }
    if (budget <= 0 || r.size() < 2) return;
    if (!(points++ == when)) return; // forks: here or later
    budget--; if (budget > 0) when = sx_range("preempt", points, maxPoints); sx_reach("preempted");
    for (unsigned i = 0; i < r.size(); i++) if (r[i] == cur) { r.erase(r.begin() + i); break; }
    int k = 0; if (r.size() > 1) k = (int)sx_concretize(sx_range("next", 0, r.size() - 1)); go(r[k]);
}
static void point() { if (on && ts.size() > 1) next(false); }
static void block(int why, void *o) { ts[cur]->st = why; ts[cur]->on = o; next(true); }
static void wake(int why, void *o, bool all) { for (T *t : ts) if (t->st == why && t->on == o) { t->st = RUN; if (!all) return; } }
static void entry(void *p) { T *t = (T *)p; t->f(); t->f = nullptr; t->st = DONE; wake(JOIN, t, true); next(true); for (;;) sx_stop(); }
int create(std::function<void()> f) { if (ts.empty()) ts.push_back(new T{RUN, nullptr, 0, nullptr, false}); T *t = new T{RUN, nullptr, 0, f, false}; ts.push_back(t); int id = (int)ts.size() - 1; t->eng = (int)sx_thread_create(entry, t); point(); return id; }
static void acquire(void *m, int &owner) { while (owner >= 0) { SX_ASSERT(owner != cur, "threads: a lock is not taken twice"); block(LOCK, m); } owner = cur; }
void lock(void *m, int &owner) { point(); acquire(m, owner); }
bool trylock(int &owner) { point(); if (owner >= 0) return false; owner = cur; return true; }
void unlock(void *m, int &owner) { SX_ASSERT(owner == cur, "threads: a lock is released by its holder"); owner = -1; wake(LOCK, m, true); point(); }
void wait(void *cv, void *m, int &owner) { point(); owner = -1; wake(LOCK, m, true); block(COND, cv); acquire(m, owner); }
void notify(void *cv, bool all) { point(); wake(COND, cv, all); point(); }
void join(int t) { point(); while (ts[t]->st != DONE) block(JOIN, ts[t]); }
void gone(void *o) { for (T *t : ts) SX_ASSERT(!((t->st == LOCK || t->st == COND) && t->on == o), "threads: nobody waits for something that is destroyed"); }
// lets every other thread run until it is finished
static void drain() { for (unsigned i = 1; i < ts.size(); i++) { join((int)i); } on = false; }
}
