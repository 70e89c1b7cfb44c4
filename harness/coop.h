// Included in front of every source of a threaded check: std::thread, std::mutex and std::condition_variable become
// cooperative ones, and every lock, unlock, wait, notify, create and join is a place where the scheduler may switch.
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <chrono>
#include <memory>
#include <cstdint>
namespace sxt {
int create(std::function<void()> f);
void lock(void *m, int &owner); void unlock(void *m, int &owner); bool trylock(int &owner);
void wait(void *cv, void *m, int &owner); void notify(void *cv, bool all);
void join(int t); void gone(void *o);
}
namespace std {
class sxmutex {
public:
    int owner; sxmutex() : owner(-1) {} sxmutex(const sxmutex &) = delete;
    ~sxmutex() { sxt::gone(this); }
    void lock() { sxt::lock(this, owner); } void unlock() { sxt::unlock(this, owner); } bool try_lock() { return sxt::trylock(owner); }
};
class sxcondition_variable {
public:
    char alive; sxcondition_variable() : alive(1) {} sxcondition_variable(const sxcondition_variable &) = delete;
    ~sxcondition_variable() { sxt::gone(this); alive = 0; }
    void wait(unique_lock<sxmutex> &l) { sxt::wait(this, l.mutex(), l.mutex()->owner); }
    template<class P> void wait(unique_lock<sxmutex> &l, P p) { while (!p()) wait(l); }
    void notify_one() { volatile char c = alive; (void)c; sxt::notify(this, false); }
    void notify_all() { volatile char c = alive; (void)c; sxt::notify(this, true); }
};
class sxthread {
    int t;
public:
    sxthread() : t(-1) {}
    template<class F, class... A> explicit sxthread(F &&f, A &&... a) : t(sxt::create(std::bind(std::forward<F>(f), std::forward<A>(a)...))) {}
    sxthread(sxthread &&o) : t(o.t) { o.t = -1; } sxthread &operator=(sxthread &&o) { if (t >= 0) std::terminate(); t = o.t; o.t = -1; return *this; }
    sxthread(const sxthread &) = delete;
    ~sxthread() { if (t >= 0) std::terminate(); }
    bool joinable() const { return t >= 0; }
    void join() { sxt::join(t); t = -1; } void detach() { t = -1; }
    static unsigned hardware_concurrency() { return 2; }
};
}
#define thread sxthread
#define mutex sxmutex
#define condition_variable sxcondition_variable
#define SB_BLOCK_UNDER_TEST 32
#include <trident/kb/consts.h>
#undef SB_BLOCK_SIZE
#define SB_BLOCK_SIZE SB_BLOCK_UNDER_TEST
