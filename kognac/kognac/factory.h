// Stand-in for KOGNAC's object pools: released elements are handed out again, last one first.
#pragma once
#include <vector>
#include <cstdlib>
#include <kognac/logs.h>
template<class T> class Factory {
    std::vector<T *> pool;
public:
    Factory() {}
    T *get() { if (!pool.empty()) { T *r = pool.back(); pool.pop_back(); return r; } return new T(); }
    void release(T *e) { pool.push_back(e); }
    ~Factory() { for (T *e : pool) delete e; }
};
template<class T> class PreallocatedFactory {
    std::vector<T *> pool; std::vector<T *> all;
public:
    PreallocatedFactory(int, int = 0) {}
    PreallocatedFactory(const PreallocatedFactory &) = delete;
    T *get() { if (!pool.empty()) { T *r = pool.back(); pool.pop_back(); return r; } T *r = new T(); all.push_back(r); return r; }
    void release(T *e) { pool.push_back(e); }
    ~PreallocatedFactory() { for (T *e : all) delete e; }
};
template<class T> class PreallocatedArraysFactory {
protected:
    const int sz; std::vector<T *> pool; std::vector<T *> all;
public:
    PreallocatedArraysFactory(const int s, int = 0, int = 0) : sz(s) {}
    PreallocatedArraysFactory(const PreallocatedArraysFactory &) = delete;
    T *get() { if (!pool.empty()) { T *r = pool.back(); pool.pop_back(); return r; } T *r = new T[sz](); all.push_back(r); return r; }
    void release(T *e) { pool.push_back(e); }
    ~PreallocatedArraysFactory() { for (T *e : all) delete[] e; }
};
template<class T> class PreallocatedStratArraysFactory : public PreallocatedArraysFactory<T> {
public:
    PreallocatedStratArraysFactory(const int s, int = 0, int = 0) : PreallocatedArraysFactory<T>(s) {}
};
