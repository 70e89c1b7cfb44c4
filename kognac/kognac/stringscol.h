#pragma once
#include <vector>
#include <cstring>
class StringCollection {
    std::vector<char *> v;
public:
    StringCollection(int) {}
    StringCollection(const StringCollection &) = delete;
    void clear() { for (char *p : v) delete[] p; v.clear(); }
    const char *addNew(const char *t, int n) { char *p = new char[n > 0 ? n : 1]; memcpy(p, t, (size_t)n); v.push_back(p); return p; }
    ~StringCollection() { clear(); }
};
