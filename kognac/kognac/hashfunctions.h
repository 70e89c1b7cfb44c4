#pragma once
#include <cstdint>
#include <cstddef>
class Hashes {
public:
    static int64_t dbj2s_56(const char *s, const int n) { uint64_t h = 5381; for (int i = 0; i < n; ++i) h = h * 33 + (unsigned char)s[i]; return (int64_t)(h & 0xFFFFFFFFFFFFFFull); }
    static int dbj2s(const char *s, const int n) { unsigned h = 5381; for (int i = 0; i < n; ++i) h = h * 33 + (unsigned char)s[i]; return (int)h; }
    static int64_t getCodeWithDefaultFunction(const char *s, const int n) { return dbj2s_56(s, n); }
};
