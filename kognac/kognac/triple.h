#pragma once
#include <cstdint>
#include <kognac/triplewriters.h>
class Triple { public: int64_t s, p, o, count; Triple() : s(0), p(0), o(0), count(0) {} Triple(int64_t s, int64_t p, int64_t o) : s(s), p(p), o(o), count(0) {} };
