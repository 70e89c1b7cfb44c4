#pragma once
#include <cstdint>
class TripleWriter {
public:
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3) = 0;
    virtual void write(const int64_t t1, const int64_t t2, const int64_t t3, const int64_t count) = 0;
    virtual ~TripleWriter() {}
};
