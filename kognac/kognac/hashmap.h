#pragma once
#include <kognac/utils.h>
#include <google/dense_hash_map>
#define EMPTY_KEY "\0\1"
#define DELETED_KEY "\0\2"
// strings prefixed by a two-byte big-endian length
struct hashstr { std::size_t operator()(const char *k) const { int n = Utils::decode_short(k); std::size_t h = 5381; for (int i = 0; i < n; ++i) h = h * 33 + (unsigned char)k[2 + i]; return h; } };
struct eqstr { bool operator()(const char *a, const char *b) const { int n = Utils::decode_short(a); return n == Utils::decode_short(b) && memcmp(a + 2, b + 2, (size_t)n) == 0; } };
typedef google::dense_hash_map<const char *, int64_t, hashstr, eqstr> ByteArrayToNumberMap;
