#pragma once
#include <cstdint>
#include <memory>
#include <cassert>
#include <climits>
#include <limits>
#include <cstring>
#define MAX_TERM_SIZE 131072
typedef uint64_t nTerm;
typedef char tTerm;
#include <string>
#define DIR_SEP std::string("/")
#define CDIR_SEP '/'
