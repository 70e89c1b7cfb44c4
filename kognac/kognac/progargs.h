#pragma once
#include <kognac/utils.h>
class ProgramArgs { public: template<typename T> void add(std::string, std::string, T, std::string, bool) {} };
