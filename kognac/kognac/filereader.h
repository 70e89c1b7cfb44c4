// Stand-in for KOGNAC's triple reader: "s p o ." per line, terms without blanks.
#pragma once
#include <kognac/utils.h>
struct FileInfo { std::string path; uint64_t start, size; bool splittable; };
class FileReader {
    std::ifstream i; std::string t[3]; bool ok;
public:
    FileReader(FileInfo f) : i(f.path), ok(false) {}
    bool parseTriple() { std::string l; if (!std::getline(i, l)) return false; size_t p = 0; ok = true; for (int k = 0; k < 3; ++k) { size_t e = l.find(' ', p); if (e == std::string::npos) { ok = false; return true; } t[k] = l.substr(p, e - p); p = e + 1; } return true; }
    bool isTripleValid() { return ok; }
    const char *getCurrentS(int &n) { n = (int)t[0].size(); return t[0].c_str(); }
    const char *getCurrentP(int &n) { n = (int)t[1].size(); return t[1].c_str(); }
    const char *getCurrentO(int &n) { n = (int)t[2].size(); return t[2].c_str(); }
};
