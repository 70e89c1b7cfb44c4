// Stand-in for KOGNAC's Utils, written from its contract (fixed-width fields big-endian,
// "vlong" = 3-bit length header, "2" = 7 bits per byte with a continuation bit).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <unordered_map>
#include <set>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <kognac/logs.h>
#include <memory>
#include <map>
#include <kognac/consts.h>
#define DDLEXPORT
#ifndef LIBEXP
#define LIBEXP
#endif
using namespace std;
class Utils {
public:
    // ---- fixed width
    static int16_t decode_short_s(const char *b) { return (int16_t)decode_short(b); }
    static uint16_t decode_short(const char *b) { return (uint16_t)(((b[0] & 0xFF) << 8) + (b[1] & 0xFF)); }
    static uint16_t decode_short(const char *b, int off) { return decode_short(b + off); }
    static void encode_short(char *b, int n) { b[0] = (char)(n >> 8); b[1] = (char)n; }
    static void encode_short(char *b, int off, int n) { encode_short(b + off, n); }
    static int decode_int(const char *b) { return (int)((uint32_t)(b[0] & 0xFF) << 24 | (uint32_t)(b[1] & 0xFF) << 16 | (uint32_t)(b[2] & 0xFF) << 8 | (uint32_t)(b[3] & 0xFF)); }
    static int decode_int(const char *b, int off) { return decode_int(b + off); }
    static void encode_int(char *b, int n) { b[0] = (char)(n >> 24); b[1] = (char)(n >> 16); b[2] = (char)(n >> 8); b[3] = (char)n; }
    static void encode_int(char *b, int off, int n) { encode_int(b + off, n); }
    static int64_t decode_long(const char *b) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | (uint64_t)(b[i] & 0xFF); return (int64_t)v; }
    static int64_t decode_long(const char *b, int off) { return decode_long(b + off); }
    static void encode_long(char *b, int64_t n) { for (int i = 0; i < 8; ++i) b[i] = (char)((uint64_t)n >> (56 - 8 * i)); }
    static void encode_long(char *b, int off, int64_t n) { encode_long(b + off, n); }
    static int64_t decode_longFixedBytes(const char *b, const uint8_t nbytes) { uint64_t v = 0; for (int i = 0; i < nbytes; ++i) v = v << 8 | (uint64_t)(b[i] & 0xFF); return (int64_t)v; }
    static void encode_longNBytes(char *b, const uint8_t nbytes, const uint64_t n) { for (int i = 0; i < nbytes; ++i) b[i] = (char)(n >> (8 * (nbytes - 1 - i))); }
    static int numBytesFixedLength(int64_t n) { int k = 0; do { ++k; n >>= 8; } while (n > 0); return k; }
    // ---- 7 bits per byte
    static int numBytes2(int64_t n) { int k = 0; do { n >>= 7; ++k; } while (n > 0); return k; }
    static uint16_t encode_vlong2(char *b, int64_t n) { uint16_t i = 0; uint64_t u = (uint64_t)n; while (u >= 128) { b[i++] = (char)((u & 127) | 128); u >>= 7; } b[i++] = (char)u; return i; }
    static int encode_vlong2(char *b, int off, int64_t n) { return off + encode_vlong2(b + off, n); }
    static int64_t decode_vlong2(const char *b, int *off) { uint64_t v = 0; int sh = 0; for (;;) { uint64_t c = (uint64_t)(b[(*off)++] & 0xFF); v |= (c & 127) << sh; sh += 7; if (c < 128) break; } return (int64_t)v; }
    static int encode_vint2(char *b, int off, int n) { return encode_vlong2(b, off, (int64_t)(uint32_t)n); }
    static int decode_vint2(char *b, int *off) { return (int)decode_vlong2(b, off); }
    static int encode_vint2(char *b, int n) { return encode_vlong2(b, (int64_t)(uint32_t)n); }
    static void encode_vlong2_fixedLen(char *b, int64_t n, const uint8_t len) { uint64_t u = (uint64_t)n; for (int i = 0; i + 1 < len; ++i) { b[i] = (char)((u & 127) | 128); u >>= 7; } b[len - 1] = (char)(u & 127); }
    static int decode_vlong2_size(const char *b) { int i = 0; decode_vlong2(b, &i); return i; }
    // ---- length header in the top three bits
    static int numBytes(int64_t n) { int64_t max = 32; if (n < 0) throw 10; for (int i = 1; i <= 8; ++i) { if (n < max) return i; max *= 256; } throw 10; }
    static uint16_t encode_vlong(char *b, int64_t n) { int k = numBytes(n); encode_longNBytes(b, (uint8_t)k, (uint64_t)n); b[0] = (char)((b[0] & 0x1F) | ((k - 1) << 5)); return (uint16_t)k; }
    static int encode_vlong(char *b, int off, int64_t n) { return off + encode_vlong(b + off, n); }
    static int64_t decode_vlong(const char *b, int *off) { int k = ((b[*off] & 0xFF) >> 5) + 1; uint64_t v = (uint64_t)(b[*off] & 0x1F); for (int i = 1; i < k; ++i) v = v << 8 | (uint64_t)(b[*off + i] & 0xFF); *off += k; return (int64_t)v; }
    // ---- one header bit in the first byte
    static uint16_t encode_vlongWithHeader0(char *b, int64_t n) { char t[16]; uint16_t k = 0; uint64_t u = (uint64_t)n; t[k++] = (char)(u & 63); u >>= 6; if (u) t[0] |= 64; while (u) { t[k] = (char)(u & 127); u >>= 7; if (u) t[k] |= 128; ++k; } memcpy(b, t, k); return k; }
    static uint16_t encode_vlongWithHeader1(char *b, int64_t n) { uint16_t k = encode_vlongWithHeader0(b, n); b[0] |= 128; return k; }
    static int64_t decode_vlongWithHeader(const char *b, const int end, int *p) { uint64_t v = (uint64_t)(b[*p] & 63); bool more = b[*p] & 64; ++*p; int sh = 6; while (more && *p < end) { more = b[*p] & 128; v |= (uint64_t)(b[*p] & 127) << sh; sh += 7; ++*p; } return (int64_t)v; }
    static int64_t decode_vlongWithHeader0(const char *b, const int end, int *p) { return decode_vlongWithHeader(b, end, p); }
    static int64_t decode_vlongWithHeader1(const char *b, const int end, int *p) { return decode_vlongWithHeader(b, end, p); }
    static void encode_longWithHeader0(char *b, int64_t n) { encode_long(b, n & 0x7FFFFFFFFFFFFFFFll); }
    static void encode_longWithHeader1(char *b, int64_t n) { encode_long(b, n); b[0] |= 128; }
    static int64_t decode_longWithHeader(const char *b) { return decode_long(b) & 0x7FFFFFFFFFFFFFFFll; }
    static int commonPrefix(const char *a, int sa, int ea, const char *b, int sb, int eb) { int n = 0; while (sa < ea && sb < eb && a[sa] == b[sb]) { ++sa; ++sb; ++n; } return n; }
    static int prefixEquals(char *o1, int len, char *o2) { for (int i = 0; i < len; ++i) if (o1[i] != o2[i]) return (o1[i] & 0xff) - (o2[i] & 0xff); return 0; }
    static int prefixEquals(char *o1, int len1, char *o2, int len2) { int i = 0; for (; i < len1 && i < len2; ++i) if (o1[i] != o2[i]) return (o1[i] & 0xff) - (o2[i] & 0xff); return i == len1 ? 0 : 1; } // 0: the first is a prefix of the second
    static int compare(const char *o1, int s1, int e1, const char *o2, int s2, int e2) { for (; s1 < e1 && s2 < e2; ++s1, ++s2) if (o1[s1] != o2[s2]) return (o1[s1] & 0xff) - (o2[s2] & 0xff); return (e1 - s1) - (e2 - s2); }
    // ---- strings
    static bool starts_with(const string s, const string p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
    static bool ends_with(const string s, const string p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
    static bool contains(const string s, const string p) { return s.find(p) != string::npos; }
    template<typename T> static T lexical_cast(string s) { T v; std::istringstream i(s); i >> v; return v; }
    // ---- files
    static bool exists(std::string f) { struct stat st; return ::stat(f.c_str(), &st) == 0; }
    static bool isDirectory(string f) { struct stat st; return ::stat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
    static bool isFile(string f) { struct stat st; return ::stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
    static uint64_t fileSize(string f) { struct stat st; return ::stat(f.c_str(), &st) == 0 ? (uint64_t)st.st_size : 0; }
    static void resizeFile(string f, uint64_t n) { if (::truncate(f.c_str(), (off_t)n)) throw 10; }
    static void create_directories(string n) { for (size_t i = 1; i <= n.size(); ++i) if (i == n.size() || n[i] == '/') ::mkdir(n.substr(0, i).c_str(), 0777); }
    static void remove(string f) { ::remove(f.c_str()); }
    static void rename(string a, string b) { ::rename(a.c_str(), b.c_str()); }
    static std::vector<string> _ls(string d) { std::vector<string> r; if (DIR *D = opendir(d.c_str())) { while (auto *e = readdir(D)) { string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(D); } std::sort(r.begin(), r.end()); return r; }
    static void remove_all(string p) { if (isDirectory(p)) for (auto &n : _ls(p)) remove_all(p + "/" + n); ::remove(p.c_str()); }
    static string filename(string p) { auto i = p.find_last_of('/'); return i == string::npos ? p : p.substr(i + 1); }
    static string parentDir(string p) { auto i = p.find_last_of('/'); return i == string::npos ? string(".") : p.substr(0, i); }
    static string removeExtension(string f) { auto i = f.find_last_of('.'); return i == string::npos ? f : f.substr(0, i); }
    static string extension(string f) { auto i = f.find_last_of('.'); return i == string::npos ? string() : f.substr(i); }
    static bool hasExtension(string f) { return filename(f).find('.') != string::npos; }
    static std::vector<string> getFiles(string d, bool ignoreExtension = false) { std::vector<string> r; for (auto &n : _ls(d)) if (isFile(d + "/" + n)) { if (ignoreExtension) { string m = removeExtension(n); if (std::find(r.begin(), r.end(), d + "/" + m) == r.end()) r.push_back(d + "/" + m); } else r.push_back(d + "/" + n); } return r; }
    static std::vector<string> getFilesWithPrefix(string d, string p) { std::vector<string> r; for (auto &n : _ls(d)) if (starts_with(n, p)) r.push_back(n); return r; }
    static std::vector<string> getFilesWithSuffix(string d, string p) { std::vector<string> r; for (auto &n : _ls(d)) if (ends_with(n, p)) r.push_back(n); return r; }
    static std::vector<string> getSubdirs(string d) { std::vector<string> r; for (auto &n : _ls(d)) if (isDirectory(d + "/" + n)) r.push_back(d + "/" + n); return r; }
    static bool isEmpty(string d) { return _ls(d).empty(); }
    static void linkdir(string, string) {}
    static void rmlink(string l) { ::unlink(l.c_str()); }
    static void copy(string a, string b) { std::ifstream i(a, std::ios_base::binary); std::ofstream o(b, std::ios_base::binary); int c; while ((c = i.get()) != -1) o.put((char)c); }
    // ---- system
    static int64_t getSystemMemory() { return 4ll << 30; }
    static int64_t getUsedMemory() { return 0; }
    static double get_max_mem() { return 0; }
    static int64_t getVmRSS() { return 0; }
    static double getCPUUsage() { return 0; }
    static int getNumberPhysicalCores() { return 4; }
    static int64_t spaceLeft(string) { return 1ll << 40; }
    static int64_t phy_diskread() { return 0; } static int64_t phy_diskwrite() { return 0; } static int64_t diskread() { return 0; } static int64_t diskwrite() { return 0; }
    static int64_t getIOReadChars() { return 0; } static int64_t getIOReadBytes() { return 0; }
};
