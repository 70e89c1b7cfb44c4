// Stand-in for KOGNAC's compressed record files: same interface, records stored plainly.
#pragma once
#include <kognac/utils.h>
#include <fstream>
class LZ4Writer {
    std::ofstream o;
    std::string path;
public:
    LZ4Writer(std::string f) : o(f, std::ios_base::binary), path(f) {}
    void writeByte(char c) { o.write(&c, 1); }
    void writeShort(short v) { char b[2]; Utils::encode_short(b, v); o.write(b, 2); }
    void writeInt(int v) { char b[4]; Utils::encode_int(b, v); o.write(b, 4); }
    void writeLong(int64_t v) { char b[8]; Utils::encode_long(b, v); o.write(b, 8); }
    void writeVLong(int64_t v) { char b[16]; o.write(b, Utils::encode_vlong2(b, v)); }
    void writeRawArray(const char *b, int n) { o.write(b, n); }
    void writeString(const char *b, int n) { writeVLong(n); o.write(b, n); }
};
class LZ4Reader {
    std::ifstream i; std::string s;
public:
    LZ4Reader(std::string f) : i(f, std::ios_base::binary) {}
    bool isEof() { return i.peek() == -1; }
    char parseByte() { char c = 0; i.read(&c, 1); return c; }
    int parseInt() { char b[4] = {}; i.read(b, 4); return Utils::decode_int(b); }
    int64_t parseLong() { char b[8] = {}; i.read(b, 8); return Utils::decode_long(b); }
    int64_t parseVLong() { char b[16]; int n = 0; do { b[n] = 0; i.read(b + n, 1); } while ((b[n++] & 128) && n < 16); int o = 0; return Utils::decode_vlong2(b, &o); }
    const char *parseString(int &n) { n = (int)parseVLong(); s.resize((size_t)n + 1); i.read(&s[0], n); s[(size_t)n] = 0; return s.data(); }
};
