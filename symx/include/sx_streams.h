#pragma once
#include "sx_iosfwd.h"
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdio>
#include <cstring>
#include <cstdint>
extern "C" {
  int sx_fs_open(const char *path, int flags);   // flags: 1 read, 2 write, 4 create, 8 truncate, 16 append
  int sx_fs_close(int fd);
  long sx_fs_read(int fd, void *buf, unsigned long n);
  long sx_fs_write(int fd, const void *buf, unsigned long n);
  long sx_fs_seek(int fd, long off, int whence);
  int sx_fmt_double(char *buf, unsigned long n, int prec, int fixed, double d);
}
namespace std {
  class locale { public: locale() {} explicit locale(const char*) {} static locale classic() { return locale(); } };
  class ios_base {
  public:
    typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags;
    enum seekdir { beg = 0, cur = 1, end = 2 };
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256;
    class failure : public runtime_error { public: explicit failure(const string &s) : runtime_error(s) {} };
    fmtflags _fl = dec | skipws; long _w = 0, _p = 6;
    fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { _fl &= ~m; }
    long width() const { return _w; } long width(long w) { long o = _w; _w = w; return o; }
    long precision() const { return _p; } long precision(long p) { long o = _p; _p = p; return o; }
    locale imbue(const locale &) { return locale(); } locale getloc() const { return locale(); }
    static bool sync_with_stdio(bool = true) { return true; }
    virtual ~ios_base() {}
  };
  template<typename C, typename T> class basic_streambuf {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type;
    virtual ~basic_streambuf() {}
    virtual long xsgetn(C *, long) { return 0; }
    virtual long xsputn(const C *, long) { return 0; }
    virtual int _peek() { return -1; }          // -1 at the end
    virtual int _bump() { return -1; }
    virtual bool _back() { return false; }
    virtual long _seek(long, int, unsigned) { return -1; }
    virtual int sync() { return 0; }
    int_type sgetc() { return _peek(); } int_type sbumpc() { return _bump(); }
    int_type snextc() { if (_bump() == -1) return -1; return _peek(); }
    long sgetn(C *b, long n) { return xsgetn(b, n); } long sputn(const C *b, long n) { return xsputn(b, n); }
    int_type sputc(C c) { return xsputn(&c, 1) == 1 ? (unsigned char)c : -1; }
    int_type sungetc() { return _back() ? 0 : -1; }
    int pubsync() { return sync(); }
    pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = 24) { return _seek(o, d, m); }
    pos_type pubseekpos(pos_type o, ios_base::openmode m = 24) { return _seek(o, 0, m); }
    basic_streambuf *pubsetbuf(C *, long) { return this; }
    locale pubimbue(const locale &l) { return l; }
  };
  template<typename C, typename T> class basic_ios : public ios_base {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type;
    iostate _st = 0; basic_streambuf<C, T> *_sb = nullptr; C _fill = C(' '); iostate _ex = 0;
    iostate rdstate() const { return _st; }
    void clear(iostate s = 0) { _st = _sb ? s : s | badbit; if (_st & _ex) throw failure("basic_ios::clear"); }
    void setstate(iostate s) { clear(_st | s); }
    bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (failbit | badbit); } bool bad() const { return _st & badbit; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate exceptions() const { return _ex; } void exceptions(iostate e) { _ex = e; }
    basic_streambuf<C, T> *rdbuf() const { return _sb; } basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto o = _sb; _sb = b; clear(); return o; }
    C widen(char c) const { return (C)c; }
    C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
    basic_ostream<C, T> *tie() const { return nullptr; } basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
    basic_ios &copyfmt(const basic_ios &o) { _fl = o._fl; _w = o._w; _p = o._p; return *this; }
    void init(basic_streambuf<C, T> *b) { _sb = b; _st = b ? 0 : badbit; }
  };
  template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
  public:
    basic_ostream() {}
    explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
    class sentry { public: explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
    basic_ostream &write(const C *s, long n) { if (!this->_st && this->_sb->xsputn(s, n) != n) this->setstate(ios_base::badbit); return *this; }
    basic_ostream &put(C c) { return write(&c, 1); }
    basic_ostream &flush() { if (this->_sb) this->_sb->sync(); return *this; }
    basic_ostream &seekp(long p) { if (!this->fail() && this->_sb->_seek(p, 0, ios_base::out) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_ostream &seekp(long p, ios_base::seekdir d) { if (!this->fail() && this->_sb->_seek(p, d, ios_base::out) < 0) this->setstate(ios_base::failbit); return *this; }
    long tellp() { return this->fail() ? -1 : this->_sb->_seek(0, 1, ios_base::out); }
    basic_ostream &_text(const C *s, long n) {
      long w = this->_w; this->_w = 0;
      if (w > n && !(this->_fl & ios_base::left)) for (long i = n; i < w; ++i) put(this->_fill);
      write(s, n);
      if (w > n && (this->_fl & ios_base::left)) for (long i = n; i < w; ++i) put(this->_fill);
      return *this;
    }
    basic_ostream &_num(unsigned long v, bool neg) {
      C b[72]; int i = 72; unsigned base = this->_fl & ios_base::hex ? 16 : this->_fl & ios_base::oct ? 8 : 10;
      do { unsigned d = v % base; b[--i] = d < 10 ? '0' + d : (this->_fl & ios_base::uppercase ? 'A' : 'a') + d - 10; v /= base; } while (v);
      if (neg) b[--i] = '-';
      return _text(b + i, 72 - i);
    }
    basic_ostream &operator<<(bool v) { if (this->_fl & ios_base::boolalpha) return v ? _text("true", 4) : _text("false", 5); return _num(v, false); }
    basic_ostream &_sgn(long v, unsigned long mask) { if (this->_fl & (ios_base::hex | ios_base::oct)) return _num((unsigned long)v & mask, false); return v < 0 ? _num(0ul - (unsigned long)v, true) : _num(v, false); }
    basic_ostream &operator<<(short v) { return _sgn(v, 0xffff); }
    basic_ostream &operator<<(unsigned short v) { return _num(v, false); }
    basic_ostream &operator<<(int v) { return _sgn(v, 0xffffffff); }
    basic_ostream &operator<<(unsigned int v) { return _num(v, false); }
    basic_ostream &operator<<(long v) { return _sgn(v, ~0ul); }
    basic_ostream &operator<<(unsigned long v) { return _num(v, false); }
    basic_ostream &operator<<(long long v) { return _sgn(v, ~0ul); }
    basic_ostream &operator<<(unsigned long long v) { return _num(v, false); }
    basic_ostream &operator<<(double v) { char b[400]; int n = sx_fmt_double(b, 400, this->_p, this->_fl & ios_base::fixed ? 1 : 0, v); return _text(b, n); }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(long double v) { return *this << (double)v; }
    basic_ostream &operator<<(const void *p) { return _num((unsigned long)p, false); }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
    basic_ostream &operator<<(basic_streambuf<C, T> *b) { int c; while (b && (c = b->_bump()) != -1) put((C)c); return *this; }
  };
  template<typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { return o._text(&c, 1); }
  template<typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char x = c; return o._text(&x, 1); }
  template<typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char x = c; return o._text(&x, 1); }
  template<typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._text(s, strlen(s)); }
  template<typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o._text((const char *)s, strlen((const char *)s)); }
  template<typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o.flush(); }
  template<typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
  template<typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }

  template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
  public:
    long _gc = 0;
    basic_istream() {}
    explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
    class sentry { bool ok; public: explicit sentry(basic_istream &i, bool noskip = false) { if (!noskip) i._ws(); ok = i.good(); if (!ok) i.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
    long gcount() const { return _gc; }
    void _ws() { if (!this->good()) return; int c; while ((c = this->_sb->_peek()) != -1 && (c == ' ' || (c >= 9 && c <= 13))) this->_sb->_bump(); if (c == -1) this->setstate(ios_base::eofbit); }
    int get() { _gc = 0; if (!this->good()) { this->setstate(ios_base::failbit); return -1; } int c = this->_sb->_bump(); if (c == -1) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
    basic_istream &get(C &c) { int x = get(); if (x != -1) c = (C)x; return *this; }
    int peek() { _gc = 0; if (!this->good()) return -1; int c = this->_sb->_peek(); if (c == -1) this->setstate(ios_base::eofbit); return c; }
    basic_istream &read(C *b, long n) { _gc = 0; if (!this->good()) { this->setstate(ios_base::failbit); return *this; } _gc = this->_sb->xsgetn(b, n); if (_gc != n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
    long readsome(C *b, long n) { _gc = this->_sb->xsgetn(b, n); return _gc; }
    basic_istream &ignore(long n = 1, int delim = -1) { _gc = 0; while (_gc < n) { int c = this->_sb->_bump(); if (c == -1) { this->setstate(ios_base::eofbit); break; } ++_gc; if (c == delim) break; } return *this; }
    basic_istream &unget() { this->_st &= ~ios_base::eofbit; if (!this->_sb->_back()) this->setstate(ios_base::badbit); return *this; }
    basic_istream &putback(C) { return unget(); }
    basic_istream &seekg(long p) { this->_st &= ~ios_base::eofbit; if (!this->fail() && this->_sb->_seek(p, 0, ios_base::in) < 0) this->setstate(ios_base::failbit); return *this; }
    basic_istream &seekg(long p, ios_base::seekdir d) { this->_st &= ~ios_base::eofbit; if (!this->fail() && this->_sb->_seek(p, d, ios_base::in) < 0) this->setstate(ios_base::failbit); return *this; }
    long tellg() { return this->fail() ? -1 : this->_sb->_seek(0, 1, ios_base::in); }
    int sync() { return 0; }
    basic_istream &getline(C *b, long n, C d = '\n') { _gc = 0; long i = 0; if (!this->good()) { this->setstate(ios_base::failbit); if (n > 0) b[0] = 0; return *this; }
      for (;;) { int c = this->_sb->_peek(); if (c == -1) { this->setstate(i ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } if ((C)c == d) { this->_sb->_bump(); ++_gc; break; } if (i + 1 >= n) { this->setstate(ios_base::failbit); break; } b[i++] = (C)this->_sb->_bump(); ++_gc; } if (n > 0) b[i] = 0; return *this; }
    bool _int(unsigned long &v, bool &neg) {
      _ws(); v = 0; neg = false; if (!this->good()) { this->setstate(ios_base::failbit); return false; }
      int c = this->_sb->_peek(); if (c == '-' || c == '+') { neg = c == '-'; this->_sb->_bump(); c = this->_sb->_peek(); }
      int n = 0; while (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); ++n; this->_sb->_bump(); c = this->_sb->_peek(); }
      if (c == -1) this->setstate(ios_base::eofbit);
      if (!n) { this->setstate(ios_base::failbit); return false; } return true;
    }
    template<typename I> basic_istream &_rd(I &x) { unsigned long v; bool neg; if (_int(v, neg)) x = (I)(neg ? 0ul - v : v); else x = 0; return *this; }
    basic_istream &operator>>(short &x) { return _rd(x); } basic_istream &operator>>(unsigned short &x) { return _rd(x); }
    basic_istream &operator>>(int &x) { return _rd(x); } basic_istream &operator>>(unsigned int &x) { return _rd(x); }
    basic_istream &operator>>(long &x) { return _rd(x); } basic_istream &operator>>(unsigned long &x) { return _rd(x); }
    basic_istream &operator>>(long long &x) { return _rd(x); } basic_istream &operator>>(unsigned long long &x) { return _rd(x); }
    basic_istream &operator>>(bool &x) { return _rd(x); }
    basic_istream &operator>>(double &x) { string s; _word(s); x = __builtin_strtod(s); return *this; }
    basic_istream &operator>>(float &x) { double d; *this >> d; x = d; return *this; }
    static double __builtin_strtod(const string &s) { return ::strtod(s.c_str(), nullptr); }
    void _word(string &s) { s.clear(); _ws(); if (!this->good()) { this->setstate(ios_base::failbit); return; } int c; while ((c = this->_sb->_peek()) != -1 && !(c == ' ' || (c >= 9 && c <= 13))) { s.push_back((char)c); this->_sb->_bump(); } if (c == -1) this->setstate(ios_base::eofbit); if (s.empty()) this->setstate(ios_base::failbit); }
    basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
    basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  };
  template<typename T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { i._ws(); int x = i.get(); if (x != -1) c = (char)x; return i; }
  template<typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { i._ws(); return i; }
  template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
  public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T> *b) { this->init(b); }
  };
  template<typename C, typename T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, long n) { return o._text(s, n); }
  inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
  inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
  inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
  inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
  inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
  inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
  inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
  inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
  inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
  inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
  inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
  inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }

  inline namespace __cxx11 {
  template<typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
  public:
    basic_string<C, T, A> _s; size_t _g = 0, _p = 0; unsigned _m;
    explicit basic_stringbuf(unsigned m = ios_base::in | ios_base::out) : _m(m) {}
    explicit basic_stringbuf(const basic_string<C, T, A> &s, unsigned m = ios_base::in | ios_base::out) : _s(s), _m(m) { if (m & (ios_base::ate | ios_base::app)) _p = _s.size(); }
    basic_string<C, T, A> str() const { return _s; }
    void str(const basic_string<C, T, A> &s) { _s = s; _g = 0; _p = (_m & (ios_base::ate | ios_base::app)) ? s.size() : 0; }
    long xsgetn(C *b, long n) override { long k = (long)(_s.size() - _g); if (k > n) k = n; if (k > 0) memcpy(b, _s.data() + _g, k); _g += k; return k; }
    long xsputn(const C *b, long n) override { if (n <= 0) return 0; if (_p == _s.size()) _s.append(b, n); else { if (_p + n > _s.size()) _s.resize(_p + n); memcpy(&_s[_p], b, n); } _p += n; return n; }
    int _peek() override { return _g < _s.size() ? (unsigned char)_s[_g] : -1; }
    int _bump() override { return _g < _s.size() ? (unsigned char)_s[_g++] : -1; }
    bool _back() override { if (!_g) return false; --_g; return true; }
    long _seek(long o, int d, unsigned m) override { long r = -1; if (m & ios_base::in) { r = d == 0 ? o : d == 1 ? (long)_g + o : (long)_s.size() + o; if (r < 0 || r > (long)_s.size()) return -1; _g = r; } if (m & ios_base::out) { r = d == 0 ? o : d == 1 ? (long)_p + o : (long)_s.size() + o; if (r < 0 || r > (long)_s.size()) return -1; _p = r; } return r; }
  };
  template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
    basic_stringbuf<C, T, A> _b;
  public:
    explicit basic_istringstream(unsigned m = ios_base::in) : _b(m | ios_base::in) { this->init(&_b); }
    explicit basic_istringstream(const basic_string<C, T, A> &s, unsigned m = ios_base::in) : _b(s, m | ios_base::in) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A> &s) { _b.str(s); }
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); }
  };
  template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
    basic_stringbuf<C, T, A> _b;
  public:
    explicit basic_ostringstream(unsigned m = ios_base::out) : _b(m | ios_base::out) { this->init(&_b); }
    explicit basic_ostringstream(const basic_string<C, T, A> &s, unsigned m = ios_base::out) : _b(s, m | ios_base::out) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A> &s) { _b.str(s); }
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); }
  };
  template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
    basic_stringbuf<C, T, A> _b;
  public:
    explicit basic_stringstream(unsigned m = ios_base::in | ios_base::out) : _b(m) { this->init(&_b); }
    explicit basic_stringstream(const basic_string<C, T, A> &s, unsigned m = ios_base::in | ios_base::out) : _b(s, m) { this->init(&_b); }
    basic_string<C, T, A> str() const { return _b.str(); } void str(const basic_string<C, T, A> &s) { _b.str(s); }
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); }
  };
  }
  template<typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
  public:
    int _fd = -1; int _pk = -2; // -2: nothing peeked
    bool is_open() const { return _fd >= 0; }
    basic_filebuf *open(const char *p, unsigned m) {
      int f = 0;
      if (m & ios_base::in) f |= 1;
      if (m & (ios_base::out | ios_base::app)) f |= 2;
      if ((m & ios_base::out) && !(m & ios_base::in)) f |= 4 | ((m & ios_base::app) ? 0 : 8);
      if (m & ios_base::app) f |= 4 | 16;
      if (m & ios_base::trunc) f |= 4 | 8;
      _fd = sx_fs_open(p, f);
      if (_fd >= 0 && (m & ios_base::ate)) sx_fs_seek(_fd, 0, 2);
      return _fd >= 0 ? this : nullptr;
    }
    basic_filebuf *close() { if (_fd < 0) return nullptr; sx_fs_close(_fd); _fd = -1; return this; }
    ~basic_filebuf() { close(); }
    long xsgetn(C *b, long n) override { long k = 0; if (n > 0 && _pk >= 0) { b[k++] = (C)_pk; _pk = -2; } long r = sx_fs_read(_fd, b + k, n - k); return r < 0 ? k : k + r; }
    void _drop() { if (_pk >= 0) { sx_fs_seek(_fd, -1, 1); } _pk = -2; }
    long xsputn(const C *b, long n) override { _drop(); return sx_fs_write(_fd, b, n); }
    int _peek() override { if (_pk >= 0) return _pk; C c; if (sx_fs_read(_fd, &c, 1) != 1) return -1; return _pk = (unsigned char)c; }
    int _bump() override { int c = _peek(); _pk = -2; return c; }
    bool _back() override { if (_pk >= 0) { _drop(); } return sx_fs_seek(_fd, -1, 1) >= 0; }
    long _seek(long o, int d, unsigned) override { _drop(); return sx_fs_seek(_fd, o, d); }
  };
#define SX_FSTREAM(NAME, BASE, DEF, FORCE) \
  template<typename C, typename T> class NAME : public BASE<C, T> { basic_filebuf<C, T> _b; public: \
    NAME() { this->init(&_b); } \
    explicit NAME(const char *p, unsigned m = DEF) { this->init(&_b); open(p, m); } \
    explicit NAME(const string &p, unsigned m = DEF) { this->init(&_b); open(p.c_str(), m); } \
    void open(const char *p, unsigned m = DEF) { if (!_b.open(p, m | FORCE)) this->setstate(ios_base::failbit); else this->clear(); } \
    void open(const string &p, unsigned m = DEF) { open(p.c_str(), m); } \
    bool is_open() const { return _b.is_open(); } void close() { if (!_b.close()) this->setstate(ios_base::failbit); } \
    basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&_b); } };
  SX_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
  SX_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
  SX_FSTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)
  // explicit specialisations that <string> declares for the real streams
  template<> inline basic_istream<char> &operator>>(basic_istream<char> &i, basic_string<char> &s) { i._word(s); return i; }
  template<> inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d) {
    s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; }
    long n = 0; for (;;) { int c = i._sb->_bump(); if (c == -1) { i.setstate(n ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } ++n; if ((char)c == d) break; s.push_back((char)c); } return i; }
  template<typename C, typename T> class istreambuf_iterator {
    basic_streambuf<C, T> *_b;
  public:
    typedef input_iterator_tag iterator_category; typedef C value_type; typedef long difference_type; typedef C *pointer; typedef C reference;
    istreambuf_iterator() : _b(nullptr) {} istreambuf_iterator(basic_istream<C, T> &i) : _b(i.rdbuf()) {} istreambuf_iterator(basic_streambuf<C, T> *b) : _b(b) {}
    C operator*() const { return (C)_b->_peek(); } istreambuf_iterator &operator++() { _b->_bump(); return *this; } istreambuf_iterator operator++(int) { auto t = *this; _b->_bump(); return t; }
    bool _e() const { return !_b || _b->_peek() == -1; } bool operator==(const istreambuf_iterator &o) const { return _e() == o._e(); } bool operator!=(const istreambuf_iterator &o) const { return !(*this == o); }
  };
  template<typename V, typename C = char, typename T = char_traits<C>, typename D = ptrdiff_t> class istream_iterator {
    basic_istream<C, T> *_i; V _v;
  public:
    typedef input_iterator_tag iterator_category; typedef V value_type; typedef long difference_type; typedef const V *pointer; typedef const V &reference;
    istream_iterator() : _i(nullptr), _v() {} istream_iterator(basic_istream<C, T> &i) : _i(&i), _v() { _n(); }
    void _n() { if (_i && !(*_i >> _v)) _i = nullptr; }
    const V &operator*() const { return _v; } istream_iterator &operator++() { _n(); return *this; } istream_iterator operator++(int) { auto t = *this; _n(); return t; }
    bool operator==(const istream_iterator &o) const { return _i == o._i; } bool operator!=(const istream_iterator &o) const { return _i != o._i; }
  };
  template<typename V, typename C = char, typename T = char_traits<C>> class ostream_iterator {
    basic_ostream<C, T> *_o; const C *_d;
  public:
    typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    ostream_iterator(basic_ostream<C, T> &o, const C *d = nullptr) : _o(&o), _d(d) {}
    ostream_iterator &operator=(const V &v) { *_o << v; if (_d) *_o << _d; return *this; } ostream_iterator &operator*() { return *this; } ostream_iterator &operator++() { return *this; } ostream_iterator &operator++(int) { return *this; }
  };
  struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; }
  struct _Setp { int n; }; inline _Setp setprecision(int n) { return {n}; }
  struct _Setf { char c; }; inline _Setf setfill(char c) { return {c}; }
  template<typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw w) { o._w = w.n; return o; }
  template<typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setp w) { o._p = w.n; return o; }
  template<typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setf w) { o._fill = w.c; return o; }
  class _nullbuf : public basic_streambuf<char> { public: long xsputn(const char *, long n) override { return n; } };
  extern ostream cout, cerr, clog; extern istream cin;
  template<typename C, typename T, typename V> inline basic_ostream<C, T> &&operator<<(basic_ostream<C, T> &&o, const V &v) { o << v; return static_cast<basic_ostream<C, T> &&>(o); }
  template<typename C, typename T, typename V> inline basic_istream<C, T> &&operator>>(basic_istream<C, T> &&o, V &&v) { o >> v; return static_cast<basic_istream<C, T> &&>(o); }
}
