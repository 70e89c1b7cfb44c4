// Stand-in for libstdc++'s stream classes (only used when compiling for the symbolic engine).
#pragma once
#include <bits/c++config.h>

#include <bits/stringfwd.h>
#include <bits/postypes.h>
namespace std {
  class ios_base;
  template<typename C, typename T = char_traits<C>> class basic_ios;
  template<typename C, typename T = char_traits<C>> class basic_streambuf;
  template<typename C, typename T = char_traits<C>> class basic_istream;
  template<typename C, typename T = char_traits<C>> class basic_ostream;
  template<typename C, typename T = char_traits<C>> class basic_iostream;
  inline namespace __cxx11 {
  template<typename C, typename T = char_traits<C>, typename A = allocator<C>> class basic_stringbuf;
  template<typename C, typename T = char_traits<C>, typename A = allocator<C>> class basic_istringstream;
  template<typename C, typename T = char_traits<C>, typename A = allocator<C>> class basic_ostringstream;
  template<typename C, typename T = char_traits<C>, typename A = allocator<C>> class basic_stringstream;
  }
  template<typename C, typename T = char_traits<C>> class basic_filebuf;
  template<typename C, typename T = char_traits<C>> class basic_ifstream;
  template<typename C, typename T = char_traits<C>> class basic_ofstream;
  template<typename C, typename T = char_traits<C>> class basic_fstream;
  template<typename C, typename T = char_traits<C>> class istreambuf_iterator;
  template<typename C, typename T = char_traits<C>> class ostreambuf_iterator;
  class locale;
  typedef basic_ios<char> ios;
  typedef basic_streambuf<char> streambuf;
  typedef basic_istream<char> istream;
  typedef basic_ostream<char> ostream;
  typedef basic_iostream<char> iostream;
  typedef basic_stringbuf<char> stringbuf;
  typedef basic_istringstream<char> istringstream;
  typedef basic_ostringstream<char> ostringstream;
  typedef basic_stringstream<char> stringstream;
  typedef basic_filebuf<char> filebuf;
  typedef basic_ifstream<char> ifstream;
  typedef basic_istream<wchar_t> wistream; typedef basic_ostream<wchar_t> wostream;
  typedef basic_ofstream<char> ofstream;
  typedef basic_fstream<char> fstream;
  class locale;
  struct ctype_base { typedef unsigned short mask; static const mask space = 1; };
  template<typename C> class ctype : public ctype_base { public: typedef ctype_base ctype_base_t; bool is(mask, C c) const { return c == ' ' || (c >= 9 && c <= 13); } };
  template<typename F> const F &use_facet(const locale &);
}
