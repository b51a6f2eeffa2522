#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
// ---------------------------------------------------------------- streams (C locale, no facets)
namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale &) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) {
  ios_base::_M_init();
  _M_cache_locale(_M_ios_locale);
  _M_fill = ' ';
  _M_fill_init = true;
  _M_tie = nullptr;
  _M_exception = goodbit;
  _M_streambuf = sb;
  _M_streambuf_state = sb ? goodbit : badbit;
}
static void putNum(basic_ostream<char> &o, unsigned long v, bool neg) {
  char b[24]; int i = 24;
  do { b[--i] = '0' + v % 10; v /= 10; } while (v);
  if (neg) b[--i] = '-';
  o.write(b + i, 24 - i);
}
template <> template <> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long v) { putNum(*this, v, false); return *this; }
template <> template <> basic_ostream<char> &basic_ostream<char>::_M_insert(long v) { putNum(*this, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return *this; }
template <> template <> basic_ostream<char> &basic_ostream<char>::_M_insert(bool v) { putNum(*this, v, false); return *this; }
template <> basic_ostream<char> &basic_ostream<char>::operator<<(int v) { putNum(*this, v < 0 ? 0ul - (unsigned long)(long)v : (unsigned long)v, v < 0); return *this; }
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template basic_ostream<char> &__ostream_insert(basic_ostream<char> &, const char *, streamsize);
template basic_ostream<char> &basic_ostream<char>::write(const char *, streamsize);
template basic_ostream<char> &basic_ostream<char>::put(char);
template basic_ostream<char> &basic_ostream<char>::flush();
template basic_ostream<char> &operator<<(basic_ostream<char> &, const char *);
template basic_ostream<char> &operator<<(basic_ostream<char> &, char);
} // namespace std

