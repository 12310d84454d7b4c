// Engine-only: the C++ stream library.  The stream templates are instantiated from the system's own
// headers; what has no source there (locale, facets, ios_base, number formatting) is modelled:
// C locale, decimal integers (hex with std::hex), floating point values as "%g"-free tokens.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <sstream>
#include <iostream>
#include <locale>
#include <cstdint>
extern "C" { void symx_abort(const char *) __attribute__((noreturn)); }
namespace {
struct CT : std::ctype<char> { static constexpr auto ok() { return &CT::_M_widen_ok; } static constexpr auto tab() { return &CT::_M_widen; } static constexpr auto nok() { return &CT::_M_narrow_ok; } static constexpr auto ntab() { return &CT::_M_narrow; } };
alignas(16) char ctypeMem[sizeof(std::ctype<char>)];
std::ctype<char> *ctypeObj() { auto *c = (CT *)ctypeMem; if (!(c->*CT::ok())) { c->*CT::ok() = 1; c->*CT::nok() = 1; for (int i = 0; i < 256; i++) { (c->*CT::tab())[i] = (char)i; (c->*CT::ntab())[i] = (char)i; } } return c; }
}
extern "C" {
// ios_base and locale
void m_iosC(void *p) asm("_ZNSt8ios_baseC2Ev"); void m_iosD(void *) asm("_ZNSt8ios_baseD2Ev"); void m_iosI(void *) asm("_ZNSt8ios_base7_M_initEv");
void m_locC(void **p) asm("_ZNSt6localeC1Ev"); void m_locC(void **p) { *p = nullptr; }
void m_locC2(void **p) asm("_ZNSt6localeC2Ev"); void m_locC2(void **p) { *p = nullptr; }
void m_locCC(void **p, void **o) asm("_ZNSt6localeC1ERKS_"); void m_locCC(void **p, void **) { *p = nullptr; }
void m_locD(void **) asm("_ZNSt6localeD1Ev"); void m_locD(void **) {}
void *m_locA(void **p, void **) asm("_ZNSt6localeaSERKS_"); void *m_locA(void **p, void **) { return p; }
}
struct IosAcc : std::ios_base { void init0() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_exception = goodbit; _M_streambuf_state = goodbit; _M_callbacks = nullptr; _M_word_size = 8; _M_word = _M_local_word; } };
void m_iosC(void *p) { ((IosAcc *)p)->init0(); }
void m_iosI(void *p) { ((IosAcc *)p)->init0(); }
void m_iosD(void *) {}
namespace std {
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = ctypeObj(); _M_num_put = nullptr; _M_num_get = nullptr; }
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) { ios_base::_M_init(); _M_cache_locale(_M_ios_locale); _M_fill = ' '; _M_fill_init = true; _M_tie = nullptr; _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit; }
static void digits(ostream &o, unsigned long v, bool neg) {
  char b[24]; int n = 0; auto f = o.flags(); unsigned base = (f & ios_base::basefield) == ios_base::hex ? 16 : (f & ios_base::basefield) == ios_base::oct ? 8 : 10;
  do { unsigned d = v % base; b[n++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); if (neg) b[n++] = '-';
  for (int i = 0; i < n / 2; i++) { char t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; }
  __ostream_insert(o, b, (streamsize)n); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { digits(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { digits(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(long v) { if (v < 0) digits(*this, -(unsigned long)v, true); else digits(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(long long v) { return _M_insert((long)v); }
template <> template <> ostream &ostream::_M_insert(bool v) { if (flags() & ios_base::boolalpha) __ostream_insert(*this, v ? "true" : "false", (streamsize)(v ? 4 : 5)); else digits(*this, v, false); return *this; }
template <> template <> ostream &ostream::_M_insert(const void *v) { __ostream_insert(*this, "0x", 2); char b[16]; unsigned long x = (unsigned long)v; int n = 0; do { unsigned d = x & 15; b[n++] = d < 10 ? '0' + d : 'a' + d - 10; x >>= 4; } while (x); while (n) { n--; __ostream_insert(*this, b + n, (streamsize)1); } return *this; }
template <> template <> ostream &ostream::_M_insert(double v) { __ostream_insert(*this, "<double>", 8); return *this; }
template <> template <> ostream &ostream::_M_insert(long double v) { __ostream_insert(*this, "<double>", 8); return *this; }
template <> ostream &ostream::operator<<(int v) { if (v < 0) digits(*this, -(unsigned long)v, true); else digits(*this, v, false); return *this; }
template <> ostream &ostream::operator<<(short v) { return *this << (int)v; }
// input: decimal integers and words, C locale
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void skip(istream &i) { if (i.flags() & ios_base::skipws) while (sp(i.rdbuf()->sgetc())) i.rdbuf()->sbumpc(); }
static bool number(istream &i, bool &neg, unsigned long &v) { neg = false; v = 0; if (!i.good()) { i.setstate(ios_base::failbit); return false; } skip(i); auto *b = i.rdbuf(); int c = b->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); } bool any = false;
  while (c >= '0' && c <= '9') { any = true; v = v * 10 + (unsigned long)(c - '0'); c = b->snextc(); } if (c == -1) i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); else if (!any) i.setstate(ios_base::failbit); return any; }
template <typename T> static istream &num(istream &i, T &o) { bool n; unsigned long v; if (number(i, n, v)) o = (T)(n ? 0 - v : v); else o = 0; return i; }
template <> istream &istream::operator>>(int &o) { return num(*this, o); }
template <> istream &istream::operator>>(short &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(unsigned long &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(long &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(unsigned int &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(unsigned short &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(unsigned long long &o) { return num(*this, o); }
template <> template <> istream &istream::_M_extract(long long &o) { return num(*this, o); }
template <> istream &operator>>(istream &i, std::string &s) { s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; } skip(i); int c = i.rdbuf()->sgetc(); while (c != -1 && !sp(c)) { s.push_back((char)c); c = i.rdbuf()->snextc(); } if (c == -1) i.setstate(ios_base::eofbit); if (s.empty()) i.setstate(ios_base::failbit); return i; }
template <> istream &getline(istream &i, std::string &s, char d) { s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; } int c; bool any = false; while ((c = i.rdbuf()->sbumpc()) != -1) { any = true; if (c == d) break; s.push_back((char)c); } if (c == -1) i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); return i; }
template <> istream &getline(istream &i, std::string &s) { return getline(i, s, '\n'); }
template class basic_istringstream<char>; template class basic_iostream<char>; template class basic_istream<char>;
template class basic_streambuf<char>; template class basic_stringbuf<char>; template class basic_ios<char>;
template class basic_ostringstream<char>; template class basic_stringstream<char>; 
template class basic_ostream<char>;
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, char); template ostream &operator<<(ostream &, const char *); template ostream &endl(ostream &); template ostream &flush(ostream &);
template ostream &operator<<(ostream &, const std::string &);
}
extern "C" { void _ZSt21ios_base_library_initv() {} void m_iiC(void *) asm("_ZNSt8ios_base4InitC1Ev"); void m_iiC(void *) {} void m_iiD(void *) asm("_ZNSt8ios_base4InitD1Ev"); void m_iiD(void *) {}
void _ZNSt8ios_base17_M_call_callbacksENS_5eventE(void *, int) {} void _ZNSt8ios_base20_M_dispose_callbacksEv(void *) {} }
// cout, cerr, clog: streams that discard (until a harness gives them a buffer)
template <int> struct Sink { alignas(16) static char mem[sizeof(std::ostream)]; };
extern char coutM[] asm("_ZSt4cout"), cerrM[] asm("_ZSt4cerr"), clogM[] asm("_ZSt4clog");
alignas(16) char coutM[sizeof(std::ostream)]; alignas(16) char cerrM[sizeof(std::ostream)]; alignas(16) char clogM[sizeof(std::ostream)];
namespace { struct Init_ { Init_() { new (coutM) std::ostream(nullptr); new (cerrM) std::ostream(nullptr); new (clogM) std::ostream(nullptr); } }; __attribute__((init_priority(101))) Init_ init_; }
