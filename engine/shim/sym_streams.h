// Minimal replacement for the libstdc++ stream classes, used only in the bitcode build: formatted output
// is appended to a std::string (string streams) or discarded (cout, cerr).  Locale, width, fill and
// precision are not modelled; floating-point values are formatted as "%g".
#ifndef SYM_STREAMS_H
#define SYM_STREAMS_H
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <string_view>
#include <exception>
#include <stdexcept>
#include <bits/char_traits.h>
#include <bits/localefwd.h>
#include <bits/ios_base.h>
#include <streambuf>
extern "C" int sym_fmt_double(double v, char* buf);

namespace std {
template<typename C, typename T> class basic_ios {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  typedef std::ios_base::fmtflags fmtflags; typedef std::ios_base::iostate iostate; typedef std::ios_base::seekdir seekdir; typedef std::ios_base::openmode openmode;
  static constexpr iostate failbit = std::_S_failbit, badbit = std::_S_badbit, eofbit = std::_S_eofbit, goodbit = std::_S_goodbit;
  static constexpr fmtflags skipws = std::_S_skipws, dec = std::_S_dec, showpos = std::_S_showpos, internal = std::_S_internal, basefield = std::_S_basefield, hex = std::_S_hex,
    fixed = std::_S_fixed, scientific = std::_S_scientific, floatfield = std::_S_floatfield, boolalpha = std::_S_boolalpha, left = std::_S_left, right = std::_S_right, adjustfield = std::_S_adjustfield;
  static constexpr openmode in = std::_S_in, out = std::_S_out, app = std::_S_app;
  explicit operator bool() const { return st_ == std::_S_goodbit; }
  bool operator!() const { return st_ != std::_S_goodbit; }
  bool good() const { return st_ == std::_S_goodbit; }
  bool fail() const { return st_ != std::_S_goodbit; }
  bool eof() const { return false; }
  bool bad() const { return false; }
  void clear(iostate s = std::_S_goodbit) { st_ = s; }
  void setstate(iostate s) { st_ = st_ | s; }
  iostate rdstate() const { return st_; }
  streamsize width() const { return w_; }
  streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
  streamsize precision() const { return p_; }
  streamsize precision(streamsize w) { streamsize o = p_; p_ = w; return o; }
  C fill() const { return f_; }
  C fill(C c) { C o = f_; f_ = c; return o; }
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ = fl_ | f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { fl_ = fl_ & ~f; }
  basic_ios& copyfmt(basic_ios const&) { return *this; }
  int getloc() const { return 0; }
  int imbue(int) { return 0; }
  template<typename L> int imbue(L const&) { return 0; }
  C widen(char c) const { return C(c); }
  char narrow(C c, char) const { return char(c); }
  void exceptions(iostate) {}
  virtual ~basic_ios() {}
private:
  iostate st_ = std::_S_goodbit; streamsize w_ = 0, p_ = 6; C f_ = ' '; fmtflags fl_ = std::_S_dec | std::_S_skipws;
};

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type;
  virtual void sym_put(const C*, size_t) {}
  basic_ostream() {}
  basic_ostream& put(C c) { sym_put(&c, 1); return *this; }
  basic_ostream& write(const C* s, streamsize n) { sym_put(s, n); return *this; }
  basic_ostream& flush() { return *this; }
  template<typename I> basic_ostream& sym_int(I v, bool neg) {
    C buf[24]; int n = 24;
    unsigned long long u = neg ? 0ULL - (unsigned long long)v : (unsigned long long)v;
    do { buf[--n] = C('0' + u % 10); u /= 10; } while (u);
    if (neg) buf[--n] = C('-');
    sym_put(buf + n, 24 - n);
    return *this;
  }
  basic_ostream& operator<<(short v) { return sym_int((long long)v, v < 0); }
  basic_ostream& operator<<(unsigned short v) { return sym_int(v, false); }
  basic_ostream& operator<<(int v) { return sym_int((long long)v, v < 0); }
  basic_ostream& operator<<(unsigned v) { return sym_int(v, false); }
  basic_ostream& operator<<(long v) { return sym_int((long long)v, v < 0); }
  basic_ostream& operator<<(unsigned long v) { return sym_int(v, false); }
  basic_ostream& operator<<(long long v) { return sym_int(v, v < 0); }
  basic_ostream& operator<<(unsigned long long v) { return sym_int(v, false); }
  basic_ostream& operator<<(bool v) { return put(v ? '1' : '0'); }
  basic_ostream& operator<<(double v) { char b[64]; int n = sym_fmt_double(v, b); for (int i = 0; i < n; ++i) put(b[i]); return *this; }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(const void*) { put('0'); put('x'); return *this; }
  basic_ostream& operator<<(std::nullptr_t) { put('0'); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
};
template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) { o.sym_put(s, T::length(s)); return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.sym_put(&c, 1); return o; }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o << char(c); }
template<typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o << char(c); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { o.sym_put(s.data(), s.size()); return o; }
#if __cplusplus >= 201703L
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, string_view s) { o.sym_put(s.data(), s.size()); return o; }
#endif
template<typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o; }
template<typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template<typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o; }
// rvalue streams
template<typename O, typename V> inline typename enable_if<!is_lvalue_reference<O>::value && is_base_of<basic_ios<char>, O>::value, O&&>::type
operator<<(O&& o, V const& v) { o << v; return static_cast<O&&>(o); }

template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  basic_istream() {}
  template<typename V> basic_istream& operator>>(V&) { this->setstate(std::_S_failbit); return *this; }
  int_type get() { return T::eof(); }
  basic_istream& get(C&) { this->setstate(std::_S_failbit); return *this; }
  int_type peek() { return T::eof(); }
  basic_istream& unget() { return *this; }
  basic_istream& putback(C) { return *this; }
  basic_istream& ignore(streamsize = 1, int_type = 0) { return *this; }
};
template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};

inline namespace __cxx11 {
template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_string<C, T, A> s_;
public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(basic_string<C, T, A> const& s, ios_base::openmode = std::_S_out) : s_(s) {}
  void sym_put(const C* p, size_t n) override { s_.append(p, n); }
  basic_string<C, T, A> str() const { return s_; }
  void str(basic_string<C, T, A> const& s) { s_ = s; }
};
template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
public:
  basic_istringstream() {}
  explicit basic_istringstream(basic_string<C, T, A> const&, ios_base::openmode = std::_S_in) {}
};
template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
  basic_string<C, T, A> s_;
public:
  basic_stringstream() {}
  explicit basic_stringstream(ios_base::openmode) {}
  explicit basic_stringstream(basic_string<C, T, A> const& s, ios_base::openmode = std::_S_out) : s_(s) {}
  void sym_put(const C* p, size_t n) override { s_.append(p, n); }
  basic_string<C, T, A> str() const { return s_; }
  void str(basic_string<C, T, A> const& s) { s_ = s; }
};
}

extern ostream cout, cerr, clog;
extern istream cin;

// manipulators
struct sym_manip { int v; };
inline sym_manip setw(int v) { return {v}; }
inline sym_manip setprecision(int v) { return {v}; }
inline sym_manip setbase(int v) { return {v}; }
template<typename C> inline sym_manip setfill(C) { return {0}; }
template<typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, sym_manip) { return o; }
template<typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& o) { return o; }
}
#endif
