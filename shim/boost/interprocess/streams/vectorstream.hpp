// Executor only: the same stream on top of the modelled string stream (the real one natively).
#pragma once
#ifndef SX_SYMBOLIC
#include_next <boost/interprocess/streams/vectorstream.hpp>
#else
#include <sstream>
#include <vector>
namespace boost { namespace interprocess {
template <class V, class T = std::char_traits<typename V::value_type> > class basic_vectorstream {
  std::ostringstream s_;
public:
  basic_vectorstream() {}
  template <class X> std::ostream& operator<<(const X& x) { return static_cast<std::ostream&>(s_) << x; }
  std::ostream& operator<<(std::ostream& (*f)(std::ostream&)) { return f(s_); }
  std::ostream& operator<<(std::ios_base& (*f)(std::ios_base&)) { f(s_); return s_; }
  operator std::ostream&() { return s_; }
  void swap_vector(V& v) { std::string s = s_.str(); V n(s.begin(), s.end()); std::string o(v.begin(), v.end()); s_.str(o); v.swap(n); }
  V vector() const { std::string s = s_.str(); return V(s.begin(), s.end()); }
  void reserve(size_t) {}
};
template <class V, class T = std::char_traits<typename V::value_type> > using basic_ovectorstream = basic_vectorstream<V, T>;
} }
#endif
