// Stand-ins for the archives compiled into Boost: one mark for the format, then the values in order; errors are reported as the real ones do.
#pragma once
#include <cstring>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/less.hpp>
#include <boost/mpl/assert.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/integral_c_tag.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/version.hpp>
namespace boost { namespace archive {
struct archive_exception : std::runtime_error { explicit archive_exception(const char* w) : std::runtime_error(w) {} };
struct sx_out { typedef boost::mpl::true_ is_saving; typedef boost::mpl::false_ is_loading; std::ostream& os; char kind;
  sx_out(std::ostream& os, char kind) : os(os), kind(kind) { bytes(&kind, 1); }
  ~sx_out() { if (kind != 'B') os.flush(); }
  void bytes(const char* p, size_t n) { os.write(p, (std::streamsize)n); if (os.fail()) throw archive_exception("output stream error"); }
  template <class T> void put(const T& t, std::true_type) { bytes(reinterpret_cast<const char*>(&t), sizeof t); }
  template <class T> void put(const T& t, std::false_type) { boost::serialization::serialize_adl(*this, const_cast<T&>(t), boost::serialization::version<T>::value); }
  template <class T> sx_out& operator<<(const T& t) { put(t, std::is_arithmetic<T>()); return *this; }
  template <class T> sx_out& operator<<(const boost::serialization::array_wrapper<T>& a) { for (size_t i = 0; i < a.count(); i++) *this << a.address()[i]; return *this; }
  template <class T> sx_out& operator<<(const boost::serialization::nvp<T>& t) { if (kind == 'X') { bytes("<", 1); bytes(t.name(), strlen(t.name())); bytes(">", 1); } *this << t.const_value(); if (kind == 'X') { bytes("/", 1); bytes(t.name(), strlen(t.name())); bytes(">", 1); } return *this; }
  template <class T> sx_out& operator&(const T& t) { return *this << t; } unsigned get_library_version() { return 19; } };
struct sx_in { typedef boost::mpl::false_ is_saving; typedef boost::mpl::true_ is_loading; std::istream& is; char kind;
  sx_in(std::istream& is, char kind) : is(is), kind(kind) { char c = 0; bytes(&c, 1); if (c != kind) throw archive_exception("invalid signature"); }
  void bytes(char* p, size_t n) { is.read(p, (std::streamsize)n); if ((size_t)is.gcount() != n) throw archive_exception("input stream error"); }
  void tag(char first, const char* name) { char c = 0; bytes(&c, 1); if (c != first) throw archive_exception("unrecognized XML syntax"); std::string s; for (;;) { bytes(&c, 1); if (c == '>') break; s.push_back(c); } if (first == '/' && s != name) throw archive_exception("XML start/end tag mismatch"); }
  template <class T> void get(T& t, std::true_type) { bytes(reinterpret_cast<char*>(&t), sizeof t); }
  template <class T> void get(T& t, std::false_type) { boost::serialization::serialize_adl(*this, t, boost::serialization::version<T>::value); }
  template <class T> void ld(T& t) { get(t, std::is_arithmetic<T>()); }
  template <class T> void ld(boost::serialization::array_wrapper<T>& a) { for (size_t i = 0; i < a.count(); i++) ld(a.address()[i]); }
  template <class T> void ld(const boost::serialization::array_wrapper<T>& a) { for (size_t i = 0; i < a.count(); i++) ld(a.address()[i]); }
  template <class T> void ld(const boost::serialization::nvp<T>& t) { if (kind == 'X') tag('<', t.name()); ld(t.value()); if (kind == 'X') tag('/', t.name()); }
  template <class T> void ld(boost::serialization::nvp<T>& t) { ld(static_cast<const boost::serialization::nvp<T>&>(t)); }
  template <class T> sx_in& operator>>(T&& t) { ld(t); return *this; }
  template <class T> sx_in& operator&(T&& t) { ld(t); return *this; } unsigned get_library_version() { return 19; } };
#define SXA_(n, K) struct n##_oarchive : sx_out { explicit n##_oarchive(std::ostream& o, unsigned = 0) : sx_out(o, K) {} }; struct n##_iarchive : sx_in { explicit n##_iarchive(std::istream& i, unsigned = 0) : sx_in(i, K) {} };
SXA_(text, 'T') SXA_(binary, 'B') SXA_(xml, 'X')
}}
