// An archive that keeps the values it is given, in order (the archives of Boost are compiled code): what the
// serialisation code of the repository stores and restores passes through it unchanged.
#pragma once
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/version.hpp>
struct MemStore { unsigned char b[1200]; size_t n = 0, r = 0; bool named = true; };
struct MemEnd : std::runtime_error { MemEnd() : std::runtime_error("end") {} };
struct MemOut { typedef boost::mpl::true_ is_saving; typedef boost::mpl::false_ is_loading; MemStore& s; explicit MemOut(MemStore& s) : s(s) {}
  template <class T> void raw(const T& t) { memcpy(s.b + s.n, &t, sizeof t); s.n += sizeof t; }
  template <class T> void put(const T& t, std::true_type) { raw(t); } template <class T> void put(const T& t, std::false_type) { boost::serialization::serialize_adl(*this, const_cast<T&>(t), boost::serialization::version<T>::value); }
  template <class T> MemOut& operator<<(const T& t) { put(t, std::is_arithmetic<T>()); return *this; }
  template <class T> MemOut& operator<<(const boost::serialization::nvp<T>& t) { return *this << t.const_value(); }
  template <class T> MemOut& operator<<(const boost::serialization::array_wrapper<T>& a) { for (size_t i = 0; i < a.count(); i++) *this << a.address()[i]; return *this; }
  template <class T> MemOut& operator&(const T& t) { return *this << t; } unsigned get_library_version() { return 19; } };
struct MemIn { typedef boost::mpl::false_ is_saving; typedef boost::mpl::true_ is_loading; MemStore& s; long version; explicit MemIn(MemStore& s, long version = -1) : s(s), version(version) {}
  template <class T> void raw(T& t) { if (s.r + sizeof t > s.n) throw MemEnd(); memcpy(&t, s.b + s.r, sizeof t); s.r += sizeof t; }
  template <class T> void get(T& t, std::true_type) { raw(t); } template <class T> void get(T& t, std::false_type) { boost::serialization::serialize_adl(*this, t, version >= 0 ? (unsigned)version : (unsigned)boost::serialization::version<T>::value); }
  template <class T> void ld(T& t) { get(t, std::is_arithmetic<T>()); }
  template <class T> void ld(const boost::serialization::nvp<T>& t) { ld(t.value()); }
  template <class T> void ld(const boost::serialization::array_wrapper<T>& a) { for (size_t i = 0; i < a.count(); i++) ld(a.address()[i]); }
  template <class T> MemIn& operator>>(T&& t) { const_ld(t); return *this; } template <class T> void const_ld(T& t) { ld(t); } template <class T> void const_ld(boost::serialization::nvp<T>& t) { ld(static_cast<const boost::serialization::nvp<T>&>(t)); } template <class T> void const_ld(boost::serialization::array_wrapper<T>& t) { ld(static_cast<const boost::serialization::array_wrapper<T>&>(t)); }
  template <class T> MemIn& operator&(T&& t) { const_ld(t); return *this; } unsigned get_library_version() { return 19; } };
