// In the executor: the parts of boost::filesystem a program that names files needs. Otherwise the library itself.
#ifndef SX_SYMBOLIC
#include_next <boost/filesystem/path.hpp>
#else
#pragma once
#include <string>
#include <ostream>
extern "C" int sx_file_kind(const char*); // 0 none, 1 file, 2 directory
namespace boost { namespace system { class error_code; } namespace filesystem {
class path {
  std::string s;
  size_t last() const { size_t i = s.size(); while (i && s[i - 1] != '/') i--; return i; } // start of the last component
public:
  typedef std::string string_type; typedef char value_type; static const char preferred_separator = '/';
  path() {} path(const std::string& x) : s(x) {} path(const char* x) : s(x) {}
  path& operator=(const std::string& x) { s = x; return *this; } path& operator=(const char* x) { s = x; return *this; }
  const std::string& string() const { return s; } const std::string& native() const { return s; } std::string generic_string() const { return s; } const char* c_str() const { return s.c_str(); } operator std::string() const { return s; }
  bool empty() const { return s.empty(); } size_t size() const { return s.size(); } void clear() { s.clear(); }
  bool is_absolute() const { return !s.empty() && s[0] == '/'; } bool is_relative() const { return !is_absolute(); } bool has_root_directory() const { return is_absolute(); }
  path& operator/=(const path& o) { if (o.s.empty()) return *this; if (!s.empty() && s.back() != '/' && o.s[0] != '/') s += '/'; s += o.s; return *this; }
  path& operator+=(const path& o) { s += o.s; return *this; } path& operator+=(const std::string& o) { s += o; return *this; } path& operator+=(const char* o) { s += o; return *this; }
  path& append(const std::string& o) { return *this /= path(o); } path& concat(const std::string& o) { s += o; return *this; }
  path parent_path() const { size_t i = last(); while (i > 1 && s[i - 1] == '/') i--; return path(s.substr(0, i)); }
  path& remove_filename() { s = parent_path().s; return *this; }
  path filename() const { size_t i = last(); if (i == s.size()) return s.empty() ? path() : path(s.size() == 1 ? "/" : "."); return path(s.substr(i)); }
  path extension() const { std::string f = filename().s; if (f == "." || f == "..") return path(); size_t i = f.size(); while (i && f[i - 1] != '.') i--; return i ? path(f.substr(i - 1)) : path(); }
  path stem() const { std::string f = filename().s; if (f == "." || f == "..") return path(f); return path(f.substr(0, f.size() - extension().s.size())); }
  path& replace_extension(const path& e = path()) { s.resize(s.size() - extension().s.size()); if (!e.s.empty()) { if (e.s[0] != '.') s += '.'; s += e.s; } return *this; }
  bool has_extension() const { return !extension().empty(); } bool has_filename() const { return !s.empty(); } bool has_parent_path() const { return !parent_path().empty(); } bool has_stem() const { return !stem().empty(); }
  int compare(const path& o) const { return s.compare(o.s); }
};
inline bool operator==(const path& a, const path& b) { return a.string() == b.string(); } inline bool operator!=(const path& a, const path& b) { return !(a == b); } inline bool operator<(const path& a, const path& b) { return a.string() < b.string(); }
inline path operator/(const path& a, const path& b) { path r(a); r /= b; return r; } inline path operator+(const path& a, const path& b) { path r(a); r += b; return r; }
inline std::ostream& operator<<(std::ostream& o, const path& p) { return o << '"' << p.string() << '"'; }
inline bool exists(const path& p) { return sx_file_kind(p.c_str()) != 0; } inline bool is_regular_file(const path& p) { return sx_file_kind(p.c_str()) == 1; } inline bool is_directory(const path& p) { return sx_file_kind(p.c_str()) == 2; }
} }
#endif
