#include "sx.h"
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
// the environment comes from the harness
static bool g_b = false; static std::string g_val;
extern "C" char* getenv(const char* n) noexcept { if (!n) return nullptr; if (n[0] == 'A' && n[1] == 0) return (char*)g_val.c_str(); if (n[0] == 'B' && n[1] == 'c' && n[2] == 0 && g_b) return (char*)""; return nullptr; }
#include <sm/string_routines.hpp>
static std::string text(int n, const char* nm = "c", bool nul = true) { std::string s(n, 'x'); for (int i = 0; i < n; i++) { std::string k = std::string(nm) + (char)('0' + i / 10) + (char)('0' + i % 10); s[i] = (char)sx_u8(k.c_str()); if (!nul) sx_assume(s[i] != 0); } return s; }
static void rep(bool back) { // every occurrence but the first (last) 'skip' ones
  int n = sx_param(0); std::string s = text(n); char t = (char)sx_u8("t"), r = (char)sx_u8("r"); unsigned skip = sx_param(1) < 4 ? sx_param(1) : 4294967295u; std::string o = back ? sm::replace_reverse(s, t, r, skip) : sm::replace(s, t, r, skip);
  sx_assert(o.size() == s.size(), "length is kept"); unsigned seen = 0; for (int k = 0; k < n; k++) { int i = back ? n - 1 - k : k; bool hit = s[i] == t; char w = (hit & (seen >= skip)) ? r : s[i]; sx_assert(o[i] == w, "exactly the remaining occurrences are replaced"); seen += hit; } sx_reach("end");
}
SX_ENTRY h_replace() { rep(false); }
SX_ENTRY h_replace_reverse() { rep(true); }
SX_ENTRY h_replace_default() { std::string s = text(sx_param(0)); char t = (char)sx_u8("t"), r = (char)sx_u8("r"); std::string a = sm::replace(s, t, r), b = sm::replace_reverse(s, t, r); for (size_t i = 0; i < s.size(); i++) { char w = s[i] == t ? r : s[i]; sx_assert((a[i] == w) & (b[i] == w), "every occurrence"); } sx_assert(a.size() == s.size() && b.size() == s.size(), "length is kept"); sx_reach("end"); }
SX_ENTRY h_pad() { int n = sx_param(0); std::string s = text(n); unsigned len = sx_choose(12, "len"); char p = (char)sx_u8("p"); std::string o = sm::leading_pad(s, len, p); size_t L = len > (unsigned)n ? len : n; sx_assert(o.size() == L, "at least the desired length, never truncated"); for (size_t i = 0; i < L; i++) sx_assert(o[i] == (i < L - n ? p : s[i - (L - n)]), "padding in front, text at the end"); sx_reach("end"); }
SX_ENTRY h_slash() { int n = sx_param(0); std::string s = text(n); std::string o = sm::ensureTrailingBackslash(s); bool has = n && s[n - 1] == '/'; sx_assert(o.size() == (size_t)n + (has ? 0 : 1), "one slash is added when missing"); sx_assert(o[o.size() - 1] == '/', "ends with a slash"); for (int i = 0; i < n; i++) sx_assert(o[i] == s[i], "text is kept"); sx_assert(sm::ensureTrailingBackslash(o) == o, "idempotent"); sx_reach("end"); }
static std::string refSub(const std::string& s) { std::string o; size_t i = 0, n = s.size(); while (i < n) { if (s[i] == '$' && i + 1 < n && s[i + 1] == '(') { size_t j = i + 2; while (j < n && s[j] != ')') j++; if (j < n) { size_t k = j - (i + 2); if (k == 1 && s[i + 2] == 'A') o += g_val; else if (k == 2 && s[i + 2] == 'B' && s[i + 3] == 'c' && g_b) { } else o.append(s, i, j + 1 - i); i = j + 1; continue; } o.append(s, i, n - i); break; } o += s[i]; i++; } return o; }
static void sub(const std::string& s) { std::string o = sm::substituteEnvVars(s), w = refSub(s); sx_assert(o.size() == w.size(), "length of the substituted text"); if (o.size() == w.size()) { bool e = true; for (size_t i = 0; i < w.size(); i++) e = e & (o[i] == w[i]); sx_assert(e, "exactly the delimited names of existing variables are replaced, once"); } sx_reach("end"); }
SX_ENTRY h_env() { g_b = sx_bool("b"); g_val = "v$(A)"; sub(text(sx_param(0), "c", false)); }
SX_ENTRY h_env_value() { g_b = true; int n = sx_param(0); g_val = text(n, "v", false); static const char* T[5] = {"$(A)", "x$(A)y$(A)", "$(B)$(Bc)$(A)", "$$(A))", "$(A$(A)"}; sub(T[sx_param(1)]); }
SX_ENTRY h_env_mix() { // two names in one text, with arbitrary characters around and between
  g_b = sx_bool("b"); g_val = "12345"; std::string c = text(4, "c", false); std::string s = std::string(1, c[0]) + "$(" + std::string(1, c[1]) + ")" + std::string(1, c[2]) + "$(Bc)" + std::string(1, c[3]) + "$(A)"; sub(s); }
SX_ENTRY h_list() { // sequences: prefix, elements separated by the delimiter, postfix
  int n = sx_param(0); std::vector<std::string> v; std::string w = "<"; for (int i = 0; i < n; i++) { v.push_back(text(1 + i % 2, i == 0 ? "a" : i == 1 ? "b" : "d")); if (i) w += "; "; w += v[i]; } w += ">"; std::ostringstream o; sm::toStream(o, v.begin(), v.end(), std::string("; "), std::string("<"), std::string(">")); sx_assert(o.str() == w, "sequence text"); 
  std::string u = "["; for (int i = 0; i < n; i++) { if (i) u += ","; u += v[i]; } u += "]"; sx_assert(sm::arrToString(v.begin(), v.end()) == u, "array text"); sx_assert(sm::arrToString(v.data(), (unsigned)n) == u, "array text from a pointer"); sx_reach("end"); }
SX_ENTRY h_tuple() { std::string a = text(1, "a"), b = text(2, "b"), c = text(0, "c"), d = text(1, "d"), e = "e", f = text(1, "f"), g = text(1, "g"); std::string w = "[" + a + "," + b; sx_assert(sm::s_tuple(a) == a && sm::ts(b) == b, "one element"); sx_assert(sm::s_tuple(a, b) == w + "]", "two"); w += "," + c; sx_assert(sm::s_tuple(a, b, c) == w + "]", "three"); w += "," + d; sx_assert(sm::s_tuple(a, b, c, d) == w + "]", "four"); w += "," + e; sx_assert(sm::s_tuple(a, b, c, d, e) == w + "]", "five"); w += "," + f; sx_assert(sm::s_tuple(a, b, c, d, e, f) == w + "]", "six"); w += "," + g; sx_assert(sm::s_tuple(a, b, c, d, e, f, g) == w + "]", "seven"); sx_reach("end"); }
SX_ENTRY h_padded() { // numbers right-aligned in a field
  static const int V[5] = {0, 7, -3, 2147483647, -2147483647 - 1}; static const char* T[5] = {"0", "7", "-3", "2147483647", "-2147483648"}; int k = sx_choose(5, "k"); unsigned d = sx_choose(14, "d"); char f = (char)sx_u8("f"); std::string t = T[k], w = t.size() < d ? std::string(d - t.size(), f) + t : t; sx_assert(sm::padded(V[k], d, f) == w, "right-aligned in the requested width"); if (d < 3) { std::string z = t.size() < d ? std::string(d - t.size(), '0') + t : t; sx_assert(sm::padded(V[k], d) == z, "zero filled by default"); } std::string x = text(2); sx_assert(sm::padded(x, d, f) == (d > 2 ? std::string(d - 2, f) + x : x), "text"); sx_reach("end"); }
#include "numtok.h"
#include <cstdio>
static std::string fmt(const char* f, unsigned w, unsigned p, double v) { char b[400]; int n = snprintf(b, sizeof b, f, (int)w, (int)p, v); return std::string(b, (size_t)n); }
// floating-point numbers: like printf's f and e conversions with that width and precision; param: which helper
SX_ENTRY h_float() {
  SX_TOKENS_SAME; double v = sx_double("v"); unsigned w = sx_choose(12, "w"), p = sx_choose(5, "p");
  switch (sx_param(0)) {
    case 0: sx_assert(sm::padded(v, w, p) == fmt("%*.*f", w, p, v), "fixed notation, right-aligned"); break;
    case 1: sx_assert(sm::scientific(v, w, p) == fmt("%*.*e", std::max(w, p + 7), p, v), "scientific notation, right-aligned"); break;
    case 2: sx_assert(sm::fixedFloat(v, p) == fmt("%*.*f", 0, p, v), "fixed notation"); break;
    case 3: { double x[3] = {v, 0.5, v}; int n = sx_choose(4, "n"); std::string e = "<"; for (int i = 0; i < n; i++) { if (i) e += ";"; e += fmt("%*.*f", w, p, x[i]); } e += ">"; sx_assert(sm::paddedToString((int)w, (int)p, x, x + n, ";", "<", ">") == e, "every element has the width and precision"); break; }
    case 4: sx_assert(sm::s_tuple(v) == fmt("%*.*g", 0, 6, v), "the default format"); break;
  }
  sx_reach("end");
}
