#include "sx.h"
#include <string>
#include <vector>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeImplementation.hpp>
#include "numtok.h"
namespace {
typedef sm::PropertyTree PT; typedef sm::ConstPropertyTree CT;
struct Spell { const char *ns, *sub, *key, *canon; }; // a namespace, a namespace inside it, a key; the location meant
const Spell S[] = {
  {"", nullptr, "a", "a"}, {"", nullptr, "/a", "a"}, {"", nullptr, "a/", "a"}, {"a", nullptr, "", "a"}, {"", nullptr, "a/b", "a/b"}, {"a", nullptr, "b", "a/b"}, {"/a", nullptr, "b", "a/b"}, {"a/", nullptr, "b", "a/b"},
  {"/a/", nullptr, "b/", "a/b"}, {"a", nullptr, "/b", "b"}, {"", nullptr, "b", "b"}, {"a", nullptr, "/a/b", "a/b"}, {"", nullptr, "a.b", "a.b"}, {"", nullptr, "ab", "ab"}, {"a", nullptr, "b/c", "a/b/c"}, {"a/b", nullptr, "c", "a/b/c"},
  {"a", "b", "c", "a/b/c"}, {"a", "/b", "c", "b/c"}, {"a", "b", "", "a/b"}, {"a", "", "b", "a/b"}, {"x", "/a", "b", "a/b"}, {"", nullptr, "", ""}, {"", nullptr, "/", ""}, {"b", nullptr, "c", "b/c"}, {"", nullptr, "b/c.d", "b/c.d"}, {"b", nullptr, "c/d", "b/c/d"}, {"a/b", nullptr, "..", "a/b/.."} };
const int NS = sizeof(S) / sizeof(S[0]);
PT at(const PT& r, const Spell& s) { PT n = *s.ns ? PT(r, s.ns) : r; return s.sub ? PT(n, s.sub) : n; }
CT cat(const PT& r, const Spell& s) { CT n(r, s.ns); return s.sub ? n.getChild(s.sub) : n; }
template <class T> struct Acc;
template <> struct Acc<int> { static int make(const char* n) { return (int)sx_u32(n); } static int get(const CT& t, const std::string& k) { return t.getInt(k); } static int def(const CT& t, const std::string& k, int d) { return t.getInt(k, d); } static int mdef(PT& t, const std::string& k, int d) { return t.getInt(k, d); } static void set(PT& t, const std::string& k, int v) { t.setInt(k, v); } };
template <> struct Acc<double> { static double make(const char* n) { double d = sx_double(n); sx_assume((d <= 1.7976931348623157e308) & (d >= -1.7976931348623157e308)); return d; } static double get(const CT& t, const std::string& k) { return t.getDouble(k); } static double def(const CT& t, const std::string& k, double d) { return t.getDouble(k, d); } static double mdef(PT& t, const std::string& k, double d) { return t.getDouble(k, d); } static void set(PT& t, const std::string& k, double v) { t.setDouble(k, v); } };
template <> struct Acc<bool> { static bool make(const char* n) { return sx_bool(n); } static bool get(const CT& t, const std::string& k) { return t.getBool(k); } static bool def(const CT& t, const std::string& k, bool d) { return t.getBool(k, d); } static bool mdef(PT& t, const std::string& k, bool d) { return t.getBool(k, d); } static void set(PT& t, const std::string& k, bool v) { t.setBool(k, v); } };
template <> struct Acc<std::string> { static std::string make(const char* n) { std::string s; for (int i = 0; i < 3; i++) s.push_back((char)sx_u8(n)); return s; } static std::string get(const CT& t, const std::string& k) { return t.getString(k); } static std::string def(const CT& t, const std::string& k, const std::string& d) { return t.getString(k, d); } static std::string mdef(PT& t, const std::string& k, const std::string& d) { return t.getString(k, d); } static void set(PT& t, const std::string& k, const std::string& v) { t.setString(k, v); } };
template <class T> bool badKey(const CT& t, const std::string& k) { try { Acc<T>::get(t, k); } catch (const PT::InvalidKeyException&) { return true; } catch (...) { return false; } return false; }
template <class T> bool badValue(const CT& t, const std::string& k) { try { Acc<T>::get(t, k); } catch (const PT::InvalidValueException&) { return true; } catch (...) { return false; } return false; }
bool prefix(const std::string& p, const std::string& s) { return p.empty() || p == s || (s.size() > p.size() && s.compare(0, p.size(), p) == 0 && s[p.size()] == '/'); }
template <class T> void store() { // write under one spelling, read under every other one
  sm::BoostPropertyTree pt; const Spell& w = S[sx_param(1)]; T v = Acc<T>::make("v"), v2 = Acc<T>::make("w"), d = Acc<T>::make("d"); PT wt = at(pt, w); std::string canon(w.canon);
  if (sx_param(2)) { T r = Acc<T>::mdef(wt, w.key, v); sx_assert(r == v, "a missing key yields the default"); } else Acc<T>::set(wt, w.key, v);
  for (int i = 0; i < NS; i++) { CT t = cat(pt, S[i]); PT m = at(pt, S[i]); bool same = canon == S[i].canon;
    sx_assert(t.doesKeyExist(S[i].key) == prefix(S[i].canon, canon), "existing keys: the written one and the nodes above it");
    if (same) { sx_assert(Acc<T>::get(t, S[i].key) == v, "reads what was written"); sx_assert(Acc<T>::get(m, S[i].key) == v, "reads what was written"); sx_assert(Acc<T>::def(t, S[i].key, d) == v, "the default is not used"); sx_assert(Acc<T>::mdef(m, S[i].key, d) == v, "the default is not used and not recorded"); }
    else if (!prefix(S[i].canon, canon)) { sx_assert(badKey<T>(t, S[i].key), "a missing key throws"); sx_assert(Acc<T>::def(t, S[i].key, d) == d, "a missing key yields the default"); sx_assert(!t.doesKeyExist(S[i].key), "reading through a constant tree records nothing"); } }
  CT c = cat(pt, w); sx_assert(Acc<T>::get(c, w.key) == v, "unchanged"); Acc<T>::set(wt, w.key, v2); sx_assert(Acc<T>::get(c, w.key) == v2, "overwritten"); sx_reach("end");
}
template <class T> void record() { // default recorded under one spelling is what the others read; other keys are not touched
  sm::BoostPropertyTree pt; if (sx_param(0) == 3 && !*S[sx_param(1)].canon) { sx_reach("end"); return; } /* the root is always there, as empty text */ T a = Acc<T>::make("a"), d = Acc<T>::make("d"), e = Acc<T>::make("e"); const Spell& w = S[sx_param(1)]; pt.setString("other/key", "x"); PT t = at(pt, w); bool n = std::string(w.canon).empty();
  sx_assert(Acc<T>::mdef(t, w.key, d) == d, "default"); CT c(pt, "/"); sx_assert(Acc<T>::get(c, w.canon) == d, "recorded"); sx_assert(Acc<T>::mdef(t, w.key, e) == d, "stays"); Acc<T>::set(t, w.key, a); sx_assert(Acc<T>::mdef(t, w.key, e) == a, "set value wins"); sx_assert(c.getString("other/key") == "x", "other keys"); (void)n; sx_reach("end");
}
std::string symkey(int n, const char* nm) { std::string s; for (int i = 0; i < n; i++) { char c = (char)sx_u8(nm); sx_assume((c == '/') | (c == '.') | (c == 'a') | (c == 'b')); s.push_back(c); } for (int i = 0; i + 1 < n; i++) sx_assume(!((s[i] == '/') & (s[i + 1] == '/'))); return s; }
std::string canonical(const std::string& ns, const std::string& k) { std::string q = k.size() && k[0] == '/' ? k : "/" + ns + "/" + k; std::string r; for (char c : q) { if (c == '/' && (r.empty() || r.back() == '/')) continue; r.push_back(c); } if (r.size() && r.back() == '/') r.pop_back(); return r; }
}
SX_ENTRY h_store() { SX_TOKENS; switch (sx_param(0)) { case 0: return store<int>(); case 1: return store<double>(); case 2: return store<bool>(); default: return store<std::string>(); } }
SX_ENTRY h_record() { SX_TOKENS; switch (sx_param(0)) { case 0: return record<int>(); case 1: return record<double>(); case 2: return record<bool>(); default: return record<std::string>(); } }
SX_ENTRY h_key() { // arbitrary keys: the same location is the same value, another one is missing
  SX_TOKENS; const char* N[] = {"", "a", "a/b"}; int i = sx_param(2), j = sx_param(3); sm::BoostPropertyTree pt; std::string k1 = symkey(sx_param(0), "k"), k2 = symkey(sx_param(1), "l"); PT t1(pt, N[i]); CT t2(pt, N[j]); int v = (int)sx_u32("v");
  t1.setInt(k1, v); std::string a = canonical(N[i], k1), b = canonical(N[j], k2); sx_assert(t1.getInt(k1) == v, "reads what was written");
  if (a == b) sx_assert(t2.getInt(k2) == v, "same location"); else if (prefix(b, a)) { sx_assert(t2.doesKeyExist(k2), "node above"); sx_assert(t2.getString(k2).empty(), "has no value"); } else sx_assert(badKey<int>(t2, k2) && t2.getInt(k2, 7) == 7 && !t2.doesKeyExist(k2), "another location is missing"); sx_reach("end");
}
SX_ENTRY h_types() { // values that are not of the type asked for
  SX_TOKENS; sm::BoostPropertyTree pt; const char* X[] = {"x", "", "1x", "tru", " ", "--1", "truex", "1 1", "0x"}; std::string x = X[sx_param(0)]; pt.setString("a/k", x); PT t(pt, "a"); const CT& c = t; int d = (int)sx_u32("d");
  sx_assert(badValue<int>(c, "k"), "not an integer"); sx_assert(badValue<double>(c, "k"), "not a number"); sx_assert(badValue<bool>(c, "k"), "not a truth value"); sx_assert(c.getString("k") == x, "text"); sx_assert(c.getInt("k", d) == d, "default for a value of the wrong type"); sx_assert(c.getString("k") == x, "constant tree is not changed"); sx_assert(c.doesKeyExist("k"), "exists");
  pt.setString("b", "12"); sx_assert(pt.getInt("b") == 12 && pt.getDouble("b") == 12 && badValue<bool>(pt, "b"), "whole number"); pt.setString("b", " 1 "); sx_assert(pt.getBool("b") && pt.getInt("b") == 1, "blanks around"); pt.setString("b", "true"); sx_assert(pt.getBool("b"), "word"); pt.setString("b", "false"); sx_assert(!pt.getBool("b") && badValue<int>(pt, "b"), "word");
  pt.setInt("n", d); double q = pt.getDouble("n"); sx_assert(q == (double)d, "an integer is a number"); bool e = sx_bool("e"); pt.setBool("e", e); sx_assert(pt.getBool("e") == e && pt.getString("e") == (e ? "true" : "false") && badValue<int>(pt, "e"), "a truth value is a word"); sx_reach("end");
}
SX_ENTRY h_history() { // a short history against a table
  SX_TOKENS; int n = sx_param(0); sm::BoostPropertyTree pt; const char* K[] = {"a", "a/b", "b", "a/c.d"}; bool has[4] = {}; int val[4] = {}; PT sub(pt, "a");
  for (int i = 0; i < n; i++) { int k = (int)sx_choose(sx_param(1), "k"), op = (int)sx_choose(4, "op"), v = (int)sx_u32("v"); const CT& c = pt; bool above = k == 0 && !has[0] && (has[1] || has[3]);
    bool viaSub = (k == 1 || k == 3) && i % 2; std::string key = viaSub ? K[k] + 2 : K[k]; PT& t = viaSub ? sub : (PT&)pt;
    if (op == 0) { t.setInt(key, v); has[k] = true; val[k] = v; }
    else if (op == 1) { int r = t.getInt(key, v); sx_assert(r == (has[k] ? val[k] : v), "value or default"); has[k] = true; val[k] = r; }
    else if (op == 2) { sx_assert(((const PT&)t).getInt(key, v) == (has[k] ? val[k] : v), "value or default, constant"); }
    else { bool th = false; int r = 0; try { r = c.getInt(K[k]); } catch (const PT::InvalidKeyException&) { th = true; } catch (const PT::InvalidValueException&) { sx_assert(above, "only a node without a value"); th = true; } sx_assert(th == !has[k], "throws exactly when missing"); if (!th) sx_assert(r == val[k], "value"); } }
  for (int k = 0; k < 4; k++) { bool ex = has[k] || (k == 0 && (has[1] || has[3])); sx_assert(pt.doesKeyExist(K[k]) == ex, "existence"); if (has[k]) sx_assert(pt.getInt(K[k]) == val[k], "final value"); }
  std::vector<sm::KeyPropertyTreePair> ch = ((const PT&)pt).getChildren(); size_t want = (has[0] || has[1] || has[3]) + has[2]; sx_assert(ch.size() == want, "top-level nodes"); for (auto& c : ch) { sx_assert(c.key == "a" || c.key == "b", "their names"); if (c.key == "b") sx_assert(c.pt.getInt("") == val[2], "their values"); else if (has[1]) sx_assert(c.pt.getInt("b") == val[1], "their values"); }
  sx_reach("end");
}
SX_ENTRY h_children() { // listing agrees with reading, in insertion order, at every level and for both kinds of tree
  SX_TOKENS; sm::BoostPropertyTree pt; int v[4]; const char* P[] = {"", "n", "n/m", "n.x/m", "/n/"}; std::string base = P[sx_param(0)]; std::string pre = base.empty() ? "" : base.back() == '/' ? base : base + "/"; const char* K[] = {"z", "a", "a/q", "d.e", "f"}; if (sx_param(0)) pt.setInt("aside", 3);
  for (int i = 0; i < 4; i++) v[i] = (int)sx_u32("v"); for (int i = 0; i < 4; i++) pt.setInt(pre + K[i], v[i]); PT t(pt, base); CT c(pt, base);
  auto a = ((const PT&)t).getChildren(); auto b = c.getChildren(); sx_assert(a.size() == 3 && b.size() == 3, "every child once"); const char* W[] = {"z", "a", "d.e"}; int ix[] = {0, 1, 3};
  for (int i = 0; i < 3; i++) { sx_assert(a[i].key == W[i] && b[i].key == W[i], "names in order of insertion"); sx_assert(a[i].pt.getInt("") == v[ix[i]] && b[i].pt.getInt("") == v[ix[i]], "values"); sx_assert(c.getInt(a[i].key) == v[ix[i]], "names can be read"); }
  sx_assert(a[1].pt.getInt("q") == v[2] && b[1].pt.getInt("/q") == v[2] && a[1].pt.getChildren().size() == 1, "grandchildren"); sx_assert(a[0].pt.getChildren().empty(), "leaf"); a[0].pt.setInt("", 5); sx_assert(t.getInt("z") == v[0], "children are copies"); sx_reach("end");
}
SX_ENTRY h_iterate() { // iterating visits the top-level nodes in order of insertion, and a value changed in place is the tree's
  SX_TOKENS; sm::BoostPropertyTree pt; const char* K[] = {"z", "a", "a/q", "d.e"}; const char* W[] = {"z", "a", "d.e"}; int ix[] = {0, 1, 3}, v[4], n = sx_choose(5, "n"), m = n == 0 ? 0 : n < 3 ? n : n - 1; for (int i = 0; i < n; i++) { v[i] = (int)sx_u32("v"); pt.setInt(K[i], v[i]); }
  const sm::BoostPropertyTree& c = pt; int k = 0; for (auto it = c.begin(); it != c.end(); ++it, k++) { sx_assert(k < m && it->first == W[k], "each node once, by name"); sx_assert(it->second.data() == pt.getString(W[k]), "with its value"); } sx_assert(k == m, "every node");
  k = 0; for (auto it = pt.begin(); it != pt.end(); ++it, k++) { sx_assert(k < m && it->first == W[k], "each node once, by name"); if (k == 1) it->second.data() = "7"; } sx_assert(k == m, "every node"); for (int i = 0; i < m; i++) sx_assert(c.getInt(W[i]) == (i == 1 ? 7 : v[ix[i]]), "a value changed in place is the tree's"); sx_reach("end");
}
SX_ENTRY h_null() { // a tree without an implementation
  PT t((boost::shared_ptr<sm::PropertyTreeImplementation>())); const CT& c = t; int n = 0, k = 0;
#define TH(x) { k++; try { x; } catch (const CT::Exception&) { n++; } }
  TH(c.getInt("a")) TH(c.getDouble("a")) TH(c.getBool("a")) TH(c.getString("a")) TH(c.getInt("a", 1)) TH(c.getDouble("a", 1)) TH(c.getBool("a", true)) TH(c.getString("a", "b")) TH(t.getInt("a", 1)) TH(t.getDouble("a", 1)) TH(t.getBool("a", true)) TH(t.getString("a", "b")) TH(t.setInt("a", 1)) TH(t.setDouble("a", 1)) TH(t.setBool("a", true)) TH(t.setString("a", "b")) TH(c.doesKeyExist("a")) TH(c.getChildren()) TH(((const PT&)t).getChildren())
  sx_assert(n == k, "every use throws"); sx_reach("end");
}
