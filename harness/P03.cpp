// Property trees from text.
#include "sx.h"
#include <string>
#include <vector>
#include <utility>
#include <sm/BoostPropertyTree.hpp>
namespace {
typedef std::vector<std::pair<std::string, std::string>> Leaves; // key, value
int serial; bool symbolicFirst; // whether names start or end with the arbitrary character
// a printable character without a meaning of its own in the text
char chr(const char* n) { uint8_t c = sx_u8(n); sx_assume((c > 32) & (c < 127) & (c != '"') & (c != ',') & (c != '/') & (c != '=') & (c != '{') & (c != '}') & (c != ';') & (c != '#') & (c != '\\')); return (char)c; }
std::string key() { std::string k(1, (char)('A' + serial++)); char c = chr("k"); if (symbolicFirst) k.insert(k.begin(), c); else k.push_back(c); return k; } // distinct
std::string value(int n) { std::string v; for (int i = 0; i < n; i++) v.push_back(chr("v")); return v; }
std::string path(const std::string& pre, int n, std::string& text) { std::string p = pre; for (int i = 0; i < n; i++) { std::string k = key(); if (i) text += '/'; text += k; p += "/" + k; } return p; }
// inside a block: name or name/name, then a value or a block with one value
void inner(int f, const std::string& pre, std::string& text, Leaves& out) { std::string p = path(pre, 1 + (f & 1), text); if (f & 2) { text += '{'; p = path(p, 1, text); } std::string v = value(1); text += "=" + v; if (f & 2) text += '}'; out.emplace_back(p, v); }
// shapes 0-41: name or name/name, then a value, a block of one, or a block of two
const int NS = 42;
void item(int f, std::string& text, Leaves& out) { std::string p = path("", 1 + (f & 1), text); f >>= 1; if (f == 0) { std::string v = value(2); text += "=" + v; out.emplace_back(p, v); return; } f--; text += '{'; if (f < 4) inner(f, p, text, out); else { f -= 4; inner(f & 3, p, text, out); text += ','; inner(f >> 2, p, text, out); } text += '}'; }
int count(const sm::PropertyTree& t) { int n = 0; for (auto& c : t.getChildren()) { sx_assert(c.key.find('/') == std::string::npos, "names of children have one component"); int m = count(c.pt); n += m ? m : 1; } return n; }
void check(const sm::BoostPropertyTree& t, const Leaves& l) {
  for (auto& e : l) { sx_assert(t.doesKeyExist(e.first), "every key of the text exists"); sx_assert(t.getString(e.first) == e.second, "with its value"); sx_assert(t.getString(e.first.substr(1)) == e.second, "the leading slash is optional"); size_t i = e.first.rfind('/'); if (i) { std::string up = e.first.substr(0, i); sx_assert(t.doesKeyExist(up), "and so does the namespace above it"); sx_assert(t.getString(up) == "", "which has no value"); bool top = false; for (auto& o : l) top |= o.first == e.first.substr(i); if (!top) sx_assert(!t.doesKeyExist(e.first.substr(i)), "not at the top"); } }
  sx_assert(count(t) == (int)l.size(), "and nothing else");
}
}
SX_ENTRY h_text() { serial = 0; std::string s; Leaves l; item(sx_param(0), s, l); int g = (int)sx_choose(NS + 1, "second"); if (g) { s += ','; item(g - 1, s, l); } sm::BoostPropertyTree t; t.setString("old", "x"); t.loadString(s); check(t, l); sx_assert(!t.doesKeyExist("old"), "what was in the tree before is replaced"); sx_reach("end"); }
SX_ENTRY h_three() { serial = 0; std::string s; Leaves l; static const int F[] = {0, 3, 11, 1, 5, 20, 41}; for (int i = 0; i < 3; i++) { if (i) s += ','; item(F[i == 0 ? sx_param(0) : (int)sx_choose(sx_param(1) ? 7 : 3, "shape")], s, l); } sm::BoostPropertyTree t; t.loadString(s); check(t, l); sx_reach("end"); }
SX_ENTRY h_deep() { // names nested by slashes and blocks in any mixture
  symbolicFirst = true; serial = 0; std::string s, p; int n = sx_param(0); unsigned open = 0; Leaves l; for (int i = 0; i < n; i++) { std::string k = key(); s += k; p += "/" + k; if (i + 1 < n) { if (sx_choose(2, "block")) { s += '{'; open++; } else s += '/'; } } std::string v = value(sx_param(1)); s += '=' + v; for (unsigned i = 0; i < open; i++) s += '}'; l.emplace_back(p, v); std::string k = key(), w = value(1); s += ',' + k + '=' + w; l.emplace_back("/" + k, w);
  sm::BoostPropertyTree t; t.loadString(s); check(t, l); sx_reach("end"); }
SX_ENTRY h_after() { // what follows a name/name=value inside a block stays in the block
  symbolicFirst = true; serial = 0; std::string s, a = key(), b = key(), c = key(), d = key(), e = key(), v = value(1), w = value(1), x = value(2); s = a + "{" + b + "/" + c + "=" + v + "," + d + "=" + w + "}," + e + "=" + x; Leaves l{{"/" + a + "/" + b + "/" + c, v}, {"/" + a + "/" + d, w}, {"/" + e, x}}; sm::BoostPropertyTree t; t.loadString(s); check(t, l); sx_reach("end"); }
SX_ENTRY h_example() { // the documented example, with arbitrary values
  std::string v[8]; for (int i = 0; i < 7; i++) v[i] = value(1 + i % 2); std::string s = "d=" + v[0] + ",s=" + v[1] + ",a/d=" + v[2] + ",b{u=" + v[3] + ",v=" + v[4] + "},c/b{u=" + v[5] + ",v=" + v[6] + "}"; sm::BoostPropertyTree t; t.loadString(s); check(t, Leaves{{"/d", v[0]}, {"/s", v[1]}, {"/a/d", v[2]}, {"/b/u", v[3]}, {"/b/v", v[4]}, {"/c/b/u", v[5]}, {"/c/b/v", v[6]}}); sx_reach("end"); }
SX_ENTRY h_strings() { // several texts are one text joined by commas
  serial = 0; int n = sx_param(0), how = sx_param(1); std::vector<std::string> p; Leaves l; for (int i = 0; i < n; i++) { std::string s; item(i == 0 ? 5 : i == 1 ? 1 : 0, s, l); p.push_back(s); } sm::BoostPropertyTree t; if (how) { const char* a[4]; for (int i = 0; i < n; i++) a[i] = p[i].c_str(); t.loadStrings(n, a); } else t.loadStrings(p); check(t, l); sx_reach("end"); }
SX_ENTRY h_bad() { // a text that is no tree is refused and changes nothing
  symbolicFirst = true; serial = 0; int k = sx_param(0); std::string s, a = key(), b = key(), v = value(1);
  switch (k) { case 0: s = a + "=" + v + "}"; break; case 1: s = a + "{" + b + "=" + v; break; case 2: s = a + "{" + b + "{" + b + "=" + v + "}"; break; case 3: s = a + "=\"" + v + "\""; break; case 4: s = "}"; break; case 5: s = a + "{" + b + "=" + v + "}}"; break; case 6: s = a + "/" + b + "=" + v + "}"; break; case 7: s = "\"" + a; break; case 8: s = "{" + a + "=" + v + "}"; break; case 9: s = a + "{" + b + "=" + v + "},}"; break; default: s = a + "/" + b + "{" + a + "/" + b + "=" + v; break; }
  sm::BoostPropertyTree t; t.setString("old/x", "y"); bool thrown = false; try { t.loadString(s); } catch (const std::exception&) { thrown = true; } sx_assert(thrown, "refused"); sx_assert(t.getString("old/x") == "y" && count(t) == 1, "the tree is as it was"); sx_reach("end"); }
SX_ENTRY h_empty() { sm::BoostPropertyTree t; t.setString("old", "x"); t.loadString(sx_param(0) ? "," : ""); sx_assert(count(t) == 0, "an empty text gives an empty tree"); sx_reach("end"); }
SX_ENTRY h_repeat() { // a namespace that is named twice
  symbolicFirst = true; serial = 0; std::string a = key(), b = key(), c = key(), v = value(1), w = value(1); sm::BoostPropertyTree t; t.loadString(a + "/" + b + "=" + v + "," + a + "/" + c + "=" + w); sx_reach("end"); sx_assert(t.doesKeyExist(a + "/" + b) && t.getString(a + "/" + b) == v, "the first value"); sx_assert(t.doesKeyExist(a + "/" + c) && t.getString(a + "/" + c) == w, "the second value under the same namespace"); }
