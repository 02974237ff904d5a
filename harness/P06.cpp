// Property trees written to files and read back.
#include "sx.h"
#include <string>
#include <vector>
#include <utility>
#include <sm/BoostPropertyTree.hpp>
#include "simfs.h"
namespace {
typedef std::vector<std::pair<std::string, std::string>> Leaves;
const char* const EXT[] = {"info", "json", "xml", "ini"};
std::string R;
// printable characters; in an ini file not the ones that start a comment or a section
char chr(int f, const char* n, bool blank = false) { uint8_t c = sx_u8(n); sx_assume((c > 32 - blank) & (c < 127)); if (f == 3) sx_assume((c != ';') & (c != '#') & (c != '[') & (c != ']') & (c != '=') & (c != ' ')); return (char)c; }
std::string value(int f, int n) { std::string v; for (int i = 0; i < n; i++) v.push_back(chr(f, "v", i && i + 1 < n)); return v; }
int count(const sm::PropertyTree& t) { int n = 0; for (auto& c : t.getChildren()) { int m = count(c.pt); n += m ? m : 1; } return n; }
void check(const sm::BoostPropertyTree& t, const Leaves& l) { for (auto& e : l) { sx_assert(t.doesKeyExist(e.first), "every key is there again"); sx_assert(t.getString(e.first) == e.second, "with its value"); } sx_assert(count(t) == (int)l.size(), "and nothing else"); }
void save(const sm::BoostPropertyTree& t, int f, bool generic, const std::string& p) { if (generic) t.save(p); else if (f == 0) t.saveInfo(p); else if (f == 1) t.saveJson(p); else if (f == 2) t.saveXml(p); else t.saveIni(p); }
void load(sm::BoostPropertyTree& t, int f, bool generic, const std::string& p) { if (generic) t.load(p); else if (f == 0) t.loadInfo(p); else if (f == 1) t.loadJson(p); else if (f == 2) t.loadXml(p); else t.loadIni(p); }
const char* const KEYS[] = {"/a", "/s/b", "/s/c", "/t/u/d"};
// the keys of mask; the values of those in arb are arbitrary
Leaves leaves(int f, unsigned mask, unsigned arb, int n) { static const char* const V[] = {"1.5", "true", "x y", "-3"}; Leaves l; for (int i = 0; i < (f == 3 ? 3 : 4); i++) if (mask >> i & 1) l.emplace_back(KEYS[i], arb >> i & 1 ? value(f, n) : V[i]); return l; }
}
// params: format, keys, keys with arbitrary values, length of those, readable
SX_ENTRY h_round() {
  R = fsRoot(); int f = sx_param(0); sm::BoostPropertyTree::setHumanReadableInputOutput(sx_param(4) & 1); bool gs = sx_choose(2, "save by extension"), gl = sx_choose(2, "load by extension"); std::string p = R + "/x." + EXT[f];
  sm::BoostPropertyTree a, b; Leaves l = leaves(f, sx_param(1), sx_param(2), sx_param(3)); for (auto& e : l) a.setString(e.first, e.second); b.setString("old", "y");
  save(a, f, gs, p); check(a, l); load(b, f, gl, p); check(b, l); sm::BoostPropertyTree c; load(c, f, true, p); check(c, l); sx_reach("end");
}
// the extension alone decides the format; params: number of characters, load or save
SX_ENTRY h_extension() {
  R = fsRoot(); int n = sx_param(0); std::string e; for (int i = 0; i < n; i++) { uint8_t c = sx_u8("e"); sx_assume((c > 32) & (c < 127) & (c != '/') & (c != '.')); e.push_back((char)c); } bool known = false; for (auto x : EXT) known |= e == x; std::string p = R + (sx_param(2) ? "/x.json." : "/x.") + e; if (sx_param(2) == 2) p = R + "/" + e;
  sm::BoostPropertyTree t; t.setString("k", "v"); bool refused = false, other = false; try { if (sx_param(1)) t.save(p); else t.load(p); } catch (const sm::PropertyTree::InvalidFormatException&) { refused = true; } catch (const std::exception&) { other = true; }
  if (sx_param(2) == 2) known = false; sx_assert(refused == !known, "names with another extension are refused"); sx_assert(other == (known && !sx_param(1)), "and the others are not"); check(t, {{"/k", "v"}}); if (known && sx_param(1)) { std::string s = fsGet(p); sx_assert(s == (e == "info" ? "k v\n" : e == "json" ? "{\n    \"k\": \"v\"\n}\n" : e == "ini" ? "k=v\n" : "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<k>v</k>"), "and the file has the format its extension names"); } sx_reach("end");
}
// XML: comments and blanks; params: readable, ignore comments, from a file or a string (0 string, 1 loadXml, 2 load)
SX_ENTRY h_xml() {
  R = fsRoot(); bool readable = sx_param(0), ignore = sx_param(1); sm::BoostPropertyTree::setHumanReadableInputOutput(readable); sm::BoostPropertyTree::setIgnoreComments(ignore); auto val = [] { uint8_t c = sx_u8("v"); sx_assume((c > 32) & (c < 127) & (c != '<') & (c != '&') & (c != '-')); return std::string(1, (char)c); }; std::string v = val(), w = val(), c = val(), b = sx_choose(2, "blank") ? " " : sx_choose(2, "tab") ? "\n\t" : "";
  std::string s = "<a><b>" + b + v + b + "</b><!--" + c + "--><c>" + w + "</c></a>"; sm::BoostPropertyTree t; t.setString("old", "y"); if (sx_param(2)) { fsPut(R + "/x.xml", s); if (sx_param(2) == 1) t.loadXml(R + "/x.xml"); else t.load(R + "/x.xml"); } else t.loadXmlFromString(s);
  Leaves l{{"/a/b", readable ? v : b + v + b}, {"/a/c", w}}; if (!ignore) l.emplace_back("/a/<xmlcomment>", c); check(t, l); sx_reach("end");
}
// a text that breaks off is refused and changes nothing; params: format, cut
SX_ENTRY h_broken() {
  R = fsRoot(); int f = sx_param(0); sm::BoostPropertyTree a; std::string p = R + "/x." + EXT[f], v = value(f, 1); a.setString("s/b", v); a.setString("s/c", "2"); save(a, f, false, p); std::string s = fsGet(p); size_t end = s.size(); while (end && s[end - 1] == '\n') end--; size_t cut = sx_choose((unsigned)end, "cut"), least = f == 2 ? 39 : 0; if (cut < least) cut = least; // within the tree
  fsPut(p, s.substr(0, cut)); sm::BoostPropertyTree t; t.setString("k", "w"); bool thrown = false; try { load(t, f, sx_param(1), p); } catch (const std::exception&) { thrown = true; }
  if (f == 1 || (f == 2 && cut > 39)) sx_assert(thrown, "a text that breaks off is refused"); if (thrown) check(t, {{"/k", "w"}}); sx_reach("end");
}
// the text of the info format, as a string and as a file; params: keys, arbitrary ones
SX_ENTRY h_info_string() { R = fsRoot(); sm::BoostPropertyTree a, b; Leaves l = leaves(0, sx_param(0), sx_param(1), 2); for (auto& e : l) a.setString(e.first, e.second); std::string s = a.asInfoString(); a.saveInfo(R + "/x.info"); sx_assert(fsGet(R + "/x.info") == s, "the text is what the file would hold"); fsPut(R + "/y.info", s); b.load(R + "/y.info"); check(b, l); sx_reach("end"); }
