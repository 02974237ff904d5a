// Property trees from configuration files: where the files are found and how they are combined.
#include "sx.h"
#include <string>
#include <vector>
#include <utility>
#include <sm/BoostPropertyTreeLoader.hpp>
#include "simfs.h"
#include <sm/BoostPropertyTreeSupport.hpp>
#include <cstring>
static std::string envDir; static bool envSet;
extern "C" char* getenv(const char* n) noexcept { return envSet && !strcmp(n, "CONFIG_DIR") ? (char*)envDir.c_str() : nullptr; }
namespace {
typedef std::vector<std::string> Names; typedef std::vector<std::pair<std::string, std::string>> Leaves;
struct Loader : sm::BoostPropertyTreeLoader {
  Names log; int warned; Loader() : warned(0) {}
  void goingToMergeIn(const std::string& p) override { log.push_back("+" + p); } void startingWith(const std::string& p) override { log.push_back("=" + p); }
  void warn(const std::string&) override { warned++; } void info(const std::string&) override {} void verbose(const std::string&) override {} };
char letter(const char* n) { uint8_t c = sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return (char)c; }
char chr(const char* n) { uint8_t c = sx_u8(n); sx_assume((c > 32) & (c < 127) & (c != '"') & (c != ';') & (c != '{') & (c != '}') & (c != '\\') & (c != '#')); return (char)c; }
std::string R;
// ---- where a file is found
struct Candidate { std::string name; bool there; };
bool present(std::vector<Candidate>& c, const std::string& n) { for (auto& x : c) if (x.name == n) return x.there; Candidate x; x.name = n; x.there = sx_bool("there"); if (x.there) fsPut(n, "x 1\n"); c.push_back(x); return x.there; }
}
// params: shape of the name, number of search paths, number of infixes, including file given (0 no, 1 in another directory, 2 in a search path, 3 in the working directory)
SX_ENTRY h_resolve() {
  R = fsRoot(); static const char* D[] = {"/s0", "/s1", "/s0/i", "/s1/i", "/s0/j", "/s1/j", "/inc", "/inc/up", "/s0/sub", "/s1/sub", "/s0/i/sub", "/s1/i/sub"}; int nd = sx_param(0) == 7 ? 12 : 8; for (int i = 0; i < nd; i++) fsMkdir(R + D[i]);
  int shape = sx_param(0), np = sx_param(1), ni = sx_param(2), rel = sx_param(3); std::string x(1, letter("x")); x += ".info"; std::string n;
  switch (shape) { case 0: n = x; break; case 1: n = "./" + x; break; case 2: n = "../" + x; break; case 3: n = "." + x; break; case 4: n = ".." + x; break; case 5: n = R + "/inc/" + x; break; case 6: n = "..." + x; break; default: n = "sub/" + x; break; }
  Loader l; for (int i = 0; i < np; i++) l.getSearchPaths().push_back(R + D[i]); static const char* I[] = {"i", "", "j"}; for (int i = 0; i < ni; i++) l.getFileNameInfixes().push_back(I[i]);
  std::string inc = rel == 0 ? "" : rel == 1 ? R + "/inc/up/m.info" : rel == 2 ? R + "/s0/m.info" : "m.info", exp; std::vector<Candidate> c;
  if (np == 0 || shape == 5) exp = n;
  else {
    if (shape == 1 || shape == 2) { std::string f = rel == 0 || rel == 3 ? R + (shape == 1 ? "/cwd/" : "/") + x : rel == 1 ? R + (shape == 1 ? "/inc/up/" : "/inc/") + x : R + (shape == 1 ? "/s0/" : "/") + x; if (present(c, f)) exp = rel == 0 || rel == 3 ? n : inc.substr(0, inc.size() - 7) + "/" + n; }
    for (int i = 0; i < np; i++) for (int j = 0; j < (ni ? ni : 1); j++) { std::string in = ni ? I[j] : "", d = R + D[i] + (in.empty() ? "" : "/" + in), f = shape == 1 ? d + "/" + x : shape == 2 ? d.substr(0, d.rfind('/')) + "/" + x : d + "/" + n, cand = R + D[i] + "/" + (in.empty() ? "" : in + "/") + n; if (in == "j") continue; bool t = present(c, f); if (t && exp.empty()) exp = cand; }
    if (exp.empty()) exp = R + D[0] + "/" + (ni ? std::string(I[0]) + "/" : "") + n; }
  for (int k = 0; k < 2; k++) { std::string r = l.resolveFullFilePath(n, inc); for (size_t q; (q = r.find("//")) != std::string::npos;) r.erase(q, 1); sx_assert(r == exp, "the file is the first that exists: next to the including file, then in the search paths and infixes in order; if none does, the first place is named"); }
  sx_assert((int)l.getSearchPaths().size() == np, "the search paths stay"); sx_reach("end");
}
// ---- how files are combined
namespace {
// up to two keys of a family, top level and in sections, with arbitrary one-character values
static const char* const KEYS[] = {"/a", "/s/b", "/s/c", "/t/u/d"};
std::string get(const Leaves& l, const std::string& k, bool& has) { has = false; std::string r; for (auto& e : l) if (e.first == k) { has = true; r = e.second; } return r; }
void put(Leaves& l, const std::string& k, const std::string& v) { for (auto& e : l) if (e.first == k) { e.second = v; return; } l.emplace_back(k, v); }
std::string text(const Leaves& l, const std::string& parents, int where) { // where the parents are named: 0 first in the file, 1 last, 2 in a section that comes first
  std::string s; if (!parents.empty() && where == 0) s += "parents \"" + parents + "\"\n"; if (!parents.empty() && where == 2) s += "h\n{\n parents \"" + parents + "\"\n}\n"; bool has; std::string v = get(l, "/a", has); if (has) s += "a " + v + "\n"; bool hb, hc; std::string b = get(l, "/s/b", hb), c = get(l, "/s/c", hc); if (hb || hc) { s += "s\n{\n"; if (hb) s += "b " + b + "\n"; if (hc) s += "c " + c + "\n"; s += "}\n"; }
  v = get(l, "/t/u/d", has); if (has) s += "t\n{\nu\n{\nd " + v + "\n}\n}\n"; if (!parents.empty() && where == 1) s += "parents \"" + parents + "\"\n"; return s; }
Leaves leaves(unsigned mask) { Leaves l; for (int i = 0; i < 4; i++) if (mask >> i & 1) l.emplace_back(KEYS[i], std::string(1, chr("v"))); return l; }
unsigned pick(const char* n) { static const unsigned M[] = {1, 2, 5, 14, 15, 8}; return M[sx_choose(6, n)]; }
int count(const sm::PropertyTree& t) { int n = 0; for (auto& c : t.getChildren()) { int m = count(c.pt); n += m ? m : (c.key != "parents"); } return n; }
void check(const sm::BoostPropertyTree& t, const Leaves& l) { for (auto& e : l) { sx_assert(t.doesKeyExist(e.first), "every key of the files exists"); sx_assert(t.getString(e.first) == e.second, "with the value of the last file that sets it"); } sx_assert(count(t) == (int)l.size(), "and nothing else"); }
void merge(Leaves& l, const Leaves& o) { for (auto& e : o) put(l, e.first, e.second); }
bool covers(const Leaves& l, const Leaves& o) { for (auto& e : o) { bool has; get(l, e.first, has); if (!has) return false; } return true; }
sm::BoostPropertyTree load(Loader& l, const Names& n, bool asText) { if (!asText) return l.readFilesAndMergeIntoPropertyTree(n); std::string s; for (size_t i = 0; i < n.size(); i++) { if (i) s += ","; s += n[i]; } return l.readFilesAndMergeIntoPropertyTree(s); }
}
// params: number of files, as one comma-separated text, with search path; each file may update only
SX_ENTRY h_list() {
  R = fsRoot(); fsMkdir(R + "/s0"); int n = sx_param(0); Loader l; bool sp = sx_param(2); if (sp) l.getSearchPaths().push_back(R + "/s0"); Names names, log; Leaves e; bool refused = false; int warned = 0, set = 0; static const char* F[] = {"p.info", "q.info", "r.info"};
  for (int i = 0; i < n; i++) { Leaves f = leaves(i ? pick("keys") : sx_param(3)); bool only = sx_choose(2, "update only"); fsPut(R + "/s0/" + F[i], text(f, "", 0)); names.push_back((sp ? "" : R + "/s0/") + F[i] + (only ? "!" : "")); if (sx_param(1) && i == 0) names.push_back("");
    if (refused) continue; if (only && !set) warned++; if (only && set && !covers(e, f)) { refused = true; log.push_back("+" + R + "/s0/" + F[i]); continue; } log.push_back((set ? "+" : "=") + R + "/s0/" + F[i]); merge(e, f); set++; }
  bool thrown = false; try { sm::BoostPropertyTree t = load(l, names, sx_param(1)); sx_assert(!refused, "a file that may only update cannot add keys"); check(t, e); } catch (const sm::PropertyTree::KeyNotFoundException&) { thrown = true; }
  sx_assert(thrown == refused, "keys are added unless the name ends in an exclamation mark"); sx_assert(l.log == log && l.warned == warned, "the files are merged in the order given"); sx_reach("end");
}
// params: where the parents are named, relation (0 one parent, 1 two parents, 2 grandparent, 3 cycle of two, 4 itself, 5 shared grandparent, 6 parent that only updates), way the parents are named (0 search path, 1 ./, 2 absolute)
SX_ENTRY h_parents() {
  R = fsRoot(); fsMkdir(R + "/s0"); fsMkdir(R + "/s0/d"); int where = sx_param(0), rel = sx_param(1), way = sx_param(2); Loader l; l.getSearchPaths().push_back(R + "/s0"); std::string d = way == 1 ? "./" : way == 2 ? R + "/s0/d/" : "d/", top = "d/m.info";
  Leaves m = leaves(sx_param(3)), p = leaves(pick("p")), q = leaves(pick("q")), hid; std::string P = d + "p.info", Q = d + "q.info", M = d + "m.info", pm, pp, pq; Names order;
  switch (rel) { case 0: pm = P; order = {"p", "m"}; break; case 1: pm = P + "," + Q; order = {"p", "q", "m"}; break; case 2: pm = P; pp = Q; order = {"q", "p", "m"}; break; case 3: pm = P; pp = way == 0 ? "d/m.info" : M; order = way == 0 ? Names{"p", "m"} : Names{"m", "p", "m"}; break; case 4: pm = M; order = way == 0 ? Names{"m"} : Names{"m", "m"}; break; case 5: pm = P + "," + Q; pp = Q; order = {"q", "p", "m"}; break; default: pm = P + "," + Q + "!"; order = {"p", "q", "m"}; break; }
  fsPut(R + "/s0/d/m.info", text(m, pm, where)); fsPut(R + "/s0/d/p.info", text(p, pp, where)); fsPut(R + "/s0/d/q.info", text(q, pq, where));
  Leaves e; Names log; bool refused = false; for (auto& o : order) { const Leaves& f = o == "m" ? m : o == "p" ? p : q; const std::string& par = o == "m" ? pm : o == "p" ? pp : pq; Leaves g = f; if (where == 2 && !par.empty()) put(g, "/h/parents", par); std::string full = R + "/s0/" + (way == 1 && !(&o == &order.back()) ? "d/./" : "d/") + o + ".info"; log.push_back((log.empty() ? "=" : "+") + full); if (rel == 6 && o == "q" && !covers(e, f)) { refused = true; break; } merge(e, g); }
  if (way != 1) { bool thrown = false; try { sm::BoostPropertyTree t = load(l, {top}, false); sx_assert(!refused, "a parent that may only update cannot add keys"); bool has; std::string h = get(e, "/h/parents", has); Leaves e2; for (auto& x : e) if (x.first != "/h/parents") e2.push_back(x); if (has) sx_assert(t.getString("/h/parents") == h, "the list of parents is kept like any other value"); for (auto& x : e2) { sx_assert(t.doesKeyExist(x.first), "every key of the files exists"); sx_assert(t.getString(x.first) == x.second, "a file overrides its parents, and a later parent the earlier ones"); } sx_assert(count(t) == (int)e2.size() + has, "and nothing else"); } catch (const sm::PropertyTree::KeyNotFoundException&) { thrown = true; } sx_assert(thrown == refused, "and only then is it refused"); }
  else { try { sm::BoostPropertyTree t = load(l, {top}, false); sx_assert(!refused, "a parent that may only update cannot add keys"); for (auto& x : e) { sx_assert(t.doesKeyExist(x.first), "every key of the files exists"); sx_assert(t.getString(x.first) == x.second, "a file overrides its parents, and a later parent the earlier ones"); } } catch (const sm::PropertyTree::KeyNotFoundException&) { sx_assert(refused, "and only then is it refused"); } }
  if (way != 1) sx_assert(l.log == log, "parents are loaded before the file that names them, each name once"); else sx_assert(l.log.size() == log.size(), "parents are loaded before the file that names them, each name once"); sx_reach("end");
}
// the same name twice is loaded once; names that differ are different files
SX_ENTRY h_once() {
  R = fsRoot(); fsMkdir(R + "/s0"); Loader l; l.getSearchPaths().push_back(R + "/s0"); std::string x = std::string(1, letter("x")) + ".info", y = std::string(1, letter("y")) + ".info"; bool same = x == y; int order = sx_param(0);
  Leaves f = leaves(5), g = leaves(7); fsPut(R + "/s0/" + x, text(f, "", 0)); if (!same) fsPut(R + "/s0/" + y, text(g, "", 0)); Names n = order == 0 ? Names{x, y} : order == 1 ? Names{x, y, x} : Names{x, x, y}; Leaves e = f; if (!same) merge(e, g);
  for (int k = 0; k < 2; k++) { l.log.clear(); sm::BoostPropertyTree t = load(l, n, sx_param(1)); check(t, e); sx_assert(l.log.size() == (same ? 1u : 2u), "each name is loaded once per call"); } sx_reach("end");
}
SX_ENTRY h_missing() {
  R = fsRoot(); fsMkdir(R + "/s0"); Loader l; l.getSearchPaths().push_back(R + "/s0"); Leaves f = leaves(3); fsPut(R + "/s0/p.info", text(f, sx_param(0) == 1 ? "gone.info" : "", 0)); fsPut(R + "/s0/p.dat", "x 1\n"); fsPut(R + "/s0/p", "x 1\n"); bool t = false, fmt = false;
  try { switch (sx_param(0)) { case 0: load(l, {"gone.info"}, false); break; case 1: load(l, {"p.info"}, false); break; case 2: load(l, {"p.info", "gone.info"}, false); break; case 3: load(l, {"p.dat"}, false); break; case 4: load(l, {"p"}, false); break; default: { sm::BoostPropertyTree e = load(l, {}, false); check(e, {}); t = true; } } } catch (const sm::PropertyTree::InvalidFormatException&) { t = fmt = true; } catch (const std::exception&) { t = true; }
  sx_assert(t, "a file that is not there or of unknown format is refused"); sx_assert(fmt == (sx_param(0) == 3 || sx_param(0) == 4), "an unknown format with its own exception"); sx_reach("end");
}
// params: how the directory is written
SX_ENTRY h_find() {
  R = fsRoot(); fsMkdir(R + "/s0"); fsMkdir(R + "/s0/d"); std::string x = std::string(1, letter("x")) + ".info", y = std::string(1, letter("y")) + ".info", sub = sx_param(0) & 2 ? "d/" : ""; fsPut(R + "/s0/" + sub + y, "x 1\n"); if (sx_param(0) & 4) fsPut(R + "/cwd/" + x, "x 1\n"); envDir = R + "/s0" + (sx_param(0) & 1 ? "/" : ""); envSet = sx_bool("set"); bool known = sx_bool("known"), ok = envSet & known & (x[0] == y[0]);
  bool t = false; std::string r; try { r = sm::findFile(sub + x, known ? "CONFIG_DIR" : "CONFIG_DI").string(); } catch (const std::runtime_error&) { t = true; }
  sx_assert(t == !ok, "refused exactly when the variable is not set or the directory has no such file"); if (ok) sx_assert(r == R + "/s0/" + sub + x, "the file in the directory the variable names"); sx_reach("end");
}
