#include "sx.h"
#include <string>
#include <vector>
#include <map>
#include <sm/BoostPropertyTree.hpp>
#include "numtok.h"
namespace {
const char* K[] = {"a", "a/b", "c", "c/x.y/z", "v.w"}; const int NK = 5; // as keys of both trees
struct Tree { sm::BoostPropertyTree t; int has[NK], val[NK]; };
bool above(int i, int j) { std::string p(K[i]), s(K[j]); return i != j && s.size() > p.size() && s.compare(0, p.size(), p) == 0 && s[p.size()] == '/'; }
void fill(Tree& t, unsigned mask, const char* n) { for (int i = 0; i < NK; i++) { t.has[i] = mask >> i & 1; t.val[i] = (int)sx_u32(n); if (t.has[i]) t.t.setInt(K[i], t.val[i]); } }
bool node(const Tree& t, int i) { if (t.has[i]) return true; for (int j = 0; j < NK; j++) if (t.has[j] && above(i, j)) return true; return false; }
bool missing(const sm::BoostPropertyTree& t, const std::string& k) { return !t.doesKeyExist(k); }
}
SX_ENTRY h_merge() { // update(with): every node of the second tree wins, nothing else changes
  SX_TOKENS; Tree a, b; int form = sx_param(0), m = sx_param(1); fill(a, m & 31, "a"); unsigned mb = 0; for (int i = 0; i < NK; i++) mb |= (unsigned)sx_choose(2, "m") << i; fill(b, mb, "b"); a.t.setString("", "root"); 
  bool ignoreEmpty = form == 1; if (form == 0) a.t.update(b.t); else if (form == 1) a.t.update(b.t, true, true); else a.t.update(b.t, true);
  for (int i = 0; i < NK; i++) { bool nb = node(b, i), na = node(a, i);
    sx_assert(a.t.doesKeyExist(K[i]) == (na || nb), "nodes of both trees, nothing else");
    if (b.has[i]) sx_assert(a.t.getInt(K[i]) == b.val[i], "the overriding tree's value"); else if (a.has[i] && (!nb || ignoreEmpty)) sx_assert(a.t.getInt(K[i]) == a.val[i], "a key that the overriding tree does not have keeps its value"); else if (nb || na) sx_assert(a.t.getString(K[i]) == "", "a node without value"); 
    if (b.has[i]) sx_assert(b.t.getInt(K[i]) == b.val[i], "the overriding tree is not changed"); else sx_assert(b.t.doesKeyExist(K[i]) == nb, "the overriding tree is not changed"); }
  sx_assert(missing(a.t, "b") && missing(a.t, "x") && missing(a.t, "c/x") && missing(a.t, "v") && missing(a.t, "w"), "no other nodes"); size_t top = 0; for (auto& c : ((const sm::PropertyTree&)a.t).getChildren()) { (void)c; top++; } sx_assert(top == (size_t)((node(a, 0) || node(b, 0)) + (node(a, 2) || node(b, 2)) + (a.has[4] || b.has[4])), "number of top-level nodes"); sx_assert(a.t.getString("") == (ignoreEmpty ? "root" : ""), "the root's own value"); sx_reach("end");
}
SX_ENTRY h_only() { // without creation: unknown keys are rejected, known ones are overridden
  SX_TOKENS; Tree a, b; bool ign = sx_param(0); fill(a, sx_param(1), "a"); unsigned mb = 0; for (int i = 0; i < NK; i++) mb |= (unsigned)sx_choose(2, "m") << i; fill(b, mb, "b"); bool th = false, unknown = false;
  for (int i = 0; i < NK; i++) if (ign ? b.has[i] && !node(a, i) : node(b, i) && !node(a, i)) unknown = true; if (!ign && (mb & 8) && !(a.has[3])) unknown = true;
  try { if (ign) a.t.update(b.t, false, true); else a.t.update(b.t, false); } catch (const sm::PropertyTree::KeyNotFoundException&) { th = true; } sx_assert(th == unknown, "rejected exactly when some key is unknown");
  for (int i = 0; i < NK; i++) { sx_assert(a.t.doesKeyExist(K[i]) == node(a, i), "no key is created"); if (th) { if (a.has[i] && !node(b, i)) sx_assert(a.t.getInt(K[i]) == a.val[i], "keys of the first tree only"); } else if (b.has[i]) sx_assert(a.t.getInt(K[i]) == b.val[i], "overridden"); else if (a.has[i] && (ign || !node(b, i))) sx_assert(a.t.getInt(K[i]) == a.val[i], "kept"); } sx_reach("end");
}
SX_ENTRY h_blank() { // ignored and not ignored empty updates
  SX_TOKENS; int n = sx_param(0); sm::BoostPropertyTree a, b; std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_u8("c")); bool blank = true; for (char c : s) blank &= (c == ' ') | (c == '\n') | (c == '\t') | (c == '\r'); bool ign = sx_param(1), create = sx_bool("create"); int v = (int)sx_u32("v"); a.setInt("k", v); a.setString("t/u", "old"); b.setString("k", s); b.setString("t/u", s); if (create) b.setString("new", s);
  a.update(b, create, ign); bool kept = ign && blank; if (kept) sx_assert(a.getInt("k") == v && a.getString("t/u") == "old", "empty updates are ignored"); else sx_assert(a.getString("k") == s && a.getString("t/u") == s, "updated"); if (create) { sx_assert(a.doesKeyExist("new") == !kept, "created unless ignored"); } else sx_assert(!a.doesKeyExist("new"), "not created"); sx_reach("end");
}
SX_ENTRY h_chain() { // the last of several overriding trees wins, copies of a tree share it
  SX_TOKENS; sm::BoostPropertyTree a, b, c; int v[3]; bool h[3]; sm::BoostPropertyTree* t[] = {&a, &b, &c}; for (int i = 0; i < 3; i++) { v[i] = (int)sx_u32("v"); h[i] = sx_choose(2, "h"); if (h[i]) t[i]->setInt("n/k", v[i]); t[i]->setInt(i == 0 ? "p" : i == 1 ? "q" : "n/r", i); }
  sm::BoostPropertyTree d(a); a.update(b); a.update(c); int w = h[2] ? 2 : h[1] ? 1 : 0; if (h[0] || h[1] || h[2]) sx_assert(a.getInt("n/k") == v[w], "last one wins"); else sx_assert(!a.doesKeyExist("n/k"), "nobody has it"); sx_assert(a.getInt("p") == 0 && a.getInt("q") == 1 && a.getInt("n/r") == 2, "union"); sx_assert(d.doesKeyExist("q"), "a copy refers to the same tree"); sm::BoostPropertyTree e(a); e.update(a); sx_assert(e.getInt("p") == 0 && a.getInt("n/r") == 2, "merging a tree with itself changes nothing"); sx_reach("end");
}
