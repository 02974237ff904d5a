// Value stores made from texts and files, and saved to files.
#include "sx.h"
#include <string>
#include <vector>
#include <utility>
#include <sm/BoostPropertyTree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include "simfs.h"
namespace {
using namespace sm::value_store;
typedef std::vector<std::pair<std::string, std::string>> Leaves;
std::string R;
char chr(const char* n) { uint8_t c = sx_u8(n); sx_assume(((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '.') | (c == '_') | (c == '-')); return (char)c; }
std::string value(int n) { std::string v; for (int i = 0; i < n; i++) v.push_back(chr("v")); return v; }
const char* const EXT[] = {"info", "json", "xml", "ini"};
const char* const KEYS[] = {"a", "s/b", "s/c", "t/d"};
int count(const ValueStoreRef& r) { int n = 0; for (auto& c : r.getChildren()) { int m = count(c); n += m ? m : 1; } return n; }
void check(const ValueStoreRef& r, const Leaves& l) { sx_assert(r.isEmpty() == l.empty(), "empty when there is nothing"); for (auto& e : l) { sx_assert(r.hasKey(e.first), "every key is there"); sx_assert(r.getString(e.first).get() == e.second && r.getString(e.first, std::string("zz")).get() == e.second, "with its value"); } sx_assert(count(r) == (int)l.size(), "and nothing else"); sx_assert(!r.hasKey("zz") && r.getString("zz", std::string("d")).get() == "d", "other keys are not there"); }
Leaves leaves(unsigned mask, unsigned arb) { static const char* const V[] = {"1.5", "true", "xy", "-3"}; Leaves l; for (int i = 0; i < 4; i++) if (mask >> i & 1) l.emplace_back(KEYS[i], arb >> i & 1 ? value(2) : V[i]); return l; }
void fill(sm::BoostPropertyTree& t, const Leaves& l) { for (auto& e : l) t.setString(e.first, e.second); }
template <class T> bool throws(T f) { try { f(); } catch (const std::exception&) { return true; } return false; }
}
// a text; params: keys, arbitrary ones
SX_ENTRY h_string() { Leaves l = leaves(sx_param(0), sx_param(1)); std::string s; for (auto& e : l) { size_t p = e.first.find('/'); if (!s.empty()) s += ","; if (p == std::string::npos) s += e.first + "=" + e.second; else s += e.first.substr(0, p) + "{" + e.first.substr(p + 1) + "=" + e.second + "}"; } check(ValueStoreRef::fromString(s), l); ExtendibleValueStoreRef r = ExtendibleValueStoreRef::fromString(s); check(r, l); std::string v = value(1); r.addString("n/m", v); l.emplace_back("n/m", v); check(r, l); sx_assert(ValueStoreRef::fromString(s).canSave(), "it can be saved"); sx_reach("end"); }
// a file, changed and saved under another name; params: format read, format written, keys, arbitrary ones
SX_ENTRY h_file() {
  R = fsRoot(); std::string p = R + "/x." + EXT[sx_param(0)], q = R + "/y." + EXT[sx_param(1)]; Leaves l = leaves(sx_param(2), sx_param(3)); sm::BoostPropertyTree t; fill(t, l); t.save(p); std::string old = fsGet(p);
  ValueStoreRef r = ValueStoreRef::fromFile(p); check(r, l); ExtendibleValueStoreRef x = ExtendibleValueStoreRef::fromFile(p); check(x, l);
  std::string v = value(1), w = value(1); if (!l.empty()) { r.getString(l[0].first).update(v); } sx_assert(r.canSave() && x.canSave(), "both can be saved"); Leaves m = l; if (!l.empty()) m[0].second = v; r.saveTo(q); check(r, m); check(ValueStoreRef::fromFile(q), m); check(x, l);
  x.addString("s/n", w); m = l; m.emplace_back("s/n", w); x.saveTo(q); check(ExtendibleValueStoreRef::fromFile(q), m); sx_assert(fsGet(p) == old, "the file read is not touched");
  x.saveTo(p); check(ValueStoreRef::fromFile(p), m); check(ExtendibleValueStoreRef::fromFile(p), m); if (!l.empty()) m[0].second = v; m.pop_back(); r.saveTo(q); check(ExtendibleValueStoreRef::fromFile(q), m); sx_reach("end"); // a file that is replaced is read anew
}
// what cannot be saved or loaded is refused
SX_ENTRY h_refused() {
  R = fsRoot(); int k = sx_param(0); std::string p = R + "/x.json"; sm::BoostPropertyTree t; t.setString("a", value(1)); ValueStoreRef r(t); std::string q = R + "/y." + value(1); // no format has such a short name
  if (k == 0) sx_assert(throws([&] { r.saveTo(q); }), "a name without a known extension is refused"); if (k == 1) sx_assert(throws([&] { ValueStoreRef::fromFile(p); }) && throws([&] { ExtendibleValueStoreRef::fromFile(p); }), "a file that is not there is refused");
  if (k == 2) { fsPut(q, "{}"); sx_assert(throws([&] { ValueStoreRef::fromFile(q); }) && throws([&] { ExtendibleValueStoreRef::fromFile(q); }), "a file without a known extension is refused"); }
  if (k > 2) { std::shared_ptr<ValueStore> s = r.getValueStoreSharedPtr(), u; if (k == 3) u.reset(new LayeredValueStore{s}); if (k == 4) u.reset(new PrefixedValueStore(s, PrefixedValueStore::PrefixMode::ADD, "p")); if (k == 5) u.reset(new VerboseValueStore(s, [](const std::string&) {})); ValueStoreRef o(u); sx_assert(!o.canSave() && throws([&] { o.saveTo(p); }), "a store that is no tree cannot be saved"); sx_assert(throws([&] { fsGet(p); }) || fsGet(p).empty(), "and nothing is written"); }
  sx_assert(r.canSave() && r.getString("a").get().size() == 1, "the store itself is unchanged"); sx_reach("end");
}
// a fresh reference is an empty store of its own
SX_ENTRY h_fresh() { ExtendibleValueStoreRef a, b; check(a, {}); std::string v = value(2); a.addString("s/b", v); check(a, {{"s/b", v}}); check(b, {}); ValueStoreRef c; check(c, {}); sx_assert(a.isExtendible() && c.canSave() && (bool)c, "it can be extended and saved"); ExtendibleValueStoreRef d = ValueStoreRef(a).asExtendible(); d.addString("a", v); check(a, {{"s/b", v}, {"a", v}}); sx_reach("end"); }
