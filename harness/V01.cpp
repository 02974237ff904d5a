#include "sx.h"
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sm/BoostPropertyTree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include "numtok.h"
#ifdef SX_SYMBOLIC
extern "C" int sx_known(uint64_t);
#include <sstream>
// the text of a number is its token (numtok.h); natively the real std::to_string
template <class T> static std::string tok(T v) { static std::vector<std::pair<T, std::string>> seen; for (auto& p : seen) { uint64_t a = 0, b = 0; std::memcpy(&a, &p.first, sizeof v); std::memcpy(&b, &v, sizeof v); bool e = a == b; if (sx_known(e) && e) return p.second; } std::ostringstream o; o.precision(17); o << v; seen.emplace_back(v, o.str()); return o.str(); }
extern "C" __attribute__((used, noinline)) std::string sxmodel__ZNSt7__cxx119to_stringEi(int v) { return tok(v); }
extern "C" __attribute__((used, noinline)) std::string sxmodel__ZNSt7__cxx119to_stringEd(double v) { return tok(v); }
#endif
namespace {
using namespace sm::value_store;
typedef std::shared_ptr<ValueStore> P;
const char* K[] = {"k", "p/k", "p/q/k", "q/k", "p", "", "pp/k", "p/p/k", "q", "p/q"};
const int NK = sizeof(K) / sizeof(K[0]);
struct Entry { bool has; int i; double d; bool b; std::string s; };
struct Missing {};
template <class T> struct F;
template <> struct F<int> { static int& of(Entry& e) { return e.i; } };
template <> struct F<double> { static double& of(Entry& e) { return e.d; } };
template <> struct F<bool> { static bool& of(Entry& e) { return e.b; } };
template <> struct F<std::string> { static std::string& of(Entry& e) { return e.s; } };
template <class T> class H : public ValueHandleImpl<T> { Entry* e; public: H(Entry* e_) : e(e_) {} bool isUpdateable() const override { return true; } void update(T v) override { F<T>::of(*e) = v; } T get() const override { return F<T>::of(*e); } };
class Store : public ExtendibleValueStore { // a store whose contents are the symbolic input
 public:
  mutable Entry e[NK]; bool child; mutable int reads = 0;
  Store(bool child_) : child(child_) {}
  int at(const std::string& k) const { for (int i = 0; i < NK; i++) if (k == K[i]) return i; return -1; }
  template <class T> ValueHandle<T> get(const std::string& k, boost::optional<T> d) const { reads++; int i = at(k); if (i >= 0 && e[i].has) return ValueHandle<T>(new H<T>(&e[i])); if (d) return *d; throw Missing(); }
  ValueHandle<bool> getBool(const std::string& k, boost::optional<bool> d) const override { return get(k, d); }
  ValueHandle<int> getInt(const std::string& k, boost::optional<int> d) const override { return get(k, d); }
  ValueHandle<double> getDouble(const std::string& k, boost::optional<double> d) const override { return get(k, d); }
  ValueHandle<std::string> getString(const std::string& k, boost::optional<std::string> d) const override { return get(k, d); }
  bool hasKey(const std::string& k) const override { int i = at(k); return i >= 0 && e[i].has; }
  bool isChildSupported() const override { return child; }
  KeyValueStorePair getChild(const std::string& k) const override { if (!child) throw std::runtime_error("no children"); return KeyValueStorePair(k, P(new PrefixedValueStore(P(const_cast<Store*>(this), [](ValueStore*) {}), PrefixedValueStore::PrefixMode::ADD, k))); }
  std::vector<KeyValueStorePair> getChildren() const override { std::vector<KeyValueStorePair> r; for (int i : {4, 8}) if (e[i].has) r.push_back(getChild(K[i])); return r; }
  template <class T> ValueHandle<T> add(const std::string& k, T v) { int i = at(k); e[i].has = true; F<T>::of(e[i]) = v; return v; }
  ValueHandle<bool> addBool(const std::string& k, bool v) override { return add(k, v); }
  ValueHandle<int> addInt(const std::string& k, int v) override { return add(k, v); }
  ValueHandle<double> addDouble(const std::string& k, double v) override { return add(k, v); }
  ValueHandle<std::string> addString(const std::string& k, std::string v) override { return add(k, v); }
  ExtendibleKeyValueStorePair getExtendibleChild(const std::string& k) const override { return ExtendibleKeyValueStorePair(k, std::shared_ptr<ExtendibleValueStore>(const_cast<Store*>(this), [](ExtendibleValueStore*) {})); }
  std::vector<ExtendibleKeyValueStorePair> getExtendibleChildren() const override { std::vector<ExtendibleKeyValueStorePair> r; r.push_back(getExtendibleChild("p")); return r; }
};
std::shared_ptr<Store> make(unsigned keys, bool child = true) { // those keys may be there; all values arbitrary
  std::shared_ptr<Store> s(new Store(child)); for (int i = 0; i < NK; i++) { Entry& e = s->e[i]; e.has = (keys >> i & 1) ? sx_choose(2, "has") : false; e.i = e.b = 0; e.d = 0; if (!e.has) continue; e.i = (int)sx_u32("i"); e.d = sx_double("d"); sx_assume((e.d <= 1e300) & (e.d >= -1e300)); e.b = sx_bool("b"); e.s = std::string(2, 'x'); e.s[0] = (char)sx_u8("s"); e.s[1] = (char)sx_u8("s"); } return s; }
template <class T> T val(); template <> int val<int>() { return (int)sx_u32("v"); } template <> double val<double>() { double d = sx_double("v"); sx_assume((d <= 1e300) & (d >= -1e300)); return d; } template <> bool val<bool>() { return sx_bool("v"); } template <> std::string val<std::string>() { std::string s(2, 'y'); s[1] = (char)sx_u8("v"); return s; }
template <class T> ValueHandle<T> get(const ValueStore& s, const std::string& k) { return ValueStoreRef(const_cast<ValueStore&>(s)).get<T>(k); }
template <class T> ValueHandle<T> get(const ValueStore& s, const std::string& k, T d) { return ValueStoreRef(const_cast<ValueStore&>(s)).get<T>(k, boost::optional<T>(d)); }
template <class T> bool missing(const ValueStore& s, const std::string& k) { try { get<T>(s, k); } catch (const Missing&) { return true; } catch (const std::runtime_error&) { return true; } return false; }
template <class T> void expect(const ValueStore& s, const std::string& k, Entry* e) { // the store has exactly this entry under the key; null when it must not have it
  if (e && e->has) { sx_assert(s.hasKey(k), "existence"); ValueHandle<T> h = get<T>(s, k); sx_assert(h.get() == F<T>::of(*e), "the value"); sx_assert(get<T>(s, k, val<T>()).get() == F<T>::of(*e), "not the default"); sx_assert(h.isUpdateable(), "can be updated"); T v = val<T>(); h.update(v); sx_assert(F<T>::of(*e) == v, "updates the entry itself"); sx_assert(h.get() == v && get<T>(s, k).get() == v, "and is seen by readers"); }
  else { sx_assert(!s.hasKey(k), "nothing there"); sx_assert(missing<T>(s, k), "reading it throws"); }
}

template <class T> void dflt(const ValueStore& s, const std::string& k) { T d = val<T>(); sx_assert(get<T>(s, k, d).get() == d, "the default, where nothing is there"); }
template <class T> void layer() {
  int n = sx_param(1); std::vector<std::shared_ptr<Store>> L; LayeredValueStore ls; for (int i = 0; i < n; i++) { L.push_back(make(0x3)); if (i == 1) ls.add(P()); ls.add(P(L[i])); } std::vector<std::vector<Entry>> before; for (auto& l : L) before.emplace_back(l->e, l->e + NK);
  for (int k = 0; k < 3; k++) { int first = -1; for (int i = n; i-- > 0;) if (L[i]->e[k].has) first = i; expect<T>(ls, K[k], first < 0 ? nullptr : &L[first]->e[k]); if (first < 0) dflt<T>(ls, K[k]); for (int i = 0; i < n; i++) if (i != first) { sx_assert(L[i]->e[k].has == before[i][k].has && L[i]->e[k].i == before[i][k].i && L[i]->e[k].s == before[i][k].s && L[i]->e[k].b == before[i][k].b, "other layers are untouched"); } }
  sx_reach("end");
}

struct Pre { int add; const char *prefix, *key, *under; }; // under: the key read below, null when the key cannot be there
const Pre R[] = {{1, "p", "k", "p/k"}, {1, "p", "q/k", "p/q/k"}, {1, "p/q", "k", "p/q/k"}, {1, "p", "p/k", "p/p/k"}, {1, "p", "q", "p/q"}, {1, "p", "zz", "p/zz"}, {0, "p", "p/k", "k"}, {0, "p", "p/p/k", "p/k"}, {0, "p", "p/q/k", "q/k"}, {0, "p", "k", nullptr}, {0, "p", "pp/k", nullptr}, {0, "p", "q/p/k", nullptr}, {0, "p", "p", ""}, {0, "p", "", nullptr}, {0, "p", "px", nullptr},
  {0, "p/q", "p/q/k", "k"}, {0, "p/q", "p/k", nullptr}, {0, "p/q", "p/q/p/k", "p/k"}, {0, "p/q", "p", nullptr}, {0, "p/q", "p/q", ""}, {0, "p", "p/q", "q"}};
const int NR = sizeof(R) / sizeof(R[0]);
template <class T> void prefixed() { const Pre& r = R[sx_param(1)]; auto st = make(0x3ff & (sx_param(2) ? 0x2aa : 0x155)); PrefixedValueStore p(P(st), r.add ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, r.prefix); int i = r.under ? st->at(r.under) : -1;
  if (!r.under) { sx_assert(!p.hasKey(r.key), "cannot be there"); sx_assert(missing<T>(p, r.key), "reading throws"); dflt<T>(p, r.key); } else { { expect<T>(p, r.key, i < 0 ? nullptr : &st->e[i]); if (i < 0 || !st->e[i].has) dflt<T>(p, r.key); } } sx_reach("end"); }
const char* PX[] = {"p", "p/q", "q"};
template <class T> void children() { // a child reads under a key what the store itself reads under the composed key
  bool add = sx_param(1); const char* px = PX[sx_param(2)]; int comp = sx_param(3); auto st = make(comp & 1 ? 0x14f : 0x0c7, true); P s(new PrefixedValueStore(P(st), add ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, px));
  const char* C[][2] = {{"p", "k"}, {"p", "q/k"}, {"p/q", "k"}, {"q", "k"}, {"p", "p/k"}, {"p/p", "k"}, {"p/q", "p/k"}, {"p/q/p", "k"}, {"q", "p/k"}, {"q", "p/q/k"}, {"q/p", "k"}, {"q/p", "q/k"}, {"pp", "k"}, {"k", "k"}}; int lo = comp >> 1;
  for (int c = lo; c < lo + 3 && c < 14; c++) { ValueStoreRef ch = ValueStoreRef(s).getChild(C[c][0]); std::string full = std::string(C[c][0]) + "/" + C[c][1]; bool h = s->hasKey(full); sx_assert(ch.hasKey(C[c][1]) == h, "the child has the key"); if (h) { sx_assert(ch.get<T>(C[c][1]).get() == get<T>(*s, full).get(), "with the same value"); T v = val<T>(); ch.get<T>(C[c][1]).update(v); sx_assert(get<T>(*s, full).get() == v, "shared"); } else sx_assert(missing<T>(ch.getValueStore(), C[c][1]), "reading throws");
    const char* D = std::strchr(C[c][1], '/'); if (D) { std::string k1(C[c][1], D - C[c][1]); ValueStoreRef g = ch.getChild(k1); sx_assert(g.hasKey(D + 1) == h, "grandchild"); if (h) sx_assert(g.get<T>(D + 1).get() == get<T>(*s, full).get(), "with the same value"); } } sx_reach("end"); }
template <class T> void layerChildren() { int n = sx_param(1), sup = sx_param(2), both = sup & 8; sup &= 7; std::vector<std::shared_ptr<Store>> L; std::shared_ptr<LayeredValueStore> ls(new LayeredValueStore); for (int i = 0; i < n; i++) { L.push_back(make(both ? 0x11a : i ? 0x306 : 0x316, !(sup >> i & 1))); ls->add(P(L[i])); }
  ValueStoreRef r((P(ls))); sx_assert(ls->isChildSupported() == (sup == 0), "children when every layer has them"); const char* C[][2] = {{"p", "k"}, {"p", "q/k"}, {"p/q", "k"}, {"q", "k"}};
  for (auto& c : C) { std::string full = std::string(c[0]) + "/" + c[1]; ValueStoreRef ch = r.getChild(c[0]); bool h = r.hasKey(full); sx_assert(ch.hasKey(c[1]) == h, "the child has the key"); if (h) sx_assert(ch.get<T>(c[1]).get() == r.get<T>(full).get(), "with the same value"); else { sx_assert(missing<T>(ch.getValueStore(), c[1]), "reading throws"); T d = val<T>(); if (n) sx_assert(ch.get<T>(c[1], d).get() == d, "default"); } }
  if (!sup) { bool want[2] = {}; for (auto& l : L) { want[0] |= l->e[4].has; want[1] |= l->e[8].has; } auto cs = ls->getChildren(); int seen[2] = {}; sx_assert((int)cs.size() == want[0] + want[1], "every child once"); for (auto& c : cs) { bool isP = c.getKey() == "p"; sx_assert(isP || c.getKey() == "q", "its name"); seen[!isP]++; int first = -1; for (int i = n; i-- > 0;) if (L[i]->e[isP ? 4 : 8].has && L[i]->e[isP ? 1 : 3].has) first = i; sx_assert(c.hasKey("k") == (first >= 0), "keys of the listed child"); if (first >= 0) sx_assert(c.get<T>("k").get() == F<T>::of(L[first]->e[isP ? 1 : 3]), "first layer having it"); } sx_assert(seen[0] == want[0] && seen[1] == want[1], "the children of all layers"); }
  sx_reach("end"); }
template <class T> const char* nm(); template <> const char* nm<int>() { return "Int"; } template <> const char* nm<double>() { return "Double"; } template <> const char* nm<bool>() { return "Bool"; } template <> const char* nm<std::string>() { return "String"; }
std::string show(int v) { return std::to_string(v); } std::string show(bool v) { return std::to_string(v); } std::string show(double v) { return std::to_string(v); } std::string show(const std::string& v) { return "\"" + v + "\""; }
template <class T> void verbose() { auto st = make(0x107); std::vector<std::string> log; auto lg = [&log](const std::string& s) { log.push_back(s); }; VerboseValueStore v(P(st), lg); VerboseExtendibleValueStore x(std::shared_ptr<ExtendibleValueStore>(st), lg);
  sx_assert(v.isChildSupported() && v.getUnderlyingValueStore() == P(st), "same store");
  for (int w = 0; w < 2; w++) for (int k = 0; k < 4; k++) { const ValueStore& s = w ? (const ValueStore&)x : (const ValueStore&)v; log.clear(); std::string key = K[k]; bool h = st->e[k].has; sx_assert(s.hasKey(key) == h, "existence"); sx_assert(log.size() == 1 && log[0] == "hasKey(\"" + key + "\")->" + (h ? "1" : "0"), "logged once"); log.clear(); T d = val<T>(); st->reads = 0; T r = get<T>(s, key, d).get(); sx_assert(r == (h ? F<T>::of(st->e[k]) : d), "value or default"); sx_assert(log.size() == 1 && log[0] == std::string("get") + nm<T>() + "(\"" + key + "\")->" + (h ? "" : "DEFAULT:") + show(r), "logged once with its value"); sx_assert(st->reads == 1, "reads the store once");
    log.clear(); if (h) { ValueHandle<T> hd = get<T>(s, key); sx_assert(hd.get() == r, "value"); sx_assert(log.size() == 1 && log[0] == std::string("get") + nm<T>() + "(\"" + key + "\")->" + show(r), "logged once"); T n = val<T>(); hd.update(n); sx_assert(F<T>::of(st->e[k]) == n, "handle of the wrapped store"); } else { sx_assert(missing<T>(s, key), "throws as the store does"); sx_assert(log.empty(), "nothing read, nothing logged"); } }
  log.clear(); ValueStoreRef c = ValueStoreRef(v).getChild("p"); sx_assert(log.size() == 1 && log[0] == "getChild(p)", "logged"); log.clear(); bool h = st->e[1].has; sx_assert(c.hasKey("k") == h, "child"); sx_assert(log.size() == 1 && log[0] == std::string("child(p):hasKey(\"k\")->") + (h ? "1" : "0"), "logged with its path"); if (h) sx_assert(c.get<T>("k").get() == F<T>::of(st->e[1]), "child value");
  auto cs = v.getChildren(); sx_assert(cs.size() == (st->e[8].has ? 1u : 0u), "same children"); if (cs.size()) { sx_assert(cs[0].getKey() == "q", "same names"); }
  sx_reach("end"); }

template <class T> ValueHandle<T> addTo(const ExtendibleValueStoreRef& r, const std::string& k, T v); template <> ValueHandle<int> addTo(const ExtendibleValueStoreRef& r, const std::string& k, int v) { return r.addInt(k, v); } template <> ValueHandle<double> addTo(const ExtendibleValueStoreRef& r, const std::string& k, double v) { return r.addDouble(k, v); } template <> ValueHandle<bool> addTo(const ExtendibleValueStoreRef& r, const std::string& k, bool v) { return r.addBool(k, v); } template <> ValueHandle<std::string> addTo(const ExtendibleValueStoreRef& r, const std::string& k, std::string v) { return r.addString(k, v); }
template <class T> void extend() { // adding through an extendible store, and through a verbose one
  auto st = make(0x3); std::vector<std::string> log; std::shared_ptr<ExtendibleValueStore> x(new VerboseExtendibleValueStore(std::shared_ptr<ExtendibleValueStore>(st), [&log](const std::string& s) { log.push_back(s); })); ExtendibleValueStoreRef r(x); T n = val<T>(); sx_assert(addTo<T>(r, "k", n).get() == n, "initial value"); sx_assert(log.size() == 1 && log[0] == std::string("add") + nm<T>() + "(\"k\")->INITIAL:" + show(n), "logged once"); sx_assert(st->e[0].has && F<T>::of(st->e[0]) == n, "added below"); sx_assert(r.get<T>("k").get() == n, "and readable"); log.clear(); ExtendibleValueStoreRef c = r.getExtendibleChild("p"); sx_assert(log.size() == 1 && log[0] == "getExtendibleChild(p)", "logged"); log.clear(); T m = val<T>(); addTo<T>(c, "q/k", m); sx_assert(log.size() == 1 && log[0] == std::string("EC(p):add") + nm<T>() + "(\"q/k\")->INITIAL:" + show(m), "logged with its path"); sx_assert(st->e[3].has && F<T>::of(st->e[3]) == m, "added below"); sx_assert(r.getExtendibleChildren().size() == 1, "same children");
  sx_assert(ValueStoreRef(P(st)).isExtendible() && !ValueStoreRef(P(new LayeredValueStore)).isExtendible() && !ValueStoreRef(P(new VerboseValueStore(P(st), [](const std::string&) {}))).isExtendible(), "extendible stores"); ExtendibleValueStoreRef e = ValueStoreRef(P(st)).asExtendible(); T q = val<T>(); addTo<T>(e, "q", q); sx_assert(st->e[8].has && F<T>::of(st->e[8]) == q, "the same store"); bool th = false; try { ValueStoreRef(P(new LayeredValueStore)).asExtendible(); } catch (const std::runtime_error&) { th = true; } sx_assert(th, "refused otherwise"); th = false; try { ValueStoreRef bad{P()}; } catch (const std::runtime_error&) { th = true; } sx_assert(th, "null store refused"); sx_reach("end"); }
template <class T> void set(sm::PropertyTree& t, const std::string& k, T v); template <> void set(sm::PropertyTree& t, const std::string& k, int v) { t.setInt(k, v); } template <> void set(sm::PropertyTree& t, const std::string& k, double v) { t.setDouble(k, v); } template <> void set(sm::PropertyTree& t, const std::string& k, bool v) { t.setBool(k, v); } template <> void set(sm::PropertyTree& t, const std::string& k, std::string v) { t.setString(k, v); }
template <class T> T look(const sm::ConstPropertyTree& t, const std::string& k); template <> int look(const sm::ConstPropertyTree& t, const std::string& k) { return t.getInt(k); } template <> double look(const sm::ConstPropertyTree& t, const std::string& k) { return t.getDouble(k); } template <> bool look(const sm::ConstPropertyTree& t, const std::string& k) { return t.getBool(k); } template <> std::string look(const sm::ConstPropertyTree& t, const std::string& k) { return t.getString(k); }
template <class T> T lookd(const sm::ConstPropertyTree& t, const std::string& k, T d); template <> int lookd(const sm::ConstPropertyTree& t, const std::string& k, int d) { return t.getInt(k, d); } template <> double lookd(const sm::ConstPropertyTree& t, const std::string& k, double d) { return t.getDouble(k, d); } template <> bool lookd(const sm::ConstPropertyTree& t, const std::string& k, bool d) { return t.getBool(k, d); } template <> std::string lookd(const sm::ConstPropertyTree& t, const std::string& k, std::string d) { return t.getString(k, d); }
template <class T> T tv() { return val<T>(); } template <> bool tv<bool>() { static bool b = sx_bool("v"); static int n = 0; return b ^ (0xb4d2 >> (n++ & 15) & 1); } // one truth value and its opposite, in turns
template <class T> void tree() { // a property tree as a store: the same values, live, and new ones through it
  sm::BoostPropertyTree pt; ExtendibleValueStoreRef r(pt); sx_assert(r.isEmpty(), "an empty tree"); const char* KK[] = {"k", "p/k", "p/q/k", "q.r"}; unsigned m = sx_param(1); T v[4]; for (int i = 0; i < 4; i++) if (m >> i & 1) { v[i] = tv<T>(); set<T>(pt, KK[i], v[i]); } sx_assert(r.isEmpty() == (m == 0), "empty exactly when nothing is there");
  for (int i = 0; i < 4; i++) { bool h = m >> i & 1; sx_assert(r.hasKey(KK[i]) == h, "existence"); T d = tv<T>(), n = tv<T>(), n2 = tv<T>(), n3 = tv<T>();
    if (h) { sx_assert(r.get<T>(KK[i], d).get() == v[i], "not the default"); ValueHandle<T> hd = r.get<T>(KK[i]); sx_assert(hd.get() == v[i] && hd.isUpdateable(), "value"); set<T>(pt, KK[i], n); sx_assert(hd.get() == n, "handles are live"); hd.update(n2); sx_assert(look<T>(pt, KK[i]) == n2 && r.get<T>(KK[i]).get() == n2, "updates write through"); addTo<T>(r, KK[i], n3); sx_assert(hd.get() == n3 && look<T>(pt, KK[i]) == n3, "re-adding sets"); }
    else { sx_assert(missing<T>(r.getValueStore(), KK[i]), "missing throws"); sx_assert(r.get<T>(KK[i], d).get() == d, "default"); sx_assert(!r.hasKey(KK[i]), "and is not recorded"); sx_assert(addTo<T>(r, KK[i], n).get() == n && look<T>(pt, KK[i]) == n, "added"); sx_assert(r.get<T>(KK[i]).get() == n, "and readable"); } }
  sx_assert(!r.isEmpty(), "not empty"); ExtendibleValueStoreRef c = r.getExtendibleChild("p"); T n = tv<T>(); sx_assert(c.get<T>("k").get() == look<T>(pt, "p/k") && r.getChild("p").get<T>("q/k").get() == look<T>(pt, "p/q/k"), "children"); sx_assert(c.hasKey("k") && !c.hasKey("p/k"), "inside the child"); addTo<T>(c, "new", n); sx_assert(look<T>(pt, "p/new") == n, "added inside the parent"); ValueHandle<T> hd = c.get<T>("k"); hd.update(n); sx_assert(look<T>(pt, "p/k") == n, "live inside the parent");
  auto cs = r.getChildren(); auto es = r.getExtendibleChildren(); sx_assert(cs.size() == 3 && es.size() == 3, "every child"); for (int i = 0; i < 3; i++) { sx_assert(cs[i].getKey() == es[i].getKey(), "same names"); if (cs[i].getKey() == "p") sx_assert(cs[i].get<T>("q/k").get() == look<T>(pt, "p/q/k") && es[i].get<T>("k").get() == n, "their values"); else sx_assert(cs[i].get<T>("").get() == look<T>(pt, cs[i].getKey()), "their values"); }
  sx_assert(r.canSave() && !ValueStoreRef(P(new LayeredValueStore)).canSave(), "savable"); sx_reach("end"); }
template <class T> void asTree() { auto st = make(0x107, sx_param(1)); sm::ConstPropertyTree t = ValueStoreRef(P(st)).asPropertyTree(); for (int k : {0, 1, 2, 8, 3}) { T d = val<T>(); std::string key = K[k]; bool h = st->e[k].has; sx_assert(t.doesKeyExist(key) == h, "existence"); sx_assert(lookd<T>(t, key, d) == (h ? F<T>::of(st->e[k]) : d), "value or default"); if (h) { sx_assert(look<T>(t, key) == F<T>::of(st->e[k]) && look<T>(t, "/" + key) == F<T>::of(st->e[k]), "value"); } else { bool th = false; try { look<T>(t, key); } catch (const Missing&) { th = true; } sx_assert(th, "throws as the store does"); } }
  sm::ConstPropertyTree c(t, "p"); sx_assert(c.doesKeyExist("k") == st->e[1].has, "below a namespace"); if (st->e[1].has) sx_assert(look<T>(c, "k") == F<T>::of(st->e[1]), "below a namespace"); sx_reach("end"); }
template <class T> void paths() { // alternatives, with alerts for the deprecated ones
  auto st = make(0x10f); ValueStoreRef r((P(st))); std::vector<std::pair<std::string, std::string>> al; auto hd = [&al](std::string p, std::string a) { al.emplace_back(p, a); }; bool* has[4]; (void)has; bool k = st->e[0].has, pk = st->e[1].has, pqk = st->e[2].has, qk = st->e[3].has, q = st->e[8].has; T d = val<T>(); int w = sx_param(1); std::vector<std::string> L; const Entry* want = nullptr; std::string alerted, arg; bool al1 = false;
  auto pick = [&](int i, bool alert, const char* a) { if (!want && st->e[i].has) { want = &st->e[i]; if (alert) { al1 = true; alerted = K[i]; arg = a; } } };
  if (w == 0) { L = {"k", "p/k", "q/k"}; pick(0, false, ""); pick(1, false, ""); pick(3, false, ""); }
  if (w == 1) { L = {"k", "!p/k", "q/k", "q"}; pick(0, false, ""); pick(1, true, "q/k"); pick(8, false, ""); } // "q/k" is the argument, not a path
  if (w == 2) { L = {"k", "!p/k", "use k", "!p/q/k", "q/k"}; pick(0, false, ""); pick(1, true, "use k"); pick(2, true, "q/k"); }
  if (w == 3) { L = {"k", "p/k", "!q/k"}; pick(0, false, ""); pick(1, false, ""); pick(3, true, "Property name 'q/k' is deprecated! Use k instead."); }
  if (w == 4) { L = {"k"}; pick(0, false, ""); }
  ValueHandle<T> h = r.get<T>(L, boost::optional<T>(d), hd); sx_assert(h.get() == (want ? F<T>::of(*const_cast<Entry*>(want)) : d), "first alternative there, else the default"); sx_assert(al.size() == (al1 ? 1u : 0u), "one alert, for a deprecated path in use"); if (al1) sx_assert(al[0].first == alerted && al[0].second == arg, "with its path and argument"); al.clear();
  if (!want) { bool th = false; try { r.get<T>(L, boost::optional<T>(), hd); } catch (const Missing&) { th = true; } sx_assert(th && al.empty(), "throws when none is there"); } else { ValueHandle<T> g = r.get<T>(L, boost::optional<T>(), hd); T n = val<T>(); g.update(n); sx_assert(F<T>::of(*const_cast<Entry*>(want)) == n, "its handle"); } (void)k; (void)pk; (void)pqk; (void)qk; (void)q; sx_reach("end"); }
template <class T> void compose() { // two deep: each key resolves to the entry the composition means
  int w = sx_param(1); auto A = make(0x0003), B = make(0x0003); P a(A), b(B); typedef PrefixedValueStore PV; P s; struct { const char* k; Entry* e1; Entry* e2; } Q[6]; int n = 0; auto q = [&](const char* k, Entry* e1, Entry* e2) { Q[n++] = {k, e1, e2}; }; auto E = [](std::shared_ptr<Store>& s, const char* k) { return &s->e[s->at(k)]; }; std::vector<std::string> log; auto lg = [&](const std::string& t) { log.push_back(t); }; P lay(new LayeredValueStore(a, b));
  switch (w) {
    case 0: s = P(new LayeredValueStore(P(new PV(a, PV::PrefixMode::REMOVE, "p")), b)); q("k", nullptr, E(B, "k")); q("p/k", E(A, "k"), E(B, "p/k")); q("p/p/k", E(A, "p/k"), nullptr); break;
    case 10: s = P(new LayeredValueStore(b, P(new PV(a, PV::PrefixMode::REMOVE, "p")))); q("k", E(B, "k"), nullptr); q("p/k", E(B, "p/k"), E(A, "k")); q("p/p/k", E(A, "p/k"), nullptr); break;
    case 1: s = P(new LayeredValueStore(a, P(new PV(b, PV::PrefixMode::ADD, "p")))); q("k", E(A, "k"), E(B, "p/k")); q("p/k", E(A, "p/k"), nullptr); break;
    case 2: s = P(new PV(lay, PV::PrefixMode::ADD, "p")); q("k", E(A, "p/k"), E(B, "p/k")); q("p/k", nullptr, nullptr); break;
    case 3: s = P(new PV(lay, PV::PrefixMode::REMOVE, "p")); q("k", nullptr, nullptr); q("p/k", E(A, "k"), E(B, "k")); q("p/p/k", E(A, "p/k"), E(B, "p/k")); break;
    case 4: s = P(new VerboseValueStore(lay, lg)); q("k", E(A, "k"), E(B, "k")); q("p/k", E(A, "p/k"), E(B, "p/k")); q("zz", nullptr, nullptr); break;
    case 5: s = P(new LayeredValueStore(P(new VerboseValueStore(a, lg)), lay)); q("k", E(A, "k"), E(B, "k")); q("p/k", E(A, "p/k"), E(B, "p/k")); break;
    case 6: s = P(new PV(P(new PV(a, PV::PrefixMode::ADD, "p")), PV::PrefixMode::REMOVE, "x")); q("k", nullptr, nullptr); q("x/k", E(A, "p/k"), nullptr); q("x/p/k", nullptr, nullptr); break;
    case 7: s = P(new PV(P(new PV(a, PV::PrefixMode::REMOVE, "x")), PV::PrefixMode::ADD, "x/p")); q("k", E(A, "p/k"), nullptr); q("p/k", nullptr, nullptr); break;
    case 8: s = P(new LayeredValueStore(P(new LayeredValueStore(a)), P(), P(new LayeredValueStore(b)))); q("k", E(A, "k"), E(B, "k")); q("p/k", E(A, "p/k"), E(B, "p/k")); q("zz", nullptr, nullptr); break;
    default: s = P(new PV(P(new VerboseValueStore(a, lg)), PV::PrefixMode::ADD, "p")); q("k", E(A, "p/k"), nullptr); q("p/k", nullptr, nullptr); break; }
  for (int i = 0; i < n; i++) { Entry* e = Q[i].e1 && Q[i].e1->has ? Q[i].e1 : Q[i].e2 && Q[i].e2->has ? Q[i].e2 : nullptr; log.clear(); sx_assert(s->hasKey(Q[i].k) == (e != nullptr), "existence"); expect<T>(*s, Q[i].k, e); if (!e) dflt<T>(*s, Q[i].k); }
  sx_reach("end"); }
}
#define BY(f) switch (sx_param(0)) { case 0: return f<int>(); case 1: return f<double>(); case 2: return f<bool>(); default: return f<std::string>(); }
SX_ENTRY h_layer() { SX_TOKENS; BY(layer) }
SX_ENTRY h_prefixed() { SX_TOKENS; BY(prefixed) }
SX_ENTRY h_children() { SX_TOKENS; BY(children) }
SX_ENTRY h_layer_children() { SX_TOKENS; BY(layerChildren) }
SX_ENTRY h_verbose() { SX_TOKENS; BY(verbose) }
SX_ENTRY h_extend() { SX_TOKENS; BY(extend) }
SX_ENTRY h_tree() { SX_TOKENS; BY(tree) }
SX_ENTRY h_as_tree() { SX_TOKENS; BY(asTree) }
SX_ENTRY h_paths() { SX_TOKENS; BY(paths) }
SX_ENTRY h_compose() { SX_TOKENS; BY(compose) }
