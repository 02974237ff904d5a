// Objects saved to files and loaded from them (sm/boost/serialization.hpp); the archives themselves are stand-ins (shim_ar).
#include "sx.h"
#include <string>
#include <boost/filesystem.hpp>
#include "simfile.h"
#include <sm/boost/serialization.hpp>
namespace bs = sm::boost_serialization;
struct Part { int k = 0; double v = 0; template <class A> void serialize(A& ar, unsigned ver) { using boost::serialization::make_nvp; ar & make_nvp("k", k); if (ver >= 2) ar & make_nvp("v", v); } enum { CLASS_SERIALIZATION_VERSION = 2 }; };
SM_BOOST_CLASS_VERSION(Part)
struct Thing { uint64_t n = 0; bool b = false; Part p[2]; template <class A> void serialize(A& ar, unsigned) { using boost::serialization::make_nvp; ar & make_nvp("n", n); ar & make_nvp("b", b); ar & make_nvp("p0", p[0]); ar & make_nvp("p1", p[1]); } };
template <int I> struct C0 { enum { CLASS_SERIALIZATION_VERSION = 7 }; };
template <class A> struct C1 { enum { CLASS_SERIALIZATION_VERSION = 3 }; };
template <class A, class B> struct C2 { enum { CLASS_SERIALIZATION_VERSION = 4 }; };
template <class A, class B, class C> struct C3 { enum { CLASS_SERIALIZATION_VERSION = 5 }; };
template <class A, class B, class C, class D> struct C4 { enum { CLASS_SERIALIZATION_VERSION = 6 }; };
template <int I, class A> struct C5 { enum { CLASS_SERIALIZATION_VERSION = 8 }; };
SM_BOOST_CLASS_VERSION_I1(C0) SM_BOOST_CLASS_VERSION_T1(C1) SM_BOOST_CLASS_VERSION_T1T2(C2) SM_BOOST_CLASS_VERSION_T1T2T3(C3) SM_BOOST_CLASS_VERSION_T1T2T3T4(C4) SM_BOOST_CLASS_VERSION_I1T2(C5)
static Thing thing() { Thing t; t.n = sx_u64("n"); t.b = sx_u8("b") & 1; for (int i = 0; i < 2; i++) { t.p[i].k = (int)sx_u32("k"); t.p[i].v = sx_double("v"); } return t; }
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static bool same(const Thing& a, const Thing& b) { bool r = (a.n == b.n) & (a.b == b.b); for (int i = 0; i < 2; i++) r &= (a.p[i].k == b.p[i].k) & (bits(a.p[i].v) == bits(b.p[i].v)); return r; }
// formats: binary, text, XML with the usual name, with a given name, with an empty one
static const char* const TAG[] = {"", "", "object", "some_thing", ""};
static void save(int f, Thing& t, const std::string& p) { if (f == 0) bs::save(t, p); else if (f == 1) bs::save_txt(t, p); else if (f == 2) bs::save_xml(t, p); else bs::save_xml(t, TAG[f], p); }
static void load(int f, Thing& t, const std::string& p) { if (f == 0) bs::load(t, p); else if (f == 1) bs::load_txt(t, p); else if (f == 2) bs::load_xml(t, p); else bs::load_xml(t, TAG[f], p); }
template <class T> static int how(T f) { try { f(); } catch (const std::exception&) { return 1; } return 0; }
// params: format
SX_ENTRY h_round() { int f = sx_param(0); Thing a = thing(), b, o = a; std::string p = simPath("f"); save(f, a, p); sx_assert(same(a, o), "saving changes nothing"); load(f, b, p); sx_assert(same(a, b), "what is loaded is what was saved"); std::string d = simGet(p); if (f >= 2) sx_assert(d.compare(1, f == 3 ? 12 : 8, f == 3 ? "<some_thing>" : "<object>") == 0, "the top level has its name"); sx_reach("end"); }
// a file that held something longer, or an object that held something else
SX_ENTRY h_again() { int f = sx_param(0); Thing a = thing(), b, c = thing(); std::string p = simPath("f"), q = simPath("g"); simPut(p, std::string(200, 'z')); save(f, a, p); save(f, a, q); sx_assert(simGet(p) == simGet(q), "the file holds nothing else"); load(f, c, p); sx_assert(same(a, c), "nothing of the old object is left"); save(f, b, p); load(f, a, p); sx_assert(same(a, b), "the file is replaced"); load(f, a, q); sx_assert(same(a, c), "another file is not touched"); sx_reach("end"); }
// names of the top level; params: format saved, format loaded
SX_ENTRY h_names() { int f = sx_param(0), g = sx_param(1); Thing a = thing(), b; std::string p = simPath("f"); save(f, a, p); int r = how([&] { load(g, b, p); }); bool ok = f == g || (f >= 2 && g >= 2 && f != 3 && g != 3); sx_assert(r == !ok, "a file of another format or another name is refused"); if (ok) sx_assert(same(a, b), "what is loaded is what was saved"); sx_reach("end"); }
// params: format
SX_ENTRY h_missing() { int f = sx_param(0); Thing a = thing(), o = a; std::string p = simPath("f"); bool r = false; try { load(f, a, p); } catch (const std::runtime_error&) { r = true; } sx_assert(r, "a missing file is reported"); sx_assert(same(a, o), "and the object is unchanged"); simPut(p, ""); sx_assert(how([&] { load(f, a, p); }) == 1, "an empty file is refused"); sx_assert(same(a, o), "and the object is unchanged"); sx_reach("end"); }
// a device with too little room; params: format, room; 0: a cut file instead
SX_ENTRY h_full() { int f = sx_param(0); uint64_t room = (uint64_t)sx_param(1); Thing a = thing(), b; std::string p = simPath("f"); save(f, a, p); std::string d = simGet(p); if (room >= d.size()) { sx_reach("end"); return; } simPut(p, ""); simRoom(room); int r = how([&] { save(f, a, p); }); simRoom(~0ull); sx_assert(r == 1, "an incomplete save is reported"); sx_assert(how([&] { load(f, b, p); }) == 1, "an incomplete file is refused"); sx_reach("end"); }
SX_ENTRY h_versions() { using boost::serialization::version; int a = version<Part>::value, b = version<C0<3>>::value, c = version<C1<int>>::value, d = version<C2<int, char>>::value, e = version<C3<int, char, int>>::value, f = version<C4<int, char, int, char>>::value, g = version<C5<1, int>>::value; sx_assert(a == 2 && b == 7 && c == 3 && d == 4 && e == 5 && f == 6 && g == 8, "each class has its own version"); sx_reach("end"); }
