// checked macros
#undef NDEBUG
#undef SM_ALWAYS_ASSERT
#undef ALWAYS_ASSERT
#define NS plain
#define FILE_ "C04.h"
#define ACTIVE true
#define THROWS true
#define M(x) x
#define THROW_ SM_THROW
#include "C04.h"
SX_ENTRY h_plain() { c04::plain::all(); }
SX_ENTRY h_null() { using namespace c04::plain; SX_OPAQUE; bool c = sx_bool("c"); int x = 1; int* p = c ? &x : nullptr; bool th = false; try { SM_ASSERT_NULL(Boom, p, "note"); } catch (const Boom&) { th = true; } sx_assert(th == c, "SM_ASSERT_NULL"); sx_reach("end"); }
SX_ENTRY h_throw() { // location objects and the function form
  using namespace c04::plain; bool c = sx_bool("c"), th = false; try { sm::sm_assert_throw<Boom>(c, "note", SM_SOURCE_FILE_POS); } catch (const Boom& e) { th = true; std::string s(e.what()); sx_assert(s.find("C04.cpp:") != std::string::npos && s.find("h_throw()") != std::string::npos && s.size() > 4 && s.compare(s.size() - 4, 4, "note") == 0, "message"); } sx_assert(th == !c, "sm_assert_throw");
  sm::source_file_pos p("fn", "some/file.cpp", 42); sx_assert(p.toString() == "some/file.cpp:42: fn()", "location text"); sx_assert((std::string)p == p.toString(), "conversion"); std::ostringstream o; o << p; sx_assert(o.str() == p.toString(), "printed location"); bool t2 = false; try { SM_THROW_SFP(Boom, p, "no" << "te"); } catch (const Boom& e) { t2 = true; sx_assert(std::string(e.what()).find("some/file.cpp:42: fn()") != std::string::npos, "given location"); } sx_assert(t2, "throws"); sx_reach("end"); }
