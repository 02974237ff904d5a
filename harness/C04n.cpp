#define NDEBUG 1
#undef SM_ALWAYS_ASSERT
#define NS release
#define FILE_ "C04.h"
#define ACTIVE false
#define THROWS false
#define M(x) x##_DBG
#define THROW_ SM_THROW_DBG
#include "C04.h"
SX_ENTRY h_release() { c04::release::all(); }
