#define NDEBUG 1
#define SM_ALWAYS_ASSERT
#define NS always
#define FILE_ "C04.h"
#define ACTIVE true
#define THROWS true
#define M(x) x##_DBG
#define THROW_ SM_THROW_DBG
#include "C04.h"
SX_ENTRY h_always() { c04::always::all(); }
