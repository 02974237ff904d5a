#ifndef SX_SYMBOLIC
#include_next <boost/filesystem/operations.hpp>
#else
#include <boost/filesystem/path.hpp>
#endif
