#ifndef SX_SYMBOLIC
#include_next <boost/filesystem.hpp>
#else
#include <boost/filesystem/path.hpp>
#endif
