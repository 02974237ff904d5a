#include <boost/thread/sxthread.hpp>
