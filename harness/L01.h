// Logging: a capturing logger and call sites for every macro.
#pragma once
#include "sx.h"
#include <sm/logging.hpp>
#include <sm/logging/StdOutLogger.hpp>
#include <cstring>
using namespace sm::logging;
extern "C" int sxth_spurious;
struct Ev { int level; std::string stream, message, file, function, time; int line; };
struct Cap : Logger {
  std::vector<Ev> ev; int64_t us; int bad, inside, mode; // mode 1 std exception, 2 other exception, 3 logs itself
  Cap() : us(1000000), bad(0), inside(0), mode(0) {}
  Time currentTimeImplementation() const override { return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds(us))); }
  void logImplementation(const LoggingEvent& e) override;
};
static const char* const NAMES[11] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
