// Harness interface: symbolic inputs and assertions. Implemented by the executor
// (symbolically) and by rt/native.cpp (replay of one concrete assignment).
#pragma once
#include <stdint.h>
extern "C" {
uint8_t sx_u8(const char*); uint16_t sx_u16(const char*); uint32_t sx_u32(const char*); uint64_t sx_u64(const char*);
bool sx_bool(const char*); double sx_double(const char*); float sx_float(const char*);
void sx_assume(bool); void sx_assume_eq(double, double); /* tolerant on replay */ void sx_assert(bool, const char*);
void sx_assert_eq(double, double, const char*);                 // exact in real arithmetic; relative 1e-6 on replay
void sx_assert_near(double, double, double tol, const char*);
void sx_assert_finite(double, const char*);
double sx_d(double y, double x);                                  // symbolic derivative (executor only)
unsigned sx_choose(unsigned n, const char*);                    // one path per value
void sx_reach(const char*);                                     // reachability witness
long sx_param(int);                                             // harness parameter
uint64_t sx_concrete(uint64_t);                                 // one path per feasible value
int sx_is_symbolic();
void sx_end();
void sx_hang_ok();
void sx_trace(const char*, uint64_t);
// cooperative threads
int sx_thread_create(void (*)(void*), void*); void sx_yield(); int sx_tid(); int sx_thread_done(int);
void sx_block(const void*); void sx_wake_all(const void*); void sx_wake_one(const void*); void sx_watch(const void*, uint64_t);
}
#define SX_ENTRY extern "C" __attribute__((noinline, used)) void
