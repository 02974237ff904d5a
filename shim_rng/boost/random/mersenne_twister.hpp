// Stand-in for the Mersenne twister: a generator whose n-th output after seeding is an
// arbitrary function of the seed and n (the harness supplies sxr_draw).
#pragma once
#include <boost/cstdint.hpp>
extern "C" uint32_t sxr_draw(uint32_t seed, uint32_t n);
namespace boost { namespace random {
class mt19937 {
 public:
  typedef uint32_t result_type; static const bool has_fixed_range = false; static const uint32_t default_seed = 5489u;
  static result_type min BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0; } static result_type max BOOST_PREVENT_MACRO_SUBSTITUTION() { return 0xffffffffu; }
  mt19937() { seed(); } explicit mt19937(uint32_t s) { seed(s); }
  void seed() { seed(default_seed); } void seed(uint32_t s) { s_ = s; n_ = 0; }
  result_type operator()() { return sxr_draw(s_, n_++); }
  void discard(unsigned long k) { n_ += (uint32_t)k; }
  bool operator==(const mt19937& o) const { return s_ == o.s_ && n_ == o.n_; } bool operator!=(const mt19937& o) const { return !(*this == o); }
 private: uint32_t s_, n_;
};
typedef mt19937 mt11213b;
} using random::mt19937; using random::mt11213b; }
