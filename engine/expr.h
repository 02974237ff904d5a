// Hash-consed expression DAG: bit-vectors (<=128 bit), IEEE operations on bit patterns, exact reals.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <boost/multiprecision/cpp_int.hpp>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef boost::multiprecision::cpp_rational Rat;
typedef boost::multiprecision::cpp_int Int;

enum Op : uint8_t {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
  // IEEE ops (operands/results are bit patterns)
  FADD, FSUB, FMUL, FDIV, FSQRT, FREM, FRND, FLT, FLE, FEQ, FNEG, FABS, F2SI, F2UI, SI2F, UI2F, F2F, FISNAN,
  // reals (width 0)
  RCONST, RSPECIAL, RSYM, RPI, RADD, RMUL, RDIV, RLT, RLE, REQ, RFUN, SI2R, UI2R, R2I, BITS,
  NOPS
};
extern const char* opName[];
struct Expr {
  Op op; uint16_t w; uint8_t n; bool sym; uint32_t id;
  Expr* k[3]; u128 val; uint64_t aux; Rat* r;
  mutable void* zc; mutable void* zf;           // z3 translation cache indices
  mutable uint64_t emark; mutable u128 ev;      // evaluation cache
  bool isReal() const { return w == 0; }
  bool isConst() const { return op == CONST; }
};
typedef Expr* E;
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; return (i128)(v << (128 - w)) >> (128 - w); }
enum RFn { F_SQRT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_ATAN2, F_EXP, F_LOG, F_POW, F_FLOOR, F_LAST };
extern const char* rfnName[];

E mkC(unsigned w, u128 v);
E mkSym(unsigned w, const std::string& name);
E mkRSym(const std::string& name);
E mkR(const Rat& r);
E mkRd(double d);               // idealised constant
E mkPi();
E mkOp(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint64_t aux = 0);
E mkNot(E a);                    // width-1 negation
E mkAnd1(E a, E b); E mkOr1(E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZ(E e, unsigned w); E mkS(E e, unsigned w);
E mkRFun(RFn f, E a, E b = nullptr);
E mkRNeg(E a); E mkRSub(E a, E b);
const std::string& symName(E e);
double rconstVal(E e, bool& ok);   // numeric value of symbol-free real expression
std::string ratStr(const Rat& r);
static inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static inline uint32_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
// evaluation under an assignment (bit-vector/IEEE part only); returns false if it meets a real/unsupported node
typedef std::unordered_map<E, u128> Model;
bool evalE(E e, const Model& m, u128& out);
bool foldOp(Op op, unsigned w, uint64_t aux, unsigned n, const u128* v, const unsigned* kw, u128& out);
extern std::vector<E> allExprs;
