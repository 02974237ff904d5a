#include "expr.h"
#include <cfenv>
#include <functional>
using std::string; using std::vector;
const char* opName[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
  "concat","extract","zext","sext","ite","eq","ult","ule","slt","sle",
  "fadd","fsub","fmul","fdiv","fsqrt","frem","frnd","flt","fle","feq","fneg","fabs","f2si","f2ui","si2f","ui2f","f2f","fisnan",
  "rconst","rspecial","rsym","rpi","radd","rmul","rdiv","rlt","rle","req","rfun","si2r","ui2r","r2i","bits"};
const char* rfnName[] = {"sqrt","sin","cos","tan","asin","acos","atan","atan2","exp","log","pow","floor"};
vector<E> allExprs;
static vector<string> symNames;
struct Key { Op op; uint16_t w; E k[3]; u128 val; uint64_t aux; };
struct KH { size_t operator()(const Key& k) const {
  uint64_t h = k.op * 0x9E3779B97F4A7C15ull ^ k.w * 0xC2B2AE3D27D4EB4Full;
  for (int i = 0; i < 3; i++) h = (h ^ (uint64_t)(k.k[i] ? k.k[i]->id + 1 : 0)) * 0x100000001B3ull ^ (h >> 29);
  h = (h ^ (uint64_t)k.val ^ (uint64_t)(k.val >> 64) * 31 ^ k.aux * 0x9E37) * 0xD6E8FEB86659FD93ull; return h ^ (h >> 32); } };
struct KE { bool operator()(const Key& a, const Key& b) const {
  return a.op == b.op && a.w == b.w && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2] && a.val == b.val && a.aux == b.aux; } };
static std::unordered_map<Key, E, KH, KE> table;
static std::map<string, E> rtable;
static E raw(Op op, unsigned w, E a, E b, E c, u128 val, uint64_t aux) {
  Key k{op, (uint16_t)w, {a, b, c}, val, aux};
  auto it = table.find(k); if (it != table.end()) return it->second;
  E e = new Expr(); e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->n = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0);
  e->val = val; e->aux = aux; e->r = nullptr; e->zc = e->zf = nullptr; e->emark = 0; e->id = allExprs.size();
  e->sym = op == SYM || op == RSYM || (a && a->sym) || (b && b->sym) || (c && c->sym);
  allExprs.push_back(e); table[k] = e; return e;
}
string ratStr(const Rat& r) { return r.str(); }
E mkC(unsigned w, u128 v) { return raw(CONST, w, nullptr, nullptr, nullptr, v & maskw(w), 0); }
E mkSym(unsigned w, const string& name) { symNames.push_back(name); return raw(SYM, w, nullptr, nullptr, nullptr, 0, symNames.size() - 1); }
E mkRSym(const string& name) { symNames.push_back(name); return raw(RSYM, 0, nullptr, nullptr, nullptr, 0, symNames.size() - 1); }
const string& symName(E e) { return symNames[e->aux]; }
E mkR(const Rat& r) {
  string s = r.str(); auto it = rtable.find(s); if (it != rtable.end()) return it->second;
  E e = raw(RCONST, 0, nullptr, nullptr, nullptr, 0, rtable.size() + 1); e->r = new Rat(r); rtable[s] = e; return e;
}
E mkPi() { return raw(RPI, 0, nullptr, nullptr, nullptr, 0, 0); }
static Rat exactRat(double d) { int ex; double m = frexp(d, &ex); long long mi = (long long)ldexp(m, 53); ex -= 53;
  Int n = mi; if (ex >= 0) return Rat(n << ex); Int den = Int(1) << (-ex); return Rat(n, den); }
// simplest rational p/q (q<=4096) whose nearest double is d
static bool simpleRat(double d, Rat& out) {
  double a = fabs(d); if (a == 0 || a > 1e15 || a < 1e-9) return false;
  double x = a; long long h1 = 1, h0 = 0, k1 = 0, k0 = 1;
  for (int i = 0; i < 24; i++) {
    double f = floor(x); if (f > 9e15) return false;
    long long ai = (long long)f, h2 = ai * h1 + h0, k2 = ai * k1 + k0; h0 = h1; h1 = h2; k0 = k1; k1 = k2;
    if (k1 > 4096 || h1 > (1ll << 52)) return false;
    if ((double)h1 / (double)k1 == a) { out = Rat(Int(d < 0 ? -h1 : h1), Int(k1)); return true; }
    if (x == f) return false; x = 1 / (x - f);
  }
  return false;
}
E mkRd(double d) {
  if (!std::isfinite(d)) return raw(RSPECIAL, 0, nullptr, nullptr, nullptr, d2bits(d), 0);
  if (d == 0) return mkR(Rat(0));
  Rat s; if (simpleRat(d, s)) return mkR(s);
  // multiples of pi and of 1/pi with small rational factors
  static const int dens[] = {1, 2, 3, 4, 6, 8, 12, 180, 360, 90, 45};
  for (int den : dens) for (int num = 1; num <= 360; num++) {
    if (num > 16 && num != 45 && num != 90 && num != 180 && num != 360) continue;
    double c = M_PI * num / den; double c2 = M_PI / den * num;
    if (fabs(d) == c || fabs(d) == c2 || fabs(d) == M_PI * ((double)num / den)) return mkOp(RMUL, 0, mkR(Rat(Int(d < 0 ? -num : num), Int(den))), mkPi());
    double v = num / (den * M_PI), v2 = (double)num / den / M_PI, v3 = ((double)num / den) * (1 / M_PI);
    if (fabs(d) == v || fabs(d) == v2 || fabs(d) == v3) return mkOp(RDIV, 0, mkR(Rat(Int(d < 0 ? -num : num), Int(den))), mkPi());
  }
  return mkR(exactRat(d));
}
static const double dnan = std::numeric_limits<double>::quiet_NaN();
double rconstVal(E e, bool& ok) {
  bool o = true; double v = 0;
  switch (e->op) {
    case RCONST: v = e->r->convert_to<double>(); break;
    case RSPECIAL: v = bits2d((uint64_t)e->val); break;
    case RPI: v = M_PI; break;
    case RADD: v = rconstVal(e->k[0], o); if (o) v += rconstVal(e->k[1], o); break;
    case RMUL: v = rconstVal(e->k[0], o); if (o) v *= rconstVal(e->k[1], o); break;
    case RDIV: v = rconstVal(e->k[0], o); if (o) v /= rconstVal(e->k[1], o); break;
    case SI2R: if (e->k[0]->isConst()) v = (double)sx128(e->k[0]->val, e->k[0]->w); else o = false; break;
    case UI2R: if (e->k[0]->isConst()) v = (double)e->k[0]->val; else o = false; break;
    case RFUN: { double a = rconstVal(e->k[0], o), b = 0; if (o && e->k[1]) b = rconstVal(e->k[1], o);
      if (o) switch (e->aux) { case F_SQRT: v = sqrt(a); break; case F_SIN: v = sin(a); break; case F_COS: v = cos(a); break; case F_TAN: v = tan(a); break;
        case F_ASIN: v = asin(a); break; case F_ACOS: v = acos(a); break; case F_ATAN: v = atan(a); break; case F_ATAN2: v = atan2(a, b); break;
        case F_EXP: v = exp(a); break; case F_LOG: v = log(a); break; case F_POW: v = pow(a, b); break; case F_FLOOR: v = floor(a); break; default: o = false; } break; }
    case ITE: { u128 c; if (evalE(e->k[0], Model(), c)) v = rconstVal(c ? e->k[1] : e->k[2], o); else o = false; break; }
    default: o = false;
  }
  ok = o; return v;
}
static double rnd(double v, int mode) { // 0 nearest-even 1 away 2 up 3 down 4 zero
  switch (mode) { case 0: return nearbyint(v); case 1: return round(v); case 2: return ceil(v); case 3: return floor(v); default: return trunc(v); } }
bool foldOp(Op op, unsigned w, uint64_t aux, unsigned n, const u128* v, const unsigned* kw, u128& o) {
  u128 a = n > 0 ? v[0] : 0, b = n > 1 ? v[1] : 0; u128 M = maskw(w); unsigned k0 = n > 0 ? kw[0] : 0;
  auto fin = [&](u128 x) { o = x & M; return true; };
  auto D = [&](u128 x, unsigned ww) -> double { return ww == 32 ? (double)bits2f((uint32_t)x) : bits2d((uint64_t)x); };
  auto B = [&](double d) -> u128 { return w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d); };
  switch (op) {
    case ADD: return fin(a + b); case SUB: return fin(a - b); case MUL: return fin(a * b);
    case UDIV: if (!b) return fin(M); return fin(a / b);
    case UREM: if (!b) return fin(a); return fin(a % b);
    case SDIV: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return fin(x < 0 ? 1 : M); if (y == -1) return fin(-(u128)x); return fin((u128)(x / y)); }
    case SREM: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return fin(a); if (y == -1) return fin(0); return fin((u128)(x % y)); }
    case AND: return fin(a & b); case OR: return fin(a | b); case XOR: return fin(a ^ b);
    case SHL: return fin(b >= w ? 0 : a << (unsigned)b); case LSHR: return fin(b >= w ? 0 : a >> (unsigned)b);
    case ASHR: { i128 x = sx128(a, w); return fin((u128)(x >> (unsigned)(b >= w ? w - 1 : b))); }
    case CONCAT: return fin((a << kw[1]) | b);
    case EXTRACT: return fin(a >> aux);
    case ZEXT: return fin(a); case SEXT: return fin((u128)sx128(a, k0));
    case ITE: return fin(a ? v[1] : v[2]);
    case EQ: return fin(a == b); case ULT: return fin(a < b); case ULE: return fin(a <= b);
    case SLT: return fin(sx128(a, k0) < sx128(b, k0)); case SLE: return fin(sx128(a, k0) <= sx128(b, k0));
    case FADD: if (w == 32) return fin(f2bits(bits2f(a) + bits2f(b))); return fin(B(D(a, w) + D(b, w)));
    case FSUB: if (w == 32) return fin(f2bits(bits2f(a) - bits2f(b))); return fin(B(D(a, w) - D(b, w)));
    case FMUL: if (w == 32) return fin(f2bits(bits2f(a) * bits2f(b))); return fin(B(D(a, w) * D(b, w)));
    case FDIV: if (w == 32) return fin(f2bits(bits2f(a) / bits2f(b))); return fin(B(D(a, w) / D(b, w)));
    case FSQRT: if (w == 32) return fin(f2bits(sqrtf(bits2f(a)))); return fin(B(sqrt(D(a, w))));
    case FREM: return fin(B(fmod(D(a, w), D(b, w))));
    case FRND: return fin(B(rnd(D(a, w), aux)));
    case FLT: return fin(D(a, k0) < D(b, k0)); case FLE: return fin(D(a, k0) <= D(b, k0)); case FEQ: return fin(D(a, k0) == D(b, k0));
    case FISNAN: return fin(std::isnan(D(a, k0)));
    case FNEG: return fin(a ^ ((u128)1 << (w - 1))); case FABS: return fin(a & ~((u128)1 << (w - 1)));
    case F2SI: { double d = D(a, k0); if (!(d > -9.3e18 && d < 9.3e18)) { if (w >= 64) return fin((u128)1 << (w - 1)); }
      if (!(fabs(d) < 1.7e38)) return fin(0); return fin((u128)(i128)d); }
    case F2UI: { double d = D(a, k0); if (!(fabs(d) < 1.7e38)) return fin(0); return fin((u128)(i128)d); }
    case SI2F: { i128 x = sx128(a, k0); if (w == 32) return fin(f2bits((float)x)); return fin(d2bits((double)x)); }
    case UI2F: if (w == 32) return fin(f2bits((float)a)); return fin(d2bits((double)a));
    case F2F: { if (k0 == w) return fin(a); if (w == 64) return fin(d2bits((double)bits2f((uint32_t)a))); return fin(f2bits((float)bits2d((uint64_t)a))); }
    default: return false;
  }
}
static uint64_t epoch = 0;
static bool evalR(E e, const Model& m, u128& out) {
  if (e->op == CONST) { out = e->val; return true; }
  if (e->emark == epoch) { out = e->ev; return true; }
  u128 r;
  if (e->op == SYM) { auto it = m.find(e); r = it == m.end() ? 0 : it->second; }
  else if (e->op == ITE && !e->isReal()) { u128 c; if (!evalR(e->k[0], m, c)) return false; if (!evalR(c ? e->k[1] : e->k[2], m, r)) return false; }
  else {
    if (e->op >= RCONST) return false;
    u128 v[3]; unsigned kw[3];
    for (int i = 0; i < e->n; i++) { if (e->k[i]->isReal()) return false; if (!evalR(e->k[i], m, v[i])) return false; kw[i] = e->k[i]->w; }
    if (!foldOp(e->op, e->w, e->aux, e->n, v, kw, r)) return false;
  }
  e->emark = epoch; e->ev = r; out = r; return true;
}
bool evalE(E e, const Model& m, u128& out) { ++epoch; return evalR(e, m, out); }

static bool isZ(E e) { return e->op == CONST && e->val == 0; }
static bool isOnes(E e) { return e->op == CONST && e->val == maskw(e->w); }
static bool isRC(E e) { return e->op == RCONST; }
E mkNot(E a) { return mkOp(XOR, 1, a, mkC(1, 1)); }
E mkAnd1(E a, E b) { return mkOp(AND, 1, a, b); }
E mkOr1(E a, E b) { return mkOp(OR, 1, a, b); }
E mkIte(E c, E a, E b) { return mkOp(ITE, a->w, c, a, b); }
E mkExtract(E e, unsigned lo, unsigned w) { if (lo == 0 && w == e->w) return e; return mkOp(EXTRACT, w, e, nullptr, nullptr, lo); }
E mkConcat(E hi, E lo) { return mkOp(CONCAT, hi->w + lo->w, hi, lo); }
E mkZ(E e, unsigned w) { if (w == e->w) return e; if (w < e->w) return mkExtract(e, 0, w); return mkOp(ZEXT, w, e); }
E mkS(E e, unsigned w) { if (w == e->w) return e; if (w < e->w) return mkExtract(e, 0, w); return mkOp(SEXT, w, e); }
E mkRNeg(E a) { return mkOp(RMUL, 0, mkR(Rat(-1)), a); }
E mkRSub(E a, E b) { return mkOp(RADD, 0, a, mkRNeg(b)); }
E mkRFun(RFn f, E a, E b) { return mkOp(RFUN, 0, a, b, nullptr, f); }
// bits known to be zero (z) and known to be one (o)
static void knownBits(E e, int d, u128& z, u128& o) {
  u128 m = maskw(e->w); z = o = 0; if (e->isConst()) { o = e->val; z = ~e->val & m; return; } if (d <= 0) return; u128 z1, o1, z2, o2;
  switch (e->op) {
    case AND: knownBits(e->k[0], d - 1, z1, o1); knownBits(e->k[1], d - 1, z2, o2); z = z1 | z2; o = o1 & o2; break;
    case OR: knownBits(e->k[0], d - 1, z1, o1); knownBits(e->k[1], d - 1, z2, o2); z = z1 & z2; o = o1 | o2; break;
    case XOR: knownBits(e->k[0], d - 1, z1, o1); knownBits(e->k[1], d - 1, z2, o2); z = (z1 & z2) | (o1 & o2); o = (z1 & o2) | (o1 & z2); break;
    case ZEXT: knownBits(e->k[0], d - 1, z, o); z |= m & ~maskw(e->k[0]->w); break;
    case EXTRACT: knownBits(e->k[0], d - 1, z, o); z = (z >> e->aux) & m; o = (o >> e->aux) & m; break;
    case CONCAT: knownBits(e->k[0], d - 1, z1, o1); knownBits(e->k[1], d - 1, z2, o2); z = (z1 << e->k[1]->w) | z2; o = (o1 << e->k[1]->w) | o2; break;
    case ITE: knownBits(e->k[1], d - 1, z1, o1); knownBits(e->k[2], d - 1, z2, o2); z = z1 & z2; o = o1 & o2; break;
    default: break; } }
static E realCmp(Op op, E a, E b) {
  if (a == b) return mkC(1, op != RLT);
  if (a->op == RSPECIAL || b->op == RSPECIAL) {
    double x = a->op == RSPECIAL ? bits2d((uint64_t)a->val) : 0, y = b->op == RSPECIAL ? bits2d((uint64_t)b->val) : 0;
    if (std::isnan(x) || std::isnan(y)) return mkC(1, 0);
    return mkC(1, op == RLT ? x < y : op == RLE ? x <= y : x == y);
  }
  if (isRC(a) && isRC(b)) { int c = a->r->compare(*b->r); return mkC(1, op == RLT ? c < 0 : op == RLE ? c <= 0 : c == 0); }
  if (!a->sym && !b->sym) { bool o1, o2; double x = rconstVal(a, o1), y = rconstVal(b, o2);
    if (o1 && o2 && fabs(x - y) > 1e-9 * (fabs(x) + fabs(y) + 1e-300)) return mkC(1, op == RLT || op == RLE ? x < y : 0); 
    if (o1 && o2 && op != RLT && x == y) return mkC(1, 1); if (o1 && o2 && op == RLT && x == y) return mkC(1, 0); }
  return nullptr;
}
E mkOp(Op op, unsigned w, E a, E b, E c, uint64_t aux) {
  unsigned n = (a ? 1 : 0) + (b ? 1 : 0) + (c ? 1 : 0);
  // constant folding for the bit-vector part
  if (op < RCONST && (!a || a->isConst()) && (!b || b->isConst()) && (!c || c->isConst())) {
    u128 v[3] = {a ? a->val : 0, b ? b->val : 0, c ? c->val : 0}; unsigned kw[3] = {a ? a->w : 0u, b ? b->w : 0u, c ? c->w : 0u}; u128 o;
    bool allbv = true; for (unsigned i = 0; i < n; i++) if (kw[i] == 0) allbv = false;
    if (allbv && w && foldOp(op, w, aux, n, v, kw, o)) return mkC(w, o);
  }
  switch (op) {
    case ADD: if (a->isConst()) std::swap(a, b); if (isZ(b)) return a;
      if (b->isConst() && a->op == ADD && a->k[1]->isConst()) return mkOp(ADD, w, a->k[0], mkC(w, a->k[1]->val + b->val));
      if (b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkC(w, a->k[1]->val + b->val), mkC(w, a->k[2]->val + b->val));
      break;
    case SUB: if (isZ(b)) return a; if (a == b) return mkC(w, 0); if (b->isConst()) return mkOp(ADD, w, a, mkC(w, -b->val));
      if (a->op == ADD && a->k[1]->isConst() && a->k[0] == b) return a->k[1];
      if (a->op == ADD && b->op == ADD && a->k[0] == b->k[0] && a->k[1]->isConst() && b->k[1]->isConst()) return mkC(w, a->k[1]->val - b->k[1]->val);
      break;
    case MUL: if (a->isConst()) std::swap(a, b); if (isZ(b)) return b; if (b->isConst() && b->val == 1) return a; break;
    case UDIV: case SDIV: if (b->isConst() && b->val == 1) return a; break;
    case AND: if (a->isConst()) std::swap(a, b); if (isZ(b)) return b; if (isOnes(b)) return a; if (a == b) return a;
      if (w == 1 && a->op == XOR && isOnes(a->k[1]) && a->k[0] == b) return mkC(1, 0);
      if (w == 1 && b->op == XOR && isOnes(b->k[1]) && b->k[0] == a) return mkC(1, 0);
      if (b->isConst() && w > 1) { // low mask
        unsigned m = 0; while (m < w && ((b->val >> m) & 1)) m++; if (m && m < w && b->val == maskw(m)) return mkZ(mkExtract(a, 0, m), w);
        if (a->op == AND && a->k[1]->isConst()) return mkOp(AND, w, a->k[0], mkC(w, a->k[1]->val & b->val));
        u128 kz, ko; knownBits(a, 6, kz, ko); if ((b->val & ~(kz | ko)) == 0) return mkC(w, b->val & ko); if ((maskw(w) & ~kz & ~b->val) == 0) return a; }
      break;
    case OR: if (a->isConst()) std::swap(a, b); if (isZ(b)) return a; if (isOnes(b)) return b; if (a == b) return a;
      if (b->isConst() && w > 1) { u128 kz, ko; knownBits(a, 6, kz, ko); if ((maskw(w) & ~kz & ~b->val) == 0) return b; }
      if (w == 1 && a->op == XOR && isOnes(a->k[1]) && a->k[0] == b) return mkC(1, 1);
      if (w == 1 && b->op == XOR && isOnes(b->k[1]) && b->k[0] == a) return mkC(1, 1);
      break;
    case XOR: if (a->isConst()) std::swap(a, b); if (isZ(b)) return a; if (a == b) return mkC(w, 0);
      if (isOnes(b) && a->op == XOR && isOnes(a->k[1])) return a->k[0];
      if (w == 1 && isOnes(b)) { if (a->op == ULT) return mkOp(ULE, 1, a->k[1], a->k[0]); if (a->op == ULE) return mkOp(ULT, 1, a->k[1], a->k[0]);
        if (a->op == SLT) return mkOp(SLE, 1, a->k[1], a->k[0]); if (a->op == SLE) return mkOp(SLT, 1, a->k[1], a->k[0]);
        if (a->op == RLT) return mkOp(RLE, 1, a->k[1], a->k[0]); if (a->op == RLE) return mkOp(RLT, 1, a->k[1], a->k[0]); }
      break;
    case SHL: case LSHR: case ASHR: if (isZ(b)) return a;
      if (b->isConst()) { unsigned s = (unsigned)b->val; if (b->val >= w) { if (op != ASHR) return mkC(w, 0); s = w - 1; }
        if (op == SHL) return mkConcat(mkExtract(a, 0, w - s), mkC(s, 0));
        if (op == LSHR) return mkZ(mkExtract(a, s, w - s), w);
        return mkS(mkExtract(a, s, w - s), w); }
      break;
    case CONCAT:
      if (a->op == EXTRACT && b->op == EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return mkExtract(a->k[0], b->aux, w);
      if (b->op == CONCAT && b->k[0]->op == EXTRACT && a->op == EXTRACT && a->k[0] == b->k[0]->k[0] && a->aux == b->k[0]->aux + b->k[0]->w)
        return mkConcat(mkExtract(a->k[0], b->k[0]->aux, a->w + b->k[0]->w), b->k[1]);
      if (isZ(a)) return mkOp(ZEXT, w, b);
      if (a->isConst() && b->op == CONCAT && b->k[0]->isConst()) return mkConcat(mkC(a->w + b->k[0]->w, (a->val << b->k[0]->w) | b->k[0]->val), b->k[1]);
      if (b->isConst() && a->op == CONCAT && a->k[1]->isConst()) return mkConcat(a->k[0], mkC(b->w + a->k[1]->w, (a->k[1]->val << b->w) | b->val));
      break;
    case EXTRACT: { unsigned lo = aux;
      if (a->op == EXTRACT) return mkExtract(a->k[0], a->aux + lo, w);
      if (a->op == CONCAT) { unsigned lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
      if (a->op == ZEXT) { unsigned kw = a->k[0]->w; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo >= kw) return mkC(w, 0); return mkZ(mkExtract(a->k[0], lo, kw - lo), w); }
      if (a->op == SEXT) { unsigned kw = a->k[0]->w; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo < kw) return mkS(mkExtract(a->k[0], lo, kw - lo), w); }
      if (a->op == ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      if ((a->op == AND || a->op == OR || a->op == XOR)) return mkOp(a->op, w, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
      if (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL)) return mkOp(a->op, w, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break; }
    case ZEXT: if (a->op == ZEXT) return mkOp(ZEXT, w, a->k[0]);
      if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkZ(a->k[1], w), mkZ(a->k[2], w)); break;
    case SEXT: if (a->op == ZEXT && a->k[0]->w < a->w) return mkOp(ZEXT, w, a->k[0]); if (a->op == SEXT) return mkOp(SEXT, w, a->k[0]);
      if (a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkS(a->k[1], w), mkS(a->k[2], w)); break;
    case ITE: if (a->isConst()) return a->val ? b : c; if (b == c) return b;
      if (w == 1 && b->isConst() && c->isConst()) return b->val ? a : mkNot(a);
      if (w == 1 && b->isConst()) return b->val ? mkOr1(a, c) : mkAnd1(mkNot(a), c);
      if (w == 1 && c->isConst()) return c->val ? mkOr1(mkNot(a), b) : mkAnd1(a, b);
      if (a->op == XOR && isOnes(a->k[1])) return mkIte(a->k[0], c, b);
      if (c->op == ITE && c->k[0] == a) return mkIte(a, b, c->k[2]);
      if (b->op == ITE && b->k[0] == a) return mkIte(a, b->k[1], c);
      break;
    case EQ: if (a == b) return mkC(1, 1); if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        if (a->w == 1) return b->val ? a : mkNot(a);
        if (a->op == ADD && a->k[1]->isConst()) return mkOp(EQ, 1, a->k[0], mkC(a->w, b->val - a->k[1]->val));
        if (a->op == ZEXT) { if (b->val > maskw(a->k[0]->w)) return mkC(1, 0); return mkOp(EQ, 1, a->k[0], mkC(a->k[0]->w, b->val)); }
        if (a->op == SEXT) { u128 lo = b->val & maskw(a->k[0]->w); if (((u128)sx128(lo, a->k[0]->w) & maskw(a->w)) != b->val) return mkC(1, 0); return mkOp(EQ, 1, a->k[0], mkC(a->k[0]->w, lo)); }
        if (a->op == ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkOp(EQ, 1, a->k[1], b), mkOp(EQ, 1, a->k[2], b));
        if (a->op == CONCAT) return mkAnd1(mkOp(EQ, 1, a->k[0], mkC(a->k[0]->w, b->val >> a->k[1]->w)), mkOp(EQ, 1, a->k[1], mkC(a->k[1]->w, b->val)));
      }
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkOp(EQ, 1, a->k[0], b->k[0]);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkOp(EQ, 1, a->k[0], b->k[0]);
      if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mkOp(EQ, 1, a->k[0], b->k[0]);
      if (a->id > b->id) std::swap(a, b);
      break;
    case ULT: if (a == b) return mkC(1, 0); if (isZ(b)) return mkC(1, 0); if (isZ(a)) return mkNot(mkOp(EQ, 1, b, a));
      if (b->isConst() && b->val == 1) return mkOp(EQ, 1, a, mkC(a->w, 0));
      if (a->op == ZEXT && b->isConst()) { if (b->val > maskw(a->k[0]->w)) return mkC(1, 1); return mkOp(ULT, 1, a->k[0], mkC(a->k[0]->w, b->val)); }
      if (b->op == ZEXT && a->isConst()) { if (a->val >= maskw(b->k[0]->w)) return mkC(1, 0); return mkOp(ULT, 1, mkC(b->k[0]->w, a->val), b->k[0]); }
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkOp(ULT, 1, a->k[0], b->k[0]);
      if (b->isConst() && a->op == ITE && a->k[1]->isConst() && a->k[2]->isConst()) return mkIte(a->k[0], mkOp(ULT, 1, a->k[1], b), mkOp(ULT, 1, a->k[2], b));
      break;
    case ULE: if (a == b) return mkC(1, 1); if (isZ(a)) return mkC(1, 1); if (isOnes(b)) return mkC(1, 1); 
      if (b->isConst() || a->isConst()) { if (b->isConst()) return mkOp(ULT, 1, a, mkC(a->w, b->val + 1)); if (a->val > 0) return mkOp(ULT, 1, mkC(a->w, a->val - 1), b); }
      break;
    case SLT: if (a == b) return mkC(1, 0);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkOp(ULT, 1, a->k[0], b->k[0]);
      if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkOp(SLT, 1, a->k[0], b->k[0]);
      if (a->op == ZEXT && b->isConst()) { i128 bv = sx128(b->val, b->w); if (bv <= 0) return mkC(1, 0); return mkOp(ULT, 1, a, b); }
      if (b->op == ZEXT && a->isConst()) { i128 av = sx128(a->val, a->w); if (av < 0) return mkC(1, 1); return mkOp(ULT, 1, a, b); }
      break;
    case SLE: if (a == b) return mkC(1, 1);
      if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkOp(ULE, 1, a->k[0], b->k[0]);
      if (a->op == ZEXT && b->isConst()) { i128 bv = sx128(b->val, b->w); if (bv < 0) return mkC(1, 0); return mkOp(ULE, 1, a, b); }
      if (b->op == ZEXT && a->isConst()) { i128 av = sx128(a->val, a->w); if (av <= 0) return mkC(1, 1); return mkOp(ULE, 1, a, b); }
      break;
    case FNEG: if (a->op == FNEG) return a->k[0]; break;
    case FABS: if (a->op == FNEG || a->op == FABS) return mkOp(FABS, w, a->k[0]); if (a->op == FSUB && a->k[0]->id > a->k[1]->id) return mkOp(FABS, w, mkOp(FSUB, w, a->k[1], a->k[0])); break;
    case FADD: case FMUL: if (a->id > b->id) std::swap(a, b); break;
    case FLT: case FLE: case FEQ: // comparisons do not see the sign of zero: b - a is -(a - b)
      if (a->op == FSUB && a->k[0]->id > a->k[1]->id) a = mkOp(FNEG, a->w, mkOp(FSUB, a->w, a->k[1], a->k[0]));
      if (b->op == FSUB && b->k[0]->id > b->k[1]->id) b = mkOp(FNEG, b->w, mkOp(FSUB, b->w, b->k[1], b->k[0]));
      if (op == FEQ && a->id > b->id) std::swap(a, b);
      break;
    case F2F: if (a->w == w) return a; break;
    case BITS: if (a->op == RCONST || !a->sym) { bool ok; double d = rconstVal(a, ok); if (ok) return w == 32 ? mkC(32, f2bits((float)d)) : mkC(64, d2bits(d)); } break;
    case RADD: if (a->op == RSPECIAL || b->op == RSPECIAL) { double x = a->op == RSPECIAL ? bits2d(a->val) : 0, y = b->op == RSPECIAL ? bits2d(b->val) : 0; return mkRd(x + y); }
      if (isRC(a) && isRC(b)) return mkR(*a->r + *b->r); if (isRC(a)) std::swap(a, b); if (isRC(b) && *b->r == 0) return a;
      if (isRC(b) && a->op == RADD && isRC(a->k[1])) return mkOp(RADD, 0, a->k[0], mkR(*a->k[1]->r + *b->r));
      if (b->op == RMUL && isRC(b->k[0]) && *b->k[0]->r == -1 && b->k[1] == a) return mkR(Rat(0));
      if (a->op == RMUL && isRC(a->k[0]) && *a->k[0]->r == -1 && a->k[1] == b) return mkR(Rat(0));
      break;
    case RMUL: if (a->op == RSPECIAL || b->op == RSPECIAL) return mkRd(dnan);
      if (isRC(b)) std::swap(a, b); if (isRC(a) && isRC(b)) return mkR(*a->r * *b->r);
      if (isRC(a)) { if (*a->r == 0) return a; if (*a->r == 1) return b; if (b->op == RMUL && isRC(b->k[0])) return mkOp(RMUL, 0, mkR(*a->r * *b->k[0]->r), b->k[1]); }
      else if (a->id > b->id) std::swap(a, b);
      break;
    case RDIV: if (a->op == RSPECIAL) return mkRd(dnan); if (b->op == RSPECIAL) { double y = bits2d(b->val); return std::isnan(y) ? mkRd(dnan) : mkR(Rat(0)); }
      if (isRC(b) && *b->r != 0) return mkOp(RMUL, 0, mkR(Rat(1) / *b->r), a);
      if (isRC(b)) { bool ok; double x = rconstVal(a, ok); if (ok && !a->sym) return mkRd(x / 0.0); }
      if (isRC(a) && *a->r == 0 && b->op == RPI) return a;
      break;
    case RLT: case RLE: case REQ: { E r = realCmp(op, a, b); if (r) return r; if (op == REQ && a->id > b->id) std::swap(a, b); break; }
    case SI2R: if (a->isConst()) { i128 v = sx128(a->val, a->w); return mkR(Rat(Int((long long)v))); } break;
    case UI2R: if (a->isConst()) return mkR(Rat(Int((unsigned long long)a->val))); break;
    case RFUN: if (a->op == RSPECIAL) return mkRd(dnan);
      if (isRC(a) && (!b || isRC(b))) {
        const Rat& r = *a->r;
        switch (aux) {
          case F_SQRT: { if (r < 0) return mkRd(dnan); Int nn = boost::multiprecision::numerator(r), dd = boost::multiprecision::denominator(r); Int sn = boost::multiprecision::sqrt(nn), sd = boost::multiprecision::sqrt(dd);
            if (sn * sn == nn && sd * sd == dd) return mkR(Rat(sn, sd)); break; }
          case F_SIN: case F_TAN: case F_ASIN: case F_ATAN: if (r == 0) return a; break;
          case F_COS: case F_EXP: if (r == 0) return mkR(Rat(1)); break;
          case F_ACOS: if (r == 1) return mkR(Rat(0)); if (r == -1) return mkPi(); break;
          case F_LOG: if (r == 1) return mkR(Rat(0)); break;
          case F_POW: if (*b->r == 0) return mkR(Rat(1)); if (*b->r == 1) return a; if (*b->r == 2) return mkR(r * r); if (*b->r == Rat(1, 2)) return mkRFun(F_SQRT, a);
            { bool o1, o2; double x = rconstVal(a, o1), y = rconstVal(b, o2); return mkRd(pow(x, y)); }
          case F_FLOOR: { Int nn = boost::multiprecision::numerator(r), dd = boost::multiprecision::denominator(r); Int q = nn / dd; if (nn < 0 && q * dd != nn) q -= 1; return mkR(Rat(q)); }
          case F_ATAN2: if (r == 0 && *b->r > 0) return a; break;
          default: break;
        }
      }
      if (aux == F_POW && isRC(b)) { if (*b->r == 2) return mkOp(RMUL, 0, a, a); if (*b->r == 1) return a; if (*b->r == 0) return mkR(Rat(1)); if (*b->r == 3) return mkOp(RMUL, 0, a, mkOp(RMUL, 0, a, a)); if (*b->r == Rat(1, 2)) return mkRFun(F_SQRT, a);
        if (*b->r == -1) return mkOp(RDIV, 0, mkR(Rat(1)), a); }
      if ((aux == F_SIN || aux == F_TAN || aux == F_COS) && a->op == RMUL && isRC(a->k[0]) && *a->k[0]->r < 0) {
        E p = mkOp(RMUL, 0, mkR(-*a->k[0]->r), a->k[1]); return aux == F_COS ? mkRFun(F_COS, p) : mkRNeg(mkRFun((RFn)aux, p)); }
      break;
    default: break;
  }
  return raw(op, w, a, b, c, 0, aux);
}
