// symex: a symbolic executor for LLVM 18 IR. See DESIGN.md.
#include "expr.h"
#include <z3++.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>
#include <chrono>
#include <iostream>
#include <functional>
#include <cctype>
#include <csignal>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::map;

struct Options {
  string in, out, entry; bool real = false; double maxTime = 300; uint64_t maxInstr = 20000000, maxPaths = 1000000, allocLimit = 0; int timeoutMs = 20000, branchMs = 2000;
  vector<long> params; bool verbose = false; bool hangViolation = false; bool stopFirst = false; int preempt = 2; bool memErr = true; bool trace = false; int witness = 0; string overrides; int concLimit = 300; uint64_t maxForkDepth = 100000;
} opt;

struct Val { E e = nullptr; shared_ptr<vector<Val>> agg; Val() {} Val(E x) : e(x) {} };
struct Cell { E e; uint8_t idx, sz; };
struct Obj {
  uint64_t base, size; bool ro = false, freed = false; uint8_t kind = 0; // 0 global 1 stack 2 heap
  vector<uint8_t> val, st; map<uint32_t, Cell> sym; string name;
};
typedef shared_ptr<Obj> ObjP;

struct FuncInfo { std::unordered_map<const Value*, int> slot; int n = 0; bool fromRepo = false; };
struct Frame {
  Function* F; FuncInfo* fi; BasicBlock* bb; BasicBlock* prev; BasicBlock::iterator it; vector<Val> regs; vector<uint64_t> allocas; CallBase* call; vector<Val> varargs; Val retOverride; bool ctorFrame = false;
};
struct Exc { uint64_t ptr, tinfo; };
struct Thread { vector<Frame> stack; bool done = false; uint64_t blockKey = 0; bool blocked = false; vector<Exc> caught; Exc inflight{0, 0}; };
struct State {
  vector<Thread> th; int cur = 0; map<uint64_t, ObjP> mem; uint64_t nextHeap = 0x100000000ull, nextStack = 0x7f0000000000ull;
  vector<E> pc; std::set<E> pcset; Model model; bool modelOk = true; map<uint64_t, uint64_t> excObj; std::map<uint64_t, uint64_t> excAdj; map<string, int> symCount;
  vector<E> syms; vector<E> convs; uint64_t instrs = 0; int preemptions = 0; vector<std::pair<uint64_t, uint64_t>> watch; bool schedJust = false; uint64_t forks = 0; bool initPhase = false; vector<int> schedTrace; bool hasArray = false;
  bool dead = false; uint64_t fileBase = 0; bool swNoFork = false; vector<std::pair<string,string>> notes; bool quietThrow = false;
  vector<Frame>& stack() { return th[cur].stack; } Thread& T() { return th[cur]; }
};
static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static z3::context zc;
static map<const GlobalValue*, uint64_t> gaddr; static map<uint64_t, Function*> faddr; static map<string, uint64_t> gname; 
static std::unordered_map<const Function*, FuncInfo*> finfo; static std::unordered_map<const Constant*, Val> ccache;
static vector<State*> work;
static std::set<const Function*> executed;
struct Stats { uint64_t paths = 0, instrs = 0, queries = 0, asserts = 0, assertSimpl = 0, assertUnsat = 0, infeasible = 0, unknown = 0, forks = 0, states = 0, byteDecided = 0; double solver = 0; } st;
static vector<string> problems; static map<string, int> problemCount; static map<string, int> reach; static bool incomplete = false; static string incompleteWhy; 
struct Viol { string kind, msg; map<string, string> values; string trace; vector<std::pair<string,string>> notes; };
static vector<Viol> viols; static map<string, int> unknownAsserts;
struct RQuery { string msg, kind; vector<E> pc; E goal; string loc; };
static vector<RQuery> rqueries; static vector<map<string,string>> witnesses;
static std::chrono::steady_clock::time_point t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
static void problem(const string& s) { problemCount[s]++; if (problemCount[s] == 1) { problems.push_back(s); if (opt.verbose) std::cerr << "PROBLEM: " << s << "\n"; } }
struct PathEnd { string why; }; // thrown to end the current path
struct Refork {};               // current instruction must be re-executed later by pushed states; current state re-executes as well
static string instLoc(State& s) {
  for (auto f = s.stack().rbegin(); f != s.stack().rend(); ++f) { Instruction* I = &*f->it; if (auto& d = I->getDebugLoc()) { string fn = d->getFilename().str(); return fn + ":" + std::to_string(d.getLine()); } }
  return s.stack().empty() ? "?" : s.stack().back().F->getName().str();
}
static string btrace(State& s) { string r; int n = 0; for (auto f = s.stack().rbegin(); f != s.stack().rend() && n < 12; ++f, ++n) { r += demangle(f->F->getName().str()).substr(0, 90); Instruction* I = &*f->it; if (auto& d = I->getDebugLoc()) { r += " @" + d->getFilename().str().substr(d->getFilename().rfind('/') + 1) + ":" + std::to_string(d.getLine()); } r += " < "; } return r; }

// ---------------------------------------------------------------- z3
static z3::expr tbv(E e); static z3::expr tfp(E e);
static z3::sort fps(unsigned w) { return w == 32 ? zc.fpa_sort(8, 24) : zc.fpa_sort(11, 53); }
static z3::expr rne() { return z3::expr(zc, Z3_mk_fpa_rne(zc)); }
static z3::expr b2bv(z3::expr b) { return z3::ite(b, zc.bv_val(1, 1), zc.bv_val(0, 1)); }
static z3::expr tbool(E e); 
static std::unordered_map<E, z3::expr*> boolc;
static z3::expr bvc(unsigned w, u128 v) {
  if (w <= 64) return zc.bv_val((uint64_t)v, w);
  return z3::concat(zc.bv_val((uint64_t)(v >> 64), w - 64), zc.bv_val((uint64_t)v, 64));
}
static bool isFp(Op o) { return (o >= FADD && o <= FRND) || o == SI2F || o == UI2F || o == F2F; }
static z3::expr mkfp(Z3_ast a) { zc.check_error(); return z3::expr(zc, a); }
static z3::expr tfp(E e) {
  if (e->zf) return *(z3::expr*)e->zf;
  z3::expr r(zc);
  switch (e->op) {
    case FADD: r = mkfp(Z3_mk_fpa_add(zc, rne(), tfp(e->k[0]), tfp(e->k[1]))); break;
    case FSUB: r = mkfp(Z3_mk_fpa_sub(zc, rne(), tfp(e->k[0]), tfp(e->k[1]))); break;
    case FMUL: r = mkfp(Z3_mk_fpa_mul(zc, rne(), tfp(e->k[0]), tfp(e->k[1]))); break;
    case FDIV: r = mkfp(Z3_mk_fpa_div(zc, rne(), tfp(e->k[0]), tfp(e->k[1]))); break;
    case FSQRT: r = mkfp(Z3_mk_fpa_sqrt(zc, rne(), tfp(e->k[0]))); break;
    case FREM: r = mkfp(Z3_mk_fpa_rem(zc, tfp(e->k[0]), tfp(e->k[1]))); break;
    case FRND: { z3::expr x = tfp(e->k[0]); Z3_ast m0 = e->aux == 0 ? Z3_mk_fpa_rne(zc) : e->aux == 1 ? Z3_mk_fpa_rna(zc) : e->aux == 2 ? Z3_mk_fpa_rtp(zc) : e->aux == 3 ? Z3_mk_fpa_rtn(zc) : Z3_mk_fpa_rtz(zc); z3::expr m(zc, m0);
      r = mkfp(Z3_mk_fpa_round_to_integral(zc, m, x)); break; }
    case FNEG: r = mkfp(Z3_mk_fpa_neg(zc, tfp(e->k[0]))); break;
    case FABS: r = mkfp(Z3_mk_fpa_abs(zc, tfp(e->k[0]))); break;
    case SI2F: r = mkfp(Z3_mk_fpa_to_fp_signed(zc, rne(), tbv(e->k[0]), fps(e->w))); break;
    case UI2F: r = mkfp(Z3_mk_fpa_to_fp_unsigned(zc, rne(), tbv(e->k[0]), fps(e->w))); break;
    case F2F: r = mkfp(Z3_mk_fpa_to_fp_float(zc, rne(), tfp(e->k[0]), fps(e->w))); break;
    case ITE: r = z3::ite(tbool(e->k[0]), tfp(e->k[1]), tfp(e->k[2])); break;
    default: r = mkfp(Z3_mk_fpa_to_fp_bv(zc, tbv(e), fps(e->w)));
  }
  e->zf = new z3::expr(r); return r;
}
static z3::expr treal(E e);
static z3::expr tbool(E e) {
  auto it = boolc.find(e); if (it != boolc.end()) return *it->second;
  z3::expr r(zc);
  switch (e->op) {
    case CONST: r = zc.bool_val(e->val != 0); break;
    case EQ: r = tbv(e->k[0]) == tbv(e->k[1]); break;
    case ULT: r = z3::ult(tbv(e->k[0]), tbv(e->k[1])); break;
    case ULE: r = z3::ule(tbv(e->k[0]), tbv(e->k[1])); break;
    case SLT: r = tbv(e->k[0]) < tbv(e->k[1]); break;
    case SLE: r = tbv(e->k[0]) <= tbv(e->k[1]); break;
    case FLT: r = mkfp(Z3_mk_fpa_lt(zc, tfp(e->k[0]), tfp(e->k[1]))); break;
    case FLE: r = mkfp(Z3_mk_fpa_leq(zc, tfp(e->k[0]), tfp(e->k[1]))); break;
    case FEQ: r = mkfp(Z3_mk_fpa_eq(zc, tfp(e->k[0]), tfp(e->k[1]))); break;
    case FISNAN: r = mkfp(Z3_mk_fpa_is_nan(zc, tfp(e->k[0]))); break;
    case RLT: r = treal(e->k[0]) < treal(e->k[1]); break;
    case RLE: r = treal(e->k[0]) <= treal(e->k[1]); break;
    case REQ: r = treal(e->k[0]) == treal(e->k[1]); break;
    case AND: if (e->w == 1) r = tbool(e->k[0]) && tbool(e->k[1]); break;
    case OR: if (e->w == 1) r = tbool(e->k[0]) || tbool(e->k[1]); break;
    case XOR: if (e->w == 1) { if (e->k[1]->isConst() && e->k[1]->val) r = !tbool(e->k[0]); else r = tbool(e->k[0]) != tbool(e->k[1]); } break;
    case ITE: if (e->w == 1) r = z3::ite(tbool(e->k[0]), tbool(e->k[1]), tbool(e->k[2])); break;
    default: r = tbv(e) == zc.bv_val(1, 1);
  }
  boolc[e] = new z3::expr(r); return r;
}
static z3::expr tbv(E e) {
  if (e->zc) return *(z3::expr*)e->zc;
  z3::expr r(zc);
  auto K = [&](int i) { return tbv(e->k[i]); };
  if (e->w == 1 && e->op != SYM && e->op != CONST && e->op != EXTRACT) r = b2bv(tbool(e));
  else switch (e->op) {
    case CONST: r = bvc(e->w, e->val); break;
    case SYM: r = zc.bv_const(symName(e).c_str(), e->w); break;
    case ADD: r = K(0) + K(1); break; case SUB: r = K(0) - K(1); break; case MUL: r = K(0) * K(1); break;
    case UDIV: r = z3::udiv(K(0), K(1)); break; case SDIV: r = K(0) / K(1); break;
    case UREM: r = z3::urem(K(0), K(1)); break; case SREM: r = z3::srem(K(0), K(1)); break;
    case AND: r = K(0) & K(1); break; case OR: r = K(0) | K(1); break; case XOR: r = K(0) ^ K(1); break;
    case SHL: r = z3::shl(K(0), K(1)); break; case LSHR: r = z3::lshr(K(0), K(1)); break; case ASHR: r = z3::ashr(K(0), K(1)); break;
    case CONCAT: r = z3::concat(K(0), K(1)); break;
    case EXTRACT: r = K(0).extract(e->aux + e->w - 1, e->aux); break;
    case ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break; case SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
    case ITE: r = z3::ite(tbool(e->k[0]), K(1), K(2)); break;
    case F2SI: { z3::expr x = tfp(e->k[0]), m(zc, Z3_mk_fpa_rtz(zc)); r = mkfp(Z3_mk_fpa_to_sbv(zc, m, x, e->w)); break; }
    case F2UI: { z3::expr x = tfp(e->k[0]), m(zc, Z3_mk_fpa_rtz(zc)); r = mkfp(Z3_mk_fpa_to_ubv(zc, m, x, e->w)); break; }
    case FNEG: r = K(0) ^ bvc(e->w, (u128)1 << (e->w - 1)); break;
    case FABS: r = K(0) & bvc(e->w, ~((u128)1 << (e->w - 1)) & maskw(e->w)); break;
    default:
      if (isFp(e->op)) { r = mkfp(Z3_mk_fpa_to_ieee_bv(zc, tfp(e))); break; }
      // BITS / R2I: opaque
      r = zc.bv_const(("opaque!" + std::to_string(e->id)).c_str(), e->w);
  }
  e->zc = new z3::expr(r); return r;
}
static z3::expr pi() { return zc.real_const("pi!"); }
static z3::expr treal(E e) {
  if (e->zc) return *(z3::expr*)e->zc;
  z3::expr r(zc);
  switch (e->op) {
    case RCONST: r = zc.real_val(ratStr(*e->r).c_str()); break;
    case RSYM: r = zc.real_const(symName(e).c_str()); break;
    case RPI: r = pi(); break;
    case RADD: r = treal(e->k[0]) + treal(e->k[1]); break;
    case RMUL: r = treal(e->k[0]) * treal(e->k[1]); break;
    case ITE: r = z3::ite(tbool(e->k[0]), treal(e->k[1]), treal(e->k[2])); break;
    default: r = zc.real_const(("r!" + std::to_string(e->id)).c_str());
  }
  e->zc = new z3::expr(r); return r;
}
static void cone(E e, std::set<E>& seen, vector<E>& fns) {
  if (!seen.insert(e).second) return;
  for (int i = 0; i < e->n; i++) cone(e->k[i], seen, fns);
  if (e->op == RFUN || e->op == RDIV || e->op == RPI) fns.push_back(e);
}
static void realAxioms(z3::solver& s, const vector<E>& cs) {
  std::set<E> seen; vector<E> fns; for (E c : cs) cone(c, seen, fns);
  std::set<E> trig;
  for (E f : fns) {
    if (f->op == RPI) { s.add(pi() > zc.real_val("3141592653589793/1000000000000000") && pi() < zc.real_val("3141592653589794/1000000000000000")); continue; }
    z3::expr v = treal(f), a = treal(f->k[0]);
    if (f->op == RDIV) { z3::expr b = treal(f->k[1]); s.add(z3::implies(b != 0, v * b == a)); continue; }
    switch (f->aux) {
      case F_SQRT: s.add(v >= 0); s.add(z3::implies(a >= 0, v * v == a)); break;
      case F_SIN: case F_COS: trig.insert(f->k[0]); break;
      case F_ASIN: s.add(v >= -pi() / 2 && v <= pi() / 2); break;
      case F_ACOS: s.add(v >= 0 && v <= pi()); s.add(z3::implies(a < 1, v > 0)); break;
      case F_ATAN2: s.add(v >= -pi() && v <= pi()); break;
      case F_FLOOR: s.add(v <= a && v > a - 1); s.add(z3::is_int(v)); break;
      default: break;
    }
  }
  for (E t : trig) { z3::expr sn = treal(mkRFun(F_SIN, t)), cs2 = treal(mkRFun(F_COS, t)); s.add(sn * sn + cs2 * cs2 == 1); }
}
static std::unordered_map<E, vector<E>> symsOf;
static const vector<E>& getSyms(E e) {
  auto it = symsOf.find(e); if (it != symsOf.end()) return it->second;
  std::set<E> r; if (e->op == SYM || e->op == RSYM || e->op == BITS || e->op == R2I) r.insert(e);
  for (int i = 0; i < e->n; i++) if (e->k[i]->sym) { auto& k = getSyms(e->k[i]); r.insert(k.begin(), k.end()); }
  return symsOf[e] = vector<E>(r.begin(), r.end());
}
enum Res { SAT, UNSAT, UNK };
static bool hasOp(E e, std::unordered_map<E, char>& memo) { auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = e->op >= FADD && e->op <= FISNAN; for (int i = 0; i < e->n && !r; i++) r = hasOp(e->k[i], memo); return memo[e] = r; }
static std::unordered_map<E, char> fpMemo, rMemo;
static bool hasReal(E e) { auto it = rMemo.find(e); if (it != rMemo.end()) return it->second; bool r = e->isReal(); for (int i = 0; i < e->n && !r; i++) r = hasReal(e->k[i]); return rMemo[e] = r; }
static std::map<vector<E>, std::pair<Res, Model>> qcache;
static z3::solver* bvSolver = nullptr; static int bvUses = 0;
// is PC(slice) && cond satisfiable
// first attempt for floating-point queries: products, quotients and square roots as arbitrary numbers of the right sign and kind
static void fpHeavy(E e, std::set<E>& seen, vector<E>& out) {
  if (!e->sym || !seen.insert(e).second) return;
  for (int i = 0; i < e->n; i++) fpHeavy(e->k[i], seen, out);
  if (e->op == FMUL || e->op == FDIV || e->op == FSQRT || e->op == FREM) out.push_back(e);
}
static bool fpAbstractUnsat(const vector<E>& sl, int toMs) {
  std::set<E> seen; vector<E> h; for (E e : sl) fpHeavy(e, seen, h); if (h.empty()) return false;
  z3::expr_vector src(zc), dst(zc), ax(zc); z3::expr T = zc.bool_val(true);
  auto is = [&](Z3_ast (*f)(Z3_context, Z3_ast), z3::expr x) { return z3::expr(zc, f(zc, x)); };
  for (E e : h) { // operands first
    z3::expr x = tfp(e->k[0]).substitute(src, dst); z3::expr v = zc.constant(("abs!" + std::to_string(e->id)).c_str(), fps(e->w));
    z3::expr nv = is(Z3_mk_fpa_is_nan, v), nx = is(Z3_mk_fpa_is_nan, x), sv = is(Z3_mk_fpa_is_negative, v), sx = is(Z3_mk_fpa_is_negative, x), zx = is(Z3_mk_fpa_is_zero, x), ix = is(Z3_mk_fpa_is_infinite, x);
    if (e->op == FSQRT) { ax.push_back(nv == (nx || (sx && !zx))); ax.push_back(nv || is(Z3_mk_fpa_is_zero, v) || !sv); }
    else if (e->op != FREM) { z3::expr y = tfp(e->k[1]).substitute(src, dst); z3::expr ny = is(Z3_mk_fpa_is_nan, y), sy = is(Z3_mk_fpa_is_negative, y), zy = is(Z3_mk_fpa_is_zero, y), iy = is(Z3_mk_fpa_is_infinite, y);
      ax.push_back(nv == (nx || ny || (e->op == FMUL ? (zx && iy) || (ix && zy) : (zx && zy) || (ix && iy)))); ax.push_back(nv || (sv == (sx != sy))); if (e->op == FMUL) ax.push_back(z3::implies(!nv && (zx || zy), is(Z3_mk_fpa_is_zero, v))); }
    src.push_back(tfp(e)); dst.push_back(v);
  }
  z3::solver sv(zc); z3::params p(zc); p.set("timeout", (unsigned)toMs); sv.set(p); for (E e : sl) sv.add(tbool(e).substitute(src, dst)); for (unsigned i = 0; i < ax.size(); i++) sv.add(ax[i]);
  return sv.check() == z3::unsat;
}
// truth tables: the values of one input byte for which a condition holds
struct Table { uint64_t w[4]; };
static const Table* tableOf(E e, E x) {
  static std::unordered_map<E, std::pair<bool, Table>> memo; auto it = memo.find(e); if (it != memo.end()) return it->second.first ? &it->second.second : nullptr;
  auto& r = memo[e]; r.first = true; memset(r.second.w, 0, sizeof r.second.w); Model m; u128 v; for (unsigned i = 0; i < (1u << x->w); i++) { m[x] = i; if (!evalE(e, m, v)) { r.first = false; return nullptr; } if (v) r.second.w[i >> 6] |= 1ull << (i & 63); }
  return &r.second; }
static Res solve(State& s, E cond, Model* out, int toMs, bool full = false, bool branch = false) {
  vector<E> sl; std::set<E> sy;
  if (full) { sl = s.pc; if (cond) sl.push_back(cond); }
  else {
    sy.insert(getSyms(cond).begin(), getSyms(cond).end()); vector<bool> used(s.pc.size()); bool ch = true; sl.push_back(cond);
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { auto& v = getSyms(s.pc[i]); bool hit = v.empty(); for (E x : v) if (sy.count(x)) { hit = true; break; } if (hit) { used[i] = true; ch = true; sl.push_back(s.pc[i]); sy.insert(v.begin(), v.end()); } } }
  }
  if (branch && sy.size() == 1 && (*sy.begin())->op == SYM && (*sy.begin())->w <= 8) { // a branch on one input byte: its table decides it
    E x = *sy.begin(); Table t; memset(t.w, 0xff, sizeof t.w); if (x->w < 8) { memset(t.w, 0, sizeof t.w); for (unsigned i = 0; i < (1u << x->w); i++) t.w[i >> 6] |= 1ull << (i & 63); } bool ok = true; for (E e : sl) { if (e->isConst()) { if (!e->val) memset(t.w, 0, sizeof t.w); continue; } const Table* q = hasReal(e) ? nullptr : tableOf(e, x); if (!q) { ok = false; break; } for (int i = 0; i < 4; i++) t.w[i] &= q->w[i]; }
    if (ok) { st.byteDecided++; for (int i = 0; i < 4; i++) if (t.w[i]) { if (out) { out->clear(); (*out)[x] = i * 64 + __builtin_ctzll(t.w[i]); } return SAT; } return UNSAT; } }
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
  auto qc = qcache.find(sl); if (qc != qcache.end()) { if (out) *out = qc->second.second; return qc->second.first; }
  st.queries++; double a = now(); bool fp = false, re = false; for (E e : sl) { if (hasOp(e, fpMemo)) fp = true; if (hasReal(e)) re = true; }
  Res r = UNK; Model m;
  try {
    z3::check_result cr; z3::model* mdl = nullptr; z3::model mm(zc);
    if (!fp && !re) {
      if (!bvSolver || bvUses++ > 400) { delete bvSolver; bvSolver = new z3::solver(zc, "QF_BV"); bvUses = 0; }
      z3::params p(zc); p.set("timeout", (unsigned)toMs); bvSolver->set(p);
      bvSolver->push(); for (E e : sl) bvSolver->add(tbool(e)); cr = bvSolver->check(); if (cr == z3::sat) { mm = bvSolver->get_model(); mdl = &mm; } 
      if (cr == z3::sat) for (E e : sl) for (E x : getSyms(e)) if (x->op == SYM && !m.count(x)) { z3::expr v = mm.eval(tbv(x), true); if (x->w <= 64) m[x] = v.get_numeral_uint64(); else { m[x] = ((u128)mm.eval(tbv(x).extract(x->w - 1, 64), true).get_numeral_uint64() << 64) | mm.eval(tbv(x).extract(63, 0), true).get_numeral_uint64(); } }
      bvSolver->pop();
    } else {
      z3::solver sv = re ? z3::solver(zc, z3::solver::simple()) : z3::solver(zc);
      z3::params p(zc); p.set("timeout", re ? std::min((unsigned)toMs, 700u) : (unsigned)toMs); if (re) p.set("rlimit", 400000u); sv.set(p);
      bool anySym = !re; if (re) for (E e : sl) for (E x : getSyms(e)) if (x->op == SYM) anySym = true;
      for (E e : sl) sv.add(tbool(e)); if (re) realAxioms(sv, sl); if (!re && fpAbstractUnsat(sl, std::min(toMs, 8000))) cr = z3::unsat; else
      if (re && !anySym) { // nonlinear arithmetic does not always honour time limits: decide in a child process
        pid_t ch = fork();
        if (ch == 0) { struct itimerval it{}; int lim = std::min(toMs, 700); it.it_value.tv_sec = lim / 1000; it.it_value.tv_usec = (lim % 1000) * 1000; signal(SIGALRM, SIG_DFL); setitimer(ITIMER_REAL, &it, nullptr);
          int rc = 12; try { z3::params q(zc); q.set("timeout", 4294967295u); q.set("rlimit", 0u); sv.set(q); z3::check_result c2 = sv.check(); rc = c2 == z3::sat ? 10 : c2 == z3::unsat ? 11 : 12; } catch (...) {} _exit(rc); }
        int ws = 0; if (ch > 0) waitpid(ch, &ws, 0); int rc = ch > 0 && WIFEXITED(ws) ? WEXITSTATUS(ws) : 12; cr = rc == 10 ? z3::sat : rc == 11 ? z3::unsat : z3::unknown; }
      else cr = sv.check(); if (cr == z3::sat) { mm = sv.get_model(); mdl = &mm; }
      if (mdl) for (E e : sl) for (E x : getSyms(e)) if (x->op == SYM && !m.count(x)) { z3::expr v = mm.eval(tbv(x), true); if (v.is_numeral() && x->w <= 64) m[x] = v.get_numeral_uint64(); }
    }
    r = cr == z3::sat ? SAT : cr == z3::unsat ? UNSAT : UNK;
  } catch (z3::exception& ex) { if (opt.verbose) std::cerr << "z3: " << ex.msg() << "\n"; r = UNK; delete bvSolver; bvSolver = nullptr; }
  double d = now() - a; st.solver += d; if (opt.verbose && d > 1) std::cerr << "slow query " << d << "s res=" << r << " at " << instLoc(s) << "\n";
  if (r == UNK) st.unknown++;
  if (r != UNK) qcache[sl] = {r, m};
  if (out) *out = m; return r;
}
static void mergeModel(State& s, const Model& m) { for (auto& kv : m) s.model[kv.first] = kv.second; }
static void addPC(State& s, E c) { if (c->isConst()) return; if (s.pcset.insert(c).second) { if (c->op == AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } s.pc.push_back(c); } }
// feasibility of both sides. Returns bitmask 1: true feasible, 2: false feasible. mt/mf models
static int feas(State& s, E c, Model& mt, Model& mf, bool& okT, bool& okF) {
  okT = okF = false;
  if (c->isConst()) { okT = okF = s.modelOk; mt = mf = Model(); return c->val ? 1 : 2; }
  if (s.pcset.count(c)) { okT = s.modelOk; return 1; } E nc = mkNot(c); if (s.pcset.count(nc)) { okF = s.modelOk; return 2; }
  int r = 0; u128 v; bool haveT = false, haveF = false;
  if (s.modelOk && !hasReal(c) && evalE(c, s.model, v)) { if (v) { haveT = true; okT = true; } else { haveF = true; okF = true; } }
  int ms = opt.branchMs;
  if (haveT) r |= 1; else { Res q = solve(s, c, &mt, ms, false, true); if (q != UNSAT) r |= 1; okT = q == SAT && !hasReal(c) && s.modelOk; }
  if (haveF) r |= 2; else if (r == 0) { r |= 2; okF = s.modelOk; } else { Res q = solve(s, nc, &mf, ms, false, true); if (q != UNSAT) r |= 2; okF = q == SAT && !hasReal(c) && s.modelOk; }
  return r;
}
static State* cloneState(State& s) { State* n = new State(s); st.forks++; s.forks++; n->forks++; return n; }
// decide a condition: returns its truth in s, pushing the other side as a new state re-executing the current instruction
static bool decide(State& s, E c) {
  if (c->isConst()) return c->val;
  Model mt, mf; bool okT, okF; int r = feas(s, c, mt, mf, okT, okF);
  if (r == 3) {
    State* n = cloneState(s); addPC(*n, mkNot(c)); n->modelOk = okF; if (okF) mergeModel(*n, mf); work.push_back(n);
    addPC(s, c); s.modelOk = okT; if (okT) mergeModel(s, mt); return true;
  }
  if (r == 1) { addPC(s, c); return true; } addPC(s, mkNot(c)); return false;
}
// truncate a symbolic real: one path per feasible integer value (linear search outwards in powers of two, then bisection)
static E realToInt(State& s, E a, unsigned w, bool sg) {
  auto lt = [&](E x, i128 k) { return decide(s, mkOp(RLT, 1, x, mkR(Rat(Int((long long)k))))); };
  if (sg && w <= 62 && (decide(s, mkOp(RLT, 1, a, mkR(Rat(Int(-(1ll << (w - 1))))))) || !lt(a, (i128)1 << (w - 1)))) return mkC(w, (u128)1 << (w - 1)); // out of range: what the processor's conversion gives
  bool neg = lt(a, 0); E x = neg ? mkRNeg(a) : a; if (neg && !sg) { problem("negative real to unsigned at " + instLoc(s)); throw PathEnd{"unsupported"}; }
  i128 hi = 1; while (!lt(x, hi)) { hi *= 2; if (hi > ((i128)1 << 61)) { problem("real too large for an integer at " + instLoc(s)); throw PathEnd{"unsupported"}; } }
  i128 lo = hi == 1 ? 0 : hi / 2; while (hi - lo > 1) { i128 m = lo + (hi - lo) / 2; if (lt(x, m)) hi = m; else lo = m; }
  return mkC(w, (u128)(neg ? -lo : lo));
}
// an integer expression that depends on comparisons of reals: decide them (forking), leaving an expression without reals
static E splitReal(State& s, E e) {
  if (e->isConst() || e->isReal() || !hasReal(e)) return e;
  if (e->w == 1 && e->op != AND && e->op != OR && e->op != XOR && e->op != ITE) { bool ra = false; for (int i = 0; i < e->n; i++) if (e->k[i]->isReal()) ra = true; if (ra) return mkC(1, decide(s, e)); }
  if (e->op == ITE) { E c = splitReal(s, e->k[0]); if (c->isConst()) return splitReal(s, c->val ? e->k[1] : e->k[2]); return mkIte(c, splitReal(s, e->k[1]), splitReal(s, e->k[2])); }
  E k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < e->n; i++) { if (e->k[i]->isReal()) return e; k[i] = splitReal(s, e->k[i]); }
  return mkOp(e->op, e->w, k[0], k[1], k[2], e->aux);
}
static u128 concretize(State& s, E e) {
  e = splitReal(s, e); if (e->isConst()) return e->val;
  u128 v; Model m;
  if (!(s.modelOk && !hasReal(e) && evalE(e, s.model, v))) {
    if (solve(s, mkC(1, 1), &m, opt.timeoutMs, true) != SAT) throw PathEnd{"infeasible"}; mergeModel(s, m); if (!evalE(e, s.model, v)) throw PathEnd{"cannot concretize"};
  }
  E eq = mkOp(EQ, 1, e, mkC(e->w, v)); decide(s, eq) ; 
  if (!s.pcset.count(eq) && !eq->isConst()) { // decided false: cannot happen because model satisfies eq
    E c2 = mkNot(eq); (void)c2; }
  return v;
}
// ---------------------------------------------------------------- violations
static string valStr(E sy, const Model& m) { auto it = m.find(sy); u128 v = it == m.end() ? 0 : it->second; if (sy->w <= 64) return std::to_string((uint64_t)v); char b[64]; snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
static map<string, int> violCount;
static void violation(State& s, const string& kind, const string& msg, E cond /* negated assertion or null */) {
  if (opt.real) { RQuery q; q.msg = msg; q.kind = kind; q.pc = s.pc; if (cond) q.pc.push_back(cond); q.goal = mkC(1, 0); q.loc = btrace(s); rqueries.push_back(q); return; }
  string key = kind + "|" + msg; if (violCount[key]++ >= 3) return;
  Model m; Res r = solve(s, cond ? cond : mkC(1, 1), &m, opt.timeoutMs * 3, true);
  if (r == UNSAT) return; if (r == UNK) { unknownAsserts[key]++; violCount[key]--; return; }
  Viol v; v.kind = kind; v.msg = msg; for (E x : s.syms) if (x->op == SYM) v.values[symName(x)] = valStr(x, m); v.trace = btrace(s); v.notes = s.notes;
  string sch; for (int t : s.schedTrace) sch += std::to_string(t) + ","; if (!s.schedTrace.empty()) v.values["__sched"] = sch;
  viols.push_back(v); if (opt.verbose) { std::cerr << "VIOL " << kind << " " << msg << " at " << v.trace << "\n"; for (auto& kv : v.values) std::cerr << "   " << kv.first << "=" << kv.second << "\n"; }
}
static void doAssert(State& s, E c, const string& msg) {
  st.asserts++;
  if (c->isConst() && c->val) { st.assertSimpl++; return; }
  if (opt.real) { if (s.pcset.count(c)) { st.assertSimpl++; return; } RQuery q; q.msg = msg; q.kind = "assert"; q.pc = s.pc; q.goal = c; q.loc = btrace(s); rqueries.push_back(q);
    if (c->isConst()) throw PathEnd{"assert false"}; return; }
  if (c->isConst()) { violation(s, "assert", msg, nullptr); throw PathEnd{"assert false"}; }
  E nc = mkNot(c); u128 v;
  if (s.modelOk && evalE(nc, s.model, v) && v) { violation(s, "assert", msg, nc); }
  else { Model m; Res r = solve(s, nc, &m, opt.timeoutMs); if (r == UNSAT) { st.assertUnsat++; addPC(s, c); return; } if (r == UNK) { unknownAsserts[msg]++; addPC(s, c); return; } violation(s, "assert", msg, nc); }
  // continue on the passing side
  Model m; Res r = solve(s, c, &m, opt.branchMs); if (r == UNSAT) throw PathEnd{"assert always false"}; addPC(s, c); if (r == SAT) { mergeModel(s, m); s.modelOk = s.modelOk; u128 vv; if (!(evalE(c, s.model, vv) && vv)) s.modelOk = false; } else s.modelOk = false;
}
// ---------------------------------------------------------------- memory
static ObjP newObj(State& s, uint64_t base, uint64_t size, int kind, bool init0) {
  ObjP o = std::make_shared<Obj>(); o->base = base; o->size = size; o->kind = kind; o->val.assign(size, 0); o->st.assign(size, init0 ? 1 : 0); s.mem[base] = o; return o;
}
static uint64_t allocHeap(State& s, uint64_t size, bool init0 = false, uint64_t align = 16) { if (align < 16) align = 16; uint64_t b = (s.nextHeap + align - 1) / align * align; s.nextHeap = b + size + 32; newObj(s, b, size, 2, init0); return b; }
static ObjP* findObj(State& s, uint64_t a) { auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it; Obj* o = it->second.get(); if (a >= o->base && (a < o->base + o->size || (a == o->base))) return &it->second; return nullptr; }
static ObjP& writable(ObjP& p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p; }
static int uninitCtr = 0;
static bool isFPTy(Type* t) { return t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty(); }
static unsigned fpW(Type* t) { return t->isFloatTy() ? 32 : 64; }
// a construct the executor cannot model: only matters if the path that reached it is feasible
[[noreturn]] static void unsup(State& s, const string& m) {
  if (opt.real && !s.initPhase) { RQuery q; q.msg = m; q.kind = "unsupported"; q.pc = s.pc; q.goal = mkC(1, 0); q.loc = btrace(s); rqueries.push_back(q); }
  else if (s.initPhase || solve(s, mkC(1, 1), nullptr, opt.timeoutMs, true) != UNSAT) problem(m);
  throw PathEnd{"unsupported"};
}
static void memErr(State& s, const string& m) { violation(s, "memory", m + " at " + instLoc(s), nullptr); throw PathEnd{"memory error"}; }
static E toReal(E e) { if (e->isReal()) return e; if (e->isConst()) return e->w == 32 ? mkRd(bits2f((uint32_t)e->val)) : mkRd(bits2d((uint64_t)e->val)); if (e->op == BITS) return e->k[0];
  if (e->op == ITE) return mkIte(e->k[0], toReal(e->k[1]), toReal(e->k[2])); return nullptr; }
static E freshSym(State& s, unsigned w, const string& base) { int n = s.symCount[base]++; string nm = base + (n ? "#" + std::to_string(n) : ""); static map<std::pair<string,unsigned>, E> cache; E& c = cache[{nm, w}]; if (!c) c = w ? mkSym(w, nm) : mkRSym(nm); s.syms.push_back(c); return c; }
static E byteOf(const Cell& c) { E e = c.e; if (e->isReal()) e = mkOp(BITS, c.sz * 8, e); return mkExtract(e, c.idx * 8, 8); }
static E loadRaw(State& s, ObjP& op, uint64_t off, unsigned n, bool wantReal) {
  Obj* o = op.get(); bool allc = true, allu = true; for (unsigned i = 0; i < n; i++) { if (o->st[off + i] != 1) allc = false; if (o->st[off + i] != 0) allu = false; }
  if (allc) { u128 v = 0; for (int i = n - 1; i >= 0; i--) v = (v << 8) | o->val[off + i]; E c = mkC(n * 8, v); return wantReal ? toReal(c) : c; }
  if (allu) { E f = freshSym(s, wantReal ? 0 : n * 8, "uninit"); writable(op); o = op.get(); for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = Cell{f, (uint8_t)i, (uint8_t)n}; } return f; }
  // same expression?
  if (o->st[off] == 2) { Cell c0 = o->sym[off]; if (c0.idx == 0 && c0.sz == n) { bool same = true; for (unsigned i = 1; i < n && same; i++) { auto it = o->st[off + i] == 2 ? o->sym.find(off + i) : o->sym.end(); if (it == o->sym.end() || it->second.e != c0.e || it->second.idx != i || it->second.sz != n) same = false; }
      if (same) { if (wantReal) { E r = toReal(c0.e); if (r) return r; } else return c0.e->isReal() ? mkOp(BITS, n * 8, c0.e) : c0.e; } } }
  E r = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    E b; if (o->st[off + i] == 1) b = mkC(8, o->val[off + i]);
    else if (o->st[off + i] == 2) b = byteOf(o->sym[off + i]);
    else { b = freshSym(s, 8, "uninit"); writable(op); o = op.get(); o->st[off + i] = 2; o->sym[off + i] = Cell{b, 0, 1}; }
    r = r ? mkConcat(r, b) : b;
  }
  if (wantReal) { E q = toReal(r); if (!q) { problem("real load of symbolic integer bytes at " + instLoc(s)); throw PathEnd{"unsupported"}; } return q; }
  return r;
}
static void storeRaw(State& s, ObjP& op, uint64_t off, unsigned n, E e) {
  writable(op); Obj* o = op.get();
  if (e->isReal() && !e->sym && e->op == RCONST) { bool ok; double d = rconstVal(e, ok); // keep exact rational when not representable
    Rat back; if (ok && n == 8 && mkRd(d) == e) e = mkC(64, d2bits(d)); else if (ok && n == 4 && mkRd((double)(float)d) == e) e = mkC(32, f2bits((float)d)); }
  if (e->isReal() && e->op == RSPECIAL) { double d = bits2d((uint64_t)e->val); e = n == 4 ? mkC(32, f2bits((float)d)) : mkC(64, d2bits(d)); }
  if (e->isConst()) { u128 v = e->val; for (unsigned i = 0; i < n; i++) { if (o->st[off + i] == 2) o->sym.erase(off + i); o->val[off + i] = i < 16 ? (uint8_t)(v >> (8 * i)) : 0; o->st[off + i] = 1; } return; }
  unsigned ew = e->isReal() ? n : (e->w + 7) / 8; if (!e->isReal() && e->w != n * 8) e = mkZ(e, n * 8); (void)ew;
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = Cell{e, (uint8_t)i, (uint8_t)n}; }
}
static void schedPoint(State& s);
static void checkWatch(State& s, uint64_t a, unsigned n);
static ObjP& access(State& s, uint64_t a, uint64_t n, bool wr) {
  ObjP* p = findObj(s, a);
  if (!p) { if (a < 4096) memErr(s, "null pointer access"); memErr(s, "wild pointer access"); }
  Obj* o = p->get(); if (o->freed) memErr(s, "use after free");
  if (a + n > o->base + o->size) memErr(s, "out-of-bounds access");
  if (wr && o->ro) memErr(s, "write to constant");
  return *p;
}
// resolve a possibly symbolic address
static E loadMem(State& s, E addr, unsigned n, bool wantReal) {
  addr = splitReal(s, addr);
  if (!addr->isConst()) {
    u128 v; Model m; 
    if (!(s.modelOk && evalE(addr, s.model, v))) { if (solve(s, mkC(1, 1), &m, opt.timeoutMs, true) == UNSAT) throw PathEnd{"infeasible"}; mergeModel(s, m); if (!evalE(addr, s.model, v)) throw PathEnd{"addr"}; }
    ObjP* p = findObj(s, (uint64_t)v);
    if (p && !(*p)->freed && (*p)->size <= 4096 && (*p)->size >= n) {
      Obj* o = p->get(); E lo = mkOp(ULE, 1, mkC(64, o->base), addr), hi = mkOp(ULE, 1, addr, mkC(64, o->base + o->size - n)); E in = mkAnd1(lo, hi);
      Model mm; if (solve(s, mkNot(in), &mm, opt.branchMs, false, true) == UNSAT) {
        // feasible offsets: use stride from the expression value set (try congruence with element size)
        E r = nullptr; uint64_t stride = 1; for (uint64_t c = 16; c > 1; c /= 2) { if (o->size / c < 2) continue; E al = mkOp(EQ, 1, mkOp(UREM, 64, mkOp(SUB, 64, addr, mkC(64, o->base)), mkC(64, c)), mkC(64, (v - o->base) % c)); if (solve(s, mkNot(al), &mm, opt.branchMs, false, true) == UNSAT) { stride = c; break; } }
        uint64_t start = ((uint64_t)v - o->base) % stride; vector<std::pair<uint64_t, E>> alts;
        // narrow by bounds
        for (uint64_t off = start; off + n <= o->size; off += stride) alts.push_back({off, nullptr});
        if (alts.size() <= 600) {
          // bounds via solver (binary-ish): find min and max feasible cheaply
          for (auto& al : alts) { E lv = loadRaw(s, *findObj(s, (uint64_t)v), al.first, n, wantReal); al.second = lv; }
          for (auto& al : alts) r = r ? mkIte(mkOp(EQ, 1, addr, mkC(64, o->base + al.first)), al.second, r) : al.second;
          return r;
        }
      }
    }
  }
  uint64_t a = (uint64_t)concretize(s, addr); ObjP& p = access(s, a, n, false); return loadRaw(s, p, a - p->base, n, wantReal);
}
static Val loadTy(State& s, E addr, Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    Val v; v.agg = std::make_shared<vector<Val>>();
    if (auto* S = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) v.agg->push_back(loadTy(s, mkOp(ADD, 64, addr, mkC(64, L->getElementOffset(i))), S->getElementType(i))); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t es = DL->getTypeAllocSize(et);
      for (uint64_t i = 0; i < n; i++) v.agg->push_back(loadTy(s, mkOp(ADD, 64, addr, mkC(64, i * es)), et)); }
    return v;
  }
  if (isFPTy(t)) { unsigned n = t->isX86_FP80Ty() ? 8 : fpW(t) / 8; return loadMem(s, addr, n, opt.real); }
  unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); unsigned n = (w + 7) / 8; E e = loadMem(s, addr, n, false); if (e->w != w) e = mkExtract(e, 0, w); return e;
}
static void storeTy(State& s, uint64_t a, Type* t, const Val& v) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (auto* S = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) storeTy(s, a + L->getElementOffset(i), S->getElementType(i), (*v.agg)[i]); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (uint64_t i = 0; i < v.agg->size(); i++) storeTy(s, a + i * es, et, (*v.agg)[i]); }
    return;
  }
  unsigned n; if (isFPTy(t)) n = t->isX86_FP80Ty() ? 8 : fpW(t) / 8; else { unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); n = (w + 7) / 8; }
  ObjP& p = access(s, a, n, true); E e = v.e; if (!e) e = mkC(n * 8, 0); if (!e->isReal() && e->w != n * 8) e = mkZ(e, n * 8); storeRaw(s, p, a - p->base, n, e);
}
static string readCStr(State& s, E p) {
  if (!p->isConst()) return "?"; uint64_t a = (uint64_t)p->val; string r; for (int i = 0; i < 400; i++) { ObjP* o = findObj(s, a + i); if (!o || a + i >= (*o)->base + (*o)->size) break; uint64_t off = a + i - (*o)->base; if ((*o)->st[off] != 1) { r += "?"; continue; } char c = (*o)->val[off]; if (!c) break; r += c; } return r;
}
static void copyMem(State& s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return; ObjP& sp = access(s, sr, n, false); ObjP src = sp; access(s, d, n, true); ObjP& dp = *findObj(s, d); writable(dp); Obj* D = dp.get(); Obj* S = src.get(); uint64_t so = sr - S->base, dof = d - D->base;
  vector<uint8_t> v(S->val.begin() + so, S->val.begin() + so + n), t(S->st.begin() + so, S->st.begin() + so + n); vector<std::pair<uint32_t, Cell>> cs; for (auto it = S->sym.lower_bound(so); it != S->sym.end() && it->first < so + n; ++it) cs.push_back({it->first - so, it->second});
  D->sym.erase(D->sym.lower_bound(dof), D->sym.lower_bound(dof + n)); memcpy(&D->val[dof], v.data(), n); memcpy(&D->st[dof], t.data(), n); for (auto& c : cs) D->sym[dof + c.first] = c.second;
}
// ---------------------------------------------------------------- constants
static Val evalConst(Constant* c);
static uint64_t funcAddr(const GlobalValue* g) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; static uint64_t nextF = 0x80000000ull; uint64_t a = nextF; nextF += 16; gaddr[g] = a; if (auto* f = dyn_cast<Function>(g)) faddr[a] = const_cast<Function*>(f); return a; }
static uint64_t gepOff(GEPOperator* g, std::function<E(Value*)> ev, E& dyn) {
  uint64_t off = 0; dyn = nullptr;
  for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
    Value* idx = ti.getOperand();
    if (StructType* S = ti.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
    uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType()); E i = ev(idx); i = mkS(i, 64);
    if (i->isConst()) off += (uint64_t)i->val * sz; else { E d = mkOp(MUL, 64, i, mkC(64, sz)); dyn = dyn ? mkOp(ADD, 64, dyn, d) : d; }
  }
  return off;
}
static Val zeroOf(Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { Val v; v.agg = std::make_shared<vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) v.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType())); return v; }
  if (isFPTy(t)) return opt.real ? mkR(Rat(0)) : mkC(fpW(t), 0);
  if (t->isPointerTy()) return mkC(64, 0); if (t->isIntegerTy()) return mkC(t->getIntegerBitWidth(), 0); return Val();
}
static u128 ap(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; return v; }
static Val fpConst(const APFloat& f0, Type* t) { APFloat f = f0; bool li; if (t->isX86_FP80Ty()) f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); if (opt.real) { double d = t->isFloatTy() ? (double)f.convertToFloat() : f.convertToDouble();
    if (t->isFloatTy() && std::isfinite(d)) { // idealise via the shortest decimal
      } return mkRd(d); }
  return t->isFloatTy() ? mkC(32, f2bits(f.convertToFloat())) : mkC(64, d2bits(f.convertToDouble())); }
static Val evalOpConst(unsigned opc, Type* t, Val a, Val b);
static Val evalConst0(Constant* c) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) return mkC(i->getBitWidth(), ap(i->getValue()));
  if (auto* f = dyn_cast<ConstantFP>(c)) return fpConst(f->getValueAPF(), t);
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return zeroOf(t);
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { return mkC(64, funcAddr(g)); }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (auto& o : a->operands()) v.agg->push_back(evalConst(cast<Constant>(o))); return v; }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < a->getNumElements(); i++) v.agg->push_back(evalConst(a->getElementAsConstant(i))); return v; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { E dyn; uint64_t off = gepOff(cast<GEPOperator>(e), [](Value* v) { return evalConst(cast<Constant>(v)).e; }, dyn); E b = evalConst(e->getOperand(0)).e; return mkOp(ADD, 64, b, mkC(64, off)); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(e->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { E x = evalConst(e->getOperand(0)).e; unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); return mkZ(x, w); }
      case Instruction::Add: return mkOp(ADD, t->getIntegerBitWidth(), evalConst(e->getOperand(0)).e, evalConst(e->getOperand(1)).e);
      case Instruction::Sub: return mkOp(SUB, t->getIntegerBitWidth(), evalConst(e->getOperand(0)).e, evalConst(e->getOperand(1)).e);
      case Instruction::ICmp: { E a = evalConst(e->getOperand(0)).e, b = evalConst(e->getOperand(1)).e; E q = mkOp(EQ, 1, a, b); return e->getPredicate() == CmpInst::ICMP_EQ ? q : mkNot(q); }
      default: break;
    }
  }
  string s; raw_string_ostream os(s); c->print(os); problem("constant " + s.substr(0, 100)); return zeroOf(t);
}
static Val evalConst(Constant* c) { auto it = ccache.find(c); if (it != ccache.end()) return it->second; Val v = evalConst0(c); ccache[c] = v; return v; }
static void initGlobal(State& s, uint64_t a, Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // already zeroed
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); ObjP& o = *findObj(s, a); memcpy(&o->val[a - o->base], r.data(), r.size()); return; }
  if (auto* S = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initGlobal(s, a + L->getElementOffset(i), S->getOperand(i)); return; }
  if (auto* A = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initGlobal(s, a + i * es, A->getOperand(i)); return; }
  if (isFPTy(t)) { auto* f = cast<ConstantFP>(c); ObjP& o = *findObj(s, a); APFloat v = f->getValueAPF(); bool li; if (t->isX86_FP80Ty()) v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); if (t->isFloatTy()) { float x = v.convertToFloat(); memcpy(&o->val[a - o->base], &x, 4); } else { double x = v.convertToDouble(); memcpy(&o->val[a - o->base], &x, 8); } return; }
  Val v = evalConst(c); bool ro = false; ObjP& o = *findObj(s, a); ro = o->ro; o->ro = false; storeTy(s, a, t, v); (*findObj(s, a))->ro = ro;
}
static FuncInfo* getFI(Function* F) {
  auto it = finfo.find(F); if (it != finfo.end()) return it->second; FuncInfo* fi = new FuncInfo(); for (auto& a : F->args()) fi->slot[&a] = fi->n++; for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->n++; finfo[F] = fi; return fi;
}
static map<string, Function*> overrides;
static void pushFrame(State& s, Function* F, vector<Val>& args, CallBase* cb) {
  Frame f; f.F = F; f.fi = getFI(F); f.bb = &F->getEntryBlock(); f.prev = nullptr; f.it = f.bb->begin(); f.regs.resize(f.fi->n); f.call = cb; unsigned na = F->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); i++) {
    f.regs[i] = args[i];
    if (cb && i < cb->arg_size() && cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt); uint64_t a = (s.nextStack + 31) / 32 * 32; s.nextStack = a + sz + 32; newObj(s, a, sz, 1, false); f.allocas.push_back(a); copyMem(s, a, (uint64_t)concretize(s, args[i].e), sz); f.regs[i] = mkC(64, a); }
  }
  for (unsigned i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
  executed.insert(F); s.stack().push_back(std::move(f)); if (s.stack().size() > 4000) { violation(s, "hang", "stack overflow (recursion) in " + demangle(F->getName().str()), nullptr); throw PathEnd{"stack overflow"}; }
}
static void popFrame(State& s) { Frame& f = s.stack().back(); for (uint64_t a : f.allocas) { auto it = s.mem.find(a); if (it != s.mem.end()) s.mem.erase(it); } s.stack().pop_back(); }
static void setReg(Frame& f, const Value* v, const Val& x) { auto it = f.fi->slot.find(v); if (it != f.fi->slot.end()) f.regs[it->second] = x; }
static Val getV(State& s, Value* v) { if (auto* c = dyn_cast<Constant>(v)) return evalConst(c); Frame& f = s.stack().back(); auto it = f.fi->slot.find(v); if (it == f.fi->slot.end()) { problem("value"); return Val(); } Val& r = f.regs[it->second]; return r; }
static E getE(State& s, Value* v) { Val x = getV(s, v); if (!x.e) { if (x.agg) return nullptr; return zeroOf(v->getType()).e; } return x.e; }
// ---------------------------------------------------------------- exceptions
static vector<std::pair<uint64_t, uint64_t>> tiBases(State& s, uint64_t ti) {
  vector<std::pair<uint64_t, uint64_t>> r; static map<uint64_t, string> rn; if (rn.empty()) for (auto& kv : gname) rn[kv.second] = kv.first;
  string nm = rn.count(ti) ? rn[ti] : ""; 
  static const map<string, string> stdb = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt13bad_exception","_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISo","_ZTISt9basic_iosIcSt11char_traitsIcEE"}};
  auto it = stdb.find(nm); if (it != stdb.end()) { auto g = gname.find(it->second); if (g != gname.end()) r.push_back({g->second, 0}); return r; }
  ObjP* o = findObj(s, ti); if (!o || (*o)->size < 24 || (*o)->name == "extern") return r;
  E vt = loadRaw(s, *o, ti - (*o)->base, 8, false); if (!vt->isConst()) return r; uint64_t v = (uint64_t)vt->val - 16; string vn = rn.count(v) ? rn[v] : "";
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") { E b = loadRaw(s, *o, ti - (*o)->base + 16, 8, false); r.push_back({(uint64_t)b->val, 0}); }
  else if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint64_t base = ti - (*o)->base; uint32_t n = (uint32_t)loadRaw(s, *o, base + 20, 4, false)->val; for (uint32_t i = 0; i < n; i++) { uint64_t b = (uint64_t)loadRaw(s, *o, base + 24 + 16 * i, 8, false)->val; int64_t fl = (int64_t)(uint64_t)loadRaw(s, *o, base + 32 + 16 * i, 8, false)->val; uint64_t off = (uint64_t)(fl >> 8); if (fl & 1) off |= 1ull << 62; r.push_back({b, off}); } }
  return r;
}
static string tiName(uint64_t ti) { for (auto& kv : gname) if (kv.second == ti) return demangle(kv.first); return "?"; }
static bool isBase(State& s, uint64_t from, uint64_t to, uint64_t obj, uint64_t& off) {
  if (from == to) { return true; }
  for (auto& b : tiBases(s, from)) { uint64_t o2 = off; if (b.second & (1ull << 62)) { int64_t vo = (int64_t)((b.second & ~(1ull << 62)) | ((b.second & (1ull << 61)) ? (3ull << 62) : 0)); // virtual base: offset in vtable
      if (obj) { E vp = loadMem(s, mkC(64, obj + off), 8, false); if (vp->isConst()) { E vv = loadMem(s, mkC(64, (uint64_t)vp->val + vo), 8, false); if (vv->isConst()) o2 = off + (uint64_t)vv->val; } } }
    else o2 = off + b.second; if (isBase(s, b.first, to, obj, o2)) { off = o2; return true; } }
  return false;
}
static map<uint64_t, int> typeIds; static int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[ti] = n; }
static map<string,int> uncaughtOK;
static bool unwind(State& s) { // with T().inflight set; returns false if uncaught
  while (true) {
    Frame& f = s.stack().back(); CallBase* cb = nullptr; 
    // current frame: does its current instruction (a call) have an unwind dest
    if (auto* inv = dyn_cast<InvokeInst>(&*f.it)) {
      BasicBlock* ud = inv->getUnwindDest(); auto* lp = cast<LandingPadInst>(ud->getLandingPadInst()); bool go = lp->isCleanup(); int sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        Constant* cl = lp->getClause(i);
        if (lp->isCatch(i)) { uint64_t ti = (uint64_t)evalConst(cl).e->val; if (ti == 0) { go = true; sel = typeId(0); s.excAdj[s.T().inflight.ptr] = 0; break; } uint64_t off = 0; if (isBase(s, s.T().inflight.tinfo, ti, s.T().inflight.ptr, off)) { go = true; sel = typeId(ti); s.excAdj[s.T().inflight.ptr] = off; break; } }
        else { bool allowed = false; if (auto* ca = dyn_cast<ConstantArray>(cl)) for (auto& o : ca->operands()) { uint64_t ti = (uint64_t)evalConst(cast<Constant>(o)).e->val; uint64_t off = 0; if (ti == 0 || isBase(s, s.T().inflight.tinfo, ti, 0, off)) allowed = true; } if (!allowed) { go = true; sel = -1; break; } }
      }
      if (go) {
        // jump
        Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back(mkC(64, s.T().inflight.ptr)); v.agg->push_back(mkC(32, (uint32_t)sel)); BasicBlock* from = f.bb; f.prev = from; f.bb = ud; 
        // phis
        vector<std::pair<const Value*, Val>> ph; for (auto& I : *ud) { auto* p = dyn_cast<PHINode>(&I); if (!p) break; ph.push_back({p, getV(s, p->getIncomingValueForBlock(from))}); } for (auto& x : ph) setReg(f, x.first, x.second);
        f.it = ud->getFirstNonPHIIt(); setReg(f, lp, v); ++f.it; return true;
      }
    }
    (void)cb; popFrame(s); if (s.stack().empty()) return false;
  }
}
static void reportUncaught(State& s, const string& msg, const string& tn, const string& tr) {
  if (opt.real) { RQuery q; q.msg = msg; q.kind = "exception"; q.pc = s.pc; q.goal = mkC(1, 0); rqueries.push_back(q); return; }
  string key = "uncaught|" + tn; if (violCount[key] >= 3) return;
  Model m; Res r = solve(s, mkC(1, 1), &m, opt.timeoutMs, true); if (opt.verbose) std::cerr << msg << " -> " << (r == SAT ? "sat" : r == UNK ? "unknown" : "unsat") << "\n";
  if (r == UNK) { unknownAsserts[key]++; return; } if (r != SAT) return;
  violCount[key]++; Viol v; v.kind = "exception"; v.msg = msg; for (E x : s.syms) if (x->op == SYM) v.values[symName(x)] = valStr(x, m); v.notes = s.notes; v.trace = tr; viols.push_back(v);
  if (opt.verbose) for (auto& kv : v.values) std::cerr << "   " << kv.first << "=" << kv.second << "\n";
}
static void throwExc(State& s, uint64_t ptr, uint64_t ti) {
  s.T().inflight = Exc{ptr, ti}; string tn = tiName(ti); string tr = btrace(s);
  if (!unwind(s)) {
    if (s.initPhase) throw PathEnd{"exception in init"};
    // restore minimal context for message
    Thread& t = s.T(); t.done = true; Frame dummy; (void)dummy;
    reportUncaught(s, "uncaught exception " + tn + " from " + tr.substr(0, 200), tn, tr);
    throw PathEnd{"uncaught"};
  }
}
static void throwStd(State& s, const string& ti) { // throw an object of a std type without running its constructor (message empty)
  auto g = gname.find(ti); if (g == gname.end()) { problem("no typeinfo " + ti); throw PathEnd{"unsupported"}; }
  uint64_t p = allocHeap(s, 64, true); auto vt = gname.find("sxvt" + ti); if (vt != gname.end()) { ObjP& o = *findObj(s, p); storeRaw(s, o, 0, 8, mkC(64, vt->second + 16)); } s.excObj[p] = g->second; throwExc(s, p, g->second);
}
// ---------------------------------------------------------------- control
static void gotoBB(State& s, BasicBlock* to) {
  Frame& f = s.stack().back(); BasicBlock* from = f.bb; vector<std::pair<const Value*, Val>> ph; auto it = to->begin();
  for (; it != to->end(); ++it) { auto* p = dyn_cast<PHINode>(&*it); if (!p) break; ph.push_back({p, getV(s, p->getIncomingValueForBlock(from))}); }
  for (auto& x : ph) setReg(f, x.first, x.second); f.prev = from; f.bb = to; f.it = it;
}
static void finishCall(State& s, Instruction* I, const Val& r) { // result of a builtin call at the current instruction
  Frame& f = s.stack().back(); if (!I->getType()->isVoidTy()) setReg(f, I, r); if (auto* inv = dyn_cast<InvokeInst>(I)) gotoBB(s, inv->getNormalDest()); else ++f.it;
}
static void doRet(State& s, Val r) {
  Frame& f = s.stack().back(); CallBase* cb = f.call; popFrame(s);
  if (s.stack().empty()) { s.T().done = true; return; }
  if (cb) finishCall(s, cb, r);
}
// ---------------------------------------------------------------- threads
static vector<int> enabled(State& s) { vector<int> r; for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i].done && !s.th[i].blocked) r.push_back(i); return r; }
static void switchAway(State& s) { // current thread finished or blocked: pick any other (forks)
  auto en = enabled(s);
  if (en.empty()) { bool allDone = true; for (auto& t : s.th) if (!t.done) allDone = false; if (allDone) throw PathEnd{"done"};
    int who = -1; for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i].done) { who = i; break; } s.cur = who; violation(s, "deadlock", "no thread can make progress", nullptr); throw PathEnd{"deadlock"}; }
  for (size_t i = 1; i < en.size(); i++) { State* n = cloneState(s); n->cur = en[i]; n->schedTrace.push_back(en[i]); n->schedJust = true; work.push_back(n); }
  s.cur = en[0]; s.schedTrace.push_back(en[0]); s.schedJust = true;
}
// a scheduling point before the current instruction executes: optionally preempt
static void schedPoint(State& s) {
  if (s.th.size() < 2) return; if (s.schedJust) { s.schedJust = false; return; }
  auto en = enabled(s); s.schedTrace.push_back(s.cur);
  if (s.preemptions < opt.preempt) for (int t : en) if (t != s.cur) { State* n = cloneState(s); n->schedTrace.back() = t; n->cur = t; n->preemptions++; n->schedJust = true; work.push_back(n); }
}
static void checkWatch(State& s, uint64_t a, unsigned n) { for (auto& w : s.watch) if (a < w.first + w.second && a + n > w.first) { schedPoint(s); return; } }

static E castop(State& s, unsigned opc, Type* from, Type* to, E a);
static E binop(State& s, unsigned opc, Type* t, E a, E b);
template <class Fn> static Val lift1(const Val& a, Fn fn) { if (!a.agg) return fn(a.e); Val r; r.agg = std::make_shared<vector<Val>>(); for (auto& x : *a.agg) r.agg->push_back(fn(x.e)); return r; }
template <class Fn> static Val lift2(const Val& a, const Val& b, Fn fn) { if (!a.agg) return fn(a.e, b.e); Val r; r.agg = std::make_shared<vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(fn((*a.agg)[i].e, (*b.agg)[i].e)); return r; }
static Type* scal(Type* t) { return t->isVectorTy() ? cast<FixedVectorType>(t)->getElementType() : t; }
#include "builtins.inc"

static E fcmp(CmpInst::Predicate p, E a, E b) {
  if (opt.real) {
    bool nan = (a->op == RSPECIAL && std::isnan(bits2d((uint64_t)a->val))) || (b->op == RSPECIAL && std::isnan(bits2d((uint64_t)b->val)));
    if (nan) return mkC(1, CmpInst::isUnordered(p) || p == CmpInst::FCMP_TRUE);
    switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkOp(REQ, 1, a, b); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkNot(mkOp(REQ, 1, a, b));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkOp(RLT, 1, a, b); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkOp(RLE, 1, a, b);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkOp(RLT, 1, b, a); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkOp(RLE, 1, b, a);
      case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return mkC(1, 1); default: return mkC(1, 0); }
  }
  E un = mkOr1(mkOp(FISNAN, 1, a), mkOp(FISNAN, 1, b)); E eq = mkOp(FEQ, 1, a, b), lt = mkOp(FLT, 1, a, b), le = mkOp(FLE, 1, a, b), gt = mkOp(FLT, 1, b, a), ge = mkOp(FLE, 1, b, a);
  switch (p) { case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_UEQ: return mkOr1(eq, un); case CmpInst::FCMP_UNE: return mkNot(eq); case CmpInst::FCMP_ONE: return mkOr1(lt, gt);
    case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge;
    case CmpInst::FCMP_ULT: return mkNot(ge); case CmpInst::FCMP_ULE: return mkNot(gt); case CmpInst::FCMP_UGT: return mkNot(le); case CmpInst::FCMP_UGE: return mkNot(lt);
    case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_TRUE: return mkC(1, 1); default: return mkC(1, 0); }
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkOp(EQ, 1, a, b); case CmpInst::ICMP_NE: return mkNot(mkOp(EQ, 1, a, b)); case CmpInst::ICMP_ULT: return mkOp(ULT, 1, a, b); case CmpInst::ICMP_ULE: return mkOp(ULE, 1, a, b);
    case CmpInst::ICMP_UGT: return mkOp(ULT, 1, b, a); case CmpInst::ICMP_UGE: return mkOp(ULE, 1, b, a); case CmpInst::ICMP_SLT: return mkOp(SLT, 1, a, b); case CmpInst::ICMP_SLE: return mkOp(SLE, 1, a, b);
    case CmpInst::ICMP_SGT: return mkOp(SLT, 1, b, a); default: return mkOp(SLE, 1, b, a); }
}
static E binop(State& s, unsigned opc, Type* t, E a, E b) {
  if (isFPTy(t)) {
    if (opt.real) switch (opc) { case Instruction::FAdd: return mkOp(RADD, 0, a, b); case Instruction::FSub: return mkRSub(a, b); case Instruction::FMul: return mkOp(RMUL, 0, a, b); case Instruction::FDiv: return mkOp(RDIV, 0, a, b);
      case Instruction::FRem: { E q = mkOp(RDIV, 0, a, b); E tr = decide(s, mkOp(RLE, 1, mkR(Rat(0)), q)) ? mkRFun(F_FLOOR, q) : mkRNeg(mkRFun(F_FLOOR, mkRNeg(q))); return mkRSub(a, mkOp(RMUL, 0, tr, b)); } }
    unsigned w = fpW(t); switch (opc) { case Instruction::FAdd: return mkOp(FADD, w, a, b); case Instruction::FSub: return mkOp(FSUB, w, a, b); case Instruction::FMul: return mkOp(FMUL, w, a, b); case Instruction::FDiv: return mkOp(FDIV, w, a, b); case Instruction::FRem: return mkOp(FREM, w, a, b); }
  }
  unsigned w = t->getIntegerBitWidth();
  switch (opc) { case Instruction::Add: return mkOp(ADD, w, a, b); case Instruction::Sub: return mkOp(SUB, w, a, b); case Instruction::Mul: return mkOp(MUL, w, a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { E z = mkOp(EQ, 1, b, mkC(w, 0)); if (decide(s, z)) { violation(s, "memory", "integer division by zero at " + instLoc(s), nullptr); throw PathEnd{"div0"}; }
      return mkOp(opc == Instruction::UDiv ? UDIV : opc == Instruction::SDiv ? SDIV : opc == Instruction::URem ? UREM : SREM, w, a, b); }
    case Instruction::And: return mkOp(AND, w, a, b); case Instruction::Or: return mkOp(OR, w, a, b); case Instruction::Xor: return mkOp(XOR, w, a, b);
    case Instruction::Shl: return mkOp(SHL, w, a, b); case Instruction::LShr: return mkOp(LSHR, w, a, b); case Instruction::AShr: return mkOp(ASHR, w, a, b); }
  problem("binop"); throw PathEnd{"unsupported"};
}
// an integer about to be converted to floating point: reuse an equal earlier one, so that equal conversions are the same term
static E sameInt(State& s, E a) {
  if (!a->sym || a->w < 8 || a->w > 64 || hasReal(a) || hasOp(a, fpMemo)) return a;
  for (size_t i = s.convs.size(); i-- > 0 && s.convs.size() - i <= 12;) { E b = s.convs[i]; if (b == a) return a; if (b->w != a->w) continue; u128 x, y; if (s.modelOk && evalE(a, s.model, x) && evalE(b, s.model, y) && x != y) continue; if (solve(s, mkOp(EQ, 1, a, b)->isConst() ? mkOp(EQ, 1, a, b)->val ? mkC(1, 0) : mkC(1, 1) : mkNot(mkOp(EQ, 1, a, b)), nullptr, 1500) == UNSAT) return b; }
  s.convs.push_back(a); return a;
}
static E castop(State& s, unsigned opc, Type* from, Type* to, E a) {
  switch (opc) {
    case Instruction::Trunc: case Instruction::ZExt: return mkZ(a, to->getIntegerBitWidth());
    case Instruction::SExt: return mkS(a, to->getIntegerBitWidth());
    case Instruction::PtrToInt: return mkZ(a, to->getIntegerBitWidth()); case Instruction::IntToPtr: return mkZ(a, 64);
    case Instruction::AddrSpaceCast: return a;
    case Instruction::BitCast: if (isFPTy(from) && !isFPTy(to)) return opt.real ? mkOp(BITS, to->getIntegerBitWidth(), a) : a; if (!isFPTy(from) && isFPTy(to) && opt.real) { E r = toReal(a); if (!r) { problem("bitcast int->real at " + instLoc(s)); throw PathEnd{"unsupported"}; } return r; } return a;
    case Instruction::FPTrunc: case Instruction::FPExt: if (opt.real) return a; return mkOp(F2F, fpW(to), a);
    case Instruction::SIToFP: a = sameInt(s, a); if (opt.real) return mkOp(SI2R, 0, a); return mkOp(SI2F, fpW(to), a);
    case Instruction::UIToFP: if (opt.real) return mkOp(UI2R, 0, a); return mkOp(UI2F, fpW(to), a);
    case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w = to->getIntegerBitWidth(); if (opt.real) { bool ok; double d = rconstVal(a, ok); if (ok && !a->sym) return mkC(w, (u128)(i128)d); if (a->op == SI2R && a->k[0]->w <= w) return mkS(a->k[0], w); if (a->op == UI2R && a->k[0]->w <= w) return mkZ(a->k[0], w); return realToInt(s, a, w, opc == Instruction::FPToSI); }
      return mkOp(opc == Instruction::FPToSI ? F2SI : F2UI, w, a); }
  }
  problem("cast"); throw PathEnd{"unsupported"};
}
static void doCall(State& s, CallBase* cb) {
  Function* F = cb->getCalledFunction(); Value* cv = cb->getCalledOperand();
  if (!F) { if (auto* ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliaseeObject()); }
  if (!F) { if (isa<InlineAsm>(cv)) { finishCall(s, cb, zeroOf(cb->getType())); return; } uint64_t a = (uint64_t)concretize(s, getE(s, cv)); auto it = faddr.find(a); if (it == faddr.end()) { memErr(s, "call through invalid function pointer"); } F = it->second; }
  vector<Val> args; for (auto& a : cb->args()) args.push_back(a->getType()->isMetadataTy() ? Val() : getV(s, a));
  string nm = F->getName().str();
  auto ov = overrides.find(nm); if (ov != overrides.end() && s.stack().back().F != ov->second) { pushFrame(s, ov->second, args, cb); return; }
  auto bi = builtins().find(nm); if (bi != builtins().end()) { bi->second(s, cb, args); return; }
  if (F->isIntrinsic()) { doIntrinsic(s, cb, F, args); return; }
  if (!F->isDeclaration()) { pushFrame(s, F, args, cb); return; }
  if (prefixBuiltin(s, cb, nm, args)) return;
  unsup(s, "external function " + nm + " (" + demangle(nm) + ") from " + btrace(s).substr(0, 300));
}
static void step(State& s) {
  Frame& f = s.stack().back(); Instruction* I = &*f.it; s.instrs++; st.instrs++;
  if (opt.trace) { string str; raw_string_ostream os(str); I->print(os); std::cerr << str << "\n"; }
  switch (I->getOpcode()) {
    case Instruction::Ret: { auto* r = cast<ReturnInst>(I); Val v; if (r->getReturnValue()) v = getV(s, r->getReturnValue()); doRet(s, v); return; }
    case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return; } bool c = decide(s, getE(s, b->getCondition())); gotoBB(s, b->getSuccessor(c ? 0 : 1)); return; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(I); E v = getE(s, sw->getCondition());
      for (auto& c : sw->cases()) { E k = evalConst(c.getCaseValue()).e; if (v->isConst()) { if (v->val == k->val) { gotoBB(s, c.getCaseSuccessor()); return; } } else if (decide(s, mkOp(EQ, 1, v, k))) { gotoBB(s, c.getCaseSuccessor()); return; } }
      gotoBB(s, sw->getDefaultDest()); return; }
    case Instruction::Unreachable: violation(s, "unreachable", "reached undefined behaviour (unreachable) at " + instLoc(s), nullptr); throw PathEnd{"unreachable"};
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
    case Instruction::Resume: { popFrame(s); if (s.stack().empty() || !unwind(s)) { Exc e = s.T().inflight; if (s.initPhase) throw PathEnd{"init exc"}; reportUncaught(s, "uncaught exception " + tiName(e.tinfo), tiName(e.tinfo), ""); throw PathEnd{"uncaught"}; } return; }
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(I); uint64_t n = (uint64_t)concretize(s, getE(s, a->getArraySize())); uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()) * n; uint64_t al = std::max<uint64_t>(16, a->getAlign().value()); uint64_t b = (s.nextStack + al - 1) / al * al; s.nextStack = b + sz + 32; newObj(s, b, sz, 1, false); Frame& g = s.stack().back(); g.allocas.push_back(b); setReg(g, I, mkC(64, b)); ++g.it; return; }
    case Instruction::Load: { E a = getE(s, I->getOperand(0)); if (!s.watch.empty() && a->isConst()) { int c = s.cur; checkWatch(s, (uint64_t)a->val, 8); if (s.cur != c) return; } Val v = loadTy(s, a, I->getType()); setReg(f, I, v); ++f.it; return; }
    case Instruction::Store: { uint64_t a = (uint64_t)concretize(s, getE(s, I->getOperand(1))); if (!s.watch.empty()) checkWatch(s, a, 8); storeTy(s, a, I->getOperand(0)->getType(), getV(s, I->getOperand(0))); ++f.it; return; }
    case Instruction::GetElementPtr: { E dyn; uint64_t off = gepOff(cast<GEPOperator>(I), [&](Value* v) { return getE(s, v); }, dyn); E b = getE(s, I->getOperand(0)); E r = mkOp(ADD, 64, b, mkC(64, off)); if (dyn) r = mkOp(ADD, 64, r, dyn); setReg(f, I, r); ++f.it; return; }
    case Instruction::ICmp: { Val a = getV(s, I->getOperand(0)), b = getV(s, I->getOperand(1)); auto p = cast<CmpInst>(I)->getPredicate(); setReg(f, I, lift2(a, b, [&](E x, E y) { return icmp(p, x, y); })); ++f.it; return; }
    case Instruction::FCmp: { Val a = getV(s, I->getOperand(0)), b = getV(s, I->getOperand(1)); auto p = cast<CmpInst>(I)->getPredicate(); setReg(f, I, lift2(a, b, [&](E x, E y) { return fcmp(p, x, y); })); ++f.it; return; }
    case Instruction::PHI: problem("phi"); throw PathEnd{"phi"};
    case Instruction::Select: { E c = getE(s, I->getOperand(0)); if (!c) { Val cv = getV(s, I->getOperand(0)), a = getV(s, I->getOperand(1)), b = getV(s, I->getOperand(2)); Val r; r.agg = std::make_shared<vector<Val>>(); for (size_t i = 0; i < cv.agg->size(); i++) r.agg->push_back(mkIte((*cv.agg)[i].e, (*a.agg)[i].e, (*b.agg)[i].e)); setReg(f, I, r); ++f.it; return; }
      if (!c->isConst()) { if (s.pcset.count(c)) c = mkC(1, 1); else if (s.pcset.count(mkNot(c))) c = mkC(1, 0); }
      if (c->isConst()) { setReg(f, I, getV(s, I->getOperand(c->val ? 1 : 2))); ++f.it; return; }
      if (I->getType()->isStructTy() || I->getType()->isVectorTy() || (opt.real && isFPTy(I->getType())) || I->getType()->isPointerTy()) { bool b = decide(s, c); setReg(f, I, getV(s, I->getOperand(b ? 1 : 2))); ++f.it; return; }
      setReg(f, I, mkIte(c, getE(s, I->getOperand(1)), getE(s, I->getOperand(2)))); ++f.it; return; }
    case Instruction::FNeg: { Val a = getV(s, I->getOperand(0)); Type* t = scal(I->getType()); setReg(f, I, lift1(a, [&](E x) { return opt.real ? mkRNeg(x) : mkOp(FNEG, fpW(t), x); })); ++f.it; return; }
    case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); Val v = getV(s, x->getAggregateOperand()); for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; } setReg(f, I, v); ++f.it; return; }
    case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(I); Val v = getV(s, x->getAggregateOperand()); Val nv = getV(s, x->getInsertedValueOperand());
      std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) -> Val { Val r; r.agg = std::make_shared<vector<Val>>(*a.agg); unsigned i = x->getIndices()[d]; (*r.agg)[i] = d + 1 == x->getNumIndices() ? nv : ins((*a.agg)[i], d + 1); return r; };
      setReg(f, I, ins(v, 0)); ++f.it; return; }
    case Instruction::ExtractElement: { Val v = getV(s, I->getOperand(0)); uint64_t i = (uint64_t)concretize(s, getE(s, I->getOperand(1))); setReg(f, I, (*v.agg)[i]); ++f.it; return; }
    case Instruction::InsertElement: { Val v = getV(s, I->getOperand(0)); uint64_t i = (uint64_t)concretize(s, getE(s, I->getOperand(2))); Val r; r.agg = std::make_shared<vector<Val>>(*v.agg); (*r.agg)[i] = getV(s, I->getOperand(1)); setReg(f, I, r); ++f.it; return; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = getV(s, sv->getOperand(0)), b = getV(s, sv->getOperand(1)); Val r; r.agg = std::make_shared<vector<Val>>(); for (int m : sv->getShuffleMask()) { size_t n = a.agg->size(); r.agg->push_back(m < 0 ? zeroOf(scal(I->getType())) : (size_t)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } setReg(f, I, r); ++f.it; return; }
    case Instruction::Freeze: setReg(f, I, getV(s, I->getOperand(0))); ++f.it; return;
    case Instruction::Fence: ++f.it; return;
    case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); uint64_t p = (uint64_t)concretize(s, getE(s, a->getPointerOperand())); if (s.th.size() > 1 && !s.watch.empty()) { checkWatch(s, p, 8); } Val old = loadTy(s, mkC(64, p), I->getType()); E v = getE(s, a->getValOperand()); unsigned w = v->w; E n; switch (a->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkOp(ADD, w, old.e, v); break; case AtomicRMWInst::Sub: n = mkOp(SUB, w, old.e, v); break; case AtomicRMWInst::And: n = mkOp(AND, w, old.e, v); break; case AtomicRMWInst::Or: n = mkOp(OR, w, old.e, v); break; default: problem("atomicrmw"); throw PathEnd{"unsupported"}; } storeTy(s, p, a->getValOperand()->getType(), n); setReg(f, I, old); ++f.it; return; }
    case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(I); uint64_t p = (uint64_t)concretize(s, getE(s, a->getPointerOperand())); Val old = loadTy(s, mkC(64, p), a->getCompareOperand()->getType()); E eq = mkOp(EQ, 1, old.e, getE(s, a->getCompareOperand())); bool ok = decide(s, eq); if (ok) storeTy(s, p, a->getNewValOperand()->getType(), getV(s, a->getNewValOperand())); Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(mkC(1, ok)); setReg(f, I, r); ++f.it; return; }
    default: break;
  }
  if (I->isBinaryOp()) { Val a = getV(s, I->getOperand(0)), b = getV(s, I->getOperand(1)); Type* t = scal(I->getType()); unsigned o = I->getOpcode(); Val r = lift2(a, b, [&](E x, E y) { return binop(s, o, t, x, y); }); setReg(f, I, r); ++f.it; return; }
  if (I->isCast()) { Val a = getV(s, I->getOperand(0)); if (a.agg && !(I->getType()->isVectorTy())) { problem("vector cast"); throw PathEnd{"unsupported"}; } if (!a.agg && I->getType()->isVectorTy()) { problem("vector cast"); throw PathEnd{"unsupported"}; } Type *ft = scal(I->getOperand(0)->getType()), *tt = scal(I->getType()); unsigned o = I->getOpcode(); setReg(f, I, lift1(a, [&](E x) { return castop(s, o, ft, tt, x); })); ++f.it; return; }
  string str; raw_string_ostream os(str); I->print(os); problem("instruction " + str.substr(0, 120)); throw PathEnd{"unsupported"};
}
static void addWitness(State& s) { // a concrete run of a completed path, to be replayed natively
  if (opt.real || (int)witnesses.size() >= opt.witness || (st.paths % 7) * (witnesses.size() ? 1 : 0)) return;
  Model m; if (solve(s, mkC(1, 1), &m, opt.branchMs, true) != SAT) return;
  map<string, string> v; for (E x : s.syms) if (x->op == SYM) v[symName(x)] = valStr(x, m);
  string sch; for (int t : s.schedTrace) sch += std::to_string(t) + ","; if (!s.schedTrace.empty()) v["__sched"] = sch; witnesses.push_back(v);
}
static void runState(State* sp) {
  State& s = *sp; uint64_t startI = s.instrs;
  try {
    while (true) {
      if (s.T().done) { if (s.cur == 0 && s.th.size() >= 1) { // main finished: path complete
          addWitness(s); st.paths++; break; }
        switchAway(s); continue; }
      if (s.T().blocked) { switchAway(s); continue; }
      step(s); s.schedJust = false;
      if ((st.instrs & 0xfff) == 0) { if (now() > opt.maxTime) { incomplete = true; incompleteWhy = "time limit"; delete sp; return; }
        if (s.instrs > opt.maxInstr) { if (opt.hangViolation) violation(s, "hang", "no termination within the step bound at " + instLoc(s), nullptr); else { incomplete = true; incompleteWhy = "instruction bound at " + btrace(s); } break; } }
    }
  }  catch (PathEnd& e) { if (e.why == "end") addWitness(s); if (e.why == "addr" || e.why == "cannot concretize" || e.why == "errno" || e.why == "phi") problem(e.why + " at " + (s.th[s.cur].stack.empty() ? string() : btrace(s).substr(0, 300))); if (e.why == "infeasible" || e.why == "assume") st.infeasible++; else st.paths++; if (opt.verbose && e.why != "assume" && e.why != "end") std::cerr << "path end: " << e.why << (s.th[s.cur].stack.empty() ? "" : " at " + btrace(s).substr(0, 600)) << "\n"; }
  catch (z3::exception& e) { problem(string("z3 exception ") + e.msg()); }
  (void)startI; delete sp;
}
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }
static void writeOut() {
  std::ofstream o(opt.out); o << "{\n";
  o << "\"stats\":{\"paths\":" << st.paths << ",\"infeasible\":" << st.infeasible << ",\"instrs\":" << st.instrs << ",\"forks\":" << st.forks << ",\"queries\":" << st.queries << ",\"asserts\":" << st.asserts << ",\"assert_simplified\":" << st.assertSimpl << ",\"assert_unsat\":" << st.assertUnsat << ",\"solver_unknown\":" << st.unknown << ",\"solver_s\":" << st.solver << ",\"wall_s\":" << now() << "},\n";
  o << "\"incomplete\":" << (incomplete ? "true" : "false") << ",\"incomplete_why\":\"" << jesc(incompleteWhy) << "\",\n\"problems\":["; for (size_t i = 0; i < problems.size(); i++) o << (i ? "," : "") << "\"" << jesc(problems[i]) << "\""; o << "],\n\"unknown_asserts\":{"; bool first = true; for (auto& kv : unknownAsserts) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  o << "},\n\"reach\":{"; first = true; for (auto& kv : reach) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  o << "},\n\"violations\":["; first = true;
  for (auto& v : viols) { o << (first ? "" : ",") << "\n{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"trace\":\"" << jesc(v.trace) << "\",\"values\":{"; bool f2 = true; for (auto& kv : v.values) { o << (f2 ? "" : ",") << "\"" << jesc(kv.first) << "\":\"" << jesc(kv.second) << "\""; f2 = false; } o << "}}"; first = false; }
  o << "],\n\"witnesses\":["; first = true; for (auto& w : witnesses) { o << (first ? "" : ",") << "\n{"; bool f2 = true; for (auto& kv : w) { o << (f2 ? "" : ",") << "\"" << jesc(kv.first) << "\":\"" << jesc(kv.second) << "\""; f2 = false; } o << "}"; first = false; }
  o << "],\n\"functions\":["; first = true; std::set<string> fs;
  for (auto* f : executed) { auto add = [&](const DISubprogram* sp) { if (!sp) return; string file = sp->getFilename().str(); if (file.empty() || file[0] != '/') file = (sp->getDirectory() + "/" + file).str(); if (file.find("/repo/") != string::npos && file.find("/verif/") == string::npos) { string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); fs.insert(n.substr(0, 160)); } };
    add(f->getSubprogram()); for (auto& bb : *f) for (auto& I : bb) for (const DILocation* d = I.getDebugLoc(); d; d = d->getInlinedAt()) add(d->getScope()->getSubprogram()); }
  for (auto& x : fs) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  o << "]";
  if (opt.real) {
    std::set<E> need; std::function<void(E)> vis = [&](E e) { if (!need.insert(e).second) return; for (int i = 0; i < e->n; i++) vis(e->k[i]); };
    for (auto& q : rqueries) { for (E p : q.pc) vis(p); vis(q.goal); }
    vector<E> ord(need.begin(), need.end()); std::sort(ord.begin(), ord.end(), [](E a, E b) { return a->id < b->id; });
    o << ",\n\"nodes\":["; first = true;
    for (E e : ord) { o << (first ? "" : ",") << "\n[" << e->id << ",\"" << opName[e->op] << "\"," << e->w << ",["; for (int i = 0; i < e->n; i++) o << (i ? "," : "") << e->k[i]->id; o << "],"; 
      if (e->op == CONST) o << "\"" << (uint64_t)e->val << "\""; else if (e->op == RCONST) o << "\"" << ratStr(*e->r) << "\""; else if (e->op == RSPECIAL) o << "\"" << bits2d((uint64_t)e->val) << "\""; else if (e->op == SYM || e->op == RSYM) o << "\"" << jesc(symName(e)) << "\""; else if (e->op == RFUN) o << "\"" << rfnName[e->aux] << "\""; else o << "\"" << e->aux << "\""; o << "]"; first = false; }
    o << "],\n\"queries\":["; first = true;
    for (auto& q : rqueries) { o << (first ? "" : ",") << "\n{\"kind\":\"" << q.kind << "\",\"msg\":\"" << jesc(q.msg) << "\",\"loc\":\"" << jesc(q.loc.substr(0, 300)) << "\",\"pc\":["; for (size_t i = 0; i < q.pc.size(); i++) o << (i ? "," : "") << q.pc[i]->id; o << "],\"goal\":" << q.goal->id << "}"; first = false; }
    o << "]";
  }
  o << "\n}\n";
}
int main(int argc, char** argv) {
  t0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--alloc-limit") opt.allocLimit = stoull(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--real") opt.real = true; else if (a == "--max-time") opt.maxTime = stod(nx()); else if (a == "--max-instr") opt.maxInstr = stoull(nx()); else if (a == "--max-paths") opt.maxPaths = stoull(nx());
    else if (a == "--timeout") opt.timeoutMs = stoi(nx()); else if (a == "--branch-timeout") opt.branchMs = stoi(nx()); else if (a == "--param") opt.params.push_back(stol(nx())); else if (a == "-v") opt.verbose = true; else if (a == "--witness") opt.witness = stoi(nx()); else if (a == "--trace") opt.trace = true; else if (a == "--hang-violation") opt.hangViolation = true; else if (a == "--preempt") opt.preempt = stoi(nx()); else opt.in = a; }
  SMDiagnostic err; M = parseIRFile(opt.in, err, ctx); if (!M) { err.print("symex", errs()); return 3; } DL = &M->getDataLayout();
  State* s = new State(); s->th.emplace_back(); s->initPhase = true;
  // globals
  uint64_t ga = 0x10000;
  for (auto& g : M->globals()) { Type* t = g.getValueType(); uint64_t sz = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 64; if (g.isDeclaration() && sz < 64) sz = 64; uint64_t al = std::max<uint64_t>(16, g.getAlignment()); ga = (ga + al - 1) / al * al; gaddr[&g] = ga; gname[g.getName().str()] = ga; ObjP o = newObj(*s, ga, sz, 0, true); if (g.isDeclaration()) o->name = "extern"; ga += sz + 32; }
  for (auto& f : *M) { funcAddr(&f); gname[f.getName().str()] = gaddr[&f]; string n = f.getName().str(); auto own = [&](const string& m) { if (m.rfind("_Z", 0) == 0) return false; auto* g = M->getFunction(m); return g && !g->isDeclaration(); }; /* a C function the program defines itself */
    if (n.rfind("sxmodel_", 0) == 0 && !f.isDeclaration() && !own(n.substr(8))) { overrides[n.substr(8)] = &f; if (n.rfind("sxmodel_strto", 0) == 0) overrides["__isoc23_" + n.substr(8)] = &f; } string on = "sxonly_" + opt.entry + "_"; if (n.rfind(on, 0) == 0 && !f.isDeclaration()) overrides[n.substr(on.size())] = &f; }
  for (auto& g : M->globals()) if (g.hasInitializer()) initGlobal(*s, gaddr[&g], g.getInitializer());
  for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) s->mem[gaddr[&g]]->ro = true;
  initSpecialGlobals(*s);
  // constructors
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
    vector<std::pair<uint64_t, Function*>> cs; for (auto& o : arr->operands()) { auto* st2 = cast<ConstantStruct>(o); cs.push_back({cast<ConstantInt>(st2->getOperand(0))->getZExtValue(), dyn_cast<Function>(st2->getOperand(1))}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) if (c.second) { size_t np = problems.size(); vector<Val> none; pushFrame(*s, c.second, none, nullptr);
      try { while (!s->stack().empty()) step(*s); } catch (PathEnd& e) { if (opt.verbose) std::cerr << "ctor " << c.second->getName().str() << " abandoned: " << e.why << "\n"; for (size_t k = np; k < problems.size(); k++) if (opt.verbose) std::cerr << "   " << problems[k] << "\n"; problems.resize(np); while (!s->stack().empty()) popFrame(*s); } s->T().done = false; if (!work.empty()) { for (auto* w : work) delete w; work.clear(); } } }
  executed.clear(); s->initPhase = false; s->instrs = 0; s->syms.clear(); rqueries.clear(); viols.clear(); problemCount.clear(); problems.clear();
  Function* F = M->getFunction(opt.entry); if (!F || F->isDeclaration()) { std::cerr << "no entry " << opt.entry << "\n"; return 3; }
  vector<Val> none; pushFrame(*s, F, none, nullptr); work.push_back(s);
  while (!work.empty()) {
    if (now() > opt.maxTime) { incomplete = true; incompleteWhy = "time limit"; break; } if (st.paths + st.infeasible > opt.maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
    State* n = work.back(); work.pop_back(); runState(n);
  }
  writeOut(); std::cout.flush(); _exit(0);
}
