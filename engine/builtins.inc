// Built-in functions of the executor (included by symex.cpp)
typedef std::function<void(State&, CallBase*, vector<Val>&)> BFn;
static std::unordered_map<string, BFn>& builtins();
static uint64_t cptr(State& s, const Val& v) { return (uint64_t)concretize(s, v.e); }
static void retE(State& s, CallBase* cb, E e) { finishCall(s, cb, Val(e)); }
static void retV(State& s, CallBase* cb) { finishCall(s, cb, zeroOf(cb->getType())); }
static E rfloor(E a) { bool ok; double d; if (!a->sym && (d = rconstVal(a, ok), ok)) return mkRd(floor(d)); return mkRFun(F_FLOOR, a); }
static E rround(State& s, E x, int mode) { // 0 half-even 1 half-away 2 ceil 3 floor 4 trunc
  bool ok; if (!x->sym) { double d = rconstVal(x, ok); if (ok) return mkRd(mode == 0 ? nearbyint(d) : mode == 1 ? round(d) : mode == 2 ? ceil(d) : mode == 3 ? floor(d) : trunc(d)); }
  if (mode == 3) return rfloor(x); if (mode == 2) return mkRNeg(rfloor(mkRNeg(x)));
  E h = mkR(Rat(Int(1), Int(2))); if (mode == 0) return rfloor(mkOp(RADD, 0, x, h));
  bool pos = decide(s, mkOp(RLE, 1, mkR(Rat(0)), x)); E a = pos ? x : mkRNeg(x); E r = mode == 1 ? rfloor(mkOp(RADD, 0, a, h)) : rfloor(a); return pos ? r : mkRNeg(r);
}
static E fpRound(State& s, E x, int mode, unsigned w) { if (opt.real) return rround(s, x, mode); return mkOp(FRND, w, x, nullptr, nullptr, mode); }
static E fpAbs(State& s, E x, unsigned w) { if (opt.real) { bool ok; if (!x->sym) { double d = rconstVal(x, ok); if (ok) return d < 0 ? mkRNeg(x) : x; } return decide(s, mkOp(RLE, 1, mkR(Rat(0)), x)) ? x : mkRNeg(x); } return mkOp(FABS, w, x); }
static E fpSqrt(E x, unsigned w) { if (opt.real) return mkRFun(F_SQRT, x); return mkOp(FSQRT, w, x); }
static E fpCopysign(State& s, E x, E y, unsigned w) { if (opt.real) { E a = fpAbs(s, x, w); return decide(s, mkOp(RLE, 1, mkR(Rat(0)), y)) ? a : mkRNeg(a); } u128 sb = (u128)1 << (w - 1); return mkOp(OR, w, mkOp(AND, w, x, mkC(w, ~sb)), mkOp(AND, w, y, mkC(w, sb))); }
static E fpMath(State& s, const string& f, E a, E b, unsigned w) {
  static const map<string, RFn> m = {{"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"atan", F_ATAN}, {"atan2", F_ATAN2}, {"exp", F_EXP}, {"log", F_LOG}, {"pow", F_POW}};
  if (opt.real) { return mkRFun(m.at(f), a, b); }
  auto D = [&](E e) { return e->w == 32 ? (double)bits2f((uint32_t)e->val) : bits2d((uint64_t)e->val); };
  if (a->isConst() && (!b || b->isConst())) { double x = D(a), y = b ? D(b) : 0, r; switch (m.at(f)) { case F_SIN: r = sin(x); break; case F_COS: r = cos(x); break; case F_TAN: r = tan(x); break; case F_ASIN: r = asin(x); break; case F_ACOS: r = acos(x); break; case F_ATAN: r = atan(x); break; case F_ATAN2: r = atan2(x, y); break; case F_EXP: r = exp(x); break; case F_LOG: r = log(x); break; default: r = pow(x, y); } return w == 32 ? mkC(32, f2bits((float)r)) : mkC(64, d2bits(r)); }
  problem("transcendental function " + f + " of a symbolic value in bit-precise mode at " + instLoc(s)); throw PathEnd{"unsupported"};
}
static E loadByte(State& s, uint64_t a) { ObjP& p = access(s, a, 1, false); return loadRaw(s, p, a - p->base, 1, false); }
static E bmemcmp(State& s, uint64_t a, uint64_t b, uint64_t n) {
  E r = mkC(32, 0); for (uint64_t i = n; i-- > 0;) { E x = loadByte(s, a + i), y = loadByte(s, b + i); E eq = mkOp(EQ, 1, x, y); if (eq->isConst() && eq->val) continue; r = mkIte(eq, r, mkIte(mkOp(ULT, 1, x, y), mkC(32, (u128)-1), mkC(32, 1))); } return r;
}
static int concreteStrlen(State& s, uint64_t a) { // forks on symbolic terminators
  for (int i = 0;; i++) { E b = loadByte(s, a + i); if (b->isConst()) { if (!b->val) return i; continue; } if (decide(s, mkOp(EQ, 1, b, mkC(8, 0)))) return i; }
}
static E isClass(State& s, E x, unsigned mask, unsigned w) {
  if (opt.real) { if (x->op == RSPECIAL) { double d = bits2d((uint64_t)x->val); unsigned c = std::isnan(d) ? 3 : d > 0 ? 0x200 : 4; return mkC(1, (mask & c) != 0); }
    E r = mkC(1, 0); E z = mkR(Rat(0)); if ((mask & 0x60) == 0x60) r = mkOr1(r, mkOp(REQ, 1, x, z)); if (mask & 0x18) r = mkOr1(r, mkOp(RLT, 1, x, z)); if (mask & 0x180) r = mkOr1(r, mkOp(RLT, 1, z, x)); if ((mask & 0x1f8) == 0x1f8) r = mkC(1, 1); return r; }
  unsigned mb = w == 32 ? 23 : 52, eb = w == 32 ? 8 : 11; E man = mkExtract(x, 0, mb), ex = mkExtract(x, mb, eb), sg = mkExtract(x, w - 1, 1); E exAll = mkOp(EQ, 1, ex, mkC(eb, ~(u128)0)), ex0 = mkOp(EQ, 1, ex, mkC(eb, 0)), m0 = mkOp(EQ, 1, man, mkC(mb, 0)); E q = mkOp(EQ, 1, mkExtract(x, mb - 1, 1), mkC(1, 1)); E neg = mkOp(EQ, 1, sg, mkC(1, 1)), pos = mkNot(neg);
  E cls[10] = {mkAnd1(exAll, mkAnd1(mkNot(m0), mkNot(q))), mkAnd1(exAll, mkAnd1(mkNot(m0), q)), mkAnd1(neg, mkAnd1(exAll, m0)), mkAnd1(neg, mkAnd1(mkNot(exAll), mkNot(ex0))), mkAnd1(neg, mkAnd1(ex0, mkNot(m0))), mkAnd1(neg, mkAnd1(ex0, m0)), mkAnd1(pos, mkAnd1(ex0, m0)), mkAnd1(pos, mkAnd1(ex0, mkNot(m0))), mkAnd1(pos, mkAnd1(mkNot(exAll), mkNot(ex0))), mkAnd1(pos, mkAnd1(exAll, m0))};
  E r = mkC(1, 0); for (int i = 0; i < 10; i++) if (mask & (1u << i)) r = mkOr1(r, cls[i]); return r;
}
// symbolic derivative of a real expression with respect to a symbol
static E derivE(E y, E x, std::unordered_map<E, E>& memo) {
  if (!y->sym) return mkR(Rat(0)); if (y == x) return mkR(Rat(1)); auto it = memo.find(y); if (it != memo.end()) return it->second;
  auto mul = [](E a, E b) { return mkOp(RMUL, 0, a, b); }; auto add = [](E a, E b) { return mkOp(RADD, 0, a, b); }; auto div = [](E a, E b) { return mkOp(RDIV, 0, a, b); };
  E zero = mkR(Rat(0)), one = mkR(Rat(1)), r = nullptr; auto D = [&](int i) { return derivE(y->k[i], x, memo); }; auto isZ = [&](E e) { return e == zero; };
  switch (y->op) {
    case RSYM: r = zero; break;
    case RADD: { E a = D(0), b = D(1); r = isZ(a) ? b : isZ(b) ? a : add(a, b); break; }
    case RMUL: { E a = D(0), b = D(1); E p = isZ(a) ? zero : mul(a, y->k[1]), q = isZ(b) ? zero : mul(y->k[0], b); r = isZ(p) ? q : isZ(q) ? p : add(p, q); break; }
    case RDIV: { E a = D(0), b = D(1); E p = isZ(a) ? zero : div(a, y->k[1]); if (!isZ(b)) { E q = mkRNeg(div(mul(y->k[0], b), mul(y->k[1], y->k[1]))); p = isZ(p) ? q : add(p, q); } r = p; break; }
    case RFUN: { E a = D(0), u = y->k[0]; E b = y->aux == F_ATAN2 ? D(1) : zero; if (isZ(a) && isZ(b)) { r = zero; break; }
      switch (y->aux) { case F_SQRT: r = div(a, mul(mkR(Rat(2)), y)); break; case F_SIN: r = mul(mkRFun(F_COS, u), a); break; case F_COS: r = mkRNeg(mul(mkRFun(F_SIN, u), a)); break; case F_TAN: r = mul(add(one, mul(y, y)), a); break;
        case F_ASIN: r = div(a, mkRFun(F_SQRT, mkRSub(one, mul(u, u)))); break; case F_ACOS: r = mkRNeg(div(a, mkRFun(F_SQRT, mkRSub(one, mul(u, u))))); break; case F_ATAN: r = div(a, add(one, mul(u, u))); break;
        case F_ATAN2: { E v = y->k[1]; r = div(mkRSub(mul(v, a), mul(u, b)), add(mul(u, u), mul(v, v))); break; } default: break; } break; }
    default: break; }
  memo[y] = r; return r;
}
static void doIntrinsic(State& s, CallBase* cb, Function* F, vector<Val>& a) {
  Type* t = cb->getType(); Type* stt = scal(t); unsigned w = isFPTy(stt) ? fpW(stt) : stt->isIntegerTy() ? stt->getIntegerBitWidth() : 64;
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = cptr(s, a[2]); uint64_t d = n ? cptr(s, a[0]) : 0, r = n ? cptr(s, a[1]) : 0; if (!s.watch.empty() && n) { checkWatch(s, d, n); checkWatch(s, r, n); } copyMem(s, d, r, n); retV(s, cb); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = cptr(s, a[2]); if (n) { uint64_t d = cptr(s, a[0]); ObjP& p = access(s, d, n, true); writable(p); Obj* o = p.get(); uint64_t off = d - o->base; if (a[1].e->isConst()) { o->sym.erase(o->sym.lower_bound(off), o->sym.lower_bound(off + n)); memset(&o->val[off], (int)a[1].e->val, n); memset(&o->st[off], 1, n); } else for (uint64_t i = 0; i < n; i++) storeRaw(s, p, off + i, 1, a[1].e); } retV(s, cb); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::dbg_assign: retV(s, cb); return;
    case Intrinsic::stacksave: retE(s, cb, mkC(64, 0x1000)); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: finishCall(s, cb, a[0]); return;
    case Intrinsic::is_constant: retE(s, cb, mkC(1, 0)); return;
    case Intrinsic::objectsize: retE(s, cb, mkC(w, ~(u128)0)); return;
    case Intrinsic::fabs: { Val r = lift1(a[0], [&](E x) { return fpAbs(s, x, w); }); finishCall(s, cb, r); return; }
    case Intrinsic::sqrt: finishCall(s, cb, lift1(a[0], [&](E x) { return fpSqrt(x, w); })); return;
    case Intrinsic::fmuladd: case Intrinsic::fma: if (opt.real) retE(s, cb, mkOp(RADD, 0, mkOp(RMUL, 0, a[0].e, a[1].e), a[2].e)); else retE(s, cb, mkOp(FADD, w, mkOp(FMUL, w, a[0].e, a[1].e), a[2].e)); return;
    case Intrinsic::floor: retE(s, cb, fpRound(s, a[0].e, 3, w)); return; case Intrinsic::ceil: retE(s, cb, fpRound(s, a[0].e, 2, w)); return; case Intrinsic::trunc: retE(s, cb, fpRound(s, a[0].e, 4, w)); return; case Intrinsic::round: retE(s, cb, fpRound(s, a[0].e, 1, w)); return; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: retE(s, cb, fpRound(s, a[0].e, 0, w)); return;
    case Intrinsic::lrint: case Intrinsic::llrint: case Intrinsic::lround: case Intrinsic::llround: { unsigned fw = fpW(cb->getArgOperand(0)->getType()); int mode = (F->getIntrinsicID() == Intrinsic::lrint || F->getIntrinsicID() == Intrinsic::llrint) ? 0 : 1; E x = fpRound(s, a[0].e, mode, fw); retE(s, cb, castop(s, Instruction::FPToSI, cb->getArgOperand(0)->getType(), t, x)); return; }
    case Intrinsic::copysign: retE(s, cb, fpCopysign(s, a[0].e, a[1].e, w)); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: { bool mn = F->getIntrinsicID() == Intrinsic::minnum || F->getIntrinsicID() == Intrinsic::minimum; E lt = opt.real ? mkOp(RLT, 1, a[0].e, a[1].e) : mkOp(FLT, 1, a[0].e, a[1].e);
      if (opt.real) { bool b = decide(s, lt); retE(s, cb, b == mn ? a[0].e : a[1].e); return; } E r = mn ? mkIte(lt, a[0].e, a[1].e) : mkIte(lt, a[1].e, a[0].e); r = mkIte(mkOp(FISNAN, 1, a[0].e), a[1].e, mkIte(mkOp(FISNAN, 1, a[1].e), a[0].e, r)); retE(s, cb, r); return; }
    case Intrinsic::sin: retE(s, cb, fpMath(s, "sin", a[0].e, nullptr, w)); return; case Intrinsic::cos: retE(s, cb, fpMath(s, "cos", a[0].e, nullptr, w)); return; case Intrinsic::exp: retE(s, cb, fpMath(s, "exp", a[0].e, nullptr, w)); return; case Intrinsic::log: retE(s, cb, fpMath(s, "log", a[0].e, nullptr, w)); return; case Intrinsic::pow: retE(s, cb, fpMath(s, "pow", a[0].e, a[1].e, w)); return;
    case Intrinsic::powi: { int n = (int)concretize(s, a[1].e); if (opt.real && n >= 0) { E r = mkR(Rat(1)); for (int i = 0; i < n; i++) r = mkOp(RMUL, 0, r, a[0].e); retE(s, cb, r); return; } if (!opt.real && n >= 0) { E r = mkC(64, d2bits(1.0)); for (int i = 0; i < n; i++) r = mkOp(FMUL, w, r, a[0].e); retE(s, cb, r); return; } break; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { auto id = F->getIntrinsicID(); Val r = lift2(a[0], a[1], [&](E x, E y) { E c = (id == Intrinsic::smax || id == Intrinsic::smin) ? mkOp(SLT, 1, x, y) : mkOp(ULT, 1, x, y); return (id == Intrinsic::smin || id == Intrinsic::umin) ? mkIte(c, x, y) : mkIte(c, y, x); }); finishCall(s, cb, r); return; }
    case Intrinsic::abs: { E x = a[0].e; retE(s, cb, mkIte(mkOp(SLT, 1, x, mkC(w, 0)), mkOp(SUB, w, mkC(w, 0), x), x)); return; }
    case Intrinsic::ctpop: { E x = a[0].e, r = mkC(w, 0); for (unsigned i = 0; i < w; i++) r = mkOp(ADD, w, r, mkZ(mkExtract(x, i, 1), w)); retE(s, cb, r); return; }
    case Intrinsic::ctlz: { E x = a[0].e, r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkOp(EQ, 1, mkExtract(x, i, 1), mkC(1, 1)), mkC(w, w - 1 - i), r); retE(s, cb, r); return; }
    case Intrinsic::cttz: { E x = a[0].e, r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkOp(EQ, 1, mkExtract(x, i, 1), mkC(1, 1)), mkC(w, i), r); retE(s, cb, r); return; }
    case Intrinsic::bswap: { E x = a[0].e, r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } retE(s, cb, r); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E c = mkOp(UREM, w, a[2].e, mkC(w, w)); E cat = mkConcat(a[0].e, a[1].e); E cz = mkZ(c, 2 * w); E r = F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkOp(SHL, 2 * w, cat, cz), w, w) : mkExtract(mkOp(LSHR, 2 * w, cat, cz), 0, w); retE(s, cb, r); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = a[0].e, y = a[1].e; unsigned W = x->w; auto id = F->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow; unsigned W2 = mul ? 2 * W : W + 1; if (W2 > 128) W2 = 128;
      E X = sg ? mkS(x, W2) : mkZ(x, W2), Y = sg ? mkS(y, W2) : mkZ(y, W2); Op o = mul ? MUL : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : ADD; E R = mkOp(o, W2, X, Y), r = mkExtract(R, 0, W); E ov = mkNot(mkOp(EQ, 1, R, sg ? mkS(r, W2) : mkZ(r, W2)));
      Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back(r); v.agg->push_back(ov); finishCall(s, cb, v); return; }
    case Intrinsic::uadd_sat: { E x = a[0].e, y = a[1].e, r = mkOp(ADD, w, x, y); retE(s, cb, mkIte(mkOp(ULT, 1, r, x), mkC(w, ~(u128)0), r)); return; }
    case Intrinsic::usub_sat: { E x = a[0].e, y = a[1].e; retE(s, cb, mkIte(mkOp(ULT, 1, x, y), mkC(w, 0), mkOp(SUB, w, x, y))); return; }
    case Intrinsic::eh_typeid_for: retE(s, cb, mkC(32, typeId(cptr(s, a[0])))); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "abort", "trap at " + btrace(s).substr(0, 200), nullptr); throw PathEnd{"trap"};
    case Intrinsic::is_fpclass: retE(s, cb, isClass(s, a[0].e, (unsigned)a[1].e->val, fpW(cb->getArgOperand(0)->getType()))); return;
    case Intrinsic::vastart: { Frame& f = s.stack().back(); uint64_t p = cptr(s, a[0]); // store a synthetic va_list: gp_offset=48, fp_offset=304(all in overflow area)
      uint64_t area = allocHeap(s, f.varargs.size() * 8 + 8, true); for (size_t i = 0; i < f.varargs.size(); i++) { ObjP& o = *findObj(s, area); E e = f.varargs[i].e; if (e && e->isReal()) storeRaw(s, o, i * 8, 8, e); else if (e) storeRaw(s, o, i * 8, 8, mkZ(e, 64)); }
      storeTy(s, p, Type::getInt32Ty(ctx), mkC(32, 48)); storeTy(s, p + 4, Type::getInt32Ty(ctx), mkC(32, 304)); ObjP& o = access(s, p, 24, true); storeRaw(s, o, p - o->base + 8, 8, mkC(64, area)); ObjP& o2 = access(s, p, 24, true); storeRaw(s, o2, p - o2->base + 16, 8, mkC(64, 0)); retV(s, cb); return; }
    case Intrinsic::vacopy: copyMem(s, cptr(s, a[0]), cptr(s, a[1]), 24); retV(s, cb); return;
    case Intrinsic::threadlocal_address: finishCall(s, cb, a[0]); return;
    case Intrinsic::ptrmask: retE(s, cb, mkOp(AND, 64, a[0].e, a[1].e)); return;
    case Intrinsic::vector_reduce_fadd: { E r = a[0].e; for (auto& x : *a[1].agg) r = opt.real ? mkOp(RADD, 0, r, x.e) : mkOp(FADD, w, r, x.e); retE(s, cb, r); return; }
    case Intrinsic::vector_reduce_add: { E r = mkC(w, 0); for (auto& x : *a[0].agg) r = mkOp(ADD, w, r, x.e); retE(s, cb, r); return; }
    case Intrinsic::vector_reduce_or: { E r = mkC(w, 0); for (auto& x : *a[0].agg) r = mkOp(OR, w, r, x.e); retE(s, cb, r); return; }
    case Intrinsic::vector_reduce_and: { E r = mkC(w, ~(u128)0); for (auto& x : *a[0].agg) r = mkOp(AND, w, r, x.e); retE(s, cb, r); return; }
    default: break;
  }
  problem("intrinsic " + F->getName().str()); throw PathEnd{"unsupported"};
}
static void sxFork(State& s, CallBase* cb, unsigned n, E sym) { // result i in 0..n-1
  for (unsigned i = n; i-- > 1;) { State* c = cloneState(s); E eq = mkOp(EQ, 1, sym, mkC(32, i)); addPC(*c, eq); c->model[sym] = i; finishCall(*c, cb, mkC(32, i)); work.push_back(c); }
  addPC(s, mkOp(EQ, 1, sym, mkC(32, 0))); s.model[sym] = 0; finishCall(s, cb, mkC(32, 0));
}
static std::unordered_map<string, BFn>& builtins() {
  static std::unordered_map<string, BFn> b; if (!b.empty()) return b;
#define B(name) b[name] = [](State& s, CallBase* cb, vector<Val>& a)
#define UNUSED (void)a, (void)s, (void)cb
  B("sx_u8") { retE(s, cb, freshSym(s, 8, readCStr(s, a[0].e))); }; B("sx_u16") { retE(s, cb, freshSym(s, 16, readCStr(s, a[0].e))); }; B("sx_u32") { retE(s, cb, freshSym(s, 32, readCStr(s, a[0].e))); }; B("sx_u64") { retE(s, cb, freshSym(s, 64, readCStr(s, a[0].e))); };
  B("sx_bool") { E x = freshSym(s, 8, readCStr(s, a[0].e)); E bit = mkExtract(x, 0, 1); retE(s, cb, mkZ(bit, cb->getType()->getIntegerBitWidth())); };
  B("sx_double") { string n = readCStr(s, a[0].e); retE(s, cb, opt.real ? freshSym(s, 0, n) : freshSym(s, 64, n)); };
  B("sx_float") { string n = readCStr(s, a[0].e); retE(s, cb, opt.real ? freshSym(s, 0, n) : freshSym(s, 32, n)); };
  B("sx_assume") { E c = mkExtract(a[0].e, 0, 1); if (c->isConst()) { if (!c->val) throw PathEnd{"assume"}; retV(s, cb); return; }
    if (opt.real) { addPC(s, c); retV(s, cb); return; }
    u128 v; if (s.pcset.count(c) || (s.modelOk && evalE(c, s.model, v) && v)) { addPC(s, c); retV(s, cb); return; } Model m; Res r = solve(s, c, &m, opt.timeoutMs); if (r == UNSAT) throw PathEnd{"assume"}; addPC(s, c); if (r == SAT) { mergeModel(s, m); } else s.modelOk = false; if (s.modelOk && !(evalE(c, s.model, v) && v)) s.modelOk = false; retV(s, cb); };
  B("sx_assume_eq") { E c = opt.real ? mkOp(REQ, 1, a[0].e, a[1].e) : mkOp(FEQ, 1, a[0].e, a[1].e); if (c->isConst()) { if (!c->val) throw PathEnd{"assume"}; retV(s, cb); return; }
    if (opt.real) { addPC(s, c); retV(s, cb); return; } Model m; Res r = solve(s, c, &m, opt.timeoutMs); if (r == UNSAT) throw PathEnd{"assume"}; addPC(s, c); s.modelOk = false; if (r == SAT) mergeModel(s, m); retV(s, cb); };
  B("sx_assert") { E c = mkExtract(a[0].e, 0, 1); doAssert(s, c, readCStr(s, a[1].e)); retV(s, cb); };
  B("sx_assert_eq") { E c = opt.real ? mkOp(REQ, 1, a[0].e, a[1].e) : mkOp(FEQ, 1, a[0].e, a[1].e); doAssert(s, c, readCStr(s, a[2].e)); retV(s, cb); };
  B("sx_assert_near") { if (opt.real) { E d = mkRSub(a[0].e, a[1].e); E c = mkAnd1(mkOp(RLE, 1, d, a[2].e), mkOp(RLE, 1, mkRNeg(a[2].e), d)); doAssert(s, c, readCStr(s, a[3].e)); } else { E d = mkOp(FSUB, 64, a[0].e, a[1].e); doAssert(s, mkOp(FLE, 1, mkOp(FABS, 64, d), a[2].e), readCStr(s, a[3].e)); } retV(s, cb); };
  B("sx_assert_finite") { if (opt.real) { st.asserts++; RQuery q; q.msg = readCStr(s, a[1].e); q.kind = "finite"; q.pc = s.pc; E x = a[0].e; if (x->op == RSPECIAL) q.goal = mkC(1, 0); else q.goal = mkOp(REQ, 1, x, mkOp(RADD, 0, x, mkOp(RMUL, 0, mkPi(), mkR(Rat(0))))); if (x->op != RSPECIAL) { if (x->op == RCONST || x->op == RSYM) { st.assertSimpl++; retV(s, cb); return; } q.goal = x; } q.loc = btrace(s); rqueries.push_back(q); } else { doAssert(s, isClass(s, a[0].e, 0x1f8, 64), readCStr(s, a[1].e)); } retV(s, cb); };
  B("sx_d") { if (!opt.real || a[1].e->op != RSYM) { problem("sx_d needs a real-mode symbol"); throw PathEnd{"unsupported"}; } std::unordered_map<E, E> memo; E r = derivE(a[0].e, a[1].e, memo); if (!r) { problem("derivative of unsupported term"); throw PathEnd{"unsupported"}; } retE(s, cb, r); };
  B("sx_choose") { unsigned n = (unsigned)concretize(s, a[0].e); E sym = freshSym(s, 32, readCStr(s, a[1].e)); sxFork(s, cb, n, sym); };
  B("sx_reach") { reach[readCStr(s, a[0].e)]++; retV(s, cb); };
  B("sx_param") { int i = (int)a[0].e->val; retE(s, cb, mkC(64, i < (int)opt.params.size() ? (u128)(i128)opt.params[i] : 0)); };
  B("sx_concrete") { u128 v = concretize(s, a[0].e); retE(s, cb, mkC(a[0].e->w, v)); };
  B("sx_is_symbolic") { UNUSED; retE(s, cb, mkC(32, 1)); };
  B("sx_known") { retE(s, cb, mkC(32, a[0].e->isConst())); };
  B("sx_end") { UNUSED; throw PathEnd{"end"}; };
  B("sx_hang_ok") { UNUSED; s.instrs = 0; retV(s, cb); };
  B("sx_trace") { if (opt.verbose) { std::cerr << "TRACE " << readCStr(s, a[0].e); u128 v; if (a.size() > 1 && a[1].e) { if (a[1].e->isConst()) std::cerr << " " << (uint64_t)a[1].e->val; else std::cerr << " sym"; } (void)v; std::cerr << "\n"; } retV(s, cb); };
  B("sx_fail") { doAssert(s, mkC(1, 0), readCStr(s, a[0].e)); };
  // threads
  B("sx_thread_create") { uint64_t fn = cptr(s, a[0]); auto it = faddr.find(fn); if (it == faddr.end()) memErr(s, "bad thread function"); int old = s.cur; int id = s.th.size(); s.th.emplace_back(); s.cur = id; vector<Val> av{a[1]}; pushFrame(s, it->second, av, nullptr); s.cur = old; retE(s, cb, mkC(32, id)); };
  B("sx_yield") { UNUSED; schedPoint(s); retV(s, cb); };
  B("sx_tid") { UNUSED; retE(s, cb, mkC(32, s.cur)); };
  B("sx_thread_done") { int i = (int)a[0].e->val; retE(s, cb, mkC(32, i < (int)s.th.size() && s.th[i].done)); };
  B("sx_block") { uint64_t k = cptr(s, a[0]); retV(s, cb); s.T().blocked = true; s.T().blockKey = k; };
  B("sx_wake_all") { uint64_t k = cptr(s, a[0]); for (auto& t : s.th) if (t.blocked && t.blockKey == k) t.blocked = false; retV(s, cb); };
  B("sx_wake_one") { uint64_t k = cptr(s, a[0]); vector<int> w; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].blocked && s.th[i].blockKey == k) w.push_back(i); retV(s, cb); if (w.empty()) return; for (size_t i = 1; i < w.size(); i++) { State* c = cloneState(s); c->th[w[i]].blocked = false; c->schedTrace.push_back(100 + w[i]); work.push_back(c); } s.schedTrace.push_back(100 + w[0]); s.th[w[0]].blocked = false; };
  B("sx_watch") { uint64_t p = cptr(s, a[0]), n = cptr(s, a[1]); s.watch.push_back({p, n}); retV(s, cb); };
  // memory
  for (const char* n : {"malloc", "_Znwm", "_Znam"}) B(n) { uint64_t n2; if (opt.allocLimit && !a[0].e->isConst() && !decide(s, mkOp(ULE, 1, a[0].e, mkC(64, opt.allocLimit)))) n2 = ~0ull; else n2 = cptr(s, a[0]); if (n2 > (1ull << 23)) { if (cb->getCalledFunction()->getName() == "malloc") { retE(s, cb, mkC(64, 0)); return; } throwStd(s, "_ZTISt9bad_alloc"); return; } retE(s, cb, mkC(64, allocHeap(s, n2))); };
  for (const char* n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) B(n) { uint64_t n2 = cptr(s, a[0]); retE(s, cb, mkC(64, n2 > (1ull << 23) ? 0 : allocHeap(s, n2))); };
  for (const char* n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B(n) { uint64_t n2 = cptr(s, a[0]), al = cptr(s, a[1]); retE(s, cb, mkC(64, allocHeap(s, n2, false, al))); };
  B("aligned_alloc") { uint64_t al = cptr(s, a[0]), n2 = cptr(s, a[1]); retE(s, cb, mkC(64, allocHeap(s, n2, false, al))); };
  B("posix_memalign") { uint64_t p = cptr(s, a[0]), al = cptr(s, a[1]), n2 = cptr(s, a[2]); uint64_t r = allocHeap(s, n2, false, al); ObjP& o = access(s, p, 8, true); storeRaw(s, o, p - o->base, 8, mkC(64, r)); retE(s, cb, mkC(32, 0)); };
  B("calloc") { uint64_t n = cptr(s, a[0]) * cptr(s, a[1]); if (n > (1ull << 28)) { retE(s, cb, mkC(64, 0)); return; } retE(s, cb, mkC(64, allocHeap(s, n, true))); };
  B("realloc") { uint64_t p = cptr(s, a[0]), n = cptr(s, a[1]); uint64_t r = allocHeap(s, n); if (p) { ObjP* o = findObj(s, p); if (!o) memErr(s, "realloc of bad pointer"); copyMem(s, r, p, std::min(n, (*o)->size)); o = findObj(s, p); writable(*o)->freed = true; } retE(s, cb, mkC(64, r)); };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvmSt11align_val_t"}) B(n) { uint64_t p = cptr(s, a[0]); if (p) { ObjP* o = findObj(s, p); if (!o || (*o)->base != p || (*o)->kind != 2) memErr(s, "free of invalid pointer"); if ((*o)->freed) memErr(s, "double free"); writable(*o); (*o)->freed = true; (*o)->sym.clear(); } retV(s, cb); };
  for (const char* n : {"memcpy", "memmove"}) B(n) { uint64_t n2 = cptr(s, a[2]); if (n2) copyMem(s, cptr(s, a[0]), cptr(s, a[1]), n2); finishCall(s, cb, a[0]); };
  B("memset") { uint64_t n = cptr(s, a[2]); if (n) { uint64_t d = cptr(s, a[0]); ObjP& p = access(s, d, n, true); uint64_t off = d - p->base; E v = mkExtract(a[1].e, 0, 8); for (uint64_t i = 0; i < n; i++) storeRaw(s, p, off + i, 1, v); } finishCall(s, cb, a[0]); };
  for (const char* n : {"memcmp", "bcmp"}) B(n) { uint64_t n2 = cptr(s, a[2]); retE(s, cb, n2 ? bmemcmp(s, cptr(s, a[0]), cptr(s, a[1]), n2) : mkC(32, 0)); };
  B("strlen") { uint64_t p = cptr(s, a[0]); retE(s, cb, mkC(64, concreteStrlen(s, p))); };
  B("strnlen") { uint64_t p = cptr(s, a[0]), mx = cptr(s, a[1]); uint64_t i = 0; for (; i < mx; i++) { E c = loadByte(s, p + i); if (c->isConst() ? !c->val : decide(s, mkOp(EQ, 1, c, mkC(8, 0)))) break; } retE(s, cb, mkC(64, i)); };
  B("memchr") { uint64_t n = cptr(s, a[2]); uint64_t r = 0; if (n) { uint64_t p = cptr(s, a[0]); E c = mkExtract(a[1].e, 0, 8); if (!c->isConst()) { bool all = true; E any = mkC(1, 0), idx = mkC(64, 0); for (uint64_t i = n; i-- > 0;) { E x = loadByte(s, p + i); if (!x->isConst()) { all = false; break; } E q = mkOp(EQ, 1, x, c); any = mkOp(OR, 1, any, q); idx = mkIte(q, mkC(64, i), idx); } if (all) { if (!decide(s, any)) { retE(s, cb, mkC(64, 0)); return; } retE(s, cb, mkOp(ADD, 64, mkC(64, p), idx)); return; } }
    for (uint64_t i = 0; i < n; i++) { E q = mkOp(EQ, 1, loadByte(s, p + i), c); if (decide(s, q)) { r = p + i; break; } } } retE(s, cb, mkC(64, r)); };
  B("strchr") { uint64_t p = cptr(s, a[0]); E c = mkExtract(a[1].e, 0, 8); for (uint64_t i = 0;; i++) { E x = loadByte(s, p + i); if (decide(s, mkOp(EQ, 1, x, c))) { retE(s, cb, mkC(64, p + i)); return; } if (decide(s, mkOp(EQ, 1, x, mkC(8, 0)))) { retE(s, cb, mkC(64, 0)); return; } } };
  auto scmp = [](State& s, CallBase* cb, vector<Val>& a) { uint64_t p = cptr(s, a[0]), q = cptr(s, a[1]); uint64_t mx = a.size() > 2 ? cptr(s, a[2]) : ~0ull; for (uint64_t i = 0; i < mx; i++) { E x = loadByte(s, p + i), y = loadByte(s, q + i); if (!decide(s, mkOp(EQ, 1, x, y))) { bool lt = decide(s, mkOp(ULT, 1, x, y)); retE(s, cb, mkC(32, lt ? (u128)-1 : 1)); return; } if (decide(s, mkOp(EQ, 1, x, mkC(8, 0)))) break; } retE(s, cb, mkC(32, 0)); };
  b["strcmp"] = scmp; b["strncmp"] = scmp;
  // C++ runtime
  B("__cxa_allocate_exception") { retE(s, cb, mkC(64, allocHeap(s, cptr(s, a[0]) + 64, true))); };
  B("__cxa_free_exception") { retV(s, cb); UNUSED; };
  B("__cxa_throw") { uint64_t p = cptr(s, a[0]), ti = cptr(s, a[1]); s.excObj[p] = ti; throwExc(s, p, ti); };
  auto beginc = [](State& s, CallBase* cb, vector<Val>& a) { uint64_t p = cptr(s, a[0]); uint64_t ti = s.excObj[p]; s.T().caught.push_back(Exc{p, ti}); auto ad = s.excAdj.find(p); retE(s, cb, mkC(64, p + (ad == s.excAdj.end() ? 0 : ad->second))); };
  b["__cxa_begin_catch"] = beginc; B("__cxa_get_exception_ptr") { finishCall(s, cb, a[0]); };
  B("__cxa_end_catch") { if (!s.T().caught.empty()) s.T().caught.pop_back(); retV(s, cb); UNUSED; };
  B("__cxa_rethrow") { if (s.T().caught.empty()) { violation(s, "abort", "rethrow without exception", nullptr); throw PathEnd{"terminate"}; } Exc e = s.T().caught.back(); throwExc(s, e.ptr, e.tinfo); UNUSED; };
  B("__cxa_guard_acquire") { uint64_t g = cptr(s, a[0]); E v = loadByte(s, g); retE(s, cb, mkC(32, v->isConst() && v->val == 0 ? 1 : 0)); };
  B("__cxa_guard_release") { uint64_t g = cptr(s, a[0]); ObjP& o = access(s, g, 1, true); storeRaw(s, o, g - o->base, 1, mkC(8, 1)); retV(s, cb); };
  for (const char* n : {"__cxa_guard_abort", "__cxa_thread_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) B(n) { UNUSED; retV(s, cb); };
  B("__cxa_atexit") { UNUSED; retE(s, cb, mkC(32, 0)); };
  B("__dynamic_cast") { uint64_t p = cptr(s, a[0]); uint64_t dst = cptr(s, a[2]); if (!p) { retE(s, cb, mkC(64, 0)); return; } E vp = loadMem(s, mkC(64, p), 8, false); uint64_t v = (uint64_t)concretize(s, vp); int64_t top = (int64_t)(uint64_t)loadMem(s, mkC(64, v - 16), 8, false)->val; uint64_t ti = (uint64_t)loadMem(s, mkC(64, v - 8), 8, false)->val; uint64_t full = p + top; uint64_t off = 0; if (isBase(s, ti, dst, full, off)) retE(s, cb, mkC(64, full + off)); else retE(s, cb, mkC(64, 0)); };
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "__cxa_call_unexpected", "__clang_call_terminate", "exit", "_exit", "__cxa_bad_cast", "__cxa_bad_typeid", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) B(n) { string nm = cb->getCalledFunction()->getName().str(); string m = nm; if (nm == "__assert_fail") m += " " + readCStr(s, a[0].e).substr(0, 120); if (nm == "__cxa_bad_cast") { throwStd(s, "_ZTISt8bad_cast"); return; } violation(s, "abort", m + " at " + btrace(s).substr(0, 200), nullptr); throw PathEnd{"abort " + m}; };
  static const map<string, string> thr = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt20__throw_system_errori", "_ZTISt13runtime_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt19__throw_regex_errorNSt15regex_constants10error_typeE", "_ZTISt13runtime_error"}, {"_ZSt18__throw_bad_typeidv", "_ZTISt8bad_cast"}};
  for (auto& kv : thr) { string ti = kv.second; b[kv.first] = [ti](State& s, CallBase* cb, vector<Val>& a) { UNUSED; throwStd(s, ti); }; }
  // libc misc
  B("__errno_location") { static std::map<int,int> dummy; UNUSED; uint64_t p = gname.count("sx_errno_storage") ? gname["sx_errno_storage"] : 0; if (!p) { problem("errno"); throw PathEnd{"errno"}; } retE(s, cb, mkC(64, p)); };
  for (const char* n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_key_create", "pthread_setspecific", "fflush", "puts", "putchar", "printf", "fprintf", "vfprintf", "fputs", "fwrite", "fputc", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt6localeaSERKS_", "setlocale"}) B(n) { UNUSED; retV(s, cb); };
  B("pthread_once") { UNUSED; retV(s, cb); };
  // math
  struct M1 { const char* n; const char* f; }; for (M1 m : {M1{"sin", "sin"}, M1{"cos", "cos"}, M1{"tan", "tan"}, M1{"asin", "asin"}, M1{"acos", "acos"}, M1{"atan", "atan"}, M1{"exp", "exp"}, M1{"log", "log"}, M1{"sinf", "sin"}, M1{"cosf", "cos"}, M1{"tanf", "tan"}, M1{"asinf", "asin"}, M1{"acosf", "acos"}, M1{"atanf", "atan"}, M1{"expf", "exp"}, M1{"logf", "log"}}) { string f = m.f; b[m.n] = [f](State& s, CallBase* cb, vector<Val>& a) { retE(s, cb, fpMath(s, f, a[0].e, nullptr, fpW(cb->getType()))); }; }
  for (M1 m : {M1{"atan2", "atan2"}, M1{"pow", "pow"}, M1{"atan2f", "atan2"}, M1{"powf", "pow"}}) { string f = m.f; b[m.n] = [f](State& s, CallBase* cb, vector<Val>& a) { retE(s, cb, fpMath(s, f, a[0].e, a[1].e, fpW(cb->getType()))); }; }
  for (const char* n : {"sqrt", "sqrtf"}) B(n) { retE(s, cb, fpSqrt(a[0].e, fpW(cb->getType()))); };
  for (const char* n : {"hypot", "hypotf"}) B(n) { unsigned w = fpW(cb->getType()); if (opt.real) retE(s, cb, mkRFun(F_SQRT, mkOp(RADD, 0, mkOp(RMUL, 0, a[0].e, a[0].e), mkOp(RMUL, 0, a[1].e, a[1].e)))); else retE(s, cb, mkOp(FSQRT, w, mkOp(FADD, w, mkOp(FMUL, w, a[0].e, a[0].e), mkOp(FMUL, w, a[1].e, a[1].e)))); };
  for (const char* n : {"sincos"}) B(n) { E sn = fpMath(s, "sin", a[0].e, nullptr, 64), cs = fpMath(s, "cos", a[0].e, nullptr, 64); storeTy(s, cptr(s, a[1]), Type::getDoubleTy(ctx), sn); storeTy(s, cptr(s, a[2]), Type::getDoubleTy(ctx), cs); retV(s, cb); };
  for (const char* n : {"fmod", "fmodf"}) B(n) { if (!opt.real) { retE(s, cb, mkOp(FREM, fpW(cb->getType()), a[0].e, a[1].e)); return; } retE(s, cb, binop(s, Instruction::FRem, cb->getType(), a[0].e, a[1].e)); };
  for (const char* n : {"fabs", "fabsf"}) B(n) { retE(s, cb, fpAbs(s, a[0].e, fpW(cb->getType()))); };
  struct RD { const char* n; int m; }; for (RD r : {RD{"floor", 3}, RD{"ceil", 2}, RD{"trunc", 4}, RD{"round", 1}, RD{"rint", 0}, RD{"nearbyint", 0}, RD{"floorf", 3}, RD{"ceilf", 2}, RD{"roundf", 1}, RD{"rintf", 0}, RD{"truncf", 4}}) { int m = r.m; b[r.n] = [m](State& s, CallBase* cb, vector<Val>& a) { retE(s, cb, fpRound(s, a[0].e, m, fpW(cb->getType()))); }; }
  for (RD r : {RD{"lrint", 0}, RD{"llrint", 0}, RD{"lround", 1}, RD{"llround", 1}, RD{"lrintf", 0}, RD{"lroundf", 1}, RD{"llrintf", 0}}) { int m = r.m; b[r.n] = [m](State& s, CallBase* cb, vector<Val>& a) { Type* ft = cb->getArgOperand(0)->getType(); E x = fpRound(s, a[0].e, m, fpW(ft)); retE(s, cb, castop(s, Instruction::FPToSI, ft, cb->getType(), x)); }; }
  for (const char* n : {"fmin", "fmax", "fminf", "fmaxf"}) B(n) { string nm = cb->getCalledFunction()->getName().str(); bool mn = nm.find("min") != string::npos; if (opt.real) { bool lt = decide(s, mkOp(RLT, 1, a[0].e, a[1].e)); retE(s, cb, lt == mn ? a[0].e : a[1].e); } else { E lt = mkOp(FLT, 1, a[0].e, a[1].e); E r = mn ? mkIte(lt, a[0].e, a[1].e) : mkIte(lt, a[1].e, a[0].e); r = mkIte(mkOp(FISNAN, 1, a[0].e), a[1].e, mkIte(mkOp(FISNAN, 1, a[1].e), a[0].e, r)); retE(s, cb, r); } };
  return b;
}
static bool prefixBuiltin(State& s, CallBase* cb, const string& nm, vector<Val>& a) {
  (void)a;
  // diagnostics-only output: calls whose results cannot influence the properties
  static const char* ignore[] = {"_ZNSt8ios_base", nullptr};
  for (int i = 0; ignore[i]; i++) if (nm.rfind(ignore[i], 0) == 0) { retV(s, cb); return true; }
  return false;
}
static void initSpecialGlobals(State& s) {
  auto set = [&](const char* n, E v) { auto it = gname.find(n); if (it != gname.end() && s.mem.count(it->second)) { ObjP& o = s.mem[it->second]; bool ro = o->ro; o->ro = false; storeRaw(s, o, 0, v->w / 8, v); o->ro = ro; } };
  set("__libc_single_threaded", mkC(8, 1));
}
