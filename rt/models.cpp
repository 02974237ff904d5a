// Models of library functions that exist only as compiled code (libstdc++, libc).
// A function named sxmodel_<mangled> replaces <mangled> in the executor.  Never linked natively.
#include <string>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <stdexcept>
#include <typeinfo>
#include <new>
#include <ios>
#include <iostream>
#include <sstream>
#include <fstream>
#include <system_error>
#include "sx.h"
#define MODEL(ret, name, ...) extern "C" __attribute__((used, noinline)) ret sxmodel_##name(__VA_ARGS__)
template class std::allocator<char>;
template class std::__cxx11::basic_string<char>;
typedef unsigned char byte;
int sx_errno_storage_var asm("sx_errno_storage") __attribute__((used)) = 0;

// ------------------------------------------------------------------ exceptions
struct ExcObj { const void* const* vptr; char* msg; };
static char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
#define EXC_CLASS(M) \
  extern "C" const void* const ZTI_##M[] asm("_ZTI" #M); \
  extern "C" __attribute__((used)) void sxdt_##M(ExcObj*) {} \
  extern "C" __attribute__((used)) const char* sxwhat_##M(const ExcObj* e) { return e->msg ? e->msg : ""; } \
  extern "C" __attribute__((used)) const void* const sxvt_##M[5] asm("sxvt_ZTI" #M); \
  const void* const sxvt_##M[5] = { nullptr, ZTI_##M, (const void*)&sxdt_##M, (const void*)&sxdt_##M, (const void*)&sxwhat_##M };
#define EXC_STR(M) EXC_CLASS(M) \
  MODEL(void, _ZN##M##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, ExcObj* e, const std::string& s) { e->vptr = sxvt_##M + 2; e->msg = dupn(s.data(), s.size()); } \
  MODEL(void, _ZN##M##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE, ExcObj* e, const std::string& s) { e->vptr = sxvt_##M + 2; e->msg = dupn(s.data(), s.size()); } \
  MODEL(void, _ZN##M##C1EPKc, ExcObj* e, const char* s) { e->vptr = sxvt_##M + 2; e->msg = dupn(s, strlen(s)); } \
  MODEL(void, _ZN##M##C2EPKc, ExcObj* e, const char* s) { e->vptr = sxvt_##M + 2; e->msg = dupn(s, strlen(s)); } \
  MODEL(void, _ZN##M##C1ERKS_, ExcObj* e, const ExcObj* s) { e->vptr = sxvt_##M + 2; e->msg = s->msg; } \
  MODEL(void, _ZN##M##C2ERKS_, ExcObj* e, const ExcObj* s) { e->vptr = sxvt_##M + 2; e->msg = s->msg; } \
  MODEL(void, _ZN##M##C1EOS_, ExcObj* e, const ExcObj* s) { e->vptr = sxvt_##M + 2; e->msg = s->msg; } \
  MODEL(void, _ZN##M##C2EOS_, ExcObj* e, const ExcObj* s) { e->vptr = sxvt_##M + 2; e->msg = s->msg; } \
  MODEL(void, _ZN##M##D1Ev, ExcObj*) {} MODEL(void, _ZN##M##D2Ev, ExcObj*) {} MODEL(void, _ZN##M##D0Ev, ExcObj*) {}
EXC_STR(St13runtime_error) EXC_STR(St11logic_error) EXC_STR(St16invalid_argument) EXC_STR(St12out_of_range) EXC_STR(St12length_error) EXC_STR(St12domain_error) EXC_STR(St11range_error) EXC_STR(St14overflow_error)
EXC_CLASS(St9exception) EXC_CLASS(St9bad_alloc) EXC_CLASS(St8bad_cast)
MODEL(const char*, _ZNKSt13runtime_error4whatEv, const ExcObj* e) { return e->msg ? e->msg : ""; }
MODEL(const char*, _ZNKSt11logic_error4whatEv, const ExcObj* e) { return e->msg ? e->msg : ""; }
MODEL(const char*, _ZNKSt9exception4whatEv, const ExcObj*) { return "std::exception"; }
MODEL(void, _ZNSt9exceptionD2Ev, ExcObj*) {} MODEL(void, _ZNSt9exceptionD1Ev, ExcObj*) {}
MODEL(void, _ZNSt8bad_castD2Ev, ExcObj*) {} MODEL(void, _ZNSt8bad_castD1Ev, ExcObj*) {} MODEL(void, _ZNSt9bad_allocD2Ev, ExcObj*) {} MODEL(void, _ZNSt9bad_allocD1Ev, ExcObj*) {}
MODEL(const char*, _ZNKSt8bad_cast4whatEv, const ExcObj*) { return "std::bad_cast"; } MODEL(const char*, _ZNKSt9bad_alloc4whatEv, const ExcObj*) { return "std::bad_alloc"; }
MODEL(bool, _ZNKSt9type_infoeqERKS_, const void* a, const void* b) { return a == b; }

// ------------------------------------------------------------------ red-black tree (as a plain binary search tree)
struct RB { int color; RB *p, *l, *r; };
MODEL(void, _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_, bool left, RB* x, RB* p, RB& h) {
  x->p = p; x->l = nullptr; x->r = nullptr; x->color = 1;
  if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; }
  else { p->r = x; if (p == h.r) h.r = x; }
  if (h.p) h.p->color = 1;
}
static RB* rbinc(RB* x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } RB* y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x; }
static RB* rbdec(RB* x) { if (x->color == 0 && x->p && x->p->p == x) return x->r; if (x->l) { RB* y = x->l; while (y->r) y = y->r; return y; } RB* y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
MODEL(RB*, _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base, RB* x) { return rbinc(x); }
MODEL(const RB*, _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base, const RB* x) { return rbinc((RB*)x); }
MODEL(RB*, _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base, RB* x) { return rbdec(x); }
MODEL(const RB*, _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base, const RB* x) { return rbdec((RB*)x); }
MODEL(RB*, _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_, RB* z, RB& h) {
  RB* lm = h.l; RB* rm = h.r; RB* nl = (z == lm) ? rbinc(z) : lm; RB* nr = (z == rm) ? rbdec(z) : rm;
  auto repl = [&](RB* o, RB* n) { if (h.p == o) h.p = n; else if (o->p->l == o) o->p->l = n; else o->p->r = n; if (n) n->p = o->p; };
  if (!z->l) repl(z, z->r); else if (!z->r) repl(z, z->l);
  else { RB* y = z->r; while (y->l) y = y->l; if (y->p != z) { repl(y, y->r); y->r = z->r; y->r->p = y; } repl(z, y); y->l = z->l; y->l->p = y; y->color = z->color; }
  if (!h.p) { h.l = &h; h.r = &h; } else { h.l = nl; h.r = nr; }
  return z;
}
// ------------------------------------------------------------------ type descriptors that the run-time library defines
struct TI { const void* vt; const char* name; };
#define TYPEINFO(n, str) extern "C" { extern TI sx_ti_##n asm("_ZTI" str); __attribute__((used)) TI sx_ti_##n = {nullptr, str}; }
TYPEINFO(i, "i") TYPEINFO(d, "d") TYPEINFO(f, "f") TYPEINFO(b, "b") TYPEINFO(c, "c") TYPEINFO(l, "l") TYPEINFO(m, "m") TYPEINFO(j, "j") TYPEINFO(s, "s") TYPEINFO(t, "t") TYPEINFO(x, "x") TYPEINFO(y, "y") TYPEINFO(h, "h") TYPEINFO(a, "a") TYPEINFO(v, "v") TYPEINFO(PKc, "PKc")
TYPEINFO(str, "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
// ------------------------------------------------------------------ list hooks, hashing
struct LN { LN *n, *p; };
MODEL(void, _ZNSt8__detail15_List_node_base7_M_hookEPS0_, LN* t, LN* pos) { t->n = pos; t->p = pos->p; pos->p->n = t; pos->p = t; }
MODEL(void, _ZNSt8__detail15_List_node_base9_M_unhookEv, LN* t) { t->n->p = t->p; t->p->n = t->n; }
MODEL(void, _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_, LN* t, LN* f, LN* l) {
  if (t != l) { l->p->n = t; f->p->n = l; t->p->n = f; LN* tmp = t->p; t->p = l->p; l->p = f->p; f->p = tmp; } }
MODEL(size_t, _ZSt11_Hash_bytesPKvmm, const void*, size_t, size_t) { return 0; }
MODEL(size_t, _ZNKSt8__detail20_Prime_rehash_policy14_M_next_bktEm, void* t, size_t n) { size_t r = n < 13 ? 13 : n * 2 + 1; ((size_t*)t)[1] = r; return r; }
MODEL(size_t, _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm, void* t, size_t n) { size_t r = n < 13 ? 13 : n * 2 + 1; ((size_t*)t)[1] = r; return r; }
struct BP { bool f; size_t s; };
MODEL(BP, _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm, void* t, size_t bkt, size_t elt, size_t ins) { if (bkt < 13) { ((size_t*)t)[1] = 13; return BP{true, 13}; } if (elt + ins > bkt) { return BP{true, bkt * 2 + 1}; } return BP{false, 0}; }

// ------------------------------------------------------------------ iostreams
// A stream object keeps, 8 bytes after its istream/ostream base, a pointer to a Buf.
struct SxFile; // a simulated file (see harness/simfile.h)
struct Buf { std::string s; size_t rpos; bool out; SxFile* file; size_t base; };
struct IosBase { const void* const* vptr; int64_t prec, width; int flags, exc, st, pad; };
struct StreamVT { int64_t vbase; int64_t top; const void* ti; const void* fn[4]; };
#define VT(n, off) static const StreamVT n = { off, 0, nullptr, { nullptr, nullptr, nullptr, nullptr } };
VT(vtS128, 128) VT(vtS112, 112) VT(vtS120, 120) VT(vtS256, 256) VT(vtS248, 248) VT(vtS264, 264)
typedef void* Str;
static IosBase* iosOf(const void* s) { const void* const* vp = *(const void* const* const*)s; int64_t off = ((const int64_t*)vp)[-3]; return (IosBase*)((char*)s + off); }
static Buf*& bufOf(const void* s) { return *(Buf**)((char*)s + 8); }
static void setVT(void* s, const StreamVT& v) { *(const void**)s = &v.fn[0]; }
// a character-type facet that widens every character to itself (stream code that was inlined reads it directly)
struct FakeCtype { const void* vptr; char pad[40]; const unsigned short* table; char widen_ok; unsigned char widen[256]; char narrow[256]; char narrow_ok; char rest[16]; };
#define R4(n) n, n + 1, n + 2, n + 3
#define R16(n) R4(n), R4(n + 4), R4(n + 8), R4(n + 12)
#define R64(n) R16(n), R16(n + 16), R16(n + 32), R16(n + 48)
static const unsigned short classTable[256] = {0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2003, 0x2002, 0x2002, 0x2002, 0x2002, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x6001, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xd508, 0xd508, 0xd508, 0xd508, 0xd508, 0xd508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xd608, 0xd608, 0xd608, 0xd608, 0xd608, 0xd608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc004, 0xc004, 0xc004, 0xc004, 0x2};
static const FakeCtype fakeCtype = {nullptr, {0}, classTable, 1, {R64(0), R64(64), R64(128), R64(192)}, {0}, 0, {0}};
struct FakeOut { const void* vptr; Buf* buf; char pad[96]; const void* ivptr; int64_t prec, width; int flags, exc, st, ipad; char mid[184]; char fill, fill_init; char gap[6]; void* sb; const void* ctype; char rest[64]; };
#define FAKE_OUT(n, sym) extern "C" { extern FakeOut n asm(sym); __attribute__((used)) FakeOut n = {&vtS112.fn[0], nullptr, {0}, nullptr, 6, 0, 0x1002, 0, 0, 0, {0}, ' ', 1, {0}, nullptr, &fakeCtype, {0}}; }
MODEL(const void*, _ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale, const void*) { return &fakeCtype; }
FAKE_OUT(sx_cout, "_ZSt4cout") FAKE_OUT(sx_cerr, "_ZSt4cerr") FAKE_OUT(sx_clog, "_ZSt4clog") // output is dropped
static void initIos(void* p) { *(const void**)((char*)p + 240) = &fakeCtype;  IosBase* b = (IosBase*)p; b->vptr = nullptr; b->prec = 6; b->width = 0; b->flags = 0x1002; b->exc = 0; b->st = 0; *(char*)((char*)p + 224) = ' '; *(char*)((char*)p + 225) = 1; }
static char fillOf(const void* s) { return *((char*)iosOf(s) + 224); }
static Buf* newBuf() { Buf* b = new Buf(); b->rpos = 0; b->out = true; b->file = nullptr; b->base = 0; return b; }
static Buf*& iosBuf(void* p) { return *(Buf**)((char*)p + 64); }
// the buffer behind an input stream: what is left to read, then the end (reading through it does not move the stream itself)
struct FakeSB { const void* vptr; const char *eback, *gptr, *egptr, *pbase, *pptr, *epptr; void* loc; };
static int sbEof(void*) { return -1; } static int sbPut(void*, int) { return -1; } static long sbLong(void*) { return 0; } static void sbNothing(void*) {}
static struct { const void *off, *ti, *fn[14]; } const vtSB = {nullptr, nullptr, {(void*)sbNothing, (void*)sbNothing, (void*)sbNothing, (void*)sbNothing, (void*)sbNothing, (void*)sbNothing, (void*)sbEof, (void*)sbLong, (void*)sbLong, (void*)sbEof, (void*)sbEof, (void*)sbPut, (void*)sbLong, (void*)sbPut}};
MODEL(void*, _ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv, void* ios) { Buf* b = iosBuf(ios); FakeSB* f = new FakeSB(); f->vptr = &vtSB.fn[0]; if (b && b->rpos <= b->s.size()) { f->eback = f->gptr = b->s.data() + b->rpos; f->egptr = b->s.data() + b->s.size(); } return f; }
MODEL(int, _ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetcEv, FakeSB* f) { return f->gptr < f->egptr ? (unsigned char)*f->gptr : -1; }
MODEL(int, _ZNSt15basic_streambufIcSt11char_traitsIcEE6sbumpcEv, FakeSB* f) { return f->gptr < f->egptr ? (unsigned char)*f->gptr++ : -1; }
MODEL(int, _ZNSt15basic_streambufIcSt11char_traitsIcEE6snextcEv, FakeSB* f) { if (f->gptr < f->egptr) f->gptr++; return f->gptr < f->egptr ? (unsigned char)*f->gptr : -1; }
static void put(void* os, const char* s, size_t n) { // honours width (right-aligned unless left flag)
  Buf* b = bufOf(os); IosBase* i = iosOf(os); if (!b) { i->width = 0; return; }
  size_t w = i->width > 0 ? (size_t)i->width : 0; i->width = 0;
  size_t padn = w > n ? w - n : 0; bool left = (i->flags & 0xb0) == 0x20; // adjustfield: left 0x20
  if (!left) b->s.append(padn, fillOf(os)); b->s.append(s, n); if (left) b->s.append(padn, fillOf(os));
}
static void putRaw(void* os, const char* s, size_t n) { Buf* b = bufOf(os); if (b) b->s.append(s, n); }
extern "C" { int sx_known(uint64_t); __attribute__((used)) int sx_opaque_numbers = 0; } // a harness may set it: integers print as opaque text
extern "C" { double sx_double(const char*); }
// sx_number_tokens: numbers print as a two-character token that reading turns back into the number (a decimal
// text with enough digits); a floating-point number printed with fewer than 17 digits reads back as an arbitrary number
struct Token { bool isInt, neg; uint64_t v; double d; long prec; int fmt; };
extern "C" { __attribute__((used)) int sx_number_tokens = 0; }
static Token sx_tokens[64]; static int sx_ntokens;
// sx_number_tokens == 2: the same number printed in the same format is the same token
static int newToken(const Token& t) {
  if (sx_number_tokens == 2) for (int i = 0; i < sx_ntokens; i++) { const Token& o = sx_tokens[i]; if (o.isInt != t.isInt || o.neg != t.neg || o.prec != t.prec || o.fmt != t.fmt) continue; uint64_t a, b; __builtin_memcpy(&a, &o.d, 8); __builtin_memcpy(&b, &t.d, 8); if (o.v == t.v && a == b) return i; }
  sx_tokens[sx_ntokens] = t; return sx_ntokens++;
}
static void putToken(void* os, const Token& t) { if (!bufOf(os)) { iosOf(os)->width = 0; return; } char c[2] = {2, (char)(' ' + newToken(t))}; put(os, c, 2); }
static void putDouble(void* os, double d) { if (sx_number_tokens) { int fl = iosOf(os)->flags & 0x104; Token t = {false, false, 0, d, (long)iosOf(os)->prec, fl == 4 ? 'f' : fl == 0x100 ? 'e' : fl ? 'a' : 'g'}; putToken(os, t); } else put(os, "<f>", 3); }
static void putNum(void* os, uint64_t v, bool neg) {
  if (sx_number_tokens && !sx_known(v)) { Token t = {true, neg, v, 0, 0}; putToken(os, t); return; }
  if (sx_opaque_numbers && !sx_known(v)) { put(os, "<n>", 3); return; }
  IosBase* i = iosOf(os); char t[72]; int p = 72; int base = (i->flags & 0x4a) == 0x08 ? 16 : (i->flags & 0x4a) == 0x40 ? 8 : 10;
  if (!bufOf(os)) { i->width = 0; return; }
  v = sx_concrete(v);
  do { int d = v % base; t[--p] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v);
  if (base == 16 && (i->flags & 0x200)) { t[--p] = 'x'; t[--p] = '0'; }
  if (neg) t[--p] = '-';
  put(os, t + p, 72 - p);
}
static void* sput(void* o, int64_t v) {
  if (sx_number_tokens && !sx_known(v)) { Token t = {true, true, (uint64_t)v, 0, 0}; putToken(o, t); return o; } // neg: a signed number
  if (sx_opaque_numbers && !sx_known(v)) { put(o, "<n>", 3); return o; }
  if (bufOf(o) && v < 0) putNum(o, (uint64_t)-v, true); else putNum(o, (uint64_t)v, false); return o; }
extern "C" void sx_fmt_double(void*, double, int, int) __attribute__((weak));
// stringstream: istream at 0, ostream at 16, ios at 128 (from start); 112 from ostream
#define SS_SETUP(self) do { setVT(self, vtS128); setVT((char*)self + 16, vtS112); initIos((char*)self + 128); Buf* b = newBuf(); bufOf(self) = b; bufOf((char*)self + 16) = b; iosBuf((char*)self + 128) = b; } while (0)
#define SSN(x) _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE##x
MODEL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev, char* s) { SS_SETUP(s); }
MODEL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode, char* s, const std::string& t, int m) { SS_SETUP(s); bufOf(s)->s = t; (void)m; }
MODEL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ESt13_Ios_Openmode, char* s, int) { SS_SETUP(s); }
MODEL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev, char*) {}
MODEL(std::string, _ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv, const char* s) { return bufOf(s)->s; }
MODEL(void, _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE, char* s, const std::string& t) { bufOf(s)->s = t; bufOf(s)->rpos = 0; }
// ostringstream: ostream at 0, ios at 112
#define OSS_SETUP(self) do { setVT(self, vtS112); initIos((char*)self + 112); iosBuf((char*)self + 112) = bufOf(self) = newBuf(); } while (0)
MODEL(void, _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev, char* s) { OSS_SETUP(s); }
MODEL(void, _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1ESt13_Ios_Openmode, char* s, int) { OSS_SETUP(s); }
MODEL(void, _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev, char*) {}
MODEL(std::string, _ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv, const char* s) { return bufOf(s)->s; }
MODEL(void, _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE, char* s, const std::string& t) { bufOf(s)->s = t; }
MODEL(void, _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode, char* s, const std::string& t, int m) { OSS_SETUP(s); if (m & 3) bufOf(s)->s = t; }
// istringstream: istream at 0, ios at 120
#define ISS_SETUP(self) do { setVT(self, vtS120); initIos((char*)self + 120); iosBuf((char*)self + 120) = bufOf(self) = newBuf(); } while (0)
MODEL(void, _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode, char* s, const std::string& t, int) { ISS_SETUP(s); bufOf(s)->s = t; }
MODEL(void, _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev, char*) {}
MODEL(void, _ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE, char* s, const std::string& t) { bufOf(s)->s = t; bufOf(s)->rpos = 0; }
MODEL(std::string, _ZNKSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE3strEv, const char* s) { return bufOf(s)->s; }
// std::cout / cerr: initialised lazily: output is dropped
MODEL(void*, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc, void* o, const char* s) { if (*(void**)o == nullptr) return o; if (bufOf(o)) put(o, s, strlen(s)); return o; }
MODEL(void*, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c, void* o, char c) { if (*(void**)o == nullptr) return o; put(o, &c, 1); return o; }
MODEL(void*, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a, void* o, char c) { if (*(void**)o == nullptr) return o; put(o, &c, 1); return o; }
MODEL(void*, _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h, void* o, char c) { if (*(void**)o == nullptr) return o; put(o, &c, 1); return o; }
MODEL(void*, _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l, void* o, const char* s, long n) { if (*(void**)o == nullptr) return o; put(o, s, n); return o; }
MODEL(void*, _ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE, void* o, const std::string& s) { if (*(void**)o == nullptr) return o; put(o, s.data(), s.size()); return o; }
MODEL(void*, _ZN5boost2io6detail10quoted_outIcSt11char_traitsIcEKNSt7__cxx1112basic_stringIcS4_SaIcEEEEERSt13basic_ostreamIT_T0_ESE_PT1_SB_SB_, void* o, const std::string* s, char esc, char delim) { if (*(void**)o == nullptr || !bufOf(o)) return o; std::string t(1, delim); for (char c : *s) { if ((c == esc) | (c == delim)) t.push_back(esc); t.push_back(c); } t.push_back(delim); put(o, t.data(), t.size()); return o; }
MODEL(void*, _ZNSolsEi, void* o, int v) { if (*(void**)o == nullptr) return o; return sput(o, (iosOf(o)->flags & 0x4a) == 0x08 ? (int64_t)(uint32_t)v : v); }
MODEL(void*, _ZNSolsEs, void* o, short v) { if (*(void**)o == nullptr) return o; return sput(o, v); }
MODEL(void*, _ZNSolsEj, void* o, unsigned v) { if (*(void**)o == nullptr) return o; putNum(o, v, false); return o; }
MODEL(void*, _ZNSolsEt, void* o, unsigned short v) { if (*(void**)o == nullptr) return o; putNum(o, v, false); return o; }
MODEL(void*, _ZNSolsEl, void* o, long v) { if (*(void**)o == nullptr) return o; return sput(o, v); }
MODEL(void*, _ZNSolsEm, void* o, unsigned long v) { if (*(void**)o == nullptr) return o; putNum(o, v, false); return o; }
MODEL(void*, _ZNSolsEx, void* o, long v) { if (*(void**)o == nullptr) return o; return sput(o, v); }
MODEL(void*, _ZNSolsEy, void* o, unsigned long v) { if (*(void**)o == nullptr) return o; putNum(o, v, false); return o; }
MODEL(void*, _ZNSo9_M_insertImEERSoT_, void* o, unsigned long v) { if (*(void**)o == nullptr) return o; putNum(o, v, false); return o; }
MODEL(void*, _ZNSo9_M_insertIlEERSoT_, void* o, long v) { if (*(void**)o == nullptr) return o; return sput(o, v); }
MODEL(void*, _ZNSolsEb, void* o, bool v) { if (*(void**)o == nullptr) return o; if (!bufOf(o)) return o; v = sx_concrete(v); if (iosOf(o)->flags & 1) put(o, v ? "true" : "false", v ? 4 : 5); else put(o, v ? "1" : "0", 1); return o; }
MODEL(void*, _ZNSo9_M_insertIbEERSoT_, void* o, bool v) { if (*(void**)o == nullptr) return o; if (!bufOf(o)) return o; v = sx_concrete(v); if (iosOf(o)->flags & 1) put(o, v ? "true" : "false", v ? 4 : 5); else put(o, v ? "1" : "0", 1); return o; }
MODEL(void*, _ZNSo9_M_insertIdEERSoT_, void* o, double d) { if (*(void**)o == nullptr) return o; putDouble(o, (double)d); return o; }   // value of a floating-point number: opaque text
MODEL(void*, _ZNSo9_M_insertIeEERSoT_, void* o, long double d) { if (*(void**)o == nullptr) return o; putDouble(o, (double)d); return o; }
MODEL(void*, _ZNSolsEd, void* o, double d) { if (*(void**)o == nullptr) return o; putDouble(o, (double)d); return o; }
MODEL(void*, _ZNSolsEf, void* o, float d) { if (*(void**)o == nullptr) return o; putDouble(o, (double)d); return o; }
MODEL(void*, _ZNSo9_M_insertIPKvEERSoT_, void* o, const void*) { if (*(void**)o == nullptr) return o; put(o, "0x1", 3); return o; }
MODEL(void*, _ZNSolsEPKv, void* o, const void*) { if (*(void**)o == nullptr) return o; put(o, "0x1", 3); return o; }
MODEL(void*, _ZNSolsEPFRSoS_E, void* o, void* (*f)(void*)) { if (*(void**)o == nullptr) return o; return f(o); }
MODEL(void*, _ZNSolsEPFRSt8ios_baseS0_E, void* o, void* (*f)(void*)) { if (*(void**)o == nullptr) return o; f(iosOf(o)); return o; }
MODEL(void*, _ZNSo3putEc, void* o, char c) { if (*(void**)o == nullptr) return o; putRaw(o, &c, 1); return o; }
MODEL(void*, _ZNSt9basic_iosIcSt11char_traitsIcEE7copyfmtERKS2_, void* a, void* b) { IosBase *x = (IosBase*)a, *y = (IosBase*)b; x->prec = y->prec; x->width = y->width; x->flags = y->flags; *((char*)a + 224) = *((char*)b + 224); return a; }
static void fflush_out(void* s);
MODEL(void*, _ZNSo5flushEv, void* o) { if (*(void**)o != nullptr) fflush_out(o); return o; }
MODEL(void*, _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_, void* o) { if (*(void**)o == nullptr) return o; putRaw(o, "\n", 1); fflush_out(o); return o; }
MODEL(void*, _ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_, void* o) { if (*(void**)o != nullptr) fflush_out(o); return o; }
MODEL(char, _ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc, void*, char c) { return c; }
MODEL(char, _ZNKSt5ctypeIcE5widenEc, void*, char c) { return c; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv, void* i) { return (((IosBase*)i)->st & 5) != 0; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv, void* i) { return (((IosBase*)i)->st & 2) != 0; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv, void* i) { return ((IosBase*)i)->st == 0; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv, void* i) { return (((IosBase*)i)->st & 1) != 0; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEEntEv, void* i) { return (((IosBase*)i)->st & 5) != 0; }
MODEL(bool, _ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv, void* i) { return (((IosBase*)i)->st & 5) == 0; }
MODEL(int, _ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv, void* i) { return ((IosBase*)i)->st; }
MODEL(char, _ZNSt9basic_iosIcSt11char_traitsIcEE4fillEc, void* i, char c) { char o = *((char*)i + 224); *((char*)i + 224) = c; return o; }
MODEL(char, _ZNKSt9basic_iosIcSt11char_traitsIcEE4fillEv, void* i) { return *((char*)i + 224); }
static void applyExc(IosBase* i) { if (i->exc & i->st) throw std::runtime_error("ios_base::failure"); }
MODEL(void, _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate, void* i, int st) { ((IosBase*)i)->st = st; applyExc((IosBase*)i); }
MODEL(void, _ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate, void* i, int st) { ((IosBase*)i)->st |= st; applyExc((IosBase*)i); }
MODEL(void, _ZNSt9basic_iosIcSt11char_traitsIcEE10exceptionsESt12_Ios_Iostate, void* i, int st) { ((IosBase*)i)->exc = st; applyExc((IosBase*)i); }
// --- reading
static int peekc(void* is) { Buf* b = bufOf(is); return b && b->rpos < b->s.size() ? (byte)b->s[b->rpos] : -1; }
static bool isws(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static bool skipws(void* is) { IosBase* i = iosOf(is); if (i->st) { i->st |= 4; return false; } if (i->flags & 0x1000) while (isws(peekc(is))) bufOf(is)->rpos++; if (peekc(is) < 0) { i->st |= 6; return false; } return true; }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return 99; }
static bool readInt(void* is, uint64_t& v, bool& neg, bool& ovf) {
  IosBase* i = iosOf(is); v = 0; neg = ovf = false; if (!skipws(is)) return false; Buf* b = bufOf(is); unsigned base = (i->flags & 0x4a) == 0x08 ? 16 : (i->flags & 0x4a) == 0x40 ? 8 : 10; bool any = false;
  if (peekc(is) == 2 && sx_number_tokens && sx_tokens[b->s[b->rpos + 1] - ' '].isInt) { const Token& t = sx_tokens[b->s[b->rpos + 1] - ' ']; v = t.v; neg = t.neg && (int64_t)v < 0; if (neg) v = -v; b->rpos += 2; if (peekc(is) < 0) i->st |= 2; return true; }
  if (peekc(is) == '-') { neg = true; b->rpos++; } else if (peekc(is) == '+') b->rpos++;
  if (base == 16 && peekc(is) == '0' && b->rpos + 1 < b->s.size() && (b->s[b->rpos + 1] == 'x' || b->s[b->rpos + 1] == 'X')) { b->rpos += 2; }
  while (true) { int c = peekc(is); if (c < 0) { i->st |= 2; break; } unsigned d = dig(c); if (d >= base) break; any = true; if (v > (~0ull - d) / base) ovf = true; v = v * base + d; b->rpos++; }
  if (!any) { i->st |= 4; return false; } return true;
}
static void* readDouble(void* is, double& out) { // tokens and plain integers; other text is refused
  out = 0; if (!skipws(is)) return is; IosBase* i = iosOf(is); Buf* b = bufOf(is);
  if (peekc(is) == 2 && sx_number_tokens) { const Token& t = sx_tokens[b->s[b->rpos + 1] - ' ']; b->rpos += 2; if (peekc(is) < 0) i->st |= 2; if (t.isInt) out = t.neg ? (double)(int64_t)t.v : (double)t.v; else out = t.prec >= 17 ? t.d : sx_double("rounded"); return is; }
  uint64_t v; bool n, o; if (readInt(is, v, n, o)) out = n ? -(double)v : (double)v; return is; }
MODEL(void*, _ZNSirsERd, void* is, double& o) { return readDouble(is, o); }
MODEL(void*, _ZNSi10_M_extractIdEERSiRT_, void* is, double& o) { return readDouble(is, o); }
MODEL(void*, _ZNSirsERf, void* is, float& o) { double d; void* r = readDouble(is, d); o = (float)d; return r; }
MODEL(void*, _ZNSi10_M_extractIfEERSiRT_, void* is, float& o) { double d; void* r = readDouble(is, d); o = (float)d; return r; }
static void* readBool(void* is, bool& out) {
  out = false; if (!skipws(is)) return is; IosBase* i = iosOf(is); Buf* b = bufOf(is);
  if (!(i->flags & 1)) { uint64_t v; bool n, o; if (!readInt(is, v, n, o)) return is; if (o || n || v > 1) { i->st |= 4; out = true; return is; } out = v; return is; }
  const char* w = peekc(is) == 't' ? "true" : "false"; out = *w == 't'; for (; *w; w++) { int c = peekc(is); if (c != *w) { i->st |= c < 0 ? 6 : 4; out = false; return is; } b->rpos++; } if (peekc(is) < 0 && false) i->st |= 2; return is; }
MODEL(void*, _ZNSirsERb, void* is, bool& o) { return readBool(is, o); }
MODEL(void*, _ZNSi10_M_extractIbEERSiRT_, void* is, bool& o) { return readBool(is, o); }
MODEL(void*, _ZNSirsEPFRSiS_E, void* i, void* (*f)(void*)) { return f(i); }
MODEL(void*, _ZNSirsEPFRSt8ios_baseS0_E, void* i, void* (*f)(void*)) { f(iosOf(i)); return i; }
MODEL(void*, _ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_, void* is) { IosBase* i = iosOf(is); if (i->st & 5) return is; while (isws(peekc(is))) bufOf(is)->rpos++; if (peekc(is) < 0) i->st |= 2; return is; }
MODEL(void, _ZNSt6localeC1Ev, void*) {} MODEL(void, _ZNSt6localeC1ERKS_, void*, const void*) {} MODEL(void, _ZNSt6localeD1Ev, void*) {} MODEL(void*, _ZNSt6localeaSERKS_, void* a, const void*) { return a; } MODEL(void*, _ZNSt6local7classicEv, ) { return nullptr; }
MODEL(void, _ZNSt9basic_iosIcSt11char_traitsIcEE5imbueERKSt6locale, void*, void*, const void*) {}
static bool tokInt(void* is, int64_t& v) { IosBase* i = iosOf(is); if (!sx_number_tokens || i->st) return false; Buf* b = bufOf(is); if (i->flags & 0x1000) while (isws(peekc(is))) b->rpos++; if (peekc(is) != 2) return false; const Token& t = sx_tokens[b->s[b->rpos + 1] - ' ']; if (!t.isInt || !t.neg) return false; v = (int64_t)t.v; b->rpos += 2; if (peekc(is) < 0) i->st |= 2; return true; }
#define RD_S(N, T, LO, HI) MODEL(void*, N, void* is, T& out) { int64_t q; if (tokInt(is, q)) { if ((int64_t)(T)q == q) out = (T)q; else { out = q < 0 ? LO : HI; iosOf(is)->st |= 4; } return is; } uint64_t v; bool n, o; if (!readInt(is, v, n, o)) { if (!(iosOf(is)->st & 2) || true) out = 0; return is; } if (o || (!n && v > (uint64_t)HI) || (n && v > (uint64_t)HI + 1)) { out = n ? LO : HI; iosOf(is)->st |= 4; } else out = n ? (T)-(int64_t)v : (T)v; return is; }
#define RD_U(N, T, HI) MODEL(void*, N, void* is, T& out) { uint64_t v; bool n, o; if (!readInt(is, v, n, o)) { out = 0; return is; } if (o || v > (uint64_t)HI) { out = HI; iosOf(is)->st |= 4; } else out = n ? (T)-v : (T)v; return is; }
RD_S(_ZNSirsERi, int, INT32_MIN, INT32_MAX) RD_S(_ZNSirsERs, short, INT16_MIN, INT16_MAX) RD_S(_ZNSi10_M_extractIlEERSiRT_, long, INT64_MIN, INT64_MAX) RD_S(_ZNSirsERl, long, INT64_MIN, INT64_MAX)
RD_U(_ZNSi10_M_extractIjEERSiRT_, unsigned, UINT32_MAX) RD_U(_ZNSi10_M_extractImEERSiRT_, unsigned long, UINT64_MAX) RD_U(_ZNSi10_M_extractItEERSiRT_, unsigned short, UINT16_MAX) RD_U(_ZNSirsERj, unsigned, UINT32_MAX) RD_U(_ZNSirsERm, unsigned long, UINT64_MAX)
MODEL(void*, _ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE, void* is, std::string& s) { IosBase* i = iosOf(is); if (!skipws(is)) return is; s.clear(); while (true) { int c = peekc(is); if (c < 0) { i->st |= 2; break; } if (isws(c)) break; s.push_back((char)c); bufOf(is)->rpos++; } if (s.empty()) i->st |= 4; return is; }
MODEL(void*, _ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_, void* is, char& c) { if (!skipws(is)) return is; c = (char)peekc(is); bufOf(is)->rpos++; return is; }
static void* getl(void* is, std::string& s, char d) { IosBase* i = iosOf(is); s.clear(); if (i->st) { i->st |= 4; return is; } bool any = false; while (true) { int c = peekc(is); if (c < 0) { i->st |= any ? 2 : 6; break; } bufOf(is)->rpos++; any = true; if ((char)c == d) break; s.push_back((char)c); } return is; }
MODEL(void*, _ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_, void* is, std::string& s, char d) { return getl(is, s, d); }
MODEL(void*, _ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE, void* is, std::string& s) { return getl(is, s, '\n'); }
MODEL(int, _ZNSi3getEv, void* is) { IosBase* i = iosOf(is); if (i->st) { i->st |= 4; return -1; } int c = peekc(is); if (c < 0) { i->st |= 6; return -1; } bufOf(is)->rpos++; return c; }
MODEL(int, _ZNSi4peekEv, void* is) { IosBase* i = iosOf(is); if (i->st) return -1; int c = peekc(is); if (c < 0) i->st |= 2; return c; }
static uint64_t sx_gcount; MODEL(long, _ZNKSi6gcountEv, void*) { return (long)sx_gcount; } // of the latest read; the object's own field holds the buffer
// raw read; the bytes that are missing at end of file stay as they were
MODEL(void*, _ZNSi4readEPcl, void* is, char* p, long n) {
  sx_gcount = 0; IosBase* i = iosOf(is); if (i->st) { i->st |= 4; applyExc(i); return is; } Buf* b = bufOf(is); size_t left = b->s.size() > b->rpos ? b->s.size() - b->rpos : 0; size_t k = (size_t)n < left ? (size_t)n : left;
  if (k) memcpy(p, b->s.data() + b->rpos, k); b->rpos += k; sx_gcount = k; if (k < (size_t)n) { i->st |= 6; applyExc(i); } return is; }
MODEL(void*, _ZNSo5writeEPKcl, void* o, const char* p, long n) { IosBase* i = iosOf(o); if (i->st) { i->st |= 5; return o; } Buf* b = bufOf(o); if (b && n > 0) b->s.append(p, n); return o; }
struct FPos { int64_t off; int64_t st; };
MODEL(FPos, _ZNSi5tellgEv, void* is) { IosBase* i = iosOf(is); if (i->st & 5) return FPos{-1, 0}; return FPos{(int64_t)bufOf(is)->rpos, 0}; }
MODEL(FPos, _ZNSo5tellpEv, void* is) { IosBase* i = iosOf(is); if (i->st & 5) return FPos{-1, 0}; return FPos{(int64_t)bufOf(is)->s.size(), 0}; }
MODEL(void*, _ZNSi5seekgElSt12_Ios_Seekdir, void* is, long off, int dir) { IosBase* i = iosOf(is); i->st &= ~2; if (i->st & 5) return is; Buf* b = bufOf(is); int64_t base = dir == 0 ? 0 : dir == 1 ? (int64_t)b->rpos : (int64_t)b->s.size(); if (base + off < 0 || base + off > (int64_t)b->s.size()) { if (base + off < 0) { i->st |= 4; return is; } } b->rpos = base + off; return is; }
MODEL(void*, _ZNSi5seekgESt4fposI11__mbstate_tE, void* is, int64_t off, int64_t) { IosBase* i = iosOf(is); i->st &= ~2; if (i->st & 5) return is; bufOf(is)->rpos = off; return is; }
MODEL(void*, _ZNSi6ignoreEl, void* is, long n) { Buf* b = bufOf(is); while (n-- > 0) { if (b->rpos >= b->s.size()) { iosOf(is)->st |= 2; break; } b->rpos++; } return is; }
// --- file streams: ifstream has its ios at 256, ofstream at 248; the content lives in the harness's simulated files.
// Output is buffered: it reaches the file, as far as there is room, when the stream is flushed or closed.
struct SxFile { std::string name, data; uint64_t room; };
extern "C" SxFile* sx_file_lookup(const char* name, bool create) __attribute__((weak));
static void fopen_in(char* s, const char* n) { SxFile* f = sx_file_lookup(n, false); if (!f) { iosOf(s)->st |= 4; return; } Buf* b = bufOf(s); b->s = f->data; b->rpos = 0; b->file = f; }
static void fopen_out(char* s, const char* n, int mode) { SxFile* f = sx_file_lookup(n, true); if (!f) { iosOf(s)->st |= 4; return; } Buf* b = bufOf(s); if (!(mode & 1)) f->data.clear(); b->s.clear(); b->file = f; b->base = f->data.size(); }
static void fflush_out(void* s) { Buf* b = bufOf(s); if (!b || !b->file) return; SxFile* f = b->file; size_t n = b->s.size(), k = f->data.size() >= f->room ? 0 : f->room - f->data.size(); if (k < n) iosOf(s)->st |= 1; f->data.append(b->s.data(), k < n ? k : n); b->s.clear(); }
static void fclose_out(void* s) { Buf* b = bufOf(s); if (!b || !b->file) { iosOf(s)->st |= 4; return; } int st = iosOf(s)->st; fflush_out(s); if ((iosOf(s)->st & 1) && !(st & 1)) iosOf(s)->st = st | 4; b->file = nullptr; }
#define IFS_SETUP(s) do { setVT(s, vtS256); initIos((char*)s + 256); iosBuf((char*)s + 256) = bufOf(s) = newBuf(); } while (0)
#define OFS_SETUP(s) do { setVT(s, vtS248); initIos((char*)s + 248); iosBuf((char*)s + 248) = bufOf(s) = newBuf(); } while (0)
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1Ev, char* s) { IFS_SETUP(s); }
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode, char* s, const char* n, int) { IFS_SETUP(s); fopen_in(s, n); }
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode, char* s, const std::string& n, int) { IFS_SETUP(s); fopen_in(s, n.c_str()); }
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode, char* s, const char* n, int) { fopen_in(s, n); }
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv, char* s) { if (!bufOf(s)->file) iosOf(s)->st |= 4; bufOf(s)->file = nullptr; }
MODEL(bool, _ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv, char* s) { return bufOf(s)->file != nullptr; }
MODEL(bool, _ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv, char* s) { return bufOf(s)->file != nullptr; }
MODEL(void, _ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev, char*) {}
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1Ev, char* s) { OFS_SETUP(s); }
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode, char* s, const char* n, int m) { OFS_SETUP(s); fopen_out(s, n, m); }
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode, char* s, const std::string& n, int m) { OFS_SETUP(s); fopen_out(s, n.c_str(), m); }
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode, char* s, const char* n, int m) { fopen_out(s, n, m); }
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv, char* s) { fclose_out(s); }
MODEL(bool, _ZNSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv, char* s) { return bufOf(s)->file != nullptr; }
MODEL(bool, _ZNKSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv, char* s) { return bufOf(s)->file != nullptr; }
MODEL(void, _ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev, char* s) { if (bufOf(s)->file) fclose_out(s); }
// ------------------------------------------------------------------ character classes (C locale), numbers in text
static inline int in(int c, int lo, int hi) { return (unsigned)(c - lo) <= (unsigned)(hi - lo); }
#define CT(N, X) MODEL(int, N, int c) { return (X); }
CT(isdigit, in(c, '0', '9')) CT(isupper, in(c, 'A', 'Z')) CT(islower, in(c, 'a', 'z')) CT(isalpha, in(c | 32, 'a', 'z')) CT(isalnum, in(c, '0', '9') | in(c | 32, 'a', 'z')) CT(isxdigit, in(c, '0', '9') | in(c | 32, 'a', 'f'))
CT(isspace, (c == ' ') | in(c, 9, 13)) CT(isblank, (c == ' ') | (c == 9)) CT(isprint, in(c, 32, 126)) CT(isgraph, in(c, 33, 126)) CT(iscntrl, in(c, 0, 31) | (c == 127)) CT(ispunct, in(c, 33, 126) & !(in(c, '0', '9') | in(c | 32, 'a', 'z')))
CT(tolower, c + (in(c, 'A', 'Z') << 5)) CT(toupper, c - (in(c, 'a', 'z') << 5))
static inline unsigned digb(int c) { unsigned d = 99; unsigned n = c - '0', l = (c | 32) - 'a'; d = n < 10 ? n : d; d = l < 26 ? l + 10 : d; return d; } // selects, no branches
static uint64_t strtoX(const char* s, char** end, int base, bool& neg, bool& ovf) {
  const char* p = s; neg = ovf = false; while ((*p == ' ') | in(*p, 9, 13)) p++; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 16 || base == 0) && p[0] && ((p[0] == '0') & ((p[1] | 32) == 'x')) && digb((byte)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t v = 0; bool any = false; while (true) { unsigned d = digb((byte)*p); if (d >= (unsigned)base) break; any = true; if (v >> 58) { if (v > (~0ull - d) / base) ovf = true; } v = v * base + d; p++; }
  if (end) *end = (char*)(any ? p : s); return any ? v : 0; }
MODEL(unsigned long, strtoul, const char* s, char** e, int b) { bool n, o; uint64_t v = strtoX(s, e, b, n, o); if (o) { sx_errno_storage_var = 34; return ~0ull; } return n ? -v : v; }
MODEL(unsigned long long, strtoull, const char* s, char** e, int b) { bool n, o; uint64_t v = strtoX(s, e, b, n, o); if (o) { sx_errno_storage_var = 34; return ~0ull; } return n ? -v : v; }
MODEL(long, strtol, const char* s, char** e, int b) { bool n, o; uint64_t v = strtoX(s, e, b, n, o); if (o || (!n && v > (uint64_t)INT64_MAX) || (n && v > (uint64_t)INT64_MAX + 1)) { sx_errno_storage_var = 34; return n ? INT64_MIN : INT64_MAX; } return n ? -v : v; }
MODEL(long long, strtoll, const char* s, char** e, int b) { bool n, o; uint64_t v = strtoX(s, e, b, n, o); if (o || (!n && v > (uint64_t)INT64_MAX) || (n && v > (uint64_t)INT64_MAX + 1)) { sx_errno_storage_var = 34; return n ? INT64_MIN : INT64_MAX; } return n ? -v : v; }
// ------------------------------------------------------------------ printf family (into a buffer)
struct PBuf { char* p; size_t cap, n; void put(char c) { if (n + 1 < cap) p[n] = c; n++; } };
static void pfield(PBuf& b, const char* t, size_t n, long width, bool left, char fill) { size_t pad = width > 0 && (size_t)width > n ? (size_t)width - n : 0; size_t i = 0; if (!left && fill == '0' && n && t[0] == '-') { b.put('-'); i = 1; } if (!left) while (pad) { b.put(fill); pad--; } for (; i < n; i++) b.put(t[i]); while (pad) { b.put(' '); pad--; } }
static int pformat(char* buf, size_t cap, const char* f, va_list ap) {
  PBuf b = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { b.put(*f); continue; }
    f++; bool left = false, zero = false, plus = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ' || *f == '#') {} else break; }
    long width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h' || *f == 'L') { if (*f != 'h' && *f != 'L') l++; f++; }
    char t[72]; int q = 72;
    switch (*f) {
      case '%': b.put('%'); break;
      case 'c': t[0] = (char)va_arg(ap, int); pfield(b, t, 1, width, left, ' '); break;
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; size_t n = 0; while ((prec < 0 || n < (size_t)prec) && s[n]) n++; pfield(b, s, n, width, left, ' '); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': { bool sg = *f == 'd' || *f == 'i'; uint64_t v; if (l) v = va_arg(ap, uint64_t); else if (sg) v = (uint64_t)(int64_t)va_arg(ap, int); else v = va_arg(ap, unsigned);
        if (sx_number_tokens && !sx_known(v)) { Token k = {true, sg, v, 0, 0, 0}; t[0] = 2; t[1] = (char)(' ' + newToken(k)); pfield(b, t, 2, width, left, ' '); break; }
        if (sx_opaque_numbers && !sx_known(v)) { pfield(b, "<n>", 3, width, left, ' '); break; }
        v = sx_concrete(v); bool neg = sg && (int64_t)v < 0; if (neg) v = -v; unsigned base = *f == 'x' || *f == 'X' ? 16 : 10; do { unsigned d = v % base; t[--q] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v); while (prec > 72 - q && q > 2) t[--q] = '0'; if (neg) t[--q] = '-'; else if (plus && sg) t[--q] = '+'; pfield(b, t + q, 72 - q, width, left, zero && prec < 0 ? '0' : ' '); break; }
      case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { double d = va_arg(ap, double); if (sx_number_tokens) { Token k = {false, false, 0, d, prec < 0 ? 6 : prec, *f | 32}; t[0] = 2; t[1] = (char)(' ' + newToken(k)); pfield(b, t, 2, width, left, ' '); } else pfield(b, "<f>", 3, width, left, ' '); break; }
      case 'p': (void)va_arg(ap, void*); pfield(b, "0x1", 3, width, left, ' '); break;
      default: return -1;
    }
  }
  if (cap) buf[b.n < cap ? b.n : cap - 1] = 0;
  return (int)b.n;
}
MODEL(int, vsnprintf, char* p, size_t n, const char* f, va_list ap) { return pformat(p, n, f, ap); }
MODEL(int, snprintf, char* p, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = pformat(p, n, f, ap); va_end(ap); return r; }
MODEL(int, sprintf, char* p, const char* f, ...) { va_list ap; va_start(ap, f); int r = pformat(p, ~(size_t)0 >> 1, f, ap); va_end(ap); return r; }
MODEL(double, nextafter, double x, double y) { if (x != x || y != y) return x + y; if (x == y) return y; uint64_t b; __builtin_memcpy(&b, &x, 8); if (x == 0) { b = 1 | (y < 0 ? 1ull << 63 : 0); } else if ((x < y) == (x > 0)) b++; else b--; __builtin_memcpy(&x, &b, 8); return x; }
// the type registry of Boost.Serialization: bookkeeping only
#define NOP(name) MODEL(void, name) {}
NOP(_ZN5boost13serialization13typeid_system27extended_type_info_typeid_013type_registerERKSt9type_info) NOP(_ZN5boost13serialization13typeid_system27extended_type_info_typeid_015type_unregisterEv)
NOP(_ZN5boost13serialization13typeid_system27extended_type_info_typeid_0C2EPKc) NOP(_ZN5boost13serialization13typeid_system27extended_type_info_typeid_0D2Ev)
NOP(_ZNK5boost13serialization16void_cast_detail11void_caster18recursive_registerEb) NOP(_ZNK5boost13serialization16void_cast_detail11void_caster20recursive_unregisterEv)
NOP(_ZNK5boost13serialization18extended_type_info12key_registerEv) NOP(_ZNK5boost13serialization18extended_type_info14key_unregisterEv)
