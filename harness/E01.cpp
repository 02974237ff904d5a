#include "sx.h"
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/eigen/serialization.hpp>
#include "memarchive.h"
namespace {
using Eigen::Dynamic; typedef sm::eigen::SerializationException EX;
template <class S> S val(); template <> double val<double>() { uint64_t u = sx_u64("d"); double d; memcpy(&d, &u, 8); return d; } template <> float val<float>() { uint32_t u = sx_u32("f"); float f; memcpy(&f, &u, 4); return f; } template <> int val<int>() { return (int)sx_u32("i"); } template <> unsigned char val<unsigned char>() { return sx_u8("c"); } template <> long val<long>() { return (long)sx_u64("l"); }
template <class S> bool bitEq(const S& a, const S& b) { if (sizeof(S) == 8) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; } if (sizeof(S) == 4) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; } unsigned char x, y; memcpy(&x, &a, 1); memcpy(&y, &b, 1); return x == y; }
template <class M> void fillM(M& m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = val<typename M::Scalar>(); }
template <class A, class B> bool same(const A& a, const B& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; bool ok = true; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) ok = ok & bitEq(a(i, j), b(i, j)); return ok; }
// load into a matrix that lies between guards; fits: whether the static size admits the stored one
template <class M> void into(MemStore s, const Eigen::Matrix<typename M::Scalar, Dynamic, Dynamic>& want, int r0, int c0) {
  struct { unsigned char before[16]; M m; unsigned char after[16]; } g; memset(g.before, 0x5a, 16); memset(g.after, 0xa5, 16); if (M::SizeAtCompileTime == Dynamic) g.m.resize(M::RowsAtCompileTime == Dynamic ? r0 : (int)M::RowsAtCompileTime, M::ColsAtCompileTime == Dynamic ? c0 : (int)M::ColsAtCompileTime); fillM(g.m);
  Eigen::Matrix<typename M::Scalar, Dynamic, Dynamic> old = g.m; bool fits = ((int)M::RowsAtCompileTime == Dynamic || M::RowsAtCompileTime == want.rows()) && ((int)M::ColsAtCompileTime == Dynamic || M::ColsAtCompileTime == want.cols()); bool th = false; s.r = 0; MemIn in(s); size_t end = 0; try { in >> g.m; int mark = 0; in >> mark; sx_assert(mark == 12345, "exactly the stored bytes are consumed"); } catch (const EX&) { th = true; } (void)end;
  sx_assert(th == !fits, "refused exactly when the size does not fit"); if (fits) sx_assert(same(g.m, want), "every coefficient restored"); else sx_assert(same(g.m, old), "a refused load leaves the matrix as it was"); bool ok = true; for (int i = 0; i < 16; i++) ok = ok & (g.before[i] == 0x5a) & (g.after[i] == 0xa5); sx_assert(ok, "nothing written outside the matrix");
}
template <class M> void from(int r, int c, int t) { // save one kind, load into every kind
  typedef typename M::Scalar S; M m; m.resize(r, c); fillM(m); M keep = m; MemStore s; MemOut o(s); const M& cm = m; o << cm; o << 12345; sx_assert(same(m, keep), "saving changes nothing"); Eigen::Matrix<S, Dynamic, Dynamic> w = m; const int O = M::Options & Eigen::RowMajor;
  switch (t) {
    case 0: into<Eigen::Matrix<S, Dynamic, Dynamic, O>>(s, w, 0, 0); into<Eigen::Matrix<S, Dynamic, Dynamic, O>>(s, w, 3, 2); return;
    case 1: if (O) return; into<Eigen::Matrix<S, Dynamic, 1>>(s, w, 2, 0); into<Eigen::Matrix<S, Dynamic, 2>>(s, w, 2, 2); into<Eigen::Matrix<S, Dynamic, 3>>(s, w, 0, 3); return;
    case 2: into<Eigen::Matrix<S, 2, Dynamic, O>>(s, w, 2, 3); into<Eigen::Matrix<S, 3, Dynamic, O>>(s, w, 3, 0); if (O || r != 1) into<Eigen::Matrix<S, 1, Dynamic, Eigen::RowMajor>>(s, w, 1, 2); return;
    case 3: into<Eigen::Matrix<S, 2, 2, O>>(s, w, 2, 2); into<Eigen::Matrix<S, 3, 2, O>>(s, w, 3, 2); into<Eigen::Matrix<S, 2, 3, O>>(s, w, 2, 3); into<Eigen::Matrix<S, 3, 3, O>>(s, w, 3, 3); if (!O) into<Eigen::Matrix<S, 3, 1>>(s, w, 3, 1); return;
    default: into<Eigen::Matrix<S, Dynamic, Dynamic, O, 3, 3>>(s, w, 1, 1); if (!O) into<Eigen::Matrix<S, Dynamic, 1, 0, 3, 1>>(s, w, 1, 1); return;
  }
}
template <class S, int O> void dyn(int r, int c, int t) { from<Eigen::Matrix<S, Dynamic, Dynamic, O>>(r, c, t); }
}
SX_ENTRY h_dyn() { int r = sx_param(1), c = sx_param(2), t = sx_param(3); switch (sx_param(0)) { case 0: dyn<double, 0>(r, c, t); break; case 1: dyn<double, Eigen::RowMajor>(r, c, t); break; case 2: dyn<float, 0>(r, c, t); break; case 3: dyn<int, Eigen::RowMajor>(r, c, t); break; case 4: dyn<unsigned char, 0>(r, c, t); break; default: dyn<long, 0>(r, c, t); } sx_reach("end"); }
SX_ENTRY h_fixed() { // saved from static sizes
  int t = sx_param(1); switch (sx_param(0)) { case 0: from<Eigen::Matrix<double, 2, 2>>(2, 2, t); break; case 1: from<Eigen::Matrix<double, 2, 3>>(2, 3, t); break; case 2: from<Eigen::Matrix<double, 3, 2, Eigen::RowMajor>>(3, 2, t); break; case 3: from<Eigen::Matrix<double, 3, 1>>(3, 1, t); break; case 4: from<Eigen::Matrix<double, 1, 3, Eigen::RowMajor>>(1, 3, t); break; case 5: from<Eigen::Matrix<double, Dynamic, 2>>(3, 2, t); break; case 6: from<Eigen::Matrix<double, 2, Dynamic>>(2, 3, t); break; case 7: from<Eigen::Matrix<double, 2, Dynamic>>(2, 0, t); break; case 8: from<Eigen::Matrix<double, Dynamic, 2>>(0, 2, t); break; case 9: from<Eigen::Matrix<double, Dynamic, 1>>(2, 1, t); break; case 10: from<Eigen::Matrix<double, 1, Dynamic, Eigen::RowMajor>>(1, 0, t); break; case 11: from<Eigen::Matrix<double, Dynamic, 1>>(0, 1, t); break; default: from<Eigen::Matrix<double, 1, Dynamic, Eigen::RowMajor>>(1, 2, t); } sx_reach("end");
}
template <class T> void transform() { T a, b; fillM(a.matrix()); b.matrix().setZero(); MemStore s; MemOut o(s); const T& ca = a; o << ca; MemIn in(s); in >> b; sx_assert(same(a.matrix(), b.matrix()), "restored"); sx_assert(s.r == s.n, "everything consumed"); }
SX_ENTRY h_transform() { switch (sx_param(0)) { case 0: transform<Eigen::Transform<double, 3, Eigen::Isometry>>(); break; case 1: transform<Eigen::Transform<double, 3, Eigen::Affine>>(); break; case 2: transform<Eigen::Transform<double, 2, Eigen::AffineCompact>>(); break; default: transform<Eigen::Transform<double, 3, Eigen::Projective>>(); } sx_reach("end"); }
SX_ENTRY h_many() { // several matrices after each other
  Eigen::MatrixXd a(2, 1); fillM(a); Eigen::Matrix2d b; fillM(b); Eigen::VectorXi c(3); fillM(c); MemStore s; MemOut o(s); o << (const Eigen::MatrixXd&)a << (const Eigen::Matrix2d&)b << (const Eigen::VectorXi&)c; Eigen::MatrixXd x; Eigen::Matrix2d y; Eigen::VectorXi z; MemIn in(s); in >> x >> y >> z; sx_assert(same(a, x) && same(b, y) && same(c, z) && s.r == s.n, "each its own"); sx_reach("end");
}
SX_ENTRY h_short() { // an archive that ends early: reported, nothing written outside
  Eigen::Matrix2d a; fillM(a); MemStore s; MemOut o(s); o << (const Eigen::Matrix2d&)a; s.n = sx_param(0); bool th = false; Eigen::MatrixXd x(1, 1); MemIn in(s); try { in >> x; } catch (const MemEnd&) { th = true; } sx_assert(th, "the archive's exception passes through"); sx_reach("end");
}
