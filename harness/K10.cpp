#include "kin.h"
static UncertainTransformation mk(const TS& s, const M6& U) { return UncertainTransformation(s.q, s.t, U); }
SX_ENTRY h_access() {
  TS s = sym("q", "t"); M6 U = cov<6>("u"); double vt = sx_double("vt"), vr = sx_double("vr"); M6 Dg = M6::Zero(), Z = M6::Zero(); for (int i = 0; i < 6; i++) Dg(i, i) = i < 3 ? vt : vr; Transformation T(s.q, s.t);
  auto chk = [&](const UncertainTransformation& A, const M6& E, const char* m) { eq(A.T(), s.T, m); eq(A.U(), E, m); eq(A.toTransformation().T(), s.T, m); };
  int m = sx_param(0);
  if (m == 0) { chk(mk(s, U), U, "quaternion, translation, covariance"); chk(UncertainTransformation(s.q, s.t, vt, vr), Dg, "quaternion, translation, variances"); chk(UncertainTransformation(s.q, s.t), Z, "quaternion, translation"); }
  if (m == 1) { chk(UncertainTransformation(T, U), U, "transformation, covariance"); chk(UncertainTransformation(T, vt, vr), Dg, "transformation, variances"); chk(UncertainTransformation(T), Z, "transformation"); }
  if (m == 2) chk(UncertainTransformation(s.T, U), U, "matrix, covariance");
  if (m == 3) chk(UncertainTransformation(s.T, vt, vr), Dg, "matrix, variances");
  if (m == 4) chk(UncertainTransformation(s.T), Z, "matrix");
  if (m == 5) { UncertainTransformation A(T), B; A.setU(U); chk(A, U, "setU"); UncertainTransformation C(A); chk(C, U, "copy"); B = A; chk(B, U, "assignment"); UncertainTransformation E; eq(E.T(), M4(M4::Identity()), "default"); eq(E.U(), Z, "default covariance"); }
  sx_reach("end");
}
SX_ENTRY h_compose() { // column c of the covariance
  TS a = sym("q", "t"), b = sym("r", "s"); M6 U = cov<6>("u"), W = cov<6>("w"), Z = M6::Zero(); int m = sx_param(0); if (m == 1) U = Z; if (m == 2) W = Z;
  M6 A = refAd(a.R, a.t); M6 E = U + A * W * A.transpose(); UncertainTransformation P;
  if (m == 0) P = mk(a, U) * mk(b, W);
  if (m == 1) { const Transformation T(a.q, a.t); P = T * mk(b, W); }
  if (m == 2) { const Transformation T(b.q, b.t); P = mk(a, U) * T; }
  if (m == 3) { UncertainTransformation X = mk(a, U); const Transformation& Xb = X; P = Xb * mk(b, W); } // through the base class
  eq(P.T(), M4(a.T * b.T), "mean of the composition"); eq(P.U(), E, "covariance of the composition"); sx_reach("end");
}
SX_ENTRY h_inverse() {
  TS a = sym("q", "t"); M6 U = cov<6>("u"); UncertainTransformation I = mk(a, U).inverse(); M3 Rt = a.R.transpose(); V3d it = -(Rt * a.t); M6 A = refAd(Rt, it);
  eq(M4(I.T() * a.T), M4(M4::Identity()), "mean of the inverse"); eq(I.U(), M6(A * U * A.transpose()), "covariance of the inverse"); sx_reach("end");
}
SX_ENTRY h_inverse2() { TS a = sym("q", "t"); M6 U = cov<6>("u"); UncertainTransformation I = mk(a, U).inverse().inverse(); eq(I.T(), a.T, "inverse of the inverse"); eq(I.U(), U, "covariance of the inverse of the inverse"); sx_reach("end"); }
SX_ENTRY h_point() {
  TS a = sym("q", "t"); M6 U = cov<6>("u"); V4d p = V4("p"); M4 P = cov<4>("p4"); sx_assume(p[3] >= 0.01); int m = sx_param(0); if (m == 1) P = M4::Zero(); if (m == 2) U = M6::Zero();
  UncertainHomogeneousPoint r; V4d y = a.T * p; auto B = refB(y);
  if (m == 0) r = mk(a, U) * UncertainHomogeneousPoint(p, P);
  if (m == 1) r = mk(a, U) * HomogeneousPoint(p);
  if (m == 2) { const Transformation T(a.q, a.t); r = T * UncertainHomogeneousPoint(p, P); }
  if (m == 3) { UncertainTransformation X = mk(a, U); const Transformation& Xb = X; r = Xb * UncertainHomogeneousPoint(p, P); }
  eq(r.toHomogeneous(), y, "mean of the transformed point"); eq(r.U4(), M4(B * U * B.transpose() + a.T * P * a.T.transpose()), "covariance of the transformed point"); sx_reach("end");
}
SX_ENTRY h_vectors() { TS a = sym("q", "t"); UncertainTransformation A = mk(a, cov<6>("u")); V3d p = V3("p"); V4d h = V4("h"); eq(V3d(A * p), V3d(a.R * p + a.t), "plain Euclidean point"); eq(V4d(A * h), V4d(a.T * h), "plain homogeneous point"); sx_reach("end"); }
SX_ENTRY h_oplus() { // both representations, related by the sensitivity matrix
  TS a = sym("q", "t"); M6 U = cov<6>("u"), S = M6::Identity(), Si = M6::Identity(); S.topRightCorner<3,3>() = -sk(a.t); Si.topRightCorner<3,3>() = sk(a.t); int m = sx_param(0);
  int c = sx_param(1); for (int i = 0; i < 3; i++) if (i + 1 == c) sx_assume(a.t[i] >= 2 || a.t[i] <= -2); else if (c < 4) sx_assume(a.t[i] <= 0.5 && a.t[i] >= -0.5);
  UncertainTransformation A(a.q, a.t);
  if (m == 0) { A.setUOplus(U); eq(A.U(), M6(S * U * S.transpose()), "setUOplus"); }
  if (m == 1) { A.setU(U); eq(A.UOplus(), M6(Si * U * Si.transpose()), "UOplus"); }
  if (m == 2) { A.setUOplus(U); eq(A.UOplus(), U, "UOplus returns what setUOplus stored"); }
  eq(A.T(), a.T, "the mean is not changed"); sx_reach("end");
}
SX_ENTRY h_equal() {
  TS a; a.q = UQ("q"); a.t = V3("t"); M6 U = cov<6>("u"); UncertainTransformation A(a.q, a.t, U), B(A); sx_assert(A.isBinaryEqual(B), "copies are equal"); int i = sx_choose(43, "i");
  if (i < 4) B.qptr()[i] += 0.25; else if (i < 7) B.tptr()[i - 4] += 0.25; else { M6 W = U; W((i - 7) / 6, (i - 7) % 6) += 0.25; B.setU(W); }
  sx_assert(!A.isBinaryEqual(B), "a differing coefficient makes them unequal"); sx_reach("end");
}
