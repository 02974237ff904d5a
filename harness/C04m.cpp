// Matrix finiteness assertions.
#include "sx.h"
#include <string>
#include <Eigen/Core>
#include <sm/eigen/assert_macros.hpp>
#ifdef SX_SYMBOLIC
extern "C" int sx_opaque_numbers;
#define SX_OPAQUE sx_opaque_numbers = 1
#else
#define SX_OPAQUE (void)0
#endif
namespace { SM_DEFINE_EXCEPTION(MatBoom, std::runtime_error);
template <class M> void check(M A) {
  bool fin = true; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) { double v = sx_double("a"); A(i, j) = (typename M::Scalar)v; fin = fin & (std::fabs((double)A(i, j)) <= 1.7976931348623157e308); }
  bool t = false, other = false; std::string w; try { SM_ASSERT_MAT_IS_FINITE(MatBoom, A, "note"); } catch (const MatBoom& e) { t = true; w = e.what(); } catch (...) { other = true; } sx_assert(!other && t == !fin, "throws exactly when a coefficient is not finite"); if (t) sx_assert(w.find("C04m.cpp") != std::string::npos && w.find("note") != std::string::npos, "the message names the place and the user's text");
  t = false; try { SM_ASSERT_MAT_IS_FINITE_DBG(MatBoom, A, "note"); } catch (const MatBoom& e) { t = true; } sx_assert(t == !fin, "the debug form too");
} }
SX_ENTRY h_matrix() { SX_OPAQUE; int r = sx_param(1), c = sx_param(2); switch (sx_param(0)) { case 0: check(Eigen::MatrixXd(r, c)); break; case 1: check(Eigen::Matrix3d()); break; case 2: check(Eigen::Vector4d()); break; case 3: check(Eigen::Matrix<double, 2, 3, Eigen::RowMajor>()); break; default: check(Eigen::Matrix2f()); break; } sx_reach("end"); }
