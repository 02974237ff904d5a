#include "sx.h"
#include <cstring>
#include <string>
#include <sm/MatrixArchive.hpp>
namespace {
typedef sm::MatrixArchive MA; typedef sm::MatrixArchiveException EX;
uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
double num(const char* n) { uint64_t u = sx_u64(n); double d; memcpy(&d, &u, 8); return d; }
bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; if (a.size() == 0) return true; bool ok = true; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) ok = ok & (bits(a(i, j)) == bits(b(i, j))); return ok; }
Eigen::MatrixXd mat(int r, int c) { Eigen::MatrixXd m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = num("m"); return m; }
std::string text(int n) { std::string s; for (int i = 0; i < n; i++) s.push_back((char)sx_u8("t")); return s; }
#define REFUSED(x) [&]() { try { x; } catch (const EX&) { return true; } catch (...) { return false; } return false; }()
struct Slot { std::string name; int kind = 0; Eigen::MatrixXd m; std::string s; }; // kind: 0 absent, 1 matrix, 2 string
void agree(MA& a, Slot* t, int n) { // the archive against the table
  const MA& c = a; size_t nm = 0, ns = 0;
  for (int i = 0; i < n; i++) { Slot& k = t[i]; nm += k.kind == 1; ns += k.kind == 2;
    if (k.kind == 1) { sx_assert(same(c.getMatrix(k.name), k.m) && same(a.getMatrix(k.name), k.m), "the last matrix stored"); Eigen::MatrixXd o; c.getMatrix(k.name, o); sx_assert(same(o, k.m), "the last matrix stored"); sx_assert(c.find(k.name) != c.end() && c.find(k.name)->first == k.name && same(c.find(k.name)->second, k.m), "found");
      Eigen::VectorXd v; bool th = REFUSED(c.getVector(k.name, v)); sx_assert(th == (k.m.cols() != 1), "a vector exactly when it has one column"); if (!th) sx_assert(same(v, k.m), "as a vector");
      double d = 0, e = 0; th = REFUSED(d = c.getScalar(k.name)); sx_assert(th == (k.m.size() != 1 || k.m.cols() != 1), "a scalar exactly when it is one number"); sx_assert(REFUSED(c.getScalar(k.name, e)) == th, "both forms"); if (!th) sx_assert(bits(d) == bits(k.m(0, 0)) && bits(e) == bits(d), "as a scalar"); }
    else { Eigen::MatrixXd o; Eigen::VectorXd v; double d; sx_assert(REFUSED(c.getMatrix(k.name)) && REFUSED(a.getMatrix(k.name)) && REFUSED(c.getMatrix(k.name, o)) && REFUSED(c.getVector(k.name, v)) && REFUSED(c.getScalar(k.name)) && REFUSED(c.getScalar(k.name, d)), "no matrix of that name"); sx_assert(c.find(k.name) == c.end(), "not found"); }
    if (k.kind == 2) { std::string o; c.getString(k.name, o); sx_assert(c.getString(k.name) == k.s && a.getString(k.name) == k.s && o == k.s, "the last string stored"); sx_assert(c.getStrings().count(k.name) == 1, "listed"); }
    else { std::string o("keep"); sx_assert(REFUSED(c.getString(k.name)) && REFUSED(a.getString(k.name)) && REFUSED(c.getString(k.name, o)) && o == "keep", "no string of that name"); sx_assert(c.getStrings().count(k.name) == 0, "not listed"); } }
  sx_assert(c.sizeMatrices() == nm && c.sizeStrings() == ns && c.size() == nm + ns && c.getStrings().size() == ns, "sizes"); size_t q = 0; for (auto it = c.begin(); it != c.end(); ++it) q++; sx_assert(q == nm, "iteration");
}
const int NOPS = 9;
void act(MA& a, Slot* t, int n, int op, int i) { Slot& k = t[i];
  switch (op) {
    case 0: { Eigen::MatrixXd m = mat(2, 2); a.setMatrix(k.name, m); k.kind = 1; k.m = m; return; }
    case 1: { Eigen::Vector2d v(num("v"), num("v")); a.setVector(k.name, v); k.kind = 1; k.m = v; return; }
    case 2: { double d = num("d"); a.setScalar(k.name, d); k.kind = 1; k.m = Eigen::MatrixXd(1, 1); k.m(0, 0) = d; return; }
    case 3: { std::string s = text(2); a.setString(k.name, s); k.kind = 2; k.s = s; return; }
    case 4: { Eigen::MatrixXd m = mat(1, 2); if (k.kind == 0) { a.createMatrix(k.name, 1, 2) = m; k.kind = 1; k.m = m; return; } bool th = REFUSED(a.createMatrix(k.name, 1, 2) = m); if (k.kind == 1) sx_assert(th, "an existing matrix is not overwritten unless asked for"); if (!th) { k.kind = 1; k.m = m; } return; }
    case 5: { Eigen::MatrixXd m = mat(3, 1); Eigen::MatrixXd& r = a.createMatrix(k.name, 3, 1, true); sx_assert(r.rows() == 3 && r.cols() == 1, "of the size asked for"); r = m; k.kind = 1; k.m = m; return; }
    case 6: a.clear(k.name); k.kind = 0; return;
    case 7: a.clear(); for (int j = 0; j < n; j++) t[j].kind = 0; return;
    case 8: { Eigen::MatrixXd m = mat(0, 2); a.setMatrixXd(k.name, m); k.kind = 1; k.m = m; return; }
    case 9: { Eigen::VectorXd v = mat(3, 1); a.setVectorXd(k.name, v); k.kind = 1; k.m = v; return; }
    case 10: { if (k.kind == 1) { Eigen::MatrixXd m = mat(1, 1); a.getMatrix(k.name) = m; k.m = m; } if (k.kind == 2) { std::string s = text(1); a.getString(k.name) = s; k.s = s; } return; } // through the reference
    default: { Eigen::MatrixXd big = mat(2, 3); a.setMatrix(k.name, big.block(0, 1, 2, 2).transpose()); k.kind = 1; k.m = big.block(0, 1, 2, 2).transpose(); return; } // an expression
  }
}
bool validRef(const std::string& s) { bool ok = s.size() >= 1 && s.size() <= 32; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; bool al = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')), dg = (c >= '0') & (c <= '9'); ok = ok & (al | ((i > 0) & (dg | (c == '_')))); } return ok; }
}
SX_ENTRY h_ops() { // a history of three operations over two names, against a table
  MA a; Slot t[2]; t[0].name = "first"; t[1].name = "first_2"; agree(a, t, 2); int n = sx_param(0); for (int i = 0; i < n; i++) { int op = (int)sx_param(1 + i); int w = i ? (int)sx_choose(2, "w") : 0; act(a, t, 2, op, w); agree(a, t, 2); } sx_reach("end");
}
SX_ENTRY h_hist() { // every operation at every step
  MA a; Slot t[2]; t[0].name = "n"; t[1].name = "m"; int n = sx_param(0); for (int i = 0; i < n; i++) act(a, t, 2, i ? (int)sx_choose(12, "op") : (int)sx_param(1), i ? (int)sx_choose(2, "w") : 0); agree(a, t, 2); sx_reach("end");
}
SX_ENTRY h_names() { // arbitrary names: accepted exactly when valid, and a refusal changes nothing
  MA a; Slot t[3]; t[0].name = "keep"; t[1].name = "also"; act(a, t, 2, 0, 0); act(a, t, 2, 3, 1); int n = sx_param(0), op = sx_param(1); std::string s; int pre = sx_param(2); for (int i = 0; i < pre; i++) s.push_back('a' + i % 26); for (int i = 0; i < n; i++) s.push_back((char)sx_u8("n")); 
  sx_assume(s != "keep" && s != "also"); bool ok = validRef(s); t[2].name = s; bool th = REFUSED(act(a, t, 3, op, 2)); sx_assert(th == !ok, "accepted exactly when the name is valid"); if (th) t[2].kind = 0; agree(a, t, 3); sx_reach(ok ? "valid" : "invalid"); sx_reach("end");
}
SX_ENTRY h_two() { // two arbitrary valid names: the same name is the same entry
  MA a; std::string x, y; for (int i = 0; i < sx_param(0); i++) x.push_back((char)sx_u8("x")); for (int i = 0; i < sx_param(1); i++) y.push_back((char)sx_u8("y")); sx_assume(validRef(x) && validRef(y)); Slot t[2]; t[0].name = x; t[1].name = y; act(a, t, 2, sx_param(2), 0); bool eq = x == y;
  if (eq) { act(a, t, 1, sx_param(3), 0); agree(a, t, 1); } else { act(a, t, 2, sx_param(3), 1); agree(a, t, 2); } sx_reach("end");
}
SX_ENTRY h_shape() { // vectors must have one column; conversions
  MA a; Eigen::MatrixXd m = mat(2, 2); sx_assert(REFUSED(a.setVector("v", m)) && a.size() == 0, "a matrix is not a vector"); Eigen::RowVector2d r(num("r"), num("r")); sx_assert(REFUSED(a.setVector("v", r)) && a.size() == 0, "a row is not a vector"); a.setScalar("s", 3); MA b(a); b.setScalar("s", 4); sx_assert(a.getScalar("s") == 3 && b.getScalar("s") == 4, "copies are independent"); a = b; sx_assert(a.getScalar("s") == 4, "assigned");
  sx_assert(a.maxNameSize() == 32, "longest name"); sx_assert(a.isSystemLittleEndian(), "byte order of this machine"); Eigen::Vector2d v(num("v"), num("v")); a.setVector("v", v); a.setMatrix("v", a.getMatrix("v") * 1.0); Eigen::VectorXd o(7); a.getVector("v", o); sx_assert(o.size() == 2, "resized"); sx_reach("end");
}
