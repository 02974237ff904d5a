// Geometry read from property trees.
#include "kin.h"
#include <map>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/PropertyTreeImplementation.hpp>
#include <boost/make_shared.hpp>
namespace {
struct Gone {};
struct Imp : sm::PropertyTreeImplementation { // a tree of numbers
  std::vector<std::pair<std::string, double>> v; mutable int reads = 0;
  int at(const std::string& k) const { std::string c = !k.empty() && k[0] == '/' ? k.substr(1) : k; for (size_t i = 0; i < v.size(); i++) if (v[i].first == c) return (int)i; return -1; }
  double getDouble(const std::string& k) const override { reads++; int i = at(k); if (i < 0) throw Gone(); return v[i].second; }
  double getDouble(const std::string& k, double d) const override { int i = at(k); return i < 0 ? d : v[i].second; }
  double getDouble(const std::string& k, double d) override { int i = at(k); return i < 0 ? d : v[i].second; }
  int getInt(const std::string&) const override { throw Gone(); } int getInt(const std::string&, int d) const override { return d; } int getInt(const std::string&, int d) override { return d; }
  bool getBool(const std::string&) const override { throw Gone(); } bool getBool(const std::string&, bool d) const override { return d; } bool getBool(const std::string&, bool d) override { return d; }
  std::string getString(const std::string&) const override { throw Gone(); } std::string getString(const std::string&, const std::string& d) const override { return d; } std::string getString(const std::string&, const std::string& d) override { return d; }
  void setDouble(const std::string&, double) override {} void setInt(const std::string&, int) override {} void setBool(const std::string&, bool) override {} void setString(const std::string&, const std::string&) override {}
  bool doesKeyExist(const std::string& k) const override { return at(k) >= 0; }
  std::vector<sm::KeyPropertyTreePair> getChildren(const std::string&) const override { return {}; }
};
const char* NS[] = {"", "cam", "/rig/cam0"};
boost::shared_ptr<Imp> fill(const std::string& ns, V4d& q, V3d& t, int omit = -1) { auto p = boost::make_shared<Imp>(); std::string b = ns.empty() ? "" : (ns[0] == '/' ? ns.substr(1) : ns) + "/"; q = V4("q"); t = V3("t"); const char* N[] = {"x", "y", "z", "w"}; for (int i = 0; i < 4; i++) if (i != omit) p->v.push_back({b + "q_a_b/" + N[i], q[i]}); for (int i = 0; i < 3; i++) if (4 + i != omit) p->v.push_back({b + "t_a_b_a/" + N[i], t[i]});
  p->v.push_back({"x", sx_double("o")}); p->v.push_back({"w", sx_double("o")}); return p; } // others that must not be taken
}
SX_ENTRY h_vector() { V4d q; V3d t; std::string ns = NS[sx_param(0)]; auto p = fill(ns, q, t); sm::ConstPropertyTree r(p, ns); eq(sm::eigen::vector3FromPropertyTree(sm::ConstPropertyTree(r, "t_a_b_a")), t, "components x, y, z"); eq(sm::eigen::quaternionFromPropertyTree(sm::ConstPropertyTree(r, "q_a_b")), q, "components x, y, z, w as they are"); sx_reach("end"); }
SX_ENTRY h_transformation() { V4d q; V3d t; std::string ns = NS[sx_param(0)]; auto p = fill(ns, q, t); double n = std::sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]); sx_assume(n >= 1e-3 && n <= 1e3); Transformation T = transformationFromPropertyTree(sm::ConstPropertyTree(p, ns)); V4d u = q / n; eq(T.q(), u, "the normalised quaternion"); eq(T.t(), t, "the translation"); eq(T.C(), refR(u), "the rotation matrix of it"); sx_reach("end"); }
SX_ENTRY h_missing() { V4d q; V3d t; auto p = fill("cam", q, t, sx_param(0)); sx_assume(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3] >= 1e-6); bool th = false; try { transformationFromPropertyTree(sm::ConstPropertyTree(p, "cam")); } catch (const Gone&) { th = true; } sx_assert(th, "a missing component is reported"); sx_reach("end"); }
