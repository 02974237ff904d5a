"""Planted changes (see seedtool.py)."""
SEEDS = []
K = "sm_kinematics/src/"
KALL = [K + f for f in ("EulerAnglesYawPitchRoll.cpp", "EulerAnglesZXY.cpp", "EulerAnglesZYX.cpp", "EulerRodriguez.cpp", "HomogeneousPoint.cpp", "RotationVector.cpp", "RotationalKinematics.cpp", "Transformation.cpp", "UncertainHomogeneousPoint.cpp", "UncertainTransformation.cpp", "homogeneous_coordinates.cpp", "quaternion_algebra.cpp", "rotations.cpp", "transformations.cpp")] + ["sm_random/src/random.cpp"]
HEAD = '#include <cstdio>\n#include <cmath>\n#include <cstdlib>\n#include <string>\n#include <vector>\n#define CHECK(c) do { if (!(c)) { printf("FAIL %s\\n", #c); return 1; } } while (0)\n'
def seed(id, prop, edits, demo, needs, breaks, srcs=None, **kw): SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=HEAD + demo, needs=needs, breaks=breaks, srcs=KALL if srcs is None else srcs, **kw))
QH = '#include <sm/kinematics/quaternion_algebra.hpp>\n#include <sm/kinematics/rotations.hpp>\nusing namespace sm::kinematics;\n'

seed("s01-r2quat-halfturn-y", "K01", [(K + "quaternion_algebra.cpp", "for(unsigned i = 1; i < 4; i++) {", "for(unsigned i = 2; i < 4; i++) {")],
 QH + 'int main() { Eigen::Matrix3d R; R << -1,0,0, 0,1,0, 0,0,-1; Eigen::Vector4d q = r2quat(R); CHECK(std::fabs(std::fabs(q[1]) - 1) < 1e-9 && std::fabs(q[0]) < 1e-9); return 0; }\n',
 "a half turn exactly about the y axis", "the second candidate pivot is never considered, so extraction divides by zero when only it is non-zero")
seed("s02-log-jacobian-small", "K04", [(K + "quaternion_algebra.cpp", "a = 1.0 / 12 * (1 + 1.0 / 60 * phi * phi);", "a = 1.0 / 6 * (1 + 1.0 / 60 * phi * phi);")],
 QH + '''int main() { Eigen::Vector3d v(6e-5, -5e-5, 7e-5); Eigen::Matrix3d L = logDiffMat(v), X = crossMx(v); Eigen::Matrix3d d = L - Eigen::Matrix3d::Identity() - 0.5 * X; double e = (d - X * X / 12).cwiseAbs().maxCoeff(); printf("%g\\n", e); CHECK(e < 1e-12); return 0; }
''', "rotation angle below 1.2e-4", "series branch of the logarithm's Jacobian has the wrong second-order coefficient")
seed("s03-slerp-long-way", "K05", [(K + "quaternion_algebra.cpp", "return qplus(q0, qexp(t * qlog( qplus(quatInv(q0),-q1))));", "return qplus(q0, qexp(t * qlog( qplus(quatInv(-q0),-q1))));")],
 QH + '''int main() { Eigen::Vector4d a = axisAngle2quat(Eigen::Vector3d(0.1,0,0)), b = -axisAngle2quat(Eigen::Vector3d(0.5,0,0)); Eigen::Vector4d m = qslerp(a, b, 0.25), e = axisAngle2quat(Eigen::Vector3d(0.2,0,0)); CHECK(std::fabs(std::fabs(m.dot(e)) - 1) < 1e-9); return 0; }
''', "end points given by quaternions on opposite halves of the sphere", "interpolation takes the long way round")
seed("s04-interp-short-span", "K05", [(K + "Transformation.cpp", "double ds = std::max(1e-14, s1 - s0);", "double ds = std::max(1e-3, s1 - s0);")],
 '''#include <sm/kinematics/Transformation.hpp>
using namespace sm::kinematics;
int main() { Eigen::Vector4d q(0,0,0,1); Transformation A(q, Eigen::Vector3d(0,0,0)), B(q, Eigen::Vector3d(1,2,3)); Transformation M = interpolateTransformations(A, 5.0, B, 5.0 + 1e-4, 5.0 + 5e-5); CHECK((M.t() - Eigen::Vector3d(.5,1,1.5)).norm() < 1e-6); return 0; }
''', "interpolation over less than a millisecond", "the interpolation parameter is scaled wrongly for short spans")
seed("s05-inverse-rate-threshold", "K07", [(K + "RotationVector.cpp", "if(phi == 0)", "if(phi < 1e-3)")],
 '''#include <sm/kinematics/RotationVector.hpp>
using namespace sm::kinematics;
int main() { RotationVector r; Eigen::Vector3d p(3e-4, -2e-4, 5e-4); Eigen::Matrix3d P = r.parametersToSMatrix(p) * r.parametersToInverseSMatrix(p); double e = (P - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff(); printf("%g\\n", e); CHECK(e < 1e-7); return 0; }
''', "rotation vectors shorter than a milliradian", "the inverse rate matrix is the identity for small rotations, so it no longer inverts the rate matrix")
seed("s06-uncertain-constructor", "K10", [(K + "UncertainTransformation.cpp", """      : Transformation(T)
    {
      _U.setZero();
      _U(0,0) = diagonalTranslationVariance;
      _U(1,1) = diagonalTranslationVariance;
      _U(2,2) = diagonalTranslationVariance;
      _U(3,3) = diagonalRotationVariance;""", """      : Transformation(T)
    {
      _U.setZero();
      _U(0,0) = diagonalTranslationVariance;
      _U(1,1) = diagonalTranslationVariance;
      _U(2,2) = diagonalTranslationVariance;
      _U(3,3) = diagonalTranslationVariance;""")],
 '''#include <sm/kinematics/UncertainTransformation.hpp>
using namespace sm::kinematics;
int main() { Transformation T; UncertainTransformation U(T, 2.0, 3.0); CHECK(U.U()(2,2) == 2 && U.U()(3,3) == 3 && U.U()(5,5) == 3); return 0; }
''', "built from a transformation with different translation and rotation variances", "first rotation variance is the translation's")
seed("s07-assign-euclidean", "K11", [(K + "HomogeneousPoint.cpp", """      _ph.head<3>() = rhs;
      _ph[3] = 1.0;
      return *this;""", """      _ph.head<3>() = rhs;
      return *this;""")],
 '''#include <sm/kinematics/HomogeneousPoint.hpp>
using namespace sm::kinematics;
int main() { HomogeneousPoint p(Eigen::Vector4d(1,2,3,2)); p = Eigen::Vector3d(4,5,6); CHECK((p.toEuclidean() - Eigen::Vector3d(4,5,6)).norm() < 1e-12); return 0; }
''', "assigning a Euclidean point to a point whose weight is not one", "the old weight is kept")
seed("s08-fraction-as-float", "T01", [("sm_timing/src/NsecTimeUtilities.cpp", "  return boost::int64_t( time * 1e9 );", "  // keep the whole seconds exact\n  const boost::int64_t whole = boost::int64_t( time );\n  const float fraction = time - whole;\n  return whole * boost::int64_t(1000000000) + boost::int64_t( fraction * 1e9 );")],
 '''#include <sm/timing/NsecTimeUtilities.hpp>
using namespace sm::timing;
int main() { for (double t : {1.5, 5.123456789, 100.987654321, -3.3333333}) CHECK(std::fabs((double)secToNsec(t) - t * 1e9) <= 2); return 0; }
''', "a time whose fraction of a second is no short binary fraction, small enough for nanoseconds to be representable", "nanoseconds are rounded to single precision", srcs=["sm_timing/src/NsecTimeUtilities.cpp"])
seed("s09-hull-keeps-second", "T02", [("sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp", "while(_convexHull.size() >= 2u &&", "while(_convexHull.size() > 2u &&")],
 '''#include <sm/timing/TimestampCorrector.hpp>
using namespace sm::timing;
int main() { TimestampCorrector<double> c; double y[] = {0, 2, 4.5, 8, 3}; for (int i = 0; i < 5; i++) c.correctTimestamp(i, y[i]); for (int i = 0; i < 5; i++) CHECK(c.getLocalTime(i) <= y[i] + 1e-9); return 0; }
''', "the second sample is above the line from the first to a later one", "the second hull point is never removed", srcs=["sm_timing/src/NsecTimeUtilities.cpp"])
seed("s10-refused-start-moves-clock", "T03", [("sm_timing/src/Timer.cpp", """    SM_ASSERT_TRUE(TimerException,!m_timing,"The timer " + Timing::getTag(m_handle) + " is already running");
    m_timing = true;
#ifdef SM_USE_HIGH_PERF_TIMER
    QueryPerformanceCounter(&m_time);
#else
    m_time = boost::posix_time::microsec_clock::local_time();
#endif
""", """#ifdef SM_USE_HIGH_PERF_TIMER
    QueryPerformanceCounter(&m_time);
#else
    m_time = boost::posix_time::microsec_clock::local_time();
#endif
    SM_ASSERT_TRUE(TimerException,!m_timing,"The timer " + Timing::getTag(m_handle) + " is already running");
    m_timing = true;
""")],
 '''#include <sm/timing/Timer.hpp>
#include <unistd.h>
using namespace sm::timing;
int main() { { Timer t("x"); usleep(300000); try { t.start(); return 2; } catch (const TimerException&) {} t.stop(); } CHECK(Timing::getTotalSeconds("x") > 0.2); return 0; }
''', "start is called on a running timer (and refused), then the timer is stopped", "the refused start already moved the start time", srcs=["sm_timing/src/Timer.cpp"])
seed("s11-reset-other-tag", "T03", [("sm_timing/src/Timer.cpp", "    instance().m_timers[handle] = TimerMapValue();", "    instance().m_timers[handle].m_acc = TimerMapValue().m_acc;\n    if(instance().m_timers.size() > 1) instance().m_timers.back() = TimerMapValue();")],
 '''#include <sm/timing/Timer.hpp>
using namespace sm::timing;
int main() { { Timer a("a"); Timer b("b"); } Timing::reset("a"); CHECK(Timing::getNumSamples("a") == 0); CHECK(Timing::getNumSamples("b") == 1); return 0; }
''', "two tags and a reset of the first", "resetting one tag clears the statistics of the latest one too", srcs=["sm_timing/src/Timer.cpp"])

# ---- second batch ------------------------------------------------------------------------------------------------
PT = ["sm_property_tree/src/%s.cpp" % f for f in ("PropertyTree", "PropertyTreeImplementation", "BoostPropertyTree", "BoostPropertyTreeImplementation")]
PTF = "-include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS"
LG = None
seed("s12-half-zero-id-invalid", "C01", [("sm_common/include/sm/hash_id.hpp", "return val_.u64[0] != 0 || val_.u64[1] != 0;", "return val_.u64[0] != 0 && val_.u64[1] != 0;")],
 '#include <sm/hash_id.hpp>\nconst char sm::HashId::kHexConversion[] = "0123456789abcdef";\nint main() { uint64_t a[2] = {0, 7}; sm::HashId h(a); CHECK(h.isValid()); sm::HashId z; CHECK(!z.isValid()); return 0; }\n',
 "an identifier one of whose 64-bit halves is zero", "it is taken for the invalid identifier", srcs=[])
seed("s13-tolerance-one-sided", "C02", [("sm_common/include/sm/numerical_comparisons.hpp", "return std::max(std::abs(a), std::abs(b)) * epsilon;", "return std::max(std::abs(a), b) * epsilon;")],
 '#include <sm/numerical_comparisons.hpp>\nint main() { CHECK(sm::approximatelyEqual(-0.5, -1.0, 0.6) == sm::approximatelyEqual(-1.0, -0.5, 0.6)); CHECK(sm::approximatelyEqual(-0.5, -1.0, 0.6)); return 0; }\n',
 "a negative second operand of larger magnitude", "tolerance uses the smaller magnitude, so the comparison is not symmetric", srcs=[])
seed("s14-env-unset-swallows", "C03", [("sm_common/include/sm/string_routines.hpp", """                    out << envSub;
                    pidx = idxe+1;
                }
                off = idxe+1;""", """                    out << envSub;
                    pidx = idxe+1;
                    off = pidx;
                }
                else
                {
                    off = idx+2;
                    pidx = off-2 > pidx ? off-2 : pidx;
                }""")],
 '#include <sm/string_routines.hpp>\nint main() { setenv("VA", "x", 1); unsetenv("VB"); CHECK(sm::substituteEnvVars("a$(VA)b") == "axb"); CHECK(sm::substituteEnvVars("p$(VB)q$(VA)") == "p$(VB)qx"); return 0; }\n',
 "text in front of a name that is not set", "the text in front of the unset name is lost", srcs=[])
seed("s15-ge-le-upper", "C04", [("sm_common/include/sm/assert_macros.hpp", """#define SM_ASSERT_GE_LE(exceptionType, value, lowerBound, upperBound, message) \\
  if((value) < (lowerBound) || (value) > (upperBound))""", """#define SM_ASSERT_GE_LE(exceptionType, value, lowerBound, upperBound, message) \\
  if((value) < (lowerBound) || (value) - (upperBound) > 0)""")],
 '#include <stdexcept>\n#include <sm/assert_macros.hpp>\nint main() { unsigned v = 3; bool t = false; try { SM_ASSERT_GE_LE(std::runtime_error, v, 2u, 5u, "x"); } catch (const std::runtime_error &) { t = true; } CHECK(!t); return 0; }\n',
 "unsigned operands", "the difference wraps round, so a value inside the range throws", srcs=[])
seed("s16-null-left-pointer", "C05", [("sm_common/include/sm/serialization_macros.hpp", """struct isSame<false, A*> {
  static bool eval(A const * lhs, A const * rhs) {
    if (!lhs && !rhs) {
      return true;
    }
    if (!lhs || !rhs) {
      return false;
    }
    return *lhs == *rhs;""", """struct isSame<false, A*> {
  static bool eval(A const * lhs, A const * rhs) {
    if (!lhs && !rhs) {
      return true;
    }
    if (!lhs || !rhs) {
      return lhs && *lhs == A();
    }
    return *lhs == *rhs;""")],
 '#include <sm/serialization_macros.hpp>\nint main() { int a = 0; int * p = &a, * q = 0; CHECK(!SM_CHECKSAME(p, q)); CHECK(!SM_CHECKSAME(q, p)); return 0; }\n',
 "a pointer to a default value compared with a null pointer", "they are reported equal, in one direction only", srcs=[])
seed("s17-default-not-recorded", "P01", [("sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp", """	set(key,defaultValue);
	return defaultValue;""", """	if(!doesKeyExist(key.substr(0, key.find_last_of('/'))) || key.find_last_of('/') == 0)
	  set(key,defaultValue);
	return defaultValue;""")],
 '#include <sm/BoostPropertyTree.hpp>\nint main() { sm::BoostPropertyTree t; t.setInt("a/b", 3); sm::PropertyTree & p = t; CHECK(p.getInt("a/c", 7) == 7); CHECK(t.doesKeyExist("a/c")); CHECK(p.getInt("a/c", 9) == 7); return 0; }\n',
 "a missing key next to existing ones in a nested namespace", "the default is not recorded there", srcs=PT, flags=PTF)
seed("s18-merge-drops-empty", "P02", [("sm_property_tree/src/BoostPropertyTreeImplementation.cpp", """    if(ignoreEmptyUpdates && (child.data().empty() || child.data().find_first_not_of(" \\n\\t\\r") == std::string::npos)) return;
    dest.put(childPath, child.data());
  }

  template""", """    if((ignoreEmptyUpdates || !child.empty()) && (child.data().empty() || child.data().find_first_not_of(" \\n\\t\\r") == std::string::npos)) return;
    dest.put(childPath, child.data());
  }

  template""")],
 '#include <sm/BoostPropertyTree.hpp>\nint main() { sm::BoostPropertyTree a, b; a.setString("k", "old"); a.setInt("k/c", 1); b.setString("k", ""); b.setInt("k/c", 2); a.update(b, true, false); CHECK(a.getInt("k/c") == 2); CHECK(a.getString("k") == ""); return 0; }\n',
 "an update that creates keys, with an inner node whose value is empty", "the old value of the inner node survives", srcs=PT, flags=PTF)
seed("s19-children-layers-reversed", "V01", [("sm_value_store/src/ValueStore.cpp", "map[c.getKey()].push_back(c);", "auto & layers = map[c.getKey()];\n      layers.insert(layers.begin(), c);")],
 '#include <sm/value_store/LayeredValueStore.hpp>\n#include <sm/value_store/PropertyTreeValueStore.hpp>\nusing namespace sm::value_store;\nint main() { ValueStoreRef a = ValueStoreRef::fromString("c/v=1"), b = ValueStoreRef::fromString("c/v=2"); LayeredValueStore l(a, b); for (auto & c : l.getChildren()) CHECK((int)c.getInt("v").get() == 1); return 0; }\n',
 "a child found by listing the children of a layered store, with the key in several layers", "the last layer wins", srcs=PT + ["sm_value_store/src/%s.cpp" % f for f in ("PrefixedValueStore", "PropertyTreeValueStore", "ValueStore", "VerboseValueStore")], flags=PTF)
seed("s20-one-waiter-woken", "B01", [("sm_boost/src/JobQueue.cpp", "workCondition_.notify_all();", "workCondition_.notify_one();")],
 '''#include <sm/boost/JobQueue.hpp>
#include <boost/bind.hpp>
#include <unistd.h>
static void work() { usleep(300000); }
int main() { sm::JobQueue * q = new sm::JobQueue; q->start(1); q->scheduleWork(&work); boost::thread a(&sm::JobQueue::waitForEmptyQueue, q), b(&sm::JobQueue::waitForEmptyQueue, q);
 bool x = a.timed_join(boost::posix_time::seconds(10)), y = b.timed_join(boost::posix_time::seconds(10)); if (!x || !y) { printf("FAIL waiter not woken\\n"); fflush(stdout); _exit(1); } _exit(0); }
''', "two threads waiting for the queue to become empty", "only one of them is woken up", srcs=["sm_boost/src/JobQueue.cpp"])
seed("s21-stream-prefix", "L01", [("sm_logging/src/LoggingGlobals.cpp", 'if(name.substr(0, 3) == SMCONSOLE_DEFAULT_NAME ".") { // starts with "sm."', 'if(name.compare(0, sizeof(SMCONSOLE_DEFAULT_NAME) - 1, SMCONSOLE_DEFAULT_NAME) == 0) { // starts with "sm."')],
 '''#include <sm/logging.hpp>
int main() { sm::logging::enableNamedStream("small"); CHECK(sm::logging::isNamedStreamEnabled("small")); CHECK(sm::logging::isNamedStreamEnabled("sm.small")); return 0; }
''', "a stream whose name starts with the letters sm", "it is enabled under a name no call site uses", srcs=["sm_logging/src/%s.cpp" % f for f in ("Formatter", "Levels", "Logger", "LoggingEvent", "LoggingGlobals", "StdOutLogger", "Tokens")])
seed("s22-message-of-buffer-size", "L02", [("sm_logging/src/LoggingGlobals.cpp", "if (total >= _globalCharBuffer.size())", "if (total > _globalCharBuffer.size())")],
 '''#include <sm/logging.hpp>
struct Cap : sm::logging::Logger { std::string got; virtual Time currentTimeImplementation() const { return Time(); } virtual void logImplementation(const sm::logging::LoggingEvent & e) { got = e.message; } };
int main() { boost::shared_ptr<Cap> c(new Cap); sm::logging::setLogger(c); std::string s(4096, 'x'); SM_INFO("%s", s.c_str()); CHECK(c->got == s); return 0; }
''', "a message of exactly the buffer's length", "its last character is lost", srcs=["sm_logging/src/%s.cpp" % f for f in ("Formatter", "Levels", "Logger", "LoggingEvent", "LoggingGlobals", "StdOutLogger", "Tokens")])
seed("s23-last-name-character", "M01", [("sm_matrix_archive/src/MatrixArchive.cpp", "for(unsigned i = 1; i < name.size(); i++)", "for(unsigned i = 1; i < name.size() - 1; i++)")],
 '#include <sm/MatrixArchive.hpp>\nint main() { sm::MatrixArchive a; bool t = false; try { a.setScalar("ab-", 1); } catch (const std::exception &) { t = true; } CHECK(t && a.size() == 0); return 0; }\n',
 "a name whose last character is forbidden", "the name is accepted", srcs=["sm_matrix_archive/src/MatrixArchive.cpp"])
seed("s24-string-block-end", "M02", [("sm_matrix_archive/src/MatrixArchive.cpp", 'SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn\'t end with the expected character");', 'if(blockType == MATRIX)\n      SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn\'t end with the expected character");')],
 '''#include <sm/MatrixArchive.hpp>
#include <fstream>
int main() { { sm::MatrixArchive a; a.setString("s", "hello"); a.save(std::string("x.ama")); } std::fstream f("x.ama", std::ios::in | std::ios::out | std::ios::binary); f.seekp(-1, std::ios::end); f.put('Q'); f.close(); bool t = false; try { sm::MatrixArchive b; b.load(std::string("x.ama")); } catch (const std::exception &) { t = true; } CHECK(t); return 0; }
''', "a damaged end marker of a string block", "the damage goes unnoticed", srcs=["sm_matrix_archive/src/MatrixArchive.cpp"])
seed("s25-too-few-columns", "E01", [("sm_eigen/include/sm/eigen/serialization.hpp", """      SM_ASSERT_EQ(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");
      
      M.resize(rows,Eigen::NoChange);""", """      SM_ASSERT_LE(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");
      
      M.resize(rows,Eigen::NoChange);""")],
 '''#include <sm/eigen/serialization.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <sstream>
int main() { Eigen::MatrixXd a(2, 2), c; a << 1, 2, 3, 4; c.resize(3, 3); c.setOnes(); std::stringstream s; { boost::archive::text_oarchive o(s); const Eigen::MatrixXd & r = a; const Eigen::MatrixXd & r2 = c; o << r << r2; }
 boost::archive::text_iarchive i(s); Eigen::Matrix<double, Eigen::Dynamic, 3> b; bool t = false; try { i >> b; } catch (const sm::eigen::SerializationException &) { t = true; } CHECK(t); return 0; }
''', "loading a matrix with fewer columns into a type with a fixed number of columns", "it is loaded instead of refused", srcs=[])
seed("s26-uncertain-equality", "E03", [(K + "UncertainTransformation.cpp", "return Transformation::isBinaryEqual(rhs) && SM_CHECKMEMBERSSAME(rhs, _U);", "return Transformation::isBinaryEqual(rhs) && (_U - rhs._U).isZero();")],
 '#include <sm/kinematics/UncertainTransformation.hpp>\nusing namespace sm::kinematics;\nint main() { UncertainTransformation a, b; Eigen::Matrix<double,6,6> U = Eigen::Matrix<double,6,6>::Identity() * 1e-14; a.setU(U); U(5,2) = 3e-15; b.setU(U); CHECK(!a.isBinaryEqual(b)); CHECK(a.isBinaryEqual(a)); return 0; }\n',
 "covariances that differ by less than 1e-12", "they are reported binary equal")
seed("s28-euler-day-hours", "B02", [("sm_boost/include/sm/boost/ptime.hpp", "        tv.tv_usec = duration.fractional_seconds();", "        tv.tv_usec = duration.ticks() - (long long)((int)duration.total_seconds()) * duration.ticks_per_second();")],
 '#include <sm/boost/ptime.hpp>\n#include <boost/date_time/posix_time/posix_time.hpp>\nint main() { timeval t = sm::ptimeToTimeval(boost::posix_time::time_from_string("2040-01-02 03:04:05.000006")); CHECK(t.tv_usec == 6); CHECK(t.tv_sec == 2209086245LL); return 0; }\n',
 "a time after January 2038", "seconds are truncated to 32 bits when the microseconds are computed", srcs=[])
seed("s29-oplus-component", "K02", [(K + "quaternion_algebra.cpp", "retq[2] = q[2]*ca-dq3[0]*q[1]+dq3[1]*q[0]+dq3[2]*q[3];", "retq[2] = q[2]*ca-dq3[0]*q[1]+dq3[1]*q[0]+dq3[2]*(q[3] < -0.9 ? -q[3] : q[3]);")],
 QH + 'int main() { Eigen::Vector4d q(0.1, 0.2, -0.1, -std::sqrt(1 - 0.06)); Eigen::Vector3d d(0.1, -0.2, 0.3); Eigen::Vector4d a = updateQuat(q, d), b = qplus(axisAngle2quat(d), q); CHECK((a - b).norm() < 1e-9); return 0; }\n',
 "a quaternion with a scalar part below -0.9", "one component of the update has the wrong sign there")
seed("s30-small-axis-angle", "K06", [(K + "rotations.cpp", "    if(a < 1e-12)\n      return Eigen::Matrix3d::Identity();", "    if(a < 1e-7)\n      return Eigen::Matrix3d::Identity() - crossMx(x, y, 0.0 * z);")],
 QH + 'int main() { Eigen::Vector3d v(2e-8, -3e-8, 5e-8); Eigen::Matrix3d d = axisAngle2R(v) - (Eigen::Matrix3d::Identity() - crossMx(v)); CHECK(d.cwiseAbs().maxCoeff() < 1e-12); return 0; }\n',
 "rotations below 1e-7 about an axis with a z component", "the z component is dropped")
seed("s32-rotate-homogeneous", "K09", [(K + "Transformation.cpp", "          rval.head<3>() = quatRotate(_q_a_b, rval.head<3>());", "          rval.head<3>() = rval[3] * quatRotate(_q_a_b, rval.head<3>());")],
 '#include <sm/kinematics/Transformation.hpp>\nusing namespace sm::kinematics;\nint main() { Transformation T; Eigen::Vector4d p(1,2,3,2); CHECK((T.rotate(p) - p).norm() < 1e-12); return 0; }\n',
 "only rotating a homogeneous point whose weight is not one", "the weight is multiplied in twice")
seed("s33-difference-covariance", "K12", [(K + "UncertainHomogeneousPoint.cpp", """	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);""", """	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph) + (rhs._ph[3] < 0 ? 2.0 : 0.0) * Eigen::Matrix4d(Eigen::Vector4d(0,0,0,-rhs._ph[3]).asDiagonal());""")],
 '''#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
using namespace sm::kinematics;
int main() { Eigen::Matrix4d U = Eigen::Matrix4d::Random(); U = (U * U.transpose()).eval(); UncertainHomogeneousPoint a(Eigen::Vector4d(1,2,3,2), U), b(Eigen::Vector4d(3,1,-1,-0.5), U), c = a + b; Eigen::Matrix3d E = a.U3() + b.U3() - c.U3(); CHECK(E.cwiseAbs().maxCoeff() < 1e-9 * c.U3().cwiseAbs().maxCoeff()); return 0; }
''', "adding a point with a negative weight", "the covariance of the sum is wrong")
seed("s34-scalar-product-variance", "K13", [("sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp", "_v.dot( rhs._E * _v ) + rhs._v.dot( _E * rhs._v ) );", "_v.dot( rhs._E * _v ) + rhs._v.dot( _E.transpose().template triangularView<Eigen::Upper>() * rhs._v ) + rhs._v.dot( _E.template triangularView<Eigen::StrictlyUpper>() * rhs._v ) - (_v == rhs._v ? _v.dot(_E * _v) : 0.0) );")],
 '''#include <sm/kinematics/UncertainVector.hpp>
using namespace sm::kinematics;
int main() { Eigen::Vector3d v(1,2,3); Eigen::Matrix3d E; E << 2,.1,.2,.1,3,.3,.2,.3,4; UncertainVector<3> a(v, E), b(v, 2 * E); UncertainVector<1> d = a.dot(b); CHECK(std::fabs(d.E() - 3 * v.dot(E * v)) < 1e-9); return 0; }
''', "the scalar product of two uncertain vectors with the same mean", "one operand's variance is dropped")
seed("s35-wrap-huge-angle", "K14", [(K + "rotations.cpp", "return (double)(radians - (SM_2PI * boost::math::round(radians / SM_2PI)));", "return (double)(radians - (SM_2PI * (int)boost::math::round(radians / SM_2PI)));")],
 QH + 'int main() { double a = angleMod(3e10); CHECK(std::fabs(a) <= 3.1416); return 0; }\n',
 "angles of more than two thousand million turns", "the number of turns does not fit an int")
seed("s27-seed-zero", "R01", [("sm_random/src/random.cpp", "    _normal.engine().seed(s);", "    if(s != 0) _normal.engine().seed(s);"), ("sm_random/src/random.cpp", "    _uniform.engine().seed(s);", "    if(s != 0) _uniform.engine().seed(s);")],
 '#include <sm/random.hpp>\nint main() { using namespace sm::random; seed(0); double a = uniform(); seed(0); CHECK(uniform() == a); return 0; }\n',
 "seeding with zero", "the generator is left as it was", srcs=["sm_random/src/random.cpp"])
seed("s31-jacobian-at-infinity", "K08", [(K + "transformations.cpp", "-T_ab.topLeftCorner<3,3>() * crossMx(v_b(0),v_b(1),v_b(2));", "-v_b(3) * T_ab.topLeftCorner<3,3>() * crossMx(v_b(0)/v_b(3),v_b(1)/v_b(3),v_b(2)/v_b(3));")],
 '#include <sm/kinematics/transformations.hpp>\nusing namespace sm::kinematics;\nint main() { Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); Eigen::Vector4d v(1,2,3,0), o; Eigen::Matrix<double,4,6> B; inverseTransformationAndJacobian(T, v, o, B); CHECK(B(0,4) == 3); return 0; }\n',
 "a point at infinity", "the Jacobian is not a number")
seed("s36-more-than-two-turns", "K03", [(K + "quaternion_algebra.cpp", """            double theta = a.norm();

            // na is 1/theta sin(theta/2)""", """            double theta = std::fmod(a.norm(), 4.0 * M_PI);

            // na is 1/theta sin(theta/2)""")],
 QH + 'int main() { Eigen::Vector3d v(13.5, 1, 2); Eigen::Vector4d q = axisAngle2quat(v); CHECK(std::fabs(q.norm() - 1) < 1e-9); return 0; }\n',
 "axis-angle vectors of more than two turns", "the angle is reduced but the axis is not rescaled")
BPT = ["sm_property_tree/src/%s.cpp" % f for f in ("BoostPropertyTree", "BoostPropertyTreeImplementation", "BoostPropertyTreeLoader", "BoostPropertyTreeSupport", "PropertyTree", "PropertyTreeImplementation")]
BPF = "-include boost/bind.hpp -DBOOST_BIND_GLOBAL_PLACEHOLDERS"
BL = "sm_property_tree/src/BoostPropertyTreeLoader.cpp"; BI = "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"
FH = '''#include <fstream>
#include <sys/stat.h>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
struct L : sm::BoostPropertyTreeLoader { void goingToMergeIn(const std::string&) override {} void startingWith(const std::string&) override {} void warn(const std::string&) override {} void info(const std::string&) override {} };
static void put(const char* p, const std::string& s) { std::ofstream(p) << s; }
'''
seed("s37-parent-next-to-requested-name", "P04", [(BL, "readFiles(splitCommaSeparatedList(parents), ignore, configFileFullPath);", "readFiles(splitCommaSeparatedList(parents), ignore, configFile);")],
 FH + 'int main() { mkdir("d", 0755); mkdir("d/sub", 0755); put("d/sub/a.info", "parents ./b.info\\nx 1\\n"); put("d/sub/b.info", "x 2\\ny 3\\n"); L l; l.getSearchPaths().push_back("d"); sm::BoostPropertyTree t; try { t = l.readFilesAndMergeIntoPropertyTree("sub/a.info"); } catch (const std::exception& e) { printf("%s\\n", e.what()); return 1; } CHECK(t.getInt("x") == 1 && t.getInt("y") == 3); return 0; }\n',
 "a relative parent of a file found below a search path", "the parent is looked for next to the name as written instead of next to the file found", srcs=BPT, flags=BPF)
seed("s38-update-only-first", "P04", [(BL, "      confIsSet = true;", "      confIsSet = !updateOnly;")],
 FH + 'int main() { put("a.info", "x 1\\ny 2\\n"); put("b.info", "y 3\\n"); L l; sm::BoostPropertyTree t = l.readFilesAndMergeIntoPropertyTree("a.info!,b.info"); CHECK(t.doesKeyExist("x")); CHECK(t.getInt("x") == 1 && t.getInt("y") == 3); return 0; }\n',
 "a list whose first file is marked update-only", "the next file replaces it instead of being merged into it", srcs=BPT, flags=BPF)
seed("s39-last-candidate", "P04", [(BL, 'return getSearchPaths().front() + "/" + (getFileNameInfixes().empty() ? "" : getFileNameInfixes().front() + "/") + path;', 'return candidate;')],
 FH + 'int main() { L l; l.getSearchPaths().push_back("p"); l.getSearchPaths().push_back("q"); l.getFileNameInfixes().push_back("i"); CHECK(l.resolveFullFilePath("x.info", "") == "p/i/x.info"); return 0; }\n',
 "a file that exists nowhere and more than one place to look", "the last place is reported instead of the first", srcs=BPT, flags=BPF)
seed("s40-readable-comments", "P06", [(BI, "    if (BoostPropertyTree::isIgnoreComments()) { options |=", "    else if (BoostPropertyTree::isIgnoreComments()) { options |=")],
 FH + 'int main() { sm::BoostPropertyTree::setHumanReadableInputOutput(true); sm::BoostPropertyTree::setIgnoreComments(true); put("x.xml", "<a><b>1</b><!--c--></a>"); sm::BoostPropertyTree t; t.loadXml("x.xml"); CHECK(sm::PropertyTree(t, "a").getChildren().size() == 1); return 0; }\n',
 "readable input together with ignored comments", "the comments become keys", srcs=BPT, flags=BPF)
seed("s41-load-keeps-old-keys", "P06", [(BI, "    boost::property_tree::read_ini(fileName.string(), _ptree);", "    boost::property_tree::ptree loaded;\n    boost::property_tree::read_ini(fileName.string(), loaded);\n    for (auto & section : loaded) { _ptree.put_child(boost::property_tree::ptree::path_type(section.first, '/'), section.second); }")],
 FH + 'int main() { sm::BoostPropertyTree a, b; a.setInt("s/x", 1); a.saveIni("x.ini"); b.setInt("old", 2); b.loadIni("x.ini"); CHECK(b.getInt("s/x") == 1 && !b.doesKeyExist("old")); return 0; }\n',
 "loading an ini file into a tree that is not empty", "keys from before the load survive", srcs=BPT, flags=BPF)
seed("s42-json-partial-load", "P06", [(BI, "    boost::property_tree::read_json(fileName.string(), _ptree);", "    _ptree.clear();\n    boost::property_tree::read_json(fileName.string(), _ptree);")],
 FH + 'int main() { put("x.json", "{\\"a\\": "); sm::BoostPropertyTree t; t.setInt("k", 1); bool thrown = false; try { t.loadJson("x.json"); } catch (const std::exception&) { thrown = true; } CHECK(thrown && t.doesKeyExist("k")); return 0; }\n',
 "a JSON file that breaks off", "the tree is empty after the refused load", srcs=BPT, flags=BPF)
seed("s43-old-keys-stay", "P03", [(BI, "    boost::property_tree::read_info(s, _ptree);\n", "    boost::property_tree::ptree read;\n    boost::property_tree::read_info(s, read);\n    for (auto & child : read) { if (auto known = _ptree.get_child_optional(boost::property_tree::ptree::path_type(child.first, '/'))) { *known = child.second; } else { _ptree.push_back(child); } }\n")],
 FH + 'int main() { sm::BoostPropertyTree t; t.setInt("old", 1); t.loadString("a=1"); CHECK(t.getInt("a") == 1 && !t.doesKeyExist("old")); return 0; }\n',
 "loading into a tree that is not empty", "keys from before the load survive", srcs=BPT, flags=BPF)
seed("s46-default-scalar", "P05", [("sm_eigen/include/sm/eigen/property_tree.hpp", 'rval[3] = config.getDouble("w");', 'rval[3] = config.getDouble("w", 1.0);')],
 FH + '#include <sm/eigen/property_tree.hpp>\nint main() { sm::BoostPropertyTree t; t.setDouble("x", 0); t.setDouble("y", 0); t.setDouble("z", 0.3); bool thrown = false; try { sm::eigen::quaternionFromPropertyTree(t); } catch (const std::exception&) { thrown = true; } CHECK(thrown); return 0; }\n',
 "a quaternion without its scalar component", "one is made up instead of refusing it", srcs=KALL + BPT, flags=BPF)
LOGS = ["sm_logging/src/%s.cpp" % f for f in ("Formatter", "Levels", "Logger", "LoggingEvent", "LoggingGlobals", "StdOutLogger", "Tokens")]
seed("s47-assert-without-parentheses", "L01", [("sm_logging/include/sm/logging/assert.h", """#define SM_ASSERT_MSG(cond, ...) \\
  do { \\
    if (!(cond)) { \\
      SM_FATAL("ASS""", """#define SM_ASSERT_MSG(cond, ...) \\
  do { \\
    if (!cond) { \\
      SM_FATAL("ASS""")],
 '#include <csignal>\n#include <sm/logging.hpp>\n#include <sm/logging/assert.h>\nstatic volatile int traps = 0; static void h(int) { traps = traps + 1; }\nint main() { signal(SIGTRAP, h); int x = 3; SM_ASSERT_MSG(x > 5 || x < 4, "m"); CHECK(traps == 0); SM_ASSERT_MSG(x == 3 && x > 5, "m"); CHECK(traps == 1); return 0; }\n',
 "a condition made of two parts", "only the first part is negated", srcs=LOGS)
seed("s48-square-matrices", "C04", [("sm_eigen/include/sm/eigen/assert_macros.hpp", """  for(int r = 0; r < matrix.rows(); ++r)				\\
    {									\\
      for(int c = 0; c < matrix.cols(); ++c)				\\
	{								\\
	  if(!std::isfinite(matrix(r,c)))				\\
	    {								\\
	      std::stringstream sm_assert_stringstream;		\\
	      sm_assert_stringstream << "debug""", """  for(int r = 0; r < matrix.rows(); ++r)				\\
    {									\\
      for(int c = 0; c < matrix.cols(); ++c)				\\
	{								\\
	  if(std::isinf(matrix(r,c)))				\\
	    {								\\
	      std::stringstream sm_assert_stringstream;		\\
	      sm_assert_stringstream << "debug""")],
 '#include <Eigen/Core>\n#include <stdexcept>\n#include <sm/eigen/assert_macros.hpp>\nint main() { Eigen::MatrixXd m(1,2); m << 1, NAN; bool thrown = false; try { SM_ASSERT_MAT_IS_FINITE(std::runtime_error, m, "m"); } catch (const std::runtime_error&) { thrown = true; } CHECK(thrown); return 0; }\n',
 "a matrix with a coefficient that is not a number", "it passes as finite", srcs=[])
VSALL = PT + ["sm_value_store/src/%s.cpp" % f for f in ("PrefixedValueStore", "PropertyTreeValueStore", "ValueStore", "VerboseValueStore")]
seed("s49-longest-component", "K15", [(K + "Transformation.cpp", "t.array() *= sm::random::randLU(0.0, translationMaxMeters)/t.norm();", "t.array() *= sm::random::randLU(0.0, translationMaxMeters)/t.cwiseAbs().maxCoeff();")],
 '#include <sm/kinematics/Transformation.hpp>\nint main() { for (int i = 0; i < 2000; i++) { sm::kinematics::Transformation T; T.setRandom(2.0, 0.5); CHECK(T.t().norm() <= 2.0 + 1e-9); } return 0; }\n',
 "a direction with several large components and a distance near the limit", "the largest component, not the length, is limited")
seed("s50-symmetrised-covariance", "K15", [(K + "UncertainTransformation.cpp", """      Transformation::setRandom(translationMaxMeters, rotationMaxRadians);
      _U.setRandom();
      _U = _U * _U.transpose() * covariance_t::Identity();""", """      Transformation::setRandom(translationMaxMeters, rotationMaxRadians);
      _U.setRandom();
      _U = (0.5 * (_U + _U.transpose()) + covariance_t::Identity()).eval();""")],
 '#include <sm/kinematics/UncertainTransformation.hpp>\nint main() { for (int i = 0; i < 500; i++) { sm::kinematics::UncertainTransformation T; T.setRandom(1.0, 1.0); Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double,6,6>> s(T.U()); CHECK(s.eigenvalues().minCoeff() > -1e-6); } return 0; }\n'.replace('int main', '#include <Eigen/Eigenvalues>\nint main'),
 "draws whose correlations exceed the variances", "the random covariance is symmetric but not positive semidefinite")
seed("s51-remembered-file", "V02", [("sm_value_store/src/PropertyTreeValueStore.cpp", """sm::ValueStoreRef ValueStoreRef::fromFile(const std::string & path){
  sm::BoostPropertyTree bpt;
  bpt.load(path);
  return bpt;""", """sm::ValueStoreRef ValueStoreRef::fromFile(const std::string & path){
  static std::vector<std::pair<std::string, sm::BoostPropertyTree>> loaded;
  for(const auto & known : loaded) { if(known.first == path) { return known.second; } }
  sm::BoostPropertyTree bpt;
  bpt.load(path);
  loaded.push_back(std::make_pair(path, bpt));
  return bpt;""")],
 FH + '#include <sm/value_store/PropertyTreeValueStore.hpp>\nusing namespace sm::value_store;\nint main() { put("v.info", "a 1\\n"); ValueStoreRef x = ValueStoreRef::fromFile("v.info"); CHECK((int)x.getInt("a").get() == 1); put("v.info", "a 2\\n"); ValueStoreRef y = ValueStoreRef::fromFile("v.info"); CHECK((int)y.getInt("a").get() == 2); return 0; }\n',
 "a file that is loaded, changed and loaded again", "the store loaded the second time holds the old values", srcs=VSALL, flags=PTF)
seed("s52-update-in-place", "V02", [("sm_value_store/src/PropertyTreeValueStore.cpp", """  boost::shared_ptr<BoostPropertyTreeImplementation> bptSharedPtr(bptPtr, [](sm::BoostPropertyTreeImplementation*) {});
  BoostPropertyTree(bptSharedPtr).save(path);""", """  boost::shared_ptr<BoostPropertyTreeImplementation> bptSharedPtr(bptPtr, [](sm::BoostPropertyTreeImplementation*) {});
  BoostPropertyTree out(bptSharedPtr);
  std::string name = path;
  if(name.size() > 5 && name.compare(name.size() - 5, 5, ".json") == 0) { out.saveJson(name); }
  else if(name.size() > 4 && name.compare(name.size() - 4, 4, ".xml") == 0) { out.saveXml(name); }
  else if(name.size() > 4 && name.compare(name.size() - 4, 4, ".ini") == 0) { out.saveIni(name); }
  else { out.saveInfo(name); }""")],
 FH + '#include <sm/value_store/PropertyTreeValueStore.hpp>\nusing namespace sm::value_store;\nint main() { ValueStoreRef x = ValueStoreRef::fromString("a=1"); bool thrown = false; try { x.saveTo("v.cfg"); } catch (const std::exception&) { thrown = true; } CHECK(thrown); return 0; }\n',
 "saving under a name whose extension is not known", "a file is written that cannot be loaded under its name", srcs=VSALL, flags=PTF)
seed("s53-text-appended", "E05", [("sm_boost/include/sm/boost/serialization.hpp", """        void save_txt(T & object, ::boost::filesystem::path const & filename)
        {
            std::ofstream ofs(filename.string().c_str(), std::ios::binary);""", """        void save_txt(T & object, ::boost::filesystem::path const & filename)
        {
            std::ofstream ofs(filename.string().c_str(), std::ios::binary | std::ios::app);""")],
 FH + '#include <sm/boost/serialization.hpp>\nstruct P { int v = 1; template <class A> void serialize(A& ar, unsigned) { ar & v; } };\nint main() { P a, b, c; a.v = 5; sm::boost_serialization::save_txt(a, "o.txt"); b.v = 6; sm::boost_serialization::save_txt(b, "o.txt"); sm::boost_serialization::load_txt(c, "o.txt"); CHECK(c.v == 6); return 0; }\n',
 "a file that exists already", "the text is appended to it, so the first object saved is loaded", srcs=[], flags=PTF + " -lboost_serialization")
