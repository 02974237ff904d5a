From b5d9a632252014267298d7d8cacae1133b501e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 01/40] fix: sign of the second-order term in axisAngle2quat
 for small angles

sin(t/2)/t = 1/2 - t^2/48 + ...; the series used + and produced non-unit quaternions.
---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..4fe67c4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 69a9083b46d792855fc15bbefad707c07aa06173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 02/40] fix: integer division drops the second-order term of
 arcSinXOverX

asin(x)/x = 1 + x^2/6 + ...; 1/6 is zero in integer arithmetic.
---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 4fe67c4..a0c1929 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From 24af35626cd979179531e44cd2e8aec55527888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 03/40] fix: quat2AxisAngle of the negative identity is NaN

The quaternion (0,0,0,-1) divided zero by zero; return a full turn about a fixed axis.
---
 sm_kinematics/src/quaternion_algebra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index a0c1929..8b3fde1 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -267,6 +267,10 @@ namespace sm { namespace kinematics {
             }else{
               // (pi - asin(na))/ na has a pole at na == 0. So we cannot remove this singularity.
               // It is just the cut locus of the unit quaternion manifold at identity and thus the axis angle description becomes necessarily unstable there.
+              if(na == Scalar_(0)){
+                // q is exactly -identity: a full turn, about any axis.
+                return Eigen::Matrix<Scalar_, 3, 1>(Scalar_(2.0 * M_PI), Scalar_(0), Scalar_(0));
+              }
               scale = (M_PI - asin(na)) / na;
             }
           }
-- 
2.43.0


From 2dce2f58ce8fc8f1880c561998b1b9c886f3cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 04/40] fix: axisAngle2R(angle, axis) ignored negative angles

Every negative angle was treated as too small and gave the identity.
---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From 7d8150ee2f79c52b47a547415194575e485c44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 05/40] fix: EulerRodriguez extraction is NaN when rounding
 pushes the trace above 3

---
 sm_kinematics/src/EulerRodriguez.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..3b35bcd 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -27,7 +27,9 @@ namespace sm { namespace kinematics {
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
       Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
+      // Sometimes, because of roundoff error, the value ends up outside
+      // the valid range of arccos. Truncate to the valid range.
+      double a = acos( std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5), 1.0)));
 
       if(fabs(a) < 1e-14){
 	return Eigen::Vector3d::Zero();
-- 
2.43.0


From d39c096108c0381af83d679637f05a92cf3b37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 06/40] fix: RotationVector extraction returned zero for half a
 turn

---
 sm_kinematics/src/RotationVector.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..49a1b12 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -71,7 +71,17 @@ namespace sm { namespace kinematics {
             p[2] = (C(1,0) - C(0,1));
             double n2 = p.norm();
             if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
+            {
+                if(tr > 0.0)
+                    return Eigen::Vector3d::Zero();
+
+                // Half a turn: C + I = 2 * axis * axis^T
+                int i;
+                C.diagonal().maxCoeff(&i);
+                p = C.col(i);
+                p[i] += 1.0;
+                return (a/p.norm()) * p;
+            }
       
             double scale = -a/n2;
             p = scale * p;
-- 
2.43.0


From 2170e564c7267305264155b68270651d16d4b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 07/40] fix: comparison macros ignored every member after the
 first

---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..aa1e56d 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 6f936cbecacca3cb553b1e45036c95f54a3b3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 08/40] fix: covariance of sums and differences of homogeneous
 points

---
 sm_kinematics/src/HomogeneousPoint.cpp          | 13 +++++++++----
 sm_kinematics/src/UncertainHomogeneousPoint.cpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..b461a5e 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
 
@@ -50,8 +51,9 @@ namespace sm {
       Eigen::Vector4d rval;
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+
+      Eigen::Matrix4d P = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * rhs.U4() * P.transpose()));
 
     }
       
@@ -64,8 +66,11 @@ namespace sm {
       Eigen::Vector4d rval;
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+
+      // toHomogeneousPlus is the derivative of the sum; subtracting flips the Euclidean columns
+      Eigen::Matrix4d P = toHomogeneousPlus(_ph);
+      P.leftCols<3>() *= -1.0;
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(P * rhs.U4() * P.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..4b2b067 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	Eigen::Matrix4d MR = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(MR * U4() * MR.transpose()));
 
       }
 
@@ -203,10 +205,13 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// The derivative with respect to the subtracted point is toHomogeneousPlus(_ph)
+	// with the sign of its first three columns flipped.
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.leftCols<3>() *= -1.0;
+	Eigen::Matrix4d MR = toHomogeneousMinus(rhs._ph);
 	
-	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(MR * U4() * MR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
       }
 
-- 
2.43.0


From a17d3d4218124736eef51fd77da18156f69bd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 09/40] fix: isValid accepted only the invalid timestamp

---
 sm_timing/src/NsecTimeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..791b8dc 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -40,7 +40,7 @@ constexpr NsecTime getInvalidTime() {
 }
 
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From d35e0b6599a07fef52ab87518d80139eebb7e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 10/40] fix: getInvalidTime was declared constexpr but defined
 out of reach of its callers

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 4 ----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index 791b8dc..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,10 +35,6 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
    return getInvalidTime() != time;
 }
-- 
2.43.0


From 8fa4f8ca55a64e0752cc82e29fe0751c6172c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 11/40] fix: TimestampCorrector read past the hull after it
 shrank to two points

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..3befbe5 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -51,6 +51,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
                      "The computed midpoint is not within the midpoint segment");
   }
   else {
+    // The hull may just have shrunk: do not keep an index into the points that are gone
+    _midpointSegmentIndex = 0u;
     // and if there aren't enough data points, just return the sampled local time.
     return localTime;
   }
-- 
2.43.0


From b49c53397cf2ac07ebf01732a6becec178ed25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 12/40] fix: TimestampCorrector rounded the midpoint of integer
 timestamps to a double

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 3befbe5..456fbbd 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    T midpoint = static_cast<T>(_convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2);
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
-- 
2.43.0


From 8e284b7d175018d40e9c7ebd1a34dde7aed5208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 13/40] fix: TimestampCorrector overflowed on integer
 nanosecond timestamps

---
 .../implementation/TimestampCorrector.hpp     | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 456fbbd..874f0d4 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -1,6 +1,23 @@
+#include <type_traits>
+
 namespace sm {
 namespace timing {
-    
+
+namespace detail {
+/// The type to multiply time differences in. In 64-bit nanoseconds the product of
+/// two differences of about three seconds would already overflow.
+template<typename T, bool IsIntegral = std::is_integral<T>::value>
+struct TimeProduct { typedef T type; };
+template<typename T>
+struct TimeProduct<T, true> {
+#ifdef __SIZEOF_INT128__
+  __extension__ typedef __int128 type;
+#else
+  typedef long double type;
+#endif
+};
+} // namespace detail
+
 template<typename T>
 TimestampCorrector<T>::TimestampCorrector() : _midpointSegmentIndex(0u) {}
 
@@ -162,9 +179,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  typedef typename detail::TimeProduct<T>::type product_t;
+  const product_t determinant = static_cast<product_t>(v1.x) * static_cast<product_t>(v2.y)
+                              - static_cast<product_t>(v1.y) * static_cast<product_t>(v2.x);
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= static_cast<product_t>(0);
 }
 
 } // namespace timing
-- 
2.43.0


From d5cddd17be0e4c11af77a2a4f238268a11f95177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:06 +0000
Subject: [PATCH 14/40] fix: HashId::fromHexString accepted signs, blanks and
 prefixes and threw on other non-hexadecimal text

---
 sm_common/include/sm/hash_id.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..c65499f 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -77,6 +77,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 348a51add305d81c351954620b8618f4ec2a4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 15/40] fix: sm::round was off by one for large odd numbers and
 just below one half, sm::lrint truncated to int

---
 sm_common/include/sm/round.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..50f4f2c 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,36 +1,38 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number);
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<int>( sm::round(number) );
     }
 
     inline int rint(float number)
     {
-        return static_cast<long int>( round(number) );
+        return static_cast<long int>( sm::round(number) );
     }
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( sm::round(number) );
     }
 
     inline long int lrint(float number)
     {
-        return static_cast<long int>( round(number) );
+        return static_cast<long int>( sm::round(number) );
     }
     
 } // namespace sm
-- 
2.43.0


From a38767446fb0783c820deee552dccf2bfbc1e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 16/40] fix: solveQuadratic returned not-a-number for the
 double root zero

---
 sm_common/include/sm/maths.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..20fcbf8 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,12 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    // b == 0 and c == 0: zero is a double root
+    if(n == 0.0)
+      {
+	return std::make_pair(0.0,0.0);
+      }
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From 27e0dc6dd35b7ded7a055c03c19d3ec5b2bd2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 17/40] fix: sm::replace and sm::replace_reverse looped forever
 for equal characters and skipped characters at the front

---
 sm_common/include/sm/string_routines.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..38900ee 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -15,12 +15,10 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -33,12 +31,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From 72f5b3464e520eb0baa73e15031a73d0a8213f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 18/40] fix: listing the children of a property tree without
 implementation dereferenced a null pointer

---
 sm_property_tree/src/PropertyTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_property_tree/src/PropertyTree.cpp b/sm_property_tree/src/PropertyTree.cpp
index 56def5b..2769455 100644
--- a/sm_property_tree/src/PropertyTree.cpp
+++ b/sm_property_tree/src/PropertyTree.cpp
@@ -162,6 +162,7 @@ namespace sm {
   }
 
   std::vector<ConstKeyPropertyTreePair> ConstPropertyTree::getChildren() const {
+    SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
     std::vector<ConstKeyPropertyTreePair> cchildren;
     auto children = _imp->getChildren(_namespace);
     cchildren.reserve(children.size());
@@ -172,6 +173,7 @@ namespace sm {
   }
 
   std::vector<KeyPropertyTreePair> PropertyTree::getChildren() const {
+    SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
     return _imp->getChildren(_namespace);
   }
   
-- 
2.43.0


From d00d392f552e12f1a94714308482c8e938d55909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 19/40] fix: listing the children of a property tree split
 namespaces at dots as well

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..4810f95 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 31c94da2bb99b2040fe5bf3d828c2c9adbab2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 20/40] fix: merging property trees split key names at dots

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 4810f95..dbc2ba5 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -288,7 +288,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -308,7 +308,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From 59891da0c06802fc46b97aaa6747cfc111b30cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 21/40] fix: a prefix-adding value store read an uninitialised
 flag in hasKey and getChild

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 0f1ce5cbc032f6ebef845d153842f2c76985d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 22/40] fix: children of a prefix-removing value store looked
 up the wrong keys

---
 sm_value_store/src/PrefixedValueStore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..dd6dd9e 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -33,7 +33,11 @@ KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
     if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
       return KeyValueStorePair(key, vs_);
     }
-    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
+    // below a removed prefix the remaining key lies in the underlying store itself, so it has to be added from there on
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, PrefixMode::ADD, prefixedKey));
+  } else if(prefix_.compare(0, key.size() + 1, key + "/") == 0) {
+    // the key consists of the leading components of the prefix: only the rest of it is left to be removed
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, PrefixMode::REMOVE, prefix_.substr(key.size() + 1, prefix_.size() - key.size() - 2)));
   } else {
     return KeyValueStorePair(key, ValueStoreRef());
   }
-- 
2.43.0


From 3d2320ebcd433c8d855b75d07b53fc8f851a368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 23/40] fix: a layered value store without layers ignored the
 given default

---
 sm_value_store/src/ValueStore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..17bc06a 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,9 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ // there is no layer at all
+ if(def) return *def;
+ SM_THROW(std::runtime_error, "Layered value store without layers has no value for '" << path << "'");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From 57b4b40f73d45323d2d346624da4e3e365dacd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 24/40] fix: the alert argument of an absent deprecated path
 was treated as a path candidate

---
 sm_value_store/src/ValueStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index 17bc06a..ee412b8 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -143,6 +143,7 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
         }
         return pp;
       }
+      i++; // the next entry is the alert's argument, not a path candidate
     } else if (hasKey(p)) {
       return p;
     }
-- 
2.43.0


From e11d573ba7516aec31096536bd6736dd3467bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 25/40] fix: a prefix-removing value store ignored the given
 default and disagreed with its own hasKey

---
 .../sm/value_store/PrefixedValueStore.hpp     |  2 ++
 sm_value_store/src/PrefixedValueStore.cpp     | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
index 3fac0b8..df105ee 100644
--- a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
@@ -26,6 +26,8 @@ class PrefixedValueStore : public ValueStore {
   std::vector<KeyValueStorePair> getChildren() const override;
   bool isChildSupported() const override;
  private:
+  template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+  ValueHandle<V> getWithPrefix(const std::string & path, boost::optional<V> def) const;
   std::string applyPrefix(const std::string & path, bool* isPossiblePtr = nullptr) const;
   ValueStore::SharedPtr vs_;
   std::string prefix_;
diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index dd6dd9e..1243ec4 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -8,17 +8,30 @@
 namespace sm {
 namespace value_store {
 
+template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+ValueHandle<V> PrefixedValueStore::getWithPrefix(const std::string & path, boost::optional<V> def) const {
+  bool isPossible;
+  auto && prefixedPath = applyPrefix(path, &isPossible);
+  if(isPossible) {
+    return ((&(*vs_))->*Func)(prefixedPath, def);
+  }
+  if(def) {
+    return *def;
+  }
+  SM_THROW(std::runtime_error, "path does not contain the prefix (" << prefix_ << "): " << path);
+}
+
 ValueHandle<bool> PrefixedValueStore::getBool(const std::string & path, boost::optional<bool> def) const {
-  return vs_->getBool(applyPrefix(path), def);
+  return getWithPrefix<bool, &ValueStore::getBool>(path, def);
 }
 ValueHandle<int> PrefixedValueStore::getInt(const std::string & path, boost::optional<int> def) const {
-  return vs_->getInt(applyPrefix(path), def);
+  return getWithPrefix<int, &ValueStore::getInt>(path, def);
 }
 ValueHandle<double> PrefixedValueStore::getDouble(const std::string & path, boost::optional<double> def) const {
-  return vs_->getDouble(applyPrefix(path), def);
+  return getWithPrefix<double, &ValueStore::getDouble>(path, def);
 }
 ValueHandle<std::string> PrefixedValueStore::getString(const std::string & path, boost::optional<std::string> def) const {
-  return vs_->getString(applyPrefix(path), def);
+  return getWithPrefix<std::string, &ValueStore::getString>(path, def);
 }
 bool PrefixedValueStore::hasKey(const std::string& path) const {
   bool isPossible;
-- 
2.43.0


From d580ffed03c1b6449ea9ac61f2c2fce7f26d713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 26/40] fix: joining or destroying a job queue could lose the
 wake-up, leave workers behind, or dereference a null pool

stop() changed the flag without the mutex, so a worker between its check and
its wait missed the notification and join() hung; the destructor did not wait
for workers that had not reached exec_loop(); join() without start() crashed.
---
 sm_boost/src/JobQueue.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..0598432 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,7 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        join(); // all threads must exit, including those that have not reached exec_loop() yet
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
@@ -30,14 +26,18 @@ namespace sm {
     }
 
     void JobQueue::stop() {
-        killWorkers_ = true;
+        boost::mutex::scoped_lock lck(mutex_); // a worker must not miss this between its check and its wait
+        killWorkers_ = true; // flag to tell thread to die
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        if(work_)
+        {
+            work_->join_all();
+        }
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From a617e6a8f74a0d48ae661b1c8d57ecaa6dd47e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 27/40] fix: enabling or disabling a named stream could
 deadlock with a log statement's first use

The two took the named stream lock and the log locations lock in opposite orders.
---
 sm_logging/src/LoggingGlobals.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..cbdb582 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -105,17 +105,23 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // The log locations lock is always taken before the named stream lock.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
+            bool changed = false;
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                changed = _namedStreamsEnabled.erase(name) > 0;
+            }
+            if(changed)
             {
-                _namedStreamsEnabled.erase(it);
+                // The log locations lock is always taken before the named stream lock.
                 notifyLoggerLevelsChanged();
             }
         }
-- 
2.43.0


From 6865a956ab1646bb45a9faf2f1d2ae6a29439a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 28/40] fix: after a logger threw something else than a
 std::exception its thread could not log any more

---
 sm_logging/src/LoggingGlobals.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index cbdb582..ad646b9 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -198,6 +198,11 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
+            catch (...)
+            {
+                _printing_thread_id = boost::thread::id();
+                throw;
+            }
                     
 
             _printing_thread_id = boost::thread::id();
@@ -231,6 +236,11 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
+            catch (...)
+            {
+                _printing_thread_id = boost::thread::id();
+                throw;
+            }
                     
             _printing_thread_id = boost::thread::id();
         }
-- 
2.43.0


From 00fd40c8f51b2fa53a771b15f59a366869d8af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 29/40] fix: matrix archive entries could keep a stale string,
 survive clear, or get an invalid name

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..b3c2162 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -133,6 +133,7 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
+      m_strings.erase(vectorName);
       m_values[vectorName] = vector;
     }
 
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..00380e4 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,12 +32,13 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
   {
     validateName(scalarName,SM_SOURCE_FILE_POS);
+    m_strings.erase(scalarName);
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
@@ -65,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
@@ -73,6 +75,7 @@ namespace sm
       }
     }
 
+    m_strings.erase(matrixName);
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
     return val;
-- 
2.43.0


From 8b63157b393fa68477c684560621cebd90c90846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 30/40] fix: appending a matrix archive to a file wrote nothing

---
 sm_matrix_archive/src/MatrixArchive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 00380e4..9038813 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -439,10 +439,15 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From b141e3cbe177358a5e958cd869525d66a62f582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 31/40] fix: saving a matrix archive reported success when the
 file could not be written

---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 9038813..a37f990 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -369,6 +369,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
-- 
2.43.0


From 362bb03c7416978cfa3dc8061a730ab84bd730b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 32/40] fix: loading a truncated or oversized matrix archive
 gave garbage instead of an error

---
 sm_matrix_archive/src/MatrixArchive.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index a37f990..e3b094a 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -221,7 +221,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = static_cast<std::streamsize>(matrix.size()) * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -243,13 +243,15 @@ namespace sm
     // 4 byte columns
     boost::uint32_t cols;
     fin.read(reinterpret_cast<char *>(&cols),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a matrix block");
     
     // data
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = static_cast<std::streamsize>(matrix.size()) * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a matrix block");
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -274,10 +276,12 @@ namespace sm
     // 4 byte rows
     boost::uint32_t stringSize;
     fin.read(reinterpret_cast<char *>(&stringSize),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a string block");
 
     // data
     stringValue.resize(stringSize);
     fin.read(&stringValue[0], stringSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a string block");
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
@@ -298,7 +302,8 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
-    name = nameBuffer;
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within the name of a block");
+    name.assign(nameBuffer, s_fixedNameSize);
     boost::trim(name);
 
     switch(blockType){
@@ -312,6 +317,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
@@ -428,9 +434,11 @@ namespace sm
         validateName(name,SM_SOURCE_FILE_POS);
         switch(blockType){
           case MATRIX:
+            m_strings.erase(name);
             m_values[name] = matrix;
             break;
           case STRING:
+            m_values.erase(name);
             m_strings[name] = valueString;
             break;
         }
-- 
2.43.0


From a2d16278dc05847f8b134f2d529e9b79749a7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 33/40] fix: loading an empty matrix with a fixed number of
 rows accessed its first element

---
 sm_eigen/include/sm/eigen/serialization.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..c1ad6a1 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,7 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
 
     }
 
-- 
2.43.0


From 2d97787fae98c49c96da761311e42153e200a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 34/40] fix: the square root of a semidefinite matrix could be
 NaN

---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..ed0140f 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -33,7 +33,8 @@ namespace sm {
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
-            result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
+            // Rounding can take the zeros on the diagonal of a semidefinite matrix below zero.
+            result *= ldlt.vectorD().cwiseMax(typename DERIVED2::Scalar(0)).cwiseSqrt().asDiagonal();
             
             //return ldlt.info();
             
-- 
2.43.0


From 1542fe924c8a3b7eeea5f19eaae2a62211091d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 35/40] fix: ptimeToTimeval returned nothing and was defined in
 every file that includes it

---
 sm_boost/include/sm/boost/ptime.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..bb6569a 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -14,9 +14,8 @@ namespace sm {
         timeval tv;
         tv.tv_sec = duration.total_seconds();
         tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+
+        return tv;
     }
 
     
-- 
2.43.0


From cb9d97205f535b143a975dd9d23645cd8d7ff185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 36/40] fix: randLU could return the excluded upper bound

---
 sm_random/src/random.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..44a0ca3 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -1,4 +1,5 @@
 #include <sm/random.hpp>
+#include <cmath>
 #include <boost/random/mersenne_twister.hpp>
 #include <boost/random/linear_congruential.hpp>
 #include <boost/random/uniform_int.hpp>
@@ -77,7 +78,11 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  const double value = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  // Rounding may take the sum to the excluded bound.
+  if(lowerBoundInclusive < upperBoundExclusive && value >= upperBoundExclusive)
+    return std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  return value;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
-- 
2.43.0


From 00ad257c3eba9aea7a79b5365f97f024ae1c4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 37/40] fix: randLUi overflowed for ranges beyond the range of
 int

---
 sm_random/src/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 44a0ca3..d5ec807 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -87,7 +87,8 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  // The difference and the offset may both exceed the range of an int.
+  return (int)(std::floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 1c41525be8471e7374458884c60b4414df09c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:55 +0000
Subject: [PATCH 38/40] fix: SM_ASSERT_CMD negates its whole condition, not
 only the first operand

---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From cce9b931acc4102a255ebf9508615e3c0d3454ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:06 +0000
Subject: [PATCH 39/40] fix: resolve ./ and ../ next to an including file named
 without a directory, not at the file system root

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..ab86e32 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -121,7 +121,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
       return path;
     } else {
       std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
-      std::string candidate = dir + '/' + path;
+      std::string candidate = dir.empty() ? path : dir + '/' + path;
       if (fileExists(candidate)) {
         return candidate;
       }
-- 
2.43.0


From c66f9d6c1aa7e15b912e69d3dbf91f5765517c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:01 +0000
Subject: [PATCH 40/40] fix: saving an object to a file reported success when
 the file could not be written

---
 sm_boost/include/sm/boost/serialization.hpp | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..c5fbfd3 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -44,9 +48,13 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+
+                oa << object;
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -67,14 +75,17 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
 
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.close();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
-- 
2.43.0

