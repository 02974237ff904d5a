#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)
K = "sm_kinematics/src/"
KI = "sm_kinematics/include/sm/kinematics/"

prop("K01", "Quaternion and rotation-matrix forms of a rotation agree and round-trip",
 "Every unit quaternion converts to a proper rotation matrix (orthonormal rows, determinant one), and converting that matrix back returns the same quaternion up to overall sign, with a non-negative scalar part, whichever component is largest. The quaternion scalar/vector part accessors return those parts.",
 ["inputs"], "every real unit quaternion (all four branches of the matrix-to-quaternion conversion), in exact real arithmetic",
 "Tests convert a handful of random quaternions; the branch taken depends on which component dominates, and the rest of the 3-sphere is never visited.",
 [K+"quaternion_algebra.cpp"], [("quat2r / r2quat", K+"quaternion_algebra.cpp")], ["return values of quat2r, r2quat, qeps, qeta"])
prop("K02", "Quaternion product, inverse, rotation and update form one consistent algebra",
 "The quaternion product is associative, has the identity quaternion as neutral element and the quaternion inverse as inverse for unit quaternions, and the left/right product matrices and the direct product functions all compute that same product. The product of quaternions corresponds to the product of their rotation matrices, rotating a vector by a quaternion equals multiplying by its rotation matrix, and the incremental update equals left multiplication by the quaternion of the increment's axis-angle vector.",
 ["inputs"], "all real quaternions (unit where inverse or rotation is involved), all real 3-vectors, in exact real arithmetic",
 "These are algebraic identities over an 8 to 12 dimensional real space; tests compare a few random points.",
 [K+"quaternion_algebra.cpp"], [("qplus/qoplus/quatPlus/quatOPlus", K+"quaternion_algebra.cpp"), ("quatInv/invertQuat/quatRotate/updateQuat", K+"quaternion_algebra.cpp")])
prop("K03", "Axis-angle vectors and unit quaternions convert into each other exactly",
 "Converting an axis-angle vector to a quaternion gives a unit quaternion whose vector part points along the vector with half its angle, and converting a unit quaternion to an axis-angle vector gives a finite vector whose quaternion is the original one, for tiny, moderate and near-full-turn rotations alike. In the small-angle regime the returned values differ from the exact ones by no more than 1e-12 relative error.",
 ["inputs"], "every axis-angle vector of norm up to 2*pi and every unit quaternion, including the identity and its negative, in exact real arithmetic for the closed-form branches and with a proven truncation bound for the series branches",
 "The series branches cover angles below about 1e-4, where tests sample only a few values and a wrong coefficient hides below their tolerance.",
 [K+"quaternion_algebra.cpp", KI+"quaternion_algebra.hpp"], [("axisAngle2quat", K+"quaternion_algebra.cpp"), ("quat2AxisAngle, arcSinXOverX", K+"quaternion_algebra.cpp")])
prop("K04", "The exponential and logarithm Jacobians of rotations are true derivatives",
 "The derivative matrices of the rotation exponential and logarithm are mutually inverse, agree with the analytic derivative of the quaternion exponential and logarithm, and have series branches that match the closed form within 1e-9. The quaternion rate matrices that map angular increments to quaternion increments and back are each other's inverse on the unit sphere.",
 ["inputs"], "every axis-angle vector of norm in (0, 2*pi) and every unit quaternion away from the cut locus, in exact real arithmetic, with proven truncation bounds on the series branches",
 "Tests compare with finite differences at random points with loose tolerances.",
 [K+"quaternion_algebra.cpp"], [("expDiffMat / logDiffMat / quatExpJacobian / quatLogJacobian / quatLogJacobian2", K+"quaternion_algebra.cpp"), ("quatJacobian / quatS / quatInvS", K+"quaternion_algebra.cpp")])
prop("K05", "Interpolation hits its end points and follows the shortest path",
 "Spherical interpolation between unit quaternions returns the end points at (and beyond) parameters 0 and 1, always returns a unit quaternion in between, and moves along the shorter arc: the relative rotation from the start is the given fraction of the full relative rotation, with the second quaternion's sign flipped if that is closer (opposite rotations half a turn apart, where both arcs are equally long, may use either). Linear interpolation returns the convex combination of equally long vectors and rejects vectors of different length; interpolating whole transformations combines both.",
 ["inputs"], "all pairs of unit quaternions, all real interpolation parameters, vectors up to length 3, in exact real arithmetic",
 "No existing test covers interpolation.",
 [K+"quaternion_algebra.cpp", K+"Transformation.cpp"], [("qslerp / lerp", K+"quaternion_algebra.cpp"), ("interpolateTransformations / slerpTransformations", K+"Transformation.cpp")])
prop("K06", "Elementary, roll-pitch-heading and axis-angle rotation matrices are consistent",
 "Elementary rotations about each axis, roll-pitch-heading matrices and axis-angle matrices are proper rotations for every (positive, negative or zero) angle, compose as documented (heading times pitch times roll, transposes for the passive convention) and agree with the quaternion of the same axis-angle vector. Extracting roll-pitch-heading angles from a matrix and rebuilding it returns the same matrix, and the cross-product matrix of a vector computes the cross product.",
 ["inputs"], "all real angles and vectors (extraction: pitch strictly inside (-90, 90) degrees), in exact real arithmetic",
 "Tests cover a few random angles; negative angles to the axis/angle form and the passive variants are not covered.",
 [K+"rotations.cpp", KI+"rotations.hpp"], [("Rx/Ry/Rz/Cx/Cy/Cz, rph2R/R2rph/rph2C/C2rph", K+"rotations.cpp"), ("axisAngle2R, R2AxisAngle, crossMx", K+"rotations.cpp")])
prop("K07", "Every rotation parameterisation is a faithful chart with correct derivatives",
 "For each rotation parameterisation (the Euler-angle sequences, rotation vector, Euler-Rodriguez), any parameters give a proper rotation matrix, and extracting parameters from that matrix and converting back gives the same matrix without producing invalid numbers. The rate matrix and its inverse are inverses of each other, and the angular velocity and the rotated-vector Jacobian equal the true derivatives of the rotation matrix.",
 ["inputs"], "all real parameters away from the documented singularities (gimbal lock, half/full turn), all rates and vectors, in exact real arithmetic",
 "Tests check random parameters with finite differences.",
 [K+"EulerAnglesZYX.cpp", K+"EulerAnglesYawPitchRoll.cpp", K+"EulerAnglesZXY.cpp", K+"EulerRodriguez.cpp", K+"RotationVector.cpp"],
 [("parametersToRotationMatrix / rotationMatrixToParameters", K), ("parametersToSMatrix / parametersToInverseSMatrix", K), ("angularVelocityAndJacobian", K)])
prop("K08", "Homogeneous-transform helpers invert, compose and differentiate correctly",
 "The inverse of a rigid 4x4 transform is its two-sided inverse, splitting and assembling a transform from rotation and translation are inverse operations, and converting a transform to six Euler pose parameters and back returns the same transform. The 4x4, 4x6 and 6x6 operators of small motions satisfy their defining identities, and the returned Jacobians of transformed points are the derivatives with respect to that small motion.",
 ["inputs"], "all rigid transforms (rotation from any unit quaternion, any translation), all homogeneous points and small motions, in exact real arithmetic",
 "Tests use random transforms and finite differences.",
 [K+"transformations.cpp"], [("inverseTransform, rt2Transform, toTEuler/fromTEuler", K+"transformations.cpp"), ("boxPlus/boxMinus/boxTimes, (inverse)transformationAndJacobian", K+"transformations.cpp")])
prop("K09", "Rigid transformation objects form a group acting on points",
 "Composition of transformation objects equals the product of their matrices, inversion gives the two-sided inverse, and acting on (or only rotating) Euclidean, homogeneous and point-object operands equals multiplying by the matrix (or its rotation part). Constructing or setting from a matrix and reading the matrix, rotation, translation and quaternion back is consistent, and the minimal update applies the small motion that its sensitivity matrix describes.",
 ["inputs"], "all unit quaternions, translations, points and small updates, in exact real arithmetic",
 "Tests compare random instances.",
 [K+"Transformation.cpp"], [("Transformation", K+"Transformation.cpp")])
prop("K10", "Uncertain transformations propagate covariance to first order exactly",
 "Composing, inverting and applying uncertain transformations gives the same mean as the certain operation and the covariance obtained by the first-order propagation through that operation's Jacobian, with a certain operand contributing zero covariance. The uncertainty can be set and read back in both of its representations, stays symmetric, and survives copying and conversion.",
 ["inputs"], "all unit quaternions, translations, and symmetric 6x6 covariances, in exact real arithmetic",
 "Tests check random instances against numerical propagation with loose tolerances.",
 [K+"UncertainTransformation.cpp"], [("UncertainTransformation operators, UOplus/setUOplus", K+"UncertainTransformation.cpp")])
prop("K11", "Homogeneous points behave like the Euclidean points they represent",
 "Building a homogeneous point from Euclidean or homogeneous coordinates and reading it back gives the same Euclidean point, addition, subtraction and normalisation commute with the conversion to Euclidean coordinates for any non-zero weights, and the small-update moves the coordinates by its Jacobian. The Jacobian of the conversion is its derivative.",
 ["inputs"], "all homogeneous 4-vectors with non-zero weight, all Euclidean points and updates, in exact real arithmetic",
 "Tests use weight-one points almost exclusively.",
 [K+"HomogeneousPoint.cpp", K+"homogeneous_coordinates.cpp"], [("HomogeneousPoint", K+"HomogeneousPoint.cpp"), ("toHomogeneous/fromHomogeneous/Plus/Minus", K+"homogeneous_coordinates.cpp")])
prop("K12", "Uncertain points and vectors propagate covariance to first order exactly",
 "For uncertain homogeneous points, the Euclidean mean and covariance of a sum or difference are the sum or difference of the means and the sum of the covariances, normalising does not change them, and the uncertainty can be set and read back in each of its representations. Transforming an uncertain point propagates the point's and the transformation's covariance to first order.",
 ["inputs"], "all homogeneous points with non-zero weight, all symmetric covariances, all rigid transforms, in exact real arithmetic",
 "Tests use weight-one points, where missing Jacobians are the identity.",
 [K+"UncertainHomogeneousPoint.cpp", K+"Transformation.cpp", K+"UncertainTransformation.cpp"], [("UncertainHomogeneousPoint operators", K+"UncertainHomogeneousPoint.cpp")])
prop("K13", "Uncertain vectors do linear Gaussian arithmetic",
 "Adding or subtracting vectors with covariance adds covariances, scaling by a scalar or transforming by a matrix scales the covariance quadratically, certain operands contribute no covariance, and scalar products and normalisation propagate both operands' covariance to first order. Mean and covariance are readable exactly as they were set.",
 ["inputs"], "all real vectors and symmetric covariances of dimensions 1 to 4, in exact real arithmetic",
 "There is no test of this class in the repository.",
 [KI+"UncertainVector.hpp", KI+"implementation/UncertainVector.hpp"], [("UncertainVector", KI+"implementation/UncertainVector.hpp")])
prop("K14", "Angle wrapping and unit conversion preserve the angle",
 "Wrapping an angle returns a value within half a turn of zero that differs from the input by a whole number of turns, and degree/radian conversions are mutually inverse linear maps with 180 degrees equal to pi.",
 ["inputs"], "all finite angles (wrapping: magnitude up to 1e6), in exact real arithmetic",
 "No test covers angle wrapping.",
 [K+"rotations.cpp", KI+"rotations.hpp"], [("angleMod, deg2rad, rad2deg", K+"rotations.cpp")])

T = "sm_timing/"
prop("T01", "Nanosecond time conversions are lossless where the format allows it",
 "Converting between nanosecond counts and system-clock time points returns the same instant, and converting a nanosecond count to floating-point seconds and back returns the original count within the resolution of a double for every count in the supported range. The invalid-time marker is recognised as invalid and every other time as valid.",
 ["inputs"], "all 64-bit nanosecond counts (seconds conversion: |t| < 2^53 ns exactly as rounding allows), bit-precise IEEE arithmetic",
 "The tests check one or two current times.",
 [T+"src/NsecTimeUtilities.cpp", T+"include/sm/timing/NsecTimeUtilities.hpp"], [("nsecToChrono/chronoToNsec, nsecToSec/secToNsec, isValid", T+"src/NsecTimeUtilities.cpp")])
prop("T02", "Clock-offset correction maintains a valid lower convex hull of all samples",
 "After any sequence of (remote, local) time samples, the corrector's stored points are strictly increasing in remote time, form a convex lower boundary no sample lies below, and the corrected local time of any remote time is the value of one of that boundary's segments, in particular never later than the sampled local time for the latest sample. Slope, offset and span describe that same segment and boundary, and out-of-order or insufficient data is rejected with an error instead of an invalid access.",
 ["histories", "inputs"], "all sample histories up to the stated length with arbitrary increasing remote times and arbitrary local times",
 "Tests feed one noisy linear history.",
 [T+"include/sm/timing/implementation/TimestampCorrector.hpp"], [("TimestampCorrector::correctTimestamp/getLocalTime", T+"include/sm/timing/implementation/TimestampCorrector.hpp")])
prop("T03", "Timers account every start/stop interval exactly once",
 "A timer that is started and stopped records exactly the elapsed clock interval once under its tag; discarded timers record nothing, repeated stops are rejected, and sums, counts, minima, maxima and means reported per tag equal those of the recorded intervals. The same tag always maps to the same handle and different tags to different handles, also when several threads register tags and measure at once, and no interval of any thread is lost; a duration is printed as hours, minutes and seconds that add up to it.",
 ["histories", "inputs", "schedules"], "all sequences of timer operations up to the stated length, arbitrary clock readings; interleavings of two threads that register tags and measure, within two preemptions at locks and memory requests",
 "Tests do not cover the timer; the clock is nondeterministic.",
 [T+"src/Timer.cpp", T+"include/sm/timing/Timer.hpp"], [("Timer/Timing", T+"src/Timer.cpp")])

C = "sm_common/include/sm/"
prop("C01", "Identifiers round-trip through text and keep a consistent order and hash",
 "A 128-bit hash identifier survives conversion to hexadecimal text and back, text of the wrong length or with any non-hexadecimal character is refused leaving the identifier untouched, equality, ordering and hashing agree with each other as a strict total order, and an identifier is valid exactly when it is not the cleared (all-zero) one. Numeric identifiers compare, increment, hash and print exactly like the number they wrap.",
 ["inputs"], "all 128-bit identifiers, all text of every length up to 69 bytes with arbitrary bytes (bounded), all 64-bit numeric ids",
 "Tests use a few random identifiers and one or two malformed strings.",
 [C+"hash_id.hpp", C+"Id.hpp"], [("HashId", C+"hash_id.hpp"), ("SM_DEFINE_ID", C+"Id.hpp")])
prop("C02", "Tolerant comparisons, rounding, sign and quadratic roots meet their definitions",
 "For any two finite numbers the tolerant comparisons are mutually exclusive (never both definitely less and definitely greater, never approximately equal and definitely different beyond the tolerance) and symmetric, and rounding returns the nearest integer. The real roots reported for a quadratic are roots and are complete, complex discriminants are reported as having none, and no quadratic (non-zero leading coefficient) produces invalid numbers, double roots and roots at zero included.",
 ["inputs"], "all finite doubles for comparison and rounding (bit-precise), all real coefficients for quadratics (exact real arithmetic)",
 "Tests check individual values.",
 [C+"numerical_comparisons.hpp", C+"round.hpp", C+"maths.hpp"], [("approximatelyEqual/definitelyLessThan/definitelyGreaterThan", C+"numerical_comparisons.hpp"), ("round/rint", C+"round.hpp"), ("solveQuadratic/sgn", C+"maths.hpp")])
prop("C03", "String helpers substitute, pad and format exactly and always terminate",
 "Replacing a character changes every occurrence except the first N (counted from the left, or from the right for the reverse form) and nothing else, padding yields the requested width with the value right-aligned, a non-empty path ends in exactly the slash that was there or one added slash, numbers are written in the requested notation, precision and width, and environment substitution replaces exactly the delimited names by their values, leaving names that are unset or unterminated as they are. All of them terminate on every input.",
 ["inputs"], "all byte strings up to the stated length and all limits and delimiters within the bounds, arbitrary environment contents",
 "There are no tests for these helpers.",
 [C+"string_routines.hpp"], [("replace/replace_reverse/leading_pad/ensureTrailingBackslash/substituteEnvVars", C+"string_routines.hpp")])
prop("C04", "Assertion macros throw exactly when their condition fails",
 "Each checked assertion (true, zero, comparison, sign, near-equality, range) throws the requested exception type if and only if its documented condition is violated, including at the boundary values (and, for equality, near-equality, finiteness and not-a-number assertions, for not-a-number operands), evaluates its operand once, and otherwise has no effect. The debug variants behave identically when debugging is enabled and do nothing in release builds, assertion messages name the source location, and the matrix finiteness assertions fail exactly when some coefficient is not finite, naming it.",
 ["inputs"], "all integer and floating-point operands (bit-precise, NaN and infinities included)",
 "Tests assert one passing and one failing value per macro.",
 [C+"assert_macros.hpp"], [("SM_ASSERT_*, SM_THROW", C+"assert_macros.hpp")])
prop("C05", "Deep comparison treats values, pointers and shared pointers as equal contents",
 "The deep-equality helper returns true for two objects exactly when their contents are equal: plain values by value, pointers and shared pointers by null-ness and pointee, and class members through the class's own comparison. It is symmetric, reflexive, never dereferences a null pointer, and every differing member makes it false.",
 ["inputs"], "all combinations of null/non-null/aliasing pointers and arbitrary member values",
 "Tests cover a few object pairs.",
 [C+"serialization_macros.hpp"], [("SM_CHECKSAME / SM_CHECKMEMBERSSAME", C+"serialization_macros.hpp")])

prop("V02", "A value store made from a text or a file holds exactly its values, and saving keeps them",
 "A value store made from a text or from a file in any of the supported formats has every key of it with its value and no other key. Saving such a store, also after values were updated or added, writes a file from which an equal store is loaded, whichever supported format its name asks for, and the file it was loaded from stays as it was unless it is the one written; a file that was replaced is read anew. Stores that do not refer to a tree say that they cannot be saved, and saving them, like loading or saving under a name without a known extension or loading a missing file, is refused. A default-constructed reference is a fresh empty store of its own.",
 ["inputs", "histories"], "stores with any of the listed keys and arbitrary values, every pair of formats",
 "The test saves one tree as XML and reads two values back.",
 ["sm_value_store/src/PropertyTreeValueStore.cpp"], [("ValueStoreRef::fromString/fromFile/canSave/saveTo/asExtendible", "sm_value_store/src/PropertyTreeValueStore.cpp")])
prop("K15", "Random rotations, transformations, points and vectors are valid whatever is drawn",
 "Whatever numbers the generators draw (except draws that leave a direction undefined), a random quaternion has unit norm, a random transformation is a rotation and a bounded translation, and one with given limits is not translated further and not rotated by more than asked for. The uncertainty of a random uncertain transformation, point, homogeneous point or vector is symmetric with non-negative variances.",
 ["inputs"], "every draw of the random generators, limits within the stated ranges; exact real arithmetic",
 "Tests use random objects as inputs and never look at them.",
 ["sm_kinematics/src/Transformation.cpp", "sm_kinematics/src/UncertainTransformation.cpp", "sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/src/HomogeneousPoint.cpp", "sm_kinematics/src/UncertainHomogeneousPoint.cpp", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp"], [("quatRandom", "sm_kinematics/src/quaternion_algebra.cpp"), ("Transformation::setRandom", "sm_kinematics/src/Transformation.cpp"), ("UncertainTransformation::setRandom", "sm_kinematics/src/UncertainTransformation.cpp")])
prop("E05", "An object saved to a file is what is loaded from it, and an incomplete save is reported",
 "An object saved in binary, text or XML form and loaded again by the matching function is identical, whatever the file or the object held before; the file is replaced, and other files are not touched. The top-level XML element has the name asked for, or the usual one for an empty name, and a file with another name or of another format is refused. A missing or empty file is reported and leaves the object unchanged, a device without room for the file is reported, and an incomplete file is refused. Each class keeps the serialisation version it declares.",
 ["inputs", "faults"], "objects with nested versioned parts and arbitrary contents, every pair of formats, devices with room for 0 to 33 bytes",
 "Tests save and load one point on a device with room.",
 ["sm_boost/include/sm/boost/serialization.hpp"], [("save/load, save_txt/load_txt, save_xml/load_xml, SM_BOOST_CLASS_VERSION*", "sm_boost/include/sm/boost/serialization.hpp")])
prop("E04", "The matrix comparison helpers pass exactly what is close enough",
 "The matrix comparison helpers report a failure exactly when the sizes differ or some coefficient differs by more than the tolerance (or at all, or by more than the percentage, or is not finite, according to the helper), wherever the coefficient is; they read nothing outside the matrices. The relative comparison holds a finite number equal to itself, tells opposite numbers apart, and reports its error when it refuses. A random covariance is symmetric and positive definite.",
 ["inputs"], "matrices up to 3x2 with arbitrary coefficients at every position, all pairs of four sizes",
 "The helpers are what the tests trust; nothing tests them.",
 ["sm_eigen/include/sm/eigen/gtest.hpp"], [("assertNear/expectNear/assertEqual/assertFinite/compareRelative/randomCovariance", "sm_eigen/include/sm/eigen/gtest.hpp")])
prop("B01", "The job queue runs every scheduled job exactly once and never loses a wake-up",
 "Every job scheduled on the worker pool is executed exactly once by some worker (unless the pool is stopped first), waiting for an empty queue returns only when no job is queued or running, and stopping or joining always returns under every thread schedule. Results and completion are visible to the caller through the future, and at most the configured number of workers runs jobs at the same time.",
 ["schedules", "histories"], "all interleavings at synchronisation points and shared-flag accesses for up to 2 workers and 2 jobs",
 "Tests run one schedule the operating system happens to pick.",
 ["sm_boost/src/JobQueue.cpp", "sm_boost/include/sm/boost/JobQueue.hpp"], [("JobQueue", "sm_boost/src/JobQueue.cpp")])

prop("M01", "A matrix archive maps each valid name to exactly the last value stored",
 "Storing a matrix, vector, scalar or string under a valid name makes exactly that value retrievable under that name, replaces whatever kind of value had the name before, and leaves all other names alone; clearing a name or the archive removes it. Names that are too long or contain forbidden characters, and look-ups of absent names or wrong kinds, are refused with an exception and change nothing.",
 ["histories", "inputs"], "all sequences of archive operations up to the stated length, arbitrary names up to the bound, matrices up to 2x2",
 "Tests store and reload one matrix.",
 ["sm_matrix_archive/src/MatrixArchive.cpp"], [("MatrixArchive set/get/clear/validateName", "sm_matrix_archive/src/MatrixArchive.cpp")])
prop("M02", "A saved matrix archive loads back identically and damage is detected",
 "Loading a file that was saved from an archive restores every name and value exactly, a subset of names can be written, and appending adds its entries to what the file already holds. A file that is cut at any byte loads without error exactly when the cut lies between two blocks; otherwise, and when a block marker, a size that then exceeds the file, or a name that then breaks the naming rules is damaged, loading is refused with an exception. A device that cannot take the whole file is reported, not ignored.",
 ["inputs", "crash_points"], "archives with up to two small entries with arbitrary contents, truncation at every byte and arbitrary corruption of single header bytes",
 "Tests reload one intact file.",
 ["sm_matrix_archive/src/MatrixArchive.cpp"], [("readMatrix/writeMatrix/load/save", "sm_matrix_archive/src/MatrixArchive.cpp")])

prop("P01", "Property look-ups resolve the qualified key and honour defaults",
 "A value stored under a key in a property tree, possibly through nested namespaces, is exactly what is read back under the same qualified key with the same type; a missing key or a value of the wrong type throws when no default is given, and with a default a missing key or a value of the wrong type yields that default (a missing key is then recorded with it). Existence checks and child listing agree with what can be read.",
 ["histories", "inputs"], "all set/get sequences up to the stated bound over a bounded family of keys and namespaces, arbitrary numeric and boolean values",
 "Tests read a small fixed tree.",
 ["sm_property_tree/src/PropertyTree.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"], [("PropertyTree::buildQualifiedKeyName", "sm_property_tree/src/PropertyTree.cpp"), ("BoostPropertyTreeImplementation get*/set*", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp")])
prop("P02", "Merging property trees overrides exactly the keys of the overriding tree",
 "Updating one tree with another leaves every key absent from the second unchanged and gives every key of the second its value; creating new keys happens exactly when requested and unknown keys are otherwise rejected or ignored as documented.",
 ["inputs", "histories"], "all pairs of trees over a bounded key family with arbitrary values and every merge option",
 "Tests merge two fixed trees.",
 ["sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_property_tree/src/BoostPropertyTree.cpp"], [("update/augment", "sm_property_tree/src/BoostPropertyTree.cpp")])
prop("P03", "A property tree read from text contains exactly the keys and values of the text",
 "Loading a text of comma-separated phrases (name=value, names joined by slashes, blocks in braces, nested in any mixture) gives a tree in which every key written in the text has exactly its value and nothing else exists, replacing what the tree held before; several texts load like their comma-joined concatenation. A text with unbalanced braces or with quotes is refused with an exception and leaves the tree as it was. Values and names may contain any printable characters except blanks and those with a meaning in the text (comma, slash, equals, braces, quotes, semicolon, hash, backslash).",
 ["inputs"], "all texts of bounded nesting and length, names and values arbitrary",
 "Tests load one fixed text.",
 ["sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_property_tree/src/BoostPropertyTree.cpp"], [("loadString", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp")])
prop("P04", "Configuration files are found and combined as documented",
 "A configuration file name is resolved in the documented order: an absolute name, or any name without search paths, as it is; a name starting with ./ or ../ next to the including file; otherwise the first existing one of all search paths and infixes in order, with the first place as fallback. Files of a list are merged in their order, later ones overriding earlier ones, and files marked update-only may change known keys but are refused (or, before anything is set, ignored with a warning) when they bring unknown ones. Parents named in a file are loaded before it and overridden by it, every file is loaded once so that circular parents end, a missing file or unknown extension is refused, and a file searched through an environment variable is the one in that directory.",
 ["inputs", "configurations", "faults"], "all subsets of existing candidate files, search paths, infixes, file lists and parent relations up to the stated sizes, arbitrary values",
 "Tests load two fixed files from the source tree.",
 ["sm_property_tree/src/BoostPropertyTreeLoader.cpp", "sm_property_tree/src/BoostPropertyTreeSupport.cpp", "sm_property_tree/include/sm/BoostPropertyTreeLoader.hpp"], [("resolveFullFilePath, parents, update-only", "sm_property_tree/src/BoostPropertyTreeLoader.cpp"), ("findFile", "sm_property_tree/src/BoostPropertyTreeSupport.cpp")])
prop("P05", "Vectors, quaternions and transformations configured in a property tree are read as written",
 "A vector read from a namespace of a property tree has exactly the configured components x, y, z, a quaternion has x, y, z, w in that order, and a transformation has the configured translation and the normalised configured quaternion, whatever the namespace. A missing component is refused with an exception instead of being replaced by a number.",
 ["inputs"], "all real components, quaternions of any non-zero norm within the bounds",
 "There is no test of this header.",
 ["sm_kinematics/include/sm/kinematics/property_tree.hpp", "sm_eigen/include/sm/eigen/property_tree.hpp"], [("vector3FromPropertyTree/quaternionFromPropertyTree", "sm_eigen/include/sm/eigen/property_tree.hpp"), ("transformationFromPropertyTree", "sm_kinematics/include/sm/kinematics/property_tree.hpp")])
prop("P06", "A property tree saved to a file and loaded again has the same keys and values",
 "Saving a property tree to an info, JSON, XML or INI file and loading that file into another tree gives exactly the same keys and values and nothing of what the tree held before. The extension of the file name alone decides the format for loading and saving, unknown ones are refused; XML comments and surrounding blanks are handled as requested; a broken-off JSON or XML file is refused with an exception, and a refused file leaves the tree as it was; the info text of a tree is what the saved file contains.",
 ["inputs", "faults"], "all trees over a bounded key family with arbitrary values, all four formats, every place to break off a short text",
 "Tests save and load one fixed tree in one format.",
 ["sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_property_tree/src/BoostPropertyTree.cpp"], [("load/save/loadXml/loadIni/asInfoString", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp")])
prop("V01", "Layered and prefixed value stores resolve each key to the right layer",
 "A layered store returns the value of the first layer that has the key and falls back to the given default only if none has it, a prefixed store reads exactly the key with the prefix added (or removed) and nothing else, and a verbose store returns what the wrapped store returns while logging it. Existence checks agree with reads in every composition.",
 ["inputs", "configurations"], "all contents of up to three layers over a bounded key family, arbitrary values, all compositions of depth two",
 "Tests use fixed trees and keys.",
 ["sm_value_store/src/ValueStore.cpp", "sm_value_store/src/PrefixedValueStore.cpp", "sm_value_store/src/VerboseValueStore.cpp", "sm_value_store/src/PropertyTreeValueStore.cpp"], [("getFromLayers", "sm_value_store/src/ValueStore.cpp"), ("applyPrefix", "sm_value_store/src/PrefixedValueStore.cpp")])

L = "sm_logging/"
prop("L01", "A log message is emitted exactly when its level and stream are enabled",
 "A message is handed to the logger if and only if its level is at least the global level and its named stream is enabled; enabling or disabling a stream affects exactly that stream, changing the level takes effect for call sites already used, and level names parse to the level they name. Throttled and once-only messages are emitted at most as often as documented. The logging assertions log a fatal message and stop (or run their command) exactly when their condition is false, and do nothing when disabled.",
 ["histories", "inputs"], "all sequences of level/stream changes up to the stated length, all levels, arbitrary times",
 "Tests print to the console and assert little.",
 [L+"src/LoggingGlobals.cpp", L+"include/sm/logging/macros.h"], [("initializeLogLocation/checkLogLocationEnabled/setLevel", L+"src/LoggingGlobals.cpp"), ("SM_*_STREAM macros", L+"include/sm/logging/macros.h")])
prop("L02", "Log formatting expands every token and never truncates a message",
 "The log line formatter replaces each recognised token by its value, keeps all other text in order, and the printf-style message is rendered in full whatever its length. Formatter strings without tokens are reproduced verbatim. A coloured line has the colour of its level, so that fatal, error, warning, information and debugging lines are told apart, and resets it at its end.",
 ["inputs"], "all format strings up to the stated length over an alphabet with token delimiters, message lengths around the initial buffer size",
 "Tests print a few lines without checking them.",
 [L+"src/Formatter.cpp", L+"src/LoggingGlobals.cpp"], [("Formatter::init/print", L+"src/Formatter.cpp"), ("vformatToBuffer", L+"src/LoggingGlobals.cpp")])

prop("E01", "Matrix serialisation restores the same matrix or refuses it",
 "Saving a fixed- or dynamic-size matrix and loading it into a matrix of compatible static size and the same storage order restores dimensions and every coefficient exactly, for column- and row-major and empty matrices, and loading into an incompatible fixed size throws without writing outside the matrix.",
 ["inputs"], "all static/dynamic dimension combinations up to 3x3 (including zero), arbitrary coefficients",
 "Tests cover a few non-empty sizes.",
 ["sm_eigen/include/sm/eigen/serialization.hpp"], [("save/load of Eigen::Matrix", "sm_eigen/include/sm/eigen/serialization.hpp")])
prop("E02", "Matrix square root and numerical differentiation meet their definitions",
 "The square root of a positive semi-definite covariance multiplied by its transpose returns the covariance (a covariance without full rank included, which never gives invalid numbers), and the numerical differentiator returns the exact Jacobian for every linear (and, with central differences, quadratic) function and leaves its input unchanged.",
 ["inputs"], "symmetric positive definite matrices up to 2x2, all linear/quadratic maps of two variables and all steps, in exact real arithmetic",
 "Tests use random instances.",
 ["sm_eigen/include/sm/eigen/matrix_sqrt.hpp", "sm_eigen/include/sm/eigen/NumericalDiff.hpp"], [("computeMatrixSqrt", "sm_eigen/include/sm/eigen/matrix_sqrt.hpp"), ("NumericalDiff", "sm_eigen/include/sm/eigen/NumericalDiff.hpp")])
prop("E03", "Library objects survive an archive and compare by all their numbers",
 "A transformation, homogeneous point, their uncertain variants, an uncertain vector or an identifier that is saved to an archive and loaded again has exactly the same numbers, saving the loaded object gives the same archive, and saving leaves the object as it was. An archive written by a newer version of the class is refused with an exception. Two objects compare as binary equal exactly when every one of their numbers is equal.",
 ["inputs"], "all bit patterns of all numbers of nine object types, all version numbers below 2^31",
 "Tests round-trip one random object and compare it with itself.",
 ["sm_kinematics/include/sm/kinematics/Transformation.hpp", "sm_kinematics/include/sm/kinematics/UncertainTransformation.hpp", "sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp", "sm_kinematics/include/sm/kinematics/UncertainHomogeneousPoint.hpp", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp", "sm_common/include/sm/Id.hpp"], [("save/load/isBinaryEqual", "sm_kinematics/include/sm/kinematics/Transformation.hpp")])
prop("B02", "Calendar times convert to the same instant",
 "Converting a calendar time at or after 1970 to seconds and microseconds since the epoch gives exactly that instant, with the microseconds within the second, also beyond the range of 32-bit seconds and across leap days.",
 ["inputs"], "every microsecond of selected seconds, 256 instants of five days, seven calendar dates between 1970 and 2100",
 "There is no test of this function.",
 ["sm_boost/include/sm/boost/ptime.hpp"], [("ptimeToTimeval", "sm_boost/include/sm/boost/ptime.hpp")])
prop("R01", "Bounded random numbers stay inside their bounds",
 "Uniform random numbers drawn between two bounds lie in the documented half-open interval for every state of the generator (for narrow real intervals, where rounding matters, and for integer bounds at the ends of the type as well), integers can take every value of the interval, and after seeding the sequence of results depends on nothing but the seed. A random vector consists of that many successive normal draws.",
 ["inputs"], "every underlying uniform draw in [0,1), all bounds with lower < upper (bounded range for integers)",
 "There is no test of the random package.",
 ["sm_random/src/random.cpp"], [("randLU/randLUi/seed", "sm_random/src/random.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
