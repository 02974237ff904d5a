"""Per-property check specifications."""
def E(name, *params, **kw):
    d = dict(name=name, **kw)
    if params: d["params"] = list(params)
    return d
KS = "sm_kinematics/src/"
REAL = "exact real arithmetic: floating-point rounding is outside the claim; constants within 1 ulp of k/4096-rationals or multiples of pi are read as those values"
SPECS = {}
def spec(pid, **kw): SPECS[pid] = kw
spec("K01", src=[KS + "quaternion_algebra.cpp", KS + "rotations.cpp"], harness=["K01.cpp"], mode="real", reach=["end"],
     entries=[E("h_quat2r"), E("h_r2quat")], bounds="all real unit quaternions; no loops beyond the fixed sizes", assumptions=[REAL])
spec("K02", src=[KS + "quaternion_algebra.cpp", KS + "rotations.cpp"], harness=["K02.cpp"], mode="real", reach=["end"],
     entries=[E("h_product"), E("h_inverse"), E("h_rotate"), E("h_update")], bounds="all real quaternions and vectors", assumptions=[REAL])
spec("K03", src=[KS + "quaternion_algebra.cpp", KS + "rotations.cpp"], harness=["K03.cpp"], mode="real", reach=["end"],
     entries=[E("h_exp"), E("h_exp_small"), E("h_log"), E("h_log_small"), E("h_log_full")], bounds="all real vectors and unit quaternions", assumptions=[REAL])
spec("K04", src=[KS + "quaternion_algebra.cpp", KS + "rotations.cpp"], harness=["K04.cpp"], mode="real", reach=["end"],
     entries=[E("h_expjac"), E("h_expjac_zero"), E("h_inverse"), E("h_logjac"), E("h_chain"), E("h_chain2"), E("h_exp_series"), E("h_log_series"), E("h_rates")],
     bounds="axis-angle vectors of norm [1.25e-4, 6.2831] (closed form, half turn excluded for the inverse) and (0, 1.23e-4] (series); all quaternions", assumptions=[REAL])
KALL = [KS + f for f in ("EulerAnglesYawPitchRoll.cpp", "EulerAnglesZXY.cpp", "EulerAnglesZYX.cpp", "EulerRodriguez.cpp", "HomogeneousPoint.cpp", "RotationVector.cpp", "RotationalKinematics.cpp", "Transformation.cpp",
    "UncertainHomogeneousPoint.cpp", "UncertainTransformation.cpp", "homogeneous_coordinates.cpp", "quaternion_algebra.cpp", "rotations.cpp", "transformations.cpp")]
spec("K05", src=KALL + ["sm_random/src/random.cpp"], harness=["K05.cpp"], mode="real", reach=["end"],
     entries=[E("h_slerp_ends"), E("h_slerp", 0), E("h_slerp", 1), E("h_slerp_small", 0), E("h_slerp_small", 1), E("h_slerp_same", 0, nowitness=True), E("h_slerp_same", 1, nowitness=True), E("h_lerp", 0), E("h_lerp", 1), E("h_lerp", 2), E("h_lerp", 3), E("h_lerp_mismatch"),
              E("h_interp", 0, 0, 0), E("h_interp", 0, 1, 0), E("h_interp", 0, 0, 1), E("h_interp", 0, 1, 1), E("h_interp_t", 0), E("h_interp_t", 1), E("h_interp_rot", 0), E("h_interp_rot", 1)],
     bounds="all unit quaternion pairs less than 179.9 degrees apart (after sign choice), all parameters; vectors of length 0 to 3", assumptions=[REAL])
spec("K06", src=[KS + "quaternion_algebra.cpp", KS + "rotations.cpp"], harness=["K06.cpp"], mode="real", reach=["end"],
     entries=[E("h_elementary"), E("h_rph"), E("h_extract", 0), E("h_extract", 1), E("h_extract", 2), E("h_angles", 0), E("h_angles", 1), E("h_axang", 0), E("h_axang", 1), E("h_axang", 2), E("h_axang_vec", 0), E("h_axang_vec", 1), E("h_axang_vec_small", 0), E("h_axang_vec_small", 1), E("h_axang_quat"), E("h_axang_vec_tiny"), *[E("h_r2aa", i) for i in range(8)], *[E("h_r2aa_half", i) for i in range(4)], E("h_r2aa_id"), E("h_cross")],
     bounds="all angles, vectors and rotation matrices; pitch strictly inside +-90 degrees", assumptions=[REAL])
spec("K07", src=KALL + ["sm_random/src/random.cpp"], harness=["K07.cpp"], mode="real", reach=["end"],
     entries=[*[E(h, k) for h in ("h_matrix", "h_smatrix", "h_rotjac", "h_omega", "h_zero") for k in range(5)], *[E(h, k) for h in ("h_extract", "h_params") for k in range(3)],
              E("h_rodriguez"), E("h_vector"), E("h_vector_half"), E("h_zero_s"), E("h_noisy", 0), E("h_noisy", 1), E("h_inverse"), E("h_vector_tiny")],
     bounds="all parameters (Euler extraction: middle angle strictly inside a quarter turn; Euler-Rodriguez: 1e-4 <= |p| <= 1e4; rotation vector: 1e-4 <= |p| <= 3.1415 and exactly half a turn for extraction, |p| >= 1e-13 for derivatives and below 0.99e-14, |p| <= 6.2831 for the inverse rate matrix)", assumptions=[REAL])
spec("K08", src=KALL + ["sm_random/src/random.cpp"], harness=["K08.cpp"], mode="real", reach=["end"],
     entries=[E(h) for h in ("h_inverse", "h_parts", "h_euler", "h_params", "h_toeuler", "h_box", "h_boxtimes", "h_first", "h_jacobian", "h_invjacobian")],
     bounds="all rigid transforms (rotation part from any unit quaternion), all homogeneous points and motions; Euler extraction with pitch strictly inside a quarter turn", assumptions=[REAL])
spec("K09", src=KALL + ["sm_random/src/random.cpp"], harness=["K09.cpp"], mode="real", reach=["end"],
     entries=[E("h_access"), E("h_normalise"), E("h_matrix", 0), E("h_matrix", 1), *[E(h) for h in ("h_compose", "h_inverse", "h_apply", "h_apply_point", "h_apply_uncertain", "h_s", "h_oplus", "h_oplus_zero", "h_oplus_exp", "h_equal")]],
     bounds="all unit quaternions (constructor: any quaternion of norm at least 1e-3), translations, points; updates with rotation angle 0 and [2e-3, 6.2] for the derivative, any for the exponential", assumptions=[REAL])
spec("K10", src=KALL + ["sm_random/src/random.cpp"], harness=["K10.cpp"], mode="real", reach=["end"],
     entries=[*[E("h_access", i) for i in range(6)], *[E("h_compose", i) for i in range(4)], E("h_inverse"), E("h_inverse2"), *[E("h_point", i) for i in range(4)], E("h_vectors"), E("h_oplus", 0, 4), *[E("h_oplus", i, c) for i in (1, 2) for c in range(4)], E("h_equal")],
     bounds="all unit quaternions, translations and symmetric covariance matrices; inverting the sensitivity matrix (UOplus): translations with every component at most 0.5 or exactly one component of at least 2 in magnitude", assumptions=[REAL])
spec("K11", src=KALL + ["sm_random/src/random.cpp"], harness=["K11.cpp"], mode="real", reach=["end"],
     entries=[E("h_build"), *[E("h_set_bad", n) for n in (0, 1, 2, 5)], E("h_sum"), E("h_convert"), *[E("h_columns", r, c) for r, c in ((1, 1), (3, 2), (2, 3), (3, 0))], *[E("h_normalize", n) for n in (1, 2, 3, 4)], E("h_point_normalize"), E("h_oplus"), E("h_oplus_zero"), E("h_oplus_jac"), E("h_kind"), E("h_equal")],
     bounds="all homogeneous points with weight of magnitude at least 1e-3, all Euclidean points; update angle 0 and [1.25e-4, 6.2]; vectors up to dimension 5, column matrices up to 3x3", assumptions=[REAL])
spec("K12", src=KALL + ["sm_random/src/random.cpp"], harness=["K12.cpp"], mode="real", reach=["end"],
     entries=[E("h_access"), E("h_oplus"), E("h_oplus_bad"), *[E("h_sum", i, m) for i in range(5) for m in (0, 1)], E("h_sum4"), E("h_normalize", 0), E("h_normalize", 1), E("h_transform"), E("h_transform_h"), E("h_equal")],
     bounds="all homogeneous points with weight of magnitude at least 1e-3, all symmetric covariances, all rigid transforms", assumptions=[REAL])
spec("K13", src=KALL + ["sm_random/src/random.cpp"], harness=["K13.cpp"], mode="real", reach=["end"],
     entries=[*[E(h, n) for h in ("h_access", "h_arith", "h_dot", "h_normal", "h_equal") for n in (2, 3, 4)], *[E("h_scalar", k) for k in range(4)]],
     bounds="all real vectors and symmetric covariances of dimensions 1 to 4 (norm at least 1e-3 for normalisation, divisor magnitude at least 1e-3)", assumptions=[REAL])
spec("K14", src=KALL + ["sm_random/src/random.cpp"], harness=["K14.cpp"], mode="real", reach=["end"],
     entries=[*[E("h_wrap", k, time=60) for k in range(4)], E("h_wrap_inside"), E("h_units")], bounds="all angles of magnitude up to 1e15", assumptions=[REAL])
TS_ = ["sm_timing/src/NsecTimeUtilities.cpp"]
spec("K15", src=KALL, harness=["K15.cpp"], mode="real", reach=["end"], noinline=["_ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runERKdS4_", "_ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runEv"],
     entries=[*[E(h, s) for h in ("h_quat", "h_transformation", "h_uncertain", "h_points", "h_points2") for s in (0, 1)], *[E("h_bounded", m, u, s) for m in range(3) for u in (0, 1) for s in (0, 1)], E("h_vectors"), *[E("h_nonnegative", k) for k in range(4)]],
     bounds="every draw of the generators within its range; largest translations from 1e-3 to 1e6, largest rotations from 1e-3 to 3", assumptions=[REAL, "each draw of sm_random is any number of its range (R01) and each draw of Eigen any number from -1 to 1"])
spec("T01", src=TS_, harness=["T01.cpp"], mode="bv", reach=["end"],
     entries=[E("h_chrono"), E("h_valid"), *[E("h_sec", i, 10, n) for i in range(8) for n in (0, 1)], *[E("h_sec", i, 14, 0, tiers=["thorough"]) for i in range(8)], *[E("h_sec_exact", i) for i in range(5)], *[E("h_scale", i) for i in range(4)]],
     bounds="all 64-bit counts; seconds conversion: windows of 1024 counts (thorough: 16384) at sixteen bases, 1024 whole/half seconds at five bases", assumptions=[])
spec("T02", src=TS_, harness=["T02.cpp"], mode="real", reach=["end"],
     entries=[*[E("h_hull", n, 0) for n in (1, 2, 3, 4, 5)], E("h_hull", 6, 0, tiers=["thorough"]), *[E("h_hull", n, p) for n in (3, 4, 5, 6, 7) for p in (1, 2, 3, 4)], E("h_empty"), *[E("h_backwards", n) for n in (1, 2, 3)], *[E("h_reset", n) for n in (2, 4)], *[E("h_periodic", n, 1) for n in (3, 4)],
              *[E("h_int", n, g, 40, mode="bv") for n in (3, 4) for g in range(5)], E("h_int_line", mode="bv")],
     bounds="histories of up to 4 samples with arbitrary remote and local times, up to 5 on four grids of remote times; 64-bit integer timestamps: up to 4 samples on five grids with delays below 2^40 ns", assumptions=[REAL + " (floating-point instantiation); the integer instantiation is bit-precise"])
spec("T03", src=["sm_timing/src/Timer.cpp"], harness=["T03.cpp", "T03t.cpp"], mode="bv", shim=["shim"], optflags=["-disable-builtin=_Znwm"], noinline=["_ZN2sm6timing6Timing7addTimeEmd"], reach=["end"],
     entries=[*[E("h_handles", n) for n in (1, 2, 3)], E("h_bad_handle"), *[E("h_stats", n, m, 0, mode="real") for n, m in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 2))], *[E("h_stats", n, m, r, mode="real") for n, m in ((1, 0), (1, 1), (2, 1)) for r in (1, 2)], *[E("h_stats", 4, m, 0, mode="real", tiers=["thorough"]) for m in (0, 5, 8)], *[E("h_rolling", n, k, mode="real") for n, k in ((10, 3), (50, 0), (51, 0), (51, 1), (60, 59))],
              *[E("h_history", n) for n in (1, 2, 3)], E("h_history", 5, tiers=["thorough"]), *[E("h_elapsed", b, k) for b in range(5) for k in (0, 1)], E("h_nested"), *[E("h_threads", a, b, c) for a, b, c in ((0, 0, 0), (0, 1, 0), (3, 3, 0), (3, 4, 1), (6, 1, 0), (7, 3, 0))], *[E("h_string", b, 600, mode="real") for b in range(6)]],
     bounds="statistics of up to 3 arbitrary intervals over two tags (real arithmetic), timer histories of up to 3 operations, clock readings with arbitrary microseconds at five pairs of seconds, printed durations in windows of ten minutes at six bases; two threads with one or two tags each, at most two preemptions at locks and memory requests", assumptions=["the threading library is replaced by a model with sequentially consistent interleavings at its operations and at memory requests", REAL + " for the statistics; the rest is bit-precise"])
spec("C01", src=["sm_common/src/hash_id.cpp"], harness=["C01.cpp"], mode="bv", reach=["end"],
     entries=[E("h_words"), E("h_hex"), E("h_print", nowitness=True), *[E("h_parse", i, 4) for i in range(0, 32, 4)], E("h_parse", 0, 32), E("h_length"), E("h_order"), E("h_fnv"), E("h_num"), E("h_num_print", nowitness=True), E("h_num_save")],
     bounds="all 128-bit and 64-bit identifiers; text of every length up to 69, arbitrary characters at the valid length; hash separation within one byte", assumptions=[])
spec("C02", src=[], harness=["C02.cpp"], mode="bv", opts=["--timeout", "60000"], reach=["end"],
     entries=[*[E("h_def", k, mode="real") for k in range(3)], E("h_def_default", mode="real"), *[E("h_trio_f", k, o) for k in range(4) for o in range(3)], *[E("h_trio_d", k, o) for k in range(4) for o in range(3)], E("h_round_d"), E("h_round_f"), E("h_rint_d"), E("h_rint_f"), E("h_lrint_d"), E("h_lrint_f"), E("h_sgn"), *[E("h_quadratic", k, mode="real") for k in range(3)]],
     bounds="all finite floats and doubles for comparison (four tolerances), rounding and sign; comparisons against their definition for magnitudes up to 1e12 and quadratics with |a| in [1e-3, 1e3], |b|, |c| <= 1e3 in exact real arithmetic", assumptions=[REAL + " (entries h_def*, h_quadratic); the rest is bit-precise"])
spec("C03", src=[], harness=["C03.cpp"], mode="bv", reach=["end"], opts=["--hang-violation"],
     entries=[*[E(h, n, k) for h in ("h_replace", "h_replace_reverse") for n in (0, 1, 2, 3, 4, 6, 8) for k in (0, 1, 2, 3, 9)], E("h_replace_default", 5), *[E("h_pad", n) for n in (0, 1, 4)], *[E("h_slash", n) for n in (0, 1, 5)], *[E("h_env", n) for n in range(9)], E("h_env", 10, tiers=["thorough"]), *[E("h_env_value", n, t) for n in (0, 3) for t in range(5)], E("h_env_mix"), *[E("h_list", n) for n in range(4)], E("h_tuple"), E("h_padded"), *[E("h_float", k) for k in range(5)]],
     bounds="all byte strings of length up to 8 (replacement), 5 (trailing slash), 8 (environment substitution; thorough 10), all target and replacement characters, skip counts 0-3 and the largest; two variables with arbitrary values of up to 3 characters; widths up to 13; every double in fixed and scientific notation with widths up to 11 and precisions up to 4", assumptions=["the environment consists of a variable A with an arbitrary value and possibly an empty variable Bc", "the text of a floating-point number is opaque: the same number in the same notation and precision is the same text"])
C04E = [(k, j) for k in range(4) for j in range(3)] + [(k, 0) for k in range(4, 8)]
spec("C04", src=[], harness=["C04.cpp", "C04d.cpp", "C04n.cpp", "C04a.cpp", "C04m.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_" + v, k, j) for v in ("plain", "debug", "release", "always") for k, j in C04E], E("h_null"), E("h_throw"), *[E("h_matrix", 0, r, c) for r, c in ((0, 0), (1, 1), (2, 2), (3, 1))], *[E("h_matrix", k, 0, 0) for k in (1, 2, 3, 4)]],
     bounds="all int, unsigned, float and double operands (ordering and sign assertions: not-a-number excluded; sign assertions on integers: magnitude below 4), all pointers null or not; matrices of up to 3x3 with arbitrary coefficients", assumptions=["numbers inside messages are not compared"])
spec("C05", src=[], harness=["C05.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_value", k, 0, v) for k in range(6) for v in (0, 1)], *[E(h, k, 0, v) for h in ("h_pointer", "h_shared") for k in (0, 1, 3, 4, 5) for v in (0, 1)], *[E("h_deep", k, v) for k in range(12) for v in (0, 1)], E("h_verbosity")],
     bounds="all member values; all combinations of null, separate and common pointees; classes with eleven kinds of member, one of them arbitrary", assumptions=["printing of floating-point numbers is not interpreted"])
PTS = ["sm_property_tree/src/" + f for f in ("PropertyTree.cpp", "PropertyTreeImplementation.cpp", "BoostPropertyTree.cpp", "BoostPropertyTreeImplementation.cpp")]
PTF = {f: ["-include", "boost/bind.hpp", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"] for f in PTS}
spec("P01", src=PTS, srcflags=PTF, harness=["P01.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_store", t, k, d) for t in range(4) for k in range(27) for d in (0, 1) if (t < 1 or k % 4 == t)], *[E("h_record", t, k) for t in range(4) for k in range(0, 27, 3)], *[E("h_types", k) for k in range(9)], E("h_history", 2, 4), E("h_history", 3, 4, tiers=["thorough"]), *[E("h_children", k) for k in range(5)], E("h_iterate"), E("h_null"),
              *[E("h_key", a, b, i, j) for a in (1, 2) for b in (1, 2) for i in range(3) for j in range(3)]],
     bounds="27 spellings of 12 locations, each against every other; all int, finite double, bool and 3-character string values; keys of up to 2 characters from {a, b, ., /} in three namespaces; histories of 2 operations (thorough: 3) over 4 keys", assumptions=["numbers print as text that reads back as the same number, provided at least 17 significant digits are requested for floating point"])
spec("P02", src=PTS, srcflags=PTF, harness=["P02.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_merge", f, m) for f in (0, 1, 2) for m in (0, 1, 2, 5, 8, 11, 16, 31)], *[E("h_only", i, m) for i in (0, 1) for m in (0, 1, 2, 7, 8, 13, 31)], *[E("h_blank", n, i) for n in (0, 1, 2, 3) for i in (0, 1)], E("h_chain")],
     bounds="all subsets of five nested keys (dots in names included) in the overriding tree, eight in the overridden one, arbitrary integer values; text values of up to 3 arbitrary characters; chains of three trees", assumptions=["integers print as text that reads back as the same integer"])
spec("P03", src=PTS, srcflags=PTF, harness=["P03.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_text", f) for f in range(42)], *[E("h_three", f, 0) for f in range(7)], *[E("h_three", f, 7, tiers=["thorough"]) for f in range(7)], *[E("h_deep", n, v) for n in (1, 2, 3, 4) for v in (1, 3)], E("h_after"), E("h_example"), *[E("h_strings", n, h) for n in (1, 2, 3) for h in (0, 1)], *[E("h_bad", k) for k in range(11)], E("h_empty", 0), E("h_empty", 1), E("h_repeat", known="KF-P03-1")],
     bounds="texts of one or two of 42 shapes of phrases (up to two names joined by slashes, blocks nested twice), three of seven shapes, nesting up to four; every name and value with arbitrary printable characters other than blanks and the characters the text format reserves", assumptions=["names are distinct (except the known finding)"])
spec("P04", src=PTS + ["sm_property_tree/src/BoostPropertyTree%s.cpp" % n for n in ("Loader", "Support")], srcflags={**PTF, **{"sm_property_tree/src/BoostPropertyTree%s.cpp" % n: PTF[PTS[0]] for n in ("Loader", "Support")}}, harness=["P04.cpp"], mode="bv", reach=["end"], shim=["shim_fs"], ldflags=["-lboost_filesystem"],
     entries=[*[E("h_resolve", s, p, i, r) for s in range(8) for p in range(3) for i in range(3) for r in range(4)],
              *[E("h_list", n, t, s, k) for n, t, s in ((1, 0, 1), (2, 0, 1), (2, 1, 0), (3, 1, 1)) for k in (1, 14, 15)],
              *[E("h_parents", w, r, y, k) for w in range(3) for r in range(7) for y in range(3) for k in (1, 14)], *[E("h_once", o, t) for o in range(3) for t in (0, 1)], *[E("h_missing", k) for k in range(6)], *[E("h_find", k) for k in range(8)]],
     bounds="file names of eight shapes with an arbitrary character, any subset of the candidate files present, up to two search paths and two infixes; one to three files setting subsets of four keys (values of one arbitrary character), update-only or not; parent relations of seven kinds named in three places and three ways", assumptions=["files and directories are modelled; natively they are real"])
spec("P06", src=PTS, srcflags=PTF, harness=["P06.cpp"], mode="bv", reach=["end"], shim=["shim_fs"], ldflags=["-lboost_filesystem"],
     entries=[*[E("h_round", f, k, a, n, r) for f in range(4) for k, a, n in ((1, 1, 1), (1, 1, 2), (2, 2, 2), (8, 8, 2), (15, 1, 2), (15, 2, 1), (15, 4, 2), (15, 8, 2), (7, 5, 1), (14, 12, 1)) for r in (0, 1) if not (f == 3 and k == 8)], *[E("h_round", f, 9, 1, 3, 0, tiers=["thorough"]) for f in range(4)],
              *[E("h_extension", n, s, w) for n in range(6) for s in (0, 1) for w in range(3)], *[E("h_xml", r, i, w) for r in (0, 1) for i in (0, 1) for w in range(3)], *[E("h_broken", f, g) for f in range(4) for g in (0, 1)], *[E("h_info_string", k, a) for k, a in ((1, 1), (15, 1), (15, 8), (6, 4))]],
     bounds="trees with any chosen subset of four keys up to three levels deep, values of one or two arbitrary printable characters (blanks inside; not the characters with a meaning in ini files there), both readable settings, all four formats; extensions of up to five arbitrary characters; a two-key text broken off anywhere", assumptions=["files and directories are modelled; natively they are real"])
spec("P05", src=KALL + ["sm_random/src/random.cpp"] + PTS[:2], srcflags=PTF, harness=["P05.cpp"], mode="real", reach=["end"],
     entries=[*[E(h, k) for h in ("h_vector", "h_transformation") for k in range(3)], *[E("h_missing", k) for k in range(7)]],
     bounds="all real components, quaternions of norm 1e-3 to 1e3, three namespaces", assumptions=[REAL])
VSS = ["sm_value_store/src/" + f for f in ("ValueStore.cpp", "PrefixedValueStore.cpp", "PropertyTreeValueStore.cpp", "VerboseValueStore.cpp")] + PTS
spec("V01", src=VSS, srcflags=PTF, noinline=["_ZNSt7__cxx119to_stringEi", "_ZNSt7__cxx119to_stringEd"], harness=["V01.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_layer", t, n) for t in range(4) for n in range(4)], *[E("h_prefixed", t, k, m) for k in range(21) for t in range(4) for m in (0, 1) if k % 4 == t], *[E("h_children", (c + p) % 4, a, p, 2 * c + m) for a in (0, 1) for p in range(3) for c in range(0, 14, 3) for m in (0, 1)], *[E("h_layer_children", t, n, 0) for t in range(4) for n in (1, 2)], *[E("h_layer_children", 0, 2, u) for u in (1, 2, 3)], *[E("h_layer_children", t, 2, 8) for t in range(4)], E("h_layer_children", 0, 3, 8, tiers=["thorough"]),
              *[E("h_verbose", t) for t in range(4)], *[E("h_extend", t) for t in range(4)], *[E("h_tree", t, m) for t in range(4) for m in range(16) if m % 4 == t or m in (0, 15)], *[E("h_as_tree", t, c) for t in range(4) for c in (0, 1)], *[E("h_paths", t, w) for t in range(4) for w in range(5)], *[E("h_compose", t, w) for t in range(4) for w in range(11)]],
     bounds="stores with any subset of the keys of a ten-key family, arbitrary values of the four types; up to three layers; one- and two-component prefixes; ten compositions two levels deep; four-key property trees", assumptions=["numbers print as text that reads back as the same number, provided at least 17 significant digits are requested for floating point"])
spec("V02", src=VSS, srcflags=PTF, harness=["V02.cpp"], mode="bv", reach=["end"], shim=["shim_fs"], ldflags=["-lboost_filesystem"],
     entries=[*[E("h_string", k, a) for k, a in ((0, 0), (1, 1), (2, 2), (3, 2), (9, 8), (11, 9))], *[E("h_file", f, g, k, a) for f in range(4) for g in range(4) for k, a in ((1, 1), (11, 2))], *[E("h_file", f, f, 0, 0) for f in (0, 3)], *[E("h_refused", k) for k in range(6)], E("h_fresh")],
     bounds="stores with any chosen subset of four keys and values of one or two arbitrary characters; texts and files in all four formats, each saved in the same or another format", assumptions=["files and directories are modelled; natively they are real"])
spec("B01", src=["sm_boost/src/JobQueue.cpp"], harness=["B01.cpp"], mode="bv", reach=["end"], shim=["shim"], defs=[],
     entries=[*[E("h_all_run", w, n, s, e) for w in (1, 2) for n in (0, 1, 2) for s in (0, 1) for e in (0, 1)], E("h_order", 2), E("h_order", 3), *[E("h_stop", w, n, h, s) for w in (0, 1, 2) for n in (0, 1, 2) for h in range(4) for s in (0, 1) if s == 0 or w == 1],
              *[E("h_unstarted", k) for k in range(4)], *[E("h_future", w, n, b) for w in (1, 2) for n, b in ((1, 9), (1, 0), (2, 9), (2, 0))], *[E("h_future_abandoned", w, n) for w in (0, 1, 2) for n in (1, 2)], E("h_nested", 1), E("h_nested", 2), E("h_producers", 1, 0), E("h_producers", 1, 1), E("h_producers", 2, 0), E("h_producers", 2, 1, opts=["--preempt", "0"]), E("h_start_twice"),
              *[E("h_stop", 2, 2, h, s, opts=["--preempt", "3"], tiers=["thorough"]) for h in range(4) for s in (0, 1)], *[E("h_all_run", 1, n, 2, e, opts=["--preempt", "4"], tiers=["thorough"]) for n in (1, 2, 3) for e in (0, 1)], E("h_future_abandoned", 2, 2, opts=["--preempt", "3"], tiers=["thorough"])],
     bounds="up to two workers, two producers and three jobs; all interleavings at locking, waiting, notifying, joining and job steps with at most two preemptions, at most one spurious wake-up", assumptions=["the threading library is replaced by a model with sequentially consistent interleavings at its operations"])
LGS = ["sm_logging/src/" + f for f in ("Formatter.cpp", "Levels.cpp", "Logger.cpp", "LoggingEvent.cpp", "LoggingGlobals.cpp", "StdOutLogger.cpp", "Tokens.cpp")]
spec("L01", src=LGS, noinline=["_ZNK2sm7logging6Logger21currentTimeSecondsUtcEv"], harness=["L01.cpp", "L01m.cpp", "L01a.cpp", "L01n.cpp"], mode="bv", reach=["end"], shim=["shim"],
     entries=[*[E("h_site", l, k, 2, 0) for l in range(11) for k in range(16) if (l + k) % 2 == 0 or l in (7, 9)], *[E("h_site", 7, k, 3, 1) for k in range(16)], *[E("h_throttle", k, 4, 7, o, mode="real") for k in (12, 13, 14, 15) for o in (0, 1)], E("h_throttle", 13, 2, 8, 0, mode="real"), E("h_dynamic", 3), *[E("h_sites", k, 2) for k in range(3)], *[E("h_streams", a, n, b, m) for a in range(6) for b in range(6) for n, m in ((0, 0), (1, 1), (2, 1), (1, 3)) if (n, m) == (1, 1) or (a + b) % 2], E("h_shutdown"), E("h_null_logger"), *[E("h_logger_throws", m, k) for m in (1, 2, 3) for k in (0, 1)], *[E("h_names", n) for n in range(9)], *[E("h_text", n, k) for n in (0, 1, 4) for k in range(4)],
              *[E("h_threads", k, f, b) for k in range(4) for f in (0, 1) for b in (0, 1)], *[E("h_threads_change", k, m) for k in range(4) for m in range(k, 4)], *[E("h_threads_print", k, m) for k in (0, 1) for m in (0, 1)], E("h_compiled_out"), *[E("h_assert", k) for k in range(12)], E("h_assert_disabled")],
     bounds="all sixteen statement forms at all eleven levels; histories of two or three arbitrary changes of level and streams; three throttled calls at arbitrary increasing times; level names of up to eight characters; stream names of up to eight characters, three of them arbitrary; two threads with at most two preemptions", assumptions=["the threading library is replaced by a model with sequentially consistent interleavings at its operations", REAL + " (throttling only)"])
spec("L02", src=LGS, harness=["L02.cpp"], mode="bv", reach=["end"], shim=["shim"],
     entries=[E("h_default"), *[E("h_env", n, m) for n in (0, 1, 2) for m in (0, 1)], *[E("h_any", n, x) for n in range(6) for x in (0, 1)], E("h_any", 7, 1, tiers=["thorough"]), *[E("h_tokens", i, (i + d) % 8, c, d % 2) for i in range(8) for d, c in ((0, 0), (1, 1), (3, 1))], *[E("h_near", i, p) for i in range(8) for p in range(len(["severity", "message", "time", "thread", "file", "line", "function", "streamname"][i]) + 3)], E("h_extra"), E("h_color"),
              *[E("h_long", n, k) for n in (0, 1, 100, 4093, 4094, 4095, 4096, 4097, 5000, 8192) for k in (0, 1)], E("h_long", 4096, 2), E("h_printf"), *[E("h_buffer", n) for n in (0, 4094, 4095, 4096, 4097, 8190)], *[E("h_clock", k) for k in range(4)]],
     bounds="all format texts of up to five characters (thorough: seven), all pairs of neighbouring tokens with arbitrary characters around them, all single-character variations of every token; messages of ten lengths up to 8192 with arbitrary characters at the ends and around the buffer size", assumptions=["regular expressions are matched by a model of the library", "formatted output functions are modelled"])
MAS = ["sm_matrix_archive/src/MatrixArchive.cpp"]
spec("M01", src=MAS, harness=["M01.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_ops", 3, a, b, c) for a in range(12) for b in range(12) for c in ((a + b) % 12, (a * 5 + b + 6) % 12)], *[E("h_hist", 3, k) for k in range(12)], *[E("h_hist", 4, k, tiers=["thorough"]) for k in range(12)], *[E("h_names", n, o, p) for n, p in ((0, 0), (1, 0), (2, 0), (3, 0), (1, 31), (1, 32), (0, 32), (0, 33), (1, 1)) for o in (0, 1, 2, 3, 4, 5)], *[E("h_two", i, j, o, q) for i, j in ((1, 1), (2, 1), (2, 2)) for o, q in ((0, 3), (3, 1), (2, 4), (3, 6))], E("h_shape")],
     bounds="histories of three operations of twelve kinds over two names; names of up to three arbitrary characters and of 31 to 33; matrices up to 3x1 and 2x2 with arbitrary bit patterns, strings of two arbitrary characters")
spec("M02", src=MAS, harness=["M02.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_round", k, m) for k in range(8) for m in range(3)], *[E("h_format", k) for k in range(8)], *[E("h_subset", k) for k in range(16)], *[E("h_append", i, j, m) for i in (0, 1, 4) for j in (0, 2, 3, 7) for m in (0, 1)], *[E("h_cut", k, f, 8) for k, n in ((1, 74), (2, 41), (3, 90), (4, 200), (5, 126)) for f in range(0, n, 8)],
              *[E("h_damage", k, i, 0, 0) for k, n in ((1, 74), (2, 41), (3, 90)) for i in range(n) if not 33 <= i < 41 or k == 2], *[E("h_damage", k, i, 0, d) for k in (1, 3) for i in range(33, 41) for d in (1, 2)], *[E("h_damage", k, i, 1, k - 1) for k in (2, 3) for i in range(0, 46, 3)], *[E("h_dims", k, m, v, d) for k, d in ((1, 1), (3, 2), (5, 0)) for m in (0, 1) for v in range(9)], *[E("h_junk", n) for n in (1, 2, 12)], *[E("h_full", k, r, m) for k in (1, 3) for r in (0, 1, 33, 45, 73) for m in (0, 1)], E("h_missing")], opts=["--alloc-limit", "1024"],
     bounds="eight archives with up to four entries, arbitrary number and character values; files cut at every byte; every value of every byte of three files, pairs of neighbouring bytes, families of size fields; a device that fills up at five points", assumptions=["file streams are modelled as a byte sequence that is read whole and written when the stream is closed", "allocations above 8 MiB fail"])
spec("E01", src=[], harness=["E01.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_dyn", k, r, c, t) for k in range(6) for r in range(4) for c in range(4) for t in range(5) if k < 2 or (r + c + t) % 3 == k % 3], *[E("h_fixed", k, t) for k in range(13) for t in range(5)], *[E("h_transform", k) for k in range(4)], E("h_many"), *[E("h_short", n) for n in (0, 7, 8, 15, 16, 24, 40, 47)]],
     bounds="all matrices of up to 3x3 (empty ones included) of six scalar types and both storage orders, saved from static and dynamic sizes and loaded into twelve static, dynamic and bounded ones", assumptions=["the archive passes values through unchanged"])
spec("R01", src=["sm_random/src/random.cpp", "sm_eigen/src/random.cpp"], harness=["R01.cpp"], mode="bv", reach=["end"], shim=["shim_rng"],
     entries=[*[E("h_uniform", a, b) for a in (0, 1) for b in (0, 1)], *[E("h_lu", k) for k in range(18)], *[E("h_lu_grid", i, s) for i in range(6) for s in range(4)], *[E("h_lui", k) for k in range(13)], *[E("h_lui_grid", i, w) for i in range(6) for w in range(4)], *[E("h_attain", n, lb) for n in (1, 2, 3, 7, 10, 31) for lb in (0, -4)],
              *[E("h_seed", a, b, c, 7) for a in range(4) for b in range(4) for c in range(4)], *[E("h_seed", a, b, c, l) for a, b, c in ((4, 0, 5), (5, 2, 4), (3, 4, 4), (4, 4, 4), (1, 5, 3)) for l in range(0, 256, 51)], *[E("h_advance", a) for a in range(4)], *[E("h_normal", l) for l in range(256)], *[E("h_vec", n, l) for n in range(7) for l in (0, 1, 4, 37)]],
     bounds="all 2^32 draws of the generator for 42 pairs of real bounds and 37 pairs of integer bounds (extreme ones included); all 32-bit seeds with sequences of three calls of six kinds after three kinds of history; vectors of up to six entries; for the normal distribution 256 families of fixed generator outputs (the rejection loop is bounded by them)", assumptions=["the Mersenne twister is replaced by an arbitrary function of the seed and the index of the draw"])
spec("E03", src=["sm_kinematics/src/%s.cpp" % f for f in ("Transformation", "UncertainTransformation", "HomogeneousPoint", "UncertainHomogeneousPoint", "quaternion_algebra", "rotations", "transformations", "homogeneous_coordinates")] + ["sm_random/src/random.cpp"], harness=["E03.cpp"], mode="bv", reach=["end"],
     entries=[*[E("h_round", k) for k in range(9)], *[E("h_newer", k) for k in range(9)], *[E("h_equal", k, i) for k, n in enumerate((2, 6, 12, 20, 7, 4, 20, 43, 42)) for i in range(-1, n)], E("h_id"), *[E("h_members", p, q) for p in range(16) for q in (0, 1)]],
     bounds="all bit patterns of every number of nine object types; all archive versions below 2^31; pairs of objects that differ in one arbitrary number", assumptions=["the archive passes values through unchanged"])
spec("E04", src=[], harness=["E04.cpp"], mode="bv", reach=["end"], noinline=["_ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runERKdS4_", "_ZN5Eigen8internal19random_default_implIdLb0ELb0EE3runEv"],
     entries=[*[E("h_covariance", n, d, mode="real") for n in (1, 2, 3) for d in (0, 1)], *[E(h, k) for h in ("h_near", "h_equal") for k in range(6)], *[E("h_matrix", k, mode="real") for k in range(6)], E("h_two"), *[E("h_sizes", k, 0) for k in range(3)], *[E("h_sizes", 3, j, known="KF-E04-1", reach=[]) for j in (1, 2)], E("h_sizes", 3, 3), *[E("h_relative", k, o) for k in (0, 2) for o in (0, 1)], *[E("h_relative", k, o, mode="real") for k in (1, 3, 4) for o in (0, 1)], *[E("h_nonfinite", k, known="KF-E04-2", reach=[]) for k in (0, 1)]],
     bounds="matrices of six sizes up to 3x2 with one arbitrary coefficient anywhere (all floating-point values); all pairs of four sizes; relative comparison with a tolerance of one percent of a number with itself, its opposite, zero and two constants", assumptions=["the assertion macros of the test framework are replaced by ones that record the outcome"])
spec("E05", src=[], harness=["E05.cpp"], mode="bv", reach=["end"], shim=["shim_ar", "shim_fs"], ldflags=["-lboost_filesystem"],
     entries=[*[E(h, f) for h in ("h_round", "h_again", "h_missing") for f in range(5)], *[E("h_names", f, g) for f in range(5) for g in range(5) if f != g], *[E("h_full", f, r) for f in range(5) for r in (0, 1, 5, 20, 33)], E("h_versions")],
     bounds="an object with nested versioned parts and arbitrary contents; all pairs of formats; a device with room for 0 to 33 bytes", assumptions=["the archives of Boost are stand-ins that keep every value and report stream errors as the real ones do"])
spec("B02", src=[], harness=["B02.cpp"], mode="bv", reach=["end"], entries=[*[E("h_us", k) for k in range(8)], *[E("h_sec", d, u) for d in (0, 1, 365, 24855, 49709) for u in (0, 1, 999999)], E("h_date")],
     bounds="every microsecond of eight seconds between 1970 and 2100, 256 instants across each of five days, seven calendar dates")
spec("E02", src=[], harness=["E02.cpp"], mode="real", reach=["end"], entries=[*[E("h_sqrt", k) for k in range(9)], *[E("h_semidefinite", k, mode="bv") for k in range(4)], *[E("h_linear", n, m, e) for n in (1, 2, 3) for m in (1, 2) for e in (0, 1)], E("h_quadratic")],
     bounds="positive definite matrices up to 3x3 with entries up to 10^6, affine functions of up to three inputs and two outputs, quadratic functions of two inputs; exact real arithmetic")
