"""Writes /verif/properties.jsonl."""
import json
import os

L = "hand_eye_calibration/python/hand_eye_calibration/"
B = "hand_eye_calibration/bin/"
S = "hand_eye_calibration/scripts/"
X = "hand_eye_calibration_experiments/"
props = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  props.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                   observe_at=observe or [], hook_needed=None)))


p("C01", "Quaternion arithmetic is Hamilton's algebra and acts as rotation",
  "For all quaternions, sum, difference, negation, scalar and quaternion product and quotient, conjugate, inverse, norm and "
  "normalization are those of Hamilton's algebra in [x y z w] order, and no operation except normalization changes its operands. "
  "A unit quaternion rotates vectors exactly as its rotation matrix does, the rotation of a product is the composition of the "
  "rotations, and q and -q rotate alike.",
  ["inputs", "histories"],
  "all quaternions (any sign, unit or not, half turns, identity) and all sequences of operations on them",
  "The unit tests evaluate one or two hand-picked operands per operation; a sign or order slip that those operands hide, or an "
  "operand changed in place, needs the whole group table and sequences of operations.",
  [L + "quaternion.py"],
  [("Quaternion operators", L + "quaternion.py Quaternion.__add__/__sub__/__mul__/__truediv__/inverse/conjugate"),
   ("rotation", L + "quaternion.py Quaternion.rotate_vector/to_rotation_matrix")],
  [("q", "components [x y z w]", L + "quaternion.py Quaternion.q")],
  ["return values of the quaternion operations", "components of operands afterwards"])

p("C02", "Dual quaternions compose, invert and act exactly as rigid motions",
  "The product of the dual quaternions of two rigid motions is the dual quaternion of their composition, the inverse and the "
  "quotient are those of the motions, and transforming a point (passively, or actively by the inverse motion) agrees with applying "
  "the motion to it. This holds for any sequence of such operations, whichever of the two sign representations and whatever "
  "overall positive scale the operands have.",
  ["inputs", "histories"],
  "all rigid motions, both sign representations, all sequences of products, inverses, quotients, normalizations and conversions",
  "The unit tests multiply a few fixed dual quaternions; order, sign and handedness slips cancel in symmetric or single-step examples.",
  [L + "dual_quaternion.py", L + "quaternion.py"],
  [("dual quaternion product and inverse", L + "dual_quaternion.py DualQuaternion.__mul__/inverse/__truediv__"),
   ("point transform", L + "dual_quaternion.py passive_transform_point/active_transform_point")],
  [("dq", "rotation part and dual part", L + "dual_quaternion.py DualQuaternion.dq")],
  ["pose and matrix of the resulting dual quaternion", "transformed points"])

p("C03", "Pose, matrix, angle-axis and dual quaternion forms convert losslessly",
  "Converting a rigid motion between pose vector, 4x4 matrix and dual quaternion, in any order and any number of times, keeps the "
  "motion, including rotations by 180 degrees, no rotation and negative scalar part. Poses are always returned with a unit quaternion "
  "of non-negative scalar part, and conversions never change the motion an object represents.",
  ["inputs", "histories"],
  "all rigid motions and all chains of conversions",
  "Tests convert a handful of generic poses; special rotations (half turns, zero trace, negative scalar part, unnormalized input) "
  "are where conversions break.",
  [L + "quaternion.py", L + "dual_quaternion.py"],
  [("rotation matrix to quaternion", L + "quaternion.py from_rotation_matrix/from_angle_axis/angle_axis"),
   ("pose conversion", L + "dual_quaternion.py from_pose/from_pose_vector/from_transformation_matrix/to_pose/to_matrix")],
  None, ["pose vectors, matrices and dual quaternions produced by the conversions"])

p("C04", "Screw parameters describe the motion and do not depend on the frame",
  "The screw axis, rotation angle and translation reported for a rigid motion are those of its screw motion, also for pure "
  "translations, half turns and both sign representations. The scalar part of a motion is unchanged when the motion is expressed in "
  "another frame, and equals half-angle cosine and the corresponding translation term.",
  ["inputs"],
  "all rigid motions and all changes of frame",
  "Tests check a few screw motions; invariance under change of frame is a statement about all pairs of motions.",
  [L + "dual_quaternion.py"],
  [("screw_axis", L + "dual_quaternion.py DualQuaternion.screw_axis"), ("scalar", L + "dual_quaternion.py DualQuaternion.scalar")],
  None, ["screw axis, angle, translation and scalar part"])

p("C05", "Orientation interpolation takes the shortest arc at constant rate",
  "Spherical interpolation between two unit quaternions returns the given orientations at the end points and, at every fraction in "
  "between, the unit quaternion that lies at that fraction of the shortest rotation, independent of the signs of the inputs; "
  "fractions outside [0,1] and non-unit inputs are rejected. Linear and normalized linear interpolation are the componentwise blend "
  "and its normalization. Angle and angular velocity between orientations are proportional to the relative rotation (and inversely "
  "to the time), never NaN for unit inputs, and the angular velocity ignores the sign of the quaternions.",
  ["inputs"],
  "all pairs of unit quaternions, signs and fractions",
  "Tests interpolate two or three pairs at fraction one half; sign flips, near-identical orientations and uneven fractions are not reached.",
  [L + "quaternion.py"],
  [("slerp, lerp, nlerp", L + "quaternion.py quaternion_slerp/quaternion_lerp/quaternion_nlerp/quaternions_interpolate"),
   ("angles and rates", L + "quaternion.py angle_between_quaternions/angular_velocity_between_quaternions")],
  None, ["interpolated quaternions", "angles and angular velocities"])

p("C06", "Re-basing a trajectory keeps its relative motions, order and length",
  "Re-basing a trajectory at any of its poses yields, in cyclic order starting with that pose, every pose relative to it: the first "
  "is the identity, all relative motions and the number of poses are preserved, and scalar parts are non-negative unless the caller asks to keep signs. "
  "The trajectory passed in is not changed, and the eye trajectory derived from a hand trajectory and the two fixed frames is "
  "the composition of world-to-base, hand pose and hand-to-eye for each pose.",
  ["inputs", "histories"],
  "all trajectories, all base indices, both sign representations, repeated re-basing",
  "Only reached by tests through one random trajectory at index 0.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("align_paths_at_index", L + "dual_quaternion_hand_eye_calibration.py align_paths_at_index"),
   ("compute_dual_quaternions_with_offset", L + "dual_quaternion_hand_eye_calibration.py compute_dual_quaternions_with_offset")],
  None, ["re-based trajectories", "input trajectories afterwards"])

p("C07", "The calibration is recovered exactly from consistent informative motion",
  "Given noise-free pairs of hand and eye poses that share one rigid hand-to-eye transform and whose motions rotate by less than 180 "
  "degrees about at least two non-parallel axes (and, if that transform is a half turn, not all perpendicular to its axis), the solver returns "
  "that transform, as a unit dual quaternion with non-negative scalar part. This holds for "
  "every such transform including identity, pure rotation, pure translation and half turns, every order of the poses and every choice of quaternion signs.",
  ["inputs"],
  "all trajectories of bounded length over a grid of motions, all hand-to-eye transforms of the grid, all sign choices",
  "The only test of the solver needs ROS and uses one random trajectory; exact symmetric configurations (where the equation system "
  "degenerates numerically) have measure zero in random tests.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("constraint matrix", L + "dual_quaternion_hand_eye_calibration.py setup_s_matrix/setup_t_matrix"),
   ("null space and quadratic equation", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration")],
  None, ["returned dual quaternion"])

p("C08", "Uninformative motion is flagged and inconsistent pairs are refused",
  "Motions that cannot determine the transform (no rotation, a single rotation, or only parallel axes) never yield a calibration without "
  "the quality flag being raised, and the flag is lowered exactly when the six largest of the reported singular values of the stacked constraint system are at "
  "least one half and the two smallest at most one half. Pairs whose screw invariants disagree by more than the given tolerance, and trajectories that do not start at "
  "the identity, are refused instead of being calibrated; smaller disagreements are no reason for refusal.",
  ["inputs"],
  "all short trajectories over a grid of motions, informative or not, consistent or not, and all tolerances",
  "No test looks at the flag or feeds degenerate or inconsistent motion.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("singular value check and assertions", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration/setup_s_matrix")],
  None, ["quality flag, singular values, raised errors"])

p("C09", "Prefiltering keeps exactly the distinct, informative pose pairs",
  "Prefiltering keeps, in order, exactly those pose pairs that move in both trajectories and whose screw axes, in both trajectories, "
  "have a dot product of at most the threshold with the axes of all pairs kept before. Hand and eye poses stay paired, kept poses are unaltered, the input "
  "is not changed, and fewer than two remaining pairs is an error.",
  ["inputs", "configurations"],
  "all pairs of axis sequences over a grid of axes, all thresholds",
  "No test covers prefiltering; greedy selection depends on the whole history of kept pairs in two lists at once.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("prefilter_using_screw_axis", L + "dual_quaternion_hand_eye_calibration.py prefilter_using_screw_axis")],
  [("remaining pairs", "pairs not yet removed", L + "dual_quaternion_hand_eye_calibration.py prefilter_using_screw_axis")],
  ["returned pose pairs", "input lists afterwards"])

p("C10", "Pose errors and inlier classification measure the true discrepancy",
  "The error between two poses is the distance of their positions and the angle in [0,180] degrees of the rotation between them, zero for equal "
  "orientations of either sign, symmetric, and never NaN. The evaluation of two trajectories reports the root mean square of these errors and marks as "
  "inliers exactly the pairs below both thresholds, and trajectories related by the true transform evaluate to zero error.",
  ["inputs", "configurations"],
  "all pairs of pose sequences over a grid, both quaternion signs, unnormalized quaternions, all thresholds",
  "Not reached by the tests that run; angles above 180 degrees and sign flips are needed to tell right from wrong.",
  [L + "dual_quaternion_hand_eye_calibration.py", L + "quaternion.py"],
  [("compute_pose_error", L + "dual_quaternion_hand_eye_calibration.py compute_pose_error"),
   ("evaluate_alignment", L + "dual_quaternion_hand_eye_calibration.py evaluate_alignment"),
   ("get_aligned_poses", L + "dual_quaternion_hand_eye_calibration.py get_aligned_poses")],
  None, ["error values, root mean squares, inlier flags"])

p("C11", "The sample search ends and returns the best candidate with its own figures",
  "Random and exhaustive search terminate on every input; exhaustive search considers every combination of the prefiltered pairs, random "
  "search stops after the configured number of accepted candidates or once the required confidence is reached. The result is a "
  "candidate that was evaluated, no other evaluated candidate is better in both position and orientation error, it rests on at least the "
  "configured minimum number of inliers, and the reported errors, inlier count, singular values and quality flag are those of that very candidate. If no candidate qualifies the search reports failure. The settings it is given stay as they were, for this search and the next.",
  ["inputs", "schedules", "configurations"],
  "all sequences of drawn samples and all outcomes of evaluating them, search modes and limits",
  "The tests that would run a search need ROS; bookkeeping errors show only for particular orders of better and worse samples, and "
  "termination is a statement about all draws.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("search loop", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration_RANSAC")],
  [("best candidate", "best transform so far and its figures", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration_RANSAC"),
   ("iteration counters", "drawn samples and accepted candidates", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration_RANSAC")],
  ["result tuple of the search", "samples drawn"])

p("C12", "Outlier pairs do not affect the calibration",
  "When enough pose pairs are consistent with one transform and the other pairs disagree in their screw invariants with them and with each other, "
  "every search variant that reports success returns that transform and counts exactly the consistent pairs as inliers, wherever the outliers "
  "sit in the sequence, including its start. Exhaustive variants always succeed on such data, and neither the poses nor their order as seen by the caller are changed.",
  ["inputs", "configurations", "fault_sequences"],
  "all placements of outlier pairs in a trajectory, all algorithm variants",
  "Needs ROS in the tests and uses one noise pattern; where the outliers sit decides whether the reference pose is one.",
  [L + "dual_quaternion_hand_eye_calibration.py", L + "algorithm_config.py"],
  [("inlier selection", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration_RANSAC"),
   ("algorithm variants", L + "algorithm_config.py")],
  None, ["result tuple of the search"])

p("C13", "The baseline picks the first large enough, or the largest, consistent set",
  "Without exhaustive search the baseline uses the first reference pose for which more than the configured number of pairs agree with it, with "
  "exhaustive search the first reference with the largest number, provided it reaches the configured minimum; otherwise it fails. It "
  "calibrates on exactly those pairs and reports their number, and its errors are evaluated with that reference pose on all pairs or on those pairs only, as configured. The settings stay as they were given.",
  ["inputs", "configurations"],
  "all agreement patterns between pairs of a trajectory, thresholds and search modes",
  "Not covered by tests that run; the outcome depends on the order of agreement counts over all references.",
  [L + "dual_quaternion_hand_eye_calibration.py"],
  [("baseline search", L + "dual_quaternion_hand_eye_calibration.py compute_hand_eye_calibration_BASELINE")],
  None, ["result tuple of the baseline"])

p("C14", "The time offset between two recordings of one motion is recovered",
  "The offset between two signals is the lag of the maximum of their cross correlation in seconds plus the difference of their start times: "
  "adding it to the first clock maps it to the second. For two recordings of the same rotation with different clocks, frames, quaternion "
  "signs, rates and rest periods before and after, the estimated offset equals the clock difference up to about two sampling intervals of the slower stream, whatever the direction "
  "of rotation and the magnitude of the time stamps. Before the comparison each recording is limited and smoothed with its own settings.",
  ["inputs"],
  "all short signals, all clock differences, all rest periods and frames",
  "The time alignment test fails at import in this environment and checks one signal; sign and reference conventions need shifted, unequal and unequally long signals.",
  [L + "time_alignment.py", L + "quaternion.py"],
  [("cross correlation", L + "time_alignment.py calculate_time_offset_from_signals"),
   ("resampling and angular rates", L + "time_alignment.py calculate_time_offset/resample_quaternions/compute_angular_velocity_norms/filter_and_smooth_angular_velocity")],
  None, ["estimated time offset"])

p("C15", "Time alignment pairs poses at common instants near real measurements",
  "After shifting the first stream by the offset, the aligned pairs lie at exactly those time stamps of the stream with the larger median interval (the first "
  "one if equal) that are in the common interval, strictly before the last interval of the other stream, and either coincide with a stamp of the other stream or have both its neighbours within 0.1 s. Both outputs "
  "carry the same stamps in increasing order, each pose being its stream's pose at that instant, and the inputs are not changed.",
  ["inputs"],
  "all pairs of increasing time stamp sequences with gaps, drops, offsets and coincidences",
  "The existing test cannot be imported here and covers one regular pattern; gaps, boundary stamps and unequal rates interact.",
  [L + "time_alignment.py"],
  [("sample selection", L + "time_alignment.py compute_aligned_poses")],
  [("samples", "selected time stamps", L + "time_alignment.py compute_aligned_poses")],
  ["aligned pose arrays", "input arrays afterwards"])

p("C16", "Pose interpolation in time is linear in position, spherical in rotation",
  "A time stamped trajectory evaluated at any instant within its span gives the position interpolated linearly and the "
  "orientation interpolated along the shortest rotation between the two neighbouring poses, and the recorded pose itself at recorded instants. This holds "
  "for any spacing and any magnitude of the time stamps, and instants outside the span are rejected.",
  ["inputs"],
  "all trajectories and instants over a grid, epoch-sized and small time stamps, uneven spacing",
  "Tests use small time stamps and even spacing; tolerance and index errors show only for large stamps or uneven spacing.",
  [L + "time_alignment.py", L + "quaternion.py"],
  [("interpolation", L + "time_alignment.py interpolate_poses_from_samples/resample_quaternions_from_samples/resample_quaternions")],
  None, ["interpolated poses and orientations"])

p("C17", "Pose files round-trip and JPL input is converted to Hamilton",
  "Writing time stamped poses and reading them back yields the same number of poses in the same order with the same stamps, positions and (normalized) orientations. Reading "
  "files in JPL convention conjugates every orientation consistently in all returned data, and nothing else differs from reading them as Hamilton.",
  ["inputs", "histories"],
  "all small pose tables, both conventions, chains of write and read",
  "No test reads or writes files.",
  [L + "csv_io.py", L + "bash_utils.py"],
  [("csv reading and writing", L + "csv_io.py")],
  None, ["arrays and quaternions returned by reading", "file contents"])

p("C18", "Calibration files round-trip and compose",
  "Storing a calibration and loading it restores its time offset and rigid transform for any transform, sign and scale of its representation; switching convention on both "
  "sides is the identity, switching on one side inverts the rotation only. Composing calibrations adds time offsets and composes transforms in order, and storing or printing one does not change it.",
  ["inputs", "histories"],
  "all rigid transforms over a grid, offsets, convention switches, sequences of store, load and compose",
  "No test stores or composes calibrations.",
  [L + "extrinsic_calibration.py", S + "close_the_circle_test.py"],
  [("json storage and composition", L + "extrinsic_calibration.py ExtrinsicCalibration")],
  None, ["stored file contents", "loaded and composed calibrations"])

p("C19", "Command line calibration gives one answer for equivalent inputs, or none",
  "From pose files alone the command line tools produce aligned poses, time offset and calibration equal to the true ones for noise-free recordings, and the result is the "
  "same whether hand and eye poses are supplied directly or inverted, or in JPL convention. Ambiguous, missing or unusable input ends with a failure status and no new calibration file.",
  ["inputs", "configurations"],
  "all combinations of input conventions and output requests, valid and invalid",
  "No test runs the command line tools.",
  [B + "compute_aligned_poses.py", B + "compute_hand_eye_calibration.py", S + "compute_complete_handeye_calibration.sh"],
  [("argument handling and conversion", B + "compute_hand_eye_calibration.py"), ("time alignment tool", B + "compute_aligned_poses.py")],
  None, ["exit status and output files of the tools"])

p("C20", "Rerunning a calibration after changes or crashes yields up-to-date results",
  "After any history of input changes, deleted files, failed stages and crashes between file writes, a calibration run that completes leaves every result file derived "
  "from the current inputs, and a run with nothing changed executes no stage. A stage that fails stops the run with an error and no later stage is executed; composing the pairwise results in order closes the circle.",
  ["crash_points", "histories", "fault_sequences"],
  "all bounded histories of touches, deletions, stage failures and crash points",
  "No test runs the pipeline, let alone interrupts it.",
  [S + "close_the_circle_test.py", S + "compute_complete_handeye_calibration.sh", L + "bash_utils.py"],
  [("up-to-date check", S + "close_the_circle_test.py requiresUpdate"), ("stages", S + "close_the_circle_test.py calibrateTwo"),
   ("command execution", L + "bash_utils.py run")],
  [("files", "contents and modification times of inputs, intermediate and result files", "file system")],
  ["executed stages", "files after the run", "exit status"])

p("C21", "Experiment runs record every calibration exactly once and completely",
  "For any number of pose sets each run appends, per algorithm and iteration, one row per unordered pair of sets in order, with every column matching the header's "
  "meaning, and the header appears once however often the experiment is run. Each optimization is started for the files of its pair with that pair's initial guess and is told which of the two sensors is absolute, and keeps its files: no other optimization of the run writes over them. A pair whose calibration or optimization fails is recorded as failed without losing other rows, and a loop error is recorded exactly if all pairs succeeded.",
  ["inputs", "histories", "fault_sequences"],
  "all small numbers of sets and iterations, all subsets of failing pairs and optimizations, repeated runs",
  "No test runs the experiments.",
  [X + "bin/compute_set_of_hand_eye_calibrations.py", X + "python/hand_eye_calibration_experiments/experiment_results.py",
   X + "python/hand_eye_calibration_experiments/all_algorithm_configs.py"],
  [("experiment loop", X + "bin/compute_set_of_hand_eye_calibrations.py"),
   ("result rows", X + "python/hand_eye_calibration_experiments/experiment_results.py ResultEntry")],
  None, ["results table", "files of stored transforms", "commands executed"])

p("C22", "Loop and calibration errors are zero exactly for consistent calibrations",
  "The loop error over all pairwise calibrations of any number of sensors is the pose error of the chain first-to-second, ..., to last and back from last to first, so it "
  "vanishes for consistent calibrations and reveals any deviation in a member of that chain. Evaluating a calibration on two recordings applies its time offset and transform: the true one gives zero error with every aligned pair "
  "an inlier, and recordings without common time give infinite error and no inliers.",
  ["inputs"],
  "all numbers of sensors up to a bound, all transforms over a grid, a deviation in any member",
  "No test computes a loop error; index arithmetic over pair lists is right for three sensors by accident.",
  [L + "calibration_verification.py"],
  [("loop error", L + "calibration_verification.py compute_loop_error"), ("evaluation", L + "calibration_verification.py evaluate_calibration")],
  None, ["loop error", "evaluation result"])

p("C23", "Exported transforms are complete, ordered and looked up at their own time",
  "Exporting a frame from a recording writes, in recorded order, one row for every transform of the source frame that can be looked up and whose stamp "
  "advances over the last exported one, containing the stamp and the looked-up target-from-source transform at exactly that stamp. Failed look-ups and repeated stamps are skipped without affecting other rows.",
  ["inputs", "fault_sequences"],
  "all short message histories with several frames, repeated or decreasing stamps and failing look-ups",
  "No test covers the export; it needs recordings.",
  [B + "tf_to_csv.py"],
  [("export loop", B + "tf_to_csv.py write_transformation_to_csv_file")],
  [("previous stamp", "stamp of the last exported row", B + "tf_to_csv.py")],
  ["csv file"])

p("C24", "Batch export issues exactly the configured extraction commands",
  "For every bag in a configuration and, within it, every frame pair and then every camera, one export command is issued with the matching bag, frames, topic, calibration "
  "and an output name identifying them, in order, whichever sections are empty; lists of unequal length are refused. The target extraction command carries the board geometry of the target file and the given camera, topic and output names.",
  ["inputs", "configurations"],
  "all small configurations with empty sections and unequal lists",
  "No test covers the batch tools.",
  [B + "bag_to_csv_with_config.py", B + "target_extractor_interface.py"],
  [("command construction", B + "bag_to_csv_with_config.py"), ("target extractor call", B + "target_extractor_interface.py")],
  None, ["commands executed"])

p("C25", "Result tables are aggregated without mixing or failed entries",
  "Collecting result tables groups errors and total run times (calibration plus optimization) by data set and algorithm in order of first appearance, over any number of files, and leaves out exactly the rows of failed "
  "or badly conditioned calibrations and of failed optimizations. The loop error of every remaining row that has one (not -1) stays paired with the perturbation recorded in the same row.",
  ["inputs"],
  "all small sets of result rows over several files, data sets, algorithms and outcomes",
  "No test reads result tables.",
  [X + "python/hand_eye_calibration_experiments/experiment_plotting_tools.py"],
  [("collection", X + "python/hand_eye_calibration_experiments/experiment_plotting_tools.py collect_data_from_csv")],
  None, ["aggregated data"])

p("C26", "Perturbed initial guesses deviate by exactly the reported amounts",
  "Perturbing a calibration changes its time offset, translation and rotation by amounts within the requested ranges, and the "
  "reported offsets are exactly the differences between the perturbed and the original calibration, which itself is not changed.",
  ["inputs", "configurations"],
  "all calibrations and ranges over a grid, many random draws",
  "No test covers the perturbation.",
  [X + "bin/optimization_experiments.py"],
  [("perturbation", X + "bin/optimization_experiments.py spoil_initial_guess")],
  None, ["perturbed calibration and reported offsets"])

p("C27", "Plots show every measurement at its own label and in its own cell",
  "The box plots show for every data set and algorithm exactly the errors and total run times collected for it, at the label of that algorithm, also if an algorithm has no result for a data set. The error maps put every run into the one cell whose "
  "intervals, closed below and open above, contain the magnitudes of its angle, translation and time perturbation, every cell shows the mean loop error of exactly its runs under labels naming its intervals, and maps with runs outside the grid or a "
  "cell without the required number of runs are refused.",
  ["inputs", "configurations"],
  "all small sets of runs on, between and outside the lines of small grids in every arrangement of the axes, complete grids, whole runs of the program",
  "No test draws a plot.",
  [X + "bin/generate_plots.py"],
  [("error maps", X + "bin/generate_plots.py generate_optimization_circle_error_plot"), ("box plots", X + "bin/generate_plots.py generate_box_plot, generate_time_plot")],
  None, ["figures drawn"])

p("C28", "Dual quaternions follow the algebra of dual numbers over quaternions",
  "For all dual quaternions, also those that are not normalized or stand for no rigid motion, sum, difference, product and quotient with scalars and dual "
  "quaternions, conjugate, inverse, norm, scalar part and component access are those of the algebra r + eps e with eps squared zero. They leave their operands unchanged and share no storage with them; "
  "normalization divides by the norm of the rotational part, and enforcing a positive rotational scalar negates all components or none. A dual quaternion is reported as normalized exactly if its "
  "norm is one with zero dual part, and equals another exactly if all eight components agree (both up to rounding); anything that is no dual quaternion is never equal and is refused as a factor unless it is a number.",
  ["inputs", "histories"],
  "all pairs of a pool of dual quaternions with integer parts, all calls, magnitudes from 1e-7 to 1e6, simulated sequences of ten calls",
  "The tests check a few products and inverses of single values, mostly of normalized dual quaternions.",
  [L + "dual_quaternion.py"],
  [("dual quaternions", L + "dual_quaternion.py DualQuaternion"), ("their parts", L + "quaternion.py Quaternion")],
  None, ["result of every call", "operands after every call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for q in props:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
    f.write(json.dumps(q) + '\n')
