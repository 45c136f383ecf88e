#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))
EX = "extraction/include/lidar_feature_extraction/"
LI = "lib/include/lidar_feature_library/"
LO = "localization/include/lidar_feature_localization/"

p("E01", "Scan lines are grouped by ring, azimuth-ordered, and nothing is lost",
  "Splitting a cloud into scan lines puts every point of the cloud in exactly one line, the one of its ring number, and orders each line by non-decreasing azimuth angle (the atan2(y, x) order, positive and negative zero alike). Removing sparse lines removes exactly the lines with fewer points than the requested minimum and leaves all others untouched. Iterating over a line visits exactly the points of that line, in that order.",
  ["inputs"], "All point clouds: any ring numbers, sizes, signs and zeros of coordinates, points on the axes, duplicates.",
  "Tests use a handful of points in one or two rings; they never compare the order with atan2 on arbitrary points, on-axis points or duplicates, and the ring code is not even built by the stable tests.",
  [EX+"ring.hpp", "extraction/src/ring.cpp", EX+"mapped_points.hpp", EX+"cloud_iterator.hpp"],
  [("ring extraction and polar-angle comparator", "extraction/include/lidar_feature_extraction/ring.hpp"), ("indirect view of a cloud", EX+"mapped_points.hpp")],
  ["ExtractAngleSortedRings", "RemoveSparseRings", "MappedPoints"])

p("E02", "Curvature is the squared, zero-bordered second difference of range",
  "The curvature of a scan line is, at every interior point, the square of the range-weighted window sum (each of the `padding` neighbours on both sides weighted +1, the centre weighted -2*padding), and exactly zero at the `padding` first and last points. The output has one value per point, is never negative, vanishes for constant (and linear) range, scales with the square of the range scale and mirrors when the line is reversed. A line too short for the window is rejected with an exception instead of being read out of bounds.",
  ["inputs"], "All range sequences of any length, all paddings >= 1, all convolution kernels.",
  "Tests convolve one or two hand-written vectors with one kernel; the identity must hold for every length/padding combination, in particular at the window borders.",
  [EX+"convolution.hpp", "extraction/src/convolution.cpp", EX+"curvature.hpp", "extraction/src/curvature.cpp", EX+"range.hpp", EX+"math.hpp", "extraction/src/math.cpp"],
  [("1-D convolution", "extraction/src/convolution.cpp"), ("weights and squaring", "extraction/src/curvature.cpp"), ("per-point range", EX+"range.hpp")],
  ["Convolution1D", "MakeWeight", "CalcCurvature", "Range"])

p("E03", "Block boundaries partition a scan line exactly and evenly",
  "Dividing an index interval into n blocks yields contiguous, non-overlapping blocks in order that cover the interval exactly, with sizes that differ by at most one. With padding the divided interval is exactly the line without its `padding` first and last points. Block numbers outside the range and intervals too short to be divided are rejected with an exception.",
  ["inputs"], "All intervals (including large and offset ones), block counts and paddings.",
  "Tests check two or three fixed (start, end, n) triples; rounding errors only show for particular combinations of offset, length and count.",
  [EX+"index_range.hpp", "extraction/src/index_range.cpp"],
  [("boundary computation", "extraction/src/index_range.cpp")], ["IndexRange", "PaddedIndexRange"])

p("E04", "Edges and surfaces are chosen greedily by curvature, never across gaps",
  "Within each block edge points are taken in order of decreasing curvature among the still unlabelled points with curvature at or above the edge threshold, and each taken point marks the up-to-`padding` points on both sides as its neighbours, stopping at the first break between non-neighbouring points or at the end of the block; surface points are then taken in order of increasing curvature at or below the surface threshold in the same way. A selected feature is never overwritten by the neighbourhood of another one, no two features of one kind lie within an unbroken window of each other, and no eligible point is left unlabelled. Labelling one block never touches a point of another block.",
  ["inputs"], "All curvature sequences, neighbour-break patterns, paddings, thresholds, block layouts.",
  "Label tests cover a few hand-made lines and are not in the stable set (the header needs ROS logging); greedy order, window borders and gap stopping interact combinatorially.",
  [EX+"label.hpp", EX+"fill.hpp", EX+"point_label.hpp", EX+"neighbor.hpp", EX+"algorithm.hpp"],
  [("greedy labelling", EX+"label.hpp"), ("window filling with break detection", EX+"fill.hpp")],
  ["EdgeLabel::Assign / SurfaceLabel::Assign", "AssignLabel", "FillFromLeft/FillFromRight/FillNeighbors"])

p("E05", "Occluded, out-of-range and parallel-beam points are exactly the specified ones",
  "A point is marked occluded exactly when it is among the `padding`+1 points on the far side of a range jump larger than the threshold between two neighbouring points, up to the first break between non-neighbours (jumps whose whole far-side window lies inside the line); it is marked out of range exactly when its range is outside the closed [min, max] interval; and it is marked parallel-beam exactly when it is an interior point whose range differs from both adjacent ranges by more than the given ratio of its own range. Labels of all other points stay as they were. Results mirror when the scan line is mirrored.",
  ["inputs"], "All range sequences and neighbour patterns long enough for the padding, all thresholds.",
  "Tests use one or two fixed lines of equal-angle points; the boundaries (first/last windows, exact thresholds, break positions) form an input space they do not sample, and these headers are not in the stable build.",
  [EX+"occlusion.hpp", EX+"out_of_range.hpp", EX+"parallel_beam.hpp", EX+"fill.hpp", EX+"range.hpp"],
  [("occlusion from both sides", EX+"occlusion.hpp"), ("range gate", EX+"out_of_range.hpp"), ("parallel beams", EX+"parallel_beam.hpp")],
  ["LabelOccludedPoints", "LabelOutOfRange", "LabelParallelBeamPoints"])

p("E06", "The extraction node publishes exactly the features of each scan, statelessly",
  "For every received dense scan the node publishes one edge cloud, one surface cloud and one coloured cloud carrying the input stamp and the lidar frame; edges and surfaces are exactly the input points the labelling rules select, with unchanged coordinates, and the coloured cloud contains every point of every scan line that was long enough, coloured by its label. Lines too short to process (fewer than two interior points per block) or with adjacent returns at the origin contribute nothing and do not disturb other lines. What is published for a scan depends only on that scan and the parameters, never on the messages before it. A scan that is not dense or has no ring channel publishes nothing and shuts the node down.",
  ["inputs", "histories", "configurations"], "All sequences of dense clouds with ring numbers (from a single point to 128 lines of 2500 points), unusable clouds in between, all valid parameter sets.",
  "No existing test runs the node at all (it needs ROS); unit tests check pieces, not the pipeline order, thresholds plumbing or statelessness.",
  ["extraction/app/feature_extraction.cpp", EX+"hyper_parameter.hpp", EX+"label.hpp", EX+"ring.hpp", EX+"color_points.hpp"],
  [("per-scan pipeline", "extraction/app/feature_extraction.cpp")], ["topics scan_edge, scan_surface, colored_scan"])

p("E07", "Angle and neighbour tests on adjacent points are exact, symmetric, never NaN",
  "The angle between two horizontal directions is the true angle in [0, pi], the same in either argument order and for any positive scaling of either vector, and is never NaN for non-zero vectors; two zero vectors are rejected with an exception. Two adjacent points are neighbours exactly when this angle is below the threshold. Index arguments outside the line are rejected with an exception.",
  ["inputs"], "All pairs of finite 2-D vectors, in particular parallel, opposite and tiny ones; all scan lines and indices.",
  "Tests check a few unit vectors; rounding makes the cosine exceed 1 only for particular parallel vectors, and a NaN angle silently becomes 'not a neighbour'.",
  ["extraction/src/math.cpp", EX+"math.hpp", EX+"neighbor.hpp"],
  [("angle computation", "extraction/src/math.cpp"), ("neighbour predicate and slices", EX+"neighbor.hpp")],
  ["CalcRadian", "NeighborCheckXY"])

p("E08", "Feature colouring keeps every point and maps value and label to fixed colours",
  "Colouring a scan line yields one output point per input point, in order, with unchanged coordinates; colouring by label depends only on the label, with distinct colours for distinct kinds of labels (an edge and a surface are the same kind, as are their neighbourhoods). Colouring by value maps the interval [min, max] monotonically onto the full 0..255 colour ramp, clamping outside it, independent of adding the same offset to value, min and max.",
  ["inputs"], "All clouds, label sequences and value/min/max triples.",
  "The colour code has no test of the value ramp and one of three labels; the file is outside the stable build.",
  [EX+"color_points.hpp", "extraction/src/color_points.cpp"],
  [("label and value colouring", "extraction/src/color_points.cpp")], ["ColorPointsByLabel", "ColorPointsByValue", "LabelToColor", "ValueToColor"])

p("L01", "The Gauss-Newton step solves the weighted least-squares normal equations",
  "For residuals, Jacobians and weights of a well-conditioned problem the pose update is the minimiser of the weighted sum of squared linearised residuals, expressed in the tangent space of the rotation; it does not depend on the order of the residuals and is unaffected by splitting or by residuals of weight zero. When the problem is degenerate (an eigenvalue of the unweighted normal matrix is below the threshold) the update is exactly zero, never NaN.",
  ["inputs"], "All residual/Jacobian/weight sets (any count, scale, rank).",
  "Tests solve one or two fixed systems; rank and scale must be explored to see the degenerate switch and the weighting.",
  ["localization/src/optimizer.cpp", LO+"optimizer.hpp", "localization/src/degenerate.cpp"],
  [("weighted update", "localization/src/optimizer.cpp"), ("degeneracy test", "localization/src/degenerate.cpp")],
  ["WeightedUpdate", "CalcUpdate", "IsDegenerate"])

p("L02", "The optimiser stays rigid, converges when it can, and reports truthfully",
  "For every alignment problem and starting pose the optimiser returns a rigid transform (orthonormal rotation, determinant +1) with an error value and status consistent with the last pose it evaluated; with exact correspondences and a starting pose near the solution it recovers the true transform. Starting at the exact solution leaves the pose unchanged. It stops within its iteration limit, and for an empty problem returns the initial pose unchanged.",
  ["inputs"], "All correspondences (counts, geometry, noise, outliers), initial poses and iteration limits.",
  "Tests run a fixed point set and a fixed pose; convergence basins and robust weighting with outliers need sampling over geometry.",
  [LO+"optimizer.hpp", "localization/src/optimizer.cpp", LO+"optimization_result.hpp", LO+"alignment.hpp", "localization/src/alignment.cpp", "localization/src/posevec.cpp"],
  [("iteration loop with stop rules", LO+"optimizer.hpp"), ("pose update on the manifold", "localization/src/posevec.cpp")],
  ["Optimizer::Run", "OptimizationResult"])

p("L03", "Robust statistics equal their definitions on every sample",
  "Median, median absolute deviation and the derived scale equal their textbook definitions for every sample; they do not depend on the order of the sample, median and scale are equivariant under shifting and scaling, and the scale ignores outliers in less than half of the sample. Huber loss and its derivative are continuous functions of the squared error, quadratic in the residual near zero and linear in it beyond the threshold, and the derived weights lie in (0, 1] and do not increase with the error. Empty input is rejected.",
  ["inputs"], "All finite non-empty samples (odd/even sizes, duplicates, sorted, reversed), all thresholds.",
  "Tests evaluate a few five-element samples; order statistics bugs appear for particular sizes, ties and orders.",
  ["localization/src/robust.cpp", LO+"robust.hpp", "docs/source/robust_stddev_estimator.rst"],
  [("order statistics and Huber functions", "localization/src/robust.cpp")],
  ["Median", "MedianAbsoluteDeviation", "Scale", "Huber", "HuberDerivative", "ComputeWeights"])

p("L04", "Residual Jacobians equal the derivatives of the residuals they linearise",
  "For every pose and correspondence the Jacobians of the alignment, edge and surface residuals equal the numerical derivatives of those residuals with respect to the pose. Edge residuals measure the offset of the transformed point from its line and surface residuals its signed distance from its plane, up to the orientation chosen for the line or plane: both vanish exactly on the line or plane and are invariant to moving the point along it.",
  ["inputs"], "All rigid poses, points, lines and planes in a working range.",
  "Tests compare at one or two poses; a wrong sign or transposed factor may cancel at special poses, and the identity must hold everywhere.",
  ["localization/src/jacobian.cpp", "localization/src/edge.cpp", LO+"edge.hpp", LO+"surface.hpp", "localization/src/alignment.cpp", LO+"math.hpp", "rotationlib/src/jacobian/quaternion.cpp"],
  [("analytic Jacobians", "localization/src/jacobian.cpp"), ("edge residual", "localization/src/edge.cpp"), ("surface residual", LO+"surface.hpp")],
  ["MakeEdgeJacobianRow / MakeEdgeResidual", "Surface::Make", "AlignmentProblem::Make"])

p("L05", "Nearest-neighbour search returns the true k nearest map points, sorted",
  "For every map and query the search returns exactly min(k, map size) points that are map points, with their squared distances to the query, in non-decreasing distance, and no other map point is closer than any returned one. The answer equals brute force for any map size, dimension and duplicate structure, does not depend on earlier queries, and never contains an invented point.",
  ["inputs", "histories"], "All point matrices, queries, k and leaf sizes, repeated queries.",
  "One fixed test that is not in the stable build; approximate search parameters, ties and k larger than the map are never exercised.",
  ["localization/src/kdtree.cpp", LO+"kdtree.hpp", LO+"pointcloud_to_matrix.hpp"],
  [("tree construction and query", "localization/src/kdtree.cpp")], ["KDTreeEigen::NearestKSearch"])

p("L06", "Scan-to-map localisation recovers the sensor pose and keeps edge/surface apart",
  "For a map with enough edge and surface structure and a scan taken from a pose near the prior, the localiser converges to that pose, and localising the same scan from the same prior always gives the same result. The combined problem is exactly the edge problem followed by the surface problem, residual by residual; an empty edge or surface part contributes nothing. It is equivariant: moving map and prior together moves the estimate with them. A few percent of points that belong to no structure of the map move the estimate by at most centimetres.",
  ["inputs", "histories"], "All synthetic structured maps, scans, priors near the truth, repeated runs.",
  "No test runs the localiser end to end; pieces are tested with mock data.",
  [LO+"localizer.hpp", LO+"loam_optimization_problem.hpp", LO+"edge.hpp", LO+"surface.hpp", LO+"optimizer.hpp", LO+"edge_surface_scan.hpp"],
  [("concatenated problem", LO+"loam_optimization_problem.hpp"), ("localiser", LO+"localizer.hpp")],
  ["Localizer::Update", "LOAMOptimizationProblem::Make"])

p("L07", "The stamp-sorted store behaves as an ordered map under any history",
  "Under any sequence of insertions, size queries, closest-stamp lookups and removals the store behaves as a sorted map from stamp to object: the size is the number of entries present, the closest lookup returns an entry whose stamp is at minimal distance from the query, and a removal drops exactly the entries newer than the given stamp and keeps all others. A lookup in an empty store is a precondition violation. Concurrent use from several threads never corrupts it and yields results some sequential order explains.",
  ["histories", "schedules"], "All operation sequences (any stamp order, duplicates, removals hitting none, some or all entries) and all interleavings of such calls.",
  "Tests run one or two insertions and one removal that keeps part of the entries; removal of everything, exact-tie lookups and concurrency are never reached.",
  [LO+"stamp_sorted_objects.hpp"], [("locked sorted container", LO+"stamp_sorted_objects.hpp")],
  ["StampSortedObjects"], [("objects_", "stamp -> object", LO+"stamp_sorted_objects.hpp")])

p("L08", "Recent-scan map yields exactly the last n scans; odometry accumulates over them",
  "After any history of insertions the recent scans asked for are exactly the last n inserted clouds (all of them when fewer were inserted), in order, and the map they yield is exactly the concatenation of those clouds, each transformed once by its own pose. Odometry over this map places the first scan at identity and starts every later scan from the previous pose against the recent map, so all poses refer to the same origin. Emptiness is reported truthfully.",
  ["histories"], "All insertion histories and window sizes, all poses.",
  "Tests insert two or three clouds; eviction after long histories and pose bookkeeping are not reached, and test_odometry is outside the stable build.",
  [LO+"recent_scans.hpp", LO+"point_cloud_map.hpp", LO+"odometry.hpp", LO+"edge_surface_scan.hpp"],
  [("bounded queue of scans", LO+"recent_scans.hpp"), ("odometry", LO+"odometry.hpp")],
  ["RecentScans", "PointCloudMap", "Odometry::Update"])

p("L09", "The localisation node pairs each scan with its nearest prior and reports it",
  "For every history of prior poses and scan pairs the node publishes exactly one pose estimate and one transform per scan pair received when a prior is available, stamped with the scan's stamp, in the map frame, and started from the received prior whose stamp is closest to the scan's; with no prior available nothing is published. Published pose and transform agree, and the rotation is a unit quaternion.",
  ["histories"], "All interleavings of odometry priors, pose priors and edge/surface scan pairs with any stamps.",
  "The node has no test at all.",
  ["localization/app/localization.cpp", LO+"subscriber.hpp", LO+"stamp_sorted_objects.hpp", LO+"localizer.hpp"],
  [("subscriber callbacks", LO+"subscriber.hpp")], ["topics estimated_pose, /tf"])

p("L10", "Local covariance, principal axes and degeneracy tests match linear algebra",
  "The covariance of any set of points is the exact population covariance about its mean: symmetric, positive semi-definite, shift invariant, quadratic in scale and independent of point order. Principal components returned for it are its eigenvectors in ascending eigenvalue order, a line direction is called reliable exactly when the largest eigenvalue sufficiently dominates the next, and a system is called degenerate exactly when its smallest eigenvalue is below the threshold.",
  ["inputs"], "All finite point matrices and symmetric matrices.",
  "Tests check one matrix each; equality with the definition must hold at every size and spectrum.",
  [LI+"eigen.hpp", "lib/src/eigen.cpp", LI+"stats.hpp", "lib/src/stats.cpp", "localization/src/edge.cpp", "localization/src/degenerate.cpp", LO+"edge.hpp"],
  [("covariance and principal components", "lib/src/eigen.cpp"), ("degeneracy threshold", "localization/src/degenerate.cpp")],
  ["CalcCovariance", "PrincipalComponents", "PrincipalIsReliable", "IsDegenerate"])

p("K01", "The linear Kalman filter follows the Kalman equations over any history",
  "For every model and every history of predictions and updates, state and covariance equal those of the textbook Kalman recursion; the covariance stays symmetric positive semi-definite, an update never increases it, and an update with the predicted value leaves the state unchanged. The filter object can be created, initialised, used and destroyed any number of times independently.",
  ["inputs", "histories"], "All dimensions, model matrices, control inputs, noise levels and operation sequences.",
  "There is no test of the plain filter's equations at all.",
  ["kalman_filter/include/kalman_filter/kalman_filter.hpp", "kalman_filter/src/kalman_filter.cpp"],
  [("predict/update", "kalman_filter/src/kalman_filter.cpp")], ["KalmanFilter"])

p("K02", "A delayed update equals fusing it into the augmented history of past states",
  "Over any history of predictions and (delayed) updates the filter's current and past states and covariances equal those of a Kalman filter whose state is the stack of the last m states, where a prediction shifts the stack by one and a measurement of delay d observes the d-th block. A measurement with a delay beyond the stack or one giving a non-finite gain is rejected and changes nothing. Delay zero equals an ordinary update of the current state (and of its correlated past).",
  ["histories"], "All dimensions, stack lengths, model matrices, measurement matrices, delays and operation sequences.",
  "Tests run one prediction and one or two updates with fixed numbers; block bookkeeping errors appear only after particular sequences of shifts and delays.",
  ["kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp", "kalman_filter/src/time_delay_kalman_filter.cpp"],
  [("augmented state shift and update", "kalman_filter/src/time_delay_kalman_filter.cpp")],
  ["TimeDelayKalmanFilter"])

p("F01", "The vehicle motion model, its Jacobian and its noise are mutually consistent",
  "The predicted state follows planar unicycle motion with yaw bias (position advances along yaw plus bias by velocity times dt, yaw by yaw rate times dt and stays normalised to [-pi, pi], bias and velocities are constant), the transition matrix is the derivative of that prediction at every state, and the process noise is diagonal, non-negative and acts only on yaw, yaw bias, velocity and yaw rate. Yaw normalisation returns an equivalent angle within [-pi, pi] for every finite angle.",
  ["inputs"], "All states, time steps and noise parameters, including angles far outside one turn.",
  "Tests evaluate one state with one dt.",
  ["ekf_localizer/src/state_transition.cpp", "ekf_localizer/include/ekf_localizer/normalize_yaw.hpp", "ekf_localizer/include/ekf_localizer/state_index.hpp"],
  [("prediction, Jacobian, noise", "ekf_localizer/src/state_transition.cpp")],
  ["PredictNextState", "CreateStateTransitionMatrix", "ProcessNoiseCovariance", "normalizeYaw"])

p("F02", "Pose and twist measurements are delayed, gated and fused by the stated rules",
  "Over any history of queued pose and twist messages and filter ticks, each pending message is fused at most once per tick and exactly as many times in total as the smoothing setting says, in arrival order, at the delay step nearest to its age, with its covariance scaled by the smoothing steps and yaw innovation taken the short way round; messages that are expired, non-finite, too far delayed or outside the gate leave the filter unchanged and never affect other messages; a wrong frame name or a stamp in the future only warns, the message being fused as a current one.",
  ["histories", "fault_sequences"], "All sequences of pose/twist messages (ages, frames, NaN/Inf values, outliers, yaw near the wrap) and ticks.",
  "These files need ROS and have one or two tests outside the stable set, none with more than one message.",
  ["ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/twist_measurement.cpp", "ekf_localizer/src/check.cpp", "ekf_localizer/src/mahalanobis.cpp", "ekf_localizer/include/ekf_localizer/delay.hpp", "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp"],
  [("measurement queue processing", "ekf_localizer/src/pose_measurement.cpp"), ("checks and warnings", "ekf_localizer/src/check.cpp")],
  ["PoseMeasurement", "TwistMeasurement", "the filter's state and covariance"])

p("F03", "The measurement queue delivers each message exactly its allotted times",
  "Under any history of pushes, reads and clears, every pushed message is returned exactly `max age` times in total (once for ages below one) and then disappears; messages come out in first-in first-out rotation, none is lost, duplicated or returned after a clear, and size and emptiness are exact at every moment. Reading an empty queue is the only precondition violation.",
  ["histories"], "All push/pop/clear sequences and maximum ages.",
  "Tests use up to three objects with a fixed age.",
  ["ekf_localizer/include/ekf_localizer/aged_message_queue.hpp"], [("age counting queue", "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp")],
  ["AgedMessageQueue"])

p("F04", "Update interval, delay step, gating distance and name helpers equal definitions",
  "The first tick reports the default period and every later tick the elapsed time since the previous tick, capped at the maximum and rejecting a clock that moved backwards without losing track. The delay step is the delay divided by the period rounded to the nearest step, saturating for any finite or infinite delay; the gating distance is the true Mahalanobis distance for every positive definite covariance. Removing a leading slash changes only a single leading slash and accepts every string.",
  ["inputs", "histories"], "All tick time sequences, delays, periods, vectors and covariances, strings.",
  "Tests cover two ticks, one distance and two non-empty strings; delay steps have no test.",
  ["ekf_localizer/src/update_interval.cpp", "ekf_localizer/include/ekf_localizer/delay.hpp", "ekf_localizer/src/mahalanobis.cpp", "ekf_localizer/src/string.cpp", "ekf_localizer/src/check.cpp"],
  [("interval", "ekf_localizer/src/update_interval.cpp"), ("delay step", "ekf_localizer/include/ekf_localizer/delay.hpp"), ("distance", "ekf_localizer/src/mahalanobis.cpp")],
  ["UpdateInterval", "ComputeDelayStep", "Mahalanobis", "EraseBeginSlash"])

p("F05", "The EKF node's published odometry follows the fused filter over any history",
  "After any history of initial poses, pose and twist measurements and timer ticks, the node publishes nothing before an initial pose, then exactly one odometry message and transform per tick with the configured frames and the tick's time, whose pose, velocity and covariance are those of the filter fed with the same measurements; an initial pose, given in any frame with a known planar transform, resets the filter (height, roll and pitch included) to it, and one whose frame cannot be transformed changes nothing. All published values stay finite and the quaternion stays unit, whatever measurements arrive.",
  ["histories", "configurations", "fault_sequences"], "All histories of messages and ticks, parameter sets, missing transforms, non-finite measurements.",
  "The node has no behavioural test; correctness depends on the interplay of timer, queues, delays and resets.",
  ["ekf_localizer/src/ekf_localizer.cpp", "ekf_localizer/include/ekf_localizer/ekf_localizer.hpp", "ekf_localizer/src/covariance.cpp", "ekf_localizer/src/tf.cpp"],
  [("node callbacks", "ekf_localizer/src/ekf_localizer.cpp")], ["topic ekf_odom, /tf"])

p("F06", "Filter covariance entries map to the right message covariance slots",
  "The published 6x6 pose covariance carries the filter's x, y, yaw variances and cross-covariances in the x, y, yaw rows and columns and the published twist covariance the velocity and yaw-rate ones in theirs, and all other entries are zero. Reading x, y, yaw (or velocity, yaw rate) entries back out of a message covariance gives exactly those entries, so writing and reading is lossless and symmetric. The noise of a measurement is its covariance times the number of smoothing steps.",
  ["inputs"], "All 6x6 filter covariances and all 36-element message covariances.",
  "Tests check one matrix with a few entries set, and the conversion test is outside the stable build.",
  ["ekf_localizer/src/covariance.cpp", "ekf_localizer/include/ekf_localizer/covariance.hpp", "ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/twist_measurement.cpp"],
  [("covariance packing", "ekf_localizer/src/covariance.cpp")], ["EKFCovarianceToPoseMessageCovariance", "EKFCovarianceToTwistMessageCovariance"])

p("R01", "Rotation algebra and rotation-vector steps obey their group laws",
  "The cross-product matrix, left and right quaternion product matrices, component conversions, roll-pitch-yaw and rotation-vector conversions and the rotation Jacobians satisfy their defining identities for all arguments: products agree with quaternion multiplication, a rotation vector becomes the rotation about it by its length (identity below the small-angle limit), roll-pitch-yaw is yaw after pitch after roll, conversions round-trip up to sign, and Jacobians equal the derivatives they stand for. Composing the steps of a constant rate keeps a unit rotation and reproduces the rotation by the total angle.",
  ["inputs"], "All vectors and quaternions, in particular tiny angles, half turns and negative-scalar quaternions.",
  "Tests check a few fixed rotations.",
  ["rotationlib/src/quaternion.cpp", "rotationlib/src/hat.cpp", "rotationlib/src/jacobian/quaternion.cpp", "imu_integration/include/imu_integration/integration.hpp", "localization/src/posevec.cpp", "localization/src/jacobian.cpp"],
  [("rotation functions", "rotationlib/src")], ["Hat", "ExpSO3-like functions", "quaternion product matrices"])

p("B01", "Geometry message conversions round-trip and preserve the pose",
  "Converting a rigid transform to a pose or transform message and back reproduces it, positions, vectors, twists, covariances and quaternions are copied component by component, markers hold exactly the lines added with the width and colour set, message stamps and frames are exactly the ones passed in, and clouds survive conversion to a message and back unchanged with the given frame and stamp. Stamps convert to nanoseconds exactly as seconds times 1e9 plus nanoseconds (within double precision).",
  ["inputs"], "All rigid transforms, quaternions, stamps, frames and clouds.",
  "Tests convert a single pose and are outside the stable build.",
  [LI+"ros_msg.hpp", "lib/src/ros_msg.cpp", LI+"eigen.hpp", "lib/src/lib.cpp"],
  [("message constructors", "lib/src/ros_msg.cpp")], ["MakePose...", "MakeTransformStamped", "ToRosMsg / GetPointCloud", "AddLine"])

p("B02", "Cloud and transform utilities preserve geometry",
  "A rigid transform built from a rotation and a translation applies exactly these, converting between point types keeps every coordinate, and cloud transformation maps each point by exactly that transform, in order. Downsampling returns one point per occupied voxel, each inside the bounding box of the points it replaces, and never more points than the input.",
  ["inputs"], "All rigid transforms, clouds, leaf sizes.",
  "Tests transform one or two points; downsampling and point-type conversion have none.",
  [LI+"eigen.hpp", "lib/src/eigen.cpp", LI+"downsample.hpp", LI+"convert_point_cloud_type.hpp", LI+"pcl_utils.hpp", "lib/src/pcl_utils.cpp", LO+"posevec.hpp"],
  [("utilities", "lib/src")], ["MakeIsometry3d", "TransformPointCloud", "Downsample", "ConvertPointCloudType"])

p("B03", "Span, index, sorting and statistics helpers equal their definitions",
  "Views over a sub-range alias exactly the elements of that range and reject out-of-range access; index sorting is a permutation ordering the values; filtering by flags keeps exactly the flagged elements in order; row stacking and covariance arrays keep every element in place; numeric helpers (inner product, median, sample standard deviation, degrees and radians, finiteness tests, three-value sorting, least squares, range messages, random permutations and normal samples) equal their definitions for every size.",
  ["inputs", "histories"], "All sequences, sub-ranges, flags and sizes.",
  "Tests use short fixed vectors.",
  [LI+"span.hpp", LI+"algorithm.hpp", "lib/src/algorithm.cpp", LI+"numeric.hpp", LI+"stats.hpp", "lib/src/stats.cpp", LI+"random.hpp", "lib/src/random.cpp", LO+"filter.hpp", EX+"algorithm.hpp", EX+"iterator.hpp"],
  [("helpers", "lib/src")], ["span", "Argsort", "Filter", "GetByIndices", "RandomizedUniqueIndices", "..."])

p("M01", "The mapper inserts a scan exactly when it moved enough, in map coordinates",
  "Over any history of poses and scans the built map is the concatenation, in order, of exactly the non-empty scans whose pose moved to or beyond the translation or rotation threshold relative to the last inserted one (the first is always inserted), each transformed by its pose. Saving writes exactly this map; saving an empty map fails cleanly.",
  ["histories"], "All sequences of poses (small and large motions, revisits, rotations only) and clouds.",
  "Tests insert two or three clouds and are outside the stable build; accumulation of sub-threshold motions is never exercised.",
  ["mapping/include/lidar_feature_mapping/map.hpp", "mapping/src/mapping.cpp"],
  [("threshold insertion", "mapping/include/lidar_feature_mapping/map.hpp")], ["MapBuilder", "saved PCD file"])

p("P01", "The path generator republishes every received pose in order, once",
  "After n pose messages the n-th published path contains exactly those n poses in arrival order, unmodified, and carries the header of the latest one. One path is published per received pose and earlier poses never change.",
  ["histories"], "All pose message histories.",
  "The single test is outside the stable build and looks at one or two poses.",
  ["path_generator/include/path_generator/path_generator.hpp", "path_generator/src/node.cpp"],
  [("append and publish", "path_generator/include/path_generator/path_generator.hpp")], ["topic path"])

p("N01", "Map nodes publish the map file unchanged and a static frame at its centroid",
  "The map loader publishes exactly the points of the given map file in the map frame, so that also late subscribers receive them, and refuses to start without a file name. The map-frame generator publishes, for every received non-empty map, one static transform from the map frame to the viewer frame whose translation is the centroid of the map and whose rotation is identity, and nothing for an empty map.",
  ["inputs", "configurations"], "All map clouds, file formats and parameters.",
  "These packages have no tests.",
  ["map_loader/src/map_loader.cpp", "map_tf_generator/src/map_tf_generator_node.cpp"],
  [("nodes", "map_loader/src/map_loader.cpp")], ["topic map_topic", "/tf_static"])

p("C01", "Point-type conversion keeps every field value at its declared offset",
  "For every input cloud layout that carries x, y, z, intensity and ring (any field order, offsets, gaps, extra fields, either byte order, organised or not) each output point carries exactly the same field values at the offsets its message declares, in input order, with the same header. Exactly the points at the origin are dropped, the point count, row step and data size are consistent, and the input message is left unmodified.",
  ["inputs"], "All message layouts, point values and sizes.",
  "Tests check helper functions on one fixed layout.",
  ["point_type_converter/point_type_converter/convert.py"],
  [("byte slicing by field", "point_type_converter/point_type_converter/convert.py")], ["topic /points_converted"])

p("G01", "Launched systems are wired as intended for every choice of launch arguments",
  "For every choice of launch arguments, the nodes started by localization.launch.py and mapping.launch.py form the intended data flow: the converter reads the sensor topic, feature extraction reads what the converter publishes, localisation (or mapping) reads the features that extraction publishes, the EKF reads the pose that localisation publishes and localisation starts from the odometry that the EKF publishes. Each consumer resolves to the same topic name and message type as exactly one producer with compatible quality of service, each argument names the topic it says, the map loaders latch the very maps localisation reads, and every parameter handed to a node is one it declares with that type. The map frame generator's launch file passes topic and frames through.",
  ["configurations"], "All choices of the launch arguments (any absolute topic names, any subset overridden).",
  "No test starts a launch file; the agreement of names, types, QoS, namespaces and parameters across packages is checked by nothing.",
  ["lidar_feature_launch/launch/localization.launch.py", "lidar_feature_launch/launch/mapping.launch.py", "lidar_feature_launch/config/lidar_feature_extraction.param.yaml", "map_tf_generator/launch/map_tf_generator.launch.xml", "extraction/app/feature_extraction.cpp", LO+"subscriber.hpp", "mapping/src/mapping.cpp", "ekf_localizer/src/ekf_localizer.cpp", "map_loader/src/map_loader.cpp", "lib/include/lidar_feature_library/qos.hpp"],
  [("remappings and parameters", "lidar_feature_launch/launch/localization.launch.py"), ("QoS profiles", "lib/include/lidar_feature_library/qos.hpp")],
  ["generate_launch_description", "endpoints of the started nodes"])

p("S01", "A place mapped by the package is recognised and a drive through it is tracked",
  "The programs work together: features extracted at the stops of a drive through a static hall (floor, walls, pillars) and joined by the mapping program give maps against which later scans are localised. A scan taken elsewhere on the route with another heading, together with a prior that is off by up to 1 m along each horizontal axis and 0.14 rad in heading, yields exactly one pose, always within 0.5 m and 0.15 rad of the true one and for most scans of a hall within 5 cm and 0.02 rad. When the EKF supplies the priors and fuses the poses with exact speeds and turn rates, every localised pose of the drive stays within 0.3 m and 0.1 rad, most of them within 5 cm and 0.02 rad, the odometry never gets more than 0.1 m worse than its initial error, and with an initial pose declared uncertain it ends within 0.1 m and 0.08 rad of the truth after ten scans. The edge map contains every extracted edge point of every mapped scan.",
  ["inputs", "histories"], "All such halls and their poses in the map, sensors of 16 lines with 480 to 720 columns and up to 2 cm of range noise, routes, priors and speeds, for the launched parameters.",
  "No test runs two programs together or any program at all; unit tests of the parts cannot show that frames, stamps, signs, units and file formats agree along the chain.",
  ["extraction/app/feature_extraction.cpp", "mapping/src/mapping.cpp", "mapping/include/lidar_feature_mapping/map.hpp", "localization/app/localization.cpp", LO+"localizer.hpp", LO+"subscriber.hpp", LO+"optimizer.hpp", LO+"edge.hpp", LO+"surface.hpp", "ekf_localizer/src/ekf_localizer.cpp"],
  [("feature extraction node", "extraction/app/feature_extraction.cpp"), ("map builder", "mapping/include/lidar_feature_mapping/map.hpp"), ("scan-to-map localiser", LO+"localizer.hpp"), ("EKF node", "ekf_localizer/src/ekf_localizer.cpp")],
  ["points_raw -> scan_edge, scan_surface", "pose, scan_edge -> maps/edge.pcd", "optimization_start_odom -> estimated_pose", "initialpose, in_twist_with_covariance -> ekf_odom"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
