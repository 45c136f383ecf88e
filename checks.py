"""What each check builds and runs (see run_check.py)."""
PACKAGES = ["lib", "rotationlib", "kalman_filter", "imu_integration", "extraction", "localization",
            "ekf_localizer", "mapping", "path_generator"]

LOCALIZATION = ["localization/src/*.cpp", "lib/src/*.cpp", "!lib/src/lib.cpp", "!lib/src/ros_msg.cpp", "rotationlib/src/*.cpp",
                "rotationlib/src/*/*.cpp"]

EKF_CORE = ["ekf_localizer/src/*.cpp", "!ekf_localizer/src/ekf_localizer.cpp", "!ekf_localizer/src/ekf_localizer_node.cpp",
            "kalman_filter/src/*.cpp", "lib/src/*.cpp", "!lib/src/lib.cpp", "!lib/src/ros_msg.cpp"]

CHECKS = {
    "K01": dict(
        harness=["k01.cpp"], repo=["kalman_filter/src/*.cpp"], fmt=False, scale=2.5,
        rule="random model dimensions/matrices and histories of predict/update/init; non-trivial: at least one "
             "prediction and one update (or more than one state dimension for single-step relations)"),
    "K02": dict(
        harness=["k02.cpp"], repo=["kalman_filter/src/*.cpp"], fmt=False, scale=2.5,
        rule="random stacks, matrices and histories of predict/delayed update/rejected update; non-trivial: an "
             "update with delay > 0 after a prediction, or a rejected update within a history"),
    "E02": dict(
        harness=["e02.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random paddings, lengths (down to the minimum) and range sequences (integers, smooth, steps, tiny and huge "
             "values); non-trivial: more than one interior point, an asymmetric position, or a strict sub-range"),
    "E03": dict(
        harness=["e03.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random intervals, block counts, offsets and paddings plus all intervals up to length 50 at offsets -6..40; "
             "non-trivial: more than one block and a length that is not a multiple of the block count"),
    "E07": dict(
        harness=["e07.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random, axis-aligned, parallel, anti-parallel and nearly parallel directions of any length; non-trivial: an "
             "angle away from 0 and pi, or a line of at least three points with a strict slice"),
    "E01": dict(
        harness=["e01.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random clouds (lattice points with exact order, axis-aligned points, random polar points), ring numbers over the whole "
             "16-bit range and cloud sizes 0..300; non-trivial: more than one ring with a line of more than two points, a comparison "
             "within one sector, a strict sub-view"),
    "E04": dict(
        harness=["e04.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random curvature (distinct and with ties), thresholds on and next to the values, break patterns, paddings, prior labels and "
             "block counts; non-trivial: more than one feature selected, more than one block, or a window of more than one point"),
    "E05": dict(
        harness=["e05.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random lines with range jumps and neighbourhood breaks, exact ones with thresholds exactly on the jump; non-trivial: some "
             "but not all points marked"),
    "E08": dict(
        harness=["e08.cpp"], repo=["extraction/src/*.cpp"], libs=["pcl"],
        rule="random clouds, labels and values inside, outside and on the limits of random intervals; non-trivial: an interval that does "
             "not start at zero with an interior value, or more than two points"),
    "E06": dict(scale=5.0,
        harness=["e06.cpp"], repo=["extraction/app/feature_extraction.cpp", "extraction/src/*.cpp", "lib/src/*.cpp"],
        main_renamed=["extraction/app/feature_extraction.cpp"], libs=["pclfilters", "pclio"], ros=True,
        rule="random parameter sets and histories of scans with 0..5 lines of 1..110 points (jumps, gaps, noise, too short lines, returns "
             "at the origin, interleaved or shuffled, three field layouts); non-trivial: at least one edge and one surface selected"),
    "L01": dict(
        harness=["l01.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random residual blocks (1..3 rows), Jacobians of every rank, weights and rotations; non-trivial: more than three residuals "
             "with a non-zero update, or a degenerate problem with more than one residual"),
    "L02": dict(
        harness=["l02.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random point correspondences (exact, noisy, with outliers, degenerate, empty), start poses near and far and iteration "
             "limits 0..20; non-trivial: more than one iteration or a start away from the solution"),
    "L03": dict(
        harness=["l03.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random samples of 1..60 values (ties, outliers, sixteen orders of magnitude) and Huber arguments on and around the "
             "threshold; non-trivial: non-zero deviation of more than two values, non-zero error"),
    "L04": dict(
        harness=["l04.cpp"], repo=LOCALIZATION, libs=["pclfilters"],
        rule="random poses (all rotations), points, exact and noisy lines, exact planes (a third through or near the origin of the map) and "
             "neighbour counts; non-trivial: at least one point whose line or plane is determined by its neighbours"),
    "L05": dict(
        harness=["l05.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random maps of 1..150 points in 1..5 dimensions (lattice with duplicates, uniform, on a line), leaf sizes and k up to beyond "
             "the map size, several queries per tree; non-trivial: more than ten points and more than one dimension"),
    "L10": dict(
        harness=["l10.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random point sets of 1..40 points in 1..5 dimensions, symmetric matrices with chosen eigenvalues; non-trivial: more than two "
             "points, separated eigenvalues, more than one dimension"),
    "F01": dict(
        harness=["f01.cpp"], repo=["ekf_localizer/src/state_transition.cpp"], fmt=False,
        rule="random states (yaw and bias up to 1e6 rad and next to +-pi), time steps 0..10 s and variances; non-trivial: angle outside one "
             "turn, moving vehicle with a positive time step"),
    "F03": dict(
        harness=["f03.cpp"], repo=[], fmt=False,
        rule="random histories of up to 80 pushes, pops and clears with maximum ages -1..8, then drained; non-trivial: several messages, "
             "several pops and a maximum age above one"),
    "F04": dict(
        harness=["f04.cpp"], repo=EKF_CORE,
        rule="random tick sequences (equal times, long gaps, backward jumps), delays and periods up to infinity, covariances of 1..6 dimensions, "
             "strings over a small alphabet with slashes and percent signs; non-trivial: more than two ticks, positive steps, a removed slash"),
    "F06": dict(
        harness=["f06.cpp"], repo=EKF_CORE,
        rule="random 6x6 covariances and 36-element messages with pairwise distinct entries, 1..50 smoothing steps, poses of any orientation; "
             "non-trivial: every case with distinct entries, more than one smoothing step"),
    "F02": dict(
        harness=["f02.cpp"], repo=EKF_CORE,
        rule="random histories of pose and twist messages (delays up to beyond the stack, future stamps, non-finite values and covariances, "
             "outliers, foreign frames, yaw around +-pi), clears and ticks with smoothing 1..5 and gates 0.5..1e4; non-trivial: more than one "
             "message pending at a tick and at least one fused"),
    "F05": dict(
        harness=["f05.cpp"], repo=["ekf_localizer/src/*.cpp", "!ekf_localizer/src/ekf_localizer_node.cpp", "kalman_filter/src/*.cpp",
                                   "lib/src/*.cpp", "!lib/src/lib.cpp", "rotationlib/src/*.cpp", "rotationlib/src/*/*.cpp"],
        rule="random parameter sets and histories of initial poses (known, unknown, slashed and transformed frames), pose and twist messages "
             "(late, simultaneous, non-finite, zero covariance) and ticks (equal times, long gaps, backward jumps); non-trivial: at least two "
             "published messages and one fused measurement"),
    "R01": dict(
        harness=["r01.cpp"], repo=LOCALIZATION, libs=["pcl"],
        rule="random vectors, unit and non-unit quaternions, angles (zero, tiny, half turns, several turns) and rotation vectors around the "
             "small-angle threshold; non-trivial: no component or sine is zero"),
    "B03": dict(
        harness=["b03.cpp"], repo=LOCALIZATION + ["extraction/src/*.cpp"], libs=["pcl"],
        rule="random sequences (with and without ties, empty ones included), overlapping sub-ranges with reads and writes, flags, in-range "
             "and out-of-range indices, matrices with planted non-finite elements; non-trivial: more than two elements, a proper selection, "
             "or a write through a view"),
    "B02": dict(
        harness=["b02.cpp"], repo=LOCALIZATION, libs=["pclfilters"],
        rule="random rigid transforms, clouds of 0..120 points of three point types, non-finite points, leaf sizes; non-trivial: more than "
             "one point and a rotation, more than one voxel with one holding several points"),
    "L07": dict(
        harness=["l07.cpp"], repo=[], fmt=False, tsan_harness=["l07_threads.cpp"], tsan_runs=8,
        rule="random histories of up to 40 inserts (duplicates included), lookups (on, next to and half way between stamps), removals and "
             "size queries over integer, fractional, nanosecond and extreme stamps; plus rounds of three threads with five operations each "
             "under ThreadSanitizer whose recorded histories must be linearisable; non-trivial: a removal that dropped something and a "
             "lookup among several entries"),
    "L08": dict(
        harness=["l08.cpp"], repo=LOCALIZATION, libs=["pclio"], ros=True,
        rule="random histories of up to 20 tagged scans (empty ones included) at random poses, window sizes 0..8 and 1..6, odometry steps of "
             "any rotation with a recording pose updater; non-trivial: more than one scan, more scans than the window"),
    "L06": dict(
        harness=["l06.cpp"], repo=LOCALIZATION, libs=["pclfilters"], ros=True,
        rule="random worlds of flat patches and straight poles (axis-aligned or in any pose), scans of 30..60 edge and 120..250 surface points, "
             "priors off by up to 0.7 m and 0.05 rad, outliers, iteration limits 0..6, empty parts; non-trivial: prior off by more than 1 cm, "
             "both parts present, map moved by more than 1 m"),
    "L09": dict(scale=3.0,
        harness=["l09.cpp"], repo=LOCALIZATION + ["lib/src/ros_msg.cpp"], libs=["pclio", "pclfilters"], ros=True,
        rule="random histories of up to 30 odometry priors, pose priors and edge/surface scans (halves in any order, incomplete, repeated, "
             "out of time order, epoch-sized stamps) with a recording localiser, and the whole application over random worlds with and without "
             "its map files; non-trivial: several poses, a scan later than the one before, more than one prior; both maps present"),
    "B01": dict(
        harness=["b01.cpp"], repo=LOCALIZATION + ["lib/src/ros_msg.cpp"], libs=["pclfilters"], ros=True,
        rule="random rigid transforms (half turns included), vectors over fifteen orders of magnitude, stamps over the whole message range, "
             "frames, covariances with distinct entries, clouds of three point types (organised ones included) and histories of marker edits; "
             "non-trivial: a rotation with distinct frames, distinct components, more than one point, more than one line"),
    "M01": dict(
        harness=["m01.cpp"], repo=LOCALIZATION + ["lib/src/ros_msg.cpp"], libs=["pclio", "pclfilters"], ros=True,
        rule="random drives of up to 30 steps (sub-threshold steps that add up, steps and turns next to the thresholds, turns on the spot, "
             "returns to earlier poses) with scans of 0..5 points, missing poses and missing scans; non-trivial: at least two scans inserted "
             "and one skipped; a translation and a rotation"),
    "P01": dict(
        harness=["p01.cpp"], repo=[], ros=True,
        rule="random histories of up to 60 poses (repeated poses and headers included) of both message kinds; non-trivial: more than two poses"),
    "N01": dict(
        harness=["n01.cpp"], repo=["map_loader/src/*.cpp", "map_tf_generator/src/*.cpp"], libs=["pclio"], ros=True,
        rule="random map files of 1..200 points of three point types in the three PCD encodings, histories of up to five received maps (empty, "
             "far from the origin), node parameters; non-trivial: more than one point"),
    "S01": dict(
        harness=["s01.cpp"],
        repo=LOCALIZATION + ["lib/src/ros_msg.cpp", "extraction/app/feature_extraction.cpp", "extraction/src/*.cpp", "mapping/src/*.cpp",
                             "localization/app/localization.cpp", "ekf_localizer/src/*.cpp", "kalman_filter/src/*.cpp"],
        opt="-O2", sanitize=False, quick_secs=120,   # heavy; the memory errors of the parts are for their own checks
        main_renamed={"extraction/app/feature_extraction.cpp": "extraction_main", "mapping/src/mapping.cpp": "mapping_main",
                      "localization/app/localization.cpp": "localization_main", "ekf_localizer/src/ekf_localizer_node.cpp": "ekf_main"},
        libs=["pclio", "pclfilters"], ros=True, 
        rule="random halls (size, pose in the map, 4..9 turned pillars), sensors (480..720 columns, noise up to 2 cm), routes of 5..9 stops, start errors up "
             "to 1 m and 0.14 rad, speeds 0.5..3 m/s; the programs run together in one process; halls with hardly any edges are discarded; non-trivial: "
             "four of five poses at least twice as close as their priors; the filter ends clearly closer than it started"),
    "C01": dict(
        python="pychecks/c01.py",
        technique="property-based testing with Hypothesis: random message layouts and histories against a byte-level reference",
        rule="see pychecks/c01.py: random layouts, values and histories"),
    "G01": dict(
        python="pychecks/g01.py",
        technique="property-based testing with Hypothesis: random launch arguments; the launched nodes are built, started and their endpoints resolved",
        rule="see pychecks/g01.py: random subsets of the launch arguments with random topic names"),
}
