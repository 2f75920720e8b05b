"""The registered checks: which harness, which sources, which builds, how much."""

COMMON_CC = ["common/file_utils.cc", "common/macro_defines.cc", "common/math.cc", "common/simple_time.cc",
             "common/performance/simple_prof.cc", "common/performance/process_info.cc"]
CLOUD = COMMON_CC + ["builder/data/cloud_types.cc"]

FILTERS = CLOUD + ["common/bounding_box.cc", "third_parties/pugixml/pugixml.cc"] + ["pre_processors/filter_%s.cc" % f for f in (
    "axis_range", "bounding_box", "factory", "ground_removal", "ground_removal2", "interface", "random_sample", "range",
    "range_image", "statistic_removal", "voxel_grid")]

CHECKS = {}

CHECKS["C01"] = dict(
    technique="round-trip and truncation monitor under ASan/UBSan",
    note="Bit comparison of generated clouds with their files; every truncation length of small files. Trusts the local file system.",
    rule="one per distinct (cloud size, number of truncation points) that was written, cut and reloaded",
    runs=[dict(name="c01", mode="asan", harness="c01_cloud_file.cc", sources=CLOUD,
               cases=dict(quick=240, thorough=2400), shards=4)],
)

CHECKS["C06"] = dict(
    technique="differential monitor against 128-bit integers under ASan/UBSan",
    note="All operators, conversions and the bracketing search on generated and boundary operands. Division by the most negative int is excluded.",
    rule="one per distinct (carry, order, equality, divisor sign) or (sequence length, answer position) reached",
    runs=[dict(name="c06", mode="asan", harness="c06_time.cc", sources=["common/simple_time.cc", "common/macro_defines.cc"],
               cases=dict(quick=400, thorough=8000), shards=4)],
    min_evaluations=100000, min_distinct=100,
)
CHECKS["C07"] = dict(
    technique="differential monitor against hand-written rotations under ASan/UBSan",
    note="Both scalar types, gimbal-lock and half-turn neighbourhoods; tolerances follow the conditioning of the input.",
    rule="one per distinct (octant of angles), (turn, factor), point-set shape reached",
    runs=[dict(name="c07", mode="asan", harness="c07_math.cc", sources=["common/math.cc"],
               cases=dict(quick=160, thorough=4000), shards=8)],
    min_evaluations=50000, min_distinct=100,
)
CHECKS["C08"] = dict(
    technique="chain monitor over generated and exhaustive small rays under ASan/UBSan",
    note="Every displacement up to 6 cells from 27 starts, plus generated rays up to 3000 cells.",
    rule="one per distinct (algorithm, direction signs, length, deviation) reached",
    runs=[dict(name="c08", mode="asan", harness="c08_rays.cc", sources=["common/math.cc"],
               cases=dict(quick=200, thorough=5000), shards=8)],
    min_evaluations=100000, min_distinct=100,
)
CHECKS["C11"] = dict(
    technique="differential monitor against an independent subdivision under ASan/UBSan",
    note="Leaf contents observed through the octree's own text output; depths compared where the arithmetic is exact.",
    rule="one per distinct (exactness, depth limit, reached depth, capacity) or (inside, child) reached",
    runs=[dict(name="c11", mode="asan", harness="c11_octree.cc", sources=["common/octree.cc", "common/bounding_box.cc"],
               cases=dict(quick=200, thorough=4000), shards=4)],
    min_evaluations=50000, min_distinct=100,
)

CHECKS["C13"] = dict(
    technique="rule monitor over every output under ASan/UBSan, race monitor under TSan",
    note="Points within rounding of a limit and not-a-number coordinates are not judged for selection, but for bookkeeping. Sampling fraction judged at 8 sigma.",
    rule="one per distinct (filter, run number, all kept, all removed, size class) reached",
    runs=[dict(name="c13", mode="asan", harness="c13_select.cc", sources=FILTERS, cases=dict(quick=320, thorough=6000), shards=8),
          dict(name="c13", mode="tsan", harness="c13_select.cc", sources=FILTERS, cases=dict(quick=16, thorough=160), shards=4)],
    min_evaluations=20000, min_distinct=40,
)
CHECKS["C14"] = dict(
    technique="differential monitor against cell means in double precision under ASan/UBSan",
    note="Points closer than a thousandth of a cell to a border are not generated, there the cell is a matter of rounding.",
    rule="one per distinct (cloud size class, number of cells class, cell size class) reached",
    runs=[dict(name="c14", mode="asan", harness="c14_voxel.cc", sources=FILTERS, cases=dict(quick=200, thorough=4000), shards=8)],
    min_evaluations=2000, min_distinct=40,
)
CHECKS["C15"] = dict(
    technique="scene and pixel oracle under ASan/UBSan, race monitor under TSan",
    note="Ground share required of the line variant is 90 percent; objects start 0.45 m above ground. Cell and pixel variants are compared exactly away from borders.",
    rule="one per distinct (variant, parameters class, removed share) reached",
    runs=[dict(name="c15", mode="asan", harness="c15_ground.cc", sources=FILTERS, cases=dict(quick=64, thorough=1600), shards=8),
          dict(name="c15", mode="tsan", harness="c15_ground.cc", sources=FILTERS, cases=dict(quick=8, thorough=80), shards=4)],
    min_evaluations=2000, min_distinct=40,
)
CHECKS["C36"] = dict(
    technique="reference segmentation and pixel oracle under ASan/UBSan/LSan",
    note="Neighbours within 0.002 rad of the ten degree limit, and those two columns apart whose angle depends on how the step is counted, may be joined or not. Images have at least two columns.",
    rule="one per distinct (number of surfaces, image size, ambiguous or not; picture kind) reached",
    runs=[dict(name="c36", mode="asan", harness="c36_image.cc", sources=FILTERS, cases=dict(quick=400, thorough=6000), shards=8, leaks=True)],
    min_evaluations=4000, min_distinct=60,
)
CHECKS["C16"] = dict(
    technique="differential monitor against the listed filters applied one by one under ASan/UBSan",
    note="Selection rules are re-implemented; the thinning, ground and image steps use fresh filter objects configured by name. Not implemented filters pass their input through.",
    rule="one per distinct (sequence of filters, result empty or not) reached",
    runs=[dict(name="c16", mode="asan", harness="c16_chain.cc", sources=FILTERS, cases=dict(quick=2000, thorough=20000), shards=8)],
    min_evaluations=3000, min_distinct=100,
)

CHECKS["C19"] = dict(
    technique="task log monitor under schedule perturbation, race monitor under TSan",
    note="Submitting to a pool from outside while it is destroyed is a misuse and not generated; tasks submitting during destruction are.",
    rule="one per distinct (workload, threads, producers, observed peak concurrency, refusals) reached",
    runs=[dict(name="c19", mode="shim", harness="c19_pool.cc", sources=[], extra=["jitter.cc"], cases=dict(quick=1600, thorough=16000), shards=4, timeout=150),
          dict(name="c19", mode="tsan", harness="c19_pool.cc", sources=[], cases=dict(quick=160, thorough=1600), shards=4, timeout=150)],
    min_evaluations=20000, min_distinct=40,
)
CHECKS["C31"] = dict(
    technique="report monitor under schedule perturbation, ASan/UBSan and TSan",
    note="The printed table is parsed; printed values are compared as intervals of their unit. Assumes the clock is not set back meanwhile.",
    rule="one per distinct (real or injected durations, unit, merged, threads, blocks, exit inside a block) reached",
    runs=[dict(name="c31", mode="shim", harness="c31_prof.cc", sources=COMMON_CC[-2:], extra=["jitter.cc"], cases=dict(quick=320, thorough=3200), shards=8),
          dict(name="c31", mode="asan", harness="c31_prof.cc", sources=COMMON_CC[-2:], cases=dict(quick=160, thorough=1600), shards=8),
          dict(name="c31", mode="tsan", harness="c31_prof.cc", sources=COMMON_CC[-2:], cases=dict(quick=96, thorough=800), shards=8)],
    min_evaluations=2000, min_distinct=40,
)
CHECKS["C37"] = dict(
    technique="monitor of the written resource log against the kernel's own accounting sampled alongside",
    note="A logged share must be that of some 0.3 to 2.2 s of the run, logged sizes those of some moment, in order. The second between two lines is shortened to 0.4 s.",
    rule="one per distinct (name of the process, load, child processes, growing or not) reached",
    runs=[dict(name="c37", mode="plain", harness="c37_usage.cc", sources=COMMON_CC[-1:], cases=dict(quick=40, thorough=600), shards=8)],
    min_evaluations=100, min_distinct=12,
)
CHECKS["C12"] = dict(
    technique="geometric monitor of matrix clouds under ASan/UBSan",
    note="Perpendicularity is judged for exactly representable planes (2 mrad); the partition into neighbourhoods is judged by counts, centroids and locality only.",
    rule="one per distinct (shape of cloud, size class, any representative, transformed before) reached",
    runs=[dict(name="c12", mode="asan", harness="c12_normals.cc", sources=CLOUD, cases=dict(quick=2400, thorough=60000), shards=8)],
    min_evaluations=5000, min_distinct=40,
)
EXTRA = CLOUD + ["builder/data/data_types.cc", "builder/pose_extrapolator.cc", "builder/imu_tracker.cc"]
CHECKS["C17"] = dict(
    technique="differential monitor against a written-down motion model under ASan/UBSan",
    note="Turn rates are those of the Euler angles (z-y-x) between the ends of the history window; constant turning is judged about the vertical axis of the vehicle.",
    rule="one per distinct (motion, number of poses class, window filled, query at newest pose) reached",
    runs=[dict(name="c17", mode="asan", harness="c17_predict.cc", sources=EXTRA, cases=dict(quick=3600, thorough=100000), shards=4)],
    min_evaluations=20000, min_distinct=15,
)
CHECKS["C18"] = dict(
    technique="differential monitor against an independent gravity filter under ASan/UBSan",
    note="Samples turn about one axis at a time, where rotation vector and Euler angles agree; accelerations near the opposite of up are not generated.",
    rule="one per distinct (scenario, number of samples/poses/queries class) reached",
    runs=[dict(name="c18", mode="asan", harness="c18_imu.cc", sources=EXTRA, cases=dict(quick=2400, thorough=60000), shards=4)],
    min_evaluations=20000, min_distinct=25,
)
INTAKE = FILTERS + ["builder/data/data_types.cc", "builder/data/data_collector.cc"]
CHECKS["C05"] = dict(
    technique="differential monitor against WGS84 and rigid interpolation under ASan/UBSan, race monitor under TSan",
    note="Samples closer than 5 microseconds, gaps within a microsecond of the limit and look-ups exactly on a sample next to a gap are not judged.",
    rule="one per distinct (sensor, answered or not, single sample, missing fix, factor quarter) reached",
    runs=[dict(name="c05", mode="asan", harness="c05_lookup.cc", sources=INTAKE, cases=dict(quick=400, thorough=8000), shards=8),
          dict(name="c05", mode="shim", harness="c05_lookup.cc", sources=INTAKE, extra=["jitter.cc"], args=dict(part="concurrent"), cases=dict(quick=160, thorough=3200), shards=4),
          dict(name="c05", mode="tsan", harness="c05_lookup.cc", sources=INTAKE, args=dict(part="concurrent"), cases=dict(quick=80, thorough=800), shards=8)],
    min_evaluations=20000, min_distinct=25,
)
CHECKS["C04"] = dict(
    technique="delivery monitor under schedule perturbation, ASan/UBSan and TSan",
    note="Selection filters are re-implemented, thinning uses a fresh filter object. A scan is reported lost when nothing arrives for 40 s; scans still in work when the intake is destroyed are not judged.",
    rule="one per distinct (chain, accumulation, timing style, empty scan, everything filtered away) reached",
    runs=[dict(name="c04", mode="asan", harness="c04_intake.cc", sources=INTAKE, cases=dict(quick=200, thorough=3000), shards=8),
          dict(name="c04", mode="shim", harness="c04_intake.cc", sources=INTAKE, extra=["jitter.cc"], cases=dict(quick=400, thorough=6000), shards=8),
          dict(name="c04", mode="tsan", harness="c04_intake.cc", sources=INTAKE, cases=dict(quick=120, thorough=1200), shards=8)],
    min_evaluations=5000, min_distinct=25,
)
MRVM = CLOUD + ["builder/multi_resolution_voxel_map.cc"]
CHECKS["C09"] = dict(
    technique="differential monitor against an independent occupancy model, threshold sweep, ASan/UBSan",
    note="The 8-bit occupancy is inferred by exporting at up to 256 thresholds. Ray cells come from the library's own ray function, which C08 judges. Points on cell borders are not generated.",
    rule="one per distinct (scene, scans, settings, cells below unknown, over the cap) reached",
    runs=[dict(name="c09", mode="shim", harness="c09_map.cc", sources=MRVM, args=dict(part="ordered"), cases=dict(quick=1200, thorough=20000), shards=8),
          dict(name="c09", mode="asan", harness="c09_map.cc", sources=MRVM, cases=dict(quick=240, thorough=2400), shards=8)],
    min_evaluations=20000, min_distinct=40,
)
CHECKS["C10"] = dict(
    technique="reachable-outcome monitor under chosen schedules, race monitor under TSan",
    note="The expected occupancy is a set: every number of crossings before the first return of a scan is allowed. Both OpenMP runtimes are used.",
    rule="one per distinct (scene, scans, settings, several outcomes possible, over the cap) reached",
    runs=[dict(name="c09", mode="shim", harness="c09_map.cc", sources=MRVM, cases=dict(quick=1600, thorough=16000), shards=4),
          dict(name="c09", mode="plain", harness="c09_map.cc", sources=MRVM, cases=dict(quick=800, thorough=8000), shards=4),
          dict(name="c09_stampede", mode="plain", harness="c09_map.cc", sources=MRVM, args=dict(part="stampede"), cases=dict(quick=48, thorough=1200), shards=1),
          dict(name="c09", mode="tsan", harness="c09_map.cc", sources=MRVM, cases=dict(quick=64, thorough=800), shards=4)],
    min_evaluations=20000, min_distinct=40,
)
SUBMAP = sorted(set(INTAKE + MRVM + ["builder/frame_base.cc", "builder/frame.cc", "builder/submap.cc", "descriptor/m2dp.cc"]))
CHECKS["C02"] = dict(
    technique="differential monitor against rigid placement and cell means under ASan/UBSan",
    note="Points compared within single precision of the placement; cells touched by a point within rounding of a border are not judged.",
    rule="one per distinct (frames, checking, thinning, cell size class, moved before full, moves) reached",
    runs=[dict(name="c02", mode="asan", harness="c02_submap.cc", sources=SUBMAP, cases=dict(quick=1920, thorough=48000), shards=8)],
    min_evaluations=20000, min_distinct=40,
)
SWAP = SUBMAP + ["builder/memory_manager.cc", "builder/trajectory.cc"]
CHECKS["C03"] = dict(
    technique="history monitor under ASan/UBSan, schedule perturbation and race monitor under TSan",
    note="Sleeps of the memory manager are shortened. Releasing something that was never saved on purpose, through the holder itself, is a request to drop it. A damaged or missing swap file has to be refused, by abort or result.",
    rule="one per distinct sequence of operations, (saving, delay, matched, released) or (trajectories, readers, delay, start, pace) reached",
    runs=[dict(name="c03", mode="asan", harness="c03_swap.cc", sources=SWAP, extra=["fastsleep.cc"], cases=dict(quick=1600, thorough=32000), shards=8),
          dict(name="c03", mode="shim", harness="c03_swap.cc", sources=SWAP, extra=["fastsleep.cc", "jitter.cc"], args=dict(part="threads"), cases=dict(quick=96, thorough=1600), shards=8),
          dict(name="c03", mode="tsan", harness="c03_swap.cc", sources=SWAP, extra=["fastsleep.cc"], args=dict(part="threads"), cases=dict(quick=32, thorough=400), shards=8)],
    min_evaluations=10000, min_distinct=100,
)
PACKAGE = SWAP + ["builder/map_package.cc"]
CHECKS["C20"] = dict(
    technique="tile-by-tile monitor of exported packages and of the joining tool under ASan/UBSan",
    note="Points within 2 mm of a tile border are not judged, nor are points farther from their submap than the border. Occupancy thresholds 0 (everything) and 0.95 (nothing) are used, C09 judges those between.",
    rule="one per distinct (number of tiles, any empty tile, submaps, border) reached",
    runs=[dict(name="c20", mode="asan", harness="c20_package.cc", sources=PACKAGE, cases=dict(quick=160, thorough=3200), shards=8),
          dict(name="c20", mode="shim", harness="c20_package.cc", sources=PACKAGE, args=dict(part="many"), cases=dict(quick=1, thorough=2), shards=1)],
    min_evaluations=20000, min_distinct=40,
)
CHECKS["C27"] = dict(
    technique="read-back monitor of every exported file under ASan/UBSan",
    note="Path text has six decimals, path clouds single precision; both are allowed for.",
    rule="one per distinct (submaps, frames, positions, odometry entries, saving, repetitions) reached",
    runs=[dict(name="c27", mode="asan", harness="c27_exports.cc", sources=SWAP, cases=dict(quick=1600, thorough=32000), shards=8)],
    min_evaluations=10000, min_distinct=100,
)
CHECKS["C32"] = dict(
    technique="mirror monitor of graph, text and picture under ASan/UBSan",
    note="Pictures are written uncompressed and read back pixel by pixel; the margin of one metre is part of the expected size.",
    rule="one per distinct (vertices, any moved, any edges, any refused, distance class) reached",
    runs=[dict(name="c32", mode="asan", harness="c32_graph.cc", sources=COMMON_CC + ["back_end/view_graph.cc"], cases=dict(quick=480, thorough=14400), shards=8)],
    min_evaluations=10000, min_distinct=60,
)
CHECKS["C33"] = dict(
    technique="output monitor of the real tools in child processes under ASan/UBSan",
    note="The requested fraction is judged to within one point; fractions that ask for less than one point are only required not to crash.",
    rule="one per distinct (tool, ratio, size class or kind of unusable input) reached",
    runs=[dict(name="c33", mode="asan", harness="c33_tools.cc", sources=[], cases=dict(quick=160, thorough=3000), shards=8)],
    min_evaluations=10000, min_distinct=40,
)
CHECKS["C22"] = dict(
    technique="invariance monitor over scans of generated worlds under ASan/UBSan",
    note="Order and motion change single precision sums, so these are judged by the comparison score.",
    rule="one per distinct (scan size class, score class) reached",
    runs=[dict(name="c22", mode="asan", harness="c22_descriptor.cc", sources=sorted(set(CLOUD + ["descriptor/m2dp.cc"])), cases=dict(quick=160, thorough=2400), shards=8)],
    min_evaluations=1000, min_distinct=30,
)
MATCH = sorted(set(CLOUD + ["third_parties/pugixml/pugixml.cc", "registrators/interface.cc", "registrators/icp_fast.cc", "registrators/ndt.cc", "registrators/ndt_gicp.cc"]))
CHECKS["C25"] = dict(
    technique="ground-truth monitor over scans of generated worlds under ASan/UBSan",
    note="The neighbour search library is replaced by an exact stand-in; start guesses within 0.25 m and 3 degrees.",
    rule="one per distinct (tilt, noise, size class, distance of the guess) reached",
    runs=[dict(name="c25", mode="asan", harness="c25_fast_icp.cc", sources=MATCH, extra=["standin_icp.cc"], args=dict(part="fast"), cases=dict(quick=192, thorough=960), shards=8)],
    min_evaluations=500, min_distinct=30,
)
CHECKS["C26"] = dict(
    technique="ground-truth monitor over scans of generated worlds under ASan/UBSan",
    note="Start guesses within 0.25 m and 3 degrees.",
    rule="one per distinct (matcher, tilt, noise, size class, distance of the guess) reached",
    runs=[dict(name="c26n", mode="asan", harness="c25_fast_icp.cc", sources=MATCH, extra=["standin_icp.cc"], args=dict(part="ndt"), cases=dict(quick=48, thorough=480), shards=8),
          dict(name="c26g", mode="asan", harness="c25_fast_icp.cc", sources=MATCH, extra=["standin_icp.cc"], args=dict(part="gicp"), cases=dict(quick=32, thorough=480), shards=8)],
    min_evaluations=300, min_distinct=30,
)
LOOPS = sorted(set(SUBMAP + MATCH + ["back_end/loop_detector.cc"]))
CHECKS["C24"] = dict(
    technique="soundness and bounded-response monitor over scripted revisits under ASan/UBSan and TSan",
    note="Scan matching is answered by a script, so every score and every disagreement is chosen; paths of up to 70 submaps.",
    rule="one per distinct (path, match outcomes, descriptors, window, attempts, loops found, loops due) reached",
    runs=[dict(name="c24", mode="asan", harness="c24_loops.cc", sources=LOOPS, extra=["standin_icp.cc"], cases=dict(quick=6000, thorough=120000), shards=8),
          dict(name="c24", mode="tsan", harness="c24_loops.cc", sources=LOOPS, extra=["standin_icp.cc", "jitter.cc"], cases=dict(quick=64, thorough=800), shards=8)],
    min_evaluations=20000, min_distinct=100,
)
CHECKS["C23"] = dict(
    technique="constraint monitor against the known trajectory under ASan/UBSan",
    note="Loops come from a scripted matcher; paths of up to 45 submaps.",
    rule="one per distinct (constraints, path, calibration, loops used, position frame solved, length class, sampling) reached",
    runs=[dict(name="c23", mode="asan", harness="c23_optimizer.cc", sources=sorted(set(LOOPS + ["back_end/isam_optimizer.cc", "back_end/view_graph.cc"])), extra=["standin_icp.cc"], cases=dict(quick=160, thorough=2400), shards=8)],
    min_evaluations=3000, min_distinct=40,
)
CHECKS["C30"] = dict(
    technique="read-back monitor of generated recordings and messages under ASan/UBSan, heap growth monitor",
    note="Message types come from stand-in headers with the layout of the middleware's. Files that vanish after the directory was listed may yield an empty scan or none.",
    rule="one per distinct (files, naming, any vanished, repetition, size class) or truncation length reached",
    runs=[dict(name="c30", mode="asan", harness="c30_import.cc", sources=sorted(set(CLOUD + ["ros_node/kitti_reader.cc", "ros_node/msg_conversion.cc"])),
               cases=dict(quick=240, thorough=4000), shards=8)],
    min_evaluations=3000, min_distinct=30,
)
SESSION = sorted(set(LOOPS + EXTRA + PACKAGE + INTAKE + SWAP + FILTERS + ["back_end/isam_optimizer.cc", "back_end/view_graph.cc", "builder/map_builder.cc", "builder/map_builder_options.cc"]))
CHECKS["C21"] = dict(
    technique="differential monitor of loaded settings against the generated document under ASan/UBSan",
    note="Sessions are started for real and finished without data. The frequency assumed when none is given is not judged.",
    rule="one per distinct (number of options given, matcher blocks), kind of foreign document or kind of contradiction reached",
    runs=[dict(name="c21", mode="asan", harness="c21_config.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc"], cases=dict(quick=800, thorough=16000), shards=8)],
    min_evaluations=5000, min_distinct=40,
)
CHECKS["C35"] = dict(
    technique="step-by-step monitor of scripted sessions against the configured motion limits under ASan/UBSan",
    note="Scan matching is answered by a script with the true motion; motions within a millimetre or 0.02 degrees of a limit are not judged. Loops, positions and swapping are switched off.",
    rule="one per distinct (motion, imu, compensation, accumulation, turn limit, share of key frames) reached",
    runs=[dict(name="c35", mode="asan", harness="c35_keyframes.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc"], cases=dict(quick=400, thorough=8000), shards=8)],
    min_evaluations=300, min_distinct=30,
)
CHECKS["C38"] = dict(
    technique="step-by-step monitor of scripted sessions against the chain of accepted matches under ASan/UBSan",
    note="All matches are answered by a script; scores within 0.2 percent of the limit are not generated. Loops, positions and swapping are switched off.",
    rule="one per distinct (share of accepted matches, size of corrections, matching times, scans per submap, number of submaps) reached",
    runs=[dict(name="c38", mode="asan", harness="c38_chain.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc"], cases=dict(quick=320, thorough=4000), shards=8)],
    min_evaluations=1500, min_distinct=60,
)
CHECKS["C28"] = dict(
    technique="ground-truth monitor of complete sessions in artificial worlds under ASan/UBSan",
    note="Sleeps of the program are shortened, schedules are perturbed by pacing. The neighbour search and one matcher are stand-ins. A last group of frames too small for a submap is left out by design.",
    rule="one per distinct (matchers, options, pacing, submaps) reached",
    runs=[dict(name="c28", mode="asan", harness="c28_session.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc"], cases=dict(quick=96, thorough=400), shards=8, timeout=850)],
    min_evaluations=1500, min_distinct=20,
)
CHECKS["C29"] = dict(
    technique="TSan and ASan/UBSan over complete sessions with perturbed schedules",
    note="Judges only the reports of the sanitizers and that every session ends.",
    rule="one per distinct (matchers, options, pacing) reached",
    runs=[dict(name="c29", mode="asan", harness="c28_session.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc", "jitter.cc"], args=dict(part="clean", size="small"), cases=dict(quick=128, thorough=1600), shards=8, timeout=700),
          dict(name="c29", mode="tsan", harness="c28_session.cc", sources=SESSION, extra=["standin_icp.cc", "fastsleep.cc", "jitter.cc"], args=dict(part="clean", size="small"), cases=dict(quick=64, thorough=640), shards=8, timeout=700)],
    min_evaluations=60, min_distinct=16,
)
