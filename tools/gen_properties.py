#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl. The list below is the single source."""
import json, os, sys

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- storage
prop("C01", "Saved point clouds reload bit-identically; damaged files are refused",
 "A point cloud written to its binary file and read back has the same time stamp and the same points in the same order, every stored value bit-identical, for any cloud including the empty one. "
 "Reading a missing file, or a file cut off at any byte, reports failure and neither crashes nor presents the partial content as a complete cloud. "
 "Exporting to or importing from the library point-cloud type keeps every coordinate, intensity and the stamp (to the microsecond).",
 ["inputs", "crash_points"],
 "every cloud (size, float bit pattern, stamp) and every truncation point of its file",
 "test_cloud_types.cc writes one cloud of fixed values and reads the complete file back; no truncation, no special floats, no empty cloud, no file of a different cloud in the target object.",
 ["builder/data/cloud_types.h", "builder/data/cloud_types.cc", "common/simple_time.cc"],
 [("InnerCloudType::Serialize/Deserialize", "builder/data/cloud_types.cc"),
  ("ToInnerPointCloud/ToPclPointCloud", "builder/data/cloud_types.cc"),
  ("ToLocalTime/ToPclTime", "common/simple_time.cc")],
 ["return value of Deserialize", "points/stamp after Deserialize", "bytes of the file"])

prop("C02", "A submap is exactly its frames, rigidly placed",
 "When a submap becomes full, its cloud is exactly the union of its frames' points expressed in the pose of the first frame and carries the first frame's stamp; with thinning switched on it is exactly that union thinned with the configured cell size. "
 "The submap accepts exactly the configured number of frames, in order, gives each its own index, and reports being full precisely then. "
 "When the submap is moved, every inner frame's global pose becomes the submap pose times the frame's fixed relative pose, however often and in whatever order poses are updated.",
 ["inputs", "histories", "configurations"],
 "every set of frame clouds and poses, every submap option set, every sequence of pose updates",
 "No existing test instantiates a submap or a frame.",
 ["builder/submap.h", "builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc"],
 [("Submap::InsertFrame", "builder/submap.cc"), ("Submap::UpdateInnerFramePose", "builder/submap.cc"),
  ("VoxelGrid / RandomSampler post-filter", "builder/submap.cc")],
 ["Submap::Cloud()", "Submap::GetFrames()", "Frame::GlobalPose()/LocalPose()"])

prop("C03", "Swapping clouds to disk never changes what readers see",
 "For any history of saving, releasing, timed swap-out and access, and for any interleaving of concurrent readers with the background memory manager, a read of a submap or frame cloud that reports success yields exactly the points, normals and stamp that were there before swap-out. "
 "No access dead-locks, races or observes a half-loaded cloud, a damaged or incomplete swap file is refused, and the timed swap-out never throws away what was not saved. "
 "A submap that is in active use stays in memory and one idle for longer than the configured delay is released.",
 ["histories", "schedules", "configurations"],
 "every sequence of swap operations and every schedule of readers against the memory manager",
 "The only test of cloud storage is single-threaded and saves/loads once; neither submaps nor the memory manager are instantiated by any test.",
 ["builder/data/cloud_types.cc", "builder/submap.cc", "builder/frame_base.cc", "builder/memory_manager.cc"],
 [("InnerPointCloudData::SaveToFile/Clear/CloudInMemory", "builder/data/cloud_types.cc"),
  ("Submap::Cloud/UpdateInactiveTime", "builder/submap.cc"), ("MemoryManager thread", "builder/memory_manager.cc")],
 ["GetInnerCloud() after CloudInMemory()", "TSan/ASan reports", "files on disk"])

# ---------------------------------------------------------------- intake
prop("C04", "Every accepted scan is delivered exactly once, in order, correctly filtered",
 "Every scan handed to the intake is delivered to the consumer exactly once and in arrival order, grouped by the configured accumulation count, as the concatenation of the group's points passed through the configured filter chain, stamped with the first scan's time and with each point's relative time factor increasing from zero towards one over the group. "
 "Groups of which no point remains are skipped, and the intake reports that none is left only when nothing more will be delivered; all this holds under any timing of producer, background pre-processing and consumer, including bursts. "
 "No interleaving of these threads, including construction and shutdown, is a data race or a crash.",
 ["schedules", "inputs", "configurations"],
 "every scan sequence, accumulation count, filter chain and thread schedule",
 "No existing test constructs the intake; the property ranges over schedules of three threads.",
 ["builder/data/data_collector.h", "builder/data/data_collector.cc", "pre_processors/filter_factory.cc"],
 [("AddSensorData<PointT>", "builder/data/data_collector.h"), ("CloudPreProcessing thread", "builder/data/data_collector.cc"),
  ("GetNewCloud", "builder/data/data_collector.cc")],
 ["clouds returned by GetNewCloud", "TSan/ASan reports"])

prop("C05", "GPS and odometry look-ups interpolate correctly or answer nothing",
 "A position look-up at a time between two stored GPS samples returns the linear interpolation of their positions in the local east-north-up frame anchored at the first fixed sample, and nothing at all when the time is outside the stored range, a bracketing sample has no fix, or the bracketing gap is longer than 0.2 s (a single stored sample answers only within the caller's tolerance). "
 "An odometry look-up likewise returns the rigid interpolation of the bracketing poses relative to the first pose, and nothing when out of range or across a gap longer than 1 s. "
 "Discarding the samples an earlier look-up no longer needs never changes the answer of look-ups at the same or later times, and neither aborts nor races occur for any strictly time-ordered sample stream arriving meanwhile.",
 ["inputs", "histories", "schedules"],
 "every time-ordered sample stream, fix pattern, query time and trim history; concurrent writer",
 "No existing test stores or queries a GPS or odometry sample.",
 ["builder/data/data_collector.cc", "common/simple_time.h", "common/math.h", "builder/data/data_types.cc"],
 [("InterpolateGps/InterpolateOdom", "builder/data/data_collector.cc"), ("TrimSensorData", "builder/data/data_collector.cc"),
  ("TimeStampBinarySearch", "common/simple_time.h")],
 ["returned position / pose or nothing", "raw path file"])

# ---------------------------------------------------------------- foundations
prop("C06", "Time stamps behave like exact nanosecond instants",
 "Time stamps order, add, subtract and convert (seconds, nanoseconds, library microseconds) exactly like integer nanosecond counts in their range, with subtraction stopping at zero and equality allowing one nanosecond; accumulation never leaves a non-normalised stamp. "
 "The search over a time-sorted sequence always returns the adjacent pair that brackets the query, for every length and query position including the end points. "
 "No conversion overflows or loses more precision than its unit.",
 ["inputs"],
 "every pair of stamps, every sorted sequence and query",
 "test_simple_time.cc checks a handful of fixed values.",
 ["common/simple_time.h", "common/simple_time.cc"],
 [("SimpleTime operators and From*/To*", "common/simple_time.cc"), ("TimeStampBinarySearch", "common/simple_time.h")],
 ["operator results", "returned index pair"])

prop("C07", "Rigid-transform helpers are consistent and exact",
 "Converting a pose between matrix, Euler angle, quaternion and six-vector form and back reproduces the same rotation and translation, results are always proper rotations, and interpolation hits both end points, moves along the geodesic at constant rate and is never outside its segment. "
 "Angle normalisation, clamping, averaging of transforms (mean position and mean rotation), point-to-line distance and plane fitting return their mathematical definition for all finite inputs.",
 ["inputs"],
 "every finite pose, angle, factor, point set",
 "No existing test exercises the math helpers.",
 ["common/math.h", "common/math.cc"],
 [("Euler/quaternion/Vector6 conversions", "common/math.h"), ("InterpolateTransform", "common/math.h"),
  ("AverageTransforms/PlaneFitting/DistanceToLine", "common/math.cc")],
 ["returned matrices/vectors"])

prop("C08", "Ray traversal visits a connected, monotone chain of cells",
 "Tracing a ray from one point to another returns a duplicate-free chain of grid cells that starts in the cell of the first point, ends in the cell of the second, moves to a neighbouring cell at every step, never turns back along any axis and never strays more than half a cell from the straight line joining the two end cells, whichever of the offered algorithms is used. "
 "The trace of degenerate rays (same cell, axis-parallel, through cell corners, negative coordinates) obeys the same rules and terminates.",
 ["inputs"],
 "every pair of end points and resolution",
 "No existing test traces a ray.",
 ["common/math.h", "common/math.cc"],
 [("VoxelCastingBresenham", "common/math.cc"), ("VoxelCastingDDA", "common/math.cc")],
 ["returned cell list"])

# ---------------------------------------------------------------- static map
prop("C09", "The static map keeps exactly the cells the evidence supports",
 "After any sequence of inserted scans the exported static map contains exactly the points of the cells whose occupancy, updated by the configured hit weight for every return in the cell and the miss weight for every ray crossing it before the scan's first return there, reaches the requested threshold; occupancy stays within its clamping limits. "
 "Each exported cell contributes at most the configured number of its own original points (or exactly their average), with the cell's maximum intensity when configured, and colour export encodes the same points. "
 "Cells that were only ever crossed never appear, and the exported file contains the same cloud as the in-memory export.",
 ["inputs", "histories", "configurations"],
 "every scan history, sensor origin, map setting and threshold",
 "No existing test constructs a voxel map.",
 ["builder/multi_resolution_voxel_map.h", "builder/multi_resolution_voxel_map.cc", "common/math.cc"],
 [("InsertPointCloud", "builder/multi_resolution_voxel_map.cc"), ("odds table and clamping", "builder/multi_resolution_voxel_map.cc"),
  ("OutputToPointCloud", "builder/multi_resolution_voxel_map.cc")],
 ["exported clouds at all thresholds", "exported PCD file"])

prop("C10", "Parallel map insertion loses no return and respects the cell limit",
 "However the insertion of a scan is distributed over threads, every return is counted: the occupancy of each cell is one that some order of its returns and of crossings begun before them produces, the number of points kept per cell is exactly the smaller of the limit and the returns seen, and the reported maximum intensity is the true maximum. "
 "Concurrent insertion performs no data race and the result for scans whose rays do not cross each other's end cells is identical for every thread count and schedule.",
 ["schedules", "inputs"],
 "every thread count and interleaving of the insertion loop",
 "No existing test runs the map, let alone under more than one schedule.",
 ["builder/multi_resolution_voxel_map.cc", "common/atomic_wrapper.h"],
 [("OpenMP loop of InsertPointCloud", "builder/multi_resolution_voxel_map.cc"), ("AtomicWrapper", "common/atomic_wrapper.h")],
 ["exported clouds at all thresholds", "TSan reports with an instrumented OpenMP runtime"])

prop("C11", "Octree and box subdivision lose and duplicate nothing",
 "A cube is subdivided into eight children that tile it exactly; every point inside the cube belongs to exactly one child and a point outside to none, for every centre and size. "
 "After inserting any point set, each leaf of the octree holds no more than the configured number of points unless the depth limit is reached, the reported depth never exceeds the limit, every in-range point is in exactly one leaf whose box contains it, and out-of-range points are ignored without effect.",
 ["inputs", "configurations"],
 "every point set (clustered, duplicated, on boundaries, out of range) and octree configuration",
 "test_octree.cc/test_bbox.cc use one origin-centred configuration and a few points.",
 ["common/octree.h", "common/octree.cc", "common/bounding_box.h", "common/bounding_box.cc"],
 [("CubeBoundingBox::GenerateSubBoxes/SubBoxIndex", "common/bounding_box.cc"), ("Octree::InsertPoint", "common/octree.cc")],
 ["GetMaxDepth and RecursiveOutput", "box predicates"])

prop("C12", "Surface normals and the matrix form of a cloud stay consistent",
 "Computing normals keeps at most one representative per neighbourhood of at most seven points, at that neighbourhood's centroid, always inside the hull of the input, with a finite unit normal perpendicular to any plane all of its points lie on; points, normals and times within the scan always correspond one to one, also when normals are computed again. "
 "Transforming such a cloud moves points rigidly and only rotates normals, and motion compensation moves each point by the interpolated fraction of the given transform.",
 ["inputs", "histories"],
 "every input cloud, rigid transform and order of operations",
 "test_cloud_types.cc checks only conversion and a single transform of points.",
 ["builder/data/cloud_types.h", "builder/data/cloud_types.cc"],
 [("EigenPointCloud::CalculateNormals", "builder/data/cloud_types.cc"), ("EigenPointCloud::ApplyTransform/ApplyMotionCompensation", "builder/data/cloud_types.cc")],
 ["points/normals matrices"])

# ---------------------------------------------------------------- filters
prop("C13", "Selection filters keep exactly the points their definition selects",
 "The range, axis-range, box-removal and random-sampling filters output, in input order and unchanged, exactly the points selected by their documented rule (limits inclusive; random sampling keeps the configured fraction of distinct points), with the input's stamp. "
 "The kept and removed index lists are ascending, disjoint and together cover every input point exactly once, and describe exactly the output. "
 "The lists and order stay correct (whichever way a point on a limit or with a non-finite coordinate is decided) for every thread count, for empty and huge clouds, and when a filter object is reused or run twice.",
 ["inputs", "configurations", "histories", "schedules"],
 "every cloud, parameter set, thread count and reuse pattern of one filter object",
 "Existing filter tests use one small random cloud per filter and fresh objects.",
 ["pre_processors/filter_range.cc", "pre_processors/filter_axis_range.cc", "pre_processors/filter_bounding_box.cc", "pre_processors/filter_random_sample.cc", "pre_processors/processor_interface.h"],
 [("Range::Filter", "pre_processors/filter_range.cc"), ("AxisRange::Filter", "pre_processors/filter_axis_range.cc"),
  ("BoundingBoxRemoval::Filter", "pre_processors/filter_bounding_box.cc"), ("RandomSampler::Filter", "pre_processors/filter_random_sample.cc")],
 ["filtered cloud", "Inliers()/Outliers()"])

prop("C14", "Voxel thinning yields one exact centroid per occupied cell",
 "Voxel thinning outputs exactly one point per occupied grid cell of the configured size, equal to the mean position, intensity and time within the scan of the input points in that cell up to the rounding of the stored value, with the input's stamp, independent of input order and thread count. "
 "Clouds with all points in one cell, one point per cell, negative coordinates or non-positive cell size are handled as defined, and re-using the object carries nothing over.",
 ["inputs", "configurations", "schedules"],
 "every cloud, cell size and order",
 "The existing test checks one generated grid of points.",
 ["pre_processors/filter_voxel_grid.cc", "pre_processors/filter_voxel_grid.h"],
 [("VoxelGrid::Filter", "pre_processors/filter_voxel_grid.cc")],
 ["filtered cloud"])

prop("C15", "Ground filters remove ground and never invent points",
 "For a flat-ground scene with objects, both ground filters remove the ground points and keep the points of objects clearly above it; outputs are always unmodified input points, each at most once, kept and removed index lists are disjoint and describe the output as a set. "
 "The range-image filter keeps at most one return per pixel of its angular grid, the first one seen, only for points inside its vertical field of view, and its lists partition the input. "
 "Arbitrary clouds - empty, far, non-finite, coincident - never crash them.",
 ["inputs", "configurations"],
 "every cloud and parameter set; scenes with known ground truth",
 "None of these filters has a test.",
 ["pre_processors/filter_ground_removal.cc", "pre_processors/filter_ground_removal2.cc", "pre_processors/filter_range_image.cc"],
 [("GroundRemoval::Filter", "pre_processors/filter_ground_removal.cc"), ("GroundRemoval2::Filter", "pre_processors/filter_ground_removal2.cc"),
  ("RangeImage::Filter", "pre_processors/filter_range_image.cc")],
 ["filtered cloud", "Inliers()/Outliers()"])

prop("C16", "A configured filter chain applies exactly the configured filters in order",
 "A chain configured from a document applies exactly the listed known filters, with exactly the given parameters and documented defaults for the rest, in document order, each to the output of the previous one; unknown filters are skipped, a known one without implementation passes everything on, and no filter means an exact copy. "
 "Running the chain again on another cloud gives the result a fresh chain would give, and the stamp of the input is preserved for every non-empty input.",
 ["configurations", "inputs", "histories"],
 "every filter list and parameter assignment, every sequence of clouds",
 "Existing tests configure single filters from a fixed snippet; no chain is ever built.",
 ["pre_processors/filter_factory.cc", "pre_processors/filter_interface.cc", "pre_processors/xml_interface.h"],
 [("Factory::InitFromXmlNode/Filter", "pre_processors/filter_factory.cc"), ("Interface::InitFromXmlNode", "pre_processors/filter_interface.cc")],
 ["output of the chain", "index lists"])

# ---------------------------------------------------------------- front end
prop("C17", "Pose prediction continues constant motion exactly",
 "For poses added in time order, predicting at the time of the newest pose returns that pose, and predicting later returns the pose reached by continuing the linear velocity and the turn rate (of the heading, pitch and roll angles) observed over the retained history; constant velocity with constant turn rate about the vertical is reproduced exactly. "
 "Every prediction is a proper rigid pose, repeated queries agree, a query never influences later ones, and with a single pose the initial velocity (zero unless given) is used.",
 ["inputs", "histories"],
 "every time-ordered pose sequence, query pattern, initial velocity",
 "No existing test touches the predictor.",
 ["builder/pose_extrapolator.h", "builder/pose_extrapolator.cc"],
 [("PoseExtrapolator::AddPose/ExtrapolatePose", "builder/pose_extrapolator.cc"), ("UpdateVelocitiesFromPoses", "builder/pose_extrapolator.cc")],
 ["returned poses"])

prop("C18", "Inertial orientation tracking aligns with gravity and integrates turns",
 "Fed with a time-ordered inertial stream, the tracked orientation is always a unit rotation that maps the smoothed measured acceleration to straight up; for a static tilted sensor it converges to that tilt, and with constant turn rate about the vertical it advances the heading by rate times elapsed time. "
 "In inertial mode the pose prediction composes the newest pose with exactly the tracked rotation since it and moves it with the odometry velocity when there is one, for any interleaving of inertial samples, poses and queries in time order, without aborting.",
 ["inputs", "histories"],
 "every time-ordered inertial stream interleaved with poses and queries",
 "No existing test touches the tracker.",
 ["builder/imu_tracker.cc", "builder/pose_extrapolator.cc"],
 [("ImuTracker::Advance/AddImuLinearAccelerationObservation", "builder/imu_tracker.cc"), ("AdvanceImuTracker", "builder/pose_extrapolator.cc")],
 ["orientation()", "returned poses"])

prop("C19", "Every task given to the worker pool runs exactly once",
 "Every task accepted by the worker pool is executed exactly once and its result or exception reaches the caller's future; destroying the pool waits until all accepted tasks, including ones queued when destruction starts, have finished. "
 "Tasks run on the configured number of threads, that many at the same time but never more, and with one thread in submission order; no schedule of producers, workers and destruction deadlocks or races.",
 ["schedules", "programs"],
 "every mix of submitting threads, task durations, exceptions and destruction time",
 "No existing test uses the pool.",
 ["common/simple_thread_pool.h"],
 [("ThreadPool::enqueue / worker loop / destructor", "common/simple_thread_pool.h")],
 ["task execution log", "futures", "TSan reports"])

# ---------------------------------------------------------------- outputs / config
prop("C20", "The tiled map covers the mapped area and reassembles to the map",
 "For every set of submap positions, tile width and border, the exported tiles cover the whole bordered bounding box, each tile is listed in the index with its centre and file, and every static-map point within the border distance of its submap appears, shifted back by the tile centre, in every tile whose area contains it and in no other. "
 "Joining all tiles with the supplied tool yields exactly the union of the tiles at their map positions; an area without points neither aborts the export nor invalidates the index.",
 ["inputs", "configurations"],
 "every layout of submaps, tile width, border offset, map settings",
 "No existing test exports or joins tiles.",
 ["builder/map_package.cc", "tools/join_pieces.cc"],
 [("SaveTrajectoriesAsMapPackage", "builder/map_package.cc"), ("main", "tools/join_pieces.cc")],
 ["tile files and index", "joined map file"])

prop("C21", "Every configuration option reaches exactly its setting",
 "Loading a configuration document sets each setting named in it to exactly the given value, independent of the others and of their order, and leaves every setting not named at its documented default; a missing, unreadable or foreign document yields the complete default configuration. "
 "Contradictory settings that the program declares invalid are refused, output directories are created and end with a separator (none given means the working directory), and the matcher receives only the parameter block of the selected matcher type.",
 ["configurations", "inputs"],
 "every subset of options with every value",
 "No existing test loads a configuration.",
 ["builder/map_builder_options.cc", "builder/map_builder.h", "common/macro_defines.h", "registrators/interface.cc"],
 [("MapBuilder::Initialise", "builder/map_builder_options.cc"), ("CheckOptions", "builder/map_builder_options.cc"),
  ("GET_SINGLE_OPTION", "common/macro_defines.h")],
 ["returned option structure"])

# ---------------------------------------------------------------- back end
prop("C22", "Place descriptors are deterministic and place-specific",
 "The place descriptor of a cloud depends only on the cloud: it is the same for repeated computation, any order of the points and a re-used descriptor object, and nearly the same when the cloud is rigidly moved. "
 "Descriptor comparison is symmetric, lies between zero and one, is one for equal descriptors, is minus one for incomparable ones, and rates the same place observed twice higher than clearly different places.",
 ["inputs", "histories"],
 "every cloud, rigid motion, point order and object re-use",
 "No existing test computes a descriptor.",
 ["descriptor/m2dp.h", "descriptor/m2dp.cc"],
 [("M2dp::setInputCloud", "descriptor/m2dp.cc"), ("matchTwoM2dpDescriptors", "descriptor/m2dp.cc")],
 ["descriptor vector", "match score"])

prop("C23", "The optimised trajectory satisfies its constraints",
 "After the final optimisation every submap has exactly one proper rigid pose; with only consecutive constraints these poses are the composition of the given relative transforms from the first pose, and with consistent loop or position constraints they agree with all of them. "
 "Noisy chains with a correct loop end up closer to the truth than by composition alone, and the reported map-to-position-frame transform aligns the trajectory with the supplied positions once the configured number of them and amount of turning are reached, and is identity until then and without them.",
 ["inputs", "histories", "configurations"],
 "every trajectory, noise, GPS availability pattern and option set",
 "No existing test adds a vertex to the optimiser.",
 ["back_end/isam_optimizer.h", "back_end/isam_optimizer.cc", "back_end/view_graph.cc"],
 [("IsamOptimizer::AddFrame/AddVertex", "back_end/isam_optimizer.cc"), ("RunFinalOptimazation/UpdateAllPose", "back_end/isam_optimizer.cc"),
  ("GetGpsCoordTransform", "back_end/isam_optimizer.cc")],
 ["submap global poses", "returned transforms"])

prop("C24", "Loop closures are only accepted between plausible, verified pairs",
 "A reported loop always connects the current submap with an earlier one that is at least the configured number of submaps older and within the configured horizontal and vertical distance, was verified by scan matching with more than the accepted score, and carries the transform that matching produced. "
 "A revisit of a mapped place is reported within the configured number of attempts, a trajectory that never returns reports none, and failed or mutually inconsistent matches are never reported.",
 ["inputs", "histories", "schedules"],
 "every trajectory shape, match outcome sequence and detector setting",
 "The detector is not compiled by the existing tests.",
 ["back_end/loop_detector.h", "back_end/loop_detector.cc"],
 [("LoopDetector::AddFrame state machine", "back_end/loop_detector.cc"), ("candidate selection", "back_end/loop_detector.cc"),
  ("CheckResult", "back_end/loop_detector.cc")],
 ["DetectResult of every AddFrame call"])

prop("C25", "Fast scan matching recovers the true motion or reports failure",
 "Aligning two overlapping scans of the same well-structured scene with an initial guess inside its convergence region returns the true relative pose to within the scan resolution, as a proper rigid transform, with a score between zero and one that is higher the better the clouds overlap. "
 "The result does not depend on earlier alignments made with the same matcher object nor on the thread count, never modifies its inputs, and without usable input the call reports failure instead of a pose.",
 ["inputs", "histories"],
 "every scene, motion, noise and sequence of alignments",
 "The matcher is not compiled by the existing tests.",
 ["registrators/icp_fast.h", "registrators/icp_fast.cc", "registrators/interface.cc"],
 [("IcpFast::Align", "registrators/icp_fast.cc"), ("Interface::SetInputSource/SetInputTarget", "registrators/interface.cc")],
 ["returned transform, success flag and score"])

prop("C26", "Distribution-based matchers recover the true motion",
 "The distribution-based matcher and its two-stage variant recover the true relative pose of two overlapping scans of a structured scene from a nearby guess, as a proper rigid transform. "
 "Their result does not depend on earlier alignments with the same object or on whether a cloud is in memory or swapped out, their inputs are not modified, configuration selects exactly the requested matcher type, and a worse overlap never yields a better score.",
 ["inputs", "histories", "configurations"],
 "every scene, motion and sequence of alignments",
 "No existing test aligns anything.",
 ["registrators/ndt.cc", "registrators/ndt_gicp.cc", "registrators/interface.cc"],
 [("Ndt::Align", "registrators/ndt.cc"), ("NdtWithGicp::Align", "registrators/ndt_gicp.cc"), ("CreateMatcher", "registrators/interface.cc")],
 ["returned transform, success flag and score"])

prop("C27", "Exported trajectories and the map index describe the poses faithfully",
 "The exported path text lists every frame of every submap once, in order, with its global position and orientation; the path clouds contain exactly those positions, and the position-frame and odometry paths exactly the submaps that have such data. "
 "The map index lists every submap with the id, file name, pose and loop connections it has, and reading the pose back gives the same rigid transform.",
 ["inputs", "histories"],
 "every trajectory, pose set and connection set",
 "No existing test writes a trajectory.",
 ["builder/trajectory.cc", "builder/submap.cc", "tools/path_statistic.cc"],
 [("Trajectory::OutputPathToPointcloud", "builder/trajectory.cc"), ("Trajectory::ToXmlNode / Submap::ToXmlNode", "builder/submap.cc")],
 ["exported csv/pcd/xml files"])

prop("C28", "A complete mapping session accounts for all data and finds the truth",
 "A session fed with scans of a known world along a known path always terminates after being told to finish, groups its key frames into submaps without losing, duplicating or reordering any, and estimates the path to within a small error. "
 "The exported maps, paths and submap files agree with each other and with the world and the call-backs get consistent data. "
 "For any pacing of the input no scan accepted before finishing is dropped; only key frames too few to fill a last submap are left out.",
 ["inputs", "schedules", "configurations"],
 "every pacing, world, path and option combination",
 "No existing test runs the builder.",
 ["builder/map_builder.cc", "builder/submap.cc", "builder/trajectory.cc", "builder/data/data_collector.cc", "back_end/isam_optimizer.cc"],
 [("ScanMatchProcessing", "builder/map_builder.cc"), ("SubmapProcessing/ConnectAllSubmap", "builder/map_builder.cc"),
  ("FinishAllComputations", "builder/map_builder.cc"), ("SaveMaps/OutputPath", "builder/map_builder.cc")],
 ["exported files", "call-back arguments"])

prop("C29", "The mapping pipeline is free of data races and memory errors",
 "Running complete mapping sessions - input, pre-processing, scan matching, submap building, parallel submap matching, optimisation, disk swapping, export and shut-down - performs no data race, no dead-lock and no invalid memory access or undefined operation in the project's code, for any pacing of the input and any option combination.",
 ["schedules", "configurations", "inputs"],
 "every schedule of the session's threads",
 "Existing tests are single-threaded unit tests built without sanitizers.",
 ["builder/map_builder.cc", "builder/data/data_collector.cc", "builder/data/cloud_types.cc", "builder/memory_manager.cc", "common/performance/simple_prof.cc"],
 [("locks around shared queues and clouds", "builder/data/data_collector.cc"), ("atomic flags", "builder/map_builder.h")],
 ["TSan, ASan and UBSan reports of full sessions"])

prop("C30", "Recorded data and messages are imported without loss or distortion",
 "Reading a recorded scan file yields exactly its points in order with scaled intensity, whatever its size, and iterating a data directory yields every scan exactly once in name order; converting sensor messages keeps every field and stamp. "
 "Files that are missing, empty or cut in the middle of a point give no or only complete points and never crash.",
 ["inputs", "crash_points"],
 "every file size/content and truncation, every message",
 "The readers are not compiled by the existing tests.",
 ["ros_node/kitti_reader.cc", "ros_node/msg_conversion.cc"],
 [("KittiLidarDataReader::ReadFromFile/ReadNext", "ros_node/kitti_reader.cc"), ("ToLocalImu/ToLocalNavSatMsg/...", "ros_node/msg_conversion.cc")],
 ["returned clouds and messages"])

prop("C31", "Profiling never disturbs or corrupts the program it measures",
 "Timing blocks registered and executed from any number of threads at once count every execution exactly once, add non-negative durations, and report per-block totals, minimum and maximum consistent with each other. "
 "No interleaving of measuring threads is a data race or crash.",
 ["schedules"],
 "every set of blocks and threads",
 "No existing test profiles concurrently.",
 ["common/performance/simple_prof.h", "common/performance/simple_prof.cc", "common/performance/process_info.cc"],
 [("TimerManager", "common/performance/simple_prof.cc")],
 ["written profile report", "TSan reports"])

prop("C32", "The view graph mirrors exactly the vertices and edges added",
 "The exported connection graph contains exactly the vertices added, each with its latest position, and exactly the edges added between known vertices, independent of the order of insertion; the text export lists each vertex with all of its neighbours and the drawn picture is just large enough for all vertices at any location and shows exactly the edges. "
 "Exporting is read-only: repeating it gives the same result.",
 ["inputs", "histories"],
 "every graph, insertion order and repetition of exports",
 "No existing test builds a graph.",
 ["back_end/view_graph.h", "back_end/view_graph.cc"],
 [("ViewGraph::AddVertex/AddEdge/SaveTextFile/SaveImage", "back_end/view_graph.cc")],
 ["GetWholeGraph", "text and image files"])

prop("C33", "Command line tools process exactly the data they are given",
 "The sampling tool writes a cloud of exactly the requested fraction of the input's points, all of them input points; the path tool and the converter write exactly the positions in their file, in order. "
 "Missing or malformed inputs end with an error instead of an output.",
 ["inputs"],
 "every input file and argument",
 "No existing test runs the tools.",
 ["tools/pcd_sampler.cc", "tools/path_statistic.cc", "tools/pcd_to_las.cc", "tools/join_pieces.cc"],
 [("main", "tools/pcd_sampler.cc"), ("main", "tools/path_statistic.cc")],
 ["written files", "printed statistics", "exit status"])

prop("C34", "The GPU and multi-session variants agree with the main pipeline",
 "Matching on the graphics processor gives the result of the same matcher on the CPU, and merging several recorded sessions yields a map in which every session keeps its internal geometry.",
 ["inputs", "configurations"],
 "every scan pair and session set",
 "Neither variant can be built with the available tools.",
 ["registrators/cuda", "builder/multi_trajectory/multi_trajectory_map_builder.cc", "back_end/multi_trajectory/multi_trajectory_optimizer.cc"],
 [("cuda ICP", "registrators/cuda"), ("MultiTrajectoryMapBuilder", "builder/multi_trajectory/multi_trajectory_map_builder.cc")])

prop("C35", "Key frames are taken exactly when the configured motion is reached",
 "While mapping, every scan is matched once with the latest key frame, starting from the motion predicted by constant velocity or by the turn measured inertially in whatever way that sensor is mounted. "
 "It becomes a key frame exactly when the matched motion since that key frame reaches the configured distance or, where one is set, the configured turn (sum of the absolute heading, pitch and roll angles in degrees). "
 "The path is the composition of the matched motions (of their means with the predictions, where averaging is on) and, with motion compensation on, each mapped point is moved by the fraction of the motion from the previous scan that had passed when it was measured.",
 ["inputs", "histories", "schedules"],
 "every motion, limit, mounting, accumulation count and pacing of the input",
 "No existing test runs the front end of a session.",
 ["builder/map_builder.cc", "builder/pose_extrapolator.cc"],
 [("MapBuilder::ScanMatchProcessing", "builder/map_builder.cc"), ("MotionCompensation", "builder/map_builder.cc"), ("MapBuilder::InsertImuMsg", "builder/map_builder.cc")],
 ["questions put to the scan matcher", "exported path", "exported map"])

prop("C36", "Range images are split into surfaces and drawn faithfully",
 "Returns of one range image get the same label exactly when they are connected through neighbouring pixels (up to two columns, also across the seam of the circle, or one row apart) whose joining line is steeper than ten degrees to the beam; only surfaces of at least twenty returns are reported, each return once. "
 "The picture has one pixel per cell, with brightness proportional to the range up to the given limit, black beyond it, and black (grey picture) or green (coloured picture) where nothing was seen. "
 "Neither operation reads foreign memory or leaks, however often it is repeated.",
 ["inputs", "histories"],
 "every cloud, image size, field of view, limit and number of repetitions",
 "The range image has no test.",
 ["pre_processors/filter_range_image.cc", "pre_processors/filter_range_image.h"],
 [("RangeImage::DepthCluster", "pre_processors/filter_range_image.cc"), ("RangeImage::LabelOneComponent", "pre_processors/filter_range_image.cc"), ("RangeImage::ToPng", "pre_processors/filter_range_image.cc")],
 ["labelled cloud", "written picture", "sanitizer reports"])

prop("C37", "The resource log tells the truth about the running process",
 "While profiling, a log named after the process is written with one line per interval, each holding the share of the machine's processor time the process and its finished children used in that interval (user and kernel time) and its resident and virtual memory size in kilobytes at that moment. "
 "This holds for any load, any growth of memory and any name of the process. "
 "Where the log cannot be written the program runs on undisturbed.",
 ["inputs", "histories", "configurations"],
 "every load, process name and user environment",
 "No existing test looks at the resource log.",
 ["common/performance/process_info.cc", "common/performance/process_info.h"],
 [("ProcessProfiler::Run", "common/performance/process_info.cc"), ("ProcessProfiler::GetProcCpu", "common/performance/process_info.cc")],
 ["written log", "kernel accounting"])

prop("C38", "Submaps are chained by accepted matches, otherwise by the tracked motion",
 "While mapping, every finished submap is matched exactly once with the one before it, starting from the tracked motion between them. "
 "Without loops and positions each submap lies where the chain puts it that takes every match scoring at least the accepted minimum and the tracked motion in place of every other match, whatever the order in which the matches finish. "
 "The submaps and paths shown while running, the exported pose list (one line per submap) and the exported path all report exactly this chain.",
 ["inputs", "histories", "schedules"],
 "every sequence of match results and scores and every order of their completion",
 "No existing test connects submaps.",
 ["builder/map_builder.cc", "builder/submap.cc"],
 [("MapBuilder::SubmapPairMatch", "builder/map_builder.cc"), ("MapBuilder::ConnectAllSubmap", "builder/map_builder.cc"), ("MapBuilder::OutputPath", "builder/map_builder.cc")],
 ["questions put to the submap matcher", "displayed submaps and paths", "exported poses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
