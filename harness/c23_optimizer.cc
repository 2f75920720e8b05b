// C23: trajectory optimisation.
#include "back_end/isam_optimizer.h"
#include "back_end/loop_detector.h"
#include "loops.h"

using namespace vp;
using static_map::Submap;
using static_map::back_end::IsamOptimizer;
using static_map::back_end::IsamOptimizerOptions;
using static_map::back_end::LoopDetectorSettings;

static double far(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a - b).block<3, 1>(0, 3).norm(); }
static double turned(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return rot_angle(a.block<3, 3>(0, 0), b.block<3, 3>(0, 0)); }

enum Kind { kChain, kExactLoop, kNoisyLoop, kGps, kOdom, kKinds };
static const char* kind_name(int k) {
  static const char* n[] = {"chain", "exact loop", "noisy chain with loop", "positions", "odometry"};
  return n[k];
}

static void one(long, Rng& r) {
  const int kind = r.i(0, kKinds - 1);
  IsamOptimizerOptions o;
  o.enable_extrinsic_calib = r.p(0.5);
  o.use_gps = kind == kGps;
  o.use_odom = kind == kOdom;
  o.gps_factor_init_num = r.i(4, 10);
  o.gps_factor_sample_step = r.i(0, 3);
  o.gps_factor_init_angle_rad = r.d(0.2, 1.2);
  const bool loops = kind == kExactLoop || kind == kNoisyLoop || (kind == kGps && r.p(0.3)) || (kind == kOdom && r.p(0.3));
  LoopDetectorSettings ls;
  ls.loop_ignore_threshold = loops ? 8 : 100000;
  ls.trying_detect_loop_count = 1;
  ls.nearest_history_pos_num = r.i(2, 5);
  ls.max_close_loop_distance = 12;
  ls.max_close_loop_z_distance = 4;
  ls.accept_scan_match_score = 0.7;
  const int n = kind == kChain ? r.i(1, 30) : r.i(22, 45);
  const int path_kind = kind == kChain ? r.i(0, kPathKinds - 1) : kind == kNoisyLoop ? int(kCircle) : kind == kGps && r.p(0.25) ? int(kLine) : r.pick(std::vector<int>{kCircle, kEight});
  std::vector<Eigen::Matrix4d> truth = make_path(r, path_kind, n, r.d(3, 6));
  const double tilt = r.p(0.5) ? 0.1 : 0;
  for (auto& t : truth) t = t * small_motion(r, 0, tilt);
  // far from the origin and turned any way
  const Eigen::Matrix4d world = r.p(0.5) ? Eigen::Matrix4d(truth[0].inverse()) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
  for (auto& t : truth) t = world * t;
  if (kind == kGps && r.p(0.5)) {
    // turning that just reaches, or just misses, what is asked for
    double most = 0;
    for (auto& t : truth) most = std::max(most, std::acos(std::min(1.0, std::max(-1.0, double(truth[0].block<3, 1>(0, 0).dot(t.block<3, 1>(0, 0)))))));
    o.gps_factor_init_angle_rad = std::max(0.1, most + (r.p(0.7) ? -r.d(0.06, 0.3) : r.d(0.06, 0.3)));
  }
  // a drifting chain of relative motions
  std::vector<Eigen::Matrix4d> rel(n, Eigen::Matrix4d::Identity()), chain(n);
  const Eigen::Matrix4d drift = kind == kNoisyLoop ? flat_pose(r.d(-0.06, 0.06), r.d(-0.06, 0.06), r.d(-0.02, 0.02), (r.p(0.5) ? 1 : -1) * r.d(0.004, 0.012)) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
  chain[0] = truth[0];
  for (int i = 1; i < n; ++i) {
    rel[i] = truth[i - 1].inverse() * truth[i] * drift;
    chain[i] = chain[i - 1] * rel[i];
  }
  std::vector<std::shared_ptr<Submap>> subs;
  Script script;
  IsamOptimizer opt(o, ls);
  Eigen::Matrix4d G = Eigen::Matrix4d::Identity(), lever = Eigen::Matrix4d::Identity(), calib = Eigen::Matrix4d::Identity(), calib_guess = calib;
  if (kind == kGps) {
    G = flat_pose(r.d(-50, 50), r.d(-50, 50), r.d(-5, 5), r.d(-M_PI, M_PI)) * small_motion(r, 0, 0.03);
    if (r.p(0.7)) lever.block<3, 1>(0, 3) = Eigen::Vector3d(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1));
    opt.SetTrackingToGps(lever);
  }
  if (kind == kOdom) {
    calib = small_motion(r, 0.5, 0.3);
    calib_guess = o.enable_extrinsic_calib && r.p(0.5) ? Eigen::Matrix4d(calib * small_motion(r, 0.1, 0.05)) : calib;
    opt.SetTransformOdomToLidar(calib_guess);
    // the odometry starts at its own origin: t * pose * t^-1 with the first pose there
  }
  const double perturb = kind == kChain && r.p(0.5) ? 0.1 : 0;
  script.install([&](int t, int s) {
    Answer a;
    a.ok = true;
    a.a.result = truth[t].inverse() * truth[s];
    a.a.score = 0.95;
    return a;
  });
  const double gps_part = r.p(0.5) ? 1 : 0.6;
  std::vector<Eigen::Vector3d> enu(n, Eigen::Vector3d::Constant(1e9));
  int with_gps = 0;
  double most_turned = 0;
  const std::string d = fmt("%s: %s of %d, tilt %g, calib %d, loops %d", kind_name(kind), path_name(path_kind), n, tilt, o.enable_extrinsic_calib, loops);
  for (int i = 0; i < n; ++i) {
    // the caller places a submap relative to the latest estimate of its predecessor
    Eigen::Matrix4d start = i == 0 ? truth[0] : Eigen::Matrix4d(subs[i - 1]->GlobalPose() * rel[i]);
    if (i) start = start * small_motion(r, perturb, perturb * 0.2);
    auto s = small_submap(r, i, start);
    script.know(s, i);
    s->SetTransformFromLast(rel[i]);
    if (kind == kGps && r.p(gps_part)) {
      enu[i] = (G * truth[i] * lever).block<3, 1>(0, 3);
      s->SetRelatedGpsInENU(enu[i]);
      ++with_gps;
    }
    most_turned = std::max(most_turned, std::acos(std::min(1.0, std::max(-1.0, double(truth[0].block<3, 1>(0, 0).dot(truth[i].block<3, 1>(0, 0)))))));
    if (kind == kOdom) s->SetRelatedOdom(calib * truth[i] * calib.inverse());
    subs.push_back(s);
    opt.AddFrame(s, 0.9);
    eval();
    for (int k = 0; k <= i; ++k) {
      const Eigen::Matrix4d p = subs[k]->GlobalPose();
      if (!p.allFinite() || !is_rigid(p, 1e-6)) { violation("not-rigid", d + fmt(" submap %d after %d", k, i)); return; }
    }
  }
  opt.RunFinalOptimazation();
  double worst_t = 0, worst_r = 0, mean = 0, mean_chain = 0;
  const std::vector<Eigen::Matrix4d>& want = kind == kNoisyLoop ? truth : chain;
  for (int i = 0; i < n; ++i) {
    const Eigen::Matrix4d p = subs[i]->GlobalPose();
    if (!p.allFinite() || !is_rigid(p, 1e-6)) { violation("not-rigid", d + fmt(" submap %d", i)); return; }
    worst_t = std::max(worst_t, far(p, want[i]));
    worst_r = std::max(worst_r, turned(p, want[i]));
    mean += far(p, truth[i]) / n;
    mean_chain += far(chain[i], truth[i]) / n;
  }
  VP_REQUIRE(far(subs[0]->GlobalPose(), truth[0]) < 1e-3 && turned(subs[0]->GlobalPose(), truth[0]) < 1e-3, "first-pose-moved", d);
  int found = 0;
  for (auto& kv : opt.GetWholeGraph()) for (auto& c : kv.second.connections) found += c.first != kv.first + 1;
  observe(std::string(kind_name(kind)) + " worst translation", worst_t);
  observe(std::string(kind_name(kind)) + " worst rotation", worst_r);
  if (kind == kNoisyLoop) {
    if (found) {
      count("noisy chains with a loop");
      observe("noisy chain, error left", mean / mean_chain);
      VP_REQUIRE(mean < 0.8 * mean_chain, "loop-does-not-help", d + fmt(" %g m, by composition %g m", mean, mean_chain));
    }
  } else {
    const bool guessed = kind == kOdom && far(calib, calib_guess) + turned(calib, calib_guess) > 1e-9;
    const double lt = guessed ? 0.4 : kind == kGps ? 0.6 : 0.01, lr = guessed ? 0.03 : kind == kGps ? 0.03 : 0.002;
    VP_REQUIRE(worst_t < lt && worst_r < lr, "constraint-not-met", d + fmt(" off by %g m %g rad", worst_t, worst_r));
  }
  // the position frame
  const Eigen::Matrix4d g = opt.GetGpsCoordTransform();
  VP_REQUIRE(is_rigid(g, 1e-6), "position-frame-not-rigid", d);
  int early = 0;
  const bool solved = kind == kGps && with_gps > o.gps_factor_init_num + 2 && most_turned > o.gps_factor_init_angle_rad + 0.05;
  if (kind != kGps) {
    VP_REQUIRE((g - Eigen::Matrix4d::Identity()).norm() < 1e-12, "position-frame-not-identity", d);
  } else if (solved) {
    double worst = 0;
    for (int i = 0; i < n; ++i) if (enu[i][0] < 1e8) worst = std::max(worst, ((g * subs[i]->GlobalPose() * lever).block<3, 1>(0, 3) - enu[i]).norm());
    observe("positions missed by", worst);
    VP_REQUIRE(worst < 0.1, "positions-not-met", d + fmt(" by %g m, frame turned by %g", worst, turned(G, Eigen::Matrix4d::Identity())));
  } else if (most_turned < o.gps_factor_init_angle_rad - 0.05 || with_gps <= o.gps_factor_init_num) {
    ++early;
    VP_REQUIRE((g - Eigen::Matrix4d::Identity()).norm() < 1e-12, "position-frame-too-early", d + fmt(" turned %g of %g rad, %d of %d positions", most_turned, o.gps_factor_init_angle_rad, with_gps, o.gps_factor_init_num));
  }
  if (kind == kOdom) {
    const Eigen::Matrix4d c = opt.GetTransformOdomToLidar();
    VP_REQUIRE(is_rigid(c, 1e-6), "calibration-not-rigid", d);
    const double before = far(calib_guess, calib), after = far(c, calib), rb = turned(calib_guess, calib), ra = turned(c, calib);
    observe("calibration, translation left", after);
    observe("calibration, rotation left", ra);
    VP_REQUIRE(after <= before + 0.05 && ra <= rb + 0.03, "calibration-got-worse", d + fmt(" %g -> %g m, %g -> %g rad", before, after, rb, ra));
    if (!o.enable_extrinsic_calib) VP_REQUIRE(after < 1e-3 && ra < 1e-3, "fixed-calibration-changed", d);
  }
  // the graph
  auto graph = opt.GetWholeGraph();
  VP_REQUIRE(int(graph.size()) == n, "graph-vertices", d + fmt(" %zu instead of %d", graph.size(), n));
  int loop_edges = 0;
  for (int i = 0; i < n; ++i) {
    auto it = graph.find(i);
    if (it == graph.end()) { violation("graph-vertices", d + fmt(" without %d", i)); break; }
    VP_REQUIRE((it->second.self_pose - subs[i]->GlobalPose()).cwiseAbs().maxCoeff() < 1e-9, "graph-pose", d);
    std::multiset<int> to, con;
    for (auto& c : it->second.connections) {
      to.insert(int(c.first));
      if (c.first < 0 || c.first >= n) { violation("graph-edge", d); break; }
      Eigen::Matrix4d expect = c.first == i + 1 && !script.said.count({i, i + 1}) ? rel[i + 1] : Eigen::Matrix4d(truth[i].inverse() * truth[c.first]);
      VP_REQUIRE((c.second - expect).cwiseAbs().maxCoeff() < 1e-9, "graph-transform", d + fmt(" %d to %d", i, int(c.first)));
      if (c.first != i + 1) ++loop_edges;
    }
    for (auto& c : subs[i]->GetConnected()) con.insert(c.submap_index);
    VP_REQUIRE(std::set<int>(to.begin(), to.end()) == std::set<int>(con.begin(), con.end()), "graph-differs-from-connections", d + fmt(" at %d", i));
    if (i + 1 < n) VP_REQUIRE(to.count(i + 1) == 1, "chain-edge", d + fmt(" %d", i));
  }
  if (!loops) VP_REQUIRE(loop_edges == 0, "loop-edge-from-nothing", d);
  count("loop edges", loop_edges);
  if (solved) count("position frames");
  if (early) count("position frames not yet due");
  cover(fmt("%s %s calib %d loops %d solved %d size %d step %d", kind_name(kind), path_name(path_kind), o.enable_extrinsic_calib, loop_edges > 0, solved, n / 8, o.gps_factor_sample_step));
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return run(argc, argv, [](long k, Rng& r) {
    ::mkdir("pcd", 0755);
    one(k, r);
  });
}
