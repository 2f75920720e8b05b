// C24: loop detection.
#include "back_end/loop_detector.h"
#include "descriptor/m2dp.h"
#include "loops.h"

using namespace vp;
using static_map::Submap;
using static_map::back_end::DetectResult;
using static_map::back_end::LoopDetector;
using static_map::back_end::LoopDetectorSettings;

extern "C" void vp_jitter(unsigned long) __attribute__((weak));

enum Mood { kAllGood, kSomeBad, kOneOff, kAllBad, kMixed, kMoods };

static void one(long, Rng& r) {
  LoopDetectorSettings st;
  st.loop_ignore_threshold = r.p(0.2) ? r.i(0, 3) : r.i(4, 20);
  st.trying_detect_loop_count = r.i(0, 4);
  st.nearest_history_pos_num = r.p(0.8) ? r.i(2, 6) : 1;
  st.max_close_loop_distance = r.d(2, 30);
  st.max_close_loop_z_distance = r.d(0.3, 3);
  st.use_descriptor = r.p(0.4);
  st.m2dp_match_score = r.d(0.5, 0.95);
  st.accept_scan_match_score = r.d(0.5, 0.9);
  st.output_matched_cloud = r.p(0.1);
  st.use_gps = r.p(0.3);
  const int kind = r.i(0, kPathKinds - 1), mood = r.p(0.4) ? int(kAllGood) : r.i(0, kMoods - 1);
  const int n = st.loop_ignore_threshold + r.i(5, 50);
  const double step = r.d(0.3, 1.2) * st.max_close_loop_distance * 0.5;
  const auto path = make_path(r, kind, n, step);
  const double drift = r.p(0.5) ? 0 : 0.01;
  std::vector<std::shared_ptr<Submap>> subs;
  Script script;
  std::vector<static_map::descriptor::M2dp::Descriptor> desc;
  const bool alike = r.p(0.5);
  for (int i = 0; i < n; ++i) {
    subs.push_back(small_submap(r, i, path[i] * small_motion(r, drift, drift * 0.1)));
    static_map::descriptor::M2dp::Descriptor d(192);
    for (int k = 0; k < 192; ++k) d[k] = float(std::sin(k * 0.37) + (alike ? 0.05 : r.p(0.02) ? 3 : 0.5) * r.gauss());
    subs.back()->SetDescriptor(d);
    desc.push_back(d);
    script.know(subs.back(), i);
  }
  const uint64_t salt = r.u64();
  auto pick = [&](int t, int s, int what) { Rng x(salt ^ (uint64_t(t) * 1000003 + s) * 8 + what); return x.d(0, 1); };
  // a wrong answer is off by this much
  const int off_turn = r.i(0, 4);
  script.install([&](int t, int s) {
    Answer a;
    a.ok = true;
    a.a.result = subs[t]->GlobalPose().inverse() * subs[s]->GlobalPose();
    a.a.score = st.accept_scan_match_score + (1 - st.accept_scan_match_score) * (0.02 + 0.97 * pick(t, s, 0));
    const double u = pick(t, s, 1);
    const bool bad = mood == kAllBad || ((mood == kSomeBad || mood == kMixed) && u < 0.4);
    const bool off = (mood == kOneOff || mood == kMixed) && pick(t, s, 2) < 0.3;
    if (bad) {
      a.a.score = st.accept_scan_match_score * pick(t, s, 3) * 0.999;
      a.ok = pick(t, s, 4) < 0.5;
    }
    if (off) {
      Eigen::Matrix4d by = Eigen::Matrix4d::Identity();
      const double v = pick(t, s, 5), sign = pick(t, s, 6) < 0.5 ? -1 : 1;
      if (off_turn < 3) by.block<3, 3>(0, 0) = Eigen::AngleAxisd(sign * (0.2 + v), Eigen::Vector3d::Unit(off_turn)).toRotationMatrix();
      else if (off_turn == 3) by(2, 3) = sign * (1 + 5 * v);
      else by.block<2, 1>(0, 3) << 1 + 5 * v, sign * (1 + 3 * v);
      a.a.result = a.a.result * by;
    }
    return a;
  });
  LoopDetector det(st);
  const bool window = r.p(0.2);
  int w0 = 0, w1 = 0;
  if (window) { w0 = r.i(0, n - 1); w1 = r.i(w0, n - 1 + 5); det.SetSearchWindow(w0, w1); }
  const std::string d = fmt("%s of %d, step %.2f, ignore %d trying %d near %d dist %.2f z %.2f desc %d accept %.2f mood %d window %d", path_name(kind), n, step, st.loop_ignore_threshold, st.trying_detect_loop_count, st.nearest_history_pos_num, st.max_close_loop_distance, st.max_close_loop_z_distance, st.use_descriptor, st.accept_scan_match_score, mood, window);
  int streak = 0, loops = 0, edges = 0, due = 0;
  const bool skip_some = r.p(0.15);
  for (int k = 0; k < n; ++k) {
    const bool detect = !(skip_some && r.p(0.2));
    { std::lock_guard<std::mutex> l(script.m); script.said.clear(); }
    if (vp_jitter) vp_jitter(r.u64());
    DetectResult res = det.AddFrame(subs[k], detect);
    eval();
    const std::string dk = d + fmt(" submap %d", k);
    if (script.foreign) { violation("matched-foreign-clouds", dk); return; }
    VP_REQUIRE(res.current_frame_index == k, "wrong-index", dk);
    VP_REQUIRE(int(det.GetFrames().size()) == k + 1 && det.GetFrames().back() == subs[k], "wrong-frames", dk);
    // what could be found, away from the borders of the limits
    int sure = 0, hopeless = 0, nearest = -1;
    double least = 1e30;
    for (int i = 0; i < k; ++i) {
      const Eigen::Vector3d g = subs[k]->GlobalPose().block<3, 1>(0, 3) - subs[i]->GlobalPose().block<3, 1>(0, 3);
      const double xy = g.head<2>().norm(), z = std::fabs(g[2]);
      const bool old = window ? i >= w0 && i < w1 : i < k - st.loop_ignore_threshold;
      const double m = st.use_descriptor ? static_map::descriptor::matchTwoM2dpDescriptors(desc[k], desc[i]) : 1;
      if (old && z <= st.max_close_loop_z_distance && xy < least) { least = xy; nearest = i; }
      if (old && xy < st.max_close_loop_distance * 0.999 && z < st.max_close_loop_z_distance * 0.999 && (!st.use_descriptor || m > st.m2dp_match_score + 1e-3)) ++sure;
      if (old && xy <= st.max_close_loop_distance * 1.001 && z <= st.max_close_loop_z_distance * 1.001 && (!st.use_descriptor || m > st.m2dp_match_score - 1e-3)) ++hopeless;
    }
    const bool counted = detect && k + 1 > st.loop_ignore_threshold;
    if (counted) streak = sure > 0 ? streak + 1 : 0;
    // every edge is sound
    std::set<int> seen;
    for (auto& e : res.edges) {
      const int t = e.close_pair_index.first, s = e.close_pair_index.second;
      const std::string de = dk + fmt(" edge %d %d", t, s);
      ++edges;
      VP_REQUIRE(counted, "loop-without-being-asked", de);
      VP_REQUIRE(s == k && t >= 0 && t < k, "edge-ends", de);
      if (!(t >= 0 && t < k)) return;
      VP_REQUIRE(seen.insert(t).second, "edge-twice", de);
      if (window) VP_REQUIRE(t >= w0 && t <= w1, "outside-the-window", de + fmt(" %d %d", w0, w1));
      else VP_REQUIRE(k - t >= st.loop_ignore_threshold, "too-recent", de);
      const Eigen::Vector3d g = subs[k]->GlobalPose().block<3, 1>(0, 3) - subs[t]->GlobalPose().block<3, 1>(0, 3);
      VP_REQUIRE(g.head<2>().norm() <= st.max_close_loop_distance * (1 + 1e-6), "too-far", de + fmt(" %g", g.head<2>().norm()));
      VP_REQUIRE(std::fabs(g[2]) <= st.max_close_loop_z_distance * (1 + 1e-6), "too-high", de + fmt(" %g", g[2]));
      if (st.use_descriptor && t != nearest) VP_REQUIRE(static_map::descriptor::matchTwoM2dpDescriptors(desc[k], desc[t]) > st.m2dp_match_score - 1e-6, "unlike-descriptors", de);
      auto it = script.said.find({t, s});
      if (it == script.said.end()) { violation("never-verified", de); continue; }
      const Answer& a = it->second;
      VP_REQUIRE(a.a.score > st.accept_scan_match_score - 1e-6, "accepted-low-score", de + fmt(" %g", a.a.score));
      VP_REQUIRE((a.a.result - e.transform).cwiseAbs().maxCoeff() < 1e-9, "wrong-transform", de);
      VP_REQUIRE(std::fabs(e.score + std::log(a.a.score)) < 1e-6, "wrong-edge-score", de);
      const Eigen::Matrix4d rel = subs[t]->GlobalPose().inverse() * subs[k]->GlobalPose();
      Eigen::Matrix4d miss = (rel - a.guess).cwiseAbs();
      miss(2, 3) = 0;  // the height is left to the matcher
      VP_REQUIRE(miss.maxCoeff() < 1e-6, "wrong-guess", de);
    }
    // a loop is at least two edges that agree
    if (res.close_succeed) {
      ++loops;
      VP_REQUIRE(res.edges.size() >= 2, "loop-from-one-match", dk);
      double worst_t = 0, worst_r = 0;
      for (auto& a : res.edges) for (auto& b : res.edges) {
        const Eigen::Matrix4d pa = subs[a.close_pair_index.first]->GlobalPose() * a.transform, pb = subs[b.close_pair_index.first]->GlobalPose() * b.transform;
        worst_t = std::max(worst_t, (pa - pb).block<3, 1>(0, 3).norm());
        worst_r = std::max(worst_r, rot_angle(pa.block<3, 3>(0, 0), pb.block<3, 3>(0, 0)));
      }
      VP_REQUIRE(worst_t < 0.6 && worst_r < 0.06, "inconsistent-matches", dk + fmt(" %g m %g rad", worst_t, worst_r));
    }
    if (!hopeless) VP_REQUIRE(res.edges.empty() && !res.close_succeed, "loop-from-nothing", dk);
    // a lasting revisit with good matches is found
    if (counted && mood == kAllGood && streak >= st.trying_detect_loop_count + 3 && sure >= 2 && st.nearest_history_pos_num >= 2) {
      ++due;
      VP_REQUIRE(res.close_succeed, "revisit-not-reported", dk + fmt(" %d candidates, for %d submaps, %zu asked, %zu edges", sure, streak, script.said.size(), res.edges.size()));
    }
  }
  count("loops", loops);
  count("edges", edges);
  count("loops due", due);
  cover(fmt("%s mood %d desc %d window %d trying %d loops %d due %d", path_name(kind), mood, st.use_descriptor, window, st.trying_detect_loop_count, loops > 0, due > 0));
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return run(argc, argv, [](long k, Rng& r) {
    ::mkdir("pcd", 0755);
    one(k, r);
  });
}
