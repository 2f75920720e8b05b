// C38: how neighbouring submaps are connected; all matches are scripted.
#include <pcl/io/pcd_io.h>

#include "builder/map_builder.h"
#include "gen.h"
#include "scene.h"
#include "standin_icp.h"

using namespace vp;
using static_map::MapBuilder;
using Pcl = MapBuilder::PointCloudType;

extern "C" std::atomic<long> vp_sleep_ns_per_s;

namespace {

struct Pair {
  int times = 0;
  Eigen::Matrix4d guess, result;
  double score = 0;
};

Eigen::Matrix4d rounded(const Eigen::Matrix4d& m) { return m.cast<float>().cast<double>(); }

void really_sleep(long ns) {
  struct timespec p = {0, ns};
  syscall(230 /* clock_nanosleep */, CLOCK_MONOTONIC, 0, &p, nullptr);
}

void one(long, Rng& r) {
  const int frame_count = r.i(2, 5), n = r.p(0.1) ? r.i(0, 2 * frame_count) : r.i(2 * frame_count, 60), per = r.i(2, 6);
  const int count_of = n / frame_count;
  const double limit = r.d(0.2, 0.9);
  const int mood = r.i(0, 3);  // all good, all bad, mixed, mostly good
  const bool wild = r.p(0.4), slow = r.p(0.6), kitti = r.p(0.7);
  std::vector<Eigen::Matrix4d> pose;
  Eigen::Matrix4d at = pose_of(r.d(-5, 5), r.d(-5, 5), r.d(-1, 1), r.d(-3, 3));
  for (int i = 0; i < n; ++i) {
    pose.push_back(at);
    at = at * pose_of(r.d(0.2, 1.5), r.d(-0.2, 0.2), r.d(-0.1, 0.1), r.d(-0.3, 0.3), r.d(-0.1, 0.1), r.d(-0.1, 0.1));
  }
  const std::string what = fmt("%d scans, %d per submap, accepted from %.3f, mood %d%s%s", n, frame_count, limit, mood, wild ? ", wild matches" : "", slow ? ", uneven matching times" : "");
  if (system("rm -rf ./out ./pkg && mkdir out pkg")) harness_error("no scratch directory");
  {
    std::string s = "<edward_liu><static_mapping><whole_options export_file_path=\"out/\" map_package_path=\"pkg\" separate_output=\"false\" output_direct_combined_map=\"true\" output_mrvm=\"false\" output_kitti_pose=\"" + std::string(kitti ? "true" : "false") + "\"/><map_package_options enable=\"false\"/>";
    s += "<front_end_options accumulate_cloud_num=\"1\"><scan_matcher_options type=\"1\"/><motion_filter translation_range=\"0.05\" angle_range=\"0\"/>";
    s += "<motion_compensation_options enable=\"false\" use_average=\"false\"/><imu_options use_imu=\"false\"/></front_end_options>";
    s += fmt("<back_end_options><submap_matcher_options type=\"1\" accepted_min_score=\"%.9g\"/><submap_options frame_count=\"%d\" enable_disk_saving=\"false\"/>", limit, frame_count);
    s += "<isam_optimizer_options use_gps=\"false\"/><loop_detector_setting use_gps=\"true\" loop_ignore_threshold=\"100000\"/></back_end_options></static_mapping></edward_liu>";
    std::ofstream("session.xml") << s;
  }
  std::mutex m;
  std::map<std::pair<int, int>, Pair> asked;  // target, source; numbers of submaps
  bool foreign = false;
  const uint64_t salt = r.u64();
  icp_script() = [&](const IcpQuestion& q, IcpAnswer* a) {
    auto id = [&](const static_map::data::InnerPointCloudData::Ptr& c) {
      auto in = c ? c->GetInnerCloud() : nullptr;
      return in && !in->points.empty() ? int(std::lround(in->points[0].intensity)) - 1 : -1;
    };
    const int t = id(q.target), s = id(q.source);
    const bool whole = q.source && q.source->GetInnerCloud()->points.size() == size_t(per * frame_count);
    if (t < 0 || s < 0 || t >= n || s >= n || (whole && (t % frame_count || s % frame_count))) {
      std::lock_guard<std::mutex> l(m);
      foreign = true;
      return false;
    }
    a->result = pose[t].inverse() * pose[s];
    a->score = 0.9;
    if (!whole) return true;
    Rng x(salt ^ (uint64_t(t) * 1000003 + s));
    const bool bad = mood == 1 || (mood == 2 && x.p(0.5)) || (mood == 3 && x.p(0.15));
    a->score = bad ? limit * x.d(0, 0.998) : limit + (1 - limit) * x.d(0.002, 1);
    a->result = rounded(a->result * (wild ? pose_of(x.d(-30, 30), x.d(-30, 30), x.d(-3, 3), x.d(-3, 3), x.d(-0.4, 0.4), x.d(-0.4, 0.4)) : pose_of(x.d(-1, 1), x.d(-1, 1), x.d(-.2, .2), x.d(-.2, .2), x.d(-.05, .05), x.d(-.05, .05))));
    if (slow) really_sleep(x.p(0.3) ? x.i(0, 20000000) : x.i(0, 500000));
    std::lock_guard<std::mutex> l(m);
    Pair& p = asked[{t / frame_count, s / frame_count}];
    ++p.times;
    p.guess = q.guess;
    p.result = a->result;
    p.score = a->score;
    return !bad;
  };
  struct Shown { int first; size_t size; Eigen::Matrix4d pose; };
  std::vector<Shown> shown;
  std::vector<Eigen::Matrix4d> path;
  std::vector<size_t> path_sizes;
  vp_sleep_ns_per_s = (const long[]){1000000, 5000000, 20000000}[r.i(0, 2)];
  const bool paced = r.p(0.3);
  {
    MapBuilder b;
    b.SetTrackingToLidar(Eigen::Matrix4d::Identity());
    b.SetShowSubmapFunction([&](const Pcl::Ptr& c, const Eigen::Matrix4d& p) {
      std::lock_guard<std::mutex> l(m);
      shown.push_back({c->empty() ? -1 : int(std::lround(c->points[0].intensity)) - 1, c->size(), p});
    });
    b.SetShowPathFunction([&](const std::vector<Eigen::Matrix4d>& v) {
      std::lock_guard<std::mutex> l(m);
      path = v;
      path_sizes.push_back(v.size());
    });
    b.Initialise("session.xml");
    const uint64_t t0 = 1500000000000000ull + r.i(0, 1000000000);
    for (int i = 0; i < n; ++i) {
      Pcl::Ptr c(new Pcl);
      for (int k = 0; k < per; ++k) {
        pcl::PointXYZI x;
        x.x = r.d(-9, 9), x.y = r.d(-9, 9), x.z = r.d(-9, 9), x.intensity = i + 1;
        c->push_back(x);
      }
      c->header.stamp = t0 + i * 100000ull;
      b.InsertPointcloudMsg(c);
      if (paced && r.p(0.3)) really_sleep(r.i(0, 3000000));
    }
    b.FinishAllComputations();
  }
  icp_script() = nullptr;
  eval();
  VP_REQUIRE(!foreign, "matched-foreign-clouds", what);
  // every submap is matched once, with the one before it, starting from the tracked motion
  bool once = asked.size() == size_t(std::max(0, count_of - 1));
  double guess_off = 0, guess_turn = 0;
  std::vector<Eigen::Matrix4d> want;
  int good = 0;
  if (count_of > 0) want.push_back(Eigen::Matrix4d::Identity());
  for (int k = 1; k < count_of && once; ++k) {
    auto it = asked.find({k - 1, k});
    if (it == asked.end() || it->second.times != 1) { once = false; break; }
    const Pair& p = it->second;
    const Eigen::Matrix4d tracked = pose[(k - 1) * frame_count].inverse() * pose[k * frame_count];
    guess_off = std::max(guess_off, (p.guess - tracked).block<3, 1>(0, 3).norm());
    guess_turn = std::max(guess_turn, rot_angle(p.guess.block<3, 3>(0, 0), tracked.block<3, 3>(0, 0)));
    want.push_back(want.back() * (p.score >= limit ? p.result : tracked));
    good += p.score >= limit;
  }
  VP_REQUIRE(once, "submaps-not-matched-once", fmt("%zu pairs of %d submaps; ", asked.size(), count_of) + what);
  if (!once) return;
  observe("start of submap matches off m", guess_off);
  VP_REQUIRE(guess_off < 2e-3 && guess_turn < 1e-3, "bad-start-of-submap-match", fmt("%g m %g rad; ", guess_off, guess_turn) + what);
  double size = 1;
  for (auto& w : want) size = std::max(size, w.block<3, 1>(0, 3).norm());
  const double tol = 2e-3 + 2e-5 * size * std::max(1, count_of), tol_turn = 1e-3 + 2e-5 * count_of;
  auto compare = [&](const std::vector<Eigen::Matrix4d>& got, size_t from, const char* key) {
    double off = 0, turn = 0;
    for (size_t k = 0; k < got.size(); ++k) {
      off = std::max(off, (got[k] - want[from + k]).block<3, 1>(0, 3).norm());
      turn = std::max(turn, rot_angle(got[k].block<3, 3>(0, 0), want[from + k].block<3, 3>(0, 0)));
    }
    observe("pose of a submap off, relative to tolerance", off / tol);
    VP_REQUIRE(off < tol && turn < tol_turn, key, fmt("%g m %g rad of %g m; ", off, turn, size) + what);
  };
  // as shown while running
  bool in_order = shown.size() == size_t(std::max(0, count_of - 1));
  std::vector<Eigen::Matrix4d> got;
  for (size_t k = 0; k < shown.size() && in_order; ++k) {
    in_order = shown[k].first == int(k + 1) * frame_count && shown[k].size == size_t(per * frame_count);
    got.push_back(shown[k].pose);
  }
  VP_REQUIRE(in_order, "shown-submaps", fmt("%zu shown of %d submaps; ", shown.size(), count_of) + what);
  if (in_order) compare(got, 1, "shown-submap-misplaced");
  bool growing = true;
  for (size_t k = 1; k < path_sizes.size(); ++k) growing = growing && path_sizes[k] > path_sizes[k - 1];
  VP_REQUIRE(growing && (count_of < 2 ? path.empty() : path.size() == want.size()), "shown-path", fmt("%zu of %zu; ", path.size(), want.size()) + what);
  if (path.size() <= want.size()) compare(path, 0, "shown-path-misplaced");
  // as exported
  {
    std::ifstream in("out/kitti_pose.txt");
    VP_REQUIRE(bool(in) == kitti, "pose-file-presence", what);
    std::vector<Eigen::Matrix4d> rows;
    std::string line;
    bool form = true;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      Eigen::Matrix4d p = Eigen::Matrix4d::Identity();
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) form = form && bool(s >> p(i, j));
      rows.push_back(p);
    }
    if (kitti) {
      VP_REQUIRE(form && rows.size() == want.size(), "pose-file-form", fmt("%zu rows of %zu; ", rows.size(), want.size()) + what);
      if (form && rows.size() == want.size()) compare(rows, 0, "exported-pose-wrong");
    }
  }
  {
    std::vector<Eigen::Matrix4d> rows;
    std::ifstream in("out/path.csv");
    std::string line;
    while (std::getline(in, line)) {
      for (auto& c : line) if (c == ',') c = ' ';
      std::istringstream s(line);
      long i;
      double x[6];
      if (s >> i >> x[0] >> x[1] >> x[2] >> x[3] >> x[4] >> x[5]) rows.push_back(pose_of(x[0], x[1], x[2], x[5], x[4], x[3]));
    }
    VP_REQUIRE(rows.size() == size_t(count_of * frame_count), "path-length", fmt("%zu; ", rows.size()) + what);
    double off = 0, size2 = size;
    if (rows.size() == size_t(count_of * frame_count))
      for (size_t k = 0; k < rows.size(); ++k) {
        const size_t s = k / frame_count;
        const Eigen::Matrix4d w = want[s] * pose[s * frame_count].inverse() * pose[k];
        off = std::max(off, (w - rows[k]).block<3, 1>(0, 3).norm());
        size2 = std::max(size2, w.block<3, 1>(0, 3).norm());
      }
    VP_REQUIRE(off < tol * 2 + 1e-5 * size2, "exported-path-wrong", fmt("%g m; ", off) + what);
  }
  cover(fmt("mood %d wild %d slow %d per %d submaps %d accepted %d", mood, wild, slow, frame_count, int(std::log2(count_of + 1)), count_of < 2 ? -1 : 4 * good / (count_of - 1)));
  count("submaps", count_of);
  count("accepted matches", good);
  count("refused matches", std::max(0, count_of - 1) - good);
  sample(what + fmt(": %d of %d matches accepted", good, std::max(0, count_of - 1)));
}

}  // namespace

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return vp::run(argc, argv, one);
}
