// C35: key frames, start guesses and compensation of a session whose matches are scripted.
#include <pcl/io/pcd_io.h>
#include <sys/stat.h>

#include "builder/map_builder.h"
#include "gen.h"
#include "scene.h"
#include "standin_icp.h"

using namespace vp;
using static_map::MapBuilder;
using Pcl = MapBuilder::PointCloudType;

extern "C" std::atomic<long> vp_sleep_ns_per_s;

namespace {

std::string yes(bool b) { return b ? "true" : "false"; }

double turn_sum(const Eigen::Matrix4d& m) {
  const double sy = std::hypot(m(0, 0), m(1, 0));
  return (std::fabs(std::atan2(m(2, 1), m(2, 2))) + std::fabs(std::atan2(-m(2, 0), sy)) + std::fabs(std::atan2(m(1, 0), m(0, 0)))) * 180 / M_PI;
}

Eigen::Matrix4d part_of(const Eigen::Matrix4d& d, double f) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  const Eigen::AngleAxisd a(Eigen::Matrix3d(d.block<3, 3>(0, 0)));
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(a.angle() * f, a.axis()).toRotationMatrix();
  m.block<3, 1>(0, 3) = d.block<3, 1>(0, 3) * f;
  return m;
}

struct Asked {
  int target, source;
  Eigen::Matrix4d guess;
  std::vector<Eigen::Vector3d> points;  // of the source
};

enum Motion { kSteady, kTurning, kJumpy, kStanding, kMotions };
const char* kMotionName[] = {"steady", "turning on the spot", "any", "standing"};

void one(long, Rng& r) {
  const int n = r.p(0.1) ? r.i(0, 3) : r.i(6, 40), frame_count = r.i(2, 4), accumulate = r.p(0.3) ? r.i(2, 3) : 1;
  const int motion = r.i(0, kMotions - 1);
  const bool imu = motion != kJumpy && r.p(0.4), compensate = r.p(0.4), average = compensate && r.p(0.4), tilted = motion == kJumpy && r.p(0.5);
  const float range = float(r.p(0.3) ? r.d(0.05, 0.3) : r.d(0.3, 3)), angle = float(r.p(0.4) ? 0 : r.p(0.5) ? r.d(0.5, 5) : r.d(5, 60));
  const double dt = r.p(0.5) ? 0.1 : r.d(0.05, 0.2);
  // the true path; no decision on the edge of a limit
  std::vector<Eigen::Matrix4d> pose;
  std::vector<double> rate;
  std::vector<int> key;
  const Eigen::Vector3d v(r.d(-8, 8), r.d(-8, 8), r.p(0.5) ? 0 : r.d(-1, 1));
  double yaw = r.d(-3, 3), w = r.d(-0.8, 0.8);
  Eigen::Vector3d at(r.d(-5, 5), r.d(-5, 5), r.d(-1, 1));
  bool edge = false;
  for (int i = 0; i < n; ++i) {
    pose.push_back(tilted ? pose_of(at[0], at[1], at[2], yaw, r.d(-0.1, 0.1), r.d(-0.1, 0.1)) : pose_of(at[0], at[1], at[2], yaw));
    rate.push_back(w);
    if (i == 0) {
      key.push_back(0);
    } else {
      const Eigen::Matrix4d d = pose[key.back()].inverse() * pose[i];
      const double t = d.block<3, 1>(0, 3).norm(), a = turn_sum(d);
      edge = edge || std::fabs(t - range) < 1e-3 || (angle > 0 && std::fabs(a - angle) < 0.02);
      if (t >= range || (angle > 0 && a >= angle)) key.push_back(i);
    }
    switch (motion) {
      case kSteady: at += v * dt; yaw += w * dt; break;
      case kTurning: yaw += w * dt; if (r.p(0.2)) w = r.d(-0.8, 0.8); break;
      case kJumpy: at += Eigen::Vector3d(r.d(-1, 1), r.d(-1, 1), r.d(-0.1, 0.1)); yaw += r.d(-0.4, 0.4); w = 0; break;
      default: w = 0;
    }
  }
  if (edge && !average) { count("cases on the edge of a limit, skipped"); return; }
  const std::string what = fmt("%d scans, %s, %d per submap, %d messages per scan, limits %g m %g deg%s%s", n, kMotionName[motion], frame_count, accumulate, range, angle, imu ? ", imu" : "", compensate ? average ? ", compensated and averaged" : ", compensated" : "");
  if (system("rm -rf ./out ./pkg && mkdir out pkg")) harness_error("no scratch directory");
  {
    std::string s = "<edward_liu><static_mapping><whole_options export_file_path=\"out/\" map_package_path=\"pkg\" separate_output=\"false\" output_direct_combined_map=\"true\" output_mrvm=\"false\"/><map_package_options enable=\"false\"/>";
    s += fmt("<front_end_options accumulate_cloud_num=\"%d\"><scan_matcher_options type=\"1\"/><motion_filter translation_range=\"%.9g\" angle_range=\"%.9g\"/>", accumulate, range, angle);
    s += "<motion_compensation_options enable=\"" + yes(compensate) + "\" use_average=\"" + yes(average) + "\"/><imu_options use_imu=\"" + yes(imu) + "\" imu_frequency=\"100\" gravity_constant=\"9.8\"/></front_end_options>";
    s += fmt("<back_end_options><submap_matcher_options type=\"1\" accepted_min_score=\"0.6\"/><submap_options frame_count=\"%d\" enable_disk_saving=\"false\"/>", frame_count);
    s += "<isam_optimizer_options use_gps=\"false\"/><loop_detector_setting use_gps=\"true\" loop_ignore_threshold=\"100000\"/></back_end_options></static_mapping></edward_liu>";
    std::ofstream("session.xml") << s;
  }
  // scan i carries i + 1 as its intensity
  std::vector<std::vector<Eigen::Vector3d>> local(n);
  std::mutex m;
  std::vector<Asked> asked;
  bool foreign = false;
  const int per = accumulate * r.i(2, 5);
  icp_script() = [&](const IcpQuestion& q, IcpAnswer* a) {
    std::lock_guard<std::mutex> l(m);
    auto id = [&](const static_map::data::InnerPointCloudData::Ptr& c) {
      auto in = c ? c->GetInnerCloud() : nullptr;
      return in && !in->points.empty() ? int(std::lround(in->points[0].intensity)) - 1 : -1;
    };
    const int t = id(q.target), s = id(q.source);
    if (t < 0 || s < 0 || t >= n || s >= n) { foreign = true; return false; }
    a->result = pose[t].inverse() * pose[s];
    // refused for submaps whose scans are not where they were matched
    a->score = average && int(q.source->GetInnerCloud()->points.size()) != per ? 0.1 : 0.9;
    if (int(q.source->GetInnerCloud()->points.size()) == per) {
      asked.push_back({t, s, q.guess, {}});
      for (auto& x : q.source->GetInnerCloud()->points) asked.back().points.emplace_back(x.x, x.y, x.z);
    }
    return true;
  };
  const Eigen::Matrix4d lever = r.p(0.2) ? pose_of(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1), 0) : r.p(0.1) ? pose_of(0, 0, 0, r.d(-3, 3), r.d(-0.5, 0.5), r.d(-0.5, 0.5)) : r.p(0.5) ? pose_of(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1), r.d(-3, 3), r.d(-0.5, 0.5), r.d(-0.5, 0.5)) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
  const Eigen::Matrix4d mount = r.p(0.6) ? pose_of(0, 0, 0, r.d(-3, 3), r.d(-1.4, 1.4), r.d(-3, 3)) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
  vp_sleep_ns_per_s = (const long[]){1000000, 5000000, 20000000}[r.i(0, 2)];
  const bool paced = r.p(0.2);
  {
    MapBuilder b;
    b.SetTrackingToLidar(lever);
    if (imu) b.SetTrackingToImu(mount);
    b.Initialise("session.xml");
    const uint64_t t0 = 1500000000000000ull + r.i(0, 1000000000);
    double next_imu = -0.05;
    for (int i = 0; i < n; ++i) {
      const double now = i * dt;
      for (; imu && next_imu <= now + 1e-6; next_imu += 0.01) {
        static_map::data::ImuMsg::Ptr u(new static_map::data::ImuMsg);
        u->header.stamp = static_map::SimpleTime::FromSec(double(t0) * 1e-6 + next_imu);
        const double turn = rate[std::min(std::max(int(std::floor(next_imu / dt)), 0), n - 1)];
        u->angular_velocity = mount.block<3, 3>(0, 0).transpose() * Eigen::Vector3d(0, 0, turn);
        u->linear_acceleration = mount.block<3, 3>(0, 0).transpose() * Eigen::Vector3d(0, 0, 9.8);
        u->orientation = Eigen::Quaterniond::Identity();
        b.InsertImuMsg(u);
      }
      for (int a = 0; a < accumulate; ++a) {
        Pcl::Ptr c(new Pcl);
        for (int k = 0; k < per / accumulate; ++k) {
          const Eigen::Vector3d q(r.d(-9, 9), r.d(-9, 9), r.d(-9, 9));
          pcl::PointXYZI x;
          x.x = q[0], x.y = q[1], x.z = q[2], x.intensity = i + 1;
          c->push_back(x);
          local[i].push_back((lever * q.homogeneous()).head<3>());
        }
        c->header.stamp = t0 + uint64_t(std::llround((now + dt * a / accumulate) * 1e6));
        b.InsertPointcloudMsg(c);
      }
      if (paced && r.p(0.3)) { struct timespec p = {0, long(r.i(0, 3000000))}; syscall(230 /* clock_nanosleep */, CLOCK_MONOTONIC, 0, &p, nullptr); }
    }
    b.FinishAllComputations();
  }
  icp_script() = nullptr;
  eval();
  VP_REQUIRE(!foreign, "matched-foreign-clouds", what);
  // every scan after the first is matched once, with the newest key frame
  bool same = asked.size() == size_t(std::max(0, n - 1));
  std::vector<Eigen::Matrix4d> est;
  for (int i = 0; i < n; ++i) est.push_back(pose[0].inverse() * pose[i]);
  if (average && same) {
    // the mean of match and prediction is the motion taken
    edge = false;
    key.resize(n == 0 ? 0 : 1);
    for (int i = 1; i < n; ++i) {
      const int t = key.back();
      const Eigen::Matrix4d answer = pose[t].inverse() * pose[i], guess = asked[i - 1].guess;
      Eigen::Matrix4d mean = answer * part_of(answer.inverse() * guess, 0.5);
      mean.block<3, 1>(0, 3) = (answer + guess).block<3, 1>(0, 3) / 2;
      est[i] = est[t] * mean;
      const double d = mean.block<3, 1>(0, 3).norm(), a = turn_sum(mean);
      edge = edge || std::fabs(d - range) < 2e-3 || (angle > 0 && std::fabs(a - angle) < 0.04) || rot_angle(answer.block<3, 3>(0, 0), guess.block<3, 3>(0, 0)) > 2.5;
      if (d >= range || (angle > 0 && a >= angle)) key.push_back(i);
    }
    if (edge) { count("cases on the edge of a limit, skipped"); return; }
  }
  std::vector<int> newest(n, 0);
  for (size_t k = 0, i = 0; int(i) < n; ++i) {
    newest[i] = key[k];
    if (k + 1 < key.size() && key[k + 1] == int(i)) ++k;
  }
  std::string first;
  for (size_t k = 0; same && k < asked.size(); ++k)
    if (asked[k].source != int(k) + 1 || asked[k].target != newest[k + 1]) { same = false; first = fmt(" scan %d with %d instead of %d", asked[k].source, asked[k].target, newest[k + 1]); }
  VP_REQUIRE(same, "wrong-match", fmt("%zu matches%s; ", asked.size(), first.c_str()) + what);
  // what it started from
  if (same) {
    double worst = 0, worst_turn = 0, bent = 0;
    for (auto& a : asked) {
      const Eigen::Matrix4d want = pose[a.target].inverse() * pose[a.source];
      VP_REQUIRE(is_rigid(a.guess, 1e-4), "guess-not-rigid", what);
      if (motion == kJumpy || a.source < 2 || average) continue;
      if (motion == kTurning && !imu && rate[a.source - 1] != rate[std::max(0, a.source - 2)]) continue;
      worst_turn = std::max(worst_turn, rot_angle(a.guess.block<3, 3>(0, 0), want.block<3, 3>(0, 0)));
      worst = std::max(worst, (a.guess - want).block<3, 1>(0, 3).norm());
      // the scan it is given is straightened with the predicted motion
      const Eigen::Matrix4d d = compensate ? Eigen::Matrix4d(pose[a.source - 1].inverse() * pose[a.source]) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
      for (int j = 0; j < per && a.points.size() == size_t(per); ++j)
        bent = std::max(bent, (a.points[j] - (part_of(d, double(j) / per) * local[a.source][j].homogeneous()).head<3>()).norm());
    }
    observe("matched points off m", bent);
    VP_REQUIRE(bent < (imu ? 0.5 : 0.02), "matched-scan-not-straightened", fmt("%g m; ", bent) + what);
    observe(imu ? "start guess off, with imu, rad" : "start guess off, rad", worst_turn);
    observe(imu ? "start guess off, with imu, m" : "start guess off, m", worst);
    VP_REQUIRE(worst < (imu ? 0.01 : 1e-3), "bad-start-guess", fmt("%g m %g rad; ", worst, worst_turn) + what);
    VP_REQUIRE(worst_turn < (imu ? 0.03 : 1e-3), "bad-start-guess", fmt("%g m %g rad; ", worst, worst_turn) + what);
  }
  // the frames of complete submaps, in order
  key.resize(n == 0 ? 0 : key.size() / frame_count * frame_count);
  std::vector<Eigen::Matrix4d> rows;
  {
    std::ifstream in("out/path.csv");
    VP_REQUIRE(bool(in), "no-path", what);
    std::string line;
    while (std::getline(in, line)) {
      for (auto& c : line) if (c == ',') c = ' ';
      std::istringstream s(line);
      long i;
      double x[6];
      if (s >> i >> x[0] >> x[1] >> x[2] >> x[3] >> x[4] >> x[5]) rows.push_back(pose_of(x[0], x[1], x[2], x[5], x[4], x[3]));
    }
  }
  VP_REQUIRE(rows.size() == key.size(), "wrong-key-frames", fmt("%zu instead of %zu; ", rows.size(), key.size()) + what);
  if (rows.size() != key.size()) return;
  double off = 0, off_turn = 0;
  for (size_t k = 0; k < key.size(); ++k) {
    const Eigen::Matrix4d want = est[key[k]];
    off = std::max(off, (want - rows[k]).block<3, 1>(0, 3).norm());
    off_turn = std::max(off_turn, rot_angle(want.block<3, 3>(0, 0), rows[k].block<3, 3>(0, 0)));
  }
  observe("path off m", off);
  observe("path off rad", off_turn);
  VP_REQUIRE(off < 0.02 && off_turn < 0.005, "path-wrong", fmt("%g m %g rad; ", off, off_turn) + what);
  // the map: the points of the key frames, each moved as far as the scanner had when it measured it
  Pcl c;
  if (access("out/whole_map.pcd", R_OK) == 0 && pcl::io::loadPCDFile("out/whole_map.pcd", c)) violation("map-unreadable", what);
  VP_REQUIRE(c.size() == key.size() * per, "points-lost", fmt("%zu instead of %zu points; ", c.size(), key.size() * per) + what);
  if (c.size() != key.size() * per) return;
  double wrong = 0;
  bool order = true;
  for (size_t k = 0; k < key.size(); ++k) {
    const int s = key[k];
    const Eigen::Matrix4d d = compensate && s > 0 ? Eigen::Matrix4d(est[s - 1].inverse() * est[s]) : Eigen::Matrix4d(Eigen::Matrix4d::Identity());
    for (int j = 0; j < per; ++j) {
      const auto& q = c.points[k * per + j];
      order = order && std::lround(q.intensity) == s + 1;
      const Eigen::Vector4d want = est[s] * part_of(d, double(j) / per) * local[s][j].homogeneous();
      wrong = std::max(wrong, (want.head<3>() - Eigen::Vector3d(q.x, q.y, q.z)).norm());
    }
  }
  VP_REQUIRE(order, "map-order", what);
  observe(compensate ? "compensated points off m" : "points off m", wrong);
  VP_REQUIRE(!order || wrong < 0.02 + off + 20 * off_turn, "points-misplaced", fmt("%g m; ", wrong) + what);
  cover(fmt("%s %d %d %d %d %d", kMotionName[motion], imu, compensate + average, accumulate > 1, angle > 0, int(8 * key.size() / std::max(1, n))));
  count("scans", n);
  count("key frames", key.size());
  sample(what + fmt(": %zu key frames", key.size()));
}

}  // namespace

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  return vp::run(argc, argv, one);
}
