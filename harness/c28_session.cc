// C28/C29: complete mapping sessions in artificial worlds.
#include <pcl/io/pcd_io.h>
#include <sys/stat.h>

#include "GeographicLib/LocalCartesian.hpp"
#include "builder/map_builder.h"
#include "common/math.h"
#include "gen.h"
#include "scene.h"
#include "tbb/global_control.h"

using namespace vp;
using static_map::MapBuilder;
using Pcl = MapBuilder::PointCloudType;

extern "C" std::atomic<long> vp_sleep_ns_per_s;
extern "C" void vp_jitter(unsigned long) __attribute__((weak));

namespace {

struct Plan {
  int scans, frame_count, accumulate;
  int front, back;            // matcher types
  double step, key;           // metres per scan, between key frames
  bool compensate, average;   // the scanner moves while it turns
  bool imu, gps, loop, disk, separate, static_map, whole_map, kitti, package, voxel, inner, show, lever;
  int separate_step;
  std::string filters;        // name for the record
  bool keeps_all;             // the filters remove nothing
  int pacing;
  long sleep_scale;
  double noise;
  int imu_late;    // scans before the first inertial message
  double imu_lag;  // seconds an inertial message may arrive late
};

const char* kFilters[][2] = {
    {"none", ""},
    {"range", "<filters><filter name=\"Range\"><param type=\"1\" name=\"max_range\"> 55. </param><param type=\"1\" name=\"min_range\"> 0.3 </param></filter></filters>"},
    {"voxel", "<filters><filter name=\"VoxelGrid\"><param type=\"1\" name=\"voxel_size\"> 0.2 </param></filter></filters>"},
    {"random", "<filters><filter name=\"RandomSampler\"><param type=\"1\" name=\"sampling_rate\"> 0.6 </param></filter></filters>"},
};

struct Seen {
  std::mutex m;
  std::vector<std::pair<size_t, Eigen::Matrix4d>> submaps;
  std::vector<std::vector<Eigen::Matrix4d>> paths;
  std::vector<size_t> maps;
  size_t edges = 0, vertices = 0;
};

std::string yes(bool b) { return b ? "true" : "false"; }

std::string document(const Plan& p) {
  std::string s = "<edward_liu><static_mapping>";
  s += "<whole_options export_file_path=\"out/\" map_package_path=\"pkg\" separate_output=\"" + yes(p.separate) + "\" output_direct_combined_map=\"" +
       yes(p.whole_map) + "\" output_mrvm=\"" + yes(p.static_map) + "\" output_kitti_pose=\"" + yes(p.kitti) + fmt("\" separate_step=\"%d\"/>", p.separate_step);
  s += "<map_package_options enable=\"" + yes(p.package) + "\" border_offset=\"20\" piece_width=\"40\"/>";
  for (auto& f : kFilters)
    if (p.filters == f[0]) s += f[1];
  s += fmt("<front_end_options accumulate_cloud_num=\"%d\"><scan_matcher_options type=\"%d\"/>", p.accumulate, p.front);
  s += fmt("<motion_filter translation_range=\"%g\" angle_range=\"0\"/>", p.key);
  s += "<motion_compensation_options enable=\"" + yes(p.compensate) + "\" use_average=\"" + yes(p.average) + "\"/>";
  s += "<imu_options use_imu=\"" + yes(p.imu) + "\" imu_frequency=\"100\" gravity_constant=\"9.8\"/></front_end_options>";
  s += fmt("<back_end_options><submap_matcher_options type=\"%d\" accepted_min_score=\"0.6\"/>", p.back);
  s += fmt("<submap_options frame_count=\"%d\" enable_check=\"true\" disk_saving_delay=\"0\" enable_disk_saving=\"", p.frame_count) + yes(p.disk) +
       "\" enable_voxel_filter=\"" + yes(p.voxel) + "\" voxel_size=\"0.15\"/>";
  s += "<isam_optimizer_options use_gps=\"" + yes(p.gps) + "\" gps_factor_init_num=\"4\" gps_factor_init_angle_rad=\"0.5\" output_graph_pic=\"false\"/>";
  s += "<loop_detector_setting use_descriptor=\"true\" use_gps=\"false\" loop_ignore_threshold=\"" + std::string(p.loop ? "6" : "100") +
       "\" max_close_loop_distance=\"6\" m2dp_match_score=\"0.5\"/></back_end_options>";
  s += "<output_mrvm_settings prob_threshold=\"0.5\" high_resolution=\"0.2\" hit_prob=\"0.55\" miss_prob=\"0.48\" max_point_num_in_cell=\"10\"/>";
  return s + "</static_mapping></edward_liu>";
}

Plan make_plan(Rng& r, bool small) {
  Plan p;
  p.scans = small ? r.i(1, 14) : r.i(16, 44);
  if (!small && r.p(0.15)) p.scans = r.i(0, 5);
  p.frame_count = r.i(1, 5);
  p.accumulate = r.p(0.25) ? r.i(2, 4) : 1;
  p.front = r.p(0.7) ? 6 : 1;
  p.back = r.p(0.6) ? 6 : 1;
  p.step = r.d(0.25, 0.45);
  p.key = r.p(0.6) ? 0.08 : r.d(0.5, 1.2);
  p.compensate = r.p(0.35);
  p.average = r.p(0.3);
  p.imu = arg("imu") == "1" || r.p(0.2);
  p.imu_late = p.imu && r.p(0.3) ? r.i(1, 3) : 0;
  p.imu_lag = p.imu && r.p(0.4) ? r.d(0.01, 0.25) : 0;
  p.gps = !p.imu && r.p(0.25);
  p.loop = r.p(0.3);
  p.disk = r.p(0.45);
  p.separate = r.p(0.3);
  p.static_map = r.p(0.7);
  p.whole_map = r.p(0.8);
  p.kitti = r.p(0.5);
  p.package = r.p(0.3);
  p.voxel = r.p(0.4);
  p.show = r.p(0.7);
  p.lever = r.p(0.4);
  p.separate_step = r.i(1, 5);
  p.filters = r.p(0.5) ? "none" : kFilters[r.i(0, 3)][0];
  p.keeps_all = p.filters == "none" || p.filters == "range";
  p.pacing = r.i(0, 4);
  p.sleep_scale = (const long[]){1000000, 5000000, 20000000, 100000000}[p.pacing == 4 ? 3 : r.i(0, 2)];
  p.noise = r.p(0.5) ? 0.01 : 0;
  if (p.pacing == 4) p.scans = r.i(2, 8);
  if (p.key > 0.3) p.scans = p.scans * 3 / 2, p.whole_map = true;
  return p;
}

std::string show(const Plan& p) {
  return fmt("%d scans, %d per submap, %d messages per scan, matchers %d/%d, step %.2f, key %.2f%s%s%s%s%s%s%s%s%s%s, filter %s, pacing %d, sleep %ld", p.scans,
             p.frame_count, p.accumulate, p.front, p.back, p.step, p.key, p.compensate ? ", moving" : "", p.average ? ", averaged" : "", p.imu ? fmt(", imu after %d scans, late by %.2f s", p.imu_late, p.imu_lag).c_str() : "",
             p.gps ? ", gps" : "", p.loop ? ", loops" : "", p.disk ? ", disk" : "", p.separate ? ", parts" : "", p.package ? ", tiles" : "", p.lever ? ", lever" : "",
             p.show ? ", shown" : "", p.filters.c_str(), p.pacing, p.sleep_scale);
}

struct Truth {
  World world;
  std::vector<Eigen::Matrix4d> poses;  // one more than scans
};

Truth make_truth(Rng& r, const Plan& p) {
  Truth t;
  // gentle bends inside a yard, or a circle when loops are wanted
  const double radius = p.loop ? r.d(3.5, 5) : r.d(6, 14);
  const double turn = (r.p(0.5) ? 1 : -1) * p.step / radius;
  double x = 0, y = 0, yaw = r.d(-3, 3);
  for (int i = 0; i <= p.scans; ++i) {
    t.poses.push_back(pose_of(x, y, 1.6, yaw));
    yaw += turn / 2;
    x += p.step * std::cos(yaw);
    y += p.step * std::sin(yaw);
    yaw += turn / 2;
  }
  Eigen::Vector2d lo(1e9, 1e9), hi(-1e9, -1e9);
  for (auto& m : t.poses) {
    lo = lo.cwiseMin(m.block<2, 1>(0, 3));
    hi = hi.cwiseMax(m.block<2, 1>(0, 3));
  }
  const Eigen::Vector2d mid = (lo + hi) / 2;
  for (auto& m : t.poses) m.block<2, 1>(0, 3) -= mid;
  const double hx = (hi - lo)[0] / 2 + r.d(7, 11), hy = (hi - lo)[1] / 2 + r.d(7, 11);
  t.world = make_world(r, hx, hy, 14, [&](double u, double v) {
    for (auto& m : t.poses)
      if (std::hypot(m(0, 3) - u, m(1, 3) - v) < 1.6) return true;
    return false;
  });
  return t;
}

// pose between two others
Eigen::Matrix4d between(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b, double f) {
  const Eigen::Matrix4d d = a.inverse() * b;
  const Eigen::AngleAxisd aa(Eigen::Matrix3d(d.block<3, 3>(0, 0)));
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(aa.angle() * f, aa.axis()).toRotationMatrix();
  m.block<3, 1>(0, 3) = d.block<3, 1>(0, 3) * f;
  return a * m;
}

Pcl::Ptr measure(Rng& r, const Plan& p, const Truth& t, int i, const Eigen::Matrix4d& lever, const ScanSpec& spec) {
  Pcl::Ptr c(new Pcl);
  const double turn = r.d(0, 1);
  for (int k = 0; k < spec.columns; ++k) {
    const double f = double(k) / spec.columns;
    const Eigen::Matrix4d pose = (p.compensate ? between(t.poses[i], t.poses[i + 1], f) : t.poses[i]) * lever;
    const Eigen::Matrix3d R = pose.block<3, 3>(0, 0);
    const Eigen::Vector3d o = pose.block<3, 1>(0, 3);
    for (int e = 0; e < spec.rings; ++e) {
      const double az = 2 * M_PI * (k + turn) / spec.columns, el = spec.down + (spec.up - spec.down) * e / (spec.rings - 1);
      const Eigen::Vector3d d(std::cos(el) * std::cos(az), std::cos(el) * std::sin(az), std::sin(el));
      const double dist = t.world.cast(o, R * d, spec.far);
      if (dist <= 0.5) continue;
      const Eigen::Vector3d q = d * (dist + r.gauss() * p.noise);
      pcl::PointXYZI pt;
      pt.x = q[0], pt.y = q[1], pt.z = q[2], pt.intensity = i + 1;
      c->push_back(pt);
    }
  }
  return c;
}

struct Row {
  Eigen::Vector3d pos;
  double yaw;
  Eigen::Matrix4d pose;
};

bool read_path(const std::string& f, std::vector<Row>* rows) {
  std::ifstream in(f);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    for (auto& c : line)
      if (c == ',') c = ' ';
    std::istringstream s(line);
    long i;
    double v[6];
    if (!(s >> i >> v[0] >> v[1] >> v[2] >> v[3] >> v[4] >> v[5]) || i != long(rows->size())) return false;
    rows->push_back({{v[0], v[1], v[2]}, v[5], pose_of(v[0], v[1], v[2], v[5], v[4], v[3])});
  }
  return true;
}

double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }

size_t pcd_size(const std::string& f, Pcl* out) {
  out->clear();
  if (access(f.c_str(), R_OK)) return 0;
  if (pcl::io::loadPCDFile(f, *out)) {
    violation("map-unreadable", f);
    return 0;
  }
  return out->size();
}

void pause_us(long us) {
  struct timespec t = {us / 1000000, us % 1000000 * 1000};
  syscall(230 /* clock_nanosleep */, CLOCK_MONOTONIC, 0, &t, nullptr);
}

void session(long id, Rng& r, bool small) {
  const Plan p = make_plan(r, small);
  const Truth t = make_truth(r, p);
  if (system("rm -rf ./out ./pkg && mkdir out pkg")) harness_error("no scratch directory");
  std::ofstream("session.xml") << document(p);
  const std::string what = show(p);
  vp_sleep_ns_per_s = p.sleep_scale;
  if (vp_jitter) vp_jitter(r.u64() | 1);

  ScanSpec spec;
  spec.noise = 0;
  spec.columns = small ? 90 : 150;
  spec.rings = small ? 12 : 16;
  Eigen::Matrix4d lever = Eigen::Matrix4d::Identity();
  if (p.lever) lever = pose_of(r.d(-0.5, 0.5), r.d(-0.5, 0.5), r.d(-0.3, 0.3), r.d(-3, 3), r.d(-0.1, 0.1), r.d(-0.1, 0.1));

  Seen seen;
  std::vector<size_t> points;  // of every scan
  // position frame: turned and shifted against the first pose
  const double enu_turn = r.d(-3, 3);
  const Eigen::Matrix4d enu = pose_of(r.d(-20, 20), r.d(-20, 20), 0, enu_turn);
  const GeographicLib::LocalCartesian earth(40, 116, 50);
  Eigen::Vector3d first_gps(0, 0, 0);
  bool got_gps = false;
  {
    // storage that was used before, as on a long-running host
    void* room = nullptr;
    if (posix_memalign(&room, 64, sizeof(MapBuilder))) harness_error("no memory");
    memset(room, r.i(0, 255), sizeof(MapBuilder));
    MapBuilder* b = new (room) MapBuilder;
    if (p.lever || r.p(0.5)) b->SetTrackingToLidar(lever);
    if (p.imu) b->SetTrackingToImu(Eigen::Matrix4d::Identity());
    if (p.gps) b->SetTrackingToGps(Eigen::Matrix4d::Identity());
    b->Initialise("session.xml");
    if (r.p(0.5)) b->EnableUsingOdom(false);
    if (p.gps || r.p(0.5)) b->EnableUsingGps(p.gps);
    if (p.show) {
      b->SetShowSubmapFunction([&](const Pcl::Ptr& c, const Eigen::Matrix4d& m) {
        std::lock_guard<std::mutex> l(seen.m);
        seen.submaps.emplace_back(c ? c->size() : 0, m);
      });
      b->SetShowPathFunction([&](const std::vector<Eigen::Matrix4d>& v) {
        std::lock_guard<std::mutex> l(seen.m);
        seen.paths.push_back(v);
      });
      b->SetShowMapFunction([&](const Pcl::Ptr& c) {
        std::lock_guard<std::mutex> l(seen.m);
        seen.maps.push_back(c ? c->size() : 0);
      });
      b->SetShowEdgeFunction([&](std::map<int64_t, static_map::back_end::ViewGraph::GraphItem> g) {
        std::lock_guard<std::mutex> l(seen.m);
        seen.vertices = g.size();
      });
    }
    const double t0 = 1500000000.0 + r.i(0, 1000000);
    const double dt = 0.1;
    const int burst = r.i(1, 2);
    double imu_time = t0 + p.imu_late * dt - 0.05, gps_time = t0 - 0.3;
    for (int i = 0; i < p.scans; ++i) {
      const double now = t0 + i * dt;
      // measured up to now, some of it delivered later
      if (p.imu && i >= p.imu_late) {
        for (; imu_time < now - (p.imu_lag > 0 && i > p.imu_late ? r.d(0, p.imu_lag) : 0); imu_time += 0.01) {
          const int k = std::min(std::max(int((imu_time - t0) / dt), 0), p.scans - 1);
          const Eigen::Matrix4d d = t.poses[k].inverse() * t.poses[k + 1];
          static_map::data::ImuMsg::Ptr m(new static_map::data::ImuMsg);
          m->header.stamp = static_map::SimpleTime::FromSec(imu_time);
          m->angular_velocity = Eigen::Vector3d(0, 0, std::atan2(d(1, 0), d(0, 0)) / dt);
          m->linear_acceleration = Eigen::Vector3d(0, 0, 9.8);
          m->orientation = Eigen::Quaterniond::Identity();
          b->InsertImuMsg(m);
        }
      }
      if (p.gps) {
        for (; gps_time < now + 0.2; gps_time += 0.05) {
          const double k = std::min(std::max((gps_time - t0) / dt, 0.), double(p.scans) - 1e-9);
          const Eigen::Vector4d w = enu * t.poses[0].inverse() * between(t.poses[int(k)], t.poses[int(k) + 1], k - int(k)) * Eigen::Vector4d(0, 0, 0, 1);
          static_map::data::NavSatFixMsg::Ptr m(new static_map::data::NavSatFixMsg);
          m->header.stamp = static_map::SimpleTime::FromSec(gps_time);
          m->status.status = static_map::data::STATUS_FIX;
          earth.Reverse(w[0], w[1], w[2], m->latitude, m->longtitude, m->altitude);
          b->InsertGpsMsg(m);
          if (!got_gps) first_gps = w.head<3>();
          got_gps = true;
        }
      }
      Pcl::Ptr c = measure(r, p, t, i, lever, spec);
      points.push_back(c->size());
      const size_t part = (c->size() + p.accumulate - 1) / p.accumulate;
      for (int a = 0; a < p.accumulate; ++a) {
        Pcl::Ptr m(new Pcl);
        for (size_t k = a * part; k < std::min(c->size(), (a + 1) * part); ++k) m->push_back(c->points[k]);
        m->header.stamp = uint64_t(std::llround((now + dt * a / p.accumulate) * 1e6));
        b->InsertPointcloudMsg(m);
      }
      if (p.pacing == 1 && r.p(0.3)) pause_us(r.i(0, 20000));
      if (p.pacing == 2) pause_us(r.i(0, 5000));
      // everything done so far, then a last burst
      if (p.pacing == 4 && i + 1 == std::max(1, p.scans - burst)) pause_us(small ? 600000 : 2000000);
      if (p.pacing == 3 && i == p.scans / 2) pause_us(300000);
    }
    b->FinishAllComputations();
    b->~MapBuilder();
    free(room);
  }
  if (vp_jitter) vp_jitter(0);
  if (arg("part") == "clean") {  // only the sanitizers judge
    eval();
    cover(fmt("session %d %d %d %d %d %d %d", p.front, p.back, p.disk, p.gps, p.imu, p.loop, p.pacing));
    sample(what);
    return;
  }

  // --- the path
  std::vector<Row> rows;
  const bool have_path = read_path("out/path.csv", &rows);
  VP_REQUIRE(have_path, "no-path", what);
  if (!have_path) return;
  // every point says which scan it belongs to
  Pcl c;
  std::map<int, std::vector<Eigen::Vector3d>> mapped;
  std::map<size_t, std::set<int>> in_part;
  size_t total = 0, parts = 0;
  auto sort_points = [&] {
    for (auto& q : c) mapped[int(std::lround(q.intensity)) - 1].emplace_back(q.x, q.y, q.z);
    total += c.size();
  };
  if (p.whole_map && !p.separate) {
    pcd_size("out/whole_map.pcd", &c);
    sort_points();
  } else if (p.whole_map) {
    for (; access(fmt("out/part_map_%zu.pcd", parts).c_str(), R_OK) == 0; ++parts) {
      pcd_size(fmt("out/part_map_%zu.pcd", parts), &c);
      sort_points();
      for (auto& q : c) in_part[parts].insert(int(std::lround(q.intensity)) - 1);
    }
  }

  // the scan of every row
  const bool every = p.key < 0.2;
  std::vector<int> index;
  if (every) {
    for (size_t k = 0; k < rows.size(); ++k) index.push_back(k + p.imu_late);
  } else {
    for (auto& m : mapped) index.push_back(m.first);
  }
  VP_REQUIRE(index.size() == rows.size() && (index.empty() || (index[0] == p.imu_late && index.back() < p.scans)), "map-differs-from-path",
             fmt("%zu frames in the path, %zu in the map; ", rows.size(), index.size()) + what);
  if (index.size() != rows.size() || index.empty() != rows.empty() || (rows.size() && (index[0] != p.imu_late || index.back() >= p.scans))) return;

  // expected in the frame of the first pose, or in that of the positions
  Eigen::Matrix4d frame = t.poses[std::min(p.imu_late, p.scans)].inverse();
  bool aligned = false;
  if (p.gps && rows.size()) {
    // before enough positions were seen the map keeps its own frame
    Eigen::Matrix4d shift = Eigen::Matrix4d::Identity();
    shift.block<3, 1>(0, 3) = -first_gps;
    const Eigen::Matrix4d other = shift * enu * t.poses[0].inverse();
    const Eigen::Vector4d a = frame * t.poses[0].col(3), b2 = other * t.poses[0].col(3);
    const double da = (rows[0].pos - a.head<3>()).norm() + std::fabs(wrap(rows[0].yaw)),
                 db = (rows[0].pos - b2.head<3>()).norm() + std::fabs(wrap(rows[0].yaw - enu_turn));
    if (db < da) frame = other, aligned = true;
  }
  double worst = 0, worst_yaw = 0;
  std::vector<double> steps;
  for (size_t k = 0; k < rows.size(); ++k) {
    const Eigen::Matrix4d m = frame * t.poses[index[k]];
    worst = std::max(worst, (m.block<3, 1>(0, 3) - rows[k].pos).norm());
    worst_yaw = std::max(worst_yaw, std::fabs(wrap(rows[k].yaw - std::atan2(m(1, 0), m(0, 0)))));
    if (k) steps.push_back((rows[k].pos - rows[k - 1].pos - (m - frame * t.poses[index[k - 1]]).block<3, 1>(0, 3)).norm());
  }
  std::sort(steps.begin(), steps.end());
  const double step_error = steps.empty() ? 0 : steps[steps.size() / 2];
  observe("path error m", worst);
  observe("path error rad", worst_yaw);
  observe("median error between frames m", step_error);
  if (getenv("VP_DUMP")) std::ofstream(getenv("VP_DUMP"), std::ios::app) << fmt("%ld %.3f %.4f %.4f %d %d %zu; ", id, worst, worst_yaw, step_error, p.gps, aligned, rows.size()) << what << "\n";
  const double limit = 1.0;
  const double travelled = p.step * p.scans;
  VP_REQUIRE(worst < limit + 0.08 * travelled, "path-wrong", fmt("%.2f m off after %.1f m; ", worst, travelled) + what);
  VP_REQUIRE(worst_yaw < 0.3, "path-turned", fmt("%.3f rad off; ", worst_yaw) + what);
  VP_REQUIRE(steps.size() < 6 || step_error < 0.2, "steps-wrong", fmt("%.3f m off from frame to frame; ", step_error) + what);
  VP_REQUIRE(rows.size() % p.frame_count == 0, "incomplete-submap", fmt("%zu frames; ", rows.size()) + what);
  const size_t submaps = rows.size() / p.frame_count;
  if (every) {
    VP_REQUIRE(submaps == size_t(std::max(0, p.scans - p.imu_late) / p.frame_count), "frames-lost", fmt("%zu frames out of %d scans; ", rows.size(), p.scans) + what);
  } else if (!rows.empty()) {
    for (size_t k = 1; k < index.size(); ++k) {
      const double moved = (t.poses[index[k]].block<3, 1>(0, 3) - t.poses[index[k - 1]].block<3, 1>(0, 3)).norm();
      VP_REQUIRE(moved > p.key - 0.5, "key-frame-too-early", fmt("%.2f m; ", moved) + what);
      VP_REQUIRE(moved < p.key + p.step + 0.5, "key-frame-missed", fmt("%.2f m; ", moved) + what);
    }
    // whatever follows the last row must have been too little for a submap
    const double rest = (p.scans - 1 - index.back()) * p.step;
    VP_REQUIRE(rest < p.frame_count * (p.key + p.step) + 0.3, "frames-lost", fmt("%.2f m of path after the last frame; ", rest) + what);
  }

  // --- index and poses of the submaps
  {
    pugi::xml_document doc;
    const bool ok = doc.load_file("pkg/map.xml");
    VP_REQUIRE(ok, "no-index", what);
    size_t n = 0;
    for (auto s = doc.child("Map").child("Trajectory").child("Submap"); s; s = s.next_sibling("Submap"), ++n) {
      VP_REQUIRE(s.attribute("id").as_int() == int(n), "index-order", what);
      if (n < submaps) {
        const Eigen::Vector3d v(s.attribute("tx").as_double(), s.attribute("ty").as_double(), s.attribute("tz").as_double());
        VP_REQUIRE((v - rows[n * p.frame_count].pos).norm() < 1e-3, "index-differs-from-path", what);
      }
      if (p.disk) VP_REQUIRE(access((std::string("pkg/") + s.attribute("file").as_string()).c_str(), R_OK) == 0, "submap-file-missing", s.attribute("file").as_string());
    }
    VP_REQUIRE(n == submaps, "index-incomplete", fmt("%zu of %zu submaps; ", n, submaps) + what);
  }
  if (p.kitti) {
    std::ifstream in("out/kitti_pose.txt");
    std::string line;
    size_t n = 0;
    for (; std::getline(in, line); ++n) {
      std::istringstream s(line);
      double v[12];
      bool ok = true;
      for (auto& x : v) ok = ok && (s >> x);
      VP_REQUIRE(ok && n < submaps, "kitti-line", line + " " + what);
      if (ok && n < submaps) VP_REQUIRE((Eigen::Vector3d(v[3], v[7], v[11]) - rows[n * p.frame_count].pos).norm() < 1e-3, "kitti-differs-from-path", what);
    }
    VP_REQUIRE(n == submaps, "kitti-incomplete", fmt("%zu of %zu; ", n, submaps) + what);
  }

  // --- the maps
  const Eigen::Matrix4d back = frame.inverse();
  auto near_world = [&](const std::vector<Eigen::Vector3d>& v, const std::string& name, double tol) {
    std::vector<double> off;
    for (size_t k = 0; k < v.size(); k += std::max<size_t>(1, v.size() / 200)) {
      const Eigen::Vector4d q = back * v[k].homogeneous();
      off.push_back(t.world.off(q.head<3>()));
    }
    if (off.empty()) return;
    std::sort(off.begin(), off.end());
    const double m = off[off.size() * 9 / 10];
    observe(name + " off the world (0.9 quantile)", m);
    VP_REQUIRE(m < tol, "map-off-the-world", fmt("%s: %.2f m; ", name.c_str(), m) + what);
  };
  auto list = [](const Pcl& c) {
    std::vector<Eigen::Vector3d> v;
    for (auto& q : c) v.emplace_back(q.x, q.y, q.z);
    return v;
  };
  const double map_tol = 0.3 + worst + worst_yaw * 10;
  // the scans that belong into a part
  auto scans_of = [&](size_t part) {
    std::set<int> v;
    const size_t each = size_t(p.separate_step) * p.frame_count;
    for (size_t k = part * each; k < std::min(index.size(), (part + 1) * each); ++k) v.insert(index[k]);
    return v;
  };
  if (p.whole_map) {
    if (p.separate) VP_REQUIRE(parts == (submaps + p.separate_step - 1) / p.separate_step, "parts-missing", fmt("%zu parts of %zu submaps; ", parts, submaps) + what);
    VP_REQUIRE(mapped.size() == rows.size(), "map-differs-from-path", fmt("%zu frames in the path, %zu in the map; ", rows.size(), mapped.size()) + what);
    for (auto& q : in_part) VP_REQUIRE(q.second == scans_of(q.first), "scan-in-wrong-part", fmt("part %zu; ", q.first) + what);
    for (auto& m : mapped) {
      const size_t sent = m.first >= 0 && m.first < int(points.size()) ? points[m.first] : 0;
      VP_REQUIRE(p.keeps_all ? m.second.size() == sent : m.second.size() <= sent, "points-lost",
                 fmt("%zu of %zu points of scan %d; ", m.second.size(), sent, m.first) + what);
    }
    // every scan fits the world, whatever the drift before it
    std::vector<double> fit;
    for (size_t k = 0; k < rows.size(); ++k) {
      if (p.compensate && index[k] < 2 + p.imu_late) continue;  // no speed known yet
      const auto& v = mapped[index[k]];
      const Eigen::Matrix4d move = t.poses[index[k]] * rows[k].pose.inverse();
      std::vector<double> off;
      for (size_t j = 0; j < v.size(); j += std::max<size_t>(1, v.size() / 300)) off.push_back(t.world.off((move * v[j].homogeneous()).head<3>()));
      std::sort(off.begin(), off.end());
      if (!off.empty()) fit.push_back(off[off.size() * 9 / 10]);
    }
    if (!fit.empty()) {
      std::sort(fit.begin(), fit.end());
      const double usual = fit[fit.size() / 2];
      observe("scan off the world, median", usual);
      observe("scan off the world, worst", fit.back());
      if (getenv("VP_DUMP")) std::ofstream(getenv("VP_DUMP") + std::string(".fit"), std::ios::app) << fmt("%ld %.4f %.4f %zu; ", id, usual, fit.back(), fit.size()) << what << "\n";
      VP_REQUIRE(usual < (!p.compensate ? 0.06 : fit.size() > 4 ? 0.15 : 0.4), "scan-distorted", fmt("%.2f m; ", usual) + what);
    }
  }
  if (p.static_map) {
    size_t files = 0;
    if (!p.separate) {
      const size_t n = pcd_size("out/static_map.pcd", &c);
      VP_REQUIRE((n > 0) == (submaps > 0), "static-map-empty", fmt("%zu points of %zu submaps; ", n, submaps) + what);
      near_world(list(c), "static map", map_tol);
    } else {
      for (; access(fmt("out/static_part_map_%zu.pcd", files).c_str(), R_OK) == 0; ++files) {
        VP_REQUIRE(pcd_size(fmt("out/static_part_map_%zu.pcd", files), &c) > 0, "static-map-empty", what);
        near_world(list(c), "static part map", map_tol);
        const auto own = scans_of(files);
        size_t foreign = 0;
        for (auto& q : c) foreign += !own.count(int(std::lround(q.intensity)) - 1);
        VP_REQUIRE(!foreign, "scan-in-wrong-part", fmt("%zu of %zu points of static part %zu; ", foreign, c.size(), files) + what);
      }
      VP_REQUIRE(files == (submaps + p.separate_step - 1) / p.separate_step, "parts-missing", fmt("%zu static parts of %zu submaps; ", files, submaps) + what);
    }
  }
  if (p.package && submaps) VP_REQUIRE(access("out/map_package.xml", R_OK) == 0, "no-tile-index", what);

  // --- what was shown on the way
  if (p.show) {
    const size_t n = submaps > 1 ? submaps - 1 : 0;
    VP_REQUIRE(seen.submaps.size() == n, "submaps-not-shown", fmt("%zu of %zu shown; ", seen.submaps.size(), n) + what);
    for (size_t k = 0; k < seen.submaps.size() && k < n; ++k) {
      const Eigen::Matrix4d m = t.poses[index[0]].inverse() * t.poses[index[(k + 1) * p.frame_count]];
      VP_REQUIRE(is_rigid(seen.submaps[k].second, 1e-4), "shown-pose-not-rigid", what);
      if (!p.gps) {
        const double e = (m.block<3, 1>(0, 3) - seen.submaps[k].second.block<3, 1>(0, 3)).norm();
        VP_REQUIRE(e < limit + 0.08 * travelled, "shown-pose-wrong", fmt("submap %zu is %.2f m off; ", k + 1, e) + what);
      }
      VP_REQUIRE(seen.submaps[k].first > 0, "shown-cloud-empty", what);
    }
    size_t last = 0;
    for (auto& v : seen.paths) {
      VP_REQUIRE(v.size() > last || (v.size() == last && last == 0), "shown-path-shrinks", fmt("%zu after %zu; ", v.size(), last) + what);
      last = v.size();
      for (auto& m : v) VP_REQUIRE(is_rigid(m, 1e-4), "shown-pose-not-rigid", what);
    }
    VP_REQUIRE(last == (submaps > 1 ? submaps : 0), "shown-path-incomplete", fmt("%zu of %zu; ", last, submaps) + what);
    VP_REQUIRE(seen.maps.size() == seen.paths.size(), "shown-maps", what);
    for (auto s : seen.maps) VP_REQUIRE(s > 0, "shown-map-empty", what);
    VP_REQUIRE(seen.vertices == (submaps > 1 ? submaps : 0), "shown-graph-incomplete", fmt("%zu vertices, %zu submaps; ", seen.vertices, submaps) + what);
  }
  cover(fmt("session %d %d %d %d %d %d %d %d %d %zu", p.front, p.back, p.disk, p.gps, p.imu, p.loop, p.pacing, p.accumulate > 1, every, std::min<size_t>(submaps, 3)));
  count(aligned ? "sessions in the position frame" : "sessions in their own frame");
  count("frames", rows.size());
  count("submaps", submaps);
  sample(what + fmt(": %zu submaps, %.3f m and %.4f rad off", submaps, worst, worst_yaw));
}

void one(long id, Rng& r) { session(id, r, arg("size") == "small"); }

}  // namespace

int main(int argc, char** argv) {
#ifdef __SANITIZE_THREAD__
  // the optimiser's library is not instrumented: its own threads would only give false reports
  tbb::global_control serial(tbb::global_control::max_allowed_parallelism, 1);
#endif
  return vp::run(argc, argv, one);
}
