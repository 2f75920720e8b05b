// C27: exported paths and the map index.
#include <pcl/io/pcd_io.h>

#include "builder/trajectory.h"
#include "common/math.h"
#include "gen.h"
#include "pugixml/pugixml.hpp"

using namespace vp;
using static_map::Frame;
using static_map::Submap;
using static_map::SubmapId;
using static_map::SubmapOptions;
using static_map::Trajectory;
using static_map::data::InnerPointCloudData;

typedef pcl::PointCloud<pcl::PointXYZI> Cloud;

static InnerPointCloudData::Ptr tiny(Rng& r) { return InnerPointCloudData::Ptr(new InnerPointCloudData(rand_cloud(r, r.i(1, 4)))); }

struct Sub {
  SubmapId id;
  std::string file;
  Eigen::Matrix4d pose;
  std::vector<Eigen::Matrix4d> frames;
  std::vector<SubmapId> con;
  bool gps = false, odom = false;
  Eigen::Vector3d enu;
  Eigen::Matrix4d od;
};

static double gap(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a - b).cwiseAbs().maxCoeff(); }

static Eigen::Matrix4d any_pose(Rng& r, double spread) {
  Eigen::Matrix4d m = rand_pose(r, spread);
  if (r.p(0.15)) m.block<3, 3>(0, 0).setIdentity();
  if (r.p(0.15)) m.block<3, 3>(0, 0) = Eigen::AngleAxisd(r.pick(std::vector<double>{M_PI, -M_PI, M_PI / 2, -M_PI / 2, 3.1}), r.p(0.5) ? Eigen::Vector3d::UnitZ() : Eigen::Vector3d::UnitX()).toRotationMatrix();
  if (r.p(0.1)) m.block<3, 1>(0, 3).setZero();
  return m;
}

static void one(long, Rng& r) {
  const double spread = r.pick(std::vector<double>{1, 50, 2000, 20000});
  Trajectory t;
  const int tid = r.i(0, 5);
  t.SetId(tid);
  const bool enu_offset = r.p(0.5);
  const double ox = r.d(-1e6, 1e6), oy = r.d(-1e6, 1e6);
  if (enu_offset) t.SetEnuOffset(ox, oy);
  std::vector<Sub> subs;
  const int n = r.p(0.1) ? 0 : r.p(0.02) ? r.i(90, 260) : r.i(1, 7);
  SubmapOptions o;
  o.enable_disk_saving = r.p(0.5);
  if (r.p(0.3)) o.saving_name_prefix = "m<&>_";
  for (int i = 0; i < n; ++i) {
    Sub s;
    o.frame_count = r.i(1, 4);
    std::shared_ptr<Submap> m(new Submap(o));
    s.id = SubmapId{tid, i};
    m->SetId(s.id);
    if (o.enable_disk_saving) s.file = o.saving_name_prefix + std::to_string(tid) + "_" + std::to_string(i) + ".bin";
    if (r.p(0.2) && o.enable_disk_saving) { s.file = fmt("named%d.bin", i); m->SetSavedFileName(s.file); }
    for (int k = 0; k < o.frame_count; ++k) {
      std::shared_ptr<Frame> f(new Frame);
      f->SetCloud(tiny(r));
      const Eigen::Matrix4d p = any_pose(r, spread);
      f->SetGlobalPose(p);
      m->InsertFrame(f);
      s.frames.push_back(p);
    }
    s.pose = s.frames[0];
    if (r.p(0.6)) {
      const Eigen::Matrix4d inv = s.pose.inverse();
      s.pose = any_pose(r, spread);
      for (auto& f : s.frames) f = s.pose * inv * f;
      m->SetGlobalPose(s.pose);
      m->UpdateInnerFramePose();
    }
    if (r.p(0.4)) { s.gps = true; s.enu = Eigen::Vector3d(r.d(-spread, spread), r.d(-spread, spread), r.d(-50, 50)); m->SetRelatedGpsInENU(s.enu); }
    if (r.p(0.4)) { s.odom = true; s.od = any_pose(r, spread); m->SetRelatedOdom(s.od); }
    VP_REQUIRE(m->HasGps() == s.gps && m->HasOdom() == s.odom, "data-flag", "");
    for (int k = r.p(0.5) ? 0 : r.i(1, 3); k > 0; --k) {
      SubmapId c{int(r.i(0, 3)), int(r.i(0, 99))};
      s.con.push_back(c);
      m->AddConnectedSubmap(c);
    }
    subs.push_back(s);
    t.push_back(m);
  }
  VP_REQUIRE(int(t.size()) == n && t.empty() == (n == 0), "trajectory-size", "");
  const double ptol = 1e-5 + spread * 1e-9;
  // text and clouds
  for (const char* f : {"out/path.csv", "out/path.pcd", "out/enu_path.pcd", "out/odom_path.pcd"}) unlink(f);
  mkdir("out", 0755);
  const int times = r.i(1, 2);
  for (int k = 0; k < times; ++k) t.OutputPathToPointcloud("out");
  std::vector<Eigen::Matrix4d> all;
  for (auto& s : subs) for (auto& f : s.frames) all.push_back(f);
  const std::string d = fmt("%d submaps, %zu frames, spread %g", n, all.size(), spread);
  {
    std::ifstream in("out/path.csv");
    VP_REQUIRE(in.is_open(), "path-text-missing", d);
    std::string line;
    size_t i = 0;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      double v[7] = {0};
      const int got = sscanf(line.c_str(), "%lf, %lf, %lf, %lf, %lf, %lf, %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
      eval();
      if (got != 7) { violation("path-text-format", d + " '" + line + "'"); break; }
      if (i >= all.size()) { ++i; continue; }
      VP_REQUIRE(v[0] == double(i), "path-text-order", d + " '" + line + "'");
      Eigen::Vector6<double> six;
      six << v[1], v[2], v[3], v[4], v[5], v[6];
      const Eigen::Matrix4d back = static_map::common::Vector6ToTransform(six);
      VP_REQUIRE((back.block<3, 1>(0, 3) - all[i].block<3, 1>(0, 3)).norm() < ptol + 3e-6, "path-text-position", d + " '" + line + "'");
      VP_REQUIRE(rot_angle(back.block<3, 3>(0, 0), all[i].block<3, 3>(0, 0)) < 2e-5, "path-text-orientation", d + " '" + line + "'");
      ++i;
    }
    VP_REQUIRE(i == all.size(), "path-text-lines", d + fmt(" %zu lines", i));
  }
  auto check_cloud = [&](const char* file, const std::vector<Eigen::Vector3d>& want, bool index, const char* key) {
    struct stat st;
    const bool there = !stat(file, &st);
    if (want.empty()) { VP_REQUIRE(!there, key, d + " written without any data"); return; }
    Cloud c;
    eval();
    if (!there || pcl::io::loadPCDFile<pcl::PointXYZI>(file, c)) { violation(key, d + " unreadable"); return; }
    VP_REQUIRE(c.size() == want.size(), key, d + fmt(" %zu points instead of %zu", c.size(), want.size()));
    for (size_t i = 0; i < c.size() && i < want.size(); ++i) {
      const double tol = 1e-6 + 2e-7 * want[i].norm() + ptol;
      VP_REQUIRE((Eigen::Vector3d(c[i].x, c[i].y, c[i].z) - want[i]).norm() < tol, key, d + fmt(" point %zu", i));
      if (index) VP_REQUIRE(c[i].intensity == float(i), key, d + fmt(" number of point %zu", i));
    }
  };
  std::vector<Eigen::Vector3d> path, enu, odom;
  for (auto& p : all) path.push_back(p.block<3, 1>(0, 3));
  for (auto& s : subs) { if (s.gps) enu.push_back(s.enu); if (s.odom) odom.push_back(s.od.block<3, 1>(0, 3)); }
  check_cloud("out/path.pcd", path, true, "path-cloud");
  check_cloud("out/enu_path.pcd", enu, false, "enu-cloud");
  check_cloud("out/odom_path.pcd", odom, false, "odom-cloud");

  // the index, through a file
  {
    pugi::xml_document doc;
    auto root = doc.append_child("Map");
    t.ToXmlNode(&root);
    doc.save_file("out/map.xml");
  }
  pugi::xml_document doc;
  VP_REQUIRE(doc.load_file("out/map.xml"), "index-unreadable", d);
  auto tn = doc.child("Map").child("Trajectory");
  VP_REQUIRE(tn && !tn.next_sibling("Trajectory"), "index-trajectory", d);
  VP_REQUIRE(tn.attribute("id").as_int(-9) == tid, "index-trajectory", d);
  VP_REQUIRE(std::fabs(tn.attribute("enu_x").as_double(1e9) - (enu_offset ? ox : 0)) < 1e-6 && std::fabs(tn.attribute("enu_y").as_double(1e9) - (enu_offset ? oy : 0)) < 1e-6, "index-offset", d);
  int i = 0;
  for (auto sn = tn.child("Submap"); sn; sn = sn.next_sibling("Submap"), ++i) {
    if (i >= n) break;
    const Sub& s = subs[i];
    VP_REQUIRE(sn.attribute("id").as_int(-9) == s.id.submap_index, "index-id", d);
    VP_REQUIRE(sn.attribute("file").as_string() == s.file, "index-file", d + " '" + sn.attribute("file").as_string() + "' instead of '" + s.file + "'");
    Eigen::Vector6<double> six;
    six << sn.attribute("tx").as_double(1e9), sn.attribute("ty").as_double(1e9), sn.attribute("tz").as_double(1e9), sn.attribute("rx").as_double(1e9), sn.attribute("ry").as_double(1e9), sn.attribute("rz").as_double(1e9);
    const Eigen::Matrix4d back = static_map::common::Vector6ToTransform(six);
    VP_REQUIRE(gap(back, s.pose) < 2e-5 + ptol, "index-pose", d + fmt(" submap %d off by %g", i, gap(back, s.pose)));
    std::string con;
    for (auto& c : s.con) con += fmt("[%d,%d]", c.trajectory_index, c.submap_index);
    VP_REQUIRE(con == sn.attribute("connections").as_string(), "index-connections", d + " " + sn.attribute("connections").as_string() + " instead of " + con);
  }
  VP_REQUIRE(i == n, "index-submaps", d + fmt(" %d listed", i));
  // a directory that is not there
  t.OutputPathToPointcloud("not-there");
  struct stat st;
  VP_REQUIRE(stat("not-there", &st), "made-directory", d);
  cover(fmt("%d %zu %zu %zu %d %d", n, all.size(), enu.size(), odom.size(), o.enable_disk_saving, times));
}

int main(int argc, char** argv) { return run(argc, argv, one); }
