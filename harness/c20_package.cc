// C20: the tiled map and the tool that joins it.
#include <dirent.h>

#include "builder/map_package.h"
#include "builder/trajectory.h"
#include "gen.h"
#include "pugixml/pugixml.hpp"

#define main join_pieces_main
#include "tools/join_pieces.cc"
#undef main

using namespace vp;
using static_map::Frame;
using static_map::MapPackageOptions;
using static_map::MrvmSettings;
using static_map::Submap;
using static_map::SubmapId;
using static_map::SubmapOptions;
using static_map::Trajectory;
using static_map::data::InnerPointCloudData;

typedef pcl::PointCloud<pcl::PointXYZI> Cloud;

struct P { double x, y, z; float i; bool near_submap; };

static void wipe(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (struct dirent* e = readdir(d))
      if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str());
    closedir(d);
  }
}

static std::shared_ptr<Submap> submap(Rng& r, int traj, int idx, const Eigen::Matrix4d& pose, int n, double range, double border, std::vector<P>* all) {
  SubmapOptions o;
  o.frame_count = 1;
  std::shared_ptr<Submap> s(new Submap(o));
  s->SetId(SubmapId{traj, idx});
  std::shared_ptr<Frame> f(new Frame);
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000 + idx, 0);
  for (int i = 0; i < n; ++i) {
    auto p = pt(r.d(-range, range), r.d(-range, range), r.d(-3, 3), r.i(0, 255), 0);
    c->points.push_back(p);
    Eigen::Vector3d x = pose.block<3, 3>(0, 0) * Eigen::Vector3d(p.x, p.y, p.z) + pose.block<3, 1>(0, 3);
    P q = {x[0], x[1], x[2], p.intensity, std::fabs(x[0] - pose(0, 3)) < border - 0.01 && std::fabs(x[1] - pose(1, 3)) < border - 0.01};
    all->push_back(q);
  }
  f->SetCloud(InnerPointCloudData::Ptr(new InnerPointCloudData(c)));
  f->SetGlobalPose(pose);
  s->InsertFrame(f);
  s->SetGlobalPose(pose);
  return s;
}

// index of candidates by position
struct Lookup {
  std::map<std::pair<long, long>, std::vector<size_t>> g;
  const double cell = 0.05;
  std::pair<long, long> key(double x, double y) const { return {std::lround(std::floor(x / cell)), std::lround(std::floor(y / cell))}; }
  template <typename V>
  void build(const V& v) { for (size_t i = 0; i < v.size(); ++i) g[key(v[i].x, v[i].y)].push_back(i); }
  template <typename F>
  bool near(double x, double y, F f) const {
    auto k = key(x, y);
    for (long a = -1; a <= 1; ++a)
      for (long b = -1; b <= 1; ++b) {
        auto it = g.find({k.first + a, k.second + b});
        if (it != g.end()) for (size_t i : it->second) if (f(i)) return true;
      }
    return false;
  }
};

static void one(long, Rng& r) {
  wipe("pkg");
  mkdir("pkg", 0755);
  MapPackageOptions o;
  o.border_offset = r.pick(std::vector<double>{5, 12.5, 20, 60, 100});
  o.piece_width = r.p(0.15) ? 500 : r.p(0.2) ? r.d(10, 20) : r.d(20, 150);
  if (r.p(0.5)) { o.cloud_file_prefix = "tile-"; o.descript_filename = "index.xml"; }
  MrvmSettings m;
  m.high_resolution = r.pick(std::vector<float>{0.1f, 0.2f, 0.5f});
  m.prob_threshold = r.p(0.85) ? 0.f : 0.95f;
  m.use_max_intensity = false;
  m.max_point_num_in_cell = 100000;
  std::vector<P> all;
  std::vector<std::shared_ptr<Trajectory>> trajs;
  const int nt = r.p(0.7) ? 1 : 2;
  const double area = r.p(0.3) ? 0 : r.p(0.5) ? 30 : 150;
  const double cx = r.p(0.5) ? 0 : r.d(-500, 500), cy = r.p(0.5) ? 0 : r.d(-500, 500);
  const bool line = r.p(0.3);
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  int maps = 0;
  for (int t = 0; t < nt; ++t) {
    trajs.emplace_back(new Trajectory);
    trajs[t]->SetId(t);
    const int n = r.p(0.2) ? 1 : r.i(2, 5);
    for (int i = 0; i < n; ++i) {
      Eigen::Matrix4d pose = Eigen::Matrix4d::Identity();
      pose.block<3, 3>(0, 0) = Eigen::AngleAxisd(r.d(-M_PI, M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix();
      pose(0, 3) = cx + r.d(-area, area);
      pose(1, 3) = cy + (line ? 0 : r.d(-area, area));
      pose(2, 3) = r.d(-1, 1);
      x0 = std::min(x0, pose(0, 3)); x1 = std::max(x1, pose(0, 3));
      y0 = std::min(y0, pose(1, 3)); y1 = std::max(y1, pose(1, 3));
      const double range = r.p(0.6) ? o.border_offset * r.d(0.1, 0.7) : o.border_offset * r.d(0.7, 2);
      trajs[t]->push_back(submap(r, t, i, pose, r.i(1, 60), range, o.border_offset, &all));
      ++maps;
    }
  }
  x0 -= o.border_offset; y0 -= o.border_offset; x1 += o.border_offset; y1 += o.border_offset;
  const double half = o.piece_width / 2;
  const std::string d = fmt("%d submaps, border %g, tile %g, threshold %g, area %g x %g at %g %g", maps, o.border_offset, o.piece_width, m.prob_threshold, x1 - x0, y1 - y0, x0, y0);
  VP_REQUIRE(static_map::SaveTrajectoriesAsMapPackage(trajs, o, m, "pkg/"), "export-refused", d);

  pugi::xml_document doc;
  VP_REQUIRE(doc.load_file(("pkg/" + o.descript_filename).c_str()), "index-unreadable", d);
  struct Tile { double x, y, bx0, bx1, by0, by1; std::string file; Cloud c; };
  std::vector<Tile> tiles;
  std::set<std::string> names;
  for (auto n = doc.child("MapPackage").child("Piece"); n; n = n.next_sibling("Piece")) {
    Tile t;
    t.x = n.attribute("x").as_double(1e300);
    t.y = n.attribute("y").as_double(1e300);
    t.file = n.attribute("file").as_string();
    VP_REQUIRE(names.insert(t.file).second, "tile-file-shared", d + " " + t.file);
    t.bx0 = std::max(x0, t.x - half); t.bx1 = std::min(x1, t.x + half);
    t.by0 = std::max(y0, t.y - half); t.by1 = std::min(y1, t.y + half);
    VP_REQUIRE(std::fabs(t.x) < 1e6 && std::fabs(t.y) < 1e6 && t.bx0 < t.bx1 && t.by0 < t.by1, "tile-outside", d + fmt(" centre %g %g", t.x, t.y));
    struct stat st;
    VP_REQUIRE(!stat(("pkg/" + t.file).c_str(), &st) && st.st_size > 0, "tile-file-missing", d + " " + t.file);
    int rc = pcl::io::loadPCDFile<pcl::PointXYZI>("pkg/" + t.file, t.c);
    VP_REQUIRE(rc == 0, "tile-unreadable", d + " " + t.file + fmt(" rc %d", rc));
    tiles.push_back(t);
  }
  // every file belongs to the index
  if (DIR* dir = opendir("pkg")) {
    while (struct dirent* e = readdir(dir)) {
      const std::string n = e->d_name;
      if (n[0] == '.' || n == o.descript_filename) continue;
      VP_REQUIRE(names.count(n), "file-not-in-index", d + " " + n);
    }
    closedir(dir);
  }
  // the tiles cover the bordered area
  VP_REQUIRE(!tiles.empty(), "no-tiles", d);
  for (int k = 0; k < 200; ++k) {
    double x = r.p(0.2) ? x0 : r.p(0.2) ? x1 : r.d(x0, x1), y = r.p(0.2) ? y0 : r.p(0.2) ? y1 : r.d(y0, y1);
    bool in = false;
    for (auto& t : tiles) in |= x >= t.bx0 - 1e-6 && x <= t.bx1 + 1e-6 && y >= t.by0 - 1e-6 && y <= t.by1 + 1e-6;
    VP_REQUIRE(in, "area-not-covered", d + fmt(" at %g %g", x, y));
  }
  // contents
  Lookup src;
  src.build(all);
  size_t empty_tiles = 0;
  const double tol = 2e-3;
  for (auto& t : tiles) {
    if (t.c.empty()) ++empty_tiles;
    struct Q { double x, y; };
    std::vector<Q> at;
    std::vector<char> used(all.size(), 0);
    for (auto& p : t.c) {
      const double x = p.x + t.x, y = p.y + t.y;
      at.push_back({x, y});
      VP_REQUIRE(x > t.bx0 - tol && x < t.bx1 + tol && y > t.by0 - tol && y < t.by1 + tol, "point-outside-tile", d + fmt(" %s point %g %g", t.file.c_str(), x, y));
      bool known = src.near(x, y, [&](size_t i) {
        const P& q = all[i];
        if (used[i] || std::fabs(q.x - x) > tol || std::fabs(q.y - y) > tol || std::fabs(q.z - p.z) > tol || q.i != p.intensity) return false;
        used[i] = 1;
        return true;
      });
      VP_REQUIRE(known, "point-from-nowhere", d + fmt(" %s point %g %g %g i=%g", t.file.c_str(), x, y, p.z, p.intensity));
    }
    if (m.prob_threshold > 0.9f) {
      VP_REQUIRE(t.c.empty(), "threshold-ignored", d + fmt(" %zu points", t.c.size()));
      continue;
    }
    for (size_t i = 0; i < all.size(); ++i) {
      const P& q = all[i];
      if (!q.near_submap || q.x < t.bx0 + tol || q.x > t.bx1 - tol || q.y < t.by0 + tol || q.y > t.by1 - tol) continue;
      VP_REQUIRE(used[i], "point-missing-in-tile", d + fmt(" %s (%zu points) lacks %g %g %g", t.file.c_str(), t.c.size(), q.x, q.y, q.z));
    }
  }
  // the joining tool
  unlink("whole_static_map.pcd");
  const std::string pkg = "pkg/" + o.descript_filename;
  auto join = [&]() { return run_tool("join", {"-pkg", pkg}); };
  int st = join();
  size_t total = 0;
  for (auto& t : tiles) total += t.c.size();
  VP_REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "join-failed", d + fmt(" status %d", st));
  Cloud whole;
  struct stat fs;
  const bool written = !stat("whole_static_map.pcd", &fs);
  VP_REQUIRE(written == (total > 0), "join-output", d + fmt(" written %d, %zu points", written, total));
  if (written) {
    VP_REQUIRE(pcl::io::loadPCDFile<pcl::PointXYZI>("whole_static_map.pcd", whole) == 0, "join-output", d);
    VP_REQUIRE(whole.size() == total, "join-lost-points", d + fmt(" %zu instead of %zu", whole.size(), total));
    struct Q { double x, y; };
    std::vector<Q> at;
    for (auto& p : whole) at.push_back({p.x, p.y});
    Lookup w;
    w.build(at);
    std::vector<char> used(whole.size(), 0);
    for (auto& t : tiles)
      for (auto& p : t.c) {
        const double x = p.x + t.x, y = p.y + t.y;
        bool ok = w.near(x, y, [&](size_t i) {
          if (used[i] || std::fabs(whole[i].x - x) > tol || std::fabs(whole[i].y - y) > tol || std::fabs(whole[i].z - p.z) > 1e-5 || whole[i].intensity != p.intensity) return false;
          used[i] = 1;
          return true;
        });
        VP_REQUIRE(ok, "join-misplaced", d + fmt(" point %g %g of %s", x, y, t.file.c_str()));
      }
    unlink("whole_static_map.pcd");
  }
  if (r.p(0.2)) {
    // a tile listed but not there: no map that silently lacks it
    unlink(("pkg/" + r.pick(tiles).file).c_str());
    st = join();
    struct stat f2;
    VP_REQUIRE(!WIFEXITED(st) || WEXITSTATUS(st) != 0, "join-ignored-missing-tile", d + fmt(" %zu tiles, output written %d", tiles.size(), !stat("whole_static_map.pcd", &f2)));
    unlink("whole_static_map.pcd");
  }
  count("tiles", tiles.size());
  count("empty-tiles", empty_tiles);
  count("tile-points", total);
  cover(fmt("%zu %d %d %d", tiles.size() > 12 ? 13 : tiles.size(), empty_tiles > 0, maps, int(o.border_offset)));
}

// Something seen once through which a second submap later looked at a wall is
// no part of the static map, in whichever tile the second submap lies.
static void ghost(Rng& r) {
  wipe("pkg");
  mkdir("pkg", 0755);
  MapPackageOptions o;
  o.border_offset = 30;
  o.piece_width = r.d(16, 60);
  MrvmSettings m;
  m.high_resolution = r.pick(std::vector<float>{0.1f, 0.2f});
  m.hit_prob = 0.55f;
  m.miss_prob = 0.4f;
  m.prob_threshold = 0.5f;
  const double res = m.high_resolution;
  auto at = [&](const Eigen::Vector3i& c) { return Eigen::Vector3d((c.cast<double>() + Eigen::Vector3d::Constant(0.25)) * res); };
  // sensor, ghost and wall in the centre of cells on one line
  Eigen::Vector3i v;
  do v = Eigen::Vector3i(r.i(-3, 3), r.i(-3, 3), r.i(-1, 1)); while (std::abs(v[0]) + std::abs(v[1]) < 2);
  const double far = r.p(0.5) ? 20 : 400;
  const Eigen::Vector3i b(int(r.d(-far, far) / res), int(r.d(-far, far) / res), r.i(-5, 5));
  const int k = r.i(5, 20), w = k + r.i(4, 20);
  const Eigen::Vector3d B = at(b), G = at(b + v * k), W = at(b + v * w);
  const Eigen::Vector3d A = G + Eigen::Vector3d(r.d(-8, 8), r.d(-8, 8), r.d(-1, 1));
  std::vector<std::shared_ptr<Trajectory>> trajs(1, std::shared_ptr<Trajectory>(new Trajectory));
  trajs[0]->SetId(0);
  auto add = [&](const Eigen::Vector3d& from, const Eigen::Vector3d& to, int n, float intensity) {
    SubmapOptions so;
    so.frame_count = 1;
    std::shared_ptr<Submap> s(new Submap(so));
    s->SetId(SubmapId{0, int(trajs[0]->size())});
    std::shared_ptr<Frame> f(new Frame);
    InnerCloudType::Ptr c(new InnerCloudType);
    c->stamp = make_time(1000 + trajs[0]->size(), 0);
    for (int i = 0; i < n; ++i) {
      const Eigen::Vector3d p = to - from + Eigen::Vector3d(r.d(-.1, .1), r.d(-.1, .1), r.d(-.1, .1)) * res;
      c->points.push_back(pt(p[0], p[1], p[2], intensity, 0));
    }
    Eigen::Matrix4d pose = Eigen::Matrix4d::Identity();
    pose.block<3, 1>(0, 3) = from;
    f->SetCloud(InnerPointCloudData::Ptr(new InnerPointCloudData(c)));
    f->SetGlobalPose(pose);
    s->InsertFrame(f);
    s->SetGlobalPose(pose);
    trajs[0]->push_back(s);
  };
  add(A, G, 2, 77);
  add(B, W, 25, 200);
  const std::string d = fmt("tile %g, cells %g, sensor %g %g, ghost %g %g, wall %g %g", o.piece_width, res, B[0], B[1], G[0], G[1], W[0], W[1]);
  VP_REQUIRE(static_map::SaveTrajectoriesAsMapPackage(trajs, o, m, "pkg/"), "export-refused", d);
  pugi::xml_document doc;
  VP_REQUIRE(doc.load_file(("pkg/" + o.descript_filename).c_str()), "index-unreadable", d);
  const double half = o.piece_width / 2;
  for (auto n = doc.child("MapPackage").child("Piece"); n; n = n.next_sibling("Piece")) {
    const double x = n.attribute("x").as_double(), y = n.attribute("y").as_double();
    auto in = [&](const Eigen::Vector3d& p) { return std::fabs(p[0] - x) < half - 0.1 && std::fabs(p[1] - y) < half - 0.1; };
    if (!in(W) || !in(G)) continue;
    Cloud c;
    VP_REQUIRE(pcl::io::loadPCDFile<pcl::PointXYZI>(std::string("pkg/") + n.attribute("file").as_string(), c) == 0, "tile-unreadable", d);
    int ghosts = 0, walls = 0;
    for (auto& p : c) (p.intensity == 77 ? ghosts : walls)++;
    VP_REQUIRE(ghosts == 0, "ghost-in-tile", d + fmt(" tile at %g %g", x, y));
    VP_REQUIRE(walls > 0, "wall-not-in-tile", d + fmt(" tile at %g %g", x, y));
    cover(fmt("ghost %d %d", in(B), in(A)));
    count("tiles with a ghost");
  }
}

static void many_tiles(Rng& r) {
  // a long drive cut into small tiles; also no submap at all
  std::string out;
  in_child([&](int fd) {
    std::vector<std::shared_ptr<Trajectory>> none(1, std::shared_ptr<Trajectory>(new Trajectory));
    none[0]->SetId(0);
    mkdir("none", 0755);
    static_map::SaveTrajectoriesAsMapPackage(none, MapPackageOptions(), MrvmSettings(), "none/");
    if (write(fd, "ok", 2)) {}
  }, &out);
  VP_REQUIRE(out == "ok", "empty-trajectory-aborts", "");
  wipe("none");
  out.clear();
  MapPackageOptions o;
  const int side = r.i(300, 360);
  o.piece_width = 4;
  o.border_offset = side / 2.0 + 0.5;  // (2 * border) / (width / 2) tiles per axis
  wipe("pkg");
  mkdir("pkg", 0755);
  int st = in_child([&](int fd) {
    std::vector<P> all;
    std::vector<std::shared_ptr<Trajectory>> t(1, std::shared_ptr<Trajectory>(new Trajectory));
    t[0]->SetId(0);
    t[0]->push_back(submap(r, 0, 0, Eigen::Matrix4d::Identity(), 5, 2, 100, &all));
    if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9);
    if (static_map::SaveTrajectoriesAsMapPackage(t, o, MrvmSettings(), "pkg/") && write(fd, "ok", 2)) {}
  }, &out, 200);
  VP_REQUIRE(out == "ok", "many-tiles-crash", fmt("%d x %d tiles: status %d", side, side, st));
  wipe("pkg");
  cover("many");
}

int main(int argc, char** argv) {
  tool_main(argc, argv, {{"join", join_pieces_main}});
  return run(argc, argv, [](long k, Rng& r) {
    if (arg("part") == "many") many_tiles(r);
    else { one(k, r); ghost(r); }
  });
}
