// C09/C10: occupancy voxel map.
#include <array>

#include "builder/multi_resolution_voxel_map.h"
#include "gen.h"

using namespace vp;
using static_map::MrvmSettings;
using static_map::MultiResolutionVoxelMap;

extern "C" void vp_omp_force_threads(int) __attribute__((weak));
extern "C" void vp_omp_seed(unsigned long) __attribute__((weak));

typedef std::array<int, 3> Key;
typedef std::set<int> Probs;

// one occupancy update, in double; values next to a rounding border may go both ways
static void update(const Probs& in, double weight, Probs* out) {
  for (int p : in) {
    const double q = p / 256.0;
    double n = 1 / (1 + std::exp(-(std::log(q / (1 - q)) + std::log(weight / (1 - weight)))));
    n = std::min(0.9, std::max(0.1, n)) * 256;
    out->insert(int(std::floor(n - 1e-3)));
    out->insert(int(std::floor(n + 1e-3)));
  }
}

static Probs updated(const Probs& in, double weight) {
  Probs out;
  update(in, weight, &out);
  return out;
}

struct Cell {
  Probs p{128};
  std::vector<InnerPointType> returns;
  int max_intensity = 0;
};
typedef std::map<Key, Cell> World;

struct Scan { InnerCloudType::Ptr c; Eigen::Vector3f origin; };

static std::vector<Key> ray(const Eigen::Vector3f& o, const InnerPointType& p, float res) {
  std::vector<Key> k;
  for (auto& v : static_map::common::VoxelCastingBresenham(o, Eigen::Vector3f(p.x, p.y, p.z), res)) k.push_back({{v[0], v[1], v[2]}});
  return k;
}
static Key cell_of(double x, double y, double z, double res) { return {{int(std::floor(x / res)), int(std::floor(y / res)), int(std::floor(z / res))}}; }

static void insert_ordered(World& w, const Scan& s, const MrvmSettings& st, double hit, double miss) {
  std::set<Key> ends;
  for (auto& p : s.c->points) {
    Eigen::Vector3f o = s.origin;
    o[2] += st.z_offset;
    auto k = ray(o, p, st.high_resolution);
    const Key e = k.back();
    if (e != cell_of(p.x, p.y, p.z, st.high_resolution)) harness_error("point on a border");
    Cell& c = w[e];
    Probs n;
    update(c.p, hit, &n);
    c.p = n;
    c.returns.push_back(p);
    c.max_intensity = std::max(c.max_intensity, int(p.intensity));
    ends.insert(e);
    for (size_t i = 0; i + 1 < k.size(); ++i) {
      auto it = w.find(k[i]);
      if (it == w.end() || ends.count(k[i])) continue;
      Probs m;
      update(it->second.p, miss, &m);
      it->second.p = m;
    }
  }
}

// every result some order of the rays can have
static void insert_any(World& w, const Scan& s, const MrvmSettings& st, double hit, double miss) {
  std::map<Key, int> crossings, hits;
  for (auto& p : s.c->points) {
    Eigen::Vector3f o = s.origin;
    o[2] += st.z_offset;
    auto k = ray(o, p, st.high_resolution);
    ++hits[k.back()];
    for (size_t i = 0; i + 1 < k.size(); ++i) ++crossings[k[i]];
    Cell& c = w[k.back()];
    c.returns.push_back(p);
    c.max_intensity = std::max(c.max_intensity, int(p.intensity));
  }
  for (auto& kv : w) {
    const int c = crossings.count(kv.first) ? crossings[kv.first] : 0;
    const int h = hits.count(kv.first) ? hits[kv.first] : 0;
    Probs cur = kv.second.p, res;
    if (h == 0) {
      for (int k = 0; k < c; ++k) cur = updated(cur, miss);
      kv.second.p = cur;
      continue;
    }
    // A ray that has looked at the cell before its first return may lower it
    // only afterwards: up to one late crossing per thread.
    std::vector<Probs> before(1);  // before[k]: after at most k crossings
    before[0] = cur;
    for (int k = 1; k <= c; ++k) {
      cur = updated(cur, miss);
      Probs all = before.back();
      all.insert(cur.begin(), cur.end());
      before.push_back(all);
    }
    for (int late = 0; late <= std::min(c, 12); ++late) {
      std::vector<Probs> by_late(late + 1);
      for (int j = 0; j < h; ++j) {
        std::vector<Probs> next(late + 1);
        for (int m = 0; m <= late; ++m) {
          if (j == 0 && m == 0) next[0] = updated(before[c - late], hit);
          else if (j > 0) next[m] = updated(by_late[m], hit);
          if (m > 0) { Probs n = updated(next[m - 1], miss); next[m].insert(n.begin(), n.end()); }
        }
        by_late = next;
      }
      res.insert(by_late[late].begin(), by_late[late].end());
    }
    kv.second.p = res;
  }
}

static double inner(Rng& r) { return r.d(0.05, 0.95); }

static Scan scan(Rng& r, float res, int style, float zoff) {
  Scan s;
  s.c.reset(new InnerCloudType);
  s.c->stamp = make_time(1000, 0);
  auto at = [&](int x, int y, int z) {
    return pt((x + inner(r)) * res, (y + inner(r)) * res, (z + inner(r)) * res, r.p(0.1) ? 0 : r.d(0, 255), r.d(0, 1));
  };
  s.origin = Eigen::Vector3f((r.i(-12, 12) + inner(r)) * res, (r.i(-12, 12) + inner(r)) * res, (r.i(-3, 3) + inner(r)) * res - zoff);
  const int n = r.p(0.1) ? 1 : r.i(3, vp::ctx().thorough ? 200 : 90);
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    switch (style) {
      case 0: p = at(r.i(-6, 6), r.i(-6, 6), r.i(-2, 2)); break;            // crowded
      case 1: p = at(r.i(0, 1), r.i(0, 1), 0); break;                        // few hot cells
      case 2: p = at(r.i(-20, 20), 15, r.i(-4, 4)); break;                   // wall
      case 3: p = at(r.p(0.5) ? 20 : r.i(-5, 5), r.p(0.5) ? 20 : -20, r.i(-1, 1)); break;
      default: p = at(r.i(-300, 300), r.i(-300, 300), r.i(-30, 30));         // sparse
    }
    const Key k = cell_of(p.x, p.y, p.z, res);
    auto off = [&](double v, int c) { double f = v / res - c; return f < 1e-3 || f > 1 - 1e-3; };
    if (off(p.x, k[0]) || off(p.y, k[1]) || off(p.z, k[2])) { --i; continue; }
    s.c->points.push_back(p);
  }
  return s;
}

typedef std::map<Key, std::vector<InnerPointType>> Out;

static Out group(const pcl::PointCloud<pcl::PointXYZI>& c, double res) {
  Out o;
  for (auto& p : c) o[cell_of(p.x, p.y, p.z, res)].push_back(pt(p.x, p.y, p.z, p.intensity));
  return o;
}

static bool subset(const std::vector<InnerPointType>& part, const std::vector<InnerPointType>& all, bool intensity) {
  std::vector<char> used(all.size(), 0);
  for (auto& p : part) {
    bool found = false;
    for (size_t i = 0; i < all.size() && !found; ++i)
      if (!used[i] && same_bits(all[i].x, p.x) && same_bits(all[i].y, p.y) && same_bits(all[i].z, p.z) && (!intensity || same_bits(all[i].intensity, p.intensity))) { used[i] = 1; found = true; }
    if (!found) return false;
  }
  return true;
}

static void history(Rng& r, bool ordered) {
  MrvmSettings st;
  st.high_resolution = r.pick(std::vector<float>{0.05f, 0.1f, 0.2f, 0.5f, 1.f, 0.37f});
  st.output_average = r.p(0.35);
  st.use_max_intensity = r.p(0.5);
  st.hit_prob = r.pick(std::vector<float>{0.55f, 0.51f, 0.6f, 0.7f, 0.85f, 0.95f, 0.502f});
  st.miss_prob = r.pick(std::vector<float>{0.48f, 0.45f, 0.4f, 0.3f, 0.12f, 0.05f, 0.498f});
  st.max_point_num_in_cell = r.p(0.3) ? r.i(1, 3) : r.i(1, 40);
  st.z_offset = r.p(0.5) ? 0 : r.d(-1, 1) * st.high_resolution * 5;
  st.output_rgb = r.p(0.3);
  const double hit = std::min(0.9, std::max(double(0.501f), double(st.hit_prob))), miss = std::min(double(0.499f), std::max(0.1, double(st.miss_prob)));
  MultiResolutionVoxelMap map;
  MrvmSettings first = st;
  const bool late_offset = r.p(0.3);
  if (late_offset) first.z_offset = 0;
  map.Initialise(first);
  if (late_offset) map.SetOffsetZ(st.z_offset);
  World w;
  const int scans = r.i(1, 8);
  const int base = r.i(0, 5);
  Scan prev;
  std::string d = fmt("res %g cap %d hit %g miss %g z %g avg %d max %d scans %d style %d", st.high_resolution, st.max_point_num_in_cell, hit, miss, st.z_offset, st.output_average, st.use_max_intensity, scans, base);
  for (int i = 0; i < scans; ++i) {
    Scan s = scan(r, st.high_resolution, base == 5 ? r.i(0, 4) : base, st.z_offset);
    if (prev.c && r.p(0.3)) s.c = prev.c;  // the same returns seen from elsewhere
    prev = s;
    if (vp_omp_force_threads) vp_omp_force_threads(ordered ? 1 : r.p(0.2) ? 0 : r.i(1, 12));
    if (vp_omp_seed) vp_omp_seed(ordered ? 0 : r.u64());
    if (r.p(0.1)) { map.InsertPointCloud(nullptr, s.origin); map.InsertPointCloud(InnerCloudType::Ptr(new InnerCloudType), s.origin); }
    auto before = s.c->points;
    map.InsertPointCloud(s.c, s.origin);
    if (!same_points(before, s.c->points)) violation("input-changed", d);
    if (ordered) insert_ordered(w, s, st, hit, miss); else insert_any(w, s, st, hit, miss);
  }
  // what is exported at which threshold
  std::map<Key, int> highest;
  Out all;
  pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
  const bool fine = r.p(0.5);
  size_t last = SIZE_MAX;
  bool mono = true;
  int worst_gap = 0;
  std::vector<int> ts;
  for (int t = 0; t < 256; t += fine ? 1 : r.i(1, 12)) ts.push_back(t);
  for (int t : ts) {
    map.OutputToPointCloud(t / 256.f, c);
    mono = mono && c->size() <= last;
    last = c->size();
    Out o = group(*c, st.high_resolution);
    if (t == 0) all = o;
    for (auto& kv : o) highest[kv.first] = t;
    if (t && r.p(0.05)) {
      bool same = true;
      for (auto& kv : o) same = same && all.count(kv.first) && all[kv.first].size() == kv.second.size();
      VP_REQUIRE(same, "export-depends-on-threshold", d);
    }
    if (c->size() && !(c->width * c->height == c->size())) violation("export-has-wrong-dimensions", d);
  }
  VP_REQUIRE(mono, "export-not-monotone", d);
  eval(ts.size());
  VP_REQUIRE(all.size() == w.size(), "wrong-cells", d + fmt(" %zu instead of %zu", all.size(), w.size()));
  int ambiguous = 0, crossed_down = 0;
  for (auto& kv : w) {
    const Cell& e = kv.second;
    auto it = all.find(kv.first);
    const std::string dk = d + fmt(" cell %d %d %d returns %zu", kv.first[0], kv.first[1], kv.first[2], e.returns.size());
    if (it == all.end()) { violation("cell-missing", dk); continue; }
    // occupancy, seen through the thresholds
    const int h = highest[kv.first];
    int next = 256;
    for (size_t i = 0; i < ts.size(); ++i) if (ts[i] == h && i + 1 < ts.size()) next = ts[i + 1];
    bool ok = false;
    for (int p : e.p) ok = ok || (p >= h && p < next);
    VP_REQUIRE(ok, "wrong-occupancy", dk + fmt(" exported up to %d, not at %d; possible %d..%d (%zu values)", h, next, *e.p.begin(), *e.p.rbegin(), e.p.size()));
    VP_REQUIRE(h <= 230 && (h >= 24 || next > 25), "occupancy-not-clamped", dk);
    if (e.p.size() > 2) ++ambiguous;
    if (*e.p.rbegin() < 128) ++crossed_down;
    // its points
    const auto& got = it->second;
    const size_t cap = std::min<size_t>(e.returns.size(), st.max_point_num_in_cell);
    if (st.output_average) {
      VP_REQUIRE(got.size() == 1, "not-one-average-per-cell", dk);
      double m[3] = {0, 0, 0}, lo[3], hi[3];
      for (int a = 0; a < 3; ++a) { lo[a] = 1e30; hi[a] = -1e30; }
      for (auto& p : e.returns) {
        const double v[3] = {p.x, p.y, p.z};
        for (int a = 0; a < 3; ++a) { m[a] += v[a] / e.returns.size(); lo[a] = std::min(lo[a], v[a]); hi[a] = std::max(hi[a], v[a]); }
      }
      const double g[3] = {got[0].x, got[0].y, got[0].z};
      bool good = true;
      for (int a = 0; a < 3; ++a) {
        const double tol = 3e-6 * std::max(1.0, std::fabs(m[a])) + 1e-6 * std::fabs(m[a]) * e.returns.size();
        good = good && (cap == e.returns.size() ? std::fabs(g[a] - m[a]) <= tol : g[a] >= lo[a] - tol && g[a] <= hi[a] + tol);
      }
      VP_REQUIRE(good, "wrong-average", dk);
    } else {
      VP_REQUIRE(got.size() == cap, "wrong-number-of-points", dk + fmt(": %zu instead of %zu", got.size(), cap));
      VP_REQUIRE(subset(got, e.returns, !st.use_max_intensity), "foreign-point-in-cell", dk);
      if (ordered && got.size() == cap) VP_REQUIRE(subset(got, std::vector<InnerPointType>(e.returns.begin(), e.returns.begin() + cap), false), "not-the-first-points", dk);
    }
    if (st.use_max_intensity) {
      bool good = true;
      for (auto& p : got) good = good && p.intensity == float(e.max_intensity);
      VP_REQUIRE(good, "wrong-maximum-intensity", dk + fmt(": %g instead of %d", got.empty() ? -1.f : got[0].intensity, e.max_intensity));
    }
  }
  // colour and files carry the same points
  const float t = r.pick(std::vector<float>{0, 0.45f, 0.5f, 0.53f, 0.6f, 0.7f});
  map.OutputToPointCloud(t, c);
  pcl::PointCloud<pcl::PointXYZRGB>::Ptr rgb(new pcl::PointCloud<pcl::PointXYZRGB>);
  map.OutputToPointCloud(t, rgb);
  auto order = [](const std::array<float, 4>& a, const std::array<float, 4>& b) { return a < b; };
  std::vector<std::array<float, 4>> a, b, f;
  for (auto& p : *c) a.push_back({{p.x, p.y, p.z, 0}});
  for (auto& p : *rgb) {
    b.push_back({{p.x, p.y, p.z, 0}});
    auto it = w.find(cell_of(p.x, p.y, p.z, st.high_resolution));
    if (it != w.end()) {
      const int v = std::min(255, int(it->second.max_intensity * 1.4));
      if (!(p.r == p.g && p.g == p.b && std::abs(int(p.r) - v) <= 1)) violation("wrong-colour", d + fmt(" %d instead of %d", p.r, v));
    }
  }
  std::sort(a.begin(), a.end(), order);
  std::sort(b.begin(), b.end(), order);
  VP_REQUIRE(a == b, "colour-export-differs", d);
  ::remove("map.pcd");
  const bool compress = r.p(0.5);
  map.OutputToPointCloud(t, "map.pcd", compress);
  const bool have = access("map.pcd", F_OK) == 0;
  VP_REQUIRE(have == !c->empty(), "file-presence", d);
  if (have) {
    bool ok = true;
    if (st.output_rgb) {
      pcl::PointCloud<pcl::PointXYZRGB> x;
      ok = pcl::io::loadPCDFile("map.pcd", x) == 0;
      for (auto& p : x) f.push_back({{p.x, p.y, p.z, 0}});
      std::multiset<std::array<float, 4>> u, v;
      for (auto& p : x) u.insert({{p.x, p.y, p.z, float(p.r)}});
      for (auto& p : *rgb) v.insert({{p.x, p.y, p.z, float(p.r)}});
      ok = ok && u == v;
    } else {
      pcl::PointCloud<pcl::PointXYZI> x;
      ok = pcl::io::loadPCDFile("map.pcd", x) == 0;
      for (auto& p : x) f.push_back({{p.x, p.y, p.z, 0}});
      std::multiset<std::array<float, 4>> u, v;
      for (auto& p : x) u.insert({{p.x, p.y, p.z, p.intensity}});
      for (auto& p : *c) v.insert({{p.x, p.y, p.z, p.intensity}});
      ok = ok && u == v;
    }
    VP_REQUIRE(ok, "file-differs-from-export", d + fmt(" %zu instead of %zu points", f.size(), a.size()));
    ::remove("map.pcd");
  }
  // thresholds nothing can reach
  map.OutputToPointCloud(0.95f, c);
  VP_REQUIRE(c->empty(), "exported-above-the-limit", d);
  map.OutputToPointCloud(1.0f, c);
  VP_REQUIRE(c->empty(), "exported-at-certainty", d);
  count("cells", w.size());
  count("cells below unknown", crossed_down);
  count("cells with several possible outcomes", ambiguous);
  cover(fmt("style %d scans %d avg %d max %d rgb %d down %d amb %d cap %d", base, scans > 2, st.output_average, st.use_max_intensity, st.output_rgb, crossed_down > 0, ambiguous > 0, st.max_point_num_in_cell < 4));
}

// All threads meet in the same cells at about the same time.
static void stampede(Rng& r) {
  MrvmSettings st;
  st.high_resolution = 0.5f;
  st.output_average = false;
  st.use_max_intensity = true;
  st.hit_prob = r.pick(std::vector<float>{0.53f, 0.55f});
  st.miss_prob = 0.4f;
  st.max_point_num_in_cell = r.p(0.5) ? 3 : 100;
  const double hit = st.hit_prob;
  MultiResolutionVoxelMap map;
  map.Initialise(st);
  const Eigen::Vector3f origin(0.25f, 0.25f, 0.25f);
  // a shell around the origin, so that no ray crosses the end of another
  const int R = r.i(8, 16), copies = r.pick(std::vector<int>{2, 5, 10, 10});
  std::vector<Key> cells;
  for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) for (int z = -R; z <= R; ++z)
    if (std::max({std::abs(x), std::abs(y), std::abs(z)}) == R) cells.push_back({{x, y, z}});
  for (size_t i = cells.size(); i > 1; --i) std::swap(cells[i - 1], cells[r.i(0, i - 1)]);
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000, 0);
  World w;
  std::set<Key> crossed;
  for (int k = 0; k < copies; ++k)
    for (auto& e : cells) {
      InnerPointType p = pt((e[0] + inner(r)) * .5, (e[1] + inner(r)) * .5, (e[2] + inner(r)) * .5, r.i(1, 255));
      c->points.push_back(p);
      auto way = ray(origin, p, .5f);
      if (way.empty() || way.back() != e) harness_error("shell");
      way.pop_back();
      for (auto& x : way) if (std::max({std::abs(x[0]), std::abs(x[1]), std::abs(x[2])}) == R) crossed.insert(x);
      Cell& cell = w[e];
      cell.p = updated(cell.p, hit);
      cell.returns.push_back(p);
      cell.max_intensity = std::max(cell.max_intensity, int(p.intensity));
    }
  const std::string d = fmt("%zu cells with %d returns each, limit %d, hit %g", cells.size(), copies, st.max_point_num_in_cell, hit);
  map.InsertPointCloud(c, origin);
  std::map<Key, int> highest;
  pcl::PointCloud<pcl::PointXYZI>::Ptr o(new pcl::PointCloud<pcl::PointXYZI>);
  Out all;
  for (int t = 0; t < 256; t = t ? t + 1 : 128) {
    map.OutputToPointCloud(t / 256.f, o);
    if (t == 0) all = group(*o, .5);
    for (auto& p : *o) highest[cell_of(p.x, p.y, p.z, .5)] = t;
  }
  long number = 0, bright = 0, occupancy = 0;
  for (auto& kv : w) {
    const auto& got = all[kv.first];
    number += got.size() != std::min<size_t>(kv.second.returns.size(), st.max_point_num_in_cell);
    for (auto& p : got) if (p.intensity != float(kv.second.max_intensity)) { ++bright; break; }
    if (!crossed.count(kv.first)) occupancy += !kv.second.p.count(highest[kv.first]);
  }
  VP_REQUIRE(number == 0, "wrong-number-of-points", d + fmt(" in %ld cells", number));
  VP_REQUIRE(bright == 0, "wrong-maximum-intensity", d + fmt(" in %ld cells", bright));
  VP_REQUIRE(occupancy == 0, "wrong-occupancy", d + fmt(" in %ld cells", occupancy));
  eval(3 * cells.size());
  count("cells entered by all threads at once", cells.size());
  cover(fmt("stampede %d %d", copies, st.max_point_num_in_cell));
}

int main(int argc, char** argv) {
  freopen("/dev/null", "w", stdout);
  std::string part;
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--part") part = argv[i + 1];
  const bool ordered = part == "ordered";
  return vp::run(argc, argv, [&](long, Rng& r) {
    if (ordered && !vp_omp_force_threads) harness_error("needs the own OpenMP runtime");
    if (part == "stampede") stampede(r); else history(r, ordered);
  });
}
