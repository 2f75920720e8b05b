// C11: cubes, boxes and the octree built on them.
#include <iostream>

#include "common/bounding_box.h"
#include "common/octree.h"
#include "vp.h"

using namespace vp;
using namespace static_map::common;
typedef Eigen::Vector3d V;

static std::string show(const V& p) { return fmt("(%.17g %.17g %.17g)", p[0], p[1], p[2]); }

static void boxes(Rng& r) {
  const bool exact = r.p(0.4);
  V c;
  double size;
  if (exact) {
    c = V(r.i(-64, 64), r.i(-64, 64), r.i(-64, 64)) / 4.0;
    size = std::ldexp(1.0, int(r.i(-3, 8)));
  } else {
    double s = r.p(0.5) ? 10 : 5000;
    c = V(r.d(-s, s), r.d(-s, s), r.d(-s, s));
    size = r.p(0.5) ? r.d(0.1, 10) : r.d(10, 900);
  }
  const double h = size / 2;
  const double fuzz = exact ? 0 : 1e-12 * (c.cwiseAbs().maxCoeff() + size) * 16;
  CubeBoundingBox box(c, size);
  std::string d = fmt("cube %s size %.17g", show(c).c_str(), size);
  VP_REQUIRE((box.GetCenter() - c).norm() <= fuzz, "centre", d);
  auto sub = box.GenerateSubBoxes();
  eval();
  if (sub.size() != 8) { violation("children", d); return; }
  std::set<int> quad;
  for (auto& b : sub) {
    V o = b.GetCenter() - c;
    for (int k = 0; k < 3; ++k)
      if (std::fabs(std::fabs(o[k]) - h / 2) > fuzz) { violation("child-centre", d); return; }
    quad.insert((o[0] > 0) | (o[1] > 0) << 1 | (o[2] > 0) << 2);
  }
  VP_REQUIRE(quad.size() == 8, "children-overlap", d);
  if (exact && r.p(0.5)) {
    // the same cube from its corners
    CubeBoundingBox b2(c - V::Constant(h), c + V::Constant(h));
    VP_REQUIRE(b2.GetCenter() == c && b2.ContainsPoint(c + V(h, -h, h)) && !b2.ContainsPoint(c + V(h * 1.01, 0, 0)), "corner-cube", d);
  }
  for (int k = 0; k < 40; ++k) {
    V p;
    for (int i = 0; i < 3; ++i) {
      switch (r.i(0, 6)) {
        case 0: p[i] = c[i]; break;
        case 1: p[i] = c[i] + h; break;
        case 2: p[i] = c[i] - h; break;
        case 3: p[i] = c[i] + r.d(-1.4, 1.4) * h; break;
        case 4: p[i] = c[i] + (r.p(0.5) ? h : -h) * 1.001; break;
        default: p[i] = c[i] + r.d(-1, 1) * h;
      }
    }
    if (r.p(0.03)) p[r.i(0, 2)] = std::numeric_limits<double>::quiet_NaN();
    const V o = p - c;
    const bool near_edge = !exact && ((o.cwiseAbs() - V::Constant(h)).cwiseAbs().minCoeff() <= fuzz);
    const bool near_mid = !exact && o.cwiseAbs().minCoeff() <= fuzz && o.cwiseAbs().minCoeff() > 0;
    const bool inside = std::fabs(o[0]) <= h && std::fabs(o[1]) <= h && std::fabs(o[2]) <= h;
    if (!near_edge) {
      VP_REQUIRE(box.ContainsPoint(p) == inside, "contains", d + " point " + show(p));
      const int idx = box.GetSubBoxIndexForPoint(p);
      VP_REQUIRE(inside ? (idx >= 0 && idx < 8) : idx < 0, "child-of-point", d + fmt(" point %s child %d", show(p).c_str(), idx));
      if (inside && idx >= 0 && idx < 8 && !near_mid) {
        const bool on_border = (o.cwiseAbs() - V::Constant(h)).cwiseAbs().minCoeff() <= fuzz || o.cwiseAbs().minCoeff() <= fuzz;
        if (exact || !on_border) {
          VP_REQUIRE(sub[idx].ContainsPoint(p), "child-does-not-contain-point", d + fmt(" point %s child %d", show(p).c_str(), idx));
          int n = 0;
          for (auto& b : sub) n += b.ContainsPoint(p);
          VP_REQUIRE(on_border ? n >= 1 : n == 1, "point-in-several-children", d + fmt(" point %s %d children", show(p).c_str(), n));
          if (on_border) cover(fmt("border %d", n));
        }
      }
      cover(fmt("box %d %d %d", int(exact), inside, idx));
    }
  }
  // general boxes
  V lo(r.d(-9, 9), r.d(-9, 9), r.d(-9, 9)), hi = lo + V(r.d(0.1, 9), r.d(0.1, 9), r.d(0.1, 9));
  BoundingBox g(lo, hi);
  for (int k = 0; k < 20; ++k) {
    V p;
    for (int i = 0; i < 3; ++i) p[i] = r.p(0.2) ? lo[i] : r.p(0.2) ? hi[i] : lo[i] + (hi[i] - lo[i]) * r.d(-0.2, 1.2);
    bool in = true;
    for (int i = 0; i < 3; ++i) in = in && p[i] >= lo[i] && p[i] <= hi[i];
    VP_REQUIRE(g.ContainsPoint(p) == in, "box-contains", show(p));
  }
}

struct Out { V p; int depth; };

// what the octree says it stores
static std::vector<Out> dump(Octree& t) {
  std::ostringstream os;
  os.precision(17);
  auto* old = std::cout.rdbuf(os.rdbuf());
  const auto prec = std::cout.precision(17);
  t.RecursiveOutput();
  std::cout.precision(prec);
  std::cout.rdbuf(old);
  std::vector<Out> out;
  std::istringstream in(os.str());
  std::string line;
  while (std::getline(in, line)) {
    Out o;
    if (sscanf(line.c_str(), "%lf %lf %lf : %d", &o.p[0], &o.p[1], &o.p[2], &o.depth) == 4 ||
        sscanf(line.c_str(), "%lf %lf %lf: %d", &o.p[0], &o.p[1], &o.p[2], &o.depth) == 4)
      out.push_back(o);
    else
      harness_error("cannot read octree output: " + line);
  }
  return out;
}

// reference subdivision
static void ref(const std::vector<V>& pts, const V& c, double size, int depth, int max_depth, int cap, std::vector<Out>* out, int* deepest) {
  if (depth == max_depth || int(pts.size()) <= cap) {
    for (auto& p : pts) out->push_back({p, depth});
    *deepest = std::max(*deepest, depth);
    return;
  }
  std::vector<V> s[8];
  for (auto& p : pts) s[(p[0] >= c[0]) | (p[1] >= c[1]) << 1 | (p[2] >= c[2]) << 2].push_back(p);
  for (int k = 0; k < 8; ++k)
    ref(s[k], c + V(k & 1 ? 1 : -1, k & 2 ? 1 : -1, k & 4 ? 1 : -1) * (size / 4), size / 2, depth + 1, max_depth, cap, out, deepest);
}

static bool less(const Out& a, const Out& b) {
  for (int k = 0; k < 3; ++k) if (a.p[k] != b.p[k]) return a.p[k] < b.p[k];
  return a.depth < b.depth;
}

static void octree(Rng& r) {
  const bool exact = r.p(0.5);
  OctreeConfig cfg;
  double size;
  if (exact) {
    cfg.center = V(r.i(-8, 8), r.i(-8, 8), r.i(-8, 8)) * 0.5;
    size = std::ldexp(1.0, int(r.i(0, 7)));
  } else {
    double s = r.p(0.5) ? 1 : 300;
    cfg.center = V(r.d(-s, s), r.d(-s, s), r.d(-s, s));
    size = r.d(1, 200);
  }
  cfg.max_size = size;
  cfg.max_depth = r.i(0, 9);
  cfg.max_num_points_in_voxel = r.i(1, 8);
  const int n = r.p(0.1) ? 0 : r.p(0.5) ? r.i(1, 30) : r.i(20, 400);
  const int rows = r.p(0.3) ? 4 : 3;
  Eigen::MatrixXd m(rows, n);
  std::vector<V> in;
  int outside = 0;
  const V cl = cfg.center + V(r.d(-.4, .4), r.d(-.4, .4), r.d(-.4, .4)) * size;
  for (int i = 0; i < n; ++i) {
    V p;
    for (;;) {
      int kind = r.i(0, 5);
      for (int k = 0; k < 3; ++k) {
        double u = kind == 0 ? r.d(-0.8, 0.8) : r.d(-0.5, 0.5);
        p[k] = cfg.center[k] + u * size;
        if (kind == 1) p[k] = cl[k] + r.d(-1e-3, 1e-3) * size;
        if (!exact && kind == 2) p[k] = cfg.center[k] + (r.p(0.5) ? 0.0 : std::ldexp(double(r.i(-15, 15)), -5)) * size;
        if (exact && kind == 2) p[k] = cfg.center[k] + std::ldexp(double(r.i(-16, 16)), -5) * size;
        if (exact && kind == 3) p[k] = cfg.center[k] + (r.p(0.5) ? 0.5 : -0.5) * size;
      }
      if (kind == 4 && !in.empty()) p = in[r.i(0, in.size() - 1)];
      if (exact) break;
      // stay clear of the outer border when the arithmetic rounds
      V o = ((p - cfg.center).cwiseAbs() - V::Constant(size / 2)).cwiseAbs();
      if (o.minCoeff() > 1e-9 * (size + 300)) break;
    }
    m.col(i).head(3) = p;
    if (rows == 4) m(3, i) = r.d(-1e6, 1e6);
    if ((p - cfg.center).cwiseAbs().maxCoeff() <= size / 2) in.push_back(p); else ++outside;
  }
  std::string d = fmt("%d points (%d outside), centre %s size %.9g depth<=%d capacity %d", n, outside, show(cfg.center).c_str(), size, cfg.max_depth, cfg.max_num_points_in_voxel);
  Octree t(cfg);
  t.InitWithPointCloud(m);
  auto got = dump(t);
  std::vector<Out> want;
  int deepest = 0;
  ref(in, cfg.center, size, 0, cfg.max_depth, cfg.max_num_points_in_voxel, &want, &deepest);
  std::sort(got.begin(), got.end(), less);
  std::sort(want.begin(), want.end(), less);
  VP_REQUIRE(got.size() == want.size(), got.size() < want.size() ? "points-lost" : "points-added", d + fmt(": %zu stored instead of %zu", got.size(), want.size()));
  VP_REQUIRE(t.GetMaxDepth() <= cfg.max_depth, "too-deep", d + fmt(": %d", t.GetMaxDepth()));
  if (got.size() == want.size()) {
    bool pts = true, dep = true;
    for (size_t i = 0; i < got.size(); ++i) {
      if (got[i].p != want[i].p) pts = false;
      if (got[i].depth != want[i].depth) dep = false;
    }
    VP_REQUIRE(pts, "points-changed", d);
    // with rounding a point may sit on either side of a plane; the depth is only compared when it is exact
    if (exact) VP_REQUIRE(dep && t.GetMaxDepth() == deepest, "leaf-level", d + fmt(" depth %d instead of %d", t.GetMaxDepth(), deepest));
  }
  // a second cloud replaces the first
  if (r.p(0.3)) {
    Eigen::MatrixXd one(3, 1);
    one.col(0) = cfg.center;
    t.InitWithPointCloud(one);
    auto again = dump(t);
    VP_REQUIRE(again.size() == 1 && again[0].p == cfg.center && again[0].depth == 0 && t.GetMaxDepth() == 0, "reuse", d);
  }
  cover(fmt("tree %d %d %d %d", exact, cfg.max_depth, deepest, cfg.max_num_points_in_voxel));
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long id, Rng& r) {
    for (int i = 0; i < 20; ++i) boxes(r);
    for (int i = 0; i < 4; ++i) octree(r);
    if (id == 0) sample("octree output parsed and compared with an independent subdivision");
  });
}
