// C12: normals and the matrix form of a cloud.
#include "gen.h"

using namespace vp;
using static_map::data::EigenPointCloud;
using Eigen::Vector3d;

static int leaves(int n) { return n <= 7 ? 1 : leaves(n - n / 2) + leaves(n / 2); }

static void shape(const EigenPointCloud& c, const std::string& d) {
  VP_REQUIRE(c.points.rows() == 3 && c.points.cols() == c.normals.cols() && (c.normals.rows() == 3), "points-and-normals-differ-in-number", d + fmt(" %ld points %ld normals", long(c.points.cols()), long(c.normals.cols())));
  bool fin = true, unit = true;
  for (int i = 0; i < c.points.cols() && i < c.normals.cols(); ++i) {
    fin = fin && c.points.col(i).allFinite() && c.normals.col(i).allFinite();
    unit = unit && std::fabs(c.normals.col(i).norm() - 1) < 1e-6;
  }
  VP_REQUIRE(fin, "not-finite", d);
  VP_REQUIRE(unit, "normal-not-unit", d);
}

// small integer vectors: all coordinates below are exact in float
static Vector3d int_vec(Rng& r, int m) { return Vector3d(r.i(-m, m), r.i(-m, m), r.i(-m, m)); }

static std::vector<InnerPointType> to_points(const std::vector<Vector3d>& v) {
  std::vector<InnerPointType> p;
  for (auto& x : v) p.push_back(pt(float(x[0]), float(x[1]), float(x[2]), 1, 0));
  return p;
}

static Eigen::Matrix4d fraction(const Eigen::Matrix4d& T, double f) {
  Eigen::AngleAxisd a(Eigen::Matrix3d(T.block(0, 0, 3, 3)));
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block(0, 0, 3, 3) = Eigen::AngleAxisd(a.angle() * f, a.axis()).toRotationMatrix();
  m.block(0, 3, 3, 1) = f * T.block(0, 3, 3, 1);
  return m;
}

static void one(long id, Rng& r) {
  const int kind = id % 6;
  std::vector<Vector3d> v;
  Vector3d plane_n = Vector3d::Zero();
  double plane_d = 0;
  std::string what;
  int groups_exact = 0;
  if (kind == 0 || kind == 1) {
    // exact plane, possibly through the origin
    Vector3d u, w;
    do { u = int_vec(r, 4); w = int_vec(r, 4); } while (u.cross(w).norm() < 0.5 || std::fabs(u.normalized().dot(w.normalized())) > 0.8);
    Vector3d o = int_vec(r, 12);
    if (r.p(0.4)) o = Vector3d::Zero();
    if (r.p(0.2)) { o = Vector3d(0, 0, 0); u = Vector3d(1, 0, 0); w = Vector3d(0, 1, 0); }
    if (r.p(0.2)) { o = Vector3d(0, 0, r.i(-3, 3)); u = Vector3d(1, 0, 0); w = Vector3d(0, 1, 0); }
    plane_n = u.cross(w).normalized();
    plane_d = plane_n.dot(o);
    int g = r.i(2, 20);
    for (int i = 0; i < g; ++i)
      for (int j = 0; j < g; ++j) v.push_back(o + u * (i - g / 2 + r.i(0, 3) / 8.0) + w * (j - g / 2 + r.i(0, 3) / 8.0));
    what = fmt("plane with %d points, distance %g", g * g, plane_d);
  } else if (kind == 2) {
    // equal groups: nothing may be dropped, nothing counted twice
    int s = r.i(4, 7), k = r.i(0, 6);
    groups_exact = 1 << k;
    for (int i = 0; i < s * groups_exact; ++i) v.push_back(Vector3d(r.d(-20, 20), r.d(-10, 10), r.d(-5, 5)));
    what = fmt("%d groups of %d", groups_exact, s);
  } else if (kind == 3) {
    // lines, coincident points, tiny clouds
    Vector3d o = int_vec(r, 10), u = int_vec(r, 5);
    int n = r.i(1, 60);
    int sub = r.i(0, 2);
    for (int i = 0; i < n; ++i) v.push_back(sub == 0 ? Vector3d(o + u * (i + r.i(0, 7) / 8.0)) : sub == 1 ? o : Vector3d(o + u * r.d(-3, 3)));
    what = fmt("degenerate %d with %d points", sub, n);
  } else if (kind == 4) {
    int n = r.i(1, 900);
    double s = r.p(0.5) ? 50 : 0.5;
    Vector3d o(r.d(-100, 100), r.d(-100, 100), r.d(-5, 5));
    for (int i = 0; i < n; ++i) v.push_back(o + Vector3d(r.d(-s, s), r.d(-s, s), r.d(-s, s) * (r.p(0.5) ? 1 : 0.01)));
    what = fmt("random %d points", n);
  } else {
    // far apart clusters in a row
    int k = r.i(1, 4), s = r.i(4, 7) << r.i(0, 2);
    int ax = r.i(0, 2);
    for (int c = 0; c < (1 << k); ++c)
      for (int i = 0; i < s; ++i) {
        Vector3d p(r.d(-1, 1), r.d(-1, 1), r.d(-1, 1));
        p[ax] += 1000.0 * (c + 1);
        v.push_back(p);
      }
    if (r.p(0.5))
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.i(0, i - 1)]);
    what = fmt("%d clusters of %d", 1 << k, s);
  }
  const int n = v.size();
  auto pts = to_points(v);
  EigenPointCloud c(pts);
  bool conv = c.points.cols() == n;
  for (int i = 0; conv && i < n; ++i) conv = c.points(0, i) == pts[i].x && c.points(1, i) == pts[i].y && c.points(2, i) == pts[i].z;
  VP_REQUIRE(conv, "conversion", what);
  VP_REQUIRE(!c.HasNormals(), "normals-before-computed", what);
  Eigen::MatrixXd in = c.points;

  // motion compensation of the raw cloud
  if (r.p(0.5)) {
    EigenPointCloud m(pts);
    Eigen::Matrix4d T = rand_pose(r, 3, r.p(0.5) ? 0.3 : 2.5);
    m.ApplyMotionCompensation(T);
    double worst = 0;
    for (int i = 0; i < n; ++i) {
      Eigen::Matrix4d F = fraction(T, double(i) / n);
      Vector3d w = F.block<3, 3>(0, 0) * in.col(i) + F.block<3, 1>(0, 3);
      double e = (w - m.points.col(i)).norm() / (1 + w.norm());
      if (!(e <= worst)) worst = std::isnan(e) ? 1e9 : e;
    }
    VP_REQUIRE(worst < 1e-6, "wrong-motion-compensation", what + fmt(" error %g", worst));
    cover("compensation");
  }
  Eigen::Matrix4d pre = Eigen::Matrix4d::Identity();
  const bool transform_first = r.p(0.3);
  if (transform_first) {
    pre = rand_pose(r, 5);
    c.ApplyTransform(pre);
    double worst = 0;
    for (int i = 0; i < n; ++i) worst = std::max(worst, (pre.block<3, 3>(0, 0) * in.col(i) + pre.block<3, 1>(0, 3) - c.points.col(i)).norm() / (1 + in.col(i).norm()));
    VP_REQUIRE(worst < 1e-9, "wrong-transform", what);
    in = c.points;
    // no longer exact
    plane_n = Vector3d::Zero();
  }
  c.CalculateNormals();
  shape(c, what);
  VP_REQUIRE(c.points.cols() <= leaves(n), "too-many-representatives", what + fmt(" %ld", long(c.points.cols())));
  const Vector3d lo = in.rowwise().minCoeff(), hi = in.rowwise().maxCoeff();
  bool inside = true;
  for (int i = 0; i < c.points.cols(); ++i)
    for (int k = 0; k < 3; ++k) inside = inside && c.points(k, i) >= lo[k] - 1e-9 * (1 + std::fabs(lo[k])) && c.points(k, i) <= hi[k] + 1e-9 * (1 + std::fabs(hi[k]));
  VP_REQUIRE(inside, "representative-outside-of-input", what);
  if (plane_n.norm() > 0.5) {
    double worst = 0, off = 0;
    for (int i = 0; i < c.points.cols(); ++i) {
      const double dt = std::fabs(c.normals.col(i).dot(plane_n));
      worst = std::max(worst, std::isfinite(dt) ? std::acos(std::min(1.0, dt)) : 3.0);
      off = std::max(off, std::fabs(plane_n.dot(c.points.col(i)) - plane_d));
    }
    VP_REQUIRE(off < 1e-9 * (1 + hi.norm() + lo.norm()), "representative-off-the-plane", what + fmt(" by %g", off));
    VP_REQUIRE(worst < 2e-3, "normal-not-perpendicular", what + fmt(" normal (%g %g %g), off by %g rad", plane_n[0], plane_n[1], plane_n[2], worst));
    VP_REQUIRE(n < 4 || c.points.cols() > 0, "plane-without-normals", what);
  }
  if (groups_exact) {
    VP_REQUIRE(c.points.cols() == groups_exact, "group-lost", what + fmt(" %ld", long(c.points.cols())));
    Vector3d m = in.rowwise().mean(), g = c.points.rowwise().mean();
    VP_REQUIRE((m - g).norm() < 1e-9 * (1 + m.norm()), "not-the-centroids", what + fmt(" mean off by %g", (m - g).norm()));
    if (n <= 7) {
      // single group: every representative is known
      VP_REQUIRE((c.points.col(0) - m).norm() < 1e-9 * (1 + m.norm()), "not-the-centroids", what);
    }
  }
  if (kind == 5 && !transform_first) {
    bool ok = true;
    for (int i = 0; i < c.points.cols(); ++i) {
      double best = 1e9;
      for (int j = 0; j < n; ++j) best = std::min(best, (c.points.col(i) - in.col(j)).norm());
      ok = ok && best < 4;
    }
    VP_REQUIRE(ok, "representative-between-neighbourhoods", what);
    // the fraction of the scan time belongs to the points it stands for
    VP_REQUIRE(c.factors.size() == size_t(c.points.cols()), "fractions-do-not-match-points", what);
    bool own = c.factors.size() == size_t(c.points.cols());
    for (int i = 0; own && i < c.points.cols(); ++i) {
      double first = 2, last = -1;
      for (int j = 0; j < n; ++j)
        if ((c.points.col(i) - in.col(j)).norm() < 500) {
          first = std::min(first, double(j) / n);
          last = std::max(last, double(j) / n);
        }
      own = c.factors[i] >= first - 1e-6 && c.factors[i] <= last + 1e-6;
    }
    VP_REQUIRE(own, "fraction-of-another-point", what);
  }
  cover(fmt("%d %d %d %d", kind, int(std::log2(n)), int(c.points.cols() > 0), transform_first));
  count("representatives", c.points.cols());

  // further history on the same object
  for (int step = r.i(0, 3); step > 0 && c.points.cols() > 0; --step) {
    const Eigen::MatrixXd p = c.points, q = c.normals;
    const std::string d = what + fmt(", later step %d", step);
    switch (r.i(0, 2)) {
      case 0: {
        Eigen::Matrix4d T = rand_pose(r, r.p(0.5) ? 100 : 2);
        c.ApplyTransform(T);
        Eigen::MatrixXd wp = (T.block<3, 3>(0, 0) * p).colwise() + Vector3d(T.block<3, 1>(0, 3)), wq = T.block<3, 3>(0, 0) * q;
        VP_REQUIRE(c.points.cols() == p.cols() && (c.points - wp).cwiseAbs().maxCoeff() < 1e-9 * (1 + wp.cwiseAbs().maxCoeff()), "wrong-transform", d);
        VP_REQUIRE(c.normals.cols() == q.cols() && (c.normals - wq).cwiseAbs().maxCoeff() < 1e-9, "normals-not-just-rotated", d);
        shape(c, d);
        cover("transform with normals");
        break;
      }
      case 1: {
        c.CalculateNormals();
        shape(c, d);
        VP_REQUIRE(c.points.cols() <= leaves(p.cols()), "too-many-representatives", d);
        if (c.points.cols() > 0 && p.cols() > 0) {
          const Vector3d a = p.rowwise().minCoeff(), b = p.rowwise().maxCoeff();
          bool in2 = true;
          for (int i = 0; i < c.points.cols(); ++i)
            for (int k = 0; k < 3; ++k) in2 = in2 && c.points(k, i) >= a[k] - 1e-9 * (1 + std::fabs(a[k])) && c.points(k, i) <= b[k] + 1e-9 * (1 + std::fabs(b[k]));
          VP_REQUIRE(in2, "representative-outside-of-input", d);
        }
        cover(fmt("again %d", int(std::log2(p.cols() + 1))));
        break;
      }
      default: {
        Eigen::Matrix4d T = rand_pose(r, 2, 1);
        VP_REQUIRE(c.factors.size() == size_t(c.points.cols()), "fractions-do-not-match-points", d + fmt(" %zu fractions %ld points", c.factors.size(), long(c.points.cols())));
        if (c.factors.size() != size_t(c.points.cols())) return;
        c.ApplyMotionCompensation(T);
        double worst = 0;
        for (int i = 0; i < p.cols(); ++i) {
          Eigen::Matrix4d F = fraction(T, c.factors[i]);
          Vector3d w = F.block<3, 3>(0, 0) * p.col(i) + F.block<3, 1>(0, 3);
          worst = std::max(worst, (w - c.points.col(i)).norm() / (1 + w.norm()));
        }
        VP_REQUIRE(worst < 1e-6, "wrong-motion-compensation", d);
        cover("compensation with normals");
      }
    }
  }
  if (id < 3) sample(what + fmt(": %ld representatives", long(c.points.cols())));
}

int main(int argc, char** argv) { return run(argc, argv, one); }
