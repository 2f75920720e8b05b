// C07: conversions between pose representations and small geometry helpers.
#include "common/math.h"
#include "vp.h"

using namespace vp;
using namespace static_map::common;
template <typename T> using M3 = Eigen::Matrix<T, 3, 3>;
template <typename T> using M4 = Eigen::Matrix<T, 4, 4>;
template <typename T> using V3 = Eigen::Matrix<T, 3, 1>;
template <typename T> using V6 = Eigen::Matrix<T, 6, 1>;

static Eigen::Matrix3d Rx(double a) { Eigen::Matrix3d m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
static Eigen::Matrix3d Ry(double a) { Eigen::Matrix3d m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
static Eigen::Matrix3d Rz(double a) { Eigen::Matrix3d m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
static double ang(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) {
  Eigen::Matrix3d d = a.transpose() * b;
  Eigen::Vector3d v(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
  return std::atan2(v.norm() * 0.5, (d.trace() - 1) * 0.5);
}
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static Eigen::Vector3d eulers(Rng& r) {
  auto one = [&](double lim) {
    switch (r.i(0, 5)) {
      case 0: return 0.0;
      case 1: return r.i(-2, 2) * lim / 2;
      case 2: return r.d(-1e-4, 1e-4);
      case 3: return (r.p(0.5) ? 1 : -1) * (lim - std::pow(10., r.d(-9, -1)));
      default: return r.d(-lim, lim);
    }
  };
  return Eigen::Vector3d(one(M_PI), one(M_PI / 2), one(M_PI));
}

template <typename T>
static void rotations(Rng& r, bool dbl) {
  const Eigen::Vector3d e = eulers(r);
  const Eigen::Matrix3d ref = Rz(e[2]) * Ry(e[1]) * Rx(e[0]);
  const V3<T> et = e.cast<T>();
  const double base = dbl ? 1e-9 : 4e-6;
  const double cp = std::fabs(std::cos(e[1]));
  // angles of a matrix are ill-conditioned close to vertical pitch
  const double cond = (dbl ? 4e-16 : 3e-7) / std::max(cp, 1e-9);
  const double tol = base + (cp < 2e-6 ? 4e-6 : 0) + 4 * cond;
  std::string d = fmt("%s roll %.17g pitch %.17g yaw %.17g", dbl ? "double" : "float", e[0], e[1], e[2]);

  const M3<T> m = EulerAnglesToRotationMatrix(et);
  const Eigen::Quaternion<T> q = EulerAnglesToQuaternion(et);
  const Eigen::Matrix3d md = m.template cast<double>();
  VP_REQUIRE(ang(md, ref) < base && (md * md.transpose() - Eigen::Matrix3d::Identity()).norm() < base * 4 && md.determinant() > 0, "euler-to-matrix", d);
  VP_REQUIRE(ang(q.toRotationMatrix().template cast<double>(), ref) < base && std::fabs(double(q.norm()) - 1) < base, "euler-to-quaternion", d);

  const M3<T> rm = ref.cast<T>();
  const V3<T> back = RotationMatrixToEulerAngles(rm);
  const Eigen::Vector3d bd = back.template cast<double>();
  VP_REQUIRE(bd.allFinite() && std::fabs(bd[1]) <= M_PI / 2 + 1e-6 && std::fabs(bd[0]) <= M_PI + 1e-6 && std::fabs(bd[2]) <= M_PI + 1e-6, "euler-out-of-range", d);
  const double a = ang(Rz(bd[2]) * Ry(bd[1]) * Rx(bd[0]), ref);
  if (tol < 0.05) VP_REQUIRE(a < tol, "matrix-euler-matrix", d + fmt(" angle %.3g tol %.3g", a, tol));
  if (cp > 1e-2) {
    const double t = base + 20 * cond;
    VP_REQUIRE(std::fabs(wrap(bd[0] - e[0])) < t && std::fabs(wrap(bd[1] - e[1])) < t + (dbl ? 3e-8 : 1e-3) && std::fabs(wrap(bd[2] - e[2])) < t, "euler-matrix-euler",
               d + fmt(" back %.17g %.17g %.17g", bd[0], bd[1], bd[2]));
  }
  for (int sgn = -1; sgn <= 1; sgn += 2) {
    Eigen::Quaternion<T> qq(rm);
    if (sgn < 0) qq.coeffs() = -qq.coeffs();
    const Eigen::Vector3d qe = QuaternionToEulers(qq).template cast<double>();
    if (tol < 0.05) VP_REQUIRE(ang(Rz(qe[2]) * Ry(qe[1]) * Rx(qe[0]), ref) < tol * 2, "quaternion-euler", d);
  }
  // six vector and matrix
  M4<T> pose = M4<T>::Identity();
  pose.template block<3, 3>(0, 0) = rm;
  const V3<T> tr(T(r.d(-1e3, 1e3)), T(r.d(-1e3, 1e3)), T(r.d(-100, 100)));
  pose.template block<3, 1>(0, 3) = tr;
  const V6<T> v = TransformToVector6(pose);
  VP_REQUIRE(v.template head<3>() == tr && (v.template tail<3>() - back).norm() < 1e-5, "pose-to-six", d);
  const M4<T> p2 = Vector6ToTransform(v);
  const Eigen::Matrix3d p2r = p2.template block<3, 3>(0, 0).template cast<double>();
  if (tol < 0.05)
    VP_REQUIRE((ang(p2r, ref) < tol * 2 && p2.template block<3, 1>(0, 3) == tr && p2.row(3) == pose.row(3)), "pose-six-pose", d);
  V6<T> v6;
  v6 << tr, et;
  const M4<T> p3 = Vector6ToTransform(v6);
  VP_REQUIRE((ang(p3.template block<3, 3>(0, 0).template cast<double>(), ref) < base && p3.template block<3, 1>(0, 3) == tr && p3.row(3) == pose.row(3)), "six-to-pose", d);
  VP_REQUIRE(Rotation(pose) == rm && Translation(pose) == tr, "extract", d);

  // re-normalisation of a slightly damaged rotation
  M4<T> dam = pose;
  const double noise = dbl ? 1e-6 : 1e-4;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) dam(i, j) += T(r.d(-noise, noise));
  NormalizeRotation(dam);
  const Eigen::Matrix3d nr = dam.template block<3, 3>(0, 0).template cast<double>();
  VP_REQUIRE(((nr * nr.transpose() - Eigen::Matrix3d::Identity()).norm() < base * 4 && ang(nr, ref) < noise * 10 + base && dam.template block<3, 1>(0, 3) == tr && dam.row(3) == pose.row(3)),
             "normalise-rotation", d);

  // interpolation
  const Eigen::Vector3d e2 = eulers(r);
  M4<T> other = M4<T>::Identity();
  Eigen::Matrix3d ref2 = Rz(e2[2]) * Ry(e2[1]) * Rx(e2[0]);
  if (r.p(0.2)) ref2 = ref * Rz(r.d(-1e-3, 1e-3));
  if (r.p(0.05)) ref2 = ref;
  other.template block<3, 3>(0, 0) = ref2.cast<T>();
  const V3<T> tr2(T(r.d(-1e3, 1e3)), T(r.d(-1e3, 1e3)), T(r.d(-100, 100)));
  other.template block<3, 1>(0, 3) = tr2;
  const double total = ang(ref, ref2);
  if (total < 3.13) {
    float fs[4] = {0.f, 1.f, float(r.d(0, 1)), float(r.i(0, 8)) / 8.f};
    for (float f : fs) {
      const M4<T> m = InterpolateTransform(pose, other, f);
      const Eigen::Matrix3d mr = m.template block<3, 3>(0, 0).template cast<double>();
      const Eigen::Vector3d mt = m.template block<3, 1>(0, 3).template cast<double>();
      const Eigen::Vector3d want = tr.template cast<double>() + double(f) * (tr2.template cast<double>() - tr.template cast<double>());
      const double itol = dbl ? 2e-7 : 2e-3;
      VP_REQUIRE((mr * mr.transpose() - Eigen::Matrix3d::Identity()).norm() < (dbl ? 1e-9 : 1e-5) && mr.determinant() > 0 && m.row(3) == pose.row(3), "interpolation-not-rigid", d);
      VP_REQUIRE((mt - want).norm() < (dbl ? 1e-9 : 1e-3), "interpolated-translation", d + fmt(" factor %.9g", f));
      const double a1 = ang(ref, mr), a2 = ang(mr, ref2);
      VP_REQUIRE(std::fabs(a1 - f * total) < itol && std::fabs(a2 - (1 - f) * total) < itol, "interpolated-rotation",
                 d + fmt(" factor %.9g total %.9g: %.9g %.9g", f, total, a1, a2));
      cover(fmt("interp %d %d", int(total * 4), int(f * 8)));
    }
  }
  cover(fmt("rot %d %d %d", int(std::floor(e[0])), int(std::floor(e[1] * 2)), int(std::floor(e[2]))));
}

template <typename T>
static void scalars(Rng& r, double eps) {
  const double x = r.p(0.2) ? r.i(-9, 9) * M_PI : r.p(0.5) ? r.d(-10, 10) : r.d(-2000, 2000);
  const T n = NormalizeAngleDifference(T(x));
  VP_REQUIRE(double(n) <= M_PI + eps && double(n) >= -M_PI - eps, "angle-not-normalised", fmt("%.17g -> %.17g", x, double(n)));
  VP_REQUIRE(std::fabs(wrap(double(n) - x)) < eps * (1 + std::fabs(x)), "angle-changed", fmt("%.17g -> %.17g", x, double(n)));
  if (std::fabs(x) < 3.1) VP_REQUIRE(n == T(x), "normal-angle-changed", fmt("%.17g", x));
  const T lo = T(r.d(-5, 5)), hi = lo + T(r.p(0.2) ? 0 : r.d(0, 5)), v = T(r.p(0.3) ? lo : r.d(-10, 10));
  const T c = Clamp(v, lo, hi);
  VP_REQUIRE(c == (v < lo ? lo : v > hi ? hi : v), "clamp", fmt("%.9g in [%.9g,%.9g] -> %.9g", double(v), double(lo), double(hi), double(c)));
  const int k = r.i(0, 9);
  const T b = T(r.i(-4, 4));
  T want = 1;
  for (int i = 0; i < k; ++i) want *= b;
  VP_REQUIRE(Power(b, k) == want && Pow2(b) == b * b, "power", fmt("%.9g^%d", double(b), k));
}

static void geometry(Rng& r) {
  const double a = r.d(-1000, 1000);
  VP_REQUIRE(std::fabs(DegToRad(a) - a / 180 * M_PI) < 1e-10 && std::fabs(RadToDeg(a) - a / M_PI * 180) < 1e-7, "degrees", fmt("%.9g", a));
  // distance to a line given by any non-zero direction
  auto vec3 = [&](double s) { return Eigen::Vector3d(r.d(-s, s), r.d(-s, s), r.d(-s, s)); };
  {
    Eigen::Vector3d o = vec3(50), dir = vec3(1);
    if (dir.norm() < 1e-2) dir = Eigen::Vector3d(0, 1, 0);
    dir.normalize();
    const double along = r.d(-60, 60);
    Eigen::Vector3d off = dir.cross(vec3(1));
    if (off.norm() > 1e-3) {
      off.normalize();
      const double dist = r.p(0.1) ? 0 : r.d(0, 30);
      const double len = r.p(0.3) ? 1.0 : std::pow(10., r.d(-2, 2));
      const double got = DistanceToLine<3>(o + along * dir + dist * off, o, dir * len);
      VP_REQUIRE(std::fabs(got - dist) < 1e-6 * (1 + len), "distance-to-line", fmt("%.9g instead of %.9g for a direction of length %.3g", got, dist, len));
      cover(fmt("line %d", int(std::log10(len) * 3)));
    }
    const double th = r.d(-4, 4), dist2 = r.d(0, 20), len2 = std::pow(10., r.d(-1, 1));
    Eigen::Vector2d o2(r.d(-9, 9), r.d(-9, 9)), d2(cos(th), sin(th)), n2(-sin(th), cos(th));
    const double got2 = DistanceToLine<2>(o2 + r.d(-20, 20) * d2 + dist2 * n2, o2, d2 * len2);
    VP_REQUIRE(std::fabs(got2 - dist2) < 1e-6, "distance-to-line", fmt("plane: %.9g instead of %.9g for a direction of length %.3g", got2, dist2, len2));
  }
  // plane fitting: centroid and least-squares direction
  {
    int n = r.p(0.3) ? r.i(2, 4) : r.i(3, 60);
    Eigen::Vector3d u = vec3(1).normalized(), w = u.cross(vec3(1));
    if (w.norm() < 1e-3) w = u.unitOrthogonal();
    w.normalize();
    Eigen::Vector3d nrm = u.cross(w), o = vec3(r.p(0.5) ? 2 : 80);
    const double flat = r.p(0.3) ? 0 : r.d(0, 0.2);
    std::vector<Eigen::Vector3d> p;
    std::vector<Eigen::Vector3f> pf;
    Eigen::Vector3d c = Eigen::Vector3d::Zero();
    for (int i = 0; i < n; ++i) {
      p.push_back(o + u * r.d(-5, 5) + w * r.d(-3, 3) + nrm * r.d(-flat, flat));
      pf.push_back(p.back().cast<float>());
      c += p.back() / n;
    }
    Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
    for (auto& x : p) cov += (x - c) * (x - c).transpose();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(cov);
    auto pl = PlaneFitting(p);
    VP_REQUIRE((pl.first - c).norm() < 1e-9, "plane-centroid", fmt("%d points", n));
    VP_REQUIRE(std::fabs(pl.second.norm() - 1) < 1e-9 && (pl.second.transpose() * cov * pl.second)(0) <= es.eigenvalues()[0] + 1e-8 * (1 + es.eigenvalues()[2]), "plane-normal",
               fmt("%d points, residual %.9g, best %.9g", n, (pl.second.transpose() * cov * pl.second)(0), es.eigenvalues()[0]));
    auto plf = PlaneFitting(pf);
    Eigen::Vector3d nf = plf.second.cast<double>();
    VP_REQUIRE((plf.first.cast<double>() - c).norm() < 1e-3 && std::fabs(nf.norm() - 1) < 1e-4 && (nf.transpose() * cov * nf)(0) <= es.eigenvalues()[0] + 2e-4 * (1 + es.eigenvalues()[2]),
               "plane-normal", fmt("float, %d points", n));
    cover(fmt("plane %d %d", std::min(n, 20), flat == 0));
  }
  // average of transforms turned about one axis
  {
    int n = r.i(1, 8);
    const double mid = r.p(0.4) ? M_PI * r.i(-1, 1) : r.d(-M_PI, M_PI), spread = r.p(0.2) ? 0 : r.d(0, 0.5);
    const bool two = n == 2;
    std::vector<M4<double>> v;
    std::vector<M4<float>> vf;
    double sum = 0;
    Eigen::Vector3d t(0, 0, 0);
    for (int i = 0; i < n; ++i) {
      const double off = r.d(-spread, spread);
      sum += off / n;
      M4<double> m = M4<double>::Identity();
      m.block<3, 3>(0, 0) = Rz(mid + off);
      Eigen::Vector3d x = vec3(40);
      m.block<3, 1>(0, 3) = x;
      t += x / n;
      v.push_back(m);
      vf.push_back(m.cast<float>());
    }
    const M4<double> avg = AverageTransforms(v);
    const Eigen::Matrix3d ar = avg.block<3, 3>(0, 0);
    const double tol = 1e-6 + (two || n == 1 ? 0 : spread * spread * spread);
    VP_REQUIRE(((avg.block<3, 1>(0, 3) - t).norm() < 1e-9 && (ar * ar.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9 && ar.determinant() > 0 && avg.row(3) == Eigen::RowVector4d(0, 0, 0, 1)), "average-translation", fmt("%d", n));
    VP_REQUIRE(ang(ar, Rz(mid + sum)) < tol, "average-rotation", fmt("%d headings around %.9g rad (spread %.3g): off by %.9g", n, mid, spread, ang(ar, Rz(mid + sum))));
    const M4<float> af = AverageTransforms(vf);
    VP_REQUIRE(((af.block<3, 1>(0, 3).cast<double>() - t).norm() < 1e-3 && ang(af.block<3, 3>(0, 0).cast<double>(), Rz(mid + sum)) < tol + 1e-4), "average-rotation", fmt("float: %d headings around %.9g rad", n, mid));
    cover(fmt("avg %d %d", n, int(mid * 3)));
  }
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long id, Rng& r) {
    for (int i = 0; i < 60; ++i) {
      rotations<double>(r, true);
      rotations<float>(r, false);
      scalars<double>(r, 1e-9);
      scalars<float>(r, 3e-5);
      geometry(r);
    }
    if (id == 0) sample("60 poses per case: matrix, angles, quaternion, six-vector and interpolation against hand-written rotations");
  });
}
