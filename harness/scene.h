// Artificial worlds made of boxes, seen by a rotating scanner.
#ifndef VP_SCENE_H
#define VP_SCENE_H
#include "gen.h"

namespace vp {

struct Box {
  Eigen::Vector3d lo, hi;
};

struct World {
  std::vector<Box> boxes;
  bool ground = true;

  // distance along the ray, negative when nothing is hit
  double cast(const Eigen::Vector3d& o, const Eigen::Vector3d& d, double far) const {
    double best = far;
    bool hit = false;
    if (ground && d[2] < -1e-9 && o[2] > 0) {
      const double t = -o[2] / d[2];
      if (t < best) best = t, hit = true;
    }
    for (auto& b : boxes) {
      double t0 = 0, t1 = best;
      for (int k = 0; k < 3 && t0 <= t1; ++k) {
        if (std::fabs(d[k]) < 1e-12) {
          if (o[k] < b.lo[k] || o[k] > b.hi[k]) t1 = -1;
          continue;
        }
        double a = (b.lo[k] - o[k]) / d[k], c = (b.hi[k] - o[k]) / d[k];
        if (a > c) std::swap(a, c);
        t0 = std::max(t0, a);
        t1 = std::min(t1, c);
      }
      if (t0 <= t1 && t0 > 1e-6 && t0 < best) best = t0, hit = true;
    }
    return hit ? best : -1;
  }

  // distance of a point to the nearest surface
  double off(const Eigen::Vector3d& p) const {
    double best = ground ? std::fabs(p[2]) : 1e300;
    for (auto& b : boxes) {
      const Eigen::Vector3d q = p.cwiseMax(b.lo).cwiseMin(b.hi);
      double d = (p - q).norm();
      if (d == 0) d = std::min((p - b.lo).minCoeff(), (b.hi - p).minCoeff());
      best = std::min(best, d);
    }
    return best;
  }

  bool free(const Eigen::Vector3d& p, double r) const {
    for (auto& b : boxes)
      if ((p - p.cwiseMax(b.lo).cwiseMin(b.hi)).norm() < r) return false;
    return true;
  }
};

// Walls around a rectangle plus furniture; keep(x, y) tells where the path is.
inline World make_world(Rng& r, double half_x, double half_y, int things, const std::function<bool(double, double)>& keep_free) {
  World w;
  const double h = r.d(4, 8);
  w.boxes.push_back({{-half_x - 0.5, -half_y - 0.5, 0}, {-half_x, half_y + 0.5, h}});
  w.boxes.push_back({{half_x, -half_y - 0.5, 0}, {half_x + 0.5, half_y + 0.5, h}});
  w.boxes.push_back({{-half_x, -half_y - 0.5, 0}, {half_x, -half_y, h}});
  w.boxes.push_back({{-half_x, half_y, 0}, {half_x, half_y + 0.5, h}});
  for (int i = 0, tries = 0; i < things && tries < 50 * things; ++tries) {
    const double x = r.d(-half_x, half_x), y = r.d(-half_y, half_y), sx = r.d(0.4, 3), sy = r.d(0.4, 3);
    bool bad = false;
    for (double u = -1; u <= 1; u += 0.5)
      for (double v = -1; v <= 1; v += 0.5) bad = bad || keep_free(x + u * sx / 2, y + v * sy / 2);
    if (bad) continue;
    w.boxes.push_back({{x - sx / 2, y - sy / 2, 0}, {x + sx / 2, y + sy / 2, r.d(0.8, 5)}});
    ++i;
  }
  return w;
}

struct ScanSpec {
  int rings = 16, columns = 180;
  double up = 0.35, down = -0.45, far = 60, noise = 0;
};

// Points in the frame of the sensor, in the order they are measured.
inline std::vector<Eigen::Vector3d> scan_world(Rng& r, const World& w, const Eigen::Matrix4d& pose, const ScanSpec& s) {
  std::vector<Eigen::Vector3d> out;
  const Eigen::Matrix3d R = pose.block<3, 3>(0, 0);
  const Eigen::Vector3d o = pose.block<3, 1>(0, 3);
  const double turn = r.d(0, 1);
  for (int c = 0; c < s.columns; ++c)
    for (int k = 0; k < s.rings; ++k) {
      const double az = 2 * M_PI * (c + turn) / s.columns, el = s.down + (s.up - s.down) * k / std::max(1, s.rings - 1);
      const Eigen::Vector3d d(std::cos(el) * std::cos(az), std::cos(el) * std::sin(az), std::sin(el));
      const double t = w.cast(o, R * d, s.far);
      if (t > 0) out.push_back(d * (t + (s.noise > 0 ? r.gauss() * s.noise : 0)));
    }
  return out;
}

inline Eigen::Matrix4d pose_of(double x, double y, double z, double yaw, double pitch = 0, double roll = 0) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX())).toRotationMatrix();
  m(0, 3) = x;
  m(1, 3) = y;
  m(2, 3) = z;
  return m;
}

}  // namespace vp
#endif
