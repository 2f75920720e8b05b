// Shared generators for clouds and poses.
#ifndef VP_GEN_H_
#define VP_GEN_H_

#include <limits>
#include <vector>

#include "Eigen/Eigen"
#include "builder/data/cloud_types.h"
#include "vp.h"

namespace vp {

using static_map::SimpleTime;
using static_map::data::InnerCloudType;
using static_map::data::InnerPointType;

inline SimpleTime make_time(uint32_t s, uint32_t ns) {
  return SimpleTime(s, ns);
}
inline SimpleTime rand_time(Rng& r) {
  switch (r.i(0, 4)) {
    case 0: return make_time(0, r.i(0, 999999999));
    case 1: return make_time(r.i(0, 5), r.i(0, 999999999));
    case 2: return make_time(1500000000u + r.i(0, 200000000), r.i(0, 999999999));
    case 3: return make_time(r.i(0, 4000000000ll), r.i(0, 1) ? 0 : 999999999);
    default: return make_time(r.i(0, 4294967000ll), r.i(0, 999999999));
  }
}
inline float any_float(Rng& r) {
  if (r.p(0.6)) return static_cast<float>(r.d(-100, 100));
  switch (r.i(0, 7)) {
    case 0: return 0.f;
    case 1: return -0.f;
    case 2: return std::numeric_limits<float>::infinity();
    case 3: return std::numeric_limits<float>::quiet_NaN();
    case 4: return std::numeric_limits<float>::denorm_min();
    case 5: return std::numeric_limits<float>::max();
    case 6: return -std::numeric_limits<float>::max();
    default: {
      uint32_t b = static_cast<uint32_t>(r.u64());
      float f;
      memcpy(&f, &b, 4);
      return f;
    }
  }
}
inline InnerPointType pt(float x, float y, float z, float inten = 0.f, float factor = 0.f) {
  InnerPointType p;
  p.x = x; p.y = y; p.z = z; p.intensity = inten; p.factor = factor;
  return p;
}
inline bool same_bits(const float a, const float b) { return memcmp(&a, &b, 4) == 0; }
inline bool same_point(const InnerPointType& a, const InnerPointType& b) {
  return same_bits(a.x, b.x) && same_bits(a.y, b.y) && same_bits(a.z, b.z) &&
         same_bits(a.intensity, b.intensity) && same_bits(a.factor, b.factor);
}
inline bool same_xyzi(const InnerPointType& a, const InnerPointType& b) {
  return same_bits(a.x, b.x) && same_bits(a.y, b.y) && same_bits(a.z, b.z) &&
         same_bits(a.intensity, b.intensity);
}
inline bool same_points(const std::vector<InnerPointType>& a, const std::vector<InnerPointType>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_point(a[i], b[i])) return false;
  return true;
}
inline bool same_stamp(const SimpleTime& a, const SimpleTime& b) {
  return a.ToNanoSec() == b.ToNanoSec();
}
inline std::string show(const InnerPointType& p) {
  return fmt("(%g %g %g i=%g f=%g)", p.x, p.y, p.z, p.intensity, p.factor);
}
// proper rotation, uniformly random axis
inline Eigen::Matrix3d rand_rot(Rng& r, double max_angle = M_PI) {
  Eigen::Vector3d a(r.gauss(), r.gauss(), r.gauss());
  if (a.norm() < 1e-6) a = Eigen::Vector3d::UnitZ();
  a.normalize();
  return Eigen::AngleAxisd(r.d(-max_angle, max_angle), a).toRotationMatrix();
}
inline Eigen::Matrix4d rand_pose(Rng& r, double t = 10, double max_angle = M_PI) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = rand_rot(r, max_angle);
  m.block<3, 1>(0, 3) = Eigen::Vector3d(r.d(-t, t), r.d(-t, t), r.d(-t, t));
  // special motions are motions as well
  switch (r.i(0, 23)) {
    case 0: case 1: m.block<3, 1>(0, 3).setZero(); break;      // turning on the spot
    case 2: case 3: m.block<3, 3>(0, 0).setIdentity(); break;  // shifting
    case 4: m.block<3, 3>(0, 0) = Eigen::AngleAxisd(r.d(-max_angle, max_angle), Eigen::Vector3d::Unit(r.i(0, 2))).toRotationMatrix(); break;
    case 5: m.block<3, 1>(0, 3) = Eigen::Vector3d::Unit(r.i(0, 2)) * r.d(-t, t); break;
    default: break;
  }
  return m;
}
inline double rot_angle(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) {
  Eigen::Matrix3d d = a.transpose() * b;
  // robust for small angles
  Eigen::Vector3d v(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
  return std::atan2(v.norm() * 0.5, (d.trace() - 1) * 0.5);
}
inline bool is_rigid(const Eigen::Matrix4d& m, double tol = 1e-6) {
  if (!m.allFinite()) return false;
  Eigen::Matrix3d r = m.block<3, 3>(0, 0);
  if ((r * r.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() > tol) return false;
  if (std::fabs(r.determinant() - 1) > tol) return false;
  Eigen::RowVector4d last(0, 0, 0, 1);
  return (m.row(3) - last).cwiseAbs().maxCoeff() < 1e-9;
}
inline InnerCloudType::Ptr rand_cloud(Rng& r, int n, double range = 20) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000 + r.i(0, 1000), r.i(0, 999999999));
  for (int i = 0; i < n; ++i)
    c->points.push_back(pt(r.d(-range, range), r.d(-range, range), r.d(-range, range), r.i(0, 255), r.d(0, 1)));
  return c;
}

}  // namespace vp

#endif  // VP_GEN_H_
