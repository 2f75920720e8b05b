// C17: pose prediction from poses only.
#include "builder/pose_extrapolator.h"
#include "gen.h"

using namespace vp;
using static_map::PoseExtrapolator;
using Eigen::Matrix4d;
using Eigen::Vector3d;

namespace {
struct Euler {
  double r, p, y;
};
Euler euler(const Eigen::Matrix3d& m) {
  // z-y-x convention
  return {std::atan2(m(2, 1), m(2, 2)), std::asin(std::max(-1.0, std::min(1.0, -m(2, 0)))), std::atan2(m(1, 0), m(0, 0))};
}
Eigen::Matrix3d rot(double r, double p, double y) {
  return (Eigen::AngleAxisd(y, Vector3d::UnitZ()) * Eigen::AngleAxisd(p, Vector3d::UnitY()) * Eigen::AngleAxisd(r, Vector3d::UnitX())).toRotationMatrix();
}
// what the statement says, written down from scratch
struct Model {
  int64_t window;
  std::vector<std::pair<int64_t, Matrix4d>> all;
  Vector3d v = Vector3d::Zero(), w = Vector3d::Zero();
  void add(int64_t t, const Matrix4d& p) {
    all.push_back({t, p});
    // newest pose that is at least one window older, or the first one
    size_t k = 0;
    for (size_t i = 0; i + 1 < all.size(); ++i)
      if (all[i].first <= t - window) k = i;
    if (all.size() < 2 || t - all[k].first < window) return;
    double dt = (t - all[k].first) * 1e-9;
    v = (p.block<3, 1>(0, 3) - all[k].second.block<3, 1>(0, 3)) / dt;
    Euler e = euler(all[k].second.block<3, 3>(0, 0).transpose() * p.block<3, 3>(0, 0));
    w = Vector3d(e.r, e.p, e.y) / dt;
  }
  Matrix4d at(int64_t t) const {
    double dt = (t - all.back().first) * 1e-9;
    Matrix4d m = all.back().second;
    m.block<3, 1>(0, 3) += v * dt;
    m.block<3, 3>(0, 0) = all.back().second.block<3, 3>(0, 0) * rot(w[0] * dt, w[1] * dt, w[2] * dt);
    return m;
  }
};
double dist(const Matrix4d& a, const Matrix4d& b) {
  if (!a.allFinite() || !b.allFinite()) return 1e9;
  return (a.block<3, 1>(0, 3) - b.block<3, 1>(0, 3)).norm() + rot_angle(a.block<3, 3>(0, 0), b.block<3, 3>(0, 0));
}
SimpleTime T(int64_t ns) { return SimpleTime::FromNanoSec(ns); }

void one(long id, Rng& r) {
  const int64_t ms = 1000000;
  Model m;
  m.window = r.p(0.3) ? r.i(1, 50) * ms : r.i(50, 1500) * ms;
  auto ex = PoseExtrapolator::InitialSimpleCTRV(T(m.window));
  int64_t t = (10 + r.i(0, 2000000000)) * 1000 * ms + r.i(0, 999999999);
  const int kind = id % 3;  // 0: constant motion, 1: wandering, 2: anything
  // constant motion: start pose, velocity and turn about the vertical
  Matrix4d start = rand_pose(r, 100);
  Vector3d vel(r.d(-20, 20), r.d(-20, 20), r.d(-2, 2));
  double yaw_rate = r.p(0.2) ? 0 : r.d(-1, 1);
  const int64_t t0 = t;
  auto truth = [&](int64_t x) {
    Matrix4d p = start;
    double s = (x - t0) * 1e-9;
    p.block<3, 1>(0, 3) += vel * s;
    p.block<3, 3>(0, 0) = start.block<3, 3>(0, 0) * rot(0, 0, yaw_rate * s);
    return p;
  };
  Matrix4d cur = start;
  const std::string d = fmt("kind %d window %.3fs", kind, m.window * 1e-9);
  VP_REQUIRE(same_stamp(ex->GetLastPoseTime(), SimpleTime()), "last-pose-time", d + " before the first pose");
  const bool rough = r.p(0.4);
  if (rough && r.p(0.5)) { m.v = vel; ex->InitRoughLinearVelocity(vel); }
  const int n = r.i(1, 40);
  for (int i = 0; i < n; ++i) {
    Matrix4d p;
    if (kind == 0) p = truth(t);
    else if (kind == 1) {
      cur.block<3, 3>(0, 0) = cur.block<3, 3>(0, 0) * rot(r.d(-0.1, 0.1), r.d(-0.1, 0.1), r.d(-0.3, 0.3));
      cur.block<3, 1>(0, 3) += Vector3d(r.d(-1, 1), r.d(-1, 1), r.d(-0.1, 0.1));
      p = cur;
    } else p = rand_pose(r, 50, 1.2);
    ex->AddPose(T(t), p);
    m.add(t, p);
    if (i == 0 && rough && m.v.isZero()) { if (r.p(0.3)) ex->ExtrapolatePose(T(t + 50 * ms)); m.v = vel; ex->InitRoughLinearVelocity(vel); }
    VP_REQUIRE(same_stamp(ex->GetLastPoseTime(), T(t)), "last-pose-time", d);
    // queries, in any order
    int64_t last_q = t;
    const int nq = r.i(0, 5);
    std::vector<std::pair<int64_t, Matrix4d>> asked;
    for (int q = 0; q < nq; ++q) {
      int64_t x = r.p(0.2) ? t : r.p(0.5) ? t + r.i(1, 300) * ms : t + r.i(2, 3000000000ll);
      if (!asked.empty() && r.p(0.3)) x = asked[r.i(0, asked.size() - 1)].first;
      Matrix4d got = ex->ExtrapolatePose(T(x));
      VP_REQUIRE(is_rigid(got, 1e-6), "not-rigid", d + fmt(" pose %d", i));
      const double s = (x - t) * 1e-9;
      double e = dist(got, m.at(x));
      VP_REQUIRE(e < 1e-6 * (1 + m.v.norm() * s + 100), x == t ? "newest-pose-not-returned" : "wrong-prediction", d + fmt(" pose %d of %d, %.3f s ahead, off by %g", i, n, s, e));
      for (auto& a : asked)
        if (a.first == x) VP_REQUIRE(dist(a.second, got) < 1e-9, "repeated-query-differs", d);
      asked.push_back({x, got});
      last_q = std::max(last_q, x);
      // constant motion is continued once a window has been seen
      if (kind == 0 && t - t0 >= m.window && std::fabs(yaw_rate) * m.window * 1e-9 < 2) {
        const bool unwrapped = std::fabs(yaw_rate) * (t - t0) * 1e-9 < 3;
        if (unwrapped) {
          VP_REQUIRE(dist(got, truth(x)) < 1e-6 * (100 + vel.norm() * s), "constant-motion-not-continued", d + fmt(" off by %g", dist(got, truth(x))));
          cover("constant");
        }
      }
      cover(fmt("%d %d %d %d", kind, std::min(i, 3), int(t - t0 >= m.window), x == t));
    }
    // the next pose often arrives for the time that was just predicted
    if (nq && r.p(0.4) && last_q > t) t = last_q;
    else if (kind != 0 && r.p(0.05)) t = t;  // repeated stamp
    else t += r.p(0.7) ? r.i(20, 200) * ms : r.i(2, 2000000000ll);
  }
  VP_REQUIRE(ex->EstimateGravityOrientation(T(t)).angularDistance(Eigen::Quaterniond::Identity()) < 1e-12, "gravity-without-imu", d);
  if (id < 3) sample(d + fmt(", %d poses", n));
}
}  // namespace

int main(int argc, char** argv) { return run(argc, argv, one); }
