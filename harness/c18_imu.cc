// C18: inertial orientation tracking and prediction with it.
#include "builder/imu_tracker.h"
#include "builder/pose_extrapolator.h"
#include "gen.h"

using namespace vp;
using static_map::ImuTracker;
using static_map::PoseExtrapolator;
using static_map::data::ImuMsg;
using static_map::data::OdomMsg;
using Eigen::Matrix4d;
using Eigen::Quaterniond;
using Eigen::Vector3d;

namespace {
const int64_t ms = 1000000;
SimpleTime T(int64_t ns) { return SimpleTime::FromNanoSec(ns); }

// turn by one axis only: rotation vector and Euler angles then agree
struct Filter {
  double tc;
  int64_t now, last = -1;
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  Vector3d g = Vector3d::UnitZ(), w = Vector3d::Zero();
  void advance(int64_t t) {
    double dt = (t - now) * 1e-9;
    double a = w.norm() * dt;
    Eigen::Matrix3d d = a == 0 ? Eigen::Matrix3d::Identity().eval() : Eigen::AngleAxisd(a, w.normalized()).toRotationMatrix();
    R = R * d;
    g = d.transpose() * g;
    now = t;
  }
  void acc(const Vector3d& a) {
    double k = last < 0 ? 1 : 1 - std::exp(-(now - last) * 1e-9 / tc);
    last = now;
    Vector3d ng = (1 - k) * g + k * a;
    if (!(ng.norm() > 1e-6)) return;
    g = ng;
    // smallest rotation that brings the smoothed acceleration straight up
    Vector3d up = R.transpose() * Vector3d::UnitZ(), u = g.normalized();
    Vector3d ax = u.cross(up);
    double s = ax.norm(), c = u.dot(up);
    if (s > 1e-12) R = R * Eigen::AngleAxisd(std::atan2(s, c), ax / s).toRotationMatrix();
  }
};

Vector3d single_axis(Rng& r, double m) {
  Vector3d v = Vector3d::Zero();
  v[r.i(0, 2)] = r.p(0.2) ? 0 : r.d(-m, m);
  return v;
}
bool near_flip(const Filter& f, const Vector3d& a) {
  Vector3d up = f.R.transpose() * Vector3d::UnitZ();
  return a.norm() < 0.5 || a.normalized().dot(up) < -0.9;
}

void tracker(Rng& r) {
  const double tc = r.p(0.5) ? 10 : r.d(0.05, 20);
  int64_t t = (1 + r.i(0, 2000000000)) * 1000 * ms;
  ImuTracker k(tc, T(t));
  Filter f{tc, t};
  const int n = r.i(1, 200);
  const Eigen::Matrix3d tilt = rand_rot(r, 1.0);
  const double noise = r.p(0.5) ? 0 : 2;
  const std::string d = fmt("time constant %.2f, %d samples", tc, n);
  for (int i = 0; i < n; ++i) {
    if (!r.p(0.05)) t += r.i(1, 50) * ms;
    k.Advance(T(t));
    f.advance(t);
    VP_REQUIRE(same_stamp(k.time(), T(t)), "tracker-time", d);
    if (r.p(0.95)) {
      Vector3d a = tilt.transpose() * Vector3d(0, 0, 9.8) + noise * Vector3d(r.gauss(), r.gauss(), r.gauss());
      if (r.p(0.01)) a.setZero();
      if (!near_flip(f, (1 - 0.5) * f.g + 0.5 * a) || a.isZero()) {
        k.AddImuLinearAccelerationObservation(a);
        f.acc(a);
        const double z = (k.orientation() * f.g.normalized()).z();
        VP_REQUIRE(z > 1 - 1e-7, "acceleration-not-up", d + fmt(" sample %d: cos %.9f", i, z));
      }
    }
    if (r.p(0.9)) {
      Vector3d w = single_axis(r, 2);
      k.AddImuAngularVelocityObservation(w);
      f.w = w;
    }
    VP_REQUIRE(std::fabs(k.orientation().norm() - 1) < 1e-9, "not-unit", d);
    double e = rot_angle(k.orientation().toRotationMatrix(), f.R);
    VP_REQUIRE(e < 1e-6, "orientation", d + fmt(" sample %d off by %g rad", i, e));
    if (!(e < 1e-6)) return;
    cover(fmt("tracker %d %d %d", std::min(i, 5), int(std::min(e, 3.0)), noise > 0));
  }
}

void static_tilt(Rng& r) {
  const double tc = r.d(0.1, 5);
  int64_t t = 1000 * 1000 * ms;
  ImuTracker k(tc, T(t));
  Eigen::Matrix3d tilt = rand_rot(r, 1.3);
  // first something else, then the tilt for fifteen time constants
  k.AddImuLinearAccelerationObservation(Vector3d(r.d(-5, 5), r.d(-5, 5), 9.8));
  for (double s = 0; s < 15 * tc; s += tc / 10) {
    t += int64_t(tc * 1e8);
    k.Advance(T(t));
    k.AddImuLinearAccelerationObservation(tilt.transpose() * Vector3d(0, 0, 9.81));
  }
  const Vector3d up = k.orientation() * (tilt.transpose() * Vector3d::UnitZ());
  VP_REQUIRE(up.z() > 1 - 1e-6, "tilt-not-reached", fmt("time constant %.2f: cos %.9f", tc, up.z()));
  // constant turn about the vertical
  const double rate = r.d(-1.5, 1.5);
  ImuTracker y(tc, T(t));
  y.AddImuLinearAccelerationObservation(Vector3d(0, 0, 9.81));
  y.AddImuAngularVelocityObservation(Vector3d(0, 0, rate));
  double total = 0;
  for (int i = 0; i < 100; ++i) {
    int64_t dt = r.i(1, 40) * ms;
    t += dt;
    total += dt * 1e-9 * rate;
    y.Advance(T(t));
    y.AddImuLinearAccelerationObservation(Vector3d(0, 0, 9.81));
  }
  double e = rot_angle(y.orientation().toRotationMatrix(), Eigen::AngleAxisd(total, Vector3d::UnitZ()).toRotationMatrix());
  VP_REQUIRE(e < 1e-6, "heading", fmt("turn of %.3f rad off by %g", total, e));
  cover(fmt("static %d", int(tc)));
}

ImuMsg msg(int64_t t, const Vector3d& a, const Vector3d& w) {
  ImuMsg m;
  m.header.seq = 0;
  m.header.stamp = T(t);
  m.orientation.setIdentity();
  m.linear_acceleration = a;
  m.angular_velocity = w;
  m.roll = m.pitch = m.yaw = 0;
  return m;
}

// poses, samples and queries in time order
void predict(Rng& r) {
  const double tc = r.p(0.5) ? 10 : r.d(0.1, 20);
  int64_t t = (1 + r.i(0, 2000000000)) * 1000 * ms;
  auto acc = [&] { return Vector3d(r.d(-2, 2), r.d(-2, 2), 9.8 + r.d(-1, 1)); };
  Vector3d a0 = acc(), w0 = single_axis(r, 1);
  if (r.p(0.02)) a0.setZero();
  auto ex = PoseExtrapolator::InitializeWithImu(T(r.i(50, 1000) * ms), tc, msg(t, a0, w0));
  std::vector<std::pair<int64_t, std::pair<Vector3d, Vector3d>>> s{{t, {a0, w0}}};
  Filter at_start{tc, t};
  at_start.acc(a0);
  at_start.w = w0;
  int64_t pose_t = t, last_q = t;
  Matrix4d pose = Matrix4d::Identity();
  pose.block<3, 3>(0, 0) = at_start.R;
  // state of the filter when it has consumed all samples before 'upto'
  auto track = [&](int64_t upto) {
    Filter f = at_start;
    for (auto& x : s) {
      if (x.first >= upto) break;
      f.advance(x.first);
      if (&x != &s[0]) f.acc(x.second.first);
      f.w = x.second.second;
    }
    f.advance(upto);
    return f;
  };
  const std::string d = fmt("inertial mode, time constant %.2f", tc);
  VP_REQUIRE(rot_angle(ex->ExtrapolatePose(T(t)).block<3, 3>(0, 0), at_start.R) < 1e-6, "initial-pose", d);
  const int n = r.i(1, 120);
  int poses = 0, queries = 0;
  for (int i = 0; i < n; ++i) {
    t += r.p(0.1) ? 0 : r.i(1, 60) * ms;
    int what = r.i(0, 9);
    if (what < 6) {
      Vector3d a = acc(), w = single_axis(r, 1.5);
      if (s.back().first == t) continue;
      ex->AddImuData(msg(t, a, w));
      s.push_back({t, {a, w}});
    } else if (what < 8) {
      // poses may lag behind the samples
      int64_t pt = r.p(0.5) ? t : std::max(pose_t, t - r.i(0, 100) * ms);
      if (pt <= pose_t) continue;
      pose = rand_pose(r, 10);
      ex->AddPose(T(pt), pose);
      pose_t = pt;
      last_q = pt;
      ++poses;
    } else {
      int64_t q = std::max(t, last_q);
      last_q = q;
      Matrix4d got = ex->ExtrapolatePose(T(q));
      ++queries;
      Eigen::Matrix3d want = pose.block<3, 3>(0, 0) * (track(pose_t).R.transpose() * track(q).R);
      VP_REQUIRE(is_rigid(got, 1e-6), "not-rigid", d);
      double e = rot_angle(got.block<3, 3>(0, 0), want);
      VP_REQUIRE(e < 1e-5, "wrong-predicted-rotation", d + fmt(", step %d after %d poses, %.3f s ahead: off by %g rad", i, poses, (q - pose_t) * 1e-9, e));
      if (!(e < 1e-5)) return;
      double g = rot_angle(ex->EstimateGravityOrientation(T(q)).toRotationMatrix(), track(q).R);
      VP_REQUIRE(g < 1e-5, "wrong-gravity-orientation", d + fmt(" off by %g", g));
      cover(fmt("predict %d %d %d", std::min(poses, 4), std::min(queries, 4), q == pose_t));
    }
  }
  count("predictions", queries);
}

// odometry gives the velocity when it is there
void odometry(Rng& r) {
  int64_t t = (1 + r.i(0, 1000)) * 1000 * ms;
  PoseExtrapolator ex(T(100 * ms), 10);
  Matrix4d pose = rand_pose(r, 10);
  ex.AddPose(T(t), pose);
  Vector3d v(r.d(-10, 10), r.d(-3, 3), r.d(-1, 1));
  Eigen::Matrix3d odom_frame = rand_rot(r);
  Vector3d odom_pos(r.d(-100, 100), r.d(-100, 100), 0);
  int64_t to = t;
  const int n = r.i(2, 6);
  for (int i = 0; i < n; ++i) {
    to += r.i(5, 30) * ms;
    OdomMsg o;
    o.header.stamp = T(to);
    o.pose.pose.orientation = Quaterniond(odom_frame);
    o.pose.pose.position = odom_pos + odom_frame * v * ((to - t) * 1e-9);
    ex.AddOdometryData(o);
  }
  int64_t q = to + r.i(0, 200) * ms;
  Matrix4d got = ex.ExtrapolatePose(T(q));
  Vector3d want = pose.block<3, 1>(0, 3) + pose.block<3, 3>(0, 0) * v * ((q - t) * 1e-9);
  double e = (got.block<3, 1>(0, 3) - want).norm();
  VP_REQUIRE(is_rigid(got, 1e-6) && e < 1e-6, "wrong-odometry-prediction", fmt("%d odometry messages, %.3f s ahead: off by %g m", n, (q - t) * 1e-9, e));
  VP_REQUIRE(rot_angle(got.block<3, 3>(0, 0), pose.block<3, 3>(0, 0)) < 1e-6, "rotation-without-turn", "odometry");
  cover(fmt("odometry %d", n));
}

void one(long id, Rng& r) {
  switch (id % 5) {
    case 0: case 1: tracker(r); break;
    case 2: static_tilt(r); break;
    case 3: predict(r); predict(r); break;
    default: odometry(r);
  }
  if (id < 5) sample(fmt("scenario %ld done", id % 5));
}
}  // namespace

int main(int argc, char** argv) { return run(argc, argv, one); }
