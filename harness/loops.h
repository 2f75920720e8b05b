// Trajectories of small submaps and a scripted matcher for them.
#ifndef VP_LOOPS_H_
#define VP_LOOPS_H_

#include <mutex>

#include "builder/submap.h"
#include "gen.h"
#include "standin_icp.h"

namespace vp {

inline Eigen::Matrix4d flat_pose(double x, double y, double z, double yaw) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(x, y, z);
  return m;
}

inline Eigen::Matrix4d small_motion(Rng& r, double t, double a) {
  Eigen::Vector3d ax(r.gauss(), r.gauss(), r.gauss());
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(r.d(-a, a), ax.normalized()).toRotationMatrix();
  m.block<3, 1>(0, 3) = Eigen::Vector3d(r.d(-t, t), r.d(-t, t), r.d(-t, t));
  return m;
}

enum PathKind { kLine, kCircle, kThereAndBack, kEight, kWalk, kSpiralUp, kPathKinds };

inline const char* path_name(int k) {
  static const char* n[] = {"line", "circle", "there and back", "eight", "walk", "spiral"};
  return n[k];
}

// n poses, about `step` apart
inline std::vector<Eigen::Matrix4d> make_path(Rng& r, int kind, int n, double step) {
  std::vector<Eigen::Matrix4d> p;
  const double turn = r.p(0.5) ? 1 : -1;
  const double start = r.d(-M_PI, M_PI);
  double x = r.d(-100, 100), y = r.d(-100, 100), z = r.d(-3, 3), yaw = start;
  const int lap = std::max(8, int(n * r.d(0.5, 0.8)));
  const double climb = (r.p(0.5) ? 1 : -1) * r.d(2, 8);  // per lap of the spiral
  for (int i = 0; i < n; ++i) {
    p.push_back(flat_pose(x, y, z, yaw));
    double dyaw = 0, dz = 0;
    switch (kind) {
      case kLine: dyaw = r.d(-0.01, 0.01); break;
      case kCircle: dyaw = turn * 2 * M_PI / lap; break;
      case kThereAndBack: if (i == n / 2) { yaw += M_PI; dyaw = 0; } break;
      case kEight: dyaw = (i / (lap / 2 + 1)) % 2 ? -turn * 4 * M_PI / lap : turn * 4 * M_PI / lap; break;
      case kWalk: dyaw = r.gauss() * 0.8; break;
      default: dyaw = turn * 2 * M_PI / lap; dz = climb / lap;
    }
    yaw += dyaw / 2;
    x += step * std::cos(yaw);
    y += step * std::sin(yaw);
    z += dz;
    yaw += dyaw / 2;
  }
  return p;
}

inline std::shared_ptr<static_map::Submap> small_submap(Rng& r, int index, const Eigen::Matrix4d& pose) {
  static_map::SubmapOptions o;
  o.frame_count = 1;
  o.enable_check = false;
  std::shared_ptr<static_map::Submap> m(new static_map::Submap(o));
  m->SetId(static_map::SubmapId{0, index});
  std::shared_ptr<static_map::Frame> f(new static_map::Frame);
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000 + index, 0);
  for (int i = 0; i < 3; ++i) c->points.push_back(pt(r.d(-5, 5), r.d(-5, 5), r.d(-5, 5), 1));
  f->SetCloud(static_map::data::InnerPointCloudData::Ptr(new static_map::data::InnerPointCloudData(c)));
  f->SetGlobalPose(pose);
  m->InsertFrame(f);
  m->SetGlobalPose(pose);
  return m;
}

// What the scripted matcher was asked and what it said.
struct Answer {
  bool ok;
  IcpAnswer a;
  Eigen::Matrix4d guess;
};
struct Script {
  std::map<const void*, int> index;             // by cloud
  std::map<std::pair<int, int>, Answer> said;   // (target, source)
  bool foreign = false;                         // asked about clouds of no submap
  std::mutex m;
  void know(const std::shared_ptr<static_map::Submap>& s, int i) { index[s->Cloud().get()] = i; }
  void install(std::function<Answer(int target, int source)> f) {
    icp_script() = [this, f](const IcpQuestion& q, IcpAnswer* a) {
      int t, s;
      {
        std::lock_guard<std::mutex> l(m);
        auto ti = index.find(q.target.get()), si = index.find(q.source.get());
        if (ti == index.end() || si == index.end()) { foreign = true; return false; }
        t = ti->second;
        s = si->second;
      }
      Answer x = f(t, s);
      x.guess = q.guess;
      *a = x.a;
      std::lock_guard<std::mutex> l(m);
      said[{t, s}] = x;
      return x.ok;
    };
  }
};

}  // namespace vp
#endif  // VP_LOOPS_H_
