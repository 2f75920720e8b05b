// C02: a submap is its frames, rigidly placed.
#include <array>

#include "builder/submap.h"
#include "common/math.h"
#include "gen.h"

using namespace vp;
using static_map::Frame;
using static_map::FrameId;
using static_map::Submap;
using static_map::SubmapId;
using static_map::SubmapOptions;
using static_map::data::InnerPointCloudData;

typedef std::array<long, 3> Cell;

static double pose_gap(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a - b).cwiseAbs().maxCoeff(); }

struct In {
  InnerCloudType cloud;
  Eigen::Matrix4d pose;
  SimpleTime stamp;
};

static std::shared_ptr<Frame> frame(const In& in) {
  std::shared_ptr<Frame> f(new Frame);
  InnerCloudType::Ptr c(new InnerCloudType);
  *c = in.cloud;
  f->SetCloud(InnerPointCloudData::Ptr(new InnerPointCloudData(c)));
  f->SetGlobalPose(in.pose);
  f->SetTimeStamp(in.stamp);
  return f;
}

static std::vector<In> inputs(Rng& r, int n, double spread, double range) {
  std::vector<In> v;
  Eigen::Matrix4d pose = rand_pose(r, spread);
  SimpleTime t = make_time(1000 + r.i(0, 100000), r.i(0, 999999999));
  for (int i = 0; i < n; ++i) {
    In in;
    in.cloud = *rand_cloud(r, r.p(0.2) ? r.i(1, 3) : r.i(4, 120), range);
    in.cloud.stamp = t;
    in.stamp = r.p(0.8) ? t : make_time(5000 + r.i(0, 10), r.i(0, 999999999));
    in.pose = pose;
    v.push_back(in);
    pose = r.p(0.1) ? pose : Eigen::Matrix4d(pose * rand_pose(r, r.p(0.5) ? 0.5 : 5, r.p(0.5) ? 0.1 : M_PI));
    t = t + SimpleTime::FromSec(r.d(0.01, 1));
  }
  return v;
}

static Eigen::Matrix4d inv(const Eigen::Matrix4d& m) {
  Eigen::Matrix4d o = Eigen::Matrix4d::Identity();
  o.block<3, 3>(0, 0) = m.block<3, 3>(0, 0).transpose();
  o.block<3, 1>(0, 3) = -o.block<3, 3>(0, 0) * m.block<3, 1>(0, 3);
  return o;
}

struct P5 { double v[5]; double tol; };

static std::vector<P5> expected_union(const std::vector<In>& in) {
  std::vector<P5> out;
  for (auto& f : in) {
    const Eigen::Matrix4d rel = inv(in[0].pose) * f.pose;
    const double base = rel.block<3, 1>(0, 3).cwiseAbs().maxCoeff() + in[0].pose.block<3, 1>(0, 3).cwiseAbs().maxCoeff() * 1e-6;
    for (auto& p : f.cloud.points) {
      Eigen::Vector3d x = rel.block<3, 3>(0, 0) * Eigen::Vector3d(p.x, p.y, p.z) + rel.block<3, 1>(0, 3);
      P5 q = {{x[0], x[1], x[2], p.intensity, p.factor}, (std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z) + base) * 5e-7 + 1e-6};
      out.push_back(q);
    }
  }
  return out;
}

static bool close_to(const InnerPointType& p, const P5& q) {
  return std::fabs(p.x - q.v[0]) <= q.tol && std::fabs(p.y - q.v[1]) <= q.tol && std::fabs(p.z - q.v[2]) <= q.tol &&
         same_bits(p.intensity, q.v[3]) && same_bits(p.factor, q.v[4]);
}

// every expected point once; frames in any order, points of the result in any order
static bool is_union(const std::vector<InnerPointType>& got, const std::vector<P5>& want, std::string* why) {
  if (got.size() != want.size()) { *why = fmt(" %zu points instead of %zu", got.size(), want.size()); return false; }
  std::vector<char> used(got.size(), 0);
  for (size_t i = 0; i < want.size(); ++i) {
    bool found = false;
    for (size_t k = 0; k < got.size() && !found; ++k) {
      const size_t j = (i + k) % got.size();
      if (!used[j] && close_to(got[j], want[i])) { used[j] = 1; found = true; }
    }
    if (!found) { *why = fmt(" point %zu (%g %g %g) is missing, there %s", i, want[i].v[0], want[i].v[1], want[i].v[2], show(got[i]).c_str()); return false; }
  }
  return true;
}

static bool is_thinned(const InnerCloudType& got, const std::vector<P5>& all, double size, std::string* why) {
  // cells touched by a point whose cell depends on rounding are not judged
  std::map<Cell, std::array<double, 5>> want;
  std::set<Cell> vague;
  for (auto& p : all) {
    Cell lo, hi;
    for (int k = 0; k < 3; ++k) { lo[k] = std::lround((p.v[k] - 2 * p.tol) / size - 1e-3); hi[k] = std::lround((p.v[k] + 2 * p.tol) / size + 1e-3); }
    for (long x = lo[0]; x <= hi[0]; ++x) for (long y = lo[1]; y <= hi[1]; ++y) for (long z = lo[2]; z <= hi[2]; ++z) if (lo != hi) vague.insert(Cell{{x, y, z}});
    auto& w = want[lo];
    for (int k = 0; k < 4; ++k) w[k] += p.v[k];
    w[4] += 1;
  }
  std::set<Cell> seen;
  size_t judged = 0;
  for (auto& p : got.points) {
    Cell c{{std::lround(p.x / size), std::lround(p.y / size), std::lround(p.z / size)}};
    if (vague.count(c)) continue;
    auto it = want.find(c);
    if (it == want.end()) {
      // a mean next to a border may be counted to the neighbour
      bool edge = false;
      for (float v : {p.x, p.y, p.z}) { double q = v / size - 0.5; edge |= std::fabs(q - std::round(q)) < 2e-3; }
      if (edge) continue;
      *why = " point " + show(p) + " outside of every occupied cell";
      return false;
    }
    if (!seen.insert(c).second) { *why = " two points in the cell of " + show(p); return false; }
    const auto& w = it->second;
    const double tol = 1e-4 + 1e-5 * (std::fabs(p.x) + std::fabs(p.y) + std::fabs(p.z));
    if (std::fabs(p.x - w[0] / w[4]) > tol || std::fabs(p.y - w[1] / w[4]) > tol || std::fabs(p.z - w[2] / w[4]) > tol || std::fabs(p.intensity - w[3] / w[4]) > 1e-3) {
      *why = " mean of a cell is off: " + show(p) + fmt(" instead of %g %g %g", w[0] / w[4], w[1] / w[4], w[2] / w[4]);
      return false;
    }
    ++judged;
  }
  for (auto& kv : want)
    if (!vague.count(kv.first) && !seen.count(kv.first)) {
      *why = fmt(" no point in cell %ld %ld %ld", kv.first[0], kv.first[1], kv.first[2]);
      return false;
    }
  count("cells-judged", judged);
  return true;
}

static void fill_and_move(Rng& r) {
  SubmapOptions o;
  o.frame_count = r.p(0.2) ? 1 : r.i(2, 8);
  o.enable_check = r.p(0.7);
  o.enable_voxel_filter = r.p(0.5);
  if (r.p(0.8)) o.voxel_size = r.p(0.4) ? 1.f : float(r.d(0.03, 8));
  o.enable_disk_saving = r.p(0.2);
  if (r.p(0.3)) o.saving_name_prefix = "piece-";
  const double spread = r.p(0.5) ? 20 : r.p(0.5) ? 0 : 3000;
  auto in = inputs(r, o.frame_count, spread, r.p(0.5) ? 15 : 80);
  Submap s(o);
  SubmapId id;
  id.trajectory_index = r.i(0, 3);
  id.submap_index = r.i(0, 40);
  s.SetId(id);
  VP_REQUIRE(s.GetId() == id && !(s.GetId() != id), "id-lost", id.DebugString());
  const std::string d = fmt("%d frames, check %d, thinning %d cell %g, spread %g", o.frame_count, o.enable_check, o.enable_voxel_filter, o.voxel_size, spread);

  std::vector<std::shared_ptr<Frame>> frames;
  std::vector<Eigen::Matrix4d> rel;
  Eigen::Matrix4d where = in[0].pose;  // the submap's own pose
  const bool moved_early = o.frame_count > 1 && r.p(0.25);
  const double ptol = 1e-5 + 1e-11 * spread;
  const int move_at = r.i(1, std::max(1, o.frame_count - 1));
  auto check_frames = [&](const char* when) {
    VP_REQUIRE(pose_gap(s.GlobalPose(), where) < ptol, "submap-pose", d + " " + when);
    for (size_t i = 0; i < frames.size(); ++i) {
      VP_REQUIRE(pose_gap(frames[i]->LocalPose(), rel[i]) < ptol, "relative-pose-changed", d + fmt(" frame %zu ", i) + when);
      VP_REQUIRE(pose_gap(frames[i]->GlobalPose(), where * rel[i]) < ptol * 3, "frame-pose", d + fmt(" frame %zu off by %g ", i, pose_gap(frames[i]->GlobalPose(), where * rel[i])) + when);
    }
  };
  for (int i = 0; i < o.frame_count; ++i) {
    VP_REQUIRE(!s.Full(), "full-too-early", d + fmt(" after %d", i));
    if (moved_early && i == move_at) {
      where = rand_pose(r, spread);
      s.SetGlobalPose(where);
      s.UpdateInnerFramePose();
      check_frames("moved before it was full");
      // what follows is placed relative to the moved submap
      for (int k = i; k < o.frame_count; ++k) in[k].pose = where * inv(in[0].pose) * in[k].pose;
      for (int k = 0; k < i; ++k) in[k].pose = where * rel[k];
    }
    auto f = frame(in[i]);
    s.InsertFrame(f);
    frames.push_back(f);
    rel.push_back(inv(where) * in[i].pose);
    VP_REQUIRE(f->id_.frame_index == i && f->id_.submap_index == id.submap_index && f->id_.trajectory_index == id.trajectory_index, "frame-id",
               d + " " + f->id_.DebugString());
    VP_REQUIRE(int(s.GetFrames().size()) == i + 1, "frame-count", d);
    check_frames("inserting");
  }
  VP_REQUIRE(s.Full(), "not-full", d);
  VP_REQUIRE(same_stamp(s.GetTimeStamp(), in[0].stamp), "submap-stamp", d);
  // the frames themselves are untouched
  for (int i = 0; i < o.frame_count; ++i) {
    VP_REQUIRE(s.GetFrames()[i] == frames[i], "frame-order", d);
    VP_REQUIRE(same_points(frames[i]->Cloud()->GetInnerCloud()->points, in[i].cloud.points), "frame-cloud-changed", d);
    FrameId q = frames[i]->id_;
    VP_REQUIRE(s.GetFrame(q) == frames[i], "frame-lookup", d);
    VP_REQUIRE(q == frames[i]->id_ && !(q != frames[i]->id_) && !(q < frames[i]->id_), "frame-id-order", d);
    ++q.trajectory_index;
    VP_REQUIRE(!s.GetFrame(q), "frame-lookup", d + " other trajectory");
    VP_REQUIRE(frames[i]->id_ < q && q != frames[i]->id_ && !(q < frames[i]->id_), "frame-id-order", d);
    --q.trajectory_index;
    ++q.submap_index;
    VP_REQUIRE(!s.GetFrame(q), "frame-lookup", d + " other submap");
    VP_REQUIRE(frames[i]->id_ < q && q != frames[i]->id_, "frame-id-order", d);
    --q.submap_index;
    q.frame_index = r.p(0.5) ? o.frame_count : -1 - int(r.i(0, 5));
    VP_REQUIRE(!s.GetFrame(q), "frame-lookup", d + " beyond");
  }
  std::string why;
  auto want = expected_union(in);
  auto check_cloud = [&](const char* when) {
    auto c = s.Cloud()->GetInnerCloud();
    VP_REQUIRE(same_stamp(c->stamp, in[0].cloud.stamp) && same_stamp(s.Cloud()->GetTime(), in[0].cloud.stamp), "cloud-stamp", d);
    if (o.enable_voxel_filter) VP_REQUIRE(is_thinned(*c, want, o.voxel_size, &why), "thinned-differently", d + why + when);
    else VP_REQUIRE(is_union(c->points, want, &why), "not-the-union", d + why + when);
  };
  check_cloud(" when full");

  // one frame more is refused
  if (r.p(0.1)) {
    std::string out;
    int st = in_child([&](int fd) {
      s.InsertFrame(frame(in[0]));
      if (int(s.GetFrames().size()) != o.frame_count && write(fd, "took", 4)) {}
    }, &out);
    VP_REQUIRE(out.empty(), "accepted-too-many", d + fmt(" status %d", st));
  }

  const int moves = r.i(0, 6);
  Eigen::Matrix4d last = where;
  for (int m = 0; m < moves; ++m) {
    const int sets = r.i(1, 3);
    for (int k = 0; k < sets; ++k) { last = r.p(0.2) ? last : rand_pose(r, r.p(0.5) ? spread : 3); s.SetGlobalPose(last); }
    where = last;
    for (int k = r.i(1, 2); k > 0; --k) s.UpdateInnerFramePose();
    check_frames("moved");
    const Eigen::VectorXd six = s.GlobalPoseIn6Dof();
    VP_REQUIRE(six.size() == 6 && (six.head(3) - where.block<3, 1>(0, 3)).norm() < ptol, "six-dof", d);
    Eigen::Vector6<double> six6 = six;
    VP_REQUIRE(pose_gap(static_map::common::Vector6ToTransform(six6), where) < 1e-5 + ptol, "six-dof", d);
    VP_REQUIRE((s.GlobalRotation() - where.block<3, 3>(0, 0)).norm() < 1e-5 && (s.GlobalTranslation() - where.block<3, 1>(0, 3)).norm() < ptol, "pose-parts", d);
    VP_REQUIRE((frames.back()->LocalRotation() - rel.back().block<3, 3>(0, 0)).norm() < 1e-5 && (frames.back()->LocalTranslation() - rel.back().block<3, 1>(0, 3)).norm() < ptol, "pose-parts", d);
  }
  check_cloud(" after moving");

  // bookkeeping around it
  std::vector<SubmapId> con;
  for (int k = r.i(0, 4); k > 0; --k) {
    SubmapId c;
    c.trajectory_index = r.i(0, 2);
    c.submap_index = r.i(0, 9);
    con.push_back(c);
    s.AddConnectedSubmap(c);
  }
  VP_REQUIRE(s.GetConnected() == con, "connections", d);
  const std::string name = s.SavedFileName();
  VP_REQUIRE(name.empty() == !o.enable_disk_saving, "file-name", d + " " + name);
  if (o.enable_disk_saving) {
    SubmapOptions o2 = o;
    Submap other(o2);
    SubmapId oid = id;
    if (r.p(0.5)) ++oid.submap_index; else ++oid.trajectory_index;
    other.SetId(oid);
    VP_REQUIRE(other.SavedFileName() != name, "file-name-shared", name);
  }
  cover(fmt("%d %d %d %d %d %d", o.frame_count, o.enable_check, o.enable_voxel_filter, int(std::log2(o.voxel_size)), moved_early, moves));
}

// options that are offered but do something else
static void other_options(Rng& r) {
  auto in = inputs(r, 2, 5, 15);
  SubmapOptions o;
  o.frame_count = 2;
  const bool mrvm = r.p(0.5);
  if (mrvm) o.enable_inner_mrvm = true;
  else { o.enable_random_sampleing = true; o.random_sampling_rate = 0.3f; }
  size_t all = 0;
  for (auto& f : in) all += f.cloud.points.size();
  while (all < 60) { in[0].cloud.points.push_back(pt(r.d(-9, 9), r.d(-9, 9), r.d(-9, 9), 1, 0)); ++all; }
  std::string out;
  int st = in_child([&](int fd) {
    Submap s(o);
    SubmapId id{0, 0};
    s.SetId(id);
    for (auto& f : in) s.InsertFrame(frame(f));
    std::string n = fmt("%zu", s.Cloud()->GetInnerCloud()->points.size());
    if (write(fd, n.data(), n.size())) {}
  }, &out);
  eval();
  if (mrvm) {
    if (out.empty() || atol(out.c_str()) == 0) violation("occupancy-thinning-aborts", fmt("%zu points, status %d, result '%s'", all, st, out.c_str()));
  } else if (out.empty()) {
    violation("random-thinning-aborts", fmt("status %d", st));
  } else if (size_t(atol(out.c_str())) == all) {
    violation("random-thinning-ignored", fmt("rate 0.3 kept all %zu points", all));
  }
  cover(fmt("option %d", mrvm));
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long k, Rng& r) {
    if (k % 40 == 7) other_options(r);
    else fill_and_move(r);
  });
}
