// C22: place descriptors.
#include "descriptor/m2dp.h"
#include "scene.h"

using namespace vp;
using static_map::data::InnerCloudType;
using static_map::descriptor::M2dp;
using static_map::descriptor::matchTwoM2dpDescriptors;

static InnerCloudType::Ptr cloud_of(const std::vector<Eigen::Vector3d>& p) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000, 0);
  for (auto& q : p) c->points.push_back(pt(q[0], q[1], q[2], 10, 0));
  return c;
}

static M2dp::Descriptor fresh(const InnerCloudType::Ptr& c) {
  M2dp m;
  if (!m.setInputCloud(c)) violation("no-descriptor", fmt("%zu points", c->points.size()));
  return m.getFinalDescriptor();
}

static std::vector<Eigen::Vector3d> place(Rng& r, World* w, double* x, double* y) {
  *w = make_world(r, r.d(12, 30), r.d(6, 12), r.i(4, 14), [](double a, double b) { return std::hypot(a, b) < 2.5; });
  *x = r.d(-1, 1);
  *y = r.d(-1, 1);
  ScanSpec s;
  s.columns = 120;
  return scan_world(r, *w, pose_of(*x, *y, 1.8, r.d(-M_PI, M_PI)), s);
}

static void one(long, Rng& r) {
  World w, w2;
  double x, y, x2, y2;
  const auto raw = place(r, &w, &x, &y);
  auto c = cloud_of(raw);
  const std::string d = fmt("%zu points", c->points.size());
  const auto before = c->points;
  const auto a = fresh(c);
  VP_REQUIRE(same_points(before, c->points), "input-changed", d);
  VP_REQUIRE(a.rows() > 0 && a.allFinite(), "not-finite", d);
  // repeated
  const auto b = fresh(c);
  VP_REQUIRE(a.rows() == b.rows() && (a - b).cwiseAbs().maxCoeff() < 1e-6, "not-repeatable", d);
  // one object for several clouds
  auto other = cloud_of(place(r, &w2, &x2, &y2));
  {
    M2dp m;
    if (r.p(0.5)) { m.setInputCloud(other); }
    for (int k = r.i(1, 2); k > 0; --k) m.setInputCloud(c);
    const auto e = m.getFinalDescriptor();
    VP_REQUIRE(e.rows() == a.rows() && (a - e).cwiseAbs().maxCoeff() < 1e-6, "depends-on-history", d + fmt(" off by %g", e.rows() == a.rows() ? (a - e).cwiseAbs().maxCoeff() : -1.f));
  }
  // order of the points
  {
    auto q = raw;
    for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[r.i(0, i - 1)]);
    const double s = matchTwoM2dpDescriptors(a, fresh(cloud_of(q)));
    observe("order", s);
    VP_REQUIRE(s > 0.999, "depends-on-order", d + fmt(" score %g", s));
  }
  // rigid motion
  {
    const Eigen::Matrix4d T = rand_pose(r, r.p(0.6) ? 50 : 600);
    std::vector<Eigen::Vector3d> q;
    for (auto& p : raw) q.push_back(T.block<3, 3>(0, 0) * p + T.block<3, 1>(0, 3));
    const double s = matchTwoM2dpDescriptors(a, fresh(cloud_of(q)));
    observe("moved", s);
    VP_REQUIRE(s > 0.95, "depends-on-pose", d + fmt(" score %g", s));
  }
  // comparison
  const auto o = fresh(other);
  const double ab = matchTwoM2dpDescriptors(a, o), ba = matchTwoM2dpDescriptors(o, a);
  VP_REQUIRE(std::fabs(ab - ba) < 1e-6, "not-symmetric", d + fmt(" %g %g", ab, ba));
  VP_REQUIRE(ab >= 0 && ab <= 1 + 1e-4, "score-range", d + fmt(" %g", ab));
  VP_REQUIRE(std::fabs(matchTwoM2dpDescriptors(a, a) - 1) < 1e-4, "self-score", d + fmt(" %g", matchTwoM2dpDescriptors(a, a)));
  VP_REQUIRE(std::fabs(matchTwoM2dpDescriptors(a, -a) - 1) < 1e-4, "sign-score", d);
  {
    M2dp::Descriptor s = a.head(r.i(0, a.rows() - 1)), t = M2dp::Descriptor::Ones(r.i(0, 9));
    VP_REQUIRE(matchTwoM2dpDescriptors(a, s) == -1 && matchTwoM2dpDescriptors(s, a) == -1, "incomparable", d);
    VP_REQUIRE(matchTwoM2dpDescriptors(t, t) == -1, "incomparable", d);
  }
  // the same place seen again against another place
  ScanSpec s;
  s.columns = 120;
  s.noise = 0.02;
  const auto again = fresh(cloud_of(scan_world(r, w, pose_of(x + r.d(-0.5, 0.5), y + r.d(-0.5, 0.5), 1.8, r.d(-M_PI, M_PI)), s)));
  const double same = matchTwoM2dpDescriptors(a, again);
  observe("same place", same);
  double others = ab;
  const int more = 4;
  for (int k = 0; k < more; ++k) {
    World wk;
    double u, v;
    others += matchTwoM2dpDescriptors(a, fresh(cloud_of(place(r, &wk, &u, &v))));
  }
  others /= more + 1;
  observe("other places", others);
  observe("margin", same - others);
  VP_REQUIRE(same > others, "not-place-specific", d + fmt(" same place %g, other places %g", same, others));
  VP_REQUIRE(same > 0.9, "place-not-recognised", d + fmt(" same place %g", same));
  cover(fmt("%d %d", int(raw.size() / 20), int(same * 200)));
}

static void few(Rng& r) {
  // clouds without extent must not end the program
  const int n = r.i(0, 4), kind = r.i(0, 3);
  std::vector<Eigen::Vector3d> p;
  for (int i = 0; i < (kind == 0 ? n : 40); ++i) {
    if (kind <= 1) p.push_back(kind ? Eigen::Vector3d(1, 2, 3) : Eigen::Vector3d(r.d(-5, 5), r.d(-5, 5), r.d(-5, 5)));
    if (kind == 2) p.push_back(Eigen::Vector3d(1, 1, 0) * r.d(-5, 5));
    if (kind == 3) p.push_back(Eigen::Vector3d(r.d(-5, 5), r.d(-5, 5), 1) * (r.p(0.5) ? 1 : 1000));
  }
  std::string out;
  auto c = cloud_of(p);
  in_child([&](int fd) {
    M2dp m;
    const bool ok = m.setInputCloud(c);
    if (ok && !m.getFinalDescriptor().allFinite()) { if (write(fd, "nan", 3)) {} return; }
    if (write(fd, ok ? "yes" : "no", ok ? 3 : 2)) {}
  }, &out);
  const std::string d = fmt("%zu points of kind %d", p.size(), kind);
  VP_REQUIRE(out == "yes" || out == "no", "thin-cloud", d + " " + out);
  VP_REQUIRE(!p.empty() || out == "no", "empty-cloud", d);
  cover(fmt("few %d %d", kind, int(p.size())));
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long, Rng& r) {
    if (r.p(0.15)) few(r);
    else one(0, r);
  });
}
