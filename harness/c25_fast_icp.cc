// C25: the fast matcher. C26 uses the same workload for the other matchers.
#include <omp.h>

#include "registrators/interface.h"
#include "scene.h"

using namespace vp;
using static_map::data::InnerCloudType;
using static_map::data::InnerPointCloudData;
namespace reg = static_map::registrator;

static InnerPointCloudData::Ptr data_of(const std::vector<Eigen::Vector3d>& p) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = make_time(1000, 0);
  for (size_t i = 0; i < p.size(); ++i) c->points.push_back(pt(p[i][0], p[i][1], p[i][2], 10, float(i) / p.size()));
  InnerPointCloudData::Ptr d(new InnerPointCloudData(c));
  return d;
}

struct Result {
  bool ok;
  double score;
  Eigen::Matrix4d T;
};

static std::shared_ptr<reg::Interface> make(int type) {
  reg::MatcherOptions o;
  o.type = static_cast<reg::Type>(type);
  return reg::CreateMatcher(o, false);
}

static Result align(reg::Interface* m, const InnerPointCloudData::Ptr& target, const InnerPointCloudData::Ptr& source, const Eigen::Matrix4d& guess, bool swap_order) {
  if (swap_order) { m->SetInputSource(source); m->SetInputTarget(target); }
  else { m->SetInputTarget(target); m->SetInputSource(source); }
  Result r;
  r.T = Eigen::Matrix4d::Constant(7);
  r.ok = m->Align(guess, r.T);
  r.score = m->GetFitnessScore();
  return r;
}

// A scan taken while moving: the pose goes from the guess to the end pose.
static void moving(Rng& r) {
  World w = make_world(r, r.d(8, 16), r.d(8, 14), r.i(8, 14), [](double a, double b) { return std::hypot(a, b) < 2.5; });
  ScanSpec s;
  s.columns = r.i(150, 200);
  s.rings = 16;
  s.noise = r.p(0.5) ? 0 : 0.01;
  s.far = 30;
  auto nudge = [&](double t, double a) { return pose_of(r.d(-t, t), r.d(-t, t), r.d(-t, t) * 0.3, r.d(-a, a), r.d(-a, a) / 3, r.d(-a, a) / 3); };
  const Eigen::Matrix4d A = pose_of(r.d(-1, 1), r.d(-1, 1), r.d(1.5, 2), r.d(-M_PI, M_PI), 0, 0), guess = nudge(0.5, 0.1), D = nudge(0.25, 0.05);
  auto target = data_of(scan_world(r, w, A, s));
  target->CalculateNormals();
  auto seen = scan_world(r, w, A * D * guess, s);
  for (size_t i = seen.size(); i > 1; --i) std::swap(seen[i - 1], seen[r.i(0, int(i) - 1)]);
  const Eigen::Quaterniond q(Eigen::Matrix3d(D.block<3, 3>(0, 0)));
  for (size_t i = 0; i < seen.size(); ++i) {
    const double f = double(i) / seen.size();
    Eigen::Matrix4d part = Eigen::Matrix4d::Identity();
    part.block<3, 3>(0, 0) = Eigen::Quaterniond::Identity().slerp(f, q).toRotationMatrix();
    part.block<3, 1>(0, 3) = f * D.block<3, 1>(0, 3);
    const Eigen::Vector4d at = D * guess * seen[i].homogeneous();
    seen[i] = (Eigen::Matrix4d(part * guess).inverse() * at).head<3>();
  }
  auto source = data_of(seen);
  auto m = make(reg::kFastIcp);
  m->EnableInnerCompensation();
  eval();
  const Result a = align(m.get(), target, source, guess, r.p(0.5));
  const Eigen::Matrix4d T = D * guess;
  const double et = (a.T - T).block<3, 1>(0, 3).norm(), er = rot_angle(a.T.block<3, 3>(0, 0), T.block<3, 3>(0, 0));
  observe("moving scan, translation error", et);
  observe("moving scan, rotation error", er);
  const std::string d = fmt("%zu to %zu points, noise %g, moved %.3f m %.3f rad while scanning, result off by %g m %g rad", seen.size(), target->GetInnerCloud()->points.size(), s.noise, D.block<3, 1>(0, 3).norm(), rot_angle(D.block<3, 3>(0, 0), Eigen::Matrix3d::Identity()), et, er);
  VP_REQUIRE(a.ok && is_rigid(a.T, 1e-4), "moving-scan", d);
  VP_REQUIRE(et < 0.1 && er < 0.02, "moving-scan", d);
  cover(fmt("moving %d %d", s.noise > 0, int(20 * D.block<3, 1>(0, 3).norm())));
  m->DisableInnerCompensation();
  auto n = make(reg::kFastIcp);
  const Result b = align(m.get(), target, source, guess, true), c = align(n.get(), target, source, guess, true);
  VP_REQUIRE((b.T - c.T).norm() < 1e-6, "depends-on-history", d + " compensation disabled again");
}

static void one(long, Rng& r) {
  const std::string kind = arg("part");
  const int type = kind == "ndt" ? int(reg::kNdt) : kind == "gicp" ? int(reg::kNdtWithGicp) : int(reg::kFastIcp);
  const bool fast = type == reg::kFastIcp;
  World w = make_world(r, r.d(8, 16), r.d(8, 14), r.i(5, 14), [](double a, double b) { return std::hypot(a, b) < 2.5; });
  ScanSpec s;
  s.columns = r.i(120, 200);
  s.rings = 16;
  s.noise = r.p(0.5) ? 0 : 0.01;
  s.far = 30;
  const bool level = r.p(0.5);
  auto ang = [&](double a) { return level ? 0 : r.d(-a, a); };
  const Eigen::Matrix4d A = pose_of(r.d(-1, 1), r.d(-1, 1), r.d(1.5, 2), r.d(-M_PI, M_PI), ang(0.05), ang(0.05));
  auto nudge = [&](double t, double a) { return pose_of(r.d(-t, t), r.d(-t, t), level ? 0 : r.d(-t, t) * 0.3, r.d(-a, a), ang(a / 3), ang(a / 3)); };
  // any heading: the guess says which one
  const Eigen::Matrix4d T = r.p(0.1) ? Eigen::Matrix4d(Eigen::Matrix4d::Identity()) : Eigen::Matrix4d(nudge(0.8, 0.2) * pose_of(0, 0, 0, r.p(0.4) ? r.d(-M_PI, M_PI) : 0, 0, 0));
  const Eigen::Matrix4d guess = r.p(0.2) ? T : Eigen::Matrix4d(T * (kind == "ndt" ? nudge(0.1, 0.03) : nudge(0.25, 0.05)));
  auto target = data_of(scan_world(r, w, A, s)), source = data_of(scan_world(r, w, A * T, s));
  if (fast) target->CalculateNormals();
  const auto tb = target->GetInnerCloud()->points, sb = source->GetInnerCloud()->points;
  const auto te = *target->GetEigenCloud(), se = *source->GetEigenCloud();
  const std::string d = fmt("%s: %zu to %zu points, noise %g, level %d, turned by %.2f, guess off by %.3f m %.3f rad", kind.c_str(), sb.size(), tb.size(), s.noise, level, rot_angle(T.block<3, 3>(0, 0), Eigen::Matrix3d::Identity()), (guess - T).block<3, 1>(0, 3).norm(), rot_angle(guess.block<3, 3>(0, 0), T.block<3, 3>(0, 0)));
  auto m = make(type);
  eval();
  if (!m) { violation("no-matcher", d); return; }
  VP_REQUIRE(m->GetType() == type, "wrong-matcher", d);
  VP_REQUIRE(!make(reg::kNoType) && !make(reg::kTypeCount), "made-unknown-matcher", d);
  const Result a = align(m.get(), target, source, guess, r.p(0.5));
  VP_REQUIRE(a.ok, "reported-failure", d);
  VP_REQUIRE(is_rigid(a.T, 1e-4), "not-rigid", d);
  const double et = (a.T - T).block<3, 1>(0, 3).norm(), er = rot_angle(a.T.block<3, 3>(0, 0), T.block<3, 3>(0, 0));
  observe("translation error", et);
  observe("rotation error", er);
  observe("score", a.score);
  const double lt = kind == "ndt" ? 0.6 : 0.1, lr = kind == "ndt" ? 0.08 : 0.02;
  bool right = et < lt && er < lr;
  if (!right && kind == "ndt") {
    // in a few worlds it settles elsewhere; the same motion in other worlds tells
    int good = 0;
    for (int i = 0; i < 8; ++i) {
      const World w2 = make_world(r, r.d(8, 16), r.d(8, 14), r.i(5, 14), [](double a, double b) { return std::hypot(a, b) < 2.5; });
      auto t2 = data_of(scan_world(r, w2, A, s)), s2 = data_of(scan_world(r, w2, A * T, s));
      const Result b = align(m.get(), t2, s2, T * nudge(0.1, 0.03), false);
      good += (b.T - T).block<3, 1>(0, 3).norm() < lt && rot_angle(b.T.block<3, 3>(0, 0), T.block<3, 3>(0, 0)) < lr;
    }
    right = good >= 5;
    observe("of eight more worlds right", good);
    count("settled elsewhere");
    m = make(type);
    align(m.get(), target, source, guess, true);
  }
  VP_REQUIRE(right, "wrong-motion", d + fmt(" result off by %g m %g rad", et, er));
  VP_REQUIRE(a.score > 0 && a.score <= 1, "score-range", d + fmt(" score %g", a.score));
  // inputs as they were
  VP_REQUIRE(same_points(tb, target->GetInnerCloud()->points) && same_points(sb, source->GetInnerCloud()->points), "input-changed", d);
  for (auto& b : {std::make_pair(target, te), std::make_pair(source, se)}) {
    auto e = b.first->GetEigenCloud();
    VP_REQUIRE(e && e->points.cols() == b.second.points.cols() && e->points == b.second.points && e->normals == b.second.normals && e->factors == b.second.factors, "input-changed", d + " (matrix form)");
  }
  // again, with the same object, after another pair, with another thread count
  auto close = [&](const Result& b, const char* what) {
    const double dt = (a.T - b.T).block<3, 1>(0, 3).norm(), dr = rot_angle(a.T.block<3, 3>(0, 0), b.T.block<3, 3>(0, 0));
    observe(fmt("repeat (%s)", what), dt + dr);
    VP_REQUIRE(b.ok == a.ok && dt < 1e-4 && dr < 1e-4 && std::fabs(a.score - b.score) < 1e-4, "depends-on-history", d + fmt(" %s: off by %g m %g rad, score %g and %g", what, dt, dr, a.score, b.score));
  };
  Eigen::Matrix4d again_T = Eigen::Matrix4d::Zero();
  { Result b; b.ok = m->Align(guess, b.T); b.score = m->GetFitnessScore(); close(b, "same clouds again"); again_T = b.T; }
  {
    const Eigen::Matrix4d T2 = nudge(0.8, 0.2);
    auto t2 = data_of(scan_world(r, w, A * nudge(0.5, 1), s)), s2 = data_of(scan_world(r, w, A * T2, s));
    if (fast) t2->CalculateNormals();
    align(m.get(), t2, s2, T2, false);
    close(align(m.get(), target, source, guess, false), "after another pair");
    auto n = make(type);
    const int threads = omp_get_max_threads();
    omp_set_num_threads(r.i(1, 5));
    close(align(n.get(), target, source, guess, true), "new object, other thread count");
    omp_set_num_threads(threads);
    align(n.get(), target, s2, T2, true);
    n->SetInputSource(source);
    Result b;
    b.ok = n->Align(guess, b.T);
    b.score = n->GetFitnessScore();
    close(b, "only the source exchanged");
  }
  // clouds swapped out in the meantime
  {
    auto n = make(type);
    const int which = r.i(1, 3);
    if (which & 1) source->SaveToFile("source.bin"), source->Clear();
    if (which & 2) target->SaveToFile("target.bin"), target->Clear();
    close(align(n.get(), target, source, guess, r.p(0.5)), "clouds on disk");
  }
  // worse overlap
  {
    std::vector<Eigen::Vector3d> bent;
    const double push = r.d(0.8, 1.5);
    for (auto& p : sb) bent.push_back(Eigen::Vector3d(p.x, p.y, p.z) + Eigen::Vector3d(r.gauss(), r.gauss(), r.gauss()) * (r.p(0.5) ? push : 0.0));
    const Result b = align(m.get(), target, data_of(bent), guess, false);
    observe("score of a worse overlap", b.score);
    VP_REQUIRE(b.score < a.score, "score-order", d + fmt(" score %g, with half of the points scattered %g", a.score, b.score));
  }
  cover(fmt("%s %d %d %d %d", kind.c_str(), level, s.noise > 0, int(sb.size() / 100), int(std::floor(20 * (guess - T).block<3, 1>(0, 3).norm()))));
}

static int type_of(const std::string& kind) {
  return kind == "ndt" ? int(reg::kNdt) : kind == "gicp" ? int(reg::kNdtWithGicp) : int(reg::kFastIcp);
}

// KIND WHAT SEED: exit 0 for a refusal, 1 for a pose
static int no_input_main(int, char** argv) {
  const int type = type_of(argv[1]), what = atoi(argv[2]);
  Rng r(strtoull(argv[3], nullptr, 10));
  World w = make_world(r, 8, 8, 5, [](double a, double b) { return std::hypot(a, b) < 2.5; });
  ScanSpec s;
  s.columns = 60;
  auto m = make(type);
  auto c = data_of(scan_world(r, w, pose_of(0, 0, 1.8, 0, 0, 0), s));
  if (type == reg::kFastIcp) c->CalculateNormals();
  if (what == 1) m->SetInputTarget(c);
  if (what == 2) m->SetInputSource(c);
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  return m->Align(Eigen::Matrix4d::Identity(), T) ? 1 : 0;
}

static void no_input(Rng& r) {
  const std::string kind = arg("part");
  const int what = r.i(0, 2);
  eval();
  const int st = run_tool("noinput", {kind, fmt("%d", what), fmt("%d", r.i(0, 1 << 30))});
  const char* names[] = {"nothing set", "only the target set", "only the source set"};
  VP_REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "unusable-input", kind + ": " + names[what] + fmt(", %s %d", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)));
  cover(fmt("unusable %s %d", kind.c_str(), what));
}

int main(int argc, char** argv) {
  tool_main(argc, argv, {{"noinput", no_input_main}});
  return run(argc, argv, [](long k, Rng& r) {
    if (r.p(0.2)) no_input(r);
    else if (arg("part") == "fast" && r.p(0.25)) moving(r);
    else one(k, r);
  });
}
