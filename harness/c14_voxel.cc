// C14: voxel thinning.
#include "filters.h"

using namespace vp;
typedef std::array<long, 3> Cell;

static InnerCloudType::Ptr make(Rng& r, float size, int n, double span, bool one_cell) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = rand_time(r);
  const long far = r.p(0.5) ? 50 : 3000;
  long base[3] = {r.i(-far, far), r.i(-far, far), r.i(-far, far)};
  for (int i = 0; i < n; ++i) {
    float v[3];
    for (int k = 0; k < 3; ++k) {
      for (;;) {
        double u = one_cell ? base[k] + r.d(-0.49, 0.49) : r.p(0.1) ? std::round(r.d(-span, span)) : r.d(-span, span);
        v[k] = float(u * size);
        // keep clear of cell borders: there the cell depends on rounding
        const double q = double(v[k]) / double(size);
        if (std::fabs(q - std::floor(q) - 0.5) > 1e-3) break;
      }
    }
    c->points.push_back(pt(v[0], v[1], v[2], r.i(0, 255), r.d(0, 1)));
  }
  return c;
}

static void one(long id, Rng& r) {
  VoxelGrid f;
  float size = 0.1f;
  if (r.p(0.85)) { size = r.p(0.3) ? 1.f : float(r.d(0.02, 4)); f.SetValue("voxel_size", size); }
  VP_REQUIRE(f.ConfigsValid(), "config", "");
  for (int round = 0; round < 3; ++round) {
    int n = r.p(0.2) ? r.i(1, 3) : r.p(0.8) ? r.i(4, 500) : r.i(500, 6000);
    const bool single = r.p(0.25);
    double span = r.p(0.5) ? 3 : r.p(0.5) ? 0.45 : 400;
    auto in = make(r, size, n, span, single);
    std::map<Cell, std::array<double, 6>> want;
    for (auto& p : in->points) {
      Cell c{{std::lround(double(p.x) / size), std::lround(double(p.y) / size), std::lround(double(p.z) / size)}};
      auto& w = want[c];
      w[0] += p.x; w[1] += p.y; w[2] += p.z; w[3] += p.intensity; w[4] += 1; w[5] += p.factor;
    }
    const InnerCloudType before = *in;
    std::string d = fmt("cell %g, %d points in %zu cells", size, n, want.size());
    auto check = [&](const InnerCloudType& out, const char* what) {
      VP_REQUIRE(same_stamp(out.stamp, before.stamp), "stamp-changed", d);
      VP_REQUIRE(out.points.size() == want.size(), "wrong-number-of-cells", d + fmt(" -> %zu (%s)", out.points.size(), what));
      std::map<Cell, int> seen;
      bool ok = true;
      std::string w;
      for (auto& p : out.points) {
        Cell c{{std::lround(double(p.x) / size), std::lround(double(p.y) / size), std::lround(double(p.z) / size)}};
        auto it = want.find(c);
        if (it == want.end() || seen[c]++) { ok = false; w = " extra " + show(p); continue; }
        auto& s = it->second;
        // the only rounding allowed is the one of the stored value
        auto off = [](double got, double mean) { return std::fabs(got - mean) > 2e-7 * std::fabs(mean) + 1e-7; };
        if (off(p.x, s[0] / s[4]) || off(p.y, s[1] / s[4]) || off(p.z, s[2] / s[4]) || off(p.intensity, s[3] / s[4]) || off(p.factor, s[5] / s[4])) {
          ok = false;
          w = " mean off: " + show(p) + fmt(" instead of (%g %g %g i=%g f=%g)", s[0] / s[4], s[1] / s[4], s[2] / s[4], s[3] / s[4], s[5] / s[4]);
        }
      }
      VP_REQUIRE(ok, "wrong-mean", d + w + " " + what);
    };
    const int runs = r.i(1, 2);
    f.SetInputCloud(in);
    for (int k = 0; k < runs; ++k) {
      InnerCloudType::Ptr out(new InnerCloudType);
      if (r.p(0.5)) *out = *rand_cloud(r, 4);
      f.Filter(out);
      check(*out, k ? "second run" : "first run");
    }
    VP_REQUIRE(same_points(before.points, in->points), "input-modified", d);
    // order of the input is irrelevant
    auto sh = copy_cloud(*in);
    for (size_t i = sh->points.size(); i > 1; --i) std::swap(sh->points[i - 1], sh->points[r.i(0, i - 1)]);
    InnerCloudType::Ptr out(new InnerCloudType);
    f.SetInputCloud(sh);
    f.Filter(out);
    check(*out, "shuffled");
    cover(fmt("%d %d %d", int(std::log2(n)), int(std::log2(want.size())), int(size * 2)));
  }
  VoxelGrid bad;
  bad.SetValue("voxel_size", r.p(0.3) ? 0.f : float(-r.d(0, 3)));
  VP_REQUIRE(!bad.ConfigsValid(), "non-positive-size-accepted", "");
  InnerCloudType::Ptr e(new InnerCloudType), o(new InnerCloudType);
  f.SetInputCloud(e);
  f.Filter(o);
  VP_REQUIRE(o->points.empty(), "empty-input-gives-points", "");
  if (id == 0) sample("cell means recomputed in double, three clouds per object, shuffled repeats");
}

int main(int argc, char** argv) { return run(argc, argv, one); }
