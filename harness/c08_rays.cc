// C08: cells visited by a ray.
#include "common/math.h"
#include "vp.h"

using namespace vp;
using Eigen::Vector3f;
using Eigen::Vector3i;

static int cell(float v, float step) { return int(std::floor(v / step)); }

static void trace(const char* name, const std::vector<Vector3i>& c, const Vector3f& a, const Vector3f& b, float step) {
  const Vector3i s(cell(a[0], step), cell(a[1], step), cell(a[2], step));
  const Vector3i e(cell(b[0], step), cell(b[1], step), cell(b[2], step));
  std::string d = fmt("%s from (%.9g %.9g %.9g) to (%.9g %.9g %.9g) step %.9g: %zu cells", name, a[0], a[1], a[2], b[0], b[1], b[2], step, c.size());
  eval();
  if (c.empty()) { violation("empty-trace", d); return; }
  VP_REQUIRE(c.front() == s, "wrong-start", d);
  VP_REQUIRE(c.back() == e, "wrong-end", d);
  const Vector3i dir(e[0] > s[0] ? 1 : e[0] < s[0] ? -1 : 0, e[1] > s[1] ? 1 : e[1] < s[1] ? -1 : 0, e[2] > s[2] ? 1 : e[2] < s[2] ? -1 : 0);
  const int dm = (e - s).cwiseAbs().maxCoeff();
  VP_REQUIRE(int(c.size()) <= 1 + (e - s).cwiseAbs().sum() && int(c.size()) >= dm + 1, "wrong-length", d);
  bool conn = true, mono = true, dup = false;
  double far = 0;
  for (size_t i = 1; i < c.size(); ++i) {
    const Vector3i st = c[i] - c[i - 1];
    if (st.cwiseAbs().maxCoeff() > 1) conn = false;
    if (st.isZero()) dup = true;
    for (int k = 0; k < 3; ++k)
      if (st[k] != 0 && st[k] != dir[k]) mono = false;
  }
  VP_REQUIRE(conn, "not-connected", d);
  VP_REQUIRE(!dup, "cell-repeated", d);
  VP_REQUIRE(mono, "turns-back", d);
  // distance of the cell index from the segment in index space, per axis
  const Eigen::Vector3d S = s.cast<double>(), E = e.cast<double>(), D = E - S;
  int ax = 0;
  D.cwiseAbs().maxCoeff(&ax);
  for (auto& v : c) {
    if (D[ax] == 0) break;
    double t = (v[ax] - S[ax]) / D[ax];
    far = std::max(far, (v.cast<double>() - (S + t * D)).cwiseAbs().maxCoeff());
  }
  VP_REQUIRE(far <= 0.5 + 1e-6, "strays", d + fmt(" deviation %.3f", far));
  cover(fmt("%s %d%d%d %d %d", name, dir[0], dir[1], dir[2], std::min(dm, 30), int(far * 10)));
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long id, Rng& r) {
    for (int k = 0; k < 60; ++k) {
      float step = r.p(0.3) ? 1.f : r.p(0.5) ? (r.p(0.5) ? 0.1f : 0.05f) : float(r.d(0.01, 3));
      Vector3f a, b;
      int kind = r.i(0, 6);
      double len = (r.p(0.5) ? 12 : r.p(0.8) ? 90 : 1500) * step;
      for (int i = 0; i < 3; ++i) {
        a[i] = r.d(-len, len);
        b[i] = r.d(-len, len);
      }
      if (kind == 1) b = a;
      if (kind == 2) { int ax = r.i(0, 2); for (int i = 0; i < 3; ++i) if (i != ax) b[i] = a[i]; }
      if (kind == 3) { for (int i = 0; i < 3; ++i) { a[i] = float(r.i(-12, 12)) * step; b[i] = float(r.i(-12, 12)) * step; } }
      if (kind == 4) { float t = r.d(-len, len); float sg[3]; for (int i = 0; i < 3; ++i) { sg[i] = r.p(0.5) ? 1.f : -1.f; a[i] = sg[i] * t; b[i] = -a[i]; } }
      if (kind == 5) { int ax = r.i(0, 2); b[ax] = a[ax]; }
      if (kind == 6) { a = Vector3f::Zero(); }
      auto x = static_map::common::VoxelCastingBresenham(a, b, step);
      trace("bresenham", x, a, b, step);
      auto y = static_map::common::VoxelCastingDDA(a, b, step);
      trace("dda", y, a, b, step);
      if (id == 0 && k < 3) sample(fmt("ray kind %d: %zu and %zu cells", kind, x.size(), y.size()));
    }
    // every displacement of a small grid, once per run
    if (id < 27) {
      Vector3i base(int(id % 3) - 1, int(id / 3 % 3) - 1, int(id / 9) - 1);
      for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) for (int z = -6; z <= 6; ++z) {
        Vector3f a(base[0] * 3 + 0.5f, base[1] * 3 + 0.5f, base[2] * 3 + 0.5f), b = a + Vector3f(x, y, z);
        trace("bresenham", static_map::common::VoxelCastingBresenham(a, b, 1.f), a, b, 1.f);
        trace("dda", static_map::common::VoxelCastingDDA(a, b, 1.f), a, b, 1.f);
      }
    }
  });
}
